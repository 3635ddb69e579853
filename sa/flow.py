"""Gated value-flow analysis of MIR bodies.

A forward, join-based abstract interpretation: every block is visited with the join of its
predecessors' states (loops: once per widening round, with the values that change replaced by
loop variables), values are terms (term.py), joined values are decision diagrams over the branch
conditions. Local callees and closures are analysed in place, so a helper extracted from a
function leaves the result unchanged. No path is enumerated and nothing is handed to a solver."""
import re, sys, time
from term import *
from term import _kids
from mir import World, short, strip_generics, AnchorError

sys.setrecursionlimit(60000)

UNTRACKED = {"FlatBufferBuilder", "Cursor", "Take", "BufReader", "BufWriter", "File", "Stdout", "Stdin", "AsyncBufferedHttpRangeClient",
             "Formatter", "Context", "ResumeTy", "Arguments", "Argument"}

IDENT = {
    "Clone::clone", "ToOwned::to_owned", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
    "Deref::deref", "DerefMut::deref_mut", "IntoIterator::into_iter", "IntoFuture::into_future",
    "Box::new", "Rc::new", "Arc::new", "Pin::new", "Pin::new_unchecked", "Pin::get_mut", "Pin::as_mut", "Box::pin", "Box::leak",
    "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Option::cloned", "Option::copied",
    "Result::as_ref", "Result::as_mut", "Option::iter", "Option::into_iter", "Option::flatten_",
    "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Iterator::fuse", "Iterator::into_iter", "Iterator::peekable",
    "String::as_str", "String::as_bytes", "str::as_bytes", "String::into_bytes", "str::as_str", "String::into_boxed_str",
    "Vec::as_slice", "Vec::as_mut_slice", "slice::to_vec", "slice::iter", "Vec::iter", "slice::into_vec", "slice::as_ref",
    "Vec::into_boxed_slice", "Vector::iter", "HashMap::iter", "Map::iter", "BTreeMap::iter", "VecDeque::iter", "HashSet::iter",
    "Cow::into_owned", "BytesMut::freeze", "Bytes::to_vec", "identity", "black_box", "must_use", "str::to_string",
    "slice::to_owned", "str::to_owned", "String::to_string", "String::clone", "ManuallyDrop::new", "NonNull::as_ref",
    "array::iter", "array::into_iter", "array::as_slice", "Vector::bytes", "Iterator::iter", "convert::identity",
    "Cursor::into_inner_", "Cow::as_ref", "Option::as_slice", "Wrapping::new", "str::as_ref", "Vec::drain_all",
    "slice::as_slice", "Vec::leak", "slice::iter_", "str::to_vec", "box_assume_init_into_vec_unsafe",
    "HashMap::into_iter", "SliceIndex::index_", "Some_", "ops::identity",
}

# containers: effect on the receiver
MUTATORS = {"push": "push", "push_back": "push", "push_str": "push", "extend": "extend", "extend_from_slice": "extend",
            "append": "extend", "push_front": "push_front"}

PANICS = ("panic", "panic_fmt", "unreachable_display", "panic_display", "assert_failed", "unreachable_default_msg", "panic_explicit",
          "panic_str_2015", "panic_nounwind", "assert_failed_inner", "begin_panic")


class Event:
    __slots__ = ("kind", "name", "path", "targs", "args", "guard", "fn", "bb", "stack", "ret", "loops", "tys", "f", "seq", "state", "pos")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def loc(self):
        return self.fn.loc(self.bb)

    def __repr__(self):
        return "<%s %s(%s) @%s>" % (self.kind, self.name, ", ".join(show(a, 3) for a in self.args), self.loc)


class LoopInfo:
    __slots__ = ("var", "init", "next", "key", "fn", "guard_in")


class FnInfo:
    """static per-function tables: RPO, loops, live locals"""

    def __init__(self, fn):
        self.fn = fn
        self.rpo = fn.rpo()
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        bb = fn.bb
        # the yield edge of a coroutine suspends; an awaited call is modelled as ready
        self.succ = {}
        for b in self.rpo:
            if bb[b]["t"]["k"] == "yield":
                self.succ[b] = []
            else:
                self.succ[b] = [s for s in fn.succ(b) if not bb[s]["c"]]
        reach = set()
        st = [0]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.succ[b])
        self.rpo = [b for b in self.rpo if b in reach]
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # natural loops (reducible CFG)
        self.loops = {}

        for b in self.rpo:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        self._live()

    def _live(self):
        fn = self.fn
        n = len(fn.locals)
        self.always = {0}
        use, de = {}, {}
        for b in self.rpo:
            u, d = set(), set()

            def see(l):
                if l not in d:
                    u.add(l)

            def pl(p, write=False):
                if write and not p[1]:
                    d.add(p[0])
                else:
                    see(p[0])
                for e in p[1]:
                    if isinstance(e, dict) and "ix" in e:
                        see(e["ix"])

            def op(o):
                for k in ("cp", "mv"):
                    if k in o:
                        pl(o[k])
            for s in fn.bb[b]["s"]:
                if "setd" in s:
                    see(s["setd"][0])
                    continue
                r = s["r"]
                for k in ("o", "a", "b"):
                    if isinstance(r.get(k), dict):
                        op(r[k])
                for o in r.get("ops", ()):
                    op(o)
                if "p" in r and isinstance(r["p"], list):
                    pl(r["p"])
                    if r["k"] in ("ref", "rawptr") and r.get("m") not in ("shared", "fake"):
                        self.always.add(r["p"][0])
                pl(s["p"], True)
            t = fn.bb[b]["t"]
            k = t["k"]
            if k == "call":
                op(t["f"])
                for o in t["args"]:
                    op(o)
                pl(t["d"], True)
            elif k == "switch":
                op(t["d"])
            elif k == "assert":
                op(t["c"])
            use[b], de[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                ni = use[b] | (out - de[b])
                if ni != live[b]:
                    live[b] = ni
                    ch = True
        self.live = live


class Flow:
    """one analysis run; events and loop tables accumulate over the roots analysed"""

    def __init__(self, world, opaque=(), inline=None, depth=14, max_events=200000, max_blocks=150000, strict=False):
        self.w = world
        self.opaque = set(opaque)
        self.inline = inline
        self.depth = depth
        self.events = []
        self.loops = {}          # lv term -> LoopInfo
        self.info = {}
        self.exits = {}         # loop key -> (target block or None for a return, guard, fails)
        self.lvcache = {}
        self.frames = {}
        self.stack = []          # [(Fn, bb)]
        self.loopstack = []
        self.mr = {}             # frame id -> Fn
        self.unresolved = set()
        self.nblocks = 0
        self.analysed = set()
        self.max_events = max_events
        self.max_blocks = max_blocks
        self.genv = {}           # generic parameter -> concrete type text of the frame being walked
        self.clenv = {}          # closure path -> the same, where the closure was made
        self.deadline = time.time() + 420
        self.strict = strict     # True: keep the success condition of every '?' in later guards

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, self_overrides=None):
        """analyse fn as a root: parameters are opaque terms -> return value term"""
        ps = []
        for i in range(fn.argc):
            nm = fn.names.get(i + 1, "arg%d" % i)
            ps.append(mk("param", nm, short(fn.path)) if not args or i not in args else args[i])
        r = self.call_body(fn, ps, TRUE, {}, None)
        if r and r[0].op == "agg" and r[0].a[2] == "coroutine" and r[0].a[0] in self.w.fns:
            # an async function: analyse its body as if awaited at once
            r = self.call_body(self.w.fns[r[0].a[0]], [r[0], UNIT], TRUE, r[2], None)
        self.state = r[2] if r else {}
        return r[0] if r else UNDEF

    def finfo(self, fn):
        i = self.info.get(fn.path)
        if i is None:
            i = self.info[fn.path] = FnInfo(fn)
        return i

    def frame(self, key):
        i = self.frames.get(key)
        if i is None:
            i = self.frames[key] = len(self.frames) + 1
        return i

    # ------------------------------------------------------------ function bodies
    def call_body(self, fn, args, guard, state, site):
        """-> (ret, guard, state) or None when it never returns"""
        key = (fn.path, tuple((f.path, b) for f, b in self.stack), site)
        fr = self.frame(key)
        self.mr[fr] = fn
        self.analysed.add(fn.path)
        state = dict(state)
        for i, a in enumerate(args):
            state[(fr, i + 1)] = a
        state.pop((fr, 0), None)
        inf = self.finfo(fn)
        self.stack.append((fn, None))
        depth0 = len(self.stack)
        try:
            rets, _, _ = self.region(inf, fr, set(inf.rpo), 0, [(guard, state)], None)
        finally:
            del self.stack[depth0 - 1:]
        if not rets:
            return None
        main = [x for x in rets if ERRKEY not in x[1]]
        fail = [x for x in rets if ERRKEY in x[1]]
        if not main:
            main, fail = fail, []
        g, s = self.join(main, None)
        r = s.get((fr, 0), UNIT)
        if fail:
            self.emit("fails", fn.path, (), guard, fn)
            r = ite(as_cond(mk("fails", fn.path, site, tuple((f.path, b) for f, b in self.stack)[-2:])),
                    mk("agg", "std::result::Result", 1, "Err", ("0",), mk("errval", fn.path)), r)
        s = {k: v for k, v in s.items() if k[0] != fr and k is not ERRKEY}
        return r, g, s

    def join(self, ins, live):
        """live: (frame, set of live locals, always-live locals) to keep the join small"""
        if len(ins) == 1:
            g, s = ins[0]
            if live:
                fr, lv, al = live
                s = {k: v for k, v in s.items() if k[0] != fr or k[1] in lv or k[1] in al}
            else:
                s = dict(s)
            return g, s
        g = FALSE
        for e, _ in ins:
            g = OR(e, g)
        keys = set()
        for _, s in ins:
            keys.update(s)
        out = {}
        first = ins[0][1]
        for k in keys:
            if live and k[0] == live[0] and k[1] not in live[1] and k[1] not in live[2]:
                continue
            dv = dflt(k)
            v0 = first.get(k, dv)
            if all(s.get(k, dv) is v0 for _, s in ins[1:]):
                out[k] = v0
                continue
            acc = UNDEF
            for e, s in reversed(ins):
                acc = ite(e, s.get(k, dv), acc)
            out[k] = acc
        return g, out

    def region(self, inf, fr, blocks, entry, ins, header):
        """process the blocks of a region once, in RPO. -> (returns, back edges, exits)"""
        fn = inf.fn
        pend = {}
        rets, back, exits = [], [], []
        done = set()

        def send(dst, g, s, first=False):
            if g is FALSE:
                return
            if dst == header and not first:
                back.append((g, s))
            elif dst not in blocks:
                exits.append((dst, g, s))
            else:
                # paths that already failed in a '?' are kept apart from the others
                pend.setdefault((dst, ERRKEY in s), []).append((g, s))
        for g, s in ins:
            send(entry, g, s, True)
        for b in inf.rpo:
            if b not in blocks:
                continue
            for fl in (False, True):
                if (b, fl) not in pend or (b in done and not fl):
                    continue
                g, s = self.join(pend.pop((b, fl)), (fr, inf.live[b], inf.always))
                if b in inf.loops and b != header:
                    body = inf.loops[b]
                    r2, ex = self.run_loop(inf, fr, body, b, g, s)
                    rets.extend(r2)
                    done |= body
                    for dst, eg, es in ex:
                        send(dst, eg, es)
                    continue
                self.block(inf, fr, b, g, s, send, rets)
        return rets, back, exits

    # ------------------------------------------------------------ loops
    def run_loop(self, inf, fr, body, h, g, s):
        key = (fr, h)

        def once(state):
            rets, back, exits = self.region(inf, fr, body, h, [(g, state)], h)
            return (rets, exits), back
        live = inf.live[h] | inf.always
        rets, exits = self.fix(key, inf.fn, g, s, once, lambda k: k[0] != fr or k[1] in live)
        self.exits[key] = [(dst, eg, ERRKEY in es and ERRKEY not in s) for dst, eg, es in exits] + [
            (None, rg, ERRKEY in rs and ERRKEY not in s) for rg, rs in rets]
        # loops are taken to end: the exits that remain open partition the entry condition
        op = [i for i, (_, _, es) in enumerate(exits) if ERRKEY not in es or ERRKEY in s]
        if op:
            rest = FALSE
            for i in op[1:]:
                rest = OR(rest, exits[i][1])
            for rg, rs in rets:
                if ERRKEY not in rs:
                    rest = OR(rest, rg)
            d, _, es = exits[op[0]]
            exits[op[0]] = (d, AND(g, NOT(rest)), es)
        return rets, exits

    def struct_size(self, t):
        """the size of a struct of equally large numbers is their sum, whatever their order"""
        for c in ("", "fcb_core::", "fcb::", "crate::"):
            a = self.w.adts.get(c + t)
            if a is not None:
                if a["enum"] or len(a["v"]) != 1:
                    return None
                zs = {SIZES.get(ty) for _, ty in a["v"][0]["f"]}
                if len(zs) == 1 and None not in zs:
                    return zs.pop() * len(a["v"][0]["f"])
                return None
        return None

    def fix(self, key, fn, g, s, once, keep):
        """widening: values that change around the loop become loop variables"""
        lvs = {}        # (key, path) -> lv

        def newlv(k, path):
            init = getpath(s.get(k, dflt(k)), path)
            lv = mk("lv", key, k, path, init)
            lvs[(k, path)] = lv
            li = LoopInfo()
            li.var, li.init, li.next, li.key, li.fn, li.guard_in = lv, init, None, key, fn, g
            self.loops[lv] = li
        # the variables an earlier visit of the same loop found to change
        for k, path in self.lvcache.get(key, ()):
            if k in s:
                newlv(k, path)
        ev0 = len(self.events)
        for rnd in range(10):
            del self.events[ev0:]
            st = dict(s)
            for (k, path), lv in lvs.items():
                st[k] = setpath(st.get(k, dflt(k)), path, lv)
            self.loopstack.append(key)
            try:
                res, back = once(st)
            finally:
                self.loopstack.pop()
            new = {}
            for bg, bs in back:
                for k, v in bs.items():
                    if not keep(k):
                        continue
                    if k not in st and k[0] not in ("cell", "pos"):
                        continue
                    old = st.get(k, dflt(k) if k[0] in ("cell", "pos") else None)
                    if old is v or v is UNDEF:
                        continue
                    for path in diffpaths(old, v):
                        if (k, path) not in lvs:
                            if any(kk == k and path[:len(pp)] == pp for kk, pp in lvs):
                                continue
                            new[(k, path)] = True
            if not new:
                stale = []
                for (k, path), lv in lvs.items():
                    if all(getpath(bs.get(k, UNDEF), path) in (lv, UNDEF) for _, bs in back):
                        stale.append((k, path))
                if not stale or rnd >= 8 or not back:
                    break
                for x in stale:
                    del lvs[x]
                continue
            for k, path in new:
                for kk, pp in [x for x in lvs if x[0] == k and x[1][:len(path)] == path]:
                    del lvs[(kk, pp)]
                newlv(k, path)
        self.lvcache[key] = list(lvs)
        for (k, path), lv in lvs.items():
            acc = UNDEF
            for bg, bs in back:
                acc = ite(bg, getpath(bs.get(k, UNDEF), path), acc)
            self.loops[lv].next = acc
        return res

    def pseudo_loop(self, key, fn, g, s, body):
        """a closure run once per element: body(state) -> (result, guard, state) | None"""
        box = {}

        def once(state):
            r = body(state)
            box["r"] = r
            if r is None:
                return None, []
            return r, [(r[1], r[2])]
        r = self.fix(key, fn, g, s, once, lambda k: True)
        # variables changed by the closure hold their loop variable afterwards
        out = dict(s)
        if r is not None:
            for k, v in r[2].items():
                if k in s or k[0] in ("cell", "pos"):
                    old = s.get(k, dflt(k))
                    if v is not old:
                        out[k] = self.lv_of(key, k, s, v)
        return box["r"], out

    def lv_of(self, key, k, s, v):
        base = s.get(k, dflt(k))
        for lv, li in list(self.loops.items()):
            if li.key == key and lv.a[1] == k:
                base = setpath(base, lv.a[2], lv)
        return base

    # ------------------------------------------------------------ places
    def ty_at(self, fn, place, upto=None):
        t = fn.ty(place[0])
        var = None
        for i, e in enumerate(place[1] if upto is None else place[1][:upto]):
            if t is None:
                return None, None
            if e == "*":
                if t.k in ("ref", "ptr"):
                    t = t.inner()
                elif t.k == "adt" and t.d["a"]:
                    t = t.targ(0)
                else:
                    t = None
                var = None
            elif "f" in e:
                t = self.w.type(fn.crate, e["t"])
                var = None
            elif "dc" in e:
                var = e["dc"]
            elif "ix" in e or "ci" in e:
                t = t.inner() if t.k in ("slice", "array") else None
            elif "ss" in e:
                pass
            elif "oc" in e:
                t = self.w.type(fn.crate, e["oc"])
        return t, var

    def proj_list(self, fr, fn, place, state):
        """projections with names resolved: '*', ('f',name,owner), ('pl',variant,idx), ('ix',T), ..."""
        out = []
        t = fn.ty(place[0])
        var = None
        for e in place[1]:
            if e == "*":
                out.append("*")
                if t is not None:
                    t = t.inner() if t.k in ("ref", "ptr") else (t.targ(0) if t.k == "adt" and t.d["a"] else None)
                var = None
            elif not isinstance(e, dict):
                out.append("*")
            elif "f" in e:
                nm, owner = str(e["f"]), ""
                if t is not None and t.k == "adt":
                    owner = t.path
                    ad = self.w.adts.get(t.path)
                    if ad:
                        vi = var[0] if var else 0
                        if vi < len(ad["v"]) and e["f"] < len(ad["v"][vi]["f"]):
                            nm = ad["v"][vi]["f"][e["f"]][0]
                elif t is not None and t.k == "tuple":
                    owner = "tuple"
                elif t is not None and t.k in ("closure", "coroutine"):
                    owner = "closure"
                if var:
                    out.append(("pl", var[1], nm))
                elif owner and owner.rsplit("::", 1)[-1] in ("Box", "Unique", "NonNull", "MaybeUninit", "ManuallyDrop", "MaybeDangling", "Pin"):
                    pass
                else:
                    out.append(("f", nm, owner))
                t = self.w.type(fn.crate, e["t"])
                var = None
            elif "dc" in e:
                n = e.get("n")
                if n is None and t is not None and t.k == "adt" and self.w.adts.get(t.path):
                    n = self.w.adts[t.path]["v"][e["dc"]]["n"]
                var = (e["dc"], n or str(e["dc"]))
            elif "ix" in e:
                out.append(("ix", self.deref(state.get((fr, e["ix"]), UNDEF), state)))
                t = t.inner() if t is not None and t.k in ("slice", "array") else None
            elif "ci" in e:
                out.append(("ix", mk("fromend", e["ci"]) if e.get("fe") else const(e["ci"])))
                t = t.inner() if t is not None and t.k in ("slice", "array") else None
            elif "ss" in e:
                out.append(("ss", tuple(e["ss"]), bool(e.get("fe"))))
            elif "oc" in e:
                t = self.w.type(fn.crate, e["oc"])
        return out

    def rd(self, v, p):
        if p[0] == "f":
            return field(v, p[1], p[2])
        if p[0] == "pl":
            return payload(v, p[1], p[2])
        if p[0] == "ix":
            return index(v, p[1])
        if p[0] == "ss":
            return mapleaf(v, lambda x: mk("subslice", x, p[1], p[2]))
        return v

    def load(self, key, projs, state):
        if key[0] == "cell":
            v = state.get(key, key[1])
        else:
            v = state.get(key, UNDEF)
        for p in projs:
            if p == "*":
                v = self.deref(v, state)
            else:
                v = self.rd(self.deref(v, state), p)
        return v

    def deref(self, v, state, n=0):
        """value behind references"""
        if v.op == "mref":
            if n > 20:
                return v
            return self.deref(self.load(v.a[0], v.a[1], state), state, n + 1)
        if v.op == "sw" and any(l.op == "mref" for l in leaves(v)):
            return mapleaf(v, lambda l: self.deref(l, state, n + 1))
        if ("cell", v) in state:
            return state[("cell", v)]
        return v

    def read(self, fr, fn, place, state):
        v = state.get((fr, place[0]), UNDEF)
        for p in self.proj_list(fr, fn, place, state):
            if p == "*":
                v = self.deref(v, state)
            else:
                if v.op == "mref" or v.op == "sw":
                    v = self.deref(v, state)
                elif ("cell", v) in state:
                    v = state[("cell", v)]
                v = self.rd(v, p)
        return v

    def resolve(self, fr, fn, place, state):
        """place -> list of (guard, key, projs) it denotes (through &mut references)"""
        cur = [(TRUE, (fr, place[0]), ())]
        for p in self.proj_list(fr, fn, place, state):
            if p == "*":
                nxt = []
                for g, k, pr in cur:
                    v = self.load(k, pr, state)
                    nxt.extend(self.targets(v, g, k, pr, state))
                cur = nxt
            else:
                # implicit deref (upvar holding a reference)
                cur = [(g, k, pr + (p,)) for g, k, pr in cur]
        return cur

    def targets(self, v, g, k, pr, state):
        if v.op == "mref":
            return [(g, v.a[0], v.a[1])]
        if v.op == "sw" and any(l.op == "mref" for l in leaves(v)):
            out = []
            for l in leaves(v):
                lg = AND(g, mapleaf(v, lambda x: TRUE if x is l else FALSE))
                out.extend(self.targets(l, lg, k, pr, state))
            return out
        if v.op in ("agg", "const", "unit", "undef", "seq", "push", "extend", "with", "store", "lin") or k[0] != "cell" and self.owned(k, pr):
            # a box or a by-value place: the pointee lives in the place itself
            return [(g, k, pr)]
        return [(g, ("cell", v), ())]

    def owned(self, k, pr):
        fn = self.mr.get(k[0])
        if fn is None or pr:
            return False
        t = fn.ty(k[1])
        return not (t.k in ("ref", "ptr"))

    def write(self, fr, fn, place, val, state, guard=TRUE):
        if not place[1]:
            state[(fr, place[0])] = val
            return
        for g, k, pr in self.resolve(fr, fn, place, state):
            self.store(k, pr, val, state, g)
            if k[0] == "cell":
                self.emit("store", "store", (k[1], val), guard, fn, path=str(pr))

    def store(self, k, pr, val, state, g=TRUE):
        old = state.get(k, dflt(k))
        # an embedded reference on the way: redirect
        v = old
        for i, p in enumerate(pr):
            if v.op == "mref":
                return self.store(v.a[0], v.a[1] + tuple(pr[i:]), val, state, g)
            v = self.rd(v, p)
        new = setp(old, pr, val, self.rd)
        state[k] = ite(g, new, old)

    # ------------------------------------------------------------ operands, rvalues
    def konst(self, fn, c):
        if "fn" in c:
            f = c["fn"]
            return mk("fn", self.qname(fn, f), f.get("r") or f["p"], fn.crate, c["t"])
        v = c.get("v")
        t = self.w.type(fn.crate, c["t"])
        if v is None:
            if "def" in c:
                d = self.w.consts.get(c["def"])
                if d and d.get("v"):
                    v = d["v"]
                elif c.get("trait"):
                    return mk("tconst", c["def"], tuple(self.w.type(fn.crate, x).s if isinstance(x, int) else x for x in c.get("da", [])))
        if v is None:
            return mk("kconst", c.get("def", ""), c.get("tyc", ""), t.s)
        if "i" in v:
            return const(int(v["i"]))
        if "b" in v:
            return const(v["b"])
        if "f" in v:
            try:
                return const(float(v["f"]))
            except ValueError:
                return mk("kconst", "", v["f"], t.s)
        if "c" in v:
            return const("'" + (v["c"] or ""))
        if "str" in v:
            return const(v["str"])
        if "bytes" in v:
            return const(bytes(v["bytes"]))
        if "z" in v:
            if t.k == "tuple":
                return UNIT
            return mk("agg", t.path or t.s, 0, "", ())
        return mk("kconst", c.get("def", ""), str(v.get("o")), t.s)

    def operand(self, fr, fn, o, state):
        for k in ("cp", "mv"):
            if k in o:
                return self.read(fr, fn, o[k], state)
        if "const" in o:
            return self.konst(fn, o["const"])
        return mk("rtcheck")

    def op_ty(self, fn, o):
        for k in ("cp", "mv"):
            if k in o:
                return self.ty_at(fn, o[k])[0]
        if "const" in o:
            return self.w.type(fn.crate, o["const"]["t"])
        return None

    @staticmethod
    def numkind(t):
        if t is None:
            return "int"
        s = t.peel().s
        if s in ("f32", "f64"):
            return "float"
        if s in ("u8", "u16", "u32", "u64", "usize", "u128", "bool", "char"):
            return "uint"
        return "int"

    def tracked(self, t):
        t = t.peel()
        if t.k == "param" or t.k == "dyn" or t.k == "alias":
            return False
        if t.k == "adt" and t.path.rsplit("::", 1)[-1] in UNTRACKED:
            return False
        if t.k == "adt" and t.path.rsplit("::", 1)[-1] in ("Pin", "Box") and t.targ(0) is not None:
            return self.tracked(t.targ(0))
        return True

    def rvalue(self, fr, fn, r, state, dest):
        k = r["k"]
        if k == "use":
            return self.operand(fr, fn, r["o"], state)
        if k in ("ref", "rawptr"):
            p = r["p"]
            if r.get("m") in ("shared", "fake") or k == "rawptr" and r.get("m") in ("Const", "FakeForPtrMetadata"):
                return self.deref(self.read(fr, fn, p, state), state) if False else self.read(fr, fn, p, state)
            t, _ = self.ty_at(fn, p)
            if t is not None and not self.tracked(t):
                return self.deref(self.read(fr, fn, p, state), state)
            outs = self.resolve(fr, fn, p, state)
            acc = UNDEF
            for g, kk, pr in outs:
                # a reborrow of something that is itself a reference value
                acc = ite(g, mk("mref", kk, tuple(pr)), acc) if g is not TRUE else mk("mref", kk, tuple(pr))
            return acc
        if k == "cast":
            v = self.operand(fr, fn, r["o"], state)
            to = self.w.type(fn.crate, r["t"])
            ck = r["ck"]
            frm = self.op_ty(fn, r["o"])
            if to.k == "prim" and frm is not None and frm.k == "prim" and to.s != frm.s:
                return cast(v, frm.s, to.s)
            if to.k == "prim" and frm is not None and frm.k == "adt":
                ad = self.w.adts.get(frm.path)
                if ad and ad["enum"]:
                    return discr(self.deref(v, state), {x["n"]: int(x["d"]) for x in ad["v"]})
            return v
        if k == "bin":
            a = self.deref(self.operand(fr, fn, r["a"], state), state)
            b = self.deref(self.operand(fr, fn, r["b"], state), state)
            return self.binop(r["op"], a, b, self.op_ty(fn, r["a"]))
        if k == "un":
            a = self.deref(self.operand(fr, fn, r["o"], state), state)
            if r["op"] == "Not":
                t = self.op_ty(fn, r["o"])
                if t is not None and t.s == "bool":
                    return NOT(a)
                return mk("un", "Not", a)
            if r["op"] == "Neg":
                if is_const(a) and isinstance(cval(a), (int, float)):
                    return const(-cval(a))
                return sub(const(0), a)
            if r["op"] == "PtrMetadata":
                return length(a)
            return mk("un", r["op"], a)
        if k == "discr":
            v = self.deref(self.read(fr, fn, r["p"], state), state)
            t, _ = self.ty_at(fn, r["p"])
            return discr(v, self.dom(t))
        if k == "agg":
            ops = [self.operand(fr, fn, o, state) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return tup(*ops) if ops else UNIT
            if ak == "array":
                return mk("agg", "array", 0, "", tuple(str(i) for i in range(len(ops))), *ops)
            if ak in ("closure", "coroutine"):
                if self.genv:
                    self.clenv[r["p"]] = self.genv
                return mk("agg", r["p"], 0, ak, tuple(str(i) for i in range(len(ops))), *ops)
            if ak == "adt":
                ad = self.w.adts.get(r["p"])
                v = ad["v"][r["v"]] if ad and r["v"] < len(ad["v"]) else None
                nm = v["n"] if v else str(r["v"])
                names = tuple(f[0] for f in v["f"]) if v else tuple(str(i) for i in range(len(ops)))
                if "fi" in r:
                    names = (names[r["fi"]],)
                if ad and not ad["enum"] and len(names) == 1 and names[0] == "0" and is_const(ops[0]) and ad.get("local") and "/fb/" not in "":
                    return ops[0] if "_generated" in r["p"] else mk("agg", r["p"], r["v"], nm, names, *ops)
                t = mk("agg", r["p"], r["v"], nm, names, *ops)
                return t
            return mk("agg", ak, 0, "", tuple(str(i) for i in range(len(ops))), *ops)
        if k == "repeat":
            return mk("repeat", self.operand(fr, fn, r["o"], state), r["n"])
        return mk("other", r.get("s", k))

    def dom(self, t):
        if t is None:
            return {}
        t = t.peel()
        if t.k == "adt":
            ad = self.w.adts.get(t.path)
            if ad and ad["enum"]:
                return {v["n"]: int(v["d"]) for v in ad["v"]}
        return {}

    def binop(self, op, a, b, t):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        nk = self.numkind(t)
        if base in ("Add", "Sub", "Mul"):
            r = add(a, b) if base == "Add" else sub(a, b) if base == "Sub" else mul(a, b)
            if op.endswith("WithOverflow"):
                return tup(r, mk("ovf", r))
            return r
        if base in ("Lt", "Le", "Gt", "Ge"):
            return rel(base, a, b, nk)
        if base in ("Eq", "Ne"):
            e = self.equal(a, b, nk)
            return e if base == "Eq" else NOT(e)
        if base == "Cmp":
            return mapleaf(cmp_(a, b, nk), lambda l: const({-1: 255}.get(cval(l), cval(l))))
        if base in ("BitAnd", "BitOr", "BitXor") and t is not None and t.s == "bool":
            return AND(a, b) if base == "BitAnd" else OR(a, b) if base == "BitOr" else ite(a, NOT(b), b)
        if base == "Div" and is_const(b) and cval(b) == 1:
            return a
        if is_const(a) and is_const(b) and isinstance(cval(a), int) and isinstance(cval(b), int):
            x, y = cval(a), cval(b)
            if base == "Shl":
                return const(x << y)
            if base == "Shr":
                return const(x >> y)
            if base == "Div" and y:
                return const(x // y)
            if base == "Rem" and y:
                return const(x % y)
            if base == "BitAnd":
                return const(x & y)
            if base == "BitOr":
                return const(x | y)
        if base == "Shl" and is_const(b) and isinstance(cval(b), int):
            return mul(a, const(1 << cval(b)))
        if base == "Shr" and is_const(b) and isinstance(cval(b), int) and nk == "uint":
            return mk("bin", "Div", a, const(1 << cval(b)))
        if base in ("BitAnd", "BitOr", "BitXor"):
            a, b = sorted((a, b))
        return mk("bin", base, a, b)

    def equal(self, a, b, nk="int"):
        for x, y in ((a, b), (b, a)):
            if y.op == "const" and not (nk == "float"):
                return eqc(x, cval(y))
        for x, y in ((a, b), (b, a)):
            # comparison with a field-less variant or a constructed value
            if y.op == "agg" and not y.a[3] and y.a[0] in self.w.adts and self.w.adts[y.a[0]]["enum"]:
                dom = {v["n"]: int(v["d"]) for v in self.w.adts[y.a[0]]["v"]}
                return is_var(x, y.a[2], dom)
            if y.op == "agg" and y.a[0] == "std::option::Option":
                return AND(is_some(x), self.equal(payload(x, "Some", "0"), y.a[4], nk))
        if a is b and nk != "float":
            return TRUE
        return rel("Eq", a, b, nk)

    # ------------------------------------------------------------ blocks
    def block(self, inf, fr, b, g, state, send, rets):
        fn = inf.fn
        self.nblocks += 1
        if self.nblocks > self.max_blocks or time.time() > self.deadline:
            raise AnchorError("analysis budget exceeded in %s" % fn.path)
        self.stack[-1] = (fn, b)
        blk = fn.bb[b]
        for i, s in enumerate(blk["s"]):
            if "setd" in s:
                continue
            if s["r"]["k"] == "other":
                continue
            v = self.rvalue(fr, fn, s["r"], state, s["p"])
            if s["r"]["k"] == "agg" and s["r"]["ak"] == "adt":
                self.emit("agg", s["r"]["p"], (v,), g, fn)
            self.write(fr, fn, s["p"], v, state, g)
        t = blk["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            if k == "assert":
                self.emit("assert", t["msg"], (self.operand(fr, fn, t["c"], state),), g, fn)
            send(t["t"], g, state)
        elif k == "switch":
            d = self.deref(self.operand(fr, fn, t["d"], state), state)
            dt = self.op_ty(fn, t["d"])
            isb = dt is not None and dt.s == "bool"
            if not isb and d.op not in ("sw", "const") and d not in DOM and dt is not None and dt.s == "bool":
                isb = True
            if d.op == "discr" and d.a[0].op == "try":
                # success continues under the unchanged guard; failure leaves the function
                c = d.a[0].a[0]
                for v, dst in list(t["arms"]) + [[None, t["o"]]]:
                    if v is None:
                        if fn.bb[dst]["t"]["k"] == "unreachable":
                            continue
                        v = 0 if all(int(x) != 0 for x, _ in t["arms"]) else 1
                    if int(v) == 0:
                        send(dst, g, dict(state))
                    else:
                        s2 = dict(state)
                        s2[ERRKEY] = TRUE
                        send(dst, AND(g, NOT(c)), s2)
                return
            rest = TRUE
            sgn = dt.s if dt is not None and dt.s in ("i8", "i16", "i32", "i64", "isize", "i128") else None
            for v, dst in t["arms"]:
                v = int(v)
                if isb:
                    v = bool(v)
                elif sgn and not (d.op == "discr"):
                    bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[sgn]
                    if v >= 1 << (bits - 1) and not self._is_discr(d):
                        v -= 1 << bits
                elif dt is not None and dt.s == "char":
                    v = "'" + chr(v)
                c = eqc(d, v)
                rest = AND(rest, NOT(c))
                send(dst, AND(g, c), dict(state))
            if fn.bb[t["o"]]["t"]["k"] == "unreachable" and not fn.bb[t["o"]]["s"]:
                pass
            else:
                send(t["o"], AND(g, rest), state)
        elif k == "return":
            rets.append((g, state))
        elif k == "call":
            r = self.call(inf, fr, b, t, g, state)
            if r is None or t["t"] is None:
                return
            ret, g2, st2 = r
            self.write(fr, fn, t["d"], ret, st2, g2)
            send(t["t"], g2, st2)
        # yield, unreachable, resume: the path ends here

    @staticmethod
    def _is_discr(d):
        return all(l.op in ("const", "discr") for l in leaves(d)) or d.op == "sw" and all(a.op in ("discr", "cmp") for a in atoms(d))

    def emit(self, kind, name, args, guard, fn, **k):
        if len(self.events) > self.max_events:
            raise AnchorError("event limit")
        e = Event(kind=kind, name=name, args=tuple(args), guard=guard, fn=fn, bb=self.stack[-1][1] if self.stack else None,
                  stack=tuple((f.path, b) for f, b in self.stack), loops=tuple(self.loopstack), seq=len(self.events), **k)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ calls
    def qname(self, fn, f):
        """'Owner::method' of a callee: trait, self type head, or module"""
        p = f["p"]
        nm = short(strip_generics(p)) if not p.endswith(">") else short(p)
        nm = nm.split("::")[-1]
        if "trait" in f:
            return short(f["trait"]) + "::" + nm
        if "self" in f:
            t = self.w.type(fn.crate, f["self"]).peel()
            if t.k == "adt":
                own = t.path.rsplit("::", 1)[-1]
                if "_generated" in t.path and "flatbuffers::" not in t.path:
                    own = "fb." + own
            elif t.k in ("slice", "array"):
                own = "slice"
            elif t.k == "prim":
                own = t.s
            else:
                own = t.k
            return own + "::" + nm
        segs = strip_generics(p).split("::")
        return "::".join(segs[-2:]) if len(segs) > 1 else segs[-1]

    def call(self, inf, fr, b, t, g, state):
        fn = inf.fn
        fo = t["f"]
        args = [self.operand(fr, fn, o, state) for o in t["args"]]
        tys = [self.op_ty(fn, o) for o in t["args"]]
        f = fo.get("const", {}).get("fn")
        if f is None:
            fv = self.deref(self.operand(fr, fn, fo, state), state)
            return self.invoke(fv, args, g, state, fn, (b,))
        return self.call_fn(fn, f, args, tys, g, state, (b,), self.w.type(fn.crate, fn.locals[t["d"][0]]) if not t["d"][1] else self.ty_at(fn, t["d"])[0])

    def invoke(self, fv, args, g, state, fn, site):
        """call a closure / fn item value"""
        fv = self.deref(fv, state)
        if fv.op == "sw":
            ls = leaves(fv)
            outs = []
            for i, l in enumerate(ls):
                lg = AND(g, mapleaf(fv, lambda x: TRUE if x is l else FALSE))
                if lg is FALSE:
                    continue
                r = self.invoke(l, args, lg, state, fn, site + (i,))
                if r:
                    outs.append((r[1], dict(r[2], **{("ret", 0): r[0]})))
            if not outs:
                return None
            g2, s2 = self.join(outs, None)
            return s2.pop(("ret", 0)), g2, s2
        if fv.op == "agg" and fv.a[2] == "closure":
            body = self.w.fns.get(fv.a[0])
            if body is not None and sum(1 for x, _ in self.stack if x is body) == 0:
                old = self.genv
                self.genv = self.clenv.get(fv.a[0], old)
                try:
                    return self.call_body(body, [fv] + list(args), g, state, site)
                finally:
                    self.genv = old
        if fv.op == "fn":
            path = fv.a[1]
            segs = path.split("::")
            if segs[-1] in ("Some", "Ok", "Err") and len(segs) >= 2:
                a = args[0]
                return {"Some": some, "Ok": ok, "Err": err}[segs[-1]](a), g, state
            owner = "::".join(segs[:-1])
            for adp, own_is_variant in ((owner, True), (path, False)):
                ad = self.w.adts.get(strip_generics(adp))
                if ad:
                    for vi, v in enumerate(ad["v"]):
                        if v["n"] == segs[-1]:
                            v_ = mk("agg", strip_generics(adp), vi, v["n"], tuple(x[0] for x in v["f"]), *args)
                            return v_, g, state
            crate, ti = fv.a[2], fv.a[3]
            ft = self.w.facts[crate]["types"][ti]
            # find the full fn-ref again through the owning crate's constant table
            fd = self._fnref(crate, ti, path, fv.a[0])
            return self.call_fn(fn if fn.crate == crate else self._anyfn(crate), fd, args, [None] * len(args), g, state, site, None)
        ev = self.emit("call", "<closure>", [self.snap(a, state) for a in [fv] + list(args)], g, fn)
        r = mk("call", "invoke", tuple(self.snap(a, state) for a in [fv] + list(args)))
        ev.ret = r
        return r, g, state

    def _anyfn(self, crate):
        for f in self.w.fns.values():
            if f.crate == crate:
                return f

    def _fnref(self, crate, ti, path, qn):
        d = {"p": self.w.facts[crate]["types"][ti].get("p", path), "a": self.w.facts[crate]["types"][ti].get("a", []), "r": path,
             "qn": qn}
        return d

    def snap(self, v, state):
        return self.deref(v, state)

    def should_inline(self, callee, q):
        if callee is None:
            return False
        if "_generated" in callee.file or "src/fb/" in callee.file:
            return False
        if q in self.opaque or callee.name in self.opaque or short(callee.path) in self.opaque:
            return False
        if callee.d.get("macro") and callee.impl_trait:
            return False
        if self.inline is not None and not self.inline(callee):
            return False
        if len(self.stack) >= self.depth:
            return False
        if any(x is callee for x, _ in self.stack):
            return False
        if self.wide(callee):
            return False
        return True

    def wide(self, callee):
        """a pure scalar table over several arguments too large to compose at every use: kept as an opaque call"""
        c = self.w.__dict__.setdefault("_wide", {})
        k = (callee.crate, callee.path)
        if k in c:
            return c[k]
        c[k] = False
        if callee.argc < 2 or callee.d.get("async") or callee.is_closure():
            return False
        rt = callee.ty(0)
        tys = [callee.ty(i + 1) for i in range(callee.argc)]
        if any(t.is_mut_ref() for t in tys) or re.search(r"Vec|Result|Option|String|Value|\[|&|\(|Iter", rt.s):
            return False
        if any(re.search(r"Read|Fn|Iter|dyn |Client", t.s) for t in tys) or len(callee.bb) > 400:
            return False
        f = Flow(self.w, opaque=self.opaque, depth=4)
        f.deadline = time.time() + 20
        try:
            r = f.run(callee)
        except Exception:
            return False
        ps = {a.a[0] for at in atoms(r) for a in walk(at) if a.op == "param"}
        c[k] = len(ps) > 1 and arms(r) > 40
        return c[k]

    def call_fn(self, fn, f, args, tys, g, state, site, dty):
        q = f.get("qn") or self.qname(fn, f)
        callee = self.w.callee(f)
        if callee is None and f.get("trait") and not f.get("r"):
            pass
        targs = tuple(self.inst(self.w.type(fn.crate, x).s if isinstance(x, int) else str(x)) for x in f.get("a", []))
        if callee is not None and callee.is_closure():
            callee = None
        if callee is not None and f.get("trait") and callee.d.get("in_trait") and f.get("rk") != "item":
            callee = None       # default body of an unresolved trait call
        if self.should_inline(callee, q):
            ev = self.emit("inl", q, [self.snap(a, state) for a in args], g, fn, path=callee.path, targs=targs, tys=tys, f=f)
            if callee.d.get("async"):
                return self.in_env(callee, f, fn, targs, args, g, state, site)
            r = self.in_env(callee, f, fn, targs, args, g, state, site)
            if r is not None:
                ev.ret = r[0]
            return r
        h = self.std(fn, q, f, args, tys, g, state, site, targs, dty)
        if h is not NotImplemented:
            return h
        return self.opaque_call(fn, q, f, args, tys, g, state, site, targs, callee)

    def inst(self, s):
        """a type written inside the function being walked, its generic parameters replaced by the caller's arguments"""
        if not self.genv:
            return s
        return re.sub(r"[A-Za-z_][A-Za-z0-9_]*", lambda m: self.genv.get(m.group(0), m.group(0)), s)

    def in_env(self, callee, f, fn, targs, args, g, state, site):
        gp = callee.d.get("gp") or []
        ra = f["ra"] if f.get("ra") is not None else f.get("a", [])
        vals = [self.inst(self.w.type(fn.crate, x).s if isinstance(x, int) else str(x)) for x in ra]
        old = self.genv
        self.genv = dict(zip(gp, vals)) if len(gp) == len(vals) else {}
        try:
            return self.call_body(callee, args, g, state, site)
        finally:
            self.genv = old

    def opaque_call(self, fn, q, f, args, tys, g, state, site, targs, callee=None):
        snaps = [self.snap(a, state) for a in args]
        ev = self.emit("call", q, snaps, g, fn, path=(f.get("r") or f["p"]), targs=targs, tys=tys, f=f)
        muts = [i for i, a in enumerate(args) if self.has_mref(a)]
        st = state
        nm = q.rsplit("::", 1)[-1]
        untr = any(t is not None and t.k == "ref" and t.d["m"] and not self.tracked(t) for t in tys)
        sid = None
        if muts or untr:
            sid = ("site", fn.path, site, tuple((x.path, b) for x, b in self.stack[:-1])[-3:])
        r = mk("call", q, tuple(snaps), sid if (muts or untr) else None)
        ev.ret = r
        ev.pos = {}
        for a, t in zip(snaps, tys):
            # a reader handed to code that is not looked into: its position is unknown afterwards
            if t is not None and t.k == "ref" and t.d["m"] and not self.tracked(t):
                key = ("pos", a)
                ev.pos[a] = state.get(key, dflt(key))
                st = dict(st)
                st[key] = mk("posafter", q, sid, a)
        if muts:
            st = dict(state)
            for i in muts:
                for l in (leaves(args[i]) if args[i].op == "sw" else [args[i]]):
                    for m in self.mrefs(l):
                        old = self.load(m.a[0], m.a[1], st)
                        self.store(m.a[0], m.a[1], mk("mut", q, i, r, old) if not (i == 0 and len(args) == 1 and False) else r, st)
        if nm in PANICS:
            return None
        return r, g, st

    def has_mref(self, a):
        return a.op == "mref" or a.op == "sw" and any(self.has_mref(l) for l in leaves(a)) or \
            a.op == "agg" and a.a[2] not in ("closure", "coroutine") and any(self.has_mref(x) for x in a.a[4:]) or \
            a.op == "agg" and a.a[2] in ("closure", "coroutine") and any(x.op == "mref" for x in a.a[4:])

    def mrefs(self, a):
        if a.op == "mref":
            return [a]
        if a.op == "agg":
            return [m for x in a.a[4:] for m in self.mrefs(x)]
        if a.op == "sw":
            return [m for x in leaves(a) for m in self.mrefs(x)]
        return []

    # mutate the place behind a &mut argument
    def upd(self, a, val, state):
        st = dict(state)
        if a.op == "mref":
            self.store(a.a[0], a.a[1], val, st)
        elif a.op == "sw":
            for l in leaves(a):
                if l.op == "mref":
                    self.store(l.a[0], l.a[1], val, st)
        else:
            st[("cell", a)] = val
        return st

    def under(self, cond, g, state, fn, k):
        """run k under an extra condition -> (value or UNDEF, guard, state)"""
        g2 = AND(g, cond)
        if g2 is FALSE or cond is FALSE:
            return None
        return k(g2, state)

    def branch(self, cond, g, state, ka, kb):
        """evaluate ka/kb on the two sides of cond, join value and state"""
        outs = []
        for c, k in ((cond, ka), (NOT(cond), kb)):
            gg = AND(g, c)
            if gg is FALSE or c is FALSE:
                continue
            r = k(gg, dict(state))
            if r is None:
                continue
            v, g2, s2 = r
            s2 = dict(s2)
            s2[("ret", 0)] = v
            outs.append((g2, s2))
        if not outs:
            return None
        g2, s2 = self.join(outs, None)
        v = s2.pop(("ret", 0))
        return v, g2, s2

    # ------------------------------------------------------------ models of std
    def std(self, fn, q, f, args, tys, g, state, site, targs, dty):
        own, _, nm = q.rpartition("::")
        A = [self.snap(a, state) for a in args]
        n = len(args)

        def pure(v):
            return v, g, state
        if q in IDENT or nm in ("must_use",) and n == 1:
            # keep the reference for the mutable view, the value otherwise
            if nm in ("deref_mut", "as_mut", "borrow_mut", "new_unchecked", "into_iter", "by_ref", "as_mut_slice", "as_deref_mut") and self.has_mref(args[0]):
                return pure(args[0])
            if q == "Pin::new":
                return pure(args[0])
            return pure(A[0])
        if q == "ToString::to_string":
            t = tys[0].peel().s if tys and tys[0] is not None else ""
            if t in ("str", "std::string::String", "char"):
                return pure(A[0])
            return pure(mk("call", "to_string", (A[0],), None))
        if q in ("From::from", "Into::into"):
            imp = self.local_from(fn, f, tys)
            if imp is not None and not any(x is imp for x, _ in self.stack):
                return self.call_body(imp, args, g, state, site)
            return pure(A[0])
        if q in ("TryFrom::try_from", "TryInto::try_into"):
            src = tys[0].peel().s if tys and tys[0] is not None else "?"
            to = targs[0] if nm == "try_from" else (targs[1] if len(targs) > 1 else "?")
            c = mk("call", "try_into", (A[0],), (src, to))
            return pure(c)
        if own == "Try" and nm == "branch":
            return self.try_branch(A[0], f, fn, g, state)
        if own == "FromResidual":
            # residual: Err(e) or None
            def conv(x):
                if x.op == "agg" and x.a[2] == "Err":
                    return err(x.a[4])
                return x
            return pure(mapleaf(A[0], conv))
        if own == "Try" and nm == "from_output":
            return pure(ok(A[0]))
        if q == "Future::poll":
            return self.poll(fn, args[0], g, state, site)
        if q == "get_context" or nm == "get_context":
            return pure(UNIT)
        # ---- comparisons
        if own == "PartialEq" and nm in ("eq", "ne") or q in ("str::eq",):
            cal = self.w.callee(f)
            if cal is not None and not cal.d.get("macro"):
                return NotImplemented if not self.should_inline(cal, q) else self.call_body(cal, args, g, state, site)
            t = tys[0].peel() if tys and tys[0] is not None else None
            e = self.equal_vals(A[0], A[1], t)
            return pure(e if nm == "eq" else NOT(e))
        if own == "PartialOrd" and nm in ("lt", "le", "gt", "ge"):
            t = tys[0].peel() if tys and tys[0] is not None else None
            return pure(rel(nm.capitalize(), A[0], A[1], self.numkind(t)))
        if own == "PartialOrd" and nm == "partial_cmp":
            t = tys[0].peel() if tys and tys[0] is not None else None
            c = cmp_(A[0], A[1], self.numkind(t))
            return pure(mapleaf(c, lambda l: NONE if cval(l) == 2 else some(ordering(cval(l))) if is_const(l) else l))
        if own == "Ord" and nm == "cmp":
            t = tys[0].peel() if tys and tys[0] is not None else None
            return pure(mapleaf(cmp_(A[0], A[1], "int"), lambda l: ordering(cval(l)) if is_const(l) else l))
        if q in ("f64::total_cmp", "f32::total_cmp"):
            return pure(mapleaf(cmp_(A[0], A[1], "int"), lambda l: ordering(cval(l))))
        if own == "Ordering":
            if nm == "reverse":
                return pure(mapleaf(A[0], lambda l: ordering(-ORDV[l.a[2]]) if l.op == "agg" else mk("call", q, (l,), None)))
            if nm in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
                ok_ = _REL2[nm]
                return pure(mapleaf(A[0], lambda l: const(ORDV[l.a[2]] in ok_) if l.op == "agg" else mk("call", q, (l,), None)))
            if nm in ("then", "then_with"):
                isq = mapleaf(A[0], lambda l: const(l.a[2] == "Equal") if l.op == "agg" else mk("call", "is_eq", (l,), None))
                if nm == "then":
                    return pure(ite(isq, A[1], A[0]))
                return self.branch(isq, g, state, lambda g2, s2: self.invoke(args[1], [], g2, s2, fn, site + ("then",)),
                                   lambda g2, s2: (A[0], g2, s2))
        if nm in ("min", "max") and n == 2 and own in ("cmp", "Ord", "f64", "f32"):
            nk = "float" if own in ("f64", "f32") else self.numkind(tys[0]) if tys and tys[0] is not None else "int"
            if nk == "uint":
                nk = "int"
            a, b_ = sorted(A)
            return pure(mk(nm, a, b_))
        if nm == "clamp" and n == 3:
            return pure(mk("clamp", *A))
        # ---- arithmetic traits
        if own in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "Shl", "Shr") and n == 2 and own.lower() == nm:
            cal = self.w.callee(f)
            if cal is None:
                return pure(self.binop(own, A[0], A[1], tys[0].peel() if tys and tys[0] is not None else None))
        if own in ("AddAssign", "SubAssign", "MulAssign", "DivAssign") and n == 2:
            v = self.binop(own[:-6], A[0], A[1], tys[1])
            return UNIT, g, self.upd(args[0], v, state)
        if q == "Neg::neg":
            return pure(sub(const(0), A[0]))
        if q == "Not::not":
            return pure(NOT(A[0]))
        if nm in ("min_value", "max_value") and n == 0 or nm in ("MAX", "MIN"):
            v = INTLIM.get((own, nm))
            if v is not None:
                return pure(const(v))
        if nm in ("wrapping_add", "wrapping_sub", "unchecked_add"):
            return pure(add(A[0], A[1]) if "add" in nm else sub(A[0], A[1]))
        if nm == "div_ceil" and n == 2:
            return pure(mk("bin", "Div", sub(add(A[0], A[1]), const(1)), A[1]))
        if nm == "size_of" and own in ("mem", ""):
            t = targs[0] if targs else "?"
            sz = SIZES.get(t) or self.struct_size(t)
            return pure(const(sz) if sz is not None else mk("sizeof", t))
        # ---- length
        if nm == "len" and n == 1 and own in ("Vec", "slice", "str", "String", "VecDeque", "HashMap", "Vector", "ExactSizeIterator",
                                              "BTreeMap", "HashSet", "BinaryHeap", "Map", "Bytes", "BytesMut", "BTreeSet"):
            return pure(length(A[0]))
        if nm == "is_empty" and n == 1:
            return pure(mapleaf(length(A[0]), lambda l: eqc(l, 0)))
        if nm == "count" and own == "Iterator" and n == 1:
            return pure(length(A[0]) if A[0].op != "seq" or A[0].a[2] is TRUE else mk("count", A[0]))
        # ---- indexing
        if q in ("Index::index", "slice::get_unchecked") and n == 2:
            if A[0].op == "mref":
                pass
            return pure(mapleaf(A[1], lambda i: index(A[0], i)))
        if q == "IndexMut::index_mut" and n == 2:
            a = args[0]
            if a.op == "mref":
                return pure(mk("mref", a.a[0], a.a[1] + (("ix", A[1]),)))
            if a.op == "sw" and all(l.op == "mref" for l in leaves(a)):
                return pure(mapleaf(a, lambda l: mk("mref", l.a[0], l.a[1] + (("ix", A[1]),))))
            return pure(mk("mref", ("cell", a), (("ix", A[1]),)))
        if nm == "iter_mut" and n == 1 and args[0].op == "mref" or nm == "into_iter" and n == 1 and args[0].op == "mref":
            return pure(mk("itermut", args[0]))
        if nm in ("split_at", "split_first", "split_last") and own == "slice":
            return pure(mk("call", q, tuple(A), None))
        # ---- Option / Result
        if own in ("Option", "Result"):
            h = self.optres(fn, own, nm, args, A, tys, g, state, site, f)
            if h is not NotImplemented:
                return h
        if own == "bool" and nm in ("then", "then_some"):
            if nm == "then_some":
                return pure(ite(A[0], some(A[1]), NONE))
            return self.branch(as_cond(A[0]), g, state,
                               lambda g2, s2: lift(self.invoke(args[1], [], g2, s2, fn, site), some),
                               lambda g2, s2: (NONE, g2, s2))
        # ---- closures called through the Fn traits
        if own in ("Fn", "FnMut", "FnOnce") and nm in ("call", "call_mut", "call_once"):
            tp = A[1]
            xs = list(tp.a[4:]) if tp.op == "agg" and tp.a[0] == "tuple" else ([] if tp is UNIT else [field(tp, str(i)) for i in range(1)])
            return self.invoke(args[0], xs, g, state, fn, site)
        # ---- containers
        if nm in ("new", "with_capacity", "default") and own in ("Vec", "VecDeque", "String", "HashMap", "BTreeMap", "HashSet", "BTreeSet", "Map", "BinaryHeap") \
                or q == "Default::default" and targs and targs[0].split("<")[0].rsplit("::", 1)[-1] in ("Vec", "String", "HashMap", "VecDeque"):
            if nm == "default" and own == "Default":
                own = targs[0].split("<")[0].rsplit("::", 1)[-1]
            if nm == "with_capacity":
                self.emit("alloc", own + "::with_capacity", (A[0],), g, fn)
            if own == "String":
                return pure(const(""))
            return pure(mk("empty", own))
        if q == "Default::default" and n == 0:
            t = targs[0] if targs else "?"
            if t in SIZES and t != "bool":
                return pure(const(0.0) if t[0] == "f" else const(0))
            if t == "bool":
                return pure(FALSE)
            if t.startswith("std::option::Option"):
                return pure(NONE)
            cal = self.w.callee(f)
            if cal is None or cal.d.get("macro"):
                cal2 = self.w.fns.get(f.get("r", ""))
                if cal2 is not None:
                    return self.call_body(cal2, args, g, state, site)
            return pure(mk("call", "default", (), t))
        if own == "vec" and nm == "from_elem":
            return pure(mk("repeat", A[0], A[1]))
        if nm in ("reserve", "shrink_to_fit", "reserve_exact"):
            return UNIT, g, state
        if nm in MUTATORS and n == 2 and own in ("Vec", "VecDeque", "String", "Extend", "BinaryHeap", "HashSet"):
            if MUTATORS[nm] == "push":
                v = mk("push", A[0], A[1])
            elif MUTATORS[nm] == "extend":
                v = mk("extend", A[0], A[1]) if not (A[0].op == "empty") else A[1]
                st = self.upd(args[0], v, state)
                if nm == "append":
                    st = self.upd(args[1], mk("empty", own), st)
                self.emit("mutate", q, A, g, fn, f=f, path=f["p"])
                return UNIT, g, st
            else:
                v = mk("push_front", A[0], A[1])
            self.emit("mutate", q, A, g, fn, f=f, path=f["p"])
            return UNIT, g, self.upd(args[0], v, state)
        if nm == "insert" and n == 3 and own in ("HashMap", "Map", "BTreeMap", "Vec"):
            self.emit("mutate", q, A, g, fn, f=f, path=f["p"])
            return mk("call", q, tuple(A), None), g, self.upd(args[0], mk("insert", A[0], A[1], A[2]), state)
        if nm == "insert" and n == 2 and own in ("HashSet", "BTreeSet"):
            self.emit("mutate", q, A, g, fn, f=f, path=f["p"])
            return mk("call", q, tuple(A), None), g, self.upd(args[0], mk("push", A[0], A[1]), state)
        if nm == "clear" and n == 1:
            self.emit("mutate", q, A, g, fn, f=f, path=f["p"])
            return UNIT, g, self.upd(args[0], mk("empty", own), state)
        if q == "mem::take":
            return A[0], g, self.upd(args[0], mk("empty", "take"), state)
        if q == "mem::replace":
            return A[0], g, self.upd(args[0], args[1], state)
        if q == "mem::swap":
            st = self.upd(args[0], A[1], state)
            return UNIT, g, self.upd(args[1], A[0], st)
        if q in ("mem::drop", "mem::forget", "drop"):
            return UNIT, g, state
        if own in ("slice", "Vec") and nm in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key",
                                             "sort_by_cached_key", "dedup", "dedup_by_key", "dedup_by", "retain", "reverse"):
            return self.sorts(fn, own, nm, args, A, g, state, site, q, f)
        if own == "slice" and nm in ("binary_search_by", "binary_search_by_key", "partition_point", "binary_search"):
            return self.bsearch(fn, nm, args, A, g, state, site, q, f)
        if nm == "first" and own == "slice":
            return pure(optget(A[0], const(0)))
        if nm == "get" and own in ("slice", "Vec", "Vector") and n == 2:
            if own == "Vector":
                return pure(index(A[0], A[1]))
            return pure(optget(A[0], A[1]))
        if nm == "contains" and own in ("Range", "RangeInclusive") and n == 2:
            c = self.in_range(A[0], A[1])
            if c is not None:
                return pure(c)
        if q == "RangeInclusive::new":
            return pure(mk("call", "RangeInclusive", tuple(A), None))
        if nm in ("copy_from_slice", "clone_from_slice") and n == 2:
            return UNIT, g, self.upd(args[0], A[1], state)
        if q == "Box::new_uninit":
            return pure(mk("newbox", fn.path, site))
        h = self.bytes_io(fn, own, nm, q, args, A, tys, g, state, site, targs, f)
        if h is not NotImplemented:
            return h
        # ---- iterators
        if own in ("Iterator", "DoubleEndedIterator"):
            h = self.iters(fn, nm, args, A, tys, g, state, site, targs, f, dty)
            if h is not NotImplemented:
                return h
        return NotImplemented

    # ---- byte encodings, readers and writers (a cursor position per reader/writer)
    def bytes_io(self, fn, own, nm, q, args, A, tys, g, state, site, targs, f):
        n = len(args)

        def done(ret, dpos=None, setpos=None, st=None, **k):
            ev = self.emit("io", q, A, g, fn, f=f, path=f["p"], targs=targs, tys=tys)
            st = dict(st if st is not None else state)
            if dpos is not None or setpos is not None:
                key = ("pos", A[0])
                cur = st.get(key, dflt(key))
                ev.state = cur
                st[key] = add(cur, dpos) if dpos is not None else setpos
            ev.ret = ret
            return ret, g, st
        okc = lambda: as_cond(mk("iook", fn.path, site, tuple((x.path, b) for x, b in self.stack[:-1])[-3:]))
        res = lambda v: ite(okc(), ok(v), mk("agg", "std::result::Result", 1, "Err", ("0",), mk("errval", q)))
        if own in SIZES and nm in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
            return enc(own, nm[3:5], A[0]), g, state
        if own in SIZES and nm in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
            return dec(own, nm[5:7], A[0]), g, state
        if own == "ByteOrder" and nm.startswith("write_") and n == 2:
            v = enc(nm[6:], ENDIAN.get(targs[0], targs[0]), A[1])
            return UNIT, g, self.upd(args[0], v, state)
        if own == "ByteOrder" and nm.startswith("read_") and n == 1:
            return dec(nm[5:], ENDIAN.get(targs[0], targs[0]), A[0]), g, state
        if own == "WriteBytesExt" and nm.startswith("write_") and n == 2:
            ty = nm[6:]
            v = enc(ty, ENDIAN.get(targs[-1], targs[-1]) if ty not in ("u8", "i8") else "le", A[1])
            if self.has_mref(args[0]):
                self.emit("io", q, A, g, fn, f=f, path=f["p"], targs=targs, tys=tys)
                return ok(UNIT), g, self.upd(args[0], append(A[0], v), state)
            return done(res(UNIT), const(SIZES[ty]))
        if own == "ReadBytesExt" and nm.startswith("read_") and n == 1:
            ty = nm[5:]
            key = ("pos", A[0])
            cur = state.get(key, dflt(key))
            v = dec(ty, ENDIAN.get(targs[-1], targs[-1]) if ty not in ("u8", "i8") else "le",
                    mk("readat", A[0], cur, const(SIZES.get(ty, 0))))
            return done(res(v), const(SIZES[ty]))
        if nm == "read_exact" and n == 2 and own in ("Read", "AsyncReadExt"):
            key = ("pos", A[0])
            cur = state.get(key, dflt(key))
            ln = length(A[1])
            r = res(UNIT)
            data = mk("readat", A[0], cur, ln)
            st = self.upd(args[1], data, state) if self.has_mref(args[1]) else state
            return done(r, ln, st=st)
        if q in ("Read::read_to_end", "Read::read_to_string") and n == 2:
            key = ("pos", A[0])
            cur = state.get(key, dflt(key))
            st = self.upd(args[1], mk("readall", A[0], cur), state) if self.has_mref(args[1]) else state
            return done(res(mk("nread", A[0])), st=st, setpos=mk("eof", A[0]))
        if own == "Seek" and nm == "seek" and n == 2:
            w = A[1]
            key = ("pos", A[0])
            cur = state.get(key, dflt(key))

            def to(x):
                if x.op == "agg" and x.a[2] == "Start":
                    return x.a[4]
                if x.op == "agg" and x.a[2] == "Current":
                    return add(cur, x.a[4])
                if x.op == "agg" and x.a[2] == "End":
                    return add(mk("eof", A[0]), x.a[4])
                return mk("seekto", x)
            new = mapleaf(w, to)
            new = uncast(new)
            return done(res(new), setpos=new)
        if q == "Seek::rewind":
            return done(res(UNIT), setpos=const(0))
        if q == "Seek::stream_position":
            key = ("pos", A[0])
            return done(res(state.get(key, dflt(key))))
        if q == "Read::take" and n == 2:
            return mk("take_reader", A[0], A[1]), g, state
        if q == "io::copy" and n == 2:
            src = A[0]
            if src.op == "take_reader":
                key = ("pos", src.a[0])
                cur = state.get(key, dflt(key))
                ev = self.emit("io", q, A, g, fn, f=f, path=f["p"], targs=targs, tys=tys)
                st = dict(state)
                st[key] = add(cur, uncast(src.a[1]))
                r = res(mk("ncopied", src))
                ev.ret, ev.state = r, cur
                return r, g, st
            return done(res(mk("ncopied", src)), setpos=mk("eof", src))
        if own == "Write" and nm in ("write_all", "write") and n == 2:
            if self.has_mref(args[0]):
                self.emit("io", q, A, g, fn, f=f, path=f["p"], targs=targs, tys=tys)
                return res(UNIT), g, self.upd(args[0], append(A[0], A[1]), state)
            return done(res(UNIT if nm == "write_all" else mk("nwritten", A[1])), length(A[1]))
        if own == "Write" and nm == "flush":
            return done(res(UNIT))
        if q == "Vec::resize" and n == 3:
            self.emit("alloc", q, (A[1], A[0]), g, fn)
            return UNIT, g, self.upd(args[0], mk("resized", A[0], A[1]), state)
        if q == "Vec::truncate" and n == 2:
            return UNIT, g, self.upd(args[0], slice_(A[0], const(0), A[1]), state)
        return NotImplemented

    def equal_vals(self, a, b, t):
        s = t.s if t is not None else ""
        return self.equal(a, b, "float" if s in ("f32", "f64") else "int")

    def in_range(self, r, x):
        if r.op == "agg" and r.a[0].endswith("Range"):
            d = agg_fields(r)
            return AND(rel("Le", d["start"], x), rel("Lt", x, d["end"]))
        if r.op == "call" and r.a[0] == "RangeInclusive":
            return AND(rel("Le", r.a[1][0], x), rel("Le", x, r.a[1][1]))
        return None

    def local_from(self, fn, f, tys):
        """a local From impl selected by From::from / Into::into"""
        cal = self.w.callee(f)
        if cal is not None:
            return cal if not cal.d.get("macro") else None
        if not hasattr(self, "_from"):
            self._from = {}
            for x in self.w.fns.values():
                if x.impl_trait and short(x.impl_trait) == "From" and x.d.get("name") == "from":
                    self._from[(x.impl_self.s, x.ty(1).s)] = x
        a = [self.w.type(fn.crate, x).s for x in f.get("a", []) if isinstance(x, int)]
        if len(a) == 2:
            k = (a[1], a[0]) if short(f["p"]).startswith("into") else (a[0], a[1])
            x = self._from.get(k)
            if x is not None and not x.d.get("macro"):
                return x
        return None

    def try_branch(self, x, f, fn, g, state):
        st = None
        for i in f.get("a", []):
            if isinstance(i, int):
                st = self.w.type(fn.crate, i)
                break
        isopt = st is not None and st.s.startswith("std::option::Option")
        cf = "std::ops::ControlFlow"
        if isopt:
            c = is_some(x)
            cont = mk("agg", cf, 0, "Continue", ("0",), payload(x, "Some", "0"))
            brk = mk("agg", cf, 1, "Break", ("0",), NONE)
        else:
            c = is_ok(x)
            cont = mapleaf(payload(x, "Ok", "0"), lambda l: mk("agg", cf, 0, "Continue", ("0",), l))
            brk = mapleaf(payload(x, "Err", "0"), lambda l: mk("agg", cf, 1, "Break", ("0",), err(l)))
        if c is TRUE or c is FALSE or isopt or self.strict:
            if cont is UNDEF:
                return brk, g, state
            if brk is UNDEF:
                return cont, g, state
            return ite(c, cont, brk), g, state
        return mk("try", c, cont, brk), g, state

    def poll(self, fn, fut, g, state, site):
        v = self.deref(fut, state)
        ready = lambda x: mk("agg", "std::task::Poll", 0, "Ready", ("0",), x)
        if v.op == "agg" and v.a[2] == "coroutine":
            body = self.w.fns.get(v.a[0])
            if body is not None and not any(x is body for x, _ in self.stack):
                r = self.call_body(body, [v, UNIT], g, state, site)
                if r is None:
                    return None
                return ready(r[0]), r[1], r[2]
        return mapleaf(v, ready), g, state

    def optres(self, fn, own, nm, args, A, tys, g, state, site, f):
        x = A[0] if A else None
        isopt = own == "Option"
        good = (lambda: is_some(x)) if isopt else (lambda: is_ok(x))
        pay = (lambda: payload(x, "Some", "0")) if isopt else (lambda: payload(x, "Ok", "0"))
        perr = (lambda: payload(x, "Err", "0"))
        wrap = some if isopt else ok

        def pure(v):
            return v, g, state

        def inv(i, xs):
            return lambda g2, s2: self.invoke(args[i], xs, g2, s2, fn, site + (i,))
        if nm in ("is_some", "is_ok"):
            return pure(good())
        if nm in ("is_none", "is_err"):
            return pure(NOT(good()))
        if nm in ("unwrap", "expect", "unwrap_unchecked"):
            self.emit("unwrap", nm, (x,), AND(g, NOT(good())), fn)
            p = pay()
            return pure(p)
        if nm in ("unwrap_err", "expect_err"):
            return pure(perr())
        if nm == "unwrap_or":
            return pure(ite(good(), mapleaf(pay(), lambda l: l), A[1]))
        if nm == "unwrap_or_default":
            t = tys[0].peel() if tys and tys[0] is not None else None
            d = mk("call", "default", (), t.targ(0).s if t is not None and t.targ(0) is not None else "?")
            if t is not None and t.targ(0) is not None:
                s = t.targ(0).s
                if s in SIZES and s != "bool":
                    d = const(0.0) if s[0] == "f" else const(0)
                elif s == "std::string::String" or s == "&str":
                    d = const("")
                elif s == "bool":
                    d = FALSE
                elif s.startswith("std::vec::Vec"):
                    d = mk("empty", "Vec")
            return pure(ite(good(), pay(), d))
        if nm == "unwrap_or_else":
            return self.branch(good(), g, state, lambda g2, s2: (pay(), g2, s2),
                               inv(1, [] if isopt else [perr()]))
        if nm == "map":
            return self.branch(good(), g, state, lambda g2, s2: lift(self.invoke(args[1], [pay()], g2, s2, fn, site + (1,)), wrap),
                               lambda g2, s2: (NONE if isopt else mapleaf(perr(), err), g2, s2))
        if nm in ("and_then",):
            return self.branch(good(), g, state, inv(1, [pay()]),
                               lambda g2, s2: (NONE if isopt else mapleaf(perr(), err), g2, s2))
        if nm == "map_or":
            return self.branch(good(), g, state, inv(2, [pay()]), lambda g2, s2: (A[1], g2, s2))
        if nm == "map_or_else":
            return self.branch(good(), g, state, inv(2, [pay()]), inv(1, [] if isopt else [perr()]))
        if nm in ("is_some_and", "is_ok_and"):
            return self.branch(good(), g, state, inv(1, [pay()]), lambda g2, s2: (FALSE, g2, s2))
        if nm == "is_none_or":
            return self.branch(good(), g, state, inv(1, [pay()]), lambda g2, s2: (TRUE, g2, s2))
        if nm == "filter" and isopt:
            r = self.branch(good(), g, state, inv(1, [pay()]), lambda g2, s2: (FALSE, g2, s2))
            if r is None:
                return None
            return ite(as_cond(r[0]), x, NONE), r[1], r[2]
        if nm == "ok_or":
            return pure(ite(good(), mapleaf(pay(), ok), err(A[1])))
        if nm == "ok_or_else":
            return self.branch(good(), g, state, lambda g2, s2: (mapleaf(pay(), ok), g2, s2),
                               lambda g2, s2: lift(self.invoke(args[1], [], g2, s2, fn, site + (1,)), err))
        if nm == "or":
            return pure(ite(good(), x, A[1]))
        if nm == "or_else":
            return self.branch(good(), g, state, lambda g2, s2: (x, g2, s2), inv(1, [] if isopt else [perr()]))
        if nm == "map_err":
            return self.branch(good(), g, state, lambda g2, s2: (mapleaf(pay(), ok), g2, s2),
                               lambda g2, s2: lift(self.invoke(args[1], [perr()], g2, s2, fn, site + (1,)), err))
        if nm == "ok":
            self.emit("ok", "Result::ok", (x,), g, fn)
            return pure(ite(good(), mapleaf(pay(), some), NONE))
        if nm == "err":
            return pure(ite(good(), NONE, mapleaf(perr(), some)))
        if nm == "transpose" and isopt:
            p = pay()
            return pure(ite(good(), ite(is_ok(p), mapleaf(payload(p, "Ok", "0"), lambda l: ok(some(l))),
                                        mapleaf(payload(p, "Err", "0"), err)), ok(NONE)))
        if nm == "flatten":
            return pure(ite(good(), pay(), NONE if isopt else mapleaf(perr(), err)))
        if nm == "take" and isopt:
            return x, g, self.upd(args[0], NONE, state)
        if nm == "replace" and isopt:
            return x, g, self.upd(args[0], some(A[1]), state)
        if nm == "insert" and isopt:
            st = self.upd(args[0], some(A[1]), state)
            return args[0], g, st
        if nm == "zip" and isopt:
            y = A[1]
            return pure(ite(AND(is_some(x), is_some(y)), some(tup(pay(), payload(y, "Some", "0"))), NONE))
        return NotImplemented

    # ---- iterators
    def itkey(self, fn, site):
        return mk("itkey", fn.path, site, tuple((f.path, b) for f, b in self.stack[:-1]))

    def per_elem(self, fn, src, closure, g, state, site, extra=None):
        """run a closure on the element of src -> (element, result, guard inside, state after)"""
        key = self.itkey(fn, site)
        el, eg = elem(src, key)
        box = {}

        def body(st):
            r = self.invoke(closure, (extra(el) if extra else [el]), AND(AND(g, as_cond(mk("more", key))), eg), st, fn, site)
            box["v"] = r
            return r
        r, st = self.pseudo_loop(("it", key), fn, g, state, body)
        if r is None:
            return key, el, eg, UNDEF, state
        return key, el, eg, r[0], st

    def iters(self, fn, nm, args, A, tys, g, state, site, targs, f, dty):
        src = A[0] if A else None

        def pure(v):
            return v, g, state
        if nm == "next" or nm == "next_back" and False:
            it = args[0]
            v = self.deref(it, state)
            key = v
            base = v
            if v.op == "lv" and v in self.loops:
                base = self.loops[v].init
                if base.op == "lv" and base in self.loops:
                    base = self.loops[base].init
            adv = 0
            while base.op == "adv":
                base = base.a[0]
                adv = 1
            if adv:
                base = mk("skip", base, const(1))
            # a user-defined iterator is a normal call
            el, eg = elem(base, key)
            more = as_cond(mk("more", key))
            st = self.upd(it, mk("adv", v), state) if it.op in ("mref", "sw") else state
            return ite(more, some(el), NONE), g, st
        if nm == "map":
            key, el, eg, v, st = self.per_elem(fn, src, args[1], g, state, site)
            return seq(src, key, eg, v), g, st
        if nm == "filter":
            key, el, eg, v, st = self.per_elem(fn, src, args[1], g, state, site)
            return seq(src, key, AND(eg, as_cond(v)), el), g, st
        if nm == "filter_map":
            key, el, eg, v, st = self.per_elem(fn, src, args[1], g, state, site)
            return seq(src, key, AND(eg, is_some(v)), payload(v, "Some", "0")), g, st
        if nm == "flat_map":
            key, el, eg, v, st = self.per_elem(fn, src, args[1], g, state, site)
            return mk("flat", seq(src, key, eg, v)), g, st
        if nm == "inspect":
            key, el, eg, v, st = self.per_elem(fn, src, args[1], g, state, site)
            return src, g, st
        if nm == "flatten":
            return pure(mk("flat", src))
        if nm in ("for_each", "try_for_each"):
            key, el, eg, v, st = self.per_elem(fn, src, args[1], g, state, site)
            return (UNIT if nm == "for_each" else mk("tryeach", src, key, v)), g, st
        if nm in ("any", "all", "find", "position", "find_map", "take_while", "skip_while", "max_by_key", "min_by_key", "partition", "map_while"):
            key, el, eg, v, st = self.per_elem(fn, src, args[1], g, state, site)
            if nm in ("any", "all"):
                c = as_cond(v)
                if nm == "all":
                    return NOT(as_cond(mk("any", src, key, AND(eg, NOT(c))))), g, st
                return as_cond(mk("any", src, key, AND(eg, c))), g, st
            if nm == "find":
                return mk("find", src, key, as_cond(v)), g, st
            return mk("call", "Iterator::" + nm, (src, v), key), g, st
        if nm in ("fold", "try_fold"):
            key = self.itkey(fn, site)
            el, eg = elem(src, key)
            acc = mk("lv", ("it", key), ("acc", 0), (), A[1])
            li = LoopInfo()
            li.var, li.init, li.next, li.key, li.fn, li.guard_in = acc, A[1], None, ("it", key), fn, g
            self.loops[acc] = li

            def body(st):
                r = self.invoke(args[2], [acc, el], AND(g, as_cond(mk("more", key))), st, fn, site)
                return r
            r, st = self.pseudo_loop(("it", key), fn, g, state, body)
            li.next = r[0] if r else UNDEF
            return acc if nm == "fold" else mk("tryfold", acc), g, st
        if nm == "collect" or nm == "to_vec":
            t = (targs[1] if len(targs) > 1 else dty.s if dty is not None else "")
            if t.startswith("std::result::Result<") or t.startswith("std::option::Option<"):
                isres = t.startswith("std::result")
                key = self.itkey(fn, site)
                el, eg = elem(src, key)
                inner = payload(el, "Ok" if isres else "Some", "0")
                good = as_cond(mk("allok", src))
                if (is_ok(el) if isres else is_some(el)) is TRUE:
                    good = TRUE
                if inner is UNDEF:
                    inner = mk("never")
                s2 = seq(src, key, TRUE, inner)
                return pure(ite(good, (ok if isres else some)(s2), err(mk("firsterr", src)) if isres else NONE))
            hd = t.split("<")[0].rsplit("::", 1)[-1]
            if hd in ("HashMap", "BTreeMap", "Map"):
                return pure(mk("mapof", src))
            if hd in ("HashSet", "BTreeSet"):
                return pure(mk("setof", src))
            return pure(src)
        if nm == "enumerate":
            return pure(mk("enum", src))
        if nm == "zip":
            return pure(mk("zip", src, A[1]))
        if nm in ("rev", "skip", "take", "step_by", "chain", "cycle", "windows", "last", "nth", "max", "min", "sum", "product",
                  "min_by", "max_by", "unzip", "cmp", "eq", "dedup", "scan"):
            return pure(mk(nm, *A))
        return NotImplemented

    def sorts(self, fn, own, nm, args, A, g, state, site, q, f):
        v = A[0]
        cmpv = None
        if nm in ("sort_by", "sort_unstable_by", "dedup_by") and len(args) > 1:
            a, b = mk("elem", v, mk("lhs")), mk("elem", v, mk("rhs"))
            r = self.invoke(args[1], [a, b], g, state, fn, site)
            cmpv = r[0] if r else UNDEF
        elif len(args) > 1:
            a = mk("elem", v, mk("lhs"))
            r = self.invoke(args[1], [a], g, state, fn, site)
            cmpv = r[0] if r else UNDEF
        if nm == "retain" and cmpv is not None:
            nv = seq(v, mk("lhs"), as_cond(cmpv), mk("elem", v, mk("lhs")))
        elif nm.startswith("dedup"):
            nv = mk("dedup", v) if cmpv is None else mk("dedup", v, cmpv)
        elif nm == "reverse":
            nv = mk("rev", v)
        else:
            nv = mk("sorted", v, mk("key", nm.replace("_unstable", "").replace("_cached", ""), cmpv if cmpv is not None else UNIT))
        self.emit("mutate", q, list(A) + ([cmpv] if cmpv is not None else []), g, fn, f=f, path=f["p"])
        return UNIT, g, self.upd(args[0], nv, state)

    def bsearch(self, fn, nm, args, A, g, state, site, q, f):
        v = A[0]
        if nm == "binary_search":
            c = mapleaf(cmp_(mk("elem", v, mk("probe")), A[1]), lambda l: ordering(cval(l)) if is_const(l) else l)
        elif nm == "binary_search_by_key":
            r = self.invoke(args[2], [mk("elem", v, mk("probe"))], g, state, fn, site)
            c = mapleaf(cmp_(r[0], A[1]), lambda l: ordering(cval(l)) if is_const(l) else l) if r else UNDEF
        else:
            r = self.invoke(args[1], [mk("elem", v, mk("probe"))], g, state, fn, site)
            c = r[0] if r else UNDEF
        self.emit("call", q, [v, c], g, fn, f=f, path=f["p"])
        return mk("bsearch" if nm != "partition_point" else "ppoint", v, c), g, state


# ---------------------------------------------------------------- helpers
ERRKEY = ("err", 0)
ORDV = {"Less": -1, "Equal": 0, "Greater": 1}
_REL2 = {"is_lt": (-1,), "is_le": (-1, 0), "is_gt": (1,), "is_ge": (0, 1), "is_eq": (0,), "is_ne": (-1, 1)}
INTLIM = {}
SIZES = {"bool": 1}
for _b in (8, 16, 32, 64, 128):
    INTLIM[("u%d" % _b, "min_value")] = 0
    INTLIM[("u%d" % _b, "max_value")] = (1 << _b) - 1
    INTLIM[("i%d" % _b, "min_value")] = -(1 << (_b - 1))
    INTLIM[("i%d" % _b, "max_value")] = (1 << (_b - 1)) - 1
    SIZES["u%d" % _b] = SIZES["i%d" % _b] = _b // 8
SIZES["usize"] = SIZES["isize"] = SIZES["f64"] = 8
SIZES["f32"] = 4
INTLIM[("usize", "max_value")] = (1 << 64) - 1
INTLIM[("usize", "min_value")] = 0
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128}


def arms(t):
    seen, st, n = set(), [t], 0
    while st:
        x = st.pop()
        if x in seen or x.op != "sw":
            continue
        seen.add(x)
        n += len(x.a[1])
        st.extend(c for _, c in x.a[1])
        if x.a[2] is not None:
            st.append(x.a[2])
    return n


def dflt(k):
    """value of a state slot nothing has written yet"""
    if k[0] == "cell":
        return k[1]
    if k[0] == "pos":
        return mk("pos0", k[1])
    return UNDEF


def ordering(v):
    return mk("agg", "std::cmp::Ordering", {-1: 0, 0: 1, 1: 2}[v], {-1: "Less", 0: "Equal", 1: "Greater"}[v], ())


ENDIAN = {"byteorder::LittleEndian": "le", "byteorder::BigEndian": "be"}


def enc(ty, e, x):
    return mapleaf(x, lambda v: v.a[2] if v.op == "dec" and v.a[0] == ty and (v.a[1] == e or SIZES.get(ty) == 1)
                   else mk("enc", ty, e if SIZES.get(ty, 2) > 1 else "le", v))


def dec(ty, e, x):
    return mapleaf(x, lambda v: v.a[2] if v.op == "enc" and v.a[0] == ty and (v.a[1] == e or SIZES.get(ty) == 1)
                   else mk("dec", ty, e if SIZES.get(ty, 2) > 1 else "le", v))


def append(old, x):
    if old.op == "empty":
        return x
    return mk("extend", old, x)


def uncast(t):
    """drop sign-only integer casts of sizes and offsets"""
    def f(x):
        if x.op == "cast" and x.a[0] in BITS and x.a[1] in BITS and BITS[x.a[1]] >= BITS[x.a[0]]:
            return uncast(x.a[2])
        if x.op == "lin":
            r = const(x.a[0])
            for k, c in x.a[1]:
                r = add(r, mul(uncast(k), const(c)))
            return r
        return x
    return mapleaf(t, f)


def lift(r, f):
    if r is None:
        return None
    return mapleaf(r[0], f), r[1], r[2]


def cast(v, frm, to):
    def f(x):
        if is_const(x):
            c = cval(x)
            if isinstance(c, bool):
                c = int(c)
            if isinstance(c, int) and to in BITS:
                b = BITS[to]
                c &= (1 << b) - 1
                if to[0] == "i" and c >> (b - 1):
                    c -= 1 << b
                return const(c)
            if isinstance(c, (int, float)) and to in ("f32", "f64"):
                return const(float(c))
        if widening(frm, to):
            return x
        if frm == "bool":
            return ite(as_cond(x), const(1), const(0))
        return mk("cast", frm, to, x)
    return mapleaf(v, f)


def widening(frm, to):
    if frm in BITS and to in BITS:
        if frm[0] == to[0] and BITS[to] >= BITS[frm]:
            return True
        if frm[0] == "u" and to[0] == "i" and BITS[to] > BITS[frm]:
            return True
        return False
    if frm in ("f32",) and to == "f64":
        return True
    if frm == "char" and to in ("u32", "u64"):
        return True
    if frm in BITS and to == "f64" and BITS[frm] <= 32:
        return True
    return False


def length(v):
    def f(x):
        if x.op == "agg" and x.a[0] == "array":
            return const(len(x.a) - 4)
        if x.op == "const" and isinstance(cval(x), str):
            return const(len(cval(x).encode()))
        if x.op == "const" and isinstance(cval(x), bytes):
            return const(len(cval(x)))
        if x.op == "empty":
            return const(0)
        if x.op == "repeat":
            return x.a[1] if isinstance(x.a[1], T) else (const(int(x.a[1])) if x.a[1].isdigit() else mk("len", x))
        if x.op == "sorted" or x.op == "rev":
            return length(x.a[0])
        if x.op == "enum":
            return length(x.a[0])
        if x.op == "seq" and x.a[2] is TRUE:
            return length(x.a[0])
        if x.op == "slice":
            lo, hi = x.a[1], x.a[2]
            if hi is not UNIT:
                return sub(hi, lo)
            return sub(length(x.a[0]), lo)
        if x.op == "agg" and x.a[0].endswith("::Range"):
            d = agg_fields(x)
            return sub(d["end"], d["start"])
        if x.op == "mut" and x.a[0] in ("Read::read_exact", "AsyncReadExt::read_exact"):
            return length(x.a[3])
        if x.op == "resized":
            return x.a[1]
        if x.op == "readat":
            return x.a[2]
        if x.op == "enc" and x.a[0] in SIZES:
            return const(SIZES[x.a[0]])
        if x.op == "extend":
            return add(length(x.a[0]), length(x.a[1]))
        if x.op == "push":
            return add(length(x.a[0]), const(1))
        if x.op == "subslice" and not x.a[2]:
            return sub(const(x.a[1][1]), const(x.a[1][0]))
        if x.op == "store":
            return length(x.a[0])
        return mk("len", x)
    return mapleaf(v, f)


def index(v, i):
    if v.op == "sw":
        return mapleaf(v, lambda x: index(x, i))
    if i.op == "agg":
        nm = i.a[0].rsplit("::", 1)[-1]
        d = agg_fields(i)
        if nm == "Range":
            return slice_(v, d["start"], d["end"])
        if nm == "RangeFrom":
            return slice_(v, d["start"], UNIT)
        if nm == "RangeTo":
            return slice_(v, const(0), d["end"])
        if nm == "RangeToInclusive":
            return slice_(v, const(0), add(d["end"], const(1)))
        if nm == "RangeFull":
            return v
    if i.op == "call" and i.a[0] == "RangeInclusive":
        return slice_(v, i.a[1][0], add(i.a[1][1], const(1)))
    if v.op == "agg" and v.a[0] == "array" and is_const(i) and 0 <= cval(i) < len(v.a) - 4:
        return v.a[4 + cval(i)]
    if v.op == "store" and v.a[1] is i:
        return v.a[2]
    if v.op == "repeat":
        return v.a[0]
    if v.op == "slice":
        return index(v.a[0], add(v.a[1], i))
    return mk("index", v, i)


def slice_(v, lo, hi):
    if cval(lo) == 0 and hi is UNIT:
        return v
    if v.op == "slice":
        base, l0, h0 = v.a
        return slice_(base, add(l0, lo), h0 if hi is UNIT else add(l0, hi))
    return mapleaf(v, lambda x: mk("slice", x, lo, hi))


def optget(v, i):
    """slice.get(i): Some iff i < len"""
    if is_const(i):
        c = NOT(mapleaf(length(v), lambda l: eqc(l, 0))) if cval(i) == 0 else rel("Gt", length(v), i, "uint")
    else:
        if i.op == "agg":
            return mk("call", "slice::get", (v, i), None)
        c = rel("Lt", i, length(v), "uint")
    return ite(c, mapleaf(index(v, i), some), NONE)


def elem(src, key):
    """element of an iteration source -> (value, guard under which it is produced)"""
    if src.op == "sw":
        gs = TRUE
        return mapleaf(src, lambda s: elem(s, key)[0]), mapleaf(src, lambda s: elem(s, key)[1])
    if src.op == "seq":
        return src.a[3], src.a[2]
    if src.op == "enum":
        e, g = elem(src.a[0], key)
        return tup(mk("idx", key), e), g
    if src.op == "zip":
        e1, g1 = elem(src.a[0], key)
        e2, g2 = elem(src.a[1], key)
        return tup(e1, e2), AND(g1, g2)
    if src.op == "rev" and False:
        return elem(src.a[0], key)
    if src.op == "agg" and src.a[2] == "Some" and src.a[0].endswith("Option"):
        return src.a[4], TRUE
    if src.op == "itermut":
        m = src.a[0]
        return mk("mref", m.a[0], m.a[1] + (("ix", mk("idx", key)),)), TRUE
    if src.op == "push":
        pass
    return mk("elem", src, key), TRUE


def seq(src, key, g, v):
    if src.op == "sw":
        return mapleaf(src, lambda s: seq(s, key, g, v))
    if src.op == "seq":
        return mk("seq", src.a[0], src.a[1], AND(src.a[2], g), v)
    if g is TRUE and v.op == "elem" and v.a[0] is src:
        return src
    return mk("seq", src, key, g, v)


def getpath(v, path):
    for p in path:
        v = field(v, p)
    return v


def setpath(v, path, x):
    if not path:
        return x
    return withf(v, path[0], setpath(field(v, path[0]), path[1:], x))


def setp(v, pr, val, rd):
    if not pr:
        return val
    p = pr[0]
    if p == "*":
        return setp(v, pr[1:], val, rd)
    sub_ = setp(rd(v, p), pr[1:], val, rd)
    if p[0] == "f":
        return withf(v, p[1], sub_)
    if p[0] == "pl":
        return setpl(v, p[1], p[2], sub_)
    if p[0] == "ix":
        if v.op == "agg" and v.a[0] == "array" and is_const(p[1]) and 0 <= cval(p[1]) < len(v.a) - 4:
            a = list(v.a)
            a[4 + cval(p[1])] = sub_
            return mk("agg", *a)
        return mk("store", v, p[1], sub_)
    return mk("withp", v, p, sub_)


def setpl(v, var, i, x):
    if v.op == "sw":
        return mapleaf(v, lambda y: setpl(y, var, i, x) if not (y.op == "agg" and y.a[2] != var) else y)
    if v.op == "agg" and v.a[2] == var and i in v.a[3]:
        a = list(v.a)
        a[4 + v.a[3].index(i)] = x
        return mk("agg", *a)
    if v.op == "withpl" and v.a[1] == var and v.a[2] == i:
        v = v.a[0]
    return mk("withpl", v, var, i, x)


def diffpaths(old, new, depth=0):
    """field paths at which new differs from old"""
    if old is new:
        return []
    if old is None or old is UNDEF:
        return [()]
    if old.op == "agg" and new.op == "agg" and old.a[:4] == new.a[:4] and depth < 3 and old.a[2] not in ("Some", "Ok"):
        out = []
        for n, x, y in zip(old.a[3], old.a[4:], new.a[4:]):
            out += [(n,) + p for p in diffpaths(x, y, depth + 1)]
        return out
    if new.op == "with" and depth < 3:
        base, names = new, []
        while base.op == "with":
            names.append(base.a[1])
            base = base.a[0]
        ob = old
        while ob.op == "with":
            names.append(ob.a[1])
            ob = ob.a[0]
        if ob is base:
            out = []
            for n in sorted(set(names)):
                out += [(n,) + p for p in diffpaths(field(old, n), field(new, n), depth + 1)]
            return out
    if new.op == "sw" and depth < 3:
        ls = leaves(new)
        out = []
        for l in ls:
            for p in diffpaths(old, l, depth):
                if p == ():
                    return [()]
                if p not in out:
                    out.append(p)
        return out
    return [()]
