"""Layout of a written file: sections and their positions (L01), offsets in indexes (L02), what the header says (L03)."""
from rules import rule, final
from term import *
from util import *
from .cli import orall, always
from .index import paths

OPAQUE = ("finish_to_header", "build_attribute_index_for_attr", "hilbert_sort", "calc_extent", "PackedRTree::build", "PackedRTree::stream_write")


def last(n):
    return n.rsplit("::", 1)[-1]


def calm(g):
    """the condition on runs without failures, inside the loops around it"""
    return assign(g, lambda a: False if a.op == "fails" else True if is_more(a) else 1 if nextish(a) else None)


def stable_fields(fl):
    """fields of a loop variable the loop does not change are those it started with"""
    memo = {}

    def f(x):
        if x.op == "field" and x.a[0].op == "lv" and x.a[0] in fl.loops:
            li = fl.loops[x.a[0]]
            if li.next is not None:
                nx = field(li.next, x.a[1], x.a[2])
                if all(l is x or l is UNDEF for l in leaves(nx)):
                    return rebuild(field(li.init, x.a[1], x.a[2]), f)
        return x
    return lambda t: rebuild(t, f, memo)


def sole(fns):
    return fns[0] if len(fns) == 1 else None


def owner(cx, name):
    return sole([f for f in cx.w.user_fns(("fcb_core",)) if "FcbWriter" in f.path and f.name == name and "{closure" not in f.path])


def through(t):
    """the collection behind sorting, cloning and viewing"""
    while t.op in ("sorted", "rev", "ref", "clone") and isinstance(t.a[0], T):
        t = t.a[0]
    return t


class Added:
    """what adding one feature records about it: the roles of the fields of the record pushed per feature"""

    def __init__(self, cx):
        self.fn = owner(cx, "add_feature")
        self.ok = False
        if self.fn is None:
            return
        fl, self.ret = cx.flow(self.fn, opaque=("to_fcb_city_feature", "to_fcb_attribute"))
        self.fl = fl
        me = fl.params[0] if hasattr(fl, "params") else None
        self.pushes = [e for e in fl.events if e.kind == "mutate" and last(e.name) == "push" and e.args[0].op == "field"
                       and root(e.args[0]).op == "param" and "self" in str(root(e.args[0]).a[0]) and not e.loops]
        self.inserts = [e for e in fl.events if e.kind == "mutate" and e.name.endswith("Map::insert") and root(e.args[0]).op == "param" and not e.loops]
        self.writes = [e for e in fl.events if e.kind == "io" and last(e.name) in ("write_all", "write") and e.args and root(e.args[0]).op == "param"]
        if not self.writes:
            return
        self.buf = self.writes[0].args[1]
        self.tmp = self.writes[0].args[0]
        # the record: a struct pushed whose fields name the length of what is written
        rec = []
        for e in self.pushes:
            v = e.args[1]
            if v.op == "agg":
                fs = agg_fields(v)
                if any(x is mk("len", self.buf) for x in fs.values()):
                    rec.append((e, fs))
        nodes = [e for e in self.pushes if e.args[1].op == "agg" and last(e.args[1].a[0]) == "NodeItem"]
        if len(rec) != 1 or len(nodes) != 1:
            return
        self.rec, self.fields = rec[0]
        self.node = nodes[0]
        self.vec = self.rec.args[0]
        self.ok = True
        self.roles = {n: self.role(v) for n, v in self.fields.items()}

    def role(self, v):
        n = mk("len", self.vec)
        while v.op == "cast":
            v = v.a[2]
        if v is n:
            return "id"
        if v is mk("len", self.buf):
            return "size"
        if self.running(v):
            return "start"
        return None

    def running(self, v):
        """v is the number of bytes written so far"""
        if v.op == "field" and root(v).op == "param":
            end = field(final(self.fl, root(v)), v.a[1], v.a[2])
            return all(l is add(v, mk("len", self.buf)) for l in leaves(always(end)))
        ls = leaves(v)
        zero = [l for l in ls if is_const(l) and cval(l) == 0]
        rest = [l for l in ls if l not in zero]
        if len(rest) != 1 or not zero:
            return False
        c, d = lin_parts(rest[0])
        if c or len(d) != 2 or set(d.values()) != {1}:
            return False
        names, bases = set(), set()
        for x in d:
            if x.op != "field":
                return False
            names.add(x.a[1])
            bases.add(x.a[0])
        if len(bases) != 1:
            return False
        b = bases.pop()
        if not (b.op == "payload" and b.a[0].op == "call" and last(b.a[0].a[0]) == "last" and b.a[0].a[1][0] is self.vec):
            return False
        size = [n for n, x in self.fields.items() if x is mk("len", self.buf)]
        start = [n for n, x in self.fields.items() if x is v]
        return len(size) == 1 and len(start) == 1 and names == {size[0], start[0]}


class Written:
    def __init__(self, cx):
        self.ok = False
        self.fn = owner(cx, "write")
        if self.fn is None:
            return
        fl, ret = cx.flow(self.fn, opaque=OPAQUE)
        self.fl, self.ret = fl, ret
        self.settle = stable_fields(fl)
        self.out = [e for e in fl.events if e.kind == "io" and last(e.name) in ("write_all", "write", "write_fmt", "write_vectored") and e.args
                    and root(e.args[0]).op == "param" and "out" in str(root(e.args[0]).a[0])]
        if not self.out:
            self.out = [e for e in fl.events if e.kind == "io" and last(e.name) in ("write_all", "write") and e.args and e.args[0].op == "param"]
        self.trees = [e for e in fl.events if e.kind == "call" and e.name.endswith("PackedRTree::build")]
        self.attrs = [e for e in fl.events if e.kind == "call" and last(e.name) == "build_attribute_index_for_attr"]
        self.header = [e for e in fl.events if e.kind == "call" and last(e.name) == "finish_to_header"]
        if len(self.trees) != 1 or len(self.header) != 1 or not self.out:
            return
        self.tree = self.trees[0]
        g = calm(self.tree.guard)
        self.cond = g
        self.configs = {}
        self.configs["with spatial index"] = forced(g)
        n = 0
        for path, l in paths(NOT(g)):
            if l is not FALSE:
                n += 1
                self.configs["without spatial index %d" % n] = dict(path)
        self.out = [p for e in self.out for p in self.parts(e)]
        self.ok = True

    def parts(self, e):
        """one write of several pieces joined in memory, or a loop over a fixed list of pieces, piece by piece"""
        ts, loops = [e.args[1]], e.loops
        if len(e.loops) == 1:
            src = itsource(e.loops[0], self.fl)
            if len(src) == 1 and src[0].op == "agg" and src[0].a[0] == "array" and not early_exits(self.fl, e.loops[0]):
                el = [x for x in walk(e.args[1]) if x.op == "elem" and x.a[0] is src[0]]
                if el and all(x is el[0] for x in el):
                    ts = [rebuild(e.args[1], lambda x, i=i: i if x is el[0] else x) for i in src[0].a[4:]]
                    loops = ()
        out = []
        for t in ts:
            chain = []
            while t.op == "extend" and kind_of(t, self) is None and t.a[0] is not UNDEF:
                chain.append(t.a[1])
                t = t.a[0]
            out += [t] + chain[::-1]
        return [e] if len(out) == 1 and loops == e.loops else [Piece(e, t, loops) for t in out]


class Piece:
    def __init__(self, e, t, loops):
        self.kind, self.name, self.guard, self.loc, self.fn, self.pos = e.kind, e.name, e.guard, e.loc, e.fn, e.pos
        self.args, self.loops = (e.args[0], t) + tuple(e.args[2:]), loops


def kind_of(t, W):
    """what a piece written to the file is"""
    ls = [l for l in leaves(always(t)) if l is not UNDEF]
    if len(ls) > 1:
        ls = [l for l in ls if l.op != "empty"]
    if len(ls) == 1:
        t = ls[0]
    if t.op == "empty":
        return "empty"
    if any(x.op == "call" and last(x.a[0]) == "finish_to_header" for x in walk(t)) and t.op in ("payload", "call"):
        return "header"
    if t.op == "mut" and last(str(t.a[0])) == "stream_write":
        return "spatial index"
    if t.op == "kconst" or is_const(t):
        return "magic"
    if t.op == "lv" and t in W.fl.loops:
        nx = W.fl.loops[t].next
        ls = [l for l in leaves(nx) if l is not UNDEF and l is not t] if nx is not None else []
        ks = set()
        for l in ls:
            if any(x.op == "call" and last(x.a[0]) == "build_attribute_index_for_attr" for a in l.a[1:] if isinstance(a, T) for x in walk(a)):
                ks.add("attribute indexes")
            elif any(x.op == "readat" for x in walk(l)):
                ks.add("features")
            else:
                ks.add(None)
        if len(ks) == 1:
            return ks.pop()
    return None


def appended(nx, b):
    """one round appends (start, length) read from a reader to the buffer b -> list of (reader, pos, len) or None"""
    out = []
    for l in leaves(nx):
        if l is b or l is UNDEF:
            out.append(None)
            continue
        if l.op == "store" and l.a[0].op == "resized" and l.a[0].a[0] is b:
            n = l.a[0].a[1]
            rng = agg_fields(l.a[1]) if l.a[1].op == "agg" else {}
            if rng.get("start") is mk("len", b) and rng.get("end", n) is n and l.a[2].op == "readat":
                out.append((l.a[2], sub(n, mk("len", b))))
                continue
        if l.op == "extend" and l.a[0] is b:
            rs = [x for x in walk(l.a[1]) if x.op == "readat"]
            if len(rs) == 1:
                out.append((rs[0], rs[0].a[2]))
                continue
        return None
    return out


def one_leaf(t):
    ls = [l for l in leaves(t) if l is not UNDEF]
    return ls[0] if len(ls) == 1 else None


def record_of(t, A):
    """t = one field of the record of a feature -> (temp id term, field name)"""
    while t.op == "cast":
        t = t.a[2]
    if t.op == "field" and t.a[0].op == "index":
        return t.a[0].a[0], t.a[0].a[1], t.a[1]
    return None


def shifted(t, A):
    """a number kept for a feature, and something more"""
    t = plain(t)
    for x in walk(t):
        r = record_of(x, A)
        if r is None or r[0].op != "field" or r[0].a[1] != A.vec.a[1] or r[2] not in A.roles:
            continue
        d = uncast(sub(t, plain(x)))
        if is_const(d) and cval(d) != 0 or d.op == "lv" and isinstance(d.a[1], tuple) and d.a[1][0] == "pos":
            return show(t, 3)
    return None


def uncast(t):
    while t.op == "cast":
        t = t.a[2]
    return t


def pieces(W, asg):
    """what is written to the file in one configuration, in order: (kind, event, condition)"""
    out = []
    for e in W.out:
        g = restrict(calm(e.guard), asg)
        if g is FALSE:
            continue
        out.append((kind_of(restrict(e.args[1], asg), W), e, g))
    return out


def emission(W, asg):
    """the loop that fills the feature section -> (loop info, its iterated collection, [(readat, appended length) or None])"""
    for e in W.out:
        t = one_leaf(restrict(e.args[1], asg))
        if t is None or t.op != "lv" or kind_of(t, W) != "features":
            continue
        for lv, li in W.fl.loops.items():
            if lv.a[0] == t.a[0] and lv.a[1] == t.a[1] and li.next is not None:
                b = restrict(W.settle(li.var), asg)
                src = [restrict(W.settle(x), asg) for x in itsource(li.key, W.fl)]
                return li, b, src, appended(restrict(W.settle(li.next), asg), b)
    return None


@rule("L02")
def offsets(cx):
    rep = cx.rep
    A, W = Added(cx), Written(cx)
    if A.fn is None or not A.ok:
        rep.open("L02.recorded", "add_feature", A.fn.loc() if A.fn else "", "what adding a feature records was not recognised")
    else:
        recorded(rep, A)
    if not W.ok:
        rep.open("L02.features", "write", W.fn.loc() if W.fn else "", "the assembly of the file was not recognised")
    elif A.ok:
        for lab, asg in W.configs.items():
            section(cx, rep, A, W, lab, asg)
        tree_offsets(rep, A, W)
    permutes(cx, rep)
    rep.floor("L02.recorded", 4)
    rep.floor("L02.features", 3)
    rep.floor("L02.entries", 3)
    rep.floor("L02.tree", 3)


def recorded(rep, A):
    """the records kept while features are added: identity, place and size of the bytes in the temporary file"""
    R = "L02.recorded"
    fl = A.fl
    want = always(A.writes[0].guard)
    n = mk("len", A.vec)
    loc = A.rec.loc
    for nm, role in sorted(A.roles.items()):
        v = A.fields[nm]
        if role is not None:
            rep.ok(R, "record." + nm + " is the " + role, loc)
        elif lin_known(v, (n, mk("len", A.buf))):
            rep.bad(R, "record." + nm, loc, "%s is neither the number, the place nor the length of the feature in the temporary file" % show(v, 4))
        else:
            rep.open(R, "record." + nm, loc, show(v, 4))
    for r in ("id", "start", "size"):
        if r not in A.roles.values():
            rep.open(R, "record " + r, loc, "no field of the record holds it")
    nv = uncast(agg_fields(A.node.args[1]).get("offset", UNDEF))
    if nv is n:
        rep.ok(R, "box names its feature", A.node.loc)
    elif is_const(nv) or nv.op in ("len", "lin"):
        rep.bad(R, "box names its feature", A.node.loc, "the box of a feature carries %s, its record is number %s" % (show(nv, 4), show(n, 3)))
    else:
        rep.open(R, "box names its feature", A.node.loc, show(nv, 4))
    ins = [e for e in A.inserts if len(e.args) > 2]
    if len(ins) == 1:
        k = uncast(ins[0].args[1])
        if k is n:
            rep.ok(R, "entries filed under the feature", ins[0].loc)
        elif is_const(k) or k.op in ("len", "lin"):
            rep.bad(R, "entries filed under the feature", ins[0].loc, "the attribute entries of a feature are filed under %s, its record is number %s" % (show(k, 4), show(n, 3)))
        else:
            rep.open(R, "entries filed under the feature", ins[0].loc, show(k, 4))
    else:
        rep.open(R, "entries filed under the feature", A.fn.loc(), "%d places file entries" % len(ins))
    # all or nothing: the bytes are written exactly when the record and the box are kept
    if len(A.writes) != 1 or A.writes[0].loops:
        rep.open(R, "bytes written once", A.writes[0].loc, "%d writes to the temporary file" % len(A.writes))
    for lab, e in [("record", A.rec), ("box", A.node)] + ([("entries", ins[0])] if len(ins) == 1 else []):
        d = always(e.guard)
        if d is want or (implies(d, want) and implies(want, d)):
            rep.ok(R, lab + " kept with the bytes", e.loc)
        else:
            rep.bad(R, lab + " kept with the bytes", e.loc, "kept under %s, the bytes are written under %s" % (show(d, 4), show(want, 4)))


def lin_known(v, ts):
    """v is built of the given lengths and constants alone"""
    v = uncast(v)
    if is_const(v) or v in ts:
        return True
    if v.op == "lin":
        return all(x in ts for x in lin_parts(v)[1])
    return False


def section(cx, rep, A, W, lab, asg):
    """the feature section: every feature once, its own bytes, its attribute entries pointed at them"""
    R = "L02.features"
    em = emission(W, asg)
    if em is None:
        rep.open(R, lab, W.fn.loc(), "the loop that fills the feature section was not recognised")
        return
    li, b, src, app = em
    st = W.settle
    src = [st(x) for x in src]
    if len(src) == 1 and root(strip_mut(src[0])).op == "param":
        s0 = strip_mut(src[0])
        if s0.op == "field" and A.node.args[0].op == "field" and s0.a[1] == A.node.args[0].a[1]:
            rep.ok(R, lab + ": every feature", li_loc(W, li))
        elif s0.op == "slice" or s0.op == "call":
            rep.open(R, lab + ": every feature", li_loc(W, li), "iterates over " + show(src[0], 4))
        elif s0.op == "field" and s0.a[1] == A.vec.a[1]:
            # by record: then the positions in the index must agree in the same order
            rep.ok(R, lab + ": every feature", li_loc(W, li))
        else:
            rep.open(R, lab + ": every feature", li_loc(W, li), "iterates over " + show(src[0], 4))
    else:
        rep.open(R, lab + ": every feature", li_loc(W, li), "iterates over %s" % [show(x, 4) for x in src])
    ex = [g for d, g in early_exits(W.fl, li.key) if restrict(g, asg) is not FALSE]
    if ex:
        rep.bad(R, lab + ": to the last feature", li_loc(W, li), "the loop over the features can end early under %s" % show(ex[0], 4))
    else:
        rep.ok(R, lab + ": to the last feature", li_loc(W, li))
    if app is None:
        rep.open(R, lab + ": bytes", li_loc(W, li), show(restrict(W.settle(li.next), asg), 5))
        return
    if any(x is None for x in app):
        g = mapleaf(restrict(always(W.settle(li.next)), asg), lambda l: TRUE if l is b else FALSE)
        rep.bad(R, lab + ": bytes", li_loc(W, li), "a feature is left out of the feature section under %s" % show(g, 4))
    ids = set()
    for x in app:
        if x is None:
            continue
        rd, n = x
        pos, ln, n = st(uncast(rd.a[1])), st(uncast(rd.a[2])), st(n)
        for what, t, role in (("place", pos, "start"), ("length", ln, "size"), ("room", n, "size")):
            r = record_of(t, A)
            if r is None:
                off = shifted(t, A)
                if off is not None:
                    rep.bad(R, "%s: %s" % (lab, what), li_loc(W, li), "the %s of the bytes copied is %s, which differs from that of the feature" % (what, off))
                elif what == "place" and lab == "with spatial index" and t.op == "lv" and isinstance(t.a[1], tuple) and t.a[1][0] == "pos":
                    rep.bad(R, "%s: %s" % (lab, what), li_loc(W, li), "the bytes copied are the next ones of the temporary file, which is in another order")
                else:
                    rep.open(R, "%s: %s" % (lab, what), li_loc(W, li), show(t, 5))
                continue
            ids.add(plain(r[1]))
            have = A.roles.get(r[2]) if r[0].op == "field" and r[0].a[1] == A.vec.a[1] else "?"
            if have == role:
                rep.ok(R, "%s: %s" % (lab, what), li_loc(W, li))
            elif have == "?" or have is None:
                rep.open(R, "%s: %s" % (lab, what), li_loc(W, li), show(t, 5))
            else:
                rep.bad(R, "%s: %s" % (lab, what), li_loc(W, li), "the %s of the bytes copied is the %s of the feature" % (what, have))
    if len(ids) > 1:
        rep.bad(R, lab + ": one feature", li_loc(W, li), "place and length come from different features: %s" % [show(x, 4) for x in ids])
    elif len(ids) == 1:
        i = ids.pop()
        named(rep, R, lab + ": the feature of the box", i, A, li_loc(W, li))
        entries(rep, A, W, lab, asg, li, b, i)


def named(rep, R, key, i, A, loc):
    """the record used for a box is the one whose number the box carries"""
    i = uncast(i)
    if i.op == "field" and i.a[0].op == "elem" and i.a[1] == "offset":
        rep.ok(R, key, loc)
    elif i.op in ("idx", "lin") or i.op == "lv":
        rep.bad(R, key, loc, "the record is picked by %s, not by the number the box carries" % show(i, 4))
    else:
        rep.open(R, key, loc, show(i, 4))


def strip_mut(t):
    while True:
        if t.op == "mut":
            t = t.a[-1]
        elif t.op in ("sorted", "rev"):
            t = t.a[0]
        else:
            return t


def li_loc(W, li):
    for e in W.fl.events:
        if li.key in e.loops:
            return e.loc
    return W.fn.loc()


def entries(rep, A, W, lab, asg, li, b, ident):
    """the place handed to the attribute indexes is where the feature's bytes are about to go, and reaches them"""
    R = "L02.entries"
    fl = W.fl
    base = None
    done = set()
    mapped = None
    for lv, l2 in fl.loops.items():
        c = lv.a[1]
        if l2.key != li.key or l2.next is None or not (isinstance(c, tuple) and c and c[0] == "cell") or not lv.a[2]:
            continue
        t = c[1]
        m = [x for x in walk(t) if x.op == "call" and last(x.a[0]) in ("get_mut", "entry", "index_mut")]
        if not m:
            continue
        fld = lv.a[2][0]
        nx = restrict(W.settle(l2.next), asg)
        same = restrict(W.settle(l2.var), asg)
        vals = [x for x in leaves(nx) if x is not UNDEF and x is not same]
        mapped = restrict(W.settle(m[0].a[1][0]), asg)
        key = uncast(restrict(W.settle(m[0].a[1][1]), asg))
        tested = [at for at in atoms(nx)]
        if fld not in ("offset",) and not any(v.op == "len" for v in vals):
            continue
        k = "%s: entries" % lab
        if k in done:
            continue
        done.add(k)
        r = record_of(key, A)
        if r and r[0].op == "field" and r[0].a[1] == A.vec.a[1] and A.roles.get(r[2]) == "id" and plain(r[1]) is ident or plain(key) is ident:
            rep.ok(R, k + " of the same feature", li_loc(W, li))
        elif r and A.roles.get(r[2]) not in (None, "id"):
            rep.bad(R, k + " of the same feature", li_loc(W, li), "entries are looked up by the %s of the feature, they are filed by its number" % A.roles.get(r[2]))
        elif key.op in ("idx", "lv", "lin", "len"):
            rep.bad(R, k + " of the same feature", li_loc(W, li), "entries are looked up by %s" % show(key, 4))
        else:
            rep.open(R, k + " of the same feature", li_loc(W, li), show(key, 4))
        if len(vals) != 1:
            off = [v for v in vals if record_of(uncast(v), A) and A.roles.get(record_of(uncast(v), A)[2]) in ("start", "id", "size")]
            if off:
                rep.bad(R, k + " place", li_loc(W, li), "some entries are given %s, the feature's bytes start at %s" % (show(off[0], 4), show(mk("len", b), 3)))
            else:
                rep.open(R, k + " place", li_loc(W, li), [show(v, 4) for v in vals])
            continue
        v = plain(uncast(vals[0]))
        want = plain(mk("len", b))
        if v is want:
            rep.ok(R, k + " place", li_loc(W, li))
        elif record_of(uncast(vals[0]), A) or is_const(v) or v.op in ("len", "lin", "idx"):
            rep.bad(R, k + " place", li_loc(W, li), "the entries are given %s, the feature's bytes start at %s" % (show(vals[0], 4), show(want, 3)))
        else:
            rep.open(R, k + " place", li_loc(W, li), show(vals[0], 4))
        odd = [at for at in tested if not (at.op == "discr" and any(x is m[0] for x in walk(at))) and at.op != "fails" and not is_more(at)
               and not any(x.op == "call" and last(x.a[0]) in ("get_mut", "entry") for x in walk(at))]
        if odd:
            rep.bad(R, k + " always", li_loc(W, li), "entries keep an earlier place depending on %s" % show(odd[0], 4))
        else:
            rep.ok(R, k + " always", li_loc(W, li))
        # the map the indexes are built from is the one after this loop
        for e in W.attrs:
            got = [a for a in e.args if a.op == "field" and mapped is not None and mapped.op == "field" and a.a[1] == mapped.a[1]]
            if not got:
                rep.open(R, k + " reach the index", e.loc, [show(a, 3) for a in e.args])
            elif any(x.op == "lv" and x.a[0] == li.key for x in walk(restrict(W.settle(got[0]), asg))):
                rep.ok(R, k + " reach the index", e.loc)
            else:
                rep.bad(R, k + " reach the index", e.loc, "the attribute indexes are built from the entries before they are given their final places")
    if not done:
        rep.open(R, "%s: entries" % lab, li_loc(W, li), "no place handed to the attribute entries found")


def tree_offsets(rep, A, W):
    """the spatial index: built over the features in the order they are written, each with the sum of the sizes before it"""
    R = "L02.tree"
    lab = "with spatial index"
    asg = W.configs[lab]
    st = W.settle
    t = restrict(st(W.tree.args[0]), asg)
    loc = W.tree.loc
    if t.op == "seq":
        src, lk, keep, val = t.a[0], t.a[1], t.a[2], t.a[3]
    else:
        li = pushlv(t, W.fl)
        if li is None:
            rep.open(R, "order", loc, show(t, 4))
            return
        vs = [x.a[1] for x in leaves(restrict(st(li.next), asg)) if x.op == "push"]
        ss = itsource(li.key, W.fl)
        if len(vs) != 1 or len(ss) != 1:
            rep.open(R, "order", loc, show(t, 4))
            return
        src, lk, val = restrict(st(ss[0]), asg), li.key, st(vs[0])
        keep = mapleaf(calm(restrict(W.settle(li.next), asg)), lambda l: TRUE if l.op == "push" else FALSE)
    keep = calm(keep) if isinstance(keep, T) else keep
    if keep is TRUE or keep is True:
        rep.ok(R, "every feature", loc)
    else:
        rep.bad(R, "every feature", loc, "features are left out of the spatial index under %s" % show(NOT(keep), 4))
    em = emission(W, asg)
    if em is None:
        rep.open(R, "order", loc, "the feature section was not recognised")
        return
    li, b, es, app = em
    es = [st(x) for x in es]
    if len(es) == 1 and plain(src) is plain(es[0]):
        rep.ok(R, "order", loc)
    elif len(es) == 1 and strip_mut(src) is strip_mut(es[0]):
        rep.bad(R, "order", loc, "the index is built over %s, the features are written in the order of %s" % (show(src, 4), show(es[0], 4)))
    elif len(es) == 1 and root(strip_mut(es[0])).op == "param" and root(strip_mut(src)).op == "param" and strip_mut(es[0]).op == "field":
        rep.bad(R, "order", loc, "the index is built over %s, the features are written in the order of %s" % (show(src, 4), show(es[0], 4)))
    else:
        rep.open(R, "order", loc, "%s / %s" % (show(src, 4), [show(x, 4) for x in es]))
    v = uncast(field(val, "offset"))
    if v.op != "lv" or v not in W.fl.loops:
        if v.op == "field" and v.a[0].op == "elem":
            rep.bad(R, "place", loc, "the spatial index keeps %s, which is not the place of the feature in the file" % show(v, 4))
        elif record_of(v, A):
            rep.bad(R, "place", loc, "the spatial index is given the %s of the feature in the temporary file" % A.roles.get(record_of(v, A)[2]))
        else:
            rep.open(R, "place", loc, show(v, 4))
        return
    l3 = W.fl.loops[v]
    if is_const(l3.init) and cval(l3.init) == 0:
        rep.ok(R, "first place", loc)
    elif is_const(l3.init):
        rep.bad(R, "first place", loc, "the first feature is given place %s" % show(l3.init, 2))
    else:
        rep.open(R, "first place", loc, show(l3.init, 4))
    bad = unk = None
    for l in leaves(restrict(calm(st(l3.next)), asg)):
        if l is UNDEF:
            continue
        d = uncast(sub(l, v)) if l is not v else const(0)
        want = [plain(st(n)) for x in (app or []) if x for n in (x[1],)]
        if plain(d) in want:
            continue
        r = record_of(d, A)
        if l is v or is_const(d) or r or shifted(d, A) is not None:
            bad = d
        else:
            unk = d
    if bad is not None:
        rep.bad(R, "next place", loc, "the place of the next feature is %s further, the feature written is longer or shorter" % show(bad, 4))
    elif unk is not None:
        rep.open(R, "next place", loc, show(unk, 5))
    else:
        rep.ok(R, "next place", loc)
    for f in ("min_x", "min_y", "max_x", "max_y"):
        x = field(val, f)
        if x.op == "field" and x.a[0].op == "elem" and x.a[1] == f:
            rep.ok(R, "box " + f, loc)
        elif x.op == "field" and x.a[0].op == "elem" or is_const(x):
            rep.bad(R, "box " + f, loc, "the box in the index has %s for %s" % (show(x, 3), f))
        else:
            rep.open(R, "box " + f, loc, show(x, 4))


def permutes(cx, rep):
    """the sort before the index is built moves boxes, it does not edit them"""
    R = "L02.sort"
    for f in cx.w.user_fns(("fcb_core",)):
        if f.name != "hilbert_sort" or "{closure" in f.path:
            continue
        fl, ret = cx.flow(f)
        p = fl_param(f, 0)
        muts = [e for e in fl.events if e.kind in ("mutate", "store") and e.args and root(e.args[0]) is p]
        bad = [e for e in muts if e.kind == "store" or not (last(e.name).startswith("sort") or last(e.name) in ("swap", "reverse"))]
        edit = [e for e in bad if e.kind == "store" or last(e.name) in ("push", "pop", "truncate", "clear", "remove", "dedup", "dedup_by", "dedup_by_key", "retain", "swap_remove", "drain")]
        if edit:
            rep.bad(R, "reorders only", edit[0].loc, "%s changes the boxes while sorting" % edit[0].name)
        elif bad:
            rep.open(R, "reorders only", bad[0].loc, bad[0].name)
        elif muts:
            rep.ok(R, "reorders only", muts[0].loc)
        else:
            rep.open(R, "reorders only", f.loc(), "no reordering recognised")


def fl_param(f, i):
    from . import params
    return params(f)[i]


# ------------------------------------------------------------------ what the header says
def narrowed(t):
    """a cast that can lose value on the way, else None"""
    W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63}
    while t.op == "cast":
        a, b = W.get(str(t.a[0])), W.get(str(t.a[1]))
        if a and b and b < a:
            return t
        t = t.a[2]
    return None


def path_on(t, base, start):
    """the chain of fields from base that t is, applied to another start"""
    names = []
    while t.op == "field":
        names.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t is not base:
        return None
    for n, o in reversed(names):
        start = field(start, n, o)
    return start


@rule("L03")
def described(cx):
    R = "L03.header"
    rep = cx.rep
    A, W = Added(cx), Written(cx)
    hw = sole([f for f in cx.w.user_fns(("fcb_core",)) if f.name == "finish_to_header" and "{closure" not in f.path])
    if not (A.ok and W.ok) or hw is None:
        rep.open(R, "writer", "", "the writer was not recognised")
    else:
        hf, hret = cx.flow(hw, opaque=("to_columns",))
        args = []
        for e in hf.events:
            if e.kind == "agg" and e.args and e.args[0].op == "agg" and last(e.args[0].a[0]) == "HeaderArgs":
                args.append((e, agg_fields(e.args[0])))
        if not args:
            rep.open(R, "header", hw.loc(), "no header built")
        else:
            header_fields(rep, A, W, hw, hf, args)
    infos(cx, rep)
    rep.floor(R, 4)
    rep.floor("L03.info", 8)


def header_fields(rep, A, W, hw, hf, args):
    R = "L03.header"
    me = fl_param(hw, 0)
    start = W.settle(W.header[0].args[0])
    lens = (mk("len", A.vec), mk("len", A.node.args[0]))
    roots = {x.a[1] for x in (A.vec, A.node.args[0])}
    own = fl_param(W.fn, 0)

    def is_count(t):
        t = uncast(t)
        return t.op == "len" and strip_mut(t.a[0]).op == "field" and strip_mut(t.a[0]).a[1] in roots and root(strip_mut(t.a[0])) is own
    seen = set()
    for e, fs in args:
        # features
        t = path_on(uncast(fs.get("features_count", UNDEF)), me, start)
        k = "feature count"
        if t is None:
            x = uncast(fs.get("features_count", UNDEF))
            if is_const(x) or x.op == "len":
                rep.bad(R, k, e.loc, "the header counts %s" % show(x, 4))
            else:
                rep.open(R, k, e.loc, show(x, 4))
        else:
            vals = [l for asg in W.configs.values() for l in leaves(restrict(t, asg)) if l is not UNDEF]
            vals = [uncast(v) for v in vals]
            off = [v for v in vals if not is_count(v)]
            if not off:
                rep.ok(R, k, e.loc)
            elif any(is_const(v) or root(v).op == "param" or v.op == "lin" for v in off):
                v = [v for v in off if is_const(v) or root(v).op == "param" or v.op == "lin"][0]
                rep.bad(R, k, e.loc, "the header counts %s features, the file holds one per record added" % show(v, 4))
            else:
                rep.open(R, k, e.loc, show(off[0], 4))
        # spatial index
        x = uncast(fs.get("index_node_size", UNDEF))
        t = path_on(x, me, start)
        k = "node size"
        if t is None:
            if is_const(x):
                rep.bad(R, k, e.loc, "the header always says %s" % show(x, 2))
            else:
                rep.open(R, k, e.loc, show(x, 4))
        else:
            for lab, asg in W.configs.items():
                said = uncast(restrict(t, asg))
                kinds = [q[0] for q in pieces(W, asg)]
                if lab == "with spatial index":
                    used = uncast(restrict(W.settle(W.tree.args[2]), asg)) if len(W.tree.args) > 2 else UNDEF
                    if "spatial index" not in kinds:
                        if None in kinds:
                            rep.open(R, k + ", " + lab, W.tree.loc, "pieces of the file not recognised")
                        else:
                            rep.bad(R, k + ", " + lab, W.tree.loc, "the index built is not written to the file")
                    elif said is used:
                        rep.ok(R, k + ", " + lab, W.tree.loc)
                    elif is_const(said) or is_const(used) or root(said).op == "param" and root(used).op == "param":
                        rep.bad(R, k + ", " + lab, W.tree.loc, "built with node size %s, the header says %s" % (show(used, 4), show(said, 4)))
                    else:
                        rep.open(R, k + ", " + lab, W.tree.loc, "%s / %s" % (show(used, 4), show(said, 4)))
                else:
                    if asg.get(said) == 0 or is_const(said) and cval(said) == 0:
                        rep.ok(R, k + ", " + lab, e.loc)
                    elif any(v == 0 and is_count(a) for a, v in asg.items()):
                        rep.ok(R, k + ", " + lab, e.loc)      # no features: readers expect no index whatever the node size
                    elif root(said).op == "param" or is_const(said):
                        why = mk("unit")
                        rep.bad(R, k + ", " + lab, W.tree.loc, "no spatial index is written when %s, but the header says node size %s and features exist"
                                % (", ".join("%s is %s" % (show(a, 3), v if not isinstance(v, tuple) else "other") for a, v in asg.items()), show(said, 3)))
                    else:
                        rep.open(R, k + ", " + lab, e.loc, show(said, 4))
        # attribute indexes
        listed(rep, W, hf, me, start, e, fs)


def listed(rep, W, hf, me, start, e, fs):
    R = "L03.header"
    t = fs.get("attribute_index", UNDEF)
    k = "attribute indexes"
    src = {x.a[0] for ev in hf.events if ev.kind == "call" and ev.name.endswith("AttributeIndex::new") for a in ev.args for x in walk(a) if x.op == "elem"}
    mks = [ev for ev in hf.events if ev.kind == "call" and ev.name.endswith("AttributeIndex::new")]
    want = ("index", "length", "branching_factor", "num_unique_items")
    for ev in mks:
        for n, a in zip(want, ev.args):
            x = uncast(a)
            if x.op == "field" and x.a[0].op == "elem":
                if x.a[1] == n:
                    rep.ok(R, k + " " + n, ev.loc)
                else:
                    rep.bad(R, k + " " + n, ev.loc, "the header gives the %s of an attribute index as its %s" % (x.a[1], n))
            elif is_const(x):
                rep.bad(R, k + " " + n, ev.loc, "the header always says %s" % show(x, 3))
            else:
                rep.open(R, k + " " + n, ev.loc, show(x, 4))
    if not mks:
        rep.open(R, k, e.loc, "no attribute index entries made")
        return
    if len(src) != 1:
        rep.open(R, k, e.loc, "entries made from %d lists" % len(src))
        return
    s = src.pop()
    s = s.a[0] if s.op == "payload" else s
    def bare(x):
        x = through(x)
        return bare(x.a[0]) if x.op == "payload" else x
    lst = bare(s)
    for pth, l in paths(t):
        if l is UNDEF or l.op == "agg" and l.a[2] == "Some":
            continue
        if not (l.op == "agg" and l.a[2] == "None"):
            rep.open(R, k + " left out", e.loc, show(l, 4))
            continue
        gone = [a for a, v in pth if v == 0 and (a.op == "discr" and bare(a.a[0]) is lst or a.op == "len" and bare(a.a[0]) is lst)]
        about = [a for a, v in pth if any(y is lst for y in walk(a))]
        if gone:
            rep.ok(R, k + " left out only when there are none", e.loc)
        elif about and all(y.op not in ("call", "fails") for a in about for y in walk(a)):
            rep.bad(R, k + " left out only when there are none", e.loc, "the header leaves the attribute indexes out when %s" % " and ".join("%s is %s" % (show(a, 4), v if not isinstance(v, tuple) else "other") for a, v in pth))
        else:
            rep.open(R, k + " left out", e.loc, [show(a, 4) for a, v in pth])
    s = path_on(through(s), me, start)
    if s is None:
        rep.open(R, k, e.loc, "the list of the entries was not recognised")
        return
    vs = [l for l in leaves(s) if l is not UNDEF]
    ls = []
    for v in vs:
        v = agg_fields(v).get("0", v) if v.op == "agg" else v
        ls += [x for x in leaves(v) if x is not UNDEF and x.op != "empty"]
    buf = [t for p in W.out for t in [W.settle(p.args[1])] if kind_of(t, W) == "attribute indexes"]
    bl = [x for b in buf for x in leaves(b) if x is not UNDEF and x.op != "empty"]
    if len(ls) != 1 or len(bl) != 1 or pushlv(ls[0], W.fl) is None or bl[0] not in W.fl.loops:
        if vs and not ls and all(v.op in ("agg", "empty") for v in vs) and bl:
            rep.bad(R, k, e.loc, "attribute indexes are written, the header lists none")
        else:
            rep.open(R, k, e.loc, "%s / %s" % ([show(x, 3) for x in ls], [show(x, 3) for x in bl]))
        return
    a, b = W.fl.loops[ls[0]], W.fl.loops[bl[0]]
    if a.key != b.key:
        rep.open(R, k, e.loc, "the entries and the bytes are collected by different loops")
        return
    la = mapleaf(a.next, lambda l: l.a[1] if l.op == "push" else FALSE)
    lb = mapleaf(b.next, lambda l: l.a[1] if l.op in ("extend", "push") else FALSE)
    ga = mapleaf(la, lambda l: FALSE if l is FALSE else TRUE)
    gb = mapleaf(lb, lambda l: FALSE if l is FALSE else TRUE)
    if implies(ga, gb) and implies(gb, ga):
        rep.ok(R, k + " listed exactly when written", e.loc)
    else:
        d = AND(ga, NOT(gb))
        if d is not FALSE:
            rep.bad(R, k + " listed exactly when written", e.loc, "the header lists an index that is not written when %s" % show(d, 4))
        else:
            rep.bad(R, k + " listed exactly when written", e.loc, "an index is written that the header does not list when %s" % show(AND(gb, NOT(ga)), 4))
    xa = {x for x in leaves(la) if x is not FALSE and x is not UNDEF}
    xb = {x for x in leaves(lb) if x is not FALSE and x is not UNDEF}
    if len(xa) == 1 and len(xb) == 1:
        p, q = xa.pop(), through(xb.pop())
        if p.op == "field" and q.op == "field" and p.a[0] is q.a[0]:
            rep.ok(R, k + " of the bytes", e.loc)
        elif p.op == "field" and q.op == "field" and plain(p.a[0]) is not plain(q.a[0]):
            rep.bad(R, k + " of the bytes", e.loc, "the entry listed and the bytes written belong to different indexes: %s / %s" % (show(p, 4), show(q, 4)))
        else:
            rep.open(R, k + " of the bytes", e.loc, "%s / %s" % (show(p, 4), show(q, 4)))
    else:
        rep.open(R, k + " of the bytes", e.loc, "%d / %d values collected" % (len(xa), len(xb)))
    ex = early_exits(W.fl, a.key)
    if ex:
        rep.bad(R, k + " all built", e.loc, "the loop over the indexes can end early under %s" % show(ex[0][1], 4))
    else:
        rep.ok(R, k + " all built", e.loc)


def infos(cx, rep):
    """what is recorded about one attribute index is what was built and serialised"""
    R = "L03.info"
    from .keys import build_root
    br = build_root(cx)
    if br is None:
        rep.open(R, "builder", "", "the function that builds an attribute index was not recognised")
        return
    f, fl, ret, bs = br
    found = {}
    for x in walk(ret):
        if x.op == "agg" and x.a[0] == "tuple" or x.op == "tup":
            fs = agg_fields(x) if x.op == "agg" else {str(i): v for i, v in enumerate(x.a)}
            inf = [v for v in fs.values() if v.op == "agg" and last(v.a[0]) == "AttributeIndexInfo"]
            if len(inf) == 1 and len(fs) == 2:
                b = [v for v in fs.values() if v is not inf[0]][0]
                found[x] = (b, agg_fields(inf[0]))
    if not found:
        rep.open(R, "result", f.loc(), "no index handed back with its description")
        return
    for i, (x, (b, fs)) in enumerate(sorted(found.items(), key=lambda p: str(p[0]))):
        ser = [y for y in walk(b) if y.op == "call" and last(y.a[0]) in ("serialize", "stream_write")]
        if len(ser) != 1:
            rep.open(R, "bytes", f.loc(), show(b, 4))
            continue
        idx = ser[0].a[1][0]
        ty = ser[0].a[0]
        for n, v in sorted(fs.items()):
            k = n
            c = narrowed(v)
            u = uncast(v)
            if u.op == "payload" and u.a[0].op in ("tryinto", "call") and (u.a[0].op == "tryinto" or last(u.a[0].a[0]) in ("try_into", "try_from")):
                u = u.a[0].a[1][0] if u.a[0].op == "call" else u.a[0].a[0]       # refused when it does not fit
                c = c or narrowed(u)
                u = uncast(u)
            if n == "index":
                if u.op == "field" and u.a[1] == "0" and any(y.op == "call" and last(y.a[0]) in ("get", "index") for y in walk(u)) or u.op == "param":
                    rep.ok(R, k, f.loc())
                elif is_const(u):
                    rep.bad(R, k, f.loc(), "the attribute is always number %s" % show(u, 2))
                else:
                    rep.open(R, k, f.loc(), show(u, 4))
                continue
            if n == "length":
                good = u is mk("len", b) or u.op == "payload" and u.a[0] is ser[0]
                wrong = u.op in ("len", "lin") or is_const(u) or within_idx(u, idx)
            elif n == "branching_factor":
                good = u.op == "field" and u.a[1] == "branching_factor" and within_idx(u, idx)
                wrong = u.op == "param" and "branching" not in str(u.a[0]) or is_const(u) or u.op in ("len", "lin") or within_idx(u, idx)
                if not good and u.op == "param" and "branching" in str(u.a[0]):
                    # what was asked for: only the same when the builder keeps it as given
                    rep.bad(R, k, f.loc(), "the header gives the branching factor asked for, the index clamps it to its own")
                    continue
            elif n == "num_unique_items":
                good = u.op == "field" and u.a[1].startswith("num_leaf") and within_idx(u, idx)
                wrong = u.op in ("len", "lin") or is_const(u) or within_idx(u, idx)
            else:
                continue
            if good and c is not None:
                rep.bad(R, k, f.loc(), "%s is cut from %s to %s without a check: a larger index is described wrongly" % (n, c.a[0], c.a[1]))
            elif good:
                rep.ok(R, k, f.loc())
            elif wrong:
                rep.bad(R, k, f.loc(), "the %s of an index is given as %s" % (n, show(u, 4)))
            else:
                rep.open(R, k, f.loc(), show(v, 5))


def within_idx(u, idx):
    return u.op == "field" and any(y is idx for y in walk(u))
