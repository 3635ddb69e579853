"""Program model over the extracted MIR facts: functions, types, CFGs, constants, call graph."""
import collections
import re


class AnchorError(Exception):
    """an anchor or floor the rule depends on is missing: the check fails closed"""


def short(p):
    """last path segment of a def path, generics removed"""
    if p.endswith("}"):
        return p.rsplit("::", 1)[-1]
    d = 0
    out = []
    i = len(p) - 1
    # walk back to the last '::' at angle depth 0
    while i >= 0:
        c = p[i]
        if c == ">" and not (i > 0 and p[i - 1] == "-"):
            d += 1
        elif c == "<":
            d -= 1
        elif d == 0 and c == ":" and i > 0 and p[i - 1] == ":":
            seg = p[i + 1:]
            if seg.startswith("<"):
                p = p[:i - 1]
                i = len(p) - 1
                d = 0
                continue
            return seg
        i -= 1
    return p


class Fn:
    def __init__(self, crate, d, w):
        self.crate = crate
        self.d = d
        self.w = w
        self.path = d["path"]
        self.kind = d["kind"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.names = {int(k): v for k, v in d["names"].items()}
        self.bb = d["bb"]
        self.name = d.get("name") or short(self.path)
        self.file = d["sp"][0]
        self.line = d["sp"][1]
        self.parent = d.get("parent")
        self._succ = None
        self._rpo = None
        self._dom = None

    def ty(self, local):
        return self.w.type(self.crate, self.locals[local])

    @property
    def impl_self(self):
        i = self.d.get("impl_self")
        return None if i is None else self.w.type(self.crate, i)

    @property
    def impl_trait(self):
        return self.d.get("impl_trait")

    def is_closure(self):
        return self.kind == "Closure"

    def succ(self, b):
        if self._succ is None:
            self._succ = [succs(x["t"]) for x in self.bb]
        return self._succ[b]

    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            back = set()
            onst = set()
            st = [(0, iter(self.succ(0)))]
            seen.add(0)
            onst.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if self.bb[s]["c"]:
                        continue
                    if s not in seen:
                        seen.add(s)
                        onst.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                    elif s in onst:
                        back.add((b, s))
                else:
                    order.append(b)
                    onst.discard(b)
                    st.pop()
            self._rpo = order[::-1]
            self._back = back
        return self._rpo

    def back_edges(self):
        self.rpo()
        return self._back

    def preds(self):
        p = collections.defaultdict(list)
        for b in self.rpo():
            for s in self.succ(b):
                if not self.bb[s]["c"]:
                    p[s].append(b)
        return p

    def loc(self, b=None, s=None):
        if b is None:
            return "%s:%s" % (self.file, self.line)
        x = self.bb[b]
        sp = x["t"]["sp"] if s is None else x["s"][s]["sp"]
        return "%s:%s" % (sp[0], sp[1])

    def calls(self):
        """(bb, fn-const dict, args, dest) of every direct call in non-cleanup, reachable blocks"""
        for b in self.rpo():
            t = self.bb[b]["t"]
            if t["k"] == "call":
                f = t["f"].get("const", {}).get("fn")
                yield b, f, t

    def __repr__(self):
        return "<Fn %s>" % self.path


def succs(t):
    k = t["k"]
    if k == "switch":
        out = []
        for _, b in t["arms"]:
            if b not in out:
                out.append(b)
        if t["o"] not in out:
            out.append(t["o"])
        return out
    if k in ("goto", "drop", "assert", "yield"):
        return [t["t"]]
    if k == "call":
        return [] if t["t"] is None else [t["t"]]
    return []


class Ty:
    __slots__ = ("w", "crate", "i", "d")

    def __init__(self, w, crate, i):
        self.w = w
        self.crate = crate
        self.i = i
        self.d = w.facts[crate]["types"][i]

    @property
    def s(self):
        return self.d["s"]

    @property
    def k(self):
        return self.d["k"]

    @property
    def path(self):
        return self.d.get("p")

    def inner(self):
        return self.w.type(self.crate, self.d["t"])

    def targ(self, n):
        a = self.d.get("a", [])
        if n < len(a) and isinstance(a[n], int):
            return self.w.type(self.crate, a[n])
        return None

    def targs(self):
        return [self.w.type(self.crate, x) if isinstance(x, int) else x for x in self.d.get("a", [])]

    def peel(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.inner()
        return t

    def is_mut_ref(self):
        return self.k == "ref" and self.d["m"]

    def adt(self):
        return self.w.adts.get(self.path) if self.k == "adt" else None

    def __repr__(self):
        return "<Ty %s>" % self.s


class World:
    def __init__(self, facts):
        self.facts = facts
        self._types = {}
        self.fns = {}
        self.adts = {}
        self.consts = {}
        self.impls = []
        for c, f in facts.items():
            for d in f["fns"]:
                fn = Fn(c, d, self)
                self.fns.setdefault(fn.path, fn)
            for k, v in f["adts"].items():
                self.adts.setdefault(k, v)
            for d in f["consts"]:
                self.consts[d["path"]] = d
            for d in f["impls"]:
                self.impls.append((c, d))
        self.closures = collections.defaultdict(list)
        for fn in self.fns.values():
            if fn.is_closure() and fn.parent:
                self.closures[fn.parent].append(fn)

    def type(self, crate, i):
        t = self._types.get((crate, i))
        if t is None:
            t = self._types[(crate, i)] = Ty(self, crate, i)
        return t

    # ---- anchors
    def find(self, suffix, crate="fcb_core", required=True, n=None):
        """functions whose path ends with ::suffix (generic arguments of the path ignored)"""
        out = [f for f in self.fns.values() if f.crate == crate and not f.is_closure() and
               (strip_generics(f.path) + "").endswith("::" + suffix)]
        if required and not out:
            raise AnchorError("no function '%s' in %s" % (suffix, crate))
        return out

    def one(self, suffix, crate="fcb_core"):
        out = self.find(suffix, crate)
        if len(out) != 1:
            raise AnchorError("anchor '%s' in %s is ambiguous or missing: %s" % (suffix, crate, [f.path for f in out]))
        return out[0]

    def impl_fns(self, trait_short, name, crate="fcb_core"):
        """{self type string: Fn} for the implementations of a trait's method"""
        out = {}
        for f in self.fns.values():
            if f.crate == crate and f.impl_trait and short(f.impl_trait) == trait_short and f.d.get("name") == name:
                out[f.impl_self.s] = f
        return out

    def methods(self, owner, name, crate="fcb_core"):
        """inherent and trait methods `name` of the type named `owner`"""
        out = [f for f in self.find("%s::%s" % (owner, name), crate, required=False)]
        for f in self.fns.values():
            if f.crate == crate and f.impl_trait and f.d.get("name") == name and not f.is_closure():
                t = f.impl_self.peel()
                if t.k == "adt" and t.path.rsplit("::", 1)[-1] == owner and f not in out:
                    out.append(f)
        return out

    def callee(self, f):
        """resolved local function of a fn-const, or None"""
        if not f:
            return None
        for k in ("r", "p"):
            if k in f and f[k] in self.fns and not (k == "r" and f.get("rk") == "virtual"):
                return self.fns[f[k]]
        return None

    def user_fns(self, crates=("fcb_core", "fcb")):
        """functions of the analysed crates, generated flatbuffers code excluded"""
        return [f for f in self.fns.values() if f.crate in crates and "src/fb/" not in f.file
                and "_generated" not in f.file]

    def callgraph(self):
        """path -> set of callee paths (resolved local callees, closures created, fn items mentioned)"""
        if hasattr(self, "_cg"):
            return self._cg
        g = collections.defaultdict(set)
        for fn in self.fns.values():
            for b in fn.rpo():
                blk = fn.bb[b]
                for c in iter_consts(blk):
                    f = c.get("fn")
                    if f:
                        cal = self.callee(f)
                        if cal:
                            g[fn.path].add(cal.path)
                        elif f.get("trait"):
                            # unresolved trait call: every local implementation of that method
                            nm = short(f["p"])
                            for im in self._trait_impls(f["trait"], nm):
                                g[fn.path].add(im.path)
                for s in blk["s"]:
                    r = s.get("r")
                    if r and r["k"] == "agg" and r.get("ak") in ("closure", "coroutine"):
                        g[fn.path].add(r["p"])
        self._cg = g
        return g

    def _trait_impls(self, trait, name):
        if not hasattr(self, "_timp"):
            self._timp = collections.defaultdict(list)
            for f in self.fns.values():
                if f.impl_trait:
                    self._timp[(f.impl_trait, f.d.get("name"))].append(f)
                if f.d.get("in_trait"):
                    self._timp[(f.d["in_trait"], f.d.get("name"))].append(f)
        out = self._timp.get((trait, name), [])
        if not out and trait.startswith("fcb_core::"):
            pass
        return out

    def reachable(self, roots, stop=()):
        g = self.callgraph()
        seen = set()
        st = [r.path if isinstance(r, Fn) else r for r in roots]
        parent = {}
        while st:
            p = st.pop()
            if p in seen or p in stop:
                continue
            seen.add(p)
            for q in sorted(g.get(p, ())):
                if q not in seen:
                    parent.setdefault(q, p)
                    st.append(q)
        self.last_parent = parent
        return seen


def iter_consts(o):
    if isinstance(o, dict):
        if "const" in o:
            yield o["const"]
            return
        for k, v in o.items():
            if k != "sp":
                yield from iter_consts(v)
    elif isinstance(o, list):
        for v in o:
            yield from iter_consts(v)


def strip_generics(p):
    """remove ::<..> segments and generic arguments, keep <A as B>::m intact in readable form"""
    if "::<" not in p:
        return p
    out = []
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            # does the bracket enclose a qualified path 'crate::<X as Y>::m' ?
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            seg = p[i + 3:j]
            if " as " in seg and out and "::" not in "".join(out):
                out.append("::<" + seg + ">")
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)
