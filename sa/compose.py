"""Composition of the reader's value terms with the writer's: every accessor call on a table the writer
built is replaced by what the writer stored in that slot, and the result is simplified. What remains is
what comes back for an item, as a term over the writer's own inputs. Nothing is run."""
import re
from term import *
from term import kids, OPT, RES
from util import recase, rebuild, norm, itsource, early_exits
from rules.fbgen import gen_fns, selfname

IDENT = {"boxed::box_assume_init_into_vec_unsafe", "FlatBufferBuilder::create_vector", "FlatBufferBuilder::create_string"}


class Schema:
    """what the generated accessors return"""
    def __init__(self, cx):
        self.optional = {}
        self.newpar = {}
        self.dom = {}
        for f in gen_fns(cx):
            sn = selfname(f)
            if sn is None:
                continue
            if f.name == "new" and f.argc:
                self.newpar[sn] = [f.names.get(i + 1) for i in range(f.argc)]
            elif f.argc == 1:
                self.optional[sn, f.name] = f.ty(0).s.startswith("std::option::Option<")
        for p, a in cx.w.adts.items():
            if a["enum"]:
                self.dom[p] = {v["n"]: i if v["d"] is None else int(v["d"]) for i, v in enumerate(a["v"])}
        self.adts = cx.w.adts


class Composer:
    def __init__(self, schema, root=None, assume=None, ident=None, fl=None):
        self.fl = fl
        self.ident = ident or {}        # function -> what its call amounts to
        self.s = schema
        self.root = root or {}          # param name -> term
        self.assume = assume or (lambda t: None)
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = t
            r = self.go(t)
            self.memo[t] = r
        return r

    def arg(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def go(self, t):
        o = t.op
        if o in ("const", "undef", "unit", "empty"):
            return t
        if o == "param":
            return self.root.get(t.a[0], t)
        if o == "sw":
            a = t.a[0]
            if a.op == "more":
                at = TRUE
            elif a.op == "fails":
                at = FALSE
            else:
                at = self(a)
            v = self.assume(at)
            if v is not None:
                at = const(v)
            if at.op == "const":
                for k, c in t.a[1]:
                    if k == cval(at) and type(k) is type(cval(at)):
                        return self(c)
                return self(t.a[2]) if t.a[2] is not None else UNDEF
            arms = [(v, self(c)) for v, c in t.a[1]]
            d = None if t.a[2] is None else self(t.a[2])
            return recase(at, arms, d)
        if o == "seq":
            return self.seq(t)
        if o == "lv":
            s = self.loop(t)
            return t if s is None else self(s)
        a = tuple(self.arg(x) for x in t.a)
        return self.simp(o, a, t)

    # -------------------------------------------------------------- collections
    def seq(self, t):
        src, key, cond, body = t.a[0], t.a[1], self(t.a[2]), self(t.a[3])
        src = self(src)

        def f(s):
            if s.op == "seq":
                c = AND(cond, rekey(s.a[2], s.a[1], key)) if s.a[2] is not TRUE else cond
                return mkseq(s.a[0], key, c, body)
            if s.op == "agg" and s.a[2] == "None" or s.op == "empty":
                return mk("empty", "Vec")
            return mkseq(s, key, cond, body)
        return mapleaf(src, f)

    def elem(self, c, key):
        def f(s):
            if s.op == "seq" and s.a[2] is TRUE:
                return rekey(s.a[3], s.a[1], key)
            if s.op == "seq":
                return rekey(s.a[3], s.a[1], key)
            return mk("elem", s, key)
        return mapleaf(c, f)

    def loop(self, t):
        """a collection filled by one pass over another, as a comprehension"""
        li = self.fl.loops.get(t) if self.fl is not None else None
        if li is None or li.next is None or li.init.op != "empty":
            return None
        src = itsource(li.key, self.fl)
        if len(src) != 1 or early_exits(self.fl, li.key):
            return None
        ls = [l for l in leaves(li.next) if l is not UNDEF]
        add = {l for l in ls if l.op in ("push", "insert")}
        if not add or any(l is not t and (l not in add or l.a[0] is not t) for l in ls):
            return None
        keys = {x.a[1] for x in walk(li.next) if x.op == "elem" and x.a[0] is src[0]}
        if len(keys) != 1:
            return None
        cond = mapleaf(li.next, lambda l: TRUE if l in add else FALSE)
        body = mapleaf(li.next, lambda l: UNDEF if l not in add else l.a[1] if l.op == "push" else tup(l.a[1], l.a[2]))
        if any(x is t for x in walk(body)):
            return None
        return mk("seq", src[0], keys.pop(), cond, body)

    # -------------------------------------------------------------- everything else
    def simp(self, o, a, t):
        if o == "elem":
            return self.elem(a[0], a[1])
        if o == "field":
            r = field(a[0], a[1], a[2])
            return r
        if o == "payload":
            return payload(a[0], a[1], a[2])
        if o == "discr":
            return self.discr(a[0], t)
        if o == "len":
            return mapleaf(a[0], lambda s: mk("len", s.a[0]) if s.op == "seq" and s.a[2] is TRUE else const(len(s.a[4:])) if s.op == "agg" and s.a[0] == "array" else mk("len", s))
        if o == "index":
            def ix(s):
                if s.op == "agg" and s.a[0] == "array" and is_const(a[1]):
                    return agg_fields(s).get(str(cval(a[1])), UNDEF)
                if s.op == "array" and is_const(a[1]) and cval(a[1]) < len(s.a):
                    return s.a[cval(a[1])]
                return mk("index", s, a[1])
            return mapleaf(a[0], ix)
        if o == "cast":
            return mapleaf(a[2], lambda x: x if x.op == "const" else mk("cast", a[0], a[1], x))
        if o == "call":
            return self.call(a, t)
        if o == "agg":
            return mk("agg", *a)
        if o == "with":
            return withf(a[0], a[1], a[2])
        if o == "sorted":
            return a[0]
        return norm(o, a)

    def discr(self, x, t):
        def f(s):
            if s.op == "agg":
                d = self.s.dom.get(s.a[0])
                if d and s.a[2] in d:
                    return const(d[s.a[2]])
                return const(s.a[1])
            if s.op == "const":
                return s
            d = mk("discr", s)
            if d not in DOM and t in DOM:
                DOM[d] = DOM[t]
            return d
        return mapleaf(x, f)

    def call(self, a, t):
        n, args = a[0], a[1]
        if n in IDENT and args:
            return args[-1]
        h = self.ident.get(n.rsplit("::", 1)[-1])
        if h is not None:
            r = h(self, args)
            if r is not None:
                return r
        if n.startswith("fb.") and len(args) == 1:
            own, m = n[3:].split("::", 1)
            return mapleaf(args[0], lambda s: self.acc(own, m, s, a))
        return mk("call", *a)

    def acc(self, own, m, s, a):
        if s.op == "call" and s.a[0] == "fb.%s::create" % own:
            args = s.a[1][-1]
            v = field(args, m, "")
            if v is UNDEF or v.op == "field":
                return v if v.op == "field" else mk("call", a[0], (s,), None)
            opt = self.s.optional.get((own, m))
            if opt is False:
                return mapleaf(v, lambda x: payload(x, "Some", "0") if x.op == "agg" and x.a[2] == "Some" else x)
            return v
        if s.op == "call" and s.a[0] == "fb.%s::new" % own:
            ps = self.s.newpar.get(own, [])
            if m in ps and ps.index(m) < len(s.a[1]):
                return s.a[1][ps.index(m)]
        return mk("call", a[0], (s,), None)


def mkseq(src, key, cond, body):
    if cond is TRUE and body.op == "elem" and body.a[0] is src and body.a[1] is key:
        return src
    return mk("seq", src, key, cond, body)


def rekey(t, old, new):
    if old is new:
        return t
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x is old:
            return new
        r = memo.get(x)
        if r is None:
            memo[x] = x
            if x.op == "sw":
                r = recase(go(x.a[0]), [(v, go(c)) for v, c in x.a[1]], None if x.a[2] is None else go(x.a[2]))
                if x.a[0] in DOM and go(x.a[0]) not in DOM:
                    DOM[go(x.a[0])] = DOM[x.a[0]]
            elif not x.a:
                r = x
            else:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else norm(x.op, a)
            memo[x] = r
        return r
    return go(t)
