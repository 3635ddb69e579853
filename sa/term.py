"""Hash-consed value terms and decision diagrams.

A value is a term; a value that depends on control flow is a multi-valued decision diagram
('sw', atom, arms, default) whose inner nodes are branch conditions (discriminants, booleans,
integers, strings, three-way comparisons) and whose leaves are terms. Guards are diagrams with
boolean leaves. Both are canonical for a fixed atom order, so equal conditions written with
different control flow become the same object."""


class T:
    __slots__ = ("op", "a", "id", "_m")

    def __init__(self, op, a, i):
        self.op = op
        self.a = a
        self.id = i
        self._m = None

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
DOM = {}       # atom -> closed domain (tuple of values)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = T(op, a, len(_tab))
    return t


def const(v):
    return mk("const", type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")
UNIT = mk("unit")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[1] if t.op == "const" else None


# ---------------------------------------------------------------- decision diagrams
def top(t):
    return t.a[0] if t.op == "sw" else None


def mksw(atom, arms, default=None):
    """arms: dict value -> child"""
    dom = DOM.get(atom)
    if dom is not None:
        arms = {v: arms.get(v, default if default is not None else UNDEF) for v in dom}
        default = None
    else:
        if default is None:
            default = UNDEF
        arms = {v: c for v, c in arms.items() if c is not default and c is not UNDEF}
    kids = set(arms.values())
    if default is not None:
        kids.add(default)
    kids.discard(UNDEF)
    if not kids:
        return UNDEF
    if len(kids) == 1:
        return kids.pop()
    return mk("sw", atom, tuple(sorted(arms.items(), key=lambda x: (type(x[0]).__name__, x[0]))), default)


def child(t, atom, v):
    """cofactor of t for atom == v (v may be None = 'any other value')"""
    if t.op != "sw" or t.a[0] is not atom:
        return t
    if v is not None:
        for k, c in t.a[1]:
            if k == v and type(k) is type(v):
                return c
    d = t.a[2]
    return UNDEF if d is None else d


def _keys(atom, *ts):
    dom = DOM.get(atom)
    if dom is not None:
        return list(dom), False
    ks = []
    for t in ts:
        if t.op == "sw" and t.a[0] is atom:
            for k, _ in t.a[1]:
                if not any(k == x and type(k) is type(x) for x in ks):
                    ks.append(k)
    return ks, True


_ite = {}


def ite(g, a, b):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if g is UNDEF:
        return UNDEF
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return g
    k = (g, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    ats = [x.a[0] for x in (g, a, b) if x.op == "sw"]
    if g.op != "sw":
        # an opaque boolean used as a condition
        r = ite(as_cond(g), a, b)
        _ite[k] = r
        return r
    at = min(ats, key=lambda x: x.id)
    ks, opn = _keys(at, g, a, b)
    arms = {v: ite(child(g, at, v), child(a, at, v), child(b, at, v)) for v in ks}
    d = ite(child(g, at, None), child(a, at, None), child(b, at, None)) if opn else None
    r = mksw(at, arms, d)
    _ite[k] = r
    return r


def as_cond(t):
    """boolean value -> diagram with boolean leaves"""
    if t.op == "const":
        return t
    if t.op == "sw":
        if all(c.op in ("const", "sw", "undef") for _, c in t.a[1]) and (t.a[2] is None or t.a[2].op in ("const", "sw", "undef")):
            m = t._m
            if m is None:
                m = t._m = mapleaf(t, as_cond)
            return m
        return mapleaf(t, as_cond)
    if t.op == "undef":
        return t
    if t not in DOM:
        DOM[t] = (False, True)
    return mk("sw", t, ((False, FALSE), (True, TRUE)), None)


def mapleaf(t, f):
    """apply f to every leaf; f may return a diagram over later atoms"""
    if t.op != "sw":
        return UNDEF if t is UNDEF else f(t)
    memo = {}

    def go(x):
        if x.op != "sw":
            return UNDEF if x is UNDEF else f(x)
        r = memo.get(x)
        if r is None:
            at, arms, d = x.a
            vals = [(v, go(c)) for v, c in arms]
            dv = None if d is None else go(d)
            r = compose(at, vals, dv)
            memo[x] = r
        return r
    return go(t)


def compose(at, vals, dv):
    """case at of vals -> children that may contain atoms earlier than at"""
    kids = [c for _, c in vals] + ([dv] if dv is not None else [])
    if all(c.op != "sw" or c.a[0].id > at.id for c in kids):
        return mksw(at, dict(vals), dv)
    r = dv if dv is not None else UNDEF
    for v, c in vals:
        g = mksw(at, {v: TRUE}, FALSE)
        r = ite(g, c, r)
    return r


def nodes(t, cap=10 ** 9):
    seen = set()
    st = [t]
    while st and len(seen) < cap:
        x = st.pop()
        if x in seen or x.op != "sw":
            continue
        seen.add(x)
        st.extend(c for _, c in x.a[1])
        if x.a[2] is not None:
            st.append(x.a[2])
    return len(seen)


def map2(a, b, f):
    if a.op == "sw" and b.op == "sw" and nodes(a, 40) * nodes(b, 40) > 400:
        return f(a, b)
    if a.op == "sw" and nodes(a, 61) > 60 or b.op == "sw" and nodes(b, 61) > 60:
        return f(a, b)
    return mapleaf(a, lambda x: mapleaf(b, lambda y: f(x, y)))


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def leaves(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sw":
            if x.a[2] is not None:
                st.append(x.a[2])
            st.extend(c for _, c in reversed(x.a[1]))
        elif x is not UNDEF:
            out.append(x)
    return out


def cases(t, limit=4096):
    """every (assignment dict atom->value|None-for-default, leaf) of a diagram"""
    out = []

    def go(x, asg):
        if len(out) > limit:
            return
        if x.op != "sw":
            if x is not UNDEF:
                out.append((dict(asg), x))
            return
        at, arms, d = x.a
        for v, c in arms:
            asg.append((at, v))
            go(c, asg)
            asg.pop()
        if d is not None:
            asg.append((at, None))
            go(d, asg)
            asg.pop()
    go(t, [])
    return out


def atoms(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or x.op != "sw":
            continue
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        st.extend(c for _, c in x.a[1])
        if x.a[2] is not None:
            st.append(x.a[2])
    return out


def assign(t, f):
    """resolve atoms: f(atom) -> value | None (leave symbolic)"""
    if t.op != "sw":
        return t
    memo = {}

    def go(x):
        if x.op != "sw":
            return x
        r = memo.get(x)
        if r is None:
            at, arms, d = x.a
            v = f(at)
            if v is None:
                r = compose(at, [(k, go(c)) for k, c in arms], None if d is None else go(d))
            else:
                if isinstance(v, tuple) and v and v[0] == "other":
                    v = None
                r = go(child(x, at, v))
            memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- structure
def some(x):
    return mk("agg", "std::option::Option", 1, "Some", ("0",), x)


NONE = mk("agg", "std::option::Option", 0, "None", ())


def ok(x):
    return mk("agg", "std::result::Result", 0, "Ok", ("0",), x)


def err(x):
    return mk("agg", "std::result::Result", 1, "Err", ("0",), x)


def tup(*xs):
    return mk("agg", "tuple", 0, "", tuple(str(i) for i in range(len(xs))), *xs)


def agg_fields(t):
    return dict(zip(t.a[3], t.a[4:]))


def field(b, name, owner=""):
    if b.op == "sw":
        return mapleaf(b, lambda x: field(x, name, owner))
    if b.op == "agg":
        d = agg_fields(b)
        if name in d:
            return d[name]
        return UNDEF
    if b.op == "const":
        return b
    if b.op == "with":
        if b.a[1] == name:
            return b.a[2]
        return field(b.a[0], name, owner)
    if b.op == "elem" and b.a[0].op == "zipped":
        return b
    return mk("field", b, name, owner)


def withf(b, name, v):
    if b is UNDEF:
        return mk("with", b, name, v)
    if b.op == "sw":
        return mapleaf(b, lambda x: withf(x, name, v))
    if b.op == "agg" and name in b.a[3]:
        i = b.a[3].index(name)
        a = list(b.a)
        a[4 + i] = v
        return mk("agg", *a)
    # keep nested withs sorted by name, one per name
    chain = []
    x = b
    while x.op == "with":
        chain.append((x.a[1], x.a[2]))
        x = x.a[0]
    d = {}
    for n, w in reversed(chain):
        d[n] = w
    d[name] = v
    for n in sorted(d):
        x = mk("with", x, n, d[n])
    return x


def payload(b, var, i):
    if b.op == "sw":
        return mapleaf(b, lambda x: payload(x, var, i))
    if b.op == "agg":
        if b.a[2] != var:
            return UNDEF
        return agg_fields(b).get(i, UNDEF)
    if b.op == "unit":
        return UNDEF
    if b.op == "try":
        return payload(b.a[1] if var == "Continue" else b.a[2], var, i)
    if b.op == "withpl":          # a store into the value inside: the variant is what it was
        if b.a[1] == var and b.a[2] == i:
            return b.a[3]
        return payload(b.a[0], var, i) if b.a[1] == var else UNDEF
    return mk("payload", b, var, i)


def discr(b, dom):
    """dom: {variant name: discriminant}"""
    if b.op == "sw":
        return mapleaf(b, lambda x: discr(x, dom))
    if b.op == "agg":
        if b.a[2] in dom:
            return const(dom[b.a[2]])
        return const(b.a[1])
    if b.op == "const":
        return b
    if b.op == "withpl":
        return discr(b.a[0], dom)
    d = mk("discr", b)
    if dom and d not in DOM:
        DOM[d] = tuple(sorted(set(dom.values())))
    return d


OPT = {"None": 0, "Some": 1}
RES = {"Ok": 0, "Err": 1}
ORD = {"Less": 255, "Equal": 0, "Greater": 1}


def eqc(x, v):
    """x == constant v as a condition"""
    if x.op == "sw":
        return mapleaf(x, lambda y: eqc(y, v))
    if x.op == "const":
        return TRUE if x.a[1] == v and type(x.a[1]) is type(v) else FALSE
    if x.op == "undef":
        return x
    if isinstance(v, bool):
        c = as_cond(x)
        return c if v else NOT(c)
    if x in DOM and v not in DOM[x]:
        return FALSE
    return mksw(x, {v: TRUE}, FALSE)


def is_var(x, name, dom):
    return mapleaf(discr(x, dom), lambda d: eqc(d, dom[name]))


def is_some(x):
    return is_var(x, "Some", OPT)


def is_ok(x):
    return is_var(x, "Ok", RES)


# ---------------------------------------------------------------- arithmetic
def lin_parts(t):
    if t.op == "const" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return t.a[1], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, s=1):
    if a.op == "sw" or b.op == "sw":
        def f(x, y):
            return add(x, y, s) if not (x.op == "sw" or y.op == "sw") else _lin2(x, y, s)
        return map2(a, b, f)
    return _lin2(a, b, s)


def _lin2(a, b, s):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(c1 + s * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == "sw" or b.op == "sw":
        def f(x, y):
            return mul(x, y) if not (x.op == "sw" or y.op == "sw") else mk("mul", *sorted((x, y)))
        return map2(a, b, f)
    for x, y in ((a, b), (b, a)):
        v = cval(x)
        if isinstance(v, int) and not isinstance(v, bool):
            c, d = lin_parts(y)
            return mklin(c * v, {k: w * v for k, w in d.items()})
    xs = []
    for x in (a, b):
        xs.extend(x.a if x.op == "mul" else (x,))
    return mk("mul", *sorted(xs))


def cmp_(a, b, kind="int"):
    """three-way comparison as an atom -> diagram with leaves -1,0,1 (2: unordered floats)"""
    if a.op == "sw" or b.op == "sw":
        def f(x, y):
            return cmp_(x, y, kind) if not (x.op == "sw" or y.op == "sw") else _cmp(x, y, kind)
        return map2(a, b, f)
    return _cmp(a, b, kind)


def _cmp(a, b, kind):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    va, vb = cval(a), cval(b)
    if va is not None and vb is not None and type(va) is type(vb):
        return const((va > vb) - (va < vb))
    if a is b and kind != "float":
        return const(0)
    x, y, sgn = a, b, 1
    # constants to the right; otherwise by id
    if (is_const(a) and not is_const(b)) or (is_const(a) == is_const(b) and b.id < a.id):
        x, y, sgn = b, a, -1
    if kind == "uint" and cval(y) == 0:
        r = mksw(x, {0: const(0)}, const(1 * sgn))
        return r
    at = mk("cmp", x, y)
    dom = (-1, 0, 1, 2) if kind == "float" else (-1, 0, 1)
    DOM.setdefault(at, dom)
    dom = DOM[at]
    return mksw(at, {v: const(v * sgn if v != 2 else 2) for v in dom})


_REL = {"Lt": (-1,), "Le": (-1, 0), "Gt": (1,), "Ge": (0, 1), "Eq": (0,), "Ne": (-1, 1, 2)}


def rel(op, a, b, kind="int"):
    return mapleaf(cmp_(a, b, kind), lambda l: TRUE if l.op == "const" and l.a[1] in _REL[op] else FALSE)


# ---------------------------------------------------------------- printing and traversal
def show(t, depth=5):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if t.op == "const":
        return repr(t.a[1])
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "sw":
        s = ", ".join("%s→%s" % (v, show(c, d)) for v, c in t.a[1])
        if t.a[2] is not None:
            s += ", _→" + show(t.a[2], d)
        return "{%s ? %s}" % (show(t.a[0], d), s)
    if t.op == "field":
        return "%s.%s" % (show(t.a[0], d), t.a[1])
    if t.op == "payload":
        return "%s!%s" % (show(t.a[0], d), t.a[1] + ("" if t.a[2] == "0" else t.a[2]))
    if t.op == "agg":
        nm = t.a[0].rsplit("::", 1)[-1]
        if t.a[2] and t.a[2] != nm:
            nm += "::" + t.a[2]
        return "%s(%s)" % (nm, ", ".join(("%s=" % n if not n.isdigit() else "") + show(x, d) for n, x in zip(t.a[3], t.a[4:])))
    if t.op == "lin":
        return "(" + " + ".join(([str(t.a[0])] if t.a[0] else []) + [("" if c == 1 else "%d*" % c) + show(k, d) for k, c in t.a[1]]) + ")"
    if t.op == "call":
        return "%s(%s)" % (t.a[0], ", ".join(show(x, d) for x in t.a[1]))
    if t.op == "param":
        return "$" + str(t.a[0])
    if t.op == "elem":
        return "%s[*]" % show(t.a[0], d)
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in t.a))


def kids(t):
    for x in t.a:
        yield from _kids(x)


def _kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _kids(y)


def walk(t, into=None, seen=None):
    """every distinct subterm; 'into(t)' may return extra terms (e.g. loop side tables)"""
    seen = set() if seen is None else seen
    st = [t] if isinstance(t, T) else list(t)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))
        if into:
            st.extend(into(x))
