"""Term utilities shared by the rules."""
from term import *
from term import kids


def rebuild(t, f, memo=None):
    """bottom-up rewrite; f(term with rewritten children) -> term"""
    memo = {} if memo is None else memo

    def arg(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = x          # recursion guard
        if x.op == "sw":
            at = go(x.a[0])
            arms = [(v, go(c)) for v, c in x.a[1]]
            d = None if x.a[2] is None else go(x.a[2])
            r = recase(at, arms, d)
        elif x.op in ("const", "undef", "unit", "param", "empty"):
            r = f(x)
        else:
            a = tuple(arg(y) for y in x.a)
            if a == x.a:
                r = f(x)
            else:
                r = f(norm(x.op, a))
        memo[x] = r
        return r
    return go(t)


def norm(op, a):
    """rebuild an operator through its smart constructor"""
    if op == "lin":
        r = const(a[0])
        for k, c in a[1]:
            r = add(r, mul(k, const(c)))
        return r
    if op == "mul":
        r = a[0]
        for k in a[1:]:
            r = mul(r, k)
        return r
    if op == "field":
        return field(a[0], a[1], a[2])
    if op == "payload":
        return payload(a[0], a[1], a[2])
    if op in ("min", "max"):
        x, y = sorted(a)
        return mk(op, x, y)
    if op == "cmp":
        d = None
        x, y = a
        if x is y:
            return const(0)
        return mk("cmp", x, y)
    return mk(op, *a)


def recase(at, arms, d):
    if at.op == "const":
        for v, c in arms:
            if v == cval(at) and type(v) is type(cval(at)):
                return c
        return d if d is not None else UNDEF
    if at.op == "sw":
        return mapleaf(at, lambda l: recase(l, arms, d))
    return compose(at, arms, d)


def restrict(t, asg, memo=None):
    """t with the atoms of asg fixed, also inside nested terms"""
    if not asg:
        return t
    memo = {} if memo is None else memo

    def arg(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = x
        if x.op == "sw":
            at = x.a[0]
            if at in asg:
                v = asg[at]
                if isinstance(v, tuple) and v and v[0] == "other":
                    v = None
                r = go(child(x, at, v))
            else:
                r = recase(go(at), [(v, go(c)) for v, c in x.a[1]], None if x.a[2] is None else go(x.a[2]))
        elif x.op in ("const", "undef", "unit", "param", "empty"):
            r = x
        else:
            a = tuple(arg(y) for y in x.a)
            r = x if a == x.a else norm(x.op, a)
        memo[x] = r
        return r
    return go(t)


def forced(g):
    """atoms that take one single value wherever the guard g holds"""
    out = {}
    for at in atoms(g):
        vals = []
        vs = list(DOM[at]) if at in DOM else [v for v in keysof(g, at)] + [("other",)]
        for v in vs:
            if assign(g, lambda x: v if x is at else None) is not FALSE:
                vals.append(v)
        if len(vals) == 1:
            out[at] = vals[0]
    return out


def keysof(g, at):
    ks = []
    st, seen = [g], set()
    while st:
        x = st.pop()
        if x in seen or x.op != "sw":
            continue
        seen.add(x)
        if x.a[0] is at:
            for k, _ in x.a[1]:
                if k not in ks:
                    ks.append(k)
        st.extend(c for _, c in x.a[1])
        if x.a[2] is not None:
            st.append(x.a[2])
    return ks


def under(t, g):
    """t simplified by what the guard g forces"""
    return restrict(t, forced(g))


def implies(a, b):
    return AND(a, NOT(b)) is FALSE


def satisfiable(g):
    return g is not FALSE


def flatten(t, path=(), depth=4):
    """components of a constructed value: {path: term}"""
    if t.op == "agg" and t.a[3] and depth and t.a[2] not in ("closure", "coroutine"):
        out = {}
        for n, x in zip(t.a[3], t.a[4:]):
            p = path if t.a[0].endswith("Reverse") else path + (n,)
            out.update(flatten(x, p, depth - 1))
        return out
    return {path: t}


def deps(t, fl=None, stop=None):
    """every subterm t depends on, through loop variables"""
    seen = set()
    st = [t]
    out = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if stop and stop(x):
            continue
        st.extend(kids(x))
        if x.op == "lv" and fl is not None and x in fl.loops:
            li = fl.loops[x]
            st.append(li.init)
            if li.next is not None:
                st.append(li.next)
    return out


def root(t):
    """base of a projection chain"""
    while t.op in ("field", "payload", "index", "elem", "slice", "len", "enum", "discr", "zipped"):
        t = t.a[0]
    return t


def within(t, *names):
    return any(x.op == "field" and x.a[1] in names for x in walk(t))


def inloops(e, li_key):
    return li_key in e.loops


_PL = {}


def plain(t):
    """identity-free form of a term for comparison across functions and call sites:
    iteration keys, call sites and loop identities are dropped"""
    def f(x):
        if x.op == "elem":
            return mk("elem", x.a[0], 0)
        if x.op == "idx":
            return mk("idx", 0)
        if x.op == "call":
            return mk("call", x.a[0], x.a[1], None)
        if x.op == "seq":
            return mk("seq", x.a[0], 0, x.a[2], x.a[3])
        if x.op == "lv":
            return mk("lv", 0, 0, x.a[2], x.a[-1])
        if x.op in ("find", "any"):
            return mk(x.op, x.a[0], 0, *x.a[2:])
        if x.op in ("more", "iook"):
            return mk(x.op, 0)
        return x
    r = _PL.get(t)
    if r is None:
        r = _PL[t] = rebuild(t, f)
    return r


def idxrange(t, fl):
    """t takes every value of [lo, hi) in unit steps -> (lo, hi, add) with t = base value + add, else None.
    hi is None when the bound is not known"""
    c, d = lin_parts(t)
    for k, w in d.items():
        if w != 1:
            continue
        rest = sub(t, k)
        if any(x is k for x in walk(rest)):
            continue
        if k.op == "elem" and k.a[0].op == "agg" and k.a[0].a[0].endswith("::Range"):
            f = agg_fields(k.a[0])
            return add(f["start"], rest), add(f["end"], rest), k
        if k.op == "elem" and k.a[0].op == "call" and k.a[0].a[0].endswith("RangeInclusive"):
            a = k.a[0].a[1]
            return add(a[0], rest), add(add(a[1], const(1)), rest), k
        if k.op == "lv" and k in fl.loops and fl.loops[k].next is not None:
            li = fl.loops[k]
            if all(l is add(k, const(1)) for l in leaves(li.next)):
                return add(li.init, rest), None, k
        if k.op == "idx":
            return rest, None, k
    return None


def strip_wrap(t):
    """value under casts and Some payloads"""
    while True:
        if t.op == "cast":
            t = t.a[2]
        elif t.op == "payload" and t.a[1] in ("Some", "Ok"):
            t = t.a[0]
        else:
            return t


def is_more(a):
    return a.op == "more" or a.op == "discr" and a.a[0].op == "more"


def fold_kind(nxt, cur, fl=None):
    """nxt = min/max(cur, E) -> ('min'|'max', E); None when it is something else.
    Decided by evaluating the update over every ordering of cur and E."""
    from ev import ev, Unknown, free
    nxt = assign(nxt, lambda a: True if is_more(a) else None)
    fr = [x for x in free(nxt, lambda x: x is cur) if x is not cur]
    ats = [a for a in atoms(nxt) if a.op != "cmp"]
    fr = [x for x in dict.fromkeys(fr) if x not in ats]
    if ats or len(fr) != 1:
        return None
    E = fr[0]
    kinds = {"min", "max"}
    for c, e in ((0.0, 1.0), (1.0, 0.0), (1.0, 1.0)):
        try:
            v = ev(nxt, lambda t: c if t is cur else e if t is E else None)
        except Unknown:
            return None
        if v != min(c, e):
            kinds.discard("min")
        if v != max(c, e):
            kinds.discard("max")
    if len(kinds) == 1:
        return kinds.pop(), E
    return ("neither", E)


def extremum(t, fl):
    """t is the minimum/maximum of a collection -> (kind, element term, filter guard, initial value)"""
    t = strip_wrap(t)
    if t.op in ("min", "max") and len(t.a) == 1:
        s = t.a[0]
        if s.op == "seq":
            return t.op, s.a[3], s.a[2], None
        return t.op, mk("elem", s, 0), TRUE, None
    if t.op == "call" and t.a[0] in ("Iterator::min_by", "Iterator::max_by", "Iterator::reduce") and t.a[1]:
        return None
    if t.op == "lv" and t in fl.loops and fl.loops[t].next is not None:
        li = fl.loops[t]
        k = fold_kind(li.next, t, fl)
        if k:
            return k[0], k[1], TRUE, li.init
    if t.op == "field" and t.a[0].op == "lv" and t.a[0] in fl.loops:
        li = fl.loops[t.a[0]]
        if li.next is not None:
            k = fold_kind(field(li.next, t.a[1], t.a[2]), t, fl)
            if k:
                return k[0], k[1], TRUE, field(li.init, t.a[1], t.a[2])
    return None


def pushlv(t, fl):
    """loop variable that collects what is pushed, behind a collection term -> LoopInfo or None"""
    n = 0
    while t.op == "lv" and t in fl.loops and n < 8:
        li = fl.loops[t]
        if li.next is not None and any(x.op == "push" for x in leaves(li.next)):
            return li
        t = li.init
        n += 1
    return None


def unpush(t, fl):
    """elements of a vector filled by a loop are replaced by the value pushed (only when there is one).
    -> (term, [condition under which the element was pushed])"""
    conds = []

    def f(x):
        if x.op == "elem" and hasattr(x.a[1], "op"):
            li = pushlv(x.a[1], fl)
            if li is not None:
                vs = {l.a[1] for l in leaves(li.next) if l.op == "push"}
                if len(vs) == 1:
                    conds.append(mapleaf(li.next, lambda l: TRUE if l.op == "push" else FALSE))
                    return rebuild(vs.pop(), f)
        if x.op == "index" and x.a[0].op == "agg" and x.a[0].a[0] == "array" and is_const(x.a[1]):
            return agg_fields(x.a[0]).get(str(cval(x.a[1])), x)
        if x.op == "index" and x.a[0].op == "array" and is_const(x.a[1]) and cval(x.a[1]) < len(x.a[0].a):
            return x.a[0].a[cval(x.a[1])]
        return x
    return rebuild(t, f), conds


def itsource(key, fl):
    """collections a loop with this key iterates over (initial values of its iterators)"""
    return [li.init for lv, li in fl.loops.items() if li.key == key and li.next is not None and any(x.op == "adv" for x in leaves(li.next))]


def early_exits(fl, key):
    """guards of the ways out of a loop other than exhaustion of its iterator or a failure, with exhaustion excluded"""
    out = []
    for dst, g, fails in fl.exits.get(key, ()):
        if fails:
            continue
        g2 = assign(g, lambda a: True if is_more(a) else 1 if nextish(a) else None)
        if g2 is not FALSE:
            out.append((dst, g2))
    return out


def nextish(a):
    """the test whether a reader had another item"""
    if a.op != "discr":
        return False
    x = a.a[0]
    while x.op in ("payload", "field"):
        x = x.a[0]
    return x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("next", "try_next", "next_feature")
