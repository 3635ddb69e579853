"""Evaluates a term over an abstract valuation of its opaque subterms (orderings, enum variants).
Nothing of /repo is run: the term is the value-flow summary of the code."""
from term import *


class Unknown(Exception):
    pass


def ev(t, env, memo=None):
    """env(term) -> value or None"""
    memo = {} if memo is None else memo

    def go(x):
        if x.op == "const":
            return x.a[1]
        if x in memo:
            return memo[x]
        r = go2(x)
        memo[x] = r
        return r

    def go2(x):
        v = env(x)
        if v is not None:
            return v
        o = x.op
        if o == "sw":
            at = x.a[0]
            v = go(at)
            for k, c in x.a[1]:
                if k == v and (type(k) is type(v) or not isinstance(k, bool) and not isinstance(v, bool)):
                    return go(c)
            if x.a[2] is None:
                raise Unknown(x)
            return go(x.a[2])
        if o == "cmp":
            a, b = go(x.a[0]), go(x.a[1])
            if a != a or b != b:
                return 2
            return (a > b) - (a < b)
        if o == "lin":
            s = x.a[0]
            for k, c in x.a[1]:
                s = s + c * go(k)
            return s
        if o == "mul":
            p = 1
            for k in x.a:
                p = p * go(k)
            return p
        if o in ("min", "max"):
            a, b = go(x.a[0]), go(x.a[1])
            return min(a, b) if o == "min" else max(a, b)
        if o == "clamp":
            return max(go(x.a[1]), min(go(x.a[0]), go(x.a[2])))
        if o == "bin":
            a, b = go(x.a[1]), go(x.a[2])
            f = x.a[0]
            if f == "Div":
                if isinstance(a, float) or isinstance(b, float):
                    return a / b
                if b == 0:
                    raise Unknown(x)
                return int(a // b)
            if f == "Rem":
                return a % b
            if f == "BitAnd":
                return a & b
            if f == "BitOr":
                return a | b
            if f == "BitXor":
                return a ^ b
            if f == "Shl":
                return a << b
            if f == "Shr":
                return a >> b
        if o == "cast":
            v = go(x.a[2])
            if x.a[1] in ("f32", "f64"):
                return float(v)
            if isinstance(v, float):
                return int(v)
            return v
        if o == "agg" and x.a[0] == "std::cmp::Ordering":
            return ("agg", x.a[2])
        if o == "unit":
            return ()
        if o == "agg":
            return ("agg", x.a[2], tuple(go(k) for k in x.a[4:]))
        if o == "discr":
            raise Unknown(x)
        raise Unknown(x)
    return go(t)


def truth(t, env):
    v = ev(t, env)
    if not isinstance(v, bool):
        raise Unknown(t)
    return v


def free(t, stop):
    """maximal subterms not built from evaluable operators"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if stop(x):
            continue
        if x.op in ("sw", "cmp", "lin", "mul", "min", "max", "clamp", "bin", "cast", "const", "agg", "unit", "undef"):
            from term import kids
            st.extend(kids(x))
        else:
            out.append(x)
    return out
