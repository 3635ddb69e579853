"""Attribute indexes: operators (A01), multi-condition queries (A02, A07), key types (A05)."""
import re
from rules import rule, params
from term import *
from util import *
from mir import short, strip_generics

TREE = ("find_exact", "find_range", "stream_find_exact", "stream_find_range", "http_stream_find_exact", "http_stream_find_range")
OPS = ("Eq", "Ne", "Gt", "Lt", "Ge", "Le")
WANT = {"Eq": "=", "Ne": "<>", "Gt": ">", "Lt": "<", "Ge": "=>", "Le": "<="}
TAKE = {"swap_remove", "remove", "pop", "retain", "drain", "take", "split_off", "truncate"}
ORDER = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "shrink_to_fit", "reserve"}


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


def fixed(t):
    if t is None:
        return None
    if is_const(t):
        v = cval(t)
        return v if isinstance(v, (int, float)) else None
    if t.op in ("max", "min") and len(t.a) == 2:
        a, b = fixed(t.a[0]), fixed(t.a[1])
        if a is not None and b is not None:
            return max(a, b) if t.op == "max" else min(a, b)
    return None


def tree_opaque():
    return tuple("Stree::" + n for n in TREE)


def is_tree(name):
    p = name.split("::")
    return p[-1] if len(p) > 1 and p[-2].startswith("Stree") and p[-1] in TREE else None


class Ops:
    """what a term holds, as the part of the index it selects relative to the key asked for: below, equal, above"""

    def __init__(self, cx, fl, lo, hi):
        self.cx, self.fl, self.lo, self.hi = cx, fl, lo, hi
        self.key = None
        self.plain_removal = []
        self.used = set()
        self.keypos = {}

    def keyargs(self, name, args):
        if name not in self.keypos:
            fs = [f for f in self.cx.w.user_fns(("fcb_core",)) if f.name == name and "Stree" in f.path]
            pos = [i for i in range(fs[0].argc) if fs[0].ty(i + 1).k == "param"] if fs else None
            self.keypos[name] = pos
        pos = self.keypos[name]
        if not pos:
            raise Unknown("signature of " + name)
        return [args[i] for i in pos]

    def bound(self, t):
        if self.key is not None and t is self.key:
            return 1
        if t is self.lo or t.op == "call" and t.a[0].endswith("Min::min_value"):
            return 0
        if t is self.hi or t.op == "call" and t.a[0].endswith("Max::max_value"):
            return 2
        v = fixed(t)
        if v is not None:
            lo, hi = fixed(self.lo), fixed(self.hi)
            if lo is not None and v <= lo:
                return 0
            if hi is not None and v >= hi:
                return 2
            if lo is not None and hi is not None:
                raise Wrong("searches a range that ends at the fixed value %s" % v)
        raise Unknown("bound " + show(t, 3))

    def part(self, t, strip=True):
        while t.op == "payload" and t.a[1] in ("Ok", "Some", "Continue"):
            t = t.a[0]
        if t.op == "agg" and t.a[2] == "Ok":
            return self.part(agg_fields(t)["0"])
        if t.op == "cast":
            raise Unknown(show(t, 3))
        if t.op == "empty" or t.op == "array" and not t.a:
            return frozenset()
        if t.op == "sw":
            r = {self.part(l) for l in leaves(t)}
            if len(r) == 1:
                return r.pop()
            raise Unknown(show(t, 3))
        if t.op == "call":
            n = is_tree(t.a[0])
            if n is None:
                last = t.a[0].rsplit("::", 1)[-1]
                if last in ("into_iter", "iter", "collect", "from_iter", "cloned", "copied", "to_vec", "clone", "from", "into") and len(t.a[1]) == 1:
                    return self.part(t.a[1][0])
                if last in ("new", "with_capacity") and t.a[0].split("::")[-2] in ("Vec", "HashSet", "BTreeSet"):
                    return frozenset()
                raise Unknown(show(t, 3))
            ks = self.keyargs(n, t.a[1])
            self.used.add(n)
            if n.endswith("find_exact"):
                if self.bound(ks[0]) != 1:
                    raise Unknown(show(t, 4))
                return frozenset("=")
            lo, hi = self.bound(ks[0]), self.bound(ks[1])
            return frozenset(c for i, c in enumerate("<=>") if lo <= i <= hi)
        if t.op == "mut":
            if t.a[0].rsplit("::", 1)[-1] in ORDER:
                return self.part(t.a[-1])
            if t.a[0].rsplit("::", 1)[-1] in ("truncate", "pop", "clear"):
                raise Wrong("cuts the entries found short (%s)" % t.a[0].rsplit("::", 1)[-1])
            raise Unknown(show(t, 3))
        if t.op == "take" or t.op == "slice" and is_const(t.a[2]):
            raise Wrong("takes only so many of the entries found")
        if t.op in ("extend", "append", "concat", "chain"):
            return self.part(t.a[0]) | self.part(t.a[1])
        if t.op == "seq":
            src, _, flt, el = t.a
            if not self.same_elem(el, src):
                raise Unknown("element " + show(el, 3))
            s = self.part(src)
            return self.filtered(s, flt, src)
        raise Unknown(show(t, 3))

    def same_elem(self, el, src):
        """el is an element of src or what identifies its entry"""
        while el.op in ("field", "cast", "payload") or el.op == "call" and el.a[0].rsplit("::", 1)[-1] in ("clone", "into", "from"):
            if el.op == "field" and el.a[1] not in ("offset", "range", "0"):
                return False
            el = el.a[2] if el.op == "cast" else el.a[1][0] if el.op == "call" else el.a[0]
        return el.op == "elem"

    def member(self, at):
        """collection whose membership the atom tests, and the value the atom takes when present"""
        x = at
        yes = True
        if x.op == "discr":
            x, yes = x.a[0], 1
        if x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("position", "any", "contains", "find"):
            return x.a[1][0], yes
        if x.op in ("any", "find"):
            return x.a[0], yes
        return None

    def filtered(self, s, flt, src):
        if flt is TRUE:
            return s
        ats = atoms(flt)
        if len(ats) != 1:
            raise Unknown("filter " + show(flt, 3))
        at = next(iter(ats))
        m = self.member(at)
        if m is None:
            raise Unknown("filter " + show(flt, 3))
        d = self.part(m[0])
        yes = assign(flt, lambda a: m[1] if a is at else None)
        no = assign(flt, lambda a: (False if m[1] is True else 0) if a is at else None)
        out = (s & d if yes is TRUE else frozenset()) | (s - d if no is TRUE else frozenset())
        if yes is FALSE and no is TRUE and s - d and not self.shrinks(m[0]):
            self.plain_removal.append((s, d))
        return out

    def shrinks(self, coll):
        """matches are taken out of the collection as they are used up"""
        for e in self.fl.events:
            if e.args and e.name.rsplit("::", 1)[-1] in TAKE and any(x is coll for x in walk(e.args[0])):
                return True
            if e.kind == "mutate" and e.args and e.args[0] is coll:
                return True
        return False

    def empties(self, at):
        """part of the index an atom says something about being empty -> (part, value when empty)"""
        x = at
        if x.op == "call" and x.a[0].rsplit("::", 1)[-1] == "is_empty":
            return self.part(x.a[1][0]), True
        if x.op == "isempty":
            return self.part(x.a[0]), True
        if x.op == "cmp" and is_const(x.a[1]) and cval(x.a[1]) == 0 and x.a[0].op in ("len", "call"):
            y = x.a[0]
            if y.op == "len":
                return self.part(y.a[0]), 0
            if y.a[0].rsplit("::", 1)[-1] == "len":
                return self.part(y.a[1][0]), 0
        raise Unknown("condition " + show(at, 3))


def field_atoms(t, name):
    out = []
    for x in walk(t):
        if x.op == "sw":
            a = x.a[0]
            if a.op == "discr" and a.a[0].op == "field" and a.a[0].a[1] == name and a not in out:
                out.append(a)
    return out


def fnlabel(fn):
    p = strip_generics(fn.path) if "<" not in fn.path[:12] else fn.path
    m = re.search(r"query::(\w+)::\w*Index<(.*?)> as", fn.path)
    if m:
        return "%s index of %s" % (m.group(1), re.sub(r"\b\w+::", "", m.group(2)))
    return p


def minmax(cx, fn):
    """terms of the smallest and largest key of the index this implementation is for"""
    m = re.search(r"Index<(.*)> as", fn.path)
    ty = m.group(1)
    out = []
    for tr, nm in (("Min", "min_value"), ("Max", "max_value")):
        best = None
        for f in cx.w.user_fns(("fcb_core",)):
            if f.name != nm:
                continue
            mm = re.search(r"<(.*) as .*" + tr + ">", f.path)
            if mm and (mm.group(1) == ty or re.sub(r"<[^<>]*>$", "", mm.group(1)) == re.sub(r"<[^<>]*>$", "", ty) and "FixedStringKey" in ty):
                best = f
        out.append(cx.flow(best)[1] if best is not None else None)
    return out


def impls(cx):
    out = []
    for f in cx.w.user_fns(("fcb_core",)):
        if "execute_query_condition" not in f.path or " as " not in f.path:
            continue
        out.append(f)
    roots = []
    for f in out:
        if "{closure" in f.path:
            continue
        cl = [g for g in out if g.path.startswith(f.path + "::{closure") and g.path.count("{closure") == 1]
        roots.append(cl[0] if cl and "Future" in str(f.ty(0).s) else f)
    return roots


@rule("A01")
def operators(cx):
    rep = cx.rep
    n = 0
    for fn in impls(cx):
        lab = fnlabel(fn)
        fl, ret = cx.flow(fn, opaque=tree_opaque())
        lo, hi = minmax(cx, fn)
        ka = field_atoms(ret, "key")
        oa = field_atoms(ret, "operator")
        if len(ka) != 1 or len(oa) != 1:
            rep.open("operator-dispatch", lab, fn.loc(), "dispatch on the operator not recognised")
            continue
        ret = drop_fails(ret)
        good = []
        for v in DOM.get(ka[0], range(15)):
            r = restrict(ret, {ka[0]: v})
            if any(not is_err(l) for l in leaves(r)):
                good.append((v, r))
        if len(good) != 1:
            rep.open("operator-dispatch", lab, fn.loc(), "%d key variants accepted" % len(good))
            continue
        r0 = good[0][1]
        key = None
        for x in walk(ret):
            if x.op == "payload" and x.a[0].op == "field" and x.a[0].a[1] == "key":
                key = x
        for j, o in enumerate(OPS):
            n += 1
            ob = "%s, %s" % (lab, o)
            want = frozenset(WANT[o])
            ev = Ops(cx, fl, lo, hi)
            ev.key = key
            r = restrict(r0, {oa[0]: j})
            judge(rep, ob, lab, o, want, ev, r, fn)
    rep.floor("operator", 6 * 30)


def is_err(l):
    while l.op == "payload":
        l = l.a[0]
    return l.op == "agg" and l.a[2] == "Err"


def drop_fails(t):
    """t on the paths where nothing fails, also inside nested terms"""
    asg = {}
    for x in walk(t):
        if x.op == "sw" and x.a[0].op == "fails":
            asg[x.a[0]] = False
    return restrict(t, asg)


def judge(rep, ob, lab, o, want, ev, r, fn):
    bad = []
    unk = []
    cases = {}
    for x in walk(r):
        if x.op == "sw":
            cases.setdefault(x.a[0], set()).update(v for v, _ in x.a[1])
    models = [(None, r)]
    for n in counts():
        asg = {}
        for at, vs in cases.items():
            try:
                x = value(ev, at, n)
            except (Unknown, Wrong):
                continue
            asg[at] = x
        if not asg:
            break
        if n == {"<": 0, "=": 0, ">": 0}:
            models = []
        models.append((n, settle(r, asg)))
    for n, t in models:
        for g, l in paths(t):
            try:
                if is_err(l):
                    if g:
                        raise Unknown("error under " + ", ".join(show(a, 2) for a, _ in g))
                    bad.append("answers a valid condition with an error")
                    continue
                got = ev.part(l)
                if got == want or n is not None and not any(n[c] for c in got ^ want):
                    continue
                if g:
                    raise Unknown("condition " + show(g[-1][0], 3))
                bad.append("returns the entries %s the key, not those %s it%s" % (words(got), words(want),
                           "" if n is None else ", in an index with %d below, %d equal and %d above" % (n["<"], n["="], n[">"])))
            except Wrong as e:
                bad.append(str(e))
            except Unknown as e:
                unk.append(str(e))
    if not bad and not unk and ev.plain_removal:
        bad.append("removes every entry whose feature also has an entry with the key itself; entries are to be removed one for one")
    if bad:
        rep.bad("operator", ob, fn.loc(), "%s, operator %s: %s" % (lab, o, bad[0]))
    elif unk:
        rep.open("operator", ob, fn.loc(), unk[0])
    else:
        rep.ok("operator", ob, fn.loc(), "selects the entries %s the key" % words(want))


def settle(t, asg):
    """t where the atoms of asg have these values; a value no case names takes the remaining case"""
    fix = {}
    for x in walk(t):
        if x.op == "sw" and x.a[0] in asg:
            fix[x.a[0]] = asg[x.a[0]]
    return restrict(t, fix)


def counts():
    few = (0, 1, 2, 1000003)
    for b in few:
        for e in few:
            for a in few:
                yield {"<": b, "=": e, ">": a}


def number(ev, t, n):
    """a number that depends on how many entries are below, equal to and above the key"""
    if is_const(t):
        return cval(t)
    if t.op == "len":
        return sum(n[c] for c in ev.part(t.a[0]))
    if t.op == "call" and t.a[0].rsplit("::", 1)[-1] == "len":
        return sum(n[c] for c in ev.part(t.a[1][0]))
    if t.op == "lin":
        return t.a[0] + sum(c * number(ev, k, n) for k, c in t.a[1])
    raise Unknown("number " + show(t, 3))


def value(ev, at, n):
    if at.op == "cmp":
        a, b = number(ev, at.a[0], n), number(ev, at.a[1], n)
        return (a > b) - (a < b)
    if at.op == "isempty" or at.op == "call" and at.a[0].rsplit("::", 1)[-1] == "is_empty":
        return not sum(n[c] for c in ev.part(at.a[0] if at.op == "isempty" else at.a[1][0]))
    return number(ev, at, n)


def words(s):
    return "/".join({"<": "below", "=": "equal to", ">": "above"}[c] for c in "<=>" if c in s) or "(none) of"


def paths(t, g=()):
    if t.op == "sw":
        for v, c in t.a[1]:
            yield from paths(c, g + ((t.a[0], v),))
        if t.a[2] is not None:
            yield from paths(t.a[2], g + ((t.a[0], ("other",)),))
    elif t.op == "agg" and t.a[2] == "Ok" and agg_fields(t)["0"].op == "sw":
        yield from paths(agg_fields(t)["0"], g)
    else:
        yield g, t


# ------------------------------------------------------------------ several conditions
def queries(cx):
    """the functions that answer a list of conditions (of an async one, its body)"""
    out = []
    fns = {f.path: f for f in cx.w.user_fns(("fcb_core",))}
    for f in fns.values():
        if "MultiIndex" not in f.path:
            continue
        base, _, cl = f.path.partition("::{closure")
        if base.rsplit("::", 1)[-1] != "query":
            continue
        if not cl and "async fn body" not in str(f.ty(0).s) or cl == "#0}" and base in fns and "async fn body" in str(fns[base].ty(0).s):
            out.append(f)
    return out


EXEC = "execute_query_condition"


class Query:
    def __init__(self, cx, fn):
        self.fn = fn
        self.fl, ret = cx.flow(fn, opaque=tree_opaque())
        self.raw = ret
        self.ret = drop_fails(ret)
        self.evals = [e for e in self.fl.events if e.kind == "call" and e.name.rsplit("::", 1)[-1] == EXEC]
        self.conds = None
        for e in self.evals:
            c = e.args[-1]
            if self.conds is None:
                self.conds = self.source(c)[0]

    def source(self, c):
        """(list of conditions, first position taken, end position or None) the condition comes from"""
        if c.op == "index" and is_const(c.a[1]):
            return c.a[0], cval(c.a[1]), cval(c.a[1]) + 1
        if c.op == "payload" and c.a[1] == "Some" and c.a[0].op == "call" and c.a[0].a[0].rsplit("::", 1)[-1] == "first":
            return c.a[0].a[1][0], 0, 1
        if c.op == "elem":
            lo = 0
            s = c.a[0]
            while True:
                if s.op == "slice" and is_const(s.a[1]):
                    lo += cval(s.a[1])
                    if s.a[2].op != "unit":
                        d = sub(s.a[2], mk("len", s.a[0]))
                        if not (is_const(d) and cval(d) == 0):
                            return s.a[0], lo, s.a[2]
                    s = s.a[0]
                elif s.op == "skip" and is_const(s.a[1]):
                    lo += cval(s.a[1])
                    s = s.a[0]
                elif s.op == "take":
                    return s.a[0], lo, s.a[1]
                elif s.op in ("rev",):
                    s = s.a[0]
                else:
                    return s, lo, None
        return None, None, None

    def result(self, e):
        return payload(e.ret, "Ok", "0")


@rule("A02")
def conditions(cx):
    rep = cx.rep
    for fn in queries(cx):
        lab = re.search(r"(\w*MultiIndex)", fn.path).group(1)
        q = Query(cx, fn)
        if not q.evals or q.conds is None:
            rep.open("conditions", lab, fn.loc(), "evaluation of the conditions not recognised")
            continue
        coverage(rep, q, lab)
        own_index(rep, q, lab)
        intersected(rep, q, lab)
        every_round(rep, q, lab)
        missing(rep, q, lab)
        emptied(rep, q, lab)
    rep.floor("conditions", 3)


def coverage(rep, q, lab):
    """every condition is evaluated"""
    spans, unk = [], None
    for e in q.evals:
        src, lo, hi = q.source(e.args[-1])
        if src is None or src is not q.conds:
            unk = show(e.args[-1], 3)
            continue
        if isinstance(hi, T):
            rep.bad("conditions", lab, e.loc, "conditions from %s on are left out" % show(hi, 3))
            return
        spans.append((lo, hi))
        # with a query of several conditions this point is reached
        def some(a):
            if a.op == "len" and a.a[0] is q.conds:
                return ("other",)
            if a.op == "call" and a.a[0].rsplit("::", 1)[-1] == "is_empty" and a.a[1][0] is q.conds:
                return False
            return None
        if assign(e.guard, some) is FALSE:
            rep.bad("conditions", lab, e.loc, "no condition is evaluated unless the query is empty")
            return
    at = 0
    spans.sort(key=lambda s: s[0])
    for lo, hi in spans:
        if lo > at:
            break
        if hi is None:
            at = None
            break
        at = max(at, hi)
    if at is None:
        rep.ok("conditions", lab, q.fn.loc(), "conditions %s evaluated" % ", ".join("%d.." % lo if hi is None else str(lo) for lo, hi in spans))
    elif unk:
        rep.open("conditions", lab, q.fn.loc(), "condition " + unk)
    else:
        rep.bad("conditions", lab, q.fn.loc(), "condition number %d is never evaluated" % at)


def own_index(rep, q, lab):
    """a condition is evaluated in the index of its own field"""
    for n, e in enumerate(q.evals):
        idx, cond = e.args[0], e.args[-1]
        while idx.op == "payload":
            idx = idx.a[0]
        key = "%s, evaluation %d" % (lab, n)
        if idx.op != "call" or idx.a[0].rsplit("::", 1)[-1] not in ("get", "get_mut") or len(idx.a[1]) != 2:
            rep.open("own-index", key, e.loc, show(idx, 3))
            continue
        k = idx.a[1][1]
        while k.op == "call" and len(k.a[1]) == 1:
            k = k.a[1][0]
        rep.check(k.op == "field" and k.a[0] is cond and k.a[1] == "field", "own-index", key, e.loc,
                  "the condition %s is evaluated in the index of %s" % (show(cond, 3), show(k, 3)))


def members(q, coll):
    """results of an evaluation a collection stands for"""
    out = []
    rs = {q.result(e): e for e in q.evals}

    def go(t, seen):
        if t in rs:
            out.append(rs[t])
            return
        if t in seen:
            return
        seen.add(t)
        if t.op == "sw":
            for l in leaves(t):
                go(l, seen)
        elif t.op == "elem":
            src = t.a[0]
            while src.op in ("skip", "adv", "take", "slice", "rev"):
                src = src.a[0]
            li = pushlv(src, q.fl)
            if li is not None:
                for l in leaves(li.next):
                    if l.op == "push":
                        go(l.a[1], seen)
            else:
                go(src, seen)
        elif t.op == "lv" and t in q.fl.loops:
            go(q.fl.loops[t].init, seen)
        elif t.op in ("seq",):
            go(t.a[0], seen)
        elif t.op == "index":
            go(mk("elem", t.a[0], 0), seen)
        elif t.op == "call" and len(t.a[1]) == 1:
            go(t.a[1][0], seen)
        elif t.op == "payload":
            go(t.a[0], seen)
        elif t.op == "mut":
            go(t.a[-1], seen)
    go(coll, set())
    return out


def intersected(rep, q, lab):
    """the answer keeps only what every evaluation returned"""
    ops = Ops(None, q.fl, None, None)
    used, inverted, added = set(), [], []
    seqs, seen = [], set()
    pool = [q.ret] + [li.next for li in q.fl.loops.values() if li.next is not None]
    for t in pool:
        for x in walk(t, seen=seen):
            if x.op == "seq":
                seqs.append(x)
            if x.op in ("append", "extend", "concat") or x.op == "mut" and x.a[0].rsplit("::", 1)[-1] in ("extend", "append", "extend_from_slice"):
                for y in kids(x):
                    added += members(q, y)
    for e in q.fl.events:
        if e.kind in ("mutate", "call") and e.name.rsplit("::", 1)[-1] in ("extend", "append", "extend_from_slice") and len(e.args) > 1:
            added += members(q, e.args[1])
    for s in seqs:
        ats = atoms(s.a[2])
        for at in ats:
            m = ops.member(at)
            if m is None:
                continue
            ms = members(q, m[0])
            if not ms:
                continue
            yes = assign(s.a[2], lambda a: m[1] if a is at else None)
            no = assign(s.a[2], lambda a: (False if m[1] is True else 0) if a is at else None)
            if no is FALSE and yes is not FALSE:
                used |= set(id(e) for e in ms)
            elif yes is FALSE:
                inverted.append(ms[0])
    base = set()
    for l in leaves(q.ret):
        if l.op == "agg" and l.a[2] == "Ok":
            for x in leaves(agg_fields(l)["0"]):
                base |= set(id(e) for e in members(q, x))
    if inverted:
        rep.bad("intersection", lab, inverted[0].loc, "features this condition selects are removed and those it does not select are kept")
    elif added:
        rep.bad("intersection", lab, added[0].loc, "what this condition selects is added to the answer instead of restricting it")
    else:
        left = [e for e in q.evals if id(e) not in used and id(e) not in base]
        if not left and (used or len(q.evals) == 1 and not used):
            if not used:
                rep.open("intersection", lab, q.fn.loc(), "no intersection recognised")
            else:
                rep.ok("intersection", lab, q.fn.loc(), "%d evaluation(s) restrict the answer" % len(used | base))
        elif left and used_nowhere(q, left[0]):
            rep.bad("intersection", lab, left[0].loc, "what this condition selects has no influence on the answer")
        else:
            rep.open("intersection", lab, q.fn.loc(), "combination of the results not recognised")


def plain_data(at, q):
    """the atom compares what conditions say or how much they select: both outcomes are possible"""
    for x in walk(at):
        if x.op == "call" and not (x.a[0].rsplit("::", 1)[-1] in (EXEC, "get", "get_mut", "len", "is_empty")):
            return False
        if x.op in ("fails", "more", "undef"):
            return False
    return any(x is q.conds for x in walk(at))


def calm(q):
    """the usual course: lookups succeed, nothing fails, another condition is there, results are not empty"""
    def f(at):
        if at.op == "fails":
            return False
        if at.op == "more":
            return True
        if is_lookup(at):
            return 1
        return None
    return f


def course(t, q):
    asg = {}
    f = calm(q)
    for at in allatoms(t):
        v = f(at)
        if v is not None:
            asg[at] = v
    return restrict(t, asg)


def every_round(rep, q, lab):
    """no condition is skipped, none leaves the answer as it was"""
    bad, unk = None, None
    n = 0
    for e in q.evals:
        if not e.loops:
            continue
        n += 1
        lv = e.loops[-1]
        g = course(e.guard, q)
        for path, l in paths(g):
            if l is not FALSE:
                continue
            rest = [(a, v) for a, v in path if emptiness(a) is None]
            if not rest:
                continue
            asg = {a: v for a, v in rest if not isinstance(v, tuple)}
            goes_on = False
            for li in q.fl.loops.values():
                if li.next is not None and li.var.a[0] == lv and any(x is not UNDEF for x in leaves(restrict(course(li.next, q), asg))):
                    goes_on = True
            if not goes_on:
                continue
            if all(plain_data(a, q) for a, _ in rest):
                bad = (e, "conditions are skipped: %s" % show(rest[-1][0], 3))
            else:
                unk = show(rest[0][0], 3)
    for li in q.fl.loops.values():
        if li.next is None:
            continue
        nx = course(drop_fails(li.next), q)
        mine = [x for x in walk(nx) if x.op == "seq" and any(members_of_filter(q, x))]
        if not mine:
            continue
        n += 1
        for path, l in paths(nx):
            if l is not li.var:
                continue
            rest = []
            empty = False
            for a, v in path:
                em = emptiness(a)
                if em is not None and em[0] is li.var:
                    empty |= v == em[1]
                    continue
                rest.append(a)
            if empty:
                continue
            if rest and all(plain_data(a, q) for a in rest):
                bad = (q.evals[-1], "a condition leaves the answer as it was when %s" % show(rest[-1], 4))
            elif rest:
                unk = show(rest[0], 3)
    if bad:
        rep.bad("every-round", lab, bad[0].loc, bad[1])
    elif unk:
        rep.open("every-round", lab, q.fn.loc(), unk)
    elif n:
        rep.ok("every-round", lab, q.fn.loc())


def members_of_filter(q, s):
    ops = Ops(None, q.fl, None, None)
    for at in atoms(s.a[2]):
        m = ops.member(at)
        if m is not None:
            yield bool(members(q, m[0]))


def used_nowhere(q, e):
    r = q.result(e)
    pool = [q.ret] + [li.next for li in q.fl.loops.values() if li.next is not None]
    for t in pool:
        for l in leaves(t):
            for x in walk(l):
                if x is r:
                    return False
    for ev in q.fl.events:
        if ev is not e and any(r is x for a in ev.args for x in walk(a)):
            return False
    return True


def is_lookup(at):
    return at.op == "discr" and at.a[0].op == "call" and at.a[0].a[0].rsplit("::", 1)[-1] == "get" and \
        at.a[0].a[1] and at.a[0].a[1][0].op == "field" and at.a[0].a[1][0].a[1] in ("indices", "index_offsets")


def missing(rep, q, lab):
    """a condition without an index makes the query fail"""
    bad = None
    n = 0
    for t in [q.ret]:
        for at in [a for a in allatoms(t) if is_lookup(a)]:
            n += 1
            r = restrict(t, {at: 0})
            for l in leaves(r):
                if not is_err(l) and l.op not in ("undef",):
                    bad = at
    for li in q.fl.loops.values():
        if li.next is None:
            continue
        nx = drop_fails(li.next)
        for at in [a for a in allatoms(nx) if is_lookup(a)]:
            n += 1
            r = restrict(nx, {at: 0})
            if r.op != "undef" and r is not UNDEF:
                bad = at
    for x in walk(q.ret):
        if x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("filter_map", "flat_map"):
            rep.open("missing-index", lab, q.fn.loc(), "conditions mapped by " + x.a[0])
            return
    rep.check(bad is None, "missing-index", lab, q.fn.loc(), "a condition on a field that has no index is skipped: the query goes on without it")


def allatoms(t):
    out = []
    for x in walk(t):
        if x.op == "sw" and x.a[0] not in out:
            out.append(x.a[0])
    return out


def emptied(rep, q, lab):
    """an empty answer is given only where a result is empty"""
    bad, unk = None, None
    rs = [q.result(e) for e in q.evals]

    def about(t):
        return any(members(q, x) for x in (t,)) or bool(members(q, t))
    for g, l in paths(q.ret):
        if not (l.op == "agg" and l.a[2] == "Ok"):
            continue
        v = agg_fields(l)["0"]
        if not (v.op == "empty" or v.op == "array" and not v.a):
            continue
        okay, und = False, None
        for at, val in g:
            e = emptiness(at)
            if e is None:
                continue
            if val == e[1] or e[1] is True and val is True:
                okay = True
        if not okay:
            others = [a for a, v2 in g if emptiness(a) is None and not is_more(a)]
            if others:
                unk = show(others[0], 3)
            else:
                bad = g
    if bad is not None:
        rep.bad("empty-answer", lab, q.fn.loc(), "the query answers with no features although no result was empty (condition: %s)" % "; ".join("%s is %s" % (show(a, 4), v) for a, v in bad))
    elif unk:
        rep.open("empty-answer", lab, q.fn.loc(), "empty answer under " + unk)
    else:
        rep.ok("empty-answer", lab, q.fn.loc())


def emptiness(at):
    """(collection, value the atom takes when it is empty)"""
    if at.op == "len":
        return at.a[0], 0
    if at.op == "call" and at.a[0].rsplit("::", 1)[-1] == "is_empty":
        return at.a[1][0], True
    if at.op == "lin" or at.op == "cmp" and is_const(at.a[1]) and cval(at.a[1]) == 0:
        for x in walk(at):
            if x.op == "len":
                return x.a[0], 0
    return None


# ------------------------------------------------------------------ stream position
def positions(t, asg):
    """values a position takes where nothing failed"""
    return set(leaves(restrict(drop_fails(t), asg)))


@rule("A07")
def stream_position(cx):
    rep = cx.rep
    roots = [f for f in impls(cx) if "query::stream" in f.path]
    for fn in roots:
        fl, ret = cx.flow(fn, opaque=tree_opaque())
        lab = fnlabel(fn)
        starts(rep, fl, fn, lab, lambda e: is_tree(e.name), lambda e, rd: mk("pos0", rd))
        restored(rep, fl, ret, fn, lab)
    for fn in queries(cx):
        if "StreamMultiIndex" not in fn.path:
            continue
        q = Query(cx, fn)
        starts(rep, q.fl, fn, "StreamMultiIndex::query", lambda e: e in q.evals, lambda e, rd: own_start(q, e, rd))
        restored(rep, q.fl, q.raw, fn, "StreamMultiIndex::query")
    rep.floor("search-start", 120)
    rep.floor("restored", 16)


def own_start(q, e, rd):
    c = e.args[-1]
    for x in q.fl.events:
        if x.kind == "call" and x.name.rsplit("::", 1)[-1] == "get" and len(x.args) == 2 and x.args[0].op == "field" and x.args[0].a[1] == "index_offsets":
            k = x.args[1]
            if k.op == "field" and k.a[0] is c:
                return add(mk("pos0", rd), field(payload(x.ret, "Some", "0"), "start"))
    return None


def same_pos(a, b):
    return a is b or plain(a) is plain(b) or show(plain(a), 12) == show(plain(b), 12)


def moved(l):
    """a position that is known not to be the one expected: relative to where the stream was left or to elsewhere"""
    return any(x.op in ("pos0", "posafter", "lv", "eof") for x in walk(l)) or is_const(l)


def starts(rep, fl, fn, lab, pick, want):
    n = 0
    for e in fl.events:
        if e.kind != "call" or not pick(e) or not e.pos:
            continue
        rd, pos = next(iter(e.pos.items()))
        key = "%s, search %d (%s)" % (lab, n, e.name.rsplit("::", 1)[-1])
        n += 1
        w = want(e, rd)
        if w is None:
            rep.open("search-start", key, e.loc, "position of the index not recognised")
            continue
        ls = positions(under(pos, e.guard), {})
        off = [l for l in ls if not same_pos(l, w)]
        if not off:
            rep.ok("search-start", key, e.loc)
        elif all(moved(l) for l in off):
            rep.bad("search-start", key, e.loc, "the search starts at %s, the index is at %s" % (show(off[0], 5), show(w, 5)))
        else:
            rep.open("search-start", key, e.loc, show(off[0], 4))


def restored(rep, fl, ret, fn, lab):
    for k, v in fl.state.items():
        if k[0] != "pos":
            continue
        r = drop_fails(ret)
        v = drop_fails(v)
        bad, unk = None, None
        for g, l in paths(v):
            if l is mk("pos0", k[1]):
                continue
            asg = {a: x for a, x in g}
            outs = [x for x in leaves(restrict(r, asg))]
            if outs and all(is_err(x) for x in outs):
                continue
            if any(not is_err(x) for x in outs) and moved(l):
                bad = l
            else:
                unk = l
        if bad is not None:
            rep.bad("restored", lab, fn.loc(), "a successful search leaves the stream at %s, not where it was found" % show(bad, 5))
        elif unk is not None:
            rep.open("restored", lab, fn.loc(), show(unk, 4))
        else:
            rep.ok("restored", lab, fn.loc())
