"""H01: what a remote query finds leads to requests for exactly these features.
Groups of duplicates are followed from the reference in the tree to the place of every member; each step's outcome is a
decision diagram, and every branch of it has to keep the group: delivered, put off, or an error."""
from ev import ev, Unknown
from rules import rule, params
from term import *
from util import *
from .codec import okpart, uncast
from .layout import calm, last
from mir import strip_generics
from .stree import BASE, Place, SHAPES, SIZE, isrange

OP = ("PayloadCache::contains", "PayloadCache::get_entry", "read_http_payload_data", "read_payload_entry", "PayloadEntry::deserialize", "prefetch_payload")
LEN = ("len", "is_empty")


def listvar(t):
    """the variable behind a list that is sorted, without its repetitions or iterated"""
    while True:
        if t.op in ("sorted", "dedup", "rev", "push", "extend", "insert", "enum", "plain") or t.op == "cast":
            t = t.a[0]
        elif t.op == "seq" and t.a[3].op == "elem":
            t = t.a[0]
        elif t.op == "lv":
            return t.a[1]
        else:
            return None


def cutshort(t):
    """a part of a list that leaves some of it out"""
    while t.op in ("sorted", "dedup", "rev", "push", "extend", "enum", "skip", "take", "seq", "slice", "trunc"):
        if t.op in ("skip", "take", "slice", "trunc"):
            return t
        t = t.a[0]
    return None


class Group:
    """where the group comes from that a term takes the offsets of"""

    def __init__(self, at, via=None):
        self.at, self.via = at, via


def group(t):
    """address of a group of duplicates that was read"""
    while t.op == "field" and t.a[1] == "0" or t.op == "payload" and t.a[1] in ("Ok", "Some") and not (t.a[0].op == "call" and last(t.a[0].a[0]) in ("get", "remove", "get_mut")):
        t = t.a[0]
    if t.op == "payload" and t.a[0].op == "call":
        c = t.a[0]
        if "Map" in str(c.a[0]) and last(c.a[0]) in ("get", "remove", "get_mut"):
            return Group(c.a[1][1], c.a[1][0])
        return None
    if t.op != "call":
        return None
    nm = last(t.a[0])
    if nm in ("get_entry", "read_http_payload_data", "read_payload_entry"):
        return Group(t.a[1][1])
    if nm == "deserialize":
        c = t.a[1][0]
        if c.op == "call" and last(c.a[0]) == "new":
            return Group(bytesat(c.a[1][0]))
    return None


def bytesat(b):
    """address of the first of these bytes"""
    off = const(0)
    for _ in range(8):
        if b.op == "payload" and b.a[0].op == "call" and last(b.a[0].a[0]) == "get":
            r = b.a[0].a[1][1]
            f = dict(zip(r.a[3], r.a[4:])) if r.op == "agg" else {}
            if "start" not in f:
                return None
            off, b = add(off, f["start"]), b.a[0].a[1][0]
        elif b.op == "slice":
            off, b = add(off, b.a[1]), b.a[0]
        elif b.op == "payload" and b.a[0].op == "call" and last(b.a[0].a[0]) == "get_range":
            return add(off, b.a[0].a[1][1])
        elif b.op == "call" and last(b.a[0]) in ("as_ref", "deref", "to_vec", "clone", "as_slice", "freeze") and b.a[1]:
            b = b.a[1][0]
        else:
            return None
    return None


def on(a, pick=()):
    """goes on: more items, no failure, nothing empty"""
    if is_more(a):
        return True
    if a.op == "fails":
        return False
    if a.op == "iook":
        return True
    return None


def nonempty(a):
    if a.op == "len" or a.op == "cmp" and any(x.op == "len" for x in a.a):
        return True
    return a.op == "call" and last(a.a[0]) == "is_empty"


def fill(g, extra=()):
    extra = dict(extra)

    def f(a):
        if a in extra:
            return extra[a]
        return on(a)
    return assign(g, f)


def some_len(g):
    """lists whose emptiness is asked before the walk are not empty"""
    def f(a):
        if a.op == "len":
            ks = [k for k in keysof(g, a)]
            return ("other",) if 0 in ks else None
        if a.op == "call" and last(a.a[0]) == "is_empty":
            return False
        return None
    out = assign(g, f)
    return out


def left(gs, extra=()):
    """what is not covered by these guards"""
    t = FALSE
    for g in gs:
        t = OR(t, g)
    return NOT(some_len(fill(t, extra)))


def missing(rep, key, loc, gs, extra, what, outs=()):
    """every way through is covered"""
    r = left(list(gs) + list(outs), extra)
    if r is FALSE:
        return rep.ok("group", key, loc)
    odd = [a for a in atoms(r) if a.op == "call" and last(a.a[0]) not in ("contains", "contains_key", "is_empty", "is_some", "is_none") and not nonempty(a)]
    if not gs or odd or r.op == "undef":
        return rep.open("group", key, loc, show(r, 4))
    rep.bad("group", key, loc, what + ": when not " + show(NOT(r), 5)[:300])


def errors_out(fl, key):
    return [g for d, g, f in fl.exits.get(key, ()) if f]


@rule("H01")
def groups(cx):
    rep = cx.rep
    fn = cx.one("stree::batch_resolve_payloads")
    fl, ret = cx.flow(fn, opaque=OP)
    ps = {p.a[0]: p for p in params(fn)}
    loc = fn.loc()
    K = "batch_resolve_payloads: "
    refs, S, FB = (ps.get(k) for k in ("payload_refs", "payload_section_start", "feature_begin"))
    if not (refs and S and FB):
        return rep.open("group", K + "parameters", loc)
    start = {}
    for e in fl.events:
        if e.kind != "mutate" or last(e.name) not in ("push", "push_back", "extend"):
            continue
        for x in walk(e.args[1]):
            if x.op == "agg" and str(x.a[0]).endswith("RangeFrom"):
                start.setdefault(e, []).append(uncast(x.a[4]))
    # ---- what is added to the results, and for which reference
    gives, keeps, lists = [], [], {}
    for e, ss in start.items():
        for s in ss:
            s = mapleaf(s, uncast)
            x = uncast(sub(s, FB))
            els = [y for y in walk(x) if y.op == "elem" and y.a[0].op == "field" and y.a[0].a[1] == "offsets"]
            d = [y for y in walk(x) if y.op == "payload" and y.a[1] == "Direct"]
            c, parts = lin_parts(x)
            core = els[0] if els else d[0] if d else None
            if core is None:
                rep.open("group", K + "place of a result", e.loc, show(s, 4))
                continue
            good = len(parts) == 1 and c == 0 and all(w == 1 and uncast(k) is core for k, w in parts.items())
            rep.check(good, "group", K + ("member" if els else "single feature") + ": at its place behind the start of the features", e.loc, "at %s" % show(s, 4))
            gives.append((e, group(core.a[0].a[0]) if els else None, core if els else None))
    outer = [k for k in {l for e in fl.events for l in e.loops} if any(s is refs for s in itsource(k, fl))]
    if len(outer) != 1:
        cut = [s for k in {l for e in fl.events for l in e.loops} for s in itsource(k, fl) if s.op in ("skip", "take", "slice") and any(y is refs for y in walk(s))]
        (rep.bad if cut else rep.open)("group", K + "every reference", loc, "only %s is walked" % show(cut[0], 3) if cut else "the walk over the references is not recognised")
        return
    outer = outer[0]
    early = [g for d, g in early_exits(fl, outer)]
    (rep.bad if early else rep.ok)("group", K + "every reference", loc, *(("may end early: %s" % show(early[0], 4),) if early else ()))
    kind = None
    for e in fl.events:
        for a in atoms(e.guard):
            if a.op == "discr" and a.a[0].op == "elem" and a.a[0].a[0] is refs:
                kind = a
    if kind is None:
        return rep.open("group", K + "kinds of references", loc)
    ad = [a for p, a in cx.w.adts.items() if p.endswith("::PayloadRef")]
    dom = {v["n"]: int(v["d"]) for v in ad[0]["v"]}
    E = kind.a[0]
    rel = None
    for e in fl.events:
        for a in e.args:
            if isinstance(a, T):
                for x in walk(a):
                    if x.op == "payload" and x.a[0] is E and x.a[1] == "Indirect":
                        rel = x
    if rel is None:
        return rep.open("group", K + "references to groups", loc)
    want = add(S, rel)
    direct = [e for e, g, c in gives if c is None]
    missing(rep, K + "a single feature is a result", loc, [e.guard for e in direct], {kind: dom["Direct"]}, "a feature is left out", errors_out(fl, outer))
    # ---- a group is either taken apart or put off
    cover = []
    for e, g, c in gives:
        if c is None or outer not in e.loops:
            continue
        members(rep, K, fl, e, c)
        at = uncast(g.at) if g and g.at is not None else None
        if at is None:
            rep.open("group", K + "the group of a reference", e.loc, show(c, 4))
            continue
        wrong = at is not want
        if wrong and {want, at} and not decided(at, want):
            rep.open("group", K + "the group of a reference", e.loc, show(at, 4))
            continue
        rep.check(not wrong, "group", K + "the group of a reference", e.loc, "the group at %s is taken for %s" % (show(at, 4), show(want, 4)))
        cover.append(e.guard)
    later = {}
    for e in fl.events:
        if e.kind == "mutate" and last(e.name) in ("push", "push_back", "insert") and outer in e.loops and e not in start and "Map" not in e.name:
            v = uncast(e.args[-1])
            if any(x is rel for x in walk(v)):
                later.setdefault(listvar(e.args[0]), []).append((e, v))
    for var, es in later.items():
        for e, v in es:
            # put off under the place of the group, or under its relative place
            lists.setdefault(var, []).append(v)
            if v is not want and v is not rel:
                if decided(v, want):
                    rep.bad("group", K + "put off", e.loc, "%s is put off instead of %s" % (show(v, 4), show(want, 4)))
                else:
                    rep.open("group", K + "put off", e.loc, show(v, 4))
                continue
            rep.ok("group", K + "put off", e.loc)
            cover.append(e.guard)
    missing(rep, K + "a group is taken apart or put off", loc, cover, {kind: dom["Indirect"]}, "a group is left out", errors_out(fl, outer))
    # ---- what was put off
    for var in lists:
        putoff(rep, K, fl, var, gives, outer, loc, want, S, FB)
    if not lists and not cover:
        rep.open("group", K + "put off", loc)
    returned(rep, K, fl, ret, gives, loc)
    rep.floor("group", 12)


def decided(a, b):
    """both are sums of the same quantities: their difference is a number or a known quantity"""
    c, parts = lin_parts(sub(a, b))
    if all(k.op in ("param", "payload", "field", "elem") for k in parts):
        return True
    try:
        for i in range(3):
            nums = {}
            env = lambda t: nums.setdefault(t, (len(nums) + 3 + i) * 1009 * (i + 1)) if t.op in ("param", "payload", "field", "elem") else None
            if ev(b, env) == ev(a, env):
                return False
        return True
    except (Unknown, TypeError):
        return False


def members(rep, K, fl, e, c):
    """all members of a group"""
    key = K + "every member of a group"
    for l in e.loops:
        src = itsource(l, fl)
        if not any(groupsrc(s) is c.a[0] for s in src):
            continue
        cut = [s for s in src if cutshort(s) is not None or s.op == "seq" and s.a[2] is not TRUE]
        early = [g for d, g in early_exits(fl, l)]
        if early:
            return rep.bad("group", key, e.loc, "may end early: %s" % show(early[0], 4))
        if cut:
            return rep.bad("group", key, e.loc, "only of %s" % show(cut[0], 4))
        inner = [a for a in atoms(calm(e.guard)) if any(y is c for y in walk(a))]
        if inner:
            return rep.bad("group", key, e.loc, "only if %s" % show(inner[0], 4))
        return rep.ok("group", key, e.loc)
    if last(e.name) == "extend":
        v = e.args[1]
        cut = cutshort(v)
        if cut is not None:
            return rep.bad("group", key, e.loc, "only of %s" % show(cut, 4))
        if v.op == "seq" and v.a[0] is c.a[0]:
            return rep.ok("group", key, e.loc)
    rep.open("group", key, e.loc, show(c, 4))


def groupsrc(s):
    while s.op in ("skip", "take", "rev", "slice", "sorted", "dedup", "enum"):
        s = s.a[0]
    if s.op == "seq":
        s = s.a[0]
    return s


def lvars(t):
    out = set()
    while t.op == "lv":
        out.add(t.a[1])
        t = t.a[-1]
        while t.op in ("push", "extend", "insert", "sorted", "dedup"):
            t = t.a[0]
    return out


def overlist(fl, key, var):
    """the iterator of a loop over the list in this variable"""
    for lv, li in fl.loops.items():
        if li.key == key and li.next is not None and any(x.op == "adv" for x in leaves(li.next)):
            if listvar(groupsrc(li.init)) == var:
                return li.init
    return None


def putoff(rep, K, fl, var, gives, outer, loc, want, S, FB):
    keys = {l for e in fl.events for l in e.loops if l != outer}
    walks = {k: overlist(fl, k, var) for k in keys}
    walks = {k: s for k, s in walks.items() if s is not None}
    done = False
    for k, s in walks.items():
        cover, via = [], []
        own = set()
        for e, g, c in gives:
            if c is None or k not in e.loops:
                continue
            members(rep, K, fl, e, c)
            if g is None or g.at is None:
                rep.open("group", K + "the group of a reference put off", e.loc, show(c, 4))
                continue
            at = uncast(g.at)
            el = [x for x in walk(at) if x.op == "elem"]
            if not el:
                rep.open("group", K + "the group of a reference put off", e.loc, show(at, 4))
                continue
            d = sub(at, el[0])
            if d is not const(0) and not (d is S and False):
                rep.check(not decided(at, el[0]), "group", K + "the group of a reference put off", e.loc, "the group at %s is taken for %s" % (show(at, 4), show(el[0], 4)))
                continue
            rep.ok("group", K + "the group of a reference put off", e.loc)
            cover.append(e.guard)
            if g.via is not None:
                via.append(g.via)
                own.update(a for a in atoms(e.guard) if a.op == "discr" and a.a[0].op == "call" and "Map" in str(a.a[0].a[0]))
        if not cover:
            continue
        done = True
        cut = cutshort(s)
        filt = s.op == "seq" and s.a[2] is not TRUE
        early = [g for d, g in early_exits(fl, k)]
        st = "only %s is walked" % show(cut, 3) if cut is not None else "may end early: %s" % show(early[0], 4) if early else None
        if st:
            rep.bad("group", K + "every group put off", loc, st)
        elif filt:
            rep.open("group", K + "every group put off", loc, show(s.a[2], 4))
        else:
            rep.ok("group", K + "every group put off", loc)
        missing(rep, K + "a group put off is taken apart", loc, cover, {a: 1 for a in own}, "a group is left out", errors_out(fl, k))
        for m in via:
            fetched(rep, K, fl, var, m, k, loc, FB)
    if not done:
        rep.open("group", K + "every group put off", loc, "the walk over what was put off is not recognised")


def fetched(rep, K, fl, var, m, final, loc, FB):
    """every group put off is in the map"""
    names = lvars(m)
    ins = [e for e in fl.events if e.kind == "mutate" and last(e.name) == "insert" and "Map" in e.name and lvars(e.args[0]) & names]
    again = {}
    for e in ins:
        g = group(e.args[2])
        k = uncast(e.args[1])
        if g is None or g.at is None:
            rep.open("group", K + "group under its place", e.loc, show(e.args[2], 4))
            continue
        at = uncast(g.at)
        if at is not k and not decided(at, k):
            rep.open("group", K + "group under its place", e.loc, show(at, 5))
        else:
            rep.check(at is k, "group", K + "group under its place", e.loc, "the group at %s is kept for %s" % (show(at, 4), show(k, 4)))
    for e in fl.events:
        if e.kind == "mutate" and last(e.name) in ("push", "push_back") and e.loops and e.args[1].op == "elem":
            v = listvar(e.args[0])
            if v != var:
                again.setdefault(v, []).append(e)
    loops = {}
    for e in ins:
        loops.setdefault(e.loops[-1] if e.loops else None, []).append(e)
    used, ranged = set(), []
    first = False
    for k, es in loops.items():
        if k is None:
            continue
        s = overlist(fl, k, var)
        if s is None:
            continue
        first = True
        cover = [e.guard for e in es]
        for v, bs in again.items():
            for b in bs:
                if b.loops and b.loops[-1] == k and overlisted(fl, v):
                    cover.append(b.guard)
                    used.add(v)
        missing(rep, K + "a group put off is fetched", es[0].loc, cover, {}, "a group is not fetched", errors_out(fl, k))
        early = [g for d, g in early_exits(fl, k)]
        cut = cutshort(s)
        if early or cut is not None:
            rep.bad("group", K + "each is fetched", es[0].loc, "may end early" if early else "only %s is walked" % show(cut, 3))
        elif s.op == "seq" and s.a[2] is not TRUE:
            inrange(rep, K, fl, k, s, es, var, loc, FB)
        else:
            rep.ok("group", K + "each is fetched", es[0].loc)
    if not first:
        rep.open("group", K + "a group put off is fetched", loc, "not recognised")
    for v in used:
        hit = False
        for k, es in loops.items():
            if k is None or overlist(fl, k, v) is None:
                continue
            hit = True
            missing(rep, K + "a group that could not be decoded is fetched again", es[0].loc, [e.guard for e in es], {}, "a group is not fetched", errors_out(fl, k))
            early = [g for d, g in early_exits(fl, k)]
            cut = cutshort(overlist(fl, k, v))
            rep.check(not early and cut is None, "group", K + "each that could not be decoded", es[0].loc, "not all of them")
        if not hit:
            emptied(rep, K, fl, v, loops, loc)


def emptied(rep, K, fl, v, loops, loc):
    """a list taken apart item by item"""
    key = K + "a group that could not be decoded is fetched again"
    pops = {}
    for k, es in loops.items():
        for e in es:
            for x in walk(uncast(e.args[1])):
                if x.op == "call" and last(x.a[0]) in ("pop", "pop_front", "pop_back") and v in {y for z in walk(x.a[1][0]) if z.op == "lv" for y in lvars(z)}:
                    pops.setdefault((k, x), []).append(e)
    for (k, c), es in pops.items():
        more = {a: 1 for a in {a for d, g, f in fl.exits.get(k, ()) for a in atoms(g)} if a.op == "discr" and a.a[0] is c}
        early = [g for d, g, f in fl.exits.get(k, ()) if not f and fill(g, more) is not FALSE]
        if early or not more:
            return rep.open("group", key, loc, show(early[0], 4) if early else "")
        return missing(rep, key, loc, [e.guard for e in es], more, "a group is not fetched", errors_out(fl, k))
    used = [e for e in fl.events if not (e.kind == "mutate" and last(e.name) == "push") and any(z.op == "lv" and z.a[1] == v for a in e.args if isinstance(a, T) for z in walk(a))]
    walks = [k for k in fl.exits if any(z.op == "lv" and z.a[1] == v for s in itsource(k, fl) for z in walk(s))]
    if used or walks:
        return rep.open("group", key, loc, "the walk over the groups put aside is not recognised")
    rep.bad("group", key, loc, "the groups put aside are not walked")


def overlisted(fl, v):
    return True


def inrange(rep, K, fl, k, s, es, var, loc, FB):
    """the groups are fetched in ranges: each lies in one, and is looked for in that"""
    up = None
    for e in es:
        if len(e.loops) >= 2:
            up = e.loops[-2]
    src = itsource(up, fl) if up else []
    if len(src) != 1:
        return rep.open("group", K + "each is fetched", es[0].loc, "the ranges are not recognised")
    R = listvar(src[0])
    if cutshort(src[0]) is not None or early_exits(fl, up):
        return rep.bad("group", K + "each is fetched", es[0].loc, "not every range is fetched")
    gr = [e for e in fl.events if e.kind == "call" and last(e.name) == "get_range" and e.loops == es[0].loops[:-1]]
    inits = {li.init for lv, li in fl.loops.items() if lv.a[1] == R}
    ofr = lambda t: t.op == "elem" and (listvar(t.a[0]) == R or t.a[0] in inits)
    pair = {x for e in gr for a in e.args if isinstance(a, T) for x in walk(a) if x.op == "field" and ofr(x.a[0])}
    f = {x.a[1]: x for x in pair}
    ends = {x.a[1]: x for x in walk(s.a[2]) if x.op == "field" and ofr(x.a[0])}
    f.update(ends)
    names = sorted(f)
    el = s.a[3]
    if len(names) != 2 or len(gr) != 1:
        return rep.open("group", K + "each is fetched", es[0].loc, "the ranges are not recognised: %s" % names)

    def isend(t, n):
        return t.op == "field" and t.a[1] == n and ofr(t.a[0])
    lo, hi = names
    # the test whether a place lies in the range
    try:
        bad = []
        for a, b in ((100, 100), (100, 300)):
            for v in {a, b, (a + b) // 2}:
                if not ev(ranged(s.a[2]), lambda t: a if isend(t, lo) else b if isend(t, hi) else v if t is el else True if is_more(t) else 9 if t.op == "len" else False if t.op in ("fails",) else None):
                    bad.append((v, a, b))
        rep.check(not bad, "group", K + "looked for in its range", es[0].loc, "%s is not looked for in the range %s to %s" % bad[0] if bad else "")
        # what is asked for begins with the range and does not go beyond the index
        g = gr[0]
        for a, b, end in ((100, 100, 200), (100, 300, 1 << 30), (100, 300, 320)):
            env = sat(lambda t: a if isend(t, lo) else b if isend(t, hi) else end if t is FB else None)
            at, n = ev(g.args[1], env), ev(g.args[2], env)
            rep.check(at <= a and at + n > b and at + n <= end, "group", K + "what is fetched for a range", g.loc, "%d bytes at %d for groups at %d to %d of an index that ends at %d" % (n, at, a, b, end))
    except Unknown as u:
        rep.open("group", K + "looked for in its range", es[0].loc, show(u.args[0], 4))
    covering(rep, K, fl, R, var, loc)


def sat(f):
    def env(t):
        v = f(t)
        if v is None and t.op == "call" and last(t.a[0]) == "saturating_sub":
            return max(0, ev(t.a[1][0], env) - ev(t.a[1][1], env))
        return v
    return env


def ranged(g):
    return assign(g, on)


def covering(rep, K, fl, R, var, loc):
    """by induction over the walk that groups places: what was seen lies in a range already kept or in the current one"""
    key = K + "every place lies in a range"
    pushes = [e for e in fl.events if e.kind == "mutate" and last(e.name) == "push" and listvar(e.args[0]) == R]
    loops = {l for e in pushes for l in e.loops}
    after = [e for e in pushes if not e.loops]
    if len(loops) != 1:
        return rep.open("group", key, loc, "not recognised")
    k = loops.pop()
    src = itsource(k, fl)
    lvs = {lv: li for lv, li in fl.loops.items() if li.key == k and li.next is not None}
    rl = [(lv, li) for lv, li in lvs.items() if lv.a[1] == R]
    cur = sorted([(lv.a[3] if len(lv.a) > 4 else lv.a[2], lv, li) for lv, li in lvs.items() if lv.a[1] != R and not any(x.op in ("adv",) for x in leaves(li.next)) and li.init.op in ("index", "payload", "elem", "field")], key=lambda x: str(x[0]))
    if len(src) != 1 or len(rl) != 1 or len(cur) != 2:
        return rep.open("group", key, loc, "not recognised: %d values" % len(cur))
    rl, rli = rl[0]
    (_, a, ali), (_, b, bli) = cur
    s = src[0]
    # the walk starts with the second place, the current range with the first
    sk = 0
    t = s
    if t.op == "skip":
        sk, t = t.a[1], t.a[0]
        sk = cval(sk) if is_const(sk) else None
    elif t.op == "slice":
        sk = cval(t.a[1]) if is_const(t.a[1]) else None
        t = t.a[0]
    firsts = [li.init for li in (ali, bli)]
    if listvar(t) != var or any(not (x.op == "index" and is_const(x.a[1]) and cval(x.a[1]) == 0 and listvar(x.a[0]) == var) for x in firsts):
        return rep.open("group", key, loc, "start of the walk: %s" % show(s, 3))
    if sk is None or sk > 1:
        return rep.bad("group", key, loc, "the walk leaves out %s places" % sk)
    els = {x for e in pushes for at in atoms(e.guard) for x in walk(at) if x.op == "elem"} | {x for li in (rli, ali, bli) for x in walk(li.next) if x.op == "elem"}
    els = {x for x in els if x.a[0] is s or x.a[0] is t}
    if len(els) != 1:
        return rep.open("group", key, loc, "element: %d" % len(els))
    el = els.pop()
    gaps = {cval(x) for li in (rli, ali, bli) for y in walk(li.next) if y.op == "lin" for x in [const(y.a[0])] if y.a[0]} | {1, 1 << 20}
    steps = sorted({max(1, abs(g) + d) for g in gaps for d in (-1, 0, 1)})
    try:
        for d in steps:
            env = sat(lambda t: 100 if t is a else 200 if t is b else 200 + d if t is el else True if is_more(t) else 9 if t.op == "len" else False if t.op == "fails" else None)
            na, nb = ev(assign(ali.next, on), env), ev(assign(bli.next, on), env)
            n = assign(rli.next, on)
            while n.op == "sw":
                v = ev(n.a[0], env)
                n = next((c for q, c in n.a[1] if q == v and type(q) is type(v)), n.a[2])
                if n is None:
                    raise Unknown(rli.next)
            kept = (na <= 100 and nb >= 200)
            if n.op == "push" and n.a[0] is rl and n.a[1].op == "agg":
                x, y = (ev(z, env) for z in n.a[1].a[4:6])
                kept = kept or x <= 100 and y >= 200
            elif n is not rl:
                raise Unknown(n)
            if not kept:
                return rep.bad("group", key, loc, "a range is given up when the next place is %d further" % d)
            if not na <= 200 + d <= nb:
                return rep.bad("group", key, loc, "a place %d behind the current range is in no range" % d)
    except Unknown as u:
        return rep.open("group", key, loc, show(u.args[0], 4))
    fin = [e for e in after if fill(some_len(e.guard)) is TRUE and e.args[1].op == "agg" and tuple(e.args[1].a[4:6]) == (a, b)]
    if not fin:
        return (rep.open if after else rep.bad)("group", key, loc, "the last range is not kept")
    rep.ok("group", key, loc)


def returned(rep, K, fl, ret, gives, loc):
    """nothing is taken away from the results"""
    key = K + "all of them are returned"
    names = {listvar(e.args[0]) for e, g, c in gives}
    bad = []
    for v in leaves(okpart(ret)):
        if v.op in ("empty", "undef"):
            continue
        if cutshort(v) is not None:
            rep.bad("group", key, loc, "only %s" % show(cutshort(v), 3))
            return
        if listvar(v) not in names:
            bad.append(v)
    if bad:
        rep.open("group", key, loc, show(bad[0], 4))
    else:
        rep.ok("group", key, loc)
    for e in fl.events:
        if e.kind == "mutate" and last(e.name) in ("truncate", "clear", "retain", "drain", "pop", "remove", "swap_remove", "split_off") and listvar(e.args[0]) in names:
            rep.bad("group", key, e.loc, "%s takes away from the results" % last(e.name))


# ------------------------------------------------------------------ one group
@rule("H01")
def single(cx):
    rep = cx.rep
    fn = cx.one("stree::read_http_payload_data")
    fl, ret = cx.flow(fn, opaque=("PayloadEntry::deserialize",))
    loc = fn.loc()
    K = "read_http_payload_data: "
    off = [p for p in params(fn) if p.a[0] == "offset"]
    dec = [c for c in {x for v in leaves(ret) for x in walk(v) if x.op == "call" and last(x.a[0]) == "deserialize"}]
    if len(off) != 1 or len(dec) != 1:
        return rep.open("single", K + "the group", loc, "not recognised")
    off = off[0]
    c = dec[0].a[1][0]
    b = c.a[1][0] if c.op == "call" and last(c.a[0]) == "new" else c
    at = bytesat(b)
    if at is None:
        return rep.open("single", K + "the group", loc, show(b, 4))
    rep.check(at is off, "single", K + "from its place", loc, "the group is read at %s" % show(at, 4))
    n = None
    x = b
    while x.op != "call" or last(x.a[0]) != "get_range":
        if x.op in ("payload", "slice"):
            x = x.a[0]
        elif x.op == "call" and x.a[1]:
            x = x.a[1][0]
        else:
            break
    if x.op == "call" and last(x.a[0]) == "get_range":
        n = x.a[1][2]
    if n is None:
        return rep.open("single", K + "all of it", loc)
    cnt = [y for y in walk(n) if y.op == "dec" or y.op == "call" and "read_u" in str(y.a[0])]
    short = not cnt and not [y for y in walk(n) if y.op in ("call", "payload")]
    if short:
        return rep.bad("single", K + "all of it", loc, "%s bytes are fetched for a group of any size" % show(n, 3))
    if len(set(cnt)) != 1:
        return rep.open("single", K + "all of it", loc, show(n, 4))
    cnt = cnt[0]
    try:
        for m in (1, 2, 3, 1000):
            got = ev(n, lambda t: m if t is cnt else None)
            if got < 4 + 8 * m:
                rep.bad("single", K + "all of it", loc, "%d bytes are fetched for a group of %d" % (got, m))
                break
        else:
            rep.ok("single", K + "all of it", loc)
    except Unknown as u:
        rep.open("single", K + "all of it", loc, show(u.args[0], 4))
    # the number stands at the beginning of the group, in four bytes
    if cnt.op == "dec":
        rep.check(cnt.a[0] == "u32" and cnt.a[1] == "le", "single", K + "number of members", loc, "read as %s %s" % cnt.a[:2])
        r = [y for y in walk(cnt) if y.op == "call" and last(y.a[0]) == "get_range"]
        if r:
            rep.check(all(y.a[1][1] is off for y in r), "single", K + "number of members: place", loc, "read at %s" % show(r[0].a[1][1], 3))
    got = okpart(ret)
    vals = [v for v in leaves(got) if v.op != "undef"]
    rep.check(True, "single", K + "returned", loc, "") if all(group(v) is not None for v in vals) else rep.open("single", K + "returned", loc, show(vals[0], 4) if vals else "nothing")


# ------------------------------------------------------------------ the groups fetched in advance
def updated(t, name):
    """a field of an updated struct"""
    while t.op == "with":
        if t.a[1] == name:
            return t.a[2]
        t = t.a[0]
    if t.op == "agg" and name in t.a[3]:
        return dict(zip(t.a[3], t.a[4:]))[name]
    return None


def fieldsof(a):
    def f(x):
        if x.op == "field" and x.a[1] in a:
            return a[x.a[1]]
        if x.op == "len" and x.a[0].op == "field" and x.a[0].a[1] == "data":
            return a["len"]
        if x.op == "call" and last(x.a[0]) == "is_empty":
            return a["len"] == 0
        if x.op == "param" and x.a[0] in a:
            return a[x.a[0]]
        if x.op == "fails":
            return False
        return None
    return f


@rule("H01")
def cached(cx):
    rep = cx.rep
    K = "PayloadCache: "
    fn = cx.one("PayloadCache::update")
    fu, _ = cx.flow(fn)
    ps = {x.a[0]: x for x in params(fn)}
    st = [v for k, v in fu.state.items() if isinstance(k, tuple) and k[0] == "cell" and k[1] is ps.get("self")]
    if len(st) != 1 or len(ps) != 3:
        return rep.open("cache", K + "update", fn.loc(), "not recognised")
    data, start, end = (updated(st[0], k) for k in ("data", "start_offset", "end_offset"))
    if data is None or start is None or end is None:
        return rep.open("cache", K + "update: fields", fn.loc(), show(st[0], 5))
    # what holds of a filled cache: where its bytes come from, and how many there are
    pd = [x for x in ps.values() if x is uncast(data)]
    at = [x for n, x in ps.items() if n != "self" and x not in pd]
    if len(pd) != 1 or len(at) != 1:
        return rep.open("cache", K + "update: data", fn.loc(), show(data, 4))
    try:
        def env(n):
            return lambda x: 1000 if x is at[0] else 2 * n if x.op == "call" and last(x.a[0]) == "capacity" else n if x.op == "len" and x.a[0] is pd[0] else (n if x.op == "len" and x.a[0].op == "field" and x.a[0].a[1] == "data" else None)
        n = 50
        rep.check(ev(start, env(n)) == 1000, "cache", K + "update: first byte", fn.loc(), "bytes from 1000 on are kept as bytes from %d on" % ev(start, env(n)))
        rep.check(ev(end, env(n)) <= 1050, "cache", K + "update: last byte", fn.loc(), "%d bytes from 1000 on are taken for bytes up to %d" % (n, ev(end, env(n))))
        ends = ev(end, env(n))
    except Unknown as u:
        return rep.open("cache", K + "update: extent", fn.loc(), show(u.args[0], 4))
    fn = cx.one("PayloadCache::contains")
    fl, has = cx.flow(fn)
    wrong = None
    try:
        for o in range(985, 1066):
            h = ev(has, fieldsof({"len": n, "start_offset": 1000, "end_offset": ends, "offset": o}))
            if h and not 1000 <= o < 1050:
                wrong = o
        rep.check(wrong is None, "cache", K + "contains", fn.loc(), "%s is found among the bytes 1000 to 1050" % wrong)
        h = ev(has, fieldsof({"len": 0, "start_offset": 0, "end_offset": 0, "offset": 0}))
        rep.check(not h, "cache", K + "contains: empty", fn.loc(), "0 is found in an empty cache")
    except Unknown as u:
        rep.open("cache", K + "contains", fn.loc(), show(u.args[0], 4))
    fn = cx.one("PayloadCache::get_entry")
    fg, ent = cx.flow(fn, opaque=("PayloadEntry::deserialize",))
    c = [e for e in fg.events if e.kind == "call" and last(e.name) == "deserialize"]
    off = [x for x in params(fn) if x.a[0] != "self"]
    if len(c) != 1 or len(off) != 1:
        return rep.open("cache", K + "get_entry", fn.loc(), "the group is not read at one place")
    b = c[0].args[0]
    b = b.a[1][0] if b.op == "call" and last(b.a[0]) == "new" else b
    if b.op == "payload" and b.a[0].op == "call" and last(b.a[0].a[0]) in ("get", "ok_or", "ok_or_else"):
        while b.op == "payload" or b.op == "call" and last(b.a[0]) in ("ok_or", "ok_or_else"):
            b = b.a[0] if b.op == "payload" else b.a[1][0]
        r = b.a[1][1] if b.op == "call" and last(b.a[0]) == "get" else None
        f = dict(zip(r.a[3], r.a[4:])) if r is not None and r.op == "agg" else {}
        base, a = (b.a[1][0], f.get("start")) if f else (None, None)
    elif b.op == "slice":
        base, a = b.a[0], b.a[1]
    else:
        base = a = None
    if a is None or not (base.op == "field" and base.a[1] == "data"):
        rep.open("cache", K + "get_entry: from", fn.loc(), show(b, 4))
    else:
        try:
            got = [ev(a, fieldsof({"len": n, "start_offset": 1000, "end_offset": ends, "offset": o})) for o in (1000, 1007, 1049)]
            rep.check(got == [0, 7, 49], "cache", K + "get_entry: from", fn.loc(), "the groups at bytes 0, 7 and 49 are read from bytes %s" % got)
        except Unknown as u:
            rep.open("cache", K + "get_entry: from", fn.loc(), show(u.args[0], 4))
    vals = [v for v in leaves(ent) if v.op == "agg" and v.a[2] == "Ok"]
    if not vals or any(group(v.a[4]) is None and not any(x is c[0].ret for x in walk(v)) for v in vals):
        rep.open("cache", K + "get_entry: returned", fn.loc(), show(vals[0], 4) if vals else "nothing")
    else:
        rep.ok("cache", K + "get_entry: returned", fn.loc())
    fn = cx.one("stree::prefetch_payload")
    fl, ret = cx.flow(fn, opaque=("PayloadCache::update", "PayloadCache::new"))
    for e in fl.events:
        if e.kind == "call" and e.name.endswith("PayloadCache::update"):
            a = bytesat(e.args[2])
            if a is None:
                rep.open("cache", "prefetch_payload: place of the bytes", e.loc, show(e.args[2], 4))
            else:
                rep.check(sub(a, e.args[1]) is const(0), "cache", "prefetch_payload: place of the bytes", e.loc, "bytes from %s on are kept as bytes from %s on" % (show(a, 3), show(e.args[1], 3)))


# ------------------------------------------------------------------ what the searches hand on
@rule("H01")
def handed(cx):
    """the searches take references relative to the end of the tree, and features relative to their first byte"""
    rep = cx.rep
    for nm in ("http_stream_find_exact", "http_stream_find_range"):
        fn = cx.one("Stree::" + nm)
        fl, ret = cx.flow(fn, opaque=("batch_resolve_payloads", "prefetch_payload", "read_http_node_items", "compute_payload_prefetch_size", "generate_level_bounds"))
        got = {}
        for e in fl.events:
            if e.kind == "call" and last(e.name) in ("batch_resolve_payloads", "prefetch_payload"):
                got.setdefault(last(e.name), []).append(e)
        if not got.get("batch_resolve_payloads"):
            rep.open("handed", nm + ": groups", fn.loc(), "not recognised")
            continue
        for e in got["batch_resolve_payloads"]:
            names = [p.a[0] for p in params(cx.one("stree::batch_resolve_payloads"))]
            a = dict(zip(names, e.args))
            S, FB = a.get("payload_section_start"), a.get("feature_begin")
            placed(rep, nm + ": groups", S, lambda sh: BASE + SIZE * sh.total, "the groups of a tree of %d entries", e.loc)
            placed(rep, nm + ": features", FB, lambda sh: BASE << 1, "the features", e.loc)
        for e in got.get("prefetch_payload", []):
            names = [p.a[0] for p in params(cx.one("stree::prefetch_payload"))]
            a = dict(zip(names, e.args))
            P, n = a.get("payload_section_start"), a.get("chunk_size")
            try:
                for sh in SHAPES[:3]:
                    pl = Place(sh, 0, sh.levels[0][0], ("=", 0))
                    begin = ev(P, pl.env)
                    end = BASE + SIZE * sh.total + 100

                    def env(x):
                        if x.op == "param" and x.a[0] == "feature_begin":
                            return end
                        if x.op in ("clamp", "cast") or x.op == "call" and last(x.a[0]) in ("compute_payload_prefetch_size", "clamp"):
                            return 1 << 22
                        if x.op == "call" and last(x.a[0]) == "saturating_sub":
                            return max(0, ev(x.a[1][0], env) - ev(x.a[1][1], env))
                        return pl.env(x)
                    k = ev(n, env)
                    if begin + k > end:
                        rep.bad("handed", nm + ": bytes fetched in advance", e.loc, "%d bytes are fetched, 100 bytes before the features; they may be more than the file has" % k)
                        break
                else:
                    rep.ok("handed", nm + ": bytes fetched in advance", e.loc)
            except (Unknown, TypeError) as u:
                rep.open("handed", nm + ": bytes fetched in advance", e.loc, show(u.args[0], 4) if isinstance(u, Unknown) else str(u))
    # the places an index is opened with reach the search
    new = cx.one("HttpIndex::new")
    fl, ret = cx.flow(new)
    place = {0: "num_items", 1: "branching_factor", 2: "index_begin", 3: "feature_begin"}
    role = {}
    if ret.op == "agg":
        ps = params(new)
        for f, v in zip(ret.a[3], ret.a[4:]):
            for i, p in enumerate(ps):
                if uncast(v) is p:
                    role[f] = place.get(i)
    for nm in ("find_exact", "find_range"):
        fn = cx.one("HttpIndex::" + nm)
        fl, _ = cx.flow(fn, opaque=("Stree::http_stream_find_exact", "Stree::http_stream_find_range"))
        calls = [e for e in fl.events if e.kind == "call" and "http_stream_find" in e.name]
        if not calls:
            rep.open("handed", "HttpIndex::%s: search" % nm, fn.loc(), "not recognised")
        for e in calls:
            names = [p.a[0] for p in params(cx.one("Stree::" + last(e.name)))]
            for p, a in zip(names, e.args):
                if p not in place.values():
                    continue
                a = uncast(a)
                if a.op == "field" and role.get(a.a[1]):
                    rep.check(role[a.a[1]] == p, "handed", "HttpIndex::%s: %s" % (nm, p), e.loc, "%s is searched with %s for its %s" % (last(e.name), a.a[1], p))
                else:
                    rep.open("handed", "HttpIndex::%s: %s" % (nm, p), e.loc, show(a, 3))


def placed(rep, key, t, want, what, loc):
    if t is None:
        return rep.open("handed", key, loc, "not recognised")
    for sh in SHAPES:
        try:
            v = ev(t, Place(sh, 0, sh.levels[0][0], ("=", 0)).env)
        except Unknown as u:
            return rep.open("handed", key, loc, show(u.args[0], 4))
        if v != want(sh):
            what = what % sh.total if "%" in what else what
            return rep.bad("handed", key, loc, "%s begin at %d, they are looked for at %d (the tree begins at %d)" % (what, want(sh), v, BASE))
    rep.ok("handed", key, loc)


# ------------------------------------------------------------------ what is found is what is asked for
@rule("H01")
def requested(cx):
    rep = cx.rep
    for fn in cx.w.find("select_attr_query", required=False):
        if "http_reader" not in fn.path:
            continue
        fl, ret = cx.flow(fn, opaque=("HttpMultiIndex::query", "build_query"))
        K = "HttpFcbReader::select_attr_query: "
        sel = {e.ret: e for e in fl.events if e.kind == "agg" and any(x.op == "agg" and str(x.a[0]).endswith("SelectAttr") for x in e.args[:1])}
        got = {}
        for e in sel.values():
            x = e.args[0]
            f = dict(zip(x.a[3], x.a[4:]))
            if "ranges" in f:
                got[f["ranges"]] = (e, f)
        if not got:
            rep.open("request", K + "features", fn.loc(), "not recognised")
        for t, (e, f) in got.items():
            asked(rep, K, t, e.loc, fl)
            p = f.get("range_pos")
            if p is not None and p.op == "const":
                rep.check(p is const(0), "request", K + "first", e.loc, "requests begin with number %s" % show(p))


def asked(rep, K, t, loc, fl):
    more = lambda x: True if is_more(x) or x.op in ("more",) else None
    for _ in range(12):
        li = pushlv(t, fl)
        if li is not None:
            # filled by a loop
            src = itsource(li.key, fl)
            if len(src) != 1 or li.init.op not in ("empty",):
                return rep.open("request", K + "all", loc, show(t, 3))
            early = early_exits(fl, li.key)
            if early:
                return rep.bad("request", K + "all", loc, "may end early: %s" % show(early[0][1], 4))
            g = assign(mapleaf(li.next, lambda l: TRUE if l.op == "push" else FALSE), on)
            if g is not TRUE:
                kept(rep, K, t, g, loc)
            places(rep, K, mapleaf(li.next, lambda l: l.a[1] if l.op == "push" else mk("undef")), loc)
            t = src[0]
        elif t.op in ("skip", "take", "slice", "trunc"):
            return rep.bad("request", K + "all", loc, "some of what is found is left out: %s" % show(t, 2))
        elif t.op == "seq":
            g = assign(t.a[2], more) if t.a[2] is not TRUE else TRUE
            if g is not TRUE:
                kept(rep, K, t, g, loc)
            places(rep, K, t.a[3], loc)
            t = t.a[0]
        elif t.op in ("sorted", "dedup", "rev", "enum", "plain"):
            t = t.a[0]
        else:
            break
    if t.op == "payload" and t.a[1] == "Ok" and t.a[0].op == "call" and last(t.a[0].a[0]) == "query":
        rep.ok("request", K + "all", loc)
    else:
        rep.open("request", K + "all", loc, show(t, 4))


def places(rep, K, body, loc):
    """what is asked for begins where what was found begins"""
    wrong = unknown = None
    for kind in (0, 1):
        def side(x):
            if x.op == "discr" and x.a[0].op == "field" and x.a[0].a[1] == "range":
                return kind
            return on(x)

        def env(x):
            if x.op == "field" and x.a[1] in ("start", "end") and x.a[0].op == "payload" and x.a[0].a[1] in ("Range", "RangeFrom"):
                return {"start": 100, "end": 150}[x.a[1]]
            return side(x)
        env = sat(env)
        for v in leaves(assign(body, side)):
            if v.op in ("undef", "elem", "field", "payload"):
                continue
            r = [y for y in walk(v) if y.op == "agg" and last(y.a[0]) in ("Range", "RangeFrom") and "start" in y.a[3]]
            inner = [y for y in v.a[4:] if isinstance(y, T)] if v.op == "agg" else []
            if not r:
                if len(inner) == 1 and inner[0].op == "payload" and inner[0].a[1] in ("Range", "RangeFrom"):
                    continue
                unknown = v
                continue
            s = dict(zip(r[0].a[3], r[0].a[4:]))["start"]
            try:
                n = ev(s, env)
                if n != 100:
                    wrong = "the feature at 100 is asked for at %d" % n
            except Unknown as u:
                unknown = u.args[0]
    if wrong:
        rep.bad("request", K + "place", loc, wrong)
    elif unknown is not None:
        rep.open("request", K + "place", loc, show(unknown, 4))
    else:
        rep.ok("request", K + "place", loc)


def kept(rep, K, t, g, loc):
    """a filter on what was found"""
    on_what = [x for x in walk(g) if x.op == "elem"]
    if g is FALSE:
        rep.bad("request", K + "all", loc, "nothing of what is found is asked for")
    elif on_what:
        rep.bad("request", K + "all", loc, "some of what is found is not asked for: only where %s" % show(g, 3))
    else:
        rep.open("request", K + "all", loc, show(g, 4))


def last2(p):
    return "::".join(p.split("::")[-2:])


@rule("H01")
def cut(cx):
    """fewer bytes than asked for never pass for a shorter list"""
    rep = cx.rep
    from .iterate import taken, variant
    asks = {f.path.split("::{")[0] for f in cx.w.user_fns(("fcb_core",)) for b, c, t in f.calls() if c and last(strip_generics(c["p"])) == "get_range"}
    for fn in [cx.w.fns[p] for p in sorted(asks) if p in cx.w.fns and "tree" in p]:
        fl, ret = cx.flow(fn, opaque=OP)
        gets = [e for e in fl.events if e.kind == "call" and last(e.name) == "get_range" and "AsyncBuffered" in e.name]
        if len(gets) != 1:
            continue
        e = gets[0]

        def bytesof(b):
            while b.op == "payload" or b.op == "call" and last(b.a[0]) in ("as_ref", "deref", "to_vec", "clone", "as_slice", "freeze") and b.a[1]:
                b = b.a[0] if b.op == "payload" else b.a[1][0]
            return b
        whole = {x for v in [ret] + [y for li in fl.loops.values() for y in (li.init, li.next) if y is not None] for x in walk(v)
                 if x.op == "call" and last(x.a[0]) in ("chunks", "chunks_exact") and bytesof(x.a[1][0]) is e.ret}
        if not whole:
            continue
        key = last2(fn.path) + ": cut short"

        def envof(n):
            def env(x):
                if x.op == "len" or x.op == "call" and last(x.a[0]) == "len":
                    y = x.a[0] if x.op == "len" else x.a[1][0]
                    return n if bytesof(y) is e.ret else 3
                if x.op == "call" and last(x.a[0]) == "is_empty" and bytesof(x.a[1][0]) is e.ret:
                    return n == 0
                if x.op in ("kconst", "tconst"):
                    return 24
                if x.op == "param":
                    return 100
                if x.op == "field" and x.a[1] in ("start", "end"):
                    return 5 if x.a[1] == "start" else 8
                if x.op == "discr" and x.a[0] is e.ret:
                    return 0
                if x.op in ("fails",):
                    return False
                if x.op in ("iook", "allok"):
                    return True
                return None
            return env
        try:
            want = ev(e.args[2], envof(1 << 20))
            got = [n for n in (0, want // 3, want // 3 * 2) if variant(taken(ret, envof(n))) != "Err"]
            rep.check(not got, "cut", key, e.loc, "%s of %d bytes come back, and no error is reported" % (got, want))
            rep.check(variant(taken(ret, envof(want))) != "Err", "cut", key + ", whole", e.loc, "all the bytes come back, and it is an error")
        except Unknown as u:
            rep.open("cut", key, e.loc, show(u.args[0], 4))
    rep.floor("cut", 2)
