"""V07 inside the recursive encoders and the nested decoders: the reserved marker, the levels counts are
stored at, and the cursors that consume them."""
from term import *
from util import under, lin_parts, early_exits, is_more, itsource, leaves, mapleaf, NOT
from . import rule, params

MARK = 2 ** 32 - 1
ORDER = ["solids", "shells", "surfaces", "strings"]
DATA = ("indices", "vertices")
ENCODERS = ("encode_boundaries", "encode_texture_values", "encode_semantics_values", "encode_material")
DECODERS = ("decode", "decode_semantics", "decode_semantics_", "decode_materials", "decode_textures")


def uncast(t):
    while t.op == "cast":
        t = t.a[2]
    return t


def at(t, x, n, extra=None):
    """value of t where the number x is n"""
    def f(a):
        if extra is not None:
            r = extra(a)
            if r is not None:
                return r
        if uncast(a) is x:
            return n
        if a.op == "cmp":
            l, r = uncast(a.a[0]), uncast(a.a[1])
            if l is x and is_const(r):
                return (n > cval(r)) - (n < cval(r))
            if r is x and is_const(l):
                return (cval(l) > n) - (cval(l) < n)
        return None
    return assign(t, f)


def lvs(t):
    return [l for l in leaves(t) if l is not UNDEF]


def seqs(fl):
    out, seen = [], set()
    for e in fl.events:
        if e.kind in ("mutate", "agg", "call"):
            for a in e.args:
                for x in walk(a):
                    if x.op == "seq" and x not in seen:
                        seen.add(x)
                        out.append((x, e))
    return out


def fns(cx, names):
    for n in names:
        fs = [f for f in cx.w.user_fns(("fcb_core",)) if f.name == n and not f.is_closure()]
        if len(fs) == 1:
            yield n, fs[0]
        else:
            cx.rep.open("V07.marker", n, "", "no single function of this name")


def feasible(v, g):
    """v where the guard g holds, unset elsewhere"""
    return ite(g, under(v, g), UNDEF)


def divided(v, g):
    """a condition, free under the guard, that decides between absent and present"""
    ga = set(atoms(g))
    for x in walk(v):
        if x.op == "sw" and x.a[0] not in ga:
            kids = [c for _, c in x.a[1]] + ([x.a[2]] if x.a[2] is not None else [])
            sets = [frozenset(l.a[2] for l in leaves(k) if l.op == "agg") for k in kids]
            if all(s and len(s) == 1 for s in sets) and len(set(sets)) > 1 and not any(l is UNDEF for k in kids for l in leaves(k)):
                return x.a[0]
    return None


# ------------------------------------------------------------------ marker
def encodes(body, e):
    """(value stored for an absent reference, value stored for a present one)"""
    def more(a):
        return True if a.op == "more" else None
    d = mk("discr", e)
    out = []
    for n in (0, 1):
        v = assign(body, lambda a: n if a is d else more(a))
        out.append(v)
    return out


@rule("V07")
def marker(cx):
    R = cx.rep
    opq = set(ENCODERS) | set(DECODERS) | {"decode_semantics_surfaces"}
    for n, f in fns(cx, ENCODERS):
        fl, _ = cx.flow(f, opaque=opq - {n})
        k = 0
        for x, ev in seqs(fl):
            src, key, cond, body = x.a[:4]
            e = mk("elem", src, key)
            d = mk("discr", e)
            if not any(a is d for a in atoms(body)) and d not in set(walk(body)):
                continue
            k += 1
            name = "%s #%d" % (n, k)
            body = under(body, ev.guard)
            absent, present = encodes(body, e)
            pv = uncast(present) if present.op != "sw" else present
            if absent.op == "sw" or present.op == "sw":
                R.open("V07.marker", name, ev.loc, show(body)[:200])
            elif is_const(absent) and pv.op == "payload" and pv.a[0] is e:
                R.check(cval(absent) == MARK, "V07.marker", name, ev.loc, "an absent reference is stored as %s, which is also a valid index" % cval(absent))
                R.check(cond is TRUE, "V07.marker", name + " all", ev.loc, "some references are left out: %s" % show(cond)[:120])
            elif is_const(absent) or pv.op == "payload":
                R.bad("V07.marker", name, ev.loc, "absent is stored as %s and present as %s" % (show(absent)[:80], show(present)[:80]))
            else:
                R.open("V07.marker", name, ev.loc, show(body)[:200])
    for n, f in fns(cx, DECODERS):
        if n == "decode":
            continue
        fl, _ = cx.flow(f, opaque=opq - {n})
        k = 0
        sites = [(feasible(ev.args[1], ev.guard), ev) for ev in fl.events if ev.kind == "mutate" and ev.name.endswith("push") and len(ev.args) == 2]
        sites += [(feasible(x.a[3], ev.guard), ev) for x, ev in seqs(fl)]
        done = set()
        for v, ev in sites:
            v = assign(v, lambda a: True if a.op == "more" else None)
            ls = lvs(v)
            if not ls or not all(l.op == "agg" and l.a[0].endswith("Option") for l in ls):
                continue
            if v in done:
                continue
            done.add(v)
            k += 1
            name = "%s #%d" % (n, k)
            somes = {uncast(l.a[4]) for l in ls if l.a[2] == "Some"}
            # the number read from the table: the one compared, or the one wrapped
            xs = set()
            for s in somes:
                xs |= set(lvs(s)) if s.op == "sw" else {s}
            xs = {uncast(y) for y in xs}
            xs |= {uncast(a) for a in atoms(v) if a.op in ("index", "elem")}
            xs |= {uncast(b) for a in atoms(v) if a.op == "cmp" for b in a.a[:2] if uncast(b).op in ("index", "elem")}
            if len(xs) != 1 or next(iter(xs)).op not in ("index", "elem"):
                R.open("V07.marker", name, ev.loc, show(v)[:200])
                continue
            x = xs.pop()
            consts = {0, 1, MARK - 1} | {c for a in atoms(v) if a is x for c in keys(v, a)} | {
                cval(b) + o for a in atoms(v) if a.op == "cmp" for b in a.a[:2] if is_const(b) and isinstance(cval(b), int) for o in (-1, 0, 1)}
            verdict = "ok"
            for c in sorted(c for c in consts if isinstance(c, int) and 0 <= c <= MARK) + [MARK]:
                rs = lvs(at(v, x, c))
                if not rs:
                    continue
                r = rs[0]
                split = divided(at(v, x, c), ev.guard)
                if split is not None:
                    verdict = "bad"
                    R.bad("V07.marker", name, ev.loc, "whether the stored %s is read back as absent depends on %s" % ("marker" if c == MARK else c, show(split)[:120]))
                    break
                if len(rs) > 1 and len({(y.a[2], uncast(y.a[4]) if y.a[2] == "Some" else None) for y in rs}) > 1:
                    verdict = "open"
                    break
                if (r.a[2] == "None") != (c == MARK):
                    verdict = "bad"
                    R.bad("V07.marker", name, ev.loc, "the stored %s is read back as %s" % ("marker" if c == MARK else c, "absent" if r.a[2] == "None" else "a reference"))
                    break
                if r.a[2] == "Some" and uncast(r.a[4]) is not x and not (is_const(uncast(r.a[4])) and cval(uncast(r.a[4])) == c):
                    verdict = "bad"
                    R.bad("V07.marker", name, ev.loc, "a stored reference is read back as %s" % show(r.a[4])[:80])
                    break
            if verdict == "ok":
                R.ok("V07.marker", name, ev.loc)
            elif verdict == "open":
                R.open("V07.marker", name, ev.loc, show(v)[:200])
    R.floor("V07.marker", 10)


def keys(t, a):
    out = set()
    for x in walk(t):
        if x.op == "sw" and x.a[0] is a:
            out |= {k for k, _ in x.a[1] if isinstance(k, int)}
    return out


# ------------------------------------------------------------------ levels of the recursive encoders
@rule("V07")
def levels(cx):
    R = cx.rep
    opq = set(ENCODERS)
    for n, f in fns(cx, ("encode_boundaries", "encode_texture_values")):
        fl, ret = cx.flow(f, opaque=opq - {n})
        src = params(f)[0]
        d = mk("discr", src)
        deep = [(lv, L) for lv, L in fl.loops.items() if L.next is not None and any(x.op == "call" and x.a[0].endswith(n) for x in walk(L.next))
                and is_const(L.init)]
        if len({lv for lv, _ in deep}) != 1:
            R.open("V07.levels", n + ": depth", "", "the depth of the nesting is computed in a way not recognised")
            continue
        lv, L = deep[0]
        nx = L.next
        rec = [x for x in walk(nx) if x.op == "call" and x.a[0].endswith(n)]
        good = is_const(L.init) and cval(L.init) == 0 and len(set(rec)) == 1 and (
            nx is rec[0] or nx.op in ("max", "call") and {lv, rec[0]} <= set(walk(nx)) or
            nx.op == "sw" and all(l in (lv, rec[0]) for l in leaves(nx)))
        (R.ok if good else R.open)("V07.levels", n + ": depth", "", "" if good else show(nx)[:200])
        # the depth returned
        leafd = assign(ret, lambda a: 0 if a is d else None)
        nest = assign(ret, lambda a: 1 if a is d else None)
        if is_const(leafd) and nest.op in ("lin", "lv", "const", "cast"):
            off = sub(nest, lv)
            one = is_const(off)
            R.check(one and cval(off) == 1 and cval(leafd) == 1, "V07.levels", n + ": returned depth", "",
                    "a list returns %s, a nested one %s" % (show(leafd), show(nest)[:80]))
        else:
            R.open("V07.levels", n + ": returned depth", "", show(ret)[:200])
        want = {"strings": {(0, None)}, "surfaces": {(1, 1)}, "shells": {(1, 2)}, "solids": {(1, 3)}}
        got, vals = {}, {}
        for e in fl.events:
            if e.kind != "mutate" or len(e.args) != 2 or e.args[0].op != "field":
                continue
            slot = e.args[0].a[1]
            if e.name.endswith("push") and slot in want:
                for case in ((0, None), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4)):
                    g = at(e.guard, lv, case[1] if case[1] is not None else 0, lambda a: case[0] if a is d else None)
                    if g is not FALSE:
                        got.setdefault(slot, set()).add(case if g is TRUE else ("?", show(g)[:80]))
                vals.setdefault(slot, []).append((uncast(under(e.args[1], e.guard)), e))
            elif slot in DATA:
                v = e.args[1]
                base = v.a[0] if v.op == "seq" else v
                leaf = base.op == "payload" and base.a[0] is src and base.a[1] == "Indices"
                (R.ok if leaf else R.open)("V07.levels", "%s: %s" % (n, slot), e.loc, show(v)[:120])
                g = assign(e.guard, lambda a: 0 if a is d else None)
                R.check(g is TRUE, "V07.levels", "%s: %s guard" % (n, slot), e.loc, "the indices of a list are stored only when %s" % show(g)[:120])
        for slot, w in want.items():
            g = got.get(slot)
            if g is None:
                R.open("V07.levels", "%s: %s" % (n, slot), "", "nothing is pushed to this level")
            elif any(c[0] == "?" for c in g):
                R.open("V07.levels", "%s: %s" % (n, slot), "", str(g)[:200])
            else:
                R.check(g == w, "V07.levels", "%s: %s" % (n, slot), vals[slot][0][1].loc,
                        "pushed at (variant, depth of children) %s instead of %s" % (sorted(g, key=str), sorted(w, key=str)))
            for v, e in vals.get(slot, []):
                if v.op == "len":
                    y = v.a[0]
                    R.check(y.op == "payload" and y.a[0] is src, "V07.levels", "%s: %s count" % (n, slot), e.loc, "the count stored is %s" % show(v)[:80])
                else:
                    c, dd = lin_parts(v)
                    ln = [k for k in dd if k.op == "len" and k.a[0].op == "payload" and k.a[0].a[0] is src]
                    if ln and len(dd) == 1:
                        R.bad("V07.levels", "%s: %s count" % (n, slot), e.loc, "the count stored is %s" % show(v)[:80])
                    else:
                        R.open("V07.levels", "%s: %s count" % (n, slot), e.loc, show(v)[:120])


# ------------------------------------------------------------------ cursors of the nested decoders
def table(P):
    """name of the table a value is read from"""
    if P.op == "param":
        return P.a[0]
    while P.op in ("payload", "seq", "field"):
        if P.op == "field" and P.a[1] in ORDER + list(DATA):
            return P.a[1]
        P = P.a[0]
    if P.op == "call":
        return P.a[0].rsplit("::", 1)[-1]
    return None


def count(t):
    """(table, position) a count is read from; position None for each in turn"""
    t = uncast(t)
    if t.op == "elem":
        return table(t.a[0]), None
    if t.op == "index":
        return table(t.a[0]), t.a[1]
    return None


def clean(t, g):
    t = assign(under(t, g), lambda a: True if a.op == "more" else None)
    ls = {l for l in lvs(t) if not (l.op == "empty" or l.op in ("index", "elem", "cast") and any(x.op == "empty" for x in walk(l)))}
    return ls.pop() if len(ls) == 1 else None


def bound(fl, key, g):
    """('all', table) or ('count', table, position) of the loop"""
    seen = set()
    for lv, L in fl.loops.items():
        if L.key != key or L.next is None or L.next.op != "adv":
            continue
        b = clean(L.init, g)
        if b is None:
            continue
        if b.op == "agg" and b.a[0].endswith("Range"):
            fs = agg_fields(b)
            e = clean(fs["end"], g)
            if e is None:
                continue
            c = count(e)
            if c is None or c[0] is None or not (is_const(fs["start"]) and cval(fs["start"]) == 0):
                return None
            seen.add(("count",) + c)
        elif table(b):
            seen.add(("all", table(b), None))
        else:
            return None
    # the same loop met under several outer states: positions differ in their initial values only
    if not seen or len({s[:2] for s in seen}) != 1:
        return None
    return max(seen, key=lambda s: 0 if s[2] is None else sum(1 for _ in walk(s[2])))


def chain(K):
    """loops a cursor runs through, outermost first, and its start"""
    ks = []
    while K.op == "lv":
        ks.append(K.a[0])
        K = K.a[-1]
    return tuple(reversed(ks)), K


PARTS = ("value", "values", "vertices")


@rule("V07")
def each_theme(cx):
    """every theme of a geometry's appearance that has something to say gets its mapping, and back"""
    import itertools
    R = cx.rep
    for n, f in fns(cx, ("encode_material", "encode_texture", "decode_materials", "decode_textures")):
        fl, ret = cx.flow(f, opaque=("encode_texture_values", "encode_material_values"))
        out = [x for x in lvs(ret) if x.op == "lv"] + [l.a[4] for l in lvs(ret) if l.op == "agg" and l.a[2] == "Some"]
        out = {x for l in out for x in ([l] if l.op != "sw" else lvs(l)) if x.op == "lv" and x in fl.loops and fl.loops[x].next is not None}
        if len(out) != 1:
            R.open("V07.theme", n, f.loc(), "the result is not recognised")
            continue
        lv = out.pop()
        li = fl.loops[lv]
        same = mapleaf(li.next, lambda l: TRUE if l is lv else FALSE)

        def part(a):
            x = a.a[0] if a.op == "discr" else None
            if x is None:
                return None
            name = x.a[1] if x.op == "field" else x.a[0].rsplit("::", 1)[-1] if x.op == "call" else None
            return name if name in PARTS else None
        names = sorted({part(a) for a in atoms(same) if part(a)})
        bad = unk = None
        for k in range(1, len(names) + 1) if names else (0,):
            for some in itertools.combinations(names, k):
                def there(a):
                    if is_more(a):
                        return True
                    if a.op == "fails":
                        return False
                    if part(a):
                        return 1 if part(a) in some else 0
                    if a.op == "len":
                        return ("other",)
                    if a.op == "call" and a.a[0].rsplit("::", 1)[-1] == "is_empty":
                        return False
                    return None
                g = assign(same, there)
                if g is TRUE:
                    bad = some
                elif g is not FALSE:
                    unk = show(g, 4)
        if bad is not None:
            R.bad("V07.theme", n, f.loc(), "a theme with %s leaves no trace in the result" % (" and ".join(bad) or "anything"))
        elif unk:
            R.open("V07.theme", n, f.loc(), unk)
        else:
            R.ok("V07.theme", n, f.loc())
        ex = early_exits(fl, li.key)
        (R.open if ex else R.ok)("V07.theme", n + ": to the last", f.loc(), *(("may end early: %s" % show(ex[0][1], 4),) if ex else ()))
    R.floor("V07.theme", 4)


@rule("V07")
def outermost(cx):
    """the nesting is rebuilt from the outermost level that is there"""
    R = cx.rep
    opq = set(ENCODERS) | set(DECODERS)
    for n, f in fns(cx, ("decode",)):
        fl, ret = cx.flow(f, opaque=opq - {n})
        ps = {p.a[0]: p for p in params(f)}
        order = [ps[x] for x in ORDER if x in ps]
        if len(order) < 3:
            R.open("V07.outer", n, f.loc(), "levels not recognised")
            continue
        for i, c in enumerate(order):
            def there(a, i=i):
                for j, q in enumerate(order):
                    if a.op == "len" and a.a[0] is q:
                        return 0 if j < i else ("other",)
                    if a.op == "call" and a.a[0].rsplit("::", 1)[-1] == "is_empty" and a.a[1][0] is q:
                        return j < i
                return None
            live, unk = set(), False
            for lv, li in fl.loops.items():
                s = li.init
                while s is not None and s.op in ("enum", "plain", "skip", "rev"):
                    s = s.a[0]
                if s not in order or li.next is None:
                    continue
                g = assign(li.guard_in, there) if li.guard_in is not None else None
                if g is None or g is not TRUE and g is not FALSE:
                    unk = True
                elif g is TRUE:
                    live.add(s.a[0])
            key = "%s: %s first" % (n, c.a[0])
            if unk or not live and not fl.loops:
                R.open("V07.outer", key, f.loc(), "which level is walked is not recognised")
            elif live == {c.a[0]}:
                R.ok("V07.outer", key, f.loc())
            elif live - {c.a[0]} and c.a[0] not in live:
                R.bad("V07.outer", key, f.loc(), "with %s as the outermost level, %s is walked" % (c.a[0], ", ".join(sorted(live))))
            else:
                R.open("V07.outer", key, f.loc(), "walked: %s" % sorted(live))


@rule("V07")
def cursors(cx):
    R = cx.rep
    opq = set(ENCODERS) | set(DECODERS)
    for n, f in fns(cx, ("decode", "decode_materials", "decode_textures")):
        fl, _ = cx.flow(f, opaque=opq - {n})
        order = ["solids", "shells", "vertices"] if n == "decode_materials" else ORDER + (["indices"] if n == "decode" else ["vertices"])
        k = 0
        for e in fl.events:
            if e.kind != "mutate" or not e.name.endswith("push") or len(e.args) != 2:
                continue
            loops = list(e.loops)
            bs = [bound(fl, key, e.guard) for key in loops]
            while bs and bs[0] is not None and bs[0][1] not in order:
                bs, loops = bs[1:], loops[1:]
            reads = [("loop", i, b[1], b[2]) for i, b in enumerate(bs) if b is not None and b[0] == "count"]
            v = assign(under(e.args[1], e.guard), lambda a: True if a.op == "more" else None)
            if v.op == "agg" and v.a[2] == "Indices" and v.a[4].op == "seq":
                x = v.a[4]
                s = x.a[0]
                if s.op != "slice":
                    continue
                size = count(sub(s.a[2], s.a[1]))
                if size is None:
                    R.open("V07.cursor", "%s: slice in %d loops" % (n, len(loops)), e.loc, show(s)[:200])
                    continue
                reads.append(("slice", len(bs), size[0], size[1]))
                reads.append(("data", len(bs), table(s.a[0]), s.a[1]))
                step = sub(s.a[2], s.a[1])
            else:
                xs = {uncast(l.a[4]) for l in lvs(v) if l.op == "agg" and l.a[0].endswith("Option") and l.a[2] == "Some"}
                xs = {y for x in xs for y in (lvs(x) if x.op == "sw" else [x])}
                xs = {y for y in xs if y.op == "index" and not any(z.op == "empty" for z in walk(y.a[0]))}
                if len(xs) != 1:
                    continue
                x = xs.pop()
                reads.append(("data", len(bs), table(x.a[0]), x.a[1]))
                step = const(1)
            if any(b is None for b in bs):
                R.open("V07.cursor", "%s: %d loops" % (n, len(loops)), e.loc, "a loop's bound is not recognised")
                continue
            k += 1
            name = "%s: list in %d loops from %s" % (n, len(loops), bs[0][1] if bs else "-")
            tabs = [r[2] for r in reads]
            if any(t not in order for t in tabs):
                R.open("V07.cursor", name, e.loc, str(tabs))
                continue
            want = order[order.index(tabs[0]):]
            R.check(tabs == want, "V07.order", name, e.loc, "counts are taken from %s in this order instead of %s" % (tabs, want))
            first = bs[0]
            if first[0] == "all":
                R.check(first[1] == tabs[0], "V07.order", name + " outermost", e.loc, "iterates over %s but counts by %s" % (first[1], tabs[0]))
            for kind, i, tab, pos in reads:
                key = "%s: %s" % (name, tab)
                if pos is None:
                    # each element of the table in turn: only right in the outermost loop
                    R.check(first[0] == "all" and first[1] == tab, "V07.cursor", key, e.loc, "every element in turn, inside another loop")
                    continue
                ch, start = chain(pos)
                if is_const(start) and not ch:
                    R.check(cval(start) == 0 and i == 0, "V07.cursor", key, e.loc, "always element %s" % cval(start))
                    continue
                if not is_const(start) or pos.op != "lv":
                    R.open("V07.cursor", key, e.loc, show(pos)[:160])
                    continue
                if ch == tuple(loops[:i]) and cval(start) == 0:
                    st = step if kind == "data" else const(1)
                    nx = {l for lv, L in fl.loops.items() if lv is pos and L.next is not None for l in lvs(assign(under(L.next, e.guard), lambda a: True if a.op == "more" else None))}
                    if not nx:
                        R.open("V07.cursor", key, e.loc, "no update of the cursor seen")
                        continue
                    adv = {l for l in nx if l is not pos}
                    if not adv:
                        R.bad("V07.cursor", key, e.loc, "the position is not advanced")
                    elif all(advances(l, pos, st) for l in adv):
                        R.ok("V07.cursor", key, e.loc)
                    elif all(is_const(sub(l, pos)) for l in adv) or kind == "data" and any(is_const(sub(l, pos)) for l in adv):
                        R.bad("V07.cursor", key, e.loc, "the position advances by %s instead of %s" % ([show(sub(l, pos)) for l in adv], show(st)))
                    else:
                        R.open("V07.cursor", key, e.loc, str([show(l)[:100] for l in adv]))
                elif set(ch) <= set(loops):
                    R.bad("V07.cursor", key, e.loc, "the position starts at %s and runs through %d of the %d loops around it" % (show(start), len(ch), i))
                else:
                    R.open("V07.cursor", key, e.loc, show(pos)[:160])
    R.floor("V07.cursor", 30)


def advances(l, pos, st):
    return l is add(pos, st)


# ------------------------------------------------------------------ the recursive semantics decoder
@rule("V07")
def partlists(cx):
    R = cx.rep
    for n, f in fns(cx, ("decode_semantics_",)):
        fl, _ = cx.flow(f, opaque=set(DECODERS) - {n})
        ps = params(f)
        d = ps[0]
        k = 0
        for e in fl.events:
            if e.kind != "call" or not e.name.endswith(n) or len(e.args) < 4:
                continue
            k += 1
            name = "%s: nested call #%d" % (n, k)
            c = sub(e.args[0], d)
            if not is_const(c):
                R.open("V07.parts", name, e.loc, show(e.args[0])[:120])
                continue
            R.check(cval(c) == -1, "V07.parts", name + " depth", e.loc, "the nested call decodes level d%+d" % cval(c))
            pl = e.args[3]
            for lvl, tab in ((4, "solids"), (3, "shells")):
                def fix(t):
                    t = at(feasible(t, e.guard), d, lvl, lambda a: True if a.op == "more" else None)
                    return t
                if at(e.guard, d, lvl) is FALSE:
                    continue
                cnt = fix(e.args[2])
                if cnt.op == "agg" and cnt.a[2] == "Some" and cnt.a[4].op == "sw":
                    cnt = mapleaf(fix(cnt.a[4]), lambda l: some(l))
                ls = {count(payload(l, "Some", "0") if l.op != "agg" else l.a[4]) for l in lvs(cnt) if l.op == "agg" and l.a[2] == "Some"}
                tabs = {x[0] if x else None for x in ls}
                if not tabs or None in tabs:
                    tabs = {table(y.a[0].a[0]) if y.op == "elem" and y.a[0].op == "slice" else None
                            for l in lvs(cnt) if l.op == "agg" and l.a[2] == "Some" for y in lvs(fix(uncast(l.a[4])))}
                if len(tabs) == 1 and tabs <= set(ORDER):
                    R.check(tabs == {tab}, "V07.parts", "%s level %d" % (name, lvl), e.loc, "the counts of level %d are taken from %s" % (lvl, sorted(tabs)))
                else:
                    R.open("V07.parts", "%s level %d" % (name, lvl), e.loc, show(cnt)[:160])
            st = e.args[1]
            ok_ = st.op == "agg" and st.a[2] == "Some" and st.a[4].op == "index" and st.a[4].a[0].op == "field" and st.a[4].a[0].a[1] == "starts" and uncast(st.a[4].a[1]) is d
            if ok_:
                R.ok("V07.parts", name + " start", e.loc)
            elif st.op == "agg" and st.a[2] == "Some" and st.a[4].op == "index" and st.a[4].a[0].op == "field" and st.a[4].a[0].a[1] == "starts" and is_const(sub(uncast(st.a[4].a[1]), d)):
                R.bad("V07.parts", name + " start", e.loc, "starts at the position of level %s" % show(st.a[4].a[1]))
            else:
                R.open("V07.parts", name + " start", e.loc, show(st)[:160])
            # after the call the position of this level moves by the count just consumed
            done = None
            for lv, L in fl.loops.items():
                if L.next is None or L.key not in e.loops:
                    continue
                for x in walk(L.next):
                    if x.op == "store" and len(x.a) >= 3 and x.a[0].op == "field" and x.a[0].a[1] == "starts":
                        i, v = x.a[1], x.a[2]
                        cntv = e.args[2].a[4] if e.args[2].op == "agg" and e.args[2].a[2] == "Some" else None
                        same = uncast(i) is d
                        old = mk("index", x.a[0], i)
                        dv = sub(v, old)
                        done = done or (same and cntv is not None and uncast(dv) is uncast(cntv))
                        if not done and same and is_const(dv):
                            done = False
            if done:
                R.ok("V07.parts", name + " advance", e.loc)
            elif done is False:
                R.bad("V07.parts", name + " advance", e.loc, "the position of a level does not move by the count consumed")
            else:
                R.open("V07.parts", name + " advance", e.loc, "no update of the positions recognised")
