"""B01 overlap test, B02 box containment, B03 traversal of the packed R-tree."""
import itertools

from ev import ev, Unknown
from util import *
from mir import AnchorError
from . import rule, params, final

OPAQUE = ("generate_level_bounds", "index_size", "read_http_node_items", "read_node_items")
BOXF = ("min_x", "min_y", "max_x", "max_y")
SEARCHES = ("PackedRTree::search", "PackedRTree::stream_search", "PackedRTree::http_stream_search")
VARIANTS = {"BBox": 0, "PointIntersects": 1}


def isnode(t):
    return t.op == "field" and t.a[1] in BOXF and "NodeItem" in (t.a[2] or "")


def ordered_axis(n=4):
    """(lo1, hi1, lo2, hi2) over every weak ordering of two closed intervals"""
    out = []
    for a, b, c, d in itertools.product(range(n), repeat=4):
        if a <= b and c <= d:
            out.append((float(a), float(b), float(c), float(d)))
    return out


# ------------------------------------------------------------------ B01
@rule("B01")
def primitives(cx):
    """the two primitives decide closed overlap / containment for every ordering of the coordinates"""
    R = "B01.primitive"
    for suffix, kind in (("NodeItem::intersects", "box"), ("NodeItem::contains_point", "point")):
        for fn in cx.w.find(suffix, required=False):
            fl, ret = cx.flow(fn)
            ps = params(fn)
            key = suffix
            bad = None
            n = 0
            seen = set()
            try:
                for X in ordered_axis():
                    for Y in ordered_axis():
                        if kind == "point" and (X[2] != X[3] or Y[2] != Y[3]):
                            continue
                        env = env_for(ps, kind, X, Y)
                        sig = tuple(sign(a, env) for a in atoms(ret))
                        if sig in seen:
                            continue
                        seen.add(sig)
                        n += 1
                        want = X[0] <= X[3] and X[2] <= X[1] and Y[0] <= Y[3] and Y[2] <= Y[1]
                        got = ev(ret, env)
                        if got is not want:
                            bad = (X, Y, got, want)
                            break
                    if bad:
                        break
            except Unknown as u:
                cx.rep.open(R, key, fn.loc(), "value not decidable: %s" % show(u.args[0], 3))
                continue
            if bad:
                cx.rep.bad(R, key, fn.loc(), "self x%s y%s, other x%s y%s: returns %s, closed overlap is %s" % (
                    bad[0][:2], bad[1][:2], bad[0][2:], bad[1][2:], bad[2], bad[3]))
            else:
                cx.rep.ok(R, key, fn.loc(), "%d distinct orderings" % n)
    cx.rep.floor(R, 0)


def sign(a, env):
    try:
        return ev(a, env)
    except Unknown:
        return None


def env_for(ps, kind, X, Y):
    def env(t):
        if t.op == "field" and t.a[1] in BOXF:
            which = 0 if t.a[0] is ps[0] else 2 if t.a[0] is ps[1] else None
            if which is None:
                return None
            v = X if t.a[1].endswith("x") else Y
            return v[which + (1 if t.a[1].startswith("max") else 0)]
        if kind == "point" and t is ps[1]:
            return X[2]
        if kind == "point" and t is ps[2]:
            return Y[2]
        return None
    return env


def search_events(cx, suffix):
    """-> fl, [(kind, event, args)] result creations and enqueues of one search"""
    fn = cx.one(suffix)
    fl, ret = cx.flow(fn, opaque=OPAQUE)
    res, enq, init = [], [], []
    for e in fl.events:
        if e.kind == "agg" and e.name.endswith("SearchResultItem"):
            res.append((e, e.args[0]))
        elif e.kind == "mutate" and e.name in ("VecDeque::push_back", "VecDeque::push_front", "BinaryHeap::push"):
            (enq if e.loops else init).append((e, e.args[1]))
        elif e.kind == "mutate" and e.name == "Vec::push" and "SearchResultItem" not in show(e.args[1], 1):
            # a plain vector used as the work list
            if any(x.op == "call" and x.a[0] in ("Vec::pop", "Vec::remove", "Vec::swap_remove") for x in walk(e.args[0])) or not e.loops:
                (enq if e.loops else init).append((e, e.args[1]))
        elif e.kind == "store" and any(x.op == "call" and x.a[0].startswith("VecDeque::") for x in walk(e.args[0])):
            enq.append((e, None))
    return fn, fl, ret, res, enq, init


def qdiscr(t):
    """discriminant atom of the query parameter"""
    return t.op == "discr" and t.a[0].op == "param" and t.a[0].a[0] == "query"


def box_atoms(g):
    out = []
    for a in atoms(g):
        if a.op == "cmp" and any(isnode(x) for x in walk(a)) and all(boxside(x) for x in a.a):
            out.append(a)
    return out


def boxside(t):
    return t.op in ("const",) or all(isnode(x) or x.op == "payload" and x.a[0].op == "param" for x in free_(t))


def free_(t):
    from ev import free
    return free(t, lambda x: isnode(x) or x.op == "payload" and x.a[0].op == "param")


def valuations(variant):
    """(env, overlap) for every ordering class of a node box against the query"""
    ax = ordered_axis()
    if variant == "PointIntersects":
        ax = [x for x in ax if x[2] == x[3]]
    for X in ax:
        for Y in ax:
            def env(t, X=X, Y=Y):
                if isnode(t):
                    return (X if t.a[1].endswith("x") else Y)[1 if t.a[1].startswith("max") else 0]
                if t.op == "payload" and t.a[0].op == "param":
                    if t.a[1] != variant:
                        return None
                    i = int(t.a[2])
                    if variant == "BBox":
                        return (X[2], Y[2], X[3], Y[3])[i]
                    return (X[2], Y[2])[i]
                return None
            yield env, X[0] <= X[3] and X[2] <= X[1] and Y[0] <= Y[3] and Y[2] <= Y[1], (X, Y)


@rule("B01")
def searches(cx):
    R = "B01.search"
    for suffix in SEARCHES:
        fn, fl, ret, res, enq, init = search_events(cx, suffix)
        for var, dv in VARIANTS.items():
            for what, evs in (("result", res), ("descend", enq)):
                key = "%s:%s:%s" % (suffix, var, what)
                g = FALSE
                loc = fn.loc()
                for e, _ in evs:
                    ge = assign(e.guard, lambda a: dv if qdiscr(a) else None)
                    if ge is not FALSE:
                        loc = e.loc
                    g = OR(g, ge)
                if g is FALSE:
                    cx.rep.bad(R, key, loc, "no %s is ever produced for this kind of query" % what)
                    continue
                verdict(cx, R, key, loc, g, var)
    cx.rep.floor(R, 12)


def verdict(cx, R, key, loc, g, var):
    bats = box_atoms(g)
    if not bats:
        cx.rep.bad(R, key, loc, "an entry is kept without any comparison of its box with the query (condition: %s)" % show(g, 4))
        return
    # atoms touching node boxes that are not plain comparisons make the guard undecidable
    for a in atoms(g):
        if a not in bats and any(isnode(x) for x in walk(a)) and a.op == "cmp" and not any(x.op in ("min", "max", "lv") for x in walk(a)):
            pass
    seen = {}
    base = None
    n = 0
    for env, want, XY in valuations(var):
        try:
            sig = tuple(ev(a, env) for a in bats)
        except Unknown:
            cx.rep.open(R, key, loc, "comparison not decidable")
            return
        if sig in seen:
            if seen[sig][0] != want:
                cx.rep.bad(R, key, loc, "the test does not distinguish node %s from node %s" % (fmt(XY), fmt(seen[sig][1])))
                return
            continue
        seen[sig] = (want, XY)
        n += 1
        d = dict(zip(bats, sig))
        r = assign(g, lambda a: d.get(a))
        if not want:
            if r is not FALSE:
                cx.rep.bad(R, key, loc, "%s is kept although the boxes are disjoint" % fmt(XY))
                return
        else:
            if r is FALSE:
                cx.rep.bad(R, key, loc, "%s is dropped although the boxes share a point" % fmt(XY))
                return
            if base is None:
                base = r
            elif base is not r:
                cx.rep.open(R, key, loc, "the rest of the condition varies with the boxes")
                return
    cx.rep.ok(R, key, loc, "%d orderings over %d comparisons" % (n, len(bats)))


def fmt(XY):
    X, Y = XY
    return "entry [%g,%g]x[%g,%g] vs query [%g,%g]x[%g,%g]" % (X[0], X[1], Y[0], Y[1], X[2], X[3], Y[2], Y[3])


# ------------------------------------------------------------------ B02
def box_update(cx, R, key, loc, new, selfbox, other):
    """new (a NodeItem value) must be the hull of the boxes selfbox and other"""
    n = 0
    comp_new = {c: field(new, c, "NodeItem") for c in BOXF}
    empty_axis = [(float("inf"), float("-inf"), c, d) for c, d in ((0.0, 0.0), (0.0, 1.0))]
    axes = ordered_axis(3) + empty_axis
    seen = set()
    ats = set()
    for c in BOXF:
        ats.update(atoms(comp_new[c]))
    ats = sorted(ats)
    for X in axes:
        for Y in axes:
            def env(t, X=X, Y=Y):
                if t.op == "field" and t.a[1] in BOXF:
                    for src, o in ((selfbox, 0), (other, 2)):
                        if t.a[0] is src:
                            return (X if t.a[1].endswith("x") else Y)[o + (1 if t.a[1].startswith("max") else 0)]
                return None
            sig = tuple(sign(a, env) for a in ats) + (X[0] == float("inf"), Y[0] == float("inf"))
            if sig in seen:
                continue
            seen.add(sig)
            for c in BOXF:
                A = X if c.endswith("x") else Y
                want = max(A[1], A[3]) if c.startswith("max") else min(A[0], A[2])
                try:
                    got = ev(comp_new[c], env)
                except Unknown as u:
                    cx.rep.open(R, key, loc, "component %s not decidable: %s" % (c, show(u.args[0], 3)))
                    return
                if got != want:
                    cx.rep.bad(R, key, loc, "%s becomes %s instead of %s when the box is x%s y%s and the addition is x%s y%s" % (
                        c, got, want, X[:2], Y[:2], X[2:], Y[2:]))
                    return
                n += 1
    cx.rep.ok(R, key, loc, "%d component values over %d orderings" % (n, len(seen)))


@rule("B02")
def hull(cx):
    R = "B02.hull"
    for fn in cx.w.find("NodeItem::expand"):
        fl, ret = cx.flow(fn)
        s, r = params(fn)[:2]
        box_update(cx, R, "expand", fn.loc(), final(fl, s), s, r)
    for fn in cx.w.find("NodeItem::expand_xy", required=False):
        fl, ret = cx.flow(fn)
        s, x, y = params(fn)[:3]
        # a point: both ends of the addition coincide
        point_update(cx, R, "expand_xy", fn.loc(), final(fl, s), s, x, y)
    for fn in cx.w.find("NodeItem::sum", required=False):
        fl, ret = cx.flow(fn)
        a, b = params(fn)[:2]
        box_update(cx, R, "sum", fn.loc(), ret, a, b)
    for fn in cx.w.find("NodeItem::create"):
        fl, ret = cx.flow(fn)
        got = [cval(field(ret, c)) for c in BOXF]
        inf = float("inf")
        good = got == [inf, inf, -inf, -inf]
        if None in got:
            cx.rep.open(R, "create", fn.loc(), "not constant")
        else:
            cx.rep.check(good, R, "create", fn.loc(), "the empty box is %s; the neutral element of the hull is (inf, inf, -inf, -inf)" % got)
    cx.rep.floor(R, 2)


def point_update(cx, R, key, loc, new, s, x, y):
    for c in BOXF:
        v = field(new, c)
        p = x if c.endswith("x") else y
        # only same-axis comparisons may matter
        want = max if c.startswith("max") else min
        ats = atoms(v)
        for a, b in ((0.0, 1.0), (1.0, 0.0), (1.0, 1.0)):
            try:
                got = ev(v, lambda t: a if t.op == "field" and t.a[0] is s and t.a[1] == c else b if t is p else None)
            except Unknown as u:
                cx.rep.open(R, key + ":" + c, loc, "not decidable: %s" % show(u.args[0], 3))
                break
            if got != want(a, b):
                cx.rep.bad(R, key + ":" + c, loc, "with %s=%s and coordinate %s the result is %s" % (c, a, b, got))
                break
        else:
            cx.rep.ok(R, key + ":" + c, loc)


@rule("B02")
def extents(cx):
    """the dataset extent is the hull of all leaf boxes"""
    R = "B02.extent"
    fn = cx.one("packed_rtree::calc_extent")
    fl, ret = cx.flow(fn)
    nodes = params(fn)[0]
    for c in BOXF:
        x = extremum(field(ret, c, "fcb_core::packed_rtree::NodeItem"), fl)
        if x is None:
            x2 = acc_box(ret, fl, c)
            if x2 is None:
                cx.rep.open(R, c, fn.loc(), "not a recognised fold")
                continue
            x = x2
        kind, E, g, init = x
        good = kind == c[:3] and g is TRUE and E.op == "field" and E.a[1] == c and any(k is nodes for k in walk(E))
        cx.rep.check(good, R, c, fn.loc(), "extent.%s is the %s of %s over the nodes" % (c, kind, show(E, 3)))
    cx.rep.floor(R, 4)


def acc_box(ret, fl, c):
    """component c of a box accumulated in a loop, the other components held at neutral values"""
    if ret.op == "lv" and ret in fl.loops and fl.loops[ret].next is not None:
        li = fl.loops[ret]
        nxt = assign(li.next, lambda a: True if is_more(a) else None)
        cur = field(ret, c, "fcb_core::packed_rtree::NodeItem")
        v = field(nxt, c, "fcb_core::packed_rtree::NodeItem")
        # only comparisons that involve component c select its value
        k = fold_kind(project(v, c), cur)
        if k:
            return k[0], k[1], TRUE, field(li.init, c)
    return None


def project(v, c):
    """drop comparisons over other components when they do not matter"""
    for a in atoms(v):
        if a.op == "cmp" and not any(x.op == "field" and x.a[1] == c for x in walk(a)):
            kids_ = {assign(v, lambda x: w if x is a else None) for w in DOM[a]}
            if len(kids_) == 1:
                v = kids_.pop()
    return v


@rule("B02")
def parents(cx):
    """generate_nodes: every parent is the hull of exactly its children"""
    R = "B02.parent"
    fn = cx.one("PackedRTree::generate_nodes")
    fl, ret = cx.flow(fn)
    self_ = params(fn)[0]
    end = final(fl, self_)
    LB = "level_bounds"
    stores = [x for x in deps(end, fl) if x.op == "store" and within_field(x.a[0], "node_items")]
    stores = [x for x in stores if x.a[2].op == "agg" or x.a[2].op in ("with", "sw", "lv")]
    if not stores:
        cx.rep.open(R, "store", fn.loc(), "no indexed store of a parent recognised")
        return
    for st in stores[:1]:
        node = st.a[2]
        for c in BOXF:
            v = field(node, c, "fcb_core::packed_rtree::NodeItem")
            x = extremum(v, fl) or (acc_box(node, fl, c))
            if x is None:
                cx.rep.open(R, c, fn.loc(), "%s is not a recognised fold: %s" % (c, show(v, 4)))
                continue
            kind, E, g, init = x
            good = kind == c[:3] and E.op == "field" and E.a[1] == c and within_field(E, "node_items") and \
                (init is None or cval(init) == (float("inf") if kind == "min" else float("-inf")))
            cx.rep.check(good, R, c, fn.loc(), "the parent's %s is the %s of the children's %s starting from %s" % (
                c, kind, E.a[1] if E.op == "field" else show(E, 3), show(init, 3) if init is not None else "the first child"))
            if c != "min_x" or E.op != "field" or E.a[0].op != "index":
                continue
            # the children visited: consecutive positions, from the position recorded as the parent's offset
            child = E.a[0].a[1]
            r = idxrange(child, fl)
            off = field(node, "offset")
            if r is None:
                cx.rep.open(R, "children", fn.loc(), "child position not recognised: %s" % show(child, 4))
            else:
                lo = r[0]
                same = lo is off or lo is uncast_(off)
                cx.rep.check(same, R, "first-child", fn.loc(),
                             "the parent's offset is %s; its children are visited from %s" % (show(off, 4), show(lo, 4)))
                start = lo
                for _ in range(4):
                    if start.op == "lv" and start in fl.loops:
                        start = fl.loops[start].init
                lvl = levelref(start, "start")
                if lvl is None:
                    cx.rep.open(R, "child-start", fn.loc(), show(start, 4))
                else:
                    pstart = st.a[1]
                    plv = pstart
                    for _ in range(4):
                        if pstart.op == "lv" and pstart in fl.loops:
                            pstart = fl.loops[pstart].init
                    plvl = levelref(pstart, "start")
                    if plvl is None:
                        cx.rep.open(R, "parent-start", fn.loc(), show(pstart, 4))
                    else:
                        cx.rep.check(plvl is add(lvl, const(1)), R, "parent-level", fn.loc(),
                                     "parents of level %s are stored from the start of level %s" % (show(lvl, 3), show(plvl, 3)))
                    if plv.op == "lv" and plv in fl.loops:
                        nx = fl.loops[plv].next
                        cx.rep.check(all(l is add(plv, const(1)) for l in leaves(nx)), R, "parent-step", fn.loc(),
                                     "the parent position advances to %s" % show(nx, 3))
                    lr = idxrange(lvl, fl)
                    if lr is None or lr[1] is None:
                        cx.rep.open(R, "levels", fn.loc(), show(lvl, 4))
                    else:
                        cx.rep.check(cval(lr[0]) == 0 and is_len_minus1(lr[1], LB), R, "levels", fn.loc(),
                                     "parents are generated for levels %s..%s" % (show(lr[0], 3), show(lr[1], 4)))
                    # bounds of the child scan
                    evs = [e for e in fl.events if e.kind == "inl" and e.name == "NodeItem::expand" and e.loops]
                    if evs:
                        fo = AND(evs[0].guard, TRUE)
                        cands = [a for a in atoms(fo) if a.op == "cmp" and any(k is child for k in a.a)]
                        other = [x for a in cands for x in a.a if x is not child]
                        good = any(levelref(x, "end") is lvl for x in other)
                        if other:
                            cx.rep.check(good, R, "child-end", fn.loc(), "children are visited up to %s" % ", ".join(show(x, 4) for x in other))
                        its = [x for e in evs for x in loop_sources(e, fl)]
                        bfs = [x for x in its if within_field(x, "branching_factor") and x.op == "agg"]
                        for b in bfs[:1]:
                            f = agg_fields(b)
                            cnt = sub(f["end"], f["start"])
                            cx.rep.check(cnt.op == "field" and cnt.a[1] == "branching_factor", R, "fanout", fn.loc(),
                                         "a parent takes %s children" % show(cnt, 4))
    cx.rep.floor(R, 1)


def uncast_(t):
    return t.a[2] if t.op == "cast" else t


def within_field(t, name):
    return any(x.op == "field" and x.a[1] == name for x in walk(t)) or \
        any(x.op == "lv" and name in x.a[2] for x in walk(t))


def levelref(t, end):
    """level_bounds[L].start / .end -> L"""
    if t.op == "field" and t.a[1] == end and t.a[0].op == "index" and is_lb(t.a[0].a[0]):
        return t.a[0].a[1]
    return None


def is_lb(t):
    return t.op == "field" and t.a[1] == "level_bounds" or t.op == "call" and t.a[0].endswith("::generate_level_bounds")


def is_len_minus1(t, name=None):
    c, d = lin_parts(t)
    return c == -1 and len(d) == 1 and all(k.op == "len" and is_lb(k.a[0]) and v == 1 for k, v in d.items())


def loop_sources(e, fl):
    out = []
    for lv, li in fl.loops.items():
        if li.key in e.loops and li.next is not None and li.next.op == "adv":
            out.append(li.init)
    return out


@rule("B02")
def leafboxes(cx):
    """the box stored for a feature is the hull of its vertices, mapped by the dataset transform"""
    R = "B02.leaf"
    fn = cx.one("to_fcb_city_feature")
    fl, ret = cx.flow(fn, opaque=("to_city_object", "to_city_feature_appearance"))
    box = None
    for x in walk(ret):
        if x.op == "agg" and x.a[0].endswith("::NodeItem"):
            box = x
            break
    if box is None:
        comp = None
        for l in leaves(ret):
            if l.op == "agg" and l.a[0] == "tuple":
                comp = l.a[5]
        box = comp
    if box is None:
        cx.rep.open(R, "vertices", fn.loc(), "no box returned")
    else:
        for c in BOXF:
            v = field(box, c, "fcb_core::packed_rtree::NodeItem")
            ax = 0 if c.endswith("x") else 1
            xs = [(l, extremum(l, fl)) for l in leaves(v) if not is_const(l)]
            if not xs or any(x is None for _, x in xs):
                x = acc_box(box, fl, c)
                if x is None:
                    one = [l for l in leaves(v) if not is_const(l) and single_pick(strip_wrap(l))]
                    if one:
                        cx.rep.bad(R, "vertices:" + c, fn.loc(), "%s of the feature box is the value of one vertex only: %s" % (c, show(one[0], 4)))
                    else:
                        cx.rep.open(R, "vertices:" + c, fn.loc(), "not a recognised minimum or maximum: %s" % show(v, 4))
                    continue
                xs = [(v, x)]
            for l, (kind, E, g, init) in xs:
                E = strip_wrap(E)
                good = kind == c[:3] and g is TRUE and is_vertex(E, ax)
                if not good and kind == c[:3] and g is TRUE and not any(is_vertex(y, a) for y in walk(E) for a in (0, 1, 2)):
                    cx.rep.open(R, "vertices:" + c, fn.loc(), "what it is the %s of is not recognised: %s" % (kind, show(E, 4)))
                    continue
                cx.rep.check(good, R, "vertices:" + c, fn.loc(), "%s of the feature box is the %s over %s%s" % (
                    c, kind, show(E, 4), "" if g is TRUE else " restricted to %s" % show(g, 3)))
    fn = cx.one("FcbWriter::actual_bbox") if cx.w.find("FcbWriter::actual_bbox", required=False) else None
    fw = cx.one("FcbWriter::write_feature")
    fl, ret = cx.flow(fw, opaque=("finish_to_feature",))
    n = 0
    for e in fl.events:
        if e.kind == "mutate" and e.name == "Vec::push" and within_field(e.args[0], "feat_nodes"):
            n += 1
            node = e.args[1]
            for c in BOXF:
                v = field(node, c, "fcb_core::packed_rtree::NodeItem")
                ax = 0 if c.endswith("x") else 1
                good, why = affine(v, c, ax)
                if good is None:
                    cx.rep.open(R, "world:" + c, e.loc, why)
                else:
                    cx.rep.check(good, R, "world:" + c, e.loc, why)
    if not n:
        cx.rep.open(R, "world", fw.loc(), "no push of a feature box recognised")
    ff = cx.one("FeatureWriter::finish_to_feature")
    fl, ret = cx.flow(ff, opaque=("to_fcb_city_feature", "cityfeature_to_index_entries"))
    b = field(final(fl, params(ff)[0]), "bbox", "")
    good = any(x.op == "call" and x.a[0].endswith("to_fcb_city_feature") for x in walk(b))
    cx.rep.check(good and b.op == "field", R, "feature-box", ff.loc(), "the feature's box is %s after serialisation" % show(b, 3))
    cx.rep.floor(R, 3)


def single_pick(t):
    """t is one fixed element of a collection of vertices and nothing aggregated"""
    ys = list(walk(t))
    if any(y.op in ("min", "max", "lv", "seq_fold") for y in ys):
        return False
    if not any(y.op == "field" and y.a[1] == "vertices" for y in ys):
        return False
    return any(y.op in ("last", "first") or y.op == "index" and is_const(y.a[1]) and within_field(y.a[0], "vertices") and y.a[0].op != "elem" for y in ys)


def is_vertex(E, ax):
    """E = vertices[*][ax] of the feature"""
    return E.op == "index" and cval(E.a[1]) == ax and any(x.op == "field" and x.a[1] == "vertices" for x in walk(E.a[0]))


def affine(v, c, ax):
    """v = translate[ax] + scale[ax] * box.c"""
    v = strip_wrap(v)
    idx = {}
    for x in walk(v):
        if x.op == "index" and x.a[0].op == "field" and x.a[0].a[1] in ("scale", "translate"):
            idx.setdefault(x.a[0].a[1], set()).add(cval(x.a[1]))
    bf = {x.a[1] for x in walk(v) if x.op == "field" and x.a[1] in BOXF}
    if not idx and not bf:
        return None, "box component not traceable: %s" % show(v, 3)
    if bf != {c} or idx.get("scale") != {ax} or idx.get("translate") != {ax}:
        return False, "%s is computed from box component %s, scale %s, translate %s" % (
            c, sorted(bf), sorted(map(str, idx.get("scale", []))), sorted(map(str, idx.get("translate", []))))

    def env(t):
        if t.op == "index" and t.a[0].op == "field":
            return {"scale": 3.0, "translate": 100.0}.get(t.a[0].a[1])
        if t.op == "field" and t.a[1] in BOXF:
            return 7.0
        return None
    try:
        got = ev(v, env)
    except Unknown:
        return None, "not decidable"
    return got == 121.0, "%s = scale*value + translate evaluates to %s for 3*7+100" % (c, got)


# ------------------------------------------------------------------ B03
def num_nodes_minus_items(t):
    """term denotes the position of the first leaf entry"""
    if levelref(t, "start") is not None and cval(levelref(t, "start")) == 0:
        return True
    c, d = lin_parts(t)
    if c != 0:
        return False
    pos = [k for k, v in d.items() if v == 1]
    neg = [k for k, v in d.items() if v == -1]
    if len(pos) != 1 or len(neg) != 1 or len(d) != 2:
        return False
    p, n = pos[0], neg[0]
    pn = p.op == "len" and within_field(p, "node_items") or levelref(p, "end") is not None and cval(levelref(p, "end")) == 0
    ni = n.op == "field" and n.a[1] == "num_leaf_nodes" or n.op == "param" and n.a[0] == "num_items"
    return pn and ni


def isbf(t):
    return t.op == "field" and t.a[1] == "branching_factor" or t.op == "param" and t.a[0] in ("node_size", "branching_factor")


def popped(t):
    """projection of a value taken from the work list -> (pop call, path)"""
    path = []
    while t.op in ("field", "payload"):
        if t.op == "field":
            path.append(t.a[1])
        elif t.a[1] != "Some":
            path.append(t.a[2])
        t = t.a[0]
    if t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("pop_front", "pop", "pop_back", "remove"):
        p = tuple(reversed(path))
        if "BinaryHeap" in t.a[0] and p[:1] == ("0",):
            p = p[1:]
        return t, p
    return None


def min_parts(t):
    t = strip_wrap(t) if t.op == "cast" else t
    if t.op in ("min",) and len(t.a) == 2:
        return set(t.a)
    return None


def as_min(t):
    """{a, b} when t is their minimum (written as min or as a comparison)"""
    m = min_parts(t)
    if m:
        return m
    if t.op == "sw" and t.a[0].op == "cmp":
        a, b = t.a[0].a
        ls = set(leaves(t))
        if ls == {a, b}:
            try:
                for va, vb in ((0, 1), (1, 0)):
                    if ev(t, lambda x: va if x is a else vb if x is b else None) != min(va, vb):
                        return None
            except Unknown:
                return None
            return {a, b}
    return None


@rule("B03")
def traversal(cx):
    R = "B03.traverse"
    for suffix in SEARCHES:
        fn, fl, ret, res, enq, init = search_events(cx, suffix)
        http = suffix.startswith("PackedRTree::http")
        for var, dv in dict(VARIANTS, PointNearest=2).items():
            K = "%s:%s:" % (suffix, var)
            pick = lambda a: dv if qdiscr(a) else None

            def sel(evs):
                out = []
                for e, v in evs:
                    g = assign(e.guard, pick)
                    if g is FALSE:
                        continue
                    asg = forced(g)
                    for a in atoms(e.guard):
                        if qdiscr(a):
                            asg[a] = dv
                    out.append((e, restrict(v, asg) if v is not None else None, g, asg))
                return out
            roots = sel(init)
            vals = [v for _, v, _, _ in roots]
            if len(vals) != 1:
                cx.rep.open(R, K + "root", fn.loc(), "%d initial work items" % len(vals))
                continue
            comp = flatten(vals[0])
            loc = roots[0][0].loc
            level = [p for p, t in comp.items() if is_len_minus1(t)]
            start = [p for p, t in comp.items() if cval(t) == 0 and isinstance(cval(t), int) and not isinstance(cval(t), bool)]
            end = [p for p, t in comp.items() if cval(t) == 1 and isinstance(cval(t), int) and not isinstance(cval(t), bool)]
            lv_t = [p for p, t in comp.items() if within_field(t, "level_bounds") or any(x.op == "call" and x.a[0].endswith("generate_level_bounds") for x in walk(t))]
            if lv_t and not level:
                cx.rep.bad(R, K + "root", loc, "the search starts at level %s instead of the top level" % show(comp[lv_t[0]], 4))
                continue
            if not level or not start:
                cx.rep.open(R, K + "root", loc, "root entry %s" % show(vals[0], 4))
                continue
            cx.rep.ok(R, K + "root", loc, "root entry %s" % show(vals[0], 5))
            level, start = level[0], start[0]
            end = end[0] if end else None
            rs, es = sel(res), sel(enq)
            # ---------------- results
            leafpos = None
            for n, (e, v, g, asg) in enumerate(rs):
                kk = K + "result"
                if not http:
                    off = strip_wrap(field(v, "offset"))
                    idx = field(v, "index")
                    node = off.a[0] if off.op == "field" else None
                    cx.rep.check(off.op == "field" and off.a[1] == "offset", R, kk + "-offset", e.loc,
                                 "a match reports %s" % show(off, 3))
                    if node is None or node.op != "index":
                        cx.rep.open(R, kk + "-node", e.loc, show(off, 4))
                        continue
                    pos = add(idx, mk("field", mk("index", lbbase(idx), const(0)), "start", "")) if False else idx
                    lsub = [k for k, c in lin_parts(idx)[1].items() if c == -1]
                    good = len(lsub) == 1 and num_nodes_minus_items(lsub[0])
                    if lsub and not num_nodes_minus_items(lsub[0]) and levelref(lsub[0], "start") is None:
                        # num_nodes - num_items spelled out
                        good = None
                    if good is None:
                        cx.rep.open(R, kk + "-index", e.loc, show(idx, 4))
                    else:
                        cx.rep.check(good, R, kk + "-index", e.loc, "a match reports index %s" % show(idx, 4))
                    scan_check(cx, R, K, e, node, fl, level, start, end, idx, lsub)
                else:
                    http_result(cx, R, K, e, v, fl, asg)
                    node = None
                # leaf condition
                leaf_condition(cx, R, K, e, g, level, start, True)
            for n, (e, v, g, asg) in enumerate(es):
                leaf_condition(cx, R, K, e, g, level, start, False)
                if v is None:
                    continue
                c = flatten(v)
                if level not in c or start not in c:
                    cx.rep.open(R, K + "child", e.loc, "child entry %s" % show(v, 3))
                    continue
                L, S = restrict(c[level], asg), restrict(strip_wrap(c[start]), asg)
                pl = [x for x in lin_parts(L)[1]]
                pp = popped(pl[0]) if len(pl) == 1 else None
                if pp is None or pp[1] != level:
                    cx.rep.open(R, K + "child-level", e.loc, show(L, 4))
                else:
                    cx.rep.check(lin_parts(L)[0] == -1, R, K + "child-level", e.loc, "children are searched at level %s" % show(L, 3))
                cx.rep.check(S.op == "field" and S.a[1] == "offset", R, K + "child-start", e.loc, "children are searched from %s" % show(S, 3))
                if end is not None and end in c:
                    http_child_end(cx, R, K, e, c[end], S, L, g)
            cx.rep.check(bool(rs), R, K + "has-result", fn.loc())
            cx.rep.check(bool(es), R, K + "has-descent", fn.loc())
    cx.rep.floor(R, 9)


def lbbase(t):
    return t


def leaf_condition(cx, R, K, e, g, level, start, is_res):
    """results only for leaf entries, descent only for inner entries"""
    conds = []
    for a in atoms(g):
        pp = None
        if a.op == "cmp":
            for i, x in enumerate(a.a):
                p = popped(x)
                if p and p[1] == start and num_nodes_minus_items(a.a[1 - i]):
                    pp = (a, "start", i)
                if p and p[1] == level and is_const(a.a[1 - i]):
                    pp = (a, "level-cmp", i)
        p = popped(a)
        if p and p[1] == level:
            pp = (a, "level", 0)
        if pp:
            conds.append(pp)
    key = K + ("leaf" if is_res else "inner")
    if not conds:
        cx.rep.open(R, key, e.loc, "no leaf test recognised in %s" % show(g, 3))
        return
    for a, kind, i in conds:
        # which values of the test allow this effect
        vals = DOM.get(a) or tuple(keysof(g, a)) + (("other",),)
        allowed = set()
        for v in vals:
            if assign(g, lambda x: v if x is a else None) is not FALSE:
                allowed.add(v if not isinstance(v, tuple) else "other")
        if kind == "start":
            leafv = {0, 1} if i == 0 else {0, -1}
            want = leafv if is_res else {-1, 0, 1} - leafv
        elif kind == "level":
            want = {0} if is_res else {"other"}
            if not is_res and 0 not in keysof(g, a):
                want = allowed
        else:
            continue
        cx.rep.check(allowed == want, R, key, e.loc, "the %s is %s when the test %s is %s" % (
            "match" if is_res else "descent", "made", show(a, 3), sorted(map(str, allowed))))


def scan_check(cx, R, K, e, node, fl, level, start, end, idx, lsub):
    """positions inspected: from the popped start, to min(start + fan-out, end of that level)"""
    pos = add(idx, lsub[0]) if len(lsub) == 1 else None
    arr, at = node.a
    r = idxrange(pos if pos is not None else at, fl)
    if r is None:
        cx.rep.open(R, K + "scan", e.loc, "scan position %s" % show(pos, 4))
        return
    lo, hi, var = r
    p = popped(lo) if lo.op != "lv" else None
    if p is None or p[1] != start:
        cx.rep.check(False, R, K + "scan-start", e.loc, "the node is scanned from %s" % show(lo, 4)) if p is not None or is_const(lo) or has_popped(lo) else cx.rep.open(R, K + "scan-start", e.loc, show(lo, 4))
        return
    cx.rep.ok(R, K + "scan-start", e.loc)
    if arr.op == "payload" or arr.op == "call" or not within_field(arr, "node_items"):
        # fetched block: starts at the same position and is indexed relative to it
        c = arr
        while c.op == "payload":
            c = c.a[0]
        if c.op == "call" and "read_node_items" in c.a[0]:
            a = c.a[1]
            cx.rep.check(a[2] is lo and sub(pos, at) is lo, R, K + "fetch", e.loc,
                         "entry %s of the block starting at %s is taken for node %s" % (show(at, 3), show(a[2], 3), show(pos, 3)))
            hi2 = add(a[2], a[3])
            if hi is None:
                hi = hi2
            elif hi2 is not hi:
                cx.rep.bad(R, K + "fetch-len", e.loc, "the block fetched ends at %s, the scan at %s" % (show(hi2, 4), show(hi, 4)))
    else:
        cx.rep.check(at is pos, R, K + "fetch", e.loc, "entry %s is taken for node %s" % (show(at, 3), show(pos, 3)))
    if hi is None:
        cx.rep.open(R, K + "scan-end", e.loc, "bound not recognised")
        return
    m = as_min(hi)
    if m is None:
        if levelref(hi, "end") is not None or isbf_sum(hi, lo):
            cx.rep.bad(R, K + "scan-end", e.loc, "the node is scanned to %s without the %s limit" % (show(hi, 4), "fan-out" if levelref(hi, "end") is not None else "level"))
        else:
            cx.rep.open(R, K + "scan-end", e.loc, show(hi, 5))
        return
    lev = [levelref(x, "end") for x in m]
    lev = [x for x in lev if x is not None]
    pl = popped(lev[0]) if lev else None
    good = any(isbf_sum(x, lo) for x in m) and pl is not None and pl[1] == level
    cx.rep.check(good, R, K + "scan-end", e.loc, "the node is scanned up to %s" % show(hi, 5))


def has_popped(t):
    return any(popped(x) for x in walk(t) if x.op in ("field", "payload"))


def isbf_sum(t, lo):
    return isbf(uncast_(sub(t, lo)))


def http_result(cx, R, K, e, v, fl, asg):
    """remote match: feature base + this entry's offset, up to the next entry's offset"""
    comp = flatten(v, depth=6)
    S = [t for p, t in comp.items() if p[-1] == "start"]
    E = [t for p, t in comp.items() if p[-1] == "end"]
    if len(S) != 1:
        cx.rep.open(R, K + "result", e.loc, show(v, 4))
        return
    c, d = lin_parts(S[0])
    offs = [k for k in d if k.op == "field" and k.a[1] == "offset"]
    rest = {k for k in d if k not in offs}
    names = {"$index_begin": any(k.op == "param" and k.a[0] == "index_begin" for k in rest),
             "attr": any(k.op == "param" and k.a[0] == "attr_index_size" for k in rest),
             "index": any(k.op == "call" and k.a[0].endswith("::index_size") for k in rest)}
    good = c == 0 and len(offs) == 1 and all(names.values()) and len(rest) == 3 and all(w == 1 for w in d.values())
    cx.rep.check(good, R, K + "result-start", e.loc, "a match requests from %s" % show(S[0], 4))
    if E and len(offs) == 1:
        c2, d2 = lin_parts(E[0])
        offs2 = [k for k in d2 if k.op == "field" and k.a[1] == "offset"]
        good = len(offs2) == 1 and {k for k in d2 if k not in offs2} == rest and c2 == 0
        n1, n2 = offs[0].a[0], offs2[0].a[0] if offs2 else None
        nxt = n2 is not None and n2.op == "index" and lin_parts(n2.a[1])[0] == 1
        cx.rep.check(good and nxt, R, K + "result-end", e.loc, "a match requests up to %s" % show(E[0], 4))


def http_child_end(cx, R, K, e, E, S, L, g):
    m = as_min(under(E, g))
    if m is None:
        lev = levelref(E, "end")
        cx.rep.open(R, K + "child-end", e.loc, show(E, 4))
        return
    lev = [levelref(x, "end") for x in m]
    lev = [x for x in lev if x is not None]
    oth = [x for x in m if levelref(x, "end") is None]
    if not lev or not oth:
        cx.rep.open(R, K + "child-end", e.loc, show(E, 4))
        return
    cx.rep.check(lev[0] is L, R, K + "child-end", e.loc, "children end is limited by level %s, they are on level %s" % (show(lev[0], 3), show(L, 3)))
    good = True
    for cse, l in cases(oth[0]):
        extra = sub(uncast_deep(l), S)
        c, d = lin_parts(extra)
        if not (len(d) == 1 and isbf(uncast_(next(iter(d)))) and c in (0, 1)):
            good = False
    cx.rep.check(good, R, K + "child-count", e.loc, "children end at %s" % show(oth[0], 5))


def uncast_deep(t):
    return rebuild(t, lambda x: x.a[2] if x.op == "cast" else x)


@rule("B03")
def levels(cx):
    """the level boundaries used by searches are those used by the builder, and the index size agrees"""
    R = "B03.levels"
    g = cx.one("PackedRTree::generate_level_bounds")
    s = cx.one("PackedRTree::index_size")
    shapes = {}
    for fn in (g, s):
        fl, ret = cx.flow(fn)
        items, ns = params(fn)[:2]
        rec = []
        for lv, li in fl.loops.items():
            if li.next is None:
                continue
            nx = strip_wrap(li.next)
            if nx.op == "bin" and nx.a[0] == "Div":
                num = nx.a[1]
                den = nx.a[2]
                rec.append((lv, li, num, den))
        key = fn.name
        if not rec:
            cx.rep.open(R, key, fn.loc(), "no level recurrence recognised")
            continue
        lv, li, num, den = rec[0]
        ceil = sub(num, sub(add(lv, den), const(1)))
        cx.rep.check(cval(ceil) == 0, R, key + ":ceil", fn.loc(), "a level has %s / %s nodes for %s below" % (show(num, 4), show(den, 3), "n"))
        cx.rep.check(li.init is items or any(x is items for x in walk(li.init)) and not is_const(li.init), R, key + ":leaves", fn.loc(), "leaf level has %s nodes" % show(li.init, 3))
        cx.rep.check(any(x is ns for x in walk(den)), R, key + ":fanout", fn.loc(), "fan-out is %s" % show(den, 3))
        # total: sum of the same recurrence
        tot = [(l2, i2) for l2, i2 in fl.loops.items() if i2.next is not None and any(
            sub(x, l2) is li.next for x in leaves(i2.next))]
        if tot:
            l2, i2 = tot[0]
            cx.rep.check(i2.init is li.init, R, key + ":total", fn.loc(), "the total starts at %s" % show(i2.init, 3))
        else:
            cx.rep.open(R, key + ":total", fn.loc(), "no running total recognised")
        shapes[key] = den
    fl, ret = cx.flow(s)
    # size in bytes: nodes * encoded entry size
    w = cx.one("NodeItem::write")
    flw, _ = cx.flow(w)
    size = entry_bytes(flw)
    c, d = lin_parts(ret)
    ws = list(d.values())
    if size is not None and len(ws) > 1 and len(set(ws)) == 1:
        # entry size times (nodes counted so far + nodes of the last level)
        ls = [x for x in d if x.op == "lv"]
        okt = len(ls) == 1 and ls[0] in fl.loops and len(d) == 2
        nxt = [x for x in leaves(fl.loops[ls[0]].next) if x is not UNDEF] if okt and fl.loops[ls[0]].next is not None else []
        rest = [x for x in d if x.op != "lv"]
        okt = okt and any(sub(x, ls[0]) is rest[0] for x in nxt)
        if not okt and c == 0 and ws[0] == size:
            cx.rep.open(R, "entry-size", s.loc(), show(ret, 4))
        else:
            cx.rep.check(ws[0] == size and c == 0, R, "entry-size", s.loc(), "index size counts %s bytes per entry, %s are written" % (ws[0], size))
    elif size is None or len(ws) != 1:
        cx.rep.open(R, "entry-size", s.loc(), show(ret, 4))
    else:
        cx.rep.check(ws[0] == size and c == 0, R, "entry-size", s.loc(), "index size counts %s bytes per entry, %s are written" % (ws[0], size))
    cx.rep.floor(R, 2)


def entry_bytes(fl):
    """bytes a serialiser writes, where their number is fixed"""
    from .codec import image, Strange
    n = 0
    try:
        for o, b, g, loops in image(fl):
            if loops or g is not TRUE or not is_const(b.width):
                return None
            n += cval(b.width)
    except Strange:
        return None
    return n or None
