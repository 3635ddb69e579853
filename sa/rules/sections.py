"""Where every reader takes the sections of a file to be (L01)."""
from rules import rule
from term import *
from util import *
from .index import paths, allatoms
from .keys import OPAQUE as INDEX_OPAQUE, uncasted
from .layout import Written, kind_of, pieces, last, calm, path_on, sole, fl_param, through, strip_mut, li_loc

OPAQUE = INDEX_OPAQUE + ("PackedRTree::from_buf", "PackedRTree::search", "PackedRTree::stream_search", "PackedRTree::http_stream_search",
                         "FeatureIter::new", "PackedRTree::index_size", "size_prefixed_root_as_header", "size_prefixed_root_as_header_unchecked")

CONFIGS = {
    "no features": {"features_count": 0, "index_node_size": "other", "attribute_index": 1},
    "no spatial index": {"features_count": "other", "index_node_size": 0, "attribute_index": 1},
    "both indexes": {"features_count": "other", "index_node_size": "other", "attribute_index": 1},
    "spatial index only": {"features_count": "other", "index_node_size": "other", "attribute_index": 0},
    "neither index": {"features_count": "other", "index_node_size": 0, "attribute_index": 0},
    "no features, no attribute index": {"features_count": 0, "index_node_size": "other", "attribute_index": 0},
}


def named(t):
    """last name of a call, casts dropped"""
    t = uncasted(t)
    return last(t.a[0]) if t.op == "call" else None


def tuned(c):
    """outcome of a test in a configuration"""
    def f(a):
        n = named(a)
        if n in ("features_count", "index_node_size"):
            v = c[n]
            return ("other",) if v == "other" else v
        if a.op == "discr" and named(a.a[0]) == "attribute_index":
            return c["attribute_index"]
        if a.op == "fails":
            return False
        if a.op == "any":
            return False          # sums that overflow are refused
        if a.op == "len" and any(named(x) == "attribute_index" for x in walk(a)):
            return ("other",)
        if a.op == "discr" and a.a[0].op == "tryfold":
            return 0
        if is_more(a):
            return True
        return None
    return f


def fix(t, c):
    f = tuned(c)
    asg = {}
    for _ in range(3):
        new = {a: v for a in allatoms(t) for v in [f(a)] if v is not None}
        t = restrict(t, new)
        if t.op != "sw" and not [a for a in allatoms(t) if f(a) is not None]:
            break
    return t


class Sym(dict):
    pass


def is_length(t):
    """the length the header gives for one attribute index -> the list it is taken from"""
    t = uncasted(t)
    if t.op == "call" and last(t.a[0]) == "length" and len(t.a[1]) == 1 and t.a[1][0].op in ("elem", "index"):
        s = t.a[1][0].a[0]
        if any(named(x) == "attribute_index" for x in walk(s)):
            return s
    return None


def sym(t, fl, depth=0, inside=()):
    """a position as {1: constant, 'start': position behind the header, 'H', 'R', 'A', ...}; None when not understood.
    Wrong quantities come out under their own name."""
    t = uncasted(t)
    out = {}

    def put(k, n):
        out[k] = out.get(k, 0) + n
    c, d = lin_parts(t)
    if c:
        put(1, c)
    for x, n in d.items():
        s = part(x, fl, depth, inside)
        if s is None:
            return None
        for k, m in s.items():
            put(k, m * n)
    return {k: v for k, v in out.items() if v}


def part(x, fl, depth, inside=()):
    if depth > 6:
        return None
    if x.op == "cast":
        return sym(x, fl, depth + 1, inside)
    if is_const(x):
        return {1: cval(x)} if isinstance(cval(x), int) else None
    if x.op == "pos0":
        return {"start": 1}
    if x.op == "len":
        b = x.a[0]
        while b.op in ("ref", "clone", "slice_all"):
            b = b.a[0]
        if b.op == "field" and b.a[1] == "header_buf":
            return {"H": 1}
        return {"the length of " + show(b, 3): 1}
    if x.op == "call" and last(x.a[0]) == "index_size" and "RTree" in x.a[0]:
        a = x.a[1]
        if len(a) == 2 and named(a[0]) == "features_count" and named(a[1]) == "index_node_size":
            return {"R": 1}
        return {"the size of an index of %s items in nodes of %s" % (show(a[0], 3), show(a[1], 3)): 1}
    if x.op == "call" and last(x.a[0]) in ("features_count", "index_node_size", "num_unique_items", "branching_factor"):
        return {"the " + last(x.a[0]): 1}
    if is_length(x) is not None:
        return {"the length of one attribute index": 1}
    if x.op == "payload" and x.a[0].op == "tryfold":
        r = part(x.a[0].a[0], fl, depth + 1, ()) if isinstance(x.a[0].a[0], T) else None
        return {("A" if k == "A so far" else k): n for k, n in r.items()} if r is not None else None
    if x.op == "sum" and x.a[0].op == "seq":
        s = x.a[0]
        if s.a[2] is True or s.a[2] is TRUE:
            v = sym(s.a[3], fl, depth + 1, inside)
            if v == {"the length of one attribute index": 1}:
                return {"A": 1}
            if v is not None:
                return {"the sum of " + str(v): 1}
        return {"a sum over some of " + show(s.a[0], 3): 1} if is_length(s.a[3]) is not None else None
    if reckoned(x):
        return {show(x, 4): 1}
    if x.op == "lv" and x in fl.loops:
        li = fl.loops[x]
        if li.next is None:
            return None
        i = sym(li.init, fl, depth + 1, inside)
        if i is None:
            return None
        ls = []
        for l in leaves(assign(li.next, lambda a: False if a.op in ("fails", "any") else None)):
            while l.op == "agg" and l.a[2] in ("Ok", "Some", "Continue"):
                l = agg_fields(l)["0"]
            if l is UNDEF or l.op == "agg" and l.a[2] == "Err":
                continue
            ls.extend(y for y in leaves(l) if y is not UNDEF)
        vs = [sym(sub(l, x), fl, depth + 1, inside) for l in ls]
        if vs and all(v == {"the length of one attribute index": 1} for v in vs):
            r = dict(i)
            k = "A so far" if li.key in inside else "A"
            r[k] = r.get(k, 0) + 1
            return r
        if vs and all(v is not None for v in vs) and any(set(v) - {"the length of one attribute index"} - {1} for v in vs):
            w = [v for v in vs if v != {"the length of one attribute index": 1}][0]
            i["rounds of " + told(w)] = 1
            return i
        return None
    return None


ROUND = ("next_multiple_of", "next_power_of_two", "saturating_sub", "div_ceil", "wrapping_add", "wrapping_sub")


def reckoned(x):
    """a figure other than a sum made from the length of one attribute index, a size or a position"""
    if x.op in ("bin", "mul", "div", "rem", "and", "or", "shl", "shr", "bitand", "bitor", "xor") or x.op == "call" and last(x.a[0]) in ROUND:
        ys = list(walk(x))
        return any(is_length(y) is not None or y.op in ("pos0", "lv") or y.op == "call" and last(y.a[0]) == "index_size" for y in ys) and any(is_const(y) for y in ys)
    return False


def expected(base, c, what):
    out = dict(base)
    if not c["attribute_index"]:
        out.pop("A so far", None)
    if what in ("attributes", "features") and c["features_count"] == "other" and c["index_node_size"] == "other":
        out["R"] = out.get("R", 0) + 1
    if what == "features" and c["attribute_index"]:
        out["A"] = out.get("A", 0) + 1
    return {k: v for k, v in out.items() if v}


def told(s):
    if not s:
        return "0"
    nm = {1: "", "start": "position behind the header", "H": "length of the header", "R": "size of the spatial index", "A": "length of all attribute indexes",
          "A so far": "length of the attribute indexes before it"}
    return " + ".join((str(v) if k == 1 else ("" if v == 1 else "%d * " % v) + nm.get(k, str(k))) for k, v in sorted(s.items(), key=lambda p: str(p[0])))


class Judge:
    """collects one obligation over all configurations"""

    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule

    def __call__(self, key, loc, fl, t, c, want, lab, inside=(), guard=TRUE):
        t = fix(t, c)
        if guard is not TRUE:
            t = restrict(t, forced(fix(guard, c)))
        ls = [l for l in leaves(t) if l is not UNDEF]
        got = [sym(l, fl, 0, inside) for l in ls]
        if not c["attribute_index"]:
            got = [g and {k: n for k, n in g.items() if k != "A"} for g in got]       # nothing to sum up
        if not ls or any(g is None for g in got):
            self.rep.open(self.rule, key, loc, "%s: position %s" % (lab, show(t, 5)))
        elif all(g == want for g in got):
            self.rep.ok(self.rule, key, loc)
        else:
            g = [g for g in got if g != want][0]
            self.rep.bad(self.rule, key, loc, "with %s it is taken to be at %s, it is at %s" % (lab, told(g), told(want)))


def reader_entries(cx):
    """(label, function, flow) of every way to select features; for async ones the body"""
    out = []
    fns = {f.path: f for f in cx.w.user_fns(("fcb_core",))}
    for f in fns.values():
        base, _, cl = f.path.partition("::{closure")
        if not base.rsplit("::", 1)[-1].startswith("select_") or "FcbReader" not in base:
            continue
        if base not in fns or cl and not (cl == "#0}" and "async fn body" in str(fns[base].ty(0).s)) or not cl and "async fn body" in str(f.ty(0).s):
            continue
        fl, ret = cx.flow(f, opaque=OPAQUE)
        out.append((("http " if "Http" in base else "") + base.rsplit("::", 1)[-1], f, fl, ret))
    return out


def about_reader(e):
    """the reader of the file is among the arguments"""
    for a in e.args:
        x = a
        while x.op in ("field", "payload", "ref", "take_reader", "mut"):
            if x.op == "field" and x.a[1] == "reader":
                return True
            x = x.a[0]
    return False


def moved_by(e, here):
    """-> new position after an event of the reader, or None when it does not move it, or False when unknown"""
    n = last(e.name)
    if e.kind == "io":
        if n == "copy" and e.args[0].op == "take_reader":
            return add(here, uncasted(e.args[0].a[1]))
        if n == "seek":
            s = e.args[1]
            if s.op == "agg" or s.op == "sw":
                def one(l):
                    if l.op != "agg":
                        return UNDEF
                    v = agg_fields(l).get("0", UNDEF)
                    k = l.a[2] or last(l.a[0])
                    return map2(here, v, lambda a, b: add(a, uncasted(b))) if k == "Current" else v if k == "Start" else UNDEF
                return mapleaf(s, one)
            return False
        if n == "seek_relative":
            return add(here, uncasted(e.args[1]))
        if n in ("stream_position", "flush", "by_ref"):
            return None
        if n == "read_exact":
            b = e.args[1]
            if b.op == "repeat":
                return map2(here, uncasted(b.a[1]), add)
            return False
        return False
    if e.kind == "call":
        if e.name.endswith(("PackedRTree::from_buf", "PackedRTree::stream_search")):
            a = e.args
            return add(here, mk("call", "PackedRTree::index_size", (a[1], a[2]), None))
        if n == "query" and "MultiIndex" in e.name:
            return None           # puts the reader back (A02)
    return False


@rule("L01")
def sections(cx):
    rep = cx.rep
    emitted(cx, rep)
    opened(cx, rep)
    tree_spans(cx, rep)
    n = 0
    for lab, f, fl, ret in sorted(reader_entries(cx), key=lambda p: p[0]):
        n += 1
        if lab.startswith("http"):
            remote(cx, rep, lab, f, fl, ret)
        else:
            local(cx, rep, lab, f, fl, ret)
    rep.floor("L01.order", 3)
    rep.floor("L01.features", 7)
    rep.floor("L01.spatial", 3)
    rep.floor("L01.attribute", 3)


def local(cx, rep, lab, f, fl, ret):
    its = [e for e in fl.events if e.kind == "call" and e.name.endswith("FeatureIter::new")]
    if not its:
        rep.open("L01.features", lab, f.loc(), "no iteration over features started")
        return
    steps = []
    rounds = {}
    for e in fl.events:
        if e is its[-1]:
            break
        if e.kind not in ("io", "call") or not about_reader(e) or last(e.name) in ("by_ref", "take"):
            continue
        if e.loops:
            rounds.setdefault(e.loops[0], []).append(e)
            if rounds[e.loops[0]][0] is not e:
                continue
        steps.append(e)
    for cl, c in CONFIGS.items():
        here = mk("pos0", mk("param", "reader", ""))
        base = {"start": 1}
        dead = False
        for e in steps:
            g = fix(e.guard, c)
            if g is FALSE:
                continue
            tree = e.kind == "call" and e.name.endswith(("PackedRTree::from_buf", "PackedRTree::stream_search"))
            attr = e.kind == "call" and last(e.name) == "query"
            if tree:
                Judge(rep, "L01.spatial")("%s, %s" % (lab, cl), e.loc, fl, here, c, base, cl)
            if e.loops:
                r = round_moves(rep, lab, cl, c, fl, e.loops[0], rounds[e.loops[0]], here, base)
                if r is None:
                    here = None
                    break
                here = r
                continue
            if attr:
                if any(about_reader_arg(a) for a in e.args):
                    Judge(rep, "L01.attribute")("%s, %s" % (lab, cl), e.loc, fl, here, c, expected(base, c, "attributes"), cl)
                continue
            h = moved_by(e, here)
            if h is None:
                continue
            if h is False:
                rep.open("L01.features", "%s, %s" % (lab, cl), e.loc, "effect of %s on the reader not known" % e.name)
                here = None
                break
            g2 = [a for a in atoms(g)]
            here = fix(ite(g, h, here) if g is not TRUE else h, c)
        if here is None:
            continue
        e = its[-1]
        if fix(e.guard, c) is FALSE:
            continue          # refused with an error in this configuration
        Judge(rep, "L01.features")("%s, %s" % (lab, cl), e.loc, fl, here, c, expected(base, c, "features"), cl, e.loops, e.guard)
        # a filter by attribute on a seekable reader goes to absolute positions
        if "Seekable" in str(f.ty(0).s) and "NotSeekable" not in str(f.ty(0).s):
            args = [fix(a, c) for a in e.args]
            offs = [a for a in args if a.op == "agg" and last(a.a[0]) == "FeatureOffset"]
            filt = [a for a in args if a.op == "agg" and a.a[2] == "Some" and any(last(x.a[0]) == "query" for x in walk(a) if x.op == "call")]
            if offs and filt:
                tot = const(0)
                for v in agg_fields(offs[0]).values():
                    tot = map2(tot, v, lambda a, b: add(a, uncasted(b)))
                Judge(rep, "L01.features")("%s, %s, from the start of the file" % (lab, cl), e.loc, fl, tot, c,
                                           expected({1: 8, "H": 1}, c, "features"), cl, e.loops, e.guard)
    if "attr" in lab and "seq" not in lab:
        ranges(rep, lab, f, fl)


def about_reader_arg(a):
    x = a
    while x.op in ("field", "payload", "ref", "mut"):
        if x.op == "field" and x.a[1] == "reader":
            return True
        x = x.a[0]
    return False


def round_moves(rep, lab, cl, c, fl, key, evs, here, base):
    """a loop over the attribute indexes that reads or skips one per round -> the position behind all"""
    tot = const(0)
    covered = FALSE
    for e in evs:
        g = fix(calm(e.guard), c)
        if g is FALSE:
            continue
        h = moved_by(e, const(0))
        if h is None:
            continue
        if h is False:
            rep.open("L01.attribute", "%s, %s" % (lab, cl), e.loc, "effect of %s on the reader not known" % e.name)
            return None
        tot = add2(tot, ite(g, h, const(0)))
    tot = fix(tot, c)
    bad = unk = None
    n = 0
    for p, l in paths(tot):
        if l is UNDEF:
            continue
        v = sym(l, fl)
        if v == {"the length of one attribute index": 1}:
            n += 1
        elif v is None:
            unk = l
        elif v == {} and any(errs(a, x) for a, x in p):
            continue
        else:
            bad = (v, p)
    loc = evs[0].loc
    if bad is not None:
        why = ", ".join("%s is %s" % (show(a, 4), x if not isinstance(x, tuple) else "other") for a, x in bad[1])
        rep.bad("L01.attribute", "%s, %s" % (lab, cl), loc, "the reader is moved by %s for an attribute index%s; it is as long as the header says" % (told(bad[0]), " when " + why if why else ""))
        return None
    if unk is not None or not n:
        rep.open("L01.attribute", "%s, %s" % (lab, cl), loc, show(unk, 5) if unk is not None else "nothing read in the loop")
        return None
    src = [through(x) for x in itsource(key, fl)]
    if early(fl, key):
        rep.bad("L01.attribute", "%s, %s" % (lab, cl), loc, "the loop over the attribute indexes can end before the last")
        return None
    if len(src) == 1 and any(named(x) == "attribute_index" for x in walk(src[0])):
        Judge(rep, "L01.attribute")("%s, %s" % (lab, cl), loc, fl, here, c, expected(base, c, "attributes"), cl)
        return add2(here, mk("sum", mk("seq", src[0], key, TRUE, one_length(evs))))
    rep.open("L01.attribute", "%s, %s" % (lab, cl), loc, "loop over %s" % [show(s, 4) for s in src])
    return None


def early(fl, key):
    return [1 for d, g in early_exits(fl, key)]


def one_length(evs):
    for e in evs:
        for a in e.args:
            for x in walk(a):
                if is_length(x) is not None:
                    return x
    return UNDEF


def errs(a, v):
    return a.op == "discr" and v in (0,) or a.op == "fails"


def add2(a, b):
    return map2(a, b, lambda x, y: add(x, uncasted(y)))


# ------------------------------------------------------------------ the writer
ORDER = ["magic", "header", "spatial index", "attribute indexes", "features"]


def emitted(cx, rep):
    R = "L01.order"
    W = Written(cx)
    if not W.ok:
        rep.open(R, "writer", W.fn.loc() if W.fn else "", "the assembly of the file was not recognised")
        return
    for lab, asg in W.configs.items():
        ps = pieces(W, asg)
        kinds = [k for k, e, g in ps if k != "empty"]
        want = [k for k in ORDER if k != "spatial index" or lab == "with spatial index"]
        loc = ps[0][1].loc if ps else W.fn.loc()
        cond = [(k, e, g) for k, e, g in ps if g is not TRUE and k != "empty"]
        loop = [(k, e) for k, e, g in ps if e.loops]
        if None in kinds or loop:
            x = [(k, e) for k, e, g in ps if k is None] or loop
            rep.open(R, lab, x[0][1].loc, "a piece of the file was not recognised: %s" % show(restrict(x[0][1].args[1], asg), 4))
        elif kinds != want:
            rep.bad(R, lab, loc, "the sections are written as %s, readers expect %s" % (", ".join(kinds), ", ".join(want)))
        elif cond:
            rep.open(R, lab, cond[0][1].loc, "the %s is written only under %s" % (cond[0][0], show(cond[0][2], 4)))
        else:
            rep.ok(R, lab, loc)
    # attribute indexes: ascending by the number of the attribute, as readers expect
    for e in W.attrs:
        if not e.loops:
            rep.open(R, "attribute indexes ascending", e.loc, "not built in a loop")
            continue
        src = [W.settle(x) for x in itsource(e.loops[-1], W.fl)]
        ls = [l for s in src for l in leaves(s) if l is not UNDEF]
        ls = [l for l in ls if not (l.op in ("payload", "field") and not any(x.op == "sorted" for x in walk(l)) and len(ls) > 1 and other_arm(src, l))]
        srt = [l for l in ls if l.op == "sorted"]
        back = [l for l in ls if l.op == "rev"]
        if ls and len(srt) == len(ls):
            ks = [s.a[1] for s in srt if len(s.a) > 1]
            nums = [k for k in ks if isinstance(k, T) and any(x.op == "field" and x.a[1] == "0" and x.a[0].op == "payload" and any(
                y.op == "call" and last(y.a[0]) == "get" for y in walk(x.a[0])) for x in walk(k))]
            if len(nums) == len(ks) and any(x.op == "agg" and last(x.a[0]) == "Reverse" for k in ks for x in walk(k)):
                rep.bad(R, "attribute indexes ascending", e.loc, "the attribute indexes are written in descending order of %s" % show(ks[0], 5))
            elif len(nums) == len(ks):
                rep.ok(R, "attribute indexes ascending", e.loc)
            elif all(isinstance(k, T) for k in ks):
                rep.bad(R, "attribute indexes ascending", e.loc, "the attribute indexes are written in the order of %s, readers take them in the order of the attribute numbers" % show(ks[0], 5))
            else:
                rep.open(R, "attribute indexes ascending", e.loc, [str(k)[:80] for k in ks])
        elif back or ls and all(root(l).op == "param" for l in ls):
            rep.bad(R, "attribute indexes ascending", e.loc, "the attribute indexes are written in the order they were asked for (%s), readers take them in the order of the attribute numbers" % show(ls[0], 4))
        else:
            rep.open(R, "attribute indexes ascending", e.loc, [show(l, 4) for l in ls])


def other_arm(src, l):
    """the value stands for 'no list at all' in a case split whose other side is the sorted list"""
    for s in src:
        if s.op == "sw" and s.a[0].op == "discr":
            a0 = child(s, s.a[0], 0)
            if any(x is l for x in leaves(a0)):
                return True
    return False


# ------------------------------------------------------------------ opening
def opened(cx, rep):
    """the header buffer is the size prefix and the header, and the reader is left right behind it"""
    R = "L01.header"
    for f in cx.w.user_fns(("fcb_core",)):
        if f.name in ("open", "open_unchecked") and "FcbReader" in f.path and "Http" not in f.path and "{closure" not in f.path:
            fl, ret = cx.flow(f, opaque=())
            bufs = [e.args[0] for e in fl.events if e.kind == "agg" and e.name.endswith("FcbBuffer")]
            hb = {agg_fields(b)["header_buf"] for b in bufs}
            if len(hb) != 1:
                rep.open(R, f.name, f.loc(), "%d header buffers" % len(hb))
                continue
            b = hb.pop()
            n, at = None, None
            if b.op == "store" and b.a[0].op == "resized" and b.a[2].op == "readat":
                n = b.a[0].a[1]
                rd = b.a[2]
                end = add(rd.a[1], rd.a[2])
                pre = b.a[0].a[0]
            elif b.op == "extend":
                pre = b.a[0]
                rs = [x for x in walk(b.a[1]) if x.op == "readat"]
                if len(rs) == 1:
                    end = add(rs[0].a[1], rs[0].a[2])
                    n = add(mk("len", pre) if pre.op != "readat" else pre.a[2], rs[0].a[2])
            if n is None:
                rep.open(R, f.name + ": buffer", f.loc(), show(b, 4))
                continue
            size = [x for x in walk(n) if x.op == "dec"]
            p0 = [x for x in walk(n if size else end) if x.op == "pos0"]
            base = mk("pos0", p0[0].a[0]) if p0 else UNDEF
            d = sub(uncast_all(n), const(4))
            if d.op == "dec" and d.a[0] == "u32" and d.a[1] == "le" and d.a[2].op == "readat" and sub(d.a[2].a[1], base) is const(8):
                rep.ok(R, f.name + ": buffer", f.loc())
            elif is_const(d) or any(x.op == "dec" for x in walk(n)):
                rep.bad(R, f.name + ": buffer", f.loc(), "the header buffer holds %s bytes, the file has 4 bytes of size and then the header" % show(n, 5))
            else:
                rep.open(R, f.name + ": buffer", f.loc(), "%s bytes" % show(n, 5))
            if sub(uncast_all(end), add(base, const(8))) is uncast_all(n):
                rep.ok(R, f.name + ": left behind the header", f.loc())
            elif is_const(sub(sub(uncast_all(end), add(base, const(8))), uncast_all(n))):
                rep.bad(R, f.name + ": left behind the header", f.loc(), "the header is read up to %s" % show(end, 5))
            else:
                rep.open(R, f.name + ": left behind the header", f.loc(), show(end, 5))
        if f.path.endswith("{closure#0}") and "HttpFcbReader" in f.path and f.path.count("{closure") == 1 and "open" in last(f.path.partition("::{closure")[0]):
            fl, ret = cx.flow(f, opaque=())
            bufs = [e.args[0] for e in fl.events if e.kind == "agg" and e.name.endswith("FcbBuffer")]
            if not bufs:
                continue
            b = agg_fields(bufs[0])["header_buf"]
            gets = sorted({x for x in walk(b) if x.op == "call" and last(x.a[0]) == "get_range"}, key=lambda x: x.id)
            span = [(uncast_all(x.a[1][1]), uncast_all(x.a[1][2])) for x in gets if len(x.a[1]) == 3]
            if len(span) != len(gets) or not span:
                rep.open(R, "http: buffer", f.loc(), show(b, 4))
                continue
            span = [s for s in span]
            first = [s for s in span if s[0] is const(8)]
            bad = None
            if len(span) == 1:
                n = sub(span[0][1], const(4))
                good = first and n.op == "dec"
            else:
                a = [s for s in span if is_const(s[1])]
                r = [s for s in span if not is_const(s[1])]
                good = len(a) == 1 and len(r) == 1 and a[0] == (const(8), const(4)) and r[0][0] is const(12) and r[0][1].op == "dec" and r[0][1].a[:2] == ("u32", "le")
            if good:
                rep.ok(R, "http: buffer", f.loc())
            elif all(is_const(s[0]) for s in span):
                rep.bad(R, "http: buffer", f.loc(), "the header is fetched as %s, the file has 4 bytes of size at 8 and then the header" % ["%s+%s" % (show(s, 2), show(n, 4)) for s, n in span])
            else:
                rep.open(R, "http: buffer", f.loc(), show(b, 4))
    rep.floor(R, 3)


def uncast_all(t):
    return rebuild(t, lambda x: x.a[2] if x.op == "cast" else x)


# ------------------------------------------------------------------ the extent of the spatial index
def tree_spans(cx, rep):
    """reading or searching the spatial index leaves the reader right behind it"""
    R = "L01.spatial"
    for f in cx.w.user_fns(("fcb_core",)):
        if f.name not in ("from_buf", "stream_search") or "PackedRTree" not in f.path:
            continue
        fl, ret = cx.flow(f, opaque=("generate_level_bounds",))
        rd = fl_param(f, 0)
        end = [v for k, v in fl.state.items() if k[0] == "pos" and k[1] is rd]
        key = "%s: left behind the index" % f.name
        if len(end) != 1:
            rep.open(R, key, f.loc(), "position of the reader not known")
            continue
        bad = unk = None
        good = 0
        for l in leaves(calm(end[0])):
            if l is UNDEF:
                continue
            n = span_of(l, rd, fl)
            if n is None:
                unk = l
            elif n[0] is True:
                good += 1
            else:
                bad = (l, n[1])
        if bad is not None:
            rep.bad(R, key, f.loc(), "the reader is left at %s" % show(bad[0], 6))
        elif unk is not None or not good:
            rep.open(R, key, f.loc(), show(unk, 5) if unk is not None else "")
        else:
            rep.ok(R, key, f.loc())


def all_nodes(t):
    """the number of nodes on all levels: the end of the leaf level"""
    t = uncast_all(t)
    if t.op == "field" and t.a[1] == "end":
        x = t.a[0]
        if x.op == "index" and is_const(x.a[1]) and cval(x.a[1]) == 0 or x.op == "payload" and x.a[0].op == "call" and last(x.a[0].a[0]) == "first":
            return any(y.op == "call" and last(y.a[0]) == "generate_level_bounds" for y in walk(x))
    return False


def span_of(l, rd, fl):
    p = mk("pos0", rd)
    d = uncast_all(sub(l, p))
    if d.op == "mul":
        a = list(d.a)
        if len(a) == 2:
            n = [x for x in a if all_nodes(x)]
            s = [x for x in a if x.op == "sizeof" or is_const(x) and cval(x) == 40 or x.op == "kconst"]
            if len(n) == 1 and len(s) == 1:
                return True, None
            return (False, d) if s else None
    if l.op != "lv" and (d.op == "lin" or is_const(d)):
        c, ds = lin_parts(d)
        if not c and len(ds) == 1 and list(ds.values()) == [40] and all_nodes(next(iter(ds))):
            return True, None
        if any(all_nodes(x) or x.op == "mul" and any(all_nodes(y) for y in x.a if isinstance(y, T)) for x in ds) or is_const(d):
            return False, d
        if all(uncast_all(x).op in ("param", "len") or uncast_all(x).op == "field" and uncast_all(x).a[1] in ("start", "end") for x in ds):
            return False, d       # a sum of known counts other than the number of nodes
        return None
    if l.op == "lv" and l in fl.loops:
        li = fl.loops[l]
        if li.next is None or li.init is not p:
            return None
        st = {sub(x, l) for x in leaves(calm(li.next)) if x is not UNDEF}
        if st != {const(40)}:
            return (False, l) if all(is_const(x) for x in st) else None
        for s in itsource(li.key, fl):
            if s.op == "agg" and s.a[0].endswith("Range"):
                fs = agg_fields(s)
                if not (is_const(fs["start"]) and cval(fs["start"]) == 0):
                    return None
                if all_nodes(fs["end"]):
                    return True, None
                if uncast_all(fs["end"]).op in ("lin", "param", "const"):
                    return False, l
        return None
    return None


# ------------------------------------------------------------------ http
def remote(cx, rep, lab, f, fl, ret):
    base = {1: 8, "H": 1}
    seen = 0
    for e in fl.events:
        if e.kind == "call" and e.name.endswith("http_stream_search") and "RTree" in e.name and len(e.args) >= 5:
            seen += 1
            for cl, c in CONFIGS.items():
                if fix(e.guard, c) is FALSE:
                    continue
                Judge(rep, "L01.spatial")("%s, %s" % (lab, cl), e.loc, fl, e.args[1], c, base, cl)
                Judge(rep, "L01.features")("%s, %s: length of the attribute indexes" % (lab, cl), e.loc, fl, e.args[2], c,
                                           {"A": 1} if c["attribute_index"] else {}, cl)
        if e.kind == "call" and e.name.endswith("HttpIndex::new") and len(e.args) >= 4:
            seen += 1
            for cl, c in CONFIGS.items():
                if not c["attribute_index"] or fix(calm(e.guard), c) is FALSE:
                    continue
                w = expected(base, c, "attributes")
                w["A so far"] = 1
                Judge(rep, "L01.attribute")("%s, %s" % (lab, cl), e.loc, fl, a_so_far(fix(e.args[2], c), c, fl), c, w, cl, e.loops)
                Judge(rep, "L01.features")("%s, %s" % (lab, cl), e.loc, fl, e.args[3], c, expected(base, c, "features"), cl)
            ascending(rep, lab, e, fl)
        if e.kind == "agg" and e.args and last(e.args[0].a[0]) == "SelectAll":
            seen += 1
            fs = agg_fields(e.args[0])
            ps = [v for n, v in fs.items() if any(x.op == "len" for x in walk(v))]
            if len(ps) != 1:
                rep.open("L01.features", lab, e.loc, show(e.args[0], 4))
                continue
            for cl, c in CONFIGS.items():
                if fix(e.guard, c) is not FALSE:
                    Judge(rep, "L01.features")("%s, %s" % (lab, cl), e.loc, fl, ps[0], c, expected(base, c, "features"), cl)
    if not seen:
        rep.open("L01.features", lab, f.loc(), "no section position handed on")


class _Fl:
    def __init__(self, fl, extra):
        self.loops = dict(fl.loops)
        self.loops.update(extra)


def a_so_far(t, c, fl):
    """a running position inside one configuration: the loop variable keeps its summary"""
    from flow import LoopInfo
    for x in walk(t):
        if x.op == "lv" and x not in fl.loops:
            for lv, li in list(fl.loops.items()):
                if lv.a[0] == x.a[0] and lv.a[1] == x.a[1] and lv.a[2] == x.a[2] and li.next is not None:
                    n = LoopInfo.__new__(LoopInfo)
                    n.key, n.fn, n.guard_in = li.key, li.fn, li.guard_in
                    n.var, n.init, n.next = x, fix(li.init, c), fix(li.next, c)
                    fl.loops[x] = n
                    break
    return t


def ascending(rep, lab, e, fl):
    """the running position is advanced in the order the indexes are written: by number, or as the header lists them"""
    if not e.loops:
        return
    src = itsource(e.loops[0], fl)
    order(rep, lab, e, src)


def order(rep, lab, e, src):
    key = "%s: order of the attribute indexes" % lab
    ok = bad = 0
    for s in src:
        for l in leaves(s):
            if not any(named(x) == "attribute_index" for x in walk(l)):
                continue
            if l.op == "rev" or l.op == "sorted" and not any(named(x) == "index" for x in walk(l.a[1])):
                bad += 1
            else:
                ok += 1
    if bad:
        rep.bad("L01.attribute", key, e.loc, "the attribute indexes are taken in an order other than that of their numbers")
    elif ok:
        rep.ok("L01.attribute", key, e.loc)
    else:
        rep.open("L01.attribute", key, e.loc, [show(s, 4) for s in src])


# ------------------------------------------------------------------ several indexes in one stream
def ranges(rep, lab, f, fl):
    """the ranges kept for the indexes of a stream follow each other, each as long as the header says"""
    R = "L01.attribute"
    n = 0
    used = {x.a[1:3] for e in fl.events if e.kind == "call" and last(e.name) == "query" for a in e.args for x in walk(a) if x.op == "lv"}
    for e in fl.events:
        if e.kind == "mutate" and e.args and not any(x.op == "lv" and x.a[1:3] in used for x in walk(e.args[0])):
            continue          # not what the search is told
        if e.kind != "mutate" or not e.name.endswith("Map::insert") or len(e.args) < 3:
            continue
        v = e.args[2]
        if v.op != "agg" or not v.a[0].endswith("Range"):
            continue
        n += 1
        fs = agg_fields(v)
        s, t = fs["start"], fs["end"]
        key = "%s: range of an index" % lab
        d = map2(t, s, sub)
        ls = [l for l in leaves(d) if l is not UNDEF]
        if all(is_length(l) is not None for l in ls):
            rep.ok(R, key + ", length", e.loc)
        elif all(sym(l, fl) is not None for l in ls):
            rep.bad(R, key + ", length", e.loc, "the range of an index is %s long" % told(sym(ls[0], fl)))
        else:
            rep.open(R, key + ", length", e.loc, show(d, 5))
        r = follows(s, e, fl)
        if r is True:
            rep.ok(R, key + ", start", e.loc)
        elif r is False:
            rep.bad(R, key + ", start", e.loc, "an index starts at %s, it follows the ones before it" % show(s, 5))
        else:
            rep.open(R, key + ", start", e.loc, show(s, 5))
        ascending(rep, lab, e, fl)
    if not n:
        rep.open(R, lab + ": range of an index", f.loc(), "no ranges kept")


def root_lv(l, s):
    return any(y is s for y in walk(l))


def follows(s, e, fl):
    """s is where the previous range ended (0 for the first)"""
    if s.op == "lv" and s in fl.loops and fl.loops[s].next is not None:
        li = fl.loops[s]
        i = sym(li.init, fl)
        if i != {}:
            return False if i is not None else None
        ls = [l for l in leaves(calm(li.next)) if l is not UNDEF]
        ds = [sub(l, s) for l in ls if l is not s]
        if ds and all(is_length(d) is not None for d in ds):
            return True if len(ds) == len(ls) else None
        if any(reckoned(l) and root_lv(l, s) for l in ls):
            return False
        return False if ds and all(sym(d, fl) is not None for d in ds) else None
    if s.op == "sw":
        ms = [x for x in walk(s) if x.op == "max"]
        mn = [x for x in walk(s) if x.op == "min"]
        zero = [l for l in leaves(s) if is_const(l)]
        rest = [l for l in leaves(s) if not is_const(l) and l is not UNDEF]
        if zero and all(cval(z) == 0 for z in zero) and len(rest) == 1 and rest[0].op == "payload" and rest[0].a[0].op == "max":
            q = rest[0].a[0].a[0]
            if q.op == "seq" and (q.a[2] is TRUE or q.a[2] is True) and q.a[3].op == "field" and q.a[0].op == "call" and last(q.a[0].a[0]) == "values":
                if q.a[3].a[1] == "end" and any(x is e.args[0] for x in walk(q.a[0])):
                    return True
                return False if q.a[3].a[1] == "start" else None
            if q.op == "seq" and (q.a[2] is TRUE or q.a[2] is True) and q.a[3].op == "lin" and any(x is e.args[0] for x in walk(q.a[0])):
                c, d = lin_parts(q.a[3])
                if len(d) > 1 and all(x.op == "field" and x.a[1] in ("start", "end") for x in d):
                    return False
        if zero and any(cval(z) != 0 for z in zero) and ms or mn:
            return False
    if is_const(s):
        return False
    return None
