"""Attribute indexes: key types of writer and readers (A05), what an index holds (A06)."""
import re
from rules import rule, final
from term import *
from util import *
from .attr import NAMES, coltype_atoms, restrict_fn, meth, TOTAL
from .cli import orall, always

OPENERS = {"MemoryIndex::from_buf": "memory", "StreamIndex::new": "stream", "HttpIndex::new": "http"}
OPAQUE = tuple(OPENERS) + ("MemoryIndex::build", "MemoryIndex::serialize", "Stree::from_buf", "MemoryMultiIndex::query", "StreamMultiIndex::query",
                           "HttpMultiIndex::query", "MultiIndex::query")


def opener(e):
    if e.kind != "call":
        return None
    p = e.name.split("::")
    return OPENERS.get("::".join(p[-2:]))


def tyname(t):
    """a type as the name of what is stored: paths dropped, the wrapper of floats under one name"""
    t = re.sub(r"[a-zA-Z_]\w*::", "", str(t))
    return re.sub(r"\b(OrderedFloat|Float|FloatKey)\b", "Float", t)


def with_coltype(g, c):
    return restrict_fn(g, lambda a: c if a.op == "field" and str(a.a[2]).endswith("ColumnType") else False if a.op == "fails" else None)


# ------------------------------------------------------------------ roots
def entry_builder(cx):
    """the function that turns a feature into index entries and files them, as seen from the writer's public entry point"""
    out = []
    for f in cx.w.user_fns(("fcb_core",)):
        if f.path.endswith("::add_feature") and "FcbWriter" in f.path:
            out.append(f)
    return out


ENTRY = "AttributeIndexEntry"


class Entries:
    """the entries the writer makes of a feature's attributes, by column type"""

    def __init__(self, cx):
        self.cx = cx
        self.items = []
        self.fl = None
        for f in entry_builder(cx):
            fl, ret = cx.flow(f, opaque=("to_fcb_city_feature", "to_fcb_attribute"))
            self.fn, self.fl, self.ret = f, fl, ret
        if self.fl is None:
            return
        for e in self.fl.events:
            if e.kind == "agg" and e.args and e.args[0].op == "agg" and e.args[0].a[0].rsplit("::", 1)[-1] == ENTRY:
                self.items.append((e, e.args[0]))

    def types(self):
        """column type -> variants made for it"""
        out = {}
        for e, a in self.items:
            ats = {x for x in atoms(e.guard) if x.op == "field" and str(x.a[2]).endswith("ColumnType")}
            for c in range(len(NAMES)):
                g = with_coltype(e.guard, c)
                if g is not FALSE:
                    if ats:
                        out.setdefault(c, set()).add(a.a[2])
        return out


def reaching(cx, f, owner, name):
    """f reaches a call of owner::name through the library"""
    memo = cx.__dict__.setdefault("_reach", {})
    if f.path not in memo:
        memo[f.path] = cx.w.reachable([f])
    return any(p.rsplit("::", 1)[-1] == name and owner in p for p in memo[f.path])


def build_root(cx):
    """the smallest writer function that builds the index of one attribute, choosing by column type"""
    if "_build_root" in cx.__dict__:
        return cx._build_root
    cand = [f for f in cx.w.user_fns(("fcb_core",)) if "::writer::" in f.path and "{closure" not in f.path and reaching(cx, f, "MemoryIndex", "build")]
    best = None
    for f in sorted(cand, key=lambda f: (len(cx._reach[f.path]), f.path)):
        fl, ret = cx.flow(f, opaque=OPAQUE + ("finish_to_header", "hilbert_sort", "calc_extent", "PackedRTree::build", "PackedRTree::stream_write"))
        bs = [e for e in fl.events if e.kind == "call" and e.name.endswith("MemoryIndex::build")]
        if bs and any(coltype_atoms(e.guard) for e in bs):
            best = (f, fl, ret, bs)
            break
    cx._build_root = best
    return best


def readers(cx):
    out = []
    fns = {f.path: f for f in cx.w.user_fns(("fcb_core",))}
    for f in fns.values():
        base, _, cl = f.path.partition("::{closure")
        if not base.rsplit("::", 1)[-1].startswith("select_attr_query") or "FcbReader" not in base:
            continue
        if cl and not (cl == "#0}" and "async fn body" in str(fns[base].ty(0).s)) or not cl and "async fn body" in str(f.ty(0).s):
            continue
        fl, ret = cx.flow(f, opaque=OPAQUE)
        lab = "http" if "HttpFcbReader" in base else "seek" if not base.endswith("_seq") else "seq"
        out.append((lab, f, fl, ret))
    return out


def uncasted(t):
    while t.op == "cast":
        t = t.a[2]
    return t


def fbcall(t, name):
    """the object whose flatbuffers field `name` t is"""
    t = uncasted(t)
    return t.a[1][0] if t.op == "call" and t.a[0].rsplit("::", 1)[-1] == name and len(t.a[1]) == 1 else None


@rule("A05")
def key_types(cx):
    R = "A05.type"
    rep = cx.rep
    en = Entries(cx)
    made = en.types() if en.fl is not None else {}
    br = build_root(cx)
    if not made or br is None:
        rep.open(R, "writer", "", "the writer's index construction was not recognised")
        rep.floor(R, 27)
        return
    bf, bfl, bret, bs = br
    keyof = {}
    for c in sorted(made):
        live = [e for e in bs if with_coltype(e.guard, c) is not FALSE]
        ks = {tyname(e.targs[0]) for e in live if e.targs}
        if not live:
            rep.bad(R, "writer: " + NAMES[c], bf.loc(), "index entries are made of %s attributes but no index can be built of them" % NAMES[c])
        elif len(ks) > 1:
            rep.bad(R, "writer: " + NAMES[c], live[0].loc, "several key types: " + ", ".join(sorted(ks)))
        elif not ks or not re.match(r"[A-Za-z]\w+", sorted(ks)[0]) or sorted(ks)[0] == "T":
            rep.open(R, "writer: " + NAMES[c], live[0].loc, "key type not resolved")
        else:
            keyof[c] = ks.pop()
            rep.ok(R, "writer: " + NAMES[c], live[0].loc, keyof[c])
    for lab, f, fl, ret in readers(cx):
        ops = [e for e in fl.events if opener(e)]
        if not ops:
            rep.open(R, lab, f.loc(), "no index is opened here in a recognised way")
            continue
        for c in sorted(keyof):
            key = "%s: %s" % (lab, NAMES[c])
            live = [e for e in ops if with_coltype(e.guard, c) is not FALSE]
            ks = {tyname(e.targs[0]) for e in live if e.targs}
            if not live:
                rep.bad(R, key, f.loc(), "an index on a %s column, built with %s keys, cannot be opened" % (NAMES[c], keyof[c]))
            elif "T" in ks or not ks:
                rep.open(R, key, live[0].loc, "key type not resolved")
            else:
                wrong = sorted(k for k in ks if k != keyof[c])
                rep.check(not wrong, R, key, live[0].loc, "an index on a %s column is built with %s keys and opened with %s" % (NAMES[c], keyof[c], ", ".join(wrong)))
        shapes(rep, lab, f, fl, ops)
    rep.floor(R, 27)


def shapes(rep, lab, f, fl, ops):
    """item count, branching factor and column of an opened index come from the index's own description"""
    R = "A05.shape"
    kinds = {}
    for e in ops:
        args = e.args
        n = next((i for i, a in enumerate(args) if fbcall(a, "num_unique_items") is not None), None)
        b = next((i for i, a in enumerate(args) if fbcall(a, "branching_factor") is not None), None)
        key = "%s: %s" % (lab, tyname(e.targs[0]) if e.targs else "?")
        want = (1, 2) if opener(e) == "memory" else (0, 1)
        if n is None or b is None:
            odd = args[want[0]] if n is None else args[want[1]]
            what = "number of items" if n is None else "branching factor"
            odd = uncasted(odd)
            if derived(odd):
                rep.bad(R, key, e.loc, "the %s is %s, not that of the index" % (what, show(odd, 4)))
            elif is_const(odd) or odd.op == "call" and ".Header::" not in odd.a[0] and "AttributeIndex::" in odd.a[0]:
                rep.bad(R, key, e.loc, "the %s is %s, not that of the index" % (what, show(odd, 3)))
            else:
                rep.open(R, key, e.loc, "%s is %s" % (what, show(odd, 3)))
            continue
        if (n, b) != want:
            rep.bad(R, key, e.loc, "number of items and branching factor are exchanged")
            continue
        x, y = fbcall(args[n], "num_unique_items"), fbcall(args[b], "branching_factor")
        if x is not y:
            rep.bad(R, key, e.loc, "number of items and branching factor belong to different indexes: %s and %s" % (show(x, 3), show(y, 3)))
            continue
        col = own_col(e, x)
        if col is None:
            rep.open(R, key, e.loc, "column of the index not recognised")
            continue
        if col is False:
            rep.bad(R, key, e.loc, "the key type is chosen by a column that is not the one the index names")
            continue
        ins = [m for m in fl.events if m.kind == "mutate" and m.name.rsplit("::", 1)[-1] == "insert" and len(m.args) >= 3 and
               any(y is e.ret for y in walk(m.args[2])) and AND(m.guard, e.guard) is not FALSE]
        if not ins:
            rep.open(R, key, e.loc, "where the opened index is kept was not recognised")
            continue
        bad = None
        for m in ins:
            nm = m.args[1]
            while nm.op == "call" and nm.a[0].rsplit("::", 1)[-1] in ("to_string", "clone", "into", "to_owned", "from"):
                nm = nm.a[1][0]
            o = fbcall(nm, "name")
            if o is None:
                bad = ("open", "name " + show(nm, 3))
            elif plain(o) is not plain(col):
                bad = ("bad", "the index is filed under the name of another column")
        if bad is None:
            rep.ok(R, key, e.loc)
        elif bad[0] == "bad":
            rep.bad(R, key, e.loc, bad[1])
        else:
            rep.open(R, key, e.loc, bad[1])
    rep.floor(R, 9)


def derived(t):
    """computed from the index's description, but not it"""
    return t.op in ("lin", "min", "max", "div", "mul", "shr", "shl", "rem", "sw") and any(fbcall(x, "num_unique_items") is not None or fbcall(x, "branching_factor") is not None
                                                                                            for x in walk(t))


def own_col(e, x):
    """the column whose type decides in the guard of e: found by the index number of x; None not recognised, False another one"""
    cols = set()
    for a in atoms(e.guard):
        if a.op == "field" and str(a.a[2]).endswith("ColumnType"):
            c = fbcall(a.a[0], "type_")
            if c is None:
                return None
            cols.add(c)
    if len(cols) != 1:
        return None
    col = cols.pop()
    fnd = col
    while fnd.op == "payload":
        fnd = fnd.a[0]
    if fnd.op != "find":
        return None
    p = fnd.a[2]
    ats = list(atoms(p))
    if len(ats) != 1 or ats[0].op != "cmp":
        return None
    l, r = ats[0].a[0], ats[0].a[1]
    ol, orr = fbcall(l, "index"), fbcall(r, "index")
    if ol is None or orr is None:
        return None
    eq = restrict(p, {ats[0]: 0}) is TRUE and restrict(p, {ats[0]: -1}) is FALSE and restrict(p, {ats[0]: 1}) is FALSE
    if not eq:
        return False
    if x in (ol, orr) and any(o is not x and o.op == "elem" for o in (ol, orr)):
        return col
    return False


@rule("A02")
def conditions_built(cx):
    """the conditions searched for are the caller's, all of them, each with its own field, operator and key"""
    R = "A02.built"
    rep = cx.rep
    for lab, f, fl, ret in readers(cx):
        qs = [e for e in fl.events if e.kind == "call" and e.name.rsplit("::", 1)[-1] == "query" and "MultiIndex" in e.name]
        if not qs:
            rep.open(R, lab, f.loc(), "no query of several conditions recognised")
            continue
        for e in qs:
            cs = [s for a in e.args for s in walk(a) if s.op == "seq" and any(t.op == "agg" and t.a[0].rsplit("::", 1)[-1] == "QueryCondition" for t in [s.a[3]])]
            lists = [a for a in e.args if a.op == "seq" or a.op == "agg"]
            if len(cs) != 1:
                rep.open(R, lab, e.loc, "conditions " + ", ".join(show(a, 3) for a in lists))
                continue
            s = cs[0]
            src, _, flt, el = s.a
            bad = None
            if flt is not TRUE:
                bad = "conditions are left out depending on " + show(flt, 4)
            if src.op in ("skip", "take", "slice", "rev", "step"):
                if src.op != "rev":
                    bad = "only part of the conditions is used: " + show(src, 3)
            cut = [t for a in e.args for t in walk(a) if t.op in ("take", "skip", "slice") and any(y is s for y in walk(t))]
            if cut:
                bad = "only part of the conditions is used: " + show(cut[0], 3)
            fields = agg_fields(el)
            for want, nm in (("field", "0"), ("operator", "1"), ("key", "2")):
                v = fields.get(want)
                if v is None:
                    continue
                if v.op == "field" and v.a[0].op == "elem" and v.a[0].a[0] is src:
                    if v.a[1] != nm:
                        bad = "the %s of a condition is taken from item %s of the caller's condition" % (want, v.a[1])
                elif is_const(v) or v.op == "agg" and not any(t.op == "elem" for t in walk(v)):
                    bad = "the %s of every condition is %s" % (want, show(v, 3))
                else:
                    rep.open(R, lab + ": " + want, e.loc, show(v, 3))
            if bad:
                rep.bad(R, lab, e.loc, bad)
            else:
                rep.ok(R, lab, e.loc)
    rep.floor(R, 3)


# ------------------------------------------------------------------ A06
CUTS = ("take", "skip", "slice", "step")
CUTCALLS = ("take", "skip", "step_by", "take_while", "skip_while", "split_at", "chunks_exact", "dedup", "dedup_by", "dedup_by_key", "truncate", "filter_map",
            "retain", "pop", "drain", "first", "last", "find")


def cut_of(src):
    return next((x for x in walk(src) if x.op in CUTS or x.op == "seq" and x.a[2] is not TRUE or
                 x.op in ("call", "mut") and x.a[0].rsplit("::", 1)[-1] in CUTCALLS), None)


def full_loops(rep, R, key, fl, e, loops=None):
    """every loop around the event runs over its whole collection"""
    bad, unk = None, None
    for lk in (e.loops if loops is None else loops):
        srcs = itsource(lk, fl) if lk and lk[0] != "it" else []
        for src in srcs:
            x = cut_of(src)
            if x is not None:
                bad = "only part of %s is visited: %s" % (show(src, 3), show(x, 3))
        if lk and lk[0] != "it":
            for dst, g in early_exits(fl, lk):
                bad = "the loop can end before its last item: %s" % show(g, 4)
    if bad:
        rep.bad(R, key, e.loc, bad)
    elif unk:
        rep.open(R, key, e.loc, unk)
    else:
        rep.ok(R, key, e.loc)
    return bad is None


def attr_get(t):
    """the lookup of an attribute's value in the object's attributes, inside t"""
    return [x for x in walk(t) if x.op == "call" and re.search(r"\bMap(<.*>)?::get$", strip_ga(x.a[0])) or x.op == "find"]


def strip_ga(s):
    return re.sub(r"::<[^>]*>", "", s)


def situation(g, c, val):
    """guard of an entry of column type c for a present value (val), a null (None) or a missing one (False)"""
    def f(a):
        if a.op == "field" and str(a.a[2]).endswith("ColumnType"):
            return c
        if a.op == "fails":
            return False
        if is_more(a):
            return True
        mine = bool(attr_get(a))
        if a.op == "discr":
            x = a.a[0]
            m = meth(x)
            if m == "get" and attr_get(x) and attr_get(x)[0] is x:
                return 0 if val is False else 1
            if m in ("as_i64", "as_u64", "as_f64", "as_bool", "as_str") and mine:
                return (1 if c in TOTAL[m] else 0) if val else 0
            if m in ("as_object",):
                return 1
            if m == "parse_from_rfc3339" or m in ("try_into",) or m in ("try_from", "from_str", "parse"):
                return 0
            if m == "get":
                return 1
            if x.op == "field" and x.a[1] in ("attributes", "attribute_indices", "attr_indices"):
                return 1
        m = meth(a)
        if m == "is_null":
            return val is not True if mine else False
        if m == "is_object":
            return not mine
        if m == "contains_key":
            return val is not False
        if m in TOTAL and mine:
            return val is True and c in TOTAL[m]
        if a.op == "len" and a.a[0].op == "payload" or a.op in ("len", "isempty") and meth(a.a[0]) == "as_object":
            return 7 if a.op == "len" else False
        return None
    return restrict_fn(g, f)


def rest_quant(g, op, pick):
    """g with the atoms picked quantified away"""
    memo = {}

    def go(t):
        if t.op != "sw":
            return t
        if t not in memo:
            kids = [go(x) for _, x in t.a[1]] + ([go(t.a[2])] if t.a[2] is not None else [])
            if pick(t.a[0]):
                r = kids[0]
                for k in kids[1:]:
                    r = op(r, k)
            else:
                r = recase(t.a[0], [(k, go(x)) for k, x in t.a[1]], None if t.a[2] is None else go(t.a[2]))
            memo[t] = r
        return memo[t]
    return go(g)


def option_of_self(a):
    """whether something optional of the writer itself is there"""
    return a.op == "discr" and not of_object(a)


def of_object(a):
    """a test of something an object of the feature carries"""
    return any(x.op == "elem" and any(y.op == "field" and y.a[1] == "city_objects" for y in walk(x.a[0])) for x in walk(a))


LOSSLESS = {"to_utc", "with_timezone", "into", "from", "clone", "to_string", "to_owned", "as_str", "to_i64", "and_utc", "naive_utc"}
READS = {"as_i64", "as_u64", "as_f64", "as_bool", "as_str"}
INTY = {"i8": (-2 ** 7, 2 ** 7), "u8": (0, 2 ** 8), "i16": (-2 ** 15, 2 ** 15), "u16": (0, 2 ** 16), "i32": (-2 ** 31, 2 ** 31), "u32": (0, 2 ** 32),
        "i64": (-2 ** 63, 2 ** 63), "u64": (0, 2 ** 64), "usize": (0, 2 ** 64), "isize": (-2 ** 63, 2 ** 63)}
COLTY = {0: "i8", 1: "u8", 3: "i16", 4: "u16", 5: "i32", 6: "u32", 7: "i64", 8: "u64"}


def value_of(t, c):
    """('value', get term) if t is the attribute's value unchanged for column type c, ('bad', why) or ('open', why)"""
    while True:
        if t.op == "payload":
            t = t.a[0]
        elif t.op == "cast":
            fr, to = str(t.a[0]), str(t.a[1])
            if fr in INTY and to in INTY:
                lo, hi = INTY[COLTY[c]] if c in COLTY else INTY[fr]
                l2, h2 = INTY[to]
                if c in COLTY and (lo < l2 or hi > h2):
                    return "bad", "a %s value is cut to %s" % (NAMES[c], to)
            elif (fr, to) == ("f64", "f32"):
                if c != 9:
                    return "bad", "a %s value is rounded to f32" % NAMES[c]
            elif fr in ("f64", "f32") and to in INTY:
                return "bad", "the fraction of the value is cut"
            t = t.a[2]
        elif t.op == "agg" and t.a[0].rsplit("::", 1)[-1] in ("OrderedFloat", "Float") and len(agg_fields(t)) == 1:
            t = list(agg_fields(t).values())[0]
        elif t.op == "call":
            m = meth(t)
            if t.a[0] == "try_into":
                t = t.a[1][0]
                continue
            if m in READS and len(t.a[1]) == 1:
                g = t.a[1][0]
                while g.op == "payload":
                    g = g.a[0]
                if g.op == "call" and g in attr_get(g):
                    return "value", g
                return "open", show(t, 3)
            if m == "parse_from_rfc3339" or m in LOSSLESS and t.a[1]:
                t = t.a[1][0]
                continue
            if m in ("to_lowercase", "to_uppercase", "trim", "to_ascii_lowercase", "to_ascii_uppercase", "trim_end", "trim_start", "abs", "round", "floor", "ceil", "trunc",
                     "wrapping_add", "saturating_add", "neg", "wrapping_neg"):
                return "bad", "the value is changed by " + m
            return "open", show(t, 3)
        elif t.op == "lin" or is_const(t) or t.op == "slice" or t.op == "sw" and all(is_const(l) for l in leaves(t)):
            return "bad", "the value stored is %s" % show(t, 3)
        else:
            return "open", show(t, 3)


@rule("A06")
def entries_made(cx):
    """each present value of each indexed attribute of each object gives one entry with that value, a null or absent one none"""
    R = "A06.made"
    rep = cx.rep
    en = Entries(cx)
    if not en.items:
        rep.open(R, "entries", "", "construction of the entries not recognised")
        rep.floor(R, 9)
        return
    fl = en.fl
    types = en.types()
    pushes = [e for e in fl.events if e.kind == "mutate" and e.name.rsplit("::", 1)[-1] in ("push", "push_back", "insert")]
    for c in sorted(types):
        nm = NAMES[c]
        mine = [(e, a) for e, a in en.items if situation(e.guard, c, True) is not FALSE]
        if not mine:
            rep.bad(R, nm, en.fn.loc(), "a present %s value makes no entry" % nm)
            continue
        e, a = mine[0]
        kept = [p for p in pushes if any(x is a for arg in p.args[1:] for x in walk(arg))]
        ev = orall([p.guard for p in kept]) if kept else orall([x.guard for x, _ in mine])
        pres = rest_quant(situation(ev, c, True), OR, option_of_self)
        if pres is not TRUE:
            odd = [x for x in atoms(pres)]
            if odd and all(x.op in ("cmp", "len", "isempty", "call", "any") or of_object(x) for x in odd):
                rep.bad(R, nm, e.loc, "a present %s value makes an entry only depending on %s" % (nm, show(odd[0], 4)))
            elif pres is FALSE:
                rep.bad(R, nm, e.loc, "a present %s value makes no entry" % nm)
            else:
                rep.open(R, nm, e.loc, "condition " + show(odd[0], 4))
            continue
        bad = None
        for val, word in ((None, "null"), (False, "missing")):
            if any(situation(p.guard, c, val) is not FALSE for p in (kept or [e])):
                bad = "a %s value makes an entry too" % word
        if bad:
            rep.bad(R, nm, e.loc, bad)
            continue
        if len(mine) > 1 and len({x for _, x in mine}) > 1:
            rep.bad(R, nm, e.loc, "several entries are made of one value")
            continue
        fs = agg_fields(a)
        if "index" not in fs or "val" not in fs:
            rep.open(R, nm, e.loc, show(a, 3))
            continue
        k, v = value_of(fs["val"], c)
        if k == "bad":
            rep.bad(R, nm, e.loc, v)
            continue
        if k == "open":
            rep.open(R, nm, e.loc, v)
            continue
        name = v.a[1][1] if len(v.a[1]) > 1 else None
        look = [x for x in walk(fs["index"]) if x.op == "call" and meth(x) == "get"]
        ty = [x for at in coltype_atoms(e.guard) for x in walk(at.a[0]) if x.op == "call" and meth(x) == "get"]
        if not look or name is None:
            if is_const(uncasted(fs["index"])):
                rep.bad(R, nm, e.loc, "the column of the entry is always %s" % show(fs["index"], 2))
            else:
                rep.open(R, nm, e.loc, "column " + show(fs["index"], 3))
            continue
        if not any(len(x.a[1]) > 1 and plain(x.a[1][1]) is plain(name) for x in look) or fs["index"].op == "lin":
            rep.bad(R, nm, e.loc, "the entry carries column %s, its value is that of attribute %s" % (show(fs["index"], 3), show(name, 3)))
            continue
        if ty and not any(len(x.a[1]) > 1 and plain(x.a[1][1]) is plain(name) for x in ty):
            rep.bad(R, nm, e.loc, "the type is that of attribute %s, the value that of %s" % (show(ty[0], 3), show(name, 3)))
            continue
        rep.ok(R, nm, e.loc)
        full_loops(rep, "A06.visit", nm, fl, e)
    rep.floor(R, 9)
    rep.floor("A06.visit", 9)
    filed(rep, en)


def filed(rep, en):
    """the entries of a feature, and nothing of another feature, are filed with it"""
    R = "A06.filed"
    fl = en.fl
    colls = set()
    for p in fl.events:
        if p.kind == "mutate" and p.name.rsplit("::", 1)[-1] == "push" and any(x is a for _, a in en.items for arg in p.args[1:] for x in walk(arg)):
            colls.add(p.args[0].a[0] if p.args[0].op == "lv" else p.args[0])
    n = 0
    for m in fl.events:
        if m.kind != "mutate" or m.name.rsplit("::", 1)[-1] != "insert" or len(m.args) < 3:
            continue
        v = m.args[2]
        parts = set()
        unk = None
        for l in leaves(v):
            x = part_of(l, "index_entries")
            if x is None:
                unk = show(l, 3)
            else:
                parts |= set(leaves(x))
        if not parts:
            continue
        n += 1
        stale = [x for x in parts if x.op == "extend" or x.op == "field" or x.op == "push" or x.op == "lv" and reaches_self(x, fl)]
        some = [x for x in parts if x.op == "lv" and x in fl.loops]
        if stale and any("self" in show(x, 8) for x in stale):
            rep.bad(R, "entries", m.loc, "what is filed with a feature still holds entries made before: %s" % show(stale[0], 4))
        elif not some:
            rep.open(R, "entries", m.loc, unk or ", ".join(show(x, 2) for x in parts))
        else:
            rep.ok(R, "entries", m.loc)
    rep.floor(R, 1)


def part_of(t, name):
    r = field(t, name)
    return None if r is UNDEF else r


def reaches_self(lv, fl):
    li = fl.loops.get(lv)
    return li is not None and any(x.op == "param" and x.a[0] == "self" for l in leaves(li.init) for x in walk(l) if l.op not in ("empty",))


@rule("A06")
def entries_kept(cx):
    """the index of an attribute is built of exactly the entries of that attribute, each with its key and its feature's place"""
    R = "A06.kept"
    rep = cx.rep
    br = build_root(cx)
    en = Entries(cx)
    types = en.types() if en.fl is not None else {}
    if br is None or not types:
        rep.open(R, "build", "", "construction of the index not recognised")
        rep.floor(R, 9)
        return
    f, fl, ret, bs = br
    variants = {a.a[2]: a.a[1] for _, a in en.items}
    pushes = [e for e in fl.events if e.kind == "mutate" and e.name.rsplit("::", 1)[-1] == "push" and e.args[1].op == "agg" and
              e.args[1].a[0].rsplit("::", 1)[-1] == "Entry"]
    for c in sorted(types):
        nm = NAMES[c]
        mine = [e for e in pushes if with_coltype(e.guard, c) is not FALSE]
        if not mine:
            rep.open(R, nm, f.loc(), "collection of the entries not recognised")
            continue
        e = mine[0]
        g = assign(with_coltype(orall([x.guard for x in mine]), c), lambda a: True if is_more(a) else None)
        vs = [a for a in allats(g) if a.op == "discr" and a.a[0].op == "elem"]
        if len(vs) != 1:
            rep.open(R, nm, e.loc, "choice by kind of entry not recognised")
            continue
        item = vs[0].a[0]
        made = types[c]
        cmpa = [a for a in allats(g) if a.op == "cmp" and any(x.op == "field" and x.a[1] == "index" or x.op == "payload" and x.a[0] is item for y in a.a[:2] for x in walk(y))]
        out = None
        for v in variants:
            for k in (-1, 0, 1):
                r = restrict(g, dict([(vs[0], variants[v])] + [(a, k) for a in cmpa]))
                if v in made and k == 0:
                    if r is FALSE:
                        out = "the %s entries of the attribute are left out" % v
                    elif r is not TRUE:
                        rest = list(atoms(r))
                        out = "entries are left out depending on %s" % show(rest[0], 4)
                        if rest[0].op not in ("cmp", "len", "call", "isempty", "any", "bit", "rem"):
                            out = ("open", show(rest[0], 4))
                elif v in made and r is not FALSE and cmpa:
                    out = "entries of other attributes are taken in too"
        if not cmpa and out is None:
            out = "entries of other attributes are taken in too: the column is not compared"
        if isinstance(out, tuple):
            rep.open(R, nm, e.loc, out[1])
            continue
        if out:
            rep.bad(R, nm, e.loc, out)
            continue
        x, y = cmpa[0].a[0], cmpa[0].a[1]
        own = [z for z in (x, y) if any(w is item for w in walk(z))]
        oth = [z for z in (x, y) if not any(w is item for w in walk(z))]
        if len(own) != 1 or len(oth) != 1:
            rep.open(R, nm, e.loc, show(cmpa[0], 4))
            continue
        fs = agg_fields(e.args[1])
        off = uncasted(fs.get("offset", const(0)))
        feat = item.a[0]
        while feat.op in ("field",) and feat.a[1] != "index_entries":
            feat = feat.a[0]
        feat = feat.a[0] if feat.op == "field" else None
        if off.op == "field" and off.a[1] == "offset" and feat is not None and off.a[0] is feat:
            pass
        elif off.op == "field" and feat is not None and off.a[0] is feat:
            rep.bad(R, nm, e.loc, "the entry points to the feature's %s instead of its offset" % off.a[1])
            continue
        elif is_const(off) or off.op == "lin":
            rep.bad(R, nm, e.loc, "the entry points to %s instead of the feature's offset" % show(off, 4))
            continue
        else:
            rep.open(R, nm, e.loc, "offset " + show(off, 3))
            continue
        rep.ok(R, nm, e.loc)
        key_kept(rep, nm, e, fs["key"], item, c)
        full_loops(rep, "A06.all", nm, fl, e)
        b = [x for x in bs if with_coltype(x.guard, c) is not FALSE]
        src = b[0].args[0]
        cut = cut_of(src)
        lvs = [x for x in walk(src) if x.op == "lv" and x in fl.loops]
        if cut is not None:
            rep.bad("A06.handed", nm, b[0].loc, "only part of the entries goes into the index: %s" % show(cut, 3))
        elif src.op == "lv" or src.op == "mut" and lvs:
            rep.ok("A06.handed", nm, b[0].loc)
        else:
            rep.open("A06.handed", nm, b[0].loc, show(src, 3))
    for r in (R, "A06.key", "A06.all", "A06.handed"):
        rep.floor(r, 9)


def allats(g):
    return list(atoms(g))


def key_kept(rep, nm, e, k, item, c):
    R = "A06.key"

    def is_val(t):
        return t.op in ("payload", "field") and t.a[0] is item and t.a[-1] == "val" or t.op == "field" and t.a[1] == "val" and t.a[0].op == "payload" and t.a[0].a[0] is item
    t = k
    while True:
        if is_val(t):
            rep.ok(R, nm, e.loc)
            return
        if t.op == "agg" and t.a[0].rsplit("::", 1)[-1] in ("OrderedFloat", "Float"):
            t = list(agg_fields(t).values())[0]
        elif t.op == "cast" and str(t.a[0]) in INTY and str(t.a[1]) in INTY and INTY[str(t.a[0])][1] - INTY[str(t.a[0])][0] <= INTY[str(t.a[1])][1] - INTY[str(t.a[1])][0]:
            t = t.a[2]
        elif t.op == "cast":
            rep.bad(R, nm, e.loc, "the key is the value narrowed from %s to %s" % (t.a[0], t.a[1]))
            return
        elif t.op == "agg" and t.a[0].rsplit("::", 1)[-1] == "FixedStringKey":
            s = list(agg_fields(t).values())[0]
            if fixed_prefix(s, is_val):
                rep.bad(R, nm + ": fixed width", e.loc, "values that agree in their first bytes, or differ in trailing zero bytes only, get the same key")
                rep.ok(R, nm, e.loc, "the leading bytes of the value")
            elif s.op == "store" and s.a[0].op == "repeat":
                rep.bad(R, nm, e.loc, "the key is not made of the leading bytes of the value: %s" % show(s, 5))
            else:
                rep.open(R, nm, e.loc, show(s, 4))
            return
        elif is_const(t) or t.op == "lin" or t.op == "call" and meth(t) in ("to_lowercase", "to_uppercase", "trim", "abs", "to_ascii_lowercase"):
            rep.bad(R, nm, e.loc, "the key is %s, not the value" % show(t, 4))
            return
        else:
            rep.open(R, nm, e.loc, show(t, 4))
            return


def fixed_prefix(s, is_val):
    """zeros, overwritten from the start by the leading bytes of the value as far as both reach"""
    if s.op != "store" or s.a[0].op != "repeat" or not (is_const(s.a[0].a[0]) and cval(s.a[0].a[0]) == 0):
        return False
    at, x = s.a[1], s.a[2]
    if at.op != "agg" or x.op != "slice" or not is_val(x.a[0]):
        return False
    f = agg_fields(at)
    if "start" in f and not (is_const(f["start"]) and cval(f["start"]) == 0):
        return False
    if not (is_const(x.a[1]) and cval(x.a[1]) == 0) or f.get("end") is not x.a[2]:
        return False
    m = x.a[2]
    n = s.a[0].a[1]
    parts = set(m.a) if m.op == "min" else set(leaves(m)) if m.op == "sw" else set()
    parts.discard(mk("len", x.a[0]))
    return len(parts) == 1 and (parts == {n} or show(n, 2) in show(list(parts)[0], 2) and list(parts)[0].op in ("kconst", "const", "param"))
