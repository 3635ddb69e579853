"""C01 standard output, C02 complete conversions, C03 box filter and extent of the tool."""
import itertools

from ev import ev, Unknown
from util import *
from mir import short, strip_generics
from . import rule, params

OPQ = ()


def cli_fns(cx):
    return [f for f in cx.w.user_fns(("fcb",)) if not f.is_closure()]


def calls_of(fn):
    for b, f, t in fn.calls():
        if f:
            yield b, strip_generics(f["p"]), t


def has_stdout(t):
    return any(x.op == "call" and x.a[0].endswith("io::stdout") for x in walk(t))


def commands(cx):
    """functions of the tool that obtain standard output as their destination -> (fn, flow)"""
    reach = {}
    for f in cli_fns(cx):
        fl, ret = cx.flow(f)
        outs = [e for e in fl.events if e.kind == "call" and e.name.endswith("io::stdout")]
        if outs:
            reach[f] = (fl, ret, outs)
    return reach


# ------------------------------------------------------------------ C01
@rule("C01")
def library(cx):
    """no function of the library writes to standard output"""
    R = "C01.library"
    n = 0
    for f in cx.w.user_fns(("fcb_core",)):
        if "/bin/" in f.file or "/tests/" in f.file or "/benches/" in f.file:
            continue
        n += 1
        for b, nm, t in calls_of(f):
            if nm in ("std::io::_print", "std::io::stdio::_print") or nm.endswith("io::stdout"):
                cx.rep.bad(R, short(strip_generics(f.path)) + " " + nm.rsplit("::", 1)[-1], f.loc(b), "the library writes to standard output: while the tool converts to '-', this lands in the document")
    cx.rep.ok(R, "library functions", "", "%d functions of the library never print to standard output" % n)
    cx.rep.check(n >= 200, R, "library size", "", "only %d functions of the library were analysed" % n)


def sat(a, b):
    """some execution satisfies both conditions"""
    return AND(a, b) is not FALSE


@rule("C01")
def prints(cx):
    """in the tool nothing is printed on an execution whose destination is standard output"""
    R = "C01.print"
    reach = commands(cx)
    seen = set()
    for f, (fl, ret, outs) in reach.items():
        for e in fl.events:
            if e.kind != "call" or not e.name.endswith("io::_print"):
                continue
            key = "%s prints" % short(e.fn.path)
            bad = [o for o in outs if sat(e.guard, o.guard)]
            seen.add((e.fn.path, e.bb))
            if bad:
                cx.rep.bad(R, key, e.loc, "printed to standard output while the document goes to standard output as well (in %s)" % f.name)
            else:
                cx.rep.ok(R, key, e.loc)
        # printing helpers the value flow did not enter
        for p in cx.w.reachable([f]):
            g = cx.w.fns.get(p) if isinstance(cx.w.fns, dict) else None
            if g is None or g.crate != "fcb" or short(f.path) == "main":
                continue
            for b, nm, t in calls_of(g):
                if nm in ("std::io::_print", "std::io::stdio::_print") and (g.path, b) not in seen:
                    cx.rep.open(R, "%s in %s" % (g.name, f.name), g.loc(b), "a printing function is reachable but was not followed")
        cx.rep.ok(R, "command " + f.name, f.loc(), "")
    cx.rep.floor(R, 5)
    # the destination is what the user asked for
    R = "C01.destination"
    for f, (fl, ret, outs) in reach.items():
        for o in outs:
            if o.fn is not f:
                continue
            asked = [a for a in atoms(o.guard) if a.op == "param"]
            cx.rep.check(len(asked) == 1 and forced(o.guard).get(asked[0]) == "-" if asked else False, R, f.name, o.loc,
                         "standard output is the destination under %s, not exactly when '-' was asked for" % show(o.guard, 3)) if asked else cx.rep.open(R, f.name, o.loc, "condition not recognised: %s" % show(o.guard, 3))


def template_text(t):
    """literal text of a formatting template constant"""
    out = []
    for x in walk(t):
        if x.op == "kconst":
            s = next((a for a in x.a if isinstance(a, str) and a.startswith('b"')), None)
            if s is None:
                continue
            try:
                b = eval(s)
            except Exception:
                return None
            i = 0
            while i < len(b):
                c = b[i]
                if c == 0:
                    break
                if c < 0x80:
                    out.append(b[i + 1:i + 1 + c])
                    i += 1 + c
                elif c == 0x80:
                    n = b[i + 1] | b[i + 2] << 8
                    out.append(b[i + 3:i + 3 + n])
                    i += 3 + n
                elif c == 0xc0:
                    i += 1
                else:
                    return None
    return b"".join(out)


def writes(fl):
    """events handing data to a destination that may be standard output -> (event, destination, data terms)"""
    for e in fl.events:
        if e.kind not in ("call", "io", "mutate", "inl") or not e.args:
            continue
        nm = e.name.rsplit("::", 1)[-1]
        if nm in ("new", "with_capacity", "flush", "fails", "by_ref", "branch", "from_residual", "new_display", "new_debug", "format", "from", "into") or e.kind == "inl" and nm != "write":
            continue
        for i, a in enumerate(e.args):
            if has_stdout(a) and not (e.args[0].op == "call" and "FcbReader" in e.args[0].a[0]):
                if a.op == "agg" and a.a[2] in ("Ok", "Some", "Err"):
                    break
                yield e, a, [x for j, x in enumerate(e.args) if j != i]
                break


SERIALIZERS = ("serde_json::to_string", "serde_json::to_vec", "serde_json::to_writer", "serde_cbor::to_writer", "to_writer", "to_vec", "to_string", "to_string_pretty", "to_writer_pretty")


@rule("C01")
def document(cx):
    """what is written to the destination is serialized data, without text of its own"""
    R = "C01.document"
    for f, (fl, ret, outs) in commands(cx).items():
        if f.name == "main":
            continue
        n = 0
        for e, dst, data in writes(fl):
            nm = e.name.rsplit("::", 1)[-1]
            key = "%s: %s" % (f.name, nm)
            if nm == "write_fmt":
                txt = template_text(data[0])
                lits = [x for x in walk(data[0]) if x.op == "const" and isinstance(x.a[1], str)]
                if data[0].op == "call" and data[0].a[0].endswith("from_str"):
                    txt = b"".join(str(x.a[1]).encode() for x in lits)
                if txt is None:
                    cx.rep.open(R, key, e.loc, "template not recognised")
                elif txt.strip():
                    cx.rep.bad(R, key, e.loc, "text of the tool's own is mixed into the document: %r" % txt.decode("utf8", "replace"))
                else:
                    n += 1
                    cx.rep.ok(R, key, e.loc)
            elif nm in ("write_all", "write"):
                lits = [x for d in data for x in walk(d) if x.op in ("const", "kconst") and x is not d or x is d]
                d = strip_wrap(data[0]) if data else None
                if d is not None and d.op == "const" and isinstance(d.a[1], (str, bytes)) and str(d.a[1]).strip():
                    cx.rep.bad(R, key, e.loc, "text of the tool's own is mixed into the document: %r" % (d.a[1],))
                else:
                    n += 1
                    cx.rep.ok(R, key, e.loc)
            else:
                n += 1
                cx.rep.ok(R, key, e.loc)
    cx.rep.floor(R, 4)


# ------------------------------------------------------------------ C02
def orall(gs):
    r = FALSE
    for g in gs:
        r = OR(r, g)
    return r


def always(g):
    """the condition with the engine's own 'still running' tests assumed"""
    return assign(g, lambda a: False if a.op == "fails" else None)


def write_like(e):
    nm = e.name.rsplit("::", 1)[-1]
    return nm in ("write_fmt", "write_all", "write", "write_vectored", "to_writer", "copy", "to_writer_pretty")


def consumed(e):
    """the destination is handed over whole to a library writer, which is responsible for it from then on"""
    return e.name.endswith("FcbWriter::write")


@rule("C02")
def flushed(cx):
    """a destination written to is flushed after the last write on every path that reports success"""
    R = "C02.flush"
    todo = []
    for f, (fl, ret, outs) in commands(cx).items():
        if f.name == "main" or not [1 for _ in writes(fl)]:
            continue
        todo.append((f, fl, lambda t: has_stdout(t)))
    w = cx.one("FcbWriter::write")
    fl, ret = cx.flow(w, opaque=WOPQ)
    ps = params(w)
    todo.append((w, fl, lambda t, p=ps[1]: root_dest(t) is p))
    for f, fl, isdst in todo:
        ws = [e for e in fl.events if e.kind in ("call", "io", "mutate") and (write_like(e) or consumed(e)) and any(isdst(a) for a in e.args)]
        if not ws:
            cx.rep.open(R, f.name, f.loc(), "no write to the destination recognised")
            continue
        last = max(e.seq for e in ws)
        if any(consumed(e) for e in ws if e.seq == last):
            cx.rep.ok(R, f.name, f.loc(), "handed to FcbWriter::write")
            continue
        fs = [e for e in fl.events if e.kind in ("io", "call", "mutate") and e.name.rsplit("::", 1)[-1] in ("flush", "into_inner", "sync_all") and e.args and isdst(e.args[0])]
        after = [e for e in fs if e.seq > last and not e.loops]
        cover = always(orall([e.guard for e in after]))
        if cover is TRUE:
            cx.rep.ok(R, f.name, after[0].loc)
        else:
            e = next(x for x in ws if x.seq == last)
            cx.rep.bad(R, f.name, e.loc, "success is reported without flushing what was written here%s" % (" (flushed only if %s)" % show(cover, 3) if after else ""))
    cx.rep.floor(R, 5)


def root_dest(t):
    while t.op in ("mut", "field", "payload") or t.op == "call" and t.a[1] and t.a[0].rsplit("::", 1)[-1] in ("new", "by_ref", "get_mut", "with_capacity"):
        t = t.a[3] if t.op == "mut" and len(t.a) > 3 and hasattr(t.a[3], "op") else t.a[1][-1] if t.op == "call" else t.a[0] if hasattr(t.a[0], "op") else t.a[-1]
    return t


WOPQ = ("build_attribute_index_for_attr", "to_fcb_header", "PackedRTree::build", "PackedRTree::stream_write", "hilbert_sort", "calc_extent", "finish_to_feature", "finish_to_header")


@rule("C02")
def every_feature(cx):
    """every selected feature is handed on, each once, and the loop doing so ends only at the end of the input"""
    R = "C02.features"
    seen = set()
    for f, (fl, ret, outs) in commands(cx).items():
        if f.name == "main":
            continue
        for e in fl.events:
            nm = e.name.rsplit("::", 1)[-1]
            feed = e.kind == "call" and e.name.endswith("FcbWriter::add_feature")
            out = e.kind in ("call", "io") and write_like(e) and e.loops and any(has_stdout(a) for a in e.args)
            if not (feed or out):
                continue
            grp = [x for x in fl.events if x.name == e.name and x.loops == e.loops and x.kind == e.kind]
            key = "%s: %s" % (f.name, nm)
            if (f.name, e.name, e.loops) in seen:
                continue
            seen.add((f.name, e.name, e.loops))
            if not e.loops:
                cx.rep.open(R, key, e.loc, "not in a loop over the features")
                continue
            lk = e.loops[-1]
            g = assign(orall([x.guard for x in grp]), lambda a: True if is_more(a) else 1 if nextish(a) else False if a.op == "fails" else None)
            rest = [a for a in atoms(g) if depends_item(a, e, fl) and not of_box(a)]
            if g is FALSE:
                cx.rep.open(R, key, e.loc, "guard not recognised")
            elif quant(g, set(rest), AND) is not quant(g, set(rest), OR):
                cx.rep.bad(R, key, e.loc, "a selected feature is left out depending on %s" % show(rest[0], 4))
            else:
                cx.rep.ok(R, key, e.loc)
            ex = early_exits(fl, lk) if lk and lk[0] != "it" else []
            for dst, xg in ex:
                cx.rep.bad(R, key + ": loop exit", e.loc, "the loop over the features can end early: %s" % show(xg, 4))
            if not ex:
                cx.rep.ok(R, key + ": loop exit", e.loc)
            for src in itsource(lk, fl):
                trunc = [x for x in walk(src) if x.op in ("take", "skip", "slice", "step") or x.op == "call" and x.a[0].rsplit("::", 1)[-1] in
                         ("take", "skip", "step_by", "take_while", "skip_while", "split_at", "chunks_exact", "dedup", "dedup_by", "dedup_by_key", "truncate", "filter_map", "get")]
                if trunc:
                    cx.rep.bad(R, key + ": input", e.loc, "only part of the features is visited: %s" % show(trunc[0], 4))
                else:
                    cx.rep.ok(R, key + ": input", e.loc)
    cx.rep.floor(R, 4)


def quant(g, ats, op, memo=None):
    """g with the given atoms quantified away: AND = for all outcomes, OR = for some"""
    memo = {} if memo is None else memo
    if g.op != "sw":
        return g
    if g not in memo:
        arms = [quant(c, ats, op, memo) for k, c in g.a[1]] + ([quant(g.a[2], ats, op, memo)] if g.a[2] is not None and g.a[2] is not UNDEF else [])
        if g.a[0] in ats:
            r = arms[0]
            for c in arms[1:]:
                r = op(r, c)
        else:
            it = iter(arms)
            r = mksw(g.a[0], {k: next(it) for k, c in g.a[1]}, next(it, g.a[2]))
        memo[g] = r
    return memo[g]


def of_box(a):
    return any(x.op == "param" and "bbox" in x.a[0] for x in walk(a))


def seqish(a):
    return any(x.op == "call" and x.a[0].endswith("read_cityjson_from_reader") for x in walk(a.a[0])) and a.a[0].op == "payload"


def depends_item(a, e, fl):
    """the atom looks at the item of the innermost loop (or at state carried around it)"""
    lk = e.loops[-1]
    for x in walk(a):
        if x.op == "elem" or x.op == "lv" and x in fl.loops and fl.loops[x].key == lk or x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("next", "cur_cj_feature", "cur_feature") or x.op == "idx":
            return True
    return False


@rule("C02")
def written(cx):
    """the file the library writes receives every part it assembled; a conversion writes its header"""
    R = "C02.parts"
    s = next((f for f in cli_fns(cx) if f.name == "serialize"), None)
    for f, (fl, ret, outs) in commands(cx).items():
        if f.name == "main":
            continue
        adds = [e for e in fl.events if e.kind == "call" and e.name.endswith("FcbWriter::add_feature")]
        if adds:
            ws = [e for e in fl.events if e.kind == "call" and e.name.endswith("FcbWriter::write")]
            ok = [e for e in ws if e.seq > max(a.seq for a in adds) and not e.loops]
            g = always(orall([e.guard for e in ok]))
            g = assign(g, lambda a: 1 if a.op == "discr" and seqish(a) else None)
            cx.rep.check(g is TRUE, R, "%s: write" % f.name, adds[0].loc, "features are added but the file is not written on every path%s" % (": %s" % show(g, 3) if ok else ""))
        else:
            ws = [e for e, d, _ in writes(fl)]
            if ws:
                g = always(orall([e.guard for e in ws if not e.loops]))
                cx.rep.check(g is TRUE, R, "%s: document" % f.name, ws[0].loc, "the document is written only if %s" % show(g, 3))
    cx.rep.floor(R, 4)


@rule("C02")
def input_read(cx):
    """every line of the input after the first becomes a feature"""
    R = "C02.input"
    f = cx.one("cj_utils::parse_cityjson")
    fl, ret = cx.flow(f)
    for x in [x for x in walk(ret) if x.op == "agg" and x.a[0].endswith("CityJSONSeq")]:
        t = agg_fields(x)["features"]
        for l in leaves(t):
            if l.op != "seq":
                cx.rep.open(R, "features", f.loc(), "not recognised: %s" % show(l, 3))
                continue
            part = [y for y in walk(l.a[0]) if y.op in ("take", "skip", "slice") or y.op == "call" and y.a[0].rsplit("::", 1)[-1] in ("take", "skip", "take_while", "skip_while", "step_by", "map_while")]
            part = [y for y in part if y.a[0] is not None]
            if part:
                cx.rep.bad(R, "features", f.loc(), "only part of the input lines is read: %s" % show(part[0], 3))
                continue
            cond = [a for a in atoms(l.a[2]) if not is_more(a) and a.op != "fails"]
            blank = all(any(y.op == "len" or y.op == "call" and "empty" in y.a[0] for y in walk(a)) or a.op == "discr" and "is_empty" in show(a, 6) for a in cond)
            if cond and not blank:
                cx.rep.open(R, "features", f.loc(), "a line becomes a feature only if %s" % show(cond[0], 4))
            else:
                cx.rep.ok(R, "features", f.loc())
    cx.rep.floor(R, 1)


@rule("C02")
def schemas(cx):
    """the schema covers the attributes of every object (surface) of every feature that is written"""
    R = "C02.schema"
    for f, (fl, ret, outs) in commands(cx).items():
        if f.name == "main":
            continue
        feats = [e for e in fl.events if e.kind == "call" and e.name.endswith("FcbWriter::add_feature") and e.loops]
        if not feats:
            continue
        src = set(map(plain, itsource(feats[0].loops[-1], fl)))
        for e in fl.events:
            if e.kind not in ("call", "mutate") or not e.name.endswith("add_attributes"):
                continue
            what = "surfaces" if any(x.op == "field" and x.a[1] == "other" for x in walk(e.args[1])) else "objects"
            key = "%s: %s" % (f.name, what)
            if not e.loops:
                cx.rep.open(R, key, e.loc, "not in a loop over the features")
                continue
            first = set(map(plain, itsource(e.loops[0], fl))) if e.loops[0][0] != "it" else None
            if first is None or not first:
                cx.rep.open(R, key, e.loc, "what is visited is not recognised")
            else:
                cx.rep.check(first == src, R, key + ": features", e.loc, "attributes are collected from other features than those written: %s" % show(next(iter(first)), 3))
            for lk in e.loops:
                ex = early_exits(fl, lk) if lk[0] != "it" else []
                cx.rep.check(not ex, R, key + ": exhaustive", e.loc, "collection can stop early: %s" % (ex and show(ex[0][1], 4)))
                for s_ in itsource(lk, fl):
                    tr = [x for x in walk(s_) if x.op in ("take", "skip", "slice") or x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("take", "skip", "step_by", "take_while", "first", "last")]
                    if tr:
                        cx.rep.bad(R, key + ": input", e.loc, "only part is visited: %s" % show(tr[0], 4))
            # no condition other than the presence of what is visited
            g = assign(e.guard, lambda a: True if is_more(a) else 1 if a.op == "discr" else None)
            rest = [a for a in atoms(g) if a.op not in ("fails", "param")]
            if g is FALSE or rest and any(l is FALSE for l in leaves(g)):
                if rest:
                    cx.rep.bad(R, key + ": condition", e.loc, "attributes are collected only if %s" % show(rest[0], 4))
                else:
                    cx.rep.open(R, key + ": condition", e.loc, "guard not recognised")
            else:
                cx.rep.ok(R, key + ": condition", e.loc)
        # and it is this schema that the writer gets
        for e in fl.events:
            if e.kind == "call" and e.name.endswith("FcbWriter::new"):
                for i, what in ((2, "attribute schema"), (3, "semantic schema")):
                    t = e.args[i]
                    fed = [x for x in deps(t, fl) if x.op in ("call", "mut") and "add_attributes" in str(x.a[0])]
                    kinds = {"surfaces" if any(y.op == "field" and y.a[1] == "other" for z in kids_of(x) for y in walk(z)) else "objects" for x in fed if x.op == "call"}
                    want = "objects" if i == 2 else "surfaces"
                    if not fed:
                        cx.rep.bad(R, "%s: %s" % (f.name, what), e.loc, "the writer is given no schema made from the features")
                    else:
                        cx.rep.check(want in kinds, R, "%s: %s" % (f.name, what), e.loc, "the schema given to the writer is made from the attributes of %s" % "/".join(sorted(kinds)))
    cx.rep.floor(R, 8)


def kids_of(x):
    return [a for a in x.a[1]] if x.op == "call" else [a for a in x.a if hasattr(a, "op")]


# ------------------------------------------------------------------ C03
SC = (0.5, 2.0, 4.0)
TR = (10.0, -3.0, 7.0)


def axis_const(x):
    return x.op == "index" and is_const(x.a[1]) and isinstance(cval(x.a[1]), int)


def geo_env(vals, box=None, elemlen=3, other=None):
    """valuation of vertex numbers, scale, translate and the query box"""
    def env(t):
        if other is not None:
            v = other(t)
            if v is not None:
                return v
        if axis_const(t):
            i = cval(t.a[1])
            b = t.a[0]
            if b.op == "field" and b.a[1] == "scale":
                return SC[i]
            if b.op == "field" and b.a[1] == "translate":
                return TR[i]
            r = b
            if b.op == "elem" or b.op == "index":
                if any(y.op == "field" and y.a[1] == "vertices" for y in walk(b)):
                    return vals[i]
            if box is not None and root(b).op in ("param", "lv") and not any(y.op == "field" for y in walk(b)):
                return box[i]
        if t.op == "len" and any(y.op == "field" and y.a[1] == "vertices" for y in walk(t)) and t.a[0].op == "elem":
            return elemlen
        if is_more(t):
            return True
        if t.op == "discr" and not any(x.op == "elem" for x in walk(t)):
            return 1
        return None
    return env


def evx(t, env):
    """ev with numeric casts"""
    def env2(x):
        v = env(x)
        if v is not None:
            return v
        if x.op == "cast":
            return float(ev(x.a[-1], env2))
        return None
    return ev(t, env2)


@rule("C03")
def box_filter(cx):
    """a feature passes exactly when one of its real-world vertices lies in the closed box"""
    R = "C03.filter"
    f = next((f for f in cli_fns(cx) if f.name == "feature_intersects_bbox"), None)
    ser = next((f for f in cli_fns(cx) if f.name == "serialize"), None)
    if ser is None:
        cx.rep.open(R, "serialize", "", "command not found")
        return
    fl, ret = cx.flow(ser)
    calls = [e for e in fl.events if e.kind == "call" and e.name.endswith("FcbWriter::add_feature") and e.loops]
    if not calls:
        cx.rep.open(R, "serialize", ser.loc(), "no selection recognised")
        return
    srcs = itsource(calls[0].loops[-1], fl)
    par = [p for p in params(ser) if p.a[0] == "bbox"]
    par = par[0] if par else None
    for src in srcs:
        isb = lambda v: (lambda a: v if a.op == "discr" and a.a[0] is par else 1 if a.op == "discr" and seqish(a) else None)
        non = assign(src, isb(0))
        for l in leaves(non):
            if l.op == "undef":
                continue
            cx.rep.check(l.op != "seq", R, "without a box", calls[0].loc, "features are filtered although no box was given: %s" % show(l, 3))
        yes = assign(src, isb(1))
        for l in leaves(yes):
            if l.op == "undef":
                continue
            if l.op != "seq":
                cx.rep.check(l.op in ("call",), R, "with a box", calls[0].loc, "a box was given but the features are not filtered") if l.op != "call" else cx.rep.open(R, "with a box", calls[0].loc, "selection not recognised")
                continue
            judge_filter(cx, R, fl, l, calls[0])
    cx.rep.floor(R, 2)


def judge_filter(cx, R, fl, s, e0):
    g = s.a[2]
    g = assign(g, lambda a: 1 if a.op == "discr" and not any(x.op in ("elem",) for x in walk(a)) else None)
    key = "point in closed box"
    loops = [k for k in fl.exits if any(any(x.op == "lv" or x.op == "field" and x.a[1] == "vertices" for x in walk(i)) for i in itsource(k, fl))]
    n = 0
    # the search over the vertices: every way out other than exhaustion is an exit with the answer
    g2, conds = unpush(g, fl)
    anys = [x for x in walk(g2) if x.op == "any"]
    for el in (3,):
        for c in conds:
            try:
                v = evx(c, geo_env((1, 1, 1), None, el))
                cx.rep.check(v is True, R, "vertices considered", e0.loc, "a vertex with three coordinates is left out")
            except Unknown as u:
                cx.rep.open(R, "vertices considered", e0.loc, "condition not recognised: %s" % show(u.args[0], 3))
    pts = (0, 1, 2, 3, 4)
    for bx, by in itertools.product(((1, 3), (2, 2)), repeat=2):
        for px, py in itertools.product(pts, repeat=2):
            box = (bx[0] * SC[0] + TR[0], by[0] * SC[1] + TR[1], bx[1] * SC[0] + TR[0], by[1] * SC[1] + TR[1])
            for pz in (0, 2000):
                want = bx[0] <= px <= bx[1] and by[0] <= py <= by[1]
                env0 = geo_env((px, py, pz), box)

                def env(t, env0=env0):
                    if t.op == "any":
                        return evx(t.a[2], env0)
                    if t.op == "discr" and not any(x.op == "elem" for x in walk(t)):
                        return 1
                    return env0(t)
                try:
                    got = evx(g2, env)
                except Unknown as u:
                    cx.rep.open(R, key, e0.loc, "not decidable: %s" % show(u.args[0], 4))
                    return
                n += 1
                if got is not want:
                    cx.rep.bad(R, key, e0.loc, "a vertex at %s of box [%s..%s]x[%s..%s] (grid units) is %s" % ((px, py), bx[0], bx[1], by[0], by[1], "accepted" if got else "rejected"))
                    return
                # leaving the search early is right only with a hit
                for k in fl.exits:
                    if not any(x.op == "lv" and x.a[0] == k for x in walk(g)) and not any(k == x for x in loopkeys(g)):
                        continue
                    for dst, xg in early_exits(fl, k):
                        xg2, _ = unpush(xg, fl)
                        try:
                            xv = evx(xg2, env)
                        except Unknown:
                            continue
                        if xv is True and not want:
                            cx.rep.bad(R, "every vertex", e0.loc, "the search over a feature's vertices stops at a vertex outside the box")
                            return
    cx.rep.ok(R, key, e0.loc, "%d positions" % n)
    cx.rep.ok(R, "every vertex", e0.loc)


def loopkeys(t):
    out = set()
    for x in walk(t):
        if x.op == "more" or x.op == "elem":
            k = x.a[-1]
            if hasattr(k, "op") and k.op == "lv":
                out.add(k.a[0])
    return out


@rule("C03")
def extent(cx):
    """each component of the stored extent is the minimum or maximum of its own axis over all vertices"""
    R = "C03.extent"
    ser = next((f for f in cli_fns(cx) if f.name == "serialize"), None)
    if ser is None:
        return
    fl, ret = cx.flow(ser)
    news = [e for e in fl.events if e.kind == "call" and e.name.endswith("FcbWriter::new")]
    calls = [e for e in fl.events if e.kind == "call" and e.name.endswith("FcbWriter::add_feature") and e.loops]
    if not news:
        cx.rep.open(R, "serialize", ser.loc(), "no extent recognised")
        return
    src = set(map(plain, itsource(calls[0].loops[-1], fl))) if calls else set()
    opt = [x for x in walk(news[0].args[1]) if x.op == "agg" and x.a[0].endswith("HeaderWriterOptions")]
    if not opt:
        cx.rep.open(R, "serialize", ser.loc(), "header options not recognised")
        return
    ge = agg_fields(opt[0]).get("geographical_extent")
    n = 0
    done = set()
    for c, l in cases(ge):
        if l.op == "agg" and l.a[2] == "Some":
            for c2, arr in cases(l.a[4]):
                if arr.op != "agg" or len(agg_fields(arr)) != 6:
                    cx.rep.open(R, "extent", news[0].loc, "value not recognised: %s" % show(arr, 3))
                    continue
                if arr in done:
                    continue
                done.add(arr)
                f = agg_fields(arr)
                if all(is_const(strip_wrap(v)) for v in f.values()):
                    judge_default(cx, R, l.a[4], arr, news[0])
                    continue
                for i in range(6):
                    n += 1
                    judge_component(cx, R, fl, f[str(i)], i, src, news[0])
    # judged once per distinct key; a floor guards against decomposition failures
    cx.rep.floor(R, 6)


def judge_default(cx, R, t, arr, e):
    """the placeholder for 'no vertices' is chosen only when nothing was found"""
    at = atoms(t)
    for a in at:
        if a.op == "cmp":
            lv = [x for x in a.a if x.op == "lv"]
            co = [x for x in a.a if is_const(x)]
            if len(lv) == 1 and len(co) == 1:
                for v in (-5.0, 0.0, 5.0, 1e300):
                    try:
                        r = assign(t, lambda y: ((v > cval(co[0])) - (v < cval(co[0]))) * (1 if y.a[0] is lv[0] else -1) if y is a else None)
                    except Exception:
                        continue
                    if r is arr:
                        cx.rep.bad(R, "placeholder", e.loc, "an extent starting at %s is replaced by a constant" % v)
                        return
                cx.rep.ok(R, "placeholder", e.loc)
                return
    cx.rep.open(R, "placeholder", e.loc, "condition for the constant extent not recognised")


def ext_chain(t, fl):
    """extremum accumulated over nested loops -> (kind, element, [initial values], [loop keys])"""
    keys = []
    inits = []
    n = 0
    while n < 8:
        n += 1
        t = strip_wrap(t)
        if t.op == "lv" and t in fl.loops:
            li = fl.loops[t]
            keys.append(li.key)
            if li.next is None:
                return None
            nx = assign(li.next, lambda a: True if is_more(a) else None)
            if nx.op == "lv" and nx is not t:
                inits.append(li.init)
                if nx.a[-1] is not t and li.init is not nx.a[-1]:
                    return None
                t = nx
                continue
            k = fold_kind(nx, t, fl)
            if k is None:
                return None
            inits.append(li.init)
            return k[0], k[1], inits, keys
        x = extremum(t, fl)
        if x:
            return x[0], x[1], inits + ([x[3]] if x[3] is not None else []), keys
        return None
    return None


def judge_component(cx, R, fl, t, i, src, e):
    key = "component %d (%s %s)" % (i, "min" if i < 3 else "max", "xyz"[i % 3])
    x = ext_chain(t, fl)
    if x is None:
        cx.rep.open(R, key, e.loc, "not recognised: %s" % show(t, 4))
        return
    kind, E, inits, keys = x
    if kind != ("min" if i < 3 else "max"):
        cx.rep.bad(R, key, e.loc, "accumulated as %s" % kind)
        return
    E2, conds = unpush(E, fl)
    vals = (3, 5, 7)
    try:
        got = evx(E2, geo_env(vals))
    except Unknown as u:
        cx.rep.open(R, key, e.loc, "accumulated value not recognised: %s" % show(u.args[0], 4))
        return
    want = vals[i % 3] * SC[i % 3] + TR[i % 3]
    if got != want:
        cx.rep.bad(R, key, e.loc, "accumulates %s for a vertex whose real-world %s is %s" % (got, "xyz"[i % 3], want))
        return
    for c in conds:
        try:
            if evx(c, geo_env(vals)) is not True:
                cx.rep.bad(R, key, e.loc, "a vertex is left out")
                return
        except Unknown:
            pass
    for v in inits:
        v = strip_wrap(v)
        if is_const(v) and isinstance(cval(v), float):
            neutral = cval(v) >= 1.79e308 if i < 3 else cval(v) <= -1.79e308
            if not neutral:
                cx.rep.bad(R, key, e.loc, "starts from %s, which need not be in the data" % cval(v))
                return
    for k in keys:
        if k and k[0] != "it":
            ex = early_exits(fl, k)
            if ex:
                cx.rep.bad(R, key, e.loc, "accumulation can stop early: %s" % show(ex[0][1], 3))
                return
    feats = [plain(s) for k in keys[:1] if k and k[0] != "it" for s in itsource(k, fl)]
    if src and feats and not all(s in src for s in feats):
        cx.rep.bad(R, key, e.loc, "computed over other features than those written")
        return
    cx.rep.ok(R, key, e.loc)


@rule("C03")
def parse(cx):
    """the four numbers of the box are taken in the order minx, miny, maxx, maxy"""
    R = "C03.parse"
    f = next((f for f in cli_fns(cx) if f.name == "parse_bbox"), None)
    if f is None:
        cx.rep.open(R, "parse_bbox", "", "not found")
        return
    fl, ret = cx.flow(f)
    for lv, li in fl.loops.items():
        if li.next is not None and li.next.op == "store":
            pos, val = li.next.a[1], li.next.a[2]
            ie = [x for x in walk(val) if x.op in ("elem", "idx")]
            cx.rep.check(pos.op == "idx" and any(x.op == "elem" or x is pos for x in walk(val)) and not (val.op == "lin"), R, "order", f.loc(), "number %s is stored at %s" % (show(val, 3), show(pos, 3)))
            return
    oks = [l for l in leaves(ret) if l.op == "agg" and l.a[2] == "Ok"]
    for l in oks:
        a = agg_fields(l.a[4]) if l.a[4].op == "agg" else None
        if not a or len(a) != 4:
            continue
        for i in range(4):
            ix = [cval(x.a[1]) for x in walk(a[str(i)]) if x.op == "index" and is_const(x.a[1])]
            if len(set(ix)) == 1:
                cx.rep.check(ix[0] == i, R, "component %d" % i, f.loc(), "taken from number %d of the argument" % ix[0])
            else:
                cx.rep.open(R, "component %d" % i, f.loc(), "not recognised")
        return
    cx.rep.open(R, "order", f.loc(), "not recognised")
