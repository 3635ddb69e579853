"""V01 attribute values, V02 attribute columns: the encoder's byte layout against the decoder's, per column type."""
import re
from ev import ev, Unknown, free
from util import *
from mir import AnchorError
from . import rule, params, final

NAMES = ["Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"]
INTS = {0: (-2 ** 7, 2 ** 7 - 1), 1: (0, 2 ** 8 - 1), 3: (-2 ** 15, 2 ** 15 - 1), 4: (0, 2 ** 16 - 1), 5: (-2 ** 31, 2 ** 31 - 1),
        6: (0, 2 ** 32 - 1), 7: (-2 ** 63, 2 ** 63 - 1), 8: (0, 2 ** 64 - 1)}
FLOATS = (9, 10)
TEXT = (11, 13, 14)
TOTAL = {"as_i64": {0, 1, 3, 4, 5, 6, 7}, "as_u64": {1, 4, 6, 8}, "as_f64": {0, 1, 3, 4, 5, 6, 7, 8, 9, 10}, "as_bool": {2}, "as_str": set(TEXT),
         "is_i64": {0, 1, 3, 4, 5, 6, 7}, "is_u64": {1, 4, 6, 8}, "is_string": set(TEXT), "is_boolean": {2}}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "usize": 8, "isize": 8, "bool": 1}


def coltype_atoms(t):
    return [a for a in atoms(t) if a.op == "field" and str(a.a[2]).endswith("ColumnType")]


def meth(t):
    return t.a[0].split("::")[-1] if t.op == "call" else None


def assume(t, c):
    """t for a non-null value of column type c that is present in the object"""
    def f(a):
        if a.op == "field" and str(a.a[2]).endswith("ColumnType"):
            return c
        if a.op == "discr":
            x = a.a[0]
            m = meth(x)
            if m in ("as_i64", "as_u64", "as_f64", "as_bool", "as_str"):
                return 1 if c in TOTAL[m] else 0
            if m == "to_string":
                return 0
            if m in ("from_utf8", "from_str"):
                return 0
            if m == "from_f64":
                return 1
            if m == "as_object" or x.op == "find" or m in ("get", "try_from"):
                return 1
        m = meth(a)
        if m == "is_null":
            return False
        if m == "is_object":
            return True
        if m in TOTAL:
            return c in TOTAL[m]
        if is_more(a):
            return True
        if a.op == "len" and a.a[0].op == "payload":
            return 7          # the object has members
        return None
    return restrict_fn(t, f)


def restrict_fn(t, f, memo=None):
    """fix every atom f decides, also inside nested terms"""
    memo = {} if memo is None else memo

    def arg(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = x
        if x.op == "sw":
            v = f(x.a[0])
            if v is not None:
                r = go(child(x, x.a[0], v))
            else:
                r = recase(go(x.a[0]), [(k, go(c)) for k, c in x.a[1]], None if x.a[2] is None else go(x.a[2]))
        elif x.op in ("const", "undef", "unit", "param", "empty"):
            r = x
        else:
            a = tuple(arg(y) for y in x.a)
            r = x if a == x.a else norm(x.op, a)
        memo[x] = r
        return r
    return go(t)


class Odd(Exception):
    pass


class Bad(Exception):
    pass


def layout(t, base):
    """bytes appended to base -> ([(rel offset, kind, payload, size term)], total term relative to len(base), reserved or None)"""
    if t is base:
        return [], const(0), None
    o = t.op
    blen = mk("len", base)
    if o in ("resized",):
        segs, tot, _ = layout(t.a[0], base)
        n = sub(t.a[1], blen)
        return segs, tot, n
    if o == "store":
        segs, tot, res = layout(t.a[0], base)
        at, x = t.a[1], t.a[2]
        if at.op == "agg":
            f = agg_fields(at)
            st = sub(f["start"], blen)
            en = sub(f["end"], blen) if "end" in f else None
        else:
            st, en = sub(at, blen), add(sub(at, blen), const(1))
            x = mk("byte", x)
        s = seg(st, x)
        if en is not None and x.op not in ("enc", "byte") and sub(en, st) is not s[3]:
            if sub(en, st).op == "const" or s[3].op == "const":
                raise Odd("store of unknown length")
        return segs + [s], tot, res
    if o == "push":
        segs, tot, res = layout(t.a[0], base)
        return segs + [seg(tot, mk("byte", t.a[1]))], add(tot, const(1)), res
    if o == "extend":
        segs, tot, res = layout(t.a[0], base)
        s = seg(tot, t.a[1])
        return segs + [s], add(tot, s[3]), res
    raise Odd("buffer update %s" % o)


def seg(at, x):
    if x.op == "enc":
        return at, "enc", x, const(WIDTH[x.a[0]])
    if x.op == "byte":
        return at, "byte", x.a[0], const(1)
    return at, "bytes", x, mk("len", x)


def uncast_len(t):
    """len terms under integer casts (a u32 length of at most 4 GiB)"""
    def f(x):
        if x.op == "cast" and x.a[2].op in ("len", "lin"):
            return x.a[2]
        return x
    return rebuild(t, f)


class Reader:
    """resolves the reader's byte accesses against a layout; off: the reader's position at the start of the value"""

    def __init__(self, segs, off, buf):
        self.segs = {}
        for s in segs:
            self.segs[uncast_len(s[0])] = s
        self.off, self.buf = off, buf

    def relof(self, t):
        return uncast_len(self.res(sub(t, self.off)))

    def res(self, t):
        memo = {}

        def f(x):
            if x.op == "index" and self.isbuf(x.a[0]):
                r = self.relof(x.a[1])
                s = self.at(r)
                if s[1] == "byte":
                    return s[2]
                if s[1] == "enc" and WIDTH[s[2].a[0]] == 1:
                    return s[2].a[2] if s[2].a[0] == "u8" else mk("cast", s[2].a[0], "u8", s[2].a[2])
                raise Bad("one byte is read at offset %s where the writer put %s" % (show(r, 3), desc(s)))
            if x.op == "dec" and x.a[2].op == "slice" and self.isbuf(x.a[2].a[0]):
                lo = self.relof(x.a[2].a[1])
                s = self.at(lo)
                w = WIDTH[x.a[0]]
                if s[1] == "byte" and w == 1:
                    return s[2] if x.a[0] == "u8" else mk("cast", "u8", x.a[0], s[2])
                if s[1] != "enc" or WIDTH[s[2].a[0]] != w or w > 1 and s[2].a[1] != x.a[1]:
                    raise Bad("%s (%s) is read at offset %s where the writer put %s" % (x.a[0], x.a[1], show(lo, 3), desc(s)))
                wt = s[2].a[0]
                if (wt in ("f32", "f64")) != (x.a[0] in ("f32", "f64")):
                    raise Bad("%s is read at offset %s where the writer put %s" % (x.a[0], show(lo, 3), desc(s)))
                return s[2].a[2] if wt == x.a[0] else mk("cast", wt, x.a[0], mk("cast", "any", wt, s[2].a[2]))
            if x.op == "slice" and self.isbuf(x.a[0]):
                lo, hi = self.relof(x.a[1]), self.relof(x.a[2])
                s = self.segs.get(lo)
                if s is not None and s[1] == "bytes":
                    n = uncast_len(sub(hi, lo))
                    if n is not uncast_len(s[3]):
                        raise Bad("%s bytes are read at offset %s where the writer put %s" % (show(n, 3), show(lo, 3), show(s[3], 3)))
                    return s[2]
            return x
        return rebuild2(t, f)

    def isbuf(self, t):
        return t is self.buf or t.op == "call" and meth(t) in ("bytes", "as_ref", "deref") and self.isbuf(t.a[1][0])

    def at(self, r):
        s = self.segs.get(r)
        if s is None:
            raise Bad("something is read at offset %s, where no value the writer put begins" % show(r, 3))
        return s


def desc(s):
    return "%s %s" % (s[1], "%s (%s)" % (s[2].a[0], s[2].a[1]) if s[1] == "enc" else "")


def rebuild2(t, f):
    """top-down rewrite (f sees the original accesses first)"""
    memo = {}

    def arg(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = x
        y = f(x)
        if y is not x:
            r = y
        elif x.op == "sw":
            r = recase(go(x.a[0]), [(k, go(c)) for k, c in x.a[1]], None if x.a[2] is None else go(x.a[2]))
        elif x.op in ("const", "undef", "unit", "param", "empty", "lv"):
            r = x
        else:
            a = tuple(arg(z) for z in x.a)
            r = x if a == x.a else norm(x.op, a)
        memo[x] = r
        return r
    return go(t)


def wrap(v, ty):
    if ty in ("f64", "any"):
        return v
    if ty == "f32":
        return v
    w = WIDTH.get(ty, 8) * 8
    v = int(v) & (1 << w) - 1
    if ty[0] == "i" and v >> (w - 1):
        v -= 1 << w
    return v


def evcast(t, leaf):
    """value of a conversion chain at a boundary value, casts wrapping as in the language"""
    memo = {}

    def env(x):
        v = leaf(x)
        if v is not None:
            return v
        if x.op == "cast":
            v = ev(x.a[2], env)
            frm, to = x.a[0], x.a[1]
            if to in WIDTH and to[0] in "iu" and not isinstance(v, bool):
                if isinstance(v, float):
                    lo, hi = (0, 2 ** (8 * WIDTH[to]) - 1) if to[0] == "u" else (-2 ** (8 * WIDTH[to] - 1), 2 ** (8 * WIDTH[to] - 1) - 1)
                    return max(lo, min(hi, int(v)))
                return wrap(v, to)
            if to in ("f32", "f64"):
                return float(v)
            if isinstance(v, bool):
                return int(v)
            return v
        return None
    return ev(t, env)


def reader_parts(cx):
    fn = cx.one("deserializer::decode_attributes")
    fl, ret = cx.flow(fn)
    pos = mp = None
    for lv, li in fl.loops.items():
        if li.next is None or not coltype_atoms(li.next):
            continue
        if li.init is const(0):
            pos = lv
        elif li.init.op == "empty" or any(x.op == "insert" for l in leaves(li.next) for x in walk(l)):
            mp = lv
    if pos is None or mp is None:
        raise AnchorError("decode_attributes: position or result map not recognised")
    return fn, fl, pos, mp


def writer_parts(cx):
    fn = cx.one("encode_attributes_with_schema")
    fl, ret = cx.flow(fn)
    for lv, li in fl.loops.items():
        if li.next is not None and li.init.op == "empty" and coltype_atoms(li.next):
            return fn, fl, lv, li.next
    # the buffer may be updated through a reference
    for lv, li in fl.loops.items():
        if li.next is not None and coltype_atoms(li.next) and any(x.op in ("store", "push", "extend") for l in leaves(li.next) for x in walk(l)):
            return fn, fl, lv, li.next
    raise AnchorError("encode_attributes_with_schema: output buffer not recognised")


@rule("V01")
def codec(cx):
    R = "V01.codec"
    wf, wfl, buf, wnext = writer_parts(cx)
    rf, rfl, pos, mp = reader_parts(cx)
    rbuf = next((p for p in params(rf) if any(x.op in ("slice", "index") and x.a[0] is p for x in walk(rfl.loops[pos].next))), None)
    if rbuf is None:
        rbuf = next((x.a[0] for x in walk(rfl.loops[pos].next) if x.op == "slice"), None)
    for c, name in enumerate(NAMES):
        wt = assume(wnext, c)
        loc = wf.loc()
        if wt is buf:
            cx.rep.bad(R, name, loc, "a value of this column type is written as nothing")
            continue
        if wt.op == "undef":
            cx.rep.bad(R, name, loc, "the writer panics on a value of this column type")
            continue
        rt, rp = assume(rfl.loops[mp].next, c), assume(rfl.loops[pos].next, c)
        if rt.op == "undef" or rp.op == "undef":
            cx.rep.bad(R, name, rf.loc(), "the writer emits this column type but the reader panics on it")
            continue
        try:
            segs, tot, reserved = layout(wt, buf)
            end = uncast_len(add(segs[-1][0], segs[-1][3])) if segs else const(0)
            if reserved is not None:
                tot = uncast_len(reserved)
                if end is not tot:
                    cx.rep.bad("V01.size", name, loc, "%s bytes are reserved for a value that takes %s" % (show(tot, 4), show(end, 4)))
                    continue
                # gaps or overlaps between the pieces
            p = const(0)
            for s in segs:
                if uncast_len(s[0]) is not p:
                    cx.rep.bad("V01.size", name, loc, "a piece of the value is written at %s, the previous one ends at %s" % (show(s[0], 3), show(p, 3)))
                    raise Bad(None)
                p = uncast_len(add(s[0], s[3]))
            cx.rep.ok("V01.size", name, loc)
            tot = uncast_len(tot)
            rd = Reader(segs, pos, rbuf)
            used = uncast_len(rd.res(sub(rp, pos)))
            if used is not tot:
                if used.op == "const" and tot.op == "const" or all(x.op in ("lin", "len", "const") for x in (used, tot)):
                    cx.rep.bad(R, name, rf.loc(), "the writer emits %s bytes for a value, the reader moves on by %s" % (show(tot, 4), show(used, 4)))
                else:
                    cx.rep.open(R, name, rf.loc(), "consumed length not comparable: %s / %s" % (show(used, 4), show(tot, 4)))
                continue
            ins = [x for x in walk(rt) if x.op == "insert"]
            if rt is mp or not ins:
                cx.rep.bad(R, name, rf.loc(), "a value of this column type is read and dropped")
                continue
            if rt.op != "insert":
                cx.rep.open(R, name, rf.loc(), "insertion under an unrecognised condition: %s" % show(rt, 3))
                continue
            val = assume(rd.res(rt.a[2]), c)
            verdict(cx, R, name, c, val, rf.loc())
        except Odd as e:
            cx.rep.open(R, name, loc, "layout not recognised: %s" % e)
        except Bad as e:
            if e.args[0]:
                cx.rep.bad(R, name, rf.loc(), e.args[0])
    cx.rep.floor(R, 15)


def peel_ok(t):
    """text/JSON conversions that are inverse to the ones the writer used"""
    def f(x):
        if x.op == "payload" and x.a[1] in ("Ok", "Some") and x.a[0].op == "call":
            m = meth(x.a[0])
            a = x.a[0].a[1]
            if m in ("from_utf8", "from_utf8_lossy", "from_utf8_unchecked") and a:
                return a[0]
            if m == "from_f64" and a:
                return a[0]
        return x
    return rebuild(t, f)


def verdict(cx, R, name, c, val, loc):
    val = peel_ok(val)
    ctor = val.op == "agg" and val.a[0].endswith("Value") and val.a[2]
    if c == 12:
        v = val
        if v.op == "payload" and v.a[0].op == "call" and meth(v.a[0]) in ("from_str", "from_slice"):
            v = v.a[0].a[1][0]
            if v.op == "payload" and v.a[0].op == "call" and meth(v.a[0]) in ("to_string", "to_vec") and is_value(v.a[0].a[1][0]):
                cx.rep.ok(R, name, loc)
                return
        if ctor:
            cx.rep.bad(R, name, loc, "JSON text is returned as %s instead of being parsed" % ctor)
        else:
            cx.rep.open(R, name, loc, "decoded value not recognised: %s" % show(val, 4))
        return
    want = "Bool" if c == 2 else "String" if c in TEXT else "Number"
    if not ctor:
        cx.rep.open(R, name, loc, "decoded value not recognised: %s" % show(val, 4))
        return
    if ctor != want:
        cx.rep.bad(R, name, loc, "decoded as %s instead of %s" % (ctor, want))
        return
    x = val.a[4]
    if c in TEXT:
        if x.op == "payload" and x.a[0].op == "call" and meth(x.a[0]) == "as_str":
            cx.rep.ok(R, name, loc)
        elif x.op == "const":
            cx.rep.bad(R, name, loc, "decoded as the constant %s" % show(x, 3))
        else:
            cx.rep.open(R, name, loc, "decoded text not recognised: %s" % show(x, 4))
        return
    samples = [False, True] if c == 2 else [float(v) for v in (-1.5, 0.0, 0.25, 3.0)] if c in FLOATS else \
        sorted({INTS[c][0], INTS[c][1], 0, 1, INTS[c][1] // 2, INTS[c][0] + 1})
    ext = {"as_bool": (2,), "as_i64": INTS, "as_u64": INTS, "as_f64": INTS.keys() | set(FLOATS)}
    used = set()
    try:
        for s in samples:
            def leaf(t, s=s):
                if t.op == "payload" and t.a[0].op == "call" and meth(t.a[0]) in ext:
                    used.add(meth(t.a[0]))
                    return float(s) if meth(t.a[0]) == "as_f64" else s
                return None
            got = evcast(x, leaf)
            if got != s or (c == 2) != isinstance(got, bool):
                cx.rep.bad(R, name, loc, "%r is decoded as %r" % (s, got))
                return
    except Unknown as u:
        cx.rep.open(R, name, loc, "conversion not recognised: %s" % show(u.args[0], 4))
        return
    if c == 10 and any(t.op == "cast" and "f32" in t.a[:2] or t.op in ("enc", "dec") and t.a[0] == "f32" for t in walk(x)):
        cx.rep.bad(R, name, loc, "a double passes through single precision")
        return
    if not used:
        cx.rep.bad(R, name, loc, "decoded value does not depend on the encoded one: %s" % show(x, 3))
        return
    cx.rep.ok(R, name, loc, "%d boundary values" % len(samples))


def is_value(t):
    return t.op == "payload" or t.op in ("field", "index", "elem")


# ------------------------------------------------------------------ the type chosen for a value
class V:
    """sample JSON values"""
    def __init__(s, kind, v=None):
        s.kind, s.v = kind, v

    def __repr__(s):
        return "%s" % (s.v if s.v is not None else s.kind)


SAMPLES = [V("int", x) for x in (0, 1, -1, 2 ** 7 - 1, 2 ** 7, -2 ** 7, -2 ** 7 - 1, 255, 256, 2 ** 15 - 1, 2 ** 15, -2 ** 15, -2 ** 15 - 1, 65535, 65536,
                                 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 2 ** 64 - 1)] + \
    [V("float", 0.5), V("float", 1e300), V("float", -2.0), V("bool", True), V("bool", False), V("str", "text"), V("date", "2020-01-01T00:00:00Z"), V("array"), V("object")]
KIND = {"bool": 1, "int": 2, "float": 2, "str": 3, "date": 3, "array": 4, "object": 5}


def holds(c, s):
    """column type c stores the sample without loss (integers in a floating column: up to rounding)"""
    if c == 12:
        return True
    if s.kind == "int":
        return c in INTS and INTS[c][0] <= s.v <= INTS[c][1] or c in (10,)
    if s.kind == "float":
        return c in (10,)
    if s.kind == "bool":
        return c == 2
    if s.kind in ("str", "date"):
        return c in TEXT
    return False


def env_sample(s, isv):
    def env(t):
        if t.op == "discr":
            x = t.a[0]
            if isv(x):
                return KIND[s.kind]
            m = meth(x)
            if m == "parse_from_rfc3339":
                return 0 if s.kind == "date" else 1
            if m in ("as_i64", "as_u64", "as_f64", "as_bool", "as_str", "as_array", "as_object"):
                return 1 if opt(m, s) is not None else 0
        m = meth(t)
        if m in ("is_f64", "is_u64", "is_i64", "is_number", "is_string", "is_boolean", "is_null", "is_array", "is_object"):
            return {"is_f64": s.kind == "float", "is_u64": s.kind == "int" and s.v >= 0, "is_i64": s.kind == "int" and s.v < 2 ** 63,
                    "is_number": s.kind in ("int", "float"), "is_string": s.kind in ("str", "date"), "is_boolean": s.kind == "bool",
                    "is_null": False, "is_array": s.kind == "array", "is_object": s.kind == "object"}[m]
        if t.op == "payload" and t.a[0].op == "call" and meth(t.a[0]) in ("as_i64", "as_u64", "as_f64", "as_bool"):
            return opt(meth(t.a[0]), s)
        return None
    return env


def opt(m, s):
    if m == "as_i64":
        return s.v if s.kind == "int" and s.v < 2 ** 63 else None
    if m == "as_u64":
        return s.v if s.kind == "int" and s.v >= 0 else None
    if m == "as_f64":
        return float(s.v) if s.kind in ("int", "float") else None
    if m == "as_bool":
        return s.v if s.kind == "bool" else None
    if m == "as_str":
        return s.v if s.kind in ("str", "date") else None
    return 1 if m == "as_" + s.kind else None


def resolve_sw(t, env):
    """leaf of t reached under the valuation"""
    while t.op == "sw":
        v = ev(t.a[0], env)
        t = child(t, t.a[0], v)
    return t


def colnum(t):
    """ColumnType value -> number"""
    if t.op == "agg" and t.a[0].endswith("ColumnType"):
        t = t.a[4]
    if t.op == "const" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return t.a[1]
    return None


@rule("V01")
def chosen(cx):
    """the column type chosen for a value, kept for it, or chosen for a mixture, holds the value"""
    R = "V01.type"
    fn = cx.one("attribute::guess_type")
    fl, ret = cx.flow(fn)
    p = params(fn)[0]
    isv = lambda x: x is p
    for s in SAMPLES:
        key = "guess_type %s" % s
        try:
            l = resolve_sw(ret, env_sample(s, isv))
        except Unknown as u:
            cx.rep.open(R, key, fn.loc(), "not decidable: %s" % show(u.args[0], 3))
            continue
        if l.op == "agg" and l.a[2] == "None":
            cx.rep.bad(R, key, fn.loc(), "no column is made for this kind of value: it is dropped")
            continue
        c = colnum(l.a[4])
        if c is None:
            cx.rep.open(R, key, fn.loc(), "type not recognised: %s" % show(l, 3))
        elif not holds(c, s) or c == 10 and s.kind == "int":
            cx.rep.bad(R, key, fn.loc(), "a value like %s is given the column type %s, which does not hold it" % (s, NAMES[c]))
        else:
            cx.rep.ok(R, key, fn.loc(), NAMES[c])
    fits = cx.w.find("attribute::fits", required=False)
    com = cx.w.find("attribute::common_type", required=False)
    if not fits or not com:
        cx.rep.open(R, "mixed columns", fn.loc(), "the functions that keep or widen a column's type were not found")
        return
    ff = fits[0]
    _, fr = cx.flow(ff)
    pc, pv = params(ff)
    for c, name in enumerate(NAMES):
        for s in SAMPLES:
            key = "fits(%s, %s)" % (name, s)
            e0 = env_sample(s, lambda x: x is pv)

            def env(t):
                if t.op == "field" and t.a[0] is pc or t is pc:
                    return c
                return e0(t)
            try:
                v = ev(resolve_sw(fr, env), env)
            except Unknown as u:
                cx.rep.open(R, key, ff.loc(), "not decidable: %s" % show(u.args[0], 3))
                continue
            # a Float column (made by other schemas only) takes any number, rounded
            good = holds(c, s) or c == 9 and s.kind in ("int", "float")
            cx.rep.check(v is False or good, R, key, ff.loc(), "a value like %s is kept in a %s column, which does not hold it" % (s, name))
    cf = com[0]
    _, cr = cx.flow(cf)
    pa, pb = params(cf)
    # the types the writer itself gives to values
    made = sorted({colnum(l.a[4]) for l in leaves(ret) if l.op == "agg" and l.a[2] == "Some"} - {None})
    for a in made:
        for b in made:
            key = "common_type(%s, %s)" % (NAMES[a], NAMES[b])

            def env(t):
                if t.op == "field" and t.a[0] is pa or t is pa:
                    return a
                if t.op == "field" and t.a[0] is pb or t is pb:
                    return b
                return None
            try:
                c = colnum(resolve_sw(cr, env))
            except Unknown as u:
                cx.rep.open(R, key, cf.loc(), "not decidable: %s" % show(u.args[0], 3))
                continue
            if c is None:
                cx.rep.open(R, key, cf.loc(), "type not recognised")
                continue
            lost = [s for s in SAMPLES if (holds(a, s) and (a != 10 or s.kind == "float") or holds(b, s) and (b != 10 or s.kind == "float")) and not holds(c, s)
                    and not (a == 10 and s.kind == "int") and not (b == 10 and s.kind == "int")]
            cx.rep.check(not lost, R, key, cf.loc(), "%s is chosen, which does not hold a value like %s" % (NAMES[c], lost and lost[0]))


# ------------------------------------------------------------------ V02
def entry_of(t):
    """schema entry a type/index term belongs to: E.1.1(.0) or E.1.0 -> E"""
    t = strip_wrap(t)
    if t.op == "field" and str(t.a[2]).endswith("ColumnType"):
        t = t.a[0]
    if t.op == "field" and t.a[1] in ("0", "1") and t.a[0].op == "field" and t.a[0].a[1] == "1":
        return t.a[0].a[0], t.a[1]
    return None, None


def keyed_by(v, name):
    """the value v was looked up in an object under exactly the name -> True/False/None"""
    while v.op == "payload" or v.op == "field":
        if v.op == "payload" and v.a[0].op in ("find",) or v.op == "payload" and v.a[0].op == "call" and meth(v.a[0]) in ("get", "get_key_value"):
            break
        v = v.a[0]
    if v.op == "payload":
        v = v.a[0]
    if v.op == "find":
        el, cond = None, v.a[2]
        for a in atoms(cond):
            if a.op == "cmp":
                xs = [x for x in a.a if root(x) is not root(name) or x.op == "field"]
                if name in a.a:
                    o = a.a[1] if a.a[0] is name else a.a[0]
                    if o.op == "field" and o.a[1] == "0" and o.a[0].op == "elem":
                        t = assign(cond, lambda x: 0 if x is a else None)
                        f = assign(cond, lambda x: 1 if x is a else None), assign(cond, lambda x: -1 if x is a else None)
                        if t is TRUE and f == (FALSE, FALSE):
                            return True
                        return False
        return None
    if v.op == "call" and meth(v) in ("get", "get_key_value"):
        return len(v.a[1]) > 1 and v.a[1][1] is name
    if v.op == "index":
        return v.a[1] is name
    return None


def with_null(t, null, missing):
    def f(a):
        m = meth(a)
        if m == "is_null":
            return null
        if a.op == "discr" and (a.a[0].op == "find" or meth(a.a[0]) in ("get", "get_key_value")):
            return 0 if missing else 1
        if is_more(a):
            return True
        if a.op == "discr" and a.a[0].op == "payload" and null:
            return 0
        return None
    return restrict_fn(t, f)


@rule("V02")
def own_column(cx):
    R = "V02.prefix"
    wf, wfl, buf, wnext = writer_parts(cx)
    rf, rfl, pos, mp = reader_parts(cx)
    ca = coltype_atoms(wnext)
    E, which = entry_of(ca[0])
    if E is None or which != "1":
        cx.rep.open(R, "writer", wf.loc(), "schema entry not recognised: %s" % show(ca[0], 5))
        return
    name = mk("field", E, "0", "") if False else field(E, "0")
    rbuf = next((x.a[0] for x in walk(rfl.loops[pos].next) if x.op == "slice"), None)
    for c, cn in enumerate(NAMES):
        wt = assume(wnext, c)
        try:
            segs, tot, res = layout(wt, buf)
        except Odd as e:
            cx.rep.open(R, cn, wf.loc(), str(e))
            continue
        if len(segs) < 2:
            continue
        s = segs[0]
        if s[1] != "enc" or s[0] is not const(0):
            cx.rep.open(R, cn, wf.loc(), "first piece is not the column index")
            continue
        e2, w2 = entry_of(s[2].a[2])
        if e2 is None:
            cx.rep.bad(R, cn, wf.loc(), "the number written before the value is not the column's index: %s" % show(s[2].a[2], 4))
        elif e2 is not E or w2 != "0":
            cx.rep.bad(R, cn, wf.loc(), "the index written belongs to another schema entry than the type used: %s" % show(s[2].a[2], 4))
        else:
            cx.rep.ok(R, cn, wf.loc())
        # the value encoded was looked up under the entry's own name
        names = [field(E, "0", o) for o in ("", "tuple", None)] + [x for x in walk(wnext) if x.op == "field" and x.a[0] is E and x.a[1] == "0"]
        vs = {x.a[1][0] for sg in segs[1:] for x in walk(sg[2]) if x.op == "call" and meth(x) in ("as_i64", "as_u64", "as_f64", "as_bool", "as_str", "to_string")}
        for v in vs:
            k = [keyed_by(v, n) for n in names]
            if True in k:
                cx.rep.ok("V02.name", cn, wf.loc())
            elif False in k:
                cx.rep.bad("V02.name", cn, wf.loc(), "the value stored under this column is looked up under another name: %s" % show(v, 5))
            else:
                cx.rep.open("V02.name", cn, wf.loc(), "lookup of the value not recognised: %s" % show(v, 5))
        # reader
        rt = assume(rfl.loops[mp].next, c)
        ins = [x for x in walk(rt) if x.op == "insert"]
        if not ins:
            continue
        key = strip_wrap(ins[0].a[1])
        while key.op == "call" and meth(key) in ("to_string", "to_owned", "from", "into", "clone"):
            key = key.a[1][0]
        if key.op != "call" or meth(key) not in ("name",):
            cx.rep.open("V02.lookup", cn, rf.loc(), "result key not recognised: %s" % show(key, 4))
            continue
        col = key.a[1][0]
        tcol = [a.a[0].a[1][0] for a in coltype_atoms(rfl.loops[mp].next) if a.a[0].op == "call"]
        if tcol and any(x is not col for x in tcol):
            cx.rep.bad("V02.lookup", cn, rf.loc(), "name and type of a value are taken from different columns")
            continue
        verdict_col(cx, cn, col, segs, pos, rbuf, rf)
    for lab, nul, mis in (("null value", True, False), ("missing value", False, True)):
        t = with_null(wnext, nul, mis)
        if t is buf:
            cx.rep.ok("V02.absent", lab, wf.loc())
        elif all(l is buf for l in leaves(t)):
            cx.rep.ok("V02.absent", lab, wf.loc())
        else:
            l = [l for l in leaves(t) if l is not buf]
            cx.rep.bad("V02.absent", lab, wf.loc(), "bytes are emitted for it: %s" % show(l[0], 3))
    cx.rep.floor(R, 15)


def verdict_col(cx, cn, col, segs, pos, rbuf, rf):
    """the column consulted is the one whose index is the number before the value"""
    R = "V02.lookup"
    c = strip_wrap(col)
    if c.op == "find":
        ok = None
        for a in atoms(c.a[2]):
            if a.op != "cmp":
                continue
            ix = [x for x in a.a if x.op == "call" and meth(x) == "index"]
            ot = [x for x in a.a if x not in ix]
            if len(ix) == 1 and len(ot) == 1:
                t = assign(c.a[2], lambda x: 0 if x is a else None)
                f = assign(c.a[2], lambda x: 1 if x is a else None), assign(c.a[2], lambda x: -1 if x is a else None)
                if t is not TRUE or f != (FALSE, FALSE):
                    ok = False
                    break
                try:
                    got = Reader(segs, pos, rbuf).res(strip_wrap(ot[0]))
                    ok = strip_wrap(got) is strip_wrap(segs[0][2].a[2])
                except Bad as e:
                    cx.rep.bad(R, cn, rf.loc(), "column index: %s" % e.args[0])
                    return
            elif a.op == "cmp" and any(x.op == "idx" or x.op == "field" and x.a[1] == "0" for x in a.a):
                ok = None
        if ok:
            cx.rep.ok(R, cn, rf.loc())
        elif ok is False:
            cx.rep.bad(R, cn, rf.loc(), "the column consulted is not the one whose index was stored: %s" % show(c, 5))
        else:
            cx.rep.open(R, cn, rf.loc(), "column lookup not recognised: %s" % show(c, 5))
        return
    # positional lookup: sound because the columns are emitted in index order without gaps (V02.order)
    if c.op == "index" or c.op == "call" and meth(c) in ("get", "nth"):
        cx.positional = True
        i = c.a[1] if c.op == "index" else c.a[1][1]
        try:
            got = strip_wrap(Reader(segs, pos, rbuf).res(strip_wrap(i)))
            cx.rep.check(got is strip_wrap(segs[0][2].a[2]), R, cn, rf.loc(), "the column consulted is not the one whose index was stored: %s" % show(i, 4))
        except Bad as e:
            cx.rep.bad(R, cn, rf.loc(), "column index: %s" % e.args[0])
        return
    cx.rep.open(R, cn, rf.loc(), "column lookup not recognised: %s" % show(c, 5))


@rule("V02")
def schema(cx):
    """indexes are allocated once, without gaps, and the columns emitted carry the schema's names, indexes and types"""
    R = "V02.alloc"
    fn = cx.one("AttributeSchemaMethods>::add_attributes")
    fl, ret = cx.flow(fn)
    n = 0
    for e in fl.events:
        if e.kind == "mutate" and e.name == "HashMap::insert" and len(e.args) == 3:
            n += 1
            m, k, v = e.args
            key = "insert of %s" % ("a constant name" if k.op == "const" else "an attribute name")
            ix = strip_wrap(field(v, "0"))
            if ix.op == "len" and same_map(ix.a[0], m):
                cx.rep.ok(R, key, e.loc)
            elif ix.op in ("len", "const", "lin", "idx") and not lvar(ix, fl):
                cx.rep.bad(R, key, e.loc, "the new column's index is %s, not the number of columns so far" % show(ix, 4))
            else:
                cx.rep.open(R, key, e.loc, "index not recognised: %s" % show(ix, 4))
            # only for a name the schema does not have yet
            absent = False
            for a in atoms(e.guard):
                c = a if a.op == "call" else a.a[0] if a.op == "discr" else None
                if c is None or c.op != "call" or meth(c) not in ("contains_key", "get", "get_mut"):
                    continue
                if c.a[1][1] is k or plain(c.a[1][1]) is plain(k):
                    v_ = forced(e.guard).get(a)
                    absent |= v_ is False or v_ == 0 and v_ is not True
                elif len(c.a[1]) > 1:
                    cx.rep.open(R, key + ": guard", e.loc, "presence is tested for another name: %s" % show(c, 4))
            cx.rep.check(absent, "V02.once", key, e.loc, "a column is inserted without the schema being known to lack it: it would take a second index")
            if k.op != "const":
                r = k
                cx.rep.check(k.op == "field" and k.a[1] == "0" or k.op in ("elem", "payload"), "V02.key", key, e.loc, "column name: %s" % show(k, 4))
                # type guessed from the value of the same attribute
                ty = field(v, "1")
                el = k.a[0] if k.op == "field" else None
                srcs = {root_elem(x) for l in leaves(under(ty, e.guard)) for x in [l] if l.op == "call"}
    if not n:
        cx.rep.open(R, "insert", fn.loc(), "no insertion into the schema recognised")
    for e in fl.events:
        if e.kind == "call" and e.name.endswith("guess_type") or e.kind == "inl" and e.name.endswith("guess_type"):
            v = strip_wrap(e.args[0])
            cx.rep.check(v.op == "field" and v.a[1] == "1" or v.op in ("payload", "elem"), "V02.guess", "guess_type", e.loc, "type is guessed from %s" % show(v, 4))
    R = "V02.columns"
    fn = cx.one("serializer::to_columns")
    fl, ret = cx.flow(fn)
    evs = [e for e in fl.events if e.kind == "call" and e.name.endswith("Column::create")]
    if not evs:
        cx.rep.open(R, "to_columns", fn.loc(), "no column creation recognised")
    for e in evs:
        f = agg_fields(e.args[1]) if e.args[1].op == "agg" else None
        if f is None:
            cx.rep.open(R, "to_columns", e.loc, "column arguments not recognised")
            continue
        E = None
        for nm, path in (("name", ("0",)), ("index", ("1", "0")), ("type_", ("1", "1"))):
            t = strip_wrap(f.get(nm, UNDEF))
            if t.op == "agg" and t.a[2] == "Some":
                t = t.a[4]
            while t.op == "call" and meth(t) in ("create_string", "create_shared_string", "clone", "as_str"):
                t = t.a[1][-1]
            p = []
            x = t
            while x.op == "field":
                p.append(x.a[1])
                x = x.a[0]
            p = tuple(reversed(p))
            if x.op != "elem":
                if t.op in ("const", "undef") or t.op == "field" and t.a[0].op == "call" and meth(t.a[0]) == "default" or t.op == "idx" and nm != "index":
                    cx.rep.bad(R, nm, e.loc, "the column's %s is %s" % (nm.strip("_"), show(t, 3)))
                elif t.op == "idx" and nm == "index":
                    cx.rep.open(R, nm, e.loc, "position used as index")
                else:
                    cx.rep.open(R, nm, e.loc, "not recognised: %s" % show(t, 4))
                continue
            if E is None:
                E = x
            cx.rep.check(x is E and p == path, R, nm, e.loc, "the column's %s comes from %s of the schema entry" % (nm.strip("_"), ".".join(p)))
        if E is not None and getattr(cx, "positional", False):
            so = E.a[0]
            k = so.a[1] if so.op == "sorted" else None
            ks = k.a[1] if k is not None and k.op == "key" else None
            good = ks is not None and ks.op == "field" and ks.a[1] == "0" and ks.a[0].op == "field" and ks.a[0].a[1] == "1"
            if good:
                cx.rep.ok("V02.order", "to_columns", e.loc)
            elif so.op == "sorted" and ks is None:
                cx.rep.open("V02.order", "to_columns", e.loc, "order of the columns not recognised: %s" % show(so, 4))
            else:
                cx.rep.bad("V02.order", "to_columns", e.loc, "columns are read by position but emitted in another order than that of their indexes: %s" % show(so, 4))
        extra = [a for a in atoms(e.guard) if not is_more(a)]
        cx.rep.check(not extra, "V02.complete", "to_columns", e.loc, "a schema entry is emitted only if %s" % (extra and show(extra[0], 4)))
    cx.rep.floor(R, 3)


def lvar(t, fl):
    return any(x.op == "lv" and x in fl.loops and x.a[-1].op == "const" for x in walk(t))


def same_map(a, b):
    def base(x):
        while x.op == "mut":
            x = x.a[3] if len(x.a) > 3 else x.a[-1]
        return x
    return base(a) is base(b)


def root_elem(t):
    return root(t)


@rule("V02")
def schema_used(cx):
    """what is encoded with a schema is decoded with the columns made from that schema"""
    R = "V02.schema"
    fn = cx.one("serializer::to_fcb_attribute")
    fl, ret = cx.flow(fn, opaque=("encode_attributes_with_schema", "add_attributes"))
    ps = params(fn)
    attr = next((p for p in ps if "Value" in fn.ty(ps.index(p) + 1).s), None)
    sch = next((p for p in ps if "HashMap" in fn.ty(ps.index(p) + 1).s), None)
    for g, l in cases(ret):
        if l.op != "agg":
            cx.rep.open(R, "to_fcb_attribute", fn.loc(), "result not recognised: %s" % show(l, 4))
            continue
        f = agg_fields(l)
        encs = [x for x in walk(f["0"]) if x.op == "call" and x.a[0].endswith("encode_attributes_with_schema")]
        if len(encs) != 1:
            cx.rep.open(R, "to_fcb_attribute", fn.loc(), "encoding not recognised")
            continue
        used = encs[0].a[1][1]
        own = f["1"]
        if own.op == "agg" and own.a[2] == "None":
            cx.rep.check(used is sch, R, "shared schema", fn.loc(), "attributes are encoded with a schema that is not announced")
        elif own.op == "agg" and own.a[2] == "Some":
            same = own.a[4] is used
            fed = any(x.op == "call" and x.a[0].endswith("add_attributes") and x.a[1][1] is attr for x in walk(used))
            cx.rep.check(same and used is not sch, R, "own schema", fn.loc(), "the schema returned is not the one the attributes were encoded with")
            cx.rep.check(fed, R, "own schema content", fn.loc(), "the object's own schema is not made from its attributes")
    # the shared schema is used only when it has every attribute of the object
    R = "V02.covers"
    def missing(a):
        return False if meth(a) in ("contains_key",) else None
    for lv, li in fl.loops.items():
        if li.next is None or not any(meth(a) == "contains_key" for a in atoms(li.next)):
            continue
        v = assign(li.next, lambda a: True if is_more(a) else missing(a))
        r0 = assign(ret, lambda a: v is TRUE if a is lv else None)
        bad = any(agg_fields(l)["1"].a[2] == "None" for l in leaves(r0) if l.op == "agg" and agg_fields(l)["1"].op == "agg")
        kept = assign(li.next, lambda a: True if is_more(a) or a is lv or meth(a) == "contains_key" else None) if v is TRUE else TRUE
        cx.rep.check(kept is TRUE or kept is lv, R, "to_fcb_attribute: remembered", fn.loc(), "a later attribute makes the writer forget that an earlier one is missing from the schema: it is dropped")
        cx.rep.check(not bad, R, "to_fcb_attribute", fn.loc(), "an attribute the schema lacks does not lead to a schema of its own: it is dropped")
    # reader: an object's own columns take precedence
    rf = cx.one("deserializer::to_cj_feature")
    rfl, rret = cx.flow(rf, opaque=("decode_attributes", "decode_geometry", "decode_geometry_instance", "to_cj_co_type", "to_cj_appearance"))
    rs = [p for p in params(rf)]
    R = "V02.decode"
    for e in rfl.events:
        if e.kind == "call" and e.name.endswith("decode_attributes"):
            cols, at = e.args[0], e.args[1]
            co = next((x.a[1][0] for x in walk(at) if x.op == "call" and meth(x) == "attributes"), None)
            for present in (1, 0):
                t = assign(cols, lambda a: present if a.op == "discr" and meth(a.a[0]) == "columns" else None)
                for l in leaves(t):
                    if l.op == "undef":
                        continue
                    own = [x for x in walk(l) if x.op == "call" and meth(x) == "columns"]
                    if present:
                        cx.rep.check(bool(own) and own[0].a[1][0] is co, R, "own columns", e.loc, "an object with columns of its own is decoded with %s" % show(l, 4))
                    else:
                        src = strip_wrap(l)
                        idx = rs.index(src) if src in rs else None
                        cx.rep.check(src.op == "param" and "root" in src.a[0] or src.op == "param" and idx == 1, R, "file columns", e.loc, "an object without columns of its own is decoded with %s" % show(l, 4))
    cx.rep.floor(R, 2)
