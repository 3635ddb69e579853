"""A04: what is written for a key is what is read back, byte by byte; order of keys; bounds of the key types.
B03.entry: the same for the entries of the spatial index."""
import re
from ev import ev, Unknown
from rules import rule, params
from term import *
from util import *
from .layout import calm, last

W = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}
LIMITS = {p + str(b): ((0, 2 ** b - 1) if p == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)) for p in "ui" for b in (8, 16, 32, 64)}
SIZE = "SERIALIZED_SIZE"


class Strange(Exception):
    """a shape the rule does not know"""


class Misread(Exception):
    """what is read is not what was written there"""


def uncast(t):
    while t.op == "cast":
        t = t.a[2]
    return t


def order(targs):
    s = " ".join(str(x) for x in targs or ())
    return "be" if re.search(r"BigEndian|NetworkEndian|\bBE\b", s) else "le"


def size_of_key(k):
    return mk("tconst", "fcb_core::static_btree::key::Key::" + SIZE, (k,))


class Bit:
    """one piece of the written bytes: at an offset, so many bytes, a number in a type and byte order, a key, or raw bytes"""

    def __init__(self, kind, width, value, ty=None, order=None, loc=""):
        self.kind, self.width, self.value, self.ty, self.order, self.loc = kind, width, value, ty, order, loc


def bits(t, loc, depth=0):
    """bytes of a byte-string term, piece by piece"""
    if depth > 40:
        raise Strange(t)
    if t.op == "enc":
        return [Bit("num", const(W[t.a[0]]), t.a[2], t.a[0], t.a[1], loc)]
    if t.op == "extend":
        return bits(t.a[0], loc, depth + 1) + bits(t.a[1], loc, depth + 1)
    if t.op == "push":
        return bits(t.a[0], loc, depth + 1) + [Bit("num", const(1), t.a[1], "u8", "le", loc)]
    if t.op == "empty":
        return []
    if t.op == "agg" and t.a[0] == "array":
        return [Bit("num", const(1), x, "u8", "le", loc) for x in t.a[4:]]
    if t.op == "store":
        return stored(t, loc, depth)
    if t.op in ("field", "param", "payload", "call", "slice", "elem"):
        return [Bit("raw", mk("len", t), t, loc=loc)]
    raise Strange(t)


def stored(t, loc, depth):
    """an array of known length whose ranges are filled one after the other"""
    marks = []
    while t.op == "store":
        marks.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t.op != "repeat" or not is_const(t.a[1] if isinstance(t.a[1], T) else const(int(t.a[1]) if str(t.a[1]).isdigit() else None)):
        raise Strange(t)
    n = int(cval(t.a[1])) if isinstance(t.a[1], T) else int(t.a[1])
    got = {}
    for r, v in marks[::-1]:
        if r.op != "agg" or "Range" not in str(r.a[0]):
            raise Strange(r)
        names = list(r.a[3]) if isinstance(r.a[3], (tuple, list)) else []
        f = dict(zip(names, r.a[4:]))
        a = cval(f["start"]) if "start" in f else 0
        b = cval(f["end"]) if "end" in f else n
        if not isinstance(a, int) or not isinstance(b, int):
            raise Strange(r)
        for k in [k for k in got if k < b and k + got[k][0] > a]:
            del got[k]
        got[a] = (b - a, v)
    out, p = [], 0
    for a in sorted(got):
        if a != p:
            raise Strange(t)
        out += bits(got[a][1], loc, depth + 1)
        p = a + got[a][0]
    if p != n:
        raise Strange(t)
    return out


def image(fl, wr=None):
    """everything a writer function emits outside loops: [(offset, Bit, guard, loops)]"""
    out = []
    pos = const(0)
    for e in fl.events:
        new = None
        if e.kind == "io" and e.name.startswith("WriteBytesExt::write_"):
            ty = e.name.split("write_")[-1]
            if ty not in W:
                raise Strange(mk("call", e.name))
            new = [Bit("num", const(W[ty]), e.args[1], ty, order(e.targs), e.loc)]
        elif e.kind == "io" and last(e.name) == "write_all":
            new = bits(e.args[1], e.loc)
        elif e.kind == "io" and e.name.startswith("Write::") and last(e.name) != "flush":
            raise Strange(mk("call", e.name))
        elif e.kind == "mutate" and wr and last(e.name) == "extend_from_slice":
            new = bits(e.args[1], e.loc)
        elif e.kind == "call" and last(e.name) == "write_to":
            k = str(e.targs[0])
            new = [Bit("key", size_of_key(k), e.args[0], k, None, e.loc)]
        for b in new or ():
            out.append((None if pos is None or e.loops else pos, b, calm(e.guard), e.loops))
            if pos is not None and not e.loops:
                pos = add(pos, b.width)
        if e.loops and new:
            pos = None
    return out


def split(im):
    """cases of an image: {assignment: [(offset, Bit)]} for the ways its conditions can turn out"""
    ats = []
    for _, b, g, loops in im:
        for a in atoms(g):
            if a not in ats:
                ats.append(a)
    if not ats:
        return [({}, [(o, b, l) for o, b, g, l in im])]
    if len(ats) > 6:
        raise Strange(ats[0])
    out = []
    allg = FALSE
    combos = [{}]
    for a in ats:
        vals = set()
        for _, _, g, _ in im:
            vals |= set(v for v in keysof(g, a)) if a in atoms(g) else set()
        combos = [dict(c, **{}) | {a: v} for c in combos for v in (vals or {True, False})]
        if len(combos) > 128:
            raise Strange(a)
    for c in combos:
        line, pos = [], const(0)
        for _, b, g, loops in im:
            h = restrict(g, c)
            if h is FALSE:
                continue
            if h is not TRUE:
                raise Strange(h)
            line.append((pos, b, loops))
            pos = add(pos, b.width) if pos is not None and not loops else None
        out.append((c, line))
    return out


def source(t):
    """a term for bytes read: (root, offset, width) with the offset relative to where reading began"""
    while t.op == "payload" and t.a[0].op == "call" or t.op == "call" and last(t.a[0]) in ("try_into", "into", "to_vec", "as_slice", "as_ref", "clone", "unwrap"):
        t = t.a[0] if t.op == "payload" else t.a[1][0] if t.a[1] else None
        if t is None:
            return None
    if t.op == "readat":
        return t.a[0], ("at", t.a[1]), t.a[2]
    if t.op == "field" and str(t.a[1]) in ("0", "1") and t.a[0].op == "call" and last(t.a[0].a[0]) == "split_at":
        x, n = t.a[0].a[1]
        return source(mk("slice", x, *((const(0), n) if str(t.a[1]) == "0" else (n, mk("unit")))))
    if t.op == "slice":
        b = source(t.a[0])
        a, e = t.a[1], t.a[2]
        if b is None:
            if t.a[0].op != "param":
                return None
            return t.a[0], ("from", a), (None if e.op == "unit" else sub(e, a))
        r, (how, o), n = b
        return r, (how, add(o, a)), (None if e.op == "unit" and n is None else sub(n if e.op == "unit" else e, a))
    if t.op == "param":
        return t, ("from", const(0)), None
    return None


class Reading:
    """substitutes what was written for what is read"""

    def __init__(self, fl, line, keyw):
        self.fl, self.line, self.keyw = fl, line, keyw
        self.known = {}
        for e in fl.events:
            if e.kind == "call" and last(e.name) in ("from_bytes", "read_from") and e.ret is not None:
                self.known[e.ret] = e

    def offset(self, how, o, base):
        if how == "from":
            return o
        p = mk("pos0", base)
        r = sub(o, p)
        # after a key was read the stream stands behind it: its type's own obligation
        def f(x):
            if x.op == "posafter":
                e = [e for e in self.known.values() if last(e.name) == "read_from"]
                if len(e) == 1:
                    return add(p, size_of_key(str(e[0].targs[0])))
            return x
        r = sub(rebuild(o, f), p)
        return r

    def at(self, off):
        for o, b, loops in self.line:
            if o is not None and not loops and sub(o, off) is const(0):
                return b
        return None

    def num(self, ty, od, src):
        s = source(src)
        if s is None:
            raise Strange(src)
        base, (how, o), n = s
        off = self.offset(how, o, base)
        b = self.at(off)
        if b is None:
            c = cval(off) if is_const(off) else None
            if c is None:
                near = [cval(sub(off, o)) for o, x, l in self.line if o is not None and not l and is_const(sub(off, o)) and x.kind != "raw"]
                if near:
                    raise Misread("%s is read %+d bytes from where it was written" % (ty, near[0]))
                raise Strange(off)
            raise Misread("%s is read at byte %s, where nothing begins that was written" % (ty, c))
        if b.kind == "num":
            if b.ty == ty and (b.order == od or W[ty] == 1):
                return b.value
            if W.get(b.ty) == W.get(ty) and (b.order == od or W[ty] == 1) and b.ty[0] in "iub" and ty[0] in "iub":
                return mk("cast", b.ty, ty, b.value)
            raise Misread("%s (%s) is read at byte %s, %s (%s) was written there" % (ty, od, show(off, 3), b.ty, b.order))
        if b.kind == "key" and ty == b.ty and od == "le":
            return b.value
        raise Strange(src)

    def key(self, e):
        """a key read through its own type"""
        k = str(e.targs[0])
        s = source(e.args[0])
        if last(e.name) == "from_bytes":
            if s is None:
                raise Strange(e.args[0])
            off = self.offset(s[1][0], s[1][1], s[0])
        else:
            off = const(0) if not [x for x in self.known.values() if x is not e and last(x.name) == "read_from"] else None
            for v, p in (e.pos or {}).items() if isinstance(e.pos, dict) else ():
                off = sub(p, mk("pos0", v)) if v is e.args[0] else off
            if off is None:
                raise Strange(e.args[0])
        b = self.at(off)
        if b is None:
            if is_const(off):
                raise Misread("a %s key is read at byte %s, where nothing begins that was written" % (k, cval(off)))
            near = [cval(sub(off, o)) for o, x, l in self.line if o is not None and not l and is_const(sub(off, o)) and x.kind != "raw"]
            if near:
                raise Misread("a %s key is read %+d bytes from where it was written" % (k, near[0]))
            raise Strange(off)
        if b.kind == "key" and b.ty == k or b.kind == "num" and b.ty == k and (b.order == "le" or W[b.ty] == 1):
            return b.value
        if b.kind in ("key", "num") and b.ty != k and b.kind == "num" and k in W:
            raise Misread("a key of type %s is read at %s, %s was written there" % (k, show(off, 3), b.ty))
        raise Strange(e.args[0])

    def raw(self, t):
        s = source(t)
        if s is None or s[0].op == "param" and t is s[0]:
            return None
        base, (how, o), n = s
        off = self.offset(how, o, base)
        b = self.at(off)
        if b is None:
            raise Strange(off)
        if b.kind == "raw":
            return b.value
        return None

    def back(self, t):
        """value of a reader term over the writer's input"""
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            memo[x] = x
            r = self.one(x, go)
            memo[x] = r
            return r
        return go(t)

    def one(self, x, go):
        if x.op == "dec":
            return self.num(x.a[0], x.a[1], x.a[2])
        if x.op == "payload" and x.a[0] in self.known:
            return self.key(self.known[x.a[0]])
        if x.op == "index" and is_const(x.a[1]):
            s = source(x.a[0])
            if s is None:
                raise Strange(x)
            off = add(self.offset(s[1][0], s[1][1], s[0]), x.a[1])
            b = self.at(off)
            if b is None or b.kind != "num" or cval(b.width) != 1:
                if b is not None and b.kind == "num":
                    raise Misread("one byte is read at %s, %s was written there" % (show(off, 3), b.ty))
                raise Strange(x)
            return b.value
        if x.op in ("readat", "slice") or x.op == "payload" and source(x) is not None:
            r = self.raw(x)
            if r is None:
                raise Strange(x)
            return r
        if x.op == "sw":
            at = go(x.a[0])
            return recase(at, [(v, go(c)) for v, c in x.a[1]], None if x.a[2] is None else go(x.a[2]))
        if x.op in ("const", "unit", "undef", "empty", "param", "kconst", "tconst", "fn"):
            return x
        a = tuple(go(y) if isinstance(y, T) else tuple(go(z) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y for y in x.a)
        return x if a == x.a else norm(x.op, a)


MAKE = {"DateTime::from_timestamp": ("s", "n"), "TimeZone::timestamp_opt": ("z", "s", "n"), "NaiveDateTime::from_timestamp_opt": ("s", "n"),
        "TimeZone::timestamp": ("z", "s", "n"), "DateTime::from_timestamp_opt": ("s", "n")}
WRAP = {"from_utc", "from_naive_utc_and_offset", "and_utc", "single", "from_utc_datetime", "unwrap", "earliest", "latest"}
LOSSY = {"from_timestamp_millis", "from_timestamp_micros", "timestamp_millis_opt", "timestamp_millis", "timestamp_micros", "timestamp_secs", "from_timestamp_secs",
         "timestamp_nanos", "timestamp_nanos_opt", "from_timestamp_nanos", "timestamp_subsec_millis", "timestamp_subsec_micros"}


def same(t, me, ty):
    """is t the key `me`?  True / message of what is wrong / None for unknown"""
    t = t if not (t.op == "payload" and t.a[1] in ("Some", "Ok", "Single") and t.a[0].op != "call") else t
    if t is me:
        return True
    if ty in LIMITS and t.op != "cast":
        lo, hi = LIMITS[ty]
        try:
            for n in {lo, lo + 1, 0, 1, 2, 100, 127, hi, hi - 1, hi // 2, hi // 2 + 1} | ({-1, -2} if lo else set()) | {v for v in (128, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32) if v < hi}:
                b = ev(t, lambda x: n if x is me else None)
                if b != n:
                    return "%d is read back as %s" % (n, b)
            return True
        except (Unknown, KeyError, TypeError):
            pass
    if t.op == "cast":
        u = t
        chain = []
        while u.op == "cast":
            chain.append(u.a[1])
            u = u.a[2]
        if u is me and ty in W:
            if all(c in W and (W[c] == W[ty] and c[0] in "iu" and ty[0] in "iu" or
                               W[c] > W[ty] and (c[0] == ty[0] or c[0] == "i" and ty[0] == "u") and c[0] != "f") for c in chain):
                return True if chain[0] == ty or all(c[0] == ty[0] for c in chain) else None
            if any(c in W and W[c] < W[ty] for c in chain):
                return "the value is narrowed to %s on the way" % [c for c in chain if W[c] < W[ty]][0]
        return None
    if t.op == "agg" and t.a[0].endswith("OrderedFloat") and len(t.a) == 5:
        return same(t.a[4], me, ty)
    if t.op == "call" and last(t.a[0]) in ("into_inner", "from") and "OrderedFloat" in t.a[0]:
        return same(t.a[1][-1], me, ty)
    if t.op == "field" and t.a[0] is me and "OrderedFloat" in ty:
        return True
    if t.op == "agg" and len(t.a) > 4:
        vs = []
        names = t.a[3]
        for i, x in enumerate(t.a[4:]):
            n = names[i] if isinstance(names, (tuple, list)) and i < len(names) else str(i)
            if x.op == "field" and x.a[0] is me:
                vs.append(True if str(x.a[1]) == str(n) else "its %s is read back as its %s" % (x.a[1], n))
            elif is_const(x):
                vs.append("its %s is always %s" % (n, cval(x)))
            else:
                vs.append(None)
        bad = [v for v in vs if isinstance(v, str)]
        return bad[0] if bad else True if all(v is True for v in vs) else None
    if t.op == "sw" and ty == "bool":
        def where(v):
            c = TRUE if v else FALSE
            return rebuild(assign(t, lambda a: v if a is me else None), lambda x: c if x is me else const((cval(x.a[0]) > cval(x.a[1])) - (cval(x.a[0]) < cval(x.a[1]))) if x.op == "cmp" and is_const(x.a[0]) and is_const(x.a[1]) else recase(c, x.a[1], x.a[2]) if x.op == "sw" and x.a[0] is me else x)
        r = [where(v) for v in (True, False)]
        if all(is_const(x) for x in r):
            return True if r == [TRUE, FALSE] else "true is read back as %s, false as %s" % (cval(r[0]), cval(r[1]))
        return None
    if "DateTime" in ty:
        return same_time(t, me)
    return None


def same_time(t, me):
    u = t
    for _ in range(12):
        if u.op == "payload":
            u = u.a[0]
        elif u.op == "call" and last(u.a[0]) in WRAP and "::".join(u.a[0].split("::")[-2:]) not in MAKE:
            c = [x for x in u.a[1] if x.op not in ("agg", "unit", "kconst")]
            if len(c) != 1:
                return None
            u = c[0]
        else:
            break
    names = {last(x.a[0]) for x in walk(t) if x.op == "call" and isinstance(x.a[0], str)}
    if names & LOSSY and not any(x.op == "call" and last(x.a[0]) in ("timestamp",) for x in walk(t)):
        return "it is kept through %s only" % ", ".join(sorted(names & LOSSY))
    if u.op != "call":
        return None
    k = MAKE.get("::".join(u.a[0].split("::")[-2:]))
    if k is None or len(u.a[1]) != len(k):
        return None
    s, n = u.a[1][k.index("s")], u.a[1][k.index("n")]
    s, n = uncast(s), uncast(n)
    def of(x, names):
        return x.op == "call" and last(x.a[0]) in names and any(me is y for y in walk(x))
    if of(s, ("timestamp",)) and of(n, ("timestamp_subsec_nanos", "nanosecond_of", "subsec_nanos")):
        return True
    if of(s, ("timestamp",)) and of(n, ("nanosecond",)):
        return True
    if of(s, ("timestamp",)) and (is_const(n) or n.op == "mul" or of(n, LOSSY) or n.op == "lin"):
        return "fractions of its second come back as %s" % show(n, 4)
    if of(n, ("timestamp_subsec_nanos",)) and is_const(s):
        return "its seconds come back as %s" % show(s, 3)
    if of(s, ("timestamp_subsec_nanos",)) or of(n, ("timestamp",)):
        return "its seconds and fractions are exchanged"
    return None


def okpart(ret):
    """payload of Ok with the failures left out"""
    def f(a):
        return False if a.op == "fails" else None
    r = assign(ret, f)
    return payload(r, "Ok", "0")


def impls(cx, trait_end, name):
    return {short_type(f): f for f in cx.w.user_fns(("fcb_core",)) if f.name == name and not f.is_closure() and " as " in f.path
            and re.search(trait_end + r">::" + name + "$", f.path)}


def short_type(f):
    m = re.search(r"<(.*) as ", f.path)
    return re.sub(r"[a-zA-Z_]\w*::", "", m.group(1)) if m else f.path


def declared(cx):
    """declared width of each key type"""
    out = {}
    for k, v in cx.w.consts.items():
        m = re.search(r"<(.*) as .*Key>::" + SIZE + "$", k)
        if m:
            out[re.sub(r"[a-zA-Z_]\w*::", "", m.group(1))] = int(v["v"]["i"]) if v.get("v") else None
    return out


def width_of(im, ty, cx):
    w = const(0)
    for o, b, g, loops in im:
        if loops:
            return None
        w = add(w, b.width)
    return w


@rule("A04")
def keys(cx):
    rep = cx.rep
    wr, rd, fb = impls(cx, "Key", "write_to"), impls(cx, "Key", "read_from"), impls(cx, "Key", "from_bytes")
    sizes = declared(cx)
    for ty in sorted(wr):
        fn = wr[ty]
        me = params(fn)[0]
        fl, ret = cx.flow(fn)
        try:
            im = image(fl)
            lines = split(im)
        except Strange as s:
            rep.open("width", ty, fn.loc(), "what is written for a key of this type is not recognised: %s" % show(s.args[0], 4))
            continue
        n = sizes.get(ty)
        for asg, line in lines:
            lab = ty + (" where " + ", ".join("%s=%s" % (show(a, 2), v) for a, v in asg.items()) if asg else "")
            width(rep, cx, ty, lab, fn, line, n, restrict(okpart(ret), asg), me)
            for name, g in (("read_from", rd.get(ty)), ("from_bytes", fb.get(ty))):
                if g is None:
                    rep.open("codec", "%s: %s" % (lab, name), fn.loc(), "no such function")
                    continue
                codec(rep, cx, ty, "%s: %s" % (lab, name), g, line, me, n)
    rep.floor("width", 8)
    rep.floor("codec", 16)


def width(rep, cx, ty, lab, fn, line, n, ret, me):
    w = const(0)
    for o, b, loops in line:
        w = add(w, b.width) if not loops and w is not None else None
    if w is None:
        return rep.open("width", lab, fn.loc(), "written in a loop")
    if n is None:
        # the width is the length of the array type
        own = [b for o, b, l in line]
        if len(own) == 1 and own[0].kind == "raw" and own[0].value.op == "field" and own[0].value.a[0] is me:
            rep.ok("width", lab, fn.loc())
        elif len(own) == 1 and own[0].kind == "raw" and own[0].value.op == "slice" and any(x is me for x in walk(own[0].value)):
            rep.bad("width", lab, fn.loc(), "only %s of the key is written" % show(own[0].value, 4))
        else:
            rep.open("width", lab, fn.loc(), "%d pieces are written" % len(own))
        return
    if not is_const(w):
        return rep.open("width", lab, fn.loc(), "%s bytes are written" % show(w, 4))
    if cval(w) != n:
        return rep.bad("width", lab, fn.loc(), "%s bytes are written for a key of declared width %s" % (cval(w), n))
    if is_const(ret) and cval(ret) != n:
        return rep.bad("width", lab, fn.loc(), "%s bytes are reported as written, %s are" % (cval(ret), n))
    rep.ok("width", lab, fn.loc())


def codec(rep, cx, ty, lab, g, line, me, n):
    fl, ret = cx.flow(g)
    R = Reading(fl, line, n)
    val = okpart(ret)
    try:
        vals = [R.back(val)]
    except Misread as m:
        return rep.bad("codec", lab, g.loc(), str(m))
    except Strange as s:
        return rep.open("codec", lab, g.loc(), "not recognised: %s" % show(s.args[0], 4))
    r = same(vals[0], me, ty)
    if isinstance(r, str):
        return rep.bad("codec", lab, g.loc(), "a key does not come back as it was written: " + r)
    if r is None:
        return rep.open("codec", lab, g.loc(), "the key comes back as %s" % show(vals[0], 5))
    # how far the reader moves
    if g.name == "read_from":
        for k, v in fl.state.items():
            if k[0] == "pos" and n is not None:
                d = sub(assign(v, lambda a: False if a.op in ("fails", "iook") else None) if v.op == "sw" else v, mk("pos0", k[1]))
                if is_const(d) and cval(d) != n:
                    return rep.bad("codec", lab, g.loc(), "%s bytes are consumed for a key of width %s" % (cval(d), n))
                if not is_const(d):
                    return rep.open("codec", lab, g.loc(), "consumes %s" % show(d, 4))
    rep.ok("codec", lab, g.loc())


def entrylike(cx, rep, R, wfn, readers, fields, label):
    """a record written field by field and read back by several readers"""
    fl, ret = cx.flow(wfn)
    me = params(wfn)[0]
    try:
        lines = split(image(fl))
    except Strange as s:
        return rep.open(R, label, wfn.loc(), "what is written is not recognised: %s" % show(s.args[0], 4))
    for asg, line in lines:
        for g in readers:
            lab = "%s: %s" % (label, g.name)
            fl2, ret2 = cx.flow(g)
            rd = Reading(fl2, line, None)
            val = okpart(ret2)
            try:
                v = rd.back(val)
            except Misread as m:
                rep.bad(R, lab, g.loc(), str(m))
                continue
            except Strange as s:
                rep.open(R, lab, g.loc(), "not recognised: %s" % show(s.args[0], 4))
                continue
            r = same(v, me, label)
            if isinstance(r, str):
                rep.bad(R, lab, g.loc(), "an entry does not come back as it was written: " + r)
            elif r is None:
                rep.open(R, lab, g.loc(), "an entry comes back as %s" % show(v, 4))
            else:
                rep.ok(R, lab, g.loc())


@rule("A04")
def entry(cx):
    w = cx.one("Entry::write_to")
    rd = [f for s in ("Entry::from_reader", "Entry::from_bytes") for f in cx.w.find(s, required=False)]
    entrylike(cx, cx.rep, "entry", w, rd, None, "Entry")
    cx.rep.floor("entry", 2)


@rule("B03")
def box_entry(cx):
    w = cx.one("packed_rtree::NodeItem::write")
    rd = [f for s in ("packed_rtree::NodeItem::from_reader", "packed_rtree::NodeItem::from_bytes") for f in cx.w.find(s, required=False)]
    entrylike(cx, cx.rep, "B03.entry", w, rd, None, "NodeItem")
    cx.rep.floor("B03.entry", 2)


# ------------------------------------------------------------------ groups of duplicates
@rule("A04")
def groups(cx):
    rep = cx.rep
    w = cx.one("PayloadEntry::serialize")
    r = cx.one("PayloadEntry::deserialize")
    me = params(w)[0]
    fl, ret = cx.flow(w)
    try:
        im = image(fl, True)
    except Strange as s:
        return rep.open("group", "serialize", w.loc(), show(s.args[0], 4))
    heads = [(o, b) for o, b, g, l in im if not l]
    tails = [(b, g, l) for o, b, g, l in im if l]
    fr, rr = cx.flow(r)
    # the loop that is written
    if len(heads) != 1 or len(tails) != 1 or heads[0][1].kind != "num" or tails[0][0].kind != "num" or len(tails[0][2]) != 1:
        return rep.open("group", "serialize", w.loc(), "%d pieces before, %d in a loop" % (len(heads), len(tails)))
    h, (t, tg, tl) = heads[0][1], tails[0]
    src = itsource(tl[0], fl)
    el = [x for x in walk(t.value) if x.op == "elem"]
    offs = field(me, "offsets", "")
    what = [s for s in src if s.op == "field" and s.a[0] is me and s.a[1] == "offsets"]
    if not what or not el or uncast(t.value) is not el[0]:
        part = [s for s in src if any(x.op == "field" and x.a[0] is me and x.a[1] == "offsets" for x in walk(s))]
        (rep.bad if part and any(x.op in ("skip", "take", "slice") or x.op == "call" and last(x.a[0]) in ("skip", "take", "step_by") for s in part for x in walk(s)) else rep.open)(
            "group", "serialize: offsets", w.loc(), "written for %s" % [show(s, 4) for s in src])
    elif early_exits(fl, tl[0]):
        rep.bad("group", "serialize: offsets", t.loc, "not every offset of the group is written")
    elif restrict(tg, {a: True for a in atoms(tg) if is_more(a)}) is not TRUE:
        rep.bad("group", "serialize: offsets", t.loc, "an offset is written only where %s" % show(tg, 4))
    else:
        rep.ok("group", "serialize: offsets", t.loc)
    v = uncast(h.value)
    good = v.op == "field" and v.a[0] is me and v.a[1] == "count" or v.op == "len" and v.a[0].op == "field" and v.a[0].a[1] == "offsets"
    if good and h.value.op == "cast" and W.get(h.value.a[1], 9) < 4:
        rep.bad("group", "serialize: count", h.loc, "the number of offsets is narrowed to %s" % h.value.a[1])
    else:
        c = [x for x in walk(v) if x.op == "field" and x.a[0] is me and x.a[1] == "count" or x.op == "len" and x.a[0].op == "field" and x.a[0].a[1] == "offsets"]
        if not good and len(c) == 1:
            try:
                off = [n for n in (0, 1, 2, 3, 200, 255, 256, 65535, 65536, 70000, 2 ** 31, 2 ** 32 - 1) if ev(v, lambda x: n if x is c[0] else None) != n]
            except (Unknown, KeyError):
                off = None
            if off:
                return rep.bad("group", "serialize: count", h.loc, "for a group of %d offsets another number is written: %s" % (off[0], show(v, 4)))
            good = off is not None
        (rep.ok if good else rep.open)("group", "serialize: count", h.loc, *([] if good else [show(v, 4)]))
    # read back
    val = okpart(rr)
    pe = [x for x in walk(val) if x.op == "agg" and str(x.a[0]).endswith("PayloadEntry")]
    if len(pe) != 1:
        return rep.open("group", "deserialize", r.loc(), show(val, 4))
    names = list(pe[0].a[3])
    f = dict(zip(names, pe[0].a[4:]))
    cnt, ofs = f.get("count"), f.get("offsets")
    data = params(r)[0]
    for lab, x, b, at in (("count", uncast(cnt), h, const(0)),):
        if x.op != "dec":
            rep.open("group", "deserialize: count", r.loc(), show(x, 4))
            continue
        o = sub(x.a[2].a[1], mk("pos0", x.a[2].a[0])) if x.a[2].op == "readat" else None
        if o is None:
            rep.open("group", "deserialize: count", r.loc(), show(x, 4))
        elif cval(o) == 0 and (x.a[0], x.a[1]) == (b.ty, b.order):
            rep.ok("group", "deserialize: count", r.loc())
        else:
            rep.bad("group", "deserialize: count", r.loc(), "%s (%s) is read at byte %s, %s (%s) was written at byte 0" % (x.a[0], x.a[1], show(o, 3), b.ty, b.order))
    pushes = [e for e in fr.events if e.kind == "mutate" and last(e.name) == "push" and len(e.loops) == 1]
    if ofs.op != "lv" or len(pushes) != 1:
        return rep.open("group", "deserialize: offsets", r.loc(), show(ofs, 4))
    p = pushes[0]
    it = itsource(p.loops[0], fr)
    rng = it[0] if len(it) == 1 and it[0].op == "agg" and "Range" in str(it[0].a[0]) else None
    x = uncast(p.args[1])
    if x.op != "dec" or x.a[2].op != "readat" or rng is None:
        return rep.open("group", "deserialize: offsets", p.loc, "%s pushed over %s" % (show(x, 4), [show(i, 4) for i in it]))
    lo, hi = rng.a[4], rng.a[5]
    n = sub(uncast(hi), uncast(lo))
    pos = x.a[2].a[1]
    li = fr.loops.get(pos)
    if (x.a[0], x.a[1]) != (t.ty, t.order):
        rep.bad("group", "deserialize: offsets", p.loc, "offsets are read as %s (%s), written as %s (%s)" % (x.a[0], x.a[1], t.ty, t.order))
    elif early_exits(fr, p.loops[0]):
        rep.bad("group", "deserialize: offsets", p.loc, "the loop over the offsets may end before their number is reached")
    elif n is not uncast(cnt) and is_const(sub(n, uncast(cnt))):
        rep.bad("group", "deserialize: offsets", p.loc, "%s offsets are read of a group of %s" % (show(n, 4), show(cnt, 4)))
    elif n is not uncast(cnt):
        (rep.bad if n.op in ("min", "clamp") else rep.open)("group", "deserialize: offsets", p.loc, "%s offsets are read of a group of %s" % (show(n, 4), show(cnt, 4)))
    elif calm_more(p.guard) is not TRUE:
        rep.bad("group", "deserialize: offsets", p.loc, "an offset is kept only where %s" % show(calm_more(p.guard), 4))
    elif li is None or li.next is None:
        rep.open("group", "deserialize: offsets", p.loc, "position %s" % show(pos, 4))
    else:
        st = sub(li.init, mk("pos0", x.a[2].a[0]))
        step = sub(calm(li.next) if li.next.op == "sw" else li.next, pos)
        if is_const(st) and is_const(step):
            good = cval(st) == cval(h.width) and cval(step) == cval(t.width)
            rep.check(good, "group", "deserialize: offsets", p.loc, "offsets are read from byte %s in steps of %s, they lie from %s in steps of %s"
                      % (cval(st), cval(step), cval(h.width), cval(t.width)))
        else:
            rep.open("group", "deserialize: offsets", p.loc, "from %s in steps of %s" % (show(st, 3), show(step, 3)))
    # the count kept is the number of offsets
    for name in ("new", "add_offset"):
        for g in cx.w.find("PayloadEntry::" + name, required=False):
            fg, rg = cx.flow(g)
            if name == "new":
                a = [x for x in walk(rg) if x.op == "agg" and str(x.a[0]).endswith("PayloadEntry")]
                if len(a) == 1:
                    d = dict(zip(a[0].a[3], a[0].a[4:]))
                    rep.check(cval(d["count"]) == 0 if is_const(d["count"]) else None, "group", "new", g.loc(), "an empty group counts %s offsets" % show(d["count"], 3))
                continue
            s = params(g)[0]
            fin = fg.state.get(("cell", s), s)
            adt = ([x.a[2] for x in walk(fin) if x.op == "field" and x.a[0] is s and x.a[2]] or [""])[0]
            c, o = field(fin, "count", adt), field(fin, "offsets", adt)
            was = [x for x in walk(c) if x.op == "field" and x.a[1] == "count" and x.a[0] is s]
            d = [sub(l, was[0]) if was else l for l in leaves(uncast(c))]
            before = [x for x in walk(o) if x.op == "push"]
            if o.op == "push" and o.a[1] is params(g)[1] and len(before) == 1:
                if was and all(is_const(k) for k in d):
                    rep.check(all(cval(k) == 1 for k in d), "group", "add_offset", g.loc(), "one offset is added, the count grows by %s" % [cval(k) for k in d])
                elif all(l.op == "len" and l.a[0].op == "push" for l in leaves(uncast(c))):
                    rep.ok("group", "add_offset", g.loc())
                else:
                    rep.open("group", "add_offset", g.loc(), show(fin, 5))
            else:
                rep.open("group", "add_offset", g.loc(), show(fin, 5))
    rep.floor("group", 4)


def calm_more(g):
    return assign(calm(g), lambda a: True if is_more(a) else None)


# ------------------------------------------------------------------ bounds and order
@rule("A04")
def bounds(cx):
    rep = cx.rep
    for trait, name, side in (("Max", "max_value", 1), ("Min", "min_value", 0)):
        for ty, fn in sorted(impls(cx, trait, name).items()):
            fl, ret = cx.flow(fn)
            r = limit(ret, ty, side)
            lab = "%s: %s" % (ty, name)
            if r is True:
                rep.ok("bound", lab, fn.loc())
            elif isinstance(r, str):
                rep.bad("bound", lab, fn.loc(), r)
            else:
                rep.open("bound", lab, fn.loc(), show(ret, 5))
    rep.floor("bound", 16)


def limit(t, ty, side):
    word = ("smallest", "largest")[side]
    if ty in LIMITS:
        if is_const(t):
            return True if cval(t) == LIMITS[ty][side] else "the %s %s is taken to be %s" % (word, ty, cval(t))
        return None
    if ty == "bool":
        return (True if cval(t) is bool(side) else "the %s bool is taken to be %s" % (word, cval(t))) if is_const(t) else None
    if "Float" in ty:
        u = t.a[4] if t.op == "agg" and len(t.a) == 5 else t
        if not is_const(u):
            return True if side and u.op == "kconst" and "NAN" in str(u.a[:2]).upper() else None
        v = cval(u)
        if v != v:
            return True if side else "the smallest number is taken to be NaN, which sorts last"
        return True if v == (float("inf") if side else float("-inf")) else "the %s number is taken to be %s" % (word, v)
    if "DateTime" in ty:
        ks = [x for x in walk(t) if x.op == "kconst"]
        names = " ".join(str(k.a[0]) for k in ks)
        want = ("MIN_UTC", "MAX_UTC")[side]
        if t.op == "kconst" or len(ks) == 1:
            if want in names:
                return True
            if ("MAX_UTC", "MIN_UTC")[side] in names:
                return "the %s time is taken to be the other end" % word
            if re.search(r"Naive\w*.*::%s\b" % ("MIN", "MAX")[side], names):
                return True if not any(is_const(x) and isinstance(cval(x), int) and not isinstance(cval(x), bool) and cval(x) for x in walk(t)) else None
            if "UNIX_EPOCH" in names:
                return "the %s time is taken to be 1970-01-01" % word
            return None
        cs = [x for x in walk(t) if x.op == "call" and "::".join(x.a[0].split("::")[-2:]) in MAKE]
        if len(cs) == 1:
            k = MAKE["::".join(cs[0].a[0].split("::")[-2:])]
            s = cs[0].a[1][k.index("s")] if len(cs[0].a[1]) == len(k) else None
            # what can be stored: RFC 3339 texts of the years 0 to 9999, at any offset
            if s is not None and is_const(s):
                v = cval(s)
                lim = 253402300799 + 86400 if side else -62167219200 - 86400
                return True if (v >= lim if side else v <= lim) else "times %s the second %s since 1970 lie beyond the %s key: texts with an offset from UTC reach %s" % (
                    ("before", "after")[side], v, word, lim)
        if t.op == "call" and last(t.a[0]) in ("now", "default"):
            return "the %s time is taken to be %s()" % (word, last(t.a[0]))
        return None
    if ty.startswith("FixedStringKey"):
        u = t.a[4] if t.op == "agg" and len(t.a) == 5 else t
        if u.op == "repeat":
            v = u.a[0]
            n = str(u.a[1].a[0] if isinstance(u.a[1], T) and u.a[1].op == "const" else u.a[1])
            if is_const(v):
                return True if cval(v) == (255 if side else 0) else "the %s text is taken to be %s in every byte" % (word, cval(v))
        return None
    return None


def table(ret, a, b, want):
    """leaf of an order for below, equal, above"""
    cs = [x for x in atoms(ret) if x.op == "cmp" and any(a is y for y in walk(x)) and any(b is y for y in walk(x))]
    return cs


@rule("A04")
def orders(cx):
    rep = cx.rep
    for f in sorted(cx.w.user_fns(("fcb_core",)), key=lambda f: f.path):
        if f.name not in ("cmp", "partial_cmp", "eq", "lt", "le", "gt", "ge", "ne") or f.is_closure() or not re.search(r"<(static_btree::key::FixedStringKey<N>|static_btree::entry::Entry<K>) as std::cmp::", f.path):
            continue
        what = "Entry" if "Entry" in f.path.split(" as ")[0] else "FixedStringKey"
        fl, ret = cx.flow(f)
        me, other = params(f)[:2]
        ordered(rep, "%s: %s" % (what, f.name), f, ret, me, other, what)
    for f in cx.w.find("FixedStringKey::from_str", required=False):
        padded(cx, rep, f)
    rep.floor("order", 4)


def rank(l):
    """-1, 0, 1 for an Ordering (in Some), True/False for a bool"""
    if is_const(l):
        return cval(l)
    if l.op == "agg" and len(l.a) > 4 and l.a[2] == "Some":
        return rank(l.a[4])
    if l.op == "agg" and "Ordering" in str(l.a[0]):
        n = [x for x in l.a[2:3] if x in ("Less", "Equal", "Greater")]
        return {"Less": -1, "Equal": 0, "Greater": 1}[n[0]] if n else None
    return None


def ordered(rep, lab, f, ret, me, other, what):
    if ret.op == "agg" and len(ret.a) > 4 and ret.a[2] == "Some":
        ret = ret.a[4]
    ats = list(atoms(ret))
    def side(x):
        r = root(x)
        return "me" if any(y is me for y in walk(x)) else "other" if any(y is other for y in walk(x)) else None
    keyed = []
    for a in ats:
        if a.op != "cmp":
            return rep.open("order", lab, f.loc(), show(ret, 5))
        l, r = a.a[0], a.a[1]
        sl, sr = side(l), side(r)
        if {sl, sr} != {"me", "other"}:
            return rep.open("order", lab, f.loc(), show(ret, 5))
        back = rebuild(r if sl == "me" else l, lambda x: me if x is other else x)
        mine = l if sl == "me" else r
        part = mine if mine is back else None
        if part is None:
            return rep.open("order", lab, f.loc(), "%s is compared with %s" % (show(l, 4), show(r, 4)))
        keyed.append((a, part, 1 if sl == "me" else -1))
    first = [k for k in keyed if k[1] is me and f.name != "cmp" or k[1].op == "field" and k[1].a[0] is me and str(k[1].a[1]) in ("0", "key")]
    odd = [k for k in keyed if k not in first and not (what == "Entry" and f.name == "eq" and k[1].op == "field" and k[1].a[1] == "offset")]
    if odd:
        p = odd[0][1]
        cut = p.op == "slice" or p.op == "index" or p.op == "field" and p.a[1] == "offset" or p.op == "len"
        return (rep.bad if cut else rep.open)("order", lab, f.loc(), "keys are compared by %s" % show(p, 4))
    if not first:
        return rep.open("order", lab, f.loc(), show(ret, 5))
    wrong = []
    for v in (-1, 0, 1):
        def env(a):
            for k, p, s in keyed:
                if a is k:
                    return v * s if (k, p, s) in first else 0
            return None
        l = assign(ret, env)
        got = rank(l)
        want = {"cmp": v, "partial_cmp": v, "eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[f.name]
        if got is None:
            return rep.open("order", lab, f.loc(), show(l, 4))
        if got is not want and got != want or isinstance(got, bool) != isinstance(want, bool):
            wrong.append("%s where it is %s" % (got, ("below", "equal", "above")[v + 1]))
    if wrong:
        rep.bad("order", lab, f.loc(), "the comparison answers " + ", ".join(wrong))
    else:
        rep.ok("order", lab, f.loc())


CHANGE = re.compile(r"^(trim\w*|strip_\w+|to_(ascii_)?(lower|upper)case|make_ascii_\w+|replace\w*|split\w*|rsplit\w*|repeat|rev|lines|filter|chars|escape_\w+)$")


def retext(rep, lab, f, v, s):
    """the bytes kept are not those of the text itself"""
    names = [last(x.a[0]) for x in walk(v) if x.op == "call" and isinstance(x.a[0], str) and CHANGE.match(last(x.a[0])) and any(y is s for y in walk(x))]
    if names:
        rep.bad("order", lab, f.loc(), "texts that differ share a key: the key is made of the text after %s" % ", ".join(sorted(set(names))))
    else:
        rep.open("order", lab, f.loc(), show(v, 4))


def padded(cx, rep, f):
    """the key of a text: its first bytes, then zeros"""
    fl, ret = cx.flow(f)
    s = params(f)[0]
    u = ret.a[4] if ret.op == "agg" and len(ret.a) == 5 else ret
    lab = "FixedStringKey: from_str"
    if u.op != "store" or u.a[0].op != "repeat":
        return rep.open("order", lab, f.loc(), show(u, 5))
    fill = u.a[0].a[0]
    if not is_const(fill):
        return rep.open("order", lab, f.loc(), show(u, 5))
    if cval(fill) != 0:
        return rep.bad("order", lab, f.loc(), "texts are filled up with the byte %s: a text sorts after those it is the beginning of and that go on with a smaller byte" % cval(fill))
    r, v = u.a[1], u.a[2]
    def N(x):
        return x.op == "kconst" and x.a[1] == "N" or x.op == "tconst" or x.op == "len" and x.a[0].op == "repeat"
    def L(x):
        return x.op == "len" and any(y is s for y in walk(x))
    def env(n, m):
        return lambda x: n if N(x) else m if L(x) else None
    if r.op != "agg":
        return rep.open("order", lab, f.loc(), show(r, 4))
    d = dict(zip(r.a[3], r.a[4:])) if isinstance(r.a[3], (tuple, list)) else {}
    try:
        for n in (1, 2, 5):
            for m in range(0, 8):
                a = ev(d["start"], env(n, m)) if "start" in d else 0
                b = ev(d["end"], env(n, m)) if "end" in d else n
                if v.op == "slice":
                    va = ev(v.a[1], env(n, m)) if v.a[1].op != "unit" else 0
                    vb = ev(v.a[2], env(n, m)) if v.a[2].op != "unit" else m
                    if root(v.a[0]) is not s:
                        return retext(rep, lab, f, v.a[0], s)
                elif root(v) is s:
                    va, vb = 0, m
                else:
                    return retext(rep, lab, f, v, s)
                k = min(n, m)
                if (a, b, va, vb) != (0, k, 0, k):
                    return rep.bad("order", lab, f.loc(), "of a text of %d bytes, bytes %d to %d are kept at %d to %d of a key of %d" % (m, va, vb, a, b, n))
    except (Unknown, KeyError) as e:
        return rep.open("order", lab, f.loc(), show(u, 5))
    rep.ok("order", lab, f.loc())
