"""S01 signature before anything else, S02 header size bounded, S03 verified before interpreted."""
from ev import ev, Unknown, free
from util import *
from mir import AnchorError, short, strip_generics
from . import rule, params, final, sname

MAGIC = b"fcb\x01fcb\x00"
VERSION = 1
MAXH = 1024 * 1024 * 512
VERIFIERS = {"header": ("size_prefixed_root_as_header", "root_as_header"),
             "feature": ("size_prefixed_root_as_city_feature", "root_as_city_feature")}


def openers(cx):
    """entry points that turn a source of bytes into a reader: (name, fn, opaque for async)"""
    out = []
    for s in ("FcbReader::open", "FcbReader::open_unchecked", "HttpFcbReader::open", "HttpFcbReader::new"):
        fns = cx.w.find(s, required=False)
        out += [(s, f) for f in fns]
    return out


def isread(e):
    return e.kind == "io" and e.name.startswith("Read::") or e.kind == "call" and e.name.endswith("::get_range")


def magic_term(fl):
    """the term of the first 8 bytes of the source: the first read event's data"""
    ev_ = [e for e in fl.events if isread(e)]
    return ev_[0] if ev_ else None


def is_first_bytes(t):
    """bytes read at position 0 of the source"""
    if t.op == "readat":
        return t.a[1].op in ("pos0",) or t.a[1] is const(0)
    if t.op == "payload" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].endswith("::get_range"):
        return t.a[0].a[1][1] is const(0)
    return False


def header_size(t):
    """u32 read right after the signature"""
    if t.op == "cast":
        t = t.a[2]
    return t.op == "dec" and t.a[0] == "u32"


def magic_env(m, H=None, rest=None):
    def bytesof(t):
        if is_first_bytes(t):
            return tuple(m)
        if t.op == "kconst":
            return constbytes(t)
        if t.op == "slice":
            b = bytesof(t.a[0])
            if b is None:
                return None
            try:
                lo = t.a[1].a[1] if t.a[1].op == "const" else 0
                hi = t.a[2].a[1] if t.a[2].op == "const" else len(b)
            except Exception:
                return None
            return b[lo:hi]
        return None

    def env(t):
        b = bytesof(t)
        if b is not None:
            return b
        if t.op == "index":
            b = bytesof(t.a[0])
            if b is not None and t.a[1].op == "const" and t.a[1].a[1] < len(b):
                return b[t.a[1].a[1]]
        if H is not None and t.op == "dec" and t.a[0] == "u32" and not any(is_first_bytes(x) for x in walk(t)):
            return H
        if t.op == "call" and t.a[0].endswith("::eq") and len(t.a[1]) == 2:
            x, y = bytesof(t.a[1][0]), bytesof(t.a[1][1])
            if x is not None and y is not None:
                return x == y
        if rest:
            return rest(t)
        return None
    return env


def constbytes(t):
    import ast
    for x in t.a:
        if isinstance(x, str):
            m = x.strip().lstrip("*&")
            if m.startswith('b"'):
                try:
                    return tuple(ast.literal_eval(m))
                except Exception:
                    return None
    return None


def decided(g, env):
    """guard with every atom the valuation decides fixed"""
    def f(a):
        try:
            v = ev(a, env)
        except Unknown:
            return None
        if a.op == "discr" and not isinstance(v, (int, bool)):
            return None
        return v
    return assign(g, f)


def magics():
    """(bytes, accepted) for every single-byte deviation of the signature and every version byte"""
    out = [(MAGIC, True)]
    for v in range(256):
        out.append((MAGIC[:3] + bytes([v]) + MAGIC[4:], v <= VERSION))
    for i in (0, 1, 2, 4, 5, 6):
        for b in (0, 1, MAGIC[i] - 1, MAGIC[i] + 1, MAGIC[i] ^ 0x20, 255):
            m = bytearray(MAGIC)
            m[i] = b
            out.append((bytes(m), False))
    out.append((b"fgb\x03fgb\x01", False))
    out.append((bytes(8), False))
    return out


@rule("S01")
def signature(cx):
    R = "S01.order"
    ms = magics()
    for name, fn in openers(cx):
        fl, ret = cx.flow(fn, strict=True)
        reads = [e for e in fl.events if isread(e)]
        if not reads:
            cx.rep.open(R, name, fn.loc(), "no read of the source recognised")
            continue
        first = reads[0]
        uses = [e for e in reads[1:]] + [e for e in fl.events if e.kind == "call" and "_generated" in e.name] + \
               [e for e in fl.events if e.kind == "alloc" and e.name != "Vec::with_capacity0" and any(header_size(x) for a in e.args[:1] for x in walk(a))]
        und = False
        for e in uses:
            key = "%s: %s" % (name, e.name)
            bad = None
            hit_ok = False
            for m, acc in ms:
                g = decided(e.guard, magic_env(m))
                if not acc and g is not FALSE:
                    bad = m
                    break
                if acc and g is not FALSE:
                    hit_ok = True
            if bad is not None:
                # a guard that depends on nothing of the signature is a definite violation; one over
                # an unmodelled predicate of it is not decided
                unk = [a for a in atoms(e.guard) if any(is_first_bytes(x) for x in walk(a)) and a.op != "discr"]
                dec_ = [a for a in unk if undecidable(a, magic_env(bad))]
                if dec_:
                    cx.rep.open(R, key, e.loc, "signature predicate not modelled: %s" % show(dec_[0], 3))
                else:
                    cx.rep.bad(R, key, e.loc, "reached with signature bytes %r: content of the file is used although the signature or version does not match" % bytes(bad))
            else:
                cx.rep.check(hit_ok, "S01.accept", key, e.loc, "no supported signature reaches this read: valid files are rejected")
                cx.rep.ok(R, key, e.loc)
        # outcome: a mismatch must be an error, never Ok
        R2 = "S01.reject"
        for m, acc in ms:
            r = decided(ret, magic_env(m))
            outs = leaves(r)
            if not acc and any(l.op == "agg" and l.a[2] == "Ok" for l in outs):
                cx.rep.bad(R2, name, fn.loc(), "a file starting with %r is opened" % bytes(m))
                break
            if acc and not any(l.op == "agg" and l.a[2] == "Ok" for l in outs):
                cx.rep.bad("S01.accept", name, fn.loc(), "a file starting with %r is never opened" % bytes(m))
                break
        else:
            cx.rep.ok(R2, name, fn.loc(), "%d signatures" % len(ms))
    cx.rep.floor(R, 4)
    # direct users of the predicate: it must see the first bytes of the file
    for fn in cx.w.find("check_magic_bytes", required=False):
        fl, ret = cx.flow(fn)
        p = params(fn)[0]
        bad = None
        try:
            for m, acc in ms:
                def env(t, m=m):
                    if t is p:
                        return tuple(m)
                    if t.op == "kconst":
                        return constbytes(t)
                    if t.op == "slice":
                        b = env(t.a[0])
                        if b is not None:
                            lo = t.a[1].a[1] if t.a[1].op == "const" else 0
                            hi = t.a[2].a[1] if t.a[2].op == "const" else len(b)
                            return b[lo:hi]
                    if t.op == "index":
                        b = env(t.a[0])
                        if b is not None and t.a[1].op == "const":
                            return b[t.a[1].a[1]]
                    if t.op == "len":
                        b = env(t.a[0])
                        return None if b is None else len(b)
                    return None
                got = ev(ret, env)
                if got is not acc:
                    bad = (m, got, acc)
                    break
        except Unknown as u:
            cx.rep.open("S01.predicate", "check_magic_bytes", fn.loc(), "not decidable: %s" % show(u.args[0], 3))
            continue
        if bad:
            cx.rep.bad("S01.predicate", "check_magic_bytes", fn.loc(), "%r is %s" % (bytes(bad[0]), "accepted" if bad[1] else "rejected"))
        else:
            cx.rep.ok("S01.predicate", "check_magic_bytes", fn.loc(), "%d signatures" % len(ms))


def undecidable(a, env):
    try:
        ev(a, env)
        return False
    except Unknown:
        return True


@rule("S02")
def size_gate(cx):
    R = "S02.gate"
    for name, fn in openers(cx):
        fl, ret = cx.flow(fn, strict=True)
        uses = []
        for e in fl.events:
            if e.kind == "alloc" or isread(e) or e.kind in ("mutate", "assert") and e.name in ("Vec::reserve", "Overflow") or e.kind == "call" and e.name in ("Read::take", "vec::from_elem"):
                if e.kind == "assert":
                    continue
                if any(header_size(x) and not any(is_first_bytes(y) for y in walk(x)) for a in e.args for x in walk(a)) \
                        or any(x.op == "call" and x.a[0] == "Vec::capacity" for a in e.args for x in walk(a)):
                    uses.append(e)
            elif e.kind == "call" and "_generated" in e.name:
                uses.append(e)
        if not uses:
            cx.rep.open(R, name, fn.loc(), "no use of the header size recognised")
        for e in uses:
            key = "%s: %s" % (name, e.name)
            bad = None
            for H in (0, 1, 4, 7, MAXH + 1, MAXH * 2, 2 ** 32 - 1):
                if decided(e.guard, magic_env(MAGIC, H)) is not FALSE:
                    bad = H
                    break
            if bad is not None:
                unk = [a for a in atoms(e.guard) if a.op != "discr" and any(header_size(x) for x in walk(a)) and undecidable(a, magic_env(MAGIC, bad))]
                if unk:
                    cx.rep.open(R, key, e.loc, "bound not modelled: %s" % show(unk[0], 3))
                else:
                    cx.rep.bad(R, key, e.loc, "reached with a header size of %d: the size found in the file is not bounded before it drives an allocation or a read" % bad)
                continue
            miss = [H for H in (8, 9, 4096, MAXH) if decided(e.guard, magic_env(MAGIC, H)) is FALSE]
            cx.rep.check(not miss, "S02.accept", key, e.loc, "a legal header size %s is rejected" % miss[:1])
            cx.rep.ok(R, key, e.loc)
        R2 = "S02.reject"
        for H in (0, 7, MAXH + 1, 2 ** 32 - 1):
            r = decided(ret, magic_env(MAGIC, H))
            if any(l.op == "agg" and l.a[2] == "Ok" for l in leaves(r)) and uses:
                cx.rep.bad(R2, name, fn.loc(), "a file claiming a header of %d bytes is opened" % H)
                break
        else:
            cx.rep.ok(R2, name, fn.loc())
    cx.rep.floor(R, 6)


# ------------------------------------------------------------------ S03
def okleaves(ret):
    """(guard atoms path, leaf) of every Ok outcome"""
    for l in dict.fromkeys(leaves(ret)):
        if l.op == "agg" and l.a[2] == "Ok":
            yield l


def guard_of(ret, leaf):
    return mapleaf(ret, lambda l: TRUE if l is leaf else FALSE)


def verified(fl, kind, buf, g):
    """a verifier of the kind ran on buf and succeeded wherever g holds"""
    for e in fl.events:
        if e.kind == "call" and e.name.split("::")[-1] in VERIFIERS[kind] and e.args and same_buf(e.args[0], buf, g):
            for a in atoms(g):
                if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0].split("::")[-1] in VERIFIERS[kind] and same_buf(a.a[0].a[1][0], buf, g):
                    if forced(g).get(a) == 0:
                        return True, e
    return False, None


def same_buf(a, b, g=TRUE):
    if plain(strip_views(a)) is plain(strip_views(b)):
        return True
    return plain(strip_views(under(a, g))) is plain(strip_views(under(b, g)))


def strip_views(t):
    while t.op in ("cast",) or t.op == "call" and t.a[0].split("::")[-1] in ("as_slice", "deref", "as_ref", "to_vec", "freeze", "into", "clone"):
        t = t.a[2] if t.op == "cast" else t.a[1][0]
    return t


@rule("S03")
def header_verified(cx):
    R = "S03.header"
    for name, fn in openers(cx):
        fl, ret = cx.flow(fn, strict=True)
        n = 0
        for l in okleaves(ret):
            for b in walk(l):
                if b.op == "agg" and b.a[0].endswith("FcbBuffer"):
                    n += 1
                    buf = agg_fields(b)["header_buf"]
                    g = guard_of(ret, l)
                    ok, e = verified(fl, "header", buf, g)
                    unchecked = name.endswith("_unchecked")
                    key = name
                    vf = [agg_fields(x).get("verify") for x in walk(l) if x.op == "agg" and x.a[0].endswith("::FcbReader")]
                    if unchecked:
                        cx.rep.ok("S03.optout", key, fn.loc(), "caller opted out")
                        continue
                    if ok:
                        cx.rep.ok(R, key, e.loc)
                    else:
                        cx.rep.bad(R, key, fn.loc(), "Ok(reader) is reached without a successful structural check of the header bytes it holds")
                    for v in vf:
                        cx.rep.check(v is TRUE, "S03.flag", key, fn.loc(), "the verifying entry point creates a reader that does not verify features (verify = %s)" % show(v, 3))
                    break
        if not n:
            cx.rep.open(R, name, fn.loc(), "no reader construction recognised")
    cx.rep.floor(R, 3)


@rule("S03")
def feature_verified(cx):
    """bytes placed in features_buf are verified before the call reports success"""
    R = "S03.feature"
    for owner, nm in (("FeatureIter", "advance"), ("AsyncFeatureIter", "next")):
        for fn in cx.w.methods(owner, nm):
            fl, ret = cx.flow(fn, strict=True)
            p = params(fn)[0]
            st = final(fl, p)
            me = sname(fn)
            for c in fl.state:
                pass
            bufs = feature_buf(st, fn)
            if bufs is None:
                cx.rep.open(R, me, fn.loc(), "feature buffer not recognised")
                continue
            old = feature_buf(p, fn)
            n = 0
            for l in okleaves(ret):
                g = guard_of(ret, l)
                if g is FALSE:
                    continue
                b = under(bufs, g)
                for bb in dict.fromkeys(leaves(b)):
                    gg = AND(g, mapleaf(bufs, lambda x: TRUE if x is bb else FALSE))
                    if gg is FALSE or bb is old:
                        continue
                    # a four byte size alone is never handed out: the iterator is finished there
                    n += 1
                    # the caller did not opt out
                    gg = assign(gg, lambda a: True if a.op == "field" and a.a[1] == "verify" else None)
                    if gg is FALSE:
                        continue
                    ok, e = verified(fl, "feature", bb, gg)
                    if ok:
                        cx.rep.ok(R, me, e.loc)
                    elif finished(l, st, gg):
                        cx.rep.ok(R + ".end", me, fn.loc())
                    else:
                        anyv = [e for e in fl.events if e.kind == "call" and e.name.split("::")[-1] in VERIFIERS["feature"]]
                        (cx.rep.bad)(R, me, (anyv[0].loc if anyv else fn.loc()), "success is reported with feature bytes that were not verified, or whose failed check was ignored: %s" % show(bb, 3))
            if not n:
                cx.rep.open(R, me, fn.loc(), "no delivery of a feature recognised")
    cx.rep.floor(R, 3)


def feature_buf(st, fn):
    for path in (("buffer", "features_buf"), ("fbs", "features_buf")):
        t = st
        try:
            for n in path:
                t = getf(t, n)
        except KeyError:
            continue
        if st.op == "param" or any(l.op != "field" or root(l).op != "param" for l in leaves(t)):
            return t
    return None


def getf(t, n):
    from flow import getpath
    if t.op == "sw":
        return mapleaf(t, lambda l: getf(l, n))
    if t.op == "agg":
        f = agg_fields(t)
        if n in f:
            return f[n]
        raise KeyError(n)
    for x in walk(t):
        if x.op == "with" or x.op == "upd":
            break
    return field(t, n, "")


def finished(l, st, g):
    """the iterator says it is at its end"""
    if any(x.op == "agg" and x.a[2] == "None" for x in walk(l)):
        return True
    try:
        s = getf(st, "state")
    except KeyError:
        return False
    return all(x.op == "agg" and x.a[2] == "Finished" for x in leaves(s)
               if AND(g, mapleaf(s, lambda y: TRUE if y is x else FALSE)) is not FALSE)
