"""Does a composed term give back the item it was made from? Type-directed comparison of a term with
an access path, arm by arm, under the conditions collected on the way."""
import re
from term import *
from term import kids
from ev import ev, Unknown
from util import rebuild, recase, norm
from compose import rekey

NUMS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "f32": 32, "f64": 64, "bool": 1}


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<[(":
            d += 1
        if c in ">])":
            d -= 1
        if c == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(ty):
    """(head, args) of a printed type"""
    ty = re.sub(r"^&('[a-z_0-9]+ )?(mut )?", "", ty.strip())
    if ty.startswith("["):
        body = ty[1:-1]
        if ";" in body:
            a, n = body.rsplit(";", 1)
            return "array", [a.strip(), n.strip()]
        return "Vec", [body]
    m = re.match(r"^([\w:]+)<(.*)>$", ty)
    if m:
        return m.group(1), split_args(m.group(2))
    return ty, []


class Matcher:
    """results: list of (item path, status, message, condition)"""

    def __init__(self, schema, roots, opaque=()):
        self.s = schema
        self.roots = roots              # terms the writer's input is reached from
        self.types = {}
        self.opaque = set(opaque)       # (owner, field) not followed
        self.out = []
        self.n = 0

    def add(self, item, st, msg="", F=None, p=None):
        self.out.append((item, st, msg, cond(F)))

    def source(self, t):
        """t is an access path into the writer's input"""
        while True:
            if t in self.roots:
                return True
            if t.op in ("field", "payload", "elem", "index", "len"):
                t = t.a[0]
                continue
            return False

    def other(self, t, p, item, F, known):
        return False

    def default(self, t, n, ft):
        return None

    def absent(self, item):
        return False

    def simplify(self, t):
        return t

    def under(self, t, F):
        """t with everything decided under F settled, also inside"""
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T) or not x.a or x.op == "param":
                return x
            r = memo.get(x)
            if r is not None:
                return r
            memo[x] = x
            y = x
            if y.op == "sw":
                y = self.settle(y, F)
            if y.op == "sw":
                r = recase(y.a[0], [(v, go(c)) for v, c in y.a[1]], None if y.a[2] is None else go(y.a[2]))
            elif y is not x:
                r = go(y)
            else:
                a = tuple(go(z) for z in y.a)
                r = y if a == y.a else norm(y.op, a)
            memo[x] = r
            return r
        return self.simplify(go(t))

    def domain(self, a):
        if a in DOM:
            return DOM[a]
        if a.op == "discr":
            h, ta = parse(self.typeof(a.a[0]) or "?")
            if h.endswith("Option"):
                return (0, 1)
            ad = self.s.adts.get(h)
            if ad is not None and ad["enum"]:
                return tuple(i if v["d"] is None else int(v["d"]) for i, v in enumerate(ad["v"]))
        if a.op in ("call", "more", "any", "fails"):
            return (False, True)
        return ()

    def typeof(self, t):
        """type of an access path"""
        r = self.types.get(t)
        if r is not None or t in self.types:
            return r
        r = None
        if t in self.roots:
            r = self.roots[t]
        elif t.op in ("field", "payload", "elem", "index"):
            b = self.typeof(t.a[0])
            if b is not None:
                h, ta = parse(b)
                if t.op == "field":
                    ad = self.s.adts.get(h)
                    if b.startswith("("):
                        xs = split_args(b[1:-1])
                        r = xs[int(t.a[1])] if t.a[1].isdigit() and int(t.a[1]) < len(xs) else None
                    elif ad is not None and not ad["enum"]:
                        r = dict(ad["v"][0]["f"]).get(t.a[1])
                elif t.op == "payload":
                    if h.endswith("Option"):
                        r = ta[0] if t.a[1] == "Some" else None
                    elif h in self.s.adts:
                        vs = [v for v in self.s.adts[h]["v"] if v["n"] == t.a[1]]
                        r = dict(vs[0]["f"]).get(t.a[2]) if vs else None
                        if r == "T" or r and "T" in re.findall(r"\w+", r):
                            r = None
                elif h.endswith("Map"):
                    r = "(%s)" % ", ".join(ta)
                elif h in ("array", "Vec") or h.endswith("::Vec"):
                    r = ta[0]
        self.types[t] = r
        return r

    def value(self, a, F):
        if a.op == "len":
            h, ta = parse(self.typeof(a.a[0]) or "?")
            if h == "array" and ta[1].isdigit():
                return int(ta[1])
        return resolve(a, F)

    def match(self, t, p, ty, item, F):
        self.n += 1
        if self.n > 200000:
            self.add(item, "open", "too many cases", F)
            return
        if t is p:
            self.add(item, "ok", "", F)
            return
        if t is UNDEF:
            return
        head, ta = parse(ty)
        if t.op == "sw":
            a = t.a[0]
            k = self.value(a, F)
            arms = list(t.a[1])
            if k is not None and not (isinstance(k, tuple) and k and k[0] == "not"):
                for v, c in arms:
                    if v == k and type(v) is type(k):
                        return self.match(c, p, ty, item, F)
                if t.a[2] is not None:
                    return self.match(t.a[2], p, ty, item, F)
                return
            no = set(k[1]) if k else set()
            for v, c in arms:
                if v in no:
                    continue
                self.match(c, p, ty, item, {**F, a: v})
            if t.a[2] is not None:
                ex = tuple(v for v, _ in arms) + tuple(no)
                left = [v for v in self.domain(a) if v not in ex]
                if left or not self.domain(a):
                    self.match(t.a[2], p, ty, item, {**F, a: left[0] if len(left) == 1 else ("not", ex)})
            return
        h = head.rsplit("::", 1)[-1]
        known = F.get(p)
        if known is not None and t.op == "const" and self.other(t, p, item, F, known):
            return
        if known is not None and t.op == "const":
            if t.a[1] == known:
                self.add(item, "ok", "", F)
            elif not (isinstance(known, tuple) and t.a[1] not in known[1]):
                self.add(item, "bad", "%s comes back as %s" % (show(const(known)) if not isinstance(known, tuple) else "another value", show(t)), F)
            else:
                self.add(item, "bad", "any other value comes back as %s" % show(t), F)
            return
        if t.op == "agg" and t.a[2] == "None" and h != "Option" and t.a[0].endswith("Option"):
            self.add(item, "bad", "is dropped: the constructor's default comes back", F)
            return
        if h == "Option":
            return self.option(t, p, ta[0], item, F)
        if h == "Box":
            return self.match(t, p, ta[0], item, F)
        if h in ("Vec", "HashMap", "BTreeMap", "Map") or head == "array":
            return self.coll(t, p, h if head != "array" else "array", ta, item, F)
        if t.op == "agg" or t.op == "call" and t.a[0].endswith("::new") or t.op == "with":
            ad = self.s.adts.get(head)
            if ad is not None:
                return self.struct(t, p, head, ad, item, F)
            if t.op == "agg" and t.a[0] == "tuple" and ty.startswith("("):
                tys = split_args(ty[1:-1])
                for i, x in enumerate(t.a[4:]):
                    self.match(x, field(p, str(i)), tys[i], item + ("." + str(i)), F)
                return
        self.leaf(t, p, ty, item, F)

    def known(self, p, F):
        if p.op == "agg":
            return p.a[1]
        return self.value(mk("discr", p), F)

    def option(self, t, p, ty, item, F):
        k = self.known(p, F)
        if t.op == "agg" and t.a[2] == "None":
            if k == 0:
                self.add(item, "ok", "", F)
            else:
                self.add(item, "bad", "comes back absent although present" + ("" if k == 1 else " or not"), F)
        elif t.op == "agg" and t.a[2] == "Some":
            if k == 0:
                # a value with no payload behind it: the arm is only reached when the item is absent
                self.add(item, "bad", "an absent item comes back as %s" % show(t.a[5 - 1], 3), F)
            else:
                self.match(t.a[4], payload(p, "Some", "0"), ty, item, F if k == 1 else {**F, mk("discr", p): 1})
                if k is None and not self.absent(item):
                    self.add(item, "bad", "an absent item comes back present", F)
        else:
            self.leaf(t, p, "Option", item, F)

    def coll(self, t, p, h, ta, item, F):
        if t.op == "seq":
            src = t.a[0]
            if src is not p:
                if src.op == "sw":
                    return self.match(mapleaf(src, lambda s: mk("seq", s, *t.a[1:])), p, rety(h, ta), item, F)
                if self.source(src):
                    self.add(item, "bad", "is made from %s" % path(src), F)
                else:
                    self.add(item, "open", "made from %s" % show(src, 5), F)
                return
            c = t.a[2]
            if c is not TRUE:
                c = fold(c, F)
            if c is not TRUE:
                self.add(item, "bad" if self.ofitem(c, p) else "open", "elements are kept only when %s" % show(c, 4), F)
            et = "(%s)" % ", ".join(ta) if h in ("HashMap", "BTreeMap", "Map") else ta[0]
            self.match(t.a[3], mk("elem", p, t.a[1]), et, item + "[*]", F)
            return
        if t.op == "agg" and t.a[0] == "array" or t.op == "array":
            xs = t.a[4:] if t.op == "agg" else t.a
            et = ta[0]
            if h == "array" and ta[1].isdigit() and int(ta[1]) != len(xs):
                self.add(item, "bad", "has %s components, %d come back" % (ta[1], len(xs)), F)
            for i, x in enumerate(xs):
                self.match(x, mk("index", p, const(i)), et, item + "[%d]" % i, F)
            return
        if t.op == "extend" and self.union(t, p, h, ta, item, F):
            return
        if t.op == "empty":
            ln = F.get(mk("len", p))
            self.add(item, "ok" if ln == 0 else "bad", "" if ln == 0 else "comes back empty", F)
            return
        self.leaf(t, p, h, item, F)

    def union(self, t, p, h, ta, item, F):
        """the same collection taken apart and put together again"""
        parts = []

        def split(x):
            if x.op == "extend":
                for y in x.a:
                    split(y)
            else:
                parts.append(x)
        split(t)
        parts = [self.settle(x, F) for x in parts]
        if not all(x.op == "seq" for x in parts):
            return False
        if len({x.a[0] for x in parts}) != 1 or parts[0].a[0] is not p:
            return False
        key = parts[0].a[1]
        cs = [fold(rekey(x.a[2], x.a[1], key), F) for x in parts]
        bs = [rekey(x.a[3], x.a[1], key) for x in parts]
        al = FALSE
        for c in cs:
            if AND(al, c) is not FALSE:
                self.add(item, "bad", "an element can come back twice", F)
            al = OR(al, c)
        if al is not TRUE:
            self.add(item, "bad", "an element is dropped unless %s" % show(al, 4), F)
        et = "(%s)" % ", ".join(ta) if h in ("HashMap", "BTreeMap", "Map") else ta[0]
        for c, b in zip(cs, bs):
            for F2 in models(c, F):
                self.match(b, mk("elem", p, key), et, item + "[*]", F2)
        return True

    def settle(self, x, F):
        n = 0
        while x.op == "sw" and n < 50:
            n += 1
            k = self.value(x.a[0], F)
            if k is None or isinstance(k, tuple):
                break
            for v, c in x.a[1]:
                if v == k and type(v) is type(k):
                    x = c
                    break
            else:
                if x.a[2] is None:
                    break
                x = x.a[2]
        return x

    def struct(self, t, p, head, ad, item, F):
        if ad["enum"]:
            k = self.known(p, F)
            if t.op != "agg":
                return self.leaf(t, p, head, item, F)
            ds = {v["n"]: i if v["d"] is None else int(v["d"]) for i, v in enumerate(ad["v"])}
            d = ds.get(t.a[2])
            if k is None or isinstance(k, tuple):
                self.add(item, "bad", "every value comes back as %s" % t.a[2], F)
            elif k != d:
                nm = [n for n, v in ds.items() if v == k]
                self.add(item, "bad", "%s comes back as %s" % (nm[0] if nm else k, t.a[2]), F)
            else:
                fs = dict([v for v in ad["v"] if v["n"] == t.a[2]][0]["f"])
                self.add(item, "ok", "", F)
                for n, x in agg_fields(t).items():
                    self.match(x, payload(p, t.a[2], n), fs[n], item + "." + n, F)
            return
        fs = ad["v"][0]["f"]
        nm = head.rsplit("::", 1)[-1]
        if t.op == "call":
            if len(t.a[1]) != len(fs):
                vals = {}
                base = t
            else:
                vals = {f[0]: x for f, x in zip(fs, t.a[1])}
                base = None
        elif t.op == "with":
            vals, base = {}, t
            while base.op == "with":
                vals.setdefault(base.a[1], base.a[2])
                base = base.a[0]
        else:
            vals, base = agg_fields(t), None
        for n, ft in fs:
            it = "%s.%s" % (nm, n) if "." not in item or True else item
            if (nm, n) in self.opaque:
                continue
            if n not in vals:
                d = self.default(base, n, ft) if base is not None else None
                if d is None:
                    self.add(it, "bad", "is never restored", F)
                    continue
                vals[n] = d
            self.match(vals[n], field(p, n, ""), ft, it, F)

    def leaf(self, t, p, ty, item, F):
        if t.op == "cast" and t.a[2] is p:
            a, b = NUMS.get(t.a[0], 64), NUMS.get(t.a[1], 64)
            if b >= a:
                self.add(item, "ok", "", F)
            else:
                self.add(item, "narrow", "%s narrowed to %s" % (t.a[0], t.a[1]), F)
            return
        if t.op == "cast":
            return self.match(t.a[2], p, ty, item, F)
        if t.op == "const":
            self.add(item, "bad", "comes back as %s whatever it was" % show(t), F)
        elif self.source(t):
            self.add(item, "bad", "comes back as %s" % path(t), F)
        elif (u := self.under(t, F)) is not t:
            self.match(u, p, ty, item, F)
        elif t.op in ("lin", "mul", "bin", "min", "max", "clamp"):
            self.add(item, "bad", "is altered: %s" % show(t, 4), F)
        elif t.op == "agg" and t.a[2] in ("None",):
            self.add(item, "bad", "comes back absent", F)
        elif (n := self.lossy(t)) is not None:
            self.add(item, "bad", "is altered by %s" % n, F)
        else:
            self.add(item, "open", "comes back as %s" % show(t, 5), F)

    def lossy(self, t):
        """a conversion under which different values of the input become the same"""
        for x in walk(t):
            if x.op == "call" and x.a[1] and x.a[0].rsplit("::", 1)[-1] in LOSSY and self.source(x.a[1][0]):
                return x.a[0].rsplit("::", 1)[-1]
            if x.op == "cast" and x.a[0][:1] == "f" and x.a[1] != "f64" and self.source(x.a[2]):
                return "conversion to " + x.a[1]
        return None

    def ofitem(self, c, p):
        """a condition about the input alone"""
        return all(self.source(x) for a in atoms(c) for x in (a.a if a.op in ("cmp", "eq") else a.a[1] if a.op == "call" else a.a[:1]) if isinstance(x, T) and x.op != "const")


LOSSY = """trim trim_start trim_end trim_start_matches trim_end_matches trim_matches to_lowercase to_uppercase to_ascii_lowercase
to_ascii_uppercase replace replacen round floor ceil trunc abs truncate""".split()


def resolve(a, F):
    """value of a condition's subject under what is known, if that decides it"""
    k = F.get(a)
    if k is not None or a.op in ("discr", "param", "field", "lv"):
        return k
    if a.op == "call" and a.a[0] == "str::starts_with" and isinstance(F.get(a.a[1][0]), str) and a.a[1][1].op == "const":
        return F[a.a[1][0]].startswith(a.a[1][1].a[1].strip("'"))
    try:
        return ev(a, lambda x: None if isinstance(F.get(x), tuple) else F.get(x))
    except (Unknown, TypeError):
        return None


def canon(t):
    """conversions that keep the value are dropped, and the owners recorded with fields"""
    def f(x):
        if x.op == "field" and x.a[2]:
            return field(x.a[0], x.a[1], "")
        if x.op == "payload" and x.a[1] == "Ok" and x.a[0].op == "call" and x.a[0].a[0] in KEEP and len(x.a[0].a[1]) == 1:
            return x.a[0].a[1][0]
        if x.op == "call" and x.a[0] in KEEP1 and len(x.a[1]) == 1:
            return x.a[1][0]
        return x
    return rebuild(t, f)


KEEP = {"try_into", "try_from"}
KEEP1 = set()


def rety(h, ta):
    return "[%s; %s]" % tuple(ta) if h == "array" else "%s<%s>" % (h, ", ".join(ta))


def models(c, F):
    """ways to make a condition true, as extensions of F"""
    if c is TRUE:
        yield F
    elif c.op == "sw":
        for v, x in c.a[1]:
            yield from models(x, {**F, c.a[0]: v})
        if c.a[2] is not None:
            yield from models(c.a[2], {**F, c.a[0]: ("not", tuple(v for v, _ in c.a[1]))})




def fold(c, F):
    return assign(c, lambda a: F.get(a) if not isinstance(F.get(a), tuple) else None)


def path(t):
    s = ""
    while t.op in ("field", "payload", "elem", "index", "len"):
        if t.op == "field":
            s = "." + t.a[1] + s
        elif t.op == "elem":
            s = "[*]" + s
        elif t.op == "index":
            s = "[%s]" % show(t.a[1], 2) + s
        elif t.op == "len":
            s = ".len()" + s
        t = t.a[0]
    return (t.a[0] if t.op == "param" else show(t, 2)) + s


def cond(F):
    if not F:
        return ""
    out = []
    for a, v in F.items():
        out.append("%s %s" % (show(a, 4), ("not in %s" % (v[1],)) if isinstance(v, tuple) else "= %s" % (v,)))
    return " and ".join(out)
