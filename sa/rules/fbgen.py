"""Generated flatbuffers code: every table slot is verified, written and read as one and the same slot."""
import re
from mir import short, strip_generics
from rules import rule


def gen_fns(cx):
    return [f for f in cx.w.fns.values() if f.crate == "fcb_core" and "_generated" in f.file and not f.is_closure()]


def tyname(s):
    s = re.sub(r"'[a-z_]+,? ?", "", s)
    s = re.sub(r"<>", "", s)
    return re.sub(r"[A-Za-z_0-9]+::", "", s)


def selfname(f):
    t = f.impl_self
    return None if t is None else re.sub(r"<.*", "", t.s).rsplit("::", 1)[-1]


def vt(o):
    c = o.get("const") if isinstance(o, dict) else None
    if c and "::VT_" in c.get("def", ""):
        return int(c["v"]["i"])
    return None


def source(fn, o, depth=6):
    """place or constant an operand was copied from (single-assignment chains)"""
    while depth and isinstance(o, dict) and "const" not in o:
        p = o.get("mv") or o.get("cp")
        if p[1]:
            return p
        defs = [s["r"] for b in fn.bb if not b["c"] for s in b["s"] if s.get("p") == [p[0], []]]
        calls = [b["t"] for b in fn.bb if not b["c"] and b["t"]["k"] == "call" and b["t"]["d"] == [p[0], []]]
        if len(defs) == 1 and not calls:
            r = defs[0]
            if r["k"] in ("use",):
                o = r["o"]
                depth -= 1
                continue
            return r
        if len(calls) == 1 and not defs:
            return calls[0]
        return p
    return o


def is_none(fn, o):
    s = source(fn, o)
    if isinstance(s, dict) and s.get("k") == "agg" and s.get("p", "").endswith("Option"):
        return not s["ops"]
    if isinstance(s, dict) and "const" in s:
        return s["const"].get("v", {}).get("variant") == "None" if "variant" in s["const"].get("v", {}) else None
    return None


def tables(cx):
    """table -> verifier, accessors, builder slots, arguments"""
    T = {}
    for f in gen_fns(cx):
        sn = selfname(f)
        if sn is None:
            continue
        if f.name == "run_verifier":
            d = T.setdefault(sn, {})
            d["vfn"] = f
            for b, c, t in f.calls():
                if c and c["p"].endswith("::visit_field"):
                    v = vt(t["args"][2])
                    req = t["args"][3].get("const", {}).get("v", {}).get("b")
                    if v is not None:
                        d.setdefault("visits", {})[v] = (tyname(f.w.type(f.crate, c["a"][-1]).s), req)
            continue
        for b, c, t in f.calls():
            if not c:
                continue
            p = strip_generics(c["p"])
            if p.endswith("Table::get") and vt(t["args"][1]) is not None:
                tn = tyname(f.w.type(f.crate, c["a"][-1]).s)
                unw = any(x and x["p"].endswith("Option::<T>::unwrap") for _, x, _ in f.calls())
                T.setdefault(sn, {}).setdefault("get", {})[f.name] = (vt(t["args"][1]), tn, unw and is_none(f, t["args"][2]) is not False, f.loc(b))
            elif (p.endswith("::push_slot") or p.endswith("::push_slot_always")) and vt(t["args"][1]) is not None and sn.endswith("Builder") and f.name.startswith("add_"):
                src = source(f, t["args"][2])
                T.setdefault(sn[:-7], {}).setdefault("add", {})[f.name[4:]] = (vt(t["args"][1]), src == [2, []] or isinstance(src, dict) and src.get("k") == "ref" and src["p"] == [2, ["*"]], f.loc(b))
            elif f.name == "create" and short(p).startswith("add_"):
                s = source(f, t["args"][1])
                idx = None
                if isinstance(s, list):
                    for e in s[1]:
                        if isinstance(e, dict) and "f" in e:
                            idx = e["f"]
                            break
                T.setdefault(sn, {}).setdefault("create", {})[short(p)[4:]] = (idx, f.loc(b), f)
    return {k: d for k, d in T.items() if "get" in d}


OF = {"Header": "V04", "ReferenceSystem": "V04", "Extension": "V04", "Column": "V02", "Appearance": "V05", "Material": "V05", "Texture": "V05",
      "CityFeature": "V06", "CityObject": "V06", "GeometryInstance": "V07", "Geometry": "V07", "SemanticObject": "V07", "MaterialMapping": "V07", "TextureMapping": "V07"}


@rule("S03")
def generated_verified(cx):
    """an accessor only touches slots its table's verifier has visited with the same type"""
    R = "S03.slots"
    for t, d in sorted(tables(cx).items()):
        vis = d.get("visits", {})
        if "vfn" not in d:
            cx.rep.open(R, t, "", "no verifier recognised")
            continue
        for n, (v, ty, unw, loc) in sorted(d["get"].items()):
            if n.startswith("key_compare"):
                continue
            key = "%s.%s" % (t, n)
            if v not in vis:
                cx.rep.bad(R, key, loc, "the accessor reads slot %d, which the verifier of %s never visits" % (v, t))
            elif vis[v][0] != ty:
                cx.rep.bad(R, key, loc, "the accessor reads slot %d as %s but the verifier checks it as %s" % (v, ty, vis[v][0]))
            elif unw and vis[v][1] is False:
                cx.rep.bad(R, key, loc, "the accessor unwraps slot %d but the verifier accepts its absence" % v)
            else:
                cx.rep.ok(R, key, loc)
    cx.rep.floor(R, 100)
    # unchecked interpretation of bytes is confined to the types whose bytes the readers verify
    R = "S03.unchecked"
    allowed = ("FcbBuffer",)
    for f in cx.w.user_fns():
        for b, c, t in f.calls():
            if c and short(strip_generics(c["p"])).endswith("root_unchecked") or c and re.search(r"root_as_\w+_unchecked$", strip_generics(c["p"])):
                owner = f.impl_self.path if f.impl_self is not None and f.impl_self.k == "adt" else (f.impl_self.s if f.impl_self is not None else "")
                key = "%s -> %s" % (short(strip_generics(f.path)), short(strip_generics(c["p"])))
                if owner and owner.rsplit("::", 1)[-1] in allowed:
                    cx.rep.ok(R, key, f.loc(b))
                elif f.is_closure() or not owner:
                    cx.rep.open(R, key, f.loc(b), "unchecked interpretation in an unfamiliar place")
                else:
                    cx.rep.open(R, key, f.loc(b), "unchecked interpretation outside FcbBuffer")
    # the checked roots really are checked
    for f in gen_fns(cx):
        m = re.search(r"root_as_(header|city_feature)$", f.path)
        if m:
            names = {short(strip_generics(c["p"])) for _, c, _ in f.calls() if c}
            cx.rep.check(not any(n.endswith("_unchecked") for n in names), "S03.root", short(f.path), f.loc(), "the checking root function does not check")


def channels(prop):
    def f(cx):
        R = prop + ".slot"
        for t, d in sorted(tables(cx).items()):
            if OF.get(t) != prop:
                continue
            add, get, cr = d.get("add", {}), d["get"], d.get("create", {})
            adt = [a for k, a in cx.w.adts.items() if k.endswith("::%sArgs" % t)]
            names = [x[0] for x in adt[0]["v"][0]["f"]] if adt else None
            for n, (v, _, _, loc) in sorted(get.items()):
                key = "%s.%s" % (t, n)
                if n not in add:
                    continue
                if add[n][0] != v:
                    cx.rep.bad(R, key, add[n][2], "written to slot %d but read from slot %d" % (add[n][0], v))
                elif not add[n][1]:
                    cx.rep.open(R, key, add[n][2], "value written is not the argument")
                elif n in cr and names and cr[n][0] is not None and cr[n][0] < len(names) and names[cr[n][0]] != n:
                    cx.rep.bad(R, key, cr[n][1], "the argument %s is written as %s" % (names[cr[n][0]], n))
                else:
                    cx.rep.ok(R, key, loc)
            vs = {}
            for n, (v, ty, _, loc) in get.items():
                if n in vs.setdefault(v, set()):
                    continue
                vs[v].add(n)
            for v, ns in sorted(vs.items()):
                ns = {n for n in ns if not n.startswith("key_")}
                if len(ns) > 1:
                    cx.rep.bad(R, "%s: %s" % (t, ", ".join(sorted(ns))), "", "share slot %d" % v)
    f.__name__ = "channels_" + prop
    rule(prop)(f)


for _p in sorted(set(OF.values())):
    channels(_p)


def struct_slot(f):
    """(byte offset, width) a struct accessor touches"""
    off = 0
    for b in f.bb:
        if b["c"]:
            continue
        for s in b["s"]:
            r = s.get("r")
            if r and r["k"] == "agg" and r.get("p", "").endswith("RangeFrom"):
                c = r["ops"][0].get("const", {}).get("v", {}).get("i")
                if c is None:
                    return None
                off = int(c)
    ty = None
    for _, c, _ in f.calls():
        if c and short(c["p"]) in ("from_little_endian", "to_little_endian") and c.get("self") is not None:
            ty = f.w.type(f.crate, c["self"]).s
    return (off, ty) if ty else None


@rule("V08")
def structs(cx):
    """fixed-layout structs: component x is written to and read from the same bytes"""
    R = "V08.layout"
    S = {}
    for f in gen_fns(cx):
        sn = selfname(f)
        if sn and f.impl_trait is None and not sn.endswith("Builder"):
            S.setdefault(sn, {})[f.name] = f
    for sn, fs in sorted(S.items()):
        comps = [n for n in fs if "set_" + n in fs]
        if not comps:
            continue
        spans = {}
        for n in comps:
            g, s = struct_slot(fs[n]), struct_slot(fs["set_" + n])
            key = "%s.%s" % (sn, n)
            if g is None or s is None:
                # nested struct member: compare the byte range only
                g, s = member(fs[n]), member(fs["set_" + n])
                if g is None or s is None:
                    cx.rep.open(R, key, fs[n].loc(), "layout not recognised")
                    continue
            cx.rep.check(g == s, R, key, fs["set_" + n].loc(), "written at byte %s as %s but read at byte %s as %s" % (s + g))
            if g[0] in spans:
                cx.rep.bad(R, key, fs[n].loc(), "reads the bytes of %s" % spans[g[0]])
            spans[g[0]] = n
        new = fs.get("new")
        if new is None:
            continue
        for b, c, t in new.calls():
            m = c and short(c["p"])
            if m and m.startswith("set_") and m[4:] in comps:
                p = source(new, t["args"][1])
                if isinstance(p, list) and not p[1]:
                    cx.rep.check(new.names.get(p[0]) == m[4:], R, "%s::new %s" % (sn, m[4:]), new.loc(b), "parameter %s is stored as %s" % (new.names.get(p[0]), m[4:]))
    cx.rep.floor(R, 30)


def member(f):
    """(byte range start, end) of a nested struct member"""
    nums = []
    for b in f.bb:
        if b["c"]:
            continue
        for s in b["s"]:
            r = s.get("r")
            if r and r["k"] == "agg" and r.get("p", "").endswith("::Range"):
                nums = [o.get("const", {}).get("v", {}).get("i") for o in r["ops"]]
            if r and r["k"] in ("ref", "rawptr") and r["p"][0] == 1 and any(isinstance(e, dict) and "cidx" in e for e in r["p"][1]):
                pass
    if len(nums) == 2 and None not in nums:
        return tuple(int(x) for x in nums)
    off = None
    for b in f.bb:
        if b["c"]:
            continue
        for s in b["s"]:
            for c in consts(s):
                if "v" in c and "i" in c["v"]:
                    off = int(c["v"]["i"])
        for c in consts(b["t"]):
            if "v" in c and "i" in c["v"]:
                off = int(c["v"]["i"])
    return None if off is None else (off, None)


def consts(x):
    from mir import iter_consts
    return iter_consts(x)
