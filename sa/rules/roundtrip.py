"""V03-V08 round trip of features and headers: what the reader rebuilds, expressed over the writer's own
input, against the item it was written from."""
from compose import Schema, Composer
from match import Matcher, canon, parse, cond, show, path
from mir import AnchorError
from term import *
from . import rule

CITY_OBJECTS = """Bridge BridgePart BridgeInstallation BridgeConstructiveElement BridgeRoom BridgeFurniture Building BuildingPart
BuildingInstallation BuildingConstructiveElement BuildingFurniture BuildingStorey BuildingRoom BuildingUnit CityFurniture
CityObjectGroup GenericCityObject LandUse OtherConstruction PlantCover SolitaryVegetationObject TINRelief TransportSquare Railway
Road Waterway Tunnel TunnelPart TunnelInstallation TunnelConstructiveElement TunnelHollowSpace TunnelFurniture WaterBody""".split()
SURFACES = """RoofSurface GroundSurface WallSurface ClosureSurface OuterCeilingSurface OuterFloorSurface Window Door
InteriorWallSurface CeilingSurface FloorSurface WaterSurface WaterGroundSurface WaterClosureSurface TrafficArea
AuxiliaryTrafficArea TransportationMarking TransportationHole""".split()
NAMED = {"CityObject.thetype": CITY_OBJECTS, "SemanticsSurface.thetype": SURFACES}

# which properties speak about an item of the data model
ENUMS = {"CityObject.thetype", "SemanticsSurface.thetype", "Geometry.thetype", "TextureObject.thetype", "TextureObject.wrap_mode",
         "TextureObject.texture_type"}
NUMERIC = {"CityJSONFeature.vertices", "CityObject.geographical_extent", "Geometry.transformation_matrix", "Transform.scale",
           "Transform.translate", "GeometryTemplates.vertices_templates", "Appearance.vertices_texture", "Metadata.geographical_extent"}
HEADER_ONLY = {"CityJSON", "Metadata", "Transform", "ReferenceSystem", "PointOfContact", "Address", "Extension", "GeometryTemplates"}

# items outside what the format stores (see DESIGN.md)
NOT_STORED = {("CityJSONFeature", "thetype"), ("CityJSONFeature", "extensions"), ("CityObject", "other"),
              ("CityJSON", "thetype"), ("CityJSON", "sorted_ids"), ("CityJSON", "other"), ("CityJSON", "city_objects"), ("CityJSON", "vertices")}


def props_of(item, where):
    base = item.split("[")[0]
    st = base.split(".")[0]
    out = set()
    if base in ENUMS:
        out.add("V03")
    if base in NUMERIC:
        out.add("V08")
    if st in ("Appearance", "MaterialObject", "TextureObject") or base in ("CityJSONFeature.appearance", "CityJSON.appearance"):
        out.add("V05")
    if st in ("Geometry", "Semantics", "SemanticsSurface"):
        out.add("V07")
    if st in ("CityJSONFeature", "CityObject") and base != "CityJSONFeature.appearance":
        out.add("V06")
    if st in HEADER_ONLY:
        out.add("V04")
    if base == "Geometry.transformation_matrix":
        out |= {"V07", "V08"}
    return out


# ------------------------------------------------------------------ pairs of recursive encoders and decoders
def leaves(t):
    if t.op == "sw":
        for c in [c for _, c in t.a[1]] + ([t.a[2]] if t.a[2] is not None else []):
            yield from leaves(c)
    elif t is not UNDEF:
        yield t


def only(xs):
    xs = set(xs)
    return xs.pop() if len(xs) == 1 and None not in xs else None


class Pairs:
    """decoder call over what its encoder produced amounts to the encoder's input; their insides are decided
    by V01/V02 (attributes) and by the V07 rules on the encoders and decoders themselves"""
    ENC = ["encode_attributes_with_schema", "encode_boundaries", "encode_semantics_values", "encode_material", "encode_texture"]
    DEC = ["decode_attributes", "decode", "decode_semantics_", "decode_materials", "decode_textures"]

    def __init__(self, cx):
        self.bad = []
        self.seen = set()
        self.missing = []
        self.fn = {}
        for n in self.ENC + self.DEC:
            fs = [f for f in cx.w.user_fns(("fcb_core",)) if f.name == n and not f.is_closure()]
            if len(fs) == 1:
                self.fn[n] = fs[0]
            else:
                self.missing.append(n)

    def opaque(self):
        return set(self.fn)

    def ident(self):
        return {"decode_attributes": self.attrs, "decode": self.boundaries, "decode_semantics_": self.values,
                "decode_materials": self.maps("encode_material", "decode_materials"), "decode_textures": self.maps("encode_texture", "decode_textures")}

    def attrs(self, C, a):
        return only(l.a[1][0] if l.op == "call" and l.a[0].endswith("encode_attributes_with_schema") else None for l in leaves(a[1]))

    def boundaries(self, C, a):
        f = self.fn["decode"]
        names = [f.names.get(i + 1) for i in range(f.argc)]
        src = []
        for n, x in zip(names, a):
            for l in leaves(x):
                if l.op == "empty":
                    continue
                if l.op == "field" and l.a[0].op == "mut" and l.a[0].a[0].endswith("encode_boundaries"):
                    if l.a[1] != n and {l.a[1], n} <= set(names):
                        self.bad.append(("boundaries", "the decoder's %s are read from the %s the encoder wrote" % (n, l.a[1])))
                    src.append(l.a[0].a[2].a[1][0])
                else:
                    src.append(None)
        return only(src)

    def values(self, C, a):
        r = []
        for x in a:
            for l in leaves(x):
                if l.op == "mut" and l.a[0].endswith("encode_semantics_values"):
                    r.append(l.a[2].a[1][0])
        return only(r)

    def maps(self, enc, dec):
        def h(C, a):
            l = a[0]
            if l.op == "seq" and l.a[0].op == "call" and l.a[0].a[0].endswith(enc):
                self.mapping(enc, l)
                x = l.a[0].a[1][0]
                return some(x) if self.fn[dec].ty(0).s.startswith("std::option::Option<") else x
        return h

    def mapping(self, enc, s):
        """slots of one material or texture mapping table against the encoder's record"""
        rec = mk("elem", s.a[0], s.a[1])
        if s.a[2] is not TRUE:
            return
        for create in leaves(s.a[3]):
            if create.op != "call" or not create.a[1] or create.a[1][-1].op != "agg":
                continue
            for slot, v in agg_fields(create.a[1][-1]).items():
                for l in leaves(v):
                    if l.op == "agg" and l.a[2] == "None":
                        continue
                    if l.op == "agg" and l.a[2] == "Some":
                        l = l.a[4]
                    for x in leaves(l):
                        while x.op in ("cast", "call") and (x.op == "cast" or x.a[1]):
                            x = x.a[2] if x.op == "cast" else x.a[1][-1]
                        if x.op == "field":
                            self.seen.add((enc, slot))
                            r = x.a[0]
                            while r.op in ("payload", "field"):
                                r = r.a[0]
                            if r is rec and x.a[1] != slot:
                                self.bad.append((enc, "slot %s holds the encoder's %s" % (slot, x.a[1])))


# ------------------------------------------------------------------ what a valid input looks like
class M(Matcher):
    """matching under the preconditions of the data model"""

    def value(self, a, F):
        v = super().value(a, F)
        if v is not None:
            return v
        return self.valid(a, F)

    def other(self, t, p, item, F, known):
        """names no case of the writer tests for: the standard ones must still come back; names outside the
        standard set that are not extensions are not covered"""
        std = NAMED.get(item)
        if std is None or not isinstance(known, tuple):
            return False
        back = t.a[1].strip("'") if isinstance(t.a[1], str) else t.a[1]
        lost = [n for n in std if n not in known[1] and n != back]
        for n in lost:
            self.add(item, "bad", "%s comes back as %s" % (n, show(t)), F)
        if not lost:
            self.add(item, "ok", "", F)
        return True

    def valid(self, a, F):
        if a.op == "discr":
            x = a.a[0]
            if x.op == "field" and x.a[1] == "thetype" and "templates" in path(x) and parse(self.typeof(x.a[0]) or "?")[0].endswith("Geometry"):
                return ("not", (7,))          # a template is not itself an instance
            if x.op == "field" and x.a[1] == "geographical_extent" and "options" in path(x):
                return 0                      # an extent given by the caller replaces the dataset's own: see override()
            if x.op == "param" and "schema" in x.a[0]:
                return 1                      # an attribute schema is handed on
            if x.op == "field" and x.a[0].op == "param" and "schema" in x.a[1]:
                return 1
            if x.op == "field":
                own = parse(self.typeof(x.a[0]) or "?")[0].rsplit("::", 1)[-1]
                if own == "Geometry":
                    k = self.value(mk("discr", field(x.a[0], "thetype", "")), F)
                    inst = None if k is None or isinstance(k, tuple) and 7 not in k[1] else k == 7
                    if inst is not None:
                        if x.a[1] in ("template", "transformation_matrix"):
                            return 1 if inst else 0
                        if inst and x.a[1] in ("semantics", "lod", "material", "texture"):
                            return 0
                        if inst and x.a[1] == "boundaries":
                            return self.variant(self.typeof(x), "Indices")
                if own == "Semantics" and x.a[1] == "values":
                    # only solids nest the values of their surfaces
                    k = self.gtype(x.a[0], F)
                    if k is not None and k < 4:
                        return self.variant(self.typeof(x), "Indices")
        if a.op == "call" and a.a[0].endswith("is_object"):
            return True
        if a.op in ("len", "lin"):
            if self.nonempty(a):
                return ("not", (0,))
        return None

    def default(self, t, n, ft):
        """a field left as the constructor made it"""
        if t.op == "call" and not t.a[1] and parse(ft)[0].endswith("Option"):
            return NONE
        return None

    def absent(self, item):
        return item == "CityJSON.metadata"       # an absent metadata object comes back as one without members

    def coll(self, t, p, h, ta, item, F):
        v = flat(t.a[0]) if t.op == "seq" else None
        if v is not None and p.op == "payload" and p.a[0] is v and p.a[1] == "Indices":
            # values flattened by the encoder: the marker stands for absent, anything else for itself
            e, q = mk("elem", t.a[0], t.a[1]), mk("elem", p, t.a[1])
            import compose
            self.match(compose.rekey(t.a[3], e, const(MARK)), q, "std::option::Option<u32>", item + "[*]", {**F, mk("discr", q): 0})
            some_ = payload(q, "Some", "0")
            self.match(compose.rekey(t.a[3], e, some_), q, "std::option::Option<u32>", item + "[*]", {**F, mk("discr", q): 1, some_: ("not", (MARK,))})
            return
        return super().coll(t, p, h, ta, item, F)

    def simplify(self, t):
        return invert(t)

    def variant(self, ty, name):
        ad = self.s.adts.get(parse(ty or "?")[0])
        if ad is None:
            return None
        return next((i for i, v in enumerate(ad["v"]) if v["n"] == name), None)

    def gtype(self, x, F):
        """type of the geometry an access path lies in, when the case at hand fixes it"""
        while x.op in ("field", "payload", "elem", "index"):
            x = x.a[0]
            if parse(self.typeof(x) or "?")[0].endswith("Geometry"):
                k = F.get(mk("discr", field(x, "thetype", "")))
                return k if isinstance(k, int) else None
        return None

    def nonempty(self, a):
        """a length of something made of all elements of an input collection: those are never empty"""
        seqs = [x for x in walk(a) if x.op == "len"]
        if not seqs:
            return False
        src, cs = set(), FALSE
        for x in seqs:
            y = x.a[0]
            c = TRUE
            key = None
            if y.op == "seq":
                c, key, y = y.a[2], y.a[1], y.a[0]
            if y.op == "call" and y.a[0].endswith(("encode_material", "encode_texture")):
                y = y.a[1][0]
            if not self.source(y):
                return False
            src.add(y)
            cs = OR(cs, c if key is None else rekey0(c, key))
        return len(src) == 1 and cs is TRUE


def rekey0(c, key):
    from compose import rekey
    return rekey(c, key, const("#any"))


MARK = 2 ** 32 - 1


def flat(t):
    if t.op == "mut" and t.a[0].endswith("encode_semantics_values") and t.a[2].op == "call":
        return t.a[2].a[1][0]
    return None


def invert(t):
    """text conversions undone, and what an extension file says about itself"""
    def f(x):
        if is_call(x, "to_string") and x.a[1][0].op == "sw":
            return mapleaf(x.a[1][0], lambda l: f(mk("call", x.a[0], (l,), *x.a[2:])))
        if x.op == "payload" and x.a[1] == "Ok" and is_call(x.a[0], "parse") and is_call(x.a[0].a[1][0], "to_string"):
            return x.a[0].a[1][0].a[1][0]
        if is_call(x, "to_string") and x.a[1][0].op == "payload" and x.a[1][0].a[1] == "Ok" and is_call(x.a[1][0].a[0], "parse"):
            return x.a[1][0].a[0].a[1][0]
        if is_call(x, "to_string") and x.a[1][0].op == "const":
            return const(str(cval(x.a[1][0])))
        if x.op == "field" and x.a[0].op == "payload" and is_call(x.a[0].a[0], "fetch_extension_file", 2):
            ext, name = x.a[0].a[0].a[1]
            if x.a[1] == "name":
                return name
            if x.a[1] in ("url", "version"):
                return field(ext, x.a[1], "")
        return x
    from util import rebuild
    return rebuild(t, f)


def is_call(x, n, argc=1):
    return x.op == "call" and x.a[0].rsplit("::", 1)[-1] == n and len(x.a[1]) == argc


# ------------------------------------------------------------------ the two compositions
def created(cx, fn, opaque):
    fl, _ = cx.flow(fn, opaque=opaque)
    xs = [e for e in fl.events if e.kind == "call" and e.name.endswith(("finish_size_prefixed", "finish")) and len(e.args) >= 2]
    return fl, xs[0].args[1] if xs else None


def compose(cx):
    r = getattr(cx, "_rt", None)
    if r is not None:
        return r
    S = Schema(cx)
    pr = Pairs(cx)
    opq = pr.opaque()
    out = []
    for wn, rn, root, ty, src in (("FeatureWriter::finish_to_feature", "deserializer::to_cj_feature", "feature", "cjseq2::CityJSONFeature", "city_feature"),
                                  ("HeaderWriter::finish_to_header", "deserializer::to_cj_metadata", "header", "cjseq2::CityJSON", "cj")):
        wf, rf = cx.one(wn), cx.one(rn)
        fl, c = created(cx, wf, opq)
        fl2, ret = cx.flow(rf, opaque=opq)
        if c is None:
            out.append((wn, rn, None, None, ty, None, None))
            continue
        c = canon(Composer(S, fl=fl)(c))
        pname = rf.names.get(1, root)
        x = payload(Composer(S, {pname: c}, ident=pr.ident(), fl=fl2)(ret), "Ok", "0")
        x = invert(canon(x))
        ps = {y for y in walk(c) if y.op == "field" and y.a[0].op == "param" and typed(cx, wf, y) == ty}
        out.append((wn, rn, x, only(ps), ty, c, fl))
    cx._rt = (S, pr, out)
    return cx._rt


def typed(cx, wf, y):
    """type of a field of the writer's self"""
    for p, a in cx.w.adts.items():
        if not a["enum"] and p.rsplit("::", 1)[-1] == (wf.impl_self.s.rsplit("::", 1)[-1].split("<")[0] if wf.impl_self else ""):
            t = dict(a["v"][0]["f"]).get(y.a[1])
            if t:
                return parse(t)[0]
    return None


def override(cx, prop, wn, rn, m):
    """an extent handed over in the writer's options comes back as given"""
    S, pr, comps = compose(cx)
    for w, r, x, P, ty, c, fl in comps:
        if w != wn:
            continue
        opts = {a.a[0] for a in walk(x) if a.op == "discr" and a.a[0].op == "field" and a.a[0].a[1] == "geographical_extent" and "options" in path(a.a[0])}
        for o in opts:
            y = assign(x, lambda a: 1 if a.op == "discr" and a.a[0] is o else None)
            ext = field(payload(field(y, "metadata", ""), "Some", "0"), "geographical_extent", "")
            mm = M(S, {P: ty, o: "std::option::Option<[f64; 6]>"}, NOT_STORED)
            oty = "std::option::Option<[f64; 6]>"
            mm.valid = lambda a, F, v=mm.valid: 1 if a.op == "discr" and a.a[0] is o else v(a, F)
            mm.match(ext, o, oty, "HeaderWriterOptions.geographical_extent", {})
            bad = sorted({(i, msg) for i, st, msg, _ in mm.out if st == "bad"})
            for i, msg in bad:
                cx.rep.bad(prop + ".roundtrip", "%s: %s %s" % (rn.split("::")[-1], i, msg[:160]), "", msg)
            if not bad:
                (cx.rep.open if any(st == "open" for _, st, _, _ in mm.out) or not mm.out else cx.rep.ok)(
                    prop + ".roundtrip", "%s: HeaderWriterOptions.geographical_extent" % rn.split("::")[-1], "", "")


def results(cx):
    r = getattr(cx, "_rtm", None)
    if r is not None:
        return r
    S, pr, comps = compose(cx)
    res = []
    for wn, rn, x, P, ty, c, fl in comps:
        if x is None or P is None:
            res.append((wn, rn, None))
            continue
        m = M(S, {P: ty}, NOT_STORED)
        m.match(x, P, ty, ty.rsplit("::", 1)[-1], {})
        res.append((wn, rn, m))
    cx._rtm = (pr, res)
    return cx._rtm


def roundtrip(prop):
    def go(cx):
        pr, res = results(cx)
        R = cx.rep
        for n in pr.missing:
            R.open(prop + ".pair", n, "", "no single function of this name: its insides are followed instead")
        if prop == "V07":
            for k, msg in sorted(set(pr.bad)):
                R.bad("V07.channel", "%s: %s" % (k, msg), "", msg)
            for enc, slot in sorted(pr.seen):
                if not any(k == enc and "slot %s " % slot in msg for k, msg in pr.bad):
                    R.ok("V07.channel", "%s: %s" % (enc, slot))
        for wn, rn, m in res:
            if m is None:
                R.open(prop + ".roundtrip", rn, "", "the table handed to %s was not recognised" % wn)
                continue
            by = {}
            for it, st, msg, F in m.out:
                if prop in props_of(it, rn):
                    by.setdefault(it, []).append((st, msg, F))
            if prop in ("V04", "V08"):
                override(cx, prop, wn, rn, m)
            for it, xs in sorted(by.items()):
                done = set()
                for st, msg, F in xs:
                    if st == "ok" or (st, msg) in done:
                        continue
                    done.add((st, msg))
                    key = "%s: %s" % (rn.split("::")[-1], it)
                    if st == "bad":
                        R.bad(prop + ".roundtrip", key + " " + msg[:160], "", "%s %s%s" % (it, msg, " when " + F[-400:] if F else ""))
                    elif st == "narrow":
                        if prop == "V08":
                            R.bad(prop + ".narrow", key + " " + msg[:160], "", "%s %s" % (it, msg))
                    else:
                        R.open(prop + ".roundtrip", key + " " + msg[:160], "", F[-300:])
                if not done:
                    R.ok(prop + ".roundtrip", "%s: %s" % (rn.split("::")[-1], it))
    go.__name__ = "roundtrip_" + prop
    rule(prop)(go)


for _p in ("V03", "V04", "V05", "V06", "V07", "V08"):
    roundtrip(_p)
