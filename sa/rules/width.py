"""A03, B03: sizes of nodes and levels of the two trees are not computed in fewer bits than they need.
The shapes the other rules evaluate are small; this one looks at the type every product is formed in."""
from flow import Flow, BITS
from rules import rule

FILES = {"A03": "static_btree/stree.rs", "B03": "packed_rtree/mod.rs"}
NARROW = ("u8", "u16", "i8", "i16")


def scan(cx, prop):
    rep = cx.rep
    fl = Flow.__new__(Flow)
    fl.w = cx.w
    n = 0
    for fn in cx.w.user_fns(("fcb_core",)):
        if not fn.file.endswith(FILES[prop]) or "::tests::" in fn.path:
            continue
        n += 1
        found = False
        for b in fn.rpo():
            blk = fn.bb[b]
            for st in blk["s"]:
                r = st.get("r") if isinstance(st, dict) else None
                if not isinstance(r, dict):
                    continue
                if r.get("k") == "bin" and r["op"].startswith(("Mul", "Shl")) and "const" not in r["a"] and "const" not in r["b"]:
                    t = fl.op_ty(fn, r["a"])
                    if t is not None and t.s in NARROW:
                        found = t.s
            t = blk["t"]
            if t.get("k") == "call":
                nm = str(t.get("f"))
                if any(x in nm for x in ("wrapping_mul", "saturating_mul", "overflowing_mul", "unchecked_mul", "wrapping_pow", "saturating_pow")):
                    ts = [fl.op_ty(fn, a) for a in t["args"][:2]]
                    if ts and ts[0] is not None and ts[0].s in NARROW and all("const" not in a for a in t["args"][:2]):
                        found = ts[0].s
        if found:
            rep.bad("width", fn.name, fn.loc(), "two numbers of entries are multiplied in %s: the product does not fit for large nodes" % found)
        else:
            rep.ok("width", fn.name, fn.loc())
    rep.floor("width", 12 if prop == "A03" else 8)


@rule("A03")
def wide(cx):
    scan(cx, "A03")


@rule("B03")
def wide_boxes(cx):
    scan(cx, "B03")
