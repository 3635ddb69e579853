import sys, json, subprocess, os
FCB = sys.argv[1]
def square(id, x, y, s, attrs=None, z=0):
    return {"type": "CityJSONFeature", "id": id, "CityObjects": {id: {"type": "Building", "attributes": attrs or {}, "geometry": [
        {"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2, 3]]]}]}},
        "vertices": [[x, y, z], [x + s, y, z], [x + s, y + s, z], [x, y + s, z]]}
HEAD = {"type": "CityJSON", "version": "2.0", "CityObjects": {}, "vertices": [], "transform": {"scale": [0.5, 0.5, 0.5], "translate": [10.0, 20.0, 0.0]}}
def seqfile(name, feats, head=HEAD):
    open(name, "w").write("\n".join(json.dumps(x) for x in [head] + feats) + "\n")
    return name
def fcb(*a, inp=None):
    p = subprocess.run([FCB, *a], input=inp, capture_output=True, timeout=60)
    return p.returncode, p.stdout, p.stderr
def check(ok, what):
    if not ok:
        print("DEMO FAILED:", what, file=sys.stderr)
        sys.exit(1)
def convert(feats, *opts, head=HEAD):
    """written and read back -> (header, features)"""
    seqfile("in.jsonl", feats, head)
    r, o, e = fcb("ser", "-i", "in.jsonl", "-o", "out.fcb", *opts)
    check(r == 0, "ser failed: %s" % e)
    r, o, e = fcb("deser", "-i", "out.fcb", "-o", "out.jsonl")
    check(r == 0, "deser failed: %s" % e)
    ls = [json.loads(l) for l in open("out.jsonl")]
    return ls[0], ls[1:]
