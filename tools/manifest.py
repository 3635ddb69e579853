#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and the claims below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 sa/run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 sa/run.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of /repo's MIR; see DESIGN.md. No hooks in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
