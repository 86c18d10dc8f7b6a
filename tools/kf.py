#!/usr/bin/env python3
"""known_findings.json from tools/fixed.txt (repaired) and tools/open.json (recorded): python3 tools/kf.py"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
f = []
for l in open(os.path.join(H, "fixed.txt")):
    p, c, w = l.strip().split(" ", 2)
    f.append({"property": p, "status": "fixed", "commit": c, "what": w, "record": "fixed: property=%s %s %s" % (p, c, w)})
o = os.path.join(H, "open.json")
if os.path.exists(o):
    f += json.load(open(o))
json.dump({"findings": f}, open(os.path.join(H, "..", "known_findings.json"), "w"), indent=1)
