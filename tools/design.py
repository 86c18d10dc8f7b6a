#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md:  python3 tools/design.py"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + "/DESIGN.md").read()


def put(tag, text):
    global s
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + text + s[j:]


put("fixed", "".join("* %s `%s` %s\n" % tuple(l.split(None, 2)) for l in open(H + "/tools/fixed.txt").read().splitlines() if l.strip()))
op = H + "/tools/open.json"
o = json.load(open(op)) if os.path.exists(op) else []
put("open", ("Not repaired, listed as open findings:\n\n" + "".join("* %s %s\n" % (e["property"], e["what"]) for e in o)) if o else "No open findings.\n")
rows = "| id | property | change | needs | caught by |\n|---|---|---|---|---|\n"
caught = json.load(open(H + "/tools/caught.json"))
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + d + "/meta.json"))
    c = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
    rows += "| %s | %s | %s | %s | %s |\n" % (d, m["property"], c(m["what_it_breaks"]), c(m["needs"]), caught.get(d, "not run"))
put("seeds", rows)
open(H + "/DESIGN.md", "w").write(s)
