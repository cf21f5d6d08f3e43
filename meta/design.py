#!/usr/bin/env python3
"""Writes DESIGN.md: the frame from meta/design_head.md and meta/design_tail.md, the seeded-bug table from seeded/*/meta.json + meta/caught.json."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
c = json.load(open(os.path.join(H, "caught.json"))) if os.path.exists(os.path.join(H, "caught.json")) else {}
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), c.get(n, "?")))
t = open(os.path.join(H, "design_head.md")).read() + "\n".join(rows) + "\n" + open(os.path.join(H, "design_tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(t)
