#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (kept in step by construction)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NA
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS + NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
man = {"version": 1, "setup_cmd": "python3 lib/build.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]}
                  for p in sorted(PROPS, key=lambda p: p["id"])
                  if os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in NA],
       "notes": "All checks are static: they compile /repo's current sources to LLVM bitcode (never executed) and decide the property on that. See DESIGN.md."}
missing = [p["id"] for p in PROPS if not os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))]
if missing:
    print("no check yet:", missing)
    man["not_applicable"] += [{"property": i, "reason": "check not built yet"} for i in missing]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
