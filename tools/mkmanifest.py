#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    c = CHECKS.get(i)
    if not c:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c.get("note", "generated inputs against an independent model; holds on everything generated, no proof beyond that"),
    })
if not m["not_applicable"]:
    del m["not_applicable"]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
