#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and check.py's module map."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
src = open(os.path.join(V, "check.py")).read()
claimed = set(re.findall(r'"(C\d\d)":', src))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "All specifications are TLA+ (spec/), decided by TLC; drivers in harness/ run the working tree of /repo. See DESIGN.md."}
for p in props:
    n = NOTES.get(p)
    if p in claimed:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                            "technique": n[0], "level": "model_checking", "level_note": n[1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet (planned, see DESIGN.md)"})
if not m["not_applicable"]:
    del m["not_applicable"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
