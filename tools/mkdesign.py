#!/usr/bin/env python3
"""DESIGN.md from tools/design_*.md and the planted bugs' descriptions."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
out = [open(os.path.join(T, f)).read() for f in ("design_head.md", "design_props.md", "design_rest.md")]
t = ["## 6. Planted bugs, mutation sweeps, refactorings\n",
     "`seeded/<id>/` holds the planted bugs (patch, demonstration, description). Each was written from the\nproperty and the code; each is caught by the check of its property (column 2) in the quick tier.\n",
     "| planted bug | caught by | what it needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    t.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
out.append("\n".join(t) + "\n\n")
out.append(open(os.path.join(T, "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
