#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table of properties in
tools/properties.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from properties import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": "property-based testing (rapid): " + p["oracle"],
        "level": "exploration",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]

import glob
out = []
for p in PROPS:
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    out.append("- Generated: %s." % p["quantifier"]["text"])
    out.append("- Oracle: %s." % p["oracle"])
    out.append("- Observed: %s." % "; ".join(p["anchors"].get("observe_at", [])))
    out.append("- Bounds: %s" % p["note"])
    out.append("- What the tests cannot reach: %s.\n" % p["why_tests_cant"])
caught = {}
cf = os.path.join(V, "tools", "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], ", ".join(caught.get(i, [])) or "nothing yet"))
text = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
text = text.replace("@PROPS@", "\n".join(out)).replace("@SEEDS@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
