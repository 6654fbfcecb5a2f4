"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, os, sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
with open(p, "w") as f:
    json.dump(d, f, indent=1, ensure_ascii=False)
    f.write("\n")
