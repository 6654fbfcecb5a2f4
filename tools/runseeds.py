#!/usr/bin/env python3
"""runseeds.py [ID...]: applies each planted bug to a clean /repo, runs the check of its
property, undoes it, and keeps the result in tools/caught.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cf = os.path.join(V, "tools", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
assert not subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["python3", "check.py", prop], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    hit = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
    caught[i] = [prop] if hit else []
    print(i, prop, r.returncode, "caught" if hit else "MISSED", flush=True)
json.dump(caught, open(cf, "w"), indent=1, sort_keys=True)
