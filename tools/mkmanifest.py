#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the harness registers."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import C
have = set()
for f in glob.glob(V + "/harness/*.go"):
    have |= set(re.findall(r'ID: +"(C\d\d)"', open(f).read()))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, lvl, note = C[i]
    checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i,
                   "thorough_cmd": "bash run.sh %s thorough" % i,
                   "technique": t, "level": lvl, "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is run.sh over the monitors in harness/. No hooks in /repo: exported API and the built command line tool are observed."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
