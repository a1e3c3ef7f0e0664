#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (checks/pXX.py) and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
T = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); pid = d["id"]
    if os.path.exists("%s/checks/%s.py" % (V, pid.lower())) and pid in T["claimed"]:
        t = T["claimed"][pid]
        checks.append({"property": pid, "quick_cmd": "python3 bin/check.py %s" % pid,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": t["technique"], "level": t.get("level", "model_checking"), "level_note": t["note"]})
    else:
        na.append({"property": pid, "reason": T["na"].get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; no hooks in /repo (all observation is through the public API and the harness-side MPI)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
