#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is there and that every specification parses (checks rebuild what they need)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import vlib
os.makedirs(V + "/evidence", exist_ok=True)
os.makedirs(V + "/build", exist_ok=True)
bad = 0
for f in sorted(os.listdir(V + "/spec")):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", vlib.TLAJAR, "tla2sany.SANY", f], cwd=V + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            bad += 1
            print(f, r.stdout.decode()[-1500:])
print("specifications parsed" if not bad else "%d specifications do not parse" % bad)
sys.exit(1 if bad else 0)
