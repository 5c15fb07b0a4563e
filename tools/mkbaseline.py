#!/usr/bin/env python3
"""contracts/baseline.json: per unit and function the loop structure the annotations were written for"""
import json, os, sys, glob, subprocess, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
import check
b = {}
with tempfile.TemporaryDirectory() as d:
    for vx in sorted(glob.glob(os.path.join(V, "contracts", "*.vx"))):
        u = os.path.basename(vx)[:-3]
        r = subprocess.run([check.EXTRACT, check.REPO, vx, d + "/a.rs", d + "/a.map"], capture_output=True, text=True)
        if r.returncode:
            print(u, r.stderr[:200]); continue
        b[u] = {x["what"]: x["loops"] for x in check.parse_map(d + "/a.map") if x["kind"] == "fn"}
json.dump(b, open(os.path.join(V, "contracts", "baseline.json"), "w"), indent=0, sort_keys=True)
print(len(b), "units")
