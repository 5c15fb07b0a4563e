#!/usr/bin/env python3
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
conf = json.load(open(os.path.join(V, "contracts", "props.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if c and not c.get("na"):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "technique": c.get("technique", "Verus function contracts on mechanically extracted code; executable contracts replay failures on the real crate"),
                       "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("na", "check not built yet")})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^verif:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(hybridcvrp_verif)", "enable": "RUSTFLAGS='--cfg hybridcvrp_verif' (harness/ with --features hooks)", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "Each check = Verus proof of contracts on functions extracted from /repo on every run + the same contracts executed on the real crate. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
