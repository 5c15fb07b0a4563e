#!/usr/bin/env python3
"""writes contracts/props.json (per property: units, bounded stand-in, level note)"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = {}
def prop(id, units, proved, bounded, **k):
    P[id] = {"level": "proof" if units else "exploration", "units": units, "secs": k.pop("secs", 15), "bounded": bounded,
             "note": (("Verus proof for all inputs of: " + proved + ". f64 treated as real; std and RNG by their shim contracts. ") if units else "No function of this property is under a discharged contract yet. ")
                     + "Bounded stand-in (not counted as proved): the same contract executed on the real crate: " + bounded + ".", **k}
    if not units:
        P[id]["technique"] = "executable contracts on the real crate (bounded stand-in for the deductive proof)"
exec(open(os.path.join(V, "contracts", "props.py")).read())
json.dump(P, open(os.path.join(V, "contracts", "props.json"), "w"), indent=1)
