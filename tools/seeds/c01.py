F = "src/solver/evaluate.rs"
SEEDS = [
("C01-feasible-last", "C01", {"file": F, "edits": [["""            if route_eval.overload.approx_gt(0.0) {
                feasible = false;
            }
""", """            feasible = !route_eval.overload.approx_gt(0.0) && (feasible || route.is_empty());
"""]] , "needs": "an overloaded route that is followed by at least one empty route", "what": "", "main": ""}),
]
