#!/usr/bin/env python3
"""For every property: the units whose contracts its units assume (@usefn) and which the property does not run."""
import re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.path.join(R, "contracts")
props = {m[1]: re.findall(r'"(\w+)"', m[2]) for m in re.finditer(r'prop\("(C\d+)", \[([^\]]*)\]', open(os.path.join(C, "props.py")).read())}
def uses(u):
    seen, out = set(), set()
    def rd(p):
        p = os.path.normpath(p)
        if p in seen: return
        seen.add(p)
        for l in open(p):
            w = l.split()
            if l.startswith("@include "): rd(os.path.join(os.path.dirname(p), w[1]))
            if l.startswith("@usefn "): out.add((os.path.basename(w[1])[:-3], w[2]))
    rd(os.path.join(C, u + ".vx"))
    return out
if __name__ == "__main__":
    for p, us in props.items():
        clo, todo, why = set(us), list(us), {}
        while todo:
            u = todo.pop()
            for b, f in uses(u):
                why.setdefault(b, set()).add(f"{u}->{f}")
                if b not in clo: clo.add(b); todo.append(b)
        print(p, us, "missing:", {b: sorted(why[b])[:3] for b in sorted(clo - set(us))})
