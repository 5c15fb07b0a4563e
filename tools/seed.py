#!/usr/bin/env python3
"""seed.py new ID PROPERTY < spec.json : plants a bug; spec = {"file","edits":[[old,new],...],"needs","what","main"}
Verifies: builds, stable tests pass, demo fails with it and passes without; stores /verif/seeded/ID.  (scratch copy under /tmp)"""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(id, prop, spec):
    d = os.path.join(V, "seeded", id)
    W = "/tmp/seedwork"
    if not os.path.isdir(W):
        sh("cp -a /repo %s" % W)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (W, W))
    for e in spec["edits"]:
        f, old, new = (spec["file"], *e) if len(e) == 2 else e
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    patch = sh("git -C %s diff" % W).stdout
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    shutil.copy(os.path.join(V, "tools/seedlib/demo.sh"), os.path.join(d, "demo.sh"))
    open(os.path.join(d, "main.rs"), "w").write(open(os.path.join(V, "tools/seedlib/prelude.rs")).read() + "\n" + spec["main"])
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print(id, "demo unchanged rc", r.returncode, r.stdout[-200:], r.stderr[-1500:] if r.returncode else ""); ok &= r.returncode == 0
    r = sh("bash %s/demo.sh" % d, cwd=W)
    print(id, "demo patched rc", r.returncode, r.stdout[-200:], r.stderr[-300:]); ok &= r.returncode != 0 and "error" not in r.stderr[:200]
    if os.environ.get("TESTS", "1") == "1":
        r = sh("timeout 120 cargo test --offline --no-fail-fast 2>&1 | grep -E '^test .*\\.\\.\\. FAILED|^error(\\[|: could not compile)|^test .* ok|^Success' ; timeout 150 cargo test --bench performance --offline 2>&1 | grep -E '^Success|^error'; git checkout -q -f .", cwd=W)
        t = r.stdout
        bad = [l for l in t.splitlines() if ("FAILED" in l and "time_schedule" not in l) or l.startswith("error")]; good = not bad and t.count(" ok") >= 6 and "Success" in t; t = str(bad)
        print(id, "tests", "ok" if good else "BAD", t.replace("\n", " | ")[:300]); ok &= good
    sh("git -C %s checkout -q -f ." % W)
    print(id, "KEPT" if ok else "NOT OK")
    return ok
if __name__ == "__main__":
    spec = {}
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for (id, prop, s) in ns["SEEDS"]:
        if only and id not in only: continue
        make(id, prop, s)
