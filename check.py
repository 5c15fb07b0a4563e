#!/usr/bin/env python3
"""check.py PROPERTY      decide one property against /repo's current working tree.

(A) mechanical extraction of the real functions from /repo + Verus contracts (contracts/*.vx), every run
(B) the same contracts as executable checks on the real crate (harness/): replays failed obligations, and is the
    labelled bounded stand-in for functions that are outside the verifier's reach
exit 0 held / exit 1 + VIOLATION line.  Writes evidence/PROPERTY.json.
"""
import json, os, re, subprocess, sys, time, threading, fcntl, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
EXTRACT_TARGET = os.path.join(B, "extract-target")
EXTRACT = os.path.join(EXTRACT_TARGET, "release", "extract")
HTARGET = os.path.join(B, "target")

FAIL_KINDS = ["postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
              "assertion failed", "arithmetic underflow/overflow", "decreases not satisfied",
              "index out of bounds", "possible division by zero", "unreachable", "termination", "precondition"]
LIMIT_KINDS = ["Resource limit", "rlimit", "timed out", "timeout", "out of memory", "solver"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_tools(hooks=True):
    """returns (harness_path, hooks_used, error)"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=EXTRACT_TARGET)
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "extract"), env=env)
    if r.returncode != 0:
        return None, False, "extractor build failed:\n" + r.stderr[-3000:]
    err = ""
    for use in ([True, False] if hooks else [False]):
        e = dict(os.environ, CARGO_NET_OFFLINE="true",
                 CARGO_TARGET_DIR=HTARGET if use else HTARGET + "-nohooks")
        e.pop("RUSTFLAGS", None)
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if use:
            e["RUSTFLAGS"] = "--cfg hybridcvrp_verif -Awarnings"
            cmd += ["--features", "hooks"]
        else:
            e["RUSTFLAGS"] = "-Awarnings"
        r = sh(cmd, cwd=os.path.join(V, "harness"), env=e)
        if r.returncode == 0:
            lock.close()
            return os.path.join(e["CARGO_TARGET_DIR"], "debug", "harness"), use, None
        err += r.stderr[-3000:]
    lock.close()
    return None, False, err


# ---------------------------------------------------------------- proof part
def parse_map(path):
    out = []
    for l in open(path):
        f = l.rstrip("\n").split("\t")
        d = {"kind": f[0], "l0": int(f[1]), "l1": int(f[2]), "what": f[3]}
        if f[0] in ("fn", "assume"):
            d["line"] = f[4] if len(f) > 4 else ""
            d["loops"] = f[5] if len(f) > 5 else ""
            d["inlined"] = [x for x in (f[6].split(",") if len(f) > 6 else []) if x]
        out.append(d)
    return out


def locate(m, line):
    for d in m:
        if d["l0"] <= line <= d["l1"]:
            return d
    return None


def owner(m, e):
    """the function of the source text (or the lemma) an error message is about"""
    where = None
    for (ln, prim, lab) in sorted(e["spans"], key=lambda s: not s[1]):
        d = locate(m, ln)
        if d and d["kind"] == "fn":
            return d["what"]
        if d and where is None:
            where = d
    return where["what"] if where else "line %s" % (e["spans"][0][0] if e["spans"] else "?")


def verus(rs, threads, timeout, extra=()):
    t = time.time()
    cmd = ["verus", rs, "--output-json", "--time-expanded", "--num-threads", str(threads), "--multiple-errors", "2",
           *extra, "--", "--error-format=json"]
    try:
        p = sh(cmd, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t, cmd
    errs = []
    for l in p.stderr.splitlines():
        if not l.startswith("{"):
            continue
        try:
            j = json.loads(l)
        except Exception:
            continue
        if j.get("level") == "error":
            spans = j.get("spans") or []
            errs.append({"msg": j.get("message", ""),
                         "spans": [(s["line_start"], s["is_primary"], s.get("label") or "") for s in spans],
                         "text": (j.get("rendered") or "")[:1500]})
    try:
        js = json.loads(p.stdout)
    except Exception:
        js = None
    return js, errs, time.time() - t, cmd


def run_unit(unit, threads, timeout, res, tier):
    """res[unit] = dict(status=verified|failed|undecided, ...)"""
    r = {"unit": unit, "status": "undecided", "reason": "", "failures": [], "fns": [], "assumed": [], "verified": 0,
         "errors": 0, "smt_ms": 0, "canary": None, "wall": 0.0, "inlined": {}}
    res[unit] = r
    t0 = time.time()
    d = os.path.join(B, "units-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    rs, mp = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".map")
    vx = os.path.join(V, "contracts", unit + ".vx")
    p = sh([EXTRACT, REPO, vx, rs, mp])
    if p.returncode != 0:
        r["reason"] = "extraction: " + p.stderr.strip()[:500]
        r["wall"] = time.time() - t0
        return
    m = parse_map(mp)
    r["fns"] = [x["what"] for x in m if x["kind"] == "fn"]
    r["assumed"] = [x["what"] for x in m if x["kind"] == "assume"]
    r["inlined"] = {x["what"]: x["inlined"] for x in m if x.get("inlined")}
    r["skeleton"] = {x["what"]: x["loops"] for x in m if x["kind"] == "fn"}
    raw = open(rs).read()
    r["stated_lemmas"] = {u: len(re.findall(r"/\* proved in unit %s \*/" % u, raw)) for u in set(re.findall(r"/\* proved in unit (\w+) \*/", raw))}
    r["trusted_shims"] = len(re.findall(r"external_body", raw)) - sum(r["stated_lemmas"].values())
    r["admits"] = len(re.findall(r"\b(assume|admit)\s*\(", raw))
    js, errs, w, cmd = verus(rs, threads, timeout)
    failed_before = None
    if js is not None and js.get("verification-results", {}).get("errors", 0) and not js["verification-results"].get("encountered-vir-error"):
        # a proof counts as broken only if it fails under a second solver seed and a larger budget as well
        again = verus(rs, threads, timeout, ("--rlimit", "25", "--smt-option", "smt.random_seed=7"))
        if again[0] is not None and again[0].get("verification-results", {}).get("verified", 0):
            failed_before = {owner(m, e) for e in errs if not e["msg"].startswith("aborting")}
            js, errs, _, cmd = again
            r["attempts"] = 2
    r["cmd"] = "extract %s contracts/%s.vx %s.rs %s.map && %s" % (REPO, unit, unit, unit, " ".join(cmd).replace(d + "/", ""))
    r["sha"] = hashlib.sha256(raw.encode()).hexdigest()[:16]
    r["wall"] = time.time() - t0
    if js is None:
        r["reason"] = "verifier timeout or crash: " + "; ".join(e["msg"] for e in errs)[:300]
        return
    vr = js.get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    per = {}
    try:
        for mt in js["times-ms"]["smt"]["smt-run-module-times"]:
            for fb in mt.get("function-breakdown", []):
                k = fb["function"]
                per.setdefault(k, [0, True])
                per[k][0] += fb.get("time", 0)
                per[k][1] &= bool(fb.get("success"))
        r["smt_ms"] = js["times-ms"]["smt"]["total"]
    except Exception:
        pass
    r["slowest"] = sorted(((v[0], k) for k, v in per.items()), reverse=True)[:5]
    if failed_before is not None and r["errors"] and not vr.get("encountered-vir-error"):
        # an obligation discharged in either attempt is discharged
        errs = [e for e in errs if not e["msg"].startswith("aborting") and owner(m, e) in failed_before]
        if not errs:
            r["verified"] += r["errors"]
            r["errors"] = 0
            vr = {"success": True}
    if vr.get("success") and r["errors"] == 0 and r["verified"] > 0:
        r["status"] = "verified"
    elif vr.get("encountered-vir-error") or r["verified"] + r["errors"] == 0 or vr.get("encountered-error") and not r["errors"]:
        r["reason"] = "verified text not accepted by the verifier front end: " + "; ".join(e["msg"] for e in errs)[:400]
        return
    else:
        base = load_baseline().get(unit, {})
        und = []
        for e in errs:
            if e["msg"].startswith("aborting"):
                continue
            nm0 = owner(m, e)
            where = next((x for x in m if x["what"] == nm0), None)
            nm = where["what"] if where else "?"
            if any(k in e["msg"] for k in LIMIT_KINDS):
                und.append("%s: %s" % (nm, e["msg"]))
                continue
            if not any(k in e["msg"] for k in FAIL_KINDS):
                und.append("%s: %s" % (nm, e["msg"]))
                continue
            if where and where["kind"] == "fn" and nm in base and base[nm] != where["loops"]:
                und.append("%s: loop structure changed (%s -> %s), annotations no longer attach: %s" % (nm, base[nm], where["loops"], e["msg"]))
                continue
            r["failures"].append({"function": nm, "source_line": where.get("line") if where else None, "obligation": e["msg"], "output": e["text"]})
        r["status"] = "failed" if r["failures"] else "undecided"
        r["reason"] = "; ".join(und)[:600]
        return
    # vacuity: assert(false) at the entry of every contracted function must fail
    rs2, mp2 = os.path.join(d, unit + "_canary.rs"), os.path.join(d, unit + "_canary.map")
    p = sh([EXTRACT, REPO, vx, rs2, mp2, "--canary"])
    if p.returncode == 0:
        m2 = parse_map(mp2)
        js2, errs2, w2, _ = verus(rs2, threads, timeout, ("--rlimit", "5"))
        hit = set()
        for e in errs2:
            for (ln, prim, lab) in e["spans"]:
                dd = locate(m2, ln)
                if dd and dd["kind"] == "fn":
                    hit.add(dd["what"])
        allf = [x["what"] for x in m2 if x["kind"] == "fn"]
        missing = [x for x in allf if x not in hit]
        r["canary"] = {"functions": len(allf), "reachable": len(allf) - len(missing), "vacuous": missing}
        if missing and js2 is not None:
            r["status"] = "undecided"
            r["reason"] = "vacuous precondition (canary verified) in: " + ", ".join(missing)
    r["wall"] = time.time() - t0


_BASE = None


def load_baseline():
    global _BASE
    if _BASE is None:
        try:
            _BASE = json.load(open(os.path.join(V, "contracts", "baseline.json")))
        except Exception:
            _BASE = {}
    return _BASE


# ---------------------------------------------------------------- executable contracts
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))


def harness_runs(exe, prop, seeds, tier, secs, out):
    ps = []
    for s in seeds:
        o = os.path.join(B, "h-%s-%d-%d.json" % (prop, os.getpid(), s))
        ps.append((s, o, subprocess.Popen([exe, prop, "--seed", str(s), "--tier", tier, "--secs", str(secs), "--out", o],
                                          stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limit)))
    for s, o, p in ps:
        try:
            _, err = p.communicate(timeout=secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out.append({"seed": s, "rc": "timeout", "evaluations": 0})
            continue
        try:
            j = json.load(open(o))
            os.unlink(o)
        except Exception:
            j = {"evaluations": 0}
        j["seed"], j["rc"], j["stderr"] = s, p.returncode, err[-1500:]
        out.append(j)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = json.load(open(os.path.join(V, "contracts", "props.json")))[prop]
    thorough = tier == "thorough"
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    exe, hooks, err = build_tools()
    if exe is None:
        print("ERROR: the crate does not build with the harness:\n" + (err or "")[-2500:])
        sys.exit(2)
    units = conf.get("units", [])
    res, hout, th = {}, [], []
    secs = conf.get("secs", 25) * (8 if thorough else 1)
    nproc = conf.get("procs", 4)
    h = threading.Thread(target=harness_runs, args=(exe, prop, [seed * 1000 + i for i in range(nproc)], tier, secs, hout))
    h.start()
    tmo = conf.get("verus_timeout", 300) * (2 if thorough else 1)
    for u in units:
        t = threading.Thread(target=run_unit, args=(u, max(1, 4 // max(1, len(units))), tmo, res, tier))
        t.start()
        th.append(t)
    for t in th + [h]:
        t.join()
    only = conf.get("functions", {})
    fails, undecided = [], []
    for u in units:
        r = res[u]
        for f in r["failures"]:
            if u in only and not any(f["function"].endswith(x) for x in only[u]):
                undecided.append("%s: %s failed (belongs to another property)" % (u, f["function"]))
                continue
            fails.append((u, f))
        if r["status"] == "undecided":
            undecided.append(u + ": " + r["reason"])
        elif r["reason"]:
            undecided.append(u + ": " + r["reason"])
    viol = [j for j in hout if j.get("violation")]
    crashed = [j for j in hout if not j.get("violation") and j.get("rc") not in (0,)]
    if fails and not viol and not crashed:
        # a failed obligation: search longer for an input on the real code
        more = []
        harness_runs(exe, prop, [seed * 7000 + 77 + i for i in range(8)], "thorough", conf.get("search_secs", 90), more)
        hout += more
        viol = [j for j in more if j.get("violation")]
        crashed = [j for j in more if not j.get("violation") and j.get("rc") not in (0,)]
    extra = []
    rc, line = 0, None
    rp = os.path.join(V, "replays", "%s-%s-%d.json" % (prop, tier, seed))
    obl = [{"unit": u, **f} for u, f in fails]
    if viol or crashed:
        v = viol[0] if viol else None
        if v:
            rep = {"property": prop, "kind": "failing-input", "case": v["violation"]["case"], "message": v["violation"]["message"],
                   "input": v["violation"]["input"],
                   "rerun": "%s %s --seed %d --tier %s --case %s:%d --out /dev/stdout" % (exe, prop, v["seed"], v.get("tier", tier), v["violation"]["case"], v["violation"]["k"])}
        else:
            c = crashed[0]
            rep = {"property": prop, "kind": "crash", "message": "harness process ended abnormally: rc=%s" % c.get("rc"), "stderr": c.get("stderr", ""),
                   "rerun": "%s %s --seed %d --tier %s --secs %s --out /dev/stdout" % (exe, prop, c["seed"], tier, secs)}
        rep["failed_obligations"] = obl
        json.dump(rep, open(rp, "w"), indent=1)
        print(rep["message"])
        line = "VIOLATION property=%s replay=%s" % (prop, rp)
        rc = 1
    elif fails:
        json.dump({"property": prop, "kind": "failed-obligation", "failed_obligations": obl,
                   "note": "the verifier gives no concrete input; the executable contract was searched without finding one"}, open(rp, "w"), indent=1)
        for u, f in fails[:4]:
            print("failed obligation: unit %s, %s: %s" % (u, f["function"], f["obligation"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
        rc = 1
    # known findings
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("finding: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    for u in undecided:
        print("undecided (no alarm): " + u[:300])
    # evidence
    ver = sum(r["verified"] for r in res.values())
    er = sum(r["errors"] for r in res.values())
    lost = sum(1 for r in res.values() if r["status"] == "undecided" and r["verified"] + r["errors"] == 0)
    evals = sum(j.get("evaluations", 0) for j in hout)
    nontriv = sum(j.get("nontrivial", 0) for j in hout)
    samples = [s for j in hout for s in j.get("samples", [])][:6]
    fns = sorted({f for r in res.values() for f in r["fns"]})
    assumed = sorted({f for r in res.values() for f in r["assumed"]} - set(fns))
    for u, r in res.items():
        for h, k in r.get("stated_lemmas", {}).items():
            if h not in units:
                assumed.append("%d lemmas of the annotation text, proved in unit %s" % (k, h))
    cases = {}
    for j in hout:
        for c in j.get("cases", []):
            a = cases.setdefault(c["name"], [0, 0])
            a[0] += c["evaluations"]
            a[1] += c["nontrivial"]
    cov = {}
    lvl = conf["level"]
    if units:
        cov.update({
            "obligations": ver + er + lost, "discharged": ver,
            "checker_cmd": " ; ".join(r.get("cmd", "extract " + u) for u, r in res.items()),
            "trusted_base": conf.get("trusted", []) + COMMON_TRUST + ["assumed contract (not proved in this unit): " + a for a in assumed],
            "functions_under_contract": fns,
            "units": {u: {"status": r["status"], "reason": r["reason"], "verified_queries": r["verified"], "failed_queries": r["errors"],
                          "smt_ms": r["smt_ms"], "wall_s": round(r["wall"], 1), "slowest": r.get("slowest"), "canary": r["canary"],
                          "inlined_helpers": r["inlined"], "trusted_shims_external_body": r.get("trusted_shims"), "lemmas_discharged_in_other_unit": r.get("stated_lemmas"),
                          "assume_or_admit_statements": r.get("admits"), "text_sha": r.get("sha")} for u, r in res.items()},
            "backend": "Verus 0.2026.09.13 / Z3", "solver_ms": sum(r["smt_ms"] for r in res.values()),
            "undecided": undecided,
            "bounded_stand_in": {"label": "bounded, not counted as proved", "what": conf.get("bounded", ""), "cases": {k: {"evaluations": v[0], "nontrivial": v[1]} for k, v in cases.items()},
                                 "harness_hooks": hooks},
        })
    cov.update({"evaluations": evals, "distinct_nontrivial": nontriv,
                "rule": conf.get("rule", "randomly generated instances/operations from VERIF_SEED; non-trivial = the contract's interesting branch was exercised (counted by the harness)"),
                "samples": samples})
    if not units:
        cov["cases"] = {k: {"evaluations": v[0], "nontrivial": v[1]} for k, v in cases.items()}
        cov["explanation"] = conf.get("bounded", "")
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": conf.get("assumptions", []) + (COMMON_ASSUME if units else []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    d = os.path.join(B, "units-%d" % os.getpid())
    if os.path.isdir(d) and not os.environ.get("VERIF_KEEP"):
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    if line:
        print(line)
    else:
        print("OK property=%s: %d/%d obligations discharged, %d executable-contract evaluations, %.0f s" % (prop, ver, ver + er + lost, evals, time.time() - t0))
    sys.exit(rc)


COMMON_TRUST = [
    "the Verus verifier and Z3", "rustc front end of Verus",
    "the mechanical extractor /verif/extract (rewrites listed in DESIGN.md 3; drops log/print statements, visibility, generics it cannot keep)",
    "shim contracts in contracts/prelude (R arithmetic, Random, DistanceMatrix::get as a total function of two in-range indices)",
]
COMMON_ASSUME = [
    "A1: f64 is treated as mathematical real (no rounding, NaN or infinity arithmetic); the executable contracts run on real f64",
    "A2: std collections behave as their vstd specifications",
]

if __name__ == "__main__":
    main()
