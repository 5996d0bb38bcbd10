#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: generates the proof obligations of the functions under contract from /repo's
current source (gover, built here from /verif/gover) and discharges them with z3/cvc5.
Exit 0: every obligation discharged.  Exit 1: a VIOLATION line names the replay file.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

def goenv():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e

def run(cmd, cwd, tmo, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return -1, out + "\n(timed out)"

def replay(prop, conf, tmp, seed, budget):
    """Search for a failing input on the real code; returns (found, text)."""
    r = conf.get("replay")
    if not r:
        return False, "no replay harness for this property"
    ov = {"Replace": {}}
    for name, src in r["files"].items():
        ov["Replace"][os.path.join(REPO, r["pkg"], name)] = os.path.join(VERIF, src)
    ovf = os.path.join(tmp, "overlay.json")
    with open(ovf, "w") as f:
        json.dump(ov, f)
    env = goenv()
    env["VERIF_SEED"] = str(seed)
    env["VERIF_PROP"] = prop
    env["VERIF_BUDGET"] = str(budget)
    env["TMPDIR"] = tmp
    rc, out = run(["go", "test", "-vet=off", "-count=1", "-timeout", "%ds" % (budget + 120), "-overlay", ovf, "-run", "^" + r["run"] + "$", "./" + r["pkg"]], REPO, budget + 240, env)
    m = re.search(r"COUNTEREXAMPLE property=%s.*" % prop, out, re.S)
    if rc != 0 and m:
        return True, m.group(0)[:20000]
    return False, out[-4000:]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    with open(os.path.join(VERIF, "checks.json")) as f:
        conf = json.load(f)["properties"][prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="gover-")
    rc = 3
    try:
        rc = check(prop, tier, seed, conf, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, seed, conf, tmp, t0):
    gover = os.path.join(tmp, "gover")
    rc, out = run(["go", "build", "-o", gover, "."], os.path.join(VERIF, "gover"), 600)
    if rc != 0:
        print(out)
        print("cannot build the verifier")
        return 3
    resf = os.path.join(tmp, "res.json")
    cmd = [gover, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", resf]
    if tier == "thorough":
        cmd += ["-t", "60", "-covers"]
    else:
        cmd += ["-t", str(conf.get("timeout", 20))]
    rc, out = run(cmd, VERIF, 560 if tier == "quick" else 3000)
    try:
        with open(resf) as f:
            res = json.load(f)
    except Exception:
        # the verifier could not digest the current source: nothing is proved, so it is reported
        res = {"ok": False, "functions": [], "obligations": 0, "proved": 0, "failed": [{"function": "", "name": "verification run", "detail": out[-3000:]}], "axioms": [], "solver_secs": {}, "solver_runs": {}}
    findings = known_findings(prop)
    failed = res.get("failed") or []
    if res.get("load_error"):
        failed = [{"function": "", "name": "loading /repo", "detail": res["load_error"]}]
    ev = evidence(prop, tier, seed, conf, res, failed)
    ok = res.get("ok") and res.get("obligations", 0) > 0 and not failed
    remaining, known = [], []
    for o in failed:
        k = [f for f in findings if f.get("obligation") == oname(o)]
        (known if k else remaining).append(o)
        for f in k:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    code = 0
    if not ok and (remaining or not known):
        code = 1
        rep = os.path.join(VERIF, "evidence", "replay-%s.txt" % prop)
        budget = 120 if tier == "quick" else 600
        found, text = replay(prop, conf, tmp, seed, budget)
        with open(rep, "w") as f:
            f.write("property %s: obligations that no longer hold on /repo's current source\n\n" % prop)
            for o in remaining:
                f.write("FAILED OBLIGATION %s\n" % json.dumps(o, indent=1))
            f.write("\nverifier command: %s\n\nverifier output:\n%s\n" % (" ".join(cmd), out))
            f.write("\nreplay on the real code (%s):\n%s\n" % ("failing input found" if found else "no failing input found", text))
        for o in remaining[:20]:
            print("failed obligation: %s %s" % (oname(o), o.get("pos", "")))
        ev["violations"] = max(1, len(remaining))
        ev["coverage"]["failed_obligations"] = [oname(o) for o in remaining]
        if found:
            print(text[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, rep))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep))
    else:
        print("property %s: %d of %d obligations discharged over %d functions" % (prop, res["proved"], res["obligations"], len(res["functions"])))
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return code

def oname(o):
    return "%s: %s" % (o.get("function", ""), o.get("name", ""))

def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]

def evidence(prop, tier, seed, conf, res, failed):
    externs, opaque, inlined, fns = {}, set(), set(), []
    for fr in res.get("functions") or []:
        obls = fr.get("obligations") or []
        fns.append({"function": fr["function"], "obligations": len(obls), "discharged": sum(1 for o in obls if o.get("status") == "proved"), "inferred_loop_invariants": len(fr.get("invariants") or []), "seconds": round(fr.get("secs", 0), 2)})
        for e in fr.get("externs") or {}:
            externs[e] = True
        opaque.update(fr.get("opaque") or [])
        inlined.update(fr.get("inlined") or [])
    asm = ["assumed contract on external function: " + e for e in sorted(externs)]
    asm += ["axiom: " + a for a in res.get("axioms") or []]
    asm += ["external call treated as returning an arbitrary value and changing nothing but the objects it is given: " + e for e in sorted(opaque)]
    asm += [
        "64-bit integers are mathematical integers; narrower machine integers wrap",
        "distinct parameters' slices do not overlap on entry",
        "goroutines started in a loop run at their start point (their bodies touch disjoint elements)",
        "the condition generator gover, go/ssa, z3 and cvc5 are correct",
        "termination is not proved",
    ] + conf.get("assumptions", [])
    return {
        "property": prop, "tier": tier, "seed": seed, "level": conf["level"],
        "coverage": {
            "obligations": res.get("obligations", 0), "discharged": res.get("proved", 0),
            "checker_cmd": "python3 /verif/check.py %s %s" % (prop, tier),
            "trusted_base": ["gover (condition generator, /verif/gover)", "golang.org/x/tools/go/ssa", "z3", "cvc5", "assumed contracts and axioms in /verif/contracts (listed under assumptions)"],
            "functions_under_contract": fns,
            "functions_inlined": sorted(inlined),
            "helper_contracts_set_aside": res.get("helper_contracts_set_aside") or [],
            "solver_seconds": res.get("solver_secs"), "solver_runs": res.get("solver_runs"),
        },
        "assumptions": asm, "wall_s": 0, "violations": 0,
    }

if __name__ == "__main__":
    main()
