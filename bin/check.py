#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

1. the deductive verifier (gover) regenerates every obligation of the property's
   contracts from the current source and discharges them with SMT solvers;
2. the concrete search (harness/<id>) runs the real code: it supplies a failing
   input where the verifier rejects an obligation, and is the labelled, bounded
   stand-in for the functions outside the verifier's reach.
"""
import json, os, subprocess, sys, time, glob, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO124 = "/opt/veriftools/go1.24.13"
prop = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    tier = sys.argv[2]
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
tmp = os.path.join("/tmp", "verif_%s_%d" % (prop, os.getpid()))
os.makedirs(tmp, exist_ok=True)


def goenv(go124=False):
    e = dict(os.environ)
    for k in ("GOROOT",):
        e.pop(k, None)
    e.update(GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOTOOLCHAIN="local")
    e.setdefault("HOME", "/root")
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e["GOPATH"] = "/root/go"
    if go124:
        e["PATH"] = GO124 + "/bin:" + e.get("PATH", "")
        e["GOROOT"] = GO124
    return e


def die(msg):
    print("ERROR: " + msg)
    subprocess.call(["rm", "-rf", tmp])
    sys.exit(2)


def build_gover():
    out = os.path.join(VERIF, ".build", "gover")
    src = glob.glob(os.path.join(VERIF, "gover", "*.go"))
    if os.path.exists(out) and all(os.path.getmtime(s) <= os.path.getmtime(out) for s in src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    alt = out + ".%d" % os.getpid()
    p = subprocess.run(["go", "build", "-o", alt, "."], cwd=os.path.join(VERIF, "gover"), env=goenv(), capture_output=True, text=True)
    if p.returncode:
        die("building gover failed:\n" + p.stderr[-3000:])
    os.rename(alt, out)
    return out


def run_gover(res):
    gover_once(res, 60 if tier == "thorough" else 25, 6)
    f = (res.get("out") or {}).get("Failed") or []
    if not res.get("fatal") and any(o["Status"] != "refuted" for o in f) and len(f) < 60 and time.time() - T0 < 240:
        res["retried"] = True
        gover_once(res, 90, 8)


def gover_once(res, secs, jobs):
    js = os.path.join(tmp, "gover.json")
    cmd = [res["bin"], "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-prop", prop, "-json", js,
           "-tmp", os.path.join(tmp, "smt"), "-jobs", str(jobs), "-secs", str(secs)]
    res["cmd"] = cmd
    try:
        p = subprocess.run(cmd, env=goenv(True), capture_output=True, text=True, timeout=(300 if secs < 60 else 240) if tier == "quick" else 5400)
    except subprocess.TimeoutExpired:
        res["fatal"] = "the verifier did not finish in time"
        return
    res["rc"], res["stdout"], res["stderr"] = p.returncode, p.stdout, p.stderr
    if not os.path.exists(js):
        res["fatal"] = "the verifier gave no result: " + (p.stderr or p.stdout)[-3000:]
        return
    res["out"] = json.load(open(js))


def build_harness(h):
    d = os.path.join(VERIF, "harness", prop.lower())
    if not os.path.isdir(d):
        return None
    exe = os.path.join(tmp, "harness")
    mod = os.path.join(tmp, "go.mod")
    src = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(src)
    subprocess.call(["cp", os.path.join(VERIF, "harness", "go.sum"), os.path.join(tmp, "go.sum")])
    cmd = ["go", "build", "-modfile", mod, "-o", exe, "./" + prop.lower()]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=goenv(True), capture_output=True, text=True)
    if p.returncode:
        h["fatal"] = "building the concrete search failed: " + p.stderr[-3000:]
        return None
    return exe


def run_harness(h, exe, budget, scale, sd):
    js = os.path.join(tmp, "harness.json")
    if os.path.exists(js):
        os.remove(js)
    cmd = [exe, "-seed", str(sd), "-tier", tier, "-budget", str(budget), "-scale", str(scale), "-out", js]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 150, cwd=tmp)
    except subprocess.TimeoutExpired:
        h.setdefault("failures", []).append({"id": "timeout", "iter": 0, "seed": sd, "msg": "the search did not finish", "input": []})
        return
    if not os.path.exists(js):
        # the process died: an unrecoverable crash of the code under test
        h.setdefault("failures", []).append({"id": "crash", "iter": 0, "seed": sd, "msg": "the process running the code died: " + (p.stderr or "")[:3000], "input": []})
        return
    o = json.load(open(js))
    h.setdefault("failures", []).extend(o.get("failures") or [])
    h["evaluations"] = h.get("evaluations", 0) + o["evaluations"]
    h["distinct"] = h.get("distinct", 0) + o["distinct"]
    for k, v in (o.get("per_loop") or {}).items():
        h.setdefault("per_loop", {})
        h["per_loop"][k] = h["per_loop"].get(k, 0) + v
    h["bounded"] = o.get("bounded") or []
    if not h.get("samples"):
        h["samples"] = o.get("samples") or []


def known():
    ks = {}
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("status") == "open":
                    ks.setdefault(k["property"], {})[k["id"]] = k
    return ks.get(prop, {})


def main():
    g = {"bin": build_gover()}
    h = {}
    th = threading.Thread(target=run_gover, args=(g,))
    th.start()
    exe = build_harness(h)
    if exe:
        run_harness(h, exe, 100 if tier == "quick" else 1500, 1, seed)
    th.join()
    o = g.get("out") or {}
    failed = o.get("Failed") or []
    errors = list(o.get("Errors") or [])
    for x in (g, h):
        if x.get("fatal"):
            errors.append(x["fatal"])
    vac = o.get("Vacuous") or []
    ks = known()
    rep = [f for f in h.get("failures", []) if f["id"] not in ks]
    for f in h.get("failures", []):
        if f["id"] in ks:
            print("KNOWN-FINDING: property=%s %s" % (prop, ks[f["id"]]["what"]))
    bad = bool(failed or errors or vac)
    if bad and not rep and exe and not h.get("widened"):
        h["widened"] = True
        for k in range(1, 3):
            h2 = {}
            run_harness(h2, exe, 60, 3, seed + 1000 * k)
            h["evaluations"] = h.get("evaluations", 0) + h2.get("evaluations", 0)
            rep = [f for f in h2.get("failures", []) if f["id"] not in ks]
            if rep:
                break
    # ---- evidence
    fns = o.get("Functions") or []
    nproved = o.get("Discharged", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if o.get("Obligations") else "other",
        "coverage": {
            "obligations": o.get("Obligations", 0), "discharged": nproved,
            "checker_cmd": " ".join(g["cmd"]).replace(tmp, "$TMP"),
            "trusted_base": sorted(set(o.get("Trusted") or [])) + [
                "gover: go/ssa front end (golang.org/x/tools) and its translation of SSA to SMT-LIB",
                "SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
                "axioms: " + "; ".join(o.get("Axioms") or ["none"])],
            "functions_under_contract": [{k: f[k] for k in ("Func", "Pos", "Mode", "Obls", "Proved", "Err") if k in f} for f in fns],
            "inlined_callees": sorted({i for f in fns for i in (f.get("Inlined") or [])}),
            "lemmas_proved": o.get("Lemmas") or [],
            "by_solver": o.get("BySolver"), "solver_seconds": round(o.get("SolverSecs", 0), 2),
            "contracts_whose_function_is_gone": o.get("Missing") or [],
            "explanation": "obligations/discharged count only what the verifier proved for all inputs; bounded_search is a concrete search of the real code with the stated bounds and is not counted as proved",
            "bounded_search": {"evaluations": h.get("evaluations", 0), "distinct": h.get("distinct", 0), "searches": h.get("per_loop", {}),
                               "bounds": h.get("bounded", []), "samples": (h.get("samples") or [])[:12]},
        },
        "assumptions": sorted(set(o.get("Trusted") or [])),
        "wall_s": 0, "violations": 1 if (rep or bad) else 0,
    }
    evd = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev["wall_s"] = round(time.time() - T0, 2)
    rc = 0
    if rep or bad:
        rc = 1
        rp = os.path.join(evd, "replay_%s.json" % prop)
        json.dump({"property": prop, "failed_obligations": failed, "contract_errors": errors, "vacuous": vac,
                   "failing_inputs": rep, "verifier_output": g.get("stdout", "")[-20000:],
                   "how_to_replay": "cd %s/harness && go run ./%s -only <id> -iter <iter> -seed <seed>" % (VERIF, prop.lower())},
                  open(rp, "w"), indent=1)
        for f in rep[:5]:
            print("FAILING-INPUT %s iter=%s seed=%s: %s" % (f["id"], f["iter"], f["seed"], f["msg"][:600]))
        for f in failed[:20]:
            print("FAILED-OBLIGATION %s/%s [%s] %s: %s" % (f["Func"], f["Name"], f["Kind"], f["Pos"], f["Text"][:200]))
        for e in errors + vac:
            print("FAILED-OBLIGATION %s" % e[:300])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if rep else " no-failing-input-found"))
    else:
        print("%s: %d/%d obligations proved over %d functions and lemmas (%.1f s of solving); bounded search: %d evaluations" %
              (prop, nproved, o.get("Obligations", 0), len(fns), o.get("SolverSecs", 0), h.get("evaluations", 0)))
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    subprocess.call(["rm", "-rf", tmp])
    sys.exit(rc)


main()
