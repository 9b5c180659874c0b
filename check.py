#!/opt/venv/bin/python
"""check.py PROPERTY [--replay FILE]

Decides one property of /repo's current tree: the contracts that carry it are
verified by pyvc (every obligation generated from the current source), the
functions out of its reach by the bounded stand-ins.  Exit 0 or 1."""
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PV_CHILD") != "1":
    env = dict(os.environ, PV_CHILD="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)]
              + sys.argv[1:], env)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)
EVID = os.path.join(HERE, "evidence")
MODULES = ["arith", "subs", "constraints", "programs", "envs", "divide",
           "arrays", "sets", "keys", "autosweeps", "solvers", "seqs",
           "lists", "relaxing"]
sys.path.insert(0, HERE)

TRUSTED = [
    "floating-point arithmetic of the code is treated as exact real arithmetic"
    " (rounding, overflow and nan/inf propagation are outside the proofs)",
    "pint: quantities behave as magnitude * unit with multiplicative scale"
    " factors; conversions succeed exactly between equal dimensions",
    "CPython executes the mechanically instrumented source as it executes the"
    " original (the instrumentation only redirects loops, comprehensions,"
    " builtins and dict/set/hash operations to their symbolic counterparts)",
    "distinct hash values for distinct keys are not assumed; dict semantics"
    " (lookup by equality) are modelled, numeric keys excluded",
    "z3 (python binding, /opt/veriftools/pyvenv) and pyvc itself"
    " (normal forms of polynomials, loop-invariant checker)",
]


def report(pid, tier, seed, level, cov, wall, violations):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "assumptions": cov.get("trusted_base", []),
          "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVID, ".%s.json.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))


def worker(job, timeout):
    env = dict(os.environ)
    env.pop("PV_CHILD", None)
    return subprocess.Popen(
        [PY, "-W", "ignore", os.path.join(HERE, "bounded", "common.py"),
         json.dumps(job)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=env, cwd=HERE, text=True)


def collect(procs, limit):
    outs, errs = [], []
    t_end = time.time() + limit
    for job, p in procs:
        try:
            o, e = p.communicate(timeout=max(1, t_end - time.time()))
            line = [x for x in o.splitlines() if x.startswith("{")]
            if not line:
                errs.append((job, e[-1500:]))
            else:
                outs.append(json.loads(line[-1]))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            errs.append((job, "time limit"))
    return outs, errs


def plan(pid, tier, scale):
    "[(driver, lo, hi)] split over shards"
    from bounded import common
    import importlib
    for m in MODULES:
        importlib.import_module("bounded." + m)
    work = []
    for name, (props, _, n, thorough) in common.DRIVERS.items():
        if pid in props:
            work.append((name, int((thorough if tier == "thorough" else n)
                                   * scale)))
    return work


def shards(work, k, start=0):
    out = [[] for _ in range(k)]
    for name, n in work:
        step = -(-n//k)
        for j in range(k):
            lo, hi = j*step, min(n, (j+1)*step)
            if lo < hi:
                out[j].append([name, start+lo, start+hi])
    return [s for s in out if s]


def prove(pid, tier, budget):
    """results of the contracts of the property, callees included, and a
    function that asks again, with more time, about those that failed"""
    from pyvc import runner, contracts
    gp, missing = runner.load_all()
    want = [n for n, c in contracts.REGISTRY.items() if pid in c.props
            and n not in missing]
    done, results = set(), []
    todo = want
    procs = max(2, (os.cpu_count() or 4) - 1)
    while todo:
        res = runner.run(todo, procs=procs, deadline=budget, retry=False)
        results += res
        done |= set(todo)
        todo = sorted({u for r in res for u in r["used"]
                       if u in contracts.REGISTRY
                       and not contracts.REGISTRY[u].trusted
                       and u not in missing} - done)
    trusted = sorted({u for r in results for u in r["used"]
                      if contracts.REGISTRY[u].trusted})
    def again():
        # a slow machine is not a violation
        bad = [r["name"] for r in results if not runner.ok_of(r)]
        new = {r["name"]: r for r in runner.retry(bad, procs, budget)}
        for i, r in enumerate(results):
            n = new.get(r["name"])
            if n is not None and (n["obligations"] or not r["obligations"]):
                results[i] = n
    return results, [m for m in missing
                     if pid in contracts.REGISTRY[m].props], trusted, again


def lemmas_of(names):
    "the mathematical lemmas the contracts appeal to, checked by Lean"
    from pyvc import contracts
    files = sorted({f for n in names for f in getattr(
        contracts.REGISTRY[n], "lemmas", ())})
    out = []
    for f in files:
        path = os.path.join(HERE, "lemmas", f)
        text = open(path).read()
        names = [ln.split()[1] for ln in text.splitlines()
                 if ln.startswith("theorem ")]
        t0 = time.time()
        try:
            r = subprocess.run(["lean", path], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=300, cwd=os.path.join(HERE, "lemmas"))
            ok = r.returncode == 0 and "sorry" not in r.stdout \
                and "error" not in r.stdout
            msg = r.stdout[-500:]
        except (OSError, subprocess.TimeoutExpired) as exc:
            ok, msg = False, repr(exc)
        out.append({"file": f, "theorems": names, "checked": ok,
                    "lean_s": round(time.time() - t0, 1),
                    "message": "" if ok else msg})
    return out


def classify(results):
    "refuted obligations, undecided functions"
    from pyvc import contracts
    refuted, undecided = [], []
    for r in results:
        if r["error"]:
            undecided.append((r["name"], "engine", r["error"][:1500]))
            continue
        bad = [o for o in r["obligations"] if not o[1]]
        # contracts over z3 containers: the invariants applied (else the
        # engine says "unsupported"), the solver had its retry
        zmode = getattr(contracts.REGISTRY[r["name"]], "zmode", False)
        limit = [o for o in bad if o[0].startswith("engine:")
                 or (o[2] == "z3-unknown" and not zmode)]
        hard = [o for o in bad if o not in limit]
        if hard and not [o for o in limit if o[0].startswith("engine:")]:
            for o in hard:
                refuted.append((r["name"], o[0], o[4], o[5]))
        elif bad:
            undecided.append((r["name"], bad[0][0], bad[0][4]))
        elif not r["obligations"] or not r["reached"]:
            undecided.append((r["name"], "vacuous",
                              "no obligation or no reachable path"))
    return refuted, undecided


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay")+1])
    t0 = time.time()
    cap = 500 if tier == "quick" else 3000
    work = plan(pid, tier, 1.0)
    jobs = [({"modules": MODULES, "work": s, "seed": seed, "budget": cap})
            for s in shards(work, 3 if tier == "quick" else 7)]
    procs = [(j, worker(j, cap)) for j in jobs]
    proof_error = None
    results, missing, trusted, again = [], [], [], lambda: None
    try:
        results, missing, trusted, again = prove(
            pid, tier, 120 if tier == "quick" else 600)
    except Exception:   # pylint: disable=broad-except
        proof_error = traceback.format_exc()[-1500:]
    outs, errs = collect(procs, cap)
    failures = [f for o in outs for f in o["failures"]]
    if not failures:
        again()
    refuted, undecided = classify(results)
    if proof_error:
        undecided.append(("pyvc", "engine", proof_error))
    extended = 0
    if (refuted or undecided or missing) and not failures and work:
        # search harder for an input that realizes the failed obligation
        more = [(n, 4*k) for n, k in work]
        limit = 180 if tier == "quick" else 1200
        js = [({"modules": MODULES, "work": s, "seed": seed + 1000,
                "budget": limit}) for s in shards(more, 8)]
        o2, e2 = collect([(j, worker(j, limit)) for j in js], limit + 60)
        extended = sum(o["evaluations"] for o in o2)
        outs += o2
        errs += e2
        failures = [f for o in outs for f in o["failures"]]
    nobl = sum(o[3] for r in results for o in r["obligations"])
    ndis = sum(o[3] for r in results for o in r["obligations"] if o[1])
    backends = {}
    for r in results:
        for o in r["obligations"]:
            if o[1]:
                backends[o[2]] = backends.get(o[2], 0) + o[3]
    from pyvc import contracts
    lem = lemmas_of([r["name"] for r in results])
    nlem = sum(len(x["theorems"]) for x in lem)
    nobl += nlem
    nlem_ok = sum(len(x["theorems"]) for x in lem if x["checked"])
    ndis += nlem_ok
    if nlem_ok:
        backends["lean"] = nlem_ok
    assumed = sorted({a for r in results for a in getattr(
        contracts.REGISTRY[r["name"]], "assumes", ())} | {
            "lemma not checked here: %s" % x["file"] for x in lem
            if not x["checked"]})
    proved = [r["name"] for r in results
              if not any(r["name"] == u[0] for u in undecided)
              and not any(r["name"] == u[0] for u in refuted)]
    from bounded import common
    findings = [k for k in common.known_findings() if k["property"] == pid]
    hit = {}
    for o in outs:
        hit.update(o["known"])
    samples = [s for o in outs for s in o["samples"]][:6]
    for r in results[:3]:
        for o in r["obligations"][:2]:
            samples.append({"contract": r["name"], "obligation": o[0],
                            "instances": o[3], "backend": o[2],
                            "discharged": o[1]})
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "%s %s %s" % (PY, os.path.join(HERE, "check.py"), pid),
        "trusted_base": TRUSTED + ["assumed contract: " + t for t in trusted]
        + assumed,
        "lemmas": lem,
        "functions_under_contract": [
            {"function": r["name"], "obligations": sum(
                o[3] for o in r["obligations"]),
             "discharged": sum(o[3] for o in r["obligations"] if o[1]),
             "paths": r["paths"], "reachable_paths": r["reached"],
             "invariant_rounds": r["rounds"],
             "solver_queries": r["queries"],
             "solver_s": round(r["solver_s"], 2),
             "relies_on": r["used"]} for r in results],
        "proved_functions": proved,
        "backends": backends,
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "undecided_functions": [list(u) for u in undecided],
        "refuted_obligations": [list(u)[:3] for u in refuted],
        "contract_targets_gone_inlined": missing,
        "bounded_stand_ins": {
            "note": "concrete runs of the unmodified code against independent"
                    " oracles; bounded, never counted as proved",
            "drivers": {n: k for n, k in work},
            "evaluations": sum(o["evaluations"] for o in outs),
            "distinct_nontrivial": sum(o["distinct"] for o in outs),
            "extended_search": extended,
            "inapplicable": {k: v for o in outs
                             for k, v in o.get("inapplicable", {}).items()},
            "errors": [[str(j["work"])[:200], e] for j, e in errs]},
        "evaluations": sum(o["evaluations"] for o in outs),
        "distinct_nontrivial": sum(o["distinct"] for o in outs),
        "rule": "a case is non-trivial when the driver's preconditions hold"
                " (not skipped); distinct by its printed inputs, per process",
        "samples": samples,
        "known_findings": [f["id"] for f in findings],
        "known_findings_met": hit,
    }
    bad = bool(failures or refuted)
    crash = None
    if errs and not bad:
        # a stand-in that died says nothing: try once more, alone
        o3, e3 = collect([(j, worker(j, cap)) for j, _ in errs], cap)
        failures = [f for o in o3 for f in o["failures"]]
        if e3:
            crash = e3[0]
        bad = bool(failures) or crash is not None
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
    report(pid, tier, seed, "proof", cov, time.time() - t0,
           len(failures) + len(refuted))
    nb = len(proved)
    print("%s: %d/%d obligations discharged (%d functions), %d bounded cases,"
          " %.1f s" % (pid, ndis, nobl, nb, cov["evaluations"],
                       time.time() - t0))
    for u in undecided:
        print("  not proved on this tree (bounded stand-in decides): %s: %s"
              % (u[0], str(u[1])[:100]))
    if not bad:
        return 0
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s.json" % pid)
    rec = {"property": pid, "failures": failures[:5],
           "failed_obligations": [
               {"function": a, "obligation": b, "verifier_output": c,
                "path": d} for a, b, c, d in refuted[:20]],
           "crash": crash, "seed": seed,
           "how": "%s %s --replay %s" % (os.path.join(HERE, "check.py"), pid,
                                         path)}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    for a, b, c, _ in refuted[:6]:
        print("  failed obligation: %s :: %s %s" % (a, b, c[:300]))
    if failures:
        f = failures[0]
        print("  failing input (%s #%d):\n    %s\n  observed: %s" % (
            f["driver"], f["index"], f["case"].replace("\n", "\n    "),
            f["observed"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    else:
        if crash:
            print("  stand-in could not run:", crash[1][-500:])
        print("VIOLATION property=%s replay=%s no-failing-input-found"
              % (pid, path))
    return 1


def replay(path):
    rec = json.load(open(path))
    bad = 0
    for f in rec["failures"]:
        job = {"modules": MODULES, "seed": f["seed"], "budget": 600,
               "work": [[f["driver"], f["index"], f["index"]+1]]}
        outs, errs = collect([(job, worker(job, 600))], 600)
        for o in outs:
            for g in o["failures"]:
                bad = 1
                print(g["case"], "\n  =>", g["observed"])
        if errs:
            print(errs)
    for o in rec["failed_obligations"]:
        print("obligation %(obligation)s of %(function)s:\n"
              "  %(verifier_output)s" % o)
    return bad


if __name__ == "__main__":
    sys.exit(main())
