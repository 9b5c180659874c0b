"""Verifies a list of contracts on the current source, several processes."""
import importlib
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

SPECS = ("specs_arith", "specs_map", "specs_nomial", "specs_sub",
         "specs_approx", "specs_ineq",
         "specs_sig", "specs_zgp", "specs_zbounds", "specs_zcheck", "specs_zsens",
         "specs_zenv", "specs_zkey", "specs_zresult",
         "specs_zsubs", "specs_zlists", "specs_zsweep",
         "specs_relax", "specs_zrelax", "specs_zarray", "specs_zset", "specs_zkeymap",
         "specs_zautosweep", "specs_zsolver", "specs_zsgp")


def load_all():
    from . import loader, contracts
    gp = loader.load()
    for s in SPECS:
        importlib.import_module("pyvc." + s)
    missing = contracts.install(gp)
    return gp, missing


def _one(job):
    name, scale, deadline = job
    from . import contracts, loader
    gp = loader.load()
    c = contracts.REGISTRY[name]
    out = {"name": name, "props": list(c.props), "error": None,
           "obligations": [], "wall": 0.0, "solver_s": 0.0, "queries": 0,
           "paths": 0, "reached": 0, "rounds": 0, "used": []}
    t0 = time.time()
    try:
        base = c.timeout
        c.timeout = int(base*scale)
        try:
            e = contracts.verify(c, gp, deadline)
        finally:
            c.timeout = base
        agg = {}
        for o in e.obligations:
            k = (o.name, o.ok, o.backend)
            a = agg.setdefault(k, [0, o.detail, o.path])
            a[0] += 1
        out["obligations"] = [[n, ok, b, cnt, str(d)[:1500], repr(p)[:300]]
                              for (n, ok, b), (cnt, d, p) in agg.items()]
        out.update(solver_s=e.solver_s, queries=e.queries, paths=e.paths,
                   reached=e.reached, rounds=e.rounds,
                   used=sorted(e.used_contracts), notes=sorted(e.notes))
    except BaseException as exc:   # pylint: disable=broad-except
        out["error"] = "%s: %s\n%s" % (type(exc).__name__, exc,
                                       traceback.format_exc()[-1500:])
    out["wall"] = time.time() - t0
    return out


def ok_of(r):
    if r["error"]:
        return False
    if r.get("gone"):
        return True
    return (r["reached"] > 0 and r["obligations"]
            and all(o[1] for o in r["obligations"]))


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def retry(names, procs, deadline):
    return run(names, procs, deadline, False, 4) if names else []


def run(names, procs=8, deadline=300, retry=True, scale=1):
    "results per contract, in the order of names"
    from . import contracts
    todo = [n for n in names if n in contracts._installed]
    order = sorted(todo, key=lambda n: -getattr(
        contracts.REGISTRY[n], "cost", 1))
    res = {}
    ctx = mp.get_context("fork")

    def batch(ns, scale):
        if not ns:
            return
        with ctx.Pool(min(procs, len(ns)), initializer=_limit,
                      maxtasksperchild=1) as pool:
            pending = [(n, pool.apply_async(_one, ((n, scale, deadline),)))
                       for n in ns]
            for n, r in pending:
                try:
                    res[n] = r.get(deadline + 120)
                except mp.TimeoutError:
                    res[n] = {"name": n, "props": [], "error": "time limit",
                              "obligations": [], "wall": deadline,
                              "solver_s": 0, "queries": 0, "paths": 0,
                              "reached": 0, "rounds": 0, "used": []}
    batch(order, scale)
    if retry and scale == 1:
        bad = [n for n in order if not ok_of(res[n])]
        batch(bad, 4)
    return [res[n] for n in todo]


if __name__ == "__main__":
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    from pyvc import runner, contracts
    gp, missing = runner.load_all()
    print("missing", missing)
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    t = time.time()
    names = [n for n, c in contracts.REGISTRY.items()
             if any(x in n for x in pat.split(",")) and not c.trusted]
    for r in runner.run(names, retry=False):
        obl = r["obligations"]
        print("%-60s rounds %d paths %d reached %d obl %d fail %d %.1fs%s" % (
            r["name"], r["rounds"], r["paths"], r["reached"],
            sum(o[3] for o in obl), sum(o[3] for o in obl if not o[1]),
            r["wall"], "  ERROR" if r["error"] else ""))
        if r["error"]:
            print(r["error"])
        for o in obl:
            if not o[1]:
                print("   FAIL", o[0], o[4][:500], o[5])
    print("%.1fs" % (time.time() - t))
