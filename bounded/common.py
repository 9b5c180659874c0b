"""Bounded stand-ins: seeded, concrete runs of the unmodified gpkit code
against independently written oracles.  Never counted as proved; they supply
failing inputs for refuted obligations and cover what is out of the verifier's
reach."""
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
DRIVERS = {}       # name -> (props, function, quick n, thorough n)


def driver(props, n, thorough=None):
    def deco(f):
        DRIVERS[f.__name__] = (props, f, n, thorough or 6*n)
        return f
    return deco


class Bad(Exception):
    "the property does not hold on this case"


class Skip(Exception):
    "case not applicable"


def expect(cond, msg, *info):
    if not cond:
        raise Bad(msg + "".join("\n   " + str(i) for i in info))


class Case:
    "one generated case: an rng and a description"
    def __init__(self, rng):
        self.rng = rng
        self.desc = []
        self.evals = 0
        self.known = []

    def say(self, *a):
        self.desc.append(" ".join(str(x) for x in a))

    def text(self):
        return "\n".join(self.desc)


def known_findings():
    p = os.path.join(os.path.dirname(HERE), "known_findings.txt")
    out = []
    try:
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                d = dict(f.split("=", 1) for f in line[9:].split(" ", 2)[:2])
                d["text"] = line[9:].split(" ", 2)[2]
                out.append(d)
    except FileNotFoundError:
        pass
    return out


KNOWN = None


def known(case, fid):
    """called by a driver that meets a listed defect: True if the finding is
    listed (the case is then reported as known, not as a violation)"""
    global KNOWN
    if KNOWN is None:
        KNOWN = {k["id"] for k in known_findings()}
    if fid in KNOWN:
        case.known.append(fid)
        return True
    return False


def run_case(name, seed, i):
    props, f, _, _ = DRIVERS[name]
    rng = random.Random("%s:%s:%s" % (seed, name, i))
    import numpy as np
    np.random.seed(rng.randrange(2**31))
    c = Case(rng)
    fail = None
    nontrivial = True
    try:
        reset_globals()
        f(c)
    except Skip:
        nontrivial = False
    except ImportError as e:
        # an internal name moved: this driver says nothing about the tree
        nontrivial = False
        c.evals = -1
        c.note = "not applicable to this tree: %s" % e
    except Bad as e:
        fail = str(e)
    except Exception as e:    # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        fail = "unexpected %s: %s\n   at %s" % (
            type(e).__name__, str(e)[:300],
            ["%s:%s" % (os.path.basename(t.filename), t.lineno)
             for t in tb[-6:]])
    finally:
        reset_globals()
    return c, fail, nontrivial


def reset_globals():
    "a failed case must not poison the next"
    import gpkit
    from gpkit import globals as g
    try:
        g.SignomialsEnabled._true = False
        g.SignomialsEnabled._outer = []
        g.Vectorize.vectorization = ()
        gpkit.NamedVariables.modelnums.clear()
        gpkit.NamedVariables.lineage = ()
        gpkit.NamedVariables.namedvars.clear()
        gpkit.NamedVariables.reset_modelnumbers()
    except Exception:   # pylint: disable=broad-except
        pass


class Quiet:
    "silences prints of the code under test"
    def __enter__(self):
        import io
        self.old = sys.stdout
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.old


def load_real():
    warnings.filterwarnings("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    from pyvc import loader
    loader.load(instrumented=False)


def main():
    job = json.loads(sys.argv[1])
    out = {"evaluations": 0, "nontrivial": 0, "distinct": 0, "samples": [],
           "failures": [], "known": {}, "drivers": {}}
    real_stdout = os.dup(1)
    os.dup2(2, 1)      # prints of the code under test are not the report
    sys.stdout = os.fdopen(os.dup(2), "w")
    load_real()
    for m in job["modules"]:
        importlib.import_module("bounded." + m)
    t_end = time.time() + job.get("budget", 300)
    seen = set()
    for name, lo, hi in job["work"]:
        t0 = time.time()
        done = 0
        for i in range(lo, hi):
            if time.time() > t_end:
                out["truncated"] = True
                break
            c, fail, nontrivial = run_case(name, job["seed"], i)
            done += 1
            out["evaluations"] += 1
            txt = c.text()
            key = hash((name, txt))
            if c.evals == -1:
                out.setdefault("inapplicable", {})[name] = c.note
                break
            if nontrivial:
                out["nontrivial"] += 1
                if key not in seen:
                    seen.add(key)
                    out["distinct"] += 1
            for k in c.known:
                out["known"].setdefault(k, txt[:400])
            if i == lo and nontrivial:
                out["samples"].append({"driver": name, "index": i,
                                       "case": txt[:600]})
            if fail:
                out["failures"].append({"driver": name, "index": i,
                                        "seed": job["seed"],
                                        "case": txt[:4000],
                                        "observed": fail[:2000]})
                if len(out["failures"]) >= 5:
                    break
        out["drivers"][name] = {"cases": done,
                                "wall_s": round(time.time()-t0, 2)}
        if len(out["failures"]) >= 5:
            break
    os.write(real_stdout, (json.dumps(out) + "\n").encode())


if __name__ == "__main__":
    sys.modules["bounded.common"] = sys.modules["__main__"]
    main()
