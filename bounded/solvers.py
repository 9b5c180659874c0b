"The arguments the installed solver gets, and the answers given back."
import numpy as np
from .common import driver, expect, Skip, Quiet


@driver(("C20",), 300)
def solver_arguments(c):
    "a stand-in for cvxopt.solvers.gp records its arguments and answers"
    import gpkit.solvers.cvxopt as S
    from types import SimpleNamespace
    from gpkit.small_classes import CootMatrix
    from gpkit.exceptions import UnknownInfeasible, DualInfeasible
    r = c.rng
    m = r.randint(1, 4)
    ks, meqs = [r.randint(1, 3)], SimpleNamespace(all=set(), first_half=set())
    kinds = ["lse"]
    for _ in range(r.randint(0, 6)):
        if r.random() < .35:
            meqs.first_half.add(sum(ks))
            meqs.all.update([sum(ks), sum(ks) + 1])
            ks += [1, 1]
            kinds += ["leq", "second"]
        else:
            ks.append(r.choice([1, 1, 2, 3]))
            kinds.append("lin" if ks[-1] == 1 else "lse")
    leqs = r.choice([None, True, False])
    if leqs is False:
        kinds = ["lin" if k in ("leq", "second") else k for k in kinds]
    n = sum(ks)
    cs = [round(r.uniform(.2, 5), 2) for _ in range(n)]
    dense = np.array([[r.choice([0, 0, 1, -1, 2, .5]) for _ in range(m)]
                      for _ in range(n)], float)
    if r.random() < .3:
        dense[:, -1] = 0      # the last variable can be in few of the rows
        dense[r.randrange(n), -1] = 1.
    entries = [(i, j, dense[i, j]) for i in range(n) for j in range(m)
               if dense[i, j]]
    entries += [(i, 0, 0) for i in range(n) if not dense[i].any()]
    entries.append((n - 1, m - 1, 0))
    r.shuffle(entries)
    A = CootMatrix(*map(list, zip(*entries)))
    starts = [sum(ks[:i]) for i in range(len(ks))]
    c.say("k", ks, "kinds", kinds, "c", cs, "A", dense.tolist(), "leqs", leqs)
    outcome = r.choice(["optimal"]*6 + ["unknown", "refused"])
    got = {}
    idx = {k: [i for i, x in enumerate(kinds) if x == k]
           for k in ("lse", "lin", "leq")}
    ans = {"zl": [round(r.uniform(.1, 3), 3) for _ in idx["lin"]],
           "znl": [round(r.uniform(.1, 3), 3) for _ in idx["lse"][1:]],
           "y": [r.choice([0., round(r.uniform(-3, 3), 3)])
                 for _ in idx["leq"]],
           "x": [round(r.uniform(-2, 2), 3) for _ in range(m)],
           "primal objective": round(r.uniform(-2, 2), 3),
           "status": "unknown" if outcome == "unknown" else "optimal"}

    def gp(K, F, g, G=None, h=None, A=None, b=None, **kw):
        got.update(K=list(K), F=F, g=g, G=G, h=h, A=A, b=b, kw=kw)
        if outcome == "refused":
            raise ValueError("Rank(A) < p or Rank([H(x); A; Df(x); G]) < n")
        return {k: S.matrix(v) if isinstance(v, list) and v else v
                for k, v in ans.items()}
    opts = r.choice([{}, {"kktsolver": "ldl"}])
    kw = dict(opts)
    if leqs is not None:
        kw["use_leqs"] = leqs
    before = (list(cs), list(A.row), list(A.col), list(A.data), list(ks))
    old, S.gp = S.gp, gp
    try:
        with Quiet():
            out = S.optimize(c=cs, A=A, k=ks, meq_idxs=meqs, **kw)
    except DualInfeasible:
        expect(outcome == "refused", "dual infeasible", outcome)
        out = None
    except UnknownInfeasible:
        expect(outcome == "unknown", "unknown", outcome)
        out = None
    finally:
        S.gp = old
    expect((cs, list(A.row), list(A.col), list(A.data), ks) == before,
           "the program is left as it was")
    expect(got["kw"] == opts, "options", got["kw"])

    def rows(k):
        return [j for i in idx[k] for j in range(starts[i],
                                                 starts[i] + ks[i])]

    def block(name, M, v, k, sign):
        want = rows(k)
        if not want and M is None and v is None:
            return
        expect(M is not None and v is not None, name + " are given")
        D = np.array(S.matrix(M))
        expect(D.shape == (len(want), m), name + ": shape", D.shape,
               (len(want), m))
        expect(np.allclose(D, dense[want, :]), name + ": exponents",
               D.tolist(), dense[want, :].tolist())
        expect(np.allclose(np.ravel(v), sign*np.log([cs[i] for i in want])),
               name + ": coefficients", np.ravel(v).tolist())
    expect(got["K"] == [ks[i] for i in idx["lse"]], "lengths of the sums",
           got["K"])
    block("the sums", got["F"], got["g"], "lse", 1)
    block("linear inequalities", got["G"], got["h"], "lin", -1)
    block("equalities", got["A"], got["b"], "leq", -1)
    if out is None:
        return
    expect(outcome == "optimal", "the failure is reported", outcome)
    la = np.zeros(len(ks))
    la[0] = 1
    for i, v in zip(idx["lin"], ans["zl"]):
        la[i] = v
    for i, v in zip(idx["lse"][1:], ans["znl"]):
        la[i] = v
    for i, v in zip(idx["leq"], ans["y"]):
        la[i if v >= 0 else i + 1] = abs(v)
    expect(np.allclose(np.ravel(out["la"]), la), "duals", out["la"], la)
    expect(np.allclose(np.ravel(out["primal"]), ans["x"]), "variables")
    expect(np.isclose(out["objective"], np.exp(ans["primal objective"])),
           "the cost")
    expect(out["status"] == "optimal", "status")
