"Signomial programs updated in place against programs compiled anew."
import numpy as np
from .common import driver, expect, known, Skip, Quiet


def signomial_model(c):
    "a random signomial model; unbounded variables do not matter here"
    from gpkit import Variable, VectorVariable, Model, SignomialsEnabled
    from gpkit import SignomialEquality
    r = c.rng
    vs = [Variable("v%d" % i) if r.random() < 0.7 else
          Variable("v%d" % i, r.choice(["m", "ft"])) for i in range(4)]
    if r.random() < 0.3:
        vs += list(VectorVariable(2, "w"))
    bare = [v/(v.units or 1) for v in vs]

    def mono():
        m = round(r.uniform(0.3, 3), 2)
        for v in r.sample(bare, r.randint(1, 2)):
            m = m*v**r.choice([1, 1, 2, -1, 0.5])
        return m

    def posy(n):
        p = mono()
        for _ in range(n - 1):
            p = p + (mono() if r.random() < 0.8
                     else round(r.uniform(0.3, 2), 2))
        return p
    cons = []
    subs = {}
    with SignomialsEnabled():
        for _ in range(r.randint(1, 3)):
            k = r.randrange(4)
            if k == 0:
                con = SignomialEquality(posy(r.randint(1, 2)), posy(2))
            elif k == 1:
                con = posy(2) - mono() >= posy(r.randint(1, 2))
            elif k == 2:
                x = r.choice(bare)     # its approximation can be constant
                con = posy(1) <= x + 1/x
            else:
                con = posy(r.randint(1, 3)) <= posy(r.randint(2, 3))
            if isinstance(con, (bool, np.bool_)):
                raise Skip()
            cons.append(con)
        for _ in range(r.randint(0, 2)):
            cons.append(posy(2) <= mono())
        if r.random() < 0.4:
            v = r.choice(vs)
            subs[v] = round(r.uniform(0.5, 2), 2)
        r.shuffle(cons)
        m = Model(posy(r.randint(1, 2)), cons, subs)
    return m, vs


def rows(gp):
    "monomials of each row: coefficient and exponents, from the solver's data"
    vks = list(gp.varidxs)
    n = len(gp.cs)
    out = [{} for _ in range(n)]
    for i, j, x in zip(gp.A.row, gp.A.col, gp.A.data):
        vk = [v for v in vks if gp.varidxs[v] == j]
        if x and vk:
            out[i][vk[0]] = out[i].get(vk[0], 0) + x
        elif x:
            out[i]["column %d" % j] = x
    return list(zip(gp.cs, out))


def by_posy(gp):
    rs = rows(gp)
    out, start = [], 0
    for n in gp.k:
        out.append(rs[start:start + n])
        start += n
    expect(start == len(rs), "rows beyond the posynomials", start, len(rs))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9*max(1e-9, abs(a), abs(b)) + 1e-12


def same_exps(a, b):
    return all(close(a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b))


def same_rows(a, b, what, *info):
    expect(len(a) == len(b), what + ": number of monomials", *info, a, b)
    left = list(b)
    for c1, e1 in a:
        hit = [i for i, (c2, e2) in enumerate(left)
               if close(c1/c2, 1) and same_exps(e1, e2)]
        expect(hit, what + ": monomial", *info, (c1, e1), b)
        del left[hit[0]]


@driver(("C09",), 250)
def sp_updates(c):
    "the program at each of a sequence of points against one compiled anew"
    from gpkit import SignomialsEnabled
    from gpkit.exceptions import InvalidGPConstraint, PrimalInfeasible
    from gpkit.constraints.gp import GeometricProgram
    from gpkit.keydict import KeyDict
    from gpkit.nomials import Posynomial
    r = c.rng
    with Quiet():
        try:
            m, vs = signomial_model(c)
            c.say(m.cost, "s.t.", [str(x) for x in m.flat()],
                  dict(m.substitutions))
            sp = m.sp(use_pccp=r.random() < 0.7, checkbounds=False)
        except (InvalidGPConstraint, PrimalInfeasible, TypeError, ValueError,
                AttributeError) as exc:
            if type(exc).__name__ in ("UnnecessarySGP",) or isinstance(
                    exc, (PrimalInfeasible, ValueError, TypeError,
                          AttributeError)):
                raise Skip()
            raise
    if not all(hasattr(sp, a) for a in (
            "_gp", "sgpconstraints", "gpconstraints", "slack",
            "pccp_penalty", "gp")):
        raise Skip()        # named otherwise in this tree
    if not all(hasattr(sp._gp, a) for a in (
            "A", "cs", "exps", "k", "hmaps", "m_idxs", "p_idxs", "meq_idxs",
            "varidxs", "varlocs", "substitutions")):
        raise Skip()
    here = dict(sp._gp.substitutions)
    point = KeyDict(here)
    for step in range(r.randint(1, 5)):
        some = r.sample(vs, r.randint(1, len(vs)))
        x0 = {v: (1. if r.random() < 0.25 else round(r.uniform(0.3, 3), 2))
              for v in some if v.key not in m.substitutions}
        if not x0:
            continue
        c.say("x0", x0)
        for v, x in x0.items():
            point[v] = x
        with Quiet():
            try:
                approx, hmaps = [], []
                for con in sp.sgpconstraints:
                    for hm in con.as_gpconstr(point).as_hmapslt1({}):
                        approx.append(Posynomial(hm) <= sp.slack)
                cost = m.cost*sp.slack**sp.pccp_penalty
                want = GeometricProgram(cost, approx + sp.gpconstraints,
                                        dict(here), checkbounds=False)
                exc = None
            except Exception as e:    # pylint: disable=broad-except
                exc = e
            try:
                got = sp.gp(x0)
            except Exception as e:    # pylint: disable=broad-except
                if exc is not None:
                    raise Skip()
                if isinstance(e, ValueError) and any(
                        not a.as_hmapslt1(here) for a in approx) and known(
                            c, "sp-approximation-always-true"):
                    raise Skip()
                raise
        if exc is not None:
            raise Skip()
        if len(got.k) != len(want.k):
            # a constraint that became empty when compiled alone
            raise Skip()
        expect(got.p_idxs.tolist() == want.p_idxs.tolist()
               if list(got.k) == list(want.k) else True,
               "posynomial of each row", step)
        a, b = by_posy(got), by_posy(want)
        for i, (x, y) in enumerate(zip(a, b)):
            same_rows(x, y, "posynomial %d" % i, "step %d" % step)
        expect(list(got.k) == list(want.k), "numbers of monomials")
        expect(set(got.meq_idxs.all) == set(want.meq_idxs.all)
               and set(got.meq_idxs.first_half)
               == set(want.meq_idxs.first_half), "equality rows")
        expect([(s.start, s.stop) for s in got.m_idxs]
               == [(s.start, s.stop) for s in want.m_idxs],
               "rows of each posynomial")
        for i, (hm, ex) in enumerate(zip(got.hmaps, a)):
            same_rows([(cc, dict(e)) for e, cc in hm.items()], ex,
                      "terms kept for posynomial %d" % i, "step %d" % step)
        for i, e in enumerate(got.exps):
            expect(same_exps(dict(e), rows(got)[i][1]),
                   "exponents kept for row %d" % i, e, rows(got)[i])
        expect(set(want.varidxs) <= set(got.varidxs), "columns")
        expect(len(got.varlocs) == len(got.varidxs)
               and list(got.varlocs) == list(got.varidxs),
               "the order of columns")
