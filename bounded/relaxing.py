"Relaxed constraint sets against the constraints and constants they relax."
import numpy as np
from .common import driver, expect, Skip, Quiet
from . import gen as G
from .programs import nest


def truth(con, pt):
    "does the constraint hold at the point; near misses are skipped"
    a, b = G.nomial_val(con.left, pt), G.nomial_val(con.right, pt)
    mag = max(a.mag, b.mag)
    if abs(a.x - b.x) <= 1e-9*mag:
        return True
    if abs(a.x - b.x) <= 1e-6*mag:
        raise Skip()
    if con.oper == "=":
        return False
    return a.x <= b.x if con.oper == "<=" else a.x >= b.x


def all_hold(cons, pt):
    out = True
    for c in cons:
        out = truth(c, pt) and out
    return out


def leaves(cs):
    return list(cs.flat())


def scaled(c, lo, hi, pt, eq):
    "lo times the factor that puts it in the intended relation to hi"
    a, b = G.nomial_val(lo, pt), G.nomial_val(hi, pt)
    k = c.rng.random()
    if eq:
        t = 1. if k < 0.7 else 1.4
    else:
        t = 0.6 if k < 0.6 else 1. if k < 0.75 else 1.7
    # units of the quotient are put on the right by the caller
    return t*abs(b.x/a.x)


class Set:
    "random constraints about a known point, with some of them constant"
    def __init__(self, c, signomials=True):
        from gpkit import Variable, VectorVariable, SignomialsEnabled
        from gpkit import SignomialEquality
        r = c.rng
        n = r.randint(2, 4)
        vs = [Variable("v%d" % i) if r.random() < 0.6 else
              Variable("v%d" % i, r.choice(["m", "ft", "s"]))
              for i in range(n)]
        if r.random() < 0.5:
            vs += list(VectorVariable(2, "w"))
        if r.random() < 0.3:      # told apart by units only
            vs += [Variable("same", "m"), Variable("same", "ft")]
        self.pt = {v.key: round(r.uniform(0.3, 3), 3)*r.choice(
            [1.]*9 + [1e-7]) for v in vs}
        self.vs = vs
        c.say("variables", self.pt)
        self.flat = []
        bs = [v/v.units if v.units else v for v in vs]

        def mono():
            g = round(r.uniform(0.3, 3), 2)
            for v in r.sample(bs, r.randint(1, 2)):
                g = g*v**r.choice([1, 2, -1, 0.5])
            return g

        def posy(k):
            p = mono()
            for _ in range(k-1):
                p = p + mono()
            return p
        for _ in range(r.randint(1, 4)):
            kind = r.randrange(5 if signomials else 3)
            u = r.choice([None, None, None, "kg"])
            from gpkit import units
            q = 1*units(u) if u else 1.

            def conv(p, f):
                return p*f*q
            if kind < 2:
                lo, hi = posy(r.randint(1, 3)), mono()
                f = scaled(c, lo, hi, self.pt, False)
                lo, hi = conv(lo, f), conv(hi, 1.)
                k = lo <= hi if r.random() < 0.5 else hi >= lo
            elif kind == 2:
                lo, hi = mono(), mono()
                f = scaled(c, lo, hi, self.pt, True)
                k = conv(lo, f) == conv(hi, 1.)
            else:
                lo = posy(r.randint(1, 2))
                hi = posy(r.randint(2, 3))
                if hi.__class__.__name__ == "Monomial":
                    raise Skip()
                eq = kind == 4 and r.random() < 0.6
                f = scaled(c, lo, hi, self.pt, eq)
                lo, hi = conv(lo, f), conv(hi, 1.)
                with SignomialsEnabled():
                    if eq:
                        k = SignomialEquality(lo, hi)
                    elif r.random() < 0.5:
                        s = mono()*0.1*q
                        k = (lo - s <= hi - s) if r.random() < 0.5 \
                            else (hi - s >= lo - s)
                    else:
                        k = lo <= hi if r.random() < 0.5 else hi >= lo
            self.flat.append(k)
            c.say("constraint", k)


def build(c):
    from gpkit.exceptions import PrimalInfeasible
    from gpkit import DimensionalityError
    try:
        return Set(c)
    except (PrimalInfeasible, DimensionalityError, AttributeError):
        raise Skip()    # (a constraint that is always true, of some unit)


@driver(("C14",), 220)
def relaxed_constraints(c):
    "relaxed at one: the original; relaxed by a factor: that much easier"
    from gpkit import ConstraintSet
    from gpkit.constraints.relax import (ConstraintsRelaxedEqually,
                                         ConstraintsRelaxed)
    r = c.rng
    with Quiet():
        S = build(c)
        from gpkit import Model
        subs = {v: S.pt[v.key] for v in S.vs if r.random() < 0.3}
        form = r.randrange(3)
        src = nest(c, S.flat)
        orig = ConstraintSet(src, subs)
        arg = orig if form == 0 else Model(S.vs[0], src, subs) \
            if form == 1 else src
        each = bool(r.randrange(2))
        cls = ConstraintsRelaxed if each else ConstraintsRelaxedEqually
        try:
            R = cls(arg)
        except Exception as exc:       # pylint: disable=broad-except
            if type(exc).__name__ == "PrimalInfeasible":
                raise Skip()
            raise
        c.say(cls.__name__, "of", type(arg).__name__)
        rv = list(R.relaxvars) if each else [R.relaxvar]
    cons = leaves(orig)
    if each:
        expect(len(rv) == len(cons), "a relaxation variable for each"
               " constraint", len(rv), len(cons))
    expect(len({v.key for v in rv}) == len(rv), "distinct variables")
    expect(not any(v.key in S.pt for v in rv), "new variables")
    given = dict(R.substitutions)
    if form != 2:
        want = dict(orig.substitutions)
        expect(set(given) == set(want) and all(
            np.allclose(np.array(given[k], float), np.array(want[k], float),
                        equal_nan=True) for k in want),
               "the constants are kept", given, want)
    expect(not any(v.key in R.substitutions for v in rv),
           "relaxation variables are free")
    rel = leaves(R)
    at = lambda fs: {**S.pt, **{v.key: f for v, f in zip(rv, fs)}}
    one = at([1.]*len(rv))
    expect(all_hold(rel, one) == all_hold(cons, S.pt),
           "with all relaxation variables at one, the relaxed constraints are"
           " the original ones", [(str(k), truth(k, one)) for k in rel],
           [(str(k), truth(k, S.pt)) for k in cons])
    # by a factor, common or of each
    fs = [r.choice([1., 1.3, 1.8, 3.]) for _ in rv]

    def easier(k, f):
        a, b = G.nomial_val(k.left, S.pt), G.nomial_val(k.right, S.pt)

        def le(a, b):
            if abs(a.x - b.x*f) <= 1e-9*max(a.mag, b.mag*f):
                return True
            if abs(a.x - b.x*f) <= 1e-6*max(a.mag, b.mag*f):
                raise Skip()
            return a.x <= b.x*f
        return (k.oper == ">=" or le(a, b)) and (k.oper == "<=" or le(b, a))
    want = all([easier(k, fs[i if each else 0]) for i, k in enumerate(cons)])
    pt = at(fs)
    expect(all_hold(rel, pt) == want, "relaxed by these factors, the greater"
           " sides are that much larger", fs,
           [(str(k), truth(k, pt)) for k in rel])
    low = list(fs)
    low[r.randrange(len(low))] = 0.8
    expect(not all_hold(rel, at(low)), "never relaxed by less than one", low)


@driver(("C14",), 250)
def relaxed_constants(c):
    "constants within a factor of their values; the rest as before"
    from gpkit import ConstraintSet, Model
    from gpkit.constraints.relax import ConstantsRelaxed
    r = c.rng
    with Quiet():
        S = build(c)
        subs = {v: S.pt[v.key] for v in S.vs if r.random() < 0.6}
        zero = None
        if r.random() < 0.2:
            from gpkit import Variable
            z = Variable("zero")
            used = S.vs[0]/S.vs[0].units if S.vs[0].units else S.vs[0]
            S.flat.append(used*10 >= z + 1e-3)
            subs[z] = 0
            S.pt[z.key] = 0.
            zero = z.key
        used = set().union(*[k.vks for k in ConstraintSet(S.flat).flat()])
        link = None
        free = [v for v in S.vs if v not in subs and v.key in used
                and not v.key.idx]
        src = [v for v in subs if v.key in used and v.key != zero]
        if free and src and r.random() < 0.4:
            v, w = r.choice(free), r.choice(src)
            ratio = S.pt[v.key]/S.pt[w.key]
            subs[v] = lambda x, w=w, k=ratio: x[w]*k
            link = v.key
            c.say("linked", v, "to", w)
        subs = {k: v for k, v in subs.items() if k.key in used}
        cs = ConstraintSet(nest(c, S.flat), subs)
        if r.random() < 0.3:
            cs = Model(S.vs[0], nest(c, S.flat), subs)
            used = used | {S.vs[0].key}
        kw = {}
        names = sorted({k.key.name for k in subs})
        if names and r.random() < 0.3:
            kw["include_only"] = r.sample(names, r.randint(1, len(names)))
        if names and r.random() < 0.3:
            kw["exclude"] = r.sample(names, r.randint(0, len(names)))
        c.say("constants", {str(k): S.pt[k.key] for k in subs}, kw)
        R = ConstantsRelaxed(cs, **kw)
    freed = [k.key for k in subs if k.key != zero
             and (not kw.get("include_only")
                  or k.key.name in kw["include_only"])
             and k.key.name not in kw.get("exclude", ())]
    expect({v.key for v in R.freedvars} == set(freed)
           and len(R.freedvars) == len(freed),
           "the constants relaxed are those asked for", R.freedvars, freed)
    # (constants of one name and different units share their relaxation)
    rv = [v.key for v in R.relaxvars]
    expect(len(rv) == len(freed), "a relaxation for each")
    new = {}
    for vk in R.vks | set(rv):
        if vk in S.pt or vk in rv:
            continue
        expect(vk in R.substitutions, "old values are constants", vk)
        new[vk] = float(R.substitutions[vk])
    for vk in S.pt:
        if vk not in used:
            continue
        is_const = any(k.key == vk for k in subs) and vk not in freed
        expect((vk in R.substitutions) == is_const, "constants that are not"
               " relaxed keep their values, others have none", vk)
        if is_const and vk != link:
            expect(abs(float(R.substitutions[vk]) - S.pt[vk]) < 1e-12,
                   "constants that are not relaxed keep their values", vk)
    expect(not any(k in R.substitutions for k in rv),
           "relaxation variables are free")
    base = {**S.pt, **new}
    cons = leaves(ConstraintSet(S.flat))
    rel = leaves(R)
    one = {**base, **{k: 1. for k in rv}}
    expect(all_hold(rel, one) == all_hold(cons, S.pt),
           "with no relaxation, relaxed and original agree",
           [(str(k), truth(k, one)) for k in rel])
    if not freed:
        return
    i = r.randrange(len(freed))
    vk = R.freedvars[i].key
    f, t = r.choice([1., 1.5, 2.]), r.choice([0.4, 0.6, 0.9, 1., 1.2, 1.7, 3])
    pt = {**one, rv[i]: f, vk: S.pt[vk]*t}
    inside = 1/f <= t*(1+1e-9) and t <= f*(1+1e-9)
    expect(all_hold(rel, pt) == (inside and all_hold(
        cons, {**S.pt, vk: S.pt[vk]*t})), "a relaxed constant is within its"
        " factor of its old value", vk, f, t,
        [(str(k), truth(k, pt)) for k in rel])
    expect(not all_hold(rel, {**one, rv[i]: 0.7}), "never by less than one")
