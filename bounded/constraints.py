"Inequalities and equalities: normal forms, substitution, sensitivities."
import math
import numpy as np
from .common import driver, expect, Skip, Quiet
from . import gen as G
from .arith import rand_posy, snap, canonical

FEASTOL = 1e-3


def terms(p):
    "list of (exponents dict, coefficient) of a nomial"
    return [(dict(e), float(k)) for e, k in p.hmap.items()]


def tval(e, k, pt):
    for vk, x in e.items():
        k *= pt[vk]**float(x)
    return k


def hval(h, pt):
    return sum(tval(e, float(k), pt) for e, k in h.items())


def partial_eval(ts, fixed):
    "merge the terms after fixing some variables: {exps: (coef, [idx])}"
    out = {}
    for i, (e, k) in enumerate(ts):
        rest = {}
        for vk, x in e.items():
            if vk in fixed:
                k *= fixed[vk]**float(x)
            else:
                rest[vk] = x
        key = frozenset(rest.items())
        o = out.setdefault(key, [0., []])
        o[0] += k
        o[1].append((i, k))
    return out


def dims_ok(a, b):
    return [round(float(i), 9) for i in a.d] == [round(float(i), 9)
                                                 for i in b.d]


def dyadic(c, vs, nmax, base):
    "posynomial with small dyadic coefficients and integer exponents"
    r = c.rng
    p = None
    for _ in range(r.randint(1, nmax)):
        m = r.choice([0.25, 0.5, 1, 2, 3])*(base if base is not None else 1)
        for v in r.sample(vs, r.randint(0, min(2, len(vs)))):
            u = v.key.units
            m = m*(v/(1*u) if u else v)**r.choice([1, 2, -1])
        p = m if p is None else p + m
    return p


def sides(c, vs, base):
    "(lesser, greater) sides: posynomial-like and monomial-like"
    r = c.rng
    gen = dyadic if r.random() < 0.5 else rand_posy
    lo = gen(c, vs, r.choice([1, 2, 4]), base) if gen is dyadic else \
        rand_posy(c, vs, r.choice([1, 2, 4]), False, base)
    hi = gen(c, vs, 1, base) if gen is dyadic else \
        rand_posy(c, vs, 1, False, base)
    if r.random() < 0.25:         # a term proportional to the monomial
        lo = lo + r.choice([0.25, 0.5, 0.999, 1, 1.0005, 2])*hi
    if r.random() < 0.1:
        lo = r.choice([0.25, 0.5, 0.999, 1, 1.0005, 1.5])*hi
    if r.random() < 0.15:
        hi = r.choice([1, 2, 0.5])*base if base is not None \
            else r.choice([1, 2.5, 0.5])
        if r.random() < 0.5 and hasattr(hi, "hmap") and hi.units is not None \
                and base is not None:
            from gpkit.units import Quantity
            hi = r.choice([1, 2, 0.3])*base.units   # a quantity
    return lo, hi


def check_form(c, q, ts, hi_t, pt, txt):
    """q (hmap of a posynomial <= 1) is the normal form of lo <= hi, with
    ts = [(e, coef)] the terms of lo/hi"""
    k = sum(w for e, w in ts if not e)
    want = (sum(tval(e, w, pt) for e, w in ts) - k)/(1-k)
    got = hval(q, pt)
    expect(G.close(got, want, tol=1e-8), "%s: normal form has value %r at a"
           " point where it should be %r" % (txt, got, want),
           dict(q), {a.name: b for a, b in pt.items()})


@driver(("C06",), 3600)
def posy_ineq(c):
    "p <= m is compiled to (p/m - k)/(1 - k) <= 1"
    from gpkit import Monomial
    from gpkit.exceptions import PrimalInfeasible, DimensionalityError
    from gpkit.nomials.math import PosynomialInequality
    r = c.rng
    n = r.randint(1, 4)
    vs = G.mkvars(c, n, r.choice([[None], ["m", "ft", "cm"], G.UNITS]))
    base = r.choice([None] + vs)
    lo, hi = sides(c, vs, base)
    if r.random() < 0.05:
        hi = hi*r.choice(vs)      # usually a different dimension
    if not hasattr(lo, "hmap"):
        lo, hi = Monomial(lo) if r.random() < 0.5 else lo, hi
        if not hasattr(hi, "hmap"):
            hi = Monomial(hi)
    pts = [G.point(c, vs) for _ in range(3)]
    c.say("lo =", lo, " hi =", hi)
    snaps = [(z, snap(z)) for z in (lo, hi) if hasattr(z, "hmap")]
    lv = [G.nomial_val(lo, pt) for pt in pts]
    hv = [G.nomial_val(hi, pt) for pt in pts]
    lo_n = lo if hasattr(lo, "hmap") else Monomial(lo)
    # ratio terms, computed independently in SI
    fl = G.unit_si(lo_n.hmap.units)[0]
    hi_n = hi if hasattr(hi, "hmap") else Monomial(hi)
    fh = G.unit_si(hi_n.hmap.units)[0]
    (he, hk), = terms(hi_n)
    rat = {}
    for e, k in terms(lo_n):
        x = dict(e)
        for vk, y in he.items():
            x[vk] = x.get(vk, 0) - y
        x = frozenset((a, b) for a, b in x.items() if abs(b) > 1e-13)
        rat[x] = rat.get(x, 0) + k*fl/(hk*fh)
    ts = [(dict(e), k) for e, k in rat.items()]
    # the oracle's terms agree with the oracle's values
    for pt, a, b in zip(pts, lv, hv):
        assert G.close(sum(tval(e, k, pt) for e, k in ts), a.x/b.x, tol=1e-7)
    k0 = sum(k for e, k in ts if not e)
    const_only = all(not e for e, _ in ts)
    # pint itself refuses Quantity >= nomial for some of its classes
    ge = r.random() < 0.5 and not hasattr(hi, "magnitude")
    try:
        with Quiet():
            con = (hi >= lo) if ge else (lo <= hi)
    except DimensionalityError:
        expect(not dims_ok(lv[0], hv[0]) or
               (lo_n.units is None) != (hi_n.units is None),
               "compatible units refused", lo, hi)
        return
    except PrimalInfeasible:
        expect(k0 >= 1-1e-9, "a satisfiable constraint was called infeasible",
               k0)
        if const_only:
            expect(k0 > 1+FEASTOL*(1-1e-9), "a constraint violated by less"
                   " than the tolerance was called infeasible", k0)
        return
    for z, s in snaps:
        expect(snap(z) == s, "an operand was modified")
    expect(isinstance(con, PosynomialInequality), "not a posynomial"
           " inequality", type(con))
    expect(dims_ok(lv[0], hv[0]), "different dimensions compared", lo, hi)
    expect((con.oper, con.left, con.right) is not None and
           con.oper in ("<=", ">="), "operator", con.oper)
    less, more = (con.right, con.left) if con.oper == ">=" else \
        (con.left, con.right)
    for pt, a, b in zip(pts, lv, hv):
        expect(G.same(G.nomial_val(less, pt), a) and
               G.same(G.nomial_val(more, pt), b), "sides were swapped or"
               " changed", con)
    if not con.unsubbed:
        expect(const_only and k0 <= 1+FEASTOL*(1+1e-9),
               "a non-tautological constraint was dropped", ts)
    else:
        expect(len(con.unsubbed) == 1, "more than one normal form")
        expect(k0 < 1+1e-9 and not const_only, "an infeasible constraint was"
               " accepted or a tautology kept", ts)
        q, = con.unsubbed
        canonical(q, "normal form")
        if abs(1-k0) > 1e-9:
            for pt in pts:
                check_form(c, q.hmap, ts, None, pt, "unsubstituted")
        f, d = G.unit_si(q.hmap.units)
        expect(abs(f-1) < 1e-9 and not any(d[:3]), "normal form has units",
               q.units)
        # bounds that the constraint provides
        want = {(vk, "upper" if x > 0 else "lower")
                for e, _ in ts for vk, x in e.items()}
        expect(con.bounded == want, "recorded bounds differ", con.bounded,
               want)
    if abs(1-k0) < 1e-9:
        raise Skip()
    # after substitution
    for _ in range(2):
        fixed_vs = r.sample(vs, r.randint(0, n))
        fixed = {v.key: float(r.choice([1, 2, 0.5, 4, 1])) for v in fixed_vs}
        if r.random() < 0.1 and fixed:
            vk = r.choice(list(fixed))
            if not any(e.get(vk, 0) < 0 for e, _ in ts):
                fixed[vk] = 0.
        uns = [(dict(e), k/(1-k0)) for e, k in ts if e]
        pe = partial_eval(uns, fixed)
        pe = {e: v for e, v in pe.items() if v[0] != 0}
        kc = pe.get(frozenset(), [0])[0]
        only = all(not e for e in pe)
        c.say("fixed", {k.name: x for k, x in fixed.items()})
        subs = dict(fixed)
        subs[r.choice(["zz", "nosuch"])] = 3
        try:
            got = con.as_hmapslt1(subs)
        except PrimalInfeasible:
            expect(kc >= 1-1e-9, "satisfiable after substitution but called"
                   " infeasible", kc)
            if only:
                expect(kc > 1+FEASTOL*(1-1e-9), "within tolerance after"
                       " substitution but infeasible", kc)
            continue
        if not got:
            if not uns:
                continue
            expect(only and kc <= 1+FEASTOL*(1+1e-9),
                   "constraint dropped after substitution", pe)
            continue
        expect(not only and kc < 1+1e-9, "infeasible or tautological after"
               " substitution but kept", pe)
        h, = got
        if abs(1-kc) < 1e-9:
            continue
        for pt in pts:
            full = dict(pt)
            full.update(fixed)
            want = (sum(tval(e, k, full) for e, k in uns) - kc)/(1-kc)
            expect(G.close(hval(h, full), want, tol=1e-8),
                   "substituted normal form has the wrong value",
                   hval(h, full), want, dict(h))
            expect(not any(vk in fixed for e in h for vk in e),
                   "a substituted variable remains", dict(h))
        # sensitivities of this constraint, at a point where it is active
        la = round(r.uniform(0.1, 3), 3)
        w = [r.uniform(0.1, 1) for _ in h]
        nu = np.array([la*x/sum(w) for x in w])
        con.v_ss = None
        v_ss, la_out = con.sens_from_dual(la, nu, None)
        expect(la_out == la, "constraint sensitivity changed")
        want = {}
        for e, x in zip(h, nu):
            tot, parts = pe[frozenset(e.items())]
            for i, kk in parts:
                for vk, y in uns[i][0].items():
                    want[vk] = want.get(vk, 0) + x*kk/tot*float(y)
        if kc:
            for i, kk in pe[frozenset()][1]:
                for vk, y in uns[i][0].items():
                    want[vk] = want.get(vk, 0) + la*kk/(1-kc)*float(y)
        for vk in set(want) | set(v_ss):
            expect(G.close(float(v_ss.get(vk, 0)), want.get(vk, 0), 1., 1e-8),
                   "sensitivity to %s" % vk, v_ss.get(vk, 0),
                   want.get(vk, 0))


@driver(("C06",), 1200)
def mono_eq(c):
    "m1 == m2 is compiled to m1/m2 <= 1 and m2/m1 <= 1"
    from gpkit import Monomial
    from gpkit.exceptions import PrimalInfeasible, DimensionalityError
    r = c.rng
    n = r.randint(1, 3)
    vs = G.mkvars(c, n, r.choice([[None], ["m", "ft", "cm"], G.UNITS]))
    base = r.choice([None] + vs)
    a, b = rand_posy(c, vs, 1, False, base), rand_posy(c, vs, 1, False, base)
    if r.random() < 0.2:
        b = b*r.choice(vs)
    if r.random() < 0.2:
        b = r.choice([1, 1.0005, 2])*a
    if not hasattr(a, "hmap"):
        a = Monomial(a)
    if not hasattr(b, "hmap") and r.random() < 0.5:
        b = Monomial(b)
    c.say("a =", a, " b =", b)
    pts = [G.point(c, vs) for _ in range(3)]
    flip = r.random() < 0.5 and hasattr(b, "hmap")
    try:
        with Quiet():
            con = b == a if flip else a == b
    except PrimalInfeasible:
        con = False
    va = [G.nomial_val(a, pt) for pt in pts]
    vb = [G.nomial_val(b, pt) for pt in pts]
    rat = [x.x/y.x for x, y in zip(va, vb)]
    const = all(abs(x/rat[0]-1) < 1e-9 for x in rat)
    if con is False:
        bn = b if hasattr(b, "hmap") else Monomial(b)
        expect(not dims_ok(va[0], vb[0]) or (const and abs(rat[0]-1) > 1e-9)
               or (a.units is None) != (bn.units is None),
               "a satisfiable equality is False", rat)
        return
    if con is True:
        expect(const and abs(rat[0]-1) < 1e-9, "equality is True", rat)
        return
    expect(dims_ok(va[0], vb[0]), "different dimensions equated", a, b)
    us = con.unsubbed
    if not us:
        expect(const and abs(rat[0]-1) < 2*FEASTOL,
               "an equality was dropped", rat)
        return
    expect(len(us) == 2, "an equality needs two inequalities", us)
    for pt, x in zip(pts, rat):
        q = [hval(u.hmap, pt) for u in us]
        expect(G.close(q[0]*q[1], 1.), "the two sides are not reciprocal", q)
        expect(G.close(q[0], x) or G.close(q[0], 1/x),
               "ratio of the sides is wrong", q, x)
    for u in us:
        canonical(u, "equality")
    # substitution
    fixed = {v.key: float(r.choice([1, 2, 0.5]))
             for v in r.sample(vs, r.randint(0, n))}
    left = {vk for u in us for e in u.hmap for vk in e} - set(fixed)
    try:
        hs = con.as_hmapslt1(fixed)
    except PrimalInfeasible:
        pt = dict(pts[0], **{})
        pt.update(fixed)
        expect(not left and abs(hval(us[0].hmap, pt)-1) > FEASTOL*(1-1e-6),
               "satisfiable equality called infeasible", fixed)
        return
    if not hs:
        pt = dict(pts[0])
        pt.update(fixed)
        expect(not left and abs(hval(us[0].hmap, pt)-1) <= 2*FEASTOL,
               "equality dropped after substitution", fixed)
        return
    expect(len(hs) == 2 and all(h.from_meq for h in hs),
           "equality is not compiled to two tagged inequalities", hs)
    for h, u in zip(hs, us):
        for pt in pts:
            pt = dict(pt)
            pt.update(fixed)
            expect(G.close(hval(h, pt), hval(u.hmap, pt)),
                   "value changed by substitution")
    la1, la2 = r.uniform(0, 2), r.uniform(0, 2)
    o1 = con.sens_from_dual(la1, np.array([la1]), None)
    expect(o1 == ({}, 0), "the first half of an equality contributes", o1)
    v_ss, la = con.sens_from_dual(la2, np.array([la2]), None)
    expect(G.close(la, la1-la2, 1), "equality sensitivity", la, la1-la2)
    e0, = us[0].hmap
    for vk in set(v_ss) | set(e0):
        expect(G.close(float(v_ss.get(vk, 0)), (la1-la2)*float(e0.get(vk, 0)),
                       1.), "sensitivity to %s" % vk)


def rand_sig(c, vs, base):
    r = c.rng
    if r.random() < 0.4:
        return rand_posy(c, vs, 4, True, base)
    p = None
    for _ in range(r.randint(1, 4)):
        m = r.choice([1, 2, -1, -2, 0.5, 3, -0.5])*(base if base is not None
                                                    else 1)
        for v in r.sample(vs, r.randint(0, min(2, len(vs)))):
            u = v.key.units
            m = m*(v/(1*u) if u else v)**r.choice([1, 2, -1])
        p = m if p is None else p + m
    return p


@driver(("C07",), 2000)
def sig_approx(c):
    "the GP approximation of a signomial constraint is conservative and tight"
    from gpkit import SignomialsEnabled
    from gpkit.exceptions import PrimalInfeasible, DimensionalityError
    from gpkit.nomials.math import (PosynomialInequality, SignomialInequality,
                                    SingleSignomialEquality)
    r = c.rng
    n = r.randint(1, 4)
    vs = G.mkvars(c, n, r.choice([[None], ["m", "ft", "cm"], G.UNITS]))
    base = r.choice([None] + vs)
    pts = [G.point(c, vs) for _ in range(4)]
    with SignomialsEnabled():
        a, b = rand_sig(c, vs, base), rand_sig(c, vs, base)
        if not hasattr(a, "hmap"):
            raise Skip()
        c.say("a =", a, " b =", b)
        s0 = (snap(a), snap(b) if hasattr(b, "hmap") else None)
        oper = r.choice(["<=", ">="])
        try:
            with Quiet():
                if r.random() < 0.5:
                    con = a <= b if oper == "<=" else a >= b
                else:
                    con = SignomialInequality(a, oper, b)
        except PrimalInfeasible:
            raise Skip()
        except (AttributeError, DimensionalityError):
            # no negative part: nothing to approximate
            d = a - b if oper == "<=" else b - a
            expect(not any(k < 0 for k in d.hmap.values()) or
                   not any(k > 0 for k in d.hmap.values()),
                   "construction failed", d)
            raise Skip()
        expect((snap(a), snap(b) if hasattr(b, "hmap") else None) == s0,
               "an operand was modified")
        if not isinstance(con, SignomialInequality):
            raise Skip()

        def lt0(pt):
            x, y = G.nomial_val(a, pt), G.nomial_val(b, pt)
            f = G.unit_si(con.unsubbed[0].hmap.units)[0]
            s = 1 if oper == "<=" else -1
            return s*(x.x-y.x)/f, (x.mag+y.mag)/f
        # the terms of the signomial, by sign
        P = [t for t in terms(con.unsubbed[0]) if t[1] > 0]
        N = [(e, -k) for e, k in terms(con.unsubbed[0]) if k < 0]
        for pt in pts:
            w, mg = lt0(pt)
            g = sum(tval(e, k, pt) for e, k in P) - \
                sum(tval(e, k, pt) for e, k in N)
            expect(G.close(g, w, mg), "the stored signomial is not (lesser -"
                   " greater)", g, w)
        if not N or not P:
            raise Skip()
        x0, full0 = {}, {}
        for v in vs:
            if r.random() < 0.7:
                full0[v.key] = pts[0][v.key]
                x0[v.key] = full0[v.key]
            else:
                full0[v.key] = 1.
        if r.random() < 0.5:
            from gpkit.keydict import KeyDict
            x0 = KeyDict(x0)
        x0c = dict(x0)
        c.say("x0 =", {k.name: x for k, x in x0c.items()})
        try:
            with Quiet():
                gpc = con.as_gpconstr(x0)
        except PrimalInfeasible:
            # p/m has a constant part >= 1 at every point
            w0 = sum(tval(e, k, full0) for e, k in P)
            n0 = sum(tval(e, k, full0) for e, k in N)
            expect(w0 >= n0*(1-1e-9), "approximation infeasible although the"
                   " point itself satisfies the constraint", w0, n0)
            return
        expect(dict(x0) == x0c, "x0 was modified")
    expect(isinstance(gpc, PosynomialInequality), "not GP-compatible",
           type(gpc))
    expect(gpc.generated_by is con, "generated_by is not the constraint")
    less, more = (gpc.right, gpc.left) if gpc.oper == ">=" else \
        (gpc.left, gpc.right)
    expect(len(more.hmap) == 1, "greater side is not a monomial", more)
    f1, f2 = (G.unit_si(z.hmap.units)[0] for z in (less, more))
    fs = G.unit_si(con.unsubbed[0].hmap.units)[0]
    # tight at x0
    p0 = sum(tval(e, k, full0) for e, k in P)
    n0 = sum(tval(e, k, full0) for e, k in N)
    expect(G.close(hval(less.hmap, full0)*f1/fs, p0), "lesser side at x0")
    expect(G.close(hval(more.hmap, full0)*f2/fs, n0, tol=1e-7),
           "the approximation is not exact at x0",
           hval(more.hmap, full0)*f2/fs, n0)
    for vk in full0:
        g = sum(tval(e, k, full0)*float(e.get(vk, 0)) for e, k in N)/n0
        (e, _), = terms(more)
        expect(abs(float(e.get(vk, 0))-g) < 1e-7*(1+abs(g)),
               "the approximation's gradient at x0 differs", vk)
    for pt in pts + [{k: x*math.exp(r.uniform(-2, 2)) for k, x in p.items()}
                     for p in pts]:
        pv = sum(tval(e, k, pt) for e, k in P)
        nv = sum(tval(e, k, pt) for e, k in N)
        expect(G.close(hval(less.hmap, pt)*f1/fs, pv), "lesser side changed")
        mv = hval(more.hmap, pt)*f2/fs
        expect(mv <= nv*(1+1e-8), "the approximation is not conservative",
               mv, nv, {k.name: x for k, x in pt.items()})
        # feasible for the approximation => feasible for the original
        if all(hval(u.hmap, pt) <= 1 for u in gpc.unsubbed) and gpc.unsubbed:
            expect(pv <= nv*(1+1e-7), "a point feasible for the approximation"
                   " violates the constraint", pv, nv)


@driver(("C07",), 800)
def sig_equality(c):
    "the GP approximation of a signomial equality is exact to first order"
    from gpkit import SignomialsEnabled, Model
    from gpkit.nomials.math import (MonomialEquality, SingleSignomialEquality)
    r = c.rng
    n = r.randint(1, 3)
    vs = G.mkvars(c, n, r.choice([[None], ["m", "ft", "cm"], G.UNITS]))
    base = r.choice([None] + vs)
    pt = G.point(c, vs)
    with SignomialsEnabled():
        a = rand_posy(c, vs, 3, False, base)
        b = rand_posy(c, vs, 3, False, base)
        if not hasattr(a, "hmap") or not hasattr(b, "hmap"):
            raise Skip()
        c.say("a =", a, " b =", b)
        d = a - b
        if not any(k > 0 for k in d.hmap.values()) or \
                not any(k < 0 for k in d.hmap.values()):
            raise Skip()
        con = SingleSignomialEquality(a, b)
        expect(con.oper == "=", "operator")
        full = {v.key: pt[v.key] if r.random() < 0.7 else 1. for v in vs}
        x0 = {k: x for k, x in full.items() if x != 1.}
        with Quiet():
            m = con.as_gpconstr(x0)
    P = [t for t in terms(con.unsubbed[0]) if t[1] > 0]
    N = [(e, -k) for e, k in terms(con.unsubbed[0]) if k < 0]
    if m is False or m is True or not m.unsubbed:
        raise Skip()
    expect(isinstance(m, MonomialEquality), "not a monomial equality", m)
    p0 = sum(tval(e, k, full) for e, k in P)
    n0 = sum(tval(e, k, full) for e, k in N)
    q = hval(m.unsubbed[0].hmap, full)
    expect(G.close(q, p0/n0, tol=1e-7), "value at x0", q, p0/n0)
    (e, _), = terms(m.unsubbed[0])
    for vk in full:
        g = sum(tval(x, k, full)*float(x.get(vk, 0)) for x, k in P)/p0 - \
            sum(tval(x, k, full)*float(x.get(vk, 0)) for x, k in N)/n0
        expect(abs(float(e.get(vk, 0))-g) < 1e-7*(1+abs(g)),
               "gradient at x0", vk, e.get(vk, 0), g)


@driver(("C07", "C11"), 1600)
def sig_lt1(c):
    "a signomial constraint that substitution makes GP-compatible"
    from gpkit import SignomialsEnabled
    from gpkit.keydict import KeyDict
    from gpkit.exceptions import InvalidGPConstraint, PrimalInfeasible
    from gpkit.nomials.math import SignomialInequality
    r = c.rng
    n = r.randint(2, 4)
    vs = G.mkvars(c, n, r.choice([[None], ["m", "ft", "cm"]]))
    base = r.choice([None] + vs)
    with SignomialsEnabled():
        a, b = rand_sig(c, vs, base), rand_sig(c, vs, base)
        if not hasattr(a, "hmap"):
            raise Skip()
        d = a - b
        if not hasattr(d, "hmap") or not any(k > 0 for k in d.hmap.values()) \
                or not any(k < 0 for k in d.hmap.values()):
            raise Skip()
        c.say("a =", a, " b =", b)
        try:
            with Quiet():
                con = SignomialInequality(a, "<=", b)
        except PrimalInfeasible:
            raise Skip()
        fixed = {v.key: float(r.choice([1, 2, 0.5, 3, 0.25]))
                 for v in r.sample(vs, r.randint(0, n))}
        c.say("fixed", {k.name: x for k, x in fixed.items()})
        ts = terms(con.unsubbed[0])
        pe = partial_eval(ts, fixed)
        scale = {e: sum(abs(k) for _, k in v[1]) for e, v in pe.items()}
        if any(0 < abs(v[0]) < 1e-9*scale[e] for e, v in pe.items()):
            raise Skip()
        cancelled = any(v[0] == 0 for v in pe.values())
        neg = {e: v for e, v in pe.items() if v[0] < 0}
        pos = {e: v for e, v in pe.items() if v[0] > 0}
        try:
            with Quiet():
                hs = con.as_hmapslt1(fixed)
        except InvalidGPConstraint:
            expect(len(neg) > 1, "GP-compatible but refused", pe)
            return
        except PrimalInfeasible:
            raise Skip()
        except ValueError:
            expect(not neg, "called infeasible", pe)
            return
        if not pos:
            expect(hs == [], "tautology kept", hs)
            return
        expect(len(neg) == 1, "several negative terms remain but the"
               " constraint was compiled", pe)
        if not hs:
            raise Skip()
        h, = hs
        pts = [G.point(c, vs) for _ in range(3)]
        for pt in pts:
            pt.update(fixed)
            pv = sum(tval(dict(e), v[0], pt) for e, v in pos.items())
            nv = -sum(tval(dict(e), v[0], pt) for e, v in neg.items())
            expect(G.close(hval(h, pt), pv/nv), "compiled form has the wrong"
                   " value", hval(h, pt), pv/nv)
        if cancelled:
            raise Skip()
        # sensitivities
        pt = pts[0]
        la = round(r.uniform(0.1, 2), 3)
        nu = np.array([r.uniform(0.1, 1) for _ in h])
        (ne, nvl), = neg.items()
        v_ss, la2 = con.sens_from_dual(la, nu,
                                       {"variables": KeyDict(pt)})
        want = {}
        for e, x in zip(h, nu):
            # which merged positive term is this?
            key = dict(e)
            for vk, y in dict(ne).items():
                key[vk] = key.get(vk, 0) + y
            key = frozenset((i, j) for i, j in key.items() if abs(j) > 1e-12)
            cand = [v for k2, v in pos.items() if all(
                abs(dict(k2).get(i, 0)-dict(key).get(i, 0)) < 1e-9
                for i in set(dict(k2)) | set(dict(key)))]
            (tot, parts), = cand
            for i, kk in parts:
                for vk, y in ts[i][0].items():
                    want[vk] = want.get(vk, 0) + x*kk/tot*float(y)
            for i, kk in nvl[1]:
                for vk, y in ts[i][0].items():
                    want[vk] = want.get(vk, 0) - x*kk/nvl[0]*float(y)
        for vk in set(want) | set(v_ss):
            expect(G.close(float(v_ss.get(vk, 0)), want.get(vk, 0), 1., 1e-7),
                   "sensitivity to %s" % vk, v_ss.get(vk, 0),
                   want.get(vk, 0))
