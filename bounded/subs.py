"Substitution; unit conversion factors."
import math
import numpy as np
from .common import driver, expect, Skip, Bad
from . import gen as G
from .arith import rand_posy, snap, canonical


def sub_value(c, v, x):
    "a way of writing the value x (in v's units)"
    from gpkit.units import Quantity
    from gpkit import Monomial
    r = c.rng
    k = r.randrange(5)
    u = v.pv_unit
    if u is None and k == 4:
        return Quantity(*r.choice([(100*x, "percent"), (x, "dimensionless"),
                                   (100*x, "cm/m")]))
    if u is None or k < 2:
        return x
    alt = {"ft": "m", "m": "cm", "cm": "inch", "s": "min", "kg": "g",
           "inch": "ft", "N": "lbf", "dimensionless": "percent"}.get(u, u)
    f0, _ = G.si(u)
    f1, _ = G.si(alt) if alt != "percent" else (0.01, None)
    y = x*f0/f1
    if k == 2:
        return Quantity(y, alt)
    if k == 3:
        return Monomial(Quantity(y, alt))
    return Quantity(x, u)


@driver(("C02", "C05"), 6000)
def substitution(c):
    "value of the substituted nomial = value of the original at the point"
    from gpkit import SignomialsEnabled, Signomial
    r = c.rng
    n = r.randint(1, 5)
    vs = G.mkvars(c, n, r.choice([[None], ["m", "ft", "cm"], G.UNITS]))
    small = r.random() < 0.5
    base = r.choice([None] + vs)
    with SignomialsEnabled():
        if small:
            # integer data: collisions and exact cancellations
            p = None
            for _ in range(r.randint(1, 5)):
                m = r.choice([1, 2, -1, -2, 3])*(base if base is not None
                                                 else 1)
                for v in r.sample(vs, r.randint(0, n)):
                    u = v.key.units
                    m = m*(v/(1*u) if u else v)**r.choice([1, 2, 1, -1])
                p = m if p is None else p + m
        else:
            p = rand_posy(c, vs, 5, r.random() < 0.4, base)
        if not hasattr(p, "hmap") or not p.hmap:
            raise Skip()
        f = G.scale(c)
        if f != 1:
            p = f*p
        c.say("p =", {tuple(sorted((k.name, x) for k, x in e.items())): k2
                      for e, k2 in p.hmap.items()}, p.units)
        pt = {v.key: float(r.choice([1, 2, 2, 0.5, 4, -1, 0, 3])) if small
              else round(math.exp(r.uniform(-1, 1)), 5) for v in vs}
        chosen = r.sample(vs, r.randint(0, n))
        subs = {}
        for v in chosen:
            val = sub_value(c, v, pt[v.key])
            subs[r.choice([v, v.key, v.key.name])] = val
        c.say("subs =", {str(k): str(x) for k, x in subs.items()})
        inf = any(pt[v.key] == 0 and any(e.get(v.key, 0) < 0 for e in p.hmap)
                  for v in chosen)
        frac = any(pt[v.key] < 0 and any(e.get(v.key, 0) != int(
            e.get(v.key, 0)) for e in p.hmap) for v in chosen)
        if inf or frac:
            raise Skip()
        s0 = snap(p)
        q = p.sub(subs, require_positive=False)
        q2 = p.sub(dict(reversed(list(subs.items()))), require_positive=False)
        expect(snap(p) == s0, "substitution modified the nomial")
        for which, z in (("", q), (" (other order)", q2)):
            rest = [v for v in vs if v not in chosen]
            for v in chosen:
                expect(v.key not in z.vks,
                       "a substituted variable remains" + which, z)
            for _ in range(2):
                full = dict(pt)
                for v in rest:
                    full[v.key] = round(math.exp(r.uniform(-1, 1)), 5)
                a, b = G.nomial_val(p, full), G.nomial_val(z, full)
                expect(G.same(a, b), "value changed" + which,
                       "got %r want %r" % (b, a),
                       {k.name: x for k, x in full.items()},
                       dict(z.hmap))
            expect({vk for e in z.hmap for vk in e} <=
                   {v.key for v in rest}, "new variables appeared" + which)
            expect(str(z.units) == str(p.units), "units changed" + which)
            canonical(z, "substituted nomial" + which)
        # in two steps
        if len(chosen) > 1:
            ks = list(subs)
            z = p.sub({ks[0]: subs[ks[0]]}, require_positive=False)
            z = z.sub({k: subs[k] for k in ks[1:]}, require_positive=False)
            full = dict(pt)
            for v in rest:
                full[v.key] = 1.7
            expect(G.same(G.nomial_val(q, full), G.nomial_val(z, full)),
                   "substituting one by one differs", dict(q.hmap),
                   dict(z.hmap))
        # absent variables and NaN change nothing
        if r.random() < 0.2:
            z = p.sub({"no_such_variable": 3}, require_positive=False)
            expect(dict(z.hmap) == dict(p.hmap),
                   "substituting an absent variable changed the nomial")
        if r.random() < 0.2 and vs:
            z = p.sub({vs[0]: float("nan")}, require_positive=False)
            expect(dict(z.hmap) == dict(p.hmap),
                   "substituting NaN changed the nomial")


@driver(("C02",), 600)
def sub_zero_pole(c):
    "0 to a negative power is infinite"
    from gpkit import SignomialsEnabled
    r = c.rng
    with SignomialsEnabled():
        vs = G.mkvars(c, 2, [None, "m"])
        x, y = vs
        k = r.choice([1, 2, 0.5])
        p = k*y*(x/(1*x.key.units) if x.key.units else x)**r.choice([-1, -2])
        c.say("p =", p)
        q = p.sub({x: 0})
        v, = q.hmap.values()
        expect(v == 0 or math.isinf(v) or math.isnan(v),
               "pole lost", q)
        z = (x**2 if not x.key.units else (x/(1*x.key.units))**2)
        q = (z + 3).sub({x: 0})
        expect(dict(q.hmap) == {type(list(q.hmap)[0])(): 3.0} or
               list(q.hmap.values()) == [3.0], "0**2 + 3 is not 3", q)
        q = z.sub({x: 0}, require_positive=False)
        expect(list(q.hmap.values()) == [0.0], "0**2 is not 0", q)


@driver(("C02",), 800)
def vector_sub(c):
    "arrays substitute element by element"
    from gpkit import VectorVariable, Variable
    from gpkit.units import Quantity
    r = c.rng
    u = r.choice([None, "m", "ft"])
    n = r.randint(1, 4)
    shape = r.choice([n, (n,), (2, n)])
    x = VectorVariable(shape, "x", u) if u else VectorVariable(shape, "x")
    vals = np.array([round(r.uniform(0.3, 3), 3) for _ in range(x.size)]
                    ).reshape(x.shape)
    form = r.randrange(5)
    sub = vals
    if form == 1:
        sub = vals.tolist()
    elif form == 2 and u:
        sub = Quantity(vals*G.si(u)[0]/G.si("cm")[0], "cm")
    elif form == 3:
        s = round(r.uniform(0.3, 3), 3)
        vals = np.full(x.shape, s)
        sub = s
    elif form == 4:
        sub = vals.copy()
        j = tuple(r.randrange(k) for k in x.shape)
        sub[j] = np.nan
        vals = sub
    key = r.choice([x, x.key, "x"]) if True else x
    if key is x:
        key = x.key
    c.say("x shape", shape, u, "sub", sub, type(sub).__name__)
    tot = 0
    y = Variable("y")
    for el in x.flat:
        e = r.choice([1, 2, -1])
        el_ = el/(1*el.key.units) if el.key.units else el
        tot = tot + round(r.uniform(.2, 2), 2)*el_**e*y
    q = tot.sub({key: sub})
    pt = {y.key: 1.3}
    left = set()
    for el, v in zip(x.flat, vals.flat):
        if np.isnan(v):
            v = 0.77
            left.add(el.key)
        pt[el.key] = float(v)
    expect({vk for vk in q.vks if vk != y.key} == left,
           "wrong elements remain", q)
    a, b = G.nomial_val(tot, pt), G.nomial_val(q, pt)
    expect(G.same(a, b), "value changed", a, b, q)
    if x.size > 1:
        try:
            tot.sub({x.key: np.ones(x.size+1)})
        except ValueError:
            pass
        else:
            raise Bad("array of the wrong shape was accepted")


@driver(("C21", "C01"), 1600)
def unit_history(c):
    "conversion factors do not depend on what was computed before"
    from gpkit import Variable, DimensionalityError, units
    r = c.rng
    us = ["m", "ft", "cm", "inch", "km", "s", "min", "kg", "g", "N", "lbf",
          "dimensionless"]
    tab = {u: G.si(u) for u in us}
    if r.random() < 0.6:
        us = []
        while len(us) < 5:
            t, f, d = G.rand_unit(r)
            tab[t] = (f, d)
            us.append(t)
            # the same letters in the other case are another unit
            if t[:1] in "mM" and t[1:] in ("W", "N", "s", "Pa", "J", "g"):
                q = t[0].swapcase() + t[1:]
                us.append(q)
                tab[q] = (f*(1e9 if q[0] == "M" else 1e-9), d)
    hist = []
    for _ in range(r.randint(1, 6)):
        a, b = r.choice(us), r.choice(us)
        op = r.choice(["<=", "*", "/", "+", "to", "sub", "eq"])
        hist.append((a, op, b))
        x, y = Variable("x", a), Variable("y", b)
        fa, da = tab[a]
        fb, db = tab[b]
        c.say(a, op, b)
        for v, f, d in ((x, fa, da), (y, fb, db)):
            q = v.units
            expect(G.same(G.num_val(q), G.Val(f, d)) if q is not None
                   else d == (0, 0, 0), "a variable's unit is not the unit"
                   " asked for", v, q, f, d)
        if op in ("*", "/"):
            z = x*y if op == "*" else x/y
            pt = {x.key: 2., y.key: 4.}
            va, vb = G.Val(2*fa, da), G.Val(4*fb, db)
            want = G.vmul(va, vb) if op == "*" else G.vdiv(va, vb)
            expect(G.same(G.nomial_val(z, pt), want), "product or quotient"
                   " of units is wrong", z, G.nomial_val(z, pt), want)
            continue
        try:
            if op == "<=":
                con = x <= y
                got = list(con.unsubbed[0].hmap.values())[0]
            elif op == "eq":
                con = x == y
                if con is False:
                    raise DimensionalityError(a, b)
                got = list(con.unsubbed[0].hmap.values())[0]
            elif op == "+":
                z = x + y
                got = dict(z.hmap)
                got = [k for e, k in got.items() if y.key in e][0]
                got = 1/got if False else got
                got = got
            elif op == "to":
                got = list(x.to(b).hmap.values())[0]
            else:
                from gpkit.units import Quantity
                got = list(x.sub({x: Quantity(1., b)}).hmap.values())[0]
        except DimensionalityError:
            expect(da != db, "DimensionalityError for compatible units",
                   a, op, b)
            continue
        expect(da == db, "incompatible units accepted", a, op, b)
        want = fa/fb if op in ("<=", "eq", "to") else fb/fa
        expect(abs(got/want-1) < 1e-9, "conversion factor is wrong", a, op, b,
               got, want)
