"Arithmetic, canonical form, immutability, derivatives, approximations."
import math
import numpy as np
from .common import driver, expect, Skip, Bad
from . import gen as G


def snap(p):
    h = p.hmap
    return ({frozenset(e.items()): c for e, c in h.items()},
            None if h.units is None else str(h.units),
            [id(e) for e in h], {k: None for k in ()})


def canonical(p, what):
    "invariants of the representation, observable through the public API"
    from gpkit import Monomial, Posynomial, Signomial
    h = p.hmap
    if not h:
        return      # every term has cancelled
    seen = set()
    for e, c in h.items():
        fe = frozenset(e.items())
        expect(fe not in seen, "%s: like terms not merged" % what, dict(h))
        seen.add(fe)
        expect(all(x != 0 for x in e.values()),
               "%s: zero exponent kept" % what, dict(h))
        expect(e in h, "%s: a term cannot be looked up by its exponents"
               % what, dict(h))
        fresh = type(e)(dict(e))
        expect(hash(fresh) == hash(e),
               "%s: hash of the exponents is stale" % what, dict(e))
        expect(fresh in h and h[fresh] == c,
               "%s: a term is not found by equal exponents" % what, dict(e))
    if any(c <= 0 for c in h.values()):
        expect(type(p) is Signomial or not isinstance(p, Posynomial),
               "%s has a nonpositive coefficient but is a %s"
               % (what, type(p).__name__), dict(h))
    elif len(h) == 1:
        expect(isinstance(p, Monomial), "%s has one positive term but is a %s"
               % (what, type(p).__name__))
    else:
        expect(isinstance(p, Posynomial) and not isinstance(p, Monomial),
               "%s has %d positive terms but is a %s"
               % (what, len(h), type(p).__name__))
    if len(h) > 1:
        expect(all(c != 0 for c in h.values()),
               "%s: zero term kept" % what, dict(h))


def leaf(c, vs, pt, depth):
    from gpkit import units
    r = c.rng
    k = r.randrange(10)
    if k < 4 or depth > 6:
        v = r.choice(vs)
        return v, G.var_val(v, pt), v.key.name
    if k < 7:
        return G.mono(c, vs, pt)
    if k == 7:
        x = G.number(c)
        return x, G.Val(float(x)), repr(x)
    if k == 8:
        u = r.choice(["m", "ft", "s", "dimensionless", "cm", "m/ft"])
        x = round(r.uniform(0.5, 3), 2)
        f, d = G.si(u)
        return x*units(u) if u != "dimensionless" else x*units("dimensionless"), \
            G.Val(x*f, d), "%r*units(%r)" % (x, u)
    v = r.choice(vs)
    e = G.expo(c)
    return v**e, G.vpow(G.var_val(v, pt), e), "%s**%r" % (v.key.name, e)


def tree(c, vs, pt, depth, sig, log):
    r = c.rng
    if depth <= 0 or r.random() < 0.15:
        return leaf(c, vs, pt, 9 if depth <= 0 else 0)
    op = r.choice("+++***/^-n" if sig else "++++***/^^")
    a, va, ta = tree(c, vs, pt, depth-1, sig, log)
    if op == "n":
        out, val, txt = -a if hasattr(a, "hmap") or 1 else a, \
            G.Val(-va.x, va.d, va.mag), "-(%s)" % ta
    elif op == "^":
        from gpkit import Monomial
        isnom = hasattr(a, "hmap")
        if isnom and not isinstance(a, Monomial):
            n = r.randint(0, 3)
        else:
            n = r.choice([2, 0.5, -1, 0, 1, 3, -0.5, 1.5])
            if not isnom and (va.x <= 0):
                n = r.choice([1, 2, 3])
        if isnom and isinstance(a, Monomial) is False and va.x == 0 and n == 0:
            pass
        before = snap(a) if isnom else None
        out, txt = a**n, "(%s)**%r" % (ta, n)
        if n == 0:
            val = G.Val(1.)
        elif isinstance(n, int) and n > 0 and isnom:
            val = va
            for _ in range(n-1):
                val = G.vmul(val, va)
        else:
            val = G.vpow(va, n)
        if isnom:
            expect(snap(a) == before, "operand of ** was modified", txt)
    else:
        b, vb, tb = tree(c, vs, pt, depth-1, sig, log)
        txt = "(%s) %s (%s)" % (ta, op, tb)
        if not hasattr(a, "hmap") and not hasattr(b, "hmap"):
            a, va, ta = r.choice(vs), None, None
            va, ta = G.var_val(a, pt), a.key.name
            txt = "(%s) %s (%s)" % (ta, op, tb)
        sa = snap(a) if hasattr(a, "hmap") else None
        sb = snap(b) if hasattr(b, "hmap") else None
        from gpkit import Monomial
        if op == "/":
            if not (isinstance(b, Monomial) or
                    (not hasattr(b, "hmap") and vb.x != 0)):
                op = "*"
                txt = "(%s) * (%s)" % (ta, tb)
        out, val = apply(op, a, b, va, vb, txt)
        expect(sa is None or snap(a) == sa, "left operand was modified", txt)
        expect(sb is None or snap(b) == sb, "right operand was modified", txt)
    log.append((out, val, txt))
    return out, val, txt


class Stop(Exception):
    pass


def apply(op, a, b, va, vb, txt):
    from gpkit import DimensionalityError
    zero = (not hasattr(a, "hmap") and float(va.x) == 0) or \
           (not hasattr(b, "hmap") and float(vb.x) == 0)
    try:
        if op == "*":
            val = G.vmul(va, vb)
        elif op == "/":
            val = G.vdiv(va, vb)
        else:
            val = G.vadd(va, vb, 1 if op == "+" else -1)
    except G.DimErr:
        val = None
    if zero and op in "+-":
        # adding a bare zero is allowed whatever the dimension
        val = None if val is None else val
        if val is None:
            raise Skip()
    try:
        out = a*b if op == "*" else a/b if op == "/" else \
            a+b if op == "+" else a-b
    except DimensionalityError:
        if (getattr(a, "units", None) is None) != \
                (getattr(b, "units", None) is None):
            raise Stop()      # unitless and 'dimensionless' do not mix
        expect(val is None, "DimensionalityError although dimensions agree",
               txt, va, vb)
        raise Stop()
    expect(val is not None, "no DimensionalityError for adding quantities of"
           " different dimension", txt, va, vb)
    if op == "*" and zero:
        if not hasattr(out, "hmap"):
            val = G.num_val(out)
            expect(val.x == 0, "product with zero is not zero", txt)
    if op == "/" and not hasattr(out, "hmap"):
        val = G.num_val(out)
        expect(val.x == 0 and va.x == 0, "quotient is a bare nonzero number",
               txt, out)
    return out, val


def check_tree(c, sig):
    from gpkit import SignomialsEnabled
    vs = G.mkvars(c, 3, c.rng.choice([
        [None], ["m", "ft", "cm"], ["m", "ft", None, "s"], G.UNITS,
        ["m", "1/s", "ft", "dimensionless", None]]))
    pt = G.point(c, vs)
    log = []
    try:
        if sig:
            with SignomialsEnabled():
                out, val, txt = tree(c, vs, pt, c.rng.randint(1, 4), sig, log)
        else:
            out, val, txt = tree(c, vs, pt, c.rng.randint(1, 4), sig, log)
    except (Stop, OverflowError):
        c.say("stopped; last:", log[-1][2] if log else "")
        out = None
    c.say("expr:", log[-1][2] if log else "leaf")
    for o, v, t in log:
        got = G.nomial_val(o, pt) if hasattr(o, "hmap") else G.num_val(o)
        if v.x == 0 and not hasattr(o, "hmap"):
            continue
        expect(G.same(got, v), "value of the expression is wrong", t,
               "got %r want %r" % (got, v),
               "point " + str({k.name: x for k, x in pt.items()}))
        if hasattr(o, "hmap"):
            canonical(o, t)
            expect(o.units == o.hmap.units or
                   str(o.units) == str(o.hmap.units), "units differ", t)
    if not log:
        raise Skip()


@driver(("C01", "C05"), 2000)
def arith_posy(c):
    check_tree(c, False)


@driver(("C01", "C05"), 2000)
def arith_sig(c):
    check_tree(c, True)


@driver(("C01", "C05"), 2400)
def arith_collide(c):
    """polynomials with small integer coefficients and exponents, so that like
    terms meet and cancel all the time, against exact dictionary algebra"""
    from gpkit import Variable, Signomial, SignomialsEnabled
    from gpkit.small_classes import HashVector
    r = c.rng
    vs = [Variable("v%d" % i) for i in range(2)]
    exps = r.choice([[0, 1, -1], [0, 1], [0, 1, -1, 2, -2], [0, 0.5, -0.5, 1],
                     [0, 1.5, -1.5]])

    def leaf():
        "object, {exponents: coefficient}"
        n = r.randint(1, 3)
        d, g = {}, None
        for _ in range(n):
            k = r.choice([1, 1, 2, 3, -1, -1, -2, -3])
            e = tuple(r.choice(exps) for _ in vs)
            m = k*vs[0]**e[0]*vs[1]**e[1]
            if not hasattr(m, "hmap"):
                m = Signomial(m)
            g = m if g is None else g + m
            d[e] = d.get(e, 0) + k
        return g, {e: k for e, k in d.items() if k}

    def mul(a, b):
        d = {}
        for ea, ka in a.items():
            for eb, kb in b.items():
                e = tuple(x+y for x, y in zip(ea, eb))
                d[e] = d.get(e, 0) + ka*kb
        return {e: k for e, k in d.items() if k}

    def add(a, b, s=1):
        d = dict(a)
        for e, k in b.items():
            d[e] = d.get(e, 0) + s*k
        return {e: k for e, k in d.items() if k}

    def check(g, d, what):
        got = {}
        for exp, k in g.hmap.items():
            e = tuple(exp.get(v.key, 0) for v in vs)
            expect(all(exp.values()), what + ": zero exponent", g.hmap)
            if k == 0 and len(g.hmap) == 1:
                continue
            expect(k != 0, what + ": zero term kept", g.hmap)
            got[e] = k
        expect(got == d, what, dict(g.hmap), d)
        for e, k in d.items():
            hv = HashVector({v.key: x for v, x in zip(vs, e) if x})
            expect(g.hmap.get(hv) == k, what + ": term not found by its"
                   " exponents", hv, g.hmap)
        for exp in g.hmap:
            hv = HashVector(exp)
            expect(hash(hv) == hash(exp), what + ": stale hash", hv)

    with SignomialsEnabled():
        pool = [leaf() for _ in range(r.randint(2, 3))]
        for g, d in pool:
            if r.random() < 0.5:
                hash(g)
        for step in range(r.randint(1, 5)):
            a, b = r.choice(pool), r.choice(pool)
            op = r.choice(["+", "-", "*", "*", "**", "neg", "/"])
            c.say(op, dict(a[0].hmap), "|", dict(b[0].hmap))
            if op in "+-":
                res = (a[0]+b[0] if op == "+" else a[0]-b[0],
                       add(a[1], b[1], 1 if op == "+" else -1))
            elif op == "*":
                if len(a[1])*len(b[1]) > 40:
                    continue
                res = (a[0]*b[0], mul(a[1], b[1]))
            elif op == "**":
                n = r.choice([0, 1, 2, 3])
                if len(a[1])**n > 60:
                    continue
                d = {(0, 0): 1}
                for _ in range(n):
                    d = mul(d, a[1])
                res = (a[0]**n, d)
            elif op == "neg":
                res = (-a[0], {e: -k for e, k in a[1].items()})
            else:
                e = tuple(r.choice(exps) for _ in vs)
                m = vs[0]**e[0]*vs[1]**e[1]
                if not hasattr(m, "hmap"):
                    continue
                res = (a[0]/m, {tuple(x-y for x, y in zip(q, e)): k
                                for q, k in a[1].items()})
            check(res[0], res[1], "%s: wrong terms" % op)
            for g, d in (a, b):
                check(g, d, "operand after %s" % op)
            if len(res[1]) and len(res[1]) < 25:
                pool.append(res)


@driver(("C01",), 480)
def arith_laws(c):
    "commutativity, associativity, distributivity up to rounding; exact hash/eq"
    vs = G.mkvars(c, 3, c.rng.choice([[None], ["m", "ft"], ["m", "cm"]]))
    r = c.rng
    k = lambda: r.choice([1, 2, 3, 4, 0.5, 0.25])
    ms = []
    for _ in range(3):
        n = r.randint(1, 3)
        p = 0
        for _ in range(n):
            m = k()*vs[0]
            for _ in range(2):
                m = m * (vs[r.randrange(3)]/vs[r.randrange(3)])**r.choice(
                    [0, 1, 2, -1])
            p = p + m
        ms.append(p)
    a, b, d = ms
    c.say("a=", a, "b=", b, "d=", d)
    pt = G.point(c, vs)
    for nm, x, y in (("a+b=b+a", a+b, b+a), ("ab=ba", a*b, b*a),
                     ("(a+b)+d=a+(b+d)", (a+b)+d, a+(b+d)),
                     ("(ab)d=a(bd)", (a*b)*d, a*(b*d)),
                     ("a(b+d)=ab+ad", a*(b+d), a*b+a*d),
                     ("a**2=aa", a**2, a*a)):
        expect(G.same(G.nomial_val(x, pt), G.nomial_val(y, pt)), nm,
               x, y)
        expect(len(x.hmap) == len(y.hmap), nm+": different terms", x, y)


@driver(("C05",), 800)
def equality_hash(c):
    "equality is by value of the representation and consistent with hash"
    from gpkit import Posynomial, Signomial, SignomialsEnabled
    r = c.rng
    vs = G.mkvars(c, 3, c.rng.choice([[None], ["m", "ft"], ["m"]]))
    terms = []
    for _ in range(r.randint(2, 4)):
        m = r.choice([1, 2, 3, 0.5])*vs[0]
        for v in r.sample(vs, r.randint(0, 3)):
            m = m*(v/vs[1])**r.choice([1, 2, -1, 0.5])
        terms.append(m)

    def build(order):
        p = terms[order[0]]
        for i in order[1:]:
            p = p + terms[i]
        return p
    o = list(range(len(terms)))
    p = build(o)
    r.shuffle(o)
    q = build(o)
    c.say("p=", p, " q=", q)
    canonical(p, "p")
    hp, hq = p.hmap, q.hmap
    if p.units is None or p.units == q.units:
        # same terms, same units: equal and same hash (dyadic coefficients)
        from gpkit import Monomial
        if not isinstance(p, Monomial):
            expect(p == q, "equal sums built in different orders differ")
            expect(hash(p) == hash(q), "equal nomials hash differently")
            expect(not (p != q), "== and != disagree")
        expect(hash(hp) == hash(hq), "equal maps hash differently")
    h0 = hash(p)
    _ = p*2, p + vs[0], p.sub({vs[0]: 2}), p.diff(vs[0])
    expect(hash(p) == h0, "hash changed after use")
    canonical(p, "p after use")
    # a different nomial is not equal
    if not isinstance(p*2, type(vs[0])) and len(p.hmap) > 1:
        expect(not p == p*2, "p == 2p")
    # unused operand's exponents unaffected by derived objects
    with SignomialsEnabled():
        z = p - q
        canonical(z, "p-q") if z.hmap else None


def expo_tangent(c):
    pass


def rand_posy(c, vs, nmax=4, sig=False, base=None):
    """random nomial, all terms of the dimension of base"""
    r = c.rng
    p = None
    for _ in range(r.randint(1, nmax)):
        k = round(r.uniform(0.2, 4), 3)
        if sig and r.random() < 0.4:
            k = -k
        m = k*(base if base is not None else 1)
        for v in r.sample(vs, r.randint(0, len(vs))):
            e = G.expo(c)
            # dimensionless power of v
            u = v.key.units
            m = m*((v/(1*u))**e if u else v**e)
        p = m if p is None else p + m
    return p


@driver(("C03", "C05"), 1200)
def derivative(c):
    "termwise power rule and finite differences, units included"
    from gpkit import SignomialsEnabled, Signomial, NomialArray
    r = c.rng
    with SignomialsEnabled():
        vs = G.mkvars(c, 3, r.choice([[None], ["m", "ft", "cm"],
                                      G.UNITS, ["m", "1/s", None]]))
        base = r.choice([None] + vs)
        p = rand_posy(c, vs, 4, r.random() < 0.5, base)
        if not hasattr(p, "hmap"):
            raise Skip()
        if not p.hmap:
            raise Skip()
        v = r.choice(vs)
        c.say("p =", p, " d/d", v)
        s0 = snap(p)
        d = p.diff(v)
        expect(snap(p) == s0, "diff modified the nomial")
        pt = G.point(c, vs)
        got = G.nomial_val(d, pt)
        f, dim = G.unit_si(p.hmap.units)
        tot = mag = 0.
        for exp, k in p.hmap.items():
            e = float(exp.get(v.key, 0))
            t = float(k)*e
            for vk, x in exp.items():
                t *= pt[vk]**float(x)
            tot += t/pt[v.key]
            mag += abs(t/pt[v.key])
        fv, dv = G.si(v.pv_unit)
        want = G.Val(tot*f/fv, [a-b for a, b in zip(dim, dv)], mag*f/fv)
        if v.key not in p.vks:
            expect(got.x == 0, "derivative by an absent variable is not 0",
                   d)
        else:
            expect(G.same(got, want), "derivative is wrong",
                   "got %r want %r" % (got, want), d)
            if len(d.hmap):
                for e in d.hmap:
                    expect(e in d.hmap and hash(type(e)(dict(e))) == hash(e),
                           "term of the derivative has a stale hash", dict(e))
        for e in d.hmap:
            expect(all(x != 0 for x in e.values()),
                   "derivative keeps a zero exponent", dict(e))
        # linearity and product rule, by value
        q = rand_posy(c, vs, 2, False, base)
        if hasattr(q, "hmap") and q.hmap:
            lhs = G.nomial_val((p*q).diff(v), pt)
            a, b = p.diff(v), q.diff(v)
            va, vb = G.nomial_val(a, pt), G.nomial_val(b, pt)
            x = va.x*G.nomial_val(q, pt).x + vb.x*G.nomial_val(p, pt).x
            m = va.mag*G.nomial_val(q, pt).mag + vb.mag*G.nomial_val(p, pt).mag
            expect(G.close(lhs.x, x, m), "product rule fails", lhs, x, q)


@driver(("C04",), 1200)
def mono_approx(c):
    "equal value and log-gradient at x0; below the posynomial elsewhere"
    r = c.rng
    vs = G.mkvars(c, 3, r.choice([[None], ["m", "ft", "cm"], G.UNITS]))
    base = r.choice([None] + vs)
    p = rand_posy(c, vs, 5, False, base)
    if not hasattr(p, "hmap"):
        raise Skip()
    f = G.scale(c)
    if f != 1:
        p = f*p
    c.say("p =", {tuple(sorted((k.name, x) for k, x in e.items())): k2
                  for e, k2 in p.hmap.items()}, p.units)
    pt = G.point(c, vs, r.random() < 0.3)
    x0 = {}
    for v in vs:
        x0[r.choice([v, v.key, v.key.name])] = pt[v.key]
    if r.random() < 0.3:
        x0["unrelated"] = 3
    c.say("x0 =", {str(k): str(x) for k, x in x0.items()})
    s0 = snap(p)
    from gpkit import Monomial
    m = (p.mono_lower_bound if r.random() < 0.5 else p.mono_approximation)(x0)
    expect(snap(p) == s0, "the posynomial was modified")
    expect(isinstance(m, Monomial), "not a monomial", type(m))
    a, b = G.nomial_val(p, pt), G.nomial_val(m, pt)
    expect(G.same(a, b, 1e-7), "value at x0 differs", a, b, m)
    # log-gradient
    for v in vs:
        t = g = 0.
        for exp, k in p.hmap.items():
            w = float(k)
            for vk, x in exp.items():
                w *= pt[vk]**float(x)
            t += w
            g += w*float(exp.get(v.key, 0))
        e = float(list(m.hmap)[0].get(v.key, 0))
        expect(abs(g/t - e) < 1e-7*(1+abs(e)), "gradient at x0 differs", v,
               g/t, e)
    for e in m.hmap:
        expect(e in m.hmap and hash(type(e)(dict(e))) == hash(e), "stale hash")
    for _ in range(3):
        q = {k: x*math.exp(r.uniform(-2, 2)) for k, x in pt.items()}
        a, b = G.nomial_val(p, q), G.nomial_val(m, q)
        expect(b.x <= a.x*(1+1e-8), "not a lower bound", a, b, m,
               {k.name: x for k, x in q.items()})
        expect(a.d == b.d, "dimension differs", a, b)
