"Generators of variables, nomials and expression trees with an oracle."
import math
import numpy as np

UNITS = [None, None, "m", "ft", "cm", "s", "kg", "m/s", "1/s", "N",
         "dimensionless", "inch"]


def si(u):
    "(factor to SI base, dimension dict) of a pint-ish unit; independent table"
    L, T, MS = (1, 0, 0), (0, 1, 0), (0, 0, 1)
    tab = {None: (1., (0, 0, 0)), "m": (1., L), "ft": (0.3048, L),
           "cm": (0.01, L), "inch": (0.0254, L), "s": (1., T),
           "kg": (1., MS), "m/s": (1., (1, -1, 0)),
           "1/s": (1., (0, -1, 0)), "N": (1., (1, -2, 1)),
           "dimensionless": (1., (0, 0, 0)), "min": (60., T),
           "g": (1e-3, MS), "km": (1000., L), "lbf":
           (4.4482216152605, (1, -2, 1)), "m/ft": (1/0.3048, (0, 0, 0)),
           "percent": (0.01, (0, 0, 0))}
    return tab[u]


_BASE = {"m": (1., (1, 0, 0)), "s": (1., (0, 1, 0)), "g": (1e-3, (0, 0, 1)),
         "W": (1., (2, -3, 1)), "N": (1., (1, -2, 1)),
         "Pa": (1., (-1, -2, 1)), "J": (1., (2, -2, 1)),
         "ft": (0.3048, (1, 0, 0)), "inch": (0.0254, (1, 0, 0)),
         "min": (60., (0, 1, 0)), "lbf": (4.4482216152605, (1, -2, 1))}
_PRE = {"m": 1e-3, "M": 1e6, "k": 1e3, "c": 1e-2, "": 1.}


def rand_unit(r, atoms=None):
    "(text, SI factor, dimension) of a random, possibly compound unit string"
    f, d, txt = 1., (0, 0, 0), ""
    for j in range(r.choice([1, 1, 1, 2, 3])):
        b = r.choice(list(_BASE))
        pre = r.choice(list(_PRE)) if b in ("m", "s", "g", "W", "N", "Pa",
                                            "J") else ""
        if pre + b == "min" or pre + b == "cd":
            pre = ""
        n = r.choice([1, 1, 1, 2, -1, -2, 3])
        f *= (_PRE[pre]*_BASE[b][0])**n
        d = tuple(x + n*y for x, y in zip(d, _BASE[b][1]))
        atom = pre + b
        if n < 0:
            txt = (txt or "1") + "/" + atom + ("**%d" % -n if n < -1 else "")
        else:
            txt += ("*" if txt else "") + atom + ("**%d" % n if n > 1 else "")
    return txt, f, d


class Val:
    "a real number with dimension, in SI"
    def __init__(self, x, d=(0, 0, 0), mag=None):
        self.x, self.d = x, tuple(d)
        self.mag = abs(x) if mag is None else mag   # sum of |terms|

    def __repr__(self):
        return "Val(%g, %s)" % (self.x, self.d)


class DimErr(Exception):
    pass


def vadd(a, b, s=1):
    if tuple(round(i, 9) for i in a.d) != tuple(round(i, 9) for i in b.d):
        raise DimErr()
    return Val(a.x + s*b.x, a.d, a.mag + b.mag)


def vmul(a, b):
    return Val(a.x*b.x, [i+j for i, j in zip(a.d, b.d)], a.mag*b.mag)


def vpow(a, n):
    return Val(a.x**n, [i*n for i in a.d],
               max(abs(a.x**n), a.mag**n if n >= 0 else 0))


def vdiv(a, b):
    return Val(a.x/b.x, [i-j for i, j in zip(a.d, b.d)], a.mag/abs(b.x))


def unit_si(q):
    "SI factor and dimension of a pint quantity/unit, via pint itself"
    from gpkit.units import Quantity
    if q is None:
        return 1., (0, 0, 0)
    q = Quantity(1, q) if not hasattr(q, "magnitude") else q
    b = q.to_base_units()
    d = dict(b.dimensionality)
    return float(b.magnitude), (d.pop("[length]", 0), d.pop("[time]", 0),
                                d.pop("[mass]", 0)) + tuple(
        sorted(d.items()))


def num_val(x):
    "Val of a number or Quantity"
    if hasattr(x, "magnitude"):
        f, d = unit_si(1*x.units)
        return Val(float(x.magnitude)*f, d)
    return Val(float(x))


def nomial_val(p, pt):
    """value of a gpkit nomial at pt: {varkey: value in the var's own units}"""
    if not hasattr(p, "hmap"):
        return num_val(p)
    f, d = unit_si(p.hmap.units)
    tot = mag = 0.
    for exp, c in p.hmap.items():
        t = float(c)
        for vk, e in exp.items():
            t *= pt[vk.key if hasattr(vk, "key") else vk]**float(e)
        tot += t
        mag += abs(t)
    return Val(tot*f, d, mag*f)


def close(a, b, mag=0.0, tol=1e-8):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return a == b or (math.isnan(a) and math.isnan(b))
    return abs(a-b) <= tol*max(abs(a), abs(b), mag)


def same(a, b, tol=1e-8):
    da = [round(float(i), 9) for i in a.d[:3]]
    db = [round(float(i), 9) for i in b.d[:3]]
    return da == db and a.d[3:] == b.d[3:] and close(a.x, b.x,
                                                     max(a.mag, b.mag), tol)


def mkvars(c, n=3, units=UNITS, prefix="v"):
    "n fresh scalar variables"
    from gpkit import Variable
    out = []
    for i in range(n):
        u = c.rng.choice(units)
        v = Variable("%s%d" % (prefix, i), u) if u else \
            Variable("%s%d" % (prefix, i))
        v.pv_unit = u
        out.append(v)
    c.say("vars:", ", ".join("%s[%s]" % (v.key.name, v.pv_unit) for v in out))
    return out


def point(c, vs, wide=False):
    pt = {}
    for v in vs:
        k = c.rng.random()
        pt[v.key] = round(math.exp(c.rng.uniform(-1.2, 1.2)), 6) \
            if k > 0.25 else 1.0 if k > 0.1 or not wide else \
            round(10**c.rng.uniform(-3, 3), 4)
    return pt


def var_val(v, pt):
    f, d = si(v.pv_unit)
    return Val(pt[v.key]*f, d)


def expo(c):
    return c.rng.choice([1, 1, 2, -1, 0.5, 3, -2, 1.5, 0, -0.5, 0.1])


def mono(c, vs, pt, units=False, coef=None):
    "random monomial (gpkit object, oracle value, text)"
    r = c.rng
    k = coef if coef is not None else round(r.uniform(0.2, 5), 3)
    g, val, txt = k, Val(k), repr(k)
    for v in r.sample(vs, r.randint(0, len(vs))):
        e = expo(c)
        g = g*v**e
        val = vmul(val, vpow(var_val(v, pt), e))
        txt += "*%s**%r" % (v.key.name, e)
    if not hasattr(g, "hmap"):
        from gpkit import Monomial
        g = Monomial(g)
    return g, val, txt


def scale(c):
    "a power of two, mostly 1"
    return c.rng.choice([1.]*5 + [2.**-50, 2.**-44, 2.**45])


def number(c, allow_zero=True):
    r = c.rng
    k = r.randrange(8)
    if k == 0 and allow_zero:
        return 0
    if k == 1 and allow_zero:
        return 0.0
    if k == 2:
        return r.randint(1, 5)
    if k == 3:
        return np.float64(round(r.uniform(0.1, 4), 3))
    if k == 4:
        return np.int64(r.randint(1, 4))
    if k == 5:
        return 1
    return round(r.uniform(0.1, 4), 3)
