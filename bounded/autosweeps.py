"Autosweeps of log-convex costs known in closed form."
import numpy as np
from .common import driver, expect, Skip, Quiet


class FakeSol(dict):
    "a solution: cost, sensitivities and other values"
    def __call__(self, key):
        return self["values"][key]


class FakeModel:
    """log of the cost is a convex function of the log of the swept constant:
    a maximum of lines, or a parabola"""
    def __init__(self, rng, units):
        self.units = units
        self.lines = [(rng.choice([-2, -1, 0, .5, 1, 3]), rng.choice(
            [0, 0, rng.uniform(-2, 2)])) for _ in range(rng.randint(1, 3))]
        self.curve = rng.choice([0, 0, .3, 1])
        self.substitutions = {}
        self.cost = type("Cost", (), {"hmap": "hmap of the cost"})()
        self.solved = []
        self.program = type("Program", (), {"result": None})()

    def logcost(self, z):
        return max(a*z + b for a, b in self.lines) + self.curve*z**2

    def slope(self, z):
        return max((a*z + b, a) for a, b in self.lines)[1] + 2*self.curve*z

    def solve(self, **kwargs):
        x = self.substitutions["x"]
        z = np.log(x)
        cost = np.exp(self.logcost(z))
        self.solved.append(x)
        sol = FakeSol(cost=cost*self.units if self.units else cost)
        sol["sensitivities"] = {"variables": {"x": self.slope(z)}}
        sol["at"] = x
        sol["values"] = {"square": x**2, "other": 3/x + x}
        self.program.result = sol
        return sol


def near(a, b):
    return abs(a - b) <= 1e-7*max(abs(a), abs(b)) + 1e-9


def le(a, b):
    return a <= b*(1 + 1e-6) + 1e-12


@driver(("C23",), 250)
def sweeps_of_known_costs(c):
    "the tree, its solutions, and the values and bounds read from it"
    from gpkit import ureg
    from gpkit.tools.autosweep import autosweep_1d
    r = c.rng
    m = FakeModel(r, r.choice([None, None, ureg.m]))
    lo = r.choice([.1, .5, 1.])
    hi = lo*r.choice([2., 4., 10.])
    tol = r.choice([.01, .1, .5])
    before = r.choice([None, 7.])
    if before is not None:
        m.substitutions["x"] = before
    c.say("lines", m.lines, "curve", m.curve, "from", lo, "to", hi, "tol",
          tol, "units", m.units)
    with Quiet():
        bst = autosweep_1d(m, tol, "x", [lo, hi], verbosity=0)
    expect(m.substitutions == ({} if before is None else {"x": before}),
           "the model's constants are as before", m.substitutions)
    sols = bst.sollist
    xs = [s["at"] for s in sols]
    expect(xs == sorted(m.solved), "every solution once, in order", xs,
           sorted(m.solved))
    expect(bst.nsols == len(m.solved), "their number")
    expect(xs[0] == lo and xs[-1] == hi, "the ends")

    def m_(v):
        return getattr(v, "magnitude", v)
    pts = sorted(xs + [r.uniform(lo, hi) for _ in range(4)]
                 + [(a*b)**.5 for a, b in zip(xs, xs[1:])][:5])
    with Quiet():
        at = bst.sample_at(pts)
        cost, lb, ub = at("cost"), at.cost_lb(), at.cost_ub()
        square, other = at("square"), at["other"]
        cost2 = at[m.cost]
    for v in (cost, lb, ub, cost2):
        expect((getattr(v, "units", None) == getattr(1*m.units, "units", None)
                if m.units else not hasattr(v, "units")), "units", v)
    for i, x in enumerate(pts):
        true = np.exp(m.logcost(np.log(x)))
        a, b, v = m_(lb[i]), m_(ub[i]), m_(cost[i])
        expect(near(m_(cost2[i]), v), "the cost by its expression", x)
        expect(le(a, v) and le(v, b), "the estimate is between the bounds",
               x, a, v, b)
        expect(le(a, true) and le(true, b), "the cost is between the bounds",
               x, a, true, b)
        expect(np.log(b/a) <= 2*tol*(1 + 1e-6) + 1e-9,
               "the bounds are within the tolerance", x, a, b)
        if x in xs:
            k = xs.index(x)
            for name, val in (("cost", v), ("lower", a), ("upper", b)):
                expect(near(val, m_(sols[k]["cost"])),
                       "at a solved point: " + name, x, val)
            expect(near(other[i], sols[k]("other")),
                   "at a solved point: a value", x, other[i])
        expect(near(square[i], x**2), "a power law is interpolated exactly",
               x, square[i])
        k = [j for j in range(len(xs) - 1) if xs[j] <= x <= xs[j + 1]]
        expect(any(min(p, q)*(1 - 1e-7) <= other[i] <= max(p, q)*(1 + 1e-7)
                   for p, q in ((sols[j]("other"), sols[j + 1]("other"))
                                for j in k)),
               "between the solved neighbours", x, other[i])
    for x in (lo*.99, hi*1.01):
        for f in (lambda v: bst.cost_at("cost", v),
                  lambda v: bst.posy_at("square", v)):
            try:
                f(x)
            except ValueError:
                continue
            expect(False, "refused outside the interval", x)
