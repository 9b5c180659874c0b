"""Contracts of autosweeps: the tree of solved points and what is read from it
(C23)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import TObj, TSeq, ZR, ZSeq, INT, REAL, BOOL
from .contracts import ZContract, register
from .values import SBool

AS = "gpkit.tools.autosweep:"
TSol = TObj("SolutionOfSweep")
LOG, EXP = (z3.Function(n, REAL, REAL) for n in ("log", "exp"))
Cost = z3.Function("cost_of_solution", TSol.sort, REAL)
Slope = z3.Function("sensitivity_in_solution", TSol.sort, REAL)
Asked = TObj("AskedOfSweep")
Val = z3.Function("value_in_solution", TSol.sort, Asked.sort, REAL)


class Sym:
    "an object of which the code uses only what is defined here"
    pv_symbolic = True


def yes(f):
    return bool(SBool(f))


def num(x):
    t = zv.num_term(x)
    if t is None:
        raise Unsupported("a number was expected, got %r" % (x,))
    return zv.toreal(t)


class Quantity(Sym):
    "a number in its unit"
    def __init__(self, t, units="units of the cost"):
        self.magnitude, self.units = ZR(t), units


class Np:
    "numpy's log and exp, of numbers"
    def __init__(self):
        self.logged = []

    def log(self, x):
        if isinstance(x, (list, tuple)):
            return [self.log(v) for v in x]
        src = None if isinstance(x, zv.ZNum) else zv.idx_source(x)
        if src is not None:
            n = z3.simplify(src.n)
            if not z3.is_int_value(n):
                raise Unsupported("log of a list of unknown length")
            return [self.log(src.at(z3.IntVal(i)))
                    for i in range(n.as_long())]
        if isinstance(x, Quantity):
            raise Unsupported("log of a quantity")
        e, t = E.eng(), num(x)
        e.oblige_z("log is taken of positive numbers", t > 0)
        for s in self.logged:
            e.add((s < t) == (LOG(s) < LOG(t)))
            e.add((s == t) == (LOG(s) == LOG(t)))
        self.logged.append(t)
        return ZR(LOG(t))

    def exp(self, x):
        e, t = E.eng(), num(x)
        e.add(z3.And(LOG(EXP(t)) == t, EXP(t) > 0))
        return ZR(EXP(t))

    def array(self, x):
        return x

    def __getattr__(self, name):
        raise Unsupported("numpy's %s" % name)


class Sol(Sym):
    def __init__(self, t, units=False):
        self.t, self.units = t, units

    def number(self, t):
        E.eng().add(t > 0)
        return Quantity(t) if self.units else ZR(t)

    def __getitem__(self, k):
        if k == "cost":
            return self.number(Cost(self.t))
        if k == "sensitivities":
            return {"variables": Sens(self.t)}
        raise Unsupported("%r of a solution" % (k,))

    def __call__(self, posy):
        return self.number(Val(self.t, Asked.unwrap(posy)))


class Sens(Sym):
    def __init__(self, t):
        self.t = t

    def __getitem__(self, var):
        E.eng().oblige("the sensitivity is that of the variable swept",
                       var == "swept", backend="structural")
        return ZR(Slope(self.t))


class Tree(Sym):
    "a tree (or subtree) with the attributes given"
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("%s of this tree" % name)


def np_setup(self):
    import gpkit.tools.autosweep as A
    old = A.np
    self.np = A.np = Np()

    def undo():
        A.np = old
    return undo


class InTree(ZContract):
    "the tree is over an interval of positive numbers"
    props = ("C23",)
    loops = {}

    def applies(self, *a, **kw):
        return False

    def allow_mut(self, args):
        return []

    def interval(self, e, name="b"):
        lo, hi = list(e.fresh(name + x, REAL) for x in ("lo", "hi"))
        e.add(z3.And(0 < lo, lo < hi))
        return lo, hi

    def setup(self, e):
        return np_setup(self)


@register
class MinBst(InTree):
    """the smallest tree around a value is one of its leaves, and the value is
    within that leaf (by induction over the tree)"""
    name = AS + "BinarySweepTree.min_bst"

    def cases(self, e):
        self.lo, self.hi = self.interval(e)
        self.v = e.fresh("value", REAL)
        e.add(z3.And(self.lo <= self.v, self.v <= self.hi))
        self.leaf = None
        if e.choose(2, "it was split"):
            s = e.fresh("splitval", REAL)
            e.add(z3.And(self.lo < s, s < self.hi))
            self.tree = Tree(splits=[self.child(e, self.lo, s),
                                     self.child(e, s, self.hi)],
                             splitval=ZR(s), bounds=[ZR(self.lo),
                                                     ZR(self.hi)])
        else:
            s = e.fresh("splitval", REAL)
            self.tree = Tree(splits=None, splitval=ZR(s), bounds=[
                ZR(self.lo), ZR(self.hi)])
        self.tree.min_bst = lambda v: self.invoke_on(v)
        return (self.tree, ZR(self.v)), {}

    def child(self, e, lo, hi):
        child = Tree(bounds=[ZR(lo), ZR(hi)])

        def min_bst(value):
            v = num(value)
            e.oblige_z("the subtree asked is around the value", z3.And(
                lo <= v, v <= hi))
            a, b = list(e.fresh(x, REAL) for x in ("leaf_lo", "leaf_hi"))
            e.add(z3.And(a <= v, v <= b, lo <= a, b <= hi))
            self.leaf = Tree(bounds=[ZR(a), ZR(b)], splits=None)
            return self.leaf
        child.min_bst = min_bst
        return child

    def invoke_on(self, v):
        raise Unsupported("min_bst of the same tree again")

    def ensures(self, old, r, *a):
        if r is self.tree:
            return [("ok", "what is returned has no subtrees",
                     self.tree.splits is None)]
        return [("ok", "a leaf of a subtree is returned",
                 self.leaf is not None and r is self.leaf)]


class Interpolated(InTree):
    def leaf(self, e, units):
        lo, hi = self.lo, self.hi = self.interval(e)
        v = self.v = e.fresh("value", REAL)
        self.s0, self.s1 = list(e.fresh(x, TSol.sort) for x in ("s0", "s1"))
        self.found = Tree(bounds=[ZR(lo), ZR(hi)],
                          sols=[Sol(self.s0, units), Sol(self.s1, units)],
                          splits=None, splitval=None, splitlb=None,
                          splitub=None)
        # the tree asked is around that leaf
        L, H = self.L, self.H = list(e.fresh(x, REAL) for x in "LH")
        e.add(z3.And(0 < L, L <= lo, hi <= H))

        def min_bst(value):
            e.oblige_z("the value looked for is the one asked", num(value)
                       == v)
            e.oblige_z("it is within the tree", z3.And(L <= v, v <= H))
            e.add(z3.And(lo <= v, v <= hi))
            return self.found
        self.tree = Tree(bounds=[ZR(L), ZR(H)], min_bst=min_bst)

    def raises(self, *a, **kw):
        return [(ValueError, SBool(z3.Or(self.v < self.L,
                                         self.v > self.H)), True)]

    def line(self, e, r, pts):
        "log r is on the broken line through pts, at log v"
        x = LOG(self.v)
        out = []
        for k, ((x0, y0), (x1, y1)) in enumerate(zip(pts, pts[1:])):
            on = z3.And(x0 <= self.v, self.v <= x1)
            a, b, ya, yb = LOG(x0), LOG(x1), y0, y1
            out.append(("z", "on the line between its ends, in logarithms"
                        " (%d)" % k, z3.Implies(on, (LOG(num(r)) - ya)*(b - a)
                                                == (yb - ya)*(x - a))))
            out.append(("z", "between the values at the ends (%d)" % k,
                        z3.Implies(on, z3.And(
                            z3.Or(LOG(num(r)) >= ya, LOG(num(r)) >= yb),
                            z3.Or(LOG(num(r)) <= ya, LOG(num(r)) <= yb)))))
            out.append(("z", "at an end it is the value there (%d)" % k,
                        z3.And(z3.Implies(self.v == x0, LOG(num(r)) == ya),
                               z3.Implies(self.v == x1, LOG(num(r)) == yb))))
        return out


@register
class PosyAt(Interpolated):
    """between two neighbouring solved points, a value is interpolated on a
    line in logarithms; at a solved point it is the solution's"""
    name = AS + "BinarySweepTree.posy_at"

    def cases(self, e):
        self.leaf(e, bool(e.choose(2, "values have units")))
        self.q = e.fresh("asked", Asked.sort)
        return (self.tree, Asked.wrap(self.q), ZR(self.v)), {}

    def ensures(self, old, r, *a):
        return self.line(E.eng(), r, [
            (self.lo, LOG(Val(self.s0, self.q))),
            (self.hi, LOG(Val(self.s1, self.q)))])


@register
class CostAt(Interpolated):
    """the cost and its bounds are on lines through the solved costs and the
    bounds found where a split would be; so the estimate is between the
    bounds"""
    name = AS + "BinarySweepTree.cost_at"

    def cases(self, e):
        self.leaf(e, bool(e.choose(2, "costs have units")))
        self.split = bool(e.choose(2, "bounds were found"))
        self.bound = (None, "lb", "ub")[e.choose(3, "bound asked")]
        if self.split:
            x, lb, ub = self.x, self.lb, self.ub = list(
                e.fresh(n, REAL) for n in ("splitval", "splitlb", "splitub"))
            e.add(z3.And(self.lo < x, x < self.hi, lb <= ub))
            self.found.splitval = ZR(x)
            self.found.splitlb, self.found.splitub = ZR(lb), ZR(ub)
        a = (self.tree, "cost", ZR(self.v))
        return (a, {}) if self.bound is None else (
            (a, {"bound": self.bound}) if e.choose(2, "by name")
            else (a + (self.bound,), {}))

    def ensures(self, old, r, *a, **kw):
        ends = [(self.lo, LOG(Cost(self.s0))), (self.hi, LOG(Cost(self.s1)))]
        if self.split:
            y = {"lb": self.lb, "ub": self.ub, None: (self.lb + self.ub)/2}
            ends.insert(1, (self.x, y[self.bound]))
        return self.line(E.eng(), r, ends)


@register
class GetTol(InTree):
    """for a log-convex cost, the bounds hold at the point chosen, which is
    within the interval, and the upper bound is on the line between the ends;
    straight lines are split in the middle"""
    name = AS + "get_tol"
    assumes = ["get_tol: the bounds are only claimed where the tangents at the"
               " ends cross well inside the interval"]

    def cases(self, e):
        lo, hi = self.lo, self.hi = self.interval(e)
        self.y0, self.y1 = list(e.fresh(x, REAL) for x in ("y0", "y1"))
        self.s0, self.s1 = list(e.fresh(x, TSol.sort) for x in ("s0", "s1"))
        return ([ZR(self.y0), ZR(self.y1)], [ZR(lo), ZR(hi)],
                [Sol(self.s0), Sol(self.s1)], "swept"), {}

    def ensures(self, old, r, *a):
        x, lb, ub = (num(v) for v in r)
        m0, m1 = Slope(self.s0), Slope(self.s1)
        x0, x1, lx = LOG(self.lo), LOG(self.hi), LOG(x)
        y0, y1 = self.y0, self.y1
        c = z3.Real("crossing")
        inside = z3.And(m0 != m1, (m0 - m1)*c == y1 - y0 + x0*m0 - x1*m1,
                        (x1 - c) >= 1e-7*(x1 - x0),
                        (x1 - c) <= (1 - z3.RealVal("1e-7"))*(x1 - x0))
        inside = z3.substitute(inside, (z3.RealVal(1e-7),
                                        z3.RealVal("1e-7")))
        return [
            ("z", "the point is within the interval",
             z3.And(x0 < lx, lx < x1)),
            ("z", "it is where the tangents at the ends cross",
             z3.Implies(inside, lx == c)),
            ("z", "the lower bound is on both tangents", z3.Implies(
                inside, z3.And(lb == y0 + m0*(lx - x0),
                               lb == y1 + m1*(lx - x1)))),
            ("z", "the upper bound is on the line between the ends",
             z3.Implies(inside, (ub - y0)*(x1 - x0)
                        == (y1 - y0)*(lx - x0))),
            ("z", "straight lines are split in the middle", z3.Implies(
                z3.Or(m0 == m1, z3.And((m0 - m1)*c == y1 - y0 + x0*m0
                                       - x1*m1, z3.Or(c <= x0, c >= x1))),
                z3.And(lx == (x0 + x1)/2, lb == (y0 + y1)/2, ub == lb)))]


@register
class Splits(InTree):
    """splitting makes two trees that meet at the split and share its
    solution; it is refused outside the interval"""
    name = AS + "BinarySweepTree.add_split"

    def cases(self, e):
        import gpkit.tools.autosweep as A
        self.lo, self.hi = self.interval(e)
        self.s, self.t = e.fresh("splitval", REAL), e.fresh("before", REAL)
        self.was = bool(e.choose(2, "split before"))
        e.add(z3.And(self.lo < self.t, self.t < self.hi))
        self.sols = [Sol(e.fresh(x, TSol.sort)) for x in ("s0", "s1", "s")]
        tree = object.__new__(A.BinarySweepTree)
        tree.__dict__.update(
            bounds=[ZR(self.lo), ZR(self.hi)], sols=self.sols[:2],
            splits=None, splitval=ZR(self.t) if self.was else None,
            splitlb=None, splitub=None, sweptvar="swept", costposy="cost")
        self.tree = tree
        self.old = dict(tree.__dict__)
        return (tree, ZR(self.s), self.sols[2]), {}

    def raises(self, *a, **kw):
        return [(ValueError, SBool(z3.Or(z3.BoolVal(self.was), self.s
                                         <= self.lo, self.s >= self.hi)),
                 True)]

    def side(self, name, t, lo, hi, s0, s1):
        ok = (isinstance(t, type(self.tree)) and len(t.sols) == 2
              and t.sols[0] is s0 and t.sols[1] is s1)
        return [("ok", name + " is between its two solutions", ok),
                ("ok", name + " is of the same variable and cost",
                 ok and t.sweptvar == "swept" and t.costposy == "cost"),
                ("ok", name + " is not split yet",
                 ok and t.splits is None and t.splitval is None
                 and t.splitlb is None and t.splitub is None),
                ("z", name + " has the bounds of its part", z3.And(
                    num(t.bounds[0]) == lo, num(t.bounds[1]) == hi)),
                ("z", name + " has the logarithms of its costs", z3.And(
                    num(t.costs[0]) == LOG(Cost(s0.t)),
                    num(t.costs[1]) == LOG(Cost(s1.t))))]

    def ensures(self, old, r, tree, *a):
        s0, s1, s = self.sols
        out = [("ok", "there are two parts", len(tree.splits) == 2),
               ("z", "the split is where it was asked",
                num(tree.splitval) == self.s),
               ("ok", "the rest of the tree is as it was", all(
                   tree.__dict__.get(k) is v for k, v in self.old.items()
                   if k not in ("splits", "splitval", "splitlb", "splitub"))
                and tree.splitlb is None and tree.splitub is None)]
        if len(tree.splits) == 2:
            out += self.side("the left part", tree.splits[0], self.lo,
                             self.s, s0, s)
            out += self.side("the right part", tree.splits[1], self.s,
                             self.hi, s, s1)
        return out


@register
class SplitCosts(Splits):
    "the bounds found are kept with the point they are for"
    name = AS + "BinarySweepTree.add_splitcost"

    def cases(self, e):
        (tree, s, _), _ = Splits.cases(self, e)
        self.b = [e.fresh(x, REAL) for x in ("lb", "ub")]
        return (tree, s, ZR(self.b[0]), ZR(self.b[1])), {}

    def ensures(self, old, r, tree, *a):
        return [("z", "the point and both bounds are kept", z3.And(
            num(tree.splitval) == self.s, num(tree.splitlb) == self.b[0],
            num(tree.splitub) == self.b[1])),
                ("ok", "the rest of the tree is as it was", all(
                    tree.__dict__.get(k) is v for k, v in self.old.items()
                    if k not in ("splitval", "splitlb", "splitub")))]


At = z3.Function("solution_listed", INT, INT, TSol.sort)
N = z3.Function("solutions_listed", INT, INT)
TSols = TSeq(TSol)


@register
class SolList(InTree):
    """the solutions are listed in order, each once: those of the left part,
    then those of the right part but for the one at the split (by induction
    over the tree)"""
    name = AS + "BinarySweepTree.sollist"

    def cases(self, e):
        e.ghost["lists"] = TSols
        self.s = [e.fresh(x, TSol.sort) for x in ("s0", "s", "s1")]
        self.split = bool(e.choose(2, "it was split"))
        s0, s, s1 = self.s
        self.parts = []
        tree = Tree(sols=[TSol.wrap(s0), TSol.wrap(s1)], splits=None)
        if self.split:
            for i, (a, b) in enumerate(((s0, s), (s, s1))):
                lst = TSols.new("part%d" % i)
                e.add(z3.And(lst.n >= 2, lst.arr[0] == a,
                             lst.arr[lst.n - 1] == b))
                self.parts.append((lst.n, lst.arr))
                self.parts[-1] += (Tree(sollist=lst, sols=[
                    TSol.wrap(a), TSol.wrap(b)]),)
            tree.splits = [p[2] for p in self.parts]
        return (tree,), {}

    def ensures(self, old, r, *a):
        i = z3.Int("position")
        s0, _, s1 = self.s
        if not isinstance(r, ZSeq):
            t = TSols.unwrap(list(r))
            r = TSols.wrap(t)
        n, arr = r.n, r.arr
        if not self.split:
            return [("z", "the two solutions", z3.And(
                n == 2, arr[0] == s0, arr[1] == s1))]
        (na, a, _), (nb, b, _) = self.parts
        return [("z", "as many as the parts have, but for one",
                 n == na + nb - 1),
                ("z", "first those of the left part", z3.Implies(
                    z3.And(0 <= i, i < na), arr[i] == a[i])),
                ("z", "then the others of the right part", z3.Implies(
                    z3.And(1 <= i, i < nb), arr[na - 1 + i] == b[i])),
                ("z", "the first and the last are the tree's own", z3.And(
                    arr[0] == s0, arr[n - 1] == s1))]


@register
class Recurse(InTree):
    """a tree is split, and both parts in turn, at the point found for it and
    with the solution there, unless its bounds are within the tolerance; then
    the bounds are kept (by induction over the tree)"""
    name = AS + "recurse_splits"
    props = ("C23",)

    def cases(self, e):
        self.x, self.lb, self.ub, self.tol = list(e.fresh(n, REAL) for n in (
            "x", "lb", "ub", "logtol"))
        self.calls, self.tols = [], []
        self.solved = self.counted = 0
        self.sub = None
        self.result = Sym()
        self.opts = {"verbosity": 3}
        parts = [Tree(name="left"), Tree(name="right")]
        tree = self.tree = Tree(costs=object(), bounds=object(),
                                sols=object(), splits=None, tol=None)
        self.parts = parts

        def add_split(x, sol):
            self.calls.append(("split", x, sol))
            tree.splits = list(parts)

        def add_splitcost(x, lb, ub):
            self.calls.append(("bounds", x, lb, ub))
        tree.add_split, tree.add_splitcost = add_split, add_splitcost
        model = self.model = Sym()
        me = self

        class Program(Sym):
            @property
            def result(_):
                e.oblige("the solution is that of this point", me.solved == 1
                         and me.sub is not None, backend="structural")
                return me.result

        class Subs(Sym):
            def update(_, d):
                if not isinstance(d, dict) or list(d) != ["swept"]:
                    raise Unsupported("substitutions %r" % (d,))
                me.sub = num(d["swept"])

            def __setitem__(_, k, v):
                if k != "swept":
                    raise Unsupported("substituting %r" % (k,))
                me.sub = num(v)

        def solve(**kw):
            e.oblige("the model is solved as asked", kw == self.opts,
                     backend="structural")
            if me.sub is None:
                e.oblige("the point was substituted before solving", False,
                         backend="structural")
            e.oblige_z("it is solved at the point found", me.sub == me.x)
            me.solved += 1
            return me.result
        model.solve, model.program = solve, Program()
        model.substitutions = Subs()

        def sols():
            self.counted += 1
        self.sols = sols
        return (model, tree, "swept", ZR(self.tol), self.opts, sols), {}

    def invoke(self, *a):
        E.eng().top_calls += 1
        return self.real(*a)

    def setup(self, e):
        import gpkit.tools.autosweep as A
        old = {k: A.__dict__[k] for k in ("get_tol", "recurse_splits", "np")}

        def get_tol(costs, bounds, sols, variable):
            e.oblige("the bounds are those of this tree",
                     costs is self.tree.costs and bounds is self.tree.bounds
                     and sols is self.tree.sols and variable == "swept",
                     backend="structural")
            return ZR(self.x), ZR(self.lb), ZR(self.ub)

        def recurse(model, bst, variable, logtol, solvekwargs, sols):
            e.oblige("the parts are split with the same settings",
                     model is self.model and variable == "swept"
                     and solvekwargs == self.opts and sols is self.sols,
                     backend="structural")
            e.oblige_z("and to the same tolerance", num(logtol) == self.tol)
            t = e.fresh("tol", REAL)
            e.add(t < self.tol)
            self.calls.append(("part", bst))
            self.tols.append(t)
            return ZR(t)
        A.get_tol, A.recurse_splits = get_tol, recurse
        A.np = Np()

        def undo():
            A.__dict__.update(old)
        return undo

    def ensures(self, old, r, *a):
        half = (self.ub - self.lb)/2
        what = [c[0] for c in self.calls]
        out = [("z", "the tolerance reported is within the one asked",
                num(r) < self.tol)]
        if "split" in what:
            _, x, sol = self.calls[0]
            out += [
                ("z", "it is split only where the bounds are not within the"
                 " tolerance", half >= self.tol),
                ("ok", "once, then both of its parts", what == [
                    "split", "part", "part"] and {id(c[1]) for c in
                                                  self.calls[1:]}
                 == {id(p) for p in self.parts}),
                ("z", "at the point found", num(x) == self.x),
                ("ok", "with the solution there", sol is self.result),
                ("ok", "which is counted", self.counted == 1),
                ("z", "the tolerance reported is that of the worst part",
                 z3.And(*[num(r) >= t for t in self.tols]
                        + [z3.Or(*[num(r) == t for t in self.tols])]))]
        else:
            ok = what == ["bounds"]
            out += [
                ("ok", "or its bounds are kept, without solving", ok
                 and not self.solved and not self.counted),
                ("z", "the bounds found", z3.And(*[
                    num(u) == w for u, w in zip(self.calls[0][1:], (
                        self.x, self.lb, self.ub))]) if ok
                 else z3.BoolVal(False)),
                ("z", "if they are within the tolerance", z3.And(
                    half < self.tol, num(r) == half))]
        return out
