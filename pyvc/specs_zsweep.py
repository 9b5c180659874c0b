"""Contracts of sweeps: one solve for each point, and the model as it was
(C18)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import (TObj, TMap, TSeq, ZMap, ZObj, ZSeq, ZI, ZNum, INT, BOOL)
from .contracts import ZContract, register
from .values import SBool

PF = "gpkit.constraints.prog_factories:"


def yes(f):
    return bool(SBool(f))


class Sym:
    "an object of which the code uses only what is defined here"
    pv_symbolic = True


# ------------------------------------------------------- sweeping a grid
TVk = TObj("SweptKeyT")
TSwp = TObj("SweptValuesT")       # the values swept for one variable
TGrid = TObj("GridT")             # those values, over all points
TVal = TObj("ConstantT")
TProg = TObj("ProgramT")
TRes = TObj("ResultT")
Grid = z3.Function("over_the_grid", TSwp.sort, TGrid.sort)
At = z3.Function("at_point", TGrid.sort, INT, TVal.sort)
Str = TObj("EqStrT")
EqStr = z3.Function("eqstr_of", TVk.sort, Str.sort)
TVk.attrs["eqstr"] = lambda k: Str.wrap(EqStr(k.t))
Prog, Res = (z3.Function(n, INT, T_.sort) for n, T_ in (
    ("program_of_point", TProg), ("result_of_point", TRes)))
Failed = z3.Function("fails_at_point", INT, BOOL)
Before = z3.Function("solved_before", INT, INT)

TEl = TObj("ListedT")
TLst = TObj("ListT")
El = z3.Function("listed_at", TLst.sort, INT, TEl.sort)
ElLen = z3.Function("listed_len", TLst.sort, INT)
IsArr = z3.Function("is_array", TEl.sort, BOOL)
Differ = z3.Function("differ", TEl.sort, TEl.sort, BOOL)
Single = z3.Function("list_of", TEl.sort, TLst.sort)
M = TMap(TVk, TVal)
MS = TMap(TVk, TSwp)
ML = TMap(TVk, TLst)


class Elementwise(Sym):
    def __init__(self, c):
        self.c = c

    def any(self):
        return SBool(self.c)

    def __bool__(self):
        raise ValueError("the truth value of an array")


class ZEl(ZObj):
    def __ne__(self, o):
        d = Differ(self.t, TEl.unwrap(o))
        return Elementwise(d) if yes(IsArr(o.t)) else SBool(d)


class _TEl(TObj):
    def wrap(self, t):
        return ZEl(self, t)


TEl.__class__ = _TEl
TEl.attrs["shape"] = lambda v: "shape" if yes(IsArr(v.t)) else absent()


def absent():
    raise AttributeError("shape")


class _TLst(TObj):
    def unwrap(self, v):
        if type(v) is list and len(v) == 1 and isinstance(v[0], ZEl):
            return Single(v[0].t)
        return TObj.unwrap(self, v)


TLst.__class__ = _TLst


def item_of(v):
    def g(i):
        if isinstance(i, slice):
            n = ElLen(v.t)
            lo, hi = (d if x is None else zv.num_term(x) for x, d in (
                (i.start, z3.IntVal(0)), (i.stop, n)))
            if i.step is None:
                lo, hi = (z3.If(x >= n, n, z3.If(x >= 0, x, z3.If(
                    n + x >= 0, n + x, 0))) for x in (lo, hi))
                return zv.IdxSource(z3.simplify(z3.If(hi >= lo, hi - lo, 0)),
                                    lambda j: TEl.wrap(El(v.t, z3.simplify(
                                        lo + j))))
            raise Unsupported("a slice of values")
        return TEl.wrap(El(v.t, zv.num_term(i)))
    return g


TLst.attrs["__getitem__"] = item_of


def const(m, k):
    return z3.Select(M.vals(m.term), k)


def has(m, k):
    if m.T is None:
        return z3.BoolVal(False)
    return z3.Select(m.T.dom(m.term), k)


class Vec(ZObj):
    pass


TGrid.attrs["__getitem__"] = lambda g: lambda i: TVal.wrap(
    At(g.t, zv.num_term(i)))


class Grids(Sym):
    "what numpy makes of the values of all variables: one array for each"
    pv_z = True

    def __init__(self, src, points):
        self.src, self.points = src, points

    def pv_zsource(self):
        return zv.IdxSource(self.src.n, lambda i: GridArr(Grid(
            TSwp.unwrap(self.src.at(i))), self.points))

    def __getitem__(self, i):
        t = zv.num_term(i)
        E.eng().oblige_z("one of the variables", z3.And(
            t >= 0, t < self.src.n))
        return GridArr(Grid(TSwp.unwrap(self.src.at(t))), self.points)


class GridArr(Sym):
    def __init__(self, t, points):
        self.t, self.size = t, ZI(points)

    def reshape(self, n):
        E.eng().oblige_z("all points in a row", zv.num_term(n)
                         == self.size.t)
        return TGrid.wrap(self.t)
    ravel = flatten = lambda self: TGrid.wrap(self.t)


class Np:
    def __init__(self, points):
        self.points = points

    def array(self, x):
        src = zv.idx_source(x)
        if src is None:
            raise Unsupported("an array of %r" % (x,))
        E.eng().oblige_z("the values themselves are the points of one"
                         " variable only", src.n == 1)
        return Grids(src, self.points)

    def meshgrid(self, *a, **kw):
        from . import rt
        if kw or len(a) != 1 or type(a[0]) is not rt.Star:
            raise Unsupported("a grid of %r" % (a,))
        return Grids(a[0].src, self.points)

    def __getattr__(self, name):
        raise Unsupported("numpy's %s" % name)


class Solution(Sym):
    "the swept solution: the results held, and the entries adjusted after"
    def __init__(self, held, constants):
        self.held, self.entries = held, {"constants": constants}
        self.processed = None

    def append(self, res):
        self.held.append(res)

    def __bool__(self):
        return yes(self.held.n > 0)

    def __getitem__(self, k):
        return self.entries[k]

    def __setitem__(self, k, v):
        self.entries[k] = v


class Model(Sym):
    pass


@register
class RunSweep(ZContract):
    """every point of the grid is solved once, in order, with the constants of
    that point; failing points raise, or are skipped if so asked; values that
    are swept are set apart and others held once"""
    name = PF + "run_sweep"
    props = ("C18",)
    assumes = ["run_sweep: numpy's meshgrid lists every combination of its"
               " arguments once; dictionaries keyed by variables behave as"
               " dictionaries (C15); evaluating linked variables changes"
               " nothing but their own constants"]
    loops = {}

    def applies(self, *a, **kw):
        return False

    def allow_mut(self, args):
        return self.changes

    def cases(self, e):
        from gpkit.exceptions import Infeasible
        e.ghost["tuples"] = (zv.TTup("SweepItem", TVk, TSwp),
                             zv.TTup("SweptCol", TVk, TGrid),
                             zv.TTup("ConstantsItem", TVk, TLst))
        self.swterm = MS.fresh("sweep")
        self.sweep = zv.ordered_map(MS, self.swterm)
        self.k0 = e.fresh("k0", TVk.sort)
        self.p0 = e.fresh("p0", INT)
        self.N = e.fresh("points", INT)
        e.add(self.N >= 1)
        e.add(self.sweep.order[0] >= 1)
        e.add(Before(z3.IntVal(0)) == 0)
        self.c0 = M.fresh("constants")
        constants = ZMap(M, self.c0)
        self.lin0 = None
        self.linked = ()
        if e.choose(2, "linked variables"):
            self.linked = ZMap(MLink, MLink.fresh("linked"))
            self.lin0 = self.linked.term
            e.add(has(self.linked, e.fresh("l", TVk.sort)))
        self.skip = z3.Const("skip", BOOL)
        self.lists0 = ML.fresh("lists")
        held = ZSeq(TSeq(TRes), TSeq(TRes).empty)
        self.sol = Solution(held, ZMap(ML, self.lists0))
        self.process = (None, True, False)[e.choose(3, "process_result")]
        self.args = {"tol": "given"}
        if self.process is not None:
            self.args["process_result"] = self.process
        self.solver = Sym()
        self.model = Model()
        self.cur, self.links = None, None
        self.evaluated = self.solved = self.processed = None
        self.verb = e.fresh("verbosity", INT)

        def process_result(res):
            e.oblige("the result just found is processed",
                     self.solved is res, backend="structural")
            self.processed = res
        self.model.process_result = process_result
        self.changes = [constants, held, self.sol.entries["constants"]]
        self.infeasible = Infeasible
        # the real function appends by way of DictOfLists.append
        self.raised = False
        return (self.generate, self.model, self.sol, SBool(self.skip),
                constants, self.sweep, self.linked, self.solver,
                ZI(self.verb)), dict(self.args)

    def setup(self, e):
        import gpkit.constraints.prog_factories as P
        old = {k: P.__dict__[k] for k in ("np", "KeyDict", "evaluate_linked",
                                          "time")}

        class Lazy:
            def __getattr__(_, name):
                return getattr(Np(self.N), name)

        def key_dict(*a):
            if not a:
                m = ZMap(ML, ML.empty)
                self.changes.append(m)
                e.frame_allowed.add(m._pv_serial)
                return m
            return a[0].copy()
        P.np, P.KeyDict, P.evaluate_linked = Lazy(), key_dict, self.link
        P.time = lambda: 0.0

        def undo():
            P.__dict__.update(old)
        return undo

    # -- what is called at each point
    def point(self, k):
        "(there, value) of the constant k at the present point"
        g = Grid(z3.Select(MS.vals(self.swterm), k))
        swept = z3.Select(MS.dom(self.swterm), k)
        return (z3.Or(swept, z3.Select(M.dom(self.c0), k)), z3.If(
            swept, At(g, self.cur), z3.Select(M.vals(self.c0), k)))

    def unlinked(self, k):
        return z3.BoolVal(True) if self.lin0 is None else z3.Not(
            z3.Select(MLink.dom(self.lin0), k))

    def as_point(self, e, constants, when):
        k = self.k0
        there, val = self.point(k)
        e.oblige_z("%s:the constants are those of the point" % when,
                   z3.Implies(self.unlinked(k), z3.And(
                       has(constants, k) == there, z3.Implies(
                           there, const(constants, k) == val))))

    def link(self, constants, linked):
        e = E.eng()
        if self.cur is None:
            raise Unsupported("linked variables outside the loop")
        e.oblige("linked variables are evaluated from the constants",
                 linked is self.linked and constants is self.constants(),
                 backend="structural")
        self.as_point(e, constants, "evaluating linked variables")
        f = e.fresh("evaluated", z3.ArraySort(TVk.sort, TVal.sort))
        old = constants.term
        lin = MLink.dom(self.lin0)
        constants.put(M.mk(
            zv.defarr(TVk.sort, lambda k: z3.Or(
                z3.Select(lin, k), z3.Select(M.dom(old), k))),
            zv.defarr(TVk.sort, lambda k: z3.If(
                z3.Select(lin, k), f[k], z3.Select(M.vals(old), k)))))
        self.evaluated = (self.cur, f)

    def constants(self):
        return self.changes[0]

    def generate(self, model, constants):
        e = E.eng()
        if self.cur is None:
            raise Unsupported("a program is made outside the loop")
        e.oblige("a program of this model", model is self.model,
                 backend="structural")
        self.as_point(e, constants, "making the program")
        if self.lin0 is not None:
            ok = self.evaluated is not None and self.evaluated[0] is self.cur
            e.oblige("linked variables are evaluated at each point", ok,
                     backend="structural")
            if ok:
                k = self.k0
                e.oblige_z("the program has the linked values", z3.Implies(
                    z3.Not(self.unlinked(k)), z3.And(
                        has(constants, k), const(constants, k)
                        == self.evaluated[1][k])))
        cur = self.cur
        self.made = cur

        def solve(solver, verbosity=None, **kw):
            e.oblige("the solver and its arguments are passed on",
                     solver is self.solver and kw == self.args,
                     backend="structural")
            if yes(Failed(cur)):
                self.raised = True
                raise self.infeasible("at this point")
            self.solved = TRes.wrap(Res(cur))
            return self.solved
        return TProg.wrap(Prog(cur)), solve

    # -- loops
    def passes(self, L):
        e = E.eng()
        self.cur = i = L.i
        held, progs = self.sol.held, self.model.__dict__.get("program")
        if not isinstance(progs, ZSeq):
            raise Unsupported("the programs are not listed")
        e.add(Before(i + 1) == Before(i) + z3.If(Failed(i), 0, 1))
        self.solved = self.evaluated = None
        S, P, p = TSeq(TRes), TSeq(TProg), self.p0
        ks, c = self.k0, L.loc["constants"]
        g = Grid(z3.Select(MS.vals(self.swterm), ks))
        swept = z3.Select(MS.dom(self.swterm), ks)
        there0 = z3.Select(M.dom(self.c0), ks)
        done = z3.And(0 <= p, p < i)
        out = [
            ("every solved point so far is held", held.n == Before(i)),
            ("in order", z3.Implies(z3.And(done, z3.Not(Failed(p))), z3.And(
                0 <= Before(p), Before(p) < Before(i),
                z3.Select(S.arr(held.term), Before(p)) == Res(p)))),
            ("a count", Before(i) >= 0),
            ("none failed unless skipped", z3.Implies(z3.And(
                done, Failed(p)), self.skip)),
            ("other constants stay", z3.Implies(z3.And(
                z3.Not(swept), self.unlinked(ks)), z3.And(
                    has(c, ks) == there0, z3.Implies(
                        there0, const(c, ks)
                        == z3.Select(M.vals(self.c0), ks)))))]
        if progs.T is None:
            out.append(("every program is kept", i == 0))
        else:
            out += [("every program is kept", progs.n == i),
                    ("and in order", z3.Implies(done, z3.Select(
                        P.arr(progs.term), p) == Prog(p)))]
        return out

    loops = {"run_sweep#1": passes}

    def settled(self, k):
        "what becomes of the values under k"
        v0 = z3.Select(ML.vals(self.lists0), k)
        in0 = z3.Select(ML.dom(self.lists0), k)
        swept = z3.Select(MS.dom(self.swterm), k)
        j = z3.FreshConst(INT, "j")
        varies = z3.Exists([j], z3.And(0 <= j, j < ElLen(v0) - 1, Differ(
            El(v0, j + 1), El(v0, z3.IntVal(0)))))
        once = z3.Not(varies) if self.lin0 is not None else z3.BoolVal(True)
        first = Single(El(v0, z3.IntVal(0)))
        c = self.sol.entries["constants"]
        w = self.sol.entries.get("sweepvariables")
        if not isinstance(w, ZMap):
            raise Unsupported("swept variables are not set apart")
        return z3.And(
            has(w, k) == z3.And(in0, swept),
            z3.Implies(has(w, k), z3.Select(ML.vals(w.term), k) == v0),
            has(c, k) == z3.And(in0, z3.Not(swept)),
            z3.Implies(has(c, k), z3.Select(ML.vals(c.term), k) == z3.If(
                once, first, v0)))

    def unsettled(self, k):
        c = self.sol.entries["constants"]
        w = self.sol.entries["sweepvariables"]
        return z3.And(z3.Not(has(w, k)), has(c, k) == z3.Select(ML.dom(
            self.lists0), k), z3.Select(ML.vals(c.term), k)
            == z3.Select(ML.vals(self.lists0), k))

    def entries(self, L):
        if L.src.order is None:
            raise Unsupported("entries in no known order")
        _, pos, dom, _ = L.src.order
        k, q = self.k0, z3.Const("q_key", TVk.sort)
        c = self.sol.entries["constants"]
        return [("the entries so far", z3.If(
                    z3.And(dom[k], pos(k) < L.i), self.settled(k),
                    self.unsettled(k))),
                ("entries to come", z3.ForAll([q], z3.Implies(z3.And(
                    dom[q], pos(q) >= L.i), has(c, q))))]

    loops["run_sweep#2"] = entries

    def raises(self, old, *a, **kw):
        n = self.cur if self.raised else z3.IntVal(-1)
        return [(RuntimeWarning, SBool(z3.Or(
                    z3.And(0 <= n, n < self.N, Failed(n),
                           z3.Not(self.skip)),
                    Before(self.N) == 0)), False),
                (RuntimeWarning, SBool(z3.And(
                    0 <= self.p0, self.p0 < self.N, Failed(self.p0),
                    z3.Not(self.skip))), True)]

    def ensures(self, old, res, *a, **kw):
        held, progs = self.sol.held, self.model.program
        p = z3.And(0 <= self.p0, self.p0 < self.N)
        return [
            ("z", "a result for every point solved",
             held.n == Before(self.N)),
            ("z", "there is some result", held.n > 0),
            ("z", "results in the order of the points", z3.Implies(
                z3.And(p, z3.Not(Failed(self.p0))), z3.Select(TSeq(TRes).arr(
                    held.term), Before(self.p0)) == Res(self.p0))),
            ("z", "a program for every point", z3.And(
                progs.n == self.N, z3.Implies(p, z3.Select(TSeq(TProg).arr(
                    progs.term), self.p0) == Prog(self.p0)))),
            ("z", "swept values are set apart, others held once",
             self.settled(self.k0))]


TLinkF = TObj("LinkFnT")
MLink = TMap(TVk, TLinkF)


# ------------------------------------------------------------- one variable
TName = TObj("SweptNameT")
TPts = TObj("PointsT")
TSol = TObj("SolvedT")
Pair = z3.Function("sweep_over", TPts.sort, z3.DeclareSort("SubstT"))


class _TSubst(TObj):
    def unwrap(self, v):
        if isinstance(v, (tuple, list)) and len(v) == 2 and v[0] == "sweep":
            return Pair(TPts.unwrap(v[1]))
        return TObj.unwrap(self, v)


TSubst = _TSubst("SubstT")
Truthy = z3.Function("true_as_a_condition", TSubst.sort, BOOL)
TSubst.attrs["__bool__"] = lambda v: SBool(Truthy(v.t))
MSub = TMap(TName, TSubst)
MSwp = TMap(TName, TPts)
Solve, Local = (z3.Function(n, TName.sort, TSol.sort)
                for n in ("solved_for", "solved_locally_for"))


class Fails(Exception):
    "whatever a solve raises"


@register
class ModelSweep(ZContract):
    """each variable is swept with the others as they are; the substitutions
    are as before afterwards, also after a failure"""
    name = "gpkit.constraints.model:Model.sweep"
    props = ("C18",)
    assumes = ["Model.sweep: substitutions behave as a dictionary (C15), and"
               " solving leaves them alone"]

    def applies(self, *a, **kw):
        return False

    def allow_mut(self, args):
        return [self.subs]

    def cases(self, e):
        e.ghost["tuples"] = (TSubst,)
        self.s0 = MSub.fresh("substitutions")
        self.subs = ZMap(MSub, self.s0)
        self.sw0 = MSwp.fresh("sweeps")
        sweeps = zv.ordered_map(MSwp, self.sw0)
        e.add(sweeps.order[0] >= 1)
        self.order = sweeps.order
        self.k0 = e.fresh("k0", TName.sort)
        self.j0 = e.fresh("j0", INT)
        self.now = None
        self.args = ({}, {"solver": "given"})[e.choose(2, "solveargs")]
        self.bad = z3.Function("not_a_gp", TName.sort, BOOL)
        from gpkit.exceptions import InvalidGPConstraint
        me = Model()
        me.substitutions = self.subs

        def run(f, what):
            def solve(**kw):
                e.oblige("the arguments are passed on", kw == self.args,
                         backend="structural")
                if self.now is None:
                    raise Unsupported("a solve outside the loop")
                k, now = self.k0, self.now
                e.oblige_z("%s with this variable swept and no other changed"
                           % what, z3.And(
                               has(self.subs, now),
                               z3.Select(MSub.vals(self.subs.term), now)
                               == Pair(z3.Select(MSwp.vals(self.sw0), now)),
                               z3.Implies(k != now, self.as_before(k))))
                if f is Solve and yes(self.bad(now)):
                    raise InvalidGPConstraint("not a GP")
                if e.choose(2, "it fails"):
                    raise Fails()
                return TSol.wrap(f(now))
            return solve
        me.solve, me.localsolve = run(Solve, "solved"), run(
            Local, "solved locally")
        return (me, sweeps), dict(self.args)

    def as_before(self, k):
        was = z3.Select(MSub.dom(self.s0), k)
        return z3.And(has(self.subs, k) == was, z3.Implies(
            was, z3.Select(MSub.vals(self.subs.term), k)
            == z3.Select(MSub.vals(self.s0), k)))

    def invoke(self, *a, **kw):
        try:
            return self.real(*a, **kw)
        except Fails as exc:
            return exc

    def sol(self, j):
        k = self.order[1](j)
        return z3.If(self.bad(k), Local(k), Solve(k))

    def each(self, L):
        if L.src.order is None:
            raise Unsupported("sweeps in no known order")
        self.now = L.src.order[0](L.i)
        sols, q = L.loc["sols"], z3.Const("q_name", TName.sort)
        out = [("the substitutions are as before", self.as_before(self.k0)),
               ("for every variable", z3.ForAll([q], z3.And(
                   has(self.subs, q) == z3.Select(MSub.dom(self.s0), q),
                   z3.Implies(has(self.subs, q), z3.Select(MSub.vals(
                       self.subs.term), q) == z3.Select(
                           MSub.vals(self.s0), q)))))]
        S = TSeq(TSol)
        if sols.T is None:
            return out + [("a solution each", L.i == 0)]
        return out + [
            ("a solution each", sols.n == L.i),
            ("in order", z3.And(*[
                z3.Implies(z3.And(0 <= j, j < L.i), z3.Select(
                    S.arr(sols.term), j) == self.sol(j))
                for j in (self.j0, z3.IntVal(0))]))]

    loops = {"Model.sweep#1": each}

    def ensures(self, old, res, *a, **kw):
        out = [("z", "the substitutions are as before",
                self.as_before(self.k0))]
        if isinstance(res, Fails):
            return out
        n = self.order[0]
        if isinstance(res, ZSeq):
            return out + [("z", "a solution for each variable", z3.And(
                res.n == n, n > 1, z3.Implies(
                    z3.And(0 <= self.j0, self.j0 < n),
                    z3.Select(TSeq(TSol).arr(res.term), self.j0)
                    == self.sol(self.j0))))]
        return out + [("z", "the solution of the one variable", z3.And(
            n == 1, TSol.unwrap(res) == self.sol(z3.IntVal(0))))]


# ------------------------------------------------ making and solving programs
class _P(ZContract):
    props = ("C18",)

    def applies(self, *a, **kw):
        return False

    def setup(self, e):
        import gpkit.constraints.prog_factories as P
        new = self.patched()
        old = {k: P.__dict__[k] for k in new}
        P.__dict__.update(new)

        def undo():
            P.__dict__.update(old)
        return undo

    def model(self):
        m = Model()
        m.varkeys, m.substitutions, m.cost = Sym(), Sym(), Sym()
        m.__class__ = Described
        return m

    def parsed(self, e):
        def parse_subs(vks, subs):
            e.oblige("the model's own substitutions are divided",
                     vks is self.me.varkeys and subs is self.me.substitutions,
                     backend="structural")
            return self.parts
        return parse_subs


class Described(Model):
    def __str__(self):
        return "the model"


class Dict(Sym):
    "a dictionary of which only whether it is empty is known"
    def __init__(self, some):
        self.some = some

    def __bool__(self):
        return self.some


@register
class Progify(_P):
    """the program of the constants given or, if none are, of the model's own
    with its linked variables evaluated"""
    name = PF + "progify"

    def cases(self, e):
        self.me = self.model()
        given = ({}, {"constants": None}, {"constants": Dict(False)},
                 {"constants": Dict(True)})
        i = e.choose(len(given), "constants")
        self.kw = dict(given[i])
        self.given = self.kw["constants"] if i == 3 else None
        self.parts = (Dict(bool(e.choose(2, "has constants"))), Dict(True),
                      Dict(bool(e.choose(2, "has links"))))
        self.evaluated = []
        self.attr = (None, "solve")[e.choose(2, "attribute")]
        self.init = ({}, {"checkbounds": False})[e.choose(2, "arguments")]
        self.progs = []

        def program(cost, model, constants, **kw):
            if constants is self.parts[0] and self.parts[2]:
                e.oblige("linked variables are evaluated first",
                         len(self.evaluated) == 1, backend="structural")
            p = Sym()
            p.of, p.solve = (cost, model, constants, kw), Sym()
            self.progs.append(p)
            return p
        return (program, self.attr), {}

    def patched(self):
        e = E.eng()

        def evaluate(constants, linked):
            e.oblige("linked variables are evaluated from the constants",
                     constants is self.parts[0] and linked is self.parts[2],
                     backend="structural")
            self.evaluated.append(1)
        return {"parse_subs": self.parsed(e), "evaluate_linked": evaluate}

    def invoke(self, *a):
        return self.real(*a)(self.me, **self.kw, **self.init)

    def ensures(self, old, res, *a):
        p = self.progs[0] if self.progs else None
        ok = res is p if self.attr is None else (
            isinstance(res, tuple) and len(res) == 2 and res[0] is p
            and p is not None and res[1] is p.solve)
        out = [("ok", "one program comes back, with its attribute if asked",
                len(self.progs) == 1 and ok)]
        if not out[0][2]:
            return out
        cost, model, constants, kw = p.of
        return out + [
            ("ok", "of this model, with the arguments given",
             cost is self.me.cost and model is self.me and kw == self.init),
            ("ok", "with the constants given, else the model's",
             constants is (self.given or self.parts[0])),
            ("ok", "it knows its model", p.model is self.me),
            ("ok", "given constants are not evaluated again",
             not self.given or not self.evaluated)]


@register
class Solvify(_P):
    """without a sweep the model is solved once; with one, for every point;
    the solution is of arrays and kept by the model"""
    name = PF + "solvify"

    def cases(self, e):
        self.me = self.model()
        self.sweeps = bool(e.choose(2, "sweep"))
        self.parts = (Dict(True), Dict(self.sweeps), Dict(True))
        self.log = []
        self.solver = (None, Sym())[e.choose(2, "solver")]
        self.skip = bool(e.choose(2, "skip"))
        self.process = (None, True, False)[e.choose(3, "process_result")]
        self.kw = {"reltol": "given"}
        if self.process is not None:
            self.kw["process_result"] = self.process
        self.sols = []
        me = self

        class Solutions(Sym):
            def __init__(self):
                me.sols.append(self)
                self.log = me.log

            def append(self, r):
                self.log.append(("append", r))

            def to_arrays(self):
                self.log.append(("arrays",))
        self.Solutions = Solutions
        self.program, self.result = Sym(), Sym()

        def solve(solver, verbosity=None, **kw):
            self.log.append(("solve", solver, kw))
            return self.result

        def generate(model, *a, **kw):
            e.oblige("a program of this model, with its own constants",
                     model is self.me and not a and not kw,
                     backend="structural")
            self.log.append(("make",))
            return self.program, solve
        self.generate = generate
        self.me.process_result = lambda r: self.log.append(("process", r))
        self.options = {"skipsweepfailures": True} if self.skip else {}
        if e.choose(2, "verbosity"):
            self.options["verbosity"] = 0
        return (generate,), {}

    def patched(self):
        def sweep(genfunction, self, solution, skipsweepfailures, constants,
                  sweep, linked, solver, verbosity, **kw):
            me.log.append(("sweep", (
                genfunction, self, solution, skipsweepfailures, constants,
                sweep, linked, solver), kw))
        me = self
        return {"parse_subs": self.parsed(E.eng()), "run_sweep": sweep,
                "SolutionArray": lambda: self.Solutions()}

    def invoke(self, gen):
        args = () if self.solver is None else (self.solver,)
        return self.real(gen)(self.me, *args, **self.options, **self.kw)

    def ensures(self, old, res, gen):
        out = [("ok", "the solution comes back and is kept",
                len(self.sols) == 1 and res is self.sols[0]
                and self.me.solution is res),
               ("ok", "converted to arrays, at the end",
                self.log.count(("arrays",)) == 1
                and self.log[-1] == ("arrays",))]
        log = self.log[:-1]
        if not self.sweeps:
            want = [("make",), ("solve", self.solver, self.kw)]
            if self.process is not False:
                want.append(("process", self.result))
            want.append(("append", self.result))
            return out + [
                ("ok", "solved once, processed if so asked, and held",
                 log == want),
                ("ok", "the program is kept",
                 self.me.program is self.program)]
        ok = len(log) == 1 and log[0][0] == "sweep"
        if ok:
            a, kw = log[0][1:]
            ok = a[:7] == (gen, self.me, res, self.skip) + self.parts and \
                a[7] is self.solver and kw == self.kw
        return out + [("ok", "swept once, as asked", ok)]
