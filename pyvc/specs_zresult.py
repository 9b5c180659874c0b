"""Contract of the assembly of a solution (C10, C11): the answer's cost, the
values of the variables, the constants, and each sensitivity as the sum of what
the cost and every constraint report, carried from linked variables to their
sources."""
import z3
from . import engine as E
from . import zarr
from . import zv
from .engine import ExpF
from .zarr import ZVec, ZList
from .zv import (TInt, TReal, TObj, TFMap, TMap, TText, ZMap, ZSet, TSet, INT,
                 REAL, BOOL, ZI, ZR)
from .contracts import ZContract, register
from .values import SBool
from .specs_zgp import GPM, fa, ints
from .specs_zcheck import vec, zabs
from .specs_zsens import TShare, Weights, sel

TV = TObj("VarT")
TGrad = TFMap("GradT", TV, TReal)
TSens = TFMap("SensT", TV, TReal)
GradF = z3.Function("gradients_of", TV.sort, TGrad.sort)
TV.attrs["gradients"] = lambda v: TGrad.wrap(GradF(v.t))
LinV = z3.Function("lineage_of_var", TV.sort, TText.sort)

TCon = TObj("ConstrT")
HasPar = z3.Function("has_parent", TCon.sort, BOOL)
Par = z3.Function("parent_of", TCon.sort, TCon.sort)
HasGen = z3.Function("is_generated", TCon.sort, BOOL)
Gen = z3.Function("generated_by", TCon.sort, TCon.sort)
Root = z3.Function("root_of", TCon.sort, TCon.sort)
Owner = z3.Function("owner_of", TCon.sort, TCon.sort)
LinC = z3.Function("lineage_of_con", TCon.sort, TText.sort)
# what sens_from_dual says: of a constraint, a dual and its terms' duals
SensV = z3.Function("sens_of_vars", TCon.sort, REAL, INT, TSens.sort)
SensC = z3.Function("sens_of_con", TCon.sort, REAL, INT, REAL)


def link(has, f):
    return lambda c: TCon.wrap(f(c.t)) if bool(SBool(has(c.t))) else None


TCon.attrs.update(parent=link(HasPar, Par), generated_by=link(HasGen, Gen),
                  sens_from_dual=lambda c: E.eng().contract.learns(c))

CE = TObj("CostExpT", attrs={"__rmul__": lambda x: lambda o: ScaledExp(
    x.t, zv.toreal(zv.num_term(o))), "__mul__": lambda x: lambda o: ScaledExp(
        x.t, zv.toreal(zv.num_term(o)))})
TCost = TFMap("CostT", CE, TReal, ordered=True)
M = TMap(TV, TReal)


class ScaledExp:
    "a number times the exponents of a term (HashVector, proved under C01)"
    pv_symbolic = True

    def __init__(self, e, by):
        self.e, self.by = e, by


def at(m, v):
    "entry of a map, 0 if there is none"
    if m.T is None:
        return z3.RealVal(0)
    return z3.If(z3.Select(m.T.dom(m.term), v), z3.Select(
        m.T.vals(m.term), v), z3.RealVal(0))


def has(m, v):
    if m.T is None:
        return z3.BoolVal(False)
    return z3.Select(m.T.dom(m.term), v)


def keydict(*a):
    "a KeyDict as a map of its keys (C15)"
    if not a:
        return ZMap()
    src = a[0]
    if type(src) is ZMap:
        return ZMap(src.T, src.term, order=src.order)
    return zv.dictcomp(src)


class CompileResult(Weights, ZContract):
    name = GPM + "GeometricProgram._compile_result"
    props = ("C10", "C11")
    allow_mut = staticmethod(lambda args: [])
    cost = 40

    def cases(self, e):
        from gpkit.constraints import gp as G
        for T_ in (TCost, TSens, TGrad):
            for f in T_.axioms():
                e.add(f)
        c = z3.FreshConst(TCon.sort, "c")
        for R, H, P in ((Root, HasPar, Par), (Owner, HasGen, Gen)):
            e.add(z3.ForAll([c], R(c) == z3.If(H(c), R(P(c)), c),
                            patterns=[R(c)]))
        x = z3.FreshConst(REAL, "x")
        e.add(z3.ForAll([x], ExpF(x) > 0, patterns=[ExpF(x)]))
        e.ghost.update(default_types={float: TReal}, np_division=True,
                       default_value=lambda d, T_: z3.RealVal(0),
                       sum_values=self.cost_sum)
        self.P, self.K, self.V = (e.fresh(n, INT) for n in "PKV")
        P, K = self.P, self.K
        gp = object.__new__(G.GeometricProgram)
        d = gp.__dict__
        self.short = bool(e.choose(2, "no primal"))
        # the free variables, in order
        Tl = TMap(TV, TInt)
        self.varlocs = zv.ordered_map(Tl, Tl.fresh("varlocs"))
        self.primal = vec(e, "primal", self.V)
        if not self.short:
            e.add(self.V == self.varlocs.order[0])
        else:
            e.add(z3.And(self.V >= 0, self.V != self.varlocs.order[0]))
        d["varlocs"] = self.varlocs
        self.consts = M.fresh("constants")
        d["substitutions"] = ZMap(M, self.consts)
        # the cost, and how its terms were merged
        cost = TCost.fresh("cost")
        self.costm = cost
        e.add(z3.And(K == TCost.nf(cost), K >= 1, P >= 1))
        stub = Stub()
        stub.hmap = TCost.wrap(cost)
        vks = e.fresh("cost_vks", z3.ArraySort(TV.sort, BOOL))
        self.vks = vks
        stub.vks = ZSet(TSet(TV), vks)
        d["cost"] = stub
        arr = e.fresh("cost_mmap", z3.ArraySort(INT, TShare.sort))
        self.M0 = e.fresh("M0", INT)
        q, i = ints("q", "i")
        e.add(z3.ForAll([i, q], z3.Implies(z3.Select(TShare.domf(
            arr[i]), q), z3.And(0 <= q, q < K)),
            patterns=[z3.Select(TShare.domf(arr[i]), q)]))
        d["cost_mmap"] = ZList(self.M0, lambda i: TShare.wrap(arr[i]))
        e.add(self.M0 >= 0)
        # dual values
        nus = e.fresh("nus", z3.ArraySort(INT, z3.ArraySort(INT, REAL)))
        sizes = e.fresh("sizes", z3.ArraySort(INT, INT))
        e.add(sizes[0] == self.M0)
        self.la = vec(e, "la", P)

        def nu(p):
            v = ZVec(sizes[p], lambda k: z3.Select(z3.Select(nus, p), k))
            v.ident = p
            return v
        self.nbp = ZList(P, nu)
        d["_generate_nula"] = self.nula
        self.weights(e, self.M0, lambda i: arr[i], lambda i: z3.Select(
            z3.Select(nus, z3.IntVal(0)), i))
        conat = e.fresh("hmaps", z3.ArraySort(INT, TCon.sort))
        self.conat = conat
        d["hmaps"] = ZList(P, lambda p: TCon.wrap(conat[p]))
        # what the constraints before the j-th say
        self.CostS = z3.Function("cost_sens", TV.sort, REAL)
        self.PF2 = z3.Function("sens_of_first", INT, TV.sort, REAL)
        self.PF3 = z3.Function("carried_by_first", INT, TV.sort, REAL)
        self.PF4 = z3.Function("cost_carried_by_first", INT, TV.sort, REAL)
        v = z3.FreshConst(TV.sort, "v")
        for F in (self.PF2, self.PF3, self.PF4):
            e.add(z3.ForAll([v], F(0, v) == 0, patterns=[F(0, v)]))
        # linked variables: given a value, sources are plain and given one too
        w = z3.FreshConst(TV.sort, "w")
        cd, cv = M.dom(self.consts), M.vals(self.consts)
        self.cd, self.cv = cd, cv
        e.add(z3.ForAll([v, w], z3.Implies(z3.Select(TGrad.domf(
            GradF(v)), w), z3.And(cd[v], cd[w], cv[v] != 0,
                                  z3.Not(self.linked(w)))),
            patterns=[z3.Select(TGrad.domf(GradF(v)), w)]))
        e.add(z3.ForAll([v], z3.Implies(self.linked(v), z3.And(
            cd[v], cv[v] != 0)), patterns=[GradF(v)]))
        self.w0 = e.fresh("w0", TV.sort)       # a variable not linked
        e.add(z3.Not(self.linked(self.w0)))
        self.i0, self.j0 = e.fresh("i0", INT), e.fresh("j0", INT)
        self.k0 = e.fresh("k0", TV.sort)
        e.add(z3.And(0 <= self.i0, self.i0 < self.V))
        # a constraint, the last of those that stand for one of the user's
        e.add(z3.And(0 <= self.j0, self.j0 < P - 1))
        j, = ints("j")
        e.add(z3.ForAll([j], z3.Implies(z3.And(self.j0 < j, j < P - 1),
                                        self.own(j) != self.own(self.j0)),
                        patterns=[conat[j + 1]]))
        self.out = {"objective": TReal.new("objective"),
                    "primal": self.primal, "soltime": object()}
        e.ghost["roots"] = {"self": gp}
        self.gp = gp
        self.summed = None
        return (gp, self.out), {}

    def linked(self, v):
        return TGrad.domf(GradF(v)) != z3.K(TV.sort, False)

    def root(self, j):
        return Root(self.conat[j + 1])

    def own(self, j):
        return Owner(self.root(j))

    def said(self, j):
        "by the j-th constraint, of the variables"
        return SensV(self.root(j), self.la.term(j + 1), j + 1)

    def of_con(self, j):
        return SensC(self.root(j), self.la.term(j + 1), j + 1)

    def nula(self, out):
        self.asked = out is self.out
        return self.la, self.nbp

    def learns(self, con):
        def sens_from_dual(las, nus, result):
            E.eng().oblige_z("asked of the constraint as the user knows it",
                             z3.Not(HasPar(con.t)))
            ok = all(n in result for n in ("freevariables", "constants",
                                           "variables"))
            E.eng().oblige_z("asked with the values known", z3.BoolVal(ok))
            l, p = zv.toreal(zv.num_term(las)), nus.ident
            return (TSens.wrap(SensV(con.t, l, p)),
                    ZR(SensC(con.t, l, p)))
        return sens_from_dual

    def cost_sum(self, s, fs, start):
        "the sum of dual times exponents over the cost's terms"
        e = E.eng()
        j = e.fresh("j", INT)
        e.oblige_z("the cost's sum: every term", s.n == self.K)
        vals = [s.at(j)]
        for f in fs:
            vals = [y for v in vals for y in f(v)]
        x, = vals
        if not isinstance(x, ScaledExp):
            raise E.Unsupported("a sum of %r" % (x,))
        inside = z3.And(0 <= j, j < self.K)
        e.oblige_z("the cost's sum: exponents of each term", z3.Implies(
            inside, x.e == TCost.keyf(self.costm, j)))
        e.oblige_z("the cost's sum: dual weight of each term", z3.Implies(
            inside, x.by == self.PF(j, self.M0)))
        m = ZMap(M, M.fresh("cost_senss"))
        v = z3.FreshConst(TV.sort, "v")
        dom, val = M.dom(m.term), M.vals(m.term)
        e.add(z3.ForAll([v], z3.If(dom[v], val[v], 0) == self.CostS(v),
                        patterns=[dom[v]]))
        self.summed = m
        return m

    def setup(self, e):
        import gpkit.constraints.gp as G
        old = G.KeyDict, G.lineagestr

        def lineagestr(x):
            x = getattr(x, "pv_x", x)
            return TText.wrap((LinV if x.T is TV else LinC)(x.t))
        G.KeyDict, G.lineagestr = keydict, lineagestr

        def undo():
            G.KeyDict, G.lineagestr = old
        return undo

    def raises(self, old, *args):
        return [(RuntimeWarning, SBool(z3.BoolVal(self.short)), True)]

    # ---- the cost's duals
    def maps(self, L):
        return self.outer_inv(L, L.loc["cost_nu"], self.K)

    def shares(self, L):
        return self.inner_inv(L, L.loc["cost_nu"], self.K, self.outer_i,
                              L.before)

    def maps_(self, L):
        self.outer_i = L.i
        return self.maps(L)

    # ---- the constraints' sensitivities
    def unfold2(self, i):
        v = z3.FreshConst(TV.sort, "v")
        V = self.said(i)
        E.eng().add(z3.Implies(i >= 0, z3.ForAll(
            [v], self.PF2(i+1, v) == self.PF2(i, v) + sel(TSens, V, v),
            patterns=[self.PF2(i+1, v)])))

    def total(self, v, i):
        return self.CostS(v) + self.PF2(i, v)

    def recorded(self, L, i):
        m = L.loc["result"]["sensitivities"]["constraints"]
        own = self.own(self.j0)
        return z3.Implies(self.j0 < i, z3.And(has(m, own), at(m, own)
                                              == zabs(self.of_con(self.j0))))

    def cons(self, L):
        self.con_i = L.i
        self.unfold2(L.i)
        v = z3.FreshConst(TV.sort, "v")
        g = L.loc["gpv_ss"]
        return [("sensitivities so far", z3.ForAll(
                    [v], at(g, v) == self.total(v, L.i))),
                ("the cost's are kept", L.loc["cost_senss"].term
                 == self.cost0(L)),
                ("the constraints' so far", self.recorded(L, L.i))]

    def cost0(self, L):
        return self.summed.term0 if hasattr(
            self.summed, "term0") else self.keep()

    def keep(self):
        self.summed.term0 = self.summed.term
        return self.summed.term0

    def up(self, L):
        return [("the same root", Root(L.loc["c"].t)
                 == Root(L.before["c"].t))]

    def said_so_far(self, L):
        v = z3.FreshConst(TV.sort, "v")
        i = self.con_i
        V = self.said(i)
        return [("sensitivities so far", z3.ForAll([v], at(
            L.loc["gpv_ss"], v) == self.total(v, i) + z3.If(
                L.done[v], z3.Select(TSens.valf(V), v), 0)))]

    def owner(self, L):
        return [("the same owner", Owner(L.loc["c"].t)
                 == Owner(L.before["c"].t))]

    # ---- models
    def models(self, L):
        return []

    # ---- linked variables
    def lk(self, i):
        return self.src.at(i).t

    def part(self, G, i, w, guard=None, own=None):
        "what the i-th linked variable carries to w, of its own G(v)"
        v = self.lk(i)
        t = (G(v) if own is None else own)*((z3.Select(TGrad.valf(GradF(v)), w)*self.cv[w])
                  / self.cv[v])
        g = z3.Select(TGrad.domf(GradF(v)), w)
        if guard is not None:
            g = z3.And(g, guard)
        return g, t

    def G(self, v):
        return self.total(v, self.P - 1)

    def to_cost(self, i, w):
        v = self.lk(i)
        return self.part(self.CostS, i, w, z3.And(
            self.CostS(v) != 0, self.vks[w]))

    def unfold3(self, i):
        w = self.w0
        e = E.eng()
        for F, (g, t) in ((self.PF3, self.part(self.G, i, w)),
                          (self.PF4, self.to_cost(i, w))):
            e.add(z3.Implies(i >= 0, F(i+1, w) == F(i, w) + z3.If(g, t, 0)))

    def links(self, L):
        if L.first:
            self.src = L.src
            keyat, pos, dom, _ = L.src.order
            k = self.k0
            # an instance of what the order of a collection is
            E.eng().add(z3.Implies(z3.Select(dom, k), z3.And(
                0 <= pos(k), pos(k) < L.n, keyat(pos(k)) == k)))
            self.g0 = L.loc["gpv_ss"].term
        self.link_i = L.i
        self.unfold3(L.i)
        p, = ints("p")
        g, c = L.loc["gpv_ss"], L.loc["cost_senss"]
        w = self.w0
        return [("unlinked variables", at(g, w) == self.G(w)
                 + self.PF3(L.i, w)),
                ("linked ones to come", fa(p, z3.And(L.i <= p, p < L.n),
                 z3.And(has(g, self.lk(p)), at(g, self.lk(p))
                        == self.G(self.lk(p))))),
                ("linked ones left are yet to come", self.left(g, L.i)),
                ("the cost's carried ones left it", self.gone(
                    c, self.src.order[1](self.k0) < L.i)),
                ("the cost's unlinked", at(c, w) == self.CostS(w)
                 + self.PF4(L.i, w)),
                ("the cost's to come", fa(p, z3.And(L.i <= p, p < L.n),
                 at(c, self.lk(p)) == self.CostS(self.lk(p))))]

    def gone(self, c, carried):
        "what was carried to w0 has left the cost's own"
        k, w = self.k0, self.w0
        return z3.Implies(z3.And(
            self.linked(k), z3.Select(M.dom(self.g0), k), carried,
            z3.Select(TGrad.domf(GradF(k)), w), self.vks[w],
            self.CostS(k) != 0), z3.Not(has(c, k)))

    def left(self, g, i):
        k = self.k0
        return z3.Implies(z3.And(self.linked(k), has(g, k)), z3.And(
            z3.Select(M.dom(self.g0), k), self.src.order[1](k) >= i))

    def sources(self, L):
        i = self.link_i
        p, = ints("p")
        g, c = L.loc["gpv_ss"], L.loc["cost_senss"]
        w = self.w0
        _, t3 = self.part(self.G, i, w)
        gd, t4 = self.to_cost(i, w)
        # equal factors make equal products (to relate what z3 multiplies)
        for name, G, t in (("dlogcost_dlogv", self.G, t3),
                           ("cost_dlogv", self.CostS, t4)):
            own = L.loc.get(name)
            own = None if own is None else zv.num_term(own)
            if own is not None:
                E.eng().add(z3.Implies(zv.toreal(own) == G(self.lk(i)),
                            self.part(G, i, w, own=zv.toreal(own))[1] == t))
        n = self.src.n
        return [("unlinked variables", at(g, w) == self.G(w)
                 + self.PF3(i, w) + z3.If(L.done[w], t3, 0)),
                ("linked ones to come", fa(p, z3.And(i < p, p < n),
                 z3.And(has(g, self.lk(p)), at(g, self.lk(p))
                        == self.G(self.lk(p))))),
                ("linked ones left are yet to come", self.left(g, i + 1)),
                ("the cost's carried ones left it", self.gone(
                    c, z3.Or(self.src.order[1](self.k0) < i, z3.And(
                        self.lk(i) == self.k0, L.done[w])))),
                ("the cost's unlinked", at(c, w) == self.CostS(w)
                 + self.PF4(i, w) + z3.If(z3.And(L.done[w], gd), t4, 0)),
                ("the cost's to come", fa(p, z3.And(i < p, p < n),
                 at(c, self.lk(p)) == self.CostS(self.lk(p))))]

    F = "GeometricProgram._compile_result#"
    loops = {F+"1": maps_, F+"2": shares, F+"3": cons, F+"4": up,
             F+"5": said_so_far, F+"6": owner, F+"7": models, F+"8": links,
             F+"9": sources}

    def ensures(self, old, res, gp, out):
        r = {k: dict.__getitem__(res, k) for k in dict.keys(res)}
        ss = r.get("sensitivities", {})
        fv, cs, vs = (r.get(k) for k in ("freevariables", "constants",
                                         "variables"))
        goals = [("ok", "duals of this answer", self.asked),
                 ("z", "the answer's cost", zv.toreal(zv.num_term(
                     r["cost"])) == out["objective"].t),
                 ("ok", "solving time", r["soltime"] is out["soltime"])]
        keyat = self.varlocs.order[1]
        k = keyat(self.i0)
        kc = self.k0
        free = z3.Select(self.varlocs.T.dom(self.varlocs.term), kc)
        y = ExpF(self.primal.term(self.i0))
        goals += [
            ("z", "value of a free variable", z3.And(
                has(fv, k), at(fv, k) == y)),
            ("z", "no other free variable", has(fv, kc) == free),
            ("z", "constants are the substitutions", z3.And(
                has(cs, kc) == self.cd[kc], z3.Implies(
                    self.cd[kc], at(cs, kc) == self.cv[kc]))),
            ("z", "variables are both", has(vs, kc) == z3.Or(
                free, self.cd[kc])),
            ("z", "value of a constant", z3.Implies(
                self.cd[kc], at(vs, kc) == self.cv[kc])),
            ("z", "value of a variable", z3.Implies(
                z3.Not(self.cd[k]), at(vs, k) == y))]
        cons, sv, sc = (ss.get(n) for n in ("constraints", "variables",
                                            "cost"))
        w = self.w0
        n = self.src.n
        own = self.own(self.j0)
        goals += [
            ("z", "sensitivity of a constraint", z3.And(
                has(cons, own), at(cons, own) == zabs(
                    self.of_con(self.j0)))),
            ("z", "sensitivity of a variable", at(sv, w) == self.G(w)
             + self.PF3(n, w)),
            ("z", "linked variables carry theirs", z3.Not(z3.And(
                self.linked(kc), has(sv, kc)))),
            ("z", "the cost's linked variables carry theirs", self.gone(
                sc, z3.BoolVal(True))),
            ("z", "sensitivity of the cost itself", at(sc, w)
             == self.CostS(w) + self.PF4(n, w)),
            ("ok", "under both names", ss.get("constants") is ss.get(
                "variables"))]
        return goals


class Stub:
    pass


register(CompileResult)


# ------------------------------------------------------------------ reading
TVal = TObj("ValueT")
At = z3.Function("expression_at_solution", INT, TVal.sort)


class Values:
    "the variables of a solution"
    def __init__(self, known, mark):
        self.known, self.mark, self.asked = known, mark, []

    def __contains__(self, x):
        self.asked.append(x)
        return self.known

    def __call__(self, x):
        self.asked.append(x)
        if isinstance(x, Whole):
            return x
        return self.mark


class Whole:
    "the values of a vector, for several solutions"
    def __init__(self):
        self.taken = []

    def __getitem__(self, i):
        self.taken.append(i)
        return ("taken", i)


class AtPoint:
    def __init__(self, i, seen):
        self.i, self.seen = i, seen

    def subinto(self, x):
        self.seen.append(x)
        return TVal.wrap(At(zv.num_term(self.i)))


class Expr:
    "an expression"


class SubInto(ZContract):
    """a variable gives its value; an expression, itself with the variables'
    values put in - for several solutions, each in turn"""
    name = "gpkit.solution_array:SolutionArray.subinto"
    props = ("C10",)
    allow_mut = staticmethod(lambda args: [])

    def cases(self, e):
        from gpkit.solution_array import SolutionArray
        self.known = bool(e.choose(2, "a variable"))
        self.expr = bool(e.choose(2, "an expression"))
        self.kind = ("one", "length one", "many")[e.choose(3, "solutions")]
        x = Expr()
        self.elem = None
        if self.known and not e.choose(2, "not named"):
            x.key = Expr()
            x.key.key, x.key.idx = x.key, None
            if e.choose(2, "an element"):
                self.elem, x.key.idx = Whole(), (e.fresh("idx", INT),)
                x.key.veckey = self.elem
        self.result, self.mark, self.args = object(), object(), []
        if self.expr:
            x.sub = lambda *a: (self.args.append(a), self.result)[1]
        sol = SolutionArray()
        self.vs = Values(self.known, self.mark)
        dict.__setitem__(sol, "variables", self.vs)
        self.seen = []
        if self.kind == "one":
            dict.__setitem__(sol, "cost", object())
        else:
            n = z3.IntVal(1)
            if self.kind == "many":
                n = e.fresh("n", INT)
                e.add(n > 1)
            self.n = n
            dict.__setitem__(sol, "cost", vec(e, "cost", n))
            sol.__dict__["atindex"] = lambda i: AtPoint(i, self.seen)
        self.sol = sol
        return (sol, x), {}

    def setup(self, e):
        import gpkit.solution_array as S
        old = S.NomialArray
        S.NomialArray = lambda x: ("array", x)

        def undo():
            S.NomialArray = old
        return undo

    def raises(self, old, sol, x):
        return [(ValueError, SBool(z3.BoolVal(
            not self.known and not self.expr)), True)]

    def ensures(self, old, res, sol, x):
        if self.elem is not None and self.kind == "many":
            return [("ok", "an element's value in every solution", res == (
                "taken", (slice(None),) + x.key.idx))]
        if self.known:
            return [("ok", "a variable's value", res is self.mark
                     and all(y is x for y in self.vs.asked))]
        if self.kind != "many":
            return [("ok", "with the variables' values", res is self.result
                     and self.args == [(self.vs,)])]
        ok = isinstance(res, tuple) and res[0] == "array"
        goals = [("ok", "one entry per solution", ok),
                 ("ok", "of this expression", all(y is x for y in self.seen))]
        if ok:
            s = zv.idx_source(res[1])
            i = E.eng().fresh("i", INT)
            goals += [("z", "as many as solutions", s.n == self.n),
                      ("z", "in order", z3.Implies(z3.And(
                          0 <= i, i < self.n), s.at(i).t == At(i)))]
        return goals


register(SubInto)
