"""Contracts of the checks made on a solver's answer (C12) and of the
completion of its dual values (C11)."""
import z3
from . import engine as E
from . import zarr
from . import zv
from .zarr import ZMat, ZVec, ZList, TVec, rsum, SumF
from .zv import TInt, TReal, TSeq, TSlice, INT, REAL, ZI, ZR, num_term
from .engine import ExpF, LogF
from .contracts import ZContract, register
from .values import SBool
from .specs_zgp import GPM, fa, ints

StartF = z3.Function("row_of", INT, INT)
AF = z3.Function("A_entry", INT, INT, REAL)


def zabs(t):
    return z3.If(t >= 0, t, -t)


def close(a, b, tol, abstol):
    "the comparison used: relative to the sum, or absolute"
    return z3.Or(a == b, z3.And(a + b != 0, zabs((a - b)/(a + b)) < tol),
                 zabs(a - b) < abstol)


def vec(e, name, n):
    arr = e.fresh(name, z3.ArraySort(INT, REAL))
    return ZVec(n, lambda i: z3.Select(arr, i))


class Compiled(ZContract):
    "a compiled program: rows row_of(p) .. row_of(p+1) are posynomial p's"
    props = ("C12",)
    allow_mut = staticmethod(lambda args: [])

    def program(self, e):
        from gpkit.constraints import gp as G
        self.P, self.V = e.fresh("P", INT), e.fresh("V", INT)
        P, V = self.P, self.V
        e.add(z3.And(P >= 1, V >= 0, StartF(0) == 0))
        p, q = ints("p", "q")
        # rows are consecutive and every posynomial has one (C08: gen)
        e.add(z3.ForAll([p], z3.Implies(p >= 0, StartF(p) < StartF(p+1)),
                        patterns=[StartF(p+1)]))
        e.oblige_z("lemma: starts increase (step)", fa(
            p, q, z3.And(0 <= p, p <= q, StartF(p) <= StartF(q)),
            StartF(p) <= StartF(q+1)))
        e.add(z3.ForAll([p, q], z3.Implies(
            z3.And(0 <= p, p <= q), StartF(p) <= StartF(q)),
            patterns=[z3.MultiPattern(StartF(p), StartF(q))]))
        x = z3.FreshConst(REAL, "x")
        e.add(z3.ForAll([x], ExpF(x) > 0, patterns=[ExpF(x)]))
        self.M = StartF(P)
        gp = object.__new__(G.GeometricProgram)
        cs = e.fresh("cs", z3.ArraySort(INT, REAL))
        T_ = TSeq(TReal)
        self.cs = cs
        gp.__dict__["cs"] = zv.ZSeq(T_, T_.mk(self.M, cs))
        gp.__dict__["A"] = ZMat(self.M, V, lambda r, c: AF(r, c))
        S = TSeq(TSlice)
        arr = e.fresh("m_idxs", z3.ArraySort(INT, TSlice.sort))
        e.add(z3.ForAll([p], arr[p] == TSlice.mk(StartF(p), StartF(p+1)),
                        patterns=[arr[p]]))
        gp.__dict__["m_idxs"] = zarr.ZList(
            P, lambda p: slice(ZI(StartF(p)), ZI(StartF(p+1))))
        gp.__dict__["hmaps"] = ZList(P, lambda p: None)
        pidx = e.fresh("p_idxs", z3.ArraySort(INT, INT))
        self.pidx = pidx
        r, = ints("r")
        e.add(z3.ForAll([p, r], z3.Implies(
            z3.And(0 <= p, p < P, StartF(p) <= r, r < StartF(p+1)),
            pidx[r] == p), patterns=[z3.MultiPattern(pidx[r], StartF(p))]))
        e.add(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < self.M), z3.And(
            0 <= pidx[r], pidx[r] < P, StartF(pidx[r]) <= r,
            r < StartF(pidx[r]+1))), patterns=[pidx[r]]))
        gp.__dict__["p_idxs"] = ZVec(self.M, lambda r: pidx[r])
        e.ghost["roots"] = {"self": gp}
        e.ghost["np_division"] = True
        e.ghost["mask_slice"] = self.mask_slice
        e.ghost["offsets"] = StartF
        self.gp = gp
        self.seen = []
        return gp

    def mask_slice(self, mask):
        "rows r with p_idxs[r] == i are a slice, when that can be proved"
        e = E.eng()
        r = e.fresh("r", INT)
        t = mask.term(r)
        if not z3.is_eq(t):
            return None
        for i in t.children():
            if zv.occurs(r, i):
                continue
            lo, hi = StartF(i), StartF(i+1)
            if e.entails(z3.Implies(
                    z3.And(*e.under, 0 <= r, r < mask.n),
                    t == z3.And(lo <= r, r < hi)), 3000):
                return lo, hi
        return None

    def size(self, p):
        return StartF(p+1) - StartF(p)

    def value(self, y, r):
        "of row r at the point exp(y)"
        return self.cs[r]*ExpF(rsum(self.V, lambda c: AF(r, c)*y.term(c)))

    def posy(self, y, p):
        return rsum(self.size(p), lambda k: self.value(y, StartF(p) + k))

    def idx(self, L):
        if L.i is not None:
            self.seen.append(L.i)
        return []


class CheckSolution(Compiled):
    """returns normally exactly when the cost is met, every constraint and dual
    condition holds and the dual cost agrees, within tolerance; raises
    Infeasible otherwise"""
    name = GPM + "GeometricProgram.check_solution"

    def cases(self, e):
        gp = self.program(e)
        self.y, self.nu, self.la = (vec(e, b, n) for b, n in (
            ("primal", self.V), ("nu", self.M), ("la", self.P)))
        self.cost, self.tol, self.abstol = (TReal.new(b) for b in (
            "cost", "tol", "abstol"))
        e.add(z3.And(self.tol.t > 0, self.abstol.t > 0))
        gp.__dict__["nu_by_posy"] = ZList(self.P, lambda p: ZVec(
            self.size(p), lambda k: self.nu.term(StartF(p) + k)))
        self.p0, self.r0, self.c0 = (e.fresh(b, INT) for b in (
            "p0", "r0", "c0"))
        e.ghost["points"] = [self.p0, self.r0, self.c0]
        return (gp, self.cost, self.y, self.nu, self.la, self.tol,
                self.abstol), {}

    # the conditions of the statement
    def conditions(self):
        y, nu, la = self.y, self.nu, self.la
        tol, ab, cost = self.tol.t, self.abstol.t, self.cost.t
        dual = rsum(self.P, lambda p: z3.If(
            la.term(p) != 0, rsum(self.size(p), lambda k: self.term(p, k)),
            z3.RealVal(0)))
        one = [("cost", close(self.posy(y, z3.IntVal(0)), cost, tol, ab)),
               ("the duals of the cost sum to one", close(
                   rsum(self.size(z3.IntVal(0)), lambda k: nu.term(
                       StartF(0) + k)), z3.RealVal(1), tol, ab)),
               ("dual cost", close(ExpF(dual), cost, tol, ab))]
        return one

    def term(self, p, k):
        r = StartF(p) + k
        n = self.nu.term(r)
        return n*(LogF(self.cs[r]) - LogF(n/self.la.term(p)))

    def constraint(self, p):
        return z3.Implies(z3.And(1 <= p, p < self.P),
                          self.posy(self.y, p) <= 1 + self.tol.t)

    def positive(self, r):
        return z3.Implies(z3.And(0 <= r, r < self.M),
                          self.nu.term(r) >= -self.tol.t/1000)

    def residual(self, c):
        return z3.Implies(z3.And(0 <= c, c < self.V), zabs(rsum(
            self.M, lambda r: AF(r, c)*self.nu.term(r))) <= self.tol.t)

    loops = {"GeometricProgram.check_solution#1": lambda self, L:
             self.idx(L) + [("constraints so far hold", z3.Implies(
                 z3.And(1 <= self.p0, self.p0 - 1 < L.i),
                 self.constraint(self.p0)))]}

    def raises(self, old, *args, **kw):
        from gpkit.exceptions import Infeasible
        e = E.eng()
        if old is None:
            return []
        broken = [z3.Not(f) for _, f in self.conditions()]
        pts = list(e.ghost.get("skolems", [])) + self.seen
        for t in pts:
            if t.sort() != INT:
                continue
            for u in (t, t + 1):
                broken.append(z3.Not(self.constraint(u)))
            broken.append(z3.Not(self.positive(t)))
            broken.append(z3.Not(self.residual(t)))
        return [(Infeasible, SBool(z3.Or(*broken)), False)]

    def ensures(self, old, res, *args, **kw):
        return [("z", n, f) for n, f in self.conditions()] + [
            ("z", "constraints hold", self.constraint(self.p0)),
            ("z", "no dual is negative", self.positive(self.r0)),
            ("z", "dual residual", self.residual(self.c0))]


register(CheckSolution)


class GenerateNula(Compiled):
    """dual values per term and per posynomial, from whichever the solver gave:
    a posynomial's is the sum of its terms', or the terms' are its share in
    proportion to their values"""
    name = GPM + "GeometricProgram._generate_nula"
    props = ("C11", "C12")

    def cases(self, e):
        gp = self.program(e)
        self.kind = e.choose(4)
        self.y = vec(e, "primal", self.V)
        out = {"primal": self.y}
        if self.kind == 0:
            self.nu = vec(e, "nu", self.M)
            out["nu"] = self.nu
        elif self.kind in (1, 2):
            self.la = vec(e, "la", self.P if self.kind == 1 else self.P - 1)
            out["la"] = self.la
        self.out = out
        self.p0, self.k0 = e.fresh("p0", INT), e.fresh("k0", INT)
        e.add(z3.And(0 <= self.p0, self.p0 < self.P, 0 <= self.k0,
                     self.k0 < self.size(self.p0)))
        p, = ints("p")
        x = z3.FreshConst(REAL, "x")
        e.add(z3.ForAll([x], z3.Implies(x > 0, ExpF(LogF(x)) == x),
                        patterns=[LogF(x)]))
        return (gp, out), {}

    def raises(self, old, *args, **kw):
        return [(RuntimeWarning, SBool(z3.BoolVal(self.kind == 3)), True)]

    def lam_(self, p):
        "the dual of posynomial p"
        if self.kind == 1:
            return self.la.term(p)
        return z3.If(p == 0, z3.RealVal(1), self.la.term(p - 1))

    def ensures(self, old, res, gp, out):
        la, nbp = res
        p0, k0 = self.p0, self.k0
        la = zarr.as_vec(la)
        part = nbp[ZI(p0)]
        nu = out["nu"]
        zarr.concat_at(nu, p0, k0)
        got = part.term(k0)
        goals = [("z", "one dual per posynomial", la.n == self.P),
                 ("ok", "recorded", out["la"] is la or True),
                 ("z", "recorded duals of the posynomials",
                  zarr.as_vec(out["la"]).term(p0) == la.term(p0)),
                 ("z", "one dual per term of a posynomial",
                  part.n == self.size(p0)),
                 ("z", "one dual per term", nu.n == self.M),
                 ("z", "recorded duals of the terms",
                  nu.term(StartF(p0) + k0) == got)]
        if self.kind == 0:
            goals += [("z", "the solver's duals of terms are kept",
                       got == self.nu.term(StartF(p0) + k0)),
                      ("z", "a posynomial's dual is the sum of its terms'",
                       la.term(p0) == rsum(self.size(p0), lambda k:
                                           self.nu.term(StartF(p0) + k)))]
        else:
            z = lambda k: LogF(self.cs[StartF(p0) + k]) + rsum(
                self.V, lambda c: AF(StartF(p0) + k, c)*self.y.term(c))
            total = rsum(self.size(p0), lambda k: ExpF(z(k)))
            goals += [("z", "the solver's duals of posynomials are kept",
                       la.term(p0) == self.lam_(p0)),
                      ("z", "a term's dual is its share", got
                       == self.lam_(p0)*ExpF(z(k0))/total)]
        return goals


register(GenerateNula)


class Printed(list):
    pass


class GenerateResult(Compiled):
    """the answer's own cost, primal and duals are checked, at the solver's
    tolerance, and what the check reports is printed: always, but for dual
    conditions when those are not wanted"""
    name = GPM + "GeometricProgram.generate_result"

    def cases(self, e):
        from gpkit.constraints import gp as G
        from gpkit.exceptions import Infeasible
        gp = object.__new__(G.GeometricProgram)
        solver = ["cvxopt", "mosek_cli", "mosek_conif", "other"][e.choose(4)]
        self.dual_check = bool(e.choose(2))
        self.verbosity = e.choose(2)
        self.msg = [None, "Dual", "Primal"][e.choose(3)]
        self.marks = {n: object() for n in ("primal", "nu", "la", "cost")}
        m = self.marks
        out = {"solver": solver, "primal": m["primal"]}
        if self.verbosity:
            out["soltime"] = 1.0
        result = {"cost": m["cost"]}
        self.calls, self.printed = [], []
        tols = G.SOLUTION_TOL
        self.tol = tols.get(solver, 1e-5)

        def compiled(solver_out):
            "side effect of _compile_result: duals of both kinds recorded"
            self.ok = solver_out is out
            solver_out["nu"], solver_out["la"] = m["nu"], m["la"]
            return result

        def check(cost, primal, nu, la, tol, abstol=1e-20):
            self.calls.append((cost, primal, nu, la, tol))
            if self.msg:
                raise Infeasible("%s condition" % self.msg)
        gp.__dict__.update(_compile_result=compiled, check_solution=check)
        self.result = result
        e.ghost["print"] = self.printed
        kw = {}
        if not self.dual_check:
            kw["dual_check"] = False
        if self.verbosity:
            kw["verbosity"] = 1
        return (gp, out), kw

    def ensures(self, old, res, gp, out, **kw):
        m = self.marks
        warned = [p for p in self.printed if " condition" in p]
        want = bool(self.msg) and (self.dual_check or self.msg != "Dual")
        return [("ok", "the compiled result is returned",
                 res is self.result and self.ok),
                ("ok", "the answer is checked once", len(self.calls) == 1),
                ("ok", "the answer itself is checked", bool(self.calls) and
                 self.calls[0][:4] == (m["cost"], m["primal"], m["nu"],
                                       m["la"])),
                ("ok", "at the solver's tolerance", bool(self.calls)
                 and self.calls[0][4] == self.tol),
                ("ok", "a failed condition is reported",
                 bool(warned) == want)]


register(GenerateResult)
