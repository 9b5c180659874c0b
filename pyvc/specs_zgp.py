"""Contracts of the compilation of a geometric program into solver data (C08)."""
import z3
from . import engine as E
from . import rt
from . import zv
from .zv import (TInt, TReal, TBool, TObj, TFMap, TSeq, TMap, TSet, TSlice, ZSeq, ZMap,
                 INT, REAL, BOOL)
from .contracts import ZContract, register
from .values import SBool

GPM = "gpkit.constraints.gp:"

TVar = TObj("VarT")
TExp = TFMap("ExpT", TVar, TReal)
MeqF = z3.Function("from_meq", z3.DeclareSort("HmapT"), BOOL)
THmap = TFMap("HmapT", TExp, TReal, ordered=True,
              attrs={"from_meq": lambda h: SBool(MeqF(h.ident))})
THmaps = TSeq(THmap)
StartF = z3.Function("start", INT, INT)
CmF = z3.Function("meqs_before", INT, INT)
Seqs = TSeq(TInt)


def empty_default(factory, T_):
    if factory is list or factory is set:
        return T_.empty
    if factory is int or factory is float:
        return T_.unwrap(factory())
    raise E.Unsupported("default factory %r" % (factory,))


def fa(*args):
    "ForAll with conclusion under guard: fa(x, .., guard, body)"
    *xs, guard, body = args
    return z3.ForAll(list(xs), z3.Implies(guard, body))


def ints(*names):
    return [z3.FreshConst(INT, n) for n in names]


class Gen(ZContract):
    """the solver data represent the posynomials: for every posynomial p and
    every term q of it there is one row, start(p)+q, holding that term's
    coefficient, exponents and posynomial index; every exponent of every row
    appears exactly once, in its variable's column, and nothing else nonzero
    appears"""
    name = GPM + "GeometricProgram.gen"
    props = ("C08",)
    allow_mut = staticmethod(lambda args: [])

    def cases(self, e):
        from gpkit.constraints import gp as G
        for f in THmap.axioms():
            e.add(f)
        p, = ints("p")
        hm = TSeq(THmap).new("hmaps")
        N = hm.n
        self.N, self.harr = N, hm.arr
        e.add(N >= 1)
        e.add(StartF(0) == 0)
        e.add(CmF(0) == 0)
        h = z3.Select(hm.arr, p)
        e.add(z3.ForAll([p], z3.Implies(p >= 0, z3.And(
            StartF(p+1) == StartF(p) + THmap.nf(h),
            CmF(p+1) == CmF(p) + z3.If(MeqF(h), 1, 0))),
            patterns=[StartF(p+1)]))
        e.add(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < N),
                                        THmap.nf(h) >= 1), patterns=[h]))
        q, = ints("q")
        e.oblige_z("lemma: start is monotone (base)", fa(
            p, p >= 0, StartF(p) <= StartF(p)))
        e.oblige_z("lemma: start is monotone (step)", fa(
            p, q, z3.And(0 <= p, p <= q, StartF(p) <= StartF(q)),
            StartF(p) <= StartF(q+1)))
        e.add(z3.ForAll([p, q], z3.Implies(
            z3.And(0 <= p, p <= q), StartF(p) <= StartF(q)),
            patterns=[z3.MultiPattern(StartF(p), StartF(q))]))
        # one arbitrary term: posynomial p0, position q0, row r0; variable v0
        self.p0, self.q0 = e.fresh("p0", INT), e.fresh("q0", INT)
        self.v0 = e.fresh("v0", TVar.sort)
        h0 = z3.Select(hm.arr, self.p0)
        e.add(z3.And(0 <= self.p0, self.p0 < N, 0 <= self.q0,
                     self.q0 < THmap.nf(h0)))
        self.e0 = THmap.keyf(h0, self.q0)
        self.c0 = z3.Select(THmap.valf(h0), self.e0)
        self.r0 = StartF(self.p0) + self.q0
        self.meq0 = MeqF(h0)
        e.add(StartF(self.p0+1) == StartF(self.p0) + THmap.nf(h0))
        gp = object.__new__(G.GeometricProgram)
        gp.__dict__["hmaps"] = hm
        self.gp, self.hm = gp, hm
        e.ghost["roots"] = {"self": gp}
        e.ghost["tuples"] = ()
        e.ghost["default_types"] = {
            list: lambda kt: TSeq(TInt)}
        e.ghost["default_value"] = empty_default
        meq = object.__new__(G.MonoEqualityIndexes)
        return (gp,), {}

    var_types = {"p_idxs": TSeq(TInt), "exps": TSeq(TExp), "cs": TSeq(TReal),
                 "m_idxs": TSeq(TSlice), "row": TSeq(TInt), "col": TSeq(TInt),
                 "data": TSeq(TReal), "varlocs": TMap(TVar, TSeq(TInt)),
                 "all": TSet(TInt), "first_half": TSet(TInt)}

    # -------------------------------------------------------- invariants
    def has0(self):
        return z3.Select(TExp.domf(self.e0), self.v0)

    def state(self, L):
        g = self.gp.__dict__
        return g

    def rows(self, i, m, g):
        "what is known of the per-monomial lists after i posynomials, m rows"
        p0, r0 = self.p0, self.r0
        n = lambda s: s.n
        at = lambda s, k: z3.Select(s.arr, k)
        out = []
        for nm in ("p_idxs", "exps", "cs"):
            out.append(("length of " + nm, n(g[nm]) == m))
        out.append(("number of m_idxs", n(g["m_idxs"]) == i))
        if g["m_idxs"].T is not None:
            out += [
                ("rows of p0", z3.Implies(p0 < i, z3.And(
                    at(g["p_idxs"], r0) == p0,
                    at(g["exps"], r0) == self.e0,
                    at(g["cs"], r0) == self.c0,
                    at(g["m_idxs"], p0) == TSlice.mk(
                        StartF(p0), StartF(p0+1)))))]
        return out

    def occ(self, g, m, cur=None, done=None):
        """varlocs lists, increasing, the rows < m (and row m for the
        variables in `done`) whose exponents mention the variable"""
        vl = g["varlocs"]
        if vl.T is None:
            return [("no variables yet", m == 0)]
        T_ = vl.T
        S = T_.val
        term = vl.term
        dom, vals = T_.dom(term), T_.vals(term)
        v = z3.FreshConst(TVar.sort, "v")
        a, b = ints("a", "b")
        ln = lambda v: S.len(z3.Select(vals, v))
        loc = lambda v, a: z3.Select(S.arr(z3.Select(vals, v)), a)
        ex = g["exps"].arr
        below = lambda v, r: r < m if done is None else z3.Or(
            r < m, z3.And(r == m, done[v]))
        out = [
            ("lists of rows are not empty", fa(v, dom[v], ln(v) >= 1)),
            ("rows in the lists hold the variable", fa(
                v, a, z3.And(dom[v], 0 <= a, a < ln(v)), z3.And(
                    0 <= loc(v, a), below(v, loc(v, a)),
                    z3.Select(TExp.domf(ex[loc(v, a)]), v)))),
            ("lists are increasing", fa(
                v, a, b, z3.And(dom[v], 0 <= a, a < b, b < ln(v)),
                loc(v, a) < loc(v, b)))]
        v0, r0 = self.v0, self.r0
        covered = z3.And(self.has0(), r0 < m if done is None else z3.Or(
            r0 < m, z3.And(r0 == m, done[v0])))
        pred = lambda c: z3.And(dom[v0], 0 <= c, c < ln(v0),
                                loc(v0, c) == r0)
        out.append(("every occurrence is listed", ("ex", "w", covered, pred,
                                                   [ln(v0) - 1])))
        return out

    def meqs(self, g, i, m):
        mi = g["meq_idxs"]
        al, fh = mi.all, mi.first_half
        out = [("number of equality rows", al.card == CmF(i)),
               ("number of first halves", fh.card*2 == CmF(i) + CmF(i) % 2)]
        r = z3.FreshConst(INT, "r")
        for nm, s in (("all", al), ("first half", fh)):
            if s.T is not None:
                out.append(("%s: rows so far" % nm, fa(
                    r, z3.Select(s.term, r), z3.And(0 <= r, r < m))))
        here = z3.And(self.p0 < i, self.meq0)
        st = StartF(self.p0)
        sel = lambda s: z3.BoolVal(False) if s.T is None else \
            z3.Select(s.term, st)
        first = z3.And(here, CmF(self.p0) % 2 == 0)
        out += [("p0 among the equalities", z3.Implies(
            self.p0 < i, sel(al) == self.meq0)),
            ("p0 among the first halves", z3.Implies(
                self.p0 < i, sel(fh) == first)),
            ("row of p0 passed", z3.Implies(self.p0 < i, st < m))]
        return out

    def coo(self, L, g, m, exps_done):
        row, col, data = L.loc["row"], L.loc["col"], L.loc["data"]
        out = [("row, col, data of equal length",
                z3.And(row.n == col.n, row.n == data.n))]
        if row.T is None:
            return out
        k, = ints("k")
        at = lambda s, k: z3.Select(s.arr, k)
        zero = z3.RealVal(0)
        out += [
            ("entries so far are zeros in column 0", fa(
                k, z3.And(0 <= k, k < row.n), z3.And(
                    at(col, k) == 0, at(data, k) == zero,
                    0 <= at(row, k), at(row, k) < m)))]
        empty0 = TExp.domf(self.e0) == z3.K(TVar.sort, False)
        out.append(("a constant term has its entry", (
            "ex", "z", z3.And(empty0, self.r0 < m),
            lambda c: z3.And(0 <= c, c < row.n, at(row, c) == self.r0),
            [row.n - 1])))
        return out

    def outer(self, L):
        g = self.gp.__dict__
        i = L.i
        m = zv.num_term(L.loc["m_idx"])
        out = [("rows so far", m == StartF(i)), ("m >= 0", m >= 0)]
        out += self.rows(i, m, g) + self.occ(g, m) + self.meqs(g, i, m) \
            + self.coo(L, g, m, i)
        out.append(("r0 counted", z3.And(
            z3.Implies(self.p0 < i, self.r0 < m),
            z3.Implies(self.p0 >= i, self.r0 >= m))))
        return out

    def terms(self, L):
        "after i of the terms of posynomial p_idx"
        g = self.gp.__dict__
        p = zv.num_term(L.loc["p_idx"])
        m = zv.num_term(L.loc["m_idx"])
        m0 = zv.num_term(L.before["m_idx"])
        # instances of the lemma and of the definition of start
        E.eng().add(z3.And(
            StartF(p+1) == StartF(p) + THmap.nf(self.harr[p]),
            z3.Implies(p < self.p0, StartF(p+1) <= StartF(self.p0)),
            z3.Implies(p > self.p0, StartF(self.p0+1) <= StartF(p))))
        return [("rows so far", m == m0 + L.i), ("m >= 0", m >= 0),
                ("the row of r0", z3.Implies(
                    z3.And(self.r0 == m, L.i < L.n),
                    z3.And(self.p0 == p, self.q0 == L.i)))] \
            + self.occ(g, m) + self.coo(L, g, m, p)

    def vars_(self, L):
        g = self.gp.__dict__
        m = zv.num_term(L.loc["m_idx"])
        return self.occ(g, m, done=L.done)

    def cols(self, L):
        g = self.gp.__dict__
        row, col, data = L.loc["row"], L.loc["col"], L.loc["data"]
        out = [("row, col, data of equal length",
                z3.And(row.n == col.n, row.n == data.n))]
        vl = g["varlocs"]
        if row.T is None or col.T is None or data.T is None or vl.T is None:
            return out
        n, keyat, pos = L_order(L)
        at = lambda s, k: z3.Select(s.arr, k)
        ex = g["exps"].arr
        k, l = ints("k", "l")
        ok = lambda k: z3.And(0 <= k, k < row.n)
        M = self.M()
        var = lambda k: keyat(at(col, k))
        out += [
            ("entries: in a column seen, 0 <= row", fa(
                k, ok(k), z3.And(at(row, k) >= 0, at(row, k) < M,
                                 0 <= at(col, k),
                                 z3.Or(at(col, k) < L.i,
                                       at(data, k) == 0)))),
            ("nonzero entries are exponents", fa(
                k, z3.And(ok(k), at(data, k) != 0), z3.And(
                    z3.Select(TExp.domf(ex[at(row, k)]), var(k)),
                    at(data, k) == z3.Select(TExp.valf(ex[at(row, k)]),
                                             var(k))))),
            ("no two nonzero entries at one place", fa(
                k, l, z3.And(ok(k), ok(l), k < l, at(data, k) != 0,
                             at(data, l) != 0),
                z3.Or(at(row, k) != at(row, l), at(col, k) != at(col, l))))]
        v0, r0 = self.v0, self.r0
        a0 = E.eng().ghost.get("wit", {}).get("w")
        cov = z3.And(self.has0(), pos(v0) < L.i)
        pred = lambda c: z3.And(
            0 <= c, c < row.n, at(row, c) == r0, at(col, c) == pos(v0),
            at(data, c) == z3.Select(TExp.valf(self.e0), v0))
        cands = []
        if "row" in L.before and a0 is not None:
            n0 = self.rown
            cands = [n0 + a0] if n0 is not None else []
        out.append(("every exponent has its entry",
                    ("ex", "y", cov, pred, cands)))
        empty0 = TExp.domf(self.e0) == z3.K(TVar.sort, False)
        out.append(("a constant term keeps its entry", (
            "ex", "z2", empty0,
            lambda c: z3.And(0 <= c, c < row.n, at(row, c) == r0),
            [E.eng().ghost.get("wit", {}).get("z")] if E.eng().ghost.get("wit", {}).get("z") is not None else [])))
        # length of the lists when this iteration began
        self.rown = row.n
        return out

    rown = None

    def M(self):
        return StartF(self.N)

    loops = {"GeometricProgram.gen#1": outer,
             "GeometricProgram.gen#2": terms,
             "GeometricProgram.gen#3": vars_,
             "GeometricProgram.gen#4": cols}

    def ensures(self, old, res, gp):
        g = gp.__dict__
        at = lambda s, k: z3.Select(s.arr, k)
        r0, p0, v0 = self.r0, self.p0, self.v0
        M = self.M()
        k = z3.FreshConst(INT, "k")
        h = z3.Select(self.harr, p0)
        out = [("z", "k: number of terms of each posynomial", z3.And(
                    g["k"].n == self.N, at(g["k"], p0) == THmap.nf(h))),
               ("z", "one row per term", z3.And(
                   g["exps"].n == M, g["cs"].n == M, g["p_idxs"].n == M,
                   g["m_idxs"].n == self.N)),
               ("z", "the row of a term holds its coefficient",
                at(g["cs"], r0) == self.c0),
               ("z", "the row of a term holds its exponents",
                at(g["exps"], r0) == self.e0),
               ("z", "the row of a term names its posynomial",
                at(g["p_idxs"], r0) == p0),
               ("z", "the slice of a posynomial is its rows",
                at(g["m_idxs"], p0) == TSlice.mk(StartF(p0), StartF(p0+1)))]
        sel = lambda s: z3.BoolVal(False) if s.T is None else \
            z3.Select(s.term, StartF(p0))
        mi = g["meq_idxs"]
        out += [("z", "the equality rows are marked",
                 sel(mi.all) == self.meq0),
                ("z", "the first of each pair of equality rows is marked",
                 sel(mi.first_half) == z3.And(self.meq0,
                                              CmF(p0) % 2 == 0))]
        A = g["A"]
        row, col, data = A.row, A.col, A.data
        vi = g["varidxs"]
        j0 = vi._peek(v0)
        ok = lambda k: z3.And(0 <= k, k < row.n)
        c = z3.FreshConst(INT, "c")
        out += [
            ("ok", "no posynomial is left out", True),
            ("z", "each variable has a column", z3.Implies(
                self.has0(), vi.has(v0)))]
        y = E.eng().ghost.get("wit", {}).get("y")
        if row.T is None:
            out.append(("z", "no entries without variables or constants",
                        z3.BoolVal(False)))
            return out
        val0 = z3.Select(TExp.valf(self.e0), v0)
        if y is not None:
            out.append(("z", "A has each exponent at (its row, its column)",
                        z3.Implies(self.has0(), z3.And(
                            0 <= y, y < row.n, at(row, y) == r0,
                            at(col, y) == j0, at(data, y) == val0))))
        else:
            out.append(("z", "without columns no variable occurs",
                        z3.Not(self.has0())))
        k, l = ints("k", "l")
        out += [
            ("z", "every nonzero entry of A is an exponent of its row", fa(
                k, z3.And(ok(k), at(data, k) != 0, at(row, k) == r0,
                          at(col, k) == j0, vi.has(v0)),
                z3.And(self.has0(), at(data, k) == val0))),
            ("z", "no entry of A is outside its rows and columns", fa(
                k, z3.And(ok(k), at(data, k) != 0), z3.And(
                    0 <= at(row, k), at(row, k) < M,
                    0 <= at(col, k), at(col, k) < self.ncols(vi)))),
            ("z", "no exponent is entered twice", fa(
                k, l, z3.And(ok(k), ok(l), k < l, at(data, k) != 0,
                             at(data, l) != 0),
                z3.Or(at(row, k) != at(row, l), at(col, k) != at(col, l))))]
        return out

    def ncols(self, vi):
        return vi.order[0]


def L_order(L):
    keyat, pos, _, _ = L.src.order
    return L.n, keyat, pos


register(Gen)
