"""Contracts of the assembly of a solution and its sensitivities (C10, C11)."""
import z3
from . import engine as E
from . import rt
from . import zarr
from . import zv
from .engine import Unsupported
from .zarr import ZVec, ZList
from .zv import (TInt, TReal, TBool, TObj, TFMap, TSeq, TMap, TSet, TText,
                 ZMap, ZSeq, INT, REAL, BOOL, ZI, ZR)
from .contracts import ZContract, register
from .values import SBool
from .specs_zgp import GPM, fa, ints, TVar, TExp
from .specs_zcheck import vec

MATHM = "gpkit.nomials.math:"
TShare = TFMap("ShareT", TInt, TReal)
TOrig = TFMap("OrigT", TExp, TReal, ordered=True)
RRA = z3.ArraySort(INT, REAL)


def fm(T_, t):
    return T_.wrap(t)


def sel(T_, t, k):
    "the value of an entry, 0 if there is none"
    return z3.If(z3.Select(T_.domf(t), k), z3.Select(T_.valf(t), k),
                 z3.RealVal(0))


class Mmap(ZContract):
    """position i of the result holds, for every original term q that became
    the i-th new term, q's share of the new coefficient - and nothing else"""
    name = "gpkit.nomials.map:NomialMap.mmap"
    props = ("C11",)
    allow_mut = staticmethod(lambda args: [])

    def cases(self, e):
        from gpkit.nomials.map import NomialMap
        for T_ in (TExp, TOrig):
            for f in T_.axioms():
                e.add(f)
        o, s = TOrig.fresh("orig"), TOrig.fresh("new")
        self.o, self.s = o, s
        e.ghost["comp_type"] = TMap(TInt, TReal)
        Tm = TMap(TExp, TExp)
        expmap = Tm.new("expmap")
        csmap = TMap(TExp, TReal).new("csmap")
        k = z3.FreshConst(TExp.sort, "k")
        dom = Tm.dom(expmap.term)
        # substitution (C02) maps original terms to terms, positions are known
        e.add(z3.ForAll([k], z3.Implies(dom[k], z3.Select(TOrig.domf(o), k)),
                        patterns=[dom[k]]))
        h = z3.FreshConst(TExp.sort, "h")
        e.add(z3.ForAll([h], z3.Implies(z3.Select(TOrig.domf(s), h),
              z3.Select(TOrig.valf(s), h) != 0),
            patterns=[z3.Select(TOrig.domf(s), h)]))
        self.expmap, self.csmap = expmap, csmap
        self.e0 = e.fresh("e0", TExp.sort)
        self.i0 = e.fresh("i0", INT)
        e.add(z3.And(dom[self.e0], 0 <= self.i0, self.i0 < TOrig.nf(s)))
        me = MapSelf(TOrig, s, expmap, csmap)
        return (me, TOrig.wrap(o)), {}

    def new(self, k):
        return z3.Select(self.expmap.T.vals(self.expmap.term), k)

    def share(self, k):
        cs = self.csmap
        c = z3.If(z3.Select(cs.T.dom(cs.term), k),
                  z3.Select(cs.T.vals(cs.term), k),
                  z3.Select(TOrig.valf(self.o), k))
        return c/z3.Select(TOrig.valf(self.s), self.new(k))

    def entry(self, pmap, i, k, seen):
        "entry of original term k at position i, once `seen`"
        M = TMap(TInt, TReal)
        at = z3.Select(pmap.arr, i)
        q = TOrig.posf(self.o, k)
        n = self.new(k)
        here = z3.And(seen, z3.Select(TOrig.domf(self.s), n),
                      TOrig.posf(self.s, n) == i)
        return z3.And(z3.Select(M.dom(at), q) == here, z3.Implies(
            here, z3.Select(M.vals(at), q) == self.share(k)))

    def inv(self, L):
        pmap = L.loc["pmap"]
        return [("length", pmap.n == TOrig.nf(self.s)),
                ("entries so far", self.entry(pmap, self.i0, self.e0,
                                              L.done[self.e0]))]

    loops = {"NomialMap.mmap#1": inv}

    def ensures(self, old, res, me, orig):
        return [("z", "one entry per new term",
                 res.n == TOrig.nf(self.s)),
                ("z", "the shares of the original terms",
                 self.entry(res, self.i0, self.e0, z3.BoolVal(True)))]


class MapSelf(ZMap):
    "a NomialMap with what its substitution recorded"
    def __init__(self, T_, t, expmap, csmap):
        m = T_.wrap(t)
        ZMap.__init__(self, m.T, m.term, order=m.order)
        self.mut = False
        self.expmap, self.csmap = expmap, csmap


register(Mmap)


class Weights:
    """T(q): the dual weight of original term q: its shares of the new terms'
    duals, and of the constant moved to the right-hand side"""
    def weights(self, e, N, share, nu):
        "share(i): the i-th entry of the pmap; nu(i): dual of the i-th term"
        self.PF = z3.Function("shares_before", INT, INT, REAL)
        q, i = ints("q", "i")
        e.add(z3.ForAll([q], self.PF(q, 0) == 0, patterns=[self.PF(q, 0)]))
        e.add(z3.ForAll([q, i], z3.Implies(i >= 0, self.PF(q, i+1) ==
              self.PF(q, i) + sel(TShare, share(i), q)*nu(i)),
            patterns=[self.PF(q, i+1)]))
        self.share, self.nu_at = share, nu

    def unfold(self, i):
        "the definition of shares_before at i+1"
        q, = ints("q")
        E.eng().add(z3.ForAll([q], self.PF(q, i+1) == self.PF(q, i) + sel(
            TShare, self.share(i), q)*self.nu_at(i), patterns=[self.PF(q, i)]))

    def outer_inv(self, L, arr, K, N=None):
        q, = ints("q")
        self.unfold(L.i)
        return [("length", arr.n == K),
                ("weights so far", fa(q, z3.And(0 <= q, q < K),
                                      arr.arr[q] == self.PF(q, L.i)))]

    def inner_inv(self, L, arr, K, i, before):
        q, = ints("q")
        return [("length", arr.n == K),
                ("weights so far", fa(q, z3.And(0 <= q, q < K), arr.arr[q] ==
                 self.PF(q, i) + z3.If(L.done[q], z3.Select(TShare.valf(
                     self.share(i)), q)*self.nu_at(i), 0)))]


class Emptier:
    "a constraint that learns its sensitivities"
    v_ss = None


class PosySens(Weights, ZContract):
    """the sensitivity of a variable is the sum over the original terms of the
    term's dual weight times the variable's exponent in it; the constraint's
    is its dual"""
    name = MATHM + "PosynomialInequality.sens_from_dual"
    props = ("C11",)
    allow_mut = staticmethod(lambda args: [])

    def cases(self, e):
        from gpkit.nomials import math as M
        for T_ in (TExp, TOrig):
            for f in T_.axioms():
                e.add(f)
        self.K, self.N = e.fresh("K", INT), e.fresh("N", INT)
        self.orig = TOrig.fresh("orig")
        e.add(z3.And(self.K == TOrig.nf(self.orig), self.K >= 1, self.N >= 0))
        self.mapped, self.const = bool(e.choose(2)), False
        if self.mapped:
            self.const = bool(e.choose(2))
        con = object.__new__(M.PosynomialInequality)
        d = con.__dict__
        pres = Emptier()
        pres.hmap = TOrig.wrap(self.orig)
        d["unsubbed"] = [pres]
        self.nu = vec(e, "nu", self.N if self.mapped else self.K)
        self.la = TReal.new("la")
        q, = ints("q")
        if self.mapped:
            arr = e.fresh("pmap", z3.ArraySort(INT, TShare.sort))
            i, = ints("i")
            # positions are those of original terms (mmap)
            e.add(z3.ForAll([i, q], z3.Implies(z3.Select(TShare.domf(
                arr[i]), q), z3.And(0 <= q, q < self.K)),
                patterns=[z3.Select(TShare.domf(arr[i]), q)]))
            d["pmap"] = ZList(self.N, lambda i: TShare.wrap(arr[i]))
            self.weights(e, self.N, lambda i: arr[i],
                         lambda i: self.nu.term(i))
            if self.const:
                self.cm = TShare.fresh("const_mmap")
                e.add(z3.ForAll([q], z3.Implies(z3.Select(TShare.domf(
                    self.cm), q), z3.And(0 <= q, q < self.K)),
                    patterns=[z3.Select(TShare.domf(self.cm), q)]))
                d["const_mmap"] = TShare.wrap(self.cm)
                self.cc = TReal.new("const_coeff")
                e.add(z3.And(self.cc.t > 0, self.cc.t < 1))
                d["const_coeff"] = self.cc
        self.parent = self.gen = None
        if e.choose(2):
            self.parent = d["parent"] = Emptier()
        if e.choose(2):
            self.gen = d["generated_by"] = Emptier()
        d.setdefault("parent", None)
        d.setdefault("generated_by", None)
        self.v0 = e.fresh("v0", TVar.sort)
        # S(j): the sum over the first j original terms
        self.S = z3.Function("sens_before", INT, REAL)
        j, = ints("j")
        e.add(self.S(0) == 0)
        e.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.K), self.S(
            j+1) == self.S(j) + self.T(j)*sel(TExp, TOrig.keyf(
                self.orig, j), self.v0)), patterns=[self.S(j+1)]))
        self.con = con
        e.ghost["roots"] = {"self": con}
        return (con, self.la, self.nu, None), {}

    var_types = {"v_ss": TMap(TVar, TReal)}

    def T(self, q):
        if not self.mapped:
            return self.nu.term(q)
        t = self.PF(q, self.N)
        if self.const:
            t = t + sel(TShare, self.cm, q)*self.la.t*(
                (1 - self.cc.t)/self.cc.t)
        return t

    def nu_(self, L):
        return L.loc["nu_"]

    def maps(self, L):
        return self.outer_inv(L, self.nu_(L), self.K)

    def shares(self, L):
        return self.inner_inv(L, self.nu_(L), self.K,
                              zv.num_term(L.loc["i"]), L.before)

    def consts(self, L):
        q, = ints("q")
        arr = self.nu_(L)
        return [("length", arr.n == self.K),
                ("weights so far", fa(q, z3.And(0 <= q, q < self.K),
                 arr.arr[q] == self.PF(q, self.N) + z3.If(
                     L.done[q], z3.Select(TShare.valf(self.cm), q)*self.la.t
                     * ((1 - self.cc.t)/self.cc.t), 0)))]

    def got(self):
        v = self.con.__dict__["v_ss"]
        if v.T is None:
            return z3.RealVal(0)
        return z3.If(z3.Select(v.T.dom(v.term), self.v0),
                     z3.Select(v.T.vals(v.term), self.v0), z3.RealVal(0))

    def terms(self, L):
        E.eng().add(z3.Implies(L.i < self.K, self.S(L.i+1) == self.S(L.i)
                               + self.T(L.i)*sel(TExp, TOrig.keyf(
                                   self.orig, L.i), self.v0)))
        self.j = L.i
        return [("sensitivity so far", self.got() == self.S(L.i))]

    def vars_(self, L):
        j = self.j
        ex = TOrig.keyf(self.orig, j)
        return [("sensitivity so far", self.got() == self.S(j) + z3.If(
            L.done[self.v0], self.T(j)*z3.Select(TExp.valf(ex), self.v0),
            0))]

    loops = {"PosynomialInequality.sens_from_dual#1": maps,
             "PosynomialInequality.sens_from_dual#2": shares,
             "PosynomialInequality.sens_from_dual#3": consts,
             "PosynomialInequality.sens_from_dual#4": terms,
             "PosynomialInequality.sens_from_dual#5": vars_}

    def ensures(self, old, res, con, la, nu, _):
        v_ss, c = res
        v = v_ss
        val = z3.RealVal(0) if v.T is None else z3.If(
            z3.Select(v.T.dom(v.term), self.v0),
            z3.Select(v.T.vals(v.term), self.v0), z3.RealVal(0))
        return [("z", "sensitivity of each variable",
                 val == self.S(self.K)),
                ("z", "the constraint's sensitivity is its dual",
                 zv.num_term(c) == self.la.t),
                ("ok", "kept with the constraint", con.v_ss is v_ss),
                ("ok", "and with those it stands for",
                 (self.parent is None or self.parent.v_ss is v_ss) and
                 (self.gen is None or self.gen.v_ss is v_ss))]


register(PosySens)


class MeqSens(ZContract):
    """the two duals of an equality: nothing at the first, the difference (and
    the exponents scaled by it) at the second, after which it starts anew"""
    name = MATHM + "MonomialEquality.sens_from_dual"
    props = ("C11",)
    allow_mut = staticmethod(lambda args: [])

    def cases(self, e):
        from gpkit.nomials import math as M
        con = object.__new__(M.MonomialEquality)
        self.e = TExp.fresh("exp")
        self.la1, self.la2 = TReal.new("la1"), TReal.new("la2")
        ex = Scaled(self.e)
        pres = Emptier()
        pres.hmap = {ex: 1.0}
        con.__dict__.update(unsubbed=[pres], _las=[], parent=None,
                            generated_by=None)
        self.con = con
        return (con, self.la1, None, None), {}

    def invoke(self, con, la, nu, r):
        self.first = self.real(con, la, nu, r)
        self.second = self.real(con, self.la2, nu, r)
        return self.second

    def ensures(self, old, res, con, *a):
        f, s = self.first, self.second
        d = self.la1.t - self.la2.t
        return [("ok", "the first dual waits", len(f) == 2
                 and zv.zlen(f[0]) == 0 and not isinstance(f[1], ZR)
                 and f[1] == 0),
                ("z", "the constraint's sensitivity", zv.num_term(s[1]) == d),
                ("ok", "all exponents scaled", isinstance(s[0], Scaled)
                 and s[0].e is self.e),
                ("z", "scaled by the difference", getattr(
                    s[0], "by", z3.RealVal(0)) == d),
                ("ok", "a new solution starts anew",
                 len(con.__dict__["_las"]) == 0),
                ("ok", "kept with the constraint", con.v_ss is s[0])]


class Scaled:
    "exponents times a number (HashVector.__mul__, proved under C01)"
    def __init__(self, e, by=None):
        self.e, self.by = e, z3.RealVal(1) if by is None else by

    def __mul__(self, o):
        return Scaled(self.e, z3.simplify(self.by*zv.toreal(
            zv.num_term(o))))
    __rmul__ = __mul__

    def __neg__(self):
        return Scaled(self.e, -self.by)


register(MeqSens)
