"""Contracts of the boundedness analysis (C13).

Der is an arbitrary set of bounds that contains the bounds given by
inequalities and is closed under the equality rules; (i0, k0, d0) an arbitrary
rule instance.  Proving the contracts for arbitrary Der and rule instance shows
that the bounds reported missing are exactly the complement of the least such
set."""
import z3
from . import engine as E
from .zv import (TInt, TObj, TEnum, TTup, TSet, TSeq, TMap, TText, ZMap, ZSet,
                 INT)
from .contracts import ZContract, register
from .values import SBool
from .specs_zgp import TVar, TExp, GPM, empty_default

TDir = TEnum("Dir", ["upper", "lower"])
TBound = TTup("Bound", TVar, TDir)
TBounds = TSet(TBound)
TMissing = TMap(TBound, TText)
TConds = TSet(TBounds)
TMeq = TMap(TBound, TConds)
TExps = TSeq(TExp)
U, LO = TDir.terms
b_ = z3.Const("b!q", TBound.sort)
c_ = z3.Const("c!q", TBound.sort)
C_ = z3.Const("C!q", TBounds.sort)
i_ = z3.Const("i!q", INT)
k_ = z3.Const("k!q", TVar.sort)
d_ = z3.Const("d!q", TDir.sort)
Der = z3.Const("Der", TBounds.sort)
b0 = z3.Const("b0", TBound.sort)
C0 = z3.Const("C0", TBounds.sort)
i0 = z3.Const("i0", INT)
k0 = z3.Const("k0", TVar.sort)
d0 = z3.Const("d0", TDir.sort)
kd = TBound.mk(k0, d0)
R_ = z3.Function("unmet", INT, TVar.sort, TDir.sort, TBound.sort)


def var(b):
    return TBound.get(b, 0)


def dir_(b):
    return TBound.get(b, 1)


def rule(exps, i, key, d):
    """for key to be bounded in direction d by the equality in row i: the other
    variables of the same sign in the other direction, those of the opposite
    sign in the same direction"""
    dom, val = TExp.domf(exps[i]), TExp.valf(exps[i])
    return lambda b: z3.And(
        dom[var(b)], var(b) != key,
        z3.If((val[var(b)] > 0) == (val[key] > 0), dir_(b) != d,
              dir_(b) == d))


def closed(exps, fh):
    "Der is closed under the rules (contrapositive, with a witness)"
    return z3.ForAll([i_, k_, d_], z3.Implies(
        z3.And(fh[i_], TExp.domf(exps[i_])[k_]),
        z3.Or(Der[TBound.mk(k_, d_)],
              z3.And(rule(exps, i_, k_, d_)(R_(i_, k_, d_)),
                     z3.Not(Der[R_(i_, k_, d_)])))),
        patterns=[z3.MultiPattern(fh[i_], Der[TBound.mk(k_, d_)])])


def covers(M):
    "what is not missing is derivable"
    return z3.ForAll([b_], z3.Or(M[b_], Der[b_]))


def conds_sound(dom, vals, b=b_, C=C_):
    f = z3.Implies(z3.And(dom[b], vals[b][C], z3.ForAll([c_], z3.Implies(
        C[c_], Der[c_]))), Der[b])
    return f if b is not b_ else z3.ForAll([b_, C_], f)


def within(W, pred):
    return z3.ForAll([b_], z3.Implies(W[b_], pred(b_)))


class _B(ZContract):
    props = ("C13",)

    def common(self, e):
        e.ghost["tuples"] = (TBound,)
        e.ghost["default_types"] = {set: lambda kt: TConds}
        e.ghost["default_value"] = empty_default
        e.ghost["roots"] = {}


def sel(m, T_):
    "(dom, vals) of a map that may be untyped (empty)"
    t = T_.empty if m.T is None else m.term
    return T_.dom(t), T_.vals(t)


class GenMeqBounds(_B):
    name = GPM + "gen_meq_bounds"
    var_types = {"p_upper": TBounds, "p_lower": TBounds, "n_upper": TBounds,
                 "n_lower": TBounds, "meq_bounds": TMeq}
    loop_locals = {}

    @staticmethod
    def allow_mut(args):
        return [args[0]]

    def cases(self, e):
        from gpkit.constraints import gp as G
        self.common(e)
        missing = TMissing.new("missing")
        exps = TExps.new("exps")
        fh = TSet(TInt).new("first_half")
        idx = object.__new__(G.MonoEqualityIndexes)
        idx.first_half = fh
        e.add(z3.ForAll([i_], z3.Implies(fh.term[i_], z3.And(
            0 <= i_, i_ < exps.n))))
        e.add(closed(exps.arr, fh.term))
        e.add(z3.And(fh.term[i0], TExp.domf(exps.arr[i0])[k0]))
        self.handled = []
        return (missing, exps, idx), {}

    def requires(self, missing, exps, idx):
        return [("z", "what is not missing is derivable",
                 covers(sel(missing, TMissing)[0])),
                ("z", "equality rows exist", z3.ForAll([i_], z3.Implies(
                    idx.first_half.term[i_],
                    z3.And(0 <= i_, i_ < exps.n))))]

    def pre(self, missing, exps, idx):
        M = sel(missing, TMissing)[0]
        e = E.eng()
        if e.top is self:
            e.add(covers(M))
        self.M0 = M
        return {"M": M}

    # -------------------------------------------------------- invariants
    def both(self, L, handled, cands=()):
        missing, exps, idx = self.args
        M = TMissing.dom(missing.term)
        D, V = sel(L.loc["meq_bounds"], TMeq)
        return [
            ("what is not missing is derivable", covers(M)),
            ("bounds are only removed", within(M, lambda b: self.M0[b])),
            ("conditions are sufficient", conds_sound(D, V, b0, C0)),
            ("conditions of every rule are kept", (
                "ex", "W", z3.And(handled, M[kd]),
                lambda W: z3.And(D[kd], V[kd][W], within(
                    W, rule(exps.arr, i0, k0, d0))), cands, TBounds.sort))]

    @property
    def args(self):
        return self._args

    def row(self, L):
        self._args = (L.loc["missingbounds"], L.loc["exps"],
                      L.loc["meq_idxs"])
        self.handled = []
        self.rowdone = L.done
        self.Mrow = TMissing.dom(self._args[0].term)
        return self.both(L, L.done[i0])

    def items(self, L):
        missing, exps, idx = self._args
        x = TExp.valf(L.src.owner.ident)
        M = self.Mrow
        out = []
        for nm, d, pos in (("p_upper", U, True), ("p_lower", LO, True),
                           ("n_upper", U, False), ("n_lower", LO, False)):
            s = TBounds.unwrap(L.loc[nm])
            sign = x[var(b_)] > 0 if pos else z3.Not(x[var(b_)] > 0)
            out.append((nm, z3.ForAll([b_], s[b_] == z3.And(
                L.done[var(b_)], M[b_], dir_(b_) == d, sign))))
        return out

    def inner(self, L):
        missing, exps, idx = self._args
        M = TMissing.dom(missing.term)
        i = TInt.unwrap(L.loc["i"])
        done = z3.Or(*[h[kd] for h in self.handled], L.done[kd])
        cands = [TBounds.unwrap(L.loc["needed"])] if isinstance(
            L.loc.get("needed"), ZSet) else []
        out = self.both(L, z3.Or(self.rowdone[i0], z3.And(i == i0, done)),
                        cands)
        out += [
            ("bounds are only removed in the row",
             within(M, lambda b: self.Mrow[b])),
            ("bounds not yet handled are still missing", z3.ForAll(
                [b_], z3.Implies(z3.And(self.Mrow[b_], z3.Not(z3.Or(
                    *[h[b_] for h in self.handled], L.done[b_]))), M[b_])))]
        if L.final:
            self.handled.append(L.dom)
        return out

    loops = {"gen_meq_bounds#1": row, "gen_meq_bounds#2": items,
             "gen_meq_bounds#4": inner, "gen_meq_bounds#6": inner}

    def fresh(self, old, missing, exps, idx):
        missing.put(TMissing.new("missing").term)
        missing._over += 1
        out = TMeq.new("meq_bounds")
        out.default = set
        return out

    def ensures(self, old, res, missing, exps, idx):
        top = E.eng().top is self
        M = sel(missing, TMissing)[0]
        D, V = sel(res, TMeq)
        out = [("z", "what is not missing is derivable", covers(M)),
               ("z", "bounds are only removed",
                within(M, lambda b: old["M"][b])),
               ("z", "the conditions of a bound imply it",
                conds_sound(D, V, b0, C0) if top else conds_sound(D, V))]
        if top:
            W = E.eng().ghost["wit"]["W"]
        else:
            W = E.eng().fresh("W", TBounds.sort)
            E.eng().ghost.setdefault("wit", {})["W"] = W
        out.append(("z", "every rule whose bound is missing has a condition",
                    z3.Implies(M[kd], z3.And(D[kd], V[kd][W], within(
                        W, rule(exps.arr, i0, k0, d0))))))
        return out


register(GenMeqBounds)


class FulfillMeqBounds(_B):
    name = GPM + "fulfill_meq_bounds"

    @staticmethod
    def allow_mut(args):
        return [args[0], args[1]]

    def cases(self, e):
        self.common(e)
        missing = TMissing.new("missing")
        mb = TMeq.new("meq_bounds")
        mb.default = set
        return (missing, mb), {}

    def requires(self, missing, mb):
        D, V = sel(mb, TMeq)
        return [("z", "what is not missing is derivable",
                 covers(sel(missing, TMissing)[0])),
                ("z", "the conditions of a bound imply it",
                 conds_sound(D, V))]

    def pre(self, missing, mb):
        e = E.eng()
        M = sel(missing, TMissing)[0]
        D, V = sel(mb, TMeq)
        if e.top is self:
            e.add(covers(M))
            e.add(conds_sound(D, V))
        self._old = {"M": M, "D": D, "V": V}
        return self._old

    def state(self, L):
        missing, mb = L.loc["missingbounds"], L.loc["meq_bounds"]
        return sel(missing, TMissing)[0], sel(mb, TMeq)

    def base(self, L):
        M, (D, V) = self.state(L)
        o = self.old
        return [
            ("what is not missing is derivable", covers(M)),
            ("bounds are only removed", within(M, lambda b: o["M"][b])),
            ("the conditions of missing bounds are untouched", z3.ForAll(
                [b_], z3.Implies(z3.Or(M[b_], D[b_]), z3.And(
                    D[b_] == o["D"][b_],
                    z3.Implies(D[b_], V[b_] == o["V"][b_])))))]

    @property
    def old(self):
        return self._old

    def settled(self, L, done, donec=None):
        "no condition of (b0, C0) is met, unless a change was made"
        M, (D, V) = self.state(L)
        alive = L.loc["still_alive"]
        alive = z3.BoolVal(alive) if isinstance(alive, bool) else alive.c
        unmet = z3.Exists([c_], z3.And(C0[c_], M[c_]))
        return [
            ("bounds passed are missing, or a change was made", z3.Or(
                alive, z3.ForAll([b_], z3.Implies(
                    z3.And(done(b_), D[b_]), M[b_])))),
            ("conditions passed are unmet, or a change was made", z3.Or(
                alive, z3.Implies(z3.And(done(b0), D[b0], V[b0][C0]),
                                  unmet)))]

    def outer(self, L):
        return self.base(L) + self.settled(L, lambda b: z3.BoolVal(True))

    def each(self, L):
        M, (D, V) = self.state(L)
        return self.base(L) + self.settled(L, lambda b: L.done[b]) + [
            ("no key is added", z3.ForAll([b_], z3.Implies(
                D[b_], L.dom[b_]))),
            ("bounds to come are there", z3.ForAll([b_], z3.Implies(
                z3.And(L.dom[b_], z3.Not(L.done[b_])), D[b_])))]

    def conds(self, L):
        M, (D, V) = self.state(L)
        return [("conditions passed are unmet", z3.Implies(
            L.done[C0], z3.Exists([c_], z3.And(C0[c_], M[c_]))))]

    def tidy(self, L):
        "the messages: the keys do not change any more"
        M, (D, V) = self.state(L)
        return [("the missing bounds do not change", M == self.M1),
                ("the keys do not change", D == self.D1)]

    def tidy_in(self, L):
        M, (D, V) = self.state(L)
        bound = TBound.unwrap((L.loc["var"], L.loc["bound"]))
        return [("the keys do not change", D == self.D1),
                ("conditions to come are there", z3.ForAll([i_], z3.Implies(
                    z3.And(L.i <= i_, i_ < L.n),
                    V[bound][TBounds.unwrap(L.src.at(i_))])))]

    def note(self, L):
        self.M1, (self.D1, _) = self.state(L)

    def tidy_start(self, L):
        if not L.final and L.first:
            self.note(L)
        return self.tidy(L)

    loops = {"fulfill_meq_bounds#1": outer, "fulfill_meq_bounds#2": each,
             "fulfill_meq_bounds#3": conds,
             "fulfill_meq_bounds#4": tidy_start,
             "fulfill_meq_bounds#5": tidy_in}

    def fresh(self, old, missing, mb):
        missing.put(TMissing.new("missing").term)
        mb.put(TMeq.new("meq_bounds").term)
        missing._over += 1
        mb._over += 1
        E.eng().ghost["missing"] = missing
        return None

    def ensures(self, old, res, missing, mb):
        e = E.eng()
        M = sel(missing, TMissing)[0]
        b, C = (b0, C0) if e.top is self else (kd, e.ghost["wit"]["W"])
        return [("z", "what is not missing is derivable", covers(M)),
                ("z", "bounds are only removed",
                 within(M, lambda b: old["M"][b])),
                ("z", "no condition of a missing bound is met", z3.Implies(
                    z3.And(M[b], old["D"][b], old["V"][b][C]),
                    z3.Exists([c_], z3.And(C[c_], M[c_]))))]


register(FulfillMeqBounds)


TLocs = TMap(TVar, TSeq(TInt))
v0 = z3.Const("v0", TVar.sort)
a0 = z3.Const("a0", INT)


class CheckBounds(_B):
    """what is reported missing is the complement of the least set of bounds
    that contains those of the inequality rows and is closed under the rules of
    the equality rows"""
    name = GPM + "GeometricProgram.check_bounds"
    var_types = {"missingbounds": TMissing}
    assumes = ("check_bounds: the row lists, exponents and equality rows are"
               " those gen() leaves (its contract, C08)",)

    def cases(self, e):
        from gpkit.constraints import gp as G
        self.common(e)
        locs, exps = TLocs.new("varlocs"), TExps.new("exps")
        locs.default = list
        gp = object.__new__(G.GeometricProgram)
        idx = object.__new__(G.MonoEqualityIndexes)
        idx.all = TSet(TInt).new("all")
        idx.first_half = TSet(TInt).new("first_half")
        gp.__dict__.update(varlocs=locs, varkeys=locs, exps=exps,
                           meq_idxs=idx)
        fh, al, ex = idx.first_half.term, idx.all.term, exps.arr
        D, V = sel(locs, TLocs)
        S = TLocs.val
        self.loc = lambda v, a: S.arr(V[v])[a]
        self.len = lambda v: S.len(V[v])
        v, a = z3.Const("v!q", TVar.sort), z3.Const("a!q", INT)
        row = self.loc(v, a)
        inr = z3.And(D[v], 0 <= a, a < self.len(v))
        xv = lambda v, a: TExp.valf(ex[self.loc(v, a)])[v]
        e.add(z3.ForAll([v, a], z3.Implies(inr, z3.And(
            0 <= row, row < exps.n, TExp.domf(ex[row])[v]))))
        e.add(z3.ForAll([i_], z3.Implies(fh[i_], z3.And(
            0 <= i_, i_ < exps.n))))
        e.add(closed(ex, fh))
        self.sign = lambda v, a: z3.If(xv(v, a) > 0, U, LO)
        e.add(z3.ForAll([v, a], z3.Implies(
            z3.And(inr, z3.Not(al[row])),
            Der[TBound.mk(v, self.sign(v, a))])))
        e.add(z3.ForAll([b_], z3.Implies(z3.Not(D[var(b_)]), Der[b_])))
        e.add(z3.And(fh[i0], TExp.domf(ex[i0])[k0]))
        e.add(z3.And(D[v0], 0 <= a0, a0 < self.len(v0),
                     z3.Not(al[self.loc(v0, a0)])))
        self.ineq = TBound.mk(v0, self.sign(v0, a0))
        self.ex = ex
        err = e.fresh("err_on_missing_bounds", z3.BoolSort())
        return (gp,), {"err_on_missing_bounds": SBool(err)}

    def outer(self, L):
        M = sel(L.loc["missingbounds"], TMissing)[0]
        return [
            ("only variables seen", within(M, lambda b: L.done[var(b)])),
            ("what is not missing is derivable", z3.ForAll([b_], z3.Implies(
                L.done[var(b_)], z3.Or(M[b_], Der[b_])))),
            ("no bound of an inequality is missing",
             z3.Not(M[self.ineq]))]

    def inner(self, L):
        x = TVar.unwrap(L.loc["var"])
        t = lambda f: z3.BoolVal(f) if isinstance(f, bool) else f.c
        up, lo = t(L.loc["upperbound"]), t(L.loc["lowerbound"])
        return [
            ("an upper bound is there", z3.Implies(
                up, Der[TBound.mk(x, U)])),
            ("a lower bound is there", z3.Implies(
                lo, Der[TBound.mk(x, LO)])),
            ("the bound of a row passed is noted", z3.Implies(
                z3.And(x == v0, a0 < L.i),
                z3.If(self.sign(v0, a0) == U, up, lo)))]

    loops = {"GeometricProgram.check_bounds#1": outer,
             "GeometricProgram.check_bounds#2": inner}

    def raises(self, old, gp, err_on_missing_bounds=False):
        from gpkit.exceptions import UnboundedGP
        missing = E.eng().ghost.get("missing")
        if missing is None:
            some = z3.BoolVal(True)
        else:
            M = sel(missing, TMissing)[0]
            some = z3.Exists([b_], M[b_])
        return [(UnboundedGP, SBool(z3.And(err_on_missing_bounds.c, some)),
                 False)]

    def ensures(self, old, res, gp, err_on_missing_bounds=False):
        from .zv import ZMap as ZM
        if isinstance(res, dict) and not isinstance(res, ZM):
            if res:
                raise TypeError(res)
            M = z3.K(TBound.sort, z3.BoolVal(False))
        else:
            M = sel(res, TMissing)[0]
        return [
            ("z", "bounds not reported are derivable", covers(M)),
            ("z", "no bound given by an inequality is reported",
             z3.Not(M[self.ineq])),
            ("z", "a bound reported is not given by any equality", z3.Implies(
                M[kd], z3.Exists([c_], z3.And(
                    M[c_], rule(self.ex, i0, k0, d0)(c_))))),
            ("z", "nothing is missing if errors are asked for", z3.Implies(
                err_on_missing_bounds.c, z3.ForAll([b_], z3.Not(M[b_]))))]


register(CheckBounds)



class AddMeqBounds(_B):
    """the bounded set grows to the least set that contains it and is closed
    under the equality conditions"""
    name = "gpkit.constraints.set:add_meq_bounds"

    @staticmethod
    def allow_mut(args):
        return [args[0], args[1]]

    def cases(self, e):
        self.common(e)
        bounded, mb = TBounds.new("bounded"), TMeq.new("meq_bounded")
        mb.default = set
        D, V = sel(mb, TMeq)
        B = bounded.term
        e.add(z3.ForAll([b_], z3.Implies(B[b_], Der[b_])))
        e.add(conds_sound(D, V))
        self._old = {"B": B, "D": D, "V": V}
        return (bounded, mb), {}

    def state(self, L):
        return TBounds.unwrap(L.loc["bounded"]), sel(
            L.loc["meq_bounded"], TMeq)

    def base(self, L):
        B, (D, V) = self.state(L)
        o = self._old
        return [
            ("what is bounded is derivable", z3.ForAll(
                [b_], z3.Implies(B[b_], Der[b_]))),
            ("bounds are only added", z3.ForAll(
                [b_], z3.Implies(o["B"][b_], B[b_]))),
            ("conditions are only removed with their bound", z3.ForAll(
                [b_], z3.And(
                    z3.Implies(o["D"][b_], z3.Or(D[b_], B[b_])),
                    z3.Implies(D[b_], z3.And(
                        o["D"][b_], V[b_] == o["V"][b_])))))]

    def settled(self, L, done):
        B, (D, V) = self.state(L)
        alive = L.loc["still_alive"]
        alive = z3.BoolVal(alive) if isinstance(alive, bool) else alive.c
        unmet = z3.Exists([c_], z3.And(C0[c_], z3.Not(B[c_])))
        return [
            ("conditions passed are unmet, or a change was made", z3.Or(
                alive, z3.Implies(z3.And(done(b0), D[b0], V[b0][C0]),
                                  unmet)))]

    def outer(self, L):
        return self.base(L) + self.settled(L, lambda b: z3.BoolVal(True))

    def each(self, L):
        B, (D, V) = self.state(L)
        at = lambda i: TBound.unwrap(L.src.at(i))
        j_ = z3.Const("j!q", INT)
        D0 = TMeq.dom(L.entry[L.loc["meq_bounded"]._pv_serial])
        return self.base(L) + [
            ("no key is added", z3.ForAll([b_], z3.Implies(
                D[b_], D0[b_]))),
            ("bounds to come are there", z3.ForAll([j_], z3.Implies(
                z3.And(L.i <= j_, j_ < L.n), D[at(j_)])))] + self.settled(
                    L, lambda b: z3.Exists([j_], z3.And(
                        0 <= j_, j_ < L.i, at(j_) == b)))

    def conds(self, L):
        B, (D, V) = self.state(L)
        return [("conditions passed are unmet", z3.Implies(
            L.done[C0], z3.Exists([c_], z3.And(C0[c_], z3.Not(B[c_])))))]

    loops = {"add_meq_bounds#1": outer, "add_meq_bounds#2": each,
             "add_meq_bounds#3": conds}

    def ensures(self, old, res, bounded, mb):
        B = TBounds.unwrap(bounded)
        o = self._old
        return [
            ("z", "what is bounded is derivable", z3.ForAll(
                [b_], z3.Implies(B[b_], Der[b_]))),
            ("z", "bounds are only added", z3.ForAll(
                [b_], z3.Implies(o["B"][b_], B[b_]))),
            ("z", "a bound with a condition that is met is bounded",
             z3.Implies(z3.And(o["D"][b0], o["V"][b0][C0], z3.ForAll(
                 [c_], z3.Implies(C0[c_], B[c_]))), B[b0]))]


register(AddMeqBounds)
