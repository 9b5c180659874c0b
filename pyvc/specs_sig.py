"""Signomial inequalities (C07).

At the point x0 (the ghost valuation L, x0[k] = exp(L_k), 1 where the user
gives none) the approximation has the signomial's value and gradient; G is
another, arbitrary point.  The negative part is replaced by a monomial lower
bound of a posynomial N with  signomial(G) = lower(G) - N(G);  so wherever
lower <= bound (<= N: lemmas/Approx.lean), the signomial is <= 0."""
import z3
from . import engine as E
from . import dicts as D
from . import rt
from . import poly as P
from .contracts import Contract, register, REGISTRY
from .dicts import fold_of
from .poly import Poly
from .values import SReal, SBool, to_poly, eq_zero, snot
from .specs_arith import gp, ONE, ZERO, number
from .specs_map import NMT
from .specs_nomial import (nomial, is_nomial, nval, ndim, has_u, toggle, enabled,
                           class_goals, fresh_nomial)
from .specs_sub import SubsToken, ghost_valuation, fixed_map
from .specs_ineq import ineq_class, operand
from . import specs_approx

FULL = {"hv": NMT["hv"] + ["lmv2", "gm", "off"],
        "nm": NMT["nm"] + ["dd", "evg"]}


def _off(k, v, p):
    if not D.is_symkey(k):
        return z3.IntVal(0)
    e = E.eng()
    d = eq_zero(e.norm(to_poly(v) - P.mk_exp(D.Lk(k))))
    if isinstance(d, bool):
        return z3.IntVal(0 if d else 1)
    return z3.If(d.c, z3.IntVal(0), z3.IntVal(1))


# how many entries differ from the point x0
D.deffold("off", ("hv",), "count", _off)


class PointArg:
    "the user's x0: gives some variables their values; the rest are 1"
    pv_symbolic = True

    def __init__(self):
        self.known = []

    def __contains__(self, k):
        for key, r in self.known:
            if D.same_key(key, k):
                return r
        e = E.eng()
        r = bool(e.choose(2, "is the variable in x0?"))
        if not r:
            e.assume_zero(D.Lk(k))
        self.known.append((k, r))
        return r

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return SReal(P.mk_exp(D.Lk(k)))

    def get(self, k, default=None):
        return self[k] if k in self else default


class NoPoint(PointArg):
    "{}: every variable is 1"
    def __contains__(self, k):
        E.eng().assume_zero(D.Lk(k))
        return False


def sig_class(base=None):
    return ineq_class(base or gp().SignomialInequality)


def bounds():
    return E.eng().ghost["bounds"]


class GPConstr(Contract):
    props = ("C07",)
    track = FULL
    lemmas = ("Approx.lean",)

    def setup(self, e):
        e.ghost["bounds"] = []
        e.ghost["inits"] = []
        e.ghost["gpow"] = lambda k, x: Poly.z(D.GP(D.kterm(k), e.z(x)))
        return toggle(e)

    def applies(self, s, x0):
        return "gpconstrs" in E.eng().ghost

    def cases(self, e):
        s = object.__new__(sig_class())
        sig = nomial(e, gp().Signomial, "sig")
        s.unsubbed = [sig]
        s.parent = None
        x0 = [PointArg, NoPoint][e.choose(2)]()
        return (s, x0), {}

    def pre(self, s, x0):
        if E.eng().top is not self:
            return {}
        sig, = s.unsubbed
        return {"sig": sig, "vals": {f: fold_of(sig.hmap, f) for f in
                                     ("ev", "dd", "evg") if f in
                                     sig.hmap._pv_st.folds}}


@register
class AsGPConstr(GPConstr):
    name = "gpkit.nomials.math:SignomialInequality.as_gpconstr"

    def raises(self, old, s, x0):
        # without a positive or negative part there is nothing to approximate
        if E.eng().top is not self:
            return []
        return [(AttributeError, True, False), (TypeError, True, False)]

    def ensures(self, old, r, s, x0):
        g = gp()
        e = E.eng()
        if e.top is not self:
            return []
        calls = e.ghost["inits"]
        gs = [("ok", "a posynomial inequality", len(calls) == 1 and
               r is calls[0][0] and isinstance(r, g.PosynomialInequality)),
              ("ok", "generated by this constraint", getattr(
                  r, "generated_by", None) is s)]
        if not calls:
            return gs
        _, left, oper, right = calls[0]
        lo, hi = (left, right) if oper == "<=" else (right, left)
        zero = isinstance(lo, int) and lo == 0      # nothing positive
        gs.append(("ok", "has two sides", (zero or is_nomial(lo))
                   and is_nomial(hi)))
        if not gs[-1][2]:
            return gs
        sc = u_of(old["sig"])
        N = [p for p, q in bounds() if q is hi]
        gs += [("ok", "of known operator", oper in ("<=", ">=")),
               ("ok", "upper side is a monomial bound of a posynomial",
                len(N) == 1 and isinstance(N[0], g.Posynomial)),
               ("eq", "dimension of the upper side", ndim(hi),
                ndim(old["sig"])),
               ("eq", "scale of the upper side", u_of(hi), sc)]
        if not zero:
            gs += [("eq", "dimension of the lower side", ndim(lo),
                    ndim(old["sig"])),
                   ("eq", "scale of the lower side", u_of(lo), sc)]

        def low(f):
            return ZERO if zero else fold_of(lo.hmap, f)
        gs += [("eq", "exact at the point", low("ev")
                - fold_of(hi.hmap, "ev"), old["vals"]["ev"]),
               ("eq", "tangent at the point", low("dd")
                - fold_of(hi.hmap, "dd"), old["vals"]["dd"])]
        if len(N) == 1:
            gs += [("eq", "what is bounded is the negative part (any point)",
                    low("evg") - fold_of(N[0].hmap, "evg"),
                    old["vals"]["evg"]),
                   ("z", "which has positive terms", fold_of(
                       N[0].hmap, "npos") == 0)]
        return gs


def u_of(x):
    from .specs_nomial import uscale
    return uscale(x)


@register
class SigIneqInit(Contract):
    """0 >= (lower - upper side); what it bounds is what its approximation
    at 1 bounds"""
    name = "gpkit.nomials.math:SignomialInequality.__init__"
    props = ("C07",)
    track = NMT
    assumes = ["SignomialInequality.__init__: the contents of .vks are not"
               " part of its contract"]

    def setup(self, e):
        e.ghost["opaque_sets"] = True
        e.ghost["gpconstrs"] = []
        return toggle(e)

    def applies(self, s, left, oper, right):
        return "sinits" in E.eng().ghost

    def fresh(self, old, s, left, oper, right):
        E.eng().ghost["inits"].append((s, left, oper, right))

    def cases(self, e):
        s = object.__new__(sig_class())
        oper = ["<=", ">=", "="][e.choose(3)]
        kinds = ["pm", "ps", "sp", "nm", "ss", "sn", "mp"][e.choose(7)]
        ops = [nomial(e, gp().Signomial, t) if k == "s" else
               operand(e, k, t) for k, t in zip(kinds, "lr")]
        return (s, ops[0], oper, ops[1]), {}

    def pre(self, s, left, oper, right):
        if E.eng().top is not self:
            return {}
        if has_u(left) != has_u(right):
            return {"same": False}   # one is dimensionless: never mixed
        return {"same": eq_zero(E.eng().norm(ndim(left) - ndim(right)))}

    def raises(self, old, s, left, oper, right):
        g = gp()
        if E.eng().top is not self:
            return []
        if not enabled():
            return [(TypeError, True, True)]
        return [(ValueError, oper not in ("<=", ">="), True),
                (g.DimensionalityError, snot(old["same"]), True)]

    def ensures(self, old, r, s, left, oper, right):
        if E.eng().top is not self:
            return []
        lo, hi = (left, right) if oper == "<=" else (right, left)
        g = gp()
        gc = E.eng().ghost["gpconstrs"]
        ok = isinstance(s.unsubbed, list) and len(s.unsubbed) == 1 and \
            is_nomial(s.unsubbed[0])
        gs = [("ok", "one signomial is stored", ok)]
        if not ok:
            return gs
        sig, = s.unsubbed
        return gs + class_goals(sig) + [
            ("eq", "signomial <= 0 is lower <= upper side", nval(sig),
             nval(lo) - nval(hi)),
            ("eq", "left is kept", nval(s.left), nval(left)),
            ("eq", "right is kept", nval(s.right), nval(right)),
            ("ok", "operator is kept", s.oper == oper),
            ("ok", "bounds are those of an approximation", any(
                s.bounded is c.bounded for c in gc))]


def _gp_fresh(self, old, s, x0):
    class Approximation:
        pv_symbolic = True
    c = Approximation()
    c.bounded, c.meq_bounded = object(), object()
    E.eng().ghost["gpconstrs"].append(c)
    return c


AsGPConstr.fresh = _gp_fresh


@register
class SigEqGPConstr(GPConstr):
    """posy == negy, each replaced by its monomial bound at the point: exact
    and tangent there"""
    name = "gpkit.nomials.math:SingleSignomialEquality.as_gpconstr"
    lemmas = ()

    def setup(self, e):
        undo = GPConstr.setup(self, e)
        e.ghost["meqs"] = []
        return undo

    def applies(self, s, x0):
        return False

    def cases(self, e):
        (s, x0), kw = GPConstr.cases(self, e)
        s.__class__ = sig_class(gp().SingleSignomialEquality)
        return (s, x0), kw

    def raises(self, old, s, x0):
        return [(AttributeError, True, False)]    # an absent part, or refused

    def ensures(self, old, r, s, x0):
        calls = E.eng().ghost["meqs"]
        gs = [("ok", "a monomial equality", len(calls) == 1
               and r is calls[0][2]),
              ("ok", "generated by this constraint", getattr(
                  r, "generated_by", None) is s)]
        if not calls:
            return gs
        a, b, _ = calls[0]
        N = {id(q): p for p, q in bounds()}
        ok = id(a) in N and id(b) in N
        gs.append(("ok", "between monomial bounds", ok))
        if not ok:
            return gs
        # either order: the positive part is the one that adds up
        d = {f: fold_of(a.hmap, f) - fold_of(b.hmap, f) for f in ("ev", "dd")}
        pa, pb = N[id(a)], N[id(b)]
        sg = E.eng().norm(fold_of(pa.hmap, "evg") - fold_of(pb.hmap, "evg")
                          - old["vals"]["evg"]).is_zero()
        sign = 1 if sg else -1
        for f, nm in (("ev", "exact at the point"),
                      ("dd", "tangent at the point")):
            gs.append(("eq", nm, d[f].scale(sign), old["vals"][f]))
        gs.append(("eq", "of the positive and the negative part",
                   (fold_of(pa.hmap, "evg") - fold_of(pb.hmap, "evg"))
                   .scale(sign), old["vals"]["evg"]))
        return gs


@register
class MonoEq(Contract):
    "the constraint that two monomials are equal, or False"
    name = "gpkit.nomials.math:Monomial.__eq__"
    props = ("C06",)
    track = NMT

    def setup(self, e):
        e.ghost["meqs"] = []
        return toggle(e)

    def applies(self, s, other):
        return "meqs" in E.eng().ghost and is_nomial(other)

    def cases(self, e):
        return (nomial(e, gp().Monomial, "s"),
                nomial(e, gp().Monomial, "o")), {}

    def fresh(self, old, s, other):
        e = E.eng()
        if e.choose(2, "refused") == 1:
            return False

        class Equality:
            pv_symbolic = True
        r = Equality()
        r.meq_bounded = object()
        e.ghost["meqs"].append((s, other, r))
        return r

    def raises(self, old, s, other):
        # m == c*m can never hold
        return [(gp().PrimalInfeasible, True, False)] \
            if E.eng().top is self else []

    def ensures(self, old, r, s, other):
        e = E.eng()
        if e.top is not self:
            return []
        c = e.ghost.get("minit", [])
        if r is False:
            return [("ok", "an equality unless refused",
                     not c or c[0][0] is None)]
        return [("ok", "a monomial equality", len(c) == 1 and c[0][0] is r),
                ("ok", "of both operands", len(c) == 1 and
                 ((c[0][1] is s and c[0][2] is other) or
                  (c[0][1] is other and c[0][2] is s)))]


@register
class MeqInit(Contract):
    """trusted: its constructor (the stored posynomials are those of
    _gen_unsubbed, under contract; the bounds are C13's)"""
    name = "gpkit.nomials.math:MonomialEquality.__init__"
    trusted = True

    def applies(self, s, left, right):
        return E.eng().top is REGISTRY[MonoEq.name]

    def fresh(self, old, s, left, right):
        e = E.eng()
        c = e.ghost.setdefault("minit", [])
        k = e.choose(3, "refused")
        if k:
            c.append((None, left, right))
            from .contracts import make_exc
            raise make_exc([gp().DimensionalityError,
                            gp().PrimalInfeasible][k-1])
        c.append((s, left, right))


@register
class SigSub(Contract):
    "a nomial substituted: the value with the substitutions made"
    name = "gpkit.nomials.math:Signomial.sub"
    props = ("C02", "C07", "C05")
    track = {"hv": NMT["hv"] + ["gm"], "nm": NMT["nm"] + ["evg"]}

    def setup(self, e):
        ghost_valuation(e)
        e.ghost["fixed"] = fixed_map(e, None)
        return toggle(e)

    def applies(self, p, substitutions, require_positive=True):
        return is_nomial(p) and isinstance(substitutions, SubsToken)

    def cases(self, e):
        p = nomial(e, [gp().Monomial, gp().Posynomial, gp().Signomial][
            e.choose(3)], "p")
        kw = [{}, {"require_positive": False}][e.choose(2)]
        return (p, SubsToken()), kw

    def pre(self, p, substitutions, require_positive=True):
        seen = []
        e = E.eng()
        if e.top is self:
            e.ghost["on_subbed"] = seen.append
        return {"evg": fold_of(p.hmap, "evg"), "seen": seen}

    def raises(self, old, p, substitutions, require_positive=True):
        if enabled() or not require_positive:
            return []
        g = gp()
        if E.eng().top is self and old["seen"]:
            return [(g.InvalidPosynomial, SBool(
                fold_of(old["seen"][0], "npos") > 0), True)]
        return [(g.InvalidPosynomial, True, False)]

    def fresh(self, old, p, substitutions, require_positive=True):
        r = fresh_nomial(E.eng(), "subbed",
                         require_positive and not enabled())
        r.hmap.units = r.units = p.hmap.units
        r.hmap.expmap, r.hmap.csmap = ExpMap(p.hmap), D.PvDict()
        return r

    def ensures(self, old, r, p, substitutions, require_positive=True):
        return class_goals(r) + [
            ("ok", "is a new nomial", r is not p and r.hmap is not p.hmap),
            ("ok", "units are kept", r.hmap.units is p.hmap.units),
            ("eq", "its value is the value with the substitutions made",
             fold_of(r.hmap, "evg"), old["evg"])]


class ExpMap:
    "original exponents -> exponents after substitution (contents opaque)"
    pv_symbolic = True

    def __init__(self, orig):
        self.orig = orig


class Opaque:
    "bookkeeping whose content is not part of a contract"
    pv_symbolic = True

    def __init__(self, *a):
        self._pv_eng = E.eng()
        self._pv_serial = E.eng().register(self)

    def __getitem__(self, k):
        return self

    def __setitem__(self, k, v):
        E.eng().on_mutate(self, "store")

    def pv_havoc(self, loopiter, final):
        pass


@register
class SigAsHmaps(Contract):
    """if one negative term is left after the substitution: equivalent to the
    signomial with the constants substituted being <= 0"""
    name = "gpkit.nomials.math:SignomialInequality.as_hmapslt1"
    props = ("C07",)
    max_paths = 6000
    cost = 5
    assumes = ["SignomialInequality.as_hmapslt1: the bookkeeping kept for"
               " sensitivities is not part of its contract (the loop that"
               " fills it is not entered)"]
    track = {"hv": NMT["hv"] + ["gm"], "nm": NMT["nm"] + ["evg"]}

    def setup(self, e):
        ghost_valuation(e)
        e.ghost["inits"], e.ghost["compiled"] = [], []
        e.ghost["fixed"] = fixed_map(e, None)
        return toggle(e)

    def applies(self, s, substitutions):
        return False

    def cases(self, e):
        s = object.__new__(sig_class())
        s.unsubbed = [nomial(e, gp().Signomial, "sig")]
        s.parent = None
        return (s, SubsToken()), {}

    def pre(self, s, substitutions):
        sig, = s.unsubbed
        return {"evg": fold_of(sig.hmap, "evg"), "sig": sig}

    def raises(self, old, s, substitutions):
        g = gp()
        out = [(AttributeError, True, False)]
        parts = E.eng().ghost.get("parts")
        if parts:
            negy = parts[0][1]
            none = isinstance(negy, int)
            out += [(ValueError, none, False),
                    (g.InvalidGPConstraint, False if none else SBool(
                        fold_of(negy.hmap, "n") > 1), False)]
        return out[1:]

    def ensures(self, old, r, s, substitutions):
        e = E.eng()
        gh = e.ghost
        posy, negy = gh["parts"][0]
        if isinstance(r, list) and not r:
            zero = isinstance(posy, int)
            return [("ok", "dropped only without a positive part", zero),
                    ("eq", "... then it always holds", old["evg"],
                     ZERO if isinstance(negy, int)
                     else -fold_of(negy.hmap, "evg"))]
        gs = [("ok", "one posynomial inequality is compiled",
               len(gh["compiled"]) == 1 and r is gh["compiled"][0][1])]
        if not gs[0][2]:
            return gs
        c = gh["compiled"][0][0]
        mine = [x for x in gh["inits"] if x[0] is c]
        gs.append(("ok", "made here", len(mine) == 1 and mine[0][2] in
                   ("<=", ">=") and getattr(c, "parent", None) is s))
        if not mine:
            return gs
        _, left, oper, right = mine[0]
        lo, hi = (left, right) if oper == "<=" else (right, left)
        ok = is_nomial(lo) and is_nomial(hi)
        gs.append(("ok", "between nomials", ok))
        if not ok:
            return gs
        return gs + [
            ("eq", "the same constraint (any point)", fold_of(lo.hmap, "evg")
             - fold_of(hi.hmap, "evg"), old["evg"]),
            ("z", "upper side has one term, so it is a monomial",
             z3.And(fold_of(hi.hmap, "n") == 1,
                    fold_of(hi.hmap, "npos") == 0)),
            ("z", "lower side has positive terms", fold_of(
                lo.hmap, "npos") == 0),
            ("eq", "dimensions agree", ndim(lo), ndim(hi)),
            ("eq", "scales agree", u_of(lo), u_of(hi))]
