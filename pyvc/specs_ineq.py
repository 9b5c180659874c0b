"""Posynomial inequalities and monomial equalities (C06).

`w` is the share of the right-hand side left once the constant part k of p/m
is moved there: w = 1 - k.  A compiled posynomial h satisfies
        value(h)*w + 1 - w = value(p)/value(m)        with w > 0,
so h <= 1 exactly where p <= m."""
import z3
from . import engine as E
from . import dicts as D
from . import rt
from . import poly as P
from .contracts import Contract, register
from .dicts import fold_of, FOLDS, fname
from .poly import Poly
from .values import (SReal, SBool, SQty, to_poly, eq_zero, lt_zero,
                     snot)
from .specs_arith import (gp, is_nm, linear, new_like, number, u_scale, u_dim,
                          some_units, ONE, ZERO, PT)
from .specs_map import NMT
from .specs_nomial import (nomial, any_nomial, is_nomial, nval, ndim, toggle,
                           class_goals, protect, fresh_nomial)
from .specs_sub import SubsToken, ghost_valuation, fixed_map

_cls = {}


def ineq_class(base=None):
    "the real class; only printing of symbolic content is replaced"
    base = base or gp().PosynomialInequality
    if base not in _cls:
        _cls[base] = type(base.__name__, (base,), {
            "__str__": lambda s: "<constraint>",
            "__repr__": lambda s: "<constraint>", "pv_ineq": True})
    return _cls[base]


def witness(w=None):
    g = E.eng().ghost
    if w is not None:
        g["w"] = w
    return g.get("w", None)


class Pmap:
    "the bookkeeping of merged terms (C11)"
    pv_symbolic = True

    def pop(self, i):
        return Pmap()

    def items(self):
        raise E.Unsupported("content of the merge bookkeeping")


@register
class Simplify(Contract):
    name = ("gpkit.nomials.math:PosynomialInequality._simplify_posy_ineq")
    props = ("C06",)
    track = {"hv": NMT["hv"] + ["gm"], "nm": NMT["nm"] + ["evg"] + PT}

    def setup(self, e):
        e.ghost["ptkey"] = gp().EMPTY_HV

    def applies(self, s, hmap, pmap=None, fixed=None):
        return D.is_symmap(hmap) and is_nm(hmap)

    def cases(self, e):
        s = object.__new__(ineq_class())
        m = rt.new_nm("m", zeros=True)
        m.units = some_units(e, "u")
        if e.choose(2, "pmap"):
            s.pmap = Pmap()
            return (s, m, s.pmap, {}), {}
        return (s, m), {}

    def pre(self, s, hmap, pmap=None, fixed=None):
        e = E.eng()
        has, k = D.lookup(hmap._pv_st, gp().EMPTY_HV)
        w = e.norm(ONE - to_poly(k)) if has else ONE
        old = {"has": has, "k": k, "w": w, "n": fold_of(hmap, "n"),
               "npos": fold_of(hmap, "npos"), "units": hmap.units,
               "tol": s.feastol, "taut": None,
               "vals": {f: fold_of(hmap, f) for f in linear("nm")}}
        if has:
            old["taut"] = z3.And(e.z(w) >= -s.feastol, old["n"] == 1)
        witness(w)
        return old

    def raises(self, old, *a, **kw):
        if not old["has"]:
            return []
        bad = z3.And(E.eng().z(old["w"]) <= 0, z3.Not(old["taut"]))
        return [(gp().PrimalInfeasible, SBool(bad), True)]

    def fresh(self, old, s, hmap, pmap=None, fixed=None):
        if not old["has"]:
            return hmap
        if bool(SBool(old["taut"])):
            return None
        e = E.eng()
        e.add(e.z(old["w"]) > 0)
        r = new_like(type(hmap), "nm", "scaled")
        r.units = hmap.units
        return r

    def ensures(self, old, r, s, hmap, pmap=None, fixed=None):
        e = E.eng()
        if not old["has"]:
            return [("ok", "without a constant the map is kept", r is hmap)]
        if r is None:
            return [("z", "dropped only if it always holds (to feastol)",
                     old["taut"])]
        w = old["w"]
        npos = old["npos"] - z3.If(e.z(to_poly(old["k"])) <= 0, 1, 0)
        gs = [("z", "kept unless it always holds", z3.Not(old["taut"])),
              ("z", "the right-hand side stays positive", e.z(w) > 0),
              ("ok", "is a new nomial map",
               isinstance(r, gp().NomialMap) and r is not hmap),
              ("ok", "units are kept", r.units is old["units"]),
              ("ok", "the constant is moved", not D.lookup(
                  r._pv_st, gp().EMPTY_HV)[0]),
              ("z", "no other term is lost", fold_of(r, "n") == old["n"] - 1),
              ("z", "signs are kept", fold_of(r, "npos") == npos)]
        for f, v in old["vals"].items():
            gs.append(("eq", "value (%s): scaled*w + 1 - w" % fname(f),
                       fold_of(r, f)*w + ONE - w, v))
        return gs


def ratio_goal(name, q, w, p, m):
    "value(q)*w + 1 - w = value(p)/value(m), at the valuation L"
    return ("eq", name, (fold_of(q.hmap, "ev")*w + ONE - w)*nval(m), nval(p))


def compiled(r):
    "a compiled list: nothing, or one posynomial"
    return isinstance(r, list) and len(r) <= 1


@register
class GenUnsubbed(Contract):
    name = "gpkit.nomials.math:PosynomialInequality._gen_unsubbed"
    props = ("C06",)
    track = NMT

    def setup(self, e):
        return toggle(e)

    def applies(self, s, p_lt, m_gt):
        return is_nomial(p_lt) and is_nomial(m_gt)

    def cases(self, e):
        g = gp()
        s = object.__new__(ineq_class())
        p = nomial(e, [g.Monomial, g.Posynomial][e.choose(2)], "p")
        m = nomial(e, [g.Monomial, g.Monomial, g.Posynomial][e.choose(2)],
                   "m") if e.choose(4) else nomial(e, g.Posynomial, "m")
        return (s, p, m), {}

    def pre(self, s, p, m):
        witness(None)
        E.eng().ghost.pop("w", None)
        return {"n": fold_of(m.hmap, "n"),
                "same": eq_zero(E.eng().norm(ndim(p) - ndim(m)))}

    def raises(self, old, s, p, m):
        w = witness()
        e = E.eng()
        d = old["same"]
        two = SBool(old["n"] != 1)
        # (pint's DimensionalityError is a TypeError)
        out = []
        if not bool(two):
            out.append((gp().DimensionalityError, snot(d), True))
        out.append((TypeError, two, True))
        if bool(two):
            return out
        if e.top is not self:
            w = witness(e.fresh_real("w"))
            out.append((gp().PrimalInfeasible, SBool(e.z(w) <= 0), False))
        elif w is not None:
            out.append((gp().PrimalInfeasible, SBool(e.z(w) <= 0), False))
        return out

    def fresh(self, old, s, p, m):
        r = [fresh_lt1("lt1")] if e_choose("constraint is dropped") else []
        if "gus" in E.eng().ghost:
            E.eng().ghost["gus"].append((witness(), bool(r)))
        if "on_unsubbed" in E.eng().ghost:
            E.eng().ghost["on_unsubbed"](p, m, r)
        return r

    def ensures(self, old, r, s, p, m):
        e = E.eng()
        w = witness()
        gs = [("ok", "at most one compiled posynomial", compiled(r))]
        if w is None:
            return gs + [("ok", "the constant part was looked for", False)]
        if not r:
            gs += [("eq", "dropped only if p/m is a constant", nval(p),
                    (ONE - w)*nval(m)),
                   ("z", "... that is at most 1 (to feastol)",
                    e.z(w) >= -s.feastol)]
            return gs
        q, = r
        return gs + class_goals(q) + [
            ("ok", "is a posynomial", isinstance(q, gp().Posynomial)),
            ("z", "the right-hand side stays positive", e.z(w) > 0),
            ("ok", "the part moved is a constant", constant(w)),
            ratio_goal("is p/m <= 1 with the constant moved", q, w, p, m)]


def constant(w):
    "no mention of the (arbitrary) point"
    return not any(a.kind == "exp" or "L(" in repr(a)
                   for a in E.eng().norm(w).atoms())


def e_choose(what, n=2):
    return E.eng().choose(n, what)


# ------------------------------------------------- with constants substituted
@register
class MMap(Contract):
    """assumed here: where each term came from (decided under C11); reads the
    bookkeeping a substitution left behind, changes nothing"""
    name = "gpkit.nomials.map:NomialMap.mmap"
    trusted = True

    def applies(self, m, orig):
        return D.is_symmap(m)

    def fresh(self, old, m, orig):
        if "expmap" not in m.__dict__ or "csmap" not in m.__dict__:
            raise AttributeError("no substitution bookkeeping")
        return Pmap()


def lt1(e, tag="posy"):
    "a stored posynomial <= 1, as _gen_unsubbed makes them: no units"
    q = nomial(e, [gp().Monomial, gp().Posynomial][e.choose(2)], tag,
               units=False)
    q.hmap.units = q.units = None
    e.add(fold_of(q.hmap, "n") >= 1)
    return q


@register
class AsHmapsLt1(Contract):
    """each stored posynomial, with the constants substituted, compiles to
    h*w + 1 - w; a witness w is recorded per posynomial"""
    name = "gpkit.nomials.math:PosynomialInequality.as_hmapslt1"
    props = ("C06", "C07")
    track = {"hv": NMT["hv"] + ["gm"], "nm": NMT["nm"] + ["evg"]}

    def setup(self, e):
        e.ghost["ptkey"] = gp().EMPTY_HV
        ghost_valuation(e)
        e.ghost["fixed"] = fixed_map(e, None)

    def applies(self, s, substitutions):
        return isinstance(substitutions, SubsToken) and \
            "compiled" in E.eng().ghost

    def fresh(self, old, s, substitutions):
        r = [object()]
        E.eng().ghost["compiled"].append((s, r))
        return r

    def make(self, e):
        s = object.__new__(ineq_class())
        if e.choose(2, "left over from another solve?"):
            s.const_mmap = Pmap()
        n = [1, 0, 2][e.choose(3, "stored posynomials")]
        s.unsubbed = [lt1(e, "posy%i" % i) for i in range(n)]
        return s

    def cases(self, e):
        return (self.make(e), SubsToken()), {}

    def pre(self, s, substitutions):
        e = E.eng()
        if e.top is not self and "compiled" in e.ghost:
            return {"subbed": []}
        subbed = []

        def record(m):
            "what a substitution gives: its constant part, its size"
            has, k = D.lookup(m._pv_st, gp().EMPTY_HV)
            w = e.norm(ONE - to_poly(k)) if has else ONE
            taut = z3.And(e.z(w) >= -s.feastol, fold_of(m, "n") == 1) \
                if has else z3.BoolVal(False)
            npos = fold_of(m, "npos")
            if has:
                npos = npos - z3.If(e.z(to_poly(k)) <= 0, 1, 0)
            subbed.append((w, taut, npos, m._pv_st, k))
        e.ghost["on_subbed"] = record
        return {"vals": [fold_of(p.hmap, "evg") for p in s.unsubbed],
                "subbed": subbed, "left": s.__dict__.get("const_mmap")}

    def raises(self, old, s, substitutions):
        e = E.eng()
        g = gp()
        if not old["subbed"]:
            return []
        w, taut, npos = old["subbed"][-1][:3]
        return [(g.PrimalInfeasible, SBool(z3.And(
                    e.z(w) <= 0, z3.Not(taut))), True),
                (g.InvalidGPConstraint, SBool(z3.And(
                    z3.Not(taut), npos > 0)), True)]

    def ensures(self, old, r, s, substitutions):
        e = E.eng()
        if "compiled" in e.ghost:
            return []
        sub = old["subbed"]
        gs = [("ok", "the constants are substituted in every posynomial",
               len(sub) == len(old["vals"]))]
        if old["left"] is not None:
            gs.append(("ok", "no bookkeeping from an earlier solve is kept",
                       s.__dict__.get("const_mmap") is not old["left"]))
        out = list(r)
        for v, (w, taut, _, st, k) in zip(old["vals"], sub):
            if bool(SBool(taut)):
                D.sole_entry(st, gp().EMPTY_HV, k)
                gs.append(("eq", "dropped only if it is a constant, at most"
                           " 1 (to feastol)", v, ONE - w))
                continue
            q = out.pop(0) if out else None
            if q is None or not D.is_symmap(q):
                gs.append(("ok", "one compiled posynomial each", False))
                continue
            gs += [("eq", "is posy <= 1 with the constant moved",
                    fold_of(q, "evg")*w + ONE - w, v),
                   ("z", "the right-hand side stays positive", e.z(w) > 0),
                   ("z", "all coefficients are positive",
                    fold_of(q, "npos") == 0),
                   ("ok", "belongs to this constraint",
                    getattr(q, "parent", None) is s)]
        return gs + self.more(r) + [("ok", "and nothing else", not out)]

    def more(self, r):
        return []


@register
class MeqAsHmaps(AsHmapsLt1):
    "the same, each marked as part of an equality"
    name = "gpkit.nomials.math:MonomialEquality.as_hmapslt1"
    inline = ("gpkit.nomials.math:PosynomialInequality.as_hmapslt1",)

    def make(self, e):
        s = object.__new__(ineq_class(gp().MonomialEquality))
        s.unsubbed = [lt1(e, "posy%i" % i)
                      for i in range([2, 0][e.choose(2)])]
        return s

    def more(self, r):
        return [("ok", "marked as part of an equality", all(
            getattr(h, "from_meq", False) is True for h in r))]


@register
class MeqGenUnsubbed(Contract):
    "left <= right and right <= left, each as above"
    name = "gpkit.nomials.math:MonomialEquality._gen_unsubbed"
    props = ("C06",)
    track = NMT

    def setup(self, e):
        return toggle(e)

    def applies(self, s, left, right):
        return is_nomial(left) and is_nomial(right)

    def cases(self, e):
        g = gp()
        s = object.__new__(ineq_class(g.MonomialEquality))
        return (s, nomial(e, g.Monomial, "l"), nomial(e, g.Monomial, "r")), {}

    def pre(self, s, left, right):
        e = E.eng()
        e.ghost["gus"] = []
        e.ghost.pop("w", None)
        return {"same": eq_zero(e.norm(ndim(left) - ndim(right)))}

    def raises(self, old, s, left, right):
        g = gp()
        out = [(g.DimensionalityError, snot(old["same"]), True)]
        if not bool(old["same"]):
            return out
        e = E.eng()
        if e.top is not self:
            w = [e.fresh_real("w"), e.fresh_real("w")]
            out.append((g.PrimalInfeasible, SBool(z3.Or(
                e.z(w[0]) <= 0, e.z(w[1]) <= 0)), False))
            e.ghost["gus"] = [(x, None) for x in w]
        elif witness() is not None:
            out.append((g.PrimalInfeasible, SBool(e.z(witness()) <= 0),
                        False))
        return out

    def fresh(self, old, s, left, right):
        e = E.eng()
        r, e.ghost["gus"] = [], [
            (w, e.choose(2, "dropped?") == 0) for w, _ in e.ghost["gus"]]
        for _, kept in e.ghost["gus"]:
            if kept:
                r.append(fresh_lt1("lt1"))
        return r

    def ensures(self, old, r, s, left, right):
        e = E.eng()
        ws = e.ghost["gus"]
        gs = [("ok", "both directions", len(ws) == 2 and isinstance(r, list)
               and len(r) == sum(k for _, k in ws))]
        if not gs[0][2]:
            return gs
        out = list(r)
        for (w, kept), p, m in zip(ws, (left, right), (right, left)):
            if kept:
                q = out.pop(0)
                gs += class_goals(q) + [
                    ("z", "the right-hand side stays positive", e.z(w) > 0),
                    ratio_goal("p/m <= 1 with the constant moved",
                               q, w, p, m)]
            else:
                gs += [("eq", "dropped only if p/m is a constant", nval(p),
                        (ONE - w)*nval(m)),
                       ("z", "... that is at most 1 (to feastol)",
                        e.z(w) >= -s.feastol)]
        return gs


def fresh_lt1(tag):
    q = fresh_nomial(E.eng(), tag, True)
    q.hmap.units = q.units = None
    return q


# ------------------------------------------------------------- construction
def operand(e, kind, tag):
    if kind == "n":
        return SReal(e.fresh_real(tag, pos=True))
    return nomial(e, gp().Monomial if kind == "m" else gp().Posynomial, tag)


@register
class IneqInit(Contract):
    "which side is which; what is stored is what _gen_unsubbed gave"
    name = "gpkit.nomials.math:PosynomialInequality.__init__"
    props = ("C06",)
    track = NMT

    assumes = ["PosynomialInequality.__init__: the contents of .vks and"
               " .bounded are not part of its contract"]

    def setup(self, e):
        e.ghost["opaque_sets"] = True
        return toggle(e)

    def applies(self, s, left, oper, right):
        return "inits" in E.eng().ghost

    def fresh(self, old, s, left, oper, right):
        E.eng().ghost["inits"].append((s, left, oper, right))


    def cases(self, e):
        g = gp()
        s = object.__new__(ineq_class(g.PosynomialInequality))
        oper = ["<=", ">=", "="][e.choose(3)]
        kinds = ["pm", "mp", "nm", "mn", "pp"][e.choose(5)]
        return (s, operand(e, kinds[0], "l"), oper,
                operand(e, kinds[1], "r")), {}

    def pre(self, s, left, oper, right):
        e = E.eng()
        if e.top is not self:
            return {}
        calls = []
        e.ghost["on_unsubbed"] = lambda p, m, r: calls.append((p, m, r))
        return {"calls": calls}

    def raises(self, old, s, left, oper, right):
        e = E.eng()
        g = gp()
        if e.top is not self:
            return []      # whatever it raises passes through
        out = [(ValueError, oper not in ("<=", ">="), True)]
        if oper in ("<=", ">="):
            out += [(TypeError, True, False), (g.PrimalInfeasible, True,
                                               False)]
        return out

    def ensures(self, old, r, s, left, oper, right):
        if E.eng().top is not self:
            return []
        c = old["calls"]
        gs = [("ok", "compiled once", len(c) == 1)]
        if len(c) != 1:
            return gs
        p, m, u = c[0]
        lo, hi = (left, right) if oper == "<=" else (right, left)
        e = E.eng()
        gs += [("ok", "what was compiled is stored", s.unsubbed is u),
               ("eq", "the lower side", nval(p), nval(lo)),
               ("eq", "the upper side", nval(m), nval(hi)),
               ("eq", "the lower side's dimension", ndim(p), ndim(lo)),
               ("eq", "the upper side's dimension", ndim(m), ndim(hi)),
               ("eq", "left is kept", nval(s.left), nval(left)),
               ("eq", "right is kept", nval(s.right), nval(right)),
               ("ok", "operator is kept", s.oper == oper)]
        return gs


class Compare(Contract):
    """p <= m is the constraint that p is at most m, whoever's method the
    interpreter asks; operands of other kinds are left to theirs"""
    props = ("C06",)
    track = NMT
    lower = 0

    def setup(self, e):
        return toggle(e)

    def applies(self, s, other):
        return False

    def cases(self, e):
        e.ghost["inits"] = []
        s = nomial(e, [gp().Monomial, gp().Posynomial][
            e.choose(1 if self.lower else 2)], "s")
        k = e.choose(5, "other operand")
        other = number("o") if k == 0 else \
            SQty(e.fresh_real("q"), rt.new_units("q")) if k == 1 else \
            nomial(e, [gp().Monomial, gp().Posynomial, gp().Signomial][k-2],
                   "o")
        return (s, other), {}

    def ensures(self, old, r, s, other):
        g = gp()
        calls = E.eng().ghost["inits"]
        if not calls:
            both = is_nomial(other) and type(other) is not g.Monomial and (
                type(other) is g.Signomial or not self.lower)
            return [("ok", "left to the other operand only if this is no"
                     " posynomial <= monomial", r is NotImplemented and both)]
        c, left, oper, right = calls[0]
        lo, hi = (left, right) if oper == "<=" else (right, left)
        mine, its = (hi, lo) if self.lower else (lo, hi)
        return [("ok", "one constraint", len(calls) == 1 and r is c
                 and oper in ("<=", ">=")),
                ("ok", "is a posynomial inequality",
                 isinstance(r, g.PosynomialInequality)),
                ("eq", "this operand's side", nval(mine), nval(s)),
                ("eq", "the other operand's side", nval(its), nval(other)),
                ("eq", "this operand's dimension", ndim(mine), ndim(s)),
                ("eq", "the other operand's dimension", ndim(its),
                 ndim(other))]


@register
class CompareLe(Compare):
    name = "gpkit.nomials.math:Posynomial.__le__"


@register
class CompareGe(Compare):
    name = "gpkit.nomials.math:Monomial.__ge__"
    lower = 1
