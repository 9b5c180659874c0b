"""Contracts of NomialMap and of unit conversion (C01, C03, C21)."""
import z3
from . import engine as E
from . import dicts as D
from . import rt
from . import poly as P
from .contracts import Contract, register
from .dicts import fold_of, FOLDS, fname, active_folds
from .poly import Poly
from .values import (SReal, SBool, SHash, SQty, SUnits, to_poly, is_num,
                     eq_zero, lt_zero, snot, SUnitStr)
from .specs_arith import (gp, is_hv, is_nm, linear, new_like, number, u_scale,
                          u_dim, some_units, value, any_nm, hash_fresh, ONE,
                          ZERO)
from .invmap import InvMap


def has_units(x):
    return isinstance(x, SQty) or (x is not None and not is_num(x)
                                   and hasattr(x, "units"))


def unit_thing(e, tag, number_too=True, none=True):
    "what units_of_product accepts: None, a unit quantity, a plain number"
    n = e.choose(1 + none + number_too, "thing")
    if n == 0:
        return rt.new_unit_qty(tag)
    if n == 1 and none:
        return None
    return number(tag)


def thing_scale(t):
    "scale of the units (not the magnitude) of a thing"
    if isinstance(t, SQty):
        return t.units.scale
    if t is None or is_num(t) or not hasattr(t, "units"):
        return ONE
    return u_scale(1*t.units)


def thing_dim(t):
    if isinstance(t, SQty):
        return t.units.dim
    if t is None or is_num(t) or not hasattr(t, "units"):
        return ZERO
    return u_dim(1*t.units)


def is_thing(t):
    return t is None or is_num(t) or isinstance(t, SQty) or (
        hasattr(t, "units") and hasattr(t, "magnitude"))


# ------------------------------------------------------------------- units
@register
class Qty(Contract):
    "the cached unit quantity (pint's construction is trusted)"
    name = "gpkit.units:qty"
    props = ("C01", "C21")
    trusted = False

    def setup(self, e):
        u = gp().units_mod
        old = u.QTY_CACHE

        def inv(key, val):
            return [("ok", "cache entry is a unit quantity",
                     isinstance(val, SQty)),
                    ("eq", "of magnitude one", val.m, ONE),
                    ("eq", "of the unit's scale", val.units.scale,
                     rt.conv_any(key).scale),
                    ("eq", "of the unit's dimension", val.units.dim,
                     rt.conv_any(key).dim)]
        u.QTY_CACHE = InvMap("QTY_CACHE", inv, lambda k: rt.new_unit_qty("q"))

        def undo():
            u.QTY_CACHE = old
        return undo

    def applies(self, unit):
        return isinstance(unit, (SUnits, SQty, SUnitStr))

    def cases(self, e):
        u = rt.new_units("u")
        return (SUnitStr(u) if e.choose(2, "string") else u,), {}

    def fresh(self, old, unit):
        u = rt.conv_any(unit)
        return SQty(ONE, SUnits(u.scale, u.dim))

    def ensures(self, old, r, unit):
        u = rt.conv_any(unit)
        return [("ok", "is a quantity", isinstance(r, SQty)),
                ("eq", "magnitude one", r.m, ONE),
                ("eq", "scale", r.units.scale, u.scale),
                ("eq", "dimension", r.units.dim, u.dim)]


def _dimless(d):
    return eq_zero(d)


@register
class OfProduct(Contract):
    name = "gpkit.units:GPkitUnits.of_product"
    props = ("C01", "C21")

    def inv(self, key, val):
        a, b = key
        if not (isinstance(val, tuple) and len(val) == 2):
            return [("ok", "a pair", False)]
        return self.post(val, thing_scale2(a)*thing_scale2(b),
                         E.eng().norm(rt.conv_any(a).dim + rt.conv_any(b).dim))

    def post(self, val, scale, dim):
        mu, conv = val
        if conv is not None:
            return [("ok", "no units are left", mu is None),
                    ("eq", "conversion factor", to_poly(conv), scale),
                    ("eq", "dimensionless", dim, ZERO)]
        return [("ok", "units are a quantity", isinstance(mu, SQty)),
                ("eq", "magnitude one", mu.m, ONE),
                ("eq", "scale of the product", mu.units.scale, scale),
                ("eq", "dimension of the product", mu.units.dim, dim),
                ("z", "not dimensionless", E.eng().z(dim) != 0)]

    def make(self, key):
        if E.eng().choose(2, "dimensionless product?"):
            return (None, SReal(E.eng().fresh_real("conv")))
        return (rt.new_unit_qty("mu"), None)

    def setup(self, e):
        cls = gp().units_mod.GPkitUnits
        old = cls.multiplication_cache
        cls.multiplication_cache = InvMap("multiplication_cache", self.inv,
                                          self.make)

        def undo():
            cls.multiplication_cache = old
        return undo

    def applies(self, s, a, b):
        return isinstance(a, SQty) or isinstance(b, SQty)

    def cases(self, e):
        # magnitudes are arbitrary: only the units count
        a = SQty(e.fresh_real("m1"), rt.new_units("u1"))
        b = SQty(e.fresh_real("m2"), rt.new_units("u2"))
        return (gp().units_mod.units, a, b), {}

    def fresh(self, old, s, a, b):
        if bool(_dimless(thing_dim(a) + thing_dim(b))):
            return (None, SReal(E.eng().norm(thing_scale(a)*thing_scale(b))))
        return (SQty(ONE, SUnits(thing_scale(a)*thing_scale(b),
                                 E.eng().norm(thing_dim(a)+thing_dim(b)))),
                None)

    def ensures(self, old, r, s, a, b):
        return [("ok", "a pair", isinstance(r, tuple) and len(r) == 2)] + \
            self.post(r, thing_scale(a)*thing_scale(b),
                      E.eng().norm(thing_dim(a) + thing_dim(b)))


def thing_scale2(u):
    return rt.conv_any(u).scale


class United:
    "a stand-in for anything with a .units attribute that may be None"
    def __init__(self, units):
        self.units = units


@register
class OfDivision(Contract):
    name = "gpkit.units:GPkitUnits.of_division"
    props = ("C06", "C21")

    def inv(self, key, val):
        a, b = key
        if not (unitlike(a) and unitlike(b)):
            return [("ok", "the cache key identifies the two units", False,
                     "key parts are %s, %s" % (type(a).__name__,
                                               type(b).__name__))]
        return [("eq", "conversion factor", to_poly(val)*u_scale2(b),
                 u_scale2(a)),
                ("eq", "same dimension", u_dim2(a), u_dim2(b))]

    def setup(self, e):
        cls = gp().units_mod.GPkitUnits
        old = cls.division_cache
        cls.division_cache = InvMap(
            "division_cache", self.inv,
            lambda k: SReal(E.eng().fresh_real("conv")))

        def undo():
            cls.division_cache = old
        return undo

    def applies(self, s, a, b):
        return isinstance(a.units, SQty) or isinstance(b.units, SQty)

    def cases(self, e):
        a = United(some_units(e, "u1"))
        b = United(some_units(e, "u2"))
        if e.choose(2, "same object"):
            b = United(a.units)
        return (gp().units_mod.units, a, b), {}

    def raises(self, old, s, a, b):
        c = eq_zero(E.eng().norm(u_dim(a.units) - u_dim(b.units)))
        return [(gp().DimensionalityError, snot(c), True)]

    def fresh(self, old, s, a, b):
        return SReal(E.eng().norm(u_scale(a.units)*u_scale(b.units).inv()))

    def ensures(self, old, r, s, a, b):
        return [("eq", "numerator = factor * denominator",
                 to_poly(r)*u_scale(b.units), u_scale(a.units))]


def unitlike(u):
    return u is None or isinstance(u, (SQty, SUnits))


def u_scale2(u):
    return u.scale if isinstance(u, SUnits) else u_scale(u)


def u_dim2(u):
    return u.dim if isinstance(u, SUnits) else u_dim(u)


# ------------------------------------------------------------------- NomialMap
DV = ("dv", "dvkey")
NMT = {"hv": ["lmv", "zc", "hx"], "nm": ["ev", "zc", "npos"]}


@register
class UnitsOfProduct(Contract):
    name = "gpkit.nomials.map:NomialMap.units_of_product"
    props = ("C01",)
    track = NMT
    allow_mut = staticmethod(lambda args: [args[0]])

    def applies(self, m, thing, thing2=None):
        return is_thing(thing) and is_thing(thing2) and (
            D.is_symmap(m) or isinstance(thing, SQty)
            or isinstance(thing2, SQty))

    def cases(self, e):
        m = any_nm(e, "m", zeros=True)
        m.units = some_units(e, "old")     # must not matter
        return (m, unit_thing(e, "t1"), unit_thing(e, "t2")), {}

    def pre(self, m, thing, thing2=None):
        return {f: fold_of(m, f) for f in active_folds("nm")}

    def fresh(self, old, m, thing, thing2=None):
        e = E.eng()
        scale = thing_scale(thing)*thing_scale(thing2)
        dim = e.norm(thing_dim(thing) + thing_dim(thing2))
        if (has_units(thing) or has_units(thing2)) and not bool(_dimless(dim)):
            m.units = SQty(ONE, SUnits(e.norm(scale), dim))
        elif has_units(thing) and has_units(thing2):
            m.units = None
            e2 = new_like(type(m), "nm", "conv")
            m.__dict__["_pv_st"] = e2._pv_st
        elif has_units(thing) or has_units(thing2):
            m.units = SQty(ONE, SUnits(e.norm(scale), dim))
        else:
            m.units = None
        return None

    def ensures(self, old, r, m, thing, thing2=None):
        sc = thing_scale(thing)*thing_scale(thing2)
        gs = [("eq", "dimension of the product", u_dim(m.units),
               thing_dim(thing) + thing_dim(thing2)),
              ("z", "same number of entries", fold_of(m, "n") == old["n"]),
              ("ok", "units are None or a unit quantity",
               m.units is None or (isinstance(m.units, SQty)
                                   and m.units.m.is_const()))]
        for f in linear("nm"):
            gs.append(("eq", "fold %s times units = value * product" % fname(f),
                       fold_of(m, f)*u_scale(m.units), old[f]*sc))
        for f in ("zc", "npos"):
            if f in old:
                gs.append(("z", "signs are kept (%s)" % f,
                           fold_of(m, f) == old[f]))
        return gs


@register
class NMTo(Contract):
    name = "gpkit.nomials.map:NomialMap.to"
    props = ("C01",)
    track = NMT

    def applies(self, m, to_units):
        return D.is_symmap(m) and isinstance(to_units, SQty)

    def cases(self, e):
        m = any_nm(e, "m", zeros=True)
        m.units = some_units(e, "old")
        return (m, rt.new_unit_qty("new")), {}

    def pre(self, m, to_units):
        return {f: fold_of(m, f) for f in active_folds("nm")}

    def raises(self, old, m, to_units):
        c = eq_zero(E.eng().norm(u_dim(m.units) - u_dim(to_units)))
        return [(gp().DimensionalityError, snot(c), True)]

    def fresh(self, old, m, to_units):
        r = new_like(type(m), "nm", "conv")
        r.units = SQty(ONE, SUnits(to_units.units.scale, to_units.units.dim))
        return r

    def ensures(self, old, r, m, to_units):
        gs = [("ok", "is a new map", r is not m),
              ("eq", "dimension", u_dim(r.units), u_dim(to_units)),
              ("eq", "scale", u_scale(r.units), thing_scale(to_units))]
        for f in linear("nm"):
            gs.append(("eq", "fold %s: value is kept" % fname(f),
                       fold_of(r, f)*u_scale(r.units),
                       old[f]*u_scale(m.units)))
        for f in ("zc", "npos"):
            if f in old:
                gs.append(("z", "signs are kept (%s)" % f, z3.Implies(
                    old[f] == 0, fold_of(r, f) == 0)))
        return gs


@register
class NMCopy(Contract):
    name = "gpkit.nomials.map:NomialMap.copy"
    props = ("C01", "C05")
    track = NMT

    def applies(self, a):
        return False           # inlined

    def cases(self, e):
        m = any_nm(e, "m", zeros=True)
        m.units = some_units(e, "u")
        return (m,), {}

    def ensures(self, old, r, a):
        from .specs_arith import same_content
        return [("ok", "is a new map", r is not a),
                ("ok", "same content", same_content(r, a)),
                ("ok", "no units on the copy", r.units is None)]


@register
class NMAdd(Contract):
    name = "gpkit.nomials.map:NomialMap.__add__"
    props = ("C01", "C05")
    track = NMT

    def applies(self, a, b):
        return is_nm(a) and is_nm(b) and (D.is_symmap(a) or D.is_symmap(b))

    def cases(self, e):
        a, b = any_nm(e, "a"), any_nm(e, "b")
        a.units, b.units = some_units(e, "ua"), some_units(e, "ub")
        if e.choose(2, "same units object"):
            b.units = a.units
        return (a, b), {}

    def pre(self, a, b):
        return {"a": {f: fold_of(a, f) for f in active_folds("nm")},
                "b": {f: fold_of(b, f) for f in active_folds("nm")}}

    def raises(self, old, a, b):
        # units are compared as given: a dimensionless unit (percent) does not
        # mix with no units
        if (a.units is None) != (b.units is None):
            bad = True
        else:
            bad = snot(eq_zero(E.eng().norm(u_dim(a.units) - u_dim(b.units))))
        return [(gp().DimensionalityError, bad, True)]

    def fresh(self, old, a, b):
        r = new_like(type(a), "nm", "sum")
        r.units = a.units
        return r

    def ensures(self, old, r, a, b):
        A, B = old["a"], old["b"]
        gs = [("ok", "is a new map", r is not a and r is not b),
              ("eq", "dimension", u_dim(r.units), u_dim(a.units))]
        for f in linear("nm"):
            gs.append(("eq", "fold %s: values add up" % fname(f),
                       fold_of(r, f)*u_scale(r.units),
                       A[f]*u_scale(a.units) + B[f]*u_scale(b.units)))
        gs.append(("z", "no zero entries", z3.Implies(
            z3.And(A["zc"] == 0, B["zc"] == 0), fold_of(r, "zc") == 0)))
        if "npos" in A:
            gs.append(("z", "positivity is kept", z3.Implies(
                z3.And(A["npos"] == 0, B["npos"] == 0),
                fold_of(r, "npos") == 0)))
        return gs


@register
class NMDiff(Contract):
    """x * d/dx at any point: exp(L_x) * out = sum of c*x_exponent*monomial"""
    name = "gpkit.nomials.map:NomialMap.diff"
    props = ("C03", "C05")
    track = {"hv": NMT["hv"], "nm": NMT["nm"] + [DV]}

    def setup(self, e):
        vk = rt.new_key("var")
        e.ghost["dvkey"] = vk
        return None

    def applies(self, m, vk):
        if "dvfun" in E.eng().ghost:    # the fold at any key, as a function
            return D.is_symmap(m)
        return D.is_symmap(m) and DV in m._pv_st.folds and \
            D.same_key(vk, E.eng().ghost["dvkey"])

    def cases(self, e):
        m = any_nm(e, "m")
        m.units = some_units(e, "u")
        return (m, e.ghost["dvkey"]), {}

    def pre(self, m, vk):
        f = E.eng().ghost.get("dvfun")
        return {"dv": f(m, vk) if f else fold_of(m, DV)}

    def fresh(self, old, m, vk):
        return new_like(gp().NomialMap, "nm", "diff")

    def ensures(self, old, r, m, vk):
        return [("ok", "is a new map", r is not m),
                ("ok", "no units on the raw map", r.units is None),
                ("eq", "x*d/dx is the sum of the terms' x*d/dx",
                 fold_of(r, "ev")*P.mk_exp(D.Lk(vk)), old["dv"]),
                ("z", "no zero entries", fold_of(r, "zc") == 0)]
