"""Substitution (C02): contracts of subinplace and NomialMap.sub.

Ghost valuation: every variable k has a value g(k), of any sign; gpow(k, x) is
g(k)**x.  `gm` of an exponent vector is the product of its gpow, `evg` of a
nomial map the sum of c*gm: its value at that valuation.  For a substituted
variable, g(k) is the substituted value; for the others it is arbitrary."""
import z3
from . import engine as E
from . import dicts as D
from . import rt
from .contracts import Contract, register
from .dicts import fold_of, active_folds
from .poly import Poly
from .values import SReal, SQty, SUnits, SHash, to_poly, eq_zero, lt_zero
from .specs_arith import gp, number, any_nm, some_units, new_like, ONE
from .engine import REAL, KSORT

PowF = z3.Function("PowF", REAL, REAL, REAL)
TRK = {"hv": ["lmv", "zc", "hx", "gm"], "nm": ["evg", "zc"]}


def power_term(b, x):
    e = E.eng()
    return Poly.z(PowF(e.z(b), e.z(x)))


def symset(kind="hset", tag="squished"):
    s = D.PvSet()
    st = D.new_base_state(tag, kind)
    st.base.folds0 = dict(st.folds)
    s.__dict__["_pv_st"] = st
    return s


GF = z3.Function("G", KSORT, REAL)        # the ghost valuation


def G(k):
    return Poly.z(GF(D.kterm(k)))


def ghost_valuation(e):
    e.ghost["gpow"] = lambda k, x: power_term(G(k), x)


@register
class SubInPlace(Contract):
    """value at the valuation is kept, whatever like terms the removal of vk
    makes meet; the substituted exponents no longer hold vk; a zero map is
    {(): 0}"""
    name = "gpkit.nomials.map:subinplace"
    props = ("C02", "C05")
    track = TRK
    allow_mut = staticmethod(lambda a: [a[0], a[0].csmap, a[1], a[5]])

    def cases(self, e):
        vk = rt.new_key("var")
        ghost_valuation(e)
        g = G(vk)
        cval = SReal(g)
        e.ghost["power"] = lambda b, x: power_term(g, x) \
            if e.norm(b - g).is_zero() else None
        cp = rt.new_nm("cp", zeros=True)
        cp.units = some_units(e, "u")
        cp.csmap = rt.new_nm("cs", zeros=True)
        exp = rt.new_hv("exp", hashed=True)
        o_exp = rt.new_hv("o_exp", hashed=True)
        sq = symset()
        if not D.lookup(exp._pv_st, vk)[0] or \
                not D.lookup(cp.csmap._pv_st, o_exp)[0]:
            raise E.Infeasible()       # preconditions
        x = D.lookup(exp._pv_st, vk)[1]
        # no pole: a zero value is not raised to a negative power
        e.add(z3.Or(e.z(to_poly(cval)) != 0, e.z(to_poly(x)) >= 0))
        return (cp, exp, o_exp, vk, cval, sq), {}

    def pre(self, cp, exp, o_exp, vk, cval, squished):
        was = D.lookup(cp._pv_st, exp)[0]
        sq = E.eng().top is self and D.lookup(squished._pv_st, exp)[0]
        return {"evg": fold_of(cp, "evg"), "was": was, "sq": sq,
                "zc": fold_of(cp, "zc"), "x": D.lookup(exp._pv_st, vk)[1],
                "cs": D.lookup(cp.csmap._pv_st, o_exp)[1],
                "csn": fold_of(cp.csmap, "n"), "units": cp.units,
                "n": fold_of(cp, "n")}

    def applies(self, cp, *a):
        return D.is_symmap(cp)

    def requires(self, cp, exp, o_exp, vk, cval, squished):
        x = D.lookup(exp._pv_st, vk)
        ok = x[0] and D.lookup(cp.csmap._pv_st, o_exp)[0]
        gs = [("ok", "the variable is in the exponents, the original term"
               " among the coefficients", ok),
              ("eq", "the value substituted is the given one",
               to_poly(cval), G(vk))]
        return gs

    def fresh(self, old, cp, exp, o_exp, vk, cval, squished):
        for m in (cp, cp.csmap):
            n = new_like(type(m), "nm", "sub")
            m.__dict__["_pv_st"] = n._pv_st
        return None

    def ensures(self, old, r, cp, exp, o_exp, vk, cval, squished):
        gs = [("eq", "value at the substituted point is kept",
               fold_of(cp, "evg"), old["evg"]),
              ("z", "zero terms only in a zero map, as before", z3.Or(
                  z3.And(old["zc"] != 0, old["n"] > 1),
                  fold_of(cp, "zc") == 0, fold_of(cp, "n") <= 1)),
              ("z", "not empty if anything was substituted", z3.Or(
                  z3.BoolVal(not old["was"]), fold_of(cp, "n") >= 1)),
              ("ok", "units are kept", cp.units is old["units"])]
        if E.eng().top is self:
            pw = power_term(to_poly(cval), to_poly(old["x"]))
            has = D.lookup(exp._pv_st, vk)[0]
            if old["was"] or old["sq"]:
                gs.append(("ok", "the variable is gone", not has))
            gs += [("eq", "the original term's coefficient is tracked",
                    to_poly(D.lookup(cp.csmap._pv_st, o_exp)[1]),
                    to_poly(old["cs"])*pw),
                   ("z", "the cached hash stays right",
                    SHash.bv(exp.hashvalue) == fold_of(exp, "hx")),
                   ("z", "no zero exponents", fold_of(exp, "zc") == 0),
                   ("z", "no other coefficient is dropped",
                    fold_of(cp.csmap, "n") == old["csn"])]
            if old["sq"] and not old["was"]:
                gs.append(("ok", "squished terms stay tracked",
                           D.lookup(squished._pv_st, exp)[0]))
            if not old["was"]:
                gs.append(("z", "nothing else changes",
                           fold_of(cp, "n") == old["n"]))
        return gs


class SubsToken:
    "substitutions as given by the user, to be parsed"
    pv_symbolic = True


def fixed_map(e, const):
    "variable -> value, in any of the accepted forms; its ghost value is G"
    m = D.PvDict()
    st = D.new_base_state("fixed", "g", elem=lambda k: given(e, k))
    st.base.folds0 = dict(st.folds)
    m.__dict__["_pv_st"] = st
    return m


def given(e, k):
    "a number; a quantity; a variable-free monomial"
    g = G(k)
    c = e.choose(3, "form of the value")
    if c == 0:
        return SReal(g)
    u = k.units
    q = SQty(e.fresh_real("q"), rt.new_units("q"))
    # physically equal to G in the variable's units (else: dimension error)
    if u is not None:
        e.assume_zero(q.units.dim - u.units.dim)
        e.assume_zero(q.m*q.units.scale - g*u.units.scale)
    else:
        e.assume_zero(q.units.dim)
        e.assume_zero(q.m*q.units.scale - g)
    if c == 1:
        return q
    nm = gp().NomialMap({gp().EMPTY_HV: SReal(q.m)})
    nm.units = SQty(ONE, q.units)
    return Const(nm)


class Const:
    "a variable-free monomial"
    def __init__(self, hmap):
        self.hmap = hmap


@register
class NMSub(Contract):
    name = "gpkit.nomials.map:NomialMap.sub"
    props = ("C02", "C05")
    track = TRK
    assumes = ["NomialMap.sub: the pairs collected per variable hold that"
               " variable and an original term, and only substituted"
               " variables are collected (the order in which the code visits"
               " them is not modelled)",
               "NomialMap.sub: with every variable substituted only the"
               " constant term remains"]

    inline = ("gpkit.nomials.map:NomialMap.to",
              "gpkit.small_classes:HashVector.__mul__")

    def setup(self, e):
        ghost_valuation(e)

        def units(k):
            t = D.kterm(k).get_id()
            tab = e.memo.setdefault("keyunits", {})
            if t not in tab:
                tab[t] = some_units(e, "vk")
            return tab[t]
        e.ghost["keyunits"] = units
        return None

    def applies(self, m, subs, vks, parsedsubs=False):
        return D.is_symmap(m) and (isinstance(subs, SubsToken)
                                   or D.is_symmap(subs))

    def cases(self, e):
        m = rt.new_nm("m", zeros=True)
        m.units = some_units(e, "u")
        fixed = fixed_map(e, None)
        e.ghost["fixed"] = fixed

        def inv(key, pair):
            "what varlocs holds (see assumes)"
            o_exp, exp = pair
            cs = e.ghost["sub_result"]
            if not D.lookup(exp._pv_st, key)[0]:
                raise E.Infeasible()
            for o in e.objects:
                if type(o) is type(m) and o is not m and \
                        "csmap" in o.__dict__:
                    if not D.lookup(o.csmap._pv_st, o_exp)[0]:
                        raise E.Infeasible()
        e.ghost["bag_elem"] = inv

        def keyinv(key):
            if not D.lookup(fixed._pv_st, key)[0]:
                raise E.Infeasible()
        e.ghost["bag_key"] = keyinv
        e.ghost["sub_result"] = None
        if e.choose(2, "parsed"):
            return (m, fixed, D.PvSet(), True), {}
        return (m, SubsToken(), D.PvSet()), {}

    def pre(self, m, subs, vks, parsedsubs=False):
        # at G(k) = exp(L_k) evg is ev
        f = E.eng().ghost.get("valfold", "evg")
        return {"val": fold_of(m, f), "units": m.units, "f": f}

    def fresh(self, old, m, *a, **kw):
        e = E.eng()
        if e.ghost.get("covers"):   # every variable is given: see assumes
            r = type(m)({gp().EMPTY_HV: SReal(e.fresh_real("subbed"))})
        else:
            r = new_like(type(m), "nm", "sub")
        r.units = m.units
        r.expmap, r.csmap = {}, D.PvDict()     # bookkeeping, contents opaque
        if "on_subbed" in e.ghost:
            e.ghost["on_subbed"](r)
        return r

    def ensures(self, old, r, m, *a, **kw):
        return [("ok", "a nomial map", isinstance(r, gp().NomialMap)),
                ("ok", "units are kept", r.units is old["units"]),
                ("eq", "its value is the value with the substitutions made",
                 fold_of(r, old["f"]), old["val"])]
