"""Contracts of the nomial classes (C01, C03, C05)."""
import z3
from . import engine as E
from . import dicts as D
from . import rt
from . import poly as P
from .contracts import Contract, register, LazyChoice
from .dicts import fold_of, FOLDS, fname, active_folds
from .engine import Unsupported
from .poly import Poly
from .values import (SReal, SBool, SHash, SQty, SUnits, to_poly, is_num,
                     eq_zero, lt_zero, snot, power)
from .specs_arith import (gp, is_hv, is_nm, linear, new_like, number, u_scale,
                          u_dim, some_units, value, any_nm, hash_fresh, ONE,
                          ZERO)
from .specs_map import NMT, DV, thing_scale, thing_dim, is_thing


# ------------------------------------------------------------------ building
def mono_map(e, tag, sign="pos"):
    "a map with one arbitrary entry"
    m = gp().NomialMap()
    exp = rt.new_hv(tag + "_exp", canonical=True)
    c = e.fresh_real(tag + "_c", pos=sign == "pos", nz=True)
    m[exp] = SReal(c)
    return m


def nomial(e, cls, tag="p", units=True):
    "an arbitrary nomial of a class, satisfying the class invariant"
    g = gp()
    if cls is g.Monomial:
        hmap = mono_map(e, tag)
    elif cls is g.Posynomial:
        hmap = rt.new_nm(tag, sign="pos")
        e.add(fold_of(hmap, "n") != 1)
    else:
        hmap = rt.new_nm(tag, zeros=True)
        e.add(fold_of(hmap, "npos") > 0)
        if e.choose(2, "zero coefficients in %s?" % tag) == 0:
            hmap._pv_st.folds["zc"] = z3.IntVal(0)
            hmap._pv_st.base.folds0 = dict(hmap._pv_st.folds)
    lazy = LazyChoice(lambda: some_units(e, tag)) if units else None
    p = object.__new__(cls)
    hmap.__dict__["units"] = p.__dict__["units"] = lazy
    p.__dict__["hmap"] = hmap
    p.any_nonpositive_cs = cls is g.Signomial
    if e.frame_start is None:
        protect(e, p)
    return p


def any_nomial(e, tag="p", units=True):
    g = gp()
    cls = [g.Monomial, g.Posynomial, g.Signomial][e.choose(3, "class")]
    return nomial(e, cls, tag, units)


CACHES = {"_cs", "_exps", "_exp", "_c", "_hashvalue", "_varlocs", "_varkeys"}


def protect(e, p):
    "writes to attributes of an argument violate the frame (caches excepted)"
    prot = e.ghost.setdefault("protected", [])
    prot.append(p)
    prot.append(p.hmap)

    def hook(obj, name):
        if e.frame_start is None or name in CACHES:
            return
        for o in prot:
            if o is obj and not (name in ("expmap", "csmap")
                                 or name == "hashvalue"):
                e.oblige("frame:attributes of arguments unchanged", False,
                         "assignment to .%s of an argument" % name)
    e.ghost["attrset"] = hook


def is_nomial(x):
    return isinstance(x, gp().Signomial) and D.is_symmap(x.hmap)


def nval(x):
    "value of a nomial or number at the valuation L, in base units"
    if is_num(x):
        return to_poly(x)
    if isinstance(x, SQty):
        return x.base()
    return fold_of(x.hmap, "ev")*u_scale(x.hmap.units)


def ndim(x):
    if is_num(x):
        return ZERO
    if isinstance(x, SQty):
        return x.units.dim
    return u_dim(x.hmap.units)


def lval(x):
    "the value as of now, with the (unchangeable) units looked up on demand"
    if not is_nomial(x):
        return lambda: nval(x)
    ev = fold_of(x.hmap, "ev")
    return lambda: E.eng().norm(ev*u_scale(x.hmap.units))


def ldim(x):
    return lambda: ndim(x)


def has_u(x):
    if is_num(x):
        return False
    if isinstance(x, SQty):
        return True
    return x.hmap.units is not None


def enabled():
    return bool(gp().SignomialsEnabled)


def class_goals(r):
    "the class of a nomial says what its coefficients are"
    g = gp()
    n, npos = fold_of(r.hmap, "n"), fold_of(r.hmap, "npos")
    gs = [("ok", "is a nomial", type(r) in (g.Monomial, g.Posynomial,
                                            g.Signomial)),
          ("ok", "units are those of the map", r.units is r.hmap.units)]
    if type(r) is g.Monomial:
        gs.append(("z", "a Monomial has one positive term",
                   z3.And(n == 1, npos == 0)))
    elif type(r) is g.Posynomial:
        gs.append(("z", "a Posynomial has positive terms, not one",
                   z3.And(n != 1, npos == 0)))
    else:
        gs.append(("z", "a Signomial has a nonpositive term", npos > 0))
    return gs


def toggle(e):
    "SignomialsEnabled or not: decided when first looked at"
    M = type(gp().SignomialsEnabled)
    old = M.__bool__

    def lazy(cls):
        e = E.ENG
        if e is None:
            return old(cls)
        if "enabled" not in e.memo:
            e.memo["enabled"] = bool(e.choose(2, "signomials enabled"))
        return e.memo["enabled"]
    M.__bool__ = lazy

    def undo():
        M.__bool__ = old
    return undo


def fresh_nomial(e, tag, posy):
    """an arbitrary result nomial; its class is decided by its content"""
    g = gp()
    if posy:
        cls = [g.Monomial, g.Posynomial][e.choose(2, "class of %s" % tag)]
    else:
        cls = [g.Monomial, g.Posynomial, g.Signomial][e.choose(3)]
    return nomial(e, cls, tag, units=False)


# ------------------------------------------------------------------ contracts
@register
class DataInit(Contract):
    name = "gpkit.nomials.data:NomialData.__init__"
    props = ("C01",)
    track = NMT

    def applies(self, s, hmap):
        return D.is_symmap(hmap) and is_nm(hmap)

    def cases(self, e):
        m = any_nm(e, "m", zeros=True)
        m.units = some_units(e, "u")
        s = object.__new__(gp().Signomial)
        return (s, m), {}

    def fresh(self, old, s, hmap):
        s.hmap, s.units = hmap, hmap.units
        st = hmap._pv_st
        npos = D.getfold(st, "npos")

        def zero():
            st.folds["npos"] = z3.IntVal(0)
            st.folds["zc"] = z3.IntVal(0)
            if st.base is not None and not st.chain:
                st.base.folds0 = dict(st.folds)
        s.any_nonpositive_cs = bool(SBool(npos > 0, None, zero))
        return None

    def ensures(self, old, r, s, hmap):
        anp = s.any_nonpositive_cs
        c = anp.c if isinstance(anp, SBool) else z3.BoolVal(bool(anp))
        return [("ok", "keeps the map itself", s.hmap is hmap),
                ("ok", "keeps its units", s.units is hmap.units),
                ("z", "knows whether a coefficient is nonpositive",
                 c == (fold_of(hmap, "npos") > 0))]


@register
class SigInit(Contract):
    name = "gpkit.nomials.math:Signomial.__init__"
    props = ("C01", "C05")
    track = NMT
    setup = staticmethod(toggle)

    def applies(self, s, *a, **kw):
        return False        # inlined in callers

    def cases(self, e):
        s = object.__new__(gp().Signomial)
        kind = e.choose(4, "source")
        if kind == 0:
            m = any_nm(e, "m", zeros=True)
            m.units = some_units(e, "u")
            return (s, m), {"require_positive": bool(e.choose(2))}
        if kind == 1:
            return (s, any_nomial(e, "p")), \
                {"require_positive": bool(e.choose(2))}
        if kind == 2:
            return (s, number("x")), {"require_positive": bool(e.choose(2))}
        return (s, SQty(e.fresh_real("mag"), rt.new_units("u"))), {}

    def pre(self, s, src, require_positive=True):
        if is_num(src) or isinstance(src, SQty):
            m = to_poly(src) if is_num(src) else src.m
            return {"val": nval(src), "dim": ndim(src),
                    "npos": z3.If(E.eng().z(m) <= 0, z3.IntVal(1),
                                  z3.IntVal(0))}
        m = src if is_nm(src) else src.hmap
        return {"val": value(m), "dim": u_dim(m.units),
                "npos": fold_of(m, "npos"), "map": m}

    def raises(self, old, s, src, require_positive=True):
        g = gp()
        if require_positive and not enabled():
            return [(g.InvalidPosynomial, SBool(old["npos"] > 0), True)]
        return []

    def ensures(self, old, r, s, src, require_positive=True):
        gs = class_goals(s)
        gs += [("eq", "value", nval(s), old["val"]),
               ("eq", "dimension", ndim(s), old["dim"])]
        if "map" in old:
            gs.append(("ok", "shares the map", s.hmap is old["map"]))
        return gs


class _Binary(Contract):
    props = ("C01", "C05")
    track = NMT
    setup = staticmethod(toggle)
    timeout = 6000

    def others(self, e):
        k = e.choose(5, "other operand")
        if k == 3:
            return number("x")
        if k == 4:
            return SQty(e.fresh_real("mag"), rt.new_units("ux"))
        return nomial(e, [gp().Monomial, gp().Posynomial,
                          gp().Signomial][k], "q")

    def cases(self, e):
        p = any_nomial(e, "p")
        q = self.others(e)
        return (p, q), {}

    def applies(self, p, q, *a, **kw):
        return is_nomial(p) and (is_num(q) or isinstance(q, SQty)
                                 or is_nomial(q))

    def pre(self, p, q, *a, **kw):
        return {"p": lval(p), "q": lval(q), "dp": ldim(p), "dq": ldim(q)}

    def posy(self, *xs):
        "are all operands posynomials or positive numbers?"
        g = gp()
        for x in xs:
            if is_num(x):
                if bool(lt_zero(to_poly(x), False)):
                    return False
            elif isinstance(x, SQty):
                if bool(lt_zero(x.m, False)):
                    return False
            elif not isinstance(x, g.Posynomial):
                return False
        return True


@register
class SigAdd(_Binary):
    name = "gpkit.nomials.math:Signomial.__add__"

    def raises(self, old, p, q, rev=False):
        g = gp()
        if not isinstance(q, (g.Signomial,)) and bool(
                eq_zero(to_poly(q) if is_num(q) else q.m)):
            if not enabled() and not self.posy(p):
                return [(g.InvalidPosynomial, True, True)]
            return []
        if has_u(p) != has_u(q):
            bad = True
        else:
            bad = snot(eq_zero(E.eng().norm(old["dp"]() - old["dq"]())))
        out = [(g.DimensionalityError, bad, True)]
        if not enabled() and not self.posy(p, q):
            # a sum with a nonpositive operand may stay positive
            out.append((g.InvalidPosynomial, True, False))
        return out

    def fresh(self, old, p, q, rev=False):
        e = E.eng()
        r = fresh_nomial(e, "sum", self.posy(p, q))
        r.hmap.units = r.units = p.hmap.units
        return r

    def ensures(self, old, r, p, q, rev=False):
        return class_goals(r) + [
            ("ok", "is a new nomial", r is not p and r is not q),
            ("eq", "value is the sum of the values", nval(r),
             old["p"]() + old["q"]()),
            ("eq", "dimension", ndim(r), old["dp"]())]


@register
class SigMul(_Binary):
    name = "gpkit.nomials.math:Signomial.__mul__"

    def raises(self, old, p, q, rev=False):
        if not enabled() and not self.posy(p, q):
            return [(gp().InvalidPosynomial, True, False)]
        return []

    def fresh(self, old, p, q, rev=False):
        e = E.eng()
        if not isinstance(q, gp().Signomial) and bool(
                eq_zero(to_poly(q) if is_num(q) else q.m)):
            return q
        r = fresh_nomial(e, "prod", self.posy(p, q))
        dim = e.norm(old["dp"]() + old["dq"]())
        if has_u(p) or has_u(q):
            if has_u(p) and has_u(q) and bool(eq_zero(dim)):
                u = None
            else:
                u = SQty(ONE, SUnits(e.norm(uscale(p)*uscale(q)), dim))
        else:
            u = None
        r.hmap.units = r.units = u
        return r

    def ensures(self, old, r, p, q, rev=False):
        if r is q:
            return [("ok", "zero is returned as is",
                     not isinstance(q, gp().Signomial)),
                    ("eq", "only for zero", old["q"](), ZERO)]
        gs = class_goals(r) + [
            ("ok", "is a new nomial", r is not p and r is not q),
            ("eq", "value is the product of the values", nval(r),
             old["p"]()*old["q"]()),
            ("eq", "dimension", ndim(r), old["dp"]() + old["dq"]())]
        g = gp()
        if isinstance(p, g.Monomial) and isinstance(q, g.Monomial):
            gs.append(("z", "monomial*monomial is one term",
                       fold_of(r.hmap, "n") == 1))
        return gs


def uscale(x):
    if is_num(x):
        return ONE
    if isinstance(x, SQty):
        return x.units.scale
    return u_scale(x.hmap.units)


@register
class MonPow(Contract):
    name = "gpkit.nomials.math:Monomial.__pow__"
    props = ("C01", "C05")
    track = NMT
    setup = staticmethod(toggle)

    def applies(self, p, expo):
        return is_nomial(p) and is_num(expo)

    def cases(self, e):
        p = nomial(e, gp().Monomial, "p")
        k = e.choose(4)
        expo = [number("x"), 0, -1, 2][k]
        return (p, expo), {}

    def pre(self, p, expo):
        return {"p": lval(p), "dp": ldim(p)}

    def fresh(self, old, p, expo):
        e = E.eng()
        r = nomial(e, gp().Monomial, "pow", units=False)
        if p.hmap.units is not None and bool(expo):
            u = p.hmap.units
            r.hmap.units = r.units = SQty(ONE, SUnits(
                power(u.units.scale, to_poly(expo)),
                e.norm(u.units.dim*to_poly(expo))))
        return r

    def ensures(self, old, r, p, expo):
        x = to_poly(expo)
        (c, lm) = mono_parts(p.hmap)
        sc = u_scale(p.hmap.units)
        want = P.mk_exp(E.eng().norm(
            x*(P.mk_log(c) + lm + P.mk_log(sc))))
        return class_goals(r) + [
            ("ok", "is a Monomial", type(r) is gp().Monomial),
            ("ok", "is a new nomial", r is not p),
            ("eq", "value is the power of the value", nval(r), want),
            ("eq", "dimension", ndim(r), E.eng().norm(old["dp"]()*x))]


def mono_parts(hmap):
    "(coefficient, log of the monomial part) of a one-entry map"
    st = D.state_of(hmap)
    ents = [(k, v) for k, v in st.chain if v is not D.DEL]
    if st.base is not None or len(ents) != 1:
        raise Unsupported("not an explicit one-term map")
    k, v = ents[0]
    return to_poly(v), fold_of(k, "lmv")


@register
class SigNeg(Contract):
    name = "gpkit.nomials.math:Signomial.__neg__"
    props = ("C01", "C05")
    track = NMT
    setup = staticmethod(toggle)

    def applies(self, p):
        return is_nomial(p)

    def cases(self, e):
        return (any_nomial(e, "p"),), {}

    def pre(self, p):
        return {"p": lval(p), "dp": ldim(p)}

    def fresh(self, old, p):
        e = E.eng()
        if not enabled():
            return NotImplemented
        r = fresh_nomial(e, "neg", False)
        r.hmap.units = r.units = p.hmap.units
        return r

    def ensures(self, old, r, p):
        if not enabled():
            return [("ok", "no negation outside SignomialsEnabled",
                     r is NotImplemented)]
        return [("ok", "is a nomial", is_nomial(r))] + class_goals(r) + [
            ("ok", "is a new nomial", r is not p),
            ("eq", "value is negated", nval(r), -old["p"]()),
            ("eq", "dimension", ndim(r), old["dp"]())]


@register
class SigSub(_Binary):
    name = "gpkit.nomials.math:Signomial.__sub__"

    def raises(self, old, p, q):
        g = gp()
        if not enabled():
            return []
        if not isinstance(q, (g.Signomial,)) and bool(
                eq_zero(to_poly(q) if is_num(q) else q.m)):
            return []
        if has_u(p) != has_u(q):
            bad = True
        else:
            bad = snot(eq_zero(E.eng().norm(old["dp"]() - old["dq"]())))
        return [(g.DimensionalityError, bad, True)]

    def fresh(self, old, p, q):
        if not enabled():
            return NotImplemented
        r = fresh_nomial(E.eng(), "diff", False)
        r.hmap.units = r.units = p.hmap.units
        return r

    def ensures(self, old, r, p, q):
        if not enabled():
            return [("ok", "no subtraction outside SignomialsEnabled",
                     r is NotImplemented)]
        return [("ok", "is a nomial", is_nomial(r))] + class_goals(r) + [
            ("eq", "value is the difference of the values", nval(r),
             old["p"]() - old["q"]()),
            ("eq", "dimension", ndim(r), old["dp"]())]


@register
class SigRsub(_Binary):
    name = "gpkit.nomials.math:Signomial.__rsub__"

    def others(self, e):
        if e.choose(2):
            return number("x")
        return SQty(e.fresh_real("mag"), rt.new_units("ux"))

    def cases(self, e):
        return (any_nomial(e, "p"), self.others(e)), {}

    def raises(self, old, p, q):
        if not enabled():
            return []
        if bool(eq_zero(to_poly(q) if is_num(q) else q.m)):
            return []
        if has_u(p) != has_u(q):
            bad = True
        else:
            bad = snot(eq_zero(E.eng().norm(old["dp"]() - old["dq"]())))
        return [(gp().DimensionalityError, bad, True)]

    def fresh(self, old, p, q):
        return NotImplemented if not enabled() else None

    def applies(self, *a):
        return False

    def ensures(self, old, r, p, q):
        if not enabled():
            return [("ok", "no subtraction outside SignomialsEnabled",
                     r is NotImplemented)]
        return [("ok", "is a nomial", is_nomial(r))] + class_goals(r) + [
            ("eq", "value is the difference of the values", nval(r),
             old["q"]() - old["p"]())]


class _Div(_Binary):
    def pre(self, p, q):
        return {"p": lval(p), "q": lval(q), "dp": ldim(p), "dq": ldim(q)}

    def fresh(self, old, p, q):
        e = E.eng()
        r = fresh_nomial(e, "quot", self.posy(p, q))
        dim = e.norm(old["dp"]() - old["dq"]())
        if has_u(p) or has_u(q):
            if has_u(p) and has_u(q) and bool(eq_zero(dim)):
                u = None
            else:
                u = SQty(ONE, SUnits(e.norm(uscale(p)*uscale(q).inv()), dim))
        else:
            u = None
        r.hmap.units = r.units = u
        return r

    def ensures(self, old, r, p, q):
        return [("ok", "is a nomial", is_nomial(r))] + class_goals(r) + [
            ("ok", "is a new nomial", r is not p and r is not q),
            ("eq", "value*divisor is the dividend", nval(r)*old["q"](),
             old["p"]()),
            ("eq", "dimension", ndim(r), old["dp"]() - old["dq"]())]


@register
class SigDiv(_Div):
    name = "gpkit.nomials.math:Signomial.__truediv__"

    def others(self, e):
        k = e.choose(4, "divisor")
        if k == 0:
            return nomial(e, gp().Monomial, "q")
        if k == 1:
            return SReal(e.fresh_real("x", nz=True))
        if k == 2:
            return SQty(e.fresh_real("mag", nz=True), rt.new_units("ux"))
        return nomial(e, gp().Posynomial, "q")

    def applies(self, p, q):
        return is_nomial(p) and (is_num(q) or isinstance(q, SQty)
                                 or isinstance(q, gp().Monomial))

    def raises(self, old, p, q):
        if not enabled() and not self.posy(p, q):
            return [(gp().InvalidPosynomial, True, False)]
        return []

    def ensures(self, old, r, p, q):
        if type(q) is gp().Posynomial:
            return [("ok", "division by a posynomial is refused",
                     r is NotImplemented)]
        return super().ensures(old, r, p, q)


@register
class MonRdiv(_Div):
    name = "gpkit.nomials.math:Monomial.__rtruediv__"

    def cases(self, e):
        return (nomial(e, gp().Monomial, "m"), self.others(e)), {}

    def applies(self, m, q):
        return is_nomial(m) and (is_num(q) or isinstance(q, SQty)
                                 or is_nomial(q))

    def pre(self, m, q):
        return _Div.pre(self, q, m)

    def raises(self, old, m, q):
        if not enabled() and not self.posy(m, q):
            return [(gp().InvalidPosynomial, True, False)]
        return []

    def fresh(self, old, m, q):
        if not isinstance(q, gp().Signomial) and bool(
                eq_zero(to_poly(q) if is_num(q) else q.m)):
            return q
        return _Div.fresh(self, old, q, m)

    def ensures(self, old, r, m, q):
        if r is q:
            return [("ok", "zero is returned as is",
                     not isinstance(q, gp().Signomial)
                     and bool(eq_zero(to_poly(q) if is_num(q) else q.m)))]
        return _Div.ensures(self, old, r, q, m)


@register
class PosyNegy(Contract):
    name = "gpkit.nomials.math:Signomial.posy_negy"
    props = ("C07", "C05")
    track = {"hv": NMT["hv"] + ["lmv2", "gm"],
             "nm": NMT["nm"] + ["evp", "evn", "dd", "ddp", "ddn", "evg",
                                "evgp", "evgn"]}

    @staticmethod
    def setup(e):
        e.ghost["gpow"] = lambda k, x: Poly.z(D.GP(
            D.kterm(k), e.z(x)))
        return toggle(e)

    def applies(self, p):
        return is_nomial(p)

    def cases(self, e):
        return (any_nomial(e, "p"),), {}

    def pre(self, p):
        return {"p": {f: fold_of(p.hmap, f) for f in linear("nm")
                      if f in D.PARTS}}

    def fresh(self, old, p):
        e = E.eng()
        out = []
        for t in ("posy", "negy"):
            if e.choose(2):
                q = fresh_nomial(e, t, True)
                q.hmap.units = q.units = p.hmap.units
                e.add(fold_of(q.hmap, "n") > 0)
            else:
                q = 0
            out.append(q)
        E.eng().ghost.setdefault("parts", []).append(tuple(out))
        return tuple(out)

    def ensures(self, old, r, p):
        gs = [("ok", "a pair", isinstance(r, tuple) and len(r) == 2)]
        tot = {f: ZERO for f in old["p"]}
        for q, s, nm in ((r[0], 1, "positive"), (r[1], -1, "negative")):
            if type(q) is int:
                gs.append(("ok", "an absent part is 0", q == 0))
                continue
            gs += class_goals(q)
            gs += [("ok", "%s part is a posynomial" % nm,
                    isinstance(q, gp().Posynomial)),
                   ("z", "%s part is not empty" % nm,
                    fold_of(q.hmap, "n") > 0),
                   ("eq", "dimension of the %s part" % nm, ndim(q), ndim(p)),
                   ("eq", "scale of the %s part" % nm, uscale(q), uscale(p))]
            for f in tot:
                tot[f] = tot[f] + fold_of(q.hmap, f).scale(s)
        for f, v in old["p"].items():
            gs.append(("eq", "posy - negy is the signomial (%s)" % f, tot[f],
                       v))
        return gs


@register
class SigDiff(Contract):
    name = "gpkit.nomials.math:Signomial.diff"
    props = ("C03", "C05")
    track = {"hv": NMT["hv"], "nm": NMT["nm"] + [DV]}

    @staticmethod
    def setup(e):
        vk = rt.new_key("var")
        vk.__dict__["pv_units"] = some_units(e, "vu")
        e.ghost["dvkey"] = vk
        return toggle(e)

    def applies(self, p, var):
        return False

    def cases(self, e):
        vk = e.ghost["dvkey"]

        class Var:
            key = vk
        p = any_nomial(e, "p")
        return (p, Var()), {}

    def pre(self, p, var):
        return {"dv": fold_of(p.hmap, DV), "n": fold_of(p.hmap, "n")}

    def ensures(self, old, r, p, var):
        e = E.eng()
        vk = var.key
        # value(x) = exp(L_x) in the units of x
        xval = P.mk_exp(D.Lk(vk))*u_scale(vk.units)
        return class_goals(r) + [
            ("ok", "is a new nomial", r is not p),
            ("eq", "x * dp/dx is the sum of the terms' x*d/dx, in base units",
             nval(r)*xval, old["dv"]*u_scale(p.hmap.units)),
            ] + ([("eq", "dimension", ndim(r), e.norm(
                ndim(p) - u_dim(vk.units)))]
                if self.depends(e, p, vk) else [])

    def depends(self, e, p, vk):
        return e.ghost.get("vks_contains", True)


@register
class Vks(Contract):
    """the variables of a nomial: exactly the keys of its terms.  Used through
    the ghost fold dv only: a variable outside vks has no term."""
    name = "gpkit.nomials.data:NomialData.vks"
    props = ("C03", "C04")
    track = {"hv": NMT["hv"], "nm": NMT["nm"] + [DV]}

    @staticmethod
    def setup(e):
        e.ghost["dvkey"] = rt.new_key("var")

    def cases(self, e):
        return (any_nomial(e, "p"),), {}

    def applies(self, p):
        return is_nomial(p)

    def fresh(self, old, p):
        return VksSet(p)

    def ensures(self, old, r, p):
        return []


class VksSet:
    pv_symbolic = True

    def __init__(self, p):
        self.p = p

    def __contains__(self, key):
        e = E.eng()
        memo = e.memo.setdefault("vks", [])
        for p, k, r in memo:
            if p is self.p and k is key:
                return r
        r = bool(e.choose(2, "in vks?"))
        memo.append((self.p, key, r))
        if not r:
            for f in self.p.hmap._pv_st.folds:
                if fname(f) == "dv" and D.same_key(key, e.ghost[f[1]]):
                    e.assume_zero(fold_of(self.p.hmap, f))
        else:
            e.add(fold_of(self.p.hmap, "n") > 0)
        e.ghost["vks_contains"] = r
        return r
