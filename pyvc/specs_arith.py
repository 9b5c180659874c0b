"""Contracts of the nomial algebra (C01, C05 and the parts others rely on)."""
import z3
from . import engine as E
from . import dicts as D
from . import rt
from . import poly as P
from .contracts import Contract, register
from .dicts import fold_of, FOLDS, fname, active_folds, PvDict
from .poly import Poly
from .values import (SReal, SBool, SHash, SQty, SUnits, to_poly, is_num,
                     eq_zero, lt_zero, snot)

ONE, ZERO = Poly.const(1), Poly({})


def gp():
    return rt.GP


def is_hv(x):
    return isinstance(x, dict) and D.kind_of(x) == "hv"


def is_nm(x):
    return isinstance(x, dict) and D.kind_of(x) == "nm"


def linear(kind):
    "tracked folds that are linear in the values"
    return [f for f in active_folds(kind) if FOLDS[fname(f)].group == "add"
            and fname(f) not in D.PARTNAMES]


def new_like(cls, kind, tag):
    m = cls()
    st = D.new_base_state(tag, kind)
    st.base.folds0 = dict(st.folds)
    m.__dict__["_pv_st"] = st
    return m


def number(tag="s", **kw):
    return SReal(E.eng().fresh_real(tag, **kw))


# ---------------------------------------------------------------- units view
def u_scale(q):
    "scale of a `.units` value (None or a unit quantity)"
    if q is None:
        return ONE
    if isinstance(q, SQty):
        return q.base()
    s = rt.pint_to_sqty(q)
    return s.base()


def u_dim(q):
    if q is None:
        return ZERO
    if isinstance(q, SQty):
        return q.units.dim
    return rt.pint_to_sqty(q).units.dim


def some_units(e, tag):
    "None, or a unit quantity of arbitrary scale and dimension"
    if e.choose(2, "units?") == 0:
        return None
    return rt.new_unit_qty(tag)


def value(hmap):
    "value of a nomial map at the arbitrary positive valuation L, SI-like base"
    return fold_of(hmap, "ev")*u_scale(hmap.units)


# ---------------------------------------------------------------- HashVector
@register
class HVCopy(Contract):
    name = "gpkit.small_classes:HashVector.copy"
    props = ("C01", "C05")
    track = {"hv": ["lmv", "zc", "hx"]}

    def cases(self, e):
        return (rt.new_hv("a", canonical=bool(e.choose(2))),), {}

    def applies(self, a):
        return D.is_symmap(a) and is_hv(a) and a._pv_st.base is not None

    def fresh(self, old, a):
        # a copy has the same content: share the (immutable) state
        r = type(a)()
        r.__dict__["_pv_st"] = a._pv_st.copy()
        D.hterm(a._pv_st)
        r._pv_st._h = a._pv_st._h
        r.__dict__["hashvalue"] = a.hashvalue
        return r

    def ensures(self, old, r, a):
        gs = [("ok", "is a new object", r is not a),
              ("ok", "same class", type(r) is type(a)),
              ("ok", "same cached hash", same_hash(r.hashvalue, a.hashvalue)),
              ("ok", "same content", same_content(r, a))]
        return gs


def same_hash(x, y):
    if x is None or y is None:
        return x is y
    r = SHash(SHash.bv(x)) == SHash(SHash.bv(y))
    return r if isinstance(r, bool) else E.eng().entails(r.c)


def same_content(a, b):
    sa, sb = D.state_of(a), D.state_of(b)
    if sa.base is not sb.base or len(sa.chain) != len(sb.chain):
        return False
    return all(D.same_key(x[0], y[0]) and x[1] is y[1]
               for x, y in zip(sa.chain, sb.chain))


def hash_fresh(r):
    "a new vector's cached hash is absent or right"
    if "hx" not in r._pv_st.folds:
        return True
    h = getattr(r, "hashvalue", None)
    if h is None:
        return True
    return E.eng().entails(SHash.bv(h) == fold_of(r, "hx"))


@register
class HVHash(Contract):
    name = "gpkit.small_classes:HashVector.__hash__"
    props = ("C05",)
    track = {"hv": ["lmv", "zc", "hx"]}

    def applies(self, a):
        return False          # native hashing of symbolic vectors is an error

    def cases(self, e):
        return (rt.new_hv("a"),), {}

    def pre(self, a):
        return {"hx": fold_of(a, "hx")}

    def ensures(self, old, r, a):
        return [("z", "result is the hash of the content",
                 SHash.bv(r) == old["hx"]),
                ("z", "hash is cached", SHash.bv(a.hashvalue) == old["hx"])
                if a.hashvalue is not None else
                ("ok", "no cache is allowed", True)]


def any_map(e):
    "a vector or nomial map, with or without zero entries (an exact split)"
    if e.choose(2, "vector or map"):
        return any_nm(e, "a", zeros=True)
    c = e.choose(2)
    a = rt.new_hv("a", canonical=not c)
    if c:
        e.add(fold_of(a, "zc") > 0)
    return a


def any_nm(e, tag, zeros=False, sign=None):
    "a nomial map: posynomial, or with nonpositive, or with zero coefficients"
    if sign == "pos":
        return rt.new_nm(tag, sign="pos")
    c = e.choose(3 if zeros else 2, "signs of %s" % tag)
    a = rt.new_nm(tag, zeros=c == 2, sign=None if c else "pos")
    if c:
        e.add(fold_of(a, "npos") > 0)
    if c == 2:
        e.add(fold_of(a, "zc") > 0)
        e.add(fold_of(a, "npos") >= fold_of(a, "zc"))
    return a


PT = [("at", "ptkey"), ("has", "ptkey")]


class _Scale(Contract):
    track = {"hv": ["lmv", "zc", "hx"],
             "nm": ["ev", "zc", "npos"] + PT}

    def setup(self, e):
        e.ghost["ptkey"] = rt.new_hv("pt", hashed=True)

    def pre(self, a, s):
        kind = D.state_of(a).kind
        return {f: fold_of(a, f) for f in active_folds(kind)}

    def applies(self, a, s):
        return D.is_symmap(a) and D.kind_of(a) in ("hv", "nm") and is_num(s) \
            and a._pv_st.base is not None

    def cases(self, e):
        s = number("s")
        if bool(eq_zero(s.p)) or bool(lt_zero(s.p)):    # case split
            pass
        a = any_map(e)
        return (a, s), {}

    def fresh(self, old, a, s):
        return new_like(type(a), D.kind_of(a), "scaled")

    def ensures(self, old, r, a, s):
        kind = D.kind_of(a)
        sp = to_poly(s)
        gs = [("ok", "is a new object", r is not a),
              ("ok", "same class", type(r) is type(a)),
              ("ok", "valid hash cache", hash_fresh(r) if kind == "hv"
               else True)]
        for f in linear(kind):
            gs.append(("eq", "fold %s scales" % fname(f), fold_of(r, f),
                       old[f]*sp))
        gs.append(("z", "same number of entries",
                   fold_of(r, "n") == old["n"]))
        sz = E.eng().z(sp)
        for f in old:
            if fname(f) == "has":
                gs.append(("z", "same keys", fold_of(r, f) == old[f]))
        if "zc" in old:
            gs.append(("z", "no new zero entries", z3.Implies(
                sz != 0, fold_of(r, "zc") == old["zc"])))
        if "npos" in old:
            gs.append(("z", "signs are kept", z3.Implies(
                sz > 0, fold_of(r, "npos") == old["npos"])))
        if kind == "nm":
            gs.append(("ok", "no units on the raw map", r.units is None))
        return gs


@register
class HVMul(_Scale):
    name = "gpkit.small_classes:HashVector.__mul__"
    props = ("C01", "C05")


class _Sum(Contract):
    track = {"hv": ["lmv", "zc", "hx"],
             "nm": ["ev", "zc", "npos"]}
    sign = 1

    def pre(self, a, b):
        kind = D.kind_of(a)
        return {"a": {f: fold_of(a, f) for f in active_folds(kind)},
                "b": {f: fold_of(b, f) for f in active_folds(kind)}}

    def applies(self, a, b):
        return isinstance(a, dict) and isinstance(b, dict) and \
            (D.is_symmap(a) or D.is_symmap(b)) and \
            D.kind_of(a) == D.kind_of(b) and D.kind_of(a) in ("hv", "nm")

    def cases(self, e):
        if e.choose(2, "vector or map"):
            a, b = any_nm(e, "a"), any_nm(e, "b")
        else:
            a, b = rt.new_hv("a"), rt.new_hv("b")
        return (a, b), {}

    def fresh(self, old, a, b):
        return new_like(type(a), D.kind_of(a), "sum")

    def ensures(self, old, r, a, b):
        kind = D.kind_of(a)
        A, B = old["a"], old["b"]
        gs = [("ok", "is a new object", r is not a and r is not b),
              ("ok", "same class", type(r) is type(a)),
              ("ok", "valid hash cache", hash_fresh(r) if kind == "hv"
               else True)]
        for f in linear(kind):
            gs.append(("eq", "fold %s adds up" % fname(f), fold_of(r, f),
                       A[f] + B[f].scale(self.sign)))
        if "zc" in A:
            gs.append(("z", "no zero entries", z3.Implies(
                z3.And(A["zc"] == 0, B["zc"] == 0), fold_of(r, "zc") == 0)))
        if "npos" in A and self.sign > 0:
            gs.append(("z", "positivity is kept", z3.Implies(
                z3.And(A["npos"] == 0, B["npos"] == 0),
                fold_of(r, "npos") == 0)))
        return gs


@register
class HVAdd(_Sum):
    name = "gpkit.small_classes:HashVector.__add__"
    props = ("C01", "C05")


@register
class HVNeg(Contract):
    name = "gpkit.small_classes:HashVector.__neg__"
    props = ("C01", "C05")
    track = _Scale.track

    def applies(self, a):
        return D.is_symmap(a) and a._pv_st.base is not None

    def cases(self, e):
        return (rt.new_hv("a"),), {}

    def pre(self, a):
        return {f: fold_of(a, f) for f in active_folds(D.kind_of(a))}

    def fresh(self, old, a):
        return new_like(type(a), D.kind_of(a), "neg")

    def ensures(self, old, r, a):
        gs = [("ok", "is a new object", r is not a),
              ("ok", "same class", type(r) is type(a)),
              ("ok", "valid hash cache", hash_fresh(r))]
        for f in linear(D.kind_of(a)):
            gs.append(("eq", "fold %s negates" % fname(f), fold_of(r, f),
                       -old[f]))
        gs.append(("z", "no zero entries", z3.Implies(
            old["zc"] == 0, fold_of(r, "zc") == 0)))
        return gs


@register
class HVSub(_Sum):
    name = "gpkit.small_classes:HashVector.__sub__"
    props = ("C01", "C05", "C06")
    sign = -1

    def cases(self, e):
        return (rt.new_hv("a"), rt.new_hv("b")), {}
