"""Sums and products of arrays of nomials (C25)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import T, TObj, TMap, ZMap, ZContainer, INT, REAL, BOOL
from .contracts import ZContract, register
from .values import SBool

AR = "gpkit.nomials.array:"
I0 = z3.IntVal(0)


class Sym:
    "an object of which the code uses only what is defined here"
    pv_symbolic = True


# a map of terms: its value at an arbitrary point in base units, the scale
# and dimension of its unit, and whether it has no terms
_d = z3.Datatype("TermMap")
_d.declare("mk", ("base", REAL), ("scale", REAL), ("dim", REAL),
           ("bare", BOOL))
POLY = _d.create()

TEl = TObj("ArrayElement")
TExp = TObj("ExponentsOfTerm")
HasMap, IsMono, Zero = (z3.Function(n, TEl.sort, BOOL) for n in (
    "is_a_nomial", "is_a_monomial", "is_zero"))
MapOf = z3.Function("terms_of", TEl.sort, POLY)
ExpOf = z3.Function("exponents_of", TEl.sort, TExp.sort)
CofE = z3.Function("coefficient_of", TEl.sort, REAL)
Ev = z3.Function("value_of_exponents", TExp.sort, REAL)
Plus = z3.Function("sum_of_exponents", TExp.sort, TExp.sort, TExp.sort)
Nothing = z3.Const("no_exponents", TExp.sort)
At = z3.Function("element", INT, TEl.sort)
# over the elements before the i-th
SumTo, ProdTo, DimTo = (z3.Function(n, INT, REAL) for n in (
    "sum_so_far", "product_so_far", "dimension_so_far"))
MT = TMap(TExp, zv.TReal)


class DimErr(Exception):
    "stands for DimensionalityError"


def yes(f):
    return bool(SBool(f))


class Unit(Sym):
    def __init__(self, scale, dim):
        self.scale, self.dim = scale, dim


class _TPoly(T):
    name, sort = "TermMap", POLY
    empty = POLY.mk(0, 1, 0, True)

    def wrap(self, t):
        return Poly(self, t)

    def unwrap(self, v):
        if isinstance(v, Poly):
            return v.term
        raise Unsupported("a map of terms was expected, got %r" % (v,))

    def fresh(self, base):
        t = E.eng().fresh(base, POLY)
        known(t)
        return t


def known(t):
    E.eng().add(z3.And(POLY.scale(t) > 0, z3.Implies(
        POLY.bare(t), POLY.base(t) == 0)))


TPoly = _TPoly()


class Poly(ZContainer):
    kind = "map of terms"
    elem = None

    @property
    def units(self):
        return Unit(POLY.scale(self.term), POLY.dim(self.term))

    @units.setter
    def units(self, u):
        if u is None:
            u = Unit(z3.RealVal(1), z3.RealVal(0))
        if not isinstance(u, Unit):
            raise Unsupported("units %r" % (u,))
        t = self.term
        self.put(POLY.mk(z3.If(POLY.bare(t), 0, POLY.base(t)/POLY.scale(t)
                               * u.scale), u.scale, u.dim, POLY.bare(t)),
                 "units")

    def __bool__(self):
        return not yes(POLY.bare(self.term))

    def __add__(self, o):
        a, b = self.term, TPoly.unwrap(o)
        if not yes(POLY.dim(a) == POLY.dim(b)):
            raise DimErr("cannot add")
        bare = E.eng().fresh("bare", BOOL)
        t = POLY.mk(POLY.base(a) + POLY.base(b), POLY.scale(a), POLY.dim(a),
                    bare)
        known(t)
        return Poly(TPoly, t)

    def copy(self):
        return Poly(TPoly, self.term)

    def items(self):
        "of a monomial's map"
        e = E.eng()
        el = self.elem
        if el is None:      # made by the code from one term
            x, c = e.fresh("exponents", TExp.sort), e.fresh("c", REAL)
            t = self.term
            E.eng().oblige("this is a map of one term",
                           SBool(z3.Not(POLY.bare(t))))
            e.add(z3.And(POLY.base(t) == c*Ev(x)*POLY.scale(t), Ev(x) > 0))
            return [(TExp.wrap(x), zv.ZR(c))]
        if not yes(IsMono(el)):
            return []
        return [(TExp.wrap(ExpOf(el)), zv.ZR(CofE(el)))]

    def units_of_product(self, u, v=None):
        s, d = z3.RealVal(1), z3.RealVal(0)
        for x in (u, v):
            if x is None:
                continue
            if not isinstance(x, Unit):
                raise Unsupported("units of %r" % (x,))
            s, d = s*x.scale, d + x.dim
        t = self.term
        self.put(POLY.mk(z3.If(POLY.bare(t), 0, POLY.base(t)/POLY.scale(t)
                               * s), s, d, POLY.bare(t)), "units")


def new_map(terms=None):
    "NomialMap(...)"
    if terms is None:
        return Poly(TPoly, TPoly.empty)
    if type(terms) is dict and len(terms) == 1:
        (k, v), = terms.items()
        k = TExp.unwrap(k)
    elif isinstance(terms, ZMap) and terms.T is not None:
        d = z3.simplify(terms.T.dom(terms.term))
        if not (z3.is_store(d) and z3.is_const_array(d.arg(0))
                and z3.is_false(d.arg(0).arg(0)) and z3.is_true(d.arg(2))):
            raise Unsupported("a map not of one term")
        k = d.arg(1)
        v = z3.simplify(z3.Select(terms.T.vals(terms.term), k))
    else:
        raise Unsupported("a map of %r" % (terms,))
    v = zv.num_term(v) if not isinstance(v, z3.ExprRef) else v
    if v.sort() != REAL:
        v = z3.ToReal(v)
    return Poly(TPoly, POLY.mk(v*Ev(k), 1, 0, False))


def plus(a, b):
    k = Plus(TExp.unwrap(a), TExp.unwrap(b))
    E.eng().add(Ev(k) == Ev(TExp.unwrap(a))*Ev(TExp.unwrap(b)))
    return TExp.wrap(k)


TExp.attrs["__add__"] = lambda a: lambda b: plus(a, b)


def el_has(v):
    def f(name):
        if name in ("hmap", "vks"):
            return SBool(HasMap(v.t))
        raise Unsupported("hasattr(element, %r)" % name)
    return f


def el_map(v):
    if not yes(HasMap(v.t)):
        raise AttributeError("hmap")
    return map_of(v.t)


def map_of(t):
    m = Poly(TPoly, MapOf(t))
    m.mut = False
    m.elem = t
    known(MapOf(t))
    E.eng().add(z3.Implies(IsMono(t), z3.And(
        z3.Not(POLY.bare(MapOf(t))), Ev(ExpOf(t)) > 0,
        POLY.base(MapOf(t)) == CofE(t)*Ev(ExpOf(t))*POLY.scale(MapOf(t)))))
    return m


def el_units(v):
    m = MapOf(v.t)
    return Unit(POLY.scale(m), POLY.dim(m))


TEl.attrs.update(hmap=el_map, __hasattr__=el_has, units=el_units,
                 __bool__=lambda v: SBool(z3.Not(Zero(v.t))))


class Out(Sym):
    def __init__(self, hmap):
        self.hmap = hmap


class Empty(Exception):
    "stands for ValueError"


class Array(Sym):
    "the array: size, flat; a scalar or not"
    def __init__(self, n):
        self.n = n
        self.size = zv.ZI(n)
        self.shape = (1,)

    @property
    def flat(self):
        return self

    def pv_zsource(self):
        return zv.IdxSource(self.n, lambda i: TEl.wrap(At(i)))

    def __bool__(self):
        raise Unsupported("truth of an array")


class _Fold(ZContract):
    props = ("C25",)
    assumes = ["arrays of nomials: adding maps of terms, units_of_product"
               " and making a nomial of a number or quantity act as their"
               " contracts say (C01); .flat yields every element once; numpy"
               " applies operations elementwise"]

    def applies(self, *a, **kw):
        return False

    def setup(self, e):
        import gpkit.nomials.array as A
        me = self

        def signomial(x, cs=1, require_positive=True):
            if isinstance(x, Poly):
                return Out(x)
            if isinstance(x, zv.ZObj) and x.T is TEl:
                out = Out(map_of(x.t))
                return out
            raise Unsupported("a nomial of %r" % (x,))

        class ndarray:
            @staticmethod
            def sum(arr, *a, **kw):
                return me.numpy("sum", arr)

            @staticmethod
            def prod(arr, *a, **kw):
                return me.numpy("prod", arr)

        class NP:
            pass
        NP.ndarray = ndarray
        new = {"Signomial": signomial, "NomialMap": new_map, "np": NP,
               "HashVector": lambda: TExp.wrap(Nothing),
               "EMPTY_HV": TExp.wrap(Nothing)}
        old = {k: A.__dict__[k] for k in new if k in A.__dict__}
        A.__dict__.update(new)

        def undo():
            for k in new:
                if k in old:
                    A.__dict__[k] = old[k]
                else:
                    A.__dict__.pop(k, None)
        return undo

    def numpy(self, what, arr):
        E.eng().oblige("numpy folds the whole array", arr is self.arr
                       and what == self.op, backend="structural")
        self.fellback = True
        return Sym()

    def cases(self, e):
        e.ghost["empty_map of terms"] = TPoly
        e.ghost["default_types"] = {}
        n = e.fresh("n", INT)
        e.add(n >= 0)
        self.fellback = False
        self.D = e.fresh("common_dimension", REAL)
        self.same = e.fresh("all of one dimension", BOOL)
        i = z3.Const("i_el", INT)
        m = MapOf(At(i))
        e.add(z3.ForAll([i], z3.And(
            SumTo(i + 1) == SumTo(i) + POLY.base(m),
            ProdTo(i + 1) == ProdTo(i)*POLY.base(m),
            DimTo(i + 1) == DimTo(i) + POLY.dim(m),
            z3.Implies(z3.And(self.same, 0 <= i, i < n, z3.Or(
                HasMap(At(i)), z3.Not(Zero(At(i))))),
                POLY.dim(m) == self.D),
            z3.Implies(z3.And(z3.Not(HasMap(At(i))), Zero(At(i))),
                       POLY.base(m) == 0)),
            patterns=[At(i)]))
        e.add(z3.And(SumTo(I0) == 0, ProdTo(I0) == 1, DimTo(I0) == 0,
                     Ev(Nothing) == 1))
        self.arr = Array(n)
        return (self.arr,), {}

    def raises(self, old, arr, **kw):
        return [(ValueError, SBool(arr.n == 0), True),
                (DimErr, SBool(z3.Not(self.same)) if self.op == "sum" else False,
                 False)]

    def ensures(self, old, res, arr, **kw):
        if self.fellback:
            return [("ok", "numpy's own fold is for products that are not of"
                     " monomials", self.op == "prod")]
        ok = isinstance(res, Out) and isinstance(res.hmap, Poly)
        out = [("ok", "a nomial", ok)]
        if not ok:
            return out
        return out + [("z",) + g for g in self.say(res.hmap.term, arr.n)]


@register
class Sum(_Fold):
    name = AR + "NomialArray.sum"
    op = "sum"

    def say(self, t, i):
        return [("the value is the sum of the elements'",
                 POLY.base(t) == SumTo(i)),
                ("nothing has no value", z3.Implies(
                    POLY.bare(t), POLY.base(t) == 0)),
                ("its dimension is the elements'", z3.Implies(
                    z3.And(self.same, z3.Not(POLY.bare(t))),
                    POLY.dim(t) == self.D))]

    def each(self, L):
        return self.say(L.loc["hmap"].term, L.i)

    loops = {"NomialArray.sum#1": each}


@register
class Prod(_Fold):
    name = AR + "NomialArray.prod"
    op = "prod"

    def say(self, t, i):
        return [("the value is the product of the elements'",
                 POLY.base(t) == ProdTo(i)),
                ("its dimension is theirs", POLY.dim(t) == DimTo(i)),
                ("it has one term", z3.Not(POLY.bare(t)))]

    def each(self, L):
        return self.say(L.loc["hmap"].term, L.i)

    loops = {"NomialArray.prod#1": each}
