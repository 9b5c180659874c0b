"""Symbolic scalars: reals, booleans, hashes, variable keys, units, quantities."""
import operator
from fractions import Fraction
import z3
from . import engine as E
from . import poly as P
from .poly import Poly
from .engine import Unsupported, KSORT, REAL, BV

_NUM = (int, float, Fraction)


def is_num(x):
    if isinstance(x, bool):
        return True
    if type(x) in (int, float, Fraction):
        return True
    if type(x) is SReal:
        return True
    try:
        import numpy as np
        return isinstance(x, np.number)
    except ImportError:   # pragma: no cover
        return False


def to_poly(x):
    if type(x) is SReal:
        return x.p
    if isinstance(x, Poly):
        return x
    if type(x) in (int, Fraction, bool):
        return Poly.const(x)
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite number in symbolic arithmetic")
    # decimal literals are read as the decimal they denote
    return Poly.const(Fraction(repr(x)))


class SBool:
    "A boolean whose truth is decided by forking the path"
    __slots__ = ("c", "on_true", "on_false")

    def __init__(self, c, on_true=None, on_false=None):
        self.c, self.on_true, self.on_false = c, on_true, on_false

    def __bool__(self):
        return E.eng().branch(self.c, self.on_true, self.on_false)

    def __repr__(self):
        return "SBool(%s)" % self.c

    # numpy-style operators on booleans decide the operands
    def __and__(self, o): return bool(self) and bool(o)
    def __or__(self, o): return bool(self) or bool(o)
    def __invert__(self): return SBool(z3.Not(self.c), self.on_false, self.on_true)
    __rand__, __ror__ = __and__, __or__
    def __eq__(self, o): return bool(self) == bool(o)
    def __ne__(self, o): return bool(self) != bool(o)
    __hash__ = None


def eq_zero(p):
    e = E.eng()
    p = e.norm(p)
    if p.is_const():
        return p.is_zero()
    if p.sign_known_pos() or (-p).sign_known_pos():
        return False
    p = e._strip(p)
    def nonzero():
        if p.is_mono():
            (m, _), = p.t.items()
            if len(m) == 1:
                m[0][0].nz = True
    return SBool(e.z(p) == 0, lambda: e.assume_zero(p), nonzero)


def lt_zero(p, strict=True):
    "p < 0 (or <= 0)"
    e = E.eng()
    p = e.norm(p)
    if p.is_const():
        v = p.const_value()
        return v < 0 if strict else v <= 0
    if p.sign_known_pos():
        return False
    if (-p).sign_known_pos():
        return True
    z = e.z(p)
    sp = None
    if p.is_mono():
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "z":
            sp = (m[0][0], c > 0)

    def on(side):   # side: True if p<0 known strictly; False if p>=0 or >0
        def f():
            if sp is None:
                return
            atom, cpos = sp
            strictly_neg = side and strict
            strictly_pos = (not side) and (not strict)
            if strictly_neg or strictly_pos:
                atom.nz = True
                if (strictly_pos and cpos) or (strictly_neg and not cpos):
                    atom.pos = True
        return f
    return SBool(z < 0 if strict else z <= 0, on(True), on(False))


class SReal:
    """A symbolic real. Poses as a float (`isinstance(x, float)` is True)."""
    __slots__ = ("p",)
    __array_priority__ = 1e6
    pv_symbolic = True

    def __init__(self, p):
        self.p = p

    @property
    def __class__(self):
        return float

    def __repr__(self):
        return "<%s>" % (self.p,)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __float__(self):
        q = E.eng().norm(self.p)
        if q.is_const():
            return float(q.const_value())
        raise Unsupported("float() of a symbolic real outside instrumented code")

    def __int__(self):
        q = E.eng().norm(self.p)
        if q.is_const():
            return int(q.const_value())
        raise Unsupported("int() of a symbolic real")

    def __hash__(self):
        raise Unsupported("hash of a symbolic real outside instrumented code")

    def _bin(self, o, f, r=False):
        if not is_num(o):
            return NotImplemented
        a, b = E.eng().norm(self.p), to_poly(o)
        return SReal(f(b, a) if r else f(a, b))

    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._bin(o, operator.add, True)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, True)
    def __mul__(self, o): return self._bin(o, operator.mul)
    def __rmul__(self, o): return self._bin(o, operator.mul, True)
    def __neg__(self): return SReal(-self.p)
    def __pos__(self): return self

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return SReal(divide(self.p, to_poly(o)))

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return SReal(divide(to_poly(o), self.p))

    def __pow__(self, o, mod=None):
        if not is_num(o):
            return NotImplemented
        return SReal(power(self.p, to_poly(o)))

    def __rpow__(self, o):
        if not is_num(o):
            return NotImplemented
        return SReal(power(to_poly(o), self.p))

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __eq__(self, o):
        if not is_num(o):
            return NotImplemented
        if type(o) is not SReal and _nonfinite(o):
            return False
        return eq_zero(self.p - to_poly(o))

    def __ne__(self, o):
        if not is_num(o):
            return NotImplemented
        if type(o) is not SReal and _nonfinite(o):
            return True
        r = eq_zero(self.p - to_poly(o))
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        if not is_num(o):
            return NotImplemented
        if type(o) is not SReal and _nonfinite(o):
            return float(o) > 0
        return lt_zero(self.p - to_poly(o), True)

    def __le__(self, o):
        if not is_num(o):
            return NotImplemented
        if type(o) is not SReal and _nonfinite(o):
            return float(o) > 0
        return lt_zero(self.p - to_poly(o), False)

    def __gt__(self, o):
        if not is_num(o):
            return NotImplemented
        if type(o) is not SReal and _nonfinite(o):
            return float(o) < 0
        return lt_zero(to_poly(o) - self.p, True)

    def __ge__(self, o):
        if not is_num(o):
            return NotImplemented
        if type(o) is not SReal and _nonfinite(o):
            return float(o) < 0
        return lt_zero(to_poly(o) - self.p, False)

    def __bool__(self):
        r = eq_zero(self.p)
        return not bool(r)

    def item(self):
        return self


def _nonfinite(o):
    try:
        f = float(o)
    except (TypeError, ValueError):
        return False
    return f != f or f in (float("inf"), float("-inf"))


def nonzero_or_raise(b):
    e = E.eng()
    b = e.norm(b)
    if b.known_nz():
        return b
    r = eq_zero(b)
    if bool(r):
        raise ZeroDivisionError("float division by zero")
    return e.norm(b)


def divide(a, b):
    b = nonzero_or_raise(b)
    return E.eng().norm(a)*b.inv()


def power(b, x):
    "b**x, Python float semantics over the reals (complex results unsupported)"
    e = E.eng()
    b, x = e.norm(b), e.norm(x)
    hook = e.ghost.get("power")
    if hook is not None:
        r = hook(b, x)
        if r is not None:
            return r
    if x.is_const():
        v = x.const_value()
        if v.denominator == 1 and abs(v) <= 64:
            n = int(v)
            if n >= 0:
                return b.powi(n)
            nonzero_or_raise(b)
            return e.norm(b).powi(n)
    # real exponent
    if not b.sign_known_pos():
        if bool(lt_zero(b, True)):
            raise Unsupported("negative number to a symbolic power")
        b = e.norm(b)
        if not b.sign_known_pos() and bool(eq_zero(b)):
            if bool(eq_zero(x)):
                return Poly.const(1)
            if bool(lt_zero(x, True)):
                raise ZeroDivisionError("0.0 to a negative power")
            return Poly({})
        b = e.norm(b)
        if bool(eq_zero(x)):
            return Poly.const(1)
        x = e.norm(x)
    return P.mk_exp(x*P.mk_log(b))


# -------------------------------------------------------------------- hashes
HashItem = z3.Function("hash_item", KSORT, REAL, BV)


class SHash:
    "A symbolic hash value"
    __slots__ = ("b",)
    pv_symbolic = True

    def __init__(self, b):
        self.b = b

    @staticmethod
    def bv(x):
        if type(x) is SHash:
            return x.b
        return z3.BitVecVal(int(x), 64)

    def __xor__(self, o):
        if type(o) is SHash or isinstance(o, int):
            return SHash(z3.simplify(self.b ^ SHash.bv(o)))
        return NotImplemented
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is SHash or isinstance(o, int):
            return SBool(self.b == SHash.bv(o))
        return NotImplemented

    def __ne__(self, o):
        if type(o) is SHash or isinstance(o, int):
            return SBool(self.b != SHash.bv(o))
        return NotImplemented
    __hash__ = None

    def __bool__(self):
        return bool(SBool(self.b != 0))


# -------------------------------------------------------------------- units
class SDim:
    "dimension as an element of a totally ordered Q-vector space (reals)"


class SUnits:
    """The `.units` of a quantity: scale to base units (> 0) and dimension.
    Physical dimensions embed Q-linearly and injectively into the reals."""
    pv_symbolic = True

    def __init__(self, scale, dim):
        self.scale, self.dim = scale, dim

    def __eq__(self, o):
        if isinstance(o, SUnits):
            return sand(eq_zero(self.scale - o.scale), eq_zero(self.dim - o.dim))
        if isinstance(o, SQty):
            return SQty(Poly.const(1), self) == o
        if getattr(o, "dimensionless", None) is True:
            return self == conv_units(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        raise Unsupported("native hash of symbolic units")

    def __mul__(self, o):
        o = conv_units(o)
        return SUnits(self.scale*o.scale, self.dim + o.dim)

    def __truediv__(self, o):
        o = conv_units(o)
        return SUnits(self.scale*o.scale.inv(), self.dim - o.dim)

    def __rtruediv__(self, o):
        return SQty(to_poly(o), SUnits(self.scale.inv(), -self.dim))

    def __bool__(self):
        # pint Unit truthiness: object default -> True
        return True

    def __str__(self):
        return "<units>"

    def __format__(self, spec):
        return "<units>"


def _opaque(name):
    def f(self, *a, **k):
        raise Unsupported("str.%s of a symbolic unit string" % name)
    return f


class SUnitStr(str):
    """An arbitrary string that denotes a unit: its parse is `units`, its text
    is opaque (two different objects may be equal texts or not)."""
    pv_symbolic = True

    def __new__(cls, units):
        s = str.__new__(cls, "<unit string>")
        s.units_ = units
        return s

    def __bool__(self):
        return True
    __hash__ = _opaque("__hash__")


for _m in dir(str):
    if callable(getattr(str, _m)) and (
            not _m.startswith("_") or _m in (
                "__add__", "__mul__", "__eq__", "__ne__", "__lt__", "__le__",
                "__gt__", "__ge__", "__getitem__", "__len__", "__iter__",
                "__contains__", "__mod__", "__rmul__")):
        setattr(SUnitStr, _m, _opaque(_m))


def sand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a

    def ont():
        for x in (a, b):
            if x.on_true:
                x.on_true()
    return SBool(z3.And(a.c, b.c), ont)


def snot(r):
    return (not r) if isinstance(r, bool) else ~r


def conv_units(o):
    "SUnits of a units-like object"
    if isinstance(o, SUnits):
        return o
    if isinstance(o, SQty):
        return o.units
    return None if o is None else _pint_units(o)


def _pint_units(u):
    from . import rt
    return rt.pint_to_sunits(u)


class SQty:
    "A pint quantity with symbolic magnitude and units"
    pv_symbolic = True
    __array_priority__ = 1e7

    def __init__(self, mag, units):
        self.m, self.units = mag, units

    @property
    def __class__(self):
        from . import rt
        return rt.QuantityClass()

    @property
    def magnitude(self):
        return SReal(self.m)

    @property
    def dimensionless(self):
        return eq_zero(self.units.dim)

    def to(self, other):
        u = conv_units_any(other)
        if not bool(eq_zero(self.units.dim - u.dim)):
            from . import rt
            raise rt.dimensionality_error()
        return SQty(self.m*self.units.scale*u.scale.inv(), u)

    def base(self):
        return self.m*self.units.scale

    def __bool__(self):
        return not bool(eq_zero(self.m))

    def _pair(self, o):
        if isinstance(o, SQty):
            return o
        if is_num(o):
            return SQty(to_poly(o), SUnits(Poly.const(1), Poly.const(0)))
        from . import rt
        return rt.pint_to_sqty(o)

    def __mul__(self, o):
        if getattr(o, "hmap", None) is not None and not isinstance(o, SQty):
            return NotImplemented
        if type(o).__name__ == "SymArr":
            return NotImplemented
        if type(o).__name__ == "ndarray" and o.ndim:
            return [self*x for x in o]       # (a quantity holding an array)
        o = self._pair(o)
        if o is None:
            return NotImplemented
        return SQty(self.m*o.m, self.units*o.units)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if hasattr(o, "hmap"):
            return NotImplemented
        o = self._pair(o)
        if o is None:
            return NotImplemented
        return SQty(divide(self.m, o.m), self.units/o.units)

    def __rtruediv__(self, o):
        o = self._pair(o)
        if o is None:
            return NotImplemented
        return o/self

    def __pow__(self, x):
        x = to_poly(x)
        return SQty(power(self.m, x),
                    SUnits(power(self.units.scale, x),
                           E.eng().norm(self.units.dim*x)))

    def __neg__(self):
        return SQty(-self.m, self.units)

    def __eq__(self, o):
        o2 = self._pair(o) if o is not None else None
        if o2 is None:
            return NotImplemented if o is not None else False
        return sand(eq_zero(self.base() - o2.base()),
                    eq_zero(self.units.dim - o2.units.dim))

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is NotImplemented else snot(r)

    def _cmp(self, o, f):
        o = self._pair(o)
        if not bool(eq_zero(self.units.dim - o.units.dim)):
            from . import rt
            raise rt.dimensionality_error()
        return f(SReal(self.base()), SReal(o.base()))

    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)

    def __hash__(self):
        raise Unsupported("native hash of a symbolic quantity")

    def __float__(self):
        raise Unsupported("native float() of a symbolic quantity")

    def pv_float(self):
        "float(q): defined for dimensionless quantities only"
        if not bool(eq_zero(self.units.dim)):
            from . import rt
            raise rt.dimensionality_error()
        return SReal(self.base())

    def __repr__(self):
        return "<qty %s [%s; %s]>" % (self.m, self.units.scale, self.units.dim)

    def __format__(self, spec):
        return repr(self)


def conv_units_any(o):
    if isinstance(o, (SUnits, SQty)):
        return conv_units(o)
    from . import rt
    return rt.units_of(o)
