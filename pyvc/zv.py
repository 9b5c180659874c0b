"""Symbolic containers for data-structure code: sets, maps and lists of unknown
size as z3 arrays, opaque objects as constants of uninterpreted sorts; loops
over them are cut with the invariants that a contract declares.

Used by the contracts of classes deriving from ZContract (specs_z*.py)."""
import itertools
import os
import sys
import z3
from . import engine as E
from .engine import Unsupported, PathEnd
from .values import SBool

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_dt = {}


# ------------------------------------------------------------------ scalars
class ZNum:
    pv_symbolic = True
    pv_z = True
    __slots__ = ("t",)
    __array_priority__ = 1e9

    def __init__(self, t):
        self.t = z3.simplify(t)

    def __bool__(self):
        return bool(SBool(self.t != 0))

    __hash__ = None

    def __repr__(self):
        return "<%s>" % self.t


def _num2(op):
    def f(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        a = self.t
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return wrap_num(op(a, b))

    def r(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        a = self.t
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return wrap_num(op(b, a))
    return f, r


def toreal(t):
    return z3.ToReal(t) if t.sort() == INT else t


def wrap_num(t):
    if t.sort() == BOOL:
        return SBool(z3.simplify(t))
    return ZI(t) if t.sort() == INT else ZR(t)


def num_term(o):
    if isinstance(o, ZNum):
        return o.t
    if type(o) in (bool, int):
        return z3.IntVal(int(o))
    if type(o) is float:
        from fractions import Fraction
        if o != o or o in (float("inf"), float("-inf")):
            return None
        return z3.RealVal(str(Fraction(repr(o))))
    if isinstance(o, SBool):
        return z3.If(o.c, z3.IntVal(1), z3.IntVal(0))
    try:
        import numpy as np
        if isinstance(o, np.integer):
            return z3.IntVal(int(o))
        if isinstance(o, np.floating):
            return num_term(float(o))
    except ImportError:    # pragma: no cover
        pass
    return None


for _n, _op in (("add", lambda a, b: a+b), ("sub", lambda a, b: a-b),
                ("mul", lambda a, b: a*b)):
    _f, _r = _num2(_op)
    setattr(ZNum, "__%s__" % _n, _f)
    setattr(ZNum, "__r%s__" % _n, _r)
for _n, _op in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b),
                ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b),
                ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b)):
    setattr(ZNum, "__%s__" % _n, _num2(_op)[0])


class ZI(ZNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __neg__(self):
        return ZI(-self.t)

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("a symbolic integer used natively")
    __int__ = __index__

    def __rmul__(self, o):
        if isinstance(o, list):
            return repeat(o, self.t)
        return ZI.__mul__(self, o)

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return ZI(self.t % o)
        raise Unsupported("remainder of a symbolic integer")

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return ZI(self.t / o)    # rounds down for positive divisors
        raise Unsupported("integer division of a symbolic integer")

    def __truediv__(self, o):
        return ZR(toreal(self.t))/o

    def __rtruediv__(self, o):
        return o/ZR(toreal(self.t))


class ZR(ZNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __neg__(self):
        return ZR(-self.t)

    def __abs__(self):
        return ZR(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        b = num_term(o)
        if b is None:
            return NotImplemented
        b = toreal(b)
        if bool(SBool(b == 0)):
            if E.eng().ghost.get("np_division"):
                from .zarr import NonFinite
                return NonFinite()
            raise ZeroDivisionError
        return ZR(self.t/b)

    def __rtruediv__(self, o):
        return ZR(toreal(num_term(o)))/self

    def __float__(self):
        raise Unsupported("a symbolic real used natively")


# ------------------------------------------------------------------ types
class T:
    def wrap(self, t):
        raise NotImplementedError

    def unwrap(self, v):
        raise NotImplementedError

    def fresh(self, base="v"):
        return E.eng().fresh(base, self.sort)

    def new(self, base="v"):
        "an arbitrary python-level value of this type"
        return self.wrap(self.fresh(base))


class _TInt(T):
    name, sort = "int", INT

    def wrap(self, t):
        return ZI(t)

    def unwrap(self, v):
        t = num_term(v)
        if t is None or t.sort() != INT:
            raise Unsupported("an integer was expected, got %r" % (v,))
        return t


class _TReal(T):
    name, sort = "real", REAL

    def wrap(self, t):
        return ZR(t)

    def unwrap(self, v):
        t = num_term(v)
        if t is None:
            raise Unsupported("a number was expected, got %r" % (v,))
        return toreal(t)


class _TBool(T):
    name, sort = "bool", BOOL

    def wrap(self, t):
        return SBool(t)

    def unwrap(self, v):
        if isinstance(v, SBool):
            return v.c
        if isinstance(v, bool):
            return z3.BoolVal(v)
        raise Unsupported("a boolean was expected, got %r" % (v,))


TInt, TReal, TBool = _TInt(), _TReal(), _TBool()


class TObj(T):
    """opaque objects; attrs: name -> function(ZObj) -> python value"""
    _all = {}

    def __init__(self, name, attrs=None, isa=(), consts=None, eq=True):
        self.name = name
        self.sort = z3.DeclareSort(name)
        self.attrs = attrs or {}
        self.isa = isa
        self.consts = consts or []
        self.methods = {}

    def wrap(self, t):
        return ZObj(self, t)

    def unwrap(self, v):
        if isinstance(v, ZObj) and v.T is self:
            return v.t
        if self is TText and isinstance(v, str):
            return z3.Const("text:%s" % v, self.sort)
        for py, term in self.consts:
            if v is py or (type(v) is type(py) and isinstance(
                    v, (str, int, type(None))) and v == py):
                return term
        raise Unsupported("a %s was expected, got %r" % (self.name, v))

    def const(self, py, name=None):
        "a named constant standing for a concrete python value"
        t = z3.Const("%s_%s" % (self.name, name or py), self.sort)
        self.consts.append((py, t))
        return t


class ZObj:
    pv_symbolic = True
    pv_z = True

    def __init__(self, T_, t):
        object.__setattr__(self, "T", T_)
        object.__setattr__(self, "t", t)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("pv_") or \
                name.startswith("_pv"):
            raise AttributeError(name)
        f = self.T.attrs.get(name)
        if f is None:
            raise AttributeError(name)
        return f(self)

    def __setattr__(self, name, val):
        raise Unsupported("attribute %s of an opaque object set" % name)

    def __eq__(self, o):
        try:
            return SBool(z3.simplify(self.t == self.T.unwrap(o)))
        except Unsupported:
            return False

    def __ne__(self, o):
        try:
            return SBool(z3.simplify(self.t != self.T.unwrap(o)))
        except Unsupported:
            return True

    def __hash__(self):
        raise Unsupported("native hash of an opaque %s" % self.T.name)

    def __bool__(self):
        f = self.T.attrs.get("__bool__")
        return True if f is None else bool(f(self))

    def __repr__(self):
        return "<%s %s>" % (self.T.name, self.t)
    __str__ = __repr__

    def __call__(self, *a, **kw):
        f = self.T.attrs.get("__call__")
        if f is None:
            raise TypeError("%s is not callable" % self.T.name)
        return f(self)(*a, **kw)

    def __getitem__(self, k):
        f = self.T.attrs.get("__getitem__")
        if f is None:
            raise TypeError("not subscriptable")
        return f(self)(k)

    def __iter__(self):
        raise Unsupported("native iteration over an opaque object")

    def pv_isinstance(self, cls):
        return any(issubclass(c, cls) for c in self.T.isa) if self.T.isa \
            else False


def _arith(name):
    def f(self, *a):
        g = self.T.attrs.get(name)
        if g is None:
            return NotImplemented
        return g(self)(*a)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv",
           "le", "lt", "ge", "gt", "pow", "neg", "abs", "len"):
    setattr(ZObj, "__%s__" % _n, _arith("__%s__" % _n))


TText = TObj("Text", isa=(str,))
TText.attrs["__add__"] = TText.attrs["__radd__"] = \
    lambda t: (lambda o: TText.new("text"))


class TEnum(T):
    def __init__(self, name, values):
        self.name, self.values = name, list(values)
        if name not in _dt:
            _dt[name] = z3.EnumSort(name, [str(v) for v in values])
        self.sort, self.terms = _dt[name]

    def wrap(self, t):
        return ZEnum(self, t)

    def unwrap(self, v):
        if isinstance(v, ZEnum):
            return v.t
        for x, t in zip(self.values, self.terms):
            if type(x) is type(v) and x == v:
                return t
        raise Unsupported("%r is not one of %s" % (v, self.values))


class ZEnum:
    pv_symbolic = True
    pv_z = True
    __hash__ = None

    def __init__(self, T_, t):
        self.T, self.t = T_, t

    def __eq__(self, o):
        try:
            return SBool(z3.simplify(self.t == self.T.unwrap(o)))
        except Unsupported:
            return False

    def __ne__(self, o):
        try:
            return SBool(z3.simplify(self.t != self.T.unwrap(o)))
        except Unsupported:
            return True


def datatype(name, fields):
    if name not in _dt:
        d = z3.Datatype(name)
        d.declare("mk_" + name, *fields)
        _dt[name] = d.create()
    return _dt[name]


class TTup(T):
    def __init__(self, name, *parts):
        self.name, self.parts = name, parts
        self.d = datatype(name, [("%s_%d" % (name, i), p.sort)
                                 for i, p in enumerate(parts)])
        self.sort = self.d

    def mk(self, *terms):
        return getattr(self.d, "mk_" + self.name)(*terms)

    def get(self, t, i):
        return z3.simplify(getattr(self.d, "%s_%d" % (self.name, i))(t))

    def wrap(self, t):
        return tuple(p.wrap(self.get(t, i)) for i, p in enumerate(self.parts))

    def unwrap(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.parts):
            raise Unsupported("a %d-tuple was expected, got %r"
                              % (len(self.parts), v))
        return self.mk(*[p.unwrap(x) for p, x in zip(self.parts, v)])


class _TSlice(TTup):
    def wrap(self, t):
        return slice(*TTup.wrap(self, t))

    def unwrap(self, v):
        if not isinstance(v, slice) or v.step is not None:
            raise Unsupported("a slice was expected")
        return TTup.unwrap(self, (v.start, v.stop))


TSlice = _TSlice("Slice", TInt, TInt)


class TSet(T):
    def __init__(self, elem):
        self.elem = elem
        self.name = "Set_" + elem.name
        self.sort = z3.ArraySort(elem.sort, BOOL)
        self.empty = z3.K(elem.sort, False)

    def wrap(self, t):
        return ZSet(self, t)

    def unwrap(self, v):
        if isinstance(v, ZSet):
            if v.T is None:
                return self.empty
            if v.T.sort == self.sort:
                return v.term
        if isinstance(v, (set, frozenset, list, tuple)) and not isinstance(
                v, ZContainer):
            t = self.empty
            for x in v:
                t = z3.Store(t, self.elem.unwrap(x), True)
            return t
        raise Unsupported("a set of %s was expected" % self.elem.name)


class TSeq(T):
    def __init__(self, elem):
        self.elem = elem
        self.name = "Seq_" + elem.name
        self.d = datatype(self.name, [("len_" + self.name, INT),
                                      ("arr_" + self.name,
                                       z3.ArraySort(INT, elem.sort))])
        self.sort = self.d

    def mk(self, n, arr):
        return getattr(self.d, "mk_" + self.name)(n, arr)

    def len(self, t):
        return z3.simplify(getattr(self.d, "len_" + self.name)(t))

    def arr(self, t):
        return z3.simplify(getattr(self.d, "arr_" + self.name)(t))

    @property
    def empty(self):
        return self.mk(z3.IntVal(0), z3.Const("nil_" + self.name,
                                              z3.ArraySort(INT, self.elem.sort)))

    def wrap(self, t):
        return ZSeq(self, t)

    def new(self, base="l"):
        e = E.eng()
        t = self.fresh(base)
        e.add(self.len(t) >= 0)
        return ZSeq(self, t)

    def unwrap(self, v):
        if isinstance(v, ZSeq):
            if v.T is None:
                return self.empty
            if v.T.sort == self.sort:
                return v.term
        if isinstance(v, (list, tuple)) and not isinstance(v, ZContainer):
            arr = self.arr(self.empty)
            for i, x in enumerate(v):
                arr = z3.Store(arr, i, self.elem.unwrap(x))
            return self.mk(z3.IntVal(len(v)), arr)
        raise Unsupported("a list of %s was expected" % self.elem.name)


class TMap(T):
    def __init__(self, key, val, default=None):
        self.key, self.val = key, val
        self.name = "Map_%s_%s" % (key.name, val.name)
        self.d = datatype(self.name, [
            ("dom_" + self.name, z3.ArraySort(key.sort, BOOL)),
            ("val_" + self.name, z3.ArraySort(key.sort, val.sort))])
        self.sort = self.d

    def mk(self, dom, val):
        return getattr(self.d, "mk_" + self.name)(dom, val)

    def dom(self, t):
        return z3.simplify(getattr(self.d, "dom_" + self.name)(t))

    def vals(self, t):
        return z3.simplify(getattr(self.d, "val_" + self.name)(t))

    @property
    def empty(self):
        return self.mk(z3.K(self.key.sort, False),
                       z3.Const("any_" + self.name,
                                z3.ArraySort(self.key.sort, self.val.sort)))

    def wrap(self, t):
        return ZMap(self, t)

    def unwrap(self, v):
        if isinstance(v, ZMap):
            if v.T is None:
                return self.empty
            if v.T.sort == self.sort:
                return v.term
        if isinstance(v, dict) and not isinstance(v, ZContainer):
            t = self.empty
            dom, vals = self.dom(t), self.vals(t)
            for k, x in dict.items(v):
                kt = self.key.unwrap(k)
                dom = z3.Store(dom, kt, True)
                vals = z3.Store(vals, kt, self.val.unwrap(x))
            return self.mk(dom, vals)
        raise Unsupported("a map %s->%s was expected"
                          % (self.key.name, self.val.name))


class TFMap(T):
    """immutable maps as opaque values: dom, vals (and the iteration order)
    are functions of the value"""
    def __init__(self, name, key, val, ordered=False, attrs=None):
        self.name, self.key, self.val = name, key, val
        self.sort = z3.DeclareSort(name)
        self.M = TMap(key, val)
        self.domf = z3.Function("domof_" + name, self.sort,
                                z3.ArraySort(key.sort, BOOL))
        self.valf = z3.Function("valof_" + name, self.sort,
                                z3.ArraySort(key.sort, val.sort))
        self.ordered = ordered
        self.attrs = attrs or {}
        self.nf = z3.Function("nof_" + name, self.sort, INT)
        self.keyf = z3.Function("keyat_" + name, self.sort, INT, key.sort)
        self.posf = z3.Function("posin_" + name, self.sort, key.sort, INT)

    def axioms(self):
        "of the iteration order"
        h = z3.FreshConst(self.sort, "h")
        i = z3.FreshConst(INT, "i")
        k = z3.FreshConst(self.key.sort, "k")
        return [z3.ForAll([h], self.nf(h) >= 0, patterns=[self.nf(h)]),
                z3.ForAll([h, i], z3.Implies(
                    z3.And(0 <= i, i < self.nf(h)),
                    z3.And(z3.Select(self.domf(h), self.keyf(h, i)),
                           self.posf(h, self.keyf(h, i)) == i)),
                    patterns=[self.keyf(h, i)]),
                z3.ForAll([h, k], z3.Implies(
                    z3.Select(self.domf(h), k),
                    z3.And(0 <= self.posf(h, k), self.posf(h, k) < self.nf(h),
                           self.keyf(h, self.posf(h, k)) == k)),
                    patterns=[z3.Select(self.domf(h), k)])]

    def wrap(self, t):
        m = ZMap(self.M, self.M.mk(self.domf(t), self.valf(t)))
        m.ident, m.fT, m.mut = t, self, False
        if self.ordered:
            m.order = (self.nf(t), lambda i: self.keyf(t, i),
                       lambda k: self.posf(t, k))
        return m

    def unwrap(self, v):
        if isinstance(v, ZMap) and getattr(v, "fT", None) is self:
            return v.ident
        raise Unsupported("a %s was expected, got %r" % (self.name, v))


def type_of(v):
    "the type of a python-level value (for containers that get typed late)"
    if isinstance(v, (ZObj, ZEnum)):
        return v.T
    if isinstance(v, ZMap) and getattr(v, "fT", None) is not None:
        return v.fT
    if isinstance(v, ZContainer):
        if v.T is None:
            T_ = E.eng().ghost.get("empty_" + str(v.kind))
            if T_ is None:
                raise Unsupported("container of an empty untyped container")
            return T_
        return v.T
    if isinstance(v, SBool) or isinstance(v, bool):
        return TBool
    if type(v) is ZI or type(v) is int:
        return TInt
    if type(v) is ZR or type(v) is float:
        return TReal
    if isinstance(v, slice):
        return TSlice
    if isinstance(v, (tuple, list)):
        for tt in E.eng().ghost.get("tuples", ()):
            try:
                tt.unwrap(v)
                return tt
            except Unsupported:
                continue
    raise Unsupported("no symbolic type for %r" % (v,))


# ------------------------------------------------------------------ containers
class ChildCell:
    def __init__(self, parent, kind, key):
        self.parent, self.kind, self.key = parent, kind, key
        self.ver = parent._over

    def check(self):
        if self.parent._over != self.ver:
            raise Unsupported("a stored container used after its slot was"
                              " overwritten")

    def get(self):
        self.check()
        return self.parent._peek(self.key)

    def set(self, t):
        self.check()
        self.parent._poke(self.key, t)


class ZContainer:
    pv_symbolic = True
    pv_z = True
    kind = None
    __hash__ = None
    __array_priority__ = 1e9

    def __init__(self, T_=None, term=None):
        e = E.eng()
        self.T = T_
        self._term = term
        self._cell = None
        self._over = self._ver = 0
        self._pv_eng = e
        self._pv_serial = e.register(self)
        self.mut = True
        self.default = None

    def _set_type(self, T_):
        self.T = T_
        self._term = T_.empty
        i = E.eng().memo.setdefault("ztypes", {})
        i[self._pv_serial] = T_

    @property
    def term(self):
        if self._cell is not None:
            return self._cell.get()
        return self._term

    def put(self, t, what="write"):
        e = E.eng()
        root = self
        while root._cell is not None:
            root = root._cell.parent
        if not self.mut:
            raise Unsupported("an immutable container is modified")
        e.on_mutate(root, what)
        self._ver += 1
        if self._cell is not None:
            self._cell.set(t)
        else:
            self._term = z3.simplify(t)

    def child(self, key, T_):
        "python value stored under key (containers are live references)"
        v = T_.wrap(self._peek(key))
        if isinstance(v, ZContainer) and self.mut and v.mut:
            v._cell = ChildCell(self, "k", key)
        elif isinstance(v, ZContainer):
            v.mut = False
        elif hasattr(type(v), "pv_origin"):
            object.__setattr__(v, "pv_origin", (self, key))
        return v

    def adopt(self, v, key):
        "v has just been stored here under key"
        self._over += 1
        if isinstance(v, ZContainer) and v.mut:
            if v.T is None:
                v.T = self.T.val if isinstance(self.T, TMap) else self.T.elem
            v._cell = ChildCell(self, "k", key)

    def z_havoc(self, base):
        if self.T is None:
            self.T = E.eng().loop_types.get(self._pv_serial)
            if self.T is None:
                return
        self._term = self.T.fresh(base)
        self._over += 1
        self._ver += 1
        if isinstance(self.T, TSeq):
            E.eng().add(self.T.len(self._term) >= 0)
        self.after_havoc()

    def after_havoc(self):
        pass

    def __copy__(self):
        return self.copy()

    def pv_isinstance(self, cls):
        return issubclass({"set": set, "list": list, "map": dict}[self.kind],
                          cls)


def same_type(a, T_):
    return a is not None and a.sort == T_.sort


class ZSet(ZContainer):
    kind = "set"

    def __init__(self, T_=None, term=None, card=None):
        ZContainer.__init__(self, T_, term)
        self.card = card
        if T_ is None:
            self.card = z3.IntVal(0)

    @property
    def __class__(self):
        return set

    def after_havoc(self):
        e = E.eng()
        self.card = e.fresh("card", INT)
        e.add(self.card >= 0)

    def _typed(self, v):
        if self.T is None:
            self._set_type(TSet(type_of(v)))

    def pv_contains(self, x):
        if self.T is None:
            return False
        try:
            t = self.T.elem.unwrap(x)
        except Unsupported:
            return False
        return SBool(z3.simplify(z3.Select(self.term, t)))

    def __contains__(self, x):
        return bool(self.pv_contains(x))

    def add(self, x):
        self._typed(x)
        t = self.T.elem.unwrap(x)
        if self.card is not None:
            self.card = z3.simplify(
                self.card + z3.If(z3.Select(self.term, t), 0, 1))
        self.put(z3.Store(self.term, t, True), "add")

    def discard(self, x):
        if self.T is None:
            return
        t = self.T.elem.unwrap(x)
        if self.card is not None:
            self.card = z3.simplify(
                self.card - z3.If(z3.Select(self.term, t), 1, 0))
        self.put(z3.Store(self.term, t, False), "discard")

    def remove(self, x):
        if not bool(self.pv_contains(x)):
            raise KeyError(x)
        self.discard(x)

    def pv_len(self):
        if self.T is None:
            return 0
        if self.card is None:
            raise Unsupported("cardinality of a set")
        return ZI(self.card)

    def __len__(self):
        raise Unsupported("native len of a symbolic set")

    def __bool__(self):
        if self.T is None:
            return False
        return bool(SBool(self.term != self.T.empty))

    def _other(self, o):
        T_ = self.T
        t = set_term(o, T_)
        return t

    def _coerce(self, o):
        "(type, own term, other term)"
        T_ = self.T
        if T_ is None:
            T_ = set_type(o)
        if T_ is None:
            return None, None, None
        a = T_.empty if self.T is None else self.term
        return T_, a, set_term(o, T_)

    def _op(self, f, *others):
        cur = self
        T_, a = self.T, (None if self.T is None else self.term)
        for o in others:
            if T_ is None:
                T_ = set_type(o)
                if T_ is None:
                    continue
                a = T_.empty
            b = set_term(o, T_)
            a = setop(f, a, b, T_)
        out = ZSet(T_, a)
        return out

    def union(self, *o): return self._op("or", *o)
    def difference(self, *o): return self._op("diff", *o)
    def intersection(self, *o): return self._op("and", *o)
    __or__ = __ror__ = union
    __sub__ = difference
    __and__ = intersection

    def __rsub__(self, o):
        return ZSet(self.T, set_term(o, self.T))._op("diff", self)

    def update(self, *others):
        for o in others:
            T_, a, b = self._coerce(o)
            if T_ is None:
                continue
            if self.T is None:
                self._set_type(T_)
            self.card = None
            self.put(setop("or", a, b, T_), "update")

    def issubset(self, o):
        T_, a, b = self._coerce(o)
        if T_ is None:
            return True
        x = z3.FreshConst(T_.elem.sort, "x")
        return SBool(z3.ForAll([x], z3.Implies(a[x], b[x])))

    __le__ = issubset

    def __eq__(self, o):
        T_, a, b = self._coerce(o)
        if T_ is None:
            return True
        return SBool(z3.simplify(a == b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.c))

    def copy(self):
        return ZSet(self.T, None if self.T is None else self.term, self.card)

    def pv_zsource(self):
        if self.T is None:
            return None
        return SetSource(self.term, self.T.elem, self)

    def clear(self):
        if self.T is not None:
            self.card = z3.IntVal(0)
            self.put(self.T.empty)

    def __iter__(self):
        if self.T is None:
            return iter(())
        raise Unsupported("native iteration over a symbolic set")

    def __repr__(self):
        return "<zset>"


def setop(f, a, b, T_):
    if f == "or":
        return z3.SetUnion(a, b)
    if f == "and":
        return z3.SetIntersect(a, b)
    return z3.SetDifference(a, b)


def set_type(o):
    if isinstance(o, ZSet):
        return o.T
    if isinstance(o, ZMap):
        return None if o.T is None else TSet(o.T.key)
    if isinstance(o, ZView) and o.what == "keys":
        return None if o.owner.T is None else TSet(o.owner.T.key)
    if isinstance(o, ZSeq):
        return None if o.T is None else TSet(o.T.elem)
    if isinstance(o, (list, tuple, set, frozenset)):
        for x in o:
            return TSet(type_of(x))
        return None
    from . import rt
    if type(o) is rt.PvGen:
        return set_type(setcomp(o))
    raise Unsupported("set operation with %r" % (o,))


def set_term(o, T_):
    if isinstance(o, ZSet):
        return T_.unwrap(o)
    if isinstance(o, ZMap):
        return z3.K(T_.elem.sort, False) if o.T is None else \
            o.T.dom(o.term)
    if isinstance(o, ZView):
        return set_term(ZSet(*o.as_set()), T_)
    if isinstance(o, ZSeq):
        if o.T is None:
            return T_.empty
        i = z3.FreshConst(INT, "i")
        n, arr = o.T.len(o.term), o.T.arr(o.term)
        return defarr(T_.elem.sort, lambda x: z3.Exists([i], z3.And(
            0 <= i, i < n, arr[i] == x)))
    from . import rt
    if type(o) is rt.PvGen:
        s = setcomp(o)
        return T_.unwrap(s)
    return T_.unwrap(o)


class ZMap(ZContainer):
    kind = "map"
    fT = ident = None

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        fT = self.__dict__.get("fT")
        if fT is not None and name in fT.attrs:
            return fT.attrs[name](self)
        raise AttributeError(name)

    def __init__(self, T_=None, term=None, default=None, order=None):
        ZContainer.__init__(self, T_, term)
        self.default = default
        self.order = order      # (n, keyat, pos) of an ordered, frozen map

    @property
    def __class__(self):
        return dict

    def _peek(self, k):
        return z3.simplify(z3.Select(self.T.vals(self.term), k))

    def _poke(self, k, t):
        m = self.term
        self.put(self.T.mk(self.T.dom(m), z3.Store(self.T.vals(m), k, t)),
                 "nested write")

    def after_havoc(self):
        self.order = None

    def has(self, k):
        return z3.simplify(z3.Select(self.T.dom(self.term), k))

    def pv_contains(self, key):
        if self.T is None:
            return False
        try:
            k = self.T.key.unwrap(key)
        except Unsupported:
            return False
        return SBool(self.has(k))

    def __contains__(self, key):
        return bool(self.pv_contains(key))

    def _typed(self, key, val=None):
        if self.T is None:
            vt = None
            if val is None:
                if self.default is not None:
                    vt = E.eng().ghost.get("default_types", {}).get(
                        self.default)
                    if callable(vt) and not isinstance(vt, T):
                        vt = vt(type_of(key))
                if vt is None:
                    return False
            else:
                vt = type_of(val)
            self._set_type(TMap(type_of(key), vt))
        return True

    def __getitem__(self, key):
        if not self._typed(key):
            if self.default is None:
                raise KeyError(key)
            raise Unsupported("untyped default map")
        k = self.T.key.unwrap(key)
        if not bool(SBool(self.has(k))):
            if self.default is None:
                raise KeyError(key)
            d = E.eng().ghost["default_value"](self.default, self.T.val)
            m = self.term
            self.put(self.T.mk(z3.Store(self.T.dom(m), k, True),
                               z3.Store(self.T.vals(m), k, d)), "default")
        return self.child(k, self.T.val)

    def get(self, key, alt=None):
        if self.T is None:
            return alt
        try:
            k = self.T.key.unwrap(key)
        except Unsupported:
            return alt
        if isinstance(alt, (int, float, ZNum)) and self.T.val in (TInt, TReal):
            return wrap_num(z3.If(self.has(k), self._peek(k),
                                  self.T.val.unwrap(alt)))
        if bool(SBool(self.has(k))):
            return self.child(k, self.T.val)
        return alt

    def __setitem__(self, key, val):
        self._typed(key, val)
        k = self.T.key.unwrap(key)
        v = self.T.val.unwrap(val)
        m = self.term
        self.put(self.T.mk(z3.Store(self.T.dom(m), k, True),
                           z3.Store(self.T.vals(m), k, v)), "setitem")
        self.order = None
        self.adopt(val, k)

    def __delitem__(self, key):
        if self.T is None:
            raise KeyError(key)
        k = self.T.key.unwrap(key)
        if not bool(SBool(self.has(k))):
            raise KeyError(key)
        m = self.term
        self.put(self.T.mk(z3.Store(self.T.dom(m), k, False),
                           self.T.vals(m)), "delitem")
        self._over += 1
        self.order = None

    def pop(self, key, *alt):
        if self.T is None or not self.__contains__(key):
            if alt:
                return alt[0]
            raise KeyError(key)
        k = self.T.key.unwrap(key)
        v = self.T.val.wrap(self._peek(k))
        del self[key]
        return v

    def update(self, *args, **kw):
        for o in args:
            if isinstance(o, ZMap):
                if o.T is None:
                    continue
                if self.T is None:
                    self._set_type(o.T)
                b = o.term
            elif isinstance(o, dict):
                for k, v in dict.items(o):
                    self[k] = v
                continue
            else:
                from . import rt
                if type(o) is rt.PvGen:
                    o = dictcomp(o)
                    self.update(o)
                    continue
                raise Unsupported("update of a symbolic map from %r" % (o,))
            a = self.term
            bd, bv = self.T.dom(b), self.T.vals(b)
            ad, av = self.T.dom(a), self.T.vals(a)
            ks = self.T.key.sort
            self.put(self.T.mk(
                defarr(ks, lambda k: z3.Or(ad[k], bd[k])),
                defarr(ks, lambda k: z3.If(bd[k], bv[k], av[k]))), "update")
            self._over += 1
            self.order = None
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return ZMap(self.T, None if self.T is None else self.term,
                    self.default, self.order)

    def keys(self):
        return ZView(self, "keys")

    def values(self):
        return ZView(self, "values")

    def items(self):
        return ZView(self, "items")

    def setdefault(self, key, val):
        if not self.__contains__(key):
            self[key] = val
        return self[key]

    def pv_len(self):
        if self.T is None:
            return 0
        if self.order is None:
            return E.eng().ghost["maplen"](self)
        return ZI(self.order[0])

    def __len__(self):
        raise Unsupported("native len of a symbolic map")

    def __bool__(self):
        if self.T is None:
            return False
        return bool(SBool(self.T.dom(self.term)
                          != z3.K(self.T.key.sort, False)))

    def pv_zsource(self):
        return ZView(self, "keys").pv_zsource()

    def __iter__(self):
        if self.T is None:
            return iter(())
        raise Unsupported("native iteration over a symbolic map")

    def __eq__(self, o):
        if not isinstance(o, ZMap) or o.T is None or self.T is None:
            raise Unsupported("comparison of maps")
        k = z3.FreshConst(self.T.key.sort, "k")
        a, b = self.term, o.term
        return SBool(z3.And(
            self.T.dom(a) == self.T.dom(b),
            z3.ForAll([k], z3.Implies(
                self.T.dom(a)[k],
                self.T.vals(a)[k] == self.T.vals(b)[k]))))

    def __ne__(self, o):
        return SBool(z3.Not(self.__eq__(o).c))

    def __repr__(self):
        return "<zmap>"


class ZView:
    pv_symbolic = True
    pv_z = True

    def __init__(self, owner, what):
        self.owner, self.what = owner, what

    def val(self, term, T_, k):
        v = T_.val.wrap(z3.simplify(z3.Select(T_.vals(term), k)))
        if isinstance(v, ZContainer):
            if self.owner.mut and v.mut:
                v._cell = ChildCell(self.owner, "k", k)
            else:
                v.mut = False
        elif hasattr(type(v), "pv_origin"):
            object.__setattr__(v, "pv_origin", (self.owner, k))
        return v

    def elem(self, term, T_, k):
        if self.what == "keys":
            return T_.key.wrap(k)
        if self.what == "values":
            return self.val(term, T_, k)
        return (T_.key.wrap(k), self.val(term, T_, k))

    def pv_zsource(self):
        o = self.owner
        if o.T is None:
            return None
        term, T_ = o.term, o.T
        if o.order is not None:
            n, keyat, pos = o.order
            s = IdxSource(n, lambda i: self.elem(
                term, T_, z3.simplify(keyat(i))), o)
            s.order = (keyat, pos, T_.dom(term), T_.key)
            return s
        s = SetSource(T_.dom(term), T_.key, o)
        s.wrapx = lambda k: self.elem(term, T_, k)
        return s

    def as_set(self):
        o = self.owner
        if self.what == "keys":
            return TSet(o.T.key), o.T.dom(o.term)
        raise Unsupported("set of values")

    def pv_contains(self, x):
        if self.what == "keys":
            return self.owner.pv_contains(x)
        raise Unsupported("membership in values")

    def __contains__(self, x):
        return bool(self.pv_contains(x))

    def pv_len(self):
        return self.owner.pv_len()

    def __iter__(self):
        if self.owner.T is None:
            return iter(())
        raise Unsupported("native iteration over a symbolic view")

    def __sub__(self, o):
        return ZSet(*self.as_set()) - o

    def __and__(self, o):
        return ZSet(*self.as_set()) & o

    def __or__(self, o):
        return ZSet(*self.as_set()) | o

    def __eq__(self, o):
        if self.what == "keys":
            return ZSet(*self.as_set()) == (
                ZSet(*o.as_set()) if isinstance(o, ZView) else o)
        raise Unsupported("comparison of views")
    __hash__ = None


class ZSeq(ZContainer):
    kind = "list"

    def __init__(self, T_=None, term=None, tup=False):
        ZContainer.__init__(self, T_, term)
        self.tup = tup
        if tup:
            self.mut = False

    @property
    def __class__(self):
        return tuple if self.tup else list

    @property
    def n(self):
        return z3.IntVal(0) if self.T is None else self.T.len(self.term)

    @property
    def arr(self):
        return self.T.arr(self.term)

    def _peek(self, i):
        return z3.simplify(z3.Select(self.arr, i))

    def _poke(self, i, t):
        self.put(self.T.mk(self.n, z3.Store(self.arr, i, t)), "nested write")

    def pv_len(self):
        return 0 if self.T is None else ZI(self.n)

    def __len__(self):
        v = z3.simplify(self.n)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("native len of a symbolic list")

    def __bool__(self):
        return bool(SBool(self.n > 0))

    def _typed(self, v):
        if self.T is None:
            self._set_type(TSeq(type_of(v)))

    def append(self, x):
        self._typed(x)
        n = self.n
        self.put(self.T.mk(n + 1, z3.Store(self.arr, n,
                                           self.T.elem.unwrap(x))), "append")
        self.adopt(x, n)

    def extend(self, o):
        s = idx_source(o)
        if s is None:
            if isinstance(o, (list, tuple)):
                for x in o:
                    self.append(x)
                return
            if empty_z(o):
                return
            raise Unsupported("extend from %r" % (o,))
        j = E.eng().fresh("j", INT)
        val = under1(z3.And(0 <= j, j < s.n), lambda: s.at(j))
        self._typed(val)
        vt = self.T.elem.unwrap(val)
        n = self.n
        arr = self.arr
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
            self.put(self.T.mk(s.n, defarr(INT, lambda i: z3.substitute(
                vt, (j, i)))), "extend")
            return
        self.put(self.T.mk(n + s.n, defarr(INT, lambda i: z3.If(
            i < n, arr[i], z3.substitute(vt, (j, i - n))))), "extend")

    def index_term(self, i):
        t = num_term(i)
        if t is None:
            raise TypeError("list indices must be integers")
        n = self.n
        t = z3.simplify(t)
        if z3.is_int_value(t) and t.as_long() < 0:
            t = n + t
        elif not z3.is_int_value(t):
            if bool(SBool(t < 0)):
                t = n + t
        if not bool(SBool(z3.And(t >= 0, t < n))):
            raise IndexError("list index out of range")
        return z3.simplify(t)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if self.T is None:
            raise IndexError("list index out of range")
        return self.child(self.index_term(i), self.T.elem)

    def _slice(self, s):
        if s.step is not None:
            raise Unsupported("slices with a step")
        if self.T is None:
            return ZSeq(tup=self.tup)
        n = self.n

        def clip(v, default):
            if v is None:
                return default
            t = num_term(v)
            t = z3.If(t < 0, n + t, t)
            return z3.simplify(z3.If(t < 0, 0, z3.If(t > n, n, t)))
        a, b = clip(s.start, z3.IntVal(0)), clip(s.stop, n)
        m = z3.simplify(z3.If(b > a, b - a, 0))
        arr = self.arr
        return ZSeq(self.T, self.T.mk(m, defarr(INT, lambda i: arr[a + i])),
                    self.tup)

    def __setitem__(self, i, v):
        if self.T is None:
            raise IndexError("list assignment index out of range")
        k = self.index_term(i)
        self.put(self.T.mk(self.n, z3.Store(self.arr, k,
                                            self.T.elem.unwrap(v))), "setitem")
        self.adopt(v, k)

    def index(self, x, *a):
        "the first position holding x"
        if a or self.T is None:
            raise Unsupported("index from a position")
        e = E.eng()
        t = self.T.elem.unwrap(x)
        k = z3.FreshConst(INT, "k")
        arr, n = self.arr, self.n
        some = z3.Exists([k], z3.And(0 <= k, k < n, arr[k] == t))
        if not bool(SBool(some)):
            raise ValueError("not in list")
        out = e.fresh("index", INT)
        e.add(z3.And(0 <= out, out < n, arr[out] == t))
        e.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < out),
                                        arr[k] != t), patterns=[arr[k]]))
        return ZI(out)

    def pop(self, *a):
        if not bool(SBool(self.n > 0)):
            raise IndexError("pop from empty list")
        if a:
            raise Unsupported("pop at an index")
        n = self.n
        v = self.T.elem.wrap(z3.simplify(z3.Select(self.arr, n - 1)))
        self.put(self.T.mk(n - 1, self.arr), "pop")
        return v

    def __add__(self, o):
        out = ZSeq(self.T, None if self.T is None else self.term)
        out.extend(o)
        out.tup = self.tup
        out.mut = not self.tup
        return out

    def __radd__(self, o):
        out = ZSeq()
        for x in o:
            out.append(x)
        if out.T is None:
            return ZSeq(self.T, self.term, self.tup)
        out.extend(self)
        out.tup = self.tup
        out.mut = not self.tup
        return out

    def __iadd__(self, o):
        if self.tup:
            return self + o
        self.extend(o)
        return self

    def __eq__(self, o):
        if isinstance(o, (list, tuple)) or isinstance(o, ZSeq):
            if self.T is None:
                return SBool(z3.IntVal(0) == num_term(zlen(o)))
            b = self.T.unwrap(o)
            return SBool(seq_eq(self.T, self.term, b))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.c))

    def pv_contains(self, x):
        if self.T is None:
            return False
        try:
            t = self.T.elem.unwrap(x)
        except Unsupported:
            return False
        i = z3.FreshConst(INT, "i")
        return SBool(z3.Exists([i], z3.And(0 <= i, i < self.n,
                                           self.arr[i] == t)))

    def __contains__(self, x):
        return bool(self.pv_contains(x))

    def copy(self):
        return ZSeq(self.T, None if self.T is None else self.term, self.tup)

    def pv_zsource(self):
        if self.T is None:
            return None
        term, T_ = self.term, self.T

        def at(i):
            v = T_.elem.wrap(z3.simplify(z3.Select(T_.arr(term), i)))
            if isinstance(v, ZContainer):
                if self.mut and v.mut:
                    v._cell = ChildCell(self, "k", i)
                else:
                    v.mut = False
            return v
        out = IdxSource(T_.len(term), at, self)
        listed = self.__dict__.get("listed")
        if listed is not None and listed[0].get_id() == term.get_id():
            out.order, out.at = listed[1:]
        return out

    def __iter__(self):
        v = z3.simplify(self.n)
        if z3.is_int_value(v):
            return iter([self[i] for i in range(v.as_long())])
        raise Unsupported("native iteration over a symbolic list")

    def __repr__(self):
        return "<zlist>"


def seq_eq(T_, a, b):
    i = z3.FreshConst(INT, "i")
    return z3.And(T_.len(a) == T_.len(b), z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < T_.len(a)), T_.arr(a)[i] == T_.arr(b)[i])))


def zlen(o):
    m = getattr(type(o), "pv_len", None)
    return m(o) if m else len(o)


def empty_z(o):
    return isinstance(o, ZContainer) and o.T is None


def repeat(lst, n):
    if len(lst) != 1:
        raise Unsupported("repetition of a longer list")
    x, = lst
    T_ = TSeq(type_of(x))
    m = z3.simplify(z3.If(n > 0, n, 0))
    return ZSeq(T_, T_.mk(m, z3.K(INT, T_.elem.unwrap(x))))


# ------------------------------------------------------------------ sources
def defarr(sort, f, base="d"):
    "the array whose value at x is f(x)"
    e = E.eng()
    x = z3.FreshConst(sort, "x")
    body = z3.simplify(f(x))
    if z3.is_select(body) and body.arg(1).get_id() == x.get_id() and \
            not occurs(x, body.arg(0)):
        return body.arg(0)
    a = e.fresh(base, z3.ArraySort(sort, body.sort()))
    e.define(z3.ForAll([x], z3.Select(a, x) == body,
                       patterns=[z3.Select(a, x)]))
    return a


def occurs(x, t):
    stack, seen = [t], set()
    while stack:
        y = stack.pop()
        if y.get_id() == x.get_id():
            return True
        if y.get_id() not in seen:
            seen.add(y.get_id())
            stack.extend([y.body()] if z3.is_quantifier(y) else y.children())
    return False


class ZSource:
    pv_zs = True


class IdxSource(ZSource):
    "elements at(0), ..., at(n-1)"
    order = None

    def __init__(self, n, at, owner=None):
        self.n, self.at, self.owner = n, at, owner


class SetSource(ZSource):
    "the elements of a set, in an unknown order"
    def __init__(self, dom, T_, owner=None):
        self.dom, self.T, self.owner = dom, T_, owner
        self.wrapx = T_.wrap


class GenZ(ZSource):
    "f mapped (and filtered) over a source"
    def __init__(self, inner, f):
        self.inner, self.f = inner, f
        self.owner = inner.owner


def zsource(it):
    from . import rt
    if isinstance(it, ZSource):
        return it
    m = getattr(type(it), "pv_zsource", None)
    if m is not None:
        return it.pv_zsource()
    if type(it) is rt.PvGen and it.started is None:
        s = zsource(it.it)
        return None if s is None else GenZ(s, it.f)
    return None


def idx_source(it):
    "an index-addressed source (of unfiltered elements)"
    s = zsource(it)
    if s is None:
        return None
    return to_idx(s)


def to_idx(s):
    e = E.eng()
    if isinstance(s, IdxSource):
        return s
    if isinstance(s, SetSource):
        own = s.owner
        key = None
        if own is not None and own._cell is None:
            # an unchanged collection is iterated in the same order again
            key = ("order", own._pv_serial, own._ver, s.dom.get_id())
            if key in e.memo:
                n, keyat, pos, _ = e.memo[key]
                out = IdxSource(n, lambda i: s.wrapx(z3.simplify(keyat[i])),
                                own)
                out.order = (lambda i: keyat[i], lambda k: pos[k], s.dom, s.T)
                return out
        n = e.fresh("n", INT)
        keyat = e.fresh("keyat", z3.ArraySort(INT, s.T.sort))
        pos = e.fresh("pos", z3.ArraySort(s.T.sort, INT))
        for f in order_axioms(n, keyat, pos, s.dom, s.T.sort):
            e.add(f)
        if key is not None:
            e.memo[key] = (n, keyat, pos, s.dom)
        out = IdxSource(n, lambda i: s.wrapx(z3.simplify(keyat[i])), s.owner)
        out.order = (lambda i: keyat[i], lambda k: pos[k], s.dom, s.T)
        return out
    if isinstance(s, GenZ):
        inner = to_idx(s.inner)

        def at(i):
            vals = pure_value(lambda: s.f(inner.at(i)))
            if len(vals) != 1:
                raise Unsupported("a filtered generator by position")
            return vals[0]
        out = IdxSource(inner.n, at, s.owner)
        out.order = inner.order
        return out
    raise Unsupported("positions of %r" % (s,))


def order_axioms(n, keyat, pos, dom, sort):
    i = z3.FreshConst(INT, "i")
    k = z3.FreshConst(sort, "k")
    return [n >= 0,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                      z3.And(dom[keyat[i]],
                                             pos[keyat[i]] == i)),
                      patterns=[keyat[i]]),
            z3.ForAll([k], z3.Implies(dom[k], z3.And(
                0 <= pos[k], pos[k] < n, keyat[pos[k]] == k)),
                patterns=[pos[k]]) if not z3.is_quantifier(dom) else
            z3.ForAll([k], z3.Implies(dom[k], z3.And(
                0 <= pos[k], pos[k] < n, keyat[pos[k]] == k)))]


def ordered_map(T_, term):
    "an immutable map together with its iteration order"
    e = E.eng()
    n = e.fresh("n", INT)
    keyat = e.fresh("keyat", z3.ArraySort(INT, T_.key.sort))
    pos = e.fresh("pos", z3.ArraySort(T_.key.sort, INT))
    for f in order_axioms(n, keyat, pos, T_.dom(term), T_.key.sort):
        e.add(f)
    return ZMap(T_, term, order=(n, lambda i: keyat[i], lambda k: pos[k]))


# ------------------------------------------------------------------ pure code
def pure(fn):
    """all outcomes of side-effect-free code as [(condition, value)];
    branches inside do not split the path"""
    e = E.eng()
    out = []
    work = [([], {})]
    saved = e.__dict__.get("branch")
    while work:
        prefix, known = work.pop()
        known = dict(known)
        dec, conds = [], []

        def branch(cond, on_true=None, on_false=None, why=""):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
            i = len(dec)
            if i < len(prefix):
                val = prefix[i]
            else:
                val = True
                pc = e.under + conds
                ok_t = e.possible(z3.And(*pc, cond))
                ok_f = e.possible(z3.And(*pc, z3.Not(cond)))
                if ok_t and ok_f:
                    work.append((dec + [False], known))
                elif ok_f:
                    val = False
                elif not ok_t:
                    raise E.Infeasible()
                if not (ok_t and ok_f):
                    known[i] = True
            dec.append(val)
            if i not in known:
                conds.append(cond if val else z3.Not(cond))
            return val
        e.branch = branch
        e.pure_level = getattr(e, "pure_level", 0) + 1
        try:
            v = fn()
            out.append((z3.And(*conds) if conds else z3.BoolVal(True), v))
        except E.Infeasible:
            pass
        except (KeyError, IndexError, TypeError, AttributeError,
                ZeroDivisionError):
            e.branch = e.__class__.branch.__get__(e) if saved is None \
                else saved
            if not e.entails(z3.Not(z3.And(*e.under, *conds))):
                raise
        finally:
            e.pure_level -= 1
            if saved is None:
                e.__dict__.pop("branch", None)
            else:
                e.branch = saved
    return out


def under(cond, fn):
    "the outcomes of fn given cond"
    e = E.eng()
    e.under.append(cond)
    try:
        return pure(fn)
    finally:
        e.under.pop()


def merge(outs):
    "one value out of [(condition, value)]"
    if len(outs) == 1:
        return outs[0][1]
    vals = [v for _, v in outs]
    if all(isinstance(v, (bool, SBool)) for v in vals):
        t = TBool.unwrap(vals[-1])
        for c, v in reversed(outs[:-1]):
            t = z3.If(c, TBool.unwrap(v), t)
        return SBool(z3.simplify(t))
    if all(isinstance(v, list) and len(v) == 1 for v in vals):
        return [merge([(c, v[0]) for c, v in outs])]
    if all(isinstance(v, tuple) for v in vals) and \
            len({len(v) for v in vals}) == 1:
        return tuple(merge([(c, v[i]) for c, v in outs])
                     for i in range(len(vals[0])))
    if all(num_term(v) is not None for v in vals):
        ts = [num_term(v) for v in vals]
        if len({t.sort().name() for t in ts}) > 1:
            ts = [toreal(t) for t in ts]
        t = ts[-1]
        for (c, _), x in list(zip(outs, ts))[:-1][::-1]:
            t = z3.If(c, x, t)
        return wrap_num(t)
    from . import zarr
    if all(isinstance(v, zarr.ZVec) for v in vals):
        def ite(f):
            t = f(vals[-1])
            for c, v in reversed(outs[:-1]):
                t = z3.If(c, f(v), t)
            return z3.simplify(t)
        return zarr.ZVec(ite(lambda v: v.n), lambda i: ite(
            lambda v: toreal(v.term(i))))
    T_ = type_of(vals[0])
    t = T_.unwrap(vals[-1])
    for c, v in reversed(outs[:-1]):
        t = z3.If(c, T_.unwrap(v), t)
    return T_.wrap(t)


def pure_value(fn):
    outs = pure(fn)
    if not outs:
        raise E.Infeasible()
    return merge(outs)


def truth_term(v):
    if isinstance(v, SBool):
        return v.c
    if isinstance(v, ZNum):
        return v.t != 0
    if isinstance(v, ZSet):
        return z3.BoolVal(False) if v.T is None else v.term != v.T.empty
    if isinstance(v, ZSeq):
        return v.n > 0
    if isinstance(v, ZObj) and "__bool__" in v.T.attrs:
        return truth_term(v.T.attrs["__bool__"](v))
    return z3.BoolVal(bool(v))


def quantify(it, exists, conv=truth_term):
    "Exists/ForAll over the elements of a source of a condition on them"
    s = zsource(it)
    fs = []
    while isinstance(s, GenZ):
        fs.insert(0, s.f)
        s = s.inner
    if isinstance(s, SetSource):
        x = z3.FreshConst(s.T.sort, "q")
        mem = z3.Select(s.dom, x)
        elem = lambda: s.wrapx(x)
    else:
        x = z3.FreshConst(INT, "q")
        mem = z3.And(0 <= x, x < s.n)
        elem = lambda: s.at(x)

    def run():
        vals = [elem()]
        for f in fs:
            vals = [y for v in vals for y in f(v)]
        return vals
    parts = []
    for c, vals in under(mem, run):
        for v in vals:
            parts.append((c, conv(v)))
    if exists:
        body = z3.Or(*[z3.And(c, p) for c, p in parts]) if parts else \
            z3.BoolVal(False)
        return z3.simplify(z3.Exists([x], z3.And(mem, body)))
    body = z3.And(*[z3.Implies(c, p) for c, p in parts]) if parts else \
        z3.BoolVal(True)
    return z3.simplify(z3.ForAll([x], z3.Implies(mem, body)))


def z_any(it):
    return SBool(quantify(it, True))


def z_all(it):
    return SBool(quantify(it, False))


def z_extreme(it, mx):
    "max / min of numbers: an element, and no element exceeds it"
    e = E.eng()
    s = idx_source(it)
    if not bool(SBool(s.n > 0)):
        raise ValueError("max() arg is an empty sequence")
    k = e.fresh("k", INT)
    e.add(z3.And(0 <= k, k < s.n))
    e.ghost.setdefault("skolems", []).append(k)
    j = e.fresh("j", INT)
    v = under1(z3.And(0 <= j, j < s.n), lambda: s.at(j))
    t = num_term(v)
    out = z3.substitute(t, (j, k))
    i = z3.FreshConst(INT, "i")
    ti = z3.substitute(t, (j, i))
    e.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n),
                                    ti <= out if mx else ti >= out)))
    return wrap_num(out)


def under1(cond, fn):
    outs = under(cond, fn)
    if not outs:
        raise E.Infeasible()
    return merge(outs)


def listcomp(it):
    s = idx_source(it)
    j = E.eng().fresh("j", INT)
    v = under1(z3.And(0 <= j, j < s.n), lambda: s.at(j))
    from . import zarr
    if zarr.wants_lazy(v):
        return zarr.lazy_listcomp(s, j, v)
    if empty_z(v) and isinstance(v, ZMap):
        T_ = TSeq(E.eng().ghost["comp_type"])
    else:
        T_ = TSeq(type_of(v))
    vt = T_.elem.unwrap(v)
    return ZSeq(T_, T_.mk(s.n, defarr(
        INT, lambda i: z3.substitute(vt, (j, i)))))


def filtered(s):
    "(cond, x) of a generator that only filters the elements x of a set"
    fs, inner = [], s
    while isinstance(inner, GenZ):
        fs.insert(0, inner.f)
        inner = inner.inner
    if not isinstance(inner, SetSource) or not fs:
        return None
    x = E.eng().fresh("q", inner.T.sort)

    def run():
        vals = [inner.wrapx(x)]
        for f in fs:
            vals = [y for v in vals for y in f(v)]
        return vals
    kept = [(c, v) for c, v in under(z3.Select(inner.dom, x), run) if v]
    for _, v in kept:
        if len(v) != 1 or isinstance(v[0], (tuple, ZContainer)):
            return None
        try:
            if inner.T.unwrap(v[0]).get_id() != x.get_id():
                return None
        except Unsupported:
            return None
    cond = z3.And(z3.Select(inner.dom, x), z3.Or(*[c for c, _ in kept]))
    return ZSet(TSet(inner.T), defarr(
        inner.T.sort, lambda k: z3.substitute(cond, (x, k))))


def setcomp(it):
    s = zsource(it)
    plain = filtered(s)
    if plain is not None:
        return plain
    got = []

    def conv(v):
        got.append(v)
        return z3.BoolVal(True)
    # the type of the elements
    quantify(it_again(s), True, conv)
    if not got:
        return ZSet()
    T_ = TSet(type_of(got[0]))
    y = z3.FreshConst(T_.elem.sort, "y")
    body = quantify(it_again(s), True, lambda v: T_.elem.unwrap(v) == y)
    return ZSet(T_, defarr(T_.elem.sort,
                           lambda x: z3.substitute(body, (y, x))))


def it_again(s):
    return s


def dictcomp(it):
    "{k: v for ...}: keys must be the (distinct) elements' own keys"
    s = zsource(it)
    fs = []
    while isinstance(s, GenZ):
        fs.insert(0, s.f)
        s = s.inner
    e = E.eng()
    if isinstance(s, SetSource):
        x = e.fresh("q", s.T.sort)
        elem = s.wrapx(x)

        def run():
            vals = [elem]
            for f in fs:
                vals = [y for v in vals for y in f(v)]
            if len(vals) > 1:
                raise Unsupported("nested dict comprehension")
            return vals
        outs = under(z3.Select(s.dom, x), run)
        kept = [(c, v[0]) for c, v in outs if v]
        if not kept:
            return ZMap()
        kt = [type_of(v[0]) for _, v in kept][0]
        if not all(kt.unwrap(v[0]).get_id() == x.get_id() or
                   e.entails(kt.unwrap(v[0]) == x) for _, v in kept):
            raise Unsupported("dict comprehension with computed keys")
        vt = type_of(kept[0][1][1])
        T_ = TMap(kt, vt)
        val = vt.unwrap(kept[-1][1][1])
        for c, v in reversed(kept[:-1]):
            val = z3.If(c, vt.unwrap(v[1]), val)
        cond = z3.And(z3.Select(s.dom, x), z3.Or(*[c for c, _ in kept]))
        return ZMap(T_, T_.mk(
            defarr(s.T.sort, lambda k: z3.substitute(cond, (x, k))),
            defarr(s.T.sort, lambda k: z3.substitute(val, (x, k)))))
    if s.order is None:
        raise Unsupported("dict comprehension over positions")
    keyat, pos, dom, kT = s.order
    j = e.fresh("j", INT)
    vals = [s.at(j)]
    for f in fs:
        vals = [y for v in vals for y in under1(
            z3.And(0 <= j, j < s.n), lambda: f(v))]
    if len(vals) != 1:
        raise Unsupported("a filtered dict comprehension over positions")
    kv, vv = vals[0]
    if type_of(kv).unwrap(kv).sexpr() != z3.simplify(keyat(j)).sexpr():
        raise Unsupported("dict comprehension with computed keys")
    vt = type_of(vv)
    T_ = TMap(kT, vt)
    val = vt.unwrap(vv)
    out = ZMap(T_, T_.mk(dom, defarr(kT.sort, lambda k: z3.substitute(
        z3.substitute(val, (z3.simplify(keyat(j)), k)), (j, pos(k))))))
    out.order = (s.n, keyat, pos)
    return out


# ------------------------------------------------------------------ loops
def _canary(e, info, what="end"):
    "a diagnosis: is the end of this loop's iteration reachable at all?"
    with open(os.environ["PV_CANARY"], "a") as f:
        f.write("%s %s %s %s %s %s\n" % (
            getattr(e.contract, "name", "?"), info.label, what, e.dec,
            sorted(info.modified),
            "VACUOUS" if e.entails(z3.BoolVal(False), 2000) else "ok"))


CANARY = _canary if os.environ.get("PV_CANARY") else None


class ZLoopInfo:
    def __init__(self, label):
        self.label = label
        self.stable = False
        self.version = 0
        self.modified, self.pending_mod = set(), set()
        self.mod_locals, self.pending_locals = set(), set()
        self.mod_attrs, self.pending_attrs = set(), set()
        self.types = {}
        self.kinds = {}
        self.failed = {}
        self.prefix = ()

    def settle(self, defer=False):
        changed = False
        for a, b in ((self.modified, self.pending_mod),
                     (self.mod_locals, self.pending_locals),
                     (self.mod_attrs, self.pending_attrs)):
            if not b <= a:
                a |= b
                changed = True
        if not changed:
            self.stable = True
        return changed


class ZFrame:
    "stands in the engine's iterstack"
    def __init__(self, info):
        self.info = info
        self.start_serial = len(E.eng().objects)
        self.active = True
        self.notes, self.attrs = set(), set()

    def note_mutation(self, s):
        obj = E.eng().objects[s]
        if getattr(obj, "T", None) is not None:
            self.info.types[s] = obj.T
        self.notes.add(s)

    def commit(self):
        "the iteration ends: what it modified may differ in the next one"
        self.info.pending_mod |= self.notes - self.info.modified
        self.info.pending_attrs |= self.attrs - self.info.mod_attrs

    def note_key_write(self, *a):
        pass

    def may_redirect(self, *a):
        return False

    def key_class(self, *a):
        return None

    def note_attr(self, root, name):
        self.attrs.add((root, name))


class L:
    "what an invariant may speak about"


class ZLoop:
    """iterator of an instrumented `for` over a symbolic container (src), or of
    a `while` (src None)"""
    def __init__(self, locid, src, names, is_while=False):
        self.locid, self.names, self.is_while = locid, names, is_while
        self.src = src
        self.loc = {}
        self.state = 0
        if isinstance(src, GenZ):
            raise Unsupported("a loop over a generator expression")

    def __iter__(self):
        return self

    def __next__(self):
        return self.step(sys._getframe(1).f_locals)

    def brk(self):
        if self.state == 1:
            e = E.eng()
            if e.iterstack and e.iterstack[-1] is self.fr:
                e.iterstack.pop()
            self.fr.active = False
            self.state = 3

    def exit(self):
        "the condition of a while loop is false"
        self.brk()

    # -------------------------------------------------------------
    def spec(self):
        e = E.eng()
        specs = getattr(e.contract, "loops", {})
        short = self.locid.split(":")[-1]
        return specs.get(short)

    def view(self, f_locals):
        v = L()
        v.loc = f_locals
        v.src = self.src
        v.entry = self.entry
        v.before = self.before
        v.i = v.done = v.n = v.elem = None
        if isinstance(self.src, IdxSource):
            v.n, v.i = self.src.n, self.pos
        elif isinstance(self.src, SetSource):
            v.done, v.dom = self.pos, self.src.dom
        v.final = self.final
        v.first = self.first
        return v

    def invs(self, f_locals):
        s = self.spec()
        if s is None:
            raise Unsupported("no invariant is declared for loop %s"
                              % self.locid)
        try:
            return list(s(E.eng().contract, self.view(f_locals)))
        except (KeyError, AttributeError, TypeError, z3.Z3Exception,
                IndexError) as exc:
            raise Unsupported("invariant of loop %s does not apply: %s %s"
                              % (self.locid, type(exc).__name__, exc))

    def assume(self, f_locals):
        e = E.eng()
        c = e.contract
        for name, f in self.invs(f_locals):
            if isinstance(f, tuple):
                w, guard, pred = f[1:4]
                x = e.fresh(w, f[5] if len(f) > 5 else INT)
                e.ghost.setdefault("wit", {})[w] = x
                f = z3.Implies(guard, pred(x))
            e.add(f)

    def prove(self, f_locals, when):
        e = E.eng()
        for name, f in self.invs(f_locals):
            if isinstance(f, tuple):
                w, guard, pred, cands = f[1:5]
                prev = e.ghost.get("wit", {}).get(w)
                xs = ([] if prev is None else [prev]) + list(cands)
                f = z3.Implies(guard, z3.Or(*[pred(x) for x in xs]))
            e.oblige_z("inv(%s):%s:%s" % (self.short(), name, when), f)

    def step(self, f_locals):
        e = E.eng()
        if self.state == 0:
            return self.arrive(f_locals)
        if self.state == 1:
            self.end_iteration(f_locals)
            raise PathEnd()
        raise StopIteration

    def arrive(self, f_locals):
        e = E.eng()
        if getattr(e, "pure_level", 0):
            raise Unsupported("a loop inside a comprehension")
        n = e.memo.get("loop_arrivals", 0)
        e.memo["loop_arrivals"] = n+1
        key = (self.locid, tuple(e.dec), n)
        info = e.loops.get(key)
        if info is None:
            info = e.loops[key] = ZLoopInfo(self.locid)
            info.prefix = tuple(e.dec)
        e.pvisited[key] = info
        self.info = info
        e.loop_types = dict(getattr(e, "loop_types", {}))
        e.loop_types.update(info.types)
        vt = getattr(e.contract, "var_types", {})
        places = [f_locals]
        for o in e.ghost.get("roots", {}).values():
            places.append(o.__dict__)
            places += [x.__dict__ for x in o.__dict__.values()
                       if type(x).__module__.startswith("gpkit")
                       and not hasattr(x, "pv_symbolic")
                       and hasattr(x, "__dict__")]
        for d in places:
            for k, v in list(d.items()):
                if k in vt and isinstance(v, ZContainer) and v.T is None:
                    v._set_type(vt[k])
        self.entry_locals = {k: f_locals[k] for k in self.names
                             if k in f_locals}
        self.before = dict(f_locals)
        self.entry = {}
        for s, obj in enumerate(e.objects):
            if isinstance(obj, ZContainer) and obj._cell is None:
                self.entry[s] = obj._term
        self.final = False
        self.first = True
        # initially
        src = self.src
        if isinstance(src, IdxSource):
            self.pos = z3.IntVal(0)
        elif isinstance(src, SetSource):
            self.pos = z3.K(src.T.sort, False)
        if self.is_while:
            val = 0
        else:
            i = len(e.dec)
            if i < len(e.prefix):
                val = e.prefix[i]
            else:
                if info.stable:
                    e._fork(e.dec + [1])
                val = 0
            e.dec.append(val)
        if val == 0 and info.stable:
            self.prove(f_locals, "initially")
        self.fr = ZFrame(info)
        self.first = False
        if val == 0:
            self.havoc()
            loc = dict(f_locals)
            loc.update(self.loc)
            if isinstance(src, IdxSource):
                self.pos = e.fresh("i", INT)
                e.add(z3.And(self.pos >= 0, self.pos < src.n))
            elif isinstance(src, SetSource):
                self.pos = e.fresh("done", z3.ArraySort(src.T.sort, BOOL))
                x = z3.FreshConst(src.T.sort, "x")
                e.add(z3.ForAll([x], z3.Implies(self.pos[x],
                                                z3.Select(src.dom, x))))
                self.x = e.fresh("x", src.T.sort)
                e.add(z3.Select(src.dom, self.x))
                e.add(z3.Not(self.pos[self.x]))
            if info.stable:
                self.assume(loc)
            e.iterstack.append(self.fr)
            self.state = 1
            if isinstance(src, IdxSource):
                return src.at(self.pos)
            if isinstance(src, SetSource):
                return src.wrapx(self.x)
            return None
        self.havoc()
        loc = dict(f_locals)
        loc.update(self.loc)
        self.final = True
        if isinstance(src, IdxSource):
            self.pos = src.n
            e.add(src.n >= 0)
        else:
            self.pos = src.dom
        if CANARY is not None and info.stable:
            CANARY(e, info, "before exit")
        self.assume(loc)
        if CANARY is not None and info.stable:
            CANARY(e, info, "exit")
        self.state = 2
        self.fr.active = False
        raise StopIteration

    def short(self):
        return self.locid.split(":")[-1]

    def havoc(self):
        e = E.eng()
        info = self.info
        for s in sorted(info.modified):
            if s >= len(e.objects):
                continue
            obj = e.objects[s]
            for fr in e.iterstack:       # the loops around this one
                if s < fr.start_serial:
                    fr.note_mutation(s)
            if isinstance(obj, ZContainer):
                if obj.T is None:
                    obj.T = info.types.get(s)
                obj.z_havoc("h%d" % s)
            elif hasattr(obj, "pv_havoc"):
                obj.pv_havoc(self, False)
            else:
                raise Unsupported("a %s is modified in a cut loop"
                                  % type(obj).__name__)
        types = getattr(e.contract, "loop_locals", {}).get(self.short(), {})
        self.loc = {}
        from .loops import Poison
        for name in self.names:
            if name not in self.entry_locals:
                if name in types:
                    self.loc[name] = types[name].new(name)
                else:
                    self.loc[name] = Poison(name)
            elif name in info.mod_locals:
                self.loc[name] = havoc_value(self.entry_locals[name], name,
                                             types.get(name))
        for root, name in sorted(info.mod_attrs):
            for fr in e.iterstack:
                fr.note_attr(root, name)
            obj = e.ghost["roots"][root]
            d = obj.__dict__
            if name in d:
                d[name] = havoc_value(d[name], name, types.get(name))

    def end_iteration(self, f_locals):
        e = E.eng()
        info = self.info
        self.fr.commit()
        self.fr.active = False
        if e.iterstack and e.iterstack[-1] is self.fr:
            e.iterstack.pop()
        own = getattr(self.src, "owner", None)
        if isinstance(own, (ZMap, ZSet)) and own._cell is None and \
                own._pv_serial in info.modified and own.T is not None:
            dom = own.T.dom(own.term) if isinstance(own, ZMap) else own.term
            e.oblige_z("safety:no change of the keys during iteration",
                       dom == self.src.dom)
        for name, v0 in self.entry_locals.items():
            if name in info.mod_locals:
                continue
            v1 = f_locals.get(name)
            if v1 is v0 or name not in f_locals:
                continue
            if type(v0) is type(v1) and type(v0) in (int, bool, str,
                                                     type(None)) and v0 == v1:
                continue
            info.pending_locals.add(name)
        if not info.stable:
            return
        if CANARY is not None:
            CANARY(e, info)
        src = self.src
        if isinstance(src, IdxSource):
            self.pos = z3.simplify(self.pos + 1)
        elif isinstance(src, SetSource):
            self.pos = z3.Store(self.pos, self.x, True)
        self.prove(f_locals, "preserved")


def havoc_value(v, name, T_=None):
    if T_ is not None:
        return T_.new(name)
    if isinstance(v, ZContainer):
        if v.T is None:
            raise Unsupported("an untyped container is rebound in a loop")
        return v.T.new(name)
    if isinstance(v, (bool, SBool)):
        return SBool(E.eng().fresh(name, BOOL))
    if type(v) in (int, ZI):
        return TInt.new(name)
    if type(v) in (float, ZR):
        return TReal.new(name)
    if isinstance(v, (ZObj, ZEnum)):
        return v.T.new(name)
    from .loops import Poison
    return Poison(name)


def has_quant(f, memo={}):
    k = f.get_id()
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False
