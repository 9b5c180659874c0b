"""Numeric vectors and matrices of unknown size (numpy arrays of mathematical
reals) for contracts over z3 containers (zv.py).

A vector is a length and a function from positions to z3 terms.  Sums are
applications of one uninterpreted function to (length, lambda), related by the
lemma "equal lengths and equal terms make equal sums", instantiated on the sums
that a query mentions, each time with a fresh (Skolem) position of difference.
"""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported, ExpF, LogF
from .values import SBool
from .zv import (INT, REAL, BOOL, T, IdxSource, ZI, ZR, num_term, toreal,
                 wrap_num, zsource, idx_source)

ARR = z3.ArraySort(INT, REAL)
SumF = z3.Function("Sum", INT, ARR, REAL)
np = None


def lam(at):
    x = z3.FreshConst(INT, "x")
    return z3.Lambda([x], z3.simplify(toreal(at(x))))


def rsum(n, at):
    "the sum of at(0), ..., at(n-1)"
    activate()
    return SumF(z3.simplify(n), lam(at))


def activate():
    e = E.eng()
    if e.abstract is None:
        e.abstract = lambda f: abstract(e, f)
        e.memo["sums"] = {}
        e.memo["pairs"] = {}


def ground_sums(f, out, seen=None):
    """the outermost applications of Sum in f that mention no bound variable"""
    stack = [f]
    seen = {} if seen is None else seen
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen[x.get_id()] = x
        if z3.is_app(x):
            if x.decl().name() == "Sum" and x.num_args() == 2 and \
                    not has_var(x):
                out[x.get_id()] = x
                continue
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())


def has_var(t):
    "does t mention a variable bound outside of it?"
    stack = [(t, 0)]
    seen = set()
    while stack:
        x, d = stack.pop()
        if (x.get_id(), d) in seen:
            continue
        seen.add((x.get_id(), d))
        if z3.is_var(x):
            if z3.get_var_index(x) >= d:
                return True
        elif z3.is_quantifier(x):
            stack.append((x.body(), d + x.num_vars()))
        else:
            stack.extend((c, d) for c in x.children())
    return False


def abstract(e, f):
    """f with each sum named by a constant; naming a sum relates it to the
    sums named before"""
    memo = e.memo.setdefault("abstracted", {})
    hit = memo.get(f.get_id())
    if hit is not None:
        return hit[1]
    out = {}
    ground_sums(f, out)
    subs = []
    for k, s in out.items():
        subs.append((s, name_of(e, s, True)))
    g = z3.substitute(f, *subs) if subs else f
    if mentions_sum(g):
        g = instances(e, g)
    memo[f.get_id()] = (f, g)
    return g


def mentions_sum(f):
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            if z3.is_app(x) and x.decl().name() == "Sum":
                return True
            stack.extend(x.children())
    return False


def instances(e, f):
    """of a universal fact about sums, its instances at the points of interest
    (the fact itself is left out: fewer assumptions); in a goal, unchanged"""
    g, neg = f, False
    while z3.is_not(g):
        g, neg = g.arg(0), not neg
    if not (z3.is_quantifier(g) and not g.is_lambda()
            and g.is_forall() != neg and g.num_vars() == 1
            and g.var_sort(0) == INT):
        return f
    out = []
    for t in e.ghost.get("points", []) + [
            x for x in e.ghost.get("skolems", []) if x.sort() == INT]:
        b = z3.simplify(z3.substitute_vars(g.body(), t))
        out.append(abstract(e, z3.Not(b) if neg else b))
    return z3.And(*out) if out else z3.BoolVal(True)


def name_of(e, s, top):
    sums = e.memo["sums"]
    k = s.get_id()
    if k not in sums:
        c = z3.Const("sum!%d" % len(sums), REAL)
        before = [t for t, _, tp in sums.values() if tp]
        sums[k] = (s, c, top)
        empty_lemma(e, s, c)
        if top:
            for t in before:
                pair_lemma(e, s, t, 0)
    elif top and not sums[k][2]:
        before = [t for t, _, tp in sums.values() if tp]
        sums[k] = (s, sums[k][1], True)
        for t in before:
            pair_lemma(e, s, t, 0)
    return sums[k][1]


def empty_lemma(e, s, c):
    e.add(z3.Implies(s.arg(0) <= 0, c == 0))


def inner(e, t):
    "t with the sums in it named (and not related to all others)"
    out = {}
    ground_sums(t, out)
    subs = [(s, name_of(e, s, False)) for s in out.values()]
    return (z3.substitute(t, *subs) if subs else t), list(out.values())


def pair_lemma(e, s, t, depth):
    pairs = e.memo["pairs"]
    key = (s.get_id(), t.get_id())
    if key in pairs or s.get_id() == t.get_id():
        return
    pairs[key] = (s, t)
    if len(pairs) > 1500:
        raise Unsupported("too many sums to relate")
    w = z3.Const("differ!%d" % len(pairs), INT)
    n, m = s.arg(0), t.arg(0)
    a, ina = inner(e, z3.simplify(z3.Select(s.arg(1), w)))
    b, inb = inner(e, z3.simplify(z3.Select(t.arg(1), w)))
    if depth < 3:
        # the sums inside the terms of one, with those inside the other's
        for x in ina:
            for y in inb:
                pair_lemma(e, x, y, depth + 1)
    e.add(z3.Implies(z3.And(n == m, z3.Implies(
        z3.And(0 <= w, w < n), a == b)),
        e.memo["sums"][s.get_id()][1] == e.memo["sums"][t.get_id()][1]))


# ------------------------------------------------------------------ vectors
class ZVec:
    pv_symbolic = True
    pv_z = True
    __array_priority__ = 1e9
    __hash__ = None

    def __init__(self, n, at):
        self.n, self.at = z3.simplify(n), at

    def term(self, i):
        return z3.simplify(self.at(i))

    @property
    def __class__(self):
        return np.ndarray

    def pv_len(self):
        return ZI(self.n)

    def __len__(self):
        v = z3.simplify(self.n)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("native len of a symbolic vector")

    @property
    def size(self):
        return ZI(self.n)

    @property
    def shape(self):
        return (ZI(self.n),)
    ndim = 1

    @property
    def T(self):
        return self

    def pv_zsource(self):
        return IdxSource(self.n, lambda i: wrap_num(self.term(i)), None)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic vector")

    def __bool__(self):
        raise ValueError("truth value of an array")

    def copy(self):
        return self
    ravel = flatten = copy

    def reshape(self, *a):
        return self

    def astype(self, t, **kw):
        return self

    def sum(self):
        if self.sort() == BOOL:
            return ZR(rsum(self.n, lambda i: z3.If(self.term(i), 1, 0)))
        return ZR(rsum(self.n, self.term))

    def sort(self):
        return self.term(z3.IntVal(0)).sort()

    def any(self):
        return zv.z_any(self)

    def all(self):
        return zv.z_all(self)

    def min(self):
        return zv.z_extreme(self, False)

    def max(self):
        return zv.z_extreme(self, True)

    def dot(self, o):
        if isinstance(o, ZMat):
            return o.T.dot(self)
        o = as_vec(o)
        same_length(self, o)
        return ZR(rsum(self.n, lambda i: toreal(self.term(i))
                       * toreal(o.term(i))))
    __matmul__ = dot

    def __rmatmul__(self, o):
        return as_vec(o).dot(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("a slice with a step")
            lo, hi = clip(i.start, self.n, z3.IntVal(0)), \
                clip(i.stop, self.n, self.n)
            return ZVec(span(lo, hi),
                        lambda k: self.term(lo + k))
        if isinstance(i, ZVec):
            if i.sort() == BOOL:
                hook = E.eng().ghost.get("mask_slice")
                r = hook(i) if hook else None
                if r is None:
                    raise Unsupported("a boolean mask")
                same_length(self, i)
                return self[slice(ZI(r[0]), ZI(r[1]))]
            return ZVec(i.n, lambda k: self.term(i.term(k)))
        t = num_term(i)
        if t is None:
            raise Unsupported("indexing a vector with %r" % (i,))
        if z3.is_int_value(t) and t.as_long() < 0:
            t = self.n + t
        if not bool(SBool(z3.And(t >= 0, t < self.n))):
            raise IndexError("index out of bounds")
        return wrap_num(self.term(t))

    def __setitem__(self, i, v):
        raise Unsupported("writing to a vector")

    def __neg__(self):
        return ZVec(self.n, lambda i: -self.term(i))

    def __abs__(self):
        return vabs(self)

    def __invert__(self):
        return ZVec(self.n, lambda i: z3.Not(self.term(i)))

    def __and__(self, o):
        same_length(self, o)
        return ZVec(self.n, lambda i: z3.And(self.term(i), o.term(i)))

    def __or__(self, o):
        same_length(self, o)
        return ZVec(self.n, lambda i: z3.Or(self.term(i), o.term(i)))


def sure(cond):
    "is the condition (quickly) provable here?"
    e = E.eng()
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    return e.quick(z3.And(*e.under, z3.Not(cond)), 300) == z3.unsat


def clip(v, n, default):
    if v is None:
        return default
    t = num_term(v)
    if sure(z3.And(0 <= t, t <= n)):
        return t
    t = z3.If(t < 0, n + t, t)
    return z3.simplify(z3.If(t < 0, 0, z3.If(t > n, n, t)))


def span(lo, hi):
    return z3.simplify(hi - lo) if sure(lo <= hi) else \
        z3.simplify(z3.If(hi > lo, hi - lo, 0))


def same_length(a, b):
    if not bool(SBool(a.n == b.n)):
        raise ValueError("operands could not be broadcast together")


def as_vec(o):
    if isinstance(o, ZVec):
        return o
    s = idx_source(o)
    if s is not None:
        return ZVec(s.n, lambda i: num_term(s.at(i)))
    if isinstance(o, (list, tuple)) or type(o).__name__ == "ndarray":
        ts = [num_term(x) for x in o]
        if any(t is None for t in ts):
            raise Unsupported("a vector of %r" % (o,))

        def at(i):
            t = ts[-1] if ts else z3.RealVal(0)
            for k in range(len(ts) - 2, -1, -1):
                t = z3.If(i == k, ts[k], t)
            return t
        return ZVec(z3.IntVal(len(ts)), at)
    raise Unsupported("a vector of %r" % (o,))


def _vop(op, boolean=False):
    def f(self, o):
        b = num_term(o)
        if b is not None:
            def at(i):
                x, y = self.term(i), b
                if x.sort() != y.sort():
                    x, y = toreal(x), toreal(y)
                return op(x, y)
            return ZVec(self.n, at)
        if not isinstance(o, ZVec):
            if type(o).__name__ == "ndarray" or zsource(o) is not None:
                o = as_vec(o)
            else:
                return NotImplemented
        same_length(self, o)

        def at2(i):
            x, y = self.term(i), o.term(i)
            if x.sort() != y.sort():
                x, y = toreal(x), toreal(y)
            return op(x, y)
        return ZVec(self.n, at2)
    return f


def _swap(op):
    return lambda x, y: op(y, x)


for _n, _o in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b),
               ("mul", lambda a, b: a * b),
               ("truediv", lambda a, b: toreal(a)/toreal(b))):
    setattr(ZVec, "__%s__" % _n, _vop(_o))
    setattr(ZVec, "__r%s__" % _n, _vop(_swap(_o)))
for _n, _o in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b),
               ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b),
               ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b)):
    setattr(ZVec, "__%s__" % _n, _vop(_o))


def vabs(v):
    def at(i):
        t = v.term(i)
        return z3.If(t >= 0, t, -t)
    return ZVec(v.n, at)


class _TVec(T):
    name = "vec"

    def __init__(self):
        self.d = zv.datatype("Vec", [("vec_len", INT), ("vec_arr", ARR)])
        self.sort = self.d

    def wrap(self, t):
        n, arr = z3.simplify(self.d.vec_len(t)), z3.simplify(self.d.vec_arr(t))
        return ZVec(n, lambda i: z3.Select(arr, i))

    def unwrap(self, v):
        if isinstance(v, ZVec):
            return self.d.mk_Vec(v.n, lam(v.term))
        raise Unsupported("a vector was expected, got %r" % (v,))

    def new(self, base="vec"):
        e = E.eng()
        n = e.fresh("n_" + base, INT)
        e.add(n >= 0)
        arr = e.fresh(base, ARR)
        return ZVec(n, lambda i: z3.Select(arr, i))


TVec = _TVec()


class ZMat:
    "a matrix by its entries"
    pv_symbolic = True
    pv_z = True
    __hash__ = None

    def __init__(self, nr, nc, entry):
        self.nr, self.nc, self.entry = nr, nc, entry

    @property
    def T(self):
        return ZMat(self.nc, self.nr, lambda r, c: self.entry(c, r))

    def transpose(self):
        return self.T

    @property
    def shape(self):
        return (ZI(self.nr), ZI(self.nc))

    def tocsr(self):
        return self
    tocsc = tocoo = copy = tocsr

    def dot(self, o):
        o = as_vec(o)
        if not bool(SBool(o.n == self.nc)):
            raise ValueError("dimension mismatch")
        return ZVec(self.nr, lambda r: rsum(
            self.nc, lambda c: self.entry(r, c)*toreal(o.term(c))))
    __matmul__ = dot
    __mul__ = dot

    def __rmatmul__(self, o):
        return self.T.dot(o)


# ------------------------------------------------------------------ lists
class ZList:
    "an immutable list of unknown length, by a function from positions"
    pv_symbolic = True
    pv_z = True
    __hash__ = None

    def __init__(self, n, at):
        self.n, self.at = z3.simplify(n), at

    @property
    def __class__(self):
        return list

    def pv_len(self):
        return ZI(self.n)

    def pv_zsource(self):
        return IdxSource(self.n, self.at, None)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic list")

    def __bool__(self):
        return bool(SBool(self.n > 0))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("a slice with a step")
            lo, hi = clip(i.start, self.n, z3.IntVal(0)), \
                clip(i.stop, self.n, self.n)
            return ZList(span(lo, hi),
                         lambda k: self.at(z3.simplify(lo + k)))
        t = num_term(i)
        if t is None:
            raise TypeError("list indices must be integers")
        if z3.is_int_value(t) and t.as_long() < 0:
            t = self.n + t
        if not bool(SBool(z3.And(t >= 0, t < self.n))):
            raise IndexError("list index out of range")
        return self.at(z3.simplify(t))


def subst_value(v, j, i):
    if isinstance(v, ZVec):
        return ZVec(z3.substitute(v.n, (j, i)), lambda k: z3.substitute(
            v.term(k), (j, i)))
    t = num_term(v)
    if t is not None:
        return wrap_num(z3.substitute(t, (j, i)))
    if isinstance(v, tuple):
        return tuple(subst_value(x, j, i) for x in v)
    raise Unsupported("a list of %r" % (v,))


def lazy_listcomp(s, j, v):
    "[v(j) for j]: kept as a function of the position"
    return ZList(s.n, lambda i: subst_value(v, j, i))


def wants_lazy(v):
    if isinstance(v, ZVec):
        return True
    t = num_term(v)
    if t is None:
        return False
    out = {}
    ground_sums(t, out, {})
    return bool(out)


def z_sum(it, start=0):
    "sum of (filtered) elements of a source"
    s = zsource(it)
    fs = []
    while isinstance(s, zv.GenZ):
        fs.insert(0, s.f)
        s = s.inner
    s = zv.to_idx(s)
    e = E.eng()
    j = e.fresh("j", INT)

    def run():
        vals = [s.at(j)]
        for f in fs:
            vals = [y for v in vals for y in f(v)]
        return vals
    total = z3.RealVal(0)
    for c, vals in zv.under(z3.And(0 <= j, j < s.n), run):
        for v in vals:
            t = num_term(v)
            if t is None:
                hook = e.ghost.get("sum_values")
                if hook is not None:
                    return hook(s, fs, start)
                raise Unsupported("a sum of %r" % (v,))
            total = total + z3.If(c, toreal(t), z3.RealVal(0))
    total = z3.simplify(total)
    out = ZR(rsum(s.n, lambda i: z3.substitute(total, (j, i))))
    if type(start) is int and start == 0:
        return out
    return out + start


class NonFinite:
    "x/0 in numpy arithmetic: infinite or not a number"
    pv_symbolic = True
    __hash__ = None

    def __abs__(self):
        return self
    __neg__ = __abs__

    def _false(self, o):
        return False
    __lt__ = __le__ = _false

    def __gt__(self, o):
        raise Unsupported("comparison of a non-finite number")
    __ge__ = __gt__


# ------------------------------------------------------------------ numpy
def install(handler):
    global np
    import numpy
    np = numpy

    def elementwise(fn, nat):
        def h(f, x, *a, **kw):
            if isinstance(x, zv.ZNum):
                return wrap_num(fn(x.t))
            if isinstance(x, (ZVec, ZList, zv.ZSeq)):
                v = as_vec(x)
                return ZVec(v.n, lambda i: fn(v.term(i)))
            if a or kw:
                return f(x, *a, **kw)
            return nat(f, x)
        return h
    from . import rt
    for f, fn in ((np.exp, lambda t: ExpF(toreal(t))),
                  (np.log, lambda t: LogF(toreal(t))),
                  (np.abs, lambda t: z3.If(t >= 0, t, -t))):
        old = rt.HANDLERS.get(f)
        handler(f)(elementwise(fn, old if old is not None
                               else (lambda f, x: f(x))))

    def is_z(x):
        return isinstance(x, (ZVec, ZList, zv.ZSeq))

    def reg(f, fn):
        old = rt.HANDLERS.get(f)

        def h(f_, x, *a, **kw):
            if is_z(x):
                return fn(x, *a, **kw)
            if old is not None:
                return old(f_, x, *a, **kw)
            return f_(x, *a, **kw)
        handler(f)(h)

    def whole(x, a, kw):
        if a or kw:
            raise Unsupported("an axis or data type")
        return as_vec(x)
    reg(np.ravel, lambda x, *a, **kw: whole(x, a, kw))
    reg(np.sum, lambda x, *a, **kw: whole(x, a, kw).sum())
    reg(np.any, lambda x, *a, **kw: whole(x, a, kw).any())
    reg(np.all, lambda x, *a, **kw: whole(x, a, kw).all())
    reg(np.min, lambda x, *a, **kw: whole(x, a, kw).min())
    reg(np.max, lambda x, *a, **kw: whole(x, a, kw).max())
    reg(np.asarray, lambda x, *a, **kw: as_vec(x))
    reg(np.dot, lambda x, y: as_vec(x).dot(y))

    old_array = rt.HANDLERS.get(np.array)

    @handler(np.array)
    def array(f, x, *a, **kw):
        if isinstance(x, (ZVec, ZList)):
            if a not in ((), ("d",), (float,)) or kw:
                raise Unsupported("symbolic array of a given type")
            return as_vec(x)
        return old_array(f, x, *a, **kw)

    @handler(np.zeros)
    def zeros(f, n, *a, **kw):
        if isinstance(n, ZI):
            if a or kw:
                raise Unsupported("zeros of a given type")
            T_ = zv.TSeq(zv.TReal)
            return zv.ZSeq(T_, T_.mk(n.t, z3.K(INT, z3.RealVal(0))))
        return f(n, *a, **kw)

    @handler(np.hstack, np.concatenate)
    def hstack(f, x, *a, **kw):
        if isinstance(x, (tuple, list)) and not is_z(x) and \
                any(is_z(p) for p in x):
            if a or kw:
                raise Unsupported("an axis")
            v = as_vec(x[0])
            for p in x[1:]:
                v = join(v, as_vec(p))
            return v
        if is_z(x):
            return concat(x)
        return f(x, *a, **kw)


def join(a, b):
    return ZVec(a.n + b.n, lambda i: z3.If(
        i < a.n, toreal(a.term(i)), toreal(b.term(i - a.n))))


def concat(vs):
    """the vectors of a list, one after the other; ghost["offsets"] names the
    function claimed to give their starts, which is proved by induction"""
    e = E.eng()
    off = e.ghost.get("offsets")
    if off is None:
        raise Unsupported("a concatenation without declared offsets")
    s = idx_source(vs)
    p = e.fresh("p", INT)
    # induction: the p-th vector begins at off(p)
    e.oblige_z("lemma: offsets of the concatenation (base)", off(0) == 0)
    e.oblige_z("lemma: offsets of the concatenation (step)", z3.Implies(
        z3.And(0 <= p, p < s.n), off(p + 1) - off(p) == s.at(p).n))
    arr = e.fresh("concat", ARR)
    out = ZVec(off(s.n), lambda i: z3.Select(arr, i))
    e.memo.setdefault("concats", []).append((out, s, off))
    return out


def concat_at(out, p, k):
    "the instance 'element k of part p' of the definition of a concatenation"
    e = E.eng()
    for o, s, off in e.memo.get("concats", ()):
        if o is out:
            v = s.at(p)
            e.add(z3.Implies(z3.And(0 <= p, p < s.n, 0 <= k, k < v.n),
                             o.at(off(p) + k) == v.term(k)))
            return True
    return False
