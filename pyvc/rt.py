"""Runtime of the instrumented code: every hook falls through to the original
operation unless symbolic data is involved."""
import sys
import builtins
import functools
import collections
import operator
import z3
from . import engine as E
from . import poly as P
from .poly import Poly
from .engine import Control, Unsupported, KSORT, HSORT
from .values import (SUnitStr, SReal, SBool, SHash, SUnits, SQty, HashItem, to_poly,
                     is_num, eq_zero, lt_zero)
from . import dicts as D
from .dicts import PvDict, PvSet, View, SInt, is_symmap
from . import loops as Lp
from .loops import LoopIter, MapSource, GenSource, Source
from . import zv
from . import zarr
from . import text as X

# the gpkit modules under verification (set by loader.load)
GP = None
stubs_enabled = False


# ------------------------------------------------------------------- loops
class NativeIter:
    __slots__ = ("it", "loc")

    def __init__(self, it):
        self.it = iter(it)
        self.loc = ()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def brk(self):
        pass


def loop(locid, it, names):
    if E.ENG is None:
        return NativeIter(it)
    if E.ENG.zmode:
        src = zv.zsource(it)
        if src is not None:
            return zv.ZLoop(locid, src, names)
    return LoopIter(locid, it, names)


class NativeWhile:
    __slots__ = ()
    loc = ()

    def __iter__(self):
        return self

    def __next__(self):
        return None

    def brk(self):
        pass
    exit = brk


def wloop(locid, names):
    "a `while` loop: the condition is tested by the instrumented body"
    e = E.ENG
    if e is not None and e.zmode and locid.split(":")[-1] in getattr(
            e.contract, "loops", {}):
        return zv.ZLoop(locid, None, names, is_while=True)
    return NativeWhile()


class PvGen:
    "a (lazy, single-use) generator expression"
    pv_gen = True

    def __init__(self, it, f):
        self.it, self.f = it, f
        self.started = None

    def __iter__(self):
        if self.started is None:
            self.started = self._run()
        return self.started

    def _run(self):
        for x in iter_native(self.it):
            for v in self.f(x):
                yield v

    def __next__(self):
        return next(iter(self))


def iter_native(it):
    "native iteration; deterministic single pass"
    return iter(it)


def gen(locid, it, f):
    if E.ENG is None or (as_source(it) is None and not (
            E.ENG.zmode and zv.zsource(it) is not None)):
        it = iter(it)   # as Python does: the first iterable is evaluated now
    return PvGen(it, f)


def flat(lists):
    out = []
    for x in lists:
        if isinstance(x, PvGen):
            if E.ENG is not None and as_source(x) is not None:
                raise Unsupported("nested comprehension over a symbolic "
                                  "collection")
            out.extend(x)
        else:
            out.extend(x)
    return out


def as_source(it):
    if E.ENG is None:
        return None
    if isinstance(it, Source):
        return it
    if type(it) is View:
        return MapSource(it) if it.state().base is not None else None
    if is_symmap(it):
        if it._pv_st.base is None:
            return None
        return MapSource(View(it, "keys"))
    if type(it) is PvGen and it.started is None:
        s = as_source(it.it)
        return None if s is None else GenSource(s, it.f)
    mk = getattr(type(it), "pv_source", None)
    if mk is not None:
        return it.pv_source()
    return None


def unpack(val, n):
    if E.ENG is None:
        return val
    h = getattr(type(val), "pv_unpack", None)
    if h is not None:
        return h(val, n)
    src = as_source(val)
    if src is None:
        return val
    st = getattr(src, "st", None)
    if st is None:
        if isinstance(src, GenSource) and isinstance(src.inner, MapSource):
            st = src.inner.st
        else:
            raise Unsupported("unpacking of a symbolic collection")
    if n != 1:
        raise Unsupported("unpacking several elements of a symbolic map")
    cnt = D.getfold(st, "n")
    if not bool(SBool(cnt == 1)):
        raise ValueError("wrong number of values to unpack")
    e = E.eng()
    memo = e.memo.setdefault("singletons", {})
    owner = getattr(src, "owner", None)
    elem = src.generic()
    # the single entry determines all folds
    base = src if isinstance(src, MapSource) else src.inner
    for f in base.folds():
        if f == "n":
            continue
        tot, c = base.total(f), base.contrib(f)
        if D.FOLDS[D.fname(f)].group in ("add", "mul"):
            e.assume_zero(tot - c)
        else:
            e.add(tot == c)
    return (elem,)


# ------------------------------------------------------------------- displays
def mkdict(items):
    named = items and all(type(k) is str for k, _ in items)
    d = zv.ZMap() if E.ENG is not None and E.ENG.zmode and not named \
        else PvDict()
    for k, v in items:
        d[k] = v
    return d


def mkset(items):
    s = zv.ZSet() if E.ENG is not None and E.ENG.zmode else PvSet()
    for x in items:
        s.add(x)
    return s


class PvListBase(list):
    pass


def mklist(lst):
    if E.ENG is not None and E.ENG.zmode and not lst:
        return zv.ZSeq()
    if E.ENG is not None and E.ENG.zmode and lst:
        T = E.ENG.ghost.get("lists")    # a list of such elements can grow
        if T is not None and all(isinstance(x, zv.ZObj)
                                 and x.T is T.elem for x in lst):
            return T.wrap(T.unwrap(lst))
    return lst


def contains(container, item):
    if E.ENG is None:
        return item in container
    m = getattr(type(container), "pv_contains", None)
    if m is not None:
        return container.pv_contains(item)
    if type(container) in (list, tuple):
        for x in container:
            if x is item or truth(x == item):
                return True
        return False
    if isinstance(container, (dict, set)) and not isinstance(
            container, (PvDict, PvSet)) and D.symbolic_key(item):
        for k in container:
            if truth(D.k_equal(k, item)):
                return True
        return False
    return item in container


def truth(x):
    if x is NotImplemented:
        return False
    return bool(x)


def fmt(s, args):
    if E.ENG is None:
        return s % args
    if E.ENG.ghost.get("bags") and X.mentions(
            args if isinstance(args, tuple) else (args,)):
        return X.percent(s, args)
    try:
        return s % args
    except Control:
        return s
    except TypeError:
        if _mentions_sym(args):
            return s
        raise


def fstr(*parts):
    return X.fstring(parts)


def _mentions_sym(args):
    args = args if isinstance(args, tuple) else (args,)
    return any(_is_sym(a) for a in args)


def _is_sym(a):
    return (type(a) in (SReal, SBool, SHash, SQty, SUnits, SInt, View)
            or is_symmap(a) or D.is_symkey(a) or type(a) is PvGen
            or getattr(type(a), "pv_symbolic", False))


# ------------------------------------------------------------------- frames
def attrset(obj, name):
    e = E.ENG
    if e is None:
        return
    hook = e.ghost.get("attrset")
    if hook is not None:
        hook(obj, name)
    if e.zmode and e.iterstack:
        for root, o in e.ghost.get("roots", {}).items():
            if o is obj:
                for fr in e.iterstack:
                    fr.note_attr(root, name)


def boolop(is_or, f, *fs):
    "`or`/`and` of effect-free operands: one truth value, without forking"
    v = f()
    if not fs:
        return v
    if type(v) is not SBool or not E.ENG.zmode:
        if (truth(v) if is_or else not truth(v)):
            return v
        return boolop(is_or, *fs)
    c = z3.simplify(v.c)
    if z3.is_true(c) or z3.is_false(c):
        if z3.is_true(c) == is_or:
            return v
        return boolop(is_or, *fs)
    try:
        outs = zv.under(z3.Not(c) if is_or else c,
                        lambda: zv.truth_term(boolop(is_or, *fs)))
    except Unsupported:
        if bool(v) == is_or:
            return v
        return boolop(is_or, *fs)
    if is_or:
        return SBool(z3.simplify(z3.Or(c, *[z3.And(k, t) for k, t in outs])))
    return SBool(z3.simplify(z3.And(c, z3.Or(*[z3.And(k, t)
                                               for k, t in outs]))))


# ------------------------------------------------------------------- calls
HANDLERS = {}


def handler(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco


def call(f, *args, **kw):
    if E.ENG is None:
        return f(*args, **kw)
    try:
        h = HANDLERS.get(f) if type(f) is not zv.ZObj else None
    except TypeError:
        h = None
    if h is not None:
        return h(f, *args, **kw)
    if E.ENG.zmode and type(f) is type("".join) and f.__name__ == "join" \
            and type(f.__self__) is str:
        if zs(args[0]):
            return zv.TText.new("joined")
        return X.joined(f.__self__, args[0])
    return f(*args, **kw)


def sh():
    from . import shadow
    return shadow.mod()


@handler(len)
def _len(f, x):
    if E.ENG is not None and E.ENG.zmode and \
            type(x).__module__.startswith("gpkit."):
        n = type(x).__len__(x)     # as len() does, but for a symbolic number
        return n if type(n) is zv.ZI else len(x)
    m = getattr(type(x), "pv_len", None)
    if m is not None:
        if isinstance(x, (PvDict, PvSet)) and not is_symmap(x):
            return len(x)
        return m(x)
    return len(x)


@handler(str, repr)
def _str(f, *a):
    if len(a) == 1 and type(a[0]) is zv.ZObj and "__str__" in a[0].T.attrs:
        return a[0].T.attrs["__str__"](a[0])
    return X.text_of(a[0], f) if len(a) == 1 else f(*a)


@handler(hash)
def _hash(f, x):
    if E.ENG.zmode:
        return X.hash_of(x)
    return sym_hash(x)


def sym_hash(x):
    if type(x) is tuple and len(x) == 2 and (
            D.is_symkey(x[0]) or type(x[1]) is SReal):
        if is_num(x[1]):
            return SHash(HashItem(D.kterm(x[0]), E.eng().z(to_poly(x[1]))))
        raise Unsupported("hash of a symbolic tuple")
    if type(x) is tuple and len(x) == 2 and is_num(x[1]) and \
            _is_varkey(x[0]) and "hx" in E.eng().track.get("hv", ()):
        return SHash(HashItem(D.kterm(x[0]), E.eng().z(to_poly(x[1]))))
    if _is_sym(x):
        m = getattr(type(x), "__hash__", None)
        if m is None or D.is_symkey(x):
            raise Unsupported("hash of %s" % type(x).__name__)
    return hash(x)


def _is_varkey(k):
    return GP is not None and isinstance(k, GP.VarKey)


@handler(float)
def _float(f, *a):
    if not a:
        return 0.0
    x, = a
    if type(x) is SReal:
        return x
    if type(x) is SInt:
        raise Unsupported("float of a size")
    if type(x) is SQty:
        return x.pv_float()
    if isinstance(x, zv.ZNum):
        return zv.ZR(zv.toreal(x.t))
    return float(x)


@handler(int)
def _int(f, *a):
    if a and type(a[0]) is SReal:
        return int(a[0])
    if len(a) == 1 and type(a[0]) is zv.ZI:
        return a[0]
    return int(*a)


@handler(bool)
def _bool(f, *a):
    return bool(*a)


@handler(print)
def _print(f, *a, **kw):
    if E.ENG is None:
        f(*a, **kw)
    elif "print" in E.ENG.ghost:
        E.ENG.ghost["print"].append(" ".join(str(x) for x in a))


def zs(it):
    return E.ENG is not None and E.ENG.zmode and zv.zsource(it) is not None


@handler(any)
def _any(f, it):
    if zs(it):
        return zv.z_any(it)
    return sh().any_(it)


@handler(all)
def _all(f, it):
    if zs(it):
        return zv.z_all(it)
    return sh().all_(it)


@handler(sum)
def _sum(f, it, start=0):
    if zs(it):
        return zarr.z_sum(it, start)
    return sh().sum_(it, start)


@handler(functools.reduce)
def _reduce(f, g, it, *init):
    if not init:
        return functools.reduce(g, it)
    return sh().reduce_(g, it, init[0])


@handler(map)
def _map(f, g, it, *more):
    if more:
        return map(g, it, *more)
    if hasattr(type(it), "pv_map"):
        return it.pv_map(g)
    return PvGen(it, lambda x: [call(g, x)])


@handler(min)
def _min(f, *a, **kw):
    if len(a) == 1 and not kw and zs(a[0]):
        return zv.z_extreme(a[0], False)
    if len(a) > 1 and not kw and any(type(x) is SReal for x in a):
        m = a[0]
        for x in a[1:]:
            if truth(x < m):
                m = x
        return m
    return min(*a, **kw)


@handler(max)
def _max(f, *a, **kw):
    if len(a) == 1 and not kw and zs(a[0]):
        return zv.z_extreme(a[0], True)
    if len(a) > 1 and not kw and any(type(x) is SReal for x in a):
        m = a[0]
        for x in a[1:]:
            if truth(x > m):
                m = x
        return m
    return max(*a, **kw)


@handler(dict)
def _dict(f, *a, **kw):
    if E.ENG is not None and E.ENG.zmode and (a or not kw):
        d = zv.ZMap()
        d.update(*a, **kw)
        return d
    return PvDict(*a, **kw)


@handler(frozenset)
def _frozenset(f, *a):
    if E.ENG is not None and E.ENG.zmode:
        s = zv.ZSet()
        if a:
            s.update(*a)
        return s
    return f(*a)


@handler(enumerate)
def _enumerate(f, it, start=0):
    if zs(it):
        s = zv.idx_source(it)
        out = zv.IdxSource(s.n, lambda i: (zv.ZI(i + start), s.at(i)),
                           s.owner)
        out.order = s.order
        return out
    return f(it, start)


class Star:
    "the elements of a symbolic collection, as arguments"
    pv_symbolic = True

    def __init__(self, src):
        self.src = src


def cause(x):
    "raise ... from x"
    if E.ENG is not None and not isinstance(x, BaseException) and not (
            isinstance(x, type) and issubclass(x, BaseException)):
        return None
    return x


def star(x):
    "f(*x)"
    if E.ENG is not None and E.ENG.zmode and zs(x):
        src = zv.idx_source(x)
        if src is not None:
            return (Star(src),)
    return x


def unzipped(src):
    "the columns of a collection of tuples"
    e = E.eng()
    if not e.entails(src.n > 0):
        raise Unsupported("zip(*...) of what may be empty")
    wide = src.at(z3.IntVal(0))
    if not isinstance(wide, tuple):
        raise Unsupported("zip(*...) of other than tuples")
    out = []
    for c in range(len(wide)):
        col = zv.IdxSource(src.n, lambda i, c=c: src.at(i)[c], None)
        col.order = src.order
        out.append(col)
    return tuple(out)


def sort(src):
    "some other order of the same elements"
    e = E.eng()
    if src.order is None:
        raise Unsupported("sorting a symbolic collection")
    keyat, pos, dom, kT = src.order
    n2 = e.fresh("n", zv.INT)
    at2 = e.fresh("sorted", z3.ArraySort(zv.INT, kT.sort))
    pos2 = e.fresh("place", z3.ArraySort(kT.sort, zv.INT))
    for f in zv.order_axioms(n2, at2, pos2, dom, kT.sort):
        e.add(f)
    e.add(n2 == src.n)

    def sub(v, i, k, j):
        if isinstance(v, tuple):
            return tuple(sub(x, i, k, j) for x in v)
        T_ = zv.type_of(v)
        t = z3.substitute(T_.unwrap(v), (z3.simplify(keyat(i)), k))
        return T_.wrap(z3.simplify(z3.substitute(t, (i, j))))

    def at(j):
        i = z3.FreshConst(zv.INT, "i")
        k = z3.simplify(at2[j])
        return sub(src.at(i), i, k, pos(k))
    out = zv.IdxSource(n2, at, None)
    out.order = (lambda i: at2[i], lambda k: pos2[k], dom, kT)
    return out


@handler(zip)
def _zip(f, *its):
    if len(its) == 1 and type(its[0]) is Star:
        return unzipped(its[0].src)
    if its and any(zs(i) for i in its):
        ss = [zv.IdxSource(z3.IntVal(0), lambda i: None) if zv.empty_z(i)
              else zv.idx_source(i) for i in its]
        if any(s is None for s in ss):
            raise Unsupported("zip of symbolic and native collections")
        n = ss[0].n
        for s in ss[1:]:
            n = z3.simplify(z3.If(s.n < n, s.n, n))
        out = zv.IdxSource(n, lambda i: tuple(s.at(i) for s in ss),
                           ss[0].owner)
        if n.get_id() == ss[0].n.get_id() or E.eng().entails(n == ss[0].n):
            out.n, out.order = ss[0].n, ss[0].order
        return out
    return f(*its)


@handler(range)
def _range(f, *a):
    if any(type(x) is zv.ZI for x in a):
        lo, hi = (z3.IntVal(0), zv.num_term(a[0])) if len(a) == 1 else \
            (zv.num_term(a[0]), zv.num_term(a[1]))
        if len(a) > 2:
            raise Unsupported("range with a step")
        return zv.IdxSource(z3.simplify(z3.If(hi > lo, hi - lo, 0)),
                            lambda i: zv.ZI(lo + i))
    return f(*a)


@handler(isinstance)
def _isinstance(f, x, cls):
    if issubclass(type(x), zv.ZObj):
        h = E.eng().ghost.get("isinstance")
        r = h(x, cls) if h is not None else None
        if r is not None:
            return r
        return any(x.pv_isinstance(c) for c in (
            cls if isinstance(cls, tuple) else (cls,)))
    return f(x, cls)


@handler(hasattr)
def _hasattr(f, x, name):
    if type(x) is zv.ZObj and "__hasattr__" in x.T.attrs:
        return x.T.attrs["__hasattr__"](x)(name)
    return f(x, name)


@handler(callable)
def _callable(f, x):
    if type(x) is zv.ZObj and "__hasattr__" in x.T.attrs:
        return x.T.attrs["__hasattr__"](x)("__call__")
    return f(x)


@handler(set)
def _set(f, *a):
    if E.ENG is not None and E.ENG.zmode:
        if E.ENG.ghost.get("bags"):
            return X.Bag(*a)
        s = zv.ZSet()
        if a:
            if type(a[0]) is zv.ZSet:
                return a[0].copy()
            s.update(*a)
        return s
    if E.ENG is not None and E.ENG.ghost.get("opaque_sets"):
        return GrowSet(*a)
    return PvSet(*a)


class SymSeq(list):
    "list(view): the elements of a symbolic collection, in its order"
    pv_symbolic = True

    def __init__(self, src_factory, lenz=None):
        list.__init__(self)
        self.factory = src_factory
        self.lenz = lenz

    def pv_source(self):
        return self.factory()

    def pv_len(self):
        if self.lenz is None:
            raise Unsupported("len of a symbolic list")
        return SInt(self.lenz)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic list")

    def __len__(self):
        raise Unsupported("native len of a symbolic list")

    def __getitem__(self, i):
        raise Unsupported("indexing of a symbolic list")

    def __bool__(self):
        if self.lenz is None:
            raise Unsupported("truth of a symbolic list")
        return not bool(SBool(self.lenz == 0))

    def append(self, x):
        raise Unsupported("append to a symbolic list")
    extend = insert = remove = pop = count = append
    __hash__ = None

    def index(self, x):
        "the (unknown) position of a key"
        s = self.factory()
        if not isinstance(s, MapSource) or s.what != "keys":
            raise Unsupported("position in a symbolic list")
        if not D.lookup(s.st, x)[0]:
            raise ValueError("not in list")
        return SIndex(s.st, x)

    def __contains__(self, x):
        s = self.factory()
        if not isinstance(s, MapSource) or s.what != "keys":
            raise Unsupported("membership in a symbolic list")
        return D.lookup(s.st, x)[0]


class SymArr:
    "a numpy array of the elements of a symbolic collection"
    pv_symbolic = True
    __array_priority__ = 1e8

    def __init__(self, seq):
        self.seq = seq

    def pv_len(self):
        return self.seq.pv_len()

    def __mul__(self, o):
        if isinstance(o, SQty):
            return SymArr(SymSeq(lambda: None, self.seq.lenz))
        raise Unsupported("arithmetic on a symbolic array")
    __rmul__ = __mul__

    def __array__(self, *a, **kw):
        raise Unsupported("native use of a symbolic array")


class SIndex:
    "the position of a key among the keys of a map"
    pv_symbolic = True

    def __init__(self, st, key):
        self.st, self.key = st, key
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("comparison of positions")


@handler(list, sorted, tuple)
def _list(f, *a, **kw):
    if not a:
        if E.ENG is not None and E.ENG.zmode and f is list:
            return zv.ZSeq()
        return f()
    if zs(a[0]):
        if f is sorted:
            src = zv.idx_source(a[0])
            if src is None:
                raise Unsupported("sorting a symbolic collection")
            return sort(src)
        out = zv.ZSeq()
        kept = zv.filtered(zv.zsource(a[0]))
        kept = a[0] if kept is None else kept
        src = zv.idx_source(kept)
        out.extend(kept if src is None else src)
        if src is not None and src.order is not None:
            out.listed = (out.term, src.order, src.at)
        out.tup = f is tuple
        out.mut = f is list
        return out
    src = as_source(a[0])
    if src is None:
        if isinstance(a[0], PvGen):
            return f(iter(a[0]), **kw)
        return f(*a, **kw)
    if isinstance(src, MapSource):
        st, what, owner = src.st, src.what, src.owner

        def factory():
            s = MapSource(st, what, owner)
            return s
        return SymSeq(factory, D.getfold(st, "n"))
    if isinstance(a[0], PvGen):
        return sh().listcomp(a[0])
    raise Unsupported("list() of a symbolic collection")


def listcomp(g):
    if zs(g):
        return zv.listcomp(g)
    if E.ENG is None or as_source(g) is None:
        return list(g)
    return sh().listcomp(g)


def setcomp(g):
    if E.ENG is None:
        return set(g)
    if zs(g):
        return zv.setcomp(g)
    return sh().setcomp(g)


def dictcomp(g):
    if E.ENG is None:
        return PvDict(g)
    if zs(g):
        return zv.dictcomp(g)
    return sh().dictcomp(g)


def fill_dict(d, src):
    sh().dict_fill(d, src)


def dict_update(d, src):
    if is_symmap(src) and D.state_of(src).base is not None:
        if not d._pv_sym() and dict.__len__(d) == 0 and src.pv_kind == "g":
            d.__dict__["_pv_st"] = src._pv_st.copy()
            return
        sh().dict_fill(d, src.items())
    elif hasattr(src, "keys"):
        for k in src.keys():
            d[k] = src[k]
    else:
        sh().dict_fill(d, src)


def set_update(s, it):
    src = as_source(it)
    if src is None:
        for x in it:
            s.add(x)
        return
    sh().set_fill(s, it)


for _m in ("__contains__", "__getitem__", "__setitem__", "__delitem__", "get",
           "keys", "values", "items", "update", "pop", "__len__", "__iter__",
           "__eq__", "__ne__"):
    def _mk(m):
        def h(f, self, *a, **kw):
            if isinstance(self, zv.ZMap):
                raw = {"__contains__": "pv_contains",
                       "__len__": "pv_len"}.get(m, m)
                return getattr(zv.ZMap, raw)(self, *a, **kw)
            if is_symmap(self) or (isinstance(self, PvDict) and a and
                                   D.symbolic_key(a[0])):
                return getattr(PvDict, m)(self, *a, **kw)
            return f(self, *a, **kw)
        return h
    HANDLERS[getattr(dict, _m)] = _mk(_m)


def _dict_copy_init(f, self, *a, **kw):
    return PvDict.__init__(self, *a, **kw) if isinstance(self, PvDict) \
        else f(self, *a, **kw)


HANDLERS[dict.__init__] = _dict_copy_init


class PvDefaultDict(PvDict):
    def __init__(self, default=None, *a, **kw):
        self.__dict__["default_factory"] = default
        PvDict.__init__(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self[key] = call(self.default_factory)
        return v

    def __getitem__(self, key):
        if not self._pv_needs(key) and not dict.__contains__(self, key):
            return self.__missing__(key)
        return PvDict.__getitem__(self, key)


class BagDict(PvDefaultDict):
    """defaultdict(set) under symbolic keys: which elements a key holds is
    forgotten, only their shape (and class invariants) is kept"""
    def __init__(self, *a, **kw):
        PvDefaultDict.__init__(self, *a, **kw)
        self.__dict__["bagged"] = False
        e = E.ENG
        if e is not None:
            n = e.memo["nbags"] = e.memo.get("nbags", 0) + 1
            self.__dict__["shapes"] = e.bagshapes.setdefault(n, [])

    def _bag(self, key):
        return E.ENG is not None and (self.bagged or D.symbolic_key(key))

    def __getitem__(self, key):
        if not self._bag(key):
            return PvDefaultDict.__getitem__(self, key)
        self.to_bag()
        return Bag(self, key)

    def to_bag(self):
        if not self.bagged:
            if dict.__len__(self):
                raise Unsupported("a native defaultdict gets symbolic keys")
            self.__dict__["bagged"] = True

    def pv_havoc(self, loopiter, final):
        self.to_bag()

    def pv_source(self):
        return BagKeys(self) if self.bagged else None

    def __setitem__(self, key, val):
        if self._bag(key):
            raise Unsupported("assignment into a bag")
        PvDefaultDict.__setitem__(self, key, val)


def bag_shape(x):
    if type(x) is tuple:
        return ("t",) + tuple(bag_shape(i) for i in x)
    if isinstance(x, dict) and D.kind_of(x) == "hv":
        D.check_key_hash(x)     # hashed when added
        e = E.eng()
        for o in x.__dict__.get("_pv_owners", ()):
            if e.frame_start is not None and o._pv_serial < e.frame_start \
                    and o._pv_serial not in e.frame_allowed:
                return "hv of an argument"
        return "hv"
    if D.is_symkey(x):
        return "key"
    raise Unsupported("a bag of %s" % type(x).__name__)


def bag_elem(sh):
    if type(sh) is tuple:
        return tuple(bag_elem(i) for i in sh[1:])
    if sh == "key":
        return new_key("bagkey")
    hv = new_hv("bag", hashed=True)
    if sh != "hv":
        hv.__dict__["pv_frozen"] = sh
    return hv


class GrowSet:
    "a set whose content is not tracked (it can only grow)"
    pv_symbolic = True

    def __init__(self, it=()):
        self._pv_eng = E.eng()
        self._pv_serial = E.eng().register(self)
        self.update(it)

    def add(self, x):
        E.eng().on_mutate(self, "add")

    def update(self, *its):
        for it in its:
            if it is not self:
                E.eng().on_mutate(self, "update")

    def pv_havoc(self, loopiter, final):
        pass


class Bag:
    pv_symbolic = True

    def __init__(self, owner, key):
        self.owner, self.key = owner, key

    def add(self, x):
        e = E.eng()
        e.on_mutate(self.owner, "add")
        sh = bag_shape(x)
        if sh not in self.owner.shapes:
            self.owner.shapes.append(sh)
            e.dirty = True

    def pv_source(self):
        return BagElems(self)

    def __iter__(self):
        raise Unsupported("native iteration over a bag")


class BagKeys(Source):
    def __init__(self, bag):
        self.bag = bag

    def generic(self):
        if not self.bag.shapes:
            raise E.Infeasible()
        key = new_key("vloc")
        hook = E.eng().ghost.get("bag_key")
        if hook is not None:
            hook(key)
        return key


class BagElems(Source):
    def __init__(self, bag):
        self.bag = bag

    def generic(self):
        e = E.eng()
        shapes = self.bag.owner.shapes
        if not shapes:
            raise E.Infeasible()
        x = bag_elem(shapes[e.choose(len(shapes), "shape")])
        hook = e.ghost.get("bag_elem")
        if hook is not None:
            hook(self.bag.key, x)
        return x


@handler(collections.defaultdict)
def _defaultdict(f, *a, **kw):
    if E.ENG is not None and E.ENG.zmode:
        if len(a) != 1 or kw:
            raise Unsupported("defaultdict with content")
        return zv.ZMap(default=a[0])
    if E.ENG is not None and a and a[0] is set:
        return BagDict(*a, **kw)
    return PvDefaultDict(*a, **kw)


def _install_numpy():
    import numpy as np

    @handler(np.array)
    def _array(f, x, *a, **kw):
        if type(x) is zv.ZSeq:
            # a vector of the same numbers (machine integers as mathematical)
            dt = a[0] if a else kw.pop("dtype", None)
            if a[1:] or kw:
                raise Unsupported("symbolic array of a given type")
            if dt not in (None, "int32", "int64", "i", "l", "d", float, int,
                          np.int32, np.int64, np.intp, np.float64):
                fits(x, dt)
            return x.copy()
        if type(x) is SymSeq:
            if a or kw:
                raise Unsupported("symbolic array of a given type")
            return SymArr(x)
        return f(x, *a, **kw)

    def fits(x, dt):
        "narrow machine integers: every entry must be representable"
        try:
            info = np.iinfo(dt)
        except (TypeError, ValueError):
            raise Unsupported("symbolic array of a given type")
        T_ = x.T
        if T_ is None or T_.elem is not zv.TInt:
            raise Unsupported("symbolic array of a given type")
        i = z3.FreshConst(z3.IntSort(), "i")
        t = z3.Select(T_.arr(x.term), i)
        E.eng().oblige_z("entries fit in %s" % np.dtype(dt).name, z3.Implies(
            z3.And(0 <= i, i < T_.len(x.term)),
            z3.And(int(info.min) <= t, t <= int(info.max))))

    @handler(np.sign)
    def _sign(f, x):
        if type(x) is SReal:
            if truth(x > 0):
                return 1.0
            if truth(x < 0):
                return -1.0
            return 0.0
        return f(x)

    @handler(np.isnan)
    def _isnan(f, x):
        if type(x) is SReal:
            return False
        if type(x) in (SQty,):
            return False
        return f(x)

    @handler(np.log)
    def _log(f, x):
        if type(x) is SReal:
            e = E.eng()
            p = e.norm(x.p)
            if not p.sign_known_pos():
                if truth(lt_zero(p, False)):
                    raise Unsupported("log of a nonpositive number")
                p = e.norm(p)
            return SReal(P.mk_log(p))
        return f(x)

    @handler(np.exp)
    def _exp(f, x):
        if type(x) is SReal:
            return SReal(P.mk_exp(E.eng().norm(x.p)))
        return f(x)


_install_numpy()
zarr.install(handler)


# ------------------------------------------------------------------- symbols
_symkey_cls = None


def symkey_class():
    "a subclass of the real VarKey whose identity is an SMT constant"
    global _symkey_cls
    if _symkey_cls is None:
        class SymVarKey(GP.VarKey):
            pv_symbolic = False

            def __init__(self, term):     # pylint: disable=super-init-not-called
                self.__dict__["pv_kterm"] = term

            def __eq__(self, other):
                if self is other:
                    return True
                if isinstance(other, GP.VarKey):
                    return D.k_equal(self, other)
                if hasattr(other, "key") and isinstance(other.key, GP.VarKey):
                    return D.k_equal(self, other.key)
                return False

            def __ne__(self, other):
                r = self.__eq__(other)
                return (not r) if isinstance(r, bool) else ~r

            def __hash__(self):
                raise Unsupported("native hash of a symbolic variable key")

            def __repr__(self):
                return "<%s>" % self.pv_kterm
            __str__ = str_without = latex = \
                lambda self, *a, **k: "<%s>" % self.pv_kterm

            def __getattr__(self, name):
                e = E.ENG
                if name.startswith("_pv") or name == "pv_kterm" or \
                        name.startswith("__"):
                    raise AttributeError(name)
                if name == "key":
                    return self
                if name == "units":
                    return None
                tab = e.ghost.get("keyattrs") if e else None
                if tab is not None:
                    r = tab(self, name)
                    if r is not None:
                        return r[0]
                if name in ("shape", "idx", "veckey", "value"):
                    raise AttributeError(name)
                raise AttributeError(name)

            @property
            def units(self):
                e = E.ENG
                hook = e.ghost.get("keyunits") if e else None
                if hook is not None:
                    return hook(self)
                return self.__dict__.get("pv_units", None)
        _symkey_cls = SymVarKey
    return _symkey_cls


def new_key(base="vk"):
    e = E.eng()
    return symkey_class()(e.fresh(base, KSORT))


def new_hv(tag="hv", canonical=True, hashed=None):
    "a symbolic HashVector of arbitrary content"
    e = E.eng()
    hv = GP.HashVector()
    st = D.new_base_state(tag, "hv")
    if canonical and "zc" in st.folds:
        st.folds["zc"] = z3.IntVal(0)
    st.base.folds0 = dict(st.folds)
    hv.__dict__["_pv_st"] = st
    if "hx" in st.folds:
        if hashed:
            hv.__dict__["hashvalue"] = SHash(st.folds["hx"])
        elif hashed is False:
            hv.__dict__["hashvalue"] = None
        elif e.choose(2, "hash cached?"):
            hv.__dict__["hashvalue"] = SHash(st.folds["hx"])
    return hv


def new_nm(tag="nm", sign=None, zeros=False, cls=None):
    """a symbolic NomialMap of arbitrary content.
    sign='pos': all coefficients positive."""
    e = E.eng()
    nm = (cls or GP.NomialMap)()
    st = D.new_base_state(tag, "nm")
    if not zeros and "zc" in st.folds:
        st.folds["zc"] = z3.IntVal(0)
    if sign == "pos" and "npos" in st.folds:
        st.folds["npos"] = z3.IntVal(0)
    for f, (fp, fn) in D.PARTS.items():
        if sign == "pos" and fn in st.folds:
            st.folds[fn] = Poly({})
        if fp in st.folds and fn in st.folds and f in st.folds:
            st.folds[f] = st.folds[fp] - st.folds[fn]
    st.base.folds0 = dict(st.folds)
    nm.__dict__["_pv_st"] = st
    return nm


# ------------------------------------------------------------------- units
def QuantityClass():
    return GP.Quantity


def dimensionality_error():
    return GP.DimensionalityError("symbolic", "symbolic")


def new_units(tag="u"):
    e = E.eng()
    return SUnits(e.fresh_real("scale_" + tag, pos=True),
                  e.fresh_real("dim_" + tag))


def new_unit_qty(tag="u", dimensional=True):
    """the value of `hmap.units`: None or a unit quantity"""
    e = E.eng()
    u = new_units(tag)
    return SQty(Poly.const(1), u)


def pint_to_sunits(u):
    "concrete pint unit -> scale and dimension (dimensionless only)"
    if isinstance(u, SUnits):
        return u
    if isinstance(u, SQty):
        return u.units
    q = u if hasattr(u, "to_base_units") and hasattr(u, "magnitude") else 1*u
    b = q.to_base_units()
    if b.dimensionless:
        return SUnits(to_poly(float(b.magnitude)), Poly.const(0))
    raise Unsupported("mixing concrete dimensional units with symbolic ones")


def pint_to_sqty(o):
    if hasattr(o, "magnitude") and hasattr(o, "units"):
        return SQty(to_poly(o.magnitude), pint_to_sunits(1*o.units))
    if hasattr(o, "dimensionality"):    # a Unit
        return SQty(Poly.const(1), pint_to_sunits(o))
    if isinstance(o, SUnits):
        return SQty(Poly.const(1), o)
    return None


def units_of(o):
    if isinstance(o, str):
        if o in ("dimensionless", "", "-"):
            return SUnits(Poly.const(1), Poly.const(0))
        raise Unsupported("named unit %r with symbolic units" % o)
    if o is None:
        raise TypeError("units None")
    return pint_to_sunits(o)


def conv_any(u):
    "scale and dimension of anything that denotes a unit"
    if isinstance(u, SUnits):
        return u
    if isinstance(u, SQty):
        return SUnits(u.m*u.units.scale, u.units.dim)
    if isinstance(u, SUnitStr):
        return u.units_
    return units_of(u)


class SId:
    "the address of an object: says nothing about the object later on"
    pv_symbolic = True

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        raise Unsupported("comparison of object addresses")
    __hash__ = None


@handler(id)
def _id(f, x):
    if _is_sym(x):
        return SId(x)
    return id(x)


def _gen():
    return E.ENG.ghost.get("generator") if E.ENG is not None \
        and E.ENG.zmode else None


def gen_new():
    g = _gen()
    return [] if g is None else g.new()


def gen_yield(out, v):
    g = _gen()
    return out.append(v) if g is None else g.one(out, v)


def gen_from(out, it):
    g = _gen()
    return out.extend(it) if g is None else g.all(out, it)


def gen_done(out):
    return iter(out) if _gen() is None else out


def late_handlers(ns):
    "handlers of classes known only after loading"
    @handler(ns.HashVector)
    def _hashvector(f, *a, **kw):
        if E.ENG is not None and E.ENG.zmode and not a:
            return zv.ZMap()
        return f(*a, **kw)

    @handler(ns.Quantity)
    def _quantity(f, mag, units=None):
        if isinstance(units, (SUnits, SQty, SUnitStr)) or (
                units is not None and type(mag) is SReal):
            u = conv_any(units)
            return SQty(to_poly(mag), SUnits(u.scale, u.dim))
        return f(mag, units)
