"""Contracts of the dictionaries of lists that hold many solutions (C22)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import (TObj, TMap, TSeq, ZMap, ZObj, ZSeq, ZI, INT, BOOL)
from .contracts import ZContract, register
from .values import SBool

SC = "gpkit.small_classes:"


def yes(f):
    return bool(SBool(f))


class _TItem(TObj):
    "what a dictionary holds: dictionaries, lists, arrays, numbers, anything"
    def wrap(self, t):
        return ZItem(self, t)

    def unwrap(self, v):
        if isinstance(v, ZItem):
            return v.t
        if type(v) is list:
            els = [self.unwrap(x) for x in v]

            def at(i):
                out = els[0] if els else z3.Const("nothing", self.sort)
                for j, x in enumerate(els[1:], 1):
                    out = z3.If(i == j, x, out)
                return out
            return new_list(z3.IntVal(len(els)), at)
        if isinstance(v, ZSeq):
            if v.T is None:
                return new_list(z3.IntVal(0), lambda i: z3.Const(
                    "nothing", self.sort))
            if v.T.elem is self:
                n, arr = v.n, v.arr
                return new_list(n, lambda i: arr[i])
        raise Unsupported("an item was expected, got %r" % (v,))


class ZItem(ZObj):
    "an item; changes in place reach the dictionary it was read from"
    pv_origin = None

    @property
    def __class__(self):
        return LikeClass(self)

    def put(self, t):
        object.__setattr__(self, "t", t)
        if self.pv_origin is not None:
            m, k = self.pv_origin
            m._poke(k, t)

    def append(self, x):
        self.put(grown(self.t, TItem.unwrap(x)))

    def __add__(self, o):
        if type(o) is list and len(o) == 1:
            return TItem.wrap(grown(self.t, TItem.unwrap(o[0])))
        return NotImplemented

    def __getitem__(self, i):
        t = zv.num_term(i)
        if not yes(HasAt(self.t, t)):
            raise IndexError("not indexable") if yes(Short(self.t)) \
                else TypeError("not indexable")
        return TItem.wrap(At(self.t, t))

    def pv_len(self):
        return ZI(Len(self.t))

    def pv_unpack(self, n):
        if not yes(Len(self.t) == n):
            raise ValueError("unpacking of %s items" % n)
        return tuple(TItem.wrap(At(self.t, z3.IntVal(i))) for i in range(n))

    def pv_isinstance(self, cls):
        if cls is dict:
            return SBool(IsDict(self.t))
        if cls is list:
            return SBool(IsList(self.t))
        raise Unsupported("a test of the kind of an item: %r" % (cls,))


class LikeClass:
    "the class of an item: called, it makes an empty dictionary of that class"
    def __init__(self, of):
        self.of = of

    def __call__(self, *a):
        if a:
            raise Unsupported("a dictionary made from another")
        E.eng().oblige_z("an empty dictionary is made for a dictionary",
                         IsDict(self.of.t))
        return TItem.wrap(EmptyLike(self.of.t))


TItem = _TItem("ItemT")
S = TItem.sort
TKeyD = TObj("DictKeyT")
M = TMap(TKeyD, TItem)
IsDict, IsList, Short, Ragged, Truthy = (
    z3.Function(n, S, BOOL) for n in (
        "is_dict", "is_list", "is_short", "is_ragged", "true_if_tested"))
TItem.attrs["__bool__"] = lambda v: SBool(Truthy(v.t))
Len = z3.Function("len_of", S, INT)
At = z3.Function("item_at", S, INT, S)
HasAt = z3.Function("has_index", S, INT, BOOL)
EmptyLike = z3.Function("empty_of_class", S, S)
Blank, ArrOf = (z3.Function(n, S, S) for n in ("blank_for", "array_of"))
# what the recursive calls make of dictionaries within dictionaries
Enl, Enr = (z3.Function(n, S, S) for n in ("enlisted", "arrays_of"))
App = z3.Function("appended", S, S, INT, S)
Idx = z3.Function("indexed", INT, S, S)


def new_list(n, at):
    e = E.eng()
    t = e.fresh("list", S)
    i = z3.FreshConst(INT, "i")
    e.add(z3.And(IsList(t), z3.Not(IsDict(t)), Len(t) == n))
    e.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), At(t, i) == at(i)),
                    patterns=[At(t, i)]))
    return t


def grown(t, x):
    E.eng().oblige_z("appended to a list", IsList(t))
    n = Len(t)
    return new_list(n + 1, lambda i: z3.If(i == n, x, At(t, i)))


def axioms(e):
    s = z3.FreshConst(S, "s")
    e.add(z3.ForAll([s], z3.And(Len(s) >= 0, z3.Not(z3.And(
        IsDict(s), IsList(s)))), patterns=[Len(s)]))
    i = z3.FreshConst(INT, "i")
    e.add(z3.ForAll([s, i], z3.Implies(z3.And(
        IsList(s), 0 <= i), HasAt(s, i) == (i < Len(s))),
        patterns=[HasAt(s, i)]))
    e.add(z3.ForAll([s], IsDict(EmptyLike(s)), patterns=[EmptyLike(s)]))


class Np:
    nan = float("nan")

    @staticmethod
    def array(x, dtype=None):
        if dtype is None and yes(Ragged(x.t)):
            raise ValueError("ragged")
        return TItem.wrap(ArrOf(x.t))

    def __getattr__(self, name):
        raise Unsupported("numpy's %s of an unknown item" % name)


def has(m, k):
    return z3.BoolVal(False) if m.T is None else z3.Select(
        M.dom(m.term), k)


def val(m, k):
    return z3.Const("nothing", S) if m.T is None else z3.Select(
        M.vals(m.term), k)


class _D(ZContract):
    props = ("C22",)
    assumes = ["dictionaries of lists: what a dictionary holds under a key is"
               " what was stored there (C15)"]

    def common(self, e):
        axioms(e)
        e.ghost["tuples"] = ()
        self.k0 = e.fresh("k0", TKeyD.sort)

    def setup(self, e):
        import gpkit.small_classes as sc
        old = sc.np
        sc.np = Np()

        def undo():
            sc.np = old
        return undo

    def invoke(self, *args, **kw):
        E.eng().top_calls += 1
        return self.real(*args, **kw)

    def applies(self, *args):
        return all(isinstance(a, ZItem) or isinstance(a, (int, ZI))
                   for a in args)

    def requires(self, *args):
        return [("z", "called for dictionaries", z3.And(
            *[IsDict(a.t) for a in args if isinstance(a, ZItem)]))]

    def keys_so_far(self, L):
        return z3.ForAll([self.q], z3.Implies(
            has(L.loc["d_out"], self.q), L.done[self.q]))

    q = z3.Const("q_key", TKeyD.sort)


@register
class Blank_(_D):
    "an empty list for a list, not-a-numbers of the same shape otherwise"
    name = SC + "_blank"

    def cases(self, e):
        self.common(e)
        self.made = []
        return (TItem.new("v"),), {}

    def setup(self, e):
        import gpkit.small_classes as sc
        old = sc.np
        me = self

        class Full:
            def __init__(self, of):
                self.of = of

            def __getitem__(self, i):
                if i != ():
                    raise Unsupported("an element of a blank")
                return self

        class NpShape(Np):
            nan = object()

            @staticmethod
            def shape(x):
                return ("shape", x.t)

            def full(self, shape, fill):
                e.oblige("a blank is filled with not-a-number",
                         fill is self.nan, backend="structural")
                me.made.append(shape[1])
                return Full(shape[1])
        sc.np = NpShape()

        def undo():
            sc.np = old
        return undo

    def applies(self, v):
        return isinstance(v, ZItem)

    def requires(self, v):
        return []

    def fresh(self, old, v):
        return TItem.wrap(Blank(v.t))

    def ensures(self, old, res, v):
        if E.eng().top is not self:
            return []
        if type(res) is list or isinstance(res, ZSeq):
            n = res.n if isinstance(res, ZSeq) and res.T is not None \
                else z3.IntVal(len(res) if type(res) is list else 0)
            return [("z", "an empty list only for a list", z3.And(
                IsList(v.t), n == 0))]
        return [("z", "for anything else its shape", z3.And(z3.Not(
            IsList(v.t)), res.of == v.t))]


@register
class EnlistDict(_D):
    name = SC + "_enlist_dict"

    def cases(self, e):
        self.common(e)
        self.din = M.fresh("d_in")
        return (ZMap(M, self.din), ZMap(M, M.empty)), {}

    def spec(self, m, din):
        k = self.k0
        v = z3.Select(M.vals(din), k)
        got = val(m, k)
        return z3.If(IsDict(v), got == Enl(v), z3.And(
            IsList(got), z3.Not(IsDict(got)), Len(got) == 1,
            At(got, z3.IntVal(0)) == v))

    def so_far(self, L):
        m = L.loc["d_out"]
        return [("the keys so far", z3.ForAll([self.q], has(m, self.q)
                                              == L.done[self.q])),
                ("the items so far, in lists", z3.Implies(
                    L.done[self.k0], self.spec(m, self.din)))]

    loops = {"_enlist_dict#1": so_far}
    allow_mut = staticmethod(lambda args: [a for a in args[1:2]
                                           if isinstance(a, ZMap)])

    def fresh(self, old, d_in, d_out):
        E.eng().oblige_z("nested items go to an empty dictionary",
                         d_out.t == EmptyLike(d_in.t))
        t = Enl(d_in.t)
        d_out.put(t)
        return TItem.wrap(t)

    def ensures(self, old, res, d_in, d_out):
        if isinstance(d_in, ZItem):
            return []
        return [("ok", "the dictionary given comes back", res is d_out),
                ("z", "the same keys", has(d_out, self.k0)
                 == z3.Select(M.dom(self.din), self.k0)),
                ("z", "every item in a list of its own", z3.Implies(
                    has(d_out, self.k0), self.spec(d_out, self.din)))]


def longer(got, old, had, n, x):
    """the list got holds what the list old held, or blanks for the n
    dictionaries before, and x"""
    i = z3.Const("i_pos", INT)
    return z3.And(IsList(got), z3.Not(IsDict(got)), Len(got) == n + 1,
                  At(got, n) == x, z3.ForAll([i], z3.Implies(
                      z3.And(0 <= i, i < n), At(got, i) == z3.If(
                          had, At(old, i), Blank(x))),
                      patterns=[At(got, i)]))


@register
class AppendDict(_D):
    """one more item in every list; blanks where a dictionary lacks the item"""
    name = SC + "_append_dict"

    def cases(self, e):
        self.common(e)
        self.din, self.dout = M.fresh("d_in"), M.fresh("d_out")
        self.n = e.fresh("n", INT)
        e.add(self.n >= 1)
        q = self.q
        iv, ov = M.vals(self.din), M.vals(self.dout)
        e.add(z3.ForAll([q], z3.Implies(
            z3.Select(M.dom(self.dout), q), z3.And(
                z3.If(IsDict(ov[q]), z3.Not(IsList(ov[q])), z3.And(
                    IsList(ov[q]), Len(ov[q]) == self.n)),
                z3.Implies(z3.Select(M.dom(self.din), q),
                           IsDict(iv[q]) == IsDict(ov[q])))),
            patterns=[ov[q]]))
        return (ZMap(M, self.din), ZMap(M, self.dout), ZI(self.n)), {}

    allow_mut = staticmethod(lambda args: [a for a in args[1:2]
                                           if isinstance(a, ZMap)])

    def parts(self, m):
        k = self.k0
        ind, outd = (z3.Select(M.dom(x), k) for x in (self.din, self.dout))
        iv, ov = (z3.Select(M.vals(x), k) for x in (self.din, self.dout))
        return k, ind, outd, iv, ov, val(m, k)

    def given(self, m):
        k, ind, outd, iv, ov, got = self.parts(m)
        return z3.If(IsDict(iv), got == App(iv, z3.If(
            outd, ov, EmptyLike(iv)), self.n),
            longer(got, ov, outd, self.n, iv))

    def not_given(self, m):
        k, ind, outd, iv, ov, got = self.parts(m)
        return z3.If(IsDict(ov), got == App(EmptyLike(ov), ov, self.n),
                     longer(got, ov, z3.BoolVal(True), self.n,
                            Blank(At(ov, z3.IntVal(0)))))

    def first(self, L):
        m = L.loc["d_out"]
        k, ind, outd, iv, ov, got = self.parts(m)
        return [("the keys so far", z3.ForAll([self.q], has(m, self.q)
                 == z3.Or(L.done[self.q], z3.Select(M.dom(self.dout),
                                                    self.q)))),
                ("the items so far", z3.If(L.done[k], self.given(m),
                                           got == ov)),
                ("what is not given yet is kept", z3.ForAll(
                    [self.q], z3.Implies(z3.Not(L.done[self.q]), val(
                        m, self.q) == z3.Select(M.vals(self.dout),
                                                self.q))))]

    def second(self, L):
        m = L.loc["d_out"]
        k, ind, outd, iv, ov, got = self.parts(m)
        return [("the same keys", z3.ForAll([self.q], has(m, self.q)
                 == z3.Or(z3.Select(M.dom(self.din), self.q), z3.Select(
                     M.dom(self.dout), self.q)))),
                ("the items given", z3.Implies(ind, self.given(m))),
                ("what is not given yet is kept", z3.ForAll(
                    [self.q], z3.Implies(z3.Not(z3.Or(z3.Select(M.dom(
                        self.din), self.q), L.done[self.q])), val(
                            m, self.q) == z3.Select(M.vals(self.dout),
                                                    self.q)))),
                ("blanks so far", z3.Implies(z3.And(
                    outd, z3.Not(ind)), z3.If(
                        L.done[k], self.not_given(m), got == ov)))]

    loops = {"_append_dict#1": first, "_append_dict#2": second,
             "_append_dict#3": second}

    def fresh(self, old, d_in, d_out, n):
        t = App(d_in.t, d_out.t, zv.num_term(n))
        E.eng().add(IsDict(t))
        d_out.put(t)
        return TItem.wrap(t)

    def ensures(self, old, res, d_in, d_out, n):
        if isinstance(d_in, ZItem):
            return []
        k, ind, outd, iv, ov, got = self.parts(d_out)
        return [("ok", "the dictionary given comes back", res is d_out),
                ("z", "the keys of both", has(d_out, k) == z3.Or(ind, outd)),
                ("z", "an item given is appended", z3.Implies(
                    ind, self.given(d_out))),
                ("z", "a blank is appended where none is given", z3.Implies(
                    z3.And(outd, z3.Not(ind)), self.not_given(d_out)))]


@register
class IndexDict(_D):
    name = SC + "_index_dict"

    def cases(self, e):
        self.common(e)
        self.din = M.fresh("d_in")
        self.i = e.fresh("i", INT)
        return (ZI(self.i), ZMap(M, self.din), ZMap(M, M.empty)), {}

    allow_mut = staticmethod(lambda args: [a for a in args[2:3]
                                           if isinstance(a, ZMap)])

    def spec(self, m):
        v, got = z3.Select(M.vals(self.din), self.k0), val(m, self.k0)
        return got == z3.If(IsDict(v), Idx(self.i, v), z3.If(
            HasAt(v, self.i), At(v, self.i), v))

    def so_far(self, L):
        m = L.loc["d_out"]
        return [("the keys so far", z3.ForAll([self.q], has(m, self.q)
                                              == L.done[self.q])),
                ("the items at this position so far", z3.Implies(
                    L.done[self.k0], self.spec(m)))]

    loops = {"_index_dict#1": so_far}

    def fresh(self, old, idx, d_in, d_out):
        E.eng().oblige_z("nested items go to an empty dictionary",
                         d_out.t == EmptyLike(d_in.t))
        t = Idx(zv.num_term(idx), d_in.t)
        d_out.put(t)
        return TItem.wrap(t)

    def ensures(self, old, res, idx, d_in, d_out):
        if isinstance(d_in, ZItem):
            return []
        return [("ok", "the dictionary given comes back", res is d_out),
                ("z", "the same keys", has(d_out, self.k0)
                 == z3.Select(M.dom(self.din), self.k0)),
                ("z", "every list's item at that position", z3.Implies(
                    has(d_out, self.k0), self.spec(d_out)))]


@register
class Enray(_D):
    name = SC + "_enray"

    def cases(self, e):
        self.common(e)
        self.din = M.fresh("d_in")
        a = ZMap(M, self.din)
        if e.choose(2, "into itself"):
            return (a, a), {}
        return (a, ZMap(M, M.empty)), {}

    allow_mut = staticmethod(lambda args: [a for a in args[1:2]
                                           if isinstance(a, ZMap)])

    def spec(self, m):
        v, got = z3.Select(M.vals(self.din), self.k0), val(m, self.k0)
        return got == z3.If(IsDict(v), Enr(v), z3.If(
            Len(v) == 1, At(v, z3.IntVal(0)), ArrOf(v)))

    def so_far(self, L):
        m = L.loc["d_out"]
        k = self.k0
        same = L.loc["d_out"] is L.loc["d_in"]
        return [("the keys so far", z3.ForAll([self.q], has(m, self.q) == (
                    z3.Select(M.dom(self.din), self.q) if same
                    else L.done[self.q]))),
                ("the arrays so far", z3.If(L.done[k], self.spec(m), val(
                    m, k) == z3.Select(M.vals(self.din), k) if same
                    else z3.BoolVal(True)))]

    loops = {"_enray#1": so_far}

    def fresh(self, old, d_in, d_out):
        E.eng().oblige_z("nested items go to an empty dictionary", z3.Or(
            d_out.t == EmptyLike(d_in.t), d_out.t == d_in.t))
        t = Enr(d_in.t)
        d_out.put(t)
        return TItem.wrap(t)

    def ensures(self, old, res, d_in, d_out):
        if isinstance(d_in, ZItem):
            return []
        return [("ok", "the dictionary given comes back", res is d_out),
                ("z", "the same keys", has(d_out, self.k0)
                 == z3.Select(M.dom(self.din), self.k0)),
                ("z", "lists become arrays, a single item itself", z3.Implies(
                    has(d_out, self.k0), self.spec(d_out)))]


class DictOfListsStub(ZMap):
    "a dictionary of lists: the methods are the real ones"
    def __getattr__(self, name):
        if name == "initialized" or name.startswith("__"):
            raise AttributeError(name)
        return ZMap.__getattr__(self, name)

    @property
    def __class__(self):
        return Fresh(self)


class Fresh:
    def __init__(self, of):
        self.of = of

    def __call__(self, *a):
        if not a:
            return DictOfListsStub(M, M.empty)
        if isinstance(a[0], ZMap):
            return DictOfListsStub(M, a[0].term)
        raise Unsupported("a dictionary of lists made from %r" % (a[0],))


@register
class Append(AppendDict):
    """the first solution starts every list, the (n+1)-th is at position n"""
    name = SC + "DictOfLists.append"
    allow_mut = staticmethod(lambda args: args[:1])

    def cases(self, e):
        self.start = bool(e.choose(2, "the first solution"))
        if not self.start:
            (sol, held, n), _ = AppendDict.cases(self, e)
            me = DictOfListsStub(M, held.term)
            me.__dict__["initialized"] = n
            return (me, sol), {}
        self.common(e)
        self.din = M.fresh("d_in")
        return (DictOfListsStub(M, M.empty), ZMap(M, self.din)), {}

    def applies(self, *a):
        return False

    spec = EnlistDict.spec
    loops = dict(AppendDict.loops, **EnlistDict.loops)
    so_far = EnlistDict.so_far

    def ensures(self, old, res, me, sol):
        k = self.k0
        cnt = me.__dict__.get("initialized")
        n = z3.IntVal(0) if self.start else self.n
        out = [("z", "the solutions are counted", zv.num_term(cnt) == n + 1)]
        if self.start:
            return out + [
                ("z", "the same keys", has(me, k) == z3.Select(
                    M.dom(self.din), k)),
                ("z", "every item starts a list", z3.Implies(
                    has(me, k), self.spec(me, self.din)))]
        k, ind, outd, iv, ov, got = self.parts(me)
        return out + [
            ("z", "the keys of both", has(me, k) == z3.Or(ind, outd)),
            ("z", "the solution is last in every list", z3.Implies(
                ind, self.given(me))),
            ("z", "a blank is last where it has none", z3.Implies(
                z3.And(outd, z3.Not(ind)), self.not_given(me)))]


@register
class AtIndex(IndexDict):
    name = SC + "DictOfLists.atindex"
    allow_mut = staticmethod(lambda args: [])

    def cases(self, e):
        (i, d, _), _ = IndexDict.cases(self, e)
        return (DictOfListsStub(M, d.term), i), {}

    def applies(self, *a):
        return False

    def ensures(self, old, res, me, i):
        return [("ok", "a dictionary of its own", res is not me
                 and isinstance(res, ZMap)),
                ("z", "the same keys", has(res, self.k0)
                 == z3.Select(M.dom(self.din), self.k0)),
                ("z", "every list's item at that position", z3.Implies(
                    has(res, self.k0), self.spec(res)))]


@register
class ToArrays(Enray):
    name = SC + "DictOfLists.to_arrays"
    allow_mut = staticmethod(lambda args: args[:1])

    def cases(self, e):
        self.common(e)
        self.din = M.fresh("d_in")
        return (DictOfListsStub(M, self.din),), {}

    def applies(self, *a):
        return False

    def ensures(self, old, res, me):
        return [("z", "the same keys", has(me, self.k0)
                 == z3.Select(M.dom(self.din), self.k0)),
                ("z", "lists become arrays, a single item itself", z3.Implies(
                    has(me, self.k0), self.spec(me)))]
