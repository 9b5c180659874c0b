"""Contracts of the global environments (C19)."""
import z3
from . import engine as E
from . import zv
from .zv import (T, TInt, TBool, TObj, TSeq, TMap, TText, TTup, ZSeq, ZMap,
                 INT)
from .contracts import ZContract, register
from .values import SBool

GLM = "gpkit.globals:"

_d = z3.Datatype("Lineage")
_d.declare("top")
_d.declare("inside", ("outer", _d), ("mname", TText.sort), ("mnum", INT))
LIN = _d.create()


class _TLineage(T):
    "tuples of (name, number) pairs, as the algebraic datatype they form"
    name, sort = "Lineage", LIN

    def wrap(self, t):
        return ZLin(t)

    def unwrap(self, v):
        if type(v) is ZLin:
            return v.t
        if isinstance(v, tuple):
            t = LIN.top
            for pair in v:
                if not (isinstance(pair, tuple) and len(pair) == 2):
                    raise E.Unsupported("lineage of %r" % (v,))
                t = LIN.inside(t, TText.unwrap(pair[0]),
                               TInt.unwrap(pair[1]))
            return t
        raise E.Unsupported("a lineage was expected, got %r" % (v,))


TLin = _TLineage()


class ZLin:
    "a lineage tuple: what the code may do with it"
    pv_symbolic = True
    pv_z = True
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        if type(o) is not tuple:
            raise E.Unsupported("lineage + %r" % (o,))
        t = self.t
        for pair in o:
            t = LIN.inside(t, TText.unwrap(pair[0]), TInt.unwrap(pair[1]))
        return ZLin(t)

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (
                None, -1, None):
            return ZLin(z3.simplify(z3.If(LIN.is_top(self.t), LIN.top,
                                          LIN.outer(self.t))))
        raise E.Unsupported("lineage[%r]" % (k,))

    def __bool__(self):
        return bool(SBool(z3.Not(LIN.is_top(self.t))))

    def __eq__(self, o):
        return SBool(self.t == TLin.unwrap(o))

    def __ne__(self, o):
        return SBool(self.t != TLin.unwrap(o))

    def __repr__(self):
        return "<lineage %s>" % self.t


TNum = TTup("LinName", TLin, TText)
TNew = TObj("NewVar")
TVars = TSeq(TNew)


def saved(cls, **attrs):
    "set class attributes; returns the function that restores them"
    old = {k: (k in cls.__dict__, cls.__dict__.get(k)) for k in attrs}
    for k, v in attrs.items():
        setattr(cls, k, v)

    def undo():
        for k, (had, v) in old.items():
            if had:
                setattr(cls, k, v)
            else:
                delattr(cls, k)
    return undo


class Env(ZContract):
    props = ("C19",)
    allow_mut = staticmethod(lambda args: [])
    undo = None
    changes = ()

    def allow_mut(self, args):
        return self.changes

    def applies(self, *args, **kw):
        return False    # the pairs below run both halves

    def pair(self, env, *exc):
        "enter, enter and leave once more within, leave"
        cls = type(env)
        self.body1 = self.snap(cls.__enter__(env))
        cls.__enter__(env)
        self.res2 = cls.__exit__(env, None, None, None)
        self.body2 = self.snap(None)
        return self.real(env, *exc)

    def snap(self, res):
        return self.state()

    def invoke(self, env, *exc):
        try:
            return self.body(env, *exc)
        finally:
            self.after = self.state()
            self.undo()

    def body(self, env, *exc):
        return self.real(env, *exc)

    def exits(self, res):
        return [("ok", "exceptions of the body are not swallowed",
                 not res if isinstance(res, (bool, type(None), int))
                 else False)]


# ------------------------------------------------------------------- Vectorize
class VecEnter(Env):
    "the shape in force is the environment's dimension and then the outer's"
    name = GLM + "Vectorize.__enter__"

    def cases(self, e):
        from gpkit.globals import Vectorize
        self.cls = Vectorize
        self.dim = TInt.new("dim")
        self.shape = TSeq(TInt).new("shape")
        self.n, self.arr = self.shape.n, self.shape.arr
        self.shape.tup = True
        env = object.__new__(Vectorize)
        env.dimension_length = self.dim
        self.undo = saved(Vectorize, vectorization=self.shape)
        e.ghost["roots"] = {}
        return self.args(env), {}

    def args(self, env):
        return (env,)

    def state(self):
        return self.cls.vectorization

    def same(self, got, n, arr, off=0):
        i = z3.FreshConst(INT, "i")
        return z3.And(got.n == n + off, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < n), z3.Select(got.arr, i + off) == arr[i])))

    def ensures(self, old, res, env, *exc):
        a = self.after
        return [("z", "one more dimension, then the outer ones",
                 self.same(a, self.n, self.arr, 1)),
                ("z", "the dimension is the environment's",
                 z3.Select(a.arr, 0) == self.dim.t)]


class VecExit(VecEnter):
    "leaving puts back the outer shape"
    name = GLM + "Vectorize.__exit__"
    body = Env.pair

    def args(self, env):
        return (env, None, None, None)

    def ensures(self, old, res, env, *exc):
        b1, b2 = self.body1, self.body2
        return [("z", "the outer shape again",
                 self.same(self.after, self.n, self.arr)),
                ("z", "also after an environment within",
                 self.same(b2, b1.n, b1.arr))] + self.exits(res)


# ----------------------------------------------------------- SignomialsEnabled
class SigEnter(Env):
    """signomials are permitted, the outer permission is remembered (on top of
    those remembered by the environments around)"""
    name = GLM + "SignomialsEnabled.__enter__"

    def cases(self, e):
        from gpkit.globals import SignomialsEnabled
        self.cls = SignomialsEnabled
        self.perm = TBool.new("permitted")
        self.outer = TSeq(TBool).new("outer")
        self.n, self.arr = self.outer.n, self.outer.arr
        self.undo = saved(SignomialsEnabled, _true=self.perm,
                          _outer=self.outer)
        self.changes = (self.outer,)
        return self.args(object.__new__(SignomialsEnabled)), {}

    def args(self, env):
        return (env,)

    def state(self):
        return self.cls._true, self.cls.__dict__.get("_outer")

    def ensures(self, old, res, env, *exc):
        return [("z", "signomials are permitted",
                 TBool.unwrap(self.after[0]))]


class SigExit(SigEnter):
    "the permission in force outside is in force again"
    name = GLM + "SignomialsEnabled.__exit__"
    body = Env.pair

    def args(self, env):
        return (env, None, None, None)

    def remembered(self):
        "permissions remembered of the environments around are kept"
        outer = self.after[1]
        if outer is None or not isinstance(outer, ZSeq):
            return []
        i = z3.FreshConst(INT, "i")
        return [("z", "those remembered for the environments around",
                 z3.And(outer.n == self.n, z3.ForAll([i], z3.Implies(z3.And(
                     0 <= i, i < self.n), z3.Select(outer.arr, i)
                     == self.arr[i]))))]

    def ensures(self, old, res, env, *exc):
        return [("z", "the permission in force outside",
                 TBool.unwrap(self.after[0]) == self.perm.c),
                ("z", "signomials are permitted within", z3.And(
                    TBool.unwrap(self.body1[0]),
                    TBool.unwrap(self.body2[0])))] \
            + self.remembered() + self.exits(res)


# -------------------------------------------------------------- NamedVariables
class NamEnter(Env):
    """the lineage in force is the outer one and this environment's name and
    number; the number is the count of environments of that name entered
    before in that lineage; its list of variables is handed out"""
    name = GLM + "NamedVariables.__enter__"

    def cases(self, e):
        from gpkit.globals import NamedVariables
        self.cls = NamedVariables
        e.ghost["tuples"] = (TNum,)
        e.ghost["default_value"] = lambda f, T_: (
            z3.IntVal(0) if f is int else T_.empty)
        self.lin = e.fresh("lineage", LIN)
        self.nm = TText.new("name")
        Tn, Tv = TMap(TNum, TInt), TMap(TLin, TVars)
        nums, nvars = Tn.new("modelnums"), Tv.new("namedvars")
        nums.default, nvars.default = int, list
        self.nt, self.vt = nums.term, nvars.term
        self.Tn, self.Tv = Tn, Tv
        self.key0 = e.fresh("key0", TNum.sort)
        self.lin0 = e.fresh("lin0", LIN)
        key = TNum.mk(self.lin, self.nm.t)
        self.count = z3.If(z3.Select(Tn.dom(self.nt), key),
                           z3.Select(Tn.vals(self.nt), key), 0)
        self.key = key
        self.undo = saved(NamedVariables, lineage=ZLin(self.lin),
                          modelnums=nums, namedvars=nvars)
        self.changes = (nums, nvars)
        env = object.__new__(NamedVariables)
        env.name = self.nm
        return self.args(env), {}

    def args(self, env):
        return (env,)

    def state(self):
        c = self.cls
        return c.lineage, c.modelnums.term, c.namedvars.term

    def num(self, term, key):
        return z3.If(z3.Select(self.Tn.dom(term), key),
                     z3.Select(self.Tn.vals(term), key), 0)

    def ensures(self, old, res, env, *exc):
        lin, nums, nvars = self.after
        new = LIN.inside(self.lin, self.nm.t, self.count)
        rl, rv = res
        dom, vals = self.Tv.dom, self.Tv.vals
        had = z3.Select(dom(self.vt), new)
        want = z3.If(had, z3.Select(vals(self.vt), new), TVars.empty)
        other = self.lin0 != new
        return [("z", "the lineage is extended by name and number",
                 TLin.unwrap(lin) == new),
                ("z", "the lineage handed out is that in force",
                 TLin.unwrap(rl) == new),
                ("z", "the number is used up",
                 self.num(nums, self.key) == self.count + 1),
                ("z", "other numbers are as they were", z3.Implies(
                    self.key0 != self.key, self.num(nums, self.key0)
                    == self.num(self.nt, self.key0))),
                ("z", "the list handed out is the lineage's", z3.And(
                    z3.Select(dom(nvars), new),
                    z3.Select(vals(nvars), new) == want,
                    rv.term == want)),
                ("z", "other lists are as they were", z3.Implies(
                    other, z3.And(
                        z3.Select(dom(nvars), self.lin0)
                        == z3.Select(dom(self.vt), self.lin0),
                        z3.Select(vals(nvars), self.lin0)
                        == z3.Select(vals(self.vt), self.lin0))))]


class NamExit(NamEnter):
    "the outer lineage is in force again; only this list is dropped"
    name = GLM + "NamedVariables.__exit__"
    body = Env.pair

    def args(self, env):
        return (env, None, None, None)

    def snap(self, res):
        if res is not None:
            res[1].append(TNew.new("variable of the body"))
        return self.state()

    def ensures(self, old, res, env, *exc):
        lin, nums, nvars = self.after
        dom, vals = self.Tv.dom, self.Tv.vals
        new = LIN.inside(self.lin, self.nm.t, self.count)
        b1, b2 = self.body1, self.body2
        key2 = TNum.mk(new, self.nm.t)
        at = lambda t, k: z3.Select(vals(t), k)
        same = lambda a, b: z3.And(
            z3.Select(dom(a), self.lin0) == z3.Select(dom(b), self.lin0),
            z3.Implies(z3.Select(dom(a), self.lin0),
                       at(a, self.lin0) == at(b, self.lin0)))
        return [("z", "the outer lineage again",
                 TLin.unwrap(lin) == self.lin),
                ("z", "and this one's after one within",
                 TLin.unwrap(b2[0]) == TLin.unwrap(b1[0])),
                ("z", "its list is as before the one within",
                 z3.And(z3.Select(dom(b2[2]), new),
                        at(b2[2], new) == at(b1[2], new))),
                ("z", "numbers used up stay so", z3.And(
                    self.num(nums, self.key) == self.count + 1,
                    z3.Implies(
                        z3.And(self.key0 != self.key, self.key0 != key2),
                        self.num(nums, self.key0)
                        == self.num(self.nt, self.key0)))),
                ("z", "this list is dropped",
                 z3.Not(z3.Select(dom(nvars), new))),
                ("z", "other lists are as they were", z3.Implies(
                    z3.And(self.lin0 != new, self.lin0 != LIN.inside(
                        new, self.nm.t, self.num(self.nt, key2))),
                    same(self.vt, nvars)))] + self.exits(res)


class AddModels(Env):
    """within a naming environment a variable gets its lineage and is listed
    there, outside it gets none; other lists stay"""
    name = "gpkit.nomials.variables:addmodelstodescr"

    def cases(self, e):
        from gpkit.globals import NamedVariables
        self.cls = NamedVariables
        e.ghost["default_value"] = lambda f, T_: T_.empty
        self.lin = e.fresh("lineage", LIN)
        nvars = TMap(TLin, TVars).new("namedvars")
        nvars.default = list
        self.vt, self.Tv = nvars.term, nvars.T
        self.lin0 = e.fresh("lin0", LIN)
        self.var = TNew.new("var")
        self.descr = {"name": "x"}
        self.changes = (nvars,)
        self.undo = saved(NamedVariables, lineage=ZLin(self.lin),
                          namedvars=nvars)
        self.given = bool(e.choose(2))
        return (self.descr, self.var if self.given else None), {}

    def invoke(self, descr, var):
        try:
            return self.real(descr, var) if self.given else self.real(descr)
        finally:
            self.after = (self.cls.lineage, self.cls.namedvars.term)
            self.undo()

    def ensures(self, old, res, descr, var):
        lin, nvars = self.after
        dom, vals = self.Tv.dom, self.Tv.vals
        at = lambda t, k: z3.If(z3.Select(dom(t), k),
                                z3.Select(vals(t), k), TVars.empty)
        inside = z3.Not(LIN.is_top(self.lin))
        got = descr.get("lineage")
        adds = z3.And(inside, self.given)
        a, b = at(nvars, self.lin), at(self.vt, self.lin)
        i = z3.FreshConst(INT, "i")
        return [("ok", "the description is kept", descr["name"] == "x"
                 and set(descr) <= {"name", "lineage"}),
                ("z", "the lineage in force is recorded",
                 z3.Not(inside) if got is None else z3.And(
                     inside, TLin.unwrap(got) == self.lin)),
                ("z", "the lineage in force stays",
                 TLin.unwrap(lin) == self.lin),
                ("z", "the variable is listed", z3.Implies(adds, z3.And(
                    TVars.len(a) == TVars.len(b) + 1,
                    z3.Select(TVars.arr(a), TVars.len(b)) == self.var.t))),
                ("z", "variables listed before stay", z3.And(
                    z3.Implies(z3.Not(adds), TVars.len(a) == TVars.len(b)),
                    z3.ForAll([i], z3.Implies(z3.And(
                        0 <= i, i < TVars.len(b)), z3.Select(TVars.arr(
                            a), i) == z3.Select(TVars.arr(b), i))))),
                ("z", "other lists stay", z3.Implies(
                    self.lin0 != self.lin, z3.And(
                        z3.Select(dom(nvars), self.lin0)
                        == z3.Select(dom(self.vt), self.lin0),
                        z3.Select(vals(nvars), self.lin0)
                        == z3.Select(vals(self.vt), self.lin0))))]


for _c in (AddModels, VecEnter, VecExit, SigEnter, SigExit, NamEnter, NamExit):
    register(_c)
