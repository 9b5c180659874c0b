"""Flattening and aggregation of constraint sets (C24)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import (TObj, TTup, TSeq, TSet, TMap, TInt, TReal, ZSet, ZMap, INT,
                 BOOL)
from .contracts import ZContract, register
from .values import SBool
from .specs_zbounds import TBound, TBounds, TConds, TMeq, b0, C0
from .specs_zgp import TVar, empty_default

CS = "gpkit.constraints.set:"
NAME = "an_attribute"
TNode = TObj("Constraint")
TPiece = TTup("Piece", TInt, TNode)
TPieces = TSeq(TPiece)
Iter, HasName = (z3.Function(n, TNode.sort, BOOL) for n in (
    "can_be_iterated", "has_the_attribute"))
# what .flat is: 0 there is none, 1 the elements of an array, else a method
Flat = z3.Function("kind_of_flat", TNode.sort, INT)
At = z3.Function("constraint", INT, TNode.sort)
j0 = z3.Const("j0", INT)
ITSELF, ELEMENTS, FLATTENED = (z3.IntVal(i) for i in range(3))


class Sym:
    pv_symbolic = True


def yes(f):
    return bool(SBool(f))


class Piece(Sym):
    def __init__(self, kind, node):
        self.kind, self.node = kind, node

    def __iter__(self):
        raise Unsupported("iteration over what is inside")


class Method(Sym):
    "the method .flat of a constraint set"
    def __init__(self, node, me):
        self.node, self.me = node, me

    def __call__(self, name=None):
        self.me.name_kept(name)
        return Piece(FLATTENED, self.node)


class Yielded:
    "what a generator yields, in order"
    @staticmethod
    def new():
        return zv.ZSeq(TPieces, TPieces.mk(0, z3.Const(
            "nothing", TPieces.arr(TPieces.empty).sort())))

    @staticmethod
    def one(out, v):
        if not isinstance(v, zv.ZObj) or v.T is not TNode:
            raise Unsupported("yield %r" % (v,))
        put(out, ITSELF, v.t)

    @staticmethod
    def all(out, it):
        if isinstance(it, Method):
            raise TypeError("'method' object is not iterable")
        if not isinstance(it, Piece):
            raise Unsupported("yield from %r" % (it,))
        put(out, it.kind, it.node)


def put(out, kind, node):
    out.append(TPiece.wrap(TPiece.mk(kind, node)))


class Values(Sym):
    "an iterable of constraints"
    def __init__(self, n):
        self.n = n

    def pv_zsource(self):
        return zv.IdxSource(self.n, lambda i: TNode.wrap(At(i)))


class Dictionary(Sym, dict):
    "a dictionary of constraints"
    def __init__(self, n):
        dict.__init__(self)
        self.n = n

    def pv_zsource(self):
        raise Unsupported("iteration over the keys")

    def keys(self):
        return Sym()

    def values(self):
        return Values(self.n)

    def __bool__(self):
        return yes(self.n > 0)


@register
class FlatIter(ZContract):
    """what is yielded is, for each constraint in order, the constraint itself
    if it is not iterable or has the attribute asked for, and its own
    flattening (an array's elements) if not"""
    name = CS + "flatiter"
    props = ("C24",)
    assumes = ["constraint sets: an array's .flat yields its elements in"
               " order; dictionaries keep the order of insertion"]

    def applies(self, it, name=None):
        return isinstance(it, zv.ZObj)

    def cases(self, e):
        e.ghost["generator"] = Yielded
        e.ghost["tuples"] = (TPiece,)
        e.ghost["default_types"] = {}
        n = e.fresh("n", INT)
        e.add(n >= 0)
        self.asked = NAME if e.choose(2, "an attribute is asked for") \
            else None
        arg = Dictionary(n) if e.choose(2, "a dictionary") \
            else Values(n)

        def has(v):
            def f(name):
                if name == "__iter__":
                    return SBool(Iter(v.t))
                if name == NAME:
                    return SBool(HasName(v.t))
                if name == "flat":
                    return SBool(Flat(v.t) != 0)
                raise Unsupported("hasattr(constraint, %r)" % name)
            return f

        def flat(v):
            if yes(Flat(v.t) == 0):
                raise AttributeError("flat")
            if yes(Flat(v.t) == 1):
                return Piece(ELEMENTS, v.t)
            return Method(v.t, self)
        TNode.attrs.update(__hasattr__=has, flat=flat)
        self.args = (arg,) if self.asked is None else (arg, self.asked)
        return self.args, {}

    def name_kept(self, name):
        E.eng().oblige("the attribute is asked of what is inside",
                       name == self.asked, backend="structural")

    def invoke(self, *a):
        E.eng().top_calls += 1
        return self.real(*a)

    def requires(self, it, name=None):
        return [("ok", "the attribute is asked of what is inside",
                 name == self.asked)]

    def fresh(self, old, it, name=None):
        return Piece(FLATTENED, it.t)

    def want(self, c):
        leaf = z3.Not(Iter(c))
        if self.asked is not None:
            leaf = z3.Or(leaf, HasName(c))
        return z3.If(leaf, ITSELF, z3.If(Flat(c) == 1, ELEMENTS, FLATTENED))

    def say(self, out, i):
        t = TPieces.unwrap(out)
        p = z3.Select(TPieces.arr(t), j0)
        return [("one piece for each constraint", TPieces.len(t) == i),
                ("each is the constraint's, in order", z3.Implies(
                    z3.And(0 <= j0, j0 < i), p == TPiece.mk(
                        self.want(At(j0)), At(j0))))]

    def each(self, L):
        return self.say(L.loc["pv_yielded"], L.i)

    loops = {"flatiter#1": each}

    def ensures(self, old, res, it, name=None):
        if isinstance(res, Piece):      # flattened inside
            return []
        if not isinstance(res, zv.ZSeq):
            return [("ok", "constraints are yielded", False)]
        return [("z",) + g for g in self.say(res, it.n)]


TVars = TSet(TVar)
TSubs = TMap(TVar, TReal)
HasValue = z3.Function("has_a_value", TVar.sort, BOOL)
ValueOf = z3.Function("value_of", TVar.sort, zv.REAL)
v0 = z3.Const("v0", TVar.sort)


class Descr(Sym):
    def __init__(self, var):
        self.var = var

    def __contains__(self, name):
        if name != "value":
            raise Unsupported("%r in a description" % (name,))
        return yes(HasValue(self.var))


class Part(Sym):
    "a constraint or set of constraints: what is known of its variables"
    def __init__(self, name, subs):
        self.vks = TVars.new(name + ".vks")
        self.bounded = TBounds.new(name + ".bounded")
        self.meq_bounded = TMeq.new(name + ".meq_bounded")
        if subs:
            self.substitutions = TSubs.new(name + ".substitutions")


def look(p):
    subs = getattr(p, "substitutions", None)
    m = TMeq.unwrap(p.meq_bounded)
    out = {"vks": TVars.unwrap(p.vks), "bounded": TBounds.unwrap(p.bounded),
           "D": TMeq.dom(m), "V": TMeq.vals(m)}
    if subs is not None:
        t = TSubs.unwrap(subs)
        out.update(has=TSubs.dom(t), val=TSubs.vals(t))
    return out


@register
class Update(ZContract):
    """the set holds the variables, bounds and conditions of its own and of
    the constraint added; the constraint's substitutions, or its variables'
    values if it keeps none, replace the set's"""
    name = CS + "ConstraintSet._update"
    props = ("C24",)
    assumes = ["constraint sets: updating the dictionary of substitutions"
               " replaces what is given and keeps the rest (C15)"]

    @staticmethod
    def allow_mut(args):
        s = args[0]
        return [s.vks, s.bounded, s.meq_bounded, s.substitutions] \
            if isinstance(s, Part) else []

    def applies(self, *a):
        return False

    def cases(self, e):
        e.ghost["tuples"] = (TBound,)
        e.ghost["default_types"] = {set: lambda kt: TConds}
        e.ghost["default_value"] = empty_default
        e.ghost["roots"] = {}
        TVar.attrs.update(descr=lambda v: Descr(v.t),
                          value=lambda v: zv.ZR(ValueOf(v.t)))
        me = Part("set", True)
        me.meq_bounded.default = set
        con = Part("constraint", e.choose(2, "keeps substitutions"))
        self.was, self.new = look(me), look(con)
        self.me = me
        return (me, con), {}

    def meq(self, now, D, V):
        "what the conditions are, at an arbitrary bound and condition"
        w = self.was
        here = lambda d, v: z3.And(d[b0], v[b0][C0])
        return [("conditions of both are kept", here(now["D"], now["V"]) ==
                 z3.Or(here(w["D"], w["V"]), here(D, V))),
                ("bounds with conditions of both are kept", now["D"][b0] ==
                 z3.Or(w["D"][b0], D[b0]))]

    def each(self, L):
        me = self.me
        n, w = look(me), self.was
        D, V = self.new["D"], self.new["V"]
        here = lambda d, v: z3.And(d[b0], v[b0][C0])
        return [("conditions so far", here(n["D"], n["V"]) == z3.Or(
            here(w["D"], w["V"]), z3.And(L.done[b0], here(D, V)))),
                ("bounds so far", n["D"][b0] == z3.Or(
                    w["D"][b0], L.done[b0]))]

    loops = {"ConstraintSet._update#1": each}

    def ensures(self, old, res, me, con):
        n, w, c = look(me), self.was, self.new
        k = look(con)
        if "has" in c:
            has, val = c["has"][v0], c["val"][v0]
        else:
            has = z3.And(c["vks"][v0], HasValue(v0))
            val = ValueOf(v0)
        return [("z",) + g for g in self.meq(n, c["D"], c["V"])] + [
            ("z", "the variables of both", n["vks"][v0] == z3.Or(
                w["vks"][v0], c["vks"][v0])),
            ("z", "the bounds of both", n["bounded"][b0] == z3.Or(
                w["bounded"][b0], c["bounded"][b0])),
            ("z", "the substitutions of both", n["has"][v0] == z3.Or(
                w["has"][v0], has)),
            ("z", "substitutions added replace those there", z3.Implies(
                has, n["val"][v0] == val)),
            ("z", "other substitutions are kept", z3.Implies(z3.And(
                w["has"][v0], z3.Not(has)), n["val"][v0] == w["val"][v0])),
            ("z", "the constraint added is unchanged", z3.And(*[
                k[f] == c[f] for f in c]))]
