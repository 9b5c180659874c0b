"""Relaxed constraint sets (C14): a relaxation for each constraint, or for
each constant, and nothing else."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import (T, TObj, TMap, TSet, TSeq, ZMap, ZSet, ZSeq, ZContainer, INT,
                 REAL, BOOL)
from .contracts import ZContract, register
from .values import SBool

RX = "gpkit.constraints.relax:"


def yes(f):
    return bool(SBool(f))


class Sym:
    "an object of which the code uses only what is defined here"
    pv_symbolic = True


class Env(Sym):
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.on(True)
        return self.lineage, ()

    def __exit__(self, *a):
        self.on(False)

    lineage = ((("Relax", 7),), ())[0]


class NewKeyDict:
    "not a class any symbolic object is an instance of"


# ----------------------------------------------------- relaxing constraints
TCon = TObj("ConstraintT")
TVar0 = TObj("RelaxVariableT")
TRel = TObj("RelaxedConstraintsT")
VarAt = z3.Function("relaxation_variable", INT, TVar0.sort)
RelaxedBy = z3.Function("relaxed_by", TCon.sort, TVar0.sort, TRel.sort)


class Vector(Sym):
    def __init__(self, n):
        self.n = n

    def __getitem__(self, i):
        return TVar0.wrap(VarAt(zv.num_term(i)))

    def __ge__(self, o):
        return AtLeast(self, o)

    def pv_zsource(self):
        return zv.IdxSource(self.n, lambda i: TVar0.wrap(VarAt(i)))


class AtLeast(Sym):
    def __init__(self, var, bound):
        self.var, self.bound = var, bound


class _Relax(ZContract):
    props = ("C14",)
    assumes = ["relaxed sets: a ConstraintSet holds the constraints and"
               " substitutions it is made of (C24)"]

    def applies(self, *a, **kw):
        return False

    def setup(self, e):
        import gpkit.constraints.relax as R
        new = self.patched()
        old = {k: R.__dict__[k] for k in new}
        R.__dict__.update(new)

        def undo():
            R.__dict__.update(old)
        return undo

    def patched(self):
        me = self

        class CS(Sym):
            def __init__(self, constraints, substitutions=None):
                me.made.append((self, constraints, substitutions))
                if constraints is me.raw:
                    me.fill(self)

            @staticmethod
            def flat(yield_if_hasattr=None):
                raise Unsupported("flat of another set")

        def signomials():
            return Env(lambda on: setattr(self, "signomials", on))

        def naming(name):
            return Env(lambda on: setattr(self, "naming", on))
        self.CS, self.made, self.signomials = CS, [], False
        return {"ConstraintSet": CS, "SignomialsEnabled": signomials,
                "NamedVariables": naming, "Variable": self.variable,
                "VectorVariable": self.vector}

    def variable(self, name):
        self.var = TVar0.wrap(VarAt(z3.IntVal(0)))
        return self.var

    def vector(self, n, name):
        self.vec = Vector(zv.num_term(n))
        return self.vec


class _RelaxAll(_Relax):
    "every constraint is relaxed, by its variable; substitutions are kept"
    vector_ = False

    def cases(self, e):
        from gpkit.constraints import relax as R
        self.cons = ZSeq(TSeq(TCon), TSeq(TCon).new("constraints").term)
        e.add(self.cons.n >= 0)
        self.term = self.cons.term
        self.subs = Sym()
        self.var = self.vec = None

        def relaxed(c):
            def f(var):
                if not self.signomials:
                    raise TypeError("signomials are not enabled")
                return TRel.wrap(RelaxedBy(c.t, TVar0.unwrap(var)))
            return f
        TCon.attrs["relaxed"] = relaxed
        TVar0.attrs["__ge__"] = lambda v: lambda o: AtLeast(v, o)
        self.raw = [object()]
        if e.choose(2, "already a set"):
            self.raw = None
            arg = object.__new__(self.CS)
            self.fill(arg)
        else:
            arg = self.raw
        cls = getattr(R, self.name.split(":")[1].split(".")[0])
        self.me = cls.__new__(cls)
        return (self.me, arg), {}

    def fill(self, cs):
        cs.substitutions = self.subs
        cs.flat = lambda: self.cons.copy()

    def ensures(self, old, res, *a):
        made = [m for m in self.made if m[0] is self.me]
        ok = len(made) == 1 and hasattr(made[0][1], "values") \
            and len(list(made[0][1].values())) == 2
        out = [("ok", "the set is made of the relaxations", ok)]
        if not ok:
            return out
        _, parts, subs = made[0]
        parts = list(parts.values())
        low = [p for p in parts if isinstance(p, AtLeast)]
        rel = [p for p in parts if isinstance(p, ZSeq)]
        var = self.vec if self.vector_ else self.var
        ok = len(low) == 1 and len(rel) == 1 and low[0].bound == 1 and \
            low[0].var is var and var is not None
        out += [("ok", "the original's substitutions are kept",
                 subs is self.subs),
                ("ok", "relaxation variables are at least one", ok)]
        if not ok:
            return out
        n = TSeq(TCon).len(self.term)
        if self.vector_:
            out.append(("z", "a relaxation variable for each constraint",
                        var.n == n))
        rel, = rel
        j = z3.Const("j_rel", INT)
        if rel.T is None:
            return out + [("z", "every constraint is relaxed", n == 0)]
        S = rel.T
        return out + [
            ("z", "every constraint is relaxed", rel.n == n),
            ("z", "by its relaxation variable", z3.Implies(
                z3.And(0 <= j, j < n),
                z3.Select(S.arr(rel.term), j) == RelaxedBy(
                    z3.Select(TSeq(TCon).arr(self.term), j),
                    VarAt(j if self.vector_ else 0))))]


@register
class RelaxedEqually(_RelaxAll):
    name = RX + "ConstraintsRelaxedEqually.__init__"


@register
class RelaxedEach(_RelaxAll):
    name = RX + "ConstraintsRelaxed.__init__"
    vector_ = True


# -------------------------------------------------------- relaxing constants
TVar = TObj("VariableT")
TNam = TObj("VariableNameT")
TStr = TObj("VariableStrT")
TFn = TObj("LinkT")
Val = z3.Function("value_at_the_point", TVar.sort, REAL)
NameF = z3.Function("name_of", TVar.sort, TNam.sort)
StrF = z3.Function("str_of", TVar.sort, TStr.sort)
EqF = z3.Function("eqstr_of", TVar.sort, TStr.sort)
LinkF = z3.Function("linked_value", TFn.sort, REAL)
# the relaxation of a constant, and the constant that has its old value
RelaxVar, OldVal, Of = (z3.Function(n, TVar.sort, TVar.sort) for n in (
    "relaxation_of", "old_value_of", "constant_of"))
Kind = z3.Function("kind_of_variable", TVar.sort, INT)


class Mono(Sym):
    "a product of powers of variables: its value at an arbitrary point"
    def __init__(self, v):
        self.v = v

    def __truediv__(self, o):
        return Mono(self.v/val(o))

    def __mul__(self, o):
        return Mono(self.v*val(o))

    def __le__(self, o):
        return Con(self.v <= val(o))

    def __ge__(self, o):
        return Con(self.v >= val(o))

    def __eq__(self, o):
        return Con(self.v == val(o))
    __hash__ = None


def val(o):
    if isinstance(o, Mono):
        return o.v
    if isinstance(o, (int, float)):
        return z3.RealVal(o)
    return Val(TVar.unwrap(o))


class Con(Sym):
    def __init__(self, c):
        self.c = c


for _n in ("truediv", "mul", "le", "ge"):
    TVar.attrs["__%s__" % _n] = (lambda n: lambda v: lambda o: getattr(
        Mono(val(v)), "__%s__" % n)(o))(_n)
TVar.attrs["name"] = lambda v: TNam.wrap(NameF(v.t))
TVar.attrs["eqstr"] = lambda v: TStr.wrap(EqF(v.t))
TVar.attrs["key"] = lambda v: v


class _TConj(T):
    "a list of constraints: do all of them hold at the point"
    name, sort = "Conj", BOOL
    empty = z3.BoolVal(True)

    def wrap(self, t):
        return Conj(self, t)

    def unwrap(self, v):
        if isinstance(v, Conj):
            return v.term
        if isinstance(v, ZSeq) and v.T is None:
            return self.empty
        if isinstance(v, (list, tuple)) and all(isinstance(c, Con)
                                                for c in v):
            return z3.And(*[c.c for c in v])
        raise Unsupported("a list of constraints was expected, got %r" % (v,))


TConj = _TConj()


class Conj(ZContainer):
    kind = "list"

    def append(self, c):
        self.put(z3.And(self.term, TConj.unwrap([c])), "append")

    def extend(self, cs):
        self.put(z3.And(self.term, TConj.unwrap(cs)), "extend")

    def __add__(self, cs):
        return Conj(TConj, z3.And(self.term, TConj.unwrap(cs)))

    def __iadd__(self, cs):
        self.extend(cs)
        return self


class Descr(dict):
    "the description of one variable"
    def copy(self):
        return Descr(self)


class Is:
    "stands for what tells one variable of a name from another"
    def __init__(self, t):
        self.t = t


MV, MC = TMap(TVar, zv.TReal), TMap(TStr, TConj)
MLk = TMap(TVar, TFn)


def held(k):
    "is the constant within its relaxation of its old value"
    R, N = Val(RelaxVar(k)), Val(OldVal(k))
    return z3.And(R >= 1, N/R <= Val(k), Val(k) <= N*R)


@register
class ConstantsRelaxed(_Relax):
    """each constant that may be relaxed is freed, held within its relaxation
    of its old value; every other keeps its value"""
    name = RX + "ConstantsRelaxed.__init__"
    assumes = _Relax.assumes + [
        "ConstantsRelaxed.__init__: variables made with a new model number"
        " are not the original ones (C19), and differ when their lineages"
        " do (C16); dictionaries keyed by variables behave as dictionaries"
        " (C15)"]

    def patched(self):
        d = _Relax.patched(self)
        me = self

        class KD(Sym):
            def __new__(cls, m):
                return m.copy()

        def parse_subs(vks, subs):
            E.eng().oblige("the set's own substitutions are divided",
                           vks is self.vks and (
                               subs is self.subs or subs.term.eq(self.s0)),
                           backend="structural")
            return self.constants, {}, self.linked
        d.update(KeyDict=KD, parse_subs=parse_subs, NomialArray=lambda x: x)
        return d

    def variable(self, **kw):
        e = E.eng()
        base = self.describe(kw["idx"].t if "idx" in kw else None)
        if base is None:
            raise Unsupported("a variable of unknown identity")
        k = kw["idx"].t
        lin, lin0 = tuple(kw.get("lineage", ())), base.get("lineage", ())
        ext = lin[len(lin0):]
        unit = kw.get("unitrepr") == base["unitrepr"]
        named = kw.get("name") == base["name"]
        if not ext and lin == lin0 and unit and named:
            if kw.get("veckey") is base.get("veckey"):
                return TVar.wrap(k)
            raise Unsupported("an element without its vector")
        new = lin[:len(lin0)] == lin0 and named and "veckey" not in kw \
            and ext[:1] == (self.me.lineage[-1],)
        if new and len(ext) == 1 and kw.get("unitrepr") == "-":
            self.known(e, k)
            return TVar.wrap(RelaxVar(k))
        if new and len(ext) > 1 and unit:
            self.known(e, k)
            return TVar.wrap(OldVal(k))
        raise Unsupported("variables of an unknown kind")

    def known(self, e, k):
        """two further variables, told apart from each other and from the
        original ones by their lineage; one of them of the same units"""
        for x in (k, self.k0):
            e.add(z3.And(Kind(RelaxVar(x)) == 1, Kind(OldVal(x)) == 2,
                         Of(OldVal(x)) == x,
                         Val(x) > 0, Val(RelaxVar(x)) > 0, Val(OldVal(x)) > 0,
                         z3.Implies(self.within, held(x))))

    def describe(self, t):
        "the description of an original variable"
        if t is None:
            return None
        key = z3.simplify(t).get_id()
        if key not in self.descrs:
            d = Descr(name=("named like", key), idx=Is(t), unitrepr="unit")
            if self.haslin:
                d["lineage"] = (("M", 0),)
            if self.hasvec:
                d["veckey"] = Sym()
                d["gradients"] = Sym()
            self.descrs[key] = (d, Descr(d), t)
        return self.descrs[key][1]

    def descr(self, v):
        self.describe(v.t)
        return self.descrs[z3.simplify(v.t).get_id()][0]

    def cases(self, e):
        from gpkit.constraints import relax as R
        e.ghost["tuples"] = (zv.TTup("ConstantItem", TVar, zv.TReal), TConj)
        e.ghost["empty_list"] = TConj
        TVar.attrs["descr"] = self.descr
        TVar.attrs["__str__"] = lambda v: TStr.wrap(StrF(v.t))
        TFn.attrs["__call__"] = lambda f: lambda c: zv.ZR(LinkF(f.t))
        self.descrs = {}
        combos = [(1, 1, a, b, c) for a in (0, 1) for b in (0, 1)
                  for c in (0, 1)] + [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0),
                                      (0, 1, 1, 0, 1), (0, 0, 1, 1, 0)]
        self.haslin, self.hasvec, linked, only, exc = combos[
            e.choose(len(combos), "forms")]
        self.k0 = e.fresh("k0", TVar.sort)
        self.str0 = e.fresh("str0", TStr.sort)
        self.within = e.fresh("within", BOOL)
        self.s0 = MV.fresh("substitutions")
        self.subs = ZMap(MV, self.s0)
        q = z3.Const("q_var", TVar.sort)
        e.add(z3.ForAll([q], z3.Implies(z3.Select(MV.dom(self.s0), q),
                                        Kind(q) == 0)))
        self.known(e, self.k0)
        e.add(Kind(self.k0) == 0)
        c0 = MV.fresh("constants")
        self.constants = zv.ordered_map(MV, c0)
        # every constant and every linked variable has a substitution
        e.add(z3.ForAll([q], z3.Implies(
            z3.Select(MV.dom(c0), q), z3.Select(MV.dom(self.s0), q))))
        self.linked = {}
        self.vks = Sym()
        cs = object.__new__(self.CS)
        cs.vks, cs.substitutions = self.vks, self.subs
        self.cs, self.raw = cs, None
        if linked:
            lk = MLk.fresh("linked")
            self.linked = ZMap(MLk, lk)
            e.add(z3.ForAll([q], z3.Implies(
                z3.Select(MLk.dom(lk), q), z3.Select(MV.dom(self.s0), q))))
            used = TSet(TVar).fresh("constrained")
            cs.constrained_varkeys = lambda: ZSet(TSet(TVar), used)
            k = self.k0
            was = z3.And(z3.Select(MLk.dom(lk), k), z3.Select(used, k))
            self.want = (z3.Or(was, z3.Select(MV.dom(c0), k)), z3.If(
                was, LinkF(z3.Select(MLk.vals(lk), k)),
                z3.Select(MV.vals(c0), k)))
        else:
            self.want = (z3.Select(MV.dom(c0), self.k0),
                         z3.Select(MV.vals(c0), self.k0))
        self.me = R.ConstantsRelaxed.__new__(R.ConstantsRelaxed)
        kw = {}
        self.only = self.exc = None
        if only:
            s = ZSet(TSet(TNam), TSet(TNam).fresh("include_only"))
            kw["include_only"] = s
            self.only = s.term
        if exc:
            s = ZSet(TSet(TNam), TSet(TNam).fresh("exclude"))
            kw["exclude"] = s
            self.exc = s.term
        return (self.me, cs), kw

    def allow_mut(self, args):
        return [self.constants]

    def freed(self):
        "is k0 a constant to be relaxed"
        there, val = self.want
        c = [there, val != 0]
        if self.only is not None:
            some = self.only != z3.K(TNam.sort, False)
            c.append(z3.Implies(some, z3.Select(
                self.only, NameF(self.k0))))
        if self.exc is not None:
            c.append(z3.Not(z3.Select(self.exc, NameF(self.k0))))
        return z3.And(*c)

    def say(self, subs, cons, der, seen):
        "what holds of the constant k0 once it has been seen"
        k, S = self.k0, z3.Select
        fr = z3.And(seen, self.freed())
        t = subs.term
        dom, vals = MV.dom(t), MV.vals(t)
        R, N = RelaxVar(k), OldVal(k)
        was = S(MV.dom(self.s0), k)
        out = [
            ("what is not freed keeps its value", z3.Implies(
                z3.Not(fr), z3.And(S(dom, k) == was, z3.Implies(
                    was, S(vals, k) == z3.If(
                        z3.And(seen, self.want[0], self.want[1] == 0),
                        0, S(MV.vals(self.s0), k)))))),
            ("what is freed has no value", z3.Implies(fr, z3.Not(S(dom, k)))),
            ("its old value is kept by a new constant", z3.And(
                S(dom, N) == fr, z3.Implies(
                    fr, S(vals, N) == self.want[1]))),
            ("relaxation variables are free", z3.Not(S(dom, R)))]
        if isinstance(der, ZMap) and der.T is not None:
            out.append(("the new constant stands for the old", z3.Implies(
                fr, z3.And(S(der.T.dom(der.term), N),
                           S(der.T.vals(der.term), N) == k))))
        else:
            out.append(("nothing freed yet", z3.Not(fr)))
        if isinstance(cons, ZMap) and cons.T is not None:
            ct = cons.term
            has = lambda s: S(MC.dom(ct), s)
            conj = lambda s: S(MC.vals(ct), s)
            s = StrF(k)
            out += [
                ("what is freed is held by its relaxation", z3.Implies(
                    fr, z3.And(has(s), z3.Implies(conj(s), z3.And(
                        held(k), z3.Implies(
                            Val(R) == 1, Val(k) == Val(N))))))),
                ("what is within its relaxation is admitted", z3.Implies(
                    z3.And(has(self.str0), self.within), conj(self.str0)))]
        else:
            out.append(("nothing to hold yet", z3.Not(fr)))
        return out

    def each(self, L):
        if L.src.order is None:
            raise Unsupported("constants in no known order")
        pos, dom = L.src.order[1], L.src.order[2]
        subs = L.loc["substitutions"]
        q = z3.Const("q_var", TVar.sort)
        out = self.say(subs, L.loc["relaxation_constraints"],
                       self.me.__dict__["_derelax_map"], z3.And(
                           z3.Select(dom, self.k0), pos(self.k0) < L.i))
        out += [("what is to come is still there", z3.ForAll(
                    [q], z3.Implies(z3.And(
                        z3.Select(dom, q), pos(q) >= L.i), z3.And(
                            Kind(q) == 0,
                            z3.Select(MV.dom(subs.term), q)))))]
        return out

    loops = {"ConstantsRelaxed.__init__#1": each}

    def ensures(self, old, res, *a, **kw):
        made = [m for m in self.made if m[0] is self.me]
        ok = len(made) == 1 and hasattr(made[0][1], "values") \
            and len(list(made[0][1].values())) == 2
        out = [("ok", "the set is made of the original and relaxations", ok)]
        if not ok:
            return out
        parts = list(made[0][1].values())
        cons = [p for p in parts if p is not self.cs]
        out.append(("ok", "the original constraints are kept",
                    len(cons) == 1))
        if len(cons) != 1:
            return out
        subs = self.me.__dict__.get("substitutions")
        if not isinstance(subs, ZMap) or subs.T is None:
            return out + [("ok", "it has substitutions", False)]
        return out + [("z",) + g for g in self.say(
            subs, cons[0], self.me.__dict__.get("_derelax_map"),
            z3.BoolVal(True))]
