"""Contracts of the division of substitutions into constants, sweeps and linked
variables (C17)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import TObj, TMap, TSet, TText, ZMap, ZSet, ZObj, BOOL
from .contracts import ZContract, REGISTRY, register
from .values import SBool
from .specs_sub import SubsToken
from . import dicts as D

SUB = "gpkit.nomials.substitution:"


def yes(f):
    return bool(SBool(f))


# ---- keys
TKey = TObj("SubKeyT")
TShape = TObj("ShapeT")
TIdx = TObj("IdxT")
NonEmpty = z3.Function("nonempty_shape", TShape.sort, BOOL)
RowShape = z3.Function("shape_of_rows", TShape.sort, TShape.sort)
KShape = z3.Function("shape_of_key", TKey.sort, TShape.sort)
KIdx = z3.Function("idx_of_key", TKey.sort, TIdx.sort)
TShape.attrs.update(__bool__=lambda s: SBool(NonEmpty(s.t)),
                    __radd__=lambda s: lambda o: o + ("...",),
                    __getitem__=lambda s: lambda i: rest(s, i))


def rest(s, i):
    if i == slice(1, None):
        return TShape.wrap(RowShape(s.t))
    raise Unsupported("other axes of a shape")


KWord = z3.Function("word_of_key", TKey.sort, TText.sort)


class Rows:
    "(slice(None),) + idx"
    pv_symbolic = True

    def __init__(self, t):
        self.t = t


def all_rows(idx):
    def add(o):
        if o == (slice(None),):
            return Rows(idx.t)
        raise Unsupported("an index of other axes")
    return add


TIdx.attrs["__radd__"] = all_rows
TKey.attrs.update(
    shape=lambda k: TShape.wrap(KShape(k.t)),
    idx=lambda k: TIdx.wrap(KIdx(k.t)),
    veckey=lambda k: TText.wrap(KWord(k.t)),
    descr=lambda k: {"idx": TIdx.wrap(KIdx(k.t)),
                     "shape": TShape.wrap(KShape(k.t))})

# ---- values: numbers, arrays, lists, functions, ("sweep", ...) pairs
TSub = TObj("SubT")


def pred(name):
    return z3.Function(name, TSub.sort, BOOL)


Callable, HasKey, Nan, Fails = (pred(n) for n in (
    "is_callable", "has_key", "is_nan", "has_no_nan_test"))
HasShape, HasLen, Ragged = (pred(n) for n in (
    "has_shape", "has_len", "is_ragged"))
Swept = pred("is_sweep")
SweepOf = z3.Function("values_swept", TSub.sort, TSub.sort)
ShapeOf = z3.Function("shape_of", TSub.sort, TShape.sort)
ArrOf = z3.Function("as_array", TSub.sort, TSub.sort)
ElAt = z3.Function("element_at", TSub.sort, TIdx.sort, TSub.sort)
RowsAt = z3.Function("rows_at", TSub.sort, TIdx.sort, TSub.sort)


def sub_shape(s):
    if yes(HasShape(s.t)):
        return TShape.wrap(ShapeOf(s.t))
    raise AttributeError("shape")


def sub_has(s):
    def h(name):
        if name == "__call__":
            return SBool(Callable(s.t))
        if name == "key":
            return SBool(HasKey(s.t))
        if name == "__len__":
            return SBool(HasLen(s.t))
        if name == "shape":
            return SBool(HasShape(s.t))
        return False
    return h


def sub_item(s):
    def g(i):
        if isinstance(i, Rows):
            return TSub.wrap(RowsAt(s.t, i.t))
        return TSub.wrap(ElAt(s.t, TIdx.unwrap(i)))
    return g


TSub.attrs.update(shape=sub_shape, __hasattr__=sub_has, __getitem__=sub_item)


def sub_axioms(e):
    s = z3.FreshConst(TSub.sort, "s")
    # an array, with axes if it is made of a sequence
    e.add(z3.ForAll([s], z3.And(HasShape(ArrOf(s)), z3.Implies(
        HasLen(s), NonEmpty(ShapeOf(ArrOf(s))))), patterns=[ArrOf(s)]))


class NotScalar:
    "the elementwise test of an array"
    pv_symbolic = True

    def __bool__(self):
        raise ValueError("the truth value of an array")


class Np:
    "what the code uses of numpy, on values it knows nothing about"
    @staticmethod
    def array(x, dtype=None):
        if yes(HasShape(x.t)):
            return x
        if dtype is None and yes(Ragged(x.t)):
            raise ValueError("ragged")
        return TSub.wrap(ArrOf(x.t))
    asarray = array

    @staticmethod
    def isnan(x):
        if yes(Nan(x.t)):
            return True
        if yes(Fails(x.t)):
            raise TypeError("not supported")
        return NotScalar() if yes(HasLen(x.t)) else False

    def __getattr__(self, name):
        raise Unsupported("numpy's %s of an unknown value" % name)


# ---- what the division should be
def whole(s):
    return z3.If(Swept(s), SweepOf(s), s)


def lookup(s, k):
    "(fails, swept, value) of the substitution s for the key k"
    S = whole(s)
    many = z3.And(NonEmpty(KShape(k)), z3.If(
        HasShape(S), NonEmpty(ShapeOf(S)), HasLen(S)))
    A = z3.If(HasShape(S), S, ArrOf(S))
    same = KShape(k) == ShapeOf(A)
    el = ElAt(A, KIdx(k))
    val = z3.If(many, z3.If(same, whole(el), RowsAt(A, KIdx(k))), S)
    bad = z3.And(many, z3.Not(same), z3.Not(z3.And(
        Swept(s), RowShape(ShapeOf(A)) == KShape(k))))
    return bad, z3.Or(Swept(s), z3.And(many, same, Swept(el))), val


def classify(s, k):
    "in the constants, the sweeps, the links"
    bad, swept, val = lookup(s, k)
    link = z3.And(Callable(val), z3.Not(HasKey(val)))
    return (z3.And(z3.Not(link), z3.Not(swept), z3.Not(Nan(val))),
            z3.And(z3.Not(link), swept), link), val


M = TMap(TKey, TSub)
WHAT = "the constants", "the sweeps", "the linked variables"


def entry(m, k, has, val):
    "m holds val under k exactly if it should"
    if m.T is None:
        return z3.Not(has)
    m = m.term
    return z3.And(z3.Select(M.dom(m), k) == has, z3.Implies(
        has, z3.Select(M.vals(m), k) == val))


def same_entry(m, m0, k):
    m = m.term
    return z3.And(z3.Select(M.dom(m), k) == z3.Select(M.dom(m0), k),
                  z3.Implies(z3.Select(M.dom(m0), k), z3.Select(
                      M.vals(m), k) == z3.Select(M.vals(m0), k)))


def joined(m, m0, k, has, val):
    "m holds val under k if it should, else what it held"
    m = m.term
    return z3.And(
        z3.Select(M.dom(m), k) == z3.Or(has, z3.Select(M.dom(m0), k)),
        z3.Implies(z3.Select(M.dom(m), k), z3.Select(M.vals(m), k) == z3.If(
            has, val, z3.Select(M.vals(m0), k))))


class SplitSweep(ZContract):
    """a pair of the word "sweep" and something to sweep over, and nothing
    else, is a sweep"""
    name = "gpkit.small_scripts:splitsweep"
    props = ("C17",)

    def applies(self, sub):
        return isinstance(sub, ZObj) and sub.T is TSub

    def cases(self, e):
        from collections.abc import Iterable
        TV = TObj("SweepValT")
        it, ca = (z3.Function(n, TV.sort, BOOL) for n in ("iter_", "call_"))
        TV.attrs["__hasattr__"] = lambda v: lambda n: SBool(
            ca(v.t)) if n == "__call__" else False
        T1 = TObj("FirstT")

        def isinst(x, cls):
            if x.T is TText:
                return cls is str or (type(cls) is tuple and str in cls)
            if x.T is TV and cls is Iterable:
                return SBool(it(x.t))
            return None
        e.ghost["isinstance"] = isinst
        self.val = v = TV.new("value")
        self.word, self.good = TText.new("word"), None
        other = T1.new("first")
        shapes = [(self.word, v), [self.word, v], (other, v), ("Sweep", v),
                  ("sweep", 3.0), ("sweep", v), 3.0, None, len, "ab", "sweep",
                  (), (v,), ("sweep",), ("sweep", v, v), [v], {}, {1, 2},
                  Bad(), ("sweep", "text")]
        i = e.choose(len(shapes), "substitution")
        s = shapes[i]
        ok = z3.BoolVal(False)
        if i in (0, 1):
            ok = z3.And(self.word.t == TText.unwrap("sweep"),
                        z3.Or(it(v.t), ca(v.t)))
        elif s == ("sweep", "text"):
            ok, self.val = z3.BoolVal(True), "text"
        elif i == 5:
            ok = z3.Or(it(v.t), ca(v.t))
        self.good = ok
        return (s,), {}

    def ensures(self, old, res, sub):
        sweep, val = res
        if not isinstance(sweep, (bool, SBool)):
            return [("ok", "the first part tells whether it is a sweep",
                     False)]
        t = sweep.c if isinstance(sweep, SBool) else z3.BoolVal(sweep)
        out = [("z", "a sweep exactly when marked as one", t == self.good)]
        if val is not self.val:
            out.append(("z", "the values swept", z3.Not(self.good)))
            out.append(("ok", "nothing else comes back", val is None))
        return out

    def call(self, s):
        if yes(Swept(s.t)):
            return True, TSub.wrap(SweepOf(s.t))
        return False, None

    def fresh(self, old, sub):
        return self.call(sub)


SplitSweep.ensures_top = SplitSweep.ensures
SplitSweep.ensures = lambda self, old, res, sub: self.ensures_top(
    old, res, sub) if E.eng().top is self else []
register(SplitSweep)


class Bad:
    def __iter__(self):
        raise TypeError("not iterable")


class _S(ZContract):
    def setup(self, e):
        import gpkit.nomials.substitution as S
        old = {k: S.__dict__[k] for k in ("np", "KeySet")}
        S.np, S.KeySet = Np(), self.keyset

        def undo():
            S.__dict__.update(old)
        return undo

    def keyset(self, keys):
        raise Unsupported("a key set is made")


@register
class AppendSub(_S):
    """each key's value is put in the one place it belongs, and nothing else
    changes"""
    name = SUB + "append_sub"
    props = ("C17",)
    assumes = ["append_sub: values with a length are sequences (their arrays"
               " have axes), and the keys of one substitution are all"
               " scalars or all elements of vectors"]
    allow_mut = staticmethod(lambda args: list(args[2:]))

    def applies(self, sub, *a):
        return isinstance(sub, ZObj) and sub.T is TSub

    def cases(self, e):
        sub_axioms(e)
        self.sub = TSub.new("sub")
        self.keys = e.fresh("keys", z3.ArraySort(TKey.sort, BOOL))
        self.k0 = e.fresh("k0", TKey.sort)
        k = z3.FreshConst(TKey.sort, "k")
        some = e.fresh("shaped", BOOL)
        e.add(z3.ForAll([k], z3.Implies(self.keys[k], NonEmpty(
            KShape(k)) == some), patterns=[self.keys[k]]))
        self.maps = [ZMap(M, M.fresh(n)) for n in ("cons", "swe", "lin")]
        self.maps0 = [m.term for m in self.maps]
        return (self.sub, ZSet(TSet(TKey), self.keys)) + tuple(self.maps), {}

    def raises(self, old, sub, keys, *maps):
        if E.eng().top is not self:
            k = z3.FreshConst(TKey.sort, "k")
            bad = z3.Exists([k], z3.And(self.member(keys, k), lookup(
                sub.t, k)[0]))
            return [(ValueError, SBool(bad), True)]
        k = z3.FreshConst(TKey.sort, "k")
        bad = z3.Exists([k], z3.And(self.keys[k], lookup(self.sub.t, k)[0]))
        return [(ValueError, SBool(bad), False),
                (ValueError, SBool(z3.And(self.keys[self.k0], lookup(
                    self.sub.t, self.k0)[0])), True)]

    @staticmethod
    def member(keys, k):
        if type(keys) is ZSet:
            return z3.Select(keys.term, k)
        if type(keys) in (list, tuple):
            return z3.Or([k == TKey.unwrap(x) for x in keys])
        raise Unsupported("keys of another kind")

    def each(self, L):
        s, k = self.sub.t, self.k0
        bad = lookup(s, k)[0]
        which, val = classify(s, k)
        S = whole(s)
        out = [("the substitution, perhaps as an array", z3.Or(
                    L.loc["sub"].t == S, z3.And(
                        L.loc["sub"].t == ArrOf(S), z3.Not(HasShape(S)),
                        z3.Exists([self.q], z3.And(
                            L.done[self.q], NonEmpty(KShape(self.q)))),
                        HasLen(S)))),
               ("values of the right shape so far", z3.Not(z3.And(
                   L.done[k], bad)))]
        for m, m0, h, w in zip(self.maps, self.maps0, which, WHAT):
            out.append((w + " so far", joined(
                m, m0, k, z3.And(L.done[k], h), val)))
        return out

    q = z3.Const("q_shaped", TKey.sort)
    loops = {"append_sub#1": each}

    def ensures(self, old, res, sub, keys, *maps):
        out = []
        if E.eng().top is self:
            which, val = classify(sub.t, self.k0)
            for m, m0, h, w in zip(self.maps, self.maps0, which, WHAT):
                out.append(("z", w, joined(m, m0, self.k0, z3.And(
                    self.keys[self.k0], h), val)))
            return out
        k = z3.FreshConst(TKey.sort, "k")
        which, val = classify(sub.t, k)
        for m, m0, h in zip(maps, old, which):
            if m.T is None:
                m._set_type(M)
            m.put(M.fresh("after"))
            m.order = None
            m._over += 1
            out.append(("z", "the place it belongs", z3.ForAll(
                [k], joined(m, m0, k, z3.And(self.member(keys, k), h), val),
                patterns=[z3.Select(M.dom(m.term), k)])))
        return out

    def pre(self, sub, keys, *maps):
        return [m.term if m.T is not None else M.empty for m in maps]

    def requires(self, sub, keys, *maps):
        return [("ok", "three places", len(maps) == 3 and all(
            type(m) is ZMap for m in maps))]

    def fresh(self, old, *args):
        return None


TAny = TObj("MapKeyT")
KK = TMap(TAny, TSet(TKey))
SS = TMap(TAny, TSub)
HasK = z3.Function("has_key_attr", TAny.sort, BOOL)
KeyA = z3.Function("key_of", TAny.sort, TAny.sort)


def any_key(v):
    if yes(HasK(v.t)):
        return TAny.wrap(KeyA(v.t))
    raise AttributeError("key")


TAny.attrs["key"] = any_key
AsAny = z3.Function("as_map_key", TKey.sort, TAny.sort)


class KeyMapStub:
    "a set of keys with its map of names"
    pv_symbolic = True

    def __init__(self, term):
        self.stale = ZMap(KK, KK.fresh("stale_keymap"))
        self.fresh = ZMap(KK, term)
        self.current = False

    def update_keymap(self):
        self.current = True

    @property
    def keymap(self):
        return self.fresh if self.current else self.stale


class KeyDictStub(ZMap):
    "substitutions that know their keys; the raw entries are the dict's"
    keymap = ()
    update_keymap = staticmethod(lambda: None)

    def __getitem__(self, k):
        raise Unsupported("an entry looked up through the key map")

    def __contains__(self, k):
        raise Unsupported("an entry looked up through the key map")


class ParseSubs(_S):
    """the values of the keys present, each in the one place it belongs; also
    used, with what it returns, in the substitution of values (C02)"""
    name = SUB + "parse_subs"
    props = ("C17",)
    both_modes = True
    assumes = ["parse_subs: two names in one substitution do not stand for the"
               " same variable (which of them wins is not specified)"]
    allow_mut = staticmethod(lambda args: [])

    def applies(self, varkeys, substitutions, clean=False):
        return isinstance(substitutions, SubsToken)

    def fresh(self, old, varkeys, substitutions, clean=False):
        return (E.eng().ghost["fixed"], D.PvDict(), D.PvDict())

    def cases(self, e):
        sub_axioms(e)
        self.k0 = k0 = e.fresh("k0", TKey.sort)
        self.vks = e.fresh("varkeys", z3.ArraySort(TKey.sort, BOOL))
        self.kmap = KK.fresh("keymap")
        self.mode = e.choose(4, "substitutions")
        e.ghost["default_types"] = {}
        k, v = z3.FreshConst(TKey.sort, "k"), z3.FreshConst(TAny.sort, "v")
        if self.mode == 0:           # clean: only keys
            S = TMap(TKey, TSub)
            self.subs = S.fresh("subs")
            self.given = z3.And(self.vks[k0], z3.Select(S.dom(self.subs), k0))
            self.sub = z3.Select(S.vals(self.subs), k0)
            return (ZSet(TSet(TKey), self.vks), ZMap(S, self.subs)), {
                "clean": True}
        self.subs = SS.fresh("subs")
        kd, kv = KK.dom(self.kmap), KK.vals(self.kmap)
        sd = SS.dom(self.subs)
        # what a name stands for has one kind: scalars, or elements of vectors
        shaped = z3.Function("stands_for_elements", TAny.sort, BOOL)
        e.add(z3.ForAll([v, k], z3.Implies(z3.Select(kv[v], k), z3.And(
            self.vks[k], NonEmpty(KShape(k)) == shaped(v))),
            patterns=[z3.Select(kv[v], k)]))

        def name(v):
            if self.mode == 1:       # the raw keys of a KeyDict
                return v
            return z3.If(HasK(v), KeyA(v), v)

        def match(v):
            return z3.And(sd[v], kd[name(v)], z3.Select(kv[name(v)], k0))
        self.v0 = v0 = e.fresh("v0", TAny.sort)
        # one name at most stands for k0
        e.add(z3.ForAll([v], z3.Implies(match(v), v == v0),
                        patterns=[sd[v]]))
        self.match, self.name_of = match, name
        self.given = match(v0)
        self.sub = z3.Select(SS.vals(self.subs), v0)
        if self.mode == 1:
            subs = KeyDictStub(SS, self.subs)
        else:
            subs = ZMap(SS, self.subs)
        if self.mode == 3:
            vks = ZSet(TSet(TKey), self.vks)
        else:
            vks = KeyMapStub(self.kmap)
        return (vks, subs), {}

    def keyset(self, keys):
        e = E.eng()
        e.oblige_z("the key set is made of the keys given", z3.BoolVal(
            type(keys) is ZSet and keys.term.eq(self.vks)))
        return KeyMapStub(self.kmap)

    def raises(self, old, *args, **kw):
        if E.eng().top is not self:
            return []
        return [(ValueError, True, False),
                (ValueError, SBool(z3.And(self.given, lookup(
                    self.sub, self.k0)[0])), True)]

    def places(self, L, done):
        which, val = classify(self.sub, self.k0)
        out = [("values of the right shape so far", z3.Not(z3.And(
            self.given, done, lookup(self.sub, self.k0)[0])))]
        for n, h, w in zip(("constants", "sweep", "linkedsweep"), which, WHAT):
            out.append((w + " so far", entry(L.loc[n], self.k0, z3.And(
                self.given, done, h), val)))
        return out

    def clean(self, L):
        return self.places(L, L.done[self.k0])

    def by_name(self, L):
        return self.places(L, L.done[self.name_of(self.v0)]
                           if self.mode == 1 else L.done[self.v0])

    loops = {"parse_subs#1": clean, "parse_subs#2": by_name,
             "parse_subs#3": by_name}
    var_types = {"constants": M, "sweep": M, "linkedsweep": M}

    def ensures(self, old, res, *args, **kw):
        if E.eng().top is not self:
            return []
        which, val = classify(self.sub, self.k0)
        return [("z", w, entry(m, self.k0, z3.And(self.given, h), val))
                for m, h, w in zip(res, which, WHAT)]


register(ParseSubs)
