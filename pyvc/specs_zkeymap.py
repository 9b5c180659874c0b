"""Names and keys of dictionaries and sets of variables (C15)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import TObj, TSet, TMap, TSeq, INT, BOOL
from .contracts import ZContract, register
from .values import SBool
from .specs_zgp import empty_default

KM = "gpkit.keydict:"
# names and variables' keys share one sort: both may be looked up
TKey = TObj("KeyOrName")
TKeys = TSet(TKey)
TMapping = TMap(TKey, TKeys)
Names = z3.Function("names_of", TKey.sort, TKeys.sort)
IsKey, HasIdx = (z3.Function(n, TKey.sort, BOOL) for n in (
    "is_a_key", "is_of_an_element"))
Vec = z3.Function("vector_of", TKey.sort, TKey.sort)
Idx = z3.Function("index_of", TKey.sort, zv.TInt.sort)
m0, k0 = z3.Const("m0", TKey.sort), z3.Const("k0", TKey.sort)
kq = z3.Const("k!q", TKey.sort)


class Sym:
    pv_symbolic = True


class Holder(Sym):
    "a dictionary or set of variables"


def yes(f):
    return bool(SBool(f))


def view(h):
    "the keys under each name, the names held, and the unmapped keys"
    t = TMapping.unwrap(h.keymap)
    return {"D": TMapping.dom(t), "V": TMapping.vals(t),
            "U": TKeys.unwrap(h._unmapped_keys)}


def under(s, m=m0, k=k0):
    return z3.And(s["D"][m], s["V"][m][k])


class _K(ZContract):
    props = ("C15",)

    def applies(self, *a, **kw):
        return False

    def holder(self, e):
        e.ghost["tuples"] = ()
        e.ghost["default_types"] = {set: lambda kt: TKeys}
        e.ghost["default_value"] = empty_default
        e.ghost["roots"] = {}
        h = Holder()
        h.keymap = TMapping.new("keymap")
        h.keymap.default = set
        h._unmapped_keys = TKeys.new("unmapped")
        # no name is held of no keys
        self.was = w = view(h)
        TKey.attrs["keys"] = lambda v: TKeys.wrap(Names(v.t))
        return h


@register
class UpdateKeymap(_K):
    """every key not yet mapped is found under each of its names, and nothing
    else changes"""
    name = KM + "KeyMap.update_keymap"
    var_types = {"copied": TKeys}

    @staticmethod
    def allow_mut(args):
        h = args[0]
        return [h.keymap, h._unmapped_keys] if isinstance(h, Holder) else []

    def cases(self, e):
        self.h = self.holder(e)
        return (self.h,), {}

    def say(self, done, more=None):
        "done: keys mapped; more: (a key, those of its names mapped)"
        n, w = view(self.h), self.was
        new = lambda m, k: z3.And(done[k], Names(k)[m])
        if more:
            key, names = more
            base = new
            new = lambda m, k: z3.Or(base(m, k), z3.And(
                k == key, names[m]))
        return [("keys under their names", under(n) == z3.Or(
            under(w), new(m0, k0))),
                ("no name is held of no key", z3.Implies(
                    n["D"][m0], z3.Or(w["D"][m0], z3.Exists(
                        [kq], new(m0, kq))))),
                ("names are not lost", z3.Implies(w["D"][m0], n["D"][m0]))]

    def outer(self, L):
        self.outer_done = L.done
        return self.say(L.done)

    def inner(self, L):
        key = L.loc["key"].t
        # the keys before this one
        return self.say(self.outer_done, (key, L.done))

    loops = {"KeyMap.update_keymap#1": outer,
             "KeyMap.update_keymap#2": inner}

    def ensures(self, old, res, h):
        w = self.was
        return [("z",) + g for g in self.say(w["U"])] + [
            ("z", "all keys are mapped", z3.Not(
                TKeys.unwrap(h._unmapped_keys)[k0])),
            ("ok", "nothing is returned", res is None)]


def keyset(e, me):
    "a set of variables whose elements are an arbitrary set"
    from gpkit.keydict import KeySet

    class Store(KeySet.__mro__[2]):
        pv_symbolic = True

        def update(self, keys):
            self.pv_held.update(keys)

    class Held(KeySet, Store):
        pv_symbolic = True
        __hash__ = object.__hash__

        def parse_and_index(self, key):
            "names are mapped when asked for (see there)"
            return key, None
    h = Held.__new__(Held)
    h.pv_held = TKeys.new("held")
    base = me.holder(e)
    h.keymap, h._unmapped_keys = base.keymap, base._unmapped_keys
    me.held = TKeys.unwrap(h.pv_held)
    return h


@register
class SetUpdate(_K):
    "the keys given are held, under themselves, and wait for their names"
    name = KM + "KeySet.update"

    @staticmethod
    def allow_mut(args):
        h = args[0]
        return [h.keymap, h._unmapped_keys, h.pv_held] \
            if hasattr(type(h), "pv_symbolic") else []

    def cases(self, e):
        self.h = keyset(e, self)
        self.given = TKeys.new("keys")
        return (self.h, self.given), {}

    def say(self, done):
        n, w = view(self.h), self.was
        return [("keys under themselves", under(n) == z3.Or(
            under(w), z3.And(done[m0], m0 == k0))),
                ("nothing else is held", n["D"][m0] == z3.Or(
                    w["D"][m0], done[m0]))]

    def each(self, L):
        return self.say(L.done)

    loops = {"KeySet.update#1": each}

    def ensures(self, old, res, h, keys):
        g = TKeys.unwrap(keys)
        return [("z",) + x for x in self.say(g)] + [
            ("z", "the keys given are held", TKeys.unwrap(h.pv_held)[k0]
             == z3.Or(self.held[k0], g[k0])),
            ("z", "their names are still to be mapped",
             view(h)["U"][k0] == z3.Or(self.was["U"][k0], g[k0]))]


@register
class SetLookup(_K):
    """the keys of a name are those mapped to it; asking holds nothing"""
    name = KM + "KeySet.__getitem__"

    @staticmethod
    def allow_mut(args):
        return []

    def cases(self, e):
        self.h = keyset(e, self)
        self.asked = TKey.wrap(z3.Const("asked", TKey.sort))
        return (self.h, self.asked), {}

    def raises(self, old, h, key):
        return [(KeyError, SBool(z3.Not(self.was["D"][key.t])), False)]

    def ensures(self, old, res, h, key):
        n, w = view(h), self.was
        got = TKeys.empty if isinstance(res, (set, frozenset)) and not res \
            else TKeys.unwrap(res)
        return [("z", "the keys mapped to it", got[k0] == under(w, key.t)),
                ("z", "no name is held that was not", n["D"][m0]
                 == w["D"][m0]),
                ("z", "no key is moved", under(n) == under(w))]
