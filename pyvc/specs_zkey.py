"""Contracts of VarKey (C16)."""
import z3
from . import engine as E
from .text import ZTxt, ZThing, ZFun, TX, pieces
from .contracts import ZContract, register
from .values import SBool
from .zv import INT, BOOL, ZI

VKM = "gpkit.varkey:"
LinStr = z3.Function("lineagestr", INT, BOOL, TX)


def atom(e, name):
    return TX.leaf(e.fresh(name, INT))


def term(x):
    return ZTxt(*pieces(x)).t


class Units:
    "what qty() makes of a unit text"
    pv_symbolic = True

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        raise E.Unsupported("hash of units")


def lineagestr(lineage, modelnums=True):
    if not isinstance(lineage, ZThing):
        lineage = getattr(lineage, "lineage", None)
    if not lineage:
        return ""
    return ZTxt(TX.leaf(z3.If(z3.BoolVal(bool(modelnums)), z3.Function(
        "lin_text", INT, INT)(lineage.i), z3.Function(
            "lin_names", INT, INT)(lineage.i))))


def patched(e):
    import gpkit.varkey as m
    VarKey = m.VarKey
    old = m.qty, VarKey.__dict__.get("lineagestr"), VarKey.unique_id
    m.qty = lambda u: u if isinstance(u, Units) else Units(term(u))
    VarKey.lineagestr = lineagestr
    e.ghost["bags"] = True

    def undo():
        m.qty = old[0]
        VarKey.unique_id = old[2]
        if old[1] is None:
            del VarKey.lineagestr
        else:
            VarKey.lineagestr = old[1]
    return undo


UNITS = ("absent", "None", "", "-", "text", "again", "again -")


class Given:
    "arbitrary arguments of a key; identity: name, lineage, index, units"

    def __init__(self, e, tag, small=False, named=True, elements=True):
        self.e, self.d = e, {}
        self.name = None
        if named:
            self.name = self.d["name"] = ZTxt(atom(e, tag + "name"))
        self.lin = self.idx = None
        if e.choose(2, "lineage"):
            self.lin = self.d["lineage"] = ZThing(
                e.fresh(tag + "lineage", INT), tuple)
        elif not small and e.choose(2, "no lineage"):
            self.d["lineage"] = None
        if elements and e.choose(2, "index"):
            self.idx = self.d["idx"] = ZThing(e.fresh(tag + "idx", INT),
                                              tuple)
            self.d["shape"] = ZThing(e.fresh(tag + "shape", INT), tuple)
        elif e.choose(2, "vector"):
            self.d["shape"] = ZThing(e.fresh(tag + "shape", INT), tuple)
        kind = UNITS[e.choose(2 if small else len(UNITS), "units")]
        if small and kind == "None":
            kind = "text"
        self.unit = None
        if kind in ("text", "again"):
            t = ZTxt(atom(e, tag + "units"))
            self.unit = t
            if kind == "text":
                self.d["units"] = t
            else:
                self.d["units"] = Units(t.t)
                self.d["unitrepr"] = t
        elif kind == "again -":
            self.d["units"], self.d["unitrepr"] = None, "-"
        elif kind != "absent":
            self.d["units"] = None if kind == "None" else kind
        # what takes no part in identity
        self.d["label"] = ZTxt(atom(e, tag + "label"))
        self.d["value"] = ZFun(e.fresh(tag + "fn", INT)) if e.choose(
            2, "function") else ZThing(e.fresh(tag + "value", INT))
        self.d["other"] = ZThing(e.fresh(tag + "other", INT))
        if not small and e.choose(2, "necessary"):
            self.d["necessarylineage"] = True

    def make(self):
        from gpkit.varkey import VarKey
        return VarKey(**dict(self.d))

    def same(self, o):
        def opt(a, b, f):
            if a is None or b is None:
                return z3.BoolVal(a is None and b is None)
            return f(a) == f(b)
        return z3.And(opt(self.name, o.name, term),
                      opt(self.lin, o.lin, lambda x: x.i),
                      opt(self.idx, o.idx, lambda x: x.i),
                      opt(self.unit, o.unit, term))


def holds(g, k, units=True):
    "goals: the key k has the identity given by g"
    def opt(name, got, want, f):
        if want is None or got is None:
            return ("ok", name, not want and not got, "%r %r" % (got, want))
        return ("z", name, f(got) == f(want))
    out = [opt("lineage", k.lineage, g.lin, lambda x: x.i),
           opt("index", k.idx, g.idx, lambda x: x.i)]
    if g.name is not None:
        out.append(opt("name", k.name, g.name, term))
    if g.unit is None:
        out.append(("ok", "dimensionless", k.units is None
                    and k.unitrepr == "-", "%r" % (k.descr,)))
    else:
        out += [("ok", "has units", isinstance(k.units, Units)),
                ("z", "units", k.units.t == g.unit.t),
                ("z", "unit text", term(k.unitrepr) == g.unit.t)]
    return out


class Key(ZContract):
    props = ("C16",)
    max_paths = 6000
    setup = staticmethod(patched)

    def applies(self, *a, **kw):
        return False    # the body runs


class Init(Key):
    """a key keeps what it was given, its units made of their text, answers to
    its name, and an element knows the vector it is an element of"""
    name = VKM + "VarKey.__init__"

    def cases(self, e):
        self.e = e
        named = bool(e.choose(2, "named"))
        self.g = Given(e, "k", named=named)
        if self.g.idx is not None and e.choose(2, "vector known"):
            from gpkit.varkey import VarKey
            self.vec = self.g.d["veckey"] = VarKey("a vector")
        else:
            self.vec = None
        return (), {}

    def invoke(self):
        from gpkit.varkey import VarKey
        self.e.top_calls += 1
        self.uid = []

        def new_id():
            # numbers handed out are new (contract of Count.next)
            u = self.e.fresh("uid", INT)
            self.e.add(z3.And(u >= 0, *[u > v for v in self.uid]))
            self.uid.append(u)
            return ZI(u)
        VarKey.unique_id = staticmethod(new_id)
        self.other = VarKey() if self.g.name is None else None
        k = VarKey.__new__(VarKey)
        self.real(k, **dict(self.g.d))
        return k

    def ensures(self, old, k):
        g = self.g
        out = holds(g, k)
        out.append(("ok", "is its own key", k.key is k))
        for a, v in g.d.items():
            if a not in ("name", "units", "unitrepr"):
                out.append(("ok", "keeps what it was given",
                            k.descr.get(a) is v, a))
        out.append(("ok", "its name is among its names", any(
            x is k.name or (type(x) is ZTxt and z3.is_true(z3.simplify(
                x.t == term(k.name)))) for x in k.keys if not isinstance(
                    x, type(k))), "%r" % (list(k.keys),)))
        if g.name is None:
            out.append(("z", "an unnamed key gets a new name",
                        term(k.name) != term(self.other.name)))
        if g.idx is None:
            out.append(("ok", "no index is made up", "idx" not in k.descr
                        or not k.descr["idx"]))
        elif self.vec is not None:
            out += [("ok", "the vector given", k.veckey is self.vec),
                    ("ok", "its vector is among its names", any(
                        x is self.vec for x in k.keys))]
        else:
            v = k.veckey
            vg = Given.__new__(Given)
            vg.name, vg.lin, vg.idx, vg.unit = g.name, g.lin, None, g.unit
            out += [(x[0], "vector of the element: " + x[1]) + x[2:]
                    for x in holds(vg, v)]
            out.append(("ok", "the vector has no index",
                        "idx" not in v.descr))
            if g.name is None:
                out.append(("z", "vector of the element: name",
                            term(v.name) == term(k.name)))
            out.append(("ok", "the vector keeps the shape",
                        v.descr.get("shape") is g.d.get("shape")))
        return out


class Next(ZContract):
    "every number handed out is larger than those before"
    name = "gpkit.small_classes:Count.next"
    props = ("C16",)

    def cases(self, e):
        from gpkit.small_classes import Count
        self.c = Count()
        self.n = e.fresh("count", INT)
        self.c.count = ZI(self.n)
        self.first = Count()
        return (self.c,), {}

    def applies(self, *a):
        return False

    def ensures(self, old, res, c):
        return [("z", "new", res.t > self.n),
                ("z", "remembered", c.count.t >= res.t),
                ("ok", "starts anew", isinstance(self.first.count, int))]


class Eq(Key):
    """two keys are equal exactly when name, lineage, index and units agree;
    nothing else is equal to a key"""
    name = VKM + "VarKey.__eq__"

    def cases(self, e):
        self.e = e
        self.a = Given(e, "a", small=True)
        self.b = Given(e, "b", small=True) if e.choose(4, "other") else None
        return (), {}

    def invoke(self):
        self.e.top_calls += 1
        a = self.a.make()
        if self.b is None:
            return a, None, [self.real(a, x) for x in (
                "text", 1, None, (), self.a.name)]
        b = self.b.make()
        return a, b, self.real(a, b)

    def ensures(self, old, res):
        a, b, r = res
        if b is None:
            return [("ok", "only keys equal keys", r == [False]*5)]
        f = r.c if isinstance(r, SBool) else z3.BoolVal(bool(r)) \
            if isinstance(r, bool) else None
        if f is None:
            return [("ok", "a truth value", False, "%r" % (r,))]
        same = self.a.same(self.b)
        return [("z", "equal when all agree", z3.Implies(same, f)),
                ("z", "different when one differs", z3.Implies(f, same))]


class Hash(Key):
    "equal keys have equal hashes"
    name = VKM + "VarKey.__hash__"

    def cases(self, e):
        self.e = e
        self.a = Given(e, "a", small=True)
        self.b = Given(e, "b", small=True)
        return (), {}

    def invoke(self):
        self.e.top_calls += 1
        return self.real(self.a.make()), self.real(self.b.make())

    def ensures(self, old, res):
        h = [x.t if isinstance(x, ZI) else z3.IntVal(x) for x in res]
        return [("z", "hashes of equal keys",
                 z3.Implies(self.a.same(self.b), h[0] == h[1]))]


class GetState(Key):
    """the state keeps what identifies the key, holds no function, and a key
    restored from it is the same; the key itself is not changed"""
    name = VKM + "VarKey.__getstate__"

    def cases(self, e):
        self.e = e
        self.a = Given(e, "a", small=True)
        return (), {}

    def invoke(self):
        from gpkit.varkey import VarKey
        self.e.top_calls += 1
        k = self.a.make()
        before = dict(k.descr)
        state = self.real(k)
        kept = set(before) == set(k.descr) and all(
            k.descr[a] is v for a, v in before.items())
        snap = dict(state)
        k2 = VarKey.__new__(VarKey)
        VarKey.__setstate__(k2, state)
        return k, kept, snap, k2, k == k2, VarKey.__hash__(k), \
            VarKey.__hash__(k2)

    def ensures(self, old, res):
        k, kept, snap, k2, same, h1, h2 = res
        out = [("ok", "the key is not changed", kept),
               ("ok", "no function is stored", not any(
                   isinstance(v, ZFun) or callable(v)
                   for v in snap.values()), "%r" % (snap,)),
               ("ok", "equal to the key restored",
                same if isinstance(same, SBool) else same is True)]
        for a, v in k.descr.items():
            if not isinstance(v, ZFun):
                out.append(("ok", "everything else is stored",
                            snap.get(a) is v, a))
        t = [x.t if isinstance(x, ZI) else z3.IntVal(x) for x in (h1, h2)]
        out.append(("z", "hash of the key restored", t[0] == t[1]))
        return out + [(x[0], "restored " + x[1]) + x[2:]
                      for x in holds(self.a, k2)]


class SetState(GetState):
    "as VarKey.__getstate__, from the other end"
    name = VKM + "VarKey.__setstate__"

    def invoke(self):
        from gpkit.varkey import VarKey
        self.e.top_calls += 1
        k = self.a.make()
        state = dict(k.descr)
        state = {a: ZTxt(atom(self.e, "shown")) if isinstance(v, ZFun) else v
                 for a, v in state.items()}
        snap = dict(state)
        k2 = VarKey.__new__(VarKey)
        self.real(k2, state)
        return k, True, snap, k2, k == k2, VarKey.__hash__(k), \
            VarKey.__hash__(k2)


for _c in (Next, Init, Eq, Hash, GetState, SetState):
    register(_c)
