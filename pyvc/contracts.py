"""Contracts: one text, used both to verify a function and to stand for it at
its call sites.

A contract has   cases(e)     -> symbolic arguments (one per path, via e.choose)
                 applies(...) -> is this call within the contract's domain?
                 pre(...)     -> snapshot of what `ensures` refers to
                 raises(...)  -> [(exception class, condition, must)]
                 fresh(...)   -> arbitrary result / arbitrary new state
                 ensures(...) -> [goal]   goals: ("eq",name,p,q) ("z",name,f)
                                                 ("ok",name,bool)
Verification: every goal becomes an obligation on every path of the real body.
Call sites: the same goals are assumed of a fresh result.
"""
import functools
import re
import time
import z3
from . import engine as E
from . import dicts as D
from .engine import Unsupported, Infeasible, Control
from .poly import Poly
from .values import SBool, SReal, SHash

REGISTRY = {}
SYMBOLIC = re.compile(r"\b(Z[A-Z]\w*|S(Real|Bool|Hash|Qty|Units|UnitStr|Int"
                      r"|Index)|Sym\w*|Pv[A-Z]\w+|View|GenZ|IdxSource"
                      r"|SetSource|GrowSet|Bag|Strs)\b")


class Contract:
    name = None          # "module:Class.attr" or "module:func"
    props = ()           # property ids this function carries
    trusted = False
    inline_in = ()       # contracts in whose verification the body is inlined
    track = {}
    allow_mut = staticmethod(lambda args: [])
    is_property = False
    timeout = 4000

    def applies(self, *args, **kw):
        return True

    def cases(self, e):
        raise NotImplementedError

    def pre(self, *args, **kw):
        return {}

    def raises(self, old, *args, **kw):
        return []

    def fresh(self, old, *args, **kw):
        raise NotImplementedError

    def ensures(self, old, res, *args, **kw):
        return []

    def requires(self, *args, **kw):
        return []


class ZContract(Contract):
    """over z3 containers (zv.py); loops: {"function#k": f(self, L) ->
    [(name, formula)]} declared invariants"""
    zmode = True
    timeout = 10000
    loops = {}
    loop_locals = {}


def register(cls):
    c = cls()
    REGISTRY[c.name] = c
    return cls


def resolve(gp, name):
    "(owner, attr, object) of a contract target, or None if it is gone"
    mod, path = name.split(":")
    import importlib
    try:
        obj = importlib.import_module(mod)
    except ImportError:
        return None
    parts = path.split(".")
    for p in parts[:-1]:
        obj = getattr(obj, p, None)
        if obj is None:
            return None
    owner = obj
    attr = parts[-1]
    if isinstance(owner, type):
        if attr not in owner.__dict__:
            return None
        return owner, attr, owner.__dict__[attr]
    if not hasattr(owner, attr):
        return None
    return owner, attr, getattr(owner, attr)


_installed = {}


def install(gp, names=None):
    "wrap the contracted functions of the instrumented modules"
    missing = []
    for name, c in REGISTRY.items():
        if names is not None and name not in names:
            continue
        if name in _installed:
            continue
        r = resolve(gp, name)
        if r is None:
            missing.append(name)
            continue
        owner, attr, raw = r
        if isinstance(raw, property):
            w = property(wrap(c, raw.fget), raw.fset, raw.fdel)
            real = raw.fget
        else:
            w = wrap(c, raw)
            real = raw
        c.real = real
        setattr(owner, attr, w)
        if not isinstance(owner, type):
            rebind(raw, w)
        _installed[name] = c
    return missing


def rebind(raw, w):
    "from-imports of a module-level function"
    import sys
    for mname, m in list(sys.modules.items()):
        if mname.startswith("gpkit") and m is not None:
            for k, v in list(vars(m).items()):
                if v is raw:
                    setattr(m, k, w)


def wrap(c, real):
    @functools.wraps(real)
    def wrapper(*args, **kw):
        e = E.ENG
        if e is None or (getattr(c, "zmode", False) != e.zmode
                         and e.top is not c
                         and not getattr(c, "both_modes", False)):
            return real(*args, **kw)
        if e.top is c and e.top_calls == 0:
            e.top_calls += 1
            return real(*args, **kw)
        if e.top is not None and (c.name in e.top_inline):
            return real(*args, **kw)
        if not c.applies(*args, **kw):
            return real(*args, **kw)
        return call_stub(c, e, args, kw)
    wrapper.pv_contract = c
    return wrapper


def make_exc(exc):
    from . import rt
    return rt.dimensionality_error() if exc is rt.GP.DimensionalityError \
        else exc("specified by the contract")


def call_stub(c, e, args, kw):
    e.used_contracts.add(c.name)
    for g in c.requires(*args, **kw):
        check_goal(e, g, "requires(%s)" % c.name)
    old = c.pre(*args, **kw)
    for exc, cond, must in c.raises(old, *args, **kw):
        if must:
            if bool(cond):
                raise make_exc(exc)
        else:
            if cond is not False and bool(cond):
                if e.choose(2, "may raise"):
                    raise make_exc(exc)
    if c.allow_mut is not Contract.allow_mut:
        for obj in c.allow_mut(args):
            e.on_mutate(obj, "call of %s" % c.name)
    res = c.fresh(old, *args, **kw)
    for g in c.ensures(old, res, *args, **kw):
        assume_goal(e, g)
    post_literal(e, res)
    for obj in c.allow_mut(args):
        post_literal(e, obj)
    return res


def post_literal(e, res):
    "record provably-zero counts as literals"
    for obj in (res if isinstance(res, (list, tuple)) and
                not isinstance(res, str) else [res]):
        hm = getattr(obj, "hmap", obj) if not isinstance(obj, dict) else obj
        if D.is_symmap(hm):
            st = hm._pv_st
            for f in list(st.folds):
                if D.FOLDS[D.fname(f)].group == "count" and D.fname(f) != "n":
                    v = z3.simplify(st.folds[f])
                    if not z3.is_int_value(v) and e.entails(v == 0, 1000):
                        st.folds[f] = z3.IntVal(0)
            if st.base is not None and not st.chain:
                st.base.folds0 = dict(st.folds)


def check_goal(e, g, prefix):
    kind, name = g[0], prefix + ":" + g[1]
    if kind == "eq":
        return e.oblige_eq(name, g[2], g[3])
    if kind == "z":
        return e.oblige_z(name, g[2])
    if kind == "ok":
        ok = g[2]
        if isinstance(ok, SBool):
            return e.oblige_z(name, ok.c)
        ok = bool(ok)
        return e.oblige(name, ok, g[3] if len(g) > 3 else "",
                        backend="structural")
    raise AssertionError(kind)


def assume_goal(e, g):
    if g[0] == "eq":
        e.assume_zero(g[2] - g[3])
    elif g[0] == "z":
        e.add(g[2])
    elif g[0] == "ok":
        if isinstance(g[2], bool) and not g[2]:
            raise Infeasible()


def common_setup(gp, e):
    "module-level constants that are pint objects, as symbolic quantities"
    from .values import SQty, SUnits
    if not hasattr(gp, "pv_dimless"):
        gp.NomialMap.units = LazyUnits(None)
        gp.data.NomialData.units = LazyUnits(AttributeError)
        gp.pv_dimless = getattr(gp.map, "DIMLESS_QUANTITY", None)
    if gp.pv_dimless is not None:
        gp.map.DIMLESS_QUANTITY = SQty(Poly.const(1), SUnits(Poly.const(1),
                                                             Poly.const(0)))


class LazyUnits:
    """descriptor: units of symbolic inputs (None or a unit) are chosen when
    first read; any stored value is returned as is"""
    def __init__(self, default):
        self.default = default

    def __get__(self, obj, cls=None):
        if obj is None:
            return self.default
        v = obj.__dict__.get("units", self)
        if v is self:
            if self.default is AttributeError:
                raise AttributeError("units")
            return self.default
        if type(v) is LazyChoice:
            v = v.force()
        return v

    def __set__(self, obj, val):
        obj.__dict__["units"] = val

    def __delete__(self, obj):
        del obj.__dict__["units"]


class LazyChoice:
    def __init__(self, maker):
        self.maker, self.done = maker, False

    def force(self):
        if not self.done:
            self.val, self.done = self.maker(), True
        return self.val


def verify(c, gp, deadline_s=120, extra_inline=()):
    "all obligations of one contract, on the current source"
    e = E.Engine(c.name, timeout_ms=c.timeout,
                 deadline=time.time() + deadline_s)
    for k, v in c.track.items():
        e.track[k] = list(v)
    e.contract = c
    e.zmode = getattr(c, "zmode", False)
    e.MAX_PATHS = getattr(c, "max_paths", e.MAX_PATHS)
    inl = set(getattr(c, "inline", ())) | set(extra_inline)

    def harness(e):
        e.top, e.top_calls, e.top_inline = c, 0, inl
        e.ghost.clear()
        common_setup(gp, e)
        setup = getattr(c, "setup", None)
        undo = setup(e) if setup else None
        try:
            args, kw = c.cases(e)
            old = c.pre(*args, **kw)
            e.frame_start = len(e.objects)
            e.frame_allowed = {o._pv_serial for o in c.allow_mut(args)}
            try:
                res = c.invoke(*args, **kw) if hasattr(c, "invoke") \
                    else c.real(*args, **kw)
            except Control:
                raise
            except Exception as exc:      # pylint: disable=broad-except
                e.frame_start = None
                if e.zmode and e.unsettled():
                    return
                for cls, cond, must in c.raises(old, *args, **kw):
                    if isinstance(exc, cls):
                        ok = cond if isinstance(cond, bool) else \
                            e.entails(cond.c)
                        e.oblige("raises(%s):only when specified"
                                 % cls.__name__, ok,
                                 "raised %r" % (exc,), backend="structural")
                        return
                if e.zmode and (e.unsettled()
                                or e.entails(z3.BoolVal(False))):
                    return
                if isinstance(exc, (TypeError, AttributeError)) and \
                        SYMBOLIC.search(str(exc)):
                    # an operation the symbolic stand-in does not have
                    raise Unsupported("%s: %s" % (type(exc).__name__, exc))
                import traceback
                tb = traceback.extract_tb(exc.__traceback__)
                where = ["%s:%s" % (f.filename.rsplit("/", 1)[-1], f.lineno)
                         for f in tb[-6:]]
                e.oblige("no unexpected exception", False,
                         "%s: %s at %s" % (type(exc).__name__, exc, where))
                return
            e.frame_start = None
            for cls, cond, must in c.raises(old, *args, **kw):
                if must:
                    if isinstance(cond, bool):
                        e.oblige("raises(%s):whenever specified"
                                 % cls.__name__, not cond,
                                 backend="structural")
                    else:
                        e.oblige_z("raises(%s):whenever specified"
                                   % cls.__name__, z3.Not(cond.c))
            try:
                for g in c.ensures(old, res, *args, **kw):
                    check_goal(e, g, "ensures")
            except Control:
                raise
            except Exception as exc:      # pylint: disable=broad-except
                if e.zmode and (e.unsettled()
                                or e.entails(z3.BoolVal(False))):
                    return
                import traceback
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                e.oblige("ensures:result of the specified form", False,
                         "%s: %s (result %.200r; %s:%s)"
                         % (type(exc).__name__, exc, res, tb.filename,
                            tb.lineno))
            # vacuity: this path must be satisfiable (not refutable)
            if e.final_vacuity():
                e.reached += 1
        finally:
            if undo:
                undo()
            if gp.pv_dimless is not None:
                gp.map.DIMLESS_QUANTITY = gp.pv_dimless
    e.reached = 0

    def final_vacuity():
        return e.check(timeout=1500) != z3.unsat
    e.final_vacuity = final_vacuity
    t0 = time.time()
    e.explore(harness)
    e.wall = time.time() - t0
    return e
