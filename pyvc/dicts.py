"""Symbolic dictionaries and sets of unbounded, unknown content.

A map state is  base (unknown content, or None = empty)  +  an explicit chain
of entries that override it  +  ghost folds over the whole content, kept up to
date at every write.  Fold laws used (definitions of finite sums / counts):
    fold(m[k:=v]) = fold(m) - contrib(k, m[k]) + contrib(k, v)
"""
import itertools
import z3
from . import engine as E
from . import poly as P
from .poly import Poly
from .engine import Unsupported, KSORT, HSORT, REAL, BV
from .values import (SReal, SBool, SHash, HashItem, to_poly, is_num, eq_zero,
                     lt_zero)

LF = z3.Function("L", KSORT, REAL)       # log of the value of a variable
LF2 = z3.Function("L2", KSORT, REAL)     # an arbitrary direction
DEL = object()
_base_ids = itertools.count()


# ------------------------------------------------------------------ keys
_native_terms = {}


def is_symkey(k):
    return getattr(k, "pv_kterm", None) is not None


def kterm(key):
    t = getattr(key, "pv_kterm", None)
    if t is not None:
        return cur_term(t)
    # concrete key: one constant per distinct key
    e = E.eng()
    tab = e.memo.setdefault("native_keys", {})
    for k, t in tab.get(hash(key), ()):
        if k == key:
            return t
    t = z3.Const("key_%s" % sum(len(v) for v in tab.values()), KSORT)
    for lst in tab.values():
        for _, o in lst:
            e.add(t != o)
    tab.setdefault(hash(key), []).append((key, t))
    return t


def cur_term(t):
    e = E.eng()
    for _ in range(20):
        for a, b in e.ksub:
            if a.get_id() == t.get_id():
                t = b
                break
        else:
            return t
    return t


def k_equal(a, b):
    if a is b:
        return True
    sa, sb = is_symkey(a), is_symkey(b)
    if not sa and not sb:
        if is_symmap(a) or is_symmap(b):
            return hv_equal(a, b)
        return a == b
    if not (sa and sb) and (is_symmap(a) or is_symmap(b)):
        return False
    ta, tb = kterm(a), kterm(b)
    if ta.get_id() == tb.get_id():
        return True
    e = E.eng()

    def on_true():
        # substitute the newer constant by the older
        na, nb = _num(ta), _num(tb)
        if na >= nb:
            e.subst_term(ta, tb)
        else:
            e.subst_term(tb, ta)
    return SBool(ta == tb, on_true)


def _num(t):
    n = t.decl().name()
    if "!" in n:
        try:
            return int(n.rsplit("!", 1)[1])
        except ValueError:
            return 0
    return -1


# ------------------------------------------------------------------ states
class Base:
    "unknown content"
    def __init__(self, tag, kind, elem=None):
        e = E.eng()
        self.id = next(e.names)
        self.tag = "%s!%d" % (tag, self.id)
        self.kind = kind
        self.ks = HSORT if kind in ("nm", "hset") else KSORT
        self.has = z3.Function("has_" + self.tag, self.ks, z3.BoolSort())
        self.get = z3.Function("get_" + self.tag, self.ks, REAL)
        self.redirect = None     # (entry_state, loopframe)
        self.elem = elem         # for generic kinds: key -> value maker
        self.genvals = {}
        self.pointwise = []      # callables(key, term) run at each access
        self.invariants = {}     # name -> info, e.g. values nonzero / positive


class MapState:
    def __init__(self, kind, base=None, chain=None, folds=None):
        self.kind, self.base = kind, base
        self.chain = chain if chain is not None else []
        self.folds = folds if folds is not None else {}
        self._h = None

    def copy(self):
        s = MapState(self.kind, self.base, [list(c) for c in self.chain],
                     dict(self.folds))
        s._h = self._h
        return s

    def touched(self):
        self._h = None


def zero_fold(f):
    g = FOLDS[f[0] if isinstance(f, tuple) else f].group
    if g == "add":
        return Poly({})
    if g == "mul":
        return Poly.const(1)
    if g == "count":
        return z3.IntVal(0)
    return z3.BitVecVal(0, 64)


class Fold:
    def __init__(self, name, kinds, group, contrib, fact=None):
        self.name, self.kinds, self.group = name, kinds, group
        self.contrib, self.fact = contrib, fact


def _ite(cond):
    if isinstance(cond, bool):
        return z3.IntVal(int(cond))
    return z3.If(cond.c, z3.IntVal(1), z3.IntVal(0))


def hv_fold(hv, f):
    return fold_of(hv, f)


def M(hv):
    "value of the monomial with exponents hv at the valuation L"
    return P.mk_exp(E.eng().norm(hv_fold(hv, "lmv")))


def _decide(c):
    return bool(c)


FOLDS = {}


def deffold(name, kinds, group, contrib):
    FOLDS[name] = Fold(name, kinds, group, contrib)


def Lk(key):
    return Poly.z(LF(kterm(key)))


def Lk2(key):
    return Poly.z(LF2(kterm(key)))


deffold("lmv", ("hv",), "add", lambda k, v, p: to_poly(v)*Lk(k))
deffold("lmv2", ("hv",), "add", lambda k, v, p: to_poly(v)*Lk2(k))
deffold("n", ("hv", "nm", "g", "set", "hset"), "count", lambda k, v, p: z3.IntVal(1))
deffold("zc", ("hv", "nm"), "count", lambda k, v, p: _ite(eq_zero(to_poly(v))))
deffold("hx", ("hv",), "xor",
        lambda k, v, p: HashItem(kterm(k), E.eng().z(to_poly(v))))
deffold("gm", ("hv",), "mul", lambda k, v, p: gpow(k, v))
deffold("ev", ("nm",), "add", lambda k, v, p: to_poly(v)*M(k))
deffold("evg", ("nm",), "add", lambda k, v, p: to_poly(v)*hv_fold(k, "gm"))
deffold("npos", ("nm",), "count",
        lambda k, v, p: _ite(lt_zero(to_poly(v), False)))


def _part(sign, weight):
    "the positive (negative) terms' share of a linear fold"
    def f(k, v, p):
        v = to_poly(v)
        v = v if sign > 0 else -v
        if bool(lt_zero(-v, True)):
            return E.eng().norm(v)*weight(k)
        return Poly({})
    return f


PARTS = {"ev": ("evp", "evn"), "evg": ("evgp", "evgn"), "dd": ("ddp", "ddn")}
PARTNAMES = {n for pn in PARTS.values() for n in pn}
for _f, _w in (("ev", M), ("evg", lambda k: hv_fold(k, "gm")),
               ("dd", lambda k: M(k)*hv_fold(k, "lmv2"))):
    deffold(PARTS[_f][0], ("nm",), "add", _part(1, _w))
    deffold(PARTS[_f][1], ("nm",), "add", _part(-1, _w))


def _dv(k, v, param):
    "x_j * d/dx_j of the term"
    pres, x = lookup(state_of(k), E.eng().ghost[param])
    if not pres:
        return Poly({})
    return to_poly(v)*to_poly(x)*M(k)


deffold("dv", ("nm",), "add", _dv)
deffold("dd", ("nm",), "add",
        lambda k, v, p: to_poly(v)*M(k)*hv_fold(k, "lmv2"))


def _is_pt(k, p):
    return bool(k_equal(k, E.eng().ghost[p]))


# the entry at one arbitrary key: its value (0 if absent), its presence
deffold("at", ("nm",), "add",
        lambda k, v, p: to_poly(v) if _is_pt(k, p) else Poly({}))
deffold("has", ("nm",), "count",
        lambda k, v, p: z3.IntVal(1 if _is_pt(k, p) else 0))
GP = z3.Function("gpow", KSORT, REAL, REAL)


def gpow(k, v):
    "value of variable k at the (unrestricted) substitution valuation, ** v"
    e = E.eng()
    hook = e.ghost.get("gpow")
    if hook is not None:
        r = hook(k, to_poly(v))
        if r is not None:
            return r
    return Poly.z(GP(kterm(k), e.z(to_poly(v))))


def fname(f):
    return f[0] if isinstance(f, tuple) else f


def contrib(f, k, v):
    fd = FOLDS[fname(f)]
    return fd.contrib(k, v, f[1] if isinstance(f, tuple) else None)


def sole_entry(st, key, v):
    "facts of a map known to hold exactly the entry (key, v)"
    e = E.eng()
    if st.folds is None:
        return
    for f in list(st.folds):
        c = contrib(f, key, v)
        if FOLDS[fname(f)].group in ("add", "mul"):
            e.assume_zero(e.norm(getfold(st, f) - c))
        else:
            e.add(getfold(st, f) == c)


def active_folds(kind):
    e = E.eng()
    out = ["n"]
    for f in e.track.get(kind, ()):
        if f not in out:
            out.append(f)
    return out


def combine(f, a, b, sign=1):
    g = FOLDS[fname(f)].group
    if g == "add":
        return E.eng().norm(a + b) if sign > 0 else E.eng().norm(a - b)
    if g == "count":
        return z3.simplify(a + b if sign > 0 else a - b)
    if g == "xor":
        return z3.simplify(a ^ b)
    if g == "mul":
        if sign > 0:
            return a*b
        e = E.eng()
        b = e.norm(b)
        if b.known_nz():
            return e.norm(a)*b.inv()
        q = e.fresh_real("quot")
        e.assume_zero(e.norm(a) - q*b)
        return q
    raise AssertionError


def new_base_state(tag, kind, **kw):
    b = Base(tag, kind, **kw)
    st = MapState(kind, b)
    for f in active_folds(kind):
        st.folds[f] = fresh_fold(f, b.tag)
    return st


def fresh_fold(f, tag):
    e = E.eng()
    g = FOLDS[fname(f)].group
    nm = "%s_%s" % (fname(f), tag)
    if g in ("add", "mul"):
        return e.fresh_real(nm)
    if g == "count":
        t = e.fresh(nm, z3.IntSort())
        e.add(t >= 0)
        return t
    return e.fresh(nm, BV)


def getfold(st, f):
    if f not in st.folds:
        if st.base is None:
            out = zero_fold(f)
            for k, v in st.chain:
                if v is not DEL:
                    out = combine(f, out, contrib(f, k, v))
            st.folds[f] = out
        else:
            raise Unsupported("fold %s not tracked on %s (kind %s)"
                              % (f, st.base.tag, st.kind))
    r = st.folds[f]
    if FOLDS[fname(f)].group in ("add", "mul"):
        return E.eng().norm(r)
    return r


def fold_of(obj, f):
    return getfold(state_of(obj), f)


def state_of(obj):
    st = obj.__dict__.get("_pv_st")
    if st is not None:
        return st
    # native: explicit view of the content
    return native_state(obj)


def native_state(obj):
    kind = kind_of(obj)
    st = MapState(kind)
    if isinstance(obj, (set, frozenset)):
        for k in set.__iter__(obj):
            st.chain.append([k, True])
    else:
        for k, v in dict.items(obj):
            st.chain.append([k, v])
    st.folds = {}
    e = E.eng()
    # concrete content: canonical constant for equality
    st.native = obj
    return st


def kind_of(obj):
    st = getattr(obj, "__dict__", {}).get("_pv_st")
    if st is not None:
        return st.kind
    return getattr(type(obj), "pv_kind", "g")


def is_symmap(x):
    try:
        return x.__dict__.get("_pv_st") is not None
    except AttributeError:
        return False


def is_empty_explicit(st):
    return st.base is None and not any(v is not DEL for _, v in st.chain)


def hterm(st):
    e = E.eng()
    if st._h is None:
        t = e.fresh("hv", HSORT)
        st._h = EMPTY_TERM if st.kind == "hv" and is_empty_explicit(st) else t
    return cur_term(st._h)


EMPTY_TERM = z3.Const("hv_empty", HSORT)


def hv_equal(a, b):
    "equality of two dict contents (HashVectors, mostly)"
    if a is b:
        return True
    sa, sb = state_of(a), state_of(b)
    return st_equal(sa, sb)


def st_equal(sa, sb):
    e = E.eng()
    if sa is sb:
        return True
    if sa._h is not None and sb._h is not None and \
            cur_term(sa._h).get_id() == cur_term(sb._h).get_id():
        return True
    if sa.base is None and sb.base is None:
        ea = [(k, v) for k, v in sa.chain if v is not DEL]
        eb = [(k, v) for k, v in sb.chain if v is not DEL]
        if len(ea) != len(eb):
            return False
        for k, v in ea:
            pres, w = lookup(sb, k)
            if not pres:
                return False
            r = v == w
            if not bool(r):
                return False
        return True
    if is_empty_explicit(sa) or is_empty_explicit(sb):
        full = sb if is_empty_explicit(sa) else sa
        n = getfold(full, "n")

        def on_true():
            make_empty(full)
        return SBool(n == 0, on_true)
    # quick syntactic equality of base and chain
    if sa.base is sb.base and not sa.chain and not sb.chain:
        return True
    if sa.kind == "hv" and "lmv" in sa.folds:
        d = e.norm(getfold(sa, "lmv") - getfold(sb, "lmv"))
        if d.is_const() and not d.is_zero():
            return False
    ta, tb = hterm(sa), hterm(sb)

    def on_true():
        na, nb = _num(ta), _num(tb)
        e.subst_term(*((ta, tb) if na >= nb else (tb, ta)))
        link_equal(sa, sb)
    return SBool(ta == tb, on_true)


def link_equal(sa, sb):
    "consequences of content equality: all folds agree"
    e = E.eng()
    for f in set(sa.folds) | set(sb.folds):
        try:
            x, y = getfold(sa, f), getfold(sb, f)
        except Unsupported:
            continue
        g = FOLDS[fname(f)].group
        if g in ("add", "mul"):
            e.assume_zero(x - y)
        else:
            e.add(x == y)


def make_empty(st):
    e = E.eng()
    if st.kind == "hv" and st._h is not None:
        t = cur_term(st._h)
        if t.get_id() != EMPTY_TERM.get_id():
            e.subst_term(t, EMPTY_TERM)
    for f in list(st.folds):
        g = FOLDS[fname(f)].group
        if g == "add":
            e.assume_zero(getfold(st, f))
        elif g == "mul":
            e.assume_zero(getfold(st, f) - Poly.const(1))
        elif g == "xor":
            e.add(st.folds[f] == 0)
        else:
            e.add(st.folds[f] == 0)


# ------------------------------------------------------------------ access
def lookup(st, key, peek=False):
    "(present, value); forks when undetermined"
    e = E.eng()
    if st.kind == "nm":
        check_key_hash(key)
    for ent in reversed(st.chain):
        k, v = ent
        if bool(k_equal(k, key)):
            if v is DEL:
                return False, None
            return True, v
    if st.base is None:
        return False, None
    return base_lookup(st.base, key, st)


def base_lookup(b, key, st):
    e = E.eng()
    if b.redirect is not None:
        entry, fr = b.redirect
        cls = fr.key_class(key, b.kind)
        if fr.may_redirect(b, cls):
            return lookup(entry, key)
    if b.kind in ("nm", "hset"):
        if not isinstance(key, dict):
            return False, None
        t = hterm(state_of(key))
    elif not (is_symkey(key) or isinstance(key, b.keycls if hasattr(b, "keycls")
                                           else object)):
        return False, None
    else:
        t = kterm(key)
    has = b.has(t)
    pt = None
    for f, val in b_folds(b, st):
        if fname(f) == "has" and same_key(key, e.ghost[f[1]]):
            pt = f[1]
            e.add(has == (val >= 1))
            e.add(val <= 1)
    pres = bool(SBool(has))
    if not pres:
        if pt is not None and b.elem is None:
            e.assume_zero(getattr(b, "folds0")[("at", pt)])
        return False, None
    if b.elem is not None:
        tid = t.get_id()
        if tid not in b.genvals:
            b.genvals[tid] = (t, b.elem(key))
        v = b.genvals[tid][1]
        access_facts(b, st, key, v)
        return True, v
    p = Poly.z(b.get(t))
    if pt is not None:
        e.assume_zero(p - b.folds0[("at", pt)])
    v = SReal(e.norm(p))
    access_facts(b, st, key, v)
    if st.base is b and any(x is DEL for _, x in st.chain):
        # what is still there is counted in what is left
        for f, val in list(st.folds.items()):
            if FOLDS[fname(f)].group == "count":
                e.add(val >= contrib(f, key, v))
    return True, v


def access_facts(b, st, key, v):
    """count folds bound the membership of a present element: if no element is
    counted by a count fold, this one is not."""
    e = E.eng()
    for f, val in b_folds(b, st):
        g = FOLDS[fname(f)].group
        if g != "count":
            continue
        c = contrib(f, key, v)
        e.add(val >= c)
        if fname(f) in ("zc", "npos") and z3.is_int_value(z3.simplify(val)) \
                and z3.simplify(val).as_long() == 0:
            atom_flags(v, fname(f))


def b_folds(b, st):
    # folds recorded when the base was created
    return list(getattr(b, "folds0", {}).items())


def atom_flags(v, why):
    e = E.eng()
    p = e.norm(to_poly(v))
    if p.is_mono():
        (m, c), = p.t.items()
        if len(m) == 1 and abs(m[0][1]) == 1:
            a = m[0][0]
            if why == "npos" and c > 0:
                a.pos = a.nz = True
            a.nz = True


def check_key_hash(key):
    "a HashVector used as a dictionary key must carry the hash of its content"
    e = E.eng()
    if not (isinstance(key, dict) and kind_of(key) == "hv"):
        return
    if "hx" not in e.track.get("hv", ()):
        return
    hv = getattr(key, "hashvalue", None)
    if hv is None:
        if is_symmap(key):
            object.__setattr__(key, "hashvalue", SHash(fold_of(key, "hx")))
        return
    if type(hv) is SHash or is_symmap(key):
        e.oblige_z("inv:the cached hash of a key matches its content",
                   SHash.bv(hv) == fold_of(key, "hx"))


def store(obj, key, val):
    e = E.eng()
    st = obj.__dict__["_pv_st"]
    e.on_mutate(obj, "store")
    check_not_key(obj)
    if st.kind == "nm":
        check_key_hash(key)
        if isinstance(key, dict) and "zc" in e.track.get("hv", ()) \
                and not is_empty_explicit(state_of(key)):
            e.oblige_z("inv:keys of a nomial map have no zero exponents",
                       fold_of(key, "zc") == 0)
    note_write(obj, st, key)
    pres, old = lookup(st, key)
    st.touched()
    if st.folds is not None:
        for f in list(st.folds):
            if pres:
                if f == "n":
                    continue
                st.folds[f] = combine(f, getfold(st, f),
                                      contrib(f, key, old), -1)
            st.folds[f] = combine(f, getfold(st, f), contrib(f, key, val))
    for ent in st.chain:
        if ent[0] is key or same_key(ent[0], key):
            if ent[1] is DEL:
                st.chain.remove(ent)
                break
            ent[1] = val
            return
    st.chain.append([key, val])
    if st.kind == "nm" and isinstance(key, dict):
        key_owner(key).append(obj)


def delete(obj, key):
    e = E.eng()
    st = obj.__dict__["_pv_st"]
    e.on_mutate(obj, "delete")
    check_not_key(obj)
    note_write(obj, st, key)
    pres, old = lookup(st, key)
    if not pres:
        raise KeyError(key)
    st.touched()
    for f in list(st.folds):
        st.folds[f] = combine(f, getfold(st, f), contrib(f, key, old), -1)
    for ent in st.chain:
        if ent[0] is key or same_key(ent[0], key):
            disown(ent[0], obj)
            if st.base is None:
                st.chain.remove(ent)
            else:
                ent[0] = snapshot(ent[0])
                ent[1] = DEL
            break
    else:
        st.chain.append([snapshot(key), DEL])
    disown(key, obj)
    return old


def snapshot(key):
    "the key as it is now: the object itself may be modified once removed"
    if not (isinstance(key, dict) and is_symmap(key)):
        return key
    hterm(key._pv_st)
    k = type(key).__new__(type(key))
    dict.__init__(k)
    k._pv_register()
    k.__dict__["_pv_st"] = key._pv_st.copy()
    h = key.__dict__.get("hashvalue")
    if h is not None:
        k.__dict__["hashvalue"] = h
    return k


def note_write(obj, st, key):
    e = E.eng()
    for fr in e.iterstack:
        if obj._pv_serial < fr.start_serial:
            fr.note_key_write(obj._pv_serial, fr.key_class(key, st.kind))


def same_key(a, b):
    "equality already decided on this path"
    if a is b:
        return True
    r = k_equal(a, b)
    if isinstance(r, bool):
        return r
    e = E.eng()
    if e.entails(r.c):
        return True
    return False


# ---- keys must not be mutated while they are keys
def key_owner(hv):
    return hv.__dict__.setdefault("_pv_owners", [])


def disown(key, obj):
    if isinstance(key, dict):
        own = key.__dict__.get("_pv_owners")
        if own and any(o is obj for o in own):
            own[:] = [o for o in own if o is not obj]


def check_not_key(obj):
    own = obj.__dict__.get("_pv_owners")
    if not own:
        return
    e = E.eng()
    for o in list(own):
        # harmless if the owner no longer holds this content
        st = o.__dict__.get("_pv_st")
        if st is None:
            continue
        pres, _ = lookup(st, obj)
        if pres:
            e.oblige("inv:a dictionary key is not modified while it is a key",
                     False, "HashVector modified while a key of a map")
        own[:] = [x for x in own if x is not o]


# ------------------------------------------------------------------ the classes
def sym_active():
    return E.ENG is not None


class _SymMixin:
    pv_kind = "g"

    def _pv_sym(self):
        return self.__dict__.get("_pv_st") is not None

    def _pv_register(self):
        e = E.ENG
        self.__dict__["_pv_eng"] = e
        self.__dict__["_pv_serial"] = e.register(self) if e else -1


class PvDict(_SymMixin, dict):
    _pv_eng = None
    _pv_serial = -1

    def __init__(self, *args, **kw):
        if E.ENG is None:
            dict.__init__(self, *args, **kw)
            return
        self._pv_register()
        if self.pv_kind != "g":
            self.__dict__["_pv_st"] = MapState(self.pv_kind)
            for f in active_folds(self.pv_kind):
                self._pv_st.folds[f] = zero_fold(f)
        if not args and not kw:
            return
        src = args[0] if args else ()
        if is_symmap(src):
            st = src._pv_st.copy()
            if src.pv_kind == "set":
                raise Unsupported("dict of a set")
            if self.pv_kind != "g" and st.kind != self.pv_kind:
                if st.base is not None:
                    # different kind of content: re-key
                    raise Unsupported("conversion between map kinds")
                for k, v in st.chain:
                    if v is not DEL:
                        self[k] = v
            else:
                self.__dict__["_pv_st"] = st
                for ent in st.chain:
                    if st.kind == "nm" and isinstance(ent[0], dict):
                        key_owner(ent[0]).append(self)
        elif self._pv_sym():
            items = src.items() if hasattr(src, "keys") else src
            for k, v in items:
                self[k] = v
        else:
            from . import rt
            if hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                rt.fill_dict(self, src)
        for k, v in kw.items():
            self[k] = v

    # -- promotion of a plain dict to a symbolic one
    def _pv_promote(self, kind=None):
        if self._pv_sym():
            return
        if E.ENG is None:
            raise Unsupported("symbolic key outside verification")
        if self._pv_eng is not E.ENG:
            raise Unsupported("symbolic write into a pre-existing native dict")
        st = MapState(kind or self.pv_kind)
        for k, v in dict.items(self):
            st.chain.append([k, v])
        for f in active_folds(st.kind):
            getfold(st, f)
        dict.clear(self)
        self.__dict__["_pv_st"] = st

    def _pv_needs(self, key):
        "is this a symbolic operation?"
        if self._pv_sym():
            return True
        return E.ENG is not None and symbolic_key(key)

    def __getitem__(self, key):
        if not self._pv_needs(key):
            return dict.__getitem__(self, key)
        pres, v = lookup(state_of(self), key)
        if pres:
            return v
        miss = getattr(type(self), "__missing__", None)
        if miss is not None:
            return miss(self, key)
        raise KeyError(key)

    def __setitem__(self, key, val):
        if not self._pv_needs(key):
            if E.ENG is not None and (E.ENG.frame_start is not None
                                      or E.ENG.iterstack):
                self._pv_native_write(key)
            if not self._pv_sym():
                return dict.__setitem__(self, key, val)
        self._pv_promote(infer_kind(self, key, val))
        store(self, key, val)

    def _pv_native_write(self, key=None):
        e = E.ENG
        if self._pv_eng is e:
            if e.iterstack and any(self._pv_serial < fr.start_serial
                                   for fr in e.iterstack):
                if self._pv_eng is e and not self._pv_sym():
                    # content changes inside a cut loop: treat symbolically
                    kinds = [fr.info.kinds.get(self._pv_serial)
                             for fr in e.iterstack]
                    self._pv_promote(kinds[-1])
            e.on_mutate(self, "store")

    def __delitem__(self, key):
        if not self._pv_needs(key):
            if E.ENG is not None:
                self._pv_native_write(key)
            if not self._pv_sym():
                return dict.__delitem__(self, key)
        delete(self, key)

    def __contains__(self, key):
        if not self._pv_needs(key):
            return dict.__contains__(self, key)
        return lookup(state_of(self), key)[0]

    def get(self, key, default=None):
        if not self._pv_needs(key):
            return dict.get(self, key, default)
        pres, v = lookup(state_of(self), key)
        return v if pres else default

    def pop(self, key, *default):
        if not self._pv_needs(key):
            if E.ENG is not None:
                self._pv_native_write(key)
            if not self._pv_sym():
                return dict.pop(self, key, *default)
        pres, v = lookup(state_of(self), key)
        if not pres:
            if default:
                return default[0]
            raise KeyError(key)
        return delete(self, key)

    def setdefault(self, key, default=None):
        if not self._pv_needs(key):
            if E.ENG is not None:
                self._pv_native_write(key)
            if not self._pv_sym():
                return dict.setdefault(self, key, default)
        pres, v = lookup(state_of(self), key)
        if pres:
            return v
        self[key] = default
        return default

    def update(self, *args, **kw):
        if E.ENG is None:
            return dict.update(self, *args, **kw)
        from . import rt
        if args:
            rt.dict_update(self, args[0])
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        if not self._pv_sym():
            if E.ENG is not None:
                self._pv_native_write()
            if not self._pv_sym():
                return dict.clear(self)
        E.eng().on_mutate(self, "clear")
        st = MapState(self._pv_st.kind)
        for f in self._pv_st.folds:
            st.folds[f] = zero_fold(f)
        self.__dict__["_pv_st"] = st

    def copy(self):
        if not self._pv_sym():
            return dict.copy(self)
        return PvDict(self)

    def popitem(self):
        if not self._pv_sym():
            return dict.popitem(self)
        raise Unsupported("popitem on a symbolic map")

    def keys(self):
        return View(self, "keys") if self._pv_sym() else dict.keys(self)

    def values(self):
        return View(self, "values") if self._pv_sym() else dict.values(self)

    def items(self):
        return View(self, "items") if self._pv_sym() else dict.items(self)

    def __iter__(self):
        if not self._pv_sym():
            return dict.__iter__(self)
        return iter(View(self, "keys"))

    def __len__(self):
        if not self._pv_sym():
            return dict.__len__(self)
        st = self._pv_st
        if st.base is None:
            return sum(1 for _, v in st.chain if v is not DEL)
        n = z3.simplify(getfold(st, "n"))
        if z3.is_int_value(n):
            return n.as_long()
        raise Unsupported("native len() of a symbolic map")

    def pv_len(self):
        st = state_of(self)
        if st.base is None:
            return sum(1 for _, v in st.chain if v is not DEL)
        return SInt(getfold(st, "n"), st)

    def __bool__(self):
        if not self._pv_sym():
            return dict.__len__(self) > 0
        st = self._pv_st
        if st.base is None:
            return any(v is not DEL for _, v in st.chain)
        return not bool(SBool(getfold(st, "n") == 0, lambda: make_empty(st)))

    def __eq__(self, other):
        if E.ENG is not None and (is_symmap(self) or is_symmap(other)):
            if not isinstance(other, dict):
                return NotImplemented
            return hv_equal(self, other)
        return dict.__eq__(self, other)

    def __ne__(self, other):
        if E.ENG is not None and (is_symmap(self) or is_symmap(other)):
            if not isinstance(other, dict):
                return NotImplemented
            r = hv_equal(self, other)
            return (not r) if isinstance(r, bool) else ~r
        return dict.__ne__(self, other)
    __hash__ = None

    def __repr__(self):
        if self._pv_sym():
            return "<symbolic %s>" % type(self).__name__
        return dict.__repr__(self)

    def __reduce_ex__(self, proto):
        return dict.__reduce_ex__(self, proto)


def infer_kind(d, key, val):
    "numeric maps over variable keys / exponent vectors carry value folds"
    if d.pv_kind != "g" or d._pv_sym():
        return None
    if not all(is_num(v) for v in dict.values(d)) or not is_num(val):
        return None
    if is_symkey(key):
        return "hv"
    if isinstance(key, dict) and kind_of(key) == "hv":
        return "nm"
    return None


def symbolic_key(key):
    if is_symkey(key):
        return True
    if is_symmap(key):
        return True
    if type(key) is tuple:
        return any(symbolic_key(k) for k in key)
    return getattr(key, "pv_symbolic", False) is True


class SInt:
    "a symbolic non-negative size"
    pv_symbolic = True

    def __init__(self, z, st=None):
        self.z, self.st = z, st

    @staticmethod
    def _z(o):
        if isinstance(o, SInt):
            return o.z
        if isinstance(o, (int, bool)):
            return z3.IntVal(int(o))
        raise Unsupported("comparison of a size with %r" % (o,))

    def _c(self, cond, empty_on=None):
        cb = None
        if empty_on is not None and self.st is not None:
            cb = lambda: make_empty(self.st)
        return SBool(cond, cb if empty_on is True else None,
                     cb if empty_on is False else None)

    def __eq__(self, o):
        z = self._z(o)
        return self._c(self.z == z, True if z3.is_int_value(z)
                       and z.as_long() == 0 else None)

    def __ne__(self, o):
        z = self._z(o)
        return self._c(self.z != z, False if z3.is_int_value(z)
                       and z.as_long() == 0 else None)

    def __gt__(self, o): return self._c(self.z > self._z(o))
    def __ge__(self, o): return self._c(self.z >= self._z(o))
    def __lt__(self, o): return self._c(self.z < self._z(o))
    def __le__(self, o): return self._c(self.z <= self._z(o))
    def __add__(self, o): return SInt(self.z + self._z(o))
    __radd__ = __add__
    def __sub__(self, o): return SInt(self.z - self._z(o))
    def __rsub__(self, o): return SInt(self._z(o) - self.z)

    def __bool__(self):
        return not bool(self == 0)

    def __index__(self):
        s = z3.simplify(self.z)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("symbolic size used as an index")

    @property
    def __class__(self):
        return int
    __hash__ = None


class View:
    "keys / values / items of a symbolic map (a live view)"
    pv_symbolic = True

    def __init__(self, owner, what):
        self.owner, self.what = owner, what

    def state(self):
        return state_of(self.owner)

    def explicit(self):
        return self.state().base is None

    def pick(self, k, v):
        return k if self.what == "keys" else v if self.what == "values" \
            else (k, v)

    def __iter__(self):
        st = self.state()
        if st.base is None:
            return iter([self.pick(k, v) for k, v in st.chain if v is not DEL])
        raise Unsupported("native iteration over a symbolic map")

    def __len__(self):
        return len(self.owner)

    def pv_len(self):
        return self.owner.pv_len()

    def __contains__(self, x):
        if self.what == "keys":
            return x in self.owner
        raise Unsupported("membership in symbolic %s" % self.what)

    def __bool__(self):
        return bool(self.owner)


class PvSet(_SymMixin, set):
    pv_kind = "set"
    _pv_eng = None
    _pv_serial = -1
    __hash__ = None

    def __init__(self, it=()):
        if E.ENG is None:
            set.__init__(self, it)
            return
        set.__init__(self)
        self._pv_register()
        if it != ():
            from . import rt
            rt.set_update(self, it)

    def _pv_promote(self, kind=None):
        if self._pv_sym():
            return
        if E.ENG is None or self._pv_eng is not E.ENG:
            raise Unsupported("symbolic write into a pre-existing native set")
        st = MapState("set")
        for k in set.__iter__(self):
            st.chain.append([k, True])
        st.folds["n"] = z3.IntVal(len(st.chain))
        set.clear(self)
        self.__dict__["_pv_st"] = st

    def _pv_needs(self, key):
        if self._pv_sym():
            return True
        return E.ENG is not None and symbolic_key(key)

    def add(self, x):
        if not self._pv_needs(x):
            e = E.ENG
            if e is not None and self._pv_eng is e:
                if any(self._pv_serial < fr.start_serial
                       for fr in e.iterstack):
                    self._pv_promote()
                else:
                    e.on_mutate(self, "add")
            if not self._pv_sym():
                return set.add(self, x)
        self._pv_promote()
        if not lookup(self._pv_st, x)[0]:
            store(self, x, True)

    def discard(self, x):
        if not self._pv_needs(x):
            return set.discard(self, x)
        if lookup(state_of(self), x)[0]:
            delete(self, x)

    def remove(self, x):
        if not self._pv_needs(x):
            return set.remove(self, x)
        delete(self, x)

    def __contains__(self, x):
        if not self._pv_needs(x):
            return set.__contains__(self, x)
        return lookup(state_of(self), x)[0]

    def update(self, *its):
        if E.ENG is None:
            return set.update(self, *its)
        from . import rt
        for it in its:
            rt.set_update(self, it)

    def __iter__(self):
        if not self._pv_sym():
            return set.__iter__(self)
        if self._pv_st.base is None:
            return iter([k for k, v in self._pv_st.chain if v is not DEL])
        raise Unsupported("native iteration over a symbolic set")

    def __len__(self):
        if not self._pv_sym():
            return set.__len__(self)
        if self._pv_st.base is None:
            return sum(1 for _, v in self._pv_st.chain if v is not DEL)
        raise Unsupported("native len() of a symbolic set")

    pv_len = PvDict.pv_len
    __bool__ = PvDict.__bool__

    def __bool__(self):
        if not self._pv_sym():
            return set.__len__(self) > 0
        return PvDict.__bool__(self)
