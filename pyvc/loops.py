"""Cutting loops over symbolic collections, with inferred invariants.

At a loop over a collection of unknown size the path splits:
  iteration path: the state modified by the loop is havocked, the candidate
     invariant is assumed (as definitions), one arbitrary element not yet
     visited is taken, the body runs, and the invariant is re-established
     (a failed candidate is dropped and the whole function is re-verified);
  exit path: the modified state is havocked, the invariant is assumed with
     "visited so far" = the whole collection, and execution goes on.
Candidates relate a ghost fold (or number) of the modified state to the same
kind of fold over the visited part of the collection:
     s = s_entry + alpha * fold_g(visited)      (alpha loop-invariant)
alpha is proposed by dividing the change made by one iteration by the element's
contribution to fold_g; proposals are only ever used after they are proved
inductive.
"""
import sys
import z3
from . import engine as E
from . import poly as P
from .poly import Poly
from .engine import Unsupported, PathEnd
from .values import SReal, SBool, SHash, to_poly, is_num, eq_zero
from . import dicts as D
from .dicts import FOLDS, fname


class Poison:
    def __init__(self, name):
        object.__setattr__(self, "pv_poison", name)

    def _bad(self, *a, **k):
        raise Unsupported("use of variable %r, reassigned in a cut loop"
                          % object.__getattribute__(self, "pv_poison"))

    def __getattr__(self, name):
        self._bad()
    __bool__ = __iter__ = __len__ = __add__ = __radd__ = __mul__ = _bad
    __rmul__ = __sub__ = __rsub__ = __truediv__ = __call__ = _bad
    __getitem__ = __setitem__ = __contains__ = __eq__ = __lt__ = __gt__ = _bad
    __hash__ = None


class LoopInfo:
    def __init__(self, label):
        self.label = label
        self.stable = False
        self.modified = set()        # object serials
        self.mod_locals = set()
        self.xor_locals = set()
        self.kinds = {}              # serial -> kind of map
        self.poison = set()
        self.pending_mod = set()
        self.pending_locals = set()
        self.cands = {}              # var -> list of candidates tried/queued
        self.cur = {}                # var -> index or None (= plain havoc)
        self.failed = {}             # var -> set(index) failed this round
        self.proposed = {}           # var -> [candidate]
        self.key_classes = {}        # serial -> set of classes
        self.no_redirect = set()
        self.pending_noredir = set()
        self.done_zero = {}          # count-fold -> bool (candidate alive)
        self.done_failed = set()
        self.visits = 0
        self.version = 0

    def candidate(self, var, default):
        if var not in self.cands:
            self.cands[var] = list(default)
            self.cur[var] = 0
        i = self.cur[var]
        return None if i is None else self.cands[var][i]

    def fail(self, var, proposals=()):
        self.failed.setdefault(var, set()).add(self.cur.get(var))
        lst = self.proposed.setdefault(var, [])
        for p in proposals:
            if p not in lst:
                lst.append(p)

    def settle(self, defer=False):
        "end of a round: apply what was learnt; True if anything changed"
        changed = False
        if not self.pending_mod <= self.modified:
            self.modified |= self.pending_mod
            changed = True
        if not self.pending_locals <= self.mod_locals:
            self.mod_locals |= self.pending_locals
            changed = True
        if not self.pending_noredir <= self.no_redirect:
            self.no_redirect |= self.pending_noredir
            changed = True
        for f in self.done_failed:
            if self.done_zero.get(f, False):
                self.done_zero[f] = False
                changed = True
        if not changed and not defer:
            # only move invariants once frames are settled
            for var in self.failed:
                i = self.cur[var]
                if i is None:
                    continue
                for p in self.proposed.get(var, ()):
                    if p not in self.cands[var]:
                        self.cands[var].append(p)
                changed = True
                self.cur[var] = i+1 if i+1 < len(self.cands[var]) else None
        self.failed, self.proposed = {}, {}
        self.done_failed = set()
        self.visits += 1
        if not changed and not defer:
            self.stable = True
        return changed or defer


class Cand:
    "s = entry + alpha * done_g   (or xor / counts)"
    def __init__(self, kind, alpha=None, g=None):
        self.kind, self.alpha, self.g = kind, alpha, g

    def _k(self):
        return (self.kind, repr(self.alpha), self.g)

    def __eq__(self, o):
        return self._k() == o._k()

    def __hash__(self):
        return hash(self._k())

    def __repr__(self):
        return "%s(%s,%s)" % self._k()


SAME = Cand("same")


# ---------------------------------------------------------------- sources
class Source:
    """A symbolic collection that can be iterated: yields a generic element,
    knows the folds over the whole collection."""
    distinct_keys = False
    cur_key = None

    def generic(self):
        raise NotImplementedError

    def folds(self):
        return []

    def total(self, f):
        raise NotImplementedError

    def contrib(self, f):
        raise NotImplementedError


class SkipElem(E.Control):
    "the generic element is filtered out"


class GenSource(Source):
    "a generator expression over a symbolic collection"
    def __init__(self, inner, f):
        self.inner, self.f = inner, f
        self.live_owner = getattr(inner, "live_owner", None)

    distinct_keys = property(lambda self: self.inner.distinct_keys)
    cur_key = property(lambda self: self.inner.cur_key)

    def generic(self):
        vals = self.f(self.inner.generic())
        if not vals:
            raise SkipElem()
        if len(vals) > 1:
            raise Unsupported("nested generators over symbolic collections")
        return vals[0]

    def folds(self):
        return self.inner.folds()

    def total(self, f):
        return self.inner.total(f)

    def contrib(self, f):
        return self.inner.contrib(f)


class MapSource(Source):
    distinct_keys = True

    def __init__(self, view_or_state, what="keys", owner=None):
        if isinstance(view_or_state, D.View):
            self.owner = view_or_state.owner
            self.what = view_or_state.what
            self.live_owner = self.owner
            self.st = view_or_state.state().copy()
        else:
            self.owner, self.what = owner, what
            self.st = view_or_state.copy()

    def generic(self):
        e = E.eng()
        st = self.st
        if st.base is None:
            raise AssertionError
        self.cur_key, self.cur_val = generic_entry(st, self.owner)
        if self.owner is not None and self.what != "keys":
            # value as of now (the loop may update values in place)
            live = D.state_of(self.owner)
            if live.base is not st.base or live.chain != st.chain:
                pres, v = D.lookup(live, self.cur_key)
                if not pres:
                    raise Unsupported("element removed during iteration")
                self.live_val = v
            else:
                self.live_val = self.cur_val
        else:
            self.live_val = self.cur_val
        if self.what == "keys":
            return self.cur_key
        if self.what == "values":
            return self.live_val
        return (self.cur_key, self.live_val)

    def folds(self):
        return list(self.st.folds)

    def total(self, f):
        return D.getfold(self.st, f)

    def contrib(self, f):
        return D.contrib(f, self.cur_key, self.cur_val)


def generic_entry(st, owner=None):
    "an arbitrary entry (key, value) of a state with unknown content"
    e = E.eng()
    b = st.base
    if st.kind == "nm":
        key = new_elem_hv(st)
        kst = key._pv_st
        e.add(b.has(D.hterm(kst)))
        if owner is not None:
            D.key_owner(key).append(owner)
    else:
        key = new_elem_key(b)
        if not D.is_symkey(key) and D.is_symmap(key):
            e.add(b.has(D.hterm(key._pv_st)))
        else:
            e.add(b.has(D.kterm(key)))
    pres, v = D.lookup(st, key)
    if not pres:
        raise E.Infeasible()
    return key, v


def new_elem_hv(st):
    from . import rt
    return rt.new_hv("exp", canonical=True, hashed=True)


def new_elem_key(b):
    from . import rt
    mk = getattr(b, "mkkey", None)
    return mk() if mk else rt.new_key("vk")


# ---------------------------------------------------------------- loop frames
class LoopFrame:
    def __init__(self, info, src):
        e = E.eng()
        self.info, self.src = info, src
        self.start_serial = len(e.objects)
        self.active = True

    def note_mutation(self, s):
        st = getattr(E.eng().objects[s], "_pv_st", None)
        if st is not None and s not in self.info.kinds:
            self.info.kinds[s] = st.kind
        if s not in self.info.modified:
            self.info.pending_mod.add(s)

    def key_class(self, key, kind):
        """class of a key as an injective function of the current element"""
        src = self.src
        if not src.distinct_keys or src.cur_key is None:
            return None
        e = E.eng()
        cur = src.cur_key
        if kind == "nm" or isinstance(key, dict):
            if not isinstance(key, dict) or not isinstance(cur, dict):
                return None
            if key is cur:
                return "0"
            try:
                d = e.norm(D.fold_of(key, "lmv") - D.fold_of(cur, "lmv"))
            except Unsupported:
                return None
            if self.variant(d):
                return None
            return "0" if d.is_zero() else repr(d)
        if isinstance(cur, dict):
            return None
        if key is cur or D.kterm(key).get_id() == D.kterm(cur).get_id():
            return "0"
        return None

    def note_key_write(self, serial, cls):
        self._class(serial, cls)

    def _class(self, serial, cls):
        i = self.info
        if cls is None:
            i.pending_noredir.add(serial)
            return
        i.key_classes.setdefault(serial, set()).add(cls)
        if len(i.key_classes[serial]) > 1:
            i.pending_noredir.add(serial)

    def may_redirect(self, base, cls):
        serial = base.serial
        i = self.info
        if not self.active or serial in i.no_redirect or cls is None:
            return False
        self._class(serial, cls)
        return len(i.key_classes[serial]) == 1

    def variant(self, p):
        "does p mention anything introduced inside this iteration?"
        return any(self.variant_term(a.arg) for a in p.atoms() if a.kind == "z")

    def variant_term(self, t):
        stack = [t]
        while stack:
            x = stack.pop()
            if x.num_args() == 0:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if D._num(x) >= self.watermark:
                        return True
            else:
                if D._num_decl(x.decl()) >= self.watermark:
                    return True
                stack.extend(x.children())
        return False


def _num_decl(d):
    n = d.name()
    if "!" in n:
        try:
            return int(n.rsplit("!", 1)[1])
        except ValueError:
            return 0
    return -1


D._num_decl = _num_decl


class LoopIter:
    "the iterator of an instrumented `for` statement"

    def __init__(self, locid, it, names):
        self.locid, self.names = locid, names
        self.loc = {}
        self.sym = False
        self.state = 0
        from . import rt
        self.src = rt.as_source(it)
        if self.src is None:
            self.native = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        if self.src is None:
            return next(self.native)
        frame = sys._getframe(1)
        return self.step(frame.f_locals)

    def brk(self):
        "called before a `break` of this loop"
        if self.src is not None and self.state == 1:
            e = E.eng()
            if e.iterstack and e.iterstack[-1] is self.fr:
                e.iterstack.pop()
            self.fr.active = False

    def step(self, f_locals):
        e = E.eng()
        if self.state == 0:
            n = e.memo.get("loop_arrivals", 0)
            e.memo["loop_arrivals"] = n+1
            key = (self.locid, tuple(e.dec), n)
            info = e.loops.get(key)
            if info is None:
                info = e.loops[key] = LoopInfo(self.locid)
                info.prefix = tuple(e.dec)
            e.pvisited[key] = info
            self.info = info
            i = len(e.dec)
            if i < len(e.prefix):
                val = e.prefix[i]
            else:
                if info.stable:
                    e._fork(e.dec + [1])
                val = 0
            e.dec.append(val)
            self.entry_locals = {k: f_locals[k] for k in self.names
                                 if k in f_locals}
            self.fr = LoopFrame(info, self.src)
            self.fr.watermark = next(e.names)
            if val == 0:
                return self.start_iteration(f_locals)
            return self.finish()
        if self.state == 1:
            self.end_iteration(f_locals)
            raise PathEnd()
        raise StopIteration

    # -- setting up the havocked state
    def done_folds(self, final):
        e = E.eng()
        info, out = self.info, {}
        for f in self.src.folds():
            g = FOLDS[fname(f)].group
            if final:
                out[f] = self.src.total(f)
            elif g == "count" and fname(f) != "n" and \
                    info.done_zero.setdefault(f, True):
                out[f] = z3.IntVal(0)
            else:
                out[f] = D.fresh_fold(f, "done")
        if final:
            for f, alive in info.done_zero.items():
                if alive and f in out:
                    if f == "zc" or f == "npos":
                        pass
                    e.add(out[f] == 0)
        return out

    def havoc(self, final):
        e = E.eng()
        info = self.info
        self.done = self.done_folds(final)
        self.start = {}
        self.entries = {}
        for s in sorted(info.modified):
            obj = e.objects[s]
            if not hasattr(obj, "_pv_st"):
                if hasattr(obj, "pv_havoc"):
                    obj.pv_havoc(self, final)
                    continue
                if isinstance(obj, (D.PvDict, D.PvSet)):
                    obj._pv_promote(info.kinds.get(s))
                else:
                    raise Unsupported("a %s is modified in a cut loop"
                                      % type(obj).__name__)
            entry = obj._pv_st.copy()
            self.entries[s] = entry
            b = D.Base("h", entry.kind)
            b.serial = s
            if entry.base is not None:
                b.elem = entry.base.elem
                for a in ("mkkey", "keycls"):
                    if hasattr(entry.base, a):
                        setattr(b, a, getattr(entry.base, a))
            elif entry.kind in ("g",):
                b.elem = opaque_elem
            st = D.MapState(entry.kind, b)
            for f in entry.folds:
                st.folds[f] = self.start_value(("obj", s, f), f,
                                               D.getfold(entry, f), final)
            b.folds0 = dict(st.folds)
            if not final:
                b.redirect = (entry, self.fr)
            obj.__dict__["_pv_st"] = st
        self.loc = {}
        for name, v in self.entry_locals.items():
            if name in info.poison:
                self.loc[name] = Poison(name)
            elif name in info.mod_locals:
                if name in info.xor_locals:
                    self.loc[name] = SHash(self.start_value(
                        ("loc", name), "hash", SHash.bv(v), final))
                elif is_num(v):
                    self.loc[name] = SReal(self.start_value(
                        ("loc", name), "number", to_poly(v), final))
                elif isinstance(v, (bool, SBool)):
                    self.loc[name] = SBool(e.fresh("flag", z3.BoolSort()))
                else:
                    self.loc[name] = Poison(name)

    def start_value(self, var, f, entry, final):
        e = E.eng()
        g = "add" if f == "number" else "xor" if f == "hash" \
            else FOLDS[fname(f)].group
        cand = self.info.candidate(var, [SAME])
        # one fresh name whether needed or not: names must not depend on the
        # candidates of other variables
        if f == "number":
            fresh = e.fresh_real("num")
        elif f == "hash":
            fresh = e.fresh("hash", E.BV)
        else:
            fresh = D.fresh_fold(f, "havoc")
        if cand is None:
            val = fresh
        elif cand.kind == "same":
            val = entry
        elif cand.kind == "add":
            if g in ("add", "mul"):
                val = e.norm(entry + P.reintern(cand.alpha)*self.done[cand.g])
            elif g == "xor":
                val = z3.simplify(entry ^ self.done[cand.g])
            else:
                val = z3.simplify(entry + self.done[cand.g])
        elif cand.kind == "mul":
            val = e.norm(entry*P.mk_exp(
                e.norm(P.reintern(cand.alpha)*self.done[cand.g])))
        elif cand.kind == "ge":
            val = fresh
            e.add(val >= entry)
        else:
            raise AssertionError
        self.start[var] = (f, g, entry, val, cand)
        return val

    def start_iteration(self, f_locals):
        e = E.eng()
        self.havoc(False)
        e.iterstack.append(self.fr)
        self.state = 1
        # number of elements: at least one more than visited
        try:
            elem = self.src.generic()
        except SkipElem:
            loc = dict(f_locals)
            loc.update(self.loc)
            self.end_iteration(loc)
            raise PathEnd()
        if "n" in self.done:
            e.add(self.done["n"] + 1 <= self.src.total("n"))
        return elem

    def end_iteration(self, f_locals):
        e = E.eng()
        info = self.info
        self.fr.active = False
        if e.iterstack and e.iterstack[-1] is self.fr:
            e.iterstack.pop()
        contribs = {}
        own = getattr(self.src, "live_owner", None)
        if own is not None and own._pv_serial in info.modified:
            n0 = self.start[("obj", own._pv_serial, "n")][3]
            e.oblige_z("safety:no size change of a dict during iteration",
                       D.getfold(own._pv_st, "n") == n0)

        def contrib(f):
            if f not in contribs:
                contribs[f] = self.src.contrib(f)
            return contribs[f]
        # the visited part
        for f, alive in info.done_zero.items():
            if alive and not e.entails(contrib(f) == 0, timeout=1500):
                info.done_failed.add(f)
        # modified numbers
        for var, (f, g, entry, s0, cand) in self.start.items():
            if var[0] == "obj":
                s1 = D.getfold(e.objects[var[1]]._pv_st, f)
            else:
                v = f_locals.get(var[1])
                if f == "hash":
                    if type(v) is SHash or type(v) is int:
                        self.check_var(var, f, g, entry, s0, SHash.bv(v),
                                       cand, contrib)
                        continue
                if not is_num(v):
                    info.poison.add(var[1])
                    info.pending_locals.add("\0" + var[1])
                    continue
                s1 = e.norm(to_poly(v))
            self.check_var(var, f, g, entry, s0, s1, cand, contrib)
        # locals not known to change
        for name, v0 in self.entry_locals.items():
            if name in info.mod_locals or name in info.poison:
                continue
            if name not in f_locals:
                info.poison.add(name)
                info.pending_locals.add("\0" + name)
                continue
            v1 = f_locals[name]
            if v1 is v0 or same_value(v0, v1):
                continue
            if type(v1) is SHash:
                info.xor_locals.add(name)
            info.pending_locals.add(name)

    def check_var(self, var, f, g, entry, s0, s1, cand, contrib):
        e = E.eng()
        info = self.info
        if cand is None:
            return
        if g in ("add", "mul"):
            want = s0
            if cand.kind == "add":
                want = s0 + P.reintern(cand.alpha)*contrib(cand.g)
            elif cand.kind == "mul":
                want = s0*P.mk_exp(e.norm(P.reintern(cand.alpha)
                                          * contrib(cand.g)))
            if e.provably_eq(s1, want):
                return
            props = []
            delta = e.norm(s1 - s0)
            folds = [x for x in self.src.folds()
                     if FOLDS[fname(x)].group == "add"]
            if f in folds:
                folds.remove(f)
                folds.insert(0, f)
            if not delta.is_zero():
                for h in folds:
                    c = e.norm(contrib(h))
                    if c.is_zero():
                        continue
                    q = delta.divide(c)
                    if q is not None:
                        q = e.norm(q)
                        if not self.fr.variant(q):
                            props.append(Cand("add", q, h))
                s0, s1 = e.norm(s0), e.norm(s1)
                if not props and s0.is_mono() and s1.is_mono() \
                        and s0.known_nz():
                    ratio = e.norm(s1*s0.inv())
                    if ratio.sign_known_pos():
                        lr = P.mk_log(ratio)
                        for h in folds:
                            c = e.norm(contrib(h))
                            if c.is_zero():
                                continue
                            q = lr.divide(c)
                            if q is not None and not self.fr.variant(q):
                                props.append(Cand("mul", q, h))
            info.fail(var, props)
            return
        # counts and xors
        want = s0
        if cand.kind == "add":
            want = (s0 ^ contrib(cand.g)) if g == "xor" \
                else s0 + contrib(cand.g)
        if cand.kind == "ge":
            if e.entails(s1 >= s0, 1500):
                return
            info.fail(var)
            return
        if e.entails(s1 == want, 1500):
            return
        props = []
        for h in self.src.folds():
            if FOLDS[fname(h)].group == g:
                props.append(Cand("add", Poly.const(1), h))
        if g == "count":
            props.append(Cand("ge"))
        info.fail(var, props)

    def finish(self):
        e = E.eng()
        self.havoc(True)
        self.state = 2
        self.fr.active = False
        raise StopIteration


def opaque_elem(key):
    raise Unsupported("value of an entry written in a cut loop")


def same_value(a, b):
    if is_num(a) and is_num(b):
        e = E.eng()
        try:
            return e.norm(to_poly(a) - to_poly(b)).is_zero()
        except Unsupported:
            return a == b
    if type(a) in (str, bool, type(None)) and type(a) is type(b):
        return a == b
    return False
