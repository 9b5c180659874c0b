"""Path exploration, path conditions, obligations and loop bookkeeping.

One Engine verifies one function contract: `explore(harness)` re-executes the
harness (which calls the real, mechanically instrumented gpkit code) once per
path.  Loops over symbolic collections are cut (see loops.py); the whole
exploration is repeated until every loop's inferred invariant is stable, and
only the obligations of the final, stable round count.
"""
import hashlib
import time
import itertools
from fractions import Fraction
import z3
from . import poly as P
from .poly import Poly


class Control(BaseException):
    "Base of the exceptions that steer the exploration"


class PathEnd(Control):
    "This path needs no further execution (iteration path of a cut loop)"


class Infeasible(Control):
    "The path condition is contradictory"


class Unsupported(Control):
    "The engine cannot represent this operation: the obligation stays open"


ENG = None   # the active engine


def eng():
    return ENG


class Obligation:
    def __init__(self, name, ok, detail, path, backend="engine"):
        self.name, self.ok, self.detail, self.path = name, ok, detail, path
        self.backend = backend


REAL = z3.RealSort()
KSORT = z3.DeclareSort("Key")
HSORT = z3.DeclareSort("HV")
BV = z3.BitVecSort(64)
ExpF = z3.Function("Exp", REAL, REAL)
LogF = z3.Function("Log", REAL, REAL)


class Engine:
    MAX_PATHS = 1500
    MAX_ROUNDS = 40

    def __init__(self, name, timeout_ms=4000, deadline=None):
        self.name = name
        self.timeout_ms = timeout_ms
        self.loops = {}
        self.deadline = deadline
        self.started = time.time()
        self.obligations = []
        self.solver_s = 0.0
        self.queries = 0
        self.qcache = {}
        self.final = False
        self.paths = 0
        self.normal_paths = 0
        self.track = {"hv": ["lmv", "zc"], "nm": ["ev", "npos", "zc"]}
        self.used_contracts = set()
        self.executed = set()
        self.notes = set()
        self.pcache = {}
        self.bagshapes = {}
        self.dirty = False
        self.reached = 0
        self.zmode = False      # z3 containers with declared invariants

    # ---- one path --------------------------------------------------------
    def _begin(self, prefix):
        self.prefix = list(prefix)
        self.dec = []
        P.reset_interning()
        self.fkey = b""
        self.facts = []          # z3 facts
        self.rw = {}             # atom -> Poly rewriting
        self.ksub = []           # z3 term substitutions (keys, HV terms)
        self.names = itertools.count()
        self.objects = []        # tracked mutable objects, by serial
        self.frame_start = None
        self.frame_allowed = set()
        self.iterstack = []
        self.atom_done = set()
        self.zcache = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.ground = self.ematch = None
        if self.zmode:
            self.ground = z3.Solver()
            self.ematch = z3.SimpleSolver()
            self.ematch.set("mbqi", False)
            self.ematch.set("auto_config", False)
        self.zfacts = {}
        self.loop_types = {}
        self.under = []
        self.pure_level = 0
        self.abstract = None     # names given to terms the solver is spared
        self.memo = {}
        self.ghost = {}

    def fresh(self, base, sort=REAL):
        return z3.Const("%s!%d" % (base, next(self.names)), sort)

    def fresh_real(self, base, pos=False, nz=False):
        t = self.fresh(base)
        p = Poly.z(t, pos, nz)
        if pos:
            self.add(t > 0)
        elif nz:
            self.add(t != 0)
        return p

    # ---- facts and queries -------------------------------------------------
    def add(self, f):
        if self.abstract is not None:
            f = self.abstract(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.fkey = hashlib.blake2b(self.fkey + f.sexpr().encode(),
                                    digest_size=16).digest()
        self.solver.add(f)
        if self.ground is not None:
            from .zv import has_quant
            if not has_quant(f):
                self.ground.add(f)
            self.ematch.add(f)
            todo = [f]
            while todo:
                x = todo.pop()
                if z3.is_and(x):
                    todo += x.children()
                else:
                    x = z3.simplify(x)
                    self.zfacts[x.get_id()] = x

    def define(self, f):
        "a conservative definition of a fresh symbol"
        self.add(f)

    def norm(self, p):
        "Apply rewriting to a fixpoint"
        if not self.rw and not self.ksub:
            return p
        for _ in range(60):
            q = p.map_atoms(self._rw_atom)
            if q is p or q == p:
                return q
            p = q
        raise Unsupported("rewriting does not terminate")

    def _rw_atom(self, a):
        r = self.rw.get(a)
        if r is not None:
            return r
        if a.kind == "z":
            if self.ksub and a.arg.num_args():
                t = z3.substitute(a.arg, *self.ksub)
                if t.get_id() != a.arg.get_id():
                    return Poly.z(t, a.pos, a.nz)
            return None
        arg = self.norm(a.arg)
        if arg is a.arg or arg == a.arg:
            return None
        if a.kind == "exp":
            return P.mk_exp(arg)
        if a.kind == "log":
            return P.mk_log(arg)
        if a.kind == "inv":
            if arg.is_zero():
                raise ZeroDivisionError
            return arg.inv()
        raise AssertionError(a.kind)

    def zatom(self, a):
        key = a
        z = self.zcache.get(key)
        if z is not None:
            return z
        if a.kind == "z":
            z = a.arg
            self.zcache[key] = z
            return z
        arg = self.z(a.arg)
        if a.kind == "exp":
            z = ExpF(arg)
            self.zcache[key] = z
            self.add(z > 0)
        elif a.kind == "log":
            z = LogF(arg)
            self.zcache[key] = z
            self.add(ExpF(z) == arg)
        else:
            z = self.fresh("inv")
            self.zcache[key] = z
            self.add(arg*z == 1)
        return z

    def z(self, p):
        "z3 term of a Poly"
        p = self.norm(p)
        out = None
        for m, c in p.t.items():
            term = None
            for a, n in m:
                za = self.zatom(a)
                if n < 0:
                    zi = self.zcache.get(("i", a))
                    if zi is None:
                        zi = self.fresh("inv")
                        self.zcache[("i", a)] = zi
                        self.add(za*zi == 1)
                        if a.pos:
                            self.add(zi > 0)
                    za, n = zi, -n
                for _ in range(n):
                    term = za if term is None else term*za
            cz = z3.RealVal(str(c))
            term = cz if term is None else (term if c == 1 else cz*term)
            out = term if out is None else out+term
        return z3.RealVal(0) if out is None else out

    def check(self, *extra, timeout=None):
        "sat / unsat / unknown of facts + extra"
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the contract exhausted")
        if self.abstract is not None:
            extra = [self.abstract(x) for x in extra]
        key = (self.fkey, tuple(e.sexpr() for e in extra))
        if self.zmode:
            key += (timeout,)
        if key in self.qcache:
            self.last_model = None
            return self.qcache[key]
        t0 = time.time()
        if timeout is not None:
            self.solver.set("timeout", timeout)
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self.last_model = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        if timeout is not None:
            self.solver.set("timeout", self.timeout_ms)
        dt = time.time() - t0
        self.solver_s += dt
        self.queries += 1
        self.qcache[key] = r
        return r

    def possible(self, cond):
        "may the condition hold on this path?"
        if self.abstract is not None:
            cond = self.abstract(cond)
        if self.ground is not None:
            self.ground.set("timeout", 500)
            self.ground.push()
            self.ground.add(cond)
            r = self.ground.check()
            self.ground.pop()
            self.queries += 1
            if r == z3.unsat:
                return False
            return self.quick(cond, 400) != z3.unsat
        return self.check(cond, timeout=1500) != z3.unsat

    def quick(self, cond, timeout, seed=0):
        "satisfiability by instantiation on triggers only (unsat or unknown)"
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the contract exhausted")
        if self.abstract is not None:
            cond = self.abstract(cond)
        key = (self.fkey, "q", cond.sexpr(), timeout, seed)
        if key in self.qcache:
            return self.qcache[key]
        t0 = time.time()
        self.ematch.set("timeout", timeout)
        self.ematch.set("random_seed", seed)
        self.ematch.push()
        try:
            self.ematch.add(cond)
            r = self.ematch.check()
        finally:
            self.ematch.pop()
        self.solver_s += time.time() - t0
        self.queries += 1
        self.qcache[key] = r
        return r

    def entails(self, goal, timeout=None):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if self.zmode:
            if self.abstract is not None:
                goal = z3.simplify(self.abstract(goal))
            if goal.get_id() in self.zfacts:
                return True
            if z3.is_and(goal):
                return all(self.entails(g, timeout) for g in goal.children())
            tmax = timeout or self.timeout_ms
            neg = z3.Not(goal)
            for seed, t in ((0, 1500), (None, 2000), (1, 3000), (None, 5000),
                            (2, tmax)):
                t = min(t, tmax)
                if seed is None:
                    r = self.check(neg, timeout=t)
                    if r != z3.unknown:
                        self.last_r = r
                        return r == z3.unsat
                elif self.quick(neg, t, seed) == z3.unsat:
                    return True
        self.last_r = self.check(z3.Not(goal), timeout=timeout)
        return self.last_r == z3.unsat

    def why(self):
        """after a failed entails: ("z3-sat", counter-model) when the solver
        refuted the goal, ("z3-unknown", "") when it gave up"""
        if self.last_r == z3.sat:
            m = self.last_model
            txt = "" if m is None else ", ".join(
                "%s=%s" % (d.name(), m[d]) for d in list(m.decls())[:24])
            return "z3-sat", " | counter-model: " + txt[:700]
        return "z3-unknown", " | solver gave up"

    # ---- decisions -----------------------------------------------------------
    def branch(self, cond, on_true=None, on_false=None, why=""):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            can_t = self.possible(cond)
            can_f = self.possible(z3.Not(cond))
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                self._fork(self.dec + [False])
                val = True
            else:
                val = can_t
        self.dec.append(val)
        self.add(self.skolem(cond, val) if self.zmode else
                 cond if val else z3.Not(cond))
        if val and on_true:
            on_true()
        if not val and on_false:
            on_false()
        return val

    def skolem(self, cond, val):
        "the taken condition; its existential witnesses are named"
        neg = not val
        while z3.is_not(cond):
            cond, neg = cond.arg(0), not neg
        if z3.is_quantifier(cond) and not cond.is_lambda() and \
                cond.is_exists() != neg:
            xs = [self.fresh("sk", cond.var_sort(k))
                  for k in range(cond.num_vars())]
            self.ghost.setdefault("skolems", []).extend(xs)
            cond = z3.simplify(z3.substitute_vars(cond.body(),
                                                  *reversed(xs)))
        return z3.Not(cond) if neg else cond

    def choose(self, n, why=""):
        "nondeterministic choice among n alternatives"
        i = len(self.dec)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            for k in range(n-1, 0, -1):
                self._fork(self.dec + [k])
            val = 0
        self.dec.append(val)
        return val

    def _fork(self, prefix):
        self.work.append(list(prefix))

    # ---- equalities ------------------------------------------------------------
    def assume_zero(self, p):
        "assume poly p == 0"
        p = self.norm(p)
        if p.is_zero():
            return
        if p.is_const():
            raise Infeasible()
        if p.sign_known_pos() or (-p).sign_known_pos():
            raise Infeasible()
        self.add(self.z(p) == 0)
        # strip a nonzero monomial factor common to all the terms
        p = self._strip(p)
        best = None
        tops = {}
        for m in p.t:
            for a, n in m:
                tops.setdefault(a, []).append((m, n))
        for a, occ in tops.items():
            if a.kind != "z":
                continue
            if len(occ) != 1:
                continue
            m, n = occ[0]
            if n != 1:
                continue
            rest = [x for x in m if x[0] is not a]
            if rest and not all(x[0].nz for x in rest):
                continue
            nested = False
            for b in tops:
                if b.kind != "z" and a in b.arg.atoms():
                    nested = True
            if nested:
                continue
            # prefer newest; prefer plain (no rest)
            rank = (not rest, a.id)
            if best is None or rank > best[0]:
                best = (rank, a, m)
        if best is None:
            return
        _, a, m = best
        coef = Poly({tuple(x for x in m if x[0] is not a): p.t[m]})
        restp = Poly({mm: c for mm, c in p.t.items() if mm != m})
        val = (-restp)*coef.inv()
        if a.pos and val.is_zero():
            raise Infeasible()
        self.rw[a] = val
        if a.pos and not val.sign_known_pos():
            self.add(self.z(val) > 0)
            for b in val.top_atoms():
                if val.is_mono() and len(val.t) == 1:
                    (mm, c), = val.t.items()
                    if len(mm) == 1 and c > 0 and mm[0][1] == 1:
                        b.pos = b.nz = True   # value-equal to a positive atom
        elif a.nz and val.is_mono():
            self.add(self.z(val) != 0)

    @staticmethod
    def _strip(p):
        common = None
        for m in p.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(n, d[a]) if n > 0 else max(n, d[a])
                          for a, n in common.items()
                          if a in d and (n > 0) == (d[a] > 0)}
        common = {a: n for a, n in (common or {}).items() if a.nz}
        # also clear negative powers of nonzero atoms
        lows = {}
        for m in p.t:
            for a, n in m:
                if n < 0 and a.nz:
                    lows[a] = min(lows.get(a, 0), n)
        mul = {a: -n for a, n in common.items()}
        for a, n in lows.items():
            if a not in mul:
                mul[a] = -n
        if not mul:
            return p
        return p*Poly({tuple(sorted(((a, n) for a, n in mul.items() if n),
                                    key=lambda an: an[0].id)): Fraction(1)})

    def subst_term(self, t_from, t_to):
        "record that two uninterpreted constants are equal"
        if t_from.get_id() == t_to.get_id():
            return
        for a, b in self.ksub:
            if a.get_id() == t_from.get_id():
                return
        self.ksub.append((t_from, t_to))

    # ---- obligations -------------------------------------------------------------
    def oblige(self, name, ok, detail="", backend="z3"):
        self.round_obl.append(Obligation(name, bool(ok), detail,
                                         list(self.dec), backend))
        return ok

    def oblige_eq(self, name, a, b, detail=""):
        d = self.norm(a - b)
        if d.is_zero():
            return self.oblige(name, True, backend="normal-form")
        ds = self._strip(d)
        ok = self.entails(self.z(ds) == 0)
        if ok:
            return self.oblige(name, True)
        backend, model = self.why()
        return self.oblige(name, ok, detail + " | not provably equal: %s  vs"
                           "  %s" % (self.norm(a), self.norm(b)) + model,
                           backend)

    def provably_eq(self, a, b, timeout=1500):
        d = self.norm(a - b)
        if d.is_zero():
            return True
        if d.is_const():
            return False
        return self.entails(self.z(self._strip(d)) == 0, timeout)

    def unsettled(self):
        "the round is going to be repeated, once the frames are known"
        return not all(i.stable for i in self.pvisited.values())

    def oblige_z(self, name, goal, detail=""):
        if self.zmode and self.unsettled():
            return True
        ok = self.entails(goal)
        if ok:
            return self.oblige(name, True)
        backend, model = self.why()
        return self.oblige(name, ok, detail + " | not provable: "
                           + str(goal)[:400] + model, backend)

    # ---- objects / frames --------------------------------------------------------
    def register(self, obj):
        obj_serial = len(self.objects)
        self.objects.append(obj)
        return obj_serial

    def on_mutate(self, obj, what=""):
        s = obj._pv_serial
        if obj._pv_eng is not self:
            s = -1
        if s < 0:
            self.oblige("frame:module-level object unchanged", False,
                        "mutation of a shared module-level %s (%s)"
                        % (type(obj).__name__, what))
            return
        if "pv_frozen" in obj.__dict__:
            self.oblige("frame:arguments unchanged", False,
                        "mutation of a %s (%s)" % (obj.pv_frozen, what))
        if (self.frame_start is not None and s < self.frame_start
                and s not in self.frame_allowed):
            self.oblige("frame:arguments unchanged", False,
                        "mutation of pre-existing %s #%d (%s)"
                        % (type(obj).__name__, s, what))
        for fr in self.iterstack:
            if s < fr.start_serial:
                fr.note_mutation(s)

    def enough(self):
        "has this round refuted so much, so slowly, that more adds nothing?"
        return time.time() - self.started > 30 and len([
            o for o in self.round_obl
            if not o.ok and o.backend == "z3-sat"]) >= 4

    # ---- exploration ---------------------------------------------------------------
    def explore(self, harness):
        global ENG
        prev = ENG
        ENG = self
        try:
            for rnd in range(self.MAX_ROUNDS):
                self.round_obl = []
                self.reached = 0
                self.visited = {}
                self.paths = self.normal_paths = 0
                self.work = [[]]
                while self.work:
                    if self.zmode and self.enough():
                        break
                    prefix = self.work.pop()
                    self.paths += 1
                    hit = self.pcache.get(tuple(prefix))
                    if hit and all(i.version == v for i, v in hit[0]):
                        # nothing this path depends on has changed
                        self.round_obl.extend(hit[1])
                        self.work.extend(hit[2])
                        self.visited.update(hit[3])
                        self.normal_paths += hit[4]
                        self.reached += hit[5]
                        continue
                    n_obl, n_reached = len(self.round_obl), self.reached
                    n_normal = self.normal_paths
                    outer_work, self.work = self.work, []
                    if self.paths > self.MAX_PATHS:
                        self.round_obl.append(Obligation(
                            "engine:path limit", False,
                            "more than %d paths" % self.MAX_PATHS, []))
                        self.work = []
                        break
                    self.pvisited = {}
                    self._begin(prefix)
                    try:
                        harness(self)
                        self.normal_paths += 1
                    except (PathEnd, Infeasible):
                        pass
                    except Unsupported as e:
                        self.round_obl.append(Obligation(
                            "engine:unsupported", False, "unsupported: %s" % e,
                            list(self.dec)))
                    except RecursionError as e:
                        self.round_obl.append(Obligation(
                            "engine:unsupported", False, "recursion: %s" % e,
                            list(self.dec)))
                    self.visited.update(self.pvisited)
                    self.pcache[tuple(prefix)] = (
                        [(i, i.version) for i in self.pvisited.values()],
                        self.round_obl[n_obl:], self.work, self.pvisited,
                        self.normal_paths - n_normal, self.reached - n_reached)
                    self.work = outer_work + self.work
                changed = False
                if self.dirty:
                    self.dirty = False
                    self.pcache = {}
                    changed = True
                # candidates of a loop are judged once its inner loops stand
                bad = [i.prefix for i in self.visited.values()
                       if i.failed or not i.stable]
                for key, info in self.visited.items():
                    was = info.stable
                    inner = info.prefix + (0,)
                    n = len(inner)
                    defer = bool(info.failed) and any(
                        len(b) >= n and b[:n] == inner for b in bad)
                    if info.settle(defer):
                        info.stable = False
                        info.version += 1
                        changed = True
                    elif not was:
                        info.version += 1
                        changed = True
                if not changed:
                    self.obligations = self.round_obl
                    self.rounds = rnd + 1
                    return self
            self.round_obl.append(Obligation(
                "engine:invariant inference did not converge", False, "", []))
            self.obligations = self.round_obl
            self.rounds = self.MAX_ROUNDS
            return self
        finally:
            ENG = prev
