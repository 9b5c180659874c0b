"Whole geometric programs: compilation, bounds, sensitivities, checks."
import math
import numpy as np
from .common import driver, expect, Skip, Quiet
from . import gen as G
from .constraints import terms, tval, partial_eval

TOL = 3e-3     # constants this close to 1 are left to the constraint drivers


def ratio(lo, hi):
    "terms of lo/hi in SI, merged"
    fl = G.unit_si(lo.hmap.units)[0]
    fh = G.unit_si(hi.hmap.units)[0]
    (he, hk), = terms(hi)
    out = {}
    for e, k in terms(lo):
        x = dict(e)
        for vk, y in he.items():
            x[vk] = x.get(vk, 0) - y
        x = frozenset((a, float(b)) for a, b in x.items() if abs(b) > 1e-13)
        out[x] = out.get(x, 0) + k*fl/(hk*fh)
    return [(dict(e), k) for e, k in out.items()]


class Infeas(Exception):
    pass


def without_constant(pe):
    """{exps: coef} of p <= 1 -> the same with the constant moved; None when
    it says nothing"""
    k = pe.get(frozenset(), 0.)
    only = all(not e for e in pe)
    if only:
        if abs(k-1) < TOL and k > 1:
            raise Skip()
        if k > 1:
            raise Infeas()
        return None
    if abs(k-1) < TOL:
        raise Skip()
    if k >= 1:
        raise Infeas()
    return {e: c/(1-k) for e, c in pe.items() if e}


class Con:
    "a constraint lo <= hi (or lo == hi), by its sides"
    def __init__(self, lo, hi, eq, flip):
        self.lo, self.hi, self.eq = lo, hi, eq
        self.sides = ratio(lo, hi)
        if eq:
            self.obj = lo == hi
        else:
            self.obj = hi >= lo if flip else lo <= hi

    def unsubbed(self):
        "[{exps: coef}] before substitution"
        if self.eq:
            (e, k), = self.sides
            if not e:
                raise Skip()
            inv = {a: -b for a, b in e.items()}
            return [{frozenset(e.items()): k}, {frozenset(inv.items()): 1/k}]
        p = without_constant({frozenset(e.items()): k
                              for e, k in self.sides})
        return [] if p is None else [p]

    def compiled(self, fixed):
        out = []
        for p in self.unsubbed():
            pe = partial_eval([(dict(e), k) for e, k in p.items()], fixed)
            pe = {e: v[0] for e, v in pe.items() if v[0] != 0}
            if self.eq and not any(pe) and pe and \
                    abs(pe[frozenset()] - 1) < TOL:
                raise Skip()
            if not pe:
                continue
            if min(pe.values()) < 1e-200 or max(pe.values()) > 1e200:
                raise Skip()
            q = without_constant(pe)
            if q is not None:
                out.append(q)
        return out


def lift(x):
    from gpkit import Monomial
    return x if hasattr(x, "hmap") else Monomial(x)


def nest(c, objs, named=True):
    "the constraints, in order, in nested lists, dicts and constraint sets"
    from gpkit import ConstraintSet
    r = c.rng
    if len(objs) <= 1 or r.random() < 0.3:
        return list(objs)
    k = r.randint(1, len(objs)-1)
    a, b = nest(c, objs[:k]), nest(c, objs[k:])
    w = r.randrange(5)
    if w == 0:
        a = ConstraintSet(a)
    elif w == 1:
        b = ConstraintSet(b)
    elif w == 2 and named:
        return {"first": ConstraintSet(a), "second": ConstraintSet(b)}
    elif w == 3:
        return a + b if isinstance(a, list) and isinstance(b, list) \
            and type(a) is list and type(b) is list else [a, b]
    return [a, b]


class Program:
    "a random geometric program"
    def __init__(self, c, nv=(1, 4), nc=(0, 5), units=None, peq=0.3,
                 exps=(1, 1, 2, -1, 0.5, -2), psub=0.3, zero=0.05,
                 nmax=3, flatten=False):
        from gpkit import VectorVariable
        r = c.rng
        self.c = c
        vs = G.mkvars(c, r.randint(*nv), units or r.choice(
            [[None], [None], ["m", "ft", "cm"], G.UNITS]))
        if r.random() < 0.3:
            u = r.choice([None, "m", "ft"])
            vec = VectorVariable(r.randint(1, 3), "w", u) if u else \
                VectorVariable(r.randint(1, 3), "w")
            for el in vec:
                el.pv_unit = u
            vs += list(vec)
            self.vec = vec
        else:
            self.vec = None
        self.vs = vs
        self.exps = exps
        self.cost = self.posy(nmax, r.choice([None] + vs))
        self.cost = lift(self.cost)
        self.cons = []
        for _ in range(r.randint(*nc)):
            con = self.constraint(nmax, peq)
            if con is not None:
                self.cons.append(con)
        self.fixed = {}
        used = self.used()
        for v in vs:
            if v.key in used and r.random() < psub:
                x = r.choice([1, 2, 0.5, 4, 0.25, 3, 1.5])
                self.fixed[v.key] = float(x)
        if zero and r.random() < zero and self.fixed:
            vk = r.choice(list(self.fixed))
            sides = [e for k in self.cons for e, _ in k.sides] + \
                [e for e, _ in terms(self.cost)]
            if not any(e.get(vk, 0) < 0 for e in sides) and not any(
                    k.eq and any(vk in e for e, _ in k.sides)
                    for k in self.cons):
                self.fixed[vk] = 0.
        self.nested = nest(c, [k.obj for k in self.cons])
        c.say("cost =", self.cost)
        for k in self.cons:
            c.say(k.lo, "==" if k.eq else "<=", k.hi)
        c.say("fixed", {str(k): x for k, x in self.fixed.items()})
        c.say("nested as", type(self.nested).__name__)

    def term(self, base):
        r = self.c.rng
        m = r.choice([0.25, 0.5, 1, 2, 3, round(r.uniform(0.1, 2), 2)])
        m = m*(base if base is not None else 1)
        for v in r.sample(self.vs, r.randint(0, min(3, len(self.vs)))):
            u = v.key.units
            m = m*(v/(1*u) if u else v)**r.choice(self.exps)
        return m

    def posy(self, nmax, base):
        r = self.c.rng
        p = self.term(base)
        for _ in range(r.randint(1, nmax)-1):
            t = self.term(base)
            if hasattr(t, "units") != hasattr(p, "units"):
                p = lift(p)
            p = p + t
        return p

    def constraint(self, nmax, peq):
        from gpkit.exceptions import PrimalInfeasible
        r = self.c.rng
        base = r.choice([None] + self.vs)
        eq = r.random() < peq
        lo = lift(self.posy(1 if eq else nmax, base))
        hi = lift(self.term(base))
        if r.random() < 0.2 and not eq:
            lo = lo + r.choice([0.25, 0.5])*hi
        if eq and not any(e for e, _ in ratio(lo, hi)):
            return None
        try:
            with Quiet():
                k = Con(lo, hi, eq, r.random() < 0.5)
                k.unsubbed()
        except (PrimalInfeasible, Infeas, Skip):
            return None
        if k.obj in (True, False):
            return None
        return k

    def substitutions(self):
        "the fixed values, in the forms users give them"
        from gpkit.units import Quantity
        r = self.c.rng
        out = {}
        left = dict(self.fixed)
        if self.vec is not None and all(el.key in left for el in self.vec) \
                and r.random() < 0.5:
            vals = [left.pop(el.key) for el in self.vec]
            key = self.vec[0].key.veckey
            out[r.choice([key, key.name])] = vals
        for vk, x in left.items():
            w = r.randrange(3)
            if w == 0 and vk.units and r.random() < .7:
                x = Quantity(x, vk.units)
            key = vk if w != 2 or vk.idx else vk.name
            out[key] = x
        return out

    def model(self):
        from gpkit import Model
        m = Model(self.cost, self.nested, self.substitutions())
        # variables without constraints keep no substitution
        return m

    def used(self):
        "variables of the cost and the constraints, before substitution"
        out = {vk for e, _ in terms(self.cost) for vk in e}
        for k in self.cons:
            for s in (k.lo, k.hi):
                out |= {vk for e, _ in terms(s) for vk in e}
        return out

    def oracle(self):
        "[{exps: coef}] cost first, then one per constraint; [equality?]"
        f = G.unit_si(self.cost.hmap.units)[0]
        pe = partial_eval(terms(self.cost), self.fixed)
        cost = {e: v[0] for e, v in pe.items() if v[0] != 0}
        if not cost:
            raise Skip()
        ps, eqs = [cost], [None]
        for i, k in enumerate(self.cons):
            new = k.compiled(self.fixed)
            ps += new
            eqs += [i if k.eq else None]*len(new)
        return ps, eqs


def capture(store):
    def solver(*, c, A, meq_idxs, k, p_idxs, **kw):
        store.update(c=c, A=A, meq=meq_idxs, k=k, p_idxs=p_idxs)
        from gpkit.exceptions import PrimalInfeasible
        raise PrimalInfeasible()
    return solver


def fetch(gp):
    "what is handed to a solver"
    from gpkit.exceptions import PrimalInfeasible
    data = {}
    with Quiet():
        try:
            gp.solve(capture(data), verbosity=0)
        except PrimalInfeasible:
            pass
    expect("A" in data, "the solver was not called")
    return data


def columns(gp):
    if not hasattr(gp, "varlocs"):
        raise ImportError("varlocs")
    return list(gp.varlocs)


def rows_of(data, cols):
    "[{exps: coef}] from the solver data"
    A = np.asarray(data["A"].tocsr().todense())
    cs = np.asarray(data["c"], dtype=float)
    ks = list(data["k"])
    expect(len(cs) == sum(ks), "as many coefficients as terms", len(cs), ks)
    if len(cols) == 0 and A.shape[1] == 1 and not A.any():
        A = A[:, :0]
    expect(A.shape == (len(cs), len(cols)), "shape of the exponent matrix",
           A.shape, len(cs), [str(v) for v in cols])
    expect(list(data["p_idxs"]) == [i for i, k in enumerate(ks)
                                    for _ in range(k)],
           "posynomial of each row", list(data["p_idxs"]), ks)
    out, starts = [], []
    at = 0
    for k in ks:
        p = {}
        starts.append(at)
        for j in range(at, at+k):
            e = frozenset((v, float(x)) for v, x in zip(cols, A[j]) if x)
            expect(e not in p, "a term appears twice", [str(v) for v, _ in e])
            p[e] = float(cs[j])
        out.append(p)
        at += k
    return out, starts


def posy_same(p, q, tol=1e-9):
    if len(p) != len(q):
        return False
    rest = dict(q)
    for e, k in p.items():
        hit = None
        d = dict(e)
        for f in rest:
            g = dict(f)
            if set(g) == set(d) and all(abs(g[v]-d[v]) < 1e-9 for v in d) \
                    and G.close(rest[f], k, tol=tol):
                hit = f
                break
        if hit is None:
            return False
        del rest[hit]
    return True


def show(p):
    return {" ".join("%s^%g" % (v, x) for v, x in sorted(
        e, key=str)) or "1": k for e, k in p.items()}


@driver(("C08",), 2400)
def compiled_data(c):
    "the data given to the solver are the cost and the constraints"
    from gpkit.exceptions import PrimalInfeasible
    p = Program(c)
    try:
        want, eqs = p.oracle()
    except Infeas:
        want = None
    m = p.model()
    try:
        gp = m.gp(checkbounds=False)
    except PrimalInfeasible:
        expect(want is None, "a feasible constraint is called infeasible")
        return
    expect(want is not None, "constants violate a constraint, unnoticed")
    data = fetch(gp)
    cols = columns(gp)
    expect(len(set(cols)) == len(cols), "a variable has two columns")
    free = {v for q in want for e in q for v, _ in e}
    expect(set(cols) == free, "columns of the free variables",
           [str(v) for v in cols], [str(v) for v in free])
    got, starts = rows_of(data, cols)
    expect(len(got) == len(want), "number of posynomials",
           [show(q) for q in got], [show(q) for q in want])
    expect(posy_same(got[0], want[0]), "cost", show(got[0]), show(want[0]))
    left = list(range(1, len(want)))
    owner = {0: None}
    for i in range(1, len(got)):
        j = next((j for j in left if posy_same(got[i], want[j])), None)
        expect(j is not None, "a compiled constraint is not among those"
               " asked for", show(got[i]), [show(want[j]) for j in left])
        left.remove(j)
        owner[i] = eqs[j]
    meq = data["meq"]
    rows = {starts[i] for i, o in owner.items() if o is not None}
    expect(set(meq.all) == rows, "rows marked as equalities", set(meq.all),
           rows)
    for k in {o for o in owner.values() if o is not None}:
        mine = [starts[i] for i, o in owner.items() if o == k]
        if sum(1 for o in eqs if o == k) == 2 and len(mine) == 2 and \
                len([o for o in owner.values() if o is not None]) == \
                2*len({o for o in owner.values() if o is not None}):
            same = [q for q in want[1:] if posy_same(q, got[
                starts.index(mine[0])])]
            if len(same) == 1:
                expect(len(set(meq.first_half) & set(mine)) == 1,
                       "one row of each equality is its first",
                       set(meq.first_half), mine)
    expect(2*len(meq.first_half) == len(rows), "halves of the equalities",
           set(meq.first_half), rows)


@driver(("C08",), 500)
def compiled_twice(c):
    "compiling again, after other substitutions, gives the same data"
    from gpkit.exceptions import PrimalInfeasible, InvalidGPConstraint
    p = Program(c, zero=0)
    m = p.model()
    r = c.rng

    def snapshot():
        try:
            gp = m.gp(checkbounds=False)
        except PrimalInfeasible:
            return None
        cols = columns(gp)
        d = fetch(gp)
        rows, starts = rows_of(d, cols)
        return rows, set(d["meq"].all)
    one = snapshot()
    other = {k: np.array(x) if np.shape(x) else x
             for k, x in m.substitutions.items()}
    for v in p.vs:
        if r.random() < 0.4 and v.key in m.varkeys:
            m.substitutions.update({v.key: r.choice([1., 2., 0.5])})
    try:
        snapshot()
    except (ZeroDivisionError, InvalidGPConstraint):
        pass
    for k in list(m.substitutions):
        del m.substitutions[k]
    m.substitutions.update(other)
    two = snapshot()
    expect((one is None) == (two is None), "feasible only sometimes")
    if one is None:
        return
    expect(len(one[0]) == len(two[0]) and one[1] == two[1]
           and all(posy_same(a, b) for a, b in zip(one[0], two[0])),
           "compiled differently", [show(q) for q in one[0]],
           [show(q) for q in two[0]])


# ------------------------------------------------------------------- bounds
def least_bounds(ps, eqs):
    "all (variable, direction) that follow from the compiled posynomials"
    have = set()
    for q, o in zip(ps, eqs):
        if o is None:
            for e in q:
                for v, x in e:
                    have.add((v, "upper" if x > 0 else "lower"))
    flip = {"upper": "lower", "lower": "upper"}
    rows = [dict(next(iter(q))) for q, o in zip(ps, eqs) if o is not None]
    changed = True
    while changed:
        changed = False
        for row in rows:
            for v, x in row.items():
                for d in ("upper", "lower"):
                    if (v, d) in have:
                        continue
                    if all((w, flip[d] if (y > 0) == (x > 0) else d) in have
                           for w, y in row.items() if w != v):
                        have.add((v, d))
                        changed = True
    return have


@driver(("C13",), 3000)
def bounds(c):
    "unbounded variables are reported, bounded ones are not"
    from gpkit.exceptions import PrimalInfeasible, UnboundedGP
    r = c.rng
    p = Program(c, nv=(1, 6), nc=(0, 6), units=[None] if r.random() < .8
                else None, peq=r.choice([0.2, 0.6, 0.9]),
                exps=(1, -1, 2, -0.5), psub=r.choice([0, 0.1, 0.3]),
                nmax=r.choice([1, 2]))
    try:
        ps, eqs = p.oracle()
    except Infeas:
        raise Skip()
    m = p.model()
    try:
        gp = m.gp(checkbounds=False)
    except PrimalInfeasible:
        raise Skip()
    have = least_bounds(ps, eqs)
    free = {v for q in ps for e in q for v, _ in e}
    want = {(v, d) for v in free for d in ("upper", "lower")} - have
    got = gp.check_bounds()
    expect(set(got) == want, "bounds reported missing",
           sorted(map(str, got)), sorted(map(str, want)))
    again = gp.check_bounds()
    expect(set(again) == want, "reported otherwise the second time",
           sorted(map(str, again)))
    for (v, d), txt in got.items():
        expect(isinstance(txt, str), "explanation", txt)
    try:
        m.gp()
        expect(not want, "a program with unbounded variables is accepted",
               sorted(map(str, want)))
    except UnboundedGP as e:
        expect(want, "a bounded program is refused", e)
        for v, d in want:
            expect("%s has no %s bound" % (v, d) in str(e),
                   "not named in the error", v, d, e)
        expect(str(e).count(" has no ") == len(want), "named too often", e)
    # the solver is not called for unbounded programs
    called = {}
    try:
        m.solve(capture(called), verbosity=0)
    except UnboundedGP:
        expect(want and not called, "refused only after solving")
    except PrimalInfeasible:
        expect(not want and called, "unbounded program given to the solver")


@driver(("C13",), 800)
def bounds_of_sets(c):
    "the bounds a constraint set has are those its constraints imply"
    from gpkit import ConstraintSet
    r = c.rng
    p = Program(c, nv=(1, 5), nc=(1, 6), units=[None], peq=0.6,
                exps=(1, -1, 2), psub=r.choice([0, 0.3]), nmax=2, zero=0)
    used = {vk for k in p.cons for s in (k.lo, k.hi)
            for e, _ in terms(s) for vk in e}
    cs = ConstraintSet(p.nested, {k: x for k, x in p.fixed.items()
                                  if k in used})
    ps, eqs = [], []
    for i, k in enumerate(p.cons):
        new = k.unsubbed()
        ps += new
        eqs += [i if k.eq else None]*len(new)
    fixed = [frozenset([(v, s)]) for v in p.fixed if v in used
             for s in (1., -1.)]
    have = least_bounds(ps + [{e: 1.} for e in fixed],
                        eqs + [None]*len(fixed))
    got = set(cs.bounded)
    single = {v for q, o in zip(ps, eqs) if o is not None
              for e in q for v, _ in e if len(e) == 1}
    expect(got <= have, "a bound that does not follow",
           sorted(map(str, got - have)))
    if not single:
        expect(have <= got, "a bound that follows is not noted",
               sorted(map(str, have - got)))


# ------------------------------------------------- sensitivities and assembly
def answering(out, name="answer"):
    "a solver that returns given data"
    def solver(*, c, A, meq_idxs, k, p_idxs, **kw):
        return dict(out)
    solver.__name__ = name
    return solver


class Lagrangian:
    "log cost + sum of la_i log p_i, as a function of all variables"
    def __init__(self, p, point):
        self.p, self.fixed = p, p.fixed
        self.full = dict(point)
        self.full.update(p.fixed)

    def dlog(self, ts):
        "derivatives of log(sum of terms) at the point"
        vals = [(e, tval(e, k, self.full)) for e, k in ts]
        tot = sum(x for _, x in vals)
        out = {}
        for e, x in vals:
            for v, y in e.items():
                out[v] = out.get(v, 0) + x*y/tot
        return out, tot

    def cost(self):
        return self.dlog([(e, k) for e, k in terms(self.p.cost)])[0]

    def constraint(self, q):
        "of (q - k)/(1 - k), k the part of q that the constants fix"
        free = [(dict(e), k) for e, k in q.items()
                if any(v not in self.fixed for v, _ in e)]
        const = [(dict(e), k) for e, k in q.items()
                 if not any(v not in self.fixed for v, _ in e)]
        out, _ = self.dlog(free)
        if const:
            dk, k = self.dlog(const)
            for v, x in dk.items():
                out[v] = out.get(v, 0) + x*k/(1-k)
        return out


def solved(c, **kw):
    "a program with a made-up primal point and dual weights"
    from gpkit.exceptions import PrimalInfeasible
    r = c.rng
    p = Program(c, zero=0, **kw)
    try:
        want, eqs = p.oracle()
    except Infeas:
        raise Skip()
    m = p.model()
    try:
        gp = m.gp(checkbounds=False)
    except PrimalInfeasible:
        raise Skip()
    cols = columns(gp)
    if not cols:
        raise Skip()
    data = fetch(gp)
    if not hasattr(m, "gp"):
        raise ImportError("gp")
    gp = m.gp(checkbounds=False)
    rows, _ = rows_of(data, cols)
    if len(rows) != len(want):
        raise Skip()
    x = {v: round(math.exp(r.uniform(-1, 1)), 4) for v in cols}
    c.say("primal", {str(v): y for v, y in x.items()})
    las = [1.] + [round(r.uniform(0.05, 3), 3) for _ in rows[1:]]
    c.say("la", las)
    nu = []
    for q, la in zip(rows, las):
        w = [tval(dict(e), k, x) for e, k in q.items()]
        nu += [la*y/sum(w) for y in w]
    out = {"status": "optimal", "objective": 1.23,
           "primal": np.log([x[v] for v in cols])}
    w = r.randrange(3)
    if w == 0:
        out["nu"] = np.array(nu)
    elif w == 1:
        out["la"] = np.array(las)
    else:
        out["la"] = np.array(las[1:])
        if len(las) == 1:
            out["nu"] = np.array(nu)
    c.say("given:", [k for k in out if k in ("nu", "la")])
    if "nu" in out and r.random() < 0.3:
        out["nu"] = out["nu"].reshape(-1, 1)
    with Quiet():
        try:
            sol = gp.solve(answering(out), verbosity=0)
        except IndexError:
            raise
    return p, m, gp, sol, rows, want, eqs, x, las


def value(d, v):
    try:
        z = d[v]
    except KeyError:
        return 0.
    z = np.asarray(z, dtype=float)
    if z.shape:
        z = z[v.idx] if getattr(v, "idx", None) else z.ravel()[0]
    return 0. if np.isnan(z) else float(z)


@driver(("C11",), 2000)
def program_sens(c):
    "sensitivities are derivatives of the Lagrangian"
    p, m, gp, sol, rows, want, eqs, x, las = solved(
        c, nc=(0, 4), psub=0.45, nmax=4)
    L = Lagrangian(p, x)
    # pair compiled posynomials with their constraints
    left = list(range(1, len(want)))
    which = []
    for q in rows[1:]:
        js = [j for j in left if posy_same(q, want[j])]
        if len(js) != 1 and len({eqs[j] for j in js}) > 1:
            raise Skip()
        if not js:
            raise Skip()
        which.append(js[0])
        left.remove(js[0])
    uns, owner = [], []
    for i, k in enumerate(p.cons):
        for q in k.unsubbed():
            pe = partial_eval([(dict(e), kk) for e, kk in q.items()], p.fixed)
            if without_constant({e: z[0] for e, z in pe.items()
                                 if z[0] != 0}) is not None:
                uns.append(q)
                owner.append(i)
    assert len(uns) == len(want) - 1
    tot = dict(L.cost())
    cons = {}
    for la, j in zip(las[1:], which):
        q = uns[j-1]
        for v, z in L.constraint(q).items():
            tot[v] = tot.get(v, 0) + la*z
        i = owner[j-1]
        if p.cons[i].eq:
            cons.setdefault(i, []).append(la)
        else:
            cons[i] = la
    got = sol["sensitivities"]["variables"]
    for v in set(tot):
        z = value(got, v)
        expect(G.close(z, tot[v], 1., 1e-7), "sensitivity to %s" % v, z,
               tot[v])
    for v in got:
        if not v.shape:
            expect(v in tot or abs(value(got, v)) < 1e-12,
                   "sensitivity to a variable that is not there", v)
    gc = sol["sensitivities"]["constraints"]
    for i, la in cons.items():
        obj = p.cons[i].obj
        if p.cons[i].eq:
            if len(la) != 2:
                continue
            la = abs(la[0]-la[1])
        mine = [z for k, z in gc.items() if k is obj]
        expect(len(mine) == 1, "sensitivity of a constraint", obj, mine)
        if sum(1 for k in p.cons if k.obj is obj) == 1:
            expect(G.close(float(mine[0]), la, 1., 1e-8), "sensitivity of %s"
                   % obj, mine, la)
    cost = L.cost()
    gco = sol["sensitivities"]["cost"]
    for v, z in cost.items():
        expect(G.close(float(gco.get(v, 0)), z, 1., 1e-8), "sensitivity of"
               " the cost itself to %s" % v, gco, z)


@driver(("C11",), 500)
def linked_sens(c):
    "sensitivities of linked variables are carried to their sources"
    from gpkit import Variable, Model
    r = c.rng
    u = [r.choice([None, "m", "ft"]) for _ in range(3)]
    mk = lambda n, x, k: Variable(n, x, u[k]) if u[k] else Variable(n, x)
    xa, xb = round(r.uniform(0.5, 3), 2), round(r.uniform(0.5, 3), 2)
    a, b = mk("a", xa, 0), mk("b", xb, 1)
    kind = r.randrange(4)
    if kind == 3:    # a negative value
        f = lambda d: d[a.key] - 5
        fx = xa - 5
        fa, fb = xa/fx, 0.
    elif kind == 0:
        f = lambda d: 2*d[a.key]**2
        fx, fa, fb = 2*xa**2, 2., 0.
    elif kind == 1:
        f = lambda d: d[a.key]*d[b.key]**3
        fx, fa, fb = xa*xb**3, 1., 3.
    else:
        f = lambda d: d[a.key] + 2*d[b.key]
        fx = xa + 2*xb
        fa, fb = xa/fx, 2*xb/fx
    l = mk("l", f, 2)
    c.say("a=%r b=%r l=%s" % (xa, xb, ["2a^2", "a b^3", "a+2b", "a-5"][kind]), u)
    x, y = Variable("x"), Variable("y")
    pl = lambda v: v/(1*v.key.units) if v.key.units else v
    e = [r.choice([1, 2, -1, 0.5, 0]) for _ in range(6)]
    e[3], e[5] = r.choice([1, -1, 0.5]), r.choice([1, -1, 2])
    if kind == 3:
        e[0], e[2], e[4] = (r.choice([2, -2, 0]) for _ in range(3))
    incost = r.random() < 0.5
    cost = x*y*(pl(l)**e[0] if incost else 1)*(pl(a)**e[1]
                                              if r.random() < .3 else 1)
    ea = dict(cost.hmap and next(iter(cost.hmap)))
    c1 = x >= 2*pl(l)**e[2]*pl(a)**e[3]
    c2 = y >= 3*pl(l)**e[4]*pl(b)**e[5]
    c.say(cost, "|", c1, "|", c2)
    m = Model(cost, [c1, c2])
    gp = m.gp()
    cols = columns(gp)
    la = [round(r.uniform(0.1, 3), 2) for _ in range(2)]
    rows, _ = rows_of(fetch(gp), cols)
    gp = m.gp()
    per = []
    for q in rows[1:]:
        (ex,), = [list(q)]
        per.append(la[0] if any(v == x.key for v, _ in ex) else la[1])
    out = {"status": "optimal", "objective": 1., "nu": np.array([1.] + per),
           "primal": np.log([2. for v in cols])}
    with Quiet():
        sol = gp.solve(answering(out), verbosity=0)
    dl = la[0]*e[2] + la[1]*e[4] + ea.get(l.key, 0)
    da = la[0]*e[3] + ea.get(a.key, 0) + dl*fa
    db = la[1]*e[5] + dl*fb
    got = sol["sensitivities"]["variables"]
    for v, w in ((a, da), (b, db)):
        z = value(got, v.key)
        expect(G.close(z, w, 1., 1e-7), "sensitivity to %s" % v, z, w)
    for v, w in ((l, fx), (a, xa), (b, xb)):
        if v.key in m.varkeys:
            expect(G.close(value(sol["constants"], v.key), w), "value of a"
                   " constant", v, value(sol["constants"], v.key), w)


@driver(("C10",), 1500)
def assembled(c):
    "the solution holds the solver's values and the constants"
    from gpkit.units import Quantity
    p, m, gp, sol, rows, want, eqs, x, las = solved(
        c, nc=(0, 4), psub=0.4, nmax=3)
    full = dict(x)
    full.update(p.fixed)
    for v, z in full.items():
        for nm in ("variables", "freevariables" if v in x else "constants"):
            d = sol[nm]
            g = value(d, v)
            expect(G.close(g, z, tol=1e-9), "%s[%s]" % (nm, v), g, z)
        other = sol["constants" if v in x else "freevariables"]
        expect(v not in other, "%s is both free and constant" % v)
    r = c.rng
    for v, z in full.items():
        q = sol(v)
        fu = G.num_val(q)
        fv, dv = G.unit_si(v.units)
        expect(G.same(fu, G.Val(z*fv, dv), 1e-9), "value of %s with units"
               % v, q, z)
    for e in [p.cost] + [k.lo for k in p.cons] + [k.hi for k in p.cons]:
        q = sol.subinto(e)
        at = {v.key: 1.7 for v in p.vs}
        at.update(full)
        wantv = G.nomial_val(e, at)
        expect(G.same(G.nomial_val(q, at), wantv, 1e-8), "an expression"
               " evaluated at the solution", e, q, wantv)
    if p.vec is not None and all(el.key in full for el in p.vec):
        arr = sol[r.choice(["variables"])][p.vec[0].key.veckey]
        for el in p.vec:
            expect(G.close(float(arr[el.key.idx]), full[el.key], tol=1e-9),
                   "element of a vector", arr, el)
    names = {}
    for v in full:
        if not v.idx:
            names.setdefault(v.name, []).append(v)
    for n, vs in names.items():
        if len(vs) == 1:
            expect(G.close(value(sol["variables"], n), full[vs[0]], tol=1e-9),
                   "value by name", n, sol["variables"][n])
    expect(G.close(float(sol["cost"]), 1.23), "cost", sol["cost"])


# ------------------------------------------------------------ solution check
def tight(c):
    "a program whose optimum and dual are known: every constraint is tight"
    from gpkit import Model, Variable
    r = c.rng
    n = r.randint(1, 4)
    xs = [Variable("x%d" % i) for i in range(n)]
    val, cons, posys = {}, [], []

    def posy(vs, kmax):
        ts = []
        for _ in range(r.randint(1, kmax)):
            e = {v: r.choice([1, 2, 0.5]) for v in r.sample(
                vs, r.randint(0, min(2, len(vs))))}
            ts.append((e, round(r.uniform(0.2, 2), 2)))
        merged = {}
        for e, k in ts:
            key = frozenset(e.items())
            merged[key] = merged.get(key, 0) + k
        return merged
    for i, x in enumerate(xs):
        q = posy(xs[:i], 3)
        eq = len(q) == 1 and r.random() < 0.3
        ev = lambda q: sum(k*math.prod(val[v.key]**y for v, y in e)
                           for e, k in q.items())
        val[x.key] = ev(q)
        g = sum(k*math.prod([v**y for v, y in e] + [1]) for e, k in q.items())
        cons.append(x == g if eq else x >= g)
        posys.append((q, x, eq))
    q = posy(xs, 3)
    used = {v for e in q for v, _ in e}
    for x in xs:
        if x not in used:
            e = frozenset({x: r.choice([1, 2])}.items())
            q[e] = q.get(e, 0) + round(r.uniform(0.2, 2), 2)
    cost = sum(k*math.prod([v**y for v, y in e] + [1]) for e, k in q.items())
    c.say("cost", cost, "constraints", cons)
    return Model(cost, cons), val, xs


def dual_of(data, cols, val):
    "least-squares dual of the tight program, from the solver data alone"
    A = np.asarray(data["A"].tocsr().todense(), dtype=float)
    cs = np.asarray(data["c"], dtype=float)
    ks = list(data["k"])
    xl = np.log([val[v] for v in cols])
    t = cs*np.exp(A.dot(xl))
    starts = np.cumsum([0] + ks)
    share = np.concatenate([t[a:b]/t[a:b].sum()
                            for a, b in zip(starts, starts[1:])])
    g = np.array([share[a:b].dot(A[a:b]) for a, b in zip(starts, starts[1:])])
    if len(ks) > 1:
        la, *_ = np.linalg.lstsq(g[1:].T, -g[0], rcond=None)
    else:
        la = np.zeros(0)
    la = np.concatenate([[1.], la])
    # of an equality only the difference counts; make both nonnegative
    meq = set(data["meq"].all)
    idx = [i for i in range(1, len(ks)) if starts[i] in meq]
    for i in idx:
        for j in idx:
            if i < j and np.allclose(g[i], -g[j]):
                d = la[i] - la[j]
                la[i], la[j] = max(d, 0)+0.01, max(-d, 0)+0.01
    nu = np.concatenate([la[i]*share[a:b] for i, (a, b) in enumerate(
        zip(starts, starts[1:]))])
    return A, cs, starts, xl, t, la, nu


@driver(("C12",), 1600)
def solution_check(c):
    "wrong solutions are reported, right ones are not"
    import io
    import sys
    r = c.rng
    m, val, xs = tight(c)
    gp = m.gp()
    cols = columns(gp)
    data = fetch(gp)
    gp = m.gp()
    A, cs, starts, xl, t, la, nu = dual_of(data, cols, val)
    if np.abs(nu.dot(A)).max() > 1e-9 or (nu < 0).any():
        raise Skip()
    name = r.choice(["somesolver", "cvxopt", "mosek_cli", "mosek_conif"])
    tol = {"cvxopt": 1e-3, "mosek_cli": 1e-4, "mosek_conif": 1e-3}.get(
        name, 1e-5)
    cost = t[:starts[1]].sum()
    xl, nu, la = xl.copy(), nu.copy(), la.copy()
    size = r.choice([0, 0, 3, 30, 1000])*tol*r.choice([1, -1])
    kind = r.choice(["none", "cost", "primal", "nu", "la", "scale", "dir",
                     "neg"])
    i = r.randrange(len(xl))
    j = r.randrange(len(nu))
    if kind == "cost":
        cost *= 1 + size
    elif kind == "primal":
        xl[i] += size
    elif kind == "nu":
        nu[j] += size
    elif kind == "la" and len(la) > 1:
        nu[starts[1]:] *= 1+size
    elif kind == "scale":
        nu *= 1+size
    elif kind == "dir":
        xl += np.array([r.uniform(-1, 1) for _ in xl])*size
        cost = (cs*np.exp(A.dot(xl)))[:starts[1]].sum()
    elif kind == "neg":
        nu[j] = -abs(size)*r.choice([1, 1e-5])
    out = {"status": "optimal", "objective": cost, "primal": xl}
    given = r.choice(["nu", "nu", "la"])
    c.say("solver", name, "tampered", kind, size, "index", i, j, given)
    if given == "nu":
        out["nu"] = nu
    else:
        out["la"] = np.array([nu[a:b].sum() for a, b in zip(
            starts, starts[1:])])
        tt = cs*np.exp(A.dot(xl))
        nu = np.concatenate([out["la"][q]*tt[a:b]/tt[a:b].sum()
                             for q, (a, b) in enumerate(zip(
                                 starts, starts[1:]))])
    # the conditions, each with its distance from its bound
    la = np.array([nu[a:b].sum() for a, b in zip(starts, starts[1:])])
    tt = cs*np.exp(A.dot(xl))
    rel = lambda a, b: abs((a-b)/(a+b))
    gaps = [rel(tt[:starts[1]].sum(), cost)]
    gaps += [tt[a:b].sum() - 1 for a, b in zip(starts[1:], starts[2:])]
    gaps.append(rel(nu[:starts[1]].sum(), 1))
    gaps += list(np.abs(nu.dot(A)))
    gaps.append(-1000*nu.min())
    if (nu == 0).any():
        raise Skip()
    with np.errstate(all="ignore"):
        dc = sum(nu[a:b].dot(np.log(cs[a:b]) - np.log(nu[a:b]/la[q]))
                 for q, (a, b) in enumerate(zip(starts, starts[1:]))
                 if la[q])
    if not (nu < 0).any():
        gaps.append(rel(math.exp(min(dc, 700)), cost))
    worst = max(gaps)
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        gp.solve(answering(out, name), verbosity=0)
        said = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    warned = "Solution check warning" in said
    if (nu < 0).any() and nu.min() >= -tol/1000:
        return      # tolerated, but the logarithm is undefined
    if worst > 1.01*tol:
        expect(warned, "a wrong solution is not reported", "gaps", gaps,
               "tolerance", tol)
    elif worst < 0.99*tol:
        expect(not warned, "a right solution is reported", said, gaps)
