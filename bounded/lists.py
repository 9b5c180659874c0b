"Dictionaries of lists, which hold many solutions (C22)."
import copy
import math
import numpy as np
from .common import driver, expect


def template(c, depth):
    "keys, and what is found under each in every solution that has it"
    r = c.rng
    out = {}
    for i in range(r.randint(1, 4)):
        key = r.choice(["a", "b", "cost", "x", ("t", 1), 3]) \
            if r.random() < 0.7 else "k%i" % i
        kinds = ["number", "number", "array", "matrix", "list"]
        if depth:
            kinds += ["dict", "dict"]
        kind = r.choice(kinds)
        if kind == "dict":
            out[key] = ("dict", r.random() < 0.3, template(c, depth-1))
        else:
            out[key] = (kind, r.random() < 0.3, r.randint(1, 3))
    return out


def solution(c, tmpl):
    r = c.rng
    out = {}
    keys = list(tmpl)
    r.shuffle(keys)
    for key in keys:
        kind, optional, info = tmpl[key]
        if optional and r.random() < 0.5:
            continue
        if kind == "dict":
            out[key] = solution(c, info)
        elif kind == "number":
            out[key] = r.choice([1.0, 2.5, -3.0, np.float64(0.5), 7, 0.0])
        elif kind == "array":
            out[key] = np.array([r.random() for _ in range(info)])
        elif kind == "matrix":
            out[key] = np.array([[r.random() for _ in range(info)]]*2)
        else:
            out[key] = [("warned %s" % r.randint(0, 9), i)
                        for i in range(r.randint(0, info))]
    return out


def blank(v, like):
    if isinstance(like, list):
        return isinstance(v, (list, np.ndarray)) and len(v) == 0
    return np.shape(v) == np.shape(like) and bool(np.all(np.isnan(
        np.asarray(v, float))))


def equal(a, b):
    if isinstance(b, list):
        # a list of lists of one length may have been made one array
        return len(a) == len(b) and all(
            list(x) == [str(i) for i in y] or tuple(x) == tuple(y)
            for x, y in zip(a, b))
    return np.shape(a) == np.shape(b) and bool(np.all(
        np.asarray(a) == np.asarray(b)))


def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def at(d, path):
    "(whether it is there, it)"
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return False, None
        d = d[k]
    return True, d


def compare(held, sols, when, where):
    "every item of every solution is in its place, blanks where there is none"
    sols = [drop_empty(copy.deepcopy(s)) for s in sols]
    paths = {}
    for s in sols:
        for p, v in leaves(s):
            paths.setdefault(p, v)
    got = {p for p, _ in leaves(held)}
    expect(got == set(paths), "items held %s" % when, got, set(paths))
    for p, like in paths.items():
        _, v = at(held, p)
        expect(len(v) == len(sols), "how many are held at %s %s" % (p, when),
               v)
        for i, s in enumerate(sols):
            there, want = at(s, p)
            if there:
                expect(equal(v[i], want), "the item %s of solution %i %s"
                       % (p, i, when), v, want)
            else:
                expect(blank(v[i], like), "solution %i has no %s, %s"
                       % (i, p, when), v[i])
            if where is not None:
                found, w = at(where(i), p)
                expect(found and (equal(w, want) if there
                                  else blank(w, like)),
                       "the item %s at index %i %s" % (p, i, when), w, want)


def drop_empty(s):
    "dictionaries with nothing in them say nothing"
    for k, v in list(s.items()):
        if isinstance(v, dict):
            drop_empty(v)
            if not v:
                del s[k]
    return s


@driver(("C22",), 250)
def lists_of_solutions(c):
    "append, index and convert nested dictionaries"
    from gpkit.small_classes import DictOfLists
    r = c.rng
    tmpl = template(c, r.randint(0, 2))
    n = r.choice([1, 2, 2, 3, 5])
    sols = [solution(c, tmpl) for _ in range(n)]
    if r.random() < 0.5:
        drop_empty(sols[0])
    for s in sols:
        c.say("append", s)
    given = [copy.deepcopy(s) for s in sols]
    held = DictOfLists()
    for i, s in enumerate(sols):
        held.append(s)
        if r.random() < 0.3:
            compare(held, given[:i+1], "after append %i" % i, held.atindex)
    compare(held, given, "after appending", held.atindex)
    for s, g in zip(sols, given):
        expect(all(equal(v, dict(leaves(g))[p]) for p, v in leaves(s)),
               "an appended solution was changed", s, g)
    held.to_arrays()
    if n > 1:
        compare(held, given, "as arrays", held.atindex)
        return
    for p, v in leaves(given[0]):
        there, w = at(held, p)
        expect(there and equal(w, v), "the single item at %s" % (p,), w, v)
    expect({p for p, _ in leaves(held)} == {p for p, _ in leaves(given[0])},
           "items of a single solution", held)


@driver(("C22", "C18"), 30)
def swept_solutions(c):
    "a swept model against its points solved one by one"
    from gpkit import Variable, VectorVariable, Model
    from gpkit.constraints.tight import Tight
    r = c.rng
    pts = [r.choice([0, 0.25, 0.5, 2.0, 3.0, 4.5]) for _ in
           range(r.randint(2, 5))]
    factor, bound, tight = r.choice([1.0, 3.0]), r.choice([1, 2]), \
        r.random() < 0.5
    vec = r.random() < 0.5
    if tight:
        pts = [p or 0.75 for p in pts]

    def model():
        x, a, b = Variable("x"), Variable("a"), Variable("b", factor)
        cs = [Tight([x >= a*b])] if tight else [x >= a*b]
        cs.append(x >= bound)
        cost = x
        if vec:
            y = VectorVariable(3, "y")
            cs.append(y >= x*np.array([1., 2., 3.]))
            cost = x*y.prod()
        return Model(cost, cs), a
    m, a = model()
    c.say("sweep", pts, "factor", factor, "bound", bound, "tight", tight,
          "vector", vec)
    m.substitutions[a] = ("sweep", pts)
    swept = m.solve(verbosity=0)
    ones = []
    for p in pts:
        o, oa = model()
        o.substitutions[oa] = p
        ones.append(o.solve(verbosity=0))
    expect(len(swept) == len(pts), "number of solutions", len(swept))
    skip = {"soltime", "meta", "modelstr", "warnings"}

    def near(u, v):
        return np.shape(u) == np.shape(v) and np.allclose(
            np.asarray(u, float), np.asarray(v, float), rtol=1e-3,
            atol=1e-5)
    # the variables are made anew for each model: they compare by name
    seen = {}
    for i, one in enumerate(ones):
        for p, v in leaves(one):
            if p[0] in skip or "constraints" in p or "models" in p:
                continue
            seen.setdefault(p, []).append((i, v))
    for p, vals in seen.items():
        there, w = at(swept, p)
        if p == ("constants", a.key):
            p = ("sweepvariables", a.key)
            there, w = at(swept, p)
        elif p[0] == "constants":   # these are not swept
            expect(there and near(w, vals[0][1]), "constant %s" % (p,), w)
            continue
        expect(there and np.shape(w)[:1] == (len(pts),), "item %s of the sweep" % (p,), w)
        given = dict(vals)
        for i in range(len(pts)):
            if i in given:
                expect(near(w[i], given[i]), "item %s of point %i" % (p, i),
                       w, given[i])
                got = at(swept.atindex(i), p)[1]
                expect(near(got, given[i]), "item %s at index %i" % (p, i),
                       got, given[i])
            else:
                expect(np.all(np.isnan(w[i])), "no item %s at point %i"
                       % (p, i), w)
    if tight:
        warned = [len(o.get("warnings", {}).get("Unexpectedly Loose Constraints", []))
                  for o in ones]
        if any(warned):
            got = swept["warnings"]["Unexpectedly Loose Constraints"]
            expect([len(g) for g in got] == warned, "warnings per point",
                   got, warned)
        else:
            expect(not swept.get("warnings"), "no warnings",
                   swept.get("warnings"))
    swept.table()


def snapshot(m):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v)
            for k, v in m.substitutions.items()}


def alike(w, v):
    if w is v:
        return True
    if isinstance(v, np.ndarray):
        return np.shape(w) == v.shape and all(
            alike(a, b) for a, b in zip(np.ravel(w), np.ravel(v)))
    if isinstance(v, (tuple, list)):
        return type(w) is type(v) and len(w) == len(v) and all(
            alike(a, b) for a, b in zip(w, v))
    if isinstance(v, (str, type(None))) or callable(v):
        return w == v
    return not isinstance(w, (tuple, list, str)) and np.shape(w) == () and (
        w == v or w != w and v != v)


def unchanged(m, before, when):
    now = snapshot(m)
    expect(set(now) == set(before), "substituted variables %s" % when,
           now, before)
    for k, v in before.items():
        w = now[k]
        expect(alike(w, v), "the substitution of %s %s" % (k, when), w, v)


@driver(("C18",), 40)
def sweeps_of_models(c):
    "grids of swept variables, with links and failures, against a formula"
    from gpkit import Variable, VectorVariable, Model
    from gpkit.exceptions import Infeasible
    r = c.rng
    names = r.sample(["a", "b", "c", "x_2", "Z"], r.randint(1, 4))
    scal = [Variable(n) for n in names]
    v = VectorVariable(2, "v")
    x = Variable("x")
    linked = r.random() < 0.4
    expr = 1.0
    for s in scal:
        expr = expr*s
    expr = expr*v[0]*v[1]**2
    d = None
    if linked:
        base = scal[0]
        back = r.choice([0, 1])     # may return to a value it had before
        d = Variable("d", lambda k: 2*k[base] + 1 + back*(k[base] - 2)**2)
        expr = expr*d
    limit = r.choice([None, None, 40.0])
    cs = [x >= expr]
    if limit:
        cs.append(x <= limit)
    m = Model(x, cs)
    allv = scal + [v[0], v[1]]
    nsweep = min(len(allv), r.choice([1, 1, 2, 2, 3]))
    swept = r.sample(allv, nsweep)
    vals = {}
    for s in allv:
        if any(s is t for t in swept):
            n = r.choice([1, 2, 2, 3] if nsweep > 1 else [1, 2, 3, 5])
            vals[s.key] = [r.choice([0.5, 1.0, 1.5, 2.0, 3.0])
                           for _ in range(n)]
            if r.random() < 0.3:
                vals[s.key][-1] = vals[s.key][0]
        else:
            vals[s.key] = r.choice([0.5, 1.0, 2.0])
    c.say("variables", allv, "values", vals, "swept", swept, "linked",
          linked, "limit", limit)

    def value(pt):
        out = 1.0
        for s in scal:
            out *= pt[s.key]
        out *= pt[v[0].key]*pt[v[1].key]**2
        if linked:
            a = pt[scal[0].key]
            out *= 2*a + 1 + back*(a - 2)**2
        return out
    keys = [s.key for s in swept]
    grid = [{}]
    for k in keys:
        grid = [{**g, k: val} for g in grid for val in vals[k]]
    full = [{**vals, **g} for g in grid]
    costs = [value(p) for p in full]
    bad = [limit is not None and w > limit*1.001 for w in costs]
    if any(limit and abs(w/limit - 1) < 1e-3 for w in costs):
        limit = None
        return
    kind = r.choice(["subs", "sweep"]) if nsweep == 1 else "subs"
    skip = r.random() < 0.5
    for s in allv:
        if kind == "sweep" and s.key in keys:
            orig = r.choice(["unset", "number", "link"])
            if orig == "number" or s.key.idx:
                m.substitutions[s.key] = 7.0
            elif orig == "link":
                m.substitutions[s.key] = lambda k: 1.0
            continue
        w = vals[s.key]
        m.substitutions[s.key] = ("sweep", w) if s.key in keys else w
    before = snapshot(m)
    args = {"verbosity": 0}
    if skip:
        args["skipsweepfailures"] = True
    try:
        if kind == "sweep":
            sol = m.sweep({swept[0]: vals[keys[0]]}, **args)
        else:
            sol = m.solve(**args)
    except (RuntimeWarning, Infeasible) as exc:
        unchanged(m, before, "after a failure")
        expect(any(bad) and (not skip or all(bad)), "refused to solve", exc)
        return
    unchanged(m, before, "after solving")
    expect(not any(bad) or (skip and not all(bad)),
           "points that cannot be solved went unnoticed", sol)
    want = sorted((tuple(g[k] for k in keys), w) for g, w, b in zip(
        grid, costs, bad) if not b)
    n = len(want)
    expect(len(m.program) == len(grid), "a program for each point",
           len(m.program), len(grid))
    cost = np.atleast_1d(sol["cost"])
    expect(np.shape(cost) == (n,), "solutions found", cost, n)

    def of(k, i):
        w = sol(k)
        w = getattr(w, "magnitude", w)
        w = np.atleast_1d(w)
        return float(w[i]) if np.shape(w) == (n,) else float(w)
    got = sorted((tuple(of(k, i) for k in keys), float(cost[i]))
                 for i in range(n))
    for g, w in zip(got, want):
        expect(np.allclose(g[0], w[0]) and np.isclose(g[1], w[1], rtol=1e-3),
               "a point and its cost", got, want)
    if nsweep == 1:
        expect(np.allclose([of(keys[0], i) for i in range(n)],
                           [g[keys[0]] for g, b in zip(grid, bad) if not b]),
               "the order of the points", sol(keys[0]), grid)
    for s in allv:
        if s.key not in keys:
            expect(np.allclose([of(s.key, i) for i in range(n)],
                               vals[s.key]), "constant %s" % s, sol(s.key))
    if linked:
        cons = np.atleast_1d(sol["constants"][d.key])
        for i in range(n):
            k = scal[0].key
            a = of(k, i) if k in keys else vals[k]
            want = 2*a + 1 + back*(a - 2)**2
            expect(np.isclose(of(d.key, i), want),
                   "a linked variable at point %i" % i, sol(d.key), a)
            expect(len(cons) in (1, n) and np.isclose(
                cons[i if len(cons) == n else 0], want),
                "a linked constant at point %i" % i, cons, want)


@driver(("C18",), 25)
def sweeps_one_after_another(c):
    "Model.sweep of several variables, with failures, restores the model"
    from gpkit import Variable, VectorVariable, Model
    r = c.rng
    a = Variable("a", r.choice([0.0, 1.0, 2.0]))
    b = Variable("b", r.choice([0, 3.0]))
    v = VectorVariable(3, "v", r.choice([[1., 2., 3.], [2.0]*3]))
    x = Variable("x")
    lim = r.choice([1e6, 30.0])
    m = Model(x, [x >= a*b*v.prod() + 1, x <= lim])
    if r.random() < 0.4:
        m.substitutions[b] = lambda k: k[a]
    before = snapshot(m)
    todo = {}
    pool = [a, b, v[0], v[2], "a", "b"]
    for k in r.sample(pool, r.randint(1, 3)):
        name = getattr(k, "key", k)
        todo[name] = [r.choice([0.25, 1.0, 4.0, 20.0])
                      for _ in range(r.randint(1, 3))]
    if "a" in todo:
        todo.pop(a.key, None)
    if "b" in todo:
        todo.pop(b.key, None)
    c.say("substitutions", before, "limit", lim, "sweeps", todo)
    try:
        sols = m.sweep(todo, verbosity=0)
    except RuntimeWarning:
        unchanged(m, before, "after a failure")
        expect(lim == 30.0, "failed")
        return
    unchanged(m, before, "after sweeping")
    sols = sols if isinstance(sols, list) else [sols]
    expect(len(sols) == len(todo), "a solution for each variable", len(sols))
    vv = [float(before[k]) if np.ndim(before[k]) == 0 else None
          for k in before if k.name == "v"]
    for sol, (k, vals) in zip(sols, todo.items()):
        got = np.atleast_1d(getattr(sol(k), "magnitude", sol(k)))
        expect(np.allclose(got, vals), "the values swept for %s" % k, got)
        cost = np.atleast_1d(sol["cost"])
        expect(len(cost) == len(vals), "points of %s" % k, cost)
        base = [float(before[q]) if not callable(before[q]) else None
                for q in (a.key, b.key)]
        elems = np.broadcast_to(np.asarray(
            [m.substitutions[e.key] for e in v], float), (3,))
        for i, val in enumerate(vals):
            e = list(elems)
            av, bv = base
            if k in (a.key, "a"):
                av = val
            elif k in (b.key, "b"):
                bv = val
            else:
                e[k.idx[0]] = val
            bv = av if bv is None else bv
            want = av*bv*np.prod(e) + 1
            expect(np.isclose(cost[i], want, rtol=1e-3),
                   "the cost at %s = %s" % (k, val), cost[i], want)
