"Constraint sets against the constraints and substitutions put in them."
import numpy as np
from .common import driver, expect, Skip, Quiet
from . import gen as G


class Tree:
    "a random nesting of constraints, with what it should hold"
    def __init__(self, c):
        from gpkit import Variable, VectorVariable
        self.r = c.rng
        r = c.rng
        n = r.randint(2, 5)
        vs = []
        for i in range(n):
            if r.random() < 0.3:
                vs.append(Variable("v%d" % i, r.choice([0.5, 2, 3]),
                                   r.choice([None, "m"]) or ""))
            else:
                vs.append(Variable("v%d" % i))
        self.scalars = vs
        self.vecs = [VectorVariable(r.choice([2, 3, (2, 2)]), "w")
                     for _ in range(r.random() < 0.7)]
        self.free = [Variable("f%d" % i) for i in range(2)]
        self.flat = []          # constraints in order
        self.subs = {}          # var -> value, later ones over earlier
        self.extra = set()      # variables of costs
        self.made = []          # sets built, and what they then held

    def con(self):
        r = self.r
        x, y = [v/(v.units or 1) for v in r.sample(self.scalars, 2)]
        k = round(r.uniform(0.5, 3), 2)
        f = r.choice(self.free)     # never substituted: nothing is infeasible
        op = r.randint(0, 3)
        if op == 0:
            out = x**2 >= k*y/f
        elif op == 1:
            out = x + y <= k*f
        elif op == 2:
            out = x*y == k*f
        else:
            out = k*x <= 2*k*f
        return out

    def leaf(self):
        con = self.con()
        if not hasattr(con, "vks"):
            raise Skip()
        self.add(con)
        return con

    def add(self, con):
        self.flat.append(con)
        for v in con.vks:
            if v.value is not None:
                self.later(v, v.value)

    def later(self, key, val):
        self.subs[key] = val

    def node(self, depth):
        from gpkit import ConstraintSet, Model
        r = self.r
        k = r.randint(0, 9) if depth else 0
        if k <= 1:
            return self.leaf()
        if k == 2 and self.vecs:
            w = r.choice(self.vecs)
            out = w >= round(r.uniform(0.5, 3), 2)*r.choice(self.free)
            for e in np.asarray(out.constraints, object).flat:
                self.add(e)
            return out
        if k == 8:              # a plain array of constraints
            out = np.empty(r.choice([(2,), (1, 2), (2, 2)]), object)
            for i in np.ndindex(*out.shape):
                out[i] = self.leaf()
            return out
        if k == 3:
            names = r.sample(["b", "a", "zz", "k1", "c"], r.randint(1, 3))
            return {nm: self.node(depth - 1) for nm in names}
        if k == 4:
            return tuple(self.node(depth - 1)
                         for _ in range(r.randint(1, 3)))
        if k in (5, 6, 7):
            kids = [self.node(depth - 1) for _ in range(r.randint(0, 3))]
            if not kids and k != 5:
                kids = [self.leaf()]
            subs = {}
            for v in self.scalars:
                if r.random() < 0.25 and any(
                        v.key in getattr(f, "vks", ()) for f in self.flat):
                    subs[v] = round(r.uniform(0.5, 4), 2)
            here = [f for f in flatten(kids)]
            held = set().union(*[f.vks for f in here]) if here else set()
            subs = {v: x for v, x in subs.items() if v.key in held}
            if r.random() < 0.4 and self.vecs \
                    and all(e.key in held for e in self.vecs[0].flat):
                w = self.vecs[0]
                if r.random() < 0.5:
                    val = np.array([round(r.uniform(0.5, 4), 2)
                                    for _ in w.flat]).reshape(w.shape)
                    subs[w] = val
                    each = {e.key: float(x) for e, x in zip(w.flat, val.flat)}
                else:
                    e = r.choice(list(w.flat))
                    subs[e] = round(r.uniform(0.5, 4), 2)
                    each = {e.key: subs[e]}
            else:
                each = {}
            if k != 7:
                out = ConstraintSet(kids, subs)
            else:
                cost = r.choice([None, self.costof(held)])
                if r.random() < 0.4:
                    from gpkit import Variable
                    lone = Variable("c%d" % len(self.extra), r.choice(
                        [None, 2., 7.]))
                    cost = lone if cost is None else cost*lone
                    if r.random() < 0.3:
                        subs[lone] = 4.5
                self.extra |= set(getattr(cost, "vks", ()))
                for v in getattr(cost, "vks", ()):
                    if v.value is not None:     # sets take values over
                        self.later(v, v.value)
                out = Model(cost, kids, subs)
            self.made.append((out, holds(out)))
            for v, x in subs.items():
                if hasattr(v, "key") and v.key not in each \
                        and not getattr(v.key, "shape", None):
                    self.later(v.key, x)
            for v, x in each.items():
                self.later(v, x)
            return out
        return [self.node(depth - 1) for _ in range(r.randint(0, 3))]

    def costof(self, held):
        for v in self.scalars:
            if v.key in held:
                return v/(v.units or 1)
        return None


def flatten(x):
    "independent flattening"
    if isinstance(x, dict):
        x = list(x.values())
    if hasattr(x, "constraints") and hasattr(x, "oper"):
        return [e for e in np.asarray(x.constraints, object).flat]
    if isinstance(x, np.ndarray):
        return list(x.flat)
    if isinstance(x, (list, tuple)):
        out = []
        for e in (list.__iter__(x) if isinstance(x, list) else iter(x)):
            out += flatten(e)
        return out
    return [x]


def holds(cs):
    return (set(cs.vks), set(cs.bounded),
            {k: set(v) for k, v in cs.meq_bounded.items()},
            {k: np.array(v, object).tolist()
             for k, v in dict(cs.substitutions).items()},
            [id(c) for c in cs.flat()])


def unchanged(T):
    for cs, was in T.made:
        now = holds(cs)
        for what, a, b in zip(("variables", "bounds", "conditions",
                               "substitutions", "constraints"), was, now):
            expect(a == b or (what == "substitutions" and repr(a) == repr(b)),
                   "an inner set's %s are unchanged" % what, cs, a, b)


def same_value(a, b):
    return abs(a - b) <= 1e-12*max(abs(a), abs(b), 1e-300)


@driver(("C24",), 250)
def nested_sets(c):
    "flattened constraints, variables, substitutions, compiled constraints"
    from gpkit import ConstraintSet, Model
    T = Tree(c)
    r = c.rng
    with Quiet():
        kids = [T.node(3) for _ in range(r.randint(1, 4))]
        how = r.randint(0, 3)
        if how == 0:
            cs = ConstraintSet(kids)
        elif how == 1:
            cs = ConstraintSet({"k%d" % (9 - i): k
                                for i, k in enumerate(kids)})
        elif how == 2:
            cs = Model(None, kids)
        else:
            cs = ConstraintSet(ConstraintSet(kids))
    c.say(how, kids)
    flat = list(cs.flat())
    expect(len(flat) == len(T.flat), "number of constraints", len(flat),
           len(T.flat), flat)
    expect(all(a is b for a, b in zip(flat, T.flat)),
           "constraints in order", flat, T.flat)
    expect(list(map(id, cs.flat())) == list(map(id, flat)),
           "flattening twice")
    from gpkit.constraints.set import flatiter
    expect(list(map(id, flatiter(kids))) == list(map(id, flat)),
           "flattening the elements")
    want = set(T.extra).union(*[f.vks for f in T.flat])
    expect(set(cs.vks) == want, "variables", set(cs.vks) ^ want)
    expect(set(cs.varkeys) == want, "variables by key")
    for v in want:
        expect(v in cs.varkeys and v.name in cs.varkeys
               and v in cs.varkeys[v.name], "variable by name", v)
    for v in want:
        has = v in cs.substitutions
        expect(has == (v in T.subs), "is it substituted", v, has,
               T.subs.get(v))
        if has:
            got = cs.substitutions[v]
            expect(same_value(float(got), T.subs[v]), "later substitution", v,
                   got, T.subs[v])
    held = set()
    for k, v in dict(cs.substitutions).items():
        if k.shape:
            held |= {e for e in want if e.veckey == k
                     and not np.isnan(v[e.idx])}
        else:
            held.add(k)
    expect(held == set(T.subs), "nothing else is substituted",
           held ^ set(T.subs))
    subs = dict(T.subs)
    hm = list(cs.as_hmapslt1(subs))
    each = []
    for f in T.flat:
        each += list(f.as_hmapslt1(subs))
    expect(len(hm) == len(each), "number of compiled constraints", len(hm),
           len(each))
    expect(all(dict(a) == dict(b) for a, b in zip(hm, each)),
           "compiled constraints in order")
    unchanged(T)
    if isinstance(cs, Model):
        return
    # a set put in another holds the same, alone and next to others
    more = ConstraintSet([cs, [cs]])
    expect([id(x) for x in more.flat()] == 2*[id(x) for x in flat],
           "a set held twice")
    expect(set(more.vks) == want, "variables of a set held twice")
    expect([id(x) for x in cs.flat()] == [id(x) for x in flat],
           "the set itself is unchanged")


@driver(("C24",), 120)
def set_lookup(c):
    "substitutions given in an outer set, lookup by name and position"
    from gpkit import ConstraintSet
    T = Tree(c)
    r = c.rng
    with Quiet():
        kids = [T.node(2) for _ in range(r.randint(1, 3))]
        inner = ConstraintSet(kids)
    if not inner.vks:
        raise Skip()
    new = {}
    for v in T.scalars:
        if v.key in inner.vks and r.random() < 0.5:
            new[v] = round(r.uniform(5, 9), 2)
    c.say(kids, new)
    before = {v: inner.substitutions[v] for v in inner.vks
              if v in inner.substitutions}
    byname = {(v.key.name if r.random() < 0.4
               and len(inner.varkeys[v.key.name]) == 1 else v): x
              for v, x in new.items()}
    outer = ConstraintSet([inner], byname)
    for v in T.scalars:
        if v.key not in inner.vks:
            continue
        w = new.get(v, T.subs.get(v.key))
        expect((v.key in outer.substitutions) == (w is not None),
               "is it substituted", v, w)
        if w is not None:
            expect(same_value(float(outer.substitutions[v]), w),
                   "the outer substitution", v, outer.substitutions[v], w)
        got = outer.variables_byname(v.key.name)
        expect([g.key for g in got] == [v.key], "by name", got)
        expect(outer[v.key.name].key == v.key, "item by name")
    after = {v: inner.substitutions[v] for v in inner.vks
             if v in inner.substitutions}
    expect(set(before) == set(after)
           and all(same_value(float(before[k]), float(after[k]))
                   for k in before), "the inner set is unchanged",
           before, after)
    unchanged(T)
    for i, k in enumerate(list.__iter__(inner)):
        expect(inner[i] is k, "item by position", i)
