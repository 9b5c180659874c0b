"Global environments, in any nesting and with any exits."
from .common import driver, expect, Quiet


class Stop(Exception):
    pass


class Ref:
    "what should be in force"
    def __init__(self):
        self.shape, self.lin, self.sig = (), (), False
        self.counts = {}
        self.k = 0


def check(c, ref):
    "what is in force, seen from outside"
    import gpkit
    from gpkit import Variable, VectorVariable
    ref.k += 1
    with_names = c.rng.random() < 0.7
    v = Variable("q%d" % ref.k) if with_names else Variable()
    got = getattr(v, "shape", ())
    expect(tuple(got) == ref.shape, "shape of a new variable", got, ref.shape)
    el = v.flat[0] if ref.shape else v
    lin = el.key.lineage or ()
    expect(tuple(lin) == ref.lin, "lineage of a new variable", lin, ref.lin)
    n = c.rng.randint(1, 3)
    w = VectorVariable(n, "w%d" % ref.k)
    expect(tuple(w.shape) == (n,) + ref.shape, "shape of a new vector",
           w.shape, (n,) + ref.shape)
    expect(tuple(w.flat[0].key.lineage or ()) == ref.lin,
           "lineage of a new vector")
    expect(bool(gpkit.SignomialsEnabled) == ref.sig,
           "permission", bool(gpkit.SignomialsEnabled), ref.sig)
    a = w.flat[0]
    try:
        d = a - 1/a
        ok = d is not NotImplemented
    except (TypeError, gpkit.exceptions.InvalidPosynomial):
        ok = False
    expect(ok == ref.sig, "subtraction permitted", ok, ref.sig)
    try:
        a*a + a >= a/2
        s = a*a + a >= 1/a + a/2
        ok = s is not NotImplemented
    except (TypeError, gpkit.exceptions.InvalidPosynomial):
        ok = False
    expect(ok == ref.sig, "signomial constraint permitted", ok, ref.sig)
    named = gpkit.NamedVariables.lineage
    expect(tuple(named) == ref.lin, "lineage in force", named, ref.lin)


class EnterEnv:
    "one environment and its effect on the reference"
    def __init__(self, c, pool):
        import gpkit
        r = c.rng
        if pool and r.random() < 0.3:
            self.kind, self.arg, self.env = r.choice(pool)
        else:
            self.kind = r.choice("VSN")
            self.arg = r.randint(1, 3) if self.kind == "V" else \
                r.choice(["Wing", "Tail", "Spar"])
            self.env = {"V": lambda: gpkit.Vectorize(self.arg),
                        "S": gpkit.SignomialsEnabled,
                        "N": lambda: gpkit.NamedVariables(self.arg)
                        }[self.kind]()
            pool.append((self.kind, self.arg, self.env))

    def apply(self, ref):
        if self.kind == "V":
            ref.shape = (self.arg,) + ref.shape
        elif self.kind == "S":
            ref.sig = True
        else:
            n = ref.counts.get((ref.lin, self.arg), 0)
            ref.counts[(ref.lin, self.arg)] = n + 1
            ref.lin += ((self.arg, n),)


def model_step(c, ref, depth, pool):
    "a model whose setup does more of the same, and may fail"
    import gpkit
    r = c.rng
    fail = r.random() < 0.3
    name = r.choice(["Wing", "Pod"])
    old = ref.lin, ref.shape, ref.sig

    def setup(self):
        n = ref.counts.get((old[0], name), 0)
        ref.counts[(old[0], name)] = n + 1
        ref.lin = old[0] + ((name, n),)
        check(c, ref)
        x = gpkit.Variable("x")
        if depth < 3:
            steps(c, ref, depth+1, pool)
        if fail:
            raise Stop()
        self.x = x
        self.cost = x.prod() if hasattr(x, "prod") else x
        return [x >= 1]
    cls = type(name, (gpkit.Model,), {"setup": setup})
    c.say("  "*depth + "model", name, "fails" if fail else "")
    m = None
    try:
        with Quiet():
            m = cls()
    except Stop:
        pass
    inner = ref.lin
    ref.lin, ref.shape, ref.sig = old
    if m is not None:
        expect(tuple(m.lineage) == inner, "lineage of the model", m.lineage,
               inner)
        x = m.x.flat[0] if hasattr(m.x, "flat") else m.x
        expect(tuple(x.key.lineage) == inner, "lineage of its variable")
        expect(any(k.name == "x" and tuple(k.lineage) == inner
                   for k in m.unique_varkeys), "the model's own variables",
               m.unique_varkeys)


def steps(c, ref, depth, pool):
    r = c.rng
    for _ in range(r.randint(1, 3)):
        what = r.random()
        if what < 0.25 or depth >= 5:
            check(c, ref)
        elif what < 0.4:
            model_step(c, ref, depth, pool)
        else:
            env = EnterEnv(c, pool)
            old = ref.lin, ref.shape, ref.sig
            c.say("  "*depth + "with", env.kind, env.arg)
            deep = r.random() < 0.25
            try:
                with env.env:
                    env.apply(ref)
                    check(c, ref)
                    steps(c, ref, depth+1, pool)
                    check(c, ref)
                    if deep:
                        c.say("  "*depth + "raise")
                        raise Stop()
            except Stop:
                expect(deep or depth >= 0, "an exception appeared")
            else:
                expect(not deep, "an exception of the body vanished")
            ref.lin, ref.shape, ref.sig = old
            check(c, ref)
    if r.random() < 0.1 and depth:
        c.say("  "*depth + "raise through")
        raise Stop()


@driver(("C19",), 900)
def environments(c):
    ref = Ref()
    for _ in range(2):
        try:
            steps(c, ref, 0, [])
        except Stop:
            ref.lin, ref.shape, ref.sig = (), (), False
        check(c, ref)


# -------------------------------------------------------------- variable keys
NAMES = ["x", "y", "x[0]", "x[0,1]", "W.x", "W1.x", "xNone", "x[:]", "\\rho"]
LINEAGES = [(), (("W", 0),), (("W", 1),), (("W1", 0),), (("W", 0), ("T", 2)),
            (("W", 0), ("T", 0))]
KUNITS = [None, "", "-", "m", "meter", "ft", "m/s", "(m/s)"]
IDXS = [None, (0,), (1,), (0, 1), (1, 0), (10,), (0, 0)]


def keyspec(r):
    return (r.choice(NAMES), r.choice(LINEAGES), r.choice(IDXS),
            r.choice(KUNITS))


def make_key(c, spec, how):
    from gpkit import VarKey
    name, lin, idx, units = spec
    d = {}
    if lin:
        d["lineage"] = lin
    if units is not None:
        d["units"] = units
    if idx is not None:
        d["idx"] = idx
        d["shape"] = tuple(i+1+how % 2 for i in idx)
        if how % 3 == 0:
            v = dict(d)
            del v["idx"]
            d["veckey"] = VarKey(name, **v)
    if how % 5 == 0:
        d["label"] = "a label"
    return VarKey(name, **d)


def norm(spec):
    name, lin, idx, units = spec
    return (name, lin, idx or (), None if units in (None, "", "-") else units)


@driver(("C16",), 3000)
def variable_keys(c):
    import copy
    import pickle
    from gpkit import VarKey, Variable
    from gpkit.keydict import KeyDict, KeySet
    r = c.rng
    specs = [keyspec(r) for _ in range(r.randint(2, 4))]
    # a near miss of the first
    near = list(specs[0])
    j = r.randrange(4)
    near[j] = r.choice([NAMES, LINEAGES, IDXS, KUNITS][j])
    specs += [tuple(near), specs[0]]
    keys = [make_key(c, s, r.randrange(30)) for s in specs]
    for s in specs:
        c.say("key", *s)
    for s, k in zip(specs, keys):
        twins = [k, copy.copy(k), copy.deepcopy(k),
                 pickle.loads(pickle.dumps(k)), pickle.loads(pickle.dumps(
                     pickle.loads(pickle.dumps(k))))]
        for t in twins:
            expect(t == k and not t != k and hash(t) == hash(k),
                   "a copy is another key", s)
            expect(t.name == s[0] and tuple(t.lineage or ()) == s[1]
                   and (t.idx or None) == s[2], "a copy lost something", s,
                   t.descr)
            expect(t.unitrepr == (norm(s)[3] or "-"), "units of the copy",
                   t.unitrepr, s)
            expect((t.units is None) == (norm(s)[3] is None), "units", s)
            if s[2] is not None:
                expect(t.veckey is not None and t.veckey.idx is None
                       and t.veckey.name == s[0] and
                       t.veckey == VarKey(s[0], **{
                           k: v for k, v in k.descr.items() if k not in
                           ("idx", "name", "veckey", "label")}),
                       "the vector of the element", t.veckey, s)
    for a, ka in zip(specs, keys):
        for b, kb in zip(specs, keys):
            same = norm(a) == norm(b)
            expect((ka == kb) == same and (ka != kb) == (not same),
                   "equality of keys", a, b)
            if same:
                expect(hash(ka) == hash(kb), "hashes of equal keys", a, b)
    distinct = {norm(s) for s in specs}
    expect(len(set(keys)) == len(distinct), "keys in a set", len(set(keys)),
           len(distinct))
    d = dict(zip(keys, specs))
    for s, k in zip(specs, keys):
        expect(norm(d[k]) == norm(s), "a key found another's value", s)
    ks = KeySet(keys)
    ks.update_keymap()
    for nm in {s[0] for s in specs}:
        want = {k for s, k in zip(specs, keys) if s[0] == nm or nm in (
            shown(s, False), shown(s, True))}
        got = set(k for k in ks[nm] if k in keys)
        must = {k for s, k in zip(specs, keys) if s[0] == nm}
        expect(must <= got <= want, "keys of a name", nm, got, must, want)
    # derived variables
    v = Variable(keys[0])
    expect(v.key == keys[0] and v == Variable(keys[-1]),
           "variables of equal keys")
    fns = {"f": len}
    k = VarKey("lnk", value=fns["f"])
    t = pickle.loads(pickle.dumps(k))
    expect(t == k and hash(t) == hash(k) and not callable(t.value),
           "key of a linked variable", t.descr)
    a, b = VarKey(), VarKey()
    expect(a != b, "unnamed keys are one key")


def shown(s, vec):
    name, lin, idx, _ = s
    out = ".".join(n for n, _ in lin) + ("." if lin else "") + name
    if idx and not vec:
        out += "[%s]" % ",".join(map(str, idx))
    return out
