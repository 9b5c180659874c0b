"Dictionaries and sets of variables against plain ones."
import numpy as np
from .common import driver, expect, Skip, Quiet


class World:
    "variables, some of a name, and what each name should mean"
    shy = False

    def __init__(self, c):
        from gpkit import Variable, VectorVariable, Model
        from gpkit.globals import NamedVariables
        r = c.rng
        self.r = r
        self.scalars = [Variable("a"), Variable("b", "m")]
        self.vecs = [VectorVariable(3, "w", "ft")]
        if r.random() < 0.6:
            self.vecs.append(VectorVariable((2, 2), "u"))
        if r.random() < 0.3:
            self.vecs.append(VectorVariable(1, "one"))
        for m in r.sample(["M", "N", "M"], r.choice([0, 2, 2, 3])):
            with NamedVariables(m):
                if r.random() < 0.8:
                    self.scalars.append(Variable(r.choice(["a", "a", "d"])))
                if r.random() < 0.5:
                    self.vecs.append(VectorVariable(
                        r.choice([2, 3]), r.choice(["w", "x"])))
        self.keys = [v.key for v in self.scalars] + [w.key for w in self.vecs]

    def named(self):
        "name -> keys a dictionary holds it for"
        out = {}
        for k in self.keys:
            for n in k.keys:
                if isinstance(n, str):
                    out.setdefault(n, set()).add(k)
        if self.shy:
            # with a set, names ask for what the set calls so
            return {n: ks for n, ks in out.items() if len(ks) == 1
                    and not any(k.shape and int(np.prod(k.shape)) == 1
                                for k in ks)}
        return out


class Twin:
    "the same contents, held plainly: key -> float or array"
    def __init__(self, d=None):
        self.d = {k: (v.copy() if hasattr(v, "copy") else v)
                  for k, v in (d or {}).items()}

    def set(self, key, idx, val):
        if idx is None:
            if key.shape and np.shape(val):
                val = np.array(val, float)
                if key in self.d:
                    old = self.d[key].copy()
                    old[~np.isnan(val)] = val[~np.isnan(val)]
                    val = old
                self.d[key] = val
            elif key.shape:
                self.d[key] = np.full(key.shape, val, float)
            else:
                self.d[key] = val
        else:
            if key not in self.d:
                self.d[key] = np.full(key.shape, np.nan)
            self.d[key][idx] = val

    def delete(self, key, idx):
        if idx is not None:
            self.d[key][idx] = np.nan
            if not np.isnan(self.d[key]).all():
                return
        del self.d[key]


def eq(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0,
                                              equal_nan=True)


def check(kd, twin, W, what):
    r = W.r
    expect(set(dict.keys(kd)) == set(twin.d), what + ": keys",
           list(dict.keys(kd)), list(twin.d))
    expect(len(kd) == len(twin.d), what + ": length")
    for k in W.keys:
        has = k in twin.d
        probes = [k]
        for v in W.scalars + W.vecs:
            if v.key == k:
                probes.append(v)
        for p in r.sample(probes, len(probes)):
            expect((p in kd) == has, what + ": is it held", k, p)
            if has:
                expect(eq(kd[p], twin.d[k]), what + ": value", k, kd[p],
                       twin.d[k])
                expect(eq(kd.get(p, 7.), twin.d[k]), what + ": get", k)
            else:
                expect(kd.get(p, 7.) == 7., what + ": get", k)
                try:
                    got = kd[p]
                except KeyError:
                    got = KeyError
                expect(got is KeyError, what + ": of what is not held", k, got)
    for w in W.vecs:
        k = w.key
        for e in w.flat:
            has = k in twin.d and not np.isnan(twin.d[k][e.key.idx])
            expect((e in kd) == has, what + ": element held", e)
            expect((e.key in kd) == has, what + ": element key held", e)
            if has:
                expect(eq(kd[e], twin.d[k][e.key.idx]), what + ": element", e)
            else:
                expect(kd.get(e, 7.) == 7., what + ": get element", e)
    for n, ks in W.named().items():
        ks = [k for k in ks if k in twin.d]
        expect((n in kd) == bool(ks), what + ": name held", n, ks)
        if not ks:
            expect(kd.get(n, 7.) == 7., what + ": get name", n)
            try:
                got = kd[n]
            except KeyError:
                got = KeyError
            expect(got is KeyError, what + ": of a name not held", n, got)
            expect(n not in kd, what + ": a name asked for", n)
            continue
        got = kd[n]
        if len(ks) == 1:
            expect(eq(got, twin.d[ks[0]]), what + ": by name", n, got)
        else:
            expect(isinstance(got, dict) and set(got) == set(ks)
                   and all(eq(got[k], twin.d[k]) for k in ks),
                   what + ": by a shared name", n, got)


def value(W, k, shape):
    "something to store, and what should then be held"
    r = W.r
    x = round(r.uniform(0.5, 9), 2)
    how = r.random()
    if shape:
        arr = np.array([round(r.uniform(0.5, 9), 2)
                        for _ in range(int(np.prod(shape)))]).reshape(shape)
        if how < 0.3:
            return x, x
        if how < 0.5:
            arr = np.round(arr)
            return arr.astype(int), arr
        if how < 0.65:
            arr.flat[r.randrange(arr.size)] = np.nan
            return arr, arr.copy()
        if how < 0.75:
            return arr.tolist(), arr
        return arr, arr.copy()
    if how < 0.25 and k.units is not None:
        from gpkit import units
        f = {"meter": 0.3048, "foot": 1/0.3048}[str(k.units.units)]
        q = x*units({"meter": "ft", "foot": "m"}[str(k.units.units)])
        return q, x*f
    return (int(x), int(x)) if how < 0.4 else (x, x)


@driver(("C15",), 1200)
def key_dictionaries(c):
    "histories of stores, lookups, deletions, copies"
    from gpkit.keydict import KeyDict, KeySet
    W = World(c)
    r = c.rng
    cset = None
    if r.random() < 0.4:        # as the substitutions of a set are
        cset = type("Set", (), {})()
        cset.varkeys = KeySet([v.key for v in W.scalars] + [
            e.key for w in W.vecs for e in w.flat])
        W.shy = True
    pool = [(KeyDict(), Twin())]
    pool[0][0].cset = cset
    held = []                   # arrays given or handed out
    for _ in range(r.randint(2, 14)):
        n = r.randrange(len(pool))
        kd, tw = pool[n]
        op = r.random()
        if op < 0.5:
            if r.random() < 0.5:
                v = r.choice(W.scalars)
                k, idx, p = v.key, None, r.choice([v, v.key])
                shape = ()
            else:
                w = r.choice(W.vecs)
                k = w.key
                if r.random() < 0.5:
                    v = r.choice(list(w.flat))
                    idx, p, shape = v.key.idx, r.choice([v, v.key]), ()
                else:
                    idx, p, shape = None, r.choice([w, k]), k.shape
            names = [nm for nm, ks in W.named().items() if len(ks) == 1
                     and k in ks]
            if cset and idx is None and names and r.random() < 0.4:
                p = r.choice(names)
            val, want = value(W, k, shape)
            c.say("set", n, p, val)
            kd[p] = val
            tw.set(k, idx, want)
            if isinstance(val, np.ndarray):
                held.append((val, val.copy()))
        elif op < 0.65 and tw.d:
            k = r.choice(list(tw.d))
            idx, p = None, k
            if k.shape and r.random() < 0.6:
                w = [w for w in W.vecs if w.key == k][0]
                v = r.choice(list(w.flat))
                if np.isnan(tw.d[k][v.key.idx]):
                    continue
                idx, p = v.key.idx, r.choice([v, v.key])
            names = [nm for nm, ks in W.named().items()
                     if {x for x in ks if x in tw.d} == {k}]
            if idx is None and names and r.random() < 0.4:
                p = r.choice(names)
            c.say("del", n, p)
            del kd[p]
            tw.delete(k, idx)
        elif op < 0.7:
            nm = r.choice(list(W.named()))
            if any(k in tw.d for k in W.named()[nm]):
                continue
            c.say("del absent", n, nm)
            try:
                del kd[nm]
                expect(False, "deleted a name not held")
            except KeyError:
                pass
        elif op < 0.85 and len(pool) < 4:
            c.say("copy", n)
            pool.append((KeyDict(kd), Twin(tw.d)))
            pool[-1][0].cset = cset
        elif op < 0.92:
            m = r.randrange(len(pool))
            if m == n:
                continue
            c.say("update", n, "from", m)
            src, stw = pool[m]
            kd.update(src)
            for k, v in list(stw.d.items()):
                tw.set(k, None, v)
        elif tw.d:
            k = r.choice(list(tw.d))
            c.say("get", n, k)
            got = kd[k]
            if isinstance(got, np.ndarray) and r.random() < 0.4:
                c.say("write to what was got")
                i = tuple(r.randrange(s) for s in k.shape)
                got[i] = 77.
                tw.d[k][i] = 77.
        if r.random() < 0.5:
            m = r.randrange(len(pool))
            check(*pool[m], W, "dictionary %d" % m)
    for m, (kd, tw) in enumerate(pool):
        check(kd, tw, W, "dictionary %d" % m)
    for a, b in held:
        expect(eq(a, b), "an array given was written to", a, b)


@driver(("C15",), 200)
def key_sets(c):
    "sets of variables: membership and lookup by key and by name"
    from gpkit.keydict import KeySet
    W = World(c)
    r = c.rng
    every = [v.key for v in W.scalars] + [
        e.key for w in W.vecs for e in w.flat]
    ks, have = KeySet(()), set()
    for _ in range(r.randint(1, 4)):
        some = set(r.sample(every, r.randint(0, len(every))))
        c.say("update", some)
        ks.update(some)
        have |= some
        for _ in range(r.randint(0, 4)):
            probe(ks, have, every, W)
    for _ in range(8):
        probe(ks, have, every, W)


def probe(ks, have, every, W):
    r = W.r
    expect(set(ks) == have, "what it holds", set(ks) ^ have)
    k = r.choice(every)
    if r.random() < 0.4:
        expect((k in ks) == (k in have), "membership", k)
        return
    n = r.choice([x for x in k.keys if isinstance(x, str)] + [k.name])
    want = {x for x in have if n in x.keys}
    if r.random() < 0.6:
        try:
            got = set(ks[n])
        except KeyError:
            got = set()
        expect(got == want, "by name", n, got, want)
    expect((n in ks) == bool(want), "name held", n, want)
