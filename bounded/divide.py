"How substitutions are divided into constants, sweeps and links (C17)."
import math
import numpy as np
from .common import driver, expect


def same(a, b):
    "equal values, of whatever kind"
    if callable(a) or callable(b):
        return a is b
    try:
        return np.shape(a) == np.shape(b) and bool(np.all(
            np.asarray(a, float) == np.asarray(b, float)))
    except (TypeError, ValueError):
        return a is b


def link(c):
    k = c.rng.choice([1.0, 2.5])
    return lambda *a: k


def scalar(c, used_kinds=("const", "np", "nan", "sweep", "asweep", "link")):
    "(value, what it is, what should be found)"
    r = c.rng
    kind = r.choice(used_kinds)
    x = r.choice([0.0, 1.0, -2.0, 3.5, 1e-30, 1e30, 7])
    if kind == "const":
        return x, "const", x
    if kind == "np":
        x = np.float64(x)
        return x, "const", x
    if kind == "nan":
        return r.choice([math.nan, np.float64("nan")]), None, None
    if kind == "sweep":
        v = [r.choice([1.0, 2.0, 5.0]) for _ in range(r.randint(1, 4))]
        return ("sweep", v), "sweep", v
    if kind == "asweep":
        v = np.linspace(1, 2, r.randint(1, 4))
        return ["sweep", v], "sweep", v
    f = link(c)
    return f, "link", f


def vector(c, shape):
    """(value, {index: (what, found)}) or, refused, (value, None)"""
    r = c.rng
    idxs = list(np.ndindex(*shape))
    kind = r.choice(["list", "array", "one", "mixed", "mixed", "rows",
                     "link", "bad", "badrows"])
    if kind == "one":
        x = r.choice([2.0, np.float64(3)])
        return x, {i: ("const", x) for i in idxs}
    if kind in ("list", "array"):
        a = np.array([r.choice([1.0, 2.0, -3.0, 0.5, math.nan])
                      for _ in idxs]).reshape(shape)
        out = {i: (None, None) if math.isnan(a[i]) else ("const", a[i])
               for i in idxs}
        return (a.tolist() if kind == "list" else a), out
    if kind == "mixed":
        a = np.empty(shape, object)
        out = {}
        for i in idxs:
            v, what, found = scalar(c)
            a[i] = v
            out[i] = (what, found)
        return a, out
    if kind == "rows":
        n = r.randint(1, 3)
        a = np.array([r.choice([1.0, 2.0, 3.0, 4.0]) for _ in range(
            n*len(idxs))]).reshape((n,) + shape)
        out = {i: ("sweep", a[(slice(None),) + i]) for i in idxs}
        return ("sweep", a.tolist() if r.random() < 0.5 else a), out
    if kind == "link":
        f = link(c)
        return f, {i: ("link", f) for i in idxs}
    n = (shape[0] + r.choice([1, 2]),) + shape[1:]
    if kind == "bad":
        return np.ones(n), None
    return ("sweep", np.ones((2,) + n)), None


@driver(("C17",), 400)
def division(c):
    "parse_subs and a model's substitutions, over all forms and namings"
    from gpkit import Variable, VectorVariable, NamedVariables
    from gpkit.nomials import parse_subs
    from gpkit.keydict import KeySet
    r = c.rng
    made = []
    for j in range(r.randint(1, 4)):
        shape = r.choice([(), (), (2,), (3,), (2, 2), (1,)])
        inside = r.random() < 0.3
        if inside:
            with NamedVariables("Sub"):
                v = VectorVariable(shape, "x%d" % j) if shape else \
                    Variable("x%d" % j)
        else:
            v = VectorVariable(shape, "x%d" % j) if shape else \
                Variable("x%d" % j)
        made.append((v, shape))
    present, subs, want, refused = [], {}, {}, False
    clean = r.random() < 0.2
    as_keydict = not clean and r.random() < 0.35
    for v, shape in made:
        here = r.random() < 0.8
        els = {i: v[i].key for i in np.ndindex(*shape)} if shape else {
            (): v.key}
        partial = shape and r.random() < 0.3
        used = {i: k for i, k in els.items()
                if here and not (partial and r.random() < 0.5)}
        present += list(used.values())
        if r.random() < 0.15:
            continue
        by_element = shape and (clean or r.random() < 0.4)
        if by_element or not shape:
            for i, k in els.items():
                if shape and r.random() < 0.3:
                    continue
                # an element takes a sweep only in a KeyDict
                val, what, found = scalar(c) if as_keydict or not shape \
                    else scalar(c, ("const", "np", "nan", "link"))
                names = [k] if clean else [k, v[i] if shape else v]
                if not (clean or shape or as_keydict):
                    names += [k.name]
                subs[r.choice(names)] = val
                if i in used and what:
                    want[k] = (what, found)
        else:
            val, out = vector(c, shape)
            if as_keydict and (out is None or callable(val)):
                continue
            key = r.choice([v.key, v.key.name]) if not as_keydict \
                else r.choice([v.key, v])
            if not as_keydict and key is v.key and not isinstance(
                    val, (tuple, list, np.ndarray)) and r.random() < 0.2:
                key = v.key.name
            subs[key] = val
            if out is None:
                refused = refused or bool(used)
            else:
                for i, k in used.items():
                    if out[i][0]:
                        want[k] = out[i]
    r.shuffle(present)
    c.say("present", present)
    c.say("substitutions", subs)
    given = subs
    if as_keydict:
        from gpkit.keydict import KeyDict
        given = KeyDict()
        for k, v in subs.items():
            given[k] = v
        c.say("as a KeyDict")
    kind = r.choice(["keyset", "list", "set"])
    vks = KeySet(present) if kind == "keyset" else \
        present if kind == "list" else set(present)
    if clean and kind == "list":
        vks = set(present)
    try:
        res = parse_subs(vks, given, clean=True) if clean else \
            parse_subs(vks, given)
    except ValueError as exc:
        expect(refused, "refused", exc)
        return
    expect(not refused, "a value of the wrong shape was accepted", res)
    got = {}
    for what, part in zip(("const", "sweep", "link"), res):
        for k, v in part.items():
            expect(k not in got, "in two places", k, what, got.get(k))
            got[k] = (what, v)
    expect(set(got) == set(want), "variables given a value", got, want)
    for k, (what, v) in want.items():
        expect(got[k][0] == what, "kind of the value of %s" % k,
               got[k], (what, v))
        expect(same(got[k][1], v), "value of %s" % k, got[k], (what, v))
