"Arrays of nomials against the same operations on their elements."
import itertools
import operator
from functools import reduce
import numpy as np
from .common import driver, expect, Skip, Bad, Quiet
from . import gen as G

NUM = (int, float)


def get(a, idx, shape):
    "element of a, broadcast to shape, at idx"
    if not getattr(a, "shape", None) and not isinstance(a, (list, tuple)):
        return a
    if hasattr(a, "magnitude"):
        m = np.broadcast_to(a.magnitude, shape)[idx]
        return float(m)*(1*a.units)
    if isinstance(a, (list, tuple)):
        arr = a
        dims = []
        while isinstance(arr, (list, tuple)):
            dims.append(len(arr))
            arr = arr[0]
        pick = [0 if d == 1 else i for d, i in
                zip(dims, idx[len(shape)-len(dims):])]
        for i in pick:
            a = a[i]
        return a
    dims = a.shape
    pick = tuple(0 if d == 1 else i for d, i in
                 zip(dims, idx[len(shape)-len(dims):]))
    el = np.ndarray.__getitem__(a.view(np.ndarray), pick)
    return el


class Elements:
    "variables, a point, and arrays over them"
    def __init__(self, c):
        from gpkit import Variable, VectorVariable
        r = c.rng
        self.c = c
        self.units = r.choice([[None], [None], ["m", "ft", "cm"], ["m", None],
                               ["ft", "1/s"]])
        self.vs, self.pt = [], {}
        for i in range(3):
            u = r.choice(self.units)
            v = Variable("v%d" % i, u) if u else Variable("v%d" % i)
            self.vs.append(v)
        for v in self.vs:
            self.pt[v.key] = round(r.uniform(0.4, 2.5), 3)

    def element(self):
        from gpkit import units
        r = self.c.rng
        k = r.randrange(12)
        v = r.choice(self.vs)
        if k < 6:
            return v
        if k == 6:
            return r.choice([0, 0., 2, 3.5, np.float64(1.5)])
        if k == 7:
            u = r.choice(self.units)
            return 2.5*units(u) if u else 4
        if k == 8:
            return v*r.choice([2, 0.5])
        if k == 9:
            return v*r.choice(self.vs)
        if k == 10:
            return v + 2*v
        return v**r.choice([1, 2, -1])

    def array(self, shape):
        from gpkit.nomials import NomialArray
        a = np.empty(shape, object)
        for i in np.ndindex(*shape):
            a[i] = self.element()
        if self.c.rng.random() < 0.5:     # one dimension only
            v = self.c.rng.choice(self.vs)
            for i in np.ndindex(*shape):
                k = self.c.rng.choice([1, 2, 0.5])
                a[i] = k*v if self.c.rng.random() < 0.8 else v + v*k
        return NomialArray(a)


def shape_of(r):
    return r.choice([(1,), (2,), (3,), (4,), (2, 2), (2, 3), (1, 2), (2, 1),
                     (2, 2, 2)])


def val(x, pt):
    return G.nomial_val(x, pt)


def attempt(f):
    "its result, or the exception it should raise as well"
    from gpkit import DimensionalityError
    from gpkit.exceptions import PrimalInfeasible
    try:
        return f(), None
    except ZeroDivisionError:
        raise Skip()
    except (DimensionalityError, TypeError, PrimalInfeasible, ValueError,
            AttributeError) as exc:
        return None, exc


def same_el(got, want, pt, what, *info):
    g, w = val(got, pt), val(want, pt)
    expect(G.same(g, w), what, *info, "got %s = %s" % (got, g),
           "wanted %s = %s" % (want, w))


def numeric(c, shape):
    r = c.rng
    m = np.array([round(r.uniform(0.5, 3), 2)
                  for _ in range(int(np.prod(shape)))]).reshape(shape)
    return m


def other_shape(r, shape):
    "a shape that broadcasts with this one"
    some = tuple(n if r.random() < 0.6 else 1 for n in shape)
    grown = tuple(r.choice([2, 3]) if n == 1 else n for n in some) \
        if all(a == b or b == 1 for a, b in zip(some, shape)) else some
    grown = tuple(b if a != 1 else g for a, b, g in zip(shape, some, grown))
    return r.choice([shape, shape[1:] or shape, (1,)*len(shape), some, grown,
                     shape[::-1] if 1 in shape else shape])


def operand(c, E, shape):
    "something to put beside an array of this shape"
    from gpkit import units
    r = c.rng
    k = r.randrange(8)
    cut = other_shape(r, shape)
    if k < 2:
        return E.array(cut)
    if k == 2:
        return r.choice(E.vs)
    if k == 3:
        return r.choice([2, 1.5])
    if k == 4:
        return numeric(c, cut).tolist()
    if k == 5:
        return numeric(c, cut)
    if k == 6:
        return 2.5*units(r.choice(["m", "ft", "s"]))
    v = r.choice(E.vs)
    return v + r.choice([1, 2])*v**1


@driver(("C25",), 500)
def array_arithmetic(c):
    "every element of a result is the operation on the elements"
    from gpkit import SignomialsEnabled
    r = c.rng
    E = Elements(c)
    shape = shape_of(r)
    a = E.array(shape)
    name = r.choice(["add", "mul", "truediv", "sub", "pow", "neg", "le", "ge",
                     "eq"])
    c.say("array", a.tolist(), name)
    with SignomialsEnabled():
        if name == "pow" and r.random() < 0.5:
            n = np.array([r.choice([0, 1, 2, 3]) for _ in range(60)])
            eshape = other_shape(r, shape)
            n = n[:int(np.prod(eshape))].reshape(eshape)
            c.say("to the", n.tolist())
            got, exc = attempt(lambda: a**n)
            full = np.broadcast(np.empty(shape), np.empty(eshape)).shape
            els = {i: attempt(lambda: get(a, i, full)**int(get(n, i, full)))
                   for i in np.ndindex(*full)}
        elif name in ("pow", "neg"):
            n = r.choice([1, 2, 3, 0])
            f = (lambda x: x**n) if name == "pow" else operator.neg
            got, exc = attempt(lambda: f(a))
            els = {i: attempt(lambda: f(get(a, i, shape)))
                   for i in np.ndindex(*shape)}
            full = shape
        else:
            b = operand(c, E, shape)
            c.say("with", b.tolist() if hasattr(b, "tolist")
                  and not hasattr(b, "magnitude") else b)
            bshape = np.shape(b) if isinstance(b, list) else \
                getattr(b, "shape", ()) or ()
            if hasattr(b, "hmap") or isinstance(b, NUM):
                bshape = ()
            flip = r.random() < 0.4 and name not in ("le", "ge", "eq")
            if hasattr(b, "magnitude") and flip:
                raise Skip()     # pint's own
            op = getattr(operator, name)
            f = (lambda x, y: op(y, x)) if flip else op
            got, exc = attempt(lambda: f(a, b))
            full = np.broadcast(np.empty(shape), np.empty(bshape)).shape
            els = {i: attempt(lambda: f(get(a, i, full), get(b, i, full)))
                   for i in np.ndindex(*full)}
        bad = [e for _, e in els.values() if e]
        if exc or bad:
            # (an array can do what one of its elements alone refuses, but
            #  never the reverse)
            if exc and not bad:
                raise Bad("raised %r though every element allows it" % exc)
            return
    if name in ("le", "ge", "eq"):
        constraints(c, E, got, els, full)
        return
    expect(np.shape(got) == full, "shape of the result", np.shape(got), full)
    for i, (want, _) in els.items():
        el = np.asarray(got, object)[i] if full else got
        same_el(el, want, E.pt, "element %s" % (i,))


def constraints(c, E, got, els, full):
    arr = np.empty(len(list(got)), object)
    arr[:] = list(got)
    expect(len(arr) == int(np.prod(full)), "number of constraints")
    arr = arr.reshape(full)
    if any(isinstance(w, (bool, np.bool_)) for w, _ in els.values()):
        raise Skip()
    expect(arr.shape == full, "shape of the constraints", arr.shape, full)
    for i, (want, _) in els.items():
        con = arr[i]
        expect(type(con) is type(want), "kind of constraint", con, want)
        expect({con.oper, want.oper} in ({"="}, {"<="}, {">="})
               or (con.left is not None and con.oper != want.oper
                   and "=" not in (con.oper, want.oper)),
               "its relation", con, want)
        lo, hi = (con.left, con.right) if con.oper == want.oper else \
            (con.right, con.left)
        same_el(lo, want.left, E.pt, "left side %s" % (i,), con)
        same_el(hi, want.right, E.pt, "right side %s" % (i,), con)


@driver(("C25",), 600)
def array_folds(c):
    "sums and products, whole and along an axis"
    from gpkit import SignomialsEnabled, DimensionalityError
    r = c.rng
    E = Elements(c)
    shape = shape_of(r)
    a = E.array(shape)
    signs = r.random() < 0.4
    with (SignomialsEnabled() if signs else Quiet()):
        if signs and r.random() < 0.5:
            i = tuple(r.randrange(n) for n in shape)
            a[i] = -1*r.choice(E.vs)
        if all(isinstance(x, NUM + (np.number,)) or hasattr(x, "magnitude")
               for x in a.flat):
            raise Skip()
        op = r.choice(["sum", "prod"])
        c.say(op, a.tolist())
        add = (lambda x, y: G.vadd(x, y)) if op == "sum" else G.vmul

        def fold(els):
            # adding zero changes nothing, whatever the unit of the rest
            els = [x for x in els if op != "sum" or hasattr(x, "hmap")
                   or x != 0]
            vals = [val(x, E.pt) for x in els]
            if not vals:
                return G.Val(0.)
            out = vals[0]
            for v in vals[1:]:
                out = add(out, v)
            return out
        axis = r.choice([None, None] + list(range(len(shape))))
        try:
            if axis is None:
                want = {(): fold(list(a.flat))}
            else:
                rest = [range(n) for j, n in enumerate(shape) if j != axis]
                want = {k: fold([a[k[:axis] + (j,) + k[axis:]]
                                 for j in range(shape[axis])])
                        for k in itertools.product(*rest)}
        except G.DimErr:
            want = None
        try:
            got = getattr(a, op)() if axis is None else \
                getattr(a, op)(axis=axis)
        except DimensionalityError:
            expect(want is None or any(hasattr(x, "magnitude")
                                       for x in a.flat)
                   or axis is not None, "refused to add like dimensions")
            return
        if want is None:
            # a partial sum that vanishes takes any dimension
            expect(any(w.x < 0 for w in [val(x, E.pt) for x in a.flat]),
                   "added different dimensions", got)
            return
    if axis is not None and len(shape) == 1:
        want = {(): want[()]}
    for k, w in want.items():
        el = np.asarray(got, object)[k] if k else got
        if getattr(el, "hmap", None) == {} and abs(w.x) < 1e-9*w.mag:
            continue
        if op == "prod" and w.x == 0:
            continue
        g = val(el, E.pt)
        expect(G.same(g, w), "%s along %s, %s" % (op, axis, k), "got %s = %s"
               % (el, g), "wanted %s" % w)
        if axis is None and hasattr(el, "hmap") and el.hmap:
            from .arith import canonical
            canonical(el, op)
            with (SignomialsEnabled() if signs else Quiet()):
                one = reduce(operator.add if op == "sum" else operator.mul,
                             list(a.flat))
                both, exc = attempt(lambda: el + one)
                expect(exc or G.same(val(both, E.pt), G.Val(2*w.x, w.d, 2*w.mag)),
                       "is what folding one by one gives", el, one)
                if attempt(lambda: one + one)[1] is None:
                    expect(not exc, "is of the unit of folding one by one",
                           el, one, exc)


@driver(("C25",), 250)
def array_subs(c):
    "substitution, indexing, vectors of variables"
    from gpkit import VectorVariable
    from gpkit.nomials import NomialArray
    r = c.rng
    shape = shape_of(r)
    u = r.choice([None, "m", "ft"])
    x = VectorVariable(shape, "x", u) if u else VectorVariable(shape, "x")
    c.say("vector", shape, u)
    expect(x.shape == shape, "shape of a vector", x.shape)
    expect(len({v.key for v in x.flat}) == int(np.prod(shape)),
           "one variable for each index")
    for i in np.ndindex(*shape):
        v = x[i]
        expect(v.key.idx == i and v.key.shape == shape
               and v.key.name == "x", "element %s" % (i,), v.key.idx)
        expect(v.key.veckey == x.key, "belongs to its vector")
    E = Elements(c)
    els = np.empty(shape, object)
    pt = {}
    for i in np.ndindex(*shape):
        pt[x[i].key] = round(r.uniform(0.5, 2), 3)
        els[i] = x[i]*r.choice([1, 2]) + x[r.choice(
            list(np.ndindex(*shape)))]*r.choice([1, 3])
    a = NomialArray(els)
    some = {v: pt[v.key] for v in x.flat if r.random() < 0.6}
    if r.random() < 0.3:
        some = {x: np.array([pt[v.key] for v in x.flat]).reshape(shape)}
    c.say("sub", some)
    got = a.sub(some)
    expect(np.shape(got) == shape, "shape after substitution")
    for i in np.ndindex(*shape):
        el = np.asarray(got, object)[i]
        same_el(el, els[i], pt, "substituted %s" % (i,))
    j = r.randrange(shape[0])
    row = a[j]
    for i in np.ndindex(*shape[1:]):
        el = np.asarray(row, object)[i] if shape[1:] else row
        same_el(el, els[(j,) + i], pt, "row %s" % j)
    k = [r.choice([1., 2.]) for _ in range(2)]
    o = a.outer(k)
    flat = list(a.flat)
    expect(np.shape(o) == (len(flat), 2), "shape of an outer product")
    for p, q in itertools.product(range(len(flat)), range(2)):
        same_el(o[p, q], flat[p]*k[q], pt, "outer %s %s" % (p, q))
