"""Contract of the adapter of the installed solver (C20)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import TSeq, ZR, ZI, ZSeq, INT, REAL, BOOL
from .contracts import ZContract, register
from .values import SBool

SV = "gpkit.solvers.cvxopt:"
K, Start = (z3.Function(n, INT, INT) for n in ("monomials_in",
                                               "first_row_of"))
InAll, InFirst = (z3.Function(n, INT, BOOL) for n in (
    "row_is_of_an_equality", "row_is_of_a_first_half"))
KINDS = ("lse", "lin", "leq")
# how many posynomials (rows) of each kind are before a posynomial
Cnt, Off = ({k: z3.Function("%s_%s_before" % (k, what), INT, INT)
             for k in KINDS} for what in ("posynomials", "rows"))
Ans = {k: z3.Function("answer_" + k, INT, REAL) for k in KINDS}
Entry = z3.Function("entry_value", INT, INT, REAL)
Row, Col = (z3.Function("entry_" + x, INT, INT, INT)
            for x in ("row", "column"))
ints = z3.Ints


class Sym:
    "an object of which the code uses only what is defined here"
    pv_symbolic = True


def yes(f):
    return bool(SBool(f))


def num(x):
    t = zv.num_term(x)
    if t is None:
        raise Unsupported("a number was expected, got %r" % (x,))
    return t


def length(s):
    return z3.IntVal(0) if s.T is None else s.n


def at(s, i):
    return z3.Select(s.arr, i)


def seq(x):
    if isinstance(x, ZSeq):
        return x
    if isinstance(x, (list, tuple)):
        s = ZSeq()
        for v in x:
            s.append(v)
        return s
    src = zv.idx_source(x)
    if src is None:
        raise Unsupported("a list was expected, got %r" % (x,))
    s = ZSeq()
    s.extend(src)
    return s


class Const(Sym):
    "the coefficients; their logarithms; some of those; negated"
    def __init__(self, log=False, rows=None, neg=False):
        self.log, self.rows, self.neg = log, rows, neg

    def __getitem__(self, rows):
        if self.rows is not None:
            raise Unsupported("part of a part")
        return Const(self.log, snapshot(rows), self.neg)

    def __neg__(self):
        if not self.log:
            raise Unsupported("negated coefficients")
        return Const(True, self.rows, not self.neg)


def snapshot(rows):
    rows = seq(rows)
    return (length(rows), None if rows.T is None else rows.arr)


class Csr(Sym):
    def __init__(self, me):
        self.me = me
        self.shape = (ZI(me.rows), ZI(me.M))

    def __getitem__(self, k):
        rows = k
        if isinstance(k, tuple):
            rows, cols = k
            if not isinstance(cols, slice) or cols != slice(None):
                raise Unsupported("columns %r" % (cols,))
        return Part(self.me, snapshot(rows))

    def tocsr(self):
        return self


class Part(Sym):
    "some rows of A, in the order of the list"
    count = 0

    def __init__(self, me, rows):
        self.me, self.rows = me, rows
        self.id = len(me.parts)
        me.parts.append(self)
        self.n = E.eng().fresh("entries", INT)
        E.eng().add(self.n >= 0)
        i = z3.IntVal(self.id)
        self.data = zv.IdxSource(self.n, lambda e: ZR(Entry(i, e)))
        self.row = zv.IdxSource(self.n, lambda e: ZI(Row(i, e)))
        self.col = zv.IdxSource(self.n, lambda e: ZI(Col(i, e)))
        self.shape = (ZI(rows[0]), ZI(me.M))

    def tocoo(self):
        return self


class IdxList(Sym):
    pass


TReals = TSeq(zv.TReal)


class La(ZSeq):
    "an array of numbers, as long as the posynomials are many"
    def __init__(self, me):
        ZSeq.__init__(self, TReals, TReals.mk(me.N, z3.K(INT, z3.RealVal(0))))
        self.me = me

    def __setitem__(self, key, vals):
        e, N = E.eng(), self.me.N
        if isinstance(key, zv.ZNum):
            t = num(key)
            e.oblige_z("within the array", z3.And(0 <= t, t < N))
            self.put(TReals.mk(N, z3.Store(self.arr, t, zv.toreal(
                num(vals)))), "setitem")
            return
        key, vals = seq(key), seq(vals)
        n = length(key)
        e.oblige_z("as many values as places", n == length(vals))
        if key.T is None:
            return
        q = z3.Int("place")
        e.oblige_z("within the array", z3.Implies(
            z3.And(0 <= q, q < n), z3.And(0 <= at(key, q), at(key, q) < N)))
        new = e.fresh("la", z3.ArraySort(INT, REAL))
        old, p = self.arr, self.me.p
        w = e.fresh("place", INT)      # where p is in the list, if it is
        here = z3.And(0 <= w, w < n, at(key, w) == p)
        c = Cnt[self.me.k0](p) if self.me.k0 else None
        if c is not None and yes(z3.And(c < n, at(key, c) == p)):
            e.oblige_z("it is listed once", z3.Implies(here, w == c))
            e.add(z3.And(0 <= c, new[p] == zv.toreal(at(vals, c))))
        else:
            e.oblige_z("it is not listed elsewhere", z3.Not(here))
            e.add(new[p] == old[p])
        self.me.base = new[p]
        self.put(TReals.mk(N, new), "setitem")


class Np:
    def __init__(self, me):
        self.me = me

    def array(self, x):
        if x is self.me.c:
            return x
        return seq(x)
    asarray = array

    def log(self, x):
        if isinstance(x, Const) and not x.log:
            return Const(True, x.rows, x.neg)
        raise Unsupported("log of %r" % (x,))

    def zeros(self, n):
        E.eng().oblige_z("one dual for each posynomial", num(n) == self.me.N)
        return La(self.me)

    def exp(self, x):
        return ("exp", x)

    def ravel(self, x):
        return ("ravel", x)

    def __getattr__(self, name):
        raise Unsupported("numpy's %s" % name)


class Ks(Sym):
    "the number of monomials of each posynomial"
    def __init__(self, me):
        self.me = me

    def pv_zsource(self):
        return zv.IdxSource(self.me.N, lambda i: ZI(self.k(i)))
    pv_z = True

    def k(self, i):
        self.me.known(i)
        return K(i)

    def pv_len(self):
        return ZI(self.me.N)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is not None and not (i.start == 0) or \
                    i.step is not None or i.stop is None:
                raise Unsupported("a slice of k")
            return Prefix(num(i.stop))
        return ZI(self.k(num(i)))


class Prefix(Sym):
    def __init__(self, n):
        self.n = n


class Marks(Sym):
    def __init__(self, f):
        self.f = f

    def pv_contains(self, x):
        return SBool(self.f(num(x)))


@register
class Optimize(ZContract):
    """the solver is given each posynomial in the form it belongs to: sums
    with their cost first, single terms as linear inequalities, and the first
    of each pair of equality rows as an equality; the duals returned are in
    the order of the posynomials, an equality's under the half it holds"""
    name = SV + "optimize"
    props = ("C20",)
    cost = 20
    assumes = ["optimize: scipy's tocsr, tocoo and numpy's indexing by lists"
               " select rows in the order of the list; cvxopt's spmatrix and"
               " gp are as documented"]

    def applies(self, *a, **kw):
        return False

    def allow_mut(self, args):
        return []

    loops = {"optimize#%d" % i: lambda self, L: self.flipping(L)
             if "la" in L.before else self.sorting(L) for i in range(3)}

    def cases(self, e):
        N, M, p, j = (e.fresh(n, INT) for n in (
            "posynomials", "columns", "p", "j"))
        self.N, self.M, self.p, self.j = N, M, p, j
        e.add(z3.And(N >= 1, M >= 1, 0 <= p, p < N, 0 <= j, j < K(p)))
        self.rows = Start(N)
        e.add(Start(0) == 0)
        self.c, self.parts, self.asked = Const(), [], []
        self.calls = 0
        self.base = z3.RealVal(0)
        A = Csr(self)
        kw = dict(c=self.c, A=A, k=Ks(self))
        m = Sym()
        m.all, m.first_half = Marks(InAll), Marks(InFirst)
        kw["meq_idxs"] = m
        self.leqs = True
        if e.choose(2, "equalities as pairs of inequalities"):
            kw["use_leqs"] = self.leqs = False
        self.other = {"kktsolver": object()}
        kw.update(self.other)
        e.add(z3.Not(InAll(z3.IntVal(0))))
        for k in KINDS:
            e.add(z3.And(Cnt[k](0) == 0, Off[k](0) == 0))
        self.known(z3.IntVal(0))
        self.known(p)
        self.known(p - 1)
        self.pts = (p, p - 1)
        # the kind of p
        kinds = ["cost", "sum", "lin"] + ["leq", "second"]*self.leqs
        which = kinds[e.choose(len(kinds), "the posynomial is ...")]
        self.k0 = {"cost": "lse", "sum": "lse", "second": None}.get(which,
                                                                   which)
        if self.k0:
            e.add(self.kind(p)[self.k0])
        e.add(p == 0 if which == "cost" else p > 0)
        if which == "second":
            e.add(self.kind(p - 1)["leq"])
        elif self.leqs and which == "lin":
            e.add(z3.Not(InAll(Start(p))))
        self.fails = None if which == "cost" else 0
        return (), kw

    def kind(self, i):
        leq = InAll(Start(i)) if self.leqs else z3.BoolVal(False)
        first = z3.And(leq, InFirst(Start(i)))
        lin = z3.And(z3.Not(leq), i != 0, K(i) == 1)
        return {"leq": first, "lin": lin, "lse": z3.And(
            z3.Not(leq), z3.Not(lin))}

    def known(self, i):
        "definitions and facts of the i-th posynomial"
        e = E.eng()
        here = z3.And(0 <= i, i < self.N)
        kinds = self.kind(i)
        fs = [K(i) >= 1, Start(i + 1) == Start(i) + K(i), Start(i) >= 0,
              z3.Implies(i > 0, Start(i) > 0)]
        for k, c in kinds.items():
            fs += [Cnt[k](i + 1) == Cnt[k](i) + z3.If(c, 1, 0),
                   Off[k](i + 1) == Off[k](i) + z3.If(c, K(i), 0),
                   Cnt[k](i) >= 0, Off[k](i) >= 0,
                   Off[k](i) >= Cnt[k](i)]
        # equality rows are marked in pairs, the first of each marked so
        s, s1 = Start(i), Start(i + 1)
        # (and the second only after such a first)
        fs += [z3.Implies(InFirst(s), z3.And(
            InAll(s), i + 1 < self.N, InAll(s1), z3.Not(InFirst(s1)))),
            z3.Implies(z3.And(InAll(s), z3.Not(InFirst(s))), z3.And(
                i > 0, InFirst(Start(i - 1)))),
            z3.Implies(InAll(s), K(i) == 1)]
        e.add(z3.Implies(here, z3.And(*fs)))

    def setup(self, e):
        import gpkit.solvers.cvxopt as X
        names = ("np", "spmatrix", "matrix", "gp")
        old = {k: X.__dict__[k] for k in names}

        def total(x, *a):
            if isinstance(x, Prefix) and not a:
                self.known(x.n)
                return ZI(Start(x.n))
            raise Unsupported("sum of %r" % (x,))
        X.np, X.spmatrix, X.matrix, X.gp = (Np(self), self.spmatrix,
                                            self.matrix, self.gp)
        X.sum = total

        def undo():
            X.__dict__.update(old)
            del X.sum
        return undo

    # --- what is called
    def spmatrix(self, data, row, col, size=None, tc=None):
        e = E.eng()
        data, row, col = seq(data), seq(row), seq(col)
        if not self.parts:
            raise Unsupported("a matrix of nothing")
        # the part whose entries these are: the latest
        part = self.parts[-1]
        if not all(e.entails(z3.Or(part.n == 0, at(s, 0) == f(
                z3.IntVal(part.id), 0)))
                for s, f in ((row, Row),) if s.T is not None):
            for q in self.parts:
                if e.entails(z3.Or(q.n == 0, at(row, 0) == Row(
                        z3.IntVal(q.id), 0))):
                    part = q
        k = z3.Int("entry")
        i = z3.IntVal(part.id)
        n = length(data)
        e.oblige_z("as many rows and columns as entries", z3.And(
            n == length(row), n == length(col), n >= part.n))
        e.oblige_z("every entry of these rows is kept", z3.Implies(
            z3.And(0 <= k, k < part.n), z3.And(
                zv.toreal(at(data, k)) == Entry(i, k),
                at(row, k) == Row(i, k), at(col, k) == Col(i, k))))
        e.oblige_z("no other entry but zeros", z3.Implies(
            z3.And(part.n <= k, k < n), z3.And(
                zv.toreal(at(data, k)) == 0, 0 <= at(row, k),
                z3.Or(at(row, k) < part.rows[0], at(row, k) == 0),
                0 <= at(col, k), at(col, k) < self.M)))
        if size is None:
            e.oblige_z("the matrix has all the columns", z3.And(
                n > part.n, at(col, n - 1) == self.M - 1))
        else:
            e.oblige_z("the size of the matrix", z3.And(
                num(size[0]) == part.rows[0], num(size[1]) == self.M))
        out = Sym()
        out.part = part
        return out

    def matrix(self, x, *a, **kw):
        if not isinstance(x, Const) or a or kw:
            raise Unsupported("a matrix of %r" % (x,))
        return x

    def rows_of(self, e, what, kind, rows):
        n, arr = rows
        p, j = self.p, self.j
        c = self.kind(p)[kind]
        e.oblige_z("%s has as many rows as it should" % what,
                   n == Off[kind](self.N))
        e.oblige_z("%s has each row of its posynomials in order" % what,
                   z3.Implies(c, z3.BoolVal(False) if arr is None else
                              z3.Select(arr, Off[kind](p) + j)
                              == Start(p) + j))

    def block(self, e, name, kind, F, g, neg):
        e.oblige("%s is given as a matrix and a vector" % name, isinstance(
            getattr(F, "part", None), Part) and isinstance(g, Const)
            and g.log and g.rows is not None, backend="structural")
        self.rows_of(e, name + "'s matrix", kind, F.part.rows)
        self.rows_of(e, name + "'s vector", kind, g.rows)
        e.oblige("%s's vector has its sign" % name, g.neg is neg,
                 backend="structural")

    def gp(self, k, F, g, **kw):
        e = E.eng()
        self.calls += 1
        e.oblige("the solver is called once", self.calls == 1,
                 backend="structural")
        k = seq(k)
        p = self.p
        e.oblige_z("as many sums as there are", length(k)
                   == Cnt["lse"](self.N))
        if k.T is not None:
            e.oblige_z("the length of each sum", z3.Implies(
                self.kind(p)["lse"], at(k, Cnt["lse"](p)) == K(p)))
        self.block(e, "the sums", "lse", F, g, False)
        for name, kind, m, v in (("linear inequalities", "lin", "G", "h"),
                                 ("equalities", "leq", "A", "b")):
            if m in kw or v in kw:
                e.oblige("both parts of the %s are given" % name,
                         m in kw and v in kw, backend="structural")
                self.block(e, "the " + name, kind, kw.pop(m), kw.pop(v),
                           True)
            else:
                e.oblige_z("there are no %s" % name, z3.Not(
                    self.kind(p)[kind]))
        e.oblige("options are passed on", kw == self.other,
                 backend="structural")
        if self.fails is None:
            self.fails = e.choose(3, "solved, refused, not optimal")
        if self.fails == 1:
            raise ValueError("Rank(A) < p")
        n = {k: Cnt[k](self.N) for k in KINDS}
        ans = lambda k, n: zv.IdxSource(n, lambda i: ZR(Ans[k](i)))
        self.x = object()
        return {"status": "unknown" if self.fails == 2 else "optimal",
                "zl": ans("lin", n["lin"]), "znl": ans("lse", n["lse"] - 1),
                "y": ans("leq", n["leq"]), "x": self.x,
                "primal objective": "the logarithm of the cost"}

    # --- loops
    def sorting(self, L):
        i = L.i
        self.known(i)
        out = []
        q = z3.Int("q")
        lists = {k: (L.loc[k + "_posys"], L.loc[k + "_mons"])
                 for k in KINDS}
        for k, (posys, mons) in lists.items():
            out += [("posynomials (%s)" % k, length(posys) == Cnt[k](i)),
                    ("rows (%s)" % k, length(mons) == Off[k](i)),
                    ("counts (%s)" % k, z3.And(
                        Off[k](i) >= Cnt[k](i), Cnt[k](i) >= 0))]
            out.append(("the cost is the first sum", z3.Implies(
                i > 0, Cnt["lse"](i) >= 1)))
            if posys.T is None or mons.T is None:
                for x in self.pts:
                    out.append(("none yet (%s)" % k, z3.Implies(z3.And(
                        0 <= x, x < i), z3.Not(self.kind(x)[k]))))
                continue
            for t, x in enumerate(self.pts):
                is_k = z3.And(0 <= x, x < i, self.kind(x)[k])
                out += [
                    ("its place (%s, %d)" % (k, t), z3.Implies(is_k, z3.And(
                        Cnt[k](x) < length(posys),
                        at(posys, Cnt[k](x)) == x))),
                    ("its place only (%s, %d)" % (k, t), z3.ForAll(
                        [q], z3.Implies(z3.And(
                            0 <= q, q < length(posys), at(posys, q) == x),
                            z3.And(0 <= x, self.kind(x)[k],
                                   q == Cnt[k](x))))),
                ]
            x = self.p
            out += [
                ("its rows (%s)" % k, z3.Implies(z3.And(
                    0 <= x, x < i, self.kind(x)[k]), z3.And(
                        Off[k](x) + K(x) <= length(mons),
                        at(mons, Off[k](x) + self.j) == Start(x) + self.j))),
                ("listed so far (%s)" % k, z3.ForAll([q], z3.Implies(
                    z3.And(0 <= q, q < length(posys)), z3.And(
                        0 <= at(posys, q), at(posys, q) < i))))]
            if k == "leq":
                out.append(("an equality's other half follows", z3.ForAll(
                    [q], z3.Implies(z3.And(0 <= q, q < length(posys)),
                                    at(posys, q) + 1 < self.N))))
        out.append(("sums before p", z3.Implies(z3.And(
            0 < self.p, self.p <= i), Cnt["lse"](self.p) >= 1)))
        if "start" in L.before:
            out.append(("rows so far", num(L.loc["start"]) == Start(i)))
        return out

    def flipping(self, L):
        la, p = L.loc["la"], self.p
        la0 = self.base     # what it was before the loop
        i, y = L.i, Ans["leq"]

        def passed(x):
            return z3.And(0 <= x, self.kind(x)["leq"], Cnt["leq"](x) < i)
        want = z3.If(z3.And(passed(p), y(Cnt["leq"](p)) >= 0),
                     y(Cnt["leq"](p)),
                     z3.If(z3.And(passed(p - 1), y(Cnt["leq"](p - 1)) < 0),
                           -y(Cnt["leq"](p - 1)), la0))
        return [("one dual for each", la.n == self.N),
                ("the dual of p", z3.Select(la.arr, p) == want)]

    def raises(self, *a, **kw):
        from gpkit.exceptions import UnknownInfeasible, DualInfeasible
        return [(DualInfeasible, SBool(z3.BoolVal(self.fails == 1)), True),
                (UnknownInfeasible, SBool(z3.BoolVal(self.fails == 2)),
                 True)]

    def ensures(self, old, r, *a, **kw):
        p = self.p
        k = self.kind(p)
        y = Ans["leq"]
        la = r["la"]
        got = z3.Select(la.arr, p) if isinstance(la, La) else None
        if got is None:
            raise Unsupported("duals %r" % (la,))
        second = z3.And(p > 0, self.kind(p - 1)["leq"])
        return [("ok", "the solver was called", self.calls == 1),
                ("ok", "the cost is that of the solver", r["objective"] == (
                    "exp", "the logarithm of the cost")),
                ("ok", "the solver's variables are returned",
                 r["primal"] == ("ravel", self.x)),
                ("ok", "its status is returned", r["status"] == "optimal"),
                ("z", "the dual of a linear inequality", z3.Implies(
                    k["lin"], got == Ans["lin"](Cnt["lin"](p)))),
                ("z", "the dual of the cost", z3.Implies(p == 0, got == 1)),
                ("z", "the dual of a sum", z3.Implies(
                    z3.And(k["lse"], p > 0),
                    got == Ans["lse"](Cnt["lse"](p) - 1))),
                ("z", "the dual of an equality's first half", z3.Implies(
                    k["leq"], got == z3.If(y(Cnt["leq"](p)) >= 0,
                                           y(Cnt["leq"](p)), 0))),
                ("z", "the dual of an equality's second half", z3.Implies(
                    second, got == z3.If(y(Cnt["leq"](p - 1)) < 0,
                                         -y(Cnt["leq"](p - 1)), 0)))]
