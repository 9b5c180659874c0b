"""Contracts of the updates of a signomial program in place (C09)."""
import z3
from . import engine as E
from . import zv
from .engine import Unsupported
from .zv import TObj, TSeq, ZR, ZI, ZSeq, INT, REAL, BOOL
from .contracts import ZContract, register
from .values import SBool

SG = "gpkit.constraints.sgp:SequentialGeometricProgram."
TEx, TVr = TObj("ExponentsAtPoint"), TObj("VariableOfRow")
TI, TR, TE = TSeq(zv.TInt), TSeq(zv.TReal), TSeq(TEx)
Ex = z3.Function("exponents_of_term", INT, TEx.sort)
Co = z3.Function("coefficient_of_term", INT, REAL)
Size = z3.Function("variables_in", TEx.sort, INT)
Var = z3.Function("variable_at", TEx.sort, INT, TVr.sort)
Pow = z3.Function("exponent_at", TEx.sort, INT, REAL)
Column = z3.Function("column_of", TVr.sort, INT)
# variables in all the terms before the i-th
T = z3.Function("variables_before_term", INT, INT)
TEx.attrs["items"] = lambda v: lambda: zv.IdxSource(
    Size(v.t), lambda j: (TVr.wrap(Var(v.t, j)), ZR(Pow(v.t, j))))
TEx.attrs["pv_len"] = lambda v: ZI(Size(v.t))


class Sym:
    "an object of which the code uses only what is defined here"
    pv_symbolic = True

    def __getattr__(self, name):
        if name.startswith("_") or name.startswith("pv"):
            raise AttributeError(name)
        raise Unsupported("%s of a stand-in" % name)


def yes(f):
    return bool(SBool(f))


def at(s, i):
    return z3.Select(s.arr, i)


class Terms(Sym):
    "the approximation at the point: any number of terms"
    pv_z = True

    def __init__(self, n):
        self.n = n

    def pv_len(self):
        return ZI(self.n)

    def pv_zsource(self):
        return zv.IdxSource(self.n, lambda i: TEx.wrap(Ex(i)))

    def items(self):
        return zv.IdxSource(self.n, lambda i: (TEx.wrap(Ex(i)), ZR(Co(i))))


class Columns(Sym):
    def __getitem__(self, v):
        return ZI(Column(TVr.unwrap(v)))

    def pv_contains(self, v):
        raise Unsupported("whether a variable has a column")


@register
class Update(ZContract):
    """updating an approximated constraint in place: each of its terms gets
    its coefficient, its exponents, and one entry of A for each variable;
    entries it had and no longer needs are zeroed, those it newly needs are
    noted as its own; entries of other constraints are untouched; when the
    shape changes all is generated anew"""
    name = SG + "gp"
    props = ("C09",)
    cost = 10
    assumes = ["gp: proved for one approximated constraint among any other"
               " rows; the check for variables without a column is taken at"
               " its word; the rest (several constraints, histories) is"
               " bounded (seqs)"]
    loops = {"SequentialGeometricProgram.gp#%d" % i:
             lambda self, L: self.inv(L) for i in range(6)}

    def applies(self, *a, **kw):
        return False

    def allow_mut(self, args):
        return self.lists

    def cases(self, e):
        n0, m, mi, k, n, M = (e.fresh(x, INT) for x in (
            "entries", "own", "first_row", "k", "terms", "rows"))
        self.n0, self.m, self.mi, self.k, self.n = n0, m, mi, k, n
        e.add(z3.And(n0 >= 0, m >= 0, mi >= 0, k >= 1, n >= 0,
                     mi + k <= M))
        # the entries of A that are this constraint's own: distinct places
        own = self.own = e.fresh("own_entries", z3.ArraySort(INT, INT))
        inv = self.invf = z3.Function("place_of_entry", INT, INT)
        q = z3.Int("q")
        e.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(
            0 <= own[q], own[q] < n0, inv(own[q]) == q)),
            patterns=[own[q]]))
        mk = lambda T_, name, len_: T_.wrap(T_.mk(len_, e.fresh(
            name, z3.ArraySort(INT, T_.elem.sort))))
        A = Sym()
        A.row, A.col, A.data = (mk(TI, "row", n0), mk(TI, "col", n0),
                                mk(TR, "data", n0))
        self.was = (A.row.arr, A.col.arr, A.data.arr)
        gp = Sym()
        gp.A, gp.cs, gp.exps = A, mk(TR, "cs", M), mk(TE, "exps", M)
        self.was_cs, self.was_ex = gp.cs.arr, gp.exps.arr
        gp.varidxs, gp.substitutions = Columns(), {}
        gp.k = [ZI(e.fresh("k0", INT)), ZI(k)]
        rows = Sym()
        rows.start = ZI(mi)
        gp.m_idxs, gp.hmaps = [None, rows], [Sym(), Sym()]
        self.old = object()
        gp.x0 = Sym()
        self.updated = []
        gp.x0.update = self.updated.append
        self.generated = []
        gp.gen = lambda: self.generated.append("data")
        self.gp = gp
        sp = Sym()
        sp._gp, sp.slack, sp.sgpvks = gp, "slack", ()
        sp.a_idxs = {1: TI.wrap(TI.mk(m, own))}
        sp._gen_a_idxs = lambda: self.generated.append("places")
        hmap = self.hmap = Terms(n)
        self.approx = Sym()

        def compiled(subs):
            e.oblige("with the program's constants", subs is
                     gp.substitutions, backend="structural")
            e.oblige("what is compiled is the approximation, with slack",
                     isinstance(self.approx.unsubbed, list)
                     and self.approx.unsubbed == [("slack", "lt1")],
                     backend="structural")
            return [hmap]
        self.approx.as_hmapslt1 = compiled
        sp.approxconstraints = [self.approx]
        con, gpc = Sym(), Sym()

        def as_gpconstr(x0):
            e.oblige("the approximation is at the point of the program",
                     x0 is gp.x0 and bool(self.updated),
                     backend="structural")
            return gpc
        con.as_gpconstr = as_gpconstr
        gpc.as_hmapslt1 = lambda subs: ["lt1"]
        sp.sgpconstraints = [con]
        self.sp = sp
        self.lists = [A.row, A.col, A.data, gp.cs, gp.exps, sp.a_idxs[1]]
        # an arbitrary variable of an arbitrary term; an arbitrary entry
        self.i0, self.j0, self.e0, self.q0 = (e.fresh(x, INT) for x in (
            "i0", "j0", "e0", "q0"))
        e.add(z3.And(0 <= self.i0, self.i0 < n, 0 <= self.j0,
                     self.j0 < Size(Ex(self.i0))))
        e.add(z3.And(0 <= self.e0, self.e0 < n0, z3.Not(z3.And(
            0 <= inv(self.e0), inv(self.e0) < m,
            own[inv(self.e0)] == self.e0))))
        e.add(z3.And(0 <= self.q0, self.q0 < m))
        e.add(T(0) == 0)
        self.fact(self.i0)
        self.point = bool(e.choose(2, "a point is given"))
        self.new = None
        if not self.point:
            return (sp,), {}
        x0 = Sym()
        x0.pv_contains = lambda v: False
        if e.choose(2, "a dictionary made of it first"):
            self.x0 = x0
            return (sp, {"x": 1.}), {}
        self.x0 = x0
        return (sp, x0), {"cleanx0": True}

    def fact(self, i):
        E.eng().add(z3.And(T(i + 1) == T(i) + Size(Ex(i)),
                           Size(Ex(i)) >= 0, T(i) >= 0))

    def setup(self, e):
        import gpkit.constraints.sgp as S
        old = {k: S.__dict__[k] for k in ("KeyDict", "Posynomial")}

        class Posy(Sym):
            def __init__(_, h):
                _.h = h

            def __truediv__(_, s):
                return (s, _.h)
        S.KeyDict, S.Posynomial = (lambda x: self.x0), Posy

        def anew(gen):
            self.new = bool(e.choose(2, "a variable without a column"))
            return self.new
        S.any = anew

        def undo():
            S.__dict__.update(old)
            del S.any
        return undo

    def entry(self, t):
        return z3.If(t < self.m, self.own[self.m - 1 - t],
                     self.n0 + t - self.m)

    def state(self, t, i, j=None):
        """after t variables: i terms wholly, and j variables of the next"""
        A, gp, m, n0 = self.gp.A, self.gp, self.m, self.n0
        more = z3.If(t > m, t - m, 0)
        a = self.sp.a_idxs[1]
        r, q = z3.Int("r"), z3.Int("q")
        t0 = T(self.i0) + self.j0
        en = self.entry(t0)
        i0, e0 = self.i0, self.e0
        done = z3.Or(i0 < i, z3.And(i0 == i, self.j0 < j)
                     if j is not None else z3.BoolVal(False))
        seen = z3.Or(i0 < i, i0 == i) if j is not None else i0 < i
        out = [("entries so far", z3.And(A.row.n == n0 + more,
                                         A.col.n == n0 + more,
                                         A.data.n == n0 + more)),
               ("t >= 0", z3.And(t >= 0, T(i) >= 0)),
               ("own entries so far", a.n == m + more),
               ("the first are as before", z3.ForAll([q], z3.Implies(
                   z3.And(0 <= q, q < m), at(a, q) == self.own[q]))),
               ("then those added", z3.ForAll([r], z3.Implies(
                   z3.And(m <= r, r < m + more), at(a, r) == n0 + r - m))),
               ("terms are in order", z3.Implies(i0 < i, T(i0 + 1) <= T(i))),
               ("(i0, j0) passed", z3.Implies(done, t0 < t)),
               ("row of (i0, j0)", z3.Implies(
                   done, at(A.row, en) == self.mi + i0)),
               ("column of (i0, j0)", z3.Implies(done, at(
                   A.col, en) == Column(Var(Ex(i0), self.j0)))),
               ("entry of (i0, j0)", z3.Implies(done, at(
                   A.data, en) == Pow(Ex(i0), self.j0))),
               ("other entries", z3.And(*[at(s, e0) == z3.Select(w, e0)
                                          for s, w in zip((
                                              A.row, A.col, A.data),
                                              self.was)])),
               ("term i0", z3.Implies(seen, z3.And(
                   at(gp.cs, self.mi + i0) == Co(i0),
                   at(gp.exps, self.mi + i0) == Ex(i0)))),
               ("rows of data", z3.And(gp.cs.n >= self.mi + self.k,
                                       gp.exps.n >= self.mi + self.k)),
               ("other rows", z3.And(*[z3.Implies(z3.Or(
                   r < self.mi, r >= self.mi + self.n), z3.And(
                       at(gp.cs, r) == z3.Select(self.was_cs, r),
                       at(gp.exps, r) == z3.Select(self.was_ex, r)))
                   for r in [self.r0()]]))]
        return out

    def r0(self):
        return z3.Int("other_row")

    def left(self, L, t):
        a = L.loc["a_idxs"]
        if not isinstance(a, ZSeq):
            raise Unsupported("the entries left %r" % (a,))
        q = z3.Int("q")
        n = z3.IntVal(0) if a.T is None else a.n
        out = [("entries left", n == z3.If(t < self.m, self.m - t, 0))]
        if a.T is not None:
            out.append(("they are the first", z3.ForAll([q], z3.Implies(
                z3.And(0 <= q, q < n), at(a, q) == self.own[q]))))
        return out

    def inv(self, L):
        loc = L.loc
        if "a_idxs" not in L.before:
            raise Unsupported("a loop over constraints of unknown number")
        kind = self.which(L)
        if kind == "terms":
            self.fact(L.i)
            t = T(L.i)
            return self.state(t, L.i) + self.left(L, t)
        if kind == "vars":
            i = zv.num_term(loc["i"])
            self.fact(i)
            t = T(i) + L.i
            return self.state(t, i, L.i) + self.left(L, t)
        total = T(self.n)
        A = self.gp.A
        en = self.own[self.q0]
        zero = z3.And(at(A.row, en) == 0, at(A.col, en) == 0,
                      at(A.data, en) == 0)
        return self.state(total, self.n) + [
            ("an entry left is zeroed", z3.Implies(self.q0 < L.i, zero))]

    def which(self, L):
        n = z3.simplify(L.n)
        if n.eq(z3.simplify(self.n)):
            return "terms"
        if n.decl().eq(Size):
            return "vars"
        return "left"

    def ensures(self, old, r, *a, **kw):
        gp = self.gp
        out = [("ok", "the program is returned", r is gp)]
        if not self.point:
            return out + [("ok", "as it was", not self.updated
                           and not self.generated)]
        out += [("ok", "the point is noted", len(self.updated) == 1),
                ("ok", "the approximation is kept", gp.hmaps[1]
                 is self.hmap)]
        if self.generated:
            return out + [("ok", "data is generated, then the entries noted",
                           self.generated == ["data", "places"]),
                          ("z", "the shape did change", z3.Or(
                              self.n != self.k, z3.BoolVal(bool(self.new))))]
        t = T(self.n)
        en = self.own[self.q0]
        A = gp.A
        return out + [
            ("z", "the shape did not change", z3.And(
                self.n == self.k, z3.BoolVal(not self.new)))] + [
            ("z", name, f) for name, f in self.state(t, self.n)] + [
                ("z", "an entry it no longer needs is zero", z3.Implies(
                    self.q0 < self.m - t, z3.And(
                        at(A.data, en) == 0, at(A.row, en) == 0,
                        at(A.col, en) == 0)))]
