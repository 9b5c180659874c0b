"""Relaxations of one constraint (C14)."""
import z3
from . import engine as E
from .contracts import Contract, register
from .values import to_poly, eq_zero
from .specs_arith import gp, ONE, ZERO
from .specs_map import NMT
from .specs_nomial import nomial, is_nomial, nval, ndim, toggle
from .specs_ineq import ineq_class
from .specs_sig import sig_class


@register
class Relaxed(Contract):
    """lower <= upper becomes lower <= relaxvar*upper, an equality one of
    these in each direction; nothing else (with relaxvar at one, then, each
    is the original)"""
    name = "gpkit.nomials.math:ScalarSingleEquationConstraint.relaxed"
    props = ("C14",)
    track = NMT
    max_paths = 20000

    def setup(self, e):
        e.ghost["opaque_sets"] = True
        return toggle(e)

    def applies(self, s, relaxvar):
        return False

    def cases(self, e):
        g = gp()
        kind = e.choose(3, "kind of constraint")
        oper = ["<=", ">=", "="][e.choose(3, "operator")]
        P, M, S = g.Posynomial, g.Monomial, g.Signomial
        if kind == 0:     # as PosynomialInequality makes them
            cls, ops = g.PosynomialInequality, {
                "<=": (P, M), ">=": (M, P), "=": (M, M)}[oper]
        elif kind == 1:
            cls, ops = g.PosynomialInequality, (M, M)
        else:
            cls = g.SignomialInequality
            ops = [(S, P), (P, S), (P, P)][e.choose(3, "sides")]
        s = object.__new__(ineq_class(cls) if kind < 2 else sig_class())
        s.left, s.right = (nomial(e, c, t) for c, t in zip(ops, "lr"))
        s.oper = oper
        e.ghost["inits"] = []
        e.ghost["sinits"] = True
        r = nomial(e, M, "relaxvar", units=False)
        r.hmap.units = r.units = None
        return (s, r), {}

    def pre(self, s, relaxvar):
        e = E.eng()
        # as wherever relaxations are made
        e.memo["enabled"] = True
        return {}

    def ensures(self, old, res, s, relaxvar):
        e = E.eng()
        calls = e.ghost["inits"]
        want = {"<=": ["<="], ">=": [">="], "=": ["<=", ">="]}[s.oper]
        ok = isinstance(res, list) and len(res) == len(want) \
            and len(calls) == len(want)
        gs = [("ok", "a constraint for each direction", ok)]
        if not ok:
            return gs
        byc = {id(c[0]): c for c in calls}
        lows = []
        for c in res:
            k = byc.pop(id(c), None)
            if k is None or k[2] not in ("<=", ">="):
                return gs + [("ok", "is a new inequality", False)]
            _, left, op, right = k
            lows.append((left, right) if op == "<=" else (right, left))
        R = nval(relaxvar)
        for d, (lo, hi) in zip(want, lows):
            lo0, hi0 = (s.left, s.right) if d == "<=" else (s.right, s.left)
            gs += [("eq", "the lower side is kept", nval(lo), nval(lo0)),
                   ("eq", "the upper side is multiplied by the relaxation",
                    nval(hi), R*nval(hi0)),
                   ("eq", "the lower side's dimension", ndim(lo), ndim(lo0)),
                   ("eq", "the upper side's dimension", ndim(hi), ndim(hi0))]
        return gs
