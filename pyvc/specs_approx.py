"""Monomial approximation (C04).

The point x0 is the ghost valuation L (x0[k] = exp(L_k)); L2 is an arbitrary
direction in log space.  `dd` of a map is its derivative in that direction at
x0.  Jensen's inequality then makes the approximation a lower bound: see
lemmas/Approx.lean (`mono_approx_le`), checked by Lean on every run."""
import z3
from . import engine as E
from . import dicts as D
from . import rt
from . import poly as P
from .contracts import Contract, register
from .dicts import fold_of, deffold
from .engine import KSORT, REAL
from .loops import Source
from .poly import Poly
from .values import SReal, SHash, to_poly
from .specs_arith import gp, ONE
from .specs_nomial import nomial, protect, is_nomial
from .specs_sub import SubsToken
from . import specs_nomial

DvF = z3.Function("DvF", KSORT, REAL)     # x_k * dp/dx_k at x0


def dvterm(k):
    return Poly.z(DvF(D.kterm(k)))


deffold("gl", ("vks",), "add", lambda k, v, p: dvterm(k)*D.Lk(k))
deffold("gl2", ("vks",), "add", lambda k, v, p: dvterm(k)*D.Lk2(k))


class VksSource(Source):
    "the variables of a nomial"
    distinct_keys = True

    def __init__(self, p):
        e = E.eng()
        self.tot = {"n": D.fresh_fold("n", "vks"),
                    "gl": e.fresh_real("gl_vks"),
                    # exchange of the two finite sums (lemma sum_exchange)
                    "gl2": fold_of(p.hmap, "dd")}

    def generic(self):
        self.cur_key = rt.new_key("vk")
        hook = E.eng().ghost.get("vkelem")
        if hook is not None:
            hook(self.cur_key)
        return self.cur_key

    def folds(self):
        return list(self.tot)

    def total(self, f):
        return self.tot[f]

    def contrib(self, f):
        return D.contrib(f, self.cur_key, True)


specs_nomial.VksSet.pv_source = lambda self: VksSource(self.p)


@register
class MonoApprox(Contract):
    name = "gpkit.nomials.math:Signomial.mono_approximation"
    props = ("C04",)
    track = {"hv": ["lmv", "lmv2", "zc", "hx"], "nm": ["ev", "npos", "zc",
                                                       "dd"]}
    assumes = ["mono_approximation: the point has a positive value for every"
               " variable (otherwise the function raises ValueError)",
               "that a posynomial is a finite sum of positive terms"
               " c*exp(a.L), to which lemmas/Approx.lean applies"]
    lemmas = ("Approx.lean",)

    def setup(self, e):
        g = e.ghost
        g["gpow"] = lambda k, x: P.mk_exp(e.norm(D.Lk(k)*x))
        g["valfold"], g["covers"] = "ev", True
        g["dvfun"] = lambda m, k: dvterm(k)
        return specs_nomial.toggle(e)

    def applies(self, p, x0):
        return isinstance(x0, SubsToken) and is_nomial(p)

    def cases(self, e):
        g = gp()
        p = nomial(e, [g.Posynomial, g.Monomial][e.choose(2)], "p")
        n = fold_of(p.hmap, "n")
        e.add(n >= 1)
        # positive coefficients, at least one term
        val = e.fresh_real("p_at_x0", pos=True)
        e.assume_zero(fold_of(p.hmap, "ev") - val)
        fixed = D.PvDict()
        st = D.new_base_state("x0", "g",
                              elem=lambda k: SReal(P.mk_exp(D.Lk(k))))
        st.base.folds0 = dict(st.folds)
        fixed.__dict__["_pv_st"] = st
        e.ghost["fixed"] = fixed

        def given(key):
            if not D.lookup(st, key)[0]:
                raise E.Infeasible()
        e.ghost["vkelem"] = given
        return (p, SubsToken()), {}

    def invoke(self, p, x0):
        return p.mono_approximation(x0)

    def pre(self, p, x0):
        return {"ev": fold_of(p.hmap, "ev"), "dd": fold_of(p.hmap, "dd")}

    def ensures(self, old, r, p, x0):
        hm = r.hmap
        return [("ok", "is a Monomial", type(r) is gp().Monomial),
                ("ok", "in the posynomial's units",
                 hm.units is p.hmap.units),
                ("z", "one term", fold_of(hm, "n") == 1),
                ("eq", "exact value at the point", fold_of(hm, "ev"),
                 old["ev"]),
                ("eq", "exact gradient at the point (any direction)",
                 fold_of(hm, "dd"), old["dd"])]


@register
class MonoLowerBound(MonoApprox):
    name = "gpkit.nomials.math:Posynomial.mono_lower_bound"

    def applies(self, p, x0):
        e = E.eng()
        return is_nomial(p) and (isinstance(x0, SubsToken) or (
            "bounds" in e.ghost and isinstance(x0, dict)))

    def requires(self, p, x0):
        if isinstance(x0, SubsToken):
            return []
        if D.is_symmap(x0):
            return [("z", "approximated at the given point (1 where it gives"
                     " none)", fold_of(x0, "off") == 0)]
        return [("ok", "approximated at the given point", False)]

    def invoke(self, p, x0):
        return p.mono_lower_bound(x0)

    def fresh(self, old, p, x0):
        r = nomial(E.eng(), gp().Monomial, "bound", units=False)
        E.eng().ghost.get("bounds", []).append((p, r))
        r.hmap.__dict__["units"] = r.__dict__["units"] = p.hmap.units
        return r


MonoApprox.fresh = MonoLowerBound.fresh
