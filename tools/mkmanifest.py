#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, claim,
         note=None, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=observe, claim=claim, note=note, reason=reason))


I = ["inputs"]
IH = ["inputs", "histories"]
prop("C01", "Arithmetic on nomials computes the function it denotes",
     "For all monomials, posynomials, signomials, numbers and quantities, the"
     " result of +, -, *, /, unary minus and integer or monomial powers,"
     " evaluated at any positive point, equals the same arithmetic on the"
     " operands' values with units converted. Adding or subtracting operands"
     " of different dimensions raises a dimensionality error, and a product's"
     " or quotient's dimension is the product or quotient of the operands'.",
     I, "all nomials (any number of terms, any exponents and units), all"
     " numbers and quantities, all positive evaluation points",
     "The tests check a few small expressions by comparing printed or stored"
     " forms; merging, cancellation, reflected operands, zero and unit"
     " conversion interact for every number of terms.",
     ["gpkit/nomials/math.py", "gpkit/nomials/map.py",
      "gpkit/small_classes.py", "gpkit/units.py"],
     [("Signomial.__add__/__mul__/__sub__/__truediv__/__neg__,"
       " Monomial.__pow__", "gpkit/nomials/math.py"),
      ("NomialMap sum and unit conversion", "gpkit/nomials/map.py"),
      ("sparse vector sum and product", "gpkit/small_classes.py")],
     ["value of the resulting nomial at a point", "its units"], True)
prop("C02", "Substitution evaluates exactly the chosen variables",
     "Substituting values for some variables of a nomial gives a nomial in the"
     " remaining variables whose value at every point equals the original's"
     " value with the substituted values filled in, whatever the order, and"
     " whether values are numbers, quantities in other units, or monomials"
     " without variables. Substituted variables do not remain, absent names"
     " change nothing, and the original nomial is not modified.",
     I, "all nomials, all sets of substitutions, all orders and value forms",
     "The tests substitute one or two variables at a time; merging of terms,"
     " cancellation, and zero values depend on which terms collide and in"
     " which order.",
     ["gpkit/nomials/map.py", "gpkit/nomials/substitution.py",
      "gpkit/nomials/math.py"],
     [("NomialMap.sub, subinplace", "gpkit/nomials/map.py"),
      ("parse_subs", "gpkit/nomials/substitution.py")],
     ["value of the substituted nomial", "its variables"], True)
prop("C03", "Differentiation follows the power rule, units included",
     "The derivative of any nomial with respect to any of its variables"
     " evaluates at every positive point to the partial derivative of the"
     " nomial's value, expressed in the nomial's units divided by the"
     " variable's. The derivative with respect to an absent variable is zero,"
     " and the nomial is not modified.",
     I, "all nomials, all variables, all positive points",
     "The tests differentiate three small expressions; unit conversion and"
     " vanishing exponents are not sampled together.",
     ["gpkit/nomials/map.py", "gpkit/nomials/math.py"],
     [("NomialMap.diff", "gpkit/nomials/map.py"),
      ("Signomial.diff", "gpkit/nomials/math.py")],
     ["value and units of the derivative"], True)
prop("C04", "Monomial approximation is exact at the point and a lower bound",
     "The monomial approximation of a posynomial at a point has the"
     " posynomial's value and logarithmic gradient at that point, and is"
     " nowhere greater than the posynomial.",
     I, "all posynomials, all positive points, all positive evaluation points",
     "The tests compare two approximations against hand-computed numbers.",
     ["gpkit/nomials/math.py"],
     [("Posynomial.mono_lower_bound", "gpkit/nomials/math.py")],
     ["value, gradient of the approximation"], True)
prop("C05", "Nomials stay canonical, are never modified, and hash by value",
     "Every nomial produced by arithmetic, differentiation or substitution has"
     " like terms merged and no zero exponents, is classed as monomial,"
     " posynomial or signomial according to its terms, and can be looked up by"
     " equal exponents. No operation modifies its operands, and equal nomials"
     " have equal hashes.",
     I, "all nomials and all sequences of operations on them",
     "A stale hash or a shared, modified operand shows only when a later"
     " operation looks the term up; the tests rarely reuse operands.",
     ["gpkit/small_classes.py", "gpkit/nomials/map.py",
      "gpkit/nomials/data.py", "gpkit/nomials/math.py"],
     [("cached hash of the sparse exponent vector", "gpkit/small_classes.py"),
      ("in-place hash updates", "gpkit/nomials/map.py"),
      ("class assignment on construction", "gpkit/nomials/math.py")],
     ["type of results", "lookup by exponents", "operands after the call"],
     True)
prop("C06", "Posynomial constraints compile to an equivalent posynomial <= 1",
     "The compiled form of 'posynomial <= monomial' (either way round, with"
     " any compatible units) is (p/m - k)/(1 - k) <= 1, where k is the"
     " constant part of p/m; a constraint is dropped only if it always holds"
     " to within the feasibility tolerance, and called infeasible only if it"
     " can never hold. A monomial equality compiles to both inequalities,"
     " different dimensions are refused, and the same holds after"
     " substituting constants.",
     I, "all posynomials, monomials, units and substitutions",
     "The tests check specific forms; which constant part appears depends on"
     " which terms are proportional after substitution and unit conversion.",
     ["gpkit/nomials/math.py"],
     [("PosynomialInequality._gen_unsubbed, _simplify_posy_ineq,"
       " as_hmapslt1; MonomialEquality", "gpkit/nomials/math.py")],
     ["compiled posynomials"], True)
prop("C07", "Signomial constraint approximations are conservative and tight",
     "The geometric-programming approximation of a signomial inequality at a"
     " point is exact at that point, and every point that satisfies the"
     " approximation satisfies the original constraint; unspecified variables"
     " are taken at 1. If substitution leaves one negative term, the compiled"
     " constraint is equivalent to the original.",
     I, "all signomial inequalities, all positive points, all substitutions",
     "Tests solve a few signomial programs to the expected optimum; a"
     " non-conservative approximation often converges to the same optimum.",
     ["gpkit/nomials/math.py"],
     [("SignomialInequality.as_gpconstr, as_hmapslt1, Signomial.posy_negy",
       "gpkit/nomials/math.py")],
     ["approximating constraint"], True)
prop("C21", "Unit conversion factors depend only on the units",
     "The unit and conversion factor of a product or quotient of two"
     " quantities or nomials depend only on their units, not on what was"
     " computed before, and conversions compose: converting there and back is"
     " the identity.",
     IH, "all pairs of units, all preceding computations",
     "A cache keyed wrongly gives wrong answers only after particular earlier"
     " calls, which no single test makes.",
     ["gpkit/units.py", "gpkit/nomials/map.py"],
     [("of_product, of_division, division cache", "gpkit/units.py"),
      ("NomialMap.to, units_of_product", "gpkit/nomials/map.py")],
     ["conversion factors", "units of results"], True)


def main():
    here = os.path.join(HERE, "tools", "extra_props.py")
    if os.path.exists(here):
        exec(compile(open(here).read(), here, "exec"), globals())
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [
                    {"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python tools/setup.py",
           "checks": [], "not_applicable": []}
    for p in P:
        if p["claim"]:
            c = "/opt/venv/bin/python check.py %s" % p["id"]
            man["checks"].append({
                "property": p["id"], "quick_cmd": c,
                "thorough_cmd": "VERIF_TIER=thorough " + c,
                "technique": "contract-based deductive verification of the"
                " real functions (pyvc: contracts, loop invariants, frames;"
                " z3), bounded stand-ins for functions out of reach",
                "level": "proof",
                "level_note": p["note"] or (
                    "Contracts of the functions named in the evidence are"
                    " proved for all inputs and iterations over exact real"
                    " arithmetic, from the current source on every run;"
                    " assumes pint's conversions and z3/pyvc. Functions the"
                    " evidence lists under bounded_stand_ins are only"
                    " sampled.")})
        else:
            man["not_applicable"].append({"property": p["id"],
                                          "reason": p["reason"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
