From 0401a9a9ceebd8aa16f36f05ae41fdfc25f4ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 01/37] fix: keep mapping merged monomials through later
 substitutions

Two terms that merge when one variable is substituted were only followed
through one further substitution, so mmap (and the sensitivities derived
from it) lost a share of the merged coefficient.
---
 gpkit/nomials/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..a0ccd67 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -189,3 +189,4 @@ def subinplace(cp, exp, o_exp, vk, cval, squished):
     elif exp in squished:
         exp.hashvalue ^= hash((vk, x))  # remove (key, value) from hashvalue
         del exp[vk]
+        squished.add(exp.copy())  # keep tracking it in later substitutions
-- 
2.43.0


From 21602b6d1ee99b27f64e0b90fcf1f28c5cb4caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 02/37] fix: restore the surrounding state when leaving
 SignomialsEnabled

Leaving a nested environment disabled signomials in the outer one.
---
 gpkit/globals.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..3975a75 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -65,9 +65,14 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
         >>> gpkit.Model(x, constraints).localsolve()
     """
     _true = False  # default signomial permissions
-    # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+    _outer = []  # permissions of the surrounding environments
+
+    def __enter__(self):
+        self._outer.append(SignomialsEnabled._true)
+        SignomialsEnabled._true = True
+
+    def __exit__(self, type_, val, traceback):
+        SignomialsEnabled._true = self._outer.pop()
 
 
 class Vectorize:
-- 
2.43.0


From 9ebc87989fc955a933e90ffaf06b591639a4a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 03/37] fix: nomials raised to the power of zero, and str of
 powers

(x + y)**0 raised AttributeError, and every integer power of a posynomial
recorded (and printed) its exponent as zero.
---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..75a5e01 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -236,10 +236,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = Monomial({})
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From b26712ab15d02a041ee6a8fa77909411fb30a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 04/37] fix: do not key the unit division cache by object ids

Unit quantities are garbage collected, so their ids are reused by other
units and stale conversion factors were returned for them.
---
 gpkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..08ad431 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,7 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        key = (numerator.units, denominator.units)
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From 69ea5e2a8af56f0e1c954eaacd87597441753952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 05/37] fix: do not lose terms when normalizing a posynomial
 inequality

Shifting the exponents in place overwrote any term whose shifted exponents
coincided with those of a term not yet visited: x**2/2 + x/3 <= x became an
empty (always satisfied) constraint.
---
 gpkit/nomials/math.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 75a5e01..f358da0 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -456,9 +456,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        hmap = NomialMap({exp-m_exp: c/m_c for exp, c in p_lt.hmap.items()})
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From bf5cb91aa247ea90a51ca0720308421a805cc571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 06/37] fix: convert coefficients when a derivative becomes
 dimensionless

The units of a derivative were set on the still empty map, so the factor
between commensurable units (e.g. d/dx of a nomial in cm by x in m) was
dropped.
---
 gpkit/nomials/map.py  | 4 +---
 gpkit/nomials/math.py | 2 ++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index a0ccd67..0f37907 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -64,10 +64,8 @@ class NomialMap(HashVector):
         return hmap
 
     def diff(self, varkey):
-        "Differentiates a NomialMap with respect to a varkey"
+        "Differentiates a NomialMap with respect to a varkey, without units"
         out = NomialMap()
-        out.units_of_product(self.units,
-                             1/varkey.units if varkey.units else None)
         for exp in self:
             if varkey in exp:
                 x = exp[varkey]
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index f358da0..f34786c 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -82,6 +82,8 @@ class Signomial(Nomial):
             diff.units = None
         else:
             diff = self.hmap.diff(var)
+            diff.units_of_product(self.hmap.units,
+                                  1/var.units if var.units else None)
         return Signomial(diff, require_positive=False)
 
     def posy_negy(self):
-- 
2.43.0


From 48cd9700519931cdcdf23717ab2ea8d25921a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 07/37] fix: adding to and comparing nomials whose terms have
 all cancelled

y + (x - x) was unsupported and (x - x) == 0 was False.
---
 gpkit/nomials/core.py | 2 ++
 gpkit/nomials/math.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index 9ab109c..11bff3c 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -102,6 +102,8 @@ class Nomial(NomialData):
     def __eq__(self, other):
         "True if self and other are algebraically identical."
         if isinstance(other, Numbers):
+            if not self.hmap:  # all terms have cancelled
+                return other == 0
             return isinstance(self, FixedScalar) and self.value == other
         return super().__eq__(other)
 
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index f34786c..0320547 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -185,7 +185,7 @@ class Signomial(Nomial):
                 return Signomial(self.hmap)
             other_hmap = NomialMap({EMPTY_HV: mag(other)})
             other_hmap.units_of_product(other)
-        if other_hmap:
+        if other_hmap is not None:
             astorder = (self, other)
             if rev:
                 astorder = tuple(reversed(astorder))
-- 
2.43.0


From 1f19bd73a63b6cdac7819d8fc58e3af86cfbfbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 08/37] fix: dividing zero by a monomial

---
 gpkit/nomials/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 0320547..721e3c3 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -313,6 +313,8 @@ class Monomial(Posynomial):
 
     def __rtruediv__(self, other):
         "Divide other by this Monomial"
+        if isinstance(other, Numbers) and not other:  # other is zero
+            return other
         if isinstance(other, Numbers + (Signomial,)):
             out = other * self**-1
             out.ast = ("div", (other, self))
-- 
2.43.0


From 233158846f8ec6388337f7e8147f48b125effa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 09/37] fix: dividing a nomial by a numpy integer

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 721e3c3..c8feb4e 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -229,7 +229,7 @@ class Signomial(Nomial):
     def __truediv__(self, other):
         "Support the / operator in Python 2.x"
         if isinstance(other, Numbers):
-            out = self*other**-1
+            out = self*(1/other)
             out.ast = ("div", (self, other))
             return out
         if isinstance(other, Monomial):
-- 
2.43.0


From b6658e6dd8f2453971498e7add7db6563834400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 10/37] fix: a posynomial constraint whose constant reaches the
 bound is infeasible

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index c8feb4e..922af79 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -432,7 +432,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
+        if coeff <= 0:
             msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
             if fixed:
                 msg += " after substituting %s." % fixed
-- 
2.43.0


From 8aa22334b9b117b6d59d96f8588e3fbcb6997396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 11/37] fix: store vector substitutions as double-precision
 floats

Integers and scalars assigned to a vector were stored in single precision
(0.1 became 0.10000000149), and lists of integers in an integer array that
truncated elements set later.
---
 gpkit/keydict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..a449438 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -226,7 +226,7 @@ class KeyDict(KeyMap, dict):
         if key.shape: # now if we're setting an array...
             if getattr(value, "shape", None):   # is the value an array?
                 if value.dtype == INT_DTYPE:
-                    value = np.array(value, "f")  # convert to float
+                    value = np.array(value, float)
                 if dict.__contains__(self, key):
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
@@ -240,9 +240,11 @@ class KeyDict(KeyMap, dict):
                     return  # successfully set only some indexes!
             elif not is_sweepvar(value): # or needs to be made one?
                 if not hasattr(value, "__len__"):
-                    value = np.full(key.shape, value, "f")
+                    value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
+                    if value.dtype == INT_DTYPE:
+                        value = np.array(value, float)
         super().__setitem__(key, value)
         self.owned.add(key)
 
-- 
2.43.0


From 8633104238fb47e9e87dbca89e4a8b2ca3d5f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 12/37] fix: do not write through arrays shared with another
 KeyDict or the caller

---
 gpkit/keydict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index a449438..292af13 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -149,6 +149,7 @@ class KeyDict(KeyMap, dict):
         "Iterates through the dictionary created by args and kwargs"
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
             super().update(args[0])
+            args[0].owned = set()  # arrays are now shared between the two
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
         else:
@@ -246,7 +247,10 @@ class KeyDict(KeyMap, dict):
                     if value.dtype == INT_DTYPE:
                         value = np.array(value, float)
         super().__setitem__(key, value)
-        self.owned.add(key)
+        if hasattr(value, "copy"):
+            self.owned.discard(key)  # the caller may still write to this
+        else:
+            self.owned.add(key)
 
     def __delitem__(self, key):
         "Overloads del [] to work with all keys"
-- 
2.43.0


From 93951ed04313d95f3ee15d9d3906611efa12d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 13/37] fix: keep a vector's other elements mapped when one is
 deleted

---
 gpkit/keydict.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 292af13..d5a1408 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -254,8 +254,8 @@ class KeyDict(KeyMap, dict):
 
     def __delitem__(self, key):
         "Overloads del [] to work with all keys"
+        self.update_keymap()
         if not hasattr(key, "key"):  # not a keyed object
-            self.update_keymap()
             keys = self.keymap[key]
             if not keys:
                 raise KeyError(key)
@@ -267,9 +267,12 @@ class KeyDict(KeyMap, dict):
             if idx is None:
                 super().__delitem__(key)
             else:
+                self._copyonwrite(veckey)
                 super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
+                if not isnan(super().__getitem__(veckey)).all():
+                    return  # other elements are still in the vector
+                super().__delitem__(veckey)
+                key = veckey
             copiedonwrite = set()  # to save time, .update() does not copy
             mapkeys = set([key])
             if key.keys:
-- 
2.43.0


From 2bec86dc2245579fe821271c6ea68a8bcb044831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 14/37] fix: accept ragged vector sweeps under recent numpy

---
 gpkit/keydict.py              | 6 +++++-
 gpkit/nomials/substitution.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index d5a1408..ab75497 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -243,7 +243,11 @@ class KeyDict(KeyMap, dict):
                 if not hasattr(value, "__len__"):
                     value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
-                    value = np.array([clean_value(key, v) for v in value])
+                    value = [clean_value(key, v) for v in value]
+                    try:
+                        value = np.array(value)
+                    except ValueError:  # ragged, e.g. for a vector sweep
+                        value = np.array(value, dtype=object)
                     if value.dtype == INT_DTYPE:
                         value = np.array(value, float)
         super().__setitem__(key, value)
diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..fabb367 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -45,7 +45,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 pywarnings.filterwarnings("error")
                 try:
                     sub = np.array(sub) if not hasattr(sub, "shape") else sub
-                except Warning:  # pragma: no cover  #TODO: coverage this
+                except (Warning, ValueError):  # pragma: no cover  #TODO: coverage this
                     # ragged nested sequences, eg [[2]], [3, 4]], in py3.7+
                     sub = np.array(sub, dtype=object)
             if key.shape == sub.shape:
-- 
2.43.0


From 030a348ad208bb6af2e260bb1336fa6c76aef842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 15/37] fix: recognize sweep markers that are not the interned
 string

---
 gpkit/small_scripts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..0951c2e 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -51,8 +51,9 @@ def splitsweep(sub):
     "Splits a substitution into (is_sweepvar, sweepval)"
     try:
         sweep, value = sub
-        if sweep is "sweep" and (isinstance(value, Iterable) or  # pylint: disable=literal-comparison
-                                 hasattr(value, "__call__")):
+        if (isinstance(sweep, str) and sweep == "sweep"
+                and (isinstance(value, Iterable)
+                     or hasattr(value, "__call__"))):
             return True, value
     except (TypeError, ValueError):
         pass
-- 
2.43.0


From 3fd964633499235b479b7ad814dedb5b52078ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 16/37] fix: count each variable once in signomial
 sensitivities

---
 gpkit/nomials/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 922af79..dfd07b5 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -614,8 +614,8 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         self._negysig = Signomial(negy_hmap, require_positive=False)
         self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
                            for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: (list(self._negysig.vks)
-                               + list(sig.vks))
+        self._sigvars = {exp: (set(self._negysig.vks)
+                               | set(sig.vks))
                          for exp, sig in self._coeffsigs.items()}
         return p_ineq.as_hmapslt1(substitutions)
 
-- 
2.43.0


From fabae144f53b98daa9593f04bc65147eb96f357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 17/37] fix: relax constraints in nested lists

---
 gpkit/constraints/relax.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..e99d446 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -82,13 +82,14 @@ class ConstraintsRelaxed(ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        self.flat_constraints = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.flat_constraints), "C")
 
         with SignomialsEnabled():
             relaxed_constraints = [
                 c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+                for i, c in enumerate(self.flat_constraints)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
@@ -105,7 +106,7 @@ class ConstraintsRelaxed(ConstraintSet):
                               range(len(self["relaxed constraints"])))
         for relaxval, i in relaxed:
             relax_percent = "%i%%" % (0.5+(relaxval-1)*100)
-            oldconstraint = self.original_constraints[i]
+            oldconstraint = self.flat_constraints[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
             relaxdleft = newconstraint.left.sub(subs)
-- 
2.43.0


From bcb67b051bb4362511dbee8982d1a865b39fbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 18/37] fix: restore the swept variable's substitution after a
 sweep

---
 gpkit/constraints/model.py | 13 +++++++------
 gpkit/tools/autosweep.py   | 29 +++++++++++++++--------------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..3d464b5 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -140,13 +140,14 @@ class Model(CostedConstraintSet):
             original_val = self.substitutions.get(sweepvar, None)
             self.substitutions.update({sweepvar: ('sweep', sweepvals)})
             try:
-                sols.append(self.solve(**solveargs))
-            except InvalidGPConstraint:
-                sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
+                try:
+                    sols.append(self.solve(**solveargs))
+                except InvalidGPConstraint:
+                    sols.append(self.localsolve(**solveargs))
+            finally:
                 del self.substitutions[sweepvar]
+                if original_val is not None:
+                    self.substitutions[sweepvar] = original_val
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..fa719a1 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -231,24 +231,25 @@ def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     solvekwargs["verbosity"] -= 1
     sols = Count().next
     firstsols = []
-    for bound in bounds:
-        model.substitutions.update({sweepvar: bound})
-        try:
-            model.solve(**solvekwargs)
-            firstsols.append(model.program.result)
-        except InvalidGPConstraint:
-            raise InvalidGPConstraint("only GPs can be autoswept.")
-        sols()
-    bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
-    tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    try:
+        for bound in bounds:
+            model.substitutions.update({sweepvar: bound})
+            try:
+                model.solve(**solvekwargs)
+                firstsols.append(model.program.result)
+            except InvalidGPConstraint:
+                raise InvalidGPConstraint("only GPs can be autoswept.")
+            sols()
+        bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
+        tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    finally:
+        del model.substitutions[sweepvar]
+        if original_val is not None:
+            model.substitutions[sweepvar] = original_val
     bst.nsols = sols()  # pylint: disable=attribute-defined-outside-init
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From 5ac1423b3505fbc3775e0938f02e6762fb46b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 19/37] fix: debug models without substitutions

---
 gpkit/constraints/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 3d464b5..798b58e 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -188,7 +188,8 @@ class Model(CostedConstraintSet):
                 sol = feas.sp(use_pccp=False).localsolve(**solveargs)
             # limited results processing
             bounded.check_boundaries(sol)
-            tants.check_relaxed(sol)
+            if self.substitutions:
+                tants.check_relaxed(sol)
         except Infeasible:
             if verbosity:
                 print("<DEBUG> Model is not feasible with relaxed constants"
-- 
2.43.0


From e463c99941fcc1c0012838cebeb64f259cc3127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 20/37] fix: do not reuse the constant term of an earlier,
 unfinished solve

---
 gpkit/nomials/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index dfd07b5..fcb052b 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -467,6 +467,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
     def as_hmapslt1(self, substitutions):
         "Returns the posys <= 1 representation of this constraint."
         out = []
+        if hasattr(self, "const_mmap"):
+            del self.const_mmap  # from a solve that never got to sensitivities
         for posy in self.unsubbed:
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
-- 
2.43.0


From 4243fc13d0323e5539de36e277a2b184317970c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 21/37] fix: un-merge a cost's terms when finding its
 sensitivities

---
 gpkit/constraints/gp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..a03fc31 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -81,9 +81,10 @@ class GeometricProgram:
             if not isinstance(sub, (Numbers, np.ndarray)):
                 raise TypeError("substitution {%s: %s} has invalid value type"
                                 " %s." % (key, sub, type(sub)))
-        cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
+        cost_hmap = cost.hmap.copy().sub(self.substitutions, cost.vks)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
+        self.cost_mmap = cost_hmap.mmap(cost.hmap)  # to un-merge its terms
         hmapgen = ConstraintSet.as_hmapslt1(constraints, self.substitutions)
         self.hmaps = [cost_hmap] + list(hmapgen)
         self.gen()  # Generate various maps into the posy- and monomials
@@ -304,7 +305,11 @@ class GeometricProgram:
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
-        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(self.nu_by_posy[0],
+        cost_nu = np.zeros(len(self.cost.hmap))
+        for nu_i, mmap in zip(self.nu_by_posy[0], self.cost_mmap):
+            for idx, percentage in mmap.items():
+                cost_nu[idx] += percentage*nu_i
+        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(cost_nu,
                                                          self.cost.hmap))
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
-- 
2.43.0


From 67c416e8394d4c1a40c3cedaefb97a416991d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 22/37] fix: recompile an SGP's GP when an approximation
 changes shape

---
 gpkit/constraints/sgp.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..aa0a9dc 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -83,6 +83,7 @@ class SequentialGeometricProgram:
                     constraint.generated_by = cs
                     self.approxconstraints.append(constraint)
                     self.sgpvks.update(constraint.vks)
+                self.sgpvks.update(getattr(cs, "vks", ()))  # some may cancel
         if not self.sgpconstraints:
             raise UnnecessarySGP("""Model valid as a Geometric Program.
 
@@ -93,6 +94,10 @@ solutions and can be solved with 'Model.solve()'.""")
             cost, self.approxconstraints + self.gpconstraints,
             substitutions, checkbounds=checkbounds)
         self._gp.x0 = x0
+        self._gen_a_idxs()
+
+    def _gen_a_idxs(self):
+        "Notes which entries of A belong to each approximated constraint."
         self.a_idxs = defaultdict(list)
         cost_mons = self._gp.k[0]
         sp_mons = sum(self._gp.k[:1+len(self.approxconstraints)])
@@ -220,6 +225,7 @@ solutions and can be solved with 'Model.solve()'.""")
             x0 = KeyDict(x0)
         self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
         p_idx = 0
+        changed_shape = False
         for sgpc in self.sgpconstraints:
             for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
                 approxc = self.approxconstraints[p_idx]
@@ -227,6 +233,11 @@ solutions and can be solved with 'Model.solve()'.""")
                 p_idx += 1  # p_idx=0 is the cost; sp constraints are after it
                 hmap, = approxc.as_hmapslt1(self._gp.substitutions)
                 self._gp.hmaps[p_idx] = hmap
+                if (len(hmap) != self._gp.k[p_idx]
+                        or any(vk not in self._gp.varidxs
+                               for exp in hmap for vk in exp)):
+                    changed_shape = True
+                    continue
                 m_idx = self._gp.m_idxs[p_idx].start
                 a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
                 for i, (exp, c) in enumerate(hmap.items()):
@@ -247,4 +258,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     self._gp.A.row[row_idx] = 0  # zero out this entry
                     self._gp.A.col[row_idx] = 0
                     self._gp.A.data[row_idx] = 0
+        if changed_shape:  # something merged, cancelled, or appeared
+            self._gp.gen()
+            self._gen_a_idxs()
         return self._gp
-- 
2.43.0


From bb0d5bc76419bc6671e3786e2eaeb1a1249df08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 23/37] fix: compile constraints whose terms are all
 substituted to zero

---
 gpkit/nomials/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 0f37907..d7142b8 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -154,8 +154,8 @@ class NomialMap(HashVector):
         origexps = list(orig.keys())
         selfexps = list(self.keys())
         for orig_exp, self_exp in self.expmap.items():
-            if self_exp not in self:  # can occur in tautological constraints
-                continue              #     after substitution
+            if not self.get(self_exp):  # can occur in tautological constraints
+                continue                #     after substitution
             fraction = self.csmap.get(orig_exp, orig[orig_exp])/self[self_exp]
             orig_idx = origexps.index(orig_exp)
             pmap[selfexps.index(self_exp)][orig_idx] = fraction
-- 
2.43.0


From 100059fbbf0428ea2c97c67e1e549f45b4dbec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 24/37] fix: substitute a vector by name when only one of its
 elements is used

---
 gpkit/keydict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index ab75497..79321f7 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -189,7 +189,11 @@ class KeyDict(KeyMap, dict):
         "Overloads __setitem__ and []= to work with all keys"
         # pylint: disable=too-many-boolean-expressions,too-many-branches,too-many-statements
         try:
+            name = None if hasattr(key, "key") else key
             key, idx = self.parse_and_index(key)
+            if (idx and name in key.keys and not is_sweepvar(value)
+                    and np.shape(value) == key.shape):
+                idx = None  # values for a vector with only one element in use
         except KeyError as e:  # may be indexed VectorVariable
             # NOTE: this try/except takes ~4% of the time in this loop
             if not hasattr(key, "shape"):
-- 
2.43.0


From 6156f98b5529c888fe63dca87e0928cc9959369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 25/37] fix: carry a linked variable's whole sensitivity to
 each of its sources

---
 gpkit/constraints/gp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index a03fc31..38ecb7a 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -330,6 +330,7 @@ class GeometricProgram:
         # carry linked sensitivities over to their constants
         for v in list(v for v in gpv_ss if v.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
+            cost_dlogv = cost_senss.get(v, 0)
             val = np.array(result["constants"][v])
             for c, dv_dc in v.gradients.items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
@@ -337,11 +338,10 @@ class GeometricProgram:
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
                     before = gpv_ss.get(c, 0)
                     gpv_ss[c] = before + dlogcost_dlogv*dlogv_dlogc
-                if v in cost_senss:
-                    if c in self.cost.vks:
-                        dlogcost_dlogv = cost_senss.pop(v)
-                        before = cost_senss.get(c, 0)
-                        cost_senss[c] = before + dlogcost_dlogv*dlogv_dlogc
+                if cost_dlogv and c in self.cost.vks:
+                    cost_senss.pop(v, None)  # carried to its sources
+                    before = cost_senss.get(c, 0)
+                    cost_senss[c] = before + cost_dlogv*dlogv_dlogc
         result["sensitivities"]["cost"] = cost_senss
         result["sensitivities"]["variables"] = KeyDict(gpv_ss)
         result["sensitivities"]["constants"] = \
-- 
2.43.0


From f33a737040cc414dbd100ba182f45decfa3c2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 26/37] fix: sort each element of a partly swept vector by
 itself

An element after a swept one was put among the sweeps though constant.
---
 gpkit/nomials/substitution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index fabb367..80a57a3 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -38,6 +38,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
+        sweepel = False
         if not key.shape or not getattr(sub, "shape", hasattr(sub, "__len__")):
             value = sub
         else:
@@ -53,7 +54,6 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 sweepel, sweepval = splitsweep(value)
                 if sweepel:  # if only an element is swept
                     value = sweepval
-                    sweepsub = True
             elif sweepsub:
                 try:
                     np.broadcast(sub, np.empty(key.shape))
@@ -71,7 +71,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                                  (sub.shape, key.veckey, key.shape))
         if hasattr(value, "__call__") and not hasattr(value, "key"):
             linkedsweep[key] = value
-        elif sweepsub:
+        elif sweepsub or sweepel:
             sweep[key] = value
         else:
             try:
-- 
2.43.0


From d2666a09edd407fc446255b6cc34c43880c2a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 27/37] fix: evaluate linked variables at each sweep point from
 constants alone

A linked variable of another linked variable was computed from the latter's
value at the previous point.
---
 gpkit/constraints/prog_factories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..1286b27 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,6 +11,8 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in linked:
+        constants.pop(v, None)  # values from a previous point of a sweep
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
     kdc_plain = None
-- 
2.43.0


From 1b7cb28a60d3651e8a7f886db16ae9c09060ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 28/37] fix: tell an element x[0] from a variable named "x[0]"

Both had the same identifying string, so they were merged into one variable.
---
 gpkit/varkey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 4fe35db..9fb0ec9 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -35,7 +35,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
 
         self.key = self
         fullstr = self.str_without(["modelnums", "vec"])
-        self.eqstr = fullstr + str(self.lineage) + self.unitrepr
+        self.eqstr = (fullstr + str(self.lineage) + str(self.idx or "")
+                      + self.unitrepr)  # "x[0]" may also be a plain name
         self.hashvalue = hash(self.eqstr)
         self.keys = set((self.name, fullstr))
 
-- 
2.43.0


From 9c2429ca132f3434e82f147ec7a9efad3232aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 29/37] fix: refuse swept arrays whose rows do not have the
 variable's shape

---
 gpkit/nomials/substitution.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 80a57a3..fb5c0cf 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -55,9 +55,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 if sweepel:  # if only an element is swept
                     value = sweepval
             elif sweepsub:
-                try:
-                    np.broadcast(sub, np.empty(key.shape))
-                except ValueError:
+                if sub.shape[1:] != key.shape:
                     raise ValueError("cannot sweep variable %s of shape %s"
                                      " with array of shape %s; array shape"
                                      " must either be %s or %s" %
-- 
2.43.0


From 0468963a16dfef009675d74b4bac023e478fe444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 30/37] fix: keep solutions of a sweep aligned when some lack a
 warning or a constraint

---
 gpkit/small_classes.py  | 32 ++++++++++++++++++++++++++------
 gpkit/solution_array.py |  2 ++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..8c95a40 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -88,9 +88,10 @@ class DictOfLists(dict):
         "Appends a dict (of dicts) of lists to all held lists."
         if not hasattr(self, "initialized"):
             _enlist_dict(sol, self)
-            self.initialized = True  # pylint: disable=attribute-defined-outside-init
+            self.initialized = 1  # pylint: disable=attribute-defined-outside-init
         else:
-            _append_dict(sol, self)
+            _append_dict(sol, self, self.initialized)
+            self.initialized += 1
 
     def atindex(self, i):
         "Indexes into each list independently."
@@ -112,16 +113,32 @@ def _enlist_dict(d_in, d_out):
     return d_out
 
 
-def _append_dict(d_in, d_out):
-    "Recursively travels dict d_out and appends items found in d_in."
+def _append_dict(d_in, d_out, n):
+    """Recursively travels dict d_out and appends items found in d_in.
+
+    Items not found in d_in, or not in the n dicts before it, are left blank."""
     for k, v in d_in.items():
         if isinstance(v, dict):
-            d_out[k] = _append_dict(v, d_out[k])
+            held = d_out[k] if k in d_out else v.__class__()
+            d_out[k] = _append_dict(v, held, n)
         else:
+            if k not in d_out:
+                d_out[k] = [_blank(v) for _ in range(n)]
             d_out[k].append(v)
+    for k, held in d_out.items():
+        if k not in d_in:
+            if isinstance(held, dict):
+                _append_dict(held.__class__(), held, n)
+            else:
+                held.append(_blank(held[0]))
     return d_out
 
 
+def _blank(v):
+    "What stands for an item like v in a dict that has none."
+    return [] if isinstance(v, list) else np.full(np.shape(v), np.nan)[()]
+
+
 def _index_dict(idx, d_in, d_out):
     "Recursively travels dict d_in, placing items at idx into dict d_out."
     for k, v in d_in.items():
@@ -144,7 +161,10 @@ def _enray(d_in, d_out):
             if len(v) == 1:
                 v, = v
             else:
-                v = np.array(v)
+                try:
+                    v = np.array(v)
+                except ValueError:  # ragged, e.g. different numbers of warnings
+                    v = np.array(v, dtype=object)
             d_out[k] = v
     return d_out
 
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..bbb8b48 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,6 +237,8 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if len(data) == 0:  # pylint: disable=len-as-condition
+                continue  # no warnings of this type for this solution
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
-- 
2.43.0


From c5b02c0e566799cf8f4aa6d6161135832aa89b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 31/37] fix: look up an element of a vector in a swept solution

---
 gpkit/solution_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index bbb8b48..b787d34 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -613,6 +613,12 @@ class SolutionArray(DictOfLists):
 
     def subinto(self, posy):
         "Returns NomialArray of each solution substituted into posy."
+        key = getattr(posy, "key", None)
+        if (len(self) > 1 and getattr(key, "idx", None)
+                and key.veckey in self["variables"]):
+            # values of several solutions are stacked ahead of a vector's own
+            return self["variables"](key.veckey)[(slice(None),) + key.idx]
+
         if posy in self["variables"]:
             return self["variables"](posy)
 
-- 
2.43.0


From 395b3d69bb3f3e7cee058731a81166eb9857d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:48 +0000
Subject: [PATCH 32/37] fix: relax constants that differ only in units

---
 gpkit/constraints/relax.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index e99d446..1af081f 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -201,9 +201,10 @@ class ConstantsRelaxed(ConstraintSet):
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
             # is proportional to the value relaxvar, and it can't antirelax
-            relaxation_constraints[str(const)] = [relaxvar >= 1,
-                                                  newconst/relaxvar <= freed,
-                                                  freed <= newconst*relaxvar]
+            # constants that differ only in units have the same string
+            relaxation_constraints.setdefault(str(const), []).extend(
+                [relaxvar >= 1,
+                 newconst/relaxvar <= freed, freed <= newconst*relaxvar])
         ConstraintSet.__init__(self, {
             "original constraints": constraints,
             "relaxation constraints": relaxation_constraints})
-- 
2.43.0


From 863084158213f452265a470dad3174c1e33bd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:52 +0000
Subject: [PATCH 33/37] fix: sum arrays holding zeros, multiply arrays whose
 units cancel

---
 gpkit/nomials/array.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..cdc0e86 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV
+from ..small_classes import HashVector
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -154,16 +154,13 @@ class NomialArray(ReprMixin, np.ndarray):
             return np.ndarray.sum(self, *args, **kwargs)
         hmap = NomialMap()
         for p in self.flat:  # pylint:disable=not-an-iterable
-            if not hmap and hasattr(p, "units"):
-                hmap.units = p.units
-            if hasattr(p, "hmap"):
-                hmap += p.hmap
-            else:
-                if hasattr(p, "units"):
-                    p = p.to(hmap.units).magnitude
-                elif hmap.units and p and not np.isnan(p):
-                    p /= float(hmap.units)
-                hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
+            if not hasattr(p, "hmap"):
+                if not p:  # adding zero changes nothing
+                    continue
+                p = Signomial(p, require_positive=False)
+            if not hmap:
+                hmap.units = p.hmap.units
+            hmap += p.hmap
         out = Signomial(hmap)
         out.ast = ("sum", (self, None))
         return out
@@ -174,18 +171,16 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot prod NomialArray of size 0")
         if args or kwargs:
             return np.ndarray.prod(self, *args, **kwargs)
-        c, exp = 1.0, HashVector()
-        hmap = NomialMap()
+        hmap = NomialMap({HashVector(): 1.0})
         for m in self.flat:  # pylint:disable=not-an-iterable
             try:
                 (mexp, mc), = m.hmap.items()
             except (AttributeError, ValueError):
                 return np.ndarray.prod(self, *args, **kwargs)
-            c *= mc
-            exp += mexp
-            if m.units:
-                hmap.units = (hmap.units or 1) * m.units
-        hmap[exp] = c
+            (exp, c), = hmap.items()
+            product = NomialMap({exp + mexp: c*mc})
+            product.units_of_product(hmap.units, m.hmap.units)
+            hmap = product
         out = Signomial(hmap)
         out.ast = ("prod", (self, None))
         return out
-- 
2.43.0


From b05131127770bbe0230326ab834cbd0d2a0c0fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:52 +0000
Subject: [PATCH 34/37] fix: unwrap numpy numbers without the removed np.float

---
 gpkit/nomials/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index cdc0e86..302504c 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -128,7 +128,7 @@ class NomialArray(ReprMixin, np.ndarray):
         if out_arr.ndim:
             return np.ndarray.__array_wrap__(self, out_arr, context)  # pylint: disable=too-many-function-args
         val = out_arr.item()
-        return np.float(val) if isinstance(val, np.generic) else val
+        return float(val) if isinstance(val, np.generic) else val
 
     __eq__ = array_constraint("=", eq)
     __le__ = array_constraint("<=", le)
-- 
2.43.0


From af0b3ecac9321355ed09bcfa96fc2a3f8bb967f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:45 +0000
Subject: [PATCH 35/37] fix: stop dictionaries of variables from writing to
 each other's arrays

---
 gpkit/keydict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 79321f7..6ce83d0 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -147,9 +147,11 @@ class KeyDict(KeyMap, dict):
 
     def update(self, *args, **kwargs):
         "Iterates through the dictionary created by args and kwargs"
+        if args and isinstance(args[0], KeyDict):
+            args[0].owned = set()  # arrays are now shared between the two
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
             super().update(args[0])
-            args[0].owned = set()  # arrays are now shared between the two
+            self.owned = set()
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
         else:
-- 
2.43.0


From 7d5537890a4d61d3435f0b111f850d918564fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:45 +0000
Subject: [PATCH 36/37] fix: hold no name that was only asked for

---
 gpkit/keydict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 6ce83d0..5b93a69 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -268,8 +268,9 @@ class KeyDict(KeyMap, dict):
         if not hasattr(key, "key"):  # not a keyed object
             keys = self.keymap[key]
             if not keys:
+                del self.keymap[key]  # remove blank entry added by defaultdict
                 raise KeyError(key)
-            for k in keys:
+            for k in list(keys):
                 del self[k]
         else:
             key = key.key
@@ -312,4 +313,4 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
-        return self.keymap[key]
+        return self.keymap.get(key, set())
-- 
2.43.0


From ad90caa513b9d284aa744f225305f10302320477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:29 +0000
Subject: [PATCH 37/37] fix: an autosweep's lower bound of exactly one was
 taken for no bound

its logarithm is zero, so cost_at interpolated between the ends instead
---
 gpkit/tools/autosweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index fa719a1..3b041ed 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -92,7 +92,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
         if value < self.bounds[0] or value > self.bounds[1]:
             raise ValueError("query value is outside bounds.")
         bst = self.min_bst(value)
-        if bst.splitlb:
+        if bst.splitlb is not None:  # its logarithm can be zero
             if bound:
                 if bound == "lb":
                     splitcost = np.exp(bst.splitlb)
-- 
2.43.0

