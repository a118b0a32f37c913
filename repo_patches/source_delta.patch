From 206be458acf4cdb32374371a9b7e3f98121ec60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 01/52] fix: accept numpy arrays for outcomes, settings and
 inflation levels, as documented

---
 inflation/InflationProblem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index a90b59d..45417d2 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -86,6 +86,12 @@ class InflationProblem:
         self.verbose = verbose
 
         # Read settings and outcomes
+        if isinstance(outcomes_per_party, np.ndarray):
+            outcomes_per_party = outcomes_per_party.tolist()
+        if isinstance(settings_per_party, np.ndarray):
+            settings_per_party = settings_per_party.tolist()
+        if isinstance(inflation_level_per_source, np.ndarray):
+            inflation_level_per_source = inflation_level_per_source.tolist()
         if not outcomes_per_party:
             raise ValueError("Please provide outcomes per party.")
         self.outcomes_per_party = np.array(outcomes_per_party, dtype=int)
-- 
2.43.0


From b142d08cec9aa671d85e4bf095c39c87658b3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 02/52] fix: rectify_fake_setting accepts lists under numpy 2

---
 inflation/InflationProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index 45417d2..ba1de96 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -748,7 +748,7 @@ class InflationProblem:
             The monomial with the index of the setting representing only the
             private setting.
         """
-        new_mon = np.array(monomial, copy=False)
+        new_mon = np.asarray(monomial)
         for o in new_mon:
             party_index        = o[0] - 1  # Parties start at 1 our notation
             effective_setting  = o[-2]
-- 
2.43.0


From e607435607de3c5e5a381dc8ce2bacfcd8cc3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 03/52] fix: do not mix up reductions with and without
 projector rules in the memo tables

---
 inflation/sdp/InflationSDP.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..fc9ba73 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1610,7 +1610,7 @@ class InflationSDP:
             The canonical form of the input monomial under relabelling through
             the inflation symmetries.
         """
-        key = tuple(lexmon)
+        key = (apply_only_commutations, tuple(lexmon))
         if len(lexmon) == 0 or np.array_equiv(lexmon, 0):
             self.canonsym_lexmon_from_hash[key] = lexmon
             return lexmon
@@ -1622,7 +1622,7 @@ class InflationSDP:
             pass
         canonical_mon = self._to_canonical_memoized_1d(lexmon,
                                                        apply_only_commutations)
-        canonical_key = tuple(canonical_mon)
+        canonical_key = (apply_only_commutations, tuple(canonical_mon))
         try:
             repr_mon = self.canonsym_lexmon_from_hash[canonical_key]
             self.canonsym_lexmon_from_hash[key] = repr_mon
@@ -1630,10 +1630,12 @@ class InflationSDP:
         except KeyError:
             pass
 
-        other_keys, real_repr_lexmon = self._inflation_orbit_and_rep_1d(lexmon)
-        other_keys.append(key)
-        for key in other_keys:
-            self.canonsym_lexmon_from_hash[key] = real_repr_lexmon
+        other_lexmons, real_repr_lexmon = \
+            self._inflation_orbit_and_rep_1d(canonical_mon)
+        for other_lexmon in other_lexmons:
+            self.canonsym_lexmon_from_hash[(apply_only_commutations,
+                                            other_lexmon)] = real_repr_lexmon
+        self.canonsym_lexmon_from_hash[key] = real_repr_lexmon
         return real_repr_lexmon
 
     ###########################################################################
@@ -2271,7 +2273,7 @@ class InflationSDP:
         numpy.ndarray
             Moment in canonical form as 1D array.
         """
-        key = tuple(lexmon)
+        key = (apply_only_commutations, tuple(lexmon))
         try:
             return self.canon_lexmon_from_hash[key]
         except KeyError:
@@ -2285,7 +2287,7 @@ class InflationSDP:
                         self._notcomm, self._orthomat, 
                         self.all_operators_commute,
                         apply_only_commutations=apply_only_commutations)
-                new_key = tuple(new_lexmon)
+                new_key = (apply_only_commutations, tuple(new_lexmon))
                 self.canon_lexmon_from_hash[key]     = new_lexmon
                 self.canon_lexmon_from_hash[new_key] = new_lexmon
                 return new_lexmon
-- 
2.43.0


From 0fbb6d5adf97c328cbb6a1066358474936a03da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 04/52] fix: impose nonnegativity by default only on moments
 that are nonnegative in every model

---
 inflation/sdp/InflationSDP.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index fc9ba73..1cbf6c2 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -370,12 +370,15 @@ class InflationSDP:
                   f"and {self.n_unknowable} unknowable moments.")
 
         if self.all_operators_commute:
-            self.hermitian_moments = self.moments
+            self.hermitian_moments   = self.moments
+            self.nonnegative_moments = self.moments
         else:
-            self.hermitian_moments = [mon for mon in self.moments
-                                      if mon.is_hermitian]
+            self.hermitian_moments   = [mon for mon in self.moments
+                                        if mon.is_hermitian]
+            self.nonnegative_moments = [mon for mon in self.hermitian_moments
+                                        if self._is_nonnegative(mon)]
             if self.verbose > 1:
-                print(f"The problem has {len(self.hermitian_moments)} " +
+                print(f"The problem has {len(self.nonnegative_moments)} " +
                       "non-negative moments.")
 
         # This dictionary useful for certificates_as_probs
@@ -405,7 +408,8 @@ class InflationSDP:
 
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
-        self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self.moment_lowerbounds  = {m: 0. for m in
+                                    self.nonnegative_moments}
 
         self.set_objective(None)
         self.set_values(None)
@@ -1478,6 +1482,21 @@ class InflationSDP:
         representative = np.array(min(output_variants), dtype=np.intc)
         return output_variants, representative
 
+    def _is_nonnegative(self, mon: CompoundMomentSDP) -> bool:
+        """Whether a moment is nonnegative for every state, i.e., whether each
+        of its factors equals its own reversal using commutations alone. Being
+        equal to it up to the inflation symmetries implies that the moment is
+        real, but not that it is nonnegative.
+        """
+        return all(factor.is_all_commuting or
+                   np.array_equal(
+                       self._to_canonical_memoized_1d(
+                           factor.as_lexmon, apply_only_commutations=True),
+                       self._to_canonical_memoized_1d(
+                           reverse_mon(factor.as_lexmon),
+                           apply_only_commutations=True))
+                   for factor in mon.factors)
+
     def _monomial_from_atoms(self,
                              atoms: List[InternalAtomicMonomialSDP]
                              ) -> CompoundMomentSDP:
@@ -1990,7 +2009,8 @@ class InflationSDP:
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
-        self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self.moment_lowerbounds = {m: 0. for m in
+                                    self.nonnegative_moments}
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
-- 
2.43.0


From a3b9266d5ccc7214b9f6810aeffd5abefacc1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 05/52] fix: read back the operator names that the relaxations
 themselves write

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..873a69d 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1193,6 +1193,8 @@ class InflationLP(object):
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
                 or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 1cbf6c2..f7c947f 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1716,6 +1716,8 @@ class InflationSDP:
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
                 or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
-- 
2.43.0


From ebb1e35cccbe17b76f4b3814c8ed6883a2493ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/52] fix: do not repeat the identity column when its block
 is listed twice

---
 inflation/sdp/InflationSDP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f7c947f..f51474b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1795,8 +1795,9 @@ class InflationSDP:
                           disable=not self.verbose):
             if block == []:
                 _id = self.mon_to_lexrepr(self.identity_operator)
-                seen_columns.add(tuple(_id))
-                columns += [_id]
+                if tuple(_id) not in seen_columns:
+                    seen_columns.add(tuple(_id))
+                    columns += [_id]
             else:
                 meas_ops = [
                     np.nonzero(np.logical_and(
-- 
2.43.0


From 77ade48edeefae6446d384e5953df381349a654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 07/52] fix: recognise names in conditional probability form

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 873a69d..5ee3dae 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1196,7 +1196,7 @@ class InflationLP(object):
         if factor_string in self.op_from_name:
             return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f51474b..ace6207 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1719,7 +1719,7 @@ class InflationSDP:
         if factor_string in self.op_from_name:
             return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
-- 
2.43.0


From a24d52198e4236a89ea1d29c88391e6b8ed53e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 08/52] fix: normalisation equalities of parties with children
 and a single outcome

---
 inflation/sdp/InflationSDP.py  | 9 +++------
 inflation/sdp/quantum_tools.py | 6 ++++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index ace6207..01bf305 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -7,10 +7,9 @@ instance (see arXiv:1909.10519).
 from collections import Counter, deque, defaultdict
 from functools import reduce, cached_property
 from gc import collect
-from itertools import chain, count, product, repeat, combinations
+from itertools import chain, count, product, combinations
 from operator import neg as op_neg
 from numbers import Real
-from operator import itemgetter
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
 
@@ -400,10 +399,8 @@ class InflationSDP:
                       len(self.idx_level_equalities))
             for (norm_idx, summation_idxs) in self.idx_level_equalities:
                 eq_dict = {self.compmoment_from_idx[norm_idx]: 1}
-                eq_dict.update(zip(
-                    itemgetter(*summation_idxs)(self.compmoment_from_idx),
-                    repeat(-1)
-                ))
+                eq_dict.update((self.compmoment_from_idx[idx], -1)
+                               for idx in summation_idxs)
                 self.minimal_equalities.append(eq_dict)
 
         self.minimal_inequalities = []
diff --git a/inflation/sdp/quantum_tools.py b/inflation/sdp/quantum_tools.py
index 33fcd06..9cedf10 100644
--- a/inflation/sdp/quantum_tools.py
+++ b/inflation/sdp/quantum_tools.py
@@ -313,9 +313,11 @@ def construct_normalization_eqs(column_equalities: List[Tuple[int, List[int]]],
             (normalization_col, summation_cols) = equality
             norm_idx       = row[normalization_col]
             summation_idxs = row[summation_cols]
-            if summation_idxs.all():
+            if summation_idxs.all() and summation_idxs.tolist() != [norm_idx]:
                 summation_idxs.sort()
-                seen_already.add(tuple(summation_idxs.flat))
+                key = tuple(summation_idxs.flat)
+                # A single summand does not determine what it is equal to
+                seen_already.add(key if len(key) > 1 else (norm_idx, *key))
                 if len(seen_already) > nof_seen_already:
                     equalities.append((norm_idx, summation_idxs.tolist()))
                     nof_seen_already += 1
-- 
2.43.0


From 0ed9150b059ac2b1c47e04aff2dd3d3577660902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 09/52] fix: impose every normalisation equality between
 columns of the generating set

---
 inflation/sdp/InflationSDP.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 01bf305..db78cb2 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1860,15 +1860,16 @@ class InflationSDP:
                                 for m in group], dtype=np.intc)    
         
         column_level_equalities = []
-        for i, lexmon in enumerate(self.generating_monomials_1d):
+        for lexmon in self.generating_monomials_1d:
             last_outcome_ops = last_outcome_boolmask[lexmon]
             if last_outcome_ops.sum() > 0:
                 eqs = []
-                for i, op in enumerate(lexmon):
-                    if last_outcome_ops[i]:
-                        lhs = np.delete(lexmon, i)  # returns new copy
+                for j, op in enumerate(lexmon):
+                    if last_outcome_ops[j]:
+                        lhs = self._to_canonical_memoized_1d(
+                            np.delete(lexmon, j))  # returns new copy
                         rhs = np.vstack((lexmon,)*len(lexmon_to_orthogroup[op]))
-                        rhs[:, i] = lexmon_to_orthogroup[op]
+                        rhs[:, j] = lexmon_to_orthogroup[op]
                         eqs += [(lhs, list(rhs))]
                 for eq in eqs:
                     try:
@@ -1877,7 +1878,7 @@ class InflationSDP:
                                         for m in eq[1]])
                         column_level_equalities += [tuple(eq_idxs)]
                     except KeyError:
-                        break
+                        continue
         return column_level_equalities
 
     def _discover_columns_symmetries(self) -> np.ndarray:
-- 
2.43.0


From 65737a4e8c5c9e71cc9b2e5e7c0eb2f89447498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 10/52] fix: pass the extra equalities and inequalities to the
 solver of the semidefinite program

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index db78cb2..d045436 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2181,10 +2181,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From e5c83af9edef6c6aa315311776c7d201a602f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 11/52] fix: objectives that contain linearised moments

---
 inflation/sdp/InflationSDP.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d045436..bbd8fc7 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2056,11 +2056,10 @@ class InflationSDP:
                                     ).intersection(
                                         self._processed_objective.keys())
         for mon in semiknowns_to_process:
-            coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
+            coeff = self._processed_objective.pop(mon)
+            subs_coeff, subs = self.semiknown_moments[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From f1d231aa70045019a371ef0ad10ab1473350774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 12/52] fix: do not use the atoms of an earlier relaxation
 after generating a new one

---
 inflation/sdp/InflationSDP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index bbd8fc7..4cae751 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -292,6 +292,11 @@ class InflationSDP:
               list needs to have the identity ``sympy.S.One`` as the first
               element.
         """
+        # Forget what was cached about a previously generated relaxation
+        for attribute in {"atomic_factors", "atomic_monomials",
+                          "atom_from_name", "knowable_atoms",
+                          "do_conditional_atoms"}:
+            self.__dict__.pop(attribute, None)
         self.atomic_monomial_from_hash  = dict()
         self.monomial_from_atoms        = dict()
         self.monomial_from_name         = dict()
-- 
2.43.0


From cca6eadf6f0f762a26aac895eef3073ce455227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 13/52] fix: resetting the values restores the objective they
 were substituted in

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 4cae751..904cb7e 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2041,6 +2041,7 @@ class InflationSDP:
         self.known_moments[self.One] = 1.
         self.extra_equalities = []
         self.extra_inequalities = []
+        self._update_objective()
         collect()
 
     def _update_objective(self) -> None:
-- 
2.43.0


From 25e9ee7a7379696be7544db5c81ce92004c2fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 14/52] fix: drop linearised constraints when updating values
 without them

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 5ee3dae..75c0edc 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -412,6 +412,8 @@ class InflationLP(object):
         self._reset_solution()
 
         self.use_lpi_constraints = use_lpi_constraints
+        if not self.use_lpi_constraints:
+            self.semiknown_moments = dict()
 
         if (len(self.objective) > 1) and self.use_lpi_constraints:
             warn("You have an objective function set. Be aware that imposing "
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 904cb7e..62f9101 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -679,6 +679,8 @@ class InflationSDP:
         self._reset_solution()
 
         self.use_lpi_constraints = use_lpi_constraints
+        if not self.use_lpi_constraints:
+            self.semiknown_moments = dict()
 
         if (len(self.objective) > 1) and self.use_lpi_constraints:
             warn("You have an objective function set. Be aware that imposing "
-- 
2.43.0


From ecc8d173a77f349e28b8d2f06f75d907aa80a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 15/52] fix: forget the solution when extra constraints change,
 and whether it was successful

---
 inflation/lp/InflationLP.py   | 5 ++++-
 inflation/sdp/InflationSDP.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 75c0edc..2c7bad6 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -520,6 +520,7 @@ class InflationLP(object):
             The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_equalities = []  # Reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -537,6 +538,7 @@ class InflationLP(object):
              constraints. The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # Reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
@@ -1726,7 +1728,8 @@ class InflationLP(object):
         relaxation."""
         for attribute in {"primal_objective",
                           "objective_value",
-                          "solution_object"}:
+                          "solution_object",
+                          "success"}:
             try:
                 delattr(self, attribute)
             except AttributeError:
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 62f9101..6a07e2a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -430,6 +430,7 @@ class InflationSDP:
             (keys can be instances of `CompoundMonomial`, Symbols, strings, or
             integers), or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_equalities = []  # reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -447,6 +448,7 @@ class InflationSDP:
             dictionaries (keys can be instances of `CompoundMonomial`, Symbols,
             strings, or integers) or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
@@ -2214,7 +2216,8 @@ class InflationSDP:
         relaxation."""
         for attribute in {"primal_objective",
                           "objective_value",
-                          "solution_object"}:
+                          "solution_object",
+                          "success"}:
             try:
                 delattr(self, attribute)
             except AttributeError:
-- 
2.43.0


From 91b178be64561ea4cb97d42ceb99e378afa5bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 16/52] fix: the support of an earlier distribution does not
 outlive it

---
 inflation/lp/InflationLP.py   |  9 +++++++--
 inflation/sdp/InflationSDP.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 2c7bad6..1d6e8c5 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1353,6 +1353,7 @@ class InflationLP(object):
                                  for mon in self.monomials}
         self.names_to_symbols[self.constant_term_name] = sp.S.One
 
+        self._supported_moments = set()
         self._set_lowerbounds(None)
         self._set_upperbounds(None)
         self.set_objective(None)
@@ -1678,6 +1679,7 @@ class InflationLP(object):
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
                 self.moment_lowerbounds[mon] = 1.
+                self._supported_moments.add(mon)
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
         num_nontrivial_known = len(self.known_moments)
@@ -1700,7 +1702,7 @@ class InflationLP(object):
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
-        self.moment_lowerbounds = dict()
+        self.moment_lowerbounds = {mon: 1. for mon in self._supported_moments}
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
@@ -1716,6 +1718,9 @@ class InflationLP(object):
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        for mon in self._supported_moments:
+            self.moment_lowerbounds.pop(mon, None)
+        self._supported_moments = set()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
@@ -2039,7 +2044,7 @@ class InflationLP(object):
                 assert np.isclose(old_bound, lowerbound), \
                     (f"Contradiction: Cannot set the same monomial {mon} to " +
                      "have different lower bounds.")
-        self.moment_lowerbounds = sanitized_lowerbounds
+        self.moment_lowerbounds.update(sanitized_lowerbounds)
 
     def mon_to_boolvec(self, mon: np.ndarray) -> np.ndarray:
         """Convert a monomial to a boolean vector.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6a07e2a..39fa1c2 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -413,6 +413,7 @@ class InflationSDP:
         self.moment_lowerbounds  = {m: 0. for m in
                                     self.nonnegative_moments}
 
+        self._supported_moments = set()
         self.set_objective(None)
         self.set_values(None)
 
@@ -1995,6 +1996,7 @@ class InflationSDP:
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
                 self.moment_lowerbounds[mon] = 1.
+                self._supported_moments.add(mon)
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
 
@@ -2021,6 +2023,8 @@ class InflationSDP:
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in
                                     self.nonnegative_moments}
+        self.moment_lowerbounds.update((m, 1.)
+                                       for m in self._supported_moments)
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
@@ -2038,6 +2042,12 @@ class InflationSDP:
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        for mon in self._supported_moments:
+            if mon in self.nonnegative_moments:
+                self.moment_lowerbounds[mon] = 0.
+            else:
+                self.moment_lowerbounds.pop(mon, None)
+        self._supported_moments = set()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         if self.momentmatrix_has_a_zero:
-- 
2.43.0


From 56503b6277c9c4e614fb0014275df126e0de8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 17/52] fix: keep polynomials that consist of a constant only

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 1d6e8c5..0fe4d19 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1130,7 +1130,7 @@ class InflationLP(object):
             if input_dict.free_symbols:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {1: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 39fa1c2..0f855c7 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1607,7 +1607,7 @@ class InflationSDP:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(
                     input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {1: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
-- 
2.43.0


From 16305b17a82155fd818d96e692eaf0bd159e443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 18/52] fix: optimise the objective of linear programs when
 feas_as_optim is set too

---
 inflation/lp/InflationLP.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 0fe4d19..d7f0382 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -580,6 +580,15 @@ class InflationLP(object):
             given by ``_prepare_solver_arguments()``. However, a user may
             manually override these arguments by passing their own here.
         """
+        # Still allow for 'feas_as_optim' as an argument
+        if 'feas_as_optim' in solver_arguments:
+            if solver_arguments["feas_as_optim"]:
+                relax_known_vars = False
+                relax_inequalities = True
+                del solver_arguments["feas_as_optim"]
+            else:
+                relax_known_vars = relax_inequalities = False
+                del solver_arguments["feas_as_optim"]
         if (relax_known_vars or relax_inequalities) and \
                 len(self.objective) > 0:
             warn("You have a non-trivial objective, but set to solve a "
@@ -597,16 +606,6 @@ class InflationLP(object):
             real_default_non_negative = default_non_negative
 
         args = self._prepare_solver_matrices()
-        
-        # Still allow for 'feas_as_optim' as an argument
-        if 'feas_as_optim' in solver_arguments:
-            if solver_arguments["feas_as_optim"]:
-                relax_known_vars = False
-                relax_inequalities = True
-                del solver_arguments["feas_as_optim"]
-            else:
-                relax_known_vars = relax_inequalities = False
-                del solver_arguments["feas_as_optim"]
         args.update(solver_arguments)
 
         args.update({"relax_known_vars": relax_known_vars,
-- 
2.43.0


From f177bcb86575a1aad4350aeae89be6a4de0d0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 19/52] fix: linear programs with empty rows

---
 inflation/lp/lp_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..f4cd3f6 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -26,9 +26,8 @@ def drop_zero_rows(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     nz_rows, new_row = np.unique(coo_mat.row, return_inverse=True)
-    coo_mat.row = new_row
-    coo_mat = coo_mat.reshape((len(nz_rows), coo_mat.shape[1]))
-    return coo_mat
+    return coo_array((coo_mat.data, (new_row, coo_mat.col)),
+                     shape=(len(nz_rows), coo_mat.shape[1]))
 
 
 def canonical_order(coo_mat: coo_array):
-- 
2.43.0


From 62897db5e6500b28258460fb350f9c654bd3d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 20/52] fix: omitted arguments of solveLP

---
 inflation/lp/lp_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index f4cd3f6..c6b6008 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -123,7 +123,9 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                                       "arguments are of mixed form."
         solver_args.update(convert_dicts(**solver_args))
     solver_args.pop("semiknown_vars", None)
-    return solveLP_sparse(**solver_args)
+    # Arguments that were not given take the defaults of solveLP_sparse
+    return solveLP_sparse(**{k: v for k, v in solver_args.items()
+                             if v is not None})
 
 
 blank_coo_array = coo_array((0, 0), dtype=np.int8)
-- 
2.43.0


From 55063977f126db03e4acaed0478acd2376de101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 21/52] fix: the dual of a linear program with lower bounds
 below zero

---
 inflation/lp/lp_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index c6b6008..099ed4d 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -341,7 +341,9 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
                 # Set constraint bounds corresponding to primal variable bounds
                 if default_non_negative:
-                    bkc = np.broadcast_to(mosek.boundkey.lo, nof_dual_constraints)
+                    bkc = np.repeat(mosek.boundkey.lo, nof_dual_constraints)
+                    # An explicit lower bound replaces the default one
+                    bkc[np.asarray(lower_bounds.col)] = mosek.boundkey.fx
                 else:
                     bkc = np.broadcast_to(mosek.boundkey.fx, nof_dual_constraints)
 
-- 
2.43.0


From 76d6a8d38bcaa25ce69dd42a47bbc779dcce2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 22/52] fix: return the moment matrix when solving semidefinite
 programs in dual form

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..debdba2 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -353,7 +353,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs += ci
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From 4e2a30c6dba0eb7dfe9481aaf9e5ed8678e5960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 23/52] fix: sign of the dual matrix when solving semidefinite
 programs in primal form

---
 inflation/sdp/sdp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index debdba2..63bb864 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -459,7 +459,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 x_values = dict(zip(variables, x_mosek.level()))
                 if mask_matrices:
-                    ymat = G.dual().reshape([mat_dim, mat_dim])
+                    # MOSEK changes the sign of dual variables in maximisations
+                    ymat = -G.dual().reshape([mat_dim, mat_dim])
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
-- 
2.43.0


From d9ca1e6033daad1f8bcbbeb2b4405a92fb6ca63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 24/52] fix: linearised moments proportional to fixed moments
 in semidefinite programs

---
 inflation/sdp/sdp_utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 63bb864..0484113 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -207,10 +207,6 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         Fi[lam] = -1 * eye(mat_dim).tolil()
         var_objective = {lam: 1}
 
-    # Calculate F0, the constant part of the matrix variable.
-    F0 = coo_array((mat_dim, mat_dim), dtype=float)
-    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
-
     if process_constraints:
         # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
         # the expression a_i*(Fi of x_i).
@@ -232,13 +228,18 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                 inequality[x2] = inequality.get(x2, 0) + c * val
 
             variables.remove(x)
-            variables.add(x2)
+            if x2 not in known_vars:
+                variables.add(x2)
 
     else:
         # Just add semiknown constraints as equality constraints.
         for x, (c, x2) in semiknown_vars.items():
             var_equalities.append({x: 1, x2: -c})
-            variables.add(x2)
+            variables.update({x, x2}.difference(known_vars))
+
+    # Calculate F0, the constant part of the matrix variable.
+    F0 = coo_array((mat_dim, mat_dim), dtype=float)
+    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
 
     # Calculate c0, the constant part of the var_objective.
     c0 = 0. + float(sum([var_objective[x] * known_vars[x]
-- 
2.43.0


From ab85d12f13a80661073301a74349ebe662f51ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 25/52] fix: keep the objective in certificates of semidefinite
 programs

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 0484113..d393f32 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -515,7 +515,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From dde758e0d540c2a3923eb046e090ebca327a69c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 26/52] fix: no objective in certificates of infeasible
 semidefinite programs

---
 inflation/sdp/sdp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index d393f32..d40634a 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -506,8 +506,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         if status_str in ["feasible", "infeasible"]:
             certificate = {x: 0 for x in known_vars}
 
-            # c0(P(a...|x...))
-            if not feas_as_optim:
+            # c0(P(a...|x...)), not part of a proof of infeasibility
+            if status_str == "feasible" and not feas_as_optim:
                 for x in set(var_objective).intersection(known_vars):
                     certificate[x] += var_objective[x]
 
-- 
2.43.0


From 5bacca00e45296570955e8bdb60feb699cacec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 27/52] fix: name clash of the eigenvalue variable with a fixed
 variable

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index d40634a..f973214 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -201,7 +201,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                   + " to maximize the smallest eigenvalue of the matrix"
                   + " variable.")
         lam = "lambda"
-        while lam in variables:
+        while lam in variables or lam in known_vars:
             lam += "_"
         variables.add(lam)
         Fi[lam] = -1 * eye(mat_dim).tolil()
-- 
2.43.0


From 1ac28775ff257e8c3ba34709e54abb33a120a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 28/52] fix: the objective entered certificates of infeasible
 and relaxed linear programs

---
 inflation/lp/lp_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 099ed4d..1e0ff6b 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -517,9 +517,11 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             cert_row = [0] * nof_primal_variables
             cert_col = [*range(nof_primal_variables)]
             cert_data = np.zeros((nof_primal_variables,))
-            obj_data = objective.toarray().ravel()
-            objective_unknown_cols = np.setdiff1d(objective.col, known_vars.col)
-            cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
+            if success and not (relax_known_vars or relax_inequalities):
+                # The objective plays no role in proofs of infeasibility
+                obj_data = objective.toarray().ravel()
+                objective_unknown_cols = np.setdiff1d(objective.col, known_vars.col)
+                cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
             cert_data[known_vars.col] = y_values[:nof_known_vars] # Assumes known values coded as equalities
             if relax_known_vars:
                 cert_data[known_vars.col] += y_values[nof_known_vars:(2*nof_known_vars)]
-- 
2.43.0


From 89e207e446332c215d3a2e041c7f15ae6fdaf46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 29/52] fix: certificates lost a constant when two names denote
 the same monomial

---
 inflation/lp/InflationLP.py   | 9 +++++++--
 inflation/sdp/InflationSDP.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index d7f0382..c70af42 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -677,8 +677,13 @@ class InflationLP(object):
             return dict()
         if clean:
             dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+        # Several names (e.g. those of the constants) may denote one monomial
+        polynomial = dict()
+        for k, v in dual.items():
+            mon = self.monomial_from_name[k]
+            if not mon.is_zero:
+                polynomial[mon] = polynomial.get(mon, 0) + v
+        return polynomial
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 0f855c7..7258fc1 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -891,8 +891,13 @@ class InflationSDP:
             return dict()
         if clean:
             dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+        # Several names (e.g. those of the constants) may denote one monomial
+        polynomial = dict()
+        for k, v in dual.items():
+            mon = self.monomial_from_name[k]
+            if not mon.is_zero:
+                polynomial[mon] = polynomial.get(mon, 0) + v
+        return polynomial
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
-- 
2.43.0


From 94b2933468e60b46ec5b990edcf247fc2e92faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 30/52] fix: cleaning of coefficients that are all small, or
 integers, or close to the tolerance

---
 inflation/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..58f820f 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -79,16 +79,18 @@ def clean_coefficients(cert: Dict[str, float],
     if not cert:
         return cert
     chop_tol = np.abs(chop_tol)
-    coeffs = np.asarray(list(cert.values()))
-    if chop_tol > 0:
-        # Try to take the smallest nonzero one and make it 1, when possible
-        normalising_factor = np.min(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    else:
-        # Take the largest nonzero one and make it 1
-        normalising_factor = np.max(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    coeffs /= normalising_factor
+    coeffs = np.array(list(cert.values()), dtype=float)
     # Set to zero very small coefficients
     coeffs[np.abs(coeffs) <= chop_tol] = 0
+    nonzero_coeffs = np.abs(coeffs[coeffs != 0])
+    if nonzero_coeffs.size:
+        if chop_tol > 0:
+            # Try to take the smallest nonzero one and make it 1, when possible
+            normalising_factor = np.min(nonzero_coeffs)
+        else:
+            # Take the largest nonzero one and make it 1
+            normalising_factor = np.max(nonzero_coeffs)
+        coeffs /= normalising_factor
     # Round
     coeffs = np.round(coeffs, decimals=round_decimals)
     return dict(zip(cert.keys(), coeffs.flat))
-- 
2.43.0


From 881fda36953bbbfefa0ec201c8d047cf417fbf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 31/52] fix: string form of empty certificates of semidefinite
 programs

---
 inflation/sdp/InflationSDP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 7258fc1..3414ec4 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -988,8 +988,11 @@ class InflationSDP:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-        return polynomial_as_str[1:] if polynomial_as_str[
-                                            0] == "+" else polynomial_as_str
+        if not len(polynomial_as_str):  # Failsafe for empty dictionary.
+            polynomial_as_str = "0"
+        elif polynomial_as_str[0] == "+":
+            polynomial_as_str = polynomial_as_str[1:]
+        return polynomial_as_str
 
     def certificate_as_string(self,
                               clean: bool = True,
-- 
2.43.0


From b60503a6740b2b34a81f7cf0fcdcec05a9f29f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 32/52] fix: products of moments given by name or symbol were
 read as joint moments

---
 inflation/lp/InflationLP.py     | 41 +++++++++++++++++++++++++++++++++
 inflation/sdp/InflationSDP.py   | 37 +++++++++++++++++++++++++++++
 inflation/sdp/monomial_utils.py | 25 ++++++++++++++++++++
 3 files changed, 103 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index c70af42..bdd7ddb 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -25,6 +25,7 @@ from .numbafied import (nb_outer_bitwise_or,
                         nb_outer_bitwise_xor)
 from .writer_utils import write_to_lp, write_to_mps
 from ..sdp.fast_npa import nb_is_knowable as is_knowable
+from ..sdp.monomial_utils import moments_from_product_name
 from ..sdp.quantum_tools import flatten_symbolic_powers
 from ..utils import clean_coefficients, eprint, partsextractor, \
     expand_sparse_vec
@@ -1082,6 +1083,10 @@ class InflationLP(object):
             try:
                 return self.monomial_from_symbol[mon]
             except KeyError:
+                product = self._interpret_product(mon)
+                if product:
+                    return self._monomial_from_atoms(
+                        [atom for term in product for atom in term.factors])
                 symbols = flatten_symbolic_powers(mon)
                 if len(symbols) == 1:
                     try:
@@ -1106,6 +1111,10 @@ class InflationLP(object):
             try:
                 return self.monomial_from_name[mon]
             except KeyError:
+                product = self._interpret_product(mon)
+                if product:
+                    return self._monomial_from_atoms(
+                        [atom for term in product for atom in term.factors])
                 print(f"As of now we only recognize \n{list(self.monomial_from_name.keys())}")
                 return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, Real):
@@ -1182,6 +1191,38 @@ class InflationLP(object):
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _interpret_product(self,
+                           monomial: Union[str, sp.core.symbol.Expr]) -> List:
+        """Read products of moments, which are passed either as a string or as
+        a SymPy expression.
+
+        Parameters
+        ----------
+        monomial : Union[str, sympy.core.symbol.Expr]
+            Input moment.
+
+        Returns
+        -------
+        List
+            The moments that are multiplied, or an empty list if the input is
+            not a product of two or more moments.
+        """
+        if isinstance(monomial, str):
+            if monomial in self.monomial_from_name:
+                return []
+            factors = moments_from_product_name(monomial)
+        else:
+            if monomial in self.monomial_from_symbol:
+                return []
+            factors = flatten_symbolic_powers(monomial)
+            if not all(factor in self.monomial_from_symbol
+                       or moments_from_product_name(str(factor))
+                       for factor in factors):
+                return []
+        if len(factors) < 2:
+            return []
+        return [self._sanitise_monomial(factor) for factor in factors]
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 3414ec4..7e64fd9 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -24,6 +24,7 @@ from .fast_npa import (reverse_mon,
                        to_canonical_1d_internal
                        )
 from .monomial_classes import InternalAtomicMonomialSDP, CompoundMomentSDP
+from .monomial_utils import moments_from_product_name
 from .quantum_tools import (apply_inflation_symmetries,
                             calculate_momentmatrix_1d_internal,
                             construct_normalization_eqs,
@@ -1597,6 +1598,10 @@ class InflationSDP:
                 self.mon_to_lexrepr(array))
             return self.Moment_1d(canon_lexmon)
         elif isinstance(moment, (str, sp.core.symbol.Expr)):
+            product = self._interpret_product(moment)
+            if product:
+                return self._monomial_from_atoms(
+                    [atom for mon in product for atom in mon.factors])
             return self._sanitise_moment(self._interpret_name(moment))
         elif isinstance(moment, Real):
             if np.isclose(float(moment), 1):
@@ -1712,6 +1717,38 @@ class InflationSDP:
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _interpret_product(self,
+                           monomial: Union[str, sp.core.symbol.Expr]) -> List:
+        """Read products of moments, which are passed either as a string or as
+        a SymPy expression.
+
+        Parameters
+        ----------
+        monomial : Union[str, sympy.core.symbol.Expr]
+            Input moment.
+
+        Returns
+        -------
+        List
+            The moments that are multiplied, or an empty list if the input is
+            not a product of two or more moments.
+        """
+        if isinstance(monomial, str):
+            if monomial in self.monomial_from_name:
+                return []
+            factors = moments_from_product_name(monomial)
+        else:
+            if monomial in self.monomial_from_symbol:
+                return []
+            factors = flatten_symbolic_powers(monomial)
+            if not all(factor in self.monomial_from_symbol
+                       or moments_from_product_name(str(factor))
+                       for factor in factors):
+                return []
+        if len(factors) < 2:
+            return []
+        return [self._sanitise_moment(factor) for factor in factors]
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
diff --git a/inflation/sdp/monomial_utils.py b/inflation/sdp/monomial_utils.py
index f3bd8c2..5427060 100644
--- a/inflation/sdp/monomial_utils.py
+++ b/inflation/sdp/monomial_utils.py
@@ -105,6 +105,31 @@ def symbol_from_atom_name(atomic_name: str) -> sympy.core.symbol.Symbol:
         return sympy.Symbol(new_name, commutative=True)
 
 
+def moments_from_product_name(name: str) -> List[str]:
+    """Split the name of a product of moments, as composed by
+    ``name_from_atom_names``, into the names of the moments that are multiplied.
+
+    Parameters
+    ----------
+    name : str
+        The name of a product, e.g., ``"P[A=0]^2*P[B=0]"``.
+
+    Returns
+    -------
+    List[str]
+        The names of the moments, repeated according to their powers, or an
+        empty list if some factor is not the name of a moment.
+    """
+    names = []
+    for factor in name.split("*"):
+        base, power = re.fullmatch(r"(.*?)(?:(?<=[\]>)])\^(\d+))?", factor).groups()
+        if not (base.startswith(("<", "P[", "p[", "P(", "p("))
+                or re.fullmatch(r"p\w+\([^()]*\|[^()]*\)", base)):
+            return []
+        names.extend([base] * int(power or 1))
+    return names
+
+
 def symbol_prod(atomic_symbols: List[sympy.core.symbol.Symbol]
                 ) -> sympy.core.mul.Mul:
     """Computes the product of a list of sympy symbols.
-- 
2.43.0


From 818bd8715c486f516de7033d8cc6f180b54b5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 33/52] fix: symbols and legacy names of conjugated factors

---
 inflation/sdp/monomial_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 2e553cf..bd5a0ea 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -8,6 +8,7 @@ import numpy as np
 from functools import total_ordering, cached_property
 from typing import Tuple
 
+from .monomial_utils import symbol_from_atom_name
 from ..lp.monomial_classes import InternalAtomicMonomial as InternalAtomicMonomialLP
 from ..lp.monomial_classes import CompoundMoment as CompoundMomentLP
 
@@ -99,8 +100,9 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
             dagger.as_lexmon = self.conjugate_lexmon
             dagger.signature = (self.n_operators, tuple(self.conjugate_lexmon))
             dagger.as_2d_array = self.context._lexorder[self.conjugate_lexmon]
-            dagger.name = "<" + " ".join(
-                self.context._lexrepr_to_names[dagger.as_lexmon]) + ">"
+            dagger.name = dagger._name
+            dagger.legacy_name = dagger._raw_name
+            dagger.symbol = symbol_from_atom_name(dagger.name)
             return dagger
         
 class CompoundMomentSDP(CompoundMomentLP):
-- 
2.43.0


From a79f8dc4084d4592f8a798e1e8fd89e82e4643f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 34/52] fix: conjugated factors in products of moments given by
 name or symbol

---
 inflation/lp/InflationLP.py   | 45 ++++++++++++++++++--------------
 inflation/sdp/InflationSDP.py | 49 +++++++++++++++++++++++------------
 2 files changed, 59 insertions(+), 35 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index bdd7ddb..e737763 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -257,6 +257,11 @@ class InflationLP(object):
             lookup_dict[atom.legacy_name] = atom
         return lookup_dict
 
+    @cached_property
+    def atom_from_symbol(self):
+        """Returns the atomic factors by their symbols."""
+        return {atom.symbol: atom for atom in self.atomic_factors}
+
     @cached_property
     def knowable_atoms(self):
         """Returns the knowable atoms."""
@@ -1083,10 +1088,9 @@ class InflationLP(object):
             try:
                 return self.monomial_from_symbol[mon]
             except KeyError:
-                product = self._interpret_product(mon)
-                if product:
-                    return self._monomial_from_atoms(
-                        [atom for term in product for atom in term.factors])
+                atoms = self._interpret_product(mon)
+                if atoms:
+                    return self._monomial_from_atoms(atoms)
                 symbols = flatten_symbolic_powers(mon)
                 if len(symbols) == 1:
                     try:
@@ -1111,10 +1115,9 @@ class InflationLP(object):
             try:
                 return self.monomial_from_name[mon]
             except KeyError:
-                product = self._interpret_product(mon)
-                if product:
-                    return self._monomial_from_atoms(
-                        [atom for term in product for atom in term.factors])
+                atoms = self._interpret_product(mon)
+                if atoms:
+                    return self._monomial_from_atoms(atoms)
                 print(f"As of now we only recognize \n{list(self.monomial_from_name.keys())}")
                 return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, Real):
@@ -1204,24 +1207,28 @@ class InflationLP(object):
         Returns
         -------
         List
-            The moments that are multiplied, or an empty list if the input is
-            not a product of two or more moments.
+            The atoms of the moments that are multiplied, or an empty list if
+            the input is not a product of two or more moments.
         """
         if isinstance(monomial, str):
-            if monomial in self.monomial_from_name:
-                return []
             factors = moments_from_product_name(monomial)
         else:
-            if monomial in self.monomial_from_symbol:
-                return []
             factors = flatten_symbolic_powers(monomial)
-            if not all(factor in self.monomial_from_symbol
-                       or moments_from_product_name(str(factor))
-                       for factor in factors):
-                return []
         if len(factors) < 2:
             return []
-        return [self._sanitise_monomial(factor) for factor in factors]
+        atoms = []
+        atom_from_symbol = getattr(self, "atom_from_symbol", dict())
+        for factor in factors:
+            if factor in atom_from_symbol:
+                atoms.append(atom_from_symbol[factor])
+            elif factor in self.monomial_from_symbol:
+                atoms.extend(self.monomial_from_symbol[factor].factors)
+            elif moments_from_product_name(str(factor)):
+                array = self._interpret_atomic_string(str(factor))
+                atoms.extend(self._sanitise_monomial(array).factors)
+            else:
+                return []
+        return atoms
 
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 7e64fd9..a9e19ec 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -295,7 +295,7 @@ class InflationSDP:
         """
         # Forget what was cached about a previously generated relaxation
         for attribute in {"atomic_factors", "atomic_monomials",
-                          "atom_from_name", "knowable_atoms",
+                          "atom_from_name", "atom_from_symbol", "knowable_atoms",
                           "do_conditional_atoms"}:
             self.__dict__.pop(attribute, None)
         self.atomic_monomial_from_hash  = dict()
@@ -544,6 +544,11 @@ class InflationSDP:
             atoms.update(mon.factors)
         return [self._monomial_from_atoms([atom]) for atom in sorted(atoms)]
 
+    @cached_property
+    def atom_from_symbol(self):
+        """Returns the atomic factors by their symbols."""
+        return {atom.symbol: atom for atom in self.atomic_factors}
+
     @cached_property
     def knowable_atoms(self):
         """Returns the knowable atoms."""
@@ -1598,10 +1603,11 @@ class InflationSDP:
                 self.mon_to_lexrepr(array))
             return self.Moment_1d(canon_lexmon)
         elif isinstance(moment, (str, sp.core.symbol.Expr)):
-            product = self._interpret_product(moment)
-            if product:
-                return self._monomial_from_atoms(
-                    [atom for mon in product for atom in mon.factors])
+            atoms = [] if (moment in self.monomial_from_name
+                           or moment in self.monomial_from_symbol) \
+                else self._interpret_product(moment)
+            if atoms:
+                return self._monomial_from_atoms(atoms)
             return self._sanitise_moment(self._interpret_name(moment))
         elif isinstance(moment, Real):
             if np.isclose(float(moment), 1):
@@ -1730,24 +1736,35 @@ class InflationSDP:
         Returns
         -------
         List
-            The moments that are multiplied, or an empty list if the input is
-            not a product of two or more moments.
+            The atoms of the moments that are multiplied, or an empty list if
+            the input is not a product of two or more moments.
         """
         if isinstance(monomial, str):
-            if monomial in self.monomial_from_name:
-                return []
             factors = moments_from_product_name(monomial)
         else:
-            if monomial in self.monomial_from_symbol:
-                return []
             factors = flatten_symbolic_powers(monomial)
-            if not all(factor in self.monomial_from_symbol
-                       or moments_from_product_name(str(factor))
-                       for factor in factors):
-                return []
         if len(factors) < 2:
             return []
-        return [self._sanitise_moment(factor) for factor in factors]
+        atoms = []
+        atom_from_symbol = getattr(self, "atom_from_symbol", dict())
+        for factor in factors:
+            if factor in atom_from_symbol:
+                atoms.append(atom_from_symbol[factor])
+            elif factor in self.monomial_from_symbol:
+                atoms.extend(self.monomial_from_symbol[factor].factors)
+            elif moments_from_product_name(str(factor)):
+                array = self._interpret_atomic_string(str(factor))
+                lexmon = self._to_canonical_memoized_1d(
+                    self.mon_to_lexrepr(array))
+                _factors = self.factorize_moment_1d(
+                    np.asarray(lexmon, dtype=np.intc) - 1,
+                    canonical_order=False)
+                # Do not choose between the atoms and their conjugates here
+                atoms.extend(self._AtomicMonomial(atom + 1)
+                             for atom in _factors if len(atom))
+            else:
+                return []
+        return atoms
 
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
-- 
2.43.0


From 69f5b77e28858fe5c2b4e0644ae51a9558fd75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 35/52] fix: bounds in LP files: line breaks, known and
 unlisted variables

---
 inflation/lp/writer_utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..600bc0a 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -51,9 +51,9 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
+        f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
+        f.write(f"{x} <= {upper_bounds[x]}\n")
     f.write("end")
     f.close()
 
@@ -200,6 +200,18 @@ def process_arguments(args: dict) -> dict:
     new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
 
+    # The bounds of known variables are constraints on their values, and the
+    # variables with bounds must be listed even if no constraint uses them
+    if args.get("default_non_negative", True):
+        new_lower_bounds = {**dict.fromkeys(new_known_vars, 0), **new_lower_bounds}
+    new_known_vars["constant"] = 1
+    for x in set(new_lower_bounds).intersection(new_known_vars):
+        new_inequalities.append({x: 1, "constant": -new_lower_bounds.pop(x)})
+    for x in set(new_upper_bounds).intersection(new_known_vars):
+        new_inequalities.append({x: -1, "constant": new_upper_bounds.pop(x)})
+    for x in set(new_lower_bounds).union(new_upper_bounds):
+        new_objective.setdefault(x, 0)
+
     return {
         "objective": new_objective,
         "variables": new_variables,
-- 
2.43.0


From 03afc32fed4b7272347be7f38d03e36d60470bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 36/52] fix: MPS files rounded coefficients to four decimals

---
 inflation/lp/writer_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 600bc0a..b51e8a2 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -105,16 +105,16 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in variables:
         if x in set(objective).difference(known_vars):
             arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
                 arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
                 arr = [x, f"c{nof_equalities + i}",
                        ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -123,7 +123,7 @@ def write_to_mps(args: dict, filename: str) -> None:
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
         arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write("    {:10}{:10}{}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -132,7 +132,7 @@ def write_to_mps(args: dict, filename: str) -> None:
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
             arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
@@ -140,10 +140,10 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
         arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" LO {:10}{:10}{}\n".format(*arr))
     for x in upper_bounds:
         arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" UP {:10}{:10}{}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From 401e553eb7786f04beaad2fe7fc87ad84f46e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 37/52] fix: constant objectives and violated constant
 constraints in LP files

---
 inflation/lp/writer_utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index b51e8a2..f8c20c1 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -78,11 +78,12 @@ def write_to_mps(args: dict, filename: str) -> None:
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
 
-    # Exclude constraints in which variables are all known values
+    # Exclude constraints in which variables are all known values, unless the
+    # values violate them
     internal_equalities = [eq for eq in internal_equalities
-                           if set(eq).difference(known_vars)]
+                           if format_constraint_lp(known_vars, eq, 'eq')]
     inequalities = [ineq for ineq in inequalities
-                    if set(ineq).difference(known_vars)]
+                    if format_constraint_lp(known_vars, ineq, 'ineq')]
     constraints = internal_equalities + inequalities
     nof_equalities = len(internal_equalities)
     nof_inequalities = len(inequalities)
@@ -252,11 +253,13 @@ def format_constraint_lp(known_vars: dict,
     cons = ""
     for x in set(constraint).difference(known_vars):
         cons += f"{constraint[x]} {x} + "
-    if cons == "":
-        return cons
-
     if cons_type == 'obj':
         cons += str(c)
+    elif cons == "":
+        # A constraint between known values matters only if it is violated
+        if (abs(c) if cons_type == 'eq' else -c) > 1e-10:
+            cons = f"0 {next(iter(constraint))}"
+            cons += (' = ' if cons_type == 'eq' else ' >= ') + str(-c)
     elif cons_type == 'eq':
         cons = cons[:-3] + ' = ' + str(-c)
     elif cons_type == 'ineq':
-- 
2.43.0


From 1580d6155b56b7c53e6583584c886dc679e76d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 38/52] fix: LP files of programs without default nonnegativity

---
 inflation/lp/InflationLP.py  |  3 ++-
 inflation/lp/writer_utils.py | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index e737763..694dc41 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -2007,7 +2007,8 @@ class InflationLP(object):
                       "semiknown_vars": self.semiknown_by_name,
                       "equalities": self.moment_equalities_by_name,
                       "inequalities": self.moment_inequalities_by_name,
-                      "variables": variables}
+                      "variables": variables,
+                      "default_non_negative": self.default_non_negative}
         if separate_bounds:
             solverargs["lower_bounds"] = self.lowerbounds_by_name
             solverargs["upper_bounds"] = self.upperbounds_by_name
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index f8c20c1..6053e92 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -7,6 +7,7 @@ problem to file.
 
 import mosek
 from copy import deepcopy
+from itertools import chain
 
 
 def write_to_lp(args: dict, filename: str) -> None:
@@ -50,6 +51,8 @@ def write_to_lp(args: dict, filename: str) -> None:
             i += 1
 
     f.write("bounds\n")
+    for x in processed_args["free_vars"]:
+        f.write(f"-inf <= {x} <= {upper_bounds.pop(x, 'inf')}\n")
     for x in lower_bounds:
         f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
@@ -139,6 +142,9 @@ def write_to_mps(args: dict, filename: str) -> None:
 
     # Specify variable bound values
     f.write(f"BOUNDS\n")
+    for x in processed_args["free_vars"]:
+        f.write(" {} {:10}{}\n".format("FR" if x not in upper_bounds else "MI",
+                                        "bound", x))
     for x in lower_bounds:
         arr = ['bound', x, lower_bounds[x]]
         f.write(" LO {:10}{:10}{}\n".format(*arr))
@@ -213,6 +219,12 @@ def process_arguments(args: dict) -> dict:
     for x in set(new_lower_bounds).union(new_upper_bounds):
         new_objective.setdefault(x, 0)
 
+    # Without a lower bound, variables are non-negative by default in the files
+    free_vars = set()
+    if not args.get("default_non_negative", True):
+        free_vars = set(chain(new_objective, *new_equalities, *new_inequalities))
+        free_vars.difference_update(new_known_vars, new_lower_bounds)
+
     return {
         "objective": new_objective,
         "variables": new_variables,
@@ -220,7 +232,8 @@ def process_arguments(args: dict) -> dict:
         "inequalities": new_inequalities,
         "known_vars": new_known_vars,
         "lower_bounds": new_lower_bounds,
-        "upper_bounds": new_upper_bounds}
+        "upper_bounds": new_upper_bounds,
+        "free_vars": free_vars}
 
 
 def format_constraint_lp(known_vars: dict,
-- 
2.43.0


From 4021ea17dac194efc74dc1b2647d727eb13e5cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 39/52] fix: stale constraints by name after adding constraints
 to linear programs

---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 694dc41..a565800 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1798,12 +1798,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From df75d9f7b4762fdcc0bafc2ab0178e62d5655c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 40/52] fix: file extension when exporting to paths with dots

---
 inflation/lp/InflationLP.py   | 7 +++----
 inflation/sdp/InflationSDP.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index a565800..b563a36 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -10,6 +10,7 @@ from functools import reduce, cached_property
 from gc import collect
 from operator import neg as op_neg
 from numbers import Real
+from os.path import splitext
 from typing import List, Dict, Union, Any
 from warnings import warn
 
@@ -932,10 +933,8 @@ class InflationLP(object):
             ``.mps`` (MPS).
         """
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = splitext(filename)[1][1:]
+        if not extension:
             extension = "lp"
             filename += ".lp"
 
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index a9e19ec..bf72a27 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -10,6 +10,7 @@ from gc import collect
 from itertools import chain, count, product, combinations
 from operator import neg as op_neg
 from numbers import Real
+from os.path import splitext
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
 
@@ -1326,10 +1327,8 @@ class InflationSDP:
             (MATLAB), ``.dat-s`` (SDPA), and ``.csv`` (human-readable).
         """
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = splitext(filename)[1][1:]
+        if not extension:
             extension = "dat-s"
             filename += ".dat-s"
 
-- 
2.43.0


From 6bcc4b5c8cc0f7e9e06b6108611f212480553d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 41/52] fix: sign of negative known values in SDPA files

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..b4a09f4 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -301,7 +301,7 @@ def write_to_sdpa(problem, filename):
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
                     lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
+                        f"0\t{block}\t{ii+1}\t{jj+1}\t{-coeff}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
                     try:
-- 
2.43.0


From 89ba67e1438be0b0ab3901cfb372dec0a2e14f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 42/52] fix: positions of inequalities in SDPA files

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index b4a09f4..c05bef8 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -407,7 +407,7 @@ def write_to_sdpa(problem, filename):
                     sumcoeffs += coeff
         if sumcoeffs != 0:
             lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
+        ii += 1
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 2420a7bab701aba8a24e7e6bf7b09e50cbba9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 43/52] fix: known, semiknown and off-matrix moments in SDPA
 files

---
 inflation/sdp/writer_utils.py | 142 +++++++++++++++-------------------
 1 file changed, 61 insertions(+), 81 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c05bef8..950aed2 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -266,22 +266,6 @@ def write_to_sdpa(problem, filename):
     For more information about the .dat-s format, see the specifications at:
     http://euler.nmt.edu/~brian/sdplib/FORMAT
     """
-    # Compute actual number of variables: all in the moment matrix, minus those
-    # with known values, minus those that participate in LPI constraints, plus
-    # those where the unknown part of the LPI constraint is not in the original
-    # moment matrix
-    potential_nvars = problem.momentmatrix.max() - 1
-    if len(problem.known_moments) == 1:
-        known_vars = 0
-    else:
-        known_vars = (len(problem.known_moments)
-                      - problem.momentmatrix_has_a_zero
-                      - problem.momentmatrix_has_a_one)
-    semiknown_vars = len(problem.semiknown_moments)
-    new_vars       = sum([mon[1][1].idx > problem.momentmatrix.max()
-                          for mon in problem.semiknown_moments.items()])
-    nvars = potential_nvars - known_vars - semiknown_vars + new_vars
-
     known_moments_indices = {mon.idx: coeff
                              for mon, coeff in problem.known_moments.items()}
     semiknowns  = {mon.idx: (subs[0], subs[1].idx)
@@ -323,54 +307,58 @@ def write_to_sdpa(problem, filename):
                             f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
                         new_var += 1
 
-    # Prepare objective
-    objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
-        if variable == problem.One:
-            if abs(coeff) > 1e-8:
-                warn(f"Export removed the constant {coeff} from the objective")
-        else:
-            objective[var_corresp[variable.idx] - 1] = coeff
-    objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
+    def to_variables(expression):
+        """Write a linear expression in terms of the variables in the file.
+        The moments that have no variable yet are assigned one."""
+        coeffs, constant = dict(), 0
+        for mon, coeff in expression.items():
+            if (mon in problem.semiknown_moments
+                and mon not in problem.known_moments):
+                factor, mon = problem.semiknown_moments[mon]
+                coeff       = coeff * factor
+            if mon == problem.One:
+                constant += coeff
+            elif mon in problem.known_moments:
+                constant += coeff * problem.known_moments[mon]
+            elif mon.is_zero:
+                continue
+            else:
+                var = var_corresp.setdefault(int(mon.idx),
+                                             len(var_corresp) + 1)
+                coeffs[var] = coeffs.get(var, 0) + coeff
+        return coeffs, constant
 
-    # Prepare upper bounds
-    if len(problem.moment_upperbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_upperbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, ub in problem.moment_upperbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
-            if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
-            ii += 1
+    def write_row(ii, coeffs, constant):
+        """Write the constraint of having a positive linear expression."""
+        for var, coeff in coeffs.items():
+            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+        if abs(constant) > 1e-8:
+            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-constant}\n")
 
-    # Prepare lower bounds
-    if len(problem.moment_lowerbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_lowerbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, lb in problem.moment_lowerbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
-            if abs(lb) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
-            ii += 1
+    # Prepare objective
+    objective_coeffs, objective_constant = to_variables(problem.objective)
+    if abs(objective_constant) > 1e-8:
+        warn(f"Export removed the constant {objective_constant} from the "
+             + "objective")
+
+    # Prepare bounds, leaving out those on semiknown moments that follow from
+    # the bounds on the moments that they are proportional to
+    for bounds, sign in [(problem.moment_upperbounds, -1.0),
+                         (problem.moment_lowerbounds, 1.0)]:
+        rows = []
+        for var, bnd in bounds.items():
+            coeffs, constant = to_variables({var: sign})
+            factor, subs = problem.semiknown_moments.get(var, (1, None))
+            if factor >= 0 and subs in bounds and coeffs:
+                if sign * (factor * bounds[subs] - bnd) >= 0:
+                    continue
+            if coeffs or constant < sign * bnd - 1e-8:
+                rows.append((coeffs, constant - sign * bnd))
+        if len(rows) > 0:
+            block += 1
+            blockstruct.append(str(-len(rows)))
+        for ii, row in enumerate(rows):
+            write_row(ii + 1, *row)
 
     # Prepare equalities
     if len(problem.moment_equalities) > 0:
@@ -379,15 +367,10 @@ def write_to_sdpa(problem, filename):
         block_size = 2*len(problem.moment_equalities)
         blockstruct.append(str(-block_size))
     for equality in problem.moment_equalities:
-        for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
+        coeffs, constant = to_variables(equality)
+        write_row(ii, coeffs, constant)
+        write_row(ii + 1, {var: -coeff for var, coeff in coeffs.items()},
+                  -constant)
         ii += 2
 
     # Prepare inequalities
@@ -397,17 +380,14 @@ def write_to_sdpa(problem, filename):
         block_size = len(problem.moment_inequalities)
         blockstruct.append(str(-block_size))
     for inequality in problem.moment_inequalities:
-        sumcoeffs = 0
-        for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
-        if sumcoeffs != 0:
-            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
+        write_row(ii, *to_variables(inequality))
         ii += 1
+
+    nvars     = len(var_corresp)
+    objective = np.zeros(nvars)
+    for var, coeff in objective_coeffs.items():
+        objective[var - 1] = coeff
+    objective = str(objective.tolist()).replace("[", "").replace("]", "")
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 3e5cf39a4d503fd61a6445088e295f31f947074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 44/52] fix: commas in moment names split cells of CSV files

---
 inflation/sdp/writer_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 950aed2..65c1643 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -35,13 +35,13 @@ def convert_to_human_readable(problem):
     # Replacer for semiknowns
     semiknowns = dict()
     for key, val in problem.semiknown_moments.items():
-        val_str = val[1].name.replace(", ", ";")
+        val_str = val[1].name.replace(",", ";")
         semiknowns[key.idx] = f"{val[0]}*{val_str}"
     semiknown_replacer = np.vectorize(lambda x: semiknowns.get(x, str(x)))
     # Replacer for remaining symbols
     monomials = dict()
     for mon in problem.moments:
-        monomials[mon.idx] = mon.name.replace(", ", ";")
+        monomials[mon.idx] = mon.name.replace(",", ";")
 
     def replace_known(monom):
         try:
-- 
2.43.0


From ceb2507475600caeb752fdd67416002856f00b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 45/52] fix: known and semiknown moments in the expressions of
 CSV files

---
 inflation/sdp/writer_utils.py | 92 +++++++++++++++++------------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 65c1643..3414f66 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -56,24 +56,33 @@ def convert_to_human_readable(problem):
     matrix = semiknown_replacer(matrix)
     matrix = np.triu(known_replacer(matrix).astype(object))
 
+    def substitute(expression):
+        """Write a linear expression in terms of the moments in the matrix."""
+        substituted = dict()
+        for mon, coeff in expression.items():
+            if mon in problem.known_moments:
+                coeff = coeff * problem.known_moments[mon]
+                mon   = problem.One
+            elif mon in problem.semiknown_moments:
+                factor, mon = problem.semiknown_moments[mon]
+                coeff       = coeff * factor
+            substituted[mon] = substituted.get(mon, 0) + coeff
+        return substituted
+
     ### Process objective
-    is_first = True
-    try:
-        independent_term = float(problem.objective[problem.One])
-        if abs(independent_term) > 1e-8:
-            objective = str(independent_term)
-            is_first = False
+    is_first  = True
+    objective = ""
+    as_moments       = substitute(problem.objective)
+    independent_term = float(as_moments.pop(problem.One, 0))
+    if abs(independent_term) > 1e-8:
+        objective = str(independent_term)
+        is_first  = False
+    for variable, coeff in as_moments.items():
+        if (coeff < 0) or is_first:
+            objective += f"{float(coeff)}*{variable.name}"
         else:
-            objective = ""
-    except KeyError:
-        objective = ""
-    for variable, coeff in problem.objective.items():
-        if variable != problem.One:
-            if (coeff < 0) or is_first:
-                objective += f"{float(coeff)}*{variable.name}"
-            else:
-                objective += f"+{float(coeff)}*{variable.name}"
-            is_first = False
+            objective += f"+{float(coeff)}*{variable.name}"
+        is_first = False
 
     ### Process bounds
     bounded_vars = sorted(list(set(problem.moment_upperbounds.keys()).union(
@@ -81,40 +90,30 @@ def convert_to_human_readable(problem):
                           key=lambda x: x.name)
     bounds = np.zeros((len(bounded_vars), 3), dtype=object)
     for idx, var in enumerate(bounded_vars):
-        bounds[idx, 0] = var
-        bounds[idx, 1] = problem.moment_lowerbounds.get(var, None)
-        bounds[idx, 2] = problem.moment_upperbounds.get(var, None)
+        name = constants.get(var.idx, semiknowns.get(var.idx, var.name))
+        bounds[idx, 0] = name.replace(",", ";")
+        for pos, bnds in [(1, problem.moment_lowerbounds),
+                          (2, problem.moment_upperbounds)]:
+            bounds[idx, pos] = float(bnds[var]) if var in bnds else None
 
-    ### Process equalities
-    equalities = []
-    for eq in problem.moment_equalities:
-        equality = ""
-        for monom, coeff in eq.items():
-            equality += "+" if coeff > 0 else "-"
+    ### Process equalities and inequalities
+    def process_constraint(constraint):
+        line = ""
+        for monom, coeff in substitute(constraint).items():
+            line += "+" if coeff > 0 else "-"
             if monom == problem.One:
-                equality += str(abs(coeff))
+                line += str(abs(coeff))
             else:
                 if np.isclose(abs(coeff), 1):
-                    equality += monom.name
+                    line += monom.name
                 else:
-                    equality += f"{abs(coeff)}*{monom.name}"
-        equalities.append(equality[1:] if equality[0] == "+" else equality)
-    
-    ### Process inequalities
-    inequalities = []
-    for ineq in problem.moment_inequalities:
-        inequality = ""
-        for monom, coeff in ineq.items():
-            inequality += "+" if coeff > 0 else "-"
-            if monom == problem.One:
-                inequality += str(abs(coeff))
-            else:
-                if np.isclose(abs(coeff), 1):
-                    inequality += monom.name
-                else:
-                    inequality += f"{abs(coeff)}*{monom.name}"
-        inequalities.append(inequality[1:] if inequality[0] == "+"
-                            else inequality)
+                    line += f"{abs(coeff)}*{monom.name}"
+        return line[1:] if line.startswith("+") else line or "0"
+
+    equalities   = [process_constraint(eq)
+                    for eq in problem.moment_equalities]
+    inequalities = [process_constraint(ineq)
+                    for ineq in problem.moment_inequalities]
     return objective, matrix, bounds.tolist(), equalities, inequalities
 
 
@@ -140,7 +139,8 @@ def write_to_csv(problem, filename):
     f.write("Bounds:\n")
     f.write("Variable,lower,upper\n")
     for bound_line in bounds:
-        f.write(str(bound_line)[1:-1].replace(" ", ""))
+        f.write(
+            str(bound_line)[1:-1].replace(" ", "").replace("\'", ""))
         f.write("\n")
     f.write("\nEqualities (format: line = 0):\n")
     for equality in equalities:
-- 
2.43.0


From 8b680c27547a65b7432195c7ef2ea8245fcefca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 46/52] fix: SDPA files of supports problems fixed the unit
 moment to one

---
 inflation/sdp/writer_utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 3414f66..f39a249 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -280,8 +280,6 @@ def write_to_sdpa(problem, filename):
             if jj >= ii:
                 if var == 0:
                     pass
-                elif var == 1:
-                    lines.append(f"0\t{block}\t{ii+1}\t{jj+1}\t-1.0\n")
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
                     lines.append(
@@ -316,9 +314,7 @@ def write_to_sdpa(problem, filename):
                 and mon not in problem.known_moments):
                 factor, mon = problem.semiknown_moments[mon]
                 coeff       = coeff * factor
-            if mon == problem.One:
-                constant += coeff
-            elif mon in problem.known_moments:
+            if mon in problem.known_moments:
                 constant += coeff * problem.known_moments[mon]
             elif mon.is_zero:
                 continue
-- 
2.43.0


From 22541e52b445b80c67cdc8f16cc33afb847d2b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 47/52] fix: intermediate file of LP to MPS conversions in
 directories with dots

---
 inflation/lp/writer_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 6053e92..d173286 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -6,6 +6,7 @@ problem to file.
 """
 
 import mosek
+import os
 from copy import deepcopy
 from itertools import chain
 
@@ -166,7 +167,7 @@ def lp_to_mps(args: dict, filename: str) -> None:
     filename : str
         The file to write to.
     """
-    lp_filename = f"{filename.split('.')[0]}.lp"
+    lp_filename = f"{os.path.splitext(filename)[0]}.lp"
     write_to_lp(args, lp_filename)
     with mosek.Task() as t:
         t.readdata(f"{lp_filename}")
-- 
2.43.0


From fec763d2f08cb1e2f07820741e06a88a7ac5c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 48/52] fix: certificates with constants or products in the
 dual search of critical parameters

---
 inflation/optimization_utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f2698d7..f98635e 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -231,7 +231,21 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     solve_dual     = kwargs.get("solve_dual", True)
     solverparameters = kwargs.get("solverparameters", None)
 
-    symbol_names = {str(key): val for key, val in symbolic_values.items()}
+    symbolic_moments = {mon: val for key, val in symbolic_values.items()
+                        for mon in program._sanitise_dict({key: 1})}
+
+    def symbolic_value(name):
+        """The expression of a known moment in terms of the parameter."""
+        mon = program.monomial_from_name[name]
+        if mon in symbolic_moments:
+            return symbolic_moments[mon]
+        elif mon.is_zero or mon.is_one:
+            return int(mon.is_one)
+        value = 1
+        for factor in mon.factors:
+            value *= symbolic_moments[program._monomial_from_atoms([factor])]
+        return value
+
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
     sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
@@ -252,7 +266,7 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                       solverparameters=solverparameters)
 
         # The feasible region is where the certificate is positive
-        nonneg_expr = sum(symbol_names[var] * coeff
+        nonneg_expr = sum(symbolic_value(var) * coeff
                           for var, coeff in
                           program.solution_object["dual_certificate"].items())
         nonneg_func = lambdify([param],
-- 
2.43.0


From e5d6ce6400c6a800a78b0f7bd6b7c9d9e6314fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 49/52] fix: bisection returned certificates of feasible
 parameters

---
 inflation/optimization_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f98635e..5d5edbd 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -168,7 +168,8 @@ def _maximize_via_bisect(program: Union[InflationLP, InflationSDP],
             print(f"Parameter = {value:<6.4g}   " +
                   f"Maximum smallest eigenvalue: {program.objective_value:10.4g}")
         discovered_certificate = program.certificate_as_dict()
-        if len(discovered_certificate):  # Checking if certificate has any nonzero coefficients
+        # Keep nontrivial certificates that exclude the current value
+        if len(discovered_certificate) and program.objective_value < 0:
             discovered_certificates.append((value, discovered_certificate))
         return program.objective_value+precision/2048
     assert f(bounds[1])+precision/2048 < 0, f"Certificate of infeasibility for v=1 is {f(bounds[1])}, but must be <{precision/2048}."
-- 
2.43.0


From 378255dbb96f6b7987b9e7826458520dcfef1b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 50/52] fix: solve the inner problem of the dual search to the
 requested precision

---
 inflation/optimization_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 5d5edbd..d72d480 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -279,7 +279,8 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                             method='SLSQP',
                             bounds=sp_bounds,
                             constraints=constraints,
-                            options={'disp': False})
+                            options={'disp': False,
+                                     'ftol': min(1e-6, precision/1000)})
         new_ub = solution['x'][0]
         discovered_certificates.append((new_ub , program.certificate_as_dict()))
         if verbose:
-- 
2.43.0


From 1059c54356645c11eddbeb4248dc7b2eeb443025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:00 +0000
Subject: [PATCH 51/52] fix: to_name works on arrays and lists, so that
 commutation_relations and lexicographic_order do not raise

---
 inflation/sdp/fast_npa.py      | 4 +---
 inflation/sdp/quantum_tools.py | 2 ++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/fast_npa.py b/inflation/sdp/fast_npa.py
index a0a8ae0..8020f3e 100644
--- a/inflation/sdp/fast_npa.py
+++ b/inflation/sdp/fast_npa.py
@@ -394,7 +394,6 @@ def reverse_mon(mon: np.ndarray) -> np.ndarray:
     return np.flipud(mon)
 
 
-@jit(nopython=nopython, cache=cache, forceobj=not nopython)
 def to_name(monomial: np.ndarray,
             names: List[str]) -> str:
     """Convert the 2d array representation of a monomial to a string.
@@ -420,10 +419,9 @@ def to_name(monomial: np.ndarray,
     if len(monomial) == 0:
         return "1"
 
-    monomial = monomial.tolist()
     return "*".join(["_".join([names[letter[0] - 1]]
                               + [str(i) for i in letter[1:]])
-                     for letter in monomial])
+                     for letter in np.asarray(monomial).tolist()])
 
 
 ###############################################################################
diff --git a/inflation/sdp/quantum_tools.py b/inflation/sdp/quantum_tools.py
index 9cedf10..aa6a102 100644
--- a/inflation/sdp/quantum_tools.py
+++ b/inflation/sdp/quantum_tools.py
@@ -418,6 +418,8 @@ def lexicographic_order(infSDP) -> Dict[str, int]:
     """
     lexorder = {}
     for i, op in enumerate(infSDP._lexorder):
+        if op[0] == 0:
+            continue  # The zero operator
         lexorder[sympy.Symbol(to_name([op], infSDP.names),
                               commutative=False)] = i
     return lexorder
-- 
2.43.0


From 9df0fed0f3f3125e317e86dee97b59d8ef372b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:14 +0000
Subject: [PATCH 52/52] fix: moments of semidefinite relaxations report whether
 they are physical instead of raising

---
 inflation/sdp/InflationSDP.py     | 17 +----------------
 inflation/sdp/monomial_classes.py | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index bf72a27..9bdbb31 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -382,7 +382,7 @@ class InflationSDP:
             self.hermitian_moments   = [mon for mon in self.moments
                                         if mon.is_hermitian]
             self.nonnegative_moments = [mon for mon in self.hermitian_moments
-                                        if self._is_nonnegative(mon)]
+                                        if mon.is_physical]
             if self.verbose > 1:
                 print(f"The problem has {len(self.nonnegative_moments)} " +
                       "non-negative moments.")
@@ -1502,21 +1502,6 @@ class InflationSDP:
         representative = np.array(min(output_variants), dtype=np.intc)
         return output_variants, representative
 
-    def _is_nonnegative(self, mon: CompoundMomentSDP) -> bool:
-        """Whether a moment is nonnegative for every state, i.e., whether each
-        of its factors equals its own reversal using commutations alone. Being
-        equal to it up to the inflation symmetries implies that the moment is
-        real, but not that it is nonnegative.
-        """
-        return all(factor.is_all_commuting or
-                   np.array_equal(
-                       self._to_canonical_memoized_1d(
-                           factor.as_lexmon, apply_only_commutations=True),
-                       self._to_canonical_memoized_1d(
-                           reverse_mon(factor.as_lexmon),
-                           apply_only_commutations=True))
-                   for factor in mon.factors)
-
     def _monomial_from_atoms(self,
                              atoms: List[InternalAtomicMonomialSDP]
                              ) -> CompoundMomentSDP:
diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index bd5a0ea..9e7d821 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -8,6 +8,7 @@ import numpy as np
 from functools import total_ordering, cached_property
 from typing import Tuple
 
+from .fast_npa import reverse_mon
 from .monomial_utils import symbol_from_atom_name
 from ..lp.monomial_classes import InternalAtomicMonomial as InternalAtomicMonomialLP
 from ..lp.monomial_classes import CompoundMoment as CompoundMomentLP
@@ -90,6 +91,21 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
          under inflation symmetries and commutation."""
         return np.array_equal(self.as_lexmon, self.conjugate_lexmon)
 
+    @property
+    def is_physical(self) -> bool:
+        """Whether the atomic monomial has a non-negative expectation value in
+        every state, i.e., whether it equals its own reversal using
+        commutations alone. Being equal to it up to the inflation symmetries
+        implies that the expectation value is real, but not that it is
+        non-negative."""
+        if self.is_all_commuting:
+            return True
+        to_canonical = self.context._to_canonical_memoized_1d
+        return np.array_equal(
+            to_canonical(self.as_lexmon, apply_only_commutations=True),
+            to_canonical(reverse_mon(self.as_lexmon),
+                         apply_only_commutations=True))
+
     @property
     def dagger(self):
         """Returns the adjoint of the Monomial."""
-- 
2.43.0

