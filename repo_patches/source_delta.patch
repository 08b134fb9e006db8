From 5d264c2afbcf68e9992d4f1bdbb28b70db08dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/43] fix: bi-objective native sorting ranks ties and
 duplicates in their true front

---
 pymoo/functions/standard/non_dominated_sorting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 64de372..325af73 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -104,8 +104,8 @@ def _fast_biobjective_nondominated_sort(F):
     if n_points == 0:
         return []
 
-    # Sort by first objective ascending
-    sorted_indices = np.argsort(F[:, 0])
+    # Sort by first objective ascending, ties by the second objective
+    sorted_indices = np.lexsort((F[:, 1], F[:, 0]))
     sorted_F = F[sorted_indices]
 
     fronts = []
@@ -128,8 +128,9 @@ def _fast_biobjective_nondominated_sort(F):
             if current_indices:  # If there are already points in the current front
                 # Since points are sorted by first objective, we only need to check
                 # if its second objective is greater than the minimum second objective in front
+                # (a duplicate of the last point in the front is not dominated by it)
                 if sorted_F[i, 1] >= min_second_obj:
-                    is_dominated = True
+                    is_dominated = not np.array_equal(sorted_F[i], sorted_F[current_indices[-1]])
 
             if not is_dominated:
                 # Add this point to the current front
-- 
2.43.0


From 0c8977d0bb903f61a7f603e19146fb1dd19a7493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 02/43] fix: tree-based sorting puts duplicates into the same
 front

---
 pymoo/functions/standard/non_dominated_sorting.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 325af73..2327cbd 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -366,6 +366,13 @@ def tree_based_non_dominated_sort(F):
     indices = np.lexsort(F.T[::-1])
     F = F[indices]
 
+    # duplicates are adjacent after sorting and share a front - only the first of each group is inserted
+    first = np.ones(N, dtype=bool)
+    first[1:] = np.any(F[1:] != F[:-1], axis=1)
+    groups = np.split(indices, np.where(first)[0][1:]) if N > 0 else []
+    F = F[first]
+    N = len(F)
+
     obj_seq = np.argsort(F[:, :0:-1], axis=1) + 1
 
     k = 0
@@ -383,7 +390,7 @@ def tree_based_non_dominated_sort(F):
     # convert forest to fronts
     fronts = [[] for _ in range(k)]
     for k, tree in enumerate(forest):
-        fronts[k].extend([indices[node.key] for node in tree.traversal()])
+        fronts[k].extend([i for node in tree.traversal() for i in groups[node.key]])
     return fronts
 
 
-- 
2.43.0


From aab06464acf22287d77984fb24209c3d46d3e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 03/43] fix: fast_best_order_sort handles ties and duplicates
 and no longer reads past the last row

---
 .../compiled/non_dominated_sorting.pyx        | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pymoo/functions/compiled/non_dominated_sorting.pyx b/pymoo/functions/compiled/non_dominated_sorting.pyx
index b30cc2b..f053a99 100644
--- a/pymoo/functions/compiled/non_dominated_sorting.pyx
+++ b/pymoo/functions/compiled/non_dominated_sorting.pyx
@@ -256,8 +256,8 @@ cdef vector[vector[int]] c_best_order_sort(double[:,:] F):
 cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     cdef:
-        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z, s_next
-        vector[int] rank, counter, check_if_equal
+        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z
+        vector[int] rank, counter
         int[:,:] Q
         bool is_dominated
         vector[vector[int]] fronts, empty ,C
@@ -270,8 +270,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     _Q = np.zeros((n_points, n_obj), dtype=np.intc)
     _Q[:, 0] = np.lexsort(F[:, ::-1].T, axis=0)
+    # ties in any other objective are broken by the position in the lexicographical order
+    position = np.argsort(_Q[:, 0])
     for j in range(1, n_obj):
-        _Q[:, j] = np.lexsort(np.vstack([_Q[:, 0], F[:, j]]), axis=0)
+        _Q[:, j] = np.lexsort(np.vstack([position, F[:, j]]), axis=0)
     Q = _Q[:,:]
 
 
@@ -286,10 +288,6 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
             counter[s] += 1
     counter = vector[int](n_points)
 
-    check_if_equal = vector[int]()
-    for j in range(n_points):
-        check_if_equal.push_back(-1)
-
     rank = vector[int]()
     for i in range(n_points):
         rank.push_back(-1)
@@ -310,18 +308,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
             # index of the current solution
             s = Q[i, j]
-            s_next = Q[i + 1, j]
 
             # increase the counter for comparing this objective
             counter[s] += 1
 
-            # if not the last solution
-            if i < n_points - 1:
-                if check_if_equal[s] == -1:
-                    check_if_equal[s] = s_next
-                elif check_if_equal[s] != s_next:
-                    check_if_equal[s] = -2
-
             # if solution was already ranked before - just append it to the corresponding front
             if rank[s] != -1:
                 L[j][rank[s]].push_back(s)
@@ -345,7 +335,7 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
                         # get the domination relation - might return true even if equal
                         is_dominated = c_is_dominating_or_equal(F, e, s, C, counter[s])
 
-                        if is_dominated and check_if_equal[e] == s:
+                        if is_dominated:
                             is_equal = c_is_equal(F, s, e)
 
                         # if just one solution dominates the current one - go to the next front
-- 
2.43.0


From 22623ca351496e24b1f9231e923d192be9233679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 04/43] fix: constraints as penalty works without inequality or
 equality constraints and for several objectives

---
 pymoo/constraints/as_penalty.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..e3971bc 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -5,8 +5,6 @@ from pymoo.core.meta import Meta
 from pymoo.core.problem import Problem
 from pymoo.util.misc import from_dict
 
-import numpy as np
-
 
 class ConstraintsAsPenalty(Meta, Problem):
     def __init__(self, problem, penalty: float = 0.1):
@@ -20,6 +18,8 @@ class ConstraintsAsPenalty(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
+        # the violation is needed no matter what values have been requested
+        return_values_of = list(dict.fromkeys([*return_values_of, "F", "G", "H"]))
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
         # get at the values from the output
@@ -32,7 +32,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         CV = calc_cv(G=G, H=H)
 
         # set the penalized objective values
-        out["F"] = F + self.penalty * np.reshape(CV, F.shape)
+        out["F"] = F + self.penalty * CV[:, None]
 
         del out["G"]
         del out["H"]
-- 
2.43.0


From 726c306df1bef1b6c9774fca660fe8ea81a84dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 05/43] fix: constraints as objective returns one column per
 objective and works without inequality or equality constraints

---
 pymoo/constraints/as_obj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..ba0bae0 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -25,6 +25,8 @@ class ConstraintsAsObjective(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
+        # the violation is needed no matter what values have been requested
+        return_values_of = list(dict.fromkeys([*return_values_of, "F", "G", "H"]))
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
         # get at the values from the output
@@ -40,7 +42,7 @@ class ConstraintsAsObjective(Meta, Problem):
         if self.append:
             out["F"] = anp.column_stack([CV, F])
         else:
-            out["F"] = CV
+            out["F"] = CV[:, None]
 
         del out["G"]
         del out["H"]
-- 
2.43.0


From 4fc3ecca45a65348ec932572f15f81e6b73cbe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 06/43] fix: constraints from bounds uses the original bounds
 when they are removed from the wrapper

---
 pymoo/constraints/from_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..244c231 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -21,7 +21,7 @@ class ConstraintsFromBounds(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
         # get the boundaries for normalization
-        xl, xu = self.bounds()
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
-- 
2.43.0


From 5153406dc4edd97a3bf739c8cb3a014b1a56c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 07/43] fix: reducing to a single objective does not require
 decomposition arguments

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..49f23ab 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -18,7 +18,7 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = kwargs if kwargs is not None else dict()  # noqa: E712
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
-- 
2.43.0


From 8500dcf2e630af6e3725e8acb978d9ad7dd9a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 08/43] fix: zero-to-one wrapper evaluates the original problem
 at the denormalised point

---
 pymoo/problems/zero_to_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..82c8219 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,7 +14,7 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        Xp = self.denormalize(X)
 
         out = super().do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
-- 
2.43.0


From 7b4e7f282e9938cf81ebcf0fc6a2e95b91416421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 09/43] fix: constraint violation follows newly assigned
 constraint values

---
 pymoo/core/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..e85b115 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -206,6 +206,7 @@ class Individual:
             value: The inequality constraint vector for the individual.
         """
         self._G = value
+        self._CV = None
 
     @property
     def H(self) -> np.ndarray:
@@ -224,6 +225,7 @@ class Individual:
             value: The equality constraint vector for the individual.
         """
         self._H = value
+        self._CV = None
 
     @property
     def CV(self) -> np.ndarray:
-- 
2.43.0


From 71ac6a9dca3c719f6507978c34058188ae9bc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 10/43] fix: periodic and bounce-back repair keep fixed
 variables at their value

---
 pymoo/operators/repair/bounce_back.py   | 5 +++++
 pymoo/operators/repair/bounds_repair.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/pymoo/operators/repair/bounce_back.py b/pymoo/operators/repair/bounce_back.py
index 6cf33f9..593146d 100644
--- a/pymoo/operators/repair/bounce_back.py
+++ b/pymoo/operators/repair/bounce_back.py
@@ -25,6 +25,11 @@ def bounce_back(X, xl, xu):
 
     # otherwise bounds back into the feasible space
     _range = xu - xl
+
+    # a fixed variable has no range to bounce back into
+    fixed = _range == 0
+    X[fixed] = xl[fixed]
+
     X[X < xl] = (xl + np.mod((xl - X), _range))[X < xl]
     X[X > xu] = (xu - np.mod((X - xu), _range))[X > xu]
 
diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index 7b9c16e..9d4489b 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -116,6 +116,10 @@ def repair_periodic(Xp, xl, xu):
 
     S = XU - XL
 
+    # a fixed variable has no period to wrap around
+    fixed = S == 0
+    Xp[fixed] = XL[fixed]
+
     I = np.where(Xp < XL)  # noqa: E741
     Xp[I] = XU[I] - (XL[I] - Xp[I]) % S[I]
 
-- 
2.43.0


From 836a4e249173b53d2d9486f75351c165699a62ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 11/43] fix: pruning and nearest-neighbor crowding agree
 between compiled and interpreted code, handle ties, constant objectives and
 small fronts

---
 pymoo/functions/compiled/mnn.pyx              | 45 +++++++++----------
 pymoo/functions/compiled/pruning_cd.pyx       | 24 +++++++---
 pymoo/functions/compiled/utils.pxd            |  7 ++-
 pymoo/functions/standard/mnn.py               |  6 ++-
 pymoo/functions/standard/pruning_cd.py        |  8 ++--
 .../survival/rank_and_crowding/metrics.py     |  2 +-
 6 files changed, 54 insertions(+), 38 deletions(-)

diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 1f754cd..ba760ea 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -68,6 +68,9 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     N = X.shape[0]
     M = X.shape[1]
 
+    if N <= M or N <= 2:
+        return np.full(N, HUGE_VAL)
+
     if n_remove <= (N - M):
         if n_remove < 0:
             n_remove = 0
@@ -194,11 +197,15 @@ cdef c_calc_mnn_iter(
     ):
 
     cdef:
-        int i, j, m
+        int i, j, m, p
 
     # Iterate over items to calculate
     for i in calc_items:
 
+        # Collect the neighbors again from the remaining elements
+        for m in range(M):
+            Mnn[i, m] = -1
+
         # Iterate over elements in X
         for j in H:
 
@@ -206,32 +213,24 @@ cdef c_calc_mnn_iter(
             if (j == i):
                 continue
 
-            # Replace at least the last neighbor
-            elif (D[i, j] <= D[i, Mnn[i, M-1]]) or (Mnn[i, M-1] == -1):
-
-                # Iterate over current values
-                for m in range(M):
-
-                    # Set to current if unassigned
-                    if (Mnn[i, m] == -1):
-
-                        # Set last neighbor to index
-                        Mnn[i, m] = j
-                        break
+            # Insert into the neighbors sorted by distance
+            for m in range(M):
 
-                    # Break if checking already corresponding index
-                    elif (j == Mnn[i, m]):
-                        break
+                # Set to current if unassigned
+                if (Mnn[i, m] == -1):
+                    Mnn[i, m] = j
+                    break
 
-                    # Distance satisfies condition
-                    elif (D[i, j] <= D[i, Mnn[i, m]]):
+                # Distance satisfies condition
+                elif (D[i, j] < D[i, Mnn[i, m]]):
 
-                        # Replace higher values
-                        Mnn[i, m + 1:] = Mnn[i, m:-1]
+                    # Shift higher values
+                    for p in range(M - 1, m, -1):
+                        Mnn[i, p] = Mnn[i, p - 1]
 
-                        # Replace current value
-                        Mnn[i, m] = j
-                        break
+                    # Replace current value
+                    Mnn[i, m] = j
+                    break
 
 
 # Calculate crowding metric
diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index fb7c1b7..ee7f561 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -108,7 +108,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
         n_removed = n_removed + 1
 
         # Get items to be recalculated
-        calc_items = c_get_calc_items(I, k, M, N)
+        calc_items = c_get_calc_items(I, k, M, N - n_removed + 1)
         for n in extremes:
             calc_items.erase(n)
 
@@ -117,7 +117,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
                 X,
                 I,
                 D,
-                N, M,
+                N - n_removed, M,
                 calc_items,
             )
 
@@ -149,10 +149,17 @@ cdef c_calc_pcd_iter(
 
                 if i == I[n, m]:
 
-                    l = I[n - 1, m]
-                    u = I[n + 1, m]
+                    # No neighbor on one side
+                    if n == 0 or n == N - 1:
+                        D[i, m] = HUGE_VAL
 
-                    D[i, m] = (X[u, m] - X[l, m]) / M
+                    else:
+                        l = I[n - 1, m]
+                        u = I[n + 1, m]
+
+                        D[i, m] = (X[u, m] - X[l, m]) / M
+
+                    break
 
 
 # Calculate crowding metric
@@ -188,10 +195,13 @@ cdef cpp_set[int] c_get_calc_items(
             if I[n, m] == k:
 
                 # Add to set of items to be recalculated
-                calc_items.insert(I[n - 1, m])
-                calc_items.insert(I[n + 1, m])
+                if n > 0:
+                    calc_items.insert(I[n - 1, m])
+                if n < N - 1:
+                    calc_items.insert(I[n + 1, m])
 
                 # Remove element from sorted array
                 I[n:-1, m] = I[n + 1:, m]
+                break
 
     return calc_items
diff --git a/pymoo/functions/compiled/utils.pxd b/pymoo/functions/compiled/utils.pxd
index 303807c..28d9490 100644
--- a/pymoo/functions/compiled/utils.pxd
+++ b/pymoo/functions/compiled/utils.pxd
@@ -20,11 +20,11 @@ cdef inline int c_get_drop(double[:] d, cpp_set[int] H):
         double min_d
 
     min_d = HUGE_VAL
-    min_i = 0
+    min_i = -1
 
     for i in H:
 
-        if d[i] <= min_d:
+        if min_i == -1 or d[i] < min_d:
             min_d = d[i]
             min_i = i
 
@@ -101,6 +101,9 @@ cdef inline double[:, :] c_normalize_array(double[:, :] X, vector[int] extremes_
         double l_val, u_val, diff_val
         vector[double] min_vals, max_vals
 
+    # normalize a copy, because the array belongs to the caller
+    X = np.array(X, dtype=np.double)
+
     min_vals = vector[double]()
     max_vals = vector[double]()
 
diff --git a/pymoo/functions/standard/mnn.py b/pymoo/functions/standard/mnn.py
index 5c206ea..7347e2b 100644
--- a/pymoo/functions/standard/mnn.py
+++ b/pymoo/functions/standard/mnn.py
@@ -44,7 +44,7 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
     N = X.shape[0]
     M = X.shape[1]
 
-    if N <= M:
+    if N <= M or (twonn and N <= 2):
         return np.full(N, np.inf)
 
     if n_remove <= (N - M):
@@ -66,7 +66,9 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    norm = max_vals - min_vals
+    norm[norm == 0] = 1.0
+    X = (X - min_vals) / norm
 
     H = np.arange(N)
 
diff --git a/pymoo/functions/standard/pruning_cd.py b/pymoo/functions/standard/pruning_cd.py
index 15ff206..bbbdb59 100644
--- a/pymoo/functions/standard/pruning_cd.py
+++ b/pymoo/functions/standard/pruning_cd.py
@@ -32,7 +32,9 @@ def calc_pcd(X, n_remove=0):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    norm = max_vals - min_vals
+    norm[norm == 0] = 1.0
+    X = (X - min_vals) / norm
 
     H = np.arange(N)
     d = np.full(N, np.inf)
@@ -55,7 +57,7 @@ def calc_pcd(X, n_remove=0):
 
     # sum up the distance to next and last and norm by objectives - also reorder from sorted list
     J = np.argsort(I, axis=0)
-    _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+    _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1) / M
     d[H] = _d
     d[extremes] = np.inf
 
@@ -83,7 +85,7 @@ def calc_pcd(X, n_remove=0):
         dist_to_next[np.isnan(dist_to_next)] = 0.0
 
         J = np.argsort(I, axis=0)
-        _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+        _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1) / M
         d[H] = _d
         d[extremes] = np.inf
 
diff --git a/pymoo/operators/survival/rank_and_crowding/metrics.py b/pymoo/operators/survival/rank_and_crowding/metrics.py
index a43de7f..fb092ca 100644
--- a/pymoo/operators/survival/rank_and_crowding/metrics.py
+++ b/pymoo/operators/survival/rank_and_crowding/metrics.py
@@ -198,7 +198,7 @@ def _calc_mnn_fast(F, n_neighbors, **kwargs):
     D = squareform(pdist(F, metric="sqeuclidean"))
 
     # M neighbors
-    M = F.shape[1]
+    M = n_neighbors
     _D = np.partition(D, range(1, M + 1), axis=1)[:, 1 : M + 1]
 
     # Metric d
-- 
2.43.0


From 487f48df97388fc229875f6fea3b926a23b8ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 12/43] fix: AGEMOEA2 survival does not divide by zero when the
 first front is a single point

---
 pymoo/algorithms/moo/age2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/algorithms/moo/age2.py b/pymoo/algorithms/moo/age2.py
index 373c6d9..8841989 100644
--- a/pymoo/algorithms/moo/age2.py
+++ b/pymoo/algorithms/moo/age2.py
@@ -73,6 +73,8 @@ class AGEMOEA2(GeneticAlgorithm):
 @jit(nopython=True, fastmath=True)
 def project_on_manifold(point, p):
     dist = np.sum(point[point > 0] ** p) ** (1 / p)
+    if dist == 0.0:  # the origin is its own projection
+        return np.multiply(point, 1.0)
     return np.multiply(point, 1 / dist)
 
 
-- 
2.43.0


From 66c7791ee442bfa73494bf5cef5f2ce4200cba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 13/43] fix: choice variables with options of different types
 are sampled without converting them

---
 pymoo/core/variable.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index bdc4abe..c7b569d 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -244,7 +244,12 @@ class Choice(Variable):
         Returns:
             Array of shape (n,) containing sampled choices.
         """
-        return random_state.choice(self.options, size=n)
+        options = self.options
+        if len({type(option) for option in options}) > 1:
+            # a common numpy data type would convert options of different types
+            options = np.empty(len(options), dtype=object)
+            options[:] = self.options
+        return random_state.choice(options, size=n)
 
 
 def get(
-- 
2.43.0


From 801b605b6001db882cc9a93f9089622e4c1cb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 14/43] fix: filling columns with random members re-checks the
 rows that still contain duplicates

---
 pymoo/operators/selection/rnd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/selection/rnd.py b/pymoo/operators/selection/rnd.py
index bb916f9..e722520 100644
--- a/pymoo/operators/selection/rnd.py
+++ b/pymoo/operators/selection/rnd.py
@@ -50,7 +50,7 @@ def fast_fill_random(X, N, columns=None, Xp=None, n_max_attempts=10, random_stat
             else:
                 X[rem, col] = random_state.permutation(N)[: len(rem)]
 
-            rem = np.where((X[rem, col][:, None] == D[rem]).any(axis=1))[0]
+            rem = rem[(X[rem, col][:, None] == D[rem]).any(axis=1)]
 
             if len(rem) == 0:
                 break
-- 
2.43.0


From ae103d37bd17867cb26221edacef2677a68852df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 15/43] fix: element-wise and hash-based duplicate elimination
 keep the first of each group and report consistent positions

---
 pymoo/core/duplicate.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index ff76312..6c5b575 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -23,8 +23,12 @@ class DuplicateElimination:
         if len(pop) == 0:
             return (pop, [], []) if return_indices else pop
 
+        # the positions of the solutions (in the original set) which are still kept
+        kept = np.arange(len(pop))
+
         if to_itself:
-            pop = pop[~self._do(pop, None, np.full(len(pop), False))]
+            keep = ~self._do(pop, None, np.full(len(pop), False))
+            pop, kept = pop[keep], kept[keep]
 
         for arg in args:
             if len(arg) > 0:
@@ -33,14 +37,15 @@ class DuplicateElimination:
                 elif len(arg) == 0:
                     continue
                 else:
-                    pop = pop[~self._do(pop, arg, np.full(len(pop), False))]
+                    keep = ~self._do(pop, arg, np.full(len(pop), False))
+                    pop, kept = pop[keep], kept[keep]
 
         if return_indices:
             no_duplicate, is_duplicate = [], []
-            H = set(pop)
+            H = set(kept.tolist())
 
-            for i, ind in enumerate(original):
-                if ind in H:
+            for i in range(len(original)):
+                if i in H:
                     no_duplicate.append(i)
                 else:
                     is_duplicate.append(i)
@@ -101,16 +106,16 @@ class ElementwiseDuplicateElimination(DefaultDuplicateElimination):
 
         if other is None:
             for i in range(len(pop)):
-                for j in range(i + 1, len(pop)):
-                    val = to_float(self.cmp_func(pop[i], pop[j]))
-                    if val < self.epsilon:
+                for j in range(i):
+                    val = to_float(self.cmp_func(pop[j], pop[i]))
+                    if val <= self.epsilon:
                         is_duplicate[i] = True
                         break
         else:
             for i in range(len(pop)):
                 for j in range(len(other)):
                     val = to_float(self.cmp_func(pop[i], other[j]))
-                    if val < self.epsilon:
+                    if val <= self.epsilon:
                         is_duplicate[i] = True
                         break
 
@@ -139,16 +144,14 @@ class HashDuplicateElimination(DuplicateElimination):
 
         if other is not None:
             for o in other:
-                val = self.func(o)
-                H.add(self.func(val))
+                H.add(to_hash(self.func(o)))
 
         for i, ind in enumerate(pop):
-            val = self.func(ind)
-            h = self.func(val)
+            h = to_hash(self.func(ind))
 
             if h in H:
                 is_duplicate[i] = True
-            else:
+            elif other is None:
                 H.add(h)
 
         return is_duplicate
-- 
2.43.0


From cf34afda45b40609b655cbcaa1ea36b8362c29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 16/43] fix: mixed-variable mating accepts its own default for
 eliminating duplicates

---
 pymoo/core/mixed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/core/mixed.py b/pymoo/core/mixed.py
index 3a435c8..90a8585 100644
--- a/pymoo/core/mixed.py
+++ b/pymoo/core/mixed.py
@@ -37,6 +37,9 @@ class MixedVariableMating(InfillCriterion):
         **kwargs,
     ) -> None:
 
+        if isinstance(eliminate_duplicates, bool):
+            eliminate_duplicates = MixedVariableDuplicateElimination() if eliminate_duplicates else None
+
         super().__init__(repair, eliminate_duplicates, n_max_iterations, **kwargs)
 
         if crossover is None:
-- 
2.43.0


From 43f7068112519d25da30e98ac8af212096aa0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 17/43] fix: survival-based replacement ranks individuals by
 their survival order

---
 pymoo/core/survival.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/survival.py b/pymoo/core/survival.py
index 4763738..08884c3 100644
--- a/pymoo/core/survival.py
+++ b/pymoo/core/survival.py
@@ -127,6 +127,7 @@ class ToReplacement(Survival):
         problem: Any,
         pop: Any,
         off: Any,
+        n_survive: Optional[int] = None,
         random_state: Any = None,
         **kwargs: Any,
     ) -> Any:
@@ -140,7 +141,11 @@ class ToReplacement(Survival):
             random_state=random_state,
             **kwargs,
         )
-        merged.set("__rank__", indices)
+
+        # the position of each individual in the order of the survivors
+        rank = np.full(len(merged), len(merged))
+        rank[indices] = np.arange(len(indices))
+        merged.set("__rank__", rank)
 
         for k in range(len(pop)):
             if off[k].get("__rank__") < pop[k].get("__rank__"):
-- 
2.43.0


From f445c809f82872923d2c402e09edda23a78378c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 18/43] fix: diversity archive of C-TAEA considers every
 reference direction

---
 pymoo/algorithms/moo/ctaea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 9eb6b73..1d9f1d3 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -210,7 +210,7 @@ class CADASurvival:
         itr = 1
         S = []
         while len(S) < n_survive:
-            for i in range(n_survive):
+            for i in range(len(self.ref_dirs)):
                 (current_ca,) = np.where(niche_CA == i)
                 if len(current_ca) < itr:
                     for _ in range(itr - len(current_ca)):
-- 
2.43.0


From 582d47a747569dd80991c5ba3c7840c52e43ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 19/43] fix: convergence archive of C-TAEA always finds the
 member to be removed

---
 pymoo/algorithms/moo/ctaea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 1d9f1d3..20ed371 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -170,7 +170,7 @@ class CADASurvival:
                     (crowdest_niches,) = np.where(count == count.max())
                     worst_idx = None
                     worst_niche = None
-                    worst_fit = -1
+                    worst_fit = -np.inf
                     for crowdest_niche in crowdest_niches:
                         (crowdest,) = np.where((niche_of_individuals == index[crowdest_niche]) & survivors)
                         niche_worst = crowdest[FV[crowdest].argmax()]
-- 
2.43.0


From 37e846082dc072d9249f5a253222a0811ee01371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 20/43] fix: random state of the algorithm is passed on to
 every operator and helper drawing random numbers

---
 pymoo/algorithms/moo/cmopso.py                 | 10 ++++++----
 pymoo/algorithms/moo/dnsga2.py                 |  2 +-
 pymoo/algorithms/moo/nsga3.py                  |  1 +
 pymoo/algorithms/moo/spea2.py                  |  6 +++++-
 pymoo/algorithms/moo/unsga3.py                 |  1 +
 pymoo/algorithms/soo/nonconvex/brkga.py        |  4 +++-
 pymoo/algorithms/soo/nonconvex/de.py           |  2 +-
 pymoo/algorithms/soo/nonconvex/direct.py       |  6 +++++-
 pymoo/algorithms/soo/nonconvex/es.py           |  4 +++-
 pymoo/algorithms/soo/nonconvex/g3pcx.py        |  2 +-
 pymoo/algorithms/soo/nonconvex/ga_niching.py   |  4 +++-
 pymoo/algorithms/soo/nonconvex/nrbo.py         |  2 +-
 pymoo/algorithms/soo/nonconvex/pattern.py      | 18 ++++++++++++++++--
 pymoo/algorithms/soo/nonconvex/pso.py          |  2 +-
 pymoo/algorithms/soo/nonconvex/pso_ep.py       |  4 ++--
 pymoo/algorithms/soo/nonconvex/sres.py         |  4 +++-
 pymoo/core/algorithm.py                        |  2 +-
 pymoo/core/operator.py                         |  2 +-
 pymoo/operators/control.py                     |  2 +-
 pymoo/operators/crossover/dex.py               | 15 +++++++--------
 pymoo/operators/mutation/gauss.py              |  2 +-
 pymoo/operators/mutation/inversion.py          |  4 ++--
 pymoo/operators/repair/inverse_penalty.py      |  4 ++--
 .../survival/rank_and_crowding/classes.py      | 11 ++++++++---
 pymoo/util/archive.py                          | 12 ++++++------
 pymoo/util/randomized_argsort.py               |  2 +-
 pymoo/util/ref_dirs/reduction.py               |  2 +-
 27 files changed, 84 insertions(+), 46 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..00eb95c 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -192,7 +192,7 @@ class CMOPSO(Algorithm):
             raise Exception("Unknown velocity initialization.")
 
         self.pop.set("V", init_V)
-        self.elites = self.elites.add(self.pop)
+        self.elites = self.elites.add(self.pop, random_state=self.random_state)
 
     def _infill(self):
         (X, V) = self.pop.get("X", "V")
@@ -203,7 +203,7 @@ class CMOPSO(Algorithm):
         # create the offspring population
         off = Population.new(X=Xp, V=Vp)
         off = self.mutation(self.problem, off, random_state=self.random_state)
-        off = self.repair(self.problem, off)
+        off = self.repair(self.problem, off, random_state=self.random_state)
 
         return off
 
@@ -211,8 +211,10 @@ class CMOPSO(Algorithm):
         assert infills is not None, "This algorithm uses the AskAndTell interface thus 'infills' must to be provided."
 
         particles = Population.merge(self.pop, infills)
-        self.elites = self.elites.add(particles)
-        self.pop = self.survival.do(self.problem, particles, n_survive=self.pop_size)
+        self.elites = self.elites.add(particles, random_state=self.random_state)
+        self.pop = self.survival.do(
+            self.problem, particles, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(CrowdingDistanceTournamentSurvival.__init__)
diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..954a0ee 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,7 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..f54b6fd 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -40,6 +40,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..e0c9d95 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -175,7 +175,7 @@ class SPEA2(GeneticAlgorithm):
         selection=TournamentSelection(spea_binary_tournament),
         crossover=SBX(),
         mutation=PM(),
-        survival=SPEA2Survival(normalize=True),
+        survival=None,
         eliminate_duplicates=True,
         n_offsprings=None,
         output=MultiObjectiveOutput(),
@@ -196,6 +196,10 @@ class SPEA2(GeneticAlgorithm):
             **kwargs: {kwargs}
 
         """
+        # the survival keeps track of the normalization - thus it must not be shared by different algorithm objects
+        if survival is None:
+            survival = SPEA2Survival(normalize=True)
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 00159b3..89335bd 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -156,7 +156,9 @@ class BRKGA(GeneticAlgorithm):
         pop = Population.merge(pop[elites], infills)
 
         # the do survival selection - set the elites for the next round
-        self.pop = self.survival.do(self.problem, pop, n_survive=len(pop), algorithm=self)
+        self.pop = self.survival.do(
+            self.problem, pop, n_survive=len(pop), algorithm=self, random_state=self.random_state
+        )
 
 
 parse_doc_string(BRKGA.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..744f6d1 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..fd0ad1f 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,11 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem,
+                    pop,
+                    n_survive=self.n_max_candidates,
+                    algorithm=self,
+                    random_state=self.random_state,
                 )
 
             return candidates
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index d1a2d00..61a1519 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -130,7 +130,9 @@ class ES(GeneticAlgorithm):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
     def _set_optimum(self):
         pop = self.pop if self.opt is None else Population.merge(self.opt, self.pop)
diff --git a/pymoo/algorithms/soo/nonconvex/g3pcx.py b/pymoo/algorithms/soo/nonconvex/g3pcx.py
index ed06c7e..1e28756 100644
--- a/pymoo/algorithms/soo/nonconvex/g3pcx.py
+++ b/pymoo/algorithms/soo/nonconvex/g3pcx.py
@@ -96,7 +96,7 @@ class G3PCX(LoopwiseAlgorithm):
 
             off = self.mutation(self.problem, off, algorithm=self, random_state=self.random_state)
 
-            self.repair(self.problem, off, algorithm=self)
+            self.repair(self.problem, off, algorithm=self, random_state=self.random_state)
 
             off = yield off
 
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..2979bed 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -60,7 +60,7 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -75,6 +75,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -90,6 +91,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index ed4bb17..b4e402b 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -164,7 +164,7 @@ class NRBO(Algorithm):
 
         off = Population.new(X=off)
 
-        off = self.repair.do(self.problem, off)
+        off = self.repair.do(self.problem, off, random_state=self.random_state)
         return off
 
     def _advance(self, infills=None, **kwargs):
diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..9b22823 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,14 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem,
+                self._center,
+                self._sign,
+                self._delta,
+                self._rho,
+                random_state=self.random_state,
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +101,14 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem,
+                self._trial,
+                self._sign,
+                self._delta,
+                self._rho,
+                random_state=self.random_state,
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
diff --git a/pymoo/algorithms/soo/nonconvex/pso.py b/pymoo/algorithms/soo/nonconvex/pso.py
index 980a613..519067c 100644
--- a/pymoo/algorithms/soo/nonconvex/pso.py
+++ b/pymoo/algorithms/soo/nonconvex/pso.py
@@ -263,7 +263,7 @@ class PSO(Algorithm):
             )[0]
             off[k].set("X", mutant.X)
 
-        self.repair(problem, off)
+        self.repair(problem, off, random_state=self.random_state)
         self.sbest = sbest
 
         return off
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index f43fdf5..65c11a6 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -48,7 +48,7 @@ def pso_rotation_invariant(V, X, P_X, L_X, inertia, c1, c2, random_state=None):
     G = (X + p + local_pos) / 3
     r = np.linalg.norm(G - X, axis=1, keepdims=True)
 
-    Vp = inertia * V + alea_sphere(G, r) - X
+    Vp = inertia * V + alea_sphere(G, r, random_state=random_state) - X
 
     return Vp
 
@@ -142,7 +142,7 @@ class Swarm(InfillCriterion):
         #         delta.clear()
 
         # repair the individuals if necessary - disabled if repair is NoRepair
-        off = self.repair(problem, off, **kwargs)
+        off = self.repair(problem, off, random_state=random_state, **kwargs)
 
         # advance the parameter control by attaching them to the offsprings
         control.advance(off)
diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..73b13c6 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -242,7 +242,7 @@ class Algorithm:
 
         # add the infill solutions to an archive
         if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
+            self.archive = self.archive.add(infills, random_state=self.random_state)
 
         return ret
 
diff --git a/pymoo/core/operator.py b/pymoo/core/operator.py
index a9d5ebc..dd9f08c 100644
--- a/pymoo/core/operator.py
+++ b/pymoo/core/operator.py
@@ -43,7 +43,7 @@ class Operator:
 
         # allow to have a built-in repair (can be useful to customize standard crossover)
         if self.repair is not None:
-            self.repair.do(problem, out)
+            self.repair.do(problem, out, random_state=kwargs.get("random_state"))
 
         if to_numpy:
             out = np.array([ind.X for ind in out])
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..a39b368 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -166,7 +166,7 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=kwargs.get("random_state"))
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..75d5753 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
@@ -154,17 +154,16 @@ def rnd_F(m, random_state=None):
 # =========================================================================================================
 
 
+@default_random_state
 def bounce_back(X, Xb, xl, xu, random_state=None):
     XL = xl[None, :].repeat(len(X), axis=0)
     XU = xu[None, :].repeat(len(X), axis=0)
     i, j = np.where(X < XL)
     if len(i) > 0:
-        rs = random_state if random_state is not None else np.random
-        X[i, j] = XL[i, j] + rs.random(len(i)) * (Xb[i, j] - XL[i, j])
+        X[i, j] = XL[i, j] + random_state.random(len(i)) * (Xb[i, j] - XL[i, j])
     i, j = np.where(X > XU)
     if len(i) > 0:
-        rs = random_state if random_state is not None else np.random
-        X[i, j] = XU[i, j] - rs.random(len(i)) * (XU[i, j] - Xb[i, j])
+        X[i, j] = XU[i, j] - random_state.random(len(i)) * (XU[i, j] - Xb[i, j])
     return X
 
 
@@ -192,16 +191,16 @@ def to_bounds(X, Xb, xl, xu, random_state=None):
     return X
 
 
+@default_random_state
 def rand_init(X, Xb, xl, xu, random_state=None):
     XL = xl[None, :].repeat(len(X), axis=0)
     XU = xu[None, :].repeat(len(X), axis=0)
-    rs = random_state if random_state is not None else np.random
     i, j = np.where(X < XL)
     if len(i) > 0:
-        X[i, j] = XL[i, j] + rs.random(len(i)) * (XU[i, j] - XL[i, j])
+        X[i, j] = XL[i, j] + random_state.random(len(i)) * (XU[i, j] - XL[i, j])
     i, j = np.where(X > XU)
     if len(i) > 0:
-        X[i, j] = XU[i, j] - rs.random(len(i)) * (XU[i, j] - XL[i, j])
+        X[i, j] = XU[i, j] - random_state.random(len(i)) * (XU[i, j] - XL[i, j])
     return X
 
 
diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
diff --git a/pymoo/operators/mutation/inversion.py b/pymoo/operators/mutation/inversion.py
index 0a3f5c0..14fff5f 100644
--- a/pymoo/operators/mutation/inversion.py
+++ b/pymoo/operators/mutation/inversion.py
@@ -6,11 +6,11 @@ from pymoo.core.mutation import Mutation
 from pymoo.operators.crossover.ox import random_sequence
 
 
-def inversion_mutation(y, seq, inplace=True):
+def inversion_mutation(y, seq, inplace=True, random_state=None):
     y = y if inplace else np.copy(y)
 
     if seq is None:
-        seq = random_sequence(len(y))
+        seq = random_sequence(len(y), random_state=random_state)
     start, end = seq
 
     y[start : end + 1] = np.flip(y[start : end + 1])
diff --git a/pymoo/operators/repair/inverse_penalty.py b/pymoo/operators/repair/inverse_penalty.py
index 98f4bca..779f580 100644
--- a/pymoo/operators/repair/inverse_penalty.py
+++ b/pymoo/operators/repair/inverse_penalty.py
@@ -77,7 +77,7 @@ def inverse_penality_by_problem(problem, x, p, **kwargs):  # noqa: D417
 class InversePenaltyOutOfBoundsRepair(BoundsRepair):
     """Inverse penalty repair operator for out-of-bounds variables."""
 
-    def repair_out_of_bounds(self, problem, X, P=None, **kwargs):  # noqa: D417
+    def repair_out_of_bounds(self, problem, X, P=None, random_state=None, **kwargs):  # noqa: D417
         """Repair out-of-bounds variables using inverse penalty.
 
         Args:
@@ -94,7 +94,7 @@ class InversePenaltyOutOfBoundsRepair(BoundsRepair):
         n = len(X)
 
         for k in range(n):
-            X[k] = inverse_penality_by_problem(problem, X[k], P[k])
+            X[k] = inverse_penality_by_problem(problem, X[k], P[k], random_state=random_state)
 
         return X
 
diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..9464084 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -129,7 +129,7 @@ class ConstrRankAndCrowding(Survival):
         self.ranking = RankAndCrowding(nds=nds, crowding_func=crowding_func)
 
     def _do(  # type: ignore[override]
-        self, problem, pop, *args, n_survive=None, **kwargs
+        self, problem, pop, *args, n_survive=None, random_state=None, **kwargs
     ) -> Population:
         """Select survivors handling constraints and infeasibility.
 
@@ -165,6 +165,7 @@ class ConstrRankAndCrowding(Survival):
                     pop[feas],
                     *args,
                     n_survive=min(len(feas), n_survive),
+                    random_state=random_state,
                     **kwargs,
                 )
 
@@ -192,7 +193,9 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(  # noqa: E741
+                            CV, order="ascending", method="numpy", random_state=random_state
+                        )
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
@@ -203,6 +206,8 @@ class ConstrRankAndCrowding(Survival):
                     survivors = Population.merge(survivors, pop[infeas][front[I]])
 
         else:
-            survivors = self.ranking.do(problem, pop, *args, n_survive=n_survive, **kwargs)
+            survivors = self.ranking.do(
+                problem, pop, *args, n_survive=n_survive, random_state=random_state, **kwargs
+            )
 
         return survivors
diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..9d92a1e 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -9,7 +9,7 @@ from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
 class Truncation:
-    def __call__(self, sols, k):
+    def __call__(self, sols, k, random_state=None):
         pass
 
 
@@ -32,8 +32,8 @@ class SurvivalTruncation(Truncation):
 
         self.problem = problem
 
-    def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+    def __call__(self, sols, k, random_state=None):
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
 class Archive(Population):
@@ -68,7 +68,7 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
-    def add(self, sols):
+    def add(self, sols, random_state=None):
 
         if len(self) > 0:
             sols = merge(self, sols)
@@ -79,7 +79,7 @@ class Archive(Population):
             opt = self.duplicate_elimination.do(opt)
 
         if self.max_size and len(opt) > self.max_size:
-            opt = self.truncation(opt, self.truncate_size)
+            opt = self.truncation(opt, self.truncate_size, random_state=random_state)
 
         cls = self.__class__
         obj = cls.__new__(cls, individuals=opt, **self.view(Archive).__dict__)
@@ -90,7 +90,7 @@ class Archive(Population):
 
 
 class VoidArchive(Archive):
-    def add(self, sols):
+    def add(self, sols, random_state=None):
         return self
 
 
diff --git a/pymoo/util/randomized_argsort.py b/pymoo/util/randomized_argsort.py
index 117b058..2aa5e86 100644
--- a/pymoo/util/randomized_argsort.py
+++ b/pymoo/util/randomized_argsort.py
@@ -14,7 +14,7 @@ def randomized_argsort(A, method="numpy", order="ascending", random_state=None):
         I = P[I]  # noqa: E741
 
     elif method == "quicksort":
-        I = quicksort(A)  # noqa: E741
+        I = quicksort(A, random_state=random_state)  # noqa: E741
 
     else:
         raise Exception("Randomized sort method not known.")
diff --git a/pymoo/util/ref_dirs/reduction.py b/pymoo/util/ref_dirs/reduction.py
index 1858967..ca6ea6a 100644
--- a/pymoo/util/ref_dirs/reduction.py
+++ b/pymoo/util/ref_dirs/reduction.py
@@ -129,7 +129,7 @@ class ReductionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
         X = np.vstack([E, rnd])
 
         I = select_points_with_maximum_distance(  # noqa: E741
-            X, self.n_points, selected=list(range(len(E)))
+            X, self.n_points, selected=list(range(len(E))), random_state=random_state
         )
         centroids = X[I].copy()
 
-- 
2.43.0


From 7d350addba25acd5786bdaf4d42154b59feaaf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 21/43] fix: SPEA2 fitness is defined when an objective is
 constant

---
 pymoo/algorithms/moo/spea2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index e0c9d95..f4b9b06 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -71,7 +71,10 @@ class SPEA2Survival(Survival):
 
             ideal, nadir = self.norm.ideal_point, self.norm.nadir_point
 
-            _F = (F - ideal) / (nadir - ideal)
+            # an objective being constant so far does not contribute to the distances
+            norm = nadir - ideal
+            norm[norm == 0] = 1.0
+            _F = (F - ideal) / norm
             dists = vectorized_cdist(_F, _F, fill_diag_with_inf=True)
 
         # if no normalize is required simply use the F values from the population
-- 
2.43.0


From b3393a842079070675fd5026d518478c075c1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 22/43] fix: angles of RVEA are defined for solutions lying on
 a reference vector

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..9edac3a 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -172,7 +172,7 @@ class APDSurvival(Survival):
         F_prime = F / dist_to_ideal[:, None]
 
         # calculate for each solution the acute angles to ref dirs
-        acute_angle = np.arccos(F_prime @ self.V.T)
+        acute_angle = np.arccos(np.clip(F_prime @ self.V.T, -1.0, 1.0))
         niches = acute_angle.argmin(axis=1)
 
         # assign to each reference direction the solution
-- 
2.43.0


From 13b81966a43945a401b4cd6b6bcdf0c7a8b4cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 23/43] fix: Nelder-Mead sorts the initial simplex before
 taking steps

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..13bb4f8 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -145,7 +145,10 @@ class NelderMead(LocalSearch):
 
     def _next(self):
         if not self.is_simplex_initialized:
-            self.pop = yield self._initialize_simplex()
+            pop = yield self._initialize_simplex()
+
+            # the steps assume the simplex to be sorted from the best to the worst solution
+            self.pop = FitnessSurvival().do(self.problem, pop, n_survive=len(pop))
             self.is_simplex_initialized = True
         else:
             yield from self._step()
-- 
2.43.0


From 135fa29b97c6165009ace65dc97a715309bef7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 24/43] fix: perpendicular distance is measured relative to the
 given ideal point

---
 pymoo/decomposition/perp_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/decomposition/perp_dist.py b/pymoo/decomposition/perp_dist.py
index ddafbf1..7b6f3ae 100644
--- a/pymoo/decomposition/perp_dist.py
+++ b/pymoo/decomposition/perp_dist.py
@@ -10,5 +10,5 @@ class PerpendicularDistance(Decomposition):
         self.theta = theta
 
     def _do(self, F, weights, **kwargs):
-        _, d2 = load_function("calc_distance_to_weights")(F, weights)
+        _, d2 = load_function("calc_distance_to_weights")(F, weights, self.utopian_point)
         return d2
-- 
2.43.0


From 09794931fb49d5de1a6686579b00d4a85f432c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 25/43] fix: KKTPM leaves the ideal point passed in unchanged

---
 pymoo/indicators/kktpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index bac58d5..35348e4 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -33,7 +33,7 @@ class KKTPM:
         # if not provided take the one defined in the problem
         if z is None:
             z = problem.ideal_point()
-        z -= utopian_eps
+        z = z - utopian_eps
 
         # for convenience get the counts directly
         n_solutions, n_obj, n_ieq_constr = (
-- 
2.43.0


From c98fa9d41008a8bb25650ab070a69e013051b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 26/43] fix: incremental reference directions without
 partitions are the center of the simplex

---
 pymoo/util/ref_dirs/incremental.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/ref_dirs/incremental.py b/pymoo/util/ref_dirs/incremental.py
index e086f12..4055877 100644
--- a/pymoo/util/ref_dirs/incremental.py
+++ b/pymoo/util/ref_dirs/incremental.py
@@ -29,6 +29,9 @@ def check_n_points(n_points, n_dim):
 
 
 def incremental_lattice(n_partitions, n_dim):
+    if n_partitions == 0:
+        return np.full((1, n_dim), 1 / n_dim)
+
     I = n_dim * np.eye(n_dim)  # noqa: E741
     W = np.zeros((1, n_dim))
     edgeW = W
@@ -39,8 +42,7 @@ def incremental_lattice(n_partitions, n_dim):
         edgeW = edgeW[np.any(edgeW == 0, axis=1)]
         W = np.vstack((W + 1, edgeW))
 
-    with np.errstate(invalid="ignore", divide="ignore"):
-        return W / (n_dim * n_partitions)
+    return W / (n_dim * n_partitions)
 
 
 class IncrementalReferenceDirectionFactory(ReferenceDirectionFactory):
-- 
2.43.0


From feb37931c4240527652f75a5ed5a6fa8c86cc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 27/43] fix: step-wise Das-Dennis without partitions delivers
 its single point and ends

---
 pymoo/util/ref_dirs/das_dennis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/util/ref_dirs/das_dennis.py b/pymoo/util/ref_dirs/das_dennis.py
index a86baad..c38e754 100644
--- a/pymoo/util/ref_dirs/das_dennis.py
+++ b/pymoo/util/ref_dirs/das_dennis.py
@@ -27,15 +27,15 @@ class DasDennis:
 
     def traverse(self, func, n_points=None):
 
-        if self.n_partitions == 0:
-            return np.full((1, self.n_dim), 1 / self.n_dim)
-
         counter = 0
 
         while (n_points is None or counter < n_points) and len(self.stack) > 0:
             point, beta = self.stack.pop()
 
-            if len(point) + 1 == self.n_dim:
+            if self.n_partitions == 0:
+                func([1 / self.n_dim] * self.n_dim)
+                counter += 1
+            elif len(point) + 1 == self.n_dim:
                 point.append(beta / (1.0 * self.n_partitions))
 
                 if self.scaling is not None:
-- 
2.43.0


From 5e0f9a98675e9213ad2908b8430e760e0642c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 28/43] fix: maximum distance selection never selects a point
 twice

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 9954306..4890ae7 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -450,6 +450,6 @@ def select_points_with_maximum_distance(
 
         # add it to the selected and remove from not selected
         selected.append(int(I))
-        not_selected = [i for i, idx in enumerate(not_selected) if idx != index_in_not_selected]
+        not_selected = [idx for i, idx in enumerate(not_selected) if i != index_in_not_selected]
 
     return selected
-- 
2.43.0


From c67a11ba81b751bc585320c2126f122828321ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 29/43] fix: mapping to the simplex and selecting by distance
 leave their arguments unchanged

---
 pymoo/util/reference_direction.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 4890ae7..0194f2a 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -372,7 +372,7 @@ def map_onto_unit_simplex(rnd: NDArray, method: str) -> NDArray:
     elif method == "kraemer":
         M = sys.maxsize
 
-        rnd *= M
+        rnd = rnd * M
         rnd = rnd[:, : n_dim - 1]
         rnd = np.column_stack([np.zeros(n_points), rnd, np.full(n_points, M)])
 
@@ -419,8 +419,7 @@ def select_points_with_maximum_distance(
     Returns:
         List of indices of selected points.
     """
-    if selected is None:
-        selected = []
+    selected = [] if selected is None else list(selected)
 
     n_points, n_dim = X.shape
 
-- 
2.43.0


From a5855c88a4f28db2af17f0aa4eba802fb8118b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 30/43] fix: reported values are those of the reported
 solutions

---
 pymoo/core/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 73b13c6..b812022 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -284,7 +284,7 @@ class Algorithm:
 
         # otherwise get the values from the population
         else:
-            X, F, CV, G, H = self.opt.get("X", "F", "CV", "G", "H")  # type: ignore
+            X, F, CV, G, H = opt.get("X", "F", "CV", "G", "H")  # type: ignore
 
             # if single-objective problem and only one solution was found - create a 1d array
             if self.problem.n_obj == 1 and len(X) == 1:  # type: ignore
-- 
2.43.0


From b970294f92b05139cffa4fe1471d84abf230caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 31/43] fix: archives without a maximum size can be created

---
 pymoo/util/archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index 9d92a1e..2e6a000 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -48,7 +48,7 @@ class Archive(Population):
 
         obj = super().__new__(cls, individuals)
         obj.max_size = max_size
-        obj.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        obj.truncate_size = max_size if None in (max_size, truncate_size) else min(max_size, truncate_size)
         obj.truncation = truncation
         obj.duplicate_elimination = duplicate_elimination
 
@@ -64,7 +64,7 @@ class Archive(Population):
         duplicate_elimination = getattr(obj, "duplicate_elimination", DefaultDuplicateElimination(epsilon=1e-32))
 
         self.max_size = max_size
-        self.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        self.truncate_size = max_size if None in (max_size, truncate_size) else min(max_size, truncate_size)
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
-- 
2.43.0


From b44b95fd096600505c9f689993ac11373115a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 32/43] fix: minimum function value termination works for zero
 and negative values

---
 pymoo/termination/fmin.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..f8b8a0e 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -1,5 +1,7 @@
 """Termination based on minimum function value reached."""
 
+import numpy as np
+
 from pymoo.core.termination import Termination
 
 
@@ -13,5 +15,11 @@ class MinimumFunctionValueTermination(Termination):
 
         if not any(opt.get("feas")):
             return 0.0
+
+        f = opt.get("F").min()
+
+        if f <= self.fmin:
+            return 1.0
         else:
-            return self.fmin / opt.get("F").min()
+            # strictly less than one as long as the function value has not been reached
+            return min(1 / (1 + (f - self.fmin)), np.nextafter(1.0, 0.0))
-- 
2.43.0


From 0750fe298a4e868070f38c217879c9a72f2ddbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 33/43] fix: indicator termination stops when the threshold is
 reached from the beginning

---
 pymoo/termination/indicator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..09d39ec 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -1,5 +1,7 @@
 """Termination based on an indicator reaching a threshold."""
 
+import numpy as np
+
 from pymoo.core.termination import Termination
 
 
@@ -39,10 +41,15 @@ class IndicatorTermination(Termination):
         self._max = max(self._max, v)
         _min, _max = self._min, self._max
 
+        # if the goal has been reached already
+        if (v <= threshold) if self.goal == "minimize" else (v >= threshold):
+            return 1.0
+
         # depending on the goal either set the percentage
         if self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
         else:
             perc = (v - _min) / (threshold - _min)
 
-        return perc
+        # strictly less than one as long as the threshold has not been reached
+        return min(perc, np.nextafter(1.0, 0.0))
-- 
2.43.0


From ef3b51d84cfca2e52ecc79759bb1618d22cd9c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 34/43] fix: until-feasible termination tolerates increasing
 violations and never stops while infeasible

---
 pymoo/termination/cv.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymoo/termination/cv.py b/pymoo/termination/cv.py
index 383066e..62cc66f 100644
--- a/pymoo/termination/cv.py
+++ b/pymoo/termination/cv.py
@@ -1,5 +1,7 @@
 """Constraint violation termination criteria."""
 
+import numpy as np
+
 from pymoo.core.termination import Termination
 from pymoo.termination.delta import DeltaToleranceTermination
 
@@ -39,10 +41,12 @@ class UntilFeasibleTermination(Termination):
     def _update(self, algorithm):
         cv = algorithm.opt.get("CV").min()
 
-        if self.initial_cv is None:
-            if cv <= 0:
-                self.initial_cv = 1e-32
-            else:
-                self.initial_cv = cv
+        if cv <= 0:
+            return 1.0
+
+        # the violation might become worse than it was in the beginning
+        if self.initial_cv is None or cv > self.initial_cv:
+            self.initial_cv = cv
 
-        return 1 - cv / self.initial_cv
+        # strictly less than one as long as no feasible solution exists
+        return min(1 - cv / self.initial_cv, np.nextafter(1.0, 0.0))
-- 
2.43.0


From 071809f72a4c73e35b7516ec34b718fd38c33a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 35/43] fix: RVEA reports only the non-dominated feasible
 solutions of its population

---
 pymoo/algorithms/moo/rvea.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index 9edac3a..ed18801 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -12,7 +12,7 @@ from pymoo.operators.selection.rnd import RandomSelection
 from pymoo.termination.max_eval import MaximumFunctionCallTermination
 from pymoo.termination.max_gen import MaximumGenerationTermination
 from pymoo.util.display.multi import MultiObjectiveOutput
-from pymoo.util.misc import has_feasible, vectorized_cdist
+from pymoo.util.misc import vectorized_cdist
 
 
 class RVEA(GeneticAlgorithm):
@@ -96,12 +96,6 @@ class RVEA(GeneticAlgorithm):
         if self.adapt_freq is not None and n_gen % np.ceil(n_max_gen * self.adapt_freq) == 0:
             self.survival.adapt()
 
-    def _set_optimum(self, **kwargs):
-        if not has_feasible(self.pop):
-            self.opt = self.pop[[np.argmin(self.pop.get("CV"))]]
-        else:
-            self.opt = self.pop
-
 
 # ---------------------------------------------------------------------------------------------------------
 # Survival Selection
-- 
2.43.0


From 2f7722606fb7b80f7266769d5b76b7d1baf4764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 36/43] fix: C-TAEA does not report infeasible solutions when
 feasible ones exist

---
 pymoo/algorithms/moo/ctaea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 20ed371..0694abe 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -19,6 +19,7 @@ from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.util.dominator import Dominator
 from pymoo.util.misc import has_feasible, random_permutations
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
+from pymoo.util.optimum import filter_optimum
 
 
 # =========================================================================================================
@@ -153,7 +154,7 @@ class CADASurvival:
             F = S.get("F")
             fronts, rank = NonDominatedSorting().do(F, return_rank=True)
             S.set("rank", rank)
-            self.opt = S[fronts[0]]
+            self.opt = filter_optimum(S, least_infeasible=True)
             return S
         else:  # Too many feasible individuals
             F = Sc.get("F")
-- 
2.43.0


From f06f1e9926d2720b302ea5ea9d0d8625c2a9c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 37/43] fix: NicheGA does not report infeasible niches when
 feasible solutions exist

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 2979bed..9c7bfe4 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -230,7 +230,11 @@ class NicheGA(GA):
 
     def _set_optimum(self, **kwargs):
         if self.return_all_opt:
-            self.opt = self.pop[self.pop.get("iter") == 1]
+            opt = self.pop[self.pop.get("iter") == 1]
+            feas = opt.get("feas")
+
+            # the infeasible ones are no optima as soon as a feasible solution is known
+            self.opt = opt[feas] if np.any(feas) else opt
         else:
             super()._set_optimum()
 
-- 
2.43.0


From d4ce779dd404f8000e3058b8df85b387ef748fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 38/43] fix: zero-to-one wrapper around another wrapper
 evaluates it once

---
 pymoo/problems/zero_to_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 82c8219..3de4e4e 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -16,7 +16,7 @@ class ZeroToOne(Meta, Problem):
     def do(self, X, return_values_of, *args, **kwargs):
         Xp = self.denormalize(X)
 
-        out = super().do(Xp, return_values_of, *args, **kwargs)
+        out = self.__object__.do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
 
         return out
-- 
2.43.0


From d104afbe0860eb74cf67997bb76703eaf3c92570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 39/43] fix: reducing to a single objective works for a single
 point and a single objective

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 49f23ab..267d3eb 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -25,5 +25,5 @@ class MultiToSingleObjective(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
         F = out["F"]
         out["__F__"] = F
-        out["F"] = self.decomposition.do(F, **self.kwargs)[:, None]
+        out["F"] = self.decomposition.do(F, **self.kwargs).reshape((len(F), 1))
         return out
-- 
2.43.0


From 723d9f883ce87eac0eefb9c9939b622fca10333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 40/43] fix: high trade-off points use the neighborhood size
 they were given

---
 pymoo/mcdm/high_tradeoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index a19fa46..2497ded 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -19,7 +19,7 @@ class HighTradeoffPoints(DecisionMaking):
     def _do(self, F, **kwargs):
         n, m = F.shape
 
-        neighbors_finder = NeighborFinder(F, epsilon=0.125, n_min_neigbors="auto", consider_2d=False)
+        neighbors_finder = NeighborFinder(F, epsilon=self.epsilon, n_min_neigbors="auto", consider_2d=False)
 
         mu = np.full(n, -np.inf)
 
-- 
2.43.0


From 0b0ecec6607e6afef3cd660a3c4d50b282e78efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 41/43] fix: neighbors can be found without a minimum number,
 no outliers without valid values

---
 pymoo/core/decision_making.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/decision_making.py b/pymoo/core/decision_making.py
index 0a49f39..c27b380 100644
--- a/pymoo/core/decision_making.py
+++ b/pymoo/core/decision_making.py
@@ -29,8 +29,11 @@ class NeighborFinder:
             self.n_min_neigbors = min(2 * n_dim, _ - 1)
 
         # disable the minimum neighbor variable
+        elif n_min_neigbors is None:
+            self.n_min_neigbors = 0
+
         else:
-            self.n_min_neigbors = np.inf
+            self.n_min_neigbors = min(n_min_neigbors, _ - 1)
 
         # either choose epsilon
         self.epsilon = epsilon
@@ -84,6 +87,10 @@ def find_outliers_upper_tail(mu):
     )[0]
     mu = mu[I]
 
+    # without any valid value there are no outliers
+    if len(mu) == 0:
+        return None
+
     # calculate mean and sigma
     mean, sigma = mu.mean(), mu.std()
 
-- 
2.43.0


From f88b87ce2ffbcb7c4e42ca69939d547e25f26d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 42/43] Revert "fix: RVEA reports only the non-dominated
 feasible solutions of its population"

This reverts commit 071809f72a4c73e35b7516ec34b718fd38c33a99.
---
 pymoo/algorithms/moo/rvea.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index ed18801..9edac3a 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -12,7 +12,7 @@ from pymoo.operators.selection.rnd import RandomSelection
 from pymoo.termination.max_eval import MaximumFunctionCallTermination
 from pymoo.termination.max_gen import MaximumGenerationTermination
 from pymoo.util.display.multi import MultiObjectiveOutput
-from pymoo.util.misc import vectorized_cdist
+from pymoo.util.misc import has_feasible, vectorized_cdist
 
 
 class RVEA(GeneticAlgorithm):
@@ -96,6 +96,12 @@ class RVEA(GeneticAlgorithm):
         if self.adapt_freq is not None and n_gen % np.ceil(n_max_gen * self.adapt_freq) == 0:
             self.survival.adapt()
 
+    def _set_optimum(self, **kwargs):
+        if not has_feasible(self.pop):
+            self.opt = self.pop[[np.argmin(self.pop.get("CV"))]]
+        else:
+            self.opt = self.pop
+
 
 # ---------------------------------------------------------------------------------------------------------
 # Survival Selection
-- 
2.43.0


From 09331030d19e18cb657e9eb4d527168cf6f38c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 43/43] fix: tolerance termination does not stop while the
 change exceeds the tolerance by less than machine precision

---
 pymoo/termination/delta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/delta.py b/pymoo/termination/delta.py
index 8a86160..6e799f5 100644
--- a/pymoo/termination/delta.py
+++ b/pymoo/termination/delta.py
@@ -2,6 +2,8 @@
 
 from abc import abstractmethod
 
+import numpy as np
+
 from pymoo.core.termination import Termination
 
 
@@ -45,7 +47,8 @@ class DeltaToleranceTermination(Termination):
                 return 1.0
             else:
                 v = delta - tol
-                perc = 1 / (1 + v)
+                # strictly less than one as long as the change is not within the tolerance
+                perc = min(1 / (1 + v), np.nextafter(1.0, 0.0))
 
         # remember the data from the current iteration and set it to data
         self.data = current
-- 
2.43.0

