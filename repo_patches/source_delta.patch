From db60a998bc66c7d829db8b418ed3bbe03697b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 001/177] fix: network simplex big-M from cost magnitudes

With negative costs the artificial arc cost (max cost + 1) * n could be small or
negative, so feasible problems were returned as infeasible with a zero plan.
---
 ot/lp/network_simplex_simple.h     | 17 +++++++++--------
 ot/lp/network_simplex_simple_omp.h |  2 +-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index c3b3435..c00e06a 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -593,8 +593,9 @@ namespace lemon {
 
             Cost max_cost = 0;
             for (ArcsType i = 0; i != _arc_num; ++i) {
-                Cost cost = getCostForArc(i);
-                if (i == 0 || cost > max_cost) {
+                // magnitude: negative costs must not shrink the big-M
+                Cost cost = fabs(getCostForArc(i));
+                if (cost > max_cost) {
                     max_cost = cost;
                 }
             }
@@ -645,8 +646,8 @@ namespace lemon {
             } else {
                 _cost[arc_id] = cost;
             }
-            if (arc_id < _arc_num && (!_has_max_cost || cost > _max_cost)) {
-                _max_cost = cost;
+            if (arc_id < _arc_num && (!_has_max_cost || fabs(cost) > _max_cost)) {
+                _max_cost = fabs(cost);
                 _has_max_cost = true;
             }
         }
@@ -929,9 +930,9 @@ namespace lemon {
             _D_n2 = n2;
             // Precompute max cost once for reuse in init()
             _has_max_cost = true;
-            _max_cost = D[0];
-            for (ArcsType i = 1; i != _arc_num; ++i) {
-                if (D[i] > _max_cost) _max_cost = D[i];
+            _max_cost = 0;
+            for (ArcsType i = 0; i != _arc_num; ++i) {
+                if (fabs(D[i]) > _max_cost) _max_cost = fabs(D[i]);
             }
             return *this;
         }
@@ -1486,7 +1487,7 @@ namespace lemon {
                 for (ArcsType e = 0; e < _arc_num; ++e) {
                     setArcState(e, STATE_LOWER);
                     Cost c = getCostForArc(e);
-                    if (c > ART_COST) ART_COST = c;
+                    if (fabs(c) > ART_COST) ART_COST = fabs(c);
                     Cost rc = fabs(c + _pi[arcSource(e)] - _pi[arcTarget(e)]);
                     if ((ArcsType)maxheap.size() < K) {
                         maxheap.push({rc, e});
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index a0c5feb..9b98a3e 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -1132,7 +1132,7 @@ namespace lemon_omp {
 			} else {
 				ART_COST = 0;
 				for (ArcsType i = 0; i != _arc_num; ++i) {
-					if (_cost[i] > ART_COST) ART_COST = _cost[i];
+					if (fabs(_cost[i]) > ART_COST) ART_COST = fabs(_cost[i]);
 				}
 				ART_COST = (ART_COST + 1) * _node_num;
 			}
-- 
2.43.0


From 3ea5f9915eed64afd7fe5c6b8f950670f671bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 002/177] fix: same feasibility tolerance in the OpenMP network
 simplex

1e-14 is below the rounding of masses larger than about one, so emd(numThreads>1)
reported feasible problems as infeasible; the sequential solver uses 1e-8.
---
 ot/lp/network_simplex_simple_omp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index 9b98a3e..67a088a 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -42,7 +42,7 @@
 #undef _EPSILON
 #undef MAX_DEBUG_ITER
 #define EPSILON std::numeric_limits<Cost>::epsilon()
-#define _EPSILON 1e-14
+#define _EPSILON 1e-8
 #define MAX_DEBUG_ITER 100000
 
 /// \ingroup min_cost_flow_algs
-- 
2.43.0


From bfcb191160de1d6de43b0acdd3ce28855e31e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 003/177] fix: accept non-contiguous weight vectors in exact OT

emd, emd2 and emd2_lazy raised 'ndarray is not C-contiguous' for e.g. a = A[:, 0].
---
 ot/lp/_network_simplex.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index 8b7870d..4dc82ce 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -403,8 +403,8 @@ def emd(
         M, a, b = nx.to_numpy(M, a, b)
         M = np.asarray(M, dtype=np.float64, order="C")
 
-    a = np.asarray(a, dtype=np.float64)
-    b = np.asarray(b, dtype=np.float64)
+    a = np.asarray(a, dtype=np.float64, order="C")
+    b = np.asarray(b, dtype=np.float64, order="C")
 
     assert (
         a.shape[0] == n1 and b.shape[0] == n2
@@ -711,8 +711,8 @@ def emd2(
         M, a, b = nx.to_numpy(M, a, b)
         M = np.asarray(M, dtype=np.float64, order="C")
 
-    a = np.asarray(a, dtype=np.float64)
-    b = np.asarray(b, dtype=np.float64)
+    a = np.asarray(a, dtype=np.float64, order="C")
+    b = np.asarray(b, dtype=np.float64, order="C")
 
     assert (
         a.shape[0] == n1 and b.shape[0] == n2
@@ -1011,8 +1011,8 @@ def emd2_lazy(
 
     X_a_np = np.asarray(X_a_np, dtype=np.float64, order="C")
     X_b_np = np.asarray(X_b_np, dtype=np.float64, order="C")
-    a_np = np.asarray(a_np, dtype=np.float64)
-    b_np = np.asarray(b_np, dtype=np.float64)
+    a_np = np.asarray(a_np, dtype=np.float64, order="C")
+    b_np = np.asarray(b_np, dtype=np.float64, order="C")
 
     assert (
         a_np.shape[0] == n1 and b_np.shape[0] == n2
-- 
2.43.0


From 1ae8b28102eafeff125f3ecef2b773cf999f62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 004/177] fix: reject warm-start potentials of the wrong size
 in exact OT

They were passed to the C++ solver, which read past their end.
---
 ot/lp/_network_simplex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index 4dc82ce..a604624 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -212,6 +212,8 @@ def _prepare_warmstart(potentials_init, need_filter, row_mask, col_mask):
     alpha_init, beta_init = potentials_init
     alpha_init = np.asarray(alpha_init, dtype=np.float64)
     beta_init = np.asarray(beta_init, dtype=np.float64)
+    if alpha_init.size != row_mask.size or beta_init.size != col_mask.size:
+        raise ValueError("potentials_init must have the sizes of a and b")
     if need_filter:
         alpha_init = alpha_init[row_mask]
         beta_init = beta_init[col_mask]
@@ -1036,6 +1038,8 @@ def emd2_lazy(
         beta_init_np = nx.to_numpy(beta_init)
         alpha_init_np = np.asarray(alpha_init_np, dtype=np.float64, order="C")
         beta_init_np = np.asarray(beta_init_np, dtype=np.float64, order="C")
+        if alpha_init_np.size != a_np.size or beta_init_np.size != b_np.size:
+            raise ValueError("potentials_init must have the sizes of a and b")
 
     flow_sources, flow_targets, flow_values, cost, u, v, result_code = emd_c_lazy(
         a_np, b_np, X_a_np, X_b_np, metric, numItermax, alpha_init_np, beta_init_np
-- 
2.43.0


From 7729f2543935aac6b18a25b7d9b55b9289ab1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 005/177] fix: no reference to the first element of an empty
 vector in EMD_wrapper

---
 ot/lp/EMD_wrapper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ot/lp/EMD_wrapper.cpp b/ot/lp/EMD_wrapper.cpp
index 1cf84c7..a5e4475 100644
--- a/ot/lp/EMD_wrapper.cpp
+++ b/ot/lp/EMD_wrapper.cpp
@@ -78,7 +78,7 @@ inline void setup_warmstart_potentials(
     std::vector<double> beta_compressed(m);
     for (uint64_t i = 0; i < n; ++i) alpha_compressed[i] = alpha_init[indI[i]];
     for (uint64_t j = 0; j < m; ++j) beta_compressed[j] = beta_init[indJ[j]];
-    net.setWarmstartPotentials(&alpha_compressed[0], &beta_compressed[0], (int)n, (int)m);
+    net.setWarmstartPotentials(alpha_compressed.data(), beta_compressed.data(), (int)n, (int)m);
 }
 
 template <typename NetType>
@@ -269,7 +269,7 @@ int EMD_wrap(int n1, int n2, double *X, double *Y, double *D, double *G,
     }
 
 
-    net.supplyMap(&weights1[0], (int) n, &weights2[0], (int) m);
+    net.supplyMap(weights1.data(), (int) n, weights2.data(), (int) m);
 
     if (policy.use_dense_cost_pointer) {
         net.setDenseCostMatrix(D, n2);
@@ -363,7 +363,7 @@ int EMD_wrap_omp(int n1, int n2, double *X, double *Y, double *D, double *G,
     }
 
 
-    net.supplyMap(&weights1[0], (int) n, &weights2[0], (int) m);
+    net.supplyMap(weights1.data(), (int) n, weights2.data(), (int) m);
 
     setup_explicit_arc_costs(net, di, D, n2, indI, indJ, n, m);
 
@@ -493,7 +493,7 @@ int EMD_wrap_sparse(
     Simplex::SimplexOptions simplex_options(true);
     Simplex net(di, simplex_options, (int)(n + m), di.arcNum(), maxIter);
 
-    net.supplyMap(&weights1[0], (int)n, &weights2[0], (int)m);
+    net.supplyMap(weights1.data(), (int)n, weights2.data(), (int)m);
 
     for (uint64_t k = 0; k < n_edges; k++) {
         if (edge_to_arc[k] != UINT64_MAX) {
@@ -514,7 +514,7 @@ int EMD_wrap_sparse(
             uint64_t orig_j = indJ[j];
             beta_filtered[j] = beta_init[orig_j];
         }
-        net.setWarmstartPotentials(&alpha_filtered[0], &beta_filtered[0], n, m);
+        net.setWarmstartPotentials(alpha_filtered.data(), beta_filtered.data(), n, m);
     }
     
     int ret = net.run();
@@ -611,10 +611,10 @@ int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double
     );
     
     // Set supplies
-    net.supplyMap(&weights_a_filtered[0], n, &weights_b_filtered[0], m);
+    net.supplyMap(weights_a_filtered.data(), n, weights_b_filtered.data(), m);
     
     // Enable lazy cost computation - costs will be computed on-the-fly
-    net.setLazyCost(&coords_a_filtered[0], &coords_b_filtered[0], dim, metric, n, m);
+    net.setLazyCost(coords_a_filtered.data(), coords_b_filtered.data(), dim, metric, n, m);
     
     // Initialize warmstart if provided
     if (alpha_init != nullptr && beta_init != nullptr) {
@@ -629,7 +629,7 @@ int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double
             int orig_j = idx_b[j];
             beta_filtered[j] = beta_init[orig_j];
         }
-        net.setWarmstartPotentials(&alpha_filtered[0], &beta_filtered[0], n, m);
+        net.setWarmstartPotentials(alpha_filtered.data(), beta_filtered.data(), n, m);
     }
     
     // Run solver
-- 
2.43.0


From 6de719d8790ead8f5b48280bf490de65dba19f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 006/177] fix: initialise in_arc before the first pivot search

---
 ot/lp/network_simplex_simple.h     | 3 +++
 ot/lp/network_simplex_simple_omp.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index c00e06a..147eb20 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -1802,6 +1802,9 @@ namespace lemon {
         bool init() {
             if (_node_num == 0) return false;
 
+            // the pivot rule may look at in_arc before any arc has entered
+            in_arc = 0;
+
             // Check the sum of supply values
             _sum_supply = 0;
             for (int i = 0; i != _node_num; ++i) {
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index 67a088a..7dd829e 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -1116,6 +1116,9 @@ namespace lemon_omp {
 		bool init() {
 			if (_node_num == 0) return false;
 
+			// the pivot rule may look at in_arc before any arc has entered
+			in_arc = 0;
+
 			// Check the sum of supply values
 			_sum_supply = 0;
 			for (int i = 0; i != _node_num; ++i) {
-- 
2.43.0


From cea0c32fa68496e6750624caa8cbe13741604d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 007/177] fix: uniform weights of integer samples in
 wasserstein_1d

---
 ot/lp/solver_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 802621c..7b11dee 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -128,11 +128,11 @@ def wasserstein_1d(
     m = v_values.shape[0]
 
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
     if v_weights is None:
-        v_weights = nx.full(v_values.shape, 1.0 / m, type_as=v_values)
+        v_weights = nx.ones(v_values.shape, type_as=v_values) / m
     elif v_weights.ndim != v_values.ndim:
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
-- 
2.43.0


From 967d19b2055e5488c83a56f54f9e0939117c803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 008/177] fix: sort the weights with the values in
 semidiscrete_wasserstein2_unif_circle

---
 ot/lp/solver_circle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index af118d1..a018f2d 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -692,7 +692,9 @@ def semidiscrete_wasserstein2_unif_circle(u_values, u_weights=None):
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
-    u_values = nx.sort(u_values, 0)
+    u_sorter = nx.argsort(u_values, 0)
+    u_values = nx.take_along_axis(u_values, u_sorter, 0)
+    u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
     u_cdf = nx.cumsum(u_weights, 0)
     u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
-- 
2.43.0


From 479025e6c96fe34117cb5fd3f1de87632bd3ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:05 +0000
Subject: [PATCH 009/177] fix: count the arc across 0 in wasserstein1_circle

---
 ot/lp/solver_circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index a018f2d..a2edebd 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -521,7 +521,8 @@ def wasserstein1_circle(
     )
     cdf_diff_sorted, cdf_diff_sorter = nx.sort2(cdf_diff, axis=0)
 
-    values_sorted = nx.zero_pad(values_sorted, pad_width=[(0, 1), (0, 0)], value=1)
+    # the last interval wraps around the circle up to the first value
+    values_sorted = nx.concatenate((values_sorted, values_sorted[:1] + 1), axis=0)
     delta = values_sorted[1:, ...] - values_sorted[:-1, ...]
     weight_sorted = nx.take_along_axis(delta, cdf_diff_sorter, 0)
 
-- 
2.43.0


From 1e2ccb41247cf515a896e6a5ea9ebecc4ff6dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 010/177] fix: circle cut rounding above the last cumulated
 weight

---
 ot/lp/solver_circle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index a2edebd..9506d52 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -100,8 +100,7 @@ def derivative_cost_on_circle(theta, u_values, v_values, u_cdf, v_cdf, p=2):
     v_values[mask_n] += nx.floor(theta)[mask_n] + 1
     v_values[mask_p] += nx.floor(theta)[mask_p]
 
-    if nx.any(mask_n) and nx.any(mask_p):
-        v_cdf_theta[mask_n] += 1
+    v_cdf_theta[mask_n] += 1
 
     v_cdf_theta2 = nx.copy(v_cdf_theta)
     v_cdf_theta2[mask_n] = np.inf
@@ -195,8 +194,7 @@ def ot_cost_on_circle(theta, u_values, v_values, u_cdf, v_cdf, p):
     v_values[mask_n] += nx.floor(theta)[mask_n] + 1
     v_values[mask_p] += nx.floor(theta)[mask_p]
 
-    if nx.any(mask_n) and nx.any(mask_p):
-        v_cdf_theta[mask_n] += 1
+    v_cdf_theta[mask_n] += 1
 
     # Put negative values at the end
     v_cdf_theta2 = nx.copy(v_cdf_theta)
-- 
2.43.0


From a3f51cb6ccc24dca5739fe7719be6dccd7fea4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 011/177] fix: dual potentials past the end of the path in
 dmmot_monge_1dgrid_loss

---
 ot/lp/dmmot.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index f40a99b..5fad37d 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -177,12 +177,17 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
 
     # the above terminates when any entry in idx equals the corresponding
     # value in dims this leaves other dimensions incomplete; the remaining
-    # terms of the dual solution must be filled-in
-    for _, i in enumerate(idx):
-        try:
-            dual[_][i:] = dual[_][i]
-        except Exception:
-            pass
+    # terms of the dual solution are filled-in along the rest of the path
+    idx = [min(i, d - 1) for i, d in zip(idx, dims)]
+    for j in range(len(idx)):
+        while idx[j] < dims[j] - 1:
+            oldidx = idx.copy()
+            idx[j] += 1
+            dual[j][idx[j]] = (
+                dist_monge_max_min(idx)
+                - dist_monge_max_min(oldidx)
+                + dual[j][idx[j] - 1]
+            )
 
     dualobj = sum([np.dot(A[:, i], arr) for i, arr in enumerate(dual)])
     obj = nx.from_numpy(obj)
-- 
2.43.0


From 192222bc6885094b8bc793b7855df2953858161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 012/177] fix: dmmot_monge_1dgrid_optimize modified its input

---
 ot/lp/dmmot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index 5fad37d..e9edd3c 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -318,7 +318,7 @@ def dmmot_monge_1dgrid_optimize(
         return funcval, A_new, grad, log_dict
 
     def renormalize(A):
-        A = np.reshape(A, (n, d))
+        A = np.array(np.reshape(A, (n, d)))  # the input is left intact
         for i in range(A.shape[1]):
             if min(A[:, i]) < 0:
                 A[:, i] -= min(A[:, i])
-- 
2.43.0


From 5480bd69d3a92c924ce1a715d48dd184328a238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 013/177] fix: forward the weights in
 generalized_free_support_barycenter

---
 ot/lp/_barycenter_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index e37fbec..ee7684c 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -404,6 +404,7 @@ def generalized_free_support_barycenter(
         a_list,
         Y_init,
         b,
+        weights=weights,
         numItermax=numItermax,
         stopThr=stopThr,
         verbose=verbose,
-- 
2.43.0


From 14118ddf0bcacb579a47ba56e710f61da396b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 014/177] fix: screenkhorn with the full budget on rectangular
 problems

---
 ot/bregman/_screenkhorn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index ea00a03..b562c01 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -182,8 +182,8 @@ def screenkhorn(
         K_IJc = []
         K_IcJ = []
 
-        vec_eps_IJc = nx.zeros((nt,), type_as=M)
-        vec_eps_IcJ = nx.zeros((ns,), type_as=M)
+        vec_eps_IJc = nx.zeros((ns,), type_as=M)
+        vec_eps_IcJ = nx.zeros((nt,), type_as=M)
 
     else:
         # sum of rows and columns of K
-- 
2.43.0


From 4c87db77779df2812b4da6ea1f25c17c234f9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 015/177] fix: screenkhorn with restricted=False used undefined
 constants

---
 ot/bregman/_screenkhorn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index b562c01..7d1efa4 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -325,11 +325,11 @@ def screenkhorn(
     v0 = nx.full((nt_budget,), 1.0 / nt_budget + epsilon * kappa, type_as=M)
 
     # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
-    if restricted:
-        if ns_budget != ns or nt_budget != nt:
-            cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
-            cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
+    if ns_budget != ns or nt_budget != nt:
+        cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
+        cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
 
+    if restricted:
         for _ in range(5):  # 5 iterations
             K_IJ_v = nx.dot(K_IJ.T, u0) + cst_v
             v0 = b_J / (kappa * K_IJ_v)
-- 
2.43.0


From 2aaca7f89ac6affe7499110ea9aa566e8595dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 016/177] fix: sinkhorn_log with a single histogram column

---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index cf5efad..9cfd246 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -813,7 +813,7 @@ def sinkhorn_log(
         n_hists = 0
 
     # in case of multiple histograms
-    if n_hists > 1 and warmstart is None:
+    if n_hists and warmstart is None:
         warmstart = [None] * n_hists
 
     if n_hists:  # we do not want to use tensors sor we do a loop
-- 
2.43.0


From 9a72c25b9ad7781bc971d12e7cf4bb74d47879b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 017/177] fix: forward warn to each histogram in sinkhorn_log

---
 ot/bregman/_sinkhorn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 9cfd246..3a3c6b3 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -831,6 +831,7 @@ def sinkhorn_log(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=log,
+                warn=warn,
                 warmstart=warmstart[k],
                 **kwargs,
             )
-- 
2.43.0


From 383211dc3ad7368c6e5501e5ff5ff066d5eab315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:03 +0000
Subject: [PATCH 018/177] fix: greenkhorn stopped on drifted marginal
 violations

---
 ot/bregman/_sinkhorn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 3a3c6b3..2bd788d 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1083,7 +1083,11 @@ def greenkhorn(
             v[i_2] = new_v
 
         if stopThr_val <= stopThr:
-            break
+            # the running violations accumulate rounding errors: check the plan
+            viol = nx.sum(G, axis=1) - a
+            viol_2 = nx.sum(G, axis=0) - b
+            if max(nx.max(nx.abs(viol)), nx.max(nx.abs(viol_2))) <= stopThr:
+                break
     else:
         if warn:
             warnings.warn(
-- 
2.43.0


From ce104ceb4aa7c3c42bf82fc2b6a47bfb103ae094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:03 +0000
Subject: [PATCH 019/177] fix: screenkhorn constants when screening keeps every
 point

---
 ot/bregman/_screenkhorn.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index 7d1efa4..cce9e55 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -320,15 +320,14 @@ def screenkhorn(
             nx.ones((ns - ns_budget,), type_as=M)[:, None] * K_IcJ, axis=0
         )
 
+        # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
+        cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
+        cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
+
     # initialisation
     u0 = nx.full((ns_budget,), 1.0 / ns_budget + epsilon / kappa, type_as=M)
     v0 = nx.full((nt_budget,), 1.0 / nt_budget + epsilon * kappa, type_as=M)
 
-    # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
-    if ns_budget != ns or nt_budget != nt:
-        cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
-        cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
-
     if restricted:
         for _ in range(5):  # 5 iterations
             K_IJ_v = nx.dot(K_IJ.T, u0) + cst_v
-- 
2.43.0


From ba3cac53d044dfbd1224605abe6e0fcf6a8bfd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:32 +0000
Subject: [PATCH 020/177] fix: forward warn in empirical_sinkhorn

---
 ot/bregman/_empirical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/bregman/_empirical.py b/ot/bregman/_empirical.py
index 9eb7be6..762356c 100644
--- a/ot/bregman/_empirical.py
+++ b/ot/bregman/_empirical.py
@@ -282,6 +282,7 @@ def empirical_sinkhorn(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=True,
+                warn=warn,
                 warmstart=warmstart,
                 **kwargs,
             )
@@ -296,6 +297,7 @@ def empirical_sinkhorn(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=False,
+                warn=warn,
                 warmstart=warmstart,
                 **kwargs,
             )
-- 
2.43.0


From 61e2ec22f453ebf1f5c9ff668fba64d876301555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 021/177] fix: barycenter_sinkhorn with non-uniform weights

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 89732f9..d89ec11 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -226,7 +226,7 @@ def barycenter_sinkhorn(
 
     UKv = nx.dot(K, (A.T / nx.sum(K, axis=0)).T)
 
-    u = (geometricMean(UKv) / UKv.T).T
+    u = (geometricBar(weights, UKv) / UKv.T).T
 
     for ii in range(numItermax):
         UKv = u * nx.dot(K.T, A / nx.dot(K, u))
-- 
2.43.0


From daccf5267a28ee13936ebc0ad3ad6fb337971e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 022/177] fix: absorption in barycenter_stabilized lost the
 barycenter constraint

---
 ot/bregman/_barycenter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index d89ec11..d70c230 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -574,16 +574,18 @@ def barycenter_stabilized(
         Kv = nx.dot(K, v)
         u = A / Kv
         Ktu = nx.dot(K.T, u)
-        q = geometricBar(weights, Ktu)
+        # beta is already absorbed in Ktu
+        q = geometricBar(weights, Ktu * nx.exp(-beta / reg)[:, None])
         Q = q[:, None]
         v = Q / Ktu
         absorbing = False
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
+            v_max = nx.max(v, 1)
             alpha += reg * nx.log(nx.max(u, 1))
-            beta += reg * nx.log(nx.max(v, 1))
+            beta += reg * nx.log(v_max)
             K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
-            v = nx.ones(tuple(v.shape), type_as=v)
+            v = v / v_max[:, None]
         Kv = nx.dot(K, v)
         if (
             nx.any(Ktu == 0.0)
-- 
2.43.0


From 54cdb9836c4f433255e3a793da91bd1e20ea09a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 023/177] fix: jcpot_barycenter modified the input labels

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index d70c230..fcb4488 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -988,7 +988,7 @@ def jcpot_barycenter(
 
         # format classes to start from 0 for convenience
         if nx.min(classes) != 0:
-            Ys[d] -= nx.min(classes)
+            Ys[d] = Ys[d] - nx.min(classes)
             classes = nx.unique(Ys[d])
 
         # build the corresponding D_1 and D_2 matrices
-- 
2.43.0


From fd63b7ac071701dbb67b4a92f7d7fa57158e34ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 024/177] fix: debiased convolutional barycenter of one pixel
 wide images

---
 ot/bregman/_convolutional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_convolutional.py b/ot/bregman/_convolutional.py
index 9a82532..3945ec5 100644
--- a/ot/bregman/_convolutional.py
+++ b/ot/bregman/_convolutional.py
@@ -443,7 +443,7 @@ def _convolutional_barycenter2d_debiased(
         bar = c * nx.exp(nx.sum(weights[:, None, None] * nx.log(KU + stabThr), axis=0))
 
         for _ in range(10):
-            c = (c * bar / nx.squeeze(convol_imgs(c[None]))) ** 0.5
+            c = (c * bar / convol_imgs(c[None])[0]) ** 0.5
 
         if ii % 10 == 9:
             err = nx.sum(nx.std(V * KU, axis=0))
-- 
2.43.0


From f6b697c16e7030669ccbb4091e3451dfb1e62b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 025/177] fix: uot_1d with require_sort=False

---
 ot/unbalanced/_solver_1d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index 3d8b4f7..c3ef88c 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -236,6 +236,9 @@ def uot_1d(
 
         u_weights_sorted = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights_sorted = nx.take_along_axis(v_weights, v_sorter, 0)
+    else:
+        u_values_sorted, u_weights_sorted = u_values, u_weights
+        v_values_sorted, v_weights_sorted = v_values, v_weights
 
     f = nx.zeros(u_weights.shape, type_as=u_weights)
     fd = nx.zeros(u_weights.shape, type_as=u_weights)
@@ -279,6 +282,9 @@ def uot_1d(
         g = nx.take_along_axis(g, v_rev_sorter, 0)
         u_reweighted = nx.take_along_axis(u_rescaled, u_rev_sorter, 0) * full_mass
         v_reweighted = nx.take_along_axis(v_rescaled, v_rev_sorter, 0) * full_mass
+    else:
+        u_reweighted = u_rescaled * full_mass
+        v_reweighted = v_rescaled * full_mass
 
     # rescale OT loss
     linear_loss = loss * full_mass
-- 
2.43.0


From 1383e9ab416412794f84f33f40840e82a8768b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 026/177] fix: semi-relaxed uot_1d summed the penalties over
 the batch

---
 ot/unbalanced/_solver_1d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index c3ef88c..2afc776 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -292,9 +292,13 @@ def uot_1d(
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         uot_loss = linear_loss
     elif reg_m1 == float("inf"):
-        uot_loss = linear_loss + reg_m2 * nx.kl_div(v_reweighted, v_weights, mass=True)
+        uot_loss = linear_loss + reg_m2 * nx.kl_div(
+            v_reweighted, v_weights, mass=True, axis=0
+        )
     elif reg_m2 == float("inf"):
-        uot_loss = linear_loss + reg_m1 * nx.kl_div(u_reweighted, u_weights, mass=True)
+        uot_loss = linear_loss + reg_m1 * nx.kl_div(
+            u_reweighted, u_weights, mass=True, axis=0
+        )
     else:
         uot_loss = (
             linear_loss
-- 
2.43.0


From 26ff6ed168c24d1d6d9fb0bf61fcaada77c79e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 027/177] fix: total cost of sinkhorn_unbalanced is the
 minimised functional

---
 ot/unbalanced/_sinkhorn.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index d338e16..7850a40 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -806,11 +806,15 @@ def sinkhorn_knopp_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            total_cost = linear_cost + reg * nx.kl_div(plan, c, mass=True)
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1106,11 +1110,15 @@ def sinkhorn_stabilized_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            total_cost = linear_cost + reg * nx.kl_div(plan, c, mass=True)
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1389,11 +1397,15 @@ def sinkhorn_unbalanced_translation_invariant(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            total_cost = linear_cost + reg * nx.kl_div(plan, c, mass=True)
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
-- 
2.43.0


From aacb252eeda96c089405146d4044588a77d1ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 028/177] fix: translation-invariant sinkhorn with different
 marginal penalties

---
 ot/unbalanced/_sinkhorn.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 7850a40..10ace3a 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1291,19 +1291,15 @@ def sinkhorn_unbalanced_translation_invariant(
     fi_1 = reg_m1 / (reg_m1 + reg) if reg_m1 != float("inf") else 1
     fi_2 = reg_m2 / (reg_m2 + reg) if reg_m2 != float("inf") else 1
 
-    k1 = (
-        reg * reg_m1 / ((reg + reg_m1) * (reg_m1 + reg_m2))
-        if reg_m1 != float("inf")
-        else 0
-    )
-    k2 = (
-        reg * reg_m2 / ((reg + reg_m2) * (reg_m1 + reg_m2))
-        if reg_m2 != float("inf")
-        else 0
-    )
-
-    k_rho1 = k1 * reg_m1 / reg if reg_m1 != float("inf") else 0
-    k_rho2 = k2 * reg_m2 / reg if reg_m2 != float("inf") else 0
+    if reg_m1 == float("inf") and reg_m2 == float("inf"):
+        k_rho1, k_rho2 = 0, 0
+    elif reg_m1 == float("inf"):
+        k_rho1, k_rho2 = fi_2, 0
+    elif reg_m2 == float("inf"):
+        k_rho1, k_rho2 = 0, fi_1
+    else:
+        k_rho1 = reg_m1 * reg_m2 / ((reg + reg_m2) * (reg_m1 + reg_m2))
+        k_rho2 = reg_m1 * reg_m2 / ((reg + reg_m1) * (reg_m1 + reg_m2))
 
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         xi1, xi2 = 0, 0
@@ -1334,7 +1330,7 @@ def sinkhorn_unbalanced_translation_invariant(
         vprev = v
 
         Kv = nx.dot(K, v_)
-        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_**reg_ratio2) ** k_rho2
+        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2)) ** k_rho2
         u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1)) ** (-xi_rho1)
 
         Ktu = nx.dot(K.T, u_)
-- 
2.43.0


From dd64ed03f7513fd6fee15503350ac2fe1bd2b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 029/177] fix: total cost of lbfgsb_unbalanced after an
 abnormal line search

---
 ot/unbalanced/_lbfgs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/unbalanced/_lbfgs.py b/ot/unbalanced/_lbfgs.py
index 9591b97..241418a 100644
--- a/ot/unbalanced/_lbfgs.py
+++ b/ot/unbalanced/_lbfgs.py
@@ -330,7 +330,8 @@ def lbfgsb_unbalanced(
 
     if log:
         log = {"cost": nx.sum(G * M), "res": res}
-        log["total_cost"] = nx.from_numpy(res.fun, type_as=M0)
+        # res.fun is not the value at res.x after an abnormal line search
+        log["total_cost"] = nx.from_numpy(_func(res.x)[0], type_as=M0)
         return G, log
     else:
         return G
-- 
2.43.0


From 14ad7cfcc1ac0a5daeec9df05f7e64638dc56d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 030/177] fix: partial_wasserstein_1d truncated the power to an
 integer

---
 ot/partial/partial_cython.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/partial/partial_cython.pyx b/ot/partial/partial_cython.pyx
index c6b6a8e..c59d095 100644
--- a/ot/partial/partial_cython.pyx
+++ b/ot/partial/partial_cython.pyx
@@ -78,7 +78,7 @@ def get_cost_w1(np.ndarray[np.float64_t, ndim=1] diff_cum_sum, int idx_start, in
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def get_cost_wp(np.ndarray[np.float64_t, ndim=1] sorted_z, np.ndarray[np.int64_t, ndim=1] sorted_distrib_indicator, int idx_start, int idx_end, int p):
+def get_cost_wp(np.ndarray[np.float64_t, ndim=1] sorted_z, np.ndarray[np.int64_t, ndim=1] sorted_distrib_indicator, int idx_start, int idx_end, double p):
     """Compute Lp^p cost of a chain using no specific trick (O(N) time)."""
     cdef np.ndarray[np.float64_t, ndim=1] subset_z = sorted_z[idx_start:idx_end+1]
     cdef np.ndarray[np.int64_t, ndim=1] subset_indicator = sorted_distrib_indicator[idx_start:idx_end+1]
@@ -93,7 +93,7 @@ def compute_costs(np.ndarray[np.float64_t, ndim=1] sorted_z,
                  np.ndarray[np.float64_t, ndim=1] diff_cum_sum,
                  np.ndarray[np.int64_t, ndim=1] diff_ranks,
                  np.ndarray[np.int64_t, ndim=1] sorted_distrib_indicator,
-                 int p=1):
+                 double p=1):
     """For each element in sorted `z`, compute its minimal chain (cf note below).
     Then compute the cost for each minimal chain and sort all minimal chains in increasing 
     cost order.
@@ -403,7 +403,7 @@ def partial_wasserstein_1d_cy(
     np.ndarray[np.float64_t, ndim=1] x, 
     np.ndarray[np.float64_t, ndim=1] y, 
     int max_iter, 
-    int p
+    double p
 ):
     """Main routine for the partial Wasserstein problem in 1D.
     
-- 
2.43.0


From d142d20c041076bddf8a2d61b18fa390b47785cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 031/177] fix: partial_wasserstein_lagrange with a very
 negative multiplier

---
 ot/partial/partial_solvers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index f6e1c65..69cf70d 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -131,9 +131,6 @@ def partial_wasserstein_lagrange(
 
     if reg_m is None:
         reg_m = float(nx.max(M)) + 1
-    if reg_m < -nx.max(M):
-        return nx.zeros((len(a), len(b)), type_as=M)
-
     a0, b0, M0 = a, b, M
     # convert to humpy
     a, b, M = nx.to_numpy(a, b, M)
-- 
2.43.0


From 677fcf81817a2b5959f1ecec3992f0233bea5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 032/177] fix: partial_wasserstein_1d asked for more samples
 than there are

---
 ot/partial/partial_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 69cf70d..7dde893 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -1599,8 +1599,10 @@ def partial_wasserstein_1d(x_a, x_b, n_transported_samples=None, p=1):
     """
     x_a, x_b = list_to_array(x_a, x_b)
     nx = get_backend(x_a, x_b)
+    n_max = min(x_a.shape[0], x_b.shape[0])
     if n_transported_samples is None:
-        n_transported_samples = min(x_a.shape[0], x_b.shape[0])
+        n_transported_samples = n_max
+    n_transported_samples = min(n_transported_samples, n_max)
 
     assert (
         x_a.ndim == 1 or x_a.ndim == 2 and x_a.shape[1] == 1
-- 
2.43.0


From 2c61bc96363e232c9e35f5acf2e68e6dcaec593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 033/177] fix: mass of partial_wasserstein with costs that are
 not positive

---
 ot/partial/partial_solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 7dde893..c684220 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -296,7 +296,10 @@ def partial_wasserstein(a, b, M, m=None, nb_dummies=1, log=False, **kwargs):
     b_extended = nx.concatenate((b, b_extension))
     a_extension = nx.ones(nb_dummies, type_as=a) * (nx.sum(b) - m) / nb_dummies
     a_extended = nx.concatenate((a, a_extension))
-    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * nx.max(M) * 2
+    M_max = nx.max(nx.abs(M))
+    if M_max == 0:  # dummy points must not exchange mass
+        M_max = 1.0
+    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * M_max * 2
     M_extended = nx.concatenate(
         (
             nx.concatenate((M, nx.zeros((M.shape[0], M_extension.shape[1]))), axis=1),
-- 
2.43.0


From 0be3c7d5c77d2c6c29046f83b519faf49cc9f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 034/177] fix: partial_wasserstein without mass ignored
 nb_dummies

---
 ot/partial/partial_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index c684220..ebb4881 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -283,7 +283,9 @@ def partial_wasserstein(a, b, M, m=None, nb_dummies=1, log=False, **kwargs):
         b = nx.ones(dim_b, type_as=b) / dim_b
 
     if m is None:
-        return partial_wasserstein_lagrange(a, b, M, log=log, **kwargs)
+        return partial_wasserstein_lagrange(
+            a, b, M, nb_dummies=nb_dummies, log=log, **kwargs
+        )
     elif m < 0:
         raise ValueError("Problem infeasible. Parameter m should be greater than 0.")
     elif m > nx.min(nx.stack((nx.sum(a), nx.sum(b)))):
-- 
2.43.0


From 3dbdc7cb5f4340db12fab34cf82dfd5b4b751e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 035/177] fix: gcg left the entropic term out of its line
 search and loss

---
 ot/optim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/optim.py b/ot/optim.py
index 35f819c..f34c8b0 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -326,7 +326,7 @@ def generic_conditional_gradient(
     else:
 
         def cost(G):
-            return nx.sum(M * G) + reg1 * f(G) + reg2 * nx.sum(G * nx.log(G))
+            return nx.sum(M * G) + reg1 * f(G) + reg2 * nx.sum(G * nx.log(G + 1e-16))
 
     cost_G = cost(G)
     if log:
@@ -353,14 +353,14 @@ def generic_conditional_gradient(
             df_G = df(G)
         Mi = M + reg1 * df_G
 
-        if reg2 is not None:
-            Mi = Mi + reg2 * (1 + nx.log(G))
-
-        # solve linear program
+        # solve linear program (where the entropic term is not linearized)
         Gc, innerlog_ = lp_solver(a, b, Mi, **kwargs)
         # line search
         deltaG = Gc - G
 
+        if reg2 is not None:
+            Mi = Mi + reg2 * (1 + nx.log(G + 1e-16))
+
         res_line_search = line_search(cost, G, deltaG, Mi, cost_G, df_G, **kwargs)
         if len(res_line_search) == 3:
             # the line-search does not allow to update the gradient
@@ -910,7 +910,7 @@ def gcg(
         f,
         df,
         reg2,
-        None,
+        reg1,
         lp_solver,
         line_search,
         G0=G0,
-- 
2.43.0


From 858122c1b90ddf909632b1ef02dce04e37e16af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 036/177] fix: dummy nodes exchanged mass in partial_cg

---
 ot/optim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index f34c8b0..e6151e1 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -769,7 +769,10 @@ def partial_cg(
         # add dummy nodes to Mi
         Mi_extended = np.zeros((n_extended, m_extended), dtype=Mi.dtype)
         Mi_extended[:n, :m] = Mi
-        Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(M) * 1e2
+        Mi_max = np.max(np.abs(Mi))
+        if Mi_max == 0:  # dummy nodes must not exchange mass
+            Mi_max = 1.0
+        Mi_extended[-nb_dummies:, -nb_dummies:] = Mi_max * 1e2
 
         G_extended, log_ = emd(
             a_extended, b_extended, Mi_extended, numItermax, log=True
-- 
2.43.0


From 7d36d7154a92d1d85c3988f062b6e6642e0481d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 037/177] fix: partial_cg truncated the inner EMD at its own
 iteration budget

---
 ot/optim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index e6151e1..669a78c 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -683,6 +683,7 @@ def partial_cg(
     warn=True,
     verbose=False,
     log=False,
+    numItermaxEmd=100000,
     **kwargs,
 ):
     r"""
@@ -742,6 +743,8 @@ def partial_cg(
         Print information along iterations
     log : bool, optional
         record log if True
+    numItermaxEmd : int, optional
+        Max number of iterations for emd
     **kwargs : dict
              Parameters for linesearch
 
@@ -775,7 +778,7 @@ def partial_cg(
         Mi_extended[-nb_dummies:, -nb_dummies:] = Mi_max * 1e2
 
         G_extended, log_ = emd(
-            a_extended, b_extended, Mi_extended, numItermax, log=True
+            a_extended, b_extended, Mi_extended, numItermaxEmd, log=True
         )
         Gc = G_extended[:n, :m]
 
-- 
2.43.0


From efac3e71f7251818a50da3ece33a13a9d203aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 038/177] fix: gradients of partial (F)GW used the full instead
 of the transported masses

---
 ot/gromov/_partial.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index afb76ef..7f935d8 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -476,16 +476,17 @@ def partial_gromov_wasserstein2(
     )
 
     log_pgw["T"] = T
+    pT, qT = nx.sum(T, 1), nx.sum(T, 0)  # transported masses
     pgw = log_pgw["partial_gw_dist"]
 
     if loss_fun == "square_loss":
-        gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
-        gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
+        gC1 = 2 * C1 * nx.outer(pT, pT) - 2 * nx.dot(T, nx.dot(C2, T.T))
+        gC2 = 2 * C2 * nx.outer(qT, qT) - 2 * nx.dot(T.T, nx.dot(C1, T))
     elif loss_fun == "kl_loss":
-        gC1 = nx.log(C1 + 1e-15) * nx.outer(p, p) - nx.dot(
+        gC1 = nx.log(C1 + 1e-15) * nx.outer(pT, pT) - nx.dot(
             T, nx.dot(nx.log(C2 + 1e-15), T.T)
         )
-        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(q, q)
+        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(qT, qT)
 
     pgw = nx.set_gradients(pgw, (C1, C2), (gC1, gC2))
 
@@ -952,6 +953,7 @@ def partial_fused_gromov_wasserstein2(
     )
 
     log_pfgw["T"] = T
+    pT, qT = nx.sum(T, 1), nx.sum(T, 0)  # transported masses
     pfgw = log_pfgw["partial_fgw_dist"]
 
     # compute separate terms for gradients and log
@@ -961,13 +963,13 @@ def partial_fused_gromov_wasserstein2(
     pgw_term = log_pfgw["quad_loss"] / alpha
 
     if loss_fun == "square_loss":
-        gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
-        gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
+        gC1 = 2 * C1 * nx.outer(pT, pT) - 2 * nx.dot(T, nx.dot(C2, T.T))
+        gC2 = 2 * C2 * nx.outer(qT, qT) - 2 * nx.dot(T.T, nx.dot(C1, T))
     elif loss_fun == "kl_loss":
-        gC1 = nx.log(C1 + 1e-15) * nx.outer(p, p) - nx.dot(
+        gC1 = nx.log(C1 + 1e-15) * nx.outer(pT, pT) - nx.dot(
             T, nx.dot(nx.log(C2 + 1e-15), T.T)
         )
-        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(q, q)
+        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(qT, qT)
 
     if isinstance(alpha, int) or isinstance(alpha, float):
         pfgw = nx.set_gradients(
-- 
2.43.0


From 2c545a0bbbda9ee811fab72d213d4cba62c8472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 039/177] fix: partial GW solvers dropped warn without log

---
 ot/gromov/_partial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 7f935d8..b727428 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -300,6 +300,7 @@ def partial_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
@@ -779,6 +780,7 @@ def partial_fused_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
-- 
2.43.0


From 5cbf2918bcd78e08658f62364a2607b2d751a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 040/177] fix: entropic partial fused GW ignored the features

---
 ot/gromov/_partial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index b727428..c91de8a 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -1624,9 +1624,9 @@ def entropic_partial_fused_gromov_wasserstein(
             qG = nx.sum(G, 0)
             constC1 = nx.outer(nx.dot(fC1, pG), ones_q)
             constC2 = nx.outer(ones_p, nx.dot(qG, fC2t))
-            return alpha * gwggrad(constC1 + constC2, hC1, hC2, G, nx) + (
-                1 - alpha
-            ) * nx.sum(G * M)
+            return (
+                alpha * gwggrad(constC1 + constC2, hC1, hC2, G, nx) + (1 - alpha) * M
+            )
     else:
 
         def df(G):
@@ -1640,7 +1640,7 @@ def entropic_partial_fused_gromov_wasserstein(
             return 0.5 * alpha * (
                 gwggrad(constC1 + constC2, hC1, hC2, G, nx)
                 + gwggrad(constC1t + constC2t, hC1t, hC2t, G, nx)
-            ) + (1 - alpha) * nx.sum(G * M)
+            ) + (1 - alpha) * M
 
     cpt = 0
     err = 1
-- 
2.43.0


From 37ee7eccc8451ccbed5a07b6d49ff9cc27ed3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 041/177] fix: warmstart of entropic (F)GW overflowed with
 large epsilon

---
 ot/gromov/_bregman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 5b43a62..5942cd5 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -220,8 +220,8 @@ def entropic_gromov_wasserstein(
                 warmstart=(mu, nu),
                 **kwargs,
             )
-            mu = epsilon * nx.log(loginn["u"])
-            nu = epsilon * nx.log(loginn["v"])
+            mu = nx.log(loginn["u"])
+            nu = nx.log(loginn["v"])
 
         else:
             T = sinkhorn(p, q, tens, epsilon, method="sinkhorn", **kwargs)
@@ -1206,8 +1206,8 @@ def entropic_fused_gromov_wasserstein(
                 warmstart=(mu, nu),
                 **kwargs,
             )
-            mu = epsilon * nx.log(loginn["u"])
-            nu = epsilon * nx.log(loginn["v"])
+            mu = nx.log(loginn["u"])
+            nu = nx.log(loginn["v"])
 
         else:
             T = sinkhorn(p, q, tens, epsilon, method="sinkhorn", **kwargs)
-- 
2.43.0


From 1cbd8c0953122c41e4f605cc22073126cd2da9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 042/177] fix: epsilon of the sample coupling ignored in
 unbalanced COOT

---
 ot/gromov/_unbalanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 6971b6a..498234c 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -388,7 +388,7 @@ def fused_unbalanced_across_spaces_divergence(
 
         if divergence == "kl":
             new_rho = (rho_x * mass, rho_y * mass)
-            new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
+            new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
             new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
-- 
2.43.0


From ad7380351f5658803ec6c479d056a194253615a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 043/177] fix: swapped marginals and weights in the
 regularisation of the UCOOT cost

---
 ot/gromov/_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 4ae23d4..c2bc6ef 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1265,10 +1265,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_samp != 0:
             div_samp = div_to_product(
                 pi_samp,
-                pi1_samp,
-                pi2_samp,
                 px_samp,
                 py_samp,
+                pi1_samp,
+                pi2_samp,
                 divergence,
                 mass=True,
                 nx=nx,
@@ -1277,10 +1277,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_feat != 0:
             div_feat = div_to_product(
                 pi_feat,
-                pi1_feat,
-                pi2_feat,
                 px_feat,
                 py_feat,
+                pi1_feat,
+                pi2_feat,
                 divergence,
                 mass=True,
                 nx=nx,
-- 
2.43.0


From 8df59075666e881e501608681d5be5d7816e1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 044/177] fix: entropic fused GW barycenters never returned the
 updated features

---
 ot/gromov/_bregman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 5942cd5..144c296 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2056,11 +2056,11 @@ def entropic_fused_gromov_barycenters(
 
         # update barycenters
         if not fixed_features:
-            X = update_barycenter_feature(
+            Y = update_barycenter_feature(
                 T, Ys, lambdas, p, target=False, check_zeros=False, nx=nx
             )
 
-            Ms = [dist(X, Ys[s]) for s in range(len(Ys))]
+            Ms = [dist(Y, Ys[s]) for s in range(len(Ys))]
 
         if not fixed_structure:
             C = update_barycenter_structure(
-- 
2.43.0


From 3337e67fddf03c2bd2a84658e6de96206bdabd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 045/177] fix: (F)GW barycenters stopped as soon as one of
 features and structure was stable

---
 ot/gromov/_bregman.py     | 2 +-
 ot/gromov/_gw.py          | 2 +-
 ot/gromov/_semirelaxed.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 144c296..44047eb 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2085,7 +2085,7 @@ def entropic_fused_gromov_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index 99d5bcf..f23c8a4 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1471,7 +1471,7 @@ def fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 02fafc8..6f1b2ca 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -2140,7 +2140,7 @@ def semirelaxed_fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
-- 
2.43.0


From ef7ed7338f57c008aab6c99fa31a56c907fa8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 046/177] fix: loss of (F)GW barycenters ignored lambdas

---
 ot/gromov/_bregman.py     | 4 ++--
 ot/gromov/_gw.py          | 4 ++--
 ot/gromov/_semirelaxed.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 44047eb..6bda1f9 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -959,7 +959,7 @@ def entropic_gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["gw_dist"] for output in res])
+            curr_loss = sum(lambdas[s] * res[s][1]["gw_dist"] for s in range(S))
 
         # update barycenters
         C = update_barycenter_structure(
@@ -2052,7 +2052,7 @@ def entropic_fused_gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["fgw_dist"] for output in res])
+            curr_loss = sum(lambdas[s] * res[s][1]["fgw_dist"] for s in range(S))
 
         # update barycenters
         if not fixed_features:
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index f23c8a4..255ba7e 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1147,7 +1147,7 @@ def gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["gw_dist"] for output in res])
+            curr_loss = sum(lambdas[s] * res[s][1]["gw_dist"] for s in range(S))
 
         # update barycenters
         C = update_barycenter_structure(
@@ -1438,7 +1438,7 @@ def fgw_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["fgw_dist"] for output in res])
+            curr_loss = sum(lambdas[s] * res[s][1]["fgw_dist"] for s in range(S))
 
         # update barycenters
         if not fixed_features:
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 6f1b2ca..44ab1b7 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1721,7 +1721,7 @@ def semirelaxed_gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["srgw_dist"] for output in res])
+            curr_loss = sum(lambdas[s] * res[s][1]["srgw_dist"] for s in range(S))
 
         # update barycenters
         p = nx.concatenate([nx.sum(T[s], 0)[None, :] for s in range(S)], axis=0)
@@ -2111,7 +2111,7 @@ def semirelaxed_fgw_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["srfgw_dist"] for output in res])
+            curr_loss = sum(lambdas[s] * res[s][1]["srfgw_dist"] for s in range(S))
 
         # update barycenters
         p = nx.concatenate([nx.sum(T[s], 0)[None, :] for s in range(S)], axis=0)
-- 
2.43.0


From 3939cd0d4e3a5b0423b16708f9678c8367a31a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 047/177] fix: GW dictionary losses and gradients of asymmetric
 structures

---
 ot/gromov/_dictionary.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_dictionary.py b/ot/gromov/_dictionary.py
index 6a2b307..304e002 100644
--- a/ot/gromov/_dictionary.py
+++ b/ot/gromov/_dictionary.py
@@ -203,9 +203,9 @@ def gromov_wasserstein_dictionary_learning(
             # Stochastic projected gradient step over dictionary atoms
             grad_Cdict = np.zeros_like(Cdict)
             for batch_idx, C_idx in enumerate(batch):
-                shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                shared_term_structures = Cs_embedded[batch_idx] * const_q - Ts[
+                    batch_idx
+                ].T.dot(Cs[C_idx]).dot(Ts[batch_idx])
                 grad_Cdict += (
                     unmixings[batch_idx][:, None, None]
                     * shared_term_structures[None, :, :]
@@ -477,7 +477,7 @@ def _cg_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = T.T.dot(C).dot(T)
 
     while (convergence_criterion > tol) and (count < max_iter):
         previous_loss = current_loss
@@ -814,9 +814,9 @@ def fused_gromov_wasserstein_dictionary_learning(
             grad_Ydict = np.zeros_like(Ydict)
 
             for batch_idx, C_idx in enumerate(batch):
-                shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                shared_term_structures = Cs_embedded[batch_idx] * const_q - Ts[
+                    batch_idx
+                ].T.dot(Cs[C_idx]).dot(Ts[batch_idx])
                 shared_term_features = diag_q.dot(Ys_embedded[batch_idx]) - Ts[
                     batch_idx
                 ].T.dot(Ys[C_idx])
@@ -1144,7 +1144,7 @@ def _cg_fused_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = T.T.dot(C).dot(T)
     ones_ns_d = np.ones(Y.shape)
 
     while (convergence_criterion > tol) and (count < max_iter):
-- 
2.43.0


From cd6b9ff8e41bdfb60dd3931b16c6297ae1f25e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 048/177] fix: semi-relaxed FGW barycenters raised with kl_loss
 without initial features

---
 ot/gromov/_semirelaxed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 44ab1b7..336fcac 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1953,7 +1953,7 @@ def semirelaxed_fgw_barycenters(
             C = init_C
 
         if init_X is None:
-            X = update_barycenter_feature(T, Ys, lambdas, loss_fun=loss_fun, nx=nx)
+            X = update_barycenter_feature(T, Ys, lambdas, nx=nx)
         else:
             X = init_X
 
-- 
2.43.0


From 270882c587012457de1573e3bc85b309336e08dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 049/177] fix: GW barycenters of a single node were NaN

---
 ot/gromov/_bregman.py | 3 ++-
 ot/gromov/_gw.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 6bda1f9..0d2c640 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -887,7 +887,8 @@ def entropic_gromov_barycenters(
         generator = check_random_state(random_state)
         xalea = generator.randn(N, 2)
         C = dist(xalea, xalea)
-        C /= C.max()
+        if N > 1:
+            C /= C.max()
         C = nx.from_numpy(C, type_as=p)
     else:
         C = init_C
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index 255ba7e..57f135b 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1076,7 +1076,8 @@ def gromov_barycenters(
         rng = check_random_state(random_state)
         xalea = rng.randn(N, 2)
         C = dist(xalea, xalea)
-        C /= C.max()
+        if N > 1:
+            C /= C.max()
         C = nx.from_numpy(C, type_as=p)
     else:
         C = init_C
-- 
2.43.0


From c6fb4fcf537d5643ac6d6da39ef309d086cdc9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 050/177] fix: semirelaxed_init_plan returned NaN for
 partitions with empty clusters

---
 ot/gromov/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index c2bc6ef..95b5659 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -565,14 +565,14 @@ def semirelaxed_init_plan(
                 T_ = p[:, None] * T_
                 q = nx.sum(T_, 0)
 
-                factored_C1 = nx.dot(nx.dot(T_.T, C1), T_) / nx.outer(q, q)
+                # a partition can have empty clusters
+                inv_q = nx.nan_to_num(1.0 / q, posinf=0.0)
+                factored_C1 = nx.dot(nx.dot(T_.T, C1), T_) * nx.outer(inv_q, inv_q)
 
                 # alignment of both structure seen as feature matrices
                 if use_target:
                     M_structure = euclidean_distances(factored_C1, C2)
                     T_emd = emd(q, q, M_structure)
-                    inv_q = 1.0 / q
-
                     T = nx.dot(T_, inv_q[:, None] * T_emd)
                 else:
                     T = T_
@@ -581,13 +581,13 @@ def semirelaxed_init_plan(
                 T_ = nx.eye(n, type_as=C1)[part] / m  # assume uniform masses on C2
                 q = nx.sum(T_, 0)
 
-                factored_C2 = nx.dot(nx.dot(T_.T, C2), T_) / nx.outer(q, q)
+                # a partition can have empty clusters
+                inv_q = nx.nan_to_num(1.0 / q, posinf=0.0)
+                factored_C2 = nx.dot(nx.dot(T_.T, C2), T_) * nx.outer(inv_q, inv_q)
 
                 # alignment of both structure seen as feature matrices
                 M_structure = euclidean_distances(factored_C2, C1)
                 T_emd = emd(q, p, M_structure)
-                inv_q = 1.0 / q
-
                 T = nx.dot(T_, inv_q[:, None] * T_emd).T
                 q = nx.sum(T, 0)  # uniform one
             else:
-- 
2.43.0


From 0acc7b7ee4fada339599aa4847b660a6f2c17d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 051/177] fix: quantized (F)GW returned the plan in the order
 of the partitions

---
 ot/gromov/_quantized.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 861cbfd..9ef3783 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -273,6 +273,15 @@ def quantized_fused_gromov_wasserstein_partitioned(
         return T_global, Ts_local, T
 
 
+def _restore_node_order(T, part1, part2, nx):
+    r"""Reorder a plan built partition by partition along the original nodes."""
+    orders = [
+        np.argsort(np.argsort(nx.to_numpy(part), kind="stable"))
+        for part in (part1, part2)
+    ]
+    return T[orders[0], :][:, orders[1]]
+
+
 def get_graph_partition(
     C, npart, part_method="random", F=None, alpha=1.0, random_state=0, nx=None
 ):
@@ -846,6 +855,7 @@ def quantized_fused_gromov_wasserstein(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         # compute the transport cost on structures
         constC, hC1, hC2 = init_matrix(C1, C2, p, q, "square_loss", nx)
@@ -862,6 +872,7 @@ def quantized_fused_gromov_wasserstein(
 
     else:
         T_global, Ts_local, T = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         return T_global, Ts_local, T
 
@@ -1269,6 +1280,7 @@ def quantized_fused_gromov_wasserstein_samples(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         C1 = dist(X1, X1)
         C2 = dist(X2, X2)
@@ -1288,5 +1300,6 @@ def quantized_fused_gromov_wasserstein_samples(
 
     else:
         T_global, Ts_local, T = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         return T_global, Ts_local, T
-- 
2.43.0


From 2bb52fe405b03c1328b95110ee418d0732dac2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 052/177] fix: quantized GW of samples raised with fewer
 distinct samples than partitions

---
 ot/gromov/_quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 9ef3783..7e892d4 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -956,7 +956,7 @@ def get_partition_and_representants_samples(
         part = nx.from_numpy(km.labels_, type_as=X0)
 
         rep_indices = []
-        for part_id in range(npart):
+        for part_id in np.unique(km.labels_):  # duplicates leave clusters empty
             indices = nx.where(part == part_id)[0]
             dists = dist(X[indices], km.cluster_centers_[part_id][None, :])
             best_idx = indices[dists.argmin()]
-- 
2.43.0


From b9040d695aa262735fa9155ba2527159f513e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 053/177] fix: GW_distance_estimation swapped the arguments of
 the loss when ns < nt

---
 ot/gromov/_estimators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 18359af..79f9477 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -96,6 +96,12 @@ def GW_distance_estimation(
         C1, C2 = C2, C1
         T = T.T
 
+        def loss(x, y):
+            return loss_fun(y, x)
+
+    else:
+        loss = loss_fun
+
     if nb_samples_p is None:
         if nx.issparse(T):
             # If T is sparse, it probably mean that PoGroW was used, thus the number of sample is reduced
@@ -143,7 +149,7 @@ def GW_distance_estimation(
 
     list_value_sample = nx.stack(
         [
-            loss_fun(
+            loss(
                 C1[np.ix_(index_i, index_j)], C2[np.ix_(index_k[:, n], index_l[:, n])]
             )
             for n in range(nb_samples_q)
-- 
2.43.0


From 8c72a53e88ef730125409348829b36b6a7dce32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 054/177] fix: GW_distance_estimation was biased for weights
 that are not uniform

---
 ot/gromov/_estimators.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 79f9477..5c42563 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -111,6 +111,9 @@ def GW_distance_estimation(
     else:
         # The number of sample along the first dimension is without replacement.
         nb_samples_p = min(nb_samples_p, len_p)
+    # nodes without mass are never sampled
+    support = np.flatnonzero(nx.to_numpy(p))
+    nb_samples_p = min(nb_samples_p, len(support))
     if nb_samples_q is None:
         nb_samples_q = 1
     if std:
@@ -119,12 +122,11 @@ def GW_distance_estimation(
     index_k = np.zeros((nb_samples_p, nb_samples_q), dtype=int)
     index_l = np.zeros((nb_samples_p, nb_samples_q), dtype=int)
 
-    index_i = generator.choice(
-        len_p, size=nb_samples_p, p=nx.to_numpy(p), replace=False
-    )
-    index_j = generator.choice(
-        len_p, size=nb_samples_p, p=nx.to_numpy(p), replace=False
-    )
+    # uniform draws without replacement weighted by the masses of the nodes keep
+    # the estimator unbiased
+    index_i = generator.choice(support, size=nb_samples_p, replace=False)
+    index_j = generator.choice(support, size=nb_samples_p, replace=False)
+    weights = len(support) ** 2 * nx.outer(p[index_i], p[index_j])[:, :, None]
 
     for i in range(nb_samples_p):
         if nx.issparse(T):
@@ -156,6 +158,7 @@ def GW_distance_estimation(
         ],
         axis=2,
     )
+    list_value_sample = weights * list_value_sample
 
     if std:
         std_value = nx.sum(nx.std(list_value_sample, axis=2) ** 2) ** 0.5
-- 
2.43.0


From 7f248a6fa3c18aa4da4804673eeaadd666959092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 055/177] fix: sampled GW raised for zero weights and sparse
 plans

---
 ot/gromov/_estimators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 5c42563..4abe629 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -400,6 +400,8 @@ def sampled_gromov_wasserstein(
             nb_samples_grad_p, nb_samples_grad_q = nb_samples_grad, 1
     else:
         nb_samples_grad_p, nb_samples_grad_q = nb_samples_grad
+    # nodes without mass are never sampled
+    nb_samples_grad_p = min(nb_samples_grad_p, np.count_nonzero(nx.to_numpy(p)))
     T = nx.outer(p, q)
     # continue_loop allows to stop the loop if there is several successive small modification of T.
     continue_loop = 0
@@ -420,17 +422,18 @@ def sampled_gromov_wasserstein(
                 if nx.issparse(T)
                 else T[index0_i, :]
             )
+            prob_row = nx.to_numpy(T_row / nx.sum(T_row))
             index1 = generator.choice(
                 len_q,
-                size=nb_samples_grad_q,
-                p=nx.to_numpy(T_row / nx.sum(T_row)),
+                size=min(nb_samples_grad_q, np.count_nonzero(prob_row)),
+                p=prob_row,
                 replace=False,
             )
             # If the matrices C are not symmetric, the gradient has 2 terms, thus the term is chosen randomly.
             if (not C_are_symmetric) and generator.rand(1) > 0.5:
                 Lik += nx.mean(
                     loss_fun(
-                        C1[:, [index0[i]] * nb_samples_grad_q][:, None, :],
+                        C1[:, [index0[i]] * len(index1)][:, None, :],
                         C2[:, index1][None, :, :],
                     ),
                     axis=2,
@@ -438,7 +441,7 @@ def sampled_gromov_wasserstein(
             else:
                 Lik += nx.mean(
                     loss_fun(
-                        C1[[index0[i]] * nb_samples_grad_q, :][:, :, None],
+                        C1[[index0[i]] * len(index1), :][:, :, None],
                         C2[index1, :][:, None, :],
                     ),
                     axis=0,
-- 
2.43.0


From 19c74fbb92f6aceb92c770c77453de7bfcb98fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 056/177] fix: low-rank GW value used stale weights of the
 common marginal

---
 ot/gromov/_lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index b7f5c49..352c978 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -321,7 +321,7 @@ def lowrank_gromov_wasserstein_samples(
     c1 = nx.dot(x_, a) + nx.dot(y_, b)
 
     G = nx.dot(C1, nx.dot(C2, R))
-    G = nx.dot(Q.T, G * diag_g)
+    G = nx.dot(Q.T, G * (1 / g)[None, :])
     value_quad = c1 + nx.trace(G) / 2
 
     if reg != 0:
-- 
2.43.0


From 5b2f8f5037151c08cd44f8aa6afe1c92998aa443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 057/177] fix: low-rank Sinkhorn linear value used stale
 weights of the common marginal

---
 ot/lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index f4e3aa4..4760490 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -507,7 +507,7 @@ def lowrank_sinkhorn(
 
     # Compute value_linear (using trace formula)
     A = nx.dot(M1.T, Q)
-    B = nx.dot(M2.T, R * diag_g)
+    B = nx.dot(M2.T, R * (1 / g)[None, :])
     value_linear = nx.sum(A * B)
 
     # Compute value with entropy reg (see "Section 3.2" in the paper)
-- 
2.43.0


From 8d5920f9c328294317f4ad1ab9eb0f4c20f8384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 058/177] fix: message of low-rank solvers about alpha raised
 TypeError without rank

---
 ot/gromov/_lowrank.py | 2 +-
 ot/lowrank.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index 352c978..f09d237 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -199,7 +199,7 @@ def lowrank_gromov_wasserstein_samples(
     if 1 / r < alpha:
         raise ValueError(
             "alpha ({a}) should be smaller than 1/rank ({r}) for the Dykstra algorithm to converge.".format(
-                a=alpha, r=1 / rank
+                a=alpha, r=1 / r
             )
         )
 
diff --git a/ot/lowrank.py b/ot/lowrank.py
index 4760490..090eed7 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -439,7 +439,7 @@ def lowrank_sinkhorn(
     if 1 / r < alpha:
         raise ValueError(
             "alpha ({a}) should be smaller than 1/rank ({r}) for the Dykstra algorithm to converge.".format(
-                a=alpha, r=1 / rank
+                a=alpha, r=1 / r
             )
         )
 
-- 
2.43.0


From a8b097942735fdfd93a136a9c42e41bee17f1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 059/177] fix: quantized (F)GW ignored the networkx partitions
 and representants

---
 ot/gromov/_quantized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 7e892d4..bf60655 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -713,8 +713,8 @@ def quantized_fused_gromov_wasserstein(
                 default methods. Consider installing Networkx to fix this.
                 """
             )
-        part_method = "random"
-        rep_method = "random"
+            part_method = "random"
+            rep_method = "random"
 
     if (part_method in ["spectral", "spectral_fused"]) and (not sklearn_import):
         warnings.warn(
-- 
2.43.0


From dce8641f1b3c709aa1dfe8256069f27cb23feb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 060/177] fix: estimation of GW between single nodes was NaN

---
 ot/gromov/_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 4abe629..bdc195f 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -105,7 +105,7 @@ def GW_distance_estimation(
     if nb_samples_p is None:
         if nx.issparse(T):
             # If T is sparse, it probably mean that PoGroW was used, thus the number of sample is reduced
-            nb_samples_p = min(int(5 * (len_p * np.log(len_p)) ** 0.5), len_p)
+            nb_samples_p = max(1, min(int(5 * (len_p * np.log(len_p)) ** 0.5), len_p))
         else:
             nb_samples_p = len_p
     else:
-- 
2.43.0


From c2e9905b600ded3fc0b314c01dceb93dce73cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 061/177] fix: low-rank solvers overflowed to NaN when the
 gradient is tiny or null

---
 ot/gromov/_lowrank.py | 4 +++-
 ot/lowrank.py         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index f09d237..cfb7835 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -262,7 +262,9 @@ def lowrank_gromov_wasserstein_samples(
                 norm_1 = nx.max(nx.abs(CR_g + reg * nx.log(Q))) ** 2
                 norm_2 = nx.max(nx.abs(CQ_g + reg * nx.log(R))) ** 2
                 norm_3 = nx.max(nx.abs(-omega * (diag_g**2))) ** 2
-                gamma = 10 / max(norm_1, norm_2, norm_3)
+                norm = max(norm_1, norm_2, norm_3)
+                # a null gradient allows any step, a tiny one may not overflow the kernels
+                gamma = min(10 / norm, 500 / norm**0.5) if norm > 0 else 1.0
 
             K1 = nx.exp(-gamma * CR_g - ((gamma * reg) - 1) * nx.log(Q))
             K2 = nx.exp(-gamma * CQ_g - ((gamma * reg) - 1) * nx.log(R))
diff --git a/ot/lowrank.py b/ot/lowrank.py
index 090eed7..c7391dd 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -485,7 +485,9 @@ def lowrank_sinkhorn(
             norm_1 = nx.max(nx.abs(CR_ * diag_g + reg * nx.log(Q))) ** 2
             norm_2 = nx.max(nx.abs(CQ_ * diag_g + reg * nx.log(R))) ** 2
             norm_3 = nx.max(nx.abs(-omega * diag_g)) ** 2
-            gamma = 10 / max(norm_1, norm_2, norm_3)
+            norm = max(norm_1, norm_2, norm_3)
+            # a null gradient allows any step, a tiny one may not overflow the kernels
+            gamma = min(10 / norm, 500 / norm**0.5) if norm > 0 else 1.0
 
         eps1 = nx.exp(-gamma * CR_g - ((gamma * reg) - 1) * nx.log(Q))
         eps2 = nx.exp(-gamma * CQ_g - ((gamma * reg) - 1) * nx.log(R))
-- 
2.43.0


From 87f8a8a5ca10ee06b80b4ecf03aaf74bf5d0407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 062/177] fix: method argument ignored by the smooth OT solvers

---
 ot/smooth.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 9fbac6c..0c88953 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -612,7 +612,14 @@ def smooth_ot_dual(
 
     # solve dual
     alpha, beta, res = solve_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
@@ -739,7 +746,14 @@ def smooth_ot_semi_dual(
 
     # solve dual
     alpha, res = solve_semi_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
-- 
2.43.0


From 2afc09da51ef19435335a08cc431c8333a908920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 063/177] fix: sparsity constrained conjugate failed on an
 inactive cap and modified its input

---
 ot/smooth.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 0c88953..010d179 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -233,7 +233,11 @@ class SparsityConstrained(Regularization):
 
     def delta_Omega(self, X):
         # For each column of X, find entries that are not among the top max_nz.
-        non_top_indices = np.argpartition(-X, self.max_nz, axis=0)[self.max_nz :]
+        X = X.copy()
+        if self.max_nz < X.shape[0]:
+            non_top_indices = np.argpartition(-X, self.max_nz, axis=0)[self.max_nz :]
+        else:  # the constraint is not active
+            non_top_indices = np.zeros((0,) + X.shape[1:], dtype=int)
         # Set these entries to -inf.
         if X.ndim == 1:
             X[non_top_indices] = 0.0
-- 
2.43.0


From 4fe49a98d5c0d555da19ad9362efd9f4e75522ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 064/177] fix: negative entropy of a plan with zeros was NaN

---
 ot/smooth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 010d179..a3cbc81 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -58,6 +58,7 @@ Learning Representations (ICLR).
 
 import numpy as np
 from scipy.optimize import minimize
+from scipy.special import xlogy
 from .backend import get_backend
 import ot
 
@@ -202,7 +203,7 @@ class NegEntropy(Regularization):
         return val, G
 
     def Omega(self, T):
-        return self.gamma * np.sum(T * np.log(T))
+        return self.gamma * np.sum(xlogy(T, T))
 
 
 class SquaredL2(Regularization):
-- 
2.43.0


From 06147686ef0d2fba980e9970dc15cfb52694b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 065/177] fix: smooth semi-dual was NaN for null target weights

---
 ot/smooth.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index a3cbc81..8a7e64b 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -396,7 +396,10 @@ def semi_dual_obj_grad(alpha, a, b, C, regul):
     grad = a.copy()
 
     # X[:, j] = alpha - C[:, j]
-    X = alpha[:, np.newaxis] - C
+    # columns without mass do not contribute
+    pos = b > 0
+    b = b[pos]
+    X = alpha[:, np.newaxis] - C[:, pos]
 
     # val.shape = len(b)
     # G.shape = len(a) x len(b)
@@ -498,8 +501,11 @@ def get_plan_from_semi_dual(alpha, b, C, regul):
     T: array, shape = (len(a), len(b))
         Optimal transportation plan.
     """
-    X = alpha[:, np.newaxis] - C
-    return regul.max_Omega(X, b)[1] * b
+    pos = b > 0
+    X = alpha[:, np.newaxis] - C[:, pos]
+    G = np.zeros(C.shape)
+    G[:, pos] = regul.max_Omega(X, b[pos])[1] * b[pos]
+    return G
 
 
 def smooth_ot_dual(
-- 
2.43.0


From fe2e31f03111701300d921e9f87651a1cdb8a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 066/177] fix: stochastic semi-dual gradient and c-transform
 underflowed

---
 ot/stochastic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 25b08c6..0ee99cf 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -67,7 +67,8 @@ def coordinate_grad_semi_dual(b, M, reg, beta, i):
         Advances in Neural Information Processing Systems (2016).
     """
     r = M[i, :] - beta
-    exp_beta = np.exp(-r / reg) * b
+    min_r = np.min(r[b > 0])
+    exp_beta = np.where(b > 0, np.exp(np.minimum(min_r - r, 0) / reg) * b, 0)
     khi = exp_beta / (np.sum(exp_beta))
     return b - khi
 
@@ -274,8 +275,8 @@ def c_transform_entropic(b, M, reg, beta):
     alpha = np.zeros(n_source)
     for i in range(n_source):
         r = M[i, :] - beta
-        min_r = np.min(r)
-        exp_beta = np.exp(-(r - min_r) / reg) * b
+        min_r = np.min(r[b > 0])
+        exp_beta = np.exp(np.minimum(min_r - r, 0) / reg) * b
         alpha[i] = min_r - reg * np.log(np.sum(exp_beta))
     return alpha
 
-- 
2.43.0


From e40dda8afda58f351710147a57f89cf0b7f4c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 067/177] fix: averaged SGD ignored the source weights

---
 ot/stochastic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 0ee99cf..943e4da 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -219,7 +219,9 @@ def averaged_sgd_entropic_transport(
     for cur_iter in range(numItermax):
         k = cur_iter + 1
         i = rng.randint(n_source)
-        cur_coord_grad = coordinate_grad_semi_dual(b, M, reg, cur_beta, i)
+        cur_coord_grad = (
+            n_source * a[i] * coordinate_grad_semi_dual(b, M, reg, cur_beta, i)
+        )
         cur_beta += (lr / np.sqrt(k)) * cur_coord_grad
         ave_beta = (1.0 / k) * cur_beta + (1 - 1.0 / k) * ave_beta
     return ave_beta
-- 
2.43.0


From b62d99eb46758bcbe6762f7343c259d7f68bd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 068/177] fix: unknown stochastic method returned None silently

---
 ot/stochastic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 943e4da..b99c678 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -356,8 +356,7 @@ def solve_semi_dual_entropic(
     elif method.lower() == "asgd":
         opt_beta = averaged_sgd_entropic_transport(a, b, M, reg, numItermax, lr)
     else:
-        print("Please, select your method between SAG and ASGD")
-        return None
+        raise ValueError("Please, select your method between SAG and ASGD")
 
     opt_alpha = c_transform_entropic(b, M, reg, opt_beta)
     pi = (
-- 
2.43.0


From 11fc15304c9ce72f1954e717074906d07bd69fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 069/177] fix: stochastic semi-dual plan was NaN for null
 target weights

---
 ot/stochastic.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index b99c678..3ad8977 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -359,11 +359,9 @@ def solve_semi_dual_entropic(
         raise ValueError("Please, select your method between SAG and ASGD")
 
     opt_alpha = c_transform_entropic(b, M, reg, opt_beta)
-    pi = (
-        np.exp((opt_alpha[:, None] + opt_beta[None, :] - M[:, :]) / reg)
-        * a[:, None]
-        * b[None, :]
-    )
+    log_pi = (opt_alpha[:, None] + opt_beta[None, :] - M[:, :]) / reg
+    log_pi[:, b == 0] = -np.inf  # could overflow where there is no mass
+    pi = np.exp(log_pi) * a[:, None] * b[None, :]
 
     if log:
         log = {}
-- 
2.43.0


From e5019ab5c1d8c77369f1445239372f5b46c439c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 070/177] fix: debug print left in projection_sparse_simplex

---
 ot/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index eb90cb2..1fd5acb 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -201,7 +201,6 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
 
         row_indices = nx.arange(V.shape[0])
         row_indices = row_indices.reshape(-1, 1)
-        print(row_indices.shape)
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-- 
2.43.0


From f942d07eee71cbc5c94dbec3fbffc52529710ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 071/177] fix: regularisation path wrong or singular when
 penalties tie or weights are null

---
 ot/regpath.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index aedc35b..755c027 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -212,6 +212,19 @@ def recast_semi_relaxed_as_lasso(a, b, C):
     return Hr, Hc, c
 
 
+def _largest_crossing(u, v, excluded, current_gamma):
+    r"""Largest :math:`\gamma`, at most `current_gamma`, below which one of the
+    quantities :math:`u - \gamma v` (non negative at `current_gamma`) becomes
+    negative, with its index. Only the quantities that decrease with
+    :math:`\gamma` are candidates, including those that are already null."""
+    scale = np.max(np.abs(v), initial=0) + np.max(np.abs(u), initial=0) / current_gamma
+    decreasing = v < -1e-12 * scale
+    decreasing[excluded] = False
+    M = np.zeros(v.shape)
+    M[decreasing] = np.minimum(u[decreasing] / v[decreasing], current_gamma)
+    return np.max(M), np.argmax(M)
+
+
 def ot_next_gamma(phi, delta, HtH, Hty, c, active_index, current_gamma):
     r""" This function computes the next value of gamma if a variable
     is added in the next iteration of the regularization path.
@@ -269,12 +282,12 @@ def ot_next_gamma(phi, delta, HtH, Hty, c, active_index, current_gamma):
         Unbalanced optimal transport through non-negative penalized
         linear regression. NeurIPS.
     """
-    M = (HtH[:, active_index].dot(phi) - Hty) / (
-        HtH[:, active_index].dot(delta) - c + 1e-16
+    return _largest_crossing(
+        HtH[:, active_index].dot(phi) - Hty,
+        HtH[:, active_index].dot(delta) - c,
+        active_index,
+        current_gamma,
     )
-    M[active_index] = 0
-    M[M > (current_gamma - 1e-10 * current_gamma)] = 0
-    return np.max(M), np.argmax(M)
 
 
 def semi_relaxed_next_gamma(
@@ -346,12 +359,12 @@ def semi_relaxed_next_gamma(
         linear regression. NeurIPS.
     """
 
-    M = (HrHr[:, active_index].dot(phi) - Hra + Hc.T.dot(phi_u)) / (
-        HrHr[:, active_index].dot(delta) - c + Hc.T.dot(delta_u) + 1e-16
+    return _largest_crossing(
+        HrHr[:, active_index].dot(phi) - Hra + Hc.T.dot(phi_u),
+        HrHr[:, active_index].dot(delta) - c + Hc.T.dot(delta_u),
+        active_index,
+        current_gamma,
     )
-    M[active_index] = 0
-    M[M > (current_gamma - 1e-10 * current_gamma)] = 0
-    return np.max(M), np.argmax(M)
 
 
 def compute_next_removal(phi, delta, current_gamma):
@@ -398,9 +411,7 @@ def compute_next_removal(phi, delta, current_gamma):
         Unbalanced optimal transport through non-negative penalized
         linear regression. NeurIPS.
     """
-    r_candidate = phi / (delta - 1e-16)
-    r_candidate[r_candidate >= (1 - 1e-8) * current_gamma] = 0
-    return np.max(r_candidate), np.argmax(r_candidate)
+    return _largest_crossing(phi, delta, [], current_gamma)
 
 
 def complement_schur(M_current, b, d, id_pop):
-- 
2.43.0


From 94531415c991e97170ac20f866dbacd577eccf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 072/177] fix: truncated regularisation path extrapolated to an
 infeasible plan

---
 ot/regpath.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index 755c027..bcad674 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -678,14 +678,14 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
     if itmax <= n_iter:
         print("maximum iteration has been reached !")
 
-    # correct the last solution and gamma
-    if len(t_list) > 1:
+    # correct the last solution and gamma (unless the path was truncated)
+    if len(t_list) > 1 and gamma_list[-1] <= reg:
         t_final = t_list[-2] + (t_list[-1] - t_list[-2]) * (reg - gamma_list[-2]) / (
             gamma_list[-1] - gamma_list[-2]
         )
         t_list[-1] = t_final
         gamma_list[-1] = reg
-    else:
+    elif gamma_list[-1] <= reg:
         gamma_list[-1] = reg
         print("Regularization path does not exist !")
 
@@ -833,14 +833,14 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
     if itmax <= n_iter:
         print("maximum iteration has been reached !")
 
-    # correct the last solution and gamma
-    if len(t_list) > 1:
+    # correct the last solution and gamma (unless the path was truncated)
+    if len(t_list) > 1 and gamma_list[-1] <= reg:
         t_final = t_list[-2] + (t_list[-1] - t_list[-2]) * (reg - gamma_list[-2]) / (
             gamma_list[-1] - gamma_list[-2]
         )
         t_list[-1] = t_final
         gamma_list[-1] = reg
-    else:
+    elif gamma_list[-1] <= reg:
         gamma_list[-1] = reg
         print("Regularization path does not exist !")
 
-- 
2.43.0


From 3aaf8e4417b300858942588097cdcbda6e38782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 073/177] fix: BaseTransport.fit rescaled limit_max at every
 call

---
 ot/da.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 527999c..3cf02ad 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -595,8 +595,9 @@ class BaseTransport(BaseEstimator):
             )
 
             if (ys is not None) and (yt is not None):
-                if self.limit_max != np.inf:
-                    self.limit_max = self.limit_max * nx.max(self.cost_)
+                limit_max = self.limit_max
+                if limit_max != np.inf:
+                    limit_max = limit_max * nx.max(self.cost_)
 
                 # missing_labels is a (ns, nt) matrix of {0, 1} such that
                 # the cells (i, j) has 0 iff either ys[i] or yt[j] is masked
@@ -614,7 +615,7 @@ class BaseTransport(BaseEstimator):
                 # (as we explicitly cover potential NANs later)
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore", category=RuntimeWarning)
-                    cost_correction = label_match * missing_labels * self.limit_max
+                    cost_correction = label_match * missing_labels * limit_max
                 # this operation is necessary because 0 * Inf = NAN
                 # thus is irrelevant when limit_max is finite
                 cost_correction = nx.nan_to_num(cost_correction, -np.inf)
-- 
2.43.0


From ad8007fea1b0f90f7d9bc9645afc204c8067fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 074/177] fix: SinkhornTransport.fit overwrote its method and
 log parameters

---
 ot/da.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 3cf02ad..dd5e406 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1286,10 +1286,11 @@ class SinkhornTransport(BaseTransport):
 
         super(SinkhornTransport, self).fit(Xs, ys, Xt, yt)
 
+        method, log = self.method, self.log
         if self.out_of_sample_map == "continuous":
-            self.log = True
-            if not self.method == "sinkhorn_log":
-                self.method = "sinkhorn_log"
+            log = True
+            if not method == "sinkhorn_log":
+                method = "sinkhorn_log"
                 warnings.warn(
                     "The method has been set to 'sinkhorn_log' as it is the only method available for out_of_sample_map='continuous'"
                 )
@@ -1300,15 +1301,15 @@ class SinkhornTransport(BaseTransport):
             b=self.mu_t,
             M=self.cost_,
             reg=self.reg_e,
-            method=self.method,
+            method=method,
             numItermax=self.max_iter,
             stopThr=self.tol,
             verbose=self.verbose,
-            log=self.log,
+            log=log,
         )
 
         # deal with the value of log
-        if self.log:
+        if log:
             self.coupling_, self.log_ = returned_
         else:
             self.coupling_ = returned_
-- 
2.43.0


From 6434056d3594c21ac21d8719322f5049954f0a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 075/177] fix: continuous Sinkhorn mapping underflowed to NaN
 away from the samples

---
 ot/da.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index dd5e406..3715356 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1363,7 +1363,8 @@ class SinkhornTransport(BaseTransport):
 
                 M = cost_normalization(M, self.norm, value=self.norm_cost_)
 
-                K = nx.exp(-M / self.reg_e + g[None, :])
+                logK = -M / self.reg_e + g[None, :]
+                K = nx.exp(logK - nx.max(logK, axis=1, keepdims=True))
 
                 transp_Xs_ = nx.dot(K, self.xt_) / nx.sum(K, axis=1)[:, None]
 
@@ -1419,7 +1420,8 @@ class SinkhornTransport(BaseTransport):
                 M = dist(Xt[bi], self.xs_, metric=self.metric)
                 M = cost_normalization(M, self.norm, value=self.norm_cost_)
 
-                K = nx.exp(-M / self.reg_e + f[None, :])
+                logK = -M / self.reg_e + f[None, :]
+                K = nx.exp(logK - nx.max(logK, axis=1, keepdims=True))
 
                 transp_Xt_ = nx.dot(K, self.xs_) / nx.sum(K, axis=1)[:, None]
 
-- 
2.43.0


From 92a330d4a8d9ca410a2a58925bc559c3cdf5096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 076/177] fix: JCPOTTransport ignored max_iter

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 3715356..1102e6d 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2421,7 +2421,7 @@ class JCPOTTransport(BaseTransport):
                 Xt=Xt,
                 reg=self.reg_e,
                 metric=self.metric,
-                distrinumItermax=self.max_iter,
+                numItermax=self.max_iter,
                 stopThr=self.tol,
                 verbose=self.verbose,
                 log=True,
-- 
2.43.0


From 51af6d0ef1fce97ebe78c4fe80807d123edf84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 077/177] fix: JCPOTTransport.proportions_ held the
 (proportions, log) tuple when log=False

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 1102e6d..868a4cf 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2433,7 +2433,7 @@ class JCPOTTransport(BaseTransport):
             if self.log:
                 self.proportions_, self.log_ = returned_
             else:
-                self.proportions_ = returned_
+                self.proportions_ = returned_[0]
                 self.log_ = dict()
 
         return self
-- 
2.43.0


From 57b3aa1cc0106ed3d5693f162419849a24ac1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 078/177] fix: Bures distances and barycenters were NaN for
 singular covariances

---
 ot/gaussian.py | 21 +++++++++++++++------
 ot/gmm.py      | 10 +++++++---
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 7c25cd6..c835fc9 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -15,6 +15,15 @@ from .backend import get_backend
 from .utils import dots, is_all_finite, list_to_array, exp_bures
 
 
+def _sqrtm_psd(C, nx):
+    r"""Square root of (batched) positive semi-definite matrices, clipping the
+    eigenvalues of singular matrices that are negative by rounding."""
+    if nx.__name__ == "torch":  # sqrtm already clips the eigenvalues
+        return nx.sqrtm(C)
+    L, V = nx.eigh(C)
+    return nx.einsum("...ij,...j,...kj->...ik", V, nx.sqrt(nx.maximum(L, 0)), V)
+
+
 def bures_wasserstein_mapping(ms, mt, Cs, Ct, log=False):
     r"""Return OT linear operator between samples.
 
@@ -244,11 +253,11 @@ def bures_distance(Cs, Ct, paired=False, log=False, nx=None):
 
     assert Cs.shape[-1] == Ct.shape[-1], "All Gaussian must have the same dimension"
 
-    Cs12 = nx.sqrtm(Cs)
+    Cs12 = _sqrtm_psd(Cs, nx)
 
     if len(Cs.shape) == 2 and len(Ct.shape) == 2:
         # Return float
-        bw2 = nx.trace(Cs + Ct - 2 * nx.sqrtm(dots(Cs12, Ct, Cs12)))
+        bw2 = nx.trace(Cs + Ct - 2 * _sqrtm_psd(dots(Cs12, Ct, Cs12), nx))
     else:
         assert (
             len(Cs.shape) == 3 and len(Ct.shape) == 3
@@ -256,11 +265,11 @@ def bures_distance(Cs, Ct, paired=False, log=False, nx=None):
         if paired and len(Cs) == len(Ct):
             # Return shape (n,)
             M = nx.einsum("nij, njk, nkl -> nil", Cs12, Ct, Cs12)
-            bw2 = nx.trace(Cs + Ct - 2 * nx.sqrtm(M))
+            bw2 = nx.trace(Cs + Ct - 2 * _sqrtm_psd(M, nx))
         else:
             # Return shape (n,m)
             M = nx.einsum("nij, mjk, nkl -> nmil", Cs12, Ct, Cs12)
-            bw2 = nx.trace(Cs[:, None] + Ct[None] - 2 * nx.sqrtm(M))
+            bw2 = nx.trace(Cs[:, None] + Ct[None] - 2 * _sqrtm_psd(M, nx))
 
     W = nx.sqrt(nx.maximum(bw2, 0))
 
@@ -510,9 +519,9 @@ def bures_barycenter_fixpoint(
 
     for it in range(num_iter):
         # fixed point update
-        Cb12 = nx.sqrtm(Cb)
+        Cb12 = _sqrtm_psd(Cb, nx)
 
-        Cnew = nx.sqrtm(Cb12 @ C @ Cb12)
+        Cnew = _sqrtm_psd(Cb12 @ C @ Cb12, nx)
         Cnew *= weights[:, None, None]
         Cnew = nx.sum(Cnew, axis=0)
 
diff --git a/ot/gmm.py b/ot/gmm.py
index 3cb6cea..da5cfdf 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -13,7 +13,11 @@ from .backend import get_backend
 from .lp import emd2, emd
 import numpy as np
 from .utils import dist
-from .gaussian import bures_wasserstein_mapping, bures_wasserstein_barycenter
+from .gaussian import (
+    _sqrtm_psd,
+    bures_wasserstein_mapping,
+    bures_wasserstein_barycenter,
+)
 
 
 def gaussian_logpdf(x, m, C):
@@ -144,9 +148,9 @@ def dist_bures_squared(m_s, m_t, C_s, C_t):
     D_means = dist(m_s, m_t, metric="sqeuclidean")
 
     # C2[i, j] = Cs12[i] @ C_t[j] @ Cs12[i], shape (k_s, k_t, d, d)
-    Cs12 = nx.sqrtm(C_s)  # broadcasts matrix sqrt over (k_s,)
+    Cs12 = _sqrtm_psd(C_s, nx)  # broadcasts matrix sqrt over (k_s,)
     C2 = nx.einsum("ikl,jlm,imn->ijkn", Cs12, C_t, Cs12)
-    C = nx.sqrtm(C2)  # broadcasts matrix sqrt over (k_s, k_t)
+    C = _sqrtm_psd(C2, nx)  # broadcasts matrix sqrt over (k_s, k_t)
 
     # D_covs[i,j] = trace(C_s[i] + C_t[j] - 2C[i,j])
     trace_C_s = nx.einsum("ikk->i", C_s)[:, None]  # (k_s, 1)
-- 
2.43.0


From 29ab9c88d0b5cc465c80f5b67f0752d15dbc9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 079/177] fix: euclidean projection of
 gmm_barycenter_fixed_point ignored non-uniform w_bar

---
 ot/gmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index da5cfdf..acbbefb 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -544,9 +544,10 @@ def gmm_barycenter_fixed_point(
             means_selection = nx.zeros((n, K, d), type_as=means)
             covs_selection = nx.zeros((n, K, d, d), type_as=means)
             for k in range(K):
-                means_selection[:, k, :] = n * pi_list[k] @ means_list[k]
-                covs_selection[:, k, :, :] = (
-                    nx.einsum("ij,jab->iab", pi_list[k], covs_list[k]) * n
+                proj = pi_list[k] / w_bar[:, None]
+                means_selection[:, k, :] = proj @ means_list[k]
+                covs_selection[:, k, :, :] = nx.einsum(
+                    "ij,jab->iab", proj, covs_list[k]
                 )
 
         # each component i of the barycentre will be a Bures barycentre of the
-- 
2.43.0


From 0e79649a51dea7cfb8bd6f51e140bc67cb0e1a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 080/177] fix: skewness signs of the Gaussian GW mapping
 dropped directions with zero skewness

---
 ot/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index c835fc9..aa4c1ce 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -1209,6 +1209,8 @@ def empirical_gaussian_gromov_wasserstein_mapping(
         skew_s = nx.sum((nx.dot(xs, U_s[:, :size])) ** 3 * ws, axis=0)
         skew_t = nx.sum((nx.dot(xt, U_t[:, :size])) ** 3 * wt, axis=0)
         sign_eigs = nx.sign(skew_t * skew_s)
+        # no preferred sign along directions with zero skewness
+        sign_eigs = nx.where(sign_eigs == 0, nx.ones(size, type_as=mu_s), sign_eigs)
 
     if m >= n:
         A = nx.concatenate(
-- 
2.43.0


From c309b141e6acf044d0d9c9028f2325e6c3f3ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 081/177] fix: log of gaussian_gromov_wasserstein_distance
 exchanged source and target spectra

---
 ot/gaussian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index aa4c1ce..a4357fa 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -946,7 +946,8 @@ def gaussian_gromov_wasserstein_distance(Cov_s, Cov_t, log=False):
 
     # ensure that Cov_s is the largest covariance matrix
     # that is m >= n
-    if Cov_s.shape[0] < Cov_t.shape[0]:
+    swap = Cov_s.shape[0] < Cov_t.shape[0]
+    if swap:
         Cov_s, Cov_t = Cov_t, Cov_s
 
     n = Cov_t.shape[0]
@@ -962,6 +963,8 @@ def gaussian_gromov_wasserstein_distance(Cov_s, Cov_t, log=False):
         + 8 * nx.sum((d_s[n:]) ** 2)
     )
     if log:
+        if swap:
+            d_s, d_t = d_t, d_s
         log = {}
         log["d_s"] = d_s
         log["d_t"] = d_t
-- 
2.43.0


From 97653787a9693ba3ab46093cc674fa2e6bef4d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 082/177] fix: empirical_bures_wasserstein_barycenter failed
 with a single measure

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index a4357fa..27a10cb 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -875,7 +875,7 @@ def empirical_bures_wasserstein_barycenter(
         SIAM Journal on Mathematical Analysis, vol. 43, no. 2, pp. 904-924,
         2011.
     """
-    X = list_to_array(*X)
+    X = [list_to_array(Xi) for Xi in X]
     nx = get_backend(*X)
 
     k = len(X)
-- 
2.43.0


From aae8c1e70b623cb7fa42395ae5f3f75b5c64dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 083/177] fix: empirical_gaussian_gromov_wasserstein_mapping
 failed with an array of signs

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 27a10cb..0548caf 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -1207,7 +1207,7 @@ def empirical_gaussian_gromov_wasserstein_mapping(
     # select the sign of the eigenvalues
     if sign_eigs is None:
         sign_eigs = nx.ones(min(m, n), type_as=mu_s)
-    elif sign_eigs == "skewness":
+    elif isinstance(sign_eigs, str) and sign_eigs == "skewness":
         size = min(m, n)
         skew_s = nx.sum((nx.dot(xs, U_s[:, :size])) ** 3 * ws, axis=0)
         skew_t = nx.sum((nx.dot(xt, U_t[:, :size])) ** 3 * wt, axis=0)
-- 
2.43.0


From 76d3045869cbfceb66945c285f4230ddcc370a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 084/177] fix: gmm_ot_apply_map returned NaN or failed with
 null component weights

---
 ot/gmm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index acbbefb..9237330 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -327,6 +327,7 @@ def gmm_ot_apply_map(
             # gaussian mapping between components i and j applied to x
             T_ij_x = x @ A + b
             z = w_s[:, None, None] * nx.exp(logpdf - logpdf[i][None, :, :])
+            z = nx.where(w_s[:, None, None] > 0, z, nx.zeros(z.shape, type_as=z))
             denom = nx.sum(z, axis=0)
 
             out = out + plan[i, j] * T_ij_x / denom
@@ -360,8 +361,15 @@ def gmm_ot_apply_map(
             log_g = logpdf[i_sample]
             log_diff = log_g[:, None] - log_g[None, :]
             weighted_exp = w_s[:, None] * nx.exp(log_diff)
+            weighted_exp = nx.where(
+                w_s[:, None] > 0,
+                weighted_exp,
+                nx.zeros(weighted_exp.shape, type_as=weighted_exp),
+            )
             denom = nx.sum(weighted_exp, axis=0)[:, None] * nx.ones(plan.shape[1])
-            p_mat = plan / denom
+            p_mat = nx.where(
+                plan > 0, plan / denom, nx.zeros(plan.shape, type_as=plan)
+            )
 
             p = p_mat.reshape(k_s * k_t)  # stack line-by-line
             # sample between 0 and k_s * k_t - 1
-- 
2.43.0


From e26736194b0b7d088bea48bcac97ffe5bd5c0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 085/177] fix: sparse_ot_dist indexed the pair weights by
 sample

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 1fd5acb..bb5b759 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -390,7 +390,7 @@ def sparse_ot_dist(
     for b in range(0, len(i), batch_size):
         d += nx.sum(
             dist_idxs(i[b : b + batch_size], j[b : b + batch_size])
-            * w[i[b : b + batch_size]]
+            * w[b : b + batch_size]
         )
 
     return d
-- 
2.43.0


From 181126676cb6c47a08588248c86e4610b162bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 086/177] fix: given sphere projections were required to be
 n_projections many

---
 ot/sliced/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/sliced/_utils.py b/ot/sliced/_utils.py
index fc280d5..fcb30b7 100644
--- a/ot/sliced/_utils.py
+++ b/ot/sliced/_utils.py
@@ -153,6 +153,8 @@ def projection_sphere_to_circle(
         projections = get_projections_sphere(
             d, n_projections, seed=seed, backend=nx, type_as=x
         )
+    else:
+        n_projections = projections.shape[0]
 
     # Projection on S^1
     # Projection on plane
-- 
2.43.0


From d540ecee062b40ea025afd0341b34e453a734d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 087/177] fix: linear_sliced_wasserstein_sphere failed against
 the uniform measure (X_t=None)

---
 ot/sliced/_spherical_sliced.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ot/sliced/_spherical_sliced.py b/ot/sliced/_spherical_sliced.py
index 2deaa5d..c4883f6 100644
--- a/ot/sliced/_spherical_sliced.py
+++ b/ot/sliced/_spherical_sliced.py
@@ -265,14 +265,14 @@ def linear_sliced_wasserstein_sphere(
 
     nx = get_backend(X_s, X_t, a, b)
 
-    if X_s.shape[1] != X_t.shape[1]:
+    if X_t is not None and X_s.shape[1] != X_t.shape[1]:
         raise ValueError(
             "X_s and X_t must have the same number of dimensions {} and {} \
             respectively given".format(X_s.shape[1], X_t.shape[1])
         )
     if nx.any(nx.abs(nx.sum(X_s**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_s is not on the sphere.")
-    if nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
+    if X_t is not None and nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_t is not on the sphere.")
 
     if projections is None:
@@ -292,10 +292,12 @@ def linear_sliced_wasserstein_sphere(
             seed=seed,
             backend=nx,
         )
+        projected_lcot = linear_circular_ot(
+            Xps_coords.T, Xpt_coords.T, u_weights=a, v_weights=b
+        )
+    else:
+        projected_lcot = linear_circular_ot(Xps_coords.T, u_weights=a)
 
-    projected_lcot = linear_circular_ot(
-        Xps_coords.T, Xpt_coords.T, u_weights=a, v_weights=b
-    )
     res = nx.mean(projected_lcot) ** (1 / 2)
 
     if log:
-- 
2.43.0


From d5fd49d7e41f41686f21b61c92fab69874e8f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 088/177] fix: expected_sliced_plan lost mass when
 n_projections differs from the given projections

---
 ot/sliced/_sliced_plans.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ot/sliced/_sliced_plans.py b/ot/sliced/_sliced_plans.py
index d192a24..5fb0452 100644
--- a/ot/sliced/_sliced_plans.py
+++ b/ot/sliced/_sliced_plans.py
@@ -491,9 +491,7 @@ def expected_sliced_plan(
         weights = nx.exp(log_factors - nx.logsumexp(log_factors))
         cost = nx.sum(list_to_array(costs) * weights)
     else:  # uniform weights
-        if n_projections is None:
-            n_projections = projections.shape[1]
-        weights = nx.ones(n_projections) / n_projections
+        weights = nx.ones(len(plans)) / len(plans)
 
     weights_e = nx.concatenate([plans[i].data * weights[i] for i in range(len(plans))])
     Xs_idx = nx.concatenate([plans[i].rows for i in range(len(plans))])
-- 
2.43.0


From 3f8e3b9ab12832b201e2694c5f42e5289579d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 089/177] fix: wasserstein_1d failed to return plans of
 presorted values

---
 ot/lp/solver_1d.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 7b11dee..b96f445 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -145,9 +145,6 @@ def wasserstein_1d(
 
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights = nx.take_along_axis(v_weights, v_sorter, 0)
-    else:
-        u_sorter = nx.arange(n)
-        v_sorter = nx.arange(m)
 
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
@@ -165,8 +162,10 @@ def wasserstein_1d(
     diff_quantiles = nx.abs(u_quantiles - v_quantiles)
 
     if return_plans is not False:
-        u_quantiles_idx = nx.take_along_axis(u_sorter, idx_u, axis=0)
-        v_quantiles_idx = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        u_quantiles_idx, v_quantiles_idx = idx_u, idx_v
+        if require_sort:
+            u_quantiles_idx = nx.take_along_axis(u_sorter, idx_u, axis=0)
+            v_quantiles_idx = nx.take_along_axis(v_sorter, idx_v, axis=0)
         if return_plans == "coo_tuple":
             PlanTuple = namedtuple("PlanTuple", ["data", "rows", "cols"])
             plans = [
-- 
2.43.0


From 8e973d44e161756541a23205553e35c2c71f11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 090/177] fix: solve ignored the reference measure c of the KL
 regularization in balanced OT

---
 ot/solvers.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 88cf5c7..7713a98 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -303,6 +303,7 @@ def solve(
         a = nx.ones(M.shape[0], type_as=M) / M.shape[0]
     if b is None:
         b = nx.ones(M.shape[1], type_as=M) / M.shape[1]
+    c0 = c  # reference measure given by the user
     if c is None:
         c = a[:, None] * b[None, :]
 
@@ -446,10 +447,15 @@ def solve(
                         )
                     max_iter = max_iter - 1
 
+                # the reference measure weights the Gibbs kernel
+                Mc = M
+                if c0 is not None and reg_type.lower() == "kl":
+                    Mc = M - reg * nx.log(c0)
+
                 plan, log = sinkhorn_log(
                     a,
                     b,
-                    M,
+                    Mc,
                     reg=reg,
                     numItermax=max_iter,
                     stopThr=tol,
@@ -463,9 +469,12 @@ def solve(
                 if grad == "last_step":
                     loga = nx.log(a0)
                     logb = nx.log(b0)
-                    v = logb - nx.logsumexp(-M0 / reg + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(-M0 / reg + potentials[1][None, :], 1)
-                    plan = nx.exp(-M0 / reg + u[:, None] + v[None, :])
+                    Mr0 = -M0 / reg
+                    if c0 is not None and reg_type.lower() == "kl":
+                        Mr0 = Mr0 + nx.log(c0)
+                    v = logb - nx.logsumexp(Mr0 + potentials[0][:, None], 0)
+                    u = loga - nx.logsumexp(Mr0 + potentials[1][None, :], 1)
+                    plan = nx.exp(Mr0 + u[:, None] + v[None, :])
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
                     log["log_u"] = u
@@ -479,7 +488,7 @@ def solve(
                     value = value_linear + reg * nx.sum(plan * nx.log(plan + 1e-16))
                 else:
                     value = value_linear + reg * nx.kl_div(
-                        plan, a[:, None] * b[None, :]
+                        plan, c0 if c0 is not None else a[:, None] * b[None, :]
                     )
 
                 if grad == "envelope":  # set the gradient at convergence
-- 
2.43.0


From feaac0e130b6d1e1b2cd91240feb4a2671af37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 091/177] fix: solve reported a value for L2 regularization
 that its plan does not minimise

---
 ot/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 7713a98..b86fef6 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -520,7 +520,7 @@ def solve(
                 )
 
                 value_linear = nx.sum(M * plan)
-                value = value_linear + reg * nx.sum(plan**2)
+                value = value_linear + 0.5 * reg * nx.sum(plan**2)
                 potentials = (log["alpha"], log["beta"])
 
             else:
-- 
2.43.0


From 12c1fced63a0a3e5d890855625c8e54228596480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 092/177] fix: solve_gromov did not pass reg to the entropic
 fused solvers

---
 ot/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index b86fef6..a57c390 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1188,6 +1188,7 @@ def solve_gromov(
                     Cb,
                     a,
                     b,
+                    epsilon=reg,
                     loss_fun=loss_fun,
                     alpha=alpha,
                     log=True,
@@ -1253,6 +1254,7 @@ def solve_gromov(
                     Ca,
                     Cb,
                     a,
+                    epsilon=reg,
                     loss_fun=loss_fun,
                     alpha=alpha,
                     log=True,
-- 
2.43.0


From 891e1a0063a06e39dbbcefdbde96b5d159d10e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 093/177] fix: solve_sample ignored the weights for methods
 gaussian and factored

---
 ot/solvers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index a57c390..e3f5435 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1835,8 +1835,11 @@ def solve_sample(
             if reg is None:
                 reg = 1e-6
 
+            ws = a[:, None] if a is not None else None
+            wt = b[:, None] if b is not None else None
+
             value, log = empirical_bures_wasserstein_distance(
-                X_a, X_b, reg=reg, log=True
+                X_a, X_b, reg=reg, ws=ws, wt=wt, log=True
             )
             value = value**2  # return the value (squared bures distance)
             value_linear = value  # return the value
@@ -1857,6 +1860,8 @@ def solve_sample(
             Q, R, X, log = factored_optimal_transport(
                 X_a,
                 X_b,
+                a,
+                b,
                 reg=reg,
                 r=rank,
                 log=True,
-- 
2.43.0


From 9da6d3eeea0b0a4247d27a3720c0964da4f5fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 094/177] fix: solve_sample did not give the linear value of
 method nystroem

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index e3f5435..61ea13f 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1934,6 +1934,7 @@ def solve_sample(
                 log=True,
             )
 
+            value_linear = value
             lazy_plan = log["lazy_plan"]
             if not lazy0:  # store plan if not lazy
                 plan = lazy_plan[:]
-- 
2.43.0


From 31f07a0341d254fc6f59010f1f7823f22cccfeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 095/177] fix: OTResult gave no marginals for sparse and lazy
 plans

---
 ot/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index bb5b759..6fc9f1d 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1326,10 +1326,8 @@ class OTResult:
     def marginals(self):
         """Marginals of the transport plan: should be very close to "a" and "b"
         for balanced OT."""
-        if self._plan is not None:
-            return self.marginal_a, self.marginal_b
-        else:
-            return None
+        marginals = (self.marginal_a, self.marginal_b)
+        return None if marginals[0] is None else marginals
 
     @property
     def marginal_a(self):
@@ -1341,6 +1339,8 @@ class OTResult:
             bs = self._batch_size
             nx = self._backend
             return reduce_lazytensor(lp, nx.sum, axis=1, nx=nx, batch_size=bs)
+        elif self._sparse_plan is not None:
+            return self._backend.sum(self.plan, 1)
         else:
             return None
 
@@ -1354,6 +1354,8 @@ class OTResult:
             bs = self._batch_size
             nx = self._backend
             return reduce_lazytensor(lp, nx.sum, axis=0, nx=nx, batch_size=bs)
+        elif self._sparse_plan is not None:
+            return self._backend.sum(self.plan, 0)
         else:
             return None
 
-- 
2.43.0


From 5c51fdef4b8214d97a03fde2cc344ce1872f4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 096/177] fix: solve_gromov ran the entropic semirelaxed solver
 for other regularizations

---
 ot/solvers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 61ea13f..9ae15cd 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1242,7 +1242,7 @@ def solve_gromov(
                 value_linear = 0
                 value = value_quad + reg * nx.sum(plan * nx.log(plan + 1e-16))
 
-            else:  # Entropic Semi-relaxed FGW problem
+            elif reg_type.lower() in ["entropy"]:  # Entropic Semi-relaxed FGW problem
                 # default values for solver
                 if max_iter is None:
                     max_iter = 1000
@@ -1270,6 +1270,13 @@ def solve_gromov(
                 plan = log["T"]
                 value = value_noreg + reg * nx.sum(plan * nx.log(plan + 1e-16))
 
+            else:
+                raise (
+                    NotImplementedError(
+                        'Not implemented reg_type="{}"'.format(reg_type)
+                    )
+                )
+
         elif unbalanced_type.lower() in ["partial"]:  # Partial OT
             if M is None or alpha == 1.0:  # Partial Gromov-Wasserstein problem
                 if unbalanced > nx.sum(a) or unbalanced > nx.sum(b):
-- 
2.43.0


From 5a1cf615f118889dc780012a936f9f3cf12972c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 097/177] fix: solve_sample ran the lazy Sinkhorn solver for
 other regularizations

---
 ot/solvers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 9ae15cd..0a64929 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -2000,6 +2000,18 @@ def solve_sample(
 
         else:
             if unbalanced is None:
+                if not isinstance(reg_type, str) or (
+                    reg_type.lower() not in ["kl", "entropy"]
+                    or (reg_type.lower() == "kl" and c is not None)
+                ):
+                    raise (
+                        NotImplementedError(
+                            'Not implemented reg_type="{}" or c with lazy=True'.format(
+                                reg_type
+                            )
+                        )
+                    )
+
                 if max_iter is None:
                     max_iter = 1000
                 if tol is None:
-- 
2.43.0


From b7effc973879d6e577c5ee0f3fe61d714c93239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 098/177] fix: solve ignored the reference measure c of the L2
 regularization in balanced OT

---
 ot/solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 0a64929..3112a99 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -511,7 +511,7 @@ def solve(
                 plan, log = smooth_ot_dual(
                     a,
                     b,
-                    M,
+                    M if c0 is None else M - reg * c0,
                     reg=reg,
                     numItermax=max_iter,
                     stopThr=tol,
@@ -520,7 +520,9 @@ def solve(
                 )
 
                 value_linear = nx.sum(M * plan)
-                value = value_linear + 0.5 * reg * nx.sum(plan**2)
+                value = value_linear + 0.5 * reg * nx.sum(
+                    (plan if c0 is None else plan - c0) ** 2
+                )
                 potentials = (log["alpha"], log["beta"])
 
             else:
-- 
2.43.0


From 8928ed63ffa918af60db991a27dde081ae6b573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 099/177] fix: solve_sample reported values of a rescaled cost
 for method lowrank

---
 ot/solvers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 3112a99..16daf72 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -34,7 +34,7 @@ from .gromov import (
 )
 from .gaussian import empirical_bures_wasserstein_distance
 from .factored import factored_optimal_transport
-from .lowrank import lowrank_sinkhorn
+from .lowrank import lowrank_sinkhorn, compute_lr_sqeuclidean_matrix
 from .optim import cg
 
 import warnings
@@ -1899,19 +1899,23 @@ def solve_sample(
             if reg is None:
                 reg = 0
 
+            # the solver works on a rescaled cost
+            M1, M2 = compute_lr_sqeuclidean_matrix(X_a, X_b, False, nx)
+            scale = nx.sqrt(nx.max(M1)) * nx.sqrt(nx.max(M2))
+
             Q, R, g, log = lowrank_sinkhorn(
                 X_a,
                 X_b,
                 rank=rank,
-                reg=reg,
+                reg=reg / scale,
                 a=a,
                 b=b,
                 numItermax=max_iter,
                 stopThr=tol,
                 log=True,
             )
-            value = log["value"]
-            value_linear = log["value_linear"]
+            value = log["value"] * scale
+            value_linear = log["value_linear"] * scale
             lazy_plan = log["lazy_plan"]
             if not lazy0:  # store plan if not lazy
                 plan = lazy_plan[:]
-- 
2.43.0


From f156bb700c721dfd5a57644982ae3fb173916a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 100/177] fix: kl_div was NaN where both measures vanish

---
 ot/backend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 08ab22b..a24cae3 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1540,7 +1540,7 @@ class NumpyBackend(Backend):
         return np.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = np.sum(p * np.log(p / q + eps), axis=axis)
+        value = np.sum(p * np.log(p / (q + (p == 0)) + eps), axis=axis)
         if mass:
             value = value + np.sum(q - p, axis=axis)
         return value
@@ -1989,7 +1989,7 @@ class JaxBackend(Backend):
         return jnp.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = jnp.sum(p * jnp.log(p / q + eps), axis=axis)
+        value = jnp.sum(p * jnp.log(p / (q + (p == 0)) + eps), axis=axis)
         if mass:
             value = value + jnp.sum(q - p, axis=axis)
         return value
@@ -2592,7 +2592,7 @@ class TorchBackend(Backend):
         return torch.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = torch.sum(p * torch.log(p / q + eps), axis=axis)
+        value = torch.sum(p * torch.log(p / (q + (p == 0)) + eps), axis=axis)
         if mass:
             value = value + torch.sum(q - p, axis=axis)
         return value
@@ -3030,7 +3030,7 @@ class CupyBackend(Backend):  # pragma: no cover
         return cp.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = cp.sum(p * cp.log(p / q + eps), axis=axis)
+        value = cp.sum(p * cp.log(p / (q + (p == 0)) + eps), axis=axis)
         if mass:
             value = value + cp.sum(q - p, axis=axis)
         return value
@@ -3505,7 +3505,7 @@ class TensorflowBackend(Backend):
         return tf.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = tnp.sum(p * tnp.log(p / q + eps), axis=axis)
+        value = tnp.sum(p * tnp.log(p / (q + tf.cast(p == 0, p.dtype)) + eps), axis=axis)
         if mass:
             value = value + tnp.sum(q - p, axis=axis)
         return value
-- 
2.43.0


From 77f5a3527630787ff504f70deae883247cbf2dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 101/177] fix: solve_batch returned NaN KL values for null
 weights

---
 ot/batch/_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index a63fcb4..8f63768 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -341,6 +341,7 @@ def solve_batch(
         value = value_linear + reg * entr
     elif reg_type.lower() == "kl":
         ref = nx.einsum("bi,bj->bij", a, b)
+        ref = nx.where(ref > 0, ref, nx.ones(ref.shape, type_as=ref))
         kl = nx.sum(T * nx.log(T / ref + 1e-16), axis=(1, 2))
         value = value_linear + reg * kl
     log = {"n_iter": out["n_iters"]}
-- 
2.43.0


From 241324d6b668a541ddab19229e92131d5f8bb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 102/177] fix: dist_kl_batch did not sum over the features of
 logits

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 8f63768..06bf786 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -112,7 +112,7 @@ def dist_kl_batch(X, Y, logits_X=False, nx=None, eps=1e-10):
         nx = get_backend(X, Y)
     entr_y = nx.sum(Y * nx.log(Y + eps), axis=-1)  # B x m
     if logits_X:
-        M = entr_y[:, None, :] - Y[:, None, :] * X[:, :, None]
+        M = entr_y[:, None, :] - nx.sum(Y[:, None, :] * X[:, :, None], axis=-1)
     else:
         M = entr_y[:, None, :] - nx.sum(
             Y[:, None, :] * nx.log(X + eps)[:, :, None], axis=-1
-- 
2.43.0


From 28e7a52ad8af044958ce02d4c0d6a188d90c79b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 103/177] fix: loss_linear_samples_batch had an unknown default
 metric

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 06bf786..bf6d709 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -147,7 +147,7 @@ def loss_linear_batch(M, T, nx=None):
     return nx.sum(M * T, axis=(1, 2))
 
 
-def loss_linear_samples_batch(X, Y, T, metric="l2"):
+def loss_linear_samples_batch(X, Y, T, metric="sqeuclidean"):
     r"""Computes the linear optimal transport loss given samples and transport plan. This is the equivalent of
     calling `dist_batch` and then `loss_linear_batch`.
 
-- 
2.43.0


From 9c10f874dcb8ed7abb0214819888e16bdc61abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 104/177] fix: dist_batch gave negative or NaN distances of
 close points

---
 ot/batch/_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index bf6d709..78917f5 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -80,6 +80,7 @@ def dist_euclidean_batch(X, Y, squared=True, nx=None):
     YY = nx.sum(Y**2, axis=-1, keepdims=True)
     YY = nx.transpose(YY, axes=(0, 2, 1))
     M = XX + YY - 2 * nx.einsum("bid,bjd->bij", X, Y)
+    M = nx.maximum(M, 0)
     if not squared:
         M = nx.sqrt(M)
     return M
-- 
2.43.0


From 2e795127e2e20efacf77c4063ba8dd5115c6bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 105/177] fix: solve_batch failed obscurely for unknown
 regularizations

---
 ot/batch/_linear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 78917f5..7461ec0 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -345,6 +345,8 @@ def solve_batch(
         ref = nx.where(ref > 0, ref, nx.ones(ref.shape, type_as=ref))
         kl = nx.sum(T * nx.log(T / ref + 1e-16), axis=(1, 2))
         value = value_linear + reg * kl
+    else:
+        raise NotImplementedError(f"Not implemented reg_type: {reg_type}")
     log = {"n_iter": out["n_iters"]}
 
     res = OTResult(
-- 
2.43.0


From 0ce7e7879710fa944be315969245a4c5987baf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 106/177] fix: batched Bregman projections did not keep the
 precision of their input

---
 ot/batch/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index ce5db46..71b0456 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -126,17 +126,17 @@ def bregman_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
         K_, K = K.clone(), nx.detach(K)
 
-    f = nx.ones((B, n))  # a / nx.sum(K, axis=2)
-    g = nx.ones((B, m))  # b / nx.sum(K, axis=1)
+    f = nx.ones((B, n), type_as=K)  # a / nx.sum(K, axis=2)
+    g = nx.ones((B, m), type_as=K)  # b / nx.sum(K, axis=1)
 
     for n_iters in range(max_iter):
         f = a / nx.sum(K * g[:, None, :], axis=2)
@@ -250,9 +250,9 @@ def bregman_log_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     u = nx.zeros((B, n), type_as=K)  # u = nx.log(a) - nx.logsumexp(K, axis=2).squeeze()
     v = nx.zeros((B, m), type_as=K)  # v = nx.log(b) - nx.logsumexp(K, axis=1).squeeze()
-- 
2.43.0


From 2127c303fa242a9ba19f100c213b846521d004ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 107/177] fix: OTResult gave wrong marginals for batches of
 plans

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 6fc9f1d..4ac0104 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1333,7 +1333,7 @@ class OTResult:
     def marginal_a(self):
         """First marginal of the transport plan, with the same shape as "a"."""
         if self._plan is not None:
-            return self._backend.sum(self._plan, 1)
+            return self._backend.sum(self._plan, -1)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
@@ -1348,7 +1348,7 @@ class OTResult:
     def marginal_b(self):
         """Second marginal of the transport plan, with the same shape as "b"."""
         if self._plan is not None:
-            return self._backend.sum(self._plan, 0)
+            return self._backend.sum(self._plan, -2)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
-- 
2.43.0


From e8fa3cd5d4f9dc1122479832069aaf858dcba015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 108/177] fix: solve_gromov_batch returned NaN for null weights

---
 ot/batch/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index 71b0456..adfeaa8 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -266,8 +266,9 @@ def bregman_log_projection_batch(
         K_, K = K.clone(), nx.detach(K)
 
     for n_iters in range(max_iter):
-        u = loga - nx.logsumexp(K + v[:, None, :], axis=2)
-        v = logb - nx.logsumexp(K + u[:, :, None], axis=1)
+        # null weights may come with null rows and columns of exp(K)
+        u = nx.where(a > 0, loga - nx.logsumexp(K + v[:, None, :], axis=2), loga)
+        v = nx.where(b > 0, logb - nx.logsumexp(K + u[:, :, None], axis=1), logb)
 
         # Check convergence once every 10 iterations
         if n_iters % 10 == 0:
-- 
2.43.0


From 1425b0610b23dcd9dfde962821d32ccff326abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 109/177] fix: simplex projections returned zeros for large
 values

---
 ot/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/utils.py b/ot/utils.py
index 4ac0104..4be4e22 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -135,6 +135,8 @@ def proj_simplex(v, z=1):
     u = nx.sort(v, axis=0)
     # take the descending order
     u = nx.flip(u, 0)
+    # the projection is invariant to shifts, remove the maximum for precision
+    v, u = v - u[:1], u - u[:1]
     cssv = nx.cumsum(u, axis=0) - z
     ind = nx.arange(n, type_as=v)[:, None] + 1
     cond = u - cssv / ind > 0
@@ -204,6 +206,8 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
+        # the projection is invariant to shifts, remove the maximum for precision
+        U = U - U[:, :1]
         z = nx.ones(len(U)) * z
         cssv = nx.cumsum(U, axis=1) - z[:, None]
         ind = nx.arange(max_nz) + 1
-- 
2.43.0


From 6e33d10c0fcd1ae8867639b9c1d0e952e584f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 110/177] fix: projection_sparse_simplex failed for max_nz
 larger than the vectors

---
 ot/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/utils.py b/ot/utils.py
index 4be4e22..368a531 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -195,6 +195,7 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         raise ValueError("V.ndim must be <= 2")
 
     if axis == 1:
+        max_nz = min(max_nz, V.shape[1])
         # For each row of V, find top max_nz values; arrange the
         # corresponding column indices such that their values are
         # in a descending order.
-- 
2.43.0


From 95667ab037d27cd28813e32122ee7e9f629ac917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 111/177] fix: indexing a diagonal low-rank LazyTensor added a
 dimension

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 368a531..1a301c7 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -848,7 +848,7 @@ def get_lowrank_lazytensor(Q, R, d=None, nx=None):
     else:
 
         def func(i, j, Q, R, d):
-            return nx.dot(Q[i] * d[None, :], R[j].T)
+            return nx.dot(Q[i] * d, R[j].T)
 
         T = LazyTensor(shape, func, Q=Q, R=R, d=d)
 
-- 
2.43.0


From 3944867756de41b155b33bdf6d649656370e44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 112/177] fix: DataScaler blew up the rounding errors of
 constant features

---
 ot/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 1a301c7..4882975 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1682,7 +1682,8 @@ class DataScaler:
         if self.norm == "standard":
             self.mean_ = nx.mean(X_concat, axis=0)
             self.std_ = nx.std(X_concat, axis=0)
-            zero_var = self.std_ == 0
+            # the standard deviation of a constant may be a rounding error
+            zero_var = nx.max(X_concat, axis=0) == nx.min(X_concat, axis=0)
             if nx.any(zero_var):
                 warnings.warn(
                     "Zero variance detected in one or more feature(s). "
-- 
2.43.0


From 6bb7dd91875662e341c2e3d474ed6db34fc03b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 113/177] fix: cost_normalization changed its input in place

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 4882975..7ff7a0f 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -578,11 +578,11 @@ def cost_normalization(C, norm=None, return_value=False, value=None):
     elif norm == "median":
         if value is None:
             value = nx.median(C)
-        C /= value
+        C = C / value
     elif norm == "max":
         if value is None:
             value = nx.max(C)
-        C /= float(value)
+        C = C / float(value)
     elif norm == "log":
         C = nx.log(1 + C)
     elif norm == "loglog":
-- 
2.43.0


From f552f2831bdd3c9e74f27f0edf17bdc34d489bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 114/177] fix: kernel failed obscurely for unknown methods

---
 ot/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/utils.py b/ot/utils.py
index 7ff7a0f..525ec6e 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -46,6 +46,8 @@ def kernel(x1, x2, method="gaussian", sigma=1, **kwargs):
 
     if method.lower() in ["gaussian", "gauss", "rbf"]:
         K = nx.exp(-dist(x1, x2) / (2 * sigma**2))
+    else:
+        raise ValueError("Unknown kernel '{}'".format(method))
     return K
 
 
-- 
2.43.0


From ccfb5be22ae7248de4c0cef2acdcc4cd3ccad3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 115/177] fix: make_data_classif could return fewer samples
 than asked

---
 ot/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index 6e3be51..a6e9c6e 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -157,7 +157,7 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
         x = x.dot(rot)
 
     elif dataset.lower() == "2gauss_prop":
-        y = np.concatenate((np.ones(int(p * n)), np.zeros(int((1 - p) * n))))
+        y = np.concatenate((np.ones(int(p * n)), np.zeros(n - int(p * n))))
         x = np.hstack((0 * y[:, None] - 0, 1 - 2 * y[:, None])) + nz * generator.randn(
             len(y), 2
         )
-- 
2.43.0


From 2811284c07449b8cb34322398348ccadc43065af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 116/177] fix: deprecated dataset functions ignored their
 arguments

---
 ot/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index a6e9c6e..b39b5c0 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -80,7 +80,7 @@ def make_2D_samples_gauss(n, m, sigma, random_state=None):
 @deprecated()
 def get_2D_samples_gauss(n, m, sigma, random_state=None):
     """Deprecated see  make_2D_samples_gauss"""
-    return make_2D_samples_gauss(n, m, sigma, random_state=None)
+    return make_2D_samples_gauss(n, m, sigma, random_state=random_state)
 
 
 def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **kwargs):
@@ -179,4 +179,6 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
 @deprecated()
 def get_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs):
     """Deprecated see  make_data_classif"""
-    return make_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs)
+    return make_data_classif(
+        dataset, n, nz=nz, theta=theta, random_state=random_state, **kwargs
+    )
-- 
2.43.0


From 6290f04f98110ca09f32067ee56705144f8fbdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 117/177] fix: weak_optimal_transport failed for null source
 weights

---
 ot/weak.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ot/weak.py b/ot/weak.py
index 7173960..54485f6 100644
--- a/ot/weak.py
+++ b/ot/weak.py
@@ -105,6 +105,9 @@ def weak_optimal_transport(
         b2 = nx.to_numpy(b)
 
     # init uniform
+    # the rows of points without mass do not count in the cost
+    a_safe = np.where(a2 > 0, a2, 1.0)[:, None]
+
     if G0 is None:
         T0 = a2[:, None] * b2[None, :]
     else:
@@ -112,11 +115,11 @@ def weak_optimal_transport(
 
     # weak OT loss
     def f(T):
-        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) / a2[:, None]) ** 2, 1))
+        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) / a_safe) ** 2, 1))
 
     # weak OT gradient
     def df(T):
-        return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a2[:, None], Xb2.T)
+        return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a_safe, Xb2.T)
 
     # solve with conditional gradient and return solution
     if log:
-- 
2.43.0


From d001a00868beef364c6c93bc8d7298fca8cf19e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 118/177] fix: lowrank_sinkhorn failed obscurely for unknown
 initializations

---
 ot/lowrank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index c7391dd..77d89b9 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -144,6 +144,9 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
                 "Scikit-learn should be installed to use the 'kmeans' init."
             )
 
+    if init not in ("random", "deterministic", "kmeans"):
+        raise NotImplementedError('Not implemented init="{}"'.format(init))
+
     return Q, R, g
 
 
-- 
2.43.0


From 399ab90202848acad24abe0b75a8e84313578c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 119/177] fix: lowrank_sinkhorn returned NaN for null weights

---
 ot/lowrank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index 77d89b9..863683d 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -147,7 +147,8 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
     if init not in ("random", "deterministic", "kmeans"):
         raise NotImplementedError('Not implemented init="{}"'.format(init))
 
-    return Q, R, g
+    # null weights give null rows, whose logarithm is needed
+    return Q + 1e-16, R + 1e-16, g + 1e-16
 
 
 def compute_lr_sqeuclidean_matrix(X_s, X_t, rescale_cost, nx=None):
-- 
2.43.0


From 237837086b708e7f8fcc8c646d2b04edf7d01d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 120/177] fix: lowrank_sinkhorn returned NaN from the kmeans
 initialization of a single point

---
 ot/lowrank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index 863683d..d7e7167 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -126,7 +126,8 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
             kmeans_Xs.fit(X_s)
             Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_)
             C_Xs = dist(X_s, Z_Xs)  # shape (ns, rank)
-            C_Xs = C_Xs / nx.max(C_Xs)
+            if nx.max(C_Xs) > 0:
+                C_Xs = C_Xs / nx.max(C_Xs)
             Q = sinkhorn(a, g, C_Xs, reg=reg_init, numItermax=10000, stopThr=1e-3)
 
             # Init R
@@ -136,7 +137,8 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
             kmeans_Xt.fit(X_t)
             Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_)
             C_Xt = dist(X_t, Z_Xt)  # shape (nt, rank)
-            C_Xt = C_Xt / nx.max(C_Xt)
+            if nx.max(C_Xt) > 0:
+                C_Xt = C_Xt / nx.max(C_Xt)
             R = sinkhorn(b, g, C_Xt, reg=reg_init, numItermax=10000, stopThr=1e-3)
 
         else:
-- 
2.43.0


From 4c8ca9ee69ac1c54aad212dd8e51d06468f50949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 121/177] fix: fda averaged the class means over the features

---
 ot/dr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/dr.py b/ot/dr.py
index 4914e6b..65c2737 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -119,7 +119,7 @@ def fda(X, y, p=2, reg=1e-16):
     mxc = np.zeros((d, nc))
 
     for i in range(nc):
-        mxc[:, i] = np.mean(xc[i])
+        mxc[:, i] = np.mean(xc[i], axis=0)
 
     mx0 = np.mean(mxc, 1)
     Cb = 0
-- 
2.43.0


From 75d1c051cc43e4a7f574f1fd85e5338d5bfd2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 122/177] fix: fda and wda changed the data in place and did
 not center each feature

---
 ot/dr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 65c2737..9cfabff 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -101,8 +101,8 @@ def fda(X, y, p=2, reg=1e-16):
         projection function including mean centering
     """
 
-    mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    mx = np.mean(X, axis=0)
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
@@ -218,8 +218,8 @@ def wda(
     else:
         raise ValueError("Unknown Sinkhorn method '%s'." % sinkhorn_method)
 
-    mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    mx = np.mean(X, axis=0)
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
-- 
2.43.0


From f238d5058c02f8f00fdab30ee8ed99fd3daa1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 123/177] fix: fda could return a complex projection

---
 ot/dr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/dr.py b/ot/dr.py
index 9cfabff..18bfc07 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -130,7 +130,8 @@ def fda(X, y, p=2, reg=1e-16):
 
     idx = np.argsort(w.real)
 
-    Popt = V[:, idx[-p:]]
+    # rounding errors of null eigenvalues may give complex eigenvectors
+    Popt = V[:, idx[-p:]].real
 
     def proj(X):
         return (X - mx.reshape((1, -1))).dot(Popt)
-- 
2.43.0


From e74b2887f5236920c7ed91427f584940569c1a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 124/177] fix: ewca failed for method MM with a starting point

---
 ot/dr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 18bfc07..52b73f0 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -498,11 +498,12 @@ def ewca(
     if U0 is None:
         pca_fitted = PCA(n_components=k).fit(X)
         U = pca_fitted.components_.T
-        if method == "MM":
-            lambda_scm = pca_fitted.explained_variance_[0]
     else:
         U = U0
 
+    if method == "MM":
+        lambda_scm = np.linalg.norm(X, 2) ** 2 / (n - 1)
+
     # marginals
     u0 = (1.0 / n) * np.ones(n)
 
-- 
2.43.0


From 59a8f863e89b8c8628904759d41d7ac42acdbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 125/177] fix: projection_robust_wasserstein returned NaN for
 null weights

---
 ot/dr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 52b73f0..20599f5 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -398,10 +398,9 @@ def projection_robust_wasserstein(
         np.exp(A, out=A)
 
         # Sinkhorn update
-        Ap = (1 / a).reshape(-1, 1) * A
         AtransposeU = np.dot(A.T, u)
         v = np.divide(b, AtransposeU)
-        u = 1.0 / np.dot(Ap, v)
+        u = a / np.dot(A, v)
         pi = u.reshape((-1, 1)) * A * v.reshape((1, -1))
 
         V = Vpi(X, Y, a, b, pi)
-- 
2.43.0


From cf4fa975666974be376f3950061eb44868a6defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 126/177] fix: template layers stopped exact transport after 50
 pivots

---
 ot/gnn/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/gnn/_utils.py b/ot/gnn/_utils.py
index dc1342b..c38a772 100644
--- a/ot/gnn/_utils.py
+++ b/ot/gnn/_utils.py
@@ -146,7 +146,7 @@ def FGW_distance_to_templates(
                     max_iter=50,
                 )
             elif not multi_alpha and torch.all(alpha == 0):
-                embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                embedding = emd2(weights_G, tplt_weights[j], M)
             elif not multi_alpha and alpha > 0:
                 embedding = fused_gromov_wasserstein2(
                     M,
@@ -159,7 +159,7 @@ def FGW_distance_to_templates(
                     max_iter=50,
                 )
             else:
-                embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                embedding = emd2(weights_G, tplt_weights[j], M)
 
             distances[j] = embedding
 
@@ -211,7 +211,7 @@ def FGW_distance_to_templates(
                         max_iter=50,
                     )
                 elif not multi_alpha and torch.all(alpha == 0):
-                    embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                    embedding = emd2(weights_G, tplt_weights[j], M)
                 elif not multi_alpha and alpha > 0:
                     embedding = fused_gromov_wasserstein2(
                         M,
@@ -224,7 +224,7 @@ def FGW_distance_to_templates(
                         max_iter=50,
                     )
                 else:
-                    embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                    embedding = emd2(weights_G, tplt_weights[j], M)
 
                 distances[i, j] = embedding
 
@@ -273,7 +273,7 @@ def wasserstein_distance_to_templates(
             )
             M = dist(G_features, template_features).type(torch.float)
 
-            distances[j] = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+            distances[j] = emd2(weights_G, tplt_weights[j], M)
 
     else:
         n_T, _, n_feat_T = tplt_features.shape
@@ -302,6 +302,6 @@ def wasserstein_distance_to_templates(
                 )
                 M = dist(G_features_i, template_features).type(torch.float)
 
-                distances[i, j] = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                distances[i, j] = emd2(weights_G, tplt_weights[j], M)
 
     return distances
-- 
2.43.0


From 80bc85c51d03f6c9401d68c3d10a7906b7aefb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 127/177] fix: template layers failed for batches ending with
 isolated nodes

---
 ot/gnn/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/gnn/_utils.py b/ot/gnn/_utils.py
index c38a772..2c4b68e 100644
--- a/ot/gnn/_utils.py
+++ b/ot/gnn/_utils.py
@@ -173,7 +173,9 @@ def FGW_distance_to_templates(
         for i in range(num_graphs):
             nodes = torch.where(batch == i)[0]
 
-            G_edges_i, _ = subgraph(nodes, edge_index=G_edges, relabel_nodes=True)
+            G_edges_i, _ = subgraph(
+                nodes, edge_index=G_edges, relabel_nodes=True, num_nodes=len(batch)
+            )
             G_features_i = G_features[nodes]
 
             n, n_feat = G_features_i.shape
-- 
2.43.0


From 3b66a8590fb4c17a1191b19bc2cacc95a1190437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 128/177] fix: the torch backend ignored keepdims for full
 reductions

---
 ot/backend.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index a24cae3..331d9bb 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2188,8 +2188,10 @@ class TorchBackend(Backend):
             return torch.eye(N, m=M, dtype=type_as.dtype, device=type_as.device)
 
     def sum(self, a, axis=None, keepdims=False):
-        if axis is None:
+        if axis is None and not keepdims:
             return torch.sum(a)
+        elif axis is None:
+            return torch.sum(a, tuple(range(a.ndim)), keepdim=True)
         else:
             return torch.sum(a, axis, keepdim=keepdims)
 
@@ -2201,13 +2203,13 @@ class TorchBackend(Backend):
 
     def max(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.max(a)
+            return torch.amax(a, tuple(range(a.ndim)), keepdim=True) if keepdims else torch.max(a)
         else:
             return torch.max(a, axis, keepdim=keepdims)[0]
 
     def min(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.min(a)
+            return torch.amin(a, tuple(range(a.ndim)), keepdim=True) if keepdims else torch.min(a)
         else:
             return torch.min(a, axis, keepdim=keepdims)[0]
 
-- 
2.43.0


From b4e353d2c24348401762f61b14145cb2ac5c43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 129/177] fix: the torch backend added a dimension to maxima
 with scalars

---
 ot/backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 331d9bb..7342758 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2215,9 +2215,9 @@ class TorchBackend(Backend):
 
     def maximum(self, a, b):
         if isinstance(a, int) or isinstance(a, float):
-            a = torch.tensor([float(a)], dtype=b.dtype, device=b.device)
+            a = torch.tensor(float(a), dtype=b.dtype, device=b.device)
         if isinstance(b, int) or isinstance(b, float):
-            b = torch.tensor([float(b)], dtype=a.dtype, device=a.device)
+            b = torch.tensor(float(b), dtype=a.dtype, device=a.device)
         if hasattr(torch, "maximum"):
             return torch.maximum(a, b)
         else:
@@ -2225,9 +2225,9 @@ class TorchBackend(Backend):
 
     def minimum(self, a, b):
         if isinstance(a, int) or isinstance(a, float):
-            a = torch.tensor([float(a)], dtype=b.dtype, device=b.device)
+            a = torch.tensor(float(a), dtype=b.dtype, device=b.device)
         if isinstance(b, int) or isinstance(b, float):
-            b = torch.tensor([float(b)], dtype=a.dtype, device=a.device)
+            b = torch.tensor(float(b), dtype=a.dtype, device=a.device)
         if hasattr(torch, "minimum"):
             return torch.minimum(a, b)
         else:
-- 
2.43.0


From 7cf742405b43166c259ca9a097dd5c9b5dcd3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 130/177] fix: the tensorflow backend did not follow numpy for
 linspace, flip and logsumexp

---
 ot/backend.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 7342758..220f518 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3246,6 +3246,8 @@ class TensorflowBackend(Backend):
         return tf.searchsorted(a, v, side=side)
 
     def flip(self, a, axis=None):
+        if isinstance(axis, tuple):
+            return tf.reverse(a, axis)
         return tnp.flip(a, axis)
 
     def outer(self, a, b):
@@ -3303,7 +3305,7 @@ class TensorflowBackend(Backend):
         if type_as is None:
             return tnp.linspace(start, stop, num)
         else:
-            return tnp.linspace(start, stop, num, dtype=type_as.dtype)
+            return tf.cast(tnp.linspace(start, stop, num), type_as.dtype)
 
     def meshgrid(self, a, b):
         return tnp.meshgrid(a, b)
@@ -3321,8 +3323,8 @@ class TensorflowBackend(Backend):
         else:
             return y_prime
 
-    def logsumexp(self, a, axis=None):
-        return tf.math.reduce_logsumexp(a, axis=axis)
+    def logsumexp(self, a, axis=None, keepdims=False):
+        return tf.math.reduce_logsumexp(a, axis=axis, keepdims=keepdims)
 
     def stack(self, arrays, axis=0):
         return tnp.stack(arrays, axis)
-- 
2.43.0


From 9d31d0204c84441ca17df54b03b4457a1a33ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 131/177] fix: the torch backend refused scalar repetitions in
 tile

---
 ot/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index 220f518..0176816 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2609,7 +2609,7 @@ class TorchBackend(Backend):
         return a.dtype.is_floating_point
 
     def tile(self, a, reps):
-        return a.repeat(reps)
+        return torch.tile(a, reps if isinstance(reps, tuple) else (reps,))
 
     def floor(self, a):
         return torch.floor(a)
-- 
2.43.0


From d757bfe93c9882218bfb2adb980fb9f2dc9bbe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 132/177] fix: the numpy backend did not keep the precision of
 scalars

---
 ot/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/backend.py b/ot/backend.py
index 0176816..162d26f 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1230,6 +1230,9 @@ class NumpyBackend(Backend):
     def _from_numpy(self, a, type_as=None):
         if type_as is None:
             return a
+        elif isinstance(a, np.floating) and type_as.dtype.kind == "f":
+            # numpy scalars take part in type promotion
+            return type_as.dtype.type(a)
         elif isinstance(a, float):
             return a
         else:
-- 
2.43.0


From d32e2e0b568cc8bee7d64e40a3bbbf055e34870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 133/177] fix: sinkhorn_epsilon_scaling did not keep the
 precision of its inputs

---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 2bd788d..3932a12 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1513,7 +1513,7 @@ def sinkhorn_epsilon_scaling(
 
     # print(np.min(K))
     def get_reg(n):  # exponential decreasing
-        return (epsilon0 - reg) * np.exp(-n) + reg
+        return (epsilon0 - reg) * float(np.exp(-n)) + reg
 
     err = 1
     for ii in range(numItermax):
-- 
2.43.0


From 13bc7b40de92db5e12d8ce21653b8d5902adda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 134/177] fix: proj_simplex did not keep the precision of its
 input

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 525ec6e..09895ad 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -140,10 +140,10 @@ def proj_simplex(v, z=1):
     # the projection is invariant to shifts, remove the maximum for precision
     v, u = v - u[:1], u - u[:1]
     cssv = nx.cumsum(u, axis=0) - z
-    ind = nx.arange(n, type_as=v)[:, None] + 1
+    ind = nx.cumsum(nx.ones((n, 1), type_as=v), axis=0)
     cond = u - cssv / ind > 0
     rho = nx.sum(cond, 0)
-    theta = cssv[rho - 1, nx.arange(d)] / rho
+    theta = cssv[rho - 1, nx.arange(d)] / ind[rho - 1, 0]
     w = nx.maximum(v - theta[None, :], nx.zeros(v.shape, type_as=v))
     if d1:
         return w[:, 0]
-- 
2.43.0


From b946b2b8ed64e2360086800c3c0cca04a9d40387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 135/177] fix: gmm_pdf did not keep the precision of its inputs

---
 ot/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 9237330..b4c2d63 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -101,7 +101,7 @@ def gmm_pdf(x, m, C, w):
         m.shape[0] == C.shape[0] == w.shape[0]
     ), "All GMM parameters must have the same amount of components"
     nx = get_backend(x, m, C, w)
-    out = nx.zeros((x.shape[:-1]))
+    out = nx.zeros((x.shape[:-1]), type_as=x)
     for k in range(m.shape[0]):
         out = out + w[k] * gaussian_pdf(x, m[k], C[k])
     return out
-- 
2.43.0


From 89deabb6903fb2b64532e303d17e7de9f5ff4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 136/177] fix: low-rank initializations did not keep the
 precision of the samples

---
 ot/lowrank.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index d7e7167..2225259 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -92,15 +92,15 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
         g = nx.ones(rank) / rank
 
         lambda_1 = min(nx.min(a), nx.min(g), nx.min(b)) / 2
-        a1 = nx.arange(start=1, stop=ns + 1, type_as=X_s)
+        a1 = nx.linspace(1, ns, ns, type_as=X_s)
         a1 = a1 / nx.sum(a1)
         a2 = (a - lambda_1 * a1) / (1 - lambda_1)
 
-        b1 = nx.arange(start=1, stop=nt + 1, type_as=X_s)
+        b1 = nx.linspace(1, nt, nt, type_as=X_s)
         b1 = b1 / nx.sum(b1)
         b2 = (b - lambda_1 * b1) / (1 - lambda_1)
 
-        g1 = nx.arange(start=1, stop=rank + 1, type_as=X_s)
+        g1 = nx.linspace(1, rank, rank, type_as=X_s)
         g1 = g1 / nx.sum(g1)
         g2 = (g - lambda_1 * g1) / (1 - lambda_1)
 
@@ -124,7 +124,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
                 n_clusters=rank, random_state=random_state, n_init="auto"
             )
             kmeans_Xs.fit(X_s)
-            Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_)
+            Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_, type_as=X_s)
             C_Xs = dist(X_s, Z_Xs)  # shape (ns, rank)
             if nx.max(C_Xs) > 0:
                 C_Xs = C_Xs / nx.max(C_Xs)
@@ -135,7 +135,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
                 n_clusters=rank, random_state=random_state, n_init="auto"
             )
             kmeans_Xt.fit(X_t)
-            Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_)
+            Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_, type_as=X_s)
             C_Xt = dist(X_t, Z_Xt)  # shape (nt, rank)
             if nx.max(C_Xt) > 0:
                 C_Xt = C_Xt / nx.max(C_Xt)
-- 
2.43.0


From 932378f27664d0ea3da491dd8906b9aaeae5b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 137/177] fix: entropic Gromov initial potentials did not keep
 the precision of the costs

---
 ot/gromov/_bregman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 0d2c640..1902cfd 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -189,8 +189,8 @@ def entropic_gromov_wasserstein(
     if warmstart:
         # initialize potentials to cope with ot.sinkhorn initialization
         N1, N2 = C1.shape[0], C2.shape[0]
-        mu = nx.zeros(N1, type_as=C1) - np.log(N1)
-        nu = nx.zeros(N2, type_as=C2) - np.log(N2)
+        mu = nx.zeros(N1, type_as=C1) - float(np.log(N1))
+        nu = nx.zeros(N2, type_as=C2) - float(np.log(N2))
 
     if log:
         log = {"err": []}
@@ -1176,8 +1176,8 @@ def entropic_fused_gromov_wasserstein(
     if warmstart:
         # initialize potentials to cope with ot.sinkhorn initialization
         N1, N2 = C1.shape[0], C2.shape[0]
-        mu = nx.zeros(N1, type_as=C1) - np.log(N1)
-        nu = nx.zeros(N2, type_as=C2) - np.log(N2)
+        mu = nx.zeros(N1, type_as=C1) - float(np.log(N1))
+        nu = nx.zeros(N2, type_as=C2) - float(np.log(N2))
 
     if log:
         log = {"err": []}
-- 
2.43.0


From 06a7d31558e39dd09e012ad91aa13b104092683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 138/177] fix: sliced_plans did not keep the precision of the
 samples

---
 ot/sliced/_sliced_plans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/sliced/_sliced_plans.py b/ot/sliced/_sliced_plans.py
index 5fb0452..106d28a 100644
--- a/ot/sliced/_sliced_plans.py
+++ b/ot/sliced/_sliced_plans.py
@@ -103,9 +103,9 @@ def sliced_plans(
     m = X_t.shape[0]
 
     if a is None:
-        a = nx.ones(n) / n
+        a = nx.ones(n, type_as=X_s) / n
     if b is None:
-        b = nx.ones(m) / m
+        b = nx.ones(m, type_as=X_s) / m
 
     is_perm = (n == m) and (a == a.sum() / n).all() and (b == a.sum() / n).all()
 
-- 
2.43.0


From 9aaf41ee898dbe87de391e197ba96e9f9184def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 139/177] fix: smooth_ot_semi_dual failed for arrays of other
 backends

---
 ot/smooth.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 8a7e64b..536113b 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -744,6 +744,8 @@ def smooth_ot_semi_dual(
     ot.optim.cg : General regularized OT
 
     """
+    nx = get_backend(a, b, M)
+
     if reg_type.lower() in ["l2", "squaredl2"]:
         regul = SquaredL2(gamma=reg)
     elif reg_type.lower() in ["entropic", "negentropy", "kl"]:
@@ -756,6 +758,9 @@ def smooth_ot_semi_dual(
         raise NotImplementedError("Unknown regularization")
 
     # solve dual
+    a0, M0 = a, M
+    a, b, M = nx.to_numpy(a, b, M)
+
     alpha, res = solve_semi_dual(
         a,
         b,
@@ -768,10 +773,10 @@ def smooth_ot_semi_dual(
     )
 
     # reconstruct transport matrix
-    G = get_plan_from_semi_dual(alpha, b, M, regul)
+    G = nx.from_numpy(get_plan_from_semi_dual(alpha, b, M, regul), type_as=M0)
 
     if log:
-        log = {"alpha": alpha, "res": res}
+        log = {"alpha": nx.from_numpy(alpha, type_as=a0), "res": res}
         return G, log
     else:
         return G
-- 
2.43.0


From 3f1f2630bade8bdfd2266e2313b6f4ca5df9789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 140/177] fix: gradients of emd2 failed for several targets

---
 ot/lp/_network_simplex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index a604624..f3c3c94 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -737,7 +737,7 @@ def emd2(
     # ============================================================================
     # DEFINE SOLVER FUNCTION
     # ============================================================================
-    def f(b):
+    def f(b, b0):
         bsel = b != 0
 
         if is_sparse:
@@ -879,7 +879,7 @@ def emd2(
             return cost
 
     if len(b.shape) == 1:
-        return f(b)
+        return f(b, b0)
     nb = b.shape[1]
 
     if processes > 1:
@@ -887,7 +887,7 @@ def emd2(
             "The 'processes' parameter has been deprecated. "
             "Multiprocessing should be done outside of POT."
         )
-    res = list(map(f, [b[:, i].copy() for i in range(nb)]))
+    res = [f(b[:, i].copy(), b0[:, i]) for i in range(nb)]
 
     return res
 
-- 
2.43.0


From 969c0496ca6f5ff2070281ef82014e2824b1677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 141/177] fix: the divergence to a product measure was NaN for
 null weights and did not keep the precision

---
 ot/gromov/_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 95b5659..3fce220 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -962,11 +962,11 @@ def div_to_product(pi, a, b, pi1=None, pi2=None, divergence="kl", mass=True, nx=
         if pi2 is None:
             pi2 = nx.sum(pi, 0)
 
-        res = (
-            nx.sum(pi * nx.log(pi + 1.0 * (pi == 0)))
-            - nx.sum(pi1 * nx.log(a))
-            - nx.sum(pi2 * nx.log(b))
-        )
+        def plog(p, q):
+            # zero where p is null
+            return nx.sum(p * nx.log(nx.where(p == 0, nx.ones(p.shape, type_as=p), q)))
+
+        res = plog(pi, pi) - plog(pi1, a) - plog(pi2, b)
         if mass:
             res = res - nx.sum(pi1) + nx.sum(a) * nx.sum(b)
 
-- 
2.43.0


From 86e07ea62eaf4f0bad13eb171db54180414adb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 142/177] fix: random arrays of the numpy backend ignored
 type_as

---
 ot/backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 162d26f..ed02083 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1421,10 +1421,12 @@ class NumpyBackend(Backend):
             self.rng_.seed(seed)
 
     def rand(self, *size, type_as=None):
-        return self.rng_.rand(*size)
+        res = self.rng_.rand(*size)
+        return res if type_as is None else res.astype(type_as.dtype)
 
     def randn(self, *size, type_as=None):
-        return self.rng_.randn(*size)
+        res = self.rng_.randn(*size)
+        return res if type_as is None else res.astype(type_as.dtype)
 
     def randperm(self, size, type_as=None):
         if not isinstance(size, int):
-- 
2.43.0


From 8678b7ff374b86e6b6f8d954391e262dae23fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 143/177] fix: eliminate_zeros failed for sparse torch arrays
 with a threshold

---
 ot/backend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index ed02083..8656de5 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2480,9 +2480,8 @@ class TorchBackend(Backend):
     def eliminate_zeros(self, a, threshold=0.0):
         if self.issparse(a):
             if threshold > 0:
-                mask = self.abs(a) <= threshold
-                mask = ~mask
-                mask = mask.nonzero()
+                a = a.coalesce()
+                mask = (self.abs(a._values()) > threshold).nonzero()
             else:
                 mask = a._values().nonzero()
             nv = a._values().index_select(0, mask.view(-1))
-- 
2.43.0


From c47a9f751481bcd564c929c36656e9700b3dfb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 144/177] fix: deterministic low-rank initialization did not
 keep the precision of the samples

---
 ot/lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index 2225259..84918ef 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -89,7 +89,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
 
     if init == "deterministic":
         # Init g
-        g = nx.ones(rank) / rank
+        g = nx.ones(rank, type_as=X_s) / rank
 
         lambda_1 = min(nx.min(a), nx.min(g), nx.min(b)) / 2
         a1 = nx.linspace(1, ns, ns, type_as=X_s)
-- 
2.43.0


From 6d8938835774978ce3b0d0b02e035a130a57c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 145/177] fix: gaussian_logpdf did not keep the precision of
 its inputs

---
 ot/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index b4c2d63..bc6ed99 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -49,7 +49,7 @@ def gaussian_logpdf(x, m, C):
     inv_C = nx.inv(C)
     z = nx.sum(diff * (diff @ inv_C), axis=-1)
     _, log_det_C = nx.slogdet(C)
-    return -0.5 * (d * np.log(2 * np.pi) + log_det_C + z)
+    return -0.5 * (d * float(np.log(2 * np.pi)) + log_det_C + z)
 
 
 def gaussian_pdf(x, m, C):
-- 
2.43.0


From ee36b8c2a8b6f2bc5b92622b34ba70b4bb2fa9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 146/177] fix: sinkhorn_l1l2_gl did not keep the precision of
 its inputs

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 868a4cf..42ab961 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -293,7 +293,7 @@ def sinkhorn_l1l2_gl(
 
     labels_u, labels_idx = nx.unique(labels_a, return_inverse=True)
     n_labels = labels_u.shape[0]
-    unroll_labels_idx = nx.eye(n_labels, type_as=labels_u)[None, labels_idx]
+    unroll_labels_idx = nx.eye(n_labels, type_as=M)[None, labels_idx]
 
     def f(G):
         G_split = nx.repeat(G.T[:, :, None], n_labels, axis=2)
-- 
2.43.0


From 7c891397d3a30405dc4a75478e82bc1e02ea3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 147/177] fix: projection_sparse_simplex did not keep the
 precision of its input

---
 ot/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 09895ad..4f05c47 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -211,13 +211,13 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         U = V[row_indices, max_nz_indices]
         # the projection is invariant to shifts, remove the maximum for precision
         U = U - U[:, :1]
-        z = nx.ones(len(U)) * z
+        z = nx.ones(len(U), type_as=U) * z
         cssv = nx.cumsum(U, axis=1) - z[:, None]
-        ind = nx.arange(max_nz) + 1
+        ind = nx.linspace(1, max_nz, max_nz, type_as=U)
         cond = U - cssv / ind > 0
         # rho = nx.count_nonzero(cond, axis=1)
         rho = nx.sum(cond, axis=1)
-        theta = cssv[nx.arange(len(U)), rho - 1] / rho
+        theta = cssv[nx.arange(len(U)), rho - 1] / ind[rho - 1]
         nz_projection = nx.maximum(U - theta[:, None], 0)
 
         # Put the projection of max_nz_values to their original column indices
-- 
2.43.0


From 60cc5f38159088615b6ef9899228ed6823955665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 148/177] fix: emd_1d accepted weights of another backend

---
 ot/lp/solver_1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index b96f445..34293e9 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -323,6 +323,7 @@ def emd_1d(
         a = nx.ones((x_a.shape[0],), type_as=x_a) / x_a.shape[0]
     if b is None or b.ndim == 0 or len(b) == 0:
         b = nx.ones((x_b.shape[0],), type_as=x_b) / x_b.shape[0]
+    nx = get_backend(x_a, x_b, a, b)
 
     # ensure that same mass
     if check_marginals:
-- 
2.43.0


From d8c8c604c9e366017ee5ccdcf7bc7799abb40043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 149/177] fix: weak_optimal_transport accepted weights of
 another backend

---
 ot/weak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/weak.py b/ot/weak.py
index 54485f6..8adfca9 100644
--- a/ot/weak.py
+++ b/ot/weak.py
@@ -90,7 +90,7 @@ def weak_optimal_transport(
     ot.optim.cg : General regularized OT
     """
 
-    nx = get_backend(Xa, Xb)
+    nx = get_backend(Xa, Xb, a, b)
 
     Xa2 = nx.to_numpy(Xa)
     Xb2 = nx.to_numpy(Xb)
-- 
2.43.0


From 0d7ef11860b4f86f5acd5e2e956d1f7758d42dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 150/177] fix: the jax backend halved the gradients set by the
 solvers

---
 ot/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index 8656de5..d76e254 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1671,7 +1671,8 @@ class JaxBackend(Backend):
         ravelled_inputs, _ = ravel_pytree(inputs)
         ravelled_grads, _ = ravel_pytree(grads)
 
-        aux = jnp.sum(ravelled_inputs * ravelled_grads) / 2
+        ravelled_grads = jax.lax.stop_gradient(ravelled_grads)
+        aux = jnp.sum(ravelled_inputs * ravelled_grads)
         aux = aux - jax.lax.stop_gradient(aux)
 
         (val,) = jax.tree_util.tree_map(lambda z: z + aux, (val,))
-- 
2.43.0


From 38b783ff98f65769bde152beb884b7c9e645614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 151/177] fix: the tensorflow backend ignored the upstream
 gradient of the solvers

---
 ot/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index d76e254..ee2bdbe 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3140,7 +3140,7 @@ class TensorflowBackend(Backend):
         @tf.custom_gradient
         def tmp(input):
             def grad(upstream):
-                return grads
+                return tuple(upstream * g for g in grads)
 
             return val, grad
 
-- 
2.43.0


From c9c63b249b8eca7a80752cb9e277fa29eb76c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 152/177] fix: envelope gradients of ot.solve were wrong for
 the KL regularization

---
 ot/solvers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 16daf72..48b2e80 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -492,13 +492,21 @@ def solve(
                     )
 
                 if grad == "envelope":  # set the gradient at convergence
+                    if reg_type.lower() == "kl" and c0 is None:
+                        # the reference measure depends on the weights
+                        potentials0 = (
+                            potentials[0] - nx.log(nx.where(a > 0, a, 1.0 + 0 * a)),
+                            potentials[1] - nx.log(nx.where(b > 0, b, 1.0 + 0 * b)),
+                        )
+                    else:
+                        potentials0 = potentials
                     value = nx.set_gradients(
                         value,
                         (M0, a0, b0),
                         (
                             plan,
-                            reg * (potentials[0] - potentials[0].mean()),
-                            reg * (potentials[1] - potentials[1].mean()),
+                            reg * (potentials0[0] - nx.mean(potentials0[0])),
+                            reg * (potentials0[1] - nx.mean(potentials0[1])),
                         ),
                     )
 
-- 
2.43.0


From 826bf48b49b1db190d5327a98906fbc1b83a402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 153/177] fix: values of ot.solve ignored the cost with last
 step gradients

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 48b2e80..3e9ea02 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -476,6 +476,7 @@ def solve(
                     u = loga - nx.logsumexp(Mr0 + potentials[1][None, :], 1)
                     plan = nx.exp(Mr0 + u[:, None] + v[None, :])
                     potentials = (u, v)
+                    M, a, b = M0, a0, b0
                     log["niter"] = max_iter + 1
                     log["log_u"] = u
                     log["log_v"] = v
-- 
2.43.0


From dbac13b25741184aab075b7872551f945fd37d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 154/177] fix: last step gradients of batch projections ignored
 the kernel and failed with numpy

---
 ot/batch/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index adfeaa8..a6c6bb7 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -133,7 +133,7 @@ def bregman_projection_batch(
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
-        K_, K = K.clone(), nx.detach(K)
+        K_, K = K, nx.detach(K)
 
     f = nx.ones((B, n), type_as=K)  # a / nx.sum(K, axis=2)
     g = nx.ones((B, m), type_as=K)  # b / nx.sum(K, axis=1)
@@ -153,6 +153,7 @@ def bregman_projection_batch(
         f = a / summand_f
         summand_g = nx.sum(K_ * f[:, :, None], axis=1)
         g = b / summand_g
+        K = K_
 
     T = K * f[:, :, None] * g[:, None, :]
     potentials = (f, g)
@@ -263,7 +264,7 @@ def bregman_log_projection_batch(
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
-        K_, K = K.clone(), nx.detach(K)
+        K_, K = K, nx.detach(K)
 
     for n_iters in range(max_iter):
         # null weights may come with null rows and columns of exp(K)
@@ -283,6 +284,7 @@ def bregman_log_projection_batch(
         u = loga - nx.logsumexp(summand_u, axis=2)
         summand_v = K_ + u[:, :, None]
         v = logb - nx.logsumexp(summand_v, axis=1)
+        K = K_
 
     log_T = K + u[:, :, None] + v[:, None, :]
     T = nx.exp(log_T)
-- 
2.43.0


From 57385b11504067ed4f0f905e5369a6e9af645589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 155/177] fix: solvers failed when differentiated with jax

---
 ot/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index ee2bdbe..f7d850b 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1644,7 +1644,8 @@ class JaxBackend(Backend):
         self.jax_new_version = jax_new_version
 
     def _to_numpy(self, a):
-        return np.array(a)
+        # arrays being differentiated have no value to convert
+        return np.array(jax.lax.stop_gradient(a))
 
     def _get_device(self, a):
         if self.jax_new_version:
-- 
2.43.0


From 77fac94feabd0f972de6fe0a24e5864da6d6332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 156/177] fix: envelope gradients of solve_batch ignored the
 weights

---
 ot/batch/_linear.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 7461ec0..f825710 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -347,6 +347,19 @@ def solve_batch(
         value = value_linear + reg * kl
     else:
         raise NotImplementedError(f"Not implemented reg_type: {reg_type}")
+
+    if grad == "envelope":
+        # the plan is detached: the gradients of the values with respect to the
+        # weights are the potentials, here times zero
+        for w, pot in zip((a, b), out["potentials"]):
+            w0, pot = nx.detach(w), nx.detach(pot)
+            if solver == "sinkhorn":
+                pot = nx.log(nx.where(w0 > 0, pot, 1.0 + 0 * w0))
+            if reg_type.lower() == "kl":
+                pot = pot - nx.log(nx.where(w0 > 0, w0, 1.0 + 0 * w0))
+            pot = nx.where(w0 > 0, pot, 0.0 * w0)
+            value = value + reg * nx.sum(pot * (w - w0), axis=1)
+
     log = {"n_iter": out["n_iters"]}
 
     res = OTResult(
-- 
2.43.0


From f0fff675b4594d22e8edeb4e754c370a70847445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 157/177] fix: devices of arrays being differentiated with jax
 were unknown

---
 ot/backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/backend.py b/ot/backend.py
index f7d850b..ac163d0 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1648,6 +1648,8 @@ class JaxBackend(Backend):
         return np.array(jax.lax.stop_gradient(a))
 
     def _get_device(self, a):
+        # arrays being differentiated have no device
+        a = jax.lax.stop_gradient(a)
         if self.jax_new_version:
             return list(a.devices())[0]
         else:
-- 
2.43.0


From 22cd974d5a0198d3bfb848e19f969fe3edbb15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 158/177] fix: gradients of dmmot_monge_1dgrid_loss failed

---
 ot/lp/dmmot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index e9edd3c..0db148d 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -200,7 +200,9 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
     }
 
     # define forward/backward relations for pytorch
-    obj = nx.set_gradients(obj, (A_copy), (dual))
+    obj = nx.set_gradients(
+        obj, (A_copy,), (nx.from_numpy(np.stack(dual, axis=1), type_as=A_copy),)
+    )
 
     if log:
         return obj, log_dict
-- 
2.43.0


From 998067b40a3d4058c85f7c513e14e0f8867bfcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 159/177] fix: gradients of Euclidean distances were NaN for
 common points

---
 ot/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 4f05c47..46268eb 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -305,7 +305,10 @@ def euclidean_distances(X, Y, squared=False, nx=None):
     c = nx.maximum(c, 0)
 
     if not squared:
-        c = nx.sqrt(c)
+        # the square root has no finite gradient for null distances
+        null = c == 0
+        c = nx.sqrt(nx.where(null, nx.ones(c.shape, type_as=c), c))
+        c = nx.where(null, nx.zeros(c.shape, type_as=c), c)
 
     if X is Y:
         c = c * (1 - nx.eye(X.shape[0], type_as=c))
-- 
2.43.0


From d8033f303550d27ab5368df38c5a6dc84d2f1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 160/177] fix: gradients of batched Euclidean distances were
 NaN for common points

---
 ot/batch/_linear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index f825710..aa3b034 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -82,7 +82,10 @@ def dist_euclidean_batch(X, Y, squared=True, nx=None):
     M = XX + YY - 2 * nx.einsum("bid,bjd->bij", X, Y)
     M = nx.maximum(M, 0)
     if not squared:
-        M = nx.sqrt(M)
+        # the square root has no finite gradient for null distances
+        null = M == 0
+        M = nx.sqrt(nx.where(null, nx.ones(M.shape, type_as=M), M))
+        M = nx.where(null, nx.zeros(M.shape, type_as=M), M)
     return M
 
 
-- 
2.43.0


From 9236c2c2e1ab2457d8d09ab80cff242a3085ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 161/177] fix: detached values of solve_batch had partial
 gradients for the weights

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index aa3b034..cb5d967 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -335,7 +335,7 @@ def solve_batch(
 
     if grad is None or grad == "detach":
         T = nx.detach(T)
-        M = nx.detach(M)
+        M, a, b = nx.detach(M), nx.detach(a), nx.detach(b)
     elif grad == "envelope":
         T = nx.detach(T)
 
-- 
2.43.0


From 78c920a052b4082369b7023bcad0a524c1dc22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 162/177] fix: random numbers of the numpy backend failed
 without a shape

---
 ot/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index ac163d0..e9e9c3c 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1422,11 +1422,11 @@ class NumpyBackend(Backend):
 
     def rand(self, *size, type_as=None):
         res = self.rng_.rand(*size)
-        return res if type_as is None else res.astype(type_as.dtype)
+        return np.asarray(res, dtype=getattr(type_as, "dtype", None))
 
     def randn(self, *size, type_as=None):
         res = self.rng_.randn(*size)
-        return res if type_as is None else res.astype(type_as.dtype)
+        return np.asarray(res, dtype=getattr(type_as, "dtype", None))
 
     def randperm(self, size, type_as=None):
         if not isinstance(size, int):
-- 
2.43.0


From 50cf87429cf80adb0eec9a5dbcba29f5fc67b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 163/177] fix: semi-relaxed gromov initialisations reset the
 global random state of numpy

---
 ot/gromov/_semirelaxed.py | 8 ++++----
 ot/gromov/_utils.py       | 6 ++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 336fcac..b267431 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1600,8 +1600,8 @@ def semirelaxed_gromov_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = np.random.RandomState(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
@@ -1929,8 +1929,8 @@ def semirelaxed_fgw_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = np.random.RandomState(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 3fce220..47b0428 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -605,15 +605,13 @@ def semirelaxed_init_plan(
         T = nx.outer(p, q)
 
     elif method == "random_product":
-        np.random.seed(random_state)
-        q = np.random.uniform(0, m, size=(m,))
+        q = np.random.RandomState(random_state).uniform(0, m, size=(m,))
         q = q / q.sum()
         q = nx.from_numpy(q, type_as=p)
         T = nx.outer(p, q)
 
     elif method == "random":
-        np.random.seed(random_state)
-        U = np.random.uniform(0, n * m, size=(n, m))
+        U = np.random.RandomState(random_state).uniform(0, n * m, size=(n, m))
         U = (p / U.sum(1))[:, None] * U
         T = nx.from_numpy(U, type_as=C1)
 
-- 
2.43.0


From 55b091a0a85884ed81881d5c2c3e9211a1919f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 164/177] fix: get_params removed a warning filter of the
 caller

---
 ot/utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 46268eb..7851129 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1064,15 +1064,12 @@ class BaseEstimator(object):
             # catch deprecated param values.
             # This is set in utils/__init__.py but it gets overwritten
             # when running under python3 somehow.
-            warnings.simplefilter("always", DeprecationWarning)
-            try:
-                with warnings.catch_warnings(record=True) as w:
-                    value = getattr(self, key, None)
-                if len(w) and isinstance(w[0].category, DeprecationWarning):
-                    # if the parameter is deprecated, don't show it
-                    continue
-            finally:
-                warnings.filters.pop(0)
+            with warnings.catch_warnings(record=True) as w:
+                warnings.simplefilter("always", DeprecationWarning)
+                value = getattr(self, key, None)
+            if len(w) and isinstance(w[0].category, DeprecationWarning):
+                # if the parameter is deprecated, don't show it
+                continue
 
             # XXX: should we rather test if instance of estimator?
             if deep and hasattr(value, "get_params"):
-- 
2.43.0


From fc98646a65ddabb3211250ade63748015d627eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 165/177] fix: wda printed the progress of its optimizer with
 verbose=0

---
 ot/dr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 20599f5..ca86626 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -269,11 +269,11 @@ def wda(
     # declare solver and solve
     if solver is None:
         solver = pymanopt.optimizers.SteepestDescent(
-            max_iterations=maxiter, log_verbosity=verbose
+            max_iterations=maxiter, verbosity=2 * bool(verbose), log_verbosity=verbose
         )
     elif solver in ["tr", "TrustRegions"]:
         solver = pymanopt.optimizers.TrustRegions(
-            max_iterations=maxiter, log_verbosity=verbose
+            max_iterations=maxiter, verbosity=2 * bool(verbose), log_verbosity=verbose
         )
 
     Popt = solver.run(problem, initial_point=P0)
-- 
2.43.0


From 7ff0a3b37f0ae4632d9cd154bb34f1d5153f63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 166/177] fix: random numbers of the backends were shared
 between threads

---
 ot/backend.py | 53 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index e9e9c3c..b6e876d 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -87,6 +87,7 @@ Performance
 # License: MIT License
 
 import os
+import threading
 import time
 import warnings
 import functools
@@ -271,6 +272,31 @@ def to_numpy(*args):
         return [get_backend(a).to_numpy(a) for a in args]
 
 
+# Random generators of the backends. Every thread has its own, so that the numbers
+# drawn after setting a seed do not depend on what the other threads do.
+_THREAD_GENERATORS = threading.local()
+
+
+def _thread_generator(name, new_generator):
+    """Property of a backend holding the random generator of the current thread"""
+
+    def fget(self):
+        if not hasattr(_THREAD_GENERATORS, name):
+            setattr(_THREAD_GENERATORS, name, new_generator())
+        return getattr(_THREAD_GENERATORS, name)
+
+    def fset(self, generator):
+        setattr(_THREAD_GENERATORS, name, generator)
+
+    return property(fget, fset)
+
+
+def _torch_generator(device):
+    generator = torch.Generator(device)
+    generator.seed()
+    return generator
+
+
 class Backend:
     """
     Backend abstract class.
@@ -1222,7 +1248,7 @@ class NumpyBackend(Backend):
     __type__ = np.ndarray
     __type_list__ = [np.array(1, dtype=np.float32), np.array(1, dtype=np.float64)]
 
-    rng_ = np.random.RandomState()
+    rng_ = _thread_generator("numpy", np.random.RandomState)
 
     def _to_numpy(self, a):
         return a
@@ -1625,11 +1651,9 @@ class JaxBackend(Backend):
     __type__ = jax_type
     __type_list__ = None
 
-    rng_ = None
+    rng_ = _thread_generator("jax", lambda: jax.random.PRNGKey(42))
 
     def __init__(self):
-        self.rng_ = jax.random.PRNGKey(42)
-
         self.__type_list__ = []
         # available_devices = jax.devices("cpu")
         available_devices = []
@@ -2063,28 +2087,25 @@ class TorchBackend(Backend):
     __type__ = torch_type
     __type_list__ = None
 
-    rng_ = None
+    rng_ = _thread_generator("torch", lambda: _torch_generator("cpu"))
+    rng_cuda_ = _thread_generator(
+        "torch_cuda",
+        lambda: _torch_generator("cuda" if torch.cuda.is_available() else "cpu"),
+    )
 
     def __init__(self):
-        self.rng_ = torch.Generator("cpu")
-        self.rng_.seed()
-
         self.__type_list__ = [
             torch.tensor(1, dtype=torch.float32),
             torch.tensor(1, dtype=torch.float64),
         ]
 
         if torch.cuda.is_available():
-            self.rng_cuda_ = torch.Generator("cuda")
-            self.rng_cuda_.seed()
             self.__type_list__.append(
                 torch.tensor(1, dtype=torch.float32, device="cuda")
             )
             self.__type_list__.append(
                 torch.tensor(1, dtype=torch.float64, device="cuda")
             )
-        else:
-            self.rng_cuda_ = torch.Generator("cpu")
 
         from torch.autograd import Function
         from torch.autograd.function import once_differentiable
@@ -2670,11 +2691,9 @@ class CupyBackend(Backend):  # pragma: no cover
     __type__ = cp_type
     __type_list__ = None
 
-    rng_ = None
+    rng_ = _thread_generator("cupy", lambda: cp.random.RandomState())
 
     def __init__(self):
-        self.rng_ = cp.random.RandomState()
-
         self.__type_list__ = [
             cp.array(1, dtype=cp.float32),
             cp.array(1, dtype=cp.float64),
@@ -3098,7 +3117,9 @@ class TensorflowBackend(Backend):
     __type__ = tf_type
     __type_list__ = None
 
-    rng_ = None
+    rng_ = _thread_generator(
+        "tf", lambda: tf.random.Generator.from_non_deterministic_state()
+    )
 
     def __init__(self):
         self.seed(None)
-- 
2.43.0


From 614a200bbc6c59a2d1350c9202277152b9cbcb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 167/177] fix: line_search_armijo mixed precisions and kept
 reducing the step in single precision

---
 ot/optim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ot/optim.py b/ot/optim.py
index 669a78c..3f45350 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -108,13 +108,13 @@ def line_search_armijo(
         alpha1 = np.clip(alpha1, alpha_min, alpha_max)
         # The callable function operates on nx backend
         fc[0] += 1
-        alpha10 = nx.from_numpy(alpha1)
+        alpha10 = nx.from_numpy(alpha1, type_as=xk0)
         fval = f(xk0 + alpha10 * pk0, *args)
         if isinstance(fval, float):
             # prevent bug from nx.to_numpy that can look for .cpu or .gpu
             return fval
         else:
-            return nx.to_numpy(fval)
+            return np.float64(nx.to_numpy(fval).item())
 
     if old_fval is None:
         phi0 = phi(0.0)
@@ -122,9 +122,10 @@ def line_search_armijo(
         # prevent bug from nx.to_numpy that can look for .cpu or .gpu
         phi0 = old_fval
     else:
-        phi0 = nx.to_numpy(old_fval)
+        phi0 = np.float64(nx.to_numpy(old_fval).item())
 
-    derphi0 = np.sum(pk * gfk)  # Quickfix for matrices
+    # the steps are computed in double precision
+    derphi0 = np.float64(np.sum(pk * gfk))  # Quickfix for matrices
     alpha, phi1 = scalar_search_armijo(
         phi, phi0, derphi0, c1=c1, alpha0=alpha0, amin=alpha_min
     )
-- 
2.43.0


From 1d4332c3c9363f289827f0042e8e72a488160c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 168/177] fix: quantized gromov reset the global random state
 of Python

---
 ot/gromov/_quantized.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index bf60655..68b0762 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -349,8 +349,8 @@ def get_graph_partition(
 
     elif part_method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=C.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=C.shape[0]))
 
     elif part_method == "louvain":
         C = nx.to_numpy(C0)
@@ -433,10 +433,10 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
         rep_indices = nx.arange(n_part_ids)
 
     elif rep_method == "random":
-        random.seed(random_state)
+        rng = random.Random(random_state)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif rep_method == "pagerank":
         C0, part0 = C, part
@@ -933,14 +933,14 @@ def get_partition_and_representants_samples(
         rep_indices = nx.arange(n)
 
     elif npart == 1:
-        random.seed(random_state)
+        rng = random.Random(random_state)
         part = nx.zeros(n)
-        rep_indices = [random.choice(nx.arange(n))]
+        rep_indices = [rng.choice(nx.arange(n))]
 
     elif method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=X.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=X.shape[0]))
         part = nx.from_numpy(part, type_as=X0)
 
         # randomly select representant in each partition
@@ -948,7 +948,7 @@ def get_partition_and_representants_samples(
         part_ids = nx.unique(part)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif method == "kmeans":
         X = nx.to_numpy(X0)
-- 
2.43.0


From adcbc91101555db66a3821ee94ebcd9acd6ee140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 169/177] fix: regularization paths printed their warnings

---
 ot/regpath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index bcad674..f787ccd 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -6,6 +6,8 @@ Regularization path OT solvers
 # Author: Haoran Wu <haoran.wu@univ-ubs.fr>
 # License: MIT License
 
+import warnings
+
 import numpy as np
 import scipy.sparse as sp
 
@@ -676,7 +678,7 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
         n_iter += 1
 
     if itmax <= n_iter:
-        print("maximum iteration has been reached !")
+        warnings.warn("maximum iteration has been reached !")
 
     # correct the last solution and gamma (unless the path was truncated)
     if len(t_list) > 1 and gamma_list[-1] <= reg:
@@ -687,7 +689,7 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
         gamma_list[-1] = reg
     elif gamma_list[-1] <= reg:
         gamma_list[-1] = reg
-        print("Regularization path does not exist !")
+        warnings.warn("Regularization path does not exist !")
 
     return t_list[-1], t_list, gamma_list
 
@@ -831,7 +833,7 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
         n_iter += 1
 
     if itmax <= n_iter:
-        print("maximum iteration has been reached !")
+        warnings.warn("maximum iteration has been reached !")
 
     # correct the last solution and gamma (unless the path was truncated)
     if len(t_list) > 1 and gamma_list[-1] <= reg:
@@ -842,7 +844,7 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
         gamma_list[-1] = reg
     elif gamma_list[-1] <= reg:
         gamma_list[-1] = reg
-        print("Regularization path does not exist !")
+        warnings.warn("Regularization path does not exist !")
 
     return t_list[-1], t_list, gamma_list
 
-- 
2.43.0


From 04f8e6ee376c60383698754874f4fd369e54eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 170/177] fix: non convergence of Bures barycenters was printed
 instead of warned

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 0548caf..24f9eda 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -532,7 +532,7 @@ def bures_barycenter_fixpoint(
         Cb = Cnew
 
     if diff > eps:
-        print("Dit not converge.")
+        warnings.warn("Bures barycenter: the fixed point did not converge.")
 
     if log:
         log = {}
-- 
2.43.0


From 860565b4ccb4a6e446b5136542b3aa40e059c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 171/177] fix: numerical errors of entropic_partial_wasserstein
 were printed instead of warned

---
 ot/partial/partial_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index ebb4881..64924a8 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -630,7 +630,7 @@ def _entropic_partial_wasserstein_sinkhorn(
         q3 = q3 * K2prev / K
 
         if nx.any(nx.isnan(K)) or nx.any(nx.isinf(K)):
-            print("Warning: numerical errors at iteration", cpt)
+            warnings.warn("Numerical errors at iteration %d" % cpt)
             break
         if cpt % 10 == 0:
             err = nx.norm(Kprev - K)
-- 
2.43.0


From 9b1fb752e8d03ca8b7337c0589cfa0580bf3fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 172/177] fix: barycenter with sinkhorn_log failed for tensors
 that require gradients

---
 ot/bregman/_barycenter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index fcb4488..bab6d5a 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -434,14 +434,16 @@ def _barycenter_sinkhorn_log(
 
     M = -M / reg
     logA = nx.log(A + 1e-16)
-    log_KU, G = nx.zeros((2, *logA.shape), type_as=A)
+    G = nx.zeros(logA.shape, type_as=A)
     err = 1
     for ii in range(numItermax):
         log_bar = nx.zeros(dim, type_as=A)
+        log_KU = []
         for k in range(n_hists):
             f = logA[:, k] - nx.logsumexp(M + G[None, :, k], axis=1)
-            log_KU[:, k] = nx.logsumexp(M + f[:, None], axis=0)
-            log_bar = log_bar + weights[k] * log_KU[:, k]
+            log_KU.append(nx.logsumexp(M + f[:, None], axis=0))
+            log_bar = log_bar + weights[k] * log_KU[k]
+        log_KU = nx.stack(log_KU, axis=1)
 
         if ii % 10 == 1:
             err = nx.exp(G + log_KU).std(axis=1).sum()
-- 
2.43.0


From 0fe0a3abbf7372ea9fe0af7f0400ec2ab06c5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 173/177] fix: emd_1d_dual_backprop failed for weights that
 require gradients and changed the gradients of its inputs

---
 ot/lp/solver_1d.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 34293e9..3462ae1 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -527,15 +527,16 @@ def emd_1d_dual_backprop(
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
     if nx.__name__ == "torch":
-        u_weights_diff = nx.copy(u_weights)
-        v_weights_diff = nx.copy(v_weights)
+        # detached from the inputs, whose gradients are left unchanged
+        u_weights_diff = nx.copy(nx.detach(u_weights))
+        v_weights_diff = nx.copy(nx.detach(v_weights))
 
         u_weights_diff.requires_grad_(True)
         v_weights_diff.requires_grad_(True)
 
         cost_output = wasserstein_1d(
-            u_values,
-            v_values,
+            nx.detach(u_values),
+            nx.detach(v_values),
             u_weights_diff,
             v_weights_diff,
             p=p,
-- 
2.43.0


From 0982145acaaec04f4bd565f5abbb937ac20faddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 174/177] fix: barycenter_debiased with sinkhorn_log failed for
 tensors that require gradients

---
 ot/bregman/_barycenter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index bab6d5a..cfd56c9 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -835,16 +835,18 @@ def _barycenter_debiased_log(
 
     M = -M / reg
     logA = nx.log(A + 1e-16)
-    log_KU, G = nx.zeros((2, *logA.shape), type_as=A)
+    G = nx.zeros(logA.shape, type_as=A)
     c = nx.zeros(dim, type_as=A)
     err = 1
     for ii in range(numItermax):
         log_bar = nx.zeros(dim, type_as=A)
+        log_KU = []
         for k in range(n_hists):
             f = logA[:, k] - nx.logsumexp(M + G[None, :, k], axis=1)
-            log_KU[:, k] = nx.logsumexp(M + f[:, None], axis=0)
-            log_bar += weights[k] * log_KU[:, k]
-        log_bar += c
+            log_KU.append(nx.logsumexp(M + f[:, None], axis=0))
+            log_bar = log_bar + weights[k] * log_KU[k]
+        log_KU = nx.stack(log_KU, axis=1)
+        log_bar = log_bar + c
         if ii % 10 == 1:
             err = nx.exp(G + log_KU).std(axis=1).sum()
 
-- 
2.43.0


From 80b79a282eef681c276dbe2f897b3c0c2b6e80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:31 +0000
Subject: [PATCH 175/177] fix: convolutional barycenters with sinkhorn_log
 failed for tensors that require gradients

---
 ot/bregman/_convolutional.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ot/bregman/_convolutional.py b/ot/bregman/_convolutional.py
index 3945ec5..6b3be05 100644
--- a/ot/bregman/_convolutional.py
+++ b/ot/bregman/_convolutional.py
@@ -269,14 +269,16 @@ def _convolutional_barycenter2d_log(
     convol_img = _get_convol_img_fn(nx, width, height, reg, type_as=A, log_domain=True)
 
     logA = nx.log(A + stabThr)
-    log_KU, G, F = nx.zeros((3, *logA.shape), type_as=A)
+    G = nx.zeros(logA.shape, type_as=A)
     err = 1
     for ii in range(numItermax):
         log_bar = nx.zeros((width, height), type_as=A)
+        log_KU = []
         for k in range(n_hists):
             f = logA[k] - convol_img(G[k])
-            log_KU[k] = convol_img(f)
+            log_KU.append(convol_img(f))
             log_bar = log_bar + weights[k] * log_KU[k]
+        log_KU = nx.stack(log_KU)
 
         if ii % 10 == 9:
             err = nx.exp(G + log_KU).std(axis=0).sum()
@@ -505,16 +507,18 @@ def _convolutional_barycenter2d_debiased_log(
     convol_img = _get_convol_img_fn(nx, width, height, reg, type_as=A, log_domain=True)
 
     logA = nx.log(A + stabThr)
-    log_bar, c = nx.zeros((2, width, height), type_as=A)
-    log_KU, G, F = nx.zeros((3, *logA.shape), type_as=A)
+    c = nx.zeros((width, height), type_as=A)
+    G = nx.zeros(logA.shape, type_as=A)
     err = 1
     for ii in range(numItermax):
         log_bar = nx.zeros((width, height), type_as=A)
+        log_KU = []
         for k in range(n_hists):
             f = logA[k] - convol_img(G[k])
-            log_KU[k] = convol_img(f)
+            log_KU.append(convol_img(f))
             log_bar = log_bar + weights[k] * log_KU[k]
-        log_bar += c
+        log_KU = nx.stack(log_KU)
+        log_bar = log_bar + c
         for _ in range(10):
             c = 0.5 * (c + log_bar - convol_img(c))
 
-- 
2.43.0


From 7270ca96425e7804b99d1c07f59aaba15094d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 176/177] fix: EMDLaplaceTransport failed with target labels

---
 ot/da.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/da.py b/ot/da.py
index 42ab961..392206d 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1717,6 +1717,10 @@ class EMDLaplaceTransport(BaseTransport):
         The kind of out of sample mapping to apply to transport samples
         from a domain into another one. Currently the only possible option is
         "ferradans" which uses the method proposed in :ref:`[6] <references-emdlaplacetransport>`.
+    limit_max: float, optional (default=10)
+        Controls the semi supervised mode. Transport between labeled source
+        and target samples of different classes will exhibit an infinite cost
+        (10 times the maximum value of the cost matrix)
 
     Attributes
     ----------
@@ -1756,6 +1760,7 @@ class EMDLaplaceTransport(BaseTransport):
         verbose=False,
         distribution_estimation=distribution_estimation_uniform,
         out_of_sample_map="ferradans",
+        limit_max=10,
     ):
         self.reg = reg_type
         self.reg_lap = reg_lap
@@ -1772,6 +1777,7 @@ class EMDLaplaceTransport(BaseTransport):
         self.verbose = verbose
         self.distribution_estimation = distribution_estimation
         self.out_of_sample_map = out_of_sample_map
+        self.limit_max = limit_max
 
     def fit(self, Xs, ys=None, Xt=None, yt=None):
         r"""Build a coupling matrix from source and target sets of samples
-- 
2.43.0


From f66c911de786efb84eda3b49769e4331d27e5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 177/177] fix: entropic partial Gromov failed for tensors that
 require gradients

---
 ot/gromov/_partial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index c91de8a..de5136f 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -1237,7 +1237,7 @@ def entropic_partial_gromov_wasserstein(
         assert nx.any(nx.sum(G0, 0) <= q)
 
     if symmetric is None:
-        symmetric = np.allclose(C1, C1.T, atol=1e-10) and np.allclose(
+        symmetric = nx.allclose(C1, C1.T, atol=1e-10) and nx.allclose(
             C2, C2.T, atol=1e-10
         )
 
@@ -1290,7 +1290,7 @@ def entropic_partial_gromov_wasserstein(
         M_entr = df(G0)
         G0 = entropic_partial_wasserstein(p, q, M_entr, reg, m)
         if cpt % 10 == 0:  # to speed up the computations
-            err = np.linalg.norm(G0 - Gprev)
+            err = nx.norm(G0 - Gprev)
             if log:
                 loge["err"].append(err)
             if verbose:
@@ -1595,7 +1595,7 @@ def entropic_partial_fused_gromov_wasserstein(
         assert nx.any(nx.sum(G0, 0) <= q)
 
     if symmetric is None:
-        symmetric = np.allclose(C1, C1.T, atol=1e-10) and np.allclose(
+        symmetric = nx.allclose(C1, C1.T, atol=1e-10) and nx.allclose(
             C2, C2.T, atol=1e-10
         )
 
@@ -1652,7 +1652,7 @@ def entropic_partial_fused_gromov_wasserstein(
         M_entr = df(G0)
         G0 = entropic_partial_wasserstein(p, q, M_entr, reg, m)
         if cpt % 10 == 0:  # to speed up the computations
-            err = np.linalg.norm(G0 - Gprev)
+            err = nx.norm(G0 - Gprev)
             if log:
                 loge["err"].append(err)
             if verbose:
-- 
2.43.0

