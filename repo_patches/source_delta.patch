From 3f21699c9e67abcdd3117763584dfaf0ed841572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 01/46] fix: score every parent layer with its own model

---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..170e61d 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -280,8 +280,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -298,10 +298,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -323,11 +323,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_1(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_2(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -342,8 +342,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -365,10 +365,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From 7e09bcccb05206d303051803e01ce4d3b3cdf452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 02/46] fix: missing parentheses in the 3D fuzzy OR-XOR product

---
 lom/_numba/lom_outputs_fuzzy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..3a2bfde 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
-- 
2.43.0


From d2310326a1d5f1b167c2232d435abc536225162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 03/46] fix: compute the probabilistic product whenever fuzzy
 output is requested

---
 lom/auxiliary_functions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..3061f7d 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -744,6 +744,10 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
     if model not in implemented_loms():
         print('Requested model output is not explicitly implemented.\n' +
               'Falling back to slower general implementation.')
+        if fuzzy is True:
+            # map factors to [-1,1] and output back to probabilities
+            return .5 * (lom_generate_data_fuzzy(
+                [2 * f - 1 for f in factors], model) + 1)
         return lom_generate_data(factors, model)
 
     if len(factors) == 2:
@@ -756,7 +760,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3:
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
@@ -765,6 +769,11 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out3D = lambda_updates_numba.make_output_function_3d_fuzzy(model)
             return out3D(*[np.array(f, dtype=np.float64) for f in factors])
 
+    elif fuzzy is True:
+        # map factors to [-1,1] and output back to probabilities
+        return .5 * (lom_generate_data_fuzzy(
+            [2 * f - 1 for f in factors], model) + 1)
+
     else:
         return lom_generate_data(factors, model)
 
-- 
2.43.0


From 7a0137d87f11b7c1dc4bbfc76d243e15524e79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 04/46] fix: map the factor_mean_old output to probabilities

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index debef3b..9d27db5 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -425,6 +425,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     self.model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From dcd590e9f4d49746146b77e8e8ea9f2e794768dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 05/46] fix: MAX-AND prediction uses the largest active
 dispersion

---
 lom/_numba/lom_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..302bd39 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -254,7 +254,7 @@ def XOR_NAND_product_3d(u, z, v):
 def MAX_AND_product_2d(factors, lbdas):
 
     out = np.zeros([f.shape[0] for f in factors])
-    for l_idx in np.argsort(lbdas[:-1]):
+    for l_idx in np.argsort(-lbdas[:-1]):
         temp = lbdas[l_idx] * OR_AND_product_expand(
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
-- 
2.43.0


From 83551cb572e29c877216b940a46113dc74b2cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 06/46] fix: pass the current entry to the flip in the 3D
 child/parent sampler

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 170e61d..468d88c 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -230,7 +230,7 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From b255b0457f5f723b26cde51623662f1bc2435dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 07/46] fix: MAX-AND updates relate entries to their dispersion
 rank consistently

---
 lom/_numba/max_machine_sampler.py | 12 +++++++-----
 lom/matrix_update_wrappers.py     |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..ee2b637 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -13,15 +13,17 @@ from lom._numba.lom_outputs import OR_AND_product_expand
 def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
     for n in prange(N):
+        # l is a rank, the entry to be updated is column l_sorted[l]
         for l in range(L):
-            if Z_fixed[n, l] == 1:
+            l_idx = l_sorted[l]
+            if Z_fixed[n, l_idx] == 1:
                 continue
             logit_p = posterior_score_MAX_AND_2D(
                         Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
-            Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
+            Z[n, l_idx] = flip_metropolised_gibbs_numba(logit_p, Z[n, l_idx])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('float64(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])', 
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
@@ -31,9 +33,9 @@ def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
     D, L = U.shape
 
-    score = np.int32(0)
+    score = np.float64(0)
     for d in range(D):
-        if U[d, l] != 1:  # AND
+        if U[d, l_sorted[l]] != 1:  # AND
             continue
 
         alrdy_active = False
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..ad77ebd 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -46,7 +46,7 @@ def get_sampling_fct(mat):
         from lom._numba.max_machine_sampler import draw_MAX_AND_2D
 
         def MAX_AND_2D(mat):
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int64)
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From c6d8d791b9873f581bb8cdfe0dfd04ed717266c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 08/46] fix: MAX-AND noise update refers to the existing
 function

---
 lom/_numba/lambda_updates_numba.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/lambda_updates_numba.py b/lom/_numba/lambda_updates_numba.py
index 3c96cc0..d5c1281 100644
--- a/lom/_numba/lambda_updates_numba.py
+++ b/lom/_numba/lambda_updates_numba.py
@@ -256,8 +256,12 @@ def make_lbda_update_fct(model, dimensionality):
         return lbda_update_fct
 
     if model == 'MAX-AND':
-        import lom._numba.max_machine_sampler
-        return lom._numba.max_machine_sampler.bda_MAX_AND
+        from lom._numba.max_machine_sampler import lbda_MAX_AND
+
+        def lbda_update_fct(parm):
+            lbda_MAX_AND(parm, K=dimensionality)
+
+        return lbda_update_fct
 
     else:
         counter = make_correct_predictions_counter(model, dimensionality)
-- 
2.43.0


From f8ee0ff2c32a2334c7547a11e997f1c13b5f4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 09/46] fix: drop references to posterior scores that do not
 exist

---
 lom/_numba/matrix_updates_numba.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 468d88c..7325cbc 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -105,10 +105,6 @@ def get_posterior_score_fct(model):
         posterior_score_fct = score_fcts.posterior_score_XOR_NXOR_3D
     elif model == 'XOR_NAND_3D':
         posterior_score_fct = score_fcts.posterior_score_XOR_NAND_3D
-    elif model == 'OR_ALL_2D':
-        posterior_score_fct = score_fcts.posterior_score_OR_ALL_2D
-    elif model == 'OR_ALL_3D':
-        posterior_score_fct = score_fcts.posterior_score_OR_ALL_3D
     else:
         print(model)
         raise NotImplementedError('Posterior sampling for ' + model + '.')
-- 
2.43.0


From 7ac4481afa91fce2fe80cc280c213227b845712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 10/46] fix: MAX-AND factor updates use the current dispersions

---
 lom/matrix_update_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index ad77ebd..ca85c7d 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -43,9 +43,11 @@ def get_sampling_fct(mat):
     if mod == 'MAX_AND_2D':
         assert p1mod is None
         assert p2mod is None
-        from lom._numba.max_machine_sampler import draw_MAX_AND_2D
+        from lom._numba.max_machine_sampler import draw_MAX_AND_2D, compute_lbda_ratios
 
         def MAX_AND_2D(mat):
+            # lambda may have been set since the last update
+            compute_lbda_ratios(mat.layer)
             l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int64)
             draw_MAX_AND_2D(
                 mat(),
-- 
2.43.0


From 1028cb5c2adbac51b7efb8be7253274db318eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 11/46] fix: sampled qL thresholds never exceed the considered
 range

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 7325cbc..f0edb10 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -516,7 +516,7 @@ def random_choice(p):
         acc += p[i]
         if rand_float < acc:
             return np.int8(i + 1)
-    return len(p) + 1
+    return len(p)  # rand_float can exceed acc by rounding errors only
 
 
 # @jit('int8(int8[:], int8[:,:], int8[:], float64, float64, float64, int8)',
-- 
2.43.0


From 8f2e740314c4697d91af8dc03977178ba3a838ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 12/46] fix: qL threshold conditional depends on the data and
 on its own column only

---
 lom/_numba/matrix_updates_numba.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index f0edb10..358da3a 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -542,13 +542,15 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
                 gamma - lgamma(q_new + 2)
 
             # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
+            active_sources = np.dot((Z + 1) / 2, (U[d, :] + 1) / 2)
+            true_predictions = np.sum(
+                2 * (active_sources >= q_new + 1) - 1 == X[:, d])
             logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
                 (N - true_predictions) * m_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-        log_p_max = np.max(logconditional)
+        log_p_max = np.max(logconditional[:, d])
         for q_new in prange(q_max - 1):
             logconditional[q_new, d] = np.exp(logconditional[q_new, d] - log_p_max)
 
-- 
2.43.0


From 2d105ca2cb96c6b3f11ef3c8e22d18c9c0c8b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 13/46] fix: qL factor updates respect fixed entries and the
 dispersion

---
 lom/_numba/matrix_updates_numba.py | 16 ++++++++++------
 lom/matrix_update_wrappers.py      |  2 ++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 358da3a..0a9377e 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -622,8 +622,8 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -632,15 +632,17 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            if Z_fixed[n, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
                 logit_score, Z[n, l])
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -650,7 +652,9 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            if U_fixed[d, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
                 logit_score, U[d, l])
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index ca85c7d..7140fc6 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -77,6 +77,7 @@ def get_sampling_fct(mat):
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
@@ -88,6 +89,7 @@ def get_sampling_fct(mat):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-- 
2.43.0


From 6169fae85ab7b0044fee51c547c60a958935ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 14/46] fix: qL thresholds get their own sampler when both
 factors are fixed

---
 lom/matrix_update_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 7140fc6..1e75cf4 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -73,6 +73,9 @@ def get_sampling_fct(mat):
 
         mat.layer.q.sampling_fct = q_sampler
 
+        if mat is mat.layer.q:
+            return q_sampler
+
         if mat.child_axis == 0:
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
-- 
2.43.0


From 74b436e0342373f2d0e79f83aaec612174892602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 15/46] fix: evidence scores do not overflow for large data

---
 lom/_numba/matrix_updates_numba.py |  9 +++++----
 lom/_numba/posterior_score_fcts.py | 32 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 0a9377e..5bfaa27 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -5,6 +5,7 @@ Numba sampling routines
 import numpy as np
 import math
 from numba import jit, prange
+from numba.types import int64
 # import lom._cython.matrix_updates as cython_mu
 import lom._numba.lom_outputs as lom_outputs
 import lom._numba.posterior_score_fcts as score_fcts
@@ -561,14 +562,14 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
         # q[0, d] = np.argmax(logconditional[:, d]) + 1
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
 def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     # TODO: numba
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -595,11 +596,11 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     return score
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..d47bf13 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -8,7 +8,7 @@ from numba import jit
 from numba.types import int64
 
 # OR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -71,7 +71,7 @@ def posterior_score_OR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -141,7 +141,7 @@ def posterior_score_XOR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -206,7 +206,7 @@ def posterior_score_XOR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -262,7 +262,7 @@ def posterior_score_OR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -313,11 +313,11 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # NAND-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -357,12 +357,12 @@ def posterior_score_NAND_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -408,11 +408,11 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NXOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From 92c21247309d2286c24ceafcc4ad0564120f0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 16/46] fix: factor updates use the current Bernoulli prior

---
 lom/matrix_update_wrappers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 1e75cf4..3188264 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -130,7 +130,6 @@ def get_sampling_fct(mat):
         elif mat.child_axis == 1:
             # return lambda mat: None
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
-            logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
             def LOM_sampler(mat):
                 # numba_mu.draw_OR_AND_2D(
@@ -140,14 +139,12 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
     # assign functions for all classical LFMs
     else:
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         # standard case: one child, no parents
         if p1mod is None and mod is not None:
             sample = numba_mu.make_sampling_fct_onechild(mod)
@@ -160,7 +157,7 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
@@ -178,7 +175,7 @@ def get_sampling_fct(mat):
                     mat.layer.lbda(),
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -192,7 +189,7 @@ def get_sampling_fct(mat):
                     mat.fixed_entries,
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -208,7 +205,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -228,7 +225,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
-- 
2.43.0


From 9e3d5abc4634a4c09a1b37d628196397a90130b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 17/46] fix: IBP keeps the fixed-entries masks in step with the
 latent dimensions

---
 lom/matrix_update_wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 3188264..ba1e562 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -124,6 +124,12 @@ def get_sampling_fct(mat):
                     mat.siblings[0].bernoulli_prior,
                     mat.layer.alpha)
 
+                # the number of latent dimensions may have changed
+                for factor in [mat, mat.siblings[0]]:
+                    if factor.fixed_entries.shape != factor().shape:
+                        factor.fixed_entries = np.zeros(
+                            factor().shape, dtype=np.int8)
+
             return IBP_sampler
 
         # For U, sample as usual
-- 
2.43.0


From 1618362a10d59e0a00b8eceb11a8359ead12f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 18/46] fix: unsupported models and architectures raise errors

---
 lom/auxiliary_functions.py    | 11 ++++-------
 lom/matrix_update_wrappers.py |  9 ++++-----
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 3061f7d..37d21c3 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -939,8 +939,6 @@ def canonise_model(model, child):
         pass
 
     else:
-        import pdb
-        pdb.set_trace()
         raise NotImplementedError("Model not implemented.")
 
     # print output and invert data if needed.
@@ -1201,11 +1199,10 @@ def get_lom_class(machine):
         Inv = [True, True, False]
         machine = 'XOR-XOR'
 
-    try:
-        return machine, Inv
-    except:
-        import pdb
-        pdb.set_trace()
+    else:
+        raise NotImplementedError("Model not implemented.")
+
+    return machine, Inv
 
 
 def find_centers_of_ordered_list(ls):
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index ba1e562..9f3d3e9 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -236,9 +236,8 @@ def get_sampling_fct(mat):
             return LOM_sampler_hasparents
 
         else:
-            import pdb
-            pdb.set_trace()
-            raise NotImplementedError("More than one parent not supported.")
+            raise NotImplementedError(
+                "Matrix without child and parent layers can not be sampled.")
 
 
 def get_relatives_models(mat):
@@ -253,14 +252,14 @@ def get_relatives_models(mat):
 
     parent1_model = None
     parent2_model = None
+    if len(mat.parents) > 2:
+        raise NotImplementedError("More than two parents are not supported.")
     if len(mat.parents) > 0:
         assert len(mat.parents[0].factors) == 2
         parent1_model = (mat.parents[0].model + '-2D').replace('-', '_')
     if len(mat.parents) > 1:
         assert len(mat.parents[1].factors) == 2
         parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
-        raise NotImplementedError("More than two parents are not supported.")
 
     return model, parent1_model, parent2_model
 
-- 
2.43.0


From 5b07f1eb165e4edc8fb3b32923059043d24eb128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 19/46] fix: unsupported models have no output function

---
 lom/_numba/lambda_updates_numba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lom/_numba/lambda_updates_numba.py b/lom/_numba/lambda_updates_numba.py
index d5c1281..d806453 100644
--- a/lom/_numba/lambda_updates_numba.py
+++ b/lom/_numba/lambda_updates_numba.py
@@ -49,6 +49,7 @@ def get_scalar_output_function_2d(model, fuzzy=False):
             return lom_outputs_fuzzy.XOR_NXOR_product_fuzzy
         if model == 'OR-NAND':
             return lom_outputs_fuzzy.OR_NAND_product_fuzzy
+    raise NotImplementedError('Output for ' + model + '.')
 
 
 def get_scalar_output_function_3d(model, fuzzy=False):
@@ -86,6 +87,7 @@ def get_scalar_output_function_3d(model, fuzzy=False):
             return lom_outputs_fuzzy.XOR_NXOR_product_fuzzy_3d
         if model == 'OR-NAND':
             return lom_outputs_fuzzy.OR_NAND_product_fuzzy_3d
+    raise NotImplementedError('Output for ' + model + '.')
 
 
 def make_output_function_2d(model):
-- 
2.43.0


From 9a4ea0a95fe558ee67b5e34a19f99188ddc0c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 20/46] fix: output rejects unknown techniques and leaves the
 model label alone

---
 lom/machine.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 9d27db5..d3d837d 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -364,13 +364,12 @@ class MachineLayer():
                   'under disregard of technique.')
             return self.prediction
 
-        reset_name_to_IBP = False
-        if self.model == 'OR-AND-IBP':
-            reset_name_to_IBP = True
-            self.model = 'OR-AND'
+        model = self.model
+        if model == 'OR-AND-IBP':
+            model = 'OR-AND'
 
         # otherwise compute
-        if self.model == 'MAX-AND':
+        if model == 'MAX-AND':
             if technique == 'point_estimate':
                 out = lom_outputs.MAX_AND_product_2d(
                     [x() for x in self.factors], self.lbda())
@@ -390,8 +389,10 @@ class MachineLayer():
                     .5 * (self.z.mean() + 1),
                     .5 * (self.u.mean() + 1),
                     self.lbda.mean())
+            else:
+                raise ValueError('invalid technique')
 
-        elif self.model == 'qL-AND':
+        elif model == 'qL-AND':
             N, D = self.child().shape
             out = np.zeros([N, D])
             for n in range(N):
@@ -405,26 +406,26 @@ class MachineLayer():
         else:
             if technique == 'point_estimate':
                 out = aux.lom_generate_data_fast(
-                    [x() for x in self.factors], self.model)
+                    [x() for x in self.factors], model)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'factor_map':
                 out = aux.lom_generate_data_fast(
                     [2 * (x.mean() > 0) - 1 for x in self.factors],
-                    self.model)
+                    model)
                 out = np.array(out == 1, dtype=np.int8)  # map to probability of emitting a 1
 
             elif technique == 'factor_mean':
                 # output does not need to be mapped to probabilities
                 out = aux.lom_generate_data_fast(
                     [(x.mean() + 1) * .5 for x in self.factors],  # map to (0,1)
-                    self.model,
+                    model,
                     fuzzy=True)
 
             elif technique == 'factor_mean_old':
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
-                    self.model)
+                    model)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
@@ -433,10 +434,13 @@ class MachineLayer():
                 for t in range(self.lbda.trace.shape[0]):
                     out += aux.lom_generate_data_fast([x.trace[t, :]
                                                        for x in self.factors],
-                                                      self.model)
+                                                      model)
                 out /= self.lbda.trace.shape[0]
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
+            else:
+                raise ValueError('invalid technique')
+
             # convert to probability of generating a 1
             if noisy_emission is True:
                 out = out * aux.expit(self.lbda.mean()) +\
@@ -444,9 +448,6 @@ class MachineLayer():
 
         self.prediction = out
 
-        if reset_name_to_IBP is True:
-            self.model = 'OR-AND-IBP'
-
         if map_to_probabilities is True:
             return out
         else:
-- 
2.43.0


From ea625722ca5c62a8d00765e4ce15697c05e1012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 21/46] fix: map the qL-AND output to probabilities

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index d3d837d..b632c21 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -402,6 +402,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
-- 
2.43.0


From a2c6d1a8128dd6b4df0bfa17c219b5401e9f307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 22/46] fix: count the pre-burn-in iterations if burn-in does
 not converge

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index b632c21..ca7934b 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -664,7 +664,7 @@ class Machine():
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-                self.burn_in_iters = burn_in_iter
+                self.burn_in_iters = burn_in_iter + pre_burn_in_iter
                 break
 
             # draw samples # shuffle(mats)
-- 
2.43.0


From ec6f9109e23015322c7caa16ab4e4f7b3ec9ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 23/46] fix: judge convergence on complete windows of lambda
 values only

---
 lom/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index ca7934b..792a554 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -622,7 +622,8 @@ class Machine():
                       end='')
 
             #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            # (samples of the current iteration are not drawn yet)
+            if burn_in_iter > 1 and (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-- 
2.43.0


From 1f3e7e73d6418e32f9042b4ac8c5a38950b99f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 24/46] fix: annealing ends at the given lambda

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 792a554..dd73807 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -601,7 +601,7 @@ class Machine():
                             for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter]
+                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter - 1]
 
         # allocate array for lambda traces for burn in detection
         for lbda in lbdas:
-- 
2.43.0


From b167c219af9459b11bc6ae070bca3bceac0e68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 25/46] fix: infer matrices that are not part of a layer

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index dd73807..54f438a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -727,7 +727,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From a3115085cf94c0c56fc257aeb6ae750eff1cd03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 26/46] fix: remove a latent dimension from masks and MAX-AND
 dispersions, too

---
 lom/auxiliary_functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 37d21c3..8d45d04 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -152,6 +152,12 @@ def remove_dimension(l_prime, layer):
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
+        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+
+    if layer.model == 'MAX-AND':
+        from lom._numba.max_machine_sampler import compute_lbda_ratios
+        layer.lbda.val = np.delete(layer.lbda.val, l_prime)
+        compute_lbda_ratios(layer)
 
 
 def reset_dimension(l_prime, layer):
-- 
2.43.0


From cf2c81e904fdb7a5c890768a0338afb7971b3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 27/46] fix: clean_up_codes examines dimensions that follow a
 removed one

---
 lom/auxiliary_functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 8d45d04..5b30246 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -115,22 +115,27 @@ def clean_up_codes(layer, reset=True, clean=False):
     # remove inactive codes
     l = 0
     while l < layer.size:  # need to use while loop because layer.size changes.
+        size = layer.size
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
             cleaning_action(l, layer)
             reduction_applied = True
-        l += 1
+        # the next dimension takes the place of a removed one
+        if layer.size == size:
+            l += 1
 
     # remove duplicates
     l = 0
     while l < layer.size:
         l_prime = l + 1
         while l_prime < layer.size:
+            size = layer.size
             for f in layer.factors:
                 if np.all(f()[:, l] == f()[:, l_prime]):
                     reduction_applied = True
                     cleaning_action(l_prime, layer)
                     break
-            l_prime += 1
+            if layer.size == size:
+                l_prime += 1
         l += 1
 
     if reduction_applied is True:
-- 
2.43.0


From c672300249c6d124a6d1e8cbbc1c9e1c0d8a5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 28/46] fix: resetting a dimension leaves fixed entries alone

---
 lom/auxiliary_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 5b30246..a3afeae 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -167,7 +167,8 @@ def remove_dimension(l_prime, layer):
 
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
-        f.val[:, l_prime] = -1
+        if f.fixed is not True:
+            f.val[f.fixed_entries[:, l_prime] != 1, l_prime] = -1
 
 
 def plot_matrix_ax(mat, ax, draw_cbar=True):
-- 
2.43.0


From 6d82c61c053bc52c293a3061b99d07745d2b7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 29/46] fix: an array of fixed entries can be passed to
 MachineMatrix

---
 lom/machine.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 54f438a..2586849 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -229,14 +229,17 @@ class MachineMatrix(Trace):
             self.val = 2 * np.array(np.random.rand(*shape) > .5,
                                     dtype=np.int8) - 1
 
-        # fix the full matrix
-        if type(fixed) is np.ndarray:
-            assert fixed.shape == shape
-        self.fixed = fixed
-
         # fix some matrix entries
         self.fixed_entries = np.zeros(self().shape, dtype=np.int8)
 
+        # fix the full matrix, or the entries given by a mask
+        if type(fixed) is np.ndarray:
+            assert fixed.shape == self().shape
+            self.fixed_entries[fixed != 0] = 1
+            self.fixed = False
+        else:
+            self.fixed = fixed
+
         # initialise layer to None
         self.layer = None
 
-- 
2.43.0


From eca5a95294e07eff62098c9e50d9ed2d10a3f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 30/46] fix: expected density of the XOR-XOR family

---
 lom/auxiliary_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index a3afeae..3be6e08 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1080,10 +1080,8 @@ def expected_density(model, L, K, f):
         d = Inv[0](Inv[1](K * f * invert(f)**(K - 1))**L)
 
     elif model_group == 'XOR-XOR':
-        d = Inv[0](L * (
-            Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
-        ))
+        p = Inv[1](K * f * invert(f)**(K - 1))
+        d = Inv[0](L * p * invert(p)**(L - 1))
 
     return d
 
-- 
2.43.0


From 4690b42fce26f5c2ca91189ad372464c54673426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 31/46] fix: compiled signatures agree with the functions they
 declare

---
 lom/_numba/lom_outputs.py          | 2 +-
 lom/_numba/matrix_updates_numba.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 302bd39..01a412b 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -67,7 +67,7 @@ def OR_AND_product_expand(z, u):
                 X[n, d] = 1
     return X
 
-@jit('int8[:,:](int8[:], int8[:,:])', nogil=True, parallel=True)
+@jit('int8[:](int8[:], int8[:,:])', nogil=True, parallel=True)
 def OR_AND_single_n(z, U):
     """
     Compute deterministic output for a single row
diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 5bfaa27..ad0d67a 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -256,7 +256,7 @@ def make_sampling_fct_nochild_oneparent(parent_model):
                         logit_parent_score + logit_prior, Z[n, l])
 
     elif parent_model[-2:] == '3D':
-        @jit('void(int8[:,:,:], int8[:,:,:], int8[:,:], int8[:,:], float64, float64)',
+        @jit('void(int8[:,:,:], int8[:,:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
              nogil=True, nopython=True, parallel=True)
         def sampling_fct(Z, Z_fixed, pa1, pa2, pa3, lbda_pa, logit_prior):
             N, D, M = Z.shape
-- 
2.43.0


From 354c1a1ffdaa75e3b3bc7dbc483430f006beb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 32/46] fix: undefined names and removed numpy aliases

---
 lom/_numba/max_machine_sampler.py |  4 +++-
 lom/auxiliary_functions.py        | 12 +++++++-----
 lom/experiments.py                |  5 +++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index ee2b637..468d4d5 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -188,7 +188,9 @@ if __name__ == '__main__':
     for n, d in zip(n_flip, d_flip):
         X[n, d] *= -1
 
-    assert count_correct_predictions_or_and_numba(Z, U, X) == N * D - num_flips
+    from lom._numba.lambda_updates_numba import make_correct_predictions_counter
+    count_correct_predictions = make_correct_predictions_counter('OR-AND', 2)
+    assert count_correct_predictions(Z, U, X) == N * D - num_flips
     print('assertion succeeded.')
 
 
diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 3be6e08..673a87f 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -68,10 +68,10 @@ def compute_bp(q, n, N, tau=1):
 
     exp_bp = [(q * (n - k * tau)) / ((1 - q) * (k * tau + 1)) for k in range(n)]
 
-    bp = [np.log(x) if (x > 0) else -np.infty for x in exp_bp]
+    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]
 
     if N != n:
-        bp_new = [-np.infty for i in range(N)]
+        bp_new = [-np.inf for i in range(N)]
         bp_new[:n - 1] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
@@ -84,7 +84,7 @@ def compute_bbp(n, a, b):
     """
     exp_bbp = [(float((n - k) * (k + a)) /
                 float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
-    bbp = [np.log(x) if (x > 0) else -np.infty for x in exp_bbp]
+    bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
 
@@ -263,6 +263,7 @@ def plot_codes(mat, attributes=None, order='relevance'):
         print('seaborn import failed')
         cmap = 'gray_r'
 
+    from lom._numba.max_machine_sampler import maxmachine_relevance
     eigenvals = maxmachine_relevance(mat.layer)
     if order == 'relevance':
         l_idx = np.argsort(-np.array(eigenvals[:-1]))
@@ -294,7 +295,8 @@ def get_roc_auc(data, data_train, prediction):
 
     zero_idx = np.where(data_train == 0)
     zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
-    auc = sklearn.metrics.roc_auc_score(
+    from sklearn.metrics import roc_auc_score
+    auc = roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
 
     return auc
@@ -620,7 +622,7 @@ def intersect_dataframes(A, B):
     assert np.all(A.index == B.index)
     assert np.all(A.columns == B.columns)
 
-    print('\n\tNew shape is :' + str(mut.shape))
+    print('\n\tNew shape is :' + str(A.shape))
 
     return A, B
 
diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..0b87f7b 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -6,6 +6,7 @@ Functions to automatize experiments
 
 import numpy as np
 import lom.auxiliary_functions as lib
+import lom.auxiliary_functions as aux
 import lom
 import lom.matrix_update_wrappers as wrappers
 import lom.lambda_update_wrappers as sampling
@@ -78,7 +79,7 @@ def dbtf_reconstruct(X, L, hyperparms=[3, .3, 25], compute_output=True):
 
     # load results
     factors_dbtf_sparse = [np.loadtxt('./output/sample_factor' + str(i) + '_sparse.txt',
-                                      delimiter=',', dtype=np.int) for i in range(1, 4)]
+                                      delimiter=',', dtype=int) for i in range(1, 4)]
 
     # convert results to dense arrays
     f_dbtf = []
@@ -170,7 +171,7 @@ def split_train_test(tensor, split=.1, balanced=False):
     def index_generator():
         return tuple([np.random.randint(dim) for dim in tensor.shape])
 
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
+    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=int)
     i = 0
 
     if balanced is False:
-- 
2.43.0


From dc4450badd3edaa4313ff113ac330734efa71252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 33/46] fix: ROC and relevance helpers iterate over index pairs
 more than once

---
 lom/_numba/max_machine_sampler.py | 8 ++++----
 lom/auxiliary_functions.py        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 468d4d5..0d3bbef 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -203,11 +203,11 @@ def maxmachine_relevance(layer, model_type='mcmc'):
     """
 
     # avoid unnecessary re-computation.
-    if layer.eigenvals is not None:
+    if getattr(layer, 'eigenvals', None) is not None:
         return layer.eigenvals
 
 
-    if model_type is 'plugin': 
+    if model_type == 'plugin':
         alphas = layer.lbda()
         x = layer.child()
         # add clamped units
@@ -225,7 +225,7 @@ def maxmachine_relevance(layer, model_type='mcmc'):
 
         eigenvals = np.zeros(len(alphas)) # array for results
         idxs = np.where(layer.child()==1)
-        idxs = zip(idxs[0],idxs[1]) # indices of n,d where x[n,d]=1
+        idxs = list(zip(idxs[0],idxs[1])) # indices of n,d where x[n,d]=1
         no_ones = len(idxs)
 
         # iterate from largest to smallest alpha doesn't work
@@ -236,7 +236,7 @@ def maxmachine_relevance(layer, model_type='mcmc'):
                      if z[n,l_prime]*u[d,l_prime]*alphas[l_prime] > z[n,l]*u[d,l]*alphas[l]])
         eigenvals /= len(idxs)
 
-    elif model_type is 'mcmc':
+    elif model_type == 'mcmc':
         alpha_tr = layer.lbda.trace
         z_tr = layer.z.trace
         u_tr = layer.u.trace
diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 673a87f..7310c0b 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -294,7 +294,7 @@ def get_roc_auc(data, data_train, prediction):
     """
 
     zero_idx = np.where(data_train == 0)
-    zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
+    zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
     from sklearn.metrics import roc_auc_score
     auc = roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
-- 
2.43.0


From 825652ca2961ca68e0cf5bea713fdf1baaee5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 34/46] fix: noise helpers use an explicit seed

---
 lom/auxiliary_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 7310c0b..577dc30 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -553,7 +553,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
     print('X needs to be in -1, 1 mapping!')
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -568,7 +569,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From 1d04f7171f8afa2790bcc4789c7021c5c88d0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 35/46] fix: show the MAP of a sign-coded matrix

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 2586849..0dd5857 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -250,7 +250,7 @@ class MachineMatrix(Trace):
         if technique == 'mean':
             aux.plot_matrix(self.mean())
         elif technique == 'map':
-            aux.plot_matrix(self.mean() > .5)
+            aux.plot_matrix(self.mean() > 0)
         elif technique == 'state':
             aux.plot_matrix(self())
         else:
-- 
2.43.0


From e696b16fce29f7f451143a4aef1cd9daba4101a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 36/46] fix: create a layer of an inverted model without child

---
 lom/machine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 0dd5857..d1b0047 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -499,10 +499,6 @@ class Machine():
         information about children's parents need to be assigned.
         """
 
-        # Convert model to canonical representation and invert data
-        # if necessary, return indicators to track inversion.
-        model, invert_data, invert_factors = aux.canonise_model(model, child)
-
         # determine size of all members
         if child is None and shape is not None:
             child = MachineMatrix(shape=shape)
@@ -511,6 +507,10 @@ class Machine():
         else:
             raise ValueError("Not enough shape information provided.")
 
+        # Convert model to canonical representation and invert data
+        # if necessary, return indicators to track inversion.
+        model, invert_data, invert_factors = aux.canonise_model(model, child)
+
         # initialise matrices/factors (use add_matrix)
         factors = [MachineMatrix(shape=(K, latent_size),
                                  child_axis=i)
-- 
2.43.0


From e60af1511856ad24e1c630a6768b9d88c6604bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 37/46] fix: MAX-AND expected output is a probability

---
 lom/_numba/lom_outputs_fuzzy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 3a2bfde..8f23384 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -221,7 +221,9 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
                     if l1 == l2:
                         continue
                     temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
+                    # stronger dimension (ties are broken by position)
+                    if lbdas[l2] > lbdas[l1] or\
+                            (lbdas[l2] == lbdas[l1] and l2 < l1):
                         prod *= 1 - temp2
                 acc += temp1 * prod
             out[n, d] = acc
-- 
2.43.0


From b9c30517b3b4d5f5db0879a181725b8e23066761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 38/46] fix: rank of the compiled 3D fuzzy output

---
 lom/_numba/lambda_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/lambda_updates_numba.py b/lom/_numba/lambda_updates_numba.py
index d806453..d61bbc4 100644
--- a/lom/_numba/lambda_updates_numba.py
+++ b/lom/_numba/lambda_updates_numba.py
@@ -148,7 +148,7 @@ def make_output_function_2d_fuzzy(model):
 def make_output_function_3d_fuzzy(model):
     get_scalar_output_3d = get_scalar_output_function_3d(model, fuzzy=True)
 
-    @jit('float64[:,:](float64[:,:], float64[:,:], float64[:,:])',
+    @jit('float64[:,:,:](float64[:,:], float64[:,:], float64[:,:])',
          nogil=True, nopython=False, parallel=True)
     def output_function_3d(Z, U, V):
         N = Z.shape[0]
-- 
2.43.0


From 4cb32fd3d36f9830d9c7ba2ba7de80c255ebd775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 39/46] fix: a new matrix can be given by its density

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index d1b0047..14bca49 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -215,7 +215,7 @@ class MachineMatrix(Trace):
         self.child_axis = child_axis
         self.parents = []
         self.bernoulli_prior = 0.5
-        if val is not None:
+        if type(val) is np.ndarray:
             shape = val.shape
 
         # assign value if provided, otherwise bernoulli random
-- 
2.43.0


From 6446ef70f0e348f9ca8f270275801ac0ec2e9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 40/46] fix: the dispersion is kept fixed for all requested
 iterations

---
 lom/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 14bca49..202ee89 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -568,7 +568,8 @@ class Machine():
         pre_burn_in_iter = 0
         while True:
             # stop pre-burn-in if minimum numbers of burn-in iterations is reached
-            if pre_burn_in_iter == burn_in_min:
+            # and the dispersion needs not be kept fixed anymore
+            if pre_burn_in_iter >= burn_in_min and pre_burn_in_iter >= fix_lbda_iters:
                 break
 
             pre_burn_in_iter += 1
-- 
2.43.0


From 62614a5a7b8830908d5ef443ac70ca0068c15ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 41/46] fix: parent layers of qL-AND and IBP factors are
 rejected

---
 lom/matrix_update_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9f3d3e9..10feb70 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -39,6 +39,9 @@ def get_sampling_fct(mat):
 
     print(msg)
 
+    if mod in ('qL_AND_2D', 'OR_AND_IBP_2D') and p1mod is not None:
+        raise NotImplementedError('Parent layers of ' + mod + ' factors.')
+
     # assign functions for MAX-AND model
     if mod == 'MAX_AND_2D':
         assert p1mod is None
-- 
2.43.0


From eeb852aa0405d80753c857c873d81e2900b628c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 42/46] fix: qL-AND output rejects techniques it does not
 implement

---
 lom/machine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 202ee89..fcc5053 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -396,6 +396,8 @@ class MachineLayer():
                 raise ValueError('invalid technique')
 
         elif model == 'qL-AND':
+            if technique not in ('point_estimate', 'factor_map'):
+                raise ValueError('invalid technique')
             N, D = self.child().shape
             out = np.zeros([N, D])
             for n in range(N):
-- 
2.43.0


From 4aa82622a35db1a573bda922dd2c62e2f72d6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 43/46] fix: IBP prior of the number of new dimensions does not
 depend on the number of old ones

---
 lom/_numba/matrix_updates_numba.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index ad0d67a..0d4fa20 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -447,9 +447,9 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
 
         lik_L_new = [TN * TN_factor[L_temp] + FN * FN_factor[L_temp]
                      for L_temp in range(L_new_max)]
-        # L_new or L+L_new ??!
-        prior_L_new = [(L_temp + L) * np.log(alpha / N) - (alpha / N) -
-                       gammaln(L + L_temp + 1)
+        # the number of new dishes is Poisson distributed with rate alpha / N
+        prior_L_new = [L_temp * np.log(alpha / N) - (alpha / N) -
+                       gammaln(L_temp + 1)
                        for L_temp in range(L_new_max)]
         log_L_new = [loglik + logprior
                      for loglik, logprior in zip(lik_L_new, prior_L_new)]
-- 
2.43.0


From e1c89675f0ea3e252a13a2216e876b2a3bda3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 44/46] fix: IBP likelihood of new dimensions uses the
 probability of an entry being off

---
 lom/_numba/matrix_updates_numba.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 0d4fa20..ba092a4 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -399,9 +399,10 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     # data points for a range of L'
 
     # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    p_off = 1 - q  # probability that a new dimension does not use an attribute
+    FN_factor = [np.log((expit(lbda) * (1 - 2 * (p_off**L_temp))) + (p_off**L_temp))
                  for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (p_off**L_temp))) + (p_off**L_temp))
                  for L_temp in range(L_new_max)]
 
     for n in range(N):
-- 
2.43.0


From 90b648de1120380534d72da98581b88ae592ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 45/46] fix: new IBP dimensions are drawn under the prior of
 their entries

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index ba092a4..f605077 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -473,7 +473,7 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
                 for d in range(D):
                     logit_score = lbda * posterior_score_fct(
                         U[d, :], Z, X[:, d], l)
-                    U[d, l] = flip_gibbs_numba(expit(logit_score))
+                    U[d, l] = flip_gibbs_numba(expit(logit_score + logit(q)))
 
         L += L_new
 
-- 
2.43.0


From 6b6782aff0e3eacd9d84df650fdb3930568dc900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 46/46] fix: predictive experiments do not invert the training
 data of the caller

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 0b87f7b..ea17cf3 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -266,7 +266,7 @@ def LOM_predictive(experiment, return_machine=True):
     X, X_train, train_mask, machine, L, random_idx, lbda_init, anneal = experiment
 
     orm = lom.Machine()
-    data = orm.add_matrix(X_train, fixed=True)
+    data = orm.add_matrix(X_train.copy(), fixed=True)
     layer = orm.add_layer(latent_size=L, child=data, model=machine)
     layer.lbda.val = lbda_init
 
-- 
2.43.0

