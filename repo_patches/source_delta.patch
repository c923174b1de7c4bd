From aab0f0029edcfc576f9842c317a89f8ce6e6ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 01/57] fix: accumulate posterior scores in 64 bit

The two-dimensional score functions and the qL score functions started from
a Python int, so that adding int8 data entries gave an int8 running sum which
wraps around as soon as more than 127 data points are explained.
---
 lom/_numba/matrix_updates_numba.py |  5 +++--
 lom/_numba/posterior_score_fcts.py | 16 ++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..9a1978f 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -13,6 +13,7 @@ import lom._numba.posterior_score_fcts as score_fcts
 from lom.auxiliary_functions import logit, expit
 from scipy.special import gammaln
 from math import lgamma
+from numba.types import int64
 
 
 @jit('int8(float64, int8)', nopython=True, nogil=True)
@@ -570,7 +571,7 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -601,7 +602,7 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..68b44e9 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -317,7 +317,7 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -362,7 +362,7 @@ def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -412,7 +412,7 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From 22f2d619fa185f61339758cd162789bfe15f3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 02/57] fix: update of a factor of a 3D layer that has a parent
 layer

A misplaced parenthesis called the flip function with a single argument and
assigned a tuple, so every such update raised a TypeError.
---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 9a1978f..0277d42 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -231,7 +231,7 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From 7bd9ec6c8859f5a7c97b9927c1fbe1fdaa4c2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 03/57] fix: use each parent's own model for a matrix with two
 parents

The score function of the second parent's model overwrote that of the first,
so both parents were treated as if they followed the second parent's model.
---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 0277d42..f5a65f4 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -281,8 +281,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -299,10 +299,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -324,11 +324,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_1(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_2(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -343,8 +343,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -366,10 +366,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From dc14365c100a642282fffd39023f3244388f24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 04/57] fix: reject matrices with more than two parents

The check was unreachable, and any parent layer beyond the second was
silently left out of the updates.
---
 lom/matrix_update_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..165b8d6 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -243,14 +243,14 @@ def get_relatives_models(mat):
 
     parent1_model = None
     parent2_model = None
+    if len(mat.parents) > 2:
+        raise NotImplementedError("More than two parents are not supported.")
     if len(mat.parents) > 0:
         assert len(mat.parents[0].factors) == 2
         parent1_model = (mat.parents[0].model + '-2D').replace('-', '_')
     if len(mat.parents) > 1:
         assert len(mat.parents[1].factors) == 2
         parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
-        raise NotImplementedError("More than two parents are not supported.")
 
     return model, parent1_model, parent2_model
 
-- 
2.43.0


From 253acb2f58272a650ce45aaa67a5067d040d0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 05/57] fix: infer matrices that are not part of any layer

A data matrix that is not held fixed has no layer of its own, so allocating
its trace raised an AttributeError.
---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index debef3b..ec17265 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -723,7 +723,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From d76785fb99ca36c8c93d9a0ea2f0e150dfc89b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 06/57] fix: anneal lambda up to the requested value, not
 beyond it

The schedule was read with an index that is off by one: it skipped the first
step and finished one step above the target.
---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index ec17265..6800f1a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -598,7 +598,7 @@ class Machine():
                             for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter]
+                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter - 1]
 
         # allocate array for lambda traces for burn in detection
         for lbda in lbdas:
-- 
2.43.0


From 37b7e7b040198525c0eb39d1e334dc1dcc9859ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 07/57] fix: do not test convergence on uninitialised memory

The first check of the burn-in happened after convergence_window - 1 draws,
when the last entry of the freshly allocated trace had not been written yet.
---
 lom/machine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 6800f1a..e61a754 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -618,8 +618,9 @@ class Machine():
                       '\t--\t '.join([x.print_value() for x in lbdas]),
                       end='')
 
-            #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            #  check convergence every convergence_window iterations, i.e.
+            #  whenever the traces have been filled completely
+            if burn_in_iter > 1 and (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-- 
2.43.0


From 8b0eab99d71c21fa9a8fdbcc2ea2147b855588f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 08/57] fix: use the current prior of a matrix in every call to
 infer

The prior was stored when the sampling function was first assigned, so that
changing it after a first call to infer had no effect.
---
 lom/matrix_update_wrappers.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 165b8d6..a891560 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -8,6 +8,13 @@ import lom._numba.matrix_updates_numba as numba_mu
 from scipy.special import logit
 
 
+def logit_bernoulli_prior(mat):
+    """
+    Current prior of mat, it may be changed between calls to infer.
+    """
+    return np.float64(logit(mat.bernoulli_prior))
+
+
 def get_sampling_fct(mat):
     """
     Assign matrix update function to mat, depending on its
@@ -123,7 +130,6 @@ def get_sampling_fct(mat):
         elif mat.child_axis == 1:
             # return lambda mat: None
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
-            logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
             def LOM_sampler(mat):
                 # numba_mu.draw_OR_AND_2D(
@@ -133,14 +139,12 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    logit_bernoulli_prior(mat))
 
             return LOM_sampler
 
     # assign functions for all classical LFMs
     else:
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         # standard case: one child, no parents
         if p1mod is None and mod is not None:
             sample = numba_mu.make_sampling_fct_onechild(mod)
@@ -153,7 +157,7 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    logit_bernoulli_prior(mat))
 
             return LOM_sampler
 
@@ -171,7 +175,7 @@ def get_sampling_fct(mat):
                     mat.layer.lbda(),
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    logit_bernoulli_prior(mat))
 
             return LOM_sampler_hasparents
 
@@ -185,7 +189,7 @@ def get_sampling_fct(mat):
                     mat.fixed_entries,
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    logit_bernoulli_prior(mat))
 
             return LOM_sampler_hasparents
 
@@ -201,7 +205,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    logit_bernoulli_prior(mat))
 
             return LOM_sampler_hasparents
 
@@ -221,7 +225,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    logit_bernoulli_prior(mat))
 
             return LOM_sampler_hasparents
 
-- 
2.43.0


From 44a4da4c1f3d9f56fbbc4f74e2e4f14c97770710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 09/57] fix: renew the update function of a matrix when layers
 are added to it

After a call to infer, adding a layer on top of a factor matrix had no effect
on that matrix: its update function was kept and ignored the new parent.
---
 lom/matrix_update_wrappers.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index a891560..3d99aa7 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -24,12 +24,30 @@ def get_sampling_fct(mat):
     """
 
     # use pre-assigned sampling function if present
-    if mat.sampling_fct is not None:
+    if mat.sampling_fct is not None and\
+            not hasattr(mat.sampling_fct, 'relatives_models'):
         return mat.sampling_fct
 
+    # a function that was assigned here is only reused for as long as no
+    # further layers are attached to mat
+    relatives_models = get_relatives_models(mat)
+    if mat.sampling_fct is not None and\
+            mat.sampling_fct.relatives_models == relatives_models:
+        return mat.sampling_fct
+
+    sampling_fct = make_sampling_fct(mat, *relatives_models)
+    sampling_fct.relatives_models = relatives_models
+    return sampling_fct
+
+
+def make_sampling_fct(mat, mod, p1mod, p2mod):
+    """
+    Create matrix update function for mat, given the models of its
+    child layer and of up to two parent layers.
+    """
+
     # determine order of child dimensions such that first
     # child dimension and mat dimension are aligned.
-    mod, p1mod, p2mod = get_relatives_models(mat)
 
     if mod is not None:
         transpose_order = tuple(
-- 
2.43.0


From c73a06d24db843fadc7ec735a1accdbe6672b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 10/57] fix: MAX-AND update of factors whose lambdas are not in
 decreasing order

The order of the latent dimensions was applied to their siblings, but not to
the dimension that is updated itself, so its score was computed from the
column and the lambda of another dimension.
---
 lom/_numba/max_machine_sampler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..e2787c8 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -13,11 +13,12 @@ from lom._numba.lom_outputs import OR_AND_product_expand
 def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
     for n in prange(N):
-        for l in range(L):
+        for l_idx in range(L):
+            l = l_sorted[l_idx]  # position l_idx in the order of decreasing lbda
             if Z_fixed[n, l] == 1:
                 continue
             logit_p = posterior_score_MAX_AND_2D(
-                        Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
+                        Z[n, :], U, X[n, :], l_idx, l_sorted, lbda_ratios)
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
@@ -26,14 +27,14 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
     Return count of correct/incorrect explanations
-    caused by setting Z[n,l] to 1, respecting
+    caused by setting Z[n,l_sorted[l]] to 1, respecting
     explaining away dependencies.
     """
     D, L = U.shape
 
     score = np.int32(0)
     for d in range(D):
-        if U[d, l] != 1:  # AND
+        if U[d, l_sorted[l]] != 1:  # AND
             continue
 
         alrdy_active = False
-- 
2.43.0


From e1780efe1a318525887baeae96f29932c7a9230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 11/57] fix: MAX-AND factor updates use the current lambda

The table of log ratios was only recomputed by the lambda update, so factors
were sampled for the initial lambda whenever it had been set by the user.
---
 lom/matrix_update_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 3d99aa7..9cb8ecc 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -68,9 +68,12 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
     if mod == 'MAX_AND_2D':
         assert p1mod is None
         assert p2mod is None
-        from lom._numba.max_machine_sampler import draw_MAX_AND_2D
+        from lom._numba.max_machine_sampler import (
+            draw_MAX_AND_2D, compute_lbda_ratios)
 
         def MAX_AND_2D(mat):
+            # lbda may have been set or resized since its last update
+            compute_lbda_ratios(mat.layer)
             l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
             draw_MAX_AND_2D(
                 mat(),
-- 
2.43.0


From 87efbd792792e03d17998cb97e28d588e46740c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 12/57] fix: MAX-AND output is the largest active lambda

The latent dimensions were visited from the smallest to the largest lambda, so
that the smallest active one was returned. Data points without any active
dimension now have the probability of the clamped unit, as in the updates.
---
 lom/_numba/lom_outputs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..9814f6a 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -254,9 +254,12 @@ def XOR_NAND_product_3d(u, z, v):
 def MAX_AND_product_2d(factors, lbdas):
 
     out = np.zeros([f.shape[0] for f in factors])
-    for l_idx in np.argsort(lbdas[:-1]):
+    for l_idx in np.argsort(-lbdas[:-1]):
         temp = lbdas[l_idx] * OR_AND_product_expand(
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
 
+    # clamped unit
+    out[out == 0] = lbdas[-1]
+
     return out
-- 
2.43.0


From cdd68b982e5605e4f6e5f3247323972f7a8c4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 13/57] fix: MAX-AND output for factor means is the expected
 largest lambda

Explaining away compared lambda times the probability of being active instead
of lambda itself, and ignored ties, so the result could exceed one.
---
 lom/_numba/lom_outputs_fuzzy.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..19d45b8 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -209,21 +209,16 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
     N = Z.shape[0]
     D = U.shape[0]
     L = Z.shape[1]
+    l_order = np.argsort(-lbdas[:L])
     out = np.zeros([N, D])  # , dtype=np.float)
     for n in prange(N):
         for d in range(D):
-            acc = 0  # accumulator for sum
-            for l1 in range(L):
-                temp1 = Z[n, l1] * U[d, l1] * lbdas[l1]
-                # check for explaining away
-                prod = 1
-                for l2 in range(L):
-                    if l1 == l2:
-                        continue
-                    temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
-                        prod *= 1 - temp2
-                acc += temp1 * prod
-            out[n, d] = acc
-    return out    
+            acc = 0.0  # accumulator for sum
+            prod = 1.0  # probability that no larger lambda is active
+            for l in l_order:
+                temp = Z[n, l] * U[d, l]
+                acc += prod * temp * lbdas[l]
+                prod *= 1 - temp
+            out[n, d] = acc + prod * lbdas[L]  # clamped unit
+    return out
 
-- 
2.43.0


From 0dd105156fba9a90de8017351b349bca51e50bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 14/57] fix: sign error in the fuzzy OR-XOR product of three
 factors

---
 lom/_numba/lom_outputs_fuzzy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 19d45b8..43477dc 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
-- 
2.43.0


From 2fee1d6a1774c1dd3936af49b35ba90ca182dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 15/57] fix: probabilities from the output of tensor factor
 means

Apart from OR-AND, the output for three or more factors fell back to the
deterministic product, which treats every mean below one as a zero.
---
 lom/auxiliary_functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..fef432e 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -739,12 +739,13 @@ def get_fuzzy_lop(name='OR'):
 def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
     """
     Factors and generated data are in [-1,1] mapping.
+    If fuzzy is True, both are probabilities in [0,1].
     """
 
     if model not in implemented_loms():
         print('Requested model output is not explicitly implemented.\n' +
               'Falling back to slower general implementation.')
-        return lom_generate_data(factors, model)
+        return lom_generate_data_general(factors, model, fuzzy)
 
     if len(factors) == 2:
 
@@ -756,7 +757,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3:
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
@@ -766,8 +767,21 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             return out3D(*[np.array(f, dtype=np.float64) for f in factors])
 
     else:
+        return lom_generate_data_general(factors, model, fuzzy)
+
+
+def lom_generate_data_general(factors, model, fuzzy):
+    """
+    Fallback of lom_generate_data_fast, with the same mapping.
+    """
+
+    if fuzzy is False:
         return lom_generate_data(factors, model)
 
+    elif fuzzy is True:
+        return .5 * (lom_generate_data_fuzzy(
+            [2 * f - 1 for f in factors], model) + 1)
+
 
 def lom_generate_data(factors, model='OR-AND'):
     """
-- 
2.43.0


From 4e0ea80cfbc59c0ffea9f558e2f866191f4f5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 16/57] fix: do not invert the data array of the user in place

---
 lom/auxiliary_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index fef432e..71126ad 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -955,7 +955,7 @@ def canonise_model(model, child):
     if invert_data is True and invert_factors is False:
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data.\n')
-        child.val *= -1
+        child.val = -child.val  # new array, val may belong to the user
 
     if invert_data is False and invert_factors is True:
         print('\n' + model + ' is treated as ' + model_new +
@@ -965,7 +965,7 @@ def canonise_model(model, child):
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data and inverted factors. ' +
               ' (invert factors yourself!)\n')
-        child.val *= -1
+        child.val = -child.val
 
     # print warning for OR-NAND models.
     if model_new == 'OR-NAND':
-- 
2.43.0


From c226012bf0aa9b0b42ed77a28f8e26dbd1d65a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 17/57] fix: add layers of inverted models without given child

---
 lom/machine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index e61a754..f0c7513 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -493,10 +493,6 @@ class Machine():
         information about children's parents need to be assigned.
         """
 
-        # Convert model to canonical representation and invert data
-        # if necessary, return indicators to track inversion.
-        model, invert_data, invert_factors = aux.canonise_model(model, child)
-
         # determine size of all members
         if child is None and shape is not None:
             child = MachineMatrix(shape=shape)
@@ -505,6 +501,10 @@ class Machine():
         else:
             raise ValueError("Not enough shape information provided.")
 
+        # Convert model to canonical representation and invert data
+        # if necessary, return indicators to track inversion.
+        model, invert_data, invert_factors = aux.canonise_model(model, child)
+
         # initialise matrices/factors (use add_matrix)
         factors = [MachineMatrix(shape=(K, latent_size),
                                  child_axis=i)
-- 
2.43.0


From c0872de515e4bec446ea822dc7657a9920385bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 18/57] fix: expected density of XOR-XOR for three or more
 factors

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 71126ad..97cc39a 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1077,7 +1077,7 @@ def expected_density(model, L, K, f):
     elif model_group == 'XOR-XOR':
         d = Inv[0](L * (
             Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
+                   invert(K * f * (invert(f))**(K - 1)) ** (L - 1))
         ))
 
     return d
-- 
2.43.0


From 973c98c8ca4b7640c3fd6a1ad4aa37298ca20505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 19/57] fix: remove unused variables that break
 split_train_test

---
 lom/experiments.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..52903f8 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -165,14 +165,6 @@ def split_train_test(tensor, split=.1, balanced=False):
     avoiding use of np.where.
     """
 
-    num_split = int(np.sum(tensor != 0) * split)
-
-    def index_generator():
-        return tuple([np.random.randint(dim) for dim in tensor.shape])
-
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
-    i = 0
-
     if balanced is False:
         # old approach
         # while i < num_split:
-- 
2.43.0


From d1c63a4f9e367f47777499781b86dca21ed37b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 20/57] fix: missing import for the default models of the grid
 search

---
 lom/experiments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/experiments.py b/lom/experiments.py
index 52903f8..6790bf9 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -6,6 +6,7 @@ Functions to automatize experiments
 
 import numpy as np
 import lom.auxiliary_functions as lib
+import lom.auxiliary_functions as aux
 import lom
 import lom.matrix_update_wrappers as wrappers
 import lom.lambda_update_wrappers as sampling
-- 
2.43.0


From 188ba67ae27dcf05a45970930b25b050e7f26971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 21/57] fix: use the given seed when adding noise

---
 lom/auxiliary_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 97cc39a..8677be3 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -540,6 +540,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -555,6 +557,8 @@ def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From 51e0311c1cbfbf1bf2647557cf76003526581e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 22/57] fix: do not skip the dimension following a removed one

---
 lom/auxiliary_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 8677be3..71d5c40 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -115,22 +115,26 @@ def clean_up_codes(layer, reset=True, clean=False):
     # remove inactive codes
     l = 0
     while l < layer.size:  # need to use while loop because layer.size changes.
+        size = layer.size
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
             cleaning_action(l, layer)
             reduction_applied = True
-        l += 1
+        if layer.size == size:  # otherwise the next dimension moved to l
+            l += 1
 
     # remove duplicates
     l = 0
     while l < layer.size:
         l_prime = l + 1
         while l_prime < layer.size:
+            size = layer.size
             for f in layer.factors:
                 if np.all(f()[:, l] == f()[:, l_prime]):
                     reduction_applied = True
                     cleaning_action(l_prime, layer)
                     break
-            l_prime += 1
+            if layer.size == size:
+                l_prime += 1
         l += 1
 
     if reduction_applied is True:
-- 
2.43.0


From 801f0cab2f0cbfdcae7498d0971810513f4e1778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 23/57] fix: keep fixed entries aligned when a latent dimension
 is removed

---
 lom/auxiliary_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 71d5c40..a28ec83 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -156,6 +156,7 @@ def remove_dimension(l_prime, layer):
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
+        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
 
 
 def reset_dimension(l_prime, layer):
-- 
2.43.0


From b477224ba1e3007b76f2dd739a6cd62442a984ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 24/57] fix: remove the lambda of a removed MAX-AND dimension

---
 lom/auxiliary_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index a28ec83..8099b91 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -158,6 +158,10 @@ def remove_dimension(l_prime, layer):
         f.val = np.delete(f.val, l_prime, axis=1)
         f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
 
+    # one lambda per latent dimension and one for the clamped unit
+    if layer.model == 'MAX-AND':
+        layer.lbda.val = np.delete(layer.lbda.val, l_prime)
+
 
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
-- 
2.43.0


From 5b1a10d56811f78e113e3eff2cd2296672cf6470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 25/57] fix: do not reset fixed factors and fixed entries

---
 lom/auxiliary_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 8099b91..46c3955 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -165,7 +165,8 @@ def remove_dimension(l_prime, layer):
 
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
-        f.val[:, l_prime] = -1
+        if not f.fixed:
+            f.val[f.fixed_entries[:, l_prime] != 1, l_prime] = -1
 
 
 def plot_matrix_ax(mat, ax, draw_cbar=True):
-- 
2.43.0


From c3b899fd7ee219731195773f5e01d35a771705f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 26/57] fix: discard samples of members that are held fixed

---
 lom/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index f0c7513..0c8f605 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -703,6 +703,11 @@ class Machine():
         #         print('Oo')
         #         thing_to_update.set_sampling_fct()
 
+        # fixed members have no trace, discard the ones of previous calls
+        for member in self.members + self.lbdas:
+            if member.fixed and hasattr(member, 'trace'):
+                del member.trace
+
         # ascertain sure all trace indices are zero
         for mat in mats:
             mat.trace_index = 0
-- 
2.43.0


From 601d22334ccdb239eb10e11239fc08441960e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 27/57] fix: Monte Carlo output of layers with fixed factors or
 lambda

---
 lom/machine.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 0c8f605..0811e55 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -152,6 +152,15 @@ class Trace():
         else:
             return self()
 
+    def sample(self, t):
+        """
+        Return t-th sample, or the current state if no trace is defined.
+        """
+        if 'trace' in dir(self):
+            return self.trace[t]
+        else:
+            return self()
+
     def check_convergence(self, eps):
         """
         split trace in half and check difference between means < eps
@@ -331,6 +340,14 @@ class MachineLayer():
     def dimensionality(self):
         return len(self.factors)
 
+    @property
+    def no_samples(self):
+        """
+        Number of samples in the traces, fixed members do not have any.
+        """
+        return max([x.trace.shape[0] for x in self.factors + [self.lbda]
+                    if 'trace' in dir(x)] + [1])
+
     def __iter__(self):
         return iter(self.factors)
 
@@ -380,11 +397,11 @@ class MachineLayer():
                         for x in self.factors], self.lbda())
             elif technique == 'mc':
                 out = np.zeros([x().shape[0] for x in self.factors])
-                for t in range(self.lbda.trace.shape[0]):
+                for t in range(self.no_samples):
                     out += lom_outputs.MAX_AND_product_2d(
-                        [x.trace[t, :] for x in self.factors],
-                        self.lbda.trace[t])
-                out /= self.lbda.trace.shape[0]
+                        [x.sample(t) for x in self.factors],
+                        self.lbda.sample(t))
+                out /= self.no_samples
             elif technique == 'factor_mean':
                 out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                     .5 * (self.z.mean() + 1),
@@ -429,11 +446,11 @@ class MachineLayer():
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
 
-                for t in range(self.lbda.trace.shape[0]):
-                    out += aux.lom_generate_data_fast([x.trace[t, :]
+                for t in range(self.no_samples):
+                    out += aux.lom_generate_data_fast([x.sample(t)
                                                        for x in self.factors],
                                                       self.model)
-                out /= self.lbda.trace.shape[0]
+                out /= self.no_samples
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             # convert to probability of generating a 1
-- 
2.43.0


From 6b8b13bf9276ee0f79036077f55b9615ef0d826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 28/57] fix: old factor mean output is a probability as well

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index 0811e55..e463dfe 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -442,6 +442,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     self.model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From 1c895461ddd121631ddc8aec16c4b3820604d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 29/57] fix: qL-AND output is a probability

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index e463dfe..917321e 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -418,6 +418,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
-- 
2.43.0


From 9d0bf662ee48f918317ff22c4a87a5ec66b9b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 30/57] fix: qL-AND factor updates respect lambda, prior and
 fixed entries

---
 lom/_numba/matrix_updates_numba.py | 22 ++++++++++++++--------
 lom/matrix_update_wrappers.py      |  8 ++++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index f5a65f4..e49bb93 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -625,8 +625,9 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -635,15 +636,18 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            if Z_fixed[n, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
-                logit_score, Z[n, l])
+                logit_score + logit_prior, Z[n, l])
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -653,8 +657,10 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            if U_fixed[d, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
-                logit_score, U[d, l])
+                logit_score + logit_prior, U[d, l])
     return
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9cb8ecc..dc9a57b 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -103,10 +103,12 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    logit_bernoulli_prior(mat))
 
             return qL_sampler_Z
 
@@ -114,10 +116,12 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    logit_bernoulli_prior(mat))
 
             return qL_sampler_U
 
-- 
2.43.0


From dbf7cbac0b2200c676d792e4aabf931b72c12c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 31/57] fix: qL-AND thresholds are drawn given the observed
 data

---
 lom/_numba/matrix_updates_numba.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index e49bb93..8880e8d 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -540,6 +540,8 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
     for d in prange(D):
 
+        no_observed = np.count_nonzero(X[:, d])
+
         for q_new in prange(q_max - 1):  # shift by one to have q values and indices agree
 
             # compute logpriors
@@ -547,9 +549,11 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
                 gamma - lgamma(q_new + 2)
 
             # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
+            predictions = np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1
+            true_predictions = np.sum((predictions & (X[:, d] == 1)) |
+                                      (~predictions & (X[:, d] == -1)))
             logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
-                (N - true_predictions) * m_lbda
+                (no_observed - true_predictions) * m_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-- 
2.43.0


From 8e0d00ab09ae331090deb845b4212ac80f8f681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 32/57] fix: qL-AND thresholds can be inferred for fixed
 factors

---
 lom/matrix_update_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index dc9a57b..c076b7b 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -49,7 +49,7 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
     # determine order of child dimensions such that first
     # child dimension and mat dimension are aligned.
 
-    if mod is not None:
+    if mod is not None and mat in mat.layer.factors:
         transpose_order = tuple(
             [mat.child_axis] +
             [s.child_axis for s in mat.siblings])
@@ -97,6 +97,9 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
                 q.layer.lbda(),
                 q.layer.gamma)
 
+        if mat is mat.layer.q:
+            return q_sampler
+
         mat.layer.q.sampling_fct = q_sampler
 
         if mat.child_axis == 0:
-- 
2.43.0


From 91b8eab95fd0330413edaf46d704ae65475ee467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 33/57] fix: update of the second OR-AND-IBP factor after the
 number of columns changed

---
 lom/matrix_update_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index c076b7b..bd7cce2 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -152,6 +152,10 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
                     mat.siblings[0].bernoulli_prior,
                     mat.layer.alpha)
 
+                # the number of columns changes between updates
+                for factor in mat.layer.factors:
+                    factor.fixed_entries = np.zeros(factor().shape, dtype=np.int8)
+
             return IBP_sampler
 
         # For U, sample as usual
-- 
2.43.0


From dfe82fa1c626832c26aa7db928b138b3f95531e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 34/57] fix: grow traces with the number of OR-AND-IBP columns

---
 lom/machine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 917321e..7e07f92 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -124,6 +124,12 @@ class Trace():
                                  dtype=self().dtype, fill_value=-1)
 
     def update_trace_IBP(self):
+        # add columns to all samples if there are more than ever before
+        no_new = self.val.shape[1] - self.trace.shape[2]
+        if no_new > 0:
+            self.trace = np.pad(self.trace, [(0, 0), (0, 0), (0, no_new)],
+                                mode='constant', constant_values=-1)
+
         self.trace[self.trace_index,
                    :self.val.shape[0],
                    :self.val.shape[1]] = self.val
-- 
2.43.0


From 2ba81af34a0ed23709d555feda1cb66fa225cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 35/57] fix: prior on the number of new OR-AND-IBP columns

---
 lom/_numba/matrix_updates_numba.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 8880e8d..a52e5c2 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -451,9 +451,9 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
 
         lik_L_new = [TN * TN_factor[L_temp] + FN * FN_factor[L_temp]
                      for L_temp in range(L_new_max)]
-        # L_new or L+L_new ??!
-        prior_L_new = [(L_temp + L) * np.log(alpha / N) - (alpha / N) -
-                       gammaln(L + L_temp + 1)
+        # every customer tries Poisson(alpha / N) new dishes
+        prior_L_new = [L_temp * np.log(alpha / N) - (alpha / N) -
+                       gammaln(L_temp + 1)
                        for L_temp in range(L_new_max)]
         log_L_new = [loglik + logprior
                      for loglik, logprior in zip(lik_L_new, prior_L_new)]
-- 
2.43.0


From 94915f761284705f1731bd21348dbe6f26bf6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 36/57] fix: OR-AND-IBP respects the prior of the second factor
 when adding columns

---
 lom/_numba/matrix_updates_numba.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index a52e5c2..2c9b919 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -402,10 +402,11 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     # these are loglikelihood contributions of false negative/true negative
     # data points for a range of L'
 
-    # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    # For simple Bernoulli on U, where all new entries are off with p_off**L'
+    p_off = 1 - q
+    FN_factor = [np.log((expit(lbda) * (1 - 2 * (p_off**L_temp))) + (p_off**L_temp))
                  for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (p_off**L_temp))) + (p_off**L_temp))
                  for L_temp in range(L_new_max)]
 
     for n in range(N):
@@ -476,7 +477,7 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
                 for d in range(D):
                     logit_score = lbda * posterior_score_fct(
                         U[d, :], Z, X[:, d], l)
-                    U[d, l] = flip_gibbs_numba(expit(logit_score))
+                    U[d, l] = flip_gibbs_numba(expit(logit_score + logit(q)))
 
         L += L_new
 
-- 
2.43.0


From c6a219980b8be3295612d07661b5d037f3705df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 37/57] fix: reject qL-AND and OR-AND-IBP factors with parents
 instead of ignoring the parents

---
 lom/matrix_update_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index bd7cce2..6ab2c0a 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -87,6 +87,8 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
         return MAX_AND_2D
 
     elif mod == 'qL_AND_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         def q_sampler(q):
             numba_mu.sample_qL_q(
@@ -131,6 +133,8 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
     # assign sampling functions for IBP.
     # Here all updates happen in sampling for the first factor.
     elif mod == 'OR_AND_IBP_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         if mat.layer.alpha is None:
             print('Setting IBP parameter alpha to 3.')
-- 
2.43.0


From 166c938824c518531bb108e28b4373bcda634225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 38/57] fix: normalise qL-AND threshold probabilities per
 feature

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 2c9b919..68c2851 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -558,7 +558,7 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-        log_p_max = np.max(logconditional)
+        log_p_max = np.max(logconditional[:, d])
         for q_new in prange(q_max - 1):
             logconditional[q_new, d] = np.exp(logconditional[q_new, d] - log_p_max)
 
-- 
2.43.0


From 643aad686a5abd16be2fb4770d2c4723eb5f427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 39/57] fix: noisy emission of qL-AND layers

---
 lom/machine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 7e07f92..9a338ac 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -461,10 +461,11 @@ class MachineLayer():
                 out /= self.no_samples
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
-            # convert to probability of generating a 1
-            if noisy_emission is True:
-                out = out * aux.expit(self.lbda.mean()) +\
-                    (1 - out) * aux.expit(-self.lbda.mean())
+        # convert to probability of generating a 1
+        # (the output of MAX-AND already is the emission probability)
+        if noisy_emission is True and self.model != 'MAX-AND':
+            out = out * aux.expit(self.lbda.mean()) +\
+                (1 - out) * aux.expit(-self.lbda.mean())
 
         self.prediction = out
 
-- 
2.43.0


From 32152523a4b5164f673e6d50e1ffb5b0b569ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 40/57] fix: MAX-AND layers with more than 127 latent
 dimensions

---
 lom/_numba/max_machine_sampler.py | 2 +-
 lom/matrix_update_wrappers.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index e2787c8..aad9225 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -22,7 +22,7 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('int32(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])', 
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 6ab2c0a..e6d986f 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -74,7 +74,7 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
         def MAX_AND_2D(mat):
             # lbda may have been set or resized since its last update
             compute_lbda_ratios(mat.layer)
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.argsort(-mat.layer.lbda()[:-1])
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From 5de3463296145853313ba6d52398ed1ec0a4d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 41/57] fix: factor density where the solver does not converge

---
 lom/auxiliary_functions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 46c3955..5b8f2c9 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1102,6 +1102,7 @@ def factor_density(machine, L, K, X):
     X is the desired expected data density
     returns the corresponding factor density
     """
+    from scipy.optimize import brentq
     from scipy.optimize import fsolve
     from scipy.optimize import least_squares
 
@@ -1114,7 +1115,7 @@ def factor_density(machine, L, K, X):
             return expected_density(machine, L, K, f=f_d) - X
 
     # Plot it
-    tau = np.linspace(0, 1, 201)
+    tau = np.linspace(0, 1, 2001)
 
     # Use the numerical solver to find the roots
     best = 1e10
@@ -1126,6 +1127,14 @@ def factor_density(machine, L, K, X):
             best = np.abs(func(tau_solution)[0])
             best_solution = tau_solution
 
+    # the solver can get stuck, look for a change of sign instead
+    if best > 1e-6:
+        error = np.array([func(t) for t in tau])
+        sign_changes = np.nonzero(error[:-1] * error[1:] <= 0)[0]
+        if len(sign_changes) > 0:
+            i = sign_changes[0]
+            best_solution = np.array([brentq(func, tau[i], tau[i + 1], xtol=1e-14)])
+
     print("The solution is tau = " + str(best_solution))
     print("at which the value of the expression is " +
           str(func(best_solution) + X))
-- 
2.43.0


From 8cf4a6554ef577fa1af772e71094c05efd13f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 42/57] fix: use held-out entries for labels and scores of the
 ROC curve

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 5b8f2c9..89b7240 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -291,7 +291,7 @@ def get_roc_auc(data, data_train, prediction):
     """
 
     zero_idx = np.where(data_train == 0)
-    zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
+    zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
     auc = sklearn.metrics.roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
 
-- 
2.43.0


From d70d729c4ed18d2de0ecdf8bb6bfc24d43acd7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 43/57] fix: report the shape of intersected data frames

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 89b7240..7567f0c 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -622,7 +622,7 @@ def intersect_dataframes(A, B):
     assert np.all(A.index == B.index)
     assert np.all(A.columns == B.columns)
 
-    print('\n\tNew shape is :' + str(mut.shape))
+    print('\n\tNew shape is :' + str(A.shape))
 
     return A, B
 
-- 
2.43.0


From efe2212567f758f6ba5e1ed702284f8f522bb2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 44/57] fix: centers of plain lists of labels

---
 lom/auxiliary_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 7567f0c..afb7e0e 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1242,8 +1242,7 @@ def find_centers_of_ordered_list(ls):
     ls must be ordered!
     """
 
-    import pandas
-    uniqs = pandas.unique(ls)
+    uniqs = unique_ordered(ls)
     positions = []
     for u in uniqs:
         idxs = []  # list of indices of corresponding values
-- 
2.43.0


From 7a6d689a215a9e4450800ba5505a28779cb8a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 45/57] fix: length of padded binomial log-odds

---
 lom/auxiliary_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index afb7e0e..672eb7e 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -68,11 +68,11 @@ def compute_bp(q, n, N, tau=1):
 
     exp_bp = [(q * (n - k * tau)) / ((1 - q) * (k * tau + 1)) for k in range(n)]
 
-    bp = [np.log(x) if (x > 0) else -np.infty for x in exp_bp]
+    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]
 
     if N != n:
-        bp_new = [-np.infty for i in range(N)]
-        bp_new[:n - 1] = bp
+        bp_new = [-np.inf for i in range(N)]
+        bp_new[:n] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
 
-- 
2.43.0


From d7147c050eed306fde7e4b31ac8b9503106f36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 46/57] fix: infinite beta-binomial log-odds

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 672eb7e..dbff28e 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -84,7 +84,7 @@ def compute_bbp(n, a, b):
     """
     exp_bbp = [(float((n - k) * (k + a)) /
                 float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
-    bbp = [np.log(x) if (x > 0) else -np.infty for x in exp_bbp]
+    bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
 
-- 
2.43.0


From 55c43e41707eb94a15d2e892900a1050efa11107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 47/57] fix: read factors written by dbtf

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 6790bf9..853d3a2 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -79,7 +79,7 @@ def dbtf_reconstruct(X, L, hyperparms=[3, .3, 25], compute_output=True):
 
     # load results
     factors_dbtf_sparse = [np.loadtxt('./output/sample_factor' + str(i) + '_sparse.txt',
-                                      delimiter=',', dtype=np.int) for i in range(1, 4)]
+                                      delimiter=',', dtype=int, ndmin=2) for i in range(1, 4)]
 
     # convert results to dense arrays
     f_dbtf = []
-- 
2.43.0


From dcea8d599519b5f52dd2fadbf6e6b5990164386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 48/57] fix: burn_in_iters counts the minimal burn-in also
 without convergence

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 9a338ac..53519ca 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -688,7 +688,7 @@ class Machine():
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-                self.burn_in_iters = burn_in_iter
+                self.burn_in_iters = burn_in_iter + pre_burn_in_iter
                 break
 
             # draw samples # shuffle(mats)
-- 
2.43.0


From 32097806e793f5c844fadb05355f398bbf8c5a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 49/57] fix: show posterior probabilities and modes of a matrix

---
 lom/machine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 53519ca..3af0c44 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -260,11 +260,11 @@ class MachineMatrix(Trace):
 
     def show(self, technique='mean'):
         if technique == 'mean':
-            aux.plot_matrix(self.mean())
+            aux.plot_matrix(.5 * (self.mean() + 1))
         elif technique == 'map':
-            aux.plot_matrix(self.mean() > .5)
+            aux.plot_matrix(self.mean() > 0)
         elif technique == 'state':
-            aux.plot_matrix(self())
+            aux.plot_matrix(.5 * (self() + 1))
         else:
             raise ValueError('invalid technique')
 
-- 
2.43.0


From d7952d2ba7c96311797acf43d0d46444d23714bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 50/57] fix: anneal lambda that is zero

---
 lom/machine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 3af0c44..bf9c2f8 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -617,10 +617,9 @@ class Machine():
                         raise ValueError('fix_lbda_iters should be zero for annealing.')
                     # pre-compute annealing steps
                     if pre_burn_in_iter == fix_lbda_iters + 1:
-                        annealing_lbdas = [np.arange(
-                            lbda() / burn_in_min,
-                            lbda() + 2 * lbda() / burn_in_min,
-                            lbda() / burn_in_min)
+                        annealing_lbdas = [[
+                            lbda() * step / burn_in_min
+                            for step in range(1, burn_in_min + 1)]
                             for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-- 
2.43.0


From 06152a237fc3117c85743f70f0c60c2a180a4e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 51/57] fix: qL-AND thresholds stay within their range

---
 lom/_numba/matrix_updates_numba.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 68c2851..5df698a 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -522,7 +522,7 @@ def random_choice(p):
         acc += p[i]
         if rand_float < acc:
             return np.int8(i + 1)
-    return len(p) + 1
+    return np.int8(len(p))  # probabilities are subject to rounding
 
 
 # @jit('int8(int8[:], int8[:,:], int8[:], float64, float64, float64, int8)',
@@ -534,8 +534,8 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
     N, D = X.shape
     q_max = 6
-    p_lbda = np.log(1 + np.exp(lbda))
-    m_lbda = np.log(1 + np.exp(-lbda))
+    p_lbda = np.logaddexp(0, lbda)
+    m_lbda = np.logaddexp(0, -lbda)
 
     logconditional = np.zeros((q_max - 1, D), dtype=np.float64)
 
-- 
2.43.0


From e1c36fd136a42eb38bb136ee05d01b719a285d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 52/57] fix: do not start a debugger for unsupported matrices

---
 lom/matrix_update_wrappers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index e6d986f..ab53117 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -266,8 +266,6 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
             return LOM_sampler_hasparents
 
         else:
-            import pdb
-            pdb.set_trace()
             raise NotImplementedError("More than one parent not supported.")
 
 
-- 
2.43.0


From 08b18f2a176c78ab3da22dfe1f69b748d19e1d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 53/57] fix: adjust parent layers when a latent dimension is
 removed

---
 lom/auxiliary_functions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index dbff28e..d01778a 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -157,12 +157,28 @@ def remove_dimension(l_prime, layer):
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
         f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+        remove_parents_entries(f, l_prime, axis=1)
 
     # one lambda per latent dimension and one for the clamped unit
     if layer.model == 'MAX-AND':
         layer.lbda.val = np.delete(layer.lbda.val, l_prime)
 
 
+def remove_parents_entries(mat, idx, axis):
+    """
+    Adjust the layers above, when entries of a matrix are removed.
+    """
+    for layer in mat.parents:
+        factor = layer.factors[axis]
+        factor.val = np.delete(factor.val, idx, axis=0)
+        factor.fixed_entries = np.delete(factor.fixed_entries, idx, axis=0)
+        remove_parents_entries(factor, idx, axis=0)
+
+        # one threshold per feature
+        if layer.model == 'qL-AND' and axis == 1:
+            layer.q.val = np.delete(layer.q.val, idx, axis=1)
+
+
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
         if not f.fixed:
-- 
2.43.0


From 44755efa0e78c4aba9cb6a241797096beacc4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 54/57] fix: number of new OR-AND-IBP columns for large lambda

---
 lom/_numba/matrix_updates_numba.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 5df698a..23baec2 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -404,9 +404,14 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
 
     # For simple Bernoulli on U, where all new entries are off with p_off**L'
     p_off = 1 - q
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * (p_off**L_temp))) + (p_off**L_temp))
+    log_p_off = [np.log(p_off**L_temp) for L_temp in range(L_new_max)]
+    log_p_on = [np.log(1 - p_off**L_temp) for L_temp in range(L_new_max)]
+    log_correct, log_wrong = -np.logaddexp(0, -lbda), -np.logaddexp(0, lbda)
+    FN_factor = [np.logaddexp(log_p_on[L_temp] + log_correct,
+                              log_p_off[L_temp] + log_wrong)
                  for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (p_off**L_temp))) + (p_off**L_temp))
+    TN_factor = [np.logaddexp(log_p_on[L_temp] + log_wrong,
+                              log_p_off[L_temp] + log_correct)
                  for L_temp in range(L_new_max)]
 
     for n in range(N):
-- 
2.43.0


From 2b9e37af24834b6860a78b434d1a904f92d07654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 55/57] fix: do not start a debugger for unknown models

---
 lom/auxiliary_functions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index d01778a..8dbe7b6 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -974,8 +974,6 @@ def canonise_model(model, child):
         pass
 
     else:
-        import pdb
-        pdb.set_trace()
         raise NotImplementedError("Model not implemented.")
 
     # print output and invert data if needed.
-- 
2.43.0


From 4c952c22ccd738b8f16e4db6abe638d3a9d9ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 56/57] fix: qL-AND thresholds respect fixed entries

---
 lom/_numba/matrix_updates_numba.py | 7 +++++--
 lom/auxiliary_functions.py         | 1 +
 lom/matrix_update_wrappers.py      | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 23baec2..7fd984c 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -534,8 +534,8 @@ def random_choice(p):
 #      nopython=True, nogil=True)
 # def draw_q_d(X_d, Z, U_d, p_lbda, m_lbda, gamma, q_max):
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)', nopython=True, nogil=True)
-def sample_qL_q(Z, U, X, q, lbda, gamma):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)', nopython=True, nogil=True)
+def sample_qL_q(Z, U, X, q, q_fixed, lbda, gamma):
 
     N, D = X.shape
     q_max = 6
@@ -546,6 +546,9 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
     for d in prange(D):
 
+        if q_fixed[0, d] == 1:
+            continue
+
         no_observed = np.count_nonzero(X[:, d])
 
         for q_new in prange(q_max - 1):  # shift by one to have q values and indices agree
diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 8dbe7b6..11bb22b 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -177,6 +177,7 @@ def remove_parents_entries(mat, idx, axis):
         # one threshold per feature
         if layer.model == 'qL-AND' and axis == 1:
             layer.q.val = np.delete(layer.q.val, idx, axis=1)
+            layer.q.fixed_entries = np.delete(layer.q.fixed_entries, idx, axis=1)
 
 
 def reset_dimension(l_prime, layer):
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index ab53117..ebeeed8 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -96,6 +96,7 @@ def make_sampling_fct(mat, mod, p1mod, p2mod):
                 q.layer.factors[1](),
                 q.layer.child(),
                 q(),
+                q.fixed_entries,
                 q.layer.lbda(),
                 q.layer.gamma)
 
-- 
2.43.0


From 86cf5cd66e0d566c4592a3d569bfd6bd26dd36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 57/57] fix: noise on tensors in [-1,1] mapping

---
 lom/auxiliary_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 11bb22b..e517f71 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -556,7 +556,10 @@ def add_bernoulli_noise(X, p):
         for d in range(X.shape[1]):
             for m in range(X.shape[2]):
                 if np.random.rand() < p:
-                    X_intern[n, d, m] = ~X_intern[n, d, m]
+                    if X.dtype == bool:
+                        X_intern[n, d, m] = ~X_intern[n, d, m]
+                    else:  # [-1,1] mapping, 0 is missing
+                        X_intern[n, d, m] = -X_intern[n, d, m]
 
     return X_intern
 
-- 
2.43.0

