From 36478679ce88fb02920073e9604a847424876c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:05 +0000
Subject: [PATCH 01/41] fix: recover the sign of rho for HMP-like HSMMs with an
 ar1 model

The weight was recovered as sqrt(1 - 1/d0^2) and so always positive, which made
the expected (whitened) signal disagree with the data for negative weights.
---
 src/mssm/src/python/hsmm.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..0539064 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -22,6 +22,20 @@ except ImportError:
     HAS_MP = False
 
 
+def _extract_rho(Lrhoi: scp.sparse.csc_array) -> float:
+    """Recovers the (signed) weight of an ar1 model from ``Lrhoi``.
+
+    :param Lrhoi: Inverse of transpose of Cholesky of banded covariance matrix of an ar model of the
+        residuals (see :func:`mssm.src.python.utils.computeAr1Chol`)
+    :type Lrhoi: scp.sparse.csc_array
+    :return: Weight of the ar1 model
+    :rtype: float
+    """
+    # Off-diagonal is zero wherever a new series starts, so find an entry within a series.
+    rho = -Lrhoi.diagonal(1) / Lrhoi.diagonal()[1:]
+    return rho[np.argmax(np.abs(rho))]
+
+
 def _split_matrices(
     ys: list[np.ndarray | None],
     Xs: list[scp.sparse.csc_array | None],
@@ -1382,7 +1396,7 @@ class HSMMFamily(GSMMFamily):
 
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -1912,7 +1926,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2154,7 +2168,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _extract_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2400,7 +2414,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _extract_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2757,7 +2771,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -3002,7 +3016,7 @@ class HSMMFamily(GSMMFamily):
         if Lrhoi is not None:
             d0 = Lrhoi.diagonal()
             llc = np.log(d0[d0 != 1]).sum()
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -4186,7 +4200,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
-- 
2.43.0


From ad6218a1c322368a88b5bdc85c72093dec6a4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:05 +0000
Subject: [PATCH 02/41] fix: log-likelihood correction for ar1 model of
 HMP-like HSMMs

The log-determinant of the whitening transformation has to be added (as done for
GAMMs), once per signal, rather than subtracted once.
---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 0539064..08a878b 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3088,8 +3088,8 @@ class HSMMFamily(GSMMFamily):
         if np.isnan(llk):
             llk = -np.inf
 
-        # Correct for potential ar1 model
-        llk -= llc
+        # Correct for potential ar1 model (log-determinant of whitening applied to every signal)
+        llk += M * llc
 
         return llk
 
-- 
2.43.0


From 6fd340ae252e455db59ddc52fd0d1cac6d145db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:28 +0000
Subject: [PATCH 03/41] fix: use time-varying durations in HSMM gradient of
 initial state model

The recursion for the coefficients of the initial state model always read the
duration probabilities of the first time-point.
---
 src/mssm/src/cpp/hsmm/llk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/llk.cpp b/src/mssm/src/cpp/hsmm/llk.cpp
index 4539235..418063f 100644
--- a/src/mssm/src/cpp/hsmm/llk.cpp
+++ b/src/mssm/src/cpp/hsmm/llk.cpp
@@ -1392,7 +1392,9 @@ py::array_t<
                         
                         // Only need deriv of (\sum_{i \in S/j} lam(t-1,1,i)*T(i,j)) * bs(t,j)*
                         // ds(d,j) - same as before:
-                        psi(t1,d,j,tci) += tpg*bs(t,j)*ds(d,(starts_with_first) ? j : j + n_S);
+                        psi(t1,d,j,tci) += tpg*bs(t,j)*((tvdtpi) ?
+                                           ds(d,(starts_with_first) ? j : j + n_S,t):
+                                           ds(d,(starts_with_first) ? j : j + n_S));
 
                         tci += 1;
                     }
-- 
2.43.0


From 5b9be5acf5cdd1329cb3158a86483a60196be598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:04 +0000
Subject: [PATCH 04/41] fix: recompute PropHaz predictions when coefficients or
 data change

---
 src/mssm/src/python/exp_fam.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..3ee919e 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4016,6 +4016,7 @@ class PropHaz(GSMMFamily):
         self.__hs = None
         self.__qs = None
         self.__avs = None
+        self.__pred_args = None
 
         # Create index vectors ri for ut and r
         idx = np.arange(len(self.r), dtype=np.int64)
@@ -4263,6 +4264,19 @@ class PropHaz(GSMMFamily):
             :func:`mssm.models.GAMMLSS.get_mmat`.
         :type Xs: [scp.sparse.csc_array]
         """
+        # Previous results remain valid only for the arguments they were computed for
+        if self.__pred_args is not None:
+            p_coef, p_delta, p_X = self.__pred_args
+            if (
+                np.array_equal(p_coef, coef)
+                and np.array_equal(p_delta, delta)
+                and (
+                    p_X is Xs[0]
+                    or (p_X.shape == Xs[0].shape and (p_X != Xs[0]).nnz == 0)
+                )
+            ):
+                return
+
         # Extract and define all variables defined by WPS (2016)
         ut = self.ut
         nt = len(ut)
@@ -4325,6 +4339,7 @@ class PropHaz(GSMMFamily):
         self.__hs = hs
         self.__qs = qs
         self.__avs = avs
+        self.__pred_args = (np.copy(coef), np.copy(delta), X)
 
     def get_baseline_hazard(
         self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
@@ -4390,8 +4405,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
 
@@ -4528,8 +4542,7 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
 
         # Extract and define all variables defined by WPS (2016)
         ut = self.ut
-- 
2.43.0


From 83044f05e8715227b0b12c7feb90989eb5be94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:04 +0000
Subject: [PATCH 05/41] fix: evaluate PropHaz survival function at last event
 time not after t

---
 src/mssm/src/python/exp_fam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 3ee919e..8e9a12e 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4549,9 +4549,12 @@ class PropHaz(GSMMFamily):
         eta = x @ coef
         # print(eta)
 
-        # Find nearest larger time-point
-        if t not in ut:
-            t = min(ut[ut > t])
+        # Cumulative hazard is a step function: find last event time not after t
+        past = ut[ut <= t]
+        if len(past) == 0:
+            S = np.ones((x.shape[0], 1))
+            return S, np.zeros_like(S) if compute_var else None
+        t = max(past)
 
         # Find index in h corresponding to t
         ti = ut == t
-- 
2.43.0


From 68be41deb2a44f5450901c5bd9db058fa5cd492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 06/41] fix: second derivative of MultiGauss log-likelihood for
 off-diagonal theta

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 8e9a12e..14600da 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4990,7 +4990,7 @@ class MultiGauss(GSMMFamily):
                     d2 = np.sum(xbarjmui * RiRpRRiymui)
                 else:
                     d2 = (ymu @ Rpj.T) * (ymu @ Rpi.T)
-                    if (mr == theta_idx[0]) and (mc == theta_idx[1]):
+                    if is_diag and (mr == theta_idx[0]) and (mc == theta_idx[1]):
                         d2 += (ymu @ R.T) * (ymu @ Rpj.T)
                     d2 = -np.sum(d2)
 
-- 
2.43.0


From 897c3b3d58f1598836cb313a308022d390910685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:57 +0000
Subject: [PATCH 07/41] fix: account for link functions in MultiGauss gradient
 and Hessian

---
 src/mssm/src/python/exp_fam.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 14600da..c331122 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4836,7 +4836,7 @@ class MultiGauss(GSMMFamily):
         # shown by WPS (2016)
         for mui in range(self.n_par):
 
-            yRmui = RRy[mui, :]
+            yRmui = RRy[mui, :] / self.links[mui].dy1(mus[:, mui])
 
             grad[total_idx : total_idx + Xfix[mui].shape[1]] = (  # noqa: E203
                 Xfix[mui] * yRmui[:, None]
@@ -4932,6 +4932,11 @@ class MultiGauss(GSMMFamily):
         # RR is of shape m * m
         RR = R.T @ R
 
+        # Partial derivatives of means with respect to linear predictors
+        dmus = np.zeros(mus.shape)
+        for mui in range(self.n_par):
+            dmus[:, mui] = 1 / self.links[mui].dy1(mus[:, mui])
+
         # Compute column j of the hessian
         Hj = []
 
@@ -4948,7 +4953,7 @@ class MultiGauss(GSMMFamily):
             coef_j_idx = j if parj_idx == 0 else j - par_n_coef[parj_idx - 1]
             xbarj = scp.sparse.csc_array(
                 (
-                    Xfix[parj_idx][:, coef_j_idx].toarray(),
+                    Xfix[parj_idx][:, coef_j_idx].toarray() * dmus[:, parj_idx],
                     (np.tile(parj_idx, n_obs), np.arange(n_obs)),
                 ),
                 shape=(self.n_par, n_obs),
@@ -4968,10 +4973,14 @@ class MultiGauss(GSMMFamily):
         # Now iterate over means
         for mui in range(self.n_par):
             if is_coef:
-                RRxbarjmui = RRxbarj[mui, :]
+                RRxbarjmui = RRxbarj[mui, :] * dmus[:, mui]
+                if mui == parj_idx:
+                    # Adjust for curvature of the inverse link
+                    d2mu = -self.links[mui].dy2(mus[:, mui]) * dmus[:, mui] ** 2
+                    RRxbarjmui -= xbarj[mui, :].toarray() * d2mu * (RR @ ymu.T)[mui, :]
                 d2 = -np.sum(Xfix[mui] * RRxbarjmui[:, None], axis=0)
             else:
-                RJRpRRJymui = RJRpRRJy[mui, :]
+                RJRpRRJymui = RJRpRRJy[mui, :] * dmus[:, mui]
                 d2 = (Xfix[mui] * RJRpRRJymui[:, None]).sum(axis=0)
             Hj.extend(d2)
 
-- 
2.43.0


From ee9b6228d566c657e00b07c5454c6cdc79586468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:58 +0000
Subject: [PATCH 08/41] fix: place generalized inverse of penalty blocks at
 their own start index

---
 src/mssm/src/python/gamm_solvers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..4c7ca49 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -273,7 +273,6 @@ def compute_S_emb_pinv_det(
     S_pinv_elements = []
     S_pinv_rows = []
     S_pinv_cols = []
-    cIndexPinv = SJ_idx[0]
 
     # Optionally compute root of S_\\lambda
     S_root_singles = None
@@ -296,7 +295,6 @@ def compute_S_emb_pinv_det(
 
             # No overlap between penalties so we can just leave this block in the
             # pseudo-inverse empty.
-            cIndexPinv += SJs[SJi].shape[1] * SJ_reps[SJi]
             FS_use_rank.append(True)
 
         else:
@@ -356,6 +354,7 @@ def compute_S_emb_pinv_det(
             SJ_pinv_cols = np.array(SJ_pinv_cols)
 
             SJ_pinv_shape = SJs[SJi].shape[1]
+            cIndexPinv = SJ_idx[SJi]  # Blocks might be separated by unpenalized coef
             for _ in range(SJ_reps[SJi]):
                 S_pinv_elements.extend(SJ_pinv_elements)
                 S_pinv_rows.extend(SJ_pinv_rows + cIndexPinv)
-- 
2.43.0


From d364df23f479aa4980d51edece29d7ab4b37c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:58 +0000
Subject: [PATCH 09/41] fix: detect start of series with missing first
 observation in ar1 model

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..c909dad 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -78,7 +78,9 @@ def computeAr1Chol(formula: Formula, rho: float) -> tuple[scp.sparse.csc_array,
     if formula.series_id is not None:
         start = np.tile(False, len(formula.y_flat))
         start[formula.sid] = True
-        start = start[formula.NOT_NA_flat]
+        # First observation of a series might be NA, so check where remaining series change
+        series = np.cumsum(start)[formula.NOT_NA_flat]
+        start = np.append(True, series[1:] != series[:-1])
         sid0 = np.where(start)[0]
         sid1 = sid0[1:] - 1
 
-- 
2.43.0


From c552db4ae35c9adf19d051ea10475dc2008919ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:58 +0000
Subject: [PATCH 10/41] fix: evaluate link derivative at the mean in
 GAMLSSGSMMFamily gradient

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index c909dad..5f1d599 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -340,7 +340,7 @@ class GAMLSSGSMMFamily(GSMMFamily):
                 mu = gammlss_family.link.fi(Xs[0] @ coef[:-n_theta])
                 theta = coef[-n_theta:]
                 d1 = gammlss_family.dDdmu(y, mu, theta=theta)
-                ld1 = gammlss_family.link.dy1(d1)
+                ld1 = gammlss_family.link.dy1(mu)
                 grad_coef = -0.5 * ((d1 / ld1).T @ Xs[0]).T
                 grad_theta = gammlss_family.gradientLTheta(y, mu, theta=theta)
                 grad = np.concatenate((grad_coef, grad_theta), axis=0)
-- 
2.43.0


From ebe60efb6175f56044566be8103f4d9e878e8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:40 +0000
Subject: [PATCH 11/41] fix: shape of GAMMLSS Hessian if last model matrix
 column holds only zeros

---
 src/mssm/src/python/gamm_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 4c7ca49..c421d6a 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4458,7 +4458,9 @@ def deriv_transform_eta_beta(
             hc_idx += Xs[etaj].shape[1]
         hr_idx += Xs[etai].shape[1]
 
-    hessian = scp.sparse.csc_array((h_vals, (h_rows, h_cols)))
+    hessian = scp.sparse.csc_array(
+        (h_vals, (h_rows, h_cols)), shape=(len(grad), len(grad))
+    )
     return np.array(grad).reshape(-1, 1), hessian
 
 
-- 
2.43.0


From d9105fdb46168d49448136f310f5a39328024336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:50 +0000
Subject: [PATCH 12/41] fix: evaluate time-varying durations at entry time in
 posterior state sampling

---
 src/mssm/src/cpp/hsmm/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..a084faf 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -525,7 +525,7 @@ std::tuple<
                     state_probs[i] = lam(t-1,0,i) *
                                         ((tvdtpi) ? T(i,tmp_j,t-1): T(i,tmp_j)) *
                                         ((tvdtpi) ?
-                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t-1)
+                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t)
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
-- 
2.43.0


From 09bfffd9a6f846743cb9a39ef35707c3afd052fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:33 +0000
Subject: [PATCH 13/41] fix: weigh posterior state sampling by the densities of
 an ar1 model

---
 src/mssm/src/cpp/hsmm/decode.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index a084faf..2d8bdac 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -514,6 +514,21 @@ std::tuple<
                     if ((tmp_ed + 1) <= (D - 2))
                     {
                         state_probs[i] = lam(t-1,tmp_ed+1,i);
+
+                        // With an ar1 model the density of the observation at t differs between
+                        // continuing and entering tmp_j, so it does not cancel
+                        if (hmp_code != 0)
+                        {
+                            if (tmp_j % 2 == 1)
+                            {
+                                state_probs[i] *= (tmp_ed < (int) event_width) ?
+                                                    bs(t,(event_width-1) - tmp_ed,tmp_j) : 0.0;
+                            }
+                            else
+                            {
+                                state_probs[i] *= bs(t,0,tmp_j);
+                            }
+                        }
                     }
                     else
                     {
@@ -529,6 +544,10 @@ std::tuple<
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
+                    if (hmp_code != 0)
+                    {
+                        state_probs[i] *= bs(t,(tmp_j % 2 == 0) ? 1 : 0,tmp_j);
+                    }
                 }
             }
             
-- 
2.43.0


From 85bedd525b4d1ea4ed26a961b0b0cec314decd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:32 +0000
Subject: [PATCH 14/41] fix: use mean of each signal after transitions in
 predictive residuals of hsmm

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 162576c..3e15e2e 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -502,7 +502,7 @@ py::array_t<
                         {   
                             // Expected value for signal m
 
-                            elam(t,m,d,j) += tp * mus(t,j) *
+                            elam(t,m,d,j) += tp * mus(t,m,j) *
                                             ((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t):
                                                         ds(d,(starts_with_first) ? j : j + n_S));
 
-- 
2.43.0


From 19a3aa6b9b50d9e4ce19a18583576b23f819aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:32 +0000
Subject: [PATCH 15/41] fix: out of bounds read for first state in predictive
 residuals of ar1 model

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 3e15e2e..722777b 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -476,7 +476,7 @@ py::array_t<
                                                  ds(d,(starts_with_first) ? j : j + n_S,t):
                                                  ds(d,(starts_with_first) ? j : j + n_S));
                             }
-                            else if (rho < 999)
+                            else if (rho < 999 && j > 0)
                             {
                                 // Lag of previous bump carries over
                                 ebump = d1 * weights(event_width-1) * mus(t-1,m,j-1);
-- 
2.43.0


From afe38752d74f7bf6afa07fcd6fd29e7b0467226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 16/41] fix: decode each series with its own transition matrix
 for duration residuals of hsmm

---
 src/mssm/src/python/hsmm.py | 47 +++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 08a878b..9b9d633 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -2667,19 +2667,8 @@ class HSMMFamily(GSMMFamily):
 
             elif resid_type == "viterbi_dur":
 
-                # Decode viterbi path
-                viterbi = self.decode_viterbi(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
-
                 res_sep = _compute_dur_res_series(
-                    viterbi[0][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
+                    decoded[series][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
                 )
 
                 # Compute residual of duration MAP under model for stage durations
@@ -2695,25 +2684,13 @@ class HSMMFamily(GSMMFamily):
                 res = res.reshape(1, -1)
 
             elif resid_type == "posterior_dur":
-                state_samples = self.sample_posterior_states(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    n_samples=n_samples,
-                    seed=seed,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
-
                 res = np.zeros((1, n_S, n_samples))
 
                 for s in range(n_samples):
 
                     # Extract durations given sampled series
                     res_sep = _compute_dur_res_series(
-                        state_samples[0][1][:, s],
+                        decoded[series][1][:, s],
                         n_S,
                         mus_d,
                         d_fams,
@@ -2773,6 +2750,26 @@ class HSMMFamily(GSMMFamily):
         if Lrhoi is not None:
             rho = _extract_rho(Lrhoi)
 
+        # Decode states of all series if durations are of interest. Has to happen before splitting so
+        # that every series is decoded based on its own transition matrix and whitened once only
+        decoded = None
+        if resid_type == "viterbi_dur":
+            decoded = self.decode_viterbi(
+                coef, coef_split_idx, ys, Xs, sid=sid, tid=tid, n_cores=1
+            )
+        elif resid_type == "posterior_dur":
+            decoded = self.sample_posterior_states(
+                coef,
+                coef_split_idx,
+                ys,
+                Xs,
+                n_samples=n_samples,
+                seed=seed,
+                sid=sid,
+                tid=tid,
+                n_cores=1,
+            )
+
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
             ys,
-- 
2.43.0


From b2790e02889f6c4edcc2d6f8b6cd277243c123ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 17/41] fix: duration residuals of hsmm use duration model of
 the entry time and of the first state

---
 src/mssm/src/python/hsmm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 9b9d633..c05d6f3 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1054,6 +1054,7 @@ def _compute_dur_res_series(
     j = states[0]
     transitions = 0
     t = 0
+    t_start = 0  # Time-point at which current state was entered
 
     for s in states:
         if s == j:
@@ -1068,24 +1069,25 @@ def _compute_dur_res_series(
             else:
                 d_res = d_fams[(dj_idx)].get_resid(
                     np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-                )[t if tvdtpi else 0, 0]
+                )[t_start if tvdtpi else 0, 0]
 
                 # And collect
                 res[j].append(d_res)
             j = s
             d = 1
+            t_start = t
             transitions += 1
         t += 1
 
     # Catch dur from last state
-    dj_idx = j if (starts_with_first is True) else j + n_S
+    dj_idx = j if (transitions == 0 or starts_with_first is True) else j + n_S
 
     if mus_d[dj_idx] is None:
         res[j] = None
     else:
         d_res = d_fams[(dj_idx)].get_resid(
             np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-        )[t - 1 if tvdtpi else 0, 0]
+        )[t_start if tvdtpi else 0, 0]
 
         res[j].append(d_res)
 
-- 
2.43.0


From 20ad643d38b5b6b060f261983fdd537cc635427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 18/41] fix: root of weighted identity penalty

---
 src/mssm/src/python/penalties.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index d0ee801..6d7c2b5 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -633,15 +633,18 @@ class IdentityPenalty(Penalty):
                 elements[i] = f(i + 1)
             idx[i] = i
 
+        # I' @ I = I; otherwise need square root of diagonal elements for root
+        root = elements if f is None else [np.sqrt(e) for e in elements]
+
         return (
             elements,
             idx,
             idx,
-            elements,
+            root,
             idx,
             idx,
             n,
-        )  # I' @ I = I; also identity is full rank
+        )  # Identity is full rank
 
 
 def TP_pen(
-- 
2.43.0


From 9a9bc1f0e7e0c509a51a904a5d4e649f02dc0383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 19/41] fix: rank of constrained difference penalty of order
 zero

---
 src/mssm/src/python/penalties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 6d7c2b5..3ff1a02 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -557,6 +557,9 @@ class DifferencePenalty(Penalty):
                 S = D @ D.T
 
             if m == 0:
+                # Constraint removes one dimension from full rank penalty
+                rank -= 1
+
                 # Re-compute root
                 eig, U = scp.linalg.eigh(S)
                 D = U @ np.diag(
-- 
2.43.0


From 36f52bfc5f3af026b8fb489fa68cf434e080eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 20/41] fix: do not duplicate penalty with unique id when
 merging shared penalties

---
 src/mssm/src/python/penalties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 3ff1a02..ffcdae6 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -72,6 +72,9 @@ def combine_shared_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue
+
             m_pens = [pen for pen in penalties if pen.id == id]
             S_J_emb = m_pens[0].S_J_emb
             D_J_emb = m_pens[0].D_J_emb
-- 
2.43.0


From cdbe640356283f4d182bb396038728750696b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:49 +0000
Subject: [PATCH 21/41] fix: columns of model matrix for smooth terms with
 dropped coefficients

---
 src/mssm/src/python/terms.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index cabc121..71f37da 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -1299,6 +1299,15 @@ class f(GammTerm):
         m_rows, m_cols = matrix_term.shape
         # print(m_cols)
 
+        # Columns of matrix_term (per by level) that are kept
+        keep_cols = [
+            m_coli
+            for m_coli in range(
+                m_cols * (1 if self.by is None else len(factor_levels[self.by]))
+            )
+            if self.drop_coef is None or m_coli not in self.drop_coef
+        ]
+
         # Multiply each row of model matrix by value in by_cont
         if self.by_cont is not None:
             by_cont_cov = cov_flat[:, var_map[self.by_cont]]
@@ -1351,7 +1360,7 @@ class f(GammTerm):
         # Find basis elements > 0 and collect correspondings elements and row indices
         for m_coli in range(f_cols):
             final_ridx = term_ridx[m_coli]
-            final_col = matrix_term[final_ridx, m_coli % m_cols]
+            final_col = matrix_term[final_ridx, keep_cols[m_coli] % m_cols]
 
             # Tolerance row index for this columns
             cidx = abs(final_col) > tol
-- 
2.43.0


From 3cd1551c9891f5101619c17f507ee93dd95dc0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:49 +0000
Subject: [PATCH 22/41] fix: names of impulse response coefficients

---
 src/mssm/src/python/formula.py | 2 +-
 src/mssm/src/python/terms.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..678c395 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -824,7 +824,7 @@ class Formula:
             irsterm = terms[irsti]
 
             t_total_coef, t_unpenalized_coef, t_coef_names = irsterm.get_coef_info(
-                self.has_intercept, factor_levels
+                irsti, factor_levels
             )
 
             self.coef_names.extend(t_coef_names)
diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 71f37da..e68d6e3 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -2217,13 +2217,14 @@ class irf(GammTerm):
 
         if self.by is not None:
             by_levels = factor_levels[self.by]
-            n_coef *= len(by_levels)
 
             for by_level in by_levels:
                 coef_names.extend(
                     [f"irf_{ti}_{var_label}_{ink}_{by_level}" for ink in range(n_coef)]
                 )
 
+            n_coef *= len(by_levels)
+
         else:
             coef_names.extend([f"irf_{ti}_{var_label}_{ink}" for ink in range(n_coef)])
 
-- 
2.43.0


From 46fb2cd1ec5a23c53cea68f55dc50859769c3669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:49 +0000
Subject: [PATCH 23/41] fix: penalty start index after unpenalized impulse
 response terms

---
 src/mssm/src/python/formula.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 678c395..a9ac092 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2116,12 +2116,7 @@ def build_penalties(formula) -> list[LambdaTerm]:
         if not irsterm.is_penalized:
             if len(penalties) == 0:
 
-                added_not_penalized = n_coef
-                if irsterm.by is not None:
-                    added_not_penalized *= len(by_levels)
-                start_idx += added_not_penalized
-                cur_pen_idx = start_idx
-
+                # Unpenalized coefficients are already accounted for in start_idx
                 if formula.print_warn:
                     warnings.warn(
                         (
-- 
2.43.0


From 237f0bda1930899c5918988a1229e39fa312b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 24/41] fix: cpp_solve_LXX calls the solve_LXX routine that
 exists

The wrapper called eigen_solvers.cpp_solve_LXX, which the extension does not
export, so every call raised AttributeError.
---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..4bf6294 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -395,7 +395,7 @@ def cpp_solve_LXX(
         success
     :rtype: tuple[scp.sparse.csc_array,list[int],int]
     """
-    return eigen_solvers.cpp_solve_LXX(*map_csc_to_eigen(A))
+    return eigen_solvers.solve_LXX(*map_csc_to_eigen(A))
 
 
 def cpp_solve_tr(
-- 
2.43.0


From a37a36ae81c731b5c207090a982fde5461b78c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 25/41] fix: null penalties of later terms keep their columns
 in compute_B

The index range of the penalized columns ended at S_J.shape[1]*(rep_sj+1)
without the start index of the term, so that tr(V S_j) lost columns (down to
none at all) whenever enough coefficients precede the term.
---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4bf6294..945151c 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + lTerm.S_J.shape[1] * lTerm.rep_sj,
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From f3265814918fa91a19f697b4f64d44fec3a82cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 26/41] fix: do not take the root of the root weights twice at
 convergence

With excluded observations the final weight matrix was re-built from the
diagonal of Wr, the root of the weights, and rooted once more.
---
 src/mssm/src/python/gamm_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index c421d6a..24ca0f1 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3151,8 +3151,8 @@ def solve_gamm_sparse(
             w_full[inval == False] = Wr.diagonal()  # noqa: E712
             w = w_full
 
-            # Re-compute weight matrix
-            Wr = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+            # Re-compute weight matrix (Wr already holds the root of the weights)
+            Wr = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
 
             # Adjust working residuals
             wres_full = np.zeros_like(eta)
-- 
2.43.0


From e6bfcb80d604650fb080404fd5407f0a672235e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 27/41] fix: warn instead of raising None for ill-conditioned
 QR fits

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 24ca0f1..05fcd71 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3205,7 +3205,7 @@ def solve_gamm_sparse(
                 )
             )
         if method != "Chol" and Kcode == 2:
-            raise warnings.warn(
+            warnings.warn(
                 (
                     f"Condition number ({K2}) of matrix A, where A.T@A=X.T@X + S_\\lambda, is "
                     "larger than 1/u, where u is half the machine precision. The model estimates "
-- 
2.43.0


From 1b01bf1befa092ea1f9753995559ead2b0bc27fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:26 +0000
Subject: [PATCH 28/41] fix: working residuals and scale of generalized models
 with an offset

The pseudo-data z refer to the linear predictor without the offset, but the
working residuals were formed as z - eta with the offset still in eta, so that
residuals and the estimated scale were off by the offset.
---
 src/mssm/src/python/gamm_solvers.py | 9 ++++++++-
 src/mssm/src/python/utils.py        | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 05fcd71..4b4c0d5 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1093,6 +1093,7 @@ def update_scale_edf(
     keep: np.typing.NDArray[np.int_] | None,
     drop: np.typing.NDArray[np.int_] | None,
     n_c: int,
+    offset: float | np.ndarray = 0,
 ) -> tuple[
     np.ndarray,
     scp.sparse.csc_array | None,
@@ -1144,6 +1145,8 @@ def update_scale_edf(
     :type drop: np.typing.NDArray[np.int_] | None
     :param n_c: Number of cores to use
     :type n_c: int
+    :param offset: Offset (fixed effect) contained in ``eta`` but not in ``z``, defaults to 0
+    :type offset: float | np.ndarray, optional
     :return: a tuple containing the working residuals, optionally the unpivoted inverse of ``LP``,
         total edf, term-wise edf, a list of the aforementioned sum
         of the elements of the aforementioned B matrices raised to the power of 2, scale estimate
@@ -1161,6 +1164,8 @@ def update_scale_edf(
         isinstance(family, Gaussian) is False
         or isinstance(family.link, Identity) is False
     ):
+        # z is pseudo-data for the linear predictor without the offset
+        eta = eta - offset
         inval = np.isnan(z)
         dropped = np.sum(
             inval
@@ -1523,6 +1528,7 @@ def update_coef_and_scale(
         keep,
         drop,
         n_c,
+        offset,
     )
     return (
         eta,
@@ -2332,6 +2338,7 @@ def correct_lambda_step(
                 keep,
                 drop,
                 n_c,
+                offset,
             )
 
             # Unpivot Cholesky of negative penalized hessian - InvCholXXS has already been
@@ -3143,7 +3150,7 @@ def solve_gamm_sparse(
             Lrhoi is not None
         ):  # Need to return ar-corrected and "normal" working residuals
             wres2 = Wr @ (
-                z[inval == False] - eta[inval == False]  # noqa: E712
+                z[inval == False] - (eta - offset)[inval == False]  # noqa: E712
             ).reshape(-1, 1)
 
         if inval_check:
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 5f1d599..8837776 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1854,6 +1854,7 @@ def compute_reml_candidate_GAMM(
             keep,
             drop,
             n_c,
+            offset,
         )
         # print(edf-(InvCholXXS.T@InvCholXXS@nH).trace())
         # edf = (InvCholXXS.T@InvCholXXS@nH).trace()
@@ -4460,6 +4461,7 @@ def correct_VB(
                     keep,
                     drop,
                     n_c,
+                    model.offset,
                 )
 
                 # And negative hessian
-- 
2.43.0


From 28d788ec4561821d4e69a82a2e72d93ecefbc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:26 +0000
Subject: [PATCH 29/41] fix: REML candidates of additive models keep the offset
 in the predictor

The coefficients were computed for y - offset, but scale and log-likelihood
compared y with a linear predictor lacking the offset.
---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 8837776..60d4ac8 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1716,7 +1716,7 @@ def compute_reml_candidate_GAMM(
         if isinstance(family, Gaussian) and isinstance(family.link, Identity):
             # AMM - directly solve for coef
             eta, mu, coef, Pr, _, LP, keep, drop = update_coef(
-                y - offset, X, X, family, S_emb, S_root, n_c, None, 0
+                y - offset, X, X, family, S_emb, S_root, n_c, None, offset
             )
             nH = (X.T @ X).tocsc()
         else:
-- 
2.43.0


From d7216cf3c98f41c39a6edaccb1bcdda5191e8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:26 +0000
Subject: [PATCH 30/41] fix: do not take the root of the root weights twice in
 the lambda uncertainty code

Same as for the final weights of the GAMM solver: Wr holds root weights.
---
 src/mssm/src/python/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 60d4ac8..b505eca 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1818,8 +1818,8 @@ def compute_reml_candidate_GAMM(
                 w_full[inval == False] = Wr.diagonal()  # noqa: E712
                 w = w_full
 
-                # Re-compute weight matrix
-                Wr_fix = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+                # Re-compute weight matrix (Wr already holds the root of the weights)
+                Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
             else:
                 Wr_fix = Wr
             inval = inval.flatten()
@@ -4424,10 +4424,8 @@ def correct_VB(
                         w_full[inval == False] = Wr.diagonal()  # noqa: E712
                         w = w_full
 
-                        # Re-compute weight matrix
-                        Wr_fix = scp.sparse.spdiags(
-                            [np.sqrt(np.ndarray.flatten(w))], [0]
-                        )
+                        # Re-compute weight matrix (Wr already holds the root of the weights)
+                        Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
                     else:
                         Wr_fix = Wr
 
-- 
2.43.0


From 38f0321d019957fb9a3fcf51a63b00dc321cb332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:01 +0000
Subject: [PATCH 31/41] fix: linear predictor matches the coefficients for
 max_inner=2

With a single inner iteration the loop ended after proposing a further set of
coefficients: eta and mu were those of the discarded proposal, while the
earlier coefficients were returned.
---
 src/mssm/src/python/gamm_solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 4b4c0d5..d796223 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -2296,6 +2296,11 @@ def correct_lambda_step(
                 )
                 pen_dev = dev + n_coef2.T @ S_emb @ n_coef2
 
+            else:
+                # Last proposal (n_coef2) was not accepted, so eta and mu have to match n_coef
+                eta = (X @ n_coef).reshape(-1, 1) + offset
+                mu = family.link.fi(eta)
+
             # Now re-compute scale and Linv
             # Given new coefficients compute lgdetDs and bsbs - needed for REML gradient
             # and EFS step
-- 
2.43.0


From cc946987d9b0c8c26e220e773f231b3984dd0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:32 +0000
Subject: [PATCH 32/41] fix: coefficients of fits that stop before convergence
 match the rest of the fit

When the iteration limit was reached, linear predictor, scale, effective
degrees of freedom and covariance belonged to the last proposed coefficients
and smoothing parameters, but the coefficients of the step before were returned.
---
 src/mssm/src/python/gamm_solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index d796223..c4e0793 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3132,6 +3132,10 @@ def solve_gamm_sparse(
         # This completes step 8 in Wood (2017)!
         fit_info.iter += 1
 
+    else:
+        # Stopped before convergence: everything else belongs to the last proposed coefficients
+        coef = coef if n_coef is None else n_coef
+
     # Final penalty
     if len(penalties) > 0:
         penalty = coef.T @ S_emb @ coef
@@ -4208,6 +4212,10 @@ def solve_gamm_sparse2(
 
         fit_info.iter += 1
 
+    else:
+        # Stopped before convergence: everything else belongs to the last proposed coefficients
+        coef = coef if n_coef is None else n_coef
+
     # Final penalty
     if len(penalties) > 0:
         penalty = coef.T @ S_emb @ coef
-- 
2.43.0


From 6b5c847f29a4a41da65220b279706961387104ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:11 +0000
Subject: [PATCH 33/41] fix: report the format of sparse arrays in the type
 errors of the matrix interface

---
 src/mssm/src/python/matrix_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 945151c..d30556a 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -35,7 +35,7 @@ def map_csc_to_eigen(
 
     if X.format != "csc":
         raise TypeError(
-            f"Format of sparse matrix passed to c++ MUST be 'csc' but is {X.getformat()}"
+            f"Format of sparse matrix passed to c++ MUST be 'csc' but is {X.format}"
         )
 
     if X.has_sorted_indices is False:
@@ -70,7 +70,7 @@ def map_csr_to_eigen(
 
     if X.format != "csr":
         raise TypeError(
-            f"Format of sparse matrix passed to c++ MUST be 'csr' but is {X.getformat()}"
+            f"Format of sparse matrix passed to c++ MUST be 'csr' but is {X.format}"
         )
 
     if X.has_sorted_indices is False:
@@ -108,7 +108,7 @@ def translate_sparse(
         raise TypeError(
             (
                 "Format of sparse matrix passed to be translated must be 'csc' but "
-                f"is {mat.getformat()}"
+                f"is {mat.format}"
             )
         )
 
-- 
2.43.0


From 933d6262861ad03ddedf300b9ee9e0ef33ac2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:14 +0000
Subject: [PATCH 34/41] fix: keep the order of the penalties of a term when
 sorting penalties

---
 src/mssm/src/python/penalties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index ffcdae6..545f874 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -19,7 +19,7 @@ def sort_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
     """
 
     idx = [pen.start_index for pen in penalties]
-    sort_idx = np.argsort(idx)
+    sort_idx = np.argsort(idx, kind="stable")  # Penalties of a term stay in order
     return [penalties[sidx] for sidx in sort_idx]
 
 
-- 
2.43.0


From 96ba93eeb05009c57accfef3293ef401e8d1c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:14 +0000
Subject: [PATCH 35/41] fix: traces and rank decisions line up with merged
 penalties when an id is used once

---
 src/mssm/src/python/gamm_solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index c4e0793..eb44244 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -398,6 +398,9 @@ def compute_S_emb_pinv_det(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:  # Not merged, so collected above
+                continue
+
             rds = [rd for rdi, rd in enumerate(FS_use_rank) if penalties[rdi].id == id]
 
             if len(np.unique(rds)) > 1:
@@ -1002,6 +1005,9 @@ def calculate_edf(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:  # Not merged, so collected above
+                continue
+
             mBs = [B for bdi, B in enumerate(Bs) if penalties[bdi].id == id]
 
             merged_Bs.append(np.sum(mBs))
-- 
2.43.0


From 023c2502776d7c76baac39e40daeb051f5d03958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:04 +0000
Subject: [PATCH 36/41] fix: accepted coefficients keep their linear predictor
 when a lambda step is taken back

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index eb44244..e88107b 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -2474,7 +2474,7 @@ def correct_lambda_step(
                 lam_accepted = True
 
             # Also have to reset eta, mu, z, and Wr
-            if max_inner > 1 and (
+            if not lam_accepted and max_inner > 1 and (
                 isinstance(family, Gaussian) is False
                 or isinstance(family.link, Identity) is False
             ):
-- 
2.43.0


From ad5d423cb55aca7100c11d5efcbe5b94191be065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 37/41] fix: offsets of Gaussian models with integer responses

---
 src/mssm/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..394576d 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3172,7 +3172,7 @@ class GAMM(GAMMLSS):
                 ):
                     self.offset = offset
                 else:
-                    y_flat -= offset
+                    y_flat = y_flat - offset
 
             if y_flat.shape[0] != self.formulas[0].y_flat.shape[0] and progress_bar:
                 print("NAs were excluded for fitting.")
@@ -3318,7 +3318,7 @@ class GAMM(GAMMLSS):
                 if offset is not None:
                     # Assign correct offset and re-adjust y_flat + eta
                     self.offset = offset
-                    y_flat += offset
+                    y_flat = y_flat + offset
                     eta += offset
 
         else:
-- 
2.43.0


From 96b78eb26e6a03e09f750feb0b7b5b7237b76632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:45 +0000
Subject: [PATCH 38/41] fix: degrees of freedom of unpenalized models with
 dropped coefficients

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index e88107b..9cc0a37 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1225,7 +1225,7 @@ def update_scale_edf(
             None,
         )
     else:
-        total_edf = colsX
+        total_edf = colsX - (len(drop) if drop is not None else 0)
         term_edfs = None
         Bs = None
 
-- 
2.43.0


From 984f03c1b9dacf51c1f1bc3eb91e9f033a185abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:24 +0000
Subject: [PATCH 39/41] fix: keep every penalty of a term when the dominating
 one has full rank in reparam

---
 src/mssm/src/python/repara.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index f8ee9cf..e50fdb8 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -592,7 +592,11 @@ def reparam(
 
             if S_rep is None:  # Fix r==Q in first iteration
                 S_rep = SJbar[0] * LJgroup[0]
-                Q_rep = scp.sparse.eye(r, format="csc")
+                for j in range(1, len(SJbar)):
+                    S_rep = S_rep + SJbar[j] * LJgroup[j]
+                Q_rep = scp.sparse.eye(
+                    r if Q_rep0 is None else Q_rep0.shape[1], format="csc"
+                )
 
             S_reps.append(scp.sparse.csc_array(S_rep))
 
-- 
2.43.0


From 3569e182135816e72a86a4023ee02ea85a04724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:11 +0000
Subject: [PATCH 40/41] fix: return the smoothing parameters the coefficients
 were estimated with when max_outer is reached

---
 src/mssm/src/python/gamm_solvers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 9cc0a37..882ed29 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6399,8 +6399,10 @@ def solve_gammlss_sparse(
         # prev_coef = copy.deepcopy(coef)
         # print("lambda before step:",[lterm.lam for lterm in gamlss_pen])
         # And ultimately apply new proposed lambda step
-        for lti, lTerm in enumerate(gamlss_pen):
-            lTerm.lam += lam_delta[lti]
+        # (not after the last iteration, coef etc. would no longer match lambda)
+        if outer < max_outer - 1:
+            for lti, lTerm in enumerate(gamlss_pen):
+                lTerm.lam += lam_delta[lti]
 
         # At this point we have:
         # 1) Estimated coef given lambda
@@ -9600,8 +9602,10 @@ def solve_generalSmooth_sparse(
         # print("lambda before step:",[lterm.lam for lterm in smooth_pen])
 
         # And ultimately apply new proposed lambda step
-        for lti, lTerm in enumerate(smooth_pen):
-            lTerm.lam += lam_delta[lti]
+        # (not after the last iteration, coef etc. would no longer match lambda)
+        if outer < max_outer - 1:
+            for lti, lTerm in enumerate(smooth_pen):
+                lTerm.lam += lam_delta[lti]
 
         # At this point we have:
         # 1) Estimated coef given lambda
-- 
2.43.0


From 177eefd0a853defccdcf81fb09dfcd11df8d7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:11 +0000
Subject: [PATCH 41/41] fix: do not count dropped coefficients in the edf of
 unpenalized GAMMLSS and GSMM models

---
 src/mssm/src/python/gamm_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 882ed29..1d586a4 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6450,7 +6450,7 @@ def solve_gammlss_sparse(
         term_edfs = calculate_term_edf(gamlss_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (len(drop) if drop is not None else 0)
 
     return (
         coef,
@@ -9624,7 +9624,7 @@ def solve_generalSmooth_sparse(
         term_edfs = calculate_term_edf(smooth_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (len(drop) if drop is not None else 0)
 
     LV_linop = None
     if method == "qEFS":
-- 
2.43.0

