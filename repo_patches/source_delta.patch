From a3cc223aadd90dd872736a740f75cff0bdd74d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 01/46] fix: weight samples by u(t) instead of 1/u(t) in Huber
 M-estimation

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..aa2bd24 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -172,7 +172,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -764,7 +764,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From be12c13b7813ca3ef99eae52efa94b8bde1a0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 02/46] fix: chi-square constants of the real Huber M-estimator

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index aa2bd24..ee4c813 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,8 +158,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
-- 
2.43.0


From 64e7a5ac27c6eddf8c8286e4557a08f5ffcbc82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 03/46] fix: Student-t fixed point maximises the likelihood its
 score reports (df constants)

---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index ee4c813..4a79c48 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -246,9 +246,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -850,9 +850,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From b1cba79def70c0eff213edd938b4c6d67667d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 04/46] fix: Kronecker MM estimated conj(A) instead of A for
 complex data

---
 robuststats/estimation/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..4957760 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -97,7 +97,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         M = np.zeros((a, a), dtype=Y.dtype)
         M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator[:, :, i] = M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]
+            M_numerator[:, :, i] = (M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]).T
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
         A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A
@@ -108,7 +108,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         # Update B with eq. (67)
         M = np.zeros((b, b), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator_B = M_i[:, :, i] @ i_A @  M_i[:, :, i].T.conj()
+            M_numerator_B = M_i[:, :, i] @ i_A.T @  M_i[:, :, i].T.conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += b/n_samples * (M_numerator_B/M_denominator)
         B_new = sqrtm_B @ sp.linalg.sqrtm(isqrtm_B @ M @ isqrtm_B) @ sqrtm_B
-- 
2.43.0


From 989d4710877200fd75c19772306dd4d90772ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 05/46] fix: Kronecker MM returns the final error, not the
 tolerance

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 4957760..c003084 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    return A, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From 042495b7c1e63c78fc070f9c0c56516cd7589143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 06/46] fix: Kronecker Student gradient is the gradient of its
 cost

---
 robuststats/estimation/structured.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index c003084..7c572d9 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -275,13 +275,15 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         grad_A = np.zeros_like(A)
         grad_B = np.zeros_like(B)
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
-
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
-        grad_A = grad_A/n_samples + b*i_A
-        grad_B = grad_B/n_samples + a*i_B
+            M_i = Y[i, :].reshape((b, a), order='F')
+            S_i = (M_i.T.conj()@i_B@M_i).T
+            Q_i = np.real(np.trace(i_A@S_i))
+
+            w_i = (df/2+a*b)/(df/2+Q_i)
+            grad_A -= w_i * i_A@S_i@i_A
+            grad_B -= w_i * i_B@(M_i@i_A.T@M_i.T.conj())@i_B
+        grad_A = grad_A + n_samples*b*i_A
+        grad_B = grad_B + n_samples*a*i_B
 
         return (grad_A.T.conj(), grad_B.T.conj())
 
-- 
2.43.0


From 687305915e41a64f3ef7969998f190ef15f4321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 07/46] fix: Kronecker Student score is the likelihood under
 the fitted covariance

---
 robuststats/estimation/structured.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 7c572d9..12a1abe 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -405,15 +405,10 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
+        res = -cost_function(self.A_, self.B_)
 
         return res
-- 
2.43.0


From f96d9bfb04091821691261be21218ac93fcb31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 08/46] fix: Kronecker Student fit uses the current parameters
 after set_params

---
 robuststats/estimation/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 12a1abe..6f446cd 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -371,6 +371,9 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self : object
         """
         X = self._validate_data(X)
+        self.alpha = (self.df+self.a*self.b)/(self.df+self.a*self.b+1)
+        self.manifold = KroneckerHermitianPositiveElliptical(
+            self.a, self.b, self.alpha)
         if self.assume_centered:
             self.location_ = np.zeros(X.shape[1])
         else:
-- 
2.43.0


From 20b8877a115be2a0158a970e6d9a6d6c726ed74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 09/46] fix: random tangent vectors of weighted products have
 unit norm

---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..cc1b242 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -414,7 +414,7 @@ class WeightedProduct(man.Product):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
         return _ProductTangentVector(
-            [scale * (1/weights[k]**(-1/2)) * man.randvec(X[k])
+            [scale * (weights[k]**(-1/2)) * man.randvec(X[k])
              for k, man in enumerate(self._manifolds)])
 
 
-- 
2.43.0


From 4d3d4e40906ead061b9290969770717b70165768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 10/46] fix: Kronecker elliptical gradient and random vectors
 agree with its metric

---
 robuststats/models/manifolds.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index cc1b242..ebabddd 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -475,5 +475,20 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                     np.tensordot(_part_B_xi, multitransp(_part_B_eta),
                                  axes=theta[1].ndim)) +\
             (self._alpha - 1) * (self._a**2) *\
-            np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
+            np.real(np.sum(np.trace(_part_B_xi, axis1=-2, axis2=-1) *
+                           np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
+
+    def egrad2rgrad(self, X, U):
+        r_A, r_B = super().egrad2rgrad(X, U)
+        alpha = self._alpha
+        t = np.real(np.trace(multiprod(X[1], multiherm(U[1])),
+                             axis1=-2, axis2=-1))
+        coef = (alpha - 1) / (alpha*(alpha + (alpha - 1)*self._n))
+        r_B = r_B - coef * t[..., np.newaxis, np.newaxis] * X[1]
+        return _ProductTangentVector([r_A, r_B])
+
+    def randvec(self, X):
+        u = super().randvec(X)
+        return (1/self.norm(X, u)) * u
+
-- 
2.43.0


From 07a24b41e558b3e0e4a1609b86dbd4deb1022d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 11/46] fix: Tyler estimators use their own current parameters
 (set_params, deepcopy)

---
 robuststats/estimation/covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4a79c48..c4770a3 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -690,6 +690,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
@@ -1269,6 +1270,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
-- 
2.43.0


From 6fcc5f296a06a9ef4615aa9d2eef9e3995d03614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 12/46] fix: centred estimators store their (null) location,
 used by score and mahalanobis

---
 robuststats/estimation/covariance.py | 6 ++++++
 robuststats/estimation/structured.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index c4770a3..1ce38f9 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -518,6 +518,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -591,6 +592,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         covariance, err, iteration = student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -693,6 +695,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -1093,6 +1096,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -1170,6 +1174,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         covariance, err, iteration = complex_student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -1273,6 +1278,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 6f446cd..b2ae6ab 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -175,6 +175,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
         )
         self.A_ = A
         self.B_ = B
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(np.kron(A, B))
 
         return self
-- 
2.43.0


From 639276c023006e3db6d1699e5c3049a564f5837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 13/46] fix: score and mahalanobis of complex estimators raised
 TypeError

---
 robuststats/estimation/base.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..91583d4 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -364,9 +364,10 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         else:
             self.precision_ = None
 
-    def _validate_data(self, X):
+    def _validate_data(self, X, **kwargs):
         X_verified = arraytocomplex(
-         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X))
+         super(ComplexEmpiricalCovariance, self)._validate_data(
+             arraytoreal(X), **kwargs)
         )
         return X_verified
 
@@ -397,6 +398,23 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
         return self
 
+    def score(self, X_test, y=None):
+        """Average log-likelihood of X_test under the circular complex Gaussian
+        model of mean `self.location_` and covariance `self.covariance_`."""
+        X_test = self._validate_data(X_test, reset=False)
+        test_cov = complex_empirical_covariance(
+            X_test - self.location_, assume_centered=True)
+        precision = self.get_precision()
+        p = len(precision)
+        _, logdet = np.linalg.slogdet(precision)
+        return logdet - np.real(np.trace(test_cov @ precision)) -\
+            p*np.log(np.pi)
+
+    def mahalanobis(self, X):
+        """Squared Mahalanobis distances of the samples to the location."""
+        X = self._validate_data(X, reset=False) - self.location_
+        return np.real(np.sum(X.conj() @ self.get_precision() * X, axis=1))
+
     def error_norm(self, comp_cov, norm='frobenius', scaling=True,
                    squared=True):
         """Overidden error_norm of EmpiricalCovariance
-- 
2.43.0


From e24bdff2b91b6c844114010032c914213de56bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 14/46] fix: feature container append validates every component
 before storing any

---
 robuststats/estimation/base.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 91583d4..d2b30de 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -87,25 +87,28 @@ class _FeatureArray():
         if type(data) == np.ndarray:
             data = [data]
 
-        if self._array is None:
-            self._array = [None]*len(self._shape)
-
         check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
 
-        for i, (a, d) in enumerate(zip(self._array, data)):
+        # check everything before storing anything
+        batch = list()
+        for i, d in enumerate(data):
             check_type(d, 'd', [np.ndarray, np.memmap])
-            if a is not None:
-                check_value(d.dtype, 'd.dtype', [a.dtype])
+            if self._array is not None:
+                check_value(d.dtype, 'd.dtype', [self._array[i].dtype])
 
             # Add batch dim.
             if len(d.shape) == len(self._shape[i]):
                 d = d[np.newaxis, ...]
 
             check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            check_value(d.shape[1:], 'd.shape[1:]', [tuple(self._shape[i])])
+            batch.append(d)
+            check_value(len(d), 'len(d)', [len(batch[0])])
 
-            if a is None:
-                self._array[i] = d
-            else:
+        if self._array is None:
+            self._array = [np.array(d) for d in batch]
+        else:
+            for i, d in enumerate(batch):
                 shape = (self._size_preallocation, *(self._shape[i]))
                 while len(self) + len(d) > len(self._array[i]):
                     a = self._array[i]
-- 
2.43.0


From e21a23a846ca445f3d6e427199f54c59b2aaf980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 15/46] fix: feature container vectorize ignored the number of
 stored items

---
 robuststats/estimation/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index d2b30de..ad8679b 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -124,6 +124,7 @@ class _FeatureArray():
         temp = list()
         for a in self._array:
             vec = None
+            a = a[:len(self)]
             bs = len(a)
 
             # check if matrix
-- 
2.43.0


From fe9ec0e14f3c7b167745ef63928ebe7529af6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 16/46] fix: feature container accepts numpy integers as index

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index ad8679b..3cded21 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -72,7 +72,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if isinstance(key, (int, np.integer)):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
-- 
2.43.0


From d96f83ac3f8050e7161e3e476dd7fabc9065df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 17/46] fix: feature estimation fits a private copy of the
 estimator per trial

---
 robuststats/estimation/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 3cded21..7ba0b61 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -161,8 +161,7 @@ class _FeatureArray():
 def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
-        f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = deepcopy(estimator).fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From 9cdd749b346f7eac8970b5a68841da36f46a57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 18/46] fix: batch covariances were truncated to the data type
 of the trials

---
 robuststats/estimation/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 7ba0b61..862bab1 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -261,18 +261,20 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
         if self.n_jobs == 1:
+            cov_list = list()
             for i in range(n_trials):
                 self.estimator.fit(X[i, :, :], **kwargs)
-                covmats[i, :, :] = self.estimator.covariance_
+                cov_list.append(self.estimator.covariance_)
         else:
             cov_list = Parallel(n_jobs=self.n_jobs)(
                     delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
                     for x in X
                 )
-            for i, cov in enumerate(cov_list):
-                covmats[i, :, :] = cov
+        dtype = np.result_type(X.dtype, *cov_list)
+        covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)
+        for i, cov in enumerate(cov_list):
+            covmats[i, :, :] = cov
         return covmats
 
 
-- 
2.43.0


From 448b8c5507694c9f17d141573a0640a673a46168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 19/46] fix: frozen complex normal logcdf failed with keyword
 arguments of scipy

---
 robuststats/models/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..7d59551 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -104,11 +104,11 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
         return np.real(super(complex_multivariate_normal_frozen,
                              self).logpdf(x))
 
-    def cdf(self, x):
+    def cdf(self, x, **kwargs):
         x, _, _ = _check_parameters_array_complex_normal(
             x, self._mean_orig, self._cov_orig)
         return np.real(super(complex_multivariate_normal_frozen,
-                             self).cdf(x))
+                             self).cdf(x, **kwargs))
 
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._mean_orig) or\
-- 
2.43.0


From 09a4ba4464d6c7b17a4bd6bf664e01ac3b95ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 20/46] fix: unfrozen complex Student-t density handles complex
 data and parameters

---
 robuststats/models/probability.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 7d59551..5671d77 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -373,6 +373,20 @@ class complex_multivariate_t_gen(multivariate_t_gen):
 
         return x
 
+    def logpdf(self, x, loc=None, shape=1, df=1):
+        """Log of the multivariate t-distribution density function."""
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).logpdf(x, loc, shape, df))
+
+    def pdf(self, x, loc=None, shape=1, df=1, allow_singular=False):
+        """Multivariate t-distribution probability density function."""
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).pdf(x, loc, shape, df, allow_singular))
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From 53be7eeed112dc9eceb58f1a86a21099d34f4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 21/46] fix: densities with a complex mean and real covariance
 are complex densities

---
 robuststats/models/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 5671d77..e4cb9f8 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -71,7 +71,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
-    if np.iscomplexobj(cov):
+    if np.iscomplexobj(mean) or np.iscomplexobj(cov):
         if np.isrealobj(X):
             logging.warning(
                 "Input data is real while parameters are complex. "
-- 
2.43.0


From c1b1ed2ed9e4d997cde404a8ca004b8f6b90e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 22/46] fix: unvech(vech(M)) returned conj(M) and failed on
 integers

---
 robuststats/utils/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 0a13348..3429e99 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -179,10 +179,11 @@ def unvech(v):
     rows = int(np.round(rows))
 
     result = np.zeros((rows, rows), dtype=v.dtype)
-    result[np.triu_indices(rows)] = v
+    # vech stacks the lower triangle by columns
+    result[np.triu_indices(rows)] = v.conj()
     result = result + result.conj().T
 
     # divide diagonal elements by 2
-    result[np.diag_indices(rows)] /= 2
+    result[np.diag_indices(rows)] = result[np.diag_indices(rows)] / 2
 
     return result
\ No newline at end of file
-- 
2.43.0


From 9f1db1f8c5052855c12b974d9a38a97b53af9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 23/46] fix: online fit without initial point logs an error
 instead of crashing

---
 robuststats/online/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..15f4902 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -70,12 +70,12 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
-        self.set_estimate(init)
-        if self.estimate_ is None:
+        if init is None:
             logging.error(
              "Estimator not initilaized. Please provide an initial point."
             )
             return self
+        self.set_estimate(init)
 
         n_samples, n_features = X.shape
         if self._verbosity:
-- 
2.43.0


From 1bedbafce49fa4c798d847a5619a45c7eef1fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 24/46] fix: online refit restarts the decreasing step schedule

---
 robuststats/online/estimation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 15f4902..a865eb9 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -76,6 +76,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             )
             return self
         self.set_estimate(init)
+        self._iteration = 0
 
         n_samples, n_features = X.shape
         if self._verbosity:
-- 
2.43.0


From 5511330dac55c9f433e72caac88b50a49a5998eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 25/46] fix: single online updates advance the step schedule

---
 robuststats/online/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index a865eb9..410b0df 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -66,6 +66,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         estimate = self._manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
+        self._iteration += 1
         return self
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
@@ -91,6 +92,4 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                     cost = self._cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
-            self._iteration += 1
-
         return self
-- 
2.43.0


From 255431f95e467008cdb67d491f7de4a0275ea4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 26/46] fix: online estimator parameters are visible to
 get_params, repr and clone

---
 robuststats/online/estimation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 410b0df..fbbf532 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -19,21 +19,21 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                        estimatetocov=None,
                        cost=None, verbosity=False):
         super().__init__()
-        self._manifold = manifold
-        self._rgrad = rgrad
-        self.lrate_ = lrate
-        self._cost = cost
-        self._verbosity = verbosity
-        self._estimatetocov = estimatetocov
+        self.manifold = manifold
+        self.rgrad = rgrad
+        self.lrate = lrate
+        self.cost = cost
+        self.verbosity = verbosity
+        self.estimatetocov = estimatetocov
 
         self._iteration = 0
         self.estimate_ = None
 
     def _estimate_to_cov(self, estimate):
-        if self._estimatetocov is None:
+        if self.estimatetocov is None:
             return estimate
         else:
-            return self._estimatetocov(estimate)
+            return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
         self.estimate_ = estimate
@@ -42,9 +42,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-            return self.lrate_/(iteration+1)
+            return self.lrate/(iteration+1)
         else:
-            return self.lrate_
+            return self.lrate
 
     def update(self, X, lr_update):
 
@@ -55,7 +55,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         # TODO: constant step + geodesic between past two iterations
-        nabla = self._rgrad(X, self.estimate_)
+        nabla = self.rgrad(X, self.estimate_)
         t = self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
@@ -64,7 +64,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         else:
             t_nabla = t*nabla
 
-        estimate = self._manifold.retr(self.estimate_, t_nabla)
+        estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
         self._iteration += 1
         return self
@@ -80,16 +80,16 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         self._iteration = 0
 
         n_samples, n_features = X.shape
-        if self._verbosity:
+        if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
         for iteration in range(n_samples):
             self.update(X[iteration, :].reshape((1, n_features)), lr_update)
 
-            if self._verbosity:
+            if self.verbosity:
                 pbar_v.update()
-                if self._cost is not None:
-                    cost = self._cost(X, self.estimate_)
+                if self.cost is not None:
+                    cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
         return self
-- 
2.43.0


From c1ea102548f2dae13165f008c195cbceebe61d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 27/46] fix: complex natural gradient accepts a complex
 starting point

---
 robuststats/estimation/covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 1ce38f9..79581f2 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -20,7 +20,8 @@ from sklearn.utils.validation import _deprecate_positional_args
 from sklearn.covariance import EmpiricalCovariance, empirical_covariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
                 RealEmpiricalCovariance
-from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex
+from ..models.mappings import arraytoreal, arraytocomplex,\
+                covariancetoreal, covariancetocomplex
 from ..models.manifolds import HermitianPositiveDefinite
 from ..models.cost import Tyler_cost_real, Tyler_cost_complex
 from ..models.probability import complex_multivariate_t
@@ -917,6 +918,8 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
         Always None. For compatibility purposes
     """
     X_real = arraytoreal(X)
+    if init is not None:
+        init = covariancetoreal(init)
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From c6d9f28c6437c916d57f9cfd3450aa9d4dbfd726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 28/46] fix: Tyler estimators can be refitted after a natural
 gradient fit

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 79581f2..ab0c7dc 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -690,7 +690,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         self.set_method()
@@ -1275,7 +1275,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         self.set_method()
-- 
2.43.0


From f6fdbda0a83fc5357902c89b3219875dae0f51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 29/46] fix: complex natural gradient solves the complex Tyler
 problem

---
 robuststats/estimation/covariance.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index ab0c7dc..7b15c7f 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -917,17 +917,19 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     int
         Always None. For compatibility purposes
     """
-    X_real = arraytoreal(X)
+    # Adding 1j*X makes the real-valued problem equivalent to the complex one
+    X_real = np.vstack([arraytoreal(X), arraytoreal(1j*X)])
     if init is not None:
         init = covariancetoreal(init)
-    Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
+    Sigma, _, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
     )
     S = get_normalisation_function(normalisation)
     Sigma = covariancetocomplex(Sigma)
     Sigma = (Sigma + np.conj(Sigma).T)/2
-    return Sigma/S(Sigma), cost_value, None
+    Y = X / la.norm(X, axis=1, keepdims=True)
+    return Sigma/S(Sigma), -Tyler_cost_complex(Y, Sigma), None
     # TODO :Debug why this doesn't work
     # n_samples, n_features = X.shape
     # S = get_normalisation_function(normalisation)
-- 
2.43.0


From 97f5344316d517cf84d4a9d1c3154baa48b8fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 30/46] fix: natural gradient Tyler survives overflowing
 line-search candidates

---
 robuststats/estimation/covariance.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 7b15c7f..d435bda 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -291,7 +291,13 @@ def _generate_realTyler_cost_function(X):
 
     @Callable
     def cost(Q):
-        return Tyler_cost_real(X, Q, autograd=True)
+        # the line search may try steps so long that Q overflows
+        if isinstance(Q, np.ndarray) and not np.all(np.isfinite(Q)):
+            return np.inf
+        value = Tyler_cost_real(X, Q, autograd=True)
+        if isinstance(value, float) and not np.isfinite(value):
+            return np.inf
+        return value
     return cost
 
 @_deprecate_positional_args
-- 
2.43.0


From e066f0350af9dd67970ba504681b7b6225e34f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 31/46] fix: arraytocomplex broadcast vectors of odd size 1 and
 3 instead of rejecting them

---
 robuststats/models/mappings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 379f51f..14c080b 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -61,9 +61,12 @@ def arraytocomplex(a):
     Raises
     ------
     AttributeError
-        when input array format is not of dimension 1 or 2.
+        when input array format is not of dimension 1 or 2, or when the
+        number of features is odd.
     """
     if not np.iscomplexobj(a):
+        if a.ndim in (1, 2) and a.shape[-1] % 2 != 0:
+            raise AttributeError("Input array has an odd number of features.")
         if a.ndim == 1:
             p = int(len(a)/2)
             return a[:p] + 1j*a[p:]
-- 
2.43.0


From 4033df1383376a1f4a7d885aa00177db81dde090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 32/46] fix: a failing fit no longer overwrites location and
 Kronecker factors of the previous fit

---
 robuststats/estimation/covariance.py | 12 ++++++------
 robuststats/estimation/structured.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index d435bda..17b0395 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -525,8 +525,8 @@ class HuberMEstimator(RealEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
-        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -599,8 +599,8 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         covariance, err, iteration = student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
-        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -702,8 +702,8 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
-        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1107,8 +1107,8 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
-        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1185,8 +1185,8 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         covariance, err, iteration = complex_student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
-        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1289,8 +1289,8 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
-        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self.err_ = err
         self.iteration_ = iteration
         return self
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index b2ae6ab..b746aa3 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -173,10 +173,10 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
             X, self.a, self.b, tol=self.tol, iter_max=self.iter_max,
             verbosity=self.verbosity
         )
+        self._set_covariance(np.kron(A, B))
         self.A_ = A
         self.B_ = B
         self.location_ = np.zeros(X.shape[1], dtype=complex)
-        self._set_covariance(np.kron(A, B))
 
         return self
 
@@ -376,18 +376,19 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self.manifold = KroneckerHermitianPositiveElliptical(
             self.a, self.b, self.alpha)
         if self.assume_centered:
-            self.location_ = np.zeros(X.shape[1])
+            location = np.zeros(X.shape[1])
         else:
-            self.location_ = X.mean(0)
+            location = X.mean(0)
 
         # Using pymanopt solver to obtain estimate
         A, B = _estimate_covariance_kronecker_t_gradient(
-            X, self.df, self.a, self.b, self.manifold, self.location_,
+            X, self.df, self.a, self.b, self.manifold, location,
             self.verbosity, init
         )
+        self._set_covariance(np.kron(A, B))
         self.A_ = A
         self.B_ = B
-        self._set_covariance(np.kron(A, B))
+        self.location_ = location
 
         return self
 
-- 
2.43.0


From d2709fda1a5b2779346b372660eec10ede11f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 33/46] fix: error_norm of complex covariances summed E^2
 instead of |E|^2

---
 robuststats/estimation/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 862bab1..8d7e545 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -425,8 +425,17 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
 
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        error = comp_cov - self.covariance_
+        if norm == 'frobenius':
+            squared_norm = np.sum(np.abs(error)**2)
+        elif norm == 'spectral':
+            squared_norm = np.amax(linalg.svdvals(error))**2
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented")
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        return squared_norm if squared else np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0


From 441caffcbfa481942f8886eacfc4a1162480682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:55 +0000
Subject: [PATCH 34/46] fix: feature estimation accepts every scalar type as
 estimator output

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 8d7e545..3363833 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -164,7 +164,7 @@ def _feature_estimation(estimator):
         f = deepcopy(estimator).fit_transform(data, **kwargs)
 
         # return a _FeatureArray
-        if type(f) in [np.float64, np.complex128]:
+        if np.isscalar(f):
             f = np.array([f])
         if type(f) == np.ndarray:
             f = [f]
-- 
2.43.0


From b7982e0d6e8fafce0e33697c635031ca2be29046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 35/46] fix: dimension of the Hermitian positive definite
 manifolds

---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index ebabddd..51b3ecb 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -108,7 +108,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
                     ({} x {}) matrices").format(n, n)
         else:
             name = "Product manifold of {} ({} x {}) matrices".format(k, n, n)
-        dimension = 2 * int(k * n * (n + 1) / 2)
+        dimension = int(k * n**2)
         super().__init__(name, dimension)
 
     def rand(self):
@@ -275,7 +275,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         else:
             name = "Product manifold of {} special Hermitian positive\
                     definite ({} x {}) matrices".format(k, n, n)
-        dimension = int(k * (n*(n+1) - 1))
+        dimension = int(k * (n**2 - 1))
         super().__init__(name, dimension)
 
     def rand(self):
-- 
2.43.0


From a76e0d060dafbfe0345958a80a26dbe39531fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 36/46] fix: Tyler costs differentiable at repeated eigenvalues

---
 robuststats/models/cost.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..c2635d0 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -12,7 +12,6 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from ..utils.backend import get_be_autograd, get_be_la_autograd
-from ..utils.linalg import invsqrtm
 import logging
 
 def Tyler_cost_real(X, Q, autograd=False):
@@ -47,9 +46,10 @@ def Tyler_cost_real(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
+    # the gradient of an eigendecomposition is undefined at repeated eigenvalues
+    temp = be_la.solve(Q, X.T)
     
-    q = be.einsum('ij,ji->i', temp.T, temp)
+    q = be.einsum('ij,ji->i', X, temp)
     return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
 
 
@@ -86,6 +86,7 @@ def Tyler_cost_complex(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)
+    # the gradient of an eigendecomposition is undefined at repeated eigenvalues
+    temp = be_la.solve(Q, X.T)
+    q = be.einsum('ij,ji->i', be.conjugate(X), temp)
     return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
-- 
2.43.0


From 972aca97190aa3794a11c86438f66e63e78daa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 37/46] fix: invalid data or estimates leave the online
 estimator unchanged

---
 robuststats/online/estimation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index fbbf532..695cc76 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -10,6 +10,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from robuststats.estimation.base import ComplexEmpiricalCovariance
+from sklearn.utils import assert_all_finite
 import logging
 from tqdm import tqdm
 
@@ -36,9 +37,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
-        self.estimate_ = estimate
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.estimate_ = estimate
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
@@ -76,10 +77,12 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
              "Estimator not initilaized. Please provide an initial point."
             )
             return self
+
+        n_samples, n_features = X.shape
+        assert_all_finite(X)
         self.set_estimate(init)
         self._iteration = 0
 
-        n_samples, n_features = X.shape
         if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
-- 
2.43.0


From dbcb38fc49e49f71140a50204e51e8f169bf55f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 38/46] fix: the online estimator stores its (null) location,
 used by score and mahalanobis

---
 robuststats/online/estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 695cc76..f26755c 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -11,6 +11,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 
 from robuststats.estimation.base import ComplexEmpiricalCovariance
 from sklearn.utils import assert_all_finite
+import numpy as np
 import logging
 from tqdm import tqdm
 
@@ -39,6 +40,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
     def set_estimate(self, estimate):
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(len(self.covariance_), dtype=complex)
         self.estimate_ = estimate
 
     def _current_lr(self, lr_update, iteration):
-- 
2.43.0


From 6b75b0d4846b6b38512f68b352b5a769eabec75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:48 +0000
Subject: [PATCH 39/46] fix: a failing complex sample covariance fit keeps the
 stored location

---
 robuststats/estimation/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 3363833..c987701 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -393,13 +393,14 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
         X = self._validate_data(X)
         if self.assume_centered:
-            self.location_ = np.zeros(X.shape[1], dtype=complex)
+            location = np.zeros(X.shape[1], dtype=complex)
         else:
-            self.location_ = X.mean(0)
+            location = X.mean(0)
         covariance = complex_empirical_covariance(
             X, assume_centered=self.assume_centered)
 
         self._set_covariance(covariance)
+        self.location_ = location
 
         return self
 
-- 
2.43.0


From 51ae997353c415a72a8a2cf5069c6c0ec3473da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:29 +0000
Subject: [PATCH 40/46] fix: complex Student-t distribution function and
 entropy used real parts only

---
 robuststats/models/probability.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index e4cb9f8..4f17221 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -322,6 +322,11 @@ class complex_multivariate_t_frozen(multivariate_t_frozen):
         return np.real(super(complex_multivariate_t_frozen,
                              self).logpdf(x))
 
+    def cdf(self, x, **kwargs):
+        x, _, _ = _check_parameters_array_complex_normal(
+            x, self._loc_orig, self._shape_orig)
+        return super(complex_multivariate_t_frozen, self).cdf(x, **kwargs)
+
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._loc_orig) or\
                      np.iscomplexobj(self._shape_orig)
@@ -387,6 +392,18 @@ class complex_multivariate_t_gen(multivariate_t_gen):
         return np.real(super(complex_multivariate_t_gen,
                              self).pdf(x, loc, shape, df, allow_singular))
 
+    def cdf(self, x, loc=None, shape=1, df=1, allow_singular=False, **kwargs):
+        """Multivariate t-distribution cumulative distribution function."""
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return super(complex_multivariate_t_gen, self).cdf(
+            x, loc, shape, df, allow_singular, **kwargs)
+
+    def entropy(self, loc=None, shape=1, df=1):
+        """Differential entropy of the multivariate t-distribution."""
+        loc, shape = _check_parameters_complex_normal(loc, shape)
+        return super(complex_multivariate_t_gen, self).entropy(loc, shape, df)
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From f56ff120a8ff2d896e3c3d4c5f7491c71286979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 41/46] fix: complex laws accept the default and array_like
 arguments they document

---
 robuststats/models/probability.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 4f17221..3c31a3a 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -38,13 +38,16 @@ def _check_parameters_complex_normal(mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     if mean is None:
+        if np.ndim(cov) == 0:
+            return mean, cov
+        cov = np.asarray(cov)
         mean = np.zeros((len(cov),), dtype=cov.dtype)
 
     if np.isrealobj(mean) and np.isrealobj(cov):
         return mean, cov
     else:
-        return arraytoreal(mean.astype(complex)),\
-                covariancetoreal(cov.astype(complex))
+        return arraytoreal(np.asarray(mean, dtype=complex)),\
+                covariancetoreal(np.asarray(cov, dtype=complex))
 
 
 def _check_parameters_array_complex_normal(X, mean, cov):
@@ -76,7 +79,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
             logging.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
-        return arraytoreal(X.astype(complex)), mean_map, cov_map
+        return arraytoreal(np.asarray(X, dtype=complex)), mean_map, cov_map
     elif np.iscomplexobj(X) and np.isrealobj(cov):
         logging.warning(
             "Input data is complex while parameters of model are not."
-- 
2.43.0


From 5e83962427df142e8a6aeffd041aba32c112fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:54 +0000
Subject: [PATCH 42/46] fix: complex estimators accept real-valued starting
 points and estimates

---
 robuststats/estimation/base.py       | 1 +
 robuststats/estimation/covariance.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index c987701..05cc176 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -359,6 +359,7 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
             Estimated covariance matrix to be stored, and from which precision
             is computed.
         """
+        covariance = np.asarray(covariance, dtype=complex)
         covariance = covariancetocomplex(
             check_array(covariancetoreal(covariance)))
         # set covariance
diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 17b0395..10c3796 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -926,7 +926,7 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     # Adding 1j*X makes the real-valued problem equivalent to the complex one
     X_real = np.vstack([arraytoreal(X), arraytoreal(1j*X)])
     if init is not None:
-        init = covariancetoreal(init)
+        init = covariancetoreal(np.asarray(init, dtype=complex))
     Sigma, _, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From a2b99a1ea24d1b1d5a6443f26715a7ee2960ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 43/46] fix: batch covariances keep their own copy of each
 trial's result

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 05cc176..dd7eb10 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -265,7 +265,7 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             cov_list = list()
             for i in range(n_trials):
                 self.estimator.fit(X[i, :, :], **kwargs)
-                cov_list.append(self.estimator.covariance_)
+                cov_list.append(np.array(self.estimator.covariance_))
         else:
             cov_list = Parallel(n_jobs=self.n_jobs)(
                     delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
-- 
2.43.0


From dc24d64c39eac34674d2c1ffbca58fdb0e4be1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:25 +0000
Subject: [PATCH 44/46] fix: converting infinite or undefined imaginary parts
 to complex lost the real parts

---
 robuststats/models/mappings.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 14c080b..f03e988 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -45,6 +45,14 @@ def arraytoreal(a):
         return a
 
 
+def _complex(real, imag):
+    """Complex array of given parts (adding 1j*imag would mix the parts of
+    non finite values)."""
+    res = real + 0j
+    res.imag = imag
+    return res
+
+
 def arraytocomplex(a):
     """Returns complex array from real input array.
 
@@ -69,10 +77,10 @@ def arraytocomplex(a):
             raise AttributeError("Input array has an odd number of features.")
         if a.ndim == 1:
             p = int(len(a)/2)
-            return a[:p] + 1j*a[p:]
+            return _complex(a[:p], a[p:])
         elif a.ndim == 2:
             p = int(a.shape[1]/2)
-            return np.vstack(a[:, :p] + 1j*a[:, p:])
+            return _complex(a[:, :p], a[:, p:])
         else:
             raise AttributeError("Input array format not supported")
     else:
@@ -199,8 +207,7 @@ def covariancetocomplex(a):
     if not np.iscomplexobj(a):
         if iscovariance(a) and len(a) % 2 == 0:
             p = int(len(a)/2)
-            complex_matrix = 2 * a[:p, :p] + 2j*a[p:, :p]
-            return complex_matrix
+            return _complex(2 * a[:p, :p], 2 * a[p:, :p])
         else:
             raise AttributeError("Input array format not supported.")
 
-- 
2.43.0


From 27773deb67d5a298af7273763de069007c0fa4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:12 +0000
Subject: [PATCH 45/46] fix: complex laws accept scalar and vector scales and
 points of one-dimensional laws, as real laws do

---
 robuststats/models/probability.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 3c31a3a..1ffbc4e 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -38,16 +38,22 @@ def _check_parameters_complex_normal(mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     if mean is None:
-        if np.ndim(cov) == 0:
+        if np.ndim(cov) == 0 and np.isrealobj(cov):
             return mean, cov
         cov = np.asarray(cov)
-        mean = np.zeros((len(cov),), dtype=cov.dtype)
+        mean = np.zeros(cov.shape[:1] or (1,), dtype=cov.dtype)
 
     if np.isrealobj(mean) and np.isrealobj(cov):
         return mean, cov
     else:
-        return arraytoreal(np.asarray(mean, dtype=complex)),\
-                covariancetoreal(np.asarray(cov, dtype=complex))
+        mean = np.atleast_1d(np.asarray(mean, dtype=complex))
+        cov = np.asarray(cov, dtype=complex)
+        # scalar or vector of variances, as for real laws
+        if cov.ndim == 0:
+            cov = cov*np.eye(mean.shape[0])
+        elif cov.ndim == 1:
+            cov = np.diag(cov)
+        return arraytoreal(mean), covariancetoreal(cov)
 
 
 def _check_parameters_array_complex_normal(X, mean, cov):
@@ -79,7 +85,11 @@ def _check_parameters_array_complex_normal(X, mean, cov):
             logging.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
-        return arraytoreal(np.asarray(X, dtype=complex)), mean_map, cov_map
+        X = np.asarray(X, dtype=complex)
+        if X.ndim < 2 and len(mean_map) == 2:
+            # points of a one-dimensional law
+            X = X.reshape(-1, 1)
+        return arraytoreal(X), mean_map, cov_map
     elif np.iscomplexobj(X) and np.isrealobj(cov):
         logging.warning(
             "Input data is complex while parameters of model are not."
-- 
2.43.0


From 12c3b8f56840746d250e102d6ef8c3b127fb1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:03 +0000
Subject: [PATCH 46/46] fix: natural gradient Tyler survives singular
 line-search candidates

---
 robuststats/estimation/covariance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 10c3796..eb22337 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -291,10 +291,13 @@ def _generate_realTyler_cost_function(X):
 
     @Callable
     def cost(Q):
-        # the line search may try steps so long that Q overflows
+        # the line search may try steps so long that Q overflows or is singular
         if isinstance(Q, np.ndarray) and not np.all(np.isfinite(Q)):
             return np.inf
-        value = Tyler_cost_real(X, Q, autograd=True)
+        try:
+            value = Tyler_cost_real(X, Q, autograd=True)
+        except la.LinAlgError:
+            return np.inf
         if isinstance(value, float) and not np.isfinite(value):
             return np.inf
         return value
-- 
2.43.0

