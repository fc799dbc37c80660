From 8b1c018b35ae004d4366c0cdc925499812eab8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 01/41] fix: Huber M-estimators weight samples by u(t) instead
 of dividing by it

X was divided by sqrt(u(tau)), so outliers were amplified instead of
down-weighted (one sample of size 1e6 gave a covariance of order 1e9).
---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..aa2bd24 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -172,7 +172,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -764,7 +764,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From 12b05e09882daa21c166515009efd1170c948771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 02/41] fix: consistency constants of the real Huber
 M-estimator

For real data x^T S^-1 x follows a chi2(p): the threshold is the quantile
itself and E[t 1(t<=lambda)]/p = F_{p+2}(lambda) (the complex version was
already right).
---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index aa2bd24..ee4c813 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,8 +158,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
-- 
2.43.0


From 31129efb6f51d9234f44abfb83193ae23863ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 03/41] fix: degrees of freedom in the Student-t fixed points

The halving that belongs to the complex circular t distribution was in the
real version and missing in the complex one; both estimates were biased.
---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index ee4c813..4a79c48 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -246,9 +246,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -850,9 +850,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From 97e28a3d4d100ea711edc0a1a989f23d037b750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 04/41] fix: Kronecker MM returns the final error, not the
 tolerance

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..4d68d66 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    return A, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From b72bab816c929782f633759708df5f766c53af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 05/41] fix: Kronecker MM estimated the conjugate of A

With x = vec(M) and covariance kron(A, B), E[M^T B^-T conj(M)] = b A and
E[M A^-T M^H] = a B; the update used E[M^H B^-1 M] = b conj(A).
---
 robuststats/estimation/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 4d68d66..cd08206 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -97,7 +97,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         M = np.zeros((a, a), dtype=Y.dtype)
         M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator[:, :, i] = M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]
+            M_numerator[:, :, i] = M_i[:, :, i].T @ i_B.T @ M_i[:, :, i].conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
         A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A
@@ -108,7 +108,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         # Update B with eq. (67)
         M = np.zeros((b, b), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator_B = M_i[:, :, i] @ i_A @  M_i[:, :, i].T.conj()
+            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += b/n_samples * (M_numerator_B/M_denominator)
         B_new = sqrtm_B @ sp.linalg.sqrtm(isqrtm_B @ M @ isqrtm_B) @ sqrtm_B
-- 
2.43.0


From 886f09c915bcadf83fc0290e95c63e67842796e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 06/41] fix: Kronecker MM raises when a*b is not the number of
 features

It logged an error and returned None, which the estimator then failed to
unpack with an unrelated TypeError.
---
 robuststats/estimation/structured.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index cd08206..de36fc3 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -70,7 +70,9 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         logging.error(
          f"Matrice size incompatible ({a}*{b} != {n_features})"
         )
-        return None
+        raise AttributeError(
+            f"Matrice size incompatible ({a}*{b} != {n_features})"
+        )
     M_i = Y.reshape((b, a, n_samples), order='F')
     delta = np.inf  # Distance between two iterations
     # Initialise estimate to identity
-- 
2.43.0


From 51f5e1878876793a1c2a3effa7ad6b093bf06e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 07/41] fix: Kronecker Student gradient is the derivative of
 its cost

The gradient ignored the location, used real-t weights for the complex t
model and transposes instead of conjugate transposes, so that the solver
stopped at points where the cost was not stationary.
---
 robuststats/estimation/structured.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index de36fc3..ddd4bf5 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -277,11 +277,13 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         grad_A = np.zeros_like(A)
         grad_B = np.zeros_like(B)
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
+            M_i = Y[i, :].reshape((b, a), order='F')
+            M_A = M_i.T@i_B.T@M_i.conj()
+            M_B = M_i@i_A.T@M_i.T.conj()
+            Q_i = np.real(np.trace(i_A@M_A))
 
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
+            grad_A -= (df+2*a*b)/(df+2*Q_i) * i_A@M_A@i_A
+            grad_B -= (df+2*a*b)/(df+2*Q_i) * i_B@M_B@i_B
         grad_A = grad_A/n_samples + b*i_A
         grad_B = grad_B/n_samples + a*i_B
 
-- 
2.43.0


From 6f617291bbdac9a25bb30ff8b2c25b4fa38cb97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 08/41] fix: WeightedProduct.randvec divides by the square root
 of the weight

1/w**(-1/2) is w**(1/2); the vector did not have unit norm.
---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..ac5e399 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -414,7 +414,7 @@ class WeightedProduct(man.Product):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
         return _ProductTangentVector(
-            [scale * (1/weights[k]**(-1/2)) * man.randvec(X[k])
+            [scale * weights[k]**(-1/2) * man.randvec(X[k])
              for k, man in enumerate(self._manifolds)])
 
 
-- 
2.43.0


From eb6520d3b51f2b7df768e8f5b21e6ae8147c2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 09/41] fix: dimensions of the Hermitian manifolds

The diagonal of a Hermitian matrix is real: n^2 parameters (n^2 - 1 with unit
determinant), not n(n+1).
---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index ac5e399..7c455ce 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -108,7 +108,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
                     ({} x {}) matrices").format(n, n)
         else:
             name = "Product manifold of {} ({} x {}) matrices".format(k, n, n)
-        dimension = 2 * int(k * n * (n + 1) / 2)
+        dimension = int(k * n**2)
         super().__init__(name, dimension)
 
     def rand(self):
@@ -275,7 +275,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         else:
             name = "Product manifold of {} special Hermitian positive\
                     definite ({} x {}) matrices".format(k, n, n)
-        dimension = int(k * (n*(n+1) - 1))
+        dimension = int(k * (n**2 - 1))
         super().__init__(name, dimension)
 
     def rand(self):
-- 
2.43.0


From 7fee3c53b4fb6db297dff31b1bdcf76e29ef3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 10/41] fix: Kronecker metric takes the trace of each matrix
 when k > 1

---
 robuststats/models/manifolds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 7c455ce..e14cf43 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -475,5 +475,6 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                     np.tensordot(_part_B_xi, multitransp(_part_B_eta),
                                  axes=theta[1].ndim)) +\
             (self._alpha - 1) * (self._a**2) *\
-            np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
+            np.real(np.sum(np.trace(_part_B_xi, axis1=-2, axis2=-1) *
+                           np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
-- 
2.43.0


From c9c28fed780edef8d4f7d4c1f6294526209fc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 11/41] fix: Riemannian gradient of the Kronecker elliptical
 manifold

egrad2rgrad was the one of the weighted product and ignored the
(alpha-1) a^2 tr(B^-1 u) tr(B^-1 v) part of the metric.
---
 robuststats/models/manifolds.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index e14cf43..fcd784f 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -478,3 +478,12 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
             np.real(np.sum(np.trace(_part_B_xi, axis1=-2, axis2=-1) *
                            np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
+
+    def egrad2rgrad(self, theta, egrad):
+        grad_A, grad_B = super().egrad2rgrad(theta, egrad)
+        # The metric on B has a rank one part: invert it as well.
+        beta = (self._alpha - 1) * (self._a**2)
+        t = np.trace(la.solve(theta[1], grad_B), axis1=-2, axis2=-1)
+        t = np.real(t) / (self._weights[1] + beta*self._b)
+        grad_B = grad_B - beta * t.reshape(t.shape + (1, 1)) * theta[1]
+        return _ProductTangentVector([grad_A, grad_B])
-- 
2.43.0


From f7bff83139976eb4405a8269f8fbad229dc05c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 12/41] fix: CovariancesEstimation works on copies and keeps
 the estimates' dtype

The serial path fitted the user's estimator in place, and the output was
allocated with the dtype of the data: integer batches were truncated and the
imaginary part of complex estimates of real data was dropped.
---
 robuststats/estimation/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..c531820 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -258,18 +258,18 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
         if self.n_jobs == 1:
-            for i in range(n_trials):
-                self.estimator.fit(X[i, :, :], **kwargs)
-                covmats[i, :, :] = self.estimator.covariance_
+            cov_list = [_fit_transform_covariance_copy(self.estimator, x, **kwargs)
+                        for x in X]
         else:
             cov_list = Parallel(n_jobs=self.n_jobs)(
                     delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
                     for x in X
                 )
-            for i, cov in enumerate(cov_list):
-                covmats[i, :, :] = cov
+        covmats = np.zeros((n_trials, n_features, n_features),
+                           dtype=np.result_type(float, *cov_list))
+        for i, cov in enumerate(cov_list):
+            covmats[i, :, :] = cov
         return covmats
 
 
-- 
2.43.0


From 15b44b18bb252de45fbe66a44475e5d87f6629be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 13/41] fix: FeaturesEstimation fits the copy of the estimator,
 not the original

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index c531820..e4ede02 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -158,7 +158,7 @@ def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
         f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = f.fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From 3664030b2fb79715bee1ae61601cb4a57217bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 14/41] fix: _FeatureArray.append checks everything before
 storing anything

A refused append could leave some components updated, components of different
lengths or broadcastable shapes were accepted, and the first append kept a
reference to the caller's array.
---
 robuststats/estimation/base.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index e4ede02..6440b82 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -87,12 +87,14 @@ class _FeatureArray():
         if type(data) == np.ndarray:
             data = [data]
 
-        if self._array is None:
-            self._array = [None]*len(self._shape)
-
         check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
 
-        for i, (a, d) in enumerate(zip(self._array, data)):
+        # Check all the components before modifying any of them.
+        arrays = self._array
+        if arrays is None:
+            arrays = [None]*len(self._shape)
+        checked = list()
+        for i, (a, d) in enumerate(zip(arrays, data)):
             check_type(d, 'd', [np.ndarray, np.memmap])
             if a is not None:
                 check_value(d.dtype, 'd.dtype', [a.dtype])
@@ -102,9 +104,15 @@ class _FeatureArray():
                 d = d[np.newaxis, ...]
 
             check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            check_value(d.shape[1:], 'd.shape[1:]', [tuple(self._shape[i])])
+            if checked:
+                check_value(len(d), 'len(d)', [len(checked[0])])
+            checked.append(d)
 
+        self._array = arrays
+        for i, (a, d) in enumerate(zip(arrays, checked)):
             if a is None:
-                self._array[i] = d
+                self._array[i] = np.array(d)
             else:
                 shape = (self._size_preallocation, *(self._shape[i]))
                 while len(self) + len(d) > len(self._array[i]):
-- 
2.43.0


From b2eee178f88e65006e23553bdc38dbd806942136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 15/41] fix: _FeatureArray does not expose its preallocated
 rows

vectorize, str and repr included the zero rows reserved for future appends.
---
 robuststats/estimation/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 6440b82..015ff3d 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -35,10 +35,12 @@ class _FeatureArray():
         self._tol = 1e-5
 
     def __str__(self):
-        return self._array.__str__()
-    
+        if self.__empty():
+            return str(None)
+        return str([a[:len(self)] for a in self._array])
+
     def __repr__(self):
-        return self._array.__str__()
+        return self.__str__()
 
     def __empty(self):
         return len(self) == 0
@@ -129,6 +131,7 @@ class _FeatureArray():
         temp = list()
         for a in self._array:
             vec = None
+            a = a[:len(self)]
             bs = len(a)
 
             # check if matrix
-- 
2.43.0


From 55748ae1f97be821e2f81322c61f74237585bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 16/41] fix: Tyler estimators select their method when fitting

The function stored by the constructor was bound to the object it was created
for: copies used the parameters of the original, set_params(method=...) had no
effect and estimators could not be pickled.
---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4a79c48..9efe3bb 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -669,7 +669,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+        return estimation_function
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
@@ -690,7 +690,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
-        covariance, err, iteration = self._estimation_function(
+        covariance, err, iteration = self.set_method()(
             X, init, **kwargs)
         self._set_covariance(covariance)
         self.err_ = err
@@ -1248,7 +1248,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+        return estimation_function
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
@@ -1269,7 +1269,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
-        covariance, err, iteration = self._estimation_function(
+        covariance, err, iteration = self.set_method()(
             X, init, **kwargs)
         self._set_covariance(covariance)
         self.err_ = err
-- 
2.43.0


From 23b8311ba68a3990b84e8f21d13a189302130691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 17/41] fix: KroneckerStudent derives its manifold from the
 current parameters

set_params(a=..., b=..., df=...) left the manifold of the constructor.
---
 robuststats/estimation/structured.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index ddd4bf5..5f66e28 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -352,9 +352,16 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self.a = a
         self.b = b
         self.df = df
-        self.alpha = (df+a*b)/(df+a*b+1)
         self.verbosity = verbosity
-        self.manifold = KroneckerHermitianPositiveElliptical(a, b, self.alpha)
+
+    @property
+    def alpha(self):
+        return (self.df+self.a*self.b)/(self.df+self.a*self.b+1)
+
+    @property
+    def manifold(self):
+        return KroneckerHermitianPositiveElliptical(
+            self.a, self.b, self.alpha)
 
     def fit(self, X, y=None, init=None):
         """Fits the Maximum Likelihood Estimator covariance model
-- 
2.43.0


From 771c2ae1c92947869ca6b05b59172a347ad393e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 18/41] fix: centred estimators set location_

The inherited score and mahalanobis raised AttributeError after a successful
fit of the Huber, Student, Tyler and Kronecker MM estimators.
---
 robuststats/estimation/covariance.py | 6 ++++++
 robuststats/estimation/structured.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 9efe3bb..bfa82cc 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -519,6 +519,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -592,6 +593,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -693,6 +695,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         covariance, err, iteration = self.set_method()(
             X, init, **kwargs)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1093,6 +1096,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1170,6 +1174,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1272,6 +1277,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         covariance, err, iteration = self.set_method()(
             X, init, **kwargs)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         self.err_ = err
         self.iteration_ = iteration
         return self
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 5f66e28..e7d3e41 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -178,6 +178,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
         self.A_ = A
         self.B_ = B
         self._set_covariance(np.kron(A, B))
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
 
         return self
 
-- 
2.43.0


From 10fca72edb668b93bccfb8878da09d36d45ee126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 19/41] fix: ComplexEmpiricalCovariance._validate_data accepts
 its base's options

The inherited methods call it with reset=False and failed with a TypeError.
---
 robuststats/estimation/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 015ff3d..6fb5973 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -375,9 +375,10 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         else:
             self.precision_ = None
 
-    def _validate_data(self, X):
+    def _validate_data(self, X, **kwargs):
         X_verified = arraytocomplex(
-         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X))
+         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X),
+                                                                **kwargs)
         )
         return X_verified
 
-- 
2.43.0


From 9068e3da11726313b9d629358aa30218cd37002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 20/41] fix: error_norm of complex covariances uses squared
 moduli

sum(error**2) vanishes for non-zero complex errors such as diag(1, 1j).
---
 robuststats/estimation/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 6fb5973..809670c 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -414,8 +414,18 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
 
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        # the base class sums error**2, which is not the squared modulus
+        error = comp_cov - self.covariance_
+        if norm == "frobenius":
+            squared_norm = np.sum(np.abs(error)**2)
+        elif norm == "spectral":
+            squared_norm = np.amax(linalg.svdvals(error))**2
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented")
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        return squared_norm if squared else np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0


From 951be6b38a37b0d639be56d8fc34108361acc40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 21/41] fix: score and mahalanobis of complex estimators

The inherited versions only handle real data and raised for every complex
estimator.
---
 robuststats/estimation/base.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 809670c..a5a6fdc 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -427,6 +427,22 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
             squared_norm = squared_norm / error.shape[0]
         return squared_norm if squared else np.sqrt(squared_norm)
 
+    def score(self, X_test, y=None):
+        """Mean log-likelihood of X_test under the complex circular Gaussian
+        model with the fitted location and covariance."""
+        X_test = self._validate_data(X_test, reset=False)
+        test_cov = complex_empirical_covariance(
+            X_test - self.location_, assume_centered=True)
+        precision = self.get_precision()
+        _, logdet = np.linalg.slogdet(precision)
+        return logdet - np.real(np.sum(precision*test_cov.T)) -\
+            X_test.shape[1]*np.log(np.pi)
+
+    def mahalanobis(self, X):
+        """Squared Mahalanobis distances of the rows of X."""
+        X = self._validate_data(X, reset=False) - self.location_
+        return np.real(np.sum(X.conj() * (X @ self.get_precision().T), axis=1))
+
 
 # -----------------------------------------------------------------------
 # Covariance/Scale classes
-- 
2.43.0


From 66829d03ac243ca24bbaed4446116f8d890523c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 22/41] fix: online estimator stores its parameters under their
 own names

get_params, clone and repr raised AttributeError.
---
 robuststats/online/estimation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..5370577 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -19,21 +19,21 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                        estimatetocov=None,
                        cost=None, verbosity=False):
         super().__init__()
-        self._manifold = manifold
-        self._rgrad = rgrad
-        self.lrate_ = lrate
-        self._cost = cost
-        self._verbosity = verbosity
-        self._estimatetocov = estimatetocov
+        self.manifold = manifold
+        self.rgrad = rgrad
+        self.lrate = lrate
+        self.cost = cost
+        self.verbosity = verbosity
+        self.estimatetocov = estimatetocov
 
         self._iteration = 0
         self.estimate_ = None
 
     def _estimate_to_cov(self, estimate):
-        if self._estimatetocov is None:
+        if self.estimatetocov is None:
             return estimate
         else:
-            return self._estimatetocov(estimate)
+            return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
         self.estimate_ = estimate
@@ -42,9 +42,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-            return self.lrate_/(iteration+1)
+            return self.lrate/(iteration+1)
         else:
-            return self.lrate_
+            return self.lrate
 
     def update(self, X, lr_update):
 
@@ -55,7 +55,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         # TODO: constant step + geodesic between past two iterations
-        nabla = self._rgrad(X, self.estimate_)
+        nabla = self.rgrad(X, self.estimate_)
         t = self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
@@ -64,7 +64,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         else:
             t_nabla = t*nabla
 
-        estimate = self._manifold.retr(self.estimate_, t_nabla)
+        estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
         return self
 
@@ -78,16 +78,16 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         n_samples, n_features = X.shape
-        if self._verbosity:
+        if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
         for iteration in range(n_samples):
             self.update(X[iteration, :].reshape((1, n_features)), lr_update)
 
-            if self._verbosity:
+            if self.verbosity:
                 pbar_v.update()
-                if self._cost is not None:
-                    cost = self._cost(X, self.estimate_)
+                if self.cost is not None:
+                    cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
             self._iteration += 1
-- 
2.43.0


From b44cc0c9ae15ad8b85a6381c087225628e2cbab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 23/41] fix: online fit starts its step schedule anew and
 refuses a missing init

A second fit went on with the step sizes of the first one, and fit without
init raised from check_array instead of logging the documented error.
---
 robuststats/online/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 5370577..f49e757 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -70,12 +70,13 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
-        self.set_estimate(init)
-        if self.estimate_ is None:
+        if init is None:
             logging.error(
              "Estimator not initilaized. Please provide an initial point."
             )
             return self
+        self.set_estimate(init)
+        self._iteration = 0
 
         n_samples, n_features = X.shape
         if self.verbosity:
-- 
2.43.0


From fb6c605ae0195ae91e290e3bf0bd5c818706fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 24/41] fix: online fit sets location_, needed by the inherited
 methods

---
 robuststats/online/estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index f49e757..53c937b 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -11,6 +11,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 
 from robuststats.estimation.base import ComplexEmpiricalCovariance
 import logging
+import numpy as np
 from tqdm import tqdm
 
 
@@ -79,6 +80,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         self._iteration = 0
 
         n_samples, n_features = X.shape
+        self.location_ = np.zeros(n_features, dtype=X.dtype)
         if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
-- 
2.43.0


From d1d21ba4a12657e4895cb38086b949e3769d988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 25/41] fix: densities of complex models with a complex mean
 and a real covariance

The parameters were mapped to dimension 2p but the data was not.
---
 robuststats/models/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..57cba55 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -71,7 +71,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
-    if np.iscomplexobj(cov):
+    if np.iscomplexobj(mean) or np.iscomplexobj(cov):
         if np.isrealobj(X):
             logging.warning(
                 "Input data is real while parameters are complex. "
-- 
2.43.0


From eea93c2f9552df7ebdfd748b99a45127a6d9ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 26/41] fix: complex distributions can be used with their
 default scale

cov=1 (shape=1) raised TypeError since len(1) is not defined.
---
 robuststats/models/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 57cba55..8fb530a 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -38,7 +38,9 @@ def _check_parameters_complex_normal(mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     if mean is None:
-        mean = np.zeros((len(cov),), dtype=cov.dtype)
+        cov = np.asarray(cov)
+        dim = len(cov) if cov.ndim > 0 else 1
+        mean = np.zeros((dim,), dtype=cov.dtype)
 
     if np.isrealobj(mean) and np.isrealobj(cov):
         return mean, cov
-- 
2.43.0


From 7edf7a34737cee9fc8f3f339a4e60f4024c59f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 27/41] fix: cdf and logcdf of the complex normal accept
 lower_limit

scipy's frozen logcdf passes it, so logcdf of a frozen complex normal always
raised TypeError.
---
 robuststats/models/probability.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 8fb530a..dc6e54b 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -106,11 +106,14 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
         return np.real(super(complex_multivariate_normal_frozen,
                              self).logpdf(x))
 
-    def cdf(self, x):
+    def cdf(self, x, *, lower_limit=None):
         x, _, _ = _check_parameters_array_complex_normal(
             x, self._mean_orig, self._cov_orig)
+        if lower_limit is not None:
+            lower_limit, _, _ = _check_parameters_array_complex_normal(
+                lower_limit, self._mean_orig, self._cov_orig)
         return np.real(super(complex_multivariate_normal_frozen,
-                             self).cdf(x))
+                             self).cdf(x, lower_limit=lower_limit))
 
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._mean_orig) or\
@@ -202,7 +205,7 @@ class complex_multivariate_normal_gen(multivariate_normal_gen):
                              self).pdf(x, mean, cov, allow_singular))
 
     def logcdf(self, x, mean=None, cov=1, allow_singular=False, maxpts=None,
-               abseps=1e-5, releps=1e-5):
+               abseps=1e-5, releps=1e-5, *, lower_limit=None):
         """Log of the multivariate normal cumulative distribution function.
         Parameters
         ----------
@@ -225,14 +228,18 @@ class complex_multivariate_normal_gen(multivariate_normal_gen):
         %(_mvn_doc_callparams_note)s
         .. versionadded:: 1.0.0
         """
+        if lower_limit is not None:
+            lower_limit, _, _ = _check_parameters_array_complex_normal(
+                lower_limit, mean, cov)
         x, mean, cov = _check_parameters_array_complex_normal(
             x, mean, cov)
         return np.real(super(complex_multivariate_normal_gen,
                              self).logcdf(x, mean, cov, allow_singular,
-                                          maxpts, abseps, releps))
+                                          maxpts, abseps, releps,
+                                          lower_limit=lower_limit))
 
     def cdf(self, x, mean=None, cov=1, allow_singular=False, maxpts=None,
-            abseps=1e-5, releps=1e-5):
+            abseps=1e-5, releps=1e-5, *, lower_limit=None):
         """Multivariate normal cumulative distribution function.
         Parameters
         ----------
@@ -255,11 +262,15 @@ class complex_multivariate_normal_gen(multivariate_normal_gen):
         %(_mvn_doc_callparams_note)s
         .. versionadded:: 1.0.0
         """
+        if lower_limit is not None:
+            lower_limit, _, _ = _check_parameters_array_complex_normal(
+                lower_limit, mean, cov)
         x, mean, cov = _check_parameters_array_complex_normal(
             x, mean, cov)
         return np.real(super(complex_multivariate_normal_gen,
                              self).cdf(x, mean, cov, allow_singular,
-                                       maxpts, abseps, releps))
+                                       maxpts, abseps, releps,
+                                       lower_limit=lower_limit))
 
     def rvs(self, mean=None, cov=1, size=1, random_state=None):
         """Draw random samples from a multivariate normal distribution.
-- 
2.43.0


From c965b1dcb05ef05ec6878e2c16531a0d22c98019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 28/41] fix: generic complex t distribution maps its parameters
 in every method

Only rvs did: logpdf, pdf, cdf and entropy of complex parameters were computed
from their real parts, and cdf of the frozen distribution raised.
---
 robuststats/models/probability.py | 41 +++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index dc6e54b..b2d5d63 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -335,6 +335,17 @@ class complex_multivariate_t_frozen(multivariate_t_frozen):
         return np.real(super(complex_multivariate_t_frozen,
                              self).logpdf(x))
 
+    def cdf(self, x, *, maxpts=None, lower_limit=None, random_state=None):
+        x, _, _ = _check_parameters_array_complex_normal(
+            x, self._loc_orig, self._shape_orig)
+        if lower_limit is not None:
+            lower_limit, _, _ = _check_parameters_array_complex_normal(
+                lower_limit, self._loc_orig, self._shape_orig)
+        return np.real(super(complex_multivariate_t_frozen,
+                             self).cdf(x, maxpts=maxpts,
+                                       lower_limit=lower_limit,
+                                       random_state=random_state))
+
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._loc_orig) or\
                      np.iscomplexobj(self._shape_orig)
@@ -386,6 +397,36 @@ class complex_multivariate_t_gen(multivariate_t_gen):
 
         return x
 
+    def logpdf(self, x, loc=None, shape=1, df=1):
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).logpdf(x, loc, shape, df))
+
+    def pdf(self, x, loc=None, shape=1, df=1, allow_singular=False):
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).pdf(x, loc, shape, df, allow_singular))
+
+    def cdf(self, x, loc=None, shape=1, df=1, allow_singular=False, *,
+            maxpts=None, lower_limit=None, random_state=None):
+        if lower_limit is not None:
+            lower_limit, _, _ = _check_parameters_array_complex_normal(
+                lower_limit, loc, shape)
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).cdf(x, loc, shape, df, allow_singular,
+                                       maxpts=maxpts,
+                                       lower_limit=lower_limit,
+                                       random_state=random_state))
+
+    def entropy(self, loc=None, shape=1, df=1):
+        loc, shape = _check_parameters_complex_normal(loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).entropy(loc, shape, df))
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From b6c176763addb40dfaed092e2495880d53f45bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 29/41] fix: unvech rebuilds the Hermitian matrix, not its
 conjugate

---
 robuststats/utils/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 0a13348..40baebb 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -179,7 +179,8 @@ def unvech(v):
     rows = int(np.round(rows))
 
     result = np.zeros((rows, rows), dtype=v.dtype)
-    result[np.triu_indices(rows)] = v
+    # vech lists the lower triangle
+    result[np.triu_indices(rows)] = np.conj(v)
     result = result + result.conj().T
 
     # divide diagonal elements by 2
-- 
2.43.0


From d3b7609ed4a4f53e79e1e9858dc0dae1e37409cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 30/41] fix: complex distributions draw samples of any size

rvs(size=(m, n)) raised since arraytocomplex only handles vectors and matrices.
---
 robuststats/models/probability.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index b2d5d63..b102200 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -16,7 +16,7 @@ from scipy.stats._multivariate import  multivariate_normal_gen,\
     multivariate_t_gen
 import numpy as np
 from .mappings import covariancetoreal,\
-    arraytoreal, arraytocomplex
+    arraytoreal
 
 
 def _check_parameters_complex_normal(mean, cov):
@@ -88,6 +88,13 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         return X, mean, cov
 
 
+def _samples_tocomplex(samples):
+    """Map real samples of any size (last axis of dimension 2p) to complex
+    samples."""
+    p = samples.shape[-1]//2
+    return samples[..., :p] + 1j*samples[..., p:]
+
+
 class complex_multivariate_normal_frozen(multivariate_normal_frozen):
     """ Frozen model of complex_multivariate_normal."""
 
@@ -119,7 +126,7 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
         is_complex = np.iscomplexobj(self._mean_orig) or\
                      np.iscomplexobj(self._cov_orig)
         if is_complex:
-            return arraytocomplex(super(complex_multivariate_normal_frozen,
+            return _samples_tocomplex(super(complex_multivariate_normal_frozen,
                                         self).rvs(size, random_state))
         else:
             return super(complex_multivariate_normal_frozen,
@@ -292,7 +299,7 @@ class complex_multivariate_normal_gen(multivariate_normal_gen):
         is_complex = np.iscomplexobj(mean) or np.iscomplexobj(cov)
         mean, cov = _check_parameters_complex_normal(mean, cov)
         if is_complex:
-            return arraytocomplex(super().rvs(mean, cov, size, random_state))
+            return _samples_tocomplex(super().rvs(mean, cov, size, random_state))
         else:
             return super(complex_multivariate_normal_gen,
                          self).rvs(mean, cov, size, random_state)
@@ -350,7 +357,7 @@ class complex_multivariate_t_frozen(multivariate_t_frozen):
         is_complex = np.iscomplexobj(self._loc_orig) or\
                      np.iscomplexobj(self._shape_orig)
         if is_complex:
-            return arraytocomplex(super(
+            return _samples_tocomplex(super(
                 complex_multivariate_t_frozen, self).rvs(size,
                                                          random_state))
         else:
@@ -447,7 +454,7 @@ class complex_multivariate_t_gen(multivariate_t_gen):
         is_complex = np.iscomplexobj(loc) or np.iscomplexobj(shape)
         loc, shape = _check_parameters_complex_normal(loc, shape)
         if is_complex:
-            return arraytocomplex(super(complex_multivariate_t_gen,
+            return _samples_tocomplex(super(complex_multivariate_t_gen,
                                         self).rvs(loc, shape, df, size,
                                                   random_state))
         else:
-- 
2.43.0


From 0de609c97b714489fc12318f9c8001133a986a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 31/41] fix: complex natural-gradient Tyler accepts a complex
 starting matrix

The data are mapped to their real representation, so a documented
(n_features, n_features) init has to be mapped too; it always failed.
---
 robuststats/estimation/covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index bfa82cc..dc88ae9 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -20,7 +20,8 @@ from sklearn.utils.validation import _deprecate_positional_args
 from sklearn.covariance import EmpiricalCovariance, empirical_covariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
                 RealEmpiricalCovariance
-from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex
+from ..models.mappings import arraytoreal, arraytocomplex, \
+    covariancetoreal, covariancetocomplex
 from ..models.manifolds import HermitianPositiveDefinite
 from ..models.cost import Tyler_cost_real, Tyler_cost_complex
 from ..models.probability import complex_multivariate_t
@@ -916,6 +917,8 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
         Always None. For compatibility purposes
     """
     X_real = arraytoreal(X)
+    if init is not None and len(init) == X.shape[1]:
+        init = covariancetoreal(np.asarray(init, dtype=complex))
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From a1cd91b64829a0ac4b52c809250478692f211e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:39 +0000
Subject: [PATCH 32/41] fix: refitting a natural-gradient Tyler estimator no
 longer fails

That method reports no iteration count (None), which the next call of fit
compared with zero.
---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index dc88ae9..b1bd91a 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -690,7 +690,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if (self.iteration_ is None or self.iteration_ > 0) and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self.set_method()(
@@ -1274,7 +1274,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if (self.iteration_ is None or self.iteration_ > 0) and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self.set_method()(
-- 
2.43.0


From 05a6ac39080e9091d1020e605bfe2e96643c9b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 33/41] fix: Tyler costs are differentiable at matrices with
 repeated eigenvalues

The derivative of eigh is undefined there, so the natural gradient failed from
the identity and from any real representation of a complex matrix.
---
 robuststats/models/cost.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..405653f 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -12,7 +12,6 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from ..utils.backend import get_be_autograd, get_be_la_autograd
-from ..utils.linalg import invsqrtm
 import logging
 
 def Tyler_cost_real(X, Q, autograd=False):
@@ -47,9 +46,7 @@ def Tyler_cost_real(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    
-    q = be.einsum('ij,ji->i', temp.T, temp)
+    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
     return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
 
 
@@ -86,6 +83,5 @@ def Tyler_cost_complex(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)
+    q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))
     return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
-- 
2.43.0


From bced2870006559d4dd59b90cf03d0d0c98a216a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 34/41] fix: KroneckerStudent refuses impossible sizes before
 changing its state

---
 robuststats/estimation/structured.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index e7d3e41..a5030de 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -381,16 +381,24 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self : object
         """
         X = self._validate_data(X)
+        n_features = X.shape[1]
+        if self.a*self.b != n_features:
+            raise AttributeError(
+                f"Matrice size incompatible ({self.a}*{self.b} != {n_features})"
+            )
+        if self.df <= 0:
+            raise AttributeError("Degrees of freedom cannot be less than or equal to 0.")
         if self.assume_centered:
-            self.location_ = np.zeros(X.shape[1])
+            location = np.zeros(n_features)
         else:
-            self.location_ = X.mean(0)
+            location = X.mean(0)
 
         # Using pymanopt solver to obtain estimate
         A, B = _estimate_covariance_kronecker_t_gradient(
-            X, self.df, self.a, self.b, self.manifold, self.location_,
+            X, self.df, self.a, self.b, self.manifold, location,
             self.verbosity, init
         )
+        self.location_ = location
         self.A_ = A
         self.B_ = B
         self._set_covariance(np.kron(A, B))
-- 
2.43.0


From 3e72f93f2fcc75fd001d775db8e53daf4261e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 35/41] fix: feature arrays keep the sample axis when indexed
 by a numpy integer

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index a5a6fdc..2033e42 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -74,7 +74,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if isinstance(key, (int, np.integer)):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
-- 
2.43.0


From 4ea287f080f1b08c7865fdf156543f5784708970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 36/41] fix: RealCovarianceScale.fit accepts the labels that
 fit_transform passes

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 2033e42..156b2ae 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -464,6 +464,6 @@ class RealCovarianceScale(RealEmpiricalCovariance):
     def transform(self, X):
         return [self.covariance_, self.scale_]
     
-    def fit(self, X):
+    def fit(self, X, y=None):
         raise NotImplementedError("No fit method available.")
         
\ No newline at end of file
-- 
2.43.0


From 002d799dafdb66c697055057cfd144101c4212db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:09 +0000
Subject: [PATCH 37/41] fix: arraytocomplex refuses inputs with an odd number
 of features

---
 robuststats/models/mappings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 379f51f..0739318 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -61,13 +61,14 @@ def arraytocomplex(a):
     Raises
     ------
     AttributeError
-        when input array format is not of dimension 1 or 2.
+        when input array format is not of dimension 1 or 2 or its last
+        dimension is not even.
     """
     if not np.iscomplexobj(a):
-        if a.ndim == 1:
+        if a.ndim == 1 and len(a) % 2 == 0:
             p = int(len(a)/2)
             return a[:p] + 1j*a[p:]
-        elif a.ndim == 2:
+        elif a.ndim == 2 and a.shape[1] % 2 == 0:
             p = int(a.shape[1]/2)
             return np.vstack(a[:, :p] + 1j*a[:, p:])
         else:
-- 
2.43.0


From 8ca7b94d2fb7b42b6abf8fa042467f1be1544957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:01 +0000
Subject: [PATCH 38/41] fix: complex distributions accept scalar, diagonal and
 list parameters

---
 robuststats/models/probability.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index b102200..b3750c0 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -38,15 +38,18 @@ def _check_parameters_complex_normal(mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     if mean is None:
-        cov = np.asarray(cov)
-        dim = len(cov) if cov.ndim > 0 else 1
-        mean = np.zeros((dim,), dtype=cov.dtype)
+        mean = np.zeros((len(cov) if np.ndim(cov) > 0 else 1,))
 
-    if np.isrealobj(mean) and np.isrealobj(cov):
+    if not (np.iscomplexobj(mean) or np.iscomplexobj(cov)):
         return mean, cov
-    else:
-        return arraytoreal(mean.astype(complex)),\
-                covariancetoreal(cov.astype(complex))
+
+    cov = np.asarray(cov, dtype=complex)
+    mean = np.atleast_1d(np.asarray(mean, dtype=complex))
+    if cov.ndim == 0:
+        cov = cov*np.eye(len(mean))
+    elif cov.ndim == 1:
+        cov = np.diag(cov)
+    return arraytoreal(mean), covariancetoreal(cov)
 
 
 def _check_parameters_array_complex_normal(X, mean, cov):
@@ -78,7 +81,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
             logging.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
-        return arraytoreal(X.astype(complex)), mean_map, cov_map
+        return arraytoreal(np.asarray(X, dtype=complex)), mean_map, cov_map
     elif np.iscomplexobj(X) and np.isrealobj(cov):
         logging.warning(
             "Input data is complex while parameters of model are not."
-- 
2.43.0


From dc705300df658c594253143ec6cf8f4e8557c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:37 +0000
Subject: [PATCH 39/41] fix: Kronecker elliptical randvec has unit norm in the
 elliptical metric

---
 robuststats/models/manifolds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index fcd784f..03cab6c 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -487,3 +487,7 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
         t = np.real(t) / (self._weights[1] + beta*self._b)
         grad_B = grad_B - beta * t.reshape(t.shape + (1, 1)) * theta[1]
         return _ProductTangentVector([grad_A, grad_B])
+
+    def randvec(self, theta):
+        u = super().randvec(theta)
+        return (1/self.norm(theta, u)) * u
-- 
2.43.0


From c0664fb4a49b23583e768a988db574c58fc8dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 40/41] fix: Kronecker elliptical dist is the geodesic distance
 of the elliptical metric

---
 robuststats/models/manifolds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 03cab6c..7f7b09f 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -491,3 +491,6 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
     def randvec(self, theta):
         u = super().randvec(theta)
         return (1/self.norm(theta, u)) * u
+
+    def dist(self, theta_1, theta_2):
+        return self.norm(theta_1, self.log(theta_1, theta_2))
-- 
2.43.0


From 595910107dc11cc0daa3125a152187247b8b62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:39 +0000
Subject: [PATCH 41/41] fix: KroneckerStudent.score is the log-likelihood under
 the fitted model

---
 robuststats/estimation/structured.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index a5030de..41c3957 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -423,15 +423,10 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
-        # compute log likelihood
+        # compute log likelihood of the test set under the fitted model
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
+        res = -cost_function(self.A_, self.B_)
 
         return res
-- 
2.43.0

