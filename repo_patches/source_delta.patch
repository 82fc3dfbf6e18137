From 4185aace45466806b533ffdf22791abbb36ea812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 01/30] fix: pass one-dimensional starting points to
 scipy.optimize.minimize

maximin_design, zonotope_minimize and unbounded_minimize handed over 2-d
starting points, which supported scipy versions (>= 1.11) refuse, so that every
call failed. The drawn numbers and their order are unchanged.
---
 active_subspaces/optimizers.py    | 4 ++--
 active_subspaces/utils/designs.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index d91df65..1d0cd1c 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -331,7 +331,7 @@ def zonotope_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -387,7 +387,7 @@ def unbounded_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 8430b28..7bd0fb1 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -74,7 +74,7 @@ def maximin_design(vert, N):
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N, n))
+        y0 = np.random.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
-- 
2.43.0


From 949b72b2c38462c527b8aafa08401053a24f5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 02/30] fix: take the maximum of two scalars in the RBF shape
 objective

A 1-by-1 array next to a float is a ragged sequence, which numpy >= 1.24
refuses, so that RadialBasisApproximation.train always failed.
---
 active_subspaces/utils/response_surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index b720b5d..fb1abbc 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -381,7 +381,7 @@ def _rbf_objective(log10g, X, f, v, N, e):
     res = f - np.dot(B, beta)
 
     # variance
-    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))/M, 5*np.finfo(float).eps])
+    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))[0,0]/M, 5*np.finfo(float).eps])
     
 
     r = np.sum(np.log(np.diag(L))) + M*np.log(sig2)
-- 
2.43.0


From 3e591b7f5e46a0eb9ad7df407b5307ad9d2aa6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 03/30] fix: look at the smallest input when QPHD picks its
 second moment

np.amin itself was compared with -1.0: never true on Python 2 (so that inputs
below -1 with none above 1 were taken for uniform), a TypeError on Python 3.
---
 active_subspaces/subspaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 2cdfe70..002cab3 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -273,7 +273,7 @@ def qphd_subspace(X, f, weights):
     X, f, M, m = process_inputs_outputs(X, f)
     
     # check if the points are uniform or Gaussian, set 2nd moment
-    if np.amax(X) > 1.0 or np.amin < -1.0:
+    if np.amax(X) > 1.0 or np.amin(X) < -1.0:
         gamma = 1.0
     else:
         gamma = 1.0 / 3.0
-- 
2.43.0


From e009bf042ad5d789021ecd6e4436db0e27ff9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 04/30] fix: return random walk samples as rows

reshape of the (m-n)-by-N array mixed coordinates of different samples, so that
the returned points left the polytope.
---
 active_subspaces/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index fda1fe8..76f015b 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -741,7 +741,7 @@ def random_walk_z(N, y, W1, W2):
             z0 = zc
         Z[:,i] = z0.reshape((z0.shape[0], ))
 
-    return Z.reshape((N, m-n))
+    return Z.transpose().reshape((N, m-n))
 
 def _rotate_x(Y, Z, W):
     """A convenience function for rotating subspace coordinates to x space.
-- 
2.43.0


From c4d2c6b03658c54556ad7cd1dc246f4a61e0b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 05/30] fix: leave Subspaces as it was when compute fails

A compute() that raised (bad partition type, no bootstrap for 'RS' and 'LI')
had already replaced the eigenpairs, so that W1 and W2 no longer were columns
of eigenvecs.
---
 active_subspaces/subspaces.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 002cab3..87fb268 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -131,8 +131,6 @@ class Subspaces():
             ssmethod = None
             raise Exception('Unrecognized subspace type: {}'.format(sstype))
         
-        self.eigenvals, self.eigenvecs = e, W    
-        
         # Compute bootstrap ranges and partition
         if nboot > 0:
             e_br, sub_br, li_F = _bootstrap_ranges(e, W, X, f, df, weights, ssmethod, nboot)
@@ -142,8 +140,6 @@ class Subspaces():
             
             e_br, sub_br = None, None
             
-        self.e_br, self.sub_br = e_br, sub_br
-        
         # Compute the partition
         if ptype == 'EVG':
             n = eig_partition(e)[0]
@@ -155,6 +151,9 @@ class Subspaces():
         else:
             raise Exception('Unrecognized partition type: {}'.format(ptype))
         
+        # store everything only now, so that a failed call leaves the object as it was
+        self.eigenvals, self.eigenvecs = e, W
+        self.e_br, self.sub_br = e_br, sub_br
         self.partition(n)
 
 
-- 
2.43.0


From b733e6528555519247d4503fd1dfc69d8452f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 06/30] fix: refresh the dimensions in
 BoundedActiveVariableDomain.compute_boundary

After a new partition, compute_boundary() updated the vertices but left m and n.
---
 active_subspaces/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 76f015b..cebcdd7 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -110,6 +110,7 @@ class BoundedActiveVariableDomain(ActiveVariableDomain):
         """
         W1 = self.subspaces.W1
         m, n = W1.shape
+        self.m, self.n = m, n
 
         if n == 1:
             Y, X = interval_endpoints(W1)
-- 
2.43.0


From 7adb5e3900bc3cab1c5139df9d790a812be623ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 07/30] fix: return corners of the hypercube from
 interval_endpoints

Where a component of the eigenvector is zero, the 'corner' had a zero.
---
 active_subspaces/domains.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index cebcdd7..db0c140 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -390,13 +390,15 @@ def interval_endpoints(W1):
     """
 
     m = W1.shape[0]
-    y0 = np.dot(W1.T, np.sign(W1))[0]
+    s = np.sign(W1)
+    s[s==0] = 1
+    y0 = np.dot(W1.T, s)[0]
     if y0 < -y0:
         yl, yu = y0, -y0
-        xl, xu = np.sign(W1), -np.sign(W1)
+        xl, xu = s, -s
     else:
         yl, yu = -y0, y0
-        xl, xu = -np.sign(W1), np.sign(W1)
+        xl, xu = -s, s
     Y = np.array([yl, yu]).reshape((2,1))
     X = np.vstack((xl.reshape((1, m)), xu.reshape((1, m))))
     return Y, X
-- 
2.43.0


From b03d74048e751bfe4129f28993166c60abeda896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 08/30] fix: let every constraint bound the hit and run step

Constraints that the current point (nearly) touches were left out, so that the
next step could go right through them and out of the hypercube.
---
 active_subspaces/domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index db0c140..05af4ab 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -602,14 +602,14 @@ def hit_and_run_z(N, y, W1, W2):
                 return Z
 
         # find constraints that impose lower and upper bounds on eps
-        f, g = b - np.dot(A,z0), np.dot(A, d)
+        f, g = np.minimum(b - np.dot(A,z0), 0.0), np.dot(A, d)
 
         # find an upper bound on the step
-        min_ind = np.logical_and(g<=0, f < -np.sqrt(np.finfo(np.float).eps))
+        min_ind = g < 0
         eps_max = np.amin(f[min_ind]/g[min_ind])
 
         # find a lower bound on the step
-        max_ind = np.logical_and(g>0, f < -np.sqrt(np.finfo(np.float).eps))
+        max_ind = g > 0
         eps_min = np.amax(f[max_ind]/g[max_ind])
 
         # randomly sample eps
-- 
2.43.0


From ddaa52bd3b9e2f8a0079962e6c597658b4113924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 09/30] fix: keep the maximin design inside polytopes that are
 not symmetric

ConvexHull gives A x + b <= 0 inside; the constraint was A x - b >= 0, which is
the polytope mirrored at the origin.
---
 active_subspaces/utils/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 7bd0fb1..52cca98 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -63,8 +63,8 @@ def maximin_design(vert, N):
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
     cons = ({'type':'ineq',
-                'fun' : lambda x: np.dot(A, x) - b,
-                'jac' : lambda x: A})
+                'fun' : lambda x: -np.dot(A, x) - b,
+                'jac' : lambda x: -A})
 
     # some tricks for the globalization
     curr_state = np.random.get_state()
-- 
2.43.0


From e6152dc292437d479e6f33682c911679479d440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 10/30] fix: minimize the quadratic in UnboundedMinVariableMap

The stationary point of c^T z + 0.5 z^T Q z is -Q^{-1} c, not Q^{-1} c.
---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 1d0cd1c..79c5259 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -160,7 +160,7 @@ class UnboundedMinVariableMap(MinVariableMap):
         Zlist = []
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
-            z = np.linalg.solve(self._zAz, c)
+            z = -np.linalg.solve(self._zAz, c)
             Zlist.append(z)
         return np.array(Zlist).reshape((NY, m-n, N))
 
-- 
2.43.0


From 74db2b5b8824d6169e330b899f158c57d4cb61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 11/30] fix: minimize the trained quadratic in
 BoundedMinVariableMap

_zAz is a Hessian, and the QP solver's objective is c^T x + x^T Q x.
---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 79c5259..33e9227 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -113,7 +113,7 @@ class BoundedMinVariableMap(MinVariableMap):
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
                 ))
-            z = qps.quadratic_program_ineq(c, self._zAz, A_ineq, b_ineq)
+            z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
         return Z
-- 
2.43.0


From ebf16ac23a310df369973a7f0a4c716b41fb64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 12/30] fix: use the nearest neighbors in
 local_linear_gradients

The mask in the original order was applied to the sorted indices, which dropped
an arbitrary neighbor and kept the point itself; and p=M (the default for few
samples) failed since there are only M-1 neighbors.
---
 active_subspaces/gradients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index a137f70..d1c1ff8 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -55,9 +55,9 @@ def local_linear_gradients(X, f, p=None, weights=None):
         x = X[ii,:]
         D2 = np.sum((X - x)**2, axis=1)
         ind = np.argsort(D2)
-        ind = ind[D2 != 0]
-        A = np.hstack((np.ones((p,1)), X[ind[:p],:])) * np.sqrt(weights[ii])
-        b = f[ind[:p]] * np.sqrt(weights[ii])
+        ind = ind[D2[ind] != 0][:p]
+        A = np.hstack((np.ones((ind.size,1)), X[ind,:])) * np.sqrt(weights[ii])
+        b = f[ind] * np.sqrt(weights[ii])
         u = np.linalg.lstsq(A, b)[0]
         df[i,:] = u[1:].T
     return df
-- 
2.43.0


From 80320c341c5c89edce2ede0bd9e3a03ac1d8105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 13/30] fix: weight the squared residuals in
 PolynomialApproximation.train

The weights multiplied the residuals, so that their squares were used; compare
ols_subspace. Also store the given outputs in f, not the weighted ones.
---
 active_subspaces/utils/response_surfaces.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index fb1abbc..d140ba6 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -99,11 +99,12 @@ class PolynomialApproximation(ResponseSurface):
 
         B, indices = polynomial_bases(X,  self.N)
         p = B.shape[1]
+        Bw, fw = B, f
         if weights is not None:
-            B, f = weights*B, weights*f
+            Bw, fw = np.sqrt(weights)*B, np.sqrt(weights)*f
 
-        poly_weights = np.linalg.lstsq(B, f)[0]
-        Rsqr = 1.0 - ( np.linalg.norm(np.dot(B, poly_weights) - f)**2 / (M*np.var(f)) )
+        poly_weights = np.linalg.lstsq(Bw, fw)[0]
+        Rsqr = 1.0 - ( np.linalg.norm(np.dot(Bw, poly_weights) - fw)**2 / (M*np.var(fw)) )
 
         # store data
         self.X, self.f = X, f
-- 
2.43.0


From 0e9f5136217d73b7bc55af627f17f39cbe996b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 14/30] fix: ensure conditioning in the RBF shape objective as
 in train

Without noise (a function of the active variables only), the Cholesky
factorization failed during the search for the shape parameter.
---
 active_subspaces/utils/response_surfaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index d140ba6..17286f9 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -367,6 +367,9 @@ def _rbf_objective(log10g, X, f, v, N, e):
         if v is None:
             v = g*np.sum(e[m:])*np.ones(f.shape)
 
+    # ensure conditioning
+    v = np.amax([v.reshape(f.shape), 1e-6*np.ones(f.shape)], axis=0)
+
     # covariance matrix
     K = exponential_squared(X, X, 1.0, ell)
     K += np.diag(v.reshape((M,)))
-- 
2.43.0


From 4926a1d016ffa4f01eeb3f4daa5876ad8ef090a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 15/30] fix: gradient of the quadratic programs for Q that is
 not symmetric

---
 active_subspaces/utils/qp_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 9ab00ca..c7d88ab 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -234,7 +234,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # make bounds
@@ -267,7 +267,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # inequality constraints
-- 
2.43.0


From 8395ddaf6938c79d2abbd3c47a10eb5597f5ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 16/30] fix: jacobi_matrix of two rows of recurrence
 coefficients

---
 active_subspaces/utils/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/active_subspaces/utils/quadrature.py b/active_subspaces/utils/quadrature.py
index 35a8ca4..471c6e3 100644
--- a/active_subspaces/utils/quadrature.py
+++ b/active_subspaces/utils/quadrature.py
@@ -137,6 +137,8 @@ def jacobi_matrix(ab):
     else:
         J = np.zeros((n, n))
         J[0,0] = ab[0,0]
+        if n == 1:
+            return J
         J[0,1] = np.sqrt(ab[1,1])
         for i in range(1,n-1):
             J[i,i] = ab[i,0]
-- 
2.43.0


From f31951e9a57a5235f81fff0968b3044fee8aaae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 17/30] fix: leave numpy's random state alone when a
 minimization fails

The global generator was seeded for the starting points and restored only after
success. A generator of their own gives the same points.
---
 active_subspaces/optimizers.py    | 12 ++++--------
 active_subspaces/utils/designs.py |  7 ++-----
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 33e9227..6a577e8 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -326,12 +326,11 @@ def zonotope_minimize(avfun, avdom, avdfun):
     opts = {'disp':False, 'maxiter':1e4, 'ftol':1e-9}
 
     # a bit of globalization
-    curr_state = np.random.get_state()
-    np.random.seed(42)
+    rng = np.random.RandomState(42)
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(n, ))
+        y0 = rng.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -341,7 +340,6 @@ def zonotope_minimize(avfun, avdom, avdfun):
             minf = result.fun
             minres = result
 
-    np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
 
@@ -382,18 +380,16 @@ def unbounded_minimize(avfun, avdom, avdfun):
         method = 'BFGS'
 
     # some tricks for globalization
-    curr_state = np.random.get_state()
-    np.random.seed(42)
+    rng = np.random.RandomState(42)
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(n, ))
+        y0 = rng.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
         if result.fun < minf:
             minf = result.fun
             minres = result
-    np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 52cca98..b94de2b 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -67,14 +67,12 @@ def maximin_design(vert, N):
                 'jac' : lambda x: -A})
 
     # some tricks for the globalization
-    curr_state = np.random.get_state()
-
-    np.random.seed(42)
+    rng = np.random.RandomState(42)
     minf = 1e10
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N*n, ))
+        y0 = rng.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
@@ -83,7 +81,6 @@ def maximin_design(vert, N):
             minf = res.fun
             minres = res
 
-    np.random.set_state(curr_state)
     design = minres.x.reshape((N, n))
     return design
 
-- 
2.43.0


From e97eb99fadee4104082543461a371aa05333404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 18/30] fix: name the dump of a failed program without drawing
 from numpy's global generator

---
 active_subspaces/utils/qp_solver.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index c7d88ab..5d61af7 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -201,7 +201,7 @@ def _scipy_linear_program_eq(c, A, b, lb, ub):
     if res.success:
         return res.x.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_lp_eq_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_scipy_lp_eq_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, A=A, b=b, lb=lb, ub=ub, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
@@ -221,7 +221,7 @@ def _scipy_linear_program_ineq(c, A, b):
     if res.success:
         return res.x.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_lp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_scipy_lp_ineq_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, A=A, b=b, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
@@ -252,7 +252,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
             xstar = np.array([[xstar]])
         return xstar.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_qp_bnd_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_scipy_qp_bnd_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, Q=Q, lb=lb, ub=ub, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
@@ -285,7 +285,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
             xstar = np.array([[xstar]])
         return xstar.reshape((c.size,1))
     else:
-        np.savez('bad_scipy_qp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_scipy_qp_ineq_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, Q=Q, A=A, b=b, res=res)
         raise Exception('Scipy did not solve the LP. Blame Scipy.')
         return None
@@ -322,7 +322,7 @@ def _gurobi_linear_program_eq(c, A, b, lb, ub):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_lp_eq_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_gurobi_lp_eq_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, A=A, b=b, lb=lb, ub=ub, model=model)
         raise Exception('Gurobi did not solve the LP. Blame Gurobi.')
         return None
@@ -361,7 +361,7 @@ def _gurobi_linear_program_ineq(c, A, b):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_lp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_gurobi_lp_ineq_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, A=A, b=b, model=model)
         raise Exception('Gurobi did not solve the LP. Blame Gurobi.')
         return None
@@ -395,7 +395,7 @@ def _gurobi_quadratic_program_bnd(c, Q, lb, ub):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_qp_bnd_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_gurobi_qp_bnd_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, Q=Q, lb=lb, ub=ub, model=model)
         raise Exception('Gurobi did not solve the QP. Blame Gurobi.')
         return None
@@ -437,7 +437,7 @@ def _gurobi_quadratic_program_ineq(c, Q, A, b):
     if model.status == gpy.GRB.OPTIMAL:
         return np.array(model.getAttr('x', vars)).reshape((n,1))
     else:
-        np.savez('bad_gurobi_qp_ineq_{:010d}'.format(np.random.randint(int(1e9))),
+        np.savez('bad_gurobi_qp_ineq_{:010d}'.format(np.random.RandomState().randint(int(1e9))),
                 c=c, Q=Q, A=A, b=b, model=model)
         raise Exception('Gurobi did not solve the QP. Blame Gurobi.')
         return None
-- 
2.43.0


From 8844488d5e74c3a9eeacd732b83572d6f742f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 19/30] fix: points per dimension when N is an exact power

---
 active_subspaces/integrals.py         | 2 +-
 active_subspaces/response_surfaces.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/integrals.py b/active_subspaces/integrals.py
index 9c23709..bea336e 100644
--- a/active_subspaces/integrals.py
+++ b/active_subspaces/integrals.py
@@ -201,7 +201,7 @@ def av_quadrature_rule(avmap, N):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.power(N, 1.0/n) + 1e-10)) for i in range(n)]
         Yp, Yw = gq.gauss_hermite(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
diff --git a/active_subspaces/response_surfaces.py b/active_subspaces/response_surfaces.py
index b7e3e56..5a44839 100644
--- a/active_subspaces/response_surfaces.py
+++ b/active_subspaces/response_surfaces.py
@@ -279,7 +279,7 @@ def av_design(avmap, N, NMC=10):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.power(N, 1.0/n) + 1e-10)) for i in range(n)]
         Y = dn.gauss_hermite_design(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
-- 
2.43.0


From 0ea82dc2f5531df3f6d7744460715bb905434f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 20/30] fix: allow for rounding in the minimizing map on the
 boundary of the domain

---
 active_subspaces/optimizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 6a577e8..3230384 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -113,6 +113,8 @@ class BoundedMinVariableMap(MinVariableMap):
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
                 ))
+            # points on the boundary of the domain are only there up to rounding
+            b_ineq -= 1e-8
             z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
-- 
2.43.0


From 173a72ec51bdcc17b0c6c5a8f5746c5240859d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 21/30] fix: a failed start of the multistart minimization does
 not discard the others

---
 active_subspaces/optimizers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 3230384..51c081a 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -336,12 +336,13 @@ def zonotope_minimize(avfun, avdom, avdfun):
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
-        if not result.success:
-            raise Exception('SLSQP failed with message: {}.'.format(result.message))
-        if result.fun < minf:
+        if result.success and result.fun < minf:
             minf = result.fun
             minres = result
 
+    # a failed start does not matter when another one succeeded
+    if not minres:
+        raise Exception('SLSQP failed with message: {}.'.format(result.message))
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
 
@@ -388,10 +389,12 @@ def unbounded_minimize(avfun, avdom, avdfun):
     for i in range(10):
         y0 = rng.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
-        if not result.success:
-            raise Exception('{} failed with message: {}.'.format(method, result.message))
-        if result.fun < minf:
+        if result.success and result.fun < minf:
             minf = result.fun
             minres = result
+
+    # a failed start does not matter when another one succeeded
+    if not minres:
+        raise Exception('{} failed with message: {}.'.format(method, result.message))
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
-- 
2.43.0


From 9528c745eccb830866be711aebb6603b31f49877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 22/30] fix: unique_rows of arrays that are not contiguous

---
 active_subspaces/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 05af4ab..083cbdf 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -420,6 +420,7 @@ def unique_rows(S):
     -----
     http://stackoverflow.com/questions/16970982/find-unique-rows-in-numpy-array
     """
+    S = np.ascontiguousarray(S)
     T = S.view(np.dtype((np.void, S.dtype.itemsize * S.shape[1])))
     return np.unique(T).view(S.dtype).reshape(-1, S.shape[1])
 
-- 
2.43.0


From 67584f68587bf2b32d823262b8db55a7d4764692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:04 +0000
Subject: [PATCH 23/30] fix: a failed start does not discard the other maximin
 designs

---
 active_subspaces/utils/designs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index b94de2b..75d81c7 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -75,12 +75,14 @@ def maximin_design(vert, N):
         y0 = rng.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
-        if not res.success:
-            raise Exception('SLSQP failed with message: {}.'.format(res.message))
-        if res.fun < minf:
+        if res.success and res.fun < minf:
             minf = res.fun
             minres = res
 
+    # a failed start does not matter when another one succeeded
+    if not minres:
+        raise Exception('SLSQP failed with message: {}.'.format(res.message))
+
     design = minres.x.reshape((N, n))
     return design
 
-- 
2.43.0


From 03e59bd757a6cdbdfd7cc0d29233a065b92869b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 24/30] fix: start the maximin design inside the polytope,
 scaled to fit the tolerances

---
 active_subspaces/utils/designs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 75d81c7..b25829a 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -58,7 +58,13 @@ def maximin_design(vert, N):
     increase robustness, we use three random starting points in the
     minimization and use the design with the lowest objective value.
     """
-    n = vert.shape[1]
+    M, n = vert.shape
+
+    # center and scale the polytope to fit the tolerances of the optimization
+    c = np.mean(vert, axis=0)
+    s = np.std(vert - c)
+    vert = (vert - c) / s
+
     C = ConvexHull(vert)
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
@@ -72,7 +78,9 @@ def maximin_design(vert, N):
     minres = []
 
     for i in range(3):
-        y0 = rng.normal(size=(N*n, ))
+        # start inside the polytope
+        w = rng.normal(size=(N, M))**2
+        y0 = np.dot(w / np.sum(w, axis=1).reshape((N, 1)), vert).reshape((N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if res.success and res.fun < minf:
@@ -83,7 +91,7 @@ def maximin_design(vert, N):
     if not minres:
         raise Exception('SLSQP failed with message: {}.'.format(res.message))
 
-    design = minres.x.reshape((N, n))
+    design = c + s*minres.x.reshape((N, n))
     return design
 
 def gauss_hermite_design(N):
-- 
2.43.0


From c2f3f0a8f102b5183d5a238951b2b62095657ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 25/30] fix: draw scatter plots in the axes that are shown, not
 below new empty ones

---
 active_subspaces/utils/plotters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 4c04d1b..3edc021 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -382,7 +382,7 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
         ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
         plt.axis([ymin, ymax, ymin, ymax])
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.grid(True)
         plt.title(out_label)
         plt.colorbar()
@@ -472,7 +472,7 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
 
     if y is not None:
         plt.scatter(y[:,0], y[:,1], c=f, s=100.0, vmin=np.min(f), vmax=np.max(f))
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.title(out_label)
         plt.colorbar()
 
-- 
2.43.0


From 552be4839af28b17e43dcdfac4cb01899f9d96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 26/30] fix: keep points of one sign inside the limits of the
 plots

---
 active_subspaces/utils/plotters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 3edc021..3654e9e 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -379,8 +379,9 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         plt.scatter(y1, y2, c=f, s=150.0, vmin=np.min(f), vmax=np.max(f))
         plt.xlabel('Active variable 1')
         plt.ylabel('Active variable 2')
-        ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
-        ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
+        ymin = np.amin([np.amin(y1), np.amin(y2)])
+        ymax = np.amax([np.amax(y1), np.amax(y2)])
+        ymin, ymax = ymin - 0.1*np.abs(ymin), ymax + 0.1*np.abs(ymax)
         plt.axis([ymin, ymax, ymin, ymax])
         plt.gca().set_aspect('equal')
         plt.grid(True)
@@ -476,7 +477,8 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
         plt.title(out_label)
         plt.colorbar()
 
-    plt.axis([1.1*xmin,1.1*xmax,1.1*xmin,1.1*xmax])
+    xmin, xmax = xmin - 0.1*np.abs(xmin), xmax + 0.1*np.abs(xmax)
+    plt.axis([xmin, xmax, xmin, xmax])
     plt.xlabel('Active variable 1')
     plt.ylabel('Active variable 2')
     show_plot(plt)
-- 
2.43.0


From 65f8c459ebf72639238e12e5029fb461523a7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:41 +0000
Subject: [PATCH 27/30] fix: save the zonotope plot before show discards it

---
 active_subspaces/utils/plotters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 3654e9e..22e86ce 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -481,10 +481,12 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
     plt.axis([xmin, xmax, xmin, xmax])
     plt.xlabel('Active variable 1')
     plt.ylabel('Active variable 2')
-    show_plot(plt)
+
     if opts['savefigs']:
         figname = 'figs/zonotope_2d_' + out_label + opts['figtype']
         plt.savefig(figname, dpi=300, bbox_inches='tight', pad_inches=0.0)
 
+    show_plot(plt)
+
 def show_plot(plot, opts=None):
     plot.show()
-- 
2.43.0


From d8a078d4e3863a010fdd23f5014cf9fe6b5ca6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 28/30] fix: bounded maps and their minimization without
 inactive variables

---
 active_subspaces/domains.py    | 3 +++
 active_subspaces/optimizers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 083cbdf..f4581dd 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -565,6 +565,9 @@ def hit_and_run_z(N, y, W1, W2):
     `domains.sample_z`.
     """
     m, n = W1.shape
+    # no inactive variables, nothing to sample
+    if m == n:
+        return np.zeros((N, 0))
 
     # get an initial feasible point using the Chebyshev center. huge props to
     # David Gleich for showing me the Chebyshev center.
diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 51c081a..8edaa1b 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -103,6 +103,9 @@ class BoundedMinVariableMap(MinVariableMap):
         W1, W2 = self.domain.subspaces.W1, self.domain.subspaces.W2
         m, n = W1.shape
         NY = Y.shape[0]
+        # no inactive variables, nothing to minimize over
+        if m == n:
+            return np.zeros((NY, 0, N))
         qps = QPSolver()
 
         Zlist = []
-- 
2.43.0


From ad516694b70e56cb02f05c804b149fe15de3b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 29/30] fix: borehole model of the tutorials accepts integer
 inputs

The unnormalized inputs were written into a copy of the caller's array, so
integer inputs were truncated to integers and the values became nan.
---
 tutorials/test_functions/borehole/borehole_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tutorials/test_functions/borehole/borehole_functions.py b/tutorials/test_functions/borehole/borehole_functions.py
index 2a6fa1a..1dcbad8 100644
--- a/tutorials/test_functions/borehole/borehole_functions.py
+++ b/tutorials/test_functions/borehole/borehole_functions.py
@@ -5,7 +5,7 @@ def borehole(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns column vector of borehole function at each row of inputs
     
-    x = xx.copy()
+    x = np.array(xx, dtype=float)
     x = np.atleast_2d(x)
     M = x.shape[0]
     
@@ -27,7 +27,7 @@ def borehole_grad(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns matrix whose ith row is gradient of borehole function at ith row of inputs
     
-    x = xx.copy()
+    x = np.array(xx, dtype=float)
     x = np.atleast_2d(x)
     M = x.shape[0]
     
-- 
2.43.0


From 23b2a325815d88013bc8efa3b664dec1b4784cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 30/30] Revert "fix: borehole model of the tutorials accepts
 integer inputs"

This reverts commit ad516694b70e56cb02f05c804b149fe15de3b1ab.
---
 tutorials/test_functions/borehole/borehole_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tutorials/test_functions/borehole/borehole_functions.py b/tutorials/test_functions/borehole/borehole_functions.py
index 1dcbad8..2a6fa1a 100644
--- a/tutorials/test_functions/borehole/borehole_functions.py
+++ b/tutorials/test_functions/borehole/borehole_functions.py
@@ -5,7 +5,7 @@ def borehole(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns column vector of borehole function at each row of inputs
     
-    x = np.array(xx, dtype=float)
+    x = xx.copy()
     x = np.atleast_2d(x)
     M = x.shape[0]
     
@@ -27,7 +27,7 @@ def borehole_grad(xx):
     #each row of xx should be [rw, r, Tu, Hu, Tl, Hl, L, Kw] in the normalized space
     #returns matrix whose ith row is gradient of borehole function at ith row of inputs
     
-    x = np.array(xx, dtype=float)
+    x = xx.copy()
     x = np.atleast_2d(x)
     M = x.shape[0]
     
-- 
2.43.0

