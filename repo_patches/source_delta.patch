From 8f98c72108347cf4ed655ec022b7662292260c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 01/49] fix: dropped vertices stay out of the Frank-Wolfe
 active set

Reading the defaultdict after the deletion put the vertex back with weight 0,
and the pairwise oracle could then pick it as away vertex with maximum step 0,
which stalled the solver for good.
---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..68dba7f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From 3b39ede31b2288b1aea18136e7623122b8e355f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 02/49] fix: minimize_frank_wolfe returns the documented
 success flag

---
 copt/frank_wolfe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 68dba7f..9f4f3b5 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -305,5 +305,6 @@ def minimize_frank_wolfe(
         f_t, grad = f_next, grad_next
     if callback is not None:
         callback(locals())
-    return optimize.OptimizeResult(x=x, nit=it, certificate=certificate,
+    return optimize.OptimizeResult(x=x, success=bool(certificate <= tol),
+                                   nit=it, certificate=certificate,
                                    active_set=active_set)
-- 
2.43.0


From 5200e5234d1892d94d3015b1cf678d73730b63b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 03/49] fix: simplex oracle returns a vertex of the simplex

With a non-positive largest entry of u it returned 0 or a negative multiple of
a unit vector. It also did not accept the active-set argument that the
Frank-Wolfe solvers pass.
---
 copt/constraint.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..8cf6034 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
-        """Return v - x, s solving the linear problem
-    max_{||v||_1 <= s, v >= 0} <u, v>
+    def lmo(self, u, x, active_set=None):
+        """Return v - x, v solving the linear problem
+    max_{sum(v) = s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -x.copy()
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From 4275297de8270d7915633bd93d855887eb612ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 04/49] fix: simplex projection of vectors that sum to the
 radius

np.alltrue was removed in NumPy 2.0.
---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 8cf6034..3248dcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -217,7 +217,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From ee9eac0d84885ee7ec3620f192f23906ad499a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 05/49] fix: L1-ball indicator accepts the ball's own
 projections

As in TraceBall, allow for rounding: about a quarter of the projections of
random points were declared infeasible.
---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 3248dcc..c044975 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -73,7 +73,7 @@ class L1Ball:
         self.alpha = alpha
 
     def __call__(self, x):
-        if np.abs(x).sum() <= self.alpha:
+        if np.abs(x).sum() <= self.alpha + np.finfo(np.float32).eps:
             return 0
         else:
             return np.inf
-- 
2.43.0


From c7341d97b2fd590b36c6c4eb9fa8f586d2a185a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 06/49] fix: integer and list start points in the deterministic
 solvers

minimize_proximal_gradient and minimize_primal_dual truncated every iterate to
integers when x0 was an integer array; lists and tuples raised TypeError.
---
 copt/proximal_gradient.py | 3 ++-
 copt/splitting.py         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..77bd260 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,8 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x0 = np.asarray(x0, dtype=float)
+    x = x0.flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..3e6705d 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -100,6 +100,7 @@ def minimize_three_split(
       International Conference on Machine Learning, 2018.
     """
     success = False
+    x0 = np.asarray(x0, dtype=float)
     if not max_iter_backtracking > 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
@@ -249,7 +250,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float, copy=True)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From c08e64223003f1939ac64f18a3d1531559003448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 07/49] fix: stochastic solvers accept integer start points and
 leave x0 alone

SAGA, SVRG and VRTOS truncated the iterates when x0 was an integer array, and
minimize_vrtos overwrote the caller's x0.
---
 copt/randomized.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..9526a14 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -305,7 +305,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -480,6 +480,7 @@ def minimize_vrtos(
 
     n_samples, n_features = A.shape
     success = False
+    x0 = np.array(x0, dtype=float)
 
     # FIXME: just a workaround for now
     # FIXME: check if prox_1 is a tuple
-- 
2.43.0


From 87f880452f33b5243f5e2f139599d441b9b45540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 08/49] fix: block weights cover blocks that no sample uses

The support matrix was built without a shape, so the weights stopped at the last
used block; VRTOS then read past their end when its two block structures differ.
---
 copt/randomized.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 9526a14..a19c0dd 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -160,7 +160,9 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -335,7 +337,9 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -580,13 +584,17 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr), shape=(n_samples, blocks_1.shape[0])
+    )
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr), shape=(n_samples, blocks_2.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From b09383dff47d9ce1080eb9c347677cf36013c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 09/49] fix: Hessian of the regularized logistic loss

The l2 term was divided by the number of samples.
---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index aa37694..626f333 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -125,7 +125,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
@@ -165,7 +165,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
-- 
2.43.0


From b6c4128e17e2750d94185edc818ebb3a8098c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 10/49] fix: accelerated proximal gradient certifies the point
 it returns

The certificate compared the previous iterate with a step from the new one; it
is accidentally small where the iterates turn around, and the solver then
reported success far from a solution.
---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 77bd260..5bb9cb4 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -221,7 +221,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -252,7 +252,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From 94b3fcc7e2b5c61c3c97e419c8e4d51746b2db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 11/49] fix: proximal gradient runs at most max_iter iterations

It ran max_iter + 1, and the warning about an exhausted budget after the
non-accelerated loop could never be reached.
---
 copt/proximal_gradient.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 5bb9cb4..c96812e 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -139,7 +139,7 @@ def minimize_proximal_gradient(
     # .. allows for infinite or floating point max_iter ..
     if not accelerated:
         fk, grad_fk = func_and_grad(x)
-        while True:
+        while n_iterations < max_iter:
             if callback is not None:
                 if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
                     break
@@ -187,10 +187,7 @@ def minimize_proximal_gradient(
                 success = True
                 break
 
-            if n_iterations >= max_iter:
-                break
-            else:
-                n_iterations += 1
+            n_iterations += 1
         else:
             warnings.warn(
                 "minimize_proximal_gradient did not reach the desired tolerance level",
@@ -201,7 +198,7 @@ def minimize_proximal_gradient(
         # .. a while loop instead of a for loop ..
         # .. allows for infinite or floating point max_iter ..
         yk = x.copy()
-        while True:
+        while n_iterations < max_iter:
             grad_fk = func_and_grad(yk)[1]
             if callback is not None:
                 if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
@@ -262,10 +259,7 @@ def minimize_proximal_gradient(
                 success = True
                 break
 
-            if n_iterations >= max_iter:
-                break
-            else:
-                n_iterations += 1
+            n_iterations += 1
 
         if n_iterations >= max_iter:
             warnings.warn(
-- 
2.43.0


From d4b89ec42b10c036728e9d28a979ef595bd88fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 12/49] fix: primal-dual line search for operators other than
 the identity

The condition of Malitsky and Pock compares with ||x_next - x||^2, not with
||L (x_next - x)||^2. With the latter the solver diverges as soon as L is far
from orthogonal, and could report success on the diverged point.
---
 copt/splitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 3e6705d..fbb2f8b 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -301,12 +301,13 @@ def minimize_primal_dual(
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if incr_x <= 1e-10:
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
-- 
2.43.0


From 72f58b1ce8c0255e7e315925c53723820bb00cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 13/49] fix: safe_sparse_add of a sparse and a dense vector
 keeps the shape

---
 copt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..e4acd6d 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -67,7 +67,7 @@ def safe_sparse_add(a, b):
         if sparse.issparse(a):
             a = a.toarray()
             if a.ndim == 2 and b.ndim == 1:
-                b.ravel()
+                a = a.ravel()
         elif sparse.issparse(b):
             b = b.toarray()
             if b.ndim == 2 and a.ndim == 1:
-- 
2.43.0


From f7c7e65e56cb5377b33258210c7a2baef2be5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 14/49] fix: finite-difference gradients for jac=False and
 jac=None

Both were rejected although jac=False is documented, and the code behind them
used a function that scipy removed and returned nothing.
---
 copt/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index e4acd6d..6221fce 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -34,7 +34,9 @@ except ImportError:
 
 def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
-        if bool(jac):
+        if jac is None or jac is False:
+            jac = None
+        elif bool(jac):
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
         elif jac == "2-point":
@@ -46,7 +48,8 @@ def build_func_grad(jac, fun, args, eps):
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            g = optimize.approx_fprime(x, fun, eps, *args)
+            return f, g
 
     else:
 
-- 
2.43.0


From 1f81ef3df5d24923c2458de0128f50841c08e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 15/49] fix: minimize_sfw accepts the documented callable step
 size

Callables (and unknown options) failed with UnboundLocalError.
---
 copt/randomized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index a19c0dd..a384463 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -866,7 +866,10 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
         step_size_fun = step_size_DR
-
+    elif callable(step_size):
+        step_size_fun = step_size
+    else:
+        raise ValueError("Invalid option step_size=%s" % step_size)
 
     if lmo_variant == 'vanilla':
         active_set = None
-- 
2.43.0


From c9bd3f154a04d81cec878722e551d16befd5b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 16/49] fix: minimize_sfw stops when its tolerance is reached

Only the epoch was left; the run went on and still reported success.
---
 copt/randomized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index a384463..3c6c9ad 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -946,6 +946,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 break
             i += batch_size
             step += 1
+        if success:
+            break
 
     message = ""
     return optimize.OptimizeResult(x=x, success=success, nit=it, message=message)
-- 
2.43.0


From 23062c9b6960050cccddad4fa6f85d017fdcf075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 17/49] fix: Demyanov-Rubinov steps of minimize_sfw stay in [0,
 max_step_size]

The step was 0/0 at a vertex, which made every later iterate NaN, and negative
when the SAGA direction opposes the aggregated gradient, which left the set.
---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 3c6c9ad..ea60512 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -731,6 +731,9 @@ def step_size_sfw(variant):
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
     lipschitz = kwargs['lipschitz']
+    if norm_update_direction == 0 or kwargs['certificate'] <= 0:
+        # already at the vertex, or not a descent direction for the aggregate
+        return 0., None
     return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
                kwargs['max_step_size']), None
 
-- 
2.43.0


From 19839d2c61099060e8c3ed2c6202c83b05f47ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 18/49] fix: Demyanov-Rubinov steps with the MHK and LF
 variants of minimize_sfw

They failed with UnboundLocalError.
---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index ea60512..bc264d1 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -899,6 +899,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             x_prev = x.copy()
             if step_size != 'DR':
                 step_size_x, step_size_agg = step_size_fun(locals())
+            elif variant in {'MHK', 'LF'}:
+                # these variants also average with a step of their own
+                _, step_size_agg = step_size_sfw(variant)(locals())
             dual_var_prev = dual_var[batch_idx].copy()
 
             if variant in {'SAG', 'SAGA'}:
-- 
2.43.0


From 67e8d65f5aac8c885bbea9d20bae8b7e4403d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 19/49] fix: load_img1 returns n_rows rows and n_cols columns

PIL sizes are (width, height).
---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..3223766 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -29,7 +29,7 @@ def load_img1(n_rows=20, n_cols=20):
     grid = np.loadtxt(os.path.join(dir_path, "data", "img1.csv"), delimiter=",")
     dim1 = int(np.sqrt(grid.shape[0]))
     grid = grid.reshape((dim1, dim1))
-    img = Image.fromarray(grid).resize((n_rows, n_cols))
+    img = Image.fromarray(grid).resize((n_cols, n_rows))
     return np.array(img)
 
 
-- 
2.43.0


From f7e1173640916bfdfda970c19bda4a6b4863a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 20/49] fix: interrupted data-set downloads can be resumed and
 leave no partial files

An interrupted download left the data-set folder behind and every later load
failed with FileExistsError; an interrupted extraction left truncated files, or
a train split without its test split, that were then taken as complete.
---
 copt/datasets.py | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 3223766..04db05a 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -40,10 +40,23 @@ def _load_dataset(name, subset, data_dir):
         file_exists = gfile.exists
         makedirs = gfile.makedirs
         file_loader = gfile.GFile
+
+        def rename(src, dst):
+            gfile.rename(src, dst, overwrite=True)
+
     else:
         file_exists = os.path.exists
-        makedirs = os.makedirs
         file_loader = open
+        rename = os.replace
+
+        def makedirs(path):
+            os.makedirs(path, exist_ok=True)
+
+    if subset not in ("train", "test", "full"):
+        raise ValueError(
+            "subset '%s' not implemented, must be one of ('train', 'test', 'full')."
+            % subset
+        )
     dataset_dir = os.path.join(data_dir, name)
     files_train = (
         "X_train.data.npy",
@@ -51,8 +64,15 @@ def _load_dataset(name, subset, data_dir):
         "X_train.indptr.npy",
         "y_train.npy",
     )
+    files_test = (
+        "X_test.data.npy",
+        "X_test.indices.npy",
+        "X_test.indptr.npy",
+        "y_test.npy",
+    )
+    files_needed = files_train if subset == "train" else files_train + files_test
     if not np.all(
-        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
+        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_needed]
     ):
         makedirs(dataset_dir)
         print(
@@ -70,7 +90,10 @@ def _load_dataset(name, subset, data_dir):
                 continue
 
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
-            f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
+            # write to a temporary file, so that an interruption cannot leave
+            # a truncated file under the final name
+            dest = os.path.join(data_dir, member.name)
+            f_dest = file_loader(dest + ".tmp", "wb")
             chunk = 5000
             while True:
                 data = f_orig.read(chunk)
@@ -79,6 +102,7 @@ def _load_dataset(name, subset, data_dir):
                 f_dest.write(data)
             f_dest.close()
             f_orig.close()
+            rename(dest + ".tmp", dest)
 
     tmp_train = []
     for fname in files_train:
@@ -92,12 +116,7 @@ def _load_dataset(name, subset, data_dir):
         retval = (data_train, target_train)
     else:
         tmp_test = []
-        for fname in (
-            "X_test.data.npy",
-            "X_test.indices.npy",
-            "X_test.indptr.npy",
-            "y_test.npy",
-        ):
+        for fname in files_test:
             with file_loader(os.path.join(dataset_dir, fname), "rb") as f:
                 tmp_test.append(np.load(f))
 
@@ -106,16 +125,10 @@ def _load_dataset(name, subset, data_dir):
 
         if subset == "test":
             retval = (data_test, target_test)
-        elif subset == "full":
+        else:
             data_full = sparse.vstack((data_train, data_test))
             target_full = np.concatenate((target_train, target_test))
             retval = (data_full, target_full)
-        else:
-            f.close()
-            raise ValueError(
-                "subset '%s' not implemented, must be one of ('train', 'test', 'full')."
-                % subset
-            )
     return retval
 
 
-- 
2.43.0


From 4d3704f2b8f058618af86551761d2a1af7632904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 21/49] fix: full data sets whose splits do not use the same
 last feature

---
 copt/datasets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/datasets.py b/copt/datasets.py
index 04db05a..295f26f 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -126,6 +126,10 @@ def _load_dataset(name, subset, data_dir):
         if subset == "test":
             retval = (data_test, target_test)
         else:
+            # the last features may be missing from one of the splits
+            n_features = max(data_train.shape[1], data_test.shape[1])
+            data_train.resize(data_train.shape[0], n_features)
+            data_test.resize(data_test.shape[0], n_features)
             data_full = sparse.vstack((data_train, data_test))
             target_full = np.concatenate((target_train, target_test))
             retval = (data_full, target_full)
-- 
2.43.0


From 8dc547a14040954d48f28bb1d7ca0b4cdbeff12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 22/49] fix: interrupted URL, KDD and criteo downloads can be
 resumed

The processed arrays were only written right after the download, so an
interruption in between made every later load fail; a truncated download was
taken as complete.  A KDD12 file with a wrong checksum loaded the URL data.
---
 copt/datasets.py | 81 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 295f26f..690b50a 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -33,6 +33,19 @@ def load_img1(n_rows=20, n_cols=20):
     return np.array(img)
 
 
+def _download(url, file_path):
+    """Download to file_path, which exists only when it is complete."""
+    urllib.request.urlretrieve(url, file_path + ".tmp")
+    os.replace(file_path + ".tmp", file_path)
+
+
+def _save(file_path, array):
+    """Save array in file_path, which exists only when it is complete."""
+    with open(file_path + ".tmp", "wb") as f:
+        np.save(f, array)
+    os.replace(file_path + ".tmp", file_path)
+
+
 def _load_dataset(name, subset, data_dir):
     """Low level driver to download and return dataset"""
 
@@ -233,11 +246,15 @@ def load_url(md5_check=True):
 
     if not os.path.exists(DATA_DIR):
         os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("URL dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    if not all(
+        os.path.exists(path)
+        for path in (data_path, data_indices, data_indptr, data_target)
+    ):
+        if not os.path.exists(file_path):
+            print("URL dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
+            _download(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "83673b8f4224c81968af2fb6022ee487":
@@ -250,10 +267,10 @@ def load_url(md5_check=True):
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -355,7 +372,7 @@ def load_kdd10(md5_check=True):
     if not os.path.exists(file_path):
         print("KDD10 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        _download(url, file_path)
         print("Finished downloading")
     if md5_check:
         h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -395,27 +412,31 @@ def load_kdd12(md5_check=True, verbose=0):
 
     if not os.path.exists(DATA_DIR):
         os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("KDD12 dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    if not all(
+        os.path.exists(path)
+        for path in (data_path, data_indices, data_indptr, data_target)
+    ):
+        if not os.path.exists(file_path):
+            print("KDD12 dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
+            _download(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "c6fc57735c3cf687dd182d60a7b51cda":
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
                 os.remove(file_path)
-                return load_url()
+                return load_kdd12()
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -451,10 +472,14 @@ def load_criteo(md5_check=True):
     data_indices = os.path.join(DATA_DIR, "criteo.kaggle2014.indices.npy")
     data_indptr = os.path.join(DATA_DIR, "criteo.kaggle2014.indptr.npy")
     data_target = os.path.join(DATA_DIR, "criteo.kaggle2014.target.npy")
-    if not os.path.exists(file_path):
-        print("criteo dataset is not present in data folder. Downloading it ...")
-        url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
-        urllib.request.urlretrieve(url, file_path)
+    if not all(
+        os.path.exists(path)
+        for path in (data_path, data_indices, data_indptr, data_target)
+    ):
+        if not os.path.exists(file_path):
+            print("criteo dataset is not present in data folder. Downloading it ...")
+            url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
+            _download(url, file_path)
         import tarfile
 
         tar = tarfile.open(file_path)
@@ -470,10 +495,10 @@ def load_criteo(md5_check=True):
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
         )
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
         # optionally delete files
     else:
         X_data = np.load(data_path)
-- 
2.43.0


From 77e8086b9319bfc84e21144acd7b84d6440ff238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 23/49] fix: np.int is gone from numpy

---
 copt/datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 690b50a..1718836 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -276,7 +276,7 @@ def load_url(md5_check=True):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -442,7 +442,7 @@ def load_kdd12(md5_check=True, verbose=0):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
-- 
2.43.0


From 9fca8023b69a667f5f9fcd217d070b1885f2e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:15 +0000
Subject: [PATCH 24/49] fix: callbacks of minimize_vrtos find the iterate under
 the name x

utils.Trace raised KeyError when it was used as a callback of minimize_vrtos.
---
 copt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index bc264d1..79b0d86 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -501,6 +501,7 @@ def minimize_vrtos(
 
     Y = np.zeros((2, x0.size))
     z = x0.copy()
+    x = z  # the name under which callbacks look for the iterate
 
     assert A.shape[0] == b.size
 
-- 
2.43.0


From 8d592b4c2af9ddc2f5ab192963f3fd55a80b2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:15 +0000
Subject: [PATCH 25/49] fix: accelerated proximal gradient rejects unknown step
 strategies

---
 copt/proximal_gradient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index c96812e..480432c 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -255,6 +255,9 @@ def minimize_proximal_gradient(
                 tk = t_next
                 x = x_next.copy()
 
+            else:
+                raise ValueError("Step-size strategy not understood")
+
             if certificate < tol:
                 success = True
                 break
-- 
2.43.0


From f74ac0baa90f49a52275e9a6f6b731de2b10c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:11 +0000
Subject: [PATCH 26/49] fix: indicator slack of L1Ball and TraceBall vanished
 in float32

alpha + np.float32 eps is evaluated in float32 under NumPy 2, where the
slack is lost for alpha >= 2 (and alpha itself is rounded, so that
points of a ball of radius 0.1 could be compared with a different
radius).  Projections were then reported as infeasible.
---
 copt/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c044975..98c6979 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -73,7 +73,7 @@ class L1Ball:
         self.alpha = alpha
 
     def __call__(self, x):
-        if np.abs(x).sum() <= self.alpha + np.finfo(np.float32).eps:
+        if np.abs(x).sum() <= self.alpha + float(np.finfo(np.float32).eps):
             return 0
         else:
             return np.inf
@@ -287,7 +287,7 @@ class TraceBall:
 
     def __call__(self, x):
         X = x.reshape(self.shape)
-        if linalg.svdvals(X).sum() <= self.alpha + np.finfo(np.float32).eps:
+        if linalg.svdvals(X).sum() <= self.alpha + float(np.finfo(np.float32).eps):
             return 0
         else:
             return np.inf
-- 
2.43.0


From 361389f0d90f75273d0a54b30d6544ab51157f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:14 +0000
Subject: [PATCH 27/49] fix: per-sample Lipschitz constants of matrices with
 duplicate entries

row_norms squares the parts of a duplicate CSR entry one by one, so the
reported constant was too small for matrices that are not in canonical
format, which all the losses and solvers accept.
---
 copt/loss.py  | 10 +++-------
 copt/utils.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 626f333..7fc365f 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -3,7 +3,7 @@ from scipy import sparse, special
 from scipy.sparse import linalg as splinalg
 from sklearn.utils.extmath import safe_sparse_dot
 
-from copt.utils import safe_sparse_add, njit, prange
+from copt.utils import max_squared_row_norm, safe_sparse_add, njit, prange
 
 
 class LogLoss:
@@ -202,9 +202,7 @@ class LogLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = max_squared_row_norm(self.A)
 
         return 0.25 * max_squared_sum + self.alpha
 
@@ -256,9 +254,7 @@ class SquareLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = max_squared_row_norm(self.A)
 
         return max_squared_sum + self.alpha
 
diff --git a/copt/utils.py b/copt/utils.py
index 6221fce..ae48f63 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -167,6 +167,17 @@ class Trace:
         self._counter += 1
 
 
+def max_squared_row_norm(A):
+    """Largest squared euclidean norm of a row of A (dense or sparse)."""
+    from sklearn.utils.extmath import row_norms
+
+    if sparse.issparse(A):
+        # row_norms would square the parts of duplicate entries separately
+        A = A.tocsr(copy=True)
+        A.sum_duplicates()
+    return row_norms(A, squared=True).max()
+
+
 def init_lipschitz(f_grad, x0):
     L0 = 1e-3
     f0, grad0 = f_grad(x0)
@@ -196,9 +207,7 @@ def get_max_lipschitz(A, loss, alpha=0):
 
   loss : {"logloss", "square", "huber"}
   """
-    from sklearn.utils.extmath import row_norms
-
-    max_squared_sum = row_norms(A, squared=True).max()
+    max_squared_sum = max_squared_row_norm(A)
 
     if loss == "logloss":
         return 0.25 * max_squared_sum + alpha
-- 
2.43.0


From 1702ff77ed0711884aebd26c316a36898d713a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 28/49] fix: sublinear Frank-Wolfe steps respect the oracle's
 maximum step

With an oracle that announces a maximum step below one (all pairwise
oracles) the first step, of size 1, left the constraint set or made the
active-set update fail.
---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 9f4f3b5..2a1f1f0 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -290,7 +290,7 @@ def minimize_frank_wolfe(
         elif step == "sublinear":
             # .. without knowledge of the Lipschitz constant ..
             # .. we take the sublinear 2/(k+2) step-size ..
-            step_size = 2.0 / (it + 2)
+            step_size = min(2.0 / (it + 2), max_step_size)
             f_next, grad_next = func_and_grad(x + step_size * update_direction)
         else:
             raise ValueError("Invalid option step=%s" % step)
-- 
2.43.0


From adebed110c85a8d817cc03df5bd7f3aab92f7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:31 +0000
Subject: [PATCH 29/49] fix: trace-ball oracle for zero directions and for
 single rows or columns

svds supports neither, so Frank-Wolfe crashed at points where the
gradient vanishes.
---
 copt/constraint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 98c6979..7ae6320 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -319,6 +319,11 @@ class TraceBall:
           max_step_size: 1. for a Frank-Wolfe step.
         """
         u_mat = u.reshape(self.shape)
-        ut, _, vt = splinalg.svds(u_mat, k=1)
+        if min(self.shape) > 1 and np.any(u_mat):
+            ut, _, vt = splinalg.svds(u_mat, k=1)
+        else:
+            # not supported by svds
+            ut, _, vt = linalg.svd(u_mat, full_matrices=False)
+            ut, vt = ut[:, :1], vt[:1]
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0


From ded22f6094dd2bfe2943fcf231185c4fa4ca4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:13 +0000
Subject: [PATCH 30/49] fix: Lipschitz constants for a single sample, a single
 feature or zero data

svds supports neither matrices with one row or column nor zero matrices.
---
 copt/loss.py  | 10 +++++-----
 copt/utils.py | 11 +++++++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 7fc365f..d88af87 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -1,9 +1,9 @@
 import numpy as np
 from scipy import sparse, special
-from scipy.sparse import linalg as splinalg
 from sklearn.utils.extmath import safe_sparse_dot
 
-from copt.utils import max_squared_row_norm, safe_sparse_add, njit, prange
+from copt.utils import largest_singular_value, max_squared_row_norm, safe_sparse_add
+from copt.utils import njit, prange
 
 
 class LogLoss:
@@ -197,7 +197,7 @@ class LogLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = largest_singular_value(self.A)
         return 0.25 * (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -249,7 +249,7 @@ class SquareLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = largest_singular_value(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -290,5 +290,5 @@ class HuberLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = largest_singular_value(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
diff --git a/copt/utils.py b/copt/utils.py
index ae48f63..02a289a 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy import sparse
 from scipy import optimize
+from scipy.sparse import linalg as splinalg
 from datetime import datetime
 from sklearn.utils.extmath import safe_sparse_dot
 
@@ -167,6 +168,16 @@ class Trace:
         self._counter += 1
 
 
+def largest_singular_value(A):
+    """Largest singular value of A ."""
+    if sparse.issparse(A) or isinstance(A, np.ndarray):
+        frobenius = np.sqrt((A.multiply(A) if sparse.issparse(A) else A * A).sum())
+        if min(A.shape) == 1 or frobenius == 0:
+            # not supported by svds
+            return frobenius
+    return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
+
+
 def max_squared_row_norm(A):
     """Largest squared euclidean norm of a row of A (dense or sparse)."""
     from sklearn.utils.extmath import row_norms
-- 
2.43.0


From d1639414855deeb9922d8d2a131b237bf72b39ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:45 +0000
Subject: [PATCH 31/49] fix: zero steps add no vertex to the Frank-Wolfe active
 set

A vertex that entered with weight 0 could be picked as away vertex with maximum
step 0, which stalled the solver for good.
---
 copt/frank_wolfe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 2a1f1f0..7ba1d26 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -98,6 +98,10 @@ def update_active_set(active_set,
                       fw_vertex_rep, away_vertex_rep,
                       step_size):
 
+    if step_size == 0.:
+        # nothing moves, and a new vertex must not enter with zero weight
+        return active_set
+
     max_step_size = active_set[away_vertex_rep]
     active_set[fw_vertex_rep] += step_size
     active_set[away_vertex_rep] -= step_size
-- 
2.43.0


From 6383d76ef62fa40ebd44861ba59088d2ea8d3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:01 +0000
Subject: [PATCH 32/49] fix: proximal gradient uses the gradient of the iterate
 when its line search gives up

The last candidate of an exhausted line search became the iterate with the value
and gradient of the candidate before it.
---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 480432c..fb95a47 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -170,6 +170,8 @@ def minimize_proximal_gradient(
                         update_direction = x_next - x
                 else:
                     warnings.warn("Maxium number of line-search iterations reached")
+                    # .. x_next changed after the last evaluation ..
+                    f_next, grad_next = func_and_grad(x_next)
             elif step == "fixed":
                 x_next = prox(x - step_size * grad_fk, step_size)
                 update_direction = x_next - x
-- 
2.43.0


From 1490d32ebb73b3daecf8f3e70523e5abd6f5f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 33/49] fix: simplex and L1-ball projections of vectors with
 huge entries

With entries around 1e16 times the radius and more, the radius was lost to
rounding and the projection raised an IndexError (and lost accuracy before that).
---
 copt/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/constraint.py b/copt/constraint.py
index 7ae6320..ded9fa1 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -220,6 +220,9 @@ def euclidean_proj_simplex(v, s=1.0):
     if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
+    # shifting v by a constant does not change its projection, and without
+    # the shift s is lost to rounding when the entries of v are huge
+    v = v - v.max()
     # get the array of cumulative sums of a sorted (decreasing) copy of v
     u = np.sort(v)[::-1]
     cssv = np.cumsum(u)
-- 
2.43.0


From e948622d921b827c8fd7dc2743cb9f6e50fe673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 34/49] fix: steps of minimize_sfw respect the oracle's maximum
 step

---
 copt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 79b0d86..5915a6f 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -939,6 +939,7 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 certificate = utils.safe_sparse_dot(-grad_agg, update_direction)
                 step_size_x, _ = step_size_fun(locals())
 
+            step_size_x = min(step_size_x, max_step_size)
             x += step_size_x * update_direction
 
             if lmo_variant == 'pairwise':
-- 
2.43.0


From d57e4ec1f629b69f46d4bf3706b56e449d75559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 35/49] fix: minimize_svrg forgets a sample's gradient after
 its step

---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 5915a6f..27f4524 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -390,6 +390,10 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            # other samples that share a block with this one do not use its features
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From 45218852096d0b162cc628a243b41684e9e7e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 36/49] fix: variance-reduced steps for matrices with duplicate
 entries

---
 copt/randomized.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 27f4524..354235b 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -183,7 +183,7 @@ def minimize_saga(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -378,7 +378,7 @@ def minimize_svrg(
             old_grad_i = f_deriv(np.array([p_old]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - old_grad_i) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - old_grad_i) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -636,7 +636,7 @@ def _factory_sparse_vrtos(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. x update ..
             for h_j in range(bs_1_indptr[i], bs_1_indptr[i + 1]):
-- 
2.43.0


From 7d9a64846af76d92089764418a91b9064407b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 37/49] fix: the SAGA estimate of minimize_sfw is unbiased for
 batches

---
 copt/randomized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 354235b..628c39b 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -934,7 +934,7 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
 
             elif variant == 'SAGA':
-                grad_est = utils.safe_sparse_add(grad_agg, (n_samples - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
+                grad_est = utils.safe_sparse_add(grad_agg, (n_samples / len(batch_idx) - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
                                                                                                A_data, A_indptr, A_indices,
                                                                                                n_features, batch_idx))
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
-- 
2.43.0


From acdeefcd15d78ecd2eb093a4715d3b6fb27cf922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 38/49] fix: the aggregate of the MHK variant of minimize_sfw
 is a gradient of the objective

---
 copt/randomized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 628c39b..6382a82 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -915,7 +915,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
 
             elif variant == 'MHK':
                 p = utils.fast_csr_mv(A_data, A_indptr, A_indices, x, batch_idx)
-                dual_var[batch_idx] += step_size_agg * (f_deriv(p, b[batch_idx]) - dual_var[batch_idx])
+                dual_var[batch_idx] += step_size_agg * ((1 / n_samples) * f_deriv(p, b[batch_idx])
+                                                         - dual_var[batch_idx])
 
             elif variant == 'LF':
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
-- 
2.43.0


From 879919770f3c0f3c770a9b440f232a1ee307beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 39/49] fix: the logistic helpers and Hessian products are not
 truncated for integer arrays

---
 copt/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index d88af87..a86f16f 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -41,7 +41,7 @@ class LogLoss:
         return self.f_grad(x, return_gradient=False)
 
     def _sigma(self, z, idx):
-        z0 = np.zeros_like(z)
+        z0 = np.zeros_like(z, dtype=np.float64)
         tmp = np.exp(-z[idx])
         z0[idx] = 1 / (1 + tmp)
         tmp = np.exp(z[~idx])
@@ -50,7 +50,7 @@ class LogLoss:
 
     def logsig(self, x):
         """Compute log(1 / (1 + exp(-t))) component-wise."""
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.float64)
         idx0 = x < -33
         out[idx0] = x[idx0]
         idx1 = (x >= -33) & (x < -18)
@@ -64,7 +64,7 @@ class LogLoss:
     def expit_b(self, x, b):
         """Compute sigmoid(x) - b."""
         idx = x < 0
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.float64)
         exp_x = np.exp(x[idx])
         b_idx = b[idx]
         out[idx] = ((1 - b_idx) * exp_x - b_idx) / (1 + exp_x)
@@ -123,7 +123,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=np.float64)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
@@ -163,7 +163,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=np.float64)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
@@ -183,7 +183,7 @@ class LogLoss:
         def log_deriv(p, y):
             # derivative of logistic loss
             # same as in lightning (with minus sign)
-            out = np.zeros_like(p)
+            out = np.zeros_like(p, dtype=np.float64)
             for i in prange(p.size):
                 if p[i] < 0:
                     exp_p = np.exp(p[i])
-- 
2.43.0


From d52365a511208a09068dff0b28ddc416c4785241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 40/49] fix: the times recorded by Trace do not decrease when
 the local clock is set back

---
 copt/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index 02a289a..601f225 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -1,8 +1,9 @@
+import time
+
 import numpy as np
 from scipy import sparse
 from scipy import optimize
 from scipy.sparse import linalg as splinalg
-from datetime import datetime
 from sklearn.utils.extmath import safe_sparse_dot
 
 try:
@@ -151,7 +152,7 @@ class Trace:
         self.trace_time = []
         self.trace_fx = []
         self.trace_step_size = []
-        self.start = datetime.now()
+        self.start = time.perf_counter()
         self._counter = 0
         self.freq = int(freq)
         self.f = f
@@ -162,7 +163,7 @@ class Trace:
                 self.trace_fx.append(self.f(dl["x"]))
             else:
                 self.trace_x.append(dl["x"].copy())
-            delta = (datetime.now() - self.start).total_seconds()
+            delta = time.perf_counter() - self.start
             self.trace_time.append(delta)
             self.trace_step_size.append(dl["step_size"])
         self._counter += 1
-- 
2.43.0


From 01c3dff8f9030a02a007bfc6321d176cc561817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 41/49] fix: Lipschitz constants of losses on BSR matrices

---
 copt/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 601f225..047ed29 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -172,7 +172,8 @@ class Trace:
 def largest_singular_value(A):
     """Largest singular value of A ."""
     if sparse.issparse(A) or isinstance(A, np.ndarray):
-        frobenius = np.sqrt((A.multiply(A) if sparse.issparse(A) else A * A).sum())
+        B = A.tocsr() if sparse.issparse(A) else A
+        frobenius = np.sqrt((B.multiply(B) if sparse.issparse(B) else B * B).sum())
         if min(A.shape) == 1 or frobenius == 0:
             # not supported by svds
             return frobenius
-- 
2.43.0


From cf15ebfa04fd22a6781a11be2927a67e079b2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 42/49] fix: a corrupt archive of load_criteo is discarded
 before it is extracted

---
 copt/datasets.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 1718836..20540d3 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -480,11 +480,7 @@ def load_criteo(md5_check=True):
             print("criteo dataset is not present in data folder. Downloading it ...")
             url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
             _download(url, file_path)
-        import tarfile
-
-        tar = tarfile.open(file_path)
-        tar.extractall(DATA_DIR)
-        print("Finished downloading")
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if h != "d852b491d1b3afa26c1e7b49594ffc3e":
@@ -492,6 +488,10 @@ def load_criteo(md5_check=True):
                 print("Removing file and re-downloading")
                 os.remove(file_path)
                 return load_criteo()
+        import tarfile
+
+        tar = tarfile.open(file_path)
+        tar.extractall(DATA_DIR)
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
         )
-- 
2.43.0


From 7edbe47911f645046fece844a2c39a25cec55160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:16 +0000
Subject: [PATCH 43/49] fix: a full disk does not leave truncated arrays in the
 data-set cache

---
 copt/datasets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/datasets.py b/copt/datasets.py
index 20540d3..1ff23bf 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -43,6 +43,10 @@ def _save(file_path, array):
     """Save array in file_path, which exists only when it is complete."""
     with open(file_path + ".tmp", "wb") as f:
         np.save(f, array)
+        size = f.tell()
+    if os.path.getsize(file_path + ".tmp") != size:
+        # np.save does not notice that the disk is full
+        raise OSError("could not write %s" % file_path)
     os.replace(file_path + ".tmp", file_path)
 
 
-- 
2.43.0


From 6294fc025ccf2d040b028b482f87dc4dbfb468b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 44/49] fix: minimize_frank_wolfe rejects invalid step options
 also from an optimal start

---
 copt/frank_wolfe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 7ba1d26..970429e 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -231,6 +231,10 @@ def minimize_frank_wolfe(
     x0 = np.asanyarray(x0, dtype=float)
     if tol < 0:
         raise ValueError("Tol must be non-negative")
+    if not callable(step) and step not in ("backtracking", "DR", "sublinear"):
+        raise ValueError("Invalid option step=%s" % step)
+    if not callable(step) and step == "DR" and lipschitz is None:
+        raise ValueError('lipschitz needs to be specified with step="DR"')
     x = x0.copy()
 
     if variant == 'vanilla':
@@ -285,19 +289,15 @@ def minimize_frank_wolfe(
                 norm_update_direction,
             )
         elif step == "DR":
-            if lipschitz is None:
-                raise ValueError('lipschitz needs to be specified with step="DR"')
             step_size = min(
                 certificate / (norm_update_direction * lipschitz_t), max_step_size
             )
             f_next, grad_next = func_and_grad(x + step_size * update_direction)
-        elif step == "sublinear":
+        else:
             # .. without knowledge of the Lipschitz constant ..
             # .. we take the sublinear 2/(k+2) step-size ..
             step_size = min(2.0 / (it + 2), max_step_size)
             f_next, grad_next = func_and_grad(x + step_size * update_direction)
-        else:
-            raise ValueError("Invalid option step=%s" % step)
         if callback is not None:
             if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
                 break
-- 
2.43.0


From 02fc3362a1683b625a3976379e60721d69de8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 45/49] fix: minimize_proximal_gradient rejects unknown steps
 before it calls the callback

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index fb95a47..22a4a91 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -113,6 +113,8 @@ def minimize_proximal_gradient(
     x = x0.flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
+    if not callable(step) and step not in ("backtracking", "fixed"):
+        raise ValueError("Step-size strategy not understood")
 
     if prox is None:
 
-- 
2.43.0


From 3ff723f42daa7d7ccdc1ead37b95dd08796704ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 46/49] fix: unknown strings for jac are rejected instead of
 being taken for True

---
 copt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 047ed29..827cf37 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -38,7 +38,7 @@ def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
         if jac is None or jac is False:
             jac = None
-        elif bool(jac):
+        elif bool(jac) and (not isinstance(jac, str) or jac == "2-point"):
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
         elif jac == "2-point":
-- 
2.43.0


From 3a5d30c13130b3d0c2ec0459cab2bf1d74a5a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:07 +0000
Subject: [PATCH 47/49] fix: group lasso proximal operator of integer vectors

---
 copt/penalty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..84adc0a 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -79,7 +79,8 @@ class GroupL1:
         return self.alpha * np.sum([np.linalg.norm(x[g]) for g in self.groups])
 
     def prox(self, x, step_size):
-        out = x.copy()
+        # a copy that can hold fractions whatever the type of x
+        out = 1.0 * x
         for g in self.groups:
 
             norm = np.linalg.norm(x[g])
-- 
2.43.0


From 22887e99266da2547f08ccf99888ff957d112ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:07 +0000
Subject: [PATCH 48/49] fix: oracles of the L1 ball and the simplex at integer
 points

---
 copt/constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index ded9fa1..cf0b684 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -119,7 +119,8 @@ class L1Ball:
         largest_coordinate = np.argmax(abs_u)
         sign = np.sign(u[largest_coordinate])
 
-        update_direction = -x.copy()
+        # fractions must fit in whatever the type of x
+        update_direction = -1.0 * x
         update_direction[largest_coordinate] += self.alpha * sign
 
         # Only useful for active_set management in pairwise FW
@@ -182,7 +183,8 @@ class SimplexConstraint:
     """
         largest_coordinate = np.argmax(u)
 
-        update_direction = -x.copy()
+        # fractions must fit in whatever the type of x
+        update_direction = -1.0 * x
         update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
-- 
2.43.0


From fd0dd5d34c6a020846aefe1c2703e4a6e787b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:23 +0000
Subject: [PATCH 49/49] fix: trace_certificate records accelerated runs with
 the user's steps

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 22a4a91..337c091 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -223,6 +223,8 @@ def minimize_proximal_gradient(
                     current_step_size,
                 )
                 certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
+                if trace_certificate:
+                    certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
 
-- 
2.43.0

