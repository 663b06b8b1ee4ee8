From d3417e02fa8c8221a0fb6fe0e900230c5c060255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 01/37] fix: remove_observer raised AttributeError instead of
 removing the observer

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index bf8371c..5d76f7b 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -72,7 +72,7 @@ class Observable:
             An obervation function to be removed
 
         """
-        self._is_allowed_event(signal)
+        self._is_allowed_signal(signal)
         self._remove_observer(signal, observer)
 
     def notify_observers(self, signal, **kwargs):
-- 
2.43.0


From 596716df768ddd9f4850ad88a7e98cd308e2dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 02/37] fix: notification lock was kept when an observer
 raised, and success was not reported

---
 src/modopt/base/observable.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5d76f7b..5642fd3 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -97,18 +97,21 @@ class Observable:
         # Set the lock
         self._locked = True
 
-        # Create a signal object
-        signal_to_be_notified = SignalObject()
-        signal_to_be_notified.object = self
-        signal_to_be_notified.signal = signal
-
-        for name, key_value in kwargs.items():
-            setattr(signal_to_be_notified, name, key_value)
-        # Notify all the observers
-        for observer in self._observers[signal]:
-            observer(signal_to_be_notified)
-        # Unlock the notification process
-        self._locked = False
+        try:
+            # Create a signal object
+            signal_to_be_notified = SignalObject()
+            signal_to_be_notified.object = self
+            signal_to_be_notified.signal = signal
+
+            for name, key_value in kwargs.items():
+                setattr(signal_to_be_notified, name, key_value)
+            # Notify all the observers
+            for observer in self._observers[signal]:
+                observer(signal_to_be_notified)
+        finally:
+            # Unlock the notification process
+            self._locked = False
+        return True
 
     def _get_allowed_signals(self):
         """Get allowed signals.
-- 
2.43.0


From 9a8554fbe2a069892a6aa651140af3030aeeb0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 03/37] fix: metric_call_period was ignored, metrics were
 computed at every iteration

---
 src/modopt/opt/algorithms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index f739106..4a49fc6 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -273,7 +273,7 @@ class SetUp(Observable):
                 metric_conditions = (
                     self.idx % self.metric_call_period == 0
                     or self.idx == (max_iter - 1)
-                    or self.converge,
+                    or self.converge
                 )
 
                 if metric_conditions:
-- 
2.43.0


From 8697ffcbd054c4904dee41006a2f46d2ffed8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 04/37] fix: early stopping metrics were ignored by
 GenForwardBackward

---
 src/modopt/opt/algorithms/forward_backward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 31927eb..5b5f9f5 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -741,7 +741,9 @@ class GenForwardBackward(SetUp):
 
         # Test cost function for convergence.
         if self._cost_func:
-            self.converge = self._cost_func.get_cost(self._x_new)
+            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
+                self._x_new
+            )
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
-- 
2.43.0


From 5fc68ed358fdc1f886ad52324538394e23eda782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 05/37] fix: early stopping metrics were ignored when no cost
 function is used

---
 src/modopt/opt/algorithms/admm.py             | 4 ++++
 src/modopt/opt/algorithms/forward_backward.py | 6 ++++++
 src/modopt/opt/algorithms/gradient_descent.py | 2 ++
 src/modopt/opt/algorithms/primal_dual.py      | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index b2f4517..08df68e 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -172,6 +172,8 @@ class ADMM(SetUp):
         if self._cost_func:
             self.converge = self.any_convergence_flag()
             self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150):
         """Iterate.
@@ -338,3 +340,5 @@ class FastADMM(ADMM):
         if self._cost_func:
             self.converge = self.any_convergence_flag()
             self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+        else:
+            self.converge = self.any_convergence_flag()
diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 5b5f9f5..0498197 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -463,6 +463,8 @@ class ForwardBackward(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
@@ -744,6 +746,8 @@ class GenForwardBackward(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
@@ -993,6 +997,8 @@ class POGM(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index 0960be5..a35dfa4 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -159,6 +159,8 @@ class GenericGradOpt(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def _update_grad_dir(self, grad):
         """Update the gradient descent direction.
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index fee49a2..ff7a9a1 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -218,6 +218,8 @@ class Condat(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new, self._y_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, n_rewightings=1, progbar=None):
         """Iterate.
-- 
2.43.0


From 86c3e6c25aa054f813b7171a9169bc702dde40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 06/37] fix: POGM overwrote the array returned by the gradient
 operator

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 0498197..99ba6cc 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -923,7 +923,7 @@ class POGM(SetUp):
         self._sigma = 1.0
         self._t_old = 1.0
         self._grad.get_grad(self._x_old)
-        self._g_old = self._grad.grad
+        self._g_old = self.xp.copy(self._grad.grad)
 
         # Automatically run the algorithm
         if auto_iterate:
-- 
2.43.0


From ce6e2eb4906c6736a48ae81ae18cb0ac3f2beef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 07/37] fix: FastADMM raised AttributeError on its convergence
 test

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 08df68e..fdd3f96 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -339,6 +339,6 @@ class FastADMM(ADMM):
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-            self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
         else:
             self.converge = self.any_convergence_flag()
-- 
2.43.0


From 94fb11650d996e5b0c77e232f014a35fe8a54eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 08/37] fix: FastADMM ignored the initial v and the coupling
 parameter tau

---
 src/modopt/opt/algorithms/admm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index fdd3f96..3055cf3 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -285,12 +285,13 @@ class FastADMM(ADMM):
     ):
         super().__init__(
             u=u,
-            v=b,
+            v=v,
             mu=mu,
             A=A,
             B=B,
             b=b,
             optimizers=optimizers,
+            tau=tau,
             cost_funcs=cost_funcs,
             **kwargs,
         )
-- 
2.43.0


From ab16d06bf6c701654cecd5961bb735d6a4bb8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 09/37] fix: FastADMM restart state aliased buffers overwritten
 in the same iteration

---
 src/modopt/opt/algorithms/admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 3055cf3..99bbd08 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -330,8 +330,8 @@ class FastADMM(ADMM):
         else:
             # reboot to old iteration
             self._alpha_new = 1
-            self._v_hat = self._v_old
-            self._mu_hat = self._mu_old
+            self._v_hat = self.xp.copy(self._v_old)
+            self._mu_hat = self.xp.copy(self._mu_old)
             self._c_new = self._c_old / self._eta
 
         self.xp.copyto(self._u_old, self._u_new)
-- 
2.43.0


From bd0587080e932162b05682689d2383cc7b56795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 10/37] fix: FastADMM never advanced its momentum and restart
 sequences (Goldstein2014, Alg. 8)

---
 src/modopt/opt/algorithms/admm.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 99bbd08..07d852b 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -318,13 +318,17 @@ class FastADMM(ADMM):
         self._mu_new = self._mu_hat + (tmp + self.B.op(self._v_new) - self.b)
 
         # restarting condition
-        self._c_new = self.xp.linalg.norm(self._mu_new - self._mu_hat)
-        self._c_new += self._tau * self.xp.linalg.norm(
-            self.B.op(self._v_new - self._v_hat),
+        self._c_new = self._tau * self.xp.linalg.norm(self._mu_new - self._mu_hat) ** 2
+        self._c_new += (
+            self._tau
+            * self.xp.linalg.norm(
+                self.B.op(self._v_new - self._v_hat),
+            )
+            ** 2
         )
         if self._c_new < self._eta * self._c_old:
-            self._alpha_new = 1 + np.sqrt(1 + 4 * self._alpha_old**2)
-            beta = (self._alpha_new - 1) / self._alpha_old
+            self._alpha_new = 0.5 * (1 + np.sqrt(1 + 4 * self._alpha_old**2))
+            beta = (self._alpha_old - 1) / self._alpha_new
             self._v_hat = self._v_new + (self._v_new - self._v_old) * beta
             self._mu_hat = self._mu_new + (self._mu_new - self._mu_old) * beta
         else:
@@ -337,6 +341,8 @@ class FastADMM(ADMM):
         self.xp.copyto(self._u_old, self._u_new)
         self.xp.copyto(self._v_old, self._v_new)
         self.xp.copyto(self._mu_old, self._mu_new)
+        self._alpha_old = self._alpha_new
+        self._c_old = self._c_new
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-- 
2.43.0


From e9665983045e2d1a0676d158d0b46c7a52e43335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 11/37] fix: ADMM cost options were passed as positional names
 and the residual was not squared

---
 src/modopt/opt/algorithms/admm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 07d852b..c012e71 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -33,7 +33,7 @@ class ADMMcostObj(CostParent):
     """
 
     def __init__(self, cost_funcs, A, B, b, tau, **kwargs):
-        super().__init__(*kwargs)
+        super().__init__(**kwargs)
         self.cost_funcs = cost_funcs
         self.A = A
         self.B = B
@@ -59,10 +59,9 @@ class ADMMcostObj(CostParent):
 
         """
         xp = get_array_module(u)
-        cost = self.cost_funcs[0](u)
-        cost += self.cost_funcs[1](v)
-        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b)
-        return cost
+        cost = self.cost_funcs[0](u) + self.cost_funcs[1](v)
+        residual = self.A.op(u) + self.B.op(v) - self.b
+        return cost + self.tau * xp.linalg.norm(residual) ** 2
 
 
 class ADMM(SetUp):
-- 
2.43.0


From 485ac3f3d8fbff1a9d438a1eec206468139a04ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 12/37] fix: PowerMethod ignored the rng argument

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b200f15..b1de5f5 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -309,7 +309,7 @@ class PowerMethod:
         self._verbose = verbose
         xp, compute_backend = get_backend(compute_backend)
         self.xp = xp
-        self.rng = None
+        self.rng = rng
         self.compute_backend = compute_backend
         if auto_run:
             self.get_spec_rad()
-- 
2.43.0


From 49b7678c199202f9b28d69631652b6366ca4e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 13/37] fix: PowerMethod normalised the array owned by the
 operator in place

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b1de5f5..68e642d 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -361,7 +361,7 @@ class PowerMethod:
 
             x_new_norm = xp.linalg.norm(x_new)
 
-            x_new /= x_new_norm
+            x_new = x_new / x_new_norm
 
             if xp.abs(x_new_norm - x_old_norm) < tolerance:
                 message = " - Power Method converged after {0} iterations!"
-- 
2.43.0


From ab6a3572062b904a5c7b5b456965c90556962576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 14/37] fix: map2cube accepted layouts that fit only one
 dimension

---
 src/modopt/base/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 25ed102..126d176 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -113,7 +113,7 @@ def map2cube(data_map, layout):
     cube2map : complimentary function
 
     """
-    if np.all(np.array(data_map.shape) % np.array(layout)):
+    if np.any(np.array(data_map.shape) % np.array(layout)):
         raise ValueError(
             "The desired layout must be a multiple of the number "
             + "pixels in the data map.",
-- 
2.43.0


From e0c682a010837e754646c10e72c9aa3822fda894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 15/37] fix: matrix2map truncated the data to integers

---
 src/modopt/base/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 126d176..587f733 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -236,7 +236,7 @@ def matrix2map(data_matrix, map_shape):
     layout = np.array(map_shape // np.repeat(image_shape, 2), dtype="int")
 
     # Map objects from matrix
-    data_map = np.zeros(map_shape)
+    data_map = np.zeros(map_shape, dtype=data_matrix.dtype)
 
     temp = data_matrix.reshape(image_shape, image_shape, data_matrix.shape[1])
 
@@ -251,7 +251,7 @@ def matrix2map(data_matrix, map_shape):
         )
         data_map[lower[0] : upper[0], lower[1] : upper[1]] = temp[:, :, i_elem]
 
-    return data_map.astype(int)
+    return data_map
 
 
 def cube2matrix(data_cube):
-- 
2.43.0


From 6b23d101a8458502c5850658f084f0cccddacb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 16/37] fix: svd_thresh printed debugging output

---
 src/modopt/signal/svd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index cf14750..ed771f9 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -168,7 +168,6 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
         # Find the required number of principal components if not specified.
         if isinstance(n_pc, type(None)):
             n_pc = find_n_pc(u_vec, factor=0.1)
-            print("xxxx", n_pc, u_vec)
 
         # If the number of PCs is too large use all of the singular values.
         if (isinstance(n_pc, int) and n_pc >= s_values.size) or (
-- 
2.43.0


From 5f0e708ce594a08f7c016e8d8c8e05b015046768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 17/37] fix: svd_thresh_coef modified the threshold array of
 the caller

---
 src/modopt/signal/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index ed771f9..799c6ce 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -295,7 +295,7 @@ def svd_thresh_coef(input_data, operator, threshold, thresh_type="hard"):
     ti = np.array(
         [np.linalg.norm(elem) for elem in operator(matrix2cube(u_vec, array_shape))]
     )
-    threshold *= np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
+    threshold = threshold * np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
 
     # Threshold coefficients.
     a_new = thresh(a_matrix, threshold, thresh_type)
-- 
2.43.0


From 261b88963795b537038076ad3692aae24395cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 18/37] fix: svd_thresh_coef_fast asked for zero or too many
 singular values

---
 src/modopt/signal/svd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 799c6ce..ed63750 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -226,13 +226,15 @@ def svd_thresh_coef_fast(
         The thresholded data (numpy.ndarray) and the estimated rank after
         thresholding (int)
     """
+    max_vals = min(input_data.shape) - 1
     if n_vals == -1:
-        n_vals = min(input_data.shape) - 1
+        n_vals = max_vals
+    n_vals = min(max(n_vals, 1), max_vals)
     ok = False
     while not ok:
         (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
-        ok = s_values[0] <= threshold or n_vals == min(input_data.shape) - 1
-        n_vals = min(n_vals + extra_vals, *input_data.shape)
+        ok = s_values[0] <= threshold or n_vals == max_vals
+        n_vals = min(n_vals + extra_vals, max_vals)
 
     s_values = thresh(
         s_values,
-- 
2.43.0


From 092b579a6b9c0fb3a6cbd5a5008d8649cff17668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 19/37] fix: KSupportNorm dropped the scaling factor when
 computing theta

---
 src/modopt/opt/proximity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index dea862c..2b94961 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1237,7 +1237,9 @@ class KSupportNorm(ProximityParent):
         alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
 
         # Computes line 4. in Algorithm 1
-        theta = self._compute_theta(np.abs(input_data.flatten()), alpha)
+        theta = self._compute_theta(
+            np.abs(input_data.flatten()), alpha, extra_factor
+        )
 
         # Computes line 5. in Algorithm 1.
         rslt = np.nan_to_num(
-- 
2.43.0


From e0edc71e0573e949a7eeff397ecddf488635151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 20/37] fix: ProximityCombo dropped the cost options (verbose)
 of its components

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 2b94961..ea63f00 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -581,7 +581,7 @@ class ProximityCombo(ProximityParent):
         """
         return np.sum(
             [
-                operator.cost(input_data)
+                operator.cost(input_data, **kwargs)
                 for operator, input_data in zip(self.operators, args[0])
             ]
         )
-- 
2.43.0


From f722c1a4d3b607c2b25d71f8108cdda1b4cbcd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 21/37] fix: WaveletTransform ignored the boundary mode on the
 numpy backend

---
 src/modopt/opt/linear/wavelet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 8012a07..209c213 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -99,7 +99,11 @@ class WaveletTransform(LinearParent):
             )
         elif compute_backend == "numpy" and pywt_available:
             self.operator = CPUWaveletTransform(
-                wavelet_name=wavelet_name, shape=shape, level=level, **kwargs
+                wavelet_name=wavelet_name,
+                shape=shape,
+                level=level,
+                mode=mode,
+                **kwargs,
             )
         else:
             raise ValueError(f"Compute Backend {compute_backend} not available")
-- 
2.43.0


From f46cdb750b2c73cd6033be84c0356e4c8a41da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 22/37] fix: batched wavelet transforms failed on undefined
 attributes and wrong arguments

---
 src/modopt/opt/linear/wavelet.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 209c213..bd50b38 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -228,11 +228,13 @@ class CPUWaveletTransform(LinearParent):
             the wavelet coefficients.
         """
         if self.n_batch > 1:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = zip(
-                *Parallel(
-                    n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
-                )(delayed(self._op)(data[i]) for i in np.arange(self.n_batch))
+            coeffs, slices, shapes = zip(
+                *Parallel(n_jobs=self.n_jobs, backend=self.backend)(
+                    delayed(self._op)(data[i]) for i in np.arange(self.n_batch)
+                )
             )
+            # All the elements of the batch share the same coefficient layout.
+            self.coeffs_slices, self.raw_coeffs_shape = slices[0], shapes[0]
             coeffs = np.asarray(coeffs)
         else:
             coeffs, self.coeffs_slices, self.raw_coeffs_shape = self._op(data)
@@ -260,11 +262,8 @@ class CPUWaveletTransform(LinearParent):
             the reconstructed data.
         """
         if self.n_batch > 1:
-            images = Parallel(
-                n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
-            )(
-                delayed(self._adj_op)(coeffs[i], self.coeffs_shape[i])
-                for i in np.arange(self.n_batch)
+            images = Parallel(n_jobs=self.n_jobs, backend=self.backend)(
+                delayed(self._adj_op)(coeffs[i]) for i in np.arange(self.n_batch)
             )
             images = np.asarray(images)
         else:
-- 
2.43.0


From af02efb208d2facfae33edd6c36ac6120c2b13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 23/37] fix: snr applied the mask to the test image only

---
 src/modopt/math/metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index befd4fa..88a1d7f 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -158,6 +158,7 @@ def snr(test, ref, mask=None):
 
     if mask is not None:
         test = mask * test
+        ref = mask * ref
 
     num = np.mean(np.square(test))
     deno = mse(test, ref)
-- 
2.43.0


From 3ad223c8645e841458f775db4e10db82df4f15a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 24/37] fix: close_log skipped handlers and left their files
 open

---
 src/modopt/interface/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 50c316b..fcafcdd 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -78,5 +78,6 @@ def close_log(log, verbose=True):
     log.info("The log file has been closed.")
 
     # Remove all handlers from log.
-    for log_handler in log.handlers:
+    for log_handler in list(log.handlers):
         log.removeHandler(log_handler)
+        log_handler.close()
-- 
2.43.0


From 8e24d19d7600f505c3791573759b4844c8290558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 25/37] fix: check_npndarray raised a tuple instead of the
 documented TypeError

---
 src/modopt/base/types.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/types.py b/src/modopt/base/types.py
index 9e9a15b..73e3d19 100644
--- a/src/modopt/base/types.py
+++ b/src/modopt/base/types.py
@@ -161,10 +161,8 @@ def check_npndarray(input_obj, dtype=None, writeable=True, verbose=True):
     if (not isinstance(dtype, type(None))) and (
         not np.issubdtype(input_obj.dtype, dtype)
     ):
-        raise (
-            TypeError(
-                f"The numpy array elements are not of type: {dtype}",
-            ),
+        raise TypeError(
+            f"The numpy array elements are not of type: {dtype}",
         )
 
     if not writeable and verbose and input_obj.flags.writeable:
-- 
2.43.0


From 59056ff2bf3eebe0c7c44b4770ecd126ed116bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 26/37] fix: FISTA raised TypeError while reporting an invalid
 restarting strategy

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 99ba6cc..50ad7a9 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -104,7 +104,7 @@ class FISTA:
             message = "Restarting strategy must be one of {0}."
             raise ValueError(
                 message.format(
-                    ", ".join(self._restarting_strategies),
+                    ", ".join(map(str, self._restarting_strategies)),
                 ),
             )
         self._t_now = 1.0
-- 
2.43.0


From 4c608c5969ca4650332ca6b739f2a8d9eee58d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 27/37] fix: move_to_cpu failed on tensorflow arrays

---
 src/modopt/base/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 485f649..2a65ee5 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -156,7 +156,7 @@ def move_to_cpu(input_data):
     elif xp == LIBRARIES["cupy"]:
         return input_data.get()
     elif xp == LIBRARIES["tensorflow"]:
-        return input_data.data.numpy()
+        return input_data.numpy()
     raise ValueError("Cannot identify the array type.")
 
 
-- 
2.43.0


From a41786410e22f08e4f247490fb2139513ad47e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 28/37] fix: GPU wavelet and tensor conversions failed with
 NameError when a package is missing

---
 src/modopt/base/backend.py       |  2 ++
 src/modopt/opt/linear/wavelet.py | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 2a65ee5..0410426 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -226,6 +226,8 @@ def convert_to_cupy_array(input_data):
         )
 
     if input_data.is_cuda:
+        if LIBRARIES["cupy"] is None:
+            raise ImportError("CuPy package not found.")
         return cp.fromDlpack(torch_to_dlpack(input_data))
 
     return input_data.detach().numpy()
diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index bd50b38..ddbfca0 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -16,10 +16,15 @@ try:
 except ImportError:
     pywt_available = False
 
-ptwt_available = True
+torch_available = True
 try:
     import ptwt
     import torch
+except ImportError:
+    torch_available = False
+
+ptwt_available = torch_available
+try:
     import cupy as cp
 except ImportError:
     ptwt_available = False
@@ -293,6 +298,8 @@ class TorchWaveletTransform:
         level,
         mode,
     ):
+        if not torch_available:
+            raise ImportError("ptwt and/or torch are not available.")
         self.wavelet = wavelet
         self.level = level
         self.shape = shape
@@ -425,6 +432,8 @@ class CupyWaveletTransform(LinearParent):
         level,
         mode,
     ):
+        if not ptwt_available:
+            raise ImportError("ptwt, torch and/or cupy are not available.")
         self.wavelet = wavelet
         self.level = level
         self.shape = shape
-- 
2.43.0


From 91b69476656616c8485ff3a9bbe43b4c11fbd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 29/37] fix: PowerMethod raised UnboundLocalError without
 iterations

---
 src/modopt/math/matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index 68e642d..bc13f05 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -352,6 +352,7 @@ class PowerMethod:
         x_old_norm = xp.linalg.norm(x_old)
 
         x_old /= x_old_norm
+        x_new_norm = x_old_norm
 
         # Iterate until the L2 norm of x converges.
         for i_elem in range(max_iter):
-- 
2.43.0


From a28dbc4289419a73398287fccc3564ace09ea802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 30/37] fix: call_mr_transform left temporary files behind when
 it failed

---
 src/modopt/signal/wavelet.py | 46 +++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index b55b78d..59336c5 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -18,6 +18,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 import subprocess as sp
 from datetime import datetime
 from os import remove
+from os.path import isfile
 from random import getrandbits
 
 import numpy as np
@@ -143,31 +144,32 @@ def call_mr_transform(
     file_fits = f"{file_name}.fits"
     file_mr = f"{file_name}.mr"
 
-    # Write the input data to a fits file.
-    fits.writeto(file_fits, input_data)
-
     if isinstance(opt, str):
         opt = opt.split()
 
-    # Prepare command and execute it
-    command_line = " ".join([executable, *opt, file_fits, file_mr])
-    stdout, _ = execute(command_line)
-
-    # Check for errors
-    if any(word in stdout for word in ("bad", "Error", "Sorry")):
-        remove(file_fits)
-        message = '{0} raised following exception: "{1}"'
-        raise RuntimeError(
-            message.format(executable, stdout.rstrip("\n")),
-        )
-
-    # Retrieve wavelet transformed data.
-    data_trans = fits.getdata(file_mr).astype(input_data.dtype)
-
-    # Remove the temporary files.
-    if remove_files:
-        remove(file_fits)
-        remove(file_mr)
+    try:
+        # Write the input data to a fits file.
+        fits.writeto(file_fits, input_data)
+
+        # Prepare command and execute it
+        command_line = " ".join([executable, *opt, file_fits, file_mr])
+        stdout, _ = execute(command_line)
+
+        # Check for errors
+        if any(word in stdout for word in ("bad", "Error", "Sorry")):
+            message = '{0} raised following exception: "{1}"'
+            raise RuntimeError(
+                message.format(executable, stdout.rstrip("\n")),
+            )
+
+        # Retrieve wavelet transformed data.
+        data_trans = fits.getdata(file_mr).astype(input_data.dtype)
+    finally:
+        # Remove the temporary files.
+        if remove_files:
+            for temp_file in (file_fits, file_mr):
+                if isfile(temp_file):
+                    remove(temp_file)
 
     # Return the mr_transform results.
     return data_trans
-- 
2.43.0


From 4db5596639365f91572016f23c6aa19fe3e1524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 31/37] fix: call_mr_transform split paths and options
 containing blanks

---
 src/modopt/signal/wavelet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index 59336c5..bcae3bd 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -15,6 +15,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 
 """
 
+import shlex
 import subprocess as sp
 from datetime import datetime
 from os import remove
@@ -59,7 +60,7 @@ def execute(command_line):
     if not isinstance(command_line, str):
         raise TypeError("Command line must be a string.")
 
-    command = command_line.split()
+    command = shlex.split(command_line)
 
     process = sp.Popen(command, stdout=sp.PIPE, stderr=sp.PIPE)
     stdout, stderr = process.communicate()
@@ -152,7 +153,7 @@ def call_mr_transform(
         fits.writeto(file_fits, input_data)
 
         # Prepare command and execute it
-        command_line = " ".join([executable, *opt, file_fits, file_mr])
+        command_line = shlex.join([executable, *opt, file_fits, file_mr])
         stdout, _ = execute(command_line)
 
         # Check for errors
-- 
2.43.0


From 8f9d5b4d149fcabea8c50d2d034ed0182cc02ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 32/37] fix: accept proximity weights whose sum is 1 up to
 rounding

The default weights 1/n of GenForwardBackward were refused for 6, 7, 13, ...
operators because their floating-point sum is not exactly 1.
---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 50ad7a9..a1c1018 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -684,7 +684,7 @@ class GenForwardBackward(SetUp):
 
         expected_weight_sum = 1.0
 
-        if self.xp.sum(weights) != expected_weight_sum:
+        if not self.xp.isclose(self.xp.sum(weights), expected_weight_sum):
             raise ValueError(
                 "Proximity operator weights must sum to 1.0. Current sum of "
                 + f"weights = {self.xp.sum(weights)}",
-- 
2.43.0


From 54b686f9af0464034124050f3c20bbee13885a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 33/37] fix: apply beta_update of ForwardBackward together with
 FISTA

The update method given by the user was replaced by the one of FISTA, which
only acts with the greedy restart, so the documented option had no effect.
---
 src/modopt/opt/algorithms/forward_backward.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index a1c1018..ad86dbd 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -402,7 +402,10 @@ class ForwardBackward(SetUp):
             fista = FISTA(**kwargs)
             self._lambda_update = fista.update_lambda
             self._is_restart = fista.is_restart
-            self._beta_update = fista.update_beta
+            if beta_update is None:
+                self._beta_update = fista.update_beta
+            else:
+                self._beta_update = lambda beta: fista.update_beta(beta_update(beta))
         else:
             self._check_param_update(lambda_update)
             self._lambda_update = lambda_update
-- 
2.43.0


From 909fa7e73dfd91ee17c836c8cc6e300637f3b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:42 +0000
Subject: [PATCH 34/37] fix: solvers raised AttributeError when asked for no
 iterations

---
 src/modopt/opt/algorithms/forward_backward.py | 4 ++++
 src/modopt/opt/algorithms/primal_dual.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index ad86dbd..e13ed3f 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -365,6 +365,8 @@ class ForwardBackward(SetUp):
         self._check_input_data(x)
         self._x_old = self.copy_data(x)
         self._z_old = self.copy_data(x)
+        self._x_new = self.copy_data(x)
+        self._z_new = self.copy_data(x)
 
         # Set the algorithm operators
         for operator in (grad, prox, cost):
@@ -601,6 +603,7 @@ class GenForwardBackward(SetUp):
         # Set the initial variable values
         self._check_input_data(x)
         self._x_old = self.xp.copy(x)
+        self._x_new = self.xp.copy(x)
 
         # Set the algorithm operators
         for operator in [grad, cost, *prox_list]:
@@ -895,6 +898,7 @@ class POGM(SetUp):
 
         self._u_old = self.xp.copy(u)
         self._x_old = self.xp.copy(x)
+        self._x_new = self.xp.copy(x)
         self._y_old = self.xp.copy(y)
         self._z = self.xp.copy(z)
 
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index ff7a9a1..3feb50f 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -107,7 +107,9 @@ class Condat(SetUp):
             self._check_input_data(input_data)
 
         self._x_old = self.xp.copy(x)
+        self._x_new = self.xp.copy(x)
         self._y_old = self.xp.copy(y)
+        self._y_new = self.xp.copy(y)
 
         # Set the algorithm operators
         for operator in (grad, prox, prox_dual, linear, cost):
-- 
2.43.0


From e28d9f99be768f9c706ebc00f53499f6ea9926e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 35/37] fix: notify every observer although one removes itself
 while notified

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5642fd3..e214f3a 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -106,7 +106,7 @@ class Observable:
             for name, key_value in kwargs.items():
                 setattr(signal_to_be_notified, name, key_value)
             # Notify all the observers
-            for observer in self._observers[signal]:
+            for observer in list(self._observers[signal]):
                 observer(signal_to_be_notified)
         finally:
             # Unlock the notification process
-- 
2.43.0


From 8b4dbdb421069acaf8139960f269335bc2990c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 36/37] fix: accept a progress bar that has no total

---
 src/modopt/opt/algorithms/base.py        | 4 ++--
 src/modopt/opt/algorithms/primal_dual.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 4a49fc6..052ff11 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -284,7 +284,7 @@ class SetUp(Observable):
                     print(" - Converged!")
                 break
 
-            if progbar:
+            if progbar is not None:
                 progbar.update()
 
     def _run_alg(self, max_iter, progbar=None):
@@ -308,7 +308,7 @@ class SetUp(Observable):
         if self.progress and progbar is None:
             with tqdm(total=max_iter) as pb:
                 self._iterations(max_iter, progbar=pb)
-        elif progbar:
+        elif progbar is not None:
             self._iterations(max_iter, progbar=progbar)
         else:
             self._iterations(max_iter)
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index 3feb50f..28ae0b7 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -243,7 +243,7 @@ class Condat(SetUp):
         if not isinstance(self._reweight, type(None)):
             for _ in range(n_rewightings):
                 self._reweight.reweight(self._linear.op(self._x_new))
-                if progbar:
+                if progbar is not None:
                     progbar.reset(total=max_iter)
                 self._run_alg(max_iter, progbar)
 
-- 
2.43.0


From b2191793522b6c12ca36244e22668a46d9efec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:27 +0000
Subject: [PATCH 37/37] fix: apply the adjoint wavelet transform before any
 forward transform

---
 src/modopt/opt/linear/wavelet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index ddbfca0..faba4b1 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -206,6 +206,9 @@ class CPUWaveletTransform(LinearParent):
             self.idwt = pywt.waverec
             self._pywt_fun = "wavedec"
 
+        # The layout of the coefficients depends on the shape of the data only.
+        _, self.coeffs_slices, self.raw_coeffs_shape = self._op(np.zeros(self.shape))
+
         self.n_batch = n_batch
         if self.n_batch == 1 and self.n_jobs != 1:
             warnings.warn(
-- 
2.43.0

