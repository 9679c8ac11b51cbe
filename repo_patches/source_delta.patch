From e2d8f250ec25cd9d9b5df37631f2fd4ae441d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 01/35] fix: use the builtin int dtype (np.int was removed from
 NumPy), so Pareto ranking and SOP run

---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From 4ded48ea8b72c2771014d0aef18dbbf20e8a0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 02/35] fix: GPRegressor.predict returns predictions of size
 num_pts x 1 as documented

---
 pySOT/surrogate/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..74085ce 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,7 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        return self._mu + self._sigma * self.model.predict(xx).reshape(-1, 1)
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From 2140abb4f255ec02bc547812717a3d3ac66cc947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 03/35] fix: DYCORS candidates perturb exactly the coordinates
 in subset, and any of them can be the fallback

---
 pySOT/auxiliary_problems/candidate_dycors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..094d6c3 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,13 +75,13 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
-    for i in subset:
+    for j, i in enumerate(subset):
         lower, upper, sigma = opt_prob.lb[i], opt_prob.ub[i], scalefactors[i]
-        ind = np.where(ar[:, i] == 1)[0]
-        cand[ind, subset[i]] = stats.truncnorm.rvs(
+        ind = np.where(ar[:, j] == 1)[0]
+        cand[ind, i] = stats.truncnorm.rvs(
             a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=len(ind)
         )
 
-- 
2.43.0


From 3f7337db4cf6d6eac7120f2cd6a21449423b2875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 04/35] fix: Surrogate.add_points accepts any real scalar
 value, not only float

---
 pySOT/surrogate/surrogate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/surrogate/surrogate.py b/pySOT/surrogate/surrogate.py
index 89edafd..8017881 100644
--- a/pySOT/surrogate/surrogate.py
+++ b/pySOT/surrogate/surrogate.py
@@ -59,8 +59,7 @@ class Surrogate(ABC):
         :type fx: numpy.array or float
         """
         xx = np.atleast_2d(xx)
-        if isinstance(fx, float):
-            fx = np.array([fx])
+        fx = np.asarray(fx, dtype=float)
         if fx.ndim == 0:
             fx = np.expand_dims(fx, axis=0)
         if fx.ndim == 1:
-- 
2.43.0


From 3ac74f997e993dab877c79f39abd4b6bd7ab2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 05/35] fix: terminate after convergence when restarts are
 disabled instead of proposing nothing forever

---
 pySOT/strategy/surrogate_strategy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..9c5483f 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -194,6 +194,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Check if evaluation based termination criterion has been reached."""
         if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted
             self.terminate = True
+        elif self.converged and not self.use_restarts:  # Nothing more to do without restarts
+            self.terminate = True
 
     def sample_restart(self):
         """Restart a run after convergence."""
@@ -288,6 +290,9 @@ class SurrogateBaseStrategy(BaseStrategy):
 
             # We allow generate_evals to trigger a restart, so check if status has changed
             if self.converged:
+                if not self.use_restarts:  # Terminate as soon as nothing is pending
+                    self.terminate = True
+                    return Proposal("terminate") if self.pending_evals == 0 else None
                 if self.use_restarts:  # Start a new run
                     if self.asynchronous or self.pending_evals == 0:  # We can restart immidiately, else wait
                         self.sample_restart()  # Trigger the restart
-- 
2.43.0


From 466fc9cd243b7068ca65b70cb0743f03b75a4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 06/35] fix: save the temporary checkpoint next to the
 checkpoint, so a path with a directory works

---
 pySOT/strategy/surrogate_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 9c5483f..072c8e0 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -174,7 +174,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        dirname, basename = os.path.split(fname)
+        temp_fname = os.path.join(dirname, "temp_" + basename)  # Same directory, so that the move is atomic
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From e9dbea04b7ce02df534ba6958ae2bdbc1e541a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 07/35] fix: GeneticAlgorithm accepts an initial population
 inside the domain, rejects one outside, and copies it

---
 pySOT/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index e6419d2..909bbd6 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -268,11 +268,11 @@ class GeneticAlgorithm:
         if isinstance(self.start, np.ndarray):
             if self.start.shape[0] != self.nindividuals or self.start.shape[1] != self.nvariables:
                 raise ValueError("Initial population has incorrect size")
-            if any(np.min(self.start, axis=0) >= self.lower_boundary) or any(
-                np.max(self.start, axis=0) <= self.upper_boundary
+            if any(np.min(self.start, axis=0) < self.lower_boundary) or any(
+                np.max(self.start, axis=0) > self.upper_boundary
             ):
                 raise ValueError("Initial population is outside the domain")
-            population = self.start
+            population = np.copy(self.start)  # Do not modify the input
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From c32f7fda9390d895a536bf64086e0c437c05a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 08/35] fix: input checks reject budgets, dimensions and center
 counts that are not positive integers or are too small

---
 pySOT/strategy/random_strategy.py    | 4 ++--
 pySOT/strategy/sop_strategy.py       | 2 +-
 pySOT/strategy/surrogate_strategy.py | 2 +-
 pySOT/utils.py                       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..5685a41 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -24,8 +24,8 @@ class RandomStrategy(BaseStrategy):
 
     def __init__(self, max_evals, opt_prob):
         check_opt_prob(opt_prob)
-        if not isinstance(max_evals, int) and max_evals > 0:
-            raise ValueError("max_evals must be an integer >= exp_des.num_pts")
+        if not (isinstance(max_evals, int) and max_evals > 0):
+            raise ValueError("max_evals must be a positive integer")
 
         self.opt_prob = opt_prob
         self.max_evals = max_evals
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..52533d0 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -230,7 +230,7 @@ class SOPStrategy(SurrogateBaseStrategy):
     def check_input(self):
         """Check inputs."""
         super().check_input()
-        if not isinstance(self.ncenters, int) and self.ncenters > 3:
+        if not (isinstance(self.ncenters, int) and self.ncenters > 3):
             raise ValueError("ncenters should be an integer greater than 3")
         if not self.asynchronous:
             if not self.ncenters >= self.batch_size:
diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 072c8e0..e15871a 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -160,7 +160,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         check_opt_prob(self.opt_prob)
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
-        if not isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts:
+        if not (isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts):
             raise ValueError("max_evals must be an integer >= exp_des.num_pts")
 
     def save(self, fname):
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 909bbd6..c482cfa 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -109,7 +109,7 @@ def check_opt_prob(obj):  # pragma: no cover
     if not isinstance(obj, OptimizationProblem):
         raise TypeError("Input does not implement OptimizationProblem")
 
-    if not isinstance(obj.dim, int) and obj.dim() > 0:
+    if not (isinstance(obj.dim, int) and obj.dim > 0):
         raise ValueError("dim must be a positive integer")
 
     if not isinstance(obj.lb, np.ndarray):
-- 
2.43.0


From ad9ce7c42c6bb17b840b57b02780cf39e65a8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 09/35] fix: RBFInterpolant keeps a user-supplied kernel or
 tail when the other is left to default

---
 pySOT/surrogate/rbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/surrogate/rbf.py b/pySOT/surrogate/rbf.py
index 817118d..0e8a2af 100644
--- a/pySOT/surrogate/rbf.py
+++ b/pySOT/surrogate/rbf.py
@@ -67,8 +67,9 @@ class RBFInterpolant(Surrogate):
     def __init__(self, dim, lb, ub, output_transformation=None, kernel=None, tail=None, eta=1e-6):
         super().__init__(dim=dim, lb=lb, ub=ub, output_transformation=output_transformation)
 
-        if kernel is None or tail is None:
+        if kernel is None:
             kernel = CubicKernel()
+        if tail is None:
             tail = LinearTail(dim)
         assert isinstance(kernel, Kernel) and isinstance(tail, Tail)
 
-- 
2.43.0


From e1e2ba3d865d318ac7e66f63a221018b7cc08450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 10/35] fix: RandomStrategy proposes integers for integer
 variables

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index 5685a41..56a330a 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub).ravel()
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From d333365b34c6a26a59a32d18026b4a43aac1c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 11/35] fix: TPSKernel no longer modifies the distances it is
 given

---
 pySOT/surrogate/kernels/tps_kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/surrogate/kernels/tps_kernel.py b/pySOT/surrogate/kernels/tps_kernel.py
index 564c492..ed4ec24 100644
--- a/pySOT/surrogate/kernels/tps_kernel.py
+++ b/pySOT/surrogate/kernels/tps_kernel.py
@@ -25,7 +25,7 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|^2 \\log (\\|x_i - x_j \\|)`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return (dists ** 2) * np.log(dists)
 
     def deriv(self, dists):
@@ -38,5 +38,5 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|(1 + 2 \\log (\\|x_i - x_j \\|) )`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return dists * (1 + 2 * np.log(dists))
-- 
2.43.0


From 9c6f08efb3c1b6fbcbc8220c88245c4815478d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 12/35] fix: extra points whose value is given as np.inf are
 evaluated, as documented

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index e15871a..a430486 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -241,7 +241,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
-- 
2.43.0


From da94a1c2e0053d6efbb5cbca43d61558a84aa169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 13/35] fix: a resumed run spends the budget of the evaluations
 that were pending at the snapshot

---
 pySOT/strategy/surrogate_strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index a430486..7f7303d 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -188,6 +188,7 @@ class SurrogateBaseStrategy(BaseStrategy):
                 self.batch_queue.append(np.copy(x))
 
         # Remove everything that was pending
+        self.terminate = False  # Pending evaluations were lost, so there may be budget left
         self.pending_evals = 0
         self.Xpend = np.empty([0, self.opt_prob.dim])
 
-- 
2.43.0


From 33dcc4d88372505bb45e0ef6481e910c79d00f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 14/35] fix: only one entry of the pending list is removed per
 finished evaluation

---
 pySOT/strategy/surrogate_strategy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 7f7303d..6b232a8 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -314,7 +314,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def remove_pending(self, x):
         """Delete a pending point from self.Xpend."""
-        idx = np.where((self.Xpend == x).all(axis=1))[0]
+        idx = np.where((self.Xpend == x).all(axis=1))[0][:1]  # One evaluation of x is no longer pending
         self.Xpend = np.delete(self.Xpend, idx, axis=0)
 
     # == Processing in initial phase ==
@@ -344,7 +344,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From bce9370abc4fed9515ca9167c79e8de4bacc0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 15/35] fix: evaluations in flight when the sampling radius
 changes still reach the surrogate of the current run

---
 pySOT/strategy/surrogate_strategy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 6b232a8..05a498c 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -131,6 +131,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
         # Event indices to keep track of if points where proposed before an event (restart, parameter change, etc.)
         self.ev_last = 0
+        self.ev_restart = 0  # Event index of the last restart
         self.ev_next = 1
 
         # Check inputs (implemented by each strategy)
@@ -201,7 +202,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def sample_restart(self):
         """Restart a run after convergence."""
-        self.ev_last = self.get_ev()
+        self.ev_last = self.ev_restart = self.get_ev()
 
         # Reset data in current run
         self._X = np.empty([0, self.opt_prob.dim])
@@ -364,7 +365,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
@@ -429,7 +430,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
-- 
2.43.0


From d85e837f478b7ba6ec881f3e5f3e041096737157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 16/35] fix: known extra points are part of the data of the
 first run, and queued ones do not alias the input

---
 pySOT/strategy/surrogate_strategy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 05a498c..484dec5 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -244,11 +244,13 @@ class SurrogateBaseStrategy(BaseStrategy):
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
                 if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
-                    self.batch_queue.append(self.extra_points[i, :])
+                    self.batch_queue.append(np.copy(self.extra_points[i, :]))
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
                     self.X = np.vstack((self.X, x))
                     self.fX = np.vstack((self.fX, self.extra_vals[i]))
+                    self._X = np.vstack((self._X, x))
+                    self._fX = np.vstack((self._fX, self.extra_vals[i]))
                     self.surrogate.add_points(x, self.extra_vals[i])
 
     def propose_action(self):
-- 
2.43.0


From e7c83a66484d8c5d296863a7d5cc140555c83d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 17/35] fix: the checkpoint taken when an evaluation finishes
 includes that evaluation

---
 pySOT/controller/controller.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..013146c 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -48,7 +48,18 @@ class CheckpointController(object):
         :param record: Evaluation record
         :type record: EvalRecord
         """
-        record.add_callback(self.on_update)
+        record.add_callback(self._on_first_update)
+
+    def _on_first_update(self, record):
+        """Internal handler -- add on_update after the callbacks of the strategy.
+
+        The strategy has recorded the evaluation when on_update saves it.
+
+        :param record: Evaluation record
+        :type record: EvalRecord
+        """
+        if self.on_update not in record.callbacks:
+            record.add_callback(self.on_update)
 
     def on_new_feval(self, record):
         """Handle new function evaluation request.
-- 
2.43.0


From 5bca74158737c4444e9d979b49f63d6ec19a97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 18/35] fix: Exponential and Levy compute their documented
 formulas and Branin's domain contains its minimizer

---
 pySOT/optimization_problems/branin.py      | 4 ++--
 pySOT/optimization_problems/exponential.py | 2 +-
 pySOT/optimization_problems/levy.py        | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/optimization_problems/branin.py b/pySOT/optimization_problems/branin.py
index 19c2a77..703ee1e 100644
--- a/pySOT/optimization_problems/branin.py
+++ b/pySOT/optimization_problems/branin.py
@@ -24,8 +24,8 @@ class Branin(OptimizationProblem):
         self.min = 0.397887
         self.minimum = np.array([-np.pi, 12.275])
         self.dim = 2
-        self.lb = -3.0 * np.ones(2)
-        self.ub = 3.0 * np.ones(2)
+        self.lb = np.array([-5.0, 0.0])
+        self.ub = np.array([10.0, 15.0])
         self.int_var = np.array([])
         self.cont_var = np.arange(0, 2)
         self.info = "2-dimensional Branin function \nGlobal optimum: " + "f(-pi, 12.275) = 0.397887"
diff --git a/pySOT/optimization_problems/exponential.py b/pySOT/optimization_problems/exponential.py
index 6f7831d..a713455 100644
--- a/pySOT/optimization_problems/exponential.py
+++ b/pySOT/optimization_problems/exponential.py
@@ -47,5 +47,5 @@ class Exponential(OptimizationProblem):
         self.__check_input__(x)
         total = 0.0
         for i in range(len(x)):
-            total += np.exp((i + 1) * x[i - 1]) - np.exp(-5.12 * (i + 1))
+            total += np.exp((i + 1) * x[i]) - np.exp(-5.12 * (i + 1))
         return total
diff --git a/pySOT/optimization_problems/levy.py b/pySOT/optimization_problems/levy.py
index b6b4791..7ca28ca 100644
--- a/pySOT/optimization_problems/levy.py
+++ b/pySOT/optimization_problems/levy.py
@@ -43,6 +43,6 @@ class Levy(OptimizationProblem):
         d = self.dim
         return (
             np.sin(np.pi * w[0]) ** 2
-            + np.sum((w[1 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[1 : d - 1] + 1) ** 2))
+            + np.sum((w[0 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[0 : d - 1] + 1) ** 2))
             + (w[d - 1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[d - 1]) ** 2)
         )
-- 
2.43.0


From f919be7b8dbc6a0d52fad0615beff95ab5e2a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 19/35] fix: lcb_ga works with its default lcb_target

---
 pySOT/auxiliary_problems/lcb_ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/lcb_ga.py b/pySOT/auxiliary_problems/lcb_ga.py
index 73cbe1f..18080b4 100644
--- a/pySOT/auxiliary_problems/lcb_ga.py
+++ b/pySOT/auxiliary_problems/lcb_ga.py
@@ -52,7 +52,7 @@ def lcb_ga(num_pts, opt_prob, surrogate, X, fX, Xpend=None, kappa=2.0, dtol=1e-3
         )
         x_best, f_min = ga.optimize()
 
-        if f_min > lcb_target:
+        if lcb_target is not None and f_min > lcb_target:
             return None  # Give up
 
         new_points[i, :] = x_best
-- 
2.43.0


From 30aadc6ead9f72262fcfcb708027c8cb0298ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 20/35] fix: LatinHypercube designs follow NumPy's global
 random state

---
 pySOT/experimental_design/lhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/experimental_design/lhd.py b/pySOT/experimental_design/lhd.py
index 194693b..5de9f4e 100644
--- a/pySOT/experimental_design/lhd.py
+++ b/pySOT/experimental_design/lhd.py
@@ -52,6 +52,8 @@ class LatinHypercube(ExperimentalDesign):
             int_var = np.array([])
 
         def wrapper():
-            return pydoe.lhs(self.dim, self.num_pts, iterations=1)
+            # Without random_state, pyDOE2 draws from a fresh generator that np.random.seed doesn't control
+            seed = np.random.randint(2 ** 31 - 1)
+            return pydoe.lhs(self.dim, self.num_pts, iterations=1, random_state=seed)
 
         return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)
-- 
2.43.0


From c218f34f0ab5d1b5c5086c4aa2a3a368e8ff2460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 21/35] fix: SOP keeps the non-domination ranks it computes, so
 centers are selected by rank

---
 pySOT/strategy/sop_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 52533d0..e415177 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -400,6 +400,8 @@ class SOPStrategy(SurrogateBaseStrategy):
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
         F[:, self.opt_prob.dim + 3] = ranks.transpose()
+        for srec, rank in zip(self.evals, ranks):
+            srec.rank = rank
         self.F_ranked = np.copy(F)
 
     def update_center_list(self):
-- 
2.43.0


From 28fa509148db4a996cc625b4fa896d5e032d765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 22/35] fix: SOP handles synchronous batches with fewer points
 than centers

---
 pySOT/strategy/sop_strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index e415177..ea0f008 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -324,8 +324,8 @@ class SOPStrategy(SurrogateBaseStrategy):
 
         """
 
-        if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
+        if index is None:  # Batch mode - update memory for all centers with an evaluated new point
+            indices = [i for i, center in enumerate(self.centers) if center.new_index is not None]
         else:  # asynchronous mode
             indices = [index]
 
-- 
2.43.0


From 66c4ed5798059537c72aadbf2ce60aa6cad8efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 23/35] fix: SOP centers whose evaluation was rejected, aborted
 or lost become available again

---
 pySOT/strategy/sop_strategy.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index ea0f008..2e93d2f 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -109,6 +109,10 @@ class _SopCenter:
         else:
             self._new_point = value
 
+    def clear_new_point(self):
+        """Forget the new proposed point"""
+        self._new_point = None
+
     @property
     def new_index(self):
         """Get location / index of new point"""
@@ -268,6 +272,29 @@ class SOPStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def on_adapt_reject(self, proposal):
+        """Handle rejected proposal from sampling phase."""
+        super().on_adapt_reject(proposal)
+        self.release_centers()
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted feval from sampling phase."""
+        super().on_adapt_aborted(record)
+        self.release_centers()
+
+    def resume(self):
+        """Resume a terminated run."""
+        super().resume()
+        self.release_centers()
+
+    def release_centers(self):
+        """Make centers available again if the evaluation of their new point was lost."""
+        active = [np.ravel(x) for x in self.batch_queue] + list(self.Xpend)
+        for center in self.centers:
+            if center.new_point is not None and center.new_index is None:
+                if not any(np.array_equal(center.new_point, x) for x in active):
+                    center.clear_new_point()
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
-- 
2.43.0


From 10fc97bc00e9544f827b5533f1742417fc3b9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 24/35] fix: SRBF weights may be given as a numpy.array, as
 documented

---
 pySOT/strategy/srbf_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..a8751eb 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, list) or isinstance(self.weights, np.ndarray)
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
-- 
2.43.0


From 5bca8fd2c39c544196c62d4492b4a2b536c4e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 25/35] fix: evaluations aborted after the budget was fully
 assigned are made available again

The strategy latched terminate as soon as completed plus outstanding evaluations
reached the budget, so a run ended early (and initial points put back into the
queue were lost) when one of the outstanding evaluations was aborted or rejected.
---
 pySOT/strategy/surrogate_strategy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 484dec5..519634c 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -195,7 +195,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def check_termination(self):
         """Check if evaluation based termination criterion has been reached."""
-        if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted
+        if self.pending_evals == 0 and self.num_evals >= self.max_evals:  # Budget exhausted
             self.terminate = True
         elif self.converged and not self.use_restarts:  # Nothing more to do without restarts
             self.terminate = True
@@ -274,6 +274,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         if self.terminate:  # Check if termination has been triggered
             if self.pending_evals == 0:  # Only terminate if nothing is pending, otherwise take no action
                 return Proposal("terminate")
+        elif self.num_evals + self.pending_evals >= self.max_evals:
+            return  # The rest of the budget is pending, wait as it is available again if evaluations are aborted
         elif self.converged:
             if self.use_restarts:  # Start a new run
                 if self.asynchronous or self.pending_evals == 0:  # We can restart immidiately, else wait
-- 
2.43.0


From 5178cdafb5eef4eaaf911f6ef3a5d491627eeba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 26/35] fix: a selected candidate was chosen again when the
 merit weight is zero and dtol is zero

---
 pySOT/auxiliary_problems/candidate_srbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/candidate_srbf.py b/pySOT/auxiliary_problems/candidate_srbf.py
index 4bab802..caff1c2 100644
--- a/pySOT/auxiliary_problems/candidate_srbf.py
+++ b/pySOT/auxiliary_problems/candidate_srbf.py
@@ -45,7 +45,7 @@ def weighted_distance_merit(num_pts, surrogate, X, fX, cand, weights, Xpend=None
         w = weights[i]
         merit = w * fvals + (1.0 - w) * (1.0 - unit_rescale(np.copy(dmerit)))
 
-        merit[dmerit < dtol] = np.inf
+        merit[np.logical_or(dmerit < dtol, np.isinf(fvals))] = np.inf  # Too close or already chosen
         jj = np.argmin(merit)
         fvals[jj] = np.inf
         new_points[i, :] = cand[jj, :].copy()
-- 
2.43.0


From 5df44ebe0ced0796ddd02b1a5ffa2be618fe70ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 27/35] fix: synchronous SOP crashed after two centers proposed
 the same point

---
 pySOT/strategy/sop_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 2e93d2f..081a995 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -262,6 +262,8 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
+                if self.centers[i].new_index is not None:
+                    continue  # Another evaluation of the same point belongs to this center
                 if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
-- 
2.43.0


From 88706b18a78e26ae51cc531a90e3a50691f76304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 28/35] fix: synchronous SOP proposed the same point from
 several centers of a batch

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 081a995..6ea0625 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -334,7 +334,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                 weights=weights,
                 sampling_radius=sampling_radius,
                 num_cand=self.num_cand,
-                Xpend=self.Xpend,
+                Xpend=np.vstack((self.Xpend, new_points[:i, :])),  # Keep the distance to this batch as well
                 prob_perturb=prob_perturb,
                 xbest=X_c,
             )
-- 
2.43.0


From 1b2d4b862c385e8175684484eb2c47f86163eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 29/35] fix: check_opt_prob accepted a repeated index together
 with an unclassified variable

---
 pySOT/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index c482cfa..fa33f16 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -144,7 +144,7 @@ def check_opt_prob(obj):  # pragma: no cover
             raise AttributeError("Integer variable index can't exceed " "number of dimensions or be negative")
     if not (len(np.intersect1d(contvar, intvar)) == 0):
         raise AttributeError("A variable can't be both " "an integer and continuous")
-    if not (len(contvar) + len(intvar) == obj.dim):
+    if not (len(contvar) + len(intvar) == len(np.union1d(contvar, intvar)) == obj.dim):
         raise AttributeError("All variables must be either " "integer or continuous")
 
 
-- 
2.43.0


From 8e2c7b54a296790ef7fedef53a1f240ecb302b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:22 +0000
Subject: [PATCH 30/35] fix: return the derivatives of a MARS model for every
 query point

---
 pySOT/surrogate/mars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/mars.py b/pySOT/surrogate/mars.py
index b9518e9..dcb13b5 100644
--- a/pySOT/surrogate/mars.py
+++ b/pySOT/surrogate/mars.py
@@ -90,4 +90,4 @@ class MARSInterpolant(Surrogate):
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
         dfx = self.model.predict_deriv(xx, variables=None)
-        return dfx[0] / (self.ub - self.lb)
+        return np.reshape(dfx, xx.shape) / (self.ub - self.lb)
-- 
2.43.0


From 19168e236698f731aa11e8364c2338a0365c38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:57 +0000
Subject: [PATCH 31/35] fix: round integer variables to an integer inside
 fractional bounds

---
 pySOT/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index fa33f16..a2c887e 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -87,9 +87,9 @@ def round_vars(x, int_var, lb, ub):
         # Make sure we don't violate the bound constraints
         for i in int_var:
             ind = np.where(x[:, i] < lb[i])
-            x[ind, i] = lb[i]
+            x[ind, i] = np.ceil(lb[i])
             ind = np.where(x[:, i] > ub[i])
-            x[ind, i] = ub[i]
+            x[ind, i] = np.floor(ub[i])
     return x
 
 
-- 
2.43.0


From 63ed010bcc0b846a21f624b8801f65fc88e42927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:52 +0000
Subject: [PATCH 32/35] fix: rank SOP points of the initial design that are
 completed after the last ranking

---
 pySOT/strategy/sop_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 6ea0625..91cf433 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -301,7 +301,8 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
+        # Start of the adaptive phase, or points from the initial design were completed since the last ranking
+        if self.F_ranked is None or len(self.F_ranked) < self.num_evals:
             self.update_ranks()
         self.update_center_list()
 
-- 
2.43.0


From 6a03f362be8602650bab88d0d54a13ce7aa4daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:08 +0000
Subject: [PATCH 33/35] fix: update the memory of an asynchronous SOP center
 only for its own new point

---
 pySOT/strategy/sop_strategy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 91cf433..6436a80 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -354,10 +354,12 @@ class SOPStrategy(SurrogateBaseStrategy):
 
         """
 
-        if index is None:  # Batch mode - update memory for all centers with an evaluated new point
-            indices = [i for i, center in enumerate(self.centers) if center.new_index is not None]
-        else:  # asynchronous mode
+        if index is not None:  # asynchronous mode
             indices = [index]
+        elif self.asynchronous:  # The new point doesn't belong to a center
+            indices = []
+        else:  # Batch mode - update memory for all centers with an evaluated new point
+            indices = [i for i, center in enumerate(self.centers) if center.new_index is not None]
 
         # Re-evaluate bi-objective ranks after adding new point(s)
         # NOTE: Re-evaluation needed because minimum distance is updated
-- 
2.43.0


From 1f8fabeea9958a0183b009731208461a6bafd657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:54 +0000
Subject: [PATCH 34/35] fix: keep requeued points of the initial design in the
 initial phase

---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 519634c..835127f 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -349,6 +349,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
+        self.phase = 1  # It is still a point of the initial design
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
@@ -382,6 +383,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = record.params[0]
         self.batch_queue.append(xx)
+        self.phase = 1  # It is still a point of the initial design
         self.remove_pending(xx)
         self.fevals.append(record)
 
-- 
2.43.0


From 0587610bb002f3ffbb7cd562d0e29cb7240d273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:45 +0000
Subject: [PATCH 35/35] fix: update the SOP memory of a synchronous batch that
 ends with an aborted evaluation

---
 pySOT/strategy/sop_strategy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 6436a80..393f220 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -301,9 +301,13 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        # Start of the adaptive phase, or points from the initial design were completed since the last ranking
-        if self.F_ranked is None or len(self.F_ranked) < self.num_evals:
+        if self.F_ranked is None:  # If this is the start of adaptive phase
             self.update_ranks()
+        elif len(self.F_ranked) < self.num_evals:  # Points were completed since the last ranking
+            if self.asynchronous:  # They are from the initial design
+                self.update_ranks()
+            else:  # The last evaluation of the batch was aborted
+                self.adjust_memory()
         self.update_center_list()
 
         # Compute dycors perturbation probability
-- 
2.43.0

