From 4c724e72793b5783d010e695745f9089b9f6c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/40] fix: nd_sorting and SOP center selection crash with
 NumPy >= 1.24

np.int no longer exists, so every call raised AttributeError.
---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From ad24f342b0eac3634f476404304aeb51c342a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/40] fix: GPRegressor.predict returns a num_pts x 1 array
 again

scikit-learn returns a 1-D array for a single target; the candidate searches
and the EI/LCB merit functions then broadcast it into a square matrix.
---
 pySOT/surrogate/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..9ff793d 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,7 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        return self._mu + self._sigma * np.reshape(self.model.predict(xx), (-1, 1))
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From 3e5fcb5c45280d3a0500d0e867eabd17ad55a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/40] fix: RandomStrategy proposes fractional values for
 integer variables

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..110d6e0 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub)[0, :]
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From baa40ea5e8f55e4ec438685c2c110de74d1aee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/40] fix: round_vars returns a non-integer when an integer
 variable has fractional bounds

---
 pySOT/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index e6419d2..043adfe 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -87,9 +87,9 @@ def round_vars(x, int_var, lb, ub):
         # Make sure we don't violate the bound constraints
         for i in int_var:
             ind = np.where(x[:, i] < lb[i])
-            x[ind, i] = lb[i]
+            x[ind, i] = np.ceil(lb[i])
             ind = np.where(x[:, i] > ub[i])
-            x[ind, i] = ub[i]
+            x[ind, i] = np.floor(ub[i])
     return x
 
 
-- 
2.43.0


From cd61bdd9592cb4424bf804a78586a96200943f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/40] fix: Surrogate.add_points crashes when the function
 value is a Python int

---
 pySOT/surrogate/surrogate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/surrogate/surrogate.py b/pySOT/surrogate/surrogate.py
index 89edafd..a6286b8 100644
--- a/pySOT/surrogate/surrogate.py
+++ b/pySOT/surrogate/surrogate.py
@@ -59,8 +59,7 @@ class Surrogate(ABC):
         :type fx: numpy.array or float
         """
         xx = np.atleast_2d(xx)
-        if isinstance(fx, float):
-            fx = np.array([fx])
+        fx = np.asarray(fx)
         if fx.ndim == 0:
             fx = np.expand_dims(fx, axis=0)
         if fx.ndim == 1:
-- 
2.43.0


From 4b952abb679ac924d7da97d485d4453ebcfd3f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 06/40] fix: TPSKernel overwrites the distance matrix it is
 given

---
 pySOT/surrogate/kernels/tps_kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/surrogate/kernels/tps_kernel.py b/pySOT/surrogate/kernels/tps_kernel.py
index 564c492..ed4ec24 100644
--- a/pySOT/surrogate/kernels/tps_kernel.py
+++ b/pySOT/surrogate/kernels/tps_kernel.py
@@ -25,7 +25,7 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|^2 \\log (\\|x_i - x_j \\|)`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return (dists ** 2) * np.log(dists)
 
     def deriv(self, dists):
@@ -38,5 +38,5 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|(1 + 2 \\log (\\|x_i - x_j \\|) )`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return dists * (1 + 2 * np.log(dists))
-- 
2.43.0


From a4670f91c0624a55c79968e940df3d77e6644dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/40] fix: GeneticAlgorithm rejects every valid user-supplied
 initial population

The domain check was inverted, and the population was modified in place.
---
 pySOT/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 043adfe..824b3f0 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -268,11 +268,11 @@ class GeneticAlgorithm:
         if isinstance(self.start, np.ndarray):
             if self.start.shape[0] != self.nindividuals or self.start.shape[1] != self.nvariables:
                 raise ValueError("Initial population has incorrect size")
-            if any(np.min(self.start, axis=0) >= self.lower_boundary) or any(
-                np.max(self.start, axis=0) <= self.upper_boundary
+            if any(np.min(self.start, axis=0) < self.lower_boundary) or any(
+                np.max(self.start, axis=0) > self.upper_boundary
             ):
                 raise ValueError("Initial population is outside the domain")
-            population = self.start
+            population = np.array(self.start, dtype=float)
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From ffe5efd16b300e6a5bac109f3d90dfb38d4e455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 08/40] fix: candidate_dycors mixes up positions in subset and
 coordinates

A subset that isn't 0, ..., k-1 raised IndexError or perturbed the wrong
coordinate, and the last coordinate was never picked when no coordinate was
selected for perturbation.
---
 pySOT/auxiliary_problems/candidate_dycors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..094d6c3 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,13 +75,13 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
-    for i in subset:
+    for j, i in enumerate(subset):
         lower, upper, sigma = opt_prob.lb[i], opt_prob.ub[i], scalefactors[i]
-        ind = np.where(ar[:, i] == 1)[0]
-        cand[ind, subset[i]] = stats.truncnorm.rvs(
+        ind = np.where(ar[:, j] == 1)[0]
+        cand[ind, i] = stats.truncnorm.rvs(
             a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=len(ind)
         )
 
-- 
2.43.0


From 7869be0e3ee4b12bed4ab711f3c7cfa377e8196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 09/40] fix: the domain of Branin doesn't contain its global
 minimizer

Use the standard domain [-5, 10] x [0, 15] of the cited definition.
---
 pySOT/optimization_problems/branin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/optimization_problems/branin.py b/pySOT/optimization_problems/branin.py
index 19c2a77..703ee1e 100644
--- a/pySOT/optimization_problems/branin.py
+++ b/pySOT/optimization_problems/branin.py
@@ -24,8 +24,8 @@ class Branin(OptimizationProblem):
         self.min = 0.397887
         self.minimum = np.array([-np.pi, 12.275])
         self.dim = 2
-        self.lb = -3.0 * np.ones(2)
-        self.ub = 3.0 * np.ones(2)
+        self.lb = np.array([-5.0, 0.0])
+        self.ub = np.array([10.0, 15.0])
         self.int_var = np.array([])
         self.cont_var = np.arange(0, 2)
         self.info = "2-dimensional Branin function \nGlobal optimum: " + "f(-pi, 12.275) = 0.397887"
-- 
2.43.0


From 3eea88ec873e5af6ead93ebc3f545aa2bd5ea77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 10/40] fix: Exponential pairs coefficient j with the wrong
 variable

---
 pySOT/optimization_problems/exponential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/exponential.py b/pySOT/optimization_problems/exponential.py
index 6f7831d..a713455 100644
--- a/pySOT/optimization_problems/exponential.py
+++ b/pySOT/optimization_problems/exponential.py
@@ -47,5 +47,5 @@ class Exponential(OptimizationProblem):
         self.__check_input__(x)
         total = 0.0
         for i in range(len(x)):
-            total += np.exp((i + 1) * x[i - 1]) - np.exp(-5.12 * (i + 1))
+            total += np.exp((i + 1) * x[i]) - np.exp(-5.12 * (i + 1))
         return total
-- 
2.43.0


From d74095a2951e40be7647179f01a5ad02155c4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 11/40] fix: finishing one evaluation drops all pending copies
 of the same point

Xpend then no longer matches pending_evals, and resume() loses the copies.
---
 pySOT/strategy/surrogate_strategy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..c91291b 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -307,7 +307,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def remove_pending(self, x):
         """Delete a pending point from self.Xpend."""
-        idx = np.where((self.Xpend == x).all(axis=1))[0]
+        idx = np.where((self.Xpend == x).all(axis=1))[0][:1]  # The same point may be pending several times
         self.Xpend = np.delete(self.Xpend, idx, axis=0)
 
     # == Processing in initial phase ==
@@ -337,7 +337,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From a82615d82a9d18637512793d3322fe7505af756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 12/40] fix: an extra point with value np.inf is documented as
 unknown but was treated as known

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index c91291b..a7c35cd 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -238,7 +238,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
-- 
2.43.0


From b98309c9e38cde48feeac042130f340c0b4cc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 13/40] fix: known extra points are missing from the data of
 the current run

They were added to the surrogate, but not to the points that the adaptive phase
selects the current best solution from and keeps its distance to.
---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index a7c35cd..a58a053 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -244,6 +244,8 @@ class SurrogateBaseStrategy(BaseStrategy):
                     x = np.copy(self.extra_points[i, :])
                     self.X = np.vstack((self.X, x))
                     self.fX = np.vstack((self.fX, self.extra_vals[i]))
+                    self._X = np.vstack((self._X, x))
+                    self._fX = np.vstack((self._fX, self.extra_vals[i]))
                     self.surrogate.add_points(x, self.extra_vals[i])
 
     def propose_action(self):
-- 
2.43.0


From f51faff3bf05ba9eec091eeb3444421dfb6d7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 14/40] fix: a converged run without restarts never terminates

propose_action returned None forever, so the controller hung or raised.
---
 pySOT/strategy/surrogate_strategy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index a58a053..58831c8 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -194,6 +194,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Check if evaluation based termination criterion has been reached."""
         if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted
             self.terminate = True
+        if self.converged and not self.use_restarts:  # Converged and not allowed to restart
+            self.terminate = True
 
     def sample_restart(self):
         """Restart a run after convergence."""
@@ -296,6 +298,9 @@ class SurrogateBaseStrategy(BaseStrategy):
                         return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                     else:
                         return
+                else:  # No restarts, so we terminate when nothing is pending
+                    self.terminate = True
+                    return Proposal("terminate") if self.pending_evals == 0 else None
 
             # Launch the new evaluations (the others will be triggered later)
             return self.adapt_proposal()
-- 
2.43.0


From e81da0dee674e9800b0261c7c55a30c707a503cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 15/40] fix: evaluations in flight when the sampling radius
 changes never reach the surrogate

SRBF moves ev_last forward on every radius change, but only points proposed
before a restart should be left out of the current run.
---
 pySOT/strategy/surrogate_strategy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 58831c8..98d8b0e 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -131,6 +131,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
         # Event indices to keep track of if points where proposed before an event (restart, parameter change, etc.)
         self.ev_last = 0
+        self.ev_restart = 0  # Event index of the last restart
         self.ev_next = 1
 
         # Check inputs (implemented by each strategy)
@@ -200,6 +201,7 @@ class SurrogateBaseStrategy(BaseStrategy):
     def sample_restart(self):
         """Restart a run after convergence."""
         self.ev_last = self.get_ev()
+        self.ev_restart = self.ev_last
 
         # Reset data in current run
         self._X = np.empty([0, self.opt_prob.dim])
@@ -364,7 +366,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
@@ -429,7 +431,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
-- 
2.43.0


From 12f7d1479446e55881788b64669c46d706f01fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 16/40] fix: save fails when the file name contains a directory

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 98d8b0e..bb7416b 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -175,7 +175,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        temp_fname = os.path.join(os.path.dirname(fname), "temp_" + os.path.basename(fname))
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From efef2620770f04a229b579f682ddb41762165eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 17/40] fix: a resumed run loses the budget of the evaluations
 that were pending

terminate stayed True although the pending evaluations were discarded.
---
 pySOT/strategy/surrogate_strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index bb7416b..22a897d 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -188,6 +188,7 @@ class SurrogateBaseStrategy(BaseStrategy):
                 self.batch_queue.append(np.copy(x))
 
         # Remove everything that was pending
+        self.terminate = False  # The budget may have been tied up in pending evaluations
         self.pending_evals = 0
         self.Xpend = np.empty([0, self.opt_prob.dim])
 
-- 
2.43.0


From b1c4d66be56ebd02ccd474c8d5a154420f4db7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 18/40] fix: a checkpoint doesn't contain the evaluation that
 triggered it

The snapshot was taken before the strategy had processed the evaluation, so the
most recent result was lost in a crash.
---
 pySOT/controller/controller.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..b8d9482 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -48,7 +48,16 @@ class CheckpointController(object):
         :param record: Evaluation record
         :type record: EvalRecord
         """
-        record.add_callback(self.on_update)
+        record.add_callback(self._queue_on_update)
+
+    def _queue_on_update(self, record):
+        """Internal handler -- run on_update after the strategy has processed a finished feval.
+
+        :param record: Evaluation record
+        :type record: EvalRecord
+        """
+        if record.is_done:
+            record.add_callback(self.on_update)  # Callbacks added last are executed last
 
     def on_new_feval(self, record):
         """Handle new function evaluation request.
-- 
2.43.0


From e08cf88c1adcee0bf62950e6738385ea1e5ec9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 19/40] fix: input checks accept invalid max_evals, ncenters
 and dim

The conditions were negated incorrectly and could never trigger for an int.
---
 pySOT/strategy/random_strategy.py    | 4 ++--
 pySOT/strategy/sop_strategy.py       | 2 +-
 pySOT/strategy/surrogate_strategy.py | 2 +-
 pySOT/utils.py                       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index 110d6e0..2c45efb 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -24,8 +24,8 @@ class RandomStrategy(BaseStrategy):
 
     def __init__(self, max_evals, opt_prob):
         check_opt_prob(opt_prob)
-        if not isinstance(max_evals, int) and max_evals > 0:
-            raise ValueError("max_evals must be an integer >= exp_des.num_pts")
+        if not (isinstance(max_evals, int) and max_evals > 0):
+            raise ValueError("max_evals must be a positive integer")
 
         self.opt_prob = opt_prob
         self.max_evals = max_evals
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..52533d0 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -230,7 +230,7 @@ class SOPStrategy(SurrogateBaseStrategy):
     def check_input(self):
         """Check inputs."""
         super().check_input()
-        if not isinstance(self.ncenters, int) and self.ncenters > 3:
+        if not (isinstance(self.ncenters, int) and self.ncenters > 3):
             raise ValueError("ncenters should be an integer greater than 3")
         if not self.asynchronous:
             if not self.ncenters >= self.batch_size:
diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 22a897d..40c920d 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -161,7 +161,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         check_opt_prob(self.opt_prob)
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
-        if not isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts:
+        if not (isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts):
             raise ValueError("max_evals must be an integer >= exp_des.num_pts")
 
     def save(self, fname):
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 824b3f0..5b0d198 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -109,7 +109,7 @@ def check_opt_prob(obj):  # pragma: no cover
     if not isinstance(obj, OptimizationProblem):
         raise TypeError("Input does not implement OptimizationProblem")
 
-    if not isinstance(obj.dim, int) and obj.dim() > 0:
+    if not (isinstance(obj.dim, int) and obj.dim > 0):
         raise ValueError("dim must be a positive integer")
 
     if not isinstance(obj.lb, np.ndarray):
-- 
2.43.0


From 8409d120d5cfcc4c96616469cf36b7fd681b7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 20/40] fix: SRBF raises TypeError when weights is a NumPy
 array

---
 pySOT/strategy/srbf_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..a8751eb 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, list) or isinstance(self.weights, np.ndarray)
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
-- 
2.43.0


From a3575b593c20b10e6aeed7fb17de6019f04959a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 21/40] fix: SOP discards the non-domination ranks before it
 selects centers

update_F rebuilt F_ranked from the records, whose rank was always infinity.
---
 pySOT/strategy/sop_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 52533d0..aec028b 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -400,6 +400,8 @@ class SOPStrategy(SurrogateBaseStrategy):
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
         F[:, self.opt_prob.dim + 3] = ranks.transpose()
+        for i in range(nevals):
+            self.evals[i].rank = ranks[i]
         self.F_ranked = np.copy(F)
 
     def update_center_list(self):
-- 
2.43.0


From 618f7bbc19c13e8de56f75c1e402378e94330a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 22/40] fix: SOP fails when a batch doesn't produce a new point
 for every center

This happens if batch_size < ncenters or an evaluation fails, and in the
asynchronous case if a re-queued initial point finishes late.
---
 pySOT/strategy/sop_strategy.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index aec028b..8ad80eb 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -264,7 +264,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                     break
 
             if self.asynchronous:  # Process immediately
-                self.adjust_memory(center_index)
+                self.adjust_memory([] if center_index is None else [center_index])
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
@@ -316,7 +316,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         for i in range(num_pts):
             self.batch_queue.append(np.copy(np.ravel(new_points[i, :])))
 
-    def adjust_memory(self, index=None):
+    def adjust_memory(self, indices=None):
         """Update the memory attributes of evaluated points
 
         For each evaluated point (stored as _SOPRecord instance) update
@@ -324,10 +324,8 @@ class SOPStrategy(SurrogateBaseStrategy):
 
         """
 
-        if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
-        else:  # asynchronous mode
-            indices = [index]
+        if indices is None:  # Batch mode - update memory for all centers with a new point
+            indices = [i for i in range(len(self.centers)) if self.centers[i].new_index is not None]
 
         # Re-evaluate bi-objective ranks after adding new point(s)
         # NOTE: Re-evaluation needed because minimum distance is updated
-- 
2.43.0


From 800ca10a9d3efd089fbc16b3c0d06bbac54fa112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 23/40] fix: SOP keeps a center busy forever if two centers
 propose the same point

Both completions were credited to the first center.
---
 pySOT/strategy/sop_strategy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 8ad80eb..ffc5038 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -258,7 +258,9 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
-                if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
+                if self.centers[i].new_index is None and np.array_equal(
+                    np.copy(record.params[0]), self.centers[i].new_point
+                ):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
                     break
-- 
2.43.0


From 73107d1c1193b0f7278597642a96e3aeba069b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 24/40] fix: SOP crashes when a proposal is rejected or an
 evaluation fails

The center stayed busy, so SOP ran out of free centers, and evaluations that don't
belong to a center (late initial points) were missing from the ranked archive.
---
 pySOT/strategy/sop_strategy.py | 35 ++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index ffc5038..f816602 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -122,6 +122,10 @@ class _SopCenter:
         else:
             self._new_index = value
 
+    def release(self):
+        """Make the center available again, its new point won't be evaluated"""
+        self._new_point = None
+
 
 class SOPStrategy(SurrogateBaseStrategy):
     """Surrogate Optimization with Pareto Selection Strategy
@@ -270,13 +274,40 @@ class SOPStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def release_center(self, x):
+        """Release the center that proposed x, since x won't be evaluated"""
+        for center in self.centers:
+            if center.new_index is None and np.array_equal(x, center.new_point):
+                center.release()
+                break
+
+    def on_adapt_reject(self, proposal):
+        """Handle rejected proposal in phase 2."""
+        super().on_adapt_reject(proposal)
+        if self.asynchronous:  # The point stays in the queue otherwise
+            self.release_center(proposal.args[0])
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation in phase 2."""
+        super().on_adapt_aborted(record)
+        self.release_center(record.params[0])
+        if not self.asynchronous and (not self.batch_queue) and self.pending_evals == 0:
+            self.adjust_memory()  # The rest of the batch is done
+
+    def resume(self):
+        """Resume a terminated run."""
+        super().resume()
+        for center in self.centers:  # Pending points won't be evaluated
+            if center.new_index is None and not any(np.array_equal(x, center.new_point) for x in self.batch_queue):
+                center.release()
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
-            self.update_ranks()
+        self.update_ranks()  # There may be new evaluations that don't belong to a center
         self.update_center_list()
+        num_pts = min(num_pts, sum(center.new_point is None for center in self.centers))
 
         # Compute dycors perturbation probability
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
-- 
2.43.0


From 01690fc11df5c471c16d09b009a0983e864bb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 25/40] fix: a point of the initial design is lost if it fails
 late and its retry is rejected or fails

The retry was proposed as an adaptive point, which isn't added back to the queue.
---
 pySOT/strategy/surrogate_strategy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 40c920d..4de3ba1 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -282,15 +282,16 @@ class SurrogateBaseStrategy(BaseStrategy):
                 else:
                     return
         elif self.batch_queue:  # Propose point from the batch_queue
-            if self.phase == 1:
+            if self.phase == 1 or self.asynchronous:  # With asynchrony the queue only contains initial points
                 return self.init_proposal()
             else:
                 return self.adapt_proposal()
         else:  # Make new proposal in the adaptive phase
-            self.phase = 2
             if self.asynchronous:  # Always make proposal with asynchrony
+                self.phase = 2
                 self.generate_evals(num_pts=1)
             elif self.pending_evals == 0:  # Make sure the entire batch is done
+                self.phase = 2
                 self.generate_evals(num_pts=self.batch_size)
 
             # We allow generate_evals to trigger a restart, so check if status has changed
-- 
2.43.0


From fc14782160cce62db27b256b92bb27d23ed2a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 26/40] fix: LatinHypercube ignores NumPy's random seed

---
 pySOT/experimental_design/lhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/experimental_design/lhd.py b/pySOT/experimental_design/lhd.py
index 194693b..a2b793e 100644
--- a/pySOT/experimental_design/lhd.py
+++ b/pySOT/experimental_design/lhd.py
@@ -52,6 +52,8 @@ class LatinHypercube(ExperimentalDesign):
             int_var = np.array([])
 
         def wrapper():
-            return pydoe.lhs(self.dim, self.num_pts, iterations=1)
+            # pyDOE ignores NumPy's global seed unless we pass a random state
+            random_state = np.random.RandomState(np.random.randint(2 ** 31 - 1))
+            return pydoe.lhs(self.dim, self.num_pts, iterations=1, random_state=random_state)
 
         return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)
-- 
2.43.0


From 04df44c6a7e227117a1d3db09cb935e086170d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 27/40] fix: weighted_distance_merit returns the same candidate
 twice for weight 0 and dtol 0

---
 pySOT/auxiliary_problems/candidate_srbf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/auxiliary_problems/candidate_srbf.py b/pySOT/auxiliary_problems/candidate_srbf.py
index 4bab802..5bfa828 100644
--- a/pySOT/auxiliary_problems/candidate_srbf.py
+++ b/pySOT/auxiliary_problems/candidate_srbf.py
@@ -46,6 +46,7 @@ def weighted_distance_merit(num_pts, surrogate, X, fX, cand, weights, Xpend=None
         merit = w * fvals + (1.0 - w) * (1.0 - unit_rescale(np.copy(dmerit)))
 
         merit[dmerit < dtol] = np.inf
+        merit[np.isinf(fvals)] = np.inf  # Already chosen, and 0 * inf is nan
         jj = np.argmin(merit)
         fvals[jj] = np.inf
         new_points[i, :] = cand[jj, :].copy()
-- 
2.43.0


From 350a896777bbb36bdacfb8db1af9ddad7256a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 28/40] fix: lcb_ga raises TypeError unless lcb_target is given

---
 pySOT/auxiliary_problems/lcb_ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/lcb_ga.py b/pySOT/auxiliary_problems/lcb_ga.py
index 73cbe1f..9d73c38 100644
--- a/pySOT/auxiliary_problems/lcb_ga.py
+++ b/pySOT/auxiliary_problems/lcb_ga.py
@@ -52,7 +52,7 @@ def lcb_ga(num_pts, opt_prob, surrogate, X, fX, Xpend=None, kappa=2.0, dtol=1e-3
         )
         x_best, f_min = ga.optimize()
 
-        if f_min > lcb_target:
+        if np.isinf(f_min) or (lcb_target is not None and f_min > lcb_target):
             return None  # Give up
 
         new_points[i, :] = x_best
-- 
2.43.0


From 74e9c0f63ede94d67318314a4eddfe03b4846703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 29/40] fix: expected improvement is nan where the predicted
 standard deviation is zero

---
 pySOT/auxiliary_problems/ei_merit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySOT/auxiliary_problems/ei_merit.py b/pySOT/auxiliary_problems/ei_merit.py
index dbae07c..ff54a22 100644
--- a/pySOT/auxiliary_problems/ei_merit.py
+++ b/pySOT/auxiliary_problems/ei_merit.py
@@ -21,9 +21,10 @@ def ei_merit(X, surrogate, fX, XX=None, dtol=0):
     :rtype: numpy.array of length X.shape[0]
     """
     mu, sig = surrogate.predict(X), surrogate.predict_std(X)
-    gamma = (np.min(fX) - mu) / sig
+    impr = np.min(fX) - mu
+    gamma = impr / np.where(sig > 0, sig, 1.0)
     beta = gamma * norm.cdf(gamma) + norm.pdf(gamma)
-    ei = sig * beta
+    ei = np.where(sig > 0, sig * beta, np.maximum(impr, 0.0))  # The limit if there is no uncertainty
 
     if dtol > 0:
         dists = scpspatial.distance.cdist(X, XX)
-- 
2.43.0


From 00884e698f2c832866bbc036ff39dea81928ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 30/40] fix: Levy leaves out the first term of its sum

---
 pySOT/optimization_problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/levy.py b/pySOT/optimization_problems/levy.py
index b6b4791..bcabc97 100644
--- a/pySOT/optimization_problems/levy.py
+++ b/pySOT/optimization_problems/levy.py
@@ -43,6 +43,6 @@ class Levy(OptimizationProblem):
         d = self.dim
         return (
             np.sin(np.pi * w[0]) ** 2
-            + np.sum((w[1 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[1 : d - 1] + 1) ** 2))
+            + np.sum((w[: d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[: d - 1] + 1) ** 2))
             + (w[d - 1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[d - 1]) ** 2)
         )
-- 
2.43.0


From e926c0608979bd48089584a3d5bb9eae2d375187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 31/40] fix: surrogates accept prediction points with one
 column in any dimension

---
 pySOT/surrogate/gp.py        |  5 ++---
 pySOT/surrogate/mars.py      |  5 ++---
 pySOT/surrogate/poly.py      |  3 +--
 pySOT/surrogate/rbf.py       |  7 ++-----
 pySOT/surrogate/surrogate.py | 14 ++++++++++++++
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 9ff793d..96995a4 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -2,7 +2,6 @@ import numpy as np
 from sklearn.gaussian_process import GaussianProcessRegressor
 from sklearn.gaussian_process.kernels import RBF, ConstantKernel, WhiteKernel
 
-from ..utils import to_unit_box
 from .surrogate import Surrogate
 
 
@@ -67,7 +66,7 @@ class GPRegressor(Surrogate):
         :rtype: numpy.ndarray
         """
         self._fit()
-        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
+        xx = self._to_unit_box(xx)
         return self._mu + self._sigma * np.reshape(self.model.predict(xx), (-1, 1))
 
     def predict_std(self, xx):
@@ -80,7 +79,7 @@ class GPRegressor(Surrogate):
         :rtype: numpy.ndarray
         """
         self._fit()
-        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
+        xx = self._to_unit_box(xx)
         _, std = self.model.predict(xx, return_std=True)
         return self._sigma * np.expand_dims(std, axis=1)
 
diff --git a/pySOT/surrogate/mars.py b/pySOT/surrogate/mars.py
index b9518e9..a2cb6a0 100644
--- a/pySOT/surrogate/mars.py
+++ b/pySOT/surrogate/mars.py
@@ -2,7 +2,6 @@ import warnings
 
 import numpy as np
 
-from ..utils import to_unit_box
 from .surrogate import Surrogate
 
 
@@ -75,7 +74,7 @@ class MARSInterpolant(Surrogate):
         :rtype: numpy.ndarray
         """
         self._fit()
-        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
+        xx = self._to_unit_box(xx)
         return np.expand_dims(self.model.predict(xx), axis=1)
 
     def predict_deriv(self, xx):
@@ -88,6 +87,6 @@ class MARSInterpolant(Surrogate):
         :rtype: numpy.array
         """
         self._fit()
-        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
+        xx = self._to_unit_box(xx)
         dfx = self.model.predict_deriv(xx, variables=None)
         return dfx[0] / (self.ub - self.lb)
diff --git a/pySOT/surrogate/poly.py b/pySOT/surrogate/poly.py
index 46493d8..fda4b5c 100644
--- a/pySOT/surrogate/poly.py
+++ b/pySOT/surrogate/poly.py
@@ -3,7 +3,6 @@ from sklearn.linear_model import Ridge
 from sklearn.pipeline import make_pipeline
 from sklearn.preprocessing import PolynomialFeatures
 
-from ..utils import to_unit_box
 from .surrogate import Surrogate
 
 
@@ -53,7 +52,7 @@ class PolyRegressor(Surrogate):
         :rtype: numpy.ndarray
         """
         self._fit()
-        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
+        xx = self._to_unit_box(xx)
         return self.model.predict(xx)
 
     def predict_deriv(self, xx):
diff --git a/pySOT/surrogate/rbf.py b/pySOT/surrogate/rbf.py
index 817118d..15a6865 100644
--- a/pySOT/surrogate/rbf.py
+++ b/pySOT/surrogate/rbf.py
@@ -2,7 +2,6 @@ import numpy as np
 import scipy.linalg as scplinalg
 import scipy.spatial as scpspatial
 
-from ..utils import to_unit_box
 from .kernels import CubicKernel, Kernel
 from .surrogate import Surrogate
 from .tails import LinearTail, Tail
@@ -177,7 +176,7 @@ class RBFInterpolant(Surrogate):
         :rtype: numpy.ndarray
         """
         self._fit()
-        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
+        xx = self._to_unit_box(xx)
         ds = scpspatial.distance.cdist(xx, self._X)
         ntail = self.ntail
         return np.dot(self.kernel.eval(ds), self.c[ntail : ntail + self.num_pts]) + np.dot(
@@ -194,9 +193,7 @@ class RBFInterpolant(Surrogate):
         :rtype: numpy.array
         """
         self._fit()
-        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        if xx.shape[1] != self.dim:
-            raise ValueError("Input has incorrect number of dimensions")
+        xx = self._to_unit_box(xx)
         ds = scpspatial.distance.cdist(self._X, xx)
         ds[ds < np.finfo(float).eps] = np.finfo(float).eps  # Avoid 0*inf
 
diff --git a/pySOT/surrogate/surrogate.py b/pySOT/surrogate/surrogate.py
index a6286b8..565a775 100644
--- a/pySOT/surrogate/surrogate.py
+++ b/pySOT/surrogate/surrogate.py
@@ -72,6 +72,20 @@ class Surrogate(ABC):
         self.num_pts += newpts
         self.updated = False
 
+    def _to_unit_box(self, xx):
+        """Map prediction points to the unit box.
+
+        :param xx: Prediction points, must be of size num_pts x dim or (dim, )
+        :type xx: numpy.ndarray
+
+        :return: Prediction points in the unit box, of size num_pts x dim
+        :rtype: numpy.ndarray
+        """
+        xx = np.atleast_2d(xx)
+        if xx.shape[1] != self.dim:  # A single column would be broadcast
+            raise ValueError("Input has incorrect number of dimensions")
+        return to_unit_box(xx, self.lb, self.ub)
+
     @abstractmethod
     def predict(self, xx):  # pragma: no cover
         """Evaluate surroagte at points xx.
-- 
2.43.0


From acc42941286afc4a1344583224003946411558ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 32/40] fix: check_opt_prob accepts a variable that is listed
 twice in place of another one

---
 pySOT/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 5b0d198..99c2df6 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -144,7 +144,7 @@ def check_opt_prob(obj):  # pragma: no cover
             raise AttributeError("Integer variable index can't exceed " "number of dimensions or be negative")
     if not (len(np.intersect1d(contvar, intvar)) == 0):
         raise AttributeError("A variable can't be both " "an integer and continuous")
-    if not (len(contvar) + len(intvar) == obj.dim):
+    if not (len(contvar) + len(intvar) == obj.dim and len(np.union1d(contvar, intvar)) == obj.dim):
         raise AttributeError("All variables must be either " "integer or continuous")
 
 
-- 
2.43.0


From 1782d6480c3c3a0cff9728cc0079c92e4a2ca18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 33/40] fix: SOP takes a best point with tabu tenure 2 for one
 that is being processed

---
 pySOT/strategy/sop_strategy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index f816602..7d42d73 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -459,8 +459,8 @@ class SOPStrategy(SurrogateBaseStrategy):
             for i in range(len(self.centers)):
                 if self.centers[i].new_index is not None:
                     finished_centers.append(i)
-                else:  # If a center is being processed, tag it as tabu
-                    F[self.centers[i].index, self.opt_prob.dim + 2] = 2
+                else:  # If a center is being processed, tag it as tabu (a tenure that no tabu point reaches)
+                    F[self.centers[i].index, self.opt_prob.dim + 2] = np.inf
             for index in reversed(finished_centers):
                 self.centers.pop(index)
 
@@ -468,7 +468,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # i) tabu status, ii) rank, iii) obj value
         ind = np.lexsort((F[:, self.opt_prob.dim], F[:, self.opt_prob.dim + 3], F[:, self.opt_prob.dim + 2]))
         min_index = np.argmin(F[:, self.opt_prob.dim])
-        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == 2:
+        if min_index == ind[0] or np.isinf(F[min_index, self.opt_prob.dim + 2]):
             ind_new = np.copy(ind)
         else:  # Put xbest at the top of sorted points (ind_new),
             # regardless of tabu status unless it is being processed
-- 
2.43.0


From 4987f43635472a2ae38a0a2b20257a0589fda847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 34/40] fix: RBFInterpolant ignores a kernel given without a
 tail (and a tail given without a kernel)

---
 pySOT/surrogate/rbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/surrogate/rbf.py b/pySOT/surrogate/rbf.py
index 15a6865..07c801b 100644
--- a/pySOT/surrogate/rbf.py
+++ b/pySOT/surrogate/rbf.py
@@ -66,8 +66,9 @@ class RBFInterpolant(Surrogate):
     def __init__(self, dim, lb, ub, output_transformation=None, kernel=None, tail=None, eta=1e-6):
         super().__init__(dim=dim, lb=lb, ub=ub, output_transformation=output_transformation)
 
-        if kernel is None or tail is None:
+        if kernel is None:
             kernel = CubicKernel()
+        if tail is None:
             tail = LinearTail(dim)
         assert isinstance(kernel, Kernel) and isinstance(tail, Tail)
 
-- 
2.43.0


From a3d60457c1278c2c66d806c3ca85d289969c5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 35/40] fix: a snapshot contains the running controller and its
 workers, which fails if they change or can't be pickled

---
 pySOT/strategy/surrogate_strategy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 4de3ba1..d969f69 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -176,8 +176,17 @@ class SurrogateBaseStrategy(BaseStrategy):
         :type fname: string
         """
         temp_fname = os.path.join(os.path.dirname(fname), "temp_" + os.path.basename(fname))
-        with open(temp_fname, "wb") as output:
-            dill.dump(self, output, dill.HIGHEST_PROTOCOL)
+        # The callbacks and the worker of a record lead to the running controller, which can't be part of a snapshot
+        attributes = [dict(vars(record)) for record in self.fevals]
+        try:
+            for record in self.fevals:
+                record.callbacks = []
+                vars(record).pop("worker", None)
+            with open(temp_fname, "wb") as output:
+                dill.dump(self, output, dill.HIGHEST_PROTOCOL)
+        finally:
+            for record, attrs in zip(self.fevals, attributes):
+                vars(record).update(attrs)
         os.rename(temp_fname, fname)
 
     def resume(self):
-- 
2.43.0


From 5eee58692fb38de9701ff58e432612c91f6fae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 36/40] fix: crashed evaluations are not logged

---
 pySOT/strategy/surrogate_strategy.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index d969f69..83ede9f 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -233,6 +233,15 @@ class SurrogateBaseStrategy(BaseStrategy):
         xstr = np.array_str(record.params[0], max_line_width=np.inf, precision=5, suppress_small=True)
         logger.info("{} {:.3e} @ {}".format(self.num_evals, record.value, xstr))
 
+    def log_failure(self, record):
+        """Record a crashed evaluation to the log.
+
+        :param record: Record of the function evaluation
+        :type record: EvalRecord
+        """
+        xstr = np.array_str(record.params[0], max_line_width=np.inf, precision=5, suppress_small=True)
+        logger.warning("Evaluation {} @ {}".format(record.status, xstr))
+
     def sample_initial(self):
         """Generate and queue an initial experimental design."""
         logger.info("=== Start ===")
@@ -391,6 +400,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         xx = record.params[0]
         self.batch_queue.append(xx)
         self.remove_pending(xx)
+        self.log_failure(record)
         self.fevals.append(record)
 
     # == Processing in adaptive phase ==
@@ -455,4 +465,5 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = np.copy(record.params[0])
         self.remove_pending(xx)
+        self.log_failure(record)
         self.fevals.append(record)
-- 
2.43.0


From 1bd3e0c4ed0698d7bb65904b8e0260572248e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:30 +0000
Subject: [PATCH 37/40] fix: SRBF and DYCORS merge a batch whose last
 evaluation crashes with the next one

---
 pySOT/strategy/srbf_strategy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index a8751eb..e7fe465 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -159,6 +159,12 @@ class SRBFStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_step()
 
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation."""
+        super().on_adapt_aborted(record)
+        if self.record_queue and not self.asynchronous and (not self.batch_queue) and self.pending_evals == 0:
+            self.adjust_step()  # The rest of the batch is done
+
     def get_weights(self, num_pts):
         """Generate the nextw weights."""
         weights = []
-- 
2.43.0


From e8df2c06bebcd412f017a77d99a81e02bfff784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 38/40] fix: SOP keeps a center busy after a resume if another
 one proposed the same point

---
 pySOT/strategy/sop_strategy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d42d73..d393f26 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -297,9 +297,14 @@ class SOPStrategy(SurrogateBaseStrategy):
     def resume(self):
         """Resume a terminated run."""
         super().resume()
+        queue = list(self.batch_queue)  # Each queued point keeps one center busy
         for center in self.centers:  # Pending points won't be evaluated
-            if center.new_index is None and not any(np.array_equal(x, center.new_point) for x in self.batch_queue):
-                center.release()
+            if center.new_index is None and center.new_point is not None:
+                match = [i for i, x in enumerate(queue) if np.array_equal(x, center.new_point)]
+                if match:
+                    queue.pop(match[0])
+                else:
+                    center.release()
 
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
-- 
2.43.0


From 2257b776b29d4bdf4ddbe0ec00661aeb2af86156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 39/40] fix: SOP crashes if it selects centers when only one
 point has been evaluated

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index d393f26..c616386 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -431,7 +431,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         dists = scp.distance.cdist(F[:, 0 : self.opt_prob.dim], F[:, 0 : self.opt_prob.dim])
         for i in range(nevals):
             a = dists[i, :]
-            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a[np.nonzero(a)])
+            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a[np.nonzero(a)], initial=np.inf)  # No other point so far
 
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
-- 
2.43.0


From 99534475313c26367f7b7e446a95b8a352fb79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 40/40] fix: MARSInterpolant.predict_deriv only returns the
 derivative at the first point

---
 pySOT/surrogate/mars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/surrogate/mars.py b/pySOT/surrogate/mars.py
index a2cb6a0..e5daec6 100644
--- a/pySOT/surrogate/mars.py
+++ b/pySOT/surrogate/mars.py
@@ -83,10 +83,10 @@ class MARSInterpolant(Surrogate):
         :param xx: Prediction points, must be of size num_pts x dim or (dim, )
         :type xx: numpy.array
 
-        :return: Derivative of the RBF interpolant at xx
+        :return: Derivative of the MARS interpolant at xx, of size num_pts x dim
         :rtype: numpy.array
         """
         self._fit()
         xx = self._to_unit_box(xx)
         dfx = self.model.predict_deriv(xx, variables=None)
-        return dfx[0] / (self.ub - self.lb)
+        return np.reshape(dfx, (xx.shape[0], self.dim)) / (self.ub - self.lb)
-- 
2.43.0

