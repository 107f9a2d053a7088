From c264381f565e9dc86b99f8a265d971520d9c4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 1/8] fix: compare boundary condition and enhancement names by
 value

apply_bc compared strings by identity, so the boundary types restored by
Solution.loader (or built in any other way than from the literals in this
file) were rejected as invalid and the ghost cells were never filled.
---
 dg1d/solution.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index c489e36..8f73119 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -68,7 +68,7 @@ class Solution:
             print("Invalid initial condition. This will be an empty solution.\n", e)
 
         # Enhancement (if necessary)
-        if (enhancement_type is not ''):
+        if (enhancement_type != ''):
             self.keywords['evaluate_face_solution'] = self.enhanced_faces
             self.enhance = enhance.Enhance(
                 order, enhancement_type, self.u.shape[1])
@@ -527,17 +527,17 @@ class Solution:
         """Populates the ghost cells with the correct data depending on the BC"""
 
         # On the left side of the domain
-        if self.bc_l is 'periodic':
+        if self.bc_l == 'periodic':
             self.u[:, 0:self.N_F] = self.u[:, -2 * self.N_F:-self.N_F]
-        elif self.bc_l is 'zerograd':
+        elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
-        if self.bc_r is 'periodic':
+        if self.bc_r == 'periodic':
             self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]
-        elif self.bc_r is 'zerograd':
+        elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
-- 
2.43.0


From 69e0f828c5ac6bf5bf49c1ee5296fa094f625d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 2/8] fix: refresh the ghost cells before sensing and limiting

Runge-Kutta stage states reach the limiter with ghost cells that do not
correspond to their interior cells, so the sensors and the reconstruction
used stale neighbours in the first and last cells.
---
 dg1d/limiting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index 3af1ccf..f63a1d8 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -72,6 +72,9 @@ class Limiter:
     def adaptive_hr(self, solution):
         """Limit a solution in the domain using adaptive hierarchical reconstruction"""
 
+        # Make sure the ghost cells match the current interior solution
+        solution.apply_bc()
+
         # Decide where to do limiting
         solution.sensors.sensing(solution)
 
-- 
2.43.0


From c56e8f05f4f93628d091f90ad2075c0f70f67f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 3/8] fix: set the stage times of the Runge-Kutta integrators
 from the step time

The stage time was accumulated over stages and steps instead of being
t + alpha*dt, so a time-dependent right-hand side was evaluated at wrong times.
---
 dg1d/rk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 50a2928..4aa8634 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -94,7 +94,7 @@ def classic_rk(solution, deck, dgsolver, limiter, coeffs, alphas, betas):
             uk.copy_data_only(us)
             for j, beta in enumerate(betas[k, :k]):
                 uk.smart_axpy(beta, K[j])
-            uk.t += alpha * dt
+            uk.t = solution.t + alpha * dt
 
             # Limit solution if necessary
             if k > 0:
@@ -165,7 +165,7 @@ def low_storage_rk4(solution, deck, dgsolver, limiter):
             # Calculate the star quantities
             ustar.copy_data_only(us)
             ustar.smart_axpy(beta, du)
-            ustar.t += beta * dt
+            ustar.t = solution.t + beta * dt
 
             # Limit solution if necessary
             if k > 0:
-- 
2.43.0


From 144a12678070e75a936d173284286ce7e12ef2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 4/8] fix: do not skip outputs due before the final time

When the stable step reached past the final time, adjust_for_output jumped
straight to it even if intermediate outputs were still due, so a run could
write fewer files than requested.
---
 dg1d/rk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 4aa8634..5d79edd 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -246,8 +246,8 @@ def adjust_for_output(dt, t, tf, tout):
     """
     #eps = 1e-14
 
-    # If we reached the final time (or almost)
-    if dt > tf - t:
+    # If we reached the final time (or almost) and no output is due before
+    if dt > tf - t and tf <= tout:
         return tf - t, True, True
 
     # If we reached an output time
-- 
2.43.0


From 5f011983ecad85f7d2e3f7eef35e9c0adbf7c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 5/8] fix: limiting a solution of order zero keeps the cell
 averages

---
 dg1d/limiting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index f63a1d8..1858155 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -127,6 +127,9 @@ class Limiter:
 
         alim = np.zeros(np.shape(ac))
 
+        # With a single coefficient, there is nothing but the average
+        avgLC = ac[0]
+
         # loop on derivatives
         N = len(ac) - 1
         for m in range(N, 0, -1):
-- 
2.43.0


From abf5903f057dae3b9f7132de41f960620e7cbe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 6/8] fix: set the scaled inverse mass matrix when loading a
 solution

---
 dg1d/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index 8f73119..1536419 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -202,6 +202,9 @@ class Solution:
         B = self.xc[-1] + 0.5 * self.dx
         self.x, self.dx = np.linspace(A, B, self.N_E + 1, retstep=True)
 
+        # Scale the inverse mass matrix
+        self.scaled_minv = self.basis.minv * 2.0 / self.dx
+
         #
         # Read solution data from all the files
         #
-- 
2.43.0


From f94f71a31df8f54076fa40eee276a25156f80400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 7/8] fix: np.complex no longer exists in numpy

---
 analysis/dg_stability.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analysis/dg_stability.py b/analysis/dg_stability.py
index 7bd7ba1..1124a9e 100755
--- a/analysis/dg_stability.py
+++ b/analysis/dg_stability.py
@@ -203,13 +203,13 @@ def get_eigenvalue(Minv, F, G0, G1, T):
     N = 50
     betas = np.linspace(-1 * np.pi, np.pi, N)
     ebjs = np.exp(betas * 1j)
-    eigs = np.zeros((N, Minv.shape[0]), dtype=np.complex)
+    eigs = np.zeros((N, Minv.shape[0]), dtype=complex)
 
     for k, ebj in enumerate(ebjs):
 
         # replace T symbol by the Fourier transform
-        g0 = np.array(G0.subs(T, ebj).tolist()).astype(np.complex)
-        g1 = np.array(G1.subs(T, ebj).tolist()).astype(np.complex)
+        g0 = np.array(G0.subs(T, ebj).tolist()).astype(complex)
+        g1 = np.array(G1.subs(T, ebj).tolist()).astype(complex)
 
         # Get the full matrix
         FK = Minv.dot(-(g1 - g0) + F)
-- 
2.43.0


From 50b1d1c85defa2308f4213dbc8b1dae37d3702f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 8/8] fix: read the elapsed time of runs longer than a day

---
 advection_convergence/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/advection_convergence/plot.py b/advection_convergence/plot.py
index e77be99..6ff1c5f 100755
--- a/advection_convergence/plot.py
+++ b/advection_convergence/plot.py
@@ -73,7 +73,7 @@ def get_timer(fname):
     with open(fname) as f:
         for line in f:
             if 'seconds' in line:
-                return line.split()[4]
+                return line.split()[-2]
 
 
 # ===============================================================================
-- 
2.43.0

