From 0ebb5072b999edf35401816011b13ad283281199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 01/42] fix: advance the slab transport equation in the
 right-hand side

rhs_class.call only assembled a time derivative for spherical geometry; for
slab geometry it returned the state itself, so every slab solution grew like
exp(t) regardless of the problem.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 4bf9059..647f8b3 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -363,6 +363,9 @@ class rhs_class():
                     
                     V_new[angle,space,:] = RHS  
 
+                elif self.geometry['slab'] == True:
+                    V_new[angle,space,:] = np.dot(G,U) - LU + mul*np.dot(L,U) - VV + PV + 0.5*S
+
         return V_new.reshape((self.N_ang) * self.N_space * (self.M+1))
         
     
-- 
2.43.0


From 479700d51cd0b82fa8035ecdadd9f433dcadbeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 02/42] fix: keep the initial edges of every mesh

initialize_mesh left edges0 at zero for the initialisers which do not set it
themselves (every slab mesh built by simple_moving_init_func, the thick square
meshes), so that the first move() collapsed the mesh to edges0 = 0.
---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ac29274..8c7b90d 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -855,7 +855,7 @@ class mesh_class(object):
                     elif self.move_func == 2:
                             self.thin_square_init_func()
 
-        # self.edges0 = self.edges
+        self.edges0 = self.edges
         self.Dedges_const = self.Dedges
 
 
-- 
2.43.0


From 018de2e745a530f8550f54131f5217498bd67b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 03/42] fix: move the mesh of Gaussian problems

Gaussian initial conditions and sources were given moving-mesh velocities but
move() had no branch for them, so the edges stayed put while the fluxes and the
moving-mesh matrices used the nonzero velocities.
---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 8c7b90d..5c84cb9 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -170,7 +170,7 @@ class mesh_class(object):
                 # if t > 10.0:
                 #     self.Dedges = self.edges/self.edges[-1] * self.speed
 
-            if self.source_type[0] == 1 or self.source_type[0]==2:
+            if self.source_type[0] == 1 or self.source_type[0]==2 or self.source_type[3] == 1 or self.source_type[5] == 1:
 
                 self.edges = self.edges0 + self.Dedges_const*t
 
-- 
2.43.0


From 53f6cd6834757dc34171116c276a6679a4d54bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 04/42] fix: leave the accelerating phase of the square-source
 mesh cleanly

For t < t0 move() used whatever edge velocity the previous call had left, so a
call at t >= t0 (a rejected step, or output at an earlier evaluation time)
changed the edges every later call at t < t0 returned.
---
 moving_mesh_transport/solver_classes/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 5c84cb9..75a0783 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -230,7 +230,8 @@ class mesh_class(object):
 
                             elif (t < self.t0):
                             
-                                self.edges = self.edges0 + self.Dedges*t
+                                self.edges = self.edges0 + self.Dedges_const*t
+                                self.Dedges = self.Dedges_const
 
 
                             # self.Dedges = self.Dedges_const
-- 
2.43.0


From 4968cca8ed7d01ed8011b8384fe09e941904dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 05/42] fix: start the absorption vector from zero

With a non-constant opacity make_vectors added the absorption term of each call
on top of the one before.
---
 moving_mesh_transport/solver_classes/opacity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 930b17f..f8b2236 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -168,6 +168,7 @@ class sigma_integrator():
         if self.sigma_func['constant'] == True:
             self.VV = u * self.sigma_t
         else:
+            self.VV = np.zeros(self.M+1)
             for i in range(self.M + 1):
                 for j in range(self.M + 1):
                     for k in range(self.Msigma + 1):
-- 
2.43.0


From d1ce75402159c772760f5772ffb78c3a9579e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 06/42] fix: follow a travelling opacity on a static mesh

sigma_moments only recomputed the opacity moments of cells whose edges had
moved, so on a static mesh the opacity of a moving shock stayed where it was at
the first call.
---
 moving_mesh_transport/solver_classes/opacity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index f8b2236..92e1576 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -66,6 +66,8 @@ class sigma_integrator():
         #     self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
+        if self.sigma_v != 0.0 and self.sigma_func['constant'] != 1:
+            self.moving = True
 
         # initialize integrals of Basis Legendre polynomials
         self.create_integral_matrices()
-- 
2.43.0


From 952f6d7c91af32a3cdab825062e53dc5f221e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 07/42] fix: apply the source strength once

The uncollided solutions of the square and Gaussian pulses multiplied by the
source strength, uncollided_solution() multiplied again and make_source() a
third time, so the collided problem was not linear in the source strength.
---
 moving_mesh_transport/solver_classes/sources.py              | 5 ++---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/sources.py b/moving_mesh_transport/solver_classes/sources.py
index a0fe790..b8ecb12 100644
--- a/moving_mesh_transport/solver_classes/sources.py
+++ b/moving_mesh_transport/solver_classes/sources.py
@@ -119,7 +119,7 @@ class source_class(object):
         if self.geometry['slab'] == True:
             if self.uncollided == True:
                 if (self.source_type[0] == 1) and  (self.moving == True):
-                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR)
+                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR) * self.source_strength
                 else:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
@@ -131,6 +131,7 @@ class source_class(object):
                 elif self.source_type[5] == 1:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, self.gaussian_source)
+                self.S = self.S * self.source_strength
         
         elif self.geometry['sphere'] == True:
             if self.uncollided == True:
@@ -146,8 +147,6 @@ class source_class(object):
 
                         
 
-        self.S = self.S * self.source_strength
-
     def make_source_not_isotropic(self, t, mu, xL, xR):
             if self.source_type[4] ==1:
                 for j in range(self.M+1):
diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c8c2478..6c0e820 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -222,7 +222,7 @@ class uncollided_solution(object):
                     temp[ix] = math.exp(-t)*(t + xx + self.x0)/(2.0 * t + 1e-12)
                 elif (self.x0 - xx <= t) and (self.x0 + xx >= t):
                     temp[ix] = math.exp(-t)*(t - xx + self.x0)/(2.0 * t + 1e-12)
-        return temp * self.source_strength
+        return temp
     
     def shell_IC_uncollided_solution(self, xs, t):
         temp = xs*0 
@@ -244,7 +244,7 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12) * self.source_strength
+            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From e3c8b6541cf7597c94f8ff441dac4aa93aa4063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 08/42] fix: differentiate the Legendre basis with respect to x

The derivative was taken with respect to the reference coordinate and never
scaled to the cell.
---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index ab5066f..0e55b9b 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -107,7 +107,7 @@ def dx_normPn(n, x, a = -1.0, b = 1.0):
             tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
 
 
-    return tmp * fact
+    return tmp * fact * 2.0/(b-a)
 
 
 
-- 
2.43.0


From afe44bf5d0aa67b46f5340d2f72c8494f3d00ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 09/42] fix: give the two-point Gauss-Lobatto rule its weights

The endpoint weights were only set while looping over interior points, so the
two-point rule came back with zero weights.
---
 moving_mesh_transport/solver_classes/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 0e55b9b..b612a85 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -643,6 +643,7 @@ def quadrature(n, name, testing = False):
         for nn in range(1, n-1):
             inn = nn + 1
             ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
+        if n > 1:
             ws[0] = 2/ (n*(n-1))
             ws[-1] = 2/ (n*(n-1))
         # if testing == True:
-- 
2.43.0


From c5e3e2e166c15a40fa1f39b6a95178ab609ff0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 10/42] fix: pass the geometry when choosing output points at
 evaluation times

---
 moving_mesh_transport/solver_functions/main_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 969915a..06a525f 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -258,7 +258,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             mesh.move(tt)
             edges = mesh.edges
             if choose_xs == False:
-                xs = find_nodes(edges, M)
+                xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
             output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
-- 
2.43.0


From d519cd842e078b4019c793ddbf6479f65a8d0f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 11/42] fix: evaluate the uncollided exit flux at the boundary

get_exit_dist added the uncollided flux at every output point to the two
boundary values, so every solve with an uncollided source failed.
---
 moving_mesh_transport/solver_classes/make_phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/make_phi.py b/moving_mesh_transport/solver_classes/make_phi.py
index dc67814..3b7f87e 100644
--- a/moving_mesh_transport/solver_classes/make_phi.py
+++ b/moving_mesh_transport/solver_classes/make_phi.py
@@ -107,7 +107,7 @@ class make_output:
         self.exit_dist = psi
         output = np.sum(np.multiply(psi.transpose(), self.ws), axis = 1)
         if self.uncollided == True:
-            uncol = uncollided_solution.uncollided_solution(self.xs, self.t)
+            uncol = uncollided_solution.uncollided_solution(x_eval, self.t)
             output += uncol
         return self.exit_dist, output
         
-- 
2.43.0


From e66c8e3b95e2fc3fc9be5aab4b5c26a746290bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 12/42] fix: stop the wave-location search at the end of the
 table

The search compared against the entry past the end of the table before
checking the index.
---
 moving_mesh_transport/solver_classes/mesh_functions.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh_functions.py b/moving_mesh_transport/solver_classes/mesh_functions.py
index e9c8fc6..5a1dfb7 100644
--- a/moving_mesh_transport/solver_classes/mesh_functions.py
+++ b/moving_mesh_transport/solver_classes/mesh_functions.py
@@ -98,11 +98,8 @@ def _interp1d(xnew, xvals, yvals, ynew):
         x_b = xvals[0]
         y_b = yvals[0]
     else:
-        while xnew[0] >= xvals[i] and i < N:
+        while i < N and xnew[0] >= xvals[i]:
             i += 1
-        if xnew[0] == xvals[i]:
-            ynew[0] = yvals[i]
-            return ynew
         if i == N:
             i = N-1
         x_a = xvals[i-1]
-- 
2.43.0


From 50b23d30583f3bda55c9bf9981b4ba90f7948c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 13/42] fix: bound the emission time of the S2 square source
 after it turns off

The flux inside the source kept counting emission from the far side that had
already passed the point.
---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index b612a85..fe78adf 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -311,7 +311,7 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
             elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, max(t - (x+x0)*3/math.sqrt(3),0))
             else:
                 return 0
          
-- 
2.43.0


From 2af6dad0e7b5052a4f12be46b29f4f2c466ba8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 14/42] fix: name the shock opacity in the mesh parameters as
 the opacity reads it

---
 moving_mesh_transport/input_scripts/mesh_parameters.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/input_scripts/mesh_parameters.yaml b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
index 4632cb4..a333e68 100644
--- a/moving_mesh_transport/input_scripts/mesh_parameters.yaml
+++ b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
@@ -25,7 +25,7 @@
 'boundary_source_strength': 1.0
 'boundary_source': False
 'boundary_source_loc': [10,0]
-'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, f_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
+'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, fake_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
 'Msigma': 0
 'fake_sedov_v0': 0.005
 
-- 
2.43.0


From a12c4d330d366364ff2219da1c516366bcc5f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 15/42] fix: give every transport source a strength

Loading the Gaussian source and the manufactured problem failed on the missing
key.
---
 moving_mesh_transport/input_scripts/transport.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/input_scripts/transport.yaml b/moving_mesh_transport/input_scripts/transport.yaml
index d08f647..def4690 100644
--- a/moving_mesh_transport/input_scripts/transport.yaml
+++ b/moving_mesh_transport/input_scripts/transport.yaml
@@ -74,6 +74,7 @@
 # gaussian  source
 'gaussian_source':
     'sigma': 0.5
+    'source_strength': 1.0
     'x0': [3,3,3,3,3]
     'source_type': [0,0,0,0,0,1,0,0,0,0,0,0,0,0,0]
     'N_angles': [64,128,128,256,512]
@@ -84,6 +85,7 @@
 # manufactured problem
 'MMS':
     'x0': [0.1]
+    'source_strength': 1.0
     'source_type': [0,0,0,0,1,0,0,0,0,0,0,0,0,0,0]
     'N_angles': [64, 64, 64]
     'move_type': [1,0]              # moving mesh function selector
-- 
2.43.0


From 569dda8d54dcb5e1f134d0d9f675d860977f7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 16/42] fix: read the temperature wave from the folder of its
 problem

Two branches used a name that is only set for other problems.
---
 moving_mesh_transport/loading_and_saving/load_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index f294f3c..430117d 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -91,7 +91,7 @@ class load_sol:
                 self.tpnts = f['su_olson_thick']['tpnts_' + full_str][:]
                 self.left = f['su_olson_thick']['left_' + full_str][:]
                 self.right = f['su_olson_thick']['right_' + full_str][:]
-                self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+                self.T_wave = f['su_olson_thick']['T_wave_' + full_str][:]
 
         elif self.problem_name == 'su_olson_thick_s2':
                 if not f.__contains__(self.problem_name):
@@ -148,7 +148,7 @@ class load_sol:
             self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
             self.left = f[self.problem_name]['left_' + full_str][:]
             self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
 
 
-- 
2.43.0


From 8b633fd661959df98db7a82c874a75b012677239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 17/42] fix: save the wave locations of the thick S2 problem
 where they are loaded

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0fd22c8..4d7d170 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -251,6 +251,8 @@ class save_output:
             folder_name =  f"transfer_const_cv={self.cv_const}"
         elif self.problem_type == 'rad_transfer_constant_cv_thick':
             folder_name =  f"transfer_const_cv={self.cv_const}_thick"
+        elif self.problem_type == 'rad_transfer_constant_cv_thick_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_thick_s2"
         elif self.problem_type == "su_olson_s2":
             folder_name = "su_olson_s2"
         elif self.problem_type == "su_olson_thick_s2":
-- 
2.43.0


From a0176bd50faee45beb4e25046a83939c1ddb8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 18/42] fix: integrate wide S2 Gaussian sources numerically

The closed form cancels: for widths above about three its error reaches the
size of the flux, and it returns zero on one side.
---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 6c0e820..ca31153 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -279,7 +279,7 @@ class uncollided_solution(object):
     def gaussian_s2(self, xs, t):
         temp = xs*0
         for ix in range(xs.size):
-            if self.sigma <= 5:
+            if self.sigma <= 2:
                 temp[ix] = uncollided_s2_gaussian(xs[ix], t, self.sigma, self.t0)
             else:
                 temp[ix] = self.integrate_quad_gaussian_source(t, xs[ix], 0.0, min(t,self.t0), self.gaussian_s2_thick_integrand)
-- 
2.43.0


From bf2a8be988401499de9078861a315bd9558f48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 19/42] fix: move the square-source mesh of an infinite domain

The mesh reported the velocities of a linearly growing mesh and stayed where
it was, so the solution left through its ends.
---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 75a0783..e7bc39f 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -176,7 +176,7 @@ class mesh_class(object):
 
 
 
-            elif self.source_type[1] == 1:
+            elif self.source_type[1] == 1 or (self.source_type[2] == 1 and self.finite_domain == False and self.move_func == 0):
                 if self.finite_domain == True and t == self.tfinal:
 
                 # print(self.edges0[-1] + t * self.speed, "###### final edge ######")
-- 
2.43.0


From 401a5ce733eda54c1ee8b6b198365f6ea0663fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 20/42] fix: give the manufactured problem a mesh

No branch of the mesh handled it, so every cell had zero width.
---
 moving_mesh_transport/solver_classes/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index e7bc39f..3ac372b 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -170,7 +170,7 @@ class mesh_class(object):
                 # if t > 10.0:
                 #     self.Dedges = self.edges/self.edges[-1] * self.speed
 
-            if self.source_type[0] == 1 or self.source_type[0]==2 or self.source_type[3] == 1 or self.source_type[5] == 1:
+            if self.source_type[0] == 1 or self.source_type[0]==2 or self.source_type[3] == 1 or self.source_type[4] == 1 or self.source_type[5] == 1:
 
                 self.edges = self.edges0 + self.Dedges_const*t
 
@@ -808,7 +808,7 @@ class mesh_class(object):
         if self.thick == False:     # thick and thin sources have different moving functions
 
             # if self.problem_type in ['gaussian_IC', 'gaussian_source']:
-            if self.source_type[3] == 1 or self.source_type[5] == 1:
+            if self.source_type[3] == 1 or self.source_type[4] == 1 or self.source_type[5] == 1:
                 self.simple_moving_init_func()
             # elif self.problem_type in ['square_IC', 'square_source']:
             elif self.source_type[1] == 1 or self.source_type[2] == 1:
-- 
2.43.0


From 5846ddeb9fd57a58f5410faef199861b7432e4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 21/42] fix: drive the manufactured problem with its source

The right-hand side never asked for the angle-dependent source, so the
manufactured solution was not a solution of what was solved.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 647f8b3..477aca4 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -207,7 +207,8 @@ class rhs_class():
                 flux.make_P(V_old[:,space,:], space, xL, xR)
             PV = flux.scalar_flux_term
             # integrate the source
-            source.make_source(t, xL, xR, uncollided_sol)
+            if self.source_type[4] != 1:
+                source.make_source(t, xL, xR, uncollided_sol)
             S = source.S
 
             # radiative transfer term
@@ -221,6 +222,9 @@ class rhs_class():
             ########## Loop over angle ############
             for angle in range(self.N_ang):
                 mul = self.mus[angle]
+                if self.source_type[4] == 1: # manufactured source
+                    source.make_source_not_isotropic(t, mul, xL, xR)
+                    S = source.S
                 # calculate numerical flux
                 refl_index = 0
                 if space == 0:
-- 
2.43.0


From a9b46d65ccedb49f17b3197b5fa0184143f7fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 22/42] fix: fit the cells of a thick source to its width

They were laid out for a half-width of one half whatever the source, so the
edges overlapped or left a gap at the rim.
---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 3ac372b..7940909 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -655,7 +655,7 @@ class mesh_class(object):
         left = np.linspace(-self.x0-dx, -self.x0, sidebin + 1)
         right = np.linspace(self.x0, self.x0 + dx, sidebin + 1)
         # middle = np.linspace(-self.x0, self.x0, middlebin + 1)
-        middle = 0.5 * self.thick_quad
+        middle = self.x0 * self.thick_quad
         self.edges = np.concatenate((left[:-1], middle[:-1], right[:])) # put them all together 
         
         # initialize derivatives
-- 
2.43.0


From e2a81d0463e5985cb96453f30b94db9385b94dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 23/42] fix: look up the opacity by name after a boundary
 source run

The opacity is a dictionary keyed by name; indexing it with a number raised a
KeyError after every solve.
---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 203bad9..c2e7730 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -204,17 +204,17 @@ class run:
             f = lambda x: np.exp(-x**2 /(2 * 0.5**2))
             fsol = lambda x, mu: np.exp(x * 1/mu) 
             plt.figure(3)
-            if solver.sigma_func[0] == 1:
+            if solver.sigma_func['constant'] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
                 plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
                 plt.show()
-            elif solver.sigma_func[1] == 1:
+            elif solver.sigma_func['gaussian'] == 1:
                 self.steady_state_gaussian_benchmark()
             
-            elif solver.sigma_func[2] == 1 or solver.sigma_func[3] == 1:
+            elif solver.sigma_func['siewert1'] == 1 or solver.sigma_func['siewert2'] == 1:
                 self.siewert_bench(solver.sigma_func)
             
-            elif solver.sigma_func[4] == 1:
+            elif solver.sigma_func['fake_sedov'] == 1:
                 plt.figure(4)
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
@@ -369,7 +369,7 @@ class run:
 
 
 
-        if sigma[2] == 1: 
+        if sigma['siewert1'] == 1: 
             resultsfigns = [9,10]
             plt.figure(9)
             plt.plot(self.psibenchpsis, self.psi0bench, 'kx', label = 'benchmark s = 1')
@@ -379,7 +379,7 @@ class run:
             plt.plot(self.psibenchpsis, self.psi1bench, 'kx', label = 'benchmark s = 1')
             plt.legend()
             plt.show()
-        elif sigma[3] == 1: 
+        elif sigma['siewert2'] == 1: 
             resultsfigns = [11,12]
             plt.figure(11)
             plt.plot(self.psibenchpsis, self.psi0benchinf, 'kx', label = 'benchmark s = inf')
-- 
2.43.0


From 634f7ee536881377a6805ac42c639aca8ded0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 24/42] fix: compare with the benchmark of an uncoupled run

The coupling is a dictionary, so neither branch was taken and the error was
used before it was computed.
---
 moving_mesh_transport/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index e8464a4..ce0f638 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -234,7 +234,7 @@ class main_class(parameter_load_class):
                 ##################################################################
                     
                 if self.benchmarking == True:
-                    if self.thermal_couple == 0:
+                    if self.thermal_couple['none'] == 1:
                         if self.c_scaling == False:
                             benchmark_solution = benchmark(np.abs(xs))[0] #benchmark for RMS
                         elif self.c_scaling == True:
@@ -242,7 +242,7 @@ class main_class(parameter_load_class):
 
                         RMS = np.sqrt(np.mean((phi - benchmark_solution)**2))
                     
-                    elif self.thermal_couple == 1:
+                    else:
                         if  (self.weights == "gauss_lobatto" and (self.sigma != 300 and self.x0[0] != 400)):
                             e_xs = benchmark(np.abs(xs))[2][:,0]
                             phi_bench = benchmark(np.abs(xs))[2][:,1]
@@ -307,7 +307,7 @@ class main_class(parameter_load_class):
                 if self.benchmarking == True:
                     print("RMSE", RMS)
                     if self.major == 'cells':
-                        if self.thermal_couple == 1:
+                        if self.thermal_couple['none'] != 1:
                             print("energy RMSE", RMS_energy)
                             if count > 0:
                                 print("material energy convergence order", "%.2f" % convergence(self.RMS_list_energy[count-1], self.N_spaces[count-1], RMS_energy, N_space))
-- 
2.43.0


From 2aa17e591f268cb12add6607e0e82155f759a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 25/42] fix: keep every benchmark point inside the table

The last point inside was set to zero, and a symmetric set of points could
reach past the end of the table.
---
 .../loading_and_saving/load_bench.py          | 21 ++++---------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index ddb6ef9..49819c4 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -90,23 +90,10 @@ class load_bench:
         original_xs = self.xs
         
 
-        if abs(xs[-1]-xs[0]) <= 1e-12:
-            symmetric = True
-        else:
-            symmetric = False
-        edge_of_interpolated_sol = original_xs[-1]
-        if symmetric == False:
-            edge_index = np.argmin(np.abs(xs-edge_of_interpolated_sol))
-            self.xs_inside = xs[0:edge_index]
-            stiched_solution[0:edge_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[0:edge_index] = self.interpolated_uncollided_solution(self.xs_inside)
-        elif symmetric == True:
-            # assuming that the vector is even 
-            middle_index = int(xs.size/2)
-            edge_index = np.argmin(np.abs(xs[middle_index:-1]-edge_of_interpolated_sol))
-            self.xs_inside = xs[middle_index-edge_index:edge_index+middle_index]
-            stiched_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_uncollided_solution(self.xs_inside)
+        inside = xs <= original_xs[-1]
+        self.xs_inside = xs[inside]
+        stiched_solution[inside] = self.interpolated_solution(self.xs_inside)
+        stiched_uncollided_solution[inside] = self.interpolated_uncollided_solution(self.xs_inside)
             
         return [stiched_solution, stiched_uncollided_solution]
     
-- 
2.43.0


From b51629de0cc62a80b5dc2229e42fa709f83be1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 26/42] fix: find the S2 results with constant heat capacity

They are saved under a name with the heat capacity in it, but looked up under
the plain name of the problem.
---
 moving_mesh_transport/loading_and_saving/load_solution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 430117d..a233dbb 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -30,6 +30,10 @@ class load_sol:
             self.problem_name = f'transfer_const_cv={self.cv0}_thick'
         elif self.problem_name == 'rad_transfer_const_cv':
             self.problem_name = f'transfer_const_cv={self.cv0}'
+        elif self.problem_name == 'rad_transfer_const_cv_s2':
+            self.problem_name = f'transfer_const_cv={self.cv0}_s2'
+        elif self.problem_name == 'rad_transfer_const_cv_thick_s2':
+            self.problem_name = f'transfer_const_cv={self.cv0}_thick_s2'
         
         
         print('file_name', file_name)
-- 
2.43.0


From 81237c60b7a0dcceca2f471d9eaaa06e1de56469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 27/42] fix: clear the energy of a saved transport solution

The row was never written, so after an overwrite it held bytes of deleted
datasets.
---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 4d7d170..aebff81 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -194,7 +194,7 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         print(folder_name + 'solution/' + full_str)
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
-        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
+        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)), fillvalue = 0.0)
         
         if not f[folder_name].__contains__(full_str):
             f.create_group(full_str)
-- 
2.43.0


From 3c0d815ecce416ce813ca5549ca7b5ef1e23a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 28/42] fix: no order of convergence between runs on equally
 many cells

---
 moving_mesh_transport/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index ce0f638..48accc0 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -311,7 +311,7 @@ class main_class(parameter_load_class):
                             print("energy RMSE", RMS_energy)
                             if count > 0:
                                 print("material energy convergence order", "%.2f" % convergence(self.RMS_list_energy[count-1], self.N_spaces[count-1], RMS_energy, N_space))
-                        if count > 0:
+                        if count > 0 and N_space != self.N_spaces[count-1]:
                             print("radiation energy density convergence order", "%.2f" % convergence(self.RMS_list[count-1], self.N_spaces[count-1], RMS, N_space))
     
                 
-- 
2.43.0


From f8565a96998360c7fe7183730f39d912483de509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 29/42] fix: compare a square source with its benchmark only
 after a single run

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index c2e7730..133ea02 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -112,12 +112,12 @@ class run:
         else:
             solver.main(uncollided, moving)
             self.get_results(solver)
-        if self.x0 == 2.5:
-            self.olson_henderson_bench(self.tfinal)
-            plt.figure(9)
-            plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
-            plt.legend()
-            plt.show()
+            if self.x0[0] == 2.5:
+                self.olson_henderson_bench(self.tfinal)
+                plt.figure(9)
+                plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
+                plt.legend()
+                plt.show()
      
         # plt.title("square source")
         # plt.legend()
-- 
2.43.0


From 1e26faf0a6c807c243dc5f91718872967552a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 30/42] fix: evaluate the steady benchmark at the width of the
 slab

x0 is an array; numpy refuses to store the resulting array in an element.
---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 133ea02..f8cbbe2 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -346,7 +346,7 @@ class run:
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
                 if self.mus[l] < 0:
-                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0, self.mus[l])
+                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0[0], self.mus[l])
             
 
 
-- 
2.43.0


From a4b9549e55e4dd05b758df63f4d2dabf626a9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 31/42] fix: read the benchmark at points in any order

Only the last point was compared with the end of the table, so points in
another order ran past it.
---
 moving_mesh_transport/loading_and_saving/load_bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index 49819c4..634ac91 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -110,7 +110,7 @@ class load_bench:
         if self.ask_for_bench == True:
             original_xs = self.xs
 
-            if xs[-1] > original_xs[-1]:
+            if np.any(xs > original_xs[-1]):
                 beyond_solution_domain = True
             else:
                 beyond_solution_domain = False
-- 
2.43.0


From ba899f0d6c740b826717b34be07b01bb6ac940a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 32/42] fix: scatter uncollided particles with the opacity of
 the cell

With the uncollided flux split off, its collisions entered the collided
equation without the spatially varying opacity, so the split and unsplit
shock problems had different solutions.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 477aca4..ccf246c 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -210,6 +210,10 @@ class rhs_class():
             if self.source_type[4] != 1:
                 source.make_source(t, xL, xR, uncollided_sol)
             S = source.S
+            # scattering of uncollided particles, with the opacity of the cell
+            if self.uncollided == True and self.geometry['slab'] == True and self.sigma_func['constant'] != True:
+                sigma_class.make_vectors(mesh.edges, S, space)
+                S = sigma_class.VV * self.mean_free_time
 
             # radiative transfer term
             # transfer_class.make_H(xL, xR, V_old[self.N_ang, space, :])
-- 
2.43.0


From 5d11e4e493ee9ebbd0f484f41b1540b3117f3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 33/42] fix: steady Gaussian benchmark with the width of the
 opacity it is drawn for

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index f8cbbe2..ef9f208 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -341,7 +341,7 @@ class run:
     
     def steady_state_gaussian_benchmark(self):
         f = lambda x1, x2, sigma: np.sqrt(np.pi/2)*sigma*(erf(x2/math.sqrt(2)/sigma) - erf(x1/math.sqrt(2)/sigma))
-        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 0.5)) / mu) 
+        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 2)) / mu) 
         phi_sol = self.xs * 0 
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
-- 
2.43.0


From b6e9c0fade0f26315d21075ee23044cff2bc9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 34/42] fix: shock benchmark starts at the left face of the
 slab of the run

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index ef9f208..3c0e9ed 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -452,7 +452,7 @@ class run:
     def fake_sedov(self, mu, tfinal, x):
         c1 = 1.0
         v0 = self.v0
-        x0 = -5 
+        x0 = -self.x0[0] 
         t0 =  (x0-x)/mu + tfinal # time the particle is emitted
         x02 = 0.0
         sqrt_pi = math.sqrt(math.pi)
-- 
2.43.0


From 69440713d2074a6425e80a69a9c2704f6ff75596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 35/42] fix: name every error table by the full final time

---
 .../loading_and_saving/save_output.py         | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index aebff81..d543316 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -43,6 +43,13 @@ class save_output:
         index_of_source_name = np.argmin(np.abs(np.array(source_type)-1))
         self.source_name = source_name_list[index_of_source_name]  
               
+    def time_name(self):
+        """ whole times are written without a decimal point, others in full
+        """
+        if self.tfinal == int(self.tfinal):
+            return str(int(self.tfinal))
+        return str(self.tfinal)
+
     def save_RMS(self, RMS_list, energy_RMS_list, N_angles, r_times):
         if (self.tfinal in [1,5,10,1.25, 0.8333333333333334]) or (self.thermal_couple == 1 and self.tfinal == 31.6228) :
             saving_condition = True
@@ -53,13 +60,7 @@ class save_output:
             if saving_condition == True:
                 print("saving")
                 f = h5py.File(self.config_file_path, 'r+')
-                if self.tfinal == 1.25:
-                    tf = str(1.25)
-                elif self.tfinal == 0.8333333333333334:
-                    tf = str(0.8333333333333334)
-                else:
-                    tf = str(int(self.tfinal))
-                dest_str = str(self.source_name + "/" + "t="  + tf + "/" + "RMS")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_name() + "/" + "RMS")
                 print(dest_str)
                 if not f.__contains__(dest_str):
                     f.create_group(dest_str)
@@ -80,7 +81,7 @@ class save_output:
             if saving_condition == True :
                 print("saving")
                 f = h5py.File(self.config_file_path, 'r+')
-                dest_str = str(self.source_name + "/" + "t="  + str(int(self.tfinal)) + "/" + "RMS")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_name() + "/" + "RMS")
                 
                 if not f.__contains__(dest_str):
                     f.create_group(dest_str)
@@ -110,9 +111,7 @@ class save_output:
             if self.major == 'cells':
                 print("saving RMSE")
                 f = h5py.File(self.config_file_path, 'r+')
-                if self.tfinal != 31.6228:
-                    self.tfinal = int(self.tfinal)
-                dest_str = str(self.source_name + "/" + "t="  + str(int(self.tfinal)) + "/" + "RMS" + "/" + f"S{ang}")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_name() + "/" + "RMS" + "/" + f"S{ang}")
                 print(dest_str)
                 if not f.__contains__(dest_str):
                     f.create_group(dest_str)
@@ -133,7 +132,7 @@ class save_output:
             elif self.major == 'Ms':
                 print("saving RMSE")
                 f = h5py.File(self.config_file_path, 'r+')
-                dest_str = str(self.source_name + "/" + "t="  + str(int(self.tfinal)) + "/" + "RMS" + "/" + f"S{ang}")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_name() + "/" + "RMS" + "/" + f"S{ang}")
                 print(dest_str)
                 
                 if not f.__contains__(dest_str):
-- 
2.43.0


From 3046a1bca70b3a03cb71cf4f1992961d3c53f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 36/42] fix: plot a study without needing a table of the
 Gaussian pulse

---
 moving_mesh_transport/plots/make_plots.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index ccca602..ac74ef6 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -129,7 +129,6 @@ class rms_plotter:
                                     'gaussian_s_thick_s2', 'gaussian_s_thick_s8', 'su_olson_thick_s2',
                                     'su_olson_thick_s8', 'gaussian_s_thick_s2_energy', 'gaussian_s_thick_s8_energy',
                                     'su_olson_thick_s2_energy','su_olson_thick_s8_energy']:
-            print(f['gaussian_IC'].keys())
             data = f[self.dest_str + '/' + data_str]
     
             if self.major == 'cells':
-- 
2.43.0


From dd93494331367ddee63579afa46bf8c2f94a45a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 37/42] fix: set the limit of the plot instead of overwriting
 pyplot.ylim

---
 moving_mesh_transport/plots/make_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index ac74ef6..0a7c3f1 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -475,7 +475,7 @@ class rms_plotter:
             self.RMS = self.RMS[:4]
             self.angles = self.angles[:4]
             xlimright = 12
-            plt.ylim = 10e-14
+            plt.ylim(bottom = 10e-14)
             self.find_c_semilog()
         energy_list = ['su_olson_thick_s2_energy', 'gaussian_s_thick_s2_energy', 'gaussian_energy_s2']
 
@@ -484,7 +484,7 @@ class rms_plotter:
                 self.Ms = self.Ms[:]
                 self.RMS = self.RMS[:]
                 self.angles = self.angles[:]
-                plt.ylim = 10e-10
+                plt.ylim(bottom = 10e-10)
                 if (self.uncollided == False) and (self.moving == False):
                     logplot_sn_labels_2(self.Ms, self.RMS, self.angles, 0.02, fign )
                 self.find_c_semilog()
-- 
2.43.0


From 2893f4e3db2edfc29d76712f9f34dcbe7165d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 38/42] fix: put the numbers of angles at the orders of the
 plot

---
 moving_mesh_transport/plots/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index 0a7c3f1..7620e8f 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -491,7 +491,7 @@ class rms_plotter:
                 
             elif self.source_name == 'square_IC' or self.source_name == 'square_s':
                 if (self.uncollided == False) and (self.moving == False):
-                    logplot_sn_labels(self.cells, self.RMS, self.angles, 0.1, fign )
+                    logplot_sn_labels(self.Ms, self.RMS, self.angles, 0.1, fign )
             
             elif self.source_name in ['gaussian_s2','gaussian_energy_s2', 'gaussian_s_thick_s2']:
                 self.find_c_semilog()
-- 
2.43.0


From 0f1f1e95ee21c7513047615d6541d8175745863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 39/42] fix: shorten the numbers of angles with the cells they
 belong to

---
 moving_mesh_transport/plots/make_plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index 7620e8f..4055cb2 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -190,11 +190,13 @@ class rms_plotter:
                 if self.M == 6:
                     self.cells = self.cells[:3]
                     self.RMS = self.RMS[:3]
+                    self.angles = self.angles[:3]
                     intercept = self.find_c()
                     order_triangle(3, 5, 7, intercept, 2, 1.5)
                 if self.M == 2:
                     self.cells = self.cells[:5]
                     self.RMS = self.RMS[:5]
+                    self.angles = self.angles[:5]
                     intercept = self.find_c()
                     order_triangle(9, 15, 3, intercept, 2, 1.05)
                     
-- 
2.43.0


From fbad515f0a299bf0e47008f7268c7617966f15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 40/42] fix: rms_plotter draws studies over cells unless told
 otherwise

---
 moving_mesh_transport/plots/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index 4055cb2..6ff268a 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -23,7 +23,7 @@ from ..loading_and_saving.load_solution import load_sol
 from ..solver_classes.functions import  convergence
 class rms_plotter:
     
-    def __init__(self, tfinal, M, source_name, major):
+    def __init__(self, tfinal, M, source_name, major = 'cells'):
         self.data_folder = Path("moving_mesh_transport")
         self.data_file_path = self.data_folder / 'run_data_transport_RMS.h5'
         
-- 
2.43.0


From db8318209a869b19b3111da86fe39517337b3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 41/42] fix: close the error tables after reading them

---
 moving_mesh_transport/plots/make_plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index 6ff268a..578220d 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -143,7 +143,7 @@ class rms_plotter:
             self.angles = data[2]
             self.times = data[3]
     
-            f.close()
+        f.close()
         
         if self.source_name in ["su_olson", "su_olson_energy", "su_olson_energy_s2",
                                     "su_olson_s2", "gaussian_s2", "gaussian_energy_s2", 
@@ -164,6 +164,7 @@ class rms_plotter:
             self.angles = rad_data[2]
             self.times = rad_data[3]
             self.energy_RMS = rad_data[5]
+            f_rad.close()
     
     def plot_RMS_vs_cells(self, fign = 1, clear = False, xlimright = 260):
         plt.ion()
-- 
2.43.0


From 8e2a4628d301c7f633f83fb4f8113049101f066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 42/42] fix: draw the error of the material energy in energy
 plots

---
 moving_mesh_transport/plots/make_plots.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index 578220d..63a90cb 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -50,7 +50,7 @@ class rms_plotter:
         """
         x = np.log(self.cells[1:])
         y = np.log(self.RMS[1:])
-        y1 = (np.log(self.energy_RMS[1:]))
+        y1 = (np.log(self.energy_RMS[1:len(self.cells)]))
         slope, intercept, r, p, se = linregress(x, y)
         slope2, intercept2, r, p, se = linregress(x, y1)
         print('intercept', np.exp(intercept))
@@ -63,7 +63,7 @@ class rms_plotter:
         """
         x = self.Ms[1:]
         y = np.log(self.RMS[1:])
-        y1 = np.log(self.energy_RMS[1:])
+        y1 = np.log(self.energy_RMS[1:len(self.Ms)])
         slope, intercept, r, p, se = linregress(x, y)
         slope2, intercept, r, p, se = linregress(x, y1)
         print(slope, 'slope - c1')
@@ -142,6 +142,7 @@ class rms_plotter:
             self.RMS = data[1]
             self.angles = data[2]
             self.times = data[3]
+            self.energy_RMS = data[5]
     
         f.close()
         
@@ -173,6 +174,8 @@ class rms_plotter:
         print(self.cells, 'cells')
         print(self.RMS, 'RMSE')
         xlimleft = 2.5
+        energy_list = ["su_olson_energy", 'su_olson_energy_s2', "gaussian_energy_s2", 'gaussian_s_thick_s2_energy', 
+                           'gaussian_s_thick_s8_energy','su_olson_thick_s2_energy','su_olson_thick_s8_energy' ]
 
         if clear == True:
             plt.clf()
@@ -351,9 +354,6 @@ class rms_plotter:
 
 
 
-            energy_list = ["su_olson_energy", 'su_olson_energy_s2', "gaussian_energy_s2", 'gaussian_s_thick_s2_energy', 
-                               'gaussian_s_thick_s8_energy','su_olson_thick_s2_energy','su_olson_thick_s8_energy' ]
-            
             if self.source_name not in energy_list:
 
                 plt.loglog(self.cells, self.RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
@@ -430,7 +430,10 @@ class rms_plotter:
                         intercept = self.find_c()
                         order_triangle(12, 16, 5, intercept, 1.5, 1.5)
 
-            plt.loglog(self.cells, self.RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
+            if self.source_name in energy_list:
+                plt.loglog(self.cells, self.energy_RMS[:len(self.cells)], self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
+            else:
+                plt.loglog(self.cells, self.RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
             show_loglog(file_path_string, xlimleft, xlimright)
             
 
@@ -442,7 +445,10 @@ class rms_plotter:
         elif self.tfinal == 10:
             xlimleft = 1
             xlimright = 256
-            plt.loglog(self.cells, self.RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
+            if self.source_name in energy_list:
+                plt.loglog(self.cells, self.energy_RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
+            else:
+                plt.loglog(self.cells, self.RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
             
             if self.source_name == "plane_IC":
                 intercept = self.find_c()
@@ -480,7 +486,8 @@ class rms_plotter:
             xlimright = 12
             plt.ylim(bottom = 10e-14)
             self.find_c_semilog()
-        energy_list = ['su_olson_thick_s2_energy', 'gaussian_s_thick_s2_energy', 'gaussian_energy_s2']
+        energy_list = ['su_olson_energy', 'su_olson_energy_s2', 'gaussian_energy_s2', 'gaussian_s_thick_s2_energy',
+                       'gaussian_s_thick_s8_energy', 'su_olson_thick_s2_energy', 'su_olson_thick_s8_energy']
 
         if self.source_name not in energy_list:    
             if self.source_name == "gaussian_IC" or self.source_name == "gaussian_s":
-- 
2.43.0

