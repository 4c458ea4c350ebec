From 859eb61ce7575f23082da933f6fe7d2211a4d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 01/29] fix: slab geometry evaluated no transport terms

rhs_class.call only filled in the derivative for spherical geometry, so for
slab problems it handed the state back as its own time derivative and every
slab solution grew like exp(t). Restore the slab equation.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 4bf9059..647f8b3 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -363,6 +363,9 @@ class rhs_class():
                     
                     V_new[angle,space,:] = RHS  
 
+                elif self.geometry['slab'] == True:
+                    V_new[angle,space,:] = np.dot(G,U) - LU + mul*np.dot(L,U) - VV + PV + 0.5*S
+
         return V_new.reshape((self.N_ang) * self.N_space * (self.M+1))
         
     
-- 
2.43.0


From 960725a450776f66ecf0422785107f93909cb897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 02/29] fix: spherical transport ignored sigma_t

The loss term subtracted the bare state, i.e. a total cross section of one,
whatever sigma_t the input asked for. Use the absorption vector that is
already computed for the cell.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 647f8b3..e8eb787 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -335,7 +335,7 @@ class rhs_class():
                     # if max(np.abs(PV - PV2)) >= 1e-10:
                     #     assert(0)
                     RHS += PV * self.c
-                    RHS -= U
+                    RHS -= VV
 
                     # RHS2 -= (3 * (a+b) / 2 / (a*b + b**2 + a**2)) * dterm 
 
-- 
2.43.0


From 63d33501c25316b065992a8ee9f65f722b932b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 03/29] fix: space dependent opacity accumulated over cells,
 angles and calls

make_vectors added to the vector left by the previous cell, angle and time,
so the loss term of a variable opacity problem depended on every evaluation
made before it.
---
 moving_mesh_transport/solver_classes/opacity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 930b17f..25b5d4f 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -168,6 +168,7 @@ class sigma_integrator():
         if self.sigma_func['constant'] == True:
             self.VV = u * self.sigma_t
         else:
+            self.VV = u * 0.0
             for i in range(self.M + 1):
                 for j in range(self.M + 1):
                     for k in range(self.Msigma + 1):
-- 
2.43.0


From a3b125165ece669736e03dcfcccf35d7bcfd2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 04/29] fix: slab plane and Gaussian meshes had no initial
 positions

simple_moving_init_func recorded edges0 for the sphere only; the slab mesh
collapsed to Dedges*t (zero width at t = 0).
---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ac29274..eef0ee5 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -497,7 +497,7 @@ class mesh_class(object):
                 self.edges = np.linspace(-self.x0, self.x0, self.N_space+1)
             elif self.geometry['sphere'] == True:
                 self.edges = np.linspace(0, self.x0, self.N_space+1)
-                self.edges0 = self.edges
+            self.edges0 = self.edges
             self.Dedges = self.edges/self.edges[-1] * self.speed
             self.Dedges_const = self.Dedges
             if self.source_type[0] == 2:
-- 
2.43.0


From 3d72789dcc7b2771eeb9bbe61b6d974bbb35006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 05/29] fix: Gaussian and square source meshes reported
 velocities but never moved

For the Gaussian problems and for the square source in an infinite domain move()
had no branch, so the edges stayed at their t = 0 positions while the
nonzero edge velocities entered the fluxes, and static runs kept the initial
extent instead of the final one.
---
 moving_mesh_transport/solver_classes/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index eef0ee5..475fba5 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -257,6 +257,10 @@ class mesh_class(object):
                     else:
                             print("no move function selected")
                             assert(0)
+            elif (self.source_type[2] == 1 or self.source_type[3] == 1 or self.source_type[5] == 1) and self.move_func == 0:
+                self.edges = self.edges0 + self.Dedges_const*t
+                self.Dedges = self.Dedges_const
+
             elif np.all(self.source_type == 0):
                 # print(self.Dedges)
                 self.edges = self.edges0 + self.Dedges*t
@@ -434,6 +438,7 @@ class mesh_class(object):
             # right_edge = self.x0 + self.tfinal
 
         self.edges = np.linspace(-right_edge, right_edge, self.N_space + 1)
+        self.edges0 = self.edges
         self.Dedges = self.edges * 0
 
 
-- 
2.43.0


From e4841ba18eadf97a554c1e2cbcb234ecef47a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 06/29] fix: finite domain meshes depended on the order of past
 evaluations

Once an earlier call had seen the outer edge near the wall the mesh froze
wherever that call left it, so rejected or out-of-order trial times of the
integrator changed the mesh; a moving square pulse was also swapped for a
uniform grid at t == tfinal without transferring the solution, and the square
source reused the velocities of the last accelerated step before t0 (and
divided by zero for tfinal == t0). Compute the time the mesh meets the wall
and make edges and velocities functions of t only. Static runs keep the
uniform grid.
---
 moving_mesh_transport/solver_classes/mesh.py | 58 ++++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 475fba5..7fa5d58 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -165,6 +165,12 @@ class mesh_class(object):
         This mode moves all of the edges at a constant speed,
         linearly increasing from 0 to the wavespeed
         """
+        at_wall = False
+        if self.finite_domain == True and self.move_func == 0 and (self.source_type[1] == 1 or self.source_type[2] == 1):
+            # the mesh rests once its outermost edge has reached the end of the domain
+            wall_time = self.wall_time()
+            at_wall = t >= wall_time
+            t = min(t, wall_time)
         if self.moving == True:
             # if self.source_type[1] == 1 or self.source_type[2] == 1:
                 # if t > 10.0:
@@ -177,18 +183,6 @@ class mesh_class(object):
 
 
             elif self.source_type[1] == 1:
-                if self.finite_domain == True and t == self.tfinal:
-
-                # print(self.edges0[-1] + t * self.speed, "###### final edge ######")
-                
-                # if self.edges0[-1] + t * self.speed > 5 and self.finite_domain == True:
-                    self.edges = np.linspace(-self.domain_width/2, self.domain_width/2, self.N_space+1)
-                    
-
-                elif (self.finite_domain == True) and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
-                    self.edges = self.edges
-                    self.Dedges = self.Dedges_const*0
-                else:
                     # print(self.edges0, 'edges0')
                     self.edges = self.edges0 + self.Dedges_const*t
                     self.Dedges = self.Dedges_const
@@ -199,16 +193,8 @@ class mesh_class(object):
 
             elif (self.source_type[2] == 1 or self.source_type[1] == 1) and self.finite_domain == True: #or self.source_type[0]!=0:
                 # self.finite_domain = True # what is the deal with this?
-                if (self.finite_domain == True) and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
-                        self.edges = self.edges
-                        self.Dedges = self.Dedges_const*0
-                    # if t == self.tfinal:
-                    #     self.edges = np.linspace(-5, 5, self.N_space+1)
-                    #     self.Dedges = self.Dedges_const*0
-                    # else:
-                else:
                     if self.move_func == 0:
-                            if t >= self.t0:
+                            if t > self.t0:
                                 self.move_middle_edges(t)
                                 tnew1 = t - self.t0 
 
@@ -228,9 +214,10 @@ class mesh_class(object):
                                 self.Dedges = self.c1s * tnew1 + self.Dedges_const
 
 
-                            elif (t < self.t0):
+                            else:
                             
-                                self.edges = self.edges0 + self.Dedges*t
+                                self.edges = self.edges0 + self.Dedges_const*t
+                                self.Dedges = self.Dedges_const
 
 
                             # self.Dedges = self.Dedges_const
@@ -265,11 +252,32 @@ class mesh_class(object):
                 # print(self.Dedges)
                 self.edges = self.edges0 + self.Dedges*t
 
+            if at_wall == True:
+                self.Dedges = self.Dedges*0
+
             # if self.debugging == True:
             #     for itest in range(self.edges.size()):
             #         if self.edges[itest] != np.sort(self.edges)[itest]:
             #             print("crossed edges")
             #             assert(0)
+    def wall_time(self):
+        """
+        The time at which the outermost edge reaches the end of a finite domain
+        """
+        distance = max(self.domain_width/2 - self.edges0[-1], 0.0)
+        speed = self.Dedges_const[-1]
+        if speed <= 0:
+            return np.inf
+        wall_time = distance / speed
+        if self.source_type[2] == 1 and self.thick == False and wall_time > self.t0 and self.tfinal > self.t0:
+            self.move_middle_edges(self.tfinal)
+            distance = self.domain_width/2 - self.edges0_2[-1]
+            discriminant = speed**2 + 2 * self.c1s[-1] * distance
+            if discriminant < 0:
+                return np.inf
+            wall_time = self.t0 + 2 * distance / (speed + math.sqrt(discriminant))
+        return wall_time
+
     def smooth_wave_loc_array(self):
         for ix in range(0,self.wave_loc_array[0,3,:].size-1):
             if self.wave_loc_array[0,3,ix] < self.wave_loc_array[0,3,ix +1]:
@@ -278,7 +286,7 @@ class mesh_class(object):
     def move_middle_edges(self,t):
         middlebin = int(self.N_space/2)
         sidebin = int(middlebin/2)
-        if self.Dedges[sidebin] == 0:
+        if self.Dedges_const[sidebin] == 0:
             self.edges0_2 = self.edges0 + self.Dedges_const * self.t0
             # final_pos = self.edges0[-1] + self.Dedges[-1] * self.tfinal
             final_pos = self.pad
@@ -874,6 +882,8 @@ class mesh_class(object):
             if self.thick == True:
                 self.delta_t = self.tfinal 
             self.move(self.tfinal)
+            if self.finite_domain == True and self.source_type[1] == 1:
+                self.edges = np.linspace(-self.domain_width/2, self.domain_width/2, self.N_space+1)
             self.Dedges = self.Dedges*0
             self.moving = False
             # self.edges[-1] = self.x0 + self.tfinal * self.speed
-- 
2.43.0


From bd8c71ab9f562aa000a1287e5e4bbc048dfe9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 07/29] fix: a failed time integration was reported and saved
 as the final solution

solve() used whatever the integrator had reached when it gave up as the
answer at tfinal.
---
 moving_mesh_transport/solver_functions/main_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 969915a..d89e68d 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -182,6 +182,8 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
 
     sol = integrate.solve_ivp(RHS, [0.0,tfinal], reshaped_IC, method=integrator, t_eval = tpnts , rtol = rt, atol = at, max_step = mxstp)
     print(sol)
+    if sol.success == False:
+        raise RuntimeError('the time integration did not reach tfinal: ' + str(sol.message))
     print(sol.y.shape,'sol y shape')
     print(eval_times, 'eval times')
     end = timer()
-- 
2.43.0


From 92cdc585166af6a20a08a69c08bd236e9cf33255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 08/29] fix: output at several times was broken and saved the
 wrong mesh and coefficients

With eval_times set, solve() crashed looking up the nodes (missing geometry
argument), and every time was saved with the coefficients and cell edges of
the last one. Return and save each time's own.
---
 moving_mesh_transport/solver.py                       |  4 ++--
 .../solver_functions/main_functions.py                | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index e8464a4..c0bf006 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -165,7 +165,7 @@ class main_class(parameter_load_class):
                             self.temp_function, self.scattering_ratio, self.sigma,
                             self.x0, self.cv0, self.problem_type, self.N_angles, self.epsilon)
 
-                            saving.save_solution(xs[it], phi[it], e, sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
+                            saving.save_solution(xs[it], phi[it], e[it], sol_matrix[it], edges[it], x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
                 
                 
                 self.r_times[count] += (time)/self.N_runs
@@ -187,7 +187,7 @@ class main_class(parameter_load_class):
                 plt.xlabel("x")
                 plt.ylabel("scalar flux")
                 if count == len(self.N_angles)-1:
-                    plot_edges(edges, 1)
+                    plot_edges(edges if self.eval_times == False else edges[-1], 1)
                 # if self.thermal_couple == 1:
                 #     plt.plot(xs, e, "-^", label = "energy density", mfc = "none")
                 # if self.temp_function[0]==1:
diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index d89e68d..caaed53 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -217,13 +217,9 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
         extra_deg_freedom = 0
        
         sol_last = sol.y[:,-1].reshape((N_ang,N_space,M+1))
-        if eval_times ==True:
-            sol_array = sol.y.reshape((eval_array.size, N_ang,N_space,M+1)) 
     elif thermal_couple['none'] != 1:
         extra_deg_freedom = 1
         sol_last = sol.y[:,-1].reshape((N_ang+1,N_space,M+1))
-        if eval_times == True:
-            sol_array = sol.y.reshape((eval_array.size, N_ang+1,N_space,M+1)) 
 
 
     
@@ -256,11 +252,15 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
         exit_dist = np.zeros((eval_array.size, N_ang, 2))
         exit_phi = np.zeros((eval_array.size, 2))
         xs_ret = np.zeros((eval_array.size, xs.size))
+        sol_last = np.zeros((eval_array.size, N_ang+extra_deg_freedom, N_space, M+1))
+        edges_ret = np.zeros((eval_array.size, N_space+1))
         for it, tt in enumerate(eval_array):
             mesh.move(tt)
             edges = mesh.edges
+            edges_ret[it] = edges
+            sol_last[it] = sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1))
             if choose_xs == False:
-                xs = find_nodes(edges, M)
+                xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
             output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
@@ -272,6 +272,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
                 e = output.make_e()
             else:
                 e = phi*0
+        edges = edges_ret
     computation_time = end-start
     
     return xs_ret, phi, psi, exit_dist, exit_phi,  e, computation_time, sol_last, mus, ws, edges, wavespeed_array, tpnts, left_edges, right_edges, wave_tpnts, wave_xpnts, T_front_location, mus
-- 
2.43.0


From 797ca9072142d26e03e17ac86ff0ddcbffff24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 09/29] fix: exit scalar flux added the uncollided flux of the
 wrong points

get_exit_dist evaluated the uncollided solution at the output points instead
of the two outer edges, which failed for any number of output points but one
or two and was wrong there.
---
 moving_mesh_transport/solver_classes/make_phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/make_phi.py b/moving_mesh_transport/solver_classes/make_phi.py
index dc67814..3b7f87e 100644
--- a/moving_mesh_transport/solver_classes/make_phi.py
+++ b/moving_mesh_transport/solver_classes/make_phi.py
@@ -107,7 +107,7 @@ class make_output:
         self.exit_dist = psi
         output = np.sum(np.multiply(psi.transpose(), self.ws), axis = 1)
         if self.uncollided == True:
-            uncol = uncollided_solution.uncollided_solution(self.xs, self.t)
+            uncol = uncollided_solution.uncollided_solution(x_eval, self.t)
             output += uncol
         return self.exit_dist, output
         
-- 
2.43.0


From 0f01a1d66337480e1bea188ab3418b38bff08878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 10/29] fix: uncollided shell solution divided by zero at the
 centre of the sphere

r = 0 is the left edge of every spherical mesh (exit distribution) and the
first entry of the default xs_list.
---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c8c2478..c84a454 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -232,6 +232,7 @@ class uncollided_solution(object):
         n0 = N0 / (4. * math.pi / 3. * (self.x0 ** 3)) / (4. * math.pi)
         for ix, r in enumerate(xs):
             tt = t + 1e-12
+            r = max(r, 1e-12)
             mu_crit = min(1., max(-1.,0.5*(tt/r+r/tt-self.x0**2/(r*tt))))
             r2 = r ** 2 + t ** 2 - 2 * mu_crit * r * t
             # if np.sqrt(r2) < self.x0: 
-- 
2.43.0


From 3e7b252d4a87e384cbb20618006e0ea2e1e7287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 11/29] fix: source strength was applied two or three times to
 uncollided sources

The uncollided solutions of the square and Gaussian pulses included
source_strength, uncollided_solution() multiplied by it, and make_source() did
so once more, so the answer was not linear in the strength and the collided
and uncollided parts disagreed for any strength other than one.
---
 moving_mesh_transport/solver_classes/sources.py              | 5 ++---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/sources.py b/moving_mesh_transport/solver_classes/sources.py
index a0fe790..b8ecb12 100644
--- a/moving_mesh_transport/solver_classes/sources.py
+++ b/moving_mesh_transport/solver_classes/sources.py
@@ -119,7 +119,7 @@ class source_class(object):
         if self.geometry['slab'] == True:
             if self.uncollided == True:
                 if (self.source_type[0] == 1) and  (self.moving == True):
-                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR)
+                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR) * self.source_strength
                 else:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
@@ -131,6 +131,7 @@ class source_class(object):
                 elif self.source_type[5] == 1:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, self.gaussian_source)
+                self.S = self.S * self.source_strength
         
         elif self.geometry['sphere'] == True:
             if self.uncollided == True:
@@ -146,8 +147,6 @@ class source_class(object):
 
                         
 
-        self.S = self.S * self.source_strength
-
     def make_source_not_isotropic(self, t, mu, xL, xR):
             if self.source_type[4] ==1:
                 for j in range(self.M+1):
diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c84a454..ec00de0 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -222,7 +222,7 @@ class uncollided_solution(object):
                     temp[ix] = math.exp(-t)*(t + xx + self.x0)/(2.0 * t + 1e-12)
                 elif (self.x0 - xx <= t) and (self.x0 + xx >= t):
                     temp[ix] = math.exp(-t)*(t - xx + self.x0)/(2.0 * t + 1e-12)
-        return temp * self.source_strength
+        return temp
     
     def shell_IC_uncollided_solution(self, xs, t):
         temp = xs*0 
@@ -245,7 +245,7 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12) * self.source_strength
+            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From b4bc8248de44c9464a893395ca0dfa5cf2ffb2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 12/29] fix: boundary source, dipole and self-similar runs
 overwrote other sources' records

argmin of |source_type - 1| picked 'plane_IC' for the boundary source and the
dipole and 'square_IC' for the self-similar plane, so saving them replaced the
stored solution of that other problem.
---
 moving_mesh_transport/loading_and_saving/save_output.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0fd22c8..11a4b27 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -42,6 +42,12 @@ class save_output:
         gaussian_sources = ["gaussian_IC", "gaussian_s"]
         index_of_source_name = np.argmin(np.abs(np.array(source_type)-1))
         self.source_name = source_name_list[index_of_source_name]  
+        if np.all(np.array(source_type) == 0):
+            self.source_name = 'boundary_source'
+        elif source_type[0] == 2:
+            self.source_name = 'dipole'
+        elif source_type[0] == 3:
+            self.source_name = 'self_sim_plane'
               
     def save_RMS(self, RMS_list, energy_RMS_list, N_angles, r_times):
         if (self.tfinal in [1,5,10,1.25, 0.8333333333333334]) or (self.thermal_couple == 1 and self.tfinal == 31.6228) :
-- 
2.43.0


From d4b3cefb53f1851eca76eba8625572f576467f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 13/29] fix: psi and mus of different problems shared one
 record

The leading slash of the record name made h5py resolve the angular flux and
the angles from the root of the file, so two problems (say su_olson and
transport) with the same source and parameters overwrote each other's.
---
 moving_mesh_transport/loading_and_saving/load_solution.py | 8 +++++---
 moving_mesh_transport/loading_and_saving/save_output.py   | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index f294f3c..00acb17 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -38,7 +38,7 @@ class load_sol:
         # full_str = self.rad_or_transfer
         full_str = ''
 
-        full_str += "/" + str(self.source_name) + '_uncollided_' * (uncollided) + 'moving_mesh_' * (moving) + 'N_space = ' + str(N_space) + '_t = ' + str(tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
+        full_str += str(self.source_name) + '_uncollided_' * (uncollided) + 'moving_mesh_' * (moving) + 'N_space = ' + str(N_space) + '_t = ' + str(tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
         if epsilon != 1.0:
             full_str += '_epsilon=' + str(epsilon)
         f = h5py.File(self.data_file_path, "r+")
@@ -50,10 +50,12 @@ class load_sol:
         self.phi = sol_data[1]
         self.e = sol_data[2]
 
-        self.psi = f[self.problem_name][full_str]['psi'][:,:]
+        # older files keep psi and mus at the root of the file
+        psi_name = full_str if full_str in f[self.problem_name] else '/' + full_str
+        self.psi = f[self.problem_name][psi_name]['psi'][:,:]
         print(self.psi)
 
-        self.mus = f[self.problem_name][full_str]['mus'][:]
+        self.mus = f[self.problem_name][psi_name]['mus'][:]
 
       
         self.ws = f[self.problem_name]['weights/' + full_str][:]
diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 11a4b27..775279e 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -191,19 +191,19 @@ class save_output:
             f.create_group(folder_name)
         full_str = ''
 
-        full_str += "/" + str(self.source_name) + '_uncollided_' * (self.uncollided) + 'moving_mesh_' * (self.moving) + 'N_space = ' + str(N_space) + '_t = ' + str(self.tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
+        full_str += str(self.source_name) + '_uncollided_' * (self.uncollided) + 'moving_mesh_' * (self.moving) + 'N_space = ' + str(N_space) + '_t = ' + str(self.tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
         if epsilon != 1.0:
             full_str += '_epsilon=' + str(epsilon)
 
         if f[folder_name].__contains__('solution/' + full_str):
             del f[folder_name]['solution/'+full_str]
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
-        print(folder_name + 'solution/' + full_str)
+        print(folder_name + '/solution/' + full_str)
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
         
         if not f[folder_name].__contains__(full_str):
-            f.create_group(full_str)
+            f[folder_name].create_group(full_str)
 
 
 
-- 
2.43.0


From fbeb17d08da5cdfab6bba1376141331d4b3c7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 14/29] fix: a failed or interrupted save destroyed stored
 solutions

Saving edited the only copy of the results file in place: a full disk, an I/O
error, Ctrl-C or a crash in the middle left the record half deleted or the
whole HDF5 file unreadable. Edit a copy and rename it over the original.
---
 .../loading_and_saving/save_output.py         | 64 +++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 775279e..aaee865 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -5,9 +5,71 @@ Created on Thu Feb 17 07:35:06 2022
 
 @author: bennett
 """
+import functools
+import os
+import shutil
 import numpy as np
 import h5py
 from pathlib import Path
+try:
+    import fcntl
+except ImportError:     # not available on Windows
+    fcntl = None
+
+
+def open_locked(path):
+    """
+    Opens the file and holds it against other writers (h5py takes the same lock) until it is closed
+    """
+    while True:
+        locked = open(path, 'rb')
+        try:
+            if fcntl is not None:
+                fcntl.flock(locked, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        except BlockingIOError:
+            locked.close()
+            raise
+        except OSError:
+            pass            # this file system has no locks
+        if os.path.samestat(os.fstat(locked.fileno()), os.stat(path)):
+            return locked
+        locked.close()      # replaced by another writer in the meantime
+
+
+def all_or_nothing(path_name):
+    """
+    Lets a saving method work on a copy of its file, which takes the place of the original
+    once it is complete and on disk. If the method fails or the process dies, the original is untouched.
+    """
+    def decorator(save):
+        @functools.wraps(save)
+        def wrapper(self, *args, **kwargs):
+            original = getattr(self, path_name)
+            path = Path(os.path.realpath(original))
+            copy = path.with_name(path.name + '.saving')
+            locked = open_locked(path)
+            try:
+                shutil.copy(path, copy)
+                setattr(self, path_name, copy)
+                save(self, *args, **kwargs)
+                with open(copy, 'rb+') as finished:
+                    os.fsync(finished.fileno())
+                os.replace(copy, path)
+            except BaseException:
+                copy.unlink(missing_ok = True)
+                raise
+            finally:
+                setattr(self, path_name, original)
+                locked.close()
+            if fcntl is not None:
+                folder = os.open(path.parent, os.O_RDONLY)
+                try:
+                    os.fsync(folder)
+                finally:
+                    os.close(folder)
+        return wrapper
+    return decorator
+
 
 class save_output:
     def __init__(self, tfinal, N_spaces, Ms, source_type, moving, uncollided, major,
@@ -159,6 +221,7 @@ class save_output:
                 dset[5] = energy_RMS_list
                 f.close()
                 
+    @all_or_nothing('solution_file_path')
     def save_solution(self, xs, phi, e, sol_matrix, edges,  x0_or_sigma, ws, N_space, s2, psi, epsilon, mus):
         print("saving solution")
         "transport or transfer/source_name/t = {tfinal}/c = {c}/ x0(or sigma) = {val}"
@@ -246,6 +309,7 @@ class save_output:
         f.close()        
      
 
+    @all_or_nothing('wavepoints_file_path')
     def save_wave_loc(self, tpnts, leftpnts, rightpnts, T_wave_points):
     
         f = h5py.File(self.wavepoints_file_path, 'r+')
-- 
2.43.0


From 45854388700442494e617c7159ac3493aeae0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 15/29] fix: wave tables of the S2 constant heat capacity
 problems went to a shared folder

save_wave_loc did not know the two S2 problem names and filed them all under
'none', where they overwrote each other.
---
 moving_mesh_transport/loading_and_saving/save_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index aaee865..1848dfe 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -319,8 +319,12 @@ class save_output:
             folder_name = "transport"
         elif self.problem_type == 'rad_transfer_constant_cv':
             folder_name =  f"transfer_const_cv={self.cv_const}"
+        elif self.problem_type == 'rad_transfer_constant_cv_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_s2"
         elif self.problem_type == 'rad_transfer_constant_cv_thick':
             folder_name =  f"transfer_const_cv={self.cv_const}_thick"
+        elif self.problem_type == 'rad_transfer_constant_cv_thick_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_thick_s2"
         elif self.problem_type == "su_olson_s2":
             folder_name = "su_olson_s2"
         elif self.problem_type == "su_olson_thick_s2":
-- 
2.43.0


From ae76fc72a1db7f293ab2a69c008914380516a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 16/29] fix: loading results modified the data files and failed
 for several problems

Reading opened every file for writing, created empty groups and a stray
run_data_final, and left the file locked after a missing record. The S2
constant heat capacity names of the README and of the input scripts were not
mapped to their folder, and the wave table reader used an undefined variable.
---
 .../loading_and_saving/load_solution.py       | 51 +++++++------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 00acb17..89ef4d4 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -18,7 +18,6 @@ class load_sol:
 
         self.data_file_path = data_folder / file_name
         # self.data_file_path = data_folder / 'run_data.h5' 
-        self.final_sol_path = data_folder / 'run_data_final'
         self.wavepoints_file_path = data_folder / 'wavepoints.h5'
         self.source_name = source_name
         self.rad_or_transfer = rad_or_transfer
@@ -26,23 +25,25 @@ class load_sol:
         self.s2 = s2
         self.problem_name = problem_name
         self.cv0 = cv0
-        if self.problem_name == 'rad_transfer_const_cv_thick':
-            self.problem_name = f'transfer_const_cv={self.cv0}_thick'
-        elif self.problem_name == 'rad_transfer_const_cv':
-            self.problem_name = f'transfer_const_cv={self.cv0}'
+        for suffix in ['', '_s2', '_thick', '_thick_s2']:
+            if self.problem_name in ['rad_transfer_const_cv' + suffix, 'rad_transfer_constant_cv' + suffix]:
+                self.problem_name = f'transfer_const_cv={self.cv0}' + suffix
+                break
         
         
         print('file_name', file_name)
     
     def call_sol(self, tfinal, M, x0_or_sigma, N_space, mat_or_rad, uncollided, moving, epsilon = 1.0):
+        with h5py.File(self.data_file_path, "r") as f:
+            self.read_sol(f, tfinal, x0_or_sigma, N_space, mat_or_rad, uncollided, moving, epsilon)
+
+    def read_sol(self, f, tfinal, x0_or_sigma, N_space, mat_or_rad, uncollided, moving, epsilon):
         # full_str = self.rad_or_transfer
         full_str = ''
 
         full_str += str(self.source_name) + '_uncollided_' * (uncollided) + 'moving_mesh_' * (moving) + 'N_space = ' + str(N_space) + '_t = ' + str(tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
         if epsilon != 1.0:
             full_str += '_epsilon=' + str(epsilon)
-        f = h5py.File(self.data_file_path, "r+")
-        f2 = h5py.File(self.final_sol_path, 'a')
 
         sol_data = f[self.problem_name]['solution/'+full_str]
 
@@ -76,29 +77,23 @@ class load_sol:
 
         # f.copy('x', f2[self.problem_name])
         # f2.create_dataset_like(self.problem_name, f[self.problem_name])
-        
-        f.close()
-        f2.close()
 
 
     
     def call_wavepoints(self, tfinal):
+        with h5py.File(self.wavepoints_file_path, "r") as f:
+            self.read_wavepoints(f, tfinal)
 
-        f = h5py.File(self.wavepoints_file_path, "r+")
-
+    def read_wavepoints(self, f, tfinal):
         full_str = str(self.source_name) + 't = ' + str((tfinal))    
         if self.problem_name == 'su_olson_thick':
-                if not f.__contains__(self.problem_name):
-                    f.create_group(self.problem_name)
                 self.tpnts = f['su_olson_thick']['tpnts_' + full_str][:]
                 self.left = f['su_olson_thick']['left_' + full_str][:]
                 self.right = f['su_olson_thick']['right_' + full_str][:]
-                self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+                self.T_wave = f['su_olson_thick']['T_wave_' + full_str][:]
 
         elif self.problem_name == 'su_olson_thick_s2':
-                if not f.__contains__(self.problem_name):
-                    f.create_group(self.problem_name)
-                if not f[self.problem_name].__contains__('tpnts_' + full_str):
+                if not f.__contains__(self.problem_name + '/tpnts_' + full_str):
                     self.tpnts = np.array([tfinal])
                     self.left = np.array([0])
                     self.right = np.array([0])
@@ -112,11 +107,9 @@ class load_sol:
 
 
 
-        elif self.problem_name == 'rad_transfer_constant_cv_thick':
+        elif self.problem_name == f"transfer_const_cv={self.cv0}_thick":
             folder_name =  f"transfer_const_cv={self.cv0}_thick"
-            if not f.__contains__(folder_name):
-                f.create_group(folder_name)
-            if not f[folder_name].__contains__('tpnts_' + full_str):
+            if not f.__contains__(folder_name + '/tpnts_' + full_str):
                 self.tpnts = np.array([tfinal])
                 self.left = np.array([0])
                 self.right = np.array([0])
@@ -127,12 +120,10 @@ class load_sol:
                 self.right = f[folder_name]['right_' + full_str][:]
                 self.T_wave = f[folder_name]['T_wave_' + full_str][:]
 
-        elif self.problem_name == 'rad_transfer_constant_cv_thick_s2':
+        elif self.problem_name == f"transfer_const_cv={self.cv0}_thick_s2":
             folder_name =  f"transfer_const_cv={self.cv0}_thick_s2"
-            if not f.__contains__(folder_name):
-                f.create_group(folder_name)
 
-            if not f[folder_name].__contains__('tpnts_' + full_str):
+            if not f.__contains__(folder_name + '/tpnts_' + full_str):
                 self.tpnts = np.array([tfinal])
                 self.left = np.array([0])
                 self.right = np.array([0])
@@ -150,13 +141,7 @@ class load_sol:
             self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
             self.left = f[self.problem_name]['left_' + full_str][:]
             self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
-
-
-
-
-
-        f.close()
+            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
     
         
         
-- 
2.43.0


From 589dd0eaedbd058b141b3d37d915078d64d6c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 17/29] fix: a failed load left half of the previous problem's
 parameters in place

If mesh_parameters.yaml could not be read or parsed, the run object kept the
old mesh parameters with the new problem's.
---
 moving_mesh_transport/solver_functions/run_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 203bad9..719d0e1 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -44,12 +44,15 @@ class run:
         config_file_path = self.data_folder / f"{problem_type}.yaml"
         mesh_config_file_path = self.data_folder / "mesh_parameters.yaml"
         with open(config_file_path, 'r') as file:
-            self.parameters = yaml.safe_load(file)
+            parameters = yaml.safe_load(file)
             file.close()
 
         with open(mesh_config_file_path, 'r') as file:
-            self.mesh_parameters = yaml.safe_load(file)
+            mesh_parameters = yaml.safe_load(file)
             file.close()
+
+        self.parameters = parameters
+        self.mesh_parameters = mesh_parameters
    
     def h(self):
         print(" choose problem type : 'transport','rad_transfer','su_olson','s2_rad_transfer','s2_rad_transfer_thick','rad_transfer_thick','config'")
-- 
2.43.0


From dd17d5de6662641a714ffde7dfc9d1ebb83d852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 18/29] fix: the f_sedov opacity of the input scripts could not
 be used

The opacity class asked for a key 'fake_sedov' that no input script defines
and integrated the time dependent opacity only once; the boundary source run
indexed the options by position, which a dictionary does not have.
---
 moving_mesh_transport/solver_classes/opacity.py      |  6 +++---
 .../solver_functions/run_functions.py                | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 25b5d4f..05e9b3b 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,8 +62,8 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        # if self.sigma_func['fake_sedov'] == True:
-        #     self.moving = True
+        if 'f_sedov' in self.sigma_func and self.sigma_func['f_sedov'] == True:
+            self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
 
@@ -137,7 +137,7 @@ class sigma_integrator():
             return np.exp(-x - 2.5)
         elif self.sigma_func['siewert2'] == 1:
             return np.exp(-x/100000000000)
-        elif self.sigma_func['fake_sedov'] == 1:
+        elif self.sigma_func['f_sedov'] == 1:
             # return np.exp(-(x- self.sigma_v * t)**2/(2*self.std**2))
             c1 = 1
             xi2x = self.xi2(x, t, 0, c1, self.sigma_v)
diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 719d0e1..b55adaf 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -207,17 +207,17 @@ class run:
             f = lambda x: np.exp(-x**2 /(2 * 0.5**2))
             fsol = lambda x, mu: np.exp(x * 1/mu) 
             plt.figure(3)
-            if solver.sigma_func[0] == 1:
+            if solver.sigma_func['constant'] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
                 plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
                 plt.show()
-            elif solver.sigma_func[1] == 1:
+            elif solver.sigma_func['gaussian'] == 1:
                 self.steady_state_gaussian_benchmark()
             
-            elif solver.sigma_func[2] == 1 or solver.sigma_func[3] == 1:
+            elif solver.sigma_func['siewert1'] == 1 or solver.sigma_func['siewert2'] == 1:
                 self.siewert_bench(solver.sigma_func)
             
-            elif solver.sigma_func[4] == 1:
+            elif solver.sigma_func['f_sedov'] == 1:
                 plt.figure(4)
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
@@ -372,7 +372,7 @@ class run:
 
 
 
-        if sigma[2] == 1: 
+        if sigma['siewert1'] == 1: 
             resultsfigns = [9,10]
             plt.figure(9)
             plt.plot(self.psibenchpsis, self.psi0bench, 'kx', label = 'benchmark s = 1')
@@ -382,7 +382,7 @@ class run:
             plt.plot(self.psibenchpsis, self.psi1bench, 'kx', label = 'benchmark s = 1')
             plt.legend()
             plt.show()
-        elif sigma[3] == 1: 
+        elif sigma['siewert2'] == 1: 
             resultsfigns = [11,12]
             plt.figure(11)
             plt.plot(self.psibenchpsis, self.psi0benchinf, 'kx', label = 'benchmark s = inf')
-- 
2.43.0


From 1dde68f7532abc3bcfbf17841d5c44376d7f37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 19/29] fix: every solve opened the coefficient tables for
 writing

The tables are only read. Opening them 'r+' locked them against every other
run and failed on a read-only installation.
---
 .../solver_functions/Chebyshev_matrix_reader.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/Chebyshev_matrix_reader.py b/moving_mesh_transport/solver_functions/Chebyshev_matrix_reader.py
index 304aa89..3dfc09f 100644
--- a/moving_mesh_transport/solver_functions/Chebyshev_matrix_reader.py
+++ b/moving_mesh_transport/solver_functions/Chebyshev_matrix_reader.py
@@ -6,11 +6,11 @@ class file_reader():
         L_matrix_name = 'moving_mesh_transport/matrix_files/LMatrix.h5', VV_matrix_name = 'moving_mesh_transport/matrix_files/VVMatrix.h5'):
         """ Read in the mass matrix coefficients and denominators
         """
-        f = h5py.File(mass_matrix_name, 'r+')
-        f1 = h5py.File(J_matrix_name, 'r+')
-        f2 = h5py.File(G_matrix_name, 'r+')
-        f3 = h5py.File(L_matrix_name, 'r+')
-        f4  = h5py.File(VV_matrix_name, 'r+')
+        f = h5py.File(mass_matrix_name, 'r')
+        f1 = h5py.File(J_matrix_name, 'r')
+        f2 = h5py.File(G_matrix_name, 'r')
+        f3 = h5py.File(L_matrix_name, 'r')
+        f4  = h5py.File(VV_matrix_name, 'r')
         self.mass_mat_denom = f['denominators'][:]
         self.J_mat_denom = f1['denominators'][:]
         self.G_mat_denom = f2['denominators'][:]
-- 
2.43.0


From 6de203b83ca806d5a7af1ccc030534ab98543559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 20/29] fix: boundary source runs raised after the solve in
 their benchmark plots

---
 .../solver_functions/run_functions.py         | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index b55adaf..50ef663 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -222,14 +222,16 @@ class run:
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
                 # plt.plot(self.xs[-1], self.psi[-1,np.argmin(np.abs(self.mus - 0.6))], '--', label = f'mu = {round(mu2,2)} from solver')
-                plt.plot(self.xs[-1], self.phi[-1])
+                times = self.eval_array if solver.eval_times == True else [self.tfinal]
+                exit_phi = np.atleast_2d(self.exit_phi)
+                plt.plot(np.atleast_2d(self.xs)[-1], np.atleast_2d(self.phi)[-1])
                 plt.legend()
                 plt.show()
                 self.fake_sedov_benchmark()
                 print(self.mus[-1], 'last mu')
 
                 plt.figure(5)
-                plt.plot(self.eval_array, self.exit_phi[:,0], '-ob', mfc = 'none', label = 'left exit distribution')
+                plt.plot(times, exit_phi[:,0], '-ob', mfc = 'none', label = 'left exit distribution')
                 plt.xlabel('t')
                 plt.legend()
                 plt.show()
@@ -237,7 +239,7 @@ class run:
                 # plt.show()
 
                 plt.figure(6)
-                plt.plot(self.eval_array, self.exit_phi[:,-1], '-ob', mfc = 'none', label = f'right exit distribution')
+                plt.plot(times, exit_phi[:,-1], '-ob', mfc = 'none', label = f'right exit distribution')
                 plt.legend()
                 plt.xlabel('t')
                 plt.show()
@@ -346,10 +348,10 @@ class run:
         f = lambda x1, x2, sigma: np.sqrt(np.pi/2)*sigma*(erf(x2/math.sqrt(2)/sigma) - erf(x1/math.sqrt(2)/sigma))
         fsol = lambda x, x0, mu: np.exp((f(-x0, x, 0.5)) / mu) 
         phi_sol = self.xs * 0 
-        for ix in range(self.xs.size):
+        for ix in range(len(self.xs)):
             for l in range(self.ws.size):
                 if self.mus[l] < 0:
-                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0, self.mus[l])
+                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0[0], self.mus[l])
             
 
 
@@ -397,8 +399,9 @@ class run:
 
 
 
+        exit_dist = self.exit_dist if self.exit_dist.ndim == 2 else self.exit_dist[-1]
         plt.figure(resultsfigns[0])
-        plt.plot(-self.mus, self.exit_dist[:,0], '--b', mfc = 'none', label = 'left exit distribution')
+        plt.plot(-self.mus, exit_dist[:,0], '--b', mfc = 'none', label = 'left exit distribution')
         # plt.plot(self.mus, self.exit_dist[:,-1], '-or', mfc = 'none', label = 'right exit distribution')
         plt.xlabel(r'$\mu$')
         plt.ylabel(r'$\phi$')
@@ -409,7 +412,7 @@ class run:
 
         plt.figure(resultsfigns[1])
         # plt.plot(self.mus, self.exit_dist[:,0], '-ob', mfc = 'none', label = 'left exit distribution')
-        plt.plot(self.mus, self.exit_dist[:,-1], '--r', mfc = 'none', label = 'right exit distribution')
+        plt.plot(self.mus, exit_dist[:,-1], '--r', mfc = 'none', label = 'right exit distribution')
         plt.xlabel(r'$\mu$')
         plt.ylabel(r'$\phi$')
         plt.legend()
@@ -520,7 +523,8 @@ class run:
         psi2 = np.zeros(50)
         mu1 = 1
         mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
-        sparse_xs = np.linspace(self.xs[-1,0], self.xs[-1,-1], 50)
+        xs = np.atleast_2d(self.xs)[-1]
+        sparse_xs = np.linspace(xs[0], xs[-1], 50)
 
         for ix, xx in enumerate(sparse_xs):
             psi1[ix] = self.fake_sedov(mu1, self.tfinal, xx)
@@ -550,7 +554,7 @@ class run:
         plt.show()
 
         print("#--- --- --- --- --- --- --- --- ---#")
-        phi_interp = interp.interp1d(self.xs[-1], self.phi)
+        phi_interp = interp.interp1d(xs, np.atleast_2d(self.phi))
         phi_eval = phi_interp(sparse_xs)
         print('RMSE', RMSE(phi_eval, phi))
         print()
-- 
2.43.0


From c1480e7697d990f44c2b57b758522992eaa31789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 21/29] fix: two-point Gauss-Lobatto rule had zero weights

---
 moving_mesh_transport/solver_classes/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index ab5066f..f22c847 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -643,6 +643,7 @@ def quadrature(n, name, testing = False):
         for nn in range(1, n-1):
             inn = nn + 1
             ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
+        if n > 1:
             ws[0] = 2/ (n*(n-1))
             ws[-1] = 2/ (n*(n-1))
         # if testing == True:
-- 
2.43.0


From 1db26abc76200a28c5133c48b87dbfddac46f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 22/29] fix: opacity moments above twice the solution order
 leaked into lower orders

---
 moving_mesh_transport/solver_classes/opacity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 05e9b3b..9abbbf5 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -99,7 +99,7 @@ class sigma_integrator():
         for i in range(self.M + 1):
             for j in range(self.M + 1):
                 for k in range(self.Msigma + 1):
-                    if (j + k >= i) and (self.both_even_or_odd(i, j, k)):
+                    if (j + k >= i) and (i + j >= k) and (self.both_even_or_odd(i, j, k)):
                         self.integrate_quad(-1, 1, i, j, k)
         # print(self.AAA)
     
-- 
2.43.0


From 947c8165ca8af9e2100eefc4a247d26932fdd1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 23/29] fix: uncollided Gaussian pulse was zero at time zero

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index ec00de0..469e26f 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -245,7 +245,10 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
+            if t == 0.0:
+                temp[ix] = math.exp(-xx**2/self.sigma**2)
+            else:
+                temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From fc719843b6bb39f839d5841f83de21afb16196ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 24/29] fix: S2 square source uncollided flux counted particles
 that had left the source region

---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index f22c847..590aee0 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -311,7 +311,7 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
             elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, max(t - (x+x0)*3/math.sqrt(3),0))
             else:
                 return 0
          
-- 
2.43.0


From e31cc86b9f07e691050d6e44b225161cdd825db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 25/29] fix: transport records held left-over bytes of deleted
 records as energy density

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 1848dfe..67b712b 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -263,7 +263,7 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         print(folder_name + '/solution/' + full_str)
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
-        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
+        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)), fillvalue = 0.0)
         
         if not f[folder_name].__contains__(full_str):
             f[folder_name].create_group(full_str)
-- 
2.43.0


From fb25e8c290cf4dd7d1f9ae78bf382c35026516b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 26/29] fix: square source runs in all modes raised after the
 solves

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 50ef663..2088351 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -115,12 +115,12 @@ class run:
         else:
             solver.main(uncollided, moving)
             self.get_results(solver)
-        if self.x0 == 2.5:
-            self.olson_henderson_bench(self.tfinal)
-            plt.figure(9)
-            plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
-            plt.legend()
-            plt.show()
+            if self.x0[0] == 2.5:
+                self.olson_henderson_bench(self.tfinal)
+                plt.figure(9)
+                plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
+                plt.legend()
+                plt.show()
      
         # plt.title("square source")
         # plt.legend()
-- 
2.43.0


From cc6b1eb2ccf60d9afaf6962480c0b8fdb2f83cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 27/29] fix: a write error while saving a wave table could go
 unnoticed

Rebinding the handle of the right table closed it in a destructor, where h5py drops the error
of writing its data.
---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 67b712b..a32a052 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -360,7 +360,7 @@ class save_output:
         dset1  = f[folder_name].create_dataset('tpnts_' + full_str, data = tpnts)
         dset2  = f[folder_name].create_dataset('left_' + full_str, data = leftpnts)
         dset3  = f[folder_name].create_dataset('right_' + full_str, data = rightpnts)
-        dset3  = f[folder_name].create_dataset('T_wave_' + full_str, data = T_wave_points)
+        dset4  = f[folder_name].create_dataset('T_wave_' + full_str, data = T_wave_points)
 
 
 
-- 
2.43.0


From ec2fcb30a30e2191b4b0573ceaa4b9199f9abd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 28/29] fix: a write error at the end of a save crashed the
 interpreter inside HDF5

Flushing first reports the error while the data sets are still valid.
---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index a32a052..cf6ea1e 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -306,6 +306,7 @@ class save_output:
         dset4  = f[folder_name].create_dataset('edges/' + full_str, data = edges) 
      
         
+        f.flush()
         f.close()        
      
 
@@ -364,6 +365,7 @@ class save_output:
 
 
 
+        f.flush()
         f.close()
    
         
-- 
2.43.0


From 5ba784610485c4be092d5a67a9f8902f4e90900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:30 +0000
Subject: [PATCH 29/29] fix: whole-number sizes and output times made records
 the reader could not find, and whole-number output points failed after the
 solve

---
 moving_mesh_transport/loading_and_saving/load_parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_parameters.py b/moving_mesh_transport/loading_and_saving/load_parameters.py
index 4b11f7b..d9d4016 100644
--- a/moving_mesh_transport/loading_and_saving/load_parameters.py
+++ b/moving_mesh_transport/loading_and_saving/load_parameters.py
@@ -84,7 +84,7 @@ class parameter_load_class:
                 self.x0[ix] = float(np.array(parameters[source_name]['x0'])[ix])
 
         else:
-            self.x0 = np.array(parameters[source_name]['x0'])
+            self.x0 = np.array(parameters[source_name]['x0'], dtype = float)
         self.move_type = np.array(parameters[source_name]['move_type'])
         self.benchmarking = int(parameters[source_name]['benchmarking'])
         self.r_times = np.zeros(len(self.N_angles))
@@ -115,12 +115,12 @@ class parameter_load_class:
         self.find_wave_loc = int(mesh_parameters['find_wave_loc'])
         self.estimate_wavespeed = int(mesh_parameters['estimate_wavespeed'])
         self.choose_xs = int(mesh_parameters['choose_xs'])
-        self.specified_xs = np.array(mesh_parameters['xs_list'])
+        self.specified_xs = np.array(mesh_parameters['xs_list'], dtype = float)
         self.pad = float(mesh_parameters['pad'])
         self.leader_pad = float(mesh_parameters['leader_pad'])
         self.xs_quad = int(mesh_parameters['xs_quad'])
         self.eval_times = int(mesh_parameters['eval_times'])
-        self.eval_array = np.array(mesh_parameters['eval_array'])
+        self.eval_array = np.array(mesh_parameters['eval_array'], dtype = float)
         self.boundary_on = np.array(mesh_parameters['boundary_on'])
         self.boundary_source = int(mesh_parameters['boundary_source'])
         self.boundary_source_strength = float(mesh_parameters['boundary_source_strength'])
-- 
2.43.0

