From 6e9a6ef1f83fe55f1f27f89e9841108fcf64c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 01/28] fix: composite quadrature keeps the start weight of
 every segment

The weight of the first node of each segment after the first was dropped, so
running costs were not integrated correctly for LGL and CGL with more than one
segment and for degree one. Add both weights at the shared node and scale them
with the widths of their own segments.
---
 mpopt/mpopt.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..f785bbc 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -98,6 +98,7 @@ class mpopt:
         self.collocation = Collocation(self.poly_orders, scheme)
         self._compD = self.collocation.get_composite_differentiation_matrix()
         self._compW = self.collocation.get_composite_quadrature_weights()
+        self._segW = self.collocation.get_quad_weight_matrices()
         self._taus = self.collocation.roots
         self.tau0, self.tau1 = self.collocation.tau0, self.collocation.tau1
         self._collocation_approximation_computed = True
@@ -202,8 +203,19 @@ class mpopt:
             # discretize path_constraints
             if has_constraints:
                 c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T
-            # running cost
-            q[index] = h_seg * ca.vertcat(running_costs(x, u, t, a)).T
+            # running cost (the length scale at a node shared by two segments is the
+            # mean of the two, weighted with the quadrature weights of both segments)
+            h_quad = h_seg
+            if point == self.poly_orders[seg] and seg + 1 < self.n_segments:
+                w_end = self._segW[self.poly_orders[seg]][-1]
+                w_start = self._segW[self.poly_orders[seg + 1]][0]
+                h_next = (
+                    (tf - t0)
+                    / (self.tau1 - self.tau0)
+                    * self.seg_widths[seg + 1, phase]
+                )
+                h_quad = (w_end * h_seg + w_start * h_next) / (w_end + w_start)
+            q[index] = h_quad * ca.vertcat(running_costs(x, u, t, a)).T
 
             point += 1
             self.time_grid[phase][index] = t
@@ -4057,9 +4069,12 @@ class Collocation:
             tau1 = self.tau1
 
         quad_mats = self.get_quad_weight_matrices(poly_orders, tau0=tau0, tau1=tau1)
-        comp_quad_weights = ca.vertcat(
-            *([quad_mats[poly_orders[0]][0]] + [quad_mats[p][1:] for p in poly_orders])
-        ).T
+        comp_quad_weights = ca.DM.zeros(1, sum(poly_orders) + 1)
+        start = 0
+        for p in poly_orders:
+            # Weights of both segments add up at the node shared by them
+            comp_quad_weights[start : start + p + 1] += quad_mats[p].T
+            start += p
 
         return comp_quad_weights
 
-- 
2.43.0


From ec07bf710c4326aa1ec4df18852daf6c64fc6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 02/28] fix: default guess keeps controls apart and finite for
 a zero time span

The control guess lacked the transposition the state guess has, so several
controls were interleaved; and equal guessed start and end times gave NaN.
---
 mpopt/mpopt.py | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index f785bbc..09d0fc2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -677,12 +677,8 @@ class mpopt:
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
@@ -690,14 +686,10 @@ class mpopt:
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
@@ -3016,12 +3008,8 @@ class mpopt_adaptive(mpopt):
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
@@ -3029,14 +3017,10 @@ class mpopt_adaptive(mpopt):
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
-- 
2.43.0


From a18ac28446675d5bde9447924acd6d606bdfce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 03/28] fix: retrieved parameters keep one value per parameter

The column of parameters was divided by a row of scaling factors, giving a
square matrix for two or more parameters.
---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 09d0fc2..0f754a0 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1665,6 +1665,8 @@ class post_process:
             scale_x = self.options["scale_x"] if "scale_x" in self.options else 1.0
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
+            # Parameters are in a column vector
+            scale_a = np.reshape(scale_a, (-1, 1))
 
             return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
 
-- 
2.43.0


From 7737ccdb46e75a3a8b9a4a76ff5a984514807621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 04/28] fix: fixed residual grid drops the end of the phase
 only

With several segments the last point of the first segment was dropped and the
end point of the phase kept; and rounding in the sum of the widths could lose
the end point.
---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 0f754a0..3c6fdfa 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1184,7 +1184,8 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
+            # End node of the phase is not part of the grid
+            taus_on_original_grid[-1] = taus_on_original_grid[-1][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
@@ -1220,6 +1221,7 @@ class mpopt:
         """
         cumulative_sw = np.append(0, np.cumsum(seg_widths))
         assert abs(cumulative_sw[-1] - 1) < 1e-6
+        cumulative_sw[-1] = 1.0  # The last segment ends where the phase ends
         n_segments = len(seg_widths)
 
         # Scale nodes_req between 0 & 1
-- 
2.43.0


From 3da88766a38c3a84951fd244ddb98688947c94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 05/28] fix: dynamics residuals use the grid type of each phase

The grid type of the first phase was used for all the phases.
---
 mpopt/mpopt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3c6fdfa..0cb4a91 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1392,8 +1392,7 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
+                # Type of the grid defaults to that of each phase
                 target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
             else:
                 target_nodes = nodes[phase]
-- 
2.43.0


From 1e1354fceeb0163e5437c2559b56433a6b9a92cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 06/28] fix: post processing keeps the state residuals on their
 own

Requesting state residuals without dynamics residuals discarded them.
---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 0cb4a91..d329b19 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -925,7 +925,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
@@ -3314,7 +3314,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From 973bd2ffa26e52c868ccb7730bd52e326dd0f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 07/28] fix: control rate limits apply to the rate in time of
 the unscaled control

The limits were applied to the derivative of the scaled control with respect
to the normalized time of each segment.
---
 mpopt/mpopt.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d329b19..d9ac857 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -325,12 +325,20 @@ class mpopt:
         """
         # Estimate constraint vector and bounds for the collocated constraint on slope of control input
         if self._ocp.diff_u[phase]:
-            _compDU = (
-                ca.kron(ca.DM.eye(self._ocp.nu), self._compD)
-                if self._ocp.nu > 1
-                else self._compD
+            # Time per unit of normalized time (tau) in the segment of each node
+            dt = ca.vertcat(
+                *[
+                    self.seg_widths[seg, phase]
+                    for seg, deg in enumerate(self.poly_orders)
+                    for _ in range(deg + (seg == 0))
+                ]
+            ) * (
+                (self.tf[phase] - self.t0[phase])
+                / self._ocp.scale_t
+                / (self.tau1 - self.tau0)
             )
-            DU = ca.mtimes(_compDU, self.U[phase][:])
+            DU = ca.mtimes(self._compD, ca.mtimes(self.U[phase], self.__invScU))
+            DU = (DU / ca.repmat(dt, 1, self._ocp.nu))[:]
             nDu = DU.size1()
             DUmin = [self._ocp.lbdu[phase]] * (nDu)
             DUmax = [self._ocp.ubdu[phase]] * (nDu)
-- 
2.43.0


From 15bbe6d9ed853651769ce3747fd137febe09499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 08/28] fix: control slope continuity holds for unequal segment
 widths

Slopes with respect to the normalized time of segments of different width were
equated.
---
 mpopt/mpopt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d9ac857..6721613 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -420,12 +420,11 @@ class mpopt:
         comp_interpolation_D = self.collocation.get_composite_interpolation_Dmatrix_at(
             taus_end, self.poly_orders, order=1
         )
-        _compD = comp_interpolation_D[1:-1][::2] - comp_interpolation_D[2:-1][::2]
-
-        _compDU = (
-            ca.kron(ca.DM.eye(self._ocp.nu), _compD) if self._ocp.nu > 1 else _compD
-        )
-        dU = ca.mtimes(_compDU, self.U[phase][:])
+        dU_end = ca.mtimes(comp_interpolation_D[1:-1][::2], self.U[phase])
+        dU_start = ca.mtimes(comp_interpolation_D[2:-1][::2], self.U[phase])
+        # Slopes w.r.t time, relative to the width of the segment that ends
+        ratio = self.seg_widths[:-1, phase] / self.seg_widths[1:, phase]
+        dU = (dU_end - dU_start * ca.repmat(ratio, 1, self._ocp.nu))[:]
         nDu = dU.size1()
         dUmin = [0] * (nDu)
         dUmax = [0] * (nDu)
-- 
2.43.0


From 8a65b2d60939c57a03840382e4cb4eac487cc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 09/28] fix: adaptive solve leaves the option dictionaries of
 the caller alone

The options passed by the caller (and the shared defaults) were modified, and
an IPOPT option was passed to other solvers, which reject it. create_solver
sets the default print level already.
---
 mpopt/mpopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 6721613..4d0f218 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2380,13 +2380,13 @@ class mpopt_h_adaptive(mpopt):
 
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
-            if "ipopt.print_level" not in nlp_solver_options:
-                nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
         if mpopt_options == {}:
-            mpopt_options["method"] = self._DEFAULT_METHOD
-            mpopt_options["sub_method"] = self._DEFAULT_SUB_METHOD
+            mpopt_options = {
+                "method": self._DEFAULT_METHOD,
+                "sub_method": self._DEFAULT_SUB_METHOD,
+            }
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
-- 
2.43.0


From 3cd732419c7218534d539b31a8dbef2ec7ea774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 10/28] fix: control slope refinement selects the steepest
 slopes

Times were sorted by increasing slope and one more than the number of interior
boundaries was taken, so the boundaries were put at the lowest slopes above the
threshold.
---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4d0f218..4eeb99d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2842,7 +2842,7 @@ class mpopt_h_adaptive(mpopt):
         # du_grid = np.interp(t_grid, t_orig, du_max)
 
         t_du = [i for i in zip(t_orig[1:-1], du_max[1:-1]) if i[1] >= threshold]
-        t_du.sort(key=lambda t: t[1])
+        t_du.sort(key=lambda t: t[1], reverse=True)
         if len(t_du) > 0:
             times = np.array(t_du)[:, 0]
         else:
@@ -2858,7 +2858,7 @@ class mpopt_h_adaptive(mpopt):
         n_points_available = len(times)
         segment_widths = [None] * n_segments
         if n_points_available > (n_segments - 2):
-            times = times[:n_segments]
+            times = times[: n_segments - 1]
             times.sort()
             segment_widths[0] = times[0] - t0
             for i in range(1, n_segments - 1):
-- 
2.43.0


From d014ccd69e153d6000569ed0859bca28e0d3b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 11/28] fix: equal area refinement ends the last segment at the
 phase end

When the residuals vanish before the last point the widths added up to less
than one, which the next residual evaluation rejects.
---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4eeb99d..66a6e78 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2663,6 +2663,8 @@ class mpopt_h_adaptive(mpopt):
                 + ((i + 1) / n_segments - cumulative_area[ind_j - 1])
                 / (cumulative_area[ind_j] - cumulative_area[ind_j - 1])
             ) / (n_points - 1)
+        # Total area may be reached before the last point
+        seg_widths_cumulative[-1] = 1.0
 
         seg_widths_cumulative = np.append(0, seg_widths_cumulative)
         seg_widths = [
-- 
2.43.0


From 107a403deb29bc5513b97efe3efe0a21adb5ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 12/28] fix: relative residuals are defined for vanishing
 states and large defects

A state whose integral is zero in the whole phase gave 0/0, which hid the
residuals of all other states from the maximum; and the relative dynamics
residual stopped with an assertion when the defect exceeds the dynamics.
---
 mpopt/mpopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 66a6e78..9315b35 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1148,6 +1148,7 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                max_val[max_val == 0] = 1.0  # Absolute residual for a zero state
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
@@ -1425,10 +1426,10 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                max_val[max_val == 0] = 1.0  # Absolute residual for zero dynamics
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-                        assert abs(residuals[phase][seg]).max() <= 1
 
         if plot:
             fig, axs = post_process.plot_residuals(
-- 
2.43.0


From 272e4fec0c367896e2be3f33059c8e05e1b14351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 13/28] fix: quadrature weights of an empty interval are zero

The integrator stops with an error, so state residuals could not be evaluated
when a residual point falls on the start of a segment.
---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9315b35..fb78654 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3873,6 +3873,9 @@ class Collocation:
 
         n = len(self.roots[key])
         quad_weights = ca.DM.zeros(n)
+        if abs(tau1 - tau0) < 1e-12:
+            # Nothing to integrate, integrator fails on an empty interval
+            return quad_weights
         for i in range(n):
             if self.D_MATRIX_METHOD == "symbolic":
                 pint = ca.integrator(
-- 
2.43.0


From 9c144b2b0ed84646c7ad755428e0afb22c3c19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 14/28] fix: degree and width refinement runs and refines until
 every phase is solved

solve_ph stopped with an UnboundLocalError, ignored the refined widths, stopped
when any one of the phases was solved, used the mesh of the last phase for all
of them and failed for segments without residual points.
---
 mpopt/mpopt.py | 51 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fb78654..9ec1652 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4426,7 +4426,11 @@ class mpopt_ph_adaptive(mpopt):
         max_r_phases = [None] * len(residual)
         for i_phase, r_phase in enumerate(residual):
             max_r_phase = [None] * len(r_phase)
+            n_states = max([np.shape(r)[1] for r in r_phase if r is not None])
             for i_seg, r_seg in enumerate(r_phase):
+                if r_seg is None:
+                    # No residual evaluated in this segment
+                    r_seg = np.zeros((1, n_states))
                 r_max_seg = abs(np.array(r_seg)).max(axis=0)
                 i_max_seg = abs(np.array(r_seg)).argmax(axis=0)
                 max_r_phase[i_seg] = [i_max_seg, r_max_seg]
@@ -4451,8 +4455,7 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
+        solve_dict = dict(solve_dict)  # Leave the options of the caller alone
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
@@ -4460,15 +4463,20 @@ class mpopt_ph_adaptive(mpopt):
             if iter_no > 0:
                 # Update Mesh for the next iteration
                 self._nlp_sw_params = np.hstack(nlp_sw_params)
-                solve_dict["nlp_sw_params"] = self._nlp_sw_params
-                self.poly_orders = np.hstack(poly_orders)
-                self.n_segments = self._nlp_sw_params.shape[0]
+                solve_dict["mpopt_options"] = {
+                    **solve_dict.get("mpopt_options", {}),
+                    "nlp_sw_params": self._nlp_sw_params,
+                }
+                self.poly_orders = poly_orders
+                self.n_segments = len(poly_orders)
 
             # ************************** Sparse solution ********************
             # Step 1 : Solve the problem on initial mesh (Sparse for reference)
 
             self.reset_mpopt()
             solution = self.solve(reinitialize_nlp=True, **solve_dict)
+            # Initial solution does not fit the refined meshes
+            solve_dict.pop("initial_solution", None)
             # Mesh points in time in each segment of a given phase
             # taus = np.array([self.collocation._taus_fn(deg) for deg in self.poly_orders])
             # taus = [taus for phase in range(self._ocp.n_phases)]
@@ -4492,12 +4500,14 @@ class mpopt_ph_adaptive(mpopt):
                 status = max_seg_residual > self.max_residual
                 if status.any():
                     # This phase needs refinement, increase the order of the polynomial by 3 for next iteration
+                    # (Mesh is common to all the phases)
                     poly_orders = [
-                        self.poly_orders[i] + 3 * int(st) for i, st in enumerate(status)
+                        self.poly_orders[i] + 3 if st else poly_orders[i]
+                        for i, st in enumerate(status)
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution
 
             # Compute reduction in mesh size
@@ -4562,14 +4572,14 @@ class mpopt_ph_adaptive(mpopt):
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution_new
 
             abs_max_residual = 0
             # Find non-smooth segments where residual is more than the required tolerence
+            # (Mesh is common to all the phases: split where any of them needs it)
+            n_splits = [1] * self.n_segments
             for i_phase, max_r_phase in enumerate(max_residual_new):
-                poly_orders = []
-                nlp_sw_params = []
                 max_seg_residual = np.array(max_r_phase)[:, 1].max(axis=1)
                 if max_seg_residual.max() > abs_max_residual:
                     abs_max_residual = max_seg_residual.max()
@@ -4582,11 +4592,7 @@ class mpopt_ph_adaptive(mpopt):
                         ).any()
                     ):
                         # Split i_seg in additional segments based on desired residual
-                        new_segments = 2
-                        nlp_sw_params.append(
-                            [self._nlp_sw_params[i_seg] / new_segments] * new_segments
-                        )
-                        poly_orders.append([self.poly_orders[i_seg]] * new_segments)
+                        n_splits[i_seg] = 2
 
                         # max_residual_seg = residual_r[phase][seg].max()
                         # max_residual_seg_sparse = residual_rs[phase][seg].max()
@@ -4602,10 +4608,15 @@ class mpopt_ph_adaptive(mpopt):
                         # )
                         # n_splits = min(np.ceil(1 / seg_width_new), n_splits_max)
                         # seg_refine_phase[phase][seg] = n_splits
-                    else:
-                        # The solution is smooth and the residual is higher than the required tolerance.
-                        # Increase the order of polynomial
-                        poly_orders.append(self.poly_orders[i_seg])
-                        nlp_sw_params.append(self._nlp_sw_params[i_seg])
+                    # Otherwise, the solution is smooth and the order of the
+                    # polynomial is increased in the next iteration, if required
+
+            poly_orders, nlp_sw_params = [], []
+            for i_seg, new_segments in enumerate(n_splits):
+                poly_orders.extend([self.poly_orders[i_seg]] * new_segments)
+            for i_phase in range(self._ocp.n_phases):
+                for i_seg, new_segments in enumerate(n_splits):
+                    width = self._nlp_sw_params[i_phase * self.n_segments + i_seg]
+                    nlp_sw_params.append([width / new_segments] * new_segments)
 
         return solution_new
-- 
2.43.0


From 021e2964c6112dd72d331f4e54bfbd24bec1cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 15/28] fix: plots of residuals of several phases with
 different meshes

Time grids of phases (or segments without points) of different shapes could not
be joined; and plot_phases did not set the default phase.
---
 mpopt/mpopt.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9ec1652..ad3238b 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1913,7 +1913,7 @@ class post_process:
             if "phases_to_plot" in self.options:
                 phases = self.options["phases_to_plot"][0]
             else:
-                phase = [0]
+                phases = [0]
 
         if residuals:
             if self.residuals is not None:
@@ -1941,7 +1941,14 @@ class post_process:
                         if r_seg is not None
                     ]
 
-                    x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
+                    x_data = np.concatenate(
+                        [
+                            t_seg
+                            for t_p in self.residuals["t_x"][0]
+                            for t_seg in t_p
+                            if t_seg is not None
+                        ]
+                    )
                     y_data = np.concatenate(y_data)
 
                     ax2 = plt.subplot(2, 2, 2)
@@ -1956,7 +1963,14 @@ class post_process:
                         if r_seg is not None
                     ]
 
-                    x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
+                    x_data = np.concatenate(
+                        [
+                            t_seg
+                            for t_p in self.residuals["t_dx"][0]
+                            for t_seg in t_p
+                            if t_seg is not None
+                        ]
+                    )
                     y_data = np.concatenate(y_data)
 
                     self.plot_curve(
@@ -1974,7 +1988,14 @@ class post_process:
                             if r_seg is not None
                         ]
 
-                        x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
+                        x_data = np.concatenate(
+                            [
+                                t_seg
+                                for t_p in self.residuals["t_x"][0]
+                                for t_seg in t_p
+                                if t_seg is not None
+                            ]
+                        )
                         y_data = np.concatenate(y_data)
 
                         self.plot_curve(
@@ -1988,7 +2009,14 @@ class post_process:
                             for r_p in self.residuals["t_dx"][1]
                         ]
 
-                        x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
+                        x_data = np.concatenate(
+                            [
+                                t_seg
+                                for t_p in self.residuals["t_dx"][0]
+                                for t_seg in t_p
+                                if t_seg is not None
+                            ]
+                        )
                         y_data = np.concatenate(y_data)
 
                         self.plot_curve(
-- 
2.43.0


From 6fdbab4e471097ca3c2ac16fd0843bd0b46ea5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 16/28] fix: residual plots join the phases of a multi-phase
 problem

Residuals of all the phases were joined but not their times, unless the number
of points was the same in every segment.
---
 mpopt/mpopt.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index ad3238b..590cfe0 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2258,16 +2258,11 @@ class post_process:
                 for err in residual
             ]
         )
-        t, r = time[0], norm_residual(residuals[0])
-        if len(phases) > 1:
-            for phase in phases[1:]:
-                tp, rp = time[phase], norm_residual(residuals[phase])
-                r = np.vstack((r, rp))
-                t = np.vstack((t, tp))
-
-            r = np.concatenate(r)
-
-        t = np.concatenate(t)
+        phases = np.hstack(list(phases))  # Phase indices or groups of them
+        r = np.concatenate([norm_residual(residuals[phase]) for phase in phases])
+        t = np.concatenate(
+            [t_seg for phase in phases for t_seg in time[phase] if t_seg is not None]
+        )
         r = r.reshape(t.shape[0], 1)
         return (r, t)
 
-- 
2.43.0


From 0021d71b3d59dcc63744bcefd6f6fde5f567fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 17/28] fix: mid-point and slope constraints with a single row
 per phase or segment

---
 mpopt/mpopt.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 590cfe0..a298ef0 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -383,7 +383,7 @@ class mpopt:
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            mU.append(ui[:])
+            mU.append(ca.vec(ui))
             n_mid = ui.size1()
             mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             mUmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -424,7 +424,7 @@ class mpopt:
         dU_start = ca.mtimes(comp_interpolation_D[2:-1][::2], self.U[phase])
         # Slopes w.r.t time, relative to the width of the segment that ends
         ratio = self.seg_widths[:-1, phase] / self.seg_widths[1:, phase]
-        dU = (dU_end - dU_start * ca.repmat(ratio, 1, self._ocp.nu))[:]
+        dU = ca.vec(dU_end - dU_start * ca.repmat(ratio, 1, self._ocp.nu))
         nDu = dU.size1()
         dUmin = [0] * (nDu)
         dUmax = [0] * (nDu)
@@ -3099,7 +3099,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            sw.append(ui[:])
+            sw.append(ca.vec(ui))
             n_mid = ui.size1()
             swmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             swmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3108,7 +3108,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbx[phase] > -np.inf).any() or (
             self._ocp.ubx[phase] < np.inf
         ).any():
-            sw.append(xi[:])
+            sw.append(ca.vec(xi))
             n_mid = xi.size1()
             swmin.append(np.repeat(self._ocp.lbx[phase] * self._ocp.scale_x, n_mid))
             swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))
@@ -3148,9 +3148,8 @@ class mpopt_adaptive(mpopt):
                 start, end = sum(n_taus[:seg]), sum(n_taus[: (seg + 1)])
                 if start == end:
                     continue
-                residual_phase[seg] = (
-                    self.seg_widths[seg, phase]
-                    * (Dxi[start:end, :] - ca.vertcat(*f))[:]
+                residual_phase[seg] = self.seg_widths[seg, phase] * ca.vec(
+                    Dxi[start:end, :] - ca.vertcat(*f)
                 )
 
             residuals = ca.vertcat(*residual_phase)
-- 
2.43.0


From f064e30def7ca368b2b7581f11c6b9d3909c9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 18/28] fix: validation checks the sizes of guesses before
 evaluating functions with them

---
 mpopt/mpopt.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a298ef0..42ea4dd 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3666,29 +3666,6 @@ class OCP:
         assert len(self.path_constraints) == self.n_phases
         assert len(self.terminal_constraints) == self.n_phases
 
-        for phase in range(self.n_phases):
-            x, u, t, a = (
-                self.x00[phase],
-                self.u00[phase],
-                self.t00[phase],
-                self.a0[phase],
-            )
-            dynamics = self.get_dynamics(phase)
-            terminal_costs = self.get_terminal_costs(phase)
-            running_costs = self.get_running_costs(phase)
-            path_constraints = self.get_path_constraints(phase)
-            terminal_constraints = self.get_terminal_constraints(phase)
-            assert len(dynamics(x, u, t, a)) == self.nx
-            assert terminal_costs(x, t, x, t, a) is not None
-            assert running_costs(x, u, t, a) is not None
-            pc = path_constraints(x, u, t, a)
-            tc = terminal_constraints(x, t, x, t, a)
-
-            if pc is not None:
-                assert len(pc) > 0
-            if tc is not None:
-                assert len(tc) > 0
-
         assert len(self.scale_x) == self.nx
         assert len(self.scale_u) == self.nu
         assert len(self.scale_a) == self.na
@@ -3719,6 +3696,29 @@ class OCP:
             assert self.lbe.shape[1] == self.nx
             assert self.ube.shape[1] == self.nx
 
+        for phase in range(self.n_phases):
+            x, u, t, a = (
+                self.x00[phase],
+                self.u00[phase],
+                self.t00[phase],
+                self.a0[phase],
+            )
+            dynamics = self.get_dynamics(phase)
+            terminal_costs = self.get_terminal_costs(phase)
+            running_costs = self.get_running_costs(phase)
+            path_constraints = self.get_path_constraints(phase)
+            terminal_constraints = self.get_terminal_constraints(phase)
+            assert len(dynamics(x, u, t, a)) == self.nx
+            assert terminal_costs(x, t, x, t, a) is not None
+            assert running_costs(x, u, t, a) is not None
+            pc = path_constraints(x, u, t, a)
+            tc = terminal_constraints(x, t, x, t, a)
+
+            if pc is not None:
+                assert len(pc) > 0
+            if tc is not None:
+                assert len(tc) > 0
+
         # Check if lower bound is less than upper bound
         for phase in range(self.n_phases):
             for i in range(self.nx):
-- 
2.43.0


From 723f03aecf3cd66135558b63c61217face93e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 19/28] fix: h-adaptive solve accepts starting values given as
 x0 or not given at all

---
 mpopt/mpopt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 42ea4dd..be0edae 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2414,8 +2414,13 @@ class mpopt_h_adaptive(mpopt):
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
+        if initial_solution is not None and "x" not in initial_solution:
+            # Starting values may be given with key x0, or not at all
+            if "x0" in initial_solution:
+                initial_solution = {**initial_solution, "x": initial_solution["x0"]}
+        has_x = initial_solution is not None and "x" in initial_solution
         new_nlp_sw_params, max_error = self.get_segment_width_parameters(
-            initial_solution, options=mpopt_options
+            initial_solution if has_x else None, options=mpopt_options
         )
         solved = False
         if max_error is not None:
@@ -2501,7 +2506,8 @@ class mpopt_h_adaptive(mpopt):
         print(f"H-Adaptive Iter., max_residual : {self.iter_count}, {max_error}")
 
         if not self._MUTE_:
-            print(" Optimal cost (J): ", solution["f"], "\n")
+            if "f" in solution:
+                print(" Optimal cost (J): ", solution["f"], "\n")
             print(f" Solved in {round((end_time - start_time)*1e3, 3)} ms\n")
             # print(f"\n *********** H-adaptive End ********** \n")
 
-- 
2.43.0


From 130af593d6b99f3509fa103e1941f0833a2bd7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 20/28] fix: h-adaptive refinement drops widths kept from a
 mesh with another number of segments

---
 mpopt/mpopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index be0edae..4c4906b 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2541,7 +2541,8 @@ class mpopt_h_adaptive(mpopt):
             # Warning, Solution not found, returning default segment widths
             return default_widths, max_error
 
-        if not hasattr(self, "_nlp_sw_params"):
+        # Widths kept from an earlier mesh are of no use after the number of segments changed
+        if len(getattr(self, "_nlp_sw_params", [])) != len(default_widths):
             self._nlp_sw_params = default_widths
 
         if "method" in options:
-- 
2.43.0


From fc59c12532dcf215e2c18160ce02eaf1ce48e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 21/28] fix: plot_phase returns the figure and axes as
 documented

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4c4906b..e791a82 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1886,6 +1886,8 @@ class post_process:
         """
         fig, axs = self.plot_phases([phase], interpolate, fig=fig, axs=axs)
 
+        return fig, axs
+
     def plot_phases(
         self,
         phases: List = None,
-- 
2.43.0


From 43baf4db914c1d52c9c3d6c87a731a8f029dddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 22/28] fix: plots of a single group of components label its
 curves

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index e791a82..758dd76 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2177,7 +2177,7 @@ class post_process:
                 fig, axs = plt.subplots(1, n)
         for i in range(n):
             ax = axs if n == 1 else axs[i]
-            dim = dims if n == 1 else dims[i]
+            dim = dims[i] if isinstance(dims[0], list) else dims
             self.plot_curve(
                 ax,
                 var_data[:, dim],
-- 
2.43.0


From 7072aba13fc6276762735fcdf73e6cf29dc755e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 23/28] fix: plots of controls at the nodes keep their labels

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 758dd76..69d55f9 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2125,7 +2125,7 @@ class post_process:
             u,
             t,
             dims,
-            name=None,
+            name=None if interpolate else name,
             ylabel=ylabel,
             axis=axis,
             fig=fig,
-- 
2.43.0


From 13e6f7c4044c889e6aeaf32a6dc4024e1eb58d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 24/28] fix: second derivatives of one phase use the requested
 grid type

---
 mpopt/mpopt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 69d55f9..92a050c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1323,9 +1323,7 @@ class mpopt:
         if nodes is None:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
-            target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
-            )
+            target_nodes = self.get_residual_grid_taus(phase=phase, grid_type=grid_type)
         else:
             target_nodes = nodes
         ti = self.get_interpolated_time_grid(
-- 
2.43.0


From 73b6984cdbda487991d2bb482883e7f7b6646616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 25/28] fix: relative second derivatives keep their sign and
 stay finite

---
 mpopt/mpopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 92a050c..996ede5 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1363,8 +1363,9 @@ class mpopt:
             ddx_phase[seg] = R
             ddu_phase[seg] = U
             if residual_type == "relative":
-                ddx_phase[seg] = ddx_phase[seg] / (ddx_phase[seg].max())
-                ddu_phase[seg] = ddu_phase[seg] / (ddu_phase[seg].max())
+                # Relative to the largest magnitude, absolute for zero curvature
+                ddx_phase[seg] = ddx_phase[seg] / (abs(ddx_phase[seg]).max() or 1.0)
+                ddu_phase[seg] = ddu_phase[seg] / (abs(ddu_phase[seg]).max() or 1.0)
             ti_phase[seg] = np.array(t)
 
         return ti_phase, ddx_phase, ddu_phase
-- 
2.43.0


From 215be0de3125cf10bd6783dc2b68cec1a8c308a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 26/28] fix: state residuals of some phases can be plotted

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 996ede5..5ed5278 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1156,7 +1156,7 @@ class mpopt:
 
         if plot:
             fig, axs = post_process.plot_residuals(
-                ti, residuals, phases=range(self._ocp.n_phases), fig=fig, axs=axs
+                ti, residuals, phases=phases, fig=fig, axs=axs
             )
 
         return x_int, u_int, ti, residuals
-- 
2.43.0


From ba44922215c695eea58773abb34a6aa419e4dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 27/28] fix: plots of second derivatives on grids that leave
 out a segment

---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 5ed5278..b99c002 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2255,7 +2255,9 @@ class post_process:
         """Sort the given data corresponding to plases"""
         norm_residual = lambda residual: np.concatenate(
             [
-                np.linalg.norm(np.array(err), 2, axis=1) if err is not None else []
+                np.linalg.norm(np.array(err).reshape(len(err), -1), 2, axis=1)
+                if err is not None
+                else []
                 for err in residual
             ]
         )
-- 
2.43.0


From 341476f2b0921fe8ddc5aa24a90546ce0c0def06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:33 +0000
Subject: [PATCH 28/28] fix: control rate limits set for a single phase are not
 truncated to integers

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index b99c002..4c41810 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3518,8 +3518,8 @@ class OCP:
 
         # Slope has_constraints
         self.diff_u = np.array([0] * self.n_phases)
-        self.lbdu = np.array([-15 for _ in range(self.n_phases)])
-        self.ubdu = np.array([15 for _ in range(self.n_phases)])
+        self.lbdu = np.array([-15.0 for _ in range(self.n_phases)])
+        self.ubdu = np.array([15.0 for _ in range(self.n_phases)])
 
         # Constrains on control input at mid point of collocation nodes
         # Enabled by default
-- 
2.43.0

