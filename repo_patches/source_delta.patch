From 025fce39666eb297bcf0b29d06510eca0335c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 01/45] fix: no boundary point switching constraint on the last
 FE of a control stage

---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..fc30747 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -505,7 +505,9 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        # NOTE: the last FE of a control stage has no boundary point multipliers.
+        if (not opts.right_boundary_point_explicit and opts.use_fesd and
+                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From f475f433c6c91f87a2fc5051f7811c9666c053f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 02/45] fix: cross complementarities include the boundary point
 multipliers

---
 nosnoc/problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index fc30747..81267f6 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -522,7 +522,7 @@ class FiniteElement(FiniteElementBase):
                 theta = self.Theta(stage=j)
                 lam = self.prev_fe.Lambda(stage=-1)
                 comp_vec = ca.vertcat(comp_vec, theta*lam)
-                for jj in range(opts.n_s):
+                for jj in range(len(self.ind_lam)):
                     lam = self.Lambda(stage=jj)
                     comp_vec = ca.vertcat(comp_vec, theta*lam)
         else:
@@ -554,8 +554,8 @@ class FiniteElement(FiniteElementBase):
                 # cross comp with prev_fe
                 self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                             sigma_p, tau, s_elastic)
-                for jj in range(opts.n_s):
-                    # within fe
+                for jj in range(len(self.ind_lam)):
+                    # within fe, including the boundary point if there is one
                     self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                 sigma_p, tau, s_elastic)
         elif opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
-- 
2.43.0


From 8264e5d13bb342ce0bec38d8cae273ddf04a23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 03/45] fix: impose the terminal time also for a single control
 stage with free grid

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 81267f6..13b2a63 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -836,7 +836,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From f36502c13ea1952b9da305be3eeed3b1884cbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 04/45] fix: create the global speed of time variable

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 13b2a63..3123cf9 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -650,7 +650,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 840a5f34c9d69b88763a2ba526bf5d8673f7a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 05/45] fix: report the time of a switch instead of a step size

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..a1d3fa5 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -534,6 +534,6 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From cbc600dbcd6083c5e54a8be037b6d9f55329a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 06/45] fix: set theta for models with several subsystems

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a1d3fa5..c206d42 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -89,7 +89,7 @@ class NosnocSolverBase(ABC):
                 for sub_idx in prob.ind_theta:
                     for ssub_idx in sub_idx:
                         for sssub_idx in ssub_idx:
-                            prob.w0[sssub_idx] = value[i, :]
+                            prob.w0[flatten(sssub_idx)] = value[i, :]
                         i += 1
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
-- 
2.43.0


From 217c142d40e992cbd7fadaacbeb63d487932077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 07/45] fix: report the objective value with its sign

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index c206d42..f233f98 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -256,7 +256,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -406,7 +406,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
 
             # process iterate
             w_opt = sol['x'].full().flatten()
-- 
2.43.0


From eef5128eca3030104f66c783a770238756cccc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 08/45] fix: quadrature weights of the integral representation
 sum up to one

---
 nosnoc/rk_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..b2da14d 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1080,9 +1080,15 @@ def generate_butcher_tableu_integral(n_s: int, irk_scheme: IrkSchemes):
         for r in range(n_s + 1):
             C[j, r] = np.polyval(pder, tau_root[r])
 
-        # Evaluate the integral of the polynomial to get the coefficients of the quadrature function
-        pint = np.polyint(coeff)
-        B[j] = np.polyval(pint, 1.0)
+    # Evaluate the integrals of the polynomials through the collocation points (without t=0),
+    # to get the coefficients of the quadrature function
+    for j in range(1, n_s + 1):
+        coeff = np.ones(1)
+        for r in range(1, n_s + 1):
+            if not r == j:
+                coeff = np.convolve(coeff, [1, -tau_root[r]])
+                coeff = coeff / (tau_root[j] - tau_root[r])
+        B[j] = np.polyval(np.polyint(coeff), 1.0)
     return B, C, D, tau_root
 
 
-- 
2.43.0


From 4f4f99f71ec9a25d0a36fd12795e2c3171a58fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 09/45] fix: SimLooper stops on failure

---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..65c5608 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if stop_on_failure and results["status"] == Status.INFEASIBLE:
                 return False
 
         return True
-- 
2.43.0


From eb3f39b0044398ffc64844d1d6ce631d0118e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 10/45] fix: reject inequalities with least squares constraint
 handling

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 3123cf9..25f228e 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -855,7 +855,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From e51e9b52caa5017919b8802e10b6c9c1014da159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 11/45] fix: dump least squares problems

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 25f228e..8ef05e4 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -905,7 +905,7 @@ class NosnocProblem(NosnocFormulationObject):
             data = {
                 key: self.__dict__[key] for key in self.__dict__
                 if key not in [
-                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0"
+                    "w", "p", "cost", "g", "g_lsq", "model", "ocp", "stages", "fe0"
                 ]
             }
             data["f"] = ca.Function("f", [self.w, self.p], [self.cost])
-- 
2.43.0


From 31313db9754cb5a904e09bfa4b8414a5ea4ce39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 12/45] fix: impose control stage complementarities for every
 number of finite elements

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 8ef05e4..a847160 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -540,7 +540,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From 977e23e93d12c9bcb94d4ccda67b251f1e736820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 13/45] fix: unavailable Gauss-Legendre tableaus raise
 NotImplementedError

---
 nosnoc/rk_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index b2da14d..3ddd26e 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1047,6 +1047,9 @@ def generate_butcher_tableu(n_s, irk_scheme):
                 0.984080119753813,
             ])
 
+        else:
+            raise NotImplementedError()
+
     else:
         raise NotImplementedError()
     return A, b, c, order
-- 
2.43.0


From 6d191fac50e99d1a0add9898c60183d56753b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 14/45] fix: a model can be reused with another number of
 control stages

---
 nosnoc/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..d24e95f 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -187,14 +187,15 @@ class NosnocModel:
                             f"p_global {self.p_global}, p_global_val {self.p_global_val}")
 
         n_p_time_var = casadi_length(self.p_time_var)
-        if self.p_time_var_val is None:
-            self.p_time_var_val = np.zeros((opts.N_stages, n_p_time_var))
-        if not self.p_time_var_val.shape == (opts.N_stages, n_p_time_var):
+        p_time_var_val = self.p_time_var_val
+        if p_time_var_val is None:
+            p_time_var_val = np.zeros((opts.N_stages, n_p_time_var))
+        if not p_time_var_val.shape == (opts.N_stages, n_p_time_var):
             raise Exception(
                 "dimension of p_time_var_val and p_time_var mismatch.",
                 f"Expected shape: ({opts.N_stages}, {n_p_time_var}), "
-                f"got p_time_var_val.shape {self.p_time_var_val.shape}"
-                f"p_time_var {self.p_time_var}, p_time_var_val {self.p_time_var_val}")
+                f"got p_time_var_val.shape {p_time_var_val.shape}"
+                f"p_time_var {self.p_time_var}, p_time_var_val {p_time_var_val}")
 
         # extend parameters for each stage
         n_p = n_p_time_var + n_p_glob
@@ -203,7 +204,7 @@ class NosnocModel:
 
         self.p_val_ctrl_stages = np.zeros((opts.N_stages, n_p))
         for i in range(opts.N_stages):
-            self.p_val_ctrl_stages[i, :n_p_time_var] = self.p_time_var_val[i, :]
+            self.p_val_ctrl_stages[i, :n_p_time_var] = p_time_var_val[i, :]
             self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val
 
         # initial guess z0
-- 
2.43.0


From 37175464303eae794a88f73f70b1cd9766019983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 15/45] fix: NLP solver options are not shared between options
 objects

---
 nosnoc/nosnoc_opts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..e645c1f 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Union, Optional
 from dataclasses import dataclass, field
 
@@ -124,6 +125,10 @@ class NosnocOpts:
         doc="Maximum amount of iterations for the subsolver."
     )
 
+    def __post_init__(self):
+        # every options object owns its NLP solver options
+        self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)
+
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
-- 
2.43.0


From 9f3a535d46a9a4819be4c66cdd9b08293c8bf859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:40 +0000
Subject: [PATCH 16/45] fix: order of the initial multipliers for step mode
 with several subsystems

---
 nosnoc/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index d24e95f..fef89cd 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -258,6 +258,7 @@ class NosnocModel:
         g_switching = ca.SX.zeros((0, 1))
         g_convex = ca.SX.zeros((0, 1))  # equation for the convex multiplers 1 = e' \theta
         lambda00_expr = ca.SX.zeros(0, 0)
+        lambda00_p_expr = ca.SX.zeros(0, 0)
         std_compl_res = ca.SX.zeros(1)  # residual of standard complementarity
 
         # Note: this is the order of z used by FiniteElement
@@ -297,8 +298,10 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
+                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0))
+                lambda00_p_expr = ca.vertcat(lambda00_p_expr, ca.fmax(self.c[ii], 0))
+            # Note: this is the order of Lambda used by FiniteElementZero
+            lambda00_expr = ca.vertcat(lambda00_expr, lambda00_p_expr)
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From e0d227f581e2e7e14db58785a62a8a6d17b962ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 17/45] fix: nonnegative multipliers for the two sided elastic
 and boolean mode

---
 nosnoc/problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index a847160..b97839a 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -281,10 +281,11 @@ class FiniteElement(FiniteElementBase):
         else:
             self.h = h0
 
-        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ]:
-            lb_dual = 0.0
-        else:
+        if opts.mpcc_mode in [MpccMode.FISCHER_BURMEISTER, MpccMode.FISCHER_BURMEISTER_IP_AUG]:
+            # nonnegativity is implied by the C-functions
             lb_dual = -np.inf
+        else:
+            lb_dual = 0.0
 
         # RK stage stuff
         for ii in range(opts.n_s):
-- 
2.43.0


From 0e4a07aafde307758621709a4b61c3ecbc3583e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 18/45] fix: results for subsystems with different numbers of
 regions

---
 nosnoc/solver.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index f233f98..7b21ed1 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -484,8 +484,17 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    if len(set(prob.model.dims.n_f_sys)) <= 1:
+        results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
+        results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    else:
+        # subsystems of different size
+        results["theta_list"] = [
+            w_opt[flatten_layer(ind)] for ind in get_cont_algebraic_indices(prob.ind_theta)
+        ]
+        results["lambda_list"] = [
+            w_opt[flatten_layer(ind)] for ind in get_cont_algebraic_indices(prob.ind_lam)
+        ]
     # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
-- 
2.43.0


From c4c68af01f8ab1e4b1a727b4e49eb99fbfde38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 19/45] fix: step mode for subsystems with different numbers of
 regions

---
 nosnoc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index fef89cd..3ff6468 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -251,7 +251,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -289,7 +289,7 @@ class NosnocModel:
         elif opts.pss_mode == PssMode.STEP:
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From a1b9211e87267bad40921e0282688f54b6b229bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 20/45] fix: g_path_at_stg covers the last stage of every
 finite element

---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index b97839a..fedfb88 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -500,7 +500,9 @@ class FiniteElement(FiniteElementBase):
             self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         if opts.g_path_at_stg:
-            end_allowance = 1 if opts.right_boundary_point_explicit else 0
+            # the last stage might be covered already by the end of the FE
+            end_allowance = 1 if (opts.right_boundary_point_explicit and
+                (self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe)) else 0
             for j in range(opts.n_s - end_allowance):
                 gqj = ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global)
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
-- 
2.43.0


From 5575229d3275815b56f4eff86485845cfc875565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 21/45] fix: polishing step does not fix mu to zero nor lambda
 to one and handles all variables

---
 nosnoc/solver.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 7b21ed1..396da74 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -209,10 +209,11 @@ class NosnocSolverBase(ABC):
 
         eps_sigma = 1e1 * opts.comp_tol
 
-        ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
-                          prob.ind_theta + prob.ind_mu)
+        ind_lambda = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p)
+        ind_set = ind_lambda + flatten(prob.ind_alpha + prob.ind_theta)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_mu +
+                               prob.ind_sot + prob.ind_bool)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
@@ -224,7 +225,7 @@ class NosnocSolverBase(ABC):
         ind_fix_zero = np.where(w_fix_zero)[0].tolist()
 
         w_fix_one = np.abs(w_guess - 1.0) < eps_sigma
-        w_fix_one[ind_dont_set] = False
+        w_fix_one[ind_dont_set + ind_lambda] = False
         ind_fix_one = np.where(w_fix_one)[0].tolist()
 
         lbw = prob.lbw.copy()
@@ -240,9 +241,6 @@ class NosnocSolverBase(ABC):
                 f"polishing step: setting {len(ind_fix_zero)} variables to 0.0, {len(ind_fix_one)} to 1.0."
             )
         for i_ctrl in range(opts.N_stages):
-            for i_fe in range(opts.Nfe_list[i_ctrl]):
-                w_guess[prob.ind_theta[i_ctrl][i_fe][:]]
-
             sigma_k, tau_val = 0.0, 0.0
             self.setup_p_val(sigma_k, tau_val)
 
-- 
2.43.0


From 86ed4cc2d71069a030e5208caee957773d94a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 22/45] fix: polishing step with elastic modes keeps the
 objective finite

---
 nosnoc/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 396da74..490b5ff 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -242,6 +242,9 @@ class NosnocSolverBase(ABC):
             )
         for i_ctrl in range(opts.N_stages):
             sigma_k, tau_val = 0.0, 0.0
+            if prob.ind_elastic:
+                # sigma is the weight of the objective, not a relaxation
+                sigma_k = opts.sigma_N
             self.setup_p_val(sigma_k, tau_val)
 
             # solve NLP
-- 
2.43.0


From f436212d4a6a8c956f3a146bcd90498e20ee74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 23/45] fix: report the objective value of the polished
 solution

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 490b5ff..eb38304 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -267,7 +267,7 @@ class NosnocSolverBase(ABC):
             if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
                 print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -433,7 +433,7 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
 
         # collect results
-- 
2.43.0


From 4b9fb7b7a577a0b6745d4ee14ba1ea8a24b07f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 24/45] fix: create_function_calculate_vector_field evaluates
 the smoothed vector field

---
 nosnoc/model.py  | 2 ++
 nosnoc/solver.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 3ff6468..5f062f7 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -330,6 +330,8 @@ class NosnocModel:
             mu00_stewart = casadi_vertcat_list([ca.mmin(g_Stewart_list[ii]) for ii in range(n_sys)])
             self.mu00_stewart_fun = ca.Function('mu00_stewart_fun', [self.x, self.z, self.p], [mu00_stewart])
             self.g_Stewart_fun = ca.Function('g_Stewart_fun', [self.x, self.z, self.p], [g_Stewart])
+            self.F_fun = ca.Function('F_fun', [self.x, self.u, self.p, self.v_global],
+                                     [ca.horzcat(*self.F)])
 
     def create_stage_vars(self, opts: NosnocOpts):
         """
diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index eb38304..2c2f97e 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -282,7 +282,7 @@ class NosnocSolverBase(ABC):
         theta_fun = ca.rootfinder("lambda_fun", "newton", dict(
             x=ca.vertcat(theta, mu), p=g,
             g=ca.vertcat(
-                ca.sqrt(lam * lam - theta*theta + sigma*sigma) - (lam + theta),
+                ca.sqrt(lam * lam + theta*theta + sigma*sigma) - (lam + theta),
                 ca.sum1(theta)-1
             )
         ))
@@ -290,7 +290,7 @@ class NosnocSolverBase(ABC):
             g  = self.model.g_Stewart_fun(x, z, p)
             theta = theta_fun(0, g)[:-1]
             F = self.model.F_fun(x, u, p, v)
-            return np.dot(F, theta)
+            return (F @ theta).full()
 
         return fun
 
-- 
2.43.0


From 03f8461e1655e147a9250678cbdc72a98080445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 25/45] fix: derived options follow changes of an options
 object that was used before

---
 nosnoc/nosnoc_opts.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index e645c1f..2d2054d 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -128,6 +128,8 @@ class NosnocOpts:
     def __post_init__(self):
         # every options object owns its NLP solver options
         self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)
+        # values of options that were not set by the user, but derived from others in preprocess()
+        self._derived = dict()
 
     def __repr__(self) -> str:
         out = ''
@@ -138,8 +140,15 @@ class NosnocOpts:
     def preprocess(self):
         # IPOPT tol should be smaller than outer tol, but not too much
         # Note IPOPT option list: https://coin-or.github.io/Ipopt/OPTIONS.html
+        # derive values anew that were derived in an earlier call, e.g. with another N_finite_elements
+        for key, (value, unset) in self._derived.items():
+            if getattr(self, key) == value:
+                setattr(self, key, unset)
+        self._derived = dict()
+
         if self.tol_ipopt is None:
             self.tol_ipopt = self.comp_tol * 1e-2
+            self._derived['tol_ipopt'] = (self.tol_ipopt, None)
 
         validate(self)
         # self.opts_casadi_nlp['ipopt']['print_level'] = self.print_level
@@ -151,9 +160,11 @@ class NosnocOpts:
 
         if self.max_iter_homotopy == 0:
             self.max_iter_homotopy = int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1
+            self._derived['max_iter_homotopy'] = (self.max_iter_homotopy, 0)
 
         if len(self.Nfe_list) == 0:
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
+            self._derived['Nfe_list'] = (list(self.Nfe_list), [])
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From f6e814ace8e9f1cd9b4b12e30a493443a3d611ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 26/45] fix: set w does not alias the array of the caller

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 2c2f97e..4dbc521 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -94,7 +94,7 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = value
+            prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0


From 550b04b057c6e550ac4830e9873748bb54bac95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 27/45] fix: RK4 initialization evaluates the smoothed
 trajectory at the stage times

---
 nosnoc/solver.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 4dbc521..641aa72 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -7,7 +7,7 @@ import time
 
 from nosnoc.model import NosnocModel
 from nosnoc.nosnoc_opts import NosnocOpts
-from nosnoc.nosnoc_types import InitializationStrategy, PssMode, HomotopyUpdateRule, ConstraintHandling, Status, SpeedOfTimeVariableMode
+from nosnoc.nosnoc_types import InitializationStrategy, PssMode, HomotopyUpdateRule, ConstraintHandling, IrkRepresentation, Status, SpeedOfTimeVariableMode
 from nosnoc.ocp import NosnocOcp
 from nosnoc.problem import NosnocProblem
 from nosnoc.rk_utils import rk4_on_timegrid
@@ -126,9 +126,8 @@ class NosnocSolverBase(ABC):
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
             dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
-            irk_time_grid = np.array(
-                [opts.irk_time_points[0]] +
-                [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
+            # NOTE: irk_time_points starts with 0 in case of the integral representation
+            irk_time_grid = np.diff([0.0] + list(opts.irk_time_points[-opts.n_s:]))
             rk4_t_grid = dt_fe * irk_time_grid
 
             x_rk4_current = x0
@@ -141,7 +140,8 @@ class NosnocSolverBase(ABC):
                 # print(f"{Xrk4=}")
                 for k in range(opts.n_s):
                     x_ki = Xrk4[k + 1]
-                    prob.w0[prob.ind_x[0][i][k]] = x_ki
+                    if opts.irk_representation != IrkRepresentation.DIFFERENTIAL:
+                        prob.w0[prob.ind_x[0][i][k]] = x_ki
                     # NOTE: we don't use lambda_smooth_fun, since it gives negative lambdas
                     # -> infeasible. Possibly another smooth min fun could be used.
                     # However, this would be inconsistent with mu.
@@ -162,7 +162,7 @@ class NosnocSolverBase(ABC):
                         prob.w0[prob.ind_mu[0][i][k][s]] = mu_ki[s].full().flatten()
                         # TODO: ind_v
                     db_updated_indices += prob.ind_theta[0][i][k][s] + prob.ind_lam[0][i][k][
-                        s] + prob.ind_mu[0][i][k][s] + prob.ind_x[0][i][k] + prob.ind_h
+                        s] + prob.ind_mu[0][i][k][s] + prob.ind_h
                 if opts.irk_time_points[-1] != 1.0:
                     raise NotImplementedError
                 else:
-- 
2.43.0


From dbcc74bc72a238d624266428e87688d3d21f4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 28/45] fix: RK4 initialization respects the number of finite
 elements of the control stage

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 641aa72..ad89896 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -125,14 +125,14 @@ class NosnocSolverBase(ABC):
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            dt_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[0])
             # NOTE: irk_time_points starts with 0 in case of the integral representation
             irk_time_grid = np.diff([0.0] + list(opts.irk_time_points[-opts.n_s:]))
             rk4_t_grid = dt_fe * irk_time_grid
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.N_finite_elements):
+            for i in range(opts.Nfe_list[0]):
                 Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
-- 
2.43.0


From 891bcb2ffc0e93abd87a885ee23cf0c2e9d60a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 29/45] fix: auto model uses the Filippov form only if all
 nonsmooth components are additive

---
 nosnoc/auto_model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..f0d954e 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,9 +55,9 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
-        if self._detect_additive():
+        if not self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
@@ -125,10 +125,9 @@ class NosnocAutoModel:
         for f_nonsmooth in fs_nonsmooth:
             nonlin_components = self._find_nonlinear_components(f_nonsmooth)
             for component in nonlin_components:
-                additive = self._check_additive(component)
-                if additive:
-                    return True
-        return False
+                if not self._check_smooth(component) and not self._check_additive(component):
+                    return False
+        return True
 
     # TODO type output
     def _rebuild_additive_component(self, node: ca.SX):
-- 
2.43.0


From 48ec40fb73655cb2c02426bf30887531b498e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 30/45] fix: auto model handles min, rows without smooth part
 and repeated switching functions

---
 nosnoc/auto_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index f0d954e..8de4e15 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -80,7 +80,7 @@ class NosnocAutoModel:
             nsm.append(nonsmooth_components)
             sm.append(smooth_components)
         # each smooth component is part of the common dynamics this is added to the first element
-        f_common = casadi_vertcat_list([casadi_sum_list(f) for f in sm])
+        f_common = casadi_vertcat_list([casadi_sum_list([ca.SX(0)] + f) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
         collated_components = []
@@ -102,14 +102,14 @@ class NosnocAutoModel:
                 comps = collated[c_str]
                 f_ij = [ca.SX(0), ca.SX(0)]
                 for f, c, S in comps:
-                    cS_map[c] = S
+                    cS_map[c_str] = (c, S)
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
                 f_i[c_str] = ca.horzcat(*f_ij)
             fs.append(f_i)
 
-        for c, S in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c.str()] for f_i in fs]))
+        for c_str, (c, S) in cS_map.items():
+            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))
             self.c.append(c)
             self.S.append(S)
         self.F[0][:, 0] += f_common
@@ -146,7 +146,7 @@ class NosnocAutoModel:
             if node.is_op(ca.OP_FMAX):
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
-                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[-1], [1]]), node.dep(0)-node.dep(1), np.array([[-1], [1]])
+                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
-- 
2.43.0


From 74d150f219ddfdf8728ebed476a9f525d4f53530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 31/45] fix: auto model passes the parameters on and can be
 reformulated repeatedly

---
 nosnoc/auto_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 8de4e15..8705988 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -3,7 +3,7 @@ import numpy as np
 from itertools import product
 from collections import defaultdict
 from typing import List, Optional
-from nosnoc.utils import casadi_vertcat_list, casadi_sum_list
+from nosnoc.utils import casadi_length, casadi_vertcat_list, casadi_sum_list
 from nosnoc.model import NosnocModel
 
 
@@ -55,12 +55,16 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        self.c, self.S, self.F, self.f, self.alpha = [], [], [], [], []
+        p_kwargs = dict()
+        if self.p is not None:
+            p_kwargs = dict(p_global=self.p, p_global_val=np.zeros(casadi_length(self.p)))
         if not self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, **p_kwargs)
         else:
             self._reformulate_linear()
-            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, **p_kwargs)
 
     def _reformulate_linear(self):
         # TODO actually implement linear reformulation
-- 
2.43.0


From e21d534ac937678a94388bc917c182540e79d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 32/45] fix: vector field function of the model supports
 dynamics with user algebraic variables

---
 nosnoc/model.py  | 2 +-
 nosnoc/solver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 5f062f7..91eb941 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -330,7 +330,7 @@ class NosnocModel:
             mu00_stewart = casadi_vertcat_list([ca.mmin(g_Stewart_list[ii]) for ii in range(n_sys)])
             self.mu00_stewart_fun = ca.Function('mu00_stewart_fun', [self.x, self.z, self.p], [mu00_stewart])
             self.g_Stewart_fun = ca.Function('g_Stewart_fun', [self.x, self.z, self.p], [g_Stewart])
-            self.F_fun = ca.Function('F_fun', [self.x, self.u, self.p, self.v_global],
+            self.F_fun = ca.Function('F_fun', [self.x, self.z, self.u, self.p, self.v_global],
                                      [ca.horzcat(*self.F)])
 
     def create_stage_vars(self, opts: NosnocOpts):
diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index ad89896..6705157 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -289,7 +289,7 @@ class NosnocSolverBase(ABC):
         def fun(x, u, z=[0]):
             g  = self.model.g_Stewart_fun(x, z, p)
             theta = theta_fun(0, g)[:-1]
-            F = self.model.F_fun(x, u, p, v)
+            F = self.model.F_fun(x, z, u, p, v)
             return (F @ theta).full()
 
         return fun
-- 
2.43.0


From 9756efa9f6b3aad0b975bd4a8fac8f4d6f346b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 33/45] fix: default number of homotopy iterations reaches the
 complementarity tolerance

---
 nosnoc/nosnoc_opts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 2d2054d..e0c3545 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -159,7 +159,9 @@ class NosnocOpts:
             # TODO: Extend checks
 
         if self.max_iter_homotopy == 0:
-            self.max_iter_homotopy = int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1
+            n_updates = np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope))
+            # NOTE: as many updates as needed to reach comp_tol, do not count numerical noise as an additional one
+            self.max_iter_homotopy = int(np.ceil(np.round(n_updates, 6))) + 1
             self._derived['max_iter_homotopy'] = (self.max_iter_homotopy, 0)
 
         if len(self.Nfe_list) == 0:
-- 
2.43.0


From d49f3e2aaf7f2d056e3868625f95984fba00ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 34/45] fix: values of inconsistent size are refused by set
 before anything is changed

---
 nosnoc/solver.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 6705157..008cf73 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -48,8 +48,12 @@ class NosnocSolverBase(ABC):
         prob = self.problem
         dims = prob.model.dims
         if field == 'x0':
+            if np.asarray(value).size != dims.n_x:
+                raise ValueError(f"x0 should be of length n_x ({dims.n_x}), got {value}")
             prob.model.x0 = value
-        elif field == 'x':  # TODO: check other dimensions for useful error message
+        elif field == 'x':
+            if value.shape[1:] != (dims.n_x,):
+                raise ValueError(f"value should have n_x ({dims.n_x}) columns, shape: {value.shape}")
             if value.shape[0] == self.opts.N_stages:
                 # Shape is equal to the number of control stages
                 for i, sub_idx in enumerate(prob.ind_x):
@@ -78,13 +82,19 @@ class NosnocSolverBase(ABC):
         elif field == 'v_global':
             prob.w0[np.array(prob.ind_v_global)] = value
         elif field == 'p_global':
+            if np.asarray(value).size != dims.n_p_glob:
+                raise ValueError(f"p_global should be of length {dims.n_p_glob}, got {value}")
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value
         elif field == 'p_time_var':
+            if value.shape != (self.opts.N_stages, dims.n_p_time_var):
+                raise ValueError("p_time_var should have shape (N_stages, n_p_time_var) "
+                                 f"({self.opts.N_stages}, {dims.n_p_time_var}), got {value.shape}")
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = value[i, :]
         elif field == 'theta':
-            if value.shape[0] == sum(self.opts.Nfe_list):
+            n_theta = len(flatten(prob.ind_theta[0][0][0]))
+            if value.shape == (sum(self.opts.Nfe_list), n_theta):
                 i = 0
                 for sub_idx in prob.ind_theta:
                     for ssub_idx in sub_idx:
@@ -94,6 +104,8 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
+            if np.asarray(value).shape != prob.w0.shape:
+                raise ValueError(f"w should have shape {prob.w0.shape}, got {np.asarray(value).shape}")
             prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
-- 
2.43.0


From 2f0cfa12296f81c71d5e98fa391bb40e9ae6c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 35/45] fix: models and element lists of inconsistent
 dimensions are refused

---
 nosnoc/model.py       | 12 ++++++++++++
 nosnoc/nosnoc_opts.py |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 91eb941..4f7fc6f 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -136,6 +136,8 @@ class NosnocModel:
             self.ubz = np.inf * np.ones((n_z,))
         elif len(self.ubz) != n_z:
             raise ValueError("ubz should be empty or of length n_z.")
+        if casadi_length(self.g_z) != n_z:
+            raise ValueError("g_z and z should have the same length.")
 
         if self.g_Stewart:
             n_c_sys = [0]  # No c used!
@@ -148,6 +150,8 @@ class NosnocModel:
             if not isinstance(self.F, list):
                 raise ValueError("model.F should be a list.")
             for i, f in enumerate(self.F):
+                if f.shape[0] != n_x:
+                    raise ValueError(f"model.F item {i} should have n_x ({n_x}) rows.")
                 if f.shape[1] == 1:
                     raise Warning(f"model.F item {i} is not a switching system!")
 
@@ -156,6 +160,8 @@ class NosnocModel:
                     raise ValueError("model.g_Stewart is used and pss_mode should be STEWART")
                 if not isinstance(self.g_Stewart, list):
                     raise ValueError("model.g_Stewart should be a list.")
+                if len(self.g_Stewart) != n_sys:
+                    raise ValueError("model.g_Stewart and model.F should have the same length!")
                 for i, g_Stewart in enumerate(self.g_Stewart):
                     if g_Stewart.shape[0] != self.F[i].shape[1]:
                         raise ValueError(f"Dimensions g_Stewart and F for item {i} should be equal!")
@@ -166,10 +172,14 @@ class NosnocModel:
                     raise ValueError("model.S should be a list.")
                 if len(self.c) != len(self.S):
                     raise ValueError("model.c and model.S should have the same length!")
+                if len(self.c) != n_sys:
+                    raise ValueError("model.c and model.F should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if Si.shape[1] != n_c_sys[i]:
+                        raise ValueError(f"model.S item {i} should have one column per entry of c {i}")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
@@ -178,6 +188,8 @@ class NosnocModel:
                 raise ValueError("model.c should be a list.")
             if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):
                 raise ValueError("model.c and model.alpha should have the same length!")
+            if casadi_length(casadi_vertcat_list(self.f_x)) != n_x:
+                raise ValueError(f"model.f_x should have n_x ({n_x}) rows in total.")
 
         # parameters
         n_p_glob = casadi_length(self.p_global)
diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index e0c3545..38bb35b 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -167,6 +167,8 @@ class NosnocOpts:
         if len(self.Nfe_list) == 0:
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
             self._derived['Nfe_list'] = (list(self.Nfe_list), [])
+        if len(self.Nfe_list) != self.N_stages:
+            raise ValueError(f"Nfe_list should have N_stages ({self.N_stages}) entries, got {self.Nfe_list}")
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From 3f205ff7fc3052de5650e55189fce748dc036efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 36/45] fix: calculated vector field of several subsystems is
 the sum of their convex combinations

---
 nosnoc/solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 008cf73..c48c5bc 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -288,19 +288,22 @@ class NosnocSolverBase(ABC):
 
         shape = self.model.g_Stewart_fun.size_out(0)
         g = ca.SX.sym('g', shape[0])
-        mu = ca.SX.sym('mu', 1)
+        dims = self.model.dims
+        # maps each subsystem to its regions
+        E = ca.DM(np.repeat(np.eye(dims.n_sys), dims.n_f_sys, axis=0))
+        mu = ca.SX.sym('mu', dims.n_sys)
         theta = ca.SX.sym('theta', shape[0])
-        lam = g - mu * np.ones(shape)
+        lam = g - E @ mu
         theta_fun = ca.rootfinder("lambda_fun", "newton", dict(
             x=ca.vertcat(theta, mu), p=g,
             g=ca.vertcat(
                 ca.sqrt(lam * lam + theta*theta + sigma*sigma) - (lam + theta),
-                ca.sum1(theta)-1
+                E.T @ theta - 1
             )
         ))
         def fun(x, u, z=[0]):
             g  = self.model.g_Stewart_fun(x, z, p)
-            theta = theta_fun(0, g)[:-1]
+            theta = theta_fun(0, g)[:shape[0]]
             F = self.model.F_fun(x, z, u, p, v)
             return (F @ theta).full()
 
-- 
2.43.0


From 578920a99ff08ba3e3a03b7e8c9b8e8d826ebaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:54 +0000
Subject: [PATCH 37/45] fix: keep NLP solver tolerances that are set
 individually

---
 nosnoc/nosnoc_opts.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 38bb35b..bf225da 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -130,6 +130,7 @@ class NosnocOpts:
         self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)
         # values of options that were not set by the user, but derived from others in preprocess()
         self._derived = dict()
+        self._derived_ipopt = dict()
 
     def __repr__(self) -> str:
         out = ''
@@ -145,10 +146,18 @@ class NosnocOpts:
             if getattr(self, key) == value:
                 setattr(self, key, unset)
         self._derived = dict()
-
-        if self.tol_ipopt is None:
-            self.tol_ipopt = self.comp_tol * 1e-2
-            self._derived['tol_ipopt'] = (self.tol_ipopt, None)
+        ipopt_opts = self.opts_casadi_nlp['ipopt']
+        for key, value in self._derived_ipopt.items():
+            if ipopt_opts.get(key) == value:
+                ipopt_opts[key] = None
+        self._derived_ipopt = dict()
+
+        # NOTE: keep the tolerances that were set individually
+        tol = self.comp_tol * 1e-2
+        for key in ['tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target']:
+            if ipopt_opts.get(key) is None:
+                ipopt_opts[key] = tol
+                self._derived_ipopt[key] = tol
 
         validate(self)
         # self.opts_casadi_nlp['ipopt']['print_level'] = self.print_level
-- 
2.43.0


From 31613bd7ff6b5f861e127287a5f1dbceef6625bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:29 +0000
Subject: [PATCH 38/45] fix: plot_iterates failed with the current format of
 the results

---
 nosnoc/plot_utils.py | 14 ++++----------
 nosnoc/solver.py     |  4 +++-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/nosnoc/plot_utils.py b/nosnoc/plot_utils.py
index 19f4edd..c31c55b 100644
--- a/nosnoc/plot_utils.py
+++ b/nosnoc/plot_utils.py
@@ -4,7 +4,6 @@ import matplotlib.pyplot as plt
 import matplotlib
 
 from nosnoc import NosnocProblem, get_results_from_primal_vector
-from .utils import flatten_layer
 from .nosnoc_types import PssMode
 
 
@@ -82,14 +81,9 @@ def plot_iterates(problem: NosnocProblem,
         results = get_results_from_primal_vector(problem, iterate)
 
         # flatten sys layer
-        lambdas = flatten_layer(results['lambda_list'], 2)
-        thetas = flatten_layer(results['theta_list'], 2)
-        mus = flatten_layer(results['mu_list'], 2)
-
-        # flatten fe layer
-        lambdas = flatten_layer(lambdas, 0)
-        thetas = flatten_layer(thetas, 0)
-        mus = flatten_layer(mus, 0)
+        lambdas = [val.flatten() for val in results['lambda_list']]
+        thetas = [val.flatten() for val in results['theta_list']]
+        mus = [val.flatten() for val in results['mu_list']]
 
         n_lam = len(lambdas[0])
         n_mu = len(mus[0])
@@ -108,7 +102,7 @@ def plot_iterates(problem: NosnocProblem,
         # TODO: make this step plot?
         plt.subplot(n_row, n_iterates, n_iterates * 1 + it + 1)
         for i in range(n_lam):
-            plt.plot([x[i] for x in thetas], label=r'$\\theta_' + f'{i+1}$')
+            plt.plot([x[i] for x in thetas], label=r'$\theta_' + f'{i+1}$')
         plt.grid(alpha=0.3)
         plt.legend()
 
diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index c48c5bc..bef06f1 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -511,7 +511,9 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
         results["lambda_list"] = [
             w_opt[flatten_layer(ind)] for ind in get_cont_algebraic_indices(prob.ind_lam)
         ]
-    # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
+    results["mu_list"] = [
+        w_opt[flatten_layer(ind)] for ind in get_cont_algebraic_indices(prob.ind_mu)
+    ]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
         w_opt[flatten_layer(ind)] for ind in get_cont_algebraic_indices(prob.ind_alpha)
-- 
2.43.0


From 56d797963bfa71b6659eddedab151c264180b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:07 +0000
Subject: [PATCH 39/45] fix: report initial guesses above their upper bound

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index fedfb88..0c7e221 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -880,7 +880,7 @@ class NosnocProblem(NosnocFormulationObject):
             if self.lbw[i] > self.ubw[i]:
                 extra_info = " BOUND ERROR!"
                 errors += 1
-            elif self.w0[i] < self.lbw[i] or self.ubw[i] > self.ubw[i]:
+            elif self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:
                 extra_info = " W0 ERROR!"
                 errors += 1
 
-- 
2.43.0


From 74d2ee27e08b97dcc1e075bd9ec5182cdfe16e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 40/45] fix: order of the switching functions of automatic
 models depended on the hash seed

---
 nosnoc/auto_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 8705988..07b1371 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -95,7 +95,8 @@ class NosnocAutoModel:
                 collated[c.str()].append((f, c, S))
             collated_components.append(collated)
 
-        all_c = set().union(*[component.keys() for component in collated_components])
+        # unique switching functions in order of appearance
+        all_c = list(dict.fromkeys(c_str for collated in collated_components for c_str in collated))
 
         # Build the set of switching function and S pairs, along with the stacked vector of c -> f maps
         cS_map = {}
-- 
2.43.0


From 92e30dc559489563a11f6973ab9028a3bd2e227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 41/45] fix: plot_colored_line_3d changed the default colormap
 of all other figures

---
 nosnoc/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/plot_utils.py b/nosnoc/plot_utils.py
index c31c55b..5deaf30 100644
--- a/nosnoc/plot_utils.py
+++ b/nosnoc/plot_utils.py
@@ -202,7 +202,7 @@ def plot_colored_line_3d(x, y, z, t, ax=None, label="Trajectory", label_4d="Time
 
     _plot_color_hack_3d(ax, x, y, z, t)
     im = ax.scatter(x, y, z, c=t,
-                    label=label, cmap=plt.hot())
+                    label=label, cmap="hot")
 
     if label_4d is not None:
         im.set_label(label_4d)
-- 
2.43.0


From 634a5ab5c85b8a620d9bd7127dded001e95bcf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:18 +0000
Subject: [PATCH 42/45] fix: the solver shared its initial state with the
 caller's arrays and with returned results

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index bef06f1..dd2c1f0 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -50,7 +50,7 @@ class NosnocSolverBase(ABC):
         if field == 'x0':
             if np.asarray(value).size != dims.n_x:
                 raise ValueError(f"x0 should be of length n_x ({dims.n_x}), got {value}")
-            prob.model.x0 = value
+            prob.model.x0 = np.array(value)
         elif field == 'x':
             if value.shape[1:] != (dims.n_x,):
                 raise ValueError(f"value should have n_x ({dims.n_x}) columns, shape: {value.shape}")
@@ -493,7 +493,7 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     # TODO: improve naming here?
     results["x_list"] = [w_opt[ind] for ind in flatten_layer(prob.ind_x_cont)]
 
-    x0 = prob.model.x0
+    x0 = np.array(prob.model.x0)
     ind_x_all = flatten_outer_layers(prob.ind_x, 2)
     results["x_all_list"] = [x0] + [w_opt[np.array(ind)] for ind in ind_x_all]
     results["u_list"] = [w_opt[ind] for ind in prob.ind_u]
-- 
2.43.0


From af97474640181fbe3534808726c602ebc75b03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:23 +0000
Subject: [PATCH 43/45] fix: constraints with structural zeros are handed to
 the NLP solver densely

---
 nosnoc/problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 0c7e221..a54ea54 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -73,6 +73,7 @@ class NosnocFormulationObject(ABC):
         n = casadi_length(symbolic)
         if n == 0:
             return
+        symbolic = ca.densify(symbolic)
         if lb is None:
             lb = np.zeros((n,))
         if ub is None:
-- 
2.43.0


From d655ad42b22fe0d74deea7b4c6f43e3779001505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:01 +0000
Subject: [PATCH 44/45] fix: an objective that is structurally zero is handed
 to the NLP solver densely

---
 nosnoc/problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index a54ea54..11e1e59 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -848,6 +848,7 @@ class NosnocProblem(NosnocFormulationObject):
         self._collect_finite_elements()
 
         # CasADi Functions
+        self.cost = ca.densify(self.cost)
         self.cost_fun = ca.Function('cost_fun', [self.w, self.p], [self.cost])
         self.comp_res = ca.Function('comp_res', [self.w, self.p], [J_comp])
         self.g_fun = ca.Function('g_fun', [self.w, self.p], [self.g])
-- 
2.43.0


From 3dcdefed2566fb42a3b155b121d7cbca717030e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:42 +0000
Subject: [PATCH 45/45] fix: set converts values before it stores anything,
 refused values leave no trace

---
 nosnoc/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index dd2c1f0..9dd87a2 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -47,6 +47,8 @@ class NosnocSolverBase(ABC):
         """
         prob = self.problem
         dims = prob.model.dims
+        # convert before anything is stored, such that a refused value leaves no trace
+        value = np.array(value, dtype=float)
         if field == 'x0':
             if np.asarray(value).size != dims.n_x:
                 raise ValueError(f"x0 should be of length n_x ({dims.n_x}), got {value}")
-- 
2.43.0

