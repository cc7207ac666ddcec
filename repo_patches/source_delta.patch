From 1929e8c2b0cc78c582fdafdb245819de2e362711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:29 +0000
Subject: [PATCH 01/30] fix: do not jit the backup rollout of implicit ASIF by
 default

ImplicitASIFModule.compose() documents pred_state and integrate as not jit
compiled by default, but compiled both. The rollout steps the external ODE
solver, which converts to numpy and cannot be traced, so every implicit ASIF
module raised TracerArrayConversionError on its first filter_control call.
---
 run_time_assurance/rta/asif.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d5b6ee6..3e76123 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -517,14 +517,12 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         else:
             self._generate_ineq_constraint_mats_fn = self._generate_ineq_constraint_mats
 
-        default_int = True
-
-        if self.jit_enable and self.jit_compile_dict.get('pred_state', default_int):
+        if self.jit_enable and self.jit_compile_dict.get('pred_state', False):
             self._pred_state_fn = jit(self._pred_state, static_argnames=['step_size'])
         else:
             self._pred_state_fn = self._pred_state
 
-        if self.jit_enable and self.jit_compile_dict.get('integrate', default_int):
+        if self.jit_enable and self.jit_compile_dict.get('integrate', False):
             self._integrate_fn = jit(self.integrate, static_argnames=['step_size', 'Nsteps'])
         else:
             self._integrate_fn = self.integrate
-- 
2.43.0


From ae716d72f51dab83808cb3d9d702a5c68be108cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 02/30] fix: pass constraint params when judging sample test
 episodes

SafetyAssuranceSampleTestingModule evaluated phi(state) and h(state) without
the params argument they require, so run_sample_test raised TypeError on the
first episode.
---
 run_time_assurance/utils/sample_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index ef401b1..a51929b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -276,7 +276,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
         """
 
         for c in self.rta.constraints.values():
-            if c.phi(to_jnp_array_jit(state)) < 0 or c(to_jnp_array_jit(state)) < 0:
+            if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
         done = False
@@ -293,7 +293,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             done = self._check_done_conditions(state, current_time)
 
             for c in self.rta.constraints.values():
-                if c.phi(to_jnp_array_jit(state)) < 0:
+                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                     return False
 
         return True
-- 
2.43.0


From 43b77e4d209c6bfbcfd5580b66a5c00580c93eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 03/30] fix: start every sample test episode from a reset rta

run_sample_test simulates all its episodes with one rta and never reset it, so
a latch or backup controller state left by one episode leaked into the next and
the verdict of an initial state depended on the ones sampled before it.
---
 run_time_assurance/utils/sample_testing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index a51929b..d975d2b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -279,6 +279,11 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
+        # Episodes are independent: drop what the previous one left in the rta (latches, backup controller state)
+        enable = self.rta.enable
+        self.rta.reset()
+        self.rta.enable = enable
+
         done = False
         current_time = 0.
 
-- 
2.43.0


From ebdb9f025ee3249c7f08cf08bae64830ce7ea3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 04/30] fix: never overwrite the results of an earlier sample
 test

Result files are named after the wall clock with a resolution of one second and
were opened with w+: a second run finishing in the same second, or after the
clock was set back, silently destroyed the results of the first.
---
 run_time_assurance/utils/sample_testing.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index d975d2b..487fa80 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -252,10 +252,20 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             if ((((n + 1) / self.n_points) * 100) % 10) == 0:
                 print(str(round(((n + 1) / self.n_points) * 100, 4)), '% complete')
 
-        filename = datetime.now().strftime('%Y-%m-%d--%H-%M-%S') + ".csv"
-        with open(os.path.join(output_dir, filename), "w+", encoding="utf-8") as my_csv:
-            newarray = csv.writer(my_csv, delimiter=',')
-            newarray.writerows(results_array)
+        filename = datetime.now().strftime('%Y-%m-%d--%H-%M-%S')
+        path = os.path.join(output_dir, filename + ".csv")
+        count = 0
+        saved = False
+        while not saved:
+            try:
+                with open(path, "x", encoding="utf-8") as my_csv:
+                    newarray = csv.writer(my_csv, delimiter=',')
+                    newarray.writerows(results_array)
+                saved = True
+            except FileExistsError:
+                # Never overwrite the results of another run, e.g. one saved within the same second
+                count += 1
+                path = os.path.join(output_dir, f"{filename}-{count}.csv")
 
     def _simulate_episode(self, state: np.ndarray) -> Union[bool, None]:
         """Simulates one episode given the initial state.
-- 
2.43.0


From f9d785c75cc9d60eccfe39ef2cecbf2f42cc4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 05/30] fix: give every simplex intervention its full latch
 time

latched_elapsed was only cleared when a latch ran out. After a reset in the
middle of a latch the next intervention inherited the elapsed time of the old
one and was released too early.
---
 run_time_assurance/rta/simplex.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 9a182e5..f71bcfd 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -72,12 +72,11 @@ class SimplexModule(BackupControlBasedRTA):
         Otherwise returns backup control if monitor returns True
         """
         latched = False
-        if self.intervening:
-            if self.latched_elapsed >= self.latch_time:
-                self.latched_elapsed = 0
-            else:
-                self.latched_elapsed += step_size
-                latched = True
+        if self.intervening and self.latched_elapsed < self.latch_time:
+            self.latched_elapsed += step_size
+            latched = True
+        else:
+            self.latched_elapsed = 0
 
         if latched:
             control = self.backup_control(state, step_size)
-- 
2.43.0


From 471c3a18a6967ce54170bdf2d4ec1fd478f5f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 06/30] fix: a disabled rta is not intervening

With enable = False the desired control is passed through, but intervening kept
the value of the last enabled step, so generate_info() and the sample testing
records reported interventions that did not happen.
---
 run_time_assurance/rta/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 684412d..d189311 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -80,6 +80,7 @@ class RTAModule(abc.ABC):
             control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))
             self.control_actual = np.array(control_actual)
         else:
+            self.intervening = False
             self.control_actual = np.copy(control_desired)
 
         return np.copy(self.control_actual)
-- 
2.43.0


From a465ca634eb21e83a6ef612d79ecb0fff8cd3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 07/30] fix: reset the members of a cascaded rta

CascadedRTA.reset() left the rtas of its rta_list untouched, so latches and
backup controller state survived into the next episode.
---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index d189311..0b9cf18 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -365,6 +365,13 @@ class CascadedRTA(RTAModule):
         self.rta_list = self._setup_rta_list()
         super().__init__(*args, **kwargs)
 
+    def reset(self):
+        """Resets the cascaded rta module and every rta in the cascade
+        """
+        super().reset()
+        for rta in self.rta_list:
+            rta.reset()
+
     def compute_filtered_control(self, input_state: Any, step_size: float, control_desired: np.ndarray) -> np.ndarray:
         self.intervening = False
         control = control_desired
-- 
2.43.0


From 1932ca014c56e56989cec369be9532e510d95794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 08/30] fix: apply the backup control on the step the delta v
 rta switches

SwitchingDeltaVLimitRTA computed the backup control when the rollout exceeded
the delta v limit and then overwrote it with the desired control, once per
remaining rollout step: the unsafe control was applied while intervening was
reported, and the tracking error integral advanced many times in one step.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index eed26f3..8bd4e5c 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -698,6 +698,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         self, input_state, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
         if not self.latched:
+            out = control_desired
             pred_state = self._pred_state(input_state, step_size, control_desired)
             error_integral = self.error_integral
             for _ in range(self.n_steps):
@@ -712,11 +713,12 @@ class SwitchingDeltaVLimitRTA(RTAModule):
                     self.latched = True
                     self.intervening = True
                     out = ub
-            out = control_desired
+                    break
         else:
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
             )
+            self.intervening = True
             out = ub
         return out
 
-- 
2.43.0


From 285533e0a5dbf80498e2d008ba35912ca1ae2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 09/30] fix: release the delta v latch on reset

SwitchingDeltaVLimitRTA.reset() kept the latch and the error integral, so once
the limit was hit every later episode ran on the backup controller.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 8bd4e5c..e8c6d90 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -686,6 +686,12 @@ class SwitchingDeltaVLimitRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode"""
+        super().reset()
+        self.latched = False
+        self.error_integral = np.zeros(6)
+
     def _pred_state(
         self, state: np.ndarray, step_size: float, control: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From dc685dd5ed4ddf2ed4b3a83089af13543019f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 10/30] fix: give each combined inspection rta its own deputy
 rta

The default deputy_rta was one InspectionRTA instance created at import time,
shared by all CombinedInspectionRTA instances (params, enabled flags and
telemetry of one were those of all) and always built for five deputies,
whatever num_deputies was.
---
 run_time_assurance/zoo/cwh/inspection_3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index f64e651..7de33e1 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -494,12 +494,14 @@ class CombinedInspectionRTA(RTAModule):
         self,
         *args: Any,
         num_deputies: int = NUM_DEPUTIES_DEFAULT,
-        deputy_rta: RTAModule = InspectionRTA(),
+        deputy_rta: RTAModule = None,
         control_bounds_high: Union[float, int, list, np.ndarray] = U_MAX_DEFAULT,
         control_bounds_low: Union[float, int, list, np.ndarray] = -U_MAX_DEFAULT,
         **kwargs: Any,
     ):
         self.num_deputies = num_deputies
+        if deputy_rta is None:
+            deputy_rta = InspectionRTA(num_deputies=num_deputies)
         self.deputy_rta = deputy_rta
         super().__init__(
             *args,
-- 
2.43.0


From c9ee985d43ab8403836232eb80d2dec71d569f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 11/30] fix: report interventions of the combined inspection
 rta and reset its deputies

CombinedInspectionRTA never set intervening, so generate_info() and the sample
testing records claimed no intervention while controls were being altered, and
reset() did not reach the deputy rta.
---
 run_time_assurance/zoo/cwh/inspection_3d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 7de33e1..55214a6 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -510,9 +510,15 @@ class CombinedInspectionRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        """Resets the combined rta module and the rta of the deputies"""
+        super().reset()
+        self.deputy_rta.reset()
+
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
+        self.intervening = False
         u_act = np.zeros(self.num_deputies * 3)
         for i in range(self.num_deputies):
             u_des = control_desired[3 * i : 3 * i + 3]
@@ -520,6 +526,8 @@ class CombinedInspectionRTA(RTAModule):
             u_act[3 * i : 3 * i + 3] = self.deputy_rta.filter_control(
                 x_new, step_size, u_des
             )
+            if self.deputy_rta.intervening:
+                self.intervening = True
         return u_act
 
     def get_agent_state(self, state, i):
-- 
2.43.0


From 592110caae0b3b0d9982bf9779643a51c4b11d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 12/30] fix: check the backup trajectory point right after
 num_check_all

The skipping range started at num_check_all + 1, so for any num_check_all >= 0
point num_check_all was never checked, not even with skip_length 1, which is
documented as no skipping.
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 3e76123..c18a15d 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -731,7 +731,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             check_points = jnp.hstack(
                 (
                     jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(c.subsample_config.num_check_all + 1, num_steps, c.subsample_config.skip_length))
+                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
-- 
2.43.0


From 554e19ad5f51feb3b62a64de28ecccbc9e2815fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 13/30] fix: allow slack variables in implicit ASIF

subsample_constraints collected rows without the slack columns, so any implicit
ASIF constraint with a slack_priority_scale failed with a shape error.
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index c18a15d..2ac5a38 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -718,7 +718,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        new_ineq_weight_barrier = jnp.empty((0, self.control_dim))
+        new_ineq_weight_barrier = jnp.empty((0, self.control_dim + self.num_slack))
         new_ineq_constant_barrier = jnp.empty(0)
 
         for i, c in enumerate(self.constraints.values()):
-- 
2.43.0


From cd9f8eb57fc0153265aac07890764cc8e4ea0233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 14/30] fix: name the subsampled rows of implicit ASIF after
 their constraints

constraint_names assumed one row per trajectory point and constraint. With any
subsampling (the zoo integrator uses it) constraints_causing_intervention
named the wrong constraint, and keep_first/keep_last could index past the end.
---
 run_time_assurance/rta/asif.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 2ac5a38..1695506 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -600,12 +600,20 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         if self.control_bounds_high is not None:
             idx += self.control_dim
         self.constraint_names = self.constraint_names[0:idx]
-        for k in self.constraints.keys():
-            self.constraint_names += [k] * num_steps
+        for k, c in self.constraints.items():
+            self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
         return ineq_weight, ineq_constant
 
+    def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
+        """Number of backup trajectory points subsample_constraints keeps for a constraint"""
+        config = constraint.subsample_config
+        num_points = max(config.num_check_all, 0) + len(range(max(config.num_check_all, 0), num_steps, config.skip_length))
+        if config.subsample_constraints_num_least is not None:
+            num_points = min(num_points, config.subsample_constraints_num_least)
+        return num_points + int(config.keep_first) + int(config.keep_last)
+
     def _generate_ineq_constraint_mats(
         self,
         state: jnp.ndarray,
-- 
2.43.0


From 3c318cc6cb2b033a0bd49c31b7fc2fce5496ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 15/30] fix: do not report the causes of an earlier
 intervention after a solver failure

When the QP has no solution the desired control is passed, but
constraints_causing_intervention kept the list of the last solved step.
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 1695506..344b705 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -243,6 +243,7 @@ class ASIFModule(BaseOptimizationModule):
             Actual control solved by QP
         """
         obj_constant = np.concatenate((obj_constant, np.zeros(self.num_slack)))
+        self.constraints_causing_intervention = []
         try:
             opt = quadprog.solve_qp(
                 obj_weight, obj_constant, np.array(ineq_weight, dtype=np.float64), np.array(ineq_constant, dtype=np.float64), 0
@@ -250,7 +251,6 @@ class ASIFModule(BaseOptimizationModule):
             u = opt[0]
 
             # Get constraints causing intervention
-            self.constraints_causing_intervention = []
             for i in opt[5]:
                 key = self.constraint_names[i - 1]
                 if key not in self.constraints_causing_intervention:
-- 
2.43.0


From 29bea8903a17212bd389f23ff4f31d2e3b19494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 16/30] fix: restore the backup controller when a rollout fails

An exception from the dynamics or the backup controller in the middle of the
look-ahead rollout skipped backup_controller_restore(), leaving the controller
in a hypothetical future state that later backup controls continued from.
---
 run_time_assurance/rta/asif.py    | 21 +++++++++++----------
 run_time_assurance/rta/simplex.py | 13 +++++++------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 344b705..3ffbf80 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -912,16 +912,17 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
 
         self.backup_controller_save()
 
-        for _ in range(1, Nsteps):
-            control = self.backup_control(state, step_size)
-            state = self._pred_state_fn(state, step_size, control)
-            traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state)
-            sensitivity = sensitivity + (traj_jac @ sensitivity) * step_size
-
-            traj_states.append(state)
-            traj_sensitivity.append(sensitivity)
-
-        self.backup_controller_restore()
+        try:
+            for _ in range(1, Nsteps):
+                control = self.backup_control(state, step_size)
+                state = self._pred_state_fn(state, step_size, control)
+                traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state)
+                sensitivity = sensitivity + (traj_jac @ sensitivity) * step_size
+
+                traj_states.append(state)
+                traj_sensitivity.append(sensitivity)
+        finally:
+            self.backup_controller_restore()
 
         return traj_states, traj_sensitivity
 
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index f71bcfd..77dd65d 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -300,11 +300,12 @@ class ImplicitSimplexModule(SimplexModule):
 
         self.backup_controller_save()
 
-        for _ in range(Nsteps):
-            control = self.backup_control(state, step_size)
-            state = self._pred_state_fn(state, step_size, control)
-            traj_states.append(state)
-
-        self.backup_controller_restore()
+        try:
+            for _ in range(Nsteps):
+                control = self.backup_control(state, step_size)
+                state = self._pred_state_fn(state, step_size, control)
+                traj_states.append(state)
+        finally:
+            self.backup_controller_restore()
 
         return jnp_stack_jit(traj_states, axis=0)
-- 
2.43.0


From e77d2c58ab23b17fb8c8de84606f6a98e36b97d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 17/30] fix: keep the saved controller state intact on restore

restore() handed out the saved state itself, so a controller that updates its
state dict in place changed the save and a second restore returned to the wrong
state.
---
 run_time_assurance/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 8740176..9cf610a 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -166,4 +166,4 @@ class RTABackupController(abc.ABC):
 
         !!! Note stateful backup controllers are not compatible with jax jit compilation
         """
-        self.controller_state = self.controller_state_saved
+        self.controller_state = self._copy_controller_state(self.controller_state_saved)
-- 
2.43.0


From 2f7d6c6ad28f5ca0873cfaa7fd8872eb62ae3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 18/30] fix: simplex monitors treat NaN predictions as unsafe

A NaN or infinite desired control makes the predicted constraint values NaN,
and NaN < 0 is False, so the monitor declared it safe and passed it on to the
actuators.
---
 run_time_assurance/rta/simplex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 77dd65d..a930658 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -165,8 +165,8 @@ class SimplexModule(BackupControlBasedRTA):
                 traj_constraint_vals,
             )
 
-            # Set constraint violation
-            constraint_violations = constraint_violations.at[i].set(jnp.any(traj_constraint_vals < 0))
+            # Set constraint violation, a value that is not a number has not been shown to be safe
+            constraint_violations = constraint_violations.at[i].set(jnp.any(jnp.logical_not(traj_constraint_vals >= 0)))
 
         return jnp.any(constraint_violations)
 
-- 
2.43.0


From c115e1428944ff834f89a3339142fcc896720389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 19/30] fix: look ahead over the whole backup window

int(backup_window / step_size) drops a step when the quotient falls just short
of an integer, e.g. int(0.3 / 0.1) == 2: the end of the window was not checked.
---
 run_time_assurance/rta/asif.py    | 2 +-
 run_time_assurance/rta/simplex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 3ffbf80..8c51751 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -587,7 +587,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        num_steps = int(self.backup_window / step_size) + 1
+        num_steps = int(self.backup_window / step_size + 1e-9) + 1
         traj_states, traj_sensitivities = self._integrate_fn(state, step_size, num_steps)
         ineq_weight, ineq_constant = self._generate_ineq_constraint_mats_fn(
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index a930658..384a4fc 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -294,7 +294,7 @@ class ImplicitSimplexModule(SimplexModule):
             jax array of implict backup trajectory states.
             Shape (M, N) where M is number of states and N is the dimension of the state vector
         """
-        Nsteps = int(self.backup_window / step_size)
+        Nsteps = int(self.backup_window / step_size + 1e-9)
         state = self._pred_state_fn(state, step_size, desired_control)
         traj_states = [state]
 
-- 
2.43.0


From caaf3089bff3208ac5fed17165af7fc89a74095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 20/30] fix: accept element specific control bounds in discrete
 ASIF

Lists and arrays of bounds were passed whole as the bound of every control
element, which scipy rejects.
---
 run_time_assurance/rta/asif.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 8c51751..c2a55bd 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -985,7 +985,9 @@ class DiscreteASIFModule(BaseOptimizationModule):
     def __init__(self, *args: Any, **kwargs: Any):
         super().__init__(*args, **kwargs)
 
-        self.opt_bounds = [(self.control_bounds_low, self.control_bounds_high)] * self.control_dim + [(-np.inf, np.inf)] * self.num_slack
+        bounds_low = np.broadcast_to(-np.inf if self.control_bounds_low is None else self.control_bounds_low, self.control_dim)
+        bounds_high = np.broadcast_to(np.inf if self.control_bounds_high is None else self.control_bounds_high, self.control_dim)
+        self.opt_bounds = list(zip(bounds_low, bounds_high)) + [(-np.inf, np.inf)] * self.num_slack
         self.scipy_constraints = []
         self.discrete_constraints = OrderedDict()
         slack_counter = 0
-- 
2.43.0


From e19f0e3b6b9c2845a06b85d0865af3c16074cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 21/30] fix: predict the sun angle in the direction the sun
 moves

The sun angle changes at the rate sun_vel (see Inspection1v1RTA), but the
discrete inspection rta predicted it to change by -sun_vel * step_size, so its
sun constraint was enforced against a cone rotating the wrong way.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index e8c6d90..ef44189 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -562,7 +562,7 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             + self.discrete_b_mat(step_size) @ control
         )
         return jnp.concatenate(
-            (next_state, jnp.array([state[6] - self.sun_vel * step_size, 0.0]))
+            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
         )  # TODO: fix fuel derivative
 
     def discrete_a_mat(self, dt):
-- 
2.43.0


From 9fa4009b28f359889a3d7553a096229242d36e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 22/30] fix: make the discrete ASIF integrator traceable

DifferentiableODESolver stepped the external ODE solver, which converts to
numpy, so DiscreteASIFIntegratorModule raised on its first filter_control call.
Integrate with jax odeint, as Inspection1v1RTA does.
---
 run_time_assurance/rta/asif.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index c2a55bd..a7721c4 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -15,6 +15,7 @@ import jax.numpy as jnp
 import numpy as np
 import quadprog
 from jax import jacfwd, jit, lax, vmap
+from jax.experimental.ode import odeint
 from safe_autonomy_simulation.dynamics import ControlAffineODEDynamics, ODEDynamics
 from scipy.optimize import minimize
 
@@ -1125,3 +1126,8 @@ class DifferentiableODESolver(ODEDynamics):
 
     def _compute_state_dot(self, t, state, control):
         return self.state_dot_fn(t, state, control)
+
+    def step(self, step_size, state, control):
+        """Step with the jax integrator: the numpy conversions of the parent class cannot be traced or differentiated"""
+        sol = odeint(lambda x, t, u: self._compute_state_dot(t, x, u), state, jnp.array([0., step_size]), control)
+        return sol[-1], self._compute_state_dot(step_size, sol[-1], control)
-- 
2.43.0


From bd7072138f6b73179bf9c177d823d7dfa1bec277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 23/30] fix: do not modify the caller's jit_compile_dict

ImplicitASIFModule adds its defaults to jit_compile_dict; modules built from
the same dict got each other's settings.
---
 run_time_assurance/rta/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 0b9cf18..8c37bc3 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -175,7 +175,7 @@ class ConstraintBasedRTA(RTAModule):
         if jit_compile_dict is None:
             self.jit_compile_dict = {}
         else:
-            self.jit_compile_dict = jit_compile_dict
+            self.jit_compile_dict = dict(jit_compile_dict)
 
         self.jit_enable = jit_enable
 
-- 
2.43.0


From 38a871294ed303cd6e254701a9e7c30488c9dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:02 +0000
Subject: [PATCH 24/30] fix: num_check_all beyond the backup trajectory no
 longer duplicates its last point

Out of range indices are clamped by jax, so the last point was repeated and could displace
other points when subsample_constraints_num_least keeps only the smallest ones.
---
 run_time_assurance/rta/asif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index a7721c4..cb55ea8 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -610,7 +610,8 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
     def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
         """Number of backup trajectory points subsample_constraints keeps for a constraint"""
         config = constraint.subsample_config
-        num_points = max(config.num_check_all, 0) + len(range(max(config.num_check_all, 0), num_steps, config.skip_length))
+        num_check_all = min(max(config.num_check_all, 0), num_steps)
+        num_points = num_check_all + len(range(num_check_all, num_steps, config.skip_length))
         if config.subsample_constraints_num_least is not None:
             num_points = min(num_points, config.subsample_constraints_num_least)
         return num_points + int(config.keep_first) + int(config.keep_last)
@@ -739,7 +740,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             # Get points to check from num_check_all and skip_length
             check_points = jnp.hstack(
                 (
-                    jnp.array(range(0, c.subsample_config.num_check_all)),
+                    jnp.array(range(0, min(c.subsample_config.num_check_all, num_steps))),
                     jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
-- 
2.43.0


From d5341ddb91baed6f73956f564a4ef3622bdf682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:29 +0000
Subject: [PATCH 25/30] fix: simplex monitor predicts with the control that
 will be applied

A desired control outside of the control bounds was found safe as it is, and applied after clipping.
---
 run_time_assurance/rta/simplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 384a4fc..83f54b6 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -106,7 +106,7 @@ class SimplexModule(BackupControlBasedRTA):
         bool
             return False if desired control is safe and True if unsafe
         """
-        return self._monitor(state, step_size, control, self.intervening)
+        return self._monitor(state, step_size, self._clip_control_jax(control), self.intervening)
 
     @abc.abstractmethod
     def _monitor(self, state: jnp.ndarray, step_size: float, control: jnp.ndarray, intervening: bool) -> bool:
-- 
2.43.0


From c7f87d809d726e196de0113fceae411e948c50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:29 +0000
Subject: [PATCH 26/30] fix: delta v prediction uses the controls that will be
 applied

Desired and backup controls outside of the control bounds were predicted as they are, and applied after clipping.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index ef44189..d2490ea 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -705,7 +705,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
     ) -> np.ndarray:
         if not self.latched:
             out = control_desired
-            pred_state = self._pred_state(input_state, step_size, control_desired)
+            pred_state = self._pred_state(input_state, step_size, self._clip_control(control_desired))
             error_integral = self.error_integral
             for _ in range(self.n_steps):
                 ub, error_integral = self.backup_control(
@@ -742,7 +742,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         )
         backup_action = -self.K_1 @ error - self.K_2 @ error_integral
         error_integral = error_integral + error * step_size
-        return np.clip(backup_action, -1, 1), error_integral
+        return self._clip_control(np.clip(backup_action, -1, 1)), error_integral
 
 
 class InspectionCascadedRTA(CascadedRTA):
-- 
2.43.0


From 78a2a8c3f36e26de543f7b053c5d03d8c67a1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:44 +0000
Subject: [PATCH 27/30] fix: keep a copy of control bounds given as arrays

---
 run_time_assurance/rta/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 8c37bc3..7f8d51f 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -33,10 +33,10 @@ class RTAModule(abc.ABC):
         control_bounds_low: Union[float, int, list, np.ndarray] = None,
         **kwargs: Any
     ):
-        if isinstance(control_bounds_high, (list)):
+        if isinstance(control_bounds_high, (list, np.ndarray)):
             control_bounds_high = np.array(control_bounds_high, float)
 
-        if isinstance(control_bounds_low, (list)):
+        if isinstance(control_bounds_low, (list, np.ndarray)):
             control_bounds_low = np.array(control_bounds_low, float)
 
         self.control_bounds_high = control_bounds_high
-- 
2.43.0


From a8da5b6701ef27eed1abfcd7bc09cdf3b388f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:22 +0000
Subject: [PATCH 28/30] fix: evaluating a backup controller at a given internal
 state leaves that state alone

A controller that updates its state dictionary in place had its own (or the
caller's) state modified by generate_control_with_controller_state and by
jacobian: with compilation switched off, implicit ASIF was left with JAX
tracers in the controller state and failed in the following step.
---
 run_time_assurance/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 9cf610a..108d4c5 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -103,7 +103,7 @@ class RTABackupController(abc.ABC):
             Updated controller_state modified by the control algorithm
             If no internal controller_state is used, return None
         """
-        return self._generate_control_fn(state, step_size, controller_state)
+        return self._generate_control_fn(state, step_size, self._copy_controller_state(controller_state))
 
     @abc.abstractmethod
     def _generate_control(
@@ -152,7 +152,7 @@ class RTABackupController(abc.ABC):
         jnp.ndarray
             jacobian matrix
         """
-        return self._jacobian(state, step_size, self.controller_state)[0]
+        return self._jacobian(state, step_size, self._copy_controller_state(self.controller_state))[0]
 
     def save(self):
         """Save the internal state of the backup controller
-- 
2.43.0


From 61f2f2602db08d153548780a8517650ca9a328d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:14 +0000
Subject: [PATCH 29/30] fix: the information dictionary is a copy, so that
 writing into it does not change later reports

---
 run_time_assurance/rta/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 7f8d51f..da5417b 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -116,8 +116,8 @@ class RTAModule(abc.ABC):
         info = {
             'enable': self.enable,
             'intervening': self.intervening,
-            'control_desired': self.control_desired,
-            'control_actual': self.control_actual,
+            'control_desired': None if self.control_desired is None else np.copy(self.control_desired),
+            'control_actual': None if self.control_actual is None else np.copy(self.control_actual),
         }
 
         return info
@@ -352,7 +352,7 @@ class ConstraintBasedRTA(RTAModule):
         else:
             constraint_key = 'constraints'
 
-        info.update({constraint_key: self.constraint_values})
+        info.update({constraint_key: dict(self.constraint_values)})
 
         return info
 
-- 
2.43.0


From 930a883d51477efcdcabb7cf81daec99de860352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:52 +0000
Subject: [PATCH 30/30] fix: backup controllers with an internal state can be
 compiled

---
 run_time_assurance/controller.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 108d4c5..14f4ab6 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -25,10 +25,8 @@ class RTABackupController(abc.ABC):
 
     def _compose(self):
         if self.jit_enable:
-            self._jacobian = jit(
-                jacfwd(self._generate_control, has_aux=True), static_argnums=[1, 2], static_argnames=['step_size', 'controller_state']
-            )
-            self._generate_control_fn = jit(self._generate_control, static_argnames=['step_size', 'controller_state'])
+            self._jacobian = jit(jacfwd(self._generate_control, has_aux=True), static_argnums=[1], static_argnames=['step_size'])
+            self._generate_control_fn = jit(self._generate_control, static_argnames=['step_size'])
         else:
             self._jacobian = jacfwd(self._generate_control, has_aux=True)
             self._generate_control_fn = self._generate_control
-- 
2.43.0

