From 7cfc411b52aec404e321c3f9a83a96ad9fe6ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 01/18] fix: map each integrator thrust name to its own control
 channel

---
 safe_autonomy_dynamics/integrators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index bf36e6c..44a66a3 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -211,7 +211,7 @@ class Integrator2d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
+            'thrust_y': 1,
         }
 
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
@@ -309,8 +309,8 @@ class Integrator3d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
-            'thrust_z': 0,
+            'thrust_y': 1,
+            'thrust_z': 2,
         }
 
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
-- 
2.43.0


From 67dee151d65f0d18fa3e43bda47a0d60d6184802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 02/18] fix: compare 2d and 3d integrators with their own kind

---
 safe_autonomy_dynamics/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 44a66a3..577a69a 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -217,7 +217,7 @@ class Integrator2d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator2d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
@@ -316,7 +316,7 @@ class Integrator3d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator3d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
-- 
2.43.0


From 5ae72898d5c14eb0b440e84b4ebd78d6e28d4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 03/18] fix: give point mass integrators an orientation so they
 can be instantiated

---
 safe_autonomy_dynamics/integrators.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 577a69a..5e99251 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -16,6 +16,7 @@ import abc
 from typing import Tuple
 
 import numpy as np
+from scipy.spatial.transform import Rotation
 
 from safe_autonomy_dynamics.base_models import BaseEntity, BaseEntityValidator, BaseLinearODESolverDynamics
 
@@ -85,6 +86,19 @@ class BaseIntegrator(BaseEntity):
         """Get velocity vector"""
         raise NotImplementedError
 
+    @property
+    def orientation(self):
+        """
+        Get orientation of integrator, which is always an identity rotation as point mass model doesn't rotate.
+
+        Returns
+        -------
+        scipy.spatial.transform.Rotation
+            Rotation transformation of the entity's local reference frame basis vectors in the global reference frame.
+        """
+        # always return a no rotation quaternion as points do not have an orientation
+        return Rotation.from_quat([0, 0, 0, 1])
+
 
 class Integrator1d(BaseIntegrator):
     """
-- 
2.43.0


From 8924f040f9d487d991985ebdb5e571915b653dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 04/18] fix: number_list_to_np uses list values as values, not
 as a shape

---
 safe_autonomy_dynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/utils.py b/safe_autonomy_dynamics/utils.py
index 9b4828d..d5a17e1 100644
--- a/safe_autonomy_dynamics/utils.py
+++ b/safe_autonomy_dynamics/utils.py
@@ -39,7 +39,7 @@ def number_list_to_np(input_val: Union[float, int, list, np.ndarray], shape: Tup
     if isinstance(input_val, np.ndarray):
         output = input_val
     elif isinstance(input_val, list):
-        output = np.ndarray(input_val, dtype=dtype)
+        output = np.array(input_val, dtype=dtype)
     elif isinstance(input_val, (float, int)):
         output = float(input_val) * np.ones(shape, dtype=dtype)
     else:
-- 
2.43.0


From 40710f813e62696f06f3f6204b520056f78190d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 05/18] fix: wrap angles around a non-zero center by whole
 turns

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2e804c2..1f24fe5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -458,7 +458,7 @@ class BaseDynamics(abc.ABC):
         if self.angle_wrap_centers is not None:
             needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
 
-            wrapped_state = ((state + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
+            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
 
             output_state = self.np.where(needs_wrap, wrapped_state, state)
         else:
-- 
2.43.0


From 23eca2af9066baf1dea538c1febd25d0b2a5eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 06/18] fix: apply the derivative limits inside RK45_JAX
 integration

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 1f24fe5..9ded568 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -600,7 +600,7 @@ class BaseODESolverDynamics(BaseDynamics):
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-        return self._compute_state_dot(t, state, control)
+        return self.compute_state_dot(t, state, control)
 
 
 class BaseControlAffineODESolverDynamics(BaseODESolverDynamics):
-- 
2.43.0


From ada5d08d75f64dcae5fc74725ded67cd58f7efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 07/18] fix: report the end-of-step derivative from Euler
 integration

---
 safe_autonomy_dynamics/base_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 9ded568..0d12de0 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -590,8 +590,8 @@ class BaseODESolverDynamics(BaseDynamics):
             state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
-            state_dot = self.compute_state_dot(0, state, control)
-            next_state = state + step_size * state_dot
+            next_state = state + step_size * self.compute_state_dot(0, state, control)
+            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
-- 
2.43.0


From 5813de8d83aa244cdb3965ce9c70d509e57ee719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 08/18] fix: raise when the RK45 solver cannot complete the
 step

---
 safe_autonomy_dynamics/base_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 0d12de0..336900b 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -571,6 +571,8 @@ class BaseODESolverDynamics(BaseDynamics):
                 t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
 
             sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
+            if not sol.success:
+                raise RuntimeError(f"integration of the step failed: {sol.message}")
 
             self.trajectory = sol.y.T
             self.trajectory_t = sol.t
-- 
2.43.0


From 15ceec25f51e66101bfe05775ea7e26d0da8ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 09/18] fix: default the six degree of freedom attitude to the
 identity quaternion

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index f4cae7c..1fceec4 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -90,7 +90,7 @@ class SixDOFSpacecraftValidator(BaseEntityValidator):
     q1: float = 0
     q2: float = 0
     q3: float = 0
-    q4: float = 0
+    q4: float = 1
     wx: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wy: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wz: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
-- 
2.43.0


From c0b19a8d100bf4fc19547adb781b524edecbbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 10/18] fix: let the safety verifier check results without a
 low level controller

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c91631b..9f28441 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -294,7 +294,7 @@ class SafetyLimitsVerifier(Freezable):
             _vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
-                _, _, _, _ = results['states'][i]
+                *_ = results['states'][i]
             nz = results['Nz_list'][i]
             ps = results['ps_list'][i]
 
-- 
2.43.0


From 25e0b11324656160d38cc1aa3bd2ddf8a533090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 11/18] fix: check the speed limit in the safety verifier

---
 safe_autonomy_dynamics/external/aerobench/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 9f28441..19d17eb 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -291,7 +291,7 @@ class SafetyLimitsVerifier(Freezable):
         # Go through each tick of the simulation and determine whether
         # the object(s) was (were) in a safe state.
         for i in range(results['states'].size // num_state_vars):
-            _vt, alpha, beta, _phi, \
+            vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
                 *_ = results['states'][i]
@@ -308,6 +308,11 @@ class SafetyLimitsVerifier(Freezable):
                     f"Nz ({nz}) is not within the specified limits \
                         ({self.safety_limits.Nz[0]}, {self.safety_limits.Nz[1]})."
 
+            if self.safety_limits.v is not None:
+                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \
+                    f"Speed ({vt}) is not within the specified limits \
+                        ({self.safety_limits.v[0]}, {self.safety_limits.v[1]})."
+
             if self.safety_limits.alpha is not None:
                 assert self.safety_limits.alpha[0] <= alpha <= self.safety_limits.alpha[1], \
                     f"alpha ({nz}) is not within the specified limits \
-- 
2.43.0


From 147052b91551620630fff04f8b8606a250266fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 12/18] fix: compare sideslip and roll rate with their degree
 limits in degrees

---
 safe_autonomy_dynamics/external/aerobench/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 19d17eb..424c5d9 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -319,7 +319,7 @@ class SafetyLimitsVerifier(Freezable):
                         ({self.safety_limits.alpha[0]}, {self.safety_limits.alpha[1]})."
 
             if self.safety_limits.psMaxAccelDeg is not None:
-                assert ps <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
+                assert np.rad2deg(ps) <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
 
             if self.safety_limits.betaMaxDeg is not None:
-                assert beta <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
+                assert np.rad2deg(beta) <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
-- 
2.43.0


From 864f8225fc93b5a2003617a7aaef89b631ca2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 13/18] fix: keep a dense output valid after the integrator
 steps on

---
 safe_autonomy_dynamics/external/aerobench/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 424c5d9..6ad8b8c 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -115,13 +115,14 @@ class Euler(Freezable):
         dt = self.t - self.tprev
 
         dydt = dy / dt
+        tprev, yprev = self.tprev, self.yprev
 
         def fun(t):
             """return state at time t (linear interpolation)"""
 
-            deltat = t - self.tprev
+            deltat = t - tprev
 
-            return self.yprev + dydt * deltat
+            return yprev + dydt * deltat
 
         return fun
 
-- 
2.43.0


From 4087cc44aa5a75ac8cf7e683439dce72da701cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 14/18] fix: report the derivative of the limited end state
 after a step

---
 safe_autonomy_dynamics/base_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 336900b..e4cbf45 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -578,7 +578,6 @@ class BaseODESolverDynamics(BaseDynamics):
             self.trajectory_t = sol.t
 
             next_state = sol.y[:, -1]  # save last timestep of integration solution
-            state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "RK45_JAX":
             if not self.use_jax:
                 raise ValueError("use_jax must be set to True if using RK45_JAX")
@@ -589,14 +588,15 @@ class BaseODESolverDynamics(BaseDynamics):
                 self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control
             )
             next_state = sol[-1, :]  # save last timestep of integration solution
-            state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
             next_state = state + step_size * self.compute_state_dot(0, state, control)
-            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
+        # the derivative belongs to the state the step ends in, which is limited to the allowed range
+        state_dot = self.compute_state_dot(step_size, self.np.clip(next_state, self.state_min, self.state_max), control)
+
         return next_state, state_dot
 
     def compute_state_dot_jax(self, state, t, control):
-- 
2.43.0


From b7b6832cfcaf4990583626774f7f2e5818f46fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 15/18] fix: limit the derivative of a component whose state
 limits coincide

---
 safe_autonomy_dynamics/base_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index e4cbf45..f9e4639 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -555,9 +555,9 @@ class BaseODESolverDynamics(BaseDynamics):
         upper_bounded_states = state >= self.state_max
 
         lower_bounded_clipped = self.np.clip(state_dot, 0, np.inf)
-        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
-
         state_dot = self.np.where(lower_bounded_states, lower_bounded_clipped, state_dot)
+
+        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
         state_dot = self.np.where(upper_bounded_states, upper_bounded_clipped, state_dot)
 
         return state_dot
-- 
2.43.0


From 59a12f37e87b0154e187f672444e2ad7b3e9bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:20 +0000
Subject: [PATCH 16/18] fix: print the label of a matrix

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 6ad8b8c..66d2f05 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -147,7 +147,7 @@ def printmat(mat, main_label, row_label_str, col_label_str):
     if len(mat.shape) == 1:
         mat.shape = (1, mat.shape[0])  # one-row matrix
 
-    print("{main_label} =")
+    print(f"{main_label} =")
 
     row_labels = None if row_label_str is None else row_label_str.split(' ')
     col_labels = col_label_str.split(' ')
-- 
2.43.0


From 0c3576ade80a9d3d3849a04b51a1e9993780f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:33 +0000
Subject: [PATCH 17/18] fix: refuse vector actions that do not have the shape
 of the control vector

---
 safe_autonomy_dynamics/base_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index f9e4639..6fd939d 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -161,7 +161,7 @@ class BaseEntity(abc.ABC):
         KeyError
             Raised when action dict key not found in control map
         ValueError
-            Raised when action is not one of the required types
+            Raised when action is not one of the required types or does not have the shape of the control vector
         """
 
         if action is None:
@@ -188,6 +188,9 @@ class BaseEntity(abc.ABC):
             else:
                 raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")
 
+        if np.shape(control) != np.shape(self.control_default):
+            raise ValueError(f"action must have one value per control: shape {np.shape(self.control_default)}, not {np.shape(control)}")
+
         # enforce control bounds
         if (np.any(control < self.control_min) or np.any(control > self.control_max)):
             warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
-- 
2.43.0


From 8eba5682756d921b8071be1943ebe25995244c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 18/18] fix: report the derivative at the wrapped end state

---
 safe_autonomy_dynamics/base_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 6fd939d..88881b6 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -597,8 +597,9 @@ class BaseODESolverDynamics(BaseDynamics):
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
-        # the derivative belongs to the state the step ends in, which is limited to the allowed range
-        state_dot = self.compute_state_dot(step_size, self.np.clip(next_state, self.state_min, self.state_max), control)
+        # the derivative belongs to the state the step ends in, which is limited to the allowed range and wrapped
+        end_state = self._wrap_angles(self.np.clip(next_state, self.state_min, self.state_max))
+        state_dot = self.compute_state_dot(step_size, end_state, control)
 
         return next_state, state_dot
 
-- 
2.43.0

