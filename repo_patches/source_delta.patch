From 94dd6a8df464cc1b0cf287403e9d0c9c9997ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 01/39] fix: label dataframe rows with the batch member they
 belong to

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..61e5044 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))  # Rows are ordered by time, then batch
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From c85445038e0141590ae886604162671bcaa15035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 02/39] fix: report the joint estimator state in model
 coordinates

---
 moirae/estimators/online/joint.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..5700e49 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,12 +42,11 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
-            hidden_states=np.atleast_2d(joint_state.get_mean()))
+            hidden_states=np.atleast_2d(self.filter.hidden.get_mean()))
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From d2d6b2011799e519280f0effffd974c34083afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 03/39] fix: make the state of the dual estimator available

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From 38f9ece0bba6a49e10ee440115617cb571b264c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 04/39] fix: let the dual estimator track a subset of the
 updatable parameters

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..8cf8e69 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,7 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(), names=self.asoh_wrapper.asoh_inputs)
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From 7e337a275129eb71ebfda445ee87a365ae293df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 05/39] fix: produce a positive semi-definite matrix that the
 filter can factorize

---
 moirae/estimators/online/filters/kalman/utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..7847bfa 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -35,10 +35,22 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     Args:
         Sig: matrix that should be positive semi-definite but isn't
     """
+    # The polar factor must come from the symmetric part of the matrix
+    Sig = (Sig + Sig.T) / 2
     # Perform singular value decomposition
     _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
-    return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
+    nearest = (Sig + Sig.T + H_matrix + H_matrix.T) / 4
+    # The nearest matrix is often singular. Pad the diagonal as little as needed for it to have a Cholesky factor
+    padding = np.finfo(float).eps * max(S_diagonal.max(), np.finfo(float).tiny)
+    padded = nearest
+    while True:
+        try:
+            np.linalg.cholesky(padded)
+            return padded
+        except np.linalg.LinAlgError:
+            padded = nearest + padding * np.eye(len(nearest))
+            padding *= 10
 
 
 def calculate_gain_matrix(cov_xy: np.ndarray, cov_y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 2244063cfcb683fe0a6bb943b39833aaad5cf97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 06/39] fix: make hysteresis approach its limit when the
 current decays to zero

---
 moirae/models/ecm/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..abe8e27 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -140,13 +140,13 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    # Allow for round-off, as the interval may be chosen to end when the current reaches zero
+    i_end = i0 + (alpha * dt)
+    assert np.all(i0 * i_end >= -1e-9 * np.square(i0)), 'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
     exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
-        exp_factor = -exp_factor
-    exp_factor = np.exp(exp_factor)
+    # The approach rate depends on the charge passed, regardless of the direction of the current
+    exp_factor = np.exp(-np.abs(exp_factor))
     h_dt = exp_factor * h0
     h_dt = h_dt + ((1 - exp_factor) * M)
     return h_dt
-- 
2.43.0


From cc570b79dd58d1eebfc1bdd2197490a338b0227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 07/39] fix: allow steps of no duration when current varies
 linearly

---
 moirae/models/ecm/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..53903eb 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -50,8 +50,10 @@ class EquivalentCircuitModel(CellModel):
         current_k = previous_inputs.current  # shape (current_batch, 1)
         temp_k = previous_inputs.temperature  # shape (temp_batch, 1)
         current_kp1 = new_inputs.current  # shape (current_batch, 1)
-        current_slope = np.atleast_2d(0.0) if self.current_behavior == 'constant' \
-            else (current_kp1 - current_k) / delta_t  # shape (trans_batch, 1)
+        if self.current_behavior == 'constant':
+            current_slope = np.atleast_2d(0.0)
+        else:  # The slope has no effect if no time has passed
+            current_slope = (current_kp1 - current_k) / np.where(delta_t == 0, np.inf, delta_t)  # (trans_batch, 1)
 
         # We will assume that all health parameters remain constant between time
         # steps, independent of temperature or SOC variations. The value used
-- 
2.43.0


From f34df6cf4e1394a3e37bcee9d822b87c7349a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 08/39] fix: ramp the current through RC elements from its
 value at the start of a step

---
 moirae/models/ecm/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 53903eb..445ccae 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -92,7 +92,8 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            start_current = current_kp1 if self.current_behavior == 'constant' else current_k  # shape (trans_batch, 1)
+            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (start_current - (current_slope * tau)))  # (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From 28c0acf00f8a2cc4a0a4a70fa191c268e01e3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 09/39] fix: use the direction of a current which ramps up from
 rest

---
 moirae/models/ecm/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 445ccae..e8b8fbc 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -59,8 +59,13 @@ class EquivalentCircuitModel(CellModel):
         # steps, independent of temperature or SOC variations. The value used
         # will be the one at the previous SOC and temperature values.
 
+        # Whether we are charging or discharging is set by the starting current, or where it ramps to if starting at rest
+        direction = np.sign(current_k)  # shape (current_batch, 1)
+        if self.current_behavior != 'constant':
+            direction = np.where(direction == 0, np.sign(current_kp1), direction)
+
         # Set Coulombic efficiency to 1. if discharging
-        coul_eff = np.atleast_2d(1) if current_k < 0 else asoh.ce  # shape (ce_batch, 1)
+        coul_eff = np.atleast_2d(1) if direction < 0 else asoh.ce  # shape (ce_batch, 1)
 
         # Update SOC
         soc_k = transient_state.soc.copy()  # shape (soc_batch, 1)
@@ -102,10 +107,8 @@ class EquivalentCircuitModel(CellModel):
         M = asoh.h0.get_value(soc=soc_k)  # shape (h0_batch, soc_batch, 1)
         # Recall that, if charging, than M has to be >0, but, if dischargin, it
         # has to be <0. The easiest way to check for that is to multiply by the
-        # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
+        # sign of the current
+        M = M * direction  # shape (h0_batch, trans_batch, 1)
 
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-- 
2.43.0


From 53ebcf9838965ce7ce9c690f9fd81a8107883ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 10/39] fix: accept batches of inputs when updating the
 transient state

---
 moirae/models/ecm/__init__.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index e8b8fbc..ef97048 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -65,7 +65,7 @@ class EquivalentCircuitModel(CellModel):
             direction = np.where(direction == 0, np.sign(current_kp1), direction)
 
         # Set Coulombic efficiency to 1. if discharging
-        coul_eff = np.atleast_2d(1) if direction < 0 else asoh.ce  # shape (ce_batch, 1)
+        coul_eff = np.where(direction < 0, 1., asoh.ce)  # shape (trans_batch, 1)
 
         # Update SOC
         soc_k = transient_state.soc.copy()  # shape (soc_batch, 1)
@@ -114,29 +114,26 @@ class EquivalentCircuitModel(CellModel):
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
         # We need to figure out if the current changes sign during this process
 
-        if current_k * current_kp1 >= 0 or self.current_behavior == 'constant':
-            hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
-                                                    M=M,
-                                                    kappa=kappa,
-                                                    dt=delta_t,
-                                                    i0=current_k,
-                                                    alpha=current_slope)  # shape (h0_batch, trans_batch, 1)
-        # If the current flips sign, we need to deal with two intervals
+        if self.current_behavior == 'constant':
+            flips = np.atleast_2d(False)
         else:
-            # solving for time until current == 0
-            phi = -current_k / current_slope
-            h_mid = hysteresis_solver_const_sign(h0=transient_state.hyst,
-                                                 M=M,
-                                                 kappa=kappa,
-                                                 dt=phi,
-                                                 i0=current_k,
-                                                 alpha=current_slope)
+            flips = current_k * current_kp1 < 0  # shape (current_batch, 1)
+        # If it does, the first interval ends when current == 0. Otherwise, it spans the whole step
+        phi = np.where(flips, -current_k / np.where(flips, current_slope, 1.), delta_t)  # shape (trans_batch, 1)
+        hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
+                                                M=M,
+                                                kappa=kappa,
+                                                dt=phi,
+                                                i0=current_k,
+                                                alpha=current_slope)  # shape (h0_batch, trans_batch, 1)
+        # If the current flips sign, we need to deal with a second interval
+        if np.any(flips):
             # Use this new value to update for the next interval. Remember to:
             # 1. use the new hysteresis value
             # 2. flip the sign of maximum hysteresis to follow current
             # 3. use the remaining time interval of delta_t - phi
             # 4. use the starting current of 0.0
-            hyst_kp1 = hysteresis_solver_const_sign(h0=h_mid,
+            hyst_kp1 = hysteresis_solver_const_sign(h0=hyst_kp1,
                                                     M=-M,
                                                     kappa=kappa,
                                                     dt=(delta_t - phi),
-- 
2.43.0


From 9fc973eda46fbe405e218be76838b0a8da06f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 11/39] fix: allow RC elements of a circuit to have different
 batch sizes

---
 moirae/models/ecm/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index ef97048..04d6743 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -82,8 +82,9 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            tau = np.array(np.broadcast_arrays(
+                *(RC.time_constant(soc=soc_k, temp=temp_k) for RC in asoh.rc_elements)
+            ))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -182,11 +183,11 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            rc_rs = np.array(np.broadcast_arrays(
+                *(rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements)
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From ce7387c3d744035cb84c17669620909f7246b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 12/39] fix: allow batching any of the fields of a circuit
 component

---
 moirae/models/ecm/components.py | 4 ++--
 moirae/models/ecm/utils.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..c2082f7 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,7 +61,7 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
         gamma = self.temperature_dependence_factor
         deltaT = np.array(temp) - self.reference_temperature
@@ -137,7 +137,7 @@ class OpenCircuitVoltage(HealthVariable):
         if temp is not None:
             T_ref = self.ocv_ref.reference_temperature
             delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
 
     def __call__(self,
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index abe8e27..c3722b6 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -70,7 +70,7 @@ class SOCInterpolatedHealth(HealthVariable):
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
             soc_dim = soc.shape[1]
-        internal_batch_size = self.batch_size
+        internal_batch_size = self.base_values.shape[0]  # Other fields may be batched separately
 
         # Special case: no interpolation
         if self.base_values.shape[-1] == 1:
-- 
2.43.0


From a1ef349635de3295df751cf2d6c2da6007776ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 13/39] fix: give each RC element in a default circuit its own
 parameters

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From cbd87a3669f5b5fbc9867052ff9a65867a897ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 14/39] fix: read SOC pinpoints from JSON

---
 moirae/models/ecm/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index c3722b6..d3d1340 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -2,7 +2,7 @@ from typing import List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import Field, field_serializer, field_validator
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
@@ -18,6 +18,12 @@ class SOCInterpolatedHealth(HealthVariable):
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
 
+    @field_validator('soc_pinpoints', mode='plain')
+    @classmethod
+    def _validate_pinpoints(cls, value):
+        # Not left to Pydantic, as it cannot produce an array from JSON
+        return None if value is None else np.array(value, dtype=float)
+
     @field_serializer('soc_pinpoints', when_used='json-unless-none')
     def _serialize_numpy(self, value: np.ndarray):
         return value.tolist()
-- 
2.43.0


From 93c7b0464964f021efc46801d36452e22f58da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 15/39] fix: update parameters which are already batched

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..5bf8b63 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,7 +395,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = np.shape(cur_value)[-1]  # First dimension is the batch
 
             # Get the parameters to use
             end = pos + num_params
-- 
2.43.0


From ab1ba4c67a71da36a3a04247ae8c96fea20eb406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 16/39] fix: do not share memory between containers and the
 arrays used to fill them

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5bf8b63..95366a1 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -532,7 +532,7 @@ class GeneralContainer(BaseModel,
             field_len = current_field.shape[-1]
 
             end_index = begin_index + field_len
-            new_field_values = values[:, begin_index:end_index]
+            new_field_values = values[:, begin_index:end_index].copy()  # Do not share memory with the caller
             setattr(self, field_name, new_field_values)
             begin_index = end_index
 
-- 
2.43.0


From c7b60d7578944d9955df83eb5ee9bbc197955230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 17/39] fix: keep capacity as an array when it is set in
 Amp-seconds

---
 moirae/models/ecm/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index c2082f7..f4be678 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -4,7 +4,7 @@ from typing import List, Optional, Union
 from pydantic import Field
 import numpy as np
 
-from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
+from moirae.models.base import HealthVariable, ListParameter, ScalarParameter, enforce_dimensions
 from .utils import SOCInterpolatedHealth
 
 
@@ -25,7 +25,7 @@ class MaxTheoreticalCapacity(HealthVariable):
         """
         Sets the capacity based on specified value in Amp-seconds
         """
-        self.base_values = amp_seconds / 3600.
+        self.base_values = enforce_dimensions(amp_seconds, 0) / 3600.
 
     @property
     def amp_hour(self) -> float:
-- 
2.43.0


From 714d583d87fa98b3d911deb2c8ee2523500a3aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 18/39] fix: make an estimate for every row of a dataset,
 starting from the inputs of the first

---
 moirae/estimators/online/__init__.py |   9 ++
 moirae/estimators/online/dual.py     |   5 +
 moirae/estimators/online/joint.py    |   4 +
 moirae/interface/__init__.py         |   9 +-
 moirae/models/thevenin/__init__.py   | 228 ++++++++++++++-------------
 5 files changed, 140 insertions(+), 115 deletions(-)

diff --git a/moirae/estimators/online/__init__.py b/moirae/estimators/online/__init__.py
index c80fc59..46ede8e 100644
--- a/moirae/estimators/online/__init__.py
+++ b/moirae/estimators/online/__init__.py
@@ -86,6 +86,15 @@ class OnlineEstimator:
         """Multivariate probability distribution for all state variables"""
         raise NotImplementedError()
 
+    def set_previous_inputs(self, inputs: InputQuantities) -> None:
+        """
+        Set the inputs which are assumed to precede the next step
+
+        Args:
+            inputs: control variables
+        """
+        self._inputs = inputs.model_copy(deep=True)
+
     @abstractmethod
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         """
diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 8cf8e69..f524afc 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -92,6 +92,11 @@ class DualEstimator(OnlineEstimator):
         transient_converted, asoh_converted = self._get_converted_states()
         return transient_converted.combine_with((asoh_converted,))
 
+    def set_previous_inputs(self, inputs: InputQuantities) -> None:
+        for filter, wrapper in [(self.trans_filter, self.cell_wrapper), (self.asoh_filter, self.asoh_wrapper)]:
+            filter.controls = convert_vals_model_to_filter(inputs).convert(
+                conversion_operator=wrapper.control_conversion, inverse=True)
+
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5700e49..e2036e0 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -44,6 +44,10 @@ class JointEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
+    def set_previous_inputs(self, inputs: InputQuantities) -> None:
+        self.filter.controls = convert_vals_model_to_filter(inputs).convert(
+            conversion_operator=self.joint_model.control_conversion, inverse=True)
+
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
             hidden_states=np.atleast_2d(self.filter.hidden.get_mean()))
diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..8ddc59a 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -2,6 +2,7 @@
 with a particular emphasis on data built with
 `battery-data-toolkit <https://github.com/ROVI-org/battery-data-toolkit>`_"""
 from contextlib import nullcontext
+from itertools import chain
 from typing import Tuple, Union
 from math import isfinite
 from pathlib import Path
@@ -97,9 +98,11 @@ def run_online_estimate(
     else:
         raise ValueError(f'Unrecognized data type: {type(dataset)}')
 
-    # Update the initial inputs for the
-    initial_input, _ = row_to_inputs(next(row_iter))
-    estimator._u = initial_input
+    # Start from the inputs of the first row, which is also the first row for which we make an estimate
+    first_row = next(row_iter)
+    initial_input, _ = row_to_inputs(first_row)
+    estimator.set_previous_inputs(initial_input)
+    row_iter = chain([first_row], row_iter)
 
     # Initialize the output arrays
     if output_states:
diff --git a/moirae/models/thevenin/__init__.py b/moirae/models/thevenin/__init__.py
index 2caad10..7f49f48 100644
--- a/moirae/models/thevenin/__init__.py
+++ b/moirae/models/thevenin/__init__.py
@@ -1,112 +1,116 @@
-"""Interface to the `Thevenin package <https://github.com/ROVI-org/thevenin>`_"""
-import numpy as np
-from functools import partial
-from typing import Iterator
-
-from thevenin import Model, Experiment
-
-from ..base import CellModel, InputQuantities, OutputQuantities
-from .state import TheveninASOH, TheveninTransient
-from .ins_outs import TheveninInput
-
-
-class TheveninModel(CellModel):
-    """
-    Connection between Moirae and an ECM model implemented via `Thevenin <https://github.com/ROVI-org/thevenin>`_.
-
-    Args:
-        isothermal: Whether to treat the system as isothermal
-    """
-
-    def __init__(self, isothermal: bool = False):
-        self.isothermal = isothermal
-        # TODO (wardlt): Add a maximum timestep size? Victor was using that to avoid the issues with the integrator
-
-    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput) -> Iterator[Model]:
-        """
-        Generate a model for each member of the batch of experimental conditions
-
-        Args:
-            transient: Batch of transient states
-            asoh: Batch of health variables
-
-        Yields:
-            A model for each member of the batch
-        """
-
-        for b in range(max(transient.batch_size, asoh.batch_size, inputs.batch_size)):
-            # The value of each member of the transient or ASOH is a 2D array with the first dimension either 1
-            #  or batch_size. The % signs below are a short syntax for either using the same value for all batches
-            #  (anything mod 1 is 0) or the appropriate member of the batch
-            params = {'num_RC_pairs': asoh.num_rc_elements, 'isothermal': self.isothermal}
-            for scalar, value in [
-                ('soc0', transient.soc), ('capacity', asoh.capacity), ('mass', asoh.mass), ('Cp', asoh.c_p),
-                ('T_inf', inputs.t_inf), ('h_therm', asoh.h_thermal), ('A_therm', asoh.a_therm)
-            ]:
-                params[scalar] = value[b % value.shape[0], 0]
-
-            # Add the SOC and series resistors as functions where we pin the batch ID to the appropriate value
-            params['ocv'] = partial(asoh.ocv, batch_id=b)
-            params['R0'] = partial(asoh.r[0], batch_id=b)
-
-            # Append the RC elements
-            for r in range(params['num_RC_pairs']):
-                params[f'R{r + 1}'] = partial(asoh.r[r + 1], batch_id=b)
-                params[f'C{r + 1}'] = partial(asoh.c[r], batch_id=b)
-
-            # Make the model
-            model = Model(params=params)
-
-            # Update the state of the RC elements
-            #  TODO (wardlt): Working with Corey on an official route for setting these SVs.
-            #   This is his current recommendation
-            if params['num_RC_pairs'] > 0:
-                model._sv0[model._ptr['eta_j']] = transient.eta[b % transient.eta.shape[0]]
-
-            yield model
-
-    def update_transient_state(
-            self,
-            previous_inputs: TheveninInput,
-            new_inputs: TheveninInput,
-            transient_state: TheveninTransient,
-            asoh: TheveninASOH
-    ) -> TheveninTransient:
-        # Initialize the array in which to store output values
-        batch_size = max(transient_state.batch_size, asoh.batch_size, new_inputs.batch_size)
-        output_array = np.zeros((batch_size, len(transient_state)))
-
-        # Iterate over models representing each member of the batch
-        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs)):
-            # Propagate the system under a constant current load
-            # TODO (wardlt): Make current time-dependent, which is possible by passing a function to add_step
-            exp = Experiment()
-            cur_time = new_inputs.time[model_i % new_inputs.time.shape[0], 0]
-            pre_time = previous_inputs.time[model_i % previous_inputs.time.shape[0], 0]
-            exp.add_step('current_A',
-                         -new_inputs.current[model_i % new_inputs.current.shape[0]],  # Sign convention is opposite
-                         (cur_time - pre_time, 2))
-            sln = model.run(exp)
-
-            # Fill in the state variables
-            output_array[model_i, 0] = sln.vars['soc'][-1]
-            output_array[model_i, 1] = sln.vars['temperature_K'][-1]
-            for rc_i in range(asoh.num_rc_elements):
-                output_array[model_i, 2 + rc_i] = sln.vars[f'eta{rc_i + 1}_V'][-1]
-
-        return transient_state.make_copy(output_array)
-
-    def calculate_terminal_voltage(
-            self,
-            new_inputs: InputQuantities,
-            transient_state: TheveninTransient,
-            asoh: TheveninASOH) -> OutputQuantities:
-        # Thevenin stores overpotentials, so it is easy enough to compute terminal voltage directly from states and ASOH
-        #  See last eq of https://rovi-org.github.io/thevenin/user_guide/model_description.html
-        v = (
-                asoh.ocv(transient_state.soc[:, 0])
-                # Sign convention is opposite of thevenin
-                + new_inputs.current[:, 0] * asoh.r[0](transient_state.soc[:, 0], transient_state.temp[:, 0])
-                - transient_state.eta.sum(axis=1)
-        )
-        return OutputQuantities(terminal_voltage=v)
+"""Interface to the `Thevenin package <https://github.com/ROVI-org/thevenin>`_"""
+import numpy as np
+from functools import partial
+from typing import Iterator
+
+from thevenin import Model, Experiment
+
+from ..base import CellModel, InputQuantities, OutputQuantities
+from .state import TheveninASOH, TheveninTransient
+from .ins_outs import TheveninInput
+
+
+class TheveninModel(CellModel):
+    """
+    Connection between Moirae and an ECM model implemented via `Thevenin <https://github.com/ROVI-org/thevenin>`_.
+
+    Args:
+        isothermal: Whether to treat the system as isothermal
+    """
+
+    def __init__(self, isothermal: bool = False):
+        self.isothermal = isothermal
+        # TODO (wardlt): Add a maximum timestep size? Victor was using that to avoid the issues with the integrator
+
+    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput) -> Iterator[Model]:
+        """
+        Generate a model for each member of the batch of experimental conditions
+
+        Args:
+            transient: Batch of transient states
+            asoh: Batch of health variables
+
+        Yields:
+            A model for each member of the batch
+        """
+
+        for b in range(max(transient.batch_size, asoh.batch_size, inputs.batch_size)):
+            # The value of each member of the transient or ASOH is a 2D array with the first dimension either 1
+            #  or batch_size. The % signs below are a short syntax for either using the same value for all batches
+            #  (anything mod 1 is 0) or the appropriate member of the batch
+            params = {'num_RC_pairs': asoh.num_rc_elements, 'isothermal': self.isothermal}
+            for scalar, value in [
+                ('soc0', transient.soc), ('capacity', asoh.capacity), ('mass', asoh.mass), ('Cp', asoh.c_p),
+                ('T_inf', inputs.t_inf), ('h_therm', asoh.h_thermal), ('A_therm', asoh.a_therm)
+            ]:
+                params[scalar] = value[b % value.shape[0], 0]
+
+            # Add the SOC and series resistors as functions where we pin the batch ID to the appropriate value
+            params['ocv'] = partial(asoh.ocv, batch_id=b)
+            params['R0'] = partial(asoh.r[0], batch_id=b)
+
+            # Append the RC elements
+            for r in range(params['num_RC_pairs']):
+                params[f'R{r + 1}'] = partial(asoh.r[r + 1], batch_id=b)
+                params[f'C{r + 1}'] = partial(asoh.c[r], batch_id=b)
+
+            # Make the model
+            model = Model(params=params)
+
+            # Update the state of the RC elements
+            #  TODO (wardlt): Working with Corey on an official route for setting these SVs.
+            #   This is his current recommendation
+            if params['num_RC_pairs'] > 0:
+                model._sv0[model._ptr['eta_j']] = transient.eta[b % transient.eta.shape[0]]
+
+            yield model
+
+    def update_transient_state(
+            self,
+            previous_inputs: TheveninInput,
+            new_inputs: TheveninInput,
+            transient_state: TheveninTransient,
+            asoh: TheveninASOH
+    ) -> TheveninTransient:
+        # Initialize the array in which to store output values
+        batch_size = max(transient_state.batch_size, asoh.batch_size, new_inputs.batch_size)
+        output_array = np.zeros((batch_size, len(transient_state)))
+
+        # Iterate over models representing each member of the batch
+        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs)):
+            # Propagate the system under a constant current load
+            # TODO (wardlt): Make current time-dependent, which is possible by passing a function to add_step
+            cur_time = new_inputs.time[model_i % new_inputs.time.shape[0], 0]
+            pre_time = previous_inputs.time[model_i % previous_inputs.time.shape[0], 0]
+            if cur_time == pre_time:  # There is nothing to integrate
+                states = transient_state.to_numpy()
+                output_array[model_i, :] = states[model_i % states.shape[0], :]
+                continue
+            exp = Experiment()
+            exp.add_step('current_A',
+                         -new_inputs.current[model_i % new_inputs.current.shape[0]],  # Sign convention is opposite
+                         (cur_time - pre_time, 2))
+            sln = model.run(exp)
+
+            # Fill in the state variables
+            output_array[model_i, 0] = sln.vars['soc'][-1]
+            output_array[model_i, 1] = sln.vars['temperature_K'][-1]
+            for rc_i in range(asoh.num_rc_elements):
+                output_array[model_i, 2 + rc_i] = sln.vars[f'eta{rc_i + 1}_V'][-1]
+
+        return transient_state.make_copy(output_array)
+
+    def calculate_terminal_voltage(
+            self,
+            new_inputs: InputQuantities,
+            transient_state: TheveninTransient,
+            asoh: TheveninASOH) -> OutputQuantities:
+        # Thevenin stores overpotentials, so it is easy enough to compute terminal voltage directly from states and ASOH
+        #  See last eq of https://rovi-org.github.io/thevenin/user_guide/model_description.html
+        v = (
+                asoh.ocv(transient_state.soc[:, 0])
+                # Sign convention is opposite of thevenin
+                + new_inputs.current[:, 0] * asoh.r[0](transient_state.soc[:, 0], transient_state.temp[:, 0])
+                - transient_state.eta.sum(axis=1)
+        )
+        return OutputQuantities(terminal_voltage=v)
-- 
2.43.0


From 4cf051aefe2dd357b7d0441467b42aad19bfec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 19/39] fix: report standard deviations in the "_std" columns

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 8ddc59a..0edfaf8 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -133,9 +133,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From 8dbc57c2b01f282abc5bbb9a5751ff3a91302399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 20/39] fix: write estimates for datasets without cycle numbers

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 0edfaf8..d8a0b6a 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -83,7 +83,7 @@ def run_online_estimate(
             raise ValueError('No time series data in the provided dataset')
 
         num_rows = dataset.raw_data.shape[0]
-        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 0
+        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 1
 
         def _row_iter(d):
             for _, r in d.iterrows():
@@ -139,7 +139,7 @@ def run_online_estimate(
 
             # Store estimates
             if hdf5_output is not None:
-                h5_writer.append_step(row['test_time'], row['cycle_number'], new_state, new_outputs)
+                h5_writer.append_step(row['test_time'], row.get('cycle_number', 0), new_state, new_outputs)
 
     # Compile the outputs into a dataframe
     output = None
-- 
2.43.0


From 82bf0071f39b978fd8621ffefd499b5de1938751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 21/39] fix: score batches of parameters with the mean squared
 loss

---
 moirae/estimators/offline/loss.py | 214 +++++++++++++++---------------
 1 file changed, 107 insertions(+), 107 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..c39d9c8 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
-- 
2.43.0


From 6c2f4d01e71a8764e3cf03be4fc142fcead93cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 22/39] fix: expand storage enough to hold a cycle far after
 the previous one

---
 moirae/interface/hdf5.py | 589 ++++++++++++++++++++-------------------
 1 file changed, 295 insertions(+), 294 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..e83c694 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,295 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by as many chunks as necessary
+                if my_dataset.shape[0] <= ind:
+                    num_chunks = 1 + (ind - my_dataset.shape[0]) // my_dataset.chunks[0]
+                    my_dataset.resize(my_dataset.shape[0] + num_chunks * my_dataset.chunks[0], axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks the end of the data
+                return
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From 3e0cc5b2db738147d4a0fd4cdf8ec2cd5096148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 23/39] fix: read estimates from cycles after one without data

---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index e83c694..b8e2b17 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -281,8 +281,8 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
             return values
 
         for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
+            if np.isnan(time):  # NaN marks rows without data, such as cycles which are not in the dataset
+                continue
             # Unpack the dists
             state_values = _unpack(i, 'state_')
             state_dist = dist_type(**state_values)
-- 
2.43.0


From e4dc4ff02b5bc6f24304647007046612a7435b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 24/39] fix: do not expose estimates which were only partially
 written

---
 moirae/interface/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index b8e2b17..21cbff7 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -197,10 +197,10 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
                 continue
 
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            # Determine what to write. The time marks that a row holds data, so it must be last
+            to_insert = _convert_state_to_numpy_dict(state, what, 'state')
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+            to_insert['time'] = np.array(time)
 
             # Write it
             for key, value in to_insert.items():
-- 
2.43.0


From 1367aab0a35230c321610830dfa188d0e0e362b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 25/39] fix: close files which lack state estimates

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 21cbff7..5af16d8 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -242,7 +242,7 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
         file = h5py.File(data_path, mode='r')
         try:
             se_group = file['state_estimates']
-        except ValueError:
+        except (KeyError, ValueError):
             file.close()
             raise
     else:
-- 
2.43.0


From bc841e022b218e7b8229801541ece4d12966a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 26/39] fix: isolate model wrappers from later changes to the
 objects used to build them

---
 moirae/estimators/online/utils/model.py | 809 ++++++++++++------------
 1 file changed, 405 insertions(+), 404 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..b66709d 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -1,404 +1,405 @@
-"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
-widely-used Python types, such as Numpy Arrays."""
-import numpy as np
-from typing import Tuple, Optional, Union
-
-from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
-from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
-from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
-from moirae.models.utils import NoDegradation
-
-
-def convert_vals_model_to_filter(
-        model_quantities: GeneralContainer,
-        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
-    """
-    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
-    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
-    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
-
-    Args:
-        model_quantities: model-related object to be converted into filter-related object
-        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
-
-    Returns:
-        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
-    """
-    if uncertainty_matrix is None:
-        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
-    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
-
-
-class BaseCellWrapper(ModelWrapper):
-    """
-    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
-    the filter implementations.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    cell_model: CellModel
-    """Cell model underpinning the update functions"""
-    asoh: HealthVariable
-    """ASOH values passed to each call of the cell model"""
-    transients: GeneralContainer
-    """Transient states used for the inputs of the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
-
-        # Give converters to parent class
-        super().__init__(**converters)
-
-        # Store the ASOH and transient state, making sure they are not batched
-        if asoh.batch_size > 1:
-            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
-        if transients.batch_size > 1:
-            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
-
-        self.transients = transients
-        self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
-
-        # Capture the shape of the outputs
-        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-                                                                                 transient_state=self.transients,
-                                                                                 asoh=self.asoh).to_numpy().shape[1]
-
-    @property
-    def num_output_dimensions(self) -> int:
-        return self._num_output_dimensions
-
-
-class CellModelWrapper(BaseCellWrapper):
-    """
-    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
-    """
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        self.num_transients = transients.to_numpy().shape[1]
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        # Update transients
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=transients,
-                                                                asoh=self.asoh)
-
-        # Convert back to filter language
-        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
-
-        return new_transients
-
-    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
-        from it
-        """
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Get output
-        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                                  transient_state=transients,
-                                                                  asoh=self.asoh)
-
-        # Convert back to filter lingo
-        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
-
-        return measurements
-
-
-class DegradationModelWrapper(BaseCellWrapper):
-    """
-    Link between A-SOH degradation models and the numpy-only interface of the
-    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
-    frameworks
-
-    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
-    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
-        self._previous_inputs = inputs.model_copy(deep=True)
-        # Store degradation model
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_asoh
-
-    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
-        """
-        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
-        """
-        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
-                                   names=self.asoh_inputs)
-        return asoh
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
-        previous and new controls. If the degradation model needs information for further in the past, it is responsible
-        for keeping track of that. The degration model will also be provided the current estimate of the transient
-        vector.
-        """
-        # Remember that, during this step, we should also store the previous controls so that the transient vector can
-        # be propagated through the hidden states in the predict measurement step
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        self._previous_inputs = previous_inputs
-
-        # Convert to A-SOH object
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-        # Convert new controls
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-        # Compute measurements
-        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
-                                                                      transient_state=self.transients,
-                                                                      asoh=asoh)
-        # Degrade A-SOH
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
-                                              new_inputs=new_inputs,
-                                              new_transients=self.transients,
-                                              new_measurements=new_measurements)
-
-        return self.hidden_conversion.inverse_transform_samples(
-            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
-        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
-        """
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Do the same for the A-SOH
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-
-        # Now, propagate the transients through the A-SOH
-        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
-                                                                       new_inputs=inputs,
-                                                                       transient_state=self.transients,
-                                                                       asoh=asoh)
-
-        # Finally, compute outputs
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=propagated_transients,
-                                                             asoh=asoh)
-
-        # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
-
-
-class JointCellModelWrapper(BaseCellWrapper):
-    """Interface used when the hidden state used by a filter includes the transient states.
-
-    Create the interface by defining
-        - Which portions of the ASOH are used as inputs to function
-        - Values for the ASOH parameters that remain fixed
-        - An example transient state and input to be passed to the function which will be used as a template
-
-    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients + self.num_asoh
-
-    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
-        """Transform the state of health and transients states (quantities used by CellModel)
-        into the "hidden state" vector used by the actual filter
-
-        Args:
-            asoh: Values of the ASOH parameter
-            transients: Values of the transient states
-        Returns:
-            A hidden state vector ready for use in a filter
-        """
-
-        # Get raw values
-        trans_raw = transients.to_numpy()
-        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
-
-        # Concatenate
-        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
-
-        # Convert to filter
-        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
-
-        return joint
-
-    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
-        """Convert the hidden states into the forms used by CellModel
-
-        Args:
-            hidden_states: Hidden states as used by the estimator
-        Returns:
-            - ASOH with values from the hidden states
-            - Transients state from the hidden states
-        """
-
-        # Get raw values
-        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
-
-        # Update any parameters for the transient state
-        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
-
-        # Update the ASOH accordingly
-        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
-
-        return my_asoh, my_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Transmute the controls and hidden state into the form required for the CellModel
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-
-        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
-        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=my_transients,
-                                                                asoh=my_asoh)
-
-        # Let's also degrade the A-SOH
-        # We need the measurement
-        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
-                                                                     transient_state=my_transients,
-                                                                     asoh=my_asoh)
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
-                                              new_inputs=previous_inputs,
-                                              new_transients=my_transients,
-                                              new_measurements=new_measurement)
-
-        # Convert this back to filter lingo
-        output[:, :self.num_transients] = new_transients.to_numpy()
-        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
-        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
-        return output
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Now, iterate through hidden states to compute terminal voltage
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=my_transients,
-                                                             asoh=my_asoh)
-        # Convert to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
+"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
+widely-used Python types, such as Numpy Arrays."""
+import numpy as np
+from typing import Tuple, Optional, Union
+
+from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
+from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
+from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
+from moirae.models.utils import NoDegradation
+
+
+def convert_vals_model_to_filter(
+        model_quantities: GeneralContainer,
+        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
+    """
+    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
+    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
+    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
+
+    Args:
+        model_quantities: model-related object to be converted into filter-related object
+        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
+
+    Returns:
+        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
+    """
+    if uncertainty_matrix is None:
+        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
+    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
+
+
+class BaseCellWrapper(ModelWrapper):
+    """
+    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
+    the filter implementations.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    cell_model: CellModel
+    """Cell model underpinning the update functions"""
+    asoh: HealthVariable
+    """ASOH values passed to each call of the cell model"""
+    transients: GeneralContainer
+    """Transient states used for the inputs of the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
+
+        # Give converters to parent class
+        super().__init__(**converters)
+
+        # Store the ASOH and transient state, making sure they are not batched
+        if asoh.batch_size > 1:
+            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
+        if transients.batch_size > 1:
+            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
+
+        # Keep copies so that later changes to the originals do not alter the model
+        self.transients = transients.model_copy(deep=True)
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
+
+        # Capture the shape of the outputs
+        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
+                                                                                 transient_state=self.transients,
+                                                                                 asoh=self.asoh).to_numpy().shape[1]
+
+    @property
+    def num_output_dimensions(self) -> int:
+        return self._num_output_dimensions
+
+
+class CellModelWrapper(BaseCellWrapper):
+    """
+    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
+    """
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        self.num_transients = transients.to_numpy().shape[1]
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        # Update transients
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=transients,
+                                                                asoh=self.asoh)
+
+        # Convert back to filter language
+        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
+
+        return new_transients
+
+    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
+        from it
+        """
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Get output
+        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                                  transient_state=transients,
+                                                                  asoh=self.asoh)
+
+        # Convert back to filter lingo
+        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
+
+        return measurements
+
+
+class DegradationModelWrapper(BaseCellWrapper):
+    """
+    Link between A-SOH degradation models and the numpy-only interface of the
+    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
+    frameworks
+
+    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
+    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
+        self._previous_inputs = inputs.model_copy(deep=True)
+        # Store degradation model
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_asoh
+
+    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
+        """
+        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
+        """
+        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
+                                   names=self.asoh_inputs)
+        return asoh
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
+        previous and new controls. If the degradation model needs information for further in the past, it is responsible
+        for keeping track of that. The degration model will also be provided the current estimate of the transient
+        vector.
+        """
+        # Remember that, during this step, we should also store the previous controls so that the transient vector can
+        # be propagated through the hidden states in the predict measurement step
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        self._previous_inputs = previous_inputs
+
+        # Convert to A-SOH object
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+        # Convert new controls
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+        # Compute measurements
+        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
+                                                                      transient_state=self.transients,
+                                                                      asoh=asoh)
+        # Degrade A-SOH
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
+                                              new_inputs=new_inputs,
+                                              new_transients=self.transients,
+                                              new_measurements=new_measurements)
+
+        return self.hidden_conversion.inverse_transform_samples(
+            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
+        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
+        """
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Do the same for the A-SOH
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+
+        # Now, propagate the transients through the A-SOH
+        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
+                                                                       new_inputs=inputs,
+                                                                       transient_state=self.transients,
+                                                                       asoh=asoh)
+
+        # Finally, compute outputs
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=propagated_transients,
+                                                             asoh=asoh)
+
+        # Convert outpus to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
+
+
+class JointCellModelWrapper(BaseCellWrapper):
+    """Interface used when the hidden state used by a filter includes the transient states.
+
+    Create the interface by defining
+        - Which portions of the ASOH are used as inputs to function
+        - Values for the ASOH parameters that remain fixed
+        - An example transient state and input to be passed to the function which will be used as a template
+
+    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients + self.num_asoh
+
+    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
+        """Transform the state of health and transients states (quantities used by CellModel)
+        into the "hidden state" vector used by the actual filter
+
+        Args:
+            asoh: Values of the ASOH parameter
+            transients: Values of the transient states
+        Returns:
+            A hidden state vector ready for use in a filter
+        """
+
+        # Get raw values
+        trans_raw = transients.to_numpy()
+        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
+
+        # Concatenate
+        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
+
+        # Convert to filter
+        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
+
+        return joint
+
+    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
+        """Convert the hidden states into the forms used by CellModel
+
+        Args:
+            hidden_states: Hidden states as used by the estimator
+        Returns:
+            - ASOH with values from the hidden states
+            - Transients state from the hidden states
+        """
+
+        # Get raw values
+        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
+
+        # Update any parameters for the transient state
+        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
+
+        # Update the ASOH accordingly
+        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
+
+        return my_asoh, my_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Transmute the controls and hidden state into the form required for the CellModel
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+
+        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
+        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=my_transients,
+                                                                asoh=my_asoh)
+
+        # Let's also degrade the A-SOH
+        # We need the measurement
+        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
+                                                                     transient_state=my_transients,
+                                                                     asoh=my_asoh)
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
+                                              new_inputs=previous_inputs,
+                                              new_transients=my_transients,
+                                              new_measurements=new_measurement)
+
+        # Convert this back to filter lingo
+        output[:, :self.num_transients] = new_transients.to_numpy()
+        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
+        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
+        return output
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Now, iterate through hidden states to compute terminal voltage
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=my_transients,
+                                                             asoh=my_asoh)
+        # Convert to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
-- 
2.43.0


From 7c1c97812a2adb972fb4c0500f3746c606cb3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 27/39] fix: allow steps of no duration in which a linear
 current changes sign

---
 moirae/models/ecm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 04d6743..25fb935 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -118,7 +118,7 @@ class EquivalentCircuitModel(CellModel):
         if self.current_behavior == 'constant':
             flips = np.atleast_2d(False)
         else:
-            flips = current_k * current_kp1 < 0  # shape (current_batch, 1)
+            flips = (current_k * current_kp1 < 0) & (delta_t != 0)  # shape (trans_batch, 1)
         # If it does, the first interval ends when current == 0. Otherwise, it spans the whole step
         phi = np.where(flips, -current_k / np.where(flips, current_slope, 1.), delta_t)  # shape (trans_batch, 1)
         hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
-- 
2.43.0


From 6a1856a98a58712f26d63ced5a593e32545ecfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 28/39] fix: compute energies of circuits with a batch of
 reference temperatures

---
 moirae/models/ecm/advancedSOH.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 4932aad..dc6798e 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -47,7 +47,10 @@ class ECMASOH(HealthVariable):
         # Get SOC values to be used in the integration
         soc_vals = np.linspace(min(soc_limits), max(soc_limits), 100)
         # Get corresponding OCV
-        ocv_vals = self.ocv(soc=soc_vals, temp=temperature)  # shape (ocv_batch, 1, soc_dim)
+        ocv_vals = self.ocv(soc=soc_vals, temp=temperature)  # shape (ocv_batch, temp_ref_batch or 1, soc_dim)
+        if ocv_vals.shape[1] > 1:  # Use the reference temperature of each member
+            members = np.arange(ocv_vals.shape[1])
+            ocv_vals = ocv_vals[members % ocv_vals.shape[0], members][:, None, :]  # shape (ocv_batch, 1, soc_dim)
         # Integrate
         energy = trapezoid(y=ocv_vals, x=soc_vals, axis=-1)  # integrate over the last axis, corresponding to soc_dim
         # Now, multiply by the charge
-- 
2.43.0


From dca7cc4620c9e21a3f4ba3ceb5042015abb83445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 29/39] fix: accept batches of hysteresis approach rates

---
 moirae/models/ecm/components.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index f4be678..42d2123 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -1,7 +1,7 @@
 """Models for the components of circuits"""
 from typing import List, Optional, Union
 
-from pydantic import Field
+from pydantic import Field, field_validator
 import numpy as np
 
 from moirae.models.base import HealthVariable, ListParameter, ScalarParameter, enforce_dimensions
@@ -155,5 +155,11 @@ class HysteresisParameters(SOCInterpolatedHealth):
         Field(
             description='Values of maximum hysteresis at specified SOCs. Units: V')
     gamma: ScalarParameter = Field(default=0.,
-                                   description='Exponential approach rate. Units: 1/V',
-                                   ge=0.)
+                                   description='Exponential approach rate. Units: 1/V')
+
+    @field_validator('gamma', mode='after')
+    @classmethod
+    def _check_gamma(cls, value: np.ndarray) -> np.ndarray:
+        if np.any(value < 0):  # Each member of a batch must be valid
+            raise ValueError('The approach rate must be greater than or equal to 0')
+        return value
-- 
2.43.0


From a6966cd001ce69eb07bd21a43a3a9e614ecea6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 30/39] fix: export every member if only the inputs are batched

---
 moirae/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index 61e5044..db4bb21 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -151,7 +151,8 @@ class Simulator:
         if not self.keep_history:
             raise ValueError('History was not stored. Set keep_history=True')
 
-        batch_size = self.measurement.batch_size
+        # Any of the inputs, states, or outputs at any time could be the one which is batched
+        batch_size = max(x.batch_size for x in self.input_history + self.transient_history + self.measurement_history)
 
         def _squish(params: List[GeneralContainer]) -> pd.DataFrame:
             values = np.concatenate([
-- 
2.43.0


From cb3f0a76360290252d402343afb484f745d58a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 31/39] fix: keep the mean and covariance of a Gaussian when an
 assignment is refused

---
 moirae/estimators/online/filters/distributions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 9238b00..4459964 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -5,7 +5,7 @@ from typing_extensions import Self
 
 import numpy as np
 from scipy.linalg import block_diag
-from pydantic import Field, field_validator, model_validator, BaseModel
+from pydantic import Field, ValidationInfo, field_validator, model_validator, BaseModel
 
 from .conversions import ConversionOperator
 
@@ -125,7 +125,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
 
     @field_validator('mean', mode='after')
     @classmethod
-    def mean_1d(cls, mu: np.ndarray) -> np.ndarray:
+    def mean_1d(cls, mu: np.ndarray, info: ValidationInfo) -> np.ndarray:
         """ Making sure the mean is a vector """
         mean_shape = mu.shape
         if not mean_shape:
@@ -136,15 +136,22 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
             msg = 'Provided mean has shape (%d, %d), please flatten to (%d,)' % \
                   (mean_shape + (max(mean_shape),))
             raise ValueError(msg)
+        # When assigning a new mean, it must match the covariance before it replaces the old one
+        if 'covariance' in info.data and info.data['covariance'].shape != (mu.size, mu.size):
+            raise ValueError('Wrong dimensions! Mean has shape ' + str(mean_shape) +
+                             ', but covariance has shape ' + str(info.data['covariance'].shape))
         return mu.flatten()
 
     @field_validator('covariance', mode='after')
     @classmethod
-    def cov_2d(cls, sigma: np.ndarray) -> np.ndarray:
+    def cov_2d(cls, sigma: np.ndarray, info: ValidationInfo) -> np.ndarray:
         """ Making sure the covariance is a 2D matrix """
         cov_shape = sigma.shape
         if len(cov_shape) != 2:
             raise ValueError('Covariance must be a 2D matrix, but shape provided was ' + str(cov_shape) + '!')
+        if 'mean' in info.data and cov_shape != (info.data['mean'].size,) * 2:
+            raise ValueError('Wrong dimensions! Mean has shape ' + str(info.data['mean'].shape) +
+                             ', but covariance has shape ' + str(cov_shape))
         return sigma
 
     @model_validator(mode='after')
-- 
2.43.0


From a4bf118a9968a203eea446965b01a8e1a75665bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 32/39] fix: combine Gaussians given as any iterable

---
 moirae/estimators/online/filters/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 4459964..bdbcf9c 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -171,6 +171,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
         return self.covariance.copy()
 
     def combine_with(self, random_dists: Iterable[Self]) -> Self:
+        random_dists = list(random_dists)  # Iterated over twice
         combined_mean = [self.get_mean(),]
         combined_mean += [gaussian.get_mean() for gaussian in random_dists]
         combined_cov = [self.get_covariance(),]
-- 
2.43.0


From 191b4afdc29a49c8be925e6c839d5021f6a929c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 33/39] fix: step dual estimators whose parameters do not
 affect the voltage

---
 moirae/estimators/online/utils/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index b66709d..9423cac 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -257,10 +257,13 @@ class DegradationModelWrapper(BaseCellWrapper):
         # Finally, compute outputs
         outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
                                                              transient_state=propagated_transients,
-                                                             asoh=asoh)
+                                                             asoh=asoh).to_numpy()
+
+        # The model returns a single output if none of the estimated parameters affects it
+        outputs = np.repeat(outputs, len(np.atleast_2d(hidden_states)) // len(outputs), axis=0)
 
         # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
         return outputs
 
 
-- 
2.43.0


From b3e33cba5a1ba0e1b7486dbc07cbb2d67286d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 34/39] fix: keep the metadata of existing estimates if writing
 over them is refused

---
 moirae/interface/hdf5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 5af16d8..d5a3f01 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -129,6 +129,11 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         if not self.resizable and (expected_steps is None or expected_cycles is None):
             raise ValueError('Expected sizes must be provided if not writing in resizable mode')
 
+        # Make sure there is nothing to be overwritten before changing anything
+        for where in ['per_timestep', 'per_cycle']:
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+
         # Put the metadata in the attributes of the group
         self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
         self._group_handle.attrs['state_names'] = estimator.state_names
@@ -156,8 +161,6 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
 
             # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
             my_group = self._group_handle.create_group(where)
             for key, value in to_insert.items():
                 if self.resizable:
-- 
2.43.0


From 22ffcbdb26791145636f327a65d105f8f9f522c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 35/39] fix: close the file if its group for estimates cannot
 be opened

---
 moirae/interface/hdf5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index d5a3f01..802fdad 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -88,9 +88,11 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
         else:
             root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
+        try:
+            self._group_handle = root.require_group(self.storage_key)
+        except Exception as e:
+            self.__exit__(type(e), e, e.__traceback__)  # Not called if entering fails
+            raise
         self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
         return self
 
-- 
2.43.0


From b839268ca32d192f89075ce082409ccaa14481f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 36/39] fix: refuse datasets in which the time series is empty
 when extracting an OCV

---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index f7678bd..bde56ef 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -74,7 +74,7 @@ class OCVExtractor(BaseExtractor):
 
     def check_data(self, data: CellDataset):
         # Check if there is a raw_data table
-        if 'raw_data' not in data.tables:
+        if data.tables.get('raw_data') is None:
             raise ValueError('`raw_data` table is required')
 
         # Compute the per-cycle capacity if unavailable
-- 
2.43.0


From 701cd15908d1dc4a4675be93c8f458fc7d2ca9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 37/39] fix: restore the line endings of the files changed by
 earlier fixes

---
 moirae/estimators/offline/loss.py       | 214 +++----
 moirae/estimators/online/utils/model.py | 816 ++++++++++++------------
 moirae/interface/hdf5.py                | 600 ++++++++---------
 moirae/models/thevenin/__init__.py      | 232 +++----
 4 files changed, 931 insertions(+), 931 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index c39d9c8..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 9423cac..2a5facc 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -1,408 +1,408 @@
-"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
-widely-used Python types, such as Numpy Arrays."""
-import numpy as np
-from typing import Tuple, Optional, Union
-
-from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
-from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
-from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
-from moirae.models.utils import NoDegradation
-
-
-def convert_vals_model_to_filter(
-        model_quantities: GeneralContainer,
-        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
-    """
-    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
-    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
-    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
-
-    Args:
-        model_quantities: model-related object to be converted into filter-related object
-        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
-
-    Returns:
-        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
-    """
-    if uncertainty_matrix is None:
-        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
-    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
-
-
-class BaseCellWrapper(ModelWrapper):
-    """
-    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
-    the filter implementations.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    cell_model: CellModel
-    """Cell model underpinning the update functions"""
-    asoh: HealthVariable
-    """ASOH values passed to each call of the cell model"""
-    transients: GeneralContainer
-    """Transient states used for the inputs of the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
-
-        # Give converters to parent class
-        super().__init__(**converters)
-
-        # Store the ASOH and transient state, making sure they are not batched
-        if asoh.batch_size > 1:
-            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
-        if transients.batch_size > 1:
-            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
-
-        # Keep copies so that later changes to the originals do not alter the model
-        self.transients = transients.model_copy(deep=True)
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.inputs = inputs.model_copy(deep=True)
-
-        # Capture the shape of the outputs
-        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-                                                                                 transient_state=self.transients,
-                                                                                 asoh=self.asoh).to_numpy().shape[1]
-
-    @property
-    def num_output_dimensions(self) -> int:
-        return self._num_output_dimensions
-
-
-class CellModelWrapper(BaseCellWrapper):
-    """
-    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
-    """
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        self.num_transients = transients.to_numpy().shape[1]
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        # Update transients
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=transients,
-                                                                asoh=self.asoh)
-
-        # Convert back to filter language
-        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
-
-        return new_transients
-
-    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
-        from it
-        """
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Get output
-        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                                  transient_state=transients,
-                                                                  asoh=self.asoh)
-
-        # Convert back to filter lingo
-        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
-
-        return measurements
-
-
-class DegradationModelWrapper(BaseCellWrapper):
-    """
-    Link between A-SOH degradation models and the numpy-only interface of the
-    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
-    frameworks
-
-    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
-    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
-        self._previous_inputs = inputs.model_copy(deep=True)
-        # Store degradation model
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_asoh
-
-    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
-        """
-        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
-        """
-        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
-                                   names=self.asoh_inputs)
-        return asoh
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
-        previous and new controls. If the degradation model needs information for further in the past, it is responsible
-        for keeping track of that. The degration model will also be provided the current estimate of the transient
-        vector.
-        """
-        # Remember that, during this step, we should also store the previous controls so that the transient vector can
-        # be propagated through the hidden states in the predict measurement step
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        self._previous_inputs = previous_inputs
-
-        # Convert to A-SOH object
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-        # Convert new controls
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-        # Compute measurements
-        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
-                                                                      transient_state=self.transients,
-                                                                      asoh=asoh)
-        # Degrade A-SOH
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
-                                              new_inputs=new_inputs,
-                                              new_transients=self.transients,
-                                              new_measurements=new_measurements)
-
-        return self.hidden_conversion.inverse_transform_samples(
-            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
-        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
-        """
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Do the same for the A-SOH
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-
-        # Now, propagate the transients through the A-SOH
-        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
-                                                                       new_inputs=inputs,
-                                                                       transient_state=self.transients,
-                                                                       asoh=asoh)
-
-        # Finally, compute outputs
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=propagated_transients,
-                                                             asoh=asoh).to_numpy()
-
-        # The model returns a single output if none of the estimated parameters affects it
-        outputs = np.repeat(outputs, len(np.atleast_2d(hidden_states)) // len(outputs), axis=0)
-
-        # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
-        return outputs
-
-
-class JointCellModelWrapper(BaseCellWrapper):
-    """Interface used when the hidden state used by a filter includes the transient states.
-
-    Create the interface by defining
-        - Which portions of the ASOH are used as inputs to function
-        - Values for the ASOH parameters that remain fixed
-        - An example transient state and input to be passed to the function which will be used as a template
-
-    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients + self.num_asoh
-
-    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
-        """Transform the state of health and transients states (quantities used by CellModel)
-        into the "hidden state" vector used by the actual filter
-
-        Args:
-            asoh: Values of the ASOH parameter
-            transients: Values of the transient states
-        Returns:
-            A hidden state vector ready for use in a filter
-        """
-
-        # Get raw values
-        trans_raw = transients.to_numpy()
-        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
-
-        # Concatenate
-        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
-
-        # Convert to filter
-        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
-
-        return joint
-
-    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
-        """Convert the hidden states into the forms used by CellModel
-
-        Args:
-            hidden_states: Hidden states as used by the estimator
-        Returns:
-            - ASOH with values from the hidden states
-            - Transients state from the hidden states
-        """
-
-        # Get raw values
-        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
-
-        # Update any parameters for the transient state
-        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
-
-        # Update the ASOH accordingly
-        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
-
-        return my_asoh, my_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Transmute the controls and hidden state into the form required for the CellModel
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-
-        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
-        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=my_transients,
-                                                                asoh=my_asoh)
-
-        # Let's also degrade the A-SOH
-        # We need the measurement
-        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
-                                                                     transient_state=my_transients,
-                                                                     asoh=my_asoh)
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
-                                              new_inputs=previous_inputs,
-                                              new_transients=my_transients,
-                                              new_measurements=new_measurement)
-
-        # Convert this back to filter lingo
-        output[:, :self.num_transients] = new_transients.to_numpy()
-        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
-        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
-        return output
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Now, iterate through hidden states to compute terminal voltage
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=my_transients,
-                                                             asoh=my_asoh)
-        # Convert to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
+"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
+widely-used Python types, such as Numpy Arrays."""
+import numpy as np
+from typing import Tuple, Optional, Union
+
+from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
+from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
+from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
+from moirae.models.utils import NoDegradation
+
+
+def convert_vals_model_to_filter(
+        model_quantities: GeneralContainer,
+        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
+    """
+    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
+    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
+    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
+
+    Args:
+        model_quantities: model-related object to be converted into filter-related object
+        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
+
+    Returns:
+        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
+    """
+    if uncertainty_matrix is None:
+        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
+    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
+
+
+class BaseCellWrapper(ModelWrapper):
+    """
+    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
+    the filter implementations.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    cell_model: CellModel
+    """Cell model underpinning the update functions"""
+    asoh: HealthVariable
+    """ASOH values passed to each call of the cell model"""
+    transients: GeneralContainer
+    """Transient states used for the inputs of the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
+
+        # Give converters to parent class
+        super().__init__(**converters)
+
+        # Store the ASOH and transient state, making sure they are not batched
+        if asoh.batch_size > 1:
+            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
+        if transients.batch_size > 1:
+            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
+
+        # Keep copies so that later changes to the originals do not alter the model
+        self.transients = transients.model_copy(deep=True)
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
+
+        # Capture the shape of the outputs
+        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
+                                                                                 transient_state=self.transients,
+                                                                                 asoh=self.asoh).to_numpy().shape[1]
+
+    @property
+    def num_output_dimensions(self) -> int:
+        return self._num_output_dimensions
+
+
+class CellModelWrapper(BaseCellWrapper):
+    """
+    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
+    """
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        self.num_transients = transients.to_numpy().shape[1]
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        # Update transients
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=transients,
+                                                                asoh=self.asoh)
+
+        # Convert back to filter language
+        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
+
+        return new_transients
+
+    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
+        from it
+        """
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Get output
+        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                                  transient_state=transients,
+                                                                  asoh=self.asoh)
+
+        # Convert back to filter lingo
+        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
+
+        return measurements
+
+
+class DegradationModelWrapper(BaseCellWrapper):
+    """
+    Link between A-SOH degradation models and the numpy-only interface of the
+    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
+    frameworks
+
+    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
+    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
+        self._previous_inputs = inputs.model_copy(deep=True)
+        # Store degradation model
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_asoh
+
+    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
+        """
+        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
+        """
+        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
+                                   names=self.asoh_inputs)
+        return asoh
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
+        previous and new controls. If the degradation model needs information for further in the past, it is responsible
+        for keeping track of that. The degration model will also be provided the current estimate of the transient
+        vector.
+        """
+        # Remember that, during this step, we should also store the previous controls so that the transient vector can
+        # be propagated through the hidden states in the predict measurement step
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        self._previous_inputs = previous_inputs
+
+        # Convert to A-SOH object
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+        # Convert new controls
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+        # Compute measurements
+        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
+                                                                      transient_state=self.transients,
+                                                                      asoh=asoh)
+        # Degrade A-SOH
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
+                                              new_inputs=new_inputs,
+                                              new_transients=self.transients,
+                                              new_measurements=new_measurements)
+
+        return self.hidden_conversion.inverse_transform_samples(
+            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
+        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
+        """
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Do the same for the A-SOH
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+
+        # Now, propagate the transients through the A-SOH
+        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
+                                                                       new_inputs=inputs,
+                                                                       transient_state=self.transients,
+                                                                       asoh=asoh)
+
+        # Finally, compute outputs
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=propagated_transients,
+                                                             asoh=asoh).to_numpy()
+
+        # The model returns a single output if none of the estimated parameters affects it
+        outputs = np.repeat(outputs, len(np.atleast_2d(hidden_states)) // len(outputs), axis=0)
+
+        # Convert outpus to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
+        return outputs
+
+
+class JointCellModelWrapper(BaseCellWrapper):
+    """Interface used when the hidden state used by a filter includes the transient states.
+
+    Create the interface by defining
+        - Which portions of the ASOH are used as inputs to function
+        - Values for the ASOH parameters that remain fixed
+        - An example transient state and input to be passed to the function which will be used as a template
+
+    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients + self.num_asoh
+
+    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
+        """Transform the state of health and transients states (quantities used by CellModel)
+        into the "hidden state" vector used by the actual filter
+
+        Args:
+            asoh: Values of the ASOH parameter
+            transients: Values of the transient states
+        Returns:
+            A hidden state vector ready for use in a filter
+        """
+
+        # Get raw values
+        trans_raw = transients.to_numpy()
+        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
+
+        # Concatenate
+        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
+
+        # Convert to filter
+        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
+
+        return joint
+
+    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
+        """Convert the hidden states into the forms used by CellModel
+
+        Args:
+            hidden_states: Hidden states as used by the estimator
+        Returns:
+            - ASOH with values from the hidden states
+            - Transients state from the hidden states
+        """
+
+        # Get raw values
+        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
+
+        # Update any parameters for the transient state
+        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
+
+        # Update the ASOH accordingly
+        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
+
+        return my_asoh, my_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Transmute the controls and hidden state into the form required for the CellModel
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+
+        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
+        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=my_transients,
+                                                                asoh=my_asoh)
+
+        # Let's also degrade the A-SOH
+        # We need the measurement
+        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
+                                                                     transient_state=my_transients,
+                                                                     asoh=my_asoh)
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
+                                              new_inputs=previous_inputs,
+                                              new_transients=my_transients,
+                                              new_measurements=new_measurement)
+
+        # Convert this back to filter lingo
+        output[:, :self.num_transients] = new_transients.to_numpy()
+        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
+        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
+        return output
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Now, iterate through hidden states to compute terminal voltage
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=my_transients,
+                                                             asoh=my_asoh)
+        # Convert to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 802fdad..ec815b6 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,300 +1,300 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        try:
-            self._group_handle = root.require_group(self.storage_key)
-        except Exception as e:
-            self.__exit__(type(e), e, e.__traceback__)  # Not called if entering fails
-            raise
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Make sure there is nothing to be overwritten before changing anything
-        for where in ['per_timestep', 'per_cycle']:
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write. The time marks that a row holds data, so it must be last
-            to_insert = _convert_state_to_numpy_dict(state, what, 'state')
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-            to_insert['time'] = np.array(time)
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by as many chunks as necessary
-                if my_dataset.shape[0] <= ind:
-                    num_chunks = 1 + (ind - my_dataset.shape[0]) // my_dataset.chunks[0]
-                    my_dataset.resize(my_dataset.shape[0] + num_chunks * my_dataset.chunks[0], axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except (KeyError, ValueError):
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks rows without data, such as cycles which are not in the dataset
-                continue
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        try:
+            self._group_handle = root.require_group(self.storage_key)
+        except Exception as e:
+            self.__exit__(type(e), e, e.__traceback__)  # Not called if entering fails
+            raise
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Make sure there is nothing to be overwritten before changing anything
+        for where in ['per_timestep', 'per_cycle']:
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write. The time marks that a row holds data, so it must be last
+            to_insert = _convert_state_to_numpy_dict(state, what, 'state')
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+            to_insert['time'] = np.array(time)
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by as many chunks as necessary
+                if my_dataset.shape[0] <= ind:
+                    num_chunks = 1 + (ind - my_dataset.shape[0]) // my_dataset.chunks[0]
+                    my_dataset.resize(my_dataset.shape[0] + num_chunks * my_dataset.chunks[0], axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except (KeyError, ValueError):
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks rows without data, such as cycles which are not in the dataset
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
diff --git a/moirae/models/thevenin/__init__.py b/moirae/models/thevenin/__init__.py
index 7f49f48..4d21a48 100644
--- a/moirae/models/thevenin/__init__.py
+++ b/moirae/models/thevenin/__init__.py
@@ -1,116 +1,116 @@
-"""Interface to the `Thevenin package <https://github.com/ROVI-org/thevenin>`_"""
-import numpy as np
-from functools import partial
-from typing import Iterator
-
-from thevenin import Model, Experiment
-
-from ..base import CellModel, InputQuantities, OutputQuantities
-from .state import TheveninASOH, TheveninTransient
-from .ins_outs import TheveninInput
-
-
-class TheveninModel(CellModel):
-    """
-    Connection between Moirae and an ECM model implemented via `Thevenin <https://github.com/ROVI-org/thevenin>`_.
-
-    Args:
-        isothermal: Whether to treat the system as isothermal
-    """
-
-    def __init__(self, isothermal: bool = False):
-        self.isothermal = isothermal
-        # TODO (wardlt): Add a maximum timestep size? Victor was using that to avoid the issues with the integrator
-
-    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput) -> Iterator[Model]:
-        """
-        Generate a model for each member of the batch of experimental conditions
-
-        Args:
-            transient: Batch of transient states
-            asoh: Batch of health variables
-
-        Yields:
-            A model for each member of the batch
-        """
-
-        for b in range(max(transient.batch_size, asoh.batch_size, inputs.batch_size)):
-            # The value of each member of the transient or ASOH is a 2D array with the first dimension either 1
-            #  or batch_size. The % signs below are a short syntax for either using the same value for all batches
-            #  (anything mod 1 is 0) or the appropriate member of the batch
-            params = {'num_RC_pairs': asoh.num_rc_elements, 'isothermal': self.isothermal}
-            for scalar, value in [
-                ('soc0', transient.soc), ('capacity', asoh.capacity), ('mass', asoh.mass), ('Cp', asoh.c_p),
-                ('T_inf', inputs.t_inf), ('h_therm', asoh.h_thermal), ('A_therm', asoh.a_therm)
-            ]:
-                params[scalar] = value[b % value.shape[0], 0]
-
-            # Add the SOC and series resistors as functions where we pin the batch ID to the appropriate value
-            params['ocv'] = partial(asoh.ocv, batch_id=b)
-            params['R0'] = partial(asoh.r[0], batch_id=b)
-
-            # Append the RC elements
-            for r in range(params['num_RC_pairs']):
-                params[f'R{r + 1}'] = partial(asoh.r[r + 1], batch_id=b)
-                params[f'C{r + 1}'] = partial(asoh.c[r], batch_id=b)
-
-            # Make the model
-            model = Model(params=params)
-
-            # Update the state of the RC elements
-            #  TODO (wardlt): Working with Corey on an official route for setting these SVs.
-            #   This is his current recommendation
-            if params['num_RC_pairs'] > 0:
-                model._sv0[model._ptr['eta_j']] = transient.eta[b % transient.eta.shape[0]]
-
-            yield model
-
-    def update_transient_state(
-            self,
-            previous_inputs: TheveninInput,
-            new_inputs: TheveninInput,
-            transient_state: TheveninTransient,
-            asoh: TheveninASOH
-    ) -> TheveninTransient:
-        # Initialize the array in which to store output values
-        batch_size = max(transient_state.batch_size, asoh.batch_size, new_inputs.batch_size)
-        output_array = np.zeros((batch_size, len(transient_state)))
-
-        # Iterate over models representing each member of the batch
-        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs)):
-            # Propagate the system under a constant current load
-            # TODO (wardlt): Make current time-dependent, which is possible by passing a function to add_step
-            cur_time = new_inputs.time[model_i % new_inputs.time.shape[0], 0]
-            pre_time = previous_inputs.time[model_i % previous_inputs.time.shape[0], 0]
-            if cur_time == pre_time:  # There is nothing to integrate
-                states = transient_state.to_numpy()
-                output_array[model_i, :] = states[model_i % states.shape[0], :]
-                continue
-            exp = Experiment()
-            exp.add_step('current_A',
-                         -new_inputs.current[model_i % new_inputs.current.shape[0]],  # Sign convention is opposite
-                         (cur_time - pre_time, 2))
-            sln = model.run(exp)
-
-            # Fill in the state variables
-            output_array[model_i, 0] = sln.vars['soc'][-1]
-            output_array[model_i, 1] = sln.vars['temperature_K'][-1]
-            for rc_i in range(asoh.num_rc_elements):
-                output_array[model_i, 2 + rc_i] = sln.vars[f'eta{rc_i + 1}_V'][-1]
-
-        return transient_state.make_copy(output_array)
-
-    def calculate_terminal_voltage(
-            self,
-            new_inputs: InputQuantities,
-            transient_state: TheveninTransient,
-            asoh: TheveninASOH) -> OutputQuantities:
-        # Thevenin stores overpotentials, so it is easy enough to compute terminal voltage directly from states and ASOH
-        #  See last eq of https://rovi-org.github.io/thevenin/user_guide/model_description.html
-        v = (
-                asoh.ocv(transient_state.soc[:, 0])
-                # Sign convention is opposite of thevenin
-                + new_inputs.current[:, 0] * asoh.r[0](transient_state.soc[:, 0], transient_state.temp[:, 0])
-                - transient_state.eta.sum(axis=1)
-        )
-        return OutputQuantities(terminal_voltage=v)
+"""Interface to the `Thevenin package <https://github.com/ROVI-org/thevenin>`_"""
+import numpy as np
+from functools import partial
+from typing import Iterator
+
+from thevenin import Model, Experiment
+
+from ..base import CellModel, InputQuantities, OutputQuantities
+from .state import TheveninASOH, TheveninTransient
+from .ins_outs import TheveninInput
+
+
+class TheveninModel(CellModel):
+    """
+    Connection between Moirae and an ECM model implemented via `Thevenin <https://github.com/ROVI-org/thevenin>`_.
+
+    Args:
+        isothermal: Whether to treat the system as isothermal
+    """
+
+    def __init__(self, isothermal: bool = False):
+        self.isothermal = isothermal
+        # TODO (wardlt): Add a maximum timestep size? Victor was using that to avoid the issues with the integrator
+
+    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput) -> Iterator[Model]:
+        """
+        Generate a model for each member of the batch of experimental conditions
+
+        Args:
+            transient: Batch of transient states
+            asoh: Batch of health variables
+
+        Yields:
+            A model for each member of the batch
+        """
+
+        for b in range(max(transient.batch_size, asoh.batch_size, inputs.batch_size)):
+            # The value of each member of the transient or ASOH is a 2D array with the first dimension either 1
+            #  or batch_size. The % signs below are a short syntax for either using the same value for all batches
+            #  (anything mod 1 is 0) or the appropriate member of the batch
+            params = {'num_RC_pairs': asoh.num_rc_elements, 'isothermal': self.isothermal}
+            for scalar, value in [
+                ('soc0', transient.soc), ('capacity', asoh.capacity), ('mass', asoh.mass), ('Cp', asoh.c_p),
+                ('T_inf', inputs.t_inf), ('h_therm', asoh.h_thermal), ('A_therm', asoh.a_therm)
+            ]:
+                params[scalar] = value[b % value.shape[0], 0]
+
+            # Add the SOC and series resistors as functions where we pin the batch ID to the appropriate value
+            params['ocv'] = partial(asoh.ocv, batch_id=b)
+            params['R0'] = partial(asoh.r[0], batch_id=b)
+
+            # Append the RC elements
+            for r in range(params['num_RC_pairs']):
+                params[f'R{r + 1}'] = partial(asoh.r[r + 1], batch_id=b)
+                params[f'C{r + 1}'] = partial(asoh.c[r], batch_id=b)
+
+            # Make the model
+            model = Model(params=params)
+
+            # Update the state of the RC elements
+            #  TODO (wardlt): Working with Corey on an official route for setting these SVs.
+            #   This is his current recommendation
+            if params['num_RC_pairs'] > 0:
+                model._sv0[model._ptr['eta_j']] = transient.eta[b % transient.eta.shape[0]]
+
+            yield model
+
+    def update_transient_state(
+            self,
+            previous_inputs: TheveninInput,
+            new_inputs: TheveninInput,
+            transient_state: TheveninTransient,
+            asoh: TheveninASOH
+    ) -> TheveninTransient:
+        # Initialize the array in which to store output values
+        batch_size = max(transient_state.batch_size, asoh.batch_size, new_inputs.batch_size)
+        output_array = np.zeros((batch_size, len(transient_state)))
+
+        # Iterate over models representing each member of the batch
+        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs)):
+            # Propagate the system under a constant current load
+            # TODO (wardlt): Make current time-dependent, which is possible by passing a function to add_step
+            cur_time = new_inputs.time[model_i % new_inputs.time.shape[0], 0]
+            pre_time = previous_inputs.time[model_i % previous_inputs.time.shape[0], 0]
+            if cur_time == pre_time:  # There is nothing to integrate
+                states = transient_state.to_numpy()
+                output_array[model_i, :] = states[model_i % states.shape[0], :]
+                continue
+            exp = Experiment()
+            exp.add_step('current_A',
+                         -new_inputs.current[model_i % new_inputs.current.shape[0]],  # Sign convention is opposite
+                         (cur_time - pre_time, 2))
+            sln = model.run(exp)
+
+            # Fill in the state variables
+            output_array[model_i, 0] = sln.vars['soc'][-1]
+            output_array[model_i, 1] = sln.vars['temperature_K'][-1]
+            for rc_i in range(asoh.num_rc_elements):
+                output_array[model_i, 2 + rc_i] = sln.vars[f'eta{rc_i + 1}_V'][-1]
+
+        return transient_state.make_copy(output_array)
+
+    def calculate_terminal_voltage(
+            self,
+            new_inputs: InputQuantities,
+            transient_state: TheveninTransient,
+            asoh: TheveninASOH) -> OutputQuantities:
+        # Thevenin stores overpotentials, so it is easy enough to compute terminal voltage directly from states and ASOH
+        #  See last eq of https://rovi-org.github.io/thevenin/user_guide/model_description.html
+        v = (
+                asoh.ocv(transient_state.soc[:, 0])
+                # Sign convention is opposite of thevenin
+                + new_inputs.current[:, 0] * asoh.r[0](transient_state.soc[:, 0], transient_state.temp[:, 0])
+                - transient_state.eta.sum(axis=1)
+        )
+        return OutputQuantities(terminal_voltage=v)
-- 
2.43.0


From f60ab2570de95a120cfbc204caa5bdba91055b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 38/39] fix: keyword arguments of UKF steps are only given to
 the model

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 53df156..0971f07 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -181,7 +181,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1: perform estimation update
         x_k_minus, y_k, cov_xy = self.estimation_update(sigma_pts=sigma_pts, new_controls=new_controls, **kwargs)
         # Step 2: correction step, adjust hidden states based on new measurement
-        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements, **kwargs)
+        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements)
         # Don't forget to update the internal control!
         self.controls = new_controls.model_copy(deep=True)
         # Return
-- 
2.43.0


From ec727452e8d58cd59ecb272d62174297f07c7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 39/39] fix: compute SOC for OCV extraction if it was not
 computed before

---
 moirae/extractors/ecm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index bde56ef..c6217df 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -4,7 +4,7 @@ import pandas as pd
 from scipy.interpolate import LSQUnivariateSpline
 
 from battdat.data import CellDataset
-from battdat.postprocess.integral import CapacityPerCycle
+from battdat.postprocess.integral import CapacityPerCycle, StateOfCharge
 from moirae.extractors.base import BaseExtractor
 from moirae.models.ecm.components import ReferenceOCV, OpenCircuitVoltage, MaxTheoreticalCapacity
 
@@ -99,6 +99,8 @@ class OCVExtractor(BaseExtractor):
         #  TODO (wardlt): Make whether the cell started as charged (SOC~1) an option
         #   This code assumes the cycle starts with a discharged cell
         cycle = cycle.copy(deep=False)  # We are not editing the data
+        if 'cycle_capacity' not in cycle.columns:
+            StateOfCharge().enhance(cycle)  # Only adds columns to the copy
         cycle['soc'] = cycle['cycle_capacity'] / self.capacity  # Ensure data are [0, 1)
         cycle = cycle.sort_values('soc')
 
-- 
2.43.0

