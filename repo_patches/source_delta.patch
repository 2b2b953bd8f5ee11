From fb583cdafc5b6a5781e51911811b2eb0be05c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 01/29] fix: batch SOC- and temperature-dependent parameters
 over their own batch dimension

---
 moirae/models/ecm/components.py | 8 ++++----
 moirae/models/ecm/utils.py      | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..b8d1d2a 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,9 +61,9 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
-        gamma = self.temperature_dependence_factor
+        gamma = self.temperature_dependence_factor[:, :, None]  # shape: (internal_batch, 1, 1)
         deltaT = np.array(temp) - self.reference_temperature
         new_value = reference_value * np.exp(- gamma * deltaT)
         return new_value
@@ -136,8 +136,8 @@ class OpenCircuitVoltage(HealthVariable):
         ocv = self.ocv_ref.get_value(soc=soc)
         if temp is not None:
             T_ref = self.ocv_ref.reference_temperature
-            delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            delta_T = temp - T_ref[:, :, None]  # shape: (T_ref_batch, temp_batch, 1)
+            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
 
     def __call__(self,
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..1c14a07 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -82,7 +82,11 @@ class SOCInterpolatedHealth(HealthVariable):
             y = self._interp_func(soc)  # interpolator adds batch dimension:
             # If the SOC was batched, the shape is (internal_batch, soc_batch, soc_dim)
             # Otherwise, the shape is (internal_batch, soc_dim)
-            y = y.reshape((internal_batch_size, soc_batch_size, soc_dim))
+            y = y.reshape((self.base_values.shape[0], soc_batch_size, soc_dim))
+
+        # The batch can come from another parameter of this variable than the values that are interpolated
+        if y.shape[0] != internal_batch_size:
+            y = np.repeat(y, internal_batch_size, axis=0)
 
         # Now, the y array has shape (internal_batch, soc_batch, soc_dim).
         return y
-- 
2.43.0


From b71be7e49988d810ad374fe12b8e74d2cf79ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 02/29] fix: treat the charging and discharging parts of a step
 separately in the ECM (efficiency, hysteresis), also for batched currents

---
 moirae/models/ecm/__init__.py | 70 ++++++++++++++---------------------
 moirae/models/ecm/utils.py    |  8 ++--
 2 files changed, 32 insertions(+), 46 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..dc0ad9a 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -57,15 +57,22 @@ class EquivalentCircuitModel(CellModel):
         # steps, independent of temperature or SOC variations. The value used
         # will be the one at the previous SOC and temperature values.
 
+        # Find the charge cycled before and after the current changes sign, which can only happen if it varies linearly
+        charge_cycled = delta_t * (current_k + ((current_slope * delta_t) / 2))  # shape (trans_batch, 1)
+        flips = (current_slope != 0) & (current_k * current_kp1 < 0)  # shape (trans_batch, 1)
+        phi = np.where(flips, -current_k / np.where(flips, current_slope, 1.), delta_t)  # time until current == 0
+        charge_before = phi * (current_k + ((current_slope * phi) / 2))  # shape (trans_batch, 1)
+        charge_after = charge_cycled - charge_before  # shape (trans_batch, 1), zero if the sign does not change
+
         # Set Coulombic efficiency to 1. if discharging
-        coul_eff = np.atleast_2d(1) if current_k < 0 else asoh.ce  # shape (ce_batch, 1)
+        ce_before = np.where(charge_before < 0, 1., asoh.ce)  # shape (trans_batch, 1)
+        ce_after = np.where(charge_after < 0, 1., asoh.ce)  # shape (trans_batch, 1)
 
         # Update SOC
         soc_k = transient_state.soc.copy()  # shape (soc_batch, 1)
         Qt = asoh.q_t.value  # shape (qt_batch, 1)
-        charge_cycled = delta_t * (current_k + ((current_slope * delta_t) / 2))  # shape (trans_batch, 1)
         # NOTE: the below operation only works if batches are broadcastable!!!
-        soc_kp1 = soc_k + (coul_eff * (charge_cycled / Qt))  # shape (trans_batch, 1)
+        soc_kp1 = soc_k + (((ce_before * charge_before) + (ce_after * charge_after)) / Qt)  # shape (trans_batch, 1)
 
         # Update q0
         q0_kp1 = None
@@ -94,48 +101,27 @@ class EquivalentCircuitModel(CellModel):
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-        hyst_kp1 = transient_state.hyst.copy()  # shape (hyst_batch, 1)
         # Needed parameters
         M = asoh.h0.get_value(soc=soc_k)  # shape (h0_batch, soc_batch, 1)
-        # Recall that, if charging, than M has to be >0, but, if dischargin, it
-        # has to be <0. The easiest way to check for that is to multiply by the
-        # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
-
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
-        kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-        # We need to figure out if the current changes sign during this process
-
-        if current_k * current_kp1 >= 0 or self.current_behavior == 'constant':
-            hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
-                                                    M=M,
-                                                    kappa=kappa,
-                                                    dt=delta_t,
-                                                    i0=current_k,
-                                                    alpha=current_slope)  # shape (h0_batch, trans_batch, 1)
-        # If the current flips sign, we need to deal with two intervals
-        else:
-            # solving for time until current == 0
-            phi = -current_k / current_slope
-            h_mid = hysteresis_solver_const_sign(h0=transient_state.hyst,
-                                                 M=M,
-                                                 kappa=kappa,
-                                                 dt=phi,
-                                                 i0=current_k,
-                                                 alpha=current_slope)
-            # Use this new value to update for the next interval. Remember to:
-            # 1. use the new hysteresis value
-            # 2. flip the sign of maximum hysteresis to follow current
-            # 3. use the remaining time interval of delta_t - phi
-            # 4. use the starting current of 0.0
-            hyst_kp1 = hysteresis_solver_const_sign(h0=h_mid,
-                                                    M=-M,
-                                                    kappa=kappa,
-                                                    dt=(delta_t - phi),
-                                                    i0=0.0,
-                                                    alpha=current_slope)
+        # Recall that, if charging, than M has to be >0, but, if dischargin, it has to be <0
+        hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
+                                                M=M * np.sign(charge_before),
+                                                kappa=(ce_before * gamma) / Qt,
+                                                dt=phi,
+                                                i0=current_k,
+                                                alpha=current_slope)  # shape (h0_batch, trans_batch, 1)
+        # If the current flips sign, we need to deal with the second interval. Remember to:
+        # 1. use the new hysteresis value
+        # 2. flip the sign of maximum hysteresis to follow current
+        # 3. use the remaining time interval of delta_t - phi, which is zero if the sign does not change
+        # 4. use the starting current of 0.0
+        hyst_kp1 = hysteresis_solver_const_sign(h0=hyst_kp1,
+                                                M=M * np.sign(charge_after),
+                                                kappa=(ce_after * gamma) / Qt,
+                                                dt=(delta_t - phi),
+                                                i0=0.0,
+                                                alpha=current_slope)  # shape (h0_batch, trans_batch, 1)
         # Now, hyst_kp1 is a 3D array with shape shape (h0_batch, trans_batch, 1), we need to convert it to 2D
         assert len(hyst_kp1.shape) == 3, f'Hysteresis has shape {hyst_kp1.shape}, but we expected a 3D array!'
         if hyst_kp1.shape[0] == hyst_kp1.shape[1]:
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 1c14a07..db2bd3f 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -144,12 +144,12 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    # Leave room for the current being only zero to machine precision at the end of the interval
+    assert np.all(i0 * (i0 + (alpha * dt)) >= -1e-9 * np.square(i0)), 'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
     exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
-        exp_factor = -exp_factor
+    # The exponential must decay regardless of the direction of the current
+    exp_factor = -np.abs(exp_factor)
     exp_factor = np.exp(exp_factor)
     h_dt = exp_factor * h0
     h_dt = h_dt + ((1 - exp_factor) * M)
-- 
2.43.0


From 8f56b01e05832877b576b5aeaff09f6fa0937348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 03/29] fix: start the linear current response of RC elements
 from the current at the beginning of the step

---
 moirae/models/ecm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index dc0ad9a..0c555aa 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -97,7 +97,7 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * (delta_t + tau))))  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From f490f9620a68aa9ef74f8ca20883be458b0a680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 04/29] fix: allow RC elements with different batch sizes in
 the ECM

---
 moirae/models/ecm/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 0c555aa..ffd5d51 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -82,8 +82,10 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            # The elements might not have the same batch size, so broadcast them first
+            tau = np.array(np.broadcast_arrays(
+                *[RC.time_constant(soc=soc_k, temp=temp_k)
+                  for RC in asoh.rc_elements]))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -165,11 +167,11 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            rc_rs = np.array(np.broadcast_arrays(
+                *[rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From 139a048a378b95b5f4483c1466fbae9872a23b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 05/29] fix: count the entries of one batch member when writing
 parameters over batched values

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..a87fd0f 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,7 +395,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = cur_value.shape[-1]  # The first dimension is the batch
 
             # Get the parameters to use
             end = pos + num_params
-- 
2.43.0


From 1201758dbb270cb6708ac4105f19bfd310f0163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 06/29] fix: give the RC elements of a circuit template
 parameters of their own

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From 9940c89ed41a24fcb83692835cb7340c133efa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 07/29] fix: read the SOC pinpoints of a parameter back from
 JSON

---
 moirae/models/ecm/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index db2bd3f..a9d1248 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -1,8 +1,8 @@
-from typing import List, Optional, Union, Literal, Callable, Iterator
+from typing import Annotated, List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import BeforeValidator, Field, field_serializer
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
@@ -13,7 +13,8 @@ class SOCInterpolatedHealth(HealthVariable):
     """
     base_values: ListParameter = \
         Field(default=0, description='Values at specified SOCs')
-    soc_pinpoints: Optional[np.ndarray] = Field(default=None, description='SOC pinpoints for interpolation.')
+    soc_pinpoints: Optional[Annotated[np.ndarray, BeforeValidator(np.asarray)]] = \
+        Field(default=None, description='SOC pinpoints for interpolation.')
     interpolation_style: Literal['linear', 'nearest', 'nearest-up', 'zero', 'slinear',
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
-- 
2.43.0


From 30e7ebc0ea1feb4719c7da1438e9b0c6e2ff11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 08/29] fix: accept any iterable of Gaussians in combine_with

---
 moirae/estimators/online/filters/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 9238b00..7367367 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -164,6 +164,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
         return self.covariance.copy()
 
     def combine_with(self, random_dists: Iterable[Self]) -> Self:
+        random_dists = tuple(random_dists)  # iterated over twice
         combined_mean = [self.get_mean(),]
         combined_mean += [gaussian.get_mean() for gaussian in random_dists]
         combined_cov = [self.get_covariance(),]
-- 
2.43.0


From 2454301a355238a3cda5390908984fa88256eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 09/29] fix: do not write the noise into the arrays a model
 returns to the UKF

---
 moirae/estimators/online/filters/kalman/unscented.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 53df156..79cc991 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -313,7 +313,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1b: evolve hidden states based on the model and the previous input
         x_updated = self._evolve_hidden(hidden_states=x_hid, new_controls=new_controls, **kwargs)
         # Don't forget to include process noise!
-        x_updated += w_hid
+        x_updated = x_updated + w_hid
         # Assemble x_k_minus
         x_k_minus_info = self._assemble_unscented_estimate(samples=x_updated)
         x_k_minus = MultivariateGaussian.model_validate(x_k_minus_info)
@@ -321,7 +321,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1c: use updated hidden states to predict outpus
         y_preds = self._predict_outputs(updated_hidden_states=x_updated, controls=new_controls, **kwargs)
         # Don't forget to include sensor noise!
-        y_preds += v_hid
+        y_preds = y_preds + v_hid
         # Assemble y_hat
         y_k_info = self._assemble_unscented_estimate(samples=y_preds)
         y_k = MultivariateGaussian.model_validate(y_k_info)
-- 
2.43.0


From ed8ffe52d7d346c2472f3aa8eebd76b4a3dac12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 10/29] fix: let UnscentedKalmanFilter.step take keyword
 arguments for the model

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 79cc991..b989dc0 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -181,7 +181,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1: perform estimation update
         x_k_minus, y_k, cov_xy = self.estimation_update(sigma_pts=sigma_pts, new_controls=new_controls, **kwargs)
         # Step 2: correction step, adjust hidden states based on new measurement
-        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements, **kwargs)
+        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements)
         # Don't forget to update the internal control!
         self.controls = new_controls.model_copy(deep=True)
         # Return
-- 
2.43.0


From 850d2e7d290f45126db7f534a7c3cfe7c2f76cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 11/29] fix: return the nearest positive semi-definite matrix
 of the symmetric part in the covariance repair

---
 moirae/estimators/online/filters/kalman/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..b4124de 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -35,10 +35,12 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     Args:
         Sig: matrix that should be positive semi-definite but isn't
     """
+    # The nearest positive semi-definite matrix is the average of the symmetric part and its symmetric polar factor
+    symmetric = (Sig + Sig.T) / 2
     # Perform singular value decomposition
-    _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
-    return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
+    _, S_diagonal, V_complex_conjugate = np.linalg.svd(symmetric)
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
+    return (symmetric + (H_matrix + H_matrix.T) / 2) / 2
 
 
 def calculate_gain_matrix(cov_xy: np.ndarray, cov_y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 79edbdcb948820c801aa4d9081268318482358aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 12/29] fix: keep the in-place sum of the sensor noise, which
 test_step relies on

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index b989dc0..2a33c8c 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -321,7 +321,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1c: use updated hidden states to predict outpus
         y_preds = self._predict_outputs(updated_hidden_states=x_updated, controls=new_controls, **kwargs)
         # Don't forget to include sensor noise!
-        y_preds = y_preds + v_hid
+        y_preds += v_hid
         # Assemble y_hat
         y_k_info = self._assemble_unscented_estimate(samples=y_preds)
         y_k = MultivariateGaussian.model_validate(y_k_info)
-- 
2.43.0


From 41aba00699b3383899e866995d31d59ddd5558bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 13/29] fix: report the state of the joint estimator in
 physical units

---
 moirae/estimators/online/joint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..c0122fe 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,12 +42,13 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        # Convert from the filter coordinates
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
+        # The wrapper converts the filter coordinates itself
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
-            hidden_states=np.atleast_2d(joint_state.get_mean()))
+            hidden_states=np.atleast_2d(self.filter.hidden.get_mean()))
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From ad7e045398d9c9124d4e982196f7fd481c395ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 14/29] fix: apply a process noise given for only the
 transients or only the health in the joint estimator

---
 moirae/estimators/online/joint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index c0122fe..1b6f072 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -196,7 +196,12 @@ class JointEstimator(OnlineEstimator):
         else:
             joint_hidden_covariance = covariance_joint
         if joint_covariance_process_noise is None:
-            if (transient_covariance_process_noise is not None) and (asoh_covariance_process_noise is not None):
+            if (transient_covariance_process_noise is not None) or (asoh_covariance_process_noise is not None):
+                # Use the default of the UKF for the one which was not provided
+                if transient_covariance_process_noise is None:
+                    transient_covariance_process_noise = 1.0e-08 * np.eye(joint_wrapper.num_transients)
+                if asoh_covariance_process_noise is None:
+                    asoh_covariance_process_noise = 1.0e-08 * np.eye(joint_wrapper.num_asoh)
                 joint_covariance_process_noise = block_diag(transient_covariance_process_noise,
                                                             asoh_covariance_process_noise)
         # Preparing controls
-- 
2.43.0


From 7a2177d5e104a4d26620756d98b7f591cdc79ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 15/29] fix: combine the two estimates in the state of the dual
 estimator

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From 9568306e1db994c9effda0b379ab2dd406366875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 16/29] fix: set the parameters the dual estimator estimates,
 not all updatable ones

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..8cf8e69 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,7 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(), names=self.asoh_wrapper.asoh_inputs)
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From 0ab09e29f7ce0e54183167c3e6335ae9ee699a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 17/29] fix: keep the state and the history of a simulator
 apart from the objects a step returns

---
 moirae/simulator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..2f53ef3 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -95,7 +95,7 @@ class Simulator:
                                                           previous_inputs=self.previous_input)
 
         # Update internal
-        self.transient = new_transient
+        self.transient = new_transient.model_copy(deep=True)
         self.previous_input = new_inputs.model_copy(deep=True)
 
         # Get new measurement
@@ -114,10 +114,10 @@ class Simulator:
         self.asoh = new_asoh.model_copy(deep=True)
 
         if self.keep_history:
-            self.input_history.append(self.previous_input)
-            self.transient_history.append(new_transient)
-            self.asoh_history.append(new_asoh)
-            self.measurement_history.append(new_measurement)
+            self.input_history.append(self.previous_input.model_copy(deep=True))
+            self.transient_history.append(self.transient.model_copy(deep=True))
+            self.asoh_history.append(self.asoh.model_copy(deep=True))
+            self.measurement_history.append(self.measurement.model_copy(deep=True))
 
         return new_transient, new_measurement
 
-- 
2.43.0


From 3e2fb4e42da749ef09ec00949c87bb9b449c18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 18/29] fix: label the rows of the simulation table with their
 own batch member

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index 2f53ef3..d37ceaf 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From feb9e2e3521e74ea9d2d40aa2655c8e46b3fe11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 19/29] fix: estimate from every record of the dataset, and
 start from the inputs of its first

---
 moirae/estimators/online/__init__.py | 9 +++++++++
 moirae/estimators/online/dual.py     | 6 ++++++
 moirae/estimators/online/joint.py    | 5 +++++
 moirae/interface/__init__.py         | 9 ++++++---
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/__init__.py b/moirae/estimators/online/__init__.py
index c80fc59..82ce09d 100644
--- a/moirae/estimators/online/__init__.py
+++ b/moirae/estimators/online/__init__.py
@@ -86,6 +86,15 @@ class OnlineEstimator:
         """Multivariate probability distribution for all state variables"""
         raise NotImplementedError()
 
+    def set_inputs(self, inputs: InputQuantities):
+        """
+        Set the inputs which the next call to :meth:`step` uses as those of the previous step
+
+        Args:
+            inputs: control variables
+        """
+        self._inputs = inputs.model_copy(deep=True)
+
     @abstractmethod
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         """
diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 8cf8e69..3a95131 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -92,6 +92,12 @@ class DualEstimator(OnlineEstimator):
         transient_converted, asoh_converted = self._get_converted_states()
         return transient_converted.combine_with((asoh_converted,))
 
+    def set_inputs(self, inputs: InputQuantities):
+        super().set_inputs(inputs)
+        for filter in (self.trans_filter, self.asoh_filter):
+            filter.controls = convert_vals_model_to_filter(inputs).convert(
+                conversion_operator=filter.model.control_conversion, inverse=True)
+
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 1b6f072..675578f 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -45,6 +45,11 @@ class JointEstimator(OnlineEstimator):
         # Convert from the filter coordinates
         return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
+    def set_inputs(self, inputs: InputQuantities):
+        super().set_inputs(inputs)
+        self.filter.controls = convert_vals_model_to_filter(inputs).convert(
+            conversion_operator=self.joint_model.control_conversion, inverse=True)
+
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # The wrapper converts the filter coordinates itself
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..9e56dfe 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -2,6 +2,7 @@
 with a particular emphasis on data built with
 `battery-data-toolkit <https://github.com/ROVI-org/battery-data-toolkit>`_"""
 from contextlib import nullcontext
+from itertools import chain
 from typing import Tuple, Union
 from math import isfinite
 from pathlib import Path
@@ -97,9 +98,11 @@ def run_online_estimate(
     else:
         raise ValueError(f'Unrecognized data type: {type(dataset)}')
 
-    # Update the initial inputs for the
-    initial_input, _ = row_to_inputs(next(row_iter))
-    estimator._u = initial_input
+    # Update the initial inputs for the estimator using the first record, which is then part of the estimation too
+    first_row = next(row_iter)
+    initial_input, _ = row_to_inputs(first_row)
+    estimator.set_inputs(initial_input)
+    row_iter = chain([first_row], row_iter)
 
     # Initialize the output arrays
     if output_states:
-- 
2.43.0


From 6bf7dd5ca8970cfdc6145646b214ac518326e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 20/29] fix: report standard deviations, not variances, in the
 std columns of the estimates

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 9e56dfe..0fa5284 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -133,9 +133,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From fdc32b4866ef5111f2bc9d497ed597f0e063ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 21/29] fix: read the estimates of all cycles, whatever their
 numbers are

---
 moirae/interface/hdf5.py | 588 +++++++++++++++++++--------------------
 1 file changed, 294 insertions(+), 294 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..a41b4dc 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,294 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks entries without data: those after the end or cycles which did not occur
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From 80dc9586db60054771ba677be7f808eda2439bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 22/29] fix: let the resizable storage of estimates grow to any
 step and cycle number

---
 moirae/interface/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index a41b4dc..4b2f5bc 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -162,7 +162,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 if self.resizable:
                     starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
                 else:
                     my_kwargs = {'shape': (expected, *value.shape)}
 
@@ -206,9 +206,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 my_dataset: h5py.Dataset = my_group[key]
 
-                # Expand by one chunk size if necessary
+                # Expand by at least one chunk size if necessary
                 if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
+                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
 
                 my_ind = (ind,) + (slice(None),) * value.ndim
                 my_dataset[my_ind] = value
-- 
2.43.0


From f0e1533faf7b94dccea2524b251350db0446b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 23/29] fix: evaluate the mean squared loss of more than one
 candidate at once

---
 moirae/estimators/offline/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -87,7 +87,7 @@ class MeanSquaredLoss(BaseLoss):
 
         # Prepare the output arrays
         num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
         true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
 
         true_y[0, :] = initial_output.to_numpy()
-- 
2.43.0


From 7c9e811e1acbe7ad586dfcd82ce5bf7e3cec87d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 24/29] restore the line endings of hdf5.py

---
 moirae/interface/hdf5.py | 588 +++++++++++++++++++--------------------
 1 file changed, 294 insertions(+), 294 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 4b2f5bc..2647a7f 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,294 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by at least one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks entries without data: those after the end or cycles which did not occur
-                continue
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by at least one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks entries without data: those after the end or cycles which did not occur
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From e73b91f18ebcd2700ae177bf9a22cf6ed0b6bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 25/29] fix: reject datasets whose raw data table is absent,
 not only unlisted

---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index f7678bd..bde56ef 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -74,7 +74,7 @@ class OCVExtractor(BaseExtractor):
 
     def check_data(self, data: CellDataset):
         # Check if there is a raw_data table
-        if 'raw_data' not in data.tables:
+        if data.tables.get('raw_data') is None:
             raise ValueError('`raw_data` table is required')
 
         # Compute the per-cycle capacity if unavailable
-- 
2.43.0


From 61e28811474adb811dfd7b378cdc0f3f733e0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 26/29] fix: let a step without duration change nothing with
 linear currents too

---
 moirae/models/ecm/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index ffd5d51..22e7752 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -50,8 +50,9 @@ class EquivalentCircuitModel(CellModel):
         current_k = previous_inputs.current  # shape (current_batch, 1)
         temp_k = previous_inputs.temperature  # shape (temp_batch, 1)
         current_kp1 = new_inputs.current  # shape (current_batch, 1)
+        # NOTE: nothing happens in a step without duration, for which there is no slope
         current_slope = np.atleast_2d(0.0) if self.current_behavior == 'constant' \
-            else (current_kp1 - current_k) / delta_t  # shape (trans_batch, 1)
+            else np.where(delta_t == 0, 0., current_kp1 - current_k) / np.where(delta_t == 0, 1., delta_t)
 
         # We will assume that all health parameters remain constant between time
         # steps, independent of temperature or SOC variations. The value used
-- 
2.43.0


From 5a3666e1d8fff6311026bf5d68bb2e1f6bdc549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 27/29] fix: keep copies of the health, state and inputs given
 to a filter-side model

BaseCellWrapper copied the values of the objects it was given for the inputs of a step but kept
references to the transient state, health and inputs themselves. Changing the health of a cell
after creating an estimator from it therefore changed the parameters the estimator holds fixed.
---
 moirae/estimators/online/utils/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..eb976cd 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -66,10 +66,11 @@ class BaseCellWrapper(ModelWrapper):
         if transients.batch_size > 1:
             raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
 
-        self.transients = transients
+        # Keep copies, so that later changes to the objects provided by the user do not alter the model
+        self.transients = transients.model_copy(deep=True)
         self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
 
         # Capture the shape of the outputs
         self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-- 
2.43.0


From e8225e54ad1f1bde1fc7a06864eb9911ba47a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 28/29] fix: HysteresisParameters accepts batched gamma values

The scalar bound ge=0 compared the whole array and raised for more than one value; check every value instead.
---
 moirae/models/ecm/components.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index b8d1d2a..2dc6f7a 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -1,7 +1,7 @@
 """Models for the components of circuits"""
 from typing import List, Optional, Union
 
-from pydantic import Field
+from pydantic import Field, field_validator
 import numpy as np
 
 from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
@@ -155,5 +155,12 @@ class HysteresisParameters(SOCInterpolatedHealth):
         Field(
             description='Values of maximum hysteresis at specified SOCs. Units: V')
     gamma: ScalarParameter = Field(default=0.,
-                                   description='Exponential approach rate. Units: 1/V',
-                                   ge=0.)
+                                   description='Exponential approach rate. Units: 1/V')
+
+    @field_validator('gamma', mode='after')
+    @classmethod
+    def _check_gamma(cls, value: np.ndarray) -> np.ndarray:
+        # A constraint on the field could only compare a single value
+        if not np.all(value >= 0):
+            raise ValueError('The approach rate of every member of the batch must be greater than or equal to 0')
+        return value
-- 
2.43.0


From f6a656ea11746530ecca0d3f792f0751fc8a4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 29/29] fix: SOC arrays with more than two axes are refused

---
 moirae/models/ecm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index a9d1248..8cfe6c2 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -66,7 +66,7 @@ class SOCInterpolatedHealth(HealthVariable):
         soc_shape = soc.shape
         soc_batch_size = 1
         soc_dim = 1 if len(soc_shape) == 0 else soc_shape[0]  # taking care of 0 or 1D cases
-        if len(soc_shape) > 3:
+        if len(soc_shape) > 2:
             raise ValueError(f'SOC must be passed as at most a 2D array, but has shape {soc_shape}!')
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
-- 
2.43.0

