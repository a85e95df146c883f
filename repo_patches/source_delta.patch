From a749406ff8f6e737a005bf840c8dc34a4068c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 1/6] fix: convert units in the impulse response model's heat
 uptake

The heat uptake used the magnitudes of the equivalent two-layer parameters in
whatever units they came out in: with q1 and q2 in e.g. delta_degC / (kW / m^2)
it was silently wrong by the conversion factor, and with e.g. kelvin and an
efficacy other than one it failed with an AssertionError.
---
 src/openscm_twolayermodel/impulse_response_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..f5bd276 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -36,6 +36,7 @@ class ImpulseResponseModel(
     _delta_t_unit = "yr"
 
     _erf_unit = "W/m^2"
+    _lambda0_unit = "W/m^2/delta_degC"
 
     _temp1_unit = "delta_degC"
     _temp2_unit = "delta_degC"
@@ -236,10 +237,10 @@ class ImpulseResponseModel(
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
             )
 
-            if str(efficacy_term.units) != "watt / meter ** 2":
-                raise AssertionError("units should have come out as W/m^2")
+        lambda0_mag = lambda0.to(self._lambda0_unit).magnitude
+        efficacy_term_mag = efficacy_term.to(self._erf_unit).magnitude
 
-        out = erf - lambda0.magnitude * (t1 + t2) - efficacy_term.magnitude
+        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag
 
         return out
 
-- 
2.43.0


From ca2db5199641b261b6bb57565c02183b7d37efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 2/6] fix: a single step from December to January is a monthly
 step

Two points one month apart, e.g. 2000-12-01 and 2001-01-01, differ by one in
their year, so run_scenarios took the step to be a year rather than a month.
---
 src/openscm_twolayermodel/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..2dc9c1e 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -152,13 +152,8 @@ class TwoLayerVariant(Model):
 
     @staticmethod
     def _select_timestep(driver):
-        year_diff = driver["year"].diff().dropna()
-        if (year_diff == 1).all():
-            # assume yearly timesteps
-            return 1 * ur("yr")
-
         time_diff = driver["time"].diff().dropna()
-        if all(
+        if len(time_diff) > 0 and all(
             np.logical_and(
                 time_diff <= np.timedelta64(31, "D"),
                 time_diff >= np.timedelta64(28, "D"),
@@ -168,6 +163,11 @@ class TwoLayerVariant(Model):
             # while we have constant internal timesteps it's the best we can do.
             return 1 * ur("month")
 
+        year_diff = driver["year"].diff().dropna()
+        if (year_diff == 1).all():
+            # assume yearly timesteps
+            return 1 * ur("yr")
+
         raise NotImplementedError(
             "Could not decide on timestep for time axis: {}".format(driver["time"])
         )
-- 
2.43.0


From 5e657ae342be4605a027ae89b0a6b782e69243c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 3/6] fix: select the time step of each scenario from its own
 time axis

Scenarios run together share a time axis, and a scenario with no data for some
of it (e.g. yearly data run together with monthly data, or data every ten years
run together with yearly data) was run with a time step which isn't its own.
---
 src/openscm_twolayermodel/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 2dc9c1e..c1a5842 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -223,9 +223,6 @@ class TwoLayerVariant(Model):
         for k, v in save_paras_meta.items():
             driver[k] = v
 
-        timestep = self._select_timestep(driver)
-        self.delta_t = timestep
-
         run_store = list()
 
         driver_ts = driver.timeseries()
@@ -238,13 +235,16 @@ class TwoLayerVariant(Model):
             meta = dict(zip(driver_ts.index.names, label))
             row_no_nan = row.dropna()
 
+            out_run_tss_base = row_no_nan.to_frame().T
+            out_run_tss_base.index.names = driver_ts.index.names
+
+            # the scenarios' time axes can differ (e.g. one can have gaps)
+            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
+
             self.set_drivers(row_no_nan.values * ur(meta["unit"]))
             self.reset()
             self.run()
 
-            out_run_tss_base = row_no_nan.to_frame().T
-            out_run_tss_base.index.names = driver_ts.index.names
-
             out_run_tss = [out_run_tss_base]
             out_run_tss += self._get_run_output_tss(out_run_tss[0])
 
-- 
2.43.0


From 43b2d4155671cd67f822fa253be1072853b73ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 4/6] fix: do not modify the pd.DataFrame given to
 run_scenarios

ScmRun resets the index of the pd.DataFrame it is given in place.
---
 src/openscm_twolayermodel/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index c1a5842..c38cab8 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -135,7 +135,7 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
         if not isinstance(scenarios, ScmRun):
-            driver = ScmRun(scenarios)
+            driver = ScmRun(scenarios, copy_data=True)
         else:
             driver = scenarios.copy()
 
-- 
2.43.0


From 5075dc49a9ef9173c9a0a752bd3bf2fc91d6e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 5/6] fix: climate sensitivity for f2x given as an unsigned
 integer

---
 src/openscm_twolayermodel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/utils.py b/src/openscm_twolayermodel/utils.py
index 6a620f9..fe1243c 100644
--- a/src/openscm_twolayermodel/utils.py
+++ b/src/openscm_twolayermodel/utils.py
@@ -34,4 +34,4 @@ def convert_lambda_to_ecs(lambda_val, f2x=3.74 * unit_registry("W/m^2")):
     if not isinstance(f2x, pint.Quantity):
         raise TypeError("f2x is not a pint.Quantity")
 
-    return -f2x / lambda_val
+    return -(f2x / lambda_val)
-- 
2.43.0


From 88910e9a1e2f5a4a88bee58c2f23ab927e172384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 6/6] fix: impulse response step for delta_t given as an
 unsigned integer

---
 src/openscm_twolayermodel/impulse_response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index f5bd276..08772a6 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -209,8 +209,8 @@ class ImpulseResponseModel(
 
     @staticmethod
     def _calculate_next_temp(delta_t, t, q, d, erf):
-        decay_factor = np.exp(-delta_t / d)
-        rise = erf * q * (1 - np.exp(-delta_t / d))
+        decay_factor = np.exp(-(delta_t / d))
+        rise = erf * q * (1 - np.exp(-(delta_t / d)))
 
         return t * decay_factor + rise
 
-- 
2.43.0

