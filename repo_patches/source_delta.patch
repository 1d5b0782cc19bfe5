From 7ad971eea91d52a75639e85a01c43bd68e763603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 01/25] fix: count the cold-side fouling resistance in
 UAOverall

The hot-side fouling resistance overwrote the cold-side one, so the total
resistance held the hot one twice and the cold one not at all.
---
 openconcept/thermal/heat_exchanger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 9163dbf..1ecd878 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -907,14 +907,14 @@ class UAOverall(ExplicitComponent):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfc)
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfh)
 
     def compute_partials(self, inputs, J):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
 
         dRcdh = -1 / inputs["h_conv_cold"] ** 2 / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         dRcdA = -1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] ** 2 / inputs["eta_overall_cold"]
@@ -934,12 +934,12 @@ class UAOverall(ExplicitComponent):
             -self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"] ** 2
         )
 
-        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdh)
-        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdA + dRfcdA)
-        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdeta + dRfcdeta)
-        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdh)
-        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdA + dRfhdA)
-        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdeta + dRfhdeta)
+        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdh)
+        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdA + dRfcdA)
+        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdeta + dRfcdeta)
+        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdh)
+        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdA + dRfhdA)
+        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdeta + dRfhdeta)
 
 
 class NTUMethod(ExplicitComponent):
-- 
2.43.0


From f2bbb8fe52dc03a83d5a7e96abb57deaa04be7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 02/25] fix: let SimplePropeller be built with three blades

The else branch belonged to the four-blade test only, so num_blades=3
always raised NotImplementedError after its maps had been built.
---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..38ad1e5 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -61,7 +61,7 @@ class SimplePropeller(Group):
         if n_blades == 3:
             propmap = propeller_map_Raymer(nn)
             staticpropmap = static_propeller_map_Raymer(nn)
-        if n_blades == 4:
+        elif n_blades == 4:
             propmap = propeller_map_highpower(nn)
             staticpropmap = static_propeller_map_highpower(nn)
         else:
-- 
2.43.0


From 2fd38ae26ba7df7fb95e408525322486cff6458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 03/25] fix: derivative columns of scalar inputs with length
 above one

An input with one entry along the vector dimension still has 'length'
columns, and output column k depends on input column k, not on column 0.
---
 openconcept/utilities/math/add_subtract_comp.py    | 2 +-
 openconcept/utilities/math/multiply_divide_comp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..e32813b 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -225,7 +225,7 @@ class AddSubtractComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 1e0ed16..41ee296 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -257,7 +257,7 @@ class ElementMultiplyDivideComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
-- 
2.43.0


From 041aced38be606edbfdd9c6f033af2ec9fa836ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 04/25] fix: keep units and desc of AddSubtractComp over
 repeated setups

setup() popped them from the stored equation table, so a second setup() of
the same problem added the variables without units.
---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index e32813b..51ca9e7 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units", None)
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From 4b3f24f0b874781020b8de7f9503770823321826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 05/25] fix: atmosphere derivatives use the masks of the
 current altitude

compute_partials read the layer masks left by the last compute() call, which
need not have been made at the same altitude.
---
 openconcept/atmospherics/pressure_comp.py    | 1 +
 openconcept/atmospherics/temperature_comp.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/openconcept/atmospherics/pressure_comp.py b/openconcept/atmospherics/pressure_comp.py
index 31be2ab..d3af091 100644
--- a/openconcept/atmospherics/pressure_comp.py
+++ b/openconcept/atmospherics/pressure_comp.py
@@ -51,6 +51,7 @@ class PressureComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         h_m = inputs["fltcond|h"]
 
+        self.tropos_mask, self.strato_mask, self.smooth_mask = get_mask_arrays(h_m)
         derivs = compute_pressure_derivs(h_m, self.tropos_mask, self.strato_mask, self.smooth_mask)
 
         partials["fltcond|p", "fltcond|h"] = derivs
diff --git a/openconcept/atmospherics/temperature_comp.py b/openconcept/atmospherics/temperature_comp.py
index f30c4be..f34221f 100644
--- a/openconcept/atmospherics/temperature_comp.py
+++ b/openconcept/atmospherics/temperature_comp.py
@@ -56,6 +56,7 @@ class TemperatureComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         h_m = inputs["fltcond|h"]
 
+        self.tropos_mask, self.strato_mask, self.smooth_mask = get_mask_arrays(h_m)
         derivs = compute_temp_derivs(h_m, self.tropos_mask, self.strato_mask, self.smooth_mask)
 
         partials["fltcond|T", "fltcond|h"] = derivs
-- 
2.43.0


From 5e88ae3a213a50d5fa73e0db5da7c175bf016b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 06/25] fix: output units of a product whose first factor has
 no units

The unit string was assembled as if the first factor always carried units, so
input_units=[None, 's', ...] produced '* (s)', which OpenMDAO rejects.
---
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 41ee296..d0d4888 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -267,12 +267,12 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 # derive the units of the output vector from the inputs
                 if input_units[i] is not None:
                     if divide[i]:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append("(" + input_units[i] + ")**-1 ")
                         else:
                             output_units_assemble.append("/ (" + input_units[i] + ") ")
                     else:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append(input_units[i] + " ")
                         else:
                             output_units_assemble.append("* (" + input_units[i] + ") ")
-- 
2.43.0


From af42a6e4b8a1dae744edf01e591362f29751605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 07/25] fix: allow a second setup of a model that contains an
 IntegratorGroup

---
 openconcept/mission/mission_groups.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..4a6d2e3 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -212,10 +212,15 @@ class IntegratorGroup(om.Group):
         # (This IntegratorGroup is never added directly to the OM model)
         time_units = self._oc_time_units
         num_nodes = self.options["num_nodes"]
-        self.add_subsystem(
-            "ode_integ",
-            Integrator(time_setup="duration", method="simpson", diff_units=time_units, num_nodes=num_nodes),
-        )
+        if "ode_integ" in self._static_subsystems_allprocs:
+            # setup is being called again, so the integrator from the previous setup is still here
+            self.ode_integ.options["num_nodes"] = num_nodes
+            self.ode_integ._var_promotes = {"input": [], "output": [], "any": []}
+        else:
+            self.add_subsystem(
+                "ode_integ",
+                Integrator(time_setup="duration", method="simpson", diff_units=time_units, num_nodes=num_nodes),
+            )
 
         # Call om.Group's _setup_procs which does a lot of things as an initial phase of setup.
         # We pass *args because the signature of this method varies depending on the OM version.
-- 
2.43.0


From c7b17a5960cac60f84a2dbabf5bb08210d4b9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 08/25] fix: do not print in MinComp.compute

---
 openconcept/utilities/math/max_min_comp.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/openconcept/utilities/math/max_min_comp.py b/openconcept/utilities/math/max_min_comp.py
index 3d65d9f..b0c5b0e 100644
--- a/openconcept/utilities/math/max_min_comp.py
+++ b/openconcept/utilities/math/max_min_comp.py
@@ -80,9 +80,7 @@ class MinComp(om.ExplicitComponent):
         self.declare_partials("min", "array", rows=np.zeros(nn), cols=np.arange(0, nn))
 
     def compute(self, inputs, outputs):
-        print(inputs["array"])
         outputs["min"] = np.amin(inputs["array"])
-        print(outputs["min"])
 
     def compute_partials(self, inputs, J):
         J["min", "array"] = np.where(inputs["array"] == np.amin(inputs["array"]), 1, 0)
-- 
2.43.0


From b4e3a94d9b5ed5453a8642695c25d184c47212f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 09/25] fix: leave the variable table passed to DVLabel
 unmodified

---
 openconcept/utilities/dvlabel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openconcept/utilities/dvlabel.py b/openconcept/utilities/dvlabel.py
index 3d803e0..b838d96 100644
--- a/openconcept/utilities/dvlabel.py
+++ b/openconcept/utilities/dvlabel.py
@@ -27,7 +27,8 @@ class DVLabel(ExplicitComponent):
 
     def __init__(self, vars_list):
         super(DVLabel, self).__init__()
-        self.vars_list = vars_list
+        # copy, so that the list of the caller is not modified below
+        self.vars_list = [list(var_list) for var_list in vars_list]
         for i, var_list in enumerate(self.vars_list):
             val = var_list[2]
             if isinstance(val, (float, int)) or np.isscalar(val):
-- 
2.43.0


From 6e7f06ddf10f26dcba5b5c7393431d9dc3342692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 10/25] fix: deterministic default temperatures in
 PerfectHeatTransferComp

---
 openconcept/thermal/thermal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/thermal.py b/openconcept/thermal/thermal.py
index df6b28e..bb23592 100644
--- a/openconcept/thermal/thermal.py
+++ b/openconcept/thermal/thermal.py
@@ -43,12 +43,12 @@ class PerfectHeatTransferComp(ExplicitComponent):
         self.add_input("q", desc="Heat INTO the fluid stream (positive is heat addition)", units="W", shape=(nn,))
         self.add_input("mdot_coolant", desc="Mass flow rate of coolant", units="kg/s", shape=(nn,))
         self.add_output(
-            "T_out", desc="Outgoing coolant temp", val=np.random.uniform(300, 330), lower=1e-10, units="K", shape=(nn,)
+            "T_out", desc="Outgoing coolant temp", val=315.0, lower=1e-10, units="K", shape=(nn,)
         )
         self.add_output(
             "T_average",
             desc="Average temp of fluid",
-            val=np.random.uniform(300, 330),
+            val=315.0,
             lower=1e-10,
             units="K",
             shape=(nn,),
-- 
2.43.0


From 38e70bae5d37568ef023771de7f99192288e76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 11/25] fix: allow a second setup of a mission that links its
 phases

---
 openconcept/mission/mission_groups.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index 4a6d2e3..1266328 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -296,6 +296,13 @@ class TrajectoryGroup(om.Group):
     def __init__(self, **kwargs):
         super(TrajectoryGroup, self).__init__(**kwargs)
         self._oc_phases_to_link = []
+        self._oc_static_phases_to_link = []
+
+    def _setup_procs(self, *args):
+        # setup links its phases again every time it is called, so only keep the
+        # linkages that were requested outside of setup
+        self._oc_phases_to_link = list(self._oc_static_phases_to_link)
+        super(TrajectoryGroup, self)._setup_procs(*args)
 
     def _configure(self):
         super(TrajectoryGroup, self)._configure()
@@ -336,4 +343,7 @@ class TrajectoryGroup(om.Group):
         # need to cache this because the data we need isn't ready yet
         if not isinstance(phase1, PhaseGroup) or not isinstance(phase2, PhaseGroup):
             raise ValueError("link_phases phase arguments must be OpenConcept PhaseGroup objects")
-        self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
+        if self._static_mode:
+            self._oc_static_phases_to_link.append((phase1, phase2, states_to_skip))
+        else:
+            self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
-- 
2.43.0


From f7f6fad1cde97d6e1b65379c5e654d34d89adb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 12/25] fix: heat pipe wick resistance uses the wick
 conductivity

---
 openconcept/thermal/heat_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index d9bc53e..55547a9 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -270,14 +270,14 @@ class HeatPipeThermalResistance(ExplicitComponent):
         # Heat enters radially in through end of pipe (evaporator), along length of pipe, and radially out (condenser)
         # Resistance of evaporator
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
+        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_evap = log_o_i_pipe / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
         R_evap = R_mesh_evap + R_pipe_evap
 
         # Resistance of condenser
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
+        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_cond = log_o_i_pipe / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
         R_cond = R_mesh_cond + R_pipe_cond
-- 
2.43.0


From a2c0efd9be57d97733aed401118365682a79a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 13/25] fix: start the climb and the reserve climb at the
 airfield altitude in reserve missions

---
 openconcept/mission/profiles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 922dc5c..83a0ff1 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -138,7 +138,7 @@ class FullMissionWithReserve(TrajectoryGroup):
         )
         climb.connect("ode_integ_phase.fltcond|h_final", "climbdt.fltcond|h_final")
         self.connect("cruise|h0", "climb.climbdt.cruise|h0")
-        if not self.include_reserve and not self.include_takeoff:  # BasicMission
+        if not self.include_takeoff:  # BasicMission and MissionWithReserve
             self.connect("takeoff|h", "climb.ode_integ_phase.fltcond|h_initial")
 
         cruise = self.add_subsystem(
@@ -210,6 +210,8 @@ class FullMissionWithReserve(TrajectoryGroup):
             )
             reserve_climb.connect("ode_integ_phase.fltcond|h_final", "reserve_climbdt.fltcond|h_final")
             self.connect("reserve|h0", "reserve_climb.reserve_climbdt.reserve|h0")
+            # the descent ends at the landing altitude, so the reserve climb starts there
+            self.connect("takeoff|h", "reserve_climb.ode_integ_phase.fltcond|h_initial")
 
             reserve_cruise = self.add_subsystem(
                 "reserve_cruise",
-- 
2.43.0


From 9cc6a8e37a32158a8b981feebceb5b03ba1d6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 14/25] fix: SeriesHybridElectricPropulsionSystem promotes the
 flight conditions of its propeller

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index 3700417..d7e0bfe 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -174,7 +174,7 @@ class SeriesHybridElectricPropulsionSystem(Group):
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
-            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond_*"], promotes_outputs=["thrust"]
+            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
         )
 
         # connect design variables to model component inputs
-- 
2.43.0


From 914399d4784dea14ef8de0bc60ccddaea0751e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 15/25] fix: surrogate drag polars retrain when training points
 or mesh size change

The cached training data of VLMDataGen and OASDataGen was reused after the
training grid, the mesh size or the number of spline points changed, it was
marked valid before the training run had finished, and a data generator with
other training points wrote its data into arrays of another one's shape.
---
 .../openaerostruct/aerostructural.py          | 25 ++++++++++++-------
 .../aerodynamics/openaerostruct/drag_polar.py | 21 ++++++++++------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 195be99..56e2e1f 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -440,6 +440,7 @@ class OASDataGen(om.ExplicitComponent):
         OASDataGen.failure = np.zeros((n_Mach, n_alpha, n_alt))
         OASDataGen.W_wing = 0
         OASDataGen.partials = None
+        OASDataGen.trained_for = None  # mesh and training points the cached data is valid for
 
     def compute(self, inputs, outputs):
         S = inputs["ac|geom|wing|S_ref"]
@@ -455,8 +456,11 @@ class OASDataGen(om.ExplicitComponent):
 
         # If the inputs are unchaged, use the previously calculated values
         tol = self.options["regen_tol"]  # floating point comparison tolerance
+        train_points = tuple(tuple(self.options[name]) for name in ["Mach_train", "alpha_train", "alt_train"])
+        sizes = (self.options["num_x"], self.options["num_y"], twist.size, toverc.size, skin.size, spar.size)
         if (
-            np.abs(S - OASDataGen.S) < tol
+            OASDataGen.trained_for == (sizes, train_points)
+            and np.abs(S - OASDataGen.S) < tol
             and np.abs(AR - OASDataGen.AR) < tol
             and np.abs(taper - OASDataGen.taper) < tol
             and np.abs(sweep - OASDataGen.c4sweep) < tol
@@ -475,16 +479,18 @@ class OASDataGen(om.ExplicitComponent):
         print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
         print(f"toverc = {toverc}; skin = {skin}; spar = {spar}; temp_incr = {temp_incr}")
 
-        # Copy new values to cached ones
+        # Copy new values to cached ones; the cache is not valid until the training data is computed
+        OASDataGen.trained_for = None
         OASDataGen.S[:] = S
         OASDataGen.AR[:] = AR
         OASDataGen.taper[:] = taper
         OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
+        OASDataGen.twist = np.array(twist)
+        OASDataGen.toverc = np.array(toverc)
+        OASDataGen.skin = np.array(skin)
+        OASDataGen.spar = np.array(spar)
         OASDataGen.temp_incr[:] = temp_incr
+        OASDataGen.Mach, OASDataGen.alpha, OASDataGen.alt = np.meshgrid(*train_points, indexing="ij")
 
         # Compute new training values
         train_in = {}
@@ -504,11 +510,12 @@ class OASDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        OASDataGen.CL[:] = data["CL"]
-        OASDataGen.CD[:] = data["CD"]
-        OASDataGen.failure[:] = data["failure"]
+        OASDataGen.CL = data["CL"]
+        OASDataGen.CD = data["CD"]
+        OASDataGen.failure = data["failure"]
         OASDataGen.W_wing = data["W_wing"]
         OASDataGen.partials = copy(data["partials"])
+        OASDataGen.trained_for = (sizes, train_points)
         outputs["CL_train"] = OASDataGen.CL
         outputs["CD_train"] = OASDataGen.CD + CD_nonwing
         outputs["failure_train"] = OASDataGen.failure
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 8e5e7b3..2494842 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -382,7 +382,8 @@ class VLMDataGen(om.ExplicitComponent):
     a surrogate model. The grid is defined by the options and the
     mesh geometry by the input. This component will only recalculate
     the lift and drag grid when the mesh changes. All VLMDataGen
-    components in the model must use the same training points and surf_options.
+    components in the model must use the same surf_options, and should use the
+    same training points so that they can share the training data.
 
     Inputs
     ------
@@ -490,6 +491,7 @@ class VLMDataGen(om.ExplicitComponent):
         VLMDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
         VLMDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
         VLMDataGen.partials = None
+        VLMDataGen.trained_for = None  # training points the cached data is valid for
 
     def compute(self, inputs, outputs):
         mesh = inputs["ac|geom|wing|OAS_mesh"]
@@ -498,8 +500,10 @@ class VLMDataGen(om.ExplicitComponent):
 
         # If the inputs are unchaged, use the previously calculated values
         tol = 1e-13  # floating point comparison tolerance
+        train_points = tuple(tuple(self.options[name]) for name in ["Mach_train", "alpha_train", "alt_train"])
         if (
-            np.all(np.abs(mesh - VLMDataGen.mesh) < tol)
+            VLMDataGen.trained_for == (mesh.shape, train_points)
+            and np.all(np.abs(mesh - VLMDataGen.mesh) < tol)
             and np.all(np.abs(toverc - VLMDataGen.toverc) < tol)
             and np.abs(temp_incr - VLMDataGen.temp_incr) < tol
         ):
@@ -507,10 +511,12 @@ class VLMDataGen(om.ExplicitComponent):
             outputs["CD_train"] = VLMDataGen.CD
             return
 
-        # Copy new values to cached ones
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
+        # Copy new values to cached ones; the cache is not valid until the training data is computed
+        VLMDataGen.trained_for = None
+        VLMDataGen.mesh = np.array(mesh)
+        VLMDataGen.toverc = np.array(toverc)
         VLMDataGen.temp_incr[:] = temp_incr
+        VLMDataGen.Mach, VLMDataGen.alpha, VLMDataGen.alt = np.meshgrid(*train_points, indexing="ij")
 
         # Compute new training values
         train_in = {}
@@ -524,9 +530,10 @@ class VLMDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        VLMDataGen.CL[:] = data["CL"]
-        VLMDataGen.CD[:] = data["CD"]
+        VLMDataGen.CL = data["CL"]
+        VLMDataGen.CD = data["CD"]
         VLMDataGen.partials = copy(data["partials"])
+        VLMDataGen.trained_for = (mesh.shape, train_points)
         outputs["CL_train"] = VLMDataGen.CL
         outputs["CD_train"] = VLMDataGen.CD
 
-- 
2.43.0


From 25e346870a8bc53aac92f1826665df29cef9fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 16/25] fix: connect the nozzle area of the refrigerated twin
 hybrid to its duct

The ac|propulsion|thermal|duct|area_nozzle design variable was relabelled but never connected, so the cooling duct
always used its 1 m**2 default nozzle.
---
 openconcept/propulsion/systems/thermal_series_hybrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openconcept/propulsion/systems/thermal_series_hybrid.py b/openconcept/propulsion/systems/thermal_series_hybrid.py
index ff76f7e..9d01118 100644
--- a/openconcept/propulsion/systems/thermal_series_hybrid.py
+++ b/openconcept/propulsion/systems/thermal_series_hybrid.py
@@ -401,6 +401,7 @@ class TwinSeriesHybridElectricThermalPropulsionRefrigerated(Group):
             HXGroup(num_nodes=nn),
             promotes_inputs=["ac|*", ("rho_cold", "fltcond|rho"), ("T_in_cold", "fltcond|T")],
         )
+        self.connect("area_nozzle", "duct.area_nozzle")
         self.connect("duct.mdot", "hx.mdot_cold")
         self.connect("hx.delta_p_cold", "duct.delta_p_hex")
 
-- 
2.43.0


From 2854c48e1e10ca58657ecec2e59a6f039d48f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 17/25] fix: force contours use the width of the trailing panel
 edges

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 448fc47..f67e2c4 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -232,7 +232,7 @@ def plot_OAS_force_contours(
 
     # Compute the panel areas
     panel_front_widths = y_mesh[:-1, 1:] - y_mesh[:-1, :-1]
-    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, 1:]
+    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, :-1]
     panel_avg_widths = 0.5 * (panel_front_widths + panel_back_widths)
     panel_left_side_lengths = x_mesh[1:, :-1] - x_mesh[:-1, :-1]
     panel_right_side_lengths = x_mesh[1:, 1:] - x_mesh[:-1, 1:]
-- 
2.43.0


From 02c11e5d7345287c98d30cb949fc163d74a06c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 18/25] fix: plot_trajectory_grid without y labels labels the
 axes by variable name

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index f67e2c4..5c66651 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -92,7 +92,7 @@ def plot_trajectory_grid(
             if y_labels[i] is not None:
                 axs[row_no, col_no].set(ylabel=y_labels[i])
         else:
-            axs[row_no, col_no].set(y_var)
+            axs[row_no, col_no].set(ylabel=y_var)
 
         counter_within_file += 1
 
-- 
2.43.0


From 4645ff847f28fcd9f6de3d28915d590bebe4fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 19/25] fix: plot_trajectory_grid accepts layouts with one row
 or column

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 5c66651..f9930af 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -71,7 +71,7 @@ def plot_trajectory_grid(
                 # write the file
                 if savefig is not None:
                     plt.savefig(savefig + "_" + str(file_counter) + ".pdf")
-            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize)
+            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, squeeze=False, figsize=figsize)
             file_counter += 1
             counter_within_file = 0
 
-- 
2.43.0


From 08c5c62b4b56f66065d562c70cd036cce0b210b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 20/25] fix: documented units of inputs and outputs match the
 declared ones

---
 openconcept/aerodynamics/openaerostruct/drag_polar.py |  2 +-
 openconcept/atmospherics/compute_atmos_props.py       |  2 +-
 openconcept/atmospherics/dynamic_pressure_comp.py     |  2 +-
 openconcept/geometry/wing_planform.py                 |  2 +-
 openconcept/propulsion/propeller.py                   |  2 +-
 openconcept/propulsion/rubberized_turbofan.py         |  2 +-
 openconcept/thermal/heat_exchanger.py                 | 10 +++++-----
 openconcept/thermal/heat_pipe.py                      |  8 ++++----
 openconcept/thermal/hose.py                           |  2 +-
 openconcept/thermal/motor_cooling.py                  |  2 +-
 openconcept/thermal/pump.py                           |  2 +-
 openconcept/thermal/thermal.py                        |  2 +-
 12 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 2494842..27d8405 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -92,7 +92,7 @@ class VLMDragPolar(om.Group):
         If geometry option is \"trapezoidal\" (the default)
             - **ac|geom|wing|AR** *(float)* - Aspect ratio (scalar, dimensionless)
             - **ac|geom|wing|taper** *(float)* - Taper ratio (must be >0 and <=1); tip chord / root chord (scalar, dimensionless)
-            - **ac|geom|wing|c4sweep** *(float)* - Quarter chord sweep angle (scalar, degrees)
+            - **ac|geom|wing|c4sweep** *(float)* - Quarter chord sweep angle (scalar, degC)
             - **ac|geom|wing|toverc** *(float)* - Wing tip and wing root airfoil thickness to chord ratio in that order; panel
               thickness to chord ratios are linearly interpolated between the tip and root (vector of length 2, dimensionless)
             - **ac|geom|wing|twist** *(float)* - Twist at spline control points, ordered from tip to root (vector of length num_twist, degrees)
diff --git a/openconcept/atmospherics/compute_atmos_props.py b/openconcept/atmospherics/compute_atmos_props.py
index 474251a..322c74b 100644
--- a/openconcept/atmospherics/compute_atmos_props.py
+++ b/openconcept/atmospherics/compute_atmos_props.py
@@ -18,7 +18,7 @@ class ComputeAtmosphericProperties(Group):
     Inputs
     ------
     fltcond|h : float
-        Altitude (vector, km)
+        Altitude (vector, m)
     fltcond|Ueas : float
         Equivalent airspeed (vector, m/s)
     fltcond|TempIncrement : float
diff --git a/openconcept/atmospherics/dynamic_pressure_comp.py b/openconcept/atmospherics/dynamic_pressure_comp.py
index 5134d06..2344095 100644
--- a/openconcept/atmospherics/dynamic_pressure_comp.py
+++ b/openconcept/atmospherics/dynamic_pressure_comp.py
@@ -12,7 +12,7 @@ class DynamicPressureComp(ExplicitComponent):
     fltcond|Utrue : float
         True airspeed (vector, m/s)
     fltcond|rho : float
-        Density (vector, m/s)
+        Density (vector, kg/m**3)
 
     Outputs
     -------
diff --git a/openconcept/geometry/wing_planform.py b/openconcept/geometry/wing_planform.py
index 40d24ff..7a2d17f 100644
--- a/openconcept/geometry/wing_planform.py
+++ b/openconcept/geometry/wing_planform.py
@@ -104,7 +104,7 @@ class WingAspectRatio(om.ExplicitComponent):
     Outputs
     -------
     AR : float
-        Aspect ratio, weighted by section areas (scalar, deg)
+        Aspect ratio, weighted by section areas (scalar, dimensionless)
     """
 
     def setup(self):
diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 38ad1e5..5f3c1fe 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -35,7 +35,7 @@ class SimplePropeller(Group):
     thrust : float
         Propeller thrust (vector, N)
     component_weight : float
-        Prop weight (scalar, kg)
+        Prop weight (scalar, lb)
 
     Options
     -------
diff --git a/openconcept/propulsion/rubberized_turbofan.py b/openconcept/propulsion/rubberized_turbofan.py
index edf1859..45b9598 100644
--- a/openconcept/propulsion/rubberized_turbofan.py
+++ b/openconcept/propulsion/rubberized_turbofan.py
@@ -27,7 +27,7 @@ class RubberizedTurbofan(om.Group):
         (vector, dimensionless)
     fltcond|h: float
         Altitude
-        (vector, dimensionless)
+        (vector, ft)
     fltcond|M: float
         Mach number
         (vector, dimensionless)
diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 1ecd878..2d6515d 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -644,9 +644,9 @@ class ConvectiveCoefficient(ExplicitComponent):
     Outputs
     -------
     h_conv_cold : float
-        Convective heat transfer coefficient (vector, dimensionless)
+        Convective heat transfer coefficient (vector, W/m**2/K)
     h_conv_hot : float
-        Convective heat transfer coefficient (vector, dimensionless)
+        Convective heat transfer coefficient (vector, W/m**2/K)
 
     Options
     -------
@@ -705,13 +705,13 @@ class FinEfficiency(ExplicitComponent):
     Inputs
     -------
     h_conv_cold : float
-        Convective heat transfer coefficient (vector, dimensionless)
+        Convective heat transfer coefficient (vector, W/m**2/K)
     fin_area_ratio_cold : float
         Ratio of fin area to total heat transfer area (scalar, dimensionless)
     channel_height_cold : float
         Height of each finned flow channel on the cold side (scalar, m)
     h_conv_hot : float
-        Convective heat transfer coefficient (vector, dimensionless)
+        Convective heat transfer coefficient (vector, W/m**2/K)
     fin_area_ratio_hot : float
         Ratio of fin area to total heat transfer area (scalar, dimensionless)
     channel_height_hot : float
@@ -1382,7 +1382,7 @@ class HXGroup(Group):
     mdot_hot : float
         Mass flow rate of the hot side (liquid) (vector, kg/s)
     T_in_hot : float
-        Inflow temperature of the hot side (liquid) (vector, kg/s)
+        Inflow temperature of the hot side (liquid) (vector, K)
     rho_hot : float
         Inflow density of the hot side (liquid) (vector, kg/m**3)
     """
diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index 55547a9..7c86563 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -208,7 +208,7 @@ class HeatPipeThermalResistance(ExplicitComponent):
         must be specified if vapor_resistance = True, otherwise unused (vector, W)
     delta_T : float
         Vapor temperature drop from one end of the heat pipe to the other;
-        must be specified if vapor_resistance = True, otherwise unused (vector, degC)
+        must be specified if vapor_resistance = True, otherwise unused (vector, K)
 
     Outputs
     -------
@@ -729,11 +729,11 @@ class QMaxAnalyticalPart(ExplicitComponent):
     inner_diam : float
         Inner diameter of heat pipe (scalar, m)
     temp : float
-        Average temperature in heat pipe (vector, K)
+        Average temperature in heat pipe (vector, degC)
     rho_liquid : float
-        Density of working fluid in liquid form (vector, m)
+        Density of working fluid in liquid form (vector, kg/m**3)
     rho_vapor : float
-        Density of working fluid in vapor form (vector, m)
+        Density of working fluid in vapor form (vector, kg/m**3)
 
     Outputs
     -------
diff --git a/openconcept/thermal/hose.py b/openconcept/thermal/hose.py
index 857d9de..16627f3 100644
--- a/openconcept/thermal/hose.py
+++ b/openconcept/thermal/hose.py
@@ -24,7 +24,7 @@ class SimpleHose(om.ExplicitComponent):
     Outputs
     -------
     delta_p : float
-        Pressure drop in the hose - positive is loss (vector, kg/s)
+        Pressure drop in the hose - positive is loss (vector, Pa)
     component_weight : float
         Weight of hose AND coolant (scalar, kg)
 
diff --git a/openconcept/thermal/motor_cooling.py b/openconcept/thermal/motor_cooling.py
index b74ac43..639cf81 100644
--- a/openconcept/thermal/motor_cooling.py
+++ b/openconcept/thermal/motor_cooling.py
@@ -22,7 +22,7 @@ class LiquidCooledMotor(om.Group):
     duration : float
         Duration of mission segment, only required in unsteady mode
     power_rating : float
-        Rated power of the motor (scalar, kW)
+        Rated power of the motor (scalar, W)
 
     Outputs
     -------
diff --git a/openconcept/thermal/pump.py b/openconcept/thermal/pump.py
index 664cfc6..ac9bbbd 100644
--- a/openconcept/thermal/pump.py
+++ b/openconcept/thermal/pump.py
@@ -17,7 +17,7 @@ class SimplePump(om.ExplicitComponent):
     rho_coolant : float
         Coolant density (vector, kg/m3)
     delta_p : float
-        Pressure rise provided by the pump (vector, kg/s)
+        Pressure rise provided by the pump (vector, Pa)
 
     Outputs
     -------
diff --git a/openconcept/thermal/thermal.py b/openconcept/thermal/thermal.py
index bb23592..7cb54ba 100644
--- a/openconcept/thermal/thermal.py
+++ b/openconcept/thermal/thermal.py
@@ -139,7 +139,7 @@ class ThermalComponentMassless(ImplicitComponent):
     Outputs
     -------
     T_object : float
-        Object temperature (vector, K/s)
+        Object temperature (vector, K)
 
     Options
     -------
-- 
2.43.0


From de29d15c25c1d3b52a69046d64bc766c14ef60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 21/25] fix: documented option names and defaults match the
 declared ones

---
 openconcept/atmospherics/dynamic_pressure_comp.py | 2 +-
 openconcept/atmospherics/mach_number_comp.py      | 2 +-
 openconcept/atmospherics/true_airspeed.py         | 4 ++--
 openconcept/energy_storage/battery.py             | 2 +-
 openconcept/thermal/battery_cooling.py            | 8 ++++----
 openconcept/thermal/ducts.py                      | 2 +-
 openconcept/thermal/thermal.py                    | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/openconcept/atmospherics/dynamic_pressure_comp.py b/openconcept/atmospherics/dynamic_pressure_comp.py
index 2344095..fce0297 100644
--- a/openconcept/atmospherics/dynamic_pressure_comp.py
+++ b/openconcept/atmospherics/dynamic_pressure_comp.py
@@ -22,7 +22,7 @@ class DynamicPressureComp(ExplicitComponent):
     Options
     -------
     num_nodes : int
-        Number of analysis points to run (sets vec length) (default 1)
+        Number of analysis points to run (sets vec length)
     """
 
     def initialize(self):
diff --git a/openconcept/atmospherics/mach_number_comp.py b/openconcept/atmospherics/mach_number_comp.py
index c84a51b..2e4e1bf 100644
--- a/openconcept/atmospherics/mach_number_comp.py
+++ b/openconcept/atmospherics/mach_number_comp.py
@@ -22,7 +22,7 @@ class MachNumberComp(ExplicitComponent):
     Options
     -------
     num_nodes : int
-        Number of analysis points to run (sets vec length) (default 1)
+        Number of analysis points to run (sets vec length)
     """
 
     def initialize(self):
diff --git a/openconcept/atmospherics/true_airspeed.py b/openconcept/atmospherics/true_airspeed.py
index c2bcf98..58ef5fe 100644
--- a/openconcept/atmospherics/true_airspeed.py
+++ b/openconcept/atmospherics/true_airspeed.py
@@ -22,7 +22,7 @@ class TrueAirspeedComp(ExplicitComponent):
     Options
     -------
     num_nodes : int
-        Number of analysis points to run (sets vec length) (default 1)
+        Number of analysis points to run (sets vec length)
     """
 
     def initialize(self):
@@ -70,7 +70,7 @@ class EquivalentAirspeedComp(ExplicitComponent):
     Options
     -------
     num_nodes : int
-        Number of analysis points to run (sets vec length) (default 1)
+        Number of analysis points to run (sets vec length)
     """
 
     def initialize(self):
diff --git a/openconcept/energy_storage/battery.py b/openconcept/energy_storage/battery.py
index 06049f5..77314af 100644
--- a/openconcept/energy_storage/battery.py
+++ b/openconcept/energy_storage/battery.py
@@ -39,7 +39,7 @@ class SOCBattery(Group):
         Shaft power efficiency. Sensible range 0.0 to 1.0 (default 1.0)
     specific_power : float
         Rated power per unit weight (default 5000, W/kg)
-    default_specific_energy : float
+    specific_energy : float
         Battery energy per unit weight **NOTE UNITS** (default 300, !!!! Wh/kg)
         Can be set using variable input 'specific_energy' as well if doing a sweep
     cost_inc : float
diff --git a/openconcept/thermal/battery_cooling.py b/openconcept/thermal/battery_cooling.py
index 2d84fef..2eef51b 100644
--- a/openconcept/thermal/battery_cooling.py
+++ b/openconcept/thermal/battery_cooling.py
@@ -60,9 +60,9 @@ class LiquidCooledBattery(om.Group):
     cell_mass : float
         Battery weight (default 70g for 2170 cell)
     cell_specific_heat : float
-        Mass average specific heat of the battery (default 900, LiIon cylindrical cell)
+        Mass average specific heat of the battery (default 875, LiIon cylindrical cell)
     battery_weight_fraction : float
-        Fraction of battery by weight that is cells (default 0.72 knocks down Tesla by a bit)
+        Fraction of battery by weight that is cells (default 0.65 knocks down Tesla by a bit)
     """
 
     def initialize(self):
@@ -202,9 +202,9 @@ class BandolierCoolingSystem(om.ExplicitComponent):
     cell_mass : float
         Battery weight (default 70g for 2170 cell)
     cell_specific_heat : float
-        Mass average specific heat of the battery (default 900, LiIon cylindrical cell)
+        Mass average specific heat of the battery (default 875, LiIon cylindrical cell)
     battery_weight_fraction : float
-        Fraction of battery by weight that is cells (default 0.72 knocks down Tesla by a bit)
+        Fraction of battery by weight that is cells (default 0.65 knocks down Tesla by a bit)
     """
 
     def initialize(self):
diff --git a/openconcept/thermal/ducts.py b/openconcept/thermal/ducts.py
index 6a1abb7..b1b50a9 100644
--- a/openconcept/thermal/ducts.py
+++ b/openconcept/thermal/ducts.py
@@ -37,7 +37,7 @@ class ExplicitIncompressibleDuct(ExplicitComponent):
         Number of analysis points to run
     static_pressure_loss_factor : float
         Delta p / local dynamic pressure to model inlet and nozzle losses (vector, dimensionless)
-        Default 0.00
+        Default 0.15
     gross_thrust_factor : float
         Fraction of total gross thrust to recover (aka Cfg)
         Accounts for duct losses, in particular nozzle losses
diff --git a/openconcept/thermal/thermal.py b/openconcept/thermal/thermal.py
index 7cb54ba..7039ccb 100644
--- a/openconcept/thermal/thermal.py
+++ b/openconcept/thermal/thermal.py
@@ -199,7 +199,7 @@ class ConstantSurfaceTemperatureColdPlate_NTU(ExplicitComponent):
     num_nodes : int
         The number of analysis points to run
     fluid_rho : float
-        Coolant density in kg/m**3 (default 0.997, water)
+        Coolant density in kg/m**3 (default 997, water)
     fluid_k : float
         Thermal conductivity of the fluid (W/m/K) (default 0.405, glycol/water)
     nusselt : float
-- 
2.43.0


From 08137d1b984a2d4cc3272101404e6e0f7d5eee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 22/25] fix: documented variable names and shapes match the
 declared ones

---
 openconcept/aerodynamics/aerodynamics.py             |  2 +-
 openconcept/aerodynamics/openaerostruct/wave_drag.py |  2 +-
 openconcept/mission/phases.py                        | 12 ++++++------
 openconcept/weights/weights_jet_transport.py         |  6 ++----
 4 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/openconcept/aerodynamics/aerodynamics.py b/openconcept/aerodynamics/aerodynamics.py
index fc16c9a..88739e1 100644
--- a/openconcept/aerodynamics/aerodynamics.py
+++ b/openconcept/aerodynamics/aerodynamics.py
@@ -20,7 +20,7 @@ class PolarDrag(ExplicitComponent):
     ac|geom|wing|AR : float
         Wing aspect ratio (scalar, dimensionless)
     CD0 : float
-        Zero-lift drag coefficient (scalar, dimensionless)
+        Zero-lift drag coefficient (scalar or, if vec_CD0 is True, vector; dimensionless)
     e : float
         Wing Oswald efficiency (scalar, dimensionless)
 
diff --git a/openconcept/aerodynamics/openaerostruct/wave_drag.py b/openconcept/aerodynamics/openaerostruct/wave_drag.py
index d9af58a..f27346c 100644
--- a/openconcept/aerodynamics/openaerostruct/wave_drag.py
+++ b/openconcept/aerodynamics/openaerostruct/wave_drag.py
@@ -57,7 +57,7 @@ class WaveDragFromSections(om.ExplicitComponent):
     CD_wave : float
         Wave drag coefficient of the specified wing region normalized by the planform
         area of that region, unless specify_norm is set to True, in which case
-        it is normalized by the planform area of the whole wing (scalar, dimensionless)
+        it is normalized by the planform area of the whole wing (vector of length num_nodes, dimensionless)
 
     Options
     -------
diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 057a719..d3bc355 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -17,16 +17,16 @@ class ClimbAngleComp(ExplicitComponent):
     Inputs
     ------
     drag : float
-        Aircraft drag at v2 (climb out) flight condition (scalar, N)
+        Aircraft drag at v2 (climb out) flight condition (vector, N)
     weight : float
-        Takeoff weight (scalar, kg)
+        Takeoff weight (vector, kg)
     thrust : float
-        Thrust at the v2 (climb out) flight condition (scalar, N)
+        Thrust at the v2 (climb out) flight condition (vector, N)
 
     Outputs
     -------
     gamma : float
-        Climb out flight path angle (scalar, rad)
+        Climb out flight path angle (vector, rad)
 
     Options
     -------
@@ -283,7 +283,7 @@ class HorizontalAcceleration(ExplicitComponent):
     Inputs
     ------
     weight : float
-        Aircraft weight (scalar, kg)
+        Aircraft weight (vector, kg)
     drag : float
         Aircraft drag at each analysis point (vector, N)
     lift : float
@@ -358,7 +358,7 @@ class VerticalAcceleration(ExplicitComponent):
     Inputs
     ------
     weight : float
-        Aircraft weight (scalar, kg)
+        Aircraft weight (vector, kg)
     drag : float
         Aircraft drag at each analysis point (vector, N)
     lift : float
diff --git a/openconcept/weights/weights_jet_transport.py b/openconcept/weights/weights_jet_transport.py
index 5c61684..b810968 100644
--- a/openconcept/weights/weights_jet_transport.py
+++ b/openconcept/weights/weights_jet_transport.py
@@ -650,7 +650,7 @@ class HstabConst_JetTransport(om.ExplicitComponent):
 
     Outputs
     -------
-    HstasbConst : float
+    HstabConst : float
         The 1 + Fw/Bh term in the weight estimate (scalar, dimensionless)
 
     Options
@@ -701,11 +701,9 @@ class HstabWeight_JetTransport(om.ExplicitComponent):
         Horizontal stabilizer aspect ratio (scalar, dimensionless)
     ac|geom|hstab|c4sweep : float
         Horizontal stabilizer sweep at 25% mean aerodynamic chord (scalar, radians)
-    ac|geom|fuselage|length : float
-        Fuselage length, used to compute distance between quarter chord of wing and horizontal stabilizer (scalar, ft)
     ac|geom|hstab|c4_to_wing_c4 : float
         Distance from the horizontal stabilizer's quarter chord (of the MAC) to the wing's quarter chord (scalar, ft)
-    HstasbConst : float
+    HstabConst : float
         The 1 + Fw/Bh term in the weight estimate (scalar, dimensionless)
 
     Outputs
-- 
2.43.0


From 9dea8d2d45209d1f509575829a524f5e597de27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:43 +0000
Subject: [PATCH 23/25] fix: integrator time partials keep their declared
 sparsity when an exact zero occurs

---
 openconcept/utilities/math/integrals.py | 43 ++++++++++---------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..9fcc55f 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -837,18 +837,10 @@ class Integrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J[qty_name, "t_initial"] = np.zeros(J[qty_name, "t_initial"].shape)
-                            J[qty_name, "t_final"] = np.zeros(J[qty_name, "t_final"].shape)
-                        else:
-                            J[qty_name, "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J[qty_name, "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J[end_name, "t_initial"] = 0
-                        J[end_name, "t_final"] = 0
-                    else:
-                        J[end_name, "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J[end_name, "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        J[qty_name, "t_initial"] = np.squeeze(-dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                        J[qty_name, "t_final"] = np.squeeze(dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                    J[end_name, "t_initial"] = np.squeeze(-dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
+                    J[end_name, "t_final"] = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
 
 
 class OldIntegrator(ExplicitComponent):
@@ -1046,11 +1038,16 @@ class OldIntegrator(ExplicitComponent):
             else:
                 if time_setup != "dt":
                     raise ValueError("dt is the only time_setup supported for multisegment integrations")
+                # rows of q and q_final that depend on each segment's time step
+                self.dt_rows = []
+                self.dt_end_rows = []
                 for i_seg, segment_name in enumerate(segment_names):
                     self.add_input(segment_name + "|dt", units=diff_units, desc="Time step")
                     dQddt_seg = dQddtlist[i_seg]
                     dQddt_indices = dQddt_seg.nonzero()
                     dQfddt_indices = dQddt_seg.getrow(-1).nonzero()
+                    self.dt_rows.append(dQddt_indices[0])
+                    self.dt_end_rows.append(np.full(dQfddt_indices[0].size, -1))
                     if not final_only:
                         self.declare_partials(
                             ["q"], [segment_name + "|dt"], rows=dQddt_indices[0], cols=dQddt_indices[1]
@@ -1197,20 +1194,14 @@ class OldIntegrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J["q", "t_initial"] = np.zeros(J["q", "t_initial"].shape)
-                            J["q", "t_final"] = np.zeros(J["q", "t_final"].shape)
-                        else:
-                            J["q", "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J["q", "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J["q_final", "t_initial"] = 0
-                        J["q_final", "t_final"] = 0
-                    else:
-                        J["q_final", "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J["q_final", "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        J["q", "t_initial"] = np.squeeze(-dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                        J["q", "t_final"] = np.squeeze(dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                    J["q_final", "t_initial"] = np.squeeze(-dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
+                    J["q_final", "t_final"] = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
             else:
                 for i_seg, segment_name in enumerate(segment_names):
+                    # exact zeros are not stored in the sparse vector but their entries are declared
+                    dQddt = dQddtlist[i_seg].toarray()
                     if not final_only:
-                        J["q", segment_name + "|dt"] = dQddtlist[i_seg].data
-                    J["q_final", segment_name + "|dt"] = dQddtlist[i_seg].getrow(-1).data
+                        J["q", segment_name + "|dt"] = dQddt[self.dt_rows[i_seg], 0]
+                    J["q_final", segment_name + "|dt"] = dQddt[self.dt_end_rows[i_seg], 0]
-- 
2.43.0


From 868167b205e67464906b0fb8684bc1b5009dd4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:43 +0000
Subject: [PATCH 24/25] fix: OldIntegrator with zero_start evaluates

---
 openconcept/utilities/math/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 9fcc55f..1282e18 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1097,7 +1097,7 @@ class OldIntegrator(ExplicitComponent):
                 input_name = segment_name + "|dt"
                 dts.append(inputs[input_name][0])
         if zero_start:
-            q0 = 0
+            q0 = np.array([0.0])
         else:
             q0 = inputs["q_initial"]
         if not single_point:
-- 
2.43.0


From 372baaf8b57e95c80a0f589fa05c64ea226562b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:44 +0000
Subject: [PATCH 25/25] fix: the engine decks document their altitude input in
 feet

---
 openconcept/propulsion/N3.py    | 4 ++--
 openconcept/propulsion/cfm56.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/openconcept/propulsion/N3.py b/openconcept/propulsion/N3.py
index 021954a..29f3f78 100644
--- a/openconcept/propulsion/N3.py
+++ b/openconcept/propulsion/N3.py
@@ -17,7 +17,7 @@ def N3Hybrid(num_nodes=1, plot=False):
         (vector, dimensionless)
     fltcond|h: float
         Altitude
-        (vector, dimensionless)
+        (vector, ft)
     fltcond|M: float
         Mach number
         (vector, dimensionless)
@@ -282,7 +282,7 @@ def N3(num_nodes=1, plot=False):
         (vector, dimensionless)
     fltcond|h: float
         Altitude
-        (vector, dimensionless)
+        (vector, ft)
     fltcond|M: float
         Mach number
         (vector, dimensionless)
diff --git a/openconcept/propulsion/cfm56.py b/openconcept/propulsion/cfm56.py
index 24a6c00..f1b9b85 100644
--- a/openconcept/propulsion/cfm56.py
+++ b/openconcept/propulsion/cfm56.py
@@ -17,7 +17,7 @@ def CFM56(num_nodes=1, plot=False):
         (vector, dimensionless)
     fltcond|h: float
         Altitude
-        (vector, dimensionless)
+        (vector, ft)
     fltcond|M: float
         Mach number
         (vector, dimensionless)
-- 
2.43.0

