"""rewrites known_findings.json (by hand-maintained table; never called by a check)"""
import json
K = []


def known(prop, key, why):
    K.append({"status": "known", "property": prop, "key": key, "why": why})


def fixed(prop, commit, what):
    K.append({"status": "fixed", "text": f"fixed: property={prop} {commit} {what}"})


q = "openconcept.mission.phases.VerticalAcceleration"
for w in ("weight", "drag", "lift", "thrust", "fltcond|singamma", "fltcond|cosgamma"):
    known("C01", f"{q}:d(accel_vert)/d({w}) where constant",
          "compute() clips accel_vert to [-g, 2.5 g] but compute_partials() reports the slope of the unclipped value. Not repaired: the unclipped slope is what lets the takeoff Newton solve leave the clipped region.")
known("C01", "openconcept.thermal.ducts.SpeedOfSound:d(a)/d(T) where constant",
      "compute() replaces T < 0 by 100 K, compute_partials() reports the slope at 100 K instead of zero. Not repaired: the nonzero slope is what lets a solver leave the non-physical region.")
known("C25", "openconcept.aerodynamics.openaerostruct.wave_drag.WaveDragFromSections:normalised by the requested area",
      "with specify_area_norm the coefficient is multiplied by S_ref / region area, so the drag it stands for grows with S_ref squared; normalising by S_ref means multiplying by region area / S_ref. "
      "Not repaired: the existing test test_area_norm asserts the inverted factor and may not be edited.")
why = "the option is declared and documented but nothing reads it. "
known("C17", "openconcept.mission.phases.RobustRotationPhase:option h_obstacle:no effect",
      "RobustRotationPhase builds TakeoffTransition and TakeoffClimb without passing h_obstacle, so the obstacle height stays at the children's 35 ft. Not repaired: the phase's own default (50 ft) would "
      "then apply and move the expected takeoff distances of two existing tests, which may not be edited.")
for c, o in (("propulsion.propeller.SimplePropeller", "design_cp"), ("propulsion.propeller.SimplePropeller", "design_J"),
             ("thermal.thermal.ConstantSurfaceTemperatureColdPlate_NTU", "fluid_rho"), ("weights.weights_turboprop.NacelleWeight_SmallSingleTurboprop", "n_ult"),
             ("weights.weights_turboprop.NacelleWeight_MultiTurboprop", "n_ult")):
    known("C17", f"openconcept.{c}:option {o}:no effect", why + "Not repaired: the implemented correlation has no place for it, and dropping the option would break callers that set it.")
fixed("C11", "7ad971e", "UAOverall counted the hot-side fouling resistance twice and the cold-side one not at all (also a C01 failure)")
fixed("C17", "f2bbb8f", "SimplePropeller(num_blades=3) always raised NotImplementedError")
fixed("C01", "2fd38ae", "AddSubtractComp and ElementMultiplyDivideComp: derivative columns of a scalar input with length > 1")
fixed("C07", "041aced", "AddSubtractComp lost units and desc at the second setup()")
fixed("C05", "4b3f24f", "TemperatureComp and PressureComp derivatives used layer masks left by an earlier compute()")
fixed("C19", "5e88ae3", "ElementMultiplyDivideComp: output units wrong when the first factor has no units")
fixed("C07", "af42a6e", "a second setup() of a model containing an IntegratorGroup raised an error")
fixed("C06", "c7b17a5", "MinComp.compute printed its input and output on every evaluation")
fixed("C07", "b4e3a94", "DVLabel appended a size to each row of the caller's variable table, so the table could not be used a second time")
fixed("C07", "6e7f06d", "PerfectHeatTransferComp drew default temperatures from np.random.uniform")
fixed("C07", "38e70ba", "a second setup() of a mission that links its phases (TrajectoryGroup.link_phases) raised an error")
fixed("C11", "f7f6fad", "heat pipe wick resistance used the wall conductivity, the option wick_conduct had no effect")
fixed("C15", "a2c0efd", "in missions with reserve, climb and reserve climb started at the default 1 m instead of the airfield altitude handed over by the takeoff phases")
fixed("C16", "9cc6a8e", "SeriesHybridElectricPropulsionSystem left the flight conditions of its propeller unconnected")
fixed("C09", "914399d", "VLMDataGen and OASDataGen reused training data after the training points, the mesh size or the number of control points changed, after an aborted training run, and wrote into arrays shaped for another instance")
fixed("C16", "25e3468", "TwinSeriesHybridElectricThermalPropulsionRefrigerated never connected the area_nozzle design variable to its duct, which kept its 1 m**2 default nozzle")
fixed("C26", "2854c48", "plot_OAS_force_contours took the trailing edge width of every panel as zero (y[1:, 1:] - y[1:, 1:]), so panel areas of tapered wings were wrong")
fixed("C26", "02c11e5", "plot_trajectory_grid without y_labels raised TypeError (Axes.set called with a positional name)")
fixed("C26", "4645ff8", "plot_trajectory_grid with one row or one column raised IndexError (plt.subplots returned a squeezed array)")
fixed("C27", "08c5c62", "documented units of 18 inputs and outputs differ from the declared ones (e.g. SimplePump delta_p documented in kg/s, HXGroup T_in_hot in kg/s, LiquidCooledMotor power_rating in kW)")
fixed("C27", "de29d15", "documented defaults or names of 11 options differ from the declared ones (e.g. ExplicitIncompressibleDuct static_pressure_loss_factor, SOCBattery default_specific_energy)")
fixed("C27", "08137d1", "documented names or shapes of 9 variables differ from the declared ones (e.g. HstabWeight_JetTransport ac|geom|fuselage|length, which does not exist)")
fixed("C27", "372baaf", "N3, N3Hybrid and CFM56 documented their altitude input as dimensionless; it is declared in ft")
fixed("C02", "9dea8d2", "Integrator and OldIntegrator assigned sparse data to declared partials: where an entry is exactly zero the lengths differ and compute_partials raises ValueError (or assigns wrong entries)")
fixed("C18", "868167b", "OldIntegrator with zero_start raised TypeError in compute (q0[0] on a number)")
json.dump(K, open("/verif/known_findings.json", "w"), indent=1)
