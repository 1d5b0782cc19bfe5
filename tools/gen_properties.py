"""Writes /verif/properties.jsonl (kept as a generator so that the ids, titles
and statements live in one reviewable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    assert len(title)<=80,(id,len(title))
    P.append(d)
OC="openconcept/"
p("C01","Analytic derivatives of explicit components equal the true derivatives",
 "For every explicit component that supplies analytic partial derivatives, the Jacobian it reports equals the derivative of the outputs it computes, at every input where those outputs are differentiable, for every option setting and every number of analysis points. A derivative that is not declared, or lies outside the declared sparsity pattern, counts as reported zero.",
 ["inputs","configurations"],"all inputs (every branch, clip and mask region), all option values, all num_nodes",
 "check_partials tests sample one or a few points and configurations per component; branches, clips, scalar options and num_nodes edge cases are not reached, and many components have no derivative test.",
 [OC+"aerodynamics/aerodynamics.py",OC+"propulsion/splitter.py",OC+"propulsion/propeller.py",OC+"thermal/heat_exchanger.py",OC+"weights/weights_jet_transport.py",OC+"geometry/wing_planform.py",OC+"atmospherics/temperature_comp.py"],
 [("compute / compute_partials pairs","every om.ExplicitComponent subclass under openconcept/"),("declare_partials in setup","same classes")])
p("C02","Declared derivative structure is complete and well-formed",
 "Every dependence of an output (or residual) on an input is covered by a derivative declaration of the component or by an approximation it requests; every declared analytic entry that is not constant is assigned on every evaluation; and each assigned value has the size its declaration promises, in every configuration.",
 ["configurations","inputs"],"all components, all option combinations, all num_nodes, all paths through the derivative routine",
 "OpenMDAO silently treats undeclared or unassigned partials as zero; tests that only run a model, or check one configuration, do not notice.",
 [OC+"utilities/math/integrals.py",OC+"thermal/thermal.py",OC+"mission/phases.py",OC+"propulsion/generator.py"],
 [("declare_partials / J assignment","setup and compute_partials/linearize of every component")])
p("C03","Components that request complex step are complex-step differentiable",
 "In every component that asks for any derivative by complex step, and in the utility components users place under complex-step groups (element-wise sums and products, vector concatenation and splitting), each affected output is computed so that an imaginary perturbation of the input passes through unchanged: no operation on the path drops or fabricates the imaginary part (real-typed buffers, absolute values, norms, real casts, non-complex routines).",
 ["inputs","configurations"],"all inputs, all option combinations, all paths of the computation of every component with complex-step partials",
 "A dropped imaginary part gives a silently wrong (often zero) derivative only on the affected path or option value.",
 [OC+"thermal/heat_exchanger.py",OC+"thermal/ducts.py",OC+"geometry/wing_planform.py",OC+"energy_storage/hydrogen/structural.py",OC+"aerodynamics/openaerostruct/wave_drag.py"],
 [("declare_partials(method='cs') and compute","components under openconcept/")])
p("C04","Implicit components report the exact derivative of their residual",
 "For every implicit component, the Jacobian it reports equals the derivative of the residual it evaluates with respect to all its inputs and its own states; and where it also solves for its states directly, the solved states make that residual zero.",
 ["inputs","configurations"],"all inputs and states, all option values and num_nodes",
 "Newton solvers converge (slowly or to the right answer) even with wrong linearizations, so model-level tests pass; adjoint totals are then silently wrong.",
 [OC+"thermal/thermal.py",OC+"thermal/ducts.py",OC+"mission/phases.py"],
 [("apply_nonlinear / solve_nonlinear / linearize","om.ImplicitComponent subclasses")])
p("C05","Evaluation depends only on the current inputs and options",
 "The outputs, residuals and derivatives a component reports are determined by its current inputs and its options alone: nothing left over from an earlier evaluation, from another instance or from the previous contents of an output can influence them, and every output is assigned on every path. Components that deliberately cache surrogate training data are covered separately.",
 ["histories","inputs"],"every sequence of evaluations at different inputs, derivative requests at a point other than the last evaluated one, several instances in one process",
 "Tests evaluate once and linearize at the same point, so remembered state always agrees with the current input.",
 [OC+"atmospherics/temperature_comp.py",OC+"atmospherics/pressure_comp.py",OC+"utilities/math/max_min_comp.py",OC+"utilities/selector.py"],
 [("reads of self attributes / module globals in compute, compute_partials, linearize, apply_nonlinear","all components")])
p("C06","Evaluation leaves inputs, options and shared data untouched",
 "Evaluating a component or requesting its derivatives never modifies its inputs, its options, module-level data or objects handed in by the user; the only observable effect is on its own outputs, residuals and derivatives. Progress messages and training caches of the aerodynamic training-data generators are exempt (their caches are a property of their own).",
 ["inputs","histories","configurations"],"all evaluation paths and option values of every component",
 "An in-place edit of an aliased array usually changes values only on rare branches (clipping, negative guards) and is invisible until the array is read again.",
 [OC+"thermal/ducts.py",OC+"utilities/math/integrals.py",OC+"aerodynamics/openaerostruct/mesh_gen.py"],
 [("in-place stores through aliases of inputs","compute-family methods")])
p("C07","Model construction is deterministic, repeatable and instance-isolated",
 "Building and setting up the same model any number of times, in any order with other instances, yields the same variables, shapes, units, default values and derivative declarations: construction uses no randomness, time or environment, leaves no trace in class- or module-level state (aerodynamic training caches aside), and does not modify the arguments or option values the caller supplied.",
 ["histories","configurations"],"every sequence of instantiations and repeated setups, all component and group classes",
 "Tests build each object once in a fresh state; leaks appear on the second setup or with a second instance.",
 [OC+"utilities/math/add_subtract_comp.py",OC+"utilities/dvlabel.py",OC+"thermal/thermal.py",OC+"utilities/math/multiply_divide_comp.py",OC+"utilities/math/combine_split_comp.py",OC+"mission/mission_groups.py"],
 [("__init__/initialize/setup of all classes","openconcept/")])
p("C08","Vectorised evaluation is pointwise and uniform over analysis points",
 "In every component evaluated at a number of analysis points, apart from those whose purpose is to couple points along a phase (integrators, differentiators, point generators, extrema, vector reversal), the result at one point depends only on the inputs at that point (and scalar inputs), by the same formula at every point and for every number of points.",
 ["inputs","configurations"],"all num_nodes, all points, all inputs",
 "Tests use uniform input vectors or a single num_nodes, which hides index slips, reductions over nodes and node-dependent branches.",
 [OC+"propulsion/propeller.py",OC+"thermal/chiller.py",OC+"atmospherics/pressure_comp.py",OC+"propulsion/splitter.py"],
 [("compute of vectorised components","classes with a num_nodes option")])
p("C09","Cached aerodynamic training data always belongs to the current configuration",
 "Surrogate training data that is kept between evaluations is reused only when everything it was computed from is unchanged, is recorded as valid only after it was computed completely, and one component's data never replaces another's with a different training grid or geometry.",
 ["histories","configurations","fault_sequences"],"all sequences of evaluations, option changes, several components in a process, and analysis failures during training",
 "Tests train once per process with a single configuration and no failure in between.",
 [OC+"aerodynamics/openaerostruct/drag_polar.py",OC+"aerodynamics/openaerostruct/aerostructural.py"],
 [("class-level training cache and its validity test","compute of the training-data generators")])
p("C10","Power and energy are conserved by propulsion and storage components",
 "In every power-conversion component (power splitters, motors, generators, batteries, turboshafts), at every operating point and option value, power drawn equals useful power delivered plus reported waste heat, a split's branches sum to the efficiency times the incoming power, and cost, weight and sizing margin follow their stated linear or ratio laws.",
 ["inputs","configurations"],"all inputs, split rules, efficiencies and other option values",
 "Tests check numbers at a handful of operating points with default efficiencies.",
 [OC+"propulsion/splitter.py",OC+"propulsion/motor.py",OC+"propulsion/generator.py",OC+"energy_storage/battery.py",OC+"propulsion/turboshaft.py"],
 [("compute","power components")])
p("C11","Heat and mass balances close in thermal and fluid components",
 "In every thermal-management component, the heat removed from one stream equals the heat gained by the other or stored, mixed and split coolant streams conserve mass flow and enthalpy, thermal resistances in series all count, and a refrigerator rejects exactly the heat it absorbs plus the work it consumes, at every operating point and option value.",
 ["inputs","configurations"],"all inputs and option values",
 "Tests compare against recorded numbers at one operating point, often with parameters that make terms vanish.",
 [OC+"thermal/thermal.py",OC+"thermal/heat_exchanger.py",OC+"thermal/chiller.py",OC+"thermal/manifold.py",OC+"thermal/battery_cooling.py",OC+"thermal/motor_cooling.py",OC+"thermal/hose.py",OC+"thermal/pump.py",OC+"thermal/heat_pipe.py"],
 [("compute","thermal components")])
p("C12","Physics formulas are dimensionally homogeneous",
 "Every purely physical relation in the library (kinematics, flight mechanics, geometry, gas dynamics, heat transfer, power and energy relations) gives the same physical answer whatever base units of mass, length, time, temperature and current are used, i.e. its outputs scale with its inputs according to their declared units.",
 ["inputs"],"all inputs and all rescalings of base units",
 "A numeric test fixes units and values; a wrong exponent or missing factor shows only at values other than the sampled ones or is frozen into the expected number.",
 [OC+"aerodynamics/aerodynamics.py",OC+"mission/phases.py",OC+"thermal/heat_exchanger.py",OC+"geometry/wing_planform.py",OC+"propulsion/propeller.py"],
 [("declared units of inputs/outputs and compute","physics components")])
p("C13","Aggregated totals count every contribution exactly once",
 "In every weight, drag, wetted-area, power or cost build-up, the reported total is the sum of all its constituent parts, each counted exactly once with its structural or installation factor, and every constituent that the build-up computes reaches the total.",
 ["inputs","configurations"],"all inputs and configurations of the build-up groups",
 "End-to-end tests compare the total to a frozen number for one aircraft.",
 [OC+"weights/weights_turboprop.py",OC+"weights/weights_jet_transport.py",OC+"weights/weights_BWB.py",OC+"costs/costs_commuter.py",OC+"aerodynamics/drag_jet_transport.py",OC+"aerodynamics/drag_BWB.py"],
 [("setup wiring and totals","build-up groups")])
p("C14","The atmosphere model is self-consistent",
 "At every altitude and temperature increment, density, pressure and temperature satisfy the ideal-gas law, pressure and temperature follow the standard lapse and hydrostatic relations continuously (value and slope) through every layer boundary, speed of sound follows from temperature, and true and equivalent airspeed, Mach number and dynamic pressure are mutually consistent.",
 ["inputs"],"all altitudes including layer boundaries, all speeds, all temperature increments",
 "Tests compare a few altitudes to table values.",
 [OC+"atmospherics/temperature_comp.py",OC+"atmospherics/pressure_comp.py",OC+"atmospherics/density_comp.py",OC+"atmospherics/speedofsound_comp.py",OC+"atmospherics/true_airspeed.py",OC+"atmospherics/mach_number_comp.py",OC+"atmospherics/dynamic_pressure_comp.py",OC+"atmospherics/atmospherics_data.py"],
 [("compute of the atmospheric components","openconcept/atmospherics")])
p("C15","Mission phases obey the equations of motion and hand over their states",
 "In every flight phase the reported speeds, climb angle, lift, thrust margin, accelerations and takeoff distances satisfy the point-mass equations of motion they stand for, and in every mission profile each integrated state starts a phase exactly where the phase that precedes it in flight ended, every integrator of a phase runs over the duration of that phase, and linked phases of a trajectory hand over every state both have unless the user skips it.",
 ["inputs","configurations"],"all flight conditions, all phase names and mission profiles",
 "Mission tests compare a few end numbers of one aircraft after a converged solve.",
 [OC+"mission/phases.py",OC+"mission/profiles.py",OC+"mission/mission_groups.py"],
 [("phase components","openconcept/mission/phases.py"),("link_phase","openconcept/mission/mission_groups.py and profiles.py")])
p("C16","Model wiring is valid in every configuration",
 "In every group and every supported configuration, each connection joins an existing output to an existing input of compatible shape and units, no input has two sources, names promoted together agree, and no required input of an internal component is left unconnected or unreachable from the group boundary, every result and input the group offers at its boundary stays available there under its name, and every design parameter a group relabels for internal use feeds a component inside it.",
 ["configurations"],"all groups, all option combinations and num_nodes",
 "Tests instantiate one configuration of a group, several groups or options are never built by a test.",
 [OC+"propulsion/systems/thermal_series_hybrid.py",OC+"thermal/ducts.py",OC+"thermal/chiller.py",OC+"mission/profiles.py",OC+"weights/weights_BWB.py",OC+"aerodynamics/drag_BWB.py"],
 [("add_subsystem / promotes / connect","Group.setup methods")])
p("C17","Options take effect and reach the parts that need them",
 "Every option a component or group declares influences its behaviour as documented when it is set to a non-default value, and a group passes the number of analysis points and every shared parameter unchanged to each internal component that takes it.",
 ["configurations"],"all declared options, all non-default values",
 "Tests mostly use defaults; an option that is ignored or forwarded to one child but not its sibling goes unnoticed.",
 [OC+"thermal/heat_exchanger.py",OC+"thermal/heat_pipe.py",OC+"mission/phases.py",OC+"propulsion/generator.py",OC+"aerodynamics/openaerostruct/drag_polar.py"],
 [("options.declare and their uses","all classes")])
p("C18","Integration and differentiation schemes have their stated accuracy",
 "For every scheme, node count and segment layout, time integration is exact for the polynomial rates its order promises, starts at the given initial value, is continuous across segments and linear in rate and initial value, and numerical differentiation and linear or spline-based point generation reproduce polynomials up to their order; every output tagged for integration in an integrating group is integrated under the name, unit, guess and bounds its tags give.",
 ["configurations","inputs"],"all node counts, segment layouts, integration methods, step specifications and all polynomial inputs up to the order",
 "Tests check a few node counts against analytic functions with tolerances.",
 [OC+"utilities/math/integrals.py",OC+"utilities/math/derivatives.py",OC+"mission/mission_groups.py"],
 [("integration and differentiation matrices","openconcept/utilities/math")])
p("C19","Utility components implement their algebraic contracts",
 "For every table of names, sizes and scaling factors a user can supply, sums, products, quotients, concatenations, splits, selections, extrema, sign flips, interpolations, pass-through labels and the sums and products a group adds with promote_add and promote_mult equal their mathematical definition element by element, with the user's units, defaults and scaling factors attached to the right variable.",
 ["inputs","configurations"],"all equation tables (operand counts, vector sizes, lengths, scalings, division flags) and inputs",
 "Tests sample a few tables; the interaction of operand counts, scalar/vector mixes and scaling factors is combinatorial.",
 [OC+"utilities/math/add_subtract_comp.py",OC+"utilities/math/multiply_divide_comp.py",OC+"utilities/math/combine_split_comp.py",OC+"utilities/selector.py",OC+"utilities/linearinterp.py",OC+"utilities/math/max_min_comp.py",OC+"utilities/dvlabel.py",OC+"utilities/dict_indepvarcomp.py"],
 [("add_equation/setup/compute","openconcept/utilities")])
p("C20","Invalid configurations are rejected before they can give wrong results",
 "Every configuration or input value the library documents as unsupported (unknown rule or method names, mismatched table lengths, wrong node counts, missing required options, non-physical guarded values) raises an error instead of producing a model or a result.",
 ["configurations","inputs"],"all unsupported option values and guarded input values",
 "Tests exercise a few of the error paths; a weakened guard still passes every test that uses valid settings.",
 [OC+"utilities/math/integrals.py",OC+"utilities/math/add_subtract_comp.py",OC+"utilities/math/multiply_divide_comp.py",OC+"utilities/math/combine_split_comp.py",OC+"utilities/selector.py",OC+"propulsion/splitter.py",OC+"propulsion/propeller.py",OC+"thermal/heat_exchanger.py"],
 [("raise statements guarding options and inputs","setup and compute methods")])
p("C21","Wing planform geometry and meshes satisfy their defining relations",
 "For every area, aspect ratio, taper, sweep and section layout, the generated meshes and planform quantities have the requested area, span, taper and sweep, section quantities agree with the exact integrals over the planform, and twisting or interpolating sections preserves what it must.",
 ["inputs","configurations"],"all planform parameters, mesh sizes and section counts",
 "Tests check a few planforms and mesh sizes against recorded coordinates.",
 [OC+"aerodynamics/openaerostruct/mesh_gen.py",OC+"geometry/wing_planform.py",OC+"geometry/wetted_area.py"],
 [("compute","mesh generators and planform components")])
p("C22","Engine surrogates are trained and scaled consistently",
 "Every engine deck trains each output on the samples of that same quantity, sample for sample aligned with the training inputs, in the units it declares and with a cache file of its own; every propeller map is a well-formed table (increasing axes that match it in length and order, efficiencies between zero and one) of which the scaled and the static map are the documented transformations; and a rubberised engine scales thrust and fuel flow in proportion to the rating while leaving specific fuel consumption unchanged.",
 ["inputs","configurations"],"all samples in the engine decks, all ratings and operating points",
 "Surrogate tests compare a few interpolated values; trained cache files mask an inconsistent table until retraining.",
 [OC+"propulsion/N3.py",OC+"propulsion/cfm56.py",OC+"propulsion/rubberized_turbofan.py",OC+"propulsion/empirical_data/prop_maps.py"],
 [("training_data / training_cache arguments","engine deck builders"),("scaling equations","rubberized turbofan")])
p("C23","Hydrogen tank sizing satisfies its geometric and structural relations",
 "For every fuel weight, radius, length and material setting, tank volume, surface area, wall thickness and component weights satisfy the exact geometry of a hemispherically capped cylinder and the stated stress and buckling criteria, and the tank total includes each layer and the fuel exactly once.",
 ["inputs","configurations"],"all sizes, pressures, fill levels and material options",
 "Tests compare a few tanks to recorded weights.",
 [OC+"energy_storage/hydrogen/LH2_tank_no_boil_off.py",OC+"energy_storage/hydrogen/structural.py"],
 [("compute","hydrogen tank components")])
p("C24","Outputs are continuous across internal regime switches",
 "Wherever a model switches formula at a threshold (regime blends, clips, minimum/maximum choices, atmospheric layers), the reported value is the same on both sides of the threshold, so that solvers and optimisers see a continuous model; only documented guards for non-physical inputs are exempt.",
 ["inputs","configurations"],"all thresholds in all components and all inputs on them",
 "Tests never evaluate exactly at thresholds from both sides.",
 [OC+"propulsion/propeller.py",OC+"atmospherics/temperature_comp.py",OC+"thermal/heat_exchanger.py",OC+"aerodynamics/openaerostruct/wave_drag.py",OC+"thermal/ducts.py"],
 [("conditional expressions and masks in compute","components with regime switches")])
p("C25","Engineering estimates equal their documented correlations",
 "Every closed-form weight, drag, lift, stall and tail-sizing estimate equals the correlation its documentation states (Raymer, Roskam, Torenbeek, FLOPS, Korn, volume coefficients), in the units that correlation is written for, with every option in its documented place; a coefficient refers to the area it is documented to be normalised by.",
 ["inputs","configurations"],"all inputs and option values of the estimate components",
 "Tests compare one aircraft per correlation, so wrong exponents of rarely varied inputs, unused factors or swapped options can pass.",
 [OC+"weights/weights_turboprop.py",OC+"weights/weights_jet_transport.py",OC+"weights/weights_BWB.py",OC+"aerodynamics/aerodynamics.py",OC+"aerodynamics/drag_jet_transport.py",OC+"aerodynamics/CL_max_estimation.py",OC+"aerodynamics/openaerostruct/wave_drag.py",OC+"stability/tail_volume_coefficient_sizing.py"],
 [("compute","weight, drag, lift and sizing components")])
p("C26","Plot helpers draw exactly the values of the case they are given",
 "Trajectory plots, grids of trajectory plots, wing-mesh plots and force-contour plots draw every requested quantity of every phase in the order given, in the requested units, on the axes that carry its label; half-models are mirrored without changing spanwise order; panel values are attached to the panel they were computed on and normalised by that panel's own size; an axes object handed in is drawn on and handed back; and every documented option and layout is accepted.",
 ["inputs","configurations"],"all mesh sizes, phase lists, variable lists, row layouts and options of the four plot helpers, all values",
 "The plot helpers return pictures and are not tested at all: a panel normalised by its neighbour's width or a label on the wrong axes is never noticed by a test.",
 [OC+"utilities/visualization.py"],
 [("plot_trajectory, plot_trajectory_grid, plot_OAS_mesh, plot_OAS_force_contours","openconcept/utilities/visualization.py")])
p("C27","The documented interface of every class is the interface it has",
 "Every variable listed in the Inputs and Outputs sections of a class's documentation exists at its boundary, is declared in a unit equal to the documented one (so a value supplied in the documented unit means what it says) and is a scalar or a vector over the analysis points as documented; every documented option exists and takes the documented default when it is not given. The same holds for the variables of the engine decks and for the documented arguments of functions and methods.",
 ["inputs","configurations"],"all documented variables and options of all components and groups, all enumerated configurations; all documented arguments of functions and methods",
 "A wrong unit, a renamed variable or a changed default leaves every test that sets its own values passing; users who rely on the documentation get silently different results.",
 [OC+"thermal",OC+"propulsion",OC+"mission/phases.py",OC+"weights",OC+"aerodynamics",OC+"energy_storage"],
 [("setup / initialize","all component and group classes")])
p("C28","Bundled propulsion systems that are documented as alike are alike",
 "With all propulsors working, both sides of every twin propulsion system have the same parts, see the same inputs and return the same powers, thrusts, heats, weights, costs and margins; the thermally managed and refrigerated twin series hybrids, the single series hybrid, the incompressible all-electric system and the twin turboprop consist of the same motors, engines, generators, propellers, batteries and maps as the system they are a documented variant of, with the same data, so those parts return the same values for the same inputs; design inputs shared by a series-hybrid or all-electric variant and its base have the same defaults.",
 ["inputs","configurations"],"all inputs, all numbers of points of the bundled propulsion systems",
 "Tests run some of the systems at one design point and compare totals; a part with other data on one side, or a variant that drifted from its base, is only visible when the two are compared.",
 [OC+"propulsion/systems/simple_series_hybrid.py",OC+"propulsion/systems/thermal_series_hybrid.py",OC+"propulsion/systems/simple_turboprop.py",OC+"propulsion/systems/simple_all_electric.py"],
 [("setup","bundled propulsion systems")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
