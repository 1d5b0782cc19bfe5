"""property -> analysis, with the text that goes into the evidence"""
ENGINE = ("abstract interpretation of the current source (no repository code is executed): every method is evaluated on symbolic inputs, both arms of each "
          "undetermined branch are evaluated and joined into one gated value graph; graphs are compared by value numbering with random interpretation "
          "(values and forward tangents at sample points that satisfy the component's own input guards and cover both outcomes of each condition), "
          "each reported difference is confirmed in 60-digit arithmetic")
ASSUME = ["models of Python, numpy and OpenMDAO operations in oca/ match the installed versions for the operations the sources use",
          "exact real arithmetic: rounding of floating point is ignored",
          "array lengths and table layouts are the ones listed in the configuration enumeration (float options and inputs are symbolic)",
          "two graphs that agree at all sample points (>= 36 per configuration, both sides of each condition) are treated as equal"]
CHECKS = {}
NOT_APPLICABLE = {}


def reg(pid, fn, technique, expl, floor, assume=(), level="other"):
    CHECKS[pid] = dict(fn=fn, technique=technique, expl=expl, floor=floor, assume=list(assume), level=level)


def load():
    from .checks import derivs as D
    reg("C01", D.run_c01, "abstract interpretation to value graphs; symbolic Jacobian compared with the tangent of the output graph",
        "For each explicit component class and enumerated option configuration: outputs and reported Jacobian are evaluated abstractly by " + ENGINE +
        ". Obligation: reported d(out[i])/d(in[j]) (undeclared or outside the sparsity pattern = 0) equals the tangent of out[i]. entries_compared counts obligations.",
        {"classes_decided": 80, "entries_compared": 12000}, ASSUME)
    reg("C04", D.run_c04, "abstract interpretation of apply_nonlinear / linearize / solve_nonlinear; tangent comparison of residual graphs",
        "For each implicit component class and configuration: residuals and reported Jacobian by " + ENGINE +
        ". Obligations: d(residual)/d(input or state) equals the reported entry; states written by solve_nonlinear make the residual graph zero.",
        {"classes_decided": 3, "entries_compared": 81}, ASSUME)
    from .checks import generic as G
    reg("C02", G.run_c02, "effect and dependence analysis of derivative declarations against the abstract value graph of compute / compute_partials",
        "Each component class and enumerated configuration is set up and evaluated by " + ENGINE + ". Rules: (undeclared-dependence) every output[i] whose graph depends on input[j] with a nonzero slope "
        "is covered by a declared or approximated (row, col); (never-assigned / not-assigned-on-every-path) every declared analytic entry is overwritten on all joined paths, unless its declared constant value equals the slope; "
        "(assignment-shape / outside-sparsity) every assigned value fits the declaration.",
        {"classes_decided": 83, "dependences_checked": 13000, "entries_checked": 16000}, ASSUME)
    reg("C03", G.run_c03, "taint analysis: complex-step perturbation through the abstract value graph, real-typed buffers and non-analytic operations as sinks",
        "For each component and configuration with method='cs' declarations, the inputs differentiated by complex step are tainted complex; compute is interpreted by " + ENGINE +
        ". A store of a tainted value into a real-typed buffer, abs/norm/real/imag/casts/comparison-free non-analytic routines produce a marked node; an output that still depends on a marked node is a finding.",
        {"cs_configs": 90, "outputs_checked": 310, "classes_decided": 10}, ASSUME)
    reg("C05", G.run_c05, "history taint analysis: evaluation history as distinguished symbols, dependence decided on the joined value graph",
        "Each component instance is taken abstractly through: evaluation at another point, evaluation of a second instance with other options, derivative request at a new point without preceding compute, evaluation with arbitrary "
        "previous output contents. Every such leftover is a distinguished symbol; results are graphs from " + ENGINE + ". A result that changes with a leftover symbol, with uninitialised memory, or through randomness is a finding.",
        {"classes_decided": 82, "values_checked": 17000}, ASSUME)
    reg("C06", G.run_c06, "effect analysis with alias tracking of inputs, options, module data and caller objects",
        "Every evaluation method of each class and configuration is interpreted (" + ENGINE + ") with inputs, option values, module-level containers and caller arguments protected; the rule reports every store that reaches a protected "
        "object through any alias, writes to class or module attributes and output to the console.",
        {"classes_decided": 83, "evaluations": 460}, ASSUME)
    reg("C07", G.run_c07, "effect analysis of construction plus comparison of abstract set-up snapshots over repeated setups and instances",
        "Each component and group class is constructed and set up abstractly twice, then again after a second instance with other options; the flattened declarations (variables, shapes, units, defaults, bounds, derivative "
        "declarations, connections) must be identical, and no call to a random, time or environment source and no write to class state, module state or caller arguments may occur.",
        {"classes_decided": 120, "constructions": 640, "snapshot_entries": 43000}, ASSUME)
    reg("C08", G.run_c08, "dependence analysis of value graphs across analysis points",
        "Each component with a num_nodes option is evaluated at 3, 5, 1 and 2 points (thorough: also 4 and 7) by " + ENGINE + ". Rules: (pointwise) output[i] does not depend on elements of node-vector inputs other than i; "
        "(uniform-formula) the graphs of all points and all point counts agree after renaming; (point-count) a component that works for 3 points works for the others.",
        {"classes_decided": 42, "values_checked": 1200}, ASSUME)
    from .specs import base as SB

    def spec(pid, what, floor, extra="", assume=()):
        reg(pid, lambda tier, only=None, pid=pid: SB.run(pid, tier, only),
            "abstract interpretation to value graphs; stated laws checked by value numbering",
            what + " Inputs, options and states are symbolic; graphs by " + ENGINE + ". For groups the flattened connections are followed and every internal component is evaluated on its "
            "actual sources, cycles are cut at states. Obligation: both sides of each stated law have the same value number for every enumerated configuration. " + extra, floor, list(ASSUME) + list(assume))

    spec("C10", "Power balance, efficiency, cost, weight and margin laws of splitters, motors, generators, batteries, turboshafts and propellers, and the power paths of the propulsion-system groups.",
         {"laws_decided": 10, "obligations": 1100})
    spec("C11", "Heat, mass and momentum balances of all thermal components (coolant loop parts, refrigerator, cold plates, motor and battery cooling, plate-fin exchanger, heat pipe, duct stations) and of the groups built from them.",
         {"laws_decided": 35, "obligations": 1800})
    spec("C13", "Empty-weight, parasite-drag and operating-cost build-ups: the total equals the factored sum of its parts, and each part of a build-up group equals its estimate on the group's own inputs.",
         {"laws_decided": 5, "obligations": 300})
    spec("C25", "Closed-form weight, drag, lift, stall-speed, wave-drag and tail-sizing correlations.", {"laws_decided": 21, "obligations": 100})
    spec("C14", "Standard-atmosphere layers, ideal-gas law, speed of sound, Mach number, airspeed and dynamic-pressure relations, hydrostatic balance; at every layer boundary the graph's value and slope are compared on both sides of the switching condition.",
         {"laws_decided": 5, "obligations": 260, "boundaries_compared": 79})
    spec("C15", "Equations of motion, speed and climb-angle relations, takeoff distances and residuals of the mission phases, and hand-over of every integrated state in every mission profile.",
         {"laws_decided": 13, "obligations": 1600})
    spec("C18", "Time integration (both integrator components, every scheme, node count, segment layout, time set-up and integrand layout), numerical differentiation and linear point generation: rates are replaced by symbolic polynomials of the promised order and the graphs "
         "compared with their exact integral or derivative; start value, segment continuity, final value, linearity, declared units and bounds.",
         {"laws_decided": 4, "obligations": 2400, "configs_decided": 130})
    spec("C19", "Sums, products and quotients, concatenations, splits, selections, extrema, labels and dictionary outputs against their definition element by element for tables of names, sizes and symbolic scaling factors, with units, defaults and bounds on the right variable.",
         {"laws_decided": 6, "obligations": 1400, "configs_decided": 95})
    spec("C21", "Wing planform quantities against exact integrals over the piecewise trapezoidal planform (Simpson's rule on linear chords), meshes against area, span, taper, sweep, node placement, and section interpolation; all section counts, index ranges and panel layouts enumerated, geometry symbolic.",
         {"laws_decided": 6, "obligations": 1200, "configs_decided": 100})
    spec("C22", "Engine decks: provenance analysis of every training sample (each number of each data file carries a label of its own through the abstractly executed deck builder): inputs and outputs of a sample come from the same point of the same deck, each output from the file of that quantity in the unit it declares, every valid point used exactly once, cache files "
         "distinct. Rubberised engine: value graphs of the flattened group over an uninterpreted deck.",
         {"laws_decided": 1, "obligations": 40000, "configs_decided": 8})
    spec("C28", "Bundled propulsion systems: every input and output of one side of a twin against the other side (renamed symbols, both propulsors working); every part of a variant against its documented base; "
         "interpolation tables; default design values.", {"laws_decided": 5, "obligations": 2500, "configs_decided": 25})
    spec("C26", "Plot helpers (trajectory plots and grids, wing-mesh and force-contour plots) against a recording stand-in for matplotlib: every curve, polygon, level, label and axes object is read back from the recorder, prob and case are tables of symbols, and each drawn value is compared with the value it must be.",
         {"laws_decided": 2, "obligations": 300})
    spec("C23", "Liquid-hydrogen tank: volume, surface, hoop-stress and buckling sizing, insulation, weights, fuel mass and fill level, and the group's totals.",
         {"laws_decided": 3, "obligations": 66, "configs_decided": 11})
    from .checks import wiring as W
    reg("C16", W.run_c16, "promotion and connection resolution of the abstractly set-up model tree; typestate of inputs (fed, promoted, unfed)",
        "Every group class is set up abstractly for each enumerated configuration (" + ENGINE + "); promotions and connections are resolved to absolute names by OpenMDAO's rules. Rules: every connect joins an existing output to an existing input, every promotion matches, "
        "one source per input, compatible shape and units on both ends and among inputs promoted together, source indices in range, no unit dropped; an internal input without source that is not promoted to the boundary, or a boundary input, must be one the group takes from outside by design (oca/interface.json, reviewed by hand).",
        {"classes_decided": 31, "connections_checked": 10000, "boundary_inputs_checked": 2500, "unfed_inputs_reviewed": 1600}, ASSUME)
    from .checks import contin as K
    reg("C24", K.run_c24, "boundary analysis of the gated value graphs: both sides of every switching condition compared on its boundary",
        "Every explicit component and configuration is evaluated by " + ENGINE + ". For each comparison that gates an output graph, boundary points of the comparison are located in 70-digit arithmetic on the graph and the two gated sides (and the boundary point itself) "
        "must have the same value. Points outside the physical domain (non-positive densities, masses, temperatures, areas; documented guards) are exempt.",
        {"classes_decided": 80, "crossings": 220, "outputs_checked": 1400}, ASSUME)
    from .checks import options as OP
    reg("C17", OP.run, "option-effect analysis: dependence of value graphs and of the set-up model tree on each declared option, against reviewed effect tables",
        "Every class is built abstractly (" + ENGINE + ") for each declared option at its base value and at other values (float options are symbols), with the other options at base and varied one at a "
        "time. Effect of an option: outputs whose value graph depends on it, variables whose units, shape, default or bounds change; for groups the options, defaults and equation tables of all internal "
        "parts it reaches, the parts it adds or removes, boundary names, default values and wiring. Rules: (option-without-effect) a declared option reaches something; (option-effect) every effect of the "
        "reviewed table oca/effects.json is present: an internal part that took the option takes it, with the same value, and it is the same part. effects_checked counts table rows.",
        {"classes_decided": 100, "options": 280, "cases": 1700, "effects_checked": 6100}, ASSUME)
    from .checks import cache as CA
    reg("C09", CA.run, "abstract execution of option-change / repeated-setup / aborted-training histories of the surrogate drag polars with labelled training data",
        "The data generators and drag-polar groups built on OpenAeroStruct are executed abstractly (" + ENGINE + ") through histories of setups and evaluations: other training points, other mesh sizes, "
        "other surface options, two instances with different settings, a fault injected at each stage of a training run. The nested analysis is an uninterpreted function of its inputs and settings, so "
        "every training value carries the settings it was computed with. Obligations: each trained value handed to the surrogate equals the nested analysis at the grid point, settings and instance that "
        "ask for it, in the layout the surrogate expects.",
        {"histories_decided": 110, "values_checked": 180000, "faults_injected": 19, "grids": 27}, ASSUME)
    from .checks import reject as RJ
    reg("C20", RJ.run, "abstract execution of set-up and evaluation under invalid settings; guard-condition analysis of the path conditions of raising paths",
        "Every listed invalid setting (a value outside the declared restriction, a missing required option, contradictory options, wrong table lengths, wrong names) is set up abstractly (" + ENGINE + ") and has to "
        "end in an exception; its nearest valid counterpart has to be accepted. Guards on computed values: the condition under which the exception is raised is read off the paths and compared with the stated "
        "condition at generated points, both sides and the boundary. Declared restrictions (types, values, bounds, required) are compared with the reviewed table oca/declared.json: a restriction that is "
        "relaxed there must be replaced by a rejection in the code.",
        {"settings_checked": 260, "guards": 18, "guard_points": 5700, "declared_restrictions": 54}, ASSUME)
    from .checks import dims as DM
    reg("C12", DM.run, "dimensional analysis of value graphs: rescaling of each base unit",
        "Every physics component is evaluated to value graphs (" + ENGINE + "), with each dimensional option and each named physical constant (standard gravity, gas constants, sea-level density, ...) as a "
        "symbol. Each base unit (kg, m, s, K, A, mol, USD) is rescaled: every symbol is multiplied by the factor to the power of the exponent of its declared unit; the graph of each output has to be multiplied "
        "by the factor to the power of the exponent of its own declared unit, in every regime of the graph; a residual has to keep one exponent throughout. Also for the expression components of groups. "
        "The outputs claimed are listed in oca/dims.json; empirical fits in fixed units are not in the list.",
        {"classes_decided": 64, "outputs_checked": 2700, "scalings": 5000}, ASSUME)
    from .checks import docs as DC
    reg("C27", DC.run, "comparison of parsed documentation sections with the abstractly set-up interface (names, units, shapes, option defaults)",
        "The Inputs, Outputs and Options sections of every class docstring are parsed; every class is set up abstractly (" + ENGINE + ") for each enumerated configuration. Rules: a documented variable exists at the boundary (in some configuration), has the documented unit "
        "and is a scalar or vector as documented; a documented option is declared, with the documented default; the same for the components the engine deck functions return and for the documented arguments (name, literal default) of every function and method. Entries in a form the parser does not read, and variables named by the arguments of the class, are counted and not decided.",
        {"classes_decided": 60, "names_checked": 500, "units_checked": 500, "shapes_checked": 400, "options_checked": 200, "defaults_checked": 120, "arguments_checked": 60, "functions_that_make_components": 1}, ASSUME)
    return CHECKS
