"""C10: power and energy balances of propulsion and storage components"""
from .base import *


def cost_weight(s, rating, what="rating"):
    s.eq("cost law", s.o("component_cost"), s.i(rating, "W") * s.opt("cost_inc") + s.opt("cost_base"))
    if s.has("component_weight"):
        s.eq("weight law", s.o("component_weight", "kg"), s.i(rating, "W") * s.opt("weight_inc") + s.opt("weight_base"))


@law("C10", "propulsion.splitter.PowerSplit")
def power_split(s):
    p, eta = s.i("power_in", "W"), s.opt("efficiency")
    a, b, q = s.o("power_out_A", "W"), s.o("power_out_B", "W"), s.o("heat_out", "W")
    s.eq("branches sum to efficiency times input", a + b, p * eta, scale=1e-9)
    s.eq("input power = branches + heat", a + b + q, p, scale=1e-9)
    s.eq("heat", q, p * (1 - eta))
    if s.opt("rule") == "fraction":
        s.eq("branch A", a, p * s.i("power_split_fraction") * eta)
    else:
        amt = s.i("power_split_amount", "W")
        s.eq("branch A", a, minimum(amt, p) * eta)
    s.eq("sizing margin", s.o("component_sizing_margin"), p / s.i("power_rating", "W"))
    cost_weight(s, "power_rating")


@law("C10", "propulsion.motor.SimpleMotor")
def motor(s):
    t, r, eta = s.i("throttle"), s.i("elec_power_rating", "W"), s.opt("efficiency")
    s.eq("electrical load", s.o("elec_load", "W"), t * r)
    s.eq("load = shaft power + heat", s.o("shaft_power_out", "W") + s.o("heat_out", "W"), s.o("elec_load", "W"))
    s.eq("shaft power", s.o("shaft_power_out", "W"), t * r * eta)
    s.eq("sizing margin", s.o("component_sizing_margin"), s.o("elec_load", "W") / r)
    cost_weight(s, "elec_power_rating")


@law("C10", "propulsion.generator.SimpleGenerator")
def generator(s):
    p, r, eta = s.i("shaft_power_in", "W"), s.i("elec_power_rating", "W"), s.opt("efficiency")
    s.eq("electric power", s.o("elec_power_out", "W"), p * eta)
    s.eq("shaft power = electric power + heat", s.o("elec_power_out", "W") + s.o("heat_out", "W"), p)
    s.eq("sizing margin", s.o("component_sizing_margin"), s.o("elec_power_out", "W") / r)
    cost_weight(s, "elec_power_rating")


@law("C10", "propulsion.turboshaft.SimpleTurboshaft")
def turboshaft(s):
    t, r = s.i("throttle"), s.i("shaft_power_rating", "W")
    s.eq("shaft power", s.o("shaft_power_out", "W"), t * r)
    s.eq("fuel flow", s.o("fuel_flow", "kg/s"), s.o("shaft_power_out", "W") * s.opt("psfc"))
    s.eq("sizing margin", s.o("component_sizing_margin"), s.o("shaft_power_out", "W") / r)
    cost_weight(s, "shaft_power_rating")


@law("C10", "energy_storage.battery.SimpleBattery")
def battery(s):
    w, load = s.i("battery_weight", "kg"), s.i("elec_load", "W")
    s.eq("energy", s.o("max_energy", "W*h"), w * s.i("specific_energy", "W*h/kg"))
    s.eq("default specific energy", s.val("specific_energy", "W*h/kg"), s.opt("specific_energy"))
    s.eq("heat", s.o("heat_out", "W"), load * (1 - s.opt("efficiency")))
    s.eq("sizing margin", s.o("component_sizing_margin"), load / (s.opt("specific_power") * w))
    s.eq("cost law", s.o("component_cost"), w * s.opt("cost_inc") + s.opt("cost_base"))


@law("C10", "energy_storage.battery.SOCBattery", kind="group")
def soc_battery(s):
    nn = s.nn
    load, E_ = s.i("elec_load", "W"), s.o("max_energy", "J")
    soc, soc0, T = s.o("SOC"), s.i("SOC_initial"), s.i("duration", "s")
    s.eq("energy", E_, s.i("battery_weight", "kg") * s.i("specific_energy", "J/kg"))
    s.eq("initial state of charge", soc[0], soc0)
    s.eq("final state of charge", s.o("SOC_final").reshape(-1)[0], soc[-1])
    # energy drawn over the phase by Simpson's rule = drop of stored energy
    if nn == 1:
        return
    w = np.ones(nn)
    w[1:-1:2], w[2:-1:2] = 4, 2
    drawn = ssum(load * w) * T / (3 * (nn - 1))
    s.eq("energy drawn = drop of stored energy", (soc0 - s.o("SOC_final").reshape(-1)[0]) * E_, drawn, scale=1e-9)
    s.eq("heat", s.o("heat_out", "W"), load * (1 - s.opt("efficiency")))
    s.eq("sizing margin", s.o("component_sizing_margin"), load / (s.opt("specific_power") * s.i("battery_weight", "kg")))
    s.eq("cost law", s.o("component_cost"), s.i("battery_weight", "kg") * s.opt("cost_inc") + s.opt("cost_base"))


# ------------------------------------------------------------------ propellers
@law("C10", "propulsion.propeller.PropCoefficients")
def prop_coefficients(s):
    n, D = s.i("rpm", "1/s") / 1.0 if False else s.i("rpm") / 60.0, s.i("diameter", "m")
    rho = s.i("fltcond|rho", "kg/m**3")
    s.eq("power coefficient: cp rho n^3 D^5 = shaft power", s.o("cp") * rho * n ** 3 * D ** 5, s.i("shaft_power_in", "W"))
    s.eq("advance ratio: J n D = speed", s.o("J") * n * D, s.i("fltcond|Utrue", "m/s"))
    s.eq("tip speed", s.o("prop_Vtip"), n * PI * D)


@law("C10", "propulsion.propeller.ThrustCalc")
def prop_thrust(s):
    n, D, J, cp = s.i("rpm") / 60.0, s.i("diameter", "m"), s.i("J"), s.i("cp")
    rho, eta = s.i("fltcond|rho", "kg/m**3"), s.i("eta_prop")
    T = s.o("thrust", "N")
    P = cp * rho * n ** 3 * D ** 5
    fast, slow = le(0.2, J), le(J, 0.1)
    for k in range(len(J)):
        s.eq("propulsive power = efficiency * shaft power", (T * J * n * D)[k], (eta * P)[k], when=[fast[k]])
        s.eq("static thrust", T[k], (s.i("ct_over_cp") * cp * rho * n ** 2 * D ** 4)[k], when=[slow[k]])


# ------------------------------------------------------------------ propulsion systems (flattened data flow)
Q = "propulsion.systems.simple_series_hybrid."
TQ = "propulsion.systems.thermal_series_hybrid."


def chain(s, motors, props, second=True):
    for m, p in zip(motors, props):
        s.eq(f"{m} shaft power reaches {p}", s.i(f"{p}.shaft_power_in", "W"), s.o(f"{m}.shaft_power_out", "W"))


def sums(s, total, parts, units):
    s.eq(f"{total} = sum of parts", s.o(total, units), sum(s.o(p, units) for p in parts), scale=1e-12)


def generator_set(s, pref="gen1"):
    s.eq("engine power reaches the generator", s.i("gen1.shaft_power_in", "W"), s.o("eng1.shaft_power_out", "W"))


def hybrid(s, load, two=True):
    s.eq("electric load enters the power split", s.i("hybrid_split.power_in", "W"), s.o(load, "W"))
    s.eq("split branch A is drawn from the battery", s.i("batt1.elec_load", "W"), s.o("hybrid_split.power_out_A", "W"))
    generator_set(s)


def twin_hybrid(s, load, parts):
    chain(s, ("motor1", "motor2"), ("prop1", "prop2"))
    sums(s, load, parts, "W")
    sums(s, "thrust", ("prop1.thrust", "prop2.thrust"), "N")
    sums(s, "motors_weight", ("motor1.component_weight", "motor2.component_weight"), "kg")
    sums(s, "propellers_weight", ("prop1.component_weight", "prop2.component_weight"), "kg")
    hybrid(s, load)
    s.eq("generator must supply split branch B", s.i("eng_throttle_set.gen_power_required", "W"), s.o("hybrid_split.power_out_B", "W"))
    s.eq("generator output enters the balance", s.i("eng_throttle_set.gen_power_available", "W"), s.o("gen1.elec_power_out", "W"))
    s.eq("engine throttle is the balanced state", s.i("eng1.throttle"), s.o("eng_throttle_set.eng_throttle"))
    s.eq("battery load", s.o("battery_load", "W"), s.o("hybrid_split.power_out_A", "W"))
    s.eq("first motor throttle", s.i("motor1.throttle"), s.i("throttle"))
    s.eq("second motor throttle", s.i("motor2.throttle"), s.i("throttle") * s.i("propulsor_active"))
    s.eq("fuel flow", s.o("fuel_flow", "kg/s"), s.o("eng1.fuel_flow", "kg/s"))
    design(s, ("motor1", "motor2"), ("prop1", "prop2"))


def design(s, motors, props):
    R = "ac|propulsion|"
    for a, b in (("engine|rating", ["eng1.shaft_power_rating"]), ("motor|rating", [m + ".elec_power_rating" for m in motors] + [p + ".power_rating" for p in props]),
                 ("generator|rating", ["gen1.elec_power_rating"])):
        for x in b:
            s.eq(f"{x} is the design value", s.i(x, "W"), s.i(R + a, "W"))
    for p in props:
        s.eq(f"{p}.diameter is the design value", s.i(p + ".diameter", "m"), s.i(R + "propeller|diameter", "m"))
    s.eq("battery weight is the design value", s.i("batt1.battery_weight", "kg"), s.i("ac|weights|W_battery", "kg"))


@law("C10", Q + "TwinSeriesHybridElectricPropulsionSystem", kind="group")
def twin_series_hybrid(s):
    twin_hybrid(s, "motors_elec_load", ("motor1.elec_load", "motor2.elec_load"))


@law("C10", TQ + "TwinSeriesHybridElectricThermalPropulsionSystem", kind="group")
def twin_series_hybrid_thermal(s):
    twin_hybrid(s, "motors_elec_load", ("motor1.elec_load", "motor2.elec_load"))


@law("C10", TQ + "TwinSeriesHybridElectricThermalPropulsionRefrigerated", kind="group")
def twin_series_hybrid_refrig(s):
    twin_hybrid(s, "total_elec_load", ("motor1.elec_load", "motor2.elec_load", "refrig.elec_load"))


@law("C10", Q + "SingleSeriesHybridElectricPropulsionSystem", kind="group")
def single_series_hybrid(s):
    chain(s, ("motor1",), ("prop1",))
    hybrid(s, "motor1.elec_load")
    s.eq("thrust", s.o("thrust", "N"), s.o("prop1.thrust", "N"))
    s.eq("generator residual", s.o("eng_gen_resid.eng_gen_residual", "W"), s.o("gen1.elec_power_out", "W") - s.o("hybrid_split.power_out_B", "W"), scale=1e-9)
    design(s, ("motor1",), ("prop1",))
    s.eq("motors weight", s.o("motors_weight", "kg"), s.o("motor1.component_weight", "kg"))
    s.eq("propellers weight", s.o("propellers_weight", "kg"), s.o("prop1.component_weight", "kg"))
    s.eq("fuel flow", s.o("fuel_flow", "kg/s"), s.o("eng1.fuel_flow", "kg/s"))


@law("C10", Q + "SeriesHybridElectricPropulsionSystem", kind="group")
def series_hybrid(s):
    chain(s, ("motor1",), ("prop1",))
    hybrid(s, "motor1.elec_load")
    s.eq("thrust", s.o("thrust", "N"), s.o("prop1.thrust", "N"))
    s.eq("fuel flow", s.o("fuel_flow", "kg/s"), s.o("eng1.fuel_flow", "kg/s"))
    s.eq("motor throttle", s.i("motor1.throttle"), s.i("throttle"))
    for x, d, u in (("eng1.shaft_power_rating", "ac|propulsion|engine|rating", "W"), ("prop1.diameter", "dv_prop1_diameter", "m"), ("motor1.elec_power_rating", "dv_motor1_rating", "W"),
                    ("prop1.power_rating", "dv_motor1_rating", "W"), ("gen1.elec_power_rating", "dv_gen1_rating", "W"), ("batt1.battery_weight", "dv_batt1_weight", "kg")):
        s.eq(f"{x} is the design value", s.i(x, u), s.i(d, u))


TP = "propulsion.systems.simple_turboprop."


@law("C10", TP + "TurbopropPropulsionSystem", kind="group")
def turboprop(s):
    s.eq("engine power reaches the propeller", s.i("prop1.shaft_power_in", "W"), s.o("eng1.shaft_power_out", "W"))
    s.eq("thrust", s.o("thrust", "N"), s.o("prop1.thrust", "N"))
    s.eq("fuel flow", s.o("fuel_flow", "kg/s"), s.o("eng1.fuel_flow", "kg/s"))
    s.eq("throttle", s.i("eng1.throttle"), s.i("throttle"))
    for x in ("eng1.shaft_power_rating", "prop1.power_rating"):
        s.eq(f"{x} is the design value", s.i(x, "W"), s.i("ac|propulsion|engine|rating", "W"))
    s.eq("propeller diameter is the design value", s.i("prop1.diameter", "m"), s.i("ac|propulsion|propeller|diameter", "m"))


@law("C10", TP + "TwinTurbopropPropulsionSystem", kind="group")
def twin_turboprop(s):
    for k in "12":
        s.eq(f"engine {k} power reaches propeller {k}", s.i(f"prop{k}.shaft_power_in", "W"), s.o(f"eng{k}.shaft_power_out", "W"))
        for x in (f"eng{k}.shaft_power_rating", f"prop{k}.power_rating"):
            s.eq(f"{x} is the design value", s.i(x, "W"), s.i("ac|propulsion|engine|rating", "W"))
        s.eq(f"propeller {k} diameter is the design value", s.i(f"prop{k}.diameter", "m"), s.i("ac|propulsion|propeller|diameter", "m"))
    sums(s, "thrust", ("prop1.thrust", "prop2.thrust"), "N")
    sums(s, "fuel_flow", ("eng1.fuel_flow", "eng2.fuel_flow"), "kg/s")
    sums(s, "engines_weight", ("eng1.component_weight", "eng2.component_weight"), "kg")
    sums(s, "propellers_weight", ("prop1.component_weight", "prop2.component_weight"), "kg")
    s.eq("first engine throttle", s.i("eng1.throttle"), s.i("throttle"))
    s.eq("second engine throttle", s.i("eng2.throttle"), s.i("throttle") * s.i("propulsor_active"))


AE = "propulsion.systems.simple_all_electric."


def all_electric(s):
    chain(s, ("motor1",), ("prop1",))
    s.eq("motor load is drawn from the battery", s.i("batt1.elec_load", "W"), s.o("motor1.elec_load", "W"))
    s.eq("thrust", s.o("thrust", "N"), s.o("prop1.thrust", "N"))
    for x in ("motor1.elec_power_rating", "prop1.power_rating"):
        s.eq(f"{x} is the design value", s.i(x, "W"), s.i("ac|propulsion|motor|rating", "W"))
    s.eq("battery weight is the design value", s.i("batt1.battery_weight", "kg"), s.i("ac|weights|W_battery", "kg"))


law("C10", AE + "AllElectricSinglePropulsionSystemWithThermal_Compressible", kind="group", name="all_electric_c")(all_electric)
law("C10", AE + "AllElectricSinglePropulsionSystemWithThermal_Incompressible", kind="group", name="all_electric_i")(all_electric)


# ------------------------------------------------------------------ the propeller as a whole
@law("C10", "propulsion.propeller.WeightCalc")
def prop_weight(s):
    s.eq("Roskam 6.14", s.o("component_weight", "lb"),
         0.108 * (s.i("diameter", "ft") * s.i("power_rating", "hp") * s.opt("num_blades") ** 0.5) ** 0.782)


@law("C10", "propulsion.empirical_data.prop_maps.ConstantPropEfficiency")
def constant_efficiency(s):
    s.eq("constant efficiency", s.o("eta_prop"), 0.85 + 0.0 * s.i("J"))


@law("C10", "propulsion.propeller.SimplePropeller", kind="group", cfgs=lambda c, t: [
    C.Config(c.qual, dict(num_nodes=n, num_blades=b), f"nn={n} num_blades={b}")
    for n, b in ([(1, 3), (3, 4)] if t == "quick" else [(n, b) for n in (1, 2, 3, 5) for b in (3, 4)])])
def whole_propeller(s):
    cp, J = s.o("cp"), s.o("J")
    for m in ("propmap", "staticpropmap"):
        s.eq(f"power coefficient enters {m}", s.i(m + ".cp"), cp)
    s.eq("advance ratio enters the map", s.i("propmap.J"), J)
    for v in ("cp", "J"):
        s.eq(f"{v} enters the thrust", s.i("thrustcalc." + v), s.o(v))
    T, U, P = s.o("thrust", "N"), s.i("fltcond|Utrue", "m/s"), s.i("shaft_power_in", "W")
    eta = s.i("thrustcalc.eta_prop")
    fast = le(0.2, J)
    for k in range(len(J)):
        s.eq("thrust power = map efficiency * shaft power", (T * U)[k], (eta * P)[k], when=[fast[k]])
    for a, b in (("eta_prop", "propmap"), ("ct_over_cp", "staticpropmap")):
        src = s.source("thrustcalc." + a)
        s.check(f"{a} comes from {b}", src is not None and src.startswith(b + "."), f"it comes from {src}")
    s.eq("weight", s.o("component_weight", "lb"),
         0.108 * (s.i("diameter", "ft") * s.i("power_rating", "hp") * s.opt("num_blades") ** 0.5) ** 0.782)
