"""C13: weight, drag and cost build-ups count every contribution exactly once"""
import itertools
from .base import *
from . import correl as K

TP_STRUCT = ("W_wing", "W_fuselage", "W_nacelle", "W_empennage", "W_gear")


def total(s, names, units="lb"):
    t = 0.0
    for n in names:
        t = t + s.o(n, units)
    return t


def _turboprop(s, extra):
    k = s.o("structural_fudge")
    st = total(s, TP_STRUCT)
    s.eq("structure = sum of its parts", s.o("W_structure", "lb"), st)
    s.eq("structural factor applies to the structure", s.o("W_structure_adjusted", "lb"), k * st)
    t = k * st + s.o("W_fuelsystem", "lb") + s.o("W_equipment", "lb") + s.o("W_fluids", "lb")
    for e in extra:
        t = t + s.i(e, "lb")
    s.eq("empty weight = sum of its parts", s.o("OEW", "lb"), t)
    n = 3.8 * 1.5
    s.eq("wing part", s.o("W_wing", "lb"), K.tp_wing(s, n))
    s.eq("fuselage part", s.o("W_fuselage", "lb"), K.tp_fuselage(s, n))
    s.eq("empennage part", s.o("W_empennage", "lb"), K.tp_empennage(s, n))
    s.eq("nacelle part", s.o("W_nacelle", "lb"), K.tp_nacelle_single(s))
    s.eq("gear part", s.o("W_gear", "lb"), K.tp_gear(s, n))
    s.eq("fuel system part", s.o("W_fuelsystem", "lb"), K.tp_fuelsystem(s, 6.55))
    s.eq("equipment part", s.o("W_equipment", "lb"), K.tp_equipment(s, s.o("W_fuelsystem", "lb")))


@law("C13", "weights.weights_turboprop.SingleTurboPropEmptyWeight", kind="group")
def single_turboprop(s):
    _turboprop(s, ("W_engine", "W_propeller"))


@law("C13", "weights.weights_twin_hybrid.TwinSeriesHybridEmptyWeight", kind="group")
def twin_hybrid(s):
    _turboprop(s, ("W_engine", "W_motors", "W_generator", "W_propeller"))


@law("C13", "weights.weights_turboprop.EquipmentWeight_SmallTurboprop")
def equipment(s):
    s.eq("equipment = sum of its eight parts", s.o("W_equipment", "lb"), K.tp_equipment(s, s.i("W_fuelsystem", "lb")))


@law("C13", "weights.weights_turboprop.LandingGearWeight_SmallTurboprop")
def gear(s):
    s.eq("gear = main + nose", s.o("W_gear", "lb"), K.tp_gear(s, s.opt("n_ult")))


JET_REST = ("W_engines", "W_thrust_rev", "W_eng_control", "W_fuelsystem", "W_eng_start", "W_furnishings", "W_flight_controls", "W_avionics",
            "W_electrical", "W_ac_pressurize_antiice", "W_oxygen", "W_APU")


def _jet(s, body, V):
    sf, tf, wm, n, nl = (s.opt(k) for k in ("structural_fudge", "total_fudge", "wing_weight_multiplier", "n_ult", "n_land_ult"))
    st = sf * (wm * s.o("W_wing", "lb") + total(s, body))
    s.eq("structure = factored sum of its parts", s.o("W_structure", "lb"), st)
    s.eq("empty weight = factored sum of its parts", s.o("OEW", "lb"), tf * (st + total(s, JET_REST)))
    s.eq("engines counted once each", s.o("W_engines", "lb"), K.jt_engine(s) * s.i("ac|propulsion|num_engines"))
    s.eq("wing part", s.o("W_wing", "lb"), K.jt_wing(s, n, s.opt("control_surface_area_frac")))
    s.eq("main gear part", s.o("W_mlg", "lb"), K.jt_mlg(s, nl, s.opt("kneeling_main_gear_parameter")))
    s.eq("nose gear part", s.o("W_nlg", "lb"), K.jt_nlg(s, nl, s.opt("kneeling_nose_gear_parameter")))
    s.eq("nacelle part", s.o("W_nacelle", "lb"), K.jt_nacelle(s))
    for k, v in K.jt_engine_systems(s, K.jt_engine(s)).items():
        s.eq(f"part {k}", s.o(k, "lb"), v)
    s.eq("furnishings part", s.o("W_furnishings", "lb"), K.jt_furnishings(s, s.opt("K_lav"), s.opt("K_buf")))
    for k, v in K.jt_equipment(s, s.o("W_fuelsystem", "lb"), V, s.opt("coeff_fc"), s.opt("coeff_avionics"), s.opt("APU_weight_frac")).items():
        s.eq(f"part {k}", s.o(k, "lb"), v)


@law("C13", "weights.weights_jet_transport.JetTransportEmptyWeight", kind="group")
def jet_transport(s):
    V = PI / 4 * s.i("ac|geom|fuselage|height", "ft") ** 2 * s.i("ac|geom|fuselage|length", "ft") * s.opt("cabin_length_frac")
    _jet(s, ("W_hstab", "W_vstab", "W_fuselage", "W_mlg", "W_nlg", "W_nacelle"), V)
    n = s.opt("n_ult")
    s.eq("hstab part", s.o("W_hstab", "lb"), K.jt_hstab(s, n, K.jt_hstab_const(s, s.opt("fuselage_width_frac")), s.opt("K_uht"), s.opt("elevator_area_frac")))
    s.eq("vstab part", s.o("W_vstab", "lb"), K.jt_vstab(s, n, s.opt("T_tail")))
    s.eq("fuselage part", s.o("W_fuselage", "lb"), K.jt_fuselage(s, n, K.jt_kws(s), s.opt("K_door"), s.opt("K_lg")))


@law("C13", "weights.weights_BWB.BWBEmptyWeight", kind="group")
def bwb(s):
    _jet(s, ("W_cabin", "W_aftbody", "W_mlg", "W_nlg", "W_nacelle"), s.i("ac|geom|V_pressurized", "ft**3"))
    s.eq("cabin part", s.o("W_cabin", "lb"), K.bwb_cabin(s))
    s.eq("aftbody part", s.o("W_aftbody", "lb"), K.bwb_aftbody(s))


# ------------------------------------------------------------------ drag
def _cond(s):
    return s.i("fltcond|Utrue", "m/s"), s.i("fltcond|rho", "kg/m**3"), s.i("fltcond|T", "K")


def _flap(s):
    return K.flap_drag(s.i("ac|aero|takeoff_flap_deg", "deg"), s.i("ac|geom|wing|c4sweep", "rad"), s.opt("flap_chord_frac"), s.opt("Q_flap"), s.opt("wing_area_flapped_frac"))


def _nacelle(s, U, rho, T, Sw):
    Cf = K.skin_friction(s.i("ac|geom|nacelle|length", "m"), U, rho, T, s.opt("nacelle_laminar_frac"))
    return Cf * s.i("ac|geom|nacelle|S_wet", "m**2") * s.opt("FF_nacelle") * s.i("ac|propulsion|num_engines") / Sw


@law("C13", "aerodynamics.drag_jet_transport.ParasiteDragCoefficient_JetTransport", kind="group")
def jet_drag(s):
    U, rho, T = _cond(s)
    Sw = s.i("ac|geom|wing|S_ref", "m**2")
    L, D = s.i("ac|geom|fuselage|length", "m"), s.i("ac|geom|fuselage|height", "m")
    cd = K.skin_friction(L, U, rho, T, s.opt("fuselage_laminar_frac")) * K.ff_fuselage(L, D, s.opt("Q_fuselage")) * s.i("ac|geom|fuselage|S_wet", "m**2") / Sw
    for surf in ("hstab", "vstab") + (("wing",) if s.opt("include_wing") else ()):
        S = s.i(f"ac|geom|{surf}|S_ref", "m**2")
        c = K.mac_trap(S, s.i(f"ac|geom|{surf}|AR"), s.i(f"ac|geom|{surf}|taper"))
        Q = s.opt("Q_wing" if surf == "wing" else "Q_tail")
        cd = cd + 2 * S / Sw * K.ff_wing(s.i(f"ac|geom|{surf}|toverc"), Q) * K.skin_friction(c, U, rho, T, s.opt(f"{surf}_laminar_frac"))
    cd = cd + _nacelle(s, U, rho, T, Sw)
    if s.opt("configuration") == "takeoff":
        cd = cd + _flap(s) + 0.02
    s.eq("zero-lift drag = factored sum of its parts", s.o("CD0"), s.opt("drag_fudge_factor") * cd)


@law("C13", "aerodynamics.drag_BWB.ParasiteDragCoefficient_BWB", kind="group")
def bwb_drag(s):
    U, rho, T = _cond(s)
    cd = _nacelle(s, U, rho, T, s.i("ac|geom|wing|S_ref", "m**2"))
    if s.opt("configuration") == "takeoff":
        cd = cd + _flap(s) + 0.01
    s.eq("zero-lift drag = factored sum of its parts", s.o("CD0"), s.opt("drag_fudge_factor") * cd)


# ------------------------------------------------------------------ costs
@law("C13", "costs.costs_commuter.TurbopropOperatingCost")
def operating_cost(s):
    o = s.opt
    w, c = s.i("OEW", "kg"), 0.0
    for k in range(1, o("n_components") + 1):
        w = w - s.i(f"component_{k}_weight", "kg")
        c = c + s.i(f"component_{k}_NR_cost", "USD")
    af = w * o("airframe_cost_per_kg") * o("OEM_premium")
    tot = af + c * o("OEM_premium")
    s.eq("airframe cost", s.o("airframe_NR_cost", "USD"), af, scale=1e-9)
    s.eq("total non-recurring cost", s.o("total_NR_cost", "USD"), tot, scale=1e-9)
    fuel = s.i("fuel_burn", "kg") * o("fuel_cost_per_kg")
    s.eq("fuel cost", s.o("fuel_cost", "USD"), fuel)
    en, ba = 0.0, 0.0
    if o("n_batteries") is not None:
        for k in range(1, o("n_batteries") + 1):
            en = en + s.i(f"battery_{k}_energy_used", "MJ") * o("electricity_cost_per_MJ")
            ba = ba + s.i(f"battery_{k}_NR_cost", "USD") / o("battery_replacement_cycles")
        s.eq("electricity cost", s.o("electricity_cost", "USD"), en)
        s.eq("battery cost", s.o("trip_battery_cost", "USD"), ba)
    s.eq("energy cost", s.o("trip_energy_cost", "USD"), fuel + en)
    s.eq("direct operating cost", s.o("trip_direct_operating_cost", "USD"),
         fuel + en + ba + tot / o("aircraft_daily_cycles") / 365 / o("aircraft_life_years"), scale=1e-9)


# ------------------------------------------------------------------ surrogate drag polars
OAS_ = "aerodynamics.openaerostruct."


def _alpha(s):
    ok = [(l, r) for n, l, r in s.balances() if n.endswith(".alpha")]
    s.check("one balance sets the angle of attack", len(ok) == 1, f"{len(ok)} balance equations")
    for l, r in ok:
        s.eq("angle of attack balances the lift coefficient", l, s.o("aero_surrogate.CL"))
        s.eq("lift coefficient asked for", r, s.i("fltcond|CL"))
    s.eq("the balanced angle of attack enters the surrogate", s.i("aero_surrogate.alpha", "deg"), s.o("alpha_bal.alpha", "deg"))


@law("C13", OAS_ + "drag_polar.VLMDragPolar", kind="group", cfgs=lambda c, t: [
    C.Config(c.qual, dict(num_nodes=n, geometry=g, vec_CD_nonwing=v), f"nn={n} {g} vec_CD_nonwing={v}")
    for n, g, v in ([(3, "trapezoidal", False), (1, "section", True), (2, "mesh", False), (3, "mesh", True)] if t == "quick" else itertools.product((1, 2, 3, 5), ("trapezoidal", "section", "mesh"), (False, True)))])
def vlm_drag_polar(s):
    q, S = s.i("fltcond|q", "Pa"), s.i("ac|geom|wing|S_ref", "m**2")
    s.eq("drag = q S (wing + rest)", s.o("drag", "N"), q * S * (s.o("aero_surrogate.CD") + s.i("ac|aero|CD_nonwing")))
    _alpha(s)


@law("C13", OAS_ + "aerostructural.AerostructDragPolar", kind="group", cfgs=lambda c, t: [
    C.Config(c.qual, dict(num_nodes=n), f"nn={n}") for n in ((1, 3) if t == "quick" else (1, 2, 3, 5))])
def aerostruct_drag_polar(s):
    q, S = s.i("fltcond|q", "Pa"), s.i("ac|geom|wing|S_ref", "m**2")
    s.eq("drag = q S CD", s.o("drag", "N"), q * S * s.o("aero_surrogate.CD"))
    s.eq("drag of the other parts enters the training data", s.i("training_data.ac|aero|CD_nonwing"), s.i("ac|aero|CD_nonwing"))
    _alpha(s)


@law("C13", OAS_ + "aerostructural.AerostructDragPolarExact", kind="group", cfgs=lambda c, t: [
    C.Config(c.qual, dict(num_nodes=n), f"nn={n}") for n in ((1, 3) if t == "quick" else (1, 2, 3, 5))])
def aerostruct_drag_polar_exact(s):
    n = s.opt("num_nodes")
    q, S = s.i("fltcond|q", "Pa"), s.i("ac|geom|wing|S_ref", "m**2")
    one = lambda v: np.array([s.i(f"vec_combine.{v}_{k}")[0] for k in range(n)], dtype=object)
    for k in range(n):
        for v, end in (("CL", "fltcond|CL"), ("CD", "fltcond|CD"), ("failure", "failure")):
            src = s.source(f"vec_combine.{v}_{k}") or "nothing"
            s.check(f"point {k}: {v} comes from that point's analysis", f"aerostruct_{k}." in src and src.endswith(end), f"it comes from {src}")
    s.eq("drag = q S (wing + rest)", s.o("drag", "N"), q * S * (one("CD") + s.i("ac|aero|CD_nonwing")))
    s.eq("every point's failure reaches its place", s.o("failure"), one("failure"))
    ok = [(l, r) for m, l, r in s.balances() if m.endswith("fltcond|alpha")]
    s.check("one balance sets the angle of attack", len(ok) == 1, f"{len(ok)} balance equations")
    for l, r in ok:
        s.eq("angle of attack balances each point's lift", l, one("CL"))
        s.eq("lift coefficient asked for", r, s.i("fltcond|CL"))
    for k in range(n):
        s.eq(f"point {k} sees its own altitude", s.i(f"aerostruct_{k}.temp.fltcond|h", "m"), s.i("fltcond|h", "m")[k:k + 1])
        s.eq(f"point {k} sees its own Mach number", s.i(f"aerostruct_{k}.airspeed.Mach"), s.i("fltcond|M")[k:k + 1])
