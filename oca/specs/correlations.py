"""C25: engineering estimates equal the correlations they document"""
from .base import *
from . import correl as K

TP = "weights.weights_turboprop."
JT = "weights.weights_jet_transport."


def simple(qual, out, units, f):
    @law("C25", qual, name="correlation")
    def g(s):
        s.eq(out, s.o(out, units), f(s))


simple(TP + "WingWeight_SmallTurboprop", "W_wing", "lb", lambda s: K.tp_wing(s, s.opt("n_ult")))
simple(TP + "EmpennageWeight_SmallTurboprop", "W_empennage", "lb", lambda s: K.tp_empennage(s, s.opt("n_ult")))
simple(TP + "FuselageWeight_SmallTurboprop", "W_fuselage", "lb", lambda s: K.tp_fuselage(s, s.opt("n_ult")))
simple(TP + "NacelleWeight_SmallSingleTurboprop", "W_nacelle", "lb", K.tp_nacelle_single)
simple(TP + "NacelleWeight_MultiTurboprop", "W_nacelle", "lb", K.tp_nacelle_multi)
simple(TP + "LandingGearWeight_SmallTurboprop", "W_gear", "lb", lambda s: K.tp_gear(s, s.opt("n_ult")))
simple(TP + "FuelSystemWeight_SmallTurboprop", "W_fuelsystem", "lb", lambda s: K.tp_fuelsystem(s, s.opt("Kfsp")))
simple(TP + "EquipmentWeight_SmallTurboprop", "W_equipment", "lb", lambda s: K.tp_equipment(s, s.i("W_fuelsystem", "lb")))
simple(JT + "WingWeight_JetTransport", "W_wing", "lb", lambda s: K.jt_wing(s, s.opt("n_ult"), s.opt("control_surface_area_frac")))
simple(JT + "HstabConst_JetTransport", "HstabConst", None, lambda s: K.jt_hstab_const(s, s.opt("fuselage_width_frac")))
simple(JT + "HstabWeight_JetTransport", "W_hstab", "lb", lambda s: K.jt_hstab(s, s.opt("n_ult"), s.i("HstabConst"), s.opt("K_uht"), s.opt("elevator_area_frac")))
simple(JT + "VstabWeight_JetTransport", "W_vstab", "lb", lambda s: K.jt_vstab(s, s.opt("n_ult"), s.opt("T_tail")))
simple(JT + "FuselageKws_JetTransport", "K_ws", None, K.jt_kws)
simple(JT + "FuselageWeight_JetTransport", "W_fuselage", "lb", lambda s: K.jt_fuselage(s, s.opt("n_ult"), s.i("K_ws"), s.opt("K_door"), s.opt("K_lg")))
simple(JT + "MainLandingGearWeight_JetTransport", "W_mlg", "lb", lambda s: K.jt_mlg(s, s.opt("n_land_ult"), s.opt("kneeling_gear_parameter")))
simple(JT + "NoseLandingGearWeight_JetTransport", "W_nlg", "lb", lambda s: K.jt_nlg(s, s.opt("n_land_ult"), s.opt("kneeling_gear_parameter")))
simple(JT + "EngineWeight_JetTransport", "W_engine", "lb", K.jt_engine)
simple(JT + "NacelleWeight_JetTransport", "W_nacelle", "lb", K.jt_nacelle)
simple(JT + "FurnishingWeight_JetTransport", "W_furnishings", "lb", lambda s: K.jt_furnishings(s, s.opt("K_lav"), s.opt("K_buf")))
simple("weights.weights_BWB.CabinWeight_BWB", "W_cabin", "lb", K.bwb_cabin)
simple("weights.weights_BWB.AftbodyWeight_BWB", "W_aftbody", "lb", K.bwb_aftbody)


@law("C25", JT + "EngineSystemsWeight_JetTransport")
def engine_systems(s):
    for k, v in K.jt_engine_systems(s, s.i("W_engine", "lb")).items():
        s.eq(k, s.o(k, "lb"), v)


@law("C25", JT + "EquipmentWeight_JetTransport")
def equipment(s):
    for k, v in K.jt_equipment(s, s.i("W_fuelsystem", "lb"), s.i("ac|geom|V_pressurized", "ft**3"), s.opt("coeff_fc"), s.opt("coeff_avionics"), s.opt("APU_weight_frac")).items():
        s.eq(k, s.o(k, "lb"), v)


# ------------------------------------------------------------------ aerodynamics
AE = "aerodynamics.aerodynamics."
simple(AE + "Lift", "lift", "N", lambda s: s.i("fltcond|q", "Pa") * s.i("ac|geom|wing|S_ref", "m**2") * s.i("fltcond|CL"))
simple(AE + "PolarDrag", "drag", "N", lambda s: s.i("fltcond|q", "Pa") * s.i("ac|geom|wing|S_ref", "m**2")
       * (s.i("CD0") + s.i("fltcond|CL") ** 2 / (PI * s.i("e") * s.i("ac|geom|wing|AR"))))


@law("C25", AE + "StallSpeed")
def stall(s):
    V = s.o("Vstall_eas", "m/s")
    s.eq("lift at stall carries the weight", 0.5 * 1.225 * V ** 2 * s.i("ac|geom|wing|S_ref", "m**2") * s.i("CLmax"), s.i("weight", "kg") * 9.80665, rel=1e-4)


DJ = "aerodynamics.drag_jet_transport."
simple(DJ + "FuselageFormFactor_JetTransport", "FF_fuselage", None, lambda s: K.ff_fuselage(s.i("ac|geom|fuselage|length", "m"), s.i("ac|geom|fuselage|height", "m"), s.opt("Q_fuselage")))
simple(DJ + "WingFormFactor_JetTransport", "FF_wing", None, lambda s: K.ff_wing(s.i("toverc"), s.opt("Q")))
simple(DJ + "FlapDrag_JetTransport", "CD_flap", None, lambda s: K.flap_drag(s.i("flap_extension", "deg"), s.i("ac|geom|wing|c4sweep", "rad"), s.opt("flap_chord_frac"),
                                                                             s.opt("Q_flap"), s.opt("wing_area_flapped_frac")))
simple(DJ + "SkinFrictionCoefficient_JetTransport", "Cf", None, lambda s: K.skin_friction(s.i("L", "m"), s.i("fltcond|Utrue", "m/s"), s.i("fltcond|rho", "kg/m**3"),
                                                                                          s.i("fltcond|T", "K"), s.opt("laminar_frac")))
CL = "aerodynamics.CL_max_estimation."
simple(CL + "CleanCLmax", "CL_max_clean", None, lambda s: 0.9 * s.opt("fudge_factor") * s.i("ac|aero|airfoil_Cl_max") * cos(s.i("ac|geom|wing|c4sweep", "rad")))


def _flap_cl(s):
    d, sw, t = s.i("flap_extension", "deg"), s.i("ac|geom|wing|c4sweep", "rad"), s.i("ac|geom|wing|toverc")
    base = 1 + 2.33 * t - 77.9 * t ** 2 + 1120 * t ** 3 - 3430 * t ** 4
    k1 = 4 * s.opt("flap_chord_frac")
    k2 = 0.4 + 0.0234 * d - 0.000204 * d ** 2
    k3 = 1.36 * k2 - 0.389 * k2 ** 2
    flaps = base * k1 * k2 * k3 * s.opt("wing_area_flapped_frac") * (1 - 0.08 * cos(sw) ** 2) * cos(sw) ** 0.75
    slats = 7.11 * s.opt("slat_chord_frac") * s.opt("slat_span_frac") ** 2 * cos(sw) ** 2
    return s.opt("fudge_factor") * (s.i("CL_max_clean") + flaps + slats)


simple(CL + "FlapCLmax", "CL_max_flap", None, _flap_cl)
simple("geometry.wetted_area.CylinderSurfaceArea", "A", "m**2", lambda s: PI * s.i("D", "m") * s.i("L", "m"))
TV = "stability.tail_volume_coefficient_sizing."


@law("C25", TV + "HStabVolumeCoefficientSizing")
def htail(s):
    s.eq("volume coefficient", s.o("ac|geom|hstab|S_ref", "m**2") * s.i("ac|geom|hstab|c4_to_wing_c4", "m"), s.opt("C_ht") * s.i("ac|geom|wing|S_ref", "m**2") * s.i("ac|geom|wing|MAC", "m"))


@law("C25", TV + "VStabVolumeCoefficientSizing")
def vtail(s):
    S = s.i("ac|geom|wing|S_ref", "m**2")
    s.eq("volume coefficient", s.o("ac|geom|vstab|S_ref", "m**2") * s.i("ac|geom|vstab|c4_to_wing_c4", "m"), s.opt("C_vt") * S * sqrt(S * s.i("ac|geom|wing|AR")))


@law("C25", "aerodynamics.openaerostruct.wave_drag.WaveDragFromSections", rel=5e-5)
def wave_drag(s):
    a, b = s.opt("idx_sec_start"), s.opt("idx_sec_end")
    n = s.opt("num_sections")
    b = n - 1 if b is None else b
    c, t = s.i("chord_sec", "m")[a:b + 1], s.i("toverc_sec")[a:b + 1]
    y = np.concatenate([s.i("y_sec", "m"), [0.0]])[a:b + 1]
    if len(c) < 2:
        s.skip()
    A, V = 0.0, 0.0
    for k in range(len(c) - 1):
        d = y[k + 1] - y[k]
        A = A + d * (c[k] + c[k + 1]) / 2
        # exact integral of the product of two linear functions
        V = V + d * (2 * c[k] * t[k] + c[k] * t[k + 1] + c[k + 1] * t[k] + 2 * c[k + 1] * t[k + 1]) / 6
    cs = cos(s.i("c4sweep", "rad"))
    mdd = s.opt("airfoil_tech_level") / cs - V / A / cs ** 2 - s.i("fltcond|CL") / (10 * cs ** 3)
    ex = s.i("fltcond|M") - (mdd - (0.1 / 80) ** (1 / 3))
    cd = 2 * 20 * where(gt(ex, 0.0), ex, 0.0 * ex) ** 4
    W = s.o("CD_wave")
    if s.opt("specify_area_norm"):
        s.eq("normalised by the requested area", W * s.i("S_ref", "m**2"), cd * 2 * A, rel=2e-4, scale=1e-6)
    else:
        s.eq("Korn wave drag with the area-averaged thickness", W, cd, rel=2e-4, scale=1e-8)


# ------------------------------------------------------------------ critical section method
@law("C25", "aerodynamics.openaerostruct.CL_max_critical_section.CLmaxCriticalSectionVLM", kind="group", cfgs=lambda c, t: [
    C.Config(c.qual, dict(num_x=x, num_y=y, vec_Cl_max=v), f"{x}x{y} vec_Cl_max={v}") for x, y, v in ((1, 3, False), (2, 4, True), (2, 6, False))])
def critical_section(s):
    lim = s.o("aero.Cl_max_limit.Cl_limit_vec")
    s.eq("distance of every section to its limit", lim, s.i("aero.Cl_max_limit.Cl") - s.i("ac|aero|airfoil_Cl_max"))
    s.check("limits of the sections of the wing", (s.source("aero.Cl_max_limit.Cl") or "").endswith("sectional_CL"), f"taken from {s.source('aero.Cl_max_limit.Cl')}")
    s.eq("all sections are aggregated", s.i("aero.max_limit.g").reshape(-1), lim.reshape(-1))
    ks = [(l, r) for n, l, r in s.balances() if n.endswith(".alpha")]
    s.check("one balance sets the angle of attack", len(ks) == 1, f"{len(ks)} balance equations")
    for l, r in ks:
        s.eq("the worst section is at its limit", l, s.o("aero.max_limit.KS").reshape(-1))
    s.eq("angle of attack at which nothing is left", s.val("sectional_CL_balance.rhs:alpha"), 0.0)
    s.check("balanced angle of attack enters the analysis", s.flat.ext_conn.get("VLM.fltcond|alpha", s.flat.ext_conn.get("aero.VLM.fltcond|alpha")) in
            ("sectional_CL_balance.alpha",), f"it gets {s.flat.ext_conn}")
