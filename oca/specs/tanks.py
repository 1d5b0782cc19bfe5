"""C23: liquid-hydrogen tank with hemispherical caps (radius r, cylinder length L)"""
from .base import *

H_ = "energy_storage.hydrogen."


def volume(r, L):
    return 4.0 / 3.0 * PI * r ** 3 + PI * r ** 2 * L


def area(r, L):
    return 4 * PI * r ** 2 + 2 * PI * r * L


def hoop(p, r, sf, sy):
    """Barlow: sigma = p r / t, sized to the yield stress over the safety factor"""
    return p * r / (sy / sf)


def buckle(p, r, L, sf, E_):
    """Roark table 15.2: critical pressure 0.92 E t^2.5/(L r^1.5) of the cylinder and 0.365 E t^2/r^2 of the sphere must reach sf * p"""
    cyl = power(sf * p * L * power(r, 1.5) / (0.92 * E_), 0.4)
    sph = r * sqrt(sf * p / (0.365 * E_))
    return maximum(cyl, sph)


@law("C23", H_ + "structural.PressureVesselWallThickness")
def pressure_wall(s):
    p, r, L = s.i("design_pressure_differential", "Pa"), s.i("radius", "m"), s.i("length", "m")
    t = hoop(p, r, s.opt("safety_factor"), s.opt("yield_stress"))
    s.eq("hoop stress sizes the wall", s.o("thickness", "m"), t)
    s.eq("weight = surface x thickness x density", s.o("weight", "kg"), area(r, L) * t * s.opt("density"))


@law("C23", H_ + "structural.VacuumWallThickness")
def vacuum_wall(s):
    p, r, L = s.i("design_pressure_differential", "Pa"), s.i("radius", "m"), s.i("length", "m")
    t = s.opt("stiffening_multiplier") * buckle(p, r, L, s.opt("safety_factor"), s.opt("youngs_modulus"))
    s.eq("buckling of cylinder and caps sizes the wall", s.o("thickness", "m"), t)
    s.eq("weight = surface x thickness x density", s.o("weight", "kg"), area(r, L) * t * s.opt("density"))
    # spherical tank: the cap criterion alone
    m = {L[0]: X.lift(0.0)}
    s.eq("spherical tank is sized by its caps", s.subst(s.o("thickness", "m"), m), s.opt("stiffening_multiplier") * r * sqrt(s.opt("safety_factor") * p / (0.365 * s.opt("youngs_modulus"))), when=(gt(r, 0.0)[0],))


@law("C23", H_ + "structural.MLIWeight")
def insulation(s):
    r, L = s.i("radius", "m"), s.i("length", "m")
    s.eq("weight = surface x layers x (foil + spacer)", s.o("weight", "kg"), area(r, L) * s.i("N_layers") * (s.opt("foil_layer_areal_weight") + s.opt("spacer_layer_areal_weight")))


def _structure(s, out):
    o = s.opt
    r, L = s.i("radius", "m"), s.i("length", "m")
    pi, pe, gap = s.i("max_expected_operating_pressure", "Pa"), s.i("environment_design_pressure", "Pa"), s.i("vacuum_gap", "m")
    ro = r + gap
    wi = area(r, L) * hoop(pi, r, o("inner_safety_factor"), o("inner_yield_stress")) * o("inner_density")
    wo = area(ro, L) * o("stiffening_multiplier") * buckle(pe, ro, L, o("outer_safety_factor"), o("outer_youngs_modulus")) * o("outer_density")
    wm = area(r, L) * s.i("N_layers") * (0.018 + 0.012)
    w = o("weight_fudge_factor") * (wi + wo + wm)
    s.eq("tank weight = factored sum of inner wall, outer wall and insulation", s.o(out, "kg"), w)
    return w


@law("C23", H_ + "structural.VacuumTankWeight", kind="group")
def tank_weight(s):
    _structure(s, "weight")


@law("C23", H_ + "LH2_tank_no_boil_off.InitialLH2MassModification")
def fuel_mass(s):
    V, rho, f, d = volume(s.i("radius", "m"), s.i("length", "m")), s.opt("LH2_density"), s.opt("fill_level_init"), s.i("delta_m_liq", "kg")
    s.eq("fuel mass = initial fill x density x volume - fuel drawn", s.o("m_liq", "kg"), V * f * rho - d, scale=1e-9)
    s.eq("fill level = fuel volume / tank volume", s.o("fill_level") * V * rho, s.o("m_liq", "kg"), scale=1e-9)


def tank_cfgs(cls, tier):
    out = []
    for nn in (1, 5, 7) if tier == "quick" else (1, 3, 5, 7, 9, 11):
        out.append(C.Config(cls.qual, dict(num_nodes=nn), f"nn={nn} default options"))
        o = {k: X.sym("opt:" + k) for k in ("fill_level_init", "LH2_density", "weight_fudge_factor", "stiffening_multiplier", "inner_safety_factor", "inner_yield_stress",
                                            "inner_density", "outer_safety_factor", "outer_youngs_modulus", "outer_density")}
        out.append(C.Config(cls.qual, dict(num_nodes=nn, **o), f"nn={nn} symbolic options"))
    return out


@law("C23", H_ + "LH2_tank_no_boil_off.LH2TankNoBoilOff", kind="group", cfgs=tank_cfgs)
def tank(s):
    n = s.nn
    w = _structure(s, "tank_weight")
    V, rho, f = volume(s.i("radius", "m"), s.i("length", "m")), s.opt("LH2_density"), s.opt("fill_level_init")
    md = s.i("m_dot_liq", "kg/s")
    s.eq("first point: full initial fill", s.o("m_liq", "kg")[0] + s.i("integ.delta_m_liq_initial", "kg")[0], V[0] * f * rho)
    s.eq("first point: initial fill level", s.o("fill_level")[0] * V[0] * rho + s.i("integ.delta_m_liq_initial", "kg")[0], V[0] * rho * f)
    s.eq("total = fuel + tank, each once", s.o("total_weight", "kg"), s.o("m_liq", "kg") + w)
    if n > 1:
        # constant outflow: the tank loses flow x time, at every point
        c = X.sym("flow")
        s.known["flow"] = S.Meta(1.0, None, "flow", "gen")
        raw = {e: c for e in s.i("m_dot_liq")}
        T = s.i("integ.duration", "s")[0]
        m = s.subst(s.o("m_liq", "kg"), raw)
        s.eq("constant outflow drains linearly", m, arr([m[0] - c * T * (k / (n - 1)) for k in range(n)]), scale=1e-9)
