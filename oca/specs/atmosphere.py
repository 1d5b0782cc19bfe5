"""C14: the atmosphere model"""
from .base import *

T0, P0, LAPSE, R, GAMMA, RHO0 = 288.16, 101325.0, 0.0065, 287.058, 1.4, 1.225
LOW, TROP, HIGH, T_S = 10500.0, 11000.0, 11500.0, 216.65


def layers(h):
    """(below the blend, above the blend) conditions"""
    return [X.le(X.lift(e), LOW) for e in h], [X.lt(HIGH, X.lift(e)) for e in h], [X.and_(X.lt(LOW, X.lift(e)), X.le(X.lift(e), HIGH)) for e in h]


def each(s, what, a, b, conds, rel=None):
    for x, y, c in zip(arr(a).reshape(-1), arr(b).reshape(-1), conds):
        s.eq(what, x, y, rel=rel, when=[c])


def low(h):
    return power(1.0 - LAPSE * h / T0, 5.2561)


def strat(h):
    return 22632.0 * exp(-9.81 * (h - TROP) / (288.0 * T_S))


@law("C14", "atmospherics.temperature_comp.TemperatureComp", rel=1e-6)
def temperature(s):
    h, T, dT = s.i("fltcond|h", "m"), s.o("fltcond|T", "K"), s.i("fltcond|TempIncrement")
    a, b, m = layers(h)
    each(s, "lapse rate of the troposphere", T - dT, T0 - LAPSE * h, a)
    each(s, "constant temperature of the stratosphere", T - dT, T_S + 0.0 * h, b)
    # rounding the corner between two tangents keeps the temperature within half of the largest corner cut
    each(s, "temperature near the tropopause", T - dT, where(le(h, TROP), T0 - LAPSE * h, T_S), m, rel=0.006)
    s.smooth("temperature at layer boundaries", T, order=1, slope_floor=LAPSE)


@law("C14", "atmospherics.pressure_comp.PressureComp", rel=1e-6)
def pressure(s):
    h, p = s.i("fltcond|h", "m"), s.o("fltcond|p", "Pa")
    a, b, m = layers(h)
    up = [X.and_(c, X.lt(X.lift(e), 25000.0)) for c, e in zip(b, h)]
    a = [X.and_(c, X.lt(-500.0, X.lift(e))) for c, e in zip(a, h)]
    each(s, "pressure in the troposphere", p, P0 * low(h), a)
    each(s, "pressure in the stratosphere", p, strat(h), up)
    each(s, "pressure near the tropopause", p, where(le(h, TROP), P0 * low(h), strat(h)), m, rel=2e-3)
    s.smooth("pressure at layer boundaries", p, order=1)


@law("C14", "atmospherics.density_comp.DensityComp")
def density(s):
    s.eq("ideal gas law", s.o("fltcond|rho", "kg/m**3") * R * s.i("fltcond|T", "K"), s.i("fltcond|p", "Pa"))


@law("C14", "atmospherics.speedofsound_comp.SpeedOfSoundComp")
def speed_of_sound(s):
    T = s.i("fltcond|T", "K")
    for a, t in zip(s.o("fltcond|a", "m/s"), T):
        s.eq("speed of sound", a * a, GAMMA * R * t, when=[X.lt(1.0, X.lift(t))])


@law("C14", "atmospherics.dynamic_pressure_comp.DynamicPressureComp")
def dynamic_pressure(s):
    s.eq("dynamic pressure", s.o("fltcond|q", "Pa"), 0.5 * s.i("fltcond|rho", "kg/m**3") * s.i("fltcond|Utrue", "m/s") ** 2)


@law("C14", "atmospherics.mach_number_comp.MachNumberComp")
def mach(s):
    s.eq("Mach number", s.o("fltcond|M") * s.i("fltcond|a", "m/s"), s.i("fltcond|Utrue", "m/s"))


@law("C14", "atmospherics.true_airspeed.TrueAirspeedComp")
def true_airspeed(s):
    s.eq("equal dynamic pressure", s.i("fltcond|rho", "kg/m**3") * s.o("fltcond|Utrue", "m/s") ** 2, RHO0 * s.i("fltcond|Ueas", "m/s") ** 2)
    s.eq("sign of the speed", s.o("fltcond|Utrue", "m/s"), s.i("fltcond|Ueas", "m/s") * sqrt(RHO0 / s.i("fltcond|rho", "kg/m**3")))


@law("C14", "atmospherics.true_airspeed.EquivalentAirspeedComp")
def equivalent_airspeed(s):
    s.eq("equal dynamic pressure", s.o("fltcond|Ueas", "m/s"), s.i("fltcond|Utrue", "m/s") * sqrt(s.i("fltcond|rho", "kg/m**3") / RHO0))


@law("C14", "atmospherics.compute_atmos_props.ComputeAtmosphericProperties", kind="group")
def properties(s):
    h, dT = s.i("fltcond|h", "m"), s.i("fltcond|TempIncrement")
    p, T, rho, a = s.o("fltcond|p", "Pa"), s.o("fltcond|T", "K"), s.o("fltcond|rho", "kg/m**3"), s.o("fltcond|a", "m/s")
    tas = s.opt("true_airspeed_in")
    U = s.i("fltcond|Utrue", "m/s") if tas else s.o("fltcond|Utrue", "m/s")
    Ue = s.o("fltcond|Ueas", "m/s") if tas else s.i("fltcond|Ueas", "m/s")
    q, M = s.o("fltcond|q", "Pa"), s.o("fltcond|M")
    warm = [X.lt(1.0, X.lift(t)) for t in T]
    each(s, "ideal gas law", rho * R * T, p, warm)
    each(s, "speed of sound", a, sqrt(GAMMA * R * T), warm)
    each(s, "Mach number", M * a, U, warm)
    each(s, "dynamic pressure", q, 0.5 * rho * U ** 2, warm)
    each(s, "dynamic pressure from the equivalent airspeed", q, 0.5 * RHO0 * Ue ** 2, warm)
    each(s, "true and equivalent airspeed", Ue, U * sqrt(rho / RHO0), warm)
    lo, up, mid = layers(h)
    each(s, "temperature increment", T, T0 - LAPSE * h + dT, lo)
    each(s, "temperature of the stratosphere", T, T_S + dT, up)
    lo = [X.and_(c, X.lt(-500.0, X.lift(e))) for c, e in zip(lo, h)]
    each(s, "pressure in the troposphere", p, P0 * low(h), lo)
    # hydrostatic balance of the standard day
    up = [X.and_(c, X.lt(X.lift(e), 25000.0)) for c, e in zip(up, h)]
    for j in range(len(arr(h))):
        x = arr(h)[j]
        m = {dT.reshape(-1)[k]: 0.0 for k in range(len(dT.reshape(-1))) if isinstance(dT.reshape(-1)[k], E)}
        slope = s.subst(s.diff(arr(p)[j:j + 1], x), m)
        r0 = s.subst(arr(rho)[j:j + 1], m)
        # altitude may be declared in km by the group: slope per metre of the converted input
        dh = s.diff(arr(h)[j:j + 1], x) if not (isinstance(x, E) and x.op == "s") else arr([1.0])
        for c in (lo[j], up[j]):
            s.eq("hydrostatic balance", slope, -r0 * G * dh, rel=0.015, when=[c])
        s.eq("hydrostatic balance near the tropopause", slope, -r0 * G * dh, rel=0.03, when=[mid[j]])


# ------------------------------------------------------------------ flight condition handed to OpenAeroStruct
def sutherland(T):
    return 1.458e-6 * T ** 1.5 / (T + 110.4)


def oas_condition(s, point):
    h, M = s.i("fltcond|h", "m"), s.i("fltcond|M")
    T, p, a, rho = s.o("temp.fltcond|T", "K"), s.o("pressure.fltcond|p", "Pa"), s.o("sound_speed.fltcond|a", "m/s"), s.o("density.fltcond|rho", "kg/m**3")
    s.eq("temperature at the given altitude", s.i("temp.fltcond|h", "m"), h)
    s.eq("pressure at the given altitude", s.i("pressure.fltcond|h", "m"), h)
    s.eq("given temperature increment", s.i("temp.fltcond|TempIncrement"), s.i("fltcond|TempIncrement"))
    s.eq("ideal gas law", p, rho * R * T)
    s.eq("speed of sound", a, sqrt(GAMMA * R * T))
    V = s.o("airspeed.Utrue", "m/s")
    s.eq("airspeed = M a", V, M * a)
    # documented: viscosity falls linearly with altitude, used below the tropopause
    low = [X.lt(0.0, X.lift(e)) for e in h], [X.lt(X.lift(e), 10000.0) for e in h]
    std = T0 - LAPSE * h
    for k in range(len(h)):
        s.eq("Reynolds number per metre", (s.o("Re_calc.re", "1/m") * sutherland(std))[k], (rho * V)[k], rel=0.004, when=[low[0][k], low[1][k]])
    have = s.flat.ext_conn
    for inp, val, u in point:
        src = s.handed_out(inp)
        if src is None:
            s.und(f"no connection to {inp}")
            continue
        s.eq(f"{inp.split('.')[-1]} handed to the flow solver", s.o(src, u), val if val is not None else s.o("Re_calc.re", "1/m"))


OAS = "aerodynamics.openaerostruct."


@law("C14", OAS + "drag_polar.VLM", kind="group", cfgs=lambda c, t: [C.Config(c.qual, {}, "defaults"), C.Config(c.qual, dict(num_x=3, num_y=5), "3x5")])
def vlm_condition(s):
    oas_condition(s, (("aero_point.rho", s.o("density.fltcond|rho", "kg/m**3"), "kg/m**3"), ("aero_point.v", s.o("airspeed.Utrue", "m/s"), "m/s"),
                      ("aero_point.re", None, "1/m")))


@law("C14", OAS + "aerostructural.Aerostruct", kind="group", cfgs=lambda c, t: [C.Config(c.qual, {}, "defaults"), C.Config(c.qual, dict(num_x=3, num_y=5), "3x5")])
def aerostruct_condition(s):
    q = "aerostruct_point."
    oas_condition(s, ((q + "rho", s.o("density.fltcond|rho", "kg/m**3"), "kg/m**3"), (q + "v", s.o("airspeed.Utrue", "m/s"), "m/s"),
                      (q + "re", None, "1/m"), (q + "speed_of_sound", s.o("sound_speed.fltcond|a", "m/s"), "m/s")))
