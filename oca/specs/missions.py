"""C15: equations of motion of the phases and hand-over of states between phases"""
import numpy as np
from .. import expr as X
from .. import sample as S
from ..expr import E
from ..interp import Undecided
from .base import law, sqrt, sin, cos, tan, asin, where, lt, gt, maximum, minimum, arr, absv, G, View
P = "mission.phases."
RHO0 = 1.225


# ------------------------------------------------------------------ components
@law("C15", P + "ClimbAngleComp")
def climb_angle(s):
    s.eq("m g sin(gamma) = T - D", s.i("weight", "kg") * G * sin(s.o("gamma", "rad")), s.i("thrust", "N") - s.i("drag", "N"), scale=1e-6)
    g, nn = s.o("gamma"), s.nn
    s.check("one climb angle per point", np.size(g) == nn, f"{np.size(g)} values")


@law("C15", P + "Groundspeeds")
def groundspeeds(s):
    U, v = s.i("fltcond|Utrue", "m/s"), s.i("fltcond|vs", "m/s")
    gs = s.o("fltcond|groundspeed", "m/s")
    for k in range(s.nn):
        w = [lt(v[k] ** 2, 0.98 * U[k] ** 2).item(), lt(0.1, U[k]).item()]
        s.eq("ground speed closes the speed triangle", gs[k] ** 2 + v[k] ** 2, U[k] ** 2, when=w)
        s.eq("ground speed is positive", gs[k], sqrt(U[k] ** 2 - v[k] ** 2), when=w)
        s.eq("cosine of the climb angle", s.o("fltcond|cosgamma")[k] * U[k], gs[k], when=w)
        s.eq("sine of the climb angle", s.o("fltcond|singamma")[k] * U[k], v[k], when=w, scale=1e-9)


@law("C15", P + "HorizontalAcceleration")
def haccel(s):
    m = s.i("weight", "kg")
    T, D, L = s.i("thrust", "N"), s.i("drag", "N"), s.i("lift", "N")
    s.eq("m a = T - D - mu max(0, m g - L) - m g sin(gamma)", m * s.o("accel_horiz", "m/s**2"),
         T - D - s.i("braking") * maximum(m * G - L, 0.0) - m * G * s.i("fltcond|singamma"), scale=1e-6)


@law("C15", P + "VerticalAcceleration")
def vaccel(s):
    m = s.i("weight", "kg")
    T, D, L = s.i("thrust", "N"), s.i("drag", "N"), s.i("lift", "N")
    a = (L * s.i("fltcond|cosgamma") + (T - D) * s.i("fltcond|singamma") - m * G) / m
    s.eq("m a = L cos(gamma) + (T - D) sin(gamma) - m g, within -1 g and 2.5 g", s.o("accel_vert", "m/s**2"), maximum(minimum(a, 2.5 * G), -G), scale=1e-6)


@law("C15", P + "SteadyFlightCL")
def steady_cl(s):
    s.eq("lift balances the weight component", s.o("fltcond|CL") * s.i("fltcond|q", "Pa") * s.i("ac|geom|wing|S_ref", "m**2"),
         s.i("weight", "kg") * G * s.i("fltcond|cosgamma"))


@law("C15", "aerodynamics.aerodynamics.Lift")
def lift(s):
    s.eq("L = q S CL", s.o("lift", "N"), s.i("fltcond|q", "Pa") * s.i("ac|geom|wing|S_ref", "m**2") * s.i("fltcond|CL"))


@law("C15", "aerodynamics.aerodynamics.StallSpeed")
def stall(s):
    s.eq("lift at CLmax and stall speed carries the weight", 0.5 * RHO0 * s.o("Vstall_eas", "m/s") ** 2 * s.i("ac|geom|wing|S_ref", "m**2") * s.i("CLmax"),
         s.i("weight", "kg") * G, rel=2e-4)


@law("C15", P + "TakeoffTransition")
def transition(s):
    U, g = s.i("fltcond|Utrue", "m/s"), s.i("gamma", "rad")
    h = s.opt("h_obstacle")
    R = U ** 2 / (s.opt("load_factor") - 1.0) / G
    ht = R * (1.0 - cos(g))
    dom = [gt(g, 0.01).item(), lt(g, 1.2).item(), gt(U, 5.0).item()]
    if isinstance(s.opt("load_factor"), E):
        dom.append(gt(s.opt("load_factor"), 1.02).item())
    up = [gt(ht, h * 1.01).item()] + dom
    dn = [lt(ht, h * 0.99).item()] + dom
    s.eq("distance along the pull-up arc", s.o("s_transition", "m"), R * sin(g), when=dn)
    s.eq("height gained on the pull-up arc", s.o("h_transition", "m"), ht, when=dn)
    s.eq("distance to the obstacle height on the arc", (R - h) ** 2 + s.o("s_transition", "m") ** 2, R ** 2, when=up)
    s.eq("height is the obstacle height once it is cleared on the arc", s.o("h_transition", "m"), h, when=up)
    s.eq("time is distance over speed", s.o("t_transition", "s") * U, s.o("s_transition", "m"), when=dom)


@law("C15", P + "TakeoffClimb")
def takeoff_climb(s):
    g = s.i("gamma", "rad")
    s.eq("straight climb from transition to obstacle height", s.o("s_climb", "m") * tan(g), s.opt("h_obstacle") - s.i("h_transition", "m"), scale=1e-9)
    s.eq("time is distance over speed", s.o("t_climb", "s") * s.i("fltcond|Utrue", "m/s"), s.o("s_climb", "m"), scale=1e-9)


@law("C15", P + "FlipVectorComp")
def flip(s):
    a = s.i("vec_in")
    s.eq("reversed" + (" and negated" if s.opt("negative") else ""), s.o("vec_out"), (-1.0 if s.opt("negative") is True else 1.0) * a[::-1])


@law("C15", P + "BFLImplicitSolve")
def bfl(s):
    vr, v1 = s.i("takeoff|vr", "m/s"), s.o("takeoff|v1", "m/s")
    go, stop = s.i("distance_continue", "m"), s.i("distance_abort", "m")
    r = s.res("takeoff|v1")
    s.eq("below the rotation speed the two distances are balanced", r, go - stop, when=[gt(vr, v1 + 0.2).item()], scale=1e-9)
    s.eq("above the rotation speed the decision speed is the rotation speed", r, vr - v1, when=[lt(vr, v1 - 0.01).item()], scale=1e-9)
    # within the tolerance above the decision speed: vr = v1 + t, abort distance = continue distance -/+ d
    t, dd = X.sym("speed_margin"), X.sym("distance_margin")
    s.known["speed_margin"] = S.Meta(0.05, None, "speed_margin", "gen", 0.005, 0.09)
    s.known["distance_margin"] = S.Meta(1.0, None, "distance_margin", "gen", 1.0, 500.0)
    a, b = vr[0], stop[0]
    w = [lt(t, 0.09).item(), gt(t, 0.005).item(), gt(dd, 0.5).item()]
    near = lambda e, d: s.subst(e, {a: X.lift(v1[0] + t), b: X.lift(go[0] + d)})
    s.eq("at the rotation speed with a shorter abort distance the decision speed is the rotation speed", near(r, -dd), t, when=w, scale=1e-9)
    s.eq("at the rotation speed with a longer abort distance the distances are balanced", near(r, dd), -dd, when=w, scale=1e-9)


# ------------------------------------------------------------------ phases
class States:
    """integrated states of a flattened group: (integrator path, state options)"""

    def __init__(self, s):
        self.s = s
        self.L = []
        for p, c in s.flat.comps.items():
            if getattr(c.cls, "name", "") not in ("Integrator", "OldIntegrator"):
                continue
            sv = c.attrs.get("_state_vars")
            sv = getattr(sv, "d", sv)
            if not isinstance(sv, dict):
                raise Undecided(f"integrated states of {p}")
            for n, o in sv.items():
                o = getattr(o, "d", o)
                self.L.append((p, o))

    def under(self, phase):
        """{state promoted name within the phase (or its own name): (integrator path, options)}"""
        out = {}
        for p, o in self.L:
            if phase == "" or p == phase or p.startswith(phase + "."):
                out[o["name"]] = (p, o)
        return out


def q(p, n):
    return p + "." + n if p else n


def at(phase, n):
    return phase + "." + n if phase else n


RATES = {"fltcond|h": "fltcond|vs", "range": "fltcond|groundspeed", "fltcond|Utrue": "accel_horiz", "fltcond|vs": "accel_vert"}


def kinematics(s, ph="", states=()):
    """every integrator of a phase runs over the duration of the phase and integrates the rate of its state"""
    st = States(s).under(ph)
    dur = s.o(at(ph, "duration"), "s")
    for n in states:
        s.check(f"{n} is integrated", n in st, f"no integrator advances {n}")
    for n, (p, o) in st.items():
        s.eq(f"{n} is integrated over the duration of the phase", s.i(q(p, "duration"), "s"), dur)
        r = RATES.get(n)
        if r is None and n == "vel_q":
            s.eq("backward deceleration is the reversed acceleration", s.i(q(p, o["rate_name"]), "m/s**2"), -1.0 * s.o(at(ph, "accel_horiz"), "m/s**2")[::-1])
            s.eq("speed is the reversed backward speed", s.o(at(ph, "fltcond|Utrue"), "m/s"), s.o(q(p, n), "m/s")[::-1])
        elif r is not None:
            v = s.flat.vars[s.flat.find(at(ph, r))[1]][1]
            s.eq(f"rate of {n} is {r}", s.i(q(p, o["rate_name"]), v.units), s.o(at(ph, r), v.units))
            s.eq(f"{n} used in the phase is the integrated state", s.o(at(ph, n)), s.o(q(p, n)))


def dynamics(s, ph="", vert=False):
    m, T, D, L = (s.o(at(ph, n), u) for n, u in (("weight", "kg"), ("thrust", "N"), ("drag", "N"), ("lift", "N")))
    v, U = s.o(at(ph, "fltcond|vs"), "m/s"), s.o(at(ph, "fltcond|Utrue"), "m/s")
    w = [lt(a ** 2, 0.98 * b ** 2).item() for a, b in zip(v, U)] + [lt(0.1, b).item() for b in U]
    w = [x for x in w if isinstance(x, E)] + [lt(1.0, x).item() for x in m]
    s.eq("horizontal equation of motion", m * s.o(at(ph, "accel_horiz"), "m/s**2"), T - D - s.o(at(ph, "braking")) * maximum(m * G - L, 0.0) - m * G * v / U, when=w, scale=1e-6)
    s.eq("L = q S CL", L, s.o(at(ph, "fltcond|q"), "Pa") * s.o(at(ph, "ac|geom|wing|S_ref"), "m**2") * s.o(at(ph, "fltcond|CL")))
    s.eq("dynamic pressure", s.o(at(ph, "fltcond|q"), "Pa"), 0.5 * s.o(at(ph, "fltcond|rho"), "kg/m**3") * U ** 2)
    s.eq("ground speed", s.o(at(ph, "fltcond|groundspeed"), "m/s") ** 2 + v ** 2, U ** 2, when=w)
    if vert:
        gs = s.o(at(ph, "fltcond|groundspeed"), "m/s")
        a = (L * gs / U + (T - D) * v / U - m * G) / m
        s.eq("vertical equation of motion", s.o(at(ph, "accel_vert"), "m/s**2"), maximum(minimum(a, 2.5 * G), -G), when=w, scale=1e-6)


def vstall(s, ph=""):
    return sqrt(s.o(at(ph, "ac|weights|MTOW"), "kg") * G / (0.5 * RHO0 * s.o(at(ph, "ac|geom|wing|S_ref"), "m**2") * s.o(at(ph, "ac|aero|CLmax_TO"))))


def setting(s, ph, n, val):
    s.eq(f"{n} of the phase", s.o(at(ph, n)), val, scale=1e-12)


def balanced(s, ph, state, lhs, rhs, what, units=None):
    """the balance that solves for `state` drives lhs to rhs"""
    if isinstance(state, str):
        a = s.flat.find(at(ph, state))[1]
    for n, l, r in s.balances():
        if n == a:
            c, b = s.flat.vars[n][2], None
            p = n.rsplit(".", 1)[0] if "." in n else ""
            e = next(x for x in c.om.extra["bal"] if q(p, x["name"]) == n)
            u = s.flat.vars[q(p, e["lhs"])][1].units
            A, B = s._conv(lhs, units, u) if units else lhs, s._conv(rhs, units, u) if units else rhs
            # either orientation
            ok = same(s, l, A) and same(s, r, B) or same(s, l, B) and same(s, r, A)
            s.check(what, ok, f"the balance for '{state}' equates something else")
            return
    s.check(what, False, f"no balance solves for '{state}'")


def same(s, a, b):
    a, b = np.broadcast_arrays(arr(a), arr(b))
    return all(View_cmp(s, X.lift(x), X.lift(y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def View_cmp(s, x, y):
    from .. import sample as S
    return x is y or S.compare(x, y, list(s.assumptions), s.known, s.rng, want=20, rel=1e-8) is None


@law("C15", P + "SteadyFlightPhase", kind="group")
def steady_phase(s):
    dynamics(s)
    m = s.o("weight", "kg")
    v, U = s.o("fltcond|vs", "m/s"), s.o("fltcond|Utrue", "m/s")
    w = [lt(a ** 2, 0.98 * b ** 2).item() for a, b in zip(v, U)] + [lt(0.1, b).item() for b in U]
    s.eq("lift balances the weight component", s.o("lift", "N") ** 2, (m * G) ** 2 * (1.0 - (v / U) ** 2), when=w)
    kin_steady(s, "")
    setting(s, "", "propulsor_active", 1.0)
    told(s, "")
    balanced(s, "", "throttle", s.o("accel_horiz", "m/s**2"), s.i("zero_accel", "m/s**2"), "throttle gives zero acceleration along the path", "m/s**2")
    d = {n: val for n, val, un, loc, hv in s.flat.inst.om.defs}
    for n in ("zero_accel", "braking"):
        x = d.get(n)
        x = None if x is None else arr(getattr(x, "a", x)).reshape(-1)
        s.check(f"{n} defaults to zero", x is not None and all(not isinstance(e, E) and float(e) == 0.0 for e in x), f"default {x}")


def told(s, ph, want=None):
    """the aircraft model is built for the phase it flies in and for its number of points"""
    g = s.inst
    for n in ph.split(".") if ph else ():
        g = g.om.subs[n]
    a = g.om.subs.get("acmodel")
    s.check(f"{ph or 'the phase'} has an aircraft model", a is not None, "no subsystem 'acmodel'")
    if a is None:
        return
    for k in ("num_nodes", "flight_phase"):
        x, y = a.om.options.d[k].val, g.om.options.d[k].val
        s.check(f"{k} of the aircraft model in {ph or 'the phase'}", x == y, f"{x} instead of {y}")
    if want is not None:
        y = g.om.options.d["flight_phase"].val
        s.check(f"flight phase of {ph}", y == want, f"{y} instead of {want}")


def kin_steady(s, ph):
    st = States(s).under(ph)
    for n in ("fltcond|h", "range"):
        s.check(f"{n} is integrated", n in st, f"no integrator advances {n}")
    for n, (p, o) in st.items():
        r = RATES.get(n)
        if r is not None:
            s.eq(f"rate of {n} is {r}", s.i(q(p, o["rate_name"]), "m/s"), s.o(at(ph, r), "m/s"))
            s.eq(f"{n} of the phase is the integrated state", s.o(at(ph, n), "m"), s.o(q(p, n), "m"))


@law("C15", P + "GroundRollPhase", kind="group")
def ground_roll(s):
    ph = s.opt("flight_phase")
    nn = s.nn
    kinematics(s, "", ("range",))
    dynamics(s)
    s.eq("rotation speed is 1.1 times the stall speed", s.o("takeoff|vr", "m/s"), 1.1 * vstall(s), rel=2e-4)
    setting(s, "", "braking", 0.4 if ph == "v1v0" else 0.03)
    setting(s, "", "propulsor_active", 1.0 if ph == "v0v1" else 0.0)
    setting(s, "", "throttle", 0.0 if ph == "v1v0" else 1.0)
    setting(s, "", "fltcond|vs", 0.0)
    st = States(s).under("")
    if ph == "v0v1":
        p, o = st["fltcond|Utrue"]
        s.eq("roll starts at the rolling-start speed", s.i(q(p, o["start_name"]), "m/s"), s.o("zero_speed", "m/s"))
        s.check("range starts at zero", st["range"][1]["zero_start"] is True, "range is not started at zero")
        balanced(s, "", "duration", s.o("fltcond|Utrue_final", "m/s"), s.i("takeoff|v1", "m/s"), "the roll ends at the decision speed", "m/s")
    elif ph == "v1vr":
        balanced(s, "", "duration", s.o("fltcond|Utrue_final", "m/s"), s.o("takeoff|vr", "m/s"), "the roll ends at the rotation speed", "m/s")
    elif ph == "v1v0":
        p, o = st["vel_q"]
        s.eq("backward shooting starts from the stopping speed", s.i(q(p, o["start_name"]), "m/s"), s.o("zero_speed", "m/s"))
        balanced(s, "", "duration", s.o(q(p, o["end_name"]), "m/s"), s.i("takeoff|v1", "m/s"), "braking starts at the decision speed", "m/s")
    if ph != "v0v1":
        s.check("range continues from its initial value", st["range"][1]["zero_start"] in (False, None), "range is restarted at zero")
    told(s, "")


@law("C15", P + "RotationPhase", kind="group")
def rotation(s):
    kinematics(s, "", ("fltcond|Utrue", "range", "fltcond|vs", "fltcond|h"))
    dynamics(s, "", vert=True)
    s.eq("lift coefficient is 0.83 CLmax", s.o("fltcond|CL"), 0.83 * s.i("ac|aero|CLmax_TO"))
    setting(s, "", "braking", 0.0)
    setting(s, "", "propulsor_active", 0.0)
    setting(s, "", "throttle", 1.0)
    st = States(s).under("")
    for n in ("fltcond|vs", "fltcond|h"):
        s.check(f"{n} starts at zero", st[n][1]["zero_start"] is True, "not started at zero")
    for n in ("fltcond|Utrue", "range"):
        s.check(f"{n} continues from its initial value", st[n][1]["zero_start"] in (False, None), "restarted at zero")
    balanced(s, "", "duration", s.o("fltcond|h_final", "ft"), 35.0, "the rotation ends at the obstacle height", "ft")
    told(s, "")


@law("C15", P + "ClimbAnglePhase", kind="group")
def climb_angle_phase(s):
    if s.nn != 1:
        s.skip()
    W = s.i("ac|weights|MTOW", "kg")
    s.eq("climb-out speed is 1.2 times the stall speed", s.o("fltcond|Ueas", "m/s"), 1.2 * vstall(s), rel=2e-4)
    s.eq("m g sin(gamma) = T - D", W * G * sin(s.o("gamma", "rad")), s.o("thrust", "N") - s.o("drag", "N"), scale=1e-6)
    s.eq("lift balances the weight", s.o("fltcond|CL") * s.o("fltcond|q", "Pa") * s.i("ac|geom|wing|S_ref", "m**2"), W * G)
    setting(s, "", "propulsor_active", 0.0 if s.opt("flight_phase") == "EngineOutClimbAngle" else 1.0)
    setting(s, "", "throttle", 1.0)
    told(s, "")


@law("C15", P + "RobustRotationPhase", kind="group")
def robust_rotation(s):
    nn = s.nn
    if nn < 2:
        s.skip()
    V = vstall(s)
    s.eq("speed rises from 1.1 to 1.2 times the stall speed", s.o("fltcond|Ueas", "m/s"), V * np.linspace(1.1, 1.2, nn), rel=2e-4)
    m, T, D = s.o("weight", "kg"), s.o("thrust", "N"), s.o("drag", "N")
    s.eq("m g sin(gamma) = T - D", m * G * sin(s.o("gamma", "rad")), T - D, scale=1e-6)
    s.eq("lift balances the weight", s.o("fltcond|CL") * s.o("fltcond|q", "Pa") * s.i("ac|geom|wing|S_ref", "m**2"), m * G)
    U, g = s.o("fltcond|Utrue", "m/s"), s.o("gamma", "rad")
    tr, cl = s.comps("TakeoffTransition")[0], s.comps("TakeoffClimb")[0]
    for p, k, w in ((tr, 0, "transition uses the first point"), (cl, nn - 1, "climb-out uses the last point")):
        s.eq(w + ": speed", s.i(q(p, "fltcond|Utrue"), "m/s"), U[k])
        s.eq(w + ": climb angle", s.i(q(p, "gamma"), "rad"), g[k])
    s.eq("climb-out starts at the height reached in the transition", s.i(q(cl, "h_transition"), "m"), s.o(q(tr, "h_transition"), "m"))
    st, sc = s.o(q(tr, "s_transition"), "m"), s.o(q(cl, "s_climb"), "m")
    r0 = s.i("range_initial", "m")
    s.eq("distance adds up", s.o("range_final", "m"), r0 + st + sc, scale=1e-9)
    s.eq("time adds up", s.o("duration", "s"), s.o(q(tr, "t_transition"), "s") + s.o(q(cl, "t_climb"), "s"), scale=1e-9)
    s.eq("distance grows linearly", s.o("range", "m"), r0 + (st + sc) * (np.arange(nn) / (nn - 1.0)), scale=1e-9)
    s.eq("the phase ends at the height of the last point", s.o("fltcond|h_final", "m"), s.o("fltcond|h", "m")[nn - 1])
    setting(s, "", "propulsor_active", 0.0)
    setting(s, "", "throttle", 1.0)
    for n, (p, o) in States(s).under("").items():
        s.eq(f"{n} is integrated over the duration of the phase", s.i(q(p, "duration"), "s"), s.o("duration", "s"), scale=1e-9)
    told(s, "")


# ------------------------------------------------------------------ missions
M = "mission.profiles."


def phases_of(s):
    return [n for n in s.inst.om.subs if n in ("v0v1", "v1vr", "rotate", "v1v0", "groundroll", "climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter")]


def handover(s):
    subs = set(phases_of(s))
    order = [("v0v1", "v1vr"), ("v1vr", "rotate"), ("v0v1", "v1v0"), ("rotate", "climb"), ("groundroll", "climb"), ("climb", "cruise"), ("cruise", "descent"),
             ("descent", "reserve_climb"), ("reserve_climb", "reserve_cruise"), ("reserve_cruise", "reserve_descent"), ("reserve_descent", "loiter")]
    S_ = States(s)
    for a, b in order:
        if a not in subs or b not in subs:
            continue
        A, B = S_.under(a), S_.under(b)
        for n, (p, o) in B.items():
            if o["zero_start"] is True or n == "vel_q":
                continue
            if (a, b, n) in (("reserve_descent", "loiter", "fltcond|h"), ("groundroll", "climb", "fltcond|h")):
                continue       # altitude is prescribed by the profile, checked below
            s.n += 1
            start = s.i(q(p, o["start_name"]), o["units"])
            end = None
            if n in A:
                end = s.o(q(A[n][0], A[n][1]["end_name"]), o["units"])
            elif s.has(at(a, n + "_final")):
                end = s.o(at(a, n + "_final"), o["units"])
            if end is None:
                s.check(f"{b}: {n} continues from {a}", False, f"{a} has no final value of {n}")
                continue
            s.eq(f"{b}: {n} starts where {a} ended", start, end)
        if b == "rotate" and not any(n == "range" for n in B):
            s.eq(f"{b}: range starts where {a} ended", s.i("rotate.range_initial", "m"), s.o("v1vr.range_final", "m"))
    for ph in subs:
        sv = S_.under(ph)
        ref = None
        for n, (p, o) in sv.items():
            d = s.i(q(p, "duration"), "s")
            ref = s.o(at(ph, "duration"), "s")
            s.eq(f"{ph}: {n} is integrated over the duration of the phase", d, ref)


def reach(s, state, lhs, rhs, what, units):
    balanced(s, "", state, lhs, rhs, what, units)


def mission(s):
    handover(s)
    subs = set(phases_of(s))
    S_ = States(s)
    end = lambda ph, n, u: s.o(q(S_.under(ph)[n][0], S_.under(ph)[n][1]["end_name"]), u)
    beg = lambda ph, n, u: s.i(q(S_.under(ph)[n][0], S_.under(ph)[n][1]["start_name"]), u)
    for ph in sorted(subs):
        told(s, ph, "v0v1" if ph == "groundroll" else ph)
    s.check("climb, cruise and descent are flown", {"climb", "cruise", "descent"} <= subs, f"phases {sorted(subs)}")
    reach(s, "climb.duration", end("climb", "fltcond|h", "m"), s.o("cruise|h0", "m"), "the climb ends at the cruise altitude", "m")
    reach(s, "cruise.duration", end("descent", "range", "km"), s.o("mission_range", "km"), "the descent ends at the mission range", "km")
    reach(s, "descent.duration", end("descent", "fltcond|h", "m"), s.o("takeoff|h", "m"), "the descent ends at the airfield altitude", "m")
    if "loiter" in subs:
        reach(s, "reserve_climb.duration", end("reserve_climb", "fltcond|h", "m"), s.o("reserve|h0", "m"), "the reserve climb ends at the reserve altitude", "m")
        reach(s, "reserve_cruise.duration", end("reserve_descent", "range", "m") - end("descent", "range", "m"), s.o("reserve_range", "m"), "the reserve legs cover the reserve range", "m")
        reach(s, "reserve_descent.duration", end("reserve_descent", "fltcond|h", "m"), s.o("takeoff|h", "m"), "the reserve descent ends at the airfield altitude", "m")
        s.eq("loiter altitude", beg("loiter", "fltcond|h", "m"), s.o("loiter|h0", "m"))
        s.eq("loiter duration", s.o("loiter.duration", "s"), s.o("loiter_duration", "s"))
    if "v0v1" in subs:
        b = s.comps("BFLImplicitSolve")[0]
        s.eq("continued takeoff distance", s.i(q(b, "distance_continue"), "m"), s.o("rotate.range_final", "m"))
        s.eq("aborted takeoff distance", s.i(q(b, "distance_abort"), "m"), s.o("v1v0.range_final", "m"))
        s.eq("rotation speed", s.i(q(b, "takeoff|vr"), "m/s"), s.o("v1vr.takeoff|vr", "m/s"))
        for ph in ("v0v1", "v1v0"):
            s.eq(f"decision speed of {ph}", s.i(f"{ph}.takeoff|v1", "m/s"), s.o(q(b, "takeoff|v1"), "m/s"))
        s.check("engine-out climb is evaluated", "engineoutclimb" in s.inst.om.subs, "no engine-out climb")
        told(s, "engineoutclimb", "EngineOutClimbAngle")
        setting(s, "engineoutclimb", "propulsor_active", 0.0)
        s.eq("climb starts at the obstacle height", beg("climb", "fltcond|h", "m"), s.o("rotate.fltcond|h_final", "m"))
    else:
        s.eq("climb starts at the airfield altitude", beg("climb", "fltcond|h", "m"), s.o("takeoff|h", "m"))
        if "groundroll" in subs:
            s.eq("ground roll ends at the takeoff speed", s.i("groundroll.takeoff|v1", "m/s"), s.o("takeoff|v2", "m/s"))


for _c in ("FullMissionWithReserve", "MissionWithReserve", "BasicMission", "FullMissionAnalysis"):
    law("C15", M + _c, kind="group", name="mission_" + _c, ivc=lambda path: "." in path)(mission)
