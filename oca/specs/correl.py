"""published correlations used by the library (shared by C13 and C25); all in the units the sources give (lb, ft, psf, hp, lbf)"""
from .base import power, cos, sin, sqrt, tan, log, PI
import math


# ---- small turboprop (Raymer, Torenbeek, Roskam)
def tp_wing(s, n):
    return (0.036 * s.i("ac|geom|wing|S_ref", "ft**2") ** 0.758 * s.i("ac|weights|W_fuel_max", "lb") ** 0.0035
            * (s.i("ac|geom|wing|AR") / cos(s.i("ac|geom|wing|c4sweep", "rad")) ** 2) ** 0.6 * s.i("ac|q_cruise", "lb*ft**-2") ** 0.006
            * s.i("ac|geom|wing|taper") ** 0.04 * (100 * s.i("ac|geom|wing|toverc") / cos(s.i("ac|geom|wing|c4sweep", "rad"))) ** (-0.3)
            * (n * s.i("ac|weights|MTOW", "lb")) ** 0.49)


def tp_empennage(s, n):
    return 0.04 * (n * (s.i("ac|geom|vstab|S_ref", "ft**2") + s.i("ac|geom|hstab|S_ref", "ft**2")) ** 2) ** 0.75


def tp_fuselage(s, n):
    L, h, w = s.i("ac|geom|fuselage|length", "ft"), s.i("ac|geom|fuselage|height", "ft"), s.i("ac|geom|fuselage|width", "ft")
    press = 11.9 * (PI * (w + h) / 2 * L * 0.8 * 8) ** 0.271
    return (0.052 * s.i("ac|geom|fuselage|S_wet", "ft**2") ** 1.086 * (n * s.i("ac|weights|MTOW", "lb")) ** 0.177 * s.i("ac|geom|hstab|c4_to_wing_c4", "ft") ** (-0.051)
            * (L / h) ** (-0.072) * s.i("ac|q_cruise", "lb*ft**-2") ** 0.241 + press)


def tp_nacelle_single(s):
    return 2.5 * s.i("P_TO", "hp") ** 0.5


def tp_nacelle_multi(s):
    return 0.14 * s.i("P_TO", "hp")


def tp_gear(s, n):
    W = n * s.i("ac|weights|MLW", "lb")
    return 0.095 * W ** 0.768 * (s.i("ac|geom|maingear|length", "ft") / 12) ** 0.409 + 0.125 * W ** 0.566 * (s.i("ac|geom|nosegear|length", "ft") / 12) ** 0.845


def tp_fuelsystem(s, k):
    return 2.49 * (s.i("ac|weights|W_fuel_max", "lb") / k) ** 0.726 * 0.5 ** 0.363


def tp_equipment(s, Wfs):
    M, n = s.i("ac|weights|MTOW", "lb"), s.i("ac|num_passengers_max")
    b = sqrt(s.i("ac|geom|wing|S_ref", "ft**2") * s.i("ac|geom|wing|AR"))
    av = 2.117 * 110 ** 0.933
    return (0.23 * M ** 0.666 + 0.2673 * (s.i("ac|geom|fuselage|length", "ft") * b) ** 0.937 + av + 12.57 * (Wfs + av) ** 0.51
            + 0.265 * M ** 0.52 * n ** 0.68 * av ** 0.17 * 0.95 + 30 + 1.2 * n + 0.412 * n ** 1.145 * M ** 0.489 + 0.003 * M)


# ---- jet transport
def jt_wing(s, n, csf):
    S = s.i("ac|geom|wing|S_ref", "ft**2")
    return (0.0051 * (s.i("ac|weights|MTOW", "lb") * n) ** 0.557 * S ** 0.649 * s.i("ac|geom|wing|AR") ** 0.5 * s.i("ac|geom|wing|toverc") ** (-0.4)
            * (1 + s.i("ac|geom|wing|taper")) ** 0.1 / cos(s.i("ac|geom|wing|c4sweep", "rad")) * (csf * S) ** 0.1)


def jt_hstab_const(s, fw):
    return 1 + fw * s.i("ac|geom|fuselage|height", "ft") / sqrt(s.i("ac|geom|hstab|S_ref", "ft**2") * s.i("ac|geom|hstab|AR"))


def jt_hstab(s, n, const, kuht, se):
    Lt = s.i("ac|geom|hstab|c4_to_wing_c4", "ft")
    return (0.0379 * kuht * const ** (-0.25) * s.i("ac|weights|MTOW", "lb") ** 0.639 * n ** 0.1 * s.i("ac|geom|hstab|S_ref", "ft**2") ** 0.75
            * (0.3 * Lt) ** 0.704 / Lt / cos(s.i("ac|geom|hstab|c4sweep", "rad")) * s.i("ac|geom|hstab|AR") ** 0.166 * (1 + se) ** 0.1)


def jt_vstab(s, n, ttail):
    Lt = s.i("ac|geom|vstab|c4_to_wing_c4", "ft")
    return (0.0026 * (2.0 if ttail else 1.0) ** 0.225 * s.i("ac|weights|MTOW", "lb") ** 0.556 * n ** 0.536 * Lt ** (-0.5) * Lt ** 0.875
            * s.i("ac|geom|vstab|S_ref", "ft**2") ** 0.5 / cos(s.i("ac|geom|vstab|c4sweep", "rad")) * s.i("ac|geom|vstab|AR") ** 0.35 * s.i("ac|geom|vstab|toverc") ** (-0.5))


def jt_kws(s):
    t = s.i("ac|geom|wing|taper")
    return 0.75 * (1 + 2 * t) / (1 + t) * sqrt(s.i("ac|geom|wing|S_ref", "ft**2") * s.i("ac|geom|wing|AR")) * tan(s.i("ac|geom|wing|c4sweep", "rad")) / s.i("ac|geom|fuselage|length", "ft")


def jt_fuselage(s, n, kws, kdoor, klg):
    L, D = s.i("ac|geom|fuselage|length", "ft"), s.i("ac|geom|fuselage|height", "ft")
    return 0.328 * kdoor * klg * (s.i("ac|weights|MTOW", "lb") * n) ** 0.5 * L ** 0.25 * s.i("ac|geom|fuselage|S_wet", "ft**2") ** 0.302 * (1 + kws) ** 0.04 * (L / D) ** 0.1


def jt_mlg(s, n, k):
    return (0.0106 * k * s.i("ac|weights|MLW", "lb") ** 0.888 * n ** 0.25 * s.i("ac|geom|maingear|length", "inch") ** 0.4 * s.i("ac|geom|maingear|num_wheels") ** 0.321
            * s.i("ac|geom|maingear|num_shock_struts") ** (-0.5) * s.i("ac|aero|Vstall_land", "kn") ** 0.1)


def jt_nlg(s, n, k):
    return 0.032 * k * s.i("ac|weights|MLW", "lb") ** 0.646 * n ** 0.2 * s.i("ac|geom|nosegear|length", "inch") ** 0.5 * s.i("ac|geom|nosegear|num_wheels") ** 0.45


def jt_engine(s):
    return s.i("ac|propulsion|engine|rating", "lbf") / 5.5


def jt_engine_systems(s, We):
    T, N = s.i("ac|propulsion|engine|rating", "lbf"), s.i("ac|propulsion|num_engines")
    return {"W_thrust_rev": 0.034 * T * N, "W_eng_control": 0.26 * N * sqrt(T),
            "W_fuelsystem": 1.07 * s.i("ac|weights|W_fuel_max", "lb") ** 0.58 * N ** 0.43 * s.i("ac|aero|Mach_max") ** 0.34,
            "W_eng_start": 9.33 * (We / 1000.0) ** 1.078 * N}


def jt_nacelle(s):
    return 0.065 * s.i("ac|propulsion|engine|rating", "lbf") * s.i("ac|propulsion|num_engines")


def jt_furnishings(s, klav, kbuf):
    n = s.i("ac|num_passengers_max")
    return (55 * s.i("ac|num_flight_deck_crew") + 32 * n + 15 * s.i("ac|num_cabin_crew") + klav * n ** 1.33 + kbuf * n ** 1.12
            + 109 * (n * (1 + s.i("ac|cabin_pressure", "psi")) / 100) ** 0.505 + 0.771 * s.i("ac|weights|MTOW", "lb") / 1000.0)


def jt_equipment(s, Wfs, V, cfc, cav, apu):
    M, cr, ne = s.i("ac|weights|MTOW", "lb"), s.i("ac|num_flight_deck_crew"), s.i("ac|propulsion|num_engines")
    people = cr + s.i("ac|num_cabin_crew") + s.i("ac|num_passengers_max")
    av = cav * (cr * (15 + 0.032 * M / 1000) + ne * (5 + 0.006 * M / 1000) + 0.15 * M / 1000 + 0.012 * M)
    return {"W_flight_controls": cfc * M ** (2 / 3), "W_avionics": av, "W_electrical": 1163 * ((Wfs + av) / 1000) ** 0.506,
            "W_ac_pressurize_antiice": 469 * (V * people / 10000) ** 0.419, "W_oxygen": 7 * people ** 0.702, "W_APU": apu * M}


def bwb_cabin(s):
    return 1.803246 * s.i("ac|weights|MTOW", "lb") ** 0.166552 * s.i("ac|geom|centerbody|S_cabin", "ft**2") ** 1.061158


def bwb_aftbody(s):
    return (0.53 * (1 + 0.05 * s.i("ac|propulsion|num_engines")) * s.i("ac|geom|centerbody|S_aftbody", "ft**2") * s.i("ac|weights|MTOW", "lb") ** 0.2
            * (s.i("ac|geom|centerbody|taper_aftbody") + 0.5))


# ---- drag
def skin_friction(L, U, rho, T, lam):
    """turbulent flat plate with a laminar run at the front (Sutherland viscosity)"""
    Re = U * L * rho * (T + 100.4) / (1.458e-6 * T ** 1.5)
    Cf = 0.523 / log(0.06 * Re) ** 2
    if isinstance(lam, (int, float)) and lam <= 0:
        return Cf
    Rl = Re * lam
    return Cf + lam * (1.32824 / sqrt(Rl) - 0.523 / log(0.06 * Rl) ** 2)


def ff_fuselage(L, D, Q):
    f = L / D
    return Q * (1 + 2.2 / f + 3.8 / f ** 3)


def ff_wing(tc, Q):
    return Q * (1 + 2.7 * tc + 100 * tc ** 4)


def flap_drag(delta, sweep, cf, Q, frac):
    return (0.000575 * cf ** 2 - 7.45e-05 * cf + 1.23e-05) * delta ** 2 * cos(sweep) * frac * Q


def mac_trap(S, AR, t):
    return sqrt(S / AR) * 2 / (1 + t) * 2 / 3 * (1 + t + t ** 2) / (1 + t)
