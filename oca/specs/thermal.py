"""C11: heat and mass balances of thermal and fluid components"""
from .base import *


# ------------------------------------------------------------------ coolant loop building blocks
@law("C11", "thermal.thermal.PerfectHeatTransferComp")
def perfect_heat(s):
    m, cp = s.i("mdot_coolant", "kg/s"), s.opt("specific_heat")
    s.eq("heat into the fluid = mdot cp dT", m * cp * (s.o("T_out", "K") - s.i("T_in", "K")), s.i("q", "W"), scale=1e-6)
    s.eq("average temperature", 2 * s.o("T_average", "K"), s.i("T_in", "K") + s.o("T_out", "K"))


@law("C11", "thermal.thermal.ThermalComponentWithMass")
def thermal_mass(s):
    s.eq("stored heat", s.o("dTdt", "K/s") * s.i("mass", "kg") * s.opt("specific_heat"), s.i("q_in", "W") - s.i("q_out", "W"), scale=1e-9)


@law("C11", "thermal.thermal.ThermalComponentMassless")
def thermal_massless(s):
    r, q = s.res("T_object"), s.i("q_in", "W") - s.i("q_out", "W")
    # the residual vanishes exactly when the heats balance: it is a nonzero multiple of the difference
    for k in range(len(q)):
        a = s.subst(r[k:k + 1], {s.i("q_in")[k]: s.i("q_out")[k]})
        s.eq("residual is zero when heats balance", a[0], 0.0, scale=1.0)
        d = s.diff(r[k:k + 1], s.i("q_in")[k])[0]
        s.eq("residual reacts to the heat", absv(d), 1.0)


@law("C11", "thermal.thermal.ConstantSurfaceTemperatureColdPlate_NTU")
def cold_plate(s):
    m, cp, Ti, Ts = s.i("mdot_coolant", "kg/s"), s.opt("specific_heat"), s.i("T_in", "K"), s.i("T_surface", "K")
    w, h, L, n = [s.i(k, "m") if k != "n_parallel" else s.i(k) for k in ("channel_width", "channel_height", "channel_length", "n_parallel")]
    q = s.o("q", "W")
    s.eq("heat from the plate = heat gained by the coolant", m * cp * (s.o("T_out", "K") - Ti), q, scale=1e-6)
    UA = 2 * (w + h) * L * n * s.opt("nusselt") * s.opt("fluid_k") * (w + h) / (2 * w * h)
    s.eq("NTU effectiveness", q, m * cp * (Ts - Ti) * (1 - exp(-UA / (m * cp))), scale=1e-9)


@law("C11", "thermal.thermal.CoolantReservoirRate")
def reservoir_rate(s):
    s.eq("mixing", s.o("dTdt", "K/s") * s.i("mass", "kg"), s.i("mdot_coolant", "kg/s") * (s.i("T_in", "K") - s.i("T_out", "K")), scale=1e-9)


@law("C11", "thermal.thermal.LiquidCooledComp", kind="group")
def liquid_cooled(s):
    m, cp = s.i("mdot_coolant", "kg/s"), s.opt("specific_heat_coolant")
    q = s.o("hex.q", "W")
    s.eq("coolant takes the heat", m * cp * (s.o("T_out", "K") - s.i("T_in", "K")), q, scale=1e-6)
    s.eq("heat leaves the object", s.i("base.q_out", "W"), q)
    s.eq("heat enters the object", s.i("base.q_in", "W"), s.i("q_in", "W"))
    s.eq("plate sees the object temperature", s.i("hex.T_surface", "K"), s.o("T", "K"))
    if not s.opt("quasi_steady"):
        s.eq("stored heat", s.o("base.dTdt", "K/s") * s.i("mass", "kg") * s.opt("specific_heat_object"), s.i("q_in", "W") - q, scale=1e-9)
        s.eq("integrated rate", s.i("ode_integ.dTdt", "K/s"), s.o("base.dTdt", "K/s"))


@law("C11", "thermal.thermal.CoolantReservoir", kind="group")
def reservoir(s):
    s.eq("integrated rate", s.i("ode_integ.dTdt", "K/s"), s.o("rate.dTdt", "K/s"))
    s.eq("tank temperature", s.i("rate.T_out", "K"), s.o("T_out", "K"))
    s.eq("initial temperature", s.i("ode_integ.T_initial", "K"), s.i("T_initial", "K"))
    s.eq("mixing", s.o("rate.dTdt", "K/s") * s.i("mass", "kg"), s.i("mdot_coolant", "kg/s") * (s.i("T_in", "K") - s.o("T_out", "K")), scale=1e-9)


@law("C11", "thermal.manifold.FlowSplit")
def flow_split(s):
    m, f = s.i("mdot_in", "kg/s"), s.i("mdot_split_fraction")
    s.eq("mass", s.o("mdot_out_A", "kg/s") + s.o("mdot_out_B", "kg/s"), m)
    s.eq("branch A", s.o("mdot_out_A", "kg/s"), m * f)


@law("C11", "thermal.manifold.FlowCombine")
def flow_combine(s):
    a, b = s.i("mdot_in_A", "kg/s"), s.i("mdot_in_B", "kg/s")
    s.eq("mass", s.o("mdot_out", "kg/s"), a + b)
    s.eq("enthalpy", s.o("T_out", "K") * s.o("mdot_out", "kg/s"), a * s.i("T_in_A", "K") + b * s.i("T_in_B", "K"))


@law("C11", "thermal.pump.SimplePump")
def pump(s):
    P = s.i("mdot_coolant", "kg/s") * s.i("delta_p", "Pa") / s.i("rho_coolant", "kg/m**3")
    s.eq("electric load", s.o("elec_load", "W") * s.opt("efficiency"), P)
    s.eq("weight", s.o("component_weight", "kg"), s.opt("weight_base") + s.opt("weight_inc") * s.i("power_rating", "W"))
    s.eq("sizing margin", s.o("component_sizing_margin"), s.o("elec_load", "W") / s.i("power_rating", "W"))


@law("C11", "thermal.hose.SimpleHose")
def hose(s):
    D, L, m, rho, mu = s.i("hose_diameter", "m"), s.i("hose_length", "m"), s.i("mdot_coolant", "kg/s"), s.i("rho_coolant", "kg/m**3"), s.i("mu_coolant", "kg/m/s")
    U = 4 * m / (rho * PI * D ** 2)
    Re = rho * U * D / mu
    s.eq("Blasius pressure drop", s.o("delta_p", "Pa"), 0.3164 * Re ** (-0.25) * L / D * 0.5 * rho * U ** 2)
    t = s.i("hose_design_pressure", "Pa") * D / (2 * s.opt("hose_operating_stress"))
    s.eq("hose and coolant weight", s.o("component_weight", "kg"), PI * (D + t) * t * L * s.opt("hose_density") + PI * D ** 2 / 4 * L * rho[0])


# ------------------------------------------------------------------ refrigerator
@law("C11", "thermal.chiller.LinearSelector")
def selector(s):
    b = s.i("bypass")
    s.eq("cold side blend", s.o("T_out_cold", "K"), b * s.i("T_in_hot", "K") + (1 - b) * s.i("T_out_refrig_cold", "K"))
    s.eq("hot side blend", s.o("T_out_hot", "K"), b * s.i("T_in_cold", "K") + (1 - b) * s.i("T_out_refrig_hot", "K"))
    s.eq("electric load", s.o("elec_load", "W") * 0.95, (1 - b) * s.i("power_rating", "W"), scale=1e-9)


@law("C11", "thermal.chiller.COPHeatPump")
def heat_pump(s):
    P, c = s.i("power_rating", "W"), s.i("COP")
    s.eq("heat rejected = heat absorbed + work", s.o("q_in_2", "W") + s.o("q_in_1", "W"), P, scale=1e-6)
    s.eq("coefficient of performance", s.o("q_in_1", "W"), -c * P, scale=1e-9)


@law("C11", "thermal.chiller.HeatPumpWeight")
def heat_pump_weight(s):
    s.eq("weight", s.o("component_weight", "kg") * s.i("specific_power", "W/kg"), s.i("power_rating", "W"))


@law("C11", "thermal.chiller.COPExplicit")
def cop(s):
    # documented: Carnot factor times the efficiency factor, blended to a cap of 10 for small lifts
    Tc, Th, e = s.i("T_c", "K"), s.i("T_h", "K"), s.i("eff_factor")
    d = Th - Tc
    a = Tc / d * tanh(d) * e + (1 + tanh(-(d + 3))) / 2 * 10
    al = -1.5
    s.eq("softly limited Carnot factor", s.o("COP"), (a * exp(al * a) + 10 * exp(al * 10.0)) / (exp(al * a) + exp(al * 10.0)), rel=1e-5)


@law("C11", "thermal.chiller.HeatPumpWithIntegratedCoolantLoop", kind="group", cut=("COP",))
def refrigerator(s):
    P, m, cp = s.i("power_rating", "W"), s.i("mdot_coolant", "kg/s"), s.opt("specific_heat")
    cold, hot = s.o("cold_side.T_out", "K") - s.i("T_in_cold", "K"), s.o("hot_side.T_out", "K") - s.i("T_in_hot", "K")
    s.eq("heat to hot stream = heat from cold stream + work", m * cp * hot, -m * cp * cold + P, scale=1e-4)
    s.eq("heat from cold stream", -m * cp * cold, s.o("COP") * P, scale=1e-4)
    b = s.o("bypass") if not s.opt("nonlinear_bypass_control") else s.i("bypass")
    s.eq("cold outlet", s.o("T_out_cold", "K"), b * s.i("T_in_hot", "K") + (1 - b) * s.o("cold_side.T_out", "K"))
    s.eq("hot outlet", s.o("T_out_hot", "K"), b * s.i("T_in_cold", "K") + (1 - b) * s.o("hot_side.T_out", "K"))
    s.eq("electric load", s.o("elec_load", "W") * 0.95, (1 - b) * P, scale=1e-9)
    s.eq("weight", s.o("component_weight", "kg") * s.i("specific_power", "W/kg"), P)
    s.eq("COP at the refrigerant temperatures", s.i("copmatch.T_h", "K"), s.o("hot_side.T_out", "K"))
    s.eq("COP at the refrigerant temperatures (cold)", s.i("copmatch.T_c", "K"), s.o("cold_side.T_out", "K"))


# ------------------------------------------------------------------ motor and battery cooling
@law("C11", "thermal.motor_cooling.MotorCoolingJacket")
def motor_jacket(s):
    m, cp = s.i("mdot_coolant", "kg/s"), s.opt("coolant_specific_heat")
    dT = s.i("T", "K") - s.i("T_in", "K")
    q = s.o("q", "W")
    s.eq("coolant takes the heat", m * cp * (s.o("T_out", "K") - s.i("T_in", "K")), q, scale=1e-6)
    s.eq("stored heat", s.o("dTdt", "K/s") * s.i("motor_weight", "kg") * s.opt("motor_specific_heat"), s.i("q_in", "W") - q, scale=1e-9)
    UA = s.opt("case_cooling_coefficient") / s.opt("case_area_coefficient") * s.i("power_rating", "W")
    s.eq("NTU effectiveness", q, m * cp * dT * (1 - exp(-UA / (m * cp))), scale=1e-9)


@law("C11", "thermal.battery_cooling.BandolierCoolingSystem")
def bandolier(s):
    m, cp = s.i("mdot_coolant", "kg/s"), s.opt("coolant_specific_heat")
    n = s.i("battery_weight", "kg") * s.opt("battery_weight_fraction") / s.opt("cell_mass")
    q, Ti, Tb, Ts = s.o("q", "W"), s.i("T_in", "K"), s.i("T_battery", "K"), s.o("T_surface", "K")
    s.eq("coolant takes the heat", m * cp * (s.o("T_out", "K") - Ti), q, scale=1e-6)
    s.eq("stored heat", s.o("dTdt", "K/s") * n * s.opt("cell_mass") * s.opt("cell_specific_heat"), s.i("q_in", "W") - q, scale=1e-6)
    s.eq("mean of core and surface", s.o("T_core", "K") + Ts, 2 * Tb)
    # conduction inside the cell (parabolic profile) equals convection at its surface
    K = 8 * PI * s.opt("cell_height") * s.opt("cell_kr")
    s.eq("conduction = convection", K * (Tb - Ts) * n, q, scale=1e-6)
    ncpb = s.i("n_cpb")
    mb = m / (n / ncpb / 2)
    h = s.opt("nusselt") * s.opt("fluid_k") / (2 * s.i("t_channel", "m"))
    A = 2 * s.opt("cell_height") * ncpb * s.opt("cell_diameter")
    s.eq("NTU effectiveness", q, (Ts - Ti) * (1 - exp(-h * A / (mb * cp))) * mb * cp / (2 * ncpb) * n, scale=1e-6)


@law("C11", "thermal.motor_cooling.LiquidCooledMotor", kind="group")
def cooled_motor(s):
    m, cp = s.i("mdot_coolant", "kg/s"), s.opt("coolant_specific_heat")
    q = s.o("hex.q", "W")
    s.eq("coolant takes the heat", m * cp * (s.o("T_out", "K") - s.i("T_in", "K")), q, scale=1e-6)
    s.eq("stored heat", s.o("dTdt", "K/s") * s.i("motor_weight", "kg") * s.opt("motor_specific_heat"), s.i("q_in", "W") - q, scale=1e-9)
    s.eq("jacket sees the motor temperature", s.i("hex.T", "K"), s.o("T", "K"))
    if not s.opt("quasi_steady"):
        s.eq("integrated rate", s.i("ode_integ.dTdt", "K/s"), s.o("dTdt", "K/s"))


@law("C11", "thermal.battery_cooling.LiquidCooledBattery", kind="group")
def cooled_battery(s):
    m, cp = s.i("mdot_coolant", "kg/s"), s.opt("coolant_specific_heat")
    q = s.o("hex.q", "W")
    s.eq("coolant takes the heat", m * cp * (s.o("T_out", "K") - s.i("T_in", "K")), q, scale=1e-6)
    C_ = s.i("battery_weight", "kg") * s.opt("battery_weight_fraction") * s.opt("cell_specific_heat")
    s.eq("stored heat", s.o("dTdt", "K/s") * C_, s.i("q_in", "W") - q, scale=1e-6)
    s.eq("cells see the battery temperature", s.i("hex.T_battery", "K"), s.o("T", "K"))
    K = 8 * PI * s.opt("cell_height") * s.opt("cell_kr")
    n = s.i("battery_weight", "kg") * s.opt("battery_weight_fraction") / s.opt("cell_mass")
    s.eq("conduction = convection", K * (s.o("T", "K") - s.o("T_surface", "K")) * n, q, scale=1e-6)
    if not s.opt("quasi_steady"):
        s.eq("integrated rate", s.i("ode_integ.dTdt", "K/s"), s.o("dTdt", "K/s"))


# ------------------------------------------------------------------ plate-fin heat exchanger
SIDES = ("cold", "hot")


@law("C11", "thermal.heat_exchanger.OffsetStripFinGeometry")
def osf_geometry(s):
    tf, tp, tc = s.i("fin_thickness", "m"), s.i("plate_thickness", "m"), s.i("case_thickness", "m")
    nt, nw, nl = s.i("n_tall"), s.i("n_wide_cold"), s.i("n_long_cold")
    wc, hc, lc, wh, hh, lh = [s.i(f"{a}_{b}", "m") for b in SIDES for a in ("channel_width", "channel_height", "fin_length")]
    W, Hh, L = s.o("width_overall", "m"), s.o("height_overall", "m"), s.o("length_overall", "m")
    s.eq("width", W, (tf + wc) * nw)
    s.eq("length", L, lc * nl)
    s.eq("height", Hh, (hc + hh + 2 * (tf + tp)) * nt)
    s.eq("frontal area", s.o("frontal_area", "m**2"), W * Hh)
    nwh, nlh = L / (wh + tf), W / lh
    for side, w, h, l, a, b, face in (("cold", wc, hc, lc, nw, nl, W * Hh), ("hot", wh, hh, lh, nwh, nlh, Hh * L)):
        A = s.o(f"xs_area_{side}", "m**2")
        s.eq(f"{side} flow area", A, w * h * a * nt)
        s.eq(f"{side} wetted area", s.o(f"heat_transfer_area_{side}", "m**2"), 2 * (w + h) * l * a * b * nt)
        s.eq(f"{side} fin area ratio", s.o(f"fin_area_ratio_{side}"), h / (h + w))
        s.eq(f"{side} contraction ratio", s.o(f"contraction_ratio_{side}") * face, A)
        s.eq(f"{side} alpha", s.o(f"alpha_{side}") * h, w)
        s.eq(f"{side} delta", s.o(f"delta_{side}") * l, tf)
        s.eq(f"{side} gamma", s.o(f"gamma_{side}") * w, tf)
    s.eq("cold hydraulic diameter", s.o("dh_cold", "m"), 4 * wc * hc * lc / (2 * (wc * lc + hc * lc + tf * hc) + tf * wc))
    s.eq("hot hydraulic diameter", s.o("dh_hot", "m"), 2 * wh * hh / (wh + hh))
    plates = L * W * 2 * tp * nt
    fins = ((wc + hc + tf) * lc * nl * nw + (wh + hh + tf) * lh * nlh * nwh) * tf * nt
    case = 2 * tc * L * (Hh + W)
    s.eq("weight = plates + fins + case", s.o("component_weight", "kg"), (plates + fins + case) * s.i("material_rho", "kg/m**3"))


@law("C11", "thermal.heat_exchanger.OffsetStripFinData")
def osf_data(s):
    for b in SIDES:
        a, d, g, Re = s.i("alpha_" + b), s.i("delta_" + b), s.i("gamma_" + b), s.i("Re_dh_" + b)
        j = 0.6522 * Re ** -0.5403 * a ** -0.1541 * d ** 0.1499 * g ** -0.0678 * (1 + 5.269e-5 * Re ** 1.34 * a ** 0.504 * d ** 0.456 * g ** -1.055) ** 0.1
        f = 9.6243 * Re ** -0.7422 * a ** -0.1856 * d ** 0.3053 * g ** -0.2659 * (1 + 7.669e-8 * Re ** 4.429 * a ** 0.920 * d ** 3.767 * g ** 0.236) ** 0.1
        s.eq(f"{b} j factor", s.o("j_" + b), j)
        s.eq(f"{b} f factor", s.o("f_" + b), f)


@law("C11", "thermal.heat_exchanger.HydraulicDiameterReynoldsNumber")
def hx_re(s):
    for b in SIDES:
        s.eq(f"{b} Reynolds number", s.o("Re_dh_" + b) * s.i("xs_area_" + b, "m**2") * s.i("mu_" + b, "kg/m/s"), s.i("mdot_" + b, "kg/s") * s.i("dh_" + b, "m"))


@law("C11", "thermal.heat_exchanger.NusseltFromColburnJ")
def hx_nu(s):
    for b in SIDES:
        Pr = s.i("mu_" + b, "kg/m/s") * s.i("cp_" + b, "J/kg/K") / s.i("k_" + b, "W/m/K")
        s.eq(f"{b} Nusselt number", s.o("Nu_dh_" + b), s.i("j_" + b) * s.i("Re_dh_" + b) * Pr ** (1 / 3))


@law("C11", "thermal.heat_exchanger.ConvectiveCoefficient")
def hx_h(s):
    for b in SIDES:
        s.eq(f"{b} film coefficient", s.o("h_conv_" + b, "W/m**2/K") * s.i("dh_" + b, "m"), s.i("Nu_dh_" + b) * s.i("k_" + b, "W/m/K"))


@law("C11", "thermal.heat_exchanger.FinEfficiency")
def hx_fin(s):
    k, t = s.i("material_k", "W/m/K"), s.i("fin_thickness", "m")
    for b in SIDES:
        h, l = s.i("h_conv_" + b, "W/m**2/K"), s.i("channel_height_" + b, "m")
        x = sqrt(2 * h / (k * t)) * l / 2
        s.eq(f"{b} surface efficiency", s.o("eta_overall_" + b), 1 - s.i("fin_area_ratio_" + b) * (1 - tanh(x) / x))


@law("C11", "thermal.heat_exchanger.UAOverall")
def hx_ua(s):
    R = 0.0
    for b in SIDES:
        Ae = s.i("heat_transfer_area_" + b, "m**2") * s.i("eta_overall_" + b)
        R = R + 1 / (s.i("h_conv_" + b, "W/m**2/K") * Ae) + s.opt("fouling_factor_" + b) / Ae
    s.eq("series resistances", s.o("UA_overall", "W/K") * R, 1.0)


@law("C11", "thermal.heat_exchanger.NTUMethod")
def hx_ntu(s):
    cc, ch = s.i("mdot_cold", "kg/s") * s.i("cp_cold", "J/kg/K"), s.i("mdot_hot", "kg/s") * s.i("cp_hot", "J/kg/K")
    mn, mx = minimum(cc, ch), maximum(cc, ch)
    s.eq("transfer units", s.o("NTU") * mn, s.i("UA_overall", "W/K"))
    s.eq("largest possible heat", s.o("heat_max", "W"), mn * (s.i("T_in_hot", "K") - s.i("T_in_cold", "K")), scale=1e-9)
    s.eq("capacity ratio", s.o("C_ratio") * mx, mn)


@law("C11", "thermal.heat_exchanger.CrossFlowNTUEffectiveness")
def hx_eff(s):
    C_, N = s.i("C_ratio"), s.i("NTU")
    s.eq("crossflow effectiveness", s.o("effectiveness"), 1 - exp(N ** 0.22 / C_ * (exp(-C_ * N ** 0.78) - 1)))


@law("C11", "thermal.heat_exchanger.NTUEffectivenessActualHeatTransfer")
def hx_q(s):
    s.eq("heat", s.o("heat_transfer", "W"), s.i("effectiveness") * s.i("heat_max", "W"))


@law("C11", "thermal.heat_exchanger.OutletTemperatures")
def hx_out(s):
    q = s.i("heat_transfer", "W")
    s.eq("cold stream gains the heat", s.i("mdot_cold", "kg/s") * s.i("cp_cold", "J/kg/K") * (s.o("T_out_cold", "K") - s.i("T_in_cold", "K")), q, scale=1e-6)
    s.eq("hot stream loses the heat", s.i("mdot_hot", "kg/s") * s.i("cp_hot", "J/kg/K") * (s.i("T_in_hot", "K") - s.o("T_out_hot", "K")), q, scale=1e-6)


@law("C11", "thermal.heat_exchanger.PressureDrop")
def hx_dp(s):
    for b, L in (("cold", "length_overall"), ("hot", "width_overall")):
        G_ = s.i("mdot_" + b, "kg/s") / s.i("xs_area_" + b, "m**2")
        K = s.opt("Kc_" + b) + s.opt("Ke_" + b) + 4 * s.i("f_" + b) * s.i(L, "m") / s.i("dh_" + b, "m")
        s.eq(f"{b} pressure change", s.o("delta_p_" + b, "Pa"), -G_ ** 2 / (2 * s.i("rho_" + b, "kg/m**3")) * K)


@law("C11", "thermal.heat_exchanger.HXGroup", kind="group")
def hx_group(s):
    q = s.o("heat_transfer", "W")
    gain = s.i("mdot_cold", "kg/s") * s.i("cp_cold", "J/kg/K") * (s.o("T_out_cold", "K") - s.i("T_in_cold", "K"))
    loss = s.i("mdot_hot", "kg/s") * s.i("cp_hot", "J/kg/K") * (s.i("T_in_hot", "K") - s.o("T_out_hot", "K"))
    s.eq("heat lost by hot stream = heat gained by cold stream", loss, gain, scale=1e-4)
    s.eq("heat", q, gain, scale=1e-4)
    for b in SIDES:
        s.eq(f"{b} Reynolds number", s.o("Re_dh_" + b) * s.o("xs_area_" + b, "m**2") * s.i("mu_" + b, "kg/m/s"), s.i("mdot_" + b, "kg/s") * s.o("dh_" + b, "m"))
    s.eq("stack width", s.o("width_overall", "m"), (s.i("fin_thickness", "m") + s.i("channel_width_cold", "m")) * s.o("n_wide_cold"))


# ------------------------------------------------------------------ heat pipe
@law("C11", "thermal.heat_pipe.HeatPipeThermalResistance")
def pipe_resistance(s):
    D, t, w = s.i("inner_diam", "m"), s.i("wall_thickness", "m"), s.opt("wick_thickness")
    R = 0.0
    for L in (s.opt("length_evap"), s.opt("length_cond")):
        R = R + log((D + 2 * t) / D) / (2 * PI * L * s.opt("wall_conduct")) + log(D / (D - 2 * w)) / (2 * PI * L * s.opt("wick_conduct"))
    if s.opt("vapor_resistance"):
        R = R + s.i("delta_T", "K") / s.i("q", "W")
    s.eq("series resistances", s.o("thermal_resistance", "K/W"), R)


@law("C11", "thermal.heat_pipe.HeatPipeVaporTempDrop")
def pipe_drop(s):
    md = s.i("q", "W") / s.opt("latent_heat")
    D, rho = s.i("inner_diam", "m"), s.i("rho_vapor", "kg/m**3")
    U = 4 * md / (rho * PI * D ** 2)
    Re = rho * U * D / (s.opt("visc_base") + s.opt("visc_inc") * s.i("temp", "degC"))
    dp = 0.3164 * Re ** (-0.25) * s.i("length", "m") / D * rho * U ** 2 / 2
    s.eq("saturation temperature drop", s.o("delta_T", "K"), 35.976 / s.i("vapor_pressure", "Pa") * dp)


@law("C11", "thermal.heat_pipe.HeatPipeWeight")
def pipe_weight(s):
    D, p, L = s.i("inner_diam", "m"), s.i("design_pressure", "MPa"), s.i("length", "m")
    t = s.o("wall_thickness", "m")
    s.eq("wall thickness", t * s.opt("yield_stress"), p * D * s.opt("stress_safety_factor"))
    s.eq("wall weight", s.o("heat_pipe_weight", "kg"), PI * D * t * L * s.opt("rho_wall"))


@law("C11", "thermal.heat_pipe.QMaxAnalyticalPart")
def pipe_qmax(s):
    rl, rv, D = s.i("rho_liquid", "kg/m**3"), s.i("rho_vapor", "kg/m**3"), s.i("inner_diam", "m")
    st = s.opt("surface_tension_base") + s.opt("surface_tension_incr") * s.i("temp", "degC")
    Bo = D * sqrt(G * (rl - rv) / st)
    k = (rl / rv) ** 0.14 * tanh(Bo ** 0.25) ** 2
    q = k * PI / 4 * D ** 2 * s.opt("latent_heat") * (G * cos(s.opt("theta") * PI / 180) * st * (rl - rv)) ** 0.25 / (rl ** -0.25 + rv ** -0.25) ** 2
    s.eq("flooding limit", s.o("q_max", "W"), q)


@law("C11", "thermal.heat_pipe.HeatPipe", kind="group")
def heat_pipe(s):
    n = s.i("n_pipes")
    q1 = s.o("heat_divide.q_div", "W")
    s.eq("pipes share the heat", q1 * n, s.i("q", "W"))
    s.eq("temperature drop of one pipe", s.i("T_evap", "degC") - s.o("T_cond", "degC"), q1 * s.o("resistance.thermal_resistance", "K/W"), scale=1e-6)
    s.eq("weight of all pipes", s.o("weight", "kg"), s.o("q_max_calc.heat_pipe_weight", "kg") * n)
    s.eq("limit of all pipes", s.o("q_max", "W"), s.o("q_max_calc.q_max", "W") * n)
    for c in ("delta_T_calc", "resistance"):
        s.eq(f"{c} sees one pipe's heat", s.i(c + ".q", "W"), q1)
    s.eq("wall thickness", s.i("resistance.wall_thickness", "m"), s.o("q_max_calc.wall_thickness", "m"))
    s.eq("vapour drop counted", s.i("resistance.delta_T", "K"), s.o("delta_T_calc.delta_T", "K"))
    for a in ("rho_vapor", "vapor_pressure"):
        s.eq(f"{a} at the current temperature", s.i("delta_T_calc." + a, None), s.conv("ammonia_surrogate." + a, "delta_T_calc." + a))


# ------------------------------------------------------------------ compressible duct
@law("C11", "thermal.ducts.ExplicitIncompressibleDuct")
def simple_duct(s):
    rho, U, A, dp = s.i("fltcond|rho", "kg/m**3"), s.i("fltcond|Utrue", "m/s"), s.i("area_nozzle", "m**2"), s.i("delta_p_hex", "Pa")
    x = (rho ** 2 * U ** 2 + 2 * rho * dp) / (1 + s.opt("static_pressure_loss_factor"))
    m = s.o("mdot", "kg/s")
    ok = lt(1e-8, x)
    for k in range(len(x)):
        s.eq("mass flow", m[k], (A * sqrt(x))[k], when=[ok[k], lt(0.0, A)[k]])
    s.eq("drag = momentum deficit", s.o("drag", "N"), m * U - s.opt("gross_thrust_factor") * m ** 2 / (A * rho), scale=1e-6)


def gm(s):
    return s.opt("gamma")


@law("C11", "thermal.ducts.TemperatureIsentropic")
def d_T(s):
    s.eq("isentropic temperature", s.o("T", "K") * (1 + (gm(s) - 1) / 2 * s.i("M") ** 2), s.i("Tt", "K"))


@law("C11", "thermal.ducts.TotalTemperatureIsentropic")
def d_Tt(s):
    s.eq("total temperature", s.o("Tt", "K"), s.i("T", "K") * (1 + (gm(s) - 1) / 2 * s.i("M") ** 2))


@law("C11", "thermal.ducts.PressureIsentropic")
def d_p(s):
    s.eq("isentropic pressure", s.o("p", "Pa") * (1 + (gm(s) - 1) / 2 * s.i("M") ** 2) ** (gm(s) / (gm(s) - 1)), s.i("pt", "Pa"))


@law("C11", "thermal.ducts.TotalPressureIsentropic")
def d_pt(s):
    s.eq("total pressure", s.o("pt", "Pa"), s.i("p", "Pa") * (1 + (gm(s) - 1) / 2 * s.i("M") ** 2) ** (gm(s) / (gm(s) - 1)))


@law("C11", "thermal.ducts.DensityIdealGas")
def d_rho(s):
    s.eq("ideal gas", s.o("rho", "kg/m**3") * s.opt("R") * s.i("T", "K"), s.i("p", "Pa"))


@law("C11", "thermal.ducts.SpeedOfSound")
def d_a(s):
    T = s.i("T", "K")
    for k in range(len(T)):
        s.eq("speed of sound", (s.o("a", "m/s") ** 2)[k], (s.opt("gamma") * s.opt("R") * T)[k], when=[lt(0.0, T)[k]])


@law("C11", "thermal.ducts.MachNumberfromSpeed")
def d_M(s):
    s.eq("Mach number", s.o("M") * s.i("a", "m/s"), s.i("Utrue", "m/s"))


@law("C11", "thermal.ducts.HeatAdditionPressureLoss")
def d_heat(s):
    m = s.i("mdot", "kg/s")
    s.eq("total enthalpy", m * s.i("cp", "J/kg/K") * (s.o("Tt_out", "K") - s.i("Tt_in", "K")), s.i("heat_in", "W"), scale=1e-4)
    qd = 0.5 * m ** 2 / (s.i("rho", "kg/m**3") * s.i("area", "m**2") ** 2)
    s.eq("total pressure", s.o("pt_out", "Pa"), s.i("pt_in", "Pa") * s.i("pressure_recovery") - qd * s.i("dynamic_pressure_loss_factor") + s.i("delta_p", "Pa"), scale=1e-6)


@law("C11", "thermal.ducts.MassFlow")
def d_mdot(s):
    s.eq("continuity", s.o("mdot", "kg/s"), s.i("M") * s.i("a", "m/s") * s.i("area", "m**2") * s.i("rho", "kg/m**3"))


def balance(s, st, f, want):
    """residual of state st vanishes at st = want and reacts to st"""
    r, x = s.res(st), s.o(st)
    for k in range(len(r)):
        a = s.subst(r[k:k + 1], {x[k]: want[k]})
        s.eq(f"{f} at the solution", a[0], 0.0, scale=1.0)
        s.ne(f"{f}: residual away from the solution", s.subst(r[k:k + 1], {x[k]: 2 * want[k]})[0], 0.0)


@law("C11", "thermal.ducts.MachNumberDuct")
def d_machduct(s):
    balance(s, "M", "continuity", s.i("mdot", "kg/s") / (s.i("a", "m/s") * s.i("area", "m**2") * s.i("rho", "kg/m**3")))


@law("C11", "thermal.ducts.DuctExitPressureRatioImplicit")
def d_npr(s):
    balance(s, "nozzle_pressure_ratio", "pressure ratio", s.i("p_exit", "Pa") / s.i("pt", "Pa"))


@law("C11", "thermal.ducts.FlowMatcher")
def d_match(s):
    balance(s, "mdot", "mass flow", s.i("mdot_actual", "kg/s"))


@law("C11", "thermal.ducts.DuctExitMachNumber")
def d_exit(s):
    g, r, M = gm(s), s.i("nozzle_pressure_ratio"), s.o("M")
    crit = (2 / (g + 1)) ** (g / (g - 1))
    for k in range(len(r)):
        s.eq("choked exit", M[k], 1.0, when=[le(r, crit)[k]])
        s.eq("subsonic exit", (r * (1 + (g - 1) / 2 * M ** 2) ** (g / (g - 1)))[k], 1.0, when=[lt(crit, r)[k], lt(r, 1.0)[k]])


@law("C11", "thermal.ducts.NozzlePressureLoss")
def d_nozloss(s):
    qd = 0.5 * s.i("mdot", "kg/s") ** 2 / (s.i("rho", "kg/m**3") * s.i("area", "m**2") ** 2)
    s.eq("total pressure", s.o("pt", "Pa"), s.i("pt_in", "Pa") - qd * s.i("dynamic_pressure_loss_factor"), scale=1e-6)


@law("C11", "thermal.ducts.NetForce")
def d_force(s):
    m, A = s.i("mdot", "kg/s"), s.i("area_nozzle", "m**2")
    f = m * (s.opt("cfg") * m / (A * s.i("rho_nozzle", "kg/m**3")) - s.i("Utrue_inf", "m/s")) + s.opt("cfg") * A * (s.i("p_nozzle", "Pa") - s.i("p_inf", "Pa"))
    s.eq("momentum balance", s.o("F_net", "N"), f, scale=1e-6)


@law("C11", "thermal.ducts.Inlet", kind="group")
def d_inlet(s):
    M = s.i("Utrue", "m/s") / s.o("a", "m/s")
    s.eq("free-stream total temperature", s.o("Tt", "K"), s.i("T", "K") * (1 + 0.2 * M ** 2))
    s.eq("ram pressure recovered", s.o("pt", "Pa"), s.i("p", "Pa") * (1 + 0.2 * M ** 2) ** 3.5 * s.i("totalpressure.eta_ram"))


@law("C11", "thermal.ducts.DuctStation", kind="group")
def d_station(s):
    M = s.o("M")
    s.eq("heat raises total temperature", s.i("mdot", "kg/s") * s.i("cp", "J/kg/K") * (s.o("Tt_out", "K") - s.i("Tt_in", "K")), s.i("heat_in", "W"), scale=1e-4)
    s.eq("static temperature", s.o("T", "K") * (1 + 0.2 * M ** 2), s.o("Tt_out", "K"))
    s.eq("static pressure", s.o("p", "Pa") * (1 + 0.2 * M ** 2) ** 3.5, s.o("pt_out", "Pa"))
    s.eq("ideal gas", s.o("rho", "kg/m**3") * 287.05 * s.o("T", "K"), s.o("p", "Pa"))
    s.eq("continuity uses the station flow", s.i("mach.mdot", "kg/s"), s.i("mdot", "kg/s"))
    s.eq("continuity uses the station density", s.i("mach.rho", "kg/m**3"), s.o("rho", "kg/m**3"))
    s.eq("continuity uses the station speed of sound", s.i("mach.a", "m/s"), s.o("a", "m/s"))
    s.eq("continuity uses the station area", s.i("mach.area", "m**2"), s.i("area", "m**2"))


@law("C11", "thermal.ducts.OutletNozzle", kind="group")
def d_nozzle(s):
    M = s.o("M")
    s.eq("static temperature", s.o("T", "K") * (1 + 0.2 * M ** 2), s.i("Tt", "K"))
    s.eq("static pressure", s.o("p", "Pa") * (1 + 0.2 * M ** 2) ** 3.5, s.o("pt", "Pa"))
    s.eq("ideal gas", s.o("rho", "kg/m**3") * 287.05 * s.o("T", "K"), s.o("p", "Pa"))
    s.eq("mass flow", s.o("mdot_actual", "kg/s"), M * s.o("a", "m/s") * s.i("area", "m**2") * s.o("rho", "kg/m**3"))


def duct_chain(s):
    """stations in series: total pressure and temperature handed on, one mass flow, heat added once"""
    m, cp = s.i("sta1.mdot", "kg/s"), s.i("sta1.cp", "J/kg/K")
    for k in (2, 3):
        s.eq(f"station {k} mass flow", s.i(f"sta{k}.mdot", "kg/s"), m)
    s.eq("force mass flow", s.i("force.mdot", "kg/s"), m)
    s.eq("nozzle mass flow", s.i("nozzle.mdot", "kg/s"), m)
    s.eq("matched mass flow", s.o("mdot", "kg/s"), m)
    s.eq("flow matcher target", s.i("mdotguess.mdot_actual", "kg/s"), s.o("nozzle.mdot_actual", "kg/s"))
    chain = [("inlet.Tt", "sta1.Tt_in"), ("sta1.Tt_out", "sta2.Tt_in"), ("sta2.Tt_out", "sta3.Tt_in"), ("sta3.Tt_out", "nozzle.Tt")]
    for a, b in chain:
        s.eq(f"{a} reaches {b}", s.i(b, "K"), s.o(a, "K"))
    chain = [("inlet.pt", "sta1.pt_in"), ("sta1.pt_out", "sta2.pt_in"), ("sta2.pt_out", "sta3.pt_in"), ("sta3.pt_out", "nozzle.pt_in")]
    for a, b in chain:
        s.eq(f"{a} reaches {b}", s.i(b, "Pa"), s.o(a, "Pa"))
    q = s.i("sta1.heat_in", "W") + s.i("sta2.heat_in", "W") + s.i("sta3.heat_in", "W")
    s.eq("all heat added appears in the nozzle total temperature", m * cp * (s.i("nozzle.Tt", "K") - s.o("inlet.Tt", "K")), q, scale=1e-3)
    s.eq("exit pressure of the force balance", s.i("force.p_nozzle", "Pa"), s.o("nozzle.p", "Pa"))
    s.eq("exit density of the force balance", s.i("force.rho_nozzle", "kg/m**3"), s.o("nozzle.rho", "kg/m**3"))
    s.eq("free-stream speed of the force balance", s.i("force.Utrue_inf", "m/s"), s.i("Utrue", "m/s"))
    s.eq("nozzle area of the force balance", s.i("force.area_nozzle", "m**2"), s.i("nozzle.area", "m**2"))


@law("C11", "thermal.ducts.ImplicitCompressibleDuct", kind="group")
def duct(s):
    duct_chain(s)
    q = s.o("hx.heat_transfer", "W")
    s.eq("heat of the exchanger enters the stream", s.i("sta3.heat_in", "W"), q)
    s.eq("pressure change of the exchanger", s.i("sta3.delta_p", "Pa"), s.o("hx.delta_p_cold", "Pa"))
    s.eq("exchanger air flow", s.i("hx.mdot_cold", "kg/s"), s.o("mdot", "kg/s"))
    s.eq("exchanger air temperature", s.i("hx.T_in_cold", "K"), s.o("sta2.T", "K"))
    s.eq("exchanger air density", s.i("hx.rho_cold", "kg/m**3"), s.o("sta2.rho", "kg/m**3"))
    s.eq("coolant loses that heat", s.i("mdot_hot", "kg/s") * s.i("hx.cp_hot", "J/kg/K") * (s.i("T_in_hot", "K") - s.o("T_out_hot", "K")), q, scale=1e-4)
    for k in (2, 3):
        s.eq(f"station {k} area", s.i(f"sta{k}.area", "m**2"), s.o("hx.frontal_area", "m**2"))


@law("C11", "thermal.ducts.ImplicitCompressibleDuct_ExternalHX", kind="group")
def duct_ext(s):
    duct_chain(s)
    s.eq("external heat enters the stream", s.i("sta3.heat_in", "W"), s.i("sta3.heat_in", "W"))
    s.eq("nozzle area", s.i("nozzle.area", "m**2"), s.i("area_nozzle_in", "m**2"))


@law("C11", "thermal.heat_pipe.QMaxHeatPipe", kind="group")
def qmax_group(s):
    for a in ("rho_liquid", "rho_vapor"):
        s.eq(f"{a} at the current temperature", s.i("q_max_calc." + a, None), s.conv("ammonia_current." + a, "q_max_calc." + a))
    s.eq("current temperature enters the properties", s.i("ammonia_current.temp", "degC"), s.i("temp", "degC"))
    s.eq("current temperature enters the surface tension", s.i("q_max_calc.temp", "degC"), s.i("temp", "degC"))
    s.eq("design temperature enters the design properties", s.i("ammonia_design.temp", "degC"), s.i("design_temp", "degC"))
    D, L, p = s.i("inner_diam", "m"), s.i("length", "m"), s.o("design_pressure", "MPa")
    s.eq("wall sized by the design pressure", s.o("wall_thickness", "m") * s.opt("yield_stress"), p * D * s.opt("stress_safety_factor"))
    s.eq("pipe weight", s.o("heat_pipe_weight", "kg"), PI * D * s.o("wall_thickness", "m") * L * s.opt("rho_wall"))
    tilt = s.flat.comps["q_max_calc"].om.options.d["theta"].val
    s.eq("tilt reaches the flooding limit", tilt, s.opt("theta"))


@law("C11", "thermal.heat_pipe.AmmoniaProperties", kind="group", cfgs=lambda c, t: [C.Config(c.qual, dict(num_nodes=n), f"nn={n}") for n in (1, 3)])
def ammonia(s):
    """the tabulated saturation data hangs together: row by row the vapour is a slightly compressible ideal gas"""
    tr = [c.om.extra["train"] for c in s.flat.comps.values() if c.om.extra.get("train")]
    s.check("one table", len(tr) == 1, f"{len(tr)} tables")
    if len(tr) != 1:
        return
    col = {}
    for n in ("temp", "rho_liquid", "rho_vapor", "vapor_pressure"):
        v = tr[0].get(n)
        s.check(f"{n} is tabulated", v is not None, "it is missing")
        if v is None:
            return
        col[n] = np.array([float(x.args[0]) if isinstance(x, E) else float(x) for x in v[1].a.reshape(-1)])
    un = {n: (s.inst and s.flat.vars[next(a for a in s.flat.vars if a.endswith("." + n) or a == n)][1].units) for n in col}
    n = len(col["temp"])
    s.check("columns of one length", len({len(v) for v in col.values()}) == 1, str({k: len(v) for k, v in col.items()}))
    T = np.array([float(U.convert(x, un["temp"], "K")) for x in col["temp"]])
    rl, rv = (np.array([float(U.convert(x, un[k], "kg/m**3")) for x in col[k]]) for k in ("rho_liquid", "rho_vapor"))
    p = np.array([float(U.convert(x, un["vapor_pressure"], "Pa")) for x in col["vapor_pressure"]])
    for k in range(n):
        Z = p[k] * 0.0170305 / (rv[k] * 8.314463 * T[k])
        s.check("pressure, density and temperature of the vapour belong together", 0.6 < Z < 1.06, f"compressibility {Z:.4g} at {T[k]:.6g} K")
        if k:
            s.check("temperature increases", T[k] > T[k - 1], f"{T[k - 1]} then {T[k]}")
            s.check("liquid gets lighter", rl[k] < rl[k - 1], f"{rl[k - 1]} then {rl[k]} at {T[k]:.6g} K")
            s.check("vapour gets denser", rv[k] > rv[k - 1] and p[k] > p[k - 1], f"at {T[k]:.6g} K")
            # Clausius-Clapeyron: latent heat falls slowly from 1.5 MJ/kg
            h = np.log(p[k] / p[k - 1]) / (1 / T[k - 1] - 1 / T[k]) * 8.314463 / 0.0170305 * Z
            s.check("latent heat implied by the pressures", 5e5 < h < 1.6e6, f"{h:.4g} J/kg at {T[k]:.6g} K")


SYSTEMS = ["propulsion.systems.thermal_series_hybrid.TwinSeriesHybridElectricThermalPropulsionSystem", "propulsion.systems.thermal_series_hybrid.TwinSeriesHybridElectricThermalPropulsionRefrigerated",
           "propulsion.systems.simple_all_electric.AllElectricSinglePropulsionSystemWithThermal_Compressible", "propulsion.systems.simple_all_electric.AllElectricSinglePropulsionSystemWithThermal_Incompressible"]


def coolant_loops(s):
    """the coolant goes round: what leaves one part enters the next, every part is on a closed circuit and all parts of a circuit see the same stream"""
    fridge = {g.split(".")[0] for g in s.groups("HeatPumpWithIntegratedCoolantLoop")}

    def node(path, var):
        top = path.split(".")[0]
        rest = (path + "." + var)[len(top):]
        # only the refrigerator sits in two circuits; elsewhere the cold stream is air
        return (top, "cold" if "cold" in rest else "hot") if top in fridge else (top, "")
    tin, flow, nodes = {}, {}, set()
    for p, c in s.flat.comps.items():
        if getattr(c, "om", None) is None or not hasattr(c.om, "inputs"):
            continue
        for n in c.om.inputs:
            a = p + "." + n
            top = p.split(".")[0]
            if n in ("T_in", "T_in_hot") or (n == "T_in_cold" and top in fridge):
                src = s.flat.conn[a].src if a in s.flat.conn else None
                if src is not None and src.split(".")[0] == top:
                    continue
                nodes.add(node(p, n))
                tin.setdefault(node(p, n), set()).add(src)
            elif n in ("mdot_coolant", "mdot_hot") or (n == "mdot_cold" and top in fridge):
                flow.setdefault(node(p, n), set()).add(s.source(a))
    s.check("coolant parts found", len(nodes) >= 3, f"{sorted(nodes)}")
    follow = {}
    for nd in sorted(nodes):
        src = tin[nd]
        if len(src) != 1 or None in src:
            s.bad(f"inlet of {'.'.join(nd).strip('.')}", f"fed by {sorted(map(str, src))} [config {s.cfg.label}]")
            continue
        p, v = next(iter(src)).rsplit(".", 1)
        s.check(f"inlet of {'.'.join(nd).strip('.')}", v.startswith("T_out") and node(p, v) in nodes, f"fed by {p}.{v}, which is not the outlet of a part of the circuit")
        follow[nd] = node(p, v)
    for nd in sorted(follow):
        seen, k = [], nd
        while k in follow and k not in seen:
            seen.append(k)
            k = follow[k]
        name = ".".join(nd).strip(".")
        s.check(f"circuit of {name}", k == nd, f"the coolant that leaves {name} enters no other part (circuit {' <- '.join('.'.join(x).strip('.') for x in seen)})")
        f = set().union(*[flow.get(x, {None}) for x in seen])
        s.check(f"flow of {name}", len(f) == 1 and None not in f, f"parts of one circuit are given the flows {sorted(map(str, f))}")


for _q in SYSTEMS:
    law("C11", _q, kind="wiring", cfgs=lambda c, t: [C.Config(c.qual, dict(num_nodes=n), f"nn={n}") for n in (1, 3)])(coolant_loops)
