"""writes oca/dims.json: dimensions of options, of variables declared without unit and of literals (reviewed by hand, below), and the
outputs that are homogeneous (the claim of C12), as found by the analysis on the reviewed tree"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oca", "dims.json")

OPTIONS = {
    "airframe_cost_per_kg": "USD/kg", "fuel_cost_per_kg": "USD/kg", "electricity_cost_per_MJ": "USD/MJ",
    "specific_power": "W/kg", "SimpleBattery.cost_inc": "USD/kg", "SOCBattery.cost_inc": "USD/kg", "cost_inc": "USD/W", "cost_base": "USD",
    "weight_inc": "kg/W", "weight_base": "kg", "psfc": "kg/W/s", "LH2_density": "kg/m**3", "yield_stress": "Pa", "density": "kg/m**3", "youngs_modulus": "Pa",
    "foil_layer_areal_weight": "kg/m**2", "spacer_layer_areal_weight": "kg/m**2", "h_obstacle": "m",
    "coolant_specific_heat": "J/kg/K", "specific_heat": "J/kg/K", "motor_specific_heat": "J/kg/K", "specific_heat_object": "J/kg/K", "specific_heat_coolant": "J/kg/K",
    "fluid_k": "W/m/K", "fluid_rho": "kg/m**3", "cell_kr": "W/m/K", "cell_diameter": "m", "cell_height": "m", "cell_mass": "kg", "cell_specific_heat": "J/kg/K",
    "R": "J/kg/K", "fouling_factor_cold": "m**2*K/W", "fouling_factor_hot": "m**2*K/W",
    "length_evap": "m", "length_cond": "m", "wall_conduct": "W/m/K", "wick_thickness": "m", "wick_conduct": "W/m/K", "rho_wall": "kg/m**3",
    "latent_heat": "J/kg", "visc_base": "Pa*s", "visc_inc": "Pa*s/K", "surface_tension_base": "N/m", "surface_tension_incr": "N/m/K",
    "hose_operating_stress": "Pa", "hose_density": "kg/m**3", "case_cooling_coefficient": "W/m**2/K", "case_area_coefficient": "W/m**2",
}
VARS = {
    "PropCoefficients.prop_Vtip": "m/s",
}
# a threshold or regularisation in fixed units is part of the documented formula
THRESHOLD = ["openconcept.thermal.chiller.COPExplicit:COP"]
LITERALS = {
}

if __name__ == "__main__":
    json.dump({"claimed": {}, "options": OPTIONS, "vars": VARS, "literals": LITERALS}, open(OUT, "w"))
    os.environ["OCA_DIMS_ALL"] = "1"
    from oca.checks import dims as D
    r = D.run("quick")
    bad = {f.key for f in r.findings}
    cl = {}
    for k in sorted(r.cov.get("seen", [])):
        if k not in bad and k not in THRESHOLD:
            q, o = k.split(":", 1)
            cl.setdefault(q, []).append(o)
    json.dump({"claimed": cl, "options": OPTIONS, "vars": VARS, "literals": LITERALS}, open(OUT, "w"), indent=0)
    for f in r.findings:
        print(f.key, f.msg[:330])
    for a, b in r.undecided[:40]:
        print("UND", a[:90], b[:150])
    print(len(cl), "classes", sum(map(len, cl.values())), "outputs claimed;", len(bad), "not homogeneous")
