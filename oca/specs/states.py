"""C18/C15/C19: groups that integrate tagged rates, phases that time them, trajectories that link them (driven by stub models)"""
from .base import *
from .. import comp as K
from .missions import States, q
from .utilities import attrs

T = "ocastub.states."
BIG = 1e30


def nodes(*ns, **kw):
    def f(cls, tier):
        return [K.Config(None, dict(num_nodes=n, **k), f"nn={n} " + " ".join(f"{a}={b}" for a, b in k.items()))
                for n in (ns if tier == "quick" else ns + (5, 7)) for k in (kw.get("sets") or [{}])]
    return f


def cfgs(qual, *ns, sets=None):
    g = nodes(*ns, sets=sets)

    def f(cls, tier):
        L = g(cls, tier)
        for c in L:
            c.qual = T + qual
        return L
    return f


EXPECT = {
    # state: (rate variable, unit of the state, unit of the rate, initial guess, lower, upper, promoted)
    "fuel_burnt": ("burn", "kg", "kg/s", 3.0, -5.0, 20000.0, True),
    "heat": ("heating", "J", "W", 0.0, -BIG, BIG, False),
    "temp": ("warming", "K", "K/s", 290.0, -BIG, BIG, True),
    "dist": ("range_rate", "m", "m/s", 0.0, -BIG, BIG, True),
    "mass": ("minus_burn", "kg", "kg/s", 0.0, -BIG, BIG, True),
}


def integrated(s, where_rates, states):
    """every tagged output of the group's components is integrated under the name, unit, guess and bounds its tags give"""
    S_ = States(s)
    have = {o["name"]: (p, o) for p, o in S_.L if p == "ode_integ"}
    s.check("one state per tagged rate", sorted(have) == sorted(states), f"integrated states {sorted(have)}, tagged {sorted(states)}")
    for n in states:
        if n not in have:
            continue
        p, o = have[n]
        rate, u, ru, val, lo, up, prom = EXPECT[n]
        c = s.flat.comps[p]
        s.eq(f"rate of {n}", s.i(q(p, o["rate_name"]), ru), s.o(where_rates[rate], ru))
        for end in (n, n + "_final"):
            v = c.om.outputs.get(end)
            s.check(f"{end} is a result", v is not None, "missing")
            if v is None:
                continue
            s.check(f"unit of {end}", v.units is not None and U.compatible(v.units, u) and U.convert(1.0, v.units, u) == 1.0, f"{v.units} instead of {u}")
            s.eq(f"guess of {end}", v.val.a, np.broadcast_to(val, v.val.a.shape))
            s.eq(f"lower bound of {end}", bound_of(v.lower, -BIG), lo)
            s.eq(f"upper bound of {end}", bound_of(v.upper, BIG), up)
        s.check(f"start of {n}", n + "_initial" in c.om.inputs, "no initial value can be given")
        for nm in (n, n + "_final", n + "_initial"):
            # promoted: known at the boundary of the group under its own name
            top = promoted_name(s, q(p, nm))
            s.check(f"{nm} is {'promoted' if prom else 'kept inside'}", (top == nm) == prom, f"known to the group as '{top}'")


def bound_of(v, default):
    if v is None:
        return default
    a = v.a.reshape(-1) if isinstance(v, SArr) else [v]
    return a[0] if len(a) == 1 else np.asarray(a, dtype=object)


def promoted_name(s, a):
    """name under which the group knows the variable"""
    for prom, L in s.flat.scope["output"].items():
        if a in L:
            return prom
    for prom, L in s.flat.scope["input"].items():
        if any(x == a for x, _ in L):
            return prom
    return None


@law("C18", T + "States", kind="group", cfgs=cfgs("States", 1, 3, sets=[dict(extra=False), dict(extra=True), dict(extra=True, time_units="min")]))
def tagged_rates(s):
    st = ["fuel_burnt", "heat", "temp"] + (["dist"] if s.opt("extra") else [])
    integrated(s, {"burn": "burn", "heating": "rates.heating", "warming": "rates.warming", "range_rate": "rates.range_rate"}, st)


@law("C18", T + "TaggedProduct", kind="group", cfgs=cfgs("TaggedProduct", 1, 3))
def tagged_product(s):
    integrated(s, {"burn": "rates.burn", "heating": "rates.heating", "warming": "rates.warming", "minus_burn": "minus_burn"}, ["fuel_burnt", "heat", "temp", "mass"])
    s.eq("rate formed by promote_mult", s.o("minus_burn", "kg/s"), -2.5 * s.o("rates.burn", "kg/s"))


@law("C19", T + "Combined", kind="group", cfgs=cfgs("Combined", 1, 3))
def combined(s):
    a, b, c, d = s.o("rates.mass_a", "kg"), s.o("rates.mass_b", "kg"), s.o("mass_c", "kg"), s.o("mass_d", "kg")
    s.eq("sum with factors, inner sources first", s.o("total", "kg"), 2.0 * a - 3.0 * b + 0.5 * c - 0.25 * d, scale=1e-9)
    s.eq("plain sum", s.o("plain", "kg"), a + d)
    s.eq("promoted sources only", s.o("only_promoted", "kg"), c - d, scale=1e-9)
    s.eq("inner sources only", s.o("only_inner", "kg"), a + b)
    s.eq("scaled", s.o("scaled", "kg"), 4.5 * a)
    s.eq("other scaled", s.o("other_scaled", "kg"), -0.5 * s.o("copy.y", "kg"))
    for n, ex, u in (("total", dict(val=7.0, lower=-4.0, upper=900.0), "kg"), ("scaled", dict(val=6.0, lower=-3.0, upper=800.0), "kg"),
                     ("plain", dict(val=1.0), "lb"), ("only_inner", {}, "g"), ("other_scaled", {}, "lb")):
        v = s.flat.vars[s.flat.find(n)[1]][1]
        s.check(f"unit of {n}", v.units == u or (v.units is not None and U.compatible(v.units, u) and abs(U.convert(1.0, v.units, u) - 1.0) < 1e-12), f"{v.units} instead of {u}")
        if "val" in ex:
            s.eq(f"default of {n}", v.val.a, np.broadcast_to(ex["val"], v.val.a.shape))
        for k in ("lower", "upper"):
            if k in ex:
                s.eq(f"{k} of {n}", bound_of(getattr(v, k), np.nan), ex[k])


@law("C15", T + "Phase", kind="group", cfgs=cfgs("Phase", 1, 3, sets=[dict(extra=False), dict(extra=True)]), ivc=lambda p: False)
def phase_time(s):
    L = States(s).L
    paths = sorted({p for p, o in L})
    s.check("integrators found", len(paths) == 3, f"{paths}")
    for p in paths:
        s.eq(f"{p} runs over the duration of the phase", s.i(q(p, "duration"), "s"), s.o("duration", "s"))


LINKS = [("a", "b", ()), ("b", "c", ("two.ode_integ.heat", "one.ode_integ.fuel_burnt")), ("c", "d", ("deep.inner.ode_integ.temp",))]


def trajectory(s, pre):
    # a phase that nothing precedes starts from the values the user gives
    st = {}
    for p, o in States(s).L:
        rel = p[len(pre):]
        st.setdefault(rel.split(".")[0], {})[rel.split(".", 1)[1] + "." + o["name"]] = (p, o)
    s.check("states of the four phases", [len(st.get(x, {})) for x in "abcd"] == [9, 11, 11, 9], f"{[len(st.get(x, {})) for x in 'abcd']}")
    prev = {b: (a, skip) for a, b, skip in LINKS}
    for ph in "abcd":
        for n, (p, o) in sorted(st.get(ph, {}).items()):
            start = q(p, o["start_name"])
            src = s.flat.conn.get(start)
            src = src.src if src is not None else None
            a, skip = prev.get(ph, (None, ()))
            if a is None or n not in st[a] or n in skip:
                s.check(f"start of {ph}.{n} is left to the user", src is None, f"connected to {src}")
            else:
                pa, oa = st[a][n]
                s.check(f"{ph}.{n} continues from {a}", src == q(pa, oa["end_name"]), f"connected to {src}")


@law("C15", T + "Trajectory", kind="wiring", cfgs=cfgs("Trajectory", 3))
def linked(s):
    trajectory(s, "")


@law("C15", T + "Campaign", kind="wiring", cfgs=cfgs("Campaign", 3))
def linked_below(s):
    trajectory(s, "traj.")
