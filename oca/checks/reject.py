"""C20: unsupported configurations and guarded input values raise an error.

(setup) every entry of the table pairs unsupported settings with the nearest supported ones: construction, set-up and
abstract evaluation must end in an exception for the former and must not for the latter.
(guard) the conditions under which an abstract evaluation goes on (collected at every conditional raise) are compared with
the documented validity region of an input or output, element by element, on both sides of its border."""
import json
import os
from .common import *

NN = (3, 1, 5)


class Case:
    def __init__(self, name, qual, bad, good=None, driver=None, gdriver=None, args=(), gargs=None, evaluate=True, fn=None):
        self.name, self.qual, self.bad, self.good = name, qual, bad, good
        self.driver, self.gdriver, self.args, self.gargs = driver, gdriver, args, args if gargs is None else gargs
        self.evaluate, self.fn = evaluate, fn


def d(method, *a, **k):
    return C._d(method, *a, **k)


def cases():
    L = []
    M = "openconcept.utilities.math"

    def add(*a, **k):
        L.append(Case(*a, **k))
    names = ["a", "b", "c", "e"]
    A, P, V, SP = (f"{M}.{x}" for x in ("add_subtract_comp.AddSubtractComp", "multiply_divide_comp.ElementMultiplyDivideComp",
                                        "combine_split_comp.VectorConcatenateComp", "combine_split_comp.VectorSplitComp"))
    for n in (1, 2, 3, 4):
        ins = names[:n]
        for m in (n - 1, n + 1, n + 2):
            if m < 1:
                continue
            for via in ("init", "add"):
                def mk(q, kw, gkw, label, meth):
                    if via == "init":
                        add(f"{label} ({m} for {n} names)", q, kw, gkw)
                    else:
                        add(f"{label} ({m} for {n} names, {meth})", q, {}, {}, d(meth, **kw), d(meth, **gkw))
                base = dict(output_name="out", input_names=ins, vec_size=3)
                mk(A, dict(base, scaling_factors=[1.0] * m), dict(base, scaling_factors=[1.0] * n), "scaling factors", "add_equation")
                mk(A, dict(base, vec_size=[3] * m), dict(base, vec_size=[3] * n), "vector sizes", "add_equation")
                mk(P, dict(base, divide=[False] * m), dict(base, divide=[False] * n), "division flags", "add_equation")
                mk(P, dict(base, input_units=["kg"] * m), dict(base, input_units=["kg"] * n), "input units", "add_equation")
                mk(P, dict(base, vec_size=[3] * m), dict(base, vec_size=[3] * n), "vector sizes", "add_equation")
                base = dict(output_name="out", input_names=ins)
                mk(V, dict(base, vec_sizes=[2] * m), dict(base, vec_sizes=[2] * n), "vector sizes", "add_relation")
                base = dict(output_names=ins, input_name="x")
                mk(SP, dict(base, vec_sizes=[2] * m), dict(base, vec_sizes=[2] * n), "vector sizes", "add_relation")
    for bad in ([2, 3], [4, 3, 1], [3, 3, 2], [1, 2, 5]):
        ins = names[:len(bad)]
        good = [max(bad)] * len(bad)
        for q in (A, P):
            add(f"vector sizes {bad}", q, dict(output_name="out", input_names=ins, vec_size=bad), dict(output_name="out", input_names=ins, vec_size=good))
    for q, kw in ((A, dict(input_names=["a", "b"])), (P, dict(input_names=["a", "b"])), (V, dict(input_names=["a", "b"], vec_sizes=[1, 2]))):
        for bad in (["p", "q"], 5, 2.5):
            add(f"output_name={bad!r}", q, dict(kw, output_name=bad), dict(kw, output_name="p"))
    for bad in (["p", "q"], 5, 2.5):
        add(f"input_name={bad!r}", SP, dict(input_name=bad, output_names=["a", "b"], vec_sizes=[1, 2]), dict(input_name="x", output_names=["a", "b"], vec_sizes=[1, 2]))
    for miss in ("input_names", "vec_sizes"):
        kw = dict(output_name="o", input_names=["a", "b"], vec_sizes=[1, 2])
        add(f"{miss} missing", V, {k: v for k, v in kw.items() if k != miss}, kw)
        add(f"{miss} not a list (add_relation)", V, {}, {}, d("add_relation", **dict(kw, **{miss: None})), d("add_relation", **kw))
        add(f"{miss} a number (add_relation)", V, {}, {}, d("add_relation", **dict(kw, **{miss: 3})), d("add_relation", **kw))
    for miss in ("output_names", "vec_sizes"):
        kw = dict(input_name="o", output_names=["a", "b"], vec_sizes=[1, 2])
        add(f"{miss} missing", SP, {k: v for k, v in kw.items() if k != miss}, kw)
        add(f"{miss} not a list (add_relation)", SP, {}, {}, d("add_relation", **dict(kw, **{miss: None})), d("add_relation", **kw))
        add(f"{miss} a number (add_relation)", SP, {}, {}, d("add_relation", **dict(kw, **{miss: 3})), d("add_relation", **kw))
    for q in (A, P, V, SP):
        add("add_output used instead of the table method", q, {}, {}, d("add_output"), d("add_equation", "p", ["a"], 1) if q in (A, P) else d("add_relation", "p", ["a"], [1]) if q == V else d("add_relation", ["p"], "a", [1]))
    # ---- integration and differentiation
    I, O, F = f"{M}.integrals.Integrator", f"{M}.integrals.OldIntegrator", f"{M}.derivatives.FirstDerivative"
    q1 = d("add_integrand", "q", rate_name="dq", units="kg")
    for nn in (2, 4, 6, 10):
        for meth in ("simpson", "bdf3"):
            add(f"num_nodes={nn} {meth}", I, dict(num_nodes=nn, method=meth), dict(num_nodes=nn + 1 + 2 * (meth == "bdf3" and nn == 2), method=meth), q1, q1)
            for seg in (None, ["a", "b"]):
                add(f"num_nodes={nn} {meth} segments={seg}", O, dict(num_nodes=nn, method=meth, segment_names=seg), dict(num_nodes=nn + 1 + 2 * (meth == "bdf3" and nn == 2), method=meth, segment_names=seg))
    for nn in (1, 5):
        for ts in ("time", "DT", "", None, "dt,duration"):
            add(f"time_setup={ts!r} nn={nn}", I, dict(num_nodes=nn, time_setup=ts), dict(num_nodes=nn, time_setup="dt"), q1, q1)
            add(f"time_setup={ts!r} nn={nn}", O, dict(num_nodes=nn, time_setup=ts), dict(num_nodes=nn, time_setup="dt"))
    for ts in ("duration", "bounds", "time"):
        add(f"segments with time_setup={ts}", O, dict(num_nodes=5, time_setup=ts, segment_names=["a", "b"]), dict(num_nodes=5, time_setup="dt", segment_names=["a", "b"]))
    for meth in ("euler", "BDF3", "simpsons", "", None):
        add(f"method={meth!r}", I, dict(num_nodes=5, method=meth), dict(num_nodes=5, method="bdf3"), q1, q1)
        add(f"method={meth!r}", O, dict(num_nodes=5, method=meth), dict(num_nodes=5, method="bdf3"))
    for du in ("s", None):
        add(f"units and rate_units together (diff_units={du})", I, dict(num_nodes=5, diff_units=du), dict(num_nodes=5, diff_units=du),
            d("add_integrand", "q", rate_name="dq", units="kg", rate_units="kg/s"), d("add_integrand", "q", rate_name="dq", units="kg"))
    for order in (1, 3, 5, 6, None):
        for ni in (2, 4):
            add(f"order={order} intervals={ni}", F, dict(num_intervals=ni, order=order), dict(num_intervals=ni, order=2))
    for seg in (None, ["a", "b"]):
        add(f"order=4 with 1 interval segments={seg}", F, dict(num_intervals=1, order=4, segment_names=seg), dict(num_intervals=1, order=2, segment_names=seg))
    for f in ("first_deriv", "first_deriv_partials"):
        fq = f"{M}.derivatives.{f}"

        def call(nseg, ni, lq, ld, order):
            return lambda it: it.call(C.get_class(it, fq), [wrap(np.ones(ld)), wrap(np.arange(lq) * 1.0)], {"n_segments": nseg, "n_simpson_intervals_per_segment": ni, "order": order})
        for nseg, ni in ((1, 2), (2, 3), (3, 2)):
            n = nseg * (2 * ni + 1)
            ok = (nseg, ni, n, nseg, 4)
            for b, what in (((nseg, ni, n - 1, nseg, 4), "one value short"), ((nseg, ni, n + 1, nseg, 4), "one value too many"),
                            ((nseg, ni, n, nseg + 1, 4), "one step too many"), ((nseg, ni, n, nseg - 1, 4), "one step short"),
                            ((nseg, ni, n, nseg, 3), "order 3"), ((nseg, ni, n, nseg, 1), "order 1"), ((nseg, 1, nseg * 3, nseg, 4), "order 4 with one interval")):
                if b[3] < 1:
                    continue
                add(f"{nseg} segments, {ni} intervals: {what}", fq, None, None, fn=(call(*b), call(*ok)))
    # ---- other utilities
    add("no input names", "openconcept.utilities.selector.SelectorComp", dict(num_nodes=2, input_names=[]), dict(num_nodes=2, input_names=["A"]))
    D = "openconcept.utilities.dict_indepvarcomp.DictIndepVarComp"
    data = {"ac": {"geom": {"S": {"value": 2.0, "units": "m"}, "w": {"units": "m"}}, "v": {"value": 1.0}}}
    for nm in ("ac|geom|missing", "nope", "nope|S", "ac|S", "ac|geom|w", "ac|geom", "ac", "ac|v|value2"):
        add(f"entry {nm!r}", D, {}, {}, d("add_output_from_dict", nm), d("add_output_from_dict", "ac|geom|S"), args=(data,))

    # ---- missions
    for c in ("FullMissionWithReserve", "FullMissionAnalysis"):
        for t in ("bogus", "", "ODE", None):
            add(f"transition_method={t!r}", f"openconcept.mission.profiles.{c}", dict(num_nodes=3, aircraft_model=C.STUB, transition_method=t),
                dict(num_nodes=3, aircraft_model=C.STUB, transition_method="ode"))
    for t in ("bogus", "climb", None, ""):
        add(f"flight_phase={t!r}", "openconcept.mission.phases.GroundRollPhase", dict(num_nodes=3, aircraft_model=C.STUB, flight_phase=t),
            dict(num_nodes=3, aircraft_model=C.STUB, flight_phase="v0v1"))
    for c in ("BasicMission", "MissionWithReserve", "FullMissionAnalysis", "FullMissionWithReserve"):
        for nn in (2, 4):
            add(f"num_nodes={nn}", f"openconcept.mission.profiles.{c}", dict(num_nodes=nn, aircraft_model=C.STUB), dict(num_nodes=nn + 1, aircraft_model=C.STUB))
    for nn in (2, 4):
        for c, okp in (("GroundRollPhase", "v0v1"), ("RotationPhase", "rotate"), ("SteadyFlightPhase", "climb")):
            add(f"num_nodes={nn}", f"openconcept.mission.phases.{c}", dict(num_nodes=nn, aircraft_model=C.STUB, flight_phase=okp),
                dict(num_nodes=nn + 1, aircraft_model=C.STUB, flight_phase=okp))

    # ---- integrating groups and trajectories
    MG = "openconcept.mission.mission_groups."

    def top(q, **kw):
        return lambda it: OM.setup_top(it, C.construct(it, C.Config(q, kw, "")))
    for nn in (1, 3):
        add(f"integrated rate without state_name num_nodes={nn}", MG + "IntegratorGroup", None, None, fn=(top("ocastub.states.Unnamed", num_nodes=nn), top("ocastub.states.States", num_nodes=nn)))

    def link(qa, qb):
        def f(it):
            t = C.construct(it, C.Config(MG + "TrajectoryGroup", {}, ""))
            C.callm(it, t, "link_phases", *[C.construct(it, C.Config(x, dict(num_nodes=3) if "states" in x else {}, "")) for x in (qa, qb)])
        return f
    ph = "ocastub.states.Phase"
    for a, b in ((ph, "ocastub.states.States"), ("ocastub.states.States", ph), ("ocastub.states.Copy", "ocastub.states.Copy"), ("ocastub.states.Nested", ph)):
        add(f"link_phases({a.split('.')[-1]}, {b.split('.')[-1]})", MG + "TrajectoryGroup", None, None, fn=(link(a, b), link(ph, ph)))
    # ---- propulsion
    for nb in (2, 5, 6, 0):
        add(f"num_blades={nb}", "openconcept.propulsion.propeller.SimplePropeller", dict(num_nodes=3, num_blades=nb), dict(num_nodes=3, num_blades=4))
    for r in ("bogus", "Fixed", "", None, "fraction,fixed"):
        add(f"rule={r!r}", "openconcept.propulsion.splitter.PowerSplit", dict(num_nodes=3, rule=r), dict(num_nodes=3, rule="fixed"))
    for e in ("bogus", "n3", "CFM", None):
        add(f"engine={e!r}", "openconcept.propulsion.rubberized_turbofan.RubberizedTurbofan", dict(num_nodes=3, engine=e), dict(num_nodes=3, engine="CFM56"))
    # ---- wing geometry
    G = "openconcept.aerodynamics.openaerostruct.mesh_gen."
    for c in ("SectionPlanformMesh", "ThicknessChordRatioInterp", "SectionLinearInterp"):
        for ns in (1, 0, -1):
            add(f"num_sections={ns}", G + c, dict(num_sections=ns, num_y=4), dict(num_sections=2, num_y=4))
        for ns in (2, 3, 4):
            for m in (ns - 2, ns, ns + 1):
                if m > 0:
                    for ty in (list, tuple):
                        add(f"{m} entries of num_y ({ty.__name__}) for {ns} sections", G + c, dict(num_sections=ns, num_y=ty([2] * m)), dict(num_sections=ns, num_y=ty([2] * (ns - 1))))
    for c, kw in (("drag_polar.VLMDragPolar", {}),):
        for ny in ([2, 3], (4,), [5]):
            add(f"trapezoidal with num_y={ny}", f"openconcept.aerodynamics.openaerostruct.{c}", dict(num_nodes=1, geometry="trapezoidal", num_x=1, num_y=ny),
                dict(num_nodes=1, geometry="trapezoidal", num_x=1, num_y=4))

    # ---- training settings shared by all surrogate drag polars of a model: contradicting instances
    g = dict(Mach_train=np.array([0.2, 0.7]), alpha_train=np.array([-3.0, 2.0]), alt_train=np.array([0.0, 5000.0]))

    def pair(q, kw, a, b):
        def f(it):
            for so in (a, b):
                i = C.construct(it, C.Config(q, dict(kw, surf_options=so, **g), ""))
                OM.setup_top(it, i)
        return f
    for q, kw in (("openconcept.aerodynamics.openaerostruct.drag_polar.VLMDataGen", dict(num_x=1, num_y=2)),
                  ("openconcept.aerodynamics.openaerostruct.aerostructural.OASDataGen", dict(num_x=1, num_y=2, num_twist=2, num_toverc=2, num_skin=2, num_spar=2))):
        for a, b, what in (({"k": 1.0}, {"k": 2.0}, "other value"), ({"k": 1.0}, {"k": 1.0, "m": 2.0}, "additional key"), ({"k": 1.0, "m": 1.0}, {"k": 1.0}, "missing key"),
                           ({"k": 1.0}, {}, "no options after some"), ({}, {"k": 1.0}, "options after none"),
                           ({"k": np.array([1.0, 2.0])}, {"k": np.array([1.0, 2.5])}, "array with another value"), ({"k": "x"}, {"k": "y"}, "other text"),
                           ({"k": 1.0, "m": 3.0}, {"k": 2.0, "m": 3.0}, "first of two values differs"), ({"k": 1.0, "m": 3.0}, {"k": 1.0, "m": 4.0}, "second of two values differs")):
            add(f"second instance with different surf_options: {what}", q, None, None, fn=(pair(q, kw, a, b), pair(q, kw, a, a)))
    return L


# options restricted by a declared set of values, type or bound: values outside must be rejected
TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "declared.json")


def declared(cls):
    """{option: [values that must be rejected]} from the declarations of a class (used by tools/declared.py)"""
    it = C.new_interp()
    it.phase = "run"
    try:
        probe = it.instantiate(C.get_class(it, cls.qual), [], {})
    except InterpRaise:
        return {}
    o = probe.om.options
    out = {}
    for k in o.own:
        p = o.d[k]
        bad = []
        if p.values is not None:
            bad = ["no such value", 12345]
        elif p.types is not None:
            t = p.types if isinstance(p.types, tuple) else (p.types,)
            if str not in t:
                bad.append("text")
            if float not in t:
                bad.append(2.5)
        if isinstance(p.lower, (int, float)):
            bad.append(p.lower - 1)
        if isinstance(p.upper, (int, float)):
            bad.append(p.upper + 1)
        if bad:
            out[k] = bad
    return out


# ------------------------------------------------------------------ guards on values
class Guard:
    """evaluation must fail exactly when bad(value) holds for some element of `name` (io: input or output)"""

    def __init__(self, qual, kw, name, io, samples, why):
        self.qual, self.kw, self.name, self.io, self.samples, self.why = qual, kw, name, io, samples, why


def guards():
    T = "openconcept.thermal."
    nonpos = ([0.0, -1e-12, -0.3, -7.0, -1e6], [1e-9, 0.2, 3.0, 1e5])
    L = []
    for nn in NN:
        L.append(Guard(T + "manifold.FlowSplit", dict(num_nodes=nn), "mdot_split_fraction", "in", ([-1e-9, -0.2, -5.0, 1.0 + 1e-9, 1.5, 40.0], [0.0, 0.25, 0.5, 1.0]), "outside [0, 1]"))
        L.append(Guard(T + "heat_exchanger.OffsetStripFinData", dict(num_nodes=nn), "Re_dh_cold", "in", nonpos, "not positive"))
        L.append(Guard(T + "heat_exchanger.ConvectiveCoefficient", dict(num_nodes=nn), "h_conv_cold", "out:Nu_dh_cold", nonpos, "not positive"))
        L.append(Guard(T + "heat_exchanger.FinEfficiency", dict(num_nodes=nn), "h_conv_cold", "in", nonpos, "not positive"))
        L.append(Guard(T + "ducts.HeatAdditionPressureLoss", dict(num_nodes=nn), "mdot", "in", ([0.0, -1e-12, -0.3, -7.0], [1e-3, 0.2, 3.0]), "not positive"))
        L.append(Guard(T + "ducts.DuctExitMachNumber", dict(num_nodes=nn), "nozzle_pressure_ratio", "in", ([0.0, -1e-12, -0.3, -7.0], [1e-3, 0.2, 0.6, 0.99]), "not positive"))
        L.append(Guard(T + "ducts.HeatAdditionPressureLoss", dict(num_nodes=nn), "pt_out", "out:delta_p", ([1.01e8, 3e8, 1e10], [-1e5, 1.0, 9.9e7]), "above 1e8 Pa"))
        for names in (["A"], ["A", "B"], ["A", "B", "C"]):
            n = len(names)
            L.append(Guard("openconcept.utilities.selector.SelectorComp", dict(num_nodes=nn, input_names=names), "selector", "in",
                           ([-1.0, -0.6, -3.0, float(n), n - 0.4, n + 4.0], [float(i) for i in range(n)] + [n - 1 + 0.3, -0.3]), f"outside [0, {n})"))
    return L


def run_case(case, good, r):
    """None if accepted, else the exception; raises Undecided"""
    try:
        if case.fn is not None:
            it = C.new_interp()
            it.phase = "run"
            case.fn[1 if good else 0](it)
            return None
        kw = case.good if good else case.bad
        it, inst = C.build(C.Config(case.qual, kw, "", case.gdriver if good else case.driver, case.gargs if good else case.args))
        if case.evaluate and inst.om.kind in ("explicit", "implicit") and isinstance(it.find_method(inst.cls, "compute"), FuncObj):
            C.run_eval(it, inst, partials=False)
        return None
    except InterpRaise as e:
        return e
    except OM.PromErr as e:
        return e


def _task(i, tier):
    r = Result()
    c = cases()[i]
    key = f"{c.qual}:{c.name}"
    try:
        res = run_case(c, False, r)
        ok = run_case(c, True, r)
    except (Undecided, RecursionError) as e:
        r.und(key, str(e))
        return r
    r.count("settings_checked")
    if ok is not None:
        r.und(key, f"the supported counterpart raises {getattr(ok, 'exc', ok)} at {loc_text(getattr(ok, 'loc', None))}")
        return r
    r.count("supported_counterparts_accepted")
    if res is None:
        r.add(f"{key}:accepted", f"{c.qual.split('.')[-1]}: {c.name} is unsupported but is accepted without an error", c.qual, "unsupported-accepted")
    return r


def _declared(qual, bads, tier):
    r = Result()
    cls = C.Cls()
    cls.qual, cls.name = qual, qual.split(".")[-1]
    for k, vs in bads.items():
        for v in vs:
            try:
                it = C.new_interp()
                it.phase = "run"
                inst = it.instantiate(C.get_class(it, qual), [], {})
                if k not in inst.om.options.d:
                    continue
                r.count("declared_restrictions")
                try:
                    it2 = C.new_interp()
                    it2.phase = "run"
                    it2.instantiate(C.get_class(it2, qual), [], {k: v})
                except InterpRaise:
                    continue
                except Undecided as e:
                    r.und(f"{qual}.{k}", str(e))
                    continue
                # not rejected at construction: the set-up has to do it
                a = C.option_alternatives(cls, "quick") if cls.name not in C.DRIVERS else {}
                kw = {q: x[0] for q, x in a.items() if not isinstance(x[0], E)}
                kw[k] = v
                if run_case(Case("", qual, kw), False, r) is None:
                    r.add(f"{qual}:option {k}={v!r}", f"option '{k}' of {cls.name} accepts {v!r}, which its declaration excludes", qual, "declared-restriction")
            except InterpRaise as e:
                r.und(f"{qual}.{k}", f"raises {e.exc}")
            except Undecided as e:
                r.und(f"{qual}.{k}", str(e))
    return r


def _guard(i, tier):
    r = Result()
    g = guards()[i]
    key = f"{g.qual}:{g.name}"
    rng = np.random.default_rng(seed_of("C20", g.qual, g.name, i))
    lab = ", ".join(f"{k}={v!r}" for k, v in g.kw.items())
    try:
        it, inst = C.build(C.Config(g.qual, g.kw, lab))
        ev = C.run_eval(it, inst, partials=False)
    except InterpRaise as e:
        r.und(f"{key} [{lab}]", f"raises {e.exc}")
        return r
    except (Undecided, OM.PromErr) as e:
        r.und(f"{key} [{lab}]", str(e))
        return r
    conds = [c for c, x, l in it.guards]
    roots = [e for a in ev.outs.values() for e in a.reshape(-1) if isinstance(e, E)]
    vals, n, st = S.points(roots, conds, ev.known, rng, want=12)
    if not n or vals is None:
        r.und(f"{key} [{lab}]", "no admissible sample point")
        return r
    via = g.name if g.io == "in" else g.io.split(":")[1]
    if via not in ev.ins:
        r.und(f"{key} [{lab}]", f"input '{via}' not found")
        return r
    syms = [e.id for e in ev.ins[via].a.reshape(-1)]
    r.count("guards")
    for bad, S_ in ((True, g.samples[0]), (False, g.samples[1])):
        for el, sid in enumerate(syms):
            for x in S_:
                v = {s: a.copy() for s, a in vals.items()}
                v.setdefault(sid, np.ones(n))
                for s in syms:
                    v.setdefault(s, np.ones(n))
                if g.io == "in":
                    v[sid] = np.full(n, x, dtype=v[sid].dtype)
                else:
                    # the output is affine in this input: solve for the value that gives x
                    o = ev.outs[g.name].reshape(-1)[el]
                    z = []
                    for t in (0.0, 1.0):
                        w = dict(v)
                        w[sid] = np.full(n, t, dtype=v[sid].dtype)
                        z.append(X.evaluate([o], w, n)[o.id])
                    v[sid] = (x - z[0]) / (z[1] - z[0])
                memo = X.evaluate(conds, v, n) if conds else {}
                passed = np.ones(n, bool)
                for c in conds:
                    passed &= np.asarray(memo[c.id]).astype(bool)
                r.count("guard_points", n)
                if bad and passed.any():
                    r.add(f"{key}:not rejected", f"{g.qual.split('.')[-1]} goes on with {g.name}[{el}] = {x:g} ({g.why}) [config {lab}]", method_line(it, inst, "compute"), "guard-missing")
                    break
                if not bad and not passed.all():
                    r.add(f"{key}:valid value rejected", f"{g.qual.split('.')[-1]} raises an error for the valid {g.name}[{el}] = {x:g} [config {lab}]", method_line(it, inst, "compute"), "guard-too-wide")
                    break
    return r


def _job(kind, i, tier):
    if kind == "case":
        return _task(i, tier)
    if kind == "guard":
        return _guard(i, tier)
    return _declared(i[0], i[1], tier)


def _batch(jobs, tier):
    r = Result()
    for k, i in jobs:
        r.merge(_job(k, i, tier))
    return r


def run(tier, only=None):
    cs, gs = cases(), guards()
    tab = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    jobs = [("case", i) for i, c in enumerate(cs) if not only or only in c.qual]
    jobs += [("guard", i) for i, g in enumerate(gs) if not only or only in g.qual]
    jobs += [("decl", (q, b)) for q, b in tab.items() if not only or only in q]
    n = 16
    return pmap(_batch, [(jobs[k::n * 4], tier) for k in range(n * 4)], limit=240 if tier == "quick" else 800)
