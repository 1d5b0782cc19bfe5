"""Component configurations and abstract evaluation of components."""
import ast
import itertools
import os
import re
import numpy as np
from . import expr as X
from .expr import E
from .values import *
from .interp import Interp, InterpRaise, Undecided
from . import interp as IP
from . import om as OM
from . import npmodel as NP
from .sample import Meta

ROOT = os.environ.get("OCA_ROOT", "/repo")


def all_modules(examples=True):
    out = []
    base = os.path.join(ROOT, "openconcept")
    for d, ds, fs in os.walk(base):
        ds.sort()
        parts = os.path.relpath(d, base).split(os.sep)
        if "tests" in parts or (not examples and "examples" in parts):
            continue
        for f in sorted(fs):
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(d, f), ROOT)[:-3].replace(os.sep, ".")
                out.append(n[:-9] if n.endswith(".__init__") else n)
    return out


class Cls:
    __slots__ = ("qual", "module", "name", "kind", "path", "line", "doc")


def discover(examples=False):
    """all OpenMDAO system classes of the repository"""
    it = new_interp()
    for m in all_modules(examples):
        it.load(m)
    out = {}
    for n, m in it.modules.items():
        for k, v in m.ns.items():
            if isinstance(v, ClsObj) and v.module == n:
                nat = v.native()
                if nat is None:
                    continue
                kind = {"ExplicitComponent": "explicit", "ImplicitComponent": "implicit", "Group": "group"}.get(nat.name)
                if kind is None:
                    kind = {"IndepVarComp": "ivc", "BalanceComp": "implicit", "ExecComp": "exec"}.get(nat.name, nat.name)
                c = Cls()
                c.qual, c.module, c.name, c.kind = v.qual, n, v.name, kind
                c.path = m.path
                c.line = v.node.lineno
                c.doc = ast.get_docstring(v.node) or ""
                out[v.qual] = c
    return out, it


def new_interp():
    return Interp(ROOT)


def rel(path):
    return os.path.relpath(path, ROOT)


# ---------------------------------------------------------------- configurations
class Config:
    def __init__(self, qual, kw=None, label="", driver=None, args=(), generic=False):
        self.generic = generic
        self.qual = qual
        self.kw = kw or {}
        self.args = args
        self.driver = driver
        self.label = label

    def __repr__(self):
        return f"{self.qual.split('.')[-1]}({self.label})"


def get_class(it, qual):
    mod, name = qual.rsplit(".", 1)
    m = it.load(mod)
    if m is None or name not in m.ns:
        raise Undecided(f"class {qual} not found")
    return m.ns[name]


class ClassRef:
    """class-valued argument, resolved in the interpreter that builds the configuration"""

    def __init__(self, qual):
        self.qual = qual

    def __repr__(self):
        return self.qual.split(".")[-1]


STUB = ClassRef("ocastub.aircraft.StubAircraft")


def deep(v):
    """fresh copy of a user-supplied argument value"""
    if isinstance(v, list):
        return [deep(x) for x in v]
    if isinstance(v, tuple):
        return tuple(deep(x) for x in v)
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return wrap(v.copy())
    if isinstance(v, SArr):
        return SArr(v.a.copy(), v.kind)
    return v


def construct(it, cfg, protect=True):
    X.GENERIC = cfg.generic
    cls = get_class(it, cfg.qual)
    kw = {k: get_class(it, v.qual) if isinstance(v, ClassRef) else deep(v) for k, v in cfg.kw.items()}
    args = [deep(v) for v in cfg.args]
    if protect:
        for k, v in kw.items():
            if isinstance(v, (list, dict, SArr)):
                it.protect_obj(v, f"user-supplied argument '{k}'")
        for v in args:
            if isinstance(v, (list, dict, SArr)):
                it.protect_obj(v, "user-supplied argument")
    inst = it.instantiate(cls, args, kw)
    if cfg.driver is not None:
        cfg.driver(it, inst)
    return inst


def callm(it, inst, name, *a, **k):
    m = it.find_method(inst.cls, name)
    return it.call(Bound(m, inst), list(a), k)


def build(cfg, setup=True):
    it = new_interp()
    it.phase = "run"
    inst = construct(it, cfg)
    if setup:
        OM.setup_top(it, inst)
    return it, inst


def sym_option(name):
    return X.sym(f"opt:{name}")


def string_candidates(it, cls):
    """string literals the class compares something against"""
    out = []
    for m in cls.mro:
        if isinstance(m, ClsObj):
            for n in ast.walk(m.node):
                if isinstance(n, ast.Compare):
                    for c in [n.left] + n.comparators:
                        for k in ([c] if isinstance(c, ast.Constant) else (c.elts if isinstance(c, (ast.List, ast.Tuple, ast.Set)) else [])):
                            if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value not in out:
                                out.append(k.value)
    return out


def size_thresholds(cls):
    """numbers of points at which the class may change its way of computing: one more than each whole constant that a length is compared,
    divided or stepped by (the standard sizes stay below them)"""
    nodes, trees = [], {}
    for m in cls.mro:
        if isinstance(m, ClsObj) and str(m.module).startswith("openconcept"):
            nodes.append(m.node)
            f = os.path.join(ROOT, *str(m.module).split("."))
            trees[m.module] = IP.parse_file(f + ".py" if os.path.exists(f + ".py") else os.path.join(f, "__init__.py"))
            names = {n.func.id for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
            nodes += [n for n in trees[m.module].body if isinstance(n, ast.FunctionDef) and n.name in names]
    sized = set()

    def is_size(n):
        for k in ast.walk(n):
            if isinstance(k, ast.Name) and (k.id in sized or k.id in ("nn", "num_nodes", "vec_size")):
                return True
            if isinstance(k, ast.Attribute) and k.attr in ("size", "shape", "num_nodes"):
                return True
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == "len":
                return True
            if isinstance(k, ast.Constant) and k.value in ("num_nodes", "vec_size"):
                return True
        return False
    out = set()
    for root in nodes:
        for n in ast.walk(root):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and is_size(n.value):
                sized.add(n.targets[0].id)
    const = {}
    for root in nodes:
        for n in ast.walk(root):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and isinstance(n.value, ast.Constant) and type(n.value.value) is int:
                const[getattr(n.targets[0], "id", getattr(n.targets[0], "attr", None))] = n.value.value
    for t in trees.values():
        for n in t.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) and type(n.value.value) is int:
                const.setdefault(n.targets[0].id, n.value.value)

    def ints(n):
        for k in ast.walk(n):
            v = k.value if isinstance(k, ast.Constant) else const.get(getattr(k, "id", getattr(k, "attr", None))) if isinstance(k, (ast.Name, ast.Attribute)) else None
            if type(v) is int and 5 <= v <= 130:
                out.add(v + 1)
    for root in nodes:
        for n in ast.walk(root):
            if isinstance(n, ast.Compare) and any(is_size(c) for c in [n.left] + n.comparators):
                for c in [n.left] + n.comparators:
                    ints(c)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)) and is_size(n.left):
                ints(n.right)
            elif isinstance(n, ast.Call) and getattr(n.func, "id", "") == "range" and len(n.args) == 3:
                ints(n.args[2])
            elif isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("min", "max", "divmod", "array_split", "minimum") and any(is_size(a) for a in n.args):
                for a in n.args:
                    ints(a)
            elif isinstance(n, ast.Slice):
                for a in (n.lower, n.upper):
                    if isinstance(a, (ast.Constant, ast.Name, ast.Attribute)):
                        ints(a)
    return sorted(out)[:2]


EXTRA = {
    "num_blades": [3, 4], "idx_sec_end": [1], "n_batteries": [2], "num_y": [5], "flight_phase": [], "segment_names": [],
}
SPECIAL_VALUES = {
    ("*", "num_sections"): [2, 3, 4],
    ("*", "num_x"): [2, 3],
    ("*", "num_y"): [4, 5, 6, 7],
    ("WingSweepFromSections", "idx_sec_start"): [0, 1], ("WingSweepFromSections", "idx_sec_end"): [None, 1, 2],
    ("WingAreaFromSections", "idx_sec_start"): [0, 1], ("WingAreaFromSections", "idx_sec_end"): [None, 1, 2],
    ("WingMACFromSections", "idx_sec_start"): [0, 1], ("WingMACFromSections", "idx_sec_end"): [None, 1, 2],
    ("WaveDragFromSections", "idx_sec_start"): [0, 1], ("WaveDragFromSections", "idx_sec_end"): [None, 1, 2],
    ("TurbopropOperatingCost", "n_components"): [1, 3], ("TurbopropOperatingCost", "n_batteries"): [None, 1, 2],
    ("*", "units"): [None, "kg"],
}
PHASES = {
    ("GroundRollPhase", "flight_phase"): ["v0v1", "v1vr", "v1v0"], ("RotationPhase", "flight_phase"): ["rotate"],
    ("RobustRotationPhase", "flight_phase"): ["rotate"], ("SteadyFlightPhase", "flight_phase"): ["climb", "cruise"],
    ("ClimbAnglePhase", "flight_phase"): ["EngineOutClimbAngle", "AllEngineClimbAngle"],
    ("FullMissionWithReserve", "transition_method"): ["simplified", "ode"], ("FullMissionAnalysis", "transition_method"): ["simplified", "ode"],
}
MISSIONS = ("FullMissionWithReserve", "MissionWithReserve", "BasicMission", "FullMissionAnalysis")
PHASE_NN = {k: [3, 5, 7] for k in ("GroundRollPhase", "RotationPhase", "SteadyFlightPhase", "IntegratorGroup", "PhaseGroup") + MISSIONS}
PHASE_NN["RobustRotationPhase"] = [3, 1, 5]
PHASE_NN["ClimbAnglePhase"] = [1, 3]


# combinations that only make sense together
TOGETHER = {
    "VLMDragPolar": [dict(geometry="section", num_y=[2, 3], num_sections=3), dict(geometry="section", num_y=[3, 1, 2], num_sections=4, num_nodes=2),
                     dict(geometry="section", num_y=4, num_sections=3), dict(geometry="mesh", num_y=7, num_x=3)],
}


def option_alternatives(cls, tier):
    """{option: [alternative values]}, first value = base. Float options become symbols."""
    it = new_interp()
    it.phase = "run"
    c = get_class(it, cls.qual)
    probe = it.instantiate(c, [], {})
    alts = {}
    o = probe.om.options
    strs = string_candidates(it, c)
    for k in o.own:
        p = o.d[k]
        d = p.default if p.isset else None
        sp = SPECIAL_VALUES.get((cls.name, k)) or SPECIAL_VALUES.get(("*", k))
        if k == "aircraft_model":
            alts[k] = [STUB]
        elif (cls.name, k) in PHASES:
            alts[k] = list(PHASES[(cls.name, k)])
        elif k in ("num_nodes", "vec_size") and cls.name in PHASE_NN:
            alts[k] = list(PHASE_NN[cls.name])
        elif k in ("num_nodes", "vec_size"):
            alts[k] = ([3, 1, 2, 5] if tier == "quick" else [3, 1, 2, 4, 5, 7]) + size_thresholds(c)
            if k == "num_nodes" and isinstance(d, int) and d >= 5 and False:
                alts[k] = [5]
        elif sp is not None:
            alts[k] = list(sp)
        elif p.values is not None:
            vs = list(p.values)
            if p.isset and d in vs:
                vs.remove(d)
                vs.insert(0, d)
            alts[k] = vs
        elif isinstance(d, bool):
            alts[k] = [d, not d]
        elif isinstance(d, float):
            alts[k] = [sym_option(k)]
        elif isinstance(d, int):
            s = sym_option(k)
            try:
                kw = {k: s}
                if "num_nodes" in o.d and k != "num_nodes":
                    kw["num_nodes"] = 3
                it2, i2 = build(Config(cls.qual, kw))
                run_eval(it2, i2)
                alts[k] = [s]
            except Exception:
                alts[k] = [d] + [x for x in (1, 2, 3, d + 2) if x != d]
        elif isinstance(d, str):
            alts[k] = [d] + [s for s in strs if s != d]
        elif isinstance(d, SArr) or isinstance(d, (list, tuple, dict)):
            alts[k] = [d]
        elif d is None and p.isset:
            alts[k] = [None]
        else:
            alts[k] = [d]
    return alts


def opt_label(k, v):
    if isinstance(v, E):
        return f"{k}=*"
    if isinstance(v, SArr):
        return f"{k}=[..]"
    return f"{k}={v!r}"


def enumerate_configs(cls, tier, cap=None):
    """list of Config for a component class (generic part)"""
    cap = cap or (24 if tier == "quick" else 120)
    if cls.name in DRIVERS:
        L = list(DRIVERS[cls.name](cls, tier))
        one = [c for c in L if type(c.kw.get("num_nodes")) is int]
        for t in (size_thresholds(get_class(new_interp(), cls.qual)) if one else ()):
            L.append(Config(one[0].qual, dict(one[0].kw, num_nodes=t), f"{one[0].label} with {t} points"))
        return L
    alts = option_alternatives(cls, tier)
    keys = [k for k in alts if len(alts[k]) > 1]
    base = {k: v[0] for k, v in alts.items()}
    seen = set()
    cfgs = []

    def addc(kw):
        lab = ", ".join(opt_label(k, kw[k]) for k in kw if k in keys or isinstance(kw[k], E))
        if lab in seen:
            return
        seen.add(lab)
        cfgs.append(Config(cls.qual, kw, lab))
    prod = 1
    for k in keys:
        prod *= len(alts[k])
    addc(dict(base))
    for kw in TOGETHER.get(cls.name, ()):
        addc(dict(base, **kw))
    for k in keys:
        for v in alts[k][1:]:
            kw = dict(base)
            kw[k] = v
            addc(kw)
    if prod <= cap:
        for combo in itertools.product(*[alts[k] for k in keys]):
            kw = dict(base)
            kw.update(zip(keys, combo))
            addc(kw)
    else:
        for a, b in itertools.combinations(keys, 2):
            for va in alts[a][1:]:
                for vb in alts[b][1:]:
                    if len(cfgs) >= cap:
                        break
                    kw = dict(base)
                    kw[a], kw[b] = va, vb
                    addc(kw)
    # also the declared defaults as they are
    dk = {k: v for k, v in base.items() if not isinstance(v, E)}
    if any(isinstance(v, E) for v in base.values()):
        addc(dk)
    return cfgs[:max(cap, 1 + sum(len(alts[k]) - 1 for k in keys)) + 1]


# ---------------------------------------------------------------- evaluation
class Ev:
    """result of the abstract evaluation of one component configuration"""

    def __init__(self):
        self.ins = {}
        self.outs = {}
        self.res = None
        self.J = None
        self.subs = None
        self.known = {}
        self.events = []
        self.assumptions = []
        self.errors = []
        self.out_assumptions = []


def in_syms(inst, tag=""):
    ins = {}
    for k, v in inst.om.inputs.items():
        if v.shape is None:
            raise Undecided(f"dynamic shape of {k}")
        a = np.empty(v.shape, dtype=object)
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = X.sym(f"{tag}{k}[{i}]")
        ins[k] = SArr(f.reshape(v.shape), "f", Root(f"input '{k}'"))
    return ins


def out_syms(inst, pre):
    outs = {}
    for k, v in inst.om.outputs.items():
        if v.shape is None:
            raise Undecided(f"dynamic shape of {k}")
        f = np.empty(v.size, dtype=object)
        for i in range(f.size):
            f[i] = X.sym(f"{pre}{k}[{i}]")
        outs[k] = SArr(f.reshape(v.shape), "f")
    return outs


def known_meta(inst, tag=""):
    known = {}
    for io, V in (("in", inst.om.inputs), ("out", inst.om.outputs)):
        for k, v in V.items():
            if v.shape is None:
                continue
            fl = v.val.a.reshape(-1) if isinstance(v.val, SArr) else np.array([1.0] * v.size, dtype=object)
            for i in range(v.size):
                d = fl[i]
                d = float(d) if not isinstance(d, E) and d is not None else 1.0
                known[f"{tag}{k}[{i}]"] = Meta(d, v.units, k, "in")
    o = inst.om.options
    for k in o.own if hasattr(o, "own") else o.d:
        p = o.d[k]
        if isinstance(p.default, (int, float)) and not isinstance(p.default, bool):
            known[f"opt:{k}"] = Meta(float(p.default), None, k, "opt", p.lower if isinstance(p.lower, (int, float)) else None,
                                     p.upper if isinstance(p.upper, (int, float)) else None)
    return known


def has_method(it, inst, name):
    return it.find_method(inst.cls, name) is not None


def run_eval(it, inst, partials=True, tag="", outpre="out:", stale="0", solve=False):
    """evaluate outputs/residuals and partials symbolically"""
    ev = Ev()
    ev.it, ev.inst = it, inst
    ev.kind = inst.om.kind
    ev.known = known_meta(inst, tag)
    ins = in_syms(inst, tag)
    ev.ins = ins
    e0 = len(it.events)
    if inst.om.kind == "implicit":
        outs = out_syms(inst, tag)      # states are inputs of the residual
        for k, v in outs.items():
            v.root.tag = f"state '{k}'"
        res = out_syms(inst, "res:")
        vr = OM.Vec("residual", res, True)
        vi = OM.Vec("input", ins, False)
        vo = OM.Vec("output", outs, False)
        ev.vo, ev.vr, ev.vi = vo, vr, vi
        if has_method(it, inst, "apply_nonlinear"):
            callm(it, inst, "apply_nonlinear", vi, vo, vr)
        ev.outs = {k: v.a for k, v in res.items()}
        ev.states = outs
    else:
        outs = out_syms(inst, outpre)
        vi = OM.Vec("input", ins, False)
        vo = OM.Vec("output", outs, True)
        ev.vi, ev.vo = vi, vo
        callm(it, inst, "compute", vi, vo)
        ev.outs = {k: v.a.copy() for k, v in outs.items()}
    ev.out_assumptions = list(it.assumptions)
    if partials:
        ev.subs = OM.resolve_partials(it, inst, stale)
        J = OM.Jac(ev.subs)
        ev.jac = J
        ev.has_partials = False
        if inst.om.kind == "implicit":
            if has_method(it, inst, "linearize"):
                ev.has_partials = True
                callm(it, inst, "linearize", vi, vo, J)
        elif has_method(it, inst, "compute_partials"):
            ev.has_partials = True
            callm(it, inst, "compute_partials", vi, J)
        ev.J = OM.partials_result(ev.subs)
    ev.assumptions = list(it.assumptions)
    ev.events = it.events[e0:]
    return ev


# ---------------------------------------------------------------- drivers for utilities with table-like arguments
def _d(method, *a, **k):
    def f(it, inst):
        callm(it, inst, method, *[deep(x) for x in a], **{q: deep(v) for q, v in k.items()})
    return f


def _seq(*fs):
    def f(it, inst):
        for g in fs:
            g(it, inst)
    return f


def drv_addsub(cls, tier):
    q = cls.qual
    C = []
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"], vec_size=3, units="kg"), "2in vec3"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b", "c"], scaling_factors=[2.0, -3.0, 0.5], vec_size=2, length=3, units="ft"), "3in scaled vec2 len3"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b", "c"], vec_size=[1, 4, 1], scaling_factors=[-1, 1, 4], units="m"), "mixed vec sizes"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"], vec_size=[4, 1], length=2, scaling_factors=[3.0, -2.0]), "mixed vec sizes len2"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"]), "scalar default"))
    C.append(Config(q, {}, "two equations", _seq(
        _d("add_equation", "p", ["a", "b"], vec_size=2, units="kg", scaling_factors=[1.0, -1.0]),
        _d("add_equation", "q", ["d", "c"], vec_size=2, units="kg", scaling_factors=[5.0, 2.0]))))
    C.append(Config(q, dict(output_name="o1", input_names=["a", "b"], vec_size=1, length=3, scaling_factors=[1.0, 7.0]), "len3"))
    C.append(Config(q, dict(output_name="out", input_names="alone", vec_size=2, scaling_factors=[-3.0]), "one name"))
    return C


def drv_muldiv(cls, tier):
    q = cls.qual
    C = []
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"], vec_size=3, input_units=["kg", "m"]), "2in"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b", "c"], vec_size=3, scaling_factor=-2.5, divide=[False, True, False], input_units=["kg", "s", None]), "3in scaled divide"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b", "c"], vec_size=[3, 1, 3], scaling_factor=2, divide=[True, True, False], input_units=["kg", "s", "m"]), "mixed sizes"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b", "c"], vec_size=[1, 4, 1], divide=[True, False, True], input_units=[None, "s", "m"]), "mixed sizes 2"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"], vec_size=2, length=3, divide=[False, True], input_units=["kg", "m"]), "len3"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"], vec_size=[1, 2], length=3, scaling_factor=3.0, input_units=["kg", "m"]), "mixed len3"))
    C.append(Config(q, dict(output_name="out", input_names=["a"], divide=[True]), "reciprocal"))
    C.append(Config(q, dict(output_name="out", input_names="alone", vec_size=2, scaling_factor=-3.0, input_units=["m"]), "one name"))
    C.append(Config(q, {}, "two equations", _seq(
        _d("add_equation", "p", ["a", "b"], vec_size=2, input_units=["kg", "s"], divide=[False, True]),
        _d("add_equation", "r", ["d", "c"], vec_size=2, input_units=["s", "m"], scaling_factor=4.0))))
    return C


def drv_concat(cls, tier):
    q = cls.qual
    C = []
    C.append(Config(q, dict(output_name="out", input_names=["a", "b", "c"], vec_sizes=[2, 3, 1], units="kg"), "3in"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"], vec_sizes=[2, 3], length=2, units="ft"), "len2"))
    C.append(Config(q, dict(output_name="out", input_names=["a", "b"], vec_sizes=[1, 1]), "scalars"))
    C.append(Config(q, dict(output_name="out", input_names="alone", vec_sizes=[3], length=2), "one name"))
    C.append(Config(q, {}, "two relations", _seq(
        _d("add_relation", "p", ["a", "b"], [2, 3], units="m"), _d("add_relation", "q", ["c", "d"], [3, 2], units="m"))))
    return C


def drv_split(cls, tier):
    q = cls.qual
    C = []
    C.append(Config(q, dict(output_names=["a", "b", "c"], input_name="x", vec_sizes=[2, 3, 1], units="kg"), "3out"))
    C.append(Config(q, dict(output_names=["a", "b"], input_name="x", vec_sizes=[2, 3], length=2, units="ft"), "len2"))
    C.append(Config(q, dict(output_names=["a", "b"], input_name="x", vec_sizes=[1, 1]), "scalars"))
    C.append(Config(q, dict(output_names="alone", input_name="x", vec_sizes=[3], length=2), "one name"))
    C.append(Config(q, {}, "two relations", _seq(
        _d("add_relation", ["a", "b"], "x", [2, 3], units="m"), _d("add_relation", ["c", "d"], "y", [3, 2], units="s"))))
    return C


def drv_integrator(cls, tier):
    q = cls.qual
    C = []
    nns = [5, 3, 7, 1] if tier == "quick" else [3, 5, 7, 9, 11, 1]
    for nn in nns:
        for method in ("bdf3", "simpson"):
            for ts in ("dt", "duration", "bounds"):
                for var in (0, 1, 2, 3, 4):
                    if tier == "quick" and var in (1, 3) and nn != 5:
                        continue
                    ints = {0: [("q", dict(rate_name="dqdt", units="kg"))],
                            1: [("q", dict(rate_name="dqdt", units="kg", zero_start=True))],
                            2: [("q", dict(rate_name="dqdt", units="kg", start_name="q_i", end_name="q_f", start_val=3.0)),
                                ("r", dict(rate_name="drdt", units="m", zero_start=True))],
                            3: [("q", dict(rate_name="dqdt", units="kg", final_only=True))],
                            4: [("q", dict(rate_name="dqdt", units="kg", final_only=True, zero_start=True)), ("r", dict(rate_name="drdt"))]}[var]
                    drv = _seq(*[_d("add_integrand", n, **kw) for n, kw in ints])
                    C.append(Config(q, dict(num_nodes=nn, method=method, time_setup=ts, diff_units="s"), f"nn={nn} {method} {ts} v{var}", drv))
    return C


def drv_oldintegrator(cls, tier):
    q = cls.qual
    C = []
    nns = [5, 3] if tier == "quick" else [3, 5, 7, 9]
    for nn in nns:
        for method in ("bdf3", "simpson"):
            for ts in ("dt", "duration", "bounds"):
                for zs in (False, True):
                    for fo in (False, True):
                        C.append(Config(q, dict(num_nodes=nn, method=method, time_setup=ts, zero_start=zs, final_only=fo, quantity_units="kg", diff_units="s"),
                                        f"nn={nn} {method} {ts} zs={zs} fo={fo}"))
        for method in ("bdf3", "simpson"):
            for zs in (False, True):
                for cnt in (None, ["b"], ["a", "c"]):
                    kw = dict(num_nodes=nn, method=method, segment_names=["a", "b", "c"], zero_start=zs, quantity_units="kg", diff_units="s", final_only=(cnt == ["b"]))
                    if cnt:
                        kw["segments_to_count"] = cnt
                    C.append(Config(q, kw, f"nn={nn} {method} segs zs={zs} count={cnt}"))
    return C


def drv_firstderiv(cls, tier):
    q = cls.qual
    C = []
    for order in (4, 2):
        for ni in ((5, 4, 2, 8) if tier == "quick" else (2, 3, 4, 5, 6, 8, 9)):
            C.append(Config(q, dict(num_intervals=ni, order=order, quantity_units="m", diff_units="s"), f"order={order} ni={ni}"))
            C.append(Config(q, dict(num_intervals=ni, order=order, segment_names=["a", "b"], quantity_units="m"), f"order={order} ni={ni} 2seg"))
            if ni in (4, 5):
                C.append(Config(q, dict(num_intervals=ni, order=order, segment_names=["a", "b", "c"], diff_units="s"), f"order={order} ni={ni} 3seg"))
    return C


def drv_selector(cls, tier):
    q = cls.qual
    return [Config(q, dict(num_nodes=3, input_names=["A", "B", "C"], units="g"), "3 inputs nn3"),
            Config(q, dict(num_nodes=1, input_names=["A", "B"]), "2 inputs nn1"),
            Config(q, dict(num_nodes=2, input_names=["A"], units="m"), "1 input nn2"),
            Config(q, dict(num_nodes=5, input_names=["A", "B", "C", "D"]), "4 inputs nn5")]


def drv_dvlabel(cls, tier):
    q = cls.qual
    return [Config(q, dict(vars_list=[["a", "b", 1.5, "kg"], ["c", "d", 2.0, "m"]]), "two scalars"),
            Config(q, dict(vars_list=[["a", "b", np.array([1.0, 2.0, 3.0]), "kg"], ["c", "d", 2.0, None]]), "vector and scalar")]


def drv_linint(cls, tier):
    q = cls.qual
    return [Config(q, dict(num_nodes=n, units=u), f"nn={n} units={u}") for n in (5, 2, 3, 7) for u in (None, "kg")]


def drv_minmax(cls, tier):
    q = cls.qual
    return [Config(q, dict(num_nodes=n, units=u), f"nn={n} units={u}") for n in (3, 1, 5) for u in (None, "kg")]


def drv_steadyCL(cls, tier):
    return [Config(cls.qual, dict(num_nodes=n), f"num_nodes={n}") for n in (3, 1, 5)]


def drv_surfs(kind):
    def f(cls, tier):
        q = cls.qual
        C = []
        if kind == "section_mesh":
            for ns in (2, 3, 4):
                for sc in (True, False):
                    for nx in (2, 3):
                        for ny in ([5] if tier == "quick" else [5, 7]):
                            C.append(Config(q, dict(num_x=nx, num_y=ny, num_sections=ns, scale_area=sc), f"nx={nx} ny={ny} ns={ns} scale_area={sc}"))
            C.append(Config(q, dict(num_x=2, num_y=[2, 3], num_sections=3, scale_area=True), "nx=2 ny=[2,3] ns=3 scale"))
            C.append(Config(q, dict(num_x=2, num_y=[3, 1, 2], num_sections=4, scale_area=False), "nx=2 ny=[3,1,2] ns=4"))
        else:
            for ns in (2, 3, 4):
                for cs in (True, False):
                    for ny in (5, 7):
                        C.append(Config(q, dict(num_y=ny, num_sections=ns, cos_spacing=cs), f"ny={ny} ns={ns} cos={cs}"))
            C.append(Config(q, dict(num_y=[2, 3], num_sections=3, cos_spacing=True), "ny=[2,3] ns=3 cos"))
            C.append(Config(q, dict(num_y=[3, 1, 2], num_sections=4, cos_spacing=False), "ny=[3,1,2] ns=4"))
        return C
    return f


def drv_datagen(cls, tier):
    g = dict(Mach_train=np.array([0.2, 0.7]), alpha_train=np.array([-3.0, 2.0, 9.0]), alt_train=np.array([0.0, 5000.0]))
    q = cls.qual
    if "VLM" in cls.name:
        C = [Config(q, dict(num_x=1, num_y=2, **g), "nx=1 ny=2", generic=True), Config(q, dict(num_x=2, num_y=3, surf_options={"with_wave": False}, **g), "nx=2 ny=3 surf_options", generic=True)]
    else:
        C = [Config(q, dict(num_x=1, num_y=2, num_twist=2, num_toverc=3, num_skin=4, num_spar=5, **g), "sizes 2,3,4,5", generic=True),
             Config(q, dict(num_x=1, num_y=3, num_twist=1, num_toverc=1, num_skin=2, num_spar=1, surf_options={"E": 7e10}, **g), "sizes 1,1,2,1 surf_options", generic=True)]
    return C


def drv_dictivc(cls, tier):
    q = cls.qual
    data = lambda: {"ac": {"geom": {"wing": {"S_ref": {"value": 20.0, "units": "m**2"}, "sweep": {"value": np.array([1.0, 2.0, 3.0])}}},
                           "n": {"value": 3, "units": None}, "mat": {"value": np.array([[1.0, 2.0], [3.0, 4.0]]), "units": "kg"}}}

    def run(it, inst):
        for n in ("ac|geom|wing|S_ref", "ac|geom|wing|sweep", "ac|n", "ac|mat"):
            callm(it, inst, "add_output_from_dict", n)
    return [Config(q, {}, "nested table", run, args=(data(),)),
            Config(q, {}, "other separator", lambda it, inst: callm(it, inst, "add_output_from_dict", "ac:geom:wing:S_ref", separator=":"), args=(data(),))]


DRIVERS = {
    "DictIndepVarComp": drv_dictivc,
    "VLMDataGen": drv_datagen, "OASDataGen": drv_datagen,
    "AddSubtractComp": drv_addsub, "ElementMultiplyDivideComp": drv_muldiv, "VectorConcatenateComp": drv_concat,
    "VectorSplitComp": drv_split, "Integrator": drv_integrator, "OldIntegrator": drv_oldintegrator, "FirstDerivative": drv_firstderiv,
    "SelectorComp": drv_selector, "DVLabel": drv_dvlabel, "LinearInterpolator": drv_linint, "MaxComp": drv_minmax, "MinComp": drv_minmax,
    "SectionPlanformMesh": drv_surfs("section_mesh"), "ThicknessChordRatioInterp": drv_surfs("interp"), "SectionLinearInterp": drv_surfs("interp"),
}
