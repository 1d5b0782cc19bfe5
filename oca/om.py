"""Model of the part of the OpenMDAO API that component and group code uses."""
import fnmatch
import numpy as np
from . import expr as X
from .expr import E
from .values import *
from . import npmodel as NP

UNDEF_OPT = object()


def om_raise(it, name, msg):
    NP._raise(it, name, msg)


# ---------------------------------------------------------------- options
class Opt:
    __slots__ = ("val", "default", "values", "types", "lower", "upper", "allow_none", "isset", "desc", "loc", "check")


class Options:
    def __init__(self, owner):
        self.d = {}
        self.owner = owner
        self.reads = {}
        self.sets = {}

    def declare(self, it, name, default=UNDEF_OPT, values=None, types=None, desc="", upper=None, lower=None, check_valid=None,
                allow_none=False, recordable=True, set_function=None, deprecation=None):
        o = Opt()
        if values is not None and not isinstance(values, (list, tuple, set)):
            om_raise(it, "TypeError", "values")
        if types is bool:
            values = (True, False)
        o.values, o.types, o.desc, o.lower, o.upper, o.check = values, types, desc, lower, upper, check_valid
        o.allow_none = allow_none or default is None
        o.isset = default is not UNDEF_OPT
        o.val = o.default = default
        o.loc = it.loc
        self.d[name] = o
        if o.isset:
            self.valid(it, name, default)
            if isinstance(default, (list, dict, set, SArr)):
                it.protect_obj(default, f"default of option '{name}'")
        return None

    def valid(self, it, name, v):
        o = self.d[name]
        if v is None and o.allow_none:
            return
        if isinstance(v, (Opaque, Poison)):
            return
        if o.values is not None:
            for x in (it.iterate(v) if o.types is list else [v]):
                if isinstance(x, (E, SArr)):
                    raise Undecided("symbolic enumerated option")
                ok = False
                for w in o.values:
                    try:
                        if x is w or bool(x == w):
                            ok = True
                            break
                    except Exception:
                        pass
                if not ok:
                    om_raise(it, "ValueError", f"Value ({x!r}) of option '{name}' is not one of {o.values}")
        elif o.types is not None:
            ts = tuple(o.types) if isinstance(o.types, (list, set, tuple)) else (o.types,)
            from .interp import _b_isinstance
            ok = False
            for t in ts:
                try:
                    if isinstance(t, Opaque) or isinstance(t, ExtRef) and t.name not in ("numpy.ndarray",):
                        ok = True
                    elif _b_isinstance(it, v, t):
                        ok = True
                except Undecided:
                    ok = True
            if not ok:
                om_raise(it, "TypeError", f"Value of option '{name}' has wrong type")
        for lim, up in ((o.upper, True), (o.lower, False)):
            if lim is None:
                continue
            r = it.compare("Gt" if up else "Lt", v, lim)
            t = it.truth(r)
            if t is True:
                om_raise(it, "ValueError", f"option '{name}' outside limits")
            if isinstance(t, E):
                it.assume(X.not_(t))
        if o.check is not None:
            it.call(o.check, [name, v], {})

    def get(self, it, name):
        if name not in self.d:
            om_raise(it, "KeyError", f"Option '{name}' has not been declared")
        o = self.d[name]
        self.reads.setdefault(name, []).append(it.loc)
        if not o.isset:
            om_raise(it, "RuntimeError", f"Option '{name}' is required but has not been set")
        return o.val

    def set(self, it, name, v):
        if name not in self.d:
            om_raise(it, "KeyError", f"Option '{name}' cannot be set because it has not been declared")
        self.valid(it, name, v)
        if it.track:
            it.event("mutate", f"option '{name}' assigned", f"option {name}")
        self.d[name].val = v
        self.d[name].isset = True
        self.sets[name] = it.loc

    # protocol
    def om_getitem(self, it, k):
        if k not in self.d:
            om_raise(it, "KeyError", f"Option '{k}' has not been declared")
        return self.get(it, k)

    def om_setitem(self, it, k, v):
        self.set(it, k, v)

    def om_contains(self, k):
        return k in self.d

    def om_iter(self, it):
        return list(self.d)

    def om_items(self):
        for k in self.d:
            self.reads.setdefault(k, [])
        return [(k, o.val) for k, o in self.d.items()]

    def om_len(self):
        return len(self.d)

    def om_attr(self, it, n):
        me = self
        if n == "declare":
            return NativeFn("declare", lambda it, *a, **k: me.declare(it, *a, **k))
        if n == "set":
            def s(it, **k):
                for a, b in k.items():
                    me.set(it, a, b)
            return NativeFn("set", s)
        if n == "update":
            def u(it, d):
                for a, b in (dict(d.om_items()) if hasattr(d, "om_items") else d).items():
                    me.set(it, a, b)
            return NativeFn("update", u)
        if n == "keys":
            return NativeFn("keys", lambda it: list(me.d))
        if n == "items":
            return NativeFn("items", lambda it: me.om_items())
        if n == "undeclare":
            return NativeFn("undeclare", lambda it, k: me.d.pop(k, None) and None)
        if n == "get":
            return NativeFn("get", lambda it, k, d=None: me.get(it, k) if k in me.d else d)
        raise Undecided(f"options.{n}")


# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ("name", "io", "shape", "units", "val", "loc", "desc", "tags", "dyn", "lower", "upper", "owner", "extra", "ref", "ref0", "res_ref")

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape is not None else None


class Decl:
    __slots__ = ("of", "wrt", "rows", "cols", "val", "method", "dependent", "loc", "func")


class OMData:
    """OpenMDAO-side state of a system instance"""

    def __init__(self):
        self.options = None
        self.kind = "comp"
        self.static = True
        self.s_in, self.s_out, self.s_decl = {}, {}, []
        self.s_subs, self.s_conns, self.s_defs, self.s_prom = {}, [], [], []
        self.inputs, self.outputs, self.decls = {}, {}, []
        self.subs, self.conns, self.defs = {}, [], []
        self.promotes = {"input": [], "output": [], "any": []}
        self.name = ""
        self.pathname = ""
        self.setup_done = False
        self.parent = None
        self.extra = {}
        self.ext = None

    def V(self, io):
        return (self.s_in if io == "input" else self.s_out) if self.static else (self.inputs if io == "input" else self.outputs)


def is_sys(v):
    return isinstance(v, Inst) and v.om is not None


def pre(kind):
    def f(it, inst):
        inst.om = OMData()
        inst.om.kind = kind
        inst.om.options = Options(inst)
        inst.attrs["options"] = inst.om.options
        inst.attrs["name"] = ""
        inst.attrs["pathname"] = ""
        inst.attrs["under_complex_step"] = False
        inst.attrs["under_approx"] = False
        inst.attrs["comm"] = Opaque("comm")
        inst.attrs["msginfo"] = "<msginfo>"
        inst.attrs["recording_options"] = Opaque("recording_options")
        inst.attrs["_var_promotes"] = inst.om.promotes
        if kind == "group":
            inst.attrs["linear_solver"] = None
            inst.attrs["nonlinear_solver"] = None
            inst.attrs["_subsystems_allprocs"] = {}
            inst.attrs["_static_subsystems_allprocs"] = inst.om.s_subs
        else:
            inst.attrs["_var_rel_names"] = {"input": [], "output": []}
            inst.attrs["linear_solver"] = None
            inst.attrs["nonlinear_solver"] = None
    return f


def sys_init(it, inst, num_par_fd=1, **kw):
    o = inst.om.options
    saved = it.loc
    for n, d in (("assembled_jac_type", "csc"), ("derivs_method", None)):
        o.declare(it, n, default=d)
    if inst.om.kind == "group":
        o.declare(it, "auto_order", default=False)
    else:
        for n, d in (("distributed", False), ("run_root_only", False), ("always_opt", False), ("use_jit", True), ("default_shape", (1,))):
            o.declare(it, n, default=d)
    base = set(o.d)
    m = it.find_method(inst.cls, "initialize")
    if m is not None:
        it.call(Bound(m, inst), [], {})
    o.own = [k for k in o.d if k not in base]
    for k, v in kw.items():
        o.set(it, k, v)


def noop(it, inst, *a, **k):
    return None


def ensure_compatible(it, name, val, shape, default_shape=(1,)):
    if isinstance(val, (list, tuple)):
        val = NP.asarr(it, val)
    if isinstance(val, Opaque):
        if shape is None:
            raise Undecided("opaque value")
        val = 1.0
    if shape is not None:
        if isinstance(shape, (list, tuple)):
            shape = NP.conv_shape(it, shape)
        else:
            shape = NP.conv_shape(it, shape)
    elif isinstance(val, SArr):
        shape = val.shape if val.a.ndim else (1,)
    if shape is None:
        shape = default_shape
    v = val if isinstance(val, SArr) else NP.asarr(it, val)
    if v.kind in ("U", "O"):
        om_raise(it, "TypeError", f"value of '{name}'")
    if v.a.ndim == 0 or v.shape == (1,):
        a = np.empty(shape, dtype=object)
        x = v.a.reshape(-1)[0]
        a[...] = norm_elem(x)
        return SArr(a, "f"), shape
    if v.shape != tuple(shape):
        om_raise(it, "ValueError", f"Incompatible shape for '{name}': expected {shape} but got {v.shape}")
    return SArr(v.a.astype(object).copy(), "f"), tuple(shape)


def add_var(io):
    def f(it, inst, name, val=1.0, shape=None, units=None, desc="", tags=None, shape_by_conn=False, copy_shape=None, compute_shape=None,
          require_connection=False, distributed=None, primal_name=None, res_units=None, lower=None, upper=None, ref=1.0, ref0=0.0, res_ref=None, **kw):
        if kw:
            om_raise(it, "TypeError", f"unexpected keyword {list(kw)}")
        if not isinstance(name, str):
            om_raise(it, "TypeError", "name must be str")
        if units is not None and not isinstance(units, str):
            om_raise(it, "TypeError", "units must be str")
        if isinstance(units, str):
            from .units import valid
            if not valid(units):
                om_raise(it, "ValueError", f"The units '{units}' are invalid.")
        V = inst.om.V(io)
        if name in inst.om.V("input") or name in inst.om.V("output") or name in inst.om.inputs or name in inst.om.outputs:
            om_raise(it, "ValueError", f"Variable name '{name}' already exists.")
        v = Var()
        v.name, v.io, v.units, v.desc, v.loc = name, io, units, desc, it.loc
        v.tags = set([tags] if isinstance(tags, str) else (tags or []))
        v.dyn = bool(shape_by_conn or copy_shape or compute_shape)
        v.lower, v.upper, v.ref, v.ref0, v.res_ref = lower, upper, ref, ref0, res_ref
        v.extra = dict(shape_by_conn=shape_by_conn, copy_shape=copy_shape)
        v.owner = inst
        if v.dyn:
            v.shape, v.val = None, val
        else:
            v.val, v.shape = ensure_compatible(it, name, val, shape)
            if io == "output":
                for lim in (lower, upper):
                    if lim is not None and not isinstance(lim, (Opaque,)):
                        ensure_compatible(it, name, lim, v.shape)
        V[name] = v
        rel = inst.attrs.get("_var_rel_names")
        if isinstance(rel, dict):
            rel[io].append(name)
        return {"val": v.val, "shape": v.shape, "units": units, "tags": v.tags, "desc": desc}
    return f


def declare_partials(it, inst, of, wrt, dependent=True, rows=None, cols=None, val=None, method="exact", step=None, form=None, step_calc=None, minimum_step=None):
    d = Decl()
    d.of = [of] if isinstance(of, str) else [x for x in it.iterate(of)]
    d.wrt = [wrt] if isinstance(wrt, str) else [x for x in it.iterate(wrt)]
    if dependent is None or isinstance(dependent, (bool, np.bool_)):
        d.dependent = bool(dependent)
    elif isinstance(dependent, (SArr, list, tuple)):
        d.dependent = True
    else:
        d.dependent = it.truth(dependent)
    if (rows is None) != (cols is None):
        om_raise(it, "ValueError", "If one of rows/cols is specified, then both must be specified.")

    def ints(r):
        a = NP.asarr(it, r)
        try:
            c = concrete(a)
        except TypeError:
            raise Undecided("symbolic rows/cols")
        c = np.asarray(c)
        if c.size and not np.all(np.mod(c.astype(float), 1) == 0):
            om_raise(it, "ValueError", "non-integer rows/cols")
        return c.astype(int)
    d.rows = d.cols = None
    if rows is not None:
        d.rows, d.cols = ints(rows), ints(cols)
        if d.rows.shape != d.cols.shape:
            om_raise(it, "ValueError", f"rows and cols must have the same shape, rows: {d.rows.shape}, cols: {d.cols.shape}")
        if d.rows.ndim != 1:
            om_raise(it, "ValueError", "rows/cols must be 1d")
        if len(set(zip(d.rows.tolist(), d.cols.tolist()))) != d.rows.size:
            om_raise(it, "RuntimeError", "declare_partials has been called with rows and cols that specify duplicate subjacobian entries")
        d.rows = d.rows
    if method not in ("exact", "cs", "fd", "jax"):
        om_raise(it, "ValueError", f"method {method}")
    d.val, d.method, d.loc = val, method, it.loc
    (inst.om.s_decl if inst.om.static else inst.om.decls).append(d)
    return None


def add_subsystem(it, inst, name, subsys, promotes=None, promotes_inputs=None, promotes_outputs=None, min_procs=1, max_procs=None, proc_weight=1.0, proc_group=None):
    om = inst.om
    if isinstance(name, (Opaque, Poison, E)):
        raise Undecided("opaque subsystem name")
    if name in om.subs or name in om.s_subs:
        om_raise(it, "RuntimeError", f"Subsystem name '{name}' is already used.")
    if name in inst.attrs and not is_sys(inst.attrs[name]) and not isinstance(inst.attrs[name], ExtSys):
        om_raise(it, "RuntimeError", f"Can't add subsystem '{name}' because an attribute with that name already exits.")
    if isinstance(subsys, (Opaque,)):
        s = ExtSys(subsys.name)
        s.args = subsys.args
        s.prom = {"any": [], "input": [], "output": []}
        subsys = s
    if isinstance(subsys, Poison):
        raise Undecided("subsystem")
    if not is_sys(subsys) and not isinstance(subsys, ExtSys):
        om_raise(it, "TypeError", f"Subsystem '{name}' should be a System instance")
    P = subsys.prom if isinstance(subsys, ExtSys) else subsys.om.promotes
    for lst, k in ((promotes, "any"), (promotes_inputs, "input"), (promotes_outputs, "output")):
        if isinstance(lst, str):
            om_raise(it, "RuntimeError", "promotes must be an iterator of strings and/or tuples")
        if lst:
            P[k] = [(p, None) for p in sorted(it.iterate(lst), key=lambda x: "*" not in x)]
    if is_sys(subsys):
        subsys.om.name = subsys.om.pathname = name
        subsys.attrs["name"] = subsys.attrs["pathname"] = name
        subsys.om.parent = inst
        subsys.om.extra["loc"] = it.loc
    else:
        subsys.name = name
        subsys.loc = it.loc
    (om.s_subs if om.static else om.subs)[name] = subsys
    inst.attrs["_subsystems_allprocs"][name] = (subsys, len(inst.attrs["_subsystems_allprocs"]))
    inst.attrs[name] = subsys
    return subsys


class ExtSys:
    """subsystem whose class lives outside the repository (e.g. OpenAeroStruct)"""

    def __init__(self, cname):
        self.cname = cname
        self.name = ""
        self.args = None
        self.prom = {}

    def om_attr(self, it, n):
        if n == "name":
            return self.name
        if n in ("connect", "promotes", "set_input_defaults", "add_subsystem", "add_spline", "add_input", "add_output", "add_constraint", "add_objective"):
            return NativeFn(n, lambda it, *a, **k: Opaque(f"{self.cname}.{n}()"))
        return Opaque(f"{self.cname}.{n}")

    def om_setattr(self, it, n, v):
        return None


def connect(it, inst, src_name, tgt_name, src_indices=None, flat_src_indices=None, src_shape=None):
    if isinstance(tgt_name, (list, tuple)):
        for t in tgt_name:
            connect(it, inst, src_name, t, src_indices, flat_src_indices, src_shape)
        return
    if not isinstance(src_name, str) or not isinstance(tgt_name, str):
        if isinstance(src_name, Opaque) or isinstance(tgt_name, Opaque):
            raise Undecided("opaque connection name")
        om_raise(it, "TypeError", "connect: names must be strings")
    L = inst.om.s_conns if inst.om.static else inst.om.conns
    for c in inst.om.s_conns + inst.om.conns:
        if c[1] == tgt_name:
            om_raise(it, "RuntimeError", f"Input '{tgt_name}' is already connected to '{c[0]}'.")
    L.append((src_name, tgt_name, src_indices, flat_src_indices, it.loc))


def set_input_defaults(it, inst, name, val=UNDEF_OPT, units=None, src_shape=None):
    L = inst.om.s_defs if inst.om.static else inst.om.defs
    L.append((name, None if val is UNDEF_OPT else val, units, it.loc, val is not UNDEF_OPT))


def promotes(it, inst, subsys_name, any=None, inputs=None, outputs=None, src_indices=None, flat_src_indices=None, src_shape=None):
    s = inst.om.subs.get(subsys_name) or inst.om.s_subs.get(subsys_name)
    if s is None:
        om_raise(it, "RuntimeError", f"Promotes: no subsystem '{subsys_name}'")
    P = s.prom if isinstance(s, ExtSys) else s.om.promotes
    info = (src_indices, flat_src_indices, src_shape, it.loc) if src_indices is not None or src_shape is not None else None
    for lst, k in ((any, "any"), (inputs, "input"), (outputs, "output")):
        if lst:
            if isinstance(lst, str):
                om_raise(it, "RuntimeError", "promotes must be an iterator of strings and/or tuples")
            P[k] = P.get(k, []) + [(p, info) for p in it.iterate(lst)]


# ---------------------------------------------------------------- setup phases
def group_setup_procs(it, inst, pathname=None, *a):
    om = inst.om
    om.pathname = inst.attrs["pathname"] = pathname if isinstance(pathname, str) else ""
    om.subs = dict(om.s_subs)
    om.conns = list(om.s_conns)
    om.defs = list(om.s_defs)
    inst.attrs["_subsystems_allprocs"].clear()
    for i, (n, s) in enumerate(om.subs.items()):
        inst.attrs["_subsystems_allprocs"][n] = (s, i)
    om.static = False
    m = it.find_method(inst.cls, "setup")
    if m is not None:
        it.call(Bound(m, inst), [], {})
    for n, s in list(om.subs.items()):
        if is_sys(s):
            p = (om.pathname + "." if om.pathname else "") + n
            s.om.parent = inst
            s.attrs["name"] = s.om.name = n
            mm = it.find_method(s.cls, "_setup_procs")
            it.call(Bound(mm, s), [p], {})


def comp_setup_procs(it, inst, pathname=None, *a):
    om = inst.om
    om.pathname = inst.attrs["pathname"] = pathname if isinstance(pathname, str) else ""
    om.inputs, om.outputs, om.decls = dict(om.s_in), dict(om.s_out), list(om.s_decl)
    inst.attrs["_var_rel_names"] = {"input": list(om.inputs), "output": list(om.outputs)}
    om.static = False
    m = it.find_method(inst.cls, "setup")
    if m is not None:
        it.call(Bound(m, inst), [], {})
    om.setup_done = True
    m = it.find_method(inst.cls, "setup_partials")
    if m is not None:
        it.call(Bound(m, inst), [], {})
    if om.extra.get("need_out") and not om.outputs:
        om_raise(it, "RuntimeError", "No outputs (independent variables) have been declared")


def group_configure_phase(it, inst, *a):
    om = inst.om
    for n, s in list(om.subs.items()):
        if is_sys(s):
            if s.om.kind == "group":
                mm = it.find_method(s.cls, "_configure")
                it.call(Bound(mm, s), [], {})
            else:
                s.om.static = False
                it.call(Bound(it.find_method(s.cls, "configure") or NativeFn("noop", noop), s), [], {})
    om.static = False
    m = it.find_method(inst.cls, "configure")
    if m is not None:
        it.call(Bound(m, inst), [], {})


def set_static(inst):
    inst.om.static = True
    if inst.om.kind == "group":
        for s in list(inst.om.subs.values()) + list(inst.om.s_subs.values()):
            if is_sys(s) and not s.om.static:
                set_static(s)


def setup_top(it, inst):
    """run the setup and configure phases of a system used as model"""
    if inst.om.kind == "group":
        it.call(Bound(it.find_method(inst.cls, "_setup_procs"), inst), [""], {})
        it.call(Bound(it.find_method(inst.cls, "_configure"), inst), [], {})
    else:
        it.call(Bound(it.find_method(inst.cls, "_setup_procs"), inst), [""], {})
    set_static(inst)


# -------- promotion
class PromErr(Exception):
    def __init__(self, msg, loc=None):
        self.msg = msg
        self.loc = loc


def resolve_promotes(P, innames, outnames, report=None, where=None):
    """(io,name) -> (promoted name or None, info)"""
    out = {}
    found = set()
    for io, names in (("input", innames), ("output", outnames)):
        pats = [(p, inf, "any") for p, inf in P.get("any", [])] + [(p, inf, io) for p, inf in P.get(io, [])]
        for n in names:
            for i, (p, inf, k) in enumerate(pats):
                if isinstance(p, tuple):
                    if p[0] == n:
                        out[(io, n)] = (p[1] if p[1] is not None else p[0], inf)
                        found.add((k, p))
                        break
                elif p == n:
                    out[(io, n)] = (n, inf)
                    found.add((k, p))
                    break
            else:
                for p, inf, k in pats:
                    if isinstance(p, str) and ("*" in p or "?" in p or "[" in p):
                        if fnmatch.fnmatchcase(n, p):
                            out[(io, n)] = (n, inf)
                            found.add((k, p))
                            break
    if report is not None:
        for k in ("any", "input", "output"):
            for p, inf in P.get(k, []):
                if (k, p) not in found and p != "*":
                    report(k, p)
    return out


def local_names(it, inst, report=None):
    """{'input': {absname rel to inst -> promoted name in inst}, 'output': ...}; ExtSys subsystems contribute nothing"""
    if inst.om.kind != "group":
        return {"input": {n: n for n in inst.om.inputs}, "output": {n: n for n in inst.om.outputs}}, {}
    out = {"input": {}, "output": {}}
    for n, s in inst.om.subs.items():
        if isinstance(s, ExtSys):
            continue
        sub, _ = local_names(it, s)
        innames = list(dict.fromkeys(sub["input"].values()))
        outnames = list(dict.fromkeys(sub["output"].values()))
        pm = resolve_promotes(s.om.promotes, innames, outnames)
        for io in ("input", "output"):
            for rel, prom in sub[io].items():
                p = pm.get((io, prom))
                out[io][n + "." + rel] = p[0] if p is not None else n + "." + prom
    return out, {}


def find_var(inst, rel):
    parts = rel.split(".")
    s = inst
    for p in parts[:-1]:
        s = s.om.subs[p]
    return s.om.inputs.get(parts[-1]) or s.om.outputs.get(parts[-1])


def get_io_metadata(it, inst, iotypes=("input", "output"), metadata_keys=None, includes=None, excludes=None, is_indep_var=None, is_design_var=None,
                    tags=None, get_remote=False, rank=None, return_rel_names=True):
    if isinstance(iotypes, str):
        iotypes = (iotypes,)
    names, _ = local_names(it, inst)
    tg = None if tags is None else set([tags] if isinstance(tags, str) else it.iterate(tags))
    out = {}
    for io in iotypes:
        for rel, prom in names[io].items():
            v = find_var(inst, rel)
            if tg is not None and not (tg & v.tags):
                continue
            out[rel] = {"prom_name": prom, "tags": sorted(v.tags), "units": v.units, "shape": v.shape, "val": v.val, "desc": v.desc,
                        "discrete": False, "lower": v.lower, "upper": v.upper, "shape_by_conn": v.dyn, "size": v.size}
    return out


class Resolver:
    def __init__(self, inst):
        self.inst = inst

    def om_attr(self, it, n):
        if n == "_abs2prom":
            return abs2prom(it, self.inst, True)
        if n == "abs2prom":
            def f(it, name, iotype=None):
                d = abs2prom(it, self.inst, False)
                for io in ([iotype] if iotype else ["input", "output"]):
                    if name in d[io]:
                        return d[io][name]
                om_raise(it, "KeyError", name)
            return NativeFn("abs2prom", f)
        raise Undecided(f"_resolver.{n}")


def abs2prom(it, inst, wrapped):
    names, _ = local_names(it, inst)
    pre_ = inst.om.pathname + "." if inst.om.pathname else ""
    return {io: {pre_ + r: ((p, None) if wrapped else p) for r, p in names[io].items()} for io in ("input", "output")}


def group_prop(name):
    return name


# ---------------------------------------------------------------- vectors handed to compute
class Vec:
    """inputs / outputs / residuals vector"""

    def __init__(self, io, d, writable):
        self.io = io
        self.d = d
        self.writable = writable
        self.written = set()
        self.bad = []

    def om_getitem(self, it, k):
        if not isinstance(k, str):
            raise Undecided("vector key")
        if k not in self.d:
            om_raise(it, "KeyError", f"Variable name '{k}' not found.")
        return self.d[k]

    def om_setitem(self, it, k, v):
        if k not in self.d:
            om_raise(it, "KeyError", f"Variable name '{k}' not found.")
        t = self.d[k]
        if not self.writable:
            it.event("mutate", f"assignment to {self.io} '{k}'", f"{self.io} {k}")
            return
        if isinstance(v, Opaque):
            v = NP.fill_top(t.shape, v.name)
        self.written.add(k)
        try:
            NP.store(it, t, Ellipsis, v)
        except InterpRaise:
            w = NP.asarr(it, v)
            if w.size != t.size:
                om_raise(it, "ValueError", f"Failed to set value of '{k}': could not broadcast {w.shape} into {t.shape}")
            NP.store(it, t, Ellipsis, SArr(w.a.reshape(t.shape), w.kind))

    def om_contains(self, k):
        return k in self.d

    def om_iter(self, it):
        return list(self.d)

    def om_items(self):
        return list(self.d.items())

    def om_len(self):
        return len(self.d)

    def om_attr(self, it, n):
        if n == "keys":
            return NativeFn(n, lambda it: list(self.d))
        if n == "values":
            return NativeFn(n, lambda it: list(self.d.values()))
        if n == "items":
            return NativeFn(n, lambda it: self.om_items())
        if n == "_names":
            return list(self.d)
        if n in ("set_val", "set_var"):
            return NativeFn(n, lambda it, k, v, *a: self.om_setitem(it, k, v))
        if n == "get":
            return NativeFn(n, lambda it, k, d=None: self.d.get(k, d))
        raise Undecided(f"vector.{n}")


class Sub:
    """declared sub-Jacobian storage"""
    __slots__ = ("of", "wrt", "kind", "rows", "cols", "shape", "val", "method", "loc", "init", "set", "stale", "pat", "given")


class Jac:
    """partials object: dense or sparse storage per declared pair"""

    def __init__(self, subs):
        self.subs = subs
        self.errors = []

    def _key(self, it, k):
        if not isinstance(k, (tuple, list)) or len(k) != 2 or not all(isinstance(x, str) for x in k):
            raise Undecided("jacobian key")
        return tuple(k)

    def om_getitem(self, it, k):
        k = self._key(it, k)
        if k not in self.subs:
            om_raise(it, "KeyError", f"Variable name pair {k} not found / must first be declared.")
        s = self.subs[k]
        s.set = True
        return s.val

    def om_setitem(self, it, k, v):
        k = self._key(it, k)
        if k not in self.subs:
            om_raise(it, "KeyError", f"Variable name pair {k} must first be declared.")
        s = self.subs[k]
        s.set = True
        if isinstance(v, Opaque):
            v = NP.fill_top(s.val.shape, v.name)
        if isinstance(v, Sparse):
            if s.kind == "sparse":
                raise Undecided("sparse matrix assigned to rows/cols partial")
            if v.shape != s.shape:
                om_raise(it, "ValueError", f"partial {k} expected shape {s.shape} got {v.shape}")
            a = v.a
            NP.store(it, s.val, Ellipsis, SArr(a.astype(object), "f"))
            if s.pat is not None and np.any(v.pat & ~s.pat):
                self.errors.append((k, "assigned sparse matrix has entries outside the declared sparsity", it.loc))
            return
        if s.kind == "dense":
            w = NP.asarr(it, v)
            if w.size == 1:
                NP.store(it, s.val, Ellipsis, norm_elem(w.a.reshape(-1)[0]))
                return
            if w.size != s.val.size:
                om_raise(it, "ValueError", f"cannot reshape array of size {w.size} into shape {s.shape} for partial {k}")
            NP.store(it, s.val, Ellipsis, SArr(w.a.reshape(s.shape), w.kind))
        else:
            w = NP.asarr(it, v)
            if w.a.ndim > 1 and w.size != 1:
                # numpy would broadcast (1,n) into (n,)
                if all(d == 1 for d in w.shape[:-1]):
                    w = SArr(w.a.reshape(w.shape[-1]), w.kind)
                else:
                    om_raise(it, "ValueError", f"sub-jacobian for {k} has the wrong shape {w.shape}, expected {s.val.shape}")
            if w.size != 1 and w.shape != s.val.shape:
                om_raise(it, "ValueError", f"sub-jacobian for {k} has the wrong shape {w.shape}, expected {s.val.shape}")
            NP.store(it, s.val, Ellipsis, w if w.size != 1 else norm_elem(w.a.reshape(-1)[0]))

    def om_contains(self, k):
        return tuple(k) in self.subs

    def om_iter(self, it):
        return list(self.subs)

    def om_attr(self, it, n):
        if n == "keys":
            return NativeFn(n, lambda it: list(self.subs))
        if n == "items":
            return NativeFn(n, lambda it: [(k, s.val) for k, s in self.subs.items()])
        raise Undecided(f"jacobian.{n}")


def resolve_partials(it, inst, stale_tag):
    """declared partials of a component -> {(of, wrt): Sub}; raises like OpenMDAO for malformed declarations"""
    om = inst.om
    subs = {}
    implicit = om.kind == "implicit"
    for d in om.decls:
        ofs = []
        for p in d.of:
            m = [n for n in om.outputs if n == p or fnmatch.fnmatchcase(n, p)]
            if not m:
                raise PromErr(f"declare_partials 'of' pattern '{p}' matches no output", d.loc)
            ofs += m
        wrts = []
        pool = list(om.inputs) + (list(om.outputs) if implicit else [])
        for p in d.wrt:
            m = [n for n in pool if n == p or fnmatch.fnmatchcase(n, p)]
            if not m:
                raise PromErr(f"declare_partials 'wrt' pattern '{p}' matches no variable", d.loc)
            wrts += m
        for of in ofs:
            for wrt in wrts:
                k = (of, wrt)
                if not d.dependent:
                    subs.pop(k, None)
                    continue
                vo = om.outputs[of]
                vi = om.inputs.get(wrt) or om.outputs[wrt]
                if vo.size is None or vi.size is None:
                    raise Undecided("dynamic shape")
                shape = (vo.size, vi.size)
                old = subs.get(k)
                rows, cols, val, method = d.rows, d.cols, d.val, d.method
                if old is not None:
                    if rows is None:
                        rows, cols = old.rows, old.cols
                    if val is None and d.rows is None:
                        val = old.given
                s = Sub()
                s.of, s.wrt, s.shape, s.method, s.loc = of, wrt, shape, method, d.loc
                s.set = False
                s.pat = None
                s.given = val
                if rows is not None:
                    s.kind, s.rows, s.cols = "sparse", rows, cols
                    if rows.size and (rows.max() >= shape[0] or cols.max() >= shape[1]):
                        raise PromErr(f"d({of})/d({wrt}): expected {shape} but declared at least {rows.max()+1}x{cols.max()+1}", d.loc)
                    if rows.size and (rows.min() < 0 or cols.min() < 0):
                        raise PromErr(f"d({of})/d({wrt}): negative row/col index", d.loc)
                    n = rows.size
                    init = np.empty(n, dtype=object)
                    if val is None:
                        init[:] = 0.0
                    else:
                        w = NP.asarr(it, val)
                        if isinstance(val, (SArr, list, tuple)) and w.a.ndim > 0:
                            if w.shape != (n,):
                                raise PromErr(f"d({of})/d({wrt}): val shape {w.shape} does not match rows {(n,)}", d.loc)
                            init[:] = [norm_elem(x) for x in w.a.reshape(-1)]
                        else:
                            init[:] = norm_elem(w.a.reshape(-1)[0])
                else:
                    s.kind, s.rows, s.cols = "dense", None, None
                    init = np.empty(shape, dtype=object)
                    if val is None:
                        init[...] = 0.0
                    elif isinstance(val, Sparse):
                        if val.shape != shape:
                            raise PromErr(f"d({of})/d({wrt}): val shape {val.shape} expected {shape}", d.loc)
                        init[...] = val.a
                        s.pat = val.pat
                    else:
                        w = NP.asarr(it, val)
                        if w.size == 1:
                            init[...] = norm_elem(w.a.reshape(-1)[0])
                        else:
                            a2 = np.atleast_2d(w.a)
                            if a2.shape != shape and a2.size != shape[0] * shape[1]:
                                raise PromErr(f"d({of})/d({wrt}): val shape {w.shape} expected {shape}", d.loc)
                            init[...] = a2.reshape(shape)
                for i, x in np.ndenumerate(init):
                    init[i] = float(x) if isinstance(x, (int, bool, np.integer)) else x
                s.init = init
                st = np.empty(init.shape, dtype=object)
                for i in np.ndindex(*init.shape):
                    st[i] = X.sym(f"stale{stale_tag}:d({of})/d({wrt}){list(i)}")
                s.stale = st.copy()
                s.val = SArr(st, "f", Root(None))
                subs[k] = s
    return subs


def partials_result(subs):
    """after compute_partials: {(of,wrt): dense object array}, with never-assigned entries taken from the declaration"""
    out = {}
    for k, s in subs.items():
        v = s.val.a.copy()
        fl, st, ini = v.reshape(-1), s.stale.reshape(-1), s.init.reshape(-1)
        for i in range(fl.size):
            if fl[i] is st[i]:
                fl[i] = ini[i]
        v = fl.reshape(s.val.a.shape)
        if s.kind == "sparse":
            D = np.empty(s.shape, dtype=object)
            D[...] = 0.0
            for r, c, x in zip(s.rows, s.cols, v):
                D[r, c] = x
            v = D
        out[k] = v
    return out


# ---------------------------------------------------------------- library components
def ivc_init(it, inst, name=None, val=1.0, **kw):
    keys = ("shape", "units", "desc", "lower", "upper", "ref", "ref0", "res_units", "tags", "shape_by_conn", "copy_shape", "distributed")
    vkw = {k: kw.pop(k) for k in list(kw) if k in keys}
    sys_init(it, inst, **kw)
    inst.om.extra["need_out"] = True
    if isinstance(name, str):
        add_var("output")(it, inst, name, val, **vkw)
    elif isinstance(name, (list, tuple)):
        for t in name:
            t = it.iterate(t)
            add_var("output")(it, inst, t[0], *( [t[1]] if len(t) > 1 else []), **(t[2] if len(t) > 2 else {}))


def exec_init(it, inst, exprs=(), **kw):
    import ast
    if isinstance(exprs, str):
        exprs = [exprs]
    optk = ("has_diag_partials", "units", "shape", "shape_by_conn", "do_coloring", "vectorize", "run_root_only", "default_shape", "distributed")
    o = {k: kw.pop(k) for k in list(kw) if k in optk and not (isinstance(kw[k], dict))}
    sys_init(it, inst)
    inst.om.extra["exprs"] = list(exprs)
    consts, metas = {}, {}
    for k, v in kw.items():
        if isinstance(v, dict):
            metas[k] = v
        else:
            metas[k] = {"val": v}
    inst.om.extra["diag"] = o.get("has_diag_partials", False)
    outs, names = [], []
    for e in exprs:
        t = ast.parse(e.strip()).body[0]
        if not isinstance(t, ast.Assign):
            om_raise(it, "ValueError", f"ExecComp expression {e}")
        outs.append(t.targets[0].id)
        for n in ast.walk(t.value):
            if isinstance(n, ast.Name) and n.id not in names and n.id not in EXEC_FNS:
                names.append(n.id)
    for k in metas:
        if k not in outs and k not in names:
            om_raise(it, "RuntimeError", f"ExecComp: arg '{k}' is not in any expression")
    inst.om.extra["consts"] = consts
    for n in names:
        if n in outs:
            continue
        m = dict(metas.get(n, {}))
        if m.pop("constant", False):
            consts[n] = m.get("val")
            continue
        if "shape" not in m and "val" not in m and o.get("shape") is not None:
            m["shape"] = o["shape"]
        m.setdefault("units", o.get("units"))
        add_var("input")(it, inst, n, **m)
    for n in outs:
        m = dict(metas.get(n, {}))
        if "shape" not in m and "val" not in m and o.get("shape") is not None:
            m["shape"] = o["shape"]
        m.setdefault("units", o.get("units"))
        add_var("output")(it, inst, n, **m)


EXEC_FNS = {n: f"numpy.{n}" for n in ("sin", "cos", "tan", "exp", "log", "log10", "sqrt", "abs", "maximum", "minimum", "arctan", "arcsin", "arccos", "arctan2",
                                       "sinh", "cosh", "tanh", "sum", "dot", "mean", "max", "min", "prod", "ones", "zeros", "where")}
EXEC_FNS["pi"] = None
EXEC_FNS["e"] = None


def exec_compute(it, inst, inputs, outputs):
    import ast
    from .interp import Frame
    for e in inst.om.extra["exprs"]:
        t = ast.parse(e.strip()).body[0]
        fr = Frame(None, FakeMod)
        fr.vars = {n: (ExtRef(f) if f else (np.pi if n == "pi" else np.e)) for n, f in EXEC_FNS.items()}
        fr.vars["arctan"] = ExtRef("numpy.arctan")
        fr.vars.update(inst.om.extra["consts"])
        fr.vars.update(inputs.d)
        fr.vars.update({k: v for k, v in outputs.d.items()})
        v = it.ev(t.value, fr)
        it.setitem(outputs, t.targets[0].id, v)


class FakeMod:
    ns = {}
    path = "<execcomp>"
    name = "<execcomp>"


def balance_add(it, inst, name, eq_units=None, lhs_name=None, rhs_name=None, rhs_val=0.0, use_mult=False, mult_name=None, mult_val=1.0, normalize=True, val=None, **kw):
    lst = inst.om.extra.setdefault("bal", [])
    lhs = lhs_name or f"lhs:{name}"
    rhs = rhs_name or f"rhs:{name}"
    v = 1.0 if val is None else val
    b = dict(name=name, lhs=lhs, rhs=rhs, mult=(mult_name or f"mult:{name}") if use_mult else None, normalize=normalize, eq_units=eq_units, rhs_val=rhs_val, kw=kw, loc=it.loc)
    lst.append(b)
    sh = kw.pop("shape", None)
    add_var("output")(it, inst, name, v, shape=sh, **kw)
    o = inst.om.V("output")[name]
    add_var("input")(it, inst, lhs, 1.0, shape=o.shape, units=eq_units)
    add_var("input")(it, inst, rhs, rhs_val, shape=o.shape, units=eq_units)
    if use_mult:
        add_var("input")(it, inst, b["mult"], mult_val, shape=o.shape)


def balance_init(it, inst, name=None, eq_units=None, lhs_name=None, rhs_name=None, rhs_val=0.0, use_mult=False, mult_name=None, mult_val=1.0, normalize=True, val=None, **kw):
    sys_init(it, inst)
    if name is not None:
        balance_add(it, inst, name, eq_units, lhs_name, rhs_name, rhs_val, use_mult, mult_name, mult_val, normalize, val, **kw)


def balance_apply(it, inst, inputs, outputs, resid):
    for b in inst.om.extra.get("bal", []):
        l, r = inputs.d[b["lhs"]], inputs.d[b["rhs"]]
        if b["mult"]:
            l = it.binop("Mult", l, inputs.d[b["mult"]])
        it.setitem(resid, b["name"], it.binop("Sub", l, r))


def mm_init(it, inst, **kw):
    o = inst.om.options
    for n, d in (("vec_size", 1), ("method", "scipy_cubic"), ("extrapolate", False), ("training_data_gradients", False), ("interp_options", None), ("default_surrogate", None)):
        o.declare(it, n, default=d)
    sys_init(it, inst, **kw)


def mm_add(io):
    def f(it, inst, name, val=1.0, training_data=None, shape=None, surrogate=None, **kw):
        vec = inst.om.options.d["vec_size"].val
        if inst.om.extra.get("struct") is None:
            inst.om.extra["struct"] = any(getattr(m, "name", "") in ("MetaModelStructuredComp", "MetaModelSemiStructuredComp") for m in inst.cls.mro)
        tr = inst.om.extra.setdefault("train", {})
        if inst.om.extra["struct"]:
            if isinstance(val, (int, float)) or isinstance(val, SArr) and val.size == 1:
                shape = (vec,)
            if isinstance(training_data, SArr) or training_data is not None:
                t = NP.asarr(it, training_data) if not isinstance(training_data, Opaque) else None
                tr[name] = (io, t, it.loc, None)
            add_var(io)(it, inst, name, val, shape=shape, **kw)
        else:
            tr[name] = (io, training_data, it.loc, surrogate)
            if isinstance(surrogate, Inst):
                inst.om.extra.setdefault("surr", {})[name] = surrogate
            add_var(io)(it, inst, name, val, shape=shape, **kw)
        if io == "input" and inst.om.options.d["training_data_gradients"].val and False:
            pass
        return None
    return f


def mm_setup(it, inst):
    if inst.om.options.d["training_data_gradients"].val:
        tr = inst.om.extra.get("train", {})
        for n, (io, t, loc, _) in tr.items():
            if io == "output":
                nm = n + "_train"
                if nm not in inst.om.inputs:
                    v = Var()
                    v.name, v.io, v.units, v.desc, v.loc, v.tags, v.dyn = nm, "input", None, "", loc, set(), False
                    v.lower = v.upper = v.ref = v.ref0 = v.res_ref = None
                    v.extra, v.owner = {}, inst
                    v.units = inst.om.outputs[n].units
                    v.shape = t.shape if t is not None else None
                    v.val = t
                    inst.om.inputs[nm] = v


def mm_compute(it, inst, inputs, outputs):
    """interpolant of the training tables: an uninterpreted function of the inputs at each node"""
    vec = inst.om.options.d["vec_size"].val
    ext = inst.om.options.d["extrapolate"].val
    names = [n for n in inst.om.inputs if not n.endswith("_train")]
    path = inst.om.extra.get("tag", inst.om.pathname or "metamodel")
    for on, ov in inst.om.outputs.items():
        t = outputs.d[on]
        arr = np.empty(t.shape, dtype=object)
        fl = arr.reshape(-1)
        for i in range(fl.size):
            args = []
            for n in names:
                a = inputs.d[n].a.reshape(-1)
                args.append(a[i] if a.size == fl.size else a[0])
            fl[i] = X.uf(f"surrogate:{inst.om.extra.get('fid', path)}:{on}", *args)
        it.setitem(outputs, on, SArr(arr.reshape(t.shape), "f"))
    inst.om.extra["evaluated"] = True


def spline_init(it, inst, **kw):
    o = inst.om.options
    for n, d in (("method", "akima"), ("x_cp_val", None), ("x_interp_val", None), ("num_cp", None), ("vec_size", 1), ("interp_options", {})):
        o.declare(it, n, default=d)
    sys_init(it, inst, **kw)


def spline_add(it, inst, y_cp_name, y_interp_name, y_cp_val=None, y_units=None):
    o = inst.om.options.d
    n = o["num_cp"].val
    if n is None and o["x_cp_val"].val is not None:
        n = NP.asarr(it, o["x_cp_val"].val).size
    m = NP.asarr(it, o["x_interp_val"].val).size
    vec = o["vec_size"].val
    if y_cp_val is None:
        add_var("input")(it, inst, y_cp_name, 1.0, shape=(vec, n) if vec > 1 else (1, n), units=y_units)
    else:
        add_var("input")(it, inst, y_cp_name, y_cp_val, units=y_units)
    add_var("output")(it, inst, y_interp_name, 1.0, shape=(vec, m) if vec > 1 else (1, m), units=y_units)
    inst.om.extra.setdefault("splines", []).append((y_cp_name, y_interp_name))


def spline_compute(it, inst, inputs, outputs):
    for a, b in inst.om.extra.get("splines", []):
        src = [x for x in inputs.d[a].a.reshape(-1)]
        t = outputs.d[b]
        arr = np.empty(t.shape, dtype=object)
        fl = arr.reshape(-1)
        for i in range(fl.size):
            fl[i] = X.uf(f"spline:{inst.om.pathname}:{b}:{i}", *src)
        it.setitem(outputs, b, SArr(arr, "f"))


def ks_init(it, inst, **kw):
    o = inst.om.options
    for n, d in (("width", 1), ("vec_size", 1), ("lower_flag", False), ("rho", 50.0), ("upper", 0.0), ("add_constraint", False), ("units", None), ("scaler", None), ("adder", None), ("ref", None), ("ref0", None), ("parallel_deriv_color", None), ("minimum", False)):
        o.declare(it, n, default=d)
    sys_init(it, inst, **kw)


def ks_setup(it, inst):
    o = inst.om.options.d
    add_var("input")(it, inst, "g", 1.0, shape=(o["vec_size"].val, o["width"].val), units=o["units"].val)
    add_var("output")(it, inst, "KS", 1.0, shape=(o["vec_size"].val, 1), units=o["units"].val)


def ks_compute(it, inst, inputs, outputs):
    t = outputs.d["KS"]
    g = inputs.d["g"].a
    arr = np.empty(t.shape, dtype=object)
    for i in range(arr.shape[0]):
        arr[i, 0] = X.uf("KS", *list(g[i]))
    it.setitem(outputs, "KS", SArr(arr, "f"))


# ---------------------------------------------------------------- solvers etc.
class Solver:
    def __init__(self, name, kw):
        self.name = name
        self.opts = dict(kw)
        self.attrs = {}

    def om_attr(self, it, n):
        if n == "options":
            return SolverOpts(self)
        return self.attrs.get(n, Opaque(f"{self.name}.{n}"))

    def om_setattr(self, it, n, v):
        self.attrs[n] = v


class SolverOpts:
    def __init__(self, s):
        self.s = s

    def om_getitem(self, it, k):
        return self.s.opts.get(k, Opaque(f"{self.s.name}.{k}"))

    def om_setitem(self, it, k, v):
        self.s.opts[k] = v

    def om_attr(self, it, n):
        return NativeFn(n, lambda it, *a, **k: None)


# ---------------------------------------------------------------- nested analyses (om.Problem inside a component)
class ProbModel:
    def __init__(self):
        self.subs = []
        self.vals = {}

    def om_attr(self, it, n):
        me = self
        if n == "add_subsystem":
            def add(it, name, s, **k):
                me.subs.append((name, s))
                return s
            return NativeFn(n, add)
        if n == "set_input_defaults":
            def sid(it, name, val=None, units=None, **k):
                if val is not None:
                    me.vals[name] = (val, units)
            return NativeFn(n, sid)
        return Opaque(f"model.{n}")

    def om_setattr(self, it, n, v):
        return None


NESTED = {}        # signature of a nested analysis -> {variable: argument positions}
NESTED_OPTS = {}   # signature of a nested analysis -> {option of its model: value}


class ProblemObj:
    """a nested analysis: its results are uninterpreted functions of everything that was set in it"""

    def __init__(self, model=None):
        self.model = ProbModel()
        if model is not None:
            self.model.subs.append(("", model))
        self.vals = {}
        self.snap = None

    def sig(self, it):
        if self.snap is not None:
            return self.snap
        name, args = [], []
        for n, s in self.model.subs:
            if isinstance(s, Inst):
                name.append(s.cls.name)
                for k in sorted(getattr(s.om.options, "own", [])):
                    v = s.om.options.d[k].val
                    if isinstance(v, SArr) or isinstance(v, E):
                        args += [("opt " + k, i, x) for i, x in enumerate(v.items() if isinstance(v, SArr) else [v])]
                    elif isinstance(v, dict):
                        name.append(f"{k}=" + ",".join(f"{q}:{w!r}" for q, w in sorted(v.items(), key=lambda t: str(t[0]))))
                    else:
                        name.append(f"{k}={v!r}")
            else:
                name.append(str(s))
        allv = dict(self.model.vals)
        allv.update(self.vals)
        index = {}
        for k in sorted(allv):
            v, u = allv[k]
            a = NP.asarr(it, v)
            for i, x in enumerate(a.a.reshape(-1)):
                if u is not None:
                    from .units import get
                    U = get(u)
                    if U is not None:
                        x = X.mul(X.add(x, U.off), U.f)
                index.setdefault(k, []).append(len(args))
                args.append((k, i, x))
        NESTED["nested:" + ";".join(name)] = index
        NESTED_OPTS["nested:" + ";".join(name)] = {k: s.om.options.d[k].val for n, s in self.model.subs if isinstance(s, Inst) for k in getattr(s.om.options, "own", [])}
        self.snap = ("nested:" + ";".join(name), [a[2] for a in args], index, {k: allv[k][1] for k in allv}, {k: NP.asarr(it, allv[k][0]).size for k in allv})
        return self.snap

    def om_attr(self, it, n):
        me = self
        if n == "model":
            return self.model
        if n == "set_val":
            def sv(it, name, val=None, units=None, indices=None):
                if indices is not None:
                    raise Undecided("set_val indices")
                me.vals[name] = (val, units)
                me.snap = None
            return NativeFn(n, sv)
        if n == "get_val":
            def gv(it, name, units=None, **k):
                if name in me.vals:
                    v, u = me.vals[name]
                    if u == units:
                        return NP.asarr(it, v)
                nm, args, _, _, _ = me.sig(it)
                return wrap(np.array([X.uf(f"{nm}:{name}:{units}", *args)], dtype=object))
            return NativeFn(n, gv)
        if n == "compute_totals":
            def ct(it, of=None, wrt=None, **k):
                if it.analysis_hook is not None:
                    it.analysis_hook(it, "compute_totals")
                nm, args, index, units, sizes = me.sig(it)
                from .units import get
                out = {}
                for o in it.iterate(of):
                    for w in it.iterate(wrt):
                        if w not in index:
                            raise Undecided(f"total derivative with respect to '{w}' that was never set")
                        f = 1.0
                        if units[w] is not None and get(units[w]) is not None:
                            f = get(units[w]).f
                        row = [X.mul(X.uf(f"{nm}:{o}:None'{j}", *args), f) for j in index[w]]
                        a = np.empty((1, len(row)), dtype=object)
                        a[0, :] = row
                        out[(o, w)] = wrap(a)
                return out
            return NativeFn(n, ct)
        if n == "run_model":
            def rm(it, *a, **k):
                if it.analysis_hook is not None:
                    it.analysis_hook(it, "run_model")
            return NativeFn(n, rm)
        if n in ("setup", "final_setup", "set_solver_print", "cleanup", "run_driver"):
            return NativeFn(n, lambda it, *a, **k: None)
        return Opaque(f"problem.{n}")

    def om_setattr(self, it, n, v):
        if n == "model":
            self.model = ProbModel()
            self.model.subs.append(("", v))

    def om_setitem(self, it, k, v):
        self.vals[k] = (v, None)
        self.snap = None


class PoolObj:
    def om_attr(self, it, n):
        if n in ("map", "imap", "starmap"):
            def m(it, f, xs, *a, **k):
                return [it.call(f, [x] if n != "starmap" else list(it.iterate(x)), {}) for x in it.iterate(xs)]
            return NativeFn(n, m)
        return NativeFn(n, lambda it, *a, **k: None)


def install(it):
    N = it.natives
    N["openmdao.api.Problem"] = NativeFn("Problem", lambda it, model=None, *a, **k: ProblemObj(model))
    N["multiprocessing.Pool"] = NativeFn("Pool", lambda it, *a, **k: PoolObj())
    N["tqdm.tqdm"] = NativeFn("tqdm", lambda it, xs=None, *a, **k: xs)

    def cls(name, bases=(), methods=None):
        c = NativeCls(name, bases, methods or {})
        N["openmdao.api." + name] = c
        return c
    System = cls("System", (), {"add_design_var": noop, "add_objective": noop, "add_constraint": noop, "add_recorder": noop, "get_io_metadata": get_io_metadata,
                                "_setup_var_data": noop, "get_val": lambda it, inst, *a, **k: Opaque("get_val"), "set_solver_print": noop,
                                "list_inputs": lambda it, inst, *a, **k: Opaque("list"), "list_outputs": lambda it, inst, *a, **k: Opaque("list"),
                                "initialize": noop, "setup": noop, "configure": noop, "setup_partials": noop})
    Comp = cls("Component", (System,), {"__init__": sys_init, "add_input": add_var("input"), "add_output": add_var("output"), "declare_partials": declare_partials,
                                        "declare_coloring": noop, "set_check_partial_options": noop, "_setup_procs": comp_setup_procs, "add_discrete_input": noop, "add_discrete_output": noop})
    EC = cls("ExplicitComponent", (Comp,), {"__pre__": pre("explicit")})
    IC = cls("ImplicitComponent", (Comp,), {"__pre__": pre("implicit")})
    G = cls("Group", (System,), {"__pre__": pre("group"), "__init__": sys_init, "add_subsystem": add_subsystem, "connect": connect, "set_input_defaults": set_input_defaults,
                                 "promotes": promotes, "_setup_procs": group_setup_procs, "_configure": group_configure_phase, "set_order": noop, "approx_totals": noop,
                                 "_get_subsystem": lambda it, inst, n: inst.om.subs.get(n)})
    cls("ParallelGroup", (G,))
    cls("IndepVarComp", (EC,), {"__init__": ivc_init})
    cls("ExecComp", (EC,), {"__init__": exec_init, "compute": exec_compute})
    cls("BalanceComp", (IC,), {"__init__": balance_init, "add_balance": balance_add, "apply_nonlinear": balance_apply})
    cls("MetaModelStructuredComp", (EC,), {"__init__": mm_init, "add_input": mm_add("input"), "add_output": mm_add("output"), "setup": mm_setup, "compute": mm_compute})
    cls("MetaModelUnStructuredComp", (EC,), {"__init__": mm_init, "add_input": mm_add("input"), "add_output": mm_add("output"), "compute": mm_compute})
    cls("SplineComp", (EC,), {"__init__": spline_init, "add_spline": spline_add, "compute": spline_compute})
    cls("KSComp", (EC,), {"__init__": ks_init, "setup": ks_setup, "compute": ks_compute})

    def surr_init(it, inst, **kw):
        inst.attrs.update(kw)
        inst.attrs["_kw"] = kw
    cls("KrigingSurrogate", (), {"__init__": surr_init})

    def solver(name):
        N["openmdao.api." + name] = NativeFn(name, lambda it, *a, **k: Solver(name, k))
    for n in ("NewtonSolver", "DirectSolver", "NonlinearBlockGS", "LinearBlockGS", "ScipyKrylov", "BoundsEnforceLS", "ArmijoGoldsteinLS", "NonlinearRunOnce", "LinearRunOnce",
              "NonlinearSchurSolver", "LinearSchur", "BroydenSolver", "PETScKrylov", "LinearBlockJac", "NonlinearBlockJac", "LinearUserDefined"):
        solver(n)
    from .interp import BUILTIN_EXC
    if "AnalysisError" not in BUILTIN_EXC:
        BUILTIN_EXC["AnalysisError"] = type("AnalysisError", (), {"__name__": "AnalysisError", "name": "AnalysisError", "isexc": True})

    def analysis_error(it, *a, **k):
        return ExcObj(BUILTIN_EXC["AnalysisError"], a)
    N["openmdao.api.AnalysisError"] = NativeFn("AnalysisError", analysis_error)
    for alias in ("openmdao.core.explicitcomponent.ExplicitComponent", "openmdao.core.group.Group"):
        N[alias] = EC if alias.endswith("Component") else G
    N["openmdao.components.meta_model_structured_comp.MetaModelStructuredComp"] = N["openmdao.api.MetaModelStructuredComp"]
