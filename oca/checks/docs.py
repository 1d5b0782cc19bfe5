"""C27: the interface a class documents (Inputs / Outputs / Options sections of its docstring) is the interface it has"""
import ast
import fnmatch
import inspect
import os
import re
import warnings
import numpy as np
from .. import comp as C
from .. import flat as F
from .. import om as OM
from .. import units as U
from ..expr import E
from ..interp import InterpRaise, Undecided
from ..report import Result, pmap
from ..values import *
from .common import user_raise

SAME = {"Pascals": "Pa", "Pascal": "Pa", "Newtons": "N", "sq m": "m**2", "m^2": "m**2", "m^3": "m**3", "kg/m^3": "kg/m**3", "kg/m3": "kg/m**3", "radians": "rad",
        "degrees": "deg", "deg C": "degC", "RPM": "rpm", "Wh": "W*h", "Rankine": "degR", "Kelvin": "K", "meters": "m", "W/m^2/K": "W/m**2/K", "W/m2/K": "W/m**2/K",
        "m/s^2": "m/s**2", "m2": "m**2", "kg/m^2": "kg/m**2", "percent": None, "ft^2": "ft**2", "ft^3": "ft**3", "sq ft": "ft**2", "none": None, "None": None, "unitless": None, "-": None,
        "nondimensional": None, "non-dimensional": None, "dimensionless": None, "dimensionles": None}
FOLLOW = {"for", "of", "from", "is", "if", "or", "and", "based", "in", "to", "when", "knocks", "which", "with", "on", "per", "water", "times", "as"}
# variables whose names are made from the arguments: the documentation shows a pattern
TEMPLATED = {"AddSubtractComp", "ElementMultiplyDivideComp", "VectorConcatenateComp", "VectorSplitComp", "SelectorComp", "MaxComp", "MinComp", "DVLabel", "DictIndepVarComp",
             "DymosDesignParamsFromDict", "Integrator", "OldIntegrator", "FirstDerivative", "LinearInterpolator", "FlipVectorComp"}


def entries(doc):
    """{section: [(name, type, description)]}"""
    out, sec, cur = {}, None, None
    L = doc.expandtabs().split("\n")
    i = 0
    while i < len(L):
        l = L[i]
        if i + 1 < len(L) and l.strip() and re.match(r"\s*-{3,}\s*$", L[i + 1]):
            sec = l.strip()
            out.setdefault(sec, [])
            cur = None
            i += 2
            continue
        if sec and l.strip():
            ind = len(l) - len(l.lstrip())
            if cur is None or ind <= cur[3]:
                m = re.match(r"\s*([\w|.*]+)\s*(?::\s*(.*))?$", l)
                cur = None
                if m:
                    cur = [m.group(1), m.group(2) or "", "", ind]
                    out[sec].append(cur)
            else:
                cur[2] += " " + l.strip()
        i += 1
    return {k: [tuple(e[:3]) for e in v] for k, v in out.items()}


def spec(desc):
    """(scalar | vector, documented unit or "" when not stated); last parenthesis that starts with scalar / vector"""
    m = [x for x in re.findall(r"\(([^()]*(?:\([^()]*\)[^()]*)*)\)", desc) if re.match(r"(scalar|vector)\s*(,|$)", x)]
    if not m:
        return None, ""
    p = [x.strip() for x in m[-1].split(",", 1)]
    return p[0], (p[1] if len(p) > 1 else "")


def unit_of(text):
    """unit, None for dimensionless, False if the text is no unit"""
    if text in SAME:
        return SAME[text]
    return text if U.get(text) is not None else False


def same_unit(a, b):
    da, db = a in (None, "unitless", ""), b in (None, "unitless", "")
    if da or db:
        return da == db
    return U.compatible(a, b) and abs(U.convert(1.0, a, b) - 1) < 1e-9 and abs(U.convert(0.0, a, b)) < 1e-9


def number(t):
    """value of an arithmetic literal, or None"""
    t = re.sub(r"(?<=\d),(?=\d\d\d)", "", t)
    t = re.sub(r"(?<=[\d ])x(?=[\d ])", "*", t)
    try:
        n = ast.parse(t.strip(), mode="eval").body
    except SyntaxError:
        return None
    for k in ast.walk(n):
        if not isinstance(k, (ast.BinOp, ast.UnaryOp, ast.Constant, ast.Mult, ast.Div, ast.Add, ast.Sub, ast.Pow, ast.USub, ast.UAdd)) or (
                isinstance(k, ast.Constant) and (isinstance(k.value, bool) or not isinstance(k.value, (int, float)))):
            return None
    return float(eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}}))


def default_of(desc):
    """documented default: (kind, value) or None if none is stated in a form that can be read"""
    m = re.search(r"\bdefault(?: value of| value is| is|:|=)?\s+([^()]*)", desc, re.I)
    if not m:
        return None
    t = m.group(1).strip()
    w = t.split()[0].strip(".,;\"'") if t.split() else ""
    if w.lower() in ("true", "false"):
        return "bool", w.lower() == "true"
    if w == "None":
        return "none", None
    for k in range(min(len(t), 40), 0, -1):
        v = number(t[:k])
        if v is None or t[k - 1].isspace():
            continue
        rest = t[k:]
        if re.match(r"\s*[*/^]|\.\d|\w", rest):
            continue
        word = re.match(r"\s+([A-Za-z]+)", rest)
        if word and word.group(1) not in FOLLOW and unit_of(word.group(1)) is False:
            return None                       # "7075 aluminum": the number is part of a name
        return "num", v
    return None


def docstring(node):
    """the docstring and the string statements that directly follow it"""
    parts = []
    for k in node.body:
        if not (isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant) and isinstance(k.value.value, str)):
            break
        parts.append(inspect.cleandoc(k.value.value))
    return "\n\n".join(parts)


def docnode(cls):
    path = os.path.join(C.ROOT, cls.module.replace(".", "/") + ".py")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        body = ast.parse(open(path).read()).body
    for k in body:
        if isinstance(k, (ast.ClassDef, ast.FunctionDef)) and k.name == cls.name:
            return k, os.path.relpath(path, C.ROOT)
    return None, None


def plain(v):
    if isinstance(v, SArr) and v.size == 1:
        v = norm_elem(v.a.reshape(-1)[0])
    if isinstance(v, E):
        v = v.val if getattr(v, "op", None) == "const" else v
    return v


def variables(it, inst, got, anywhere):
    if inst.om.kind == "group":
        f = F.Flat(it, inst)
        opens = [p for p, _ in f.scope["open"]]
        for io in ("input", "output"):
            for nm, L in f.scope[io].items():
                for a in L:
                    v = f.vars[a if isinstance(a, str) else a[0]][1]
                    got.setdefault(nm, []).append((io, v.units, v.shape if io == "output" else None))
        return opens
    for io, d in (("input", inst.om.inputs), ("output", inst.om.outputs)):
        for n, v in d.items():
            got.setdefault(n, []).append((io, v.units, v.shape))
    return []


def check_class(cls, tier):
    r = Result()
    node, path = docnode(cls)
    if node is None:
        return r
    doc = entries(docstring(node))
    want = [(s, e) for s in ("Inputs", "Outputs") for e in doc.get(s, ())]
    opts = doc.get("Options", ())
    if not want and not opts:
        r.count("classes_without_interface_documentation")
        return r
    qual = cls.qual
    where = f"{path}:{node.lineno} {cls.name}"
    got, opens, od, n = {}, [], None, 0
    try:
        cfgs = C.enumerate_configs(cls, tier)
    except (Undecided, InterpRaise, OM.PromErr) as e:
        r.und(qual, f"configurations: {e}")
        return r
    for cfg in cfgs:
        try:
            it, inst = C.build(cfg)
            opens += variables(it, inst, got, None)
        except InterpRaise as e:
            if user_raise(e):
                r.count("configs_rejected_by_component")
            else:
                r.und(f"{qual} [{cfg.label}]", f"raises {e.exc}")
            continue
        except (Undecided, OM.PromErr) as e:
            r.und(f"{qual} [{cfg.label}]", str(e))
            continue
        n += 1
        od = inst.om.options.d
    if not n:
        return r
    r.count("classes")
    r.count("configs_decided", n)
    # the phases and missions document what the aircraft model they are given takes and returns
    interface(r, cls, qual, where, want, got, opens, "aircraft_model" in od)
    options(r, cls, qual, where, opts, od)
    r.count("classes_decided")
    return r


def interface(r, cls, qual, where, want, got, opens, model):
    tmpl = cls.name in TEMPLATED
    for sec, (name, typ, desc) in want:
        if name == "None":                    # "Outputs: None"
            continue
        vs = [x for k, v in got.items() if k == name or ("*" in name and fnmatch.fnmatchcase(k, name)) for x in v]
        if not vs:
            if tmpl or model or any(fnmatch.fnmatchcase(name, p) for p in opens) or (opens and "*" in name):
                r.count("names_not_decided")
                continue
            r.add(f"{qual}:documented:{name}", f"'{name}' is documented under {sec} but exists at the boundary in no configuration", where, "documented-name")
            continue
        r.count("names_checked")
        if "*" in name:
            continue
        kind, text = spec(desc)
        if kind is None:
            r.count("entries_without_shape_and_unit")
            continue
        if text:
            u = unit_of(text)
            if u is False:
                r.count("unit_texts_not_read")
            else:
                r.count("units_checked")
                bad = sorted({str(x[1]) for x in vs if not same_unit(x[1], u)})
                if bad and len(bad) == len({str(x[1]) for x in vs}):
                    r.add(f"{qual}:unit:{name}", f"'{name}' is documented in '{text}' and declared in '{bad[0]}'", where, "documented-unit")
        sz = {int(np.prod(x[2])) for x in vs if x[2] is not None}
        if not sz:                            # input of a group: the shape at the boundary is that of whatever is connected
            continue
        r.count("shapes_checked")
        if kind == "scalar" and sz != {1}:
            r.add(f"{qual}:shape:{name}", f"'{name}' is documented as a scalar and has sizes {sorted(sz)}", where, "documented-shape")
        elif kind == "vector" and sz == {1} and len(vs) > 1:
            r.add(f"{qual}:shape:{name}", f"'{name}' is documented as a vector and is a scalar in every configuration", where, "documented-shape")


def options(r, cls, qual, where, opts, od):
    for name, typ, desc in opts:
        o = od.get(name) if od is not None else None
        if o is None:
            if cls.name in TEMPLATED:
                r.count("names_not_decided")
            else:
                r.add(f"{qual}:option:{name}", f"option '{name}' is documented but not declared", where, "documented-option")
            continue
        r.count("options_checked")
        d = default_of(desc)
        if d is None:
            continue
        v = plain(o.default) if o.default is not OM.UNDEF_OPT else OM.UNDEF_OPT
        if d[0] == "num":
            if isinstance(v, SArr):
                ok = all(isinstance(plain(x), (int, float)) and abs(plain(x) - d[1]) <= 1e-6 * abs(d[1]) for x in v.a.reshape(-1))
            else:
                ok = isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool) and abs(v - d[1]) <= 5e-3 * abs(d[1])
        else:
            ok = v is d[1] or (isinstance(v, (bool, np.bool_)) and bool(v) == d[1])
        r.count("defaults_checked")
        if not ok:
            r.add(f"{qual}:default:{name}", f"the documented default of option '{name}' is {d[1]}, the declared one {'missing' if v is OM.UNDEF_OPT else v}", where, "documented-default")


NOT_ARGS = ("output", "return", "yield", "raise", "note", "example", "reference", "attribute", "see", "option")


def literal(n):
    """(True, value) of a literal default"""
    try:
        return True, ast.literal_eval(n)
    except (ValueError, SyntaxError, TypeError):
        v = number(ast.unparse(n))
        return (True, v) if v is not None else (False, None)


def check_module(mod, tier):
    """documented arguments of the functions and methods of a module; interface of the functions that make a component"""
    r = Result()
    path = os.path.join(C.ROOT, mod.replace(".", "/"))
    path = os.path.join(path, "__init__.py") if os.path.isdir(path) else path + ".py"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(open(path).read())
    rp = os.path.relpath(path, C.ROOT)
    owners = [("", tree)] + [(k.name + ".", k) for k in tree.body if isinstance(k, ast.ClassDef)]
    for own, o in owners:
        for fn in [k for k in o.body if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            doc = entries(docstring(fn))
            if not doc:
                continue
            if not own and "Inputs" in doc and "Outputs" in doc and {a.arg for a in fn.args.args} <= {"num_nodes", "plot"}:
                factory(r, mod, fn, doc, rp)
            else:
                arguments(r, mod, own, fn, doc, rp)
    return r


def arguments(r, mod, own, fn, doc, rp):
    a = fn.args
    pos = a.posonlyargs + a.args
    names = {x.arg for x in pos + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    where = f"{rp}:{fn.lineno} {own}{fn.name}"
    key = f"{mod}.{own}{fn.name}"
    for sec, L in doc.items():
        if sec.lower().startswith(NOT_ARGS):
            continue
        for nm, typ, desc in L:
            nm = nm.lstrip("*")
            r.count("arguments_checked")
            if nm not in names:
                if not a.kwarg and not a.vararg:
                    r.add(f"{key}:argument:{nm}", f"argument '{nm}' is documented but not taken", where, "documented-argument")
                continue
            d = default_of(desc)
            if d is None or nm not in dflt:
                continue
            known, v = literal(dflt[nm])
            if not known or (v is None and d[0] != "none"):       # None stands for "choose inside"
                continue
            r.count("argument_defaults_checked")
            if d[0] == "num":
                ok = isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v - d[1]) <= 5e-3 * abs(d[1])
            else:
                ok = v is d[1]
            if not ok:
                r.add(f"{key}:default:{nm}", f"the documented default of argument '{nm}' is {d[1]}, the one in the signature {v}", where, "documented-default")


def factory(r, mod, fn, doc, rp):
    """a function that makes a component and documents its inputs and outputs (engine decks)"""
    got = {}
    for nn in (1, 3):
        it = C.new_interp()
        try:
            it.load(mod)
            f = it.modules[mod].ns.get(fn.name)
            it.phase = "run"
            comp = it.call(f, [], {"num_nodes": nn})
        except (Undecided, InterpRaise) as e:
            r.und(f"{mod}.{fn.name}", str(e))
            return
        if not isinstance(comp, Inst) or comp.om is None:
            return
        for io, d in (("input", comp.om.s_in), ("output", comp.om.s_out), ("input", comp.om.inputs), ("output", comp.om.outputs)):
            for n, v in d.items():
                got.setdefault(n, []).append((io, v.units, tuple(v.shape)))

    class K:
        name = fn.name
    want = [(s, e) for s in ("Inputs", "Outputs") for e in doc.get(s, ())]
    r.count("functions_that_make_components")
    interface(r, K, f"{mod}.{fn.name}", f"{rp}:{fn.lineno} {fn.name}", want, got, [], False)


def run(tier, only=None):
    classes, _ = C.discover()
    items = [(c, tier) for c in classes.values() if not only or only in c.qual]
    r = pmap(check_class, items, limit=240 if tier == "quick" else 800)
    r.merge(pmap(check_module, [(m, tier) for m in C.all_modules(False) if not only or only in m], limit=240))
    return r
