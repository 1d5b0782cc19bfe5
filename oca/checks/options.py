"""C17: every declared option takes effect, and groups forward their options to the parts that take them.

The effect of an option is computed from two abstract builds of the class (base value / other value; a float option is a
symbol): for components the outputs whose value graph depends on it and the metadata it changes, for groups the options,
values and number of the internal parts it reaches.  oca/effects.json holds the reviewed effects; a check run demands that
every recorded effect is still there (new effects are fine)."""
import collections
import json
import os
import numpy as np
from .. import flat as F
from .. import npmodel as NP
from .common import *

TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "effects.json")
_tab = None
FORCE = {
    "VLMDragPolar": {"surf_options": [{}, {"with_wave": False}]}, "VLM": {"surf_options": [None, {"with_wave": False}]},
    "AerostructDragPolar": {"surf_options": [{}, {"E": 7e10}]}, "Aerostruct": {"surf_options": [None, {"E": 7e10}]},
    "AerostructDragPolarExact": {"surf_options": [None, {"E": 7e10}]}, "CLmaxCriticalSectionVLM": {"surf_options": [None, {"with_viscous": False}]},
}
TRAIN = {"Mach_train": np.array([0.2, 0.7]), "alpha_train": np.array([-3.0, 2.0, 9.0]), "alt_train": np.array([0.0, 5000.0])}


def table():
    global _tab
    if _tab is None:
        _tab = json.load(open(TABLE)) if os.path.exists(TABLE) else {"classes": {}}
    return _tab


# ------------------------------------------------------------------ option values <-> json
def enc(v):
    if isinstance(v, E):
        return {"$sym": str(v.data) if hasattr(v, "data") else "?"}
    if isinstance(v, C.ClassRef):
        return {"$cls": v.qual}
    if isinstance(v, np.ndarray):
        return {"$arr": [float(x) for x in v]}
    if isinstance(v, SArr):
        return {"$arr": [float(x) for x in v.a.reshape(-1)]}
    return v


def dec(v, k):
    if isinstance(v, dict):
        if "$sym" in v:
            return C.sym_option(k)
        if "$cls" in v:
            return C.ClassRef(v["$cls"])
        if "$arr" in v:
            return wrap(np.array(v["$arr"]))
    return v


def alternatives(cls, tier):
    a = C.option_alternatives(cls, tier)
    for k in list(a):
        if k in TRAIN:
            a[k] = [a[k][0], wrap(TRAIN[k].copy())]
        if k in FORCE.get(cls.name, {}):
            a[k] = FORCE[cls.name][k]
        if k in ("num_nodes", "vec_size"):
            a[k] = a[k][:2]
    return a


def cases(cls, tier):
    """list of (context kw, option, alternative value); the context differs from the base in at most one option"""
    a = alternatives(cls, tier)
    base = {k: v[0] for k, v in a.items()}
    ctxs = [({}, base)]
    for k, vs in a.items():
        for v in vs[1:]:
            kw = dict(base)
            kw[k] = v
            ctxs.append(({k: v}, kw))
    out = []
    for delta, kw in ctxs:
        for k, vs in a.items():
            if k in delta:
                continue
            if isinstance(vs[0], E):
                out.append((delta, kw, k, None))
            else:
                for v in vs[1:]:
                    out.append((delta, kw, k, v))
    return a, base, out


# ------------------------------------------------------------------ profiles
def txt(v):
    from .generic import vtext
    return repr(vtext(v))


class Prof:
    pass


def profile(cfg, rng):
    """description of one abstract build"""
    p = Prof()
    p.err = None
    try:
        it, inst = C.build(cfg)
    except InterpRaise as e:
        if not user_raise(e):
            raise
        p.err = str(e.exc)[:60]
        return p
    p.it, p.inst = it, inst
    p.kind = inst.om.kind
    if p.kind == "group":
        p.sys = []
        walk(inst, "", p.sys)
        f = p.f = F.Flat(it, inst)
        p.bound = {("in", nm) for nm in f.top_in if "." not in nm} | {("out", nm) for nm in f.scope["output"] if "." not in nm}
        p.top = {}
        for nm, L in f.top_in.items():
            if "." in nm:
                continue
            for a, ch in L:
                p.top.setdefault(nm, []).append(a)
        p.defs = {d[0]: (txt(d[1]), d[2]) for d in inst.om.defs}
        p.defvals = {d[0]: d[1] for d in inst.om.defs}
    else:
        p.ev = C.run_eval(it, inst, partials=False)
    return p


def walk(g, path, out):
    for n, s in g.om.subs.items():
        q = f"{path}.{n}" if path else n
        if isinstance(s, OM.ExtSys):
            out.append((q, s, "ext:" + str(s.cname)))
            continue
        out.append((q, s, s.cls.name if isinstance(s.cls, ClsObj) else getattr(s.cls, "name", "?")))
        if s.om.kind == "group":
            walk(s, q, out)


def contains(v, sid, depth=0):
    """does a value contain the option symbol?"""
    if isinstance(v, E):
        return sid in v.sup
    if isinstance(v, SArr) or isinstance(v, Sparse):
        return any(isinstance(x, E) and sid in x.sup for x in v.a.reshape(-1))
    if depth > 4:
        return False
    if isinstance(v, (list, tuple)):
        return any(contains(x, sid, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(contains(x, sid, depth + 1) for x in v.values())
    return False


def meta(v):
    return {"units": v.units, "shape": v.shape, "val": txt(v.val) if v.val is not None else None, "lower": txt(v.lower), "upper": txt(v.upper), "tags": txt(sorted(v.tags) if isinstance(v.tags, (list, set, tuple)) else v.tags)}


def comp_facts_sym(p, k, rng):
    """facts of a symbolic option in one component build"""
    s = C.sym_option(k)
    facts = set()
    for o, a in p.ev.outs.items():
        und = False
        for e in a.reshape(-1):
            if isinstance(e, E) and s.id in e.sup:
                s1, s2 = X.sym(f"opt:{k}"), X.sym(f"opt:{k}'")
                known = dict(p.ev.known)
                if f"opt:{k}" in known:
                    known[f"opt:{k}'"] = known[f"opt:{k}"]
                d = differs(e, {s.id: s1}, {s.id: s2}, p.ev.assumptions, known, rng)
                if d == "undecided":
                    und = True
                elif d is not None:
                    facts.add(f"value:{o}")
                    break
        if und and f"value:{o}" not in facts:
            facts.add(f"?value:{o}")
    for io in ("inputs", "outputs"):
        for n, v in getattr(p.inst.om, io).items():
            for at in ("val", "lower", "upper"):
                if contains(getattr(v, at), s.id):
                    facts.add(f"meta:{n}.{at}")
    return facts


def comp_facts_pair(p, q, rng):
    facts = set()
    for io in ("inputs", "outputs"):
        A, B = getattr(p.inst.om, io), getattr(q.inst.om, io)
        for n in set(A) | set(B):
            if (n in A) != (n in B):
                facts.add(f"exists:{n}")
                continue
            a, b = meta(A[n]), meta(B[n])
            for at in a:
                if at == "val" and a["shape"] != b["shape"]:
                    continue
                if a[at] != b[at]:
                    facts.add(f"meta:{n}.{at}")
    known = dict(q.ev.known)
    known.update(p.ev.known)
    for o in set(p.ev.outs) & set(q.ev.outs):
        a, b = p.ev.outs[o].reshape(-1), q.ev.outs[o].reshape(-1)
        if a.size != b.size:
            continue
        und = False
        for x, y in zip(a, b):
            if x is y:
                continue
            d = S.compare(x, y, list(p.ev.assumptions) + list(q.ev.assumptions), known, rng)
            if d == "undecided":
                und = True
            elif d is not None:
                facts.add(f"value:{o}")
                break
        if und and f"value:{o}" not in facts:
            facts.add(f"?value:{o}")
    return facts


def who(p, path):
    """names at the boundary of the group that identify an internal part: what feeds it and what it provides"""
    if not hasattr(p, "who"):
        p.who = collections.defaultdict(set)
        for io, sc in (("<", p.f.scope["input"]), (">", p.f.scope["output"])):
            for nm, L in sc.items():
                if "." in nm:
                    continue
                for a in L:
                    a = a[0] if isinstance(a, tuple) else a
                    q = a
                    while "." in q:
                        q = q.rsplit(".", 1)[0]
                        p.who[q].add(io + nm)
        base = {q: {n for n in v if n[0] == "<"} for q, v in p.who.items()}
        for a, c in p.f.conn.items():
            src = c.src.rsplit(".", 1)[0]
            q = a.rsplit(".", 1)[0]
            if not c.src.startswith("?"):
                p.who[q] |= {"<" + n for n in base.get(src, ())}
    return sorted(p.who[path])


def own_options(s):
    o = s.om.options
    return {k: (p.val if p.isset else None) for k, p in o.d.items()}


def part_values(p, ch):
    """value graph of a part whose behaviour is set by its equation table, not by options"""
    memo = p.__dict__.setdefault("pv", {})
    if id(ch) not in memo:
        try:
            ev = C.run_eval(p.it, ch, partials=False)
            memo[id(ch)] = (ev, {o: a.reshape(-1) for o, a in ev.outs.items()})
        except (Undecided, InterpRaise, OM.PromErr):
            memo[id(ch)] = None
    return memo[id(ch)]


UTIL = ("AddSubtractComp", "ElementMultiplyDivideComp", "VectorConcatenateComp", "VectorSplitComp", "DVLabel", "ExecComp", "SelectorComp",
        "Integrator", "DictIndepVarComp", "ConvertSegmentNames")


def child_value(v):
    return v if isinstance(v, (int, str, bool, float)) and not isinstance(v, E) or v is None else "~"


def group_facts_sym(p, k):
    s = C.sym_option(k)
    opt = collections.defaultdict(lambda: [0, 0, 0])
    var = collections.defaultdict(lambda: [0, 0])
    ids = collections.defaultdict(list)
    for path, ch, cn in p.sys:
        if isinstance(ch, OM.ExtSys):
            hit = contains(ch.args, s.id)
            if hit:
                var[f"{cn}"][1] += 1
            var[f"{cn}"][0] += 1
            continue
        hit = False
        for o, v in own_options(ch).items():
            r = opt[f"{cn}.{o}"]
            r[0] += 1
            if contains(v, s.id):
                hit = True
                r[1] += 1
                r[2] += v is s
                ids[f"{cn}.{o}"].append(who(p, path))
        if ch.om.kind != "group":
            for io in ("inputs", "outputs"):
                for n, v in getattr(ch.om, io).items():
                    r = var[f"{cn}.{n}"]
                    r[0] += 1
                    if not hit and (contains(v.val, s.id)):
                        r[1] += 1
            if cn in UTIL:
                r = var[f"{cn}#value"]
                r[0] += 1
                pv = None if hit else part_values(p, ch)
                if pv and any(isinstance(e, E) and s.id in e.sup for a in pv[1].values() for e in a):
                    r[1] += 1
    facts = {}
    for kk, r in opt.items():
        if r[1]:
            facts["opt:" + kk] = r + ([sorted(ids[kk])] if r[1] < r[0] else [])
    for kk, r in var.items():
        if r[1]:
            facts["var:" + kk] = r
    for n, v in p.defvals.items():
        if contains(v, s.id):
            facts["default:" + n] = [1, 1]
    return facts, opt, var


def pair_differs(pa, pb, rng):
    known = dict(pb[0].known)
    known.update(pa[0].known)
    for o in pa[1]:
        a, b = pa[1][o], pb[1].get(o)
        if b is None or a.size != b.size:
            return True
        for x, y in zip(a, b):
            if x is not y and S.compare(x, y, list(pa[0].assumptions) + list(pb[0].assumptions), known, rng) not in (None, "undecided"):
                return True
    return False


def group_facts_pair(p, q, rng):
    facts = {}
    A = {path: (ch, cn) for path, ch, cn in p.sys}
    opt = collections.defaultdict(lambda: [0, 0])
    vals = collections.defaultdict(list)
    ids = collections.defaultdict(list)
    var = collections.defaultdict(lambda: [0, 0])
    ca = collections.Counter(cn for _, _, cn in p.sys)
    cb = collections.Counter(cn for _, _, cn in q.sys)
    for cn in set(ca) | set(cb):
        if ca[cn] != cb[cn]:
            facts["count:" + cn] = [ca[cn], cb[cn]]
    for path, ch, cn in q.sys:
        if path not in A or A[path][1] != cn:
            continue
        oc = A[path][0]
        if isinstance(ch, OM.ExtSys):
            t = [txt(z.args) for z in (oc, ch)]
            var[cn][0] += 1
            var[cn][1] += t[0] != t[1]
            continue
        hit = False
        oa = own_options(oc)
        for o, v in own_options(ch).items():
            r = opt[f"{cn}.{o}"]
            r[0] += 1
            if o in oa and txt(oa[o]) != txt(v):
                hit = True
                r[1] += 1
                vals[f"{cn}.{o}"].append(child_value(v))
                ids[f"{cn}.{o}"].append(who(q, path))
        if ch.om.kind != "group":
            for io in ("inputs", "outputs"):
                VA = getattr(oc.om, io)
                for n, v in getattr(ch.om, io).items():
                    r = var[f"{cn}.{n}"]
                    r[0] += 1
                    if not hit and (n not in VA or meta(VA[n]) != meta(v)):
                        r[1] += 1
            if cn in UTIL:
                r = var[f"{cn}#value"]
                r[0] += 1
                if not hit:
                    pa, pb = part_values(p, oc), part_values(q, ch)
                    r[1] += bool(pa and pb and pair_differs(pa, pb, rng))
    for kk, r in opt.items():
        if r[1]:
            facts["opt:" + kk] = r + [sorted(vals[kk], key=repr)] + ([sorted(ids[kk])] if r[1] < r[0] else [])
    for kk, r in var.items():
        if r[1]:
            facts["var:" + kk] = r
    for io, n in p.bound ^ q.bound:
        facts[f"boundary-{io}:{n}"] = [1, 1]
    for n in set(p.defs) | set(q.defs):
        if p.defs.get(n) != q.defs.get(n):
            facts["default:" + n] = [1, 1]
    cut = set(A) & {path for path, _, _ in q.sys}
    fa = {a: s.src for a, s in p.f.conn.items()}
    fb = {a: s.src for a, s in q.f.conn.items()}
    n = 0
    for a in set(p.f.vars) & set(q.f.vars):
        if fa.get(a) != fb.get(a):
            n += 1
    if n:
        facts["wiring:changes"] = [1, 1]
    return facts, opt, var


def facts_of(cls, kw, k, alt, cache, rng):
    """(facts, totals) of changing option k from the context"""
    def prof(kw):
        key = tuple(sorted((n, txt(v) if not isinstance(v, C.ClassRef) else v.qual) for n, v in kw.items()))
        if key not in cache:
            lab = ", ".join(C.opt_label(n, v) for n, v in kw.items())
            cache[key] = profile(C.Config(cls.qual, kw, lab), rng)
        return cache[key]
    p = prof(kw)
    if p.err is not None:
        return None, None
    if alt is None:
        if p.kind == "group":
            f, o, v = group_facts_sym(p, k)
            return f, (o, v)
        return {x: [1, 1] for x in comp_facts_sym(p, k, rng)}, None
    kw2 = dict(kw)
    kw2[k] = alt
    q = prof(kw2)
    if q.err is not None:
        return {"rejected": [1, 1]}, None
    if p.kind == "group":
        f, o, v = group_facts_pair(p, q, rng)
        return f, (o, v)
    return {x: [1, 1] for x in comp_facts_pair(p, q, rng)}, None


# ------------------------------------------------------------------ recording (tools/effects.py)
def collect_class(qual, name, kind):
    cls = C.Cls()
    cls.qual, cls.name, cls.kind = qual, name, kind
    cls.module = qual.rsplit(".", 1)[0]
    out, und = [], []
    rng = np.random.default_rng(seed_of("C17", qual))
    try:
        a, base, cs = cases(cls, "quick")
    except (Undecided, InterpRaise) as e:
        return qual, None, [str(e)]
    cache = {}
    for delta, kw, k, alt in cs:
        try:
            f, _ = facts_of(cls, kw, k, alt, cache, rng)
        except (Undecided, InterpRaise, OM.PromErr, RecursionError) as e:
            und.append(f"{k} {delta}: {e}"[:200])
            continue
        if f is None:
            continue
        out.append({"ctx": {n: enc(v) for n, v in delta.items()}, "opt": k, "alt": enc(alt) if alt is not None else None,
                    "facts": {n: v for n, v in sorted(f.items()) if not n.startswith("?")}})
    return qual, {"base": {n: enc(v) for n, v in base.items()}, "cases": out}, und


# ------------------------------------------------------------------ check
# options without any effect on the model by design: the class only declares them for its subclasses, or the effect is a printed warning
NO_EFFECT = {("PhaseGroup", "num_nodes"), ("QMaxWarning", "q_max_warn")}


def show(delta, kw):
    return ", ".join(C.opt_label(k, v) for k, v in delta.items()) or "default options"


def missing(kind, facts, tot, rec, p):
    """recorded facts that no longer hold: (key, text)"""
    out = []
    for fk, r in rec.items():
        k, n = fk.split(":", 1)
        if k == "rejected":
            continue
        cur = facts.get(fk)
        if k in ("value", "meta", "exists"):
            if cur is None and "?" + fk not in facts:
                o = n.rsplit(".", 1)[0] if k == "meta" else n
                if k != "exists" and o not in p.inst.om.outputs and o not in p.inst.om.inputs:
                    continue
                out.append((fk, {"value": f"no longer influences '{n}'", "meta": f"no longer sets {n.rsplit('.', 1)[-1]} of '{o}'",
                                 "exists": f"no longer adds or removes '{n}'"}[k]))
        elif k in ("opt", "var"):
            c = tot[0 if k == "opt" else 1].get(n)
            if c is None or c[0] == 0:
                continue
            what = f"option '{n.rsplit('.', 1)[1]}' of {n.rsplit('.', 1)[0]}" if k == "opt" else f"'{n}'"
            if c[0] - c[1] > r[0] - r[1]:
                out.append((fk, f"reaches {what} in {c[1]} of {c[0]} internal parts ({r[1]} of {r[0]} take it)"))
            elif k == "opt" and c[0] == r[0] and c[1] == r[1]:
                if isinstance(r[2], list):
                    if cur is not None and cur[2] != r[2]:
                        out.append((fk, f"{what} receives {cur[2]} instead of {r[2]}"))
                elif c[2] < r[2]:
                    out.append((fk, f"is altered on the way to {what}"))
                if len(r) > 3 and cur is not None and len(cur) > 3 and cur[3] != r[3]:
                    new = [x for x in cur[3] if x not in r[3]]
                    old = [x for x in r[3] if x not in cur[3]]
                    if len(new) == len(old) == 1 and set(old[0]) - set(new[0]) and set(new[0]) - set(old[0]):
                        out.append((fk, f"reaches {what} of the part at {', '.join(sorted(set(new[0]) - set(old[0]))[:3])} instead of the one at {', '.join(sorted(set(old[0]) - set(new[0]))[:3])}"))
        elif k == "count":
            if cur is None and any(cn == n for _, _, cn in p.sys):
                out.append((fk, f"no longer changes the number of {n} parts"))
            elif cur is not None and (cur[0] - cur[1]) * (r[0] - r[1]) < 0:
                out.append((fk, f"changes the number of {n} parts from {cur[0]} to {cur[1]} instead of {r[0]} to {r[1]}"))
        elif cur is None:
            out.append((fk, {"boundary-in": f"no longer adds or removes the input '{n}'", "boundary-out": f"no longer adds or removes the output '{n}'",
                             "default": f"no longer sets the default of '{n}'", "wiring": "no longer changes the wiring"}[k]))
    return out


def _check(qual, name, kind, tier):
    if kind in ("surface", "warning"):
        try:
            return _surface(qual, name) if kind == "surface" else _warning(qual)
        except (Undecided, InterpRaise, OM.PromErr) as e:
            r = Result()
            r.und(qual, f"{kind}: {e}")
            return r
    r = Result()
    cls = C.Cls()
    cls.qual, cls.name, cls.kind, cls.module = qual, name, kind, qual.rsplit(".", 1)[0]
    rng = np.random.default_rng(seed_of("C17", qual))
    rec = table()["classes"].get(qual)
    try:
        a, base, cs = cases(cls, tier)
        it, inst = None, None
    except (Undecided, InterpRaise) as e:
        r.und(qual, f"options: {e}")
        return r
    cache, reach, todo = {}, {}, []
    known = set()
    r.count("classes")
    if rec is not None:
        b = {k: dec(v, k) for k, v in rec["base"].items() if k in a}
        for k in a:
            b.setdefault(k, base[k])
        for c in rec["cases"]:
            if c["opt"] not in a:
                if c["opt"] not in known:
                    known.add(c["opt"])
                    r.add(f"{qual}:option {c['opt']}:gone", f"the class no longer declares option '{c['opt']}'", qual, "option-gone")
                continue
            delta = {k: dec(v, k) for k, v in c["ctx"].items() if k in a}
            kw = dict(b)
            kw.update(delta)
            sym = c["alt"] is None and isinstance(base[c["opt"]], E)
            todo.append((delta, kw, c["opt"], None if sym else dec(c["alt"], c["opt"]), c["facts"]))
            known.add(c["opt"])
    for delta, kw, k, alt in cs:
        if k not in known or (rec is None):
            todo.append((delta, kw, k, alt, {}))
    line = qual
    for delta, kw, k, alt, want in todo:
        reach.setdefault(k, False)
        lab = f"{show(delta, kw)}; {k}" + ("=*" if alt is None else f" -> {alt!r}"[:60])
        try:
            facts, tot = facts_of(cls, kw, k, alt, cache, rng)
        except InterpRaise as e:
            if set(want) - {"rejected"}:
                r.add(f"{qual}:option {k}:fails", f"option '{k}' [{lab}]: the model fails with {e.exc}", loc_text(e.loc), "option-fails")
            continue
        except (Undecided, OM.PromErr, RecursionError) as e:
            r.und(f"{qual} [{lab}]", str(e))
            reach[k] = None
            continue
        if facts is None or "rejected" in facts:
            if set(want) - {"rejected"}:
                r.add(f"{qual}:option {k}:rejected", f"option '{k}' [{lab}]: the value is rejected", qual, "option-rejected")
            continue
        if line == qual:
            p = next(iter(cache.values()))
            if p.err is None:
                line = method_line(p.it, p.inst, "setup")
        r.count("cases")
        r.count("effects_checked", len(want))
        if facts and reach[k] is not None:
            reach[k] = True
        if want:
            p = [x for x in cache.values() if x.err is None]
            kw2 = dict(kw)
            if alt is not None:
                kw2[k] = alt
            pk = tuple(sorted((n, txt(v) if not isinstance(v, C.ClassRef) else v.qual) for n, v in kw2.items()))
            pk = pk if alt is not None else tuple(sorted((n, txt(v) if not isinstance(v, C.ClassRef) else v.qual) for n, v in kw.items()))
            for fk, msg in missing(kind, facts, tot, want, cache[pk]):
                r.add(f"{qual}:option {k}:{fk}", f"option '{k}' of {name} {msg} [{lab}]", line, "option-effect")
    for k, v in reach.items():
        r.count("options")
        if v is False and (name, k) not in NO_EFFECT and any(x[2] == k for x in todo):
            r.add(f"{qual}:option {k}:no effect", f"option '{k}' of {name} influences nothing: no output, variable or internal part changes with it", line, "option-without-effect")
    r.count("classes_decided")
    return r


SURF = {"drag_polar.VLM": ({"CD0": 0.01, "k_lam": 0.2, "with_wave": False}, {"ref_axis_pos": 0.3, "S_ref_type": "wetted", "CL0": 0.02}, {}),
        "aerostructural.Aerostruct": ({"E": 7e10, "struct_weight_relief": True}, {"struct_weight_relief": False, "CD0": 0.01, "groundplane": False}, {"wing_weight_ratio": 2.0, "exact_failure_constraint": True}, {})}


def _surface(qual, key):
    """what OpenAeroStruct is handed: the user's surface options as they are, a mesh of the requested size, and the connections that its
    options ask for"""
    r = Result()
    for user in SURF[key]:
        for nx, ny in ((1, 2), (3, 5)):
            kw = dict(num_x=nx, num_y=ny)
            if user:
                kw["surf_options"] = dict(user)
            it, inst = C.build(C.Config(qual, kw, f"num_x={nx} num_y={ny} surf_options={user}"))
            loc = method_line(it, inst, "setup")
            lab = f"[num_x={nx} num_y={ny} surf_options={user}]"
            found = []

            def seek(x, path, depth=0):
                if isinstance(x, dict):
                    if "symmetry" in x and "mesh" in x:
                        found.append((path, x))
                    else:
                        for v in x.values():
                            seek(v, path, depth + 1)
                elif isinstance(x, (list, tuple)) and depth < 5:
                    for v in x:
                        seek(v, path, depth + 1)
            sys_ = []
            walk(inst, "", sys_)
            for path, ch, cn in sys_:
                if isinstance(ch, OM.ExtSys) and ch.args is not None:
                    seek(ch.args, path)
            if not found:
                r.und(f"{qual} surface", "no surface dictionary is handed to OpenAeroStruct")
                continue
            for path, d in found:
                r.count("surfaces_checked")
                for k, v in user.items():
                    if k not in d or not (d[k] == v or txt(d[k]) == txt(v)):
                        r.add(f"{qual}:surface option {k}", f"the surface handed to '{path}' has {k} = {txt(d[k]) if k in d else 'nothing'}, the user gave {v} {lab}", loc, "option-forwarding")
                m = d["mesh"]
                shp = getattr(m, "shape", None)
                if shp is not None and tuple(shp) != (nx + 1, ny + 1, 3):
                    r.add(f"{qual}:surface mesh", f"the surface handed to '{path}' has a mesh of shape {tuple(shp)} for {nx} by {ny} panels {lab}", loc, "option-forwarding")
            if key.endswith("Aerostruct"):
                relief = found[-1][1].get("struct_weight_relief", False)
                tg = [t for t in ext_targets(inst) if t.endswith("coupled.wing.element_mass")]
                if bool(relief) != bool(tg):
                    r.add(f"{qual}:weight relief", f"structural weight relief is {bool(relief)} but the element masses are {'' if tg else 'not '}connected {lab}", loc, "option-forwarding")
                r.count("surfaces_checked")
    r.count("classes_decided")
    return r


def _warning(qual):
    """the user is warned when, at any analysis point, the heat asked for exceeds the stated fraction of the maximum, and only then"""
    r = Result()
    for frac in (0.75, 0.4):
        for q, qm in (((1.0, 2.0, 3.0), (10.0, 10.0, 10.0)), ((1.0, 2.0, 9.5), (10.0, 10.0, 10.0)), ((9.5, 2.0, 3.0), (10.0, 10.0, 10.0)), ((5.0, 5.0, 5.0), (100.0, 6.0, 100.0)),
                      ((5.0, 5.0, 5.0), (6.0, 6.0, 6.0)), ((5.0, 1.0, 1.0), (100.0, 6.0, 6.0)), ((7.0, 1.0, 1.0), (10.0, 10.0, 10.0))):
            it = C.new_interp()
            inst = C.construct(it, C.Config(qual, dict(num_nodes=3, q_max_warn=frac), ""), protect=False)
            OM.setup_top(it, inst)
            it.phase = "run"
            n0 = len([e for e in it.events if e.kind == "warn"])
            ins = {"q": NP.asarr(it, np.array(q)), "q_max": NP.asarr(it, np.array(qm))}
            C.callm(it, inst, "compute", OM.Vec("input", ins, False), OM.Vec("output", {}, True))
            got = len([e for e in it.events if e.kind == "warn"]) > n0
            want = any(a > frac * b for a, b in zip(q, qm))
            r.count("warnings_checked")
            if got != want:
                r.add(f"{qual}:q_max_warn", f"q={q} W with q_max={qm} W and q_max_warn={frac}: the user is {'' if got else 'not '}warned", method_line(it, inst, "compute"), "option-effect")
                return r
    r.count("classes_decided")
    return r


def ext_targets(inst):
    return [c[1] for c in inst.om.s_conns + inst.om.conns]


def run(tier, only=None):
    classes, _ = C.discover()
    items = [(c.qual, c.name, c.kind, tier) for c in classes.values() if c.kind in ("explicit", "implicit", "group")
             and c.name not in C.DRIVERS and (not only or only in c.qual)]
    items += [(c.qual, k, "surface", tier) for c in classes.values() for k in SURF if c.qual.endswith("." + k) and (not only or only in "surface" or only in c.qual)]
    items += [(c.qual, c.name, "warning", tier) for c in classes.values() if c.name == "QMaxWarning" and (not only or only in "warning" or only in c.qual)]
    return pmap(_check, items, limit=240 if tier == "quick" else 800)
