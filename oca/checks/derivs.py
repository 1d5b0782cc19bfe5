"""C01 (explicit) and C04 (implicit): reported Jacobian equals the derivative of what is computed."""
import numpy as np
from .. import expr as X
from ..expr import E
from ..values import *
from ..interp import InterpRaise, Undecided
from .. import om as OM
from .. import comp as C
from .. import sample as S
from ..report import Result, seed_of, pmap
from .common import user_raise

REL = 5e-5      # constants in the sources are rounded to about six digits


def loc_text(loc):
    if not loc or loc[0] == "?":
        return ""
    return f"{C.rel(loc[0])}:{loc[1]}"


def method_line(it, inst, *names):
    for n in names:
        m = it.find_method(inst.cls, n)
        if isinstance(m, FuncObj):
            return f"{C.rel(m.module.path)}:{m.node.lineno} {inst.cls.name}.{n}"
    return inst.cls.qual


def wrt_syms(ev):
    """{wrt variable: list of symbol ids (flat)}"""
    out = {}
    for k, v in ev.ins.items():
        out[k] = [x.id for x in v.a.reshape(-1)]
    if ev.kind == "implicit":
        for k, v in ev.states.items():
            out[k] = [x.id for x in v.a.reshape(-1)]
    return out


def compare_jac(r, it, inst, ev, qual, label, rng, kind):
    """numerical comparison of the tangent of the output graph with the reported Jacobian graph"""
    ws = wrt_syms(ev)
    out_el = []
    for k, a in ev.outs.items():
        for i, e in enumerate(a.reshape(-1)):
            out_el.append((k, i, e))
    stale = {}
    for kk, s in ev.subs.items():
        fl, ini = s.stale.reshape(-1), s.init.reshape(-1)
        for i in range(fl.size):
            stale[fl[i].id] = ini[i]
    J = {}
    roots = []
    for (k, a) in ev.J.items():
        A = a
        for i, j in np.ndindex(*A.shape):
            e = A[i, j]
            if isinstance(e, E) and stale and (e.sup & stale.keys()):
                e = A[i, j] = X.subst(e, stale)
        J[k] = A
    for _, _, e in out_el:
        if isinstance(e, E):
            roots.append(e)
    nout = len(roots)
    for k, A in J.items():
        for e in A.reshape(-1):
            if isinstance(e, E):
                roots.append(e)
    allsyms = [s for w in ws.values() for s in w]
    if len(allsyms) * len(out_el) > 250000:
        r.und(f"{qual} [{label}]", "too large")
        return
    vals, n, st = S.points(roots, ev.assumptions, ev.known, rng, want=36)
    if vals is None or n == 0:
        r.und(f"{qual} [{label}]", "no sample point satisfies the input checks of the component")
        return
    r.count("condition_atoms", st["atoms"])
    r.count("condition_atoms_both_sides", st["both"])
    syms_in_graph = X.symbols(roots)
    for s in syms_in_graph:
        if s not in vals:
            vals[s] = np.ones(n, S.LD)
    memo = X.evaluate(roots, vals, n)
    out_roots = [e for _, _, e in out_el if isinstance(e, E)]
    act = [s for s in allsyms if s in syms_in_graph]
    idx = {s: i for i, s in enumerate(act)}
    T = {}
    CH = 64
    for c in range(0, max(len(act), 1), CH):
        chunk = act[c:c + CH]
        if not chunk:
            break
        t = S.tangents(out_roots, chunk, vals, n, memo)
        for rid, tt in t.items():
            if tt is not None:
                for i, s in enumerate(chunk):
                    T[(rid, s)] = tt[:, i]
    zero = np.zeros(n, S.LD)
    top_ids = {i for i in syms_in_graph if X.is_top_sym(i)}
    hastop = {}

    def topdep(e):
        if not isinstance(e, E):
            return False
        return bool(e.sup & top_ids) if top_ids else False
    bad_pairs = set()
    for k, i, e in out_el:
        for w, ss in ws.items():
            pair = (k, w)
            sub = ev.subs.get(pair)
            if sub is not None and sub.method != "exact":
                continue
            A = J.get(pair)
            for j, s in enumerate(ss):
                je = A[i, j] if A is not None else 0.0
                dep = isinstance(e, E) and s in e.sup
                if not dep and not isinstance(je, E) and je == 0:
                    continue
                if topdep(e) or topdep(je):
                    r.und(f"{qual} d({k})/d({w})", "depends on an unmodelled operation")
                    bad_pairs.add((pair, ""))
                    break
                r.count("entries_compared")
                D = T.get((e.id, s), zero) if isinstance(e, E) else zero
                Jv = memo[je.id] if isinstance(je, E) else np.full(n, S.LD(je))
                xv = vals.get(s)
                fv = memo[e.id] if isinstance(e, E) else np.full(n, S.LD(e))
                with np.errstate(all="ignore"):
                    scale = 1e-11 * np.abs(fv) / np.maximum(np.abs(xv) if xv is not None else 1.0, 1e-3)
                fin = np.isfinite(D) & np.isfinite(fv)
                bad = fin & ~S.close(D, Jv, np.where(np.isfinite(scale), scale, 0), REL)
                if not bad.any():
                    continue
                De = X.Differ(X.node(s))(e) if isinstance(e, E) else 0.0
                # a clipped (locally constant) output with a nonzero reported slope is a finding of its own kind
                for kind2, sel in (("", bad & (D != 0)), (" where constant", bad & (D == 0))):
                    if not sel.any() or (pair, "") in bad_pairs:
                        continue
                    if kind2 and not isinstance(e, E) or (kind2 and not dep):
                        kind2 = ""
                    if (pair, kind2) in bad_pairs:
                        continue
                    for p in np.nonzero(sel)[0][:8]:
                        ok, va, vb = S.confirm_neq(De, je, vals, p, REL, float(scale[p]) if np.isfinite(scale[p]) else 0.0)
                        if not ok:
                            continue
                        bad_pairs.add((pair, kind2))
                        what = "residual" if kind == "implicit" else "output"
                        decl = "" if sub is not None else " (not declared: counts as zero)"
                        if sub is not None and sub.kind == "sparse":
                            if not any(a == i and b == j for a, b in zip(sub.rows, sub.cols)):
                                decl = " (outside the declared rows/cols: counts as zero)"
                        at = S.point_text(vals, p, X.symbols([x for x in (De, je, e) if isinstance(x, E)]) or [s])
                        r.add(f"{qual}:d({k})/d({w}){kind2}",
                              f"{what} '{k}[{i}]' has derivative {float(va):.8g} with respect to '{w}[{j}]' but the component reports {float(vb):.8g}{decl} [config {label}] at {at}",
                              method_line(it, inst, "compute_partials", "linearize", "setup"), "jacobian-vs-tangent")
                        break
    r.count("pairs", len(ev.subs))
    r.count("configs_decided")


def check_class(qual, name, kind, tier, prop, only=None):
    r = Result()
    cls = C.Cls()
    cls.qual, cls.name, cls.module, cls.kind = qual, name, qual.rsplit(".", 1)[0], kind
    try:
        cfgs = C.enumerate_configs(cls, tier)
    except (Undecided, InterpRaise, OM.PromErr) as e:
        r.und(qual, f"configurations: {e}")
        return r
    good = 0
    for cfg in cfgs:
        try:
            it, inst = C.build(cfg)
        except InterpRaise:
            r.count("configs_rejected_by_component")
            continue
        except Undecided as e:
            r.und(f"{qual} [{cfg.label}]", e)
            continue
        if inst.om.kind != kind:
            continue
        r.count("configs")
        try:
            mname = "linearize" if kind == "implicit" else "compute_partials"
            if not C.has_method(it, inst, mname) and all(d.method != "exact" for d in inst.om.decls) and inst.om.decls:
                r.count("configs_without_analytic_partials")
                good += 1
                continue
            ev = C.run_eval(it, inst)
        except InterpRaise as e:
            if user_raise(e):
                r.und(f"{qual} [{cfg.label}]", f"evaluation raises {e.exc}")
            else:
                r.add(f"{qual}:evaluation fails", f"the derivatives cannot be evaluated: {e.exc} [config {cfg.label}]", loc_text(e.loc), "evaluation-fails")
            continue
        except OM.PromErr as e:
            r.und(f"{qual} [{cfg.label}]", f"declaration: {e.msg}")
            continue
        except Undecided as e:
            r.und(f"{qual} [{cfg.label}]", f"{e} at {loc_text(it.loc)}")
            continue
        rng = np.random.default_rng(seed_of(prop, qual, cfg.label))
        compare_jac(r, it, inst, ev, qual, cfg.label, rng, kind)
        good += 1
    r.count("classes")
    if good:
        r.count("classes_decided")
    return r


def run_c01(tier, only=None):
    classes, _ = C.discover()
    items = [(c.qual, c.name, "explicit", tier, "C01") for c in classes.values() if c.kind == "explicit" and (not only or only in c.qual)]
    return pmap(check_class, items, limit=240 if tier == "quick" else 800)


def run_c04(tier, only=None):
    classes, _ = C.discover()
    items = [(c.qual, c.name, "implicit", tier, "C04") for c in classes.values() if c.kind == "implicit" and (not only or only in c.qual)]
    return pmap(check_class, items, limit=240 if tier == "quick" else 800)
