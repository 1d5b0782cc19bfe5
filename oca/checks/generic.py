"""C02 structure, C03 complex step, C05 history independence, C06 side effects, C07 construction, C08 pointwise"""
import re
import numpy as np
from .common import *
from .derivs import wrt_syms

def where(e):
    """name of the function an effect comes from (so that one cause gives one finding)"""
    f = e.func
    if f is None:
        return loc_text(e.loc).split(":")[0]
    m = C.rel(f.module.path) if getattr(f, "module", None) is not None else ""
    return f"{m}:{f.cls.name + '.' if getattr(f, 'cls', None) else ''}{f.name}"


# ------------------------------------------------------------------------------------------------ C02
def c02(ctx):
    r, qual, label = ctx.r, ctx.qual, ctx.label
    try:
        it, inst = C.build(ctx.cfg)
    except InterpRaise as e:
        if not user_raise(e) and e.loc and "declare_partials" in str(getattr(e.exc, "args", "")):
            pass
        if user_raise(e):
            raise
        if getattr(e.exc, "decl", False):
            r.add(f"{qual}:declaration", f"{e.exc} [config {label}]", loc_text(e.loc), "malformed-declaration")
            return
        raise
    if inst.om.kind not in ("explicit", "implicit"):
        return False
    ev = C.run_eval(it, inst, partials=False)
    try:
        ev.subs = OM.resolve_partials(it, inst, "0")
    except OM.PromErr as e:
        r.add(f"{qual}:declaration:{re.sub(r'[0-9]+', '#', e.msg)[:60]}", f"{e.msg} [config {label}]", loc_text(e.loc), "malformed-declaration")
        return
    jac = OM.Jac(ev.subs)
    ass = list(it.assumptions)
    mname = "linearize" if inst.om.kind == "implicit" else "compute_partials"
    has = C.has_method(it, inst, mname)
    if has:
        try:
            if inst.om.kind == "implicit":
                C.callm(it, inst, "linearize", ev.vi, ev.vo, jac)
            else:
                C.callm(it, inst, "compute_partials", ev.vi, jac)
        except InterpRaise as e:
            if user_raise(e):
                raise
            if "partial" in str(e.exc) or "must first be declared" in str(e.exc) or "sub-jacobian" in str(e.exc):
                r.add(f"{qual}:assignment:{re.sub(r'[0-9]+', '#', str(e.exc))[:80]}", f"{mname} fails: {e.exc} [config {label}]", loc_text(e.loc), "assignment-shape")
                return
            raise
    for k, msg, loc in jac.errors:
        r.add(f"{qual}:{k}:{msg[:40]}", f"d({k[0]})/d({k[1]}): {msg} [config {label}]", loc_text(loc), "outside-sparsity")
    if has and it.sparse_values:
        zero_values(ctx, it, inst, mname)
    ws = wrt_syms(ev)
    outs = [(k, i, e) for k, a in ev.outs.items() for i, e in enumerate(a.reshape(-1))]
    roots = [e for _, _, e in outs if isinstance(e, E)]
    # ---- coverage of dependences
    cover = {}
    for k, s in ev.subs.items():
        if s.kind == "sparse" and s.method == "exact":
            cover[k] = set(zip(s.rows.tolist(), s.cols.tolist()))
        elif s.kind == "sparse":
            cover[k] = set(zip(s.rows.tolist(), s.cols.tolist()))
        elif s.pat is not None and not has:
            cover[k] = set(zip(*[x.tolist() for x in np.nonzero(s.pat)]))
        else:
            cover[k] = None
    unc = []
    for k, i, e in outs:
        if not isinstance(e, E):
            continue
        for w, ss in ws.items():
            cv = cover.get((k, w), ())
            if cv is None:
                r.count("dependences_checked", sum(1 for s in ss if s in e.sup))
                continue
            for j, s in enumerate(ss):
                if s in e.sup:
                    r.count("dependences_checked")
                    if (i, j) not in cv:
                        unc.append((k, i, e, w, j, s))
    # stale entries
    stale = []
    for k, s in ev.subs.items():
        if s.method != "exact":
            continue
        v, st, ini = s.val.a.reshape(-1), s.stale.reshape(-1), s.init.reshape(-1)
        ids = {x.id for x in st}
        for n in range(v.size):
            r.count("entries_checked")
            e = v[n]
            if isinstance(e, E) and (e.sup & ids):
                if s.kind == "sparse":
                    i, j = int(s.rows[n]), int(s.cols[n])
                else:
                    i, j = divmod(n, s.shape[1])
                stale.append((k, s, n, i, j, e, st[n], ini[n]))
    if not unc and not stale:
        return
    vals, n, st = S.points(roots, ass, ev.known, ctx.rng, want=30)
    if not vals and roots and X.symbols(roots):
        ctx.und("no sample point")
        return False
    sy = X.symbols(roots)
    memo = X.evaluate(roots, vals, n)
    need = sorted({u[5] for u in unc} | {ws[k[1]][j] for k, s, nn, i, j, e, a, b in stale if k[1] in ws})
    T = {}
    for c in range(0, len(need), 64):
        ch = need[c:c + 64]
        for rid, t in S.tangents(roots, [s for s in ch if s in sy], vals, n, memo).items():
            if t is not None:
                for q, s in enumerate([s for s in ch if s in sy]):
                    T[(rid, s)] = t[:, q]
    zero = np.zeros(n)
    done = set()
    for k, i, e, w, j, s in unc:
        if (k, w) in done:
            continue
        t = T.get((e.id, s), zero)
        fv = np.abs(memo[e.id])
        ok = np.isfinite(t) & np.isfinite(fv)
        if (np.abs(t[ok]) > 1e-9 * (fv[ok] + 1e-12)).any():
            done.add((k, w))
            p = int(np.nonzero(ok & (np.abs(t) > 1e-9 * (fv + 1e-12)))[0][0])
            if X.has_top(e):
                ctx.und(f"d({k})/d({w}) depends on unmodelled operation")
                continue
            sub = ev.subs.get((k, w))
            why = "no derivative is declared for this pair" if sub is None else f"the declared sparsity pattern leaves out row {i}, column {j}"
            r.add(f"{qual}:undeclared d({k})/d({w})", f"'{k}[{i}]' depends on '{w}[{j}]' (slope {float(t[p]):.6g}) but {why} [config {label}]",
                  method_line(it, inst, "setup"), "undeclared-dependence")
    for k, s, nn, i, j, e, a, ini in stale:
        if ("st", k) in done:
            continue
        out = ev.outs[k[0]].reshape(-1)[i]
        sid = ws[k[1]][j]
        t = T.get((out.id, sid), zero) if isinstance(out, E) else zero
        if e is a:
            # never assigned: only allowed when the derivative is constant and equal to the declared value
            iv = ini if not isinstance(ini, E) else None
            if iv is None:
                continue
            fin = np.isfinite(t)
            bad = fin & ~S.close(t.astype(float), np.full(n, float(iv)), 1e-9, REL)
            if bad.any():
                done.add(("st", k))
                r.add(f"{qual}:unassigned d({k[0]})/d({k[1]})", f"entry ({i},{j}) of d({k[0]})/d({k[1]}) is never assigned and keeps its declared value {float(iv):g}, but the derivative is {float(t[np.nonzero(bad)[0][0]]):.6g} [config {label}]",
                      method_line(it, inst, mname, "setup"), "never-assigned")
        else:
            res = differs(e, {a.id: X.sym("prevA")}, {a.id: X.sym("prevB")}, ass, ev.known, ctx.rng)
            if isinstance(res, dict):
                done.add(("st", k))
                r.add(f"{qual}:partly-assigned d({k[0]})/d({k[1]})", f"entry ({i},{j}) of d({k[0]})/d({k[1]}) keeps part of its previous value for some inputs ({res['point']}) [config {label}]",
                      method_line(it, inst, mname, "setup"), "not-assigned-on-every-path")


def zero_values(ctx, it, inst, mname):
    """the method builds a sparse matrix from computed numbers, which drops exact zeros: what it assigns must also fit where inputs are exactly zero"""
    r, qual, label = ctx.r, ctx.qual, ctx.label
    base = C.in_syms(inst)
    for nm, a in base.items():
        n = a.a.size
        for part, sel in (("all of", slice(None)), ("the first half of", slice(0, (n + 1) // 2)), ("the second half of", slice(n // 2, None))):
            if n == 1 and part != "all of":
                continue
            ins = C.in_syms(inst)
            ins[nm].a.reshape(-1)[sel] = 0.0
            jac = OM.Jac(OM.resolve_partials(it, inst, "0"))
            vi = OM.Vec("input", ins, False)
            r.count("zero_variants")
            try:
                if inst.om.kind == "implicit":
                    C.callm(it, inst, "linearize", vi, OM.Vec("output", C.out_syms(inst), False), jac)
                else:
                    C.callm(it, inst, "compute_partials", vi, jac)
            except InterpRaise as e:
                if user_raise(e) or "partial" not in str(e.exc) and "sub-jacobian" not in str(e.exc):
                    continue
                r.add(f"{qual}:zeros:{nm}:{re.sub(r'[0-9]+', '#', str(e.exc))[:60]}", f"{mname} fails where {part} '{nm}' is zero: {e.exc} [config {label}]", loc_text(e.loc), "assignment-shape")
                return


def run_c02(tier, only=None):
    return scan("C02", tier, ("explicit", "implicit"), c02, only)


# ------------------------------------------------------------------------------------------------ C03
# components that support being part of a model differentiated by complex step
CS_SAFE = ("AddSubtractComp", "ElementMultiplyDivideComp", "VectorConcatenateComp", "VectorSplitComp")


def c03(ctx):
    r, qual, label = ctx.r, ctx.qual, ctx.label
    it, inst = C.build(ctx.cfg)
    if inst.om.kind not in ("explicit", "implicit"):
        return False
    subs = OM.resolve_partials(it, inst, "0")
    cs = [k for k, s in subs.items() if s.method == "cs"]
    if ctx.cls.name in CS_SAFE:
        cs = list(subs)
    if not cs:
        return False
    r.count("cs_configs")
    ins = C.in_syms(inst)
    wrt = {w for _, w in cs}
    syms = set()
    for w in wrt:
        src = ins.get(w)
        if src is not None:
            syms |= {x.id for x in src.a.reshape(-1)}
    outs = C.out_syms(inst, "out:")
    if inst.om.kind == "implicit":
        raise Undecided("implicit component with complex step")
    for v in list(ins.values()):
        pass
    it.cs_syms = frozenset(syms)
    inst.attrs["under_complex_step"] = True
    for v in outs.values():
        v.kind = "c"
    for k, v in ins.items():
        if k in wrt:
            v.kind = "c"
    C.callm(it, inst, "compute", OM.Vec("input", ins, False), OM.Vec("output", outs, True))
    known = C.known_meta(inst)
    ofs = {}
    for o, w in cs:
        ofs.setdefault(o, set()).add(w)
    for o, ww in ofs.items():
        ids = set()
        for w in ww:
            ids |= {x.id for x in ins[w].a.reshape(-1)}
        for i, e in enumerate(outs[o].a.reshape(-1)):
            r.count("outputs_checked")
            if not isinstance(e, E):
                continue
            bad = nonanalytic(e)
            if not bad:
                continue
            for u in bad:
                if not (u.sup & ids):
                    continue
                nm = u.args[0]
                what, loc = nm.split(":", 1)[1].split("@", 1)
                # the value has to matter: perturb the marked node
                res = influences(e, u, it.assumptions, known, ctx.rng)
                if res:
                    r.add(f"{qual}:{o}:{what}", f"output '{o}' is differentiated by complex step but passes through a non-analytic operation ({what}) at {loc} [config {label}]", loc, "complex-step-safety")
                    break
    r.count("pairs", len(cs))


def nonanalytic(e):
    return [n for n in X.topo([e]) if n.op == "uf" and isinstance(n.args[0], str) and n.args[0].startswith("nonanalytic:")]


def influences(e, u, assumptions, known, rng):
    """can the value of node u change e (where its own argument depends on the perturbation)?"""
    a = X.subst(e, {u.id: X.sym("probeA")})
    b = X.subst(e, {u.id: X.sym("probeB")})
    if a is b:
        return False
    return True


def run_c03(tier, only=None):
    return scan("C03", tier, ("explicit", "implicit"), c03, only)


# ------------------------------------------------------------------------------------------------ C05
CACHES = ("VLMDataGen", "OASDataGen")


def bad_names(e, pats):
    out = []
    for s in X.symbols([e]):
        n = X.node(s).args[0]
        if any(n.startswith(p) for p in pats):
            out.append(n)
    return out


def near_history(e, m1, bn, assumptions, known, rng):
    """a result kept from an earlier evaluation at inputs that are partly the same or nearly the same as the current ones"""
    cur = {X.node(q).args[0]: X.node(q) for q in X.symbols([e])}
    prev = [n for n in bn if n.split(":", 1)[0] in ("prev", "other")]
    steps = [n for n in X.topo([e]) if n.op in ("lt", "eq", "round", "floor", "sign", "int")]
    if not prev or not steps or not set(prev) & {X.node(q).args[0] for q in X.symbols(steps)}:
        return None             # a value without steps that varies with a leftover does so anywhere
    byvar = {}
    for n in prev:
        byvar.setdefault(n.split(":", 1)[1].split("[")[0], []).append(n)

    def at(n, rel, ab):
        b = cur.get(n.split(":", 1)[1])
        if b is None:
            b = X.sym(n.split(":", 1)[1])
        return b * (1 + rel) + ab if rel or ab else b
    modes = [{n: (rel, ab) for n in prev} for rel, ab in ((1e-7, 0), (1e-4, 0), (-1e-3, 0), (0, 1e-9), (0, 1e-6), (0, 1e-4))]
    vs = sorted(byvar)[:12]
    modes += [{n: (0, 0) for n in byvar[v]} for v in vs] + [{n: (0, 0) for n in prev if n not in byvar[v]} for v in vs if len(vs) > 1]
    modes += [{n: (0, 0) for n in prev if not n.endswith("[%d]" % k)} for k in (0, 1, 2)]
    for md in modes:
        m2 = {}
        for q, y in m1.items():
            n = X.node(q).args[0]
            m2[q] = at(n, *md[n]) if n in md else y
        m0 = dict(m1)
        res = differs(e, m0, m2, assumptions, known, rng)
        if isinstance(res, dict):
            return res
    return None


def c05(ctx):
    r, qual, label = ctx.r, ctx.qual, ctx.label
    if ctx.cls.name in CACHES:
        return False
    it, inst = C.build(ctx.cfg)
    if inst.om.kind not in ("explicit", "implicit"):
        return False
    kind = inst.om.kind
    mname = "linearize" if kind == "implicit" else "compute_partials"
    has = C.has_method(it, inst, mname)

    store = {}

    def kept(obj, which, new):
        """the vectors of an instance keep their storage from one evaluation to the next"""
        old = store.setdefault((id(obj), which), new)
        if old is not new:
            for k, v in new.items():
                old[k].a[...] = v.a
        return old

    def ev(tag, outpre, partials, compute=True, obj=inst, jac=None):
        ins = kept(obj, "input", C.in_syms(obj, tag))
        vi = OM.Vec("input", ins, False)
        if kind == "implicit":
            st = kept(obj, "output", C.out_syms(obj, tag))
            res = kept(obj, "residual", C.out_syms(obj, outpre))
            vo, vr = OM.Vec("output", st, False), OM.Vec("residual", res, True)
            if compute and C.has_method(it, obj, "apply_nonlinear"):
                C.callm(it, obj, "apply_nonlinear", vi, vo, vr)
            if partials and has:
                C.callm(it, obj, "linearize", vi, vo, jac)
            return {k: v.a.copy() for k, v in res.items()}
        outs = kept(obj, "output", C.out_syms(obj, outpre))
        vo = OM.Vec("output", outs, True)
        if compute:
            C.callm(it, obj, "compute", vi, vo)
        if partials and has:
            C.callm(it, obj, "compute_partials", vi, jac)
        return {k: v.a.copy() for k, v in outs.items()}

    # a second instance with other option values that is evaluated in between
    other = None
    try:
        kw = {k: (X.sym("optB:" + k) if isinstance(v, E) else v) for k, v in ctx.cfg.kw.items()}
        oc = C.Config(ctx.cfg.qual, kw, label, ctx.cfg.driver, ctx.cfg.args, ctx.cfg.generic)
        other = C.construct(it, oc)
        OM.setup_top(it, other)
    except (InterpRaise, Undecided, OM.PromErr):
        other = None
    subs = OM.resolve_partials(it, inst, "0")
    jac = OM.Jac(subs)
    ev("prev:", "gprev:", True, jac=jac)
    if other is not None:
        try:
            ev("other:", "gother:", True, obj=other, jac=OM.Jac(OM.resolve_partials(it, other, "o")))
        except (InterpRaise, Undecided):
            pass
    known = C.known_meta(inst)
    for t in ("prev:", "other:"):
        known.update(C.known_meta(inst, t))
    PATS = ("prev:", "gprev:", "other:", "gother:", "garb:", "optB:", "stale1:", "staleo:")
    # 1. derivatives at a new point without a preceding compute there
    nev = len(it.events)
    results = []
    if has:
        subs1 = OM.resolve_partials(it, inst, "1")
        ev("", "garb:", True, compute=False, jac=OM.Jac(subs1))
        for k, s in subs1.items():
            if s.method == "exact":
                results.append(("derivative", f"d({k[0]})/d({k[1]})", s.val.a.reshape(-1), s, mname))
    # 2. outputs at the new point
    if other is not None:
        ev("other:", "gother:", False, obj=other)
    outs = ev("", "garb:", False)
    for k, a in outs.items():
        results.append(("residual" if kind == "implicit" else "output", k, a.reshape(-1), None, "apply_nonlinear" if kind == "implicit" else "compute"))
    near = 0
    for what, nm, arr, s, meth in results:
        st = {} if s is None else {x.id for x in s.stale.reshape(-1)}
        for i, e in enumerate(arr):
            r.count("values_checked")
            if not isinstance(e, E):
                continue
            if s is not None and e is s.stale.reshape(-1)[i]:
                continue            # never assigned: constant from the declaration (C02)
            bn = bad_names(e, PATS)
            un = [n for n in (X.node(q).args[0] for q in X.symbols([e])) if n.startswith("uninit")]
            if not bn and not un:
                continue
            m1 = {q: X.sym("hA:" + X.node(q).args[0]) for q in X.symbols([e]) if X.node(q).args[0] in set(bn + un)}
            m2 = {q: X.sym("hB:" + X.node(q).args[0]) for q in m1}
            for q, y in list(m1.items()):
                base = X.node(q).args[0].split(":", 1)[-1]
                if base in known:
                    known[y.args[0]] = known[m2[q].args[0]] = known[base]
            res = differs(e, m1, m2, it.assumptions, known, ctx.rng)
            if res is None and near < 60:
                near += 1
                res = near_history(e, m1, bn, it.assumptions, known, ctx.rng)
            if isinstance(res, dict):
                srcs = {}
                for n in bn:
                    srcs.setdefault({"prev": "an earlier evaluation", "gprev": "an earlier evaluation", "other": "another instance", "gother": "another instance",
                                     "garb": "the previous contents of the output", "optB": "the options of another instance", "stale1": "the previous contents of the derivative",
                                     "staleo": "another instance"}[n.split(":")[0]], n)
                for n in un:
                    srcs["memory that was never initialised"] = n
                r.add(f"{qual}:{nm}", f"{what} {nm}[{i}] depends on {'; '.join(sorted(srcs))} [config {label}] (at {res['point']})", method_line(it, inst, meth, "setup"), "history-dependence")
                break
            elif res == "undecided":
                ctx.und(f"{nm}: dependence on history not decided")
    for e in it.events[nev:]:
        if e.kind == "nondeterminism":
            r.add(f"{where(e)}:nondeterminism:{e.data}", f"evaluation {e.msg} [config {label}]", loc_text(e.loc), "nondeterminism")


def run_c05(tier, only=None):
    return scan("C05", tier, ("explicit", "implicit"), c05, only)


# ------------------------------------------------------------------------------------------------ C06
def c06(ctx):
    r, qual, label = ctx.r, ctx.qual, ctx.label
    it, inst = C.build(ctx.cfg)
    if inst.om.kind not in ("explicit", "implicit"):
        return False
    for k, p in inst.om.options.d.items():
        for v in (getattr(p, "val", None), getattr(p, "value", None), p.default):
            if isinstance(v, (list, dict, SArr)):
                it.protect_obj(v, f"option '{k}'")
    for m in list(it.modules.values()):
        for nm, v in m.ns.items():
            if isinstance(v, (list, dict, SArr)) and not nm.startswith("__"):
                it.protect_obj(v, f"module-level '{m.name}.{nm}'")
    n0 = len(it.events)
    ev = C.run_eval(it, inst)
    if inst.om.kind == "implicit" and C.has_method(it, inst, "solve_nonlinear"):
        ins = C.in_syms(inst)
        C.callm(it, inst, "solve_nonlinear", OM.Vec("input", ins, False), OM.Vec("output", C.out_syms(inst, "s:"), True))
    r.count("evaluations")
    for e in it.events[n0:]:
        if e.kind in ("mutate", "pop") and (e.kind == "mutate"):
            r.add(f"{qual}:mutate:{e.data}", f"evaluation performs {e.msg} [config {label}]", loc_text(e.loc), "side-effect")
        elif e.kind == "global-write":
            r.add(f"{qual}:global-write:{e.data}", f"evaluation: {e.msg} [config {label}]", loc_text(e.loc), "side-effect")
        elif e.kind == "class-write" and ctx.cls.name not in CACHES:
            r.add(f"{qual}:class-write:{e.data[1]}", f"evaluation: {e.msg} [config {label}]", loc_text(e.loc), "side-effect")
        elif e.kind == "print" and ctx.cls.name not in CACHES:
            r.add(f"{qual}:print", f"evaluation writes to standard output [config {label}]", loc_text(e.loc), "side-effect")


def run_c06(tier, only=None):
    return scan("C06", tier, ("explicit", "implicit"), c06, only)


# ------------------------------------------------------------------------------------------------ C07
def vtext(v):
    if isinstance(v, SArr):
        return (v.shape, tuple(str(getattr(x, "id", x)) for x in v.a.reshape(-1)))
    if isinstance(v, Sparse):
        return ("sparse", v.shape, tuple(str(getattr(x, "id", x)) for x in v.a.reshape(-1)))
    if isinstance(v, E):
        return v.id
    if isinstance(v, (list, tuple)):
        return tuple(vtext(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), vtext(x)) for k, x in v.items()))
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return type(v).__name__


def snapshot(s, path="", out=None):
    """flat description of a set-up system: {key: description}"""
    if out is None:
        out = {}
    if isinstance(s, OM.ExtSys):
        out[path] = ("external", s.cname)
        return out
    o = s.om
    out[path + "#class"] = s.cls.qual if isinstance(s.cls, ClsObj) else getattr(s.cls, "name", "?")
    for io in ("inputs", "outputs"):
        for k, v in getattr(o, io).items():
            out[f"{path}.{k}"] = (io, vtext(v.val) if v.val is not None else None, v.shape, v.units, vtext(getattr(v, "lower", None)), vtext(getattr(v, "upper", None)),
                                  vtext(getattr(v, "ref", None)), getattr(v, "desc", None))
    for n, d in enumerate(o.decls):
        out[f"{path}#partials{n}"] = (tuple(d.of), tuple(d.wrt), None if d.rows is None else tuple(d.rows.tolist()), None if d.cols is None else tuple(d.cols.tolist()), vtext(d.val), d.method, d.dependent)
    if o.kind == "group":
        out[path + "#conns"] = vtext([tuple(str(x) for x in c) if isinstance(c, tuple) else str(getattr(c, "__dict__", c)) for c in o.conns])
        out[path + "#order"] = tuple(o.subs)
        for k, q in o.subs.items():
            snapshot(q, f"{path}.{k}" if path else k, out)
    return out


def option_values(a):
    return {k: (o.isset, vtext(o.val)) for k, o in a.om.options.d.items()}


def diff(a, b):
    d = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            d.append((k, a.get(k), b.get(k)))
    return d


def short(v):
    t = repr(v)
    return t if len(t) < 140 else t[:137] + "..."


def c07(ctx):
    r, qual, label, cfg = ctx.r, ctx.qual, ctx.label, ctx.cfg
    it = C.new_interp()
    cls = C.get_class(it, cfg.qual)
    it.phase = "run"
    n0 = len(it.events)
    a = C.construct(it, cfg)
    o1 = option_values(a)
    OM.setup_top(it, a)
    s1 = snapshot(a)
    d = diff(o1, option_values(a))
    if d:
        k, x, y = d[0]
        r.add(f"{qual}:option modified:{k}", f"setup() changes the value of option '{k}' from {short(x)} to {short(y)} [config {label}]", method_line(it, a, "setup"), "argument-modified")
    r.count("constructions")
    r.count("snapshot_entries", len(s1))
    for e in it.events[n0:]:
        if e.kind == "nondeterminism":
            r.add(f"{where(e)}:nondeterminism:{e.data}", f"construction {e.msg} [config {label}]", loc_text(e.loc), "nondeterminism")
        elif e.kind == "mutate":
            r.add(f"{qual}:mutate:{e.data}", f"construction performs {e.msg} [config {label}]", loc_text(e.loc), "argument-modified")
        elif e.kind == "class-write" and e.data[0].name not in CACHES:
            r.add(f"{qual}:class-write:{e.data[1]}", f"construction: {e.msg} [config {label}]", loc_text(e.loc), "class-state")
        elif e.kind == "global-write":
            r.add(f"{qual}:global-write:{e.data}", f"construction: {e.msg} [config {label}]", loc_text(e.loc), "module-state")
    # same instance again
    try:
        OM.setup_top(it, a)
        d = diff(s1, snapshot(a))
        if d:
            k, x, y = d[0]
            r.add(f"{qual}:second setup", f"the second setup() of the same object gives a different {k}: {short(x)} became {short(y)} [config {label}]", method_line(it, a, "setup"), "repeatable-setup")
    except (InterpRaise, OM.PromErr) as e:
        loc = e.loc if isinstance(e, InterpRaise) else None
        r.add(f"{qual}:second setup", f"the second setup() of the same object raises {getattr(e, 'exc', e)} [config {label}]", loc_text(loc) or method_line(it, a, "setup"), "repeatable-setup")
    # another instance with other options in between, then a fresh one with the same arguments
    try:
        kw = {k: (X.sym("optB:" + k) if isinstance(v, E) else v) for k, v in cfg.kw.items()}
        for k in ("num_nodes", "vec_size"):
            if isinstance(kw.get(k), int) and not cfg.driver:
                kw[k] = kw[k] + 2
        b = C.construct(it, C.Config(cfg.qual, kw, label, cfg.driver, cfg.args, cfg.generic))
        OM.setup_top(it, b)
    except (InterpRaise, Undecided, OM.PromErr):
        pass
    try:
        c = C.construct(it, cfg)
        OM.setup_top(it, c)
        d = diff(s1, snapshot(c))
        if d:
            k, x, y = d[0]
            r.add(f"{qual}:second instance", f"a second instance built with the same arguments differs in {k}: {short(x)} became {short(y)} [config {label}]", method_line(it, a, "setup"), "instance-isolation")
    except (InterpRaise, OM.PromErr) as e:
        r.add(f"{qual}:second instance", f"a second instance built with the same arguments raises {getattr(e, 'exc', e)} [config {label}]", loc_text(getattr(e, "loc", None)) or qual, "instance-isolation")


    # the same instance, set up once with the options of another configuration, then given the present options
    prev = PREV.get(qual)
    PREV[qual] = cfg
    if prev is not None and not (prev.args or cfg.args or prev.driver or cfg.driver) and a.om.kind != "group":
        it2 = C.new_interp()
        it2.phase = "run"
        try:
            b = C.construct(it2, prev, protect=False)
            opts = b.om.options
            if not (set(prev.kw) | set(cfg.kw)) <= set(opts.d) or any(k not in cfg.kw and opts.d[k].default is OM.UNDEF_OPT for k in prev.kw):
                return
            dflt = {k: C.construct(it2, C.Config(cfg.qual, {}, label), protect=False).om.options.d[k].val for k in prev.kw if k not in cfg.kw}
            OM.setup_top(it2, b)
            tr, it2.track = it2.track, False
            for k, v in list(dflt.items()) + list(cfg.kw.items()):
                if isinstance(v, C.ClassRef):
                    return
                opts.set(it2, k, C.deep(v))
            it2.track = tr
        except (InterpRaise, Undecided, OM.PromErr):
            return
        try:
            OM.setup_top(it2, b)
            r.count("reconfigurations")
            d = diff(s1, snapshot(b))
            if d:
                k, x, y = d[0]
                r.add(f"{qual}:reconfigured", f"an object set up with other options first [{prev.label}] and then with [{label}] differs from a fresh one in {k}: {short(x)} became {short(y)}", method_line(it, a, "setup"), "repeatable-setup")
        except (InterpRaise, OM.PromErr) as e:
            if isinstance(e, InterpRaise) and user_raise(e):
                return
            r.add(f"{qual}:reconfigured", f"an object set up with other options first [{prev.label}] and then with [{label}] raises {getattr(e, 'exc', e)}", loc_text(getattr(e, "loc", None)) or qual, "repeatable-setup")


PREV = {}


def run_c07(tier, only=None):
    return scan("C07", tier, ("explicit", "implicit", "group", "ivc", "exec"), c07, only, cap=None if tier == "thorough" else 10)


# ------------------------------------------------------------------------------------------------ C08
COUPLING = {"Integrator", "OldIntegrator", "FirstDerivative", "LinearInterpolator", "MaxComp", "MinComp", "TakeoffTransition", "TakeoffClimb", "FlipVectorComp"}


def c08_shapes(qual, nn, kw, ctx):
    kw = dict(kw)
    kw["num_nodes"] = nn
    return C.build(C.Config(qual, kw, ctx.label, ctx.cfg.driver, ctx.cfg.args))


def renode(e, i, node_vars, known_syms):
    """rename the point-i elements of node variables to canonical names"""
    m = {}
    other = []
    for s in X.symbols([e]):
        n = X.node(s).args[0]
        k = known_syms.get(n)
        if k is None:
            continue
        var, lead, rest = k
        if lead == i:
            m[s] = X.sym(f"@{var}{rest}")
        else:
            other.append(n)
    return X.subst(e, m), other


def node_syms(ins, nodeset):
    out = {}
    for k, v in ins.items():
        if k in nodeset:
            for idx in np.ndindex(*v.shape):
                out[v.a[idx].args[0]] = (k, idx[0], list(idx[1:]))
    return out


def c08(ctx):
    r, qual, label, cfg = ctx.r, ctx.qual, ctx.label, ctx.cfg
    if ctx.cls.name in COUPLING or "num_nodes" not in cfg.kw:
        return False
    if cfg.kw["num_nodes"] != 3:
        return False
    built = {}
    nns = (3, 5, 1, 2) if ctx.tier == "quick" else (3, 5, 1, 2, 4, 7)
    try:
        nns += tuple(C.size_thresholds(C.get_class(C.new_interp(), qual)))
    except (Undecided, InterpRaise):
        pass
    evs = {}
    for nn in nns:
        try:
            it, inst = c08_shapes(qual, nn, cfg.kw, ctx)
            if inst.om.kind not in ("explicit", "implicit"):
                return False
            evs[nn] = (it, inst, C.run_eval(it, inst, partials=False))
        except InterpRaise as e:
            if 3 in evs and not user_raise(e):
                r.add(f"{qual}:num_nodes={nn}", f"works for 3 points but with num_nodes={nn} fails: {e.exc} [config {label}]", loc_text(e.loc), "point-count")
                continue
            if 3 not in evs:
                raise
    if 5 not in evs:
        return False
    i3, i5 = evs[3][1], evs[5][1]

    def nodevars(io):
        s = set()
        for k, v in getattr(i3.om, io).items():
            w = getattr(i5.om, io).get(k)
            if w is None or v.shape is None:
                continue
            if len(v.shape) == len(w.shape) and v.shape[0] == 3 and w.shape[0] == 5:
                s.add(k)
        return s
    nin, nout = nodevars("inputs"), nodevars("outputs")
    if not nout:
        return False
    ref = {}
    known = dict(evs[3][2].known)
    for nn, (it, inst, ev) in evs.items():
        ns = node_syms(ev.ins, nin)
        if ev.kind == "implicit":
            ns.update(node_syms(ev.states, nodevars("outputs")))
        for k, v in ev.known.items():
            if k in ns:
                var, lead, rest = ns[k]
                known.setdefault(f"@{var}{rest}", v)
        done = set()
        for k, a in ev.outs.items():
            if k not in nout:
                continue
            for idx in np.ndindex(*a.shape):
                e = a[idx]
                i = idx[0]
                r.count("values_checked")
                if (k,) in done:
                    break
                if isinstance(e, E):
                    e2, oth = renode(e, i, nin, ns)
                else:
                    e2, oth = e, []
                if oth:
                    ids = {s for s in X.symbols([e2]) if X.node(s).args[0] in oth}
                    m1 = {s: X.sym("oA:" + X.node(s).args[0]) for s in ids}
                    m2 = {s: X.sym("oB:" + X.node(s).args[0]) for s in ids}
                    kk = dict(known)
                    for s in ids:
                        b = ev.known.get(X.node(s).args[0])
                        if b:
                            kk[m1[s].args[0]] = kk[m2[s].args[0]] = b
                    res = differs(e2, m1, m2, [], kk, ctx.rng)
                    if isinstance(res, dict):
                        r.add(f"{qual}:{k}:coupled", f"'{k}' at point {i} depends on {sorted(oth)[0]} of another point [config {label}, num_nodes={nn}] (at {res['point']})", method_line(it, inst, "compute", "apply_nonlinear"), "pointwise")
                        done.add((k,))
                        break
                    elif res == "undecided":
                        ctx.und(f"{k}: coupling not decided")
                        continue
                    e2 = X.subst(e2, {s: X.sym("oA:" + X.node(s).args[0]) for s in ids})
                key = (k, tuple(idx[1:]))
                if key not in ref:
                    ref[key] = (e2, nn, i)
                    continue
                e0, n0, i0 = ref[key]
                if e0 is e2:
                    continue
                if oth:
                    continue
                res = S.compare(e0, e2, [], known, ctx.rng, rel=REL)
                if isinstance(res, dict):
                    r.add(f"{qual}:{k}:formula", f"'{k}' follows a different formula at point {i} of {nn} than at point {i0} of {n0}: {res['a']:.8g} against {res['b']:.8g} for the same point data ({res['point']}) [config {label}]",
                          method_line(it, inst, "compute", "apply_nonlinear"), "uniform-formula")
                    done.add((k,))
                    break
    r.count("components_checked")


def run_c08(tier, only=None):
    return scan("C08", tier, ("explicit", "implicit"), c08, only)
