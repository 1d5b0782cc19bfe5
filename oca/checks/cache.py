"""C09: training caches.  Abstract histories (setups, evaluations, derivative requests, failing analyses, several instances) are
interpreted; after every step the value graphs must be those of a component that never saw the history."""
import numpy as np
from .. import expr as X
from .. import comp as C
from .. import om as OM
from .. import sample as S
from ..om import NESTED, NESTED_OPTS
from ..expr import E
from ..interp import InterpRaise, Undecided
from ..values import SArr, Root, wrap, ExcObj
from ..interp import BUILTIN_EXC
from ..report import Result, pmap, seed_of
from .common import loc_text, method_line, user_raise

P = "openconcept.aerodynamics.openaerostruct."
CLASSES = {"VLM": P + "drag_polar.VLMDataGen", "OAS": P + "aerostructural.OASDataGen"}
GRIDS = {"A": ([0.2, 0.7], [-3.0, 2.0, 9.0], [0.0, 5000.0]), "B": ([0.3, 0.7], [-3.0, 2.0, 9.0], [0.0, 5000.0]), "C": ([0.2, 0.7], [-3.0, 1.0, 9.0], [0.0, 5000.0]),
         "D": ([0.2, 0.7], [-3.0, 2.0, 9.0], [0.0, 7000.0]), "E": ([0.2, 0.5, 0.7], [-3.0, 2.0], [0.0, 5000.0]), "F": ([0.2, 0.7], [-3.0, 2.0], [0.0])}
ROLE = {"CL_train": "CL", "CD_train": "CD", "failure_train": "failure", "W_wing": "W_wing"}


def cfg(kind, grid="A", **kw):
    g = GRIDS[grid]
    o = dict(Mach_train=np.array(g[0]), alpha_train=np.array(g[1]), alt_train=np.array(g[2]))
    o.update(dict(num_x=1, num_y=2) if kind == "VLM" else dict(num_x=1, num_y=2, num_twist=2, num_toverc=2, num_skin=1, num_spar=2))
    o.update(kw)
    return C.Config(CLASSES[kind], o, f"grid {grid} {kw}", generic=1e-2)


class World:
    def __init__(self):
        self.it = C.new_interp()
        self.it.phase = "run"
        self.insts = {}
        self.store = {}

    def add(self, name, c):
        inst = C.construct(self.it, c, protect=False)
        OM.setup_top(self.it, inst)
        self.insts[name] = inst
        return inst

    def resetup(self, name, **opts):
        inst = self.insts[name]
        for k, v in opts.items():
            inst.om.options.om_setitem(self.it, k, C.deep(v))
        OM.setup_top(self.it, inst)

    def ins(self, name, x):
        inst = self.insts[name]
        out = {}
        for k, a in C.in_syms(inst, "a:").items():
            f = a.a.copy().reshape(-1)
            for i in range(f.size):
                if (k, i) in x:
                    f[i] = X.sym(f"{x[(k, i)]}:{k}[{i}]") if isinstance(x[(k, i)], str) else x[(k, i)]
            # the vectors of an instance keep their storage from one evaluation to the next
            st = self.store.setdefault(name, {})
            if k in st and st[k].a.shape == a.a.shape:
                st[k].a[...] = f.reshape(a.a.shape)
            else:
                st[k] = SArr(f.reshape(a.a.shape), "f", Root(f"input '{k}'"))
            out[k] = st[k]
        return out

    def ev(self, name, x):
        inst = self.insts[name]
        vi = OM.Vec("input", self.ins(name, x), False)
        outs = C.out_syms(inst, "garb:")
        C.callm(self.it, inst, "compute", vi, OM.Vec("output", outs, True))
        return {("output", k): v.a.copy() for k, v in outs.items()}

    def grad(self, name, x):
        inst = self.insts[name]
        vi = OM.Vec("input", self.ins(name, x), False)
        subs = OM.resolve_partials(self.it, inst, "0")
        C.callm(self.it, inst, "compute_partials", vi, OM.Jac(subs))
        return {("derivative",) + k: v for k, v in OM.partials_result(subs).items()}


def sizes(inst):
    return {k: v.size for k, v in inst.om.inputs.items()}


class Run:
    """a history with its report context"""

    def __init__(self, r, kind, title):
        self.r, self.kind, self.title = r, kind, title
        self.w = World()
        self.cfgs = {}
        self.rng = random_state("C09", kind, title)
        self.refs = {}
        self.steps = []
        self.bad = False

    def add(self, name, c):
        self.cfgs[name] = c
        self.steps.append(f"set up {name} [{c.label}]")
        return self.w.add(name, c)

    def ref(self, name, x, what):
        c = self.cfgs[name]
        if any(not isinstance(t, str) for t in x.values()):
            k = (id(c), what, tuple(sorted(x.items())))
            if k not in self.refs:
                w = World()
                w.add("r", c)
                self.refs[k] = getattr(w, "ev" if what == "outputs" else "grad")("r", x)
            return self.refs[k]
        k = (id(c), what)
        if k not in self.refs:
            w = World()
            w.add("r", c)
            self.refs[k] = (w, getattr(w, "ev" if what == "outputs" else "grad")("r", {}))
        w, base = self.refs[k]
        m = {}
        for (n, i), t in x.items():
            m[X.sym(f"a:{n}[{i}]").id] = X.sym(f"{t}:{n}[{i}]")
        if not m:
            return base
        out = {}
        for q, a in base.items():
            f = a.reshape(-1)
            g = np.empty(f.size, dtype=object)
            for j, e in enumerate(f):
                g[j] = X.subst(e, m) if isinstance(e, E) else e
            out[q] = g.reshape(a.shape)
        return out

    def known(self):
        kn = {}
        for inst in self.w.insts.values():
            for t in ("", "a:", "b:", "c:"):
                kn.update(C.known_meta(inst, t))
        return kn

    def step(self, name, what, x=(), must_run=True, note=None):
        x = dict(x)
        lab = note if note else "at the base point" if not x else "with " + ", ".join(f"{n}[{i}] changed" for n, i in x)
        self.steps.append(f"{what} of {name} {lab}")
        self.r.count("steps")
        inst = self.w.insts[name]
        try:
            got = getattr(self.w, "ev" if what == "outputs" else "grad")(name, x)
        except InterpRaise as e:
            if must_run and not user_raise(e):
                self.report("evaluation works", f"raises {e.exc} at {loc_text(e.loc)}", inst)
            else:
                self.r.count("rejected")
            return False
        want = self.ref(name, x, what)
        kn = None
        for k in want:
            a, b = got.get(k), want[k]
            if a is None or a.shape != b.shape:
                self.report(k[-1], f"has shape {None if a is None else a.shape} instead of {b.shape}", inst)
                continue
            for j, (e, f) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
                self.r.count("values_checked")
                if e is f or (not isinstance(e, E) and not isinstance(f, E) and e == f):
                    continue
                kn = kn or self.known()
                d = S.compare(e, f, self.w.it.assumptions, kn, self.rng, want=20)
                if isinstance(d, dict):
                    nm = k[1] if k[0] == "output" else f"d({k[1]})/d({k[2]})"
                    self.report(nm, f"{nm} element {j} is {origin(e)} instead of {origin(f)}", inst)
                    break
                if d == "undecided":
                    self.r.und(f"{self.kind} {self.title}", f"{k} element {j} not compared")
                    break
        return True

    def report(self, key, msg, inst):
        self.bad = True
        q = CLASSES[self.kind]
        self.r.add(f"{q}:{self.title.split(':')[0]}:{key}", f"{msg} after the history: {'; '.join(self.steps[-6:])}", method_line(self.w.it, inst, "compute"), "stale-training-data")


def random_state(*a):
    return np.random.default_rng(seed_of(*a))


def origin(e):
    if not isinstance(e, E):
        return f"the constant {e}"
    if e.op == "uf" or any(isinstance(a, E) and a.op == "uf" for a in e.args):
        u = e if e.op == "uf" else [a for a in e.args if isinstance(a, E) and a.op == "uf"][0]
        ch = [x for x in sorted({X.node(q).args[0] for q in X.symbols([u])}) if x[:2] in ("b:", "c:")]
        sig = u.args[0].rpartition(":")[0].rpartition(":")[0]
        ix = NESTED.get(sig, {})
        pt = [f"{n.split('|')[-1]}={float(X.lift(u.args[1 + ix[n][0]]).args[0]):.4g}" for n in ("fltcond|M", "fltcond|alpha", "fltcond|h") if n in ix and X.lift(u.args[1 + ix[n][0]]).op == "c"]
        return f"{u.args[0].rpartition(':')[0].rpartition(':')[2]} of an analysis at {', '.join(pt)}" + (" with " + ", ".join(ch[:4]) if ch else "")
    return str(e)[:80]


def picks(n, tier):
    if tier != "quick" or n <= 3:
        return list(range(n))
    return sorted({0, n // 2, n - 1})


# ------------------------------------------------------------------ histories
def inputs_of(kind):
    w = World()
    return sizes(w.add("r", cfg(kind)))


def h_change(r, kind, var, i, tier):
    """one element of one input changes between two requests"""
    ch = {(var, i): "b"}
    for first, second in (("outputs", "outputs"), ("outputs", "derivatives"), ("derivatives", "outputs"), ("derivatives", "derivatives")):
        q = Run(r, kind, f"one input changes:{var}")
        q.add("A", cfg(kind))
        q.step("A", first)
        q.step("A", second, ch)
        q.step("A", "outputs")
        q.step("A", "derivatives")
        if tier != "quick":
            q.step("A", "outputs", {(var, i): "c"})
            q.step("A", "derivatives", ch)
        r.count("histories")


def h_small(r, kind, var, i, tier):
    """a change just above the regeneration tolerance still counts (numbers instead of symbols)"""
    for tol, steps in ((None, (1e-6, -1e-6)), (1e-3, (5e-3, -5e-3))):
        if tol is not None and kind == "VLM":
            continue
        q = Run(r, kind, f"small change:{var}")
        inst = q.add("A", cfg(kind) if tol is None else cfg(kind, regen_tol=tol))
        x = {(n, j): 0.5 + 0.25 * k + 0.125 * j for k, (n, m) in enumerate(sizes(inst).items()) for j in range(m)}
        q.step("A", "outputs", x, note="at a numeric point")
        for d in steps:
            y = dict(x)
            y[(var, i)] += d
            q.step("A", "outputs", y, note=f"with {var}[{i}] changed by {d}")
            q.step("A", "outputs", x, note="at the numeric point again")
            q.step("A", "derivatives", y, note=f"with {var}[{i}] changed by {d}")
            q.step("A", "derivatives", x, note="at the numeric point again")
    r.count("histories")


def numeric_point(sz):
    return {(n, j): 0.5 + 0.25 * k + 0.0625 * j * j + 0.125 * j for k, (n, m) in enumerate(sz.items()) for j in range(m)}


def h_mix(r, kind, mode, var, tier):
    """values that move between or within inputs: the new point shares its values, sums or magnitudes with the old one"""
    q = Run(r, kind, f"values move ({mode}):{var}")
    inst = q.add("A", cfg(kind, **({} if kind == "VLM" else dict(num_skin=2))))
    sz = sizes(inst)
    x = numeric_point(sz)
    n = sz[var]
    ys = []
    if mode == "within":
        if n > 1:
            ys.append(("reversed", {(var, j): x[(var, n - 1 - j)] for j in range(n)}))
            ys.append(("changes that cancel", {(var, 0): x[(var, 0)] + 0.25, (var, n - 1): x[(var, n - 1)] - 0.25}))
            ys.append(("all entries equal to the first", {(var, j): x[(var, 0)] for j in range(n)}))
        ys.append(("of opposite sign", {(var, j): -x[(var, j)] for j in range(n)}))
        ys.append(("all entries shifted", {(var, j): x[(var, j)] + 1.0 for j in range(n)}))
    else:
        for o, m in sz.items():
            if o != var and m == n:
                ys.append((f"set to the values of {o}", {(var, j): x[(o, j)] for j in range(n)}))
                ys.append((f"exchanged with {o}", {**{(var, j): x[(o, j)] for j in range(n)}, **{(o, j): x[(var, j)] for j in range(n)}}))
                ys.append((f"changed against {o}", {(var, 0): x[(var, 0)] + 0.25, (o, 0): x[(o, 0)] - 0.25}))
    for lab, ch in ys:
        y = {**x, **ch}
        q.step("A", "outputs", x, note="at a numeric point")
        q.step("A", "outputs", y, note=f"with {var} {lab}")
        q.step("A", "derivatives", x, note="at the numeric point again")
        q.step("A", "derivatives", y, note=f"with {var} {lab}")
        r.count("moved_values")
    r.count("histories")


def h_pair(r, kind, name, kw, order):
    """two instances whose data must differ"""
    q = Run(r, kind, f"second instance:{name}")
    q.add("A", cfg(kind))
    try:
        q.add("B", cfg(kind, **kw))
    except InterpRaise as e:
        r.count("rejected")
        r.count("histories")
        # the first instance keeps working
        if order == 0:
            q.step("A", "outputs")
            q.step("A", "derivatives")
        return
    seq = [("A", "outputs"), ("B", "outputs"), ("A", "outputs"), ("A", "derivatives"), ("B", "derivatives"), ("A", "derivatives")]
    if order == 1:
        seq = [("B", "derivatives"), ("A", "derivatives"), ("B", "outputs"), ("A", "outputs")]
    if order == 2:
        seq = [("A", "outputs"), ("B", "derivatives"), ("A", "derivatives"), ("B", "outputs")]
    for n, w in seq:
        q.step(n, w)
    r.count("histories")


def h_resetup(r, kind, name, kw):
    """options of an instance change between two setups"""
    q = Run(r, kind, f"set up again:{name}")
    q.add("A", cfg(kind))
    q.step("A", "outputs")
    q.step("A", "derivatives")
    c = cfg(kind, **kw)
    q.cfgs["A"] = c
    q.steps.append(f"set up A again [{c.label}]")
    try:
        q.w.resetup("A", **{k: v for k, v in c.kw.items()})
    except InterpRaise as e:
        r.count("rejected")
        r.count("histories")
        return
    q.step("A", "outputs")
    q.step("A", "derivatives")
    q.step("A", "outputs", {(list(q.w.insts["A"].om.inputs)[0], 0): "b"})
    r.count("histories")


def h_fault(r, kind, op, at, before, what):
    """analysis number `at` fails in its run or in its derivatives; afterwards everything is evaluated again"""
    q = Run(r, kind, f"analysis failure:{op}")
    q.add("A", cfg(kind))
    if before:
        q.step("A", "outputs")
    var = "fltcond|TempIncrement"
    x = {(var, 0): "b"}
    n = [0]

    def hook(it, name):
        if name != op:
            return
        n[0] += 1
        if n[0] == at + 1:
            raise InterpRaise(ExcObj(BUILTIN_EXC["AnalysisError"], ("analysis failed",)), it.loc)
    q.w.it.analysis_hook = hook
    failed = False
    try:
        q.w.ev("A", x) if what == "outputs" else q.w.grad("A", x)
    except InterpRaise as e:
        failed = True
    q.w.it.analysis_hook = None
    q.steps.append(f"{what} of A with {var}[0] changed, analysis {at} fails in {op}" + ("" if failed else " (caught by the component)"))
    if failed:
        r.count("faults_injected")
    q.step("A", "outputs", x)
    q.step("A", "derivatives", x)
    q.step("A", "outputs")
    q.step("A", "derivatives")
    r.count("histories")
    # the retry only asks for derivatives
    q = Run(r, kind, f"analysis failure:{op}")
    q.add("A", cfg(kind))
    if before:
        q.step("A", "derivatives")
    n[0] = 0
    q.w.it.analysis_hook = hook
    try:
        q.w.ev("A", x) if what == "outputs" else q.w.grad("A", x)
    except InterpRaise as e:
        pass
    q.w.it.analysis_hook = None
    q.steps.append(f"{what} of A with {var}[0] changed, analysis {at} fails in {op}")
    q.step("A", "derivatives")
    q.step("A", "derivatives", x)
    q.step("A", "outputs", x)
    r.count("histories")


def option_handed_on(inst, got):
    """the analysed model has the mesh and surface options of the generator"""
    for k in inst.om.options.own:
        if k not in got:
            continue
        a, b = inst.om.options.d[k].val, got[k]
        if isinstance(a, E) or isinstance(b, E) or isinstance(a, SArr) or isinstance(b, SArr):
            continue
        if (a or None) != (b or None):
            return f"the analysed model has {k}={b!r}, the generator {a!r}"
    return None


def h_align(r, kind, grid, kw):
    """every number of the grid is the analysis result at its own training point with the current inputs"""
    c = cfg(kind, grid, **kw)
    w = World()
    inst = w.add("A", c)
    outs = w.ev("A", {})
    grads = w.grad("A", {})
    from ..units import get
    q = CLASSES[kind]
    loc = method_line(w.it, inst, "compute")
    g = [np.asarray(GRIDS[grid][k]) for k in range(3)]
    base = w.ins("A", {})
    want = {}
    for n, v in inst.om.inputs.items():
        if n == "ac|aero|CD_nonwing":
            continue
        for i, e in enumerate(base[n].a.reshape(-1)):
            u = get(v.units) if v.units else None
            want.setdefault(n, []).append(X.mul(X.add(e, u.off), u.f) if u is not None else e)
    deg = get("deg").f
    fl = ("fltcond|M", "fltcond|alpha", "fltcond|h")
    tname = {"CL": "fltcond|CL", "CD": "fltcond|CD", "failure": "failure", "W_wing": "ac|weights|W_wing"}
    for k, a in list(outs.items()) + [(k, v) for k, v in grads.items()]:
        role = ROLE.get(k[1])
        if role is None:
            continue
        if k[0] == "derivative" and k[2] == "ac|aero|CD_nonwing":
            for j, e in enumerate(a.reshape(-1)):
                r.count("values_checked")
                if X.lift(e) is not X.lift(1.0 if role == "CD" else 0.0):
                    r.add(f"{q}:alignment:d({k[1]})/d({k[2]})", f"d({k[1]})/d({k[2]}) is {e}", loc, "misplaced-training-data")
                    break
            continue
        nn = outs[("output", k[1])].size
        rows = a.reshape(nn, -1)
        for i in range(nn):
            pt = np.unravel_index(i, (len(g[0]), len(g[1]), len(g[2]))) if role != "W_wing" else None
            for j in range(rows.shape[1]):
                r.count("values_checked")
                e = rows[i, j]
                if k == ("output", "CD_train"):
                    nw = base["ac|aero|CD_nonwing"].a.reshape(-1)[0] if "ac|aero|CD_nonwing" in base else None
                    if isinstance(e, E) and e.op == "add" and any(x is nw for x in e.args):
                        e = [x for x in e.args if x is not nw][0]
                    elif nw is not None:
                        r.add(f"{q}:alignment:{k[1]}", f"{k[1]}[{i}] is not the analysis result plus CD_nonwing [config {c.label}]", loc, "misplaced-training-data")
                        break
                f = 1.0
                if isinstance(e, E) and e.op == "mul":
                    cs = [x for x in e.args if not isinstance(x, E) or x.op != "uf"]
                    us = [x for x in e.args if isinstance(x, E) and x.op == "uf"]
                    if len(us) == 1 and not any(isinstance(x, E) and x.op != "c" for x in cs):
                        f = e
                        e = us[0]
                if not isinstance(e, E) or e.op != "uf":
                    r.add(f"{q}:alignment:{k[1]}", f"{k[1]}[{i}] is {str(e)[:60]}, not the result of an analysis [config {c.label}]", loc, "misplaced-training-data")
                    break
                nm = e.args[0]
                core = nm.split("'")[0]
                der = nm[len(core) + 1:]
                sig, _, tail = core.rpartition(":")       # name:output:units
                sig, _, out = sig.rpartition(":")
                info = NESTED.get(sig)
                if info is None:
                    raise Undecided("origin of the training data")
                index, args = info, e.args[1:]
                bad = option_handed_on(inst, NESTED_OPTS.get(sig, {}))
                if bad:
                    r.add(f"{q}:alignment:{k[1]}", f"{k[1]}[{i}]: {bad} [config {c.label}]", loc, "misplaced-training-data")
                    break
                if out != tname[role]:
                    r.add(f"{q}:alignment:{k[1]}", f"{k[1]}[{i}] holds {out} [config {c.label}]", loc, "misplaced-training-data")
                    break
                if k[0] == "derivative":
                    if not der or int(der) != index.get(k[2], [None] * 99)[j]:
                        r.add(f"{q}:alignment:d({k[1]})/d({k[2]})", f"d({k[1]})/d({k[2]})[{i},{j}] is a derivative with respect to argument {der}, not to {k[2]}[{j}] [config {c.label}]", loc, "misplaced-training-data")
                        break
                    v = inst.om.inputs[k[2]]
                    u = get(v.units) if v.units else None
                    need = X.mul(X.lift(e), u.f if u is not None else 1.0)
                    if X.lift(rows[i, j]) is not need:
                        d = S.compare(X.lift(rows[i, j]), need, [], C.known_meta(inst, "a:"), random_state("C09al"), want=8)
                        if isinstance(d, dict):
                            r.add(f"{q}:alignment:d({k[1]})/d({k[2]})", f"d({k[1]})/d({k[2]})[{i},{j}] has the wrong scale [config {c.label}]", loc, "misplaced-training-data")
                            break
                elif der or f != 1.0:
                    r.add(f"{q}:alignment:{k[1]}", f"{k[1]}[{i}] is not the plain analysis result [config {c.label}]", loc, "misplaced-training-data")
                    break
                bad = None
                for n, es in want.items():
                    ix = index.get(n)
                    if ix is None or len(ix) != len(es):
                        bad = f"{n} is not passed to the analysis"
                        break
                    for p_, x in zip(ix, es):
                        if X.lift(args[p_]) is not X.lift(x):
                            d = S.compare(X.lift(args[p_]), X.lift(x), [], C.known_meta(inst, "a:"), random_state("C09al"), want=8)
                            if isinstance(d, dict):
                                bad = f"the analysis gets another value for {n}"
                                break
                    if bad:
                        break
                if bad is None and pt is not None:
                    for n, v, s in zip(fl, (g[0][pt[0]], g[1][pt[1]], g[2][pt[2]]), (1.0, deg, 1.0)):
                        if n not in index:
                            bad = f"{n} is not passed to the analysis"
                            break
                        x = args[index[n][0]]
                        if isinstance(X.lift(x), E) and X.lift(x).op != "c":
                            bad = f"{n} of the analysis is not the training value"
                            break
                        x = float(x) if not isinstance(x, E) else float(x.args[0])
                        if abs(x - v * s) > 1e-9 * max(1.0, abs(v * s)):
                            bad = f"the analysis is at {n}={x / s:.6g}, the training point has {v:.6g}"
                            break
                if bad:
                    r.add(f"{q}:alignment:{k[1]}", f"{k[1]}[{i}] (training point {pt}): {bad} [config {c.label}]", loc, "misplaced-training-data")
                    break
    r.count("histories")
    r.count("grids")


def task(name, kind, fn, args, tier):
    r = Result()
    try:
        globals()[fn](r, kind, *args)
        r.count("histories_decided")
    except (Undecided, OM.PromErr, RecursionError) as e:
        r.und(f"{kind} {name}", str(e) or type(e).__name__)
    except InterpRaise as e:
        r.und(f"{kind} {name}", f"raises {e.exc} at {loc_text(e.loc)}")
    return r


def run(tier, only=None):
    items = []

    def add(name, kind, fn, *args):
        if not only or only in name or only in kind:
            items.append((f"{kind} {name} {args}", kind, fn, args, tier))
    for kind in CLASSES:
        for var, n in inputs_of(kind).items():
            if var != "ac|aero|CD_nonwing":
                add("mix", kind, "h_mix", "within", var, tier)
                add("mix", kind, "h_mix", "between", var, tier)
            for i in picks(n, tier):
                add("change", kind, "h_change", var, i, tier)
                if var != "ac|aero|CD_nonwing":
                    add("small", kind, "h_small", var, i, tier)
        alt = [("other Mach numbers", dict(grid="B")), ("other angles of attack", dict(grid="C")), ("other altitudes", dict(grid="D")), ("other grid shape", dict(grid="E")),
               ("smaller grid", dict(grid="F")), ("same options", {}), ("other num_x", dict(num_x=2)), ("other num_y", dict(num_y=3))]
        sa = {"with_wave": False} if kind == "VLM" else {"E": 7e10}
        sb = {"k_lam": 0.1} if kind == "VLM" else {"G": 3e10}
        alt += [("surf_options", dict(surf_options=sa)), ("surf_options array", dict(surf_options=dict(sa, t_over_c_cp=np.array([0.1, 0.2]))))]
        if kind == "OAS":
            alt += [("other spline sizes", dict(num_twist=3)), ("other spline sizes 2", dict(num_toverc=1, num_skin=2)), ("other tolerance", dict(regen_tol=1e-5))]
        for nm, kw in alt:
            for o in ((0, 1) if tier == "quick" else (0, 1, 2)):
                add("pair", kind, "h_pair", nm, kw, o)
            add("resetup", kind, "h_resetup", nm, kw)
        add("surf", kind, "h_surf", sa, sb)
        for op in ("run_model", "compute_totals"):
            for at in ((0, 5) if tier == "quick" else range(12)):
                for before in (False, True):
                    for what in ("outputs", "derivatives"):
                        add("fault", kind, "h_fault", op, at, before, what)
        for grid in GRIDS:
            add("align", kind, "h_align", grid, {})
        add("align", kind, "h_align", "A", dict(surf_options=sa))
        add("align", kind, "h_align", "E", dict(num_x=2, num_y=3))
        for grid in GRIDS:
            for kw in (({}, dict(geometry="section", num_sections=3), dict(geometry="mesh")) if kind == "VLM" else ({}, dict(num_twist=3, num_toverc=2, num_skin=5, num_spar=3))):
                add("group", kind, "h_group", grid, kw)
    return pmap(task, items, limit=300 if tier == "quick" else 800)


def h_surf(r, kind, sa, sb):
    """surface options that differ are rejected or get their own data, in either order, whatever differs"""
    arr = lambda *v: dict(sa, t_over_c_cp=np.array(v))
    for nm, a, b in (("value", sa, {k: (not v if isinstance(v, bool) else v * 2) for k, v in sa.items()}), ("other key", sa, sb), ("missing key", dict(sa, **sb), sa), ("extra key", sa, dict(sa, **sb)),
                     ("none and some", {}, sa), ("array element", arr(0.1, 0.2), arr(0.1, 0.3)), ("array length", arr(0.1, 0.2), arr(0.1, 0.2, 0.3))):
        for order in (0, 1):
            q = Run(r, kind, f"surf_options differ:{nm}")
            q.add("A", cfg(kind, surf_options=a))
            r.count("histories")
            try:
                q.add("B", cfg(kind, surf_options=b))
            except InterpRaise as e:
                r.count("rejected")
                continue
            for n in (("A", "B", "A") if order == 0 else ("B", "A")):
                q.step(n, "outputs", must_run=False)
            for n in (("A", "B") if order == 0 else ("B", "A", "B")):
                q.step(n, "derivatives", must_run=False)


GROUPS = {"VLM": P + "drag_polar.VLMDragPolar", "OAS": P + "aerostructural.AerostructDragPolar"}


def h_group(r, kind, grid, kw):
    """the surrogate of a drag polar interpolates its own generator's data over the grid the generator used"""
    from .. import flat as F
    from .. import npmodel as NP
    from .. import units as U
    g = GRIDS[grid]
    o = dict(Mach_train=np.array(g[0]), alpha_train=np.array(g[1]), alt_train=np.array(g[2]), num_nodes=3, num_x=1, num_y=2, **kw)
    it, inst = C.build(C.Config(GROUPS[kind], o, f"grid {grid} {kw}", generic=1e-2))
    fl = F.Flat(it, inst)
    top_of = {a: nm for nm, L in fl.top_in.items() for a, ch in L}
    loc = method_line(it, inst, "setup")
    q = GROUPS[kind]

    def ck(key, ok, msg):
        r.count("values_checked")
        if not ok:
            r.add(f"{q}:surrogate:{key}", f"{msg} [config grid {grid} {kw}]", loc, "surrogate-of-other-data")
    gens = [(p, c) for p, c in fl.comps.items() if c.cls.name in ("VLMDataGen", "OASDataGen")]
    mms = [(p, c) for p, c in fl.comps.items() if getattr(c.cls, "name", "") == "MetaModelStructuredComp"]
    if len(gens) != 1 or len(mms) != 1:
        raise Undecided("generator and surrogate of the drag polar")
    (gp, gen), (mp_, mm) = gens[0], mms[0]
    opt = lambda n: NP.asarr(it, gen.om.options.d[n].val).a.reshape(-1)
    for n, v in zip(("Mach_train", "alpha_train", "alt_train"), g):
        ck(n, [float(x) for x in opt(n)] == list(v), f"the generator has another {n} than the group")
    for k in inst.om.options.own:
        if k in gen.om.options.own and k not in ("num_y",):
            a, b = inst.om.options.d[k].val, gen.om.options.d[k].val
            if isinstance(a, (int, dict, str)):
                ck(k, a == b, f"the generator has {k}={b!r}, the group {a!r}")
    tr = mm.om.extra.get("train", {})
    axes = [(n, t) for n, t in tr.items() if t[0] == "input"]
    ck("axes", len(axes) == 3, f"{len(axes)} axes")
    for (n, t), on, u in zip(axes, ("Mach_train", "alpha_train", "alt_train"), (None, "deg", "m")):
        v = mm.om.inputs[n]
        vals = [float(x) for x in t[1].a.reshape(-1)]
        if u is not None:
            f = U.get(v.units).f / U.get(u).f if v.units else 1.0
            vals = [x * f for x in vals]
        ck(f"axis {on}", len(vals) == opt(on).size and all(abs(a - float(b)) <= 1e-9 * max(1, abs(a)) for a, b in zip(vals, opt(on))), f"axis {n} of the surrogate is not {on} of the generator (the data is ordered Mach, angle, altitude)")
        a = mp_ + "." + n
        src = top_of.get(a) or (fl.conn[a].src if a in fl.conn else None)
        if on == "Mach_train":
            ck("Mach number feeds its axis", src == "fltcond|M", f"axis {on} is fed by {src}")
        if on == "alt_train":
            ck("altitude feeds its axis", src == "fltcond|h", f"axis {on} is fed by {src}")
    for n, t in tr.items():
        if t[0] != "output":
            continue
        a = mp_ + "." + n + "_train"
        src = fl.conn[a].src if a in fl.conn else None
        role = {"CL": "CL_train", "CD": "CD_train", "failure": "failure_train"}.get(n)
        if role is None:
            raise Undecided(f"surrogate output {n}")
        ck(f"data of {n}", src == gp + "." + role, f"the training data of {n} comes from {src}, not from {gp}.{role}")
        vo = fl.vars[gp + "." + role][1]
        ck(f"shape of {n}", tuple(fl.vars[a][1].shape or ()) == tuple(vo.shape), f"shape of the training data of {n}")
    r.count("histories")
    r.count("grids")
