"""C16: flattened wiring of every group and configuration"""
import collections
import json
import os
from .. import comp as C
from .. import flat as F
from .. import om as OM
from .. import units as U
from .common import scan, loc_text, method_line

IFACE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "interface.json")
_rec = None


def record():
    global _rec
    if _rec is None:
        _rec = json.load(open(IFACE)) if os.path.exists(IFACE) else {}
    return _rec


# wiring a class documents as the job of the model it is placed in; (class, problem kind, text in the subject)
EXEMPT = [
    # the mission profile that owns the phase supplies 'duration' (every profile is analysed as a group of its own)
    ("openconcept.mission.phases.SteadyFlightPhase", "connect-source", "duration"),
]


def exempt(qual, p):
    return any(qual == q and p.kind == k and t in p.subject for q, k, t in EXEMPT)


def tail(nm):
    return nm.rsplit(".", 1)[-1]


def interface(f):
    """(dangling: tail -> count, boundary names) of one flattened group"""
    d = collections.Counter(tail(nm) for a, nm in f.dangling())
    b = {nm for nm in f.top_in if "." not in nm}
    return d, b


def provided(f):
    """names the group offers at its boundary"""
    return {nm for nm in f.scope["output"] if "." not in nm}


def idle_labels(f):
    """outputs of pass-through labels that no connection inside the group consumes: the design parameter behind them has no effect through them"""
    used = {s.src for s in f.conn.values()}
    out = set()
    for p, k in f.comps.items():
        if getattr(k.cls, "name", "") == "DVLabel":
            out |= {n for n in k.om.outputs if (p + "." + n if p else n) not in used}
    return out


def open_promotes(f):
    return bool(f.ext)


def c16(ctx):
    r, qual, label, cfg = ctx.r, ctx.qual, ctx.label, ctx.cfg
    # a single flight condition by design: speeds and weights of the climb-angle phase are scalars
    if ctx.cls.name == "ClimbAnglePhase" and cfg.kw.get("num_nodes") != 1:
        return False
    it, inst = C.build(cfg)
    if inst.om.kind != "group":
        return False
    f = F.Flat(it, inst)
    n = f.check_conns()
    r.count("connections_checked", n)
    r.count("explicit_connects", f.n_conn)
    r.count("promotions_resolved", f.n_prom)
    r.count("internal_components", len(f.comps))
    r.count("variables", len(f.vars))
    for p in f.problems:
        if exempt(qual, p):
            continue
        r.add(f"{qual}:{p.kind}:{p.subject}", f"{p.msg} [config {label}]", loc_text(p.loc) or method_line(it, inst, "setup"), p.kind)
    for a, s in f.conn.items():
        if s.src.startswith("?ext:"):
            continue
        vi, vo = f.vars[a][1], f.vars[s.src][1]
        if s.explicit and (vi.units is None) != (vo.units is None) and not dimensionless(vi.units) and not dimensionless(vo.units):
            r.count("unit_to_unitless")
            if f"{tail(s.src)} -> {tail(a)}" not in record().get("unitless", []):
                r.add(f"{qual}:unitless:{s.src} -> {a}", f"'{s.src}' [{vo.units}] is connected to '{a}' [{vi.units}]: the units of one end are dropped [config {label}]", loc_text(s.loc), "unitless")
    rec = record().get("groups", {}).get(qual)
    if rec is None:
        r.count("groups_without_record")
        return True
    idle = idle_labels(f)
    r.count("labels_checked", sum(len(k.om.outputs) for k in f.comps.values() if getattr(k.cls, "name", "") == "DVLabel"))
    for nm in sorted(idle - set(rec.get("idle_labels", []))):
        r.add(f"{qual}:idle-label:{nm}", f"the label output '{nm}' feeds no component of the group: setting the design parameter it stands for has no effect [config {label}]",
              method_line(it, inst, "setup"), "idle-label")
    d, b = interface(f)
    for t, k in sorted(d.items()):
        r.count("unfed_inputs_reviewed", k)
        have = rec["unfed"].get(t, 0)
        if k > have:
            names = sorted(nm for a, nm in f.dangling() if tail(nm) == t)
            r.add(f"{qual}:unfed:{t}", f"{k} internal inputs '{t}' have no source and are not reachable by promotion ({', '.join(names[:4])}); {have} are supplied from outside by design [config {label}]",
                  method_line(it, inst, "setup"), "unfed-input")
    for nm in sorted(b - set(rec["boundary"])):
        r.add(f"{qual}:boundary:{nm}", f"'{nm}' surfaces at the boundary of the group as an input without a source; it is not among the inputs the group takes from outside [config {label}]",
              method_line(it, inst, "setup"), "unfed-input")
    r.count("boundary_inputs_checked", len(b))
    have = provided(f)
    for kind, names, got in (("output", rec.get("provides", []), have), ("input", rec.get("takes", []), b)):
        for nm in sorted(set(names) - got):
            r.add(f"{qual}:lost-{kind}:{nm}", f"the group no longer has the {kind} '{nm}' at its boundary, which it has in every configuration [config {label}]", method_line(it, inst, "setup"),
                  f"lost-{kind}")
        r.count("boundary_names_checked", len(names))
    return True


def dimensionless(u):
    return u in ("unitless", "")


def run_c16(tier, only=None):
    return scan("C16", tier, ("group",), c16, only, cap=None)


# ------------------------------------------------------------------ table of reviewed interfaces (written by tools/interface.py only)
def collect(tier):
    classes, _ = C.discover()
    out, unitless = {}, set()
    for c in classes.values():
        if c.kind != "group":
            continue
        for cfg in C.enumerate_configs(c, tier, None):
            try:
                it, inst = C.build(cfg)
            except Exception:
                continue
            if inst.om.kind != "group":
                continue
            f = F.Flat(it, inst)
            d, b = interface(f)
            e = out.setdefault(c.qual, {"unfed": {}, "boundary": [], "provides": None, "takes": None, "idle_labels": [], "builds": []})
            e["builds"] = sorted(set(e["builds"]) | {cfg.label})
            e["idle_labels"] = sorted(set(e["idle_labels"]) | idle_labels(f))
            po = provided(f)
            e["provides"] = sorted(po if e["provides"] is None else po & set(e["provides"]))
            e["takes"] = sorted(b if e["takes"] is None else b & set(e["takes"]))
            for t, k in d.items():
                e["unfed"][t] = max(k, e["unfed"].get(t, 0))
            e["boundary"] = sorted(set(e["boundary"]) | b)
            for a, s in f.conn.items():
                if s.src.startswith("?ext:"):
                    continue
                vi, vo = f.vars[a][1], f.vars[s.src][1]
                if s.explicit and (vi.units is None) != (vo.units is None) and not dimensionless(vi.units) and not dimensionless(vo.units):
                    unitless.add(f"{tail(s.src)} -> {tail(a)}")
    return {"groups": out, "unitless": sorted(unitless)}
