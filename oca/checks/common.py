"""shared driver of the per-component checks"""
import numpy as np
from .. import expr as X
from ..expr import E
from ..values import *
from ..interp import InterpRaise, Undecided
from .. import om as OM
from .. import comp as C
from .. import sample as S
from ..report import Result, seed_of, pmap

REL = 5e-5


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, r, cls, cfg, tier, prop):
        self.r, self.cls, self.cfg, self.tier, self.prop = r, cls, cfg, tier, prop
        self.qual, self.label = cls.qual, cfg.label
        self.rng = np.random.default_rng(seed_of(prop, cls.qual, cfg.label))

    def und(self, why):
        self.r.und(f"{self.qual} [{self.label}]", why)


def loc_text(loc):
    if not loc or loc[0] == "?":
        return ""
    return f"{C.rel(loc[0])}:{loc[1]}"


def method_line(it, inst, *names):
    for n in names:
        m = it.find_method(inst.cls, n)
        if isinstance(m, FuncObj):
            return f"{C.rel(m.module.path)}:{m.node.lineno} {inst.cls.name}.{n}"
    return inst.cls.qual


def user_raise(e):
    return bool(getattr(e.exc, "user", False))


def builds(qual):
    """configurations reviewed as supported"""
    from . import wiring
    return wiring.record().get("groups", {}).get(qual, {}).get("builds", ())


def _task(qual, name, kind, tier, prop, fnmod, fnname, cap):
    import importlib
    r = Result()
    cls = C.Cls()
    cls.qual, cls.name, cls.module, cls.kind = qual, name, qual.rsplit(".", 1)[0], kind
    fn = getattr(importlib.import_module(fnmod), fnname)
    try:
        cfgs = C.enumerate_configs(cls, tier, cap)
    except (Undecided, InterpRaise, OM.PromErr) as e:
        r.und(qual, f"configurations: {e}")
        return r
    r.count("classes")
    good = 0
    for cfg in cfgs:
        ctx = Ctx(r, cls, cfg, tier, prop)
        try:
            if fn(ctx) is not False:
                good += 1
                r.count("configs_decided")
        except InterpRaise as e:
            if prop == "C16" and cfg.label in builds(qual):
                r.add(f"{qual}:build fails", f"a supported configuration no longer builds: {e.exc} [config {cfg.label}]", loc_text(e.loc), "build-fails")
            elif user_raise(e):
                r.count("configs_rejected_by_component")
            else:
                ctx.und(f"raises {e.exc} at {loc_text(e.loc)}")
        except OM.PromErr as e:
            if prop == "C16" and cfg.label in builds(qual):
                r.add(f"{qual}:build fails", f"a supported configuration no longer builds: {e.msg} [config {cfg.label}]", qual, "build-fails")
            else:
                ctx.und(f"declaration: {e.msg}")
        except Undecided as e:
            ctx.und(str(e))
        except Stop:
            pass
        except RecursionError:
            ctx.und("recursion depth")
    if good:
        r.count("classes_decided")
    return r


def scan(prop, tier, kinds, fn, only=None, cap=None, skip=()):
    classes, _ = C.discover()
    items = [(c.qual, c.name, c.kind, tier, prop, fn.__module__, fn.__name__, cap) for c in classes.values()
             if c.kind in kinds and c.name not in skip and (not only or only in c.qual)]
    return pmap(_task, items, limit=240 if tier == "quick" else 800)


def split_user_raises(e):
    return user_raise(e)


def differs(e, sub1, sub2, assumptions, known, rng, want=30):
    """does e change when the given symbols are replaced by two independent sets? (value dependence)"""
    if not isinstance(e, E):
        return None
    a, b = X.subst(e, sub1), X.subst(e, sub2)
    return S.compare(a, b, assumptions, known, rng, want=want)
