"""Physical units: (factor, offset, base-dimension powers) of a unit expression."""
import ast
import configparser
import math
import os
import re


class Unit:
    __slots__ = ("f", "off", "p")

    def __init__(self, f, p, off=0.0):
        self.f, self.p, self.off = f, p, off


_lib = None


def _load():
    global _lib
    cp = configparser.ConfigParser()
    cp.optionxform = lambda s: s
    cp.read(os.path.join(os.path.dirname(__file__), "unit_library.ini"))
    pre = {k: float(v.partition(",")[0]) for k, v in cp.items("prefixes")}
    base = [v for k, v in cp.items("base_units")]
    tab = {}
    n = len(base)
    for i, u in enumerate(base):
        tab[u] = Unit(1.0, tuple(1 if j == i else 0 for j in range(n)))
    pend = dict(cp.items("units"))
    for _ in range(20):
        for k in list(pend):
            raw = pend[k]
            parts = [x.strip() for x in raw.split(",")]
            try:
                if len(parts) >= 3 and re.match(r"^[0-9.eE+-]+$", parts[0]) and parts[1] in tab:
                    b = tab[parts[1]]
                    tab[k] = Unit(b.f * float(parts[0]), b.p, float(parts[2]))
                else:
                    u = _ev(ast.parse(parts[0], mode="eval").body, tab, pre, n, False)
                    tab[k] = u if isinstance(u, Unit) else Unit(u, (0,) * n)
            except KeyError:
                continue
            del pend[k]
        if not pend:
            break
    _lib = (tab, pre, base, n)


def _ev(e, tab, pre, n, prefixes=True):
    if isinstance(e, ast.Constant):
        return float(e.value)
    if isinstance(e, ast.Name):
        if e.id in tab:
            return tab[e.id]
        if e.id == "pi" and not prefixes:
            return math.pi
        if e.id == "as_":
            return Unit(1e-18, tab["s"].p)
        if prefixes:
            if e.id[0] in pre and e.id[1:] in tab:
                b = tab[e.id[1:]]
                return Unit(pre[e.id[0]] * b.f, b.p)
            if e.id[:2] in pre and e.id[2:] in tab:
                b = tab[e.id[2:]]
                return Unit(pre[e.id[:2]] * b.f, b.p)
        raise KeyError(e.id)
    if isinstance(e, ast.UnaryOp):
        return -_ev(e.operand, tab, pre, n, prefixes)
    if isinstance(e, ast.BinOp):
        a, b = _ev(e.left, tab, pre, n, prefixes), _ev(e.right, tab, pre, n, prefixes)
        fa, pa = (a.f, a.p) if isinstance(a, Unit) else (a, (0,) * n)
        if isinstance(e.op, ast.Pow):
            if isinstance(b, Unit):
                raise KeyError("pow")
            if not isinstance(a, Unit):
                return a ** b
            return Unit(fa ** b, tuple(x * b for x in pa))
        fb, pb = (b.f, b.p) if isinstance(b, Unit) else (b, (0,) * n)
        if isinstance(e.op, ast.Mult):
            r = Unit(fa * fb, tuple(x + y for x, y in zip(pa, pb)))
        elif isinstance(e.op, ast.Div):
            r = Unit(fa / fb, tuple(x - y for x, y in zip(pa, pb)))
        else:
            raise KeyError("op")
        if not isinstance(a, Unit) and not isinstance(b, Unit):
            return r.f
        return r
    raise KeyError("syntax")


_cache = {}


def get(s):
    """Unit, or None if invalid.  None/'' -> dimensionless"""
    if _lib is None:
        _load()
    tab, pre, base, n = _lib
    if s is None:
        return Unit(1.0, (0,) * n)
    if s in _cache:
        return _cache[s]
    t = re.sub(r"\bas\b", "as_", s).strip()
    try:
        u = _ev(ast.parse(t, mode="eval").body, tab, pre, n)
        if not isinstance(u, Unit):
            u = Unit(u, (0,) * n) if t == "1" else None
    except (KeyError, SyntaxError, IndexError):
        u = None
    if u is not None:
        i = base.index("unitless")
        p = list(u.p)
        u = Unit(u.f, tuple(p), u.off)
    _cache[s] = u
    return u


def valid(s):
    return get(s) is not None


def dims(s):
    return get(s).p


def base_names():
    if _lib is None:
        _load()
    return list(_lib[2])


def compatible(a, b):
    """both given as strings"""
    ua, ub = get(a), get(b)
    return ua is not None and ub is not None and ua.p == ub.p


def convert(v, a, b):
    """value in unit a -> unit b"""
    if a is None or b is None or a == b:
        return v
    ua, ub = get(a), get(b)
    return (v + ua.off) * (ua.f / ub.f) - ub.off
