"""Run-time values of the abstract interpreter."""
import numpy as np
from . import expr as X
from .expr import E


class Undecided(Exception):
    """The analysis cannot model something; the obligation stays undecided."""


class InterpRaise(Exception):
    """The analysed program raises an exception."""

    def __init__(self, exc, loc=None):
        self.exc = exc
        self.loc = loc

    def __str__(self):
        return f"raises {self.exc} at {self.loc}"


class ExcObj:
    def __init__(self, cls, args):
        self.cls = cls
        self.args = args

    def name(self):
        return getattr(self.cls, "name", getattr(self.cls, "__name__", str(self.cls)))

    def __str__(self):
        return f"{self.name()}({', '.join(str(a)[:120] for a in self.args)})"


class Poison:
    """value that differs between paths in a way that cannot be merged"""

    def __init__(self, why):
        self.why = why


class Gap(Poison):
    """element of a container whose extent differs between paths"""


UNDEF = Poison("undefined")


class Opaque:
    """result of code outside the analysed tree"""

    def __init__(self, name, module=False):
        self.name = name
        self.module = module
        self.args = None        # arguments of the call that gave this value

    def called(self, args, kw):
        self.args = (tuple(args), dict(kw))
        return self

    def __repr__(self):
        return f"<opaque {self.name}>"


class ModRef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class ExtRef:
    """attribute of an external module, e.g. numpy.zeros"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class NativeFn:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<native {self.name}>"


class NativeCls:
    def __init__(self, name, bases=(), methods=None, init=None):
        self.name = name
        self.bases = list(bases)
        self.methods = methods or {}
        self.mro = [self]
        for b in bases:
            for m in b.mro:
                if m not in self.mro:
                    self.mro.append(m)

    def __repr__(self):
        return f"<class {self.name}>"


class ClsObj:
    def __init__(self, name, bases, ns, module, node):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) if hasattr(b, "mro") and not isinstance(b, type) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                break
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    @property
    def qual(self):
        return f"{self.module}.{self.name}"

    def __repr__(self):
        return f"<class {self.qual}>"

    def native(self):
        for m in self.mro:
            if isinstance(m, NativeCls):
                return m
        return None

    def issub(self, name):
        return any(getattr(m, "name", None) == name for m in self.mro)


class Inst:
    """instance of an analysed or native class"""

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.om = None

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)} instance>"


class FuncObj:
    def __init__(self, node, module, closure, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.cls = cls
        self.defaults = []
        self.kwdefaults = {}
        self.name = getattr(node, "name", "<lambda>")
        self.kind = "func"

    def __repr__(self):
        return f"<function {self.module}.{self.cls.name + '.' if self.cls else ''}{self.name}>"


class Bound:
    def __init__(self, func, inst):
        self.func = func
        self.inst = inst

    def __repr__(self):
        return f"<bound {self.func}>"


class SuperObj:
    def __init__(self, cls, inst):
        self.cls = cls
        self.inst = inst


class Root:
    """identity of an array's storage, for effect analysis"""
    __slots__ = ("tag",)

    def __init__(self, tag=None):
        self.tag = tag


class SArr:
    __slots__ = ("a", "kind", "root")

    def __init__(self, a, kind, root=None):
        self.a = a
        self.kind = kind
        self.root = root if root is not None else Root()

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.a.size

    def __repr__(self):
        return f"SArr{self.shape}{self.kind}"

    def base(self):
        b = self.a
        while b.base is not None and isinstance(b.base, np.ndarray):
            b = b.base
        return b

    def items(self):
        return list(self.a.reshape(-1)) if self.a.size else []


class Masked:
    """a[mask] for a symbolic mask: the selected elements, kept in place"""

    def __init__(self, full, mask):
        self.full = full
        self.mask = mask


class MaskIdx:
    """np.where(mask) for a symbolic mask"""

    def __init__(self, mask):
        self.mask = mask


class DefDict(dict):
    """collections.defaultdict / Counter"""
    factory = None


class Deque(list):
    """collections.deque"""


def retuple(t, xs):
    """tuple of the type of t"""
    return type(t)(*xs) if hasattr(t, "_fields") else tuple(xs)


class MaskShape:
    def __init__(self, mask):
        self.mask = mask


class Sparse:
    """scipy.sparse matrix: dense object data plus stored-pattern"""

    def __init__(self, a, pat, fmt):
        self.a = a
        self.pat = pat
        self.fmt = fmt

    @property
    def shape(self):
        return self.a.shape


class RangeT:
    pass


def norm_elem(x):
    if isinstance(x, E):
        return x.args[0] if x.op == "c" else x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return X.lift(x)
    return x


def wrap(a, root=None):
    """numpy array -> SArr with canonical storage"""
    if a.dtype == object:
        flat = a.reshape(-1)
        ks = set()
        for x in flat:
            if isinstance(x, E):
                ks.add("b" if x.isbool else "f")
            elif isinstance(x, (bool, np.bool_)):
                ks.add("b")
            elif isinstance(x, (int, np.integer)):
                ks.add("i")
            elif isinstance(x, (float, np.floating)):
                ks.add("f")
            elif isinstance(x, (complex, np.complexfloating)):
                ks.add("c")
            else:
                ks.add("O")
        if ks <= {"i"} and ks:
            return SArr(a.astype(np.int64), "i", root)
        if "O" in ks:
            return SArr(a, "O", root)
        if ks <= {"b"} and ks:
            return SArr(a, "b", root)
        b = np.empty(a.shape, dtype=object)
        bf = b.reshape(-1)
        for i, x in enumerate(flat):
            x = norm_elem(x)
            bf[i] = float(x) if isinstance(x, (int, bool)) else x
        return SArr(b, "c" if "c" in ks else "f", root)
    k = a.dtype.kind
    if k in "iu":
        return SArr(a.astype(np.int64), "i", root)
    if k == "b":
        return SArr(a.astype(object), "b", root)
    if k == "f":
        return SArr(a.astype(object), "f", root)
    if k == "c":
        o = np.empty(a.shape, dtype=object)
        of = o.reshape(-1)
        for i, x in enumerate(a.reshape(-1)):
            of[i] = norm_elem(x)
        return SArr(o, "c", root)
    return SArr(a, k, root)


def concrete(v):
    """value -> plain python/numpy value, or raise TypeError if symbolic"""
    if isinstance(v, SArr):
        if v.a.dtype != object:
            return v.a
        for x in v.a.reshape(-1):
            if isinstance(x, E):
                raise TypeError("symbolic")
        if v.kind == "O":
            return v.a
        return np.array(v.a.tolist(), dtype={"f": float, "c": complex, "b": bool, "i": int}[v.kind]).reshape(v.a.shape)
    if isinstance(v, E):
        raise TypeError("symbolic")
    if isinstance(v, (list, tuple)):
        return retuple(v, [concrete(x) for x in v]) if isinstance(v, tuple) else [concrete(x) for x in v]
    if isinstance(v, dict):
        return {k: concrete(x) for k, x in v.items()}
    if isinstance(v, slice):
        return v
    if isinstance(v, (int, float, complex, str, bool, type(None), np.generic, np.ndarray, range, bytes, type(Ellipsis))):
        return v
    if isinstance(v, ExtRef):
        if v.name.startswith("numpy."):
            t = getattr(np, v.name[6:], None)
            if isinstance(t, type) or v.name in ("numpy.float_",):
                return t if t is not None else float
        raise TypeError("ext")
    if v in (int, float, bool, complex, str):
        return v
    raise TypeError(f"not concrete: {v!r}")


def is_scalar(v):
    return isinstance(v, (int, float, bool, np.number, np.bool_, E)) or isinstance(v, complex)


def has_sym(v):
    if isinstance(v, E):
        return True
    if isinstance(v, SArr):
        return v.a.dtype == object and any(isinstance(x, E) for x in v.a.reshape(-1))
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in v)
    if isinstance(v, (Masked, MaskIdx, Sparse)):
        return True
    return False
