"""Value graph (hash-consed terms) used as the abstract value domain.

A term denotes a scalar program value as a function of named symbols (component
inputs, options, values left over from an earlier evaluation, ...).  Terms are
built by the abstract interpreter and never by running repository code.

Equality of two terms is decided by global value numbering through random
interpretation (Gulwani & Necula): both terms are assigned numeric fingerprints
at random points of the symbol space; equal terms always get equal
fingerprints, so a difference is a proof of inequality at that point.
"""
import math
import numpy as np

_table = {}
_nodes = []


class E:
    __slots__ = ("op", "args", "id", "sup", "isbool", "__weakref__")

    def __repr__(self):
        return show(self)

    # identity semantics: hash-consed
    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise RuntimeError("symbolic truth value")


BOOLOPS = {"lt", "le", "eq", "and", "or", "not", "isnan"}
_EMPTY = frozenset()


def _mk(op, args):
    key = (op,) + tuple(a.id if isinstance(a, E) else ("k", type(a).__name__, repr(a)) for a in args)
    e = _table.get(key)
    if e is not None:
        return e
    e = E()
    e.op = op
    e.args = args
    e.id = len(_nodes)
    _nodes.append(e)
    e.isbool = op in BOOLOPS
    if op == "s":
        e.sup = frozenset((e.id,))
        if args[0].startswith("?b:"):
            e.isbool = True
    else:
        s = _EMPTY
        for a in args:
            if isinstance(a, E) and a.sup:
                s = a.sup if not s else (s if a.sup <= s else s | a.sup)
        e.sup = s
    _table[key] = e
    return e


def node(i):
    return _nodes[i]


def sym(name):
    return _mk("s", (name,))


IMAG = sym("<imaginary unit>")


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_)) and not isinstance(x, E)


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, (bool, np.bool_)):
        return _mk("c", (float(bool(x)),))
    if isinstance(x, (int, np.integer)):
        x = float(x)
    if isinstance(x, (float, np.floating)):
        return _mk("c", (float(x),))
    if isinstance(x, (complex, np.complexfloating)):
        return add(float(x.real), mul(float(x.imag), IMAG))
    raise TypeError(f"cannot lift {type(x)}")


def isconst(e):
    return isinstance(e, E) and e.op == "c"


def lower(e):
    """constant term -> python float, otherwise the term"""
    if isinstance(e, E) and e.op == "c":
        return e.args[0]
    return e


def _c(e):
    if isinstance(e, E):
        return e.args[0] if e.op == "c" else None
    if isinstance(e, (complex, np.complexfloating)):
        return None
    return float(e)


def _num(f, *a):
    with np.errstate(all="ignore"):
        try:
            r = f(*[np.float64(x) for x in a])
        except (ZeroDivisionError, ValueError, OverflowError):
            return float("nan")
    return float(r)


def add(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return ca + cb
    if ca == 0:
        return b
    if cb == 0:
        return a
    a, b = lift(a), lift(b)
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b))


def neg(a):
    ca = _c(a)
    if ca is not None:
        return -ca
    a = lift(a)
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", (a,))


def sub(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return ca - cb
    if cb == 0:
        return a
    if ca == 0:
        return neg(b)
    a, b = lift(a), lift(b)
    if a is b:
        return 0.0
    return _mk("sub", (a, b))


def mul(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return ca * cb
    if ca == 0 or cb == 0:
        return 0.0
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca == -1:
        return neg(b)
    if cb == -1:
        return neg(a)
    a, b = lift(a), lift(b)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b))


def div(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return _num(np.divide, ca, cb)
    if cb == 1:
        return a
    if ca == 0:
        return 0.0
    return _mk("div", (lift(a), lift(b)))


def pow_(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return _num(np.power, ca, cb)
    if cb == 1:
        return a
    if cb == 0:
        return 1.0
    if cb == 0.5:
        return un("sqrt", a)
    return _mk("pow", (lift(a), lift(b)))


UN = {
    "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan,
    "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan, "sinh": np.sinh, "cosh": np.cosh,
    "tanh": np.tanh, "floor": np.floor, "round": np.round, "cbrt": np.cbrt, "log10": np.log10, "log2": np.log2,
    "log1p": np.log1p, "expm1": np.expm1, "ceil": np.ceil, "asinh": np.arcsinh, "acosh": np.arccosh, "atanh": np.arctanh,
    "trunc": np.trunc, "erf": None,
}


def un(op, a):
    ca = _c(a)
    if ca is not None and UN.get(op) is not None:
        return _num(UN[op], ca)
    return _mk(op, (lift(a),))


def atan2(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return _num(np.arctan2, ca, cb)
    return _mk("atan2", (lift(a), lift(b)))


def abs_(a):
    ca = _c(a)
    if ca is not None:
        return abs(ca)
    return ite(lt(a, 0.0), neg(a), a)


def sign(a):
    ca = _c(a)
    if ca is not None:
        return float(np.sign(ca))
    return ite(lt(a, 0.0), -1.0, ite(lt(0.0, a), 1.0, 0.0))


def min_(a, b):
    if a is b:
        return a
    return ite(lt(b, a), b, a)


def max_(a, b):
    if a is b:
        return a
    return ite(lt(a, b), b, a)


def uf(name, *args):
    """uninterpreted function application (result known to depend only on args)"""
    return _mk("uf", (name,) + tuple(lift(a) for a in args))


def isbool(x):
    return isinstance(x, (bool, np.bool_)) or (isinstance(x, E) and x.isbool)


def _strip_imag(a):
    return a


GENERIC = False     # generic position: |x| < tiny is false unless x is identically zero


def is_abs(e):
    return e.op == "ite" and e.args[0].op == "lt" and e.args[1] is lift(neg(e.args[2])) and e.args[0].args[0] is e.args[2]


def lt(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return ca < cb
    if GENERIC and cb is not None and 0 < cb <= (1e-8 if GENERIC is True else GENERIC) and isinstance(a, E) and is_abs(a):
        return False
    a, b = lift(a), lift(b)
    if a is b:
        return False
    return _mk("lt", (a, b))


def le(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return ca <= cb
    a, b = lift(a), lift(b)
    if a is b:
        return True
    return not_(lt(b, a))


def eq(a, b):
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None:
        return ca == cb
    a, b = lift(a), lift(b)
    if a is b:
        return True
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b))


def not_(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if not isinstance(a, E):
        return not a
    if a.op == "not":
        return a.args[0]
    if not a.isbool:
        return eq(a, 0.0)
    return _mk("not", (a,))


def tobool(a):
    if isinstance(a, E):
        if a.isbool:
            return a
        return not_(eq(a, 0.0))
    return bool(a)


def and_(a, b):
    a, b = tobool(a), tobool(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return False
    if a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b))


def or_(a, b):
    a, b = tobool(a), tobool(b)
    return not_(and_(not_(a), not_(b)))


def isnan(a):
    ca = _c(a)
    if ca is not None:
        return bool(np.isnan(ca))
    return _mk("isnan", (lift(a),))


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if not isinstance(c, E):
        return a if c else b
    if not c.isbool:
        c = tobool(c)
        if isinstance(c, bool):
            return a if c else b
    if a is b:
        return a
    ba, bb = isbool(a), isbool(b)
    if ba and bb:
        return or_(and_(c, a), and_(not_(c), b))
    ca, cb = _c(a), _c(b)
    if ca is not None and cb is not None and (ca == cb):
        return a
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if c.op == "not":
        return _mk("ite", (c.args[0], b, a))
    return _mk("ite", (c, a, b))


# ---------------------------------------------------------------- differentiation
class Differ:
    """Forward derivative of terms with respect to one symbol."""

    def __init__(self, s):
        self.s = s
        self.sid = s.id
        self.memo = {}

    def __call__(self, e):
        if not isinstance(e, E):
            return 0.0
        if self.sid not in e.sup:
            return 0.0
        memo = self.memo
        if e.id in memo:
            return memo[e.id]
        # iterative post-order to avoid recursion limits
        stack = [e]
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            kids = [a for a in n.args if isinstance(a, E) and not a.isbool and self.sid in a.sup and a.id not in memo]
            if kids:
                stack.extend(kids)
                continue
            memo[n.id] = self._d(n)
            stack.pop()
        return memo[e.id]

    def _g(self, a):
        if not isinstance(a, E) or self.sid not in a.sup or a.isbool:
            return 0.0
        return self.memo[a.id]

    def _d(self, n):
        op = n.op
        A = n.args
        g = self._g
        if op == "s":
            return 1.0 if n.id == self.sid else 0.0
        if op == "add":
            return add(g(A[0]), g(A[1]))
        if op == "sub":
            return sub(g(A[0]), g(A[1]))
        if op == "neg":
            return neg(g(A[0]))
        if op == "mul":
            return add(mul(g(A[0]), A[1]), mul(A[0], g(A[1])))
        if op == "div":
            da, db = g(A[0]), g(A[1])
            return sub(div(da, A[1]), mul(div(A[0], mul(A[1], A[1])), db))
        if op == "pow":
            a, b = A
            da, db = g(a), g(b)
            r = 0.0
            if not (is_num(da) and da == 0):
                r = mul(mul(b, pow_(a, sub(b, 1.0))), da)
            if not (is_num(db) and db == 0):
                r = add(r, mul(mul(n, un("log", a)), db))
            return r
        if op == "ite":
            return ite(A[0], g(A[1]), g(A[2]))
        if op == "uf":
            name = A[0]
            r = 0.0
            for i, a in enumerate(A[1:]):
                d = g(a)
                if not (is_num(d) and d == 0):
                    r = add(r, mul(uf(name + f"'{i}", *A[1:]), d))
            return r
        if n.isbool:
            return 0.0
        a = A[0]
        d = g(a)
        if op == "exp":
            return mul(n, d)
        if op == "log":
            return div(d, a)
        if op == "sqrt":
            return div(d, mul(2.0, n))
        if op == "sin":
            return mul(un("cos", a), d)
        if op == "cos":
            return neg(mul(un("sin", a), d))
        if op == "tan":
            return mul(add(1.0, mul(n, n)), d)
        if op == "asin":
            return div(d, un("sqrt", sub(1.0, mul(a, a))))
        if op == "acos":
            return neg(div(d, un("sqrt", sub(1.0, mul(a, a)))))
        if op == "atan":
            return div(d, add(1.0, mul(a, a)))
        if op == "sinh":
            return mul(un("cosh", a), d)
        if op == "cosh":
            return mul(un("sinh", a), d)
        if op == "tanh":
            return mul(sub(1.0, mul(n, n)), d)
        if op == "asinh":
            return div(d, un("sqrt", add(1.0, mul(a, a))))
        if op == "cbrt":
            return div(d, mul(3.0, mul(n, n)))
        if op == "log10":
            return div(d, mul(math.log(10.0), a))
        if op == "log2":
            return div(d, mul(math.log(2.0), a))
        if op == "log1p":
            return div(d, add(1.0, a))
        if op == "expm1":
            return mul(un("exp", a), d)
        if op in ("floor", "round", "ceil", "trunc"):
            return 0.0
        if op == "atan2":
            b = A[1]
            db = g(b)
            den = add(mul(a, a), mul(b, b))
            return div(sub(mul(b, d), mul(a, db)), den)
        raise NotImplementedError(op)


def subst(e, m):
    """substitute symbols/terms (dict id -> value)"""
    if not isinstance(e, E):
        return e
    memo = dict(m)
    keys = set(m)
    order = topo([e])
    for n in order:
        if n.id in memo:
            continue
        if n.op in ("c", "s"):
            memo[n.id] = n
            continue
        if not (n.sup & keys) and not any(isinstance(a, E) and memo.get(a.id, a) is not a for a in n.args):
            memo[n.id] = n
            continue
        A = [memo[a.id] if isinstance(a, E) else a for a in n.args]
        memo[n.id] = rebuild(n.op, A)
    return lower(memo[e.id]) if isinstance(memo[e.id], E) else memo[e.id]


def rebuild(op, A):
    f = {"add": add, "sub": sub, "neg": neg, "mul": mul, "div": div, "pow": pow_, "ite": ite, "lt": lt, "eq": eq,
         "and": and_, "not": not_, "isnan": isnan, "atan2": atan2, "uf": uf}.get(op)
    if f is not None:
        return f(*A)
    return un(op, A[0])


def topo(roots):
    seen = set()
    out = []
    for r in roots:
        if not isinstance(r, E) or r.id in seen:
            continue
        stack = [(r, 0)]
        while stack:
            n, i = stack.pop()
            if n.id in seen:
                continue
            if i == 0:
                stack.append((n, 1))
                for a in n.args:
                    if isinstance(a, E) and a.id not in seen:
                        stack.append((a, 0))
            else:
                seen.add(n.id)
                out.append(n)
    return out


# ---------------------------------------------------------------- fingerprints
def _ufval(name, xs):
    """deterministic smooth pseudo-random function"""
    h = 0
    for ch in name:
        h = (h * 131 + ord(ch)) % 1000003
    r = np.sin(0.37 * (h % 997) + 0.1) + 1.7
    for i, x in enumerate(xs):
        w = 0.3 + ((h // (7 + i)) % 89) / 60.0
        r = r * (1.3 + np.sin(w * x / (1 + abs(x)) + 0.11 * i + 0.001 * (h % 31)))
    return r


def evaluate(roots, vals, n, dtype=np.longdouble):
    """vals: sym id -> array of n numbers. Returns dict node id -> array."""
    memo = {}
    with np.errstate(all="ignore"):
        for e in topo(roots):
            op = e.op
            A = e.args
            if op == "c":
                v = np.full(n, A[0], dtype=dtype)
            elif op == "s":
                if e.id in vals:
                    v = vals[e.id]
                else:
                    raise KeyError(A[0])
            else:
                X = [memo[a.id] for a in A if isinstance(a, E)]
                if op in ("and", "not"):
                    X = [x if x.dtype == bool else x != 0 for x in X]
                elif op != "ite":
                    X = [x.astype(dtype) if x.dtype == bool else x for x in X]
                if op == "add":
                    v = X[0] + X[1]
                elif op == "sub":
                    v = X[0] - X[1]
                elif op == "neg":
                    v = -X[0]
                elif op == "mul":
                    v = X[0] * X[1]
                elif op == "div":
                    v = X[0] / X[1]
                elif op == "pow":
                    b = A[1]
                    if b.op == "c" and float(b.args[0]).is_integer() and abs(b.args[0]) < 20:
                        k = int(b.args[0])
                        v = X[0] ** abs(k)
                        if k < 0:
                            v = 1 / v
                    else:
                        v = np.power(X[0], X[1])
                elif op == "ite":
                    v = np.where(X[0], X[1], X[2])
                elif op == "lt":
                    v = X[0] < X[1]
                elif op == "eq":
                    v = X[0] == X[1]
                elif op == "and":
                    v = X[0] & X[1]
                elif op == "not":
                    v = ~X[0]
                elif op == "isnan":
                    v = np.isnan(X[0])
                elif op == "atan2":
                    v = np.arctan2(X[0], X[1])
                elif op == "uf":
                    v = _ufval(A[0], X)
                elif op == "erf":
                    from scipy.special import erf
                    v = erf(X[0].astype(float)).astype(dtype)
                else:
                    v = UN[op](X[0])
            memo[e.id] = v
    return memo


def evaluate_mp(root, vals, dps=50):
    """single point evaluation with mpmath (vals: sym id -> float)."""
    import mpmath as mp
    old = mp.mp.dps
    mp.mp.dps = dps
    memo = {}
    M = {"exp": mp.exp, "log": mp.log, "sqrt": mp.sqrt, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "asin": mp.asin,
         "acos": mp.acos, "atan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "floor": mp.floor,
         "round": mp.nint, "cbrt": mp.cbrt, "log10": mp.log10, "log1p": mp.log1p, "expm1": mp.expm1, "ceil": mp.ceil,
         "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh, "erf": mp.erf, "log2": lambda x: mp.log(x, 2),
         "trunc": lambda x: mp.floor(x) if x >= 0 else mp.ceil(x)}
    nan = mp.mpf("nan")

    def bad(x):
        return isinstance(x, mp.mpc) or mp.isnan(x)
    try:
        for e in topo([root]):
            op, A = e.op, e.args
            if op == "c":
                v = mp.mpf(A[0])
            elif op == "s":
                v = vals[e.id]
                v = v if isinstance(v, (bool, np.bool_, mp.mpf)) else mp.mpf(float(v))
            else:
                X = [memo[a.id] for a in A if isinstance(a, E)]
                try:
                    if op == "ite":
                        v = X[1] if X[0] else X[2]
                    elif op == "and":
                        v = X[0] and X[1]
                    elif op == "not":
                        v = not X[0]
                    elif op == "isnan":
                        v = bad(X[0])
                    elif any(not isinstance(x, (bool, np.bool_)) and bad(x) for x in X):
                        v = False if e.isbool else nan
                    elif op == "add":
                        v = X[0] + X[1]
                    elif op == "sub":
                        v = X[0] - X[1]
                    elif op == "neg":
                        v = -X[0]
                    elif op == "mul":
                        v = X[0] * X[1]
                    elif op == "div":
                        v = X[0] / X[1]
                    elif op == "pow":
                        v = X[0] ** X[1]
                    elif op == "lt":
                        v = X[0] < X[1]
                    elif op == "eq":
                        v = X[0] == X[1]
                    elif op == "atan2":
                        v = mp.atan2(X[0], X[1])
                    elif op == "uf":
                        v = mp.mpf(float(_ufval(A[0], [float(x) for x in X])))
                    else:
                        v = M[op](X[0])
                except (ZeroDivisionError, ValueError, OverflowError):
                    v = nan
                if not isinstance(v, bool) and isinstance(v, mp.mpc):
                    v = nan
            memo[e.id] = v
        return memo[root.id]
    finally:
        mp.mp.dps = old


def show(e, depth=6):
    if not isinstance(e, E):
        return f"{e:.6g}" if isinstance(e, float) else str(e)
    if e.op == "s":
        return e.args[0]
    if e.op == "c":
        return f"{e.args[0]:.6g}"
    if depth == 0:
        return "…"
    a = [show(x, depth - 1) if isinstance(x, E) else str(x) for x in e.args]
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<", "eq": "==", "and": "&"}
    if e.op in inf:
        return f"({a[0]} {inf[e.op]} {a[1]})"
    return f"{e.op}({', '.join(a)})"


def conds(roots):
    """condition atoms occurring in the terms"""
    return [n for n in topo(roots) if n.op in ("lt", "eq", "isnan") or (n.op == "s" and n.isbool)]


def symbols(roots):
    s = set()
    for r in roots:
        if isinstance(r, E):
            s |= r.sup
    return s


# ---------------------------------------------------------------- operators
def _op(f, swap=False):
    def m(self, o):
        if isinstance(o, np.ndarray):
            return np.frompyfunc((lambda x: f(x, self)) if swap else (lambda x: f(self, x)), 1, 1)(o)
        try:
            return f(o, self) if swap else f(self, o)
        except TypeError:
            return NotImplemented
    return m


E.__array_ufunc__ = None
E.__add__ = _op(add)
E.__radd__ = _op(add, True)
E.__sub__ = _op(sub)
E.__rsub__ = _op(sub, True)
E.__mul__ = _op(mul)
E.__rmul__ = _op(mul, True)
E.__truediv__ = _op(div)
E.__rtruediv__ = _op(div, True)
E.__pow__ = _op(pow_)
E.__rpow__ = _op(pow_, True)
E.__neg__ = lambda self: neg(self)
E.__pos__ = lambda self: self
E.__abs__ = lambda self: abs_(self)
E.__lt__ = _op(lt)
E.__le__ = _op(le)
E.__gt__ = _op(lambda a, b: lt(b, a))
E.__ge__ = _op(lambda a, b: le(b, a))
E.__and__ = _op(and_)
E.__or__ = _op(or_)
E.__invert__ = lambda self: not_(self)
for _n in ("exp", "log", "sqrt", "sin", "cos", "tan", "sinh", "cosh", "tanh"):
    setattr(E, _n, (lambda n: lambda self: un(n, self))(_n))
E.conjugate = lambda self: self


def nsup(e):
    """symbols e depends on through value positions (conditions excluded)"""
    if not isinstance(e, E):
        return _EMPTY
    out = set()
    seen = set()
    st = [e]
    while st:
        n = st.pop()
        if n.id in seen or n.isbool:
            continue
        seen.add(n.id)
        if n.op == "s":
            out.add(n.id)
        for a in n.args:
            if isinstance(a, E):
                st.append(a)
    return frozenset(out)


_topn = [0]


def top(reason):
    _topn[0] += 1
    return sym(f"\u22a4{_topn[0]}:{reason}")


def is_top_sym(i):
    n = _nodes[i].args[0]
    return n.startswith("\u22a4") or n.startswith("?b:\u22a4")


def has_top(e):
    return isinstance(e, E) and any(is_top_sym(i) for i in e.sup)
