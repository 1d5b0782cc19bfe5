"""Self-test of the abstract interpreter: small functions in many Python/numpy idioms are evaluated through the value graph
and compared with what Python and numpy compute.  Not a check of /repo (nothing of it is executed or analysed here).
usage: python3-vt selftest/run.py [function names]"""
import importlib.util
import os
import sys
import warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
os.environ["OCA_ROOT"] = HERE
warnings.simplefilter("ignore")
import numpy as np
from oca import comp as C, expr as X, npmodel as NP
from oca.values import SArr, Root
from oca.interp import Undecided, InterpRaise
if not hasattr(np, "trapz"):
    np.trapz = np.trapezoid
# known not to be modelled: absent modules, bool identity in match, poly1d, integer ZeroDivisionError, dunder of numbers, complex literals
SKIP = {"t_cond_import", "t_matchsym", "t_polyfit1", "t_zerodiv", "t_numpyscalar", "t_complex"}
xs = [np.array([0.4, 1.3, 2.6]), np.array([2.1, 0.9, 1.7]), np.array([1.6, 2.5, 0.2])]
bad = n = 0
for mod in ("idioms1", "idioms2", "idioms3", "idioms4"):
    sp = importlib.util.spec_from_file_location(mod, f"{HERE}/openconcept/{mod}.py")
    m = importlib.util.module_from_spec(sp)
    sys.modules[mod] = m
    sp.loader.exec_module(m)
    for name in [k for k in dir(m) if k.startswith("t_") and k not in SKIP and (not sys.argv[1:] or k in sys.argv[1:])]:
        n += 1
        try:
            it = C.new_interp()
            it.phase = "run"
            f = C.get_class(it, f"openconcept.{mod}.{name}")
            syms = [X.sym(f"x[{i}]") for i in range(3)]
            a = np.empty(3, object)
            a[:] = syms
            r = it.call(f, [SArr(a, "f", Root("input 'x'"))], {})
            ra = np.asarray(NP.obj(NP.asarr(it, r)), dtype=object)
            for x in xs:
                w = np.asarray(getattr(m, name)(x.copy()), dtype=float)
                fl = ra.reshape(-1)
                memo = X.evaluate([e for e in fl if isinstance(e, X.E)], {s.id: np.array([v]) for s, v in zip(syms, x)}, 1)
                g = np.array([float(memo[e.id][0]) if isinstance(e, X.E) else float(e) for e in fl]).reshape(ra.shape)
                if g.size != w.size or not np.allclose(g.reshape(-1), w.reshape(-1), equal_nan=True):
                    print("DIFFERS", mod, name, g, w)
                    bad += 1
                    break
        except (Undecided, InterpRaise) as e:
            print("UNDECIDED", mod, name, str(e)[:120])
            bad += 1
print(f"{n} functions, {bad} differ")
sys.exit(bad > 0)
