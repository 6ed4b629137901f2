"""Run with /opt/venv/bin/python: writes sa/extapi.json, the names and signatures of the installed external modules
(numpy, scipy, the standard library, ...) that the resolution rules check uses against.  The package under analysis is
not imported."""
import importlib
import inspect
import json
import os
import types
import numpy

MODS = """builtins math cmath copy os os.path sys itertools functools operator abc pprint random time warnings collections re json string
types typing numbers logging contextlib inspect textwrap numpy numpy.linalg numpy.random numpy.polynomial numpy.polynomial.polynomial
numpy.polynomial.legendre numpy.polynomial.hermite numpy.polynomial.hermite_e numpy.polynomial.chebyshev numpy.fft numpy.ma numpy.testing numpy.lib numpy.matlib
numpy.lib.stride_tricks scipy scipy.linalg scipy.special scipy.stats scipy.stats.qmc scipy.sparse scipy.sparse.linalg scipy.interpolate
scipy.optimize scipy.integrate scipy.spatial scipy.spatial.distance scipy.fft scipy.signal scipy.cluster networkx networkx.convert_matrix
matplotlib.pyplot sklearn.linear_model sklearn.model_selection""".split()
CLASSES = {"nd": numpy.ndarray, "list": list, "tuple": tuple, "dict": dict, "set": set, "str": str}


def sig(o):
    if isinstance(o, numpy.ufunc):
        return {"min": o.nin, "max": o.nin + o.nout, "kw": None}
    if o in (print, max, min, zip, map, range, dict, set, list, tuple, str, int, float, bool, type, super, getattr, iter, next, slice,
             enumerate, object, complex, bytes, frozenset, property, vars, dir):
        if o is enumerate:
            return {"min": 1, "max": 2, "kw": ["iterable", "start"]}
        if o in (range,):
            return {"min": 1, "max": 3, "kw": []}
        if o in (set, list, tuple, frozenset):
            return {"min": 0, "max": 1, "kw": []}
        return None
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    mn = mx = 0
    kw, req = [], []
    for p in s.parameters.values():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            if mx is not None:
                mx += 1
            if p.default is p.empty:
                mn += 1
                if p.kind == p.POSITIONAL_OR_KEYWORD:
                    req.append(p.name)
            if p.kind == p.POSITIONAL_OR_KEYWORD and kw is not None:
                kw.append(p.name)
        elif p.kind == p.VAR_POSITIONAL:
            mx = None
        elif p.kind == p.KEYWORD_ONLY and kw is not None:
            kw.append(p.name)
        elif p.kind == p.VAR_KEYWORD:
            kw = None
    return {"min": mn, "max": mx, "kw": kw}


# signatures numpy does not expose
EXTRA = {"numpy": {"arange": {"min": 1, "max": 4, "kw": ["start", "stop", "step", "dtype", "like"]},
                   "array": {"min": 1, "max": 2, "kw": ["object", "dtype", "copy", "order", "subok", "ndmin", "like"]},
                   "zeros": {"min": 1, "max": 3, "kw": ["shape", "dtype", "order", "like"]},
                   "empty": {"min": 1, "max": 3, "kw": ["shape", "dtype", "order", "like"]},
                   "dot": {"min": 2, "max": 3, "kw": ["a", "b", "out"]},
                   "concatenate": {"min": 1, "max": 3, "kw": ["arrays", "axis", "out", "dtype", "casting"]},
                   "where": {"min": 1, "max": 3, "kw": []},
                   "inner": {"min": 2, "max": 2, "kw": ["a", "b"]}},
         "builtins": {"isinstance": {"min": 2, "max": 2, "kw": []}, "len": {"min": 1, "max": 1, "kw": []},
                      "abs": {"min": 1, "max": 1, "kw": []}, "callable": {"min": 1, "max": 1, "kw": []},
                      "hasattr": {"min": 2, "max": 2, "kw": []}, "setattr": {"min": 3, "max": 3, "kw": []},
                      "all": {"min": 1, "max": 1, "kw": []}, "any": {"min": 1, "max": 1, "kw": []}}}
out = {"modules": {}, "classes": {k: sorted(dir(v)) for k, v in CLASSES.items()},
       "versions": {"numpy": numpy.__version__}}
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except Exception:
        continue
    names, sigs = [], {}
    for n in dir(mod):
        if n.startswith("_") and not n.startswith("__"):
            continue
        names.append(n)
        o = getattr(mod, n, None)
        if callable(o) and not isinstance(o, types.ModuleType):
            s = sig(o) if not (inspect.isclass(o) and o.__module__ in ("builtins",) and o not in (range, set, list, tuple, frozenset, enumerate)) else None
            if s is not None:
                sigs[n] = [s["min"], s["max"], s["kw"]]
    for n, s in EXTRA.get(m, {}).items():
        sigs[n] = [s["min"], s["max"], s["kw"]]
    if m == "numpy.random":
        names.append("mtrand")
    out["modules"][m] = {"names": sorted(set(names)), "sigs": sigs}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(out, open(os.path.join(here, "sa", "extapi.json"), "w"), separators=(",", ":"), sort_keys=True)
print(len(out["modules"]))
