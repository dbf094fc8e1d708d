"""Evaluates the snippets for real: prints {name: canonical value} as JSON."""
import json, sys, warnings, importlib.util
import numpy as np
import astropy.units as u
warnings.simplefilter("ignore")
np.seterr(all="ignore")


def canon(v, depth=0):
    if depth > 6:
        return ["deep"]
    if isinstance(v, u.Quantity):
        return ["q", v.unit.to_string(), canon(v.value)]
    if isinstance(v, u.UnitBase):
        return ["unit", v.to_string()]
    if isinstance(v, np.ndarray):
        return ["arr", v.dtype.kind, list(v.shape), [float(x) for x in v.ravel()]]
    if isinstance(v, np.generic) and not isinstance(v, np.str_):
        return ["arr", v.dtype.kind, [], [float(v)]]
    if v is None or isinstance(v, bool):
        return ["c", v]
    if isinstance(v, (int, float)):
        return ["n", type(v).__name__, float(v)]
    if isinstance(v, str):
        return ["s", str(v)]
    if isinstance(v, dict):
        return ["dict", [[canon(a, depth + 1), canon(b, depth + 1)] for a, b in v.items()]]
    if isinstance(v, (set, frozenset)):
        return ["set", len(v)]
    if isinstance(v, (list, tuple)):
        return ["list" if isinstance(v, list) else "tuple", [canon(x, depth + 1) for x in v]]
    return ["other", type(v).__name__]


spec = importlib.util.spec_from_file_location("snip", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
out = {}
for n in [x for x in dir(m) if x.startswith("t_")]:
    try:
        out[n] = canon(getattr(m, n)())
    except Exception as e:
        out[n] = ["raise", type(e).__name__, str(e)[:100]]
print(json.dumps(out))
