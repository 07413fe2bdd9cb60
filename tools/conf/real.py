"""Runs the programs on the real interpreter and libraries."""
import importlib.util, json, sys, warnings
import numpy as np
warnings.simplefilter("ignore")


def up(v):
    if isinstance(v, dict):
        return np.array(v["data"], dtype=v["dtype"]).reshape(v["shape"])
    if isinstance(v, list):
        return [up(x) for x in v]
    return v


def down(v):
    if isinstance(v, np.ndarray):
        return {"shape": list(v.shape), "data": [down(x) for x in v.ravel().tolist()], "dtype": str(v.dtype)}
    if isinstance(v, np.generic):
        return down(v.item())
    if isinstance(v, (list, tuple, range)):
        return [down(x) for x in v]
    if isinstance(v, dict):
        return {"dict": [[down(k), down(x)] for k, x in v.items()]}
    if isinstance(v, float) and (v != v or v in (float("inf"), -float("inf"))):
        return float("nan")
    return v


inp, out = sys.argv[1:3]
d = json.load(open(inp))
sp = importlib.util.spec_from_file_location("snip", d["path"])
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
res = {}
for n, cs in d["cases"].items():
    res[n] = []
    for c in cs:
        a = up(c)
        try:
            v = getattr(m, n)(*a)
            res[n].append({"value": down(v), "args": down(a)})
        except Exception as ex:
            res[n].append({"exc": type(ex).__name__, "msg": str(ex)})
json.dump(res, open(out, "w"))
