import numpy as np
from common import *
import fem_oracle as O
from space_util import *
FILES = ["fastvpinns/FE/fespace"]


def cases(ctx):
    ns, Qs, Cs = ctx.hints.sizes(2, 8, [2, 3, 5]), ctx.hints.sizes(3, 16, [3, 4, 7]), ctx.hints.sizes(1, 40, [1, 2, 3, 5])
    for Q in ctx.hints.roots(17, 90):
        yield {"src": "wave", "fam": "legendre", "n": 2, "Q": Q, "N": 1, "qt": "gauss-legendre", "tr": "bilinear", "shape": "quad", "comps": 2, "scale": 1, "seed": ctx.s()}
    for rep in range(40 if ctx.deep else 1):
        for src in ("wave", "poly", "constant", "zero", "large", "x", "y", "tiny", "integer", "step"):
            for qt in O.QTYPES:
                for tr in O.TRANS:
                    yield {"src": src, "fam": ctx.rng.choice(O.FAMILIES), "n": ctx.rng.choice(ns), "Q": ctx.rng.choice(Qs), "N": ctx.rng.choice(Cs), "qt": qt, "tr": tr,
                           "shape": ctx.rng.choice(["rectangle", "mixed", "quad", "mixed"]), "comps": ctx.rng.choice([1, 2, 3, 3, 5, 7]), "scale": ctx.rng.choice([1, 1, 1, 1e-4, 1e-7, 1e3]), "seed": ctx.s()}


def run_case(c):
    rng = np.random.RandomState(c["seed"])
    cells = grid_cells(rng, c["shape"], c["N"]) * c.get("scale", 1)
    S = sources(rng)
    f = S[c["src"]]
    fs = [f, S["poly"], S["y"], S["wave"], S["x"], S["large"], S["step"]]
    fs = fs[:c.get("comps", 3)]
    if c["seed"] % 3 == 0:
        fs[-1 if len(fs) > 1 else 0] = (lambda x, y: 0) if c["seed"] % 2 else (lambda x, y: -1.25)  # one component is a plain number
    vf = lambda x, y: tuple(g(x, y) for g in fs)
    sp = space(cells, c["fam"], c["n"], c["Q"], c["qt"], c["tr"], f)
    sv = space(cells, c["fam"], c["n"], c["Q"], c["qt"], c["tr"], vf)
    comps = fs
    # a source that serves both accessors: either accessor may precede the other on the same cell
    mode = {"vec": False}
    sb = space(cells, c["fam"], c["n"], c["Q"], c["qt"], c["tr"], lambda x, y: vf(x, y) if mode["vec"] else f(x, y))
    order = [int(i) for i in rng.permutation(c["N"])[:4]]
    for i in order + order[:1]:
        V = sp.get_shape_function_val(i)
        X = sp.get_quadrature_actual_coordinates(i)
        for k, g in [(None, f)] + list(enumerate(comps)):
            src = np.array([float(g(x, y)) for x, y in X])
            ref = (V * src).sum(axis=1, keepdims=True)
            got = sp.get_forcing_function_values(i) if k is None else sv.get_forcing_function_values_vector(i, k)
            sc = (np.abs(V) * np.abs(src)).sum(axis=1).max() + 1e-300
            mode["vec"] = k is not None
            both = sb.get_forcing_function_values(i) if k is None else sb.get_forcing_function_values_vector(i, k)
            close(both, ref, f"forcing of cell {i}" + ("" if k is None else f", component {k}") + ", after calls of the other accessor", 1e-9, 1e-11 * sc)
            double(got, "forcing")
            close(got, ref, f"forcing of cell {i}" + ("" if k is None else f", component {k}"), 1e-9, 1e-11 * sc)
