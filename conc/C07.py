import numpy as np
from common import *
import fem_oracle as O
from space_util import *
FILES = ["fastvpinns/FE/fespace"]
ACC = {"get_shape_function_val": "value", "get_shape_function_grad_x": "gradx", "get_shape_function_grad_y": "grady", "get_shape_function_grad_x_ref": "gradx_ref",
       "get_shape_function_grad_y_ref": "grady_ref", "get_quadrature_actual_coordinates": "points", "get_quadrature_weights": "mult"}


def cases(ctx):
    ns, Qs, Cs = ctx.hints.sizes(2, 7, [2, 3, 4]), ctx.hints.sizes(3, 12, [3, 4, 5]), ctx.hints.sizes(1, 40, [1, 2, 3, 5, 8])
    for N in ctx.hints.sizes(30, 300, [66, 260]):
        yield {"fam": "legendre", "n": 2, "Q": 3, "N": N, "qt": "gauss-legendre", "tr": "bilinear", "shape": "mixed", "plot": True, "dup": 0, "seed": ctx.s()}
    for rep in range(60 if ctx.deep else 2):
        for N in Cs:
            for tr in O.TRANS:
                yield {"fam": ctx.rng.choice(O.FAMILIES), "n": ctx.rng.choice(ns), "Q": ctx.rng.choice(Qs), "N": N, "qt": ctx.rng.choice(O.QTYPES), "tr": tr,
                       "shape": ctx.rng.choice(["rectangle", "mixed", "quad", "mixed"]), "plot": bool(rep % 2 == 1 and N < 6), "dup": ctx.rng.random() < .3, "seed": ctx.s()}


def run_case(c):
    rng = np.random.RandomState(c["seed"])
    cells = grid_cells(rng, c["shape"], c["N"])
    if c["dup"] and c["N"] > 2:
        cells[-1] = cells[0]  # two equal cells share nothing
        if c["seed"] % 2:
            cells[-1] = cells[0] * (1 + 1e-5)  # nor do two that are nearly equal
    f = sources(rng)["wave"]
    kw = {}
    if c["plot"]:
        import tempfile
        kw = {"generate_mesh_plot": True, "output_path": tempfile.mkdtemp()}
    sp = space(cells.copy(), c["fam"], c["n"], c["Q"], c["qt"], c["tr"], f, **kw)
    if c["plot"]:
        import shutil
        shutil.rmtree(kw["output_path"], ignore_errors=True)
    N, Q = c["N"], c["Q"]
    need(int(sp.total_dofs) == N * Q * Q, f"total_dofs {sp.total_dofs} for {N} cells of {Q * Q} points")
    need(int(sp.n_cells) == N, "n_cells")
    R = {}

    def ref(i):
        if i not in R:
            R[i] = O.cell(c["fam"], c["n"], Q, c["qt"], c["tr"], cells[i])
        return R[i]
    names = list(ACC) + ["get_forcing_function_values"]
    kept = []
    rt = 1e-6 if c["dup"] == 0 else 1e-8
    for step in range(min(6 * len(names), 60)):
        m, i = names[rng.randint(len(names))], int(rng.randint(N))
        if step < len(names):
            m, i = names[step], [0, N - 1][step % 2]
        got = getattr(sp, m)(i)
        if m in ACC:
            r = ref(i)[ACC[m]]
            double(got, m)
            close(got, r, f"{m}({i}) after {step} calls", rt, rt * (np.abs(r).max() + 1e-300))
        else:
            r = (ref(i)["value"] * f(*ref(i)["points"].T)).sum(axis=1, keepdims=True)
            close(got, r, f"{m}({i}) after {step} calls", rt, rt * (np.abs(ref(i)["value"]).sum(axis=1).max() + 1e-300))
        for a, b in kept:
            same(a, b, f"an array returned earlier was changed by {m}({i})")
        if rng.rand() < .7:
            got[...] = rng.uniform(-9, 9)
        else:
            kept.append((got, got.copy()))
    # untouched arrays: the same call gives bit-identical data
    for m in names:
        a = getattr(sp, m)(N - 1).copy()
        same(getattr(sp, m)(N - 1), a, f"{m} repeated")
        for bad in (-1, N, N + 3, -N - 2):
            raises(ValueError, lambda: getattr(sp, m)(bad), f"{m}({bad}) of {N} cells")
    for bad in (-1, N, N + 1):
        raises(ValueError, lambda: sp.get_forcing_function_values_vector(bad, 0), f"get_forcing_function_values_vector({bad}) of {N} cells")
