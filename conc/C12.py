import importlib
import numpy as np
from common import *
FILES = ["fastvpinns/physics/"]
LOSSES = [("poisson", "poisson2d", "pde_loss_poisson", None), ("helmholtz", "helmholtz2d", "pde_loss_helmholtz", None), ("cd", "cd2d", "pde_loss_cd2d", None),
          ("poisson", "poisson2d_inverse", "pde_loss_poisson_inverse", "inverse_params_dict"), ("cd", "cd2d_inverse", "pde_loss_cd2d", "inverse_params_dict"),
          ("cd", "cd2d_inverse_domain", "pde_loss_cd2d_inverse_domain", "inverse_params_list")]
KW = ["test_shape_val_mat", "test_grad_x_mat", "test_grad_y_mat", "pred_nn", "pred_grad_x_nn", "pred_grad_y_nn", "forcing_function", "bilinear_params"]


def cases(ctx):
    S = ctx.hints.sizes(1, 80, [1, 2, 3, 5, 9])
    vals = ["normal", "large-forcing", "zero-u", "negative", "big-params", "small"]
    mags = [1.] * 8 + ctx.hints.mags(1e-6, 1e8, [1e-6, 1e4, 1e8])
    fl = [v for v in ctx.hints.floats if 0 < abs(v) < 1e8]
    for rep in range(60 if ctx.deep else 3):
        for i in range(len(LOSSES)):
            for v in vals:
                yield {"loss": i, "C": ctx.rng.choice(S), "T": ctx.rng.choice(S), "Q": ctx.rng.choice(S), "vals": v, "scale": ctx.rng.choice(fl or [1.0]), "mag": ctx.rng.choice(mags),
                       "dtype": ctx.rng.choice(["float32", "float64"]), "seed": ctx.s()}


def run_case(c):
    import tensorflow as tf
    kind, mod, fn, inv = LOSSES[c["loss"]]
    f = getattr(importlib.import_module("fastvpinns.physics." + mod), fn)
    r = np.random.RandomState(c["seed"])
    C, N, Q = c["C"], c["T"], c["Q"]
    V, Gx, Gy = r.randn(C, N, Q), r.randn(C, N, Q), r.randn(C, N, Q)
    u, ux, uy, F, field = r.randn(C, Q), r.randn(C, Q), r.randn(C, Q), r.randn(N, C), r.randn(C, Q)
    p = {"eps": r.uniform(-2, 2), "k": r.uniform(-3, 3), "b_x": r.uniform(-2, 2), "b_y": r.uniform(-2, 2), "c": r.uniform(-2, 2)}
    ieps = r.uniform(-2, 2)
    v = c["vals"]
    if v == "large-forcing":
        F = F * 100 * c["scale"]
    elif v == "zero-u":
        u, ux, uy = u * 0, ux * (r.rand() < .5), uy * 0
    elif v == "negative":
        ieps, p = -abs(ieps), {k: -abs(x) for k, x in p.items()}
        field = -np.abs(field)
    elif v == "big-params":
        p = {k: x * 50 for k, x in p.items()}
        ieps *= 20
    elif v == "small":
        p = {k: x * 1e-4 for k, x in p.items()}
        ieps *= 1e-4
        field *= 1e-4
    g = c.get("mag", 1.)
    u, ux, uy, F = u * g, ux * g, uy * g, F * g
    dt = c["dtype"]
    T = lambda a: tf.constant(a, dtype=dt)
    R = lambda a: np.asarray(T(a).numpy(), dtype=np.float64)
    kw = dict(zip(KW, [T(V), T(Gx), T(Gy), T(u), T(ux), T(uy), T(F), {k: T(x) for k, x in p.items()}]))
    if inv == "inverse_params_dict":
        kw[inv] = {"eps": tf.Variable(ieps, dtype=dt)}
    elif inv == "inverse_params_list":
        kw[inv] = [T(field)]
    V, Gx, Gy, u, ux, uy, F, field = map(R, (V, Gx, Gy, u, ux, uy, F, field))
    p = {k: float(R(x)) for k, x in p.items()}
    ieps = float(R(ieps))
    res = np.zeros((N, C))
    for cell in range(C):
        e = field[cell] if inv == "inverse_params_list" else np.full(Q, ieps if inv else p["eps"])
        diff = Gx[cell] @ (e * ux[cell]) + Gy[cell] @ (e * uy[cell])
        if kind == "poisson":
            w = diff
        elif kind == "helmholtz":
            w = -diff + p["k"] ** 2 * (V[cell] @ u[cell])
        else:
            w = diff + p["b_x"] * (V[cell] @ ux[cell]) + p["b_y"] * (V[cell] @ uy[cell]) + p["c"] * (V[cell] @ u[cell])
        res[:, cell] = w - F[:, cell]
    ref = (res ** 2).mean(axis=0)
    tol = 1e-9 if dt == "float64" else 3e-4
    for _ in range(2):
        out = f(**kw)
        need(out.dtype.name == dt, f"loss dtype {out.dtype.name}")
        close(out.numpy(), ref, f"{mod}.{fn}", tol, tol * 1e-3, scale=np.abs(ref).max())
