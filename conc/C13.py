import numpy as np
from common import *
FILES = ["fastvpinns/model/"]


def cases(ctx):
    Cs = ctx.hints.sizes(1, 40, [1, 2, 3, 6])
    first = True
    for rep in range(30 if ctx.deep else 2):
        for kind in ("plain", "hard", "inverse", "domain"):
            C, Q, T = ctx.rng.choice(Cs), ctx.rng.choice([4, 9, 5]), ctx.rng.choice([1, 4, 9])
            if first and kind == "plain":
                C, Q, T = 3, 4, 4
            L = ctx.rng.choice([[4], [3, 5], [6, 4, 3]])
            yield {"kind": kind, "C": C, "Q": Q, "T": T, "nd": ctx.rng.choice([1, 3, 8]), "ns": ctx.rng.choice([1, 4, 7]), "dims": [2] + L + [2 if kind == "domain" else 1],
                   "betas": ctx.rng.choice([[10, 10, 2], [1.5, 0, 10], [3, 10]]), "dtype": ctx.rng.choice(["float64", "float64", "float32"]), "act": ctx.rng.choice(["tanh", "sigmoid", "swish"]), "seed": ctx.s()}
        if rep == 0:
            mags = ctx.hints.mags(1e-6, 1e7, [1e-6, 1e-3, 1e3, 1e5])
            mags = mags if ctx.deep else ctx.rng.sample(mags, min(len(mags), 7)) + [1e5]
            for k, g in enumerate(mags):
                kind = ("plain", "hard", "inverse", "domain")[k % 4] if not ctx.deep else ctx.rng.choice(("plain", "hard", "inverse", "domain"))
                yield {"kind": kind, "C": 2, "Q": 4, "T": 3, "nd": 3, "ns": 2, "dims": [2, 3, 2 if kind == "domain" else 1], "betas": [10, g] if k % 2 else [1e-3, g], "field": ctx.rng.choice([1., -1.]) * g, "dtype": "float64", "act": "tanh", "mag": g if k % 3 else 1., "seed": ctx.s()}
        if rep == 0 or ctx.deep:
            for kind in ("plain", "hard", "inverse", "domain"):
                # many steps, negative penalties and parameters
                yield {"kind": kind, "C": 2, "Q": 4, "T": 2, "nd": 2, "ns": 2, "dims": [2, 3, 2 if kind == "domain" else 1], "betas": [-3, 10, 0, 1, 2.5, 10, 10, 4, 10, 7, 10, 1], "eps": -.7, "dtype": "float64", "act": "tanh", "seed": ctx.s()}
            for kind in ("plain", "hard", "inverse", "domain"):
                # test functions of tiny cells and no boundary penalty: all gradients are tiny
                yield {"kind": kind, "C": 2, "Q": 4, "T": 3, "nd": 3, "ns": 2, "dims": [2, 3, 2 if kind == "domain" else 1], "betas": [0, 0] if kind in ("plain", "hard") else [10, 0], "dtype": "float64", "act": "tanh",
                       "vmag": ctx.rng.choice([1e-2, 1e-4, 1e-6]), "seed": ctx.s()}
        first = False


def run_case(c):
    import tensorflow as tf
    import model_util as M
    tf.random.set_seed(c["seed"] % 10**6)
    rng = np.random.RandomState(c["seed"])
    dt = getattr(tf, c["dtype"])
    d = M.Data(rng, c["C"], c["Q"], c["T"], c["nd"], c["ns"], dt)
    g = c.get("mag", 1.)
    d.F, d.DY, d.SY = d.F * g, d.DY * g, d.SY * g  # small and large data
    if "vmag" in c:
        d.V, d.GX, d.GY, d.F = [v * c["vmag"] for v in (d.V, d.GX, d.GY, d.F)]
    lossf = M.loss(c["kind"])
    user_inv = {"eps": tf.constant(c.get("eps", .7), dtype=dt)}
    m = M.build(c["kind"], d, c["dims"], dt, c["act"], inv=user_inv)
    m.compile(optimizer=tf.keras.optimizers.SGD(learning_rate=2.**-7))
    W = M.weights(m)
    for K, b in W:
        b.assign(tf.constant(rng.uniform(-.5, .5, b.shape), dtype=dt))
    if c["kind"] == "domain" and "field" in c:
        W[-1][1].assign_add(tf.constant([0., c["field"]], dtype=dt))  # the predicted coefficient field
    inv = dict(m.inverse_params_dict) if c["kind"] == "inverse" else {}
    if inv:
        need(list(inv) == ["eps"] and isinstance(inv["eps"], tf.Variable), "the inverse parameter is not a variable")
        need(abs(float(inv["eps"]) - c.get("eps", .7)) < 1e-6, "initial inverse parameter")
    rt = 1e-9 if c["dtype"] == "float64" else 2e-4
    params = dict(d.params)
    for k, beta in enumerate(c["betas"]):
        ref, vs, grads = M.step(c["kind"], d, W, inv, params, beta, c["act"], lossf)
        before = [v.numpy().astype(float) for v in vs]
        if k and beta == 10:
            got = m.train_step(bilinear_params_dict=dict(params))  # beta is 10 unless given
        else:
            got = m.train_step(beta=beta, bilinear_params_dict=dict(params))
        for key, v in ref.items():
            need(key in got, f"{key} is not reported")
            close(np.asarray(got[key], dtype=float).reshape(-1), np.asarray(v, dtype=float).reshape(-1), f"step {k}: {key}", rt, rt)
        for i, (v, b, g) in enumerate(zip(vs, before, grads)):
            g = np.zeros_like(b) if g is None else g.numpy().astype(float)
            if "vmag" in c:
                close(b - v.numpy().astype(float), 2.**-7 * g, f"step {k}: update of variable {i} of {len(vs)} ({v.name})", 1e-6, 1e-15 + 1e-6 * 2.**-7 * np.abs(g).max())
            close(b - v.numpy().astype(float), 2.**-7 * g, f"step {k}: update of variable {i} of {len(vs)} ({v.name})", rt, rt * (1 + 0.01 * np.abs(g).max()) if c["dtype"] == "float64" else 1e-6 + 1e-3 * 2.**-7 * np.abs(g).max())
        if k == 0:
            params = {n: v * 1.25 for n, v in params.items()}
    need(len(m.trainable_variables) >= len(W) * 2, "trainable variables")
