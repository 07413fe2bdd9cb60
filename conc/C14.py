import numpy as np
from common import *
FILES = ["fastvpinns/model/"]
BAD = {"string": "float32", "none": None, "numpy": np.float64, "int": 32, "npdtype": np.dtype("float32"), "tfname": "tf.float64"}


def cases(ctx):
    kinds = ("plain", "hard", "inverse", "domain")
    for kind in kinds:
        for b in BAD:
            yield {"kind": kind, "bad": b, "dims": [2, 3, 1], "dtype": "float32", "act": "tanh", "seed": 1}
    acts = ["tanh", "sigmoid", "relu", "swish", "linear", "softplus", "elu", "sin", "default"]
    wide = ctx.hints.sizes(1, 60, [1, 2, 5, 30])
    deep_nets = ctx.hints.sizes(5, 14, [9, 12])
    rates, lrs = ctx.hints.mags(.01, 1.5, [.05, .5, .99, 1., 1.1]), ctx.hints.mags(1e-7, 20., [1e-6, 1e-3, .02, .5, 10.])
    steps = ctx.hints.sizes(1, 10**6, [1, 10, 1000, 250000])
    sizes = ctx.hints.mags(1e-6, 1e6, [1e-4, 30., 1e3, 1e5])
    for k in range(max(len(rates), len(lrs), len(steps))):
        for kind in kinds:
            yield {"kind": kind, "dims": [2, 2, 2 if kind == "domain" else 1], "dtype": "float32", "act": "default" if k == 0 else "tanh", "hc": "none", "lr": lrs[k % len(lrs)], "sched": k % 4 != 3, "steps": steps[k % len(steps)],
                   "rate": rates[k % len(rates)], "stair": None if k % 5 == 2 and kind in ("plain", "domain") else k % 3 == 0, "extra": False, "seed": ctx.s()}
    for n in deep_nets:
        for kind in kinds:
            yield {"kind": kind, "dims": [2] + [ctx.rng.choice([1, 2, 4]) for _ in range(n)] + [2 if kind == "domain" else 1], "dtype": "float64", "act": "tanh", "hc": "none", "lr": .01,
                   "sched": False, "steps": 1, "rate": 1., "stair": False, "extra": False, "seed": ctx.s()}
    for rep in range(60 if ctx.deep else 5):
        for kind in kinds:
            n = ctx.rng.choice([0, 1, 2, 3, 4, 7])
            yield {"kind": kind, "dims": [ctx.rng.choice([2, 2, 3, 1]) if kind != "hard" else 2] + [ctx.rng.choice(wide) for _ in range(n)] + [ctx.rng.choice([1, 2, 3]) if kind != "domain" else 2],
                   "dtype": ctx.rng.choice(["float32", "float64"]), "act": ctx.rng.choice(acts), "hc": ctx.rng.choice(["none", "fun", "fun"]), "lr": ctx.rng.choice(lrs),
                   "sched": ctx.rng.random() < .6, "steps": ctx.rng.choice(steps), "rate": ctx.rng.choice(rates), "stair": ctx.rng.random() < .5, "extra": ctx.rng.random() < .3, "last": ctx.rng.choice([1., 1., 1e-6, 1e5, 1e9]), "size": ctx.rng.choice(sizes), "seed": ctx.s()}


def glorot(k, fans):
    """A sample of the uniform distribution on [-limit, limit]: every test below fails with probability < 1e-7 on such a sample."""
    lim, n = (6. / fans) ** .5, k.size
    need(np.abs(k).max() <= lim * (1 + 1e-6), f"initial kernel value {np.abs(k).max()} outside [-{lim}, {lim}]")
    if n >= 2:
        need(len(np.unique(k)) > 1, "initial kernel constant")
    if n >= 40:
        need(np.abs(k).max() >= .5 * lim, f"initial kernel within {np.abs(k).max() / lim} of the limit")
        need(abs(k.mean()) <= 6 * lim / (3 * n) ** .5, f"initial kernel with mean {k.mean()}")


def run_case(c):
    import tensorflow as tf
    import model_util as M
    rng = np.random.RandomState(c["seed"])
    dt = getattr(tf, c["dtype"])
    d = M.Data(rng, 2, 4, 3, 3, 2, dt)
    if "bad" in c:
        return raises(TypeError, lambda: M.build(c["kind"], d, c["dims"], BAD[c["bad"]]), f"dtype {c['bad']}")
    hc = M.constraint if c["hc"] == "fun" else None
    lr = M.lr_dict(c["lr"], c["sched"], c["steps"], c["rate"], c["stair"])
    kw = {"layer_dims": list(c["dims"])}
    if c["seed"] % 2:
        M.build(c["kind"], d, c["dims"], dt, "tanh", lr=lr, hc=hc, **kw)  # a user builds several models from one configuration
    m = M.build(c["kind"], d, c["dims"], dt, c["act"] if c["act"] != "sin" else tf.sin, lr=lr, hc=hc, **kw)
    W = M.weights(m)
    dims = c["dims"]
    need([tuple(K.shape) for K, _ in W] == list(zip(dims[:-1], dims[1:])), f"layer shapes {[tuple(K.shape) for K, _ in W]} for layer_dims {dims}")
    need([tuple(b.shape) for _, b in W] == [(n,) for n in dims[1:]], "bias shapes")
    for K, b in W:
        need(K.dtype == dt and b.dtype == dt, f"variable dtype {K.dtype}")
        need((b.numpy() == 0).all(), f"initial biases {b.numpy()[:4]}")
        glorot(K.numpy().astype(float).reshape(-1), sum(K.shape))
        b.assign(tf.constant(rng.uniform(-1, 1, b.shape), dtype=dt))
        K.assign(tf.constant(rng.uniform(-1, 1, K.shape), dtype=dt))
    # predictions of any magnitude: the last layer is linear
    for v in W[-1]:
        v.assign(v * tf.constant(c.get("last", 1.), dtype=dt))
    for n, size in ((1, 1.), (5, 1.), (3, c.get("size", 1.))):
        x = tf.constant(rng.uniform(-1, 1, (n, dims[0])) * size, dtype=dt)
        if c["kind"] == "hard" and hc is not None and dims[0] < 2:
            continue
        y = m(x)
        need(y.dtype == dt, f"prediction dtype {y.dtype}")
        ref = M.net(c["kind"], W, x, c["act"], hc)
        need(tuple(y.shape) == tuple(ref.shape), f"prediction shape {y.shape}")
        s = np.abs(ref.numpy()).max() + 1
        if not np.isfinite(s):
            continue
        if size > 1:
            s = s * size
        close(y.numpy(), ref.numpy(), "prediction", 0, (1e-11 if c["dtype"] == "float64" else 2e-5) * s * 10)
    opt = m.optimizer
    need(isinstance(opt, tf.keras.optimizers.Adam), f"optimizer {type(opt).__name__}")
    for k in ("clipnorm", "clipvalue", "global_clipnorm", "weight_decay"):
        need(not getattr(opt, k, None), f"the optimizer has {k}={getattr(opt, k, None)}")
    for k, v in {"beta_1": .9, "beta_2": .999, "epsilon": 1e-7, "amsgrad": False, "use_ema": False}.items():
        need(getattr(opt, k, v) == v, f"the optimizer has {k}={getattr(opt, k, v)}")
    rate = getattr(opt, "_learning_rate", None)
    if not callable(rate):
        rate = opt.learning_rate
    if c["sched"]:
        need(isinstance(rate, tf.keras.optimizers.schedules.LearningRateSchedule), "no learning rate schedule")
    else:
        need(not isinstance(rate, tf.keras.optimizers.schedules.LearningRateSchedule), "unexpected learning rate schedule")
    for k in sorted({0, 1, 3, 10, 25, 999, 1000, 2500, c["steps"] - 1, c["steps"], c["steps"] + 1, 2 * c["steps"]}):
        v = float(rate(k)) if c["sched"] else float(np.asarray(rate))
        p = k / c["steps"]
        want = c["lr"] * c["rate"] ** (np.floor(p) if c["stair"] in (True, None) else p) if c["sched"] else c["lr"]
        if np.isfinite(want) and want < 1e30:
            close(v, want, f"learning rate at step {k}", 1e-3, 1e-30)
