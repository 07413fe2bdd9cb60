"""Runtime contract of C19: the objective is compared with the same experiment set up directly through the library, from the parameters the trial
suggested; the tuner is run with a recording study.  optuna and the user's example module (sin_cos) are stand-ins defined here."""
import contextlib
import os
import sys
import tempfile
import types
import numpy as np
from common import *
FILES = ["fastvpinns/hyperparameter_tuning"]
NAMES = ["n_cells_x", "n_cells_y", "n_boundary_points", "fe_order", "fe_type", "quad_order", "quad_type", "n_layers", "initial_learning_rate",
         "decay_steps", "decay_rate"]


def cases(ctx):
    t = lambda g, n, j, e: {"kind": "tuner", "gpus": g, "trials": n, "jobs": j, "epochs": e, "seed": ctx.s()}
    yield t(0, 4, -1, 7)
    yield t(3, 7, 2, 11)
    small = dict(n_cells_x=.1, n_cells_y=.15, n_boundary_points=.05, n_layers=.3, fe_order=.2, quad_order=.2)
    yield {"kind": "objective", "at": dict(small, initial_learning_rate=.9), "epochs": 4, "seed": ctx.s()}
    yield {"kind": "objective", "at": dict(small, n_layers=0, decay_steps=0, decay_rate=0, initial_learning_rate=1.), "epochs": 1003, "seed": ctx.s()}
    yield {"kind": "objective", "at": {k: 1. for k in NAMES + [f"layer_{i}" for i in range(5)]}, "epochs": 1, "seed": ctx.s()}
    yield {"kind": "objective", "at": {k: 0. for k in NAMES + ["layer_0"]}, "epochs": 2, "seed": ctx.s()}
    for e in ctx.hints.sizes(200, 20000, [1003, 5001, 10001]):
        yield {"kind": "objective", "stub": True, "at": small, "epochs": e, "seed": ctx.s()}
    for g, n, j in ((1, 3, 1), (2, 5, -1), (0, 3, 4), (4, 3, 9)):
        yield t(g, n, j, 3 + g)
    yield {"kind": "objective", "at": {}, "epochs": 0, "seed": ctx.s()}
    for rep in range(60 if ctx.deep else 2):
        yield {"kind": "objective", "at": {}, "epochs": ctx.rng.choice([1, 2, 3, 6]), "seed": ctx.s()}
        yield t(ctx.rng.randrange(5), ctx.rng.randrange(1, 9), ctx.rng.choice([-1, 1, 2, 5]), ctx.rng.randrange(1, 50))


class Trial:
    """A trial: suggestion `name` is the point at the given fraction of its range (a random one unless fixed by the case)."""

    def __init__(self, at, seed, number=0):
        self.at, self.r, self.number, self.params, self.value = at, np.random.RandomState(seed), number, {}, None

    def frac(self, name):
        return self.at.get(name, self.r.rand())

    def put(self, name, v):
        if name in self.params:
            need(self.params[name] == v, f"{name} suggested twice with different results")
        self.params[name] = v
        return v

    def suggest_int(self, name, low, high, step=1, log=False):
        return self.params[name] if name in self.params else self.put(name, int(low + step * round(self.frac(name) * ((high - low) // step))))

    def suggest_float(self, name, low, high, *, step=None, log=False):
        if name in self.params:
            return self.params[name]
        f = self.frac(name)
        return self.put(name, float(low * (high / low) ** f if log else low + f * (high - low)))

    def suggest_loguniform(self, name, low, high):
        return self.suggest_float(name, low, high, log=True)

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    def suggest_categorical(self, name, choices):
        return self.params[name] if name in self.params else self.put(name, list(choices)[min(int(self.frac(name) * len(choices)), len(choices) - 1)])


class Study:
    def __init__(self, direction, seed):
        self.direction, self.seed, self.trials = direction, seed, []

    def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, **kw):
        need(n_jobs == -1 or n_jobs >= 1, f"the study is run with n_jobs={n_jobs}")
        for k in range(n_trials):
            t = Trial({}, self.seed + k, k)
            t.value = func(t)
            self.trials.append(t)

    @property
    def best_trial(self):
        return (min if self.direction == "minimize" else max)(self.trials, key=lambda t: t.value)

    best_params = property(lambda self: dict(self.best_trial.params))
    best_value = property(lambda self: self.best_trial.value)


def problem(seed):
    """The user's example module."""
    r = np.random.RandomState(seed + 1)
    a, b, c, d = r.uniform(.5, 2., 4)
    m = types.ModuleType("sin_cos")
    edge = lambda v: lambda x, y: v + np.sin(x * a) * np.cos(y * b)
    m.rhs = lambda x, y: c + x * a - np.cos(3 * y * b)
    m.exact_solution = lambda x, y: np.cos(a * x + b * y) + d * x
    m.get_boundary_function_dict = lambda: {1000: edge(.1), 1001: edge(.4), 1002: edge(-.3), 1003: edge(.8)}
    m.get_bound_cond_dict = lambda: {k: "dirichlet" for k in (1000, 1001, 1002, 1003)}
    m.get_bilinear_params_dict = lambda: {"eps": float(c)}
    return m


def modules(seed, study=None):
    for k in [k for k in sys.modules if k.startswith("fastvpinns.hyperparameter_tuning")]:
        del sys.modules[k]
    o = types.ModuleType("optuna")
    o.create_study = lambda **kw: study(kw)
    o.Trial, o.trial = Trial, types.SimpleNamespace(Trial=Trial)
    sys.modules["optuna"], sys.modules["sin_cos"] = o, problem(seed)
    import importlib
    return importlib.import_module("fastvpinns.hyperparameter_tuning.objective")


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)


@contextlib.contextmanager
def steps(stub):
    """With stub, the training step only moves the bias of the output layer and reports losses going to zero, so that many epochs are affordable."""
    if not stub:
        yield
        return
    import tensorflow as tf
    from fastvpinns.model.model import DenseModel

    @tf.function
    def move(b, n, rate):
        b.assign_add(tf.fill(tf.shape(b), 1e-4 + .3 * tf.cast(rate, tf.float32)))
        n.assign_add(1.)
        return tf.exp(-.05 * n)

    def train_step(self, beta=10, bilinear_params_dict=None):
        dense = [l for l in self.layers if isinstance(l, tf.keras.layers.Dense)]
        if not hasattr(self, "steps_done"):
            self.steps_done = tf.Variable(0., trainable=False)
        # the learning rate of a later step, so that the whole schedule takes part
        rate = getattr(self.optimizer, "_learning_rate", self.optimizer.learning_rate)
        v = move(dense[-1].bias, self.steps_done, rate(97. * self.steps_done) if callable(rate) else tf.convert_to_tensor(rate))
        return {"loss_pde": v, "loss_dirichlet": v, "loss": v}
    old = DenseModel.train_step
    DenseModel.train_step = train_step
    try:
        yield
    finally:
        DenseModel.train_step = old


def direct(p, epochs, u):
    """The experiment the parameters p describe."""
    import tensorflow as tf
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.data.datahandler2d import DataHandler2D
    from fastvpinns.model.model import DenseModel
    from fastvpinns.physics.poisson2d import pde_loss_poisson
    os.makedirs("ref", exist_ok=True)
    g = Geometry_2D("quadrilateral", "internal", 100, 100, "ref", is_optimized=True)
    cells, bd = g.generate_quad_mesh_internal(x_limits=[0, 1], y_limits=[0, 1], n_cells_x=p["n_cells_x"], n_cells_y=p["n_cells_y"],
                                              num_boundary_points=p["n_boundary_points"])
    s = Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=p["fe_order"], fe_type=p["fe_type"],
                  quad_order=p["quad_order"], quad_type=p["quad_type"], fe_transformation_type="bilinear", bound_function_dict=u.get_boundary_function_dict(),
                  bound_condition_dict=u.get_bound_cond_dict(), forcing_function=u.rhs, output_path="ref", generate_mesh_plot=False)
    h = DataHandler2D(s, g, dtype=tf.float32)
    di, do = h.get_dirichlet_input()
    bp = h.get_bilinear_params_dict_as_tensors(u.get_bilinear_params_dict)
    m = DenseModel(layer_dims=[2] + [p[f"layer_{i}"] for i in range(p["n_layers"])] + [1],
                   learning_rate_dict={"initial_learning_rate": p["initial_learning_rate"], "use_lr_scheduler": True, "decay_steps": p["decay_steps"],
                                       "decay_rate": p["decay_rate"]},
                   params_dict={"n_cells": s.n_cells}, loss_function=pde_loss_poisson, input_tensors_list=[h.x_pde_list, di, do],
                   orig_factor_matrices=[h.shape_val_mat_list, h.grad_x_mat_list, h.grad_y_mat_list], force_function_list=h.forcing_function_list,
                   tensor_dtype=tf.float32, use_attention=False, activation="tanh", hessian=False)
    for _ in range(epochs):
        m.train_step(beta=tf.constant(10., tf.float32), bilinear_params_dict=bp)
    t = g.get_test_points()
    e = np.asarray(u.exact_solution(t[:, 0], t[:, 1]), dtype=np.float64).reshape(-1)
    d = e - np.asarray(m(t), dtype=np.float64).reshape(-1)
    return float(np.sqrt(np.mean(d * d)) / np.sqrt(np.mean(e * e)))


def run_case(c):
    if c["kind"] == "tuner":
        return tuner(c)
    import tensorflow as tf
    with scratch(), steps(c.get("stub")):
        mod = modules(c["seed"])
        t = Trial(c["at"], c["seed"])
        at = dict(c["at"])
        for k in ("n_cells_x", "n_cells_y"):
            at.setdefault(k, np.random.RandomState(c["seed"]).rand())
        t = Trial(at, c["seed"])
        # an earlier trial with the same mesh size and other values
        first = Trial(dict(at, n_layers=0., layer_0=0., **{k: .5 if at.get(k, 1) < .3 else .05 for k in ("n_boundary_points", "fe_order", "quad_order")}), c["seed"] + 1)
        w = float(mod.objective(first, 1))
        need(np.isfinite(w) and w >= 0, f"objective value {w} for {first.params}")
        tf.keras.utils.set_random_seed(c["seed"])
        v = mod.objective(t, c["epochs"])
        p = t.params
        want = set(NAMES) | {f"layer_{i}" for i in range(p.get("n_layers", 0))}
        need(set(p) == want, f"suggested parameters {sorted(p)}, expected {sorted(want)}")
        tf.keras.utils.set_random_seed(c["seed"])
        w = direct(p, c["epochs"], sys.modules["sin_cos"])
        close(float(v), w, f"objective value for {p}", 2e-5, 1e-7)


def tuner(c):
    import importlib
    import tensorflow as tf
    studies, used, seen = [], [], []

    def study(kw):
        studies.append(Study(kw.get("direction", "minimize"), c["seed"]))
        return studies[-1]
    with scratch(), contextlib.ExitStack() as stack:
        mod = modules(c["seed"], study)

        def objective(trial, num_epochs):
            x, n = trial.suggest_float("x", -1, 1), trial.suggest_int("n", 1, 9)
            seen.append((trial.number, num_epochs, used[-1] if used else None))
            return (x - .2) ** 2 + n

        @contextlib.contextmanager
        def device(name):
            used.append(name)
            try:
                yield
            finally:
                used.pop()
        gpus = [types.SimpleNamespace(name=f"/physical_device:GPU:{i}", device_type="GPU") for i in range(c["gpus"])]
        old = tf.config.list_physical_devices, tf.device
        mod.objective = objective
        tm = importlib.import_module("fastvpinns.hyperparameter_tuning.optuna_tuner")
        if callable(getattr(tm, "objective", None)):
            tm.objective = objective
        try:
            tf.config.list_physical_devices = lambda device_type=None: list(gpus) if device_type == "GPU" else old[0](device_type)
            tf.device = device
            best = tm.OptunaTuner(n_trials=c["trials"], study_name="s", n_jobs=c["jobs"], n_epochs=c["epochs"]).run()
        finally:
            tf.config.list_physical_devices, tf.device = old
    need(len(studies) == 1, f"{len(studies)} studies created")
    tr = studies[0].trials
    need([t.number for t in tr] == list(range(c["trials"])), f"{len(tr)} trials, expected {c['trials']}")
    need([s[0] for s in seen] == list(range(c["trials"])), "a trial does not evaluate the objective exactly once")
    for t in tr:
        close(t.value, (t.params["x"] - .2) ** 2 + t.params["n"], f"value of trial {t.number}", 1e-12, 1e-12)
    for number, epochs, dev in seen:
        need(epochs == c["epochs"], f"trial {number} trained for {epochs} epochs, expected {c['epochs']}")
        if gpus:
            need(dev is not None and str(dev).rsplit(":", 1)[-1] in [str(i) for i in range(len(gpus))], f"trial {number} ran on {dev}, there are {len(gpus)} GPUs")
    need(dict(best) == min(tr, key=lambda t: t.value).params, f"run() returned {best}, not the parameters of the trial with the smallest error")
