import os
import tempfile
import numpy as np
from common import *
import fem_oracle as O
from space_util import *
FILES = ["fastvpinns/data/"]
BAD = {"string": "float32", "none": None, "numpy": np.float64, "npdtype": np.dtype("float32"), "int": 32, "float": float, "list": [], "tfname": "tf.float64"}


def cases(ctx):
    sens = ctx.hints.sizes(1, 3000, [1, 2, 7, 30, 300])
    ns, Qs, Cs = [2, 3, 4], [3, 4, 5], ctx.hints.sizes(1, 300, [1, 2, 3, 4, 9, 16])
    for b in BAD:
        yield {"bad": b, "N": 1, "n": 2, "Q": 3, "fam": "legendre", "dtype": "float64", "seed": 1, "nt": [2, 2]}
    for rep in range(40 if ctx.deep else 2):
        for N in Cs:
            for dt in ("float32", "float64"):
                n, Q = ctx.rng.choice(ns), ctx.rng.choice(Qs)
                if ctx.rng.random() < .3:
                    n, Q = 3, 3  # square tables hide transpositions of shapes but not of entries
                if ctx.rng.random() < .3:
                    N = n * n
                yield {"N": N, "n": n, "Q": Q, "fam": ctx.rng.choice(O.FAMILIES), "dtype": dt, "seed": ctx.s(), "nt": [ctx.rng.randrange(2, 9), ctx.rng.randrange(2, 9)],
                       "bd": [ctx.rng.choice([1, 2, 5, 8]) for _ in range(ctx.rng.choice([1, 2, 4]))], "ns": ctx.rng.choice(sens)}


def run_case(c):
    import tensorflow as tf
    from fastvpinns.data.datahandler2d import DataHandler2D
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    rng = np.random.RandomState(c["seed"])
    N = c["N"]
    cells = grid_cells(rng, "mixed", N)
    tags = list(range(1000, 1000 + len(c.get("bd", []))))
    bpts = {t: rng.uniform(-1, 1, (m, 2)) for t, m in zip(tags, c.get("bd", []))}
    bfun = {t: (lambda x, y, t=t: np.sin(t * x) + y) for t in tags}
    f = sources(rng)["wave"]

    class Mesh:
        points = np.column_stack([rng.uniform(-2, 3, (20, 2)), np.zeros(20)])
    sp = space(cells, c["fam"], c["n"], c["Q"], "gauss-legendre", "bilinear", f, bpts, bfun, {t: "dirichlet" for t in tags}, Mesh())
    g = Geometry_2D("quadrilateral", "internal", c["nt"][0], c["nt"][1], ".")
    g.x_limits, g.y_limits = [-2., 3.], [0., 1.]
    other_geometry(True)
    if "bad" in c:
        raises(TypeError, lambda: DataHandler2D(sp, g, BAD[c["bad"]]), f"dtype {c['bad']}")
        return
    dt = getattr(tf, c["dtype"])
    h = DataHandler2D(sp, g, dt)
    so = space(cells[:1] + 50., "legendre", 2, 3, "gauss-legendre", "bilinear", lambda x, y: 77. + x, {1000: np.array([[5., 6.]])}, {1000: lambda x, y: 88. + 0 * x}, {1000: "dirichlet"}, Mesh())
    ho = DataHandler2D(so, g, tf.float64 if dt == tf.float32 else tf.float32)
    ho.get_dirichlet_input()
    ho.get_test_points()
    r, a = (1e-12, 1e-13) if c["dtype"] == "float64" else (1e-6, 1e-6)

    def cmp(t, ref, what):
        need(isinstance(t, (tf.Tensor, tf.Variable)) and t.dtype == dt, f"{what}: {type(t).__name__} of dtype {getattr(t, 'dtype', None)}")
        close(t.numpy(), ref, what, r, a * (1 + np.abs(np.asarray(ref, dtype=float)).max()))
    idx = range(N)
    for at, m in (("shape_val_mat_list", "get_shape_function_val"), ("grad_x_mat_list", "get_shape_function_grad_x"), ("grad_y_mat_list", "get_shape_function_grad_y")):
        cmp(getattr(h, at), np.array([getattr(sp, m)(i) for i in idx]), at)
    cmp(h.x_pde_list, np.concatenate([sp.get_quadrature_actual_coordinates(i) for i in idx]), "x_pde_list")
    cmp(h.forcing_function_list, np.concatenate([sp.get_forcing_function_values(i) for i in idx], axis=1), "forcing_function_list")
    if tags:
        X, Y = h.get_dirichlet_input()
        P = np.concatenate([bpts[t] for t in tags])
        cmp(X, P, "Dirichlet input")
        cmp(Y, np.concatenate([[bfun[t](x, y) for x, y in bpts[t]] for t in tags]).reshape(-1, 1), "Dirichlet values")
    t = h.get_test_points()
    cmp(t, g.get_test_points(), "test points")
    g.x_limits = [-1., 4.]
    cmp(h.get_test_points(), g.get_test_points(), "test points of the changed domain")
    h.get_sensor_data(lambda x, y: 0 * x + 50., c.get("ns", 3), "internal")
    exact = lambda x, y: np.cos(2 * x) * y + x
    X, Y = h.get_sensor_data(exact, c.get("ns", 3), "internal")
    need(X.shape == (c.get("ns", 3), 2) and Y.shape == (c.get("ns", 3), 1), f"sensor shapes {X.shape} {Y.shape}")
    need(X.dtype == dt and Y.dtype == dt, "sensor dtype")
    close(Y.numpy()[:, 0], exact(X.numpy()[:, 0].astype(float), X.numpy()[:, 1].astype(float)), "sensor values", 1e-5 if c["dtype"] == "float32" else 1e-10, 1e-5 if c["dtype"] == "float32" else 1e-10)
    rows = rng.uniform(-5, 5, (11, 3)).round(6)
    fd, name = tempfile.mkstemp(suffix=".csv", dir=".")
    with os.fdopen(fd, "w") as fh:
        fh.write("x,y,u\n" + "\n".join(",".join(repr(float(v)) for v in q) for q in rows) + "\n")
    try:
        X, Y = h.get_sensor_data(exact, c.get("ns", 3), "external", name)
    finally:
        os.unlink(name)
    need(X.shape == (c.get("ns", 3), 2) and Y.shape == (c.get("ns", 3), 1) and X.dtype == dt and Y.dtype == dt, f"file sensor shapes {X.shape} {Y.shape}")
    got = np.concatenate([X.numpy(), Y.numpy()], axis=1).astype(float)
    for q in got:
        need(np.abs(rows - q).max(axis=1).min() < (1e-5 if c["dtype"] == "float32" else 1e-9), f"sensor row {q} is not a row of the file")
    for m in (h.get_bilinear_params_dict_as_tensors, h.get_inverse_params):
        d = m(lambda: {"other": 4.5, "eps": 9.})
        need(list(d) == ["other", "eps"], f"parameter names {list(d)}")
        cmp(d["eps"], np.array(9.), "parameter eps")
    P = {"eps": 0.3, "b_x": -1.25, "b_y": 2, "c": 0.0, "k": 1e-3, "v": [1.5, -2., 0.25]}
    for m in (h.get_bilinear_params_dict_as_tensors, h.get_inverse_params):
        d = m(lambda: dict(P))
        need(list(d) == list(P), f"parameter names {list(d)}")
        for k in P:
            cmp(d[k], np.array(P[k]), f"parameter {k}")
