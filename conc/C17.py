import os
import tempfile
import numpy as np
from common import *
from space_util import *
import fem_oracle as O
FILES = ["fastvpinns/FE/fespace", "fastvpinns/data/"]


def cases(ctx):
    far = ctx.hints.mags(10., 1e6, [150., -2e3])
    mags = ctx.hints.mags(1e-30, 1e6, [1e-12, 1e-6, 1., 1., 1., 1e4])
    names = [s for s in ctx.hints.strs if 0 < len(s) < 16 and s.replace("_", "").replace(" ", "").replace(":", "").isalnum()][:12]
    Ms = ctx.hints.sizes(1, 3000, [1, 2, 3, 7, 50, 100, 333])
    for rep in range(40 if ctx.deep else 2):
        for m in Ms:
            yield {"src": "analytic", "m": m, "dim": ctx.rng.choice([2, 3]), "np": ctx.rng.choice([4, 5, 30]), "scale": ctx.rng.choice([1., 1e-3, 40.]), "shift": ctx.rng.choice([0., -7.5, 3.25] + far),
                   "handler": ctx.rng.random() < .4, "dtype": ctx.rng.choice(["float32", "float64"]), "seed": ctx.s()}
            yield {"src": "file", "m": m, "names": names, "rows": ctx.rng.choice([1, 2, 5, 40, 300]), "cols": ctx.rng.choice([3, 4, 6]), "ints": ctx.rng.random() < .2, "mag": ctx.rng.choice(mags), "handler": ctx.rng.random() < .4,
                   "dtype": ctx.rng.choice(["float32", "float64"]), "seed": ctx.s()}


HEAD = ["x", "y", "u", "z", "Points:0", "Points:1", "sol", "v", "k", "value"]


def run_case(c):
    rng = np.random.RandomState(c["seed"])
    np.random.seed((c["seed"] + 5) % (1 << 31))
    cells = grid_cells(rng, "quad", 2)

    class Mesh:
        pass
    Mesh.points = rng.uniform(-1, 1, (c.get("np", 6), c.get("dim", 2))) * c.get("scale", 1.) * [1, .3, 0][:c.get("dim", 2)] + c.get("shift", 0)
    if c.get("dim", 2) == 3:
        Mesh.points[:, 2] = 77.
    sp = space(cells, "legendre", 2, 3, "gauss-legendre", "bilinear", sources(rng)["wave"], {}, {}, {}, Mesh())
    seen = []

    def exact(x, y):
        seen.append((np.array(x), np.array(y)))
        return np.cos(3 * x) * y + .5 * x * x - 2
    m, eps = c["m"], 0.
    if c["handler"]:
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        from fastvpinns.Geometry.geometry_2d import Geometry_2D
        h = DataHandler2D(sp, Geometry_2D("quadrilateral", "internal", 3, 3, "."), getattr(tf, c["dtype"]))
        eps = 2e-6 if c["dtype"] == "float32" else 0.
        get = lambda *a: h.get_sensor_data(exact, m, "external" if a else "internal", *a)
    else:
        get = lambda *a: sp.get_sensor_data_external(exact, m, *a) if a else sp.get_sensor_data(exact, m)
    if c["src"] == "analytic":
        cwd = os.getcwd()
        d = tempfile.mkdtemp()
        os.chdir(d)
        try:
            old = earlier(get)
            P, U = get()
            unchanged(old)
        finally:
            os.chdir(cwd)
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        P, U = shapes(c, P, U)
        lo, hi = Mesh.points[:, :2].min(0), Mesh.points[:, :2].max(0)
        slack = (1e-12 + eps) * (1 + np.abs(Mesh.points[:, :2]).max())
        need((P >= lo - slack).all() and (P <= hi + slack).all(), f"points outside the bounding box [{lo}, {hi}]: {P.min(0)}..{P.max(0)}")
        ref = np.cos(3 * P[:, 0]) * P[:, 1] + .5 * P[:, 0] ** 2 - 2
        sens = (4 * np.abs(P).max() + 4) * np.abs(P).max() if eps else 1.
        close(U, ref, "value at the sampled point", 1e-12, 1e-11 + eps * 4 * (1 + sens + np.abs(ref).max()))
        if m > 3:
            spread = (P.max(0) - P.min(0)) / (hi - lo)
            need((spread > 0).all(), "all samples on one line")
    else:
        rows = rng.uniform(-5, 5, (c["rows"], c["cols"])).round(7)
        if c["ints"]:
            rows = rng.randint(-50, 50, rows.shape)
        else:
            rows[:, 2:] *= c.get("mag", 1.)
        rows[:, 0] = rng.permutation(len(rows)) * 1.5 if not c["ints"] else rng.permutation(len(rows))
        head = list(rng.permutation([s for s in HEAD + c.get("names", []) if s])[:c["cols"]]) if c["seed"] % 3 else list("abcdefgh")[:c["cols"]]
        head = [str(h) for h in head]
        if c["seed"] % 3 == 1:
            head[0] = ["id", "index", "Unnamed: 0", "# x", "t", ""][c["seed"] // 3 % 6]
        fd, name = tempfile.mkstemp(suffix=".csv", dir=".")
        with os.fdopen(fd, "w") as fh:
            fh.write(",".join((head + ["p1", "p2", "p3", "p4"])[:4]) + "\n" + "\n".join(",".join(repr(float(v)) for v in q) for q in rng.uniform(20, 30, (c["rows"] + 2, 4))) + "\n")
        text = ",".join(head) + "\n" + "\n".join(",".join(repr(v.item()) for v in q) for q in rows) + "\n"
        if c["seed"] % 2:
            with open(name, "w") as fh:
                fh.write(text)
        try:
            old = earlier(lambda: get(name))
            with open(name, "w") as fh:
                fh.write(text)
            P, U = get(name)
            unchanged(old)
        finally:
            os.unlink(name)
        P, U = shapes(c, P, U)
        got = np.column_stack([P, U])
        for q in got:
            need((np.abs(rows[:, :3] - q) <= (1e-12 + eps) * np.abs(rows[:, :3])).all(1).any(), f"pair {q} is not a row of the file")


def earlier(get):
    """The result of an earlier call, with copies."""
    P, U = get()
    return P, U, np.array(P), np.array(U)


def unchanged(old):
    same(np.asarray(old[0]), old[2], "points returned by an earlier call changed")
    same(np.asarray(old[1]), old[3], "values returned by an earlier call changed")


def shapes(c, P, U):
    m = c["m"]
    if c["handler"]:
        need(tuple(P.shape) == (m, 2) and tuple(U.shape) == (m, 1), f"{P.shape}, {U.shape} for {m} requested points")
        P, U = P.numpy().astype(float), U.numpy().astype(float)
        return P, U[:, 0]
    P, U = np.asarray(P), np.asarray(U)
    need(P.shape == (m, 2) and U.size == m, f"{P.shape}, {U.shape} for {m} requested points")
    return P, U.reshape(-1)
