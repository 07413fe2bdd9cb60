import numpy as np
from common import *
from space_util import *
FILES = ["fastvpinns/FE/fespace"]


def cases(ctx):
    Ns = ctx.hints.sizes(1, 300, [1, 2, 5, 9])
    for n in sorted(set(ctx.hints.sizes(301, 5000, [])), reverse=True)[:40]:
        yield {"tags": 2, "kind": "random", "sizes": [n, 3], "cols": 2, "rows": "array", "tuple": False, "dtype": "float64", "seed": ctx.s()}
    for rep in range(150 if ctx.deep else 6):
        for tags in (0, 1, 2, 4, 7):
            for kind in ("random", "corners", "repeated", "zeros", "magnitudes"):
                yield {"tags": tags, "kind": kind, "sizes": [0 if ctx.rng.random() < .12 else ctx.rng.choice(Ns) for _ in range(tags)], "cols": ctx.rng.choice([2, 2, 3]), "rows": ctx.rng.choice(["array", "array", "list"]), "tuple": ctx.rng.random() < .5, "dtype": ctx.rng.choice(["float64", "float32"]), "seed": ctx.s()}


def run_case(c):
    rng = np.random.RandomState(c["seed"])
    ids = [int(x) for x in rng.permutation(np.r_[1000:1004, 3, 0, 17])[:c["tags"]]]
    bpts, bfun, co = {}, {}, {}
    for t, m in zip(ids, c["sizes"]):
        p = rng.uniform(-3, 3, (m, 2))
        if c["kind"] == "corners":
            p = rng.randint(0, 2, (m, 2)).astype(float)
        elif c["kind"] == "repeated":
            p = p[rng.randint(0, m, m)]
        elif c["kind"] == "zeros":
            p[::2, rng.randint(2)] = 0.0
        mag = 1.
        if c["kind"] == "magnitudes":
            p, mag = p * 10. ** rng.randint(-9, 5), 10. ** rng.randint(-12, 9)
        if c.get("cols", 2) == 3:
            p = np.c_[p, rng.uniform(-3, 3, m)]  # the points of a mesh file have three coordinates
        bpts[t] = p.astype(c["dtype"])
        if c.get("rows") == "list" and c["dtype"] == "float64":
            bpts[t] = [tuple(float(v) for v in r) for r in p]
        co[t] = rng.uniform(-2, 2, 4) * mag
    f = lambda t, x, y: co[t][0] * x + co[t][1] * y * y + co[t][2] * np.sin(x * y) + co[t][3]
    g = lambda t, x, y: co[t][1] - co[t][0] * x * y
    for t in rng.permutation(ids + [99]):
        t = int(t)
        if t == 99:
            bfun[t] = lambda x, y: 1e9
        else:
            bfun[t] = lambda x, y, t=t: f(t, x, y)
    sp = space(grid_cells(rng, "quad", 1), "legendre", 2, 3, "gauss-legendre", "bilinear", lambda x, y: x, bpts, bfun, {t: ["dirichlet", "dirichlet", "neumann", "robin"][rng.randint(4)] for t in ids})
    pts = [(t, p) for t in bpts for p in bpts[t]]
    keep = {t: np.array(bpts[t], copy=True) for t in bpts}

    def check(r, fn, what):
        x, y = r
        need(len(x) == len(pts) and len(y) == len(pts), f"{what}: {len(x)} points and {len(y)} values for {len(pts)} boundary points")
        for i, (t, p) in enumerate(pts):
            close(np.asarray(x[i]).reshape(-1), np.asarray(p, dtype=np.float64)[:2], f"{what}: point {i} of tag {t}", 0, 0)
            close(np.asarray(y[i]).reshape(-1), [fn(t, p[0], p[1])], f"{what}: value at point {i} of tag {t}", *((1e-12, 1e-12) if c["dtype"] == "float64" else (1e-6, 1e-6 * (1 + np.abs(co[t]).max() * (1 + np.abs(p[:2]).max()) ** 2))) if c["kind"] != "magnitudes" else (1e-9 if c["dtype"] == "float64" else 1e-4, (1e-13 if c["dtype"] == "float64" else 1e-5) * np.abs(co[t]).max() * (1 + np.abs(p[:2]).max()) ** 2))
    check(sp.dirichlet_boundary_data, f, "stored data")
    need(int(sp.total_dirichlet_dofs) == len(pts), f"total_dirichlet_dofs {sp.total_dirichlet_dofs} for {len(pts)} pairs")
    check(sp.generate_dirichlet_boundary_data(), f, "data")
    sp.bound_function_dict = {t: (lambda x, y, t=t: (g(t, x, y), f(t, x, y), x - y) if c["tuple"] else np.array([g(t, x, y), f(t, x, y), x - y])) for t in ids[::-1]}
    for k, h in ((1, f), (0, g), (2, lambda t, x, y: x - y)):
        check(sp.generate_dirichlet_boundary_data_vector(k), h, f"component {k}")
    for t in bpts:
        same(np.asarray(bpts[t]), keep[t], f"boundary points of tag {t} modified")
