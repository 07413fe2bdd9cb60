import numpy as np
from common import *
FILES = ["fastvpinns/utils/compute_utils"]


def cases(ctx):
    ns = sorted(set([1, 2, 3, 5, 8, 17, 64] + ctx.hints.sizes(1, 20000, [100, 257])))
    kinds = ["normal", "signed", "large", "small", "int", "spiky"]
    LAY = ["c", "c", "f", "t", "slice", "rev", "ro"]
    shp = ["flat", "col", "flat-col", "col-flat", "row-col", "mat"]
    for rep in range(400 if ctx.deep else 6):
        for n in ns:
            for s in shp:
                yield {"n": n, "shape": s, "kind": ctx.rng.choice(kinds), "layout": [ctx.rng.choice(LAY), ctx.rng.choice(LAY)], "seed": ctx.s()}


def layout(v, how):
    """The same array in another memory layout."""
    if how == "f":
        return np.asfortranarray(v)
    if how == "t":
        return np.array(v.T, order="C").T
    if how == "slice":
        w = np.full(tuple(2 * k for k in v.shape), 9, v.dtype)
        w[tuple(slice(None, None, 2) for _ in v.shape)] = v
        return w[tuple(slice(None, None, 2) for _ in v.shape)]
    if how == "rev":
        return v[tuple(slice(None, None, -1) for _ in v.shape)].copy()[tuple(slice(None, None, -1) for _ in v.shape)]
    if how == "ro":
        v = v.copy()
        v.flags.writeable = False
    return v


def run_case(c):
    from fastvpinns.utils import compute_utils as cu
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    a, b = r.randn(n), r.randn(n)
    k = c["kind"]
    if k == "large":
        a, b = a * 1e6, b * 1e6
    elif k == "small":
        a, b = a * 1e-3, b * 1e-3
    elif k == "int":
        a, b = r.randint(1, 50, n), r.randint(-9, 50, n)
    elif k == "spiky":
        b = a.copy()
        b[r.randint(n)] += 100 * r.randn()
    elif k == "signed":
        a, b = -np.abs(a) - 1, b - 3
    x, y = np.array(a), np.array(b)
    s = c["shape"]
    f = {"flat": ((n,), (n,)), "col": ((n, 1), (n, 1)), "flat-col": ((n,), (n, 1)), "col-flat": ((n, 1), (n,)), "row-col": ((1, n), (n, 1)),
         "mat": ((n, 1), (n, 1)) if n % 2 else ((n // 2, 2), (n // 2, 2))}[s]
    x, y = x.reshape(f[0]), y.reshape(f[1])
    x, y = [layout(v, l) for v, l in zip((x, y), c.get("layout", "cc"))]
    x0, y0 = x.copy(), y.copy()
    A, B = [float(v) for v in a], [float(v) for v in b]
    d = [abs(p - q) for p, q in zip(A, B)]
    l1, l2, li = sum(d) / n, (sum(v * v for v in d) / n) ** 0.5, max(d)
    n1, n2, ni = sum(map(abs, A)) / n, (sum(v * v for v in A) / n) ** 0.5, max(map(abs, A))
    spec = {"compute_l1_error": l1, "compute_l2_error": l2, "compute_linf_error": li, "compute_l1_error_relative": l1 / n1, "compute_l2_error_relative": l2 / n2, "compute_linf_error_relative": li / ni}
    for name, v in spec.items():
        close(getattr(cu, name)(x, y), v, name, 1e-9, 1e-12)
    got = cu.compute_errors_combined(x, y)
    need(isinstance(got, tuple) and len(got) == 6, "compute_errors_combined does not return six values")
    for g, name in zip(got, ["compute_l2_error", "compute_linf_error", "compute_l2_error_relative", "compute_linf_error_relative", "compute_l1_error", "compute_l1_error_relative"]):
        close(g, spec[name], "combined " + name, 1e-9, 1e-12)
    same(x, x0, "u_exact modified")
    same(y, y0, "u_approx modified")
