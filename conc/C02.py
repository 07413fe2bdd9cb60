import numpy as np
from common import *
from basis_oracle import *
FILES = ["fastvpinns/FE/basis_2d", "fastvpinns/FE/basis_function_2d", "fastvpinns/FE/fe2d_setup"]


def cases(ctx):
    ns = ctx.hints.sizes(2, 26, [2, 3, 4, 5, 7, 10, 14])
    Qs = ctx.hints.sizes(1, 400, [1, 2, 3, 9, 25, 64])
    for rep in range(60 if ctx.deep else 1):
        for n in ns:
            for fam in FAMILIES:
                for kind in ("random", "edge", "corner", "outside", "integer"):
                    yield {"family": fam, "order": n, "Q": ctx.rng.choice(Qs), "kind": kind, "seed": ctx.s()}
    for fam in FAMILIES:
        for Q in Qs:
            yield {"family": fam, "order": 3, "Q": Q, "kind": "random", "seed": ctx.s()}


def run_case(c):
    rng = np.random.RandomState(c["seed"])
    n, fam, Q = c["order"], c["family"], c["Q"]
    b = basis(fam, n)
    xi, eta = pts(rng, Q, c["kind"])
    x0, e0 = xi.copy(), eta.copy()
    x2, e2 = pts(rng, Q)
    t = tol(n) * (3 ** n if c["kind"] == "outside" else 1)
    need(b.num_shape_functions == n * n, "number of test functions")
    first = None
    for a, e in ((xi, eta), (x2, e2), (xi, eta)):
        ref = table(fam, n, np.array(a), np.array(e))
        v = b.value(a, e)
        double(v, f"value table {fam} order {n}")
        close(v, ref, f"value table {fam} order {n}", t, t, scale=np.abs(ref).max() + 1)
        if fam != "jacobi_plain" and n <= 16:
            bd = (np.abs(a) == 1) | (np.abs(e) == 1)
            close(np.asarray(v)[:, bd], np.zeros((n * n, int(bd.sum()))), "value on the boundary of the reference square", 0, 1e-8 + tol(n))
    if c["kind"] == "random":  # the same array objects holding other points
        xi[:], eta[:] = x2, e2
        close(b.value(xi, eta), table(fam, n, x2, e2), f"value table {fam} order {n}, points replaced in place", t, t, scale=np.abs(ref).max() + 1)
        xi[:], eta[:] = x0, e0
    same(xi, x0, "xi modified")
    same(eta, e0, "eta modified")
