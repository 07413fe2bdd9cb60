import numpy as np
from common import *
from basis_oracle import *
FILES = ["fastvpinns/FE/basis_2d", "fastvpinns/FE/basis_function_2d", "fastvpinns/FE/fe2d_setup"]
D = {"gradx": (1, 0), "grady": (0, 1), "gradxx": (2, 0), "gradxy": (1, 1), "gradyy": (0, 2)}


def cases(ctx):
    ns = ctx.hints.sizes(2, 26, [2, 3, 4, 5, 7, 10, 14])
    Qs = ctx.hints.sizes(1, 400, [1, 2, 3, 9, 25, 64])
    for rep in range(60 if ctx.deep else 1):
        for n in ns:
            for fam in FAMILIES:
                for kind in ("random", "edge", "corner", "outside", "integer"):
                    yield {"family": fam, "order": n, "Q": ctx.rng.choice(Qs), "kind": kind, "seed": ctx.s()}
    for fam in FAMILIES:
        for Q in Qs:
            yield {"family": fam, "order": 3, "Q": Q, "kind": "random", "seed": ctx.s()}


def fit(f, n, x):
    """Coefficients of the polynomial a table row is in one direction (degree <= n+1), from its values at Chebyshev nodes."""
    return np.polynomial.chebyshev.chebfit(x, f, len(x) - 1)


def run_case(c):
    rng = np.random.RandomState(c["seed"])
    n, fam, Q = c["order"], c["family"], c["Q"]
    b = basis(fam, n)
    xi, eta = pts(rng, Q, c["kind"])
    x0, e0 = xi.copy(), eta.copy()
    v = np.asarray(b.value(xi, eta))
    double(v, f"value {fam} order {n}")
    need(v.shape == (n * n, Q), f"value table shape {v.shape}")
    # the exact derivative of the value table: each row is a polynomial of degree <= n+1 per direction; interpolate the
    # object's own values on a tensor grid of n+2 Chebyshev nodes and differentiate the interpolant
    m = n + 2
    nodes = np.cos((np.arange(m) + 0.5) * np.pi / m)
    gx, gy = np.meshgrid(nodes, nodes, indexing="ij")
    V = np.asarray(b.value(gx.flatten(), gy.flatten()), dtype=float).reshape(n * n, m, m)
    C = np.polynomial.chebyshev
    F = np.linalg.inv(C.chebvander(nodes, m - 1))
    coef = np.einsum("ia,rab,jb->rij", F, V, F)
    out = 3.0 ** n if c["kind"] == "outside" else 1.0
    close(C.chebval2d(x0, e0, np.moveaxis(coef, 0, -1)), v, "value is the polynomial it is at the nodes", tol(n) * 100 * out, tol(n) * 100 * out, scale=np.abs(v).max() + 1)
    for meth, (dx, dy) in D.items():
        cc = np.moveaxis(coef, 0, -1)
        if dx:
            cc = C.chebder(cc, dx, axis=0)
        if dy:
            cc = C.chebder(cc, dy, axis=1)
        ref = C.chebval2d(x0, e0, cc)
        t = (tol(n) * 100) * (n + 2) ** (2 * (dx + dy)) * out
        g = getattr(b, meth)(xi, eta)
        sc = np.abs(ref).max() + 1
        if t < 0.05:
            double(g, f"{meth} {fam} order {n}")
            close(g, ref, f"{meth} {fam} order {n}", min(t, 1e-3) if t < 1e-3 else t, t, scale=sc)
    if c["kind"] == "random":  # the same array objects holding other points
        xi[:], eta[:] = pts(rng, Q, "random")
        close(b.value(xi, eta), C.chebval2d(xi, eta, np.moveaxis(coef, 0, -1)), "value after the points were replaced in place", tol(n) * 100, tol(n) * 100, scale=np.abs(v).max() + 1)
        fr = basis(fam, n)
        for meth in D:
            ref = getattr(fr, meth)(xi.copy(), eta.copy())
            close(getattr(b, meth)(xi, eta), ref, f"{meth} after the points were replaced in place", 1e-9, 1e-9, scale=np.abs(ref).max() + 1)
        xi[:], eta[:] = x0, e0
    same(xi, x0, "xi modified")
    same(eta, e0, "eta modified")
