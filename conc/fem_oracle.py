"""Independent evaluation of finite element quantities (numpy only)."""
import numpy as np
from basis_oracle import FAMILIES, table, tol
CORN = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
QTYPES = ["gauss-legendre", "gauss-jacobi"]
TRANS = ["affine", "bilinear"]


SHAPES = ("rectangle", "parallelogram", "quad", "near", "thin", "trapezoid", "kite", "far")


def random_cell(rng, kind="quad", scale=1.0):
    """Vertices of a non-degenerate cell in anticlockwise order."""
    if kind == "mixed":
        kind = SHAPES[rng.randint(len(SHAPES))]
    if kind in ("near", "far", "thin", "trapezoid", "kite"):
        return special_cell(rng, kind) * scale
    a = rng.uniform(-1, 1, 2)
    e1, e2 = np.array([rng.uniform(.4, 2), 0.]), np.array([0., rng.uniform(.4, 2)])
    if kind != "rectangle":
        t = rng.uniform(0, 2 * np.pi)
        R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        e1, e2 = R @ e1, R @ e2
        e2 = e2 + rng.uniform(-.5, .5) * e1
    v = np.array([a, a + e1, a + e1 + e2, a + e2])
    if kind == "quad":
        v = v + rng.uniform(-.1, .1, (4, 2))
    if kind == "clockwise":
        v = v[::-1].copy()
    return v * scale


def special_cell(rng, kind):
    """near: almost a parallelogram; far: away from the origin; thin: aspect ratio up to 1e4; trapezoid: two sides parallel to an axis; kite: one corner pulled in."""
    a, h = rng.uniform(-1, 1, 2), rng.uniform(.4, 2, 2)
    v = np.array([a, a + [h[0], 0], a + h, a + [0, h[1]]])
    if kind == "trapezoid":
        v[2, 0] -= rng.uniform(-.2, .35) * h[0]
        v[3, 0] += rng.uniform(-.2, .35) * h[0]
        return v if rng.randint(2) else np.roll(v[::-1, ::-1], 1, axis=0)
    if kind == "kite":
        k = rng.randint(4)
        v[k] += (v.mean(axis=0) - v[k]) * rng.uniform(.3, .7)
        return v
    t = rng.uniform(0, 2 * np.pi) * rng.randint(2)
    R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    if kind == "thin":
        v[:, rng.randint(2)] *= 10. ** -rng.uniform(1, 4)
        return v @ R.T
    v = v @ R.T
    if kind == "near":
        return v + 10. ** -rng.uniform(1, 6) * rng.uniform(-.3, .3, (4, 2))
    return v + rng.uniform(.05, .1, (4, 2)) * h.min() + 10. ** rng.uniform(1, 4) * rng.uniform(-1, 1, 2)


def transform(kind, v, xi, eta):
    """Image (2, Q) of the reference points and J[coordinate][ref direction] (Q,) of the documented map."""
    v = np.asarray(v, dtype=float)
    if kind == "bilinear":
        N = np.array([(1 + sx * xi) * (1 + sy * eta) / 4 for sx, sy in CORN])
        Nx = np.array([sx * (1 + sy * eta) / 4 for sx, sy in CORN])
        Ny = np.array([sy * (1 + sx * xi) / 4 for sx, sy in CORN])
        p, dx, dy = v.T @ N, v.T @ Nx, v.T @ Ny
    else:
        o = np.ones_like(xi)
        c, ex, ey = (v[1] + v[3]) / 2, (v[1] - v[0]) / 2, (v[3] - v[0]) / 2
        p = c[:, None] * o + ex[:, None] * xi + ey[:, None] * eta
        dx, dy = ex[:, None] * o, ey[:, None] * o
    J = [[dx[0], dy[0]], [dx[1], dy[1]]]
    return p, J, J[0][0] * J[1][1] - J[0][1] * J[1][0]


def rule(Q, qt):
    """The quadrature rule under its own contract (C03)."""
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    w, x, y = FE2DSetupMain("quadrilateral", 3, "legendre", Q, qt).assign_quadrature_rules()
    return np.array(w, dtype=float), np.array(x, dtype=float), np.array(y, dtype=float)


def cell(fam, n, Q, qt, tr, v):
    """Every table of an assembled cell."""
    w, x, y = rule(Q, qt)
    p, J, d = transform(tr, v, x, y)
    m = w * np.abs(d)
    B = {k: table(fam, n, x, y, *D) for k, D in (("v", (0, 0)), ("x", (1, 0)), ("y", (0, 1)), ("xx", (2, 0)), ("xy", (1, 1)), ("yy", (0, 2)))}
    gx = (B["x"] * J[1][1] - B["y"] * J[1][0]) / d
    gy = (-B["x"] * J[0][1] + B["y"] * J[0][0]) / d
    r = {"value": B["v"] * m, "gradx": gx * m, "grady": gy * m, "gradx_ref": B["x"], "grady_ref": B["y"], "mult": m, "points": p.T, "det": d, "w": w,
         "refxx": B["xx"] * m, "refxy": B["xy"] * m, "refyy": B["yy"] * m}
    # inverse of the derivative: R = d(xi, eta)/d(x, y)
    R = [[J[1][1] / d, -J[0][1] / d], [-J[1][0] / d, J[0][0] / d]]
    if tr == "affine":
        H = {("x", "x"): "xx", ("x", "y"): "xy", ("y", "y"): "yy"}
        X, Y = (R[0][0], R[1][0]), (R[0][1], R[1][1])
        q = lambda A, C: (B["xx"] * A[0] * C[0] + B["xy"] * (A[0] * C[1] + A[1] * C[0]) + B["yy"] * A[1] * C[1]) * m
        r["gradxx"], r["gradxy"], r["gradyy"] = q(X, X), q(X, Y), q(Y, Y)
    else:
        # second derivatives of the inverse of a bilinear map: only the mixed reference derivative of the map is non-zero
        v = np.asarray(v, dtype=float)
        mx = sum(sx * sy * v[k, 0] for k, (sx, sy) in enumerate(CORN)) / 4
        my = sum(sx * sy * v[k, 1] for k, (sx, sy) in enumerate(CORN)) / 4
        X, Y = (R[0][0], R[1][0]), (R[0][1], R[1][1])

        def q(A, C):
            s = -(A[0] * C[1] + A[1] * C[0])
            d2xi, d2eta = s * (R[0][0] * mx + R[0][1] * my), s * (R[1][0] * mx + R[1][1] * my)
            return (B["xx"] * A[0] * C[0] + B["xy"] * (A[0] * C[1] + A[1] * C[0]) + B["yy"] * A[1] * C[1] + B["x"] * d2xi + B["y"] * d2eta) * m
        r["gradxx"], r["gradxy"], r["gradyy"] = q(X, X), q(X, Y), q(Y, Y)
    return r


def well(r):
    """The map is orientation preserving and not nearly degenerate at the quadrature points."""
    d = r["det"]
    return np.all(d > 0) and d.min() > 1e-3 * np.abs(d).max() or np.all(d < 0) and np.abs(d).min() > 1e-3 * np.abs(d).max()
