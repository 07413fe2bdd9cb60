import numpy as np
from common import *
import fem_oracle as O
FILES = ["fastvpinns/FE/quad_", "fastvpinns/FE/fe2d_setup", "fastvpinns/FE/fe_transformation_2d"]
C = [(-1, -1), (1, -1), (1, 1), (-1, 1)]


def cases(ctx):
    Qs = ctx.hints.sizes(1, 300, [1, 2, 4, 9, 25])
    Ns = ctx.hints.sizes(1, 120, [1, 2, 4, 9])
    for rep in range(200 if ctx.deep else 12):
        for kind in ("affine", "bilinear"):
            for shape in ("rectangle", "parallelogram", "quad", "nonconvex-order", "clockwise", "tiny", "huge", "offset", "rotated", "near", "thin", "trapezoid", "kite"):
                yield {"moved": ctx.rng.random() < .3, "kind": kind, "shape": shape, "N": ctx.rng.choice(Ns), "Q": ctx.rng.choice(Qs), "seed": ctx.s()}


def vertices(shape, rng, par):
    if shape in ("near", "thin", "trapezoid", "kite"):
        v = O.special_cell(rng, shape)
        if par:
            v[2] = v[1] + v[3] - v[0]
        return v
    a = rng.uniform(-1, 1, 2)
    e1, e2 = rng.uniform(0.3, 2) * np.array([1., 0]), rng.uniform(0.3, 2) * np.array([0, 1.])
    if shape not in ("rectangle",):
        t = rng.uniform(0, 2 * np.pi)
        R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        e1, e2 = R @ e1, R @ e2
    if shape in ("parallelogram", "quad", "nonconvex-order", "clockwise"):
        e2 = e2 + rng.uniform(-.6, .6) * e1
    v = np.array([a, a + e1, a + e1 + e2, a + e2])
    if shape == "quad" and not par:
        v = v + rng.uniform(-.12, .12, (4, 2))
    if shape == "clockwise":
        v = v[::-1].copy()
    if shape == "tiny":
        v = v * 10. ** -rng.randint(3, 10)
    if shape == "huge":
        v = v * 10. ** rng.randint(3, 8)
    if shape == "offset":
        v = v + rng.uniform(-50, 50, 2)
    if shape == "nonconvex-order":
        v = np.roll(v, rng.randint(4), axis=0)
    return v


def shape_fn(x, y):
    return np.array([(1 + sx * x) * (1 + sy * y) / 4 for sx, sy in C])


def run_case(c):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    rng = np.random.RandomState(c["seed"])
    kind, N, Q = c["kind"], c["N"], c["Q"]
    v = vertices(c["shape"], rng, kind == "affine")
    v0 = v.copy()
    def fresh():
        t = FE2DSetupMain("quadrilateral", 3, "legendre", 5, "gauss-legendre").assign_fe_transformation(kind, v if not c.get("moved") else other)
        if c.get("moved"):
            t.co_ordinates = v
            t.set_cell()
            t.get_jacobian(0, 0)
        # objects of one class do not share their data
        o = FE2DSetupMain("quadrilateral", 3, "legendre", 5, "gauss-legendre").assign_fe_transformation(kind, np.array([[9., 8.], [13., 8.5], [13.5, 11.], [9.5, 10.5]]))
        o.set_cell()
        o.get_jacobian(0, 0)
        if c["seed"] % 2:
            t.set_cell()
            t.get_jacobian(0, 0)
        return t
    other = vertices("parallelogram", np.random.RandomState(c["seed"] + 1), kind == "affine")
    if c["seed"] % 3 == 0:  # the earlier cell differs by little
        other = v0 * (1 + 10. ** -rng.randint(3, 9)) + np.abs(v0).max() * 10. ** -rng.randint(3, 9)
    t = fresh()
    S = np.abs(v).max()
    for k, (x, y) in enumerate(C):
        close(t.get_original_from_ref(x, y), v0[k], f"{kind}: image of reference corner {k}", 1e-12, 0, scale=S)
    pts = []
    for _ in range(2):
        xi, eta = rng.uniform(-1, 1, Q + len(pts)), rng.uniform(-1, 1, Q + len(pts))
        pts.append((xi, eta, rng.randn(N, len(xi)), rng.randn(N, len(xi))))
    L = max(np.abs(v0 - v0[0]).max(), 1e-30)
    for nth, (xi, eta, rx, ry) in enumerate([pts[0], pts[1], pts[0]]):
        xi0, eta0, rx0, ry0 = xi.copy(), eta.copy(), rx.copy(), ry.copy()
        dxi = np.array([sx * (1 + sy * eta) / 4 for sx, sy in C])
        deta = np.array([sy * (1 + sx * xi) / 4 for sx, sy in C])
        J = np.array([v0.T @ dxi, v0.T @ deta])  # J[ref direction][coordinate][q]
        dj = J[0][0] * J[1][1] - J[0][1] * J[1][0]
        close(np.array(t.get_original_from_ref(xi, eta)), v0.T @ shape_fn(xi, eta), f"{kind}: map", 1e-10, 0, scale=S)
        close(np.asarray(t.get_jacobian(xi, eta)) + 0 * xi, np.abs(dj), f"{kind}: jacobian", 1e-9, 1e-9 * L * L)
        x1, y1 = pts[1][0], pts[1][1]
        t.get_jacobian(x1, y1)
        if np.abs(dj).min() < 1e-3 * L * L:
            continue
        if nth == 1:
            t = fresh()  # the derivatives must not depend on an earlier get_jacobian call
        gx, gy = t.get_orig_from_ref_derivative(rx, ry, xi, eta)
        tol = 1e-7
        close(gx * J[0][0] + gy * J[0][1], rx0, f"{kind}: chain rule d/dxi", tol, tol, scale=1 + np.abs(rx0).max())
        close(gx * J[1][0] + gy * J[1][1], ry0, f"{kind}: chain rule d/deta", tol, tol, scale=1 + np.abs(ry0).max())
        for a, b, nm in ((xi, xi0, "xi"), (eta, eta0, "eta"), (rx, rx0, "gradx"), (ry, ry0, "grady"), (v, v0, "vertices")):
            same(a, b, nm + " modified")
        if kind == "affine":
            A = [rng.randn(N, len(xi)) for _ in range(3)]
            B = [a.copy() for a in A]
            if nth == 1:
                t = fresh()
            xx, xy, yy = t.get_orig_from_ref_second_derivative(*A, xi, eta)
            tol = 1e-6
            for (c0, c1), nm, ref in zip(((0, 0), (0, 1), (1, 1)), ("xx", "xy", "yy"), B):
                lhs = J[c0][0] * J[c1][0] * xx + (J[c0][0] * J[c1][1] + J[c0][1] * J[c1][0]) * xy + J[c0][1] * J[c1][1] * yy
                close(lhs, ref, f"affine: second-derivative chain rule {nm}", tol, tol, scale=1 + max(np.abs(b).max() for b in B))
