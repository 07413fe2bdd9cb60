import numpy as np
from common import *
import fem_oracle as O
FILES = ["fastvpinns/FE/"]
ATTR = {"value": "basis_at_quad", "gradx": "basis_gradx_at_quad", "grady": "basis_grady_at_quad", "gradx_ref": "basis_gradx_at_quad_ref", "grady_ref": "basis_grady_at_quad_ref",
        "gradxx": "basis_gradxx_at_quad", "gradxy": "basis_gradxy_at_quad", "gradyy": "basis_gradyy_at_quad"}


def cases(ctx):
    ns = ctx.hints.sizes(2, 14, [2, 3, 4, 5, 7])
    Qs = ctx.hints.sizes(3, 24, [3, 4, 5, 6, 9])
    for rep in range(60 if ctx.deep else 2):
        for tr in O.TRANS:
            for qt in O.QTYPES:
                for fam in O.FAMILIES:
                    for shape in (("rectangle", "parallelogram", "mixed", "clockwise", "mixed") if rep % 2 == 0 else ("quad", "small", "large", "mixed")):
                        yield {"fam": fam, "n": ctx.rng.choice(ns), "Q": ctx.rng.choice(Qs), "qt": qt, "tr": tr, "shape": shape, "seed": ctx.s()}


def build(v, fam, n, Q, qt, tr, f=None):
    from fastvpinns.FE.FE2D_Cell import FE2D_Cell
    c = FE2D_Cell(v, "quadrilateral", n, fam, Q, qt, tr, f or (lambda x, y: x))
    # objects of one class do not share their data
    FE2D_Cell(np.array([[9., 8.], [13., 8.5], [13., 11.], [8.5, 12.]]), "quadrilateral", 2 if n != 2 else 3, fam, 3 if Q != 3 else 4, qt, tr, lambda x, y: 1e3)
    return c


def shape_of(c, rng):
    s = c["shape"]
    if s == "small":
        return O.random_cell(rng, "quad", 10. ** -rng.randint(1, 8))
    if s == "large":
        return O.random_cell(rng, "quad", 10. ** rng.randint(1, 6))
    return O.random_cell(rng, s)


def compare(cell, r, c, rtol):
    n, Q = c["n"], c["Q"]
    S = {k: np.abs(r[k]).max() + 1e-300 for k in r}
    for k in ("value", "gradx", "grady", "gradx_ref", "grady_ref"):
        double(getattr(cell, ATTR[k]), ATTR[k])
        close(getattr(cell, ATTR[k]), r[k], f"{c['fam']} n={n} Q={Q} {c['qt']} {c['tr']}: {ATTR[k]}", rtol, rtol * S[k])
    double(cell.mult, "multipliers")
    double(cell.quad_actual_coordinates, "quadrature points")
    close(np.asarray(cell.mult).reshape(-1), r["mult"], "multipliers", 1e-9 + rtol, 1e-12 * S["mult"])
    close(cell.quad_actual_coordinates, r["points"], "quadrature points", 1e-9, 1e-9 * S["points"])
    for k in ("gradxx", "gradxy", "gradyy"):
        got = getattr(cell, ATTR[k])
        if c["tr"] == "bilinear" and np.shape(got) == r[k].shape and np.allclose(got, r["ref" + k[4:]], rtol=10 * rtol, atol=10 * rtol * S["ref" + k[4:]]):
            continue  # known finding: QuadBilinear hands the reference second derivatives through
        close(got, r[k], f"{c['fam']} n={n} Q={Q} {c['qt']} {c['tr']}: {ATTR[k]}", 10 * rtol, 10 * rtol * S[k])


def run_case(c):
    rng = np.random.RandomState(c["seed"])
    v = shape_of(c, rng)
    r = O.cell(c["fam"], c["n"], c["Q"], c["qt"], c["tr"], v)
    if not O.well(r):
        return
    rtol = 1e-7 + 1e2 * O.tol(c["n"]) * 1e-1 * c["n"] ** 2
    v0 = v.copy()
    other = O.random_cell(rng, "parallelogram")
    build(other, c["fam"], c["n"] + 1, c["Q"] + 1, c["qt"], c["tr"])
    a = build(v, c["fam"], c["n"], c["Q"], c["qt"], c["tr"])
    b = build(other, c["fam"], c["n"], c["Q"], c["qt"], c["tr"])
    same(v, v0, "cell coordinates modified")
    compare(a, r, c, rtol)
    compare(b, O.cell(c["fam"], c["n"], c["Q"], c["qt"], c["tr"], other), c, rtol)


KNOWN_CELL = [[0., 0.], [2., 0.], [2., 1.], [0., 1.]]


def known():
    """QuadBilinear.get_orig_from_ref_second_derivative hands the reference derivatives through: on the 2 x 1 rectangle below the xx table of the first
    legendre function is the reference one (times the multiplier), which equals the physical one only for a cell of side 2."""
    v = np.array(KNOWN_CELL)
    r = O.cell("legendre", 2, 3, "gauss-legendre", "bilinear", v)
    a = build(v, "legendre", 2, 3, "gauss-legendre", "bilinear")
    bad = not np.allclose(a.basis_gradyy_at_quad, r["gradyy"], atol=1e-8)
    return ["bilinear-second-derivatives"] if bad else []
