"""Oracle for the one-dimensional test functions: numpy.polynomial (an implementation independent of scipy.special)."""
import numpy as np
from numpy.polynomial import legendre as L, chebyshev as C

FAMILIES = ["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"]


def unit(k):
    c = np.zeros(k + 1)
    c[k] = 1.0
    return c


def phi(fam, k, x, d=0):
    """d-th derivative of test function number k (from 1) at x."""
    x = np.asarray(x, dtype=np.float64)
    if fam == "chebyshev_2":
        M, c = C, C.chebsub(unit(k + 1), unit(k - 1))
        der, val = C.chebder, C.chebval
    else:
        c = unit(k - 1) if fam == "jacobi_plain" else L.legsub(unit(k + 1), unit(k - 1))
        der, val = L.legder, L.legval
    if d:
        c = der(c, d)
    return val(x, c) + 0.0 * x


def table(fam, n, xi, eta, dx=0, dy=0):
    X = [phi(fam, i + 1, xi, dx) for i in range(n)]
    Y = [phi(fam, j + 1, eta, dy) for j in range(n)]
    return np.array([X[i] * Y[j] for i in range(n) for j in range(n)])


def tol(n):
    return 1e-9 + 3e-15 * 2.45 ** (n + 1)


def basis(fam, n, cell="quadrilateral"):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    b = FE2DSetupMain(cell, n, fam, 5, "gauss-legendre").assign_basis_function()
    # objects of one class do not share their data
    for f in dict.fromkeys([fam, "jacobi", "legendre"]):
        other = FE2DSetupMain(cell, n + 1 if n < 25 else 2, f, 4, "gauss-legendre").assign_basis_function()
        other.value(np.array([.25, -.5]), np.array([.75, .125]))
        other.gradx(np.array([.25, -.5]), np.array([.75, .125]))
    return b


def pts(rng, Q, kind="random"):
    if kind == "corner":
        x, y = np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.])
        return np.resize(x, Q), np.resize(y, Q)
    if kind == "edge":
        x, y = rng.uniform(-1, 1, Q), rng.uniform(-1, 1, Q)
        x[::2] = np.where(rng.rand(len(x[::2])) < .5, -1, 1)
        y[1::2] = np.where(rng.rand(len(y[1::2])) < .5, -1, 1)
        return x, y
    if kind == "integer":  # points given as integers
        return rng.randint(-1, 2, Q), rng.randint(-1, 2, Q)
    if kind == "outside":
        return rng.uniform(-1.5, 1.5, Q), rng.uniform(-1.5, 1.5, Q)
    return rng.uniform(-1, 1, Q), rng.uniform(-1, 1, Q)
