import numpy as np
from common import *
FILES = ["fastvpinns/FE/quadrature", "fastvpinns/FE/fe2d_setup"]
TYPES = ["gauss-legendre", "gauss-jacobi"]


def cases(ctx):
    Qs = ctx.hints.sizes(3, 300, list(range(3, 45)) + [50, 64, 65, 81, 100, 101, 128, 129])
    for rep in range(20 if ctx.deep else 1):
        for Q in Qs:
            yield {"Q": Q, "Q2": ctx.rng.choice(Qs), "seed": ctx.s()}


def rule(Q, t):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    r = FE2DSetupMain("quadrilateral", 3, "legendre", Q, t).assign_quadrature_rules()
    out = tuple(np.array(v) for v in r)
    for v in r:  # what a caller writes into the arrays of one rule does not reach another rule
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 3.
    return out


def run_case(c):
    Q = c["Q"]
    for (q, t) in [(Q, TYPES[0]), (Q, TYPES[1]), (c["Q2"], TYPES[0]), (Q, TYPES[0]), (c["Q2"], TYPES[1])]:
        check(q, t, np.random.RandomState(c["seed"]))


def legendre(n, x):
    """P_{n-1} and P_n."""
    p, q = np.ones_like(x), x.copy()
    for k in range(2, n + 1):
        p, q = q, ((2 * k - 1) * x * q - (k - 1) * p) / k
    return p, q


def newton(x, step):
    for _ in range(60):
        d = step(x)
        x = x - d
        if np.abs(d).max() < 1e-16:
            break
    return x


def gauss(Q):
    """Zeros of P_Q."""
    def step(x):
        p, q = legendre(Q, x)
        return q * (x * x - 1) / (Q * (x * q - p))
    return newton(-np.cos(np.pi * (np.arange(Q) + .75) / (Q + .5)), step)


def lobatto(Q):
    """-1, 1 and the zeros of P'_{Q-1}."""
    def step(x):
        p, q = legendre(Q - 1, x)
        return (x * q - p) / (Q * q)
    return newton(-np.cos(np.pi * np.arange(Q) / (Q - 1)), step)


def check(Q, t, rng):
    for v in rule(Q, t):
        double(v, f"{t} order {Q}")
    w, x, y = [np.asarray(v, dtype=float) for v in rule(Q, t)]
    tol = 1e-11
    for v in (w, x, y):
        need(v.shape == (Q * Q,), f"{t} order {Q}: shape {v.shape} instead of {(Q * Q,)}")
    k = np.unique(np.round(x, 9))
    need(len(k) == Q and len(np.unique(np.round(y, 9))) == Q, f"{t} order {Q}: {len(k)} distinct nodes per direction")
    need(np.all(np.abs(np.concatenate([x, y])) <= 1 + 1e-12), "nodes outside the reference interval")
    nodes = np.array(sorted(x[np.isclose(y, y[0], atol=1e-10)]))
    need(len(nodes) == Q, f"{t} order {Q}: the points are not a tensor grid")
    if t == TYPES[1]:
        need(abs(nodes[0] + 1) < 1e-12 and abs(nodes[-1] - 1) < 1e-12, "the Lobatto rule does not contain the end points")
    ref = gauss(Q) if t == TYPES[0] else lobatto(Q)
    close(nodes, ref, f"{t} order {Q}: nodes of the one-dimensional rule", 0, 2e-13)
    # weights by node: the weight of a point is the product of the weights of its own nodes
    W = {}
    for i in range(Q):
        sel = np.isclose(x, nodes[i], atol=1e-10)
        W[i] = w[sel].sum() / 2
    w1 = np.array([W[i] for i in range(Q)])
    p, q = legendre(Q if t == TYPES[0] else Q - 1, ref)
    close(w1, 2 * (1 - ref * ref) / (Q * p) ** 2 if t == TYPES[0] else 2 / (Q * (Q - 1) * q * q), f"{t} order {Q}: weights of the one-dimensional rule", 1e-9, 0)
    ix = np.array([np.argmin(np.abs(nodes - v)) for v in x])
    iy = np.array([np.argmin(np.abs(nodes - v)) for v in y])
    need(len(set(zip(ix.tolist(), iy.tolist()))) == Q * Q, "a grid point is missing or repeated")
    close(w, w1[ix] * w1[iy], f"{t} order {Q}: weight of a point", 10 * tol, 10 * tol / Q)
    # exactness: integral of the Legendre polynomial P_k is 2 for k = 0 and 0 otherwise
    deg = 2 * Q - 1 if t == TYPES[0] else 2 * Q - 3
    M = np.polynomial.legendre.legvander(nodes, deg)
    ref = np.zeros(deg + 1)
    ref[0] = 2
    close(w1 @ M, ref, f"{t} order {Q}: one-dimensional rule on Legendre polynomials up to degree {deg}", 0, 20 * tol)
    f, g = rng.uniform(-1, 1, 2), rng.uniform(-1, 1, 2)
    F, G = lambda s: np.exp(f[0] * s) + f[1] * s, lambda s: np.sin(g[0] * s + g[1])
    close(np.sum(w * F(x) * G(y)), np.sum(w1 * F(nodes)) * np.sum(w1 * G(nodes)), f"{t} order {Q}: product integral", 20 * tol, 20 * tol)
