"""C04  Reference-to-physical maps, Jacobians and derivative transforms."""
from pyvc import terms as T
from pyvc.values import *
from .common import *

CORNERS = [(-1, -1), (1, -1), (1, 1), (-1, 1)]


def cell(it, parallelogram):
    V = [[T.var(f"v{k}{c}", "R") for c in "xy"] for k in range(4)]
    if parallelogram:
        for c in range(2):
            V[2][c] = T.sub(T.add(V[1][c], V[3][c]), V[0][c])
    a = Arr((4, 2), lambda i, j: pick(V, i, j))
    return V, it.new_arr(a)


def pick(V, i, j):
    i, j = T.lift(i), T.lift(j)
    r = None
    for k in reversed(range(len(V))):
        for c in reversed(range(len(V[0]))):
            r = V[k][c] if r is None else T.ite(T.and_(T.eq(i, k), T.eq(j, c)), V[k][c], r)
    return r


def make(it, kind, coords):
    fr = it.module_frame(it.load_module(FE + "fe2d_setup_main"))
    s = it.instantiate(fr["FE2DSetupMain"], ["quadrilateral", 3, "legendre", 5, "gauss-legendre"], {})
    return it.call_method(s, "assign_fe_transformation", [kind, coords], {})


def mapterms(kind, V):
    """The documented map and its derivative, as functions of (xi, eta)."""
    X, Y = T.fresh("X", "R"), T.fresh("Y", "R")
    if kind == "bilinear":
        sh = [T.scale(Fraction(1, 4), T.mul(T.add(1, T.scale(sx, X)), T.add(1, T.scale(sy, Y)))) for sx, sy in CORNERS]
        m = [T.add(*[T.mul(sh[k], V[k][c]) for k in range(4)]) for c in range(2)]
    else:
        h = Fraction(1, 2)
        m = [T.add(T.scale(h, T.add(V[1][c], V[3][c])), T.scale(h, T.mul(X, T.sub(V[1][c], V[0][c]))), T.scale(h, T.mul(Y, T.sub(V[3][c], V[0][c])))) for c in range(2)]
    return X, Y, m


def table(it, name, N, Q):
    return it.new_arr(Arr((N, Q), lambda i, q: T.rawapp(name, (T.lift(i), T.lift(q)), "R")))


def verify(ck):
    for kind in ("bilinear", "affine"):
        F = "QuadBilinear" if kind == "bilinear" else "QuadAffin"
        with ck.section(f"{kind} corners", F):
            it = ck.interp()
            V, coords = cell(it, kind == "affine")
            X, Y, m = mapterms(kind, V)
            nd = lambda x, y: nondeg(X, Y, m, x, y)
            it.assume(T.ne(det(X, Y, m, 0, 0), 0))

            def run():
                t = make(it, kind, coords)
                return [it.call_method(t, "get_original_from_ref", [x, y], {}) for x, y in CORNERS + [(X, Y)]]
            for o in ck.single(it, run, func=F):
                it.restore(o.state)
                for k, v in enumerate(o.value):
                    a = it.arr(v)
                    if not ck.fact(f"point {k} has two coordinates", a.ndim == 1, F):
                        continue
                    for c in range(2):
                        if k < 4:
                            ck.equal(f"corner {k} maps to vertex {k} ({'xy'[c]})", a.at(c), V[k][c], it.pc, F)
                        else:
                            ck.equal(f"the map is the documented one ({'xy'[c]})", a.at(c), m[c], it.pc, F)
        for moved in (False, True):
            jacobian_and_derivatives(ck, kind, F, moved)


def other(it, kind):
    """Another cell, non-degenerate at its centre."""
    W = [[T.var(f"w{k}{c}", "R") for c in "xy"] for k in range(4)]
    X, Y, m = mapterms(kind, W)
    it.assume(T.ne(det(X, Y, m, 0, 0), 0)) if kind == "affine" else None
    return it.new_arr(Arr((4, 2), lambda i, j: pick(W, i, j)))


def move(it, kind, coords):
    """A transformation of another cell whose cell is replaced."""
    t = make(it, kind, other(it, kind))
    it.setattr(t, "co_ordinates", coords)
    it.call_method(t, "set_cell", [], {})
    it.call_method(t, "get_jacobian", [0, 0], {})
    return t


def jacobian_and_derivatives(ck, kind, F, moved):
    build = move if moved else make
    if True:
        with ck.section(f"{kind} jacobian and derivatives{', cell replaced' if moved else ''}", F):
            it = ck.interp()
            V, coords = cell(it, False)
            X, Y, m = mapterms(kind, V)
            N, Q, R = T.var("N", "I", 1), T.var("Q", "I", 1), T.var("R", "I", 1)
            it.assume(T.ne(det(X, Y, m, 0, 0), 0)) if kind == "affine" else None

            def run():
                t = build(it, kind, coords)
                t0, t1 = build(it, kind, coords), build(it, kind, coords)  # used without an earlier get_jacobian call
                xi, eta = points(it, Q, "xi", "eta")
                x2, e2 = points(it, R, "xi2", "eta2")
                rx, ry = table(it, "rx", N, Q), table(it, "ry", N, Q)
                sx, sy = table(it, "sx", N, R), table(it, "sy", N, R)
                xx, xy, yy = [table(it, nm, N, Q) for nm in ("rxx", "rxy", "ryy")]
                g0 = it.call_method(t0, "get_orig_from_ref_derivative", [rx, ry, xi, eta], {})
                s0 = it.call_method(t1, "get_orig_from_ref_second_derivative", [xx, xy, yy, xi, eta], {})
                j0 = it.call_method(t, "get_jacobian", [xi, eta], {})
                g = it.call_method(t, "get_orig_from_ref_derivative", [rx, ry, xi, eta], {})
                j1 = it.call_method(t, "get_jacobian", [x2, e2], {})
                g2 = it.call_method(t, "get_orig_from_ref_derivative", [rx, ry, xi, eta], {})
                g3 = it.call_method(t, "get_orig_from_ref_derivative", [sx, sy, x2, e2], {})
                j2 = it.call_method(t, "get_jacobian", [xi, eta], {})
                s = it.call_method(t, "get_orig_from_ref_second_derivative", [xx, xy, yy, xi, eta], {})
                om = it.call_method(t, "get_original_from_ref", [xi, eta], {})
                js = it.call_method(t, "get_jacobian", [X, Y], {})
                return [[j0, j1, j2, js], [list(it.concrete_items(v)) for v in (g, g2, g3, s, g0, s0)], om, [xi, eta, rx, ry, xx, xy, yy]]
            for o in ck.single(it, run, func=F):
                it.restore(o.state)
                js, gs, om, ins = o.value
                q, i = T.fresh("q", "I", 0, Q), T.fresh("i", "I", 0, N)
                r = T.fresh("q", "I", 0, R)
                at = lambda nm, *I: T.rawapp(nm, I, "R")
                for nm, j, (x, y), sh in (("jacobian", js[0], (at("xi", q), at("eta", q)), q), ("jacobian of other points", js[1], (at("xi2", r), at("eta2", r)), r),
                                          ("jacobian again", js[2], (at("xi", q), at("eta", q)), q), ("jacobian at one point", js[3], (X, Y), None)):
                    a = it.arr(j)
                    if a.ndim == 0:
                        # the affine Jacobian is one number for all points
                        if kind == "bilinear" and sh is not None:
                            ck.fact(f"{nm} has one entry per point", False, F)
                            continue
                        v = a.at()
                    else:
                        ck.oblige(f"{nm} has one entry per point", T.and_(T.lift(a.ndim == 1), T.eq(T.lift(a.shape[0]), {q: Q, r: R}.get(sh, T.ONE))), it.pc, F)
                        v = a.at(sh if sh is not None else 0)
                    ck.equal(f"{nm} = |det of the derivative of the map|", v, T.absv(det(X, Y, m, x, y)), it.pc, F)
                for nm, g, (tx, ty), (x, y), p, M in (("first derivatives", gs[0], ("rx", "ry"), ("xi", "eta"), q, Q), ("first derivatives after other calls", gs[1], ("rx", "ry"), ("xi", "eta"), q, Q),
                                                      ("first derivatives at other points", gs[2], ("sx", "sy"), ("xi2", "eta2"), r, R),
                                                      ("first derivatives of a fresh cell", gs[4], ("rx", "ry"), ("xi", "eta"), q, Q)):
                    if not ck.fact(f"{nm}: two tables", len(g) == 2, F):
                        continue
                    gx, gy = it.arr(g[0]), it.arr(g[1])
                    ok = True
                    for lab, a in (("x", gx), ("y", gy)):
                        ok &= ck.fact(f"{nm} {lab} rank", a.ndim == 2, F)
                        if ok:
                            ok &= ck.oblige(f"{nm} {lab} shape", T.and_(T.eq(T.lift(a.shape[0]), N), T.eq(T.lift(a.shape[1]), M)), it.pc, F)
                    if not ok:
                        continue
                    J = jac(X, Y, m, at(x, p), at(y, p))
                    ass = list(it.pc) + [T.ne(T.sub(T.mul(J[0][0], J[1][1]), T.mul(J[0][1], J[1][0])), 0)]
                    for c, tn in ((0, tx), (1, ty)):
                        lhs = T.add(T.mul(gx.at(i, p), J[0][c]), T.mul(gy.at(i, p), J[1][c]))
                        ck.equal(f"{nm}: chain rule d/d{'xi' if c == 0 else 'eta'}", lhs, at(tn, i, p), ass, F)
                for c in range(2):
                    a = it.arr(om)
                    if a.ndim == 2:
                        ck.equal(f"map of all points ({'xy'[c]})", a.at(c, q), T.subst(m[c], {X: at("xi", q), Y: at("eta", q)}), it.pc, F)
                for pre, gg in (("second derivatives", gs[3]), ("second derivatives of a fresh cell", gs[5])) if kind == "affine" else ():
                    s = [it.arr(v) for v in gg]
                    if ck.fact(f"{pre}: three tables", len(s) == 3 and all(a.ndim == 2 for a in s), F):
                        J = jac(X, Y, m, at("xi", q), at("eta", q))
                        uxx, uxy, uyy = [a.at(i, q) for a in s]
                        for lab, a in zip(("xx", "xy", "yy"), s):
                            ck.oblige(f"{pre} {lab} shape", T.and_(T.eq(T.lift(a.shape[0]), N), T.eq(T.lift(a.shape[1]), Q)), it.pc, F)
                        for lab, c, d in (("xx", 0, 0), ("xy", 0, 1), ("yy", 1, 1)):
                            lhs = T.add(T.mul(J[0][c], J[0][d], uxx), T.mul(T.add(T.mul(J[0][c], J[1][d]), T.mul(J[0][d], J[1][c])), uxy), T.mul(J[1][c], J[1][d], uyy))
                            ck.equal(f"{pre}: chain rule {lab}", lhs, at("r" + lab, i, q), it.pc, F)
                for nm, ref in zip(("xi", "eta", "rx", "ry", "rxx", "rxy", "ryy"), ins):
                    sh = (Q,) if nm in ("xi", "eta") else (N, Q)
                    ck.arrays_equal(it, f"frame {nm}", it.arr(ref), sh, lambda *I, nm=nm: T.rawapp(nm, I, "R"), F)


def jac(X, Y, m, x, y):
    return [[T.subst(D(m[c], z), {X: x, Y: y}) for z in (X, Y)] for c in range(2)]


def det(X, Y, m, x, y):
    J = jac(X, Y, m, x, y)
    return T.sub(T.mul(J[0][0], J[1][1]), T.mul(J[0][1], J[1][0]))


def nondeg(X, Y, m, x, y):
    return T.ne(det(X, Y, m, x, y), 0)
