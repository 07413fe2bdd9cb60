"""C02  Test functions are the documented tensor-product family."""
from pyvc import terms as T
from pyvc.values import *
from .common import *


def verify(ck):
    for fam in FAMILIES:
        order = T.var("order", "I", 2, 1000)
        Q, R = T.var("Q", "I", 1), T.var("R", "I", 1)
        with ck.section(f"value[{fam}]", "value"):
            it = ck.interp()
            box = {}

            def run():
                b = make_basis(it, fam, order)
                xi, eta = points(it, Q, "xi", "eta")
                x2, y2 = points(it, R, "xi2", "eta2")
                v1 = it.call_method(b, "value", [xi, eta], {})
                v2 = it.call_method(b, "value", [x2, y2], {})
                v3 = it.call_method(b, "value", [xi, eta], {})
                return [b, xi, eta, x2, y2, v1, v2, v3]
            for o in ck.single(it, run, func="value"):
                it.restore(o.state)
                b, xi, eta, x2, y2, v1, v2, v3 = o.value
                n = order
                i, j = T.fresh("i", "I", 0, n), T.fresh("j", "I", 0, n)
                for nm, v, (sx, sy), N in (("first call", v1, ("xi", "eta"), Q), ("other points", v2, ("xi2", "eta2"), R), ("repeated call", v3, ("xi", "eta"), Q)):
                    q = T.fresh("q", "I", 0, N)
                    a = it.arr(v)
                    if not ck.fact(nm + " rank", a.ndim == 2, "value", f"rank {a.ndim}"):
                        continue
                    ck.oblige(nm + " one row per test function", T.eq(T.lift(a.shape[0]), T.mul(n, n)), it.pc, "value")
                    ck.oblige(nm + " one column per point", T.eq(T.lift(a.shape[1]), N), it.pc, "value")
                    x, y = T.rawapp(sx, (q,), "R"), T.rawapp(sy, (q,), "R")
                    ck.equal(nm + " entry = phi_(i+1)(xi)*phi_(j+1)(eta)", a.at(T.add(T.mul(n, i), j), q),
                             T.mul(phi(fam, T.add(i, 1), x), phi(fam, T.add(j, 1), y)), it.pc, "value")
                for nm, r, N in (("xi", xi, Q), ("eta", eta, Q)):
                    ck.arrays_equal(it, f"frame {nm}", it.arr(r), (N,), lambda q, nm=nm: T.rawapp(nm, (q,), "R"), "value")
                nsf = it.getattr(b, "num_shape_functions")
                ck.equal("n*n test functions", T.lift(nsf), T.mul(n, n), it.pc, "__init__")
        if fam != "jacobi_plain":
            with ck.section(f"boundary[{fam}]", "value"):
                it = ck.interp()

                def run():
                    b = make_basis(it, fam, order)
                    eta, = points(it, Q, "eta")
                    out = []
                    for s in (1, -1):
                        c = it.new_arr(Arr((Q,), lambda q: T.lift(s)))
                        out.append(it.call_method(b, "value", [c, eta], {}))
                        out.append(it.call_method(b, "value", [eta, c], {}))
                    return out
                for o in ck.single(it, run, func="value"):
                    it.restore(o.state)
                    n = order
                    i, j = T.fresh("i", "I", 0, n), T.fresh("j", "I", 0, n)
                    q = T.fresh("q", "I", 0, Q)
                    for nm, v in zip(("right", "top", "left", "bottom"), o.value):
                        a = it.arr(v)
                        if ck.fact("rank", a.ndim == 2, "value"):
                            ck.equal(f"vanishes on the {nm} side", a.at(T.add(T.mul(n, i), j), q), T.ZERO, it.pc, "value")
