"""C03  Quadrature rules pair every node with its own weight on a tensor grid."""
from pyvc import terms as T, smt
from pyvc.values import *
from .common import *


def rule(qtype, Q, k):
    """Node and weight number k of the one-dimensional Q-point rule."""
    if qtype == "gauss-legendre":
        return T.app("GLx", (Q, k), "R"), T.app("GLw", (Q, k), "R")
    x = T.ite(T.eq(k, 0), T.const(-1), T.ite(T.eq(k, T.sub(Q, 1)), T.ONE, T.app("GJx", (T.sub(Q, 2), T.ONE, T.ONE, T.sub(k, 1)), "R")))
    c = T.div(2, T.mul(Q, T.sub(Q, 1)))
    inner = T.app("GJx", (T.sub(Q, 2), T.ONE, T.ONE, T.sub(k, 1)), "R")
    p = P(T.sub(Q, 1), 0, 0, inner)
    w = T.ite(T.or_(T.eq(k, 0), T.eq(k, T.sub(Q, 1))), c, T.div(2, T.mul(Q, T.sub(Q, 1), p, p)))
    return x, w


def verify(ck):
    types = ["gauss-legendre", "gauss-jacobi"]
    with ck.section("tensor rule", "Quadratureformulas_Quad2D"):
        it = ck.interp()
        Q1, Q2 = T.var("Q", "I", 3, 10000), T.var("Q2", "I", 3, 10000)
        seq = [(t, Q) for Q in (Q1, Q2) for t in types] + [(types[0], Q1)]

        def run():
            fr = it.module_frame(it.load_module(FE + "fe2d_setup_main"))
            out = []
            for t, Q in seq:
                s = it.instantiate(fr["FE2DSetupMain"], ["quadrilateral", 3, "legendre", Q, t], {})
                r = list(it.concrete_items(it.call_method(s, "assign_quadrature_rules", [], {})))
                out.append(r)
                # the caller may write to what it was given: later rules (and earlier ones) are not affected
                g = list(it.concrete_items(it.call_method(it.instantiate(fr["FE2DSetupMain"], ["quadrilateral", 3, "legendre", Q, t], {}), "assign_quadrature_rules", [], {})))
                for x in g:
                    it.setitem(x, 0, T.const(7))
            return out
        for o in ck.single(it, run, func="Quadratureformulas_Quad2D"):
            it.restore(o.state)
            for no, ((t, Q), got) in enumerate(zip(seq, o.value)):
                nm = f"{t} rule #{no}"
                if not ck.fact(f"{nm} (weights, xi, eta)", len(got) == 3, "get_quad_values"):
                    continue
                w, x, y = [it.arr(g) for g in got]
                ok = True
                for lab, a in (("weights", w), ("xi", x), ("eta", y)):
                    ok &= ck.fact(f"{nm} {lab} rank", a.ndim == 1, "get_quad_values", f"rank {a.ndim}")
                    if ok:
                        ok &= ck.oblige(f"{nm} {lab} has Q*Q entries", T.eq(T.lift(a.shape[0]), T.mul(Q, Q)), it.pc, "get_quad_values")
                if not ok:
                    continue
                i, j = T.fresh("i", "I", 0, Q), T.fresh("j", "I", 0, Q)
                p = T.add(T.mul(Q, i), j)
                (xi_, wi), (xj, wj) = rule(t, Q, i), rule(t, Q, j)
                # the points may be numbered either way round
                first = smt.prove(T.eq(x.at(p), xj), list(it.pc))
                sx, sy = (xj, xi_) if first else (xi_, xj)
                ck.equal(f"{nm} xi is the tensor grid node", x.at(p), sx, it.pc, "get_quad_values")
                ck.equal(f"{nm} eta is the tensor grid node", y.at(p), sy, it.pc, "get_quad_values")
                ck.equal(f"{nm} weight is the product of the weights of its own nodes", w.at(p), T.mul(wi, wj), it.pc, "get_quad_values")
    with ck.section("product integrals", "Quadratureformulas_Quad2D"):
        # lemma: with the element contract above the double sum is the product of the one-dimensional sums
        f = lambda t: T.rawapp("f", (t,), "R")
        g = lambda t: T.rawapp("g", (t,), "R")
        W = lambda k: T.rawapp("w1", (T.lift(k),), "R")
        X = lambda k: T.rawapp("x1", (T.lift(k),), "R")
        Q = T.var("Q", "I", 3, 10000)
        i, j = T.fresh("i", "I", 0, Q), T.fresh("j", "I", 0, Q)
        for nm, sx, sy in (("xi fast", X(j), X(i)), ("eta fast", X(i), X(j))):
            lhs = T.sumr(i, Q, T.sumr(j, Q, T.mul(W(i), W(j), f(sx), g(sy))))
            k = T.fresh("k", "I", 0, Q)
            rhs = T.mul(T.sumr(k, Q, T.mul(W(k), f(X(k)))), T.sumr(k, Q, T.mul(W(k), g(X(k)))))
            ck.equal(f"sum of w*f*g is the product of the one-dimensional sums ({nm})", lhs, rhs, [], "lemma")
