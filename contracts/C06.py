"""C06  The load vector is the quadrature integral of source times test function."""
from pyvc import terms as T
from pyvc.values import *
from .common import *
from .space import Space, scalar_f, vector_f


def verify(ck):
    for tr in ("affine", "bilinear"):
        for fam, qt in [(f, "gauss-legendre") for f in FAMILIES] + [("legendre", "gauss-jacobi")]:
            with ck.section(f"scalar source, {fam}, {qt}, {tr}", "Fespace2D.get_forcing_function_values"):
                one(ck, fam, qt, tr, False)
            with ck.section(f"vector source, {fam}, {qt}, {tr}", "Fespace2D.get_forcing_function_values_vector"):
                one(ck, fam, qt, tr, True)


def one(ck, fam, qt, tr, vec):
    F = "Fespace2D.get_forcing_function_values" + ("_vector" if vec else "")
    it = ck.interp()
    sp = Space(ck, it, fam, qt, tr, F)
    sp.decoy = fam == "legendre"  # the other families share the code of the space
    M = T.var("components", "I", 1)
    f0, F0 = scalar_f("f"), vector_f("F", M)
    mode = {}
    # one source object that can serve both accessors (the harness switches it), so that either may precede the other
    f = SymCallable("source", lambda it, x, y: (F0 if mode["vec"] else f0).call(it, x, y))
    c1, c2 = T.var("c1", "I", 0, sp.C), T.var("c2", "I", 0, sp.C)
    k1, k2 = T.var("k1", "I", 0, M), T.var("k2", "I", 0, M)

    def other(s, c, k):
        mode["vec"] = not vec
        it.call_method(s, "get_forcing_function_values" + ("" if vec else "_vector"), [c] if vec else [c, k], {})
        mode["vec"] = vec

    def run():
        mode["vec"] = vec
        sp.abstract()
        s = sp.new(f)
        m = F.split(".")[1]
        a = lambda c, k: [c, k] if vec else [c]
        other(s, c1, k1)
        # a history of calls: the first result must not depend on what came before
        r = [it.call_method(s, m, a(c, k), {}) for c, k in ((c1, k1), (c2, k2), (c1, k1), (c1, k2))]
        cells = [sp.cell(c, f) for c in (c1, c2, c1, c1)]
        return [r, [[it.getattr(x, "basis_at_quad"), it.getattr(x, "quad_actual_coordinates")] for x in cells]]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        rs, cs = o.value
        NN, NQ = T.mul(sp.n, sp.n), T.mul(sp.Q, sp.Q)
        for lab, r, (V, X), k in zip(("cell c1", "then cell c2", "cell c1 again", "cell c1, other component"), rs, cs, (k1, k2, k1, k2)):
            V, X = it.arr(V), it.arr(X)
            q = T.fresh("q", "I", 0, NQ)

            def spec(i, j):
                x, y = X.at(q, 0), X.at(q, 1)
                src = T.rawapp("F", (k, x, y), "R") if vec else T.rawapp("f", (x, y), "R")
                return T.sumr(q, NQ, T.mul(V.at(i, q), src))
            ck.arrays_equal(it, lab, it.arr(r), (NN, T.ONE), spec, F)
