"""C08  Dirichlet data pair every boundary point with its own boundary value."""
from pyvc import terms as T
from pyvc.values import *
from .common import *
from .space import Space, scalar_f, boundary


def verify(ck):
    for vec in (False, True):
        F = "Fespace2D.generate_dirichlet_boundary_data" + ("_vector" if vec else "")
        with ck.section("component data" if vec else "scalar data", F):
            one(ck, vec, F)
        with ck.section(("component" if vec else "scalar") + " data, points with three coordinates", F):
            with ck.part("three coordinates"):
                one(ck, vec, F, 3)


def one(ck, vec, F, cols=2):
    it = ck.interp()
    sp = Space(ck, it, F=F)
    M = T.var("components", "I", 1)
    B, nb, _, _ = boundary(it)
    comp = T.var("comp", "I", 0, M)

    def run():
        sp.abstract()
        _, _, bpts, bfun = boundary(it, cols=cols)
        s = sp.new(scalar_f("f"), bpts=bpts, bfun=bfun)
        if vec:
            _, _, bp2, bf2 = boundary(it, M, cols=cols)
            it.setattr(s, "boundary_points", bp2)
            it.setattr(s, "bound_function_dict", bf2)
            r = [it.concrete_items(it.call_method(s, "generate_dirichlet_boundary_data_vector", [comp], {})) for _ in range(2)]
        else:
            r = [it.concrete_items(it.getattr(s, "dirichlet_boundary_data"))] + [it.concrete_items(it.call_method(s, "generate_dirichlet_boundary_data", [], {})) for _ in range(2)]
        return [r, it.getattr(s, "total_dirichlet_dofs"), [[it.call(it.libmod.BUILTINS["len"], [x], {}) for x in p] for p in r]]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        rs, total, lens = o.value
        k0 = T.fresh("k", "I", 0, B)
        N = T.sumr(k0, B, nb(k0))
        k = T.fresh("k", "I", 0, B)
        j = T.fresh("j", "I", 0, nb(k))
        kk = T.fresh("k", "I", 0, k)
        at = T.add(T.sumr(kk, k, nb(kk)), j)
        prefix_lemma(ck, it, nb, k, j, B, F)
        p = [T.rawapp("bp", (k, j, T.lift(d)), "R") for d in range(2)]
        v = T.rawapp("bfv", (k, comp, *p), "R") if vec else T.rawapp("bf", (k, *p), "R")
        ck.equal("reported number of Dirichlet points = number of pairs", total, N, it.pc, F)
        for lab, r, ln in zip(("stored data", "data", "data again"), rs, lens):
            if not ck.fact(f"{lab}: points and values", len(r) == 2, F):
                continue
            for what, L in zip(("points", "values"), ln):
                ck.equal(f"{lab}: number of {what}", L, N, it.pc, F)
            x, y = it.arr(it.getitem(r[0], at)), it.arr(it.getitem(r[1], at))
            ck.arrays_equal(it, f"{lab}: point number offset(k)+j is point j of tag k", x, (2,), lambda d: T.ite(T.eq(d, 0), p[0], p[1]), F)
            ck.arrays_equal(it, f"{lab}: its value is that tag's function there", y, (1, 1), lambda a, b: v, F)
