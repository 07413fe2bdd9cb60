"""C07  Space accessors return the right cell's data, isolated from callers."""
from pyvc import terms as T
from pyvc.values import *
from .common import *
from .space import Space, scalar_f, vector_f, TABLES


def verify(ck):
    for tr in ("bilinear", "affine"):
        with ck.section(f"accessors, {tr}", "Fespace2D"):
            accessors(ck, tr)
    for plot in (False, True):
        with ck.section(f"totals{', with mesh plot' if plot else ''}", "Fespace2D.set_finite_elements"):
            totals(ck, plot)
    for m in list(TABLES) + ["get_forcing_function_values", "get_forcing_function_values_vector"]:
        with ck.section(f"range of {m}", f"Fespace2D.{m}"):
            ranges(ck, m)


def accessors(ck, tr):
    it = ck.interp()
    sp = Space(ck, it, tr=tr)
    f = scalar_f("f")
    c, d = T.var("c", "I", 0, sp.C), T.var("d", "I", 0, sp.C)
    allm = list(TABLES) + ["get_forcing_function_values"]

    def read(s, i):
        return [it.call_method(s, m, [i], {}) for m in allm]

    def scribble(r, tag):
        a = it.arr(r)
        it.store_arr(r, Arr(a.shape, lambda *I: T.rawapp("garbage" + tag, tuple(T.lift(x) for x in I), "R"), a.dtype, a.kind))

    def run():
        sp.abstract()
        s = sp.new(f)
        first = read(s, c)
        for r in [first, read(s, d), read(s, c)]:
            for k, x in enumerate(r):
                if r is not first:
                    scribble(x, str(k))
        again = read(s, c)
        for m in reversed(allm):
            scribble(it.call_method(s, m, [c], {}), "x")
            scribble(it.call_method(s, m, [d], {}), "y")
        last = [it.call_method(s, m, [d], {}) for m in reversed(allm)][::-1]
        ref = [[it.getattr(x, a) for a in TABLES.values()] for x in (sp.cell(c, f), sp.cell(d, f))]
        return [first, again, last, ref]
    for o in ck.single(it, run, func="Fespace2D"):
        it.restore(o.state)
        first, again, last, ref = o.value
        NQ = T.mul(sp.Q, sp.Q)
        for lab, rs, rf in (("first call", first, ref[0]), ("after writes into returned arrays", again, ref[0]), ("other cell, reverse order, after writes", last, ref[1])):
            rf = [it.arr(x) for x in rf]
            for m, r, x in zip(allm, rs, rf):
                ck.arrays_equal(it, f"{m}, {lab}", it.arr(r), x.shape, lambda *I, x=x: x.at(*I), f"Fespace2D.{m}")
            V, X = rf[0], rf[5]
            q = T.fresh("q", "I", 0, NQ)
            ck.arrays_equal(it, f"get_forcing_function_values, {lab}", it.arr(rs[-1]), (V.shape[0], T.ONE),
                            lambda i, j: T.sumr(q, NQ, T.mul(V.at(i, q), T.rawapp("f", (X.at(q, 0), X.at(q, 1)), "R"))), "Fespace2D.get_forcing_function_values")


def totals(ck, plot):
    it = ck.interp()
    sp = Space(ck, it)

    def run():
        sp.abstract()
        s = sp.new(scalar_f("f"), generate_mesh_plot=plot)
        return [it.getattr(s, "total_dofs"), it.getattr(s, "n_cells")]
    for o in ck.single(it, run, func="Fespace2D.set_finite_elements"):
        ck.equal("total number of quadrature points = cells * points per cell", o.value[0], T.mul(sp.C, sp.Q, sp.Q), it.pc, "Fespace2D.set_finite_elements")
        ck.equal("number of cells", o.value[1], sp.C, it.pc, "Fespace2D.set_finite_elements")


def ranges(ck, m):
    F = "Fespace2D." + m
    it = ck.interp()
    sp = Space(ck, it)
    i = T.var("index", "I")
    vec = m.endswith("_vector")
    M = T.var("components", "I", 1)

    def run():
        sp.abstract()
        s = sp.new(vector_f("F", M) if vec else scalar_f("f"))
        return it.call_method(s, m, [i, 0] if vec else [i], {})
    outs = it.explore(run)
    ok = T.and_(T.ge(i, 0), T.lt(i, sp.C))
    seen = set()
    for o in outs:
        it.restore(o.state)
        if o.flow == "normal":
            seen.add("in")
            ck.oblige("no exception only for an existing cell", ok, it.pc, F)
        else:
            seen.add("out")
            ck.fact(f"raises ValueError ({o.exc})", o.exc.cls.name == "ValueError", F, str(o.exc))
            ck.oblige("raises only for a missing cell", T.not_(ok), it.pc, F)
    ck.fact("both outcomes occur", seen == {"in", "out"}, F)
