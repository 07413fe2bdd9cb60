"""C16  Only supported discretisation options are accepted."""
from pyvc import terms as T
from pyvc.values import *
from .common import *
from .space import Space, scalar_f
from .C05 import symcell

TYPES = {"cell_type": ["quadrilateral"], "fe_type": FAMILIES, "quad_type": ["gauss-legendre", "gauss-jacobi"], "transformation": ["affine", "bilinear"]}


def member(v, names):
    return T.or_(*[T.eq(v, T.strc(s)) for s in names])


def decide(ck, it, run, valid, func, ok_name="accepted", want_normal=True, want_raise=True):
    """run ends normally iff valid, otherwise with ValueError."""
    outs = it.explore(run)
    seen = set()
    for o in outs:
        it.restore(o.state)
        if o.flow == "normal":
            seen.add("normal")
            ck.oblige(f"{ok_name} only with supported options", valid, it.pc, func)
        else:
            seen.add("raise")
            name = o.exc.cls.name if o.exc is not None else o.flow
            ck.fact(f"rejected with ValueError ({name})", name == "ValueError", func, f"{o.flow} {o.exc} when {[T.show(c) for c in o.conds]}"[:400])
            ck.oblige("rejected only with unsupported options", T.not_(valid), it.pc, func)
    ck.fact("both outcomes reached", ("normal" in seen or not want_normal) and ("raise" in seen or not want_raise), func, str(seen))


def params():
    v = {k: T.var(k, "U") for k in TYPES}
    v["order"], v["Q"] = T.var("fe_order", "I"), T.var("quad_order", "I")
    valid = T.and_(*[member(v[k], TYPES[k]) for k in TYPES], T.ge(v["order"], 2), T.le(v["order"], 999), T.ge(v["Q"], 3), T.le(v["Q"], 9999))
    return v, valid


def verify(ck):
    with ck.section("FE2D_Cell, all options arbitrary", "FE2D_Cell"):
        cell(ck)
    for free in list(TYPES) + ["order", "Q"]:
        with ck.section(f"Fespace2D, unsupported {free}", "Fespace2D"):
            space_rejects(ck, free)
    for tr in TYPES["transformation"]:
        for qt in TYPES["quad_type"]:
            for fam in FAMILIES:
                with ck.section(f"Fespace2D accepts {fam}, {qt}, {tr}", "Fespace2D"):
                    space_accepts(ck, fam, qt, tr)
    with ck.section("Fespace2D, triangle mesh", "Fespace2D"):
        space_rejects(ck, None, cell_type="triangle")
    with ck.section("Geometry_2D", "Geometry_2D.__init__"):
        geometry(ck)


def abstract_all(sp):
    for fam in FAMILIES:
        sp.fam = fam
        sp.abstract()


def cell(ck):
    it = ck.interp()
    sp = Space(ck, it, F="FE2D_Cell")
    v, valid = params()
    V, _ = symcell(it)
    # both maps are regular on the cells
    for g in regular(V):
        it.assume(g)

    def run():
        abstract_all(sp)
        _, coords = symcell(it)
        return it.instantiate(sp.cell_cls, [coords, v["cell_type"], v["order"], v["fe_type"], v["Q"], v["quad_type"], v["transformation"], scalar_f("f")], {})
    decide(ck, it, run, valid, "FE2D_Cell")


def space_rejects(ck, free, cell_type=None):
    """One option has an arbitrary unsupported value, the others are supported."""
    it = ck.interp()
    sp = Space(ck, it, F="Fespace2D")
    v, _ = params()
    kw = {"cell_type": cell_type or "quadrilateral"}
    if free in TYPES:
        it.assume(T.not_(member(v[free], TYPES[free])))
        kw[{"transformation": "fe_transformation_type"}.get(free, free)] = v[free]
    elif free == "order":
        it.assume(T.or_(T.le(v["order"], 1), T.ge(v["order"], 1000)))
        kw["fe_order"] = v["order"]
    elif free == "Q":
        it.assume(T.or_(T.le(v["Q"], 2), T.ge(v["Q"], 10000)))
        kw["quad_order"] = v["Q"]

    sp.decoy = False

    def run():
        sp.abstract()
        return sp.new(scalar_f("f"), **kw)
    decide(ck, it, run, T.FALSE, "Fespace2D", want_normal=False)


def space_accepts(ck, fam, qt, tr):
    it = ck.interp()
    sp = Space(ck, it, fam, qt, tr, F="Fespace2D")

    sp.decoy = False

    def run():
        sp.abstract()
        return sp.new(scalar_f("f"))
    decide(ck, it, run, T.TRUE, "Fespace2D", want_raise=False)


def regular(V):
    x = lambda k: T.sub(V[k][0], V[0][0])
    y = lambda k: T.sub(V[k][1], V[0][1])
    return [T.ne(T.sub(T.mul(x(1), y(3)), T.mul(x(3), y(1))), 0)]


def geometry(ck):
    F = "Geometry_2D.__init__"
    it = ck.interp()
    mt, mg = T.var("mesh_type", "U"), T.var("method", "U")
    nx, ny = T.var("nx", "I", 1), T.var("ny", "I", 1)
    valid = T.and_(T.eq(mt, T.strc("quadrilateral")), T.or_(T.eq(mg, T.strc("internal")), T.eq(mg, T.strc("external"))))

    G = it.module_frame(it.load_module("fastvpinns.Geometry.geometry_2d"))["Geometry_2D"]

    def run():
        return it.instantiate(G, [mt, mg, nx, ny, "out"], {})
    decide(ck, it, run, valid, F)
