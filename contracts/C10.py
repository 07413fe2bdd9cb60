"""C10  An external mesh is read without losing, moving or mistagging anything.

The file is any mesh: np points with two or three coordinates, nq quadrilaterals, ne tagged edges.  The boundary points
are stated for one arbitrary tag g (pyvc.ghost), hence for all tags."""
from pyvc import terms as T, lib as L, ghost
from pyvc.values import *
from .C18 import geometry

F = "Geometry_2D.read_mesh"


def verify(ck):
    with ck.section("file extension", F):
        extension(ck)
    with ck.section("sampling method", F):
        methods(ck)
    for method in ("uniform", "lhs"):
        with ck.section(f"{method} sampling", F, secs=150):
            mesh(ck, method)
    with ck.section("angles about the centroid", "lemma"):
        angles(ck)


def reader(ck):
    it, G = geometry(ck)
    it.ghost_key = T.var("tag", "I")
    return it, G


def extension(ck):
    it, G = reader(ck)
    f, m = T.var("mesh_file", "U"), T.var("method", "U")
    it.assume(T.not_(T.eq(T.rawapp("suffix", (f,), "U"), T.strc(".mesh"))))
    outs = it.explore(lambda: it.call_method(it.instantiate(G, ["quadrilateral", "external", 5, 7, "out", True], {}), "read_mesh", [f, T.var("r", "I", 0), m, 0], {}))
    bad = [o for o in outs if not (o.flow == "raise" and o.exc.cls.name == "ValueError")]
    ck.fact("another extension than .mesh raises ValueError", not bad, F, "; ".join(f"{o.flow} {o.exc}" for o in bad)[:300])


def methods(ck):
    it, G = reader(ck)
    f, m = T.var("mesh_file", "U"), T.var("method", "U")
    it.assume(T.eq(T.rawapp("suffix", (f,), "U"), T.strc(".mesh")))
    for s in ("uniform", "lhs"):
        it.assume(T.not_(T.eq(m, T.strc(s))))
    outs = it.explore(lambda: it.call_method(it.instantiate(G, ["quadrilateral", "external", 5, 7, "out", True], {}), "read_mesh", [f, T.var("r", "I", 0), m, 0], {}))
    bad = [o for o in outs if not (o.flow == "raise" and o.exc.cls.name == "ValueError")]
    ck.fact("another sampling method raises ValueError", not bad, F, "; ".join(f"{o.flow} {o.exc}" for o in bad)[:300])


def mesh(ck, method):
    it, G = reader(ck)
    # two files read by one geometry object, both results checked at the end
    jobs = [(T.var("mesh_file" + s, "U"), T.var("r" + s, "I", 0)) for s in ("", "_2")]
    for f, _ in jobs:
        it.assume(T.eq(T.rawapp("suffix", (f,), "U"), T.strc(".mesh")))

    def run():
        o = it.instantiate(G, ["quadrilateral", "external", 5, 7, "out", True], {})
        return [it.call_method(o, "read_mesh", [f, r, method, 0], {}) for f, r in jobs]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        for n, ((f, r), v) in enumerate(zip(jobs, o.value)):
            with ck.part(f"{'first' if n == 0 else 'second'} file"):
                cells, bd = it.concrete_items(v)
                cells_spec(ck, it, it.arr(cells), f)
                c = it.content(bd) if isinstance(bd, Ref) else None
                if ck.fact("boundary dictionary", isinstance(c, ghost.GhostDictC) and c.val is not None and c.val.kind == "rows", F, f"{c!r}"):
                    boundary(ck, it, c, f, r, method)


def cells_spec(ck, it, a, f):
    nq = T.rawapp("mesh_nq", (f,), "I")
    if not ck.fact("cells: n x 4 x 2 array", a.ndim == 3 and a.shape[1] == 4 and a.shape[2] == 2, F, str(a.shape)):
        return
    ck.equal("as many cells as the file has", T.lift(a.shape[0]), nq, it.pc, F)
    k = T.fresh("cell", "I", 0, nq)
    P = lambda v, d: T.rawapp("mesh_pt", (f, T.rawapp("mesh_quad", (f, k, T.lift(v)), "I"), T.const(d)), "R")
    cx, cy = (T.div(T.add(*[P(v, d) for v in range(4)]), 4) for d in (0, 1))
    ang = tuple(L.arctan2_t(T.sub(P(v, 1), cy), T.sub(P(v, 0), cx)) for v in range(4))
    for v in range(4):
        s = T.rawapp("argsort4", (T.const(v),) + ang, "I")
        for d in (0, 1):
            ck.equal(f"vertex {v} of cell k is the file's vertex with the {v}. angle about the centroid, coordinate {d}", a.at(k, T.const(v), T.const(d)), P(s, d), it.pc, F)


def angles(ck):
    """Sorting the vertices of a convex cell by their angle about an inner point orders them anticlockwise.

    A, B, C, D anticlockwise about the point: consecutive vertices turn by an angle in (0, pi) (contract of arctan2:
    cross(u, v) > 0 iff angle(v) - angle(u) is in (0, pi) or in (-2 pi, -pi)).  Then the ascending order of the four
    angles is one of the rotations ABCD, BCDA, CDAB, DABC."""
    pi = T.var("pi", "R")
    th = [T.var(f"angle_{c}", "R") for c in "ABCD"]
    ass = [T.gt(pi, 0)]
    for t in th:
        ass += [T.gt(t, T.neg(pi)) if hasattr(T, "neg") else T.gt(t, T.mul(-1, pi)), T.le(t, pi)]
    for a in range(4):
        d = T.sub(th[(a + 1) % 4], th[a])
        ass.append(T.or_(T.and_(T.gt(d, 0), T.lt(d, pi)), T.and_(T.gt(d, T.mul(-2, pi)), T.lt(d, T.mul(-1, pi)))))
    rot = [T.and_(*[T.lt(th[(s + j) % 4], th[(s + j + 1) % 4]) for j in range(3)]) for s in range(4)]
    ck.oblige("ascending angles are a rotation of the anticlockwise order", T.or_(*rot), ass, "lemma")


def point(f, e, v, c):
    return T.rawapp("mesh_pt", (f, T.rawapp("mesh_line", (f, e, T.const(v)), "I"), c), "R")


def boundary(ck, it, c, f, r, method):
    ne = T.rawapp("mesh_ne", (f,), "I")
    g = it.ghost_key
    tag = lambda e: T.rawapp("mesh_tag", (f, T.lift(e)), "I")
    e0 = T.fresh("edge", "I", 0, ne)
    ck.oblige("a tag is a key if and only if an edge carries it", T.iff(c.pres, T.red("any", e0, ne, T.eq(tag(e0), g))), it.pc, F)
    b = c.val
    if not ck.fact("all returned points are known to come from edges", b.known and bool(b.gens), F, "some points are of unknown origin"):
        return
    ck.oblige("points have at least two coordinates", T.ge(T.lift(b.d), 2), it.pc, F)
    R = T.power2(r) if hasattr(T, "power2") else it.arr(it.call(it.libmod.BUILTINS["pow"], [2, r], {})).at()
    col = T.fresh("coordinate", "I", 0, T.lift(b.d))
    for n, gen in enumerate(b.gens):
        lab = f"point group {n}: " if len(b.gens) > 1 else ""
        row = gen.row(col)
        pc = it.pc + [gen.cond]
        # the edge a point belongs to: the variable whose end points occur in its coordinates
        es = [v for v, hi in gen.vs if T.sub(hi, ne) is T.ZERO and v in row.fv]
        ok = None
        for e in es:
            s = fraction(row, point(f, e, 0, col), point(f, e, 1, col))
            if s is not None:
                ok = (e, s)
        if not ck.fact(lab + "points are combinations of the end points of one edge", ok is not None, F, T.show(row)[:300], bad="unknown"):
            continue
        e, s = ok
        ck.equal(lab + "points lie on the line of the edge", row, T.add(T.mul(T.sub(1, s), point(f, e, 0, col)), T.mul(s, point(f, e, 1, col))), pc, F)
        ck.fact(lab + "one position on the edge for all coordinates", col not in s.fv, F, T.show(s)[:200])
        ck.oblige(lab + "points lie between the end points", T.and_(T.ge(s, 0), T.le(s, 1)), pc, F)
        ck.oblige(lab + "the edge carries the tag", T.eq(tag(e), g), pc, F)
    if method != "uniform":
        return
    ck.fact("no duplicates within a tag", b.unique, F, "duplicate points are not removed")
    e, j = T.fresh("edge", "I", 0, ne), T.fresh("j", "I", 0, T.add(R, 1))
    found = False
    for gen in b.gens:
        ev = [v for v, hi in gen.vs if T.sub(hi, ne) is T.ZERO]
        pv = [(v, hi) for v, hi in gen.vs if v not in ev]
        if len(ev) != 1 or len(pv) != 1:
            continue
        pc = it.pc + [T.eq(tag(e), g)]
        # the group with edge := e and position := j is the j-th of the 2^r+1 equally spaced points
        for w in (j, T.sub(R, j)):
            m = {ev[0]: e, pv[0][0]: w}
            row = T.subst(gen.row(col), m)
            spec = T.add(point(f, e, 0, col), T.mul(T.div(j, R), T.sub(point(f, e, 1, col), point(f, e, 0, col))))
            if T.sub(row, spec) is T.ZERO or w is not j and not found:
                found = True
                ck.oblige("every edge with the tag contributes", T.subst(gen.cond, m), pc, F)
                ck.oblige("every edge contributes 2^r+1 points", T.and_(T.ge(w, 0), T.lt(w, T.subst(pv[0][1], m))), pc, F)
                ck.equal("the points of an edge are equally spaced with both end points", row, spec, pc, F)
                break
    ck.fact("the points of every edge are returned", found, F, "no group of points runs over all edges", bad="unknown")


def fraction(row, a, b):
    """s with row = (1 - s) a + s b, read off the coefficient of b."""
    if row.op != "poly":
        return T.ZERO if row is a else T.ONE if row is b else None
    m = {a: T.ZERO, b: T.ONE}
    z = T.replace_atoms(row, {a: T.ZERO, b: T.ZERO})
    s = T.sub(T.replace_atoms(row, m), z)
    return s
