"""C09  The generated mesh tiles the rectangle; boundary points lie on their sides."""
from pyvc import terms as T
from pyvc.values import *
from pyvc import lib as L
from .common import *
from .C18 import geometry

F = "Geometry_2D.generate_quad_mesh_internal"


def verify(ck):
    with ck.section("mesh generation", F, secs=120):
        mesh(ck)


def mesh(ck):
    it, G = geometry(ck)
    # two meshes generated by one geometry object: both results are checked at the end, so the second mesh neither
    # depends on the first nor changes what was returned for it; its limits are Python integers
    jobs = []
    for s in ("", "_2"):
        nx, ny, nb = T.var("n_cells_x" + s, "I", 1), T.var("n_cells_y" + s, "I", 1), T.var("num_boundary_points" + s, "I", 4)
        x0, x1, y0, y1 = (T.var(v + s, "I" if s else "R") for v in ("x_min", "x_max", "y_min", "y_max"))
        it.assume(T.lt(x0, x1))
        it.assume(T.lt(y0, y1))
        jobs.append((nx, ny, nb, x0, x1, y0, y1))

    def run():
        g = it.instantiate(G, ["quadrilateral", "internal", 5, 7, "out", True], {})
        out = []
        for nx, ny, nb, x0, x1, y0, y1 in jobs:
            r = it.call_method(g, "generate_quad_mesh_internal", [(x0, x1), (y0, y1), nx, ny, nb], {})
            out.append((r, it.getattr(g, "mesh")))
        return out
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        for n, ((nx, ny, nb, x0, x1, y0, y1), (r, m)) in enumerate(zip(jobs, o.value)):
            with ck.part(f"{'first' if n == 0 else 'second'} mesh"):
                cells, bd = it.concrete_items(r)
                X = lambda i: T.add(x0, T.mul(i, T.div(T.sub(x1, x0), nx)))
                Y = lambda j: T.add(y0, T.mul(j, T.div(T.sub(y1, y0), ny)))
                cells_spec(ck, it, it.arr(cells), nx, ny, X, Y)
                meshobj(ck, it, m, it.arr(cells), nx, ny)
                boundary(ck, it, bd, nb, x0, x1, y0, y1)


def cells_spec(ck, it, c, nx, ny, X, Y):
    if not ck.fact("cells: n x 4 x 2 array", c.ndim == 3 and c.shape[1] == 4 and c.shape[2] == 2, F, str(c.shape)):
        return
    ck.equal("number of cells", c.shape[0], T.mul(nx, ny), it.pc, F)
    i, j = T.fresh("i", "I", 0, nx), T.fresh("j", "I", 0, ny)
    # (i, j) -> i*ny+j and (i, j) -> j*nx+i are bijections of the grid onto the cell numbers; either order is accepted
    k = T.add(T.mul(i, ny), j)
    if ny is not nx and it.truth(T.eq(c.at(k, 0, 0), X(i))) is not True and it.truth(T.eq(c.at(T.add(T.mul(j, nx), i), 0, 0), X(i))) is True:
        k = T.add(T.mul(j, nx), i)
    for v, (name, a, b) in enumerate((("lower left", 0, 0), ("lower right", 1, 0), ("upper right", 1, 1), ("upper left", 0, 1))):
        ck.equal(f"grid cell (i,j): corner {v} is the {name} one, x", c.at(k, v, 0), X(T.add(i, a)), it.pc, F)
        ck.equal(f"grid cell (i,j): corner {v} is the {name} one, y", c.at(k, v, 1), Y(T.add(j, b)), it.pc, F)


def meshobj(ck, it, m, c, nx, ny):
    if not ck.fact("self.mesh is a mesh object", isinstance(it.content(m) if isinstance(m, Ref) else m, Opaque), F, str(m)[:80]):
        return
    p = it.arr(it.getattr(m, "points"))
    q = it.arr(it.getitem(it.getattr(m, "cells_dict"), "quad"))
    if not ck.fact("mesh object: quads of four points with two coordinates", q.ndim == 2 and q.shape[1] == 4 and p.ndim == 2 and p.shape[1] in (2, 3), F, f"{q.shape} {p.shape}"):
        return
    ck.equal("mesh object: number of quads", q.shape[0], T.mul(nx, ny), it.pc, F)
    k = T.fresh("k", "I", 0, T.mul(nx, ny))
    for v in range(4):
        n = T.lift(q.at(k, v))
        ck.oblige(f"mesh object: vertex {v} of quad k is a point of the mesh", T.and_(T.ge(n, 0), T.lt(n, p.shape[0])), it.pc, F)
        for d in range(2):
            ck.equal(f"mesh object: vertex {v} of quad k is that corner of cell k, coordinate {d}", p.at(n, d), c.at(k, v, d), it.pc, F)


def boundary(ck, it, bd, nb, x0, x1, y0, y1):
    d = it.content(bd)
    if not ck.fact("boundary dictionary", isinstance(d, DictC), F, type(d).__name__):
        return
    keys = sorted(it.concrete_items(it.call(it.getattr(bd, "keys"), [], {})), key=str)
    if not ck.fact("boundary tags are 1000, 1001, 1002, 1003", keys == [1000, 1001, 1002, 1003], F, str(keys)):
        return
    n = T.idiv(nb, T.lift(4))
    for tag, side, ax, fixed, lo, hi in ((1000, "bottom", 1, y0, x0, x1), (1001, "right", 0, x1, y0, y1), (1002, "top", 1, y1, x0, x1), (1003, "left", 0, x0, y0, y1)):
        a = it.arr(it.getitem(bd, tag))
        if not ck.fact(f"{side}: two columns", a.ndim == 2 and a.shape[1] == 2, F, str(a.shape)):
            continue
        ck.equal(f"{side}: number of points", a.shape[0], n, it.pc, F)
        p = T.fresh("p", "I", 0, n)
        ck.equal(f"{side}: fixed coordinate", a.at(p, ax), fixed, it.pc, F)
        o = a.at(p, 1 - ax)
        ck.oblige(f"{side}: not before the start of the side", T.le(lo, o), it.pc, F)
        ck.oblige(f"{side}: not behind the end of the side", T.le(o, hi), it.pc, F)
