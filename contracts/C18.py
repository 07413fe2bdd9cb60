"""C18  Test points and solution files keep points and values aligned."""
from pyvc import terms as T
from pyvc.values import *
from pyvc import lib as L
from pyvc.iolib import pathterm, array_text
from .common import *

MOD = "fastvpinns.Geometry.geometry_2d"


def geometry(ck):
    it = ck.interp()
    return it, it.module_frame(it.load_module(MOD))["Geometry_2D"]


def verify(ck):
    with ck.section("internal mesh", "Geometry_2D.get_test_points"):
        internal(ck, False)
    with ck.section("internal mesh, limits set by the mesh generation", "Geometry_2D.get_test_points"):
        internal(ck, True)
    with ck.section("external mesh", "Geometry_2D.get_test_points"):
        external(ck)
    with ck.section("stored VTK file, internal mesh", "Geometry_2D.generate_vtk_for_test"):
        stored(ck)
    for method in ("internal", "external"):
        with ck.section(f"solution file, {method} mesh", "Geometry_2D.write_vtk"):
            vtk(ck, method)


def internal(ck, gen):
    F = "Geometry_2D.get_test_points"
    it, G = geometry(ck)
    nx, ny = T.var("n_test_x", "I", 2), T.var("n_test_y", "I", 2)
    # limits of the second rectangle are Python integers
    rects = [tuple(T.var(v + s, sort) for v in ("x_min", "x_max", "y_min", "y_max")) for s, sort in (("", "R"), ("_2", "I"))]
    for x0, x1, y0, y1 in rects:
        it.assume(T.lt(x0, x1))
        it.assume(T.lt(y0, y1))

    def run():
        g = it.instantiate(G, ["quadrilateral", "internal", nx, ny, "out", True], {})
        out = []
        for x0, x1, y0, y1 in rects:
            if gen:
                it.call_method(g, "generate_quad_mesh_internal", [(x0, x1), (y0, y1), 2, 3, 8], {})
            else:
                it.setattr(g, "x_limits", (x0, x1))
                it.setattr(g, "y_limits", (y0, y1))
            out += [it.call_method(g, "get_test_points", [], {}) for _ in range(2)]
        return out
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        i, j = T.fresh("i", "I", 0, nx), T.fresh("j", "I", 0, ny)
        for lab, rect, r in zip(("first call", "second call", "first call after another rectangle", "second call after another rectangle"), (0, 0, 1, 1), o.value):
            x0, x1, y0, y1 = rects[rect]
            p = it.arr(r)
            if not ck.fact(f"{lab}: two columns", p.ndim == 2 and p.shape[1] == 2, F, str(p.shape)):
                continue
            ck.equal(f"{lab}: number of points", p.shape[0], T.mul(nx, ny), it.pc, F)
            k = T.add(T.mul(j, nx), i)
            ck.equal(f"{lab}: x of point j*nx+i", p.at(k, 0), T.add(x0, T.mul(i, T.div(T.sub(x1, x0), T.sub(nx, 1)))), it.pc, F)
            ck.equal(f"{lab}: y of point j*nx+i", p.at(k, 1), T.add(y0, T.mul(j, T.div(T.sub(y1, y0), T.sub(ny, 1)))), it.pc, F)
            for what, a, b, c, d in (("lower left", T.ZERO, T.ZERO, x0, y0), ("upper right", T.sub(nx, 1), T.sub(ny, 1), x1, y1)):
                k = T.add(T.mul(b, nx), a)
                ck.equal(f"{lab}: {what} corner x", p.at(k, 0), c, it.pc, F)
                ck.equal(f"{lab}: {what} corner y", p.at(k, 1), d, it.pc, F)


def stored(ck):
    """Generating a mesh stores out/internal.vtk: the mesh gmsh made of the rectangle."""
    F = "Geometry_2D.generate_vtk_for_test"
    it, G = geometry(ck)
    x0, x1, y0, y1 = (T.var(v, "R") for v in ("x_min", "x_max", "y_min", "y_max"))
    it.assume(T.lt(x0, x1))
    it.assume(T.lt(y0, y1))

    def run():
        g = it.instantiate(G, ["quadrilateral", "internal", T.var("n_test_x", "I", 2), T.var("n_test_y", "I", 2), "out"], {})
        it.call_method(g, "generate_quad_mesh_internal", [(x0, x1), (y0, y1), 2, 3, 8], {})
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        ev = [e for e in it.log if e[0] in ("gmsh_point", "gmsh_written", "mesh_written")]
        pts = [e for e in ev if e[0] == "gmsh_point"]
        if len(pts) != 4:
            raise Unsupported(f"{len(pts)} points in the geometry of the rectangle")
        for k, (e, w) in enumerate(zip(pts, ((x0, y0), (x1, y0), (x1, y1), (x0, y1)))):
            for a, b, nm in ((e[1], w[0], "x"), (e[2], w[1], "y"), (e[3], T.ZERO, "z")):
                ck.equal(f"corner {k} of the meshed domain ({nm})", T.lift(a), b, it.pc, F)
        files = [e for e in ev if e[0] != "gmsh_point"]
        if not ck.fact("gmsh writes one mesh file, which is converted", [e[0] for e in files] == ["gmsh_written", "mesh_written"], F, str(files)[:200]):
            continue
        ck.oblige("the converted file is the one gmsh wrote", T.eq(files[1][2], files[0][1]), it.pc, F)
        ck.oblige("it is stored as internal.vtk", T.eq(files[1][1], pathterm(it, L.mk_path(("out", "/", "internal.vtk")))), it.pc, F)


def external(ck):
    """After read_mesh's VTK export: the test points are the points of the .mesh file."""
    F = "Geometry_2D.get_test_points"
    it, G = geometry(ck)

    def run():
        g = it.instantiate(G, ["quadrilateral", "external", 3, 4, "out"], {})
        out = []
        for n in ("domain.mesh", "other.mesh"):
            it.setattr(g, "mesh_file_name", n)
            it.call_method(g, "generate_vtk_for_test", [], {})
            out.append(it.call_method(g, "get_test_points", [], {}))
        return out
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        for n, v in zip(("domain.mesh", "other.mesh"), o.value):
            f = T.strc(n)
            ck.arrays_equal(it, f"the points of the mesh file {n} in order", it.arr(v), (T.rawapp("mesh_np", (f,), "I"), 2), lambda i, d: T.rawapp("mesh_pt", (f, i, d), "R"), F)


def vtk(ck, method):
    F = "Geometry_2D.write_vtk"
    it, G = geometry(ck)
    R, N, M = T.var("rows", "I", 1), T.var("columns", "I", 1), T.var("names", "I", 0)
    out, dst, fn = (T.var(v, "U") for v in ("output_folder", "output_path", "filename"))
    name = lambda k: T.rawapp("data_name", (T.lift(k),), "U")
    sol = lambda i, k: T.rawapp("sol", (T.lift(i), T.lift(k)), "R")

    def run():
        g = it.instantiate(G, ["quadrilateral", method, 3, 4, out], {})
        names = it.alloc(ListC((Seg(M, name),)))
        return it.call_method(g, "write_vtk", [it.new_arr(Arr((R, N), sol)), dst, fn, names], {})
    outs = it.explore(run)
    src = pathterm(it, L.mk_path((out, "/", method + ".vtk")))
    target = pathterm(it, L.mk_path((dst, "/", fn)))
    nl = T.rawapp("lines", (src,), "I")
    line = lambda k: T.rawapp("line", (src, T.lift(k)), "U")
    done = False
    for o in outs:
        it.restore(o.state)
        if o.flow == "raise":
            ck.fact("a mismatch raises ValueError", o.exc.cls.name == "ValueError", F, str(o.exc))
            ck.oblige("ValueError only for a mismatch of columns and names", T.ne(N, M), it.pc, F)
            ck.fact("nothing written on a mismatch", not [e for e in it.log if e[0] == "open_w"], F)
            continue
        done = True
        ck.oblige("a mismatch of columns and names does not pass", T.eq(N, M), it.pc, F)
        files = [e for e in it.log if e[0] == "open_w"]
        if not ck.fact("exactly one file is written", len(files) == 1, F, str(files)[:200]):
            continue
        ck.oblige("it is the requested file", T.eq(files[0][1], target), it.pc, F)
        content(ck, it, it.content(files[0][2]), src, nl, line, R, N, name, sol, F)
    ck.fact("a matching call writes the file", done, F)


def content(ck, it, c, src, nl, line, R, N, name, sol, F):
    segs = list(c.segs)
    # the mesh part: lines 0 .. p, p the first one with POINT_DATA
    v = T.fresh("k", "I", 0, nl)
    head = T.red("first", v, nl, T.rawapp("str_contains", (line(v), T.strc("POINT_DATA")), "B"))
    if not ck.fact("the mesh part is copied line by line, then one block per column", len(segs) == 2 and not any(s.single for s in segs), F, str([(s.single, T.show(T.lift(s.length))[:60]) for s in segs])):
        return
    h, b = segs
    ck.equal("length of the mesh part: up to the point-data line", h.length, head, it.pc, F)
    k = T.fresh("k", "I", 0, head)
    ck.oblige("mesh part: line k is line k of the stored file", T.eq(L.opaque_term(h.fn(k)), line(k)), it.pc, F)
    ck.equal("one block per column", b.length, N, it.pc, F)
    k = T.fresh("c", "I", 0, N)
    col = Arr((R,), lambda i: sol(i, k))
    want = L.mk_str(("SCALARS ", name(k), " float\nLOOKUP_TABLE default\n", array_text(it, col), "\n"))
    ck.oblige("block k: name and all values of column k in order", T.eq(L.opaque_term(b.fn(k)), L.opaque_term(want)), it.pc, F)
