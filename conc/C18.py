import os
import shutil
import tempfile
import numpy as np
from common import *
import meshfile
FILES = ["fastvpinns/Geometry/"]


def cases(ctx):
    Ns = ctx.hints.sizes(1, 130, [1, 2, 3, 5, 8, 100])
    for rep in range(40 if ctx.deep else 2):
        for nx in Ns:
            yield {"kind": "grid", "rect": [ctx.rng.uniform(-5, 0), ctx.rng.uniform(.1, 6), ctx.rng.uniform(-9, -1), ctx.rng.uniform(-.9, 3)], "n": [nx, ctx.rng.choice(Ns)], "seed": ctx.s(),
                   "gen": ctx.rng.random() < .5, "ints": ctx.rng.random() < .3, "nc": [ctx.rng.randrange(1, 4), ctx.rng.randrange(1, 4)]}
        for rows in ctx.hints.sizes(38, 20000, [501])[:10]:
            yield {"kind": "vtk", "cols": 2, "names": 2, "rows": rows, "method": ctx.rng.choice(["internal", "external"]), "base": "synthetic", "seed": ctx.s()}
        for dim in (2, 3):
            yield {"kind": "ext", "dim": dim, "n": [ctx.rng.randrange(1, 7), ctx.rng.randrange(1, 7)], "seed": ctx.s()}
        for cols in ctx.hints.sizes(1, 12, [1, 2, 3, 5]):
            for names in (0, 0, -1, 1):
                yield {"kind": "vtk", "cols": cols, "names": max(cols + names, 0), "rows": ctx.rng.choice([1, 4, 37]), "method": ctx.rng.choice(["internal", "external"]),
                       "base": ctx.rng.choice(["real", "synthetic"]), "values": ctx.rng.choice(["float64", "float64", "float32", "int", "nonfinite"]), "seed": ctx.s()}
    for cols in (1, 3):
        for names in (0, cols - 1, cols + 1, cols + 2):
            yield {"kind": "vtk", "cols": cols, "names": names, "rows": 4, "method": "external", "base": "synthetic", "seed": 1}


CELL = "CELL_DATA 1\nSCALARS ref int 1\nLOOKUP_TABLE default\n7\nFIELD FieldData 1\nmedit:ref 1 1 int\n3\n"
BASE = "# vtk DataFile Version 4.2\nwritten\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 4 double\n0. 0. 0.\n1. 0. 0. 1. 1. 0.\n0. 1. 0.\nCELLS 1 5\n4\n0 1 2 3\n\nCELL_TYPES 1\n9\n"


def run_case(c):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    rng = np.random.RandomState(c["seed"])
    out = tempfile.mkdtemp()
    try:
        if c["kind"] == "grid":
            x0, x1, y0, y1 = c["rect"]
            nx, ny = c["n"]
            if c.get("ints"):
                x0, x1, y0, y1 = int(x0), int(x1) + 1, int(y0), int(y1) + 3
            g = Geometry_2D("quadrilateral", "internal", nx, ny, out, True)
            if nx % 2 == 0 or ny % 2 == 0:
                # the geometry was used for another rectangle before
                g.generate_quad_mesh_internal([x0 - 1, x1 + 2], [y0 + 3, y1 + 3.5], 1, 2, 8)
                before = np.asarray(g.get_test_points())
                kept = before.copy()
            else:
                before = kept = None
            if c["gen"]:
                g.generate_quad_mesh_internal([x0, x1], [y0, y1], *c["nc"], 8)
            else:
                g.x_limits, g.y_limits = (x0, x1), (y0, y1)
            other_geometry(True)
            for _ in range(2):
                t = np.asarray(g.get_test_points())
                ref = np.array([[x, y] for y in np.linspace(y0, y1, ny) for x in np.linspace(x0, x1, nx)])
                close(t, ref, "test points: uniform grid, x fastest", 1e-12, 1e-12)
            if kept is not None:
                same(before, kept, "test points of the earlier rectangle changed")
        elif c["kind"] == "ext":
            mesh = meshfile.random_mesh(rng, *c["n"], dim=c["dim"])
            f = os.path.join(out, "m.mesh")
            meshfile.write(f, mesh)
            g = Geometry_2D("quadrilateral", "external", 3, 3, out)
            if c["seed"] % 2:
                other = os.path.join(out, "other.mesh")
                meshfile.write(other, meshfile.random_mesh(rng, 3, 2, dim=c["dim"]))
                g.read_mesh(other, 1, "uniform", 0)
                g.get_test_points()
            g.read_mesh(f, 1, "uniform", 0)
            other_geometry(True)
            close(g.get_test_points(), mesh[0][:, :2], "test points: mesh points in file order", 1e-12, 1e-12)
        else:
            vtk(c, Geometry_2D, rng, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def vtk(c, G, rng, out):
    g = G("quadrilateral", c["method"], 3, 3, out)
    other_geometry(True)
    dst = os.path.join(out, "res")
    os.mkdir(dst)
    if c["base"] == "real" and c["method"] == "external":
        f = os.path.join(out, "m.mesh")
        meshfile.write(f, meshfile.random_mesh(rng, 2, 3))
        g.read_mesh(f, 1, "uniform", 0)
    elif c["base"] == "real":
        import meshio
        x0, y0 = rng.uniform(-3, 3, 2)
        x1, y1 = x0 + rng.uniform(.5, 4), y0 + rng.uniform(.5, 4)
        g.generate_quad_mesh_internal([x0, x1], [y0, y1], 2, 2, 8)
        need(os.path.exists(os.path.join(out, "internal.vtk")), "no VTK file is stored for the generated mesh")
        p = meshio.read(os.path.join(out, "internal.vtk")).points
        close(np.r_[p.min(axis=0)[:2], p.max(axis=0)[:2]], [x0, y0, x1, y1], "bounding box of the stored VTK file", 1e-9, 1e-9)
    else:
        with open(os.path.join(out, c["method"] + ".vtk"), "w") as f:
            extra = rng.randint(3)
            if rng.randint(2):
                f.write(CELL)
            f.write(BASE + (f"POINT_DATA {c['rows']}\nFIELD FieldData 1\nmedit:ref 1 4 int\n0 0 0 0\n", f"POINT_DATA {c['rows']}\n", "")[extra])
    base = open(os.path.join(out, c["method"] + ".vtk")).read().splitlines(keepends=True)
    S = rng.uniform(-1, 1, (c["rows"], c["cols"])) * 10. ** rng.randint(-12, 9, (c["rows"], c["cols"]))
    if c.get("values") == "float32":
        S = S.astype(np.float32)
    elif c.get("values") == "int":
        S = rng.randint(-2 ** 40, 2 ** 40, S.shape)
    elif c.get("values") == "nonfinite":
        S[rng.randint(c["rows"]), :] = [np.nan, np.inf, -np.inf][rng.randint(3)]
    if c["cols"] == 2:
        S = np.asfortranarray(S)
    names = ["Sol", "Exact", "Error", "u", "v2", "SOL_x", "p.1", "q-x", "r", "s", "t", "w", "z"]
    names = (names if c["seed"] % 3 else ["Sol.1", "x-vel", "Sol.2", "u/v", "v2", "θ_x"] + names[5:])[:c["names"]]
    if len(names) != c["cols"]:
        return raises(ValueError, lambda: g.write_vtk(S, dst, "prediction.vtk", names), f"{c['cols']} columns with {len(names)} names")
    other_geometry(True)
    if c["seed"] % 2 == 0:
        g.write_vtk(rng.uniform(-1, 1, (c["rows"] + 5, 2)), dst, "prediction.vtk", ["before", "Sol"])
    g.write_vtk(S, dst, "prediction.vtk", list(names))
    need(open(os.path.join(out, c["method"] + ".vtk")).read().splitlines(keepends=True) == base, "the stored VTK file changed")
    got = open(os.path.join(dst, "prediction.vtk"), encoding="utf-8").read().splitlines(keepends=True)
    head = []
    for ln in base:
        head.append(ln)
        if "POINT_DATA" in ln:
            break
    need(got[:len(head)] == head, "the mesh part differs from the stored file")
    toks = "".join(got[len(head):]).split()
    p = 0

    def take(*ws):
        nonlocal p
        for w in ws:
            need(p < len(toks) and toks[p] == w, f"token {p} of the data part is {toks[p:p + 1]}, expected {w}")
            p += 1
    for k, nm in enumerate(names):
        take("SCALARS", nm, "float")
        if p < len(toks) and toks[p] == "1":
            p += 1  # the optional component count
        take("LOOKUP_TABLE", "default")
        for i in range(c["rows"]):
            need(p < len(toks), f"column {nm} has {i} values of {c['rows']}")
            try:
                v = float(toks[p])
            except ValueError:
                need(False, f"column {nm} has {i} values of {c['rows']}")
            need(v == S[i, k] or np.isnan(v) and np.isnan(S[i, k]) or abs(v - S[i, k]) <= 1e-13 * abs(S[i, k]), f"column {nm} value {i}: {v}, expected {S[i, k]}")
            p += 1
    need(p == len(toks), f"{len(toks) - p} tokens after the last block")
    lines = "".join(got[len(head):]).splitlines()
    for k, nm in enumerate(names):
        ix = [i for i, ln in enumerate(lines) if ln.split()[:2] == ["SCALARS", nm]]
        need(len(ix) == 1 and lines[ix[0] + 1].split() == ["LOOKUP_TABLE", "default"], f"header lines of block {nm}")
        need(len(lines[ix[0]].split()) in (3, 4), "SCALARS line")
