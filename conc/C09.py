import shutil
import tempfile
import numpy as np
from common import *
FILES = ["fastvpinns/Geometry/"]


def cases(ctx):
    Ns = ctx.hints.sizes(1, 40, [1, 2, 3, 4, 5, 7])
    Bs = ctx.hints.sizes(4, 420, [4, 5, 6, 7, 8, 40, 81, 102, 403])
    big = [4 * h + 5 for h in ctx.hints.sizes(100, 20000, [])] + [h + 1 for h in ctx.hints.sizes(421, 20000, [])]
    rects = [[0, 1, 0, 1], [-1, 1, -1, 1], [-3.5, -1.25, 2, 7], [0, 10, -0.01, 0.01], [1e3, 1001.5, -5e-3, 40], [-2, 0.5, 0, 3], [1e-4, 2e-4, 1e-4, 5e-4], [-3e-9, 2e-9, 1e-9, 4e-9], [-2e6, 5e6, 1e5, 4e6], [0, 2.0, 0, 1]]
    yield {"rect": rects[0], "n": [2, 3], "nb": 40, "vtk": True, "seed": 1}
    for nb in sorted(set(big), reverse=True)[:60]:
        yield {"rect": rects[1], "n": [2, 2], "nb": nb, "vtk": False, "seed": ctx.s()}
    for n in ([257, 256],) + (([66, 999],) if ctx.deep else ()):  # more vertices than 16-bit indices can tell apart
        yield {"rect": rects[2], "n": n, "nb": 40, "vtk": False, "seed": ctx.s()}
    for rep in range(40 if ctx.deep else 3):
        for i, nx in enumerate(Ns):
            r = rects[(i + rep) % len(rects)] if ctx.rng.random() < .7 else [ctx.rng.uniform(-5, 0), ctx.rng.uniform(.1, 6), ctx.rng.uniform(-9, -1), ctx.rng.uniform(-.9, 3)]
            ny = ctx.rng.choice([x for x in Ns if x * nx <= 700])
            yield {"rect": r, "n": [nx, ny], "nb": ctx.rng.choice(Bs), "vtk": ctx.deep and ctx.rng.random() < .05, "tuple": ctx.rng.random() < .5, "twice": ctx.rng.random() < .5, "seed": ctx.s()}


def run_case(c):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    np.random.seed(c["seed"] % (1 << 31))
    x0, x1, y0, y1 = c["rect"]
    nx, ny = c["n"]
    out = tempfile.mkdtemp()
    try:
        g = Geometry_2D("quadrilateral", "internal", 3, 3, out, *([] if c["vtk"] else [True]))
        other_geometry(True)
        t = tuple if c.get("tuple") else list
        if c.get("twice"):
            first = g.generate_quad_mesh_internal(t([x0 - 3, x1 - 2]), t([y0 + 1, y1 + 4]), nx % 3 + 1, ny % 4 + 1, c["nb"] + 9)
            kept = np.array(first[0]), {k: np.array(v) for k, v in first[1].items()}
        cells, bd = g.generate_quad_mesh_internal(t([x0, x1]), t([y0, y1]), nx, ny, c["nb"])
        other_geometry(True)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if c.get("twice"):
        same(first[0], kept[0], "cells of an earlier mesh changed")
        need(list(first[1]) == list(kept[1]), "tags of an earlier mesh changed")
        for k in kept[1]:
            same(first[1][k], kept[1][k], f"boundary points of an earlier mesh changed, tag {k}")
    tol = 1e-12 * max(abs(x0), abs(x1), abs(y0), abs(y1)) + 1e-9 * min((x1 - x0) / nx, (y1 - y0) / ny)
    double(cells, "cells")
    cells = np.asarray(cells)
    need(cells.dtype == np.float64 and cells.shape == (nx * ny, 4, 2), f"cells {cells.dtype} {cells.shape} for {nx} x {ny}")
    seen = set()
    hx, hy = (x1 - x0) / nx, (y1 - y0) / ny
    for k, cell in enumerate(cells):
        i, j = int(round((cell[0, 0] - x0) / hx)), int(round((cell[0, 1] - y0) / hy))
        need(0 <= i < nx and 0 <= j < ny, f"cell {k} starts at {cell[0]}, not at a lower left grid corner")
        a, b, lo, hi = x0 + i * hx, x0 + (i + 1) * hx, y0 + j * hy, y0 + (j + 1) * hy
        close(cell, [[a, lo], [b, lo], [b, hi], [a, hi]], f"cell {k}, grid cell ({i},{j}): corners from the lower left, anticlockwise", 0, tol)
        need((i, j) not in seen, f"grid cell ({i},{j}) stored twice")
        seen.add((i, j))
    need(len(seen) == nx * ny, "grid cells missing")
    quads = g.mesh.cells_dict["quad"]
    need(quads.shape == (nx * ny, 4), f"mesh object lists {quads.shape} cells")
    need(quads.dtype.kind in "iu" and quads.min() >= 0 and quads.max() < len(g.mesh.points), "mesh object cells are not point indices")
    P = np.asarray(g.mesh.points)[:, :2][quads]
    key = lambda cc: sorted(tuple(map(tuple, np.round((q - [x0, y0]) / [hx, hy]).astype(int))) for q in cc)
    need(key(P) == key(cells), "the mesh object lists other cells")
    close(np.asarray(g.mesh.points)[:, :2].min(0), [x0, y0], "mesh points lower bound", 0, tol)
    close(np.asarray(g.mesh.points)[:, :2].max(0), [x1, y1], "mesh points upper bound", 0, tol)
    need(sorted(bd) == [1000, 1001, 1002, 1003], f"tags {sorted(bd)}")
    for tag, (d, v) in {1000: (1, y0), 1001: (0, x1), 1002: (1, y1), 1003: (0, x0)}.items():
        p = np.asarray(bd[tag])
        double(p, f"points of tag {tag}")
        need(p.shape == (c["nb"] // 4, 2) and p.dtype == np.float64, f"tag {tag}: {p.shape} {p.dtype} of {c['nb']} requested points")
        close(p[:, d], np.full(len(p), v), f"tag {tag}: points on that side", 0, tol)
        lo, hi = ((x0, x1), (y0, y1))[1 - d]
        o = p[:, 1 - d]
        need((o >= lo - tol).all() and (o <= hi + tol).all(), f"tag {tag}: point {o.min()}..{o.max()} outside [{lo}, {hi}]")
