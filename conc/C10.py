import os
import shutil
import tempfile
import numpy as np
from common import *
import meshfile
FILES = ["fastvpinns/Geometry/"]


def cases(ctx):
    for ext in (".msh", ".vtk", "", ".Mesh", ".mesh.txt", ".MESH", ".meshb"):
        yield {"kind": "suffix", "ext": ext, "seed": ctx.s()}
    for m in ("Uniform", "random", "", "lhs ", None, "LHS", "grid"):
        yield {"kind": "method", "method": m, "seed": ctx.s()}
    Ns = ctx.hints.sizes(1, 12, [1, 2, 3, 4])
    for n in ((257, 256),) + (((520, 64),) if ctx.deep else ()):  # more vertices than 16-bit indices can tell apart
        yield {"kind": "read", "n": list(n), "dim": 3, "tags": 4, "order": "VEQ", "r": 0, "method": "uniform", "seed": ctx.s() // 3 * 3 + 1}
    for rep in range(60 if ctx.deep else 4):
        for nx in Ns:
            for method in ("uniform", "lhs"):
                yield {"kind": "read", "n": [nx, ctx.rng.choice(Ns)], "dim": ctx.rng.choice([3, 3, 2]), "tags": ctx.rng.choice([1, 2, 3, 4, 6]), "order": ctx.rng.choice(["VEQ", "VQE", "VEQR", "EVQ", "QVE"]),
                       "r": ctx.rng.choice([0, 0, 1, 2, 3, 5, 8 if nx < 4 else 6]), "method": method, "shift": ctx.rng.choice([0, 0, 0, 0, -3, -1, 70000]), "scale": ctx.rng.choice([1, 1, 1, 1e-9, 1e7]), "plain": ctx.rng.random() < .2, "seed": ctx.s()}


def run_case(c):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    rng = np.random.RandomState(c["seed"])
    out = tempfile.mkdtemp()
    try:
        g = Geometry_2D("quadrilateral", "external", 3, 3, out)
        other_geometry(c["seed"] % 2 == 0)
        plain = c.get("plain", True)
        mesh = meshfile.random_mesh(rng, *c.get("n", [2, 2]), dim=c.get("dim", 3), tags=c.get("tags", 2), order=c.get("order", "VEQ"), shuffle=not plain, flips=not plain)
        if c["kind"] == "read" and c["seed"] % 5 == 0:  # an edge listed under two tags, and one listed twice
            e = mesh[2]
            two = e[rng.randint(0, len(e), 2)].copy()
            two[0, 2] = e[rng.randint(len(e)), 2]
            mesh = (mesh[0], mesh[1], np.vstack([e, two])) + tuple(mesh[3:])
        size = c.get("scale", 1)
        if c.get("shift"):
            mesh[2][:, 2] += c["shift"]
        mesh = (mesh[0] * size,) + tuple(mesh[1:])
        if c["kind"] == "suffix":
            os.mkdir(os.path.join(out, "d.mesh"))
            f = os.path.join(out, "d.mesh", "m" + c["ext"])
            meshfile.write(f, mesh)
            raises(ValueError, lambda: g.read_mesh(f, 1, "uniform", 0), f"file extension {c['ext']!r} in a directory d.mesh")
            f = os.path.join(out, "m" + c["ext"])
            meshfile.write(f, mesh)
            return raises(ValueError, lambda: g.read_mesh(f, 1, "uniform", 0), f"file extension {c['ext']!r}")
        sub = os.path.join(out, ["plain", "dir.d", "a b", "x.mesh"][c["seed"] % 4])
        os.mkdir(sub)
        f = os.path.join(sub, ["m.mesh", "m.v2.mesh", ".mesh.mesh", "m-1.50.mesh"][c["seed"] // 4 % 4])
        meshfile.write(f, mesh)
        if c["kind"] == "method":
            return raises(ValueError, lambda: g.read_mesh(f, 1, c["method"], 0), f"sampling method {c['method']!r}")
        np.random.seed(c["seed"] % (1 << 31))
        twice = c["seed"] % 3 == 0
        if twice:
            f0 = os.path.join(out, "first.mesh")
            meshfile.write(f0, meshfile.random_mesh(rng, 2, 3, tags=3))
            first = g.read_mesh(f0, 1, c["method"], 0)
            kept = np.array(first[0]), {k: np.array(v) for k, v in first[1].items()}
        cells, bd = g.read_mesh(f, c["r"], c["method"], 0)
        other_geometry(True)
        if twice:
            same(first[0], kept[0], "cells of the mesh read before changed")
            need(list(first[1]) == list(kept[1]), "tags of the mesh read before changed")
            for k in kept[1]:
                same(first[1][k], kept[1][k], f"boundary points of the mesh read before changed, tag {k}")
    finally:
        shutil.rmtree(out, ignore_errors=True)
    P, quads, edges, _ = mesh
    P = P[:, :2]
    double(cells, "cells")
    cells = np.asarray(cells)
    need(cells.shape == (len(quads), 4, 2), f"cells {cells.shape} of {len(quads)}")
    for k, q in enumerate(quads):
        ref = P[q]
        D = np.abs(cells[k][:, None] - ref[None]).max(-1)
        pos = D.argmin(1)
        need(sorted(pos) == [0, 1, 2, 3] and D.min(1).max() < 1e-12 * size, f"cell {k} holds {cells[k].tolist()}, the file {ref.tolist()}")
        x, y = cells[k].T
        need(all((x[(i + 1) % 4] - x[i]) * (y[(i + 2) % 4] - y[(i + 1) % 4]) - (y[(i + 1) % 4] - y[i]) * (x[(i + 2) % 4] - x[(i + 1) % 4]) > 0 for i in range(4)), f"cell {k} is not anticlockwise: {cells[k].tolist()}")
    tags = sorted(set(edges[:, 2]))
    need(sorted(bd) == tags, f"tags {sorted(bd)}, the file has {tags}")
    n = 2 ** c["r"] + 1
    for t in tags:
        E = [(P[a], P[b]) for a, b, tt in edges if tt == t]
        pts = np.asarray(bd[t])[:, :2]
        EA, EB = np.array([a for a, b in E]), np.array([b for a, b in E])
        ED = EB - EA

        def on(p):
            s = ((p - EA) * ED).sum(1) / (ED * ED).sum(1)
            return (s >= -1e-9) & (s <= 1 + 1e-9) & (np.abs(EA + s[:, None] * ED - p).max(1) < 1e-9 * size)

        double(pts, f"points of tag {t}")
        need(np.asarray(bd[t]).shape[1] >= 2, "columns")
        for p in pts:
            need(on(p).any(), f"tag {t}: point {p} is on no edge carrying that tag")
        if c["method"] == "uniform":
            need(len(np.unique(np.asarray(bd[t]), axis=0)) == len(pts), f"tag {t}: duplicate points")
            want = np.array([a + (b - a) * s for a, b in E for s in np.linspace(0, 1, n)])
            for w in want:
                need(np.abs(pts - w).max(1).min() < 1e-9 * size, f"tag {t}: the point {w} of an edge is missing")
            # a common end point may appear with several roundings only if it is computed, never for vertices themselves
            need(len(pts) <= len(want), f"tag {t}: {len(pts)} points of {len(want)}")
        else:
            per = sum(on(p).astype(int) for p in pts)
            need(min(per) >= 1, f"tag {t}: an edge contributes no points")
