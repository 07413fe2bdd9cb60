"""Random quadrilateral .mesh files (medit format)."""
import numpy as np


def random_mesh(rng, nx, ny, dim=3, tags=4, order="VEQ", shuffle=True, flips=True, extra=False, circle=False):
    """A distorted nx x ny grid; vertices of the cells in any rotation / direction, boundary edges in any order and direction."""
    X, Y = np.meshgrid(np.linspace(0, 1, nx + 1), np.linspace(0, 1, ny + 1), indexing="ij")
    P = np.stack([X, Y], -1)
    P[1:-1, 1:-1] += rng.uniform(-.18, .18, P[1:-1, 1:-1].shape) / [nx, ny]
    A = np.array([[1.7, .3], [-.4, 1.2]])
    P = P.reshape(-1, 2) @ A.T + rng.uniform(-3, 3, 2)
    idx = lambda i, j: i * (ny + 1) + j
    quads = [[idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)] for i in range(nx) for j in range(ny)]
    edges = [(idx(i, 0), idx(i + 1, 0), 0) for i in range(nx)] + [(idx(nx, j), idx(nx, j + 1), 1) for j in range(ny)]
    edges += [(idx(i, ny), idx(i + 1, ny), 2) for i in range(nx)] + [(idx(0, j), idx(0, j + 1), 3) for j in range(ny)]
    names = rng.choice(np.arange(1, 5000), 4, replace=False)
    edges = [[a, b, int(names[t % tags])] for a, b, t in edges]
    if tags > 4:
        for e in edges:
            e[2] = int(rng.randint(1, tags + 1))
    if shuffle:
        rng.shuffle(quads)
        rng.shuffle(edges)
        perm = rng.permutation(len(P))
        inv = np.argsort(perm)
        P = P[perm]
        quads = [[int(inv[v]) for v in q] for q in quads]
        edges = [[int(inv[a]), int(inv[b]), t] for a, b, t in edges]
    if flips:
        for q in quads:
            r = int(rng.randint(4))
            q[:] = q[r:] + q[:r]
            if rng.rand() < .5:
                q.reverse()
        for e in edges:
            if rng.rand() < .5:
                e[0], e[1] = e[1], e[0]
    P = P.round(9)
    z = np.zeros((len(P), dim - 2))
    if extra and dim == 3:
        z[:] = 0.
    return np.hstack([P, z]), np.array(quads), np.array(edges), order


def write(path, mesh, extra=False, rng=None):
    P, quads, edges, order = mesh
    fmt = lambda a: "\n".join(" ".join(repr(float(v)) if isinstance(v, (float, np.floating)) else str(int(v)) for v in row) for row in a)
    sec = {"V": f"Vertices\n{len(P)}\n" + "\n".join(" ".join(repr(float(v)) for v in p) + " 0" for p in P),
           "E": f"Edges\n{len(edges)}\n" + fmt([[a + 1, b + 1, t] for a, b, t in edges]),
           "Q": f"Quadrilaterals\n{len(quads)}\n" + fmt([[v + 1 for v in q] + [9] for q in quads])}
    if "R" in order:  # the boundary edges in two blocks
        h = len(edges) // 2
        sec["E"] = f"Edges\n{h}\n" + fmt([[a + 1, b + 1, t] for a, b, t in edges[:h]])
        sec["R"] = f"Edges\n{len(edges) - h}\n" + fmt([[a + 1, b + 1, t] for a, b, t in edges[h:]])
    with open(path, "w") as f:
        f.write(f"MeshVersionFormatted 2\n\nDimension\n{P.shape[1]}\n\n" + "\n\n".join(sec[s] for s in order) + "\n\nEnd\n")
