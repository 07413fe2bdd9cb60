import numpy as np
from common import *
import fem_oracle as O
from space_util import *
FILES = ["fastvpinns/FE/", "fastvpinns/Geometry/"]
OK = {"cell_type": ["quadrilateral"], "fe_type": O.FAMILIES, "quad_type": O.QTYPES, "tr": O.TRANS}
GM, GT = ["internal", "external"], ["quadrilateral"]


def variants(names):
    v = ["", "none", "quad", "triangle", "tetrahedral", "hexahedral", "line", "lagrange", "hermite", "legendre_2", "chebyshev", "chebyshev_1", "jacobi_special", "gauss-lobatto", "gauss",
         "gauss-chebyshev", "gauss_legendre", "isoparametric", "linear", "bicubic", "internals", "extern", "auto", "quadrilaterals", "Quadrilateral"]
    for s in names:
        v += [s.upper(), s.capitalize(), s + " ", " " + s, s + "x", s[:-1], s.replace("-", "_"), s.replace("_", "-"), s[1:]]
    return v


def cases(ctx):
    hs = sorted(s for s in ctx.hints.strs if s.isprintable() and 0 < len(s) < 25)
    for fam in O.FAMILIES:
        for qt in O.QTYPES:
            for tr in O.TRANS:
                yield {"what": "ok", "fe_type": fam, "quad_type": qt, "tr": tr, "order": ctx.rng.choice([2, 3, 4]), "Q": ctx.rng.choice([3, 4, 5])}
    for n in ctx.hints.sizes(2, 40, [2, 3, 12, 25]):
        yield {"what": "ok", "order": n, "fe_type": ctx.rng.choice(O.FAMILIES), "Q": 3}
    for q in ctx.hints.sizes(3, 60, [3, 4, 12, 40]):
        yield {"what": "ok", "Q": q, "quad_type": ctx.rng.choice(O.QTYPES), "order": 2}
    for fam in O.FAMILIES:
        yield {"what": "ok", "fe_type": fam, "np": True, "order": 3, "Q": 4}
    yield {"what": "accept order", "values": [2, 3, 500, 998, 999]}
    for k in ("cell_type", "fe_type", "quad_type", "tr"):
        bad = [s for s in dict.fromkeys(variants(OK[k]) + hs + [x for o in OK.values() for x in o]) if s not in OK[k]]
        for s in bad:
            yield {"what": "bad", k: s}
    for n in (1, 0, -1, -2, -5, 1000, 1001, 5000, 10 ** 6):
        for fam in O.FAMILIES:
            yield {"what": "bad", "order": n, "fe_type": fam}
    for q in (2, 1, 0, -1, -7, 10000, 10001, 10 ** 6):
        for qt in O.QTYPES:
            yield {"what": "bad", "Q": q, "quad_type": qt}
    for t in GT + ["triangle"] + variants(GT) + hs:
        for m in GM:
            yield {"what": "geometry", "type": t, "method": m}
    for m in variants(GM) + hs:
        yield {"what": "geometry", "type": "quadrilateral", "method": m}
    for k in range(2000 if ctx.deep else 30):
        c = {"what": "any", "cell_type": "quadrilateral", "order": ctx.rng.choice([2, 3, 5]), "Q": ctx.rng.choice([3, 4, 6])}
        for key in ("fe_type", "quad_type", "tr"):
            c[key] = ctx.rng.choice(OK[key] * 3 + hs)
        c["order"] = ctx.rng.choice([c["order"]] * 5 + [1, 0, 1000])
        c["Q"] = ctx.rng.choice([c["Q"]] * 5 + [2, 1, 10000])
        yield c


V = np.array([[0., 0.], [1.5, .1], [1.7, 1.2], [.2, 1.1]])


def build(c, cls):
    a = dict(cell_type="quadrilateral", order=3, fe_type="legendre", Q=4, quad_type="gauss-legendre", tr="bilinear")
    a.update({k: v for k, v in c.items() if k in a})
    if c.get("np"):
        a["order"], a["Q"] = np.int64(a["order"]), np.int64(a["Q"])
    f = lambda x, y: x + y
    if cls == "cell":
        from fastvpinns.FE.FE2D_Cell import FE2D_Cell
        return FE2D_Cell(V.copy(), a["cell_type"], a["order"], a["fe_type"], a["Q"], a["quad_type"], a["tr"], f)
    return space(np.array([V, V + 2]), a["fe_type"], a["order"], a["Q"], a["quad_type"], a["tr"], f, **({"cell": a["cell_type"]} if False else {})) if a["cell_type"] == "quadrilateral" else other(a, f)


def other(a, f):
    from fastvpinns.FE.fespace2d import Fespace2D
    return Fespace2D(mesh=None, cells=np.array([V, V + 2]), boundary_points={}, cell_type=a["cell_type"], fe_order=a["order"], fe_type=a["fe_type"], quad_order=a["Q"],
                     quad_type=a["quad_type"], fe_transformation_type=a["tr"], bound_function_dict={}, bound_condition_dict={}, forcing_function=f, output_path=".")


def soon(f, seconds=20):
    """f(); stopped after some seconds: an order or a rule that is not rejected may take hours to construct."""
    import signal

    def stop(*a):
        raise Fail(f"not rejected, still constructing after {seconds} s")
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_case(c):
    if c["what"] == "geometry":
        from fastvpinns.Geometry.geometry_2d import Geometry_2D
        mk = lambda: Geometry_2D(c["type"], c["method"], 5, 5, ".")
        if c["type"] in GT and c["method"] in GM:
            mk()
        else:
            raises(ValueError, mk, f"geometry of type {c['type']!r}, method {c['method']!r}")
        return
    if c["what"] == "accept order":
        from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
        for n in c["values"]:
            for fam in O.FAMILIES:
                b = FE2DSetupMain("quadrilateral", n, fam, 3, "gauss-legendre").assign_basis_function()
                need(b is not None and b.num_shape_functions == n * n, f"{fam} of order {n}")
        return
    ok = all(c.get(k, OK[k][0]) in OK[k] for k in OK) and 2 <= c.get("order", 3) <= 999 and 3 <= c.get("Q", 3) <= 9999
    for cls in ("cell", "space"):
        if ok:
            s = build(c, cls)
            n, Q = c.get("order", 3), c.get("Q", 4)
            t = s.basis_at_quad if cls == "cell" else s.get_shape_function_val(1)
            need(t.shape == (n * n, Q * Q), f"table shape {t.shape} for order {n}, quadrature {Q}")
        else:
            raises(ValueError, lambda: soon(lambda: build(c, cls)), f"{cls} with {c}")
