"""Helpers shared by the runtime contracts."""
import numpy as np
from run import Fail, Ctx


def other_geometry(mesh=False):
    """Another geometry: objects of one class do not share their data."""
    import os
    import tempfile
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    with tempfile.TemporaryDirectory() as d:
        g = Geometry_2D("quadrilateral", "internal", 4, 6, os.path.join(d, "elsewhere"), True)
        if mesh:
            g.generate_quad_mesh_internal([7., 9.], [-8., -7.], 1, 2, 8)
            g.get_test_points()


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def close(a, b, what, rtol=1e-7, atol=1e-9, scale=None):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        raise Fail(f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    s = np.abs(b) if scale is None else np.maximum(np.abs(b), scale)
    bad = ~(np.abs(a - b) <= atol + rtol * s)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail(f"{what}: at {i} got {a[i]!r}, expected {b[i]!r} ({int(bad.sum())} of {a.size} entries differ)")


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(f"{what}: shape {a.shape}, expected {b.shape}")
    if not np.array_equal(a, b):
        i = tuple(int(x) for x in np.argwhere(a != b)[0])
        raise Fail(f"{what}: at {i} got {a[i]!r}, expected {b[i]!r}")


def double(v, what):
    """The array is held in double precision."""
    need(np.asarray(v).dtype == np.float64, f"{what}: held as {np.asarray(v).dtype}, not in double precision")


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Fail(f"{what}: raised {type(e).__name__} instead of {exc.__name__}")
    raise Fail(f"{what}: no {exc.__name__}")
