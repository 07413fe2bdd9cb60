"""C17  Sensor data pair each sampled location with the solution there."""
from pyvc import terms as T
from pyvc.values import *
from .common import *
from .space import Space, scalar_f
from .C11 import Setup, is_tensor


def verify(ck):
    for dim in (2, 3):
        with ck.section(f"analytical solution, {dim}-column mesh points", "Fespace2D.get_sensor_data"):
            analytic(ck, dim)
    with ck.section("solution file", "Fespace2D.get_sensor_data_external"):
        external(ck)
    for dt in ("float32", "float64"):
        with ck.section(f"through the data handler, {dt}", "DataHandler2D.get_sensor_data"):
            handler(ck, dt)


def bounding(ck, it, P, M):
    """(min, max) of each coordinate of the mesh points P(0..M-1); a non-empty set of reals has min <= each element <= max."""
    out = []
    for d in range(2):
        lo, hi = (T.red(k, v, M, P(v, d)) for k, v in (("min", T.fresh("i", "I", 0, M)), ("max", T.fresh("i", "I", 0, M))))
        z = P(T.ZERO, d)
        it.assume(T.le(lo, z))
        it.assume(T.le(z, hi))
        out.append((lo, hi))
    return out


def analytic(ck, dim):
    F = "Fespace2D.get_sensor_data"
    it = ck.interp()
    sp = Space(ck, it, F=F)
    M, n = T.var("mesh_points", "I", 1), T.var("num_points", "I", 1)
    P = lambda i, d: T.rawapp("meshp", (T.lift(i), T.lift(d)), "R")

    def run():
        sp.abstract()
        mesh = Opaque("mesh", {"points": it.new_arr(Arr((M, dim), P))})
        s = sp.new(scalar_f("f"), mesh=mesh)
        return [it.concrete_items(it.call_method(s, "get_sensor_data", [scalar_f("u"), n], {})) for _ in range(2)]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        box = bounding(ck, it, P, M)
        for lab, r in zip(("first call", "second call"), o.value):
            if not ck.fact(f"{lab}: points and values", len(r) == 2, F):
                continue
            p, u = it.arr(r[0]), it.arr(r[1])
            i = T.fresh("i", "I", 0, n)
            if ck.fact(f"{lab}: point array has two columns", p.ndim == 2 and p.shape[1] == 2, F, str(p.shape)):
                ck.equal(f"{lab}: number of points", p.shape[0], n, it.pc, F)
                for d, (lo, hi) in enumerate(box):
                    ck.oblige(f"{lab}: coordinate {d} is at least the mesh minimum", T.ge(p.at(i, d), lo), it.pc, F)
                    ck.oblige(f"{lab}: coordinate {d} is at most the mesh maximum", T.le(p.at(i, d), hi), it.pc, F)
                if ck.fact(f"{lab}: one value per point", u.ndim == 1, F, str(u.shape)):
                    ck.equal(f"{lab}: number of values", u.shape[0], n, it.pc, F)
                    ck.equal(f"{lab}: value i is the solution at point i", u.at(i), T.rawapp("u", (p.at(i, 0), p.at(i, 1)), "R"), it.pc, F)


def rows_of(t):
    """The csv cell a term denotes: (row, column) or None."""
    return t.args[2:4] if t.op == "app" and t.args[0] == "csv" else None


def one_row(ck, it, lab, cells, rows, F, path):
    """x, y and u of a returned pair are columns 0, 1, 2 of one and the same row of the file."""
    f = T.strc(path)
    got = [rows_of(c) for c in cells]
    if all(g is None for g in got):
        ck.fact(f"{lab}: entries of the file", False, F, str([T.show(c) for c in cells])[:200])
        return
    r = next(g for g in got if g is not None)[0]
    ck.oblige(f"{lab}: an existing row", T.and_(T.ge(r, 0), T.lt(r, rows)), it.pc, F)
    for j, c in enumerate(cells):
        ck.equal(f"{lab}: column {j} of one row", c, T.rawapp("csv", (f, r, T.lift(j)), "R"), it.pc, F)


def external(ck):
    F = "Fespace2D.get_sensor_data_external"
    it = ck.interp()
    sp = Space(ck, it, F=F)
    n = T.var("num_points", "I", 1)

    def run():
        sp.abstract()
        s = sp.new(scalar_f("f"))
        return [it.concrete_items(it.call_method(s, "get_sensor_data_external", [scalar_f("u"), n, "sensors.csv"], {})) for _ in range(2)]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        for lab, r in zip(("first call", "second call"), o.value):
            if not ck.fact(f"{lab}: points and values", len(r) == 2, F):
                continue
            p, u = it.arr(r[0]), it.arr(r[1])
            if ck.fact(f"{lab}: shapes", p.ndim == 2 and p.shape[1] == 2 and u.ndim == 1, F, f"{p.shape} {u.shape}"):
                ck.equal(f"{lab}: number of points", p.shape[0], n, it.pc, F)
                ck.equal(f"{lab}: number of values", u.shape[0], n, it.pc, F)
                i = T.fresh("i", "I", 0, n)
                one_row(ck, it, lab, [p.at(i, 0), p.at(i, 1), u.at(i)], T.rawapp("csv_rows", (T.strc("sensors.csv"),), "I"), F, "sensors.csv")


def handler(ck, dt):
    """The whole path: data handler and space together, no contract in between."""
    F = "DataHandler2D.get_sensor_data"
    S = Setup(ck, dt)
    it = S.it
    for m in ("get_sensor_data", "get_sensor_data_external"):
        del it.overrides[S.sp.space_cls.lookup(m).qual]
    M, n = T.var("mesh_points", "I", 1), S.NS
    P = lambda i, d: T.rawapp("meshp", (T.lift(i), T.lift(d)), "R")

    def run():
        h = S.new()
        it.setattr(it.getattr(h, "fespace"), "mesh", Opaque("mesh", {"points": it.new_arr(Arr((M, 2), P))}))
        return [it.concrete_items(it.call_method(h, "get_sensor_data", a, {})) for a in ([scalar_f("u"), n, "internal"], [scalar_f("u"), n, "external", "sensors.csv"])]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        box = bounding(ck, it, P, M)
        i = T.fresh("i", "I", 0, n)
        for lab, r in zip(("analytical", "file"), o.value):
            p, u = it.arr(r[0]), it.arr(r[1])
            is_tensor(ck, dt, f"{lab} points", p)
            is_tensor(ck, dt, f"{lab} values", u)
            if not ck.fact(f"{lab}: an (N, 2) and an (N, 1) tensor", p.ndim == 2 and p.shape[1] == 2 and u.ndim == 2 and u.shape[1] == 1, F, f"{p.shape} {u.shape}"):
                continue
            ck.equal(f"{lab}: number of points", p.shape[0], n, it.pc, F)
            ck.equal(f"{lab}: number of values", u.shape[0], n, it.pc, F)
            if lab == "file":
                one_row(ck, it, lab, [p.at(i, 0), p.at(i, 1), u.at(i, 0)], T.rawapp("csv_rows", (T.strc("sensors.csv"),), "I"), F, "sensors.csv")
            else:
                ck.equal(f"{lab}: value i is the solution at point i", u.at(i, 0), T.rawapp("u", (p.at(i, 0), p.at(i, 1)), "R"), it.pc, F)
                for d, (lo, hi) in enumerate(box):
                    ck.oblige(f"{lab}: coordinate {d} in the bounding box", T.and_(T.ge(p.at(i, d), lo), T.le(p.at(i, d), hi)), it.pc, F)
