"""C11  Training tensors keep every cell, test function and quadrature point in place."""
from pyvc import terms as T
from pyvc.values import *
from .common import *
from .space import Space, scalar_f

ACC = {"get_shape_function_val": ("tv", 2), "get_shape_function_grad_x": ("tx", 2), "get_shape_function_grad_y": ("ty", 2), "get_quadrature_actual_coordinates": ("pq", 0),
       "get_forcing_function_values": ("ff", 1), "get_shape_function_grad_x_ref": ("rx", 2), "get_shape_function_grad_y_ref": ("ry", 2), "get_quadrature_weights": ("qw", 3)}
F = "DataHandler2D"


def verify(ck):
    for dt in ("float32", "float64"):
        with ck.section(f"stacked tensors, {dt}", "DataHandler2D.__init__"):
            tensors(ck, dt)
        with ck.section(f"Dirichlet, sensor and test data, {dt}", "DataHandler2D.get_dirichlet_input"):
            data(ck, dt)
        for inv in (False, True):
            with ck.section(f"{'inverse' if inv else 'bilinear'} parameters, {dt}", "DataHandler2D.get_bilinear_params_dict_as_tensors"):
                params(ck, dt, inv)
    for lab, bad in (("string", "float32"), ("None", None), ("number", 32), ("numpy dtype", "np")):
        with ck.section(f"dtype check: {lab}", "DataHandler2D.__init__"):
            bad_dtype(ck, bad)


class Setup:
    """A real space and geometry whose accessors are replaced by their contracts (C06, C07, C08, C17, C18)."""

    def __init__(self, ck, dt):
        self.ck, self.it = ck, ck.interp()
        it = self.it
        self.sp = Space(ck, it, F=F)
        self.dt = dt
        self.H = it.module_frame(it.load_module("fastvpinns.data.datahandler2d"))["DataHandler2D"]
        self.G = it.module_frame(it.load_module("fastvpinns.Geometry.geometry_2d"))["Geometry_2D"]
        self.NN, self.NQ = T.mul(self.sp.n, self.sp.n), T.mul(self.sp.Q, self.sp.Q)
        for m, (name, kind) in ACC.items():
            fn = self.sp.space_cls.lookup(m)
            sh = {2: (self.NN, self.NQ), 0: (self.NQ, 2), 1: (self.NN, 1), 3: (self.NQ,)}[kind]

            def ov(it, self_, cell_index, m=m, name=name, sh=sh):
                c = T.lift(cell_index)
                ck.oblige(f"precondition of {m}: an existing cell", T.and_(T.ge(c, 0), T.lt(c, self.sp.C)), it.pc, F)
                it.calls.add(f"[contract] Fespace2D.{m}")
                return it.new_arr(Arr(sh, lambda *I: T.rawapp(name, (c,) + tuple(T.lift(i) for i in I), "R")))
            it.overrides[fn.qual] = ov
        self.ND, self.NS, self.NT = T.var("n_dirichlet", "I", 1), T.var("n_sensor", "I", 1), T.var("n_test", "I", 1)

        def dirichlet(it, self_):
            it.calls.add("[contract] Fespace2D.generate_dirichlet_boundary_data")
            x = lambda i: Arr((2,), lambda d: T.rawapp("dx", (T.lift(i), T.lift(d)), "R"))
            y = lambda i: Arr((1, 1), lambda a, b: T.rawapp("dy", (T.lift(i),), "R"))
            return (it.alloc(ListC((Seg(self.ND, x),))), it.alloc(ListC((Seg(self.ND, y),))))
        it.overrides[self.sp.space_cls.lookup("generate_dirichlet_boundary_data").qual] = dirichlet

        def sensor(it, self_, exact, num, *file):
            it.calls.add("[contract] Fespace2D.get_sensor_data")
            tag = "sf" if file else "sa"
            n = T.lift(num)
            return (it.new_arr(Arr((n, 2), lambda i, d: T.rawapp(tag, (T.lift(i), T.lift(d)), "R"))), it.new_arr(Arr((n,), lambda i: T.rawapp(tag + "u", (T.lift(i),), "R"))))
        it.overrides[self.sp.space_cls.lookup("get_sensor_data").qual] = sensor
        it.overrides[self.sp.space_cls.lookup("get_sensor_data_external").qual] = lambda it, s, e, n, f: sensor(it, s, e, n, f)

        def tests(it, self_):
            it.calls.add("[contract] Geometry_2D.get_test_points")
            return it.new_arr(Arr((self.NT, 2), lambda i, d: T.rawapp("tp", (T.lift(i), T.lift(d)), "R")))
        it.overrides[self.G.lookup("get_test_points").qual] = tests

    def new(self, dtype=None):
        it = self.it
        self.sp.abstract()
        s = self.sp.new(scalar_f("f"))
        g = it.instantiate(self.G, ["quadrilateral", "internal", 5, 5, "out"], {})
        return it.instantiate(self.H, [s, g, dtype if dtype is not None else self.tf()], {})

    def tf(self):
        return self.it.libmod.VALUES["tensorflow." + self.dt]


def tensors(ck, dt):
    S = Setup(ck, dt)
    it, sp = S.it, S.sp
    attrs = ["shape_val_mat_list", "grad_x_mat_list", "grad_y_mat_list", "x_pde_list", "forcing_function_list"]

    def run():
        h = S.new()
        return [it.getattr(h, a) for a in attrs]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        A = [it.arr(v) for v in o.value]
        c = T.fresh("c", "I", 0, sp.C)
        for a, nm, arr in zip(attrs, ("tv", "tx", "ty"), A):
            ck.arrays_equal(it, f"{a}: entry (c, t, q) is the cell-c entry (t, q)", arr, (sp.C, S.NN, S.NQ), lambda *I, nm=nm: T.rawapp(nm, I, "R"), F)
        q, d = T.fresh("q", "I", 0, S.NQ), T.fresh("d", "I", 0, 2)
        X = A[3]
        if ck.fact("x_pde_list rank", X.ndim == 2, F):
            ck.oblige("x_pde_list shape", T.and_(T.eq(T.lift(X.shape[0]), T.mul(sp.C, S.NQ)), T.eq(T.lift(X.shape[1]), 2)), it.pc, F)
            ck.equal("x_pde_list: row c*Q+q is quadrature point q of cell c", X.at(T.add(T.mul(c, S.NQ), q), d), T.rawapp("pq", (c, q, d), "R"), it.pc, F)
        ck.arrays_equal(it, "forcing_function_list: entry (t, c) is the forcing of test function t on cell c", A[4], (S.NN, sp.C), lambda t, c: T.rawapp("ff", (c, t, T.ZERO), "R"), F)
        for a, arr in zip(attrs, A):
            ck.fact(f"{a} is a {dt} tensor", arr.kind == "tf" and arr.dtype == dt, F, f"{arr.kind} {arr.dtype}")


def is_tensor(ck, dt, name, arr):
    ck.fact(f"{name} is a {dt} tensor", arr.kind == "tf" and arr.dtype == dt, F, f"{arr.kind} {arr.dtype}")


def data(ck, dt):
    S = Setup(ck, dt)
    it = S.it
    u = scalar_f("u")

    def run():
        h = S.new()
        d = it.concrete_items(it.call_method(h, "get_dirichlet_input", [], {}))
        sa = it.concrete_items(it.call_method(h, "get_sensor_data", [u, S.NS, "internal"], {}))
        sf = it.concrete_items(it.call_method(h, "get_sensor_data", [u, S.NS, "external", "f.csv"], {}))
        t = it.call_method(h, "get_test_points", [], {})
        return [d, sa, sf, t]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        d, sa, sf, t = o.value
        R = lambda nm: lambda *I: T.rawapp(nm, I, "R")
        col = lambda nm: lambda i, j: T.rawapp(nm, (i,), "R")
        for lab, (x, y), N, (nx, ny) in (("Dirichlet", d, S.ND, ("dx", "dy")), ("analytical sensor", sa, S.NS, ("sa", "sau")), ("file sensor", sf, S.NS, ("sf", "sfu"))):
            x, y = it.arr(x), it.arr(y)
            ck.arrays_equal(it, f"{lab} points keep their order", x, (N, 2), R(nx), F)
            ck.arrays_equal(it, f"{lab} values are a column in the same order", y, (N, T.ONE), col(ny), F)
            is_tensor(ck, dt, f"{lab} points", x)
            is_tensor(ck, dt, f"{lab} values", y)
        t = it.arr(t)
        ck.arrays_equal(it, "test points keep their order", t, (S.NT, 2), R("tp"), F)
        is_tensor(ck, dt, "test points", t)


def params(ck, dt, inv):
    S = Setup(ck, dt)
    it = S.it
    names = ["eps", "b_x", "b_y", "c", "k", "zeta"]
    vals = [T.var("p_" + n, "R") for n in names]

    def run():
        h = S.new()
        # a dictionary with an arbitrary parameter name in the middle
        fn = SymCallable("params", lambda it: it.alloc(DictC(dict(zip(names, vals)))))
        m = "get_inverse_params" if inv else "get_bilinear_params_dict_as_tensors"
        r = it.call_method(h, m, [fn], {})
        e = it.call_method(h, m, [SymCallable("none", lambda it: it.alloc(DictC({})))], {})
        return [dict(it.content(r).d), dict(it.content(e).d)]
    for o in ck.single(it, run, func=F):
        it.restore(o.state)
        r, e = o.value
        ck.fact("same parameter names", list(r) == names and not e, F, f"{list(r)} {list(e)}")
        for n, v in zip(names, vals):
            if n in r:
                a = it.arr(r[n])
                ck.arrays_equal(it, f"parameter {n} keeps its value", a, (), lambda v=v: v, F)
                is_tensor(ck, dt, f"parameter {n}", a)


def bad_dtype(ck, bad):
    S = Setup(ck, "float32")
    it = S.it
    if bad == "np":
        bad = it.libmod.VALUES["numpy.float64"]

    def run():
        it2 = S.it
        S.sp.abstract()
        s = S.sp.new(scalar_f("f"))
        g = it2.instantiate(S.G, ["quadrilateral", "internal", 5, 5, "out"], {})
        return it2.instantiate(S.H, [s, g, bad], {})
    for o in it.explore(run):
        it.restore(o.state)
        ck.fact("raises TypeError", o.flow == "raise" and o.exc.cls.name == "TypeError", F, f"{o.flow} {o.exc}")
