"""A finite element space over a symbolic number of symbolic cells (shared by C06, C07, C08, C11, C16, C17)."""
from pyvc import terms as T
from pyvc.values import *
from .common import *
from .C04 import mapterms, jac

TABLES = {  # accessor -> attribute of the cell
    "get_shape_function_val": "basis_at_quad", "get_shape_function_grad_x": "basis_gradx_at_quad", "get_shape_function_grad_y": "basis_grady_at_quad",
    "get_shape_function_grad_x_ref": "basis_gradx_at_quad_ref", "get_shape_function_grad_y_ref": "basis_grady_at_quad_ref",
    "get_quadrature_actual_coordinates": "quad_actual_coordinates", "get_quadrature_weights": "mult"}
MN = "fastvpinns.FE."


def scalar_f(name):
    """Uninterpreted scalar function of (x, y), applied elementwise."""
    def call(it, x, y, name=name):
        X, Y = it.arr(x), it.arr(y)
        if X.ndim != Y.ndim:
            raise Unsupported("user function called with arguments of different rank")
        a = Arr(X.shape, lambda *I: T.rawapp(name, (X.at(*I), Y.at(*I)), "R"))
        return a.at() if a.ndim == 0 else it.new_arr(a)
    return SymCallable(name, call)


def vector_f(name, M):
    """Uninterpreted vector-valued function: component k is the first index of the result."""
    def call(it, x, y):
        X, Y = it.arr(x), it.arr(y)
        if X.ndim != Y.ndim:
            raise Unsupported("user function called with arguments of different rank")
        return it.new_arr(Arr((M,) + tuple(X.shape), lambda k, *I: T.rawapp(name, (T.lift(k), X.at(*I), Y.at(*I)), "R")))
    return SymCallable(name, call)


def nondegenerate(d):
    """Precondition: every cell of the space is non-degenerate.  The affine determinants of the cells occurring in a term."""
    out, seen = [], set()
    for t in T.atoms_in(d, lambda t: t.op == "app" and t.args[0].startswith("cells")):
        nm, c = t.args[0], t.args[1]
        if (nm, c) not in seen:
            seen.add((nm, c))
            X, Y, m = mapterms("affine", [[T.rawapp(nm, (c, T.const(k), T.const(x)), "R") for x in (0, 1)] for k in range(4)])
            J = jac(X, Y, m, 0, 0)
            out.append(T.sub(T.mul(J[0][0], J[1][1]), T.mul(J[0][1], J[1][0])))
    return out


class Space:
    """Parameters of a symbolic space; call new() inside an exploration."""
    decoy = True

    def __init__(self, ck, it, fam="legendre", qt="gauss-legendre", tr="bilinear", F="Fespace2D"):
        self.ck, self.it, self.fam, self.qt, self.tr = ck, it, fam, qt, tr
        self.C = T.var("C", "I", 1)
        self.n, self.Q = T.var("order", "I", 2, 1000), T.var("Q", "I", 3, 10000)
        it.opaque[FE + "fe2d_setup_main.FE2DSetupMain.assign_quadrature_rules"] = "quad"
        fr = it.module_frame(it.load_module(FE + "fe2d_setup_main"))
        self.setup_cls = fr["FE2DSetupMain"]
        self.space_cls = it.module_frame(it.load_module(FE + "fespace2d"))["Fespace2D"]
        self.cell_cls = it.module_frame(it.load_module(FE + "FE2D_Cell"))["FE2D_Cell"]
        self.F = F
        if tr == "affine":
            it.nonzero.append(nondegenerate)

    def abstract(self):
        it = self.it
        s = it.instantiate(self.setup_cls, ["quadrilateral", self.n, self.fam, self.Q, self.qt], {})
        abstract_basis(self.ck, it, it.call_method(s, "assign_basis_function", [], {}), self.F)

    def cells(self, name="cells"):
        return self.it.new_arr(Arr((self.C, 4, 2), lambda c, k, d: T.rawapp(name, (T.lift(c), T.lift(k), T.lift(d)), "R")))

    def new(self, forcing, bpts=None, bfun=None, bcond=None, mesh=None, cells=None, **over):
        it = self.it
        e = lambda: it.alloc(DictC({}))
        kw = dict(mesh=mesh, cells=cells if cells is not None else self.cells(), boundary_points=bpts if bpts is not None else e(), cell_type="quadrilateral", fe_order=self.n,
                  fe_type=self.fam, quad_order=self.Q, quad_type=self.qt, fe_transformation_type=self.tr, bound_function_dict=bfun if bfun is not None else e(),
                  bound_condition_dict=bcond if bcond is not None else e(), forcing_function=forcing, output_path="out")
        kw.update(over)
        s = it.instantiate(self.space_cls, [], kw)
        if self.decoy:
            self.other(over.get("generate_mesh_plot"))
        return s

    def other(self, plot=None):
        """Another space with other data, alive from now on: what is asked of the first space must not depend on it."""
        it = self.it
        a = lambda nm, *sh: it.new_arr(Arr(sh, lambda *i, nm=nm: T.rawapp(nm, tuple(T.lift(k) for k in i), "R")))
        n = T.var("n_other", "I", 1)
        kw = dict(mesh=Opaque("other_mesh"), cells=a("cells_other", T.var("C_other", "I", 1), 4, 2), boundary_points=it.alloc(DictC({7: a("bp_other", n, 2)})), cell_type="quadrilateral",
                  fe_order=T.var("order_other", "I", 2, 999), fe_type=self.fam, quad_order=T.var("Q_other", "I", 3, 9999), quad_type=self.qt, fe_transformation_type=self.tr,
                  bound_function_dict=it.alloc(DictC({7: scalar_f("bf_other")})), bound_condition_dict=it.alloc(DictC({7: "dirichlet"})), forcing_function=scalar_f("f_other"), output_path="out")
        log = it.log
        s = it.instantiate(self.space_cls, [], kw)
        it.log = log
        return s

    def cell(self, c, forcing, cells="cells"):
        """The cell built from the c-th vertices, on its own."""
        co = self.it.new_arr(Arr((4, 2), lambda k, d: T.rawapp(cells, (T.lift(c), T.lift(k), T.lift(d)), "R")))
        return self.it.instantiate(self.cell_cls, [co, "quadrilateral", self.n, self.fam, self.Q, self.qt, self.tr, forcing], {})


T.NONNEG.add("nb")


def boundary(it, M=None, tags="B", cols=2):
    """A boundary dictionary with symbolically many tags and points, and a dictionary of boundary functions in another order.
    Tag k has key btag(k), points bp(k, j, .), 0 <= j < nb(k), and function bf(k; x, y); the points have cols coordinates."""
    from pyvc import lib
    B = T.var(tags, "I", 0)
    nb = lambda k: T.rawapp("nb", (T.lift(k),), "I")
    key = lambda k: T.rawapp("btag", (T.lift(k),), "I")

    def pts(k):
        k = T.lift(k)
        return Arr((nb(k), cols), lambda j, d: T.rawapp("bp", (k, T.lift(j), T.lift(d)), "R"))

    def which(t):
        return t.args[1] if t.op == "app" and t.args[0] == "btag" else None
    lib.KEYPOS["bpts"] = which
    pos = lambda j: j.args[1] if j.op == "app" and j.args[0] == "bf_pos" else T.rawapp("bf_tag", (j,), "I")

    def pf(t):
        k = which(t)
        return None if k is None else T.rawapp("bf_pos", (k,), "I")
    lib.KEYPOS["bfun"] = pf

    def fun(j):
        k = pos(T.lift(j))

        def call(it, x, y):
            X, Y = it.arr(x), it.arr(y)
            if M is not None:
                return it.new_arr(Arr((M,) + tuple(X.shape), lambda m, *I: T.rawapp("bfv", (k, T.lift(m), X.at(*I), Y.at(*I)), "R")))
            a = Arr(X.shape, lambda *I: T.rawapp("bf", (k, X.at(*I), Y.at(*I)), "R"))
            return a.at() if a.ndim == 0 else it.new_arr(a)
        return FamilyCallable(k, call)
    bpts = it.alloc(SymDictC(B, key, pts, "bpts"))
    bfun = it.alloc(SymDictC(B, lambda j: key(pos(T.lift(j))), fun, "bfun"))
    return B, nb, bpts, bfun


class FamilyCallable(SymCallable):
    def __init__(self, k, call):
        super().__init__(f"bf[{T.show(k)}]", call)
