"""C19  Hyperparameter tuning evaluates the configuration a trial suggests.

The objective is verified against the contracts of the classes it drives (geometry C09/C18, space C16, data handler C11, model C13/C14); the error
metric (C15) is entered.  optuna, the user's example module (sin_cos) and the trial are symbolic."""
from pyvc import terms as T
from pyvc.values import *
from pyvc import lib as L
from .common import *

OBJ = "fastvpinns.hyperparameter_tuning.objective"
TUN = "fastvpinns.hyperparameter_tuning.optuna_tuner"
F = "objective"


def verify(ck):
    with ck.section("objective", "objective"):
        objective(ck)
    with ck.section("tuner", "OptunaTuner.run"):
        tuner(ck)


def length(it, x):
    return num(L.LIB_len(it, x))


def events(it):
    ev = {}
    for d in it.log:
        if d[0] == "C19":
            ev.setdefault(d[1], []).append(d[2])
    return ev


def num(x):
    return T.lift(x) if not isinstance(x, Term) else x


class Env:
    def __init__(self, ck):
        it = self.it = ck.interp()
        self.ck = ck
        self.suggested = {}
        fr = it.module_frame(it.load_module(OBJ))
        self.obj = fr["objective"]
        def real(n):
            def f(it, x, y):
                a, b = it.arr(x), it.arr(y)
                return it.new_arr(Arr(a.shape, lambda *I: T.rawapp(n, (a.at(*I), b.at(*I)), "R")))
            return f
        self.exact, self.rhs = SymCallable("exact_solution", real("exact")), SymCallable("rhs", real("rhs"))
        self.bf, self.bc = Opaque("boundary functions"), Opaque("boundary conditions")
        self.bp = SymCallable("get_bilinear_params_dict", lambda it: Opaque("bilinear parameters"))
        for n, v in (("exact_solution", self.exact), ("rhs", self.rhs), ("get_boundary_function_dict", SymCallable("gbf", lambda it: self.bf)),
                     ("get_bound_cond_dict", SymCallable("gbc", lambda it: self.bc)), ("get_bilinear_params_dict", self.bp)):
            fr.setdefault(n, v)
        self.loss = it.module_frame(it.load_module("fastvpinns.physics.poisson2d"))["pde_loss_poisson"]
        G = it.module_frame(it.load_module("fastvpinns.Geometry.geometry_2d"))["Geometry_2D"]
        S = it.module_frame(it.load_module("fastvpinns.FE.fespace2d"))["Fespace2D"]
        H = it.module_frame(it.load_module("fastvpinns.data.datahandler2d"))["DataHandler2D"]
        M = it.module_frame(it.load_module("fastvpinns.model.model"))["DenseModel"]
        rec = self.record
        self.NT, self.ND = T.var("n_test_points", "I", 1), T.var("n_dirichlet", "I", 1)
        tens = lambda n, sh: Arr(sh, lambda *I: T.rawapp(n, tuple(T.lift(i) for i in I), "R"), "float32", "tf")

        def geo_init(it, a, self_):
            for k in ("mesh_type", "mesh_generation_method"):
                it.setattr(self_, k, a[k])

        def mesh(it, a, self_):
            self.C = T.mul(num(a["n_cells_x"]), num(a["n_cells_y"]))
            self.cells = it.new_arr(Arr((self.C, 4, 2), lambda *I: T.rawapp("cell", tuple(T.lift(i) for i in I), "R")))
            self.mesh, self.bd = Opaque("mesh"), Opaque("boundary points")
            it.setattr(self_, "mesh", self.mesh)
            return (self.cells, self.bd)

        def tests(it, a, self_):
            return it.new_arr(Arr((self.NT, 2), lambda i, d: T.rawapp("testpt", (T.lift(i), T.lift(d)), "R")))

        def space(it, a, self_):
            it.setattr(self_, "n_cells", it.arr(a["cells"]).shape[0])
            for k in ("cells", "mesh"):
                it.setattr(self_, k, a[k])

        def handler(it, a, self_):
            NB, NQ = T.var("n_basis", "I", 1), T.var("n_quad", "I", 1)
            self.tens = {"x_pde_list": tens("xq", (T.mul(self.C, NQ), 2)), "shape_val_mat_list": tens("V", (self.C, NB, NQ)), "grad_x_mat_list": tens("GX", (self.C, NB, NQ)),
                         "grad_y_mat_list": tens("GY", (self.C, NB, NQ)), "forcing_function_list": tens("FF", (NB, self.C)), "din": tens("DX", (self.ND, 2)), "dval": tens("DY", (self.ND, 1))}
            for k, v in self.tens.items():
                it.setattr(self_, k, v)
            for k in ("fespace", "domain", "dtype"):
                it.setattr(self_, k, a[k])

        self.bpt = Opaque("bilinear tensors")
        self.steps = None

        def model(it, a, self_):
            self.steps = it.alloc(ListC(()))
            it.setattr(self_, "_autocast", True)
            it.setattr(self_, "_compute_dtype", "float32")

        def step(it, a, self_):
            b = a["beta"]
            b = it.arr(b).at() if isinstance(b, (Arr, Ref)) else b
            same = a["bilinear_params_dict"] is self.bpt
            it.call_method(self.steps, "append", [(b, T.TRUE if same else T.FALSE)], {})
            return Opaque("losses")

        def net(it, a, self_):
            x = it.arr(a["inputs"])
            n = length(it, self.steps)
            return Arr((x.shape[0], 1), lambda i, k: T.rawapp("TRAINED", (n, x.at(i, 0), x.at(i, 1)), "R"), "float32", "tf")
        for cls, m, name, body in ((G, "__init__", "geometry", geo_init), (G, "generate_quad_mesh_internal", "mesh", mesh), (G, "get_test_points", "tests", tests), (S, "__init__", "space", space),
                                   (H, "__init__", "handler", handler), (H, "get_dirichlet_input", "dirichlet", lambda it, a, s: (self.tens["din"], self.tens["dval"])),
                                   (H, "get_bilinear_params_dict_as_tensors", "bilinear", lambda it, a, s: self.bpt), (M, "__init__", "model", model), (M, "train_step", "step", step), (M, "call", "net", net)):
            self.contract(cls, m, name, body)

    def contract(self, cls, m, name, body):
        fn = cls.lookup(m)

        def ov(it, *args, **kw):
            a = it.bind(fn, list(args), dict(kw))
            self.record(name, a)
            it.calls.add(f"[contract] {cls.name}.{m}")
            return body(it, a, args[0])
        self.it.overrides[fn.qual] = ov

    def record(self, name, a):
        self.it.log = self.it.log + (("C19", name, a),)

    def trial(self):
        def bounds(name, lo, hi):
            self.suggested[name if isinstance(name, str) else "*"] = (lo, hi)

        def s_int(it, name, low, high, **kw):
            t = T.rawapp("suggested_int", (L.opaque_term(name),), "I")
            bounds(name, low, high)
            it.assume(T.and_(T.ge(t, num(low)), T.le(t, num(high))))
            return t

        def s_real(it, name, low, high, **kw):
            t = T.rawapp("suggested_real", (L.opaque_term(name),), "R")
            it.assume(T.and_(T.ge(t, num(low)), T.le(t, num(high))))
            return t

        def s_cat(it, name, choices):
            t = T.rawapp("suggested_choice", (L.opaque_term(name),), "U")
            cs = it.concrete_items(choices)
            if not all(isinstance(c, str) for c in cs):
                raise Unsupported("choices that are not strings")
            it.assume(T.or_(*[T.eq(t, T.strc(c)) for c in cs]))
            return t
        f = lambda n, g: LibFn("", g)
        return Opaque("trial", {"suggest_int": f("i", s_int), "suggest_float": f("r", s_real), "suggest_loguniform": f("r", s_real), "suggest_uniform": f("r", s_real), "suggest_categorical": f("c", s_cat),
                                "number": T.var("trial_number", "I", 0)})


def sint(n):
    return T.rawapp("suggested_int", (L.opaque_term(n),), "I")


def sreal(n):
    return T.rawapp("suggested_real", (L.opaque_term(n),), "R")


def scat(n):
    return T.rawapp("suggested_choice", (L.opaque_term(n),), "U")


def objective(ck):
    e = Env(ck)
    it = e.it
    N = T.var("num_epochs", "I", 0)
    snap = {}

    def run():
        it.log = ()
        return it.call(e.obj, [e.trial(), N], {})
    outs = it.explore(run)
    if not ck.fact("the objective returns", bool(outs) and all(o.flow != "raise" for o in outs), F, str([str(o.exc) for o in outs if o.flow == "raise"])[:300]):
        return
    for o in outs:
        it.restore(o.state)
        v, ev = o.value, events(it)
        one = lambda n: ev.get(n, [{}])[0] if len(ev.get(n, [])) == 1 else None
        g, m, s, h, d, b, mod = (one(x) for x in ("geometry", "mesh", "space", "handler", "dirichlet", "bilinear", "model"))
        if not all((g, m, s, h, d, b, mod)):
            raise Unsupported(f"the objective does not build one geometry, space, handler and model: {({k: len(x) for k, x in ev.items()})}")
        val = lambda x: L.opaque_term(x) if isinstance(x, (str, Opaque)) else x
        eq = lambda what, a, w: ck.oblige(what, T.eq(val(a), val(w)), it.pc, F) if isinstance(val(a), Term) or isinstance(val(w), Term) else ck.fact(what, a == w, F, f"{a!r}"[:200])
        same = lambda what, a, w: ck.fact(what, a is w or isinstance(a, Ref) and isinstance(w, Ref) and a.oid == w.oid, F, repr(a)[:200])
        eq("the domain is meshed with quadrilaterals", g["mesh_type"], "quadrilateral")
        eq("by the internal mesh generator", g["mesh_generation_method"], "internal")
        for k, w in (("n_cells_x", "n_cells_x"), ("n_cells_y", "n_cells_y"), ("num_boundary_points", "n_boundary_points")):
            ck.equal(f"mesh: {k} is the suggested {w}", num(m[k]), sint(w), it.pc, F)
        for k in ("x_limits", "y_limits"):
            ends = it.concrete_items(m[k])
            ck.fact(f"mesh: {k} of the unit square", [num(x) for x in ends] == [T.ZERO, T.ONE], F, str(ends))
        same("space: cells of the mesh", s["cells"], e.cells)
        same("space: its boundary points", s["boundary_points"], e.bd)
        same("space: the mesh", s["mesh"], e.mesh)
        eq("space: cell type", s["cell_type"], "quadrilateral")
        for k in ("fe_order", "quad_order"):
            ck.equal(f"space: {k} is the suggested one", num(s[k]), sint(k), it.pc, F)
        for k in ("fe_type", "quad_type"):
            eq(f"space: {k} is the suggested one", s[k], scat(k))
        same("space: boundary functions of the problem", s["bound_function_dict"], e.bf)
        same("space: boundary conditions of the problem", s["bound_condition_dict"], e.bc)
        same("space: source of the problem", s["forcing_function"], e.rhs)
        # the ranges the trial draws from are accepted (preconditions of the space, C16)
        ck.oblige("suggested fe_order is admissible", T.and_(T.ge(num(s["fe_order"]), 2), T.le(num(s["fe_order"]), 999)), it.pc, F)
        ck.oblige("suggested quad_order is admissible", T.and_(T.ge(num(s["quad_order"]), 3), T.le(num(s["quad_order"]), 9999)), it.pc, F)
        ck.oblige("suggested fe_type is supported", T.or_(*[T.eq(val(s["fe_type"]), T.strc(f)) for f in FAMILIES]), it.pc, F)
        ck.oblige("suggested quad_type is supported", T.or_(*[T.eq(val(s["quad_type"]), T.strc(f)) for f in ("gauss-legendre", "gauss-jacobi")]), it.pc, F)
        ck.fact("the transformation is supported", s["fe_transformation_type"] in ("bilinear", "affine"), F, str(s["fe_transformation_type"]))
        ck.oblige("at least one cell in each direction", T.and_(T.ge(num(m["n_cells_x"]), 1), T.ge(num(m["n_cells_y"]), 1)), it.pc, F)
        same("data handler: the space", h["fespace"], s["self"])
        same("data handler: the geometry", h["domain"], g["self"])
        same("parameters of the problem", b[[k for k in b if k != "self"][0]], e.bp)
        # the model
        n = length(it, mod["layer_dims"])
        nl = sint("n_layers")
        ck.equal("as many layers as suggested", n, T.add(nl, 2), it.pc, F)
        at = lambda i: num(it.getitem(mod["layer_dims"], i))
        ck.equal("two inputs", at(0), T.const(2), it.pc, F)
        ck.equal("one output", at(T.add(nl, 1)), T.ONE, it.pc, F)
        i = T.fresh("i", "I", 0, nl)
        it.assume(T.and_(T.ge(i, 0), T.lt(i, nl)))
        ck.equal("width of hidden layer i is the suggested layer_i", at(T.add(i, 1)), sint(L.mk_str(("layer_", i))), it.pc, F)
        lr = it.content(mod["learning_rate_dict"]).d
        for k, w in (("initial_learning_rate", sreal("initial_learning_rate")), ("decay_steps", sint("decay_steps")), ("decay_rate", sreal("decay_rate"))):
            ck.equal(f"learning rate: {k} is the suggested one", num(lr[k]), w, it.pc, F)
        ck.fact("learning rate: the scheduler is enabled", lr["use_lr_scheduler"] is True or lr["use_lr_scheduler"] == T.TRUE, F, str(lr.get("use_lr_scheduler")))
        ck.equal("the model's number of cells", num(it.content(mod["params_dict"]).d["n_cells"]), e.C, it.pc, F)
        ck.fact("the loss is the poisson residual", getattr(mod["loss_function"], "qual", None) == e.loss.qual, F, repr(mod["loss_function"])[:100])
        for what, got, want in (("inputs", mod["input_tensors_list"], ("x_pde_list", "din", "dval")), ("tables", mod["orig_factor_matrices"], ("shape_val_mat_list", "grad_x_mat_list", "grad_y_mat_list"))):
            got = it.concrete_items(got)
            for k, (a, w) in enumerate(zip(got, want)):
                ck.arrays_equal(it, f"{what} {k}: {w} of the data handler", it.arr(a), e.tens[w].shape, e.tens[w].at, F)
            ck.fact(f"{what}: all", len(got) == 3, F)
        ck.arrays_equal(it, "forcing matrix of the data handler", it.arr(mod["force_function_list"]), e.tens["forcing_function_list"].shape, e.tens["forcing_function_list"].at, F)
        ck.fact("no attention layer, tanh", mod.get("use_attention") is False and mod.get("activation") == "tanh", F)
        ck.fact("one precision", str(h["dtype"]) == str(mod["tensor_dtype"]), F, f"{h['dtype']} {mod['tensor_dtype']}")
        # training and result
        ck.equal("num_epochs training steps", length(it, e.steps), N, it.pc, F)
        k = T.fresh("k", "I", 0, N)
        pc = it.pc + [T.ge(k, 0), T.lt(k, N)]
        beta, same_p = it.getitem(e.steps, k)
        ck.equal("every step uses beta = 10", num(beta), T.const(10), pc, F)
        ck.oblige("every step uses the parameters of the problem", same_p if isinstance(same_p, Term) else T.lift(same_p), pc, F)
        p = lambda i, d: T.rawapp("testpt", (i, T.const(d)), "R")
        u = lambda i: T.rawapp("exact", (p(i, 0), p(i, 1)), "R")
        w = lambda i: T.rawapp("TRAINED", (N, p(i, 0), p(i, 1)), "R")
        def mean(f):
            q = T.fresh("q", "I", 0, e.NT)
            return T.div(T.sumr(q, e.NT, f(q)), e.NT)
        sq = lambda t: T.mul(t, t)
        err = T.div(T.sqrt(mean(lambda i: sq(T.sub(u(i), w(i))))), T.sqrt(mean(lambda i: sq(u(i)))))
        r = it.arr(v).at() if isinstance(v, (Arr, Ref)) else v
        ck.equal("the result is the relative l2 error of the trained model at the test points", num(r), err, it.pc, F)


def tuner(ck):
    """run(): a minimisation study of n_trials trials; a trial's value is objective(trial, n_epochs), on one of the GPUs if there is any;
    the parameters of the best trial are returned."""
    it = ck.interp()
    fr = it.module_frame(it.load_module(TUN))
    NTR, NEP, NJ, NG = T.var("n_trials", "I", 1), T.var("n_epochs", "I", 0), T.var("n_jobs", "I"), T.rawapp("n_devices", (T.strc("GPU"),), "I")
    it.assume(T.or_(T.ge(NJ, 1), T.eq(NJ, T.const(-1))))
    obj = it.module_frame(it.load_module(OBJ))["objective"]

    def objective_contract(it, *args, **kw):
        a = it.bind(obj, list(args), dict(kw))
        it.log = it.log + (("C19", "objective", (a, it.devices)),)
        it.calls.add("[contract] objective")
        return T.rawapp("OBJ", (a["trial"].attrs["number"], num(a["num_epochs"])), "R")
    it.overrides[obj.qual] = objective_contract

    def create_study(it, **kw):
        it.log = it.log + (("C19", "study", kw),)
        return study

    def optimize(it, func, n_trials=None, n_jobs=1, **kw):
        t = Opaque("trial", {"number": T.var("trial_number", "I", 0)})
        r = it.call(func, [t], {})
        it.log = it.log + (("C19", "optimize", (n_trials, n_jobs, t, r)),)

    def run():
        it.log = ()
        it.devices = ()
        n = T.var("n_params", "I", 0)
        best = it.alloc(SymDictC(n, lambda k: T.rawapp("param_name", (T.lift(k),), "U"), lambda k: T.rawapp("param_value", (T.lift(k),), "R"), "best"))
        study.attrs.update(best_params=best, best_value=T.var("best_value", "R"),
                           best_trial=Opaque("trial", {"value": T.var("best_value", "R"), "params": best, "number": T.var("best_number", "I", 0)}))
        t = it.instantiate(fr["OptunaTuner"], [], {"n_trials": NTR, "study_name": "s", "n_jobs": NJ, "n_epochs": NEP})
        v = it.call_method(t, "run", [], {})
        return v, best
    study = Opaque("study", {"optimize": LibFn("", optimize)})
    fr["optuna"] = Opaque("optuna", {"create_study": LibFn("", create_study)})
    outs = it.explore(run)
    f = "OptunaTuner.run"
    if not ck.fact("run returns", bool(outs) and all(o.flow != "raise" for o in outs), f, str([str(o.exc) for o in outs if o.flow == "raise"])[:300]):
        return
    for o in outs:
        it.restore(o.state)
        (v, best), lg = o.value, events(it)
        ck.fact("one study, minimised", len(lg["study"]) == 1 and lg["study"][0].get("direction", "minimize") == "minimize", f, str(lg["study"])[:200])
        ck.fact("one optimisation", len(lg["optimize"]) == 1, f)
        n, jobs, t, r = lg["optimize"][0]
        ck.equal("n_trials trials", num(n), NTR, it.pc, f)
        ck.oblige("at least one worker", T.or_(T.ge(num(jobs), 1), T.eq(num(jobs), T.const(-1))), it.pc, f)
        ck.equal("a trial's value is the objective with n_epochs epochs", num(r), T.rawapp("OBJ", (t.attrs["number"], NEP), "R"), it.pc, f)
        ck.fact("evaluated once", len(lg["objective"]) == 1, f)
        (a, devs), = lg["objective"]
        if devs:
            d = devs[-1]
            p = d.attrs.get("parts") if isinstance(d, Opaque) else None
            if isinstance(d, str) and d.rsplit(":", 1)[-1].isdigit():
                p = (d.rsplit(":", 1)[0] + ":", T.const(int(d.rsplit(":", 1)[-1])))
            if not p or len(p) != 2 or p[0] not in ("/device:GPU:", "/GPU:", "GPU:", "device:GPU:") or not (isinstance(p[1], Term) and p[1].sort == "I"):
                raise Unsupported(f"device name {d!r} {p!r}")
            ck.oblige("on an existing GPU", T.and_(T.ge(p[1], 0), T.lt(p[1], NG)), it.pc, f)
        ck.fact("the parameters of the best trial are returned", isinstance(v, Ref) and v.oid == best.oid, f, repr(v)[:200])
