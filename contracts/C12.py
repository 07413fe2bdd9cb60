"""C12  Each loss is the mean squared weak-form residual of its equation, per cell."""
from pyvc import terms as T
from pyvc.values import *
from .common import *

KW = ["test_shape_val_mat", "test_grad_x_mat", "test_grad_y_mat", "pred_nn", "pred_grad_x_nn", "pred_grad_y_nn", "forcing_function", "bilinear_params"]
LOSSES = [
    ("poisson", "fastvpinns.physics.poisson2d", "pde_loss_poisson", None),
    ("helmholtz", "fastvpinns.physics.helmholtz2d", "pde_loss_helmholtz", None),
    ("cd", "fastvpinns.physics.cd2d", "pde_loss_cd2d", None),
    ("poisson", "fastvpinns.physics.poisson2d_inverse", "pde_loss_poisson_inverse", "inverse_params_dict"),
    ("cd", "fastvpinns.physics.cd2d_inverse", "pde_loss_cd2d", "inverse_params_dict"),
    ("cd", "fastvpinns.physics.cd2d_inverse_domain", "pde_loss_cd2d_inverse_domain", "inverse_params_list"),
]


def residual(kind, inv, t, c, Q):
    A = lambda nm, *I: T.rawapp(nm, tuple(T.lift(i) for i in I), "R")
    par = lambda nm: T.var("p_" + nm, "R")
    q = T.fresh("q", "I", 0, Q)
    eps = lambda q: T.ONE
    if inv == "inverse_params_dict":
        co = T.var("inv_eps", "R")
    elif inv == "inverse_params_list":
        co, eps = T.ONE, lambda q: A("field", c, q)
    else:
        co = par("eps")
    S = lambda f: T.sumr(q, Q, f(q))
    diff = T.add(S(lambda q: T.mul(A("Gx", c, t, q), A("ux", c, q), eps(q))), S(lambda q: T.mul(A("Gy", c, t, q), A("uy", c, q), eps(q))))
    diff = T.mul(co, diff)
    V = lambda nm: S(lambda q: T.mul(A("V", c, t, q), A(nm, c, q)))
    f = A("F", t, c)
    if kind == "poisson":
        return T.sub(diff, f)
    if kind == "helmholtz":
        return T.sub(T.sub(T.mul(par("k"), par("k"), V("u")), diff), f)
    return T.sub(T.add(diff, T.mul(par("b_x"), V("ux")), T.mul(par("b_y"), V("uy")), T.mul(par("c"), V("u"))), f)


def inputs(it, dtype, C, N, Q):
    def arr(nm, shape):
        return it.new_arr(Arr(shape, lambda *I: T.rawapp(nm, tuple(T.lift(i) for i in I), "R"), dtype, "tf"))
    sc = lambda nm: it.new_arr(Arr((), lambda: T.var(nm, "R"), dtype, "tf"))
    par = it.alloc(DictC({k: sc("p_" + k) for k in ("eps", "k", "b_x", "b_y", "c")}))
    kw = dict(zip(KW, [arr("V", (C, N, Q)), arr("Gx", (C, N, Q)), arr("Gy", (C, N, Q)), arr("u", (C, Q)), arr("ux", (C, Q)), arr("uy", (C, Q)), arr("F", (N, C)), par]))
    inv = {"inverse_params_dict": it.alloc(DictC({"eps": sc("inv_eps")})), "inverse_params_list": it.alloc(ListC.of([arr("field", (C, Q))]))}
    return kw, inv


def verify(ck):
    C, N, Q = T.var("C", "I", 1), T.var("N", "I", 1), T.var("Q", "I", 1)
    for kind, mod, fn, inv in LOSSES:
        for dtype in ("float32", "float64"):
            with ck.section(f"{mod.split('.')[-1]}[{dtype}]", fn):
                it = ck.interp()
                fr = it.module_frame(it.load_module(mod))

                def run():
                    kw, invs = inputs(it, dtype, C, N, Q)
                    k2 = dict(kw)
                    if inv:
                        k2[inv] = invs[inv]
                    r = it.call(fr[fn], [], k2)
                    # positional calls and repeated calls give the same loss
                    r2 = it.call(fr[fn], list(k2.values()), {})
                    return [r, r2, kw]
                for o in ck.single(it, run, name="accepts the keyword arguments of the matching model", func=fn):
                    it.restore(o.state)
                    r, r2, kw = o.value
                    for nm, v in (("loss", r), ("second call", r2)):
                        a = it.arr(v)
                        n = T.fresh("t", "I", 0, N)

                        def spec(c):
                            rs = residual(kind, inv, n, c, Q)
                            return T.div(T.sumr(n, N, T.mul(rs, rs)), N)
                        ck.arrays_equal(it, f"{nm} of every cell = mean squared residual", a, (C,), spec, fn)
                        ck.fact(f"{nm} keeps the dtype", a.dtype in (dtype, "tf." + dtype), fn, str(a.dtype))
