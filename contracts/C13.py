"""C13  A training step descends the documented total loss of the current network.

The network is any function that works row by row (for the layer models a consequence of C14): its value at row r of a
tensor x is NET(c; x[r,0], x[r,1]), its derivatives NETD(c, d; ...).  `call` is replaced by that contract; everything
else of the constructor and of train_step is executed from source, for any number of cells, quadrature points, tests,
boundary and sensor points.  Every network value carries the set of gradient tapes that recorded it."""
from pyvc import terms as T, tflib, lib as L
from pyvc.values import *
from .models import Model, KINDS

NAMES = ["test_shape_val_mat", "test_grad_x_mat", "test_grad_y_mat", "pred_nn", "pred_grad_x_nn", "pred_grad_y_nn", "forcing_function", "bilinear_params"]


def verify(ck):
    for kind in KINDS:
        for dt in ("float32", "float64"):
            with ck.section(f"{kind} training step, {dt}", KINDS[kind][1] + ".train_step"):
                steps(ck, kind, dt)


def steps(ck, kind, dt):
    m = Model(ck, kind, dt)
    it, f = m.it, m.func + ".train_step"
    outc = 2 if kind == "domain" else 1
    m.given_dims = lambda i: T.ite(T.eq(i, 0), T.const(2), T.ite(T.eq(i, T.sub(m.L, 1)), T.const(outc), T.rawapp("layer_dim", (i,), "I")))
    calls = []

    def net(it, self_, inputs, **kw):
        a = L.to_tensor(it, inputs)
        if a.dtype != dt:
            a = L.cast(it, a, dt)
        if a.ndim != 2 or a.shape[1] != 2:
            raise Unsupported("shape of the network input")
        it.calls.add(f"[contract] {m.func}.call")
        it.assumed.append("the network, hard constraint function included, maps each row of its input on its own, with no other state (for the layers this is C14)")
        ts = L.tapeset(it.tapes_active)
        return Arr((a.shape[0], outc), lambda r, c: T.rawapp("NET", (ts, T.lift(c), a.at(r, 0), a.at(r, 1)), "R"), dt, "tf")
    it.overrides[m.cls.lookup("call").qual] = net
    extra = {"inverse": ["inverse_params_dict"], "domain": ["inverse_params_list"]}.get(kind, [])

    def loss(it, *args, **kw):
        names = NAMES + extra
        a = dict(zip(names, args))
        a.update(kw)
        n = len(calls)
        calls.append((a, frozenset(it.tapes_active)))
        it.log = it.log + (("loss", n),)
        ts = L.tapeset(it.tapes_active)
        return Arr((m.C,), lambda c: T.rawapp("NETLOSS", (ts, T.const(n), T.lift(c)), "R"), dt, "tf")
    it.assume(T.ge(m.L, 2))
    beta, beta2 = T.var("beta", "R"), T.var("beta_2", "R")
    params = it.alloc(DictC({"eps": T.var("eps", "R")}))

    def run():
        o = m.new(loss=SymCallable("loss", loss))
        before = dict(it.content(o).attrs)
        tv0 = tflib.trainable(it, it.content(o))
        r1 = it.call_method(o, "train_step", [], {"beta": beta, "bilinear_params_dict": params})
        mid = dict(it.content(o).attrs)
        log1 = it.log
        r2 = it.call_method(o, "train_step", [], {"beta": beta2, "bilinear_params_dict": params})
        r3 = it.call_method(o, "train_step", [], {})
        return o, r1, r2, r3, before, mid, log1, tv0
    outs = ck.single(it, run, func=f)
    for o in outs:
        it.restore(o.state)
        obj, r1, r2, r3, before, mid, log1, tv0 = o.value
        ev = [e for e in it.log if e[0] in ("loss", "apply")]
        ck.fact("each step calls the loss once and applies gradients once", [e[0] for e in ev] == ["loss", "apply"] * 3, f, str([e[0] for e in ev]))
        if [e[0] for e in ev] != ["loss", "apply"] * 3:
            continue
        for n, (r, b, p) in enumerate(((r1, beta, params), (r2, beta2, params), (r3, T.const(10), None))):
            step(ck, m, kind, dt, f, it, obj, r, b, p, calls[ev[2 * n][1]], ev[2 * n][1], ev[2 * n + 1][1], tv0, f"step {n + 1}: ")
        changed = [k for k in mid if k != "gradients" and (k not in before or before[k] is not mid[k])]
        ck.fact("a step changes no attribute the next one reads", not changed, f, f"attributes {changed} change", bad="unknown")


def step(ck, m, kind, dt, f, it, obj, r, beta, params, call, n, applied, tv0, lab):
    args, tapes = call
    C, Q, NT, N = m.C, m.Q, m.NT, m.N
    if not (isinstance(r, Ref) and isinstance(it.content(r), DictC)):
        return ck.fact(lab + "losses reported in a dictionary", False, f, str(r))
    rep = it.content(r).d
    gr = None
    # the tape whose gradients are applied
    pairs = applied if isinstance(applied, list) else None
    first = pairs[0] if pairs else it.explore(lambda: applied.fn(T.ZERO))[0].value
    ok = isinstance(first, tuple) and len(first) == 2 and isinstance(first[0], Opaque) and first[0].label == "gradient"
    if not ck.fact(lab + "gradients of a tape are applied", ok, f, str(first)):
        return
    tape = first[0].attrs["tape"]

    def whole(name, t):
        """Every network value in t was recorded by the tape whose gradients are applied."""
        hits = []
        L._collect_nets(t, hits, set())
        bad = [h for h in hits if tape not in L.TAPESETS[int(T.cval(h.args[1]))]]
        return ck.fact(lab + name + ": recorded by the tape the gradient comes from", not bad, f, "; ".join(T.show(b) for b in bad)[:300])

    def plain(t):
        """t without the tape annotations."""
        return L.strip_tapes(t, frozenset())
    E = L.tapeset(())
    net = lambda c, x, y: T.rawapp("NET", (E, T.const(c), x, y), "R")
    netd = lambda c, d, x, y: T.rawapp("NETD", (E, T.const(c), T.const(d), x, y), "R")
    X = lambda c, q, d: m.X.at(T.add(T.mul(Q, c), q), T.const(d))
    c, q, k = T.fresh("c", "I", 0, C), T.fresh("q", "I", 0, Q), T.fresh("t", "I", 0, NT)
    x, y = X(c, q, 0), X(c, q, 1)

    def arg(name, shape, idx, spec, isnet=False):
        a = it.as_arr_or_none(args.get(name)) if name in args else None
        if not ck.fact(lab + f"the loss is given {name}", a is not None and a.ndim == len(shape), f, f"{args.get(name)!r}"):
            return
        ck.fact(lab + f"dtype of {name}", a.dtype == dt, f, f"{a.dtype}")
        if not ck.oblige(lab + f"{name}: shape", T.and_(*[T.eq(T.lift(u), T.lift(v)) for u, v in zip(a.shape, shape)]), it.pc, f):
            return
        t = a.at(*idx)
        ck.equal(lab + f"{name}: elements", plain(t), spec, it.pc, f)
        if isnet:
            whole(name, t)
    names = set(NAMES) | {"inverse": {"inverse_params_dict"}, "domain": {"inverse_params_list"}}.get(kind, set())
    ck.fact(lab + "arguments of the loss function", set(args) == names, f, f"{sorted(args)}")
    arg("test_shape_val_mat", (C, NT, Q), (c, k, q), m.V.at(c, k, q))
    arg("test_grad_x_mat", (C, NT, Q), (c, k, q), m.GX.at(c, k, q))
    arg("test_grad_y_mat", (C, NT, Q), (c, k, q), m.GY.at(c, k, q))
    arg("forcing_function", (NT, C), (k, c), m.F.at(k, c))
    arg("pred_nn", (C, Q), (c, q), net(0, x, y), True)
    arg("pred_grad_x_nn", (C, Q), (c, q), netd(0, 0, x, y), True)
    arg("pred_grad_y_nn", (C, Q), (c, q), netd(0, 1, x, y), True)
    bp = args.get("bilinear_params")
    ck.fact(lab + "bilinear_params are the caller's", bp is params or isinstance(bp, Ref) and bp == params, f, f"{bp!r}")
    if kind == "domain":
        l = args.get("inverse_params_list")
        ok = isinstance(l, Ref) and isinstance(it.content(l), ListC) and it.content(l).concrete() and len(it.concrete_items(l)) == 1
        if ck.fact(lab + "inverse_params_list holds one field", ok, f, f"{l!r}"):
            args = dict(args)
            args["inverse_params_list[0]"] = it.concrete_items(l)[0]
            arg2 = it.as_arr_or_none(args["inverse_params_list[0]"])
            ck.oblige(lab + "inverse field: shape", T.and_(*[T.eq(T.lift(u), v) for u, v in zip(arg2.shape, (C, Q))]) if arg2.ndim == 2 else T.FALSE, it.pc, f)
            if arg2.ndim == 2:
                t = arg2.at(c, q)
                ck.equal(lab + "inverse field: elements", plain(t), net(1, x, y), it.pc, f)
                whole("inverse field", t)
    # ---- reported losses
    def scalar(name):
        v = it.as_arr_or_none(rep[name]) if name in rep else None
        if not ck.fact(lab + f"{name} is reported", v is not None and v.ndim <= 1, f, f"{rep.get(name)!r}"):
            return None
        if v.ndim == 1 and not ck.oblige(lab + f"{name} is one number", T.eq(T.lift(v.shape[0]), 1), it.pc, f):
            return None
        return T.lift(v.at(*[T.ZERO] * v.ndim))
    cc = T.fresh("c", "I", 0, C)
    pde = T.sumr(cc, C, T.rawapp("NETLOSS", (E, T.const(n), cc), "R"))

    def mse(P, Y, n_):
        i = T.fresh("i", "I", 0, n_)
        d = T.sub(net(0, P.at(i, 0), P.at(i, 1)), Y.at(i, 0))
        return T.div(T.sumr(i, n_, T.mul(d, d)), n_)
    want = {"loss_pde": pde, "loss_dirichlet": T.ZERO if kind == "hard" else mse(m.DX, m.DY, m.nd)}
    total = T.add(pde, T.mul(beta, want["loss_dirichlet"]))
    if kind in ("inverse", "domain"):
        want["sensor_loss"] = mse(m.SX, m.SY, m.ns)
        total = T.add(total, T.mul(10, want["sensor_loss"]))
    want["loss"] = total
    for name, spec in want.items():
        v = scalar(name)
        if v is not None:
            ck.equal(lab + name, plain(v), spec, it.pc, f)
    # ---- the applied gradients
    n_vars = loops_len(tv0)
    cnt = T.const(len(pairs)) if pairs is not None else T.lift(applied.n)
    ck.equal(lab + "every trainable variable is updated once", cnt, n_vars, it.pc, f)
    tl = it.alloc(ListC(tv0))
    j = T.fresh("variable", "I", 0, n_vars)

    def check():
        p = pairs_at(it, applied, j)
        v = it.list_get(it.content(tl), j, checked=True)
        return p, v
    for o in it.explore(check):
        if o.flow != "normal":
            ck.fact(lab + "applied gradients", False, f, f"{o.exc}")
            continue
        (g, v1), v0 = o.value
        pc = o.state.pc
        ok = isinstance(g, Opaque) and g.label == "gradient" and isinstance(v1, Opaque) and v1.label == "tf.Variable"
        if not ck.fact(lab + "a gradient for each variable", ok, f, f"{g!r} {v1!r}"):
            continue
        same = lambda a, b: T.and_(*[T.eq(T.lift(a.attrs[z]), T.lift(b.attrs[z])) for z in ("site", "index", "which")])
        ck.oblige(lab + "the variables updated are the trainable variables", same(v1, v0), pc, f)
        ck.oblige(lab + "each variable gets its own gradient", same(g.attrs["wrt"], v1), pc, f)
        a = g.attrs["of"]
        if a.ndim == 1 and not ck.oblige(lab + "the differentiated loss is one number", T.eq(T.lift(a.shape[0]), 1), it.pc, f):
            continue
        t = T.lift(a.at(*[T.ZERO] * a.ndim))
        ck.equal(lab + "the gradient is that of the total loss", plain(t), total, it.pc, f)
        whole("total loss", t)
        ck.fact(lab + "one tape", g.attrs["tape"] == tape, f, "gradients of different tapes")
    if kind == "inverse":
        d = args.get("inverse_params_dict")
        cont = it.content(d) if isinstance(d, Ref) else None
        if ck.fact(lab + "the loss is given the inverse parameters", isinstance(cont, SymDictC), f, f"{d!r}"):
            jj = T.fresh("parameter", "I", 0, m.ni)
            ck.equal(lab + "one value per inverse parameter", T.lift(cont.n), m.ni, it.pc, f)
            ck.oblige(lab + "names of the inverse parameters", T.eq(cont.keyfn(jj), T.rawapp("inverse_name", (jj,), "U")), it.pc, f)
            v = cont.valfn(jj)
            if ck.fact(lab + "inverse parameters are variables", isinstance(v, Opaque) and v.label == "tf.Variable", f, f"{v!r}"):
                ck.oblige(lab + "inverse parameters are trainable", T.lift(v.attrs["trainable"]), it.pc, f)
                ck.fact(lab + "dtype of the inverse parameters", v.attrs["vdtype"] == dt, f, v.attrs["vdtype"])
                init = T.lift(v.attrs["initial"])
                ck.equal(lab + "initial inverse parameters", init, T.rawapp("inverse_value", (jj,), "R"), it.pc, f)
                own = [s for s in tv0 if not s.single and T.sub(s.length, m.ni) is T.ZERO]
                found = T.or_(*[T.and_(*[T.eq(T.lift(v.attrs[z]), T.lift(s.fn(jj).attrs[z])) for z in ("site", "index", "which")]) for s in own]) if own else T.FALSE
                ck.oblige(lab + "the inverse parameters are among the trainable variables", found, it.pc, f)


def loops_len(segs):
    n = T.ZERO
    for s in segs:
        n = T.add(n, s.length)
    return n


def pairs_at(it, applied, j):
    if isinstance(applied, list):
        return it.list_get(ListC.of(applied), j, checked=True)
    return applied.fn(j)
