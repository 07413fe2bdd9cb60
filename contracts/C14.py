"""C14  The network, its hard constraint and its learning rate are the configured ones.

Spec network of n layers (layer l of L-1 has layer_dims[l+1] units, the given activation except the last, the model's
dtype, and weights of its own):  NET(0) = X,  NET(l+1) = dense(spec l, NET(l)).  The model's output is shown to be
NET(L-1) for every L >= 2 by induction over the layer loop of `call`."""
from pyvc import terms as T, tflib
from pyvc.values import *
from pyvc.interp import EXC
from .models import Model, KINDS


def verify(ck):
    for kind in KINDS:
        for dt in ("float32", "float64"):
            for hc in (("function", "none") if kind == "hard" else ("",)):
                with ck.section(f"{kind} network, {dt}{', constraint ' + hc if hc else ''}", KINDS[kind][1] + ".call"):
                    network(ck, kind, dt, hc)
        with ck.section(f"{kind} network, default activation", KINDS[kind][1] + ".call"):
            network(ck, kind, "float32", "none" if kind == "hard" else "", False)
        with ck.section(f"{kind} optimizer", KINDS[kind][1] + ".__init__"):
            optimizer(ck, kind)
        if kind in ("plain", "domain"):
            with ck.section(f"{kind} optimizer, no staircase flag", KINDS[kind][1] + ".__init__"):
                optimizer(ck, kind, True)
        with ck.section(f"{kind} dtype check", KINDS[kind][1] + ".__init__"):
            bad_dtype(ck, kind)


def network(ck, kind, dt, hc, act=True):
    m = Model(ck, kind, dt)
    if not act:
        m.act = T.strc("tanh")
    it = m.it
    it.tensor_terms = True
    n = T.var("rows", "I", 1)
    XU = T.var("X", "U")
    X = Arr((n, m.dims(0)), lambda r, c: tflib.el(XU, r, c), dt, "tf")
    calls = []

    def constraint(it, x, y):
        U = T.rawapp("constraint", (tflib.tensor_term(it.arr(x)), tflib.tensor_term(it.arr(y))), "U")
        calls.append((it.arr(x).dtype, it.arr(y).dtype))
        return Arr(it.arr(y).shape, lambda r, c: tflib.el(U, r, c), it.arr(y).dtype, "tf")
    c = SymCallable("hard_constraint", constraint) if hc == "function" else None
    it.assume(T.ge(m.L, 2))

    def run():
        o = m.new(constraint=c, act=act)
        return o, it.call(o, [X], {})
    outs = ck.single(it, run, func=m.func + ".call")
    for o in outs:
        it.restore(o.state)
        y = it.arr(o.value[1])
        ck.fact("prediction dtype", y.dtype == dt, m.func + ".call", f"{y.dtype} instead of {dt}")
        ck.equal("prediction width", T.lift(y.shape[1]), m.dims(T.sub(m.L, 1)), it.pc, m.func + ".call")
        ck.equal("prediction rows", T.lift(y.shape[0]), n, it.pc, m.func + ".call")
        U = tflib.tensor_term(y)
        if hc == "function":
            ok = U.op == "app" and U.args[0] == "constraint"
            ck.fact("the prediction is the constraint function's value", ok, m.func + ".call", T.show(U)[:300])
            if not ok:
                continue
            ck.fact("the constraint function is given the input", U.args[1] is XU, m.func + ".call", T.show(U.args[1])[:300])
            U = U.args[2]
        Net(ck, m, XU, m.func + ".call").check(U, T.sub(m.L, 1), list(it.pc))


class Net:
    """Obligations that a term of layer applications is NET(n)."""

    def __init__(self, ck, m, XU, func):
        self.ck, self.m, self.XU, self.func = ck, m, XU, func
        self.layers = []

    def count(self, U):
        """Number of layers of a term (as a term), input X."""
        if U is self.XU or U.op == "app" and U.args[0] == "tcast":
            return T.ZERO
        if U.op == "app" and U.args[0] == "dense":
            r = self.count(U.args[6])
            return None if r is None else T.add(r, 1)
        if U.op == "app" and U.args[0] in tflib.FOLDS:
            k, acc, t, x0, fv = self.inst(U)
            d = self.per_iteration(t, acc)
            c0 = self.count(x0)
            return None if d is None or c0 is None else T.add(c0, T.mul(d, U.args[1]))
        if U.op == "ite":
            a, b = self.count(U.args[1]), self.count(U.args[2])
            return None if a is None or b is None else T.ite(U.args[0], a, b)
        return None

    def per_iteration(self, t, acc):
        if t is acc:
            return 0
        if t.op == "app" and t.args[0] == "dense":
            r = self.per_iteration(t.args[6], acc)
            return None if r is None else r + 1
        if t.op == "ite":
            a, b = self.per_iteration(t.args[1], acc), self.per_iteration(t.args[2], acc)
            return a if a == b else None
        return None

    def inst(self, U):
        k, acc, t, x0, fv = tflib.FOLDS[U.args[0]]
        s = {v: a for v, a in zip(fv, U.args[2:]) if v is not a}
        return k, acc, T.subst(t, s), T.subst(x0, s), fv

    def check(self, U, n, ass, stop=None):
        """U == NET(n) under the assumptions; stop = (acc, count): acc is NET(count) (induction hypothesis)."""
        ck = self.ck
        if stop is not None and U is stop[0]:
            ck.equal("number of layers", n, stop[1], ass, self.func)
            return
        if U is self.XU:
            ck.equal("number of layers", n, T.ZERO, ass, self.func)
            return
        if U.op == "ite":
            c = U.args[0]
            self.check(U.args[1], n, ass + [c], stop)
            self.check(U.args[2], n, ass + [T.not_(c)], stop)
            return
        if U.op == "app" and U.args[0] == "dense":
            self.layer(U.args[1:6] + U.args[7:9], T.sub(n, 1), ass)
            self.check(U.args[6], T.sub(n, 1), ass, stop)
            return
        if U.op == "app" and U.args[0] in tflib.FOLDS:
            k, acc, t, x0, fv = self.inst(U)
            d = self.per_iteration(t, acc)
            c0 = self.count(x0)
            if d is None or c0 is None:
                raise Unsupported("layers in a loop")
            K = U.args[1]
            ck.equal("number of layers", n, T.add(c0, T.mul(d, K)), ass, self.func)
            self.check(x0, c0, ass)
            kk = T.fresh("layer", "I", 0, K)
            ih = T.add(c0, T.mul(d, kk))
            # induction step: the hypothesis is acc == NET(ih)
            self.check(T.subst(t, {k: kk}), T.add(ih, d), ass + [T.ge(kk, 0), T.lt(kk, K)], (acc, ih))
            return
        ck.fact("the prediction is built from the layers and the input only", False, self.func, T.show(U)[:400])

    def layer(self, args, l, ass):
        ck, m = self.ck, self.m
        site, idx, units, act, dt, kinit, binit = args
        sat = [a for a in ass]
        ck.oblige("layer exists", T.and_(T.ge(l, 0), T.lt(l, T.sub(m.L, 1))), sat, self.func)
        ck.equal("layer size", units, m.dims(T.add(l, 1)), sat, self.func)
        last = T.eq(l, T.sub(m.L, 2))
        ck.oblige("output layer without activation", T.eq(act, T.strc("linear")) if act is not T.strc("linear") else T.TRUE, sat + [last], self.func)
        ck.oblige("hidden layer activation", T.eq(act, m.act), sat + [T.not_(last)], self.func)
        ck.equal("kernel initialised Glorot-uniform", kinit, T.strc("glorot_uniform"), sat, self.func)
        ck.equal("biases initialised to zero", binit, T.strc("zeros"), sat, self.func)
        ck.equal("layer dtype", dt, T.strc(m.dt), sat, self.func)
        # weights of its own: another layer with the same weights is the same layer
        for (s2, i2, l2, a2) in self.layers + [(site, idx, l, ass)]:
            ren = {v: T.fresh("other", "I", 0, v.hi) if v.hi is not None else T.fresh("other", "I", 0) for v in (s2.fv | i2.fv | l2.fv) if v.args[0].startswith("layer!")}
            sub = lambda t: T.subst(t, ren)
            for x, y in list(ren.items()):
                if y.hi is not None:
                    pass
            same = T.and_(T.eq(site, sub(s2)), T.eq(idx, sub(i2)))
            extra = [sub(a) for a in a2]
            ck.oblige("layers do not share weights", T.or_(T.not_(same), T.eq(l, sub(l2))), sat + extra, self.func)
        self.layers.append((site, idx, l, ass))


def optimizer(ck, kind, noflag=False):
    m = Model(ck, kind, "float32")
    if noflag:
        del m.lr["staircase"]
    it = m.it
    it.tensor_terms = True
    f = m.func + ".__init__"
    outs = ck.single(it, lambda: m.new(), func=f)
    for o in outs:
        it.restore(o.state)
        opt = it.getattr(o.value, "optimizer")
        ck.fact("the optimizer is Adam", isinstance(opt, Opaque) and opt.label == "Adam", f, str(opt))
        if not (isinstance(opt, Opaque) and opt.label == "Adam"):
            continue
        rate = opt.attrs["learning_rate"]
        use = m.lr["use_lr_scheduler"]
        if isinstance(rate, Opaque) and rate.label == "ExponentialDecay":
            ck.oblige("exponential decay only with the scheduler enabled", use, it.pc, f)
            for a, key in (("initial", "initial_learning_rate"), ("steps", "decay_steps"), ("rate", "decay_rate"), ("staircase", "staircase")):
                ck.equal(f"exponential decay: {key}", T.lift(rate.attrs[a]), m.lr.get(key, T.TRUE), it.pc, f)
        else:
            ok = it.is_num(rate)
            ck.fact("a learning rate or an exponential decay", ok, f, str(rate))
            if ok:
                ck.oblige("constant rate only with the scheduler disabled", T.not_(use), it.pc, f)
                ck.equal("constant rate is the initial learning rate", T.lift(rate), m.lr["initial_learning_rate"], it.pc, f)


def bad_dtype(ck, kind):
    m = Model(ck, kind, "float32")
    it = m.it
    it.tensor_terms = True
    f = m.func + ".__init__"
    for lab, bad in (("string", "float32"), ("None", None), ("number", 32), ("numpy dtype", it.libmod.VALUES["numpy.float64"])):
        outs = it.explore(lambda: m.new(dtype="None!" if bad is None else bad))
        bads = [o for o in outs if not (o.flow == "raise" and o.exc.cls.issub(EXC["TypeError"]))]
        ck.fact(f"{lab}: TypeError", not bads and outs != [], f, "; ".join(f"{o.flow} {o.exc}" for o in bads)[:300])

