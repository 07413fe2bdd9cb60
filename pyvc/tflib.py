"""Contracts of the keras and tensorflow parts the models use: layers, optimizers, variables, gradient tapes.

dense layer   layer(x)[r, c] = el(dense(site, index, units, activation, dtype, X), r, c) with X the input cast to the
              layer's dtype, as one opaque tensor; (site, index) identify the layer object, hence its kernel and bias.
keras.Model   model(x) = model.call(x), x cast to the model's dtype first unless autocast is off.
GradientTape  records what is computed while it is active.  Values of the network (applications NET...) carry the set of
              tapes that recorded them; any operation outside a tape removes that tape from its result."""
from fractions import Fraction
from . import terms as T, smt
from .terms import Term
from .values import *
from .interp import EXC
from . import lib as L, loops
from .lib import lib, LIB, VALUES

LI, LJ = T.var("lam!i", "I", 0), T.var("lam!j", "I", 0)
NODEF = object()


def uterm(v):
    """A value as an opaque constant or term of sort U."""
    if v is None:
        return T.strc("None")
    if isinstance(v, str):
        return T.strc(v)
    if isinstance(v, Term) and v.sort == "U":
        return v
    if isinstance(v, Term):
        return T.rawapp("val", (v,), "U")
    if isinstance(v, (bool, int, Fraction)):
        return T.rawapp("val", (T.lift(v),), "U")
    if isinstance(v, Opaque) and "term" in v.attrs:
        return v.attrs["term"]
    if isinstance(v, LibFn) and v.name:
        return T.strc("fn:" + v.name)
    if isinstance(v, SymCallable):
        return T.strc("callable:" + v.name)
    if isinstance(v, ExtModule):
        return T.strc("fn:" + v.path)
    raise Unsupported(f"opaque constant {v!r}")


def activation_term(v):
    if v is None or v == "linear" or isinstance(v, (LibFn, ExtModule)) and getattr(v, "name", getattr(v, "path", "")).endswith("activations.linear"):
        return T.strc("linear")
    return uterm(v)


INITS = {"glorot_uniform": "glorot_uniform", "GlorotUniform": "glorot_uniform", "zeros": "zeros", "Zeros": "zeros"}


def init_term(v):
    """The initializer of a layer variable: the two names keras knows for one, and its classes, are one initializer."""
    if isinstance(v, Opaque) and v.label == "Initializer":
        return T.strc(v.attrs["of"])
    if isinstance(v, LibFn) and v.name in INIT_CLASSES:
        return T.strc(INIT_CLASSES[v.name])
    if isinstance(v, str):
        return T.strc(INITS.get(v, v))
    return uterm(v)


INIT_CLASSES = {}
for _n in ("GlorotUniform", "Zeros"):
    for _m in ("tensorflow.keras.initializers.", "tensorflow.initializers.", "tensorflow.zeros_initializer" if _n == "Zeros" else "tensorflow.keras.initializers."):
        _q = _m if _m.endswith("initializer") else _m + _n
        INIT_CLASSES[_q] = INITS[_n]
        LIB[_q] = LibFn(_q, lambda it, seed=None, _o=INITS[_n]: Opaque("Initializer", {"of": _o}))


def el(U, r, c):
    if U.op == "ite":
        return T.ite(U.args[0], el(U.args[1], r, c), el(U.args[2], r, c))
    if U.op == "app" and U.args[0] == "lam" and not T.mentions(U.args[3], lambda a: a.op == "app" and a.args[0] == "lam"):
        return T.subst(U.args[3], {LI: T.lift(r), LJ: T.lift(c)})
    return T.rawapp("el", (U, r, c), "R")


def tensor_term(a):
    """A two-dimensional array as one opaque term: X if its elements are el(X, r, c), else lam r c. elements."""
    if a.ndim != 2:
        raise Unsupported(f"tensor of rank {a.ndim} as network input")
    i, j = T.fresh("i", "I", 0, a.shape[0]), T.fresh("j", "I", 0, a.shape[1])

    def go(t):
        if t.op == "app" and t.args[0] == "el" and t.args[2] is i and t.args[3] is j and i not in t.args[1].fv and j not in t.args[1].fv:
            return t.args[1]
        if t.op == "ite" and i not in t.args[0].fv and j not in t.args[0].fv:
            return T.ite(t.args[0], go(t.args[1]), go(t.args[2]))
        if T.mentions(t, lambda x: x.op == "app" and x.args[0] == "lam" and (i in x.fv or j in x.fv)):
            raise Unsupported("nested row dependence of a network input")
        return T.rawapp("lam", (a.shape[0], a.shape[1], T.subst(t, {i: LI, j: LJ})), "U")
    return go(a.at(i, j))


def tensor_cast(U, frm, to):
    if frm == to:
        return U
    return T.rawapp("tcast", (T.strc(frm), T.strc(to), U), "U")


# ---------------------------------------------------------------- layers
_site = [0]


def dense(it, units, activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros", dtype=None, name=None, **kw):
    kw = {k: v for k, v in kw.items() if v is not None and k != "trainable"}
    if kw or use_bias is not True:
        raise Unsupported("Dense options " + ",".join(kw))
    site = getattr(it, "dense_site", 0)
    it.dense_site = site + 1
    if len(it.loopvars) > 1:
        raise Unsupported("layers created in nested loops")
    idx = it.loopvars[0] if it.loopvars else T.ZERO
    return Opaque("Dense", {"site": T.const(site), "index": T.lift(idx), "units": T.lift(units), "activation": activation_term(activation), "dtype": L.dt_name(dtype, "float32"),
                            "kinit": init_term(kernel_initializer), "binit": init_term(bias_initializer), "__call__": DENSE_CALL})


LIB["tensorflow.keras.layers.Dense"] = LibFn("tensorflow.keras.layers.Dense", dense)


def dense_call(it, layer, x, **kw):
    a = L.to_tensor(it, x)
    at = layer.attrs
    ix = tensor_cast(tensor_term(a), a.dtype, at["dtype"])
    U = T.rawapp("dense", (at["site"], at["index"], at["units"], at["activation"], T.strc(at["dtype"]), ix, at["kinit"], at["binit"]), "U")
    return L.tf_wrap(it, Arr((a.shape[0], at["units"]), lambda r, c: el(U, r, c), at["dtype"], "tf"))


DENSE_CALL = LibFn("tensorflow.keras.layers.Dense.__call__", dense_call)


def keras_model(c):
    return isinstance(c.cls, Cls) and any(getattr(b, "path", getattr(b, "name", "")) in ("tensorflow.keras.Model", "tensorflow.keras.models.Model") for b in c.cls.ext_bases())


VALUES["tensorflow.keras.Model"] = ExcCls("tensorflow.keras.Model")
VALUES["tensorflow.keras.models.Model"] = VALUES["tensorflow.keras.Model"]


def model_init(it, self_, autocast=True, dtype=None, name=None, trainable=True, dynamic=False, **kw):
    if kw:
        raise Unsupported("keras.Model options")
    it.setattr(self_, "_autocast", autocast)
    it.setattr(self_, "_compute_dtype", L.dt_name(dtype, "float32"))


def super_attr(it, o, name):
    c = it.content(o.self_)
    if not keras_model(c):
        return NotImplemented
    if name == "__init__":
        return LibFn("tensorflow.keras.Model.__init__", lambda it, *a, **k: model_init(it, o.self_, *a, **k))
    if name == "__call__":
        return LibFn("tensorflow.keras.Model.__call__", lambda it, x, **k: model_call(it, o.self_, it.content(o.self_), [x], k))
    return NotImplemented


_old_super = L.ext_super


def ext_super(it, o, name):
    r = super_attr(it, o, name)
    return _old_super(it, o, name) if r is NotImplemented else r


L.ext_super = ext_super


def model_call(it, fn, c, args, kw):
    if not keras_model(c):
        return NotImplemented
    if "_autocast" not in c.attrs:
        raise Unsupported("keras model used before super().__init__()")
    it.trusted.add("tensorflow.keras.Model.__call__")
    x = args[0]
    a = L.to_tensor(it, x)
    if it.truth(T.lift(c.attrs["_autocast"])) is not False and a.dtype != c.attrs["_compute_dtype"]:
        U = tensor_cast(tensor_term(a), a.dtype, c.attrs["_compute_dtype"]) if getattr(it, "tensor_terms", False) else None
        a = Arr(a.shape, lambda r, cc: el(U, r, cc), c.attrs["_compute_dtype"], "tf") if U is not None else L.cast(it, a, c.attrs["_compute_dtype"]).with_(kind="tf")
    f = c.cls.lookup("call")
    kw = {k: v for k, v in kw.items() if k not in ("training",)}
    return it.call(BoundMethod(f, fn), [a] + list(args[1:]), kw)


L.EXT_CALL.append(model_call)


def model_attr(it, o, c, name):
    if not keras_model(c):
        return NotImplemented
    if name == "compile":
        def comp(it, optimizer="rmsprop", **kw):
            if any(k not in ("jit_compile", "run_eagerly") for k in kw):
                raise Unsupported("compile options")
            it.setattr(o, "optimizer", optimizer)
        return LibFn("tensorflow.keras.Model.compile", comp)
    if name in ("build", "summary"):
        return LibFn("tensorflow.keras.Model." + name, lambda it, *a, **k: None)
    if name in ("trainable_variables", "trainable_weights"):
        it.trusted.add("tensorflow.keras.Model.trainable_variables")
        return it.alloc(ListC(trainable(it, c)))
    if name == "dtype":
        return DTypeV("tf." + c.attrs["_compute_dtype"])
    return NotImplemented


L.EXT_ATTR.append(model_attr)


def trainable(it, c):
    """Segments of the trainable variables keras tracks: kernels and biases of the layers and the variables held by the
    model's attributes, directly or in lists and dictionaries, in the order of assignment."""
    own, layers = [], []

    def scan(v):
        v = it.force(v)
        if isinstance(v, Opaque) and v.label == "Dense":
            layers.append((None, v))
        elif isinstance(v, Opaque) and v.label == "tf.Variable":
            if it.truth(T.lift(v.attrs["trainable"])) is True:
                own.append(Seg(value=v))
        elif isinstance(v, Ref):
            k = it.content(v)
            if isinstance(k, ListC):
                for s in k.segs:
                    if s.single:
                        scan(s.value)
                        continue
                    j = T.fresh("j", "I", 0, s.length)
                    try:
                        e = s.fn(j)
                    except Unsupported:
                        continue
                    if isinstance(e, Opaque) and e.label == "Dense":
                        layers.append((s, None))
                    elif isinstance(e, Opaque) and e.label == "tf.Variable":
                        own.append(Seg(s.length, s.fn))
            elif isinstance(k, DictC):
                for x in k.d.values():
                    scan(x)
            elif isinstance(k, SymDictC):
                j = T.fresh("j", "I", 0, k.n)
                e = k.valfn(j)
                if isinstance(e, Opaque) and e.label == "tf.Variable":
                    own.append(Seg(k.n, k.valfn))
    for name, v in c.attrs.items():
        scan(v)

    def wvar(l, which):
        return Opaque("tf.Variable", {"site": l.attrs["site"], "index": l.attrs["index"], "which": which, "trainable": True})
    out = []
    for s, l in layers:
        if s is None:
            out += [Seg(value=wvar(l, T.ZERO)), Seg(value=wvar(l, T.ONE))]
        else:
            def fn(j, s=s):
                q, r = T.idivmod(T.lift(j), T.const(2))
                return wvar(s.fn(q), r)
            out.append(Seg(T.mul(2, s.length), fn))
    # keras lists a model's own variables after those of its sub-layers only for variables it owns directly; the order
    # carries no meaning for the property
    return tuple(out + own)


# ---------------------------------------------------------------- optimizers
def schedule(it, initial_learning_rate, decay_steps, decay_rate, staircase=False, name=None):
    return Opaque("ExponentialDecay", {"initial": initial_learning_rate, "steps": decay_steps, "rate": decay_rate, "staircase": staircase})


for _p in ("tensorflow.keras.optimizers.schedules.ExponentialDecay",):
    LIB[_p] = LibFn(_p, schedule)

ADAM = {"beta_1": Fraction(9, 10), "beta_2": Fraction(999, 1000), "epsilon": Fraction(1, 10**7), "amsgrad": False}


def adam(it, learning_rate=Fraction(1, 1000), **kw):
    for k, v in kw.items():
        if v is None or k in ("name", "jit_compile") or k in ADAM and T.lift(v) is T.lift(ADAM[k]):
            continue
        raise Unsupported(f"Adam option {k}")
    return Opaque("Adam", {"learning_rate": learning_rate, "apply_gradients": LibFn("tensorflow.keras.optimizers.Optimizer.apply_gradients", apply_gradients)})


LIB["tensorflow.keras.optimizers.Adam"] = LibFn("tensorflow.keras.optimizers.Adam", adam)


def apply_gradients(it, pairs, **kw):
    if any(v is not None for v in kw.values()):
        raise Unsupported("apply_gradients options")
    it.log = it.log + (("apply", loops.as_sequence(it, pairs)),)


# ---------------------------------------------------------------- variables
def variable(it, initial_value=None, trainable=True, dtype=None, name=None, **kw):
    if kw:
        raise Unsupported("tf.Variable options")
    if dtype is not None and not isinstance(dtype, (DTypeV, str)):
        raise PyRaise(EXC["TypeError"], ("Cannot convert to a TensorFlow DType",))
    v = L.to_tensor(it, initial_value, dtype)
    n = getattr(it, "var_site", 0)
    it.var_site = n + 1
    if len(it.loopvars) > 1:
        raise Unsupported("variables created in nested loops")
    # sites of layers and of other variables are disjoint
    return Opaque("tf.Variable", {"site": T.const(-1 - n), "index": T.lift(it.loopvars[0]) if it.loopvars else T.ZERO, "which": T.const(2), "trainable": True if trainable is None else trainable,
                                  "initial": v.at(*[T.ZERO] * v.ndim) if v.ndim == 0 else v, "vdtype": v.dtype})


LIB["tensorflow.Variable"] = LibFn("tensorflow.Variable", variable)


# ---------------------------------------------------------------- gradient tapes
class Tape:
    def __init__(self, n, persistent):
        self.n, self.persistent, self.watched, self.used = n, persistent, [], False


def gradient_tape(it, persistent=False, watch_accessed_variables=True):
    if it.truth(T.lift(watch_accessed_variables)) is not True:
        raise Unsupported("watch_accessed_variables=False")
    n = it.tape_count = getattr(it, "tape_count", 0) + 1
    tp = Tape(n, it.truth(T.lift(persistent)) is True)
    return Opaque("GradientTape", {"watch": LibFn("tensorflow.GradientTape.watch", lambda it, x: watch(it, tp, x)),
                                   "gradient": LibFn("tensorflow.GradientTape.gradient", lambda it, y, x, **k: gradient(it, tp, y, x, **k)), "tape": tp})


LIB["tensorflow.GradientTape"] = LibFn("tensorflow.GradientTape", gradient_tape)


def tape_enter(it, o):
    tp = o.attrs["tape"]
    it.tapes_active = tuple(it.tapes_active) + (tp.n,)
    it.tape_objs = getattr(it, "tape_objs", {})
    it.tape_objs[tp.n] = tp
    return o


def tape_exit(it, o):
    n = o.attrs["tape"].n
    it.tapes_active = tuple(x for x in it.tapes_active if x != n and not (isinstance(x, tuple) and x[0] == n))


L.CM["GradientTape"] = (tape_enter, tape_exit)


def watch(it, tp, x):
    if not isinstance(x, Arr):
        raise Unsupported("watch of something that is not a tensor")
    if tp.n not in it.tapes_active:
        raise Unsupported("watch outside the tape")
    tp.watched.append(x)
    # from now on values are recorded with respect to this tensor as well
    it.tapes_active = tuple(it.tapes_active) + ((tp.n, len(tp.watched)),)


def depends_on_net(t):
    hits = []
    L._collect_nets(t, hits, set())
    return bool(hits)


def gradient(it, tp, y, x, output_gradients=None, **kw):
    if output_gradients is not None or any(v is not None for v in kw.values()):
        raise Unsupported("tape.gradient options")
    if tp.used and not tp.persistent:
        raise PyRaise(EXC["RuntimeError"], ("A non-persistent GradientTape can only be used to compute one set of gradients",))
    tp.used = True
    if isinstance(x, Arr):
        return input_gradient(it, tp, y, x)
    seq = loops.as_sequence(it, x)
    ya = it.as_arr_or_none(y)
    if ya is None:
        raise Unsupported("gradient of a list")
    total = ya
    mk = lambda v: Opaque("gradient", {"of": total, "wrt": v, "tape": tp.n})
    if isinstance(seq, list):
        return it.alloc(ListC.of([mk(v) for v in seq]))
    return it.alloc(ListC((Seg(seq.n, lambda j: mk(seq.fn(j))),)))


def input_gradient(it, tp, y, x):
    """d(sum of y)/dx for y depending on x row by row through network values recorded by the tape after x was watched."""
    marks = {(tp.n, k + 1) for k, w in enumerate(tp.watched) if w is x}
    ya = it.arr(y)
    if not marks:
        return None
    if x.ndim != 2 or not isinstance(x.shape[1], int):
        raise Unsupported("gradient with respect to a tensor of this rank")
    if ya.ndim == 0 or not it.same_dim(ya.shape[0], x.shape[0]) or ya.ndim > 2 or ya.ndim == 2 and not isinstance(ya.shape[1], int):
        raise Unsupported("gradient of a tensor that is not row by row")
    r = T.fresh("r", "I", 0, x.shape[0])
    X = [x.at(r, T.const(d)) for d in range(x.shape[1])]
    if any(not (t.op == "app" and r in t.fv) for t in X):
        raise Unsupported("input tensor elements are not opaque")
    xname = X[0].args[0]
    total = T.ZERO
    for c in range(ya.shape[1] if ya.ndim == 2 else 1):
        total = T.add(total, ya.at(r, T.const(c)) if ya.ndim == 2 else ya.at(r))
    active = frozenset(it.tapes_active)

    def d(t, k):
        if T.cval(t) is not None:
            return T.ZERO
        if t.op == "poly":
            out = T.ZERO
            for mono, co in t.args:
                for n, (a, e) in enumerate(mono):
                    da = d(a, k)
                    if da is T.ZERO:
                        continue
                    if e < 1:
                        raise Unsupported("derivative of a negative power")
                    rest = T.const(co * e)
                    for m, (b, f) in enumerate(mono):
                        g = f - 1 if m == n else f
                        if g:
                            rest = T.mul(rest, T.power(b, g) if hasattr(T, "power") else T.mul(*[b] * int(g)))
                    out = T.add(out, T.mul(rest, da))
            return out
        if t.op == "app" and t.args[0].startswith("NET") and t.args[0] == "NET":
            ts = L.TAPESETS[int(T.cval(t.args[1]))]
            if not (marks & ts):
                return T.ZERO
            args = t.args[3:]
            if len(args) != len(X) or any(a is not b for a, b in zip(args, X)):
                raise Unsupported("network value at another point than the watched one")
            keep = (ts & active)
            return T.rawapp("NETD", (L.tapeset(keep), t.args[2], T.const(k)) + tuple(args), "R")
        if T.mentions(t, lambda a: a.op == "app" and (a.args[0].startswith("NET") or a.args[0] == xname)):
            raise Unsupported("derivative of this operation")
        return T.ZERO
    # row locality: no element of another row of x occurs in row r of y
    other = []

    def bad(a):
        return a.op == "app" and a.args[0] == xname and not any(a is b for b in X)
    if T.mentions(total, bad):
        raise Unsupported("the differentiated tensor is not row by row")
    if not depends_on_net(total):
        return None
    ds = [d(total, k) for k in range(x.shape[1])]

    def fn(i, k):
        k = T.lift(k)
        m = {r: T.lift(i)}
        out = T.subst(ds[-1], m)
        for n in reversed(range(len(ds) - 1)):
            out = T.ite(T.eq(k, n), T.subst(ds[n], m), out)
        return out
    return Arr(x.shape, fn, ya.dtype, "tf")


# ---------------------------------------------------------------- a network applied layer by layer
FOLDS = {}


def layer_inputs_only(t, acc):
    if t is acc:
        return False
    if t.op == "app" and t.args[0] == "dense":
        return (t.args[6] is acc or layer_inputs_only(t.args[6], acc)) and not any(acc in x.fv for x in t.args[1:6])
    return acc not in t.fv or t.op == "ite" and acc not in t.args[0].fv and layer_inputs_only(t.args[1], acc) and layer_inputs_only(t.args[2], acc)


def fold_step(ctx, l, pa):
    """Loop-carried tensor x_{k+1} = t(k, x_k) with t built from layers: the sequence is defined by primitive recursion."""
    it, k = ctx.it, ctx.k
    acc = l.info["foldacc"]
    t = tensor_term(pa)
    a0 = l.info["arr"]
    x0 = tensor_term(a0)
    if l.info.get("folddt"):
        # the first layer casts the tensor it is given: t(0, x_0) = t(0, cast x_0) if t uses it as input of layers only
        if it.truth(T.ge(ctx.K, 1)) is not True or not layer_inputs_only(t, acc) or pa.dtype != l.info["folddt"]:
            raise Unsupported("tensor changes its dtype in a loop")
        x0 = tensor_cast(x0, a0.dtype, pa.dtype)
    elif pa.dtype != a0.dtype:
        l.info["folddt"] = pa.dtype
        return None
    w = T.lift(pa.shape[1])
    name = loops.uid("fold")
    fv = tuple(sorted((v for v in (t.fv | x0.fv) if v is not k and v is not acc and v not in (LI, LJ)), key=lambda v: v.id))
    FOLDS[name] = (k, acc, t, x0, fv)

    def closed(kk):
        kk = T.lift(kk)
        cv = T.cval(kk)
        U = x0 if cv == 0 else T.rawapp(name, (kk,) + fv, "U")
        width = T.ite(T.ge(kk, 1), T.subst(w, {k: T.sub(kk, 1)}), T.lift(a0.shape[1]))
        return Arr((a0.shape[0], width), lambda r, c: el(U, r, c), pa.dtype, pa.kind)
    return name, closed, (t, w)


loops.FOLD = fold_step
loops.TENSOR_EL = el


# ---------------------------------------------------------------- devices
@lib("tensorflow.config.list_physical_devices", "tensorflow.config.experimental.list_physical_devices")
def list_physical_devices(it, device_type=None):
    """Some list of devices, of any length; the same list for the same type within a run."""
    n = T.app("n_devices", (uterm(device_type),), "I")
    it.assume(T.ge(n, 0))
    return it.alloc(ListC((Seg(n, lambda i: Opaque("device", {"index": T.lift(i), "type": device_type})),)))


@lib("tensorflow.config.experimental.set_memory_growth", "tensorflow.config.set_memory_growth")
def set_memory_growth(it, device, enable):
    if it.branch(T.rawapp("devices_initialised", (), "B")):
        raise PyRaise(EXC["RuntimeError"], ("devices already initialised",))


@lib("tensorflow.device")
def tf_device(it, name):
    return Opaque("tf.device", {"name": name})


def device_enter(it, cm):
    it.devices = getattr(it, "devices", ()) + (cm.attrs["name"],)
    return cm


def device_exit(it, cm):
    it.devices = it.devices[:-1]


L.CM["tf.device"] = (device_enter, device_exit)
