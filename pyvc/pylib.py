"""Further contracts of numpy and the standard library, most of them defined by the operations in lib.py
(each is compared with the real function by tools/conf)."""
from fractions import Fraction
from . import terms as T
from .terms import TRUE
from .values import *
from .interp import EXC
from . import lib as L
from .lib import LIB, BUILTINS, CM, VALUES, lib, builtin, finish, concat, promote, real, tobool

INF = SliceV(None, None, None)


def call(it, name, *a, **k):
    return it.call(LIB["numpy." + name], list(a), k)


def ax_of(axis, nd):
    axis = int(axis)
    if not -nd <= axis < nd:
        raise PyRaise(EXC["ValueError"], ("axis out of bounds",))
    return axis + nd if axis < 0 else axis


def at_axis(nd, axis, i):
    return tuple(i if k == axis else INF for k in range(nd))


@builtin("divmod")
def b_divmod(it, a, b):
    return (it.binop("FloorDiv", a, b), it.binop("Mod", a, b))


@lib("numpy.divmod")
def np_divmod(it, a, b):
    return (it.binop("FloorDiv", a, b), it.binop("Mod", a, b))


LIB["numpy.remainder"] = LibFn("numpy.remainder", lambda it, a, b: it.binop("Mod", it.call(LIB["numpy.asarray"], [a], {}), b))
for _a, _b in (("fmax", "maximum"), ("fmin", "minimum")):
    LIB["numpy." + _a] = LibFn("numpy." + _a, (lambda n: lambda it, a, b: call(it, n, a, b))(_b))


@lib("numpy.hypot")
def np_hypot(it, a, b):
    return call(it, "sqrt", it.binop("Add", call(it, "square", a), call(it, "square", b)))


@lib("numpy.logical_not")
def np_logical_not(it, a):
    A = it.arr(a)
    return finish(it, Arr(A.shape, lambda *I: T.not_(tobool(A.at(*I))), "bool"))


@lib("numpy.logical_xor")
def np_logical_xor(it, a, b):
    A, B = it.arr(a), it.arr(b)
    sh = it.broadcast_shapes(A.shape, B.shape)
    ma, mb = it.bidx(A, sh), it.bidx(B, sh)
    return finish(it, Arr(sh, lambda *I: T.not_(T.iff(tobool(A.at(*ma(I))), tobool(B.at(*mb(I))))), "bool"))


@lib("numpy.isclose")
def np_isclose(it, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **kw):
    d = call(it, "abs", it.binop("Sub", a, b))
    return it.compare("LtE", d, it.binop("Add", atol, it.binop("Mult", rtol, call(it, "abs", b))))


@lib("numpy.allclose")
def np_allclose(it, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **kw):
    return call(it, "all", np_isclose(it, a, b, rtol, atol))


@lib("numpy.moveaxis")
def np_moveaxis(it, o, src, dst):
    a = it.arr(o)
    if not isinstance(src, int) or not isinstance(dst, int):
        raise Unsupported("moveaxis")
    s, d = ax_of(src, a.ndim), ax_of(dst, a.ndim)
    p = [k for k in range(a.ndim) if k != s]
    p.insert(d, s)
    return L.transpose_arr(it, o, a, tuple(p))


@lib("numpy.flip")
def np_flip(it, o, axis=None):
    a = it.arr(o)
    axes = range(a.ndim) if axis is None else [ax_of(x, a.ndim) for x in (axis if isinstance(axis, tuple) else (axis,))]
    ref = o if isinstance(o, Ref) and isinstance(it.content(o), ArrC) else it.new_arr(a)
    m = lambda I: tuple(T.sub(T.sub(a.shape[k], 1), i) if k in axes else i for k, i in enumerate(I))
    return it.make_view(ref, a.shape, m, lambda J: (TRUE, m(J)), "strided")


LIB["numpy.flipud"] = LibFn("numpy.flipud", lambda it, o: np_flip(it, o, 0))
LIB["numpy.fliplr"] = LibFn("numpy.fliplr", lambda it, o: np_flip(it, o, 1))


@lib("numpy.roll")
def np_roll(it, o, shift, axis=None):
    a = it.arr(o)
    if axis is None:
        if a.ndim != 1:
            r = np_roll(it, L.flatten(it, o), shift, 0)
            return call(it, "reshape", r, tuple(a.shape))
        axis = 0
    axis = ax_of(axis, a.ndim)
    n = a.shape[axis]
    return it.new_arr(Arr(a.shape, lambda *I: a.at(*I[:axis], T.imod(T.sub(I[axis], T.lift(shift)), T.lift(n)), *I[axis + 1:]), a.dtype))


@lib("numpy.cumsum")
def np_cumsum(it, o, axis=None, **kw):
    a = it.arr(o)
    if axis is None:
        if a.ndim != 1:
            a = it.arr(L.flatten(it, o))
        axis = 0
    axis = ax_of(axis, a.ndim)

    def fn(*I):
        v = T.fresh("r", "I", 0, a.shape[axis])
        x = a.at(*I[:axis], v, *I[axis + 1:])
        return T.red("sum", v, T.add(I[axis], 1), T.ite(x, T.ONE, T.ZERO) if x.sort == "B" else x)
    return it.new_arr(Arr(a.shape, fn, "int64" if a.dtype == "bool" else a.dtype))


@lib("numpy.diff")
def np_diff(it, o, n=1, axis=-1):
    if n != 1:
        raise Unsupported("np.diff order")
    a = it.arr(o)
    ax = ax_of(axis, a.ndim)
    o = o if isinstance(o, Ref) and isinstance(it.content(o), ArrC) else it.new_arr(a)
    return it.binop("Sub", it.getitem(o, at_axis(a.ndim, ax, SliceV(1, None, None))), it.getitem(o, at_axis(a.ndim, ax, SliceV(None, -1, None))))


def as_array(it, o):
    return o if isinstance(o, Ref) and isinstance(it.content(o), ArrC) else it.new_arr(it.arr(o))


@lib("numpy.take")
def np_take(it, o, idx, axis=None, **kw):
    if kw:
        raise Unsupported("np.take mode")
    if axis is None:
        return it.getitem(L.flatten(it, o), idx)
    a = it.arr(o)
    return it.getitem(as_array(it, o), at_axis(a.ndim, ax_of(axis, a.ndim), idx))


@lib("numpy.insert")
def np_insert(it, o, i, v, axis=None):
    a = it.arr(o)
    if a.ndim != 1 or not isinstance(i, int) or not it.is_num(v):
        raise Unsupported("np.insert")
    n = T.lift(a.shape[0])
    p = T.const(i) if i >= 0 else T.add(n, i)
    if it.truth(T.and_(T.ge(p, 0), T.le(p, n))) is not True:
        raise Unsupported("np.insert position")
    x = it.cast_to(Arr((), lambda: T.lift(v), "int64" if T.lift(v).sort == "I" else "float64"), a.dtype).at()
    return it.new_arr(Arr((norm_dim(T.add(n, 1)),), lambda j: T.ite(T.lt(j, p), a.at(j), T.ite(T.eq(j, p), x, a.at(T.sub(j, 1)))), a.dtype))


def arg_extremum(kind):
    def g(it, o, axis=None, **kw):
        a = it.arr(o)
        if axis is None:
            a, axis = (it.arr(L.flatten(it, o)), 0) if a.ndim != 1 else (a, 0)
        axis = ax_of(axis, a.ndim)
        n = a.shape[axis]
        if isinstance(n, int) and n == 0 or not isinstance(n, int) and it.branch(T.le(n, 0)):
            raise PyRaise(EXC["ValueError"], ("attempt to get argmax of an empty sequence",))

        def fn(*I):
            v, w = T.fresh("r", "I", 0, n), T.fresh("r", "I", 0, n)
            pick = lambda q: a.at(*I[:axis], q, *I[axis:])
            m = T.red(kind, w, n, real(pick(w)))
            return T.sub(T.red("first", v, n, T.eq(real(pick(v)), m)), 1)
        return finish(it, Arr(a.shape[:axis] + a.shape[axis + 1:], fn, "int64"))
    return g


LIB["numpy.argmax"] = LibFn("numpy.argmax", arg_extremum("max"))
LIB["numpy.argmin"] = LibFn("numpy.argmin", arg_extremum("min"))


@lib("numpy.ptp")
def np_ptp(it, o, axis=None):
    return it.binop("Sub", call(it, "max", o, axis), call(it, "min", o, axis))


@lib("numpy.var")
def np_var(it, o, axis=None, ddof=0, **kw):
    if kw or ddof:
        raise Unsupported("np.var options")
    m = call(it, "mean", o, axis, keepdims=True)
    return call(it, "mean", call(it, "square", it.binop("Sub", as_array(it, o), m)), axis)


@lib("numpy.std")
def np_std(it, o, axis=None, **kw):
    return call(it, "sqrt", np_var(it, o, axis, **kw))


@lib("numpy.split")
def np_split(it, o, k, axis=0):
    a = it.arr(o)
    ax = ax_of(axis, a.ndim)
    n = a.shape[ax]
    o = as_array(it, o)
    if isinstance(k, int):
        q, r = T.idivmod(T.lift(n), T.const(k))
        if it.branch(T.ne(r, 0)):
            raise PyRaise(EXC["ValueError"], ("array split does not result in an equal division",))
        cuts = [norm_dim(T.mul(q, j)) for j in range(1, k)]
    else:
        cuts = list(it.concrete_items(k))
    b = [0] + cuts + [n]
    return it.alloc(ListC.of([it.getitem(o, at_axis(a.ndim, ax, SliceV(x, y, None))) for x, y in zip(b, b[1:])]))


LIB["numpy.vsplit"] = LibFn("numpy.vsplit", lambda it, o, k: np_split(it, o, k, 0))
LIB["numpy.hsplit"] = LibFn("numpy.hsplit", lambda it, o, k: np_split(it, o, k, 1 if it.arr(o).ndim > 1 else 0))


@lib("numpy.indices")
def np_indices(it, dims, **kw):
    sh = L.shape_arg(it, dims)
    sh = tuple(norm_dim(d) for d in sh)

    def fn(q, *I):
        r = T.lift(I[-1])
        for k in range(len(sh) - 2, -1, -1):
            r = T.ite(T.eq(q, k), I[k], r)
        return r
    return it.new_arr(Arr((len(sh),) + sh, fn, "int64"))


@lib("numpy.ndindex")
def np_ndindex(it, *dims):
    if len(dims) == 1 and isinstance(dims[0], tuple):
        dims = dims[0]
    rs = [range(d) if isinstance(d, int) else SymSeq(d, lambda i: T.lift(i)) for d in dims]
    return it.call(LIB["itertools.product"], rs, {})


@lib("numpy.inner", "numpy.vdot")
def np_inner(it, a, b):
    A, B = it.arr(a), it.arr(b)
    if A.ndim != 1 or B.ndim != 1:
        raise Unsupported("np.inner of matrices")
    return call(it, "dot", a, b)


@lib("numpy.trace")
def np_trace(it, o):
    a = it.arr(o)
    if a.ndim != 2 or it.truth(T.eq(T.lift(a.shape[0]), T.lift(a.shape[1]))) is not True:
        raise Unsupported("np.trace")
    v = T.fresh("r", "I", 0, a.shape[0])
    return finish(it, Arr((), lambda: T.red("sum", v, a.shape[0], a.at(v, v)), a.dtype))


@lib("numpy.copyto")
def np_copyto(it, dst, src, **kw):
    if kw:
        raise Unsupported("np.copyto options")
    it.setitem(dst, INF if it.arr(dst).ndim else (), src)


@lib("numpy.polyval")
def np_polyval(it, p, x):
    y = T.ZERO
    for c in it.concrete_items(p):
        y = it.binop("Add", it.binop("Mult", y, x), c)
    return y


@lib("numpy.vectorize")
def np_vectorize(it, f, **kw):
    if kw:
        raise Unsupported("np.vectorize options")

    def g(it, *args):
        from . import loops
        As = [it.arr(a) for a in args]
        sh = ()
        for a in As:
            sh = it.broadcast_shapes(sh, a.shape)
        if not sh:
            return it.call(f, [a.at() for a in As], {})
        big = Arr(sh, lambda *I: T.ZERO, "int64").size()
        fl = [it.arr(L.flatten(it, it.call(LIB["numpy.broadcast_to"], [as_array(it, a), tuple(sh)], {}))) for a in args]
        if isinstance(big, int):
            out = it.alloc(ListC.of([it.call(f, [a.at(T.const(k)) for a in fl], {}) for k in range(big)]))
        else:
            out = loops.sym_map(it, SymSeq(big, lambda k: k), lambda k: it.call(f, [a.at(k) for a in fl], {}))
        return call(it, "reshape", call(it, "array", out), tuple(sh))
    return LibFn("numpy.vectorize", g)


@lib("numpy.apply_along_axis")
def np_apply_along_axis(it, f, axis, o, *args, **kw):
    from . import loops
    a = it.arr(o)
    axis = ax_of(axis, a.ndim)
    if a.ndim != 2:
        raise Unsupported("np.apply_along_axis")
    o = as_array(it, o)
    n = a.shape[1 - axis]
    row = lambda k: it.getitem(o, (k, INF) if axis == 1 else (INF, k))
    if isinstance(n, int):
        out = it.alloc(ListC.of([it.call(f, [row(k)] + list(args), kw) for k in range(n)]))
    else:
        out = loops.sym_map(it, SymSeq(n, lambda k: k), lambda k: it.call(f, [row(k)] + list(args), kw))
    r = call(it, "array", out)
    return r if axis == 1 or it.arr(r).ndim == 1 else call(it, "transpose", r)


def cr_index(it, kind, i):
    items = i if isinstance(i, tuple) else (i,)
    if any(isinstance(x, (SliceV, str)) for x in items):
        raise Unsupported(f"np.{kind} of slices")
    arrs = [it.arr(x) for x in items]
    if kind == "c_":
        if any(a.ndim == 0 for a in arrs):
            raise Unsupported("np.c_ of scalars")
        if len({a.ndim for a in arrs}) == 1 and arrs[0].ndim == 2:
            return call(it, "concatenate", items, axis=1)
        return call(it, "column_stack", items)
    if any(a.ndim > 1 for a in arrs):
        if all(a.ndim == arrs[0].ndim for a in arrs):
            return call(it, "concatenate", items, axis=0)
        raise Unsupported("np.r_ of mixed ranks")
    flat = [a if a.ndim else Arr((1,), (lambda a: lambda i: a.at())(a), a.dtype) for a in arrs]
    return it.new_arr(concat(it, flat, 0))


_hook = L.getitem_hook


def getitem_hook(it, o, i):
    if isinstance(o, ExtModule) and o.path in ("numpy.c_", "numpy.r_"):
        it.trusted.add(o.path)
        return cr_index(it, o.path[-2:], i)
    return _hook(it, o, i)


L.getitem_hook = getitem_hook


@lib("functools.partial")
def partial(it, f, *a, **k):
    return LibFn("", lambda it, *b, **q: it.call(f, list(a) + list(b), {**k, **q}))


for _n, _op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow"), ("matmul", "MatMult")):
    LIB["operator." + _n] = LibFn("operator." + _n, (lambda op: lambda it, a, b: it.binop(op, a, b))(_op))
for _n, _op in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
    LIB["operator." + _n] = LibFn("operator." + _n, (lambda op: lambda it, a, b: it.unbool(it.compare(op, a, b)) if not isinstance(it.compare(op, a, b), Ref) else it.compare(op, a, b))(_op))
LIB["operator.neg"] = LibFn("operator.neg", lambda it, a: it.binop("Sub", 0, a))
LIB["operator.itemgetter"] = LibFn("operator.itemgetter", lambda it, *k: LibFn("", lambda it, o: it.getitem(o, k[0]) if len(k) == 1 else tuple(it.getitem(o, x) for x in k)))
LIB["operator.attrgetter"] = LibFn("operator.attrgetter", lambda it, n: LibFn("", lambda it, o: it.getattr(o, n)))


@builtin("slice")
def b_slice(it, a, b=INF, c=None):
    return SliceV(None, a, None) if b is INF else SliceV(a, b, c)


BUILTINS["frozenset"] = BUILTINS["set"]

for _n in ("argmax", "argmin", "cumsum", "std", "var", "ptp", "take"):
    L.METHODS[_n] = LIB["numpy." + _n].fn
LIB["numpy.array_split"] = LibFn("numpy.array_split", lambda it, o, k, axis=0: np_split(it, o, k, axis) if not isinstance(k, int) or it.truth(T.eq(T.imod(T.lift(it.arr(o).shape[axis]), T.const(k)), 0)) is True else (_ for _ in ()).throw(Unsupported("np.array_split")))


# context managers of the standard library
@lib("contextlib.nullcontext")
def nullcontext(it, enter_result=None):
    return Opaque("nullcontext", {"value": enter_result})


CM["nullcontext"] = (lambda it, cm: cm.attrs["value"], lambda it, cm: None)


@lib("contextlib.ExitStack")
def exit_stack(it):
    entered = it.alloc(ListC.of(()))

    def enter_context(it, cm):
        v = it.enter(cm)
        it.call_method(entered, "append", [cm], {})
        return v
    return Opaque("ExitStack", {"entered": entered, "enter_context": LibFn("", enter_context)})


def exit_stack_exit(it, cm):
    for x in reversed(it.concrete_items(cm.attrs["entered"])):
        it.exit(x)


CM["ExitStack"] = (lambda it, cm: cm, exit_stack_exit)
