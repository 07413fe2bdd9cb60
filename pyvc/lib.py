"""Contracts of the library functions used by the code under verification (numpy, tensorflow, copy, ...).

Every function here is an assumed contract on a dependency: real-valued elementwise semantics, shapes,
copy/view behaviour and error conditions.  The names used in a run are listed in the evidence (trusted base).
"""
from fractions import Fraction
from . import terms as T, smt
from .terms import Term, TRUE, FALSE
from .values import *
from .interp import EXC, Overlay

LIB = {}
BUILTINS = {}
CM = {}
INERT_ROOTS = ("matplotlib", "tqdm", "rich", "gmsh", "pickle", "plotly", "logging", "warnings", "IPython", "optuna", "cycler", "yaml", "argparse", "time", "datetime")


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = LibFn(n, f)
        return f
    return deco


def builtin(name):
    def deco(f):
        BUILTINS[name] = LibFn("", f)
        BUILTINS[name].bname = name
        return f
    return deco


ALIASES = {"np": "numpy", "tf": "tensorflow"}
VALUES = {}


def resolve(path):
    if path in LIB:
        return LIB[path]
    if path in VALUES:
        v = VALUES[path]
        return v() if callable(v) and not isinstance(v, type) and getattr(v, "lazy", False) else v
    root = path.split(".")[0]
    if root in INERT_ROOTS:
        return Inert(path)
    if path.startswith("tensorflow.print"):
        return Inert(path)
    return None


def unknown_call(it, path, args, kw):
    root = path.split(".")[0]
    if root in INERT_ROOTS:
        return Inert(path)
    raise Unsupported(f"no contract for {path}")


# ---------------------------------------------------------------- dtypes
FLOATS = ("float64", "float32", "float16")
for _d in ("float64", "float32", "float16", "int64", "int32", "int8", "bool_", "complex128", "uint8"):
    VALUES["numpy." + _d] = DTypeV(_d.rstrip("_"))
VALUES["numpy.bool"] = DTypeV("bool")
VALUES["numpy.float_"] = DTypeV("float64")
VALUES["numpy.double"] = DTypeV("float64")
VALUES["numpy.int_"] = DTypeV("int64")
for _d in ("float64", "float32", "float16", "int64", "int32", "bool"):
    VALUES["tensorflow." + _d] = DTypeV("tf." + _d)
    VALUES["tensorflow.dtypes." + _d] = DTypeV("tf." + _d)
VALUES["numpy.pi"] = T.var("pi", "R")
VALUES["math.pi"] = VALUES["numpy.pi"]
VALUES["numpy.newaxis"] = None
VALUES["numpy.ndarray"] = ExcCls("numpy.ndarray")
VALUES["tensorflow.Tensor"] = ExcCls("tf.Tensor")
VALUES["tensorflow.DType"] = ExcCls("tf.DType")
VALUES["tensorflow.dtypes.DType"] = VALUES["tensorflow.DType"]
VALUES["numpy.inf"] = Opaque("inf")
VALUES["numpy.nan"] = Opaque("nan")
T.var("pi", "R").lo = T.const(Fraction(31415926, 10**7))
T.var("pi", "R").hi = T.const(Fraction(31415927, 10**7))


def dt_name(d, default=None):
    if d is None:
        return default
    if isinstance(d, DTypeV):
        return d.name[3:] if d.name.startswith("tf.") else d.name
    if isinstance(d, str):
        return d
    if isinstance(d, LibFn) and getattr(d, "bname", None) in ("int", "float", "bool"):
        return {"int": "int64", "float": "float64", "bool": "bool"}[d.bname]
    if isinstance(d, Opaque) and "dtype" in d.attrs:
        return d.attrs["dtype"]
    raise Unsupported(f"dtype {d}")


def isint(dt):
    return dt.startswith("int") or dt.startswith("uint")


def promote(dts):
    dts = list(dts)
    order = ["bool", "uint8", "int8", "int32", "int64", "float16", "float32", "float64"]
    best = max(dts, key=lambda d: order.index(d) if d in order else 8)
    if best.startswith("float") and best != "float64" and any(isint(d) for d in dts):
        best = "float64"
    return best


def dtype_call(it, fn, v=0, **kw):
    a = it.arr(v)
    n = dt_name(fn)
    r = it.cast_to(a, "int64" if isint(n) else n)
    return it.result_arr(r.with_(dtype=n, kind="np" if r.ndim else "py"))


# ---------------------------------------------------------------- helpers
def tf_wrap(it, a):
    """A tensor produced now: only tapes recording now can differentiate through it."""
    if not it.tape_count:
        return a
    mask = tape_mask(it)
    return Arr(a.shape, lambda *I: strip_tapes(a.at(*I), mask), a.dtype, a.kind)


def tape_mask(it):
    return frozenset(it.tapes_active)


def strip_tapes(t, mask):
    """Remove the annotation of tapes that are not recording from network values."""
    hits = []
    _collect_nets(t, hits, set())
    if all(TAPESETS[int(T.cval(h.args[1]))] <= mask for h in hits):
        return t
    memo = {}

    def f(x):
        if x.op != "app" or not x.args[0].startswith("NET"):
            return None
        n = tapeset(TAPESETS[int(T.cval(x.args[1]))] & mask)
        args = tuple(T.replace_atoms(a, f, memo) for a in x.args[2:])
        return T.rawapp(x.args[0], (n,) + args, x.sort)
    return T.replace_atoms(t, f, memo)


def _collect_nets(t, acc, seen):
    T_ = [t]
    while T_:
        x = T_.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.args[0].startswith("NET"):
            acc.append(x)
        if x.op == "poly":
            for m, c in x.args:
                T_.extend(a for a, e in m)
        else:
            T_.extend(a for a in x.args if isinstance(a, Term))


TAPESETS = []


def tapeset(s):
    s = frozenset(s)
    if s not in TAPESETS:
        TAPESETS.append(s)
    return T.const(TAPESETS.index(s))


def finish(it, a):
    """Result of a library operation: tensor, numpy scalar or a new numpy array."""
    if a.kind == "tf":
        return tf_wrap(it, a)
    return it.result_arr(a)


def kind_of(*arrs):
    return "tf" if any(a.kind == "tf" for a in arrs) else "np"


def map1(it, v, f, dtype=None):
    a = it.arr(v)
    r = Arr(a.shape, lambda *I: f(a.at(*I)), dtype or a.dtype, "tf" if a.kind == "tf" else "np")
    return finish(it, r)


def real(t):
    """Numeric view of a term (bool -> 0/1)."""
    return T.ite(t, T.ONE, T.ZERO) if t.sort == "B" else t


CMP = {"Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"}


def res_dtype(op, A, B):
    if op in CMP:
        return "bool"
    if A.kind == "tf" and B.kind != "tf":
        return A.dtype
    if B.kind == "tf" and A.kind != "tf":
        return B.dtype
    if A.kind == "py" and B.kind != "py" and not (isint(B.dtype) or B.dtype == "bool") or A.kind == "py" and A.dtype == B.dtype:
        d = B.dtype
    elif B.kind == "py" and A.kind != "py" and not (isint(A.dtype) or A.dtype == "bool"):
        d = A.dtype
    else:
        d = promote([A.dtype, B.dtype])
    if op == "Div" and (isint(d) or d == "bool"):
        d = "float64"
    return d


def arr_binop(it, op, a, b, A, B):
    if op == "MatMult":
        return matmul(it, a, b)
    if A.kind == "tf" and B.kind == "tf" and A.dtype != B.dtype and op not in CMP:
        raise PyRaise(EXC["InvalidArgumentError"], ("tensor dtypes differ",))
    shape = it.broadcast_shapes(A.shape, B.shape)
    ma, mb = it.bidx(A, shape), it.bidx(B, shape)
    if op in CMP:
        f = lambda x, y: it.term_cmp(op, real(x) if x.sort == "B" and y.sort != "B" else x, real(y) if y.sort == "B" and x.sort != "B" else y)
    elif op in ("BitAnd", "BitOr") and A.dtype == "bool" and B.dtype == "bool":
        f = T.and_ if op == "BitAnd" else T.or_
    else:
        f = lambda x, y: it.term_op(op, real(x), real(y))
    r = Arr(shape, lambda *I: f(A.at(*ma(I)), B.at(*mb(I))), res_dtype(op, A, B), kind_of(A, B))
    return finish(it, r)


def binop_hook(it, op, a, b):
    if op == "Div" and isinstance(a, Opaque) and a.label == "path":
        return mk_path(a.attrs["parts"] + ("/",) + str_parts(b))
    if op == "Div" and isinstance(b, Opaque) and b.label == "path" and isinstance(a, str):
        return mk_path((a, "/") + b.attrs["parts"])
    return NotImplemented


def str_parts(v):
    if isinstance(v, Opaque) and "parts" in v.attrs:
        return tuple(v.attrs["parts"])
    if isinstance(v, str):
        return (v,)
    if isinstance(v, Term):
        return (v,)
    if isinstance(v, int):
        return (str(v),)
    return (v,)


def norm_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


def mk_path(parts):
    return Opaque("path", {"parts": norm_parts(parts)})


def mk_str(parts):
    p = norm_parts(parts)
    if len(p) == 1 and (isinstance(p[0], str) or isinstance(p[0], Term) and p[0].sort == "U"):
        return p[0]
    return Opaque("fstring", {"parts": p})


def contains_hook(it, coll, c, x):
    if isinstance(c, SymDictC):
        raise Unsupported("membership in a symbolic dictionary")
    if isinstance(coll, Opaque) and isinstance(x, str):
        parts = coll.attrs.get("parts")
        if parts and any(isinstance(p, str) and x in p for p in parts):
            return True
        return T.rawapp("str_contains", (opaque_term(coll), T.strc(x)), "B")
    if isinstance(coll, Term) and coll.sort == "U" and isinstance(x, str):
        # stripping whitespace does not change whether a text without whitespace occurs
        while x and not any(ch.isspace() for ch in x) and coll.op == "app" and coll.args[0] in ("str_strip", "str_rstrip", "str_lstrip"):
            coll = coll.args[1]
        return T.rawapp("str_contains", (coll, T.strc(x)), "B")
    raise Unsupported(f"membership in {coll!r}")


def opaque_term(o):
    if isinstance(o, Term):
        return o
    if isinstance(o, str):
        return T.strc(o)
    parts = o.attrs.get("parts")
    if parts is not None:
        return T.rawapp("concat", tuple(opaque_term(p) for p in parts), "U")
    return T.var("opaque:" + o.label, "U")


def inst_to_arr(it, v, c):
    f = c.attrs.get("__array__")
    if f is not None:
        return it.arr(f)
    return None


def getitem_hook(it, o, i):
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, InstC):
            f = c.attrs.get("__getitem__")
            if f is not None:
                return it.call(f, [i], {})
            if isinstance(c.cls, Cls):
                m = c.cls.lookup("__getitem__")
                if m is not None:
                    return it.call(BoundMethod(m, o), [i], {})
        if isinstance(c, SymDictC):
            return symdict_get(it, o, c, i)
    if isinstance(o, Opaque) and o.attrs.get("__getitem__") is not None:
        return it.call(o.attrs["__getitem__"], [i], {})
    return NotImplemented


def symdict_get(it, o, c, i):
    i = T.lift(i)
    if c.name in KEYPOS:
        k = KEYPOS[c.name](i)
        if k is not None:
            v = c.valfn(k)
            return it.subst_value(v, dict(o.env)) if o.env else v
    raise Unsupported("lookup of an unknown key in a symbolic dictionary")


KEYPOS = {}


def setitem_hook(it, o, i, v):
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, SymDictC):
            k = KEYPOS[c.name](T.lift(i)) if c.name in KEYPOS else None
            if k is None:
                raise Unsupported("assignment to an unknown key of a symbolic dictionary")
            old = c.valfn

            def valfn(j):
                cond = T.eq(T.lift(j), k)
                if it.truth(cond) is True:
                    return v
                if it.truth(cond) is False:
                    return old(j)
                raise Unsupported("symbolic dictionary entry")
            it.heap[o.oid] = SymDictC(c.n, c.keyfn, valfn, c.name)
            # remember the assignment for loop summarisation
            it.heap[o.oid].assigned = (k, v, c)
            return None
    if isinstance(o, Inert):
        return None
    return NotImplemented


def setattr_hook(it, o, c, name, v):
    return NotImplemented


# ---------------------------------------------------------------- value attributes
def value_attr(it, o, name):
    if isinstance(o, Arr):
        return arr_attr(it, o, o, name)
    if isinstance(o, Term) and o.sort == "U":
        if name in ("strip", "rstrip", "lstrip", "lower", "upper"):
            def f(it, *a):
                if a:
                    raise Unsupported(f"str.{name} with arguments")
                return T.rawapp("str_" + name, (o,), "U")
            return LibFn("", f)
        if name in ("startswith", "endswith"):
            return LibFn("", lambda it, x: it.unbool(T.rawapp("str_" + name, (o, opaque_term(x)), "B")))
    if isinstance(o, Term) and o.sort in "IRB" or isinstance(o, (Fraction, int, bool)):
        if name in ("real",):
            return o
        if isinstance(o, (int, bool)) and not isinstance(o, Term) and name not in ("item", "astype", "shape", "dtype", "flatten", "reshape", "ndim", "size", "copy", "numpy"):
            return NotImplemented
        return arr_attr(it, o, it.arr(o), name)
    if isinstance(o, SymCallable):
        if name in getattr(o, "attrs", {}):
            return o.attrs[name]
        return NotImplemented
    if isinstance(o, Opaque):
        if name in o.attrs:
            return o.attrs[name]
        return opaque_attr(it, o, name)
    if isinstance(o, DTypeV):
        if name in ("name", "__name__"):
            return o.name.split(".")[-1]
        if name == "as_numpy_dtype":
            return DTypeV(o.name.split(".")[-1])
        return NotImplemented
    if isinstance(o, str):
        return str_attr(it, o, name)
    if isinstance(o, Func):
        if name == "__name__":
            return o.name
        if name == "__doc__":
            return None
        return NotImplemented
    if isinstance(o, BoundMethod) and name == "__name__":
        return getattr(o.fn, "name", "method")
    if isinstance(o, SymSeq):
        return NotImplemented
    if isinstance(o, LibFn) and name == "__name__":
        return o.name.split(".")[-1]
    return NotImplemented


def str_attr(it, o, name):
    if name in ("strip", "lower", "upper", "startswith", "endswith", "split", "replace", "rstrip", "lstrip", "title", "capitalize"):
        def f(it, *a):
            if all(isinstance(x, (str, int)) for x in a):
                r = getattr(o, name)(*a)
                return it.alloc(ListC.of(r)) if isinstance(r, list) else r
            raise Unsupported(f"str.{name}")
        return LibFn("", f)
    if name == "join":
        def f(it, seq):
            items = it.concrete_items(seq)
            out = ()
            for i, x in enumerate(items):
                out += ((o,) if i else ()) + str_parts(x)
            return mk_str(out)
        return LibFn("", f)
    if name == "format":
        return LibFn("", lambda it, *a, **k: str_format(it, o, a, k))
    return NotImplemented


def str_format(it, o, a, k):
    """str.format with plain replacement fields."""
    import string
    parts, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(o):
        parts.append(text)
        if field is None:
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit():
            v = a[int(field)] if int(field) < len(a) else None
        else:
            v = k.get(field)
        if v is None or "{" in spec:
            parts += it.text_of(None)
        else:
            parts += it.text_of(v, spec, conv in (None, "s"))
    return it.text(parts)


def str_percent(it, o, b):
    """The % operator on strings with %s, %d and %i fields."""
    import re
    vals = list(b) if isinstance(b, tuple) else [b]
    parts = []
    for piece in re.split(r"(%[^a-zA-Z%]*[a-zA-Z%])", o):
        if not piece.startswith("%"):
            parts.append(piece)
        elif piece == "%%":
            parts.append("%")
        elif not vals:
            parts += it.text_of(None)
        else:
            v = vals.pop(0)
            if piece == "%s" or piece in ("%d", "%i") and (isinstance(v, int) or isinstance(v, Term) and v.sort == "I"):
                parts += it.text_of(v)
            else:
                parts += it.text_of(v, piece)
    return it.text(parts)


def opaque_attr(it, o, name):
    if o.label == "path":
        parts = o.attrs["parts"]
        if name == "suffix":
            last = parts[-1] if parts else ""
            if isinstance(last, str):
                tail = last.split("/")[-1]
                if "." in tail.lstrip("."):
                    return "." + tail.split(".")[-1]
                if len(parts) == 1:
                    return ""
            return T.rawapp("suffix", tuple(opaque_term(p) for p in parts), "U")
        if name in ("exists", "is_file", "is_dir"):
            return LibFn("", lambda it: T.rawapp(name, (opaque_term(o),), "B"))
        if name in ("mkdir", "unlink", "touch"):
            return LibFn("", lambda it, *a, **k: None)
        if name in ("parent", "name", "stem"):
            return Opaque("fstring", {"parts": (name, "(") + tuple(parts) + (")",)})
        if name in ("joinpath",):
            return LibFn("", lambda it, *a: mk_path(parts + tuple(x for p in a for x in ("/",) + str_parts(p))))
        if name in ("as_posix", "__str__"):
            return LibFn("", lambda it: mk_str(parts))
        if name in ("resolve", "absolute"):
            return LibFn("", lambda it: o)
    if o.label == "fstring" and name in ("strip", "rstrip", "lower"):
        return LibFn("", lambda it, *a: o)
    return NotImplemented


def ref_attr(it, o, c, name):
    if isinstance(c, ArrC):
        return arr_attr(it, o, it.arr(o), name)
    if isinstance(c, ListC):
        return list_attr(it, o, name)
    if isinstance(c, DictC):
        return dict_attr(it, o, name)
    if isinstance(c, SymDictC):
        return symdict_attr(it, o, c, name)
    return NotImplemented


# ---------------------------------------------------------------- lists and dictionaries
def list_attr(it, o, name):
    def upd(segs):
        if o.env:
            raise Unsupported("mutation of a list belonging to an object family")
        it.heap[o.oid] = ListC(segs)

    def append(it, v):
        upd(it.content(o).segs + (Seg(value=v),))

    def extend(it, v):
        from . import loops
        seq = loops.as_sequence(it, v)
        if isinstance(seq, list):
            upd(it.content(o).segs + tuple(Seg(value=x) for x in seq))
        else:
            src = it.content(v) if isinstance(v, Ref) else None
            if isinstance(src, ListC) and not v.env:
                upd(it.content(o).segs + src.segs)
            else:
                upd(it.content(o).segs + (Seg(seq.n, seq.fn),))

    def insert(it, i, v):
        s = list(it.content(o).segs)
        if isinstance(i, int) and (i == 0 or it.content(o).concrete()):
            s.insert(i, Seg(value=v))
            return upd(tuple(s))
        raise Unsupported("list.insert")

    def pop(it, i=-1):
        s = list(it.content(o).segs)
        if not s:
            raise PyRaise(EXC["IndexError"], ("pop from empty list",))
        if isinstance(i, int) and (it.content(o).concrete() or i == -1 and s[-1].single or i == 0 and s[0].single):
            try:
                x = s.pop(i)
            except IndexError:
                raise PyRaise(EXC["IndexError"], ("pop index out of range",))
            upd(tuple(s))
            return x.value
        raise Unsupported("list.pop")

    def clear(it):
        upd(())

    def copy(it):
        return it.alloc(ListC(it.content(o).segs))

    def index(it, v):
        for k, x in enumerate(it.concrete_items(o)):
            if it.branch(T.lift(it.to_bool(it.compare("Eq", x, v)))):
                return k
        raise PyRaise(EXC["ValueError"], ("not in list",))

    def reverse(it):
        c = it.content(o)
        if c.concrete():
            return upd(tuple(reversed(c.segs)))
        raise Unsupported("list.reverse")

    def count(it, v):
        n = 0
        for x in it.concrete_items(o):
            if it.branch(T.lift(it.to_bool(it.compare("Eq", x, v)))):
                n += 1
        return n

    def sort(it, **kw):
        r = LIB_sorted(it, o, **kw)
        upd(it.content(r).segs)

    fs = {"append": append, "extend": extend, "insert": insert, "pop": pop, "clear": clear, "copy": copy, "index": index, "reverse": reverse, "count": count, "sort": sort}
    if name in fs:
        return LibFn("", fs[name])
    if name in ("shape", "dtype", "reshape", "flatten"):
        return NotImplemented
    return NotImplemented


def dict_attr(it, o, name):
    sub = lambda v: it.subst_value(v, dict(o.env)) if o.env else v

    def keys(it):
        return it.alloc(ListC.of(list(it.content(o).d.keys())))

    def values(it):
        return it.alloc(ListC.of([sub(it.force(v)) for v in it.content(o).d.values()]))

    def items(it):
        return it.alloc(ListC.of([(k, sub(it.force(v))) for k, v in it.content(o).d.items()]))

    def get(it, k, default=None):
        c = it.content(o)
        kk = it.key(k)
        if not isinstance(kk, Term) and not any(isinstance(y, Term) for y in c.d):
            return sub(it.force(c.d[kk])) if kk in c.d else default
        raise Unsupported("dict.get with a symbolic key")

    def pop(it, k, *default):
        c = it.content(o)
        kk = it.key(k)
        if kk in c.d:
            d = dict(c.d)
            v = d.pop(kk)
            it.heap[o.oid] = DictC(d)
            return v
        if default:
            return default[0]
        raise PyRaise(EXC["KeyError"], (kk,))

    def update(it, other=None, **kw):
        d = dict(it.content(o).d)
        if other is not None:
            if isinstance(other, Inert) or isinstance(other, Opaque):
                raise Unsupported("dict.update with opaque")
            d.update(it.content(other).d)
        d.update(kw)
        it.heap[o.oid] = DictC(d)

    def setdefault(it, k, v=None):
        c = it.content(o)
        kk = it.key(k)
        if isinstance(kk, Term) and kk not in c.d and c.d:
            raise Unsupported("setdefault with a symbolic key")
        if kk in c.d:
            return sub(it.force(c.d[kk]))
        d = dict(c.d)
        d[kk] = v
        it.heap[o.oid] = DictC(d)
        return v

    def copy(it):
        return it.alloc(DictC(it.content(o).d))

    fs = {"keys": keys, "values": values, "items": items, "get": get, "pop": pop, "update": update, "copy": copy, "setdefault": setdefault}
    if name in fs:
        return LibFn("", fs[name])
    return NotImplemented


def symdict_attr(it, o, c, name):
    sub = lambda v: it.subst_value(v, dict(o.env)) if o.env else v
    if name == "keys":
        return LibFn("", lambda it: SymSeq(c.n, lambda k: c.keyfn(k)))
    if name == "values":
        return LibFn("", lambda it: SymSeq(it.content(o).n, lambda k: sub(it.content(o).valfn(k))))
    if name == "items":
        return LibFn("", lambda it: SymSeq(it.content(o).n, lambda k: (c.keyfn(k), sub(it.content(o).valfn(k)))))
    if name == "copy":
        return LibFn("", lambda it: it.alloc(SymDictC(c.n, c.keyfn, c.valfn, c.name)))
    return NotImplemented


# ---------------------------------------------------------------- arrays: shapes
def flat_index(I, shape):
    r = T.ZERO
    for i, d in zip(I, shape):
        r = T.add(T.mul(r, d), i)
    return r


def unflat(r, shape):
    out = []
    for d in reversed(shape[1:]):
        q, m = T.idivmod(r, T.lift(d))
        out.append(m)
        r = q
    if shape:
        out.append(r)
    return tuple(reversed(out))


def prod(ds):
    r = T.ONE
    for d in ds:
        r = T.mul(r, d)
    return r


def shape_groups(s1, s2):
    """Align two shapes with equal products into groups with equal products (as syntactic products)."""
    groups = []
    i = j = 0
    a = b = None
    g1, g2 = [], []
    n1, n2 = len(s1), len(s2)
    # greedy: extend the smaller side until products agree
    while i < n1 or j < n2:
        if not g1 and not g2:
            if i < n1 and j < n2:
                g1, g2 = [i], [j]
                i += 1
                j += 1
            else:
                # leftover ones
                while i < n1:
                    if s1[i] != 1:
                        return None
                    groups.append(([i], []))
                    i += 1
                while j < n2:
                    if s2[j] != 1:
                        return None
                    groups.append(([], [j]))
                    j += 1
                break
        p1, p2 = prod(s1[k] for k in g1), prod(s2[k] for k in g2)
        if p1 is p2:
            groups.append((g1, g2))
            g1, g2 = [], []
            continue
        c1, c2 = T.cval(p1), T.cval(p2)
        if c1 is not None and c2 is not None:
            ext1 = c1 < c2
        else:
            # extend the one dividing the other
            q = T._split_div(p2, p1)
            ext1 = q is not None and q[1] is T.ZERO
            if not ext1:
                q = T._split_div(p1, p2)
                if q is None or q[1] is not T.ZERO:
                    ext1 = None
        if ext1 is None:
            ext1 = i < n1
            if i < n1:
                g1.append(i)
                i += 1
            if j < n2:
                g2.append(j)
                j += 1
            if i >= n1 and j >= n2:
                if prod(s1[k] for k in g1) is prod(s2[k] for k in g2):
                    groups.append((g1, g2))
                    g1, g2 = [], []
                else:
                    return None
            continue
        if ext1:
            if i >= n1:
                return None
            g1.append(i)
            i += 1
        else:
            if j >= n2:
                return None
            g2.append(j)
            j += 1
    if g1 or g2:
        if prod(s1[k] for k in g1) is prod(s2[k] for k in g2):
            groups.append((g1, g2))
        else:
            return None
    return groups


def index_map(src, dst):
    """Maps an index of shape dst to the index of shape src with the same row-major position."""
    src = tuple(T.lift(d) if not isinstance(d, int) else d for d in src)
    dst = tuple(T.lift(d) if not isinstance(d, int) else d for d in dst)
    groups = shape_groups([norm_dim(d) for d in src], [norm_dim(d) for d in dst])
    if groups is None:
        return lambda I: unflat(flat_index(I, dst), src)

    def f(J):
        out = [None] * len(src)
        for g1, g2 in groups:
            if not g1:
                continue
            if not g2:
                for k in g1:
                    out[k] = T.ZERO
                continue
            if len(g1) == 1 and len(g2) == 1:
                out[g1[0]] = J[g2[0]]
                continue
            r = flat_index([J[k] for k in g2], [dst[k] for k in g2])
            for k, v in zip(g1, unflat(r, [src[k] for k in g1])):
                out[k] = v
        return tuple(out)
    return f


def resolve_shape(it, total, shape):
    """Resolve a -1 entry."""
    shape = [norm_dim(T.lift(d)) if isinstance(d, (Term, Fraction)) else d for d in shape]
    if any(d is None for d in shape):
        raise Unsupported("shape None")
    if any(isinstance(d, int) and d == -1 for d in shape):
        rest = prod(d for d in shape if not (isinstance(d, int) and d == -1))
        q = T._split_div(total, rest)
        if q is None or q[1] is not T.ZERO:
            if T.cval(total) is not None and T.cval(rest) is not None:
                raise PyRaise(EXC["ValueError"], ("cannot reshape",))
            if total.op == "poly" and rest is not T.ZERO:
                qq, rr = T.idivmod(total, rest)
                if rr is T.ZERO:
                    q = (qq, rr)
                elif it.truth(T.eq(rr, 0)):
                    q = (qq, T.ZERO)
                else:
                    raise Unsupported(f"reshape of {total} elements into rows of {rest}")
            else:
                qq, rr = T.idivmod(total, rest)
                if rr is not T.ZERO and not it.truth(T.eq(rr, 0)):
                    raise Unsupported(f"reshape of {total} elements into rows of {rest}")
                q = (qq, T.ZERO)
        shape = [norm_dim(q[0]) if isinstance(d, int) and d == -1 else d for d in shape]
    else:
        e = T.eq(total, prod(shape))
        if e is FALSE:
            raise PyRaise(EXC["ValueError"], ("cannot reshape",))
        if e is not TRUE and not it.branch(e):
            raise PyRaise(EXC["ValueError"], ("cannot reshape",))
    return tuple(shape)


def shape_arg(it, s):
    if isinstance(s, (int, Term, Fraction)):
        return [s]
    if isinstance(s, (tuple, list)):
        out = list(s)
    elif isinstance(s, Ref) or isinstance(s, Arr):
        out = it.concrete_items(s)
    else:
        raise Unsupported(f"shape {s!r}")
    res = []
    for x in out:
        if isinstance(x, Arr):
            x = x.at()
        res.append(x)
    return res


def reshape_arr(it, o, a, shape):
    shape = resolve_shape(it, T.lift(a.size()), shape)
    fwd = index_map(a.shape, shape)
    back = index_map(shape, a.shape)
    if a.kind == "tf":
        return tf_wrap(it, Arr(shape, lambda *I: a.at(*fwd(I)), a.dtype, "tf"))
    if isinstance(o, Ref) and isinstance(it.content(o), ArrC) and it.content(o).layout is None:
        return it.make_view(o, shape, fwd, lambda J: (TRUE, back(J)))
    return it.new_arr(Arr(shape, lambda *I: a.at(*fwd(I)), a.dtype))


def transpose_arr(it, o, a, perm=None):
    n = a.ndim
    if perm is None:
        perm = tuple(reversed(range(n)))
    shape = tuple(a.shape[p] for p in perm)

    def fwd(I):
        out = [None] * n
        for k, p in enumerate(perm):
            out[p] = I[k]
        return tuple(out)
    if a.kind == "tf":
        return tf_wrap(it, Arr(shape, lambda *I: a.at(*fwd(I)), a.dtype, "tf"))
    if isinstance(o, Ref) and isinstance(it.content(o), ArrC) and n > 1:
        return it.make_view(o, shape, fwd, lambda J: (TRUE, tuple(J[p] for p in perm)), "strided" if perm != tuple(range(n)) else None)
    return it.new_arr(Arr(shape, lambda *I: a.at(*fwd(I)), a.dtype))


def flatten(it, o, order=None):
    a = it.arr(o)
    if order not in (None, "C"):
        if order == "F":
            return flatten(it, transpose_arr(it, o, a))
        raise Unsupported("flatten order")
    n = norm_dim(T.lift(a.size()))
    m = index_map(a.shape, (n,))
    r = Arr((n,), lambda *I: a.at(*m(I)), a.dtype, a.kind if a.kind == "tf" else "np")
    return r if r.kind == "tf" else it.new_arr(r)


def reduce_axes(it, a, axis, kind, keepdims=False, dtype=None, scale=None):
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
        axes = [int(x) + a.ndim if int(x) < 0 else int(x) for x in axes]
        for x in axes:
            if not 0 <= x < a.ndim:
                raise PyRaise(EXC["ValueError"], ("axis out of bounds",))
    keep = [k for k in range(a.ndim) if k not in axes]
    shape = tuple(1 if k in axes else a.shape[k] for k in range(a.ndim)) if keepdims else tuple(a.shape[k] for k in keep)

    def fn(*I):
        idx = [None] * a.ndim
        if keepdims:
            for k in keep:
                idx[k] = I[k]
        else:
            for p, k in enumerate(keep):
                idx[k] = I[p]
        vs = []
        for k in axes:
            v = T.fresh("r", "I", 0, a.shape[k])
            idx[k] = v
            vs.append((v, a.shape[k]))
        t = a.at(*idx)
        if kind in ("sum", "max", "min"):
            t = real(t)
        for v, n in reversed(vs):
            t = T.red(kind, v, n, t)
        if scale is not None:
            t = T.div(t, scale)
        return t
    n = prod(a.shape[k] for k in axes)
    return Arr(shape, fn, dtype or a.dtype, a.kind if a.kind == "tf" else "np"), n


def np_sum(it, o, axis=None, dtype=None, keepdims=False, **kw):
    a = it.arr(o)
    dt = "int64" if a.dtype == "bool" else a.dtype
    r, n = reduce_axes(it, a, axis, "sum", keepdims, dt)
    return finish(it, r)


def np_mean(it, o, axis=None, keepdims=False, dtype=None):
    a = it.arr(o)
    ax = axis
    _, n = reduce_axes(it, a, ax, "sum")
    dt = a.dtype if not isint(a.dtype) and a.dtype != "bool" else "float64"
    r, n = reduce_axes(it, a, ax, "sum", keepdims, dt, scale=n)
    return finish(it, r)


def not_empty(it, n, name):
    if n == 0 or isinstance(n, Term) and it.truth(T.ge(n, 1)) is not True and it.branch(T.le(n, 0)):
        raise PyRaise(EXC["ValueError"], (f"zero-size array to reduction operation {name} which has no identity",))


def np_max(it, o, axis=None, keepdims=False):
    a = it.arr(o)
    r, n = reduce_axes(it, a, axis, "max", keepdims)
    not_empty(it, n, "maximum")
    return finish(it, r)


def np_min(it, o, axis=None, keepdims=False):
    a = it.arr(o)
    r, n = reduce_axes(it, a, axis, "min", keepdims)
    not_empty(it, n, "minimum")
    return finish(it, r)


def np_any(it, o, axis=None, **kw):
    a = it.arr(o)
    b = Arr(a.shape, lambda *I: tobool(a.at(*I)), "bool", a.kind)
    r, n = reduce_axes(it, b, axis, "any")
    return finish(it, r)


def np_all(it, o, axis=None, **kw):
    a = it.arr(o)
    b = Arr(a.shape, lambda *I: tobool(a.at(*I)), "bool", a.kind)
    r, n = reduce_axes(it, b, axis, "all")
    return finish(it, r)


def tobool(t):
    return t if t.sort == "B" else T.ne(t, 0)


def matmul(it, x, y):
    A, B = it.arr(x), it.arr(y)
    if A.ndim == 0 or B.ndim == 0:
        raise PyRaise(EXC["ValueError"], ("matmul of scalars",))
    if A.kind == "tf" and B.kind == "tf" and A.dtype != B.dtype:
        raise PyRaise(EXC["InvalidArgumentError"], ("tensor dtypes differ",))
    if B.ndim == 1:
        n = A.shape[-1]
        need_same(it, n, B.shape[0])
        shape = A.shape[:-1]

        def fn(*I):
            v = T.fresh("r", "I", 0, n)
            return T.sumr(v, n, T.mul(A.at(*I, v), B.at(v)))
    elif A.ndim == 1:
        n = A.shape[0]
        need_same(it, n, B.shape[-2])
        shape = B.shape[:-2] + B.shape[-1:]

        def fn(*I):
            v = T.fresh("r", "I", 0, n)
            return T.sumr(v, n, T.mul(A.at(v), B.at(*I[:-1], v, I[-1])))
    else:
        n = A.shape[-1]
        need_same(it, n, B.shape[-2])
        batch = it.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A0 = Arr(A.shape[:-2], lambda *I: T.ZERO)
        B0 = Arr(B.shape[:-2], lambda *I: T.ZERO)
        ma, mb = it.bidx(A0, batch), it.bidx(B0, batch)
        shape = batch + (A.shape[-2], B.shape[-1])

        def fn(*I):
            v = T.fresh("r", "I", 0, n)
            b = I[:-2]
            return T.sumr(v, n, T.mul(A.at(*ma(b), I[-2], v), B.at(*mb(b), v, I[-1])))
    return finish(it, Arr(shape, fn, res_dtype("Mult", A, B), kind_of(A, B)))


def need_same(it, a, b):
    if not it.same_dim(a, b):
        if isinstance(a, int) and isinstance(b, int) or not it.branch(T.eq(T.lift(a), T.lift(b))):
            raise PyRaise(EXC["ValueError"], ("shape mismatch",))


def to_int_term(t):
    if t.sort == "I":
        return t
    if t.sort == "B":
        return T.ite(t, T.ONE, T.ZERO)
    c = T.cval(t)
    if c is not None:
        return T.const(int(c))
    if t.op == "ite":
        return T.ite(t.args[0], to_int_term(t.args[1]), to_int_term(t.args[2]))
    # p/c with p an integer polynomial: truncation is the floor when nonnegative
    items = T.polyd(t)
    from math import lcm
    den = 1
    ok = True
    for m, c in items.items():
        den = lcm(den, c.denominator)
        for a, e in m:
            if a.sort != "I" or e < 0:
                ok = False
    if ok and den > 1:
        num = T.scale(den, t)
        if T.nonneg(num):
            return T.idiv(num, T.const(den))
        q = T.idiv(num, T.const(den))
        qn = T.neg(T.idiv(T.neg(num), T.const(den)))
        return T.ite(T.ge(num, 0), q, qn)
    return T.rawapp("trunc", (t,), "I")


def ax_trunc(apps):
    out = []
    for t in apps:
        x = t.args[1]
        out.append(T.implies(T.ge(x, 0), T.and_(T.le(t, x), T.lt(x, T.add(t, 1)))))
        out.append(T.implies(T.lt(x, 0), T.and_(T.ge(t, x), T.lt(T.sub(t, 1), x))))
    return out


smt.AXIOMS["trunc"] = ax_trunc


def cast(it, o, dtype, copy=True):
    a = it.arr(o)
    n = dt_name(dtype, a.dtype)
    if isint(n) and not isint(a.dtype):
        r = Arr(a.shape, lambda *I: to_int_term(a.at(*I)), n, a.kind)
    elif n == "bool":
        r = Arr(a.shape, lambda *I: tobool(a.at(*I)), n, a.kind)
    elif a.dtype == "bool":
        r = Arr(a.shape, lambda *I: real(a.at(*I)), n, a.kind)
    elif a.dtype in ("float32", "float16") and n == "float64":
        # a widening conversion keeps the rounding of the narrow type
        r = Arr(a.shape, lambda *I: rounded(a.at(*I)), n, a.kind)
    else:
        r = a.with_(dtype=n)
    return r


def rounded(t):
    """The value a real number has after it was stored in single precision (uninterpreted, exact for small dyadic constants)."""
    t = T.lift(t)
    c = T.cval(t)
    if c is not None and abs(c.numerator) < 1 << 24 and c.denominator & (c.denominator - 1) == 0 and c.denominator < 1 << 60:
        return t
    return T.rawapp("single", (t,), "R")


def arr_attr(it, o, a, name):
    if name == "shape":
        return Opaque("tfshape", {"dims": a.shape}) if False else tuple(a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return a.size() if a.kind != "tf" else a.size()
    if name == "dtype":
        return DTypeV(("tf." if a.kind == "tf" else "") + a.dtype)
    if name == "T":
        return transpose_arr(it, o, a)
    m = METHODS.get(name)
    if m is not None:
        return LibFn("", lambda it, *args, **kw: m(it, o, *args, **kw))
    if name == "values" and a.kind == "np":
        return LIB["numpy.copy"].fn(it, o)  # a column of a data frame
    if name in ("flags", "data", "strides", "name", "device", "graph", "base", "setflags", "byteswap"):
        raise Unsupported(f"array attribute {name}")
    return NotImplemented


def m_reshape(it, o, *shape, **kw):
    if kw.get("order", "C") != "C":
        raise Unsupported("reshape order")
    s = shape_arg(it, shape[0] if len(shape) == 1 else tuple(shape))
    return reshape_arr(it, o, it.arr(o), s)


def m_copy(it, o, *a, **k):
    x = it.arr(o)
    return it.result_arr(x.with_(kind="np"))


def m_astype(it, o, dtype, **kw):
    a = it.arr(o)
    r = cast(it, o, dtype)
    return it.result_arr(r)


def m_transpose(it, o, *perm):
    if len(perm) == 1 and isinstance(perm[0], (tuple, Ref)):
        perm = tuple(it.concrete_items(perm[0]))
    return transpose_arr(it, o, it.arr(o), tuple(int(p) for p in perm) if perm else None)


def m_numpy(it, o):
    a = it.arr(o)
    return it.result_arr(Arr(a.shape, lambda *I: a.at(*I), a.dtype, "np"))


def m_item(it, o, *idx):
    a = it.arr(o)
    if not idx:
        if any(d != 1 for d in a.shape):
            raise Unsupported("item of non-scalar")
        return it.unscalar(a.at(*[0] * a.ndim))
    raise Unsupported("item(index)")


def m_tolist(it, o):
    a = it.arr(o)
    if a.ndim == 0:
        return it.unscalar(a.at())
    if isinstance(a.shape[0], int):
        out = []
        for i in range(a.shape[0]):
            sub = Arr(a.shape[1:], (lambda i: lambda *I: a.at(i, *I))(i), a.dtype)
            out.append(m_tolist(it, sub))
        return it.alloc(ListC.of(out))
    if a.ndim == 1:
        return it.alloc(ListC([Seg(a.shape[0], lambda i: a.at(i))]))
    return it.alloc(ListC([Seg(a.shape[0], lambda i: Arr(a.shape[1:], lambda *I: a.at(i, *I), a.dtype))]))


def m_fill(it, o, v):
    a = it.arr(o)
    t = it.arr(v).at()
    it.store_arr(o, a.with_(fn=lambda *I: t))


def m_squeeze(it, o, axis=None):
    a = it.arr(o)
    if axis is None:
        keep = [k for k in range(a.ndim) if not (isinstance(a.shape[k], int) and a.shape[k] == 1)]
    else:
        ax = [axis] if isinstance(axis, int) else list(axis)
        ax = [x + a.ndim if x < 0 else x for x in ax]
        for x in ax:
            if a.shape[x] != 1:
                raise PyRaise(EXC["ValueError"], ("squeeze",))
        keep = [k for k in range(a.ndim) if k not in ax]
    return reshape_arr(it, o, a, [a.shape[k] for k in keep])


def m_dot(it, o, other):
    A, B = it.arr(o), it.arr(other)
    if A.ndim == 0 or B.ndim == 0:
        return it.binop("Mult", o, other)
    if A.ndim <= 2 and B.ndim <= 2:
        return matmul(it, o, other)
    raise Unsupported("dot of >2d arrays")


def ravel(it, o, order="C"):
    a = it.arr(o)
    if order == "F":
        return ravel(it, transpose_arr(it, o, a))
    if order not in ("C", "K", "A"):
        raise Unsupported("ravel order")
    if isinstance(o, Ref) and not isinstance(it.content(o), ArrC):
        o = it.new_arr(a)
    return reshape_arr(it, o, a, [-1])


METHODS = {
    "reshape": m_reshape, "flatten": flatten, "ravel": ravel,
    "copy": m_copy, "astype": m_astype, "transpose": m_transpose, "sum": np_sum, "mean": np_mean, "max": np_max, "min": np_min,
    "any": np_any, "all": np_all, "dot": m_dot, "tolist": m_tolist, "numpy": m_numpy, "item": m_item, "fill": m_fill, "squeeze": m_squeeze,
    "__len__": lambda it, o: LIB_len(it, o), "prod": lambda it, o, axis=None: np_prod(it, o, axis),
    "view": lambda it, o, *a: o, "get_shape": lambda it, o: tuple(it.arr(o).shape),
    "swapaxes": lambda it, o, a, b: np_swapaxes(it, o, a, b), "repeat": lambda it, o, n, axis=None: np_repeat(it, o, n, axis),
    "argsort": lambda it, o, **k: np_argsort(it, o, **k), "read_value": lambda it, o: o, "value": lambda it, o: o,
    "clip": lambda it, o, lo, hi: np_clip(it, o, lo, hi), "round": lambda it, o, n=0: np_round(it, o, n),
}

# ---------------------------------------------------------------- numpy functions
for _n, _f in [("sum", np_sum), ("mean", np_mean), ("average", np_mean), ("max", np_max), ("min", np_min), ("amax", np_max), ("amin", np_min), ("any", np_any), ("all", np_all),
               ("matmul", matmul), ("dot", m_dot), ("squeeze", m_squeeze), ("ravel", ravel)]:
    LIB["numpy." + _n] = LibFn("numpy." + _n, _f)


@lib("numpy.reshape")
def np_reshape(it, o, shape=None, newshape=None, **kw):
    s = shape if shape is not None else newshape
    if it.as_arr_or_none(o) is None:
        raise Unsupported("reshape")
    if isinstance(o, Ref) and not isinstance(it.content(o), ArrC):
        o = it.new_arr(it.arr(o))
    return reshape_arr(it, o, it.arr(o), shape_arg(it, s))


@lib("numpy.transpose")
def np_transpose(it, o, axes=None):
    return transpose_arr(it, o, it.arr(o), tuple(it.concrete_items(axes)) if axes is not None else None)


@lib("numpy.swapaxes")
def np_swapaxes(it, o, a, b):
    x = it.arr(o)
    p = list(range(x.ndim))
    p[a], p[b] = p[b], p[a]
    return transpose_arr(it, o, x, tuple(p))


def elementwise(name, f, dtype=None):
    def g(it, o, *args, **kw):
        if isinstance(o, (Inert,)):
            return o
        a = it.arr(o)
        dt = dtype or (a.dtype if a.dtype in FLOATS else "float64")
        r = Arr(a.shape, lambda *I: f(real(a.at(*I))), dt if name not in ("abs", "square", "negative", "absolute", "sign") else a.dtype, a.kind if a.kind == "tf" else "np")
        return finish(it, r)
    return g


def uf(name):
    return lambda t: T.app(name, (t,), "R")


def floor_t(t):
    if t.sort == "I":
        return t
    c = T.cval(t)
    if c is not None:
        return T.const(c.__floor__())
    return T.rawapp("floor", (t,), "I")


def ax_floor(apps):
    return [x for t in apps for x in (T.le(t, t.args[1]), T.lt(t.args[1], T.add(t, 1)))]


smt.AXIOMS["floor"] = ax_floor


def round_term(t, n=0):
    """x rounded to n decimals: an integer within 1/2 of x*10^n, divided by 10^n (which one at a tie is left open)."""
    t = T.lift(t)
    if t.sort == "I" and n >= 0:
        return t
    s = T.mul(t, T.const(Fraction(10) ** n))
    c = T.cval(s)
    r = T.const(round(c)) if c is not None else T.rawapp("rint", (s,), "I")
    return T.div(r, T.const(Fraction(10) ** n)) if n else r


def ax_rint(apps):
    h = T.const(Fraction(1, 2))
    return [x for t in apps for x in (T.le(t, T.add(t.args[1], h)), T.le(T.sub(t.args[1], h), t))]


smt.AXIOMS["rint"] = ax_rint


def sign_t(t):
    return T.ite(T.gt(t, 0), T.ONE, T.ite(T.lt(t, 0), T.const(-1), T.ZERO))


UNARY = {"sqrt": T.sqrt, "abs": T.absv, "absolute": T.absv, "fabs": T.absv, "square": lambda t: T.mul(t, t), "negative": T.neg,
         "exp": uf("exp"), "sin": uf("sin"), "cos": uf("cos"), "tan": uf("tan"), "tanh": uf("tanh"), "log": uf("log"), "arctan": uf("arctan"),
         "sinh": uf("sinh"), "cosh": uf("cosh"), "floor": floor_t, "ceil": lambda t: T.neg(floor_t(T.neg(t))), "sign": sign_t, "log10": uf("log10"), "reciprocal": T.inv,
         "positive": lambda t: t, "arccos": uf("arccos"), "arcsin": uf("arcsin")}
for _n, _f in UNARY.items():
    LIB["numpy." + _n] = LibFn("numpy." + _n, elementwise(_n, _f))
for _n in ("sqrt", "exp", "sin", "cos", "tan", "tanh", "log", "fabs", "floor", "ceil"):
    LIB["math." + _n] = LibFn("math." + _n, elementwise(_n, UNARY[_n]))
for _n, _m in [("sqrt", "sqrt"), ("abs", "abs"), ("square", "square"), ("exp", "exp"), ("sin", "sin"), ("cos", "cos"), ("tanh", "tanh"), ("tan", "tan"), ("log", "log"), ("sinh", "sinh"), ("cosh", "cosh"), ("negative", "negative"), ("sign", "sign")]:
    for _p in ("tensorflow.", "tensorflow.math."):
        LIB[_p + _n] = LibFn("tensorflow." + _n, (lambda g: lambda it, o, *a, **k: g(it, to_tensor(it, o)))(elementwise(_n, UNARY[_m])))
LIB["tensorflow.nn.tanh"] = LIB["tensorflow.tanh"]


def two(name, f):
    def g(it, a, b, **kw):
        A, B = it.arr(a), it.arr(b)
        shape = it.broadcast_shapes(A.shape, B.shape)
        ma, mb = it.bidx(A, shape), it.bidx(B, shape)
        return finish(it, Arr(shape, lambda *I: f(real(A.at(*ma(I))), real(B.at(*mb(I)))), res_dtype("Add", A, B), kind_of(A, B)))
    return g


def tmax(x, y):
    return T.ite(T.le(x, y), y, x)


def tmin(x, y):
    return T.ite(T.le(x, y), x, y)


def arctan2_t(y, x):
    return T.app("arctan2", (y, x), "R")


def ax_arctan2(apps):
    """Quadrant bounds of atan2 (pi bracketed by rationals)."""
    pi = VALUES["numpy.pi"]
    h = T.scale(Fraction(1, 2), pi)
    out = []
    for t in apps:
        y, x = t.args[1], t.args[2]
        out += [T.le(t, pi), T.lt(T.neg(pi), t)]
        out.append(T.implies(T.and_(T.lt(y, 0), T.lt(x, 0)), T.lt(t, T.neg(h))))
        out.append(T.implies(T.and_(T.lt(y, 0), T.gt(x, 0)), T.and_(T.lt(T.neg(h), t), T.lt(t, 0))))
        out.append(T.implies(T.and_(T.gt(y, 0), T.gt(x, 0)), T.and_(T.lt(0, t), T.lt(t, h))))
        out.append(T.implies(T.and_(T.gt(y, 0), T.lt(x, 0)), T.and_(T.lt(h, t), T.lt(t, pi))))
    return out


smt.AXIOMS["arctan2"] = ax_arctan2
for _n, _f in [("maximum", tmax), ("minimum", tmin), ("arctan2", arctan2_t)]:
    LIB["numpy." + _n] = LibFn("numpy." + _n, two(_n, _f))
LIB["math.atan2"] = LibFn("math.atan2", two("arctan2", arctan2_t))
for _n, _op in [("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("power", "Pow"), ("mod", "Mod"), ("floor_divide", "FloorDiv"),
                ("greater", "Gt"), ("less", "Lt"), ("equal", "Eq"), ("not_equal", "NotEq"), ("greater_equal", "GtE"), ("less_equal", "LtE"), ("logical_and", "BitAnd"), ("logical_or", "BitOr")]:
    LIB["numpy." + _n] = LibFn("numpy." + _n, (lambda op: lambda it, a, b, **k: it.binop(op, a, b) if op not in CMP else it.compare(op, a, b))(_op))
for _n, _op in [("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("pow", "Pow")]:
    for _p in ("tensorflow.", "tensorflow.math."):
        LIB[_p + _n] = LibFn("tensorflow." + _n, (lambda op: lambda it, a, b, **k: it.binop(op, to_tensor(it, a), to_tensor(it, b)))(_op))


@lib("numpy.clip")
def np_clip(it, o, lo, hi):
    r = LIB["numpy.maximum"].fn(it, o, lo)
    return LIB["numpy.minimum"].fn(it, r, hi)


LIB["numpy.rint"] = LibFn("numpy.rint", lambda it, o: LIB["numpy.round"].fn(it, o))


@lib("numpy.round", "numpy.around")
def np_round(it, o, n=0):
    n = n if isinstance(n, int) else T.cval(T.lift(n))
    if n is None:
        raise Unsupported("rounding to a symbolic number of decimals")
    if isinstance(o, (int, Fraction, Term)):
        return round_term(T.lift(o), int(n))
    a = it.arr(o)
    if isint(a.dtype):
        return LIB["numpy.array"].fn(it, o)
    return elementwise("round", lambda t: round_term(t, int(n)))(it, o)


def filled(value):
    def g(it, shape, dtype=None, **kw):
        s = shape_arg(it, shape)
        s = tuple(dim_check(it, d) for d in s)
        dt = dt_name(dtype, "float64")
        t = T.const(value)
        return it.new_arr(Arr(s, lambda *I: t, dt))
    return g


def dim_check(it, d):
    if isinstance(d, Fraction):
        if d.denominator != 1:
            raise PyRaise(EXC["TypeError"], ("float dimension",))
        raise PyRaise(EXC["TypeError"], ("'float' object cannot be interpreted as an integer",))
    if isinstance(d, Term) and d.sort != "I":
        c = T.cval(d)
        if c is None or c.denominator != 1:
            raise PyRaise(EXC["TypeError"], ("'float' object cannot be interpreted as an integer",))
    return d


LIB["numpy.zeros"] = LibFn("numpy.zeros", filled(0))
LIB["numpy.ones"] = LibFn("numpy.ones", filled(1))


@lib("numpy.empty")
def np_empty(it, shape, dtype=None, **kw):
    s = tuple(shape_arg(it, shape))
    n = f"uninit{next(T._cnt)}"
    return it.new_arr(it.fresh_arr(n, s, dt_name(dtype, "float64")))


@lib("numpy.full")
def np_full(it, shape, value, dtype=None, **kw):
    s = tuple(shape_arg(it, shape))
    v = it.broadcast_to(it.arr(value), s)
    return it.new_arr(v.with_(dtype=dt_name(dtype, v.dtype), kind="np"))


def like(value):
    def g(it, o, dtype=None, **kw):
        a = it.arr(o)
        t = T.const(value)
        r = Arr(a.shape, lambda *I: t, dt_name(dtype, a.dtype), "tf" if a.kind == "tf" else "np")
        return r if r.kind == "tf" else it.new_arr(r)
    return g


LIB["numpy.zeros_like"] = LibFn("numpy.zeros_like", like(0))
LIB["numpy.ones_like"] = LibFn("numpy.ones_like", like(1))
LIB["numpy.empty_like"] = LibFn("numpy.empty_like", lambda it, o, **k: np_empty(it, it.arr(o).shape))
LIB["numpy.full_like"] = LibFn("numpy.full_like", lambda it, o, v, **k: np_full(it, it.arr(o).shape, v))
LIB["tensorflow.zeros_like"] = LibFn("tensorflow.zeros_like", lambda it, o, **k: like(0)(it, to_tensor(it, o)))
LIB["tensorflow.ones_like"] = LibFn("tensorflow.ones_like", lambda it, o, **k: like(1)(it, to_tensor(it, o)))


def np_array(it, o, dtype=None, copy=True, **kw):
    if isinstance(o, (Inert, Opaque)):
        raise Unsupported(f"array of {o}")
    if isinstance(o, SymSeq):
        o = it.alloc(ListC([Seg(o.n, o.fn)]))
    a = it.as_arr_or_none(o)
    if a is None:
        raise Unsupported(f"np.array of {o!r}")
    if dtype is not None:
        a = cast(it, Arr(a.shape, a._fn, a.dtype, a.kind), dtype)
    a = Arr(a.shape, lambda *I: a_at(I), a.dtype, "np") if False else a.with_(kind="np")
    return it.new_arr(a)


LIB["numpy.array"] = LibFn("numpy.array", np_array)


@lib("numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray")
def np_asarray(it, o, dtype=None, **kw):
    if isinstance(o, Ref) and isinstance(it.content(o), ArrC):
        a = it.arr(o)
        if dtype is None or dt_name(dtype) == a.dtype:
            return o
    return np_array(it, o, dtype)


@lib("numpy.copy")
def np_copy(it, o, **kw):
    return np_array(it, o)


@lib("numpy.atleast_1d", "numpy.atleast_2d")
def np_atleast(it, o, **kw):
    a = it.arr(o)
    if a.ndim == 0:
        return it.new_arr(Arr((1,), lambda i: a.at(), a.dtype))
    return o


@lib("numpy.arange")
def np_arange(it, start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    step = 1 if step is None else step
    s, e, st = T.lift(start), T.lift(stop), T.lift(step)
    if not all(t.sort == "I" for t in (s, e, st)):
        raise Unsupported("arange of reals")
    c = T.cval(st)
    if c is None or c == 0:
        raise Unsupported("symbolic step")
    n = T.sub(e, s)
    if c != 1:
        n = T.idiv(T.add(n, int(c) - 1), st) if c > 0 else T.idiv(T.add(T.sub(s, e), int(-c) - 1), T.neg(st))
    if not it.truth(T.ge(n, 0)):
        n = T.ite(T.lt(n, 0), T.ZERO, n)
    return it.new_arr(Arr((n,), lambda i: T.add(s, T.mul(st, i)), dt_name(dtype, "int64")))


@lib("numpy.linspace")
def np_linspace(it, a, b, num=50, endpoint=True, dtype=None, axis=0, retstep=False):
    if axis != 0 or retstep is not False:
        raise Unsupported("linspace options")
    A, B = it.arr(a), it.arr(b)
    shape = it.broadcast_shapes(A.shape, B.shape)
    ma, mb = it.bidx(A, shape), it.bidx(B, shape)
    n = T.lift(dim_check(it, num))
    if it.truth(T.ge(n, 0)) is not True:
        if not it.branch(T.ge(n, 0)):
            raise PyRaise(EXC["ValueError"], ("Number of samples must be non-negative",))
    if isinstance(endpoint, Term):
        raise Unsupported("linspace endpoint")

    def fn(i, *I):
        x, y = A.at(*ma(I)), B.at(*mb(I))
        if not endpoint:
            return T.add(x, T.mul(T.sub(y, x), i, T.inv(n)))
        one = T.eq(n, 1)
        if one is not FALSE and it.truth(one) is False:
            one = FALSE
        return T.ite(one, x, T.add(x, T.mul(T.sub(y, x), i, T.inv(T.sub(n, 1)))))
    return it.new_arr(Arr((norm_dim(n),) + shape, fn, "float64"))


@lib("numpy.meshgrid")
def np_meshgrid(it, *arrs, indexing="xy", **kw):
    if len(arrs) != 2:
        raise Unsupported("meshgrid of other than two arrays")
    X, Y = it.arr(arrs[0]), it.arr(arrs[1])
    if indexing == "xy":
        sh = (Y.size(), X.size())
        r = [Arr(sh, lambda i, j: X.at(j)), Arr(sh, lambda i, j: Y.at(i))]
    else:
        sh = (X.size(), Y.size())
        r = [Arr(sh, lambda i, j: X.at(i)), Arr(sh, lambda i, j: Y.at(j))]
    return it.alloc(ListC.of([it.new_arr(x) for x in r]))


def seq_arrays(it, seq):
    """Arrays of a list/tuple argument: (list of Arr) or ('sym', n, fn)."""
    if isinstance(seq, tuple):
        return [it.arr(x) for x in seq]
    if isinstance(seq, Ref) and isinstance(it.content(seq), ListC):
        c = it.content(seq)
        if seq.env:
            a = it.list_to_arr(seq)
            return ("sym", a)
        if c.concrete():
            return [it.arr(x) for x in c.items()]
        return ("sym", it.list_to_arr(seq))
    a = it.arr(seq)
    if a.ndim and isinstance(a.shape[0], int):
        return [Arr(a.shape[1:], (lambda k: lambda *I: a.at(k, *I))(k), a.dtype, a.kind) for k in range(a.shape[0])]
    return ("sym", a)


def concat(it, arrs, axis):
    """Concatenate along an axis."""
    if isinstance(arrs, tuple) and arrs[0] == "sym":
        S = arrs[1]  # (K, ...)
        nd = S.ndim - 1
        axis = axis + nd if axis < 0 else axis
        K = S.shape[0]
        inner = S.shape[1:]
        m = inner[axis]
        shape = inner[:axis] + (norm_dim(T.mul(K, m)),) + inner[axis + 1:]

        def fn(*I):
            q, r = T.idivmod(I[axis], T.lift(m))
            return S.at(q, *I[:axis], r, *I[axis + 1:])
        return Arr(shape, fn, S.dtype, "tf" if S.kind == "tf" else "np")
    if not arrs:
        raise PyRaise(EXC["ValueError"], ("need at least one array to concatenate",))
    nd = arrs[0].ndim
    if nd == 0:
        raise PyRaise(EXC["ValueError"], ("zero-dimensional arrays cannot be concatenated",))
    axis = axis + nd if axis < 0 else axis
    if any(a.ndim != nd for a in arrs) or not 0 <= axis < nd:
        raise PyRaise(EXC["ValueError"], ("all the input array dimensions must match",))
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis:
                need_same(it, arrs[0].shape[k], a.shape[k])
    total = T.ZERO
    offs = []
    for a in arrs:
        offs.append(total)
        total = T.add(total, a.shape[axis])

    def fn(*I):
        i = I[axis]
        res = None
        for a, off in reversed(list(zip(arrs, offs))):
            v = None
            if res is None:
                if T.cval(T.lift(a.shape[axis])) == 0:
                    continue
                res = a.at(*I[:axis], T.sub(i, off), *I[axis + 1:])
                continue
            c = T.lt(i, T.add(off, a.shape[axis]))
            if c is FALSE:
                continue
            v = a.at(*I[:axis], T.sub(i, off), *I[axis + 1:])
            res = T.ite(c, v, res)
        return res if res is not None else T.ZERO
    shape = arrs[0].shape[:axis] + (norm_dim(total),) + arrs[0].shape[axis + 1:]
    k = kind_of(*arrs)
    return Arr(shape, fn, promote([a.dtype for a in arrs]) if k == "np" else arrs[0].dtype, k)


@lib("numpy.concatenate")
def np_concatenate(it, seq, axis=0, **kw):
    if axis is None:
        return it.new_arr(concat(it, [it.arr(flatten(it, x)) for x in it.concrete_items(seq)], 0))
    return it.new_arr(concat(it, seq_arrays(it, seq), axis))


@lib("numpy.append")
def np_append(it, a, b, axis=None):
    if axis is None:
        A, B = it.arr(flatten(it, a)), it.arr(flatten(it, b) if it.arr(b).ndim else it.new_arr(Arr((1,), lambda i: it.arr(b).at(), it.arr(b).dtype)))
        return it.new_arr(concat(it, [A, B], 0))
    return it.new_arr(concat(it, [it.arr(a), it.arr(b)], axis))


def row2d(a):
    if a.ndim == 0:
        return Arr((1, 1), lambda i, j: a.at(), a.dtype, a.kind)
    if a.ndim == 1:
        return Arr((1, a.shape[0]), lambda i, j: a.at(j), a.dtype, a.kind)
    return a


@lib("numpy.vstack", "numpy.row_stack")
def np_vstack(it, seq, **kw):
    s = seq_arrays(it, seq)
    if isinstance(s, tuple):
        S = s[1]
        if S.ndim == 2:
            return it.new_arr(S.with_(kind="np"))
        return it.new_arr(concat(it, s, 0))
    return it.new_arr(concat(it, [row2d(a) for a in s], 0))


@lib("numpy.hstack")
def np_hstack(it, seq, **kw):
    s = seq_arrays(it, seq)
    if isinstance(s, tuple):
        return it.new_arr(concat(it, s, 0 if s[1].ndim == 2 else 1))
    s = [Arr((1,), (lambda a: lambda i: a.at())(a), a.dtype, a.kind) if a.ndim == 0 else a for a in s]
    return it.new_arr(concat(it, s, 0 if s[0].ndim == 1 else 1))


@lib("numpy.column_stack")
def np_column_stack(it, seq):
    s = seq_arrays(it, seq)
    if isinstance(s, tuple):
        raise Unsupported("column_stack")
    s = [Arr((a.shape[0], 1), (lambda a: lambda i, j: a.at(i))(a), a.dtype) if a.ndim == 1 else a for a in s]
    return it.new_arr(concat(it, s, 1))


def stack(it, s, axis):
    if isinstance(s, tuple):
        S = s[1]
        axis = axis + S.ndim if axis < 0 else axis
        if axis == 0:
            return S
        perm = list(range(1, S.ndim))
        perm.insert(axis, 0)
        inv = [perm.index(k) for k in range(S.ndim)]
        return Arr(tuple(S.shape[p] for p in perm), lambda *I: S.at(*[I[inv[k]] for k in range(S.ndim)]), S.dtype, S.kind)
    if not s:
        raise PyRaise(EXC["ValueError"], ("need at least one array to stack",))
    nd = s[0].ndim + 1
    axis = axis + nd if axis < 0 else axis
    for a in s[1:]:
        if a.ndim != s[0].ndim:
            raise PyRaise(EXC["ValueError"], ("all input arrays must have the same shape",))
        for d, e in zip(a.shape, s[0].shape):
            need_same(it, d, e)
    ex = [Arr(a.shape[:axis] + (1,) + a.shape[axis:], (lambda a: lambda *I: a.at(*I[:axis], *I[axis + 1:]))(a), a.dtype, a.kind) for a in s]
    return concat(it, ex, axis)


@lib("numpy.stack")
def np_stack(it, seq, axis=0, **kw):
    return it.new_arr(stack(it, seq_arrays(it, seq), axis).with_(kind="np"))


@lib("numpy.expand_dims")
def np_expand_dims(it, o, axis):
    a = it.arr(o)
    axis = axis + a.ndim + 1 if axis < 0 else axis
    s = list(a.shape)
    s.insert(axis, 1)
    return reshape_arr(it, o, a, s)


@lib("numpy.tile")
def np_tile(it, o, reps):
    a = it.arr(o)
    r = shape_arg(it, reps)
    n = max(len(r), a.ndim)
    sh = [1] * (n - a.ndim) + list(a.shape)
    r = [1] * (n - len(r)) + list(r)

    def fn(*I):
        idx = []
        for k in range(n):
            if k >= n - a.ndim:
                idx.append(I[k] if r[k] == 1 and isinstance(r[k], int) else T.imod(I[k], T.lift(sh[k])))
        return a.at(*idx)
    return it.new_arr(Arr(tuple(norm_dim(T.mul(x, y)) for x, y in zip(sh, r)), fn, a.dtype))


@lib("numpy.repeat")
def np_repeat(it, o, n, axis=None):
    a = it.arr(o)
    if axis is None:
        a = it.arr(flatten(it, o))
        axis = 0
    axis = axis + a.ndim if axis < 0 else axis
    if not it.is_num(n):
        raise Unsupported("repeat counts")
    sh = list(a.shape)
    sh[axis] = norm_dim(T.mul(sh[axis], n))
    return it.new_arr(Arr(sh, lambda *I: a.at(*I[:axis], T.idiv(I[axis], T.lift(n)), *I[axis + 1:]), a.dtype))


@lib("numpy.outer")
def np_outer(it, a, b):
    A, B = it.arr(flatten(it, a)), it.arr(flatten(it, b))
    return it.new_arr(Arr((A.shape[0], B.shape[0]), lambda i, j: T.mul(A.at(i), B.at(j)), res_dtype("Mult", A, B)))


@lib("numpy.kron")
def np_kron(it, a, b):
    A, B = it.arr(a), it.arr(b)
    if A.ndim != B.ndim:
        raise Unsupported("kron of different ranks")

    def fn(*I):
        qs, rs = [], []
        for k in range(A.ndim):
            q, r = T.idivmod(I[k], T.lift(B.shape[k]))
            qs.append(q)
            rs.append(r)
        return T.mul(A.at(*qs), B.at(*rs))
    return it.new_arr(Arr(tuple(norm_dim(T.mul(x, y)) for x, y in zip(A.shape, B.shape)), fn, res_dtype("Mult", A, B)))


@lib("numpy.einsum")
def np_einsum(it, spec, *ops, **kw):
    return einsum(it, spec, ops)


def einsum(it, spec, ops):
    if not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum")
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    A = [it.arr(o) for o in ops]
    dims = {}
    for s, a in zip(ins, A):
        if len(s) != a.ndim:
            raise PyRaise(EXC["ValueError"], ("einsum",))
        for c, d in zip(s, a.shape):
            if c in dims:
                need_same(it, dims[c], d)
            else:
                dims[c] = d

    def fn(*I):
        env = dict(zip(out, I))
        vs = []
        for c in dims:
            if c not in env:
                env[c] = T.fresh("r", "I", 0, dims[c])
                vs.append(c)
        t = T.ONE
        for s, a in zip(ins, A):
            t = T.mul(t, a.at(*[env[c] for c in s]))
        for c in vs:
            t = T.sumr(env[c], dims[c], t)
        return t
    dt = A[0].dtype
    for a in A[1:]:
        dt = res_dtype("Mult", Arr((), lambda: T.ZERO, dt), a)
    return finish(it, Arr(tuple(dims[c] for c in out), fn, dt, kind_of(*A)))


LIB["tensorflow.einsum"] = LibFn("tensorflow.einsum", lambda it, spec, *ops, **k: einsum(it, spec, [to_tensor(it, o) for o in ops]))


@lib("numpy.prod")
def np_prod(it, o, axis=None):
    a = it.arr(o)
    if a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 24:
        r = T.ONE
        for i in range(a.shape[0]):
            r = T.mul(r, a.at(i))
        return it.unscalar(r)
    raise Unsupported("prod")


@lib("numpy.identity", "numpy.eye")
def np_identity(it, n, M=None, dtype=None, **kw):
    return it.new_arr(Arr((n, n if M is None else M), lambda i, j: T.ite(T.eq(i, j), T.ONE, T.ZERO), "float64"))


@lib("numpy.diag")
def np_diag(it, o):
    a = it.arr(o)
    if a.ndim == 1:
        return it.new_arr(Arr((a.shape[0], a.shape[0]), lambda i, j: T.ite(T.eq(i, j), a.at(i), T.ZERO), a.dtype))
    return it.new_arr(Arr((a.shape[0],), lambda i: a.at(i, i), a.dtype))


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = T.ZERO
    for j in range(n):
        if M[0][j] is T.ZERO:
            continue
        minor = [[row[k] for k in range(n) if k != j] for row in M[1:]]
        r = T.add(r, T.scale(-1 if j % 2 else 1, T.mul(M[0][j], det(minor))))
    return r


def matrix(it, o):
    a = it.arr(o)
    if a.ndim != 2 or not all(isinstance(d, int) for d in a.shape) or a.shape[0] != a.shape[1] or a.shape[0] > 4:
        raise Unsupported("linear algebra on symbolic sizes")
    n = a.shape[0]
    return [[a.at(i, j) for j in range(n)] for i in range(n)]


@lib("numpy.linalg.det")
def np_det(it, o):
    return det(matrix(it, o))


@lib("numpy.linalg.solve")
def np_solve(it, A, b):
    M = matrix(it, A)
    n = len(M)
    d = det(M)
    if d is T.ZERO or it.truth(T.eq(d, 0)) is True:
        raise PyRaise(EXC["LinAlgError"], ("Singular matrix",))
    B = it.arr(b)
    need_same(it, B.shape[0], n)
    cof = {}

    def inv(i, j):
        # (A^-1)[i][j] = cof(j,i)/det
        if (i, j) not in cof:
            minor = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            cof[i, j] = T.scale(-1 if (i + j) % 2 else 1, T.div(det(minor) if minor else T.ONE, d))
        return cof[i, j]

    def fn(i, *J):
        ci = T.cval(i)
        if ci is not None:
            return T.add(*[T.mul(inv(int(ci), k), B.at(k, *J)) for k in range(n)])
        res = None
        for q in range(n - 1, -1, -1):
            v = T.add(*[T.mul(inv(q, k), B.at(k, *J)) for k in range(n)])
            res = v if res is None else T.ite(T.eq(i, q), v, res)
        return res
    if it.truth(T.ne(d, 0)) is not True and not power_of_nonzero(it, d):
        it.assumed.append("numpy.linalg.solve: the matrix is non-singular")
    return it.new_arr(Arr(B.shape, fn, "float64"))


def power_of_nonzero(it, d):
    """d = c*p^k for a polynomial p that the path condition (or a stated precondition) makes non-zero: then d is non-zero."""
    known = [x.args[0] for x in it.pc if x.op == "not" and x.args[0].op == "eq"]
    cands = [T.sub(e.args[0], e.args[1]) for e in known if e.args[0].sort != "B"] + [p for f in it.nonzero for p in f(d)]
    m0, c0 = next(iter(T.polyd(d).items()), (None, None))
    for p in cands:
        q = p
        for k in range(1, 5):
            c = T.polyd(q).get(m0)
            if c and T.sub(d, T.scale(c0 / c, q)) is T.ZERO:
                return True
            if k < 4 and len(T.polyd(q)) < 400:
                q = T.mul(q, p)
            else:
                break
    return False


@lib("numpy.linalg.inv")
def np_inv(it, A):
    n = len(matrix(it, A))
    return np_solve(it, A, np_identity(it, n))


@lib("numpy.linalg.norm")
def np_norm(it, o, ord=None, axis=None):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    a = it.arr(o)
    if a.ndim > 1 and axis is None and ord is not None:
        raise Unsupported("matrix norm")
    sq = Arr(a.shape, lambda *I: T.mul(a.at(*I), a.at(*I)), a.dtype, a.kind)
    r, n = reduce_axes(it, sq, axis, "sum")
    return finish(it, Arr(r.shape, lambda *I: T.sqrt(r.at(*I)), r.dtype, r.kind))


@lib("numpy.where")
def np_where(it, c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    C, A, B = it.arr(c), it.arr(a), it.arr(b)
    shape = it.broadcast_shapes(it.broadcast_shapes(A.shape, B.shape), C.shape)
    ma, mb, mc = it.bidx(A, shape), it.bidx(B, shape), it.bidx(C, shape)
    return finish(it, Arr(shape, lambda *I: T.ite(tobool(C.at(*mc(I))), A.at(*ma(I)), B.at(*mb(I))), res_dtype("Add", A, B), kind_of(A, B)))


@lib("numpy.argsort")
def np_argsort(it, o, axis=-1, kind=None, **kw):
    a = it.arr(o)
    if a.ndim == 2 and axis in (1, -1) and isinstance(a.shape[1], int):
        n = a.shape[1]
        return it.new_arr(Arr(a.shape, lambda i, j: argsort_term(it, [a.at(i, k) for k in range(n)], j), "int64"))
    if a.ndim == 1 and not (isinstance(a.shape[0], int) and a.shape[0] <= 8):
        n, body = T.lift(a.shape[0]), a.at(SORTED_AT)
        return it.new_arr(Arr(a.shape, lambda j: T.rawapp("argsortN", (j, n, body), "I"), "int64"))
    if a.ndim != 1:
        raise Unsupported("argsort of symbolic length")
    n = a.shape[0]
    vals = [a.at(i) for i in range(n)]
    return it.new_arr(Arr((n,), lambda j: argsort_term(it, vals, j), "int64"))


SORTED_AT = T.var("at#sorted", "I")
smt.AXIOMS["argsortN"] = lambda apps: [x for t in apps for x in (T.ge(t, 0), T.lt(t, t.args[2]))]


@lib("numpy.sort")
def np_sort(it, o, axis=-1, **kw):
    a = it.arr(o)
    if a.ndim != 1:
        raise Unsupported("sort")
    p = it.arr(np_argsort(it, o))
    return it.new_arr(Arr(a.shape, lambda j: a.at(p.at(j)), a.dtype, "np"))


@lib("numpy.take_along_axis")
def np_take_along_axis(it, o, indices, axis):
    a, i = it.arr(o), it.arr(indices)
    axis = axis + a.ndim if axis < 0 else axis
    if i.ndim != a.ndim:
        raise PyRaise(EXC["ValueError"], ("`indices` and `arr` must have the same number of dimensions",))
    shape, src, idx = [], [], []
    for d in range(a.ndim):
        if d == axis:
            shape.append(i.shape[d])
            continue
        one_a, one_i = a.shape[d] == 1, i.shape[d] == 1
        if not one_a and not one_i and not it.same_dim(a.shape[d], i.shape[d]):
            raise Unsupported("shapes of take_along_axis")
        shape.append(i.shape[d] if one_a else a.shape[d])
        if one_i and not one_a:
            idx.append(d)
        if one_a and not one_i:
            src.append(d)

    def fn(*I):
        j = i.at(*[T.ZERO if d in idx else x for d, x in enumerate(I)])
        if it.truth(T.ge(j, 0)) is not True:
            j = T.ite(T.lt(j, 0), T.add(j, T.lift(a.shape[axis])), j)
        return a.at(*[j if d == axis else T.ZERO if d in src else x for d, x in enumerate(I)])
    if i.ndim and index_bounds(it, i, a.shape[axis]) is not True:
        raise Unsupported("index range of take_along_axis")
    return it.new_arr(Arr(tuple(shape), fn, a.dtype, "np"))


def index_bounds(it, i, n):
    vs = [T.fresh("i", "I", 0, d) for d in i.shape]
    j = i.at(*vs)
    return it.truth(T.and_(T.ge(j, T.mul(-1, T.lift(n))), T.lt(j, T.lift(n))))


_sort_memo = {}


def argsort_term(it, vals, j):
    """Position of the j-th smallest of a fixed number of values."""
    n = len(vals)
    key = (tuple(vals), tuple(it.pc))
    order = _sort_memo.get(key)
    if order is None:
        order = list(range(n))
        known = True
        for a in range(n):
            for b in range(a + 1, n):
                if it.truth(T.lt(vals[a], vals[b])) is None:
                    known = False
                    break
            if not known:
                break
        if known:
            import functools
            order.sort(key=functools.cmp_to_key(lambda x, y: -1 if it.truth(T.lt(vals[x], vals[y])) else 1))
        else:
            order = False
        _sort_memo[key] = order
    c = T.cval(j)
    if order is not False:
        if c is not None:
            return T.const(order[int(c)])
        r = T.const(order[n - 1])
        for k in range(n - 2, -1, -1):
            r = T.ite(T.eq(j, k), T.const(order[k]), r)
        return r
    return T.rawapp(f"argsort{n}", (j,) + tuple(vals), "I")


for _k in range(1, 9):
    T.APP_BOUNDS[f"argsort{_k}"] = (lambda k: lambda a: (Fraction(0), Fraction(k - 1)))(_k)


def index_in_range(it, ar, n):
    return None


def mask_getitem(it, o, a, idx):
    raise Unsupported("boolean mask indexing")


@lib("numpy.shape")
def np_shape(it, o):
    return tuple(it.arr(o).shape)


@lib("numpy.size")
def np_size(it, o):
    return it.arr(o).size()


@lib("numpy.ndim")
def np_ndim(it, o):
    return it.arr(o).ndim


@lib("numpy.isscalar")
def np_isscalar(it, o):
    return it.is_num(o)


@lib("numpy.broadcast_to")
def np_broadcast_to(it, o, shape):
    a = it.arr(o)
    return it.new_arr(it.broadcast_to(a, tuple(shape_arg(it, shape))))


@lib("numpy.array_equal")
def np_array_equal(it, a, b, **kw):
    A, B = it.arr(a), it.arr(b)
    if A.ndim != B.ndim:
        return False
    vs = [T.fresh("r", "I", 0, d) for d in A.shape]
    t = T.eq(A.at(*vs), B.at(*vs))
    for v, d in reversed(list(zip(vs, A.shape))):
        t = T.red("all", v, d, t)
    sh = T.and_(*[T.eq(T.lift(x), T.lift(y)) for x, y in zip(A.shape, B.shape)])
    return it.unbool(T.and_(sh, t))


@lib("numpy.isnan", "numpy.isinf")
def np_isnan(it, o):
    return map1(it, o, lambda t: FALSE, "bool")


@lib("numpy.isfinite")
def np_isfinite(it, o):
    return map1(it, o, lambda t: TRUE, "bool")


@lib("numpy.unique")
def np_unique(it, o, axis=None, **kw):
    a = it.arr(o)
    if axis == 0 and a.ndim == 2:
        return unique_rows(it, a)
    n = T.fresh("nuniq", "I", 0)
    nm = f"uniq{next(T._cnt)}"
    return it.new_arr(it.fresh_arr(nm, (n,), a.dtype))


def unique_rows(it, a):
    """Contract of np.unique(axis=0): same set of rows, no duplicates (assumed)."""
    nm = f"uniqrows{next(T._cnt)}"
    n = T.fresh("nuniq", "I", 0)
    r = it.fresh_arr(nm, (n, a.shape[1]), a.dtype)
    r.tag = ("unique_rows", a)
    return it.new_arr(r)


@lib("numpy.random.randint")
def np_randint(it, low, high=None, size=None, **kw):
    if high is None:
        low, high = 0, low
    shape = tuple(shape_arg(it, size)) if size is not None else ()
    nm = f"randint{next(T._cnt)}"
    lo, hi = T.lift(low), T.lift(high)
    T.APP_BOUNDS[nm] = lambda a: (T._bound_sign(lo)[0], None)
    smt.AXIOMS[nm] = lambda apps: [x for t in apps for x in (T.ge(t, lo), T.lt(t, hi))]
    return it.result_arr(it.fresh_arr(nm, shape, "int64"))


@lib("numpy.random.rand", "numpy.random.random", "numpy.random.uniform", "numpy.random.normal", "numpy.random.randn", "numpy.random.choice", "numpy.random.permutation")
def np_rand(it, *a, **kw):
    raise Unsupported("random sampling without a contract")


LIB["numpy.random.seed"] = LibFn("numpy.random.seed", lambda it, *a, **k: None)
LIB["random.seed"] = LIB["numpy.random.seed"]
LIB["tensorflow.random.set_seed"] = LIB["numpy.random.seed"]
LIB["numpy.set_printoptions"] = LIB["numpy.random.seed"]


@lib("pyDOE.lhs", "pyDOE2.lhs")
def lhs(it, n, samples=None, criterion=None, **kw):
    """Latin hypercube sample: array (samples, n) (samples = n by default) with entries in [0, 1]."""
    s = n if samples is None else samples
    nm = f"lhs{next(T._cnt)}"
    smt.AXIOMS[nm] = lambda apps: [x for t in apps for x in (T.ge(t, 0), T.le(t, 1))]
    T.NONNEG.add(nm)
    ctx = tuple(it.loopvars)
    return it.new_arr(Arr((dim_check(it, s), dim_check(it, n)), lambda *I: T.rawapp(nm, ctx + tuple(T.lift(i) for i in I), "R"), "float64"))


@lib("numpy.polynomial.legendre.leggauss")
def leggauss(it, n):
    """Gauss-Legendre rule with n points (nodes in (-1,1), positive weights, exactness 2n-1)."""
    if not isinstance(n, Term):
        n = T.lift(n)
    x = Arr((n,), lambda i: T.app("GLx", (n, i), "R"))
    w = Arr((n,), lambda i: T.app("GLw", (n, i), "R"))
    return (it.new_arr(x), it.new_arr(w))


@lib("scipy.special.roots_legendre", "scipy.special.orthogonal.p_roots", "scipy.special.p_roots")
def roots_legendre(it, n, mu=False):
    return leggauss(it, n)


@lib("scipy.special.roots_jacobi", "scipy.special.j_roots")
def roots_jacobi(it, n, a, b, mu=False):
    n, a, b = T.lift(n), T.lift(a), T.lift(b)
    if a is T.ZERO and b is T.ZERO:
        return leggauss(it, n)
    x = Arr((n,), lambda i: T.app("GJx", (n, a, b, i), "R"))
    w = Arr((n,), lambda i: T.app("GJw", (n, a, b, i), "R"))
    return (it.new_arr(x), it.new_arr(w))


# ---------------------------------------------------------------- polynomials (scipy.special)
def jac_apply(n, a, b, k, x):
    """k-th derivative at x of the Jacobi polynomial P_n^(a,b)."""
    if k == 0:
        return T.app("P", (n, a, b, x), "R")
    # d/dx P_n^(a,b) = (n+a+b+1)/2 P_{n-1}^(a+1,b+1), 0 for n <= 0
    c = T.scale(Fraction(1, 2), T.add(n, a, b, 1))
    d = T.mul(c, jac_apply(T.sub(n, 1), T.add(a, 1), T.add(b, 1), k - 1, x))
    pos = T.ge(n, 1)
    return T.ite(pos, d, T.ZERO)


def _s_P(args):
    n, a, b, x = args
    if n is T.ZERO:
        return T.ONE
    c = T.cval(x)
    if n is T.ONE:
        return T.add(T.add(a, 1), T.scale(Fraction(1, 2), T.mul(T.add(a, b, 2), T.sub(x, 1))))
    if a is T.ZERO and b is T.ZERO and c == 1:
        return T.ONE
    if a is b and c == -1:
        return T.mul(T.app("sgn", (n,), "I"), T.app("P", (n, a, a, T.ONE), "R"))
    cn = T.cval(n)
    if cn is not None and 2 <= cn <= 4 and T.cval(a) is not None and T.cval(b) is not None:
        return jac_poly(int(cn), T.cval(a), T.cval(b), x)
    return None


def jac_poly(n, a, b, x):
    """Explicit polynomial by the three-term recurrence (small constant degrees)."""
    p0, p1 = T.ONE, T.add(a + 1, T.scale((a + b + 2) / 2, T.sub(x, 1)))
    if n == 0:
        return p0
    for k in range(2, n + 1):
        k = Fraction(k)
        c1 = 2 * k * (k + a + b) * (2 * k + a + b - 2)
        c2 = (2 * k + a + b - 1) * (a * a - b * b)
        c3 = (2 * k + a + b - 2) * (2 * k + a + b - 1) * (2 * k + a + b)
        c4 = 2 * (k + a - 1) * (k + b - 1) * (2 * k + a + b)
        if c1 == 0:
            return None
        p0, p1 = p1, T.scale(1 / c1, T.sub(T.mul(T.add(c2, T.scale(c3, x)), p1), T.scale(c4, p0)))
    return p1


T.SMART["P"] = _s_P


def ax_P(apps):
    """P_n^(a,a)(1) > 0 for a > -1 (used for the normalisation constants)."""
    out = []
    for t in apps:
        _, n, a, b, x = t.args
        if x is T.ONE and T.cval(a) is not None and T.cval(a) > -1:
            out.append(T.implies(T.ge(n, 0), T.gt(t, 0)))
    return out


smt.AXIOMS["P"] = ax_P


class PolyV:
    """A polynomial object: Jacobi polynomial (n, a, b), differentiated k times, or its coefficients."""

    def __init__(self, n, a, b, k=0):
        self.n, self.a, self.b, self.k = n, a, b, k


def poly_obj(it, n, a, b, k=0):
    n, a, b = T.lift(n), T.lift(a), T.lift(b)
    if n.sort != "I":
        c = T.cval(n)
        if c is None or c.denominator != 1:
            raise Unsupported("non-integer degree")
    if it.truth(T.ge(n, 0)) is not True:
        if not it.branch(T.ge(n, 0)):
            raise PyRaise(EXC["ValueError"], ("n must be nonnegative.",))

    def call(it, x):
        return map1f(it, x, lambda t: jac_apply(n, a, b, k, t))
    s = SymCallable("poly", call)

    def deriv(it, m=1):
        return poly_obj(it, n, a, b, k + int(m))
    s.attrs = {"deriv": LibFn("", deriv), "order": T.sub(n, k)}
    s.poly = (n, a, b, k)
    s.subst = lambda m: poly_obj(it, T.subst(n, m), T.subst(a, m), T.subst(b, m), k)
    return s


def map1f(it, v, f):
    a = it.arr(v)
    if a.ndim == 0 and a.kind != "tf":
        return it.unscalar(f(a.at()))
    return finish(it, Arr(a.shape, lambda *I: f(a.at(*I)), "float64", "tf" if a.kind == "tf" else "np"))


LIB["scipy.special.jacobi"] = LibFn("scipy.special.jacobi", lambda it, n, a, b, monic=False: poly_obj(it, n, a, b))
LIB["scipy.special.legendre"] = LibFn("scipy.special.legendre", lambda it, n, monic=False: poly_obj(it, n, 0, 0))


def evald(f):
    def g(it, *args):
        *par, x = args
        A = [it.arr(p) for p in par]
        X = it.arr(x)
        shape = X.shape
        for a in A:
            shape = it.broadcast_shapes(shape, a.shape)
        ms = [it.bidx(a, shape) for a in A]
        mx = it.bidx(X, shape)
        return finish(it, Arr(shape, lambda *I: f(*[a.at(*m(I)) for a, m in zip(A, ms)], X.at(*mx(I))), "float64"))
    return g


LIB["scipy.special.eval_jacobi"] = LibFn("scipy.special.eval_jacobi", evald(lambda n, a, b, x: T.app("P", (n, a, b, x), "R")))
LIB["scipy.special.eval_legendre"] = LibFn("scipy.special.eval_legendre", evald(lambda n, x: T.app("P", (n, T.ZERO, T.ZERO, x), "R")))


# ---------------------------------------------------------------- misc modules
@lib("copy.deepcopy")
def deepcopy(it, v, memo=None):
    mem = {}

    def go(x):
        if isinstance(x, Ref):
            if x in mem:
                return mem[x]
            c = it.content(x)
            if isinstance(c, ArrC):
                r = it.alloc(ArrC(it.read_arr(x)))
                mem[x] = r
                return r
            if x.env:
                raise Unsupported("deepcopy of a family object")
            if isinstance(c, ListC):
                r = it.alloc(ListC())
                mem[x] = r
                it.heap[r.oid] = ListC([Seg(value=go(s.value)) if s.single else Seg(s.length, (lambda f: lambda i: go(f(i)))(s.fn)) for s in c.segs])
                return r
            if isinstance(c, DictC):
                r = it.alloc(DictC())
                mem[x] = r
                it.heap[r.oid] = DictC({k: go(y) for k, y in c.d.items()})
                return r
            raise Unsupported("deepcopy of an object")
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, Arr):
            return x.with_()
        return x
    return go(v)


@lib("copy.copy")
def copycopy(it, v):
    if isinstance(v, Ref):
        c = it.content(v)
        if isinstance(c, ArrC):
            return it.alloc(ArrC(it.read_arr(v)))
        if isinstance(c, ListC) and not v.env:
            return it.alloc(ListC(c.segs))
        if isinstance(c, DictC) and not v.env:
            return it.alloc(DictC(c.d))
        raise Unsupported("copy of an object")
    return v


LIB["time.time"] = LibFn("time.time", lambda it: T.fresh("time", "R"))
LIB["time.perf_counter"] = LIB["time.time"]
LIB["os.path.exists"] = LibFn("os.path.exists", lambda it, p: T.rawapp("exists", (opaque_term(p),), "B"))
LIB["os.makedirs"] = LibFn("os.makedirs", lambda it, *a, **k: None)
LIB["os.path.join"] = LibFn("os.path.join", lambda it, *a: mk_path(tuple(x for i, p in enumerate(a) for x in ((("/",) if i else ()) + str_parts(p)))))
LIB["pathlib.Path"] = LibFn("pathlib.Path", lambda it, *a: mk_path(tuple(x for i, p in enumerate(a) for x in ((("/",) if i else ()) + str_parts(p)))))
LIB["pathlib.PurePath"] = LIB["pathlib.Path"]
LIB["os.path.splitext"] = LibFn("os.path.splitext", lambda it, p: (Opaque("fstring", {"parts": ("root(",) + str_parts(p) + (")",)}), opaque_attr(it, mk_path(str_parts(p)), "suffix")))
LIB["math.pow"] = LibFn("math.pow", lambda it, a, b: it.scalar_op("Pow", Fraction(a) if isinstance(a, int) else a, b))
LIB["math.isqrt"] = LibFn("math.isqrt", lambda it, n: LIB_int(it, map1f(it, n, T.sqrt)))
LIB["abc.ABC"] = LibFn("abc.ABC", lambda it: None)
VALUES["abc.ABC"] = ExcCls("ABC")
LIB.pop("abc.ABC")
LIB["abc.abstractmethod"] = LibFn("abc.abstractmethod", lambda it, f: f)
LIB["functools.wraps"] = LibFn("functools.wraps", lambda it, f: LibFn("", lambda it, g: g))
LIB["functools.reduce"] = LibFn("functools.reduce", lambda it, f, seq, *init: _reduce(it, f, seq, init))
LIB["collections.OrderedDict"] = LibFn("collections.OrderedDict", lambda it, *a, **k: LIB_dict(it, *a, **k))
LIB["collections.defaultdict"] = LibFn("collections.defaultdict", lambda it, *a, **k: (_ for _ in ()).throw(Unsupported("defaultdict")))
for _n in ("List", "Dict", "Tuple", "Optional", "Union", "Any", "Callable", "Sequence"):
    VALUES["typing." + _n] = Opaque("typing." + _n, {"__getitem__": LibFn("", lambda it, i: Opaque("typing"))})


def _reduce(it, f, seq, init):
    items = it.concrete_items(seq)
    if init:
        acc = init[0]
    else:
        acc, items = items[0], items[1:]
    for x in items:
        acc = it.call(f, [acc, x], {})
    return acc


def product_seq(it, *seqs):
    from . import loops
    ss = [loops.as_sequence(it, s) for s in seqs]
    if all(isinstance(s, list) for s in ss):
        import itertools
        return it.alloc(ListC.of(list(itertools.product(*ss))))
    ss = [SymSeq(len(s), (lambda s: lambda i: pick_concrete(it, s, i))(s)) if isinstance(s, list) else s for s in ss]
    dims = tuple(s.n for s in ss)
    return SymSeq(norm_dim(prod(dims)), lambda k: tuple(s.fn(i) for s, i in zip(ss, unflat(T.lift(k), dims))))


def pick_concrete(it, items, i):
    c = T.cval(T.lift(i))
    if c is not None:
        return items[int(c)]
    if all(it.is_num(x) for x in items):
        r = T.lift(items[-1])
        for k in range(len(items) - 2, -1, -1):
            r = T.ite(T.eq(T.lift(i), k), T.lift(items[k]), r)
        return r
    for k in range(len(items) - 1):
        if it.branch(T.eq(T.lift(i), k)):
            return items[k]
    return items[-1]


LIB["itertools.product"] = LibFn("itertools.product", product_seq)
LIB["itertools.chain"] = LibFn("itertools.chain", lambda it, *s: it.alloc(ListC.of([x for q in s for x in it.concrete_items(q)])))


# ---------------------------------------------------------------- builtins
def LIB_len(it, o):
    if isinstance(o, (tuple, str, range)):
        return len(o)
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, ListC):
            n = c.length()
            return it.subst_value(n, dict(o.env)) if o.env and isinstance(n, Term) else n
        if isinstance(c, DictC):
            return len(c.d)
        if isinstance(c, SymDictC):
            return c.n
        if isinstance(c, InstC):
            f = c.attrs.get("__len__")
            if f is not None:
                return it.call(f, [], {})
            if isinstance(c.cls, Cls) and c.cls.lookup("__len__"):
                return it.call(BoundMethod(c.cls.lookup("__len__"), o), [], {})
    a = it.as_arr_or_none(o)
    if a is not None:
        if a.ndim == 0:
            raise PyRaise(EXC["TypeError"], ("len() of unsized object",))
        return a.shape[0]
    if isinstance(o, SymSeq):
        return o.n
    if o is None:
        raise PyRaise(EXC["TypeError"], ("no len()",))
    if isinstance(o, Opaque) and "len" in o.attrs:
        return o.attrs["len"]
    raise Unsupported(f"len of {o!r}")


builtin("len")(LIB_len)


@builtin("range")
def b_range(it, *args):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args
    vals = []
    for v in (lo, hi, st):
        if isinstance(v, Arr) or isinstance(v, Ref):
            v = it.arr(v).at()
        if isinstance(v, Fraction):
            raise PyRaise(EXC["TypeError"], ("'float' object cannot be interpreted as an integer",))
        if isinstance(v, Term):
            c = T.cval(v)
            if v.sort != "I":
                raise PyRaise(EXC["TypeError"], ("'float' object cannot be interpreted as an integer",))
            if c is not None:
                v = int(c)
        vals.append(v)
    lo, hi, st = vals
    if all(isinstance(v, int) for v in vals):
        return range(lo, hi, st)
    if isinstance(st, Term):
        n = T.idiv(T.add(T.sub(hi, lo), T.sub(st, 1)), st)
    elif st == 1:
        n = T.sub(hi, lo)
    elif st > 1:
        n = T.idiv(T.add(T.sub(hi, lo), st - 1), T.const(st))
    elif st == -1:
        n = T.sub(lo, hi)
    else:
        raise Unsupported("range step")
    if it.truth(T.ge(n, 0)) is not True:
        if it.truth(T.lt(n, 0)) is True:
            return range(0)
        n = T.ite(T.lt(n, 0), T.ZERO, n)
    return SymSeq(n, lambda k: T.add(lo, T.mul(st, k)))


def LIB_int(it, v=0, *a):
    if isinstance(v, str):
        return int(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if v is None or isinstance(v, tuple):
        raise PyRaise(EXC["TypeError"], ("int() argument",))
    if isinstance(v, Opaque) or isinstance(v, Inert):
        raise Unsupported("int of opaque")
    a = it.arr(v)
    t = to_int_term(a.at(*[0] * a.ndim))
    c = T.cval(t)
    return int(c) if c is not None else t


builtin("int")(LIB_int)


@builtin("float")
def b_float(it, v=0):
    if isinstance(v, str):
        return Fraction(v)
    if isinstance(v, (int, Fraction, bool)):
        return Fraction(v)
    if isinstance(v, Inert):
        return v
    a = it.arr(v)
    t = real(a.at(*[0] * a.ndim))
    return t


@builtin("bool")
def b_bool(it, v=False):
    return it.to_bool(v)


@builtin("abs")
def b_abs(it, v):
    if isinstance(v, (int, Fraction)):
        return abs(v)
    return map1(it, v, T.absv)


@builtin("pow")
def b_pow(it, a, b):
    return it.binop("Pow", a, b)


@builtin("round")
def b_round(it, v, n=None):
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return round(v) if n is None else round(v, n)
    if isinstance(v, Term) and v.sort == "I":
        return v
    n = 0 if n is None else n if isinstance(n, int) else T.cval(T.lift(n))
    if n is None:
        raise Unsupported("rounding to a symbolic number of decimals")
    return LIB["numpy.round"].fn(it, v, int(n))


def minmax(f, name):
    def g(it, *args, **kw):
        if "key" in kw:
            raise Unsupported("min/max key")
        items = args
        if len(args) == 1:
            a = it.as_arr_or_none(args[0]) if not (isinstance(args[0], Ref) and isinstance(it.content(args[0]), ListC) and it.content(args[0]).concrete()) else None
            if a is not None and not (isinstance(a.shape[0], int) and a.shape[0] <= 24):
                return (np_max if name == "max" else np_min)(it, args[0])
            items = it.concrete_items(args[0])
        if not items:
            raise PyRaise(EXC["ValueError"], ("empty sequence",))
        if all(isinstance(x, (int, Fraction)) for x in items):
            return (max if name == "max" else min)(items)
        r = it.numlift(items[0]) if it.is_num(items[0]) else it.arr(items[0]).at()
        for x in items[1:]:
            x = it.numlift(x) if it.is_num(x) else it.arr(x).at()
            r = f(r, x)
        return r
    return g


BUILTINS["min"] = LibFn("", minmax(tmin, "min"))
BUILTINS["max"] = LibFn("", minmax(tmax, "max"))


@builtin("sum")
def b_sum(it, seq, start=0):
    from . import loops
    s = loops.as_sequence(it, seq)
    if isinstance(s, list):
        acc = start
        for x in s:
            acc = it.binop("Add", acc, x)
        return acc
    v = T.fresh("r", "I", 0, s.n)
    x = s.fn(v)
    a = it.arr(x)
    if a.ndim == 0 and a.kind != "tf":
        return it.binop("Add", start, T.sumr(v, s.n, real(a.at())))
    r = Arr(a.shape, lambda *I: T.sumr(v, s.n, real(a.at(*I))), a.dtype, a.kind)
    return it.binop("Add", start, r if r.kind == "tf" else it.new_arr(r))


@builtin("zip")
def b_zip(it, *seqs):
    from . import loops
    ss = [loops.as_sequence(it, s) for s in seqs]
    if all(isinstance(s, list) for s in ss):
        return it.alloc(ListC.of(list(zip(*ss))))
    ns = [len(s) if isinstance(s, list) else s.n for s in ss]
    n = ns[0]
    for m in ns[1:]:
        if it.same_dim(n, m):
            continue
        n = norm_dim(tmin(T.lift(n), T.lift(m)))
    ss = [SymSeq(len(s), (lambda s: lambda i: pick_concrete(it, s, i))(s)) if isinstance(s, list) else s for s in ss]
    return SymSeq(n, lambda k: tuple(s.fn(k) for s in ss))


@builtin("enumerate")
def b_enumerate(it, seq, start=0):
    from . import loops
    s = loops.as_sequence(it, seq)
    if isinstance(s, list):
        return it.alloc(ListC.of([(i + start, x) for i, x in enumerate(s)]))
    return SymSeq(s.n, lambda k: (T.add(k, start), s.fn(k)))


@builtin("reversed")
def b_reversed(it, seq):
    from . import loops
    s = loops.as_sequence(it, seq)
    if isinstance(s, list):
        return it.alloc(ListC.of(list(reversed(s))))
    return SymSeq(s.n, lambda k: s.fn(T.sub(T.sub(s.n, 1), k)))


def LIB_sorted(it, seq, key=None, reverse=False):
    items = it.concrete_items(seq)
    if key is not None:
        raise Unsupported("sorted with a key")
    if all(isinstance(x, (int, Fraction)) for x in items) or all(isinstance(x, str) for x in items):
        return it.alloc(ListC.of(sorted(items, reverse=bool(reverse))))
    raise Unsupported("sorted of symbolic values")


builtin("sorted")(LIB_sorted)


@builtin("list")
def b_list(it, seq=()):
    from . import loops
    s = loops.as_sequence(it, seq)
    if isinstance(s, list):
        return it.alloc(ListC.of(s))
    return it.alloc(ListC([Seg(s.n, s.fn)]))


@builtin("tuple")
def b_tuple(it, seq=()):
    return tuple(it.concrete_items(seq))


@builtin("set")
def b_set(it, seq=()):
    items = it.concrete_items(seq)
    if all(isinstance(x, (int, str)) for x in items):
        return it.alloc(ListC.of(list(dict.fromkeys(items))))
    raise Unsupported("set of symbolic values")


def LIB_dict(it, seq=None, **kw):
    d = {}
    if seq is not None:
        c = it.content(seq) if isinstance(seq, Ref) else None
        if isinstance(c, DictC):
            d.update(c.d)
        elif isinstance(c, SymDictC):
            return it.alloc(SymDictC(c.n, c.keyfn, c.valfn, c.name))
        else:
            for k, v in it.concrete_items(seq):
                d[it.key(k)] = v
    d.update(kw)
    return it.alloc(DictC(d))


builtin("dict")(LIB_dict)


@builtin("str")
def b_str(it, v=""):
    if isinstance(v, str):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    if isinstance(v, Opaque) and "parts" in v.attrs:
        return mk_str(v.attrs["parts"])
    if isinstance(v, Term):
        if v.sort == "U":
            return v
        return Opaque("fstring", {"parts": (v,)})
    return Opaque("str", {"of": v})


BUILTINS["repr"] = LibFn("", lambda it, v: it.text(it.text_of(v, plain=False)))
BUILTINS["format"] = LibFn("", lambda it, v, spec="": it.text(it.text_of(v, spec)))
BUILTINS["print"] = LibFn("", lambda it, *a, **k: None)
BUILTINS["id"] = LibFn("", lambda it, v: (_ for _ in ()).throw(Unsupported("id()")))


@builtin("any")
def b_any(it, seq):
    from . import loops
    s = loops.as_sequence(it, seq)
    if isinstance(s, list):
        return it.unbool(T.or_(*[T.lift(it.to_bool(x)) for x in s]))
    v = T.fresh("r", "I", 0, s.n)
    return it.unbool(T.red("any", v, s.n, T.lift(it.to_bool(s.fn(v)))))


@builtin("all")
def b_all(it, seq):
    from . import loops
    s = loops.as_sequence(it, seq)
    if isinstance(s, list):
        return it.unbool(T.and_(*[T.lift(it.to_bool(x)) for x in s]))
    v = T.fresh("r", "I", 0, s.n)
    return it.unbool(T.red("all", v, s.n, T.lift(it.to_bool(s.fn(v)))))


@builtin("map")
def b_map(it, f, *seqs):
    from . import loops
    ss = [loops.as_sequence(it, s) for s in seqs]
    if all(isinstance(s, list) for s in ss):
        return it.alloc(ListC.of([it.call(f, list(x), {}) for x in zip(*ss)]))
    if len(ss) == 1:
        return loops.sym_map(it, ss[0], lambda x: it.call(f, [x], {}))
    raise Unsupported("map over several symbolic sequences")


@builtin("filter")
def b_filter(it, f, seq):
    raise Unsupported("filter")


@builtin("callable")
def b_callable(it, v):
    return isinstance(v, (Func, BoundMethod, LibFn, Cls, SymCallable, ExcCls, DTypeV)) or isinstance(v, Ref) and isinstance(it.content(v), InstC) and isinstance(it.content(v).cls, Cls) and it.content(v).cls.lookup("__call__") is not None


@builtin("hasattr")
def b_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyRaise as e:
        if e.cls.name == "AttributeError":
            return False
        raise


@builtin("getattr")
def b_getattr(it, o, name, *default):
    try:
        return it.getattr(o, name)
    except PyRaise as e:
        if e.cls.name == "AttributeError" and default:
            return default[0]
        raise


@builtin("setattr")
def b_setattr(it, o, name, v):
    it.setattr(o, name, v)


@builtin("type")
def b_type(it, o, *a):
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, InstC):
            return c.cls
        if isinstance(c, ArrC):
            return VALUES["numpy.ndarray"]
        if isinstance(c, ListC):
            return BUILTINS["list"]
        if isinstance(c, (DictC, SymDictC)):
            return BUILTINS["dict"]
    if isinstance(o, bool):
        return BUILTINS["bool"]
    if isinstance(o, int):
        return BUILTINS["int"]
    if isinstance(o, Fraction):
        return BUILTINS["float"]
    if isinstance(o, str):
        return BUILTINS["str"]
    if isinstance(o, tuple):
        return BUILTINS["tuple"]
    raise Unsupported("type()")


@builtin("isinstance")
def b_isinstance(it, o, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    rs = [isinst1(it, o, c) for c in cs]
    if any(r is True for r in rs):
        return True
    if any(isinstance(r, Term) for r in rs):
        return T.or_(*[T.lift(r) for r in rs])
    return False


def isinst1(it, o, c):
    if isinstance(c, Cls):
        if isinstance(o, Ref) and isinstance(it.content(o), InstC):
            k = it.content(o).cls
            return isinstance(k, Cls) and c in k.mro()
        return False
    name = getattr(c, "bname", None)
    if name == "int":
        return isinstance(o, (bool, int)) or isinstance(o, Term) and o.sort == "I"
    if name == "float":
        return isinstance(o, Fraction) or isinstance(o, Term) and o.sort == "R"
    if name == "bool":
        return isinstance(o, bool) or isinstance(o, Term) and o.sort == "B"
    if name == "str":
        return isinstance(o, str) or isinstance(o, Term) and o.sort == "U" or isinstance(o, Opaque) and o.label in ("fstring", "str")
    if name == "list":
        return isinstance(o, Ref) and isinstance(it.content(o), ListC)
    if name == "dict":
        return isinstance(o, Ref) and isinstance(it.content(o), (DictC, SymDictC))
    if name == "tuple":
        return isinstance(o, tuple)
    if isinstance(c, ExcCls):
        if c.name == "tf.DType":
            if isinstance(o, Opaque) and "is_dtype" in o.attrs:
                return o.attrs["is_dtype"]
            return isinstance(o, DTypeV) and o.name.startswith("tf.") and o.valid
        if c.name == "tf.Tensor":
            return isinstance(o, Arr) and o.kind == "tf"
        if c.name == "numpy.ndarray":
            return isinstance(o, Ref) and isinstance(it.content(o), ArrC)
        if isinstance(o, PyRaise):
            return o.cls.issub(c)
        return False
    if isinstance(c, DTypeV):
        return False
    raise Unsupported(f"isinstance {c!r}")


@builtin("open")
def b_open(it, path, mode="r", **kw):
    return file_open(it, path, mode)


def file_open(it, path, mode):
    raise Unsupported("open()")


BUILTINS["object"] = ExcCls("object")
for _n in ("property", "staticmethod", "classmethod"):
    BUILTINS[_n] = LibFn("", (lambda n: lambda it, f: PropertyV(f, n))(_n))
BUILTINS["__name__"] = "__main__"


# ---------------------------------------------------------------- tensors
def to_tensor(it, v, dtype=None):
    a = it.as_arr_or_none(v)
    if a is None:
        if v is None:
            raise PyRaise(EXC["ValueError"], ("None values not supported.",))
        raise Unsupported(f"tensor from {v!r}")
    if a.kind == "tf" and dtype is None:
        return a
    if dtype is not None:
        a = cast(it, a, dtype)
    elif a.kind == "py":
        a = a.with_(dtype="float32" if a.dtype == "float64" else "int32" if isint(a.dtype) else a.dtype)
    return a.with_(kind="tf")


@lib("tensorflow.constant", "tensorflow.convert_to_tensor")
def tf_constant(it, v, dtype=None, shape=None, name=None, **kw):
    a = it.as_arr_or_none(v)
    if a is None:
        if v is None:
            raise PyRaise(EXC["ValueError"], ("None values not supported.",))
        raise Unsupported(f"tf.constant of {v!r}")
    if dtype is not None and not isinstance(dtype, DTypeV):
        raise PyRaise(EXC["TypeError"], ("Cannot convert to a TensorFlow DType",))
    r = to_tensor(it, Arr(a.shape, a._fn, a.dtype, "np" if a.kind != "py" else "py"), dtype)
    if shape is not None:
        return it.broadcast_to(r, tuple(shape_arg(it, shape)))
    return r


@lib("tensorflow.cast")
def tf_cast(it, v, dtype, **kw):
    return tf_wrap(it, cast(it, to_tensor(it, v), dtype))


@lib("tensorflow.reshape")
def tf_reshape(it, v, shape, **kw):
    a = to_tensor(it, v)
    return reshape_arr(it, a, a, shape_arg(it, shape))


@lib("tensorflow.transpose")
def tf_transpose(it, v, perm=None, **kw):
    a = to_tensor(it, v)
    return transpose_arr(it, a, a, tuple(it.concrete_items(perm)) if perm is not None else None)


LIB["tensorflow.linalg.matrix_transpose"] = LibFn("tensorflow.linalg.matrix_transpose", lambda it, v: transpose_arr(it, v, it.arr(v), tuple(range(it.arr(v).ndim - 2)) + (it.arr(v).ndim - 1, it.arr(v).ndim - 2)))


@lib("tensorflow.linalg.matvec")
def tf_matvec(it, a, b, transpose_a=False, **kw):
    """matvec(A, x)[..., i] = sum_j A[..., i, j] x[..., j] (batch dimensions broadcast)."""
    A, B = to_tensor(it, a), to_tensor(it, b)
    if A.dtype != B.dtype:
        raise PyRaise(EXC["InvalidArgumentError"], ("tensor dtypes differ",))
    if transpose_a:
        A = transpose_arr(it, A, A, tuple(range(A.ndim - 2)) + (A.ndim - 1, A.ndim - 2))
    if A.ndim < 2 or B.ndim < 1:
        raise PyRaise(EXC["ValueError"], ("matvec rank",))
    n = A.shape[-1]
    need_same(it, n, B.shape[-1])
    batch = it.broadcast_shapes(A.shape[:-2], B.shape[:-1])
    A0 = Arr(A.shape[:-2], lambda *I: T.ZERO)
    B0 = Arr(B.shape[:-1], lambda *I: T.ZERO)
    ma, mb = it.bidx(A0, batch), it.bidx(B0, batch)

    def fn(*I):
        v = T.fresh("r", "I", 0, n)
        bi = I[:-1]
        return T.sumr(v, n, T.mul(A.at(*ma(bi), I[-1], v), B.at(*mb(bi), v)))
    return tf_wrap(it, Arr(batch + (A.shape[-2],), fn, A.dtype, "tf"))


@lib("tensorflow.matmul", "tensorflow.linalg.matmul")
def tf_matmul(it, a, b, transpose_a=False, transpose_b=False, **kw):
    A, B = to_tensor(it, a), to_tensor(it, b)
    if transpose_a:
        A = transpose_arr(it, A, A, tuple(range(A.ndim - 2)) + (A.ndim - 1, A.ndim - 2))
    if transpose_b:
        B = transpose_arr(it, B, B, tuple(range(B.ndim - 2)) + (B.ndim - 1, B.ndim - 2))
    return matmul(it, A, B)


def tf_red(f):
    def g(it, v, axis=None, keepdims=False, **kw):
        return f(it, to_tensor(it, v), axis=axis if axis is None or isinstance(axis, int) else tuple(it.concrete_items(axis)), keepdims=keepdims)
    return g


for _n, _f in [("reduce_sum", np_sum), ("reduce_mean", np_mean), ("reduce_max", np_max), ("reduce_min", np_min)]:
    LIB["tensorflow." + _n] = LibFn("tensorflow." + _n, tf_red(_f))
    LIB["tensorflow.math." + _n] = LIB["tensorflow." + _n]


def seq_tensors(it, seq):
    s = seq_arrays(it, seq)
    if isinstance(s, tuple):
        return ("sym", s[1].with_(kind="tf"))
    return [to_tensor(it, a) for a in s]


@lib("tensorflow.concat")
def tf_concat(it, seq, axis, **kw):
    return tf_wrap(it, concat(it, seq_tensors(it, seq), axis))


@lib("tensorflow.stack")
def tf_stack(it, seq, axis=0, **kw):
    return tf_wrap(it, stack(it, seq_tensors(it, seq), axis))


@lib("tensorflow.expand_dims")
def tf_expand(it, v, axis=0, **kw):
    a = to_tensor(it, v)
    axis = axis + a.ndim + 1 if axis < 0 else axis
    s = list(a.shape)
    s.insert(axis, 1)
    return reshape_arr(it, a, a, s)


@lib("tensorflow.squeeze")
def tf_squeeze(it, v, axis=None, **kw):
    return m_squeeze(it, to_tensor(it, v), axis)


@lib("tensorflow.zeros")
def tf_zeros(it, shape, dtype=None, **kw):
    return Arr(tuple(shape_arg(it, shape)), lambda *I: T.ZERO, dt_name(dtype, "float32"), "tf")


@lib("tensorflow.ones")
def tf_ones(it, shape, dtype=None, **kw):
    return Arr(tuple(shape_arg(it, shape)), lambda *I: T.ONE, dt_name(dtype, "float32"), "tf")


@lib("tensorflow.shape")
def tf_shape(it, v, **kw):
    return it.alloc(ListC.of(list(to_tensor(it, v).shape)))


@lib("tensorflow.identity", "tensorflow.stop_gradient")
def tf_identity(it, v, **kw):
    return to_tensor(it, v)


@lib("tensorflow.stop_gradient")
def tf_stop(it, v, **kw):
    a = to_tensor(it, v)
    return Arr(a.shape, lambda *I: strip_tapes(a.at(*I), frozenset()), a.dtype, a.kind)


@lib("tensorflow.split")
def tf_split(it, v, n, axis=0, **kw):
    a = to_tensor(it, v)
    axis = axis + a.ndim if axis < 0 else axis
    d = a.shape[axis]
    if not isinstance(n, int) or not isinstance(d, int) or d % n:
        raise Unsupported("tf.split")
    m = d // n
    out = []
    for k in range(n):
        sh = a.shape[:axis] + (m,) + a.shape[axis + 1:]
        out.append(Arr(sh, (lambda k: lambda *I: a.at(*I[:axis], T.add(I[axis], k * m), *I[axis + 1:]))(k), a.dtype, "tf"))
    return it.alloc(ListC.of(out))


@lib("tensorflow.unstack")
def tf_unstack(it, v, num=None, axis=0, **kw):
    a = to_tensor(it, v)
    axis = axis + a.ndim if axis < 0 else axis
    d = a.shape[axis]
    if not isinstance(d, int):
        raise Unsupported("tf.unstack")
    return it.alloc(ListC.of([Arr(a.shape[:axis] + a.shape[axis + 1:], (lambda k: lambda *I: a.at(*I[:axis], k, *I[axis:]))(k), a.dtype, "tf") for k in range(d)]))


LIB["tensorflow.gather"] = LibFn("tensorflow.gather", lambda it, v, idx, axis=0, **k: it.getitem(to_tensor(it, v), tuple([SliceV(None, None, None)] * axis + [idx])))
LIB["tensorflow.function"] = LibFn("tensorflow.function", lambda it, f=None, **k: f if f is not None else LibFn("", lambda it, g: g))
LIB["tensorflow.print"] = LibFn("", lambda it, *a, **k: None)
LIB["tensorflow.where"] = LibFn("tensorflow.where", lambda it, c, a, b: np_where(it, to_tensor(it, c), to_tensor(it, a), to_tensor(it, b)))
LIB["tensorflow.maximum"] = LibFn("tensorflow.maximum", lambda it, a, b: two("maximum", tmax)(it, to_tensor(it, a), to_tensor(it, b)))
LIB["tensorflow.minimum"] = LibFn("tensorflow.minimum", lambda it, a, b: two("minimum", tmin)(it, to_tensor(it, a), to_tensor(it, b)))
LIB["tensorflow.add_n"] = LibFn("tensorflow.add_n", lambda it, seq: BUILTINS["sum"].fn(it, seq))
LIB["tensorflow.tensordot"] = LibFn("tensorflow.tensordot", lambda it, a, b, axes: tensordot(it, to_tensor(it, a), to_tensor(it, b), axes))
LIB["numpy.tensordot"] = LibFn("numpy.tensordot", lambda it, a, b, axes=2: tensordot(it, a, b, axes))


def tensordot(it, a, b, axes):
    A, B = it.arr(a), it.arr(b)
    if isinstance(axes, int):
        ax, bx = list(range(A.ndim - axes, A.ndim)), list(range(axes))
    else:
        l = it.concrete_items(axes)
        f = lambda x: [int(x)] if isinstance(x, int) else [int(y) for y in it.concrete_items(x)]
        ax, bx = f(l[0]), f(l[1])
    ax = [x + A.ndim if x < 0 else x for x in ax]
    bx = [x + B.ndim if x < 0 else x for x in bx]
    L = "abcdefghijklmnopqrstuvwxyz"
    sa = list(L[:A.ndim])
    sb = list(L[A.ndim:A.ndim + B.ndim])
    for p, q in zip(ax, bx):
        sb[q] = sa[p]
    out = [c for k, c in enumerate(sa) if k not in ax] + [c for k, c in enumerate(sb) if k not in bx]
    return einsum(it, "".join(sa) + "," + "".join(sb) + "->" + "".join(out), (a, b))


# ---------------------------------------------------------------- classes from libraries
def ext_super(it, o, name):
    """super().name on a class whose bases are library classes."""
    cls = it.content(o.self_).cls
    if name == "__init__":
        return LibFn("", lambda it, *a, **k: None)
    if name == "get_config":
        return LibFn("", lambda it: it.alloc(DictC({})))
    if name in ("build", "compile", "summary"):
        return LibFn("", lambda it, *a, **k: None)
    r = ext_inst_attr(it, o.self_, it.content(o.self_), name)
    if r is not NotImplemented:
        return r
    raise Unsupported(f"super().{name}")


EXT_ATTR = []


def ext_inst_attr(it, o, c, name):
    for f in EXT_ATTR:
        r = f(it, o, c, name)
        if r is not NotImplemented:
            return r
    return NotImplemented


def ext_init(it, o, cls, args, kw):
    return None


def call_inst(it, fn, c, args, kw):
    if isinstance(c.cls, Opaque) and "call" in c.attrs:
        return it.call(c.attrs["call"], args, kw)
    for f in EXT_CALL:
        r = f(it, fn, c, args, kw)
        if r is not NotImplemented:
            return r
    raise Unsupported(f"call of {c.cls}")


EXT_CALL = []


def dict_contains(it, o, x):
    return NotImplemented


def merge_dicts(merger, x, y):
    return NotImplemented
