"""Value domain of the symbolic executor."""
from fractions import Fraction
from . import terms as T
from .terms import Term


class Unsupported(Exception):
    """The construct is outside the supported subset: the obligation is undecided, never a violation."""


class PyRaise(Exception):
    """A Python exception raised by the program under verification."""

    def __init__(self, cls, args=(), inst=None):
        self.cls, self.args_, self.inst = cls, tuple(args), inst

    def __str__(self):
        return f"{self.cls}{self.args_}"


class ReturnFlow(Exception):
    def __init__(self, value):
        self.value = value


class BreakFlow(Exception):
    pass


class ContinueFlow(Exception):
    pass


def norm_dim(d):
    if isinstance(d, Term):
        c = T.cval(d)
        if c is not None and c.denominator == 1:
            return int(c)
    return d


class Arr:
    """An immutable n-dimensional array: shape (ints or integer terms) and an element function."""

    __slots__ = ("shape", "_fn", "dtype", "kind", "cache", "tag")

    def __init__(self, shape, fn, dtype="float64", kind="np", tag=None):
        self.shape = tuple(norm_dim(d) for d in shape)
        self._fn = fn
        self.dtype = dtype
        self.kind = kind
        self.cache = {}
        self.tag = tag

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        idx = tuple(T.lift(i) for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        r = self.cache.get(idx)
        if r is None:
            r = T.lift(self._fn(*idx))
            self.cache[idx] = r
        return r

    def with_(self, **k):
        a = Arr(k.get("shape", self.shape), k.get("fn", self._fn), k.get("dtype", self.dtype), k.get("kind", self.kind), k.get("tag", self.tag))
        return a

    def size(self):
        r = T.ONE
        for d in self.shape:
            r = T.mul(r, d)
        return norm_dim(r)

    def __repr__(self):
        return f"<Arr {self.shape} {self.dtype} {self.kind}>"


class Ref:
    __slots__ = ("oid", "env")

    def __init__(self, oid, env=()):
        self.oid, self.env = oid, env

    def __eq__(self, o):
        return isinstance(o, Ref) and self.oid == o.oid and self.env == o.env

    def __hash__(self):
        return hash((self.oid, self.env))

    def __repr__(self):
        return f"Ref{self.oid}{list(self.env) if self.env else ''}"


class Seg:
    """A list segment: `length` elements given by fn(index)."""

    __slots__ = ("length", "fn", "value", "single", "assigned")

    def __init__(self, length=None, fn=None, value=None, assigned=None):
        self.assigned = assigned    # (index, value, previous segment) of an item assignment
        if fn is None:
            self.single, self.length, self.value = True, 1, value
            self.fn = lambda i: value
        else:
            self.single, self.length, self.fn, self.value = False, norm_dim(length), fn, None


class ListC:
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    @staticmethod
    def of(items):
        return ListC([Seg(value=v) for v in items])

    def concrete(self):
        return all(s.single for s in self.segs)

    def items(self):
        return [s.value for s in self.segs]

    def length(self):
        n = 0
        sym = T.ZERO
        for s in self.segs:
            if isinstance(s.length, int):
                n += s.length
            else:
                sym = T.add(sym, s.length)
        return norm_dim(T.add(sym, n))


class DictC:
    """Dictionary with concrete keys (python-hashable values), insertion ordered."""

    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = dict(d or {})


class SymDictC:
    """Dictionary with symbolically many entries: entry k has key keyfn(k), value valfn(k); keys distinct."""

    __slots__ = ("n", "keyfn", "valfn", "name", "assigned")

    def __init__(self, n, keyfn, valfn, name):
        self.n, self.keyfn, self.valfn, self.name = n, keyfn, valfn, name
        self.assigned = None


class ArrC:
    """Content of an array object: own elements, or a view (base Ref, shape, fwd, inv); layout "strided": reshaping copies."""

    __slots__ = ("arr", "view", "layout")

    def __init__(self, arr, view=None, layout=None):
        self.arr = arr
        self.view = view
        self.layout = layout


class InstC:
    __slots__ = ("cls", "attrs", "overlays")

    def __init__(self, cls, attrs=None, overlays=()):
        self.cls, self.attrs, self.overlays = cls, dict(attrs or {}), tuple(overlays)


class FrameC:
    __slots__ = ("vars",)

    def __init__(self, vars=None):
        self.vars = dict(vars or {})


class Poison:
    """A value the executor does not know; reading it makes the obligation undecided."""

    def __init__(self, why):
        self.why = why
        self.hit = False

    def __repr__(self):
        return f"Poison({self.why})"


class LastValue:
    """Variable assigned in a symbolic loop: v0 if the loop did not run, value(K-1) otherwise."""

    def __init__(self, v0, K, make):
        self.v0, self.K, self.make = v0, K, make


class Func:
    def __init__(self, node, frame, module, name, cls=None, defaults=(), kwdefaults=None, qual=None):
        self.node, self.frame, self.module, self.name, self.cls = node, frame, module, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.qual = qual or name

    def __repr__(self):
        return f"<func {self.qual}>"


class BoundMethod:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Cls:
    dyn = None

    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, Cls)]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class ExcCls:
    def __init__(self, name, base=None):
        self.name, self.base = name, base

    def issub(self, other):
        c = self
        while c is not None:
            if c is other or c.name == other.name:
                return True
            c = c.base
        return False

    def __repr__(self):
        return f"<exc {self.name}>"


class ExtModule:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"


class RepoModule:
    def __init__(self, name, frame, path):
        self.name, self.frame, self.path = name, frame, path


class LibFn:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<lib {self.name}>"


class Inert:
    """Result of an effect-only library call (plots, prints, progress bars)."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<inert {self.path}>"


class DTypeV:
    def __init__(self, name, valid=True):
        self.name, self.valid = name, valid

    def __eq__(self, o):
        return isinstance(o, DTypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype:{self.name}"


class SymSeq:
    """Iterable with n elements fn(k)."""

    def __init__(self, n, fn):
        self.n, self.fn = norm_dim(n), fn


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SymCallable:
    """Uninterpreted callable supplied by the user of the library; pure, elementwise on arrays."""

    def __init__(self, name, call):
        self.name, self.call = name, call


class Opaque:
    """Value of unknown structure, identified by a label (only compared / passed around)."""

    def __init__(self, label, attrs=None):
        self.label, self.attrs = label, attrs or {}

    def __repr__(self):
        return f"<opaque {self.label}>"


class PropertyV:
    def __init__(self, fn, kind="property"):
        self.fn, self.kind = fn, kind


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_
