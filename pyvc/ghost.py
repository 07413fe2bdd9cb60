"""Dictionaries keyed by data (tags) that are collected in loops: projection onto one arbitrary key.

Contracts set it.ghost_key = g, an arbitrary integer.  A dictionary that gets a symbolic key is then represented by what
it holds for g only: whether g is a key (pres) and its value.  Statements proved about the entry of g hold for every key
since g is arbitrary.  Entries of other keys are unknown: reading one gives unknown rows, writing one has no effect on
the entry of g.  The value is a set of rows: generators {row(v) : v in bounds, cond(v)}; np.vstack unites, np.unique
(axis=0) keeps the set and removes duplicates.  Invariant: no generator yields a row while g is not a key."""
from . import terms as T, lib as L, loops, smt
from .terms import Term, TRUE, FALSE
from .values import *
from .lib import LIB, VALUES


class Gen:
    def __init__(self, vs, cond, row):
        self.vs, self.cond, self.row = tuple(vs), cond, row

    def with_cond(self, c):
        return self if c is self.cond else Gen(self.vs, c, self.row)


class Mark:
    """The rows collected by earlier iterations."""
    vs, row = (), None

    def __init__(self, cond=TRUE, key=None):
        self.cond, self.key = cond, key or object()

    def with_cond(self, c):
        return self if c is self.cond else Mark(c, self.key)


class Bag:
    def __init__(self, d, gens, unique=False, kind="rows", known=True):
        self.d, self.gens, self.unique, self.kind, self.known = d, tuple(gens), unique, kind, known


class GhostDictC:
    def __init__(self, pres, val, default=None):
        self.pres, self.val, self.default = pres, val, default


class GhostView:
    def __init__(self, ref, which):
        self.ref, self.which = ref, which


def rows(it, bag):
    n = T.fresh("nrows", "I", 0)
    o = Opaque("rows", {"bag": bag, "shape": (n, bag.d if bag.d is not None else T.fresh("columns", "I", 1)), "ndim": 2})
    if not bag.known:
        o.attrs["append"] = o.attrs["extend"] = LibFn("", lambda it, x: None)
    o.attrs["copy"] = LibFn("", lambda it: o)
    o.attrs["__getitem__"] = LibFn("", lambda it, i: columns(it, bag, i))
    return o


def columns(it, bag, i):
    if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, SliceV) for x in i):
        a, b = i
        if all(x is None for x in (a.lo, a.hi, a.step)):
            lo, ln, st = it.norm_slice(b, bag.d)
            if T.cval(T.lift(st)) == 1:
                return rows(it, Bag(norm_dim(T.lift(ln)), [Gen(g.vs, g.cond, (lambda g: lambda c: g.row(T.add(c, lo)))(g)) for g in bag.gens], False, known=bag.known))
    raise Unsupported("indexing of a set of rows")


def bag_of(it, v):
    """The set of rows of a 2-D array or of a collected value; None if v is something else."""
    if isinstance(v, Opaque) and v.label == "rows":
        return v.attrs["bag"]
    if isinstance(v, Ref) and isinstance(it.content(v), ListC):
        c = it.content(v)
        if not c.concrete():
            return None
        out = None
        for x in c.items():
            b = bag_of(it, x)
            if b is None:
                return None
            out = b if out is None else union(out, b)
        out = out or Bag(None, (), True)
        return Bag(out.d, out.gens, False, "list", out.known)
    a = it.as_arr_or_none(v)
    if a is None or a.ndim != 2:
        return None
    j = T.fresh("row", "I", 0, a.shape[0])
    return Bag(a.shape[1], [Gen(((j, T.lift(a.shape[0])),), TRUE, lambda c: a.at(j, c))])


def union(a, b):
    return Bag(a.d if a.d is not None else b.d, a.gens + b.gens, False, a.kind, a.known and b.known)


def same_rows(a, b, d):
    """Two generators with equal rows (after renaming variables): the renaming, else None."""
    if isinstance(a, Mark) or isinstance(b, Mark):
        return {} if isinstance(a, Mark) and isinstance(b, Mark) and a.key is b.key else None
    if a.row is b.row and a.vs == b.vs:
        return {}
    if len(a.vs) != len(b.vs) or any(T.sub(x[1], y[1]) is not T.ZERO for x, y in zip(a.vs, b.vs)):
        return None
    m = {y[0]: x[0] for x, y in zip(a.vs, b.vs)}
    c = T.fresh("c", "I", 0, T.lift(d))
    return m if T.sub(a.row(c), T.subst(b.row(c), m)) is T.ZERO else None


def merge_bags(c, a, b):
    if a.kind != b.kind and a.gens and b.gens:
        raise Unsupported("entries of different kinds")
    out, rest = [], list(b.gens)
    d = a.d if a.d is not None else b.d
    for g in a.gens:
        for h in rest:
            m = same_rows(g, h, d)
            if m is not None:
                rest.remove(h)
                out.append(g.with_cond(T.ite(c, g.cond, T.subst(h.cond, m)) if g.cond is not h.cond or m else g.cond))
                break
        else:
            out.append(g.with_cond(T.and_(c, g.cond)))
    out += [h.with_cond(T.and_(T.not_(c), h.cond)) for h in rest]
    return Bag(d, out, a.unique and b.unique, a.kind if a.gens else b.kind, a.known and b.known)


def merge(merger, x, y):
    c = merger.c
    if x.val is None or x.pres is FALSE:
        v = y.val
    elif y.val is None or y.pres is FALSE:
        v = x.val
    elif x.val is y.val:
        v = x.val
    else:
        v = merge_bags(c, x.val, y.val)
    return GhostDictC(x.pres if x.pres is y.pres else T.ite(c, x.pres, y.pres), v, x.default)


# ---------------------------------------------------------------- operations
def ghost(it, o, key=None):
    """The content of a dictionary in projected form, if it has or gets (by a symbolic key) one."""
    if not isinstance(o, Ref) or getattr(it, "ghost_key", None) is None:
        return None
    c = it.content(o)
    if isinstance(c, GhostDictC):
        return c
    if isinstance(c, DictC) and not c.d and (key is True or isinstance(key, Term) and T.cval(key) is None and key.sort == "I"):
        if o.env:
            raise Unsupported("family dictionary with symbolic keys")
        c = GhostDictC(FALSE, None, getattr(c, "default", None))
        it.heap[o.oid] = c
        return c
    return None


def mine(it, key):
    k = it.key(key) if not isinstance(key, Opaque) else None
    if isinstance(k, int) or isinstance(k, Term) and k.sort == "I":
        return it.branch(T.eq(T.lift(k), it.ghost_key))
    raise Unsupported("key of a dictionary")


def other_value(it, c):
    kind = c.default or (c.val.kind if c.val is not None else "rows")
    d = c.val.d if c.val is not None and c.val.d is not None else getattr(it, "ghost_cols", 2)
    return Bag(d, (), False, kind, known=False)


def handle(it, ref, bag, own):
    """What reading an entry gives: rows, or for an entry that is a list of arrays a handle that can be appended to."""
    if bag.kind == "rows":
        return rows(it, bag)
    o = Opaque("rowlist", {"bag": bag, "own": own})

    def append(it, x):
        b = bag_of(it, x)
        if b is None:
            raise Unsupported("list entry that is not an array of rows")
        if own:
            c = it.content(ref)
            if c.val is not o.attrs["bag"]:
                raise Unsupported("entry replaced while a reference to it is in use")
            nb = Bag(c.val.d if c.val.d is not None else b.d, c.val.gens + b.gens, False, "list", c.val.known and b.known)
            it.heap[ref.oid] = GhostDictC(c.pres, nb, c.default)
            o.attrs["bag"] = nb
    o.attrs["append"] = LibFn("", append)
    o.attrs["extend"] = LibFn("", lambda it, x: append(it, x))
    return o


def absent(it, o, c, k):
    from .interp import EXC
    if c.default == "list":
        it.heap[o.oid] = GhostDictC(TRUE, Bag(None, (), False, "list"), c.default)
        return handle(it, o, it.heap[o.oid].val, True)
    raise PyRaise(EXC["KeyError"], (k,))


def getitem(it, o, k):
    c = ghost(it, o, k)
    if c is None:
        return NotImplemented
    if mine(it, k):
        if not it.branch(c.pres):
            return absent(it, o, c, k)
        return handle(it, o, c.val, True)
    # that a key other than g is missing is decided when g is that key
    return handle(it, o, other_value(it, c), False)


def setitem(it, o, k, v):
    c = ghost(it, o, k)
    if c is None:
        return NotImplemented
    if isinstance(v, Opaque) and v.label == "rowlist":
        b = v.attrs["bag"]
    else:
        b = bag_of(it, v)
        if isinstance(v, Ref) and isinstance(it.content(v), ListC) and b is not None:
            # the list itself now lives in the dictionary; other references to it are not followed
            it.heap[v.oid] = ListC((Seg(T.fresh("len", "I", 0), unknown_list),))
    if b is None:
        raise Unsupported("entry of a dictionary with symbolic keys")
    if mine(it, k):
        it.heap[o.oid] = GhostDictC(TRUE, b, c.default)
    return None


def unknown_list(i):
    raise Unsupported("a list stored in a dictionary is used directly")


def contains(it, o, k):
    c = ghost(it, o, k)
    if c is None:
        return NotImplemented
    return it.unbool(c.pres) if mine(it, k) else it.unbool(T.fresh("other_present", "B"))


def attr(it, o, c, name):
    if name in ("keys", "items", "values"):
        return LibFn("", lambda it: GhostView(o, name))
    if name == "get":
        def get(it, k, default=None):
            c = it.content(o)
            if mine(it, k):
                return handle(it, o, c.val, True) if it.branch(c.pres) else default
            return handle(it, o, other_value(it, c), False) if it.branch(T.fresh("other_present", "B")) else default
        return LibFn("", get)
    if name == "setdefault":
        def setdefault(it, k, v=None):
            c = it.content(o)
            if mine(it, k):
                if not it.branch(c.pres):
                    b = bag_of(it, v)
                    if b is None:
                        raise Unsupported("entry of a dictionary with symbolic keys")
                    it.heap[o.oid] = c = GhostDictC(TRUE, b, c.default)
                return handle(it, o, c.val, True)
            b = bag_of(it, v)
            ov = other_value(it, c)
            return handle(it, o, Bag(ov.d, (), False, b.kind, known=False), False)
        return LibFn("", setdefault)
    if name == "copy":
        def copy(it):
            c = it.content(o)
            return it.alloc(GhostDictC(c.pres, c.val, c.default))
        return LibFn("", copy)
    return NotImplemented


# ---------------------------------------------------------------- iteration
def view_of(it, v):
    if isinstance(v, GhostView):
        return v
    if isinstance(v, Ref) and isinstance(it.content(v), GhostDictC):
        return GhostView(v, "keys")
    return None


def havoc(v):
    if isinstance(v, (bool, int)) or isinstance(v, Term) and v.sort in "IRB":
        t = T.lift(v)
        return T.fresh("unknown", t.sort)
    return Poison("changed by other entries")


def run_view(it, view, body):
    """Execute body(key or entry) for every key once: arbitrarily many other keys before and after g."""
    base = it.snapshot()
    frame, depth, loopvars, nd = it.frame, it.depth, list(it.loopvars), len(it.dstack)
    cf, cm = getattr(it, "cur_func", None), getattr(it, "cur_module", None)
    dirty = set()

    def item(key, own):
        if view.which == "keys":
            return key
        c = it.content(view.ref)
        v = handle(it, view.ref, c.val if own else other_value(it, c), own)
        return (key, v) if view.which == "items" else v

    def spoil():
        for oid, part in dirty:
            v0 = loops.get_part(base.heap, oid, part)
            loops.set_part(it, oid, part, Poison("changed by other entries") if v0 is loops.MISSING else havoc(v0))

    def changes(h0, h1):
        out, conv = [], []
        for oid, part in loops.diff(h0, h1):
            c0, c1 = h0[oid], h1[oid]
            if isinstance(c1, GhostDictC):
                p0, v0 = (c0.pres, c0.val) if isinstance(c0, GhostDictC) else (FALSE, None)
                if c1.pres is not p0 or c1.val is not v0:
                    raise Unsupported("an iteration changes the entry of another key")
                conv.append(oid)
            elif part[0] in ("var", "attr"):
                out.append((oid, part))
            else:
                raise Unsupported("object modified while iterating over a dictionary")
        return out, conv

    def explore(f):
        try:
            return it.explore(f)
        finally:
            it.frame, it.depth, it.cur_func, it.cur_module = frame, depth, cf, cm
            it.loopvars = loopvars
            del it.dstack[nd:]
    for rnd in range(8):
        it.restore(base)
        spoil()
        h = T.fresh("key", "I")
        it.assume(T.ne(h, it.ghost_key))
        h0, log0 = dict(it.heap), it.log
        outs = explore(lambda: body(item(h, False)))
        new = set()
        for o in outs:
            if o.flow in ("break", "return"):
                raise Unsupported("break or return while iterating over a dictionary")
            if o.flow == "raise":
                continue        # an exception raised for another key is found when g is that key
            if o.state.log is not log0 and o.state.log != log0:
                raise Unsupported("output while iterating over a dictionary")
            ch, conv = changes(h0, o.state.heap)
            new |= {x for x in ch if x not in dirty}
        if not new:
            break
        dirty |= new
    else:
        raise Unsupported("iteration over a dictionary does not converge")
    it.restore(base)
    spoil()

    def run():
        c = it.content(view.ref)
        if it.branch(c.pres):
            body(item(it.ghost_key, True))
        else:
            it.heap[view.ref.oid] = GhostDictC(FALSE, None, c.default)
    outs = explore(run)
    for o in outs:
        if o.flow in ("break", "return"):
            raise Unsupported("break or return while iterating over a dictionary")
        if o.flow == "continue":
            o.flow = "normal"
        if o.flow == "normal":
            o.value = None
    it.lenient_merge, old = True, it.lenient_merge
    try:
        it.join(outs)
    finally:
        it.lenient_merge = old
    spoil()


def dict_comp(it, view, keyfn, valfn, bind):
    r = it.alloc(GhostDictC(FALSE, None))

    def body(x):
        bind(x)
        k = keyfn()
        setitem(it, r, k, valfn())
    run_view(it, view, body)
    return r


# ---------------------------------------------------------------- loops with a symbolic trip count
def marker(l, base):
    c0 = base if isinstance(base, GhostDictC) else GhostDictC(FALSE, None, None)
    if l.marker is None:
        l.marker = T.fresh("present", "B")
        l.gmark = Mark()
        l.gd, l.gkind = (c0.val.d, c0.val.kind) if c0.val is not None else (None, l.gkind0)
    return GhostDictC(l.marker, Bag(l.gd, (l.gmark,), False, l.gkind), l.gdefault)


def first(l, v0, post):
    c0 = v0 if isinstance(v0, GhostDictC) else GhostDictC(FALSE, None, getattr(v0, "default", None))
    l.g0 = c0
    l.gkind0 = post.val.kind if isinstance(post, GhostDictC) and post.val is not None else "rows"
    l.gdefault = c0.default or (post.default if isinstance(post, GhostDictC) else None)


def resolve(ctx, l, pv, has):
    it, k = ctx.it, ctx.k
    if not isinstance(pv, GhostDictC):
        raise Unsupported("loop-carried dictionary becomes something else")
    b = pv.val

    if b is not None and (l.gd is None and b.d is not None or b.kind != l.gkind):
        # columns and kind of the entries are known now
        l.gd, l.gkind = b.d, b.kind
        l.closed = None
        return True
    p = l.marker
    t = pv.pres
    c0, c1 = T.subst(t, {p: FALSE}), T.subst(t, {p: TRUE})
    if c1 is not TRUE and it.truth(T.or_(T.not_(p), t)) is not True:
        raise Unsupported("a key is removed in a loop")
    if has_other(c0, has, p):
        return False
    v0 = l.g0
    pres = lambda kk: T.or_(v0.pres, loops.red_to("any", k, kk, c0))
    gens = new_gens(it, l, b, p)
    pk = pres(k)
    data = []
    for g in gens:
        if any(has_other(x, has, None) for x in [T.subst(g.cond, {p: FALSE})] + [g.row(T.fresh("c", "I", 0))]):
            return False
        c = T.subst(g.cond, {p: pk})
        data.append(Gen(g.vs, c, g.row))
    l.kind, l.data = "ghost", (c0, data)

    def closed(kk):
        return GhostDictC(pres(kk), Bag(l.gd, (l.gmark,), False, l.gkind), l.gdefault)
    l.closed = closed
    return True


def has_other(t, has, p):
    return has(T.subst(t, {p: FALSE}) if p is not None else t)


def new_gens(it, l, b, p):
    """Generators added by one iteration; the rows collected before must be kept."""
    marks = [g for g in b.gens if isinstance(g, Mark)]
    if len(marks) != 1 or marks[0].key is not l.gmark.key:
        raise Unsupported("rows collected before are dropped in a loop")
    if b.unique or not b.known:
        raise Unsupported("rows of unknown origin are collected in a loop")
    if it.truth(T.or_(T.not_(p), marks[0].cond)) is not True:
        raise Unsupported("rows collected before are dropped in a loop")
    return [g for g in b.gens if not isinstance(g, Mark)]


def check(ctx, l, pv, oblige, line, what):
    """Inductive step from the state the closed form describes."""
    it, k = ctx.it, ctx.k
    c0, data = l.data
    pk = T.or_(l.g0.pres, loops.red_to("any", k, k, c0))
    oblige(it, T.iff(pv.pres, T.or_(pk, c0)), line, what + ".present")
    # the rows one iteration adds, from the state the closed form describes
    gens = new_gens(it, l, pv.val, pk)
    l.data = (c0, gens)
    for g in gens:
        # nothing is collected without making the key present
        oblige(it, T.or_(T.not_(g.cond), pv.pres), line, what + ".invariant")


def final(ctx, l, K):
    k = ctx.k
    c0, data = l.data
    v0 = l.g0
    gens = []
    if v0.val is not None:
        gens += [g.with_cond(T.and_(v0.pres, g.cond)) for g in v0.val.gens]
    for g in data:
        kk = T.fresh("k", "I", 0, K)
        gens.append(Gen(tuple((v, T.subst(n, {k: kk})) for v, n in g.vs) + ((kk, K),), T.subst(g.cond, {k: kk}), (lambda g, kk: lambda c: T.subst(g.row(c), {k: kk}))(g, kk)))
    pres = T.or_(v0.pres, loops.red_to("any", k, K, c0))
    return GhostDictC(pres, Bag(l.gd, gens, False, l.gkind), l.gdefault)


# ---------------------------------------------------------------- library functions on sets of rows
def has_rows(it, seq):
    if isinstance(seq, Opaque) and seq.label in ("rows", "rowlist"):
        return True
    items = seq if isinstance(seq, tuple) else it.content(seq).items() if isinstance(seq, Ref) and isinstance(it.content(seq), ListC) and it.content(seq).concrete() else ()
    return any(isinstance(x, Opaque) and x.label in ("rows", "rowlist") for x in items)


def stack(it, seq):
    if isinstance(seq, Opaque):
        b = seq.attrs["bag"]
        return rows(it, Bag(b.d if b.d is not None else 2, b.gens, False, "rows", b.known))
    out = None
    for x in (seq if isinstance(seq, tuple) else it.content(seq).items()):
        b = bag_of(it, x)
        if b is None:
            raise Unsupported("stacking of rows")
        out = b if out is None else union(out, b)
    return rows(it, Bag(out.d, out.gens, False, "rows", out.known))


def wrap(names, f):
    for n in names:
        old = LIB[n]
        LIB[n] = LibFn(n, (lambda old: lambda it, *a, **k: f(it, old, *a, **k))(old.fn))


def zero_axis(it, axis):
    return axis == 0


wrap(["numpy.vstack", "numpy.row_stack"], lambda it, old, seq, **k: stack(it, seq) if has_rows(it, seq) else old(it, seq, **k))
wrap(["numpy.concatenate"], lambda it, old, seq, axis=0, **k: stack(it, seq) if zero_axis(it, axis) and has_rows(it, seq) else old(it, seq, axis=axis, **k))
wrap(["numpy.append"], lambda it, old, a, b, axis=None: stack(it, (a, b)) if axis == 0 and has_rows(it, (a, b)) else old(it, a, b, axis=axis))
wrap(["numpy.array", "numpy.asarray", "numpy.copy"], lambda it, old, x, *a, **k: x if isinstance(x, Opaque) and x.label == "rows" and not a and not k else old(it, x, *a, **k))


def unique(it, old, o, axis=None, **kw):
    if axis == 0 and getattr(it, "ghost_key", None) is not None and not kw:
        b = bag_of(it, o) if not (isinstance(o, Opaque) and o.label == "rowlist") else None
        if b is not None:
            it.trusted.add("numpy.unique")
            return rows(it, Bag(b.d, b.gens, True, "rows", b.known))
    return old(it, o, axis=axis, **kw)


wrap(["numpy.unique"], unique)


def map_rows(it, b, f):
    if any(isinstance(g, Mark) for g in b.gens):
        raise Unsupported("function of rows being collected")
    return rows(it, Bag(b.d, [Gen(g.vs, g.cond, (lambda g: lambda c: f(g.row(c)))(g)) for g in b.gens], False, "rows", b.known))


def _round(it, old, o, n=0):
    if isinstance(o, Opaque) and o.label == "rows":
        return map_rows(it, o.attrs["bag"], lambda t: old(it, t, n))
    return old(it, o, n)


wrap(["numpy.round", "numpy.around"], _round)


def _hook(name, f):
    old = getattr(L, name)

    def g(it, *a):
        r = f(it, *a)
        return old(it, *a) if r is NotImplemented else r
    setattr(L, name, g)


_hook("getitem_hook", lambda it, o, i: getitem(it, o, i))
_hook("setitem_hook", lambda it, o, i, v: setitem(it, o, i, v))
_hook("ref_attr", lambda it, o, c, name: ghost_attr(it, o, c, name))


def ghost_attr(it, o, c, name):
    if isinstance(c, DictC) and not c.d and getattr(it, "ghost_key", None) is not None and name in ("setdefault",):
        def setdefault(it, k, v=None):
            g = ghost(it, o, it.key(k))
            if g is None:
                return it.call(L.dict_attr(it, o, name), [k, v], {})
            return it.call(attr(it, o, g, name), [k, v], {})
        return LibFn("", setdefault)
    return attr(it, o, c, name) if isinstance(c, GhostDictC) else NotImplemented


def dict_contains(it, o, x):
    return contains(it, o, it.key(x)) if getattr(it, "ghost_key", None) is not None and isinstance(it.content(o), (DictC, GhostDictC)) else NotImplemented


def merge_dicts(merger, x, y):
    if isinstance(x, GhostDictC) or isinstance(y, GhostDictC):
        f = lambda z: z if isinstance(z, GhostDictC) else GhostDictC(FALSE, None, getattr(z, "default", None)) if isinstance(z, DictC) and not z.d else None
        a, b = f(x), f(y)
        if a is not None and b is not None:
            return merge(merger, a, b)
    return NotImplemented


L.dict_contains, L.merge_dicts = dict_contains, merge_dicts
loops.GHOST = __import__("sys").modules[__name__]


class DefaultDictC(DictC):
    __slots__ = ("default",)


def defaultdict(it, factory=None, *a):
    if a or getattr(it, "ghost_key", None) is None:
        raise Unsupported("defaultdict")
    if getattr(factory, "name", None) != "list" and factory is not it.libmod.BUILTINS.get("list"):
        raise Unsupported("defaultdict factory")
    c = DefaultDictC()
    c.default = "list"
    return it.alloc(c)


LIB["collections.defaultdict"] = LibFn("collections.defaultdict", defaultdict)
