"""Loops.  A loop with a concrete trip count is unrolled.  A loop with a symbolic trip count is summarised: closed
forms for everything the body modifies are inferred by executing the body for a generic iteration k from a marked
pre-state, and the inferred closed forms are then established as loop invariants: the body is executed once more from
the state the closed forms describe at k and the resulting state is proved to be the one they describe at k + 1."""
import ast
from fractions import Fraction
from . import terms as T, smt
from .terms import Term, TRUE, FALSE
from .values import *

_n = [0]
GHOST = None       # module ghost, set when loaded
FOLD = None        # set by tflib: closed form of a tensor carried through layers
TENSOR_EL = None


def uid(p):
    _n[0] += 1
    return f"{p}#{_n[0]}"


def as_sequence(it, v):
    """A python list of values, or a SymSeq."""
    if isinstance(v, list):
        return v
    if isinstance(v, (tuple, range)):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, SymSeq):
        if isinstance(v.n, int):
            return [v.fn(T.const(i)) for i in range(v.n)]
        return v
    if isinstance(v, Ref):
        c = it.content(v)
        if isinstance(c, ListC):
            env = dict(v.env)
            if c.concrete():
                return [it.subst_value(x, env) if env else x for x in c.items()]
            n = c.length()
            if env and isinstance(n, Term):
                n = norm_dim(T.subst(n, env))
            if isinstance(n, int):
                return [it.getitem(v, i) for i in range(n)]
            if len(c.segs) == 1:
                s = c.segs[0]
                return SymSeq(n, lambda i: it.subst_value(s.fn(i), env) if env else s.fn(i))
            return SymSeq(n, lambda i: it.getitem(v, i))
        if isinstance(c, DictC):
            return list(c.d.keys())
        if isinstance(c, SymDictC):
            return SymSeq(c.n, lambda i: c.keyfn(i))
        if isinstance(c, ArrC):
            return _arrseq(it, v, it.arr(v))
        h = it.libmod.iter_hook(it, v, c) if hasattr(it.libmod, "iter_hook") else None
        if h is not None:
            return as_sequence(it, h)
    if isinstance(v, Arr):
        return _arrseq(it, v, v)
    if isinstance(v, Inert):
        raise Unsupported(f"iteration over {v}")
    if isinstance(v, Opaque) and "items" in v.attrs:
        return as_sequence(it, v.attrs["items"])
    if v is None or isinstance(v, (int, Fraction)):
        from .interp import EXC
        raise PyRaise(EXC["TypeError"], ("object is not iterable",))
    raise Unsupported(f"iteration over {v!r}")


def _arrseq(it, v, a):
    from .interp import EXC
    if a.ndim == 0:
        raise PyRaise(EXC["TypeError"], ("iteration over a 0-d array",))
    if isinstance(a.shape[0], int):
        return [it.getitem(v, i) for i in range(a.shape[0])]
    return SymSeq(a.shape[0], lambda i: it.getitem(v, i))


def run_for(it, s, iterable):
    view = GHOST.view_of(it, iterable) if GHOST is not None else None
    if view is not None:
        def step(x):
            it.assign(s.target, x)
            try:
                it.exec_block(s.body)
            except ContinueFlow:
                pass
        GHOST.run_view(it, view, step)
        it.exec_block(s.orelse)
        return
    seq = as_sequence(it, iterable)
    if isinstance(seq, list):
        for x in seq:
            it.assign(s.target, x)
            try:
                it.exec_block(s.body)
            except BreakFlow:
                return
            except ContinueFlow:
                pass
        it.exec_block(s.orelse)
        return

    def body(k):
        it.assign(s.target, seq.fn(k))
        it.exec_block(s.body)

    left = symbolic_loop(it, T.lift(seq.n), body, getattr(s, "lineno", 0))
    if s.orelse and not (isinstance(left, Term) and it.branch(left)):
        it.exec_block(s.orelse)


def run_comp(it, gens, leaf):
    from .interp import local_names
    import ast
    saved = it.frame
    fr = it.alloc(FrameC({}))
    it.obj_params.pop(fr.oid, None)
    it.parent[fr.oid] = saved
    acc = it.alloc(ListC([]))

    def rec(i):
        if i == len(gens):
            v = leaf()
            c = it.content(acc)
            it.heap[acc.oid] = ListC(c.segs + (Seg(value=v),))
            return
        g = gens[i]
        seq = as_sequence(it, it.eval(g.iter))

        def step(x):
            it.assign(g.target, x)
            for cond in g.ifs:
                if not it.branch(it.to_bool(it.eval(cond))):
                    return
            rec(i + 1)

        if isinstance(seq, list):
            for x in seq:
                step(x)
        else:
            symbolic_loop(it, T.lift(seq.n), lambda k: step(seq.fn(k)), getattr(g.iter, "lineno", 0))

    it.frame = fr.oid
    try:
        rec(0)
    finally:
        it.frame = saved
    return acc


def sym_map(it, seq, f):
    acc = it.alloc(ListC([]))

    def body(k):
        v = f(seq.fn(k))
        c = it.content(acc)
        it.heap[acc.oid] = ListC(c.segs + (Seg(value=v),))

    symbolic_loop(it, T.lift(seq.n), body)
    return acc


# ------------------------------------------------------------------------------------------------ symbolic loops
class Loc:
    """A location modified by the loop and what is known about it."""

    def __init__(self, oid, part, v0):
        self.oid, self.part, self.v0 = oid, part, v0
        self.mode = None          # scalar | poison | array | grow | list | content-list | content-arr | overlay | symdict
        self.marker = None
        self.closed = None        # function kterm -> value (for use as pre-state)
        self.final = None         # value after the loop
        self.info = None

    def __repr__(self):
        return f"Loc({self.oid},{self.part},{self.mode})"


MISSING = object()


def root(heap, oid):
    """The object that owns the memory of an array."""
    c = heap.get(oid)
    while isinstance(c, ArrC) and c.view is not None:
        oid = c.view[0].oid if isinstance(c.view[0], Ref) else c.view[0]
        c = heap.get(oid)
    return oid


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str, Fraction, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return a.fn is b.fn and _same(a.self_, b.self_)
    return False


def _isnum(v):
    return isinstance(v, (bool, int, Fraction)) or isinstance(v, Term) and v.sort in "IRB"


def parts_of(c):
    if isinstance(c, FrameC):
        return {("var", k): v for k, v in c.vars.items()}
    if isinstance(c, InstC):
        d = {("attr", k): v for k, v in c.attrs.items()}
        d[("ov",)] = c.overlays
        return d
    if isinstance(c, DictC):
        return {("key", k): v for k, v in c.d.items()}
    if isinstance(c, ListC):
        return {("list",): c}
    if isinstance(c, ArrC):
        return {("arr",): c}
    if isinstance(c, SymDictC):
        return {("sym",): c}
    return {("whole",): c}


def get_part(heap, oid, part):
    c = heap[oid]
    if part[0] in ("list", "arr", "sym", "whole"):
        return c
    if part[0] == "ov":
        return c.overlays
    d = c.vars if part[0] == "var" else c.attrs if part[0] == "attr" else c.d
    return d.get(part[1], MISSING)


def set_part(it, oid, part, v):
    c = it.heap[oid]
    k = part[0]
    if k in ("list", "arr", "sym", "whole"):
        it.heap[oid] = v
    elif k == "ov":
        it.heap[oid] = InstC(c.cls, c.attrs, v)
    elif k == "var":
        d = dict(c.vars)
        d[part[1]] = v
        it.heap[oid] = FrameC(d)
    elif k == "attr":
        d = dict(c.attrs)
        d[part[1]] = v
        it.heap[oid] = InstC(c.cls, d, c.overlays)
    else:
        d = dict(c.d)
        d[part[1]] = v
        it.heap[oid] = DictC(d)


def diff(h0, h1):
    out = []
    for oid, c0 in h0.items():
        c1 = h1.get(oid)
        if c1 is c0 or c1 is None:
            continue
        if GHOST is not None and isinstance(c1, GHOST.GhostDictC) and isinstance(c0, (DictC, GHOST.GhostDictC)):
            if isinstance(c0, DictC) or c0.pres is not c1.pres or c0.val is not c1.val:
                out.append((oid, ("whole",)))
            continue
        if type(c0) is not type(c1):
            raise Unsupported("object changes kind in a loop")
        p0, p1 = parts_of(c0), parts_of(c1)
        for part, v in p1.items():
            if part not in p0 or not _same(p0[part], v):
                out.append((oid, part))
        for part in p0:
            if part not in p1:
                raise Unsupported("deletion in a symbolic loop")
    return out


class Ctx:
    pass


def symbolic_loop(it, K, body, line=0):
    """Returns the condition under which the loop was left by break (None: no break in it)."""
    st, nd, mark = it.snapshot(), len(it.dstack), len(it.loop_obligations)
    seen = []
    try:
        return _symbolic_loop(it, K, body, line, False, False, seen)
    except Unsupported:
        if "break" not in seen or len(it.dstack) != nd:
            raise
        it.restore(st)
        del it.loop_obligations[mark:]
        return _symbolic_loop(it, K, body, line, False, True, seen)


def _symbolic_loop(it, K, body, line, brk, peel, seen):
    """peel: iterations that end in break are split off like those that return, instead of being merged with the others."""
    if K.sort != "I":
        raise Unsupported("trip count")
    nk = it.truth(T.le(K, 0))
    if nk is True:
        return
    k = T.fresh("k", "I", 0, K)
    base = it.snapshot()
    frame, depth, loopvars, nd = it.frame, it.depth, list(it.loopvars), len(it.dstack)
    cf, cm = getattr(it, "cur_func", None), getattr(it, "cur_module", None)
    locs = {}
    ctx = Ctx()
    ctx.it, ctx.k, ctx.K, ctx.base, ctx.locs = it, k, K, base, locs
    mark_obl = len(it.loop_obligations)
    for rnd in range(14):
        smt.check_deadline()
        it.restore(base)
        all_closed = all(l.closed is not None for l in locs.values())
        unresolved = [l for l in locs.values() if l.closed is None]
        for l in locs.values():
            set_part(it, l.oid, l.part, l.closed(k) if l.closed is not None else install_marker(ctx, l))
        kp = T.ge(K, 1)
        if kp is not TRUE and kp not in it.pc:
            it.pc.append(kp)
        it.loopvars = loopvars + [k]
        heap0 = dict(it.heap)
        log0 = it.log
        del it.loop_obligations[mark_obl:]
        poisons = [l for l in locs.values() if l.mode == "poison"]
        for l in poisons:
            l.marker.hit = False
        guards = it.family_guards
        it.family_guards = guards + [(l.oid, frozenset(l.ovattrs), k) for l in locs.values() if l.mode == "overlay"]
        try:
            outs = it.explore(lambda: body(k))
            ok = True
        except Unsupported:
            ok = False
            hit = [l for l in poisons if l.marker.hit]
            if not hit:
                raise
        finally:
            it.family_guards = guards
            it.loopvars = list(loopvars)
            it.frame, it.depth, it.cur_func, it.cur_module = frame, depth, cf, cm
            del it.dstack[nd:]
        if not ok:
            for l in hit:
                promote(ctx, l)
            continue
        exits = [o for o in outs if o.flow in ("break", "return")]
        seen += [o.flow for o in exits]
        split = ("return", "break") if peel else ("return",)
        norm = [o for o in outs if o.flow in ("normal", "continue", "break") and o.flow not in split]
        raises = [o for o in outs if o.flow == "raise"]
        if not norm and exits:
            # the first iteration leaves the loop
            del it.loop_obligations[mark_obl:]
            it.restore(base)
            if it.branch(T.le(K, 0)):
                return
            try:
                body(T.ZERO)
            except BreakFlow:
                return TRUE
            raise Unsupported("loop body has no outcome")
        cexit = T.or_(*[T.and_(*o.conds) for o in exits]) if exits else None
        cret = T.or_(*[T.and_(*o.conds) for o in exits if o.flow in split]) if exits else None
        if not norm:
            if not raises:
                raise Unsupported("loop body has no outcome")
            # every iteration raises
            it.restore(base)
            if it.branch(T.le(K, 0)):
                return
            it.pc.append(T.eq(k, 0))
            raise raises[it.choose(len(raises))].exc
        for o in norm:
            o.flow, o.value = "normal", None
        try:
            acc = norm[0]
            it.restore(base)
            it.loopvars = loopvars + [k]
            it.pc = list(base.pc) + ([kp] if kp is not TRUE and kp not in base.pc else [])
            if len(norm) > 1:
                it.heap = dict(heap0)
                it.lenient_merge = True
                try:
                    acc = it.merge_outcomes(norm)
                finally:
                    it.lenient_merge = False
        except Exception as e:
            if type(e).__name__ == "MergeFail":
                raise Unsupported("cannot merge the paths of a loop body")
            raise
        finally:
            it.loopvars = list(loopvars)
        post = acc.state
        new = [(o, p) for o, p in diff(heap0, post.heap) if (o, p) not in locs]
        if new:
            for oid, part in new:
                if oid not in base.heap:
                    raise Unsupported("loop-carried array modified in place")
                v0 = get_part(base.heap, oid, part)
                l = Loc(oid, part, v0)
                classify(ctx, l, get_part(post.heap, oid, part), post)
                locs[(oid, part)] = l
            for l in locs.values():
                if l.mode not in ("poison",):
                    l.closed = None
            continue
        if unresolved:
            progress = False
            markers = marker_set(unresolved)
            pend = []
            for l in unresolved:
                r = resolve(ctx, l, post, markers)
                if r:
                    progress = True
                else:
                    pend.append(l)
            if not progress:
                raise Unsupported(f"no closed form for {[ (l.part, l.mode) for l in pend]} in the loop at line {line}")
            continue
        if cexit is not None and brk is False:
            # left after the first iteration that satisfies an exit condition; the conditions are those of the closed
            # forms, which hold up to there (they are established when the loop is summarised again below)
            del it.loop_obligations[mark_obl:]
            it.restore(base)
            at = lambda c, i: T.subst(c, {k: i})
            v = T.fresh("k", "I", 0, K)
            K2 = T.red("first", v, K, at(cexit, v))
            it.assume(T.le(K2, K))
            it.assume(T.or_(T.le(K, 0), T.ge(K2, 1)))
            last = T.sub(K2, 1)
            if cret is not FALSE and it.branch(T.and_(T.ge(K, 1), at(cret, last))):
                _symbolic_loop(it, last, body, line, (k, cexit), peel, seen)
                try:
                    body(last)
                except BreakFlow:
                    return TRUE
                except ContinueFlow:
                    pass
                raise Unsupported("return from a loop")
            _symbolic_loop(it, K2, body, line, (k, cexit), peel, seen)
            return FALSE if peel else T.and_(T.ge(K, 1), at(cexit, last))
        if brk is not False and cexit is not T.subst(brk[1], {brk[0]: k}) and not (cexit is None and (peel or "break" not in seen)):
            raise Unsupported("exit condition of a loop")
        written = {root(base.heap, l.oid) for l in locs.values() if l.part[0] in ("arr", "list")}
        if any(isinstance(l.v0, Ref) and l.mode in ("varr", "vlist", "fold") and root(base.heap, l.v0.oid) in written for l in locs.values()):
            raise Unsupported("loop-carried array whose initial value is modified in the loop")
        # every location has a closed form used as pre-state in this round: inductive check and result
        return finish(ctx, post, raises, log0, line)
    raise Unsupported("loop summarisation does not converge")


def classify(ctx, l, post, st):
    it = ctx.it
    kind = l.part[0]
    if kind == "list" and isinstance(post, ListC) and len(l.v0.segs) == len(post.segs) == 1 and post.segs[0].assigned is not None and not l.v0.segs[0].single:
        l.mode = "listset"
    elif kind == "list":
        l.mode = "clist"
        nb = len(l.v0.segs)
        if isinstance(post, ListC) and len(post.segs) >= nb and all(x is y for x, y in zip(post.segs[:nb], l.v0.segs)):
            m = seg_total(post.segs[nb:])
            if ctx.k not in m.fv:
                l.guess = m  # expected number of elements appended per iteration (checked when resolved)
    elif kind == "arr":
        if l.v0.view is not None or post.view is not None:
            raise Unsupported("view object rebound in a loop")
        l.mode = "carr"
    elif kind == "ov":
        l.mode = "overlay"
        l.closed = None
        l.ovattrs = {ov.attr for ov in post[len(l.v0):]}
    elif kind == "sym":
        l.mode = "symdict"
    elif kind == "whole" and GHOST is not None and isinstance(post, GHOST.GhostDictC):
        l.mode = "ghost"
        GHOST.first(l, l.v0, post)
    elif kind == "whole":
        raise Unsupported("object modified in a loop")
    elif l.v0 is not MISSING and _isnum(l.v0) and _isnum(post):
        t0, t1 = T.lift(l.v0), T.lift(post)
        if (t0.sort == "B") != (t1.sort == "B"):
            l.mode = "poison"
        else:
            l.mode = "scalar"
            l.info = "B" if t0.sort == "B" else "R" if "R" in (t0.sort, t1.sort) or isinstance(l.v0, Fraction) or isinstance(post, Fraction) else "I"
    else:
        l.mode = "poison"
    if l.mode == "poison":
        make_poison(ctx, l)


def make_poison(ctx, l):
    l.mode = "poison"
    l.marker = Poison(f"loop-carried {l.part}")
    l.closed = lambda kk: l.marker


def promote(ctx, l):
    """A loop-carried non-scalar value is read: give it a structured marker."""
    it = ctx.it
    v0 = l.v0
    if v0 is MISSING or isinstance(v0, (Poison, LastValue)):
        raise Unsupported(f"{l.part} is read before it is assigned in a loop")
    l.closed = None
    it.restore(ctx.base)
    if isinstance(v0, Ref) and isinstance(it.content(v0), ListC):
        l.mode = "vlist"
        return
    a = it.as_arr_or_none(v0)
    if a is not None and (a.ndim > 0 or a.kind == "tf"):
        l.mode = "varr"
        l.info = {"arr": a, "grow": None, "py": isinstance(v0, Ref)}
        return
    raise Unsupported(f"loop-carried value {l.part}")


def install_marker(ctx, l):
    it = ctx.it
    if l.mode == "ghost":
        return GHOST.marker(l, l.v0)
    if l.mode == "scalar":
        if l.marker is None:
            l.marker = T.fresh("acc", l.info)
        return l.marker
    if l.mode in ("carr", "varr"):
        a = it.read_arr(Ref(l.oid)) if l.mode == "carr" else l.info["arr"]
        name = uid("acc")
        grow = l.info.get("grow") if l.mode == "varr" else None
        shape = list(a.shape)
        if grow is not None:
            L = T.fresh("len", "I", 0)
            shape[grow] = L
            l.info["L"] = L
        dt = a.dtype
        if l.mode == "varr" and l.info.get("dtype"):
            dt = l.info["dtype"]
        m = it.fresh_arr(name, tuple(shape), dt, a.kind)
        l.marker = name
        l.marr = m
        if l.mode == "carr":
            d = getattr(l, "rowlocal", None)
            if d is not None:
                # earlier iterations wrote other rows: row k still has its initial value (established by the inductive check)
                v0a, kk = l.v0.arr, ctx.k
                return ArrC(Arr(m.shape, lambda *I: T.ite(T.eq(I[d], kk), v0a.at(*I), m.at(*I)), m.dtype, m.kind))
            return ArrC(m)
        if l.info["py"]:
            return it.alloc(ArrC(m))
        return m
    if l.mode == "fold":
        if l.info.get("foldacc") is None:
            l.info["foldacc"] = T.fresh("acc", "U")
            l.info["foldw"] = T.fresh("width", "I", 1)
        U, a = l.info["foldacc"], l.info["arr"]
        l.marker = U
        l.marr = Arr((a.shape[0], l.info["foldw"]), lambda r, c: TENSOR_EL(U, r, c), l.info.get("folddt") or a.dtype, a.kind)
        return l.marr
    if l.mode in ("clist", "vlist"):
        c = l.v0 if l.mode == "clist" else it.content(l.v0)
        guess = getattr(l, "guess", None)
        L = T.mul(guess, ctx.k) if guess is not None else T.fresh("len", "I", 0)

        def fn(i):
            raise Unsupported("element of a list under construction")
        seg = Seg(L, fn)
        l.marker = L
        l.seg = seg
        lc = ListC(c.segs + (seg,))
        return lc if l.mode == "clist" else it.alloc(lc)
    if l.mode == "overlay":
        return l.v0
    if l.mode in ("symdict", "listset"):
        return l.v0
    raise Unsupported(f"marker for {l.mode}")


def marker_set(locs):
    vs, apps = set(), set()
    for l in locs:
        if isinstance(l.marker, Term):
            vs.add(l.marker)
        elif isinstance(l.marker, str):
            apps.add(l.marker)
        if l.mode == "varr" and l.info.get("L") is not None:
            vs.add(l.info["L"])
    return vs, apps


def has_marker(t, markers):
    vs, apps = markers
    if vs and not t.fv.isdisjoint(vs):
        return True
    if apps and T.mentions(t, lambda a: a.op == "app" and a.args[0] in apps):
        return True
    return False


def at_k(t, k, e):
    return T.subst(t, {k: T.lift(e)})


def sum_to(k, kk, g):
    """sum of g over 0 <= j < kk."""
    v = T.fresh("j", "I", 0, kk)
    return T.sumr(v, kk, T.subst(g, {k: v}))


def lag(k, kk, t, v0):
    kk = T.lift(kk)
    c = T.ge(kk, 1)
    return T.ite(c, at_k(t, k, T.sub(kk, 1)), v0)


def incr(t, a, has):
    """g with t = a + g and g free of markers, or None."""
    g = T.sub(t, a)
    if not has(g):
        return g
    if t.op == "ite" and not has(t.args[0]):
        x, y = incr(t.args[1], a, has), incr(t.args[2], a, has)
        if x is not None and y is not None:
            return T.ite(t.args[0], x, y)
    # a + c*ite(..a..) forms: lift one ite
    if t.op == "poly":
        for mono, c in t.args:
            for at, e in mono:
                if at.op == "ite" and has(at) and not has(at.args[0]):
                    x = incr(T.replace_atoms(t, {at: at.args[1]}), a, has)
                    y = incr(T.replace_atoms(t, {at: at.args[2]}), a, has)
                    if x is not None and y is not None:
                        return T.ite(at.args[0], x, y)
    return None


def extremum(t, a):
    """("max"|"min", g) with t = max(a, g) or min(a, g), g free of a; or None."""
    if t.op != "ite" or a not in t.args[1:]:
        return None
    g = t.args[2] if t.args[1] is a else t.args[1]
    if a in g.fv:
        return None
    for kind, want in (("max", T.and_(T.ge(t, a), T.ge(t, g))), ("min", T.and_(T.le(t, a), T.le(t, g)))):
        if smt.prove(want, []):
            return kind, g
    return None


def writes(t, a, has, cond=TRUE, out=None):
    """Decision list [(cond, value)] such that t = first matching value, else a.  None if not of this form."""
    if out is None:
        out = []
    if t is a:
        return out
    if not has(t):
        out.append((cond, t))
        return out
    if t.op == "ite" and not has(t.args[0]):
        c, x, y = t.args
        if writes(x, a, has, T.and_(cond, c), out) is None:
            return None
        if writes(y, a, has, T.and_(cond, T.not_(c)), out) is None:
            return None
        return out
    return None


def conjuncts(c):
    return list(c.args) if c.op == "and" else [c]


def solve_k(c, k):
    """Candidate iteration kappa (a term without k) selected by condition c."""
    if k not in c.fv:
        return None
    cs = conjuncts(c)
    for x in cs:
        if x.op == "eq0" and k in x.fv:
            w, e = T.solve_for(x.args[0], k)
            if w:
                return e
    for x in cs:
        if x.op == "eq0" and k in x.fv:
            e = lin_div(x.args[0], k)
            if e is not None:
                return e
    lows = []
    for x in cs:
        if x.op in ("le0", "lt0") and k in x.fv:
            p = x.args[0]
            co, rest = lin_k(p, k)
            if co is None:
                continue
            # co*k + rest <= 0
            if T.positive(co):
                r = T.neg(rest) if x.op == "le0" else T.sub(T.neg(rest), 1)
                lows.append(T.idiv(r, co))
            elif x.op == "le0" and T.cval(co) == -1:
                pass
    if lows:
        return lows[0]
    return None


def lin_k(p, k):
    """p = co*k + rest with co, rest free of k."""
    co, rest = {}, {}
    for m, c in T.polyd(p).items():
        mk = [(a, e) for a, e in m if a is k]
        if mk:
            if mk[0][1] != 1:
                return None, None
            r = tuple((a, e) for a, e in m if a is not k)
            if any(k in a.fv for a, e in r):
                return None, None
            co[r] = co.get(r, 0) + c
        else:
            if any(k in a.fv for a, e in m):
                return None, None
            rest[m] = c
    if not co:
        return None, None
    return T._mkpoly(co), T._mkpoly(rest)


def lin_div(p, k):
    co, rest = lin_k(p, k)
    if co is None:
        return None
    if T.positive(co):
        return T.idiv(T.neg(rest), co)
    if T.positive(T.neg(co)):
        return T.idiv(rest, T.neg(co))
    return None


def closed_writes(dl, k, kk, v0):
    """value after iterations 0..kk-1 of the per-iteration decision list dl over initial value v0."""
    kk = T.lift(kk)
    r = v0
    for c, v in reversed(dl):
        if k not in c.fv:
            r = T.ite(T.and_(c, T.ge(kk, 1)), at_k(v, k, T.sub(kk, 1)), r)
            continue
        e = solve_k(c, k)
        if e is None:
            return None
        cc = T.and_(at_k(c, k, e), T.ge(e, 0), T.lt(e, kk))
        r = T.ite(cc, at_k(v, k, e), r) if cc is not FALSE else r
    return r


def array_closed(ctx, post, marr, v0arr, markers, name):
    """(kind, closed) for an array whose pre-state is marker array marr and whose value after one iteration is post."""
    it, k = ctx.it, ctx.k
    I = tuple(T.fresh("i", "I", 0, d) for d in post.shape)
    t = post.at(*I)
    has = lambda x: has_marker(x, markers)
    # the closed form is stated with an iteration variable of its own: the indices it is read at may mention k
    kv = T.fresh("k", "I", 0, ctx.K)
    ren = {k: kv}
    own = (set(), {name})
    hown = lambda x: has_marker(x, own)
    a = marr.at(*I)

    def wrap(f):
        def mk(kk):
            def fn(*J):
                m = dict(zip(I, [T.lift(j) for j in J]))
                return f(kk, m, v0arr.at(*J))
            return Arr(v0arr.shape, fn, post.dtype, post.kind)
        return mk

    if not hown(t):
        if has(t):
            return None
        tv = T.subst(t, ren)
        return "lag", wrap(lambda kk, m, v: lag(kv, kk, T.subst(tv, m), v)), (I, t)
    g = incr(t, a, hown)
    if g is not None and T.lift(a).sort != "B":
        if has(g):
            return None
        gv = T.subst(g, ren)
        return "sum", wrap(lambda kk, m, v: T.add(v, sum_to(kv, kk, T.subst(gv, m)))), (I, g)
    dl = writes(t, a, hown)
    if dl is not None:
        if any(has(c) or has(v) for c, v in dl):
            return None
        if closed_writes(dl, k, T.fresh("kk", "I", 0), a) is None:
            return None

        dv = [(T.subst(c, ren), T.subst(x, ren)) for c, x in dl]

        def f(kk, m, v):
            d = [(T.subst(c, m), T.subst(x, m)) for c, x in dv]
            r = closed_writes(d, kv, kk, v)
            if r is None:
                # solved for the generic index, then instantiated
                k0, v0 = T.fresh("kk", "I", 0), T.fresh("v", "R" if T.lift(v).sort == "R" else T.lift(v).sort)
                r = closed_writes(dv, kv, k0, v0)
                if r is None:
                    raise Unsupported("position written by a loop")
                r = T.subst(r, {**m, k0: T.lift(kk), v0: T.lift(v)})
            return r
        return "writes", wrap(f), (I, dl)
    return None


def row_local(ctx, l, pa):
    """Iteration k touches nothing but row k of some axis: read row k as the initial value from now on."""
    if getattr(l, "rowlocal", None) is not None:
        return False
    I = [T.fresh("i", "I", 0, d) for d in pa.shape]
    for d in range(len(I)):
        f = T.fresh("f", "I", 1)
        if all(pa.at(*(I[:d] + [e] + I[d + 1:])) is l.marr.at(*(I[:d] + [e] + I[d + 1:])) for e in (T.add(ctx.k, f), T.sub(ctx.k, f))):
            l.rowlocal = d
            l.closed = None
            return True
    return False


def appended(l, c, base_segs):
    nb = len(base_segs)
    if len(c.segs) < nb + 1 or any(x is not y for x, y in zip(c.segs[:nb], base_segs)):
        return None
    if c.segs[nb] is not l.seg:
        return None
    return c.segs[nb + 1:]


def seg_total(segs):
    n = T.ZERO
    for s in segs:
        n = T.add(n, s.length)
    return n


def seg_get(it, segs, r):
    """Element r of concatenated segments (r within range)."""
    if len(segs) == 1:
        return segs[0].fn(r)
    return it.list_get(ListC(segs), r, checked=True)


RAG = {}


def make_list_closed(ctx, segs, base_segs, forbid=True):
    """closed(kk) -> ListC for per-iteration appended segments."""
    it, k = ctx.it, ctx.k
    m = seg_total(segs)
    name = uid("rag")

    def seg_elem(s, j, q):
        j = T.lift(j)
        if k not in j.fv:
            return it.subst_value(s.fn(j), {k: q})
        jv = T.fresh("j", "I", 0)
        return it.subst_value(s.fn(jv), {k: q, jv: j})

    def elem(i, kk):
        if k not in m.fv:
            if m is T.ONE:
                q, r = T.lift(i), T.ZERO
            else:
                q, r = T.idivmod(T.lift(i), m)
        else:
            q = rag_row(name, T.lift(i))
            r = T.sub(T.lift(i), sum_to(k, q, m))
        s2 = [Seg(value=it.subst_value(s.value, {k: q})) if s.single else Seg(at_k(T.lift(s.length), k, q), (lambda s: lambda j: seg_elem(s, j, q))(s)) for s in segs]
        return seg_get(it, s2, r)

    RAG[name] = (k, m)

    def closed(kk):
        n = sum_to(k, kk, m)
        if norm_dim(n) == 0:
            return ListC(base_segs)
        return ListC(tuple(base_segs) + (Seg(n, lambda i: elem(i, kk)),))

    return closed, m


def rag_row(name, i):
    """The row q with off(q) <= i < off(q+1), off(q) = sum_{j<q} m(j); also a function of the other variables of m."""
    k, m = RAG[name]
    others = tuple(sorted((v for v in m.fv if v is not k), key=T.show))

    def known(args):
        # recognise i = off(q) + p with 0 <= p < m(q)
        i, w = args[0], T.subst(m, dict(zip(others, args[1:])))
        for cand in rag_candidates(i, k, w):
            p = T.sub(i, sum_to(k, cand, w))
            if T.nonneg(p) and T.lt(p, at_k(w, k, cand)) is TRUE:
                return cand
        return None
    T.SMART[name] = known
    return T.app(name, (i,) + others, "I")


def rag_candidates(i, k, m):
    out = []
    for mono, c in T.polyd(i).items():
        for a, e in mono:
            if a.op == "sum" and a.args[0] == "sum":
                out.append(a.args[1])
    out.append(T.ZERO)
    for v in i.fv:
        if v.sort == "I" and v not in out:
            out.append(v)
    return out


def resolve(ctx, l, post, markers):
    """Try to find the closed form of l from the state after one iteration; True if resolved."""
    it, k, K = ctx.it, ctx.k, ctx.K
    pv = get_part(post.heap, l.oid, l.part)
    has = lambda t: has_marker(t, markers)
    saved = it.heap
    it.heap = post.heap
    try:
        if l.mode == "scalar":
            if isinstance(pv, (Poison,)) or not _isnum(pv):
                make_poison(ctx, l)
                return True
            t = T.lift(pv)
            if l.info == "I" and t.sort == "R":
                l.info, l.marker = "R", None
                l.closed = None
                return True
            mk = l.marker
            v0 = T.lift(l.v0)
            if mk not in t.fv:
                if has(t):
                    return False
                l.closed = lambda kk: lag(k, kk, t, v0)
                l.kind, l.data = "lag", t
                return True
            if t is mk:
                l.closed = lambda kk: v0
                l.kind, l.data = "const", None
                return True
            own = lambda x: mk in x.fv
            if l.info == "B":
                # m or c / m and c
                if not has_marker(t, marker_minus(markers, mk)):
                    c0, c1 = T.subst(t, {mk: FALSE}), T.subst(t, {mk: TRUE})
                    if c1 is TRUE:
                        l.closed = lambda kk: T.or_(v0, red_to("any", k, kk, c0))
                        l.kind, l.data = "any", c0
                        return True
                    if c0 is FALSE:
                        l.closed = lambda kk: T.and_(v0, red_to("all", k, kk, c1))
                        l.kind, l.data = "all", c1
                        return True
                return False
            g = incr(t, mk, own)
            if g is not None:
                if has(g):
                    return False
                l.closed = lambda kk: T.add(v0, sum_to(k, kk, g))
                l.kind, l.data = "sum", g
                return True
            r = extremum(t, mk)
            if r is not None and not has_marker(r[1], markers):
                kd, g = r
                pick = (lambda a, b: T.ite(T.le(a, b), b, a)) if kd == "max" else (lambda a, b: T.ite(T.le(a, b), a, b))
                l.closed = lambda kk: T.ite(T.le(T.lift(kk), 0), v0, pick(v0, red_to(kd, k, kk, g)))
                l.kind, l.data = kd, (g, pick)
                return True
            return False
        if l.mode == "ghost":
            return GHOST.resolve(ctx, l, pv, lambda t: has_marker(t, marker_minus(markers, l.marker)))
        if l.mode == "carr":
            pa = pv.arr
            if len(pa.shape) != len(l.marr.shape):
                raise Unsupported("array shape changes in a loop")
            v0arr = l.v0.arr
            r = array_closed(ctx, pa, l.marr, v0arr, markers, l.marker)
            if r is None:
                return row_local(ctx, l, pa)
            l.kind, f, l.data = r
            l.closed = lambda kk: ArrC(f(kk))
            return True
        if l.mode == "varr":
            pa = it.as_arr_or_none(pv) if not isinstance(pv, Poison) else None
            if pa is None:
                raise Unsupported(f"loop-carried array {l.part} becomes something else")
            ma = l.marr
            if pa.ndim != ma.ndim:
                raise Unsupported("array rank changes in a loop")
            if FOLD is not None and pa.kind == "tf" and pa.ndim == 2 and not l.info["py"]:
                e = pa.at(T.fresh("i", "I", 0), T.fresh("j", "I", 0))
                own = (set(), {l.marker})
                if T.mentions(e, lambda a: a.op == "app" and a.args[0] == "el" and has_marker(a, own)):
                    l.mode, l.marker, l.closed = "fold", None, None
                    return True
            if l.info.get("dtype") is None and pa.dtype != ma.dtype:
                l.info["dtype"] = pa.dtype
                return True
            if l.info["grow"] is None:
                ds = [d for d in range(pa.ndim) if not it.same_dim(pa.shape[d], ma.shape[d])]
                if ds:
                    if len(ds) > 1:
                        raise Unsupported("array grows along several axes")
                    l.info["grow"] = ds[0]
                    return True
                r = array_closed(ctx, pa, ma, l.info["arr"], markers, l.marker)
                if r is None:
                    return False
                l.kind, f, l.data = r
                py = isinstance(pv, Ref)
                l.closed = (lambda kk: it.alloc(ArrC(f(kk)))) if py else f
                return True
            return resolve_grow(ctx, l, pa, pv, markers)
        if l.mode == "fold":
            if not isinstance(pv, Arr):
                raise Unsupported("loop-carried tensor becomes something else")
            r = FOLD(ctx, l, pv)
            if r is None:
                return True
            _, f, l.data = r
            if any(has_marker(x, marker_minus(markers, l.marker)) for x in l.data):
                return False
            if l.info["foldw"] in l.data[1].fv:
                raise Unsupported("tensor width carried through a loop")
            l.kind, l.closed = "fold", f
            return True
        if l.mode in ("clist", "vlist"):
            if l.mode == "vlist":
                if not isinstance(pv, Ref) or not isinstance(post.heap[pv.oid], ListC):
                    raise Unsupported("loop-carried list becomes something else")
                c = post.heap[pv.oid]
                bs = ctx.base.heap[l.v0.oid].segs
            else:
                c, bs = pv, l.v0.segs
            ap = appended(l, c, bs)
            if ap is None:
                raise Unsupported("list modified other than by appending")
            m = seg_total(ap)
            guess = getattr(l, "guess", None)
            if guess is not None and T.eq(guess, m) is not TRUE:
                l.guess = None
                return True
            if has(m):
                return False
            cl, m = make_list_closed(ctx, ap, bs)
            l.kind, l.data = "append", m
            l.bs = bs

            def closed(kk):
                lc = cl(kk)

                def fn(i):
                    raise Unsupported("element of a list under construction")
                if len(lc.segs) > len(bs):
                    seg = Seg(lc.segs[-1].length, fn)
                else:
                    seg = Seg(T.ZERO, fn)
                l.seg = seg
                lc = ListC(tuple(bs) + (seg,))
                return lc if l.mode == "clist" else it.alloc(lc)
            l.closed = closed
            return True
        if l.mode == "overlay":
            seen = {ov.attr for ov in pv[len(l.v0):]}
            l.closed = lambda kk: l.v0
            l.kind = l.mode
            if not seen <= l.ovattrs:
                l.ovattrs |= seen
                l.closed = None
            return True
        if l.mode == "listset":
            n0 = l.v0.segs[0].length

            def element(j):
                raise Unsupported("element of a list assigned in a loop")
            l.closed = lambda kk: ListC([Seg(n0, element)])
            l.kind = l.mode
            return True
        if l.mode == "symdict":
            # earlier iterations have assigned other entries: only entry k is known to be the initial one
            v0 = l.v0

            def entry(j):
                if T.lift(j) is not k:
                    raise Unsupported("entry of a dictionary assigned in a loop")
                return v0.valfn(j)
            l.closed = lambda kk: SymDictC(v0.n, v0.keyfn, entry, v0.name)
            l.kind = l.mode
            return True
    finally:
        it.heap = saved
    raise Unsupported(f"loop location {l.mode}")


def marker_minus(markers, m):
    return (markers[0] - {m}, markers[1])


def red_to(kind, k, kk, g):
    v = T.fresh("j", "I", 0, kk)
    return T.red(kind, v, kk, T.subst(g, {k: v}))


def resolve_grow(ctx, l, pa, pv, markers):
    it, k = ctx.it, ctx.k
    ax = l.info["grow"]
    L = l.info["L"]
    a0 = l.info["arr"]
    m = T.sub(T.lift(pa.shape[ax]), L)
    if has_marker(m, markers):
        return False
    J = [T.fresh("i", "I", 0, d) if d_ != ax else None for d_, d in enumerate(pa.shape)]
    # old part unchanged
    io = T.fresh("i", "I", 0, L)
    Jo = [io if x is None else x for x in J]
    prefix = T.subst(pa.at(*Jo), {}) is l.marr.at(*Jo)
    suffix_first = False
    if not prefix:
        r = smt.prove(T.eq(pa.at(*Jo), l.marr.at(*Jo)), it.pc)
        if not r:
            raise Unsupported("array grows other than by appending")
    p = T.fresh("p", "I", 0, m)
    Jn = [T.add(L, p) if x is None else x for x in J]
    t = pa.at(*Jn)
    if has_marker(t, markers):
        t2 = simplify_assuming(t, it.pc)
        if has_marker(t2, markers):
            return False
        t = t2
    n0 = T.lift(a0.shape[ax])
    name = uid("rag")
    RAG[name] = (k, m)
    py = isinstance(pv, Ref)

    def arr_at(kk):
        shape = list(pa.shape)
        shape[ax] = norm_dim(T.add(n0, sum_to(k, kk, m)))

        def fn(*I):
            i = T.sub(I[ax], n0)
            if k not in m.fv:
                q, r = (i, T.ZERO) if m is T.ONE else T.idivmod(i, m)
            else:
                q = rag_row(name, i)
                r = T.sub(i, sum_to(k, q, m))
            sub = {k: q, p: r}
            for x, y in zip(J, I):
                if x is not None:
                    sub[x] = T.lift(y)
            new = T.subst(t, sub)
            c = T.lt(I[ax], n0)
            if c is FALSE or T.cval(n0) == 0:
                return new
            return T.ite(c, a0.at(*I), new)
        return Arr(tuple(shape), fn, pa.dtype, pa.kind)
    l.kind, l.data = "grow", (m, t, p, J)
    l.closed = (lambda kk: it.alloc(ArrC(arr_at(kk)))) if py else arr_at
    return True


def simplify_assuming(t, pc):
    for _ in range(20):
        c = smt.find_ite(t)
        if c is None:
            return t
        if smt.entails(pc, c):
            t = smt.assume_in(t, c, True)
        elif smt.entails(pc, T.not_(c)):
            t = smt.assume_in(t, c, False)
        else:
            return t
    return t


def oblige(it, goal, line, what):
    goal = T.lift(goal)
    if goal is TRUE:
        it.loop_obligations.append((f"loop@{line}:{what}", TRUE, []))
        return
    # discharged when the section ends; obligations of superseded rounds are dropped
    it.loop_obligations.append((f"loop@{line}:{what}", goal, list(it.pc)))


def beq(a, b):
    return T.iff(a, b) if a.sort == "B" else T.eq(a, b)


def decide(dl, v):
    r = v
    for c, x in reversed(dl):
        r = T.ite(c, x, r)
    return r


def check_writes(it, k, I, dl, sort, line, what):
    """The closed form of a sequence of writes is inductive, for arbitrary written values."""
    srt = "R"
    dv = [(c, T.rawapp(f"written{j}", (k,) + tuple(I), srt)) for j, (c, v) in enumerate(dl)]
    v0 = T.rawapp("initial", tuple(I), srt)
    ck = closed_writes(dv, k, k, v0)
    ck1 = closed_writes(dv, k, T.add(k, 1), v0)
    oblige(it, T.eq(decide(dv, ck), ck1), line, what + ".writes")


def arr_eq_goal(a, b):
    I = tuple(T.fresh("i", "I", 0, d) for d in a.shape)
    return T.eq(a.at(*I), b.at(*I)), I


def finish(ctx, post, raises, log0, line):
    it, k, K, base = ctx.it, ctx.k, ctx.K, ctx.base
    k1 = T.add(k, 1)
    finals = []
    # ---- inductive checks (in the post state of the generic iteration)
    it.heap = dict(post.heap)
    it.pc = list(post.pc)
    extra_alloc = None
    for l in ctx.locs.values():
        pv = get_part(post.heap, l.oid, l.part)
        what = str(l.part[-1])
        if l.mode == "poison":
            finals.append((l, "last", pv))
            continue
        if l.mode == "ghost":
            GHOST.check(ctx, l, pv, oblige, line, "dictionary")
            finals.append((l, "ghost", None))
            continue
        if l.mode == "scalar":
            if not _isnum(pv):
                raise Unsupported("loop-carried scalar becomes something else")
            t, c0 = T.lift(pv), T.lift(l.closed(k))
            if l.kind == "sum":
                oblige(it, T.eq(t, T.add(c0, l.data)), line, what)
            elif l.kind in ("max", "min"):
                g, pick = l.data
                oblige(it, T.eq(t, pick(c0, g)), line, what)
            elif l.kind == "any":
                oblige(it, T.iff(t, T.or_(c0, l.data)), line, what)
            elif l.kind == "all":
                oblige(it, T.iff(t, T.and_(c0, l.data)), line, what)
            elif t.sort == "B":
                oblige(it, T.iff(t, T.lift(l.closed(k1))), line, what)
            else:
                oblige(it, T.eq(t, T.lift(l.closed(k1))), line, what)
            finals.append((l, "value", None))
            continue
        if l.mode in ("carr", "varr"):
            pa = pv.arr if l.mode == "carr" else it.arr(pv)
            get = lambda x: x.arr if isinstance(x, ArrC) else it.arr(x)
            if l.kind == "grow":
                a0, a1 = get(l.closed(k)), get(l.closed(k1))
                oblige(it, T.and_(*[T.eq(T.lift(x), T.lift(y)) for x, y in zip(pa.shape, a1.shape)]), line, what + ".shape")
                m, t, p, J = l.data
                ax = l.info["grow"]
                n = a0.shape[ax]
                io = T.fresh("i", "I", 0, n)
                I = [io if x is None else x for x in J]
                oblige(it, T.eq(pa.at(*I), a0.at(*I)), line, what + ".prefix")
                I = [T.add(n, p) if x is None else x for x in J]
                oblige(it, T.eq(pa.at(*I), t), line, what + ".rows")
            elif l.kind == "sum":
                I, g = l.data
                a0 = get(l.closed(k))
                oblige(it, T.eq(pa.at(*I), T.add(a0.at(*I), g)), line, what)
            elif l.kind == "writes":
                I, dl = l.data
                c0 = get(l.closed(k)).at(*I)
                oblige(it, beq(pa.at(*I), decide(dl, c0)), line, what + ".step")
                if line or True:
                    check_writes(it, k, I, dl, c0.sort, line, what)
            else:
                a1 = get(l.closed(k1))
                g, I = arr_eq_goal(pa, a1)
                if pa.dtype == "bool":
                    g = T.iff(pa.at(*I), a1.at(*I))
                oblige(it, g, line, what)
            finals.append((l, "value", None))
            continue
        if l.mode == "fold":
            # x_{k+1} = t(k, x_k) defines the sequence; nothing to prove
            finals.append((l, "value", None))
            continue
        if l.mode in ("clist", "vlist"):
            c = pv if l.mode == "clist" else post.heap[pv.oid]
            ap = appended(l, c, l.bs)
            if ap is None:
                raise Unsupported("list modified other than by appending")
            oblige(it, T.eq(seg_total(ap), l.data), line, what + ".length")
            finals.append((l, "list", ap))
            continue
        if l.mode == "overlay":
            ovs = pv[len(l.v0):]
            if any(x is not y for x, y in zip(pv, l.v0)):
                raise Unsupported("overlay")
            finals.append((l, "overlay", ovs))
            continue
        if l.mode == "listset":
            finals.append((l, "listset", pv))
            continue
        if l.mode == "symdict":
            finals.append((l, "symdict", pv))
            continue
        raise Unsupported(l.mode)
    # ---- result state
    heap = dict(post.heap)
    for oid, c in base.heap.items():
        heap[oid] = c
    # objects not modified keep the base content; modified ones get closed forms below
    it.heap = heap
    it.pc = list(base.pc)
    it.log = base.log
    new_entries = post.log[len(log0):]
    if new_entries:
        it.log = base.log + (("for", k, K, new_entries),)
    kge = T.ge(K, 1)
    kpos = kge is TRUE or it.truth(kge) is True
    for l, how, x in finals:
        if how == "last":
            if _same(x, l.v0):
                continue
            make = (lambda x: lambda: it.subst_value(x, {k: T.sub(K, 1)}))(x)
            if kpos:
                v = make()
            else:
                v = LastValue(None if l.v0 is MISSING else l.v0, K, make)
            set_part(it, l.oid, l.part, v)
        elif how == "ghost":
            set_part(it, l.oid, l.part, GHOST.final(ctx, l, K))
        elif how == "value":
            set_part(it, l.oid, l.part, l.closed(K))
        elif how == "list":
            cl, m = make_list_closed(ctx, x, l.bs)
            lc = cl(K)
            set_part(it, l.oid, l.part, lc if l.mode == "clist" else it.alloc(lc))
        elif how == "overlay":
            from .interp import Overlay
            out = []
            for ov in x:
                if ov.var is not None:
                    out.append(ov)
                    continue
                env = []
                var = None
                for pv_, t in ov.env:
                    if t is k:
                        env.append((pv_, k))
                        var = k
                    else:
                        if k in T.lift(t).fv:
                            raise Unsupported("overlay index")
                        env.append((pv_, t))
                if var is None:
                    raise Unsupported("attribute of one family member assigned in a loop")
                out.append(Overlay(tuple(env), ov.attr, ov.value, k, K))
            set_part(it, l.oid, l.part, l.v0 + tuple(out))
        elif how == "listset":
            ass = x.segs[0].assigned if len(x.segs) == 1 else None
            if ass is None or ass[0] is not k or T.eq(T.lift(x.segs[0].length), K) is not TRUE or ass[2].assigned is not None:
                raise Unsupported("partial assignment of a list in a loop")
            set_part(it, l.oid, l.part, ListC([Seg(K, (lambda v: lambda j: it.subst_value(v, {k: T.lift(j)}))(ass[1]))]))
        elif how == "symdict":
            if x.assigned is None:
                raise Unsupported("symbolic dictionary")
            idx, v, old = x.assigned
            if idx is not k:
                raise Unsupported("symbolic dictionary index")
            if T.eq(T.lift(x.n), K) is not TRUE:
                raise Unsupported("partial update of a symbolic dictionary")
            set_part(it, l.oid, l.part, SymDictC(x.n, x.keyfn, (lambda v: lambda j: it.subst_value(v, {k: T.lift(j)}))(v), x.name))
    if raises:
        i = it.choose(1 + len(raises))
        if i:
            o = raises[i - 1]
            it.restore(o.state)
            raise o.exc
