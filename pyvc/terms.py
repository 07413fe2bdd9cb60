"""Hash-consed first-order terms over mathematical integers, reals, booleans and an opaque sort.

Numeric terms are kept in polynomial normal form over *atoms* (variables, applications,
if-then-else, div/mod, inverses, bounded sums), with sums distributed over addition and factors
independent of the summation index pulled out.  Two numeric terms that are equal by commutative ring
laws, linearity of finite sums and renaming of summation indices are therefore the same object.
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class Term:
    __slots__ = ("op", "args", "sort", "id", "fv", "height", "lo", "hi", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    # never let python silently take a symbolic truth value
    def __bool__(self):
        raise TypeError("truth value of a symbolic term")


EMPTY = frozenset()


def _mk(op, args, sort, fv=None, height=0, key=None):
    k = (op, args, sort) if key is None else key
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t.lo = t.hi = None
        if fv is None:
            s = set()
            h = 0
            for a in args:
                if isinstance(a, Term):
                    s |= a.fv
                    h = max(h, a.height)
            t.fv, t.height = frozenset(s), h
        else:
            t.fv, t.height = fv, height
        _table[k] = t
    return t


_cnt = itertools.count()


def var(name, sort, lo=None, hi=None):
    """A named variable; lo (inclusive) / hi (exclusive) are bounds assumed wherever it occurs."""
    t = _mk("var", (name,), sort, fv=EMPTY)
    if not t.fv:
        t.fv = frozenset((t,))
    if lo is not None:
        t.lo = lift(lo)
    if hi is not None:
        t.hi = lift(hi)
    return t


def fresh(prefix, sort="I", lo=None, hi=None):
    return var(f"{prefix}!{next(_cnt)}", sort, lo, hi)


def bv(h):
    t = _mk("bv", (h,), "I", fv=EMPTY, height=h)
    return t


# ---------------------------------------------------------------- numeric polynomials
# poly args: tuple of (monomial, coef); monomial: tuple of (atom, exp) sorted by atom id.

def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    args = tuple(items)
    key = ("poly", tuple((tuple((a.id, e) for a, e in m), c) for m, c in items))
    t = _table.get(key)
    if t is not None:
        return t
    fv = set()
    h = 0
    integer = True
    for m, c in items:
        if c.denominator != 1:
            integer = False
        for a, e in m:
            fv |= a.fv
            h = max(h, a.height)
            if a.sort != "I" or e < 0:
                integer = False
    return _mk("poly", args, "I" if integer else "R", fv=frozenset(fv), height=h, key=key)


def const(c):
    return _mkpoly({(): Fraction(c)})


ZERO = const(0)
ONE = const(1)


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(str(x)))
    if isinstance(x, str):
        return strc(x)
    raise TypeError(f"cannot lift {type(x).__name__}")


def polyd(t):
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def is_const(t):
    return t.op == "poly" and (not t.args or (len(t.args) == 1 and not t.args[0][0]))


def cval(t):
    """Fraction value of a constant numeric term, else None."""
    if t.op == "poly":
        if not t.args:
            return Fraction(0)
        if len(t.args) == 1 and not t.args[0][0]:
            return t.args[0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        t = lift(t)
        for m, c in polyd(t).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def scale(c, t):
    c = Fraction(c)
    return _mkpoly({m: c * k for m, k in polyd(lift(t)).items()})


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(lift(b)))


def _mulmono(m1, m2):
    """Product of two monomials -> (monomial, extra list of terms to multiply in)."""
    e = {}
    for a, k in m1:
        e[a] = e.get(a, 0) + k
    for a, k in m2:
        e[a] = e.get(a, 0) + k
    extra = []
    out = []
    for a, k in e.items():
        if k == 0:
            continue
        if a.op == "app" and a.args[0] == "sqrt" and (k >= 2 or k <= -2):
            q = int(k / 2)
            extra.append((a.args[1], q))
            k -= 2 * q
            if k == 0:
                continue
        elif a.op == "app" and a.args[0] in ("abs", "sgn") and k >= 2:
            q = k // 2
            if a.args[0] == "abs":
                extra.append((a.args[1], 2 * q))
            k -= 2 * q
            if k == 0:
                continue
        out.append((a, k))
    out.sort(key=lambda ak: ak[0].id)
    return tuple(out), extra


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        d = polyd(lift(t))
        n = {}
        slow = []
        for m1, c1 in r.items():
            for m2, c2 in d.items():
                m, extra = _mulmono(m1, m2) if m1 and m2 else ((m1 or m2), [])
                if extra:
                    slow.append((m, c1 * c2, extra))
                else:
                    n[m] = n.get(m, 0) + c1 * c2
        if slow:
            acc = _mkpoly(n)
            for m, c, extra in slow:
                x = _mkpoly({m: c})
                for b, q in extra:
                    x = mul(x, power(b, q))
                acc = add(acc, x)
            n = polyd(acc)
        r = n
    return _mkpoly(r)


def power(t, n):
    t = lift(t)
    if n < 0:
        return inv(power(t, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def inv(t):
    t = lift(t)
    c = cval(t)
    if c is not None:
        if c == 0:
            return app("div0", (), "R")
        return const(1 / c)
    items = t.args if t.op == "poly" else ((((t, 1),), Fraction(1)),)
    if len(items) == 1:
        m, c = items[0]
        out = {}
        for a, e in m:
            if a.op == "inv":
                pass
            out[a] = -e
        mono = tuple(sorted(((a, e) for a, e in out.items() if a.op != "inv"), key=lambda ak: ak[0].id))
        res = _mkpoly({mono: 1 / c})
        for a, e in m:
            if a.op == "inv":
                res = mul(res, power(a.args[0], e))
        return res
    # extract the monomial gcd and the leading coefficient
    common = None
    for m, c in items:
        d = dict(m)
        common = d if common is None else {a: min(e, d.get(a, 0)) for a, e in common.items() if a in d}
        common = {a: e for a, e in common.items() if e > 0}
    lead = items[0][1]
    g = tuple(sorted(((a, e) for a, e in (common or {}).items()), key=lambda ak: ak[0].id))
    ginv = tuple((a, -e) for a, e in g)
    p = {}
    for m, c in items:
        mm, _ = _mulmono(m, ginv) if g else (m, None)
        p[mm] = c / lead
    body = _mkpoly(p)
    atom = _mk("inv", (body,), "R")
    return mul(const(1 / lead), _mkpoly({ginv: Fraction(1)}), atom)


def div(a, b):
    return mul(a, inv(b))


# ---------------------------------------------------------------- booleans
def _b(op, args, **k):
    return _mk(op, args, "B", **k)


TRUE = _b("true", ())
FALSE = _b("false", ())


def _canon_sign(p):
    return p


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort in "IR" and b.sort in "IR":
        d = sub(a, b)
        c = cval(d)
        if c is not None:
            return TRUE if c == 0 else FALSE
        items = d.args if d.op == "poly" else ((((d, 1),), Fraction(1)),)
        lead = items[0][1]
        if d.sort == "I":
            # integer: make coefficients coprime, check divisibility
            from math import gcd
            g = 0
            for m, c in items:
                if m:
                    g = gcd(g, int(c))
            c0 = dict(items).get((), Fraction(0))
            if g and int(c0) % g:
                return FALSE
            d = scale(Fraction(1 if lead > 0 else -1, g or 1), d)
            lo, hi = _bound_sign(d)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return FALSE
        else:
            d = scale(1 / lead, d)
        return _b("eq0", (d,))
    if a.sort == "B" or b.sort == "B":
        if a.sort == b.sort:
            return iff(a, b)
        raise TypeError("eq on bool and non-bool")
    if a.sort != b.sort:
        return FALSE
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _b("equ", (a, b))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return and_(or_(not_(a), b), or_(not_(b), a))


def _bound_sign(t):
    """Cheap sign info of a polynomial from variable bounds: returns (lower, upper) Fractions or None."""
    lo = hi = Fraction(0)
    items = t.args if t.op == "poly" else ((((t, 1),), Fraction(1)),)
    for m, c in items:
        l, h = _mono_bounds(m)
        if c < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + c * l
        hi = None if (hi is None or h is None) else hi + c * h
        if lo is None and hi is None:
            return None, None
    return lo, hi


def _atom_bounds(a, depth=0):
    lo = hi = None
    if a.op == "var":
        if a.lo is not None:
            lo = cval(a.lo)
            if lo is None and depth < 4:
                lo = _bound_sign(a.lo)[0]
        if a.hi is not None:
            h = cval(a.hi)
            if h is None and depth < 4:
                h = _bound_sign(a.hi)[1]
            if h is not None:
                hi = h - 1 if a.sort == "I" else h
    elif a.op == "app":
        f = a.args[0]
        if f in NONNEG:
            lo = Fraction(0)
        elif f in POSITIVE:
            lo = Fraction(1)
        elif f == "sgn":
            lo, hi = Fraction(-1), Fraction(1)
        elif f in APP_BOUNDS:
            lo, hi = APP_BOUNDS[f](a)
    elif a.op == "mod":
        lo = Fraction(0)
        c = cval(a.args[1])
        if c is not None and c > 0:
            hi = c - 1
    elif a.op == "idiv":
        l, _ = _bound_sign(a.args[0])
        lb, _ = _bound_sign(a.args[1])
        if l is not None and l >= 0 and lb is not None and lb > 0:
            lo = Fraction(0)
    elif a.op == "ite":
        l1, h1 = _bound_sign(a.args[1])
        l2, h2 = _bound_sign(a.args[2])
        lo = None if l1 is None or l2 is None else min(l1, l2)
        hi = None if h1 is None or h2 is None else max(h1, h2)
    elif a.op == "sum":
        l, _ = _bound_sign(a.args[2]) if a.args[0] == "sum" else (None, None)
        if l is not None and l >= 0 or a.args[0] == "first":
            lo = Fraction(0)
    return lo, hi


NONNEG = {"abs", "sqrt"}
POSITIVE = {"pow2"}
APP_BOUNDS = {}


def _mono_bounds(m):
    lo, hi = Fraction(1), Fraction(1)
    for a, e in m:
        if e < 0:
            l, h = _atom_bounds(a)
            if l is not None and l > 0:
                lo, hi = (Fraction(0) if lo is not None and lo >= 0 else None), None
                continue
            return None, None
        l, h = _atom_bounds(a)
        if e % 2 == 0 and (l is None or l < 0):
            l, h = Fraction(0), None
        elif l is not None and l >= 0:
            l = l ** e
            h = None if h is None else h ** e
        elif e != 1:
            return None, None
        if lo is not None and lo >= 0 and l is not None and l >= 0:
            lo = lo * l
            hi = None if hi is None or h is None else hi * h
        elif None not in (lo, hi, l, h):
            c = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(c), max(c)
        else:
            return None, None
    return lo, hi


def _elim_upper(p, depth=6):
    """Try to show p <= 0 by replacing bounded index variables by their extreme values."""
    lo, hi = _bound_sign(p)
    if hi is not None and hi <= 0:
        return True
    if depth == 0:
        return False
    # choose a var with a non-constant bound, linear occurrence with single sign
    for v in sorted(p.fv, key=lambda x: -x.id):
        if v.sort != "I":
            continue
        pos, negs, ok = False, False, True
        for m, c in polyd(p).items():
            for a, e in m:
                if v in a.fv and a is not v:
                    ok = False
                if a is v and e != 1:
                    ok = False
        if not ok:
            continue
        # coefficient polynomial of v
        co = {}
        for m, c in polyd(p).items():
            if any(a is v for a, e in m):
                co[tuple((a, e) for a, e in m if a is not v)] = c
        if not co:
            continue
        cp = _mkpoly(co)
        l, h = _bound_sign(cp)
        if l is not None and l >= 0 and v.hi is not None:
            q = subst(p, {v: sub(v.hi, ONE)})
            if _elim_upper(q, depth - 1):
                return True
        elif h is not None and h <= 0 and v.lo is not None and not is_const(v.lo):
            q = subst(p, {v: v.lo})
            if _elim_upper(q, depth - 1):
                return True
    return False


_le_memo = {}


def known_le0(p):
    """True when p <= 0 follows from declared variable bounds by simple elimination."""
    r = _le_memo.get(p)
    if r is None:
        r = _elim_upper(p)
        _le_memo[p] = r
    return r


def le0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    lo, hi = _bound_sign(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    if p.sort == "I":
        if known_le0(p):
            return TRUE
        if known_le0(sub(ONE, p)):
            return FALSE
        from math import gcd
        g = 0
        for m, c in polyd(p).items():
            if m:
                g = gcd(g, int(c))
        if g > 1:
            d = polyd(p)
            c0 = d.pop((), Fraction(0))
            q = {m: c / g for m, c in d.items()}
            import math
            q[()] = Fraction(math.ceil(c0 / g))
            p = _mkpoly(q)
    else:
        lead = p.args[0][1] if p.op == "poly" else Fraction(1)
        p = scale(1 / abs(lead), p)
    return _b("le0", (p,))


def lt0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c < 0 else FALSE
    if p.sort == "I":
        return le0(add(p, ONE))
    lo, hi = _bound_sign(p)
    if hi is not None and hi < 0:
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    lead = p.args[0][1] if p.op == "poly" else Fraction(1)
    p = scale(1 / abs(lead), p)
    return _b("lt0", (p,))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return lt0(neg(a.args[0]))
    if a.op == "lt0":
        return le0(neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return _b("not", (a,))


def and_(*ts):
    s = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for x in (t.args if t.op == "and" else (t,)):
            if x not in s:
                s.append(x)
    for x in s:
        if x.op not in ("and",) and not_simple(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return _b("and", tuple(s))


def not_simple(x):
    return not_(x) if x.op != "or" else None


def or_(*ts):
    s = []
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        for x in (t.args if t.op == "or" else (t,)):
            if x not in s:
                s.append(x)
    for x in s:
        if x.op != "and" and not_(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return _b("or", tuple(s))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # an if-then-else nested under the same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "eq0" and a.sort in "IR":
        # under v = e the then-branch may be rewritten; keep simple: equal after substitution -> else branch
        v, e = solve_var(c.args[0])
        if v is not None and (subst(b, {v: e}) is subst(a, {v: e})):
            return b
    sort = a.sort if a.sort == b.sort else "R"
    return _mk("ite", (c, a, b), sort)


def solve_var(p):
    """p = 0  ->  (v, e) with v not in e and v having coefficient +-1, else (None, None)."""
    d = polyd(p)
    best = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "var":
            v = m[0][0]
            rest = {mm: cc for mm, cc in d.items() if mm != m}
            if all(v not in a.fv for mm in rest for a, e in mm):
                if best is None or v.id > best[0].id:
                    best = (v, scale(-1 / c, _mkpoly(rest)))
    return best or (None, None)


# ---------------------------------------------------------------- applications, strings
def strc(s):
    return _mk("str", (s,), "U")


SMART = {}


def app(f, args, sort):
    args = tuple(lift(a) for a in args)
    if f in SMART:
        r = SMART[f](args)
        if r is not None:
            return r
    return _mk("app", (f,) + args, sort)


def rawapp(f, args, sort):
    return _mk("app", (f,) + tuple(lift(a) for a in args), sort)


def _frac_sqrt(c):
    from math import isqrt
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def nonneg(t):
    lo, _ = _bound_sign(t)
    return lo is not None and lo >= 0


def positive(t):
    lo, _ = _bound_sign(t)
    return lo is not None and lo > 0


def _s_sqrt(args):
    (t,) = args
    c = cval(t)
    if c is not None:
        r = _frac_sqrt(c)
        return const(r) if r is not None else None
    items = t.args if t.op == "poly" else ((((t, 1),), Fraction(1)),)
    if len(items) == 1:
        m, c = items[0]
        r = _frac_sqrt(c)
        if r is not None and all(e % 2 == 0 for a, e in m):
            res = const(r)
            for a, e in m:
                b = a
                if (e // 2) % 2 and not nonneg(a):
                    b = absv(a)
                res = mul(res, power(b, e // 2))
            return res
    return None


def absv(t):
    t = lift(t)
    c = cval(t)
    if c is not None:
        return const(abs(c))
    if nonneg(t):
        return t
    items = t.args if t.op == "poly" else ((((t, 1),), Fraction(1)),)
    lead = items[0][1]
    if lead < 0:
        t = neg(t)
        if nonneg(t):
            return t
    if len(items) == 1 and abs(lead) != 1:
        return scale(abs(lead), absv(scale(1 / abs(lead), t)))
    return rawapp("abs", (t,), t.sort)


SMART["sqrt"] = _s_sqrt
SMART["abs"] = lambda args: absv(args[0])


def sqrt(t):
    return app("sqrt", (lift(t),), "R")


def _s_sgn(args):
    """sgn(n) = (-1)^n for an integer n."""
    (n,) = args
    d = polyd(n)
    c = d.get((), Fraction(0))
    rest = {}
    for m, k in d.items():
        if m and int(k) % 2:
            rest[m] = Fraction(1)
    s = -1 if int(c) % 2 else 1
    if not rest:
        return const(s)
    return scale(s, rawapp("sgn", (_mkpoly(rest),), "I"))


SMART["sgn"] = _s_sgn


# ---------------------------------------------------------------- integer division
def _split_div(a, b):
    """a = b*q + r by monomial division (b a single monomial)."""
    items = b.args if b.op == "poly" else ((((b, 1),), Fraction(1)),)
    if len(items) != 1:
        return None
    mb, cb = items[0]
    db = dict(mb)
    q, r = {}, {}
    for m, c in polyd(a).items():
        d = dict(m)
        if all(d.get(x, 0) >= e for x, e in db.items()) and (c / cb).denominator == 1:
            for x, e in db.items():
                d[x] -= e
            mm = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda ak: ak[0].id))
            q[mm] = q.get(mm, 0) + c / cb
        elif not mb and c.denominator == 1 and cb.denominator == 1:
            # constant divisor: split the coefficient
            k = c.numerator // cb.numerator
            if k and not m:
                q[m] = q.get(m, 0) + Fraction(k)
                r[m] = r.get(m, 0) + c - k * cb
            else:
                r[m] = r.get(m, 0) + c
        else:
            r[m] = r.get(m, 0) + c
    return _mkpoly(q), _mkpoly(r)


def idivmod(a, b):
    a, b = lift(a), lift(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        q = ca.numerator // cb.numerator if ca.denominator == cb.denominator == 1 else (ca / cb).__floor__()
        return const(q), const(ca - cb * q)
    if cb == 1 and a.sort == "I":
        return a, ZERO
    if a.sort == "I" and b.sort == "I":
        # divide an if-then-else numerator branch-wise
        if a.op == "ite":
            q1, r1 = idivmod(a.args[1], b)
            q2, r2 = idivmod(a.args[2], b)
            return ite(a.args[0], q1, q2), ite(a.args[0], r1, r2)
        s = _split_div(a, b)
        if s is not None:
            q, r = s
            if r is ZERO:
                return q, ZERO
            if le0(neg(r)) is TRUE and lt0(sub(r, b)) is TRUE:
                return q, r
            if q is not ZERO:
                q2, r2 = idivmod(r, b)
                return add(q, q2), r2
            # (x div c) div n with r = small remainder parts is left alone
        # (a div m) with divisor product:  a div (m*n) handled by caller ordering
        elif b.op == "poly" and len(b.args) > 1:
            # try quotient by polynomial: a == b*v + r for a variable v of a
            for v in sorted(a.fv, key=lambda x: x.id):
                if v.sort != "I" or v in b.fv:
                    continue
                co = {}
                okk = True
                for m, c in polyd(a).items():
                    ds = dict(m)
                    if v in ds:
                        if ds[v] != 1:
                            okk = False
                            break
                        co[tuple((x, e) for x, e in m if x is not v)] = c
                    elif any(v in x.fv for x in ds):
                        okk = False
                        break
                if okk and co and _mkpoly(co) is b:
                    r = sub(a, mul(b, v))
                    q2, r2 = idivmod(r, b)
                    return add(v, q2), r2
            if a is b:
                return ONE, ZERO
        if le0(neg(a)) is TRUE and lt0(sub(a, b)) is TRUE:
            return ZERO, a
    return _mk("idiv", (a, b), "I"), _mk("mod", (a, b), "I" if a.sort == "I" and b.sort == "I" else "R")


def idiv(a, b):
    return idivmod(a, b)[0]


def imod(a, b):
    return idivmod(a, b)[1]


# ---------------------------------------------------------------- bounded reductions
def closebody(v, body):
    h = body.height + 1
    return h, subst(body, {v: bv(h)})


def red(kind, v, n, body):
    """kind in sum/max/min/all/any over v in [0, n); "first": how many indices are visited up to and including the first
    one satisfying the body (n if none does); "text": the sequence of all values of the body, as an opaque object."""
    n = lift(n)
    body = lift(body)
    if kind == "text":
        return _sumatom(kind, v, n, body)
    if kind == "first":
        if body is FALSE:
            return n
        if body is TRUE:
            return ite(ge(n, 1), ONE, ZERO)
        if cval(n) is not None and cval(n) <= 24:
            r = n
            for i in reversed(range(int(cval(n)))):
                r = ite(subst(body, {v: const(i)}), const(i + 1), r)
            return r
        return _sumatom(kind, v, n, body)
    cn = cval(n)
    if cn is not None and cn <= 24 and kind != "opaque":
        parts = [subst(body, {v: const(i)}) for i in range(int(cn))]
        if kind == "sum":
            return add(*parts) if parts else ZERO
        if kind == "all":
            return and_(*parts)
        if kind == "any":
            return or_(*parts)
        if parts:
            r = parts[0]
            for p in parts[1:]:
                r = ite(le(r, p), p, r) if kind == "max" else ite(le(p, r), p, r)
            return r
    if kind == "sum":
        d = {}
        total = ZERO
        groups = {}
        for m, c in polyd(body).items():
            dep = tuple((a, e) for a, e in m if v in a.fv)
            ind = tuple((a, e) for a, e in m if v not in a.fv)
            groups.setdefault(dep, {})
            groups[dep][ind] = groups[dep].get(ind, 0) + c
        for dep, co in groups.items():
            cp = _mkpoly(co)
            if not dep:
                total = add(total, mul(cp, n))
                continue
            t = _mkpoly({dep: Fraction(1)})
            if len(dep) == 1 and dep[0][1] == 1 and dep[0][0] is v:
                total = add(total, mul(cp, Fraction(1, 2), n, sub(n, ONE)))  # sum of k
                continue
            if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].op == "ite":
                # delta:  sum_v ite(v == e, x, 0)  with 0 <= e < n
                c, x, y = dep[0][0].args
                r = _delta(v, n, c, x, y)
                if r is not None:
                    total = add(total, mul(cp, r))
                    continue
            total = add(total, mul(cp, _sumatom("sum", v, n, t)))
        return total
    if kind in ("all", "any"):
        if v not in body.fv:
            return or_(le(n, 0), body) if kind == "all" else and_(gt(n, 0), body)
        h, b = closebody(v, body)
        return _mk("sum", (kind, n, b, h), "B", fv=(n.fv | b.fv), height=max(h, n.height))
    # max/min
    if v not in body.fv:
        return body
    return _sumatom(kind, v, n, body)


def _delta(v, n, c, x, y):
    if c.op == "eq0" and y is ZERO:
        w, e = solve_for(c.args[0], v)
        if w and le0(neg(e)) is TRUE and lt0(sub(e, n)) is TRUE:
            return subst(x, {v: e})
    return None


def solve_for(p, v):
    d = polyd(p)
    co = None
    for m, c in d.items():
        if any(a is v for a, e in m):
            if m != ((v, 1),) or abs(c) != 1:
                return False, None
            co = c
        elif any(v in a.fv for a, e in m):
            return False, None
    if co is None:
        return False, None
    rest = {m: c for m, c in d.items() if m != ((v, 1),)}
    return True, scale(-1 / co, _mkpoly(rest))


def _sumatom(kind, v, n, body):
    h, b = closebody(v, body)
    h = max(h, n.height + 1)
    b = subst(body, {v: bv(h)})
    return _mk("sum", (kind, n, b, h), "I" if body.sort == "I" or kind == "first" else "R", fv=(n.fv | b.fv), height=h)


def opensum(t):
    """(kind, n, fresh var, body) of a reduction atom."""
    kind, n, b, h = t.args
    v = fresh("s", "I", 0, n)
    return kind, n, v, subst_bv(b, h, v)


def sumr(v, n, body):
    return red("sum", v, n, body)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    if not m:
        return t
    m = {k: lift(v) for k, v in m.items()}
    keys = frozenset(m)
    memo = {}
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if t.fv.isdisjoint(keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "var":
        r = m.get(t, t)
    elif op == "poly":
        parts = []
        d = {}
        for mono, c in t.args:
            fixed = []
            touched = []
            for a, e in mono:
                if a.fv.isdisjoint(keys):
                    fixed.append((a, e))
                else:
                    touched.append((a, e))
            if not touched:
                d[mono] = d.get(mono, 0) + c
            else:
                x = _mkpoly({tuple(fixed): c})
                for a, e in touched:
                    x = mul(x, power(_subst(a, m, keys, memo), e))
                parts.append(x)
        r = add(_mkpoly(d), *parts)
    elif op == "sum":
        kind, n, b, h = t.args
        v = fresh("o", "I", 0, n)
        nb = _subst(subst_bv(b, h, v), m, keys, {})
        nn = _subst(n, m, keys, memo)
        if nn is not n:
            v2 = fresh("o", "I", 0, nn)
            nb = subst(nb, {v: v2})
            v = v2
        r = red(kind, v, nn, nb)
    else:
        r = rebuild(t, lambda a: _subst(a, m, keys, memo))
    memo[t] = r
    return r


def rebuild(t, f):
    op = t.op
    a = t.args
    if op == "app":
        return app(a[0], tuple(f(x) for x in a[1:]), t.sort)
    if op == "ite":
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == "inv":
        return inv(f(a[0]))
    if op == "eq0":
        return eq(f(a[0]), ZERO)
    if op == "le0":
        return le0(f(a[0]))
    if op == "lt0":
        return lt0(f(a[0]))
    if op == "equ":
        return eq(f(a[0]), f(a[1]))
    if op == "not":
        return not_(f(a[0]))
    if op == "and":
        return and_(*[f(x) for x in a])
    if op == "or":
        return or_(*[f(x) for x in a])
    if op == "idiv":
        return idiv(f(a[0]), f(a[1]))
    if op == "mod":
        return imod(f(a[0]), f(a[1]))
    if op in ("true", "false", "str", "bv", "var"):
        return t
    raise AssertionError(op)


def subst_bv(b, h, v):
    """Replace bound variable number h (free in b) by v."""
    target = bv(h)
    memo = {}

    def go(t):
        if t.height < h:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t is target:
            r = v
        elif t.op == "poly":
            r = ZERO
            parts = []
            for mono, c in t.args:
                x = const(c)
                for a, e in mono:
                    x = mul(x, power(go(a), e))
                parts.append(x)
            r = add(*parts) if parts else ZERO
        elif t.op == "sum":
            kind, n, bb, hh = t.args
            w = fresh("o", "I", 0, n)
            nb = go(subst_bv(bb, hh, w))
            nn = go(n)
            r = red(kind, w, nn, nb)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    return go(b)


# ---------------------------------------------------------------- traversal
def atoms_in(t, pred, acc=None, seen=None):
    """All subterms (not under binders) satisfying pred."""
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if pred(t):
        acc.append(t)
    if t.op == "poly":
        for m, c in t.args:
            for a, e in m:
                atoms_in(a, pred, acc, seen)
    elif t.op == "sum":
        atoms_in(t.args[1], pred, acc, seen)
    else:
        for a in t.args:
            if isinstance(a, Term):
                atoms_in(a, pred, acc, seen)
    return acc


def mentions(t, pred, seen=None):
    """Does any subterm, binders included, satisfy pred?"""
    if seen is None:
        seen = set()
    if t in seen:
        return False
    seen.add(t)
    if pred(t):
        return True
    if t.op == "poly":
        return any(mentions(a, pred, seen) for m, c in t.args for a, e in m)
    return any(mentions(a, pred, seen) for a in t.args if isinstance(a, Term))


def replace_atoms(t, m, memo=None):
    """Replace whole subterms everywhere outside/inside binders: keys of m, or those for which the function m does not
    return None."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if callable(m):
        r = m(t)
        if r is not None:
            memo[t] = r
            return r
    elif t in m:
        return m[t]
    if t.op == "poly":
        parts = []
        d = {}
        for mono, c in t.args:
            x = None
            changed = []
            fixed = []
            for a, e in mono:
                na = replace_atoms(a, m, memo)
                if na is a:
                    fixed.append((a, e))
                else:
                    changed.append((na, e))
            if not changed:
                d[mono] = d.get(mono, 0) + c
            else:
                x = _mkpoly({tuple(fixed): c})
                for na, e in changed:
                    x = mul(x, power(na, e))
                parts.append(x)
        r = add(_mkpoly(d), *parts)
    elif t.op == "sum":
        kind, n, b, h = t.args
        nb = replace_atoms(b, m, memo)
        nn = replace_atoms(n, m, memo)
        if nb is b and nn is n:
            r = t
        else:
            v = fresh("o", "I", 0, nn)
            r = red(kind, v, nn, replace_atoms(subst_bv(b, h, v), m, {}))
    elif t.op in ("var", "bv", "true", "false", "str"):
        r = t
    else:
        r = rebuild(t, lambda a: replace_atoms(a, m, memo))
    memo[t] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1)
    op = t.op
    if op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args[:40]:
            fs = [s(a) + (f"^{e}" if e != 1 else "") for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator == 1 else f"({c})")
            out.append("*".join(fs))
        if len(t.args) > 40:
            out.append("...")
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op == "var":
        return t.args[0]
    if op == "bv":
        return f"#{t.args[0]}"
    if op == "app":
        return f"{t.args[0]}({', '.join(s(a) for a in t.args[1:])})"
    if op == "ite":
        return f"ite({s(t.args[0])}, {s(t.args[1])}, {s(t.args[2])})"
    if op == "sum":
        return f"{t.args[0]}[#{t.args[3]}<{s(t.args[1])}]({s(t.args[2])})"
    if op == "inv":
        return f"inv({s(t.args[0])})"
    if op == "eq0":
        return f"{s(t.args[0])} = 0"
    if op == "le0":
        return f"{s(t.args[0])} <= 0"
    if op == "lt0":
        return f"{s(t.args[0])} < 0"
    if op == "equ":
        return f"{s(t.args[0])} == {s(t.args[1])}"
    if op == "not":
        return f"not({s(t.args[0])})"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(a) for a in t.args) + ")"
    if op == "idiv":
        return f"({s(t.args[0])} div {s(t.args[1])})"
    if op == "mod":
        return f"({s(t.args[0])} mod {s(t.args[1])})"
    if op == "str":
        return repr(t.args[0])
    return op
