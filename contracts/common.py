"""Specification functions shared by the contracts."""
from fractions import Fraction
from pyvc import terms as T
from pyvc.values import *

FE = "fastvpinns.FE."
HALF = Fraction(-1, 2)
FAMILIES = ["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"]


def P(n, a, b, x):
    return T.app("P", (T.lift(n), T.lift(a), T.lift(b), T.lift(x)), "R")


def cheb(m, x):
    """Chebyshev polynomial T_m: the Jacobi polynomial with parameters -1/2, -1/2 that is 1 at x = 1."""
    return T.div(P(m, HALF, HALF, x), P(m, HALF, HALF, 1))


def phi(family, k, x):
    """The documented one-dimensional test function number k (from 1)."""
    if family in ("legendre", "jacobi", "legendre_special"):
        return T.sub(P(T.add(k, 1), 0, 0, x), P(T.sub(k, 1), 0, 0, x))
    if family == "chebyshev_2":
        return T.sub(cheb(T.add(k, 1), x), cheb(T.sub(k, 1), x))
    return P(T.sub(k, 1), 0, 0, x)


def D(t, x, memo=None):
    """Derivative of a term with respect to the real variable x (rules of calculus; P by the Jacobi derivative rule)."""
    if memo is None:
        memo = {}
    if x not in t.fv:
        return T.ZERO
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if t is x:
        r = T.ONE
    elif op == "poly":
        parts = []
        for mono, c in t.args:
            for idx, (a, e) in enumerate(mono):
                da = D(a, x, memo)
                if da is T.ZERO:
                    continue
                f = [T.const(c * e), da, T.power(a, e - 1)] + [T.power(b, g) for j, (b, g) in enumerate(mono) if j != idx]
                parts.append(T.mul(*f))
        r = T.add(*parts) if parts else T.ZERO
    elif op == "inv":
        r = T.neg(T.mul(D(t.args[0], x, memo), t, t))
    elif op == "ite":
        c, a, b = t.args
        if x in c.fv:
            raise Unsupported("derivative of a branch that depends on the point")
        r = T.ite(c, D(a, x, memo), D(b, x, memo))
    elif op == "sum" and t.args[0] == "sum":
        v, n, body = T.opensum(t)
        if x in n.fv:
            raise Unsupported("derivative of a sum")
        r = T.sumr(v, n, D(body, x, memo))
    elif op == "app" and t.args[0] == "P":
        _, n, a, b, y = t.args
        if any(x in z.fv for z in (n, a, b)):
            raise Unsupported("derivative with respect to a parameter")
        d = T.mul(T.scale(Fraction(1, 2), T.add(n, a, b, 1)), P(T.sub(n, 1), T.add(a, 1), T.add(b, 1), y))
        r = T.mul(T.ite(T.ge(n, 1), d, T.ZERO), D(y, x, memo))
    elif op == "app" and t.args[0] in ("sin", "cos", "exp"):
        y = t.args[1]
        g = {"sin": lambda: T.app("cos", (y,), "R"), "cos": lambda: T.neg(T.app("sin", (y,), "R")), "exp": lambda: t}[t.args[0]]()
        r = T.mul(g, D(y, x, memo))
    else:
        raise Unsupported(f"derivative of {op} {t.args[0] if op == 'app' else ''}")
    memo[t] = r
    return r


def points(it, Q, *names):
    return [it.new_arr(Arr((Q,), lambda q, nm=nm: T.rawapp(nm, (T.lift(q),), "R"))) for nm in names]


def make_basis(it, family, order):
    fr = it.module_frame(it.load_module(FE + "fe2d_setup_main"))
    def make(f, n):
        s = it.instantiate(fr["FE2DSetupMain"], ["quadrilateral", n, f, 5, "gauss-legendre"], {})
        return it.call_method(s, "assign_basis_function", [], {})
    b = make(family, order)
    # other bases, alive from now on and already evaluated elsewhere: the tables of the first may not depend on them
    for f, n in ((family, T.var("order_other", "I", 2, 999)), ("jacobi" if family == "legendre" else "legendre", order)):
        o = make(f, n)
        z = points(it, T.var("Q_other", "I", 1), "xi_other", "eta_other")
        for m in BASIS_METHODS:
            it.call_method(o, m, z, {})
    return b


def ncase(i, n):
    """Split an index 0 <= i < n into the cases 0, 1, 2 <= i."""
    r = T.fresh("i", "I", 0, T.sub(n, 2))
    return [("0", T.ZERO, T.TRUE), ("1", T.ONE, T.ge(n, 2)), (">=2", T.add(r, 2), T.ge(n, 3))]


BASIS_METHODS = ("value", "gradx", "grady", "gradxx", "gradxy", "gradyy")


def abstract_basis(ck, it, b, what):
    """Callers are checked against this contract of the basis methods (established by C01 and C02): entry (r, q) of a table of the basis object is a
    function of the basis class, its number of functions, r and the point q alone.  b: a basis object (its class selects the methods)."""
    o = it.content(b)
    for m in BASIS_METHODS:
        fn = o.cls.lookup(m)
        if not isinstance(fn, Func):
            raise Unsupported(f"{o.cls.name} has no method {m}")
        key = f"{o.cls.name}.{m}"

        def ov(it2, self_, xi, eta, key=key, m=m):
            X, Y = it2.arr(xi), it2.arr(eta)
            if X.ndim != 1 or Y.ndim != 1:
                raise Unsupported(f"{key} called with points that are not one-dimensional arrays")
            nn = T.lift(it2.getattr(self_, "num_shape_functions"))
            it2.calls.add(f"[contract] {key}")
            g = T.eq(T.lift(X.shape[0]), T.lift(Y.shape[0]))
            ck.oblige(f"precondition of {key}: as many xi as eta", g, it2.pc, what)
            return it2.new_arr(Arr((nn, X.shape[0]), lambda r, q: T.rawapp(key, (nn, T.lift(r), X.at(q), Y.at(q)), "R")))
        it.overrides[fn.qual] = ov


def prefix_lemma(ck, it, m, k, j, n, F, name="offsets stay inside the list"):
    """For m(.) >= 0, 0 <= k < n and 0 <= j < m(k): sum_{i<k} m(i) + j < sum_{i<n} m(i).  Proved by induction on n from k+1; the instance is assumed."""
    i = T.fresh("i", "I", 0)
    off = lambda b: T.sumr(i, b, m(i))
    b = T.fresh("b", "I", T.add(k, 1))
    ck.oblige(f"lemma ({name}): base", T.le(T.add(off(k), m(k)), T.add(off(k), T.subst(m(i), {i: k}))), (), F)
    ck.equal(f"lemma ({name}): unfolding", off(T.add(b, 1)), T.add(off(b), m(b)), (), F)
    ck.oblige(f"lemma ({name}): step", T.le(T.add(off(k), m(k)), T.add(off(b), m(b))), [T.le(T.add(off(k), m(k)), off(b)), T.ge(m(b), 0)], F)
    it.assume(T.lt(T.add(off(k), j), off(n)))
