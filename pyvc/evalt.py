"""Evaluation of terms under a concrete assignment (used to validate the verifier against the real interpreter)."""
import math
from fractions import Fraction
from . import terms as T


class NoValue(Exception):
    pass


FUN = {
    "abs": lambda x: abs(x),
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "sgn": lambda x: -1 if x < 0 else 1,
    "trunc": lambda x: int(x),
    "floor": lambda x: math.floor(x),
    "rint": lambda x: round(x),
    "pow2": lambda x: 2 ** int(x),
    "pow": lambda x, y: float(x) ** float(y),
    "arctan2": lambda y, x: math.atan2(y, x),
}
for _n in ("sin", "cos", "tan", "exp", "log", "sinh", "cosh", "tanh", "arctan", "arcsin", "arccos", "log10", "log2"):
    FUN[_n] = {"arctan": math.atan, "arcsin": math.asin, "arccos": math.acos}.get(_n) or getattr(math, _n)


class Env:
    def __init__(self, vars, apps=None):
        self.vars = vars        # name -> number
        self.apps = apps or {}  # app name -> python function
        self.memo = {}

    def ev(self, t, b=()):
        t = T.lift(t)
        k = (t, b) if t.height else t
        if k in self.memo:
            return self.memo[k]
        r = self._ev(t, b)
        self.memo[k] = r
        return r

    def _ev(self, t, b):
        op, a = t.op, t.args
        if op == "var":
            if a[0] not in self.vars:
                raise NoValue(f"variable {a[0]}")
            return self.vars[a[0]]
        if op == "poly":
            r = 0
            for m, c in a:
                x = c if c.denominator != 1 else c.numerator
                for at, e in m:
                    v = self.ev(at, b)
                    if isinstance(v, bool):
                        v = int(v)
                    if e < 0:
                        if v == 0:
                            raise NoValue("division by zero")
                        v = Fraction(v) if isinstance(v, int) else v
                    x = x * v ** e
                r = r + x
            if isinstance(r, Fraction) and r.denominator == 1:
                r = r.numerator
            return r
        if op == "app":
            f = a[0]
            fn = self.apps.get(f) or FUN.get(f)
            if f == "argsortN":
                # (j, n, element function as a lambda) is library specific
                raise NoValue("argsortN")
            if fn is None:
                raise NoValue(f"function {f}")
            return fn(*[self.ev(x, b) for x in a[1:]])
        if op == "ite":
            return self.ev(a[1] if self.ev(a[0], b) else a[2], b)
        if op == "inv":
            v = self.ev(a[0], b)
            if v == 0:
                raise NoValue("division by zero")
            return 1 / v if not isinstance(v, int) else Fraction(1, v)
        if op == "sum":
            kind, n, body, h = a
            n = self.ev(n, b)
            d = dict(b)
            vals = (lambda i: self.ev(body, tuple(sorted({**d, h: i}.items()))))
            if kind == "sum":
                return sum(vals(i) for i in range(n))
            if kind == "max":
                return max(vals(i) for i in range(n))
            if kind == "min":
                return min(vals(i) for i in range(n))
            if kind == "all":
                return all(vals(i) for i in range(n))
            if kind == "any":
                return any(vals(i) for i in range(n))
            if kind == "first":
                for i in range(n):
                    if vals(i):
                        return i + 1
                return n
            raise NoValue(kind)
        if op == "bv":
            return dict(b)[a[0]]
        if op == "str":
            return a[0]
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "eq0":
            return self.ev(a[0], b) == 0
        if op == "le0":
            return self.ev(a[0], b) <= 0
        if op == "lt0":
            return self.ev(a[0], b) < 0
        if op == "equ":
            return self.ev(a[0], b) == self.ev(a[1], b)
        if op == "not":
            return not self.ev(a[0], b)
        if op == "and":
            return all(self.ev(x, b) for x in a)
        if op == "or":
            return any(self.ev(x, b) for x in a)
        if op == "idiv":
            return math.floor(self.ev(a[0], b) // self.ev(a[1], b))
        if op == "mod":
            return self.ev(a[0], b) % self.ev(a[1], b)
        raise NoValue(op)
