"""Discharging obligations: ring/Sum normalisation with case splitting, then z3, then cvc5."""
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import TRUE, FALSE, Term

STATS = {"queries": 0, "time": 0.0, "backend": {}, "cvc5_queries": 0}
TIMEOUT_MS = 4000
DEADLINE = [None]


class OutOfTime(Exception):
    pass


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime()


def note(backend):
    STATS["backend"][backend] = STATS["backend"].get(backend, 0) + 1


USort = z3.DeclareSort("U")

# f -> function(list of app terms) -> list of Terms (instantiated axioms, trusted library facts)
AXIOMS = {}


class Enc:
    """Encodes terms into z3; collects side conditions for the atoms it meets."""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.fun = {}
        self.apps = {}
        self.strs = {}
        self.vars = {}
        self.names = {}

    def sort(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "U": USort}[s]

    def real(self, t):
        e = self.enc(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def num(self, t, want_real):
        e = self.enc(t)
        if want_real and e.sort() == z3.IntSort():
            return z3.ToReal(e)
        return e

    def enc(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._enc(t)
        self.memo[t] = r
        return r

    def _fresh(self, t, sort):
        c = z3.Const(f"{t.op}_{t.id}", self.sort(sort))
        self.names[str(c)] = t
        return c

    def _enc(self, t):
        op, a = t.op, t.args
        if op == "var":
            c = z3.Const(a[0], self.sort(t.sort))
            self.vars[a[0]] = t
            self.memo[t] = c
            if t.lo is not None:
                self.side.append(self.cmp(t.lo, t, "<="))
            if t.hi is not None:
                self.side.append(self.cmp(t, t.hi, "<"))
            return c
        if op == "poly":
            isreal = t.sort == "R"
            terms = []
            for m, c in a:
                fs = []
                for x, e in m:
                    ex = self.num(x, isreal)
                    if e > 0:
                        fs += [ex] * e
                    else:
                        iv = self.invatom(x)
                        fs += [iv] * (-e)
                co = z3.RealVal(f"{c.numerator}/{c.denominator}") if isreal else z3.IntVal(int(c))
                if not fs:
                    terms.append(co)
                else:
                    p = fs[0]
                    for f in fs[1:]:
                        p = p * f
                    terms.append(p if c == 1 else co * p)
            if not terms:
                return z3.RealVal(0) if isreal else z3.IntVal(0)
            r = terms[0]
            for x in terms[1:]:
                r = r + x
            return r
        if op == "app":
            f = a[0]
            if f == "abs":
                e = self.enc(a[1])
                return z3.If(e >= 0, e, -e)
            if f == "sqrt":
                e = self.real(a[1])
                c = self._fresh(t, "R")
                self.side.append(c >= 0)
                self.side.append(z3.Implies(e >= 0, c * c == e))
                return c
            if f == "sgn":
                c = self._fresh(t, "I")
                self.side.append(z3.Or(c == 1, c == -1))
                return c
            args = [self.enc(x) for x in a[1:]]
            key = (f, tuple(str(x.sort()) for x in args), t.sort)
            if not args:
                r = z3.Const(f"{f}", self.sort(t.sort))
            else:
                fn = self.fun.get(key)
                if fn is None:
                    fn = z3.Function(f"{f}__{len(self.fun)}", *[x.sort() for x in args], self.sort(t.sort))
                    self.fun[key] = fn
                r = fn(*args)
            self.apps.setdefault(f, []).append(t)
            if f == "pow2":
                self.side.append(r >= 1)
            if f in T.NONNEG:
                self.side.append(r >= 0)
            return r
        if op == "ite":
            x, y = self.num(a[1], t.sort == "R"), self.num(a[2], t.sort == "R")
            return z3.If(self.enc(a[0]), x, y)
        if op == "inv":
            return self.invatom(t.args[0])
        if op == "sum":
            c = self._fresh(t, t.sort)
            if t.sort != "B":
                lo, _ = T._atom_bounds(t)
                if lo is not None:
                    self.side.append(c >= z3.RealVal(str(lo)) if t.sort == "R" else c >= int(lo))
                elif t.args[0] == "sum" and _nonneg_body(t.args[2]):
                    self.side.append(c >= 0)
            return c
        if op == "str":
            c = self.strs.get(a[0])
            if c is None:
                c = z3.Const("str_" + a[0], USort)
                for o in self.strs.values():
                    self.side.append(c != o)
                self.strs[a[0]] = c
            return c
        if op in ("idiv", "mod"):
            q = T._mk("idiv", (a[0], a[1]), "I")
            m = T._mk("mod", (a[0], a[1]), t.sort)
            x, y = self.enc(a[0]), self.enc(a[1])
            cb = T.cval(a[1])
            if x.sort() == z3.IntSort() and y.sort() == z3.IntSort() and cb is not None and cb > 0:
                self.memo[q] = x / y
                m2 = x % y
                if m.sort == "I":
                    self.memo[m] = m2
            else:
                cq = z3.Const(f"idiv_{q.id}", z3.IntSort())
                cm = z3.Const(f"mod_{m.id}", self.sort(m.sort))
                self.names[str(cq)] = q
                self.names[str(cm)] = m
                self.memo[q], self.memo[m] = cq, cm
                rl = z3.ToReal if m.sort == "R" else (lambda z: z)
                xr = self.num(a[0], m.sort == "R")
                yr = self.num(a[1], m.sort == "R")
                self.side.append(z3.Implies(yr > 0, z3.And(xr == yr * rl(cq) + cm, cm >= 0, cm < yr)))
            return self.memo[t]
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "eq0":
            e = self.enc(a[0])
            return e == 0
        if op == "le0":
            return self.enc(a[0]) <= 0
        if op == "lt0":
            return self.enc(a[0]) < 0
        if op == "equ":
            return self.enc(a[0]) == self.enc(a[1])
        if op == "not":
            return z3.Not(self.enc(a[0]))
        if op == "and":
            return z3.And(*[self.enc(x) for x in a])
        if op == "or":
            return z3.Or(*[self.enc(x) for x in a])
        if op == "bv":
            return z3.Int(f"bv_{a[0]}")
        raise AssertionError(op)

    def cmp(self, a, b, o):
        r = a.sort == "R" or b.sort == "R"
        x, y = self.num(a, r), self.num(b, r)
        return x <= y if o == "<=" else x < y

    def invatom(self, x):
        key = ("inv", x)
        c = self.memo.get(key)
        if c is None:
            c = z3.Real(f"inv_{x.id}")
            self.memo[key] = c
            e = self.real(x)
            self.side.append(z3.Implies(e != 0, c * e == 1))
            self.side.append(z3.Implies(e > 0, c > 0))
        return c

    def axioms(self, done=None):
        """Instantiate library axioms for the applications met; returns z3 constraints."""
        out = []
        for _ in range(2):
            todo = {f: list(l) for f, l in self.apps.items() if f in AXIOMS}
            for f, l in todo.items():
                for ax in AXIOMS[f](l):
                    if ax is not TRUE:
                        out.append(self.enc(ax))
        return out


def _nonneg_body(b):
    """Body is syntactically a sum of products of even powers / nonneg atoms with positive coefficients."""
    for m, c in T.polyd(b).items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not (T._atom_bounds(a)[0] is not None and T._atom_bounds(a)[0] >= 0):
                return False
    return True


def query(assumptions, timeout=None, want_model=False):
    """sat / unsat / unknown for the conjunction of Terms."""
    check_deadline()
    t0 = time.time()
    enc = Enc()
    s = z3.Solver()
    s.set("timeout", int(timeout or TIMEOUT_MS))
    s.set("random_seed", 1)
    for a in assumptions:
        if a is FALSE:
            return ("unsat", None)
        s.add(enc.enc(a))
    ax = enc.axioms()
    for x in enc.side:
        s.add(x)
    for x in ax:
        s.add(x)
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    res = str(r)
    model = None
    if res == "sat" and want_model:
        m = s.model()
        model = {}
        for name, v in enc.vars.items():
            try:
                val = m.eval(z3.Const(name, enc.sort(v.sort)), model_completion=True)
                if z3.is_int_value(val):
                    model[name] = val.as_long()
                elif z3.is_rational_value(val):
                    model[name] = float(val.as_fraction())
                elif z3.is_true(val) or z3.is_false(val):
                    model[name] = z3.is_true(val)
                else:
                    model[name] = str(val)
            except Exception:
                pass
    if res == "unknown":
        LAST[0] = s
    return res, model


LAST = [None]


def cvc5_check(timeout=8):
    """Re-run the last unknown query in cvc5."""
    s = LAST[0]
    if s is None:
        return "unknown"
    import subprocess
    txt = "(set-logic ALL)\n" + s.to_smt2()
    STATS["cvc5_queries"] += 1
    t0 = time.time()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(timeout*1000)}"], input=txt, capture_output=True,
                           text=True, timeout=timeout + 5)
        r = p.stdout.strip().splitlines()[0] if p.stdout.strip() else "unknown"
    except Exception:
        r = "unknown"
    STATS["time"] += time.time() - t0
    return r if r in ("sat", "unsat") else "unknown"


# ------------------------------------------------------------------ assumption handling
_feas_memo = {}


def relevant(assumptions, goal_fv):
    """Assumptions connected to the given free variables (cone of influence)."""
    fv = set(goal_fv)
    out = []
    rest = list(assumptions)
    changed = True
    while changed:
        changed = False
        for a in list(rest):
            names = set(a.fv)
            if not names or names & fv:
                out.append(a)
                rest.remove(a)
                new = names - fv
                fv |= names
                changed = True
    return out


def linear_bool(t):
    """Only integer/real arithmetic over variables and uninterpreted leaves; used to keep feasibility cheap."""
    return True


def feasible(assumptions, timeout=1500):
    """False only if the conjunction is certainly contradictory."""
    s = []
    for a in assumptions:
        if a is FALSE:
            return False
        if a is not TRUE:
            s.append(a)
    key = frozenset(s)
    r = _feas_memo.get(key)
    if r is None:
        neg = {T.not_(a) for a in s if a.op not in ("and", "or")}
        if neg & set(s):
            r = False
        else:
            r = query(s, timeout)[0] != "unsat"
        _feas_memo[key] = r
    return r


def entails(assumptions, c, timeout=1500):
    if c is TRUE:
        return True
    if c is FALSE:
        return not feasible(assumptions)
    if c in assumptions:
        return True
    if c.op == "and":
        return all(entails(assumptions, x, timeout) for x in c.args)
    return not feasible(list(assumptions) + [T.not_(c)], timeout)


# ------------------------------------------------------------------ proof search
class Result:
    def __init__(self, status, how="", model=None, residual=None):
        self.status, self.how, self.model, self.residual = status, how, model, residual

    def __bool__(self):
        return self.status == "proved"


def apply_eqs(assumptions, goal):
    """Use equalities v = e among the assumptions to eliminate variables from the goal."""
    ass = list(assumptions)
    for _ in range(12):
        hit = False
        for a in ass:
            if a.op == "eq0":
                v, e = T.solve_var(a.args[0])
                if v is not None and v not in e.fv:
                    m = {v: e}
                    bounds = []
                    if v.lo is not None:
                        bounds.append(T.le(v.lo, e))
                    if v.hi is not None:
                        bounds.append(T.lt(e, v.hi))
                    goal = T.subst(goal, m)
                    ass = [T.subst(x, m) for x in ass if x is not a] + [T.subst(b, m) for b in bounds]
                    ass = [x for x in ass if x is not TRUE]
                    hit = True
                    break
        if not hit:
            break
    return ass, goal


def find_ite(t, seen=None):
    """An if-then-else outside binders whose condition contains no if-then-else; None if there is none."""
    if seen is None:
        seen = set()
    if t in seen:
        return None
    seen.add(t)
    if t.op == "ite":
        c = find_ite(t.args[0], seen)
        return c if c is not None else t.args[0]
    if t.op == "poly":
        for m, c in t.args:
            for a, e in m:
                r = find_ite(a, seen)
                if r is not None:
                    return r
        return None
    if t.op == "sum":
        return find_ite(t.args[1], seen)
    for a in t.args:
        if isinstance(a, Term):
            r = find_ite(a, seen)
            if r is not None:
                return r
    return None


def assume_in(t, c, val):
    """Replace condition c by a truth value everywhere in t (c and its negation)."""
    m = {c: TRUE if val else FALSE}
    n = T.not_(c)
    if n.op not in ("and", "or"):
        m[n] = FALSE if val else TRUE
    return T.replace_atoms(t, m)


def atomic(c):
    return c.args[0] if c.op in ("and", "or", "not") else c


def clear_inverses(p, assumptions):
    """Multiply p by the denominators occurring in it (must be provably nonzero)."""
    for _ in range(20):
        target, mx = None, 0
        for m, c in T.polyd(p).items():
            for a, e in m:
                if a.op == "inv" and e > 0:
                    if target is None or target is a:
                        target = a
                        mx = max(mx, e)
                elif e < 0:
                    if target is None or target is a:
                        target = a
                        mx = max(mx, -e)
        if target is None:
            return p
        base = target.args[0] if target.op == "inv" else target
        if not T.positive(base) and not T.positive(T.neg(base)) and not entails(assumptions, T.ne(base, 0), 3000):
            return None
        out = []
        for m, c in T.polyd(p).items():
            e = 0
            rest = []
            for a, k in m:
                if a is target:
                    e = k if target.op == "inv" else -k
                else:
                    rest.append((a, k))
            x = T._mkpoly({tuple(rest): c})
            if target.op == "inv":
                x = T.mul(x, T.power(base, mx - e))
            else:
                x = T.mul(x, T.power(base, mx - e)) if mx - e >= 0 else x
            out.append(x)
        p = T.add(*out)
    return None


def prove(goal, assumptions, timeout=None, depth=0):
    """Result for  assumptions |- goal."""
    check_deadline()
    if goal is TRUE:
        return Result("proved", "ring")
    ass = []
    for a in assumptions:
        if a is FALSE:
            return Result("proved", "vacuous-path")
        ass.extend(a.args if a.op == "and" else [a])
    ass, goal = apply_eqs(ass, goal)
    if FALSE in ass:
        return Result("proved", "contradictory-path")
    if goal is TRUE:
        return Result("proved", "ring")
    if goal in ass:
        return Result("proved", "assumption")
    if goal.op == "and":
        hows = set()
        for g in goal.args:
            r = prove(g, ass, timeout, depth)
            if not r:
                return r
            hows.add(r.how)
        return Result("proved", "+".join(sorted(hows)))
    if goal.op == "or" and depth < 12:
        # prove the first disjunct-like atom under the negation of the others
        gs = list(goal.args)
        pick = next((g for g in gs if g.op == "eq0"), None)
        if pick is not None:
            others = [T.not_(g) for g in gs if g is not pick]
            return prove(pick, ass + others, timeout, depth + 1)
    c = find_ite(goal)
    if c is not None and depth < 40:
        while c.op in ("and", "or", "not"):
            c = c.args[0]
        hows = set()
        for val in (True, False):
            lit = c if val else T.not_(c)
            na = ass + [lit]
            if not feasible(na):
                continue
            g = assume_in(goal, c, val)
            r = prove(g, na, timeout, depth + 1)
            if not r:
                return r
            hows.add(r.how)
        return Result("proved", "split(" + "+".join(sorted(hows)) + ")" if depth == 0 else "+".join(sorted(hows)))
    how = "ring"
    if goal.op == "eq0":
        p = clear_inverses(goal.args[0], ass)
        if p is not None:
            if p is T.ZERO:
                return Result("proved", "ring")
            g2 = T.eq(p, T.ZERO)
            if g2 is TRUE:
                return Result("proved", "ring")
        # congruence of reductions
        if depth < 6:
            q = unify_sums(p if p is not None else goal.args[0], ass, timeout, depth)
            if q is not None:
                r = prove(T.eq(q, T.ZERO), ass, timeout, depth + 1)
                if r:
                    return Result("proved", "sum-congruence+" + r.how)
    elif goal.op == "sum" and goal.args[0] == "all":
        kind, n, v, body = T.opensum(goal)
        r = prove(body, ass, timeout, depth + 1)
        if r:
            return Result("proved", "forall-intro+" + r.how)
        return r
    if depth < 10:
        g2 = peel_sums(goal, ass)
        if g2 is not None:
            r = prove(g2, ass, timeout, depth + 10)
            if r:
                return Result("proved", "sum-unfolding+" + r.how)
    g = goal
    res, model = query(ass + [T.not_(g)], timeout, want_model=True)
    if res == "unsat":
        note("z3")
        return Result("proved", "z3")
    if res == "unknown":
        r2 = cvc5_check()
        if r2 == "unsat":
            note("cvc5")
            return Result("proved", "cvc5")
        return Result("unknown", "z3+cvc5 unknown", None, (ass, g))
    gs = T.atoms_in(g, lambda t: t.op == "sum")
    if len(gs) > 1 or any(x not in gs for a in ass for x in T.atoms_in(a, lambda t: t.op == "sum")):
        # the model interprets the reductions freely
        return Result("unknown", "z3 (reductions abstracted)", None, (ass, g))
    return Result("refuted", "z3", model, (ass, g))


def peel_sums(goal, ass):
    """Unfold the last terms of sums that differ from another sum of the goal only by a small constant in the bound; None if nothing changed."""
    sums = [t for t in T.atoms_in(goal, lambda t: t.op == "sum") if t.args[0] == "sum"]
    if len(sums) < 2 or len(sums) > 12:
        return None
    m = {}
    for a in sums:
        for b in sums:
            if a is b or b in m or a in m:
                continue
            d = T.cval(T.sub(a.args[1], b.args[1]))
            if d is None or d != int(d) or not 0 < d <= 8:
                continue
            kind, n, v, body = T.opensum(b)
            if T.subst_bv(a.args[2], a.args[3], v) is not body:
                continue
            if not (T.nonneg(n) or entails(ass, T.ge(n, 0))):
                continue
            m[a] = T.add(b, *[T.subst(body, {v: T.add(n, i)}) for i in range(int(d))])
    return T.replace_atoms(goal, m) if m else None


def unify_sums(p, ass, timeout, depth):
    """Replace pairs of provably equal Sum atoms by one representative; None if nothing changed."""
    sums = T.atoms_in(p, lambda t: t.op == "sum")
    if len(sums) < 2 or len(sums) > 30:
        return None
    m = {}
    for i, a in enumerate(sums):
        if a in m:
            continue
        for b in sums[i + 1:]:
            if b in m or a.args[0] != b.args[0] or a.sort != b.sort:
                continue
            if a.args[1] is not b.args[1] and not entails(ass, T.eq(a.args[1], b.args[1])):
                continue
            kind, n, v, body = T.opensum(a)
            body2 = T.subst_bv(b.args[2], b.args[3], v)
            if body.sort == "B":
                continue
            g = T.eq(body, body2)
            if g is FALSE:
                continue
            if find_ite(g) is None and not apply_eqs(ass, g)[1] is TRUE and not T.mentions(g, lambda t: t.op in ("idiv", "mod", "ite", "sum")):
                if not entails(ass, g, 500):
                    continue
                m[b] = a
                continue
            if prove(g, ass, timeout, depth + 3):
                m[b] = a
    if not m:
        return None
    return T.replace_atoms(p, m)
