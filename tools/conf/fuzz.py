"""Random loop programs for the verifier's loop summaries: see run.py.

  fuzz.py [--n 60] [--seed S] [--keep FILE]"""
import argparse
import os
import random
import tempfile
import run as R

H = os.path.dirname(os.path.abspath(__file__))


PRE = '''import numpy as np


class Rec:
    def __init__(self, a, b):
        self.a = a
        self.b = b


def put(a, i, v):
    a[i] = v


def acc(a, b):
    a += b
    return a


'''


class G:
    def __init__(self, rng):
        self.r = rng
        self.lines = []
        self.ind = 1
        self.k = 0
        self.scal = ["s0"]          # real scalars
        self.ints = []              # integer scalars / loop indices
        self.idx = []               # (index name, bound name)
        self.vec = {"x": "n", "y": "n"}     # 1d arrays
        self.mat = {"A": ("n", "m")}
        self.out = []
        self.lists = []
        self.objs, self.fams, self.pre = [], [], []
        self.depth = 0

    def p(self, q):
        return self.r.random() < q

    def c(self, xs):
        return self.r.choice(list(xs))

    def emit(self, s):
        self.lines.append("    " * self.ind + s)

    def new(self, p):
        self.k += 1
        return f"{p}{self.k}"

    # ---- expressions
    def index(self, bound):
        fit = [i for i, b in self.idx if b == bound]
        if fit and self.p(.85):
            i = self.c(fit)
            if self.p(.2):
                return self.c([f"{bound} - 1 - {i}", f"{i} - 1", f"-{i}", f"({i} + 1) % {bound}", f"({i} * 2) % {bound}", f"{i} // 2"])
            return i
        if bound == "n * m" or "*" in bound:
            ij = [i for i, b in self.idx if b == "n"], [j for j, b in self.idx if b == "m"]
            if ij[0] and ij[1]:
                i, j = self.c(ij[0]), self.c(ij[1])
                return self.c([f"{i} * m + {j}", f"{j} * n + {i}"])
        return self.c(["0", "-1"])

    def atom(self):
        t = self.r.random()
        if t < .3:
            v = self.c(self.vec)
            return f"{v}[{self.index(self.vec[v])}]"
        if t < .5:
            v = self.c(self.mat)
            a, b = self.mat[v]
            return f"{v}[{self.index(a)}, {self.index(b)}]"
        if t < .65:
            return self.c(self.scal)
        if t < .8 and self.idx:
            return self.c(self.idx)[0]
        if t < .85 and self.ints:
            return self.c(self.ints)
        return self.c(["1.0", "2.0", "0.5", "3"])

    def expr(self, d=0):
        if d > 1 or self.p(.35):
            return self.atom()
        t = self.r.random()
        if t < .75:
            return f"({self.expr(d + 1)} {self.c('+-**')[0]} {self.expr(d + 1)})"
        if t < .85:
            return f"abs({self.expr(d + 1)})"
        if t < .9:
            return f"({self.expr(d + 1)} if {self.cond()} else {self.expr(d + 1)})"
        return f"max({self.atom()}, {self.atom()})"

    def cond(self):
        t = self.r.random()
        if self.idx and t < .4:
            i, b = self.c(self.idx)
            return self.c([f"{i} > 0", f"{i} == 0", f"{i} < {b} - 1", f"{i} % 2 == 0", f"{i} == {b} - 1", f"{i} != 1"])
        if len(self.idx) > 1 and t < .5:
            return f"{self.idx[0][0]} {self.c(['<', '==', '<='])} {self.idx[1][0]}"
        return f"{self.atom()} {self.c(['<', '>', '<=', '=='])} {self.c(['0', '0.5', '1', self.atom()])}"

    def vexpr(self, b):
        vs = [v for v, q in self.vec.items() if q == b]
        ms = [f"{m}[{self.index('n')}]" for m, (p, q) in self.mat.items() if q == b and p == "n"]
        ms += [f"{m}[:, {self.index(q)}]" for m, (p, q) in self.mat.items() if p == b]
        xs = vs + ms
        if not xs:
            return f"np.full({b}, {self.atom()})"
        a = self.c(xs)
        t = self.r.random()
        if t < .4:
            return f"{a} * {self.atom()}"
        if t < .7:
            return f"{a} {self.c('+-*')} {self.c(xs)}"
        return f"{a} + {self.atom()}"

    # ---- statements
    def decl(self):
        t = self.r.random()
        if t < .3:
            v, b = self.new("o"), self.c(["n", "m", "n", "n * m"])
            self.emit(f"{v} = np.{self.c(['zeros', 'ones', 'empty'])}({b})" if b != "n" or self.p(.7) else f"{v} = {self.c(['x.copy()', 'np.zeros_like(y)', 'x', 'y * 2'])}")
            if "empty" in self.lines[-1]:
                self.emit(f"{v}[:] = 0")
            self.vec[v] = b
            self.out.append(v)
        elif t < .55:
            v, a, b = self.new("M"), *self.c([("n", "m"), ("m", "n"), ("n", "n"), ("n", "2")])
            self.emit(f"{v} = np.{self.c(['zeros', 'ones'])}(({a}, {b}))")
            self.mat[v] = (a, b)
            self.out.append(v)
        elif t < .75:
            v = self.new("s")
            self.emit(f"{v} = {self.c(['0.0', '1.0', 's0'])}")
            self.scal.append(v)
            self.out.append(v)
        elif t < .85:
            v = self.new("c")
            self.emit(f"{v} = {self.c(['0', '1'])}")
            self.ints.append(v)
            self.out.append(v)
        elif t < .9:
            v = self.new("L")
            self.emit(f"{v} = []")
            self.lists.append(v)
            self.out.append(v)
        elif t < .93:
            v = self.new("obj")
            self.emit(f"{v} = Rec({self.c(['x', 's0', '1.0'])}, np.zeros(n))")
            if "(x," in self.lines[-1]:
                self.vec[v + ".a"] = "n"
            else:
                self.scal.append(v + ".a")
            self.vec[v + ".b"] = "n"
            self.out += [v + ".a", v + ".b"]
            self.objs.append(v)
        elif t < .95:
            v = self.new("d")
            self.emit(f"{v} = {{'a': s0, 'b': np.ones(n), 'c': A}}")
            self.scal.append(f"{v}['a']")
            self.vec[f"{v}['b']"] = "n"
            self.mat[f"{v}['c']"] = ("n", "m")
            self.out += [f"{v}['a']", f"{v}['b']", f"{v}['c']"]
        elif t < .967:
            v = self.new("F")
            self.emit(f"{v} = [Rec(x[q], q * y) for q in range(n)]")
            self.fams.append(v)
            self.out += [f"[q.a for q in {v}]", f"[q.b for q in {v}]"]
        elif t < .985:
            v = self.new("P")
            self.emit(f"{v} = [None] * n")
            self.pre.append(v)
            self.out.append(v)
        else:
            vs = [v for v in self.vec if v.startswith("o")]
            if vs:
                a, v = self.c(vs), self.new("v")
                self.emit(f"{v} = {a}")
                self.vec[v] = self.vec[a]
                self.out.append(v)

    def stmt(self):
        t = self.r.random()
        os = [v for v in self.vec if v[0] in "ovd"]
        if self.p(.2):
            q = self.r.random()
            ns = [i for i, b in self.idx if b == "n"]
            if q < .3 and os:
                v = self.c(os)
                b = self.vec[v]
                i = self.index(b)
                w = self.c([u for u in self.vec if self.vec[u] == b])
                return self.emit(self.c([f"{v}[1:] = {w}[:-1]", f"{v}[:-1] += {w}[1:]", f"{v}[{i}:] = {self.atom()}", f"{v}[:{i}] += 1", f"{v}[::2] = 0", f"{v}[:] = {w}", f"{v} = {w}.copy()", f"{v}[:] = {w}[::-1]", f"put({v}, {i}, {self.atom()})", f"acc({v}, {w})"]))
            if q < .45 and self.fams and self.idx:
                f = self.c(self.fams)
                r = self.new("q")
                self.emit(f"{r} = {f}[{self.index('n')}]")
                return self.emit(self.c([f"{r}.a = {self.expr()}", f"{r}.a += {self.atom()}", f"{r}.b = {self.vexpr('n')}", f"{r}.b = {r}.b * {r}.a"]))
            if q < .6 and self.pre and ns:
                return self.emit(f"{self.c(self.pre)}[{self.c(ns) if self.p(.8) else self.index('n')}] = {self.expr() if self.p(.5) else self.vexpr('n')}")
            if q < .8 and self.depth:
                v = self.new("t")
                w = self.c(self.vec)
                g = self.c([u for u in self.vec if self.vec[u] == self.vec[w]])
                self.emit(f"{v} = " + self.c([f"np.sum({w})", f"{w}.sum()", f"np.dot({w}, {g})", f"np.sum({w} * {g})", f"sum(e * 2 for e in {w})", f"{w}.mean()", f"np.max({w})", f"len({w}) + 0.5", f"np.sum({self.c(self.mat)}, axis=0)[0]"]))
                self.scal.append(v)
                return
        ms = [v for v in self.mat if v.startswith("M")]
        if t < .25 and os:
            v = self.c(os)
            self.emit(f"{v}[{self.index(self.vec[v])}] {self.c(['=', '+=', '-=', '=', '*='])} {self.expr()}")
        elif t < .42 and ms:
            v = self.c(ms)
            a, b = self.mat[v]
            q = self.r.random()
            if q < .55:
                self.emit(f"{v}[{self.index(a)}, {self.index(b)}] {self.c(['=', '+=', '='])} {self.expr()}")
            elif q < .8:
                self.emit(f"{v}[{self.index(a)}] {self.c(['=', '+='])} {self.vexpr(b) if b != '2' else self.atom()}")
            else:
                self.emit(f"{v}[:, {self.index(b)}] {self.c(['=', '+='])} {self.vexpr(a)}")
        elif t < .55 and len(self.scal) > 1:
            self.emit(f"{self.c(self.scal[1:])} {self.c(['+=', '=', '-=', '+='])} {self.expr()}")
        elif t < .6 and self.ints:
            self.emit(f"{self.c(self.ints)} += {self.c(['1', '2', '1'])}")
        elif t < .68 and self.lists:
            self.emit(f"{self.c(self.lists)}.append({self.expr() if self.p(.6) else self.vexpr('n')})")
        elif t < .76 and os:
            v = self.c(os)
            self.emit(f"{v} {self.c(['+=', '=', '-='])} {self.vexpr(self.vec[v])}")
        elif t < .83 and self.depth:
            v = self.new("t")
            self.emit(f"{v} = {self.expr()}")
            self.scal.append(v)
            self.temps.append(v)
        elif t < .88 and ms and self.depth:
            v = self.c(ms)
            a, b = self.mat[v]
            r = self.new("o")
            self.emit(f"{r} = {v}[{self.index(a)}]")
            self.emit(f"{r}[{self.index(b)}] {self.c(['=', '+='])} {self.atom()}")
        elif t < .97:
            self.cond_stmt()
        else:
            self.decl() if not self.depth else self.emit("pass")

    def cond_stmt(self):
        if self.ind > 6:
            return self.emit("pass")
        self.emit(f"if {self.cond()}:")
        self.ind += 1
        self.emit("pass")
        q = self.r.random()
        sc = list(self.scal)
        if self.depth and q < .12:
            self.emit("continue")
        elif self.depth and q < .2:
            self.emit("break")
        elif self.depth and q < .24:
            self.emit("return " + (", ".join(self.out + [""]) if self.out else "s0"))
        else:
            for _ in range(self.c([1, 1, 2])):
                self.stmt()
        self.ind -= 1
        self.scal = [v for v in self.scal if v in sc]
        if self.p(.35):
            self.emit("else:")
            self.ind += 1
            self.emit("pass")
            self.stmt()
            self.ind -= 1
            self.scal = [v for v in self.scal if v in sc]

    def loop(self):
        i = self.new("i")
        b = self.c(["n", "n", "m"])
        t = self.r.random()
        saved = list(self.scal), list(self.idx), dict(self.vec), getattr(self, "temps", [])
        self.temps = []
        if t < .55:
            self.emit(f"for {i} in range({b}):")
        elif t < .65:
            self.emit(f"for {i} in range(1, {b}):")
        elif t < .72:
            self.emit(f"for {i} in range({b} - 1, -1, -1):")
        elif t < .82:
            b = "n"
            v = self.new("t")
            self.emit(f"for {i}, {v} in enumerate(x):")
            self.scal.append(v)
        elif t < .9:
            b = "n"
            v = self.new("r")
            self.emit(f"for {i}, {v} in enumerate(A):")
            self.vec[v] = "m"
        else:
            b = "n"
            v, w = self.new("t"), self.new("t")
            if self.fams and self.p(.6):
                self.emit(f"for {i}, {v} in enumerate({self.c(self.fams)}):")
                self.scal.append(v + ".a")
                self.vec["v." + v if False else v + ".b"] = "n"
            else:
                self.emit(f"for {i}, ({v}, {w}) in enumerate(zip(x, y)):")
                self.scal += [v, w]
        self.idx.append((i, b))
        self.ind += 1
        self.emit("pass")
        self.depth += 1
        for _ in range(self.c([1, 1, 2, 2, 3])):
            if self.depth < 2 and self.p(.3) or self.depth == 2 and self.p(.05):
                self.loop()
            else:
                self.stmt()
        self.depth -= 1
        self.ind -= 1
        keep = i if self.p(.1) else None
        self.scal, self.idx, self.vec, self.temps = saved[0], saved[1], {k: v for k, v in self.vec.items() if k in saved[2]}, saved[3]
        if keep and self.depth == 0:
            self.out.append(keep) if self.p(.5) else None

    def program(self, name):
        for _ in range(self.r.randint(1, 3)):
            self.decl()
        for _ in range(self.c([1, 1, 2])):
            self.loop()
        if self.p(.3):
            self.stmt()
        ret = self.out or ["s0"]
        return f"def {name}(x, y, A, s0, n, m):\n    \"\"\"n:n[{self.lo},4] m:n[{self.lo},4] x:f(n) y:f(n) A:f(n,m) s0:x\"\"\"\n" + "\n".join(self.lines) + f"\n    return {', '.join(ret)},\n"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--keep")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    src = [PRE]
    for k in range(a.n):
        g = G(random.Random(rng.random()))
        g.lo = 1 if g.p(.7) else 0
        src.append(g.program(f"t_{k}").replace('"""n:n', '"""n:n'))
    d = tempfile.mkdtemp()
    f = a.keep or os.path.join(d, f"fz{a.seed}.py")
    # sizes first: the specification lists the parameters in call order
    text = "\n\n".join(src).replace("(x, y, A, s0, n, m)", "(n, m, x, y, A, s0)")
    open(f, "w").write(text)
    stat = R.batch(f, a.seed, 10, quiet=True)
    print(f"seed {a.seed}", {k: len(v) for k, v in stat.items()}, f)


if __name__ == "__main__":
    main()
