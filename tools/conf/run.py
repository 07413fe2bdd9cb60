"""Validates the verifier: programs are executed symbolically once (symbolic sizes and entries), the resulting terms are
evaluated for concrete inputs and compared with what the real interpreter and the real libraries compute.

  run.py [--file snippets.py] [--only NAME] [--fuzz N --seed S]

Two processes: this one (verifier) and `real.py` under /opt/venv/bin/python (the libraries /repo runs on)."""
import ast
import json
import math
import os
import random
import subprocess
import sys
import tempfile
import time

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, V)
from pyvc import terms as T, smt  # noqa
from pyvc.values import *  # noqa
from pyvc.interp import Interp  # noqa
from pyvc import pylib  # noqa
from pyvc.evalt import Env, NoValue  # noqa

sys.setrecursionlimit(10000)


def parse(doc):
    out = []
    for w in (doc or "").split():
        n, t = w.split(":", 1)
        out.append((n, t))
    return out


def dims(t):
    return [d for d in t[t.index("(") + 1:-1].split(",") if d]


def sizes(spec):
    s = {}
    for n, t in spec:
        if "(" in t:
            for d in dims(t):
                for w in d.replace("*", " ").replace("+", " ").split():
                    if not w.isdigit():
                        s.setdefault(w, None)
    return list(s)


def evd(d, env):
    return eval(d, {}, env)


def make_inputs(spec, rng):
    env = {d: rng.choice([1, 2, 3, 4, 5, 7]) for d in sizes(spec)}
    args = []
    mode = rng.random()
    fl = (lambda: rng.uniform(-2, 2)) if mode < .6 else (lambda: float(rng.randint(-2, 2)))
    for n, t in spec:
        if t.startswith("n["):  # integer in range, bounds may use sizes
            lo, hi = t[2:-1].split(",")
            args.append(rng.randint(evd(lo, env), evd(hi, env)))
            env[n] = args[-1]
        elif t == "x":
            args.append(fl())
        elif t[0] in "fi" and "(" in t:
            sh = [evd(d, env) for d in dims(t)]
            sz = math.prod(sh)
            lo, hi = (-2, 4)
            if t.startswith("i["):
                lo, hi = [evd(w, env) for w in t[2:t.index("]")].split(",")]
            args.append({"shape": sh, "data": [fl() if t[0] == "f" else rng.randint(lo, hi) for _ in range(sz)], "dtype": "float64" if t[0] == "f" else "int64"})
        elif t.startswith("l("):
            args.append([fl() for _ in range(evd(dims(t)[0], env))])
        elif t.startswith("la("):
            k, *sh = [evd(d, env) for d in dims(t)]
            args.append([{"shape": sh, "data": [fl() for _ in range(math.prod(sh))], "dtype": "float64"} for _ in range(k)])
        else:
            raise SystemExit(f"spec {t}")
    return env, args


def symdim(d, S):
    e = 0
    r = eval(d, {}, {k: W(v) for k, v in S.items()})
    return r.t if isinstance(r, W) else r


class W:
    def __init__(self, t): self.t = t
    def __mul__(self, o): return W(T.mul(self.t, o.t if isinstance(o, W) else o))
    __rmul__ = __mul__
    def __add__(self, o): return W(T.add(self.t, o.t if isinstance(o, W) else o))
    __radd__ = __add__
    def __sub__(self, o): return W(T.sub(self.t, o.t if isinstance(o, W) else o))


def sym_inputs(it, spec):
    S = {d: T.var(f"size_{d}", "I", 1) for d in sizes(spec)}
    args, binds = [], []
    for n, t in spec:
        if t.startswith("n["):
            lo, hi = t[2:-1].split(",")
            v = T.var(f"arg_{n}", "I", symdim(lo, S), T.add(T.lift(symdim(hi, S)), 1))
            S[n] = v
            args.append(v)
            binds.append(("var", f"arg_{n}"))
        elif t == "x":
            args.append(T.var(f"arg_{n}", "R"))
            binds.append(("var", f"arg_{n}"))
        elif t[0] in "fi" and "(" in t:
            sh = [symdim(d, S) for d in dims(t)]
            so = "R" if t[0] == "f" else "I"
            nm = f"in_{n}"
            args.append(it.new_arr(Arr(tuple(sh), lambda *I, nm=nm, so=so: T.rawapp(nm, I, so), "float64" if so == "R" else "int64")))
            if t.startswith("i["):
                lo, hi = [symdim(w, S) for w in t[2:t.index("]")].split(",")]
                smt.AXIOMS[nm] = lambda apps, lo=lo, hi=hi: [c for a in apps for c in (T.le(lo, a), T.le(a, hi))]
            binds.append(("arr", nm))
        elif t.startswith("l("):
            k = symdim(dims(t)[0], S)
            nm = f"in_{n}"
            args.append(it.alloc(ListC((Seg(k, lambda i, nm=nm: T.rawapp(nm, (T.lift(i),), "R")),))))
            binds.append(("list", nm))
        elif t.startswith("la("):
            k, *sh = [symdim(d, S) for d in dims(t)]
            nm = f"in_{n}"
            args.append(it.alloc(ListC((Seg(k, lambda i, nm=nm, sh=tuple(sh): it.new_arr(Arr(sh, lambda *I: T.rawapp(nm, (T.lift(i),) + I, "R")))),))))
            binds.append(("larr", nm))
    return S, args, binds


def flat_get(a, I):
    r = 0
    for i, d in zip(I, a["shape"]):
        if not 0 <= i < d:
            raise NoValue(f"index {I} of {a['shape']}")
        r = r * d + i
    return exact(a["data"][r])


def exact(x):
    return Fraction(x) if isinstance(x, float) else x


def environment(env, S, args, binds):
    vs = {f"size_{d}": v for d, v in env.items()}
    apps = {}
    for a, (k, nm) in zip(args, binds):
        if k == "var":
            vs[nm] = exact(a)
        elif k == "arr":
            apps[nm] = lambda *I, a=a: flat_get(a, I)
        elif k == "list":
            def g(i, a=a):
                if not 0 <= i < len(a):
                    raise NoValue("list index")
                return exact(a[i])
            apps[nm] = g
        else:
            apps[nm] = lambda i, *I, a=a: flat_get(a[i], I)
    for k in range(1, 9):
        apps[f"argsort{k}"] = lambda j, *v: sorted(range(len(v)), key=lambda q: v[q])[j]
    e = Env(vs, apps)
    return e


def argsortN(e, t, b):
    j, n, body = t.args[1:]
    from pyvc.lib import SORTED_AT
    n = e.ev(n, b)
    vals = [e.ev(T.subst(body, {SORTED_AT: T.const(i)}), b) for i in range(n)]
    return sorted(range(n), key=lambda q: vals[q])[e.ev(j, b)]


class Env2(Env):
    def _ev(self, t, b):
        if t.op == "app" and t.args[0] == "argsortN":
            return argsortN(self, t, b)
        return Env._ev(self, t, b)


def value(it, v, e):
    """Concrete value of a symbolic result."""
    import itertools
    if isinstance(v, LastValue) or isinstance(v, Poison):
        v = it.force(v)
    if isinstance(v, Ref):
        c = it.content(v)
        if isinstance(c, ArrC):
            return value(it, it.arr(v), e)
        if isinstance(c, ListC):
            out = []
            for s in c.segs:
                if s.single:
                    out.append(value(it, s.value, e))
                else:
                    n = e.ev(T.lift(s.length))
                    out += [value(it, s.fn(T.const(i)), e) for i in range(n)]
            return out
        if isinstance(c, DictC):
            return {"dict": [[value(it, k, e), value(it, x, e)] for k, x in c.d.items()]}
        if isinstance(c, SymDictC):
            n = e.ev(T.lift(c.n))
            return {"dict": [[value(it, c.keyfn(T.const(i)), e), value(it, c.valfn(T.const(i)), e)] for i in range(n)]}
        raise Unsupported(f"result {type(c).__name__}")
    if isinstance(v, Arr):
        sh = [e.ev(T.lift(d)) for d in v.shape]
        return {"shape": sh, "data": [num(e.ev(v.at(*[T.const(i) for i in I]))) for I in itertools.product(*map(range, sh))], "dtype": v.dtype}
    if isinstance(v, tuple):
        return [value(it, x, e) for x in v]
    if isinstance(v, Term):
        return num(e.ev(v))
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, Fraction, float)):
        return num(v)
    if isinstance(v, range):
        return list(v)
    if isinstance(v, SymSeq):
        return [value(it, v.fn(T.const(i)), e) for i in range(e.ev(T.lift(v.n)))]
    raise Unsupported(f"result {v!r}"[:80])


def num(x):
    if isinstance(x, bool) or isinstance(x, int) or isinstance(x, str):
        return x
    return float(x)


def agree(a, b, path=""):
    """a: verifier, b: real."""
    if isinstance(b, dict) and "shape" in b:
        if not (isinstance(a, dict) and "shape" in a):
            if b["shape"] == []:
                return agree(a, b["data"][0], path)
            return f"{path}: {str(a)[:60]} instead of an array of shape {b['shape']}"
        if a["shape"] != b["shape"]:
            return f"{path}: shape {a['shape']} instead of {b['shape']}"
        ka, kb = [("f" if str(d).startswith("float") else "b" if str(d).startswith("bool") else "i") for d in (a["dtype"], b["dtype"])]
        if ka != kb:
            return f"{path}: dtype {a['dtype']} instead of {b['dtype']}"
        for k, (x, y) in enumerate(zip(a["data"], b["data"])):
            r = agree(x, y, f"{path}[{k}]")
            if r:
                return r
        return None
    if isinstance(b, dict):
        if not isinstance(a, dict) or len(a["dict"]) != len(b["dict"]):
            return f"{path}: {str(a)[:60]} instead of {str(b)[:60]}"
        return agree(a["dict"], b["dict"], path + ".d")
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return f"{path}: {str(a)[:60]} instead of {str(b)[:60]}"
        for k, (x, y) in enumerate(zip(a, b)):
            r = agree(x, y, f"{path}[{k}]")
            if r:
                return r
        return None
    if isinstance(b, (int, float)) and not isinstance(b, bool) and isinstance(a, (int, float)):
        if b != b or abs(b) == math.inf:
            return None
        if isinstance(b, int) and isinstance(a, float) and not a.is_integer():
            return f"{path}: {a} instead of {b}"
        return None if abs(a - b) <= 1e-7 * (1 + abs(b)) else f"{path}: {a} instead of {b}"
    return None if a == b else f"{path}: {a!r} instead of {b!r}"


def run_one(mod, fname, spec, cases, reals, verbose=False):
    it = Interp(mod[0])
    S, args, binds = sym_inputs(it, spec)
    smt.DEADLINE[0] = time.time() + 40
    try:
        fr = it.module_frame(it.load_module(mod[1]))
        outs = it.explore(lambda: it.call(fr[fname], list(args), {}))
    except (Unsupported, smt.OutOfTime) as ex:
        return "unsupported", f"{type(ex).__name__}: {ex}"[:150]
    except Exception as ex:
        if type(ex).__name__ == "MergeFail":
            return "unsupported", f"merge: {ex}"[:150]
        if verbose:
            raise
        return "crash", f"{type(ex).__name__}: {ex}"[:200]
    bad_inv = False
    for n, goal, pc in it.loop_obligations:
        try:
            if not smt.prove(goal, pc):
                bad_inv = n
        except smt.OutOfTime:
            bad_inv = n
    if bad_inv:
        return "unsupported", f"invariant not proved: {bad_inv}"[:150]
    done, skipped = 0, ""
    for (env, vals), real in zip(cases, reals):
        e0 = environment(env, S, vals, binds)
        e = Env2(e0.vars, e0.apps)
        try:
            hits = [o for o in outs if all(e.ev(c) for c in o.conds)]
        except NoValue as ex:
            skipped = f"conds: {ex}"
            continue
        # an exception inside a summarised loop: some iteration, not determined
        maybe = []
        for o in hits:
            st = True
            for c in o.state.pc:
                try:
                    if not e.ev(c):
                        st = False
                        break
                except NoValue:
                    st = None
            if st is not False:
                maybe.append((o, st))
        if real.get("exc") is not None and any(o.flow == "raise" and real["exc"] in [c.name for c in supers(o.exc.cls)] for o, st in maybe):
            done += 1
            continue
        hits = [o for o, st in maybe if not (o.flow == "raise" and st is None)]
        if len(hits) != 1:
            return "WRONG", f"{len(hits)} of {len(outs)} paths apply for {env} {str(vals)[:200]}"
        o = hits[0]
        it.restore(o.state)
        if o.flow == "raise":
            if real.get("exc") is None:
                return "WRONG", f"raises {o.exc} but the program returns, for {env} {str(vals)[:200]}"
            if real["exc"].replace("UnboundLocalError", "NameError") not in [c.name for c in supers(o.exc.cls)]:
                return "WRONG", f"raises {o.exc} instead of {real['exc']}"
            done += 1
            continue
        if real.get("exc") is not None:
            return "WRONG", f"returns but the program raises {real['exc']}: {real.get('msg', '')[:80]}, for {env} {str(vals)[:200]}"
        try:
            smt.DEADLINE[0] = time.time() + 40
            got = value(it, o.value, e)
        except (NoValue, Unsupported) as ex:
            skipped = f"value: {ex}"
            continue
        except Exception as ex:
            if type(ex).__name__ == "MergeFail":
                skipped = "value: merge"
                continue
            if verbose:
                raise
            return "crash", f"evaluating the result: {type(ex).__name__}: {ex}"[:200]
        r = agree(got, real["value"])
        if r:
            return "WRONG", f"result{r} for {env} {str(vals)[:300]}"
        for k, (a, b) in enumerate(zip(args, real["args"])):
            if isinstance(a, Ref):
                try:
                    r = agree(value(it, a, e), b)
                except (NoValue, Unsupported, TypeError) as ex:
                    skipped = f"argument {k}: {ex}"
                    continue
                if r:
                    return "WRONG", f"argument {k} afterwards{r} for {env} {str(vals)[:300]}"
        done += 1
    if not done:
        return "unsupported", skipped[:150]
    return "ok", f"{done}/{len(cases)} {skipped}"[:120]


def supers(c):
    while c is not None:
        yield c
        c = c.base


def functions(path):
    tree = ast.parse(open(path).read())
    return [(n.name, parse(ast.get_docstring(n))) for n in tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("t_")]


def batch(path, seed, ncases, only=None, verbose=False, quiet=False):
    rng = random.Random(seed)
    fs = [f for f in functions(path) if not only or f[0] in only]
    cases = {n: [make_inputs(s, rng) for _ in range(ncases)] for n, s in fs}
    with tempfile.TemporaryDirectory() as d:
        json.dump({"path": path, "cases": {n: [c[1] for c in cs] for n, cs in cases.items()}}, open(f"{d}/in.json", "w"))
        subprocess.run(["/opt/venv/bin/python", f"{H}/real.py", f"{d}/in.json", f"{d}/out.json"], check=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        real = json.load(open(f"{d}/out.json"))
    mod = (os.path.dirname(os.path.abspath(path)), os.path.basename(path)[:-3])
    stat = {}
    for n, s in fs:
        st, msg = run_one(mod, n, s, cases[n], real[n], verbose)
        stat.setdefault(st, []).append(n)
        if st in ("WRONG", "crash") or (not quiet and st != "ok"):
            print(f"{st:12s} {n}: {msg}", flush=True)
    return stat


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--file", default=f"{H}/snippets.py")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=12)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    stat = batch(a.file, a.seed, a.cases, a.only, a.v)
    print({k: len(v) for k, v in stat.items()})
    sys.exit(1 if stat.get("WRONG") or stat.get("crash") else 0)


if __name__ == "__main__":
    main()
