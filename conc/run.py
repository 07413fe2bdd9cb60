"""Runtime side of a check: evaluates the contract of one property on the real code (run with /opt/venv/bin/python).

  run.py --prop C15 --seconds 30 [--deep] --out FILE      evaluate cases for up to that many seconds
  run.py --replay FILE                                    re-run the failing case stored in a replay file
"""
import argparse
import ast
import importlib
import json
import os
import random
import sys
import time
import traceback
import contextlib
import io

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


def folded(n):
    """Value of a constant arithmetic expression such as 10 ** -6 or 1 / 1000 (None otherwise)."""
    if not isinstance(n, ast.BinOp) or not isinstance(n.op, (ast.Pow, ast.Div, ast.Mult)):
        return None
    ok = (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Pow, ast.Div, ast.Mult, ast.USub, ast.UAdd)
    if not all(isinstance(x, ok) for x in ast.walk(n)) or any(isinstance(x, ast.Constant) and (isinstance(x.value, bool) or not isinstance(x.value, (int, float)) or abs(x.value) > 1e6) for x in ast.walk(n)):
        return None
    try:
        v = eval(compile(ast.Expression(ast.fix_missing_locations(n)), "<lit>", "eval"))
        return v if isinstance(v, (int, float)) and abs(v) < 1e15 else None
    except Exception:
        return None


class Hints:
    """Numeric and string literals of the current source: sizes and values at which its behaviour may change."""

    def __init__(self, repo, files=None):
        self.ints, self.floats, self.strs = set(), set(), set()
        root = os.path.join(repo, "fastvpinns")
        for d, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(d, f), repo)
                if files and not any(rel.startswith(x) or x in rel for x in files):
                    continue
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    v = folded(n)
                    if v is not None:
                        self.floats.add(float(v))
                        if v == int(v):
                            self.ints.add(int(v))
                    if isinstance(n, ast.Constant):
                        v = n.value
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, int):
                            self.ints.add(v)
                        elif isinstance(v, float):
                            self.floats.add(v)
                            if v == int(v):
                                self.ints.add(int(v))
                        elif isinstance(v, str) and len(v) < 40:
                            self.strs.add(v)

    def mags(self, lo, hi, base=()):
        """Magnitudes on both sides of every numeric literal."""
        s = set(base)
        for v in list(self.floats) + list(self.ints):
            v = abs(v)
            if v:
                s |= {v * .3, v * 3., (v * .3) ** .5, v ** .5 * 3.}
        return sorted(x for x in s if lo <= x <= hi)

    def sizes(self, lo, hi, base=()):
        s = set(base)
        for c in self.ints:
            for d in (-1, 0, 1, 2):
                if lo <= c + d <= hi:
                    s.add(c + d)
        return sorted(x for x in s if lo <= x <= hi)

    def roots(self, lo, hi, base=()):
        """Sizes whose square lies on either side of an integer literal."""
        s = set(base)
        for c in self.ints:
            if 0 < c < 10 ** 8:
                r = int(c ** .5)
                s |= {r, r + 1}
        return sorted(x for x in s if lo <= x <= hi)


class Ctx:
    def __init__(self, prop, seed, deep, seconds, files=None):
        self.prop, self.deep, self.seconds = prop, deep, seconds
        self.rng = random.Random(seed * 7919 + 11)
        self.seed = seed
        self.hints = Hints(REPO, files)

    def s(self):
        return self.rng.randrange(1 << 30)


class Fail(Exception):
    """The contract does not hold on this case."""


@contextlib.contextmanager
def quiet():
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        yield o


def run(mod, case):
    """None or a description of the contract violation."""
    try:
        with quiet():
            mod.run_case(case)
    except Fail as e:
        return str(e)
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e} | {traceback.format_exc(limit=-4)[-900:]}"
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seconds", type=float, default=30)
    ap.add_argument("--deep", action="store_true")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        r = json.load(open(a.replay))
        if not r.get("case"):
            print("the replay file carries no failing input; failed obligations:")
            print(json.dumps(r.get("obligations"), indent=1))
            sys.exit(2)
        mod = importlib.import_module(r["property"])
        f = run(mod, r["case"])
        print("REPRODUCED: " + f if f else "not reproduced")
        sys.exit(1 if f else 0)
    mod = importlib.import_module(a.prop)
    ctx = Ctx(a.prop, seed, a.deep, a.seconds, getattr(mod, "FILES", None))
    t0 = time.time()
    n, kinds, samples, failure = 0, set(), [], None
    exhausted = True
    if not a.deep:
        ctx.fast = True
    for case in mod.cases(ctx):
        if n and time.time() - t0 > a.seconds:
            exhausted = False
            break
        n += 1
        kinds.add(json.dumps(case, sort_keys=True, default=str))
        if len(samples) < 3:
            samples.append(case)
        f = run(mod, case)
        if f:
            # confirm: the same input fails again
            f2 = run(mod, case)
            if f2:
                failure = {"case": case, "failure": f2}
                break
    res = {"evaluations": n, "distinct": len(kinds), "samples": samples, "failure": failure, "seconds": round(time.time() - t0, 2), "exhausted": exhausted,
           "known": getattr(mod, "known", lambda: [])()}
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1, default=str)
    else:
        print(json.dumps(res, indent=1, default=str))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.modules.setdefault("run", sys.modules["__main__"])
    main()
