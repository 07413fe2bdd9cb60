"""Contract obligations: collection, discharge and reporting."""
import contextlib
import os
import re
import time
import traceback
from . import terms as T, smt
from .terms import TRUE, FALSE
from .values import *
from .interp import Interp, EXC, MergeFail
from . import iolib, tflib, ghost, pylib


def canon(goal, pc):
    """A key equal for obligations that differ only in the names of generated variables (None if it would be ambiguous)."""
    ns = {}

    def ren(s):
        return re.sub(r"[A-Za-z_]\w*!\d+", lambda m: ns.setdefault(m.group(0), f"v{len(ns)}"), s)
    parts = [ren(T.show(goal))] + [ren(T.show(c)) for c in pc]
    fv = set(goal.fv)
    for c in pc:
        fv |= c.fv
    done = set()
    todo = sorted(fv, key=lambda v: ren(v.args[0]))
    while todo:
        v = todo.pop(0)
        if v in done:
            continue
        done.add(v)
        parts.append(ren(f"{v.args[0]}:{v.sort}:{T.show(v.lo) if v.lo is not None else ''}:{T.show(v.hi) if v.hi is not None else ''}"))
        for b in (v.lo, v.hi):
            if b is not None:
                todo.extend(sorted(b.fv - done, key=lambda v: ren(v.args[0])))
    key = "|".join(parts)
    return None if "..." in key else key


class Ob:
    __slots__ = ("name", "func", "status", "how", "detail", "secs")

    def __init__(self, name, func, status, how="", detail="", secs=0.0):
        self.name, self.func, self.status, self.how, self.detail, self.secs = name, func, status, how, detail, secs

    def dict(self):
        return {"name": self.name, "function": self.func, "status": self.status, "by": self.how, "detail": self.detail, "seconds": round(self.secs, 3)}


class Check:
    def __init__(self, prop, repo="/repo", tier="quick", budget=400):
        self.prop, self.repo, self.tier = prop, repo, tier
        self.obs = []
        self.functions = set()
        self.trusted = set()
        self.assumed = set()
        self.contracts_used = set()
        self.known = []
        self.prefix = ""
        self.t0 = time.time()
        self.budget = budget
        self._inv_memo = {}
        smt.DEADLINE[0] = self.t0 + budget

    # ---------------------------------------------------------------- running
    def interp(self, **overrides):
        it = Interp(self.repo)
        self._its = getattr(self, "_its", [])
        self._its.append(it)
        return it

    def absorb(self, it):
        self.functions |= it.calls
        self.trusted |= {t for t in it.trusted if t}
        self.assumed |= set(it.assumed)
        bad = False
        for n, goal, pc in it.loop_obligations:
            t = time.time()
            key = canon(goal, pc)
            how = self._inv_memo.get(key) if key else None
            if how is None:
                try:
                    r = smt.prove(goal, pc)
                except smt.OutOfTime:
                    r = None
                if not r:
                    bad = True
                    self.obs.append(Ob(f"{self.prefix}{n}", "", "unknown", "", "inferred loop invariant not shown inductive: " + T.show(goal)[:300], time.time() - t))
                    continue
                how = r.how
                if key:
                    self._inv_memo[key] = how
            self.obs.append(Ob(f"{self.prefix}{n}", "", "proved", how, "", time.time() - t))
        it.loop_obligations = []
        return bad

    @contextlib.contextmanager
    def section(self, name, func="", secs=None):
        """Obligations about one function.  Failing to execute it leaves the section undecided."""
        old, self.prefix = self.prefix, f"{self.prefix}{name}: "
        t = time.time()
        its0 = len(getattr(self, "_its", []))
        n0 = len(self.obs)
        deadline = smt.DEADLINE[0]
        if secs is not None and deadline is not None:
            smt.DEADLINE[0] = min(deadline, time.time() + secs)
        try:
            yield self
        except (Unsupported, MergeFail) as e:
            self.obs.append(Ob(f"{self.prefix}reach", func, "unsupported", "", f"{type(e).__name__}: {e}"))
        except PyRaise as e:
            self.obs.append(Ob(f"{self.prefix}no exception", func, "undecided-raise", "", f"raises {e}"))
        except smt.OutOfTime:
            self.obs.append(Ob(f"{self.prefix}reach", func, "timeout", "", "time budget used up"))
        except RecursionError as e:
            self.obs.append(Ob(f"{self.prefix}reach", func, "unsupported", "", "recursion"))
        except Exception as e:
            if os.environ.get("PYVC_DEBUG"):
                raise
            self.obs.append(Ob(f"{self.prefix}reach", func, "error", "", f"{type(e).__name__}: {e} {traceback.format_exc(limit=-3)}"))
        finally:
            smt.DEADLINE[0] = deadline
            bad = False
            for it in getattr(self, "_its", [])[its0:]:
                bad |= self.absorb(it)
            if bad:
                # nothing in this section may be called refuted on the strength of an unproved invariant
                for o in self.obs[n0:]:
                    if o.status == "refuted":
                        o.status = "unknown"
            if len(self.obs) == n0:
                self.obs.append(Ob(f"{self.prefix}non-empty", func, "error", "", "the section produced no obligation"))
            self.prefix = old

    @contextlib.contextmanager
    def part(self, name):
        """Obligations named after a part of a section."""
        old, self.prefix = self.prefix, f"{self.prefix}{name}: "
        try:
            yield
        finally:
            self.prefix = old

    def explore(self, it, thunk, pre=()):
        for p in pre:
            it.assume(p)
        return it.explore(thunk)

    def single(self, it, thunk, name="terminates normally", func="", allow=()):
        """Run thunk; every path must end normally.  Returns the list of normal outcomes."""
        outs = it.explore(thunk)
        norm = [o for o in outs if o.flow == "normal"]
        bad = [o for o in outs if o.flow != "normal"]
        if not outs:
            raise Unsupported("no feasible path")
        if bad:
            self.obs.append(Ob(f"{self.prefix}{name}", func, "refuted", "path", "; ".join(f"{o.flow} {o.exc} when {[T.show(c) for c in o.conds]}"[:400] for o in bad)))
        else:
            self.obs.append(Ob(f"{self.prefix}{name}", func, "proved", "path-enumeration"))
        return norm

    def exits(self, it, thunk, name, func=""):
        return it.explore(thunk)

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, goal, ass=(), func="", timeout=None):
        t = time.time()
        goal = T.lift(goal)
        full = self.prefix + name
        try:
            r = smt.prove(goal, list(ass), timeout)
        except smt.OutOfTime:
            self.obs.append(Ob(full, func, "timeout", "", "", time.time() - t))
            return False
        if r:
            self.obs.append(Ob(full, func, "proved", r.how, "", time.time() - t))
            return True
        d = T.show(r.residual[1])[:1500] if r.residual else T.show(goal)[:1500]
        if r.model:
            d += "  MODEL " + str(r.model)[:800]
        self.obs.append(Ob(full, func, r.status, r.how, d, time.time() - t))
        return False

    def equal(self, name, a, b, ass=(), func=""):
        a, b = T.lift(a), T.lift(b)
        if a.sort == "B" or b.sort == "B":
            return self.oblige(name, T.iff(a, b), ass, func)
        return self.oblige(name, T.eq(a, b), ass, func)

    def arrays_equal(self, it, name, a, spec_shape, spec, func="", idx=None, extra=()):
        """Array a has shape spec_shape and elements spec(*I)."""
        if a.ndim != len(spec_shape):
            self.obs.append(Ob(self.prefix + name + ".rank", func, "refuted", "shape", f"rank {a.ndim} instead of {len(spec_shape)}"))
            return False
        ok = True
        g = T.and_(*[T.eq(T.lift(x), T.lift(y)) for x, y in zip(a.shape, spec_shape)])
        ok &= self.oblige(name + ".shape", g, list(it.pc) + list(extra), func)
        if not ok:
            return False
        if idx is None:
            I = [T.fresh("e", "I", 0, d) for d in spec_shape]
        else:
            I = idx
        ok &= self.equal(name + ".elements", a.at(*I), spec(*I), list(it.pc) + list(extra), func)
        return ok

    def fact(self, name, ok, func="", detail="", how="structural", bad="refuted"):
        self.obs.append(Ob(self.prefix + name, func, "proved" if ok else bad, how, "" if ok else detail))
        return ok

    # ---------------------------------------------------------------- summary
    def summary(self):
        by = {}
        for o in self.obs:
            if o.status == "proved":
                by[o.how] = by.get(o.how, 0) + 1
        return {
            "obligations": len(self.obs),
            "discharged": sum(o.status == "proved" for o in self.obs),
            "failed": [o.dict() for o in self.obs if o.status != "proved"],
            "by": by,
            "functions": sorted(self.functions),
            "trusted": sorted(self.trusted),
            "assumed": sorted(self.assumed),
            "solver": dict(smt.STATS),
            "known": self.known,
            "seconds": round(time.time() - self.t0, 2),
        }
