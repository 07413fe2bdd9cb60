"""C01  Derivative tables are the exact derivatives of the value table."""
from pyvc import terms as T
from pyvc.values import *
from .common import *

METHODS = {"gradx": "x", "grady": "y", "gradxx": "xx", "gradxy": "xy", "gradyy": "yy"}


def verify(ck):
    for fam in FAMILIES:
        with ck.section(fam):
            order = T.var("order", "I", 2, 1000)
            Q = T.var("Q", "I", 1)
            it = ck.interp()

            def run():
                b = make_basis(it, fam, order)
                xi, eta = points(it, Q, "xi", "eta")
                out = {"value": it.call_method(b, "value", [xi, eta], {})}
                for m in METHODS:
                    out[m] = it.call_method(b, m, [xi, eta], {})
                return [xi, eta] + list(out.values())
            for o in ck.single(it, run, func=fam):
                it.restore(o.state)
                xi, eta, *tabs = o.value
                A = [it.arr(t) for t in tabs]
                names = ["value"] + list(METHODS)
                okrank = True
                for nm, a in zip(names, A):
                    okrank &= ck.fact(f"{nm} rank", a.ndim == 2, nm, f"rank {a.ndim}")
                    if a.ndim == 2:
                        ck.oblige(f"{nm} one row per test function", T.eq(T.lift(a.shape[0]), T.mul(order, order)), it.pc, nm)
                        ck.oblige(f"{nm} one column per point", T.eq(T.lift(a.shape[1]), Q), it.pc, nm)
                if not okrank:
                    continue
                n = order
                X, Y = T.fresh("X", "R"), T.fresh("Y", "R")
                q = T.fresh("q", "I", 0, Q)
                xq, yq = T.rawapp("xi", (q,), "R"), T.rawapp("eta", (q,), "R")
                i, j = T.fresh("i", "I", 0, n), T.fresh("j", "I", 0, n)
                row = T.add(T.mul(n, i), j)
                rep = {xq: X, yq: Y}
                V = T.replace_atoms(A[0].at(row, q), rep)
                loc = not T.mentions(V, lambda t: t.op == "app" and t.args[0] in ("xi", "eta"))
                if not ck.fact("value at a point depends on that point only", loc, "value", T.show(V)):
                    continue
                G = {m: T.replace_atoms(a.at(row, q), rep) for m, a in zip(METHODS, A[1:])}
                for si, ci, pi in ncase(i, n):
                    for sj, cj, pj in ncase(j, n):
                        m = {i: ci, j: cj}
                        ass = list(it.pc) + [pi, pj]
                        v = T.subst(V, m)
                        for meth, d in METHODS.items():
                            w = v
                            for z in d:
                                w = D(w, X if z == "x" else Y)
                            ck.equal(f"{meth} = d{d} value [i {si}, j {sj}]", T.subst(G[meth], m), w, ass, meth)
                for nm, r in (("xi", xi), ("eta", eta)):
                    ck.arrays_equal(it, f"frame {nm}", it.arr(r), (Q,), lambda q, nm=nm: T.rawapp(nm, (q,), "R"), "value")
