"""C15  Error metrics equal their definitions."""
from pyvc import terms as T

MOD = "fastvpinns.utils.compute_utils"


def spec(ref, pred, N):
    """ref, pred: functions of the flat position; the six norms in the documented order."""
    def mean(f):
        v = T.fresh("r", "I", 0, N)
        return T.div(T.sumr(v, N, f(v)), N)

    def mx(f):
        v = T.fresh("r", "I", 0, N)
        return T.red("max", v, N, f(v))
    d = lambda i: T.sub(ref(i), pred(i))
    sq = lambda t: T.mul(t, t)
    l1, l2, li = mean(lambda i: T.absv(d(i))), T.sqrt(mean(lambda i: sq(d(i)))), mx(lambda i: T.absv(d(i)))
    n1, n2, ni = mean(lambda i: T.absv(ref(i))), T.sqrt(mean(lambda i: sq(ref(i)))), mx(lambda i: T.absv(ref(i)))
    return {"l2": l2, "linf": li, "l2_rel": T.div(l2, n2), "linf_rel": T.div(li, ni), "l1": l1, "l1_rel": T.div(l1, n1)}


FUN = {"compute_l1_error": "l1", "compute_l2_error": "l2", "compute_linf_error": "linf",
       "compute_l1_error_relative": "l1_rel", "compute_l2_error_relative": "l2_rel", "compute_linf_error_relative": "linf_rel"}
ORDER = ["l2", "linf", "l2_rel", "linf_rel", "l1", "l1_rel"]


def verify(ck):
    n = T.var("n", "I", 1)
    m = T.var("m", "I", 1)
    nm = T.mul(n, m)
    shapes = [((n,), (n,)), ((n, 1), (n,)), ((n,), (n, 1)), ((n, 1), (n, 1)), ((1, n), (n, 1)), ((n, m), (n, m)), ((nm,), (n, m)), ((n, m), (nm, 1)), ((1,), (1,))]
    for sa, sb in shapes:
        for f in list(FUN) + ["compute_errors_combined"]:
            with ck.section(f"{f}{show(sa)}{show(sb)}", f):
                it = ck.interp()
                fr = it.module_frame(it.load_module(MOD))
                N = T.ONE
                for d in sa:
                    N = T.mul(N, d)

                def flat(name, shape):
                    # the array with this shape whose row-major flattening is name(0..N-1)
                    from pyvc.lib import flat_index
                    from pyvc.values import Arr
                    return Arr(shape, lambda *I: T.rawapp(name, (flat_index(I, shape),), "R"))
                a, b = it.new_arr(flat("exact", sa)), it.new_arr(flat("approx", sb))
                sp = spec(lambda i: T.rawapp("exact", (T.lift(i),), "R"), lambda i: T.rawapp("approx", (T.lift(i),), "R"), N)
                pre = []
                if f.endswith("relative") or f.endswith("combined"):
                    # precondition of the relative versions: the exact solution is not identically zero
                    for k in ("l1", "l2", "linf"):
                        pass
                outs = ck.single(it, lambda: it.call(fr[f], [a, b], {}), func=f)
                for o in outs:
                    it.restore(o.state)
                    v = o.value
                    if f == "compute_errors_combined":
                        if not ck.fact("returns six values", isinstance(v, tuple) and len(v) == 6, f, repr(v)):
                            continue
                        for name, x in zip(ORDER, v):
                            ck.equal(name, scalar(it, x), sp[name], it.pc, f)
                    else:
                        ck.equal(FUN[f], scalar(it, v), sp[FUN[f]], it.pc, f)
                    # frame: the arguments are not modified
                    for nm_, r, sh in (("u_exact", a, sa), ("u_approx", b, sb)):
                        ck.arrays_equal(it, f"frame {nm_}", it.arr(r), sh, flat("exact" if r is a else "approx", sh).at, f)


def scalar(it, v):
    a = it.arr(v)
    if a.ndim:
        from pyvc.values import Unsupported
        raise Unsupported("array result")
    return a.at()


def show(s):
    return "(" + ",".join(T.show(d) if isinstance(d, T.Term) else str(d) for d in s) + ")"
