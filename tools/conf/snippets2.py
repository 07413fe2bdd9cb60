import numpy as np
import itertools
import functools
from functools import partial
from itertools import product, chain
from collections import OrderedDict, defaultdict, namedtuple
from dataclasses import dataclass


def t_ufuncs(A, B):
    """A:f(N) B:f(N)"""
    return np.multiply(A, B), np.add(A, B), np.subtract(A, B), np.divide(A, 2.0), np.negative(A), np.true_divide(A, 4), np.power(A, 2)


def t_cmp_ufuncs(A, B):
    """A:f(N) B:f(N)"""
    return np.greater(A, B), np.less_equal(A, B), np.equal(A, A), np.logical_not(A > B), np.sign(A), np.fabs(A)


def t_cumsum(A):
    """A:f(N)"""
    return np.cumsum(A), np.flip(A), np.roll(A, 1)


def t_diff(A):
    """A:f(N+1)"""
    return np.diff(A), A[1:] - A[:-1]


def t_insert(A):
    """A:f(N)"""
    return np.insert(A, 0, 5.0), np.concatenate([[1.0], A, [2.0]])


def t_out(A):
    """A:f(N)"""
    B = np.empty_like(A)
    B[:] = A * 2
    C = np.empty(A.shape)
    C[...] = 1.0
    return B, C


def t_fill(A):
    """A:f(N,M)"""
    A.fill(2.0)
    B = np.zeros(3)
    B.fill(1)
    return A, B


def t_product_iter(n):
    """n:n[1,3]"""
    return [a * b for a, b in product(range(n), range(2))], list(itertools.chain([1], [2, 3]))


def t_product_arr(n):
    """n:n[1,3]"""
    out = np.zeros((n * n,))
    for k, (i, j) in enumerate(product(range(n), range(n))):
        out[k] = 10 * i + j
    return out


def t_ndindex(A):
    """A:f(2,3)"""
    B = np.zeros(A.shape)
    for i, j in np.ndindex(2, 3):
        B[i, j] = A[i, j] * 2
    return B


def t_enum_start(L):
    """L:l(N)"""
    return [(i, v) for i, v in enumerate(L, start=1)], [(i, v) for i, v in enumerate(L, 2)]


def t_zip_star(A):
    """A:f(N,2)"""
    x, y = A.T
    u, v = zip(*[(1, 2), (3, 4)])
    return x, y, u, v


def t_dictcomp(n):
    """n:n[1,3]"""
    d = {k: v * n for k, v in [("a", 1), ("b", 2)]}
    e = dict(a=1, **{"z": 2})
    return d, e, {**d, "c": 3}, sorted(d), sorted([2, 1], reverse=True)


def t_listmul(n):
    """n:n[1,4]"""
    return [0] * 3, [1, 2] * 2, [None] * 2, [0.0] * n, (1,) * 2


def t_listmul_fill(A):
    """A:f(N)"""
    out = [None] * A.shape[0]
    for i in range(A.shape[0]):
        out[i] = A[i] * 2
    return out


def t_partial(x):
    """x:x"""
    f = partial(lambda a, b: a - b, 1)
    g = functools.partial(pow, 2)
    return f(x), g(3)


def t_dispatch(n):
    """n:n[0,1]"""
    table = {"a": lambda v: v + 1, "b": lambda v: v * 2}
    return table["a"](n), [f(n) for f in table.values()], table.get("c", lambda v: 7)(n)


def t_getattr(x):
    """x:x"""
    class P:
        def __init__(self):
            self.a = 1
    p = P()
    setattr(p, "b", x)
    return getattr(p, "b"), hasattr(p, "c"), getattr(p, "c", None), p.__class__.__name__


def t_generator(L):
    """L:l(N)"""
    def g(v):
        for x in v:
            yield x * 2
    return list(g(L)), sum(g(L))


def t_generator_conc(n):
    """n:n[0,4]"""
    def g():
        yield n
        yield n + 1
        if n > 2:
            yield 9
    return list(g()), tuple(g())


def t_dataclass(x):
    """x:x"""
    @dataclass
    class P:
        a: float
        b: int = 2
    p = P(x)
    return p.a, p.b


def t_namedtuple(x):
    """x:x"""
    P = namedtuple("P", ["a", "b"])
    p = P(x, 2)
    return p.a, p.b, p[0]


def t_ordered(n):
    """n:n[0,2]"""
    d = OrderedDict()
    d["b"] = n
    d["a"] = 2
    e = defaultdict(list)
    e["x"].append(1)
    e["x"].append(2)
    return d, list(d.items()), e["x"], len(e)


def t_setin(n):
    """n:n[0,4]"""
    return n in {1, 2}, "a" in {"a", "b"}, len({1, 1, 2}), 3 in set([1, 3])


def t_strs(n):
    """n:n[0,3]"""
    s = "gauss-legendre"
    return s.split("-"), s.upper(), s.startswith("gauss"), s.replace("-", "_"), "-".join(["a", "b"]), s[0], len(s), s.endswith("x"), "x" + s, s[:5], s.strip(), "%d" % 3, "{}-{}".format(1, "b")


def t_isinst(A, n):
    """A:f(N) n:n[0,3]"""
    return isinstance(A, np.ndarray), isinstance(n, (int, float)), isinstance([1], list), isinstance((1,), tuple), isinstance("a", str), isinstance({}, dict), type(n) is int, callable(len)


def t_moveaxis(A):
    """A:f(N,M,2)"""
    return np.moveaxis(A, -1, 0), np.transpose(A, (1, 0, 2)), A.swapaxes(0, 1)


def t_weights_einsum(A, w):
    """A:f(N,M) w:f(M)"""
    return np.einsum("q,iq->iq", w, A), np.einsum("iq,q->i", A, w), A * w[np.newaxis, :], (A.T * w[:, None]).T


def t_iadd_list(L):
    """L:l(N)"""
    M = []
    M += L
    M += [1.0]
    return M, L


def t_while_true(n):
    """n:n[0,5]"""
    k = 0
    while True:
        if k >= n:
            break
        k += 2
    return k


def t_try_index(L):
    """L:l(N)"""
    try:
        return L[3]
    except IndexError:
        return -1.0


def t_with(n):
    """n:n[0,2]"""
    class C:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    with C() as c:
        r = n
    return r


def t_vectorize(A):
    """A:f(N)"""
    return np.vectorize(lambda v: v * v)(A), np.array(list(map(lambda v: v + 1, A)))


def t_apply_axis(A):
    """A:f(N,2)"""
    return np.array([p[0] * p[1] for p in A]), np.apply_along_axis(lambda p: p[0] - p[1], 1, A)


def t_array_of_arrays(x, y):
    """x:f(N) y:f(N)"""
    return np.array([x, y]), np.array([x, y]).T, np.array([[x[0], y[0]], [1, 2]]), np.asarray((x, y))


def t_comp_2d(n, m):
    """n:n[1,4] m:n[1,4]"""
    return np.array([[i * 10 + j for j in range(m)] for i in range(n)])


def t_comp_flat(x, y):
    """x:f(N) y:f(M)"""
    return np.array([a * b for a in x for b in y]), [(a, b) for a in x for b in y]


def t_indices(n):
    """n:n[1,4]"""
    i, j = np.indices((n, 2))
    return i, j, np.arange(n)[:, None] * 2 + np.arange(2)


def t_divmod_arr(n, m):
    """n:n[1,4] m:n[1,3]"""
    k = np.arange(n * m)
    i, j = np.divmod(k, m)
    return i, j, k // m, k % m


def t_unravel(n, m):
    """n:n[1,4] m:n[1,3]"""
    out = np.zeros((n, m))
    for k in range(n * m):
        i, j = divmod(k, m)
        out[i, j] = k
    return out


def t_unravel2(A):
    """A:f(N,M)"""
    out = np.zeros(A.shape[0] * A.shape[1])
    for k in range(A.shape[0] * A.shape[1]):
        out[k] = A[k // A.shape[1], k % A.shape[1]]
    return out


def t_block_assign(A, n):
    """A:f(N,2) n:n[1,3]"""
    m = A.shape[0]
    out = np.zeros((n * m, 2))
    for i in range(n):
        out[i * m:(i + 1) * m, :] = A + i
    return out


def t_hsplit(A):
    """A:f(N,2)"""
    a, b = A[:, 0:1], A[:, 1:2]
    return a, b, np.hstack([a, b]), np.concatenate([a, b], axis=1), np.concatenate((a, b), axis=-1)


def t_extend_rows(A):
    """A:f(N,2)"""
    rows = []
    for i in range(A.shape[0]):
        rows.append([A[i, 0], A[i, 1], 0.0])
    return np.array(rows), len(rows)


def t_accum_stack(A):
    """A:f(N,M)"""
    cols = []
    for j in range(A.shape[1]):
        cols.append(A[:, j])
    return np.stack(cols, axis=-1), np.array(cols)


def t_dict_lists(n):
    """n:n[1,4]"""
    d = {1000: [], 1001: []}
    for i in range(n):
        d[1000].append([i, 0])
        d[1001].append([0, i])
    return {k: np.array(v) for k, v in d.items()}


def t_setdefault(n):
    """n:n[1,4]"""
    d = {}
    d.setdefault(5, []).append(n)
    d.setdefault(5, []).append(n + 1)
    return d


def t_reduce_sum(A):
    """A:f(N)"""
    return functools.reduce(lambda a, b: a + b, A), sum(A), sum(list(A)), np.add.reduce(A)


def t_neg_step(n):
    """n:n[1,5]"""
    out = []
    for i in range(n - 1, -1, -1):
        out.append(i)
    return out, list(reversed(range(n)))


def t_range_start(A):
    """A:f(N)"""
    B = np.zeros(A.shape[0] + 2)
    for i in range(2, A.shape[0] + 2):
        B[i] = A[i - 2]
    return B


def t_range_step(A):
    """A:f(N)"""
    B = np.zeros(2 * A.shape[0])
    for i in range(0, 2 * A.shape[0], 2):
        B[i] = A[i // 2]
    return B


def t_lists_parallel(A):
    """A:f(N,2)"""
    xs, ys = [], []
    for p in A:
        x, y = p
        xs.append(x)
        ys.append(y)
    return np.array(xs), np.array(ys), np.column_stack([xs, ys])


def t_double_acc(A):
    """A:f(N)"""
    s, t = 0.0, 1.0
    for v in A:
        s = s + v
        t = t + 2 * v
    return s, t


def t_nested_acc(A):
    """A:f(N,M)"""
    tot = 0.0
    rows = []
    for i in range(A.shape[0]):
        r = 0.0
        for j in range(A.shape[1]):
            r += A[i, j]
        rows.append(r)
        tot += r
    return tot, np.array(rows)


def t_helper(A):
    """A:f(N)"""
    return _h(A, k=3), _h2(*A.shape)


def _h(v, k=1):
    return v * k


def _h2(n):
    return n + 1


def t_global(x):
    """x:x"""
    return x * CONST


CONST = 4


def t_assert(n):
    """n:n[0,3]"""
    assert n < 2, "no"
    return n


def t_float_int(n):
    """n:n[0,7]"""
    return int(n / 4), n // 4, int(np.floor(n / 4)), float(n) / 2, n ** 2, 2 ** n, round(n / 2), int(2.7), int(-2.7)


def t_np_scalar(A):
    """A:f(N)"""
    return float(A[0]), A[0].item(), np.float64(3), A[0].dtype == np.float64, A.dtype == "float64", np.int64(2) + 1


def t_eq_arr(A):
    """A:f(N)"""
    return np.array_equal(A, A.copy()), np.allclose(A, A), (A == A).sum()


def t_min_where(A):
    """A:f(N)"""
    return A.min(), A[A > -5].shape[0] if False else 0


def t_ternary_fn(n):
    """n:n[0,3]"""
    f = (lambda v: v) if n > 1 else (lambda v: -v)
    return f(3)


def t_del(n):
    """n:n[0,3]"""
    d = {"a": 1, "b": 2}
    del d["a"]
    x = d.pop("b")
    return d, x, bool(d), not []


def t_copy_semantics(A):
    """A:f(N,2)"""
    B = A[:]
    C = A.copy()
    D = np.array(A)
    E = np.asarray(A)
    A[0, 0] = 42.0
    return B, C, D, E


def t_list_of_views(A):
    """A:f(3,2)"""
    L = [A[i] for i in range(3)]
    L[0][0] = 9.0
    M = list(A)
    M[1][1] = 8.0
    return A, L


def t_transposed_reshape(A):
    """A:f(N+1,M+1)"""
    B = A.T.reshape(-1)
    B[0] = 77.0
    C = A.reshape(-1)
    C[1] = 66.0
    D = A[:, 1:].flatten()
    D[0] = 55.0
    return A, B


def t_ravel_write(A):
    """A:f(N+1,M+1)"""
    B = A.ravel()
    B[0] = 1.5
    C = A[:, 0].reshape(-1, 1)
    C[0, 0] = 2.5
    D = A.T.ravel()
    D[1] = 3.5
    return A


def t_aug_slices(A):
    """A:f(N+2,M)"""
    A[1:] += A[0]
    A[:, 0] *= 2
    A[0] -= A[1]
    return A


def t_multi_target(n):
    """n:n[0,3]"""
    a = b = [n]
    a.append(1)
    c, d = (1, 2), [3]
    return a, b, c, d


def t_tuple_ops(n):
    """n:n[0,3]"""
    t = (1, n) + (3,)
    return t, t[1:], t.index(3), 3 in t, len(t), min(t), max(t)


def t_lambda_default(n):
    """n:n[0,3]"""
    fs = [lambda x, i=i: x + i for i in range(3)]
    return [f(n) for f in fs]


def t_hyp(A, B):
    """A:f(N) B:f(N)"""
    return np.hypot(A, B), np.linalg.norm(A), np.abs(A) ** 0.5, np.log(np.abs(A) + 1)


def t_norm_axis(A):
    """A:f(N,2)"""
    return np.linalg.norm(A, axis=1), np.sqrt((A ** 2).sum(axis=1))


def t_std(A):
    """A:f(N)"""
    return np.mean(np.abs(A)), np.max(np.abs(A)), np.sqrt(np.mean(A ** 2)), np.sum(A ** 2) / A.size, A.mean(), np.average(A)


def t_argmax(A):
    """A:f(4)"""
    return np.argmax(A), np.argmin(A), A.argmax()


def t_split(A):
    """A:f(4,2)"""
    a, b = np.split(A, 2)
    return a, b, np.array_split(A, 2)[0]


def t_pad(n):
    """n:n[1,3]"""
    return np.r_[0.0, np.arange(n)], np.tile(np.array([1.0, 2.0]), (n, 1)), np.repeat(np.arange(n), 2), np.tile(np.arange(n), 3)


def t_grid(n, m):
    """n:n[1,4] m:n[1,4]"""
    x = np.linspace(0, 1, n + 1)
    y = np.linspace(0, 2, m + 1)
    pts = np.array([(x[i], y[j]) for j in range(m) for i in range(n)])
    g = np.stack(np.meshgrid(x, y), axis=-1).reshape(-1, 2)
    return pts, g


def t_cells(n, m):
    """n:n[1,3] m:n[1,3]"""
    x = np.linspace(0, 1, n + 1)
    y = np.linspace(0, 2, m + 1)
    cells = []
    for i in range(n):
        for j in range(m):
            cells.append([[x[i], y[j]], [x[i + 1], y[j]], [x[i + 1], y[j + 1]], [x[i], y[j + 1]]])
    return np.array(cells, dtype=np.float64)


def t_cells_pre(n, m):
    """n:n[1,3] m:n[1,3]"""
    c = np.zeros((n * m, 4, 2))
    k = 0
    for i in range(n):
        for j in range(m):
            c[k, 0] = [i, j]
            c[k, 1] = [i + 1, j]
            c[k, 2, :] = (i + 1, j + 1)
            c[k, 3] = np.array([i, j + 1])
            k += 1
    return c, k


def t_str_cmp(n):
    """n:n[0,2]"""
    s = ["a", "b", "c"][n]
    if s == "a":
        return 1
    elif s in ["b"]:
        return 2
    return 3


def t_print(n):
    """n:n[0,2]"""
    print(f"{n:.3f} {n!r} {'x':>5}")
    return None
def t_accbreak(x):
    "x:f(n)"
    s = 0.0
    for i in range(x.shape[0]):
        s += x[i]
        if s > 1:
            break
    return s

def t_accbreak2(x, y):
    "x:f(n) y:x"
    k = 0
    for i in range(x.shape[0]):
        if k > 2:
            break
        k += 1
    return k

def t_accbreak3(x):
    "x:f(n)"
    y = np.zeros(x.shape[0])
    for i in range(x.shape[0]):
        y[0] += x[i]
        if y[0] > 1:
            break
    return y

def t_brk_i(x):
    "x:f(n)"
    j = -1
    for i in range(x.shape[0]):
        j = i
        if x[i] > 0:
            break
    else:
        j = 100
    return j, i

def t_ret(x, y):
    "x:f(n) y:f(n)"
    s = 0.0
    for i in range(x.shape[0]):
        if x[i] > 0:
            return s, i
        s += y[i]
    return s, -1

def t_ret_first(x):
    "x:f(n)"
    for i in range(x.shape[0]):
        return x[i]
    return 0.0

def t_ret_brk(x, y):
    "x:f(n) y:f(n)"
    out = np.zeros(x.shape[0])
    for i in range(x.shape[0]):
        out[i] = x[i] * 2
        if x[i] > 1:
            return out
        if y[i] > 1:
            out[i] = 7
            break
        out[i] += 1
    return out + 1

def helper(x, v):
    for i in range(x.shape[0]):
        if x[i] == v:
            return i
    return None

def t_ret_helper(x, y):
    "x:i(n) y:i(m)"
    out = np.zeros(y.shape[0])
    for j in range(y.shape[0]):
        r = helper(x, y[j])
        if r is not None:
            out[j] = r
    return out
def t_while(x):
    "x:f(n)"
    i = 0
    while i < x.shape[0] and x[i] < 0:
        i += 1
    return i
def t_sorted_chk(x):
    "x:f(n)"
    for i in range(1, len(x)):
        if x[i] < x[i - 1]:
            raise ValueError("no")
    return True
def t_allret(x):
    "x:f(n)"
    for v in x:
        if v < -1:
            return False
    return True
def t_ret_nested(x):
    "x:f(n,m)"
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            if x[i, j] > 1.5:
                return i, j
    return -1, -1
def t_brk_nested(x):
    "x:f(n,m)"
    out = np.zeros(x.shape[0])
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            if x[i, j] > 1:
                break
            out[i] += x[i, j]
    return out


def t_allclose(A):
    """A:f(N)"""
    B = A + 1e-9
    C = A + 1.0
    return np.allclose(A, B), np.allclose(A, C), np.allclose(A, 0.0, atol=1e3)


class Counted:
    made = None
    total = 0
    seen = []

    def __init__(self, v):
        if Counted.made is None:
            Counted.made = v
        type(self).total = self.total + 1
        self.seen.append(v)
        self.v = v

    def first(self):
        return self.made * 2 + self.v


def t_class_state(x, y):
    """x:x y:x"""
    Counted.made, Counted.total, Counted.seen = None, 0, []
    a = Counted(x)
    b = Counted(y)
    return a.first(), b.first(), a.total, len(b.seen), Counted.seen[0], b.made, Counted.made


def t_class_branch(x, y):
    """x:x y:x"""
    Counted.made, Counted.total, Counted.seen = None, 0, []
    if x > y:
        Counted.made = 7.0
    a = Counted(x)
    a.made = 3.0
    return a.first(), Counted.made, a.made, Counted.total


def t_class_loop(A):
    """A:f(N+1)"""
    Counted.made, Counted.total, Counted.seen = None, 0, []
    for v in A:
        Counted.made = v
    return Counted.made, Counted(A[0]).first()
