import numpy as np
import copy


def t_sum2(A):
    """A:f(N,M)"""
    return np.sum(A), A.sum(axis=0), np.mean(A, axis=1), A.mean()


def t_minmax(A):
    """A:f(N,M)"""
    return A.max(), A.min(axis=0), np.max(A, axis=1, keepdims=True)


def t_loop_rows(A):
    """A:f(N,M)"""
    B = np.zeros((A.shape[0], A.shape[1]))
    for i in range(A.shape[0]):
        B[i, :] = A[i, :] * (i + 1)
    return B


def t_loop_nested(A):
    """A:f(N,M)"""
    B = np.zeros(A.shape)
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            B[i, j] = A[i, j] + i * 10 + j
    return B


def t_running(x):
    """x:f(N)"""
    s = 0.0
    out = []
    for v in x:
        s += v
        out.append(s)
    return s, out


def t_ravel_index(n, m):
    """n:n[1,5] m:n[1,6]"""
    B = np.zeros(n * m)
    for i in range(n):
        for j in range(m):
            B[i * m + j] = i - 2 * j
    return B


def t_append_vstack(L):
    """L:la(K,N)"""
    return np.vstack(L), np.stack(L, axis=0), np.concatenate(L)


def t_views(A):
    """A:f(N,M)"""
    r = A[0]
    r[0] = 7.0
    c = A[:, 0]
    B = A.T
    B[0, 0] += 1
    return A, r, c


def t_copy(A):
    """A:f(N)"""
    B = A.copy()
    B[0] = 99.0
    C = A
    C[0] = 5.0
    return A, B


def t_neg_index(A):
    """A:f(N,M)"""
    return A[-1, -1], A[-1], A[:, -1]


def t_slices(A):
    """A:f(N+3)"""
    return A[1:], A[:-1], A[1:-1], A[::2], A[1:3], A[::-1]


def t_meshgrid(x, y):
    """x:f(N) y:f(M)"""
    X, Y = np.meshgrid(x, y)
    return X.flatten(), Y.flatten(), X.ravel(order="C")


def t_meshgrid_ij(x, y):
    """x:f(N) y:f(M)"""
    X, Y = np.meshgrid(x, y, indexing="ij")
    return X.flatten(), Y.flatten()


def t_outer(x, y):
    """x:f(N) y:f(M)"""
    return (x[:, np.newaxis] * y).flatten(), np.outer(x, y), np.kron(x, y)


def t_reshape(A):
    """A:f(N,M)"""
    return A.reshape(-1, 1), A.reshape(-1), A.reshape((A.shape[1], A.shape[0])), A.T.reshape(-1)


def t_reshape3(A):
    """A:f(N,M,K)"""
    return A.reshape(A.shape[0], -1), A.transpose(2, 0, 1), np.swapaxes(A, 0, 1)


def t_linspace(a, b, n):
    """a:x b:x n:n[1,6]"""
    return np.linspace(a, b, n), np.linspace(a, b, n + 1, endpoint=False), np.linspace(a, b, 2 * n)[1]


def t_arange(n, m):
    """n:n[0,5] m:n[1,3]"""
    return np.arange(n), np.arange(n, n + m), np.arange(0, n, m), list(range(n, 0, -1)), list(range(0, n, m))


def t_where(A):
    """A:f(N)"""
    return np.where(A > 0, A, -A), np.abs(A), np.maximum(A, 0.5), np.minimum(A, 0), np.clip(A, -1, 1)


def t_mask_mul(A):
    """A:f(N)"""
    return A * (A > 0), (A > 0).astype(int), np.sum(A > 0)


def t_argsort(A):
    """A:f(N)"""
    i = np.argsort(A)
    return A[i], np.sort(A)


def t_argsort4(A):
    """A:f(N,4)"""
    i = np.argsort(A, axis=1)
    return np.take_along_axis(A, i, axis=1)


def t_round(A):
    """A:f(N)"""
    return np.floor(A), np.round(A + 0.123, 2), np.ceil(A)


def t_divmod(n, m):
    """n:n[0,20] m:n[1,5]"""
    return n // m, n % m, divmod(n, m), -n // m, -n % m, int(n / m)


def t_if_else(x, y):
    """x:x y:x"""
    if x > y:
        r = x - y
    elif x == y:
        r = 0
    else:
        r = y - x
    return r


def t_raise(x):
    """x:x"""
    if x > 1:
        raise ValueError("big")
    return x


def t_raise_in_loop(A):
    """A:f(N)"""
    for v in A:
        if v > 1.5:
            raise ValueError("big")
    return A.sum()


def t_index_error(A, i):
    """A:f(N) i:n[-6,6]"""
    return A[i]


def t_list_index(L, i):
    """L:l(N) i:n[-6,6]"""
    return L[i]


def t_zip(x, y):
    """x:f(N) y:f(N)"""
    out = []
    for a, b in zip(x, y):
        out.append(a * b)
    return np.array(out)


def t_enumerate(x):
    """x:f(N)"""
    out = np.zeros((len(x), 2))
    for k, v in enumerate(x):
        out[k] = [k, v]
    return out


def t_listcomp(x):
    """x:f(N)"""
    return [v * v for v in x], [i for i in range(len(x))], sum(v for v in x)


def t_dict(x):
    """x:f(N)"""
    d = {}
    for i in range(len(x)):
        d[i] = x[i] * 2
    return d, [d[k] for k in d.keys()], list(d.values())


def t_extend(L):
    """L:la(K,N)"""
    out = []
    for a in L:
        out.extend(a)
    return out


def t_nested_append(L):
    """L:la(K,N,2)"""
    out = []
    for a in L:
        for p in a:
            out.append(p[0] + p[1])
    return np.array(out)


def t_fancy(A, I):
    """A:f(N) I:i[0,N-1](M)"""
    return A[I], A[I].sum()


def t_fancy2(A, I):
    """A:f(N,2) I:i[0,N-1](M,4)"""
    return A[I], A[I][:, :, 0].mean(axis=1)


def t_fancy_set(A, I):
    """A:f(N) I:i[0,N-1](M)"""
    A[I] = 3.0
    return A


def t_scatter_add(A, I):
    """A:f(N) I:i[0,N-1](M)"""
    for k in I:
        A[k] += 1.0
    return A


def t_matmul(A, x):
    """A:f(N,M) x:f(M)"""
    return A @ x, np.dot(A, x), A.dot(x), x @ x


def t_matmul2(A, B):
    """A:f(N,M) B:f(M,K)"""
    return A @ B, (A @ B).T


def t_einsum(A, B):
    """A:f(N,M) B:f(N,M)"""
    return np.einsum("ij,ij->i", A, B), np.einsum("ij->j", A), np.einsum("ij,kj->ik", A, B)


def t_broadcast(A, x):
    """A:f(N,M) x:f(M)"""
    return A * x, A + x[None, :], A - A[:, :1], A / 2.0, 2 ** 3 * A, -A


def t_bcast_err(x, y):
    """x:f(N) y:f(M)"""
    return x + y


def t_inplace(A):
    """A:f(N,M)"""
    A *= 2
    A[0] += 1
    A[:, 0] -= 3
    return A


def t_augalias(A):
    """A:f(N)"""
    B = A
    B += 1
    A = A + 1
    return A, B


def t_tile_repeat(x, n):
    """x:f(N) n:n[1,4]"""
    return np.tile(x, n), np.repeat(x, n), np.tile(x, (n, 1))


def t_stack_cols(x, y):
    """x:f(N) y:f(N)"""
    return np.column_stack((x, y)), np.vstack((x, y)).T, np.stack([x, y], axis=1), np.c_[x, y], np.hstack((x, y))


def t_append(x, y):
    """x:f(N) y:f(M)"""
    return np.append(x, 1), np.append(-1, x), np.append(x, y), np.concatenate(([0.5], x, y))


def t_ints(n):
    """n:n[0,9]"""
    a = np.zeros(n + 1, dtype=int)
    for i in range(n + 1):
        a[i] = i * i
    a[0] = 2.7
    return a, a / 2, a // 2, a % 3, a * 1.5


def t_while(n):
    """n:n[0,9]"""
    k = 0
    s = 0
    while k < n:
        s += k
        k += 1
    return s, k


def t_loop_var_after(n):
    """n:n[1,9]"""
    for i in range(n):
        x = i * 3
    return i, x


def t_overwrite(A):
    """A:f(N)"""
    B = np.zeros(3)
    for i in range(A.shape[0]):
        B[1] = A[i]
    return B


def t_shift(A):
    """A:f(N)"""
    B = np.zeros(A.shape[0] + 1)
    for i in range(A.shape[0]):
        B[i + 1] = A[i]
    return B


def t_two_writes(A):
    """A:f(N)"""
    n = A.shape[0]
    B = np.zeros((2 * n,))
    for i in range(n):
        B[2 * i] = A[i]
        B[2 * i + 1] = -A[i]
    return B


def t_cumulative(A):
    """A:f(N)"""
    B = np.zeros(A.shape[0] + 1)
    for i in range(A.shape[0]):
        B[i + 1] = B[i] + A[i]
    return B


def t_max_loop(A):
    """A:f(N)"""
    m = A[0]
    for v in A:
        m = max(m, v)
    return m, max(A), min(A)


def t_count_if(A):
    """A:f(N)"""
    c = 0
    for v in A:
        if v > 0:
            c += 1
    return c


def t_break(A):
    """A:f(N)"""
    k = 0
    for v in A:
        if v > 0.5:
            break
        k += 1
    return k


def t_continue(A):
    """A:f(N)"""
    s = 0.0
    for v in A:
        if v < 0:
            continue
        s += v
    return s


def t_return_in_loop(A):
    """A:f(N)"""
    for i in range(A.shape[0]):
        if A[i] > 0.5:
            return i
    return -1


def t_cond_write(A):
    """A:f(N)"""
    B = np.zeros(A.shape[0])
    for i in range(A.shape[0]):
        if i % 2 == 0:
            B[i] = A[i]
        else:
            B[i] = -1
    return B


def t_cond_append(A):
    """A:f(N)"""
    out = []
    for v in A:
        if v > 0:
            out.append(v)
    return out


def t_fromlist(L):
    """L:l(N)"""
    a = np.array(L)
    return a, a.reshape(-1, 1), len(L), np.asarray(L).sum()


def t_list_ops(L):
    """L:l(N)"""
    M = list(L)
    M.append(1.0)
    M.insert(0, 2.0)
    N = M + [3.0]
    return M, N, L, N[-1], N[0], len(N)


def t_list_alias(L):
    """L:l(N)"""
    M = L
    M.append(4.0)
    return L


def t_slice_list(L):
    """L:l(N+2)"""
    return L[1:], L[:-1], L[::-1], L[:1]


def t_deepcopy(A):
    """A:f(N)"""
    L = [A, A]
    M = copy.deepcopy(L)
    M[0][0] = 100.0
    L[0][0] = 50.0
    return L, M


def t_str(n):
    """n:n[0,3]"""
    d = {"a": 1, "b": 2}
    out = []
    for k, v in d.items():
        out.append(f"{k}{v}")
    return out, "x" in d, "a" in d, d.get("z", 5), len(d)


def t_star(A):
    """A:f(N)"""
    def f(*args, **kw):
        return len(args) + len(kw)
    return f(*[1, 2, 3], x=4), f(A)


def t_closure(A):
    """A:f(N)"""
    fs = []
    for i in range(3):
        fs.append(lambda x: x + i)
    return [f(1) for f in fs]


def t_default_mutable(n):
    """n:n[0,3]"""
    def f(x, acc=[]):
        acc.append(x)
        return acc
    f(1)
    return f(2)


def t_class(x):
    """x:x"""
    class P:
        k = 3

        def __init__(self, v):
            self.v = v
            self._w = v * 2

        @property
        def w(self):
            return self._w

        @staticmethod
        def s(a):
            return a + 1

        @classmethod
        def c(cls, a):
            return cls(a).v

        def __len__(self):
            return 4

        def __getitem__(self, i):
            return self.v + i

        def __call__(self, a):
            return a * self.v
    p = P(x)
    q = P(x + 1)
    q.v = 9
    return p.v, p.w, P.s(1), P.c(x), len(p), p[2], p(3), q.v, p.k


def t_inherit(x):
    """x:x"""
    class A:
        def __init__(self, v):
            self.v = v

        def f(self):
            return self.g() + 1

        def g(self):
            return 1

    class B(A):
        def __init__(self, v):
            super().__init__(v + 1)

        def g(self):
            return super().g() + self.v
    return B(x).f(), isinstance(B(x), A), hasattr(B(x), "v"), getattr(B(x), "zz", 3)


def t_try(A, i):
    """A:f(N) i:n[-3,3]"""
    try:
        if i > 1:
            raise KeyError("k")
        r = 1
    except KeyError:
        r = 2
    else:
        r = 3
    finally:
        q = 4
    return r, q


def t_arctan2(A, B):
    """A:f(N) B:f(N)"""
    return np.arctan2(A, B), np.sqrt(A * A + B * B), np.hypot(A, B)


def t_trig(A):
    """A:f(N)"""
    return np.sin(A), np.cos(A * 2), np.exp(A), np.tanh(A), np.square(A), np.power(A, 3)


def t_isclose(A):
    """A:f(N)"""
    return np.all(A < 3), np.any(A > 1.9), bool((A == A).all())


def t_types(n, x):
    """n:n[0,5] x:x"""
    return float(n), int(n), abs(x), round(2.5), bool(n), isinstance(n, int), isinstance(x, float), max(n, 3), min(x, 0.5, n)


def t_chain(n, x):
    """n:n[0,5] x:x"""
    return 0 < n < 3, 0 <= x <= 1, n in (1, 2), n not in [3], not n, n and 7, n or 8, (1 if x > 0 else 2)


def t_tuple(n):
    """n:n[0,5]"""
    a, (b, c) = n, (n + 1, n + 2)
    a, b = b, a
    *r, s = [a, b, c]
    return a, b, c, r, s


def t_product(n, m):
    """n:n[1,3] m:n[1,3]"""
    out = []
    for i in range(n):
        for j in range(m):
            out.append([i, j])
    return np.array(out), len(out)


def t_shape_attrs(A):
    """A:f(N,M)"""
    return A.shape, A.ndim, A.size, len(A), A.T.shape


def t_squeeze(A):
    """A:f(N,1)"""
    return A.squeeze(axis=1), A.flatten(), A[:, 0], np.expand_dims(A[:, 0], 1)


def t_full(n):
    """n:n[1,4]"""
    return np.ones((n, 2)), np.full((n,), 3.5), np.eye(n), np.zeros_like(np.ones(n)), np.identity(2), np.diag(np.array([1.0, 2.0]))


def t_ellipsis(A):
    """A:f(N,M,K)"""
    return A[..., 0], A[0, ...], A[:, None].shape, A[None].shape


def t_setslice(A, x):
    """A:f(N+2,M) x:f(M)"""
    A[0, :] = x
    A[1:, 0] = 0.0
    A[-1] = 5
    return A


def t_setlist(A):
    """A:f(N,2)"""
    for i in range(A.shape[0]):
        A[i] = [A[i, 1], A[i, 0]]
    return A


def t_swap_alias(A):
    """A:f(N,2)"""
    for i in range(A.shape[0]):
        t = A[i, 0]
        A[i, 0] = A[i, 1]
        A[i, 1] = t
    return A


def t_swap_views(A):
    """A:f(4,2)"""
    a, b = A[0], A[1]
    A[0] = b
    A[1] = a
    return A


def t_prefix_reads(A):
    """A:f(N)"""
    for i in range(1, A.shape[0]):
        A[i] = A[i] + A[i - 1]
    return A


def t_reversed(L):
    """L:l(N)"""
    return list(reversed(L)), sorted([3, 1, 2]), [v for v in L[::-1]]


def t_unique_sorted(A):
    """A:f(N,2)"""
    return np.unique(A, axis=0).shape[1]


def t_list_rows(A):
    """A:f(N,3)"""
    return A.tolist(), [list(r) for r in A], [r[0] for r in A]


def t_int_cast(A):
    """A:f(N)"""
    return A.astype(int), A.astype("int64") * 2, int(A[0]), A.astype(np.float64)


def t_sum_range(n):
    """n:n[0,8]"""
    return sum(range(n)), sum(i * i for i in range(n)), sum([2] * n), len([0] * n)


def t_bool_arrays(A, B):
    """A:f(N) B:f(N)"""
    return (A > B) & (A > 0), (A > B) | (B > 1), ~(A > B), np.logical_and(A > 0, B > 0)


def t_flatten_f(A):
    """A:f(N,M)"""
    return A.flatten(order="F"), A.ravel(), A.reshape(A.shape[1], -1, order="F")


def t_add_newdim(A, B):
    """A:f(N,M) B:f(K,M)"""
    return (A[:, None, :] * B[None, :, :]).sum(axis=2), np.tensordot(A, B, axes=([1], [1]))


def t_delete(L):
    """L:l(N+1)"""
    M = L[:]
    M.pop()
    return M, L


def t_dictloop(n):
    """n:n[1,4]"""
    d = {"p": [1.0], "q": [2.0, 3.0]}
    tot = 0
    for k in d:
        for v in d[k]:
            tot += v * n
    d["r"] = tot
    d.update({"p": 0})
    return d, list(d), "p" in d


def t_poly(x):
    """x:x"""
    from functools import reduce
    return reduce(lambda a, b: a * x + b, [1, 2, 3])


def t_nonlocal(n):
    """n:n[0,4]"""
    c = 0

    def inc():
        nonlocal c
        c += 1
    for _ in range(n):
        inc()
    return c


def t_walrus(n):
    """n:n[0,4]"""
    if (m := n * 2) > 3:
        return m
    return -m


def t_map_filter(L):
    """L:l(N)"""
    return list(map(lambda v: v + 1, L)), any(v > 1 for v in L), all(v > -3 for v in L)


def t_linalg(A):
    """A:f(2,2)"""
    return np.linalg.det(A), A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0], np.linalg.norm(A[0])
