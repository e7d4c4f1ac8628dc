"""Functions executed both symbolically and by Python (pyvc/conform.py).  Annotations give the arrays: shape, '@ i'/'@ b' the kind."""
from __future__ import annotations
import math
import numpy as np


# ---------------------------------------------------------------- elementwise, broadcasting, kinds
def add_bc(a: ('n', 'm'), b: ('m',)):
    return a + b, a - b[np.newaxis, :], a * 2, -a, b / 2.0


def div_kinds(a: ('n',) @ 'i', b: ('n',)):
    return a / 2, a // 2, a % 3, a * b, a + 1, a + 1.0, a ** 2


def cmp_kinds(a: ('n',), b: ('n',) @ 'i'):
    return a < b, a >= 1, a == b, a != b, (a > 0) & (b > 0), (a > 0) | (b > 0), ~(a > 0)


def minmax(a: ('n', 'm'), b: ('n', 'm')):
    return np.maximum(a, b), np.minimum(a, 0.5), np.abs(a), np.absolute(-a), np.square(a), np.fabs(a)


def trig(a: ('n',)):
    return np.sin(a), np.cos(a), np.exp(a), np.arctan2(a, a + 5.0), np.hypot(a, 2.0), np.sqrt(a * a), np.radians(a), np.degrees(a)


def powers(a: ('n',), k: float):
    return np.power(np.abs(a) + 1.0, k), (np.abs(a) + 1.0) ** 0.5, a ** 3


def wherethree(a: ('n', 'm'), b: ('m',)):
    return np.where(a > b, a, b), np.where(a > 0, 1, 0), np.where(a > 0, a, 7)


def clip(a: ('n',)):
    return np.clip(a, -1.0, 1.0)


def nans(a: ('n',)):
    "nan"
    b = np.where(a > 0, np.nan, a)
    return np.isnan(b), b + 1, np.isnan(a), np.isfinite(b), b > 0


def nan_store(a: ('n',)):
    "nan"
    b = a.copy()
    b[a > 1] = np.nan
    return b, np.isnan(b).any(), b * 0


def intdiv(a: int, b: int):
    return a // b, a % b


def divmods(a: int):
    return a // 3, a % 3, -a // 2, a // -2, a % -2, int(a / 2)


def truncs(a: float):
    return int(a), abs(a), max(a, 1), min(a, 0.5, 2), round(0.0)


def boolsum(a: ('n',)):
    return (a > 0).sum(), np.sum(a > 0), np.count_nonzero(a), (a > 0).any(), (a > 0).all(), np.any(a > 1), np.all(a > -1)


def casts(a: ('n',), b: ('n',) @ 'i'):
    return a.astype(int), b.astype(float), (a > 0).astype(int), (a > 0).astype(float), a.astype('float64')


def astype_store(a: ('n',)):
    b = np.zeros(a.shape[0], dtype=int)
    b[:] = a
    return b


def int_array_store(a: ('n',) @ 'i', x: float):
    a[0] = x
    return a


def piece(d: ('n',)):
    return np.piecewise(d, [d <= 1.0, d > 1.0], [lambda x: x * 2.0, lambda x: x + 10.0])


def piece_other(d: ('n',)):
    return np.piecewise(d, [d <= 0.0], [lambda x: x * 2.0, 5.0])


def piece_first(d: ('n',)):
    return np.piecewise(d, [d <= 1.0, d <= 2.0], [lambda x: x * 2.0, lambda x: x + 10.0])


def select(d: ('n',)):
    return np.select([d < 0, d < 1], [d * 2, d + 1], default=9.0)


# ---------------------------------------------------------------- creation
def creation(n: pos):
    return np.zeros(n), np.ones((n, 2)), np.full((2, n), 3.0), np.arange(n), np.arange(1, n + 1), np.zeros((n,), dtype=bool)


def arange_float(n: pos):
    return np.arange(0.0, n), np.arange(n) * 0.5, np.arange(n, dtype=float)


def arange_steps(n: pos):
    return np.arange(0, n, 2), np.arange(n, 0, -1), np.arange(3, n)


def linsp(a: float, b: float):
    return np.linspace(a, b, 5), np.linspace(0, 1, 2)


def likes(a: ('n', 'm')):
    return np.zeros_like(a), np.ones_like(a, dtype=int), np.full_like(a, 2), np.zeros_like(a, dtype=bool)


def eye(n: pos):
    return np.eye(n)


def from_lists(x: float, y: float):
    return np.array([x, y, 1]), np.array([[x, 1], [2, y]]), np.array([1, 2]), np.array((x, y)), np.array([True, False])


def array_copy(a: ('n',)):
    b = np.array(a)
    b[0] = 9.0
    c = np.array(a, copy=True)
    c[0] = 8.0
    return a, b, c


def asarray_alias(a: ('n',)):
    b = np.asarray(a)
    b[0] = 9.0
    return a, b


def atleast(a: ('n',), x: float):
    return np.atleast_1d(x), np.atleast_1d(a), np.atleast_2d(a), np.atleast_1d([x])


def squeeze(a: ('n', '1')):
    return np.squeeze(np.array(a, dtype=float))


def atl_sq(a: ('n', '1')):
    return np.atleast_1d(np.squeeze(np.array(a, copy=True, dtype=np.float64)))


# ---------------------------------------------------------------- indexing
def slicing(a: ('n', 'm')):
    return a[0], a[:, 0], a[-1], a[:, -1], a[:-1], a[1:], a[:, :1], a[::-1], a[:, ::-1]


def slicing2(a: ('n',)):
    return a[:2], a[2:], a[-2:], a[:-2], a[::2], a[1::2], a[:, np.newaxis], a[None, :]


def slicing_var(a: ('n',), k: int):
    return a[:k], a[k:]


def index_var(a: ('n',), k: int):
    return a[k]


def index2_var(a: ('n', 'm'), i: int, j: int):
    return a[i, j], a[i], a[:, j]


def boolmask(a: ('n',), b: ('n',)):
    return a[b > 0], a[(b > 0) & (a < 1)], a[b > 0].sum(), a[b > 0].shape[0]


def boolmask2(a: ('n', 'm')):
    return a[a > 0], a[a > 0].size


def fancy(a: ('n',), i: ('m',) @ 'i'):
    return a[i]


def fancy_rows(a: ('n', 'm')):
    ii = np.arange(a.shape[0])
    return a[ii], a[ii[::-1]], a[ii, 0]


def where_idx(a: ('n',)):
    i = np.where(a > 0)
    return a[i]


def where_store(a: ('n',)):
    i = np.where(a > 0)[0]
    b = np.zeros(a.shape[0])
    b[i] = 1.0
    return b


def diag(a: ('n', 'n')):
    np.fill_diagonal(a, 0.0)
    return a


def diag_rect(a: ('n', 'm')):
    np.fill_diagonal(a, 5.0)
    return a


def diag_corner(a: ('n', 'n')):
    n = a.shape[0] - 1
    a[n, n] = 7.0
    a[:n, n] = 1.0
    a[n, :n] = 2.0
    return a


def fill_sub(n: pos, x: float):
    a = np.zeros((n + 1, n + 1))
    a[:n, :n] = x
    np.fill_diagonal(a, 3.0)
    a[n, :] = 1.0
    a[:, n] = 1.0
    a[n, n] = 0.0
    return a


def store_slices(a: ('n', 'm'), b: ('m',), c: ('n',)):
    a[0, :] = b
    a[:, 0] = c
    a[-1] = 4.0
    a[:, -1] += 1.0
    return a


def store_mask(a: ('n', 'm'), b: ('n',)):
    a[b > 0] = 0.0
    a[a < 0] = 9.0
    return a


def store_mask_rows(a: ('n', 'm'), b: ('n',)):
    a[b > 0, 0] = 5.0
    return a


def store_3d(n: pos, m: pos):
    b = np.zeros((n, m, 1))
    b[:, 0, 0] = 1.0
    return b


def view_alias(a: ('n', 'm')):
    r = a[0]
    r[:] = 5.0
    t = a.T
    t[0] = 7.0
    return a, t, r


def view_copy(a: ('n', 'm')):
    r = a[0].copy()
    r[:] = 5.0
    return a


def aug_alias(a: ('n',)):
    b = a
    b += 1
    c = b
    c = c + 1
    return a, b, c


def fancy_copy(a: ('n',), b: ('n',)):
    c = a[b > 0]
    c[:] = 7.0
    return a


# ---------------------------------------------------------------- shapes
def reshapes(a: ('n', 'm')):
    return a.flatten(), a.ravel(), a.reshape(-1), a.reshape((a.shape[0] * a.shape[1], 1)), a.T, a.transpose(), a.size, a.ndim, a.shape, len(a)


def reshape_back(a: ('n', 'm')):
    return a.flatten().reshape(a.shape), a.reshape(a.shape[1], a.shape[0])


def reshape_bad(a: ('n',), k: pos):
    return a.reshape((k, 2))


def concat(a: ('n',), b: ('m',)):
    return np.concatenate((a, b)), np.append(a, b), np.hstack((a, b)), np.append(a, 1.0)


def concat2(a: ('n', 'm'), b: ('n', 'k')):
    return np.concatenate((a, b), axis=1), np.hstack([a, b])


def concat_rows(a: ('n', 'm'), b: ('k', 'm')):
    return np.concatenate((a, b)), np.vstack([a, b])


def concat_bad(a: ('n', 'm'), b: ('k', 'j')):
    return np.concatenate((a, b), axis=0)


def stacks(a: ('n',), b: ('n',)):
    return np.vstack((a, b)), np.column_stack((a, b)), np.stack((a, b)), np.stack((a, b), axis=1), np.vstack((a, b)).T


def cols(a: ('n',), b: ('n',)):
    return np.concatenate((a[:, np.newaxis], b[:, np.newaxis]), axis=1)


def mesh(a: ('n',), b: ('m',)):
    x, y = np.meshgrid(a, b)
    return x, y, x.flatten()


def mesh3(a: ('n',), b: ('m',), c: ('k',)):
    z, y, x = np.meshgrid(c, b, a, indexing='ij')
    return x, y.flatten(), z


def repeats(a: ('n',), k: pos):
    return np.repeat(a, 2), np.tile(a, 2), np.repeat(a[np.newaxis, :], k, axis=0), np.repeat(a[:, np.newaxis], k, axis=1)


def repeat_var(a: ('n',), b: ('m',)):
    return np.repeat(a, b.shape[0]), np.tile(a, b.shape[0])


def swap(a: ('n', 'm')):
    return a.swapaxes(0, 1), np.swapaxes(a, 1, 0), np.flipud(a), a[:, :, None]


def broadcast(a: ('m',), k: pos):
    return np.broadcast_to(a, (k, a.shape[0]))


def diff(a: ('n',)):
    return np.diff(a), np.diff(a).shape


def indices(n: pos, m: pos):
    i, j = np.indices((n, m))
    return i, j


# ---------------------------------------------------------------- reductions
def sums(a: ('n', 'm')):
    return a.sum(), np.sum(a), a.sum(axis=0), np.sum(a, axis=1), a.mean(), np.mean(a, axis=0), np.sum(a, axis=-1)


def extremes(a: ('n', 'm')):
    return a.max(), a.min(), np.amax(a), np.amin(a), np.max(a), np.ptp(a), a.max() - a.min()


def extremes_axis(a: ('n', 'm')):
    return np.max(a, axis=0), np.min(a, axis=1)


def extremes1(a: ('n',)):
    return np.argmax(a), np.argmin(a), max(a), min(a), sum(a)


def argmax_rows(a: ('n', 'm')):
    return np.argmax(a, axis=1), np.argmax(a, axis=0), np.argmin(a, axis=-1)


def extreme_filtered(a: ('n',)):
    return np.max(a[a > 0])


def mean_filtered(a: ('n',)):
    b = a[a > 0]
    return np.mean(b) if b.size > 0 else -1.0


def anyaxis(a: ('n', 'm')):
    return np.any(a > 0, axis=1), np.all(a > 0, axis=0)


def dots(a: ('n', 'm'), b: ('m', 'k'), x: ('m',)):
    return np.dot(a, b), np.dot(a, x), a @ b, np.dot(x, x), np.matmul(a, x)


def einsum(a: ('n', 'm'), b: ('m', 'k'), x: ('m',)):
    return np.einsum('ij,jk->ik', a, b), np.einsum('ij,j->i', a, x)


def dot_bad(a: ('n', 'm'), b: ('k',)):
    return np.dot(a, b)


def bc_bad(a: ('n',), b: ('m',)):
    return a + b


def close(a: ('n',)):
    return np.isclose(a, 1.0), np.allclose(a, a), np.array_equal(a, a)


# ---------------------------------------------------------------- masked arrays
def masked(a: ('n', 'm')):
    b = np.ma.array(a, mask=a > 0)
    return b, np.ma.getmaskarray(b), b.data, b.mask


def masked_ops(a: ('n',)):
    b = np.ma.array(a, mask=a > 0)
    return b + 1, b * 2, b.filled(5.0), b.flatten()


def masked_reshape(a: ('n', 'm')):
    b = np.ma.array(a, mask=a > 0)
    return b.reshape((a.shape[0] * a.shape[1],)), b.T, b[0]


def mask_store(n: pos, m: ('n',)):
    b = np.zeros(m.shape[0])
    b[m <= 0] = 3.0
    return np.ma.array(b, mask=m > 0)


def ismasked(a: ('n',)):
    b = np.ma.array(a, mask=a > 0)
    return np.ma.is_masked(b), hasattr(b, 'mask')


# ---------------------------------------------------------------- loops
def loop_sum(a: ('n',)):
    s = 0.0
    for i in range(a.shape[0]):
        s += a[i] * 2
    return s


def loop_store(a: ('n',), b: ('n',)):
    out = np.zeros(a.shape[0])
    for i in range(a.shape[0]):
        out[i] = a[i] + b[i]
    return out


def loop_two(a: ('n', 'm')):
    out = np.zeros((a.shape[0], a.shape[1]))
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[i, j] = a[i, j] * (i + 1) + j
    return out


def loop_tri(n: pos):
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            out[i, j] = i + 10 * j
            out[j, i] = i + 10 * j
    return out


def loop_cond(a: ('n',)):
    out = np.zeros(a.shape[0])
    for i in range(a.shape[0]):
        if a[i] > 0:
            out[i] = a[i]
        elif a[i] < -1:
            out[i] = -1.0
    return out


def loop_count(a: ('n',)):
    k = 0
    for x in a:
        if x > 0:
            k += 1
    return k


def loop_max(a: ('n',)):
    m = 0.0
    for x in a:
        if x > m:
            m = x
    return m


def loop_flag(a: ('n',)):
    f = False
    for x in a:
        if x > 1:
            f = True
    return f


def loop_break(a: ('n',)):
    k = -1
    for i in range(a.shape[0]):
        if a[i] > 0:
            k = i
            break
    return k


def loop_return(a: ('n',)):
    for i in range(len(a)):
        if a[i] > 1:
            return i
    return None


def loop_raise(a: ('n',)):
    for x in a:
        if x > 2:
            raise ValueError('too large')
    return 1


def loop_append(a: ('n',)):
    out = []
    for x in a:
        out.append(x * 2)
    return np.array(out), len(out)


def loop_append_tuple(a: ('n',)):
    out = []
    for i, x in enumerate(a):
        out.append((i, x))
    return out


def loop_rows(a: ('n', 'm')):
    out = np.zeros(a.shape)
    for i, r in enumerate(a):
        out[i] = r * 2
    return out


def loop_rev(a: ('n',)):
    out = np.zeros(a.shape[0])
    n = a.shape[0]
    for i in range(n):
        out[n - 1 - i] = a[i]
    return out


def loop_step(n: pos):
    out = np.zeros(n)
    for i in range(0, n, 2):
        out[i] = 1.0
    return out


def loop_down(n: pos):
    out = np.zeros(n)
    for i in range(n - 1, -1, -1):
        out[i] = i
    return out


def loop_scatter(a: ('n', 'm')):
    out = np.zeros(a.shape[0] * a.shape[1])
    k = 0
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[k] = a[i, j]
            k += 1
    return out, k


def loop_carry(a: ('n',)):
    prev = 0.0
    for x in a:
        prev = x
    return prev


def loop_overwrite(a: ('n',)):
    out = np.zeros(1)
    for i in range(a.shape[0]):
        out[0] = a[i]
    return out


def loop_offdiag(a: ('n', 'n')):
    s = 0.0
    for i in range(a.shape[0]):
        for j in range(a.shape[0]):
            if i != j:
                s += a[i, j]
    return s


def loop_zip(a: ('n',), b: ('m',)):
    s = 0.0
    for x, y in zip(a, b):
        s += x * y
    return s


def loop_bins(a: ('n',), b: ('n',)):
    out = np.zeros(3)
    for n in range(3):
        sel = (a >= n) & (a < n + 1)
        if sel.sum() > 0:
            out[n] = np.mean(b[sel])
        else:
            out[n] = -1.0
    return out


def loop_colwise(a: ('n', 'm')):
    out = np.zeros((a.shape[0], 2))
    i = 0
    for k in (1, 2):
        out[:, i] = a[:, 0] * k
        i += 1
    return out, i


def loop_list_cols(a: ('n', 'm')):
    out = np.zeros((a.shape[0], a.shape[1]))
    cs = [a[:, j] for j in range(a.shape[1])]
    for j, c in enumerate(cs):
        out[:, j] = c
    return out


def loop_shift(a: ('n',)):
    b = a.copy()
    for i in range(1, a.shape[0]):
        b[i] = a[i - 1]
    return b


def loop_prefix(a: ('n',)):
    b = np.zeros(a.shape[0])
    s = 0.0
    for i in range(a.shape[0]):
        s += a[i]
        b[i] = s
    return b


def loop_inplace_dep(a: ('n',)):
    for i in range(1, a.shape[0]):
        a[i] = a[i] + a[i - 1]
    return a


def loop_swap(a: ('n',)):
    x, y = 0.0, 1.0
    for v in a:
        x, y = y, x
    return x, y


def loop_mod(a: ('n',)):
    "zero"
    s = 0
    for i in range(len(a)):
        s += i % 2
    return s


def loop_continue(a: ('n',)):
    s = 0.0
    for x in a:
        if x < 0:
            continue
        s += x
    return s


def loop_sumabove(a: ('n',), t: float):
    s, k = 0.0, 0
    for x in a:
        if x > t:
            s += x
            k += 1
    return s / k if k > 0 else t


def while_count(n: pos):
    i = 0
    while i < n:
        i += 1
    return i


def loop_last_index(a: ('n',)):
    k = -1
    for i in range(a.shape[0]):
        if a[i] > 0:
            k = i
    return k


def loop_var_after(n: pos):
    i = -1
    for i in range(n):
        pass
    return i


def loop_empty(a: ('n',)):
    "zero"
    s = 5.0
    for x in a:
        s = 0.0
    return s


# ---------------------------------------------------------------- Python
def strings(k: int):
    s = 'grid' if k > 0 else 'points'
    return s == 'grid', s in ('grid', 'x'), s.lower(), s.upper() == 'GRID'


def chained(x: float):
    return 0 <= x < 1, not x > 0, x > 0 and x < 1, x > 0 or x < -1, None if x > 0 else x


def dicts(x: float):
    d = {'a': x, 'b': 2}
    d['c'] = d['a'] + d['b']
    e = dict(d, b=5)
    return d, e, 'a' in d, d.get('z'), d.get('z', 3), len(d), sorted(d.keys()) == ['a', 'b', 'c']


def keyerr(x: float):
    d = {'a': x}
    return d['b']


def lists(x: float):
    a = [x, 2, 3]
    b = a
    b.append(4)
    c = list(a)
    c.insert(0, 9)
    return a, c, a[-1], a[1:], len(c), 2 in a, [y + 1 for y in a if y != 2], a + [1]


def listcomp(a: ('n',)):
    return np.array([x * 2 for x in a]), len([x for x in a]), sum([x for x in a]), any([x > 0 for x in a]), all(x > 0 for x in a)


def listcomp_nested(a: ('n', 'm')):
    return np.array([r * 2 for r in a])


def listcomp_list(n: pos):
    x = [[i, 0] for i in range(n)]
    return x


def vstack_list(a: ('n', 'm')):
    return np.vstack([a[:, j] for j in range(a.shape[1])]), np.column_stack([a[:, j] for j in range(a.shape[1])])


def tuples(x: float):
    a, b = (x, 2)
    (c, d), e = (a, b), 3
    t = (1, 2) + (3,)
    return a, b, c, d, e, t[-1], t[:2], len(t)


def defaults(x: float):
    def g(p, q=2, *r, **s):
        return p * q + len(r) + len(s)
    return g(x), g(x, 3), g(x, 3, 4, 5), g(x, q=4), g(q=2, p=x), g(x, z=1)


def closures(x: float):
    k = [1]

    def g(y):
        k[0] = y
        return y + x
    z = g(2)
    return z, k


def lambdas(a: ('n',)):
    f = lambda u, v=2: u * v
    return f(a), f(a, 3), list(map(f, [1, 2]))


def tryex(a: ('n',), k: int):
    try:
        x = a[k]
    except IndexError:
        x = -9.0
    return x


def tryfinally(x: float):
    out = []
    try:
        if x > 0:
            raise ValueError('x')
        out.append(1)
    except (ValueError, TypeError) as e:
        out.append(2)
    else:
        out.append(3)
    finally:
        out.append(4)
    return out


class _Thing:
    k = 3

    def __init__(self, x):
        self.x = x

    def twice(self):
        return 2 * self.x + self.k

    @property
    def prop(self):
        return self.x + 1

    @staticmethod
    def st(y):
        return y * 3


class _Sub(_Thing):
    def __init__(self, x):
        super().__init__(x)
        self.k = 4


def classes(x: float):
    a, b = _Thing(x), _Sub(x)
    a.y = 5
    return a.twice(), b.twice(), a.prop, a.st(2), _Thing.st(1), hasattr(a, 'y'), hasattr(a, 'z'), getattr(a, 'y'), getattr(a, 'z', 1), isinstance(b, _Thing), isinstance(a, _Sub), _Thing.k


def attrs_missing(x: float):
    return _Thing(x).zzz


def none_cmp(x: float):
    y = None
    return y is None, x is not None, y == None, isinstance(x, float)


def truthy(a: int):
    return bool(a), not a, 1 if a else 2, a and 5, a or 6


def array_truth(a: ('n',)):
    if a > 0:
        return 1
    return 0


def mutate_default(x: float):
    def g(v, acc=[]):
        acc.append(v)
        return len(acc)
    return g(x), g(x)


def slices_obj(a: ('n', 'm')):
    s = slice(None, None)
    return a[s, 0]


def with_axis_kw(a: ('n', 'm')):
    return a.sum(axis=1), a.max(axis=0), a.mean(axis=1), a.min(), a.any(), a.all()


def negative_zero(a: ('n',)):
    return a * 0 == 0, -a


def outer_cmp(a: ('n',), b: ('m',)):
    d = a[:, np.newaxis] - b[np.newaxis, :]
    return d, np.sqrt(d * d), (d > 0).sum(axis=1)


def inplace(a: ('n',)):
    a *= 2
    a -= 1
    a /= 2
    return a


def inplace_int(a: ('n',) @ 'i'):
    a *= 2
    a += 1
    return a


def inplace_bad(a: ('n',) @ 'i'):
    a += 0.5
    return a


def inplace_div_bad(a: ('n',) @ 'i'):
    a /= 2
    return a


def bool_arith(a: ('n',) @ 'b', x: float):
    return a * 1, a + 0.5, x * a, ~a, a & True, a.sum(), a.astype(float)


def mixed_kinds(a: ('n',) @ 'i', b: ('n',) @ 'b', c: ('n',)):
    return a + b, a + c, np.where(b, a, 0), np.where(b, a, c), np.concatenate((a, c)), np.append(a, 1), np.append(a, 1.5), a / 1, np.maximum(a, c), np.sum(a), np.mean(a)


def scalar_kinds(a: ('n',) @ 'i', k: int):
    return a[0] * 0.5, a[0] / 2, a[0] // 2, k / 2, k * 1.0, k ** 2, 2 ** 2, float(k)


def clip_list(a: ('n',)):
    b = a.tolist()
    return b, len(b)


def prod_shape(a: ('n', 'm')):
    n, m = a.shape
    return n * m, a.size == n * m, (n, m) == a.shape


def boolops(x: float, a: int, b: int):
    y = None if x > 0 else x
    return y or 3, (x > 0) and a, (x > 0 and a > 0) or b, y is not None and y < -1, (x > 1 or a) and b, x < 0 or a > 0 or b


def boolcalls(x: float, a: int):
    def g(v):
        if v > 0:
            return True
        return v < -2

    def h(v):
        if v > 1:
            return 5
        return 0
    return g(x) and g(a), g(x) or g(a), x > 0 and h(a), h(x) and h(a), h(x) or h(a) or a


def floordivs(a: int):
    return a // 3, a % 3, -a // 2, a // -2, a % -2, a // 1


def ternary(x: float, a: int):
    return (1 if x > 0 else 2.5) if a > 0 else None


def bc_one(a: ('n', '1'), b: ('m',)):
    return a + b, a * b[:, np.newaxis] if a.shape[0] == b.shape[0] else 0


def bc_store(a: ('n', 'm'), b: ('k',)):
    a[0] = b
    return a


def np_where_bc(a: ('n', 'm'), b: ('k',)):
    return np.where(a > b, a, 0.0)


def max_py(a: float, b: float, c: int):
    return max(a, b), min(a, b, c), max([a, b]), abs(c), max(a, key=None) if False else 0


def nested_fn(a: ('n',)):
    def g(v):
        t = v + 1

        def h(w):
            return w * t
        return h(v)
    return g(a), [g(x) for x in (1, 2)]


def star(x: float):
    def g(*a, **k):
        return len(a), sorted(k) == ['p', 'q'], k
    return g(1, x, p=2, q=3), g(*[1, 2], **{'p': x, 'q': 1})


def unpack_loop(a: ('n', '2')):
    s = 0.0
    for x, y in a:
        s += x * y
    return s


def enum_start(a: ('n',)):
    s = 0
    for i, x in enumerate(a, 1):
        s += i
    return s


def zip_lists(x: float):
    out = []
    for p, q in zip([1, 2, 3], (x, x + 1)):
        out.append(p * q)
    return out


def range_list(n: pos):
    return list(range(3)), list(range(n)), [i for i in range(2, n)]


def size_checks(a: ('n', 'm')):
    if a.shape != (2, 2):
        raise ValueError('shape')
    return a[1, 1]


def ndim_checks(a: ('n', 'm')):
    return a.ndim != 2 or a.shape[0] != a.shape[1], a.shape == (a.shape[0], a.shape[1]), len(a.shape)


def assign_multi(x: float):
    a = b = [x]
    a.append(1)
    p, q = b
    p, q = q, p
    return a, b, p, q


def aug_list(x: float):
    a = [x]
    b = a
    a += [2]
    return a, b


def aug_tuple(x: float):
    a = (x,)
    b = a
    a += (2,)
    return a, b


def del_things(x: float):
    d = {'a': x, 'b': 1}
    del d['a']
    return d


def pop_things(x: float):
    d = {'a': x, 'b': 1}
    v = d.pop('a')
    w = d.pop('zz', 7)
    l = [1, x, 3]
    z = l.pop()
    return d, v, w, l, z


def update_dict(x: float):
    d = {'a': x}
    e = d
    d.update({'b': 1, 'a': 2})
    d.setdefault('c', 3)
    return d, e, [k for k in d], [(k, v) for k, v in d.items()], list(d.values())


def str_methods(x: float):
    s = ' Grid '
    return s.strip().lower(), 'a,b'.split(','), 'ab' + 'c', 'x' in 'xyz', s.strip() == 'Grid', 'abc'[1]


def raise_type(x: float):
    if x > 0:
        raise TypeError('a')
    elif x < -1:
        raise KeyError('b')
    return x


def assertion(x: float):
    assert x <= 1, 'no'
    return x


def global_const(x: float):
    return _CONST * x, _table['a'] + x


_CONST = 4
_table = {'a': 1}


def where_nan(a: ('n',)):
    "nan"
    b = np.where(a > 0, a, np.nan)
    return np.isnan(b).sum(), np.isnan(b).any(), b[~np.isnan(b)]


def meshed_cond(a: ('n',), b: ('m',)):
    x, y = np.meshgrid(a, b)
    k = x > y
    z = np.zeros(x.shape)
    z[k] = 1.0
    return z


def flat_roundtrip(a: ('n', 'm')):
    f = a.flatten()
    i = np.nonzero(f > 0)[0]
    g = np.zeros(f.shape)
    g[i] = 2.0
    return g.reshape(a.shape)


def loop_mask_store(a: ('n',), m: ('n',) @ 'b'):
    out = np.zeros(a.shape[0])
    for j in np.nonzero(~m)[0]:
        out[j] = a[j]
    return out


def loop_nested_sum(a: ('n', 'm'), w: ('m',)):
    out = np.zeros(a.shape[0])
    for i in range(a.shape[0]):
        s = 0.0
        for j in range(a.shape[1]):
            s += a[i, j] * w[j]
        out[i] = s
    return out


def loop_tri_sum(n: pos):
    s = 0
    for i in range(n):
        for j in range(i + 1, n):
            s += 1
    return s


def loop_aug_row(a: ('n', 'm')):
    for i in range(a.shape[0]):
        a[i] *= 2
        a[i, 0] = 1.0
    return a


def loop_two_arrays(a: ('n',)):
    x, y = np.zeros(a.shape[0]), np.zeros(a.shape[0])
    for i in range(a.shape[0]):
        x[i] = a[i]
        y[i] = x[i] + 1
    return x, y


def loop_read_old(a: ('n',)):
    b = np.zeros(a.shape[0])
    for i in range(a.shape[0] - 1):
        b[i] = a[i + 1] - a[i]
    return b


def loop_min_idx(a: ('n',)):
    m, k = a[0], 0
    for i in range(1, a.shape[0]):
        if a[i] < m:
            m = a[i]
            k = i
    return m, k


def bc1(x: float, a: int):
    def g(v):
        if v > 0:
            return True
        return v < -2
    return g(x) and g(a)


def bc2(x: float, a: int):
    def h(v):
        if v > 1:
            return 5
        return 0
    return x > 0 and h(a)


def bc3(x: float, a: int):
    def h(v):
        if v > 1:
            return 5
        return 0
    return h(x) or h(a) or a


def loop_live(a: ('n',)):
    for i, x in enumerate(a):
        if i + 1 < a.shape[0]:
            a[i + 1] = x + 1
    return a


def loop_live_rows(a: ('n', 'm')):
    for r in a:
        r *= 2
    return a


def loop_live_concrete(a: ('3', 'm')):
    for r in a:
        r *= 2
    return a


def zip_live(a: ('3', 'm'), b: ('3',)):
    for r, x in zip(a, b):
        r += x
    return a


def comp_live(a: ('n', 'm')):
    z = [r for r in a]
    a[0, 0] = 9.0
    return np.array(z), a


def comp_view(a: ('n', 'm')):
    z = [a[:, j] for j in range(a.shape[1])]
    a[0, 0] = 9.0
    return np.array(z)


def append_view(a: ('n', 'm')):
    z = []
    for j in range(a.shape[1]):
        z.append(a[:, j])
    a[0, 0] = 9.0
    return np.array(z)


def append_view_c(a: ('n', '2')):
    z = []
    for j in range(a.shape[1]):
        z.append(a[:, j])
    a[0, 0] = 9.0
    return np.array(z), z


def tuple_view(a: ('n', '2')):
    z = (a[:, 0], a)
    z[0][0] = 4.0
    return z, a


def flatten_copy(a: ('n', 'm')):
    f = a.flatten()
    f[0] = 9.0
    g = a.ravel()
    return a, f


def ravel_alias(a: ('n', 'm')):
    g = a.ravel()
    g[0] = 9.0
    return a


def reshape_alias(a: ('n', 'm')):
    g = a.reshape((a.shape[1], a.shape[0]))
    a[0, 0] = 9.0
    return g


def reshape_write(a: ('n', 'm')):
    g = a.reshape((a.shape[1], a.shape[0]))
    g[0, 0] = 9.0
    return a


def squeeze_alias(a: ('1', 'm')):
    g = np.squeeze(a)
    a[0, 0] = 9.0
    return a


def atleast_alias(a: ('n',)):
    g = np.atleast_1d(a)
    g[0] = 9.0
    return a


def newaxis_alias(a: ('n',)):
    g = a[:, np.newaxis]
    g[0, 0] = 9.0
    return a


def list_of_array(a: ('n',)):
    z = list(a)
    a[0] = 9.0
    return np.array(z)


def const_array_alias(a: ('n',)):
    z = np.array(a, copy=False) if False else np.asarray(a, dtype=float)
    z[0] = 5.0
    return a


def dtype_copy(a: ('n',) @ 'i'):
    z = np.asarray(a, dtype=float)
    z[0] = 5.0
    return a, z


def where_alias(a: ('n',)):
    z = np.where(True, a, 0.0)
    z[0] = 5.0
    return a


def meshgrid_alias(a: ('n',), b: ('m',)):
    x, y = np.meshgrid(a, b)
    x[0, 0] = 9.0
    return a, x


def ma_alias(a: ('n',)):
    m = np.ma.array(a, mask=a > 0)
    a[0] = 9.0
    return m.data


def ma_copy(a: ('n',)):
    m = np.ma.array(a, mask=a > 0, copy=True)
    a[0] = 9.0
    return m.data


def closure_late(a: ('n',)):
    fs = []
    for k in (1, 2):
        fs.append(lambda v: v * k)
    return [f(a) for f in fs]


def obj_alias(x: float):
    t = _Thing(x)
    u = t
    u.x = 7
    return t.x, t is u, t is _Thing(x)


def list_in_obj(x: float):
    t = _Thing([x])
    u = t.x
    u.append(3)
    return t.x


def dict_of_lists(x: float):
    d = {'a': [x]}
    e = dict(d)
    e['a'].append(2)
    return d


def scalar_elem_copy(a: ('n',)):
    x = a[0]
    a[0] = 9.0
    return x


def lambda_cell(a: ('n',)):
    b = a * 2
    f = lambda: b[0]
    b = a * 3
    return f()


def aug_scalar_view(a: ('n', 'm')):
    s = a[:, 0]
    s -= a[0, 0]
    return a


def self_overlap(a: ('n', 'm')):
    a -= a[0]
    return a


def self_overlap2(a: ('n',)):
    a[1:] = a[:-1]
    return a


def self_overlap3(a: ('n',)):
    a[1:] += a[:-1]
    return a


def transp_store(a: ('n', 'n')):
    a[:] = a.T
    return a


def rev_store(a: ('n',)):
    a[:] = a[::-1]
    return a


def max_store(a: ('n',)):
    a -= a.max()
    a /= 2.0
    return a


def rounding(a: float):
    return round(a), round(a, 1), round(a, 2), np.floor(a), np.ceil(a), np.trunc(a), math.floor(a), math.ceil(-a), round(3), round(7, 2)


def rounding_arr(a: ('n', 'm')):
    return np.round(a, 1), np.around(a), np.floor(a), np.ceil(a), np.rint(a), np.trunc(-a), a.round(1)


def floor_store(a: ('n',)):
    b = np.zeros(a.shape[0], dtype=int)
    b[:] = a * 3
    c = np.zeros((a.shape[0], 2), dtype=int)
    c[:, 1] = a
    return b, c


def int_cell(a: ('n',)):
    return [int(x) for x in a], (a * 2).astype(int), int(a[0] * 4) + 1


def machine(a: ('n',)):
    return np.maximum(a, np.finfo(float).eps), np.finfo(np.float32).eps, np.isclose(a, 1.0, 0.5), np.isclose(a, 1.0, 0.0, 0.5), np.isclose(a, 1, atol=1.0), np.clip(a, 0, 1)


def kwargs_prims(a: ('n', 'm')):
    return np.sum(a, 0), np.sum(a, axis=1), np.any(a > 1), a.sum(), np.amax(a), np.min(a), np.zeros((2, 3)), np.ones(2), np.full((2, 2), 3.0)
