"""Typed variables, pointers and the BLAS/LAPACK calls of the compiled sources."""
from fractions import Fraction
import z3
from .terms import *
from . import terms as T
from .values import *


class Ptr:
    """address of an array element"""

    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx


def cy_none(e, args, kw):
    return Poison('uninitialised variable')


def cy_cast(e, args, kw):
    t, v = args
    v = e.force(v)
    if isinstance(v, Poison):
        raise Unsupported('use of an uninitialised variable')
    if '[' in t:
        nd, k = t.count(',') + 1, {'double': 'f'}.get(t.split('[')[0], 'i')
        if isinstance(v, SqArr):
            v = e.np.desq(v)
        if not isinstance(v, Arr):
            raise Raise('TypeError', 'memoryview of %s' % type(v).__name__)
        if v.ndim != nd or v.kind != k:
            raise Raise('ValueError', 'buffer has wrong number of dimensions or type')
        return v
    if t in ('double', 'float'):
        if not is_scalar(v):
            raise Raise('TypeError')
        return v if sortof(v) == R else promote_real(v)
    if t in ('long', 'int', 'char', 'bint', 'Py_ssize_t', 'size_t'):
        if isinstance(v, Arr) or not is_scalar(v):
            raise Raise('TypeError')
        if sortof(v) != I:
            if sortof(v) == B and t == 'bint':
                return v
            raise Unsupported('conversion to a C integer')
        return v
    if t == 'dict':
        if not isinstance(v, PDict):
            raise Raise('TypeError')
    return v


def promote_real(v):
    if is_z(v):
        return z3.ToReal(v) if v.sort() == I else z3.If(v, z3.RealVal(1), z3.RealVal(0))
    return Fraction(int(v))


def cy_elem(e, args, kw):
    a, ix = args
    a = e.force(a)
    idx = ix if isinstance(ix, tuple) else (ix,)
    if not isinstance(a, Arr) or len(idx) != a.ndim:
        raise Unsupported('address of an element')
    for i, n in zip(idx, a.shape):
        e.oblige('address of an element inside the array', b_and(cmp('>=', i, 0), cmp('<', i, n)))
    return Ptr(a, idx)


def cy_call(e, args, kw):
    f, refs, rest = args[0], args[1], list(args[2:])
    f = e.force(f)
    if not (isinstance(f, Prim) and f.name in ('dgemv', 'dgesv')):
        raise Unsupported('scalar passed by reference')
    rest = [x if isinstance(x, Poison) and k in refs else e.force(x) for k, x in enumerate(rest)]     # written, not read
    out = {'dgemv': dgemv, 'dgesv': dgesv}[f.name](e, rest)
    return tuple(out.get(k, rest[k]) for k in refs)


def flat_base(p, what):
    """pointer to the first element of a whole contiguous array"""
    if not (isinstance(p, Ptr) and p.arr.is_whole() and all(not is_z(i) and i == 0 for i in p.idx)):
        raise Unsupported('%s: pointer into the middle of an array' % what)
    return p.arr


def dgemv(e, a):
    trans, m, n, alpha, A, lda, x, incx, beta, y, incy = a
    A, x, y = flat_base(A, 'dgemv'), flat_base(x, 'dgemv'), flat_base(y, 'dgemv')
    if trans != 'N' or A.ndim != 2:
        raise Unsupported('dgemv: form')
    if not (e.entails(cmp('==', incx, 1)) and e.entails(cmp('==', incy, 1))):
        raise Unsupported('dgemv: increments')
    # column-major storage of an (r, c) array has leading dimension r
    e.oblige('dgemv reads inside the matrix', b_and(cmp('==', lda, A.shape[0]), cmp('<=', m, lda), cmp('<=', n, A.shape[1])))
    e.oblige('dgemv reads inside the vector', cmp('<=', n, x.shape[0]))
    e.oblige('dgemv writes inside the result', cmp('<=', m, y.shape[0]))
    e.oblige('dgemv: result does not overlap the operands', not (y.cell is x.cell or y.cell is A.cell))
    rA, rx, ry = A.reader(), x.reader(), y.reader()

    def fn(idx):
        i = idx[0]
        s = mul(alpha, T.mk_sum(n, lambda k: mul(rA((i, k)), rx((k,)))))
        b = beta
        if is_z(b) or b != 0:
            s = add(s, mul(b, ry((i,))))
        return s
    v = e.np.new((m,), fn, 'f')
    e.np.store(e, y, (SliceV(0, m, None),), v)
    return {}


def dgesv(e, a):
    n, nrhs, A, lda, ipiv, b, ldb, info = a
    A, ipiv, b = flat_base(A, 'dgesv'), flat_base(ipiv, 'dgesv'), flat_base(b, 'dgesv')
    if not e.entails(cmp('==', nrhs, 1)) or A.ndim != 1:
        raise Unsupported('dgesv: form')
    e.oblige('dgesv: leading dimensions', b_and(cmp('>=', lda, n), cmp('>=', ldb, n), cmp('>=', n, 1)))
    e.oblige('dgesv stays inside the matrix', cmp('<', T.flat(sub(n, 1), sub(n, 1), toz(lda, I)), A.shape[0]))
    e.oblige('dgesv stays inside the pivots', cmp('<=', n, ipiv.shape[0]))
    e.oblige('dgesv stays inside the right-hand side', cmp('<=', n, b.shape[0]))
    e.oblige('dgesv: arguments do not overlap', len({id(A.cell), id(ipiv.cell), id(b.cell)}) == 3)
    rA, rb = A.reader(), b.reader()
    # column-major: entry (i, j) at i + lda * j
    ent = lambda i, j: rA((T.flat(j, i, toz(lda, I)),))          # 0 <= i < n <= lda
    NL, L = simp(toz(n, I)), T.lam(lambda i, j: toz(ent(i, j), R), 2)
    ok = e.fresh('singular', B)
    code = e.fresh('info', I)
    hav = e.fresh.fn('LU', I, R)
    hp = e.fresh.fn('PIV', I, I)
    na = unz(simp(toz(mul(lda, n), I)))
    e.np.store(e, A, (SliceV(0, None, None),), e.np.new(A.shape, lambda idx: ite(cmp('<', idx[0], na), hav(toz(idx[0], I)), rA(idx)), 'f'))
    ri = ipiv.reader()
    e.np.store(e, ipiv, (SliceV(0, None, None),), e.np.new(ipiv.shape, lambda idx: ite(cmp('<', idx[0], n), hp(toz(idx[0], I)), ri(idx)), 'i'))
    v = e.np.new((n,), lambda idx: T.mk_sum(n, lambda k: mul(T.INV(NL, L, toz(idx[0], I), toz(k, I)), rb((k,)))), 'f')
    if e.decide(ok):
        e.assume(code > 0)
        return {7: code}
    e.np.store(e, b, (SliceV(0, n, None),), v)
    return {7: 0}


GLOB = {n: Prim(n, f) for n, f in (('cy_none', cy_none), ('cy_cast', cy_cast), ('cy_elem', cy_elem), ('cy_call', cy_call))}


def register(X):
    def never(name):
        def g(e, args, kw):
            raise Unsupported(name + ' called directly')
        return g
    X['scipy.linalg.cython_blas.dgemv'] = Prim('dgemv', never('dgemv'))
    X['scipy.linalg.cython_lapack.dgesv'] = Prim('dgesv', never('dgesv'))
    X['numpy.asfortranarray'] = Prim('asfortranarray', lambda e, args, kw: e.np.copy(e.np.asarr(args[0])))
    X['numpy.ascontiguousarray'] = Prim('ascontiguousarray', lambda e, args, kw: e.np.copy(e.np.asarr(args[0])))

    def gone(e, args, kw):
        raise Raise('AttributeError')
    X['scipy.linalg.pinv2'] = Prim('pinv2', gone)
