"""Model of the numpy / scipy / builtin functions used by the analysed code.

Arrays are (shape, element function); every operation is defined elementwise, for
arrays of any (symbolic) size.  What is not modelled raises Unsupported.
"""
from fractions import Fraction
import math
import z3
from .terms import *
from . import terms as T
from .values import *
from .values import _same
from . import interp as IN
from . import loops as LP

KINDORD = {'b': 0, 'i': 1, 'f': 2}


def kind_of(x):
    if isinstance(x, NV):
        return 'f'
    s = sortof(x)
    return 'b' if s == B else 'i' if s == I else 'f'


def nan_free(f, x):
    if isinstance(x, NV):
        if x.flag is not False:
            raise Unsupported("integer made of a number that may be nan")
        x = x.val
    return f(x)


def nvlift(f, *xs):
    """apply a scalar operation to values that may be NaN"""
    if any(isinstance(x, NV) for x in xs):
        flag = b_or(*[x.flag for x in xs if isinstance(x, NV)])
        return NV(flag, f(*[x.val if isinstance(x, NV) else x for x in xs]))
    return f(*xs)


def promote(v, kind):
    """scalar value -> the given array kind"""
    if isinstance(v, NV):
        if kind != 'f':
            raise Unsupported("nan in integer array")
        return v
    k = kind_of(v)
    if k == kind:
        return v
    if kind == 'f':
        if is_z(v):
            return toz(v, R)
        return v if isinstance(v, float) else Fraction(int(v) if isinstance(v, bool) else v)
    if kind == 'i':
        if k == 'b':
            return ite(v, 1, 0)
        raise Unsupported("float stored into integer array")
    if kind == 'b':
        return truth(v)
    raise Unsupported("kind")


def int_factors(t):
    """integer subterms that occur as reals, largest first (and 1)"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_to_real(x):
            out.append(x.arg(0))
        elif z3.is_app(x):
            st.extend(x.children())
    return out + [z3.IntVal(k) for k in range(1, 33)]


def som_(x):
    return unz(som(x)) if is_z(x) else x


SCALAR_OPS = {'+': add, '-': sub, '*': mul, '/': div, '**': power}


def scalar_op(eng, op, x, y):
    if op in SCALAR_OPS:
        if op == '/' and not is_z(y) and y == 0 and not isinstance(y, float):
            raise Raise('ZeroDivisionError')
        return nvlift(SCALAR_OPS[op], x, y)
    if op in ('==', '!=', '<', '<=', '>', '>='):
        if isinstance(x, NV) or isinstance(y, NV):
            flag = b_or(*[q.flag for q in (x, y) if isinstance(q, NV)])
            c = cmp(op, *[q.val if isinstance(q, NV) else q for q in (x, y)])
            return b_or(flag, c) if op == '!=' else b_and(b_not(flag), c)
        return cmp(op, x, y)
    if op in ('&', '|', '^'):
        if kind_of(x) == 'b' and kind_of(y) == 'b':
            if op == '&':
                return b_and(x, y)
            if op == '|':
                return b_or(x, y)
            return b_or(b_and(x, b_not(y)), b_and(b_not(x), y))
        raise Unsupported("bit operation on integers")
    if op == '//':
        if kind_of(x) == 'i' and kind_of(y) == 'i':
            if not is_z(x) and not is_z(y):
                return x // y
            return fdiv(x, y)
        raise Unsupported("float floor division")
    if op == '%':
        if kind_of(x) == 'i' and kind_of(y) == 'i':
            if not is_z(x) and not is_z(y):
                return x % y
            return fmod(x, y)
        return nvlift(lambda a, b: T.RMOD(toz(a, R), toz(b, R)), x, y)
    raise Unsupported("operator " + op)


def broadcast_shapes(eng, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            q = d - (n - len(s))
            if q < 0:
                continue
            e = s[q]
            if not is_z(e) and e == 1:
                continue
            if not is_z(cur) and cur == 1:
                cur = e
                continue
            if _same(cur, e):
                continue
            c = cmp('==', cur, e)
            if eng.decide(c):
                continue
            if is_z(e) and eng.decide(e == 1):
                continue
            if is_z(cur) and eng.decide(cur == 1):
                cur = e
                continue
            raise Raise('ValueError', 'shape mismatch')
        out.append(cur)
    return tuple(out)


def eff_shape(eng, s, out):
    """operand shape with the extents that are broadcast under the path condition as literal ones"""
    k = len(out) - len(s)
    return tuple(1 if is_z(e) and not _same(e, out[k + q]) and not eng.entails(cmp('==', e, out[k + q])) and eng.entails(e == 1) else e for q, e in enumerate(s))


def bget(rd, shape, idx):
    """read an operand of the given shape at a broadcast index"""
    k = len(idx) - len(shape)
    return rd(tuple(0 if (not is_z(s) and s == 1) else idx[k + q] for q, s in enumerate(shape)))


def prodshape(shape):
    r = 1
    for s in shape:
        r = mul(r, s)
    return r


class NP:
    def __init__(self, eng):
        self.eng = eng
        self.BUILTINS = make_builtins()

    # ------------------------------------------------------------ construction
    def new(self, shape, fn, kind, name=None):
        return Arr(Cell(self.eng.heap, tuple(unz(simp(s)) if is_z(s) else s for s in shape), fn, kind, name))

    def freeze(self, eng, a):
        return self.new(a.shape, a.reader(), a.kind)

    def copy(self, a):
        if isinstance(a, MArr):
            return MArr(self.copy(a.data), a.mask)
        return self.new(a.shape, a.reader(), a.kind)

    def asarr(self, v, kind=None):
        """array_like -> Arr (scalars become 0-d)"""
        eng = self.eng
        v = eng.force(v)
        if isinstance(v, (Arr, MArr)):
            return v
        if isinstance(v, SqArr):
            return v
        if is_scalar(v) or isinstance(v, NV):
            return self.new((), lambda idx: v, kind_of(v))
        if isinstance(v, FArr):
            return v
        if isinstance(v, (PList, tuple)):
            if isinstance(v, PList) and not v.concrete:
                probe, el = eng.fresh('probe', I), v.elem
                n0 = len(eng.pc)
                eng.pc += [0 <= probe, toz(cmp('<', probe, v.n))]
                n1 = len(eng.pc)
                try:
                    e0 = eng.force(el(probe))
                    if len(eng.pc) != n1:
                        raise Unsupported("a member of a symbolic list that depends on a decision")
                finally:
                    del eng.pc[n0:]
                if v.items:
                    raise Unsupported("array of a mixed list")
                if isinstance(e0, Arr):
                    sh = e0.shape
                    if any(is_z(s) and LP.mentions(s, {str(probe)}) for s in sh):
                        raise Unsupported("array of a list of arrays of different lengths")
                    if not eng.decide(cmp('>', v.n, 0)):
                        return self.new((0,), lambda idx: Fraction(0), 'f')
                    # the members are read as they are now: later changes to them are not seen
                    rd = eng.subst_val(e0, probe, probe).reader()
                    return self.new((v.n,) + tuple(sh), lambda idx: eng.subst_val(rd(idx[1:]), probe, idx[0]), e0.kind)
                if not (is_scalar(e0) or isinstance(e0, NV)):
                    raise Unsupported("array of %s" % type(e0).__name__)
                el = v.elem
                return self.new((v.n,), lambda idx: el(idx[0]), kind_of(e0))
            items = [eng.force(x) for x in (v.items if isinstance(v, PList) else v)]
            subs = [self.asarr(x) for x in items]
            if not subs:
                return self.new((0,), lambda idx: Fraction(0), 'f')
            for s in subs:
                if not isinstance(s, Arr):
                    raise Unsupported("array of special arrays")
            sh = subs[0].shape
            for s in subs[1:]:
                if len(s.shape) != len(sh):
                    raise Raise('ValueError', 'inhomogeneous')
                for a, b in zip(s.shape, sh):
                    if not _same(a, b) and not eng.decide(cmp('==', a, b)):
                        raise Raise('ValueError', 'inhomogeneous')
            kd = max((s.kind for s in subs), key=lambda k: KINDORD[k])
            rds = [s.reader() for s in subs]

            def fn(idx):
                i = idx[0]
                if not is_z(i):
                    return promote(rds[i](idx[1:]), kd)
                r = promote(rds[-1](idx[1:]), kd)
                for q in reversed(range(len(rds) - 1)):
                    r = eng.merge_elem(i == q, promote(rds[q](idx[1:]), kd), r)
                return r
            return self.new((len(subs),) + sh, fn, kd)
        if v is None:
            raise Raise('TypeError')
        raise Unsupported("array of %s" % type(v).__name__)

    def desq(self, a):
        """use of a squeezed array where only flat order matters is handled by the caller"""
        if isinstance(a, SqArr):
            raise Unsupported("use of a squeezed array of symbolic shape")
        return a

    # ------------------------------------------------------------ elementwise
    def elementwise(self, f, args, kind=None):
        eng = self.eng
        args = [eng.force(a) for a in args]
        if any(isinstance(a, FArr) for a in args):
            return self.farr_elementwise(f, args, kind)
        if any(isinstance(a, MArr) for a in args):
            return self.marr_elementwise(f, args, kind)
        ops = []
        for a in args:
            if is_scalar(a) or isinstance(a, NV):
                ops.append((None, a))
            else:
                x = self.desq(self.asarr(a))
                ops.append((x, x.reader()))
        if all(o[0] is None for o in ops):
            return f(*[o[1] for o in ops])
        shape = broadcast_shapes(eng, [o[0].shape for o in ops if o[0] is not None])

        effs = [None if o[0] is None else eff_shape(eng, o[0].shape, shape) for o in ops]

        def fn(idx):
            return f(*[o[1] if o[0] is None else bget(o[1], z, idx) for o, z in zip(ops, effs)])
        if kind is None:
            kind = kind_of(fn(tuple(eng.fresh('e', I) for _ in shape)))
        if shape == ():
            return fn(())
        return self.new(shape, fn, kind)

    def farr_elementwise(self, f, args, kind):
        eng = self.eng
        fa = [a for a in args if isinstance(a, FArr)]
        base = fa[0]
        for a in fa[1:]:
            if not self.same_farr(base, a):
                raise Unsupported("filtered arrays with different domains")
        for a in args:
            if isinstance(a, (Arr, MArr, PList)):
                if isinstance(a, Arr) and all(not is_z(s) and s == 1 for s in a.shape):
                    continue
                raise Unsupported("filtered array with plain array")
        args = [a.get((0,) * a.ndim) if isinstance(a, Arr) else a for a in args]

        def val(idx):
            return f(*[a.val(idx) if isinstance(a, FArr) else a for a in args])
        k = kind or kind_of(val(tuple(eng.fresh('e', I) for _ in base.dom)))
        return FArr(base.dom, base.cond, val, k, base.ident)

    def same_farr(self, a, b):
        if a.ident is not None and a.ident is b.ident:
            return True
        if len(a.dom) != len(b.dom) or not all(_same(x, y) for x, y in zip(a.dom, b.dom)):
            return False
        ks = tuple(self.eng.pv.sk('f') for _ in a.dom)
        rng = []
        for k, n in zip(ks, a.dom):
            rng += [0 <= k, toz(cmp('<', k, n))]
        x, y = toz(a.cond(ks), B), toz(b.cond(ks), B)
        if simp(x).eq(simp(y)):
            return True
        ok, _ = self.eng.pv.z3_prove(x == y, list(self.eng.pc) + rng)
        return ok

    def marr_elementwise(self, f, args, kind):
        ms = [a for a in args if isinstance(a, MArr)]
        data = self.elementwise(f, [a.data if isinstance(a, MArr) else a for a in args], kind)
        mask = self.elementwise(lambda *q: b_or(*q), [a.mask for a in ms], 'b')
        if _shape(mask) != data.shape:
            rd, ms_ = mask.reader(), eff_shape(self.eng, mask.shape, data.shape)
            mask = self.new(data.shape, lambda idx: bget(rd, ms_, idx), 'b')
        return MArr(data, mask)

    def binop(self, eng, op, a, b):
        a, b = eng.force(a), eng.force(b)
        for x in (a, b):
            if not (is_scalar(x) or isinstance(x, (Arr, MArr, FArr, NV, PList, tuple, SqArr))):
                if x is None or isinstance(x, (str, PDict, SymStr)):
                    raise Raise('TypeError')
                raise Unsupported("operand %s" % type(x).__name__)
        if op == '@':
            return self.dot(a, b)
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)) or \
           isinstance(a, (PList, tuple)) and is_scalar(b) or isinstance(b, (PList, tuple)) and is_scalar(a):
            raise Raise('TypeError')
        kind = 'b' if op in ('==', '!=', '<', '<=', '>', '>=') else None
        return self.elementwise(lambda x, y: scalar_op(eng, op, x, y), [a, b], kind)

    def unary(self, eng, op, v):
        if op == 'neg':
            return self.elementwise(lambda x: nvlift(neg, x), [v])
        if op == 'invert':
            def inv(x):
                if kind_of(x) != 'b':
                    raise Unsupported("~ on numbers")
                return b_not(x)
            if isinstance(v, bool) or is_z(v) and v.sort() == B:
                return b_not(v)
            return self.elementwise(inv, [v], 'b')
        raise Unsupported(op)

    def inplace(self, eng, op, a, v):
        if isinstance(a, MArr):
            raise Unsupported("in-place operation on a masked array")
        snap = self.freeze(eng, a)
        r = self.binop(eng, op, snap, v)
        if isinstance(r, Arr):
            if KINDORD[r.kind] > KINDORD[a.kind]:
                raise Raise('UFuncTypeError')
            if len(r.shape) != len(a.shape):
                raise Raise('ValueError')
        self.store(eng, a, (Ellipsis,), r)

    # ------------------------------------------------------------ indexing
    def norm_ix(self, ix, nd):
        n_real = sum(1 for x in ix if x is not None and x is not Ellipsis)
        n_real += sum(x.ndim - 1 for x in ix if isinstance(x, Arr) and x.kind == 'b')
        out = []
        if any(x is Ellipsis for x in ix):
            for x in ix:
                if x is Ellipsis:
                    out += [SliceV(None, None, None)] * (nd - n_real)
                else:
                    out.append(x)
        else:
            out = list(ix) + [SliceV(None, None, None)] * (nd - n_real)
        if n_real > nd:
            raise Raise('IndexError')
        return out

    def slice_bounds(self, s, n):
        """-> (off, length, step)"""
        eng = self.eng
        step = 1 if s.step is None else s.step
        if is_z(step) or step not in (1, -1):
            raise Unsupported("slice step")
        if step == -1:
            if s.lo is not None or s.hi is not None:
                raise Unsupported("negative slice with bounds")
            return sub(n, 1), n, -1

        def norm(q, dflt):
            if q is None:
                return dflt
            if kind_of(q) != 'i':
                raise Raise('TypeError')
            if not is_z(q) and q < 0:
                q = add(n, q)
                if not is_z(q):
                    return max(q, 0)
                return q if eng.decide(q >= 0) else 0
            if is_z(q) and not eng.entails(q >= 0):
                if eng.decide(q < 0):
                    q = add(n, q)
                    if not eng.decide(cmp('>=', q, 0)):
                        return 0
            if eng.decide(cmp('<=', q, n)):
                return q
            return n
        lo, hi = norm(s.lo, 0), norm(s.hi, n)
        ln = sub(hi, lo)
        if is_z(ln):
            ln = unz(simp(ln))
        if not is_z(lo) and lo == 0:
            return 0, hi, 1
        if not eng.decide(cmp('>=', ln, 0)):
            return lo, 0, 1
        return lo, ln, 1

    def int_index(self, i, n):
        eng = self.eng
        if kind_of(i) != 'i':
            raise Raise('IndexError')
        if not is_z(i) and not is_z(n):
            if i < 0:
                i += n
            if not 0 <= i < n:
                if eng.safety:
                    eng.oblige('index in bounds', False)
                raise Raise('IndexError')
            return i
        i = self.flat_index(i)
        ok = b_and(cmp('>=', i, 0), cmp('<', i, n))
        if eng.safety:
            # compiled kernels: no bounds check at run time, no wraparound
            eng.oblige('array index in bounds', ok)
            eng.assume(ok)
            return i
        if not is_z(i) and i < 0:
            i = add(n, i)
            ok = cmp('>=', i, 0)
        elif is_z(i) and not eng.entails(i >= 0):
            if eng.decide(i < 0):
                i = add(n, i)
            ok = b_and(cmp('>=', i, 0), cmp('<', i, n))
        if not eng.decide(ok):
            raise Raise('IndexError')
        return i

    def flat_index(self, i):
        """r * m + c with 0 <= c < m and r >= 0 -> FLAT(r, c, m)"""
        if not is_z(i):
            return i
        t = simp(i)
        ms = list(t.children()) if z3.is_add(t) else [t]
        for k, x in enumerate(ms):
            if not (z3.is_app(x) and x.decl().eq(T.IMUL)):
                continue
            fs = T.ifactors(x)
            c = toz(0, I)
            for o, y in enumerate(ms):
                if o != k:
                    c = c + y
            c = simp(c)
            for q, m in enumerate(fs):
                rest = fs[:q] + fs[q + 1:]
                r = T.imul(rest)
                if self.eng.entails(z3.And(r >= 0, 0 <= c, c < m)):
                    return T.flat(unz(r), unz(c), m)
        return i

    def index(self, eng, a, ix):
        if isinstance(a, MArr):
            d, m = self.index(eng, a.data, ix), self.index(eng, a.mask, ix)
            if isinstance(d, Arr):
                return MArr(d, m)
            raise Unsupported("element of a masked array")
        if isinstance(a, FArr):
            return self.index_farr(a, ix)
        if isinstance(a, SqArr):
            raise Unsupported("index of a squeezed array")
        ix = [eng.force(x) for x in ix]
        ix = [self.asarr(x) if isinstance(x, PList) else x for x in ix]
        if any(isinstance(x, (Arr, FArr)) and not (isinstance(x, Arr) and x.ndim == 0) for x in ix):
            return self.fancy_get(a, self.norm_ix(ix, a.ndim))
        ix = [x.get(()) if isinstance(x, Arr) else x for x in ix]
        ix = self.norm_ix(ix, a.ndim)
        if all(is_scalar(x) for x in ix):
            idx = tuple(self.int_index(x, n) for x, n in zip(ix, a.shape))
            return a.get(idx)
        return self.view(a, ix)

    def view(self, a, ix):
        """basic indexing: a view of the same cell"""
        remap, shape, d = {}, [], 0
        for x in ix:
            if x is None:
                shape.append(1)
                continue
            n = a.shape[d]
            if isinstance(x, SliceV):
                off, ln, step = self.slice_bounds(x, n)
                remap[d] = ('ax', len(shape), off, step)
                shape.append(ln)
            elif is_scalar(x):
                remap[d] = ('fix', self.int_index(x, n))
            else:
                raise Unsupported("index %s" % type(x).__name__)
            d += 1
        axes = []
        for c in a.axes:
            if c[0] == 'fix':
                axes.append(c)
                continue
            _, v, off, step = c
            r = remap[v]
            if r[0] == 'fix':
                axes.append(('fix', add(off, mul(step, r[1])) if step != 1 else add(off, r[1])))
            else:
                axes.append(('ax', r[1], add(off, mul(step, r[2])) if step != 1 else add(off, r[2]), step * r[3]))
        return Arr(a.cell, tuple(axes), tuple(shape))

    def index_farr(self, a, ix):
        eng = self.eng
        if len(ix) != 1:
            raise Raise('IndexError')
        x = eng.force(ix[0])
        if isinstance(x, FArr) and x.kind == 'b':
            if not self.same_farr(a, x):
                raise Unsupported("mask of another filtered array")
            c0, cv = a.cond, x.val
            return FArr(a.dom, lambda idx: b_and(c0(idx), cv(idx)), a.val, a.kind)
        if is_scalar(x) and not is_z(x) and x == 0 and len(a.dom) == 1:
            return self.first(a)
        raise Unsupported("index of a filtered array")

    def first(self, a):
        """value at the first selected index"""
        eng = self.eng
        n = a.dom[0]
        any_ = mk_any(n, lambda k: a.cond((k,)))
        if not eng.decide(any_):
            raise Raise('IndexError')
        w = mk_ext(T.MINH, n, lambda k: toz(k, R), lambda k: a.cond((k,)))
        iw = T.TOINT(w)
        return a.val((iw,))

    def fancy_get(self, a, ix):
        eng = self.eng
        # boolean mask of the full shape
        if len(ix) == 1 and isinstance(ix[0], Arr) and ix[0].kind == 'b':
            m = ix[0]
            if m.ndim != a.ndim:
                raise Unsupported("partial boolean index")
            for p, q in zip(m.shape, a.shape):
                if not _same(p, q) and not eng.decide(cmp('==', p, q)):
                    raise Raise('IndexError')
            mr, ar = m.reader(), a.reader()
            return FArr(a.shape, mr, ar, a.kind, None)
        if len(ix) == 1 and isinstance(ix[0], FArr) and a.ndim == 1 and ix[0].kind == 'i':
            f = ix[0]
            ar, n = a.reader(), a.shape[0]
            c, v = f.cond, f.val
            bad = mk_any_nd(f.dom, lambda idx: b_and(c(idx), b_not(b_and(cmp('>=', v(idx), 0), cmp('<', v(idx), n)))))
            if eng.decide(bad):
                raise Raise('IndexError')
            return FArr(f.dom, c, lambda idx: ar((v(idx),)), a.kind, f.ident)
        arrs = [x for x in ix if isinstance(x, Arr)]
        if any(isinstance(x, FArr) for x in ix) or any(x.kind != 'i' for x in arrs):
            raise Unsupported("fancy index")
        # advanced indices, adjacent, optionally followed/preceded by full slices and scalars
        adv = [q for q, x in enumerate(ix) if isinstance(x, Arr) or is_scalar(x)]
        if None in ix:
            raise Unsupported("newaxis with fancy index")
        if adv != list(range(adv[0], adv[0] + len(adv))):
            raise Unsupported("separated fancy indices")
        S = broadcast_shapes(eng, [x.shape for x in arrs])
        rds = {}
        for q in adv:
            x, n = ix[q], a.shape[q]
            if is_scalar(x):
                k = self.int_index(x, n)
                rds[q] = lambda idx, k=k: k
                continue
            r, sh = x.reader(), eff_shape(eng, x.shape, S)
            ks = tuple(eng.pv.sk('f') for _ in sh)
            rng = [c for k, s in zip(ks, sh) for c in (k >= 0, toz(cmp('<', k, s)))]
            bad = mk_any_nd(sh, lambda idx: b_not(b_and(cmp('>=', r(idx), 0), cmp('<', r(idx), n))))
            if eng.pv.entails(eng.pc + rng, toz(b_and(cmp('>=', r(ks), 0), cmp('<', r(ks), n)))):
                pass
            elif eng.decide(bad):
                # python allows negative indices; not modelled beyond the error
                neg_ = mk_any_nd(sh, lambda idx: cmp('<', r(idx), 0))
                if eng.decide(neg_):
                    raise Unsupported("negative fancy index")
                raise Raise('IndexError')
            rds[q] = lambda idx, r=r, sh=sh: bget(r, sh, idx)
        pre = adv[0]
        post = len(ix) - adv[-1] - 1
        sl = {}
        for q, x in enumerate(ix):
            if isinstance(x, SliceV):
                sl[q] = self.slice_bounds(x, a.shape[q])
        shape = tuple(sl[q][1] for q in range(pre)) + S + tuple(sl[q][1] for q in range(adv[-1] + 1, len(ix)))
        ar, ns = a.reader(), len(S)

        def fn(idx):
            mid = idx[pre:pre + ns]
            out = []
            for q in range(len(ix)):
                if q < pre:
                    o, _, st = sl[q]
                    out.append(add(o, mul(st, idx[q])))
                elif q in rds:
                    out.append(rds[q](mid))
                else:
                    o, _, st = sl[q]
                    out.append(add(o, mul(st, idx[pre + ns + (q - adv[-1] - 1)])))
            return ar(tuple(out))
        return self.new(shape, fn, a.kind)

    # ------------------------------------------------------------ stores
    def check_owner(self, a):
        if a.cell.derived and not a.cell.frozen:
            raise Unsupported('store into an element of a symbolic list')
        if a.cell.frozen:
            self.eng.frame_violation("array %s is modified" % (a.cell.name or ''))
        if a.cell.aliased:
            raise Unsupported("store into an array with reshaped aliases")

    def store(self, eng, a, ix, v):
        if isinstance(a, MArr):
            return self.store_masked(a, ix, v)
        self.check_owner(a)
        ix = [eng.force(x) for x in ix]
        ix = [self.asarr(x) if isinstance(x, PList) else x for x in ix]
        ix = self.norm_ix(ix, a.ndim)
        if any(isinstance(x, (Arr, FArr)) for x in ix):
            return self.fancy_set(a, ix, v)
        t = self.view(a, ix)
        self.assign_view(t, v)

    def assign_view(self, t, v):
        eng = self.eng
        cell = t.cell
        v = eng.force(v)
        if isinstance(v, (PList, tuple)):
            v = self.asarr(v)
        if is_scalar(v) or isinstance(v, NV):
            rd, vs = (lambda idx: v), ()
            vk = kind_of(v)
        elif isinstance(v, Arr):
            rd, vs = v.reader(), v.shape
            vk = v.kind
            # numpy drops leading ones of the value
            while len(vs) > len(t.shape) and not is_z(vs[0]) and vs[0] == 1:
                r0 = rd
                rd, vs = (lambda idx, r0=r0: r0((0,) + tuple(idx))), vs[1:]
            if len(vs) > len(t.shape):
                raise Raise('ValueError', 'shape mismatch in store')
            for q, s in enumerate(vs):
                if not is_z(s) and s == 1:
                    continue
                n = t.shape[len(t.shape) - len(vs) + q]
                if not _same(s, n) and not eng.decide(cmp('==', s, n)):
                    if is_z(s) and eng.decide(s == 1):
                        raise Unsupported("length-one broadcast")
                    raise Raise('ValueError', 'shape mismatch in store')
        elif isinstance(v, SqArr):
            raise Unsupported("store of a squeezed array")
        elif isinstance(v, MArr):
            raise Unsupported("store of a masked array")
        elif v is None or isinstance(v, (str, PDict, Obj)):
            raise Raise('TypeError')
        else:
            raise Unsupported("store of %s" % type(v).__name__)
        if cell.kind == 'i' and vk == 'f':
            rd0 = rd
            rd = lambda idx: nan_free(trunc, rd0(idx))
        kind, old, axes, cshape = cell.kind, cell.fn, t.axes, cell.shape
        nd = len(t.shape)

        def fn(idx):
            conds, vi = [], [0] * nd
            for c, (ax, i) in enumerate(zip(axes, idx)):
                if ax[0] == 'fix':
                    e = ax[1]
                    if is_z(e) and z3.is_app(e) and e.decl().eq(T.FLAT):
                        # i >= 0: i == r * m + c  <=>  i // m == r and i % m == c
                        conds += [cmp('==', T.fdiv(i, e.arg(2)), e.arg(0)), cmp('==', T.fmod(i, e.arg(2)), e.arg(1))]
                    else:
                        conds.append(cmp('==', i, e))
                    continue
                _, q, off, step = ax
                n = t.shape[q]
                if step == 1:
                    whole = not is_z(off) and off == 0 and _same(n, cshape[c])
                    vi[q] = i if (not is_z(off) and off == 0) else sub(i, off)
                    if not whole:
                        if not (not is_z(off) and off == 0):
                            conds.append(cmp('>=', i, off))
                        conds.append(cmp('<', i, add(off, n)))
                elif step == -1:
                    vi[q] = sub(off, i)
                    conds.append(b_and(cmp('<=', i, off), cmp('>', i, sub(off, n))))
                else:
                    raise Unsupported("strided store")
            c = b_and(*conds)
            c = unz(simp(c)) if is_z(c) else c
            if c is False:
                return old(idx)
            val = promote(bget(rd, vs, tuple(vi)), kind)
            if c is True:
                return val
            return eng.merge_elem(c, val, old(idx))
        self.eng.heap.touch(cell)
        cell.fn = fn

    def fancy_set(self, a, ix, v):
        eng = self.eng
        if not a.is_whole():
            raise Unsupported("fancy store through a view")
        cell, old, kind = a.cell, a.cell.fn, a.kind
        if not (is_scalar(v) or isinstance(v, NV)):
            if isinstance(v, Arr) and v.ndim == 0:
                v = v.get(())
            else:
                raise Unsupported("fancy store of an array")
        val = promote(v, kind)
        if len(ix) == 1 and isinstance(ix[0], Arr) and ix[0].kind == 'b':
            m = ix[0]
            if m.ndim != a.ndim:
                raise Unsupported("partial boolean store")
            for p, q in zip(m.shape, a.shape):
                if not _same(p, q) and not eng.decide(cmp('==', p, q)):
                    raise Raise('IndexError')
            mr = m.reader()
            new = lambda idx: eng.merge_elem(mr(idx), val, old(idx))
        else:
            fs = [(q, x) for q, x in enumerate(ix) if isinstance(x, FArr)]
            if not fs or any(isinstance(x, Arr) for x in ix) or None in ix:
                raise Unsupported("fancy store")
            f0 = fs[0][1]
            for _, f in fs[1:]:
                if not (f.ident is not None and f.ident is f0.ident):
                    raise Unsupported("fancy store with different selections")
            # every coordinate must be one of the components of the domain
            comp = {}
            ks = tuple(eng.fresh('d', I) for _ in f0.dom)
            for q, f in fs:
                t = f.val(ks)
                hit = [c for c, k in enumerate(ks) if is_z(t) and t.eq(k)]
                if len(hit) != 1 or hit[0] in comp.values():
                    raise Unsupported("fancy store with computed indices")
                comp[q] = hit[0]
                dn = f0.dom[hit[0]]
                if not _same(dn, a.shape[q]) and not eng.entails(cmp('<=', dn, a.shape[q])):
                    bad = mk_any_nd(f0.dom, lambda idx: b_and(f0.cond(idx), cmp('>=', idx[hit[0]], a.shape[q])))
                    if eng.decide(bad):
                        raise Raise('IndexError')
            if len(comp) != len(f0.dom):
                raise Unsupported("fancy store: domain larger than the store")
            fixed = {}
            for q, x in enumerate(ix):
                if isinstance(x, FArr):
                    continue
                if is_scalar(x):
                    fixed[q] = self.int_index(x, a.shape[q])
                elif isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None:
                    continue
                else:
                    raise Unsupported("fancy store with slices")

            def new(idx):
                d = [None] * len(f0.dom)
                conds = []
                for q, c in comp.items():
                    d[c] = idx[q]
                    if not _same(f0.dom[c], a.shape[q]):
                        conds.append(cmp('<', idx[q], f0.dom[c]))
                for q, k in fixed.items():
                    conds.append(cmp('==', idx[q], k))
                conds.append(f0.cond(tuple(d)))
                return eng.merge_elem(b_and(*conds), val, old(idx))
        eng.heap.touch(cell)
        cell.fn = new

    def store_masked(self, a, ix, v):
        raise Unsupported("store into a masked array")

    # ------------------------------------------------------------ shape
    def transpose(self, a):
        if isinstance(a, MArr):
            return MArr(self.transpose(a.data), self.transpose(a.mask))
        if isinstance(a, SqArr):
            raise Unsupported("transpose of squeezed array")
        nd = a.ndim
        return self.permute(a, list(range(nd))[::-1])

    def permute(self, a, perm):
        """result axis q is a's axis perm[q]"""
        inv = {p: q for q, p in enumerate(perm)}
        axes = tuple(c if c[0] == 'fix' else ('ax', inv[c[1]], c[2], c[3]) for c in a.axes)
        return Arr(a.cell, axes, tuple(a.shape[p] for p in perm))

    def ravel_fn(self, shape, rd):
        """element function of the C-order flattening"""
        real = [q for q, s in enumerate(shape) if is_z(s) or s != 1]

        def fn(idx):
            p = idx[0]
            out = [0] * len(shape)
            for q in reversed(real[1:]):
                out[q] = fmod(p, shape[q])
                p = fdiv(p, shape[q])
            if real:
                out[real[0]] = p
            return rd(tuple(out))
        return fn

    def flatten(self, a):
        if isinstance(a, SqArr):
            a = a.arr
        if isinstance(a, MArr):
            return MArr(self.flatten(a.data), self.flatten(a.mask))
        if isinstance(a, FArr):
            return a
        return self.new((prodshape(a.shape),), self.ravel_fn(a.shape, a.reader()), a.kind)

    def ravel(self, a):
        """like flatten, but it may be a view"""
        if isinstance(a, MArr):
            return MArr(self.ravel(a.data), self.ravel(a.mask))
        if not isinstance(a, Arr) or a.ndim == 1:
            return a if isinstance(a, Arr) else self.flatten(a)
        return self.reshape(a, (prodshape(a.shape),))

    def reshape(self, a, shape):
        eng = self.eng
        if isinstance(a, MArr):
            return MArr(self.reshape(a.data, shape), self.reshape(a.mask, shape))
        if isinstance(a, (FArr, SqArr)):
            raise Unsupported("reshape")
        shape = [eng.force(s) for s in shape]
        tot = prodshape(a.shape)
        if any(not is_z(s) and s == -1 for s in shape):
            rest = [s for s in shape if is_z(s) or s != -1]
            k = prodshape(rest)
            if not is_z(k) and k == 1:
                miss = tot
            elif not is_z(k) and not is_z(tot):
                miss = tot // k
            elif is_z(tot):
                miss = T.idivfactor(toz(tot, I), toz(k, I))
                if miss is None:
                    raise Unsupported("reshape(-1)")
                miss = unz(miss)
            else:
                raise Unsupported("reshape(-1)")
            shape = [miss if (not is_z(s) and s == -1) else s for s in shape]
        if not _same(prodshape(shape), tot) and not eng.decide(cmp('==', prodshape(shape), tot)):
            raise Raise('ValueError', 'reshape')
        src = [q for q, s in enumerate(a.shape) if is_z(s) or s != 1]
        dst = [q for q, s in enumerate(shape) if is_z(s) or s != 1]
        if len(src) == len(dst) and all(_same(a.shape[p], shape[q]) or eng.entails(cmp('==', a.shape[p], shape[q])) for p, q in zip(src, dst)):
            m = dict(zip(src, dst))
            axes = []
            for c in a.axes:
                if c[0] == 'fix':
                    axes.append(c)
                elif c[1] in m:
                    axes.append(('ax', m[c[1]], c[2], c[3]))
                else:
                    axes.append(('fix', c[2]))
            return Arr(a.cell, tuple(axes), tuple(shape))
        flat_fn = self.ravel_fn(a.shape, a.reader())
        if not a.cell.aliased:
            eng.heap.touch(a.cell)
            a.cell.aliased = True

        def fn(idx):
            p = 0
            first = True
            for s, i in zip(shape, idx):
                if not is_z(s) and s == 1:
                    continue
                p = i if first else flat(p, i, s)
                first = False
            return flat_fn((p,))
        r = self.new(shape, fn, a.kind)
        r.cell.aliased = True
        return r

    def concatenate(self, parts, axis=0):
        eng = self.eng
        parts = [self.desq(self.asarr(p)) for p in parts]
        if any(isinstance(p, FArr) for p in parts):
            raise Unsupported("concatenate of filtered arrays")
        if any(isinstance(p, MArr) for p in parts):
            raise Unsupported("concatenate of masked arrays")
        nd = parts[0].ndim
        if axis < 0:
            axis += nd
        for p in parts:
            if p.ndim != nd:
                raise Raise('ValueError')
            for q in range(nd):
                if q != axis and not _same(p.shape[q], parts[0].shape[q]) and not eng.decide(cmp('==', p.shape[q], parts[0].shape[q])):
                    raise Raise('ValueError', 'concatenate')
        kd = max((p.kind for p in parts), key=lambda k: KINDORD[k])
        offs, tot = [], 0
        for p in parts:
            offs.append(tot)
            tot = add(tot, p.shape[axis])
        rds = [p.reader() for p in parts]

        def fn(idx):
            i = idx[axis]
            r = None
            for q in reversed(range(len(parts))):
                j = list(idx)
                j[axis] = sub(i, offs[q])
                c = cmp('>=', i, offs[q])
                c = unz(simp(c)) if is_z(c) else c
                if r is None:
                    if not is_z(i) and not is_z(offs[q]) and i < offs[q]:
                        continue
                    r = promote(rds[q](tuple(j)), kd)
                    if c is True:
                        return r if r is not None else None
                    last = r
                    continue_c = c
                    stack.append((c, r))
                    continue
                stack.append((c, promote(rds[q](tuple(j)), kd)))
            # stack holds (i >= off_q, value) from the last part to the first
            v = stack[-1][1]
            for c, x in reversed(stack[:-1]):
                v = eng.merge_elem(c, x, v)
            return v

        def fn2(idx):
            i = idx[axis]
            cases = []
            for q in reversed(range(len(parts))):
                c = cmp('>=', i, offs[q])
                c = unz(simp(c)) if is_z(c) else c
                if c is False:
                    continue
                cases.append((c, q))
                if c is True:
                    break
            c, q = cases[-1]

            def val(q):
                j = list(idx)
                j[axis] = sub(i, offs[q])
                return promote(rds[q](tuple(j)), kd)
            v = val(q)
            for c, q in reversed(cases[:-1]):
                v = eng.merge_elem(c, val(q), v)
            return v
        shape = list(parts[0].shape)
        shape[axis] = tot
        return self.new(shape, fn2, kd)

    # ------------------------------------------------------------ reductions
    def _dom(self, a):
        """(dom, cond, val, kind) for reductions over everything"""
        if isinstance(a, FArr):
            return a.dom, a.cond, a.val, a.kind
        if isinstance(a, SqArr):
            a = a.arr
        a = self.asarr(a)
        return a.shape, (lambda idx: True), a.reader(), a.kind

    def total(self, a):
        dom, cond, val, kind = self._dom(a)
        if kind == 'b':
            return mk_cnt_nd(dom, lambda idx: b_and(cond(idx), val(idx)))
        if kind == 'i':
            raise Unsupported("integer sum")
        return mk_sum_nd(dom, lambda idx: ite(cond(idx), val(idx), Fraction(0)))

    def sum(self, a, axis=None):
        eng = self.eng
        if isinstance(a, MArr):
            return self.sum_masked(a, axis)
        if axis is None or isinstance(a, FArr):
            return self.total(a)
        a = self.desq(self.asarr(a))
        if axis < 0:
            axis += a.ndim
        if a.kind != 'f':
            raise Unsupported("sum of integers along an axis")
        rd, n = a.reader(), a.shape[axis]
        shape = a.shape[:axis] + a.shape[axis + 1:]

        def fn(idx):
            return mk_sum(n, lambda k: rd(tuple(idx[:axis]) + (k,) + tuple(idx[axis:])))
        if not shape:
            return fn(())
        return self.new(shape, fn, 'f')

    def sum_masked(self, a, axis):
        if axis is None:
            raise Unsupported("full sum of a masked array")
        if axis < 0:
            axis += a.ndim
        rd, mk, n = a.data.reader(), a.mask.reader(), a.shape[axis]
        shape = a.shape[:axis] + a.shape[axis + 1:]
        at = lambda idx, k: tuple(idx[:axis]) + (k,) + tuple(idx[axis:])
        d = self.new(shape, lambda idx: mk_sum(n, lambda k: ite(mk(at(idx, k)), Fraction(0), rd(at(idx, k)))), 'f')
        m = self.new(shape, lambda idx: b_not(mk_any(n, lambda k: b_not(mk(at(idx, k))))), 'b')
        return MArr(d, m)

    def size(self, a):
        if isinstance(a, FArr):
            return mk_cnt_nd(a.dom, a.cond)
        if isinstance(a, SqArr):
            a = a.arr
        return prodshape(a.shape)

    def any(self, a, axis=None):
        if axis is not None:
            raise Unsupported("any(axis)")
        a = self.eng.force(a)
        if is_scalar(a):
            return truth(a)
        if isinstance(a, MArr):
            raise Unsupported("any of masked array")
        dom, cond, val, kind = self._dom(a)
        return mk_any_nd(dom, lambda idx: b_and(cond(idx), truth(val(idx))))

    def all(self, a, axis=None):
        if axis is not None:
            raise Unsupported("all(axis)")
        a = self.eng.force(a)
        if is_scalar(a):
            return truth(a)
        dom, cond, val, kind = self._dom(a)
        return b_not(mk_any_nd(dom, lambda idx: b_and(cond(idx), b_not(truth(val(idx))))))

    def has_witness(self, dom, cond):
        """some small index is selected"""
        for w in {1: [(0,), (1,)], 2: [(0, 1), (1, 0), (0, 0)]}.get(len(dom), []):
            if self.eng.entails(b_and(*[cmp('<', k, s) for k, s in zip(w, dom)], cond(w))):
                return True
        return False

    def extreme(self, head, a, axis=None):
        eng = self.eng
        if axis is not None:
            raise Unsupported("max(axis)")
        if isinstance(a, MArr):
            raise Unsupported("max of masked array")
        if is_scalar(a):
            return a
        dom, cond, val, kind = self._dom(a)
        empty = b_not(mk_any_nd(dom, cond)) if isinstance(a, FArr) else b_or(*[cmp('==', s, 0) for s in dom])
        if not (isinstance(a, FArr) and self.has_witness(dom, cond)) and eng.decide(empty):
            raise Raise('ValueError')
        flat_n, at = flat_dom(dom)
        if all(not is_z(s) for s in dom) and prodshape(dom) <= 6 and not isinstance(a, FArr):
            vals = [val(at(k)) for k in range(prodshape(dom))]
            r = vals[0]
            for v in vals[1:]:
                r = nvlift(T.maxv if head is T.MAXH else T.minv, r, v)
            return r
        w = mk_ext(head, flat_n, lambda k: toz(self._plain(val(at(k))), R), lambda k: cond(at(k)))
        return T.TOINT(w) if kind == 'i' else w

    def _plain(self, v):
        if isinstance(v, NV):
            if self.eng.entails(b_not(v.flag)):
                return v.val
            raise Unsupported("extreme of values that may be NaN")
        return v

    # ------------------------------------------------------------ linear algebra
    def dot(self, a, b):
        eng = self.eng
        a, b = eng.force(a), eng.force(b)
        if is_scalar(a) or is_scalar(b):
            return self.binop(eng, '*', a, b)
        masked = isinstance(a, MArr) or isinstance(b, MArr)
        if masked:
            r = self.dot(a.data if isinstance(a, MArr) else a, b.data if isinstance(b, MArr) else b)
            if not isinstance(r, Arr):
                return r
            return MArr(r, self.new(r.shape, lambda idx: False, 'b'))
        if isinstance(a, FArr) or isinstance(b, FArr):
            raise Unsupported("dot of filtered arrays")
        a, b = self.desq(self.asarr(a)), self.desq(self.asarr(b))
        if a.ndim == 0 or b.ndim == 0:
            return self.binop(eng, '*', a, b)
        n = a.shape[-1]
        m = b.shape[0] if b.ndim == 1 else b.shape[-2]
        if not _same(n, m) and not eng.decide(cmp('==', n, m)):
            raise Raise('ValueError', 'dot')
        if b.ndim > 2 or a.ndim > 2:
            raise Unsupported("dot of >2-d arrays")
        ra, rb = a.reader(), b.reader()
        sa = a.shape[:-1]
        sb = () if b.ndim == 1 else (b.shape[-1],)

        def fn(idx):
            i, j = idx[:len(sa)], idx[len(sa):]
            return mk_sum(n, lambda k: mul(ra(tuple(i) + (k,)), rb((k,) + tuple(j))))
        if not sa and not sb:
            return fn(())
        return self.new(sa + sb, fn, 'f')

    def matrix_fn(self, a):
        a = self.desq(self.asarr(a))
        if isinstance(a, MArr) or isinstance(a, FArr):
            raise Unsupported("inverse of special array")
        if a.ndim != 2:
            raise Raise('ValueError')
        if not _same(a.shape[0], a.shape[1]) and not self.eng.decide(cmp('==', a.shape[0], a.shape[1])):
            raise Raise('ValueError')
        rd = a.reader()
        return a.shape[0], (lambda i, j: rd((i, j)))

    def inv(self, a, kind=None):
        n, f = self.matrix_fn(a)
        L = inv_lambda(n, f)
        if kind is None:
            return self.new((n, n), lambda idx: T.INV(L[0], L[1], toz(idx[0], I), toz(idx[1], I)), 'f')
        K = z3.IntVal({'pinv': 1, 'pinvh': 2}[kind])
        return self.new((n, n), lambda idx: T.PINV(K, L[0], L[1], toz(idx[0], I), toz(idx[1], I)), 'f')

    def solve(self, a, b):
        eng = self.eng
        n, f = self.matrix_fn(a)
        L = inv_lambda(n, f)
        b = self.desq(self.asarr(b))
        if not _same(b.shape[0], n) and not eng.decide(cmp('==', b.shape[0], n)):
            raise Raise('ValueError')
        rb = b.reader()

        def fn(idx):
            return mk_sum(n, lambda k: mul(T.INV(L[0], L[1], toz(idx[0], I), toz(k, I)), rb((k,) + tuple(idx[1:]))))
        return self.new(b.shape, fn, 'f')

    def lstsq(self, a, b):
        eng = self.eng
        n, f = self.matrix_fn(a)
        L = inv_lambda(n, f)
        b = self.desq(self.asarr(b))
        rb = b.reader()

        def fn(idx):
            bl = T.lam(lambda k: rb((k,) + tuple(idx[1:])))
            return T.LSQ(L[0], L[1], bl, toz(idx[0], I))
        return self.new(b.shape, fn, 'f')

    # ------------------------------------------------------------ attributes
    def attr(self, eng, a, name):
        if isinstance(a, FArr):
            return self.attr_farr(a, name)
        if isinstance(a, SqArr):
            if name == 'flatten' or name == 'ravel':
                return Prim(name, lambda e, args, kw: self.flatten(a))
            if name == 'size':
                return self.size(a)
            raise Unsupported("squeezed array ." + name)
        if name == 'shape':
            return tuple(a.shape)
        if name == 'ndim':
            return a.ndim
        if name == 'size':
            return prodshape(a.shape)
        if name == 'T':
            return self.transpose(a)
        if name == 'dtype':
            return TypeV({'f': 'float64', 'i': 'int64', 'b': 'bool'}[a.kind])
        if name == 'tolist' and isinstance(a, MArr):
            # nested lists; only usable as an array again
            def tolist(e, args, kw):
                fill = e.force(args[0] if args else kw.get('fill_value'))
                if not is_scalar(fill):
                    raise Unsupported("tolist without a fill value")
                rd, rm = a.data.reader(), a.mask.reader()

                def at(idx):
                    v = rd(idx)
                    if isinstance(v, NV):
                        return NV(b_and(b_not(rm(idx)), v.flag), ite(rm(idx), promote(fill, 'f'), v.val))
                    return ite(rm(idx), promote(fill, a.kind), v)
                return self.new(a.shape, at, a.kind)
            return Prim('tolist', tolist)
        if name == 'filled' and isinstance(a, MArr):
            return Prim('filled', lambda e, args, kw: e.call(e.getattr(a, 'tolist'), args, kw))
        if name in ('data', 'mask') and isinstance(a, MArr):
            return a.data if name == 'data' else a.mask
        if name == 'base' and isinstance(a, Arr):
            return a if a.is_whole() else Unsupported_("base of a view")
        M = {
            'flatten': lambda e, args, kw: self.flatten(a),
            'ravel': lambda e, args, kw: self.ravel(a),
            'copy': lambda e, args, kw: self.copy(a),
            'reshape': lambda e, args, kw: self.reshape(a, self.shape_args(args)),
            'any': lambda e, args, kw: self.any(a, *args, **kw),
            'all': lambda e, args, kw: self.all(a, *args, **kw),
            'sum': lambda e, args, kw: self.sum(a, *args, **kw),
            'max': lambda e, args, kw: self.extreme(T.MAXH, a, *args, **kw),
            'min': lambda e, args, kw: self.extreme(T.MINH, a, *args, **kw),
            'mean': lambda e, args, kw: self.mean(a, *args, **kw),
            'dot': lambda e, args, kw: self.dot(a, args[0]),
            'round': lambda e, args, kw: e.externals['numpy.round'].fn(e, [a] + list(args), kw),
            'astype': lambda e, args, kw: self.astype(a, args[0] if args else kw['dtype']),
            'swapaxes': lambda e, args, kw: self.swapaxes(a, *args),
            'transpose': lambda e, args, kw: self.transpose(a) if not args else self.permute(a, self.shape_args(args)),
            'squeeze': lambda e, args, kw: self.squeeze(a),
            'tolist': None, 'item': lambda e, args, kw: self.item(a),
            'fill': lambda e, args, kw: self.store(e, a, (Ellipsis,), args[0]),
        }
        f = M.get(name)
        if f is not None:
            return Prim('ndarray.' + name, f)
        if name in ('dtype_', 'pykrige_kwargs', '__name__'):
            raise Raise('AttributeError')
        raise Unsupported("ndarray." + name)

    def item(self, a):
        if all(not is_z(s) and s == 1 for s in a.shape):
            return a.get((0,) * a.ndim)
        raise Unsupported("item")

    def attr_farr(self, a, name):
        if name == 'size':
            return self.size(a)
        if name == 'shape':
            return (self.size(a),)
        if name == 'ndim':
            return 1
        if name == 'dtype':
            return TypeV({'f': 'float64', 'i': 'int64', 'b': 'bool'}[a.kind])
        M = {'any': lambda e, args, kw: self.any(a), 'all': lambda e, args, kw: self.all(a), 'sum': lambda e, args, kw: self.total(a),
             'mean': lambda e, args, kw: self.mean(a), 'copy': lambda e, args, kw: a,
             'max': lambda e, args, kw: self.extreme(T.MAXH, a), 'min': lambda e, args, kw: self.extreme(T.MINH, a)}
        if name in M:
            return Prim(name, M[name])
        raise Unsupported("filtered array ." + name)

    def shape_args(self, args):
        if len(args) == 1 and isinstance(args[0], (tuple, PList)):
            q = args[0]
            if isinstance(q, PList) and not q.concrete:
                raise Unsupported("shape given by a symbolic list")
            return list(q if isinstance(q, tuple) else q.items)
        return list(args)

    def swapaxes(self, a, p, q):
        if isinstance(a, MArr):
            return MArr(self.swapaxes(a.data, p, q), self.swapaxes(a.mask, p, q))
        perm = list(range(a.ndim))
        perm[p], perm[q] = perm[q], perm[p]
        return self.permute(a, perm)

    def squeeze(self, a):
        if isinstance(a, (SqArr, FArr)):
            return a
        if isinstance(a, MArr):
            raise Unsupported("squeeze of masked array")
        a = self.asarr(a)
        keep = [q for q, s in enumerate(a.shape) if is_z(s) or s != 1]
        b = self.reshape(a, [a.shape[q] for q in keep]) if len(keep) != a.ndim else a
        if any(is_z(s) and not self.eng.entails(s != 1) for s in b.shape):
            return SqArr(b)
        return b

    def atleast(self, a, nd):
        if isinstance(a, SqArr):
            # a squeezed 1-d array is 0-d only when it has one element
            if nd == 1 and a.arr.ndim == 1:
                return a.arr
            if nd == 2 and a.arr.ndim == 2:
                c = a.arr.shape[1]
                if not is_z(c) and c != 1:
                    # (m, c): squeezed to (c,) when m == 1, restored to (1, c)
                    return a.arr
            raise Unsupported("atleast_%dd of a squeezed array" % nd)
        a = self.asarr(a)
        if isinstance(a, (FArr, MArr)):
            raise Unsupported("atleast")
        if a.ndim >= nd:
            return a
        return self.reshape(a, [1] * (nd - a.ndim) + list(a.shape))

    def astype(self, a, dt):
        k = dtype_kind(dt)
        if isinstance(a, MArr):
            raise Unsupported("astype of masked array")
        rd, k0 = a.reader(), a.kind
        if k == k0 or KINDORD[k] >= KINDORD[k0]:
            return self.new(a.shape, lambda idx: promote(rd(idx), k), k)
        if k == 'b':
            return self.new(a.shape, lambda idx: truth(rd(idx)), 'b')
        if k == 'i' and k0 == 'f':
            return self.new(a.shape, lambda idx: nan_free(trunc, rd(idx)), 'i')
        raise Unsupported("astype %s -> %s" % (k0, k))

    def mean(self, a, axis=None):
        eng = self.eng
        if axis is not None:
            raise Unsupported("mean(axis)")
        n = self.size(a)
        s = self.total(a)
        c = cmp('==', n, 0)
        if eng.decide(c):
            return NV(True, Fraction(0))
        return div(s, n)

    # ------------------------------------------------------------ misc objects
    def list_attr(self, eng, o, name):
        def append(e, args, kw):
            e.list_mut(o)
            o.heap.touch(o)
            o.items.append(args[0])

        def extend(e, args, kw):
            e.list_mut(o)
            o.heap.touch(o)
            o.items.extend(e.iter_concrete(args[0]))

        def index(e, args, kw):
            if not o.concrete:
                raise Unsupported("index of a symbolic list")
            for i, x in enumerate(o.items):
                if e.decide(e.truthv(e.equals(args[0], e.force(x)))):
                    return i
            raise Raise('ValueError')

        def copy(e, args, kw):
            return PList(e.heap, o.items, o.n, o.elem)

        def insert(e, args, kw):
            if is_z(args[0]) or not o.concrete:
                raise Unsupported("insert")
            e.list_mut(o)
            o.heap.touch(o)
            o.items.insert(args[0], args[1])

        def pop(e, args, kw):
            if not o.concrete:
                raise Unsupported("pop")
            e.list_mut(o)
            o.heap.touch(o)
            if not o.items:
                raise Raise('IndexError')
            return o.items.pop(*args)
        M = dict(append=append, extend=extend, index=index, copy=copy, insert=insert, pop=pop)
        if name in M:
            return Prim('list.' + name, M[name])
        raise Raise('AttributeError', name)

    def dict_attr(self, eng, o, name):
        def get(e, args, kw):
            try:
                return e.getitem(o, args[0])
            except Raise as r:
                if r.kind != 'KeyError':
                    raise
                return args[1] if len(args) > 1 else None

        def items(e, args, kw):
            if o.opt:
                raise Unsupported("items of a symbolic dict")
            return PList(e.heap, [(k, v) for k, v in o.d.items()])

        def values(e, args, kw):
            return IN.ValuesV(list(o.d.values()))

        def pop(e, args, kw):
            if o.frozen:
                e.frame_violation("dict passed by the caller is modified")
            try:
                v = e.getitem(o, args[0])
            except Raise as r:
                if r.kind != 'KeyError' or len(args) < 2:
                    raise
                return args[1]
            o.heap.touch(o)
            if args[0] in o.opt:
                del o.opt[args[0]]
            del o.d[args[0]]
            return v

        def update(e, args, kw):
            if o.frozen:
                e.frame_violation("dict passed by the caller is modified")
            o.heap.touch(o)
            for a in args:
                o.d.update(e.force(a).d)
            o.d.update(kw)

        def setdefault(e, args, kw):
            if e.decide(e.contains(args[0], o)):
                return e.getitem(o, args[0])
            e.setitem(o, args[0], args[1])
            return args[1]

        def copy(e, args, kw):
            d = PDict(e.heap, o.d)
            d.opt = dict(o.opt)
            return d
        M = dict(get=get, items=items, values=values, keys=lambda e, args, kw: KeysV(o), pop=pop, update=update,
                 setdefault=setdefault, copy=copy)
        if name in M:
            return Prim('dict.' + name, M[name])
        raise Raise('AttributeError', name)

    def str_attr(self, eng, o, name):
        from . import textio

        def opaque(e, args, kw):
            if isinstance(o, str) and not kw and name != 'join' and all(isinstance(a, str) for a in args):
                return getattr(o, name)(*args)
            r = FmtStr([o] + list(args))
            r.opaque = True
            return r
        f = textio.text_attr(eng, o, name)
        if f is not None:
            def method(e, args, kw):
                try:
                    return f.fn(e, args, kw)
                except Unsupported:
                    if e.disk is not None or name not in ('format', 'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'join', 'replace', 'ljust', 'rjust'):
                        raise
                    return opaque(e, args, kw)
            return Prim('str.' + name, method)
        if name in ('format', 'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'join', 'replace', 'ljust', 'rjust'):
            return Prim('str.' + name, opaque)
        if name in ('startswith', 'endswith') and isinstance(o, str):
            return Prim(name, lambda e, args, kw: getattr(o, name)(*args))
        if name in ('split',) and isinstance(o, str):
            return Prim(name, lambda e, args, kw: PList(e.heap, o.split(*args)))
        raise Raise('AttributeError', name)

    def scalar_attr(self, eng, o, name, default=Unsupported):
        if name == 'shape' and (is_z(o) or isinstance(o, (int, Fraction))):
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if default is not Unsupported:
            return default
        raise Raise('AttributeError', name)

    def apply_user(self, eng, f, args):
        arrs = [a for a in args if isinstance(a, (Arr, MArr, FArr))]
        if not arrs:
            return f.fn(*args)
        return self.elementwise(f.fn, args, 'f')

    def call_type(self, eng, t, args, kw):
        n = t.name
        if n in EXC:
            return Obj(eng.heap, t)
        args = [eng.force(a) for a in args]
        if n == 'list':
            if not args:
                return PList(eng.heap)
            v = args[0]
            if isinstance(v, PList) and not v.lazy:
                return PList(eng.heap, v.items, v.n, v.elem)
            if isinstance(v, Arr) and v.ndim == 1 and is_z(v.shape[0]):
                rd = v.reader()
                return PList(eng.heap, (), v.shape[0], lambda i: rd((i,)))
            d = eng.iter_domain(v)
            if d[0] != 'concrete' and isinstance(v, PList):
                raise Unsupported("list of an enumeration")
            if d[0] == 'concrete':
                return PList(eng.heap, d[1])
            if d[3] is None:
                return PList(eng.heap, (), d[1], d[2])
            raise Unsupported("list of filtered")
        if n == 'tuple':
            return tuple(eng.iter_concrete(args[0])) if args else ()
        if n == 'dict':
            d = PDict(eng.heap, args[0].d if args else {})
            if args:
                d.opt = dict(args[0].opt)
            d.d.update(kw)
            return d
        if n == 'bool':
            return eng.truthv(args[0]) if args else False
        if n == 'str':
            v = args[0]
            if isinstance(v, (str, SymStr, FmtStr)):
                return v
            if isinstance(v, (bool, int)):
                return str(v)
            return FmtStr([v])
        if n in ('float', 'float64'):
            v = args[0]
            if is_scalar(v):
                return promote(v, 'f')
            if isinstance(v, NV):
                return v
            if isinstance(v, str):
                if v.strip().lower() in ('nan', 'inf', '-inf'):
                    return float(v)
                from . import textio
                return textio.read_number(eng, v, 'f')
            if isinstance(v, FmtStr):
                from . import textio
                return textio.read_number(eng, v, 'f')
            if isinstance(v, Arr) and all(not is_z(s) and s == 1 for s in v.shape):
                return promote(v.get((0,) * v.ndim), 'f')
            if v is None or isinstance(v, (PList, PDict, tuple)):
                raise Raise('TypeError')
            raise Unsupported("float(%s)" % type(v).__name__)
        if n == 'int':
            v = args[0]
            if isinstance(v, IN.External) and hasattr(v, 'to_int'):
                return v.to_int()
            if isinstance(v, (bool, int)):
                return int(v)
            if is_z(v) and v.sort() == I:
                return v
            if is_z(v) and v.sort() == B:
                return ite(v, 1, 0)
            if isinstance(v, Fraction):
                return int(v)
            if isinstance(v, FmtStr):
                from . import textio
                return textio.read_number(eng, v, 'i')
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    raise Raise('ValueError')
            if isinstance(v, NV):
                if eng.decide(v.flag):
                    raise Raise('ValueError', 'int of nan')
                v = eng.force(v.val)
            if is_z(v) and v.sort() == R:
                return trunc(v)
            raise Unsupported("int of %s" % type(v).__name__)
        raise Unsupported("call of type " + n)


def Unsupported_(m):
    raise Unsupported(m)


def floor_(x):
    if not is_z(x):
        return math.floor(x)
    return x if x.sort() == I else T.TOINT(simp(toz(x, R)))


def ceil_(x):
    return neg(floor_(neg(x)))


def trunc(x):
    """towards zero (int of a real)"""
    x = num_of(x)
    return x if not is_z(x) and isinstance(x, int) or is_z(x) and x.sort() == I else ite(cmp('>=', x, 0), floor_(x), ceil_(x))


def rounded(x, d):
    """x to d decimals"""
    from .textio import RNDF
    x = num_of(x)
    if isinstance(x, int) or is_z(x) and x.sort() == I:
        return x
    if isinstance(x, Fraction):
        return Fraction(round(x, d))
    return unz(RNDF(z3.IntVal(d), toz(x, R)))


def _shape(m):
    return m.shape


def inv_lambda(n, f):
    nn = simp(toz(n, I))
    a, b = bvar(), bvar()
    return nn, close([a, b], som(toz(f(a, b), R)))


def flat_dom(dom):
    """flat size and index decoder of a domain"""
    real = [q for q, s in enumerate(dom) if is_z(s) or s != 1]

    def at(p):
        out = [0] * len(dom)
        for q in reversed(real[1:]):
            out[q] = fmod(p, dom[q])
            p = fdiv(p, dom[q])
        if real:
            out[real[0]] = p
        return tuple(out)
    return prodshape(dom), at


def _nest(dom):
    return [q for q, s in enumerate(dom) if is_z(s) or s != 1]


def mk_any_nd(dom, f):
    real = _nest(dom)

    def rec(q, idx):
        if q == len(real):
            out = [0] * len(dom)
            for r, i in zip(real, idx):
                out[r] = i
            return truth(f(tuple(out)))
        return mk_any(dom[real[q]], lambda k: rec(q + 1, idx + [k]))
    return rec(0, [])


def mk_sum_nd(dom, f):
    real = _nest(dom)

    def rec(q, idx):
        if q == len(real):
            out = [0] * len(dom)
            for r, i in zip(real, idx):
                out[r] = i
            return f(tuple(out))
        return mk_sum(dom[real[q]], lambda k: rec(q + 1, idx + [k]))
    return rec(0, [])


def mk_cnt_nd(dom, f):
    real = _nest(dom)
    if len(real) <= 1:
        at = (lambda k: (k,) if len(dom) == 1 else tuple(k if q in real else 0 for q in range(len(dom))))
        if not real:
            return ite(f((0,) * len(dom)), 1, 0)
        return mk_cnt(dom[real[0]], lambda k: f(at(k)))
    n, at = flat_dom(dom)
    return T.CNT2(toz(dom[real[0]], I), toz(dom[real[1]], I), T.lamb2(lambda i, j: toz(f((i, j)), B))) if len(dom) == 2 else Unsupported_("count over 3-d")


DT = {'float64': 'f', 'float': 'f', 'f8': 'f', 'd': 'f', 'int': 'i', 'int64': 'i', 'int32': 'i', 'long': 'i', 'int8': 'i', 'bool': 'b', 'float32': None}


def dtype_kind(dt):
    n = dt if isinstance(dt, str) else getattr(dt, 'name', None)
    if n is not None and n.startswith('numpy.'):
        n = n[6:]
    k = DT.get(n)
    if k is None:
        raise Unsupported("dtype %s" % n)
    return k


EXC = ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'NotImplementedError', 'RuntimeError', 'IOError', 'OSError',
       'ImportError', 'AttributeError', 'ZeroDivisionError', 'UserWarning', 'RuntimeWarning', 'DeprecationWarning', 'FutureWarning', 'StopIteration',
       'ModuleNotFoundError', 'LookupError', 'ArithmeticError', 'Warning', 'AssertionError')


def type_of(v):
    if isinstance(v, bool) or is_z(v) and v.sort() == B:
        return 'bool'
    if isinstance(v, int) or is_z(v) and v.sort() == I:
        return 'int'
    if isinstance(v, (Fraction, float, NV)) or is_z(v):
        return 'float'
    if isinstance(v, (str, SymStr, FmtStr)):
        return 'str'
    if isinstance(v, PList):
        return 'list'
    if isinstance(v, PDict):
        return 'dict'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, (Arr, FArr, SqArr)):
        return 'ndarray'
    if isinstance(v, MArr):
        return 'MaskedArray'
    if v is None:
        return 'NoneType'
    if isinstance(v, (Func, UserFn)):
        return 'function'
    return None


SUPER = {'bool': ('int',), 'MaskedArray': ('ndarray',)}


def isinstance_(eng, v, t):
    v = eng.force(v)
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        x = eng.force(x)
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            if isinstance(x, Cls) and v.cls.isa(x):
                return True
            continue
        if isinstance(v, IN.External):
            r = v.isinstance(eng, x) if hasattr(v, 'isinstance') else False
            if r:
                return True
            continue
        n = getattr(x, 'name', None)
        if n is None:
            raise Unsupported("isinstance")
        n = n.split('.')[-1]
        k = type_of(v)
        if k is None:
            if isinstance(v, (Obj, Prim, Cls)):
                continue
            raise Unsupported("isinstance of %s" % type(v).__name__)
        if n == k or n in SUPER.get(k, ()):
            return True
        if n in ('Number', 'Real') and k in ('int', 'float', 'bool'):
            return True
        if n in ('float64',) and k == 'float':
            raise Unsupported("isinstance float64")
    return False


def digits(e, args, kw):
    d = args[1] if len(args) > 1 else kw.get('ndigits', kw.get('decimals'))
    d = e.force(d)
    if not (d is None or isinstance(d, int) and 0 <= d <= 30):
        raise Unsupported("rounding to %s digits" % (d,))
    return d



def make_builtins():
    b = {}

    def prim(name):
        def deco(f):
            b[name] = Prim(name, f)
            return f
        return deco
    for n in ('int', 'float', 'bool', 'str', 'list', 'dict', 'tuple', 'object') + EXC:
        b[n] = TypeV(n)
    for n in ('staticmethod', 'classmethod', 'property', 'set'):
        b[n] = TypeV(n)

    @prim('len')
    def len_(e, args, kw):
        v = e.force(args[0])
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, PList):
            return v.length()
        if isinstance(v, PDict):
            if v.opt:
                raise Unsupported("len of symbolic dict")
            return len(v.d)
        if isinstance(v, (Arr, MArr)):
            if v.ndim == 0:
                raise Raise('TypeError')
            return v.shape[0]
        if isinstance(v, FArr):
            return e.np.size(v)
        if isinstance(v, IN.External) and hasattr(v, 'len'):
            return v.len(e)
        if v is None or is_scalar(v):
            raise Raise('TypeError')
        raise Unsupported("len of %s" % type(v).__name__)

    @prim('round')
    def round_(e, args, kw):
        d = digits(e, args, kw)
        v = e.force(args[0])
        if not is_scalar(v):
            raise Unsupported("round of %s" % type(v).__name__)
        if isinstance(v, NV):
            if d is None and e.decide(v.flag):
                raise Raise('ValueError')
        r = nvlift(lambda x: rounded(x, d or 0), v)
        if d is not None:
            return r
        r = r.val if isinstance(r, NV) else r
        return floor_(r)

    @prim('range')
    def range_(e, args, kw):
        a = [e.force(x) for x in args]
        for x in a:
            if not is_scalar(x) or kind_of(x) != 'i':
                raise Raise('TypeError')
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        if len(a) == 2:
            return RangeV(a[0], a[1], 1)
        return RangeV(*a)

    @prim('format')
    def format_(e, args, kw):
        from . import textio
        return textio.make(textio.fmt_value(textio.known(e, e.force(args[0])), args[1] if len(args) > 1 else ''))

    @prim('abs')
    def abs_(e, args, kw):
        return e.np.elementwise(lambda x: nvlift(absv, x), [args[0]])

    @prim('isinstance')
    def isi(e, args, kw):
        return isinstance_(e, args[0], args[1])

    @prim('hasattr')
    def hasattr_(e, args, kw):
        o = e.force(args[0])
        try:
            e.getattr(o, args[1])
            return True
        except Raise as r:
            if r.kind == 'AttributeError':
                return False
            raise

    @prim('getattr')
    def getattr_(e, args, kw):
        o = e.force(args[0])
        if not isinstance(args[1], str):
            raise Unsupported("getattr with symbolic name")
        try:
            return e.getattr(o, args[1])
        except Raise as r:
            if r.kind == 'AttributeError' and len(args) > 2:
                return args[2]
            raise

    @prim('setattr')
    def setattr_(e, args, kw):
        e.setattr(args[0], args[1], args[2])

    @prim('callable')
    def callable_(e, args, kw):
        return isinstance(e.force(args[0]), (Func, UserFn, Bound, Prim, Cls, TypeV))

    @prim('print')
    def print_(e, args, kw):
        return None

    @prim('type')
    def type_(e, args, kw):
        v = e.force(args[0])
        if isinstance(v, Obj):
            return v.cls
        k = type_of(v)
        if k is None:
            raise Unsupported("type()")
        return TypeV(k)

    def ext(name, better, np_head):
        @prim(name)
        def f(e, args, kw):
            if kw:
                raise Unsupported(name + " with key")
            if len(args) == 1:
                v = e.force(args[0])
                if isinstance(v, (Arr, FArr)):
                    return e.np.extreme(np_head, v)
                args = e.iter_concrete(v)
            if not args:
                raise Raise('ValueError')
            r = e.force(args[0])
            for x in args[1:]:
                r = better(r, e.force(x))
            return r
    ext('max', maxv, T.MAXH)
    ext('min', minv, T.MINH)

    @prim('sum')
    def sum_(e, args, kw):
        v = e.force(args[0])
        if isinstance(v, (Arr, FArr)):
            return e.np.sum(v, 0) if isinstance(v, Arr) and v.ndim > 1 else e.np.total(v)
        r = args[1] if len(args) > 1 else 0
        for x in e.iter_concrete(v):
            r = e.binop('+', r, x)
        return r

    @prim('zip')
    def zip_(e, args, kw):
        ls = [e.iter_concrete(a) for a in args]
        r = PList(e.heap, [tuple(q) for q in zip(*ls)])
        r.watch = [w for l in ls for w in getattr(l, 'watch', ())]
        return r

    @prim('map')
    def map_(e, args, kw):
        ls = [e.iter_concrete(a) for a in args[1:]]
        return PList(e.heap, [e.call(args[0], list(q), {}) for q in zip(*ls)])

    @prim('enumerate')
    def enumerate_(e, args, kw):
        st = args[1] if len(args) > 1 else kw.get('start', 0)
        d = e.iter_domain(e.force(args[0]))
        if d[0] == 'concrete':
            r = PList(e.heap, [(add(st, i), v) for i, v in enumerate(d[1])])
            r.watch = list(getattr(d[1], 'watch', ()))
            return r
        if d[3] is not None:
            raise Unsupported("enumerate of filtered")
        r = PList(e.heap, (), d[1], lambda j: (add(st, j), d[2](j)))
        r.lazy = True
        return r

    @prim('any')
    def any_(e, args, kw):
        v = e.force(args[0])
        if isinstance(v, (Arr, FArr)):
            return e.np.any(v)
        if isinstance(v, PList) and not v.concrete and not v.items:
            return mk_any(v.n, lambda k: e.truthv(v.elem(k)))
        return b_or(*[e.truthv(x) for x in e.iter_concrete(v)])

    @prim('all')
    def all_(e, args, kw):
        v = e.force(args[0])
        if isinstance(v, (Arr, FArr)):
            return e.np.all(v)
        if isinstance(v, PList) and not v.concrete and not v.items:
            return b_not(mk_any(v.n, lambda k: b_not(e.truthv(v.elem(k)))))
        return b_and(*[e.truthv(x) for x in e.iter_concrete(v)])

    @prim('reversed')
    def reversed_(e, args, kw):
        return PList(e.heap, e.iter_concrete(args[0])[::-1])

    @prim('super')
    def super_(e, args, kw):
        raise Unsupported("super()")
    b['Ellipsis'] = Ellipsis
    return b


# ---------------------------------------------------------------- the external library
def make_externals():
    X = {}

    def reg(*names):
        def deco(f):
            for n in names:
                X[n] = Prim(n, f)
            return f
        return deco

    X['numpy.newaxis'] = None
    X['gstools.__version__'] = '1.7.0'
    X['gstools.CovModel'] = Cls('CovModel', {}, [], Mod('gstools'))
    X['numpy.pi'] = T.PI
    X['numpy.inf'] = float('inf')
    X['numpy.nan'] = NV(True, Fraction(0))
    for n in ('float64', 'ndarray', 'bool_', 'int64', 'float32', 'floating', 'integer'):
        X['numpy.' + n] = TypeV(n if n != 'bool_' else 'bool')
    X['math.pi'] = T.PI

    def elem(*names, f, kind='f'):
        def g(e, args, kw):
            if kw:
                raise Unsupported(names[0] + " with keyword arguments")
            return e.np.elementwise(lambda *x: nvlift(f, *x), args, kind)
        for n in names:
            X[n] = Prim(n, g)
    elem('numpy.cos', 'math.cos', 'libc.math.cos', f=t_cos)
    elem('numpy.sin', 'math.sin', 'libc.math.sin', f=t_sin)
    elem('numpy.exp', 'math.exp', 'libc.math.exp', f=t_exp)
    elem('numpy.log', 'math.log', f=t_log)
    elem('numpy.sqrt', 'math.sqrt', 'libc.math.sqrt', f=t_sqrt)
    elem('numpy.arctan2', 'math.atan2', f=t_atan2)
    elem('numpy.arccos', 'math.acos', f=t_acos)
    elem('numpy.hypot', 'math.hypot', f=lambda x, y: t_sqrt(add(mul(x, x), mul(y, y))))
    elem('numpy.radians', 'numpy.deg2rad', 'math.radians', f=lambda x: div(mul(x, T.PI), Fraction(180)))
    elem('numpy.degrees', 'numpy.rad2deg', 'math.degrees', f=lambda x: div(mul(x, Fraction(180)), T.PI))
    elem('numpy.floor', f=lambda x: toz(floor_(x), R) if is_z(x) else Fraction(floor_(x)))
    elem('numpy.ceil', f=lambda x: toz(ceil_(x), R) if is_z(x) else Fraction(ceil_(x)))
    elem('numpy.trunc', f=lambda x: toz(trunc(x), R) if is_z(x) else Fraction(trunc(x)))
    elem('math.floor', f=floor_, kind='i')
    elem('math.ceil', f=ceil_, kind='i')
    elem('math.trunc', f=trunc, kind='i')

    def npround(e, args, kw):
        d = digits(e, args, kw) or 0
        return e.np.elementwise(lambda x: nvlift(lambda y: rounded(y, d), x), [args[0]])
    X['numpy.round'] = X['numpy.around'] = Prim('numpy.round', npround)
    X['numpy.rint'] = Prim('numpy.rint', lambda e, args, kw: npround(e, args[:1], kw))
    elem('numpy.square', f=lambda x: mul(x, x), kind=None)
    elem('numpy.absolute', 'numpy.abs', 'numpy.fabs', f=absv, kind=None)
    elem('numpy.maximum', f=maxv, kind=None)
    elem('numpy.minimum', f=minv, kind=None)
    elem('numpy.negative', f=neg, kind=None)
    elem('numpy.power', f=power, kind=None)
    for nm, op in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/')):
        X['numpy.' + nm] = Prim(nm, lambda e, args, kw, op=op: e.np.binop(e, op, args[0], args[1]))

    def isinf_term(t):
        """may this term be infinite?  only logarithms of zero are"""
        if isinstance(t, NV):
            return b_and(b_not(t.flag), isinf_term(t.val))
        if isinstance(t, float):
            return t in (float('inf'), float('-inf'))
        if not is_z(t) or t.sort() != R:
            return False
        if z3.is_app(t):
            if t.decl().eq(LOG):
                return t.arg(0) == 0
            k = t.decl().kind()
            if k == z3.Z3_OP_ITE:
                return ite(t.arg(0), isinf_term(t.arg(1)), isinf_term(t.arg(2)))
            if k == z3.Z3_OP_UNINTERPRETED and not t.decl().eq(SQRT):
                return False
            return b_or(*[isinf_term(c) for c in t.children()])
        return False
    X['numpy.isinf'] = Prim('numpy.isinf', lambda e, args, kw: e.np.elementwise(isinf_term, [args[0]], 'b'))
    X['numpy.isneginf'] = X['numpy.isinf']
    X['numpy.isnan'] = Prim('numpy.isnan', lambda e, args, kw: e.np.elementwise(lambda x: x.flag if isinstance(x, NV) else (isinstance(x, float) and x != x), [args[0]], 'b'))
    X['numpy.isfinite'] = Prim('numpy.isfinite', lambda e, args, kw: e.np.elementwise(
        lambda x: b_not(x.flag) if isinstance(x, NV) else b_not(isinf_term(x)), [args[0]], 'b'))
    X['numpy.logical_and'] = Prim('logical_and', lambda e, args, kw: e.np.elementwise(lambda x, y: b_and(truth(x), truth(y)), args[:2], 'b'))
    X['numpy.logical_or'] = Prim('logical_or', lambda e, args, kw: e.np.elementwise(lambda x, y: b_or(truth(x), truth(y)), args[:2], 'b'))
    X['numpy.logical_not'] = Prim('logical_not', lambda e, args, kw: e.np.elementwise(lambda x: b_not(truth(x)), args[:1], 'b'))

    def kw1(kw, ok):
        for k in kw:
            if k not in ok:
                raise Unsupported("keyword " + k)

    @reg('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray')
    def array(e, args, kw, always=False):
        kw1(kw, ('copy', 'dtype', 'order', 'ndmin'))
        v = e.force(args[0])
        a = e.np.asarr(v)
        if isinstance(a, (FArr, SqArr)):
            return a
        k = None
        dt = args[1] if len(args) > 1 else kw.get('dtype')
        if dt is not None:
            k = dtype_kind(dt)
        if isinstance(a, MArr):
            if e.disk is None:
                raise Unsupported("array of masked array")
            a = a.data
        return e.np.astype(a, {'f': 'float64', 'i': 'int64', 'b': 'bool'}[k]) if k and k != a.kind else e.np.copy(a)

    def asarray(e, args, kw):
        kw1(kw, ('dtype', 'order'))
        v = e.force(args[0])
        a = e.np.asarr(v)
        if isinstance(a, (FArr, SqArr)):
            return a
        dt = args[1] if len(args) > 1 else kw.get('dtype')
        k = dtype_kind(dt) if dt is not None else None
        if isinstance(a, MArr):
            raise Unsupported("asarray of masked array")
        return a if k is None or k == a.kind else e.np.astype(a, {'f': 'float64', 'i': 'int64', 'b': 'bool'}[k])
    for n in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray'):
        X['numpy.' + n] = Prim(n, asarray)

    def filled(val):
        def f(e, args, kw):
            kw1(kw, ('dtype', 'shape', 'order', 'fill_value'))
            sh = e.force(args[0] if args else kw['shape'])
            v = val
            rest = list(args[1:])
            if val is None:
                v = e.force(rest.pop(0) if rest else kw['fill_value'])
            sh = tuple(e.force(q) for q in (e.np.shape_args([sh])))
            for q in sh:
                if not is_scalar(q) or kind_of(q) != 'i':
                    raise Raise('TypeError')
                if not e.decide(cmp('>=', q, 0)):
                    raise Raise('ValueError')
            dt = rest[0] if rest else kw.get('dtype')
            k = dtype_kind(dt) if dt is not None else ('f' if val is not None else kind_of(v))
            c = promote(v, k)
            return e.np.new(sh, lambda idx: c, k)
        return f
    X['numpy.zeros'] = Prim('zeros', filled(0))
    X['numpy.ones'] = Prim('ones', filled(1))
    X['numpy.full'] = Prim('full', filled(None))

    @reg('numpy.empty')
    def empty(e, args, kw):
        sh = e.force(args[0] if args else kw['shape'])
        sh = tuple(e.force(q) for q in (e.np.shape_args([sh])))
        dt = args[1] if len(args) > 1 else kw.get('dtype')
        k = dtype_kind(dt) if dt is not None else 'f'
        f = e.fresh.fn('uninit', *([I] * len(sh) + [{'f': R, 'i': I, 'b': B}[k]]))
        return e.np.new(sh, lambda idx: f(*[toz(i, I) for i in idx]), k)

    @reg('numpy.empty_like')
    def empty_like(e, args, kw):
        a = e.np.asarr(args[0])
        return empty(e, [tuple(a.shape), TypeV({'f': 'float64', 'i': 'int64', 'b': 'bool'}[a.kind])], {})

    def like(val):
        def f(e, args, kw):
            a = e.np.asarr(args[0])
            dt = kw.get('dtype')
            k = dtype_kind(dt) if dt is not None else a.kind
            v = val if val is not None else e.force(args[1])
            c = promote(v, k)
            return e.np.new(a.shape, lambda idx: c, k)
        return f
    X['numpy.zeros_like'] = Prim('zeros_like', like(0))
    X['numpy.ones_like'] = Prim('ones_like', like(1))
    X['numpy.full_like'] = Prim('full_like', like(None))

    @reg('numpy.arange')
    def arange(e, args, kw):
        kw1(kw, ('dtype',))
        a = [e.force(x) for x in args]
        if len(a) == 3 and not kw and any(kind_of(x) == 'f' for x in a):
            # start + n * step as the end: n elements, or one more because of rounding
            lo, hi, st = [toz(x, R) for x in a]
            if not e.entails(st > 0):
                raise Unsupported("arange of reals with a step that may not be positive")
            d = som(hi - lo)
            for t in int_factors(d):
                z = som(d - toz(t, R) * st)
                if z3.is_rational_value(z) and z.as_fraction() == 0:
                    break
            else:
                raise Unsupported("arange of reals")
            if not e.entails(toz(cmp('>=', t, 0))):
                raise Unsupported("arange of reals")
            extra = e.fresh('extra', I)
            e.pc.append(z3.And(extra >= 0, extra <= 1))
            return e.np.new((add(unz(t), extra),), lambda idx: add(lo, mul(toz(idx[0], R), st)), 'f')
        if any(kind_of(x) != 'i' for x in a) or len(a) == 3:
            raise Unsupported("arange of reals")
        lo, hi = (0, a[0]) if len(a) == 1 else a
        n = sub(hi, lo)
        if not e.decide(cmp('>=', n, 0)):
            n = 0
        k = dtype_kind(kw['dtype']) if 'dtype' in kw else 'i'
        return e.np.new((n,), lambda idx: promote(add(lo, idx[0]), k), k)

    @reg('numpy.linspace')
    def linspace(e, args, kw):
        kw1(kw, ('num',))
        a, b = e.force(args[0]), e.force(args[1])
        n = e.force(args[2] if len(args) > 2 else kw['num'])
        if not e.entails(cmp('>=', n, 2)):
            raise Unsupported("linspace with fewer than two points")
        return e.np.new((n,), lambda idx: add(a, mul(toz(idx[0], R), div(sub(b, a), sub(n, 1)))), 'f')

    @reg('numpy.squeeze')
    def squeeze(e, args, kw):
        if kw or len(args) > 1:
            raise Unsupported("squeeze(axis)")
        return e.np.squeeze(e.force(args[0]))
    X['numpy.atleast_1d'] = Prim('atleast_1d', lambda e, args, kw: e.np.atleast(e.force(args[0]), 1))
    X['numpy.atleast_2d'] = Prim('atleast_2d', lambda e, args, kw: e.np.atleast(e.force(args[0]), 2))
    X['numpy.ravel'] = Prim('ravel', lambda e, args, kw: e.np.ravel(e.np.asarr(args[0])))
    X['numpy.copy'] = Prim('copy', lambda e, args, kw: e.np.copy(e.np.asarr(args[0])))
    X['numpy.transpose'] = Prim('transpose', lambda e, args, kw: e.np.transpose(e.np.asarr(args[0])))
    X['numpy.reshape'] = Prim('reshape', lambda e, args, kw: e.np.reshape(e.np.asarr(args[0]), e.np.shape_args(args[1:])))
    X['numpy.swapaxes'] = Prim('swapaxes', lambda e, args, kw: e.np.swapaxes(e.np.asarr(args[0]), *args[1:]))
    X['numpy.shape'] = Prim('shape', lambda e, args, kw: tuple(e.np.asarr(args[0]).shape))
    X['numpy.size'] = Prim('size', lambda e, args, kw: e.np.size(e.np.asarr(args[0])))
    X['numpy.ndim'] = Prim('ndim', lambda e, args, kw: e.np.asarr(args[0]).ndim)

    def seq(e, v):
        v = e.force(v)
        if isinstance(v, tuple) or isinstance(v, PList) and v.concrete:
            return [e.force(x) for x in (v if isinstance(v, tuple) else v.items)]
        raise Unsupported("sequence of arrays")

    @reg('numpy.concatenate')
    def concatenate(e, args, kw):
        kw1(kw, ('axis',))
        ax = args[1] if len(args) > 1 else kw.get('axis', 0)
        return e.np.concatenate(seq(e, args[0]), ax)

    @reg('numpy.append')
    def append(e, args, kw):
        kw1(kw, ())
        a, b = e.np.asarr(args[0]), e.np.asarr(args[1])
        return e.np.concatenate([e.np.atleast(a, 1), e.np.atleast(b, 1)], 0)

    @reg('numpy.hstack')
    def hstack(e, args, kw):
        xs = [e.np.atleast(e.np.asarr(x), 1) for x in seq(e, args[0])]
        return e.np.concatenate(xs, 0 if xs[0].ndim == 1 else 1)

    @reg('numpy.vstack')
    def vstack(e, args, kw):
        v = e.force(args[0])
        if isinstance(v, PList) and not v.concrete:
            if not e.decide(cmp('>', v.n, 0)):
                raise Raise('ValueError', 'need at least one array to concatenate')
            a = e.np.asarr(v)
            if a.ndim != 2:
                raise Unsupported("vstack of a symbolic list")
            return a
        return e.np.concatenate([e.np.atleast(x, 2) for x in seq(e, args[0])], 0)

    @reg('numpy.column_stack')
    def column_stack(e, args, kw):
        v = e.force(args[0])
        if isinstance(v, PList) and not v.concrete:
            if not e.decide(cmp('>', v.n, 0)):
                raise Raise('ValueError', 'need at least one array to concatenate')
            a = e.np.asarr(v)
            if a.ndim != 2:
                raise Unsupported("column_stack of a symbolic list")
            return e.np.transpose(a)
        xs = [e.np.asarr(x) for x in seq(e, args[0])]
        xs = [e.np.view(x, [SliceV(None, None, None), None]) if x.ndim == 1 else x for x in xs]
        return e.np.concatenate(xs, 1)

    @reg('numpy.stack')
    def stack(e, args, kw):
        kw1(kw, ('axis',))
        ax = args[1] if len(args) > 1 else kw.get('axis', 0)
        xs = [e.np.asarr(x) for x in seq(e, args[0])]
        if ax < 0:
            ax += xs[0].ndim + 1
        xs = [e.np.view(x, [SliceV(None, None, None)] * ax + [None] + [SliceV(None, None, None)] * (x.ndim - ax)) for x in xs]
        return e.np.concatenate(xs, ax)

    @reg('numpy.repeat')
    def repeat(e, args, kw):
        kw1(kw, ('axis',))
        a, k = e.np.asarr(args[0]), e.force(args[1])
        ax = args[2] if len(args) > 2 else kw.get('axis')
        if ax is None or is_z(a.shape[ax]) or a.shape[ax] != 1:
            raise Unsupported("repeat")
        rd = a.reader()
        sh = list(a.shape)
        sh[ax] = k
        return e.np.new(sh, lambda idx: rd(tuple(0 if q == ax else i for q, i in enumerate(idx))), a.kind)

    @reg('numpy.tile')
    def tile(e, args, kw):
        a = e.np.asarr(args[0])
        reps = e.force(args[1])
        reps = tuple(reps) if isinstance(reps, tuple) else (reps,)
        nd = max(a.ndim, len(reps))
        sh = [1] * (nd - a.ndim) + list(a.shape)
        reps = [1] * (nd - len(reps)) + list(reps)
        rd, k0 = a.reader(), nd - a.ndim
        out = []
        for s, r in zip(sh, reps):
            if not is_z(r) and r == 1:
                out.append(s)
            elif not is_z(s) and s == 1:
                out.append(r)
            else:
                raise Unsupported("tile of a longer axis")
        return e.np.new(out, lambda idx: rd(tuple(0 if (not is_z(sh[q]) and sh[q] == 1) else i for q, i in enumerate(idx) if q >= k0)), a.kind)

    @reg('numpy.broadcast_to')
    def broadcast_to(e, args, kw):
        a = e.np.asarr(args[0])
        sh = e.np.shape_args([e.force(args[1])])
        s2 = broadcast_shapes(e, [a.shape, tuple(sh)])
        if len(s2) != len(sh) or not all(_same(x, y) or e.entails(cmp('==', x, y)) for x, y in zip(s2, sh)):
            raise Raise('ValueError', 'broadcast_to')
        rd, es = a.reader(), eff_shape(e, a.shape, s2)
        return e.np.new(s2, lambda idx: bget(rd, es, idx), a.kind)

    @reg('numpy.meshgrid')
    def meshgrid(e, args, kw):
        kw1(kw, ('sparse', 'indexing', 'copy'))
        xs = [e.np.flatten(e.np.asarr(a)) for a in args]
        n = len(xs)
        ij = kw.get('indexing', 'xy') == 'ij'
        axis = list(range(n))
        if not ij and n >= 2:
            axis[0], axis[1] = 1, 0
        shape = [None] * n
        for q, x in enumerate(xs):
            shape[axis[q]] = x.shape[0]
        out = []
        for q, x in enumerate(xs):
            rd = x.reader()
            sh = shape if not kw.get('sparse', False) else [s if d == axis[q] else 1 for d, s in enumerate(shape)]
            out.append(e.np.new(sh, lambda idx, rd=rd, q=q: rd((idx[axis[q]],)), x.kind))
        return PList(e.heap, out)

    @reg('numpy.indices')
    def indices(e, args, kw):
        sh = e.np.shape_args([e.force(args[0])])
        n = len(sh)

        def fn(idx):
            c = idx[0]
            if not is_z(c):
                return idx[1 + c]
            r = idx[n]
            for q in reversed(range(n - 1)):
                r = ite(c == q, idx[1 + q], r)
            return r
        return e.np.new([n] + sh, fn, 'i')

    def where_(e, a):
        a = e.force(a)
        if isinstance(a, FArr):
            raise Unsupported("where of a filtered array")
        a = e.np.asarr(a)
        rd = a.reader()
        tag = object()
        return tuple(FArr(a.shape, lambda idx: truth(rd(idx)), lambda idx, q=q: idx[q], 'i', tag) for q in range(a.ndim))

    @reg('numpy.where', 'numpy.nonzero')
    def where(e, args, kw):
        kw1(kw, ())
        if len(args) == 3:
            return e.np.elementwise(lambda c, x, y: e.merge_elem(truth(c), *_same_kind(x, y)), args)
        return where_(e, args[0])

    def _same_kind(x, y):
        k = max(kind_of(x), kind_of(y), key=lambda q: KINDORD[q])
        return promote(x, k), promote(y, k)

    @reg('numpy.flatnonzero')
    def flatnonzero(e, args, kw):
        return where_(e, e.np.flatten(e.np.asarr(args[0])))[0]

    @reg('numpy.fill_diagonal')
    def fill_diagonal(e, args, kw):
        a, v = e.force(args[0]), e.force(args[1])
        e.np.check_owner(a)
        if not a.is_whole() or a.ndim != 2 or not is_scalar(v):
            raise Unsupported("fill_diagonal")
        old = a.cell.fn
        val = promote(v, a.kind)
        e.heap.touch(a.cell)
        a.cell.fn = lambda idx: e.merge_elem(cmp('==', idx[0], idx[1]), val, old(idx))

    @reg('numpy.diag_indices')
    def diag_indices(e, args, kw):
        raise Unsupported("diag_indices")

    @reg('numpy.any')
    def any_(e, args, kw):
        return e.np.any(args[0], **kw)

    @reg('numpy.all')
    def all_(e, args, kw):
        return e.np.all(args[0], **kw)

    @reg('numpy.sum')
    def sum_(e, args, kw):
        kw1(kw, ('axis',))
        return e.np.sum(e.force(args[0]), args[1] if len(args) > 1 else kw.get('axis'))

    @reg('numpy.mean')
    def mean(e, args, kw):
        return e.np.mean(e.force(args[0]), **kw)

    @reg('numpy.count_nonzero')
    def count_nonzero(e, args, kw):
        dom, cond, val, kind = e.np._dom(e.force(args[0]))
        return mk_cnt_nd(dom, lambda idx: b_and(cond(idx), truth(val(idx))))
    for n in ('amax', 'max'):
        X['numpy.' + n] = Prim(n, lambda e, args, kw: e.np.extreme(T.MAXH, e.force(args[0]), *args[1:], **kw))
    for n in ('amin', 'min'):
        X['numpy.' + n] = Prim(n, lambda e, args, kw: e.np.extreme(T.MINH, e.force(args[0]), *args[1:], **kw))
    X['numpy.ptp'] = Prim('ptp', lambda e, args, kw: sub(e.np.extreme(T.MAXH, e.force(args[0])), e.np.extreme(T.MINH, e.force(args[0]))))

    @reg('numpy.dot', 'numpy.matmul')
    def dot(e, args, kw):
        kw1(kw, ())
        return e.np.dot(args[0], args[1])

    @reg('numpy.inner')
    def inner(e, args, kw):
        a, b = e.np.asarr(args[0]), e.np.asarr(args[1])
        if a.ndim == b.ndim == 1:
            return e.np.dot(a, b)
        raise Unsupported("inner")

    @reg('numpy.argmax', 'numpy.argmin')
    def argmax(e, args, kw, better='>'):
        kw1(kw, ('axis',))
        a = e.np.asarr(e.force(args[0]))
        ax = e.force(args[1] if len(args) > 1 else kw.get('axis'))
        if not isinstance(a, Arr) or (a.ndim, ax) not in ((1, 0), (1, -1), (2, 1), (2, -1), (2, 0)):
            raise Unsupported("argmax")
        if a.ndim == 2 and ax == 0:
            a = e.np.transpose(a)
        if not e.decide(cmp('>', a.shape[-1], 0)):
            raise Raise('ValueError', 'argmax of an empty sequence')
        rd = a.reader()
        if is_z(a.shape[-1]):
            head, n = T.ARGMAX if better == '>' else T.ARGMIN, a.shape[-1]
            if a.kind != 'f' or isinstance(rd(tuple(e.pv.sk() for _ in a.shape)), NV):
                raise Unsupported("argmax with nan")
            pos = lambda row: head(toz(n, I), T.lam(lambda j: toz(rd(row + (j,)), R)))
            return pos(()) if a.ndim == 1 else e.np.new((a.shape[0],), lambda idx: pos((idx[0],)), 'i')

        def at(row):
            v, k = rd(row + (0,)), 0
            for j in range(1, a.shape[-1]):
                w = rd(row + (j,))
                if isinstance(w, NV) or isinstance(v, NV):
                    raise Unsupported("argmax with nan")
                b = cmp(better, w, v)
                v, k = ite(b, w, v), ite(b, j, k)
            return k
        if a.ndim == 1:
            return at(())
        return e.np.new((a.shape[0],), lambda idx: at((idx[0],)), 'i')
    X['numpy.argmin'] = Prim('argmin', lambda e, args, kw: argmax(e, args, kw, '<'))

    @reg('numpy.einsum')
    def einsum(e, args, kw):
        s = args[0]
        ins, out = s.replace(' ', '').split('->')
        ins = ins.split(',')
        ops = [e.np.asarr(a) for a in args[1:]]
        dims = {}
        for lab, o in zip(ins, ops):
            for c, n in zip(lab, o.shape):
                if c in dims and not _same(dims[c], n) and not e.decide(cmp('==', dims[c], n)):
                    raise Raise('ValueError')
                dims.setdefault(c, n)
        contr = [c for c in dims if c not in out]
        rds = [o.reader() for o in ops]

        def fn(idx):
            env = dict(zip(out, idx))

            def rec(q):
                if q == len(contr):
                    r = Fraction(1)
                    for lab, rd in zip(ins, rds):
                        r = mul(r, rd(tuple(env[c] for c in lab)))
                    return r

                def f(k):
                    env[contr[q]] = k
                    return rec(q + 1)
                return mk_sum(dims[contr[q]], f)
            return rec(0)
        if not out:
            return fn(())
        return e.np.new([dims[c] for c in out], fn, 'f')

    @reg('numpy.piecewise')
    def piecewise(e, args, kw):
        x = e.force(args[0])
        conds, funcs = [e.force(c) for c in seq(e, args[1])], [e.force(f) for f in seq(e, args[2])]
        xk = x.kind if isinstance(x, (Arr, FArr)) else kind_of(x)
        if xk != 'f':
            raise Unsupported("piecewise on integers")

        def f(v, *cs):
            dflt = Fraction(0)
            if len(funcs) == len(cs) + 1:
                dflt = call(funcs[-1], v)
            r = dflt
            for c, g in zip(cs, funcs):     # later conditions win
                r = e.merge_elem(c, call(g, v), r)
            return r

        def call(g, v):
            if isinstance(g, (Func, UserFn, Prim, Bound)):
                return promote(e.call(g, [v], {}), 'f')
            return promote(g, 'f')
        return e.np.elementwise(f, [x] + conds, 'f')

    @reg('numpy.select')
    def select(e, args, kw):
        conds, vals = seq(e, args[0]), seq(e, args[1])
        d = args[2] if len(args) > 2 else kw.get('default', 0)

        def f(*q):
            n = len(conds)
            r = promote(q[-1], 'f')
            for c, v in reversed(list(zip(q[:n], q[n:-1]))):
                r = e.merge_elem(truth(c), promote(v, 'f'), r)
            return r
        return e.np.elementwise(f, conds + vals + [d], 'f')

    @reg('numpy.clip')
    def clip(e, args, kw):
        if kw or len(args) != 3 or any(e.force(x) is None for x in args):
            raise Unsupported("clip")
        return e.np.elementwise(lambda x, a, b: minv(maxv(x, a), b), args[:3])

    @reg('numpy.finfo')
    def finfo(e, args, kw):
        kw1(kw, ())
        v = e.force(args[0])
        n = v if isinstance(v, str) else getattr(v, 'name', None) or type_of(v)
        if n not in ('float', 'float64', 'double', 'float32', 'numpy.float64'):
            raise Unsupported("finfo of %s" % n)
        o = Obj(e.heap, TypeV('finfo'))
        b, lo, hi = (23, -126, 128) if n == 'float32' else (52, -1022, 1024)
        o.attrs['eps'] = Fraction(1, 2 ** b)
        o.attrs['tiny'] = o.attrs['smallest_normal'] = Fraction(1, 2 ** -lo)
        o.attrs['max'] = (2 - Fraction(1, 2 ** b)) * 2 ** (hi - 1)
        o.attrs['min'] = -o.attrs['max']
        return o

    # linear algebra
    def checked(e, kw, ok=('check_finite', 'overwrite_a', 'overwrite_b', 'assume_a')):
        kw1(kw, ok)

    @reg('scipy.linalg.inv', 'numpy.linalg.inv')
    def inv(e, args, kw):
        checked(e, kw)
        return e.np.inv(e.force(args[0]))
    for k in ('pinv', 'pinvh'):
        X['scipy.linalg.' + k] = Prim('scipy.linalg.' + k, lambda e, args, kw, k=k: (checked(e, kw, ()), e.np.inv(e.force(args[0]), k))[1])

    @reg('scipy.linalg.solve', 'numpy.linalg.solve')
    def solve(e, args, kw):
        checked(e, kw, ())
        return e.np.solve(e.force(args[0]), e.force(args[1]))

    @reg('numpy.linalg.lstsq')
    def lstsq(e, args, kw):
        kw1(kw, ('rcond',))
        return (e.np.lstsq(e.force(args[0]), e.force(args[1])), Poison('lstsq'), Poison('lstsq'), Poison('lstsq'))

    def dist(e, x, y, metric, i, j):
        d = x.shape[1]
        if is_z(d):
            raise Unsupported("distance in symbolic dimension")
        rx, ry = x.reader(), y.reader()
        s = Fraction(0)
        for c in range(d):
            q = sub(rx((i, c)), ry((j, c)))
            s = add(s, mul(q, q))
        if metric == 'sqeuclidean':
            return s
        if metric == 'euclidean':
            return dist_norm(x, y, s)
        raise Unsupported("metric %r" % (metric,))

    def dist_norm(x, y, s):
        return t_sqrt(s)

    @reg('scipy.spatial.distance.cdist')
    def cdist(e, args, kw):
        kw1(kw, ('metric',))
        x, y = e.np.asarr(args[0]), e.np.asarr(args[1])
        m = args[2] if len(args) > 2 else kw.get('metric', 'euclidean')
        if x.ndim != 2 or y.ndim != 2:
            raise Raise('ValueError')
        if not _same(x.shape[1], y.shape[1]):
            raise Raise('ValueError')
        x, y = e.np.freeze(e, x), e.np.freeze(e, y)
        return e.np.new((x.shape[0], y.shape[0]), lambda idx: dist(e, x, y, m, idx[0], idx[1]), 'f')

    @reg('scipy.spatial.distance.pdist')
    def pdist(e, args, kw):
        kw1(kw, ('metric',))
        x = e.np.freeze(e, e.np.asarr(args[0]))
        m = args[1] if len(args) > 1 else kw.get('metric', 'euclidean')
        if x.ndim != 2:
            raise Raise('ValueError')
        n = x.shape[0]
        return FArr((n, n), lambda idx: cmp('<', idx[0], idx[1]), lambda idx: dist(e, x, x, m, idx[0], idx[1]), 'f', ('pdist', toz(n, I).get_id()))

    @reg('scipy.spatial.distance.squareform')
    def squareform(e, args, kw):
        f = e.force(args[0])
        if not (isinstance(f, FArr) and isinstance(f.ident, tuple) and f.ident[0] == 'pdist'):
            raise Unsupported("squareform")
        v = f.val

        def fn(idx):
            i, j = idx
            return ite(cmp('==', i, j), Fraction(0), ite(cmp('<', i, j), v((i, j)), v((j, i))))
        return e.np.new(f.dom, fn, 'f')

    # masked arrays
    @reg('numpy.ma.array', 'numpy.ma.masked_array', 'numpy.ma.MaskedArray')
    def ma_array(e, args, kw):
        kw1(kw, ('mask', 'copy'))
        d = e.force(args[0])
        m = e.force(kw.get('mask', args[1] if len(args) > 1 else False))
        old = None
        if isinstance(d, MArr):
            d, old = d.data, d.mask
        d = e.np.asarr(d)
        if is_scalar(m):
            mk = e.np.new(d.shape, lambda idx: truth(m), 'b')
        else:
            m = e.np.asarr(m)
            sh = broadcast_shapes(e, [m.shape, d.shape])
            if len(sh) != d.ndim:
                raise Unsupported("mask shape")
            rd, es = m.reader(), eff_shape(e, m.shape, sh)
            if not kw.get('copy') and not m.cell.aliased:
                e.heap.touch(m.cell)      # the mask may be shared
                m.cell.aliased = True
            mk = e.np.new(d.shape, lambda idx: truth(bget(rd, es, idx)), 'b')
        if old is not None:
            r0, r1 = old.reader(), mk.reader()
            mk = e.np.new(d.shape, lambda idx: b_or(r0(idx), r1(idx)), 'b')
        return MArr(e.np.copy(d) if kw.get('copy') else d, mk)

    @reg('numpy.ma.getmaskarray')
    def getmaskarray(e, args, kw):
        a = e.force(args[0])
        if isinstance(a, MArr):
            return a.mask
        return e.np.new(a.shape, lambda idx: False, 'b')

    @reg('numpy.errstate')
    def errstate(e, args, kw):
        return None

    @reg('warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings')
    def warn(e, args, kw):
        return None

    @reg('numpy.float64.__call__')
    def f64(e, args, kw):
        return promote(args[0], 'f')

    @reg('numpy.isclose')
    def isclose(e, args, kw):
        kw1(kw, ('rtol', 'atol'))
        if len(args) > 4:
            raise Unsupported("isclose")
        rt = e.force(args[2] if len(args) > 2 else kw.get('rtol', Fraction(1, 10 ** 5)))
        at = e.force(args[3] if len(args) > 3 else kw.get('atol', Fraction(1, 10 ** 8)))
        return e.np.elementwise(lambda a, b: cmp('<=', absv(som_(sub(a, b))), add(at, mul(rt, absv(b)))), args[:2], 'b')

    @reg('numpy.allclose')
    def allclose(e, args, kw):
        r = isclose(e, args, kw)
        return e.np.all(r) if isinstance(r, Arr) else r

    @reg('numpy.diff')
    def diff(e, args, kw):
        kw1(kw, ())
        a = e.np.desq(e.np.asarr(e.force(args[0])))
        if len(args) > 1 or not isinstance(a, Arr) or a.ndim != 1:
            raise Unsupported("diff")
        if not e.entails(toz(cmp('>=', a.shape[0], 1))):
            raise Unsupported("diff of an array that may be empty")
        rd = a.reader()
        return e.np.new((sub(a.shape[0], 1),), lambda idx: sub(rd((add(idx[0], 1),)), rd(idx)), a.kind)

    @reg('numpy.flipud')
    def flipud(e, args, kw):
        a = e.np.asarr(e.force(args[0]))
        if kw or len(args) > 1 or not isinstance(a, Arr) or a.ndim < 1:
            raise Unsupported("flip")
        return e.getitem(a, (SliceV(None, None, -1),))

    @reg('numpy.ma.is_masked')
    def is_masked(e, args, kw):
        v = e.force(args[0])
        return e.np.any(v.mask) if isinstance(v, MArr) else False

    @reg('numpy.array_equal')
    def array_equal(e, args, kw):
        a, b = e.np.asarr(args[0]), e.np.asarr(args[1])
        if a.ndim != b.ndim:
            return False
        c = b_and(*[cmp('==', p, q) for p, q in zip(a.shape, b.shape)])
        if not e.decide(c):
            return False
        return e.np.all(e.np.binop(e, '==', a, b))
    return X
