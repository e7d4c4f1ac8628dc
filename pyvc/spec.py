"""Mathematical specification functions, written from the documentation."""
import z3
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .prover import ho_head

F = Fraction
NPAR = {'linear': 2, 'power': 3, 'gaussian': 3, 'exponential': 3, 'spherical': 3, 'hole-effect': 3}


def _lin(p, d):
    return add(mul(p[0], d), p[1])


def _pow(p, d):
    return add(mul(p[0], power(d, p[1])), p[2])


def _gau(p, d):
    r = div(mul(F(4), p[1]), F(7))
    return add(mul(p[0], sub(F(1), t_exp(neg(div(power(d, 2), power(r, 2)))))), p[2])


def _exp(p, d):
    return add(mul(p[0], sub(F(1), t_exp(neg(div(d, div(p[1], F(3))))))), p[2])


def _sph(p, d):
    body = add(mul(p[0], sub(div(mul(F(3), d), mul(F(2), p[1])), div(power(d, 3), mul(F(2), power(p[1], 3))))), p[2])
    return ite(cmp('<=', d, p[1]), body, add(p[0], p[2]))


def _hol(p, d):
    t = div(d, div(p[1], F(3)))
    return add(mul(p[0], sub(F(1), mul(sub(F(1), t), t_exp(neg(t))))), p[2])


VARIO = {'linear': _lin, 'power': _pow, 'gaussian': _gau, 'exponential': _exp, 'spherical': _sph, 'hole-effect': _hol}


def par_pre(model, p):
    """documented parameter ranges"""
    pre = [x >= 0 for x in p]
    if model == 'power':
        pre += [p[1] > 0, p[1] < 2]
    elif model != 'linear':
        pre += [p[1] > 0]
    return pre


def shape_goals(model, p, d, e):
    """(name, hypotheses, goal)"""
    f = lambda x: VARIO[model](p, x)
    nug = p[-1]
    out = [('never below the nugget', [d >= 0], f(d) >= nug)]
    if model != 'hole-effect':
        out.append(('does not decrease with distance', [d >= 0, e >= d], f(e) >= f(d)))
        if model not in ('linear', 'power'):
            out.append(('never exceeds the sill', [d >= 0], f(d) <= p[0] + nug))
    if model == 'spherical':
        out.append(('attains the sill from the range on', [d >= p[1]], f(d) == p[0] + nug))
    return out


def rad(a):
    return mul(a, div(PI, F(180)))


def rot_axis(r, axis, a):
    """components of r in axes turned counter-clockwise by a about the given axis (2D: axis 2)"""
    c, s = t_cos(rad(a)), t_sin(rad(a))
    r = list(r)
    if axis == 2:
        r[0], r[1] = add(mul(c, r[0]), mul(s, r[1])), sub(mul(c, r[1]), mul(s, r[0]))
    elif axis == 0:
        r[1], r[2] = add(mul(c, r[1]), mul(s, r[2])), sub(mul(c, r[2]), mul(s, r[1]))
    else:
        r[0], r[2] = sub(mul(c, r[0]), mul(s, r[2])), add(mul(s, r[0]), mul(c, r[2]))
    return r


def adjust(x, ctr, sc, an):
    """about the centre: the axes are turned counter-clockwise by the angles (degrees; in 3D about
    x, then y, then z), then the axes beyond the first are stretched"""
    r = [sub(a, b) for a, b in zip(x, ctr)]
    for axis, a in zip((2,) if len(x) == 2 else (0, 1, 2), an):
        r = rot_axis(r, axis, a)
    for i, s in enumerate(sc):
        r[i + 1] = mul(s, r[i + 1])
    return [add(a, b) for a, b in zip(r, ctr)]


def pick(i, xs):
    if not is_z(i):
        return xs[i]
    r = xs[-1]
    for k in reversed(range(len(xs) - 1)):
        r = ite(cmp('==', i, k), xs[k], r)
    return r


def trig_reduce(t, angles):
    """replace cos^2 by 1 - sin^2 (instances of the Pythagorean identity)"""
    t = som(toz(t, R))
    for a in angles:
        t = reduce_square(t, t_cos(a), t_sin(a))
    return t


def reduce_square(t, cv, sv):
    for _ in range(8):
        ms = list(t.children()) if z3.is_add(t) else [t]
        out, hit = toz(F(0)), False
        for m in ms:
            fs = T._factors(m)
            n = sum(1 for f in fs if f.eq(cv))
            if n >= 2:
                hit = True
                k, rest = 0, toz(F(1))
                for f in fs:
                    if f.eq(cv) and k < 2:
                        k += 1
                    else:
                        rest = rest * f
                out = out + rest * (1 - sv * sv)
            else:
                out = out + m
        t = som(out)
        if not hit:
            break
    return t


def gcd_parts(l1, b1, l2, b2):
    p1, p2, dl = rad(b1), rad(b2), rad(sub(l1, l2))
    c1, s1, c2, s2 = t_cos(p1), t_sin(p1), t_cos(p2), t_sin(p2)
    y2 = add(power(mul(c2, t_sin(dl)), 2), power(sub(mul(c1, s2), mul(mul(s1, c2), t_cos(dl))), 2))
    x = add(mul(s1, s2), mul(mul(c1, c2), t_cos(dl)))
    return y2, x


def gcd(l1, b1, l2, b2):
    """angle between the two directions in degrees: 180/pi * atan2(|u x v|, u . v)"""
    y2, x = gcd_parts(l1, b1, l2, b2)
    return mul(div(F(180), PI), t_atan2(t_sqrt(y2), x))


def chord(d):
    dd = ite(cmp('>', d, F(2)), F(2), d)
    return sub(F(180), mul(div(F(360), PI), t_acos(mul(F(1, 2), dd))))


# ---------------------------------------------------------------- kriging
PAR = z3.DeclareSort('PAR')
MKPAR = ho_head('MKPAR', I, T.LAM1, PAR)
VF = z3.Function('VF', PAR, R, R)


def par_code(eng, p):
    """the parameter vector as a value"""
    p = eng.force(p)
    if isinstance(p, PList) and p.concrete:
        items = [eng.force(x) for x in p.items]
        return MKPAR(toz(len(items), I), T.lam(lambda k: pick_any(k, items)))
    if isinstance(p, PList):
        return MKPAR(toz(p.length(), I), T.lam(lambda k: eng.list_get(p, k)))
    if isinstance(p, Arr) and p.ndim == 1:
        return MKPAR(toz(p.shape[0], I), T.lam(lambda k: p.get((k,))))
    if isinstance(p, tuple):
        return MKPAR(toz(len(p), I), T.lam(lambda k: pick_any(k, list(p))))
    raise Unsupported("variogram parameters as %s" % type(p).__name__)


def pick_any(i, xs):
    r = toz(xs[-1], R) if xs else toz(F(0))
    for k in reversed(range(len(xs) - 1)):
        r = ite(cmp('==', i, k), toz(xs[k], R), r)
    return r


def vf_user(name='variogram_function'):
    """an arbitrary variogram function: pure and elementwise in the distances"""
    def call(eng, args, kw):
        if len(args) != 2 or kw:
            raise Raise('TypeError')
        p = par_code(eng, args[0])
        d = eng.force(args[1])
        if is_scalar(d):
            return VF(p, toz(d, R))
        return eng.np.elementwise(lambda x: VF(p, som(toz(x, R))), [d], 'f')
    return UserFn(name, call, raw=True)


def edist(x, y):
    s = F(0)
    for a, b in zip(x, y):
        q = sub(a, b)
        s = add(s, mul(q, q))
    return t_sqrt(s)


def dist(ctype, x, y):
    if ctype == 'euclidean':
        return edist(x, y)
    return T.GCD(*[som(toz(v, R)) for v in (x[0], x[1], y[0], y[1])])


def gcd_contract(eng, f, args, kw):
    """contract of core.great_circle_distance: elementwise GCD (symmetric, zero on equal points, 0..180)"""
    a = eng.bind(f, args, kw)
    vs = [eng.force(a[k]) for k in ('lon1', 'lat1', 'lon2', 'lat2')]
    fn = lambda *xs: T.GCD(*[som(toz(x, R)) for x in xs])
    vs = [eng.np.asarr(v) if isinstance(v, (PList, tuple)) else v for v in vs]
    if all(is_scalar(v) for v in vs):
        return fn(*vs)
    return eng.np.elementwise(fn, vs, 'f')


def kriging_system(n, D, bd, gamma, drift=None, zero=None):
    """entries of the ordinary/universal kriging system with dr drift terms
    drift: (number, f(k, i) at datum i, g(k) at the point); the constant term is the last row"""
    p, fd, fp = drift if drift is not None else (0, None, None)
    N = add(add(n, p), 1)
    last = add(n, p)

    def A(i, j):
        inside = ite(cmp('==', i, j), F(0), neg(gamma(D(i, j))))
        one = F(1)

        def col(r, c):     # r < n <= c
            if fd is None:
                return one
            return ite(cmp('<', c, last), fd(sub(c, n), r), one)
        return ite(b_and(cmp('<', i, n), cmp('<', j, n)), inside,
                   ite(cmp('<', i, n), col(i, j), ite(cmp('<', j, n), col(j, i), F(0))))

    def b(i):
        v = neg(gamma(bd(i)))
        if zero is not None:
            v = ite(zero(i), F(0), v)
        if fd is None:
            return ite(cmp('<', i, n), v, F(1))
        return ite(cmp('<', i, n), v, ite(cmp('<', i, last), fp(sub(i, n)), F(1)))
    return N, A, b


def solve_inv(N, A, b):
    NL = simp(toz(N, I))
    L = T.lam(A, 2)
    return lambda k: T.mk_sum(N, lambda j: mul(T.INV(NL, L, toz(k, I), toz(j, I)), b(j)))


def solve_lsq(N, A, b):
    NL = simp(toz(N, I))
    L = T.lam(A, 2)
    bl = T.lam(b)
    return lambda k: T.LSQ(NL, L, bl, toz(k, I))


def estimate(n, N, x, b, Z):
    z = T.mk_sum(n, lambda k: mul(x(k), Z(k)))
    s = neg(T.mk_sum(N, lambda k: mul(x(k), b(k))))
    return z, s


EPS = F(1, 10 ** 10)


def krige_point(X, y, n, nd, at, ctype, gamma, lsq=False, eps=EPS):
    """kriging of one point from the data X(i, c), y(i), i < n, at the coordinates `at`"""
    row = lambda i: [X(i, c) for c in range(nd)]
    D = lambda i, j: dist(ctype, row(i), row(j))
    bd = lambda i: dist(ctype, row(i), at)
    N, A, b = kriging_system(n, D, bd, gamma, zero=lambda i: cmp('<=', bd(i), eps))
    x = (solve_lsq if lsq else solve_inv)(N, A, b)
    return estimate(n, N, x, b, y) + (bd,)
