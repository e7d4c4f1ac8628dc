"""Contracts: the kriging system and its solution (ordinary kriging)."""
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *

C = 'pykrige.core.'
KIND = {'pinv': 1, 'pinvh': 2}


def new_obj(c, cls, **attrs):
    o = Obj(c.eng.heap, c.func(cls), attrs)
    o.frozen = True
    return o


def params(c):
    P = z3.Function('P', I, R)
    n = c.int('npar')
    p = PList(c.eng.heap, [], n, lambda i: P(toz(i, I)))
    p.frozen = True
    return p, n


VFASS = 'the variogram function is pure and elementwise in the distances'


def gam(c, par):
    code = S.par_code(c.eng, par)
    return lambda d: S.VF(code, som(toz(d, R)))


def solver(N, A, kind):
    """entries of the (pseudo-)inverse of the system"""
    NL, L = simp(toz(N, I)), T.lam(A, 2)
    if kind is None:
        return lambda i, j: T.INV(NL, L, toz(i, I), toz(j, I))
    return lambda i, j: T.PINV(z3.IntVal(KIND[kind]), NL, L, toz(i, I), toz(j, I))


def rhs(n, bd, gamma, exact, eps, drift=None, size=absv):
    """right-hand side at one point: minus the variogram (zero at a datum when exact), drift values, one"""
    p, fp = drift if drift is not None else (0, None)
    last = add(n, p)

    def b(i):
        v = ite(b_and(exact, cmp('<=', size(bd(i)), eps)), Fraction(0), neg(gamma(bd(i))))
        r = Fraction(1)
        if fp is not None:
            r = ite(cmp('<', i, last), fp(sub(i, n)), Fraction(1))
        return ite(cmp('<', i, n), v, r)
    return add(last, 1), b


def solution(n, N, inv, b, Z):
    x = lambda k: T.mk_sum(N, lambda j: mul(inv(k, j), b(j)))
    return T.mk_sum(n, lambda k: mul(x(k), Z(k))), neg(T.mk_sum(N, lambda k: mul(x(k), b(k))))


def system(n, D, gamma, drift=None):
    return S.kriging_system(n, D, lambda i: Fraction(0), gamma, drift=drift)[:2]


def is_pair(c, lab, v):
    v = c.eng.force(v)
    if not (isinstance(v, tuple) and len(v) == 2):
        c.eng.fail(lab, 'does not return a pair')
        return None
    return [c.eng.force(x) for x in v]


def result_entries(c, lab, v, npt, mask, spec, zero_masked=False):
    """both result arrays have one entry per point, solved where the mask is False"""
    r = is_pair(c, lab, v)
    if r is None:
        return
    for nm, x, k in (('estimate', r[0], 0), ('variance', r[1], 1)):
        x = x.data if isinstance(x, MArr) else x
        if isinstance(x, SqArr):
            x = c.eng.np.desq(x)
        if not isinstance(x, Arr) or x.ndim != 1:
            c.eng.fail('%s: %s' % (lab, nm), 'not a vector')
            continue
        p = c.eng.pv.sk('p')
        rng = [0 <= p, p < npt]
        c.prove('%s: one %s per point' % (lab, nm), cmp('==', x.shape[0], npt))
        live = [] if mask is None else [z3.Not(toz(mask(p)))]
        c.same_elem('%s: %s of an unmasked point' % (lab, nm), x.get((p,)), spec(p)[k], rng + live)


@unit('ok._get_kriging_matrix', 'P24', 'P02', 'P01')
def okm(c):
    cls = 'pykrige.ok.OrdinaryKriging'
    c.eng.contracts[C + 'great_circle_distance'] = S.gcd_contract
    c.assumed.append(VFASS)
    for ctype in ('euclidean', 'geographic'):
        n = c.int('n')
        X, Y = c.array('X', (n,)), c.array('Y', (n,))
        par, np_ = params(c)
        o = new_obj(c, cls, X_ADJUSTED=X, Y_ADJUSTED=Y, coordinates_type=ctype, variogram_function=S.vf_user(), variogram_model_parameters=par)
        D = lambda i, j: S.dist(ctype, (X.get((i,)), Y.get((i,))), (X.get((j,)), Y.get((j,))))
        N, A = system(n, D, gam(c, par))
        c.run(ctype, lambda: c.eng.call(c.func(cls + '._get_kriging_matrix'), [o, n], {}), [n >= 1, np_ >= 0],
              lambda v: c.array_is(ctype + ': kriging matrix', v, (add(n, 1), add(n, 1)), lambda q: A(q[0], q[1])))


def exec_setup(c, pinv, extra=0):
    n, npt = c.int('n'), c.int('npt')
    N = add(n, 1) if is_num(extra) and extra == 0 else add(add(n, extra), 1)
    a = c.array('A', (N, N))
    bd = c.array('bd', (npt, n))
    mask = c.array('mask', (npt,), 'b')
    Z = c.array('Z', (n,))
    par, np_ = params(c)
    ex = c.boolean('exact')
    at = dict(X_ADJUSTED=c.array('X', (n,)), Y_ADJUSTED=c.array('Y', (n,)), Z=Z, variogram_function=S.vf_user(), variogram_model_parameters=par,
              pseudo_inv=pinv is not None, pseudo_inv_type=pinv or 'pinv', exact_values=ex)
    return n, npt, N, a, bd, mask, Z, par, np_, ex, at


def exec_unit(name, cls, meth, *props):
    @unit(name, *props)
    def go(c):
        c.assumed.append(VFASS)
        for pinv in (None, 'pinv', 'pinvh'):
            n, npt, N, a, bd, mask, Z, par, np_, ex, at = exec_setup(c, pinv)
            if 'OrdinaryKriging3D' in cls:
                at['Z_ADJUSTED'] = c.array('Zc', (n,))
                at['VALUES'] = at.pop('Z')
            o = new_obj(c, cls, **at)
            inv = solver(N, lambda i, j: a.get((i, j)), pinv)

            def spec(p):
                N_, b = rhs(n, lambda i: bd.get((p, i)), gam(c, par), ex, S.EPS)
                return solution(n, N, inv, b, lambda k: Z.get((k,)))
            lab = 'solver ' + (pinv or 'inverse')
            c.run(lab, lambda: c.eng.call(c.func(cls + '.' + meth), [o, a, bd, mask], {}), [n >= 1, npt >= 1, np_ >= 0],
                  lambda v: result_entries(c, lab, v, npt, lambda p: mask.get((p,)), spec))


exec_unit('ok._exec_vector', 'pykrige.ok.OrdinaryKriging', '_exec_vector', 'P24', 'P04', 'P05', 'P01', 'P02')
exec_unit('ok._exec_loop', 'pykrige.ok.OrdinaryKriging', '_exec_loop', 'P24', 'P04', 'P05', 'P01', 'P02')
exec_unit('ok3d._exec_vector', 'pykrige.ok3d.OrdinaryKriging3D', '_exec_vector', 'P24', 'P04', 'P05', 'P01', 'P02')
exec_unit('ok3d._exec_loop', 'pykrige.ok3d.OrdinaryKriging3D', '_exec_loop', 'P24', 'P04', 'P05', 'P01', 'P02')


@unit('ok3d._get_kriging_matrix', 'P24', 'P02', 'P01')
def ok3m(c):
    cls = 'pykrige.ok3d.OrdinaryKriging3D'
    c.assumed.append(VFASS)
    n = c.int('n')
    XYZ = [c.array(k, (n,)) for k in 'XYZ']
    par, np_ = params(c)
    o = new_obj(c, cls, X_ADJUSTED=XYZ[0], Y_ADJUSTED=XYZ[1], Z_ADJUSTED=XYZ[2], variogram_function=S.vf_user(), variogram_model_parameters=par)
    D = lambda i, j: S.edist([x.get((i,)) for x in XYZ], [x.get((j,)) for x in XYZ])
    N, A = system(n, D, gam(c, par))
    c.run('matrix', lambda: c.eng.call(c.func(cls + '._get_kriging_matrix'), [o, n], {}), [n >= 1, np_ >= 0],
          lambda v: c.array_is('kriging matrix', v, (add(n, 1), add(n, 1)), lambda q: A(q[0], q[1])))


def window_unit(name, cls, *props):
    """moving window: the system restricted to the k selected data of each point"""
    @unit(name, *props)
    def go(c):
        c.assumed.append(VFASS)
        n, k, npt = c.int('n'), c.int('k'), c.int('npt')
        N = add(n, 1)
        a = c.array('A', (N, N))
        bd, idx = c.array('bd', (npt, k)), c.array('idx', (npt, k), 'i')
        mask, Z = c.array('mask', (npt,), 'b'), c.array('Z', (n,))
        par, np_ = params(c)
        ex = c.boolean('exact')
        at = dict(X_ADJUSTED=c.array('X', (n,)), Y_ADJUSTED=c.array('Y', (n,)), variogram_function=S.vf_user(), variogram_model_parameters=par,
                  exact_values=ex, pseudo_inv=False, pseudo_inv_type='pinv')
        at['VALUES' if '3D' in cls else 'Z'] = Z
        if '3D' in cls:
            at['Z_ADJUSTED'] = c.array('Zc', (n,))
        o = new_obj(c, cls, **at)
        p, j = z3.Ints('p j')
        inb = z3.ForAll([p, j], z3.Implies(z3.And(0 <= p, p < npt, 0 <= j, j < k), z3.And(0 <= idx.get((p, j)), idx.get((p, j)) < n)))

        def spec(p):
            sel = lambda i: ite(cmp('<', i, k), idx.get((p, i)), n)
            N_, b = rhs(k, lambda i: bd.get((p, i)), gam(c, par), ex, S.EPS)
            inv = solver(N_, lambda i, j: a.get((sel(i), sel(j))), None)
            return solution(k, N_, inv, b, lambda i: Z.get((idx.get((p, i)),)))
        c.run('window', lambda: c.eng.call(c.func(cls + '._exec_loop_moving_window'), [o, a, bd, mask, idx], {}),
              [n >= 1, k >= 1, k <= n, npt >= 1, np_ >= 0, inb], lambda v: result_entries(c, 'window', v, npt, lambda p: mask.get((p,)), spec))


window_unit('ok._exec_loop_moving_window', 'pykrige.ok.OrdinaryKriging', 'P06', 'P24', 'P04', 'P05', 'P01', 'P02')
window_unit('ok3d._exec_loop_moving_window', 'pykrige.ok3d.OrdinaryKriging3D', 'P06', 'P24', 'P04', 'P05', 'P01', 'P02')


@unit('ok3d._exec_loop_moving_window, one neighbour', 'P06', 'P22')
def one_neighbour(c):
    """a vector of selected data (k = 1) is refused"""
    cls = 'pykrige.ok3d.OrdinaryKriging3D'
    n, npt = c.int('n'), c.int('npt')
    par, np_ = params(c)
    at = {k: c.array(k, (n,)) for k in ('X_ADJUSTED', 'Y_ADJUSTED', 'Z_ADJUSTED', 'VALUES')}
    o = new_obj(c, cls, variogram_function=S.vf_user(), variogram_model_parameters=par, exact_values=c.boolean('exact'), pseudo_inv=False, pseudo_inv_type='pinv', **at)
    got = []
    a, bd, mask, idx = c.array('A', (add(n, 1), add(n, 1))), c.array('bd', (npt,)), c.array('mask', (npt,), 'b'), c.array('idx', (npt,), 'i')
    c.run('one neighbour', lambda: c.eng.call(c.func(cls + '._exec_loop_moving_window'), [o, a, bd, mask, idx], {}), [n >= 1, npt >= 1, np_ >= 0],
          lambda v: got.append(v), lambda e: True, total=False)
    c.prove('a vector of selected data is refused on every path', not got)
