"""Contracts: cross-validation statistics (P20)."""
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .prover import ho_head
from .values import *

C = 'pykrige.core.'


def krige_setup(c, nd):
    n = c.int('n')
    X = c.array('X', (n, nd))
    y = c.array('y', (n,))
    at = c.array('at', (nd,))
    np_ = c.int('npar')
    P = z3.Function('P', I, R)
    par = PList(c.eng.heap, [], np_, lambda i: P(toz(i, I)))
    par.frozen = True
    c.assumed.append('the variogram function is pure and elementwise in the distances')
    return n, X, y, at, par, np_


def far_apart(c, bd, n, eps):
    """precondition: at most one datum within the cut-off of the point (distinct data locations)"""
    c.eng.pv.pair_facts.append(lambda a, b: z3.Implies(z3.And(0 <= a, a < toz(n, I), 0 <= b, b < toz(n, I), a != b, toz(cmp('<=', bd(a), eps))),
                                                       z3.Not(toz(cmp('<=', bd(b), eps)))))


@unit('core._krige', 'P20', 'P24', 'P12')
def krige(c):
    f = c.func(C + '_krige')
    c.eng.contracts[C + 'great_circle_distance'] = S.gcd_contract
    for ctype, nd in (('euclidean', 2), ('euclidean', 3), ('geographic', 2)):
        for pinv in (False, True):
            n, X, y, at, par, np_ = krige_setup(c, nd)
            vf = S.vf_user()
            gamma = lambda d: S.VF(S.par_code(c.eng, par), som(toz(d, R)))
            z, s, bd = S.krige_point(lambda i, k: X.get((i, k)), lambda i: y.get((i,)), n, nd, [at.get((k,)) for k in range(nd)], ctype, gamma, lsq=pinv)
            c.eng.pv.pair_facts.clear()
            far_apart(c, bd, n, S.EPS)
            lab = '%s %dD%s' % (ctype, nd, ', pseudo-inverse' if pinv else '')

            def post(v):
                if not (isinstance(v, tuple) and len(v) == 2):
                    return c.eng.fail(lab, 'does not return a pair')
                c.same_elem(lab + ': estimate solves the kriging system', c.eng.force(v[0]), z)
                c.same_elem(lab + ': variance is minus solution times right-hand side', c.eng.force(v[1]), s)
            c.run(lab, lambda: c.eng.call(f, [X, y, at, vf, par, ctype, pinv], {}), [n >= 1, np_ >= 0], post)
    c.eng.pv.pair_facts.clear()
    ct = SymStr('ctype')
    n, X, y, at, par, np_ = krige_setup(c, 2)
    c.run('unknown coordinate type', lambda: c.eng.call(f, [X, y, at, S.vf_user(), par, ct], {}), [n >= 1, ct.code != str_code('euclidean'), ct.code != str_code('geographic')],
          lambda v: c.prove('unknown coordinate type is refused', False), lambda e: e.kind == 'ValueError', total=False)


def krige_fn(n, rows, vals, at, ctype, pinv, code):
    """(estimate, variance) of _krige as functions of everything its contract says they depend on"""
    nd = len(at)
    args = [toz(n, I)] + [lam(lambda k, q=q: rows(k, q)) for q in range(nd)] + [lam(vals)] + [som(toz(a, R)) for a in at] + [z3.BoolVal(pinv), code]
    nm = '%s%d' % (ctype, nd)
    sig = [I] + [T.LAM1] * (nd + 1) + [R] * nd + [B, S.PAR, R]
    return ho_head('KRIGEZ_' + nm, *sig)(*args), ho_head('KRIGES_' + nm, *sig)(*args)


def krige_contract(c):
    """contract of _krige used by its callers: the pair is a function of its arguments (its value is proved in unit core._krige)"""
    def spec(eng, f, args, kw):
        a = eng.bind(f, args, kw)
        X, y, at = eng.np.asarr(a['X']), eng.np.asarr(a['y']), eng.np.asarr(a['coords'])
        if X.ndim != 2 or y.ndim != 1 or at.ndim != 1:
            raise Unsupported("_krige called outside its contract")
        nd = X.shape[1]
        n = X.shape[0]
        eng.oblige('precondition of _krige: as many values as data', cmp('==', y.shape[0], n))
        eng.oblige('precondition of _krige: dimensions agree', cmp('==', at.shape[0], nd))
        eng.oblige('precondition of _krige: at least one datum', cmp('>=', n, 1))
        ct = eng.force(a['coordinates_type'])
        if not isinstance(ct, str):
            raise Unsupported("symbolic coordinate type")
        eng.oblige('precondition of _krige: coordinate type is known', ct == 'euclidean' and nd in (2, 3) or ct == 'geographic' and nd == 2)
        par, vf = a['variogram_model_parameters'], a['variogram_function']
        if not (isinstance(vf, UserFn) and vf.raw):
            raise Unsupported("another variogram function")
        pi = eng.decide(eng.truthv(a['pseudo_inv']))
        Xr, yr = X.reader(), y.reader()
        return krige_fn(n, lambda i, k: Xr((i, k)), lambda i: yr((i,)), [at.get((k,)) for k in range(nd)], ct, pi, S.par_code(eng, par))
    return spec


@unit('core._find_statistics', 'P20')
def find(c):
    f = c.func(C + '_find_statistics')
    c.eng.contracts[C + '_krige'] = krige_contract(c)
    for ctype, nd in (('euclidean', 2), ('euclidean', 3), ('geographic', 2)):
        for pinv in (False, True):
            n, X, y, at, par, np_ = krige_setup(c, nd)

            def seq(i):
                return krige_fn(i, lambda k, q: X.get((k, q)), lambda k: y.get((k,)), [X.get((i, q)) for q in range(nd)], ctype, pinv, S.par_code(c.eng, par))
            lab = '%s %dD%s' % (ctype, nd, ', pseudo-inverse' if pinv else '')

            def post(v):
                if not (isinstance(v, tuple) and len(v) == 3):
                    return c.eng.fail(lab, 'does not return three arrays')
                v = [c.eng.force(x) for x in v]
                if not all(isinstance(x, FArr) and len(x.dom) == 1 for x in v):
                    return c.eng.fail(lab, 'statistics are not selections over the data')
                i = c.eng.pv.sk('i')
                rng = [0 <= i, i < n]
                k, ss = seq(i)
                keep = b_and(cmp('>=', i, 1), cmp('>=', absv(ss), S.EPS), cmp('>', t_sqrt(ss), S.EPS))
                sig = t_sqrt(ss)
                dl = sub(y.get((i,)), k)
                for nm, x, w in (('delta', v[0], dl), ('sigma', v[1], sig), ('epsilon', v[2], div(dl, sig))):
                    c.prove(lab + ': %s has one candidate entry per datum' % nm, cmp('==', x.dom[0], n))
                    c.same_elem(lab + ': %s leaves out datum 0 and vanishing variances' % nm, x.cond((i,)), keep, rng)
                    c.same_elem(lab + ': %s of datum i from the preceding data only' % nm, x.val((i,)), w, rng + [toz(keep)])
            c.run(lab, lambda: c.eng.call(f, [X, y, S.vf_user(), par, ctype, pinv], {}), [n >= 1, np_ >= 0], post)


@unit('core.calcQ1/calcQ2/calc_cR', 'P20')
def qs(c):
    n = c.int('n')
    e = c.array('epsilon', (n,))
    sg = c.array('sigma', (n,))
    q2 = c.real('Q2')
    E = lambda k: e.get((k,))
    c.run('Q1', lambda: c.eng.call(c.func(C + 'calcQ1'), [e], {}), [n >= 2],
          lambda v: c.same_elem('Q1 = |sum of epsilon| / (n - 1)', c.eng.force(v), absv(mul(T.mk_sum(n, E), rinv(toz(sub(n, 1), R))))))
    c.run('Q2', lambda: c.eng.call(c.func(C + 'calcQ2'), [e], {}), [n >= 2],
          lambda v: c.same_elem('Q2 = sum of epsilon^2 / (n - 1)', c.eng.force(v), mul(T.mk_sum(n, lambda k: power(E(k), 2)), rinv(toz(sub(n, 1), R)))))
    c.run('cR', lambda: c.eng.call(c.func(C + 'calc_cR'), [q2, sg], {}), [n >= 1],
          lambda v: c.same_elem('cR = Q2 exp(mean of ln sigma^2)', c.eng.force(v),
                                mul(q2, t_exp(mul(T.mk_sum(n, lambda k: t_log(power(sg.get((k,)), 2))), rinv(toz(n, R)))))))
