"""Contracts: the experimental semivariogram and the automatic fit (P10, P12, P21)."""
from fractions import Fraction
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *
from .interp import External
from .npmodel import flat_dom, mk_sum_nd, mk_cnt_nd, mk_any_nd
from .prover import ho_head

C = 'pykrige.core.'


class Binning:
    """bin means over the pairs of data (i < j), written from the documentation"""

    def __init__(self, n, dist, gam, nlags, upper):
        self.n, self.dist, self.gam, self.nlags = n, dist, gam, nlags
        self.pair = (lambda i, j: cmp('<', i, j)) if upper else (lambda i, j: cmp('>', i, j))
        dom = (n, n)

    def edges(self, dmin, dmax):
        w = div(sub(dmax, dmin), toz(self.nlags, R))
        lo = lambda b: add(dmin, mul(toz(b, R), w))
        # the last bin has no upper edge below the largest distance
        inside = lambda b, d: b_and(cmp('>=', d, lo(b)), b_or(cmp('==', add(b, 1), self.nlags), cmp('<', d, lo(add(b, 1)))))
        return inside

    def member(self, inside, b):
        return lambda ij: b_and(self.pair(*ij), inside(b, self.dist(*ij)))

    def mean(self, inside, b, val):
        m = self.member(inside, b)
        dom = (self.n, self.n)
        return div(mk_sum_nd(dom, lambda ij: ite(m(ij), val(*ij), Fraction(0))), toz(mk_cnt_nd(dom, m), R))

    def nonempty(self, inside, b):
        return cmp('>', mk_cnt_nd((self.n, self.n), self.member(inside, b)), 0)


def reductions(t, acc):
    """sums and counts over pairs in a term"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in ('SUM', 'SUM2', 'CNT2'):
            acc.setdefault(x.get_id(), x)
        else:
            todo += x.children()
    return acc


def same_bins(c, name, x, spec, extra):
    """x == spec: the sums and counts agree member by member, then by congruence"""
    eng = c.eng
    spec = toz(spec)
    want = list(reductions(spec, {}).values())
    n0 = len(eng.pc)
    eng.pc += [simp(toz(k)) for k in extra if k is not True]
    sub_ = []
    parts = [toz(x.flag, B), toz(x.val)] if isinstance(x, NV) else [toz(x)]
    acc = {}
    for p in parts:
        reductions(p, acc)
    for u in acc.values():
        for w in want:
            if u.decl().eq(w.decl()) and not u.eq(w) and eng.pv.app_eq(u, w, eng.pc, 6):
                sub_.append((u, w))
                break
    del eng.pc[n0:]
    f = lambda t: unz(simp(z3.substitute(toz(t), *sub_)))
    x = NV(f(x.flag), f(x.val)) if isinstance(x, NV) else f(x)
    c.same_elem(name, x, unz(simp(spec)), [f(k) for k in extra])


def initialize(ctype, nd, *props):
    @unit('core._initialize_variogram_model[%s %dD]' % (ctype, nd), *props)
    def go(c):
        eng = c.eng
        eng.contracts[C + 'great_circle_distance'] = S.gcd_contract
        n, nlags = c.int('n'), c.int('nlags')
        X, y = c.array('X', (n, nd)), c.array('y', (n,))
        par = PList(eng.heap, [c.real('p0'), c.real('p1'), c.real('p2')])
        par.frozen = True
        vf = S.vf_user()
        dist0 = lambda i, j: S.dist(ctype, [X.get((i, k)) for k in range(nd)], [X.get((j, k)) for k in range(nd)])
        gam = lambda i, j: mul(Fraction(1, 2), power(sub(y.get((i,)), y.get((j,))), 2))
        f = c.func(C + '_initialize_variogram_model')

        def post(v):
            v = eng.force(v)
            if not (isinstance(v, tuple) and len(v) == 3):
                return eng.fail('result', 'not a triple')
            lags, semi, p = [eng.force(x) for x in v]
            dmin, dmax = c.real('dmin'), c.real('dmax')
            N, at = flat_dom((n, n))
            for upper, flip in ((True, False), (False, False), (True, True), (False, True)):
                dist = (lambda i, j: dist0(j, i)) if flip else dist0
                spec = Binning(n, dist, gam, nlags, upper)
                ext = lambda h: T.mk_ext(h, N, lambda k: toz(dist(*at(k)), R), lambda k: spec.pair(*at(k)))
                sub_ = [(ext(T.MINH), dmin), (ext(T.MAXH), dmax)]
                q = eng.pv.sk('b')
                t = toz(lags.cond((q,)), B) if isinstance(lags, FArr) else None
                if t is None or not z3.substitute(t, *sub_).eq(t):
                    break
            # smallest and largest distance over the pairs
            inside = spec.edges(dmin, dmax)
            pr = lambda i, j: z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, toz(spec.pair(i, j), B)),
                                         z3.And(dmin <= toz(dist(i, j), R), toz(dist(i, j), R) <= dmax))
            eng.pv.pair_facts.append(lambda i, j: z3.And(pr(i, j), pr(j, i)))
            rng = [0 <= q, q < nlags]
            abstract = lambda t: unz(simp(z3.substitute(toz(t), *sub_)))
            for nm, a, val in (('lag', lags, dist), ('semivariance', semi, gam)):
                if not isinstance(a, FArr) or len(a.dom) != 1:
                    eng.fail('%s: bins selected' % nm, type(a).__name__)
                    continue
                c.prove('%s: one entry per bin at most' % nm, cmp('==', a.dom[0], nlags))
                keep = abstract(a.cond((q,)))
                c.prove('%s: exactly the bins with some pair are kept' % nm, simp(toz(keep, B) == toz(spec.nonempty(inside, q), B)), rng)
                x = a.val((q,))
                x = NV(abstract(x.flag), abstract(x.val)) if isinstance(x, NV) else abstract(x)
                same_bins(c, '%s: mean over the pairs of the bin' % nm, x, spec.mean(inside, q, val), rng + [keep])
            c.prove('given parameters are returned', p is par)
            eng.pv.pair_facts.clear()
        c.run('', lambda: eng.call(f, [X, y, 'gaussian', par, vf, nlags, False, ctype], {}), [n >= 2, nlags >= 1], post)



initialize('euclidean', 2, 'P10')
initialize('euclidean', 3, 'P10')
initialize('geographic', 2, 'P10')

TWO, THREE = ('linear',), ('power', 'spherical', 'exponential', 'gaussian', 'hole-effect')


def call_init(c, X, y, model, par, ctype, weight=False, nlags=None):
    f = c.func(C + '_initialize_variogram_model')
    return lambda: c.eng.call(f, [X, y, model, par, S.vf_user(), c.int('nlags') if nlags is None else nlags, weight, ctype], {})


@unit('core._initialize_variogram_model: refusals', 'P08', 'P22', 'P25')
def refusals(c):
    eng = c.eng
    eng.contracts[C + 'great_circle_distance'] = S.gcd_contract
    n, nlags = c.int('n'), c.int('nlags')
    pre = [n >= 2, nlags >= 1]
    y = c.array('y', (n,))
    P = z3.Function('P', I, R)
    m = c.int('npar')

    def plist():
        p = PList(eng.heap, [], m, lambda i: P(toz(i, I)))
        p.frozen = True
        return p
    three = c.list([c.real('p%d' % i) for i in range(3)])
    # coordinate types
    ct = SymStr('ctype')
    c.run('unknown coordinate type', call_init(c, c.array('X', (n, 2)), y, 'gaussian', three, ct),
          pre + [ct.code != str_code('euclidean'), ct.code != str_code('geographic')],
          lambda v: c.prove('unknown coordinate type is refused', False), lambda e: e.kind == 'ValueError', total=False)
    c.run('geographic 3D', call_init(c, c.array('X3', (n, 3)), y, 'gaussian', three, 'geographic'), pre,
          lambda v: c.prove('geographic coordinates in 3D are refused', False), lambda e: e.kind == 'ValueError', total=False)
    # parameter counts
    model = SymStr('model')
    isin = lambda names: z3.Or(*[model.code == str_code(x) for x in names])
    par = plist()
    good = z3.And(z3.Implies(isin(TWO), m == 2), z3.Implies(isin(THREE), m == 3))

    def post(v):
        c.prove('parameters are accepted in the number of the model only', good)
        v = eng.force(v)
        c.prove('given parameters are returned', isinstance(v, tuple) and len(v) == 3 and eng.force(v[2]) is par)
    X = c.array('X', (n, 2))
    c.run('parameters', call_init(c, X, y, model, par, 'geographic'), pre + [m >= 0], post, lambda e: b_and(e.kind == 'ValueError', b_not(good)))
    c.run('custom model without parameters', call_init(c, X, y, 'custom', None, 'geographic'), pre,
          lambda v: c.prove('custom model without parameters is refused', False), lambda e: e.kind == 'ValueError', total=False)


@unit('core._initialize_variogram_model: automatic fit', 'P21', 'P10')
def autofit(c):
    eng = c.eng
    n, nlags = c.int('n'), c.int('nlags')
    y, X = c.array('y', (n,)), c.array('X', (n, 2))
    calls = []
    fitted = UserFn('fitted', None)

    def fit(e, f, args, kw):
        a = e.bind(f, args, kw)
        calls.append(a)
        return fitted
    eng.contracts[C + '_calculate_variogram_model'] = fit
    vf = S.vf_user()
    f = c.func(C + '_initialize_variogram_model')
    eng.contracts[C + 'great_circle_distance'] = S.gcd_contract
    model, w = SymStr('model'), c.boolean('weight')

    def post(v):
        v = eng.force(v)
        c.prove('fitted parameters are returned', isinstance(v, tuple) and len(v) == 3 and v[2] is fitted and len(calls) >= 1)
        a = calls[-1]
        c.prove('the experimental variogram is fitted', eng.force(a['lags']) is eng.force(v[0]) and eng.force(a['semivariance']) is eng.force(v[1]))
        c.prove('model and function are passed on', a['variogram_model'] is model and a['variogram_function'] is vf)
        c.prove('weighting is passed on', is_z(a['weight']) and a['weight'].eq(w))
    c.run('fitted model', lambda: eng.call(f, [X, y, model, None, vf, nlags, w, 'geographic'], {}), [n >= 2, nlags >= 1, model.code != str_code('custom')], post)


def extremes(n, f):
    """(largest, smallest) of f(0..n-1)"""
    return T.mk_ext(T.MAXH, n, lambda k: toz(f(k), R)), T.mk_ext(T.MINH, n, lambda k: toz(f(k), R))


def model_values(c, par):
    """the variogram function on an array of lags"""
    return lambda d: S.VF(S.par_code(c.eng, par), som(toz(d, R)))


@unit('core._variogram_residuals', 'P21')
def residuals(c):
    eng = c.eng
    f = c.func(C + '_variogram_residuals')
    n = c.int('n')
    x, y = c.array('x', (n,)), c.array('y', (n,))
    par = PList(eng.heap, [], c.int('npar'), lambda i: z3.Function('P', I, R)(toz(i, I)))
    par.frozen = True
    vf = S.vf_user()
    g = model_values(c, par)
    pre = [n >= 1, c.int('npar') >= 0]
    c.run('unweighted', lambda: eng.call(f, [par, x, y, vf, False], {}), pre,
          lambda v: c.array_is('residual = model minus experiment', v, (n,), lambda q: sub(g(x.get(q)), y.get(q))))
    big, small = extremes(n, lambda k: x.get((k,)))
    rg = sub(big, small)
    steep = div(Fraction('2.1972'), mul(Fraction(1, 10), rg))
    mid = add(mul(Fraction(7, 10), rg), small)
    L = lambda d: div(Fraction(1), add(Fraction(1), t_exp(mul(neg(steep), sub(mid, d)))))
    W = lambda k: div(L(x.get((k,))), T.mk_sum(n, lambda j: L(x.get((j,)))))
    c.run('weighted', lambda: eng.call(f, [par, x, y, vf, True], {}), pre + [cmp('>', big, small)],
          lambda v: c.array_is('residual carries the logistic weight', v, (n,), lambda q: mul(sub(g(x.get(q)), y.get(q)), W(q[0]))))
    c.assumed.append('the variogram function is pure and elementwise in the distances')


@unit('logistic weights', 'P21')
def weights(c):
    """lemmas over the weights of the contract of _variogram_residuals"""
    k, m, a, b = c.real('k'), c.real('m'), c.real('a'), c.real('b')
    ex = z3.Function('exp_', R, R)
    ea, eb = ex(a), ex(b)
    pos = [ea > 0, eb > 0]
    la, lb = c.real('la'), c.real('lb')      # weights 1 / (1 + exp) by their defining equation
    defs = [la * (1 + ea) == 1, lb * (1 + eb) == 1]
    c.lemma('a weight is positive', pos + defs, toz(la) > 0)
    c.lemma('a weight is below one', pos + defs, toz(la) < 1)
    c.lemma('weights decrease with the lag', pos + defs + [eb > ea], la > lb)
    s, n = c.real('s'), c.int('n')
    v = c.array('w', (n,))
    tot = T.mk_sum(n, lambda i: v.get((i,)))
    c.lemma('weights sum to one', [n >= 1, toz(tot) > 0], cmp('==', T.mk_sum(n, lambda i: div(v.get((i,)), tot)), Fraction(1)))


@unit('core._calculate_variogram_model', 'P21')
def fit(c):
    """least_squares(fun, x0, bounds, loss, args) is assumed to return a minimiser of the loss of fun within the bounds when started inside them"""
    eng = c.eng
    n = c.int('n')
    lags, semi = c.array('lags', (n,)), c.array('semi', (n,))
    vf = S.vf_user()
    xl, sl = extremes(n, lambda k: lags.get((k,)))
    xs, ss = extremes(n, lambda k: semi.get((k,)))
    w = c.boolean('weight')
    calls = []

    class Res(External):
        def getattr(self, e, name):
            if name == 'x':
                return self
            raise Unsupported('least_squares result .' + name)
    res = Res()

    def lsq(e, args, kw):
        kw = dict(kw)
        names = ('fun', 'x0', 'jac', 'bounds')
        for nm, v in zip(names, args):
            kw[nm] = v
        if set(kw) - {'fun', 'x0', 'bounds', 'loss', 'args'} or len(args) > 4:
            raise Unsupported('least_squares(%s)' % ', '.join(sorted(kw)))
        calls.append(kw)
        return res
    eng.externals['scipy.optimize.least_squares'] = Prim('least_squares', lsq)
    f = c.func(C + '_calculate_variogram_model')
    c.assumed.append('scipy.optimize.least_squares minimises the given loss within the given bounds when started within them')
    inf = float('inf')
    bounds = {'linear': ([0, 0], [inf, xs]), 'power': ([0, Fraction('0.001'), 0], [inf, Fraction('1.999'), xs])}
    for model in TWO + THREE:
        lo, hi = bounds.get(model, ([0, 0, 0], [mul(10, xs), xl, xs]))

        def seq(v):
            v = eng.force(v)
            if isinstance(v, PList) and v.concrete:
                return [eng.force(x) for x in v.items]
            if isinstance(v, tuple):
                return [eng.force(x) for x in v]
            if isinstance(v, Arr) and v.ndim == 1 and isinstance(v.shape[0], int):
                return [v.get((i,)) for i in range(v.shape[0])]
            raise Unsupported('bounds of least_squares')

        def post(v, model=model, lo=lo, hi=hi):
            c.prove('%s: the minimiser is returned' % model, eng.force(v) is res and len(calls) >= 1)
            k = calls[-1]
            fn = eng.force(k.get('fun'))
            c.prove('%s: the residuals are minimised' % model, isinstance(fn, Func) and fn.qual == C + '_variogram_residuals')
            c.prove('%s: soft L1 loss' % model, k.get('loss') == 'soft_l1')
            a = seq(k.get('args', ()))
            c.prove('%s: residuals of the experimental variogram' % model, len(a) == 4 and a[0] is lags and a[1] is semi and a[2] is vf)
            c.prove('%s: weighting is passed on' % model, len(a) == 4 and is_z(a[3]) and a[3].eq(w))
            bl, bh = [seq(x) for x in seq(k.get('bounds', ()))]
            x0 = seq(k.get('x0'))
            c.prove('%s: one bound and start per parameter' % model, len(bl) == len(bh) == len(x0) == len(lo))
            for i in range(len(lo)):
                for nm, g, e in (('lower', bl[i], lo[i]), ('upper', bh[i], hi[i])):
                    if isinstance(e, float) or isinstance(g, float):
                        c.prove('%s: %s bound of parameter %d' % (model, nm, i), isinstance(e, float) and isinstance(g, float) and e == g)
                    else:
                        c.same_elem('%s: %s bound of parameter %d' % (model, nm, i), g, e)
                q = eng.pv.sk('i')
                c.prove('%s: start above the lower bound %d' % (model, i), cmp('>=', x0[i], lo[i]))
                if not isinstance(hi[i], float):
                    c.prove('%s: start below the upper bound %d' % (model, i), cmp('<=', x0[i], hi[i]))
                    c.prove('%s: nondegenerate bounds %d' % (model, i), cmp('<', lo[i], hi[i]))
        # experimental variogram: nonnegative, at least two distinct lags and semivariances
        c.run(model, lambda: eng.call(f, [lags, semi, model, vf, w], {}),
              [n >= 2, toz(cmp('>=', sl, 0)), toz(cmp('>=', ss, 0)), toz(cmp('<', sl, xl)), toz(cmp('<', ss, xs))], post)


@unit('semivariogram bins partition the pairs', 'P10')
def partition(c):
    """lemmas over the bins of the contract of _initialize_variogram_model"""
    d, dmin, dmax, w = c.real('d'), c.real('dmin'), c.real('dmax'), c.real('w')
    nlags, b, b2 = c.int('nlags'), c.int('b'), c.int('b2')
    spec = Binning(None, None, None, nlags, True)
    inside = spec.edges(dmin, dmax)
    base = [nlags >= 1, dmin <= dmax, dmin <= d, d <= dmax]
    ww = toz(div(sub(dmax, dmin), toz(nlags, R)), R)
    # the width by its defining equation
    wd = [ww == w, w * z3.ToReal(nlags) == dmax - dmin, w >= 0]
    lo = lambda k: dmin + z3.ToReal(k) * w
    ins = lambda k: z3.And(d >= lo(k), z3.Or(k + 1 == nlags, d < lo(k + 1)))
    c.lemma('bins are as in the contract', base + wd + [0 <= b, b < nlags], toz(inside(b, d), B) == z3.And(d >= dmin + ww * z3.ToReal(b), z3.Or(b + 1 == nlags, d < dmin + ww * (z3.ToReal(b) + 1))))
    c.lemma('no pair in two bins', base + wd[1:] + [0 <= b, b < b2, b2 < nlags, ins(b), z3.ToReal(b + 1) * w <= z3.ToReal(b2) * w], z3.Not(ins(b2)))
    c.lemma('edges ascend', [w >= 0, b < b2], z3.ToReal(b + 1) * w <= z3.ToReal(b2) * w)
    t = c.real('t')
    k = z3.If(z3.ToInt(t) < nlags, z3.ToInt(t), nlags - 1)
    fl = [z3.ToReal(z3.ToInt(t)) <= t, t < z3.ToReal(z3.ToInt(t)) + 1]
    c.lemma('every pair in some bin, positive width: index', base + [w > 0, t * w == d - dmin] + fl, z3.And(0 <= k, k < nlags))
    j = c.int('j')
    c.lemma('every pair in some bin, positive width: lower bins', base + wd[1:] + [w > 0, t * w == d - dmin, z3.ToReal(j) <= t, t < z3.ToReal(j) + 1, j < nlags], ins(j))
    c.lemma('every pair in some bin, positive width: last bin', base + wd[1:] + [w > 0, t * w == d - dmin, z3.ToReal(nlags) <= t], ins(nlags - 1))
    c.lemma('every pair in some bin, zero width', base + wd[1:] + [w == 0], ins(nlags - 1))
