"""Contracts: the GSTools validation and the scikit-learn style wrappers (P25, P15, P16, P17).

The wrapped classes appear through a recording contract: the arguments of the call, bound to the current signature of the class,
are compared with the documented ones (an option that is not given counts as the default of the class)."""
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *
from .interp import External, Member
from .prover import ho_head
from .npmodel import isinstance_

CP = 'pykrige.compat.'
METHODS = {'ordinary': ('pykrige.ok.OrdinaryKriging', 2), 'universal': ('pykrige.uk.UniversalKriging', 2),
           'ordinary3d': ('pykrige.ok3d.OrdinaryKriging3D', 3), 'universal3d': ('pykrige.uk3d.UniversalKriging3D', 3)}
OPTIONS = ('variogram_model', 'nlags', 'weight', 'n_closest_points', 'verbose', 'exact_values', 'pseudo_inv', 'pseudo_inv_type',
           'variogram_parameters', 'variogram_function', 'enable_statistics', 'coordinates_type', 'drift_terms', 'point_drift', 'functional_drift')


class Tok(External):
    """an option value: nothing is known about it but its identity"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


# ------------------------------------------------------------ GSTools
class Version(External):
    """text 'major.minor...'"""

    def __init__(self, *parts):
        self.parts = parts

    def getattr(self, eng, name):
        if name == 'split':
            return Prim('split', lambda e, args, kw: PList(e.heap, [Part(p) for p in self.parts]) if tuple(args) == ('.',) else self.no())
        raise Unsupported('version text: ' + name)

    def no(self):
        raise Unsupported('split of the version text')


class Part(External):
    def __init__(self, i):
        self.i = i

    def to_int(self):
        return self.i


class CovModel(External):
    def __init__(self, c):
        self.isa, self.latlon = c.boolean('is_covmodel'), c.boolean('latlon')

    def isinstance(self, eng, x):
        if getattr(x, 'name', None) != 'CovModel':
            raise Unsupported('isinstance %s' % getattr(x, 'name', x))
        return eng.decide(self.isa)

    def getattr(self, eng, name):
        if name == 'latlon' and eng.entails(self.isa):
            return self.latlon
        raise Raise('AttributeError', name)


@unit('compat_gstools.validate_gstools', 'P25')
def validate(c):
    m, n = c.int('major'), c.int('minor')
    c.eng.externals['gstools.__version__'] = Version(m, n, c.int('patch'))
    c.assumed.append('the version of GSTools starts with two numbers')
    f = c.func('pykrige.compat_gstools.validate_gstools')
    mod = CovModel(c)
    below = lambda a, b: z3.Or(m < a, z3.And(m == a, n < b))
    bad = z3.Or(z3.Not(mod.isa), below(1, 3), z3.And(mod.latlon, below(1, 4)))
    c.run('installed', lambda: c.eng.call(f, [mod], {}), [m >= 0, n >= 0], lambda v: c.prove('accepted: a CovModel of a supported version', z3.Not(bad)),
          lambda e: b_and(e.kind == 'GSToolsException', bad))


@unit('compat_gstools.validate_gstools[not installed]', 'P25')
def validate_missing(c):
    c.eng.missing.add('gstools')
    f = c.func('pykrige.compat_gstools.validate_gstools')
    c.run('not installed', lambda: c.eng.call(f, [CovModel(c)], {}), [], lambda v: c.eng.fail('refused when GSTools is missing', 'accepted'),
          lambda e: e.kind == 'GSToolsException', total=False)


# ------------------------------------------------------------ the wrapper
def sklearn(c):
    X = c.eng.externals
    for n in ('BaseEstimator', 'RegressorMixin', 'ClassifierMixin'):
        X.setdefault('sklearn.base.' + n, Cls(n, {}, [], Mod('sklearn.base')))
    X['sklearn.svm.SVR'] = X['sklearn.svm.SVC'] = Prim('svm', lambda e, a, kw: Tok('svm'))
    c.assumed.append('scikit-learn base classes define no attribute the wrappers use')


def options(tag, short):
    """keyword arguments of the wrapper; short: single-valued anisotropy tuples"""
    kw = {k: Tok(k + tag) for k in OPTIONS}
    k = 1 if short else 0
    kw['anisotropy_scaling'] = tuple(Tok('scaling%d%s' % (i, tag)) for i in range(1 if short else 2))
    kw['anisotropy_angle'] = tuple(Tok('angle%d%s' % (i, tag)) for i in range(1 if short else 3))
    kw['ext_drift_grid'] = tuple(Tok(n + tag) for n in ('drift', 'drift_x', 'drift_y'))
    return kw


def same(a, b):
    """the same Python value"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return not isinstance(a, External) and not isinstance(b, External) and not is_z(a) and not is_z(b) and type(a) is type(b) \
        and isinstance(a, (str, bool, int, Fraction, float)) and a == b


def recorder(name, result=None):
    """contract of a callee that records how it was called"""
    def f(eng, fn, args, kw):
        b = eng.bind(fn, args, kw)
        eng.setattr(b['self'], name, b)
        return result(b) if result else None
    return f


def check_call(c, lab, fn, b, want, dims, cols):
    """the bound arguments b are the documented ones: want, the coordinate columns cols, otherwise the defaults"""
    eng = c.eng
    names = [x.arg for x in fn.node.args.args]
    dflt = dict(zip(names[len(names) - len(fn.defaults):], fn.defaults))
    for p in names:
        if p == 'self':
            continue
        v = eng.force(b[p])
        if p in cols:
            arr, sh, at = cols[p]
            c.array_is('%s: %s' % (lab, p), v, sh, at)
        elif p in want:
            c.prove('%s: option %s arrives' % (lab, p), same(v, want[p]))
        elif p in dflt:
            c.prove('%s: %s has its default' % (lab, p), same(v, eng.force(dflt[p])))
        else:
            eng.fail('%s: argument %s' % (lab, p), 'not documented')


def fit_options(kw, method, y):
    """the documented destination of each wrapper option, by parameter of the class"""
    w = {k: kw[k] for k in OPTIONS if k != 'n_closest_points'}
    sc, an = kw['anisotropy_scaling'], kw['anisotropy_angle']
    if method.endswith('3d'):
        w.update(anisotropy_scaling_y=sc[0], anisotropy_scaling_z=sc[1], anisotropy_angle_x=an[0], anisotropy_angle_y=an[1], anisotropy_angle_z=an[2])
    else:
        w.update(anisotropy_scaling=sc[0], anisotropy_angle=an[0], external_drift=kw['ext_drift_grid'][0],
                 external_drift_x=kw['ext_drift_grid'][1], external_drift_y=kw['ext_drift_grid'][2])
    return w


def columns(A, n, nd, names):
    return {nm: (A, (n,), lambda q, k=k: A.get((q[0], k))) for k, nm in enumerate(names[:nd])}


def wrapper_unit(method):
    cls, nd = METHODS[method]

    def f(c):
        eng = c.eng
        sklearn(c)
        n, m, k = c.int('n'), c.int('m'), c.int('k')
        K = c.func(CP + 'Krige')
        con = eng.contracts
        ZP, SP = c.array('ZPRED', (m,)), c.array('SPRED', (m,))
        made = c.func(cls)
        init, ex = made.lookup('__init__'), made.lookup('execute')
        for q, d in METHODS.values():
            con[q + '.__init__'] = recorder('made')
            con[q + '.execute'] = recorder('called', lambda b: (ZP, SP))
        x, y, p = c.array('x', (n, nd)), c.array('y', (n,)), c.array('p', (m, nd))
        val = 'val' if nd == 3 else 'z'

        def is_class(o):
            c.prove('the class of the method is constructed', isinstance(o, Obj) and o.cls is made)
            return isinstance(o, Obj) and 'made' in o.attrs

        for lab, short, late in (('options of the construction', False, False), ('options set later', False, True)) + ((('single values', True, False),) if nd == 2 else ()):
            kw, kw2 = options('', short), options("'", short)

            def go():
                w = eng.call(K, [], dict(kw, method=method))
                if late:
                    for a, v in kw2.items():
                        eng.setattr(w, a, v)
                eng.call(eng.getattr(w, 'fit'), [x, y], {})
                return w
            use = kw2 if late else kw

            def post(w):
                o = eng.force(eng.getattr(w, 'model'))
                if is_class(o):
                    cols = columns(x, n, nd, 'xyz')
                    cols[val] = (y, (n,), lambda q: y.get(q))
                    check_call(c, '%s: fit' % lab, init, o.attrs['made'], fit_options(use, method, y), nd, cols)
                for a, v in use.items():
                    c.prove('%s: the option %s is kept' % (lab, a), same(eng.force(eng.getattr(w, a)), v))
            c.run('%s: fit' % lab, go, [n >= 1], post)

            extra = dict(mask=Tok('mask'), specified_drift_arrays=Tok('specified')) if 'universal' in method else dict(mask=Tok('mask'))
            for how, ekw in (('plain', {}), ('backend given', dict(backend=Tok('backend'))), ('all given', dict(extra, backend=Tok('backend'), style=Tok('style')))):
                for fn_ in ('predict', 'execute'):
                    def go2():
                        w = go()
                        if fn_ == 'predict':
                            r = eng.call(eng.getattr(w, 'predict'), [p], dict(ekw))
                        else:
                            d = PDict(eng.heap, {nm: eng.np.view(p, [SliceV(None, None, None), q]) for q, nm in enumerate(('xpoints', 'ypoints', 'zpoints')[:nd])})
                            r = eng.call(eng.getattr(w, 'execute'), [d], dict(ekw))
                        return w, r

                    def post2(v):
                        w, r = v
                        l2 = '%s: %s, %s' % (lab, fn_, how)
                        o = eng.force(eng.getattr(w, 'model'))
                        if not is_class(o) or 'called' not in o.attrs:
                            eng.fail(l2, 'the model is not executed')
                            return
                        want = dict(style='points', backend='loop')
                        want.update(ekw)
                        if 'ordinary' in method:
                            want['n_closest_points'] = use['n_closest_points']
                        check_call(c, l2, ex, o.attrs['called'], want, nd, columns(p, m, nd, ('xpoints', 'ypoints', 'zpoints')))
                        if fn_ == 'predict':
                            c.array_is(l2 + ': the first result', r, (m,), lambda q: ZP.get(q))
                        else:
                            r = eng.force(r)
                            c.prove(l2 + ': two results', isinstance(r, (tuple, PList)))
                            items = list(r) if isinstance(r, tuple) else r.items
                            c.array_is(l2 + ': prediction', items[0], (m,), lambda q: ZP.get(q))
                            c.array_is(l2 + ': variance', items[1], (m,), lambda q: SP.get(q))
                    c.run('%s: %s, %s' % (lab, fn_, how), go2, [n >= 1, m >= 1], post2)
        # refusals
        xk, pk = c.array('xk', (n, k)), c.array('pk', (m, k))
        kw = options('', False)
        new = lambda: eng.call(K, [], dict(kw, method=method))

        def fit_wrong():
            eng.call(eng.getattr(new(), 'fit'), [xk, y], {})
        c.run('points of any dimension: fit', fit_wrong, [n >= 1, k >= 1], lambda v: c.prove('accepted: the right dimension', k == nd),
              lambda e: b_and(e.kind == 'ValueError', k != nd))

        def predict_wrong():
            w = new()
            eng.call(eng.getattr(w, 'fit'), [x, y], {})
            return eng.call(eng.getattr(w, 'predict'), [pk], {})
        c.run('points of any dimension: predict', predict_wrong, [n >= 1, m >= 1, k >= 1], lambda v: c.prove('accepted: the right dimension', k == nd),
              lambda e: b_and(e.kind == 'ValueError', k != nd))
        c.run('before fitting', lambda: eng.call(eng.getattr(new(), 'predict'), [p], {}), [m >= 1], lambda v: eng.fail('refused before fitting', 'accepted'),
              lambda e: True, total=False)
    unit('compat.Krige[%s]' % method, 'P15')(f)


for _m in METHODS:
    wrapper_unit(_m)


@unit('compat.Krige[unknown method]', 'P15')
def unknown(c):
    sklearn(c)
    for nm in ('kriging', 'Ordinary', '', 'ordinary2d'):
        c.run(repr(nm), lambda: c.eng.call(c.func(CP + 'Krige'), [], dict(method=nm)), [], lambda v: c.eng.fail('an unknown method is refused', 'accepted'),
              lambda e: e.kind == 'ValueError', total=False)


@unit('compat.check_sklearn_model', 'P16', 'P17')
def check_model(c):
    sklearn(c)
    f = c.func(CP + 'check_sklearn_model')
    X = c.eng.externals
    base, reg, cla = [X['sklearn.base.' + n] for n in ('BaseEstimator', 'RegressorMixin', 'ClassifierMixin')]
    for bs in ([], [base], [reg], [cla], [base, reg], [base, cla], [reg, cla], [base, reg, cla]):
        o = Obj(c.eng.heap, Cls('Model', {}, bs, Mod('user')))
        for task, need in (('regression', reg), ('classification', cla)):
            ok = base in bs and need in bs
            lab = '%s, %s' % (task, '+'.join(b.name for b in bs))
            c.run(lab, lambda: c.eng.call(f, [o], dict(task=task)), [], lambda v: c.prove('accepted: an estimator of the task', ok),
                  lambda e: e.kind == 'RuntimeError' and not ok, total=False)


# ------------------------------------------------------------ regression kriging
class Rows(External):
    """features: only their identity and number matter"""

    def __init__(self, name, n):
        self.name, self.n = name, n


def predictor(c, kind):
    """an estimator: fit records, predict is an unknown function of the features"""
    X = c.eng.externals
    PR = {}

    def fit(e, args, kw):
        o, p, y = args
        e.setattr(o, 'fitted', (p, y))
        return o

    def predict(e, args, kw):
        o, p = args
        if 'fitted' not in o.attrs:
            raise Raise('NotFittedError')
        if not isinstance(p, Rows):
            raise Unsupported('features other than those of the caller')
        f = PR.setdefault(p.name, z3.Function('PRED_' + p.name, I, R))
        return e.np.new((p.n,), lambda q: f(toz(q[0], I)), 'f')
    cls = Cls('Estimator', dict(fit=Prim('fit', fit), predict=Prim('predict', predict)), [X['sklearn.base.BaseEstimator'], X['sklearn.base.' + kind]], Mod('user'))
    return Obj(c.eng.heap, cls), lambda p, i: z3.Function('PRED_' + p.name, I, R)(toz(i, I))


@unit('rk.RegressionKriging', 'P16')
def regression(c):
    eng = c.eng
    sklearn(c)
    n, m = c.int('n'), c.int('m')
    K = c.func(CP + 'Krige')
    RK = c.func('pykrige.rk.RegressionKriging')
    P, Q = Rows('train', n), Rows('new', m)
    x, xn, y = c.array('x', (n, 2)), c.array('xnew', (m, 2)), c.array('y', (n,))
    KR = c.array('KRIGED', (m,))
    con = eng.contracts
    con[CP + 'Krige.__init__'] = recorder('made')
    con[CP + 'Krige.fit'] = recorder('fitted')
    con[CP + 'Krige.predict'] = recorder('predicted', lambda b: KR)
    model, pred = predictor(c, 'RegressorMixin')
    kw = options('', False)
    kw['method'] = Tok('method')

    def go():
        w = eng.call(RK, [], dict(kw, regression_model=model))
        eng.call(eng.getattr(w, 'fit'), [P, x, y], {})
        return w

    def kriger(w):
        ks = [v for v in w.attrs.values() if isinstance(v, Obj) and v.cls is K]
        c.prove('one kriging model', len(ks) == 1)
        return ks[0]

    def post(w):
        o = kriger(w)
        init = K.lookup('__init__')
        check_call(c, 'options', init, o.attrs['made'], kw, 0, {})
        for a in kw:
            c.prove('the wrapper takes the option ' + a, a in o.attrs['made'])
        p_, y_ = model.attrs.get('fitted', (None, None))
        c.prove('the regressor is fitted on the features', p_ is P)
        c.array_is('the regressor is fitted on the targets', y_, (n,), lambda q: y.get(q))
        b = o.attrs.get('fitted')
        if b is None:
            eng.fail('the residuals are kriged', 'not fitted')
            return
        c.array_is('the residuals are kriged at the training locations', b['x'], (n, 2), lambda q: x.get(q))
        c.array_is('the residuals: target minus fitted value', b['y'], (n,), lambda q: sub(y.get(q), pred(P, q[0])))
    c.run('fit', go, [n >= 1], post)
    for how, ekw in (('plain', {}), ('with options', dict(backend=Tok('backend'), style=Tok('style')))):
        def go2():
            w = go()
            return w, eng.call(eng.getattr(w, 'predict'), [Q, xn], dict(ekw))

        def post2(v):
            w, r = v
            b = kriger(w).attrs.get('predicted')
            if b is None:
                eng.fail('the kriged residual', 'not predicted')
                return
            c.array_is('%s: residuals kriged at the points' % how, b['x'], (m, 2), lambda q: xn.get(q))
            rest = [u for u in b.values() if isinstance(u, PDict)]
            c.prove('%s: options handed on' % how, len(rest) == 1 and set(rest[0].d) == set(ekw) and all(rest[0].d[k] is ekw[k] for k in ekw))
            c.array_is('%s: regression prediction plus kriged residual' % how, r, (m,), lambda q: add(pred(Q, q[0]), KR.get(q)))
        c.run('predict, ' + how, go2, [n >= 1, m >= 1], post2)
    # at the training points exact kriging returns the residual, hence the target
    c.lemma('targets at the training points', [], cmp('==', add(c.real('f'), sub(c.real('t'), c.real('f'))), c.real('t')))


# ------------------------------------------------------------ classification kriging
CK = 'pykrige.ck.'
HELM = z3.Function('HELMERT', I, I, I, R)          # Helmert matrix of k columns: row, column
EPS = Fraction(1, 2 ** 52)


def install_helmert(c):
    def helmert(e, args, kw):
        k = e.force(args[0])
        full = e.force(kw.get('full', args[1] if len(args) > 1 else False))
        if full is not False:
            raise Unsupported('full Helmert matrix')
        return e.np.new((sub(k, 1), k), lambda q: HELM(toz(k, I), toz(q[0], I), toz(q[1], I)), 'f')
    c.eng.externals['scipy.linalg.helmert'] = Prim('helmert', helmert)
    X = c.eng.externals
    X['sklearn.preprocessing.OneHotEncoder'] = Prim('OneHotEncoder', lambda e, a, kw: OneHot(c, e, kw))
    c.assumed.append('scipy.linalg.helmert returns the Helmert matrix; OneHotEncoder returns indicators of the given categories')


class OneHot(External):
    def __init__(self, c, eng, kw):
        if set(kw) != {'categories'} or kw['categories'].length() != 1:
            raise Unsupported('options of OneHotEncoder')
        self.cat = eng.np.asarr(eng.force(kw['categories'].items[0]))

    def getattr(self, eng, name):
        if name != 'fit_transform':
            raise Unsupported('OneHotEncoder.' + name)

        def ft(e, args, kw):
            y = e.force(args[0])
            if not isinstance(y, Arr) or y.ndim != 2 or y.shape[1] != 1:
                raise Raise('ValueError')
            return Sparse(e.np.new((y.shape[0], self.cat.shape[0]), lambda q: ite(cmp('==', y.get((q[0], 0)), self.cat.get((q[1],))), Fraction(1), Fraction(0)), 'f'))
        return Prim('fit_transform', ft)


class Sparse(External):
    def __init__(self, a):
        self.a = a

    def getattr(self, eng, name):
        if name in ('todense', 'toarray'):
            return Prim(name, lambda e, args, kw: self.a)
        raise Unsupported('sparse matrix: ' + name)


def clog(v):
    """the logarithm of a proportion, with zeros replaced by the least positive step"""
    return t_log(maxv(v, EPS))


def ilr_spec(row, k, j):
    return neg(mk_sum(k, lambda q: mul(clog(row(q)), HELM(toz(k, I), toz(j, I), toz(q, I)))))


def inverse_spec(row, k, j):
    """k proportions from k - 1 coordinates"""
    part = lambda q: t_exp(neg(mk_sum(sub(k, 1), lambda r: mul(row(r), HELM(toz(k, I), toz(r, I), toz(q, I))))))
    return div(part(j), mk_sum(k, part))


@unit('ck.ilr_transformation', 'P17')
def ilr(c):
    sklearn(c)
    install_helmert(c)
    n, k = c.int('n'), c.int('k')
    d, z = c.array('d', (n, k)), c.array('z', (n, k))
    f, g, h = c.func(CK + 'ilr_transformation'), c.func(CK + 'inverse_ilr_transformation'), c.func(CK + 'closure')
    c.run('ilr', lambda: c.eng.call(f, [d], {}), [n >= 1, k >= 2],
          lambda v: c.array_is('ilr: minus the Helmert combination of the logarithms', v, (n, sub(k, 1)), lambda q: ilr_spec(lambda j: d.get((q[0], j)), k, q[1])))
    c.run('inverse', lambda: c.eng.call(g, [z], {}), [n >= 1, k >= 1],
          lambda v: c.array_is('inverse: closed exponentials of the back-rotated coordinates', v, (n, add(k, 1)), lambda q: inverse_spec(lambda j: z.get((q[0], j)), add(k, 1), q[1])))
    c.run('closure', lambda: c.eng.call(h, [d], {}), [n >= 1, k >= 1],
          lambda v: c.array_is('closure: rows divided by their sums', v, (n, k), lambda q: div(d.get(q), mk_sum(k, lambda j: d.get((q[0], j))))))


def classifier_unit(K):
    def f(c):
        eng = c.eng
        sklearn(c)
        install_helmert(c)
        n, m = c.int('n'), c.int('m')
        KR = c.func(CP + 'Krige')
        CKr = c.func(CK + 'ClassificationKriging')
        P, Q = Rows('train', n), Rows('new', m)
        x, xn = c.array('x', (n, 2)), c.array('xnew', (m, 2))
        y = c.array('y', (n, 1), kind='i')
        labels = c.array('labels', (K,), kind='i')
        pre = [n >= 1, m >= 1] + [labels.get((i,)) != labels.get((j,)) for i in range(K) for j in range(i)]
        ILR, INV = ho_head('ILROW%d' % K, I, T.LAM1, I, R), ho_head('INVROW%d' % K, I, T.LAM1, I, R)
        con = eng.contracts
        con[CP + 'Krige.__init__'] = recorder('made')
        con[CP + 'Krige.fit'] = recorder('fitted')
        ans = z3.Function('KRIGED', I, I, R)

        def predicted(b):
            o = b['self']
            i = o.attrs.get('index')
            if i is None:
                raise Unsupported('a kriging model that was not fitted')
            return eng.np.new((m,), lambda q: ans(z3.IntVal(i), toz(q[0], I)), 'f')
        con[CP + 'Krige.predict'] = recorder('predicted', predicted)

        def row_contract(hd, ncol, out):
            def sp(e, fn, args, kw):
                a = e.np.asarr(e.force(list(e.bind(fn, args, kw).values())[0]))
                e.oblige('precondition: %d columns' % ncol, b_and(a.ndim == 2, cmp('==', a.shape[1], ncol) if a.ndim == 2 else False))
                rd = a.reader()
                return e.np.new((a.shape[0], out), lambda q: hd(z3.IntVal(ncol), T.lam(lambda j: toz(rd((q[0], j)), R)), toz(q[1], I)), 'f')
            return sp
        con[CK + 'ilr_transformation'] = row_contract(ILR, K, K - 1)
        con[CK + 'inverse_ilr_transformation'] = row_contract(INV, K - 1, K)
        X = eng.externals

        def fit(e, args, kw):
            o, p, t = args
            e.setattr(o, 'fitted', (p, t))
            e.setattr(o, 'classes_', labels)
            return o

        def proba(e, args, kw):
            o, p = args
            if 'fitted' not in o.attrs:
                raise Raise('NotFittedError')
            if not isinstance(p, Rows):
                raise Unsupported('features other than those of the caller')
            g = z3.Function('PROBA_' + p.name, I, I, R)
            return e.np.new((p.n, K), lambda q: g(toz(q[0], I), toz(q[1], I)), 'f')
        cls = Cls('Estimator', dict(fit=Prim('fit', fit), predict_proba=Prim('predict_proba', proba)),
                  [X['sklearn.base.BaseEstimator'], X['sklearn.base.ClassifierMixin']], Mod('user'))
        model = Obj(eng.heap, cls)
        kw = options('', False)
        kw['method'] = Tok('method')
        pr = lambda p, i: lambda j: z3.Function('PROBA_' + p.name, I, I, R)(toz(i, I), toz(j, I))
        ilr_ = lambda row, j: ILR(z3.IntVal(K), T.lam(lambda q: toz(row(q), R)), toz(j, I))

        def residual(i, j):
            hot = lambda q: ite(cmp('==', y.get((i, 0)), labels.get((q,))), Fraction(1), Fraction(0))
            return sub(ilr_(hot, j), ilr_(pr(P, i), j))

        def go():
            w = eng.call(CKr, [], dict(kw, classification_model=model))
            eng.call(eng.getattr(w, 'fit'), [P, x, y], {})
            ks = w.attrs.get('krige')
            if isinstance(ks, PList) and ks.concrete:
                for i, o in enumerate(ks.items):
                    eng.setattr(o, 'index', i)
            return w

        def krigers(w):
            ks = w.attrs.get('krige')
            ok = isinstance(ks, PList) and ks.concrete and len(ks.items) == K - 1 and all(isinstance(o, Obj) and o.cls is KR for o in ks.items) and len({id(o) for o in ks.items}) == K - 1
            c.prove('one kriging model per coordinate', ok)
            return ks.items if ok else []

        def post(w):
            p_, y_ = model.attrs.get('fitted', (None, None))
            c.prove('the classifier is fitted on the features', p_ is P)
            c.array_is('the classifier is fitted on the labels', y_, (n,), lambda q: y.get((q[0], 0)))
            for j, o in enumerate(krigers(w)):
                check_call(c, 'options of model %d' % j, KR.lookup('__init__'), o.attrs['made'], kw, 0, {})
                b = o.attrs.get('fitted')
                if b is None:
                    eng.fail('coordinate %d is kriged' % j, 'not fitted')
                    continue
                c.array_is('coordinate %d kriged at the training locations' % j, b['x'], (n, 2), lambda q: x.get(q))
                c.array_is('coordinate %d: indicator minus fitted probabilities, transformed' % j, b['y'], (n,), lambda q: residual(q[0], j))
        c.run('fit', go, pre, post)
        for how, ekw in (('plain', {}), ('with options', dict(backend=Tok('backend'), style=Tok('style')))):
            def go2():
                w = go()
                return w, eng.call(eng.getattr(w, 'predict'), [Q, xn], dict(ekw))

            def post2(v):
                w, r = v
                for j, o in enumerate(krigers(w)):
                    b = o.attrs.get('predicted')
                    if b is None:
                        eng.fail('%s: coordinate %d' % (how, j), 'not predicted')
                        return
                    c.array_is('%s: coordinate %d at the points' % (how, j), b['x'], (m, 2), lambda q: xn.get(q))
                    rest = [u for u in b.values() if isinstance(u, PDict)]
                    c.prove('%s: options handed on' % how, len(rest) == 1 and set(rest[0].d) == set(ekw) and all(rest[0].d[k] is ekw[k] for k in ekw))
                r = eng.force(r)
                c.prove('%s: one label per point' % how, b_and(r.ndim == 1, cmp('==', r.shape[0], m)))
                i = eng.pv.sk('i')
                # the label whose probability is largest (the first of several)
                coord = lambda j: add(ans(toz(j, I), i), ilr_(pr(Q, i), j))
                q = [INV(z3.IntVal(K - 1), T.lam(lambda j: toz(coord(j), R)), z3.IntVal(k)) for k in range(K)]
                lab = r.get((i,))
                here = [0 <= i, i < m]
                for k in range(K):
                    c.prove('%s: the label of the largest probability, class %d' % (how, k), cmp('==', lab, labels.get((k,))),
                            here + [q[k] > q[t] for t in range(K) if t != k])
                c.prove('%s: a label of a largest probability' % how,
                        b_or(*[b_and(cmp('==', lab, labels.get((k,))), *[q[k] >= q[t] for t in range(K)]) for k in range(K)]), here)
            c.run('predict, ' + how, go2, pre, post2)
    unit('ck.ClassificationKriging[%d classes]' % K, 'P17')(f)


for _k in (2, 3):
    classifier_unit(_k)


class Krigers(External):
    """the kriging models of the classifier, one per coordinate: what each was fitted
    with (rows of an array) and whether it was fitted"""

    def __init__(self, env):
        eng, K1, n = env.eng, env.K1, env.n
        self.env = env
        u = eng.fresh.fn('uninit', I, I, R)
        self.target = eng.np.new((K1, n), lambda q: u(toz(q[0], I), toz(q[1], I)), 'f')
        self.fitted = eng.np.new((K1,), lambda q: False, 'b')

    def getattr(self, eng, i, name):
        env = self.env
        fn = env.KR.lookup(name)
        if name == 'fit':
            def fit(e, args, kw):
                b = e.bind(fn, [None] + list(args), kw)
                env.arrays('coordinate kriged at the training locations', b['x'], (env.n, 2), lambda q: env.x.get(q))
                y = e.np.asarr(e.force(b['y']))
                e.oblige('one value per training location', b_and(y.ndim == 1, cmp('==', y.shape[0], env.n) if y.ndim == 1 else False))
                e.np.store(e, self.target, (i, SliceV(None, None, None)), y)
                e.np.store(e, self.fitted, (i,), True)
            return Prim('fit', fit)
        if name == 'predict':
            def predict(e, args, kw):
                b = e.bind(fn, [None] + list(args), kw)
                env.arrays('coordinate predicted at the points', b['x'], (env.m, 2), lambda q: env.xn.get(q))
                rest = [u for u in b.values() if isinstance(u, PDict)]
                e.oblige('options handed on', len(rest) == 1 and set(rest[0].d) == set(env.ekw) and all(rest[0].d[k] is env.ekw[k] for k in env.ekw))
                e.oblige('the model is fitted before it predicts', self.fitted.get((i,)))
                return e.np.new((env.m,), lambda q: env.ans(toz(i, I), toz(q[0], I)), 'f')
            return Prim('predict', predict)
        raise Unsupported('attribute %s of a kriging model' % name)


@unit('ck.ClassificationKriging[any number of classes]', 'P17')
def classifier_any(c):
    eng = c.eng
    sklearn(c)
    install_helmert(c)
    n, m, K = c.int('n'), c.int('m'), c.int('K')
    KR, CKr = c.func(CP + 'Krige'), c.func(CK + 'ClassificationKriging')
    P, Q = Rows('train', n), Rows('new', m)
    labels = c.array('labels', (K,), kind='i')
    y = c.array('y', (n, 1), kind='i')
    pre = [n >= 1, m >= 1, K >= 2]
    ILR, INV = ho_head('ILROW', I, T.LAM1, I, R), ho_head('INVROW', I, T.LAM1, I, R)
    kw = options('', False)
    kw['method'] = Tok('method')

    class Env:
        pass
    env = Env()
    env.eng, env.K1, env.n, env.m, env.KR, env.ekw = eng, sub(K, 1), n, m, KR, {}
    env.x, env.xn = c.array('x', (n, 2)), c.array('xnew', (m, 2))
    env.ans = z3.Function('KRIGED', I, I, R)

    def arrays(lab, v, sh, at):
        a = eng.np.asarr(eng.force(v))
        eng.oblige(lab + ': shape', b_and(a.ndim == len(sh), *[cmp('==', s, t) for s, t in zip(a.shape, sh)]))
        q = tuple(eng.pv.sk() for _ in sh)
        if a.ndim == len(sh):
            eng.oblige(lab, z3.Implies(toz(b_and(*[b_and(0 <= i, cmp('<', i, s)) for i, s in zip(q, sh)])), toz(cmp('==', a.get(q), at(q)))))
    env.arrays = arrays

    def made(e, args, kws):
        b = e.bind(KR.lookup('__init__'), [None] + list(args), kws)
        names = [p for p in b if p != 'self']
        for p in names:
            if p in kw:
                e.oblige('option %s arrives' % p, same(e.force(b[p]), kw[p]))
        e.oblige('every option arrives', set(kw) <= set(names))
        return Member(None, make=lambda: Krigers(env))
    eng.factories[KR] = made

    def row_contract(hd, ncol, out):
        def sp(e, fn, args, kws):
            a = e.np.asarr(e.force(list(e.bind(fn, args, kws).values())[0]))
            e.oblige('precondition: columns', b_and(a.ndim == 2, cmp('==', a.shape[1], ncol) if a.ndim == 2 else False))
            rd = a.reader()
            return e.np.new((a.shape[0], out), lambda q: hd(toz(ncol, I), T.lam(lambda j: toz(rd((q[0], j)), R)), toz(q[1], I)), 'f')
        return sp
    eng.contracts[CK + 'ilr_transformation'] = row_contract(ILR, K, sub(K, 1))
    eng.contracts[CK + 'inverse_ilr_transformation'] = row_contract(INV, sub(K, 1), K)
    X = eng.externals

    def fit(e, args, kws):
        o, p, t = args
        e.setattr(o, 'fitted', (p, t))
        e.setattr(o, 'classes_', labels)
        return o
    PROBA = lambda name: z3.Function('PROBA_' + name, I, I, R)

    def proba(e, args, kws):
        o, p = args
        if 'fitted' not in o.attrs:
            raise Raise('NotFittedError')
        if not isinstance(p, Rows):
            raise Unsupported('features other than those of the caller')
        g = PROBA(p.name)
        return e.np.new((p.n, K), lambda q: g(toz(q[0], I), toz(q[1], I)), 'f')
    model = Obj(eng.heap, Cls('Estimator', dict(fit=Prim('fit', fit), predict_proba=Prim('predict_proba', proba)),
                              [X['sklearn.base.BaseEstimator'], X['sklearn.base.ClassifierMixin']], Mod('user')))
    pr = lambda p, i: lambda j: PROBA(p.name)(toz(i, I), toz(j, I))
    ilr_ = lambda row, j: ILR(K, T.lam(lambda q: toz(row(q), R)), toz(j, I))

    def residual(i, j):
        hot = lambda q: ite(cmp('==', y.get((i, 0)), labels.get((q,))), Fraction(1), Fraction(0))
        return sub(ilr_(hot, j), ilr_(pr(P, i), j))

    def go():
        w = eng.call(CKr, [], dict(kw, classification_model=model))
        eng.call(eng.getattr(w, 'fit'), [P, env.x, y], {})
        return w

    def post(w):
        p_, y_ = model.attrs.get('fitted', (None, None))
        c.prove('the classifier is fitted on the features', p_ is P)
        c.array_is('the classifier is fitted on the labels', y_, (n,), lambda q: y.get((q[0], 0)))
        ks = w.attrs.get('krige')
        j, i = eng.pv.sk('j'), eng.pv.sk('i')
        o = ks.elem(j) if isinstance(ks, PList) and not ks.items and not ks.concrete else None
        ok = isinstance(o, Member) and isinstance(o.fam, Krigers) and is_z(o.i) and o.i.eq(j)
        c.prove('one kriging model per coordinate', b_and(ok, cmp('==', ks.n, sub(K, 1)) if ok else False))
        if ok:
            here = [0 <= j, j < K - 1, 0 <= i, i < n]
            c.prove('every coordinate is kriged', o.fam.fitted.get((j,)), here)
            c.same_elem('coordinate j: indicator minus fitted probabilities, transformed', o.fam.target.get((j, i)), residual(i, j), here)
    c.run('fit', go, pre, post)
    for how, ekw in (('plain', {}), ('with options', dict(backend=Tok('backend'), style=Tok('style')))):
        def go2():
            env.ekw = ekw
            w = go()
            return w, eng.call(eng.getattr(w, 'predict'), [Q, env.xn], dict(ekw))

        def post2(v):
            w, r = v
            r = eng.force(r)
            c.prove('%s: one label per point' % how, b_and(r.ndim == 1, cmp('==', r.shape[0], m)))
            i = eng.pv.sk('i')
            coord = lambda j: add(env.ans(toz(j, I), i), ilr_(pr(Q, i), j))
            prob = lambda k: INV(K - 1, T.lam(lambda j: toz(coord(j), R)), toz(k, I))
            best = T.ARGMAX(K, T.lam(prob))
            here = [0 <= i, i < m]
            c.prove('%s: the label whose probability is the largest (the first of several)' % how, cmp('==', r.get((i,)), labels.get((best,))), here)
            q = eng.pv.sk('q')
            c.prove('%s: no class has a larger probability' % how, b_and(0 <= best, best < K, prob(q) <= prob(best)), here + [0 <= q, q < K])
        c.run('predict, ' + how, go2, pre, post2)
