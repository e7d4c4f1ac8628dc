"""Contracts: construction and update of the four kriging classes (state specification).

After construction, and after any update, every attribute the other methods read is the documented function of the data, the
options of the construction and the arguments of the *last* call.  The state before an update is arbitrary (only the invariant
established by construction is assumed), so the equality holds after every history of updates and evaluations.
"""
import itertools
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *
from .prover import ho_head
from .interp import External
from .u_ok import new_obj
from .u_exec import adj, adjust_contract, OK, OK3, UK, UK3, grid_args
from .u_uk import Drift, FASS, configs, tag
from .u_params import KEYS

C = 'pykrige.core.'
BUILTIN = ('linear', 'power', 'gaussian', 'spherical', 'exponential', 'hole-effect')
NPAR = lambda m: 2 if m == 'linear' else 3
PLV = z3.Function('PARLIST', I, I, I, R)          # entries of the parameter list (model, given parameters, index)
PLBAD = z3.Function('PARBAD', I, I, B)            # the given parameters are refused for the model
_h = {}


def head(name, nd, *extra):
    """function of (number of data, coordinates, values) and extra arguments"""
    k = name + str(nd)
    if k not in _h:
        _h[k] = ho_head(k, *([I] + [T.LAM1] * (nd + 1) + list(extra)))
    return _h[k]


class Sym:
    """codes of objects compared by identity"""

    def __init__(self):
        self.ids = {}

    def code(self, o):
        return z3.IntVal(self.ids.setdefault(id(o), (len(self.ids) + 1, o))[0])


class GSModel(External):
    """a GSTools covariance model: opaque attributes"""

    def __init__(self, c, nd):
        self.valid, self.latlon = c.boolean('gs_valid'), c.boolean('gs_latlon')
        self.dim = c.int('gs_dim')
        self.vario = S.vf_user('gs_variogram')
        self.sc = [c.real('gs_anis%d' % k) for k in range(nd - 1)]
        self.an = [c.real('gs_angle%d' % k) for k in range(1 if nd == 2 else 3)]
        self.at = dict(pykrige_kwargs={}, field_dim=self.dim, latlon=self.latlon, pykrige_vario=self.vario)
        if nd == 2:
            self.at.update(pykrige_anis=self.sc[0], pykrige_angle=self.an[0])
        else:
            self.at.update(pykrige_anis_y=self.sc[0], pykrige_anis_z=self.sc[1], pykrige_angle_x=self.an[0], pykrige_angle_y=self.an[1], pykrige_angle_z=self.an[2])

    def getattr(self, eng, name):
        if name in self.at:
            return self.at[name]
        raise Raise('AttributeError', name)


class Model:
    """a class under contract: data, options and contracts of the callees"""

    def __init__(self, c, cls):
        self.c, self.eng, self.cls = c, c.eng, cls
        self.nd = 3 if '3D' in cls else 2
        self.uk = 'Universal' in cls
        self.sym = Sym()
        self.n = c.int('n')
        self.vals = 'VALUES' if self.nd == 3 else 'Z'
        self.names = ['X', 'Y', 'Z'][:self.nd]
        con = c.eng.contracts
        con[C + '_adjust_for_anisotropy'] = adjust_contract
        con[C + '_make_variogram_parameter_list'] = self.parlist
        con[C + '_initialize_variogram_model'] = self.initialize
        con[C + '_find_statistics'] = self.statistics
        for q in ('calcQ1', 'calcQ2'):
            con[C + q] = self.qstat(q)
        con[C + 'calc_cR'] = self.cr
        con[cls + '.display_variogram_model'] = lambda e, f, a, kw: None
        con['pykrige.compat_gstools.validate_gstools'] = self.validate
        if cls == UK:
            con[UK + '._calculate_data_point_zscalars'] = self.zscalars
        c.assumed += ['plotting has no effect on the model', 'GSTools models are opaque: their attributes are taken as given']

    def validate(self, eng, f, args, kw):
        m = eng.force(args[0])
        if not isinstance(m, GSModel):
            raise Raise('GSToolsException')
        if not eng.decide(m.valid):
            raise Raise('GSToolsException')
        return None

    # ------------------------------------------------------------ contracts of the callees
    def parlist(self, eng, f, args, kw):
        a = {k: eng.force(v) for k, v in eng.bind(f, args, kw).items()}
        m, g = a['variogram_model'], a['variogram_model_parameters']
        if g is None:
            return None
        if not isinstance(m, str):
            raise Unsupported('symbolic model name')
        if m not in BUILTIN + ('custom',):
            raise Raise('ValueError')
        if isinstance(g, PList) and g.concrete and m == 'custom':
            return PList(eng.heap, list(g.items))
        if not isinstance(g, (PList, PDict)) or not g.frozen:
            raise Unsupported('parameters other than those of the caller')
        mc, gc = z3.IntVal(str_code(m)), self.sym.code(g)
        if eng.decide(PLBAD(mc, gc)):
            raise Raise('ValueError')
        if m == 'custom':
            return PList(eng.heap, [], g.length(), lambda i: PLV(mc, gc, toz(i, I)))
        return PList(eng.heap, [PLV(mc, gc, z3.IntVal(i)) for i in range(NPAR(m))])

    def xy(self, X, y):
        eng = self.eng
        X, y = eng.np.desq(eng.force(X)), eng.force(y)
        if not isinstance(X, Arr) or X.ndim != 2 or not isinstance(y, Arr) or y.ndim != 1:
            raise Unsupported('data handed over in another shape')
        nd = X.shape[1]
        if is_z(nd) or nd != self.nd:
            eng.fail('precondition: one column per dimension', '%s columns' % nd)
            raise Unsupported('columns of the data')
        eng.oblige('precondition: one row per datum', b_and(cmp('==', X.shape[0], self.n), cmp('==', y.shape[0], self.n)))
        rd, yr = eng.np.freeze(eng, X).reader(), eng.np.freeze(eng, y).reader()
        return (lambda i, k: rd((i, k))), (lambda i: yr((i,)))

    def args(self, rows, vals):
        return [simp(toz(self.n, I))] + [T.lam(lambda i, k=k: rows(i, k)) for k in range(self.nd)] + [T.lam(vals)]

    def vfcode(self, vf):
        return self.sym.code(vf)

    def fit(self, base, m, vf, nlags, weight, ct):
        mc = z3.IntVal(str_code(m))
        k = NPAR(m)
        return k, lambda i: head('FIT', self.nd, I, I, I, I, B, I, R)(*base, z3.IntVal(str_code(ct)), mc, self.vfcode(vf), toz(nlags, I), toz(truth(weight), B), toz(i, I))

    def experimental(self, base, nlags, ct):
        ex = (toz(nlags, I), z3.IntVal(str_code(ct)))
        ln = head('NLAGS', self.nd, I, I, I)(*base, *ex)
        at = lambda h: lambda q: head(h, self.nd, I, I, I, R)(*base, *ex, toz(q, I))
        return ln, at('LAGS'), at('SEMI')

    def initialize(self, eng, f, args, kw):
        a = {k: eng.force(v) for k, v in eng.bind(f, args, kw).items()}
        base = self.args(*self.xy(a['X'], a['y']))
        m, par, vf, nl, we, ct = [a[k] for k in ('variogram_model', 'variogram_model_parameters', 'variogram_function', 'nlags', 'weight', 'coordinates_type')]
        if not isinstance(m, str) or not isinstance(ct, str):
            raise Unsupported('symbolic model name')
        eng.oblige('precondition of _initialize_variogram_model: coordinate type', ct in ('euclidean', 'geographic') and not (ct == 'geographic' and self.nd != 2))
        ln, lg, sv = self.experimental(base, nl, ct)
        eng.assume(ln >= 0)
        if par is None:
            if m == 'custom':
                raise Raise('ValueError')
            k, fv = self.fit(base, m, vf, nl, we, ct)
            par = eng.np.new((k,), lambda q: fv(q[0]), 'f')
        elif isinstance(par, (PList, Arr)):
            ln_ = par.length() if isinstance(par, PList) else par.shape[0]
            if m in BUILTIN and not eng.decide(cmp('==', ln_, NPAR(m))):
                raise Raise('ValueError')
        else:
            raise Unsupported('parameters of type %s' % type(par).__name__)
        return (eng.np.new((ln,), lambda q: lg(q[0]), 'f'), eng.np.new((ln,), lambda q: sv(q[0]), 'f'), par)

    def stats(self, base, vf, par, ct, pinv):
        """number of entries and the entries of delta, sigma, epsilon"""
        ex = (z3.IntVal(str_code(ct)), self.vfcode(vf), S.par_code(self.eng, par), toz(truth(pinv), B))
        sig = (I, I, S.PAR, B)
        num = head('NSTAT', self.nd, *sig, I)(*base, *ex)
        return num, [lambda q, w=w: head(w, self.nd, *sig, I, R)(*base, *ex, toz(q, I)) for w in ('DELTA', 'SIGMA', 'EPSILON')]

    def statistics(self, eng, f, args, kw):
        a = {k: eng.force(v) for k, v in eng.bind(f, args, kw).items()}
        base = self.args(*self.xy(a['X'], a['y']))
        num, fs = self.stats(base, a['variogram_function'], a['variogram_model_parameters'], a['coordinates_type'], a['pseudo_inv'])
        eng.assume(num >= 0)
        return tuple(eng.np.new((num,), lambda q, g=g: g(q[0]), 'f') for g in fs)

    def qval(self, q, num, f):
        return ho_head(q.upper(), I, T.LAM1, R)(simp(toz(num, I)), T.lam(f))

    def qstat(self, q):
        def spec(eng, f, args, kw):
            e = eng.force(list(eng.bind(f, args, kw).values())[0])
            return self.qval(q, e.shape[0], lambda k: e.get((k,)))
        return spec

    def crval(self, q2, num, f):
        return ho_head('CALC_CR', I, T.LAM1, R, R)(simp(toz(num, I)), T.lam(f), som(toz(q2, R)))

    def cr(self, eng, f, args, kw):
        q2, s = [eng.force(v) for v in eng.bind(f, args, kw).values()]
        return self.crval(q2, s.shape[0], lambda k: s.get((k,)))

    def zscalars(self, eng, f, args, kw):
        a = {k: eng.force(v) for k, v in eng.bind(f, args, kw).items()}
        o = a['self']
        for k in ('external_Z_array', 'external_Z_array_x', 'external_Z_array_y'):
            eng.getattr(o, k)       # must have been set
        x, y = eng.np.asarr(a['x']), eng.np.asarr(a['y'])
        if x.ndim != 1 or y.ndim != 1 or a['type_'] == 'scalar':
            raise Unsupported('external drift of shaped points')
        return eng.np.elementwise(self.zs, [x, y], 'f')

    def zs(self, x, y):
        return z3.Function('EXTDRIFT', R, R, R)(som(toz(x, R)), som(toz(y, R)))

    # ------------------------------------------------------------ specification
    def centre(self, f):
        return mul(add(T.mk_ext(T.MAXH, self.n, f), T.mk_ext(T.MINH, self.n, f)), Fraction(1, 2))

    def option_names(self):
        if self.nd == 2:
            return ['anisotropy_scaling'], ['anisotropy_angle']
        return ['anisotropy_scaling_y', 'anisotropy_scaling_z'], ['anisotropy_angle_x', 'anisotropy_angle_y', 'anisotropy_angle_z']

    def attr(self, o, k):
        if k not in o.attrs:
            self.eng.fail('attribute %s' % k, 'is not set')
            return None
        return self.eng.force(o.attrs[k])

    def vec(self, o, k, n, f, lab):
        self.own(lab, k, o.attrs.get(k))
        self.c.array_is('%s: %s' % (lab, k), self.attr(o, k), (n,), lambda q: f(q[0]))

    def own(self, lab, k, v):
        v = self.eng.force(v) if v is not None else v
        if isinstance(v, SqArr):
            v = v.arr
        if isinstance(v, Arr) and v.cell.frozen:
            self.eng.fail('%s: %s is an array of its own' % (lab, k), 'the array of the caller is kept')
        if isinstance(v, PList) and v.frozen:
            self.eng.fail('%s: %s is a list of its own' % (lab, k), 'the list of the caller is kept')

    def same(self, o, k, v, lab):
        got = self.attr(o, k)
        if is_scalar(v):
            if not is_scalar(got):
                return self.eng.fail('%s: %s' % (lab, k), 'not a number')
            self.c.same_elem('%s: %s' % (lab, k), got, v)
        else:
            self.c.prove('%s: %s' % (lab, k), got is v or (isinstance(v, str) and got == v))

    def check(self, lab, o, data, vals, m, vf, given, nlags, weight, sc, an, ct, pinv, stats=True):
        """the state that belongs to these data and arguments"""
        c, eng = self.c, self.eng
        nd = self.nd
        if ct == 'geographic':
            ctr, sc, an = [Fraction(0)] * 2, [Fraction(1)], [Fraction(0)]
        else:
            ctr = [self.centre(f) for f in data]
        for k, v in zip(self.names, ctr):
            self.same(o, k + 'CENTER', v, lab)
        ns, na = self.option_names()
        for k, v in zip(ns + na, list(sc) + list(an)):
            self.same(o, k, v, lab)
        for k, f in zip(self.names, data):
            self.vec(o, k + '_ORIG', self.n, f, lab)
        self.vec(o, self.vals, self.n, vals, lab)
        at = (lambda i: adj([f(i) for f in data], ctr, sc, an)) if ct == 'euclidean' else (lambda i: [f(i) for f in data])
        for k, nm in enumerate(self.names):
            self.vec(o, nm + '_ADJUSTED', self.n, lambda i, k=k: at(i)[k], lab)
        self.same(o, 'variogram_model', m, lab)
        self.same(o, 'variogram_function', vf, lab)
        base = self.args(lambda i, k: S.pick(k, at(i)), vals)
        # parameters
        par = self.attr(o, 'variogram_model_parameters')
        self.own(lab, 'variogram_model_parameters', par)
        mc = z3.IntVal(str_code(m))
        if given is None:
            k, fv = self.fit(base, m, vf, nlags, weight, ct)
            want = PList(eng.heap, [fv(i) for i in range(k)])
        elif given == []:
            want = PList(eng.heap, [])
        else:
            gc = self.sym.code(given)
            want = PList(eng.heap, [], given.length(), lambda i: PLV(mc, gc, toz(i, I))) if m == 'custom' else PList(eng.heap, [PLV(mc, gc, z3.IntVal(i)) for i in range(NPAR(m))])
        if not isinstance(par, (PList, Arr)):
            return eng.fail(lab + ': variogram parameters', 'of type %s' % type(par).__name__)
        ln = par.length() if isinstance(par, PList) else par.shape[0]
        c.prove(lab + ': number of variogram parameters', cmp('==', ln, want.length()))
        q = eng.pv.sk('q')
        item = lambda p, i: eng.list_get(p, i) if isinstance(p, PList) else p.get((i,))
        if want.concrete:
            for i in range(len(want.items)):
                c.same_elem('%s: variogram parameter %d' % (lab, i), item(par, i), want.items[i])
        else:
            c.same_elem(lab + ': every variogram parameter', item(par, q), item(want, q), [0 <= q, q < toz(want.length(), I)])
        # experimental semivariogram
        num, lg, sv = self.experimental(base, nlags, ct)
        self.vec(o, 'lags', num, lg, lab)
        self.vec(o, 'semivariance', num, sv, lab)
        if stats:
            num, fs = self.stats(base, vf, want, ct, pinv)
            for k, g in zip(('delta', 'sigma', 'epsilon'), fs):
                self.vec(o, k, num, g, lab)
            q2 = self.qval('calcQ2', num, fs[2])
            self.same(o, 'Q1', self.qval('calcQ1', num, fs[2]), lab)
            self.same(o, 'Q2', q2, lab)
            self.same(o, 'cR', self.crval(q2, num, fs[1]), lab)


def data_of(md, c, kind='f'):
    n = md.n
    arrs = [c.array(k, (n,), kind) for k in ['x', 'y', 'z'][:md.nd]] + [c.array('val', (n,), kind)]
    fs = [lambda i, a=a: unz(toz(a.get((i,)), R)) for a in arrs]
    return arrs, fs[:-1], fs[-1]


def parameters(c, md, what):
    """given parameters: None, a list or a dict of the caller (any content)"""
    if what is None:
        return None
    n = c.int('npar')
    g = z3.Function('GIVENPAR', I, R)
    p = PList(c.eng.heap, [], n, lambda i: g(toz(i, I)))
    p.frozen = True
    return p


def cases(c, md):
    """(label, model argument, further arguments, model name, variogram function, given, allowed refusal)"""
    for m in BUILTIN:
        vf = c.func('pykrige.variogram_models.%s_variogram_model' % m.replace('-', '_'))
        for what in (None, 'list'):
            g = parameters(c, md, what)
            kw = {} if g is None else dict(variogram_parameters=g)
            bad = False if g is None else PLBAD(z3.IntVal(str_code(m)), md.sym.code(g))
            yield '%s, %s' % (m, 'fitted' if g is None else 'given parameters'), m, kw, m, vf, g, bad
    vf = S.vf_user()
    g = parameters(c, md, 'list')
    yield 'custom', 'custom', dict(variogram_parameters=g, variogram_function=vf), 'custom', vf, g, PLBAD(z3.IntVal(str_code('custom')), md.sym.code(g))
    gs = GSModel(c, md.nd)
    yield 'GSTools', gs, {}, 'custom', gs.vario, [], None


def gs_refused(md, gs, ct):
    if md.nd == 3:
        wrong = gs.dim < 3
    else:
        wrong = b_or(gs.dim == 3, b_and(gs.latlon, md.uk or ct == 'euclidean'))
    return simp(toz(b_or(b_not(gs.valid), wrong), B))


def options(c, md):
    sc = [c.real('sc%d' % k) for k in range(md.nd - 1)]
    an = [c.real('an%d' % k) for k in range(1 if md.nd == 2 else 3)]
    ns, na = md.option_names()
    nl, we = c.int('nlags'), c.boolean('weight')
    return dict(zip(ns + na, sc + an), nlags=nl, weight=we), sc, an, nl, we


def refuse_kinds(bad, gs):
    return lambda e: bad if e.kind in ('ValueError', 'KeyError', 'TypeError') or (gs and e.kind == 'GSToolsException') else False


def construct(name, cls, ct, *props):
    @unit(name, *props)
    def go(c):
        md = Model(c, cls)
        opt, sc, an, nl, we = options(c, md)
        for kind in ('f', 'i'):
            arrs, data, vals = data_of(md, c, kind)
            for lab, marg, kw, m, vf, g, bad in cases(c, md):
                if kind == 'i' and lab != 'linear, given parameters':
                    continue
                gs = isinstance(marg, GSModel)
                if gs:
                    bad = gs_refused(md, marg, ct)
                s_, a_ = (marg.sc, marg.an) if gs else (sc, an)
                ex, pi = c.boolean('exact'), c.boolean('pinv')
                for pt in ('pinv', 'pinvh') if lab == 'linear, given parameters' else ('pinv',):
                    flags = dict(exact_values=ex, pseudo_inv=pi, pseudo_inv_type=pt, verbose=c.boolean('verbose'), enable_plotting=c.boolean('plotting'))
                    for st in (True, False) if cls == OK else (None,):
                        if st is not None:
                            flags['enable_statistics'] = st
                        if cls == OK:
                            flags['coordinates_type'] = ct
                        L = '%s%s%s' % (lab, ', integer data' if kind == 'i' else '', '' if st is not False else ', no statistics')

                        def post(o):
                            c.prove(L + ': a model that cannot be used is refused', b_not(bad))
                            md.check(L, o, data, vals, m, vf, g, nl, we, s_, a_, ct, pi, st is not False)
                            for k in ('exact_values', 'pseudo_inv'):
                                md.same(o, k, flags[k], L)
                            md.same(o, 'pseudo_inv_type', pt, L)
                            if cls == OK:
                                md.same(o, 'coordinates_type', ct, L)
                            if md.uk:
                                for k in ('regional_linear_drift', 'specified_drift', 'functional_drift') + (('external_Z_drift', 'point_log_drift') if md.nd == 2 else ()):
                                    md.same(o, k, False, L)
                        c.run(L, lambda: c.eng.call(c.func(cls), arrs, dict(opt, variogram_model=marg, **kw, **flags)), [md.n >= 2, nl >= 1, z3.Int('npar') >= 0], post, refuse_kinds(bad, gs))


def update(name, cls, ct, *props):
    @unit(name, *props)
    def go(c):
        md = Model(c, cls)
        opt, sc, an, nl, we = options(c, md)
        for lab, marg, kw, m, vf, g, bad in cases(c, md):
            gs = isinstance(marg, GSModel)
            if gs:
                bad = gs_refused(md, marg, ct)
            s_, a_ = (marg.sc, marg.an) if gs else (sc, an)
            arrs, data, vals = data_of(md, c)
            # an arbitrary earlier state
            ns, na = md.option_names()
            old = [c.real('old_' + k) for k in ns + na]
            at = {}
            if ct == 'geographic':
                ctr, old = [Fraction(0)] * 2, [Fraction(1), Fraction(0)]
                row = lambda i: [f(i) for f in data]
            else:
                ctr = [md.centre(f) for f in data]
                row = lambda i: adj([f(i) for f in data], ctr, old[:len(ns)], old[len(ns):])
            at.update(zip(ns + na, old))
            for k, v in zip(md.names, ctr):
                at[k + 'CENTER'] = v
            kept = {}
            for k, f in zip(md.names, data):
                kept[k + '_ORIG'] = c.eng.np.new((md.n,), lambda q, f=f: f(q[0]), 'f', k + '_ORIG')
            kept[md.vals] = c.eng.np.new((md.n,), lambda q: vals(q[0]), 'f', md.vals)
            cells = dict(kept)
            for k, nm in enumerate(md.names):
                at[nm + '_ADJUSTED'] = kept[nm + '_ORIG'] if ct == 'geographic' else c.eng.np.new((md.n,), lambda q, k=k: row(q[0])[k], 'f', nm + '_ADJUSTED')
            ex, pi = c.boolean('exact'), c.boolean('pinv')
            kept.update(exact_values=ex, pseudo_inv=pi, pseudo_inv_type='pinv')
            if cls == OK:
                kept['coordinates_type'] = ct
            at.update(verbose=c.boolean('verbose'), enable_plotting=c.boolean('plotting'), variogram_model='linear', model=None,
                      variogram_function=S.vf_user('old'), variogram_model_parameters=PList(c.eng.heap, [c.real('oldpar0'), c.real('oldpar1')]))
            onum = c.int('oldlags')
            for k in ('lags', 'semivariance', 'delta', 'sigma', 'epsilon'):
                at[k] = c.array('old_' + k, (onum,))
            for k in ('Q1', 'Q2', 'cR'):
                at[k] = c.real('old_' + k)
            pre = [md.n >= 2, nl >= 1, onum >= 0, z3.Int('npar') >= 0]
            wells = None
            if md.uk:
                dr = Drift(c, md.nd, True, md.nd == 2, md.nd == 2, True, True)
                pre += dr.pre
                fl = {k: c.boolean(k) for k in ('regional_linear_drift', 'specified_drift', 'functional_drift') + (('external_Z_drift', 'point_log_drift') if md.nd == 2 else ())}
                kept.update(fl)
                kept['specified_drift_data_arrays'] = dr.arrays('SPEC', (md.n,))[0]
                kept['functional_drift_terms'] = dr.functions()
                if md.nd == 2:
                    wells = dr.wells
                    rd = lambda w, k: wells.get((w, k))
                    kept['z_scalars'] = c.array('zsc', (md.n,))
                    kept['external_Z_array'] = c.array('raster', (c.int('er'), c.int('ec')))
                    kept['external_Z_array_x'], kept['external_Z_array_y'] = c.array('rx', (c.int('ec'),)), c.array('ry', (c.int('er'),))
                    kept['point_log_orig'] = wells
                    at['point_log_array'] = c.eng.np.new((dr.W, 3), lambda q: S.pick(q[1], adj([rd(q[0], 0), rd(q[0], 1)], ctr, old[:1], old[1:]) + [rd(q[0], 2)]), 'f', 'point_log_array')
            at.update(kept)
            o = new_obj(c, cls, **at)
            o.frozen = False
            for k, v in cells.items():
                v.cell.frozen = True        # the original data are never overwritten

            def post(v):
                c.prove(lab + ': a model that cannot be used is refused', b_not(bad))
                for x in cells.values():
                    x.cell.frozen = False
                try:
                    md.check(lab, o, data, vals, m, vf, g, nl, we, s_, a_, ct, pi)
                finally:
                    for x in cells.values():
                        x.cell.frozen = True
                for k, w in kept.items():
                    md.same(o, k, w, lab + ', kept')
                if wells is not None:
                    c.array_is(lab + ': wells', md.attr(o, 'point_log_array'), (dr.W, 3), lambda q: S.pick(q[1], adj([rd(q[0], 0), rd(q[0], 1)], ctr, s_, a_) + [rd(q[0], 2)]), [fl['point_log_drift']])
            c.run(lab, lambda: c.eng.call(c.func(cls + '.update_variogram_model'), [o, marg], dict(opt, **kw)), pre, post, refuse_kinds(bad, gs))


P_ = ('P07', 'P13', 'P11', 'P22', 'P25', 'P08', 'P20', 'P24')
for _cls, _nm in ((OK, 'ok'), (OK3, 'ok3d'), (UK, 'uk'), (UK3, 'uk3d')):
    for _ct in ('euclidean', 'geographic') if _cls == OK else ('euclidean',):
        _x = '[%s]' % _ct if _cls == OK else ''
        construct('%s.__init__%s' % (_nm, _x), _cls, _ct, *P_)
        update('%s.update_variogram_model%s' % (_nm, _x), _cls, _ct, *P_)


# ---------------------------------------------------------------- drift terms
def drift_list(c, name, n_, kind='arrays', dims=1):
    """list of the caller: any number of arrays of any extent"""
    ext = [z3.Function('%sEXT%d' % (name, k), I, I) for k in range(dims)]
    val = z3.Function(name, *([I] * (dims + 1) + [R]))

    def mk(i):
        iz = toz(i, I)
        x = c.eng.np.new(tuple(e(iz) for e in ext), lambda idx: val(iz, *[toz(k, I) for k in idx]), 'f', name)
        x.cell.frozen = True
        return x
    p = PList(c.eng.heap, [], n_, mk)
    p.frozen = True
    b = z3.Int('b')
    return p, ext, val, z3.ForAll([b], z3.And(*[e(b) >= 1 for e in ext]))


def drift_init(name, cls, nd, fl, *props):
    @unit(name, *props)
    def go(c):
        c.assumed.append(FASS)
        md = Model(c, cls)
        reg, log, ex, sp, fu = fl
        opt, sc, an, nl, we = options(c, md)
        g = parameters(c, md, 'list')
        arrs, data, vals = data_of(md, c)
        terms = c.list([s for s, f in zip(('regional_linear', 'point_log', 'external_Z', 'specified', 'functional'), fl) if f])
        kw = dict(drift_terms=terms)
        pre = [md.n >= 2, nl >= 1, z3.Int('npar') >= 0]
        bad = PLBAD(z3.IntVal(str_code('linear')), md.sym.code(g))
        W, L, F = c.int('wells'), c.int('given'), c.int('functional')
        er, ec, nx, ny = [c.int(k) for k in ('er', 'ec', 'nx', 'ny')]
        if log:
            wells = c.array('wells_', (W, 3))
            kw['point_drift'] = wells
            pre.append(W >= 1)
        if ex:
            ras, rx, ry = c.array('raster', (er, ec)), c.array('rx', (nx,)), c.array('ry', (ny,))
            kw.update(external_drift=ras, external_drift_x=rx, external_drift_y=ry)
            pre += [k >= 1 for k in (er, ec, nx, ny)]
            straight, turned = b_and(er == ny, ec == nx), b_and(er == nx, ec == ny)
            bad = b_or(bad, b_not(b_or(straight, turned)))
        if sp:
            lst, ext, val, p = drift_list(c, 'DRIFT', L)
            pre += [p, L >= 0]
            kw['specified_drift'] = lst
            bad = b_or(bad, L == 0, T.mk_any(L, lambda m: ext[0](toz(m, I)) != md.n))
        if fu:
            fd = z3.Function('FD', *([I] + [R] * (nd + 1)))
            fs = {}

            def fun(i):
                k = str(simp(toz(i, I)))
                if k not in fs:
                    fs[k] = UserFn('drift', lambda *a: fd(toz(i, I), *[toz(x, R) for x in a]), {'index': toz(i, I)})
                return fs[k]
            fl_ = PList(c.eng.heap, [], F, fun)
            fl_.frozen = True
            pre.append(F >= 0)
            kw['functional_drift'] = fl_
            bad = b_or(bad, F == 0)
        bad = simp(toz(bad, B))
        ctr = [md.centre(f) for f in data]
        vf = c.func('pykrige.variogram_models.linear_variogram_model')
        lab = 'drift: %s' % tag(fl)

        def post(o):
            c.prove(lab + ': a model that cannot be used is refused', b_not(bad))
            md.same(o, 'regional_linear_drift', reg, lab)
            md.same(o, 'specified_drift', sp, lab)
            md.same(o, 'functional_drift', fu, lab)
            if nd == 2:
                md.same(o, 'point_log_drift', log, lab)
                md.same(o, 'external_Z_drift', ex, lab)
            if log:
                v = md.attr(o, 'point_log_array')
                md.own(lab, 'point_log_array', v)
                md.own(lab, 'point_log_orig', o.attrs.get('point_log_orig'))
                rd = lambda w, k: wells.get((w, k))
                c.array_is(lab + ': wells', v, (W, 3), lambda q: S.pick(q[1], adj([rd(q[0], 0), rd(q[0], 1)], ctr, sc, an) + [rd(q[0], 2)]))
                c.array_is(lab + ': wells as given', md.attr(o, 'point_log_orig'), (W, 3), lambda q: rd(q[0], q[1]))
                if isinstance(v, Arr) and isinstance(md.attr(o, 'point_log_orig'), Arr) and v.cell is md.attr(o, 'point_log_orig').cell:
                    c.eng.fail(lab + ': wells as given are kept apart', 'one array for both')
            if ex:
                for k, n_, f in (('external_Z_array_x', nx, rx), ('external_Z_array_y', ny, ry)):
                    md.own(lab, k, o.attrs.get(k))
                    c.array_is('%s: %s' % (lab, k), md.attr(o, k), (n_,), lambda q, f=f: f.get(q))
                v = md.attr(o, 'external_Z_array')
                md.own(lab, 'external_Z_array', v)
                c.array_is(lab + ': raster, rows along y', v, (ny, nx), lambda q: ite(straight, ras.get(q), ras.get((q[1], q[0]))))
                md.vec(o, 'z_scalars', md.n, lambda i: md.zs(data[0](i), data[1](i)), lab)
            if sp:
                v = md.attr(o, 'specified_drift_data_arrays')
                md.own(lab, 'specified_drift_data_arrays', v)
                if not isinstance(v, PList):
                    return c.eng.fail(lab + ': specified drift values', 'not a list')
                c.prove(lab + ': number of specified drift terms', cmp('==', v.length(), L))
                m = c.eng.pv.sk('m')
                x = c.eng.force(c.eng.list_get(v, m))
                md.own(lab, 'specified drift values', x)
                if isinstance(x, SqArr) and x.arr.ndim == 1:
                    x = x.arr       # its extent is n >= 2 (proved next), so nothing is dropped
                c.array_is(lab + ': specified drift values', x, (md.n,), lambda q: val(m, toz(q[0], I)), [0 <= m, m < L])
            if fu:
                v = md.attr(o, 'functional_drift_terms')
                md.own(lab, 'functional_drift_terms', v)
                if not isinstance(v, PList):
                    return c.eng.fail(lab + ': functional drift terms', 'not a list')
                c.prove(lab + ': number of functional drift terms', cmp('==', v.length(), F))
                m = c.eng.pv.sk('m')
                x = c.eng.force(c.eng.list_get(v, m))
                if not isinstance(x, UserFn) or 'index' not in x.attrs:
                    return c.eng.fail(lab + ': functional drift terms', 'another function')
                c.prove(lab + ': functional drift terms in order', cmp('==', x.attrs['index'], m), [0 <= m, m < F])
        c.run(lab, lambda: c.eng.call(c.func(cls), arrs, dict(opt, variogram_model='linear', variogram_parameters=g, verbose=c.boolean('verbose'), **kw)), pre, post, refuse_kinds(bad, False))


DP = ('P03', 'P07', 'P11', 'P13', 'P22')
for _fl in configs(2):
    if any(_fl):
        drift_init('uk.__init__[%s]' % tag(_fl), UK, 2, _fl, *DP, *(('P14',) if _fl[2] else ()))
for _fl in configs(3):
    if any(_fl):
        drift_init('uk3d.__init__[%s]' % tag(_fl), UK3, 3, _fl, *DP)


def init_refusals(nm, cls, nd, *props):
    @unit('%s.__init__[refused]' % nm, *props)
    def go(c):
        md = Model(c, cls)
        opt, sc, an, nl, we = options(c, md)
        g = parameters(c, md, 'list')
        arrs, data, vals = data_of(md, c)
        pre = [md.n >= 2, nl >= 1, z3.Int('npar') >= 0]
        base = dict(opt, variogram_model='linear', variogram_parameters=g)
        other = SymStr('other')
        old = new_obj(c, cls, **dict(dict.fromkeys(('verbose', 'enable_plotting'), False)))

        def refused(lab, kw, extra=()):
            c.run(lab, lambda: c.eng.call(c.func(cls), arrs, dict(base, **kw)), pre + list(extra), lambda v: c.prove(lab + ': is refused', False), lambda e: True, total=False)

        def refused_update(lab, args, kw, extra=()):
            at = dict(kept_state(c, md))
            o = new_obj(c, cls, **at)
            o.frozen = False
            c.run('update, ' + lab, lambda: c.eng.call(c.func(cls + '.update_variogram_model'), [o] + args, kw), pre + list(extra),
                  lambda v: c.prove('update, %s: is refused' % lab, False), lambda e: True, total=False)
        models = [other.code != str_code(m) for m in BUILTIN + ('custom',)]
        refused('unknown variogram model', dict(variogram_model=other), models)
        refused('custom model without a function', dict(variogram_model='custom'))
        refused('custom model with something that is no function', dict(variogram_model='custom', variogram_function='linear'))
        refused('custom model without parameters', dict(variogram_model='custom', variogram_function=S.vf_user(), variogram_parameters=None))
        refused('unknown pseudo-inverse type', dict(pseudo_inv_type=other), [other.code != str_code(m) for m in ('pinv', 'pinvh')])
        for what, v in (('a number', 1), ('a string', 'True'), ('None', None), ('an array', c.array('exact', (md.n,)))):
            refused('exact_values as %s' % what, dict(exact_values=v))
        refused_update('unknown variogram model', [other], {}, models)
        refused_update('custom model without a function', ['custom'], dict(variogram_parameters=g))
        refused_update('custom model without parameters', ['custom'], dict(variogram_function=S.vf_user()))
        if cls == OK:
            refused('unknown coordinate type', dict(coordinates_type=other), [other.code != str_code(m) for m in ('euclidean', 'geographic')])
        if md.uk:
            for what, v in (('a tuple', ()), ('an array', c.array('drift', (md.n,))), ('missing', None), ('an empty list', c.list([]))):
                refused('specified drift values: ' + what, dict(drift_terms=c.list(['specified']), specified_drift=v))
                if what != 'an array':
                    refused('drift functions: ' + what, dict(drift_terms=c.list(['functional']), functional_drift=v))
            refused('drift functions: one function', dict(drift_terms=c.list(['functional']), functional_drift=S.vf_user()))
        if cls == UK:
            ras = c.array('raster', (c.int('er'), c.int('ec')))
            x = c.array('rx', (c.int('ec'),))
            ext = [c.int('er') >= 1, c.int('ec') >= 1]
            refused('external drift missing', dict(drift_terms=c.list(['external_Z'])))
            refused('external drift without coordinates', dict(drift_terms=c.list(['external_Z']), external_drift=ras), ext)
            refused('external drift without y', dict(drift_terms=c.list(['external_Z']), external_drift=ras, external_drift_x=x), ext)
            refused('external drift without x', dict(drift_terms=c.list(['external_Z']), external_drift=ras, external_drift_y=x), ext)
            refused('wells missing', dict(drift_terms=c.list(['point_log'])))


def kept_state(c, md):
    """some state (refusals do not depend on it)"""
    at = dict(verbose=False, enable_plotting=False, variogram_model='linear', model=None, variogram_function=S.vf_user('old'))
    ns, na = md.option_names()
    at.update(zip(ns + na, [c.real('old_' + k) for k in ns + na]))
    for nm in md.names:
        at[nm + 'CENTER'] = c.real('ctr' + nm)
        for s in ('_ORIG', '_ADJUSTED'):
            at[nm + s] = c.array('old' + nm + s, (md.n,))
    at[md.vals] = c.array('oldvals', (md.n,))
    at['pseudo_inv'] = False
    if md.cls == OK:
        at['coordinates_type'] = 'euclidean'
    if md.uk:
        at.update(regional_linear_drift=False, specified_drift=False, functional_drift=False, external_Z_drift=False, point_log_drift=False)
    return at


for _cls, _nm, _nd in ((OK, 'ok', 2), (OK3, 'ok3d', 3), (UK, 'uk', 2), (UK3, 'uk3d', 3)):
    init_refusals(_nm, _cls, _nd, 'P22')
