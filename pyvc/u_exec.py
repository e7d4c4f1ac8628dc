"""Contracts: execute of the four kriging classes, over the contracts of its callees.

The result of kriging at one point is an opaque function of what the solvers depend on:
KZ/KS(number of data, the point's row of distances, adjusted point, original point, values of the specified drift).
That the solvers compute this function (the documented system) is proved by the units of u_ok, u_uk and u_cy.
"""
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *
from .prover import ho_head, EXTRA_HEADS
from .interp import External
from .u_ok import new_obj, params, is_pair, VFASS

C = 'pykrige.core.'
KM = z3.Function('KM', I, I, I, R)                      # entries of the kriging matrix (n, i, j)
WIN = {nm: ho_head('WIN' + nm, I, I, T.LAM1, T.LAM1, R) for nm in 'ZS'}
KNN = ho_head('KNN', I, I, T.LAM1, I, I)               # (n, k, distance to datum m, rank j) -> datum
OUT = z3.Function('OUT', I, I, R)                       # entries of masked points: unspecified
EXTRA_HEADS.add("KNN")
_heads = {}


def head(nd, which):
    """KZ/KS for nd dimensions: n, row of distances, adjusted coordinates, original ones, specified drift"""
    k = (nd, which)
    if k not in _heads:
        _heads[k] = ho_head('K%s%d' % (which, nd), *([I, T.LAM1] + [R] * (2 * nd) + [T.LAM1, R]))
    return _heads[k]


ADJ = {nd: [z3.Function('ADJ%d_%d' % (nd, k), *([R] * (nd + nd + (nd - 1) + (1 if nd == 2 else 3) + 1))) for k in range(nd)] for nd in (2, 3)}


def adj(x, ctr, sc, an):
    nd = len(x)
    return [f(*[som(toz(v, R)) for v in list(x) + list(ctr) + list(sc) + list(an)]) for f in ADJ[nd]]


def adjust_contract(eng, f, args, kw):
    """rows mapped by the anisotropy map; the array passed is overwritten"""
    a = eng.bind(f, args, kw)
    X = eng.np.desq(eng.force(a['X']))
    ls = [[eng.force(v) for v in eng.iter_concrete(eng.force(a[k]))] for k in ('center', 'scaling', 'angle')]
    nd = X.shape[1]
    if is_z(nd) or nd not in (2, 3):
        raise Unsupported('dimension of the points')
    for l, n in zip(ls, (nd, nd - 1, 1 if nd == 2 else 3)):
        if len(l) != n:
            raise Raise('ValueError')
    rd = eng.np.copy(X).reader()
    if getattr(X.cell, 'frozen', False):
        eng.frame_violation('points passed by the caller are overwritten')
    junk = z3.Function(eng.fresh('overwritten', I).decl().name(), I, I, R)
    eng.np.store(eng, X, (SliceV(None, None, None), SliceV(None, None, None)), eng.np.new(X.shape, lambda q: junk(toz(q[0], I), toz(q[1], I)), 'f'))
    return eng.np.new(X.shape, lambda q: S.pick(q[1], adj([rd((q[0], k)) for k in range(nd)], *ls)), 'f')


class World:
    """one model object and the contracts of the functions execute calls"""

    def __init__(self, c, cls, nd, ctype='euclidean', model=None, drift=None):
        self.c, self.eng, self.cls, self.nd, self.ctype = c, c.eng, cls, nd, ctype
        c.assumed.append(VFASS)
        self.uk = 'Universal' in cls
        n = self.n = c.int('n')
        self.X = [c.array(k, (n,)) for k in ('XA', 'YA', 'ZA')[:nd]]
        par, np_ = params(c)
        self.Z = c.array('Z', (n,))
        self.ctr = [c.real('ctr%d' % k) for k in range(nd)]
        self.sc = [c.real('sc%d' % k) for k in range(nd - 1)]
        self.an = [c.real('an%d' % k) for k in range(1 if nd == 2 else 3)]
        vf = S.vf_user() if model is None else c.func('pykrige.variogram_models.%s_variogram_model' % model.replace('-', '_'))
        at = dict(zip(('X_ADJUSTED', 'Y_ADJUSTED', 'Z_ADJUSTED'), self.X))
        at.update(zip(('XCENTER', 'YCENTER', 'ZCENTER'), self.ctr))
        if nd == 2:
            at.update(anisotropy_scaling=self.sc[0], anisotropy_angle=self.an[0])
            if not self.uk:
                at['coordinates_type'] = ctype
        else:
            at.update(anisotropy_scaling_y=self.sc[0], anisotropy_scaling_z=self.sc[1], anisotropy_angle_x=self.an[0], anisotropy_angle_y=self.an[1], anisotropy_angle_z=self.an[2])
        at['VALUES' if nd == 3 else 'Z'] = self.Z
        self.flags = dict(pseudo_inv=c.boolean('pinv'), exact_values=c.boolean('exact'), pseudo_inv_type=SymStr('pinvtype'))
        at.update(variogram_function=vf, variogram_model_parameters=par, verbose=False, **self.flags)
        self.par, self.vf = par, vf
        self.extra = 0
        if self.uk:
            at.update(drift.attrs())
            self.extra = drift.count
        self.dr = drift
        self.o = new_obj(c, cls, **at)
        self.pre = [n >= 1, np_ >= 0] + (drift.pre if drift else [])
        con = c.eng.contracts
        con[C + '_adjust_for_anisotropy'] = adjust_contract
        con[C + 'great_circle_distance'] = S.gcd_contract
        con[cls + '._get_kriging_matrix'] = self.matrix
        for m in ('_exec_vector', '_exec_loop'):
            con[cls + '.' + m] = self.solver(m == '_exec_vector')
        con[cls + '._exec_loop_moving_window'] = self.window
        con['pykrige.lib.cok._c_exec_loop'] = self.csolver
        con['pykrige.lib.cok._c_exec_loop_moving_window'] = self.cwindow

    # ------------------------------------------------------------ contracts of the callees
    def matrix(self, eng, f, args, kw):
        a = eng.bind(f, args, kw)
        n = eng.force(a['n'])
        eng.oblige('precondition of _get_kriging_matrix: number of data', cmp('==', n, self.n))
        if self.uk:
            eng.oblige('precondition of _get_kriging_matrix: number of data and drift terms', cmp('==', eng.force(a['n_withdrifts']), add(self.n, self.extra)))
        N = add(add(self.n, self.extra), 1)
        nz = toz(self.n, I)
        return eng.np.new((N, N), lambda q: KM(nz, toz(q[0], I), toz(q[1], I)), 'f')

    def is_matrix(self, a):
        eng, c = self.eng, self.c
        N = add(add(self.n, self.extra), 1)
        if not isinstance(a, Arr) or a.ndim != 2:
            return eng.fail('precondition of the solver: the kriging matrix', 'not a matrix')
        i, j = eng.pv.sk('i'), eng.pv.sk('j')
        for k in (0, 1):
            eng.oblige('precondition of the solver: size of the kriging matrix', cmp('==', a.shape[k], N))
        c.same_elem('precondition of the solver: the kriging matrix', a.get((i, j)), KM(toz(self.n, I), i, j), [0 <= i, i < toz(N, I), 0 <= j, j < toz(N, I)])

    def points(self, bd, mask, k):
        """distances and mask of all points -> number of points"""
        eng = self.eng
        if not isinstance(bd, Arr) or bd.ndim != 2 or not isinstance(mask, Arr) or mask.ndim != 1:
            eng.fail('precondition of the solver: distances and mask', 'wrong rank')
            raise Unsupported('distances or mask of the wrong rank')
        npt = bd.shape[0]
        eng.oblige('precondition of the solver: one distance per datum', cmp('==', bd.shape[1], k))
        eng.oblige('precondition of the solver: one mask entry per point', cmp('==', mask.shape[0], npt))
        eng.oblige('precondition of the solver: some point', cmp('>=', npt, 1))
        return npt

    def outcome(self, npt, live, val, masked=False):
        eng, rs = self.eng, []
        for k, w in enumerate('ZS'):
            a = eng.np.new((npt,), lambda q, k=k, w=w: ite(live(q[0]), val(w, q[0]), OUT(z3.IntVal(k), toz(q[0], I))), 'f')
            if masked:      # a masked array or a plain one
                if eng.decide(z3.Bool('masked result')):
                    hid = z3.Function('HIDDEN', I, B)
                    a = MArr(a, eng.np.new((npt,), lambda q: b_and(b_not(live(q[0])), hid(toz(q[0], I))), 'b'))
            rs.append(a)
        return tuple(rs)

    def row(self, bd, p):
        return T.lam(lambda i: bd((p, i)))

    def solver(self, masked):
        def spec(eng, f, args, kw):
            a = {k: eng.force(v) for k, v in eng.bind(f, args, kw).items()}
            names = list(a)
            bdn = [x for x in names if x.startswith('bd')][0]
            bd, mask = a[bdn], a['mask']
            if isinstance(bd, SqArr):
                bd = eng.np.desq(bd)
            self.is_matrix(a['a'])
            npt = self.points(bd, mask, self.n)
            bd, mk = eng.np.freeze(eng, bd).reader(), eng.np.freeze(eng, mask).reader()
            zero = [Fraction(0)] * self.nd
            xa = xo = lambda p: zero
            spv = lambda p: T.lam(lambda m: Fraction(0))
            if self.uk:
                xa, xo, spv = self.drift_args(a, npt)
            nz = simp(toz(self.n, I))
            return self.outcome(npt, lambda p: b_not(mk((p,))),
                                lambda w, p: head(self.nd, w)(nz, self.row(bd, p), *[som(toz(v, R)) for v in list(xa(p)) + list(xo(p))], spv(p)), masked)
        return spec

    def window(self, eng, f, args, kw):
        a = {k: eng.force(v) for k, v in eng.bind(f, args, kw).items()}
        return self.window_result(a['a_all'], a['bd_all'], a['mask'], a['bd_idx'], None)

    def window_result(self, a, bd, mask, idx, conv):
        eng = self.eng
        self.is_matrix(a)
        if isinstance(idx, Arr) and idx.ndim == 1 and not conv:
            raise Raise('IndexError', 'a vector of selected data')      # unit "one neighbour is refused"
        conv = conv or (lambda m: m)
        if not isinstance(idx, Arr) or idx.ndim != 2:
            eng.fail('precondition of the window solver: selection', 'not a matrix')
            raise Unsupported('selection of the wrong rank')
        k = idx.shape[1]
        npt = self.points(bd, mask, k)
        eng.oblige('precondition of the window solver: one selection per point', cmp('==', idx.shape[0], npt))
        p, j = eng.pv.sk('p'), eng.pv.sk('j')
        self.c.prove('precondition of the window solver: selected data exist', b_and(cmp('>=', idx.get((p, j)), 0), cmp('<', idx.get((p, j)), self.n)),
                     [0 <= p, toz(cmp('<', p, npt)), 0 <= j, toz(cmp('<', j, k))])
        bd, mk, ix = [eng.np.freeze(eng, x).reader() for x in (bd, mask, idx)]
        return self.outcome(npt, lambda p: b_not(conv(mk((p,)))), lambda w, p: self.win(w, k, lambda j: bd((p, j)), lambda j: ix((p, j))))

    def win(self, w, k, d, ix):
        return WIN[w](simp(toz(self.n, I)), simp(toz(k, I)), T.lam(d), T.lam(lambda j: toint(ix(j))))

    def cpars(self, d):
        eng = self.eng
        if not isinstance(d, PDict):
            eng.fail('precondition of the compiled loop: parameters', 'not a dict')
            return
        want = dict(Z=self.Z, eps=S.EPS, variogram_model_parameters=self.par, variogram_function=self.vf, **self.flags)
        for k, v in want.items():
            g = d.d.get(k)
            if isinstance(v, (Arr, PList)) and k == 'Z' and isinstance(g, Arr):
                q = eng.pv.sk('q')
                eng.oblige('precondition of the compiled loop: number of values', cmp('==', g.shape[0], self.n))
                self.c.same_elem('precondition of the compiled loop: data values', g.get((q,)), v.get((q,)), [0 <= q, q < self.n])
            elif k == 'exact_values' or k == 'pseudo_inv':
                eng.oblige('precondition of the compiled loop: ' + k, simp(toz(truth(g)) == toz(v)) if is_scalar(g) else False)
            elif k == 'eps':
                eng.oblige('precondition of the compiled loop: eps', cmp('==', g, v) if is_scalar(g) else False)
            else:
                eng.oblige('precondition of the compiled loop: ' + k, g is v)

    def int8(self, mask):
        if not isinstance(mask, Arr) or mask.kind != 'i':
            self.eng.fail('precondition of the compiled loop: mask of 8-bit integers', 'is of kind %s' % getattr(mask, 'kind', '?'))

    def supported(self):
        self.eng.oblige('precondition of the compiled loop: a variogram function with a compiled version',
                        isinstance(self.vf, Func) and self.vf.node.name.replace('_variogram_model', '') in ('linear', 'power', 'gaussian', 'exponential', 'spherical', 'hole_effect'))

    def csolver(self, eng, f, args, kw):
        a, bd, mask, n, d = [eng.force(v) for v in list(eng.bind(f, args, kw).values())]
        if not isinstance(self.vf, Func) or self.vf.node.name == 'hole_effect_variogram_model':
            raise Raise('NotImplementedError', 'no compiled version')     # unit lib.variogram_models.get_variogram_model
        self.is_matrix(a)
        eng.oblige('precondition of the compiled loop: number of data', cmp('==', n, self.n))
        npt = self.points(bd, mask, self.n)
        self.int8(mask)
        self.cpars(d)
        self.supported()
        bd, mk = eng.np.freeze(eng, bd).reader(), eng.np.freeze(eng, mask).reader()
        nz = simp(toz(self.n, I))
        zero = [toz(Fraction(0))] * (2 * self.nd)
        return self.outcome(npt, lambda p: cmp('==', mk((p,)), 0), lambda w, p: head(self.nd, w)(nz, self.row(bd, p), *zero, T.lam(lambda m: Fraction(0))))

    def cwindow(self, eng, f, args, kw):
        a, bd, mask, idx, n, d = [eng.force(v) for v in list(eng.bind(f, args, kw).values())]
        if not isinstance(self.vf, Func) or self.vf.node.name == 'hole_effect_variogram_model':
            raise Raise('NotImplementedError', 'no compiled version')     # unit lib.variogram_models.get_variogram_model
        eng.oblige('precondition of the compiled loop: number of data', cmp('==', n, self.n))
        self.int8(mask)
        self.cpars(d)
        self.supported()
        return self.window_result(a, bd, mask, idx, lambda m: cmp('!=', m, 0))

    # ------------------------------------------------------------ specification of the result at one point
    def data(self, m):
        return [x.get((m,)) for x in self.X]

    def at(self, x):
        return adj(x, self.ctr, self.sc, self.an) if self.ctype == 'euclidean' else list(x)

    def value(self, w, x, k=None, spec=None):
        """kriging at the original coordinates x"""
        a = self.at(x)
        D = lambda m: S.dist(self.ctype, a, self.data(m))
        nz = simp(toz(self.n, I))
        if k is not None:
            near = lambda j: knn(self.n, k, self.neardist(x), j)
            return self.win(w, k, lambda j: D(near(j)), near)
        zero = [Fraction(0)] * self.nd
        sp = T.lam(spec if spec is not None else (lambda m: Fraction(0)))
        return head(self.nd, w)(nz, T.lam(D), *[som(toz(v, R)) for v in ((a if self.uk else zero) + (list(x) if self.uk and self.nd == 2 else zero))], sp)

    def neardist(self, x):
        """distance to datum m the selection is made by"""
        a = self.at(x)
        if self.ctype == 'euclidean':
            return lambda m: S.edist(a, self.data(m))
        u = direction(a)
        return lambda m: S.edist(u, direction(self.data(m)))


def direction(p):
    """unit vector of longitude, latitude in degrees"""
    lon, lat = S.rad(p[0]), S.rad(p[1])
    return [mul(t_cos(lon), t_cos(lat)), mul(t_sin(lon), t_cos(lat)), t_sin(lat)]


def toint(x):
    return toz(x, I)


def knn(n, k, D, j):
    return KNN(simp(toz(n, I)), simp(toz(k, I)), T.lam(D), toz(j, I))


class Tree(External):
    """scipy.spatial.cKDTree of the rows of an array; query(points, k): the k nearest rows, by increasing distance"""

    def __init__(self, eng, data):
        self.data = eng.np.freeze(eng, eng.np.desq(eng.np.asarr(data)))

    def getattr(self, eng, name):
        if name == 'query':
            return Prim('cKDTree.query', self.query)
        raise Unsupported('cKDTree.' + name)

    def query(self, eng, args, kw):
        kw = dict(kw)
        x = eng.np.freeze(eng, eng.np.desq(eng.np.asarr(eng.force(args[0]))))
        k = eng.force(args[1] if len(args) > 1 else kw.pop('k', 1))
        kw.pop('k', None)
        for nm, want in (('eps', 0), ('p', 2), ('workers', None)):
            if nm in kw:
                v = eng.force(kw.pop(nm))
                if want is not None and not (is_num(v) and v == want):
                    raise Unsupported('cKDTree.query %s' % nm)
        if kw or len(args) > 2:
            raise Unsupported('cKDTree.query arguments')
        if x.ndim != 2 or self.data.ndim != 2:
            raise Unsupported('cKDTree.query shapes')
        if not eng.decide(cmp('==', x.shape[1], self.data.shape[1])):
            raise Raise('ValueError')
        n = self.data.shape[0]
        if eng.decide(cmp('<', k, 1)):
            raise Raise('ValueError')
        one = eng.decide(cmp('==', k, 1))
        if not eng.decide(cmp('<=', k, n)):
            raise Unsupported('cKDTree.query with more neighbours than data')
        nc = x.shape[1]
        rd, xr = self.data.reader(), x.reader()
        dist_ = lambda p, m: S.edist([xr((p, q)) for q in range(nc)], [rd((m, q)) for q in range(nc)])
        ix = lambda p, j: knn(n, k, lambda m: dist_(p, m), j)
        npt = x.shape[0]
        d = eng.np.new((npt, k), lambda q: dist_(q[0], ix(q[0], q[1])), 'f')
        i = eng.np.new((npt, k), lambda q: ix(q[0], q[1]), 'i')
        if one:     # vectors
            return tuple(eng.np.view(v, (SliceV(None, None, None), 0)) for v in (d, i))
        return (d, i)


def knn_axiom(x):
    """the j-th nearest datum is a datum"""
    if x.decl().name() == 'KNN':
        n, k, j = x.arg(0), x.arg(1), x.arg(3)
        return [z3.Implies(z3.And(0 <= j, j < k, n >= 1), z3.And(0 <= x, x < n))]


def install(eng):
    t = Prim('cKDTree', lambda e, args, kw: Tree(e, e.force(args[0])))
    eng.externals['scipy.spatial.cKDTree'] = eng.externals['scipy.spatial.KDTree'] = t
    eng.pv.extra_axioms.append(knn_axiom)


OK, OK3, UK, UK3 = 'pykrige.ok.OrdinaryKriging', 'pykrige.ok3d.OrdinaryKriging3D', 'pykrige.uk.UniversalKriging', 'pykrige.uk3d.UniversalKriging3D'


def mask_of(c, x):
    x = c.eng.force(x)
    return x.mask if isinstance(x, MArr) else None


def result_is(c, lab, v, shape, masked, value, mask=None):
    """both results have the shape; entry idx equals value(which, idx) where the mask is False;
    masked results carry exactly the mask, others hide nothing"""
    r = is_pair(c, lab, v)
    if r is None:
        return
    if r[0] is r[1] or (isinstance(r[0], Arr) and isinstance(r[1], Arr) and r[0].cell is r[1].cell):
        c.eng.fail(lab + ': estimates and variances are separate arrays', 'same array twice')
    for nm, w, x in (('estimate', 'Z', r[0]), ('variance', 'S', r[1])):
        L = '%s: %s' % (lab, nm)
        if isinstance(x, MArr):
            x, mk = x.data, x.mask
        else:
            mk = None
        if isinstance(x, SqArr):
            x = c.eng.np.desq(x)
        if not isinstance(x, Arr) or x.ndim != len(shape):
            c.eng.fail(L + ': shape', 'wrong rank or type %s' % type(x).__name__)
            continue
        if x.cell.frozen:
            c.eng.fail(L + ': fresh array', 'the result is an array of the caller or the model')
        for k, (a, b) in enumerate(zip(x.shape, shape)):
            c.prove('%s: extent %d' % (L, k), cmp('==', a, b))
        q = tuple(c.eng.pv.sk('q') for _ in shape)
        rng = []
        for i, s in zip(q, shape):
            rng += [0 <= i, toz(cmp('<', i, s))]
        live = [] if mask is None else [z3.Not(toz(mask(q), B))]
        c.same_elem('%s: entry' % L, x.get(q), value(w, q), rng + live)
        if masked and mk is None:
            c.eng.fail(L + ': masked array', 'plain array')
        elif masked:
            c.same_elem('%s: carries exactly the mask' % L, mk.get(q), mask(q), rng)
        elif mk is not None:
            c.same_elem('%s: hides nothing' % L, mk.get(q), False, rng)


BACKENDS = {OK: ('vectorized', 'loop', 'C'), UK: ('vectorized', 'loop'), OK3: ('vectorized', 'loop'), UK3: ('vectorized', 'loop')}


def ordinary(name, cls, nd, ctype, style, backend, window, model=None, *props):
    @unit(name, *props)
    def go(c):
        install(c.eng)
        w = World(c, cls, nd, ctype, model)
        dims = [c.int(s) for s in ('nx', 'ny', 'nz')[:nd]]
        pts = [c.array(k, (d,)) for k, d in zip(('px', 'py', 'pz'), dims)]
        pre = w.pre + [d >= 1 for d in dims]
        k = c.int('k') if window else None
        kw = dict(backend=backend)
        if window:
            kw['n_closest_points'] = k
        shape = tuple(reversed(dims))
        args = [style] + pts
        raises = lambda e: False
        bad = b_or(k < 2, k > w.n) if window else False
        coords = lambda q: [pts[a].get((q[nd - 1 - a],)) for a in range(nd)]
        mask = None
        if style == 'points':
            same = b_and(*[dims[0] == d for d in dims[1:]])
            bad = b_or(bad, b_not(same))
            shape = (dims[0],)
            coords = lambda q: [p.get((q[0],)) for p in pts]
        if style == 'masked':
            ms = [c.int('m%d' % i) for i in range(nd)]
            M = c.array('mask', tuple(ms), 'b')
            straight = b_and(*[m == d for m, d in zip(ms, shape)])
            turned = b_and(*[m == d for m, d in zip(ms, dims)])
            bad = b_or(bad, b_not(b_or(straight, turned)))
            pre += [m >= 1 for m in ms]
            kw['mask'] = M
            mask = lambda q: ite(straight, M.get(q), M.get(tuple(reversed(q))))
        # in three dimensions a single neighbour is refused by an IndexError
        exp = lambda e: simp(toz(bad)) if e.kind == 'ValueError' else k == 1 if e.kind == 'IndexError' and window and nd == 3 else False

        def post(v):
            c.prove('a request that cannot be met is refused', b_not(bad))
            result_is(c, 'result', v, shape, style == 'masked', lambda wh, q: w.value(wh, coords(q), k), mask)
        c.run(style, lambda: c.eng.call(c.func(cls + '.execute'), [w.o] + args, kw), pre, post, exp)


BASIC = ('P05', 'P13', 'P24', 'P22', 'P01+', 'P02+')
for _st in ('grid', 'points', 'masked'):
    for _ct in ('euclidean', 'geographic'):
        _geo = ('P12',) if _ct == 'geographic' else ('P11',)
        for _be in ('vectorized', 'loop', 'C'):
            ordinary('ok.execute[%s,%s,%s]' % (_st, _ct, _be), OK, 2, _ct, _st, _be, False, 'gaussian' if _be == 'C' else None, *BASIC, 'P04', *_geo, *(('P23',) if _be == 'C' else ()))
        for _be in ('loop', 'C'):
            ordinary('ok.execute[%s,%s,%s,window]' % (_st, _ct, _be), OK, 2, _ct, _st, _be, True, 'gaussian' if _be == 'C' else None, *BASIC, 'P04', 'P06', *_geo, *(('P23',) if _be == 'C' else ()))
    for _be in ('vectorized', 'loop'):
        ordinary('ok3d.execute[%s,%s]' % (_st, _be), OK3, 3, 'euclidean', _st, _be, False, None, *BASIC, 'P04', 'P11')
    ordinary('ok3d.execute[%s,loop,window]' % _st, OK3, 3, 'euclidean', _st, 'loop', True, None, *BASIC, 'P04', 'P06', 'P11')


# ---------------------------------------------------------------- refusals
def grid_args(c, nd):
    dims = [c.int(s) for s in ('nx', 'ny', 'nz')[:nd]]
    return dims, [c.array(k, (d,)) for k, d in zip(('px', 'py', 'pz'), dims)], [d >= 1 for d in dims]


def refusals(cls, nm, nd, *props):
    uk = 'uk' in nm
    backends = BACKENDS[cls]

    def world(c, ctype, model):
        from .u_uk import Drift
        install(c.eng)
        return World(c, cls, nd, ctype, model, Drift(c, nd, *([False] * 5)) if uk else None)

    def refused(c, label, w, args, kw, pre):
        # any error will do, a result will not
        c.run(label, lambda: c.eng.call(c.func(cls + '.execute'), [w.o] + args, kw), pre, lambda v: c.prove(label + ': is refused', False), lambda e: True, total=False)

    for ct in ('euclidean', 'geographic') if cls == OK else ('euclidean',):
        @unit('%s.execute[%s,refused]' % (nm, ct), *props)
        def go(c, ct=ct):
            w = world(c, ct, 'linear')
            dims, pts, pre = grid_args(c, nd)
            pre = w.pre + pre
            st, be = SymStr('style'), SymStr('backend')
            unknown = lambda s, known: [s.code != str_code(k) for k in known]
            wins = [{}] + ([{'n_closest_points': c.int('k')}] if not uk else [])
            for b in backends:
                for kw in wins:
                    refused(c, 'unknown style, %s' % b, w, [st] + pts, dict(kw, backend=b), pre + unknown(st, ('grid', 'points', 'masked')))
                    refused(c, 'masked without a mask, %s' % b, w, ['masked'] + pts, dict(kw, backend=b), pre)
            for kw in wins:
                for s in ('grid', 'points'):
                    refused(c, 'unknown backend, %s' % s, w, [s] + pts, dict(kw, backend=be), pre + unknown(be, backends))
                M = c.array('mask', tuple(reversed(dims)), 'b')
                refused(c, 'unknown backend, masked', w, ['masked'] + pts, dict(kw, backend=be, mask=M), pre + unknown(be, backends))
            # (a mask of rank 3 in two dimensions gets as far as np.ma.array, which refuses it by its size)
            for r in (1, 2):
                if r != nd:
                    ms = [c.int('r%d' % i) for i in range(r)]
                    refused(c, 'mask of rank %d' % r, w, ['masked'] + pts, dict(mask=c.array('mask%d' % r, tuple(ms), 'b')), pre + [m >= 1 for m in ms])
            if not uk:
                for b in backends:
                    if b == 'vectorized':
                        refused(c, 'moving window, vectorized', w, ['grid'] + pts, dict(backend=b, n_closest_points=c.int('k')), pre)
            if 'C' in backends:
                k = c.int('k')
                for model in ('hole-effect', None):
                    w = world(c, ct, model)
                    for kw in wins:
                        refused(c, 'compiled loop without a compiled variogram', w, ['grid'] + pts, dict(kw, backend='C'), w.pre + pre)


for _c, _n, _d in ((OK, 'ok', 2), (OK3, 'ok3d', 3), (UK, 'uk', 2), (UK3, 'uk3d', 3)):
    refusals(_c, _n, _d, 'P22')


def compiled_models(model, *props):
    """the compiled loop with the other built-in models"""
    @unit('ok.execute[grid,C,%s]' % model, *props)
    def go(c):
        install(c.eng)
        for ct in ('euclidean', 'geographic'):
            for win in (False, True):
                w = World(c, OK, 2, ct, model)
                (nx, ny), pts, pre = grid_args(c, 2)
                k = c.int('k') if win else None
                kw = dict(backend='C', **({'n_closest_points': k} if win else {}))
                bad = b_or(k < 2, k > w.n) if win else False
                lab = '%s%s' % (ct, ', window' if win else '')

                def post(v):
                    c.prove(lab + ': a request that cannot be met is refused', b_not(bad))
                    result_is(c, lab, v, (ny, nx), False, lambda wh, q: w.value(wh, [pts[0].get((q[1],)), pts[1].get((q[0],))], k))
                c.run(lab, lambda: c.eng.call(c.func(OK + '.execute'), [w.o, 'grid'] + pts, kw), w.pre + pre, post, lambda e: simp(toz(bad)) if e.kind == 'ValueError' else False)


for _m in ('linear', 'power', 'exponential', 'spherical'):
    compiled_models(_m, 'P04', 'P23')


# ---------------------------------------------------------------- universal kriging
def flat_at(eng, v, p):
    """entry p of the flattening of a list element"""
    if isinstance(v, Choice):
        return ite(v.cond, flat_at(eng, v.a, p), flat_at(eng, v.b, p))
    if not isinstance(v, (Arr, SqArr)):
        raise Unsupported('drift values of type %s' % type(v).__name__)
    return eng.np.flatten(v).get((p,))


def flat_size(eng, v):
    if isinstance(v, Choice):
        return ite(v.cond, flat_size(eng, v.a), flat_size(eng, v.b))
    if not isinstance(v, (Arr, SqArr)):
        raise Unsupported('drift values of type %s' % type(v).__name__)
    return eng.np.flatten(v).shape[0]


def item_at(l, m):
    """entry m of a list, m possibly symbolic"""
    if l.concrete and not is_z(m):
        return l.items[m]
    if l.concrete:
        r = l.items[-1]
        for k in reversed(range(len(l.items) - 1)):
            r = Choice(cmp('==', m, k), l.items[k], r)
        return r
    if l.items:
        raise Unsupported('list of mixed form')
    return l.elem(m)


def drift_args(self, a, npt):
    eng, v = self.eng, list(a.values())
    xy = eng.np.freeze(eng, v[3])
    xyo = eng.np.freeze(eng, v[4]) if self.nd == 2 else None
    nwd, grids = v[-2], v[-1]
    for x in (xy, xyo):
        if x is not None:
            eng.oblige('precondition of the solver: one row of coordinates per point', b_and(cmp('==', x.shape[0], npt), cmp('==', x.shape[1], self.nd)))
    eng.oblige('precondition of the solver: number of data and drift terms', cmp('==', nwd, add(self.n, self.extra)))
    order = range(2) if self.nd == 2 else (2, 1, 0)
    rd = xy.reader()
    xa = lambda p: [rd((p, k)) for k in order]
    zero = [Fraction(0)] * self.nd
    xo = (lambda p: zero) if xyo is None else lambda p: [xyo.get((p, k)) for k in range(2)]
    M = self.dr.M if self.dr.flags[3] else 0
    if not isinstance(grids, PList):
        eng.fail('precondition of the solver: list of drift values', type(grids).__name__)
        raise Unsupported('drift values')
    eng.oblige('precondition of the solver: one array of values per specified drift', cmp('==', grids.length(), M))
    if not self.dr.flags[3]:
        return xa, xo, lambda p: T.lam(lambda m: Fraction(0))
    m = eng.pv.sk('m')
    self.c.prove('precondition of the solver: one drift value per point', cmp('==', flat_size(eng, item_at(grids, m)), npt), [0 <= m, toz(cmp('<', m, M), B)])
    return xa, xo, lambda p: T.lam(lambda m: ite(b_and(cmp('>=', m, 0), cmp('<', m, M)), flat_at(eng, item_at(grids, m), p), Fraction(0)))


World.drift_args = drift_args


def universal(name, cls, nd, style, backend, fl, given, *props):
    """given: None (no arrays), 'list' (a list of any length of arrays of any extents)"""
    @unit(name, *props)
    def go(c):
        from .u_uk import Drift, FASS
        c.assumed.append(FASS)
        install(c.eng)
        dr = Drift(c, nd, *fl)
        w = World(c, cls, nd, 'euclidean', None, dr)
        if fl[3]:
            w.o.attrs['specified_drift_data_arrays'] = dr.arrays('SPEC', (w.n,))[0]
        dims = [c.int(s) for s in ('nx', 'ny', 'nz')[:nd]]
        pts = [c.array(k, (d,)) for k, d in zip(('px', 'py', 'pz'), dims)]
        pre = w.pre + [d >= 1 for d in dims]
        kw = dict(backend=backend)
        shape = tuple(reversed(dims))
        turned_ = dims
        coords = lambda q: [pts[a].get((q[nd - 1 - a],)) for a in range(nd)]
        bad, mask = False, None
        if style == 'points':
            bad = b_not(b_and(*[dims[0] == d for d in dims[1:]]))
            shape, turned_ = (dims[0],), None
            coords = lambda q: [p.get((q[0],)) for p in pts]
        if style == 'masked':
            ms = [c.int('m%d' % i) for i in range(nd)]
            Mk = c.array('mask', tuple(ms), 'b')
            straight = b_and(*[m == d for m, d in zip(ms, shape)])
            bad = b_or(bad, b_not(b_or(straight, b_and(*[m == d for m, d in zip(ms, dims)]))))
            pre += [m >= 1 for m in ms]
            kw['mask'] = Mk
            mask = lambda q: ite(straight, Mk.get(q), Mk.get(tuple(reversed(q))))
        spec = lambda q: None
        if given:
            r = len(shape)
            L = c.int('given')
            pre.append(L >= 0)
            ext = [z3.Function('GEXT%d' % k, I, I) for k in range(r)]
            val = z3.Function('GIVEN', *([I] * (r + 1) + [R]))

            def mk(i):
                iz = toz(i, I)
                x = c.eng.np.new(tuple(e(iz) for e in ext), lambda idx: val(iz, *[toz(k, I) for k in idx]), 'f', 'GIVEN')
                x.cell.frozen = True
                return x
            lst = PList(c.eng.heap, [], L, mk)
            lst.frozen = True
            kw['specified_drift_arrays'] = lst
            b = z3.Int('b')
            pre.append(z3.ForAll([b], z3.And(*[e(b) >= 1 for e in ext])))
            st = lambda m: b_and(*[cmp('==', e(toz(m, I)), d) for e, d in zip(ext, shape)])
            tu = (lambda m: b_and(*[cmp('==', e(toz(m, I)), d) for e, d in zip(ext, turned_)])) if turned_ else (lambda m: False)
            spec = lambda q: lambda m: ite(b_and(cmp('>=', m, 0), cmp('<', m, dr.M)), ite(st(m), val(toz(m, I), *q), val(toz(m, I), *reversed(q))), Fraction(0))
        if fl[3]:
            if not given:
                bad = True
            else:
                bad = b_or(bad, L != dr.M, T.mk_any(L, lambda m: b_not(b_or(st(m), tu(m)))))
        else:
            spec = lambda q: None
        exp = lambda e: simp(toz(bad)) if e.kind == 'ValueError' else False

        def post(v):
            c.prove('a request that cannot be met is refused', b_not(bad))
            result_is(c, 'result', v, shape, style == 'masked', lambda wh, q: w.value(wh, coords(q), None, spec(q)), mask)
        c.run(style, lambda: c.eng.call(c.func(cls + '.execute'), [w.o, style] + pts, kw), pre, post, exp, total=bool(given) or not fl[3])


UKP = BASIC + ('P04', 'P03', 'P11')
for _cls, _nm, _nd, _full in ((UK, 'uk', 2, (True, True, True, True, True)), (UK3, 'uk3d', 3, (True, False, False, True, True))):
    for _st in ('grid', 'points', 'masked'):
        for _be in ('vectorized', 'loop'):
            _a = '%s,%s' % (_st, _be)
            universal('%s.execute[%s]' % (_nm, _a), _cls, _nd, _st, _be, (False,) * 5, None, *UKP)
            universal('%s.execute[%s,drift]' % (_nm, _a), _cls, _nd, _st, _be, _full[:3] + (False, True), None, *UKP)
            universal('%s.execute[%s,drift with given values]' % (_nm, _a), _cls, _nd, _st, _be, _full, 'list', *UKP)
        universal('%s.execute[%s,values given without need]' % (_nm, _st), _cls, _nd, _st, 'loop', (True, False, False, False, False), 'list', *UKP)
        universal('%s.execute[%s,missing values]' % (_nm, _st), _cls, _nd, _st, 'loop', (True, False, False, True, False), None, *UKP)
