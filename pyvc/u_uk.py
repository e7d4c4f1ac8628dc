"""Contracts: universal kriging, the system with drift terms and its solution."""
import itertools
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *
from .u_ok import C, VFASS, new_obj, params, gam, solver, rhs, solution, system, is_pair, result_entries

UK, UK3 = 'pykrige.uk.UniversalKriging', 'pykrige.uk3d.UniversalKriging3D'
FASS = 'functional drift terms are pure and elementwise'


def well_drift(dist):
    """logarithmic distance; -100 at the well itself"""
    return ite(cmp('==', dist, 0), Fraction(-100), t_log(dist))


class Drift:
    """a drift configuration with symbolic numbers of wells, specified and functional terms"""

    def __init__(self, c, nd, reg, log=False, ext=False, spec=False, fun=False):
        self.c, self.nd = c, nd
        self.flags = (reg, log, ext, spec, fun)
        self.W, self.M, self.F = c.int('wells'), c.int('specified'), c.int('functional')
        self.wells = c.array('WELLS', (self.W, 3))
        self.pre = [x >= 1 for x, f in ((self.W, log), (self.M, spec), (self.F, fun)) if f]
        fd = z3.Function('FD', *([I] + [R] * nd + [R]))
        self.fd = lambda k, *x: fd(toz(k, I), *[som(toz(v, R)) for v in x])
        ex = z3.Function('EXTDRIFT', R, R, R)
        self.ext = lambda x, y: ex(som(toz(x, R)), som(toz(y, R)))
        self.count = 0
        for f, k in ((reg, nd), (log, self.W), (ext, 1), (spec, self.M), (fun, self.F)):
            if f:
                self.count = add(self.count, k)

    @property
    def label(self):
        nm = [s for s, f in zip(('linear', 'well', 'external', 'specified', 'functional'), self.flags) if f]
        return 'drift: ' + (', '.join(nm) or 'none')

    def functions(self):
        def mk(i):
            def call(eng, args, kw):
                if len(args) != self.nd or kw:
                    raise Raise('TypeError')
                xs = [eng.force(a) for a in args]
                if all(is_scalar(x) for x in xs):
                    return self.fd(i, *xs)
                return eng.np.elementwise(lambda *x: self.fd(i, *x), xs, 'f')
            return UserFn('drift', call, raw=True)
        p = PList(self.c.eng.heap, [], self.F, mk)
        p.frozen = True
        return p

    def arrays(self, name, shape):
        """list of M arrays of the shape"""
        f = z3.Function(name, *([I] * (len(shape) + 1) + [R]))

        def mk(i):
            a = self.c.eng.np.new(shape, lambda idx: f(toz(i, I), *[toz(k, I) for k in idx]), 'f', name)
            a.cell.frozen = True
            return a
        p = PList(self.c.eng.heap, [], self.M, mk)
        p.frozen = True
        return p, lambda m, *idx: f(toz(m, I), *[toz(k, I) for k in idx])

    def attrs(self):
        reg, log, ext, spec, fun = self.flags
        d = dict(UNBIAS=True, regional_linear_drift=reg, specified_drift=spec, functional_drift=fun)
        if self.nd == 2:
            d.update(point_log_drift=log, external_Z_drift=ext)
        if log:
            d['point_log_array'] = self.wells
        if fun:
            d['functional_drift_terms'] = self.functions()
        return d

    def term(self, x, ext, spec):
        """drift term k at adjusted coordinates x; ext: external value, spec(m): specified value m"""
        reg, log, e_, s_, f_ = self.flags

        def at(k):
            parts, off = [], 0
            if reg:
                for q in range(self.nd):
                    parts.append((add(off, q), lambda k, q=q: x[q], 1))
                off = add(off, self.nd)
            if log:
                w = self.wells.get
                o = off
                parts.append((off, lambda k: neg(mul(w((sub(k, o), 2)), well_drift(S.edist(x, [w((sub(k, o), 0)), w((sub(k, o), 1))])))), self.W))
                off = add(off, self.W)
            if e_:
                parts.append((off, lambda k: ext, 1))
                off = add(off, 1)
            if s_:
                o2 = off
                parts.append((off, lambda k: spec(sub(k, o2)), self.M))
                off = add(off, self.M)
            if f_:
                o3 = off
                parts.append((off, lambda k: self.fd(sub(k, o3), *x), self.F))
            r = Fraction(0)
            for o, f, cnt in reversed(parts):
                r = ite(cmp('<', k, add(o, cnt)), f(k), r)
            return r
        return at


def configs(nd):
    n = 5 if nd == 2 else 3
    for fl in itertools.product((False, True), repeat=n):
        yield fl if nd == 2 else (fl[0], False, False, fl[1], fl[2])


QUICK = {2: ('0', 'l', 'w', 'e', 'S', 'f', 'lweSf'), 3: ('0', 'lSf')}


def matrix_unit(name, cls, nd, fl, *props):
    @unit(name, *props, quick=tag(fl) in QUICK[nd])
    def go(c):
        c.assumed += [VFASS, FASS]
        dr = Drift(c, nd, *fl)
        n = c.int('n')
        X = [c.array(k, (n,)) for k in ('X', 'Y', 'Zc')[:nd]]
        par, np_ = params(c)
        at = dict(zip(('X_ADJUSTED', 'Y_ADJUSTED', 'Z_ADJUSTED'), X))
        at.update(variogram_function=S.vf_user(), variogram_model_parameters=par, **dr.attrs())
        zs = c.array('ZSC', (n,))
        if fl[2]:
            at['z_scalars'] = zs
        arr, av = dr.arrays('SPEC', (n,))
        if fl[3]:
            at['specified_drift_data_arrays'] = arr
        o = new_obj(c, cls, **at)
        row = lambda i: [x.get((i,)) for x in X]
        D = lambda i, j: S.edist(row(i), row(j))
        fd = lambda k, i: dr.term(row(i), zs.get((i,)), lambda m: av(m, i))(k)
        N, A = system(n, D, gam(c, par), drift=(dr.count, fd, None))
        nw = add(n, dr.count)
        lab = dr.label
        c.run(lab, lambda: c.eng.call(c.func(cls + '._get_kriging_matrix'), [o, n, nw], {}), [n >= 1, np_ >= 0] + dr.pre,
              lambda v: c.array_is(lab + ': kriging matrix', v, (add(nw, 1), add(nw, 1)), lambda q: A(q[0], q[1])))


def tag(fl):
    return ''.join(s for s, f in zip('lweSf', fl) if f) or '0'


def zsc_contract(dr):
    """contract of _calculate_data_point_zscalars: the external drift at the coordinates given"""
    def spec(eng, f, args, kw):
        a = eng.bind(f, args, kw)
        x, y = eng.force(a['x']), eng.force(a['y'])
        ty = eng.force(a['type_'])
        if ty == 'scalar':
            if not (is_scalar(x) and is_scalar(y)):
                raise Unsupported('scalar external drift of arrays')
            return dr.ext(x, y)
        x, y = eng.np.asarr(x), eng.np.asarr(y)
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported('external drift of shaped points')
        eng.oblige('precondition of _calculate_data_point_zscalars: as many x as y', cmp('==', x.shape[0], y.shape[0]))
        return eng.np.elementwise(dr.ext, [x, y], 'f')
    return spec


def exec_unit(name, cls, meth, nd, fl, pinv, *props):
    @unit(name, *props, quick=tag(fl) in QUICK[nd] if pinv is None else nd == 2 and pinv == 'pinv')
    def go(c):
        c.assumed += [VFASS, FASS]
        dr = Drift(c, nd, *fl)
        c.eng.contracts[UK + '._calculate_data_point_zscalars'] = zsc_contract(dr)
        n, npt = c.int('n'), c.int('npt')
        N = add(add(n, dr.count), 1)
        a = c.array('A', (N, N))
        bd = c.array('bd', (npt, n))
        mask, Z = c.array('mask', (npt,), 'b'), c.array('Z', (n,))
        par, np_ = params(c)
        ex = c.boolean('exact')
        at = dict(X_ADJUSTED=c.array('X', (n,)), Y_ADJUSTED=c.array('Y', (n,)), variogram_function=S.vf_user(), variogram_model_parameters=par,
                  pseudo_inv=pinv is not None, pseudo_inv_type=pinv or 'pinv', exact_values=ex, **dr.attrs())
        at['VALUES' if nd == 3 else 'Z'] = Z
        if nd == 3:
            at['Z_ADJUSTED'] = c.array('Zc', (n,))
        o = new_obj(c, cls, **at)
        xy = c.array('xy', (npt, nd))
        xo = c.array('xyo', (npt, nd))
        arr, av = dr.arrays('GRID', (npt,))
        spec_arg = arr if fl[3] else c.list([])
        inv = solver(N, lambda i, j: a.get((i, j)), pinv)

        def spec(p):
            # points come as rows (x, y) in 2D and (z, y, x) in 3D
            at_ = [xy.get((p, q)) for q in (range(2) if nd == 2 else (2, 1, 0))]
            ext = dr.ext(xo.get((p, 0)), xo.get((p, 1)))
            term = dr.term(at_, ext, lambda m: av(m, p))
            N_, b = rhs(n, lambda i: bd.get((p, i)), gam(c, par), ex, S.EPS, drift=(dr.count, term))
            return solution(n, N, inv, b, lambda k: Z.get((k,)))
        lab = '%s, %s' % (dr.label, pinv or 'inverse')
        args = [o, a, bd, xy] + ([xo] if nd == 2 else []) + [mask, add(n, dr.count), spec_arg]
        c.run(lab, lambda: c.eng.call(c.func(cls + '.' + meth), args, {}), [n >= 1, npt >= 1, np_ >= 0] + dr.pre,
              lambda v: result_entries(c, lab, v, npt, lambda p: mask.get((p,)), spec))


EXEC = ('P24', 'P03', 'P04', 'P05', 'P01', 'P02')
for _fl in configs(2):
    matrix_unit('uk._get_kriging_matrix[%s]' % tag(_fl), UK, 2, _fl, 'P24', 'P03', 'P02', 'P01')
    for _m in ('_exec_vector', '_exec_loop'):
        exec_unit('uk.%s[%s]' % (_m, tag(_fl)), UK, _m, 2, _fl, None, *EXEC)
for _fl in configs(3):
    matrix_unit('uk3d._get_kriging_matrix[%s]' % tag(_fl), UK3, 3, _fl, 'P24', 'P03', 'P02', 'P01')
    for _m in ('_exec_vector', '_exec_loop'):
        exec_unit('uk3d.%s[%s]' % (_m, tag(_fl)), UK3, _m, 3, _fl, None, *EXEC)
for _p in ('pinv', 'pinvh'):
    for _m in ('_exec_vector', '_exec_loop'):
        exec_unit('uk.%s[l,%s]' % (_m, _p), UK, _m, 2, (True, False, False, False, False), _p, *EXEC)
        exec_unit('uk3d.%s[l,%s]' % (_m, _p), UK3, _m, 3, (True, False, False, False, False), _p, *EXEC)
