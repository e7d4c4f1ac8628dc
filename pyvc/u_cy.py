"""Contracts: the compiled kernels (lib/*.pyx, read by pyxload)."""
from fractions import Fraction
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *
from .u_ok import solver, rhs, solution, result_entries, is_pair

L = 'pykrige.lib.cok.'
V = 'pykrige.lib.variogram_models.'
CMODELS = ('linear', 'power', 'gaussian', 'exponential', 'spherical')
GAM = {m: z3.Function('GAM_' + m.replace('-', '_'), S.PAR, R, R) for m in S.VARIO}


def c_variogram(model):
    @unit('lib.variogram_models.' + model, 'P09', 'P23', 'P04')
    def go(c):
        f = c.func(V + '_c_%s_variogram_model' % model)
        k = S.NPAR[model]
        n, nd, no, np_ = c.int('n'), c.int('nd'), c.int('no'), c.int('npar')
        par, d = c.array('par', (np_,)), c.array('dist', (nd,))
        out = c.array('out', (no,), frozen=False)
        old = out.reader()
        ps = [par.get((i,)) for i in range(k)]

        def post(v):
            q = c.eng.pv.sk('q')
            c.same_elem('every written entry equals the documented formula', out.get((q,)), S.VARIO[model](ps, d.get((q,))), [0 <= q, q < n])
            c.same_elem('nothing else is written', out.get((q,)), old((q,)), [n <= q, q < no])
        c.run('kernel', lambda: c.eng.call(f, [par, n, d, out], {}), [n >= 1, nd >= n, no >= n, np_ >= k] + S.par_pre(model, ps), post)


for _m in CMODELS:
    c_variogram(_m)


@unit('lib.variogram_models.get_variogram_model', 'P09', 'P04', 'P22')
def gvm(c):
    f = c.func(V + 'get_variogram_model')
    for m in CMODELS:
        g = c.func(V + '_c_%s_variogram_model' % m)
        py = c.func('pykrige.variogram_models.%s_variogram_model' % m)
        c.run(m, lambda: c.eng.call(f, [c.eng.getattr(py, '__name__')], {}), [], lambda v: c.prove(m + ': the compiled function of the model', v is g))
    nm = SymStr('name')
    c.run('other models', lambda: c.eng.call(f, [nm], {}), [nm.code != str_code(m + '_variogram_model') for m in CMODELS],
          lambda v: c.prove('other models are refused', False), lambda e: e.kind == 'NotImplementedError', total=False)


def kernel_contract(model):
    """contract of the compiled variogram functions (unit lib.variogram_models.<model>)"""
    def spec(eng, f, args, kw):
        par, n, d, out = [eng.force(v) for v in list(eng.bind(f, args, kw).values())]
        eng.oblige('precondition of the %s kernel: parameters' % model, cmp('>=', par.shape[0], S.NPAR[model]))
        eng.oblige('precondition of the %s kernel: inside the distances' % model, cmp('<=', n, d.shape[0]))
        eng.oblige('precondition of the %s kernel: inside the result' % model, cmp('<=', n, out.shape[0]))
        eng.oblige('precondition of the %s kernel: no overlap' % model, out.cell is not d.cell and out.cell is not par.cell)
        code = S.par_code(eng, par)
        rd = eng.np.freeze(eng, d).reader()
        v = eng.np.new((n,), lambda idx: GAM[model](code, som(toz(rd((idx[0],)), R))), 'f')
        eng.np.store(eng, out, (SliceV(0, n, None),), v)
        return None
    return spec


def kernel_setup(c, model, pinv, exact):
    np_ = S.NPAR[model]
    P = z3.Function('P', I, R)
    par = PList(c.eng.heap, [P(i) for i in range(np_)])
    par.frozen = True
    for m in CMODELS:
        c.eng.contracts[V + '_c_%s_variogram_model' % m] = kernel_contract(m)
    vf = c.func('pykrige.variogram_models.%s_variogram_model' % model)
    pars = dict(eps=S.EPS, variogram_model_parameters=par, variogram_function=vf, exact_values=exact, pseudo_inv=pinv is not None, pseudo_inv_type=pinv or 'pinv')
    code = S.par_code(c.eng, par)
    return pars, lambda d: GAM[model](code, som(toz(d, R)))


def c_global(name, model, *props):
    @unit(name, *props)
    def go(c):
        for pinv in (None, 'pinv', 'pinvh') if model == 'linear' else (None,):
            ex = c.boolean('exact')
            pars, gamma = kernel_setup(c, model, pinv, ex)
            n, npt = c.int('n'), c.int('npt')
            N = add(n, 1)
            a, bd = c.array('A', (N, N)), c.array('bd', (npt, n))
            mask, Z = c.array('mask', (npt,), 'i'), c.array('Z', (n,))
            d = c.dict(dict(pars, Z=Z))
            inv = solver(N, lambda i, j: a.get((i, j)), pinv)

            def spec(p):
                N_, b = rhs(n, lambda i: bd.get((p, i)), gamma, ex, S.EPS, size=lambda d: d)     # distances are not negative
                return solution(n, N, inv, b, lambda k: Z.get((k,)))
            lab = '%s, %s' % (model, pinv or 'inverse')
            c.run(lab, lambda: c.eng.call(c.func(L + '_c_exec_loop'), [a, bd, mask, n, d], {}), [n >= 1, npt >= 0],
                  lambda v: result_entries(c, lab, v, npt, lambda p: mask.get((p,)) != 0, spec))


for _m in CMODELS:
    c_global('lib.cok._c_exec_loop[%s]' % _m, _m, 'P04', 'P23', 'P24', 'P05', 'P01', 'P02')


def c_window(name, model, *props, quick=True):
    """moving window: the system restricted to the k selected data of each point; every access inside the buffers"""
    @unit(name, *props, quick=quick)
    def go(c):
        ex = c.boolean('exact')
        pars, gamma = kernel_setup(c, model, None, ex)
        n, k, npt = c.int('n'), c.int('k'), c.int('npt')
        N = add(n, 1)
        a, bd = c.array('A', (N, N)), c.array('bd', (npt, k))
        idx = c.array('idx', (npt, k), 'i')
        mask, Z = c.array('mask', (npt,), 'i'), c.array('Z', (n,))
        d = c.dict(dict(pars, Z=Z))
        p, j = z3.Ints('p j')
        inb = z3.ForAll([p, j], z3.Implies(z3.And(0 <= p, p < npt, 0 <= j, j < k), z3.And(0 <= idx.get((p, j)), idx.get((p, j)) < n)))

        def spec(p):
            sel = lambda i: ite(cmp('<', i, k), idx.get((p, i)), n)
            N_, b = rhs(k, lambda i: bd.get((p, i)), gamma, ex, S.EPS, size=lambda d: d)
            inv = solver(N_, lambda i, j: ite(b_and(cmp('<', i, k), cmp('<', j, k)), a.get((sel(i), sel(j))),
                                              ite(b_and(cmp('==', i, k), cmp('==', j, k)), Fraction(0), Fraction(1))), None)
            return solution(k, N_, inv, b, lambda i: Z.get((idx.get((p, i)),)))
        c.run(model, lambda: c.eng.call(c.func(L + '_c_exec_loop_moving_window'), [a, bd, mask, idx, n, d], {}), [n >= 1, k >= 1, k <= n, npt >= 0, inb],
              lambda v: result_entries(c, model, v, npt, lambda p: mask.get((p,)) != 0, spec), lambda e: e.kind == 'ValueError')


for _m in CMODELS:
    c_window('lib.cok._c_exec_loop_moving_window[%s]' % _m, _m, 'P06', 'P04', 'P23', 'P24', 'P05', 'P01+', 'P02+', quick=_m == 'linear')
