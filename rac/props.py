"""Run-time oracles, one group per property.  Each oracle draws one concrete case
from its generator and compares the real code with the reference."""
import os
import tempfile

import numpy as np

from common import *

CASES = {}


def case(pid, n=60):
    def deco(f):
        CASES.setdefault(pid, []).append((f.__name__, f, n))
        return f
    return deco


def cls_all(rng):
    return str(rng.choice(['OK', 'OK', 'UK', 'UK', 'OK3', 'UK3']))


# ---------------------------------------------------------------- P01
@case('P01', 120)
def exact_at_data(rng, log):
    c = Case(rng, cls=cls_all(rng), exact=True, nugget=dyadic(rng, 0.05, 1.5) if rng.random() < .7 else None)
    log(c)
    cc = c.check_cond()
    ob = c.build()
    idx = rng.permutation(c.n)[:max(1, c.n // 2)]
    other = c.points(3, hits=False)
    Q = np.concatenate([c.P[idx], other])[rng.permutation(len(idx) + 3)] if rng.random() < .5 else c.P[idx]
    hit = np.array([int(np.flatnonzero((c.P == q).all(axis=1))[0]) if (c.P == q).all(axis=1).any() else -1 for q in Q])
    t = c.tol(cc)
    for b in c.backends():
        z, s = c.run(ob, Q, b)
        same(np.asarray(z)[hit >= 0], c.val[hit[hit >= 0]], 'estimate at data locations, backend ' + b, **t)
        same(np.asarray(s)[hit >= 0], 0 * c.val[hit[hit >= 0]], 'variance at data locations, backend ' + b, rtol=0, atol=1e-7 * (1 + cc * 1e-8))
    if c.cls.startswith('OK'):
        k = int(rng.integers(2, c.n + 1))
        for b in c.backends(True):
            try:
                for i in idx:
                    sel = c.nearest(c.P[i:i + 1], k)
                    if np.linalg.cond(c.system(sel)) > 1e8:
                        raise Skip('window')
            except Skip:
                continue
            z, s = c.run(ob, Q, b, k)
            same(np.asarray(z)[hit >= 0], c.val[hit[hit >= 0]], 'estimate at data locations, window %d, backend %s' % (k, b), **t)
            same(np.asarray(s)[hit >= 0], 0 * c.val[hit[hit >= 0]], 'variance at data, window %d, backend %s' % (k, b), rtol=0, atol=1e-6)


@case('P01', 80)
def exact_in_grid(rng, log):
    c = Case(rng, cls=cls_all(rng), exact=True, nugget=dyadic(rng, 0.05, 1.0))
    log(c)
    cc = c.check_cond()
    ob = c.build()
    axes = c.axes(hits=False, nmax=4)
    i = int(rng.integers(0, c.n))
    pos = []
    for d in range(c.dim):
        p = int(rng.integers(0, len(axes[d])))
        axes[d][p] = c.P[i, d]
        pos.append(p)
    Q, shape = c.axes_points(axes)
    mask = None
    if rng.random() < .4:
        mask = rng.random(shape) < .4
        mask[tuple(pos[::-1])] = False
    for b in c.backends():
        z, s = c.run_grid(ob, axes, b, mask=mask)
        need(np.shape(z) == shape, 'grid shape')
        same(plain(z)[tuple(pos[::-1])], c.val[i], 'grid estimate at datum, backend ' + b, **c.tol(cc))
        same(plain(s)[tuple(pos[::-1])], 0.0, 'grid variance at datum, backend ' + b, rtol=0, atol=1e-6)


@case('P01', 60)
def inexact_at_data(rng, log):
    c = Case(rng, cls=cls_all(rng), exact=False, nugget=dyadic(rng, 0.1, 1.0))
    log(c)
    cc = c.check_cond()
    ob = c.build()
    Q = c.P[rng.permutation(c.n)[:3]]
    z0, s0 = c.ref(Q)
    for b in c.backends():
        z, s = c.run(ob, Q, b)
        same(z, z0, 'exact_values=False estimate at data, backend ' + b, **c.tol(cc))
        same(s, s0, 'exact_values=False variance at data, backend ' + b, **c.tol(cc))
    if c.cls.startswith('OK') and c.n > 2:
        k = int(rng.integers(2, c.n))
        z0, s0 = c.ref(Q, k=k)
        for b in c.backends(True):
            z, s = c.run(ob, Q, b, k)
            same(z, z0, 'exact_values=False window estimate, backend ' + b, **c.tol(cc))
            same(s, s0, 'exact_values=False window variance, backend ' + b, **c.tol(cc))


# ---------------------------------------------------------------- P02
@case('P02', 120)
def linear_in_data(rng, log):
    c = Case(rng, cls=cls_all(rng))
    log(c)
    cc = c.check_cond()
    Q = c.points()
    k = None
    if c.cls.startswith('OK') and rng.random() < .4:
        k = int(rng.integers(2, c.n + 1))
        c.ref(Q, k=k)
    b = str(rng.choice(c.backends(k is not None)))
    t = c.tol(cc)
    u, v = rng.normal(size=c.n), rng.normal(size=c.n) * 3
    al, be = float(rng.choice([2.0, -3.5, 0.25])), float(rng.choice([1.0, -7.0, 1000.0]))
    vals = dict(u=u, v=v, comb=al * u + be * v, shift=u + be, const=np.full(c.n, be))
    R = {}
    for q, w in vals.items():
        R[q] = c.run(c.build(w), Q, b, k)
    t['atol'] *= 1 + abs(be)
    same(R['comb'][0], al * R['u'][0] + be * R['v'][0], 'estimate is not linear in the data (%s, window %s)' % (b, k), **t)
    same(R['shift'][0], R['u'][0] + be, 'adding a constant to the data', **t)
    same(R['const'][0], np.full(len(Q), be), 'constant field not reproduced', **t)
    for q in vals:
        same(R[q][1], R['u'][1], 'kriging variance depends on the data values (%s)' % q, rtol=1e-7, atol=1e-9 + 1e-13 * cc)


@case('P02', 60)
def weights_sum_one(rng, log):
    c = Case(rng, cls=cls_all(rng))
    log(c)
    cc = c.check_cond()
    if c.n > 12:
        raise Skip('large')
    Q = c.points(3)
    b = str(rng.choice(c.backends()))
    W = np.stack([c.run(c.build(np.eye(c.n)[i] * 4.0), Q, b)[0] for i in range(c.n)], axis=1) / 4.0
    same(W.sum(axis=1), np.ones(len(Q)), 'weights do not sum to one (%s)' % b, rtol=1e-7, atol=1e-9 + 1e-12 * cc)
    z, s = c.run(c.build(), Q, b)
    same(z, W @ c.val, 'estimate is not the weighted sum of the data', **c.tol(cc))


# ---------------------------------------------------------------- P03
@case('P03', 160)
def reproduces_drift(rng, log):
    c = Case(rng, cls=str(rng.choice(['UK', 'UK', 'UK3'])))
    log(c)
    cc = c.check_cond(1e9)
    F = c.drift_at(c.P)
    co, c0 = rng.normal(size=F.shape[1]) * 2, float(rng.normal() * 5)
    val = c0 + F @ co
    if np.abs(val).max() > 1e4:
        raise Skip('scale')
    if np.ptp(val) == 0 and False:
        raise Skip('constant')
    Q = c.points()
    want = c0 + c.drift_at(Q) @ co
    t = dict(rtol=1e-6, atol=(1 + np.abs(val).max() + np.abs(want).max()) * (1e-8 + 1e-14 * cc))
    ob = c.build(val)
    for b in c.backends():
        z, s = c.run(ob, Q, b)
        same(z, want, 'drift field not reproduced (%s)' % b, **t)
    axes = c.axes()
    Q, shape = c.axes_points(axes)
    want = (c0 + c.drift_at(Q) @ co).reshape(shape)
    t['atol'] += (np.abs(want).max()) * 1e-8
    spT = rng.random() < .5 and len(set(shape)) == len(shape)
    for b in c.backends():
        z, s = c.run_grid(ob, axes, b, spec_T=spT)
        same(z, want, 'drift field not reproduced on a grid (%s)' % b, **t)
        m = rng.random(shape) < .4
        z, s = c.run_grid(ob, axes, b, mask=m, spec_T=spT)
        same(plain(z)[~m], want[~m], 'drift field not reproduced on a masked grid (%s)' % b, **t)


# ---------------------------------------------------------------- P04
@case('P04', 140)
def backends_agree(rng, log):
    c = Case(rng, cls=str(rng.choice(['OK', 'OK', 'OK', 'UK', 'UK', 'OK3', 'UK3'])), pinv='')
    log(c)
    cc = c.check_cond()
    ob = c.build()
    t = c.tol(cc)
    r = rng.random()
    axes = c.axes()
    Q, shape = c.axes_points(axes)
    mask = rng.random(shape) < rng.choice([0.0, .3, .7, 1.0]) if r < .4 else None
    pts = c.points()
    objs = {'': ob}
    for kind in ('pinv', 'pinvh'):
        objs[kind] = c.build(pseudo_inv=True, pseudo_inv_type=kind)
    base = None
    for kind, o in objs.items():
        for b in c.backends():
            if r < .7:
                z, s = c.run_grid(o, axes, b, mask=mask)
                m = np.zeros(shape, bool) if mask is None else mask
                if mask is not None:
                    need(np.array_equal(np.ma.getmaskarray(z), mask) and np.array_equal(np.ma.getmaskarray(s), mask), 'mask of the result differs (%s)' % b)
                z, s = plain(z)[~m], plain(s)[~m]
            else:
                z, s = c.run(o, pts, b)
                z, s = plain(z), plain(s)
            if base is None:
                base = (z, s, b)
            same(z, base[0], 'estimates of %s %s and %s differ' % (kind, b, base[2]), **t)
            same(s, base[1], 'variances of %s %s and %s differ' % (kind, b, base[2]), rtol=1e-7, atol=1e-8 + 1e-13 * cc)


@case('P04', 80)
def window_backends_agree(rng, log):
    c = Case(rng, cls='OK', models=C_MODELS, custom=False, n=int(rng.integers(3, 16)), pinv='')
    log(c)
    cc = c.check_cond()
    ob = c.build()
    k = int(rng.integers(2, c.n + 1))
    axes = c.axes()
    Q, shape = c.axes_points(axes)
    c.ref(Q, k=k)
    mask = rng.random(shape) < rng.choice([0.0, .3, .8]) if rng.random() < .5 else None
    m = np.zeros(shape, bool) if mask is None else mask
    a = c.run_grid(ob, axes, 'loop', k, mask)
    b = c.run_grid(ob, axes, 'C', k, mask)
    for i, nm in enumerate(('estimate', 'variance')):
        same(plain(b[i])[~m], plain(a[i])[~m], 'moving-window %s of C and loop differ' % nm, rtol=1e-7, atol=1e-7 * (1 + np.abs(c.val).max()))


@case('P04', 30)
def c_backend_parameters(rng, log):
    """integer-valued parameters, custom functions sharing a built-in's name"""
    import pykrige
    c = Case(rng, cls='OK', models=['linear', 'power'], custom=False, pinv='', geo=False)
    c.params = [2, 1] if c.model == 'linear' else [2, 1, 1]
    c.p = [float(q) for q in c.params]
    log(c)
    c.check_cond()
    ob = c.build()
    Q = c.points(4)
    a, b = c.run(ob, Q, 'loop'), c.run(ob, Q, 'C')
    same(b[0], a[0], 'C backend with integer parameters', **c.tol())
    same(b[1], a[1], 'C backend with integer parameters', **c.tol())

    def linear_variogram_model(m, d):
        return m[0] * d ** 1.5 + m[1]
    ob = c.build(variogram_model='custom', variogram_function=linear_variogram_model, variogram_parameters=[0.7, 0.1])
    a = c.run(ob, Q, 'loop')
    try:
        b = c.run(ob, Q, 'C')
    except Exception:
        return
    same(b[0], a[0], 'C backend with a custom variogram function', **c.tol())


# ---------------------------------------------------------------- P05
@case('P05', 140)
def grid_is_pointwise(rng, log):
    c = Case(rng, cls=cls_all(rng))
    log(c)
    cc = c.check_cond()
    ob = c.build()
    t = c.tol(cc)
    axes = c.axes()
    Q, shape = c.axes_points(axes)
    k = None
    if c.cls.startswith('OK') and rng.random() < .3:
        k = int(rng.integers(2, c.n + 1))
        c.ref(Q, k=k)
    b = str(rng.choice(c.backends(k is not None)))
    g = c.run_grid(ob, axes, b, k)
    for a in g:
        need(np.shape(a) == shape, 'grid result has shape %s instead of %s' % (np.shape(a), shape))
    pz, ps = c.run(ob, Q, b, k)
    need(np.shape(pz) == (len(Q),) and np.shape(ps) == (len(Q),), 'points result shape')
    vt = dict(rtol=1e-7, atol=1e-8 + 1e-13 * cc)
    same(plain(g[0]), np.reshape(pz, shape), 'grid estimate differs from points (%s, window %s)' % (b, k), **t)
    same(plain(g[1]), np.reshape(ps, shape), 'grid variance differs from points', **vt)
    i = int(rng.integers(0, len(Q)))
    sz, ss = c.run(ob, Q[i:i + 1], b, k)
    same(sz[0], pz[i], 'single point differs from point list', **t)
    same(ss[0], ps[i], 'single point variance differs from point list', **vt)
    mask = rng.random(shape) < rng.choice([0.0, .25, .6, 1.0])
    tr = len(set(shape)) == len(shape) and rng.random() < .5 and (c.dim == 2 or shape[0] != shape[2])
    given = mask.T.copy() if tr else mask.copy()
    if rng.random() < .3:
        given = np.asfortranarray(given)
    m = c.run_grid(ob, axes, b, k, given)
    for a, w, tt in zip(m, g, (t, vt)):
        need(np.shape(a) == shape, 'masked result shape %s' % (np.shape(a),))
        need(isinstance(a, np.ma.MaskedArray) and np.array_equal(np.ma.getmaskarray(a), mask), 'mask of the result is not the given mask')
        same(plain(a)[~mask], plain(w)[~mask], 'masked grid differs from grid (%s, window %s)' % (b, k), **tt)
    if mask.all():
        return
    same(np.ma.compressed(m[0]), plain(g[0])[~mask], 'unmasked entries', **t)


# ---------------------------------------------------------------- P06
@case('P06', 160)
def window_is_k_nearest(rng, log):
    c = Case(rng, cls=str(rng.choice(['OK', 'OK', 'OK3'])), n=int(rng.integers(3, 22)))
    log(c)
    c.check_cond()
    ob = c.build()
    k = int(rng.choice([2, 3, 4, 5, c.n - 1, c.n, int(rng.integers(2, c.n + 1))]))
    k = min(max(k, 2), c.n)
    Q = c.points()
    z0, s0 = c.ref(Q, k=k)
    for b in c.backends(True):
        z, s = c.run(ob, Q, b, k)
        same(z, z0, 'window of %d nearest: estimate (%s)' % (k, b), rtol=1e-6, atol=1e-7 * (1 + np.abs(c.val).max()))
        same(s, s0, 'window of %d nearest: variance (%s)' % (k, b), rtol=1e-6, atol=1e-6)
    gl = c.run(ob, Q, 'loop')
    for b in c.backends(True):
        z, s = c.run(ob, Q, b, c.n)
        same(z, gl[0], 'window of all data vs global (%s)' % b, **c.tol())
        same(s, gl[1], 'window of all data vs global variance (%s)' % b, rtol=1e-7, atol=1e-6)


@case('P06', 40)
def window_among_many(rng, log):
    """many data points (the search tree then has more than one leaf): the right k are chosen"""
    c = Case(rng, cls=str(rng.choice(['OK', 'OK', 'OK3'])), n=int(rng.integers(60, 260)), models=['linear', 'exponential', 'spherical'])
    log(c)
    ob = c.build()
    k = int(rng.integers(2, 9))
    Q = c.points(25)
    keep, Z0, S0 = [], [], []
    for i in range(len(Q)):
        try:
            z, s_ = c.ref(Q[i:i + 1], k=k)
        except Skip:
            continue
        keep.append(i), Z0.append(z[0]), S0.append(s_[0])
    if not keep:
        raise Skip('ties')
    for b in c.backends(True):
        z, s_ = c.run(ob, Q[keep], b, k)
        same(z, Z0, 'window of %d among %d data: estimate (%s)' % (k, c.n, b), rtol=1e-6, atol=1e-7 * (1 + np.abs(c.val).max()))
        same(s_, S0, 'window of %d among %d data: variance (%s)' % (k, c.n, b), rtol=1e-6, atol=1e-6)


@case('P06', 15)
def bad_window_refused(rng, log):
    c = Case(rng, cls=str(rng.choice(['OK', 'OK3'])), n=int(rng.integers(3, 9)))
    log(c)
    ob = c.build()
    Q = c.points(int(rng.integers(1, 4)))
    for b in c.backends(True):
        for k in (1, 0, -2, c.n + 1, c.n + 7):
            raises(lambda: c.run(ob, Q, b, k), 'n_closest_points=%d with %d data (%s)' % (k, c.n, b))


FIT_SMOOTH = ('linear', 'power', 'exponential', 'gaussian')


def same_model(ob, fr, auto, what):
    """ob's state equals that of fr.  Automatically fitted parameters are compared through the
    fitted curve (a local optimiser amplifies rounding; models with kinks are left out)."""
    for at in ('X_ADJUSTED', 'Y_ADJUSTED', 'Z_ADJUSTED', 'lags', 'semivariance', 'XCENTER', 'YCENTER', 'ZCENTER'):
        if hasattr(fr, at):
            need(hasattr(ob, at), '%s: attribute %s lost' % (what, at))
            same(np.asarray(getattr(ob, at), float), np.asarray(getattr(fr, at), float), '%s: %s' % (what, at), rtol=1e-8, atol=1e-8)
    p, q = [np.asarray(o.variogram_model_parameters, float) for o in (ob, fr)]
    if not auto:
        same(p, q, what + ': variogram_model_parameters', rtol=1e-8, atol=1e-9)
        e = getattr(fr, 'epsilon', None)
        if e is not None and getattr(ob, 'epsilon', None) is not None and np.isfinite(e).all() and np.all(np.asarray(fr.sigma) > 1e-3):
            same(np.asarray(ob.epsilon, float), np.asarray(e, float), what + ': epsilon', rtol=1e-5, atol=1e-5 * (1 + np.abs(e).max()))
        return
    same(p.shape, q.shape, what + ': number of fitted parameters')
    if fr.variogram_model in FIT_SMOOTH and len(fr.lags) > 3:
        same(ob.variogram_function(p, fr.lags), fr.variogram_function(q, fr.lags), what + ': fitted variogram', rtol=1e-2, atol=1e-2 * (float(np.max(fr.semivariance)) + 1e-12))
    ob.variogram_model_parameters = type(fr.variogram_model_parameters)(fr.variogram_model_parameters) if isinstance(fr.variogram_model_parameters, list) else np.array(fr.variogram_model_parameters)


# ---------------------------------------------------------------- P07
@case('P07', 120)
def update_is_fresh(rng, log):
    c = Case(rng, cls=cls_all(rng))
    log(c)
    ob = c.build()
    last = None
    for step in range(int(rng.integers(1, 4))):
        d = Case(rng, cls=c.cls, n=c.n, geo=c.geo)
        if rng.random() < .25:
            d.scaling, d.angles = c.scaling, c.angles
        if rng.random() < .2:
            d.scaling, d.angles = (1.0,) * len(c.scaling), (0.0,) * len(c.angles)
        if rng.random() < .25:
            d.scaling = c.scaling
        upd = dict(d.vario_kw())
        auto = d.model != 'custom' and rng.random() < .25
        if auto:
            upd['variogram_parameters'] = None
        if rng.random() < .5:
            upd['nlags'] = int(rng.integers(2, 9))
        if rng.random() < .3:
            upd['weight'] = True
        if rng.random() < .85:
            upd.update(d.anis_kw())
            c.scaling, c.angles = d.scaling, d.angles
        else:
            c.scaling, c.angles = (1.0,) * len(c.scaling), (0.0,) * len(c.angles)
        with silent():
            if rng.random() < .4:
                try:
                    c.run(ob, c.points(2), 'loop')
                except np.linalg.LinAlgError:
                    pass
            ob.update_variogram_model(**upd)
        last = upd
    kw = c.kwargs()
    for q in list(c.vario_kw()) + ['variogram_function']:
        kw.pop(q, None)
    kw.update(last)
    kw.update(c.anis_kw())
    with silent():
        fr = c.cls_obj()(*[c.P[:, i] for i in range(c.dim)], c.val, **kw)
    same_model(ob, fr, last['variogram_parameters'] is None, 'updated object differs from a fresh one')
    need(ob.variogram_model == fr.variogram_model, 'variogram model name')
    c.p = [float(q) for q in fr.variogram_model_parameters]
    c.model = fr.variogram_model
    c.func = last.get('variogram_function')
    cc = c.cond()
    if not cc < 1e8:
        raise Skip('ill-conditioned')
    Q = c.points()
    for b in c.backends():
        r1, r2 = c.run(ob, Q, b), c.run(fr, Q, b)
        same(r1[0], r2[0], 'estimates after update differ from a fresh object (%s)' % b, **c.tol(cc))
        same(r1[1], r2[1], 'variances after update differ from a fresh object (%s)' % b, **c.tol(cc))


@case('P07', 80)
def update_one_option(rng, log):
    """updates that change a single option with respect to the previous state"""
    c = Case(rng, cls=cls_all(rng), drift=[] if rng.random() < .6 else None)
    log(c)
    args = dict(c.vario_kw(), nlags=6, weight=False, **({} if c.geo else c.anis_kw()))
    ob = c.build(nlags=6, weight=False)
    hist = []
    for step in range(int(rng.integers(1, 4))):
        d = Case(rng, cls=c.cls, n=c.n, geo=c.geo)
        opts = [o for o in args if o.startswith('anisotropy')] * 2 + ['model', 'parameters', 'nlags', 'weight', 'auto']
        o = str(rng.choice(opts))
        if o.startswith('anisotropy'):
            args[o] = float(rng.choice([0.0, 25.0, 70.0, -130.0])) if 'angle' in o else float(rng.choice([1.0, 0.4, 2.5]))
        elif o == 'model':
            args.pop('variogram_function', None)
            args.update(d.vario_kw())
        elif o == 'parameters':
            if c.model == 'custom':
                c.func = args['variogram_function'] = lambda q, h: 0.9 * q[0] * (1 - np.exp(-2 * h / q[1])) + q[2]
                args['variogram_model'], args['variogram_parameters'] = 'custom', list(c.p)
            elif args['variogram_model'] != 'custom':
                m = str(args['variogram_model'])
                args['variogram_parameters'] = user_params(rng, m, gen_params(rng, m, c.size))
        elif o == 'nlags':
            args['nlags'] = int(rng.integers(2, 9))
        elif o == 'weight':
            args['weight'] = not args['weight']
        elif args['variogram_model'] != 'custom':
            args['variogram_parameters'] = None
        hist.append(o)
        with silent():
            if rng.random() < .4:
                try:
                    c.run(ob, c.points(2), 'loop')
                except np.linalg.LinAlgError:
                    pass
            ob.update_variogram_model(**args)
    kw = c.kwargs()
    kw.pop('variogram_function', None)
    kw.update(args)
    with silent():
        fr = c.cls_obj()(*[c.P[:, i] for i in range(c.dim)], c.val, **kw)
    same_model(ob, fr, args['variogram_parameters'] is None, 'after updating %s' % hist)
    h = np.linspace(0, 2 * c.size, 7)
    same(ob.variogram_function(ob.variogram_model_parameters, h), fr.variogram_function(fr.variogram_model_parameters, h), 'after updating %s: variogram' % hist)
    Q = c.points(3)
    try:
        r1, r2 = c.run(ob, Q, 'loop'), c.run(fr, Q, 'loop')
    except np.linalg.LinAlgError:
        raise Skip('singular')
    if np.linalg.cond(fr._get_kriging_matrix(*([c.n] if c.cls.startswith('OK') else [c.n, c.n + c.drift_at(c.P).shape[1]])) if hasattr(fr, '_get_kriging_matrix') else np.eye(2)) > 1e9:
        raise Skip('ill-conditioned')
    same(r1[0], r2[0], 'after updating %s: estimates' % hist, rtol=1e-6, atol=1e-6 * (1 + np.abs(c.val).max()))
    same(r1[1], r2[1], 'after updating %s: variances' % hist, rtol=1e-6, atol=1e-6)


# ---------------------------------------------------------------- P08
@case('P08', 60)
def parameter_formats(rng, log):
    c = Case(rng, cls=cls_all(rng), custom=False)
    log(c)
    want = [float(q) for q in c.p]
    for kind in ('list', 'sill', 'psill'):
        ob = c.build(variogram_parameters=user_params(rng, c.model, c.p, kind))
        same(np.asarray(ob.variogram_model_parameters, float), want, 'internal parameters from the %s format of %s' % (kind, c.model), rtol=1e-12, atol=1e-12)
        ob2 = c.build()
        with silent():
            ob2.update_variogram_model(c.model, user_params(rng, c.model, c.p, kind))
        same(np.asarray(ob2.variogram_model_parameters, float), want, 'parameters after update, %s format of %s' % (kind, c.model), rtol=1e-12, atol=1e-12)
    d = user_params(rng, c.model, c.p, 'sill')
    keys = list(d)
    rng.shuffle(keys)
    ob = c.build(variogram_parameters={q: d[q] for q in keys})
    same(np.asarray(ob.variogram_model_parameters, float), want, 'dict key order', rtol=1e-12, atol=1e-12)
    cp = [float(q) for q in rng.normal(size=int(rng.integers(0, 5)))]
    ob = c.build(variogram_model='custom', variogram_parameters=list(cp), variogram_function=lambda m, d: 0.5 * d + 0.1 * (d > 0))
    need(list(ob.variogram_model_parameters) == cp, 'custom parameter list changed: %s -> %s' % (cp, ob.variogram_model_parameters))


@case('P08', 60)
def bad_parameters(rng, log):
    c = Case(rng, cls=cls_all(rng), custom=False)
    log(c)
    ob = c.build()

    def both(params, model, what, **kw):
        raises(lambda: c.build(variogram_model=model, variogram_parameters=params, **kw), what)
        raises(lambda: ob.update_variogram_model(model, params, **kw), what + ' (update)')
    for m in MODELS:
        p = gen_params(rng, m, 3.0)
        for kind in ('sill', 'psill'):
            full = user_params(rng, m, p, kind)
            for q in full:
                if m in ('linear', 'power') or q in ('range', 'nugget', 'sill', 'psill'):
                    both({a: b for a, b in full.items() if a != q}, m, '%s dict without %s accepted' % (m, q))
        n = len(p)
        for k in {0, 1, 2, 3, 4, 5} - {n}:
            both([1.0] * k, m, '%s with a list of %d parameters accepted' % (m, k))
        both({}, m, 'empty dict accepted')
        both(tuple(p), m, '%s with a tuple accepted' % m)
        both(np.array(p), m, '%s with an array accepted' % m)
        both(1.0, m, '%s with a number accepted' % m)
    both(None, 'custom', 'custom without parameters', variogram_function=lambda m, d: d)
    both({'a': 1}, 'custom', 'custom with a dict', variogram_function=lambda m, d: d)
    both([1.0], 'custom', 'custom without function')
    both([1.0], 'custom', 'custom with a non-callable', variogram_function=3)
    for bad in ('Linear', 'cubic', '', 'gauss', 'holeeffect'):
        both([1.0, 1.0, 0.1], bad, 'unknown model %r accepted' % bad)


# ---------------------------------------------------------------- P09
@case('P09', 120)
def model_formulas(rng, log):
    import pykrige.variogram_models as vm
    f = {'linear': vm.linear_variogram_model, 'power': vm.power_variogram_model, 'gaussian': vm.gaussian_variogram_model,
         'spherical': vm.spherical_variogram_model, 'exponential': vm.exponential_variogram_model,
         'hole-effect': vm.hole_effect_variogram_model}
    m = str(rng.choice(MODELS))
    scale = float(rng.choice([0.01, 1.0, 30.0, 1e4]))
    p = gen_params(rng, m, max(scale, 0.02))
    r = p[1] if len(p) == 3 else 1.0
    d = np.sort(np.concatenate([[0.0, r, r * (1 + 1e-6), r * 7, r * .5], rng.uniform(0, 2.5 * r, 25), rng.uniform(0, 30 * r, 5)]))
    shape = [(35,), (5, 7), (7, 5), (35, 1)][int(rng.integers(4))]
    perm = rng.permutation(35)
    log(dict(model=m, params=p, d=d.tolist()))
    dd = d[perm].reshape(shape)
    keep = dd.copy()
    with silent():
        g = f[m](list(p), dd)
    need(np.array_equal(keep, dd), 'distances modified')
    need(np.shape(g) == shape, 'shape of the variogram values')
    same(g, vario(m, p, keep), '%s formula' % m, rtol=1e-9, atol=1e-12)
    v = np.empty(35)
    v[perm] = np.asarray(g).ravel()
    nug = p[-1]
    need(abs(v[0] - nug) <= 1e-12 * (1 + abs(nug)), 'value at zero is not the nugget')
    need((v >= nug - 1e-12 * (1 + abs(v))).all(), 'below the nugget')
    if m != 'hole-effect':
        need((np.diff(v) >= -1e-10 * (1 + np.abs(v[1:]))).all(), '%s decreases with distance' % m)
    if m in ('gaussian', 'spherical', 'exponential'):
        need((v <= p[0] + nug + 1e-9 * (1 + p[0])).all(), 'exceeds the sill')
    if m == 'spherical':
        same(v[d >= r], np.full((d >= r).sum(), p[0] + nug), 'sill not attained from the range on', rtol=1e-9)
    with silent():
        same(f[m](np.array(p), np.array([float(d[3])])), vario(m, p, d[3:4]), 'single distance')


@case('P09', 100)
def compiled_formulas(rng, log):
    """two data points far apart: the kriging variance reveals the compiled variogram"""
    import pykrige
    m = str(rng.choice(C_MODELS))
    scale = float(rng.choice([0.3, 1.0, 30.0, 500.0]))
    p = gen_params(rng, m, scale)
    r = p[1] if m not in ('linear', 'power') else scale
    x = np.array([0.0, float(rng.choice([.5, 1.0, 2.0, 7.0])) * r, 11.0 * r])
    y = np.array([0.0, 0.3 * r, -2.0 * r])
    q = np.concatenate([np.linspace(0, 3 * r, 7), rng.uniform(0, 12 * r, 6)])
    log(dict(model=m, params=p, x=x.tolist(), q=q.tolist()))
    with silent():
        ob = pykrige.OrdinaryKriging(x, y, np.array([1.0, 3.0, -2.0]), variogram_model=m, variogram_parameters=user_params(rng, m, p), exact_values=bool(rng.random() < .5))
        a = ob.execute('points', q, 0 * q, backend='loop')
        b = ob.execute('points', q, 0 * q, backend='C')
    D = np.hypot(q[:, None] - x, y)
    A = np.zeros((4, 4))
    A[:3, :3] = -vario(m, p, np.hypot(x[:, None] - x, y[:, None] - y))
    A[np.arange(3), np.arange(3)] = 0
    A[:3, 3] = A[3, :3] = 1
    R = np.concatenate([-vario(m, p, D), np.ones((len(q), 1))], axis=1)
    if ob.exact_values:
        R[:, :3][D <= 1e-10] = 0
    if np.linalg.cond(A) > 1e9:
        raise Skip('cond')
    W = np.linalg.solve(A, R.T).T
    same(a[1], -(W * R).sum(axis=1), 'Python %s variogram' % m, rtol=1e-6, atol=1e-7 * (1 + np.abs(A).max()))
    same(b[1], -(W * R).sum(axis=1), 'compiled %s variogram' % m, rtol=1e-6, atol=1e-7 * (1 + np.abs(A).max()))
    same(b[0], W[:, :3] @ np.array([1.0, 3.0, -2.0]), 'compiled %s estimate' % m, rtol=1e-6, atol=1e-7)
    bad = [t for t in MODELS if t not in C_MODELS]
    for t in bad:
        with silent():
            ob = pykrige.OrdinaryKriging(x, y, np.array([1.0, 3.0, -2.0]), variogram_model=t, variogram_parameters=[1.0, r, .1])
            a = ob.execute('points', q, 0 * q + .1, backend='loop')
            try:
                b = ob.execute('points', q, 0 * q + .1, backend='C')
            except Exception:
                continue
        same(b[1], a[1], 'compiled %s' % t, rtol=1e-6, atol=1e-7)


# ---------------------------------------------------------------- P10
@case('P10', 160)
def semivariogram_bins(rng, log):
    c = Case(rng, cls=cls_all(rng), n=int(rng.integers(4, 45)), geo=None)
    nl = int(rng.choice([1, 2, 3, 4, 6, 9, 15, 25]))
    c.extra['nlags'] = nl
    log(c)
    with_upd = rng.random() < .3
    if with_upd:
        c.extra.pop('nlags')
        ob = c.build()
        with silent():
            ob.update_variogram_model(nlags=nl, **c.vario_kw(), **c.anis_kw())
    else:
        ob = c.build()
    A = c.adj(c.P)
    D = c.dist(A, A)
    iu = np.triu_indices(c.n, 1)
    d = D[iu]
    g = 0.5 * (c.val[iu[0]] - c.val[iu[1]]) ** 2
    lo, hi = d.min(), d.max()
    w = (hi - lo) / nl
    e = lo + w * np.arange(nl + 1)
    near = np.abs(d[:, None] - e[None, 1:-1])
    if nl > 1 and near.min() < 1e-9 * (1 + hi):
        raise Skip('tie at a bin edge')
    b = np.clip(np.floor((d - lo) / w).astype(int), 0, nl - 1)
    lags = [d[b == i].mean() for i in range(nl) if (b == i).any()]
    sem = [g[b == i].mean() for i in range(nl) if (b == i).any()]
    same(ob.lags, lags, 'lags', rtol=1e-9)
    same(ob.semivariance, sem, 'semivariances', rtol=1e-9)
    z = ob.get_variogram_points() if hasattr(ob, 'get_variogram_points') else None
    if z is not None:
        same(z[0], lags, 'variogram points: lags')
        same(z[1], c.gamma(np.array(lags)), 'variogram points: model values', rtol=1e-8)


# ---------------------------------------------------------------- P11
@case('P11', 120)
def anisotropy_map(rng, log):
    c = Case(rng, cls=cls_all(rng), geo=False, unit=False)
    log(c)
    ob = c.build()
    if rng.random() < .4:
        d = Case(rng, cls=c.cls, n=c.n, geo=False, unit=False)
        with silent():
            ob.update_variogram_model(**c.vario_kw(), **d.anis_kw())
        c.scaling, c.angles = d.scaling, d.angles
    A = np.stack([ob.X_ADJUSTED, ob.Y_ADJUSTED] + ([ob.Z_ADJUSTED] if c.dim == 3 else []), axis=1)
    same(A, c.adj(c.P), 'adjusted data coordinates', rtol=1e-9, atol=1e-9 * (1 + c.size))
    cc = c.check_cond()
    Q = c.points()
    z0, s0 = c.ref(Q)
    for b in c.backends():
        z, s = c.run(ob, Q, b)
        same(z, z0, 'estimate under anisotropy (%s)' % b, **c.tol(cc))
        same(s, s0, 'variance under anisotropy (%s)' % b, **c.tol(cc))


@case('P11', 80)
def unit_scaling(rng, log):
    c = Case(rng, cls=cls_all(rng), geo=False, unit=True, kinds=['spec', 'ext'])
    if c.dim == 3:
        c.drift = [d for d in c.drift if d[0] == 'spec']
    c.drift = [d for d in c.drift if d[0] in ('spec', 'ext', 'regional')]
    log(c)
    cc = c.check_cond()
    ob = c.build()
    A0 = np.stack([ob.X_ADJUSTED, ob.Y_ADJUSTED] + ([ob.Z_ADJUSTED] if c.dim == 3 else []), axis=1)
    same(A0, c.P, 'unit scaling and zero angles is not the identity', rtol=1e-12, atol=1e-10)
    c.angles = tuple(float(a) for a in rng.uniform(-400, 400, len(c.angles)))
    o2 = c.build()
    A = np.stack([o2.X_ADJUSTED, o2.Y_ADJUSTED] + ([o2.Z_ADJUSTED] if c.dim == 3 else []), axis=1)
    same(c.dist(A, A), c.dist(c.P, c.P), 'rotation changes distances', rtol=1e-9, atol=1e-9 * (1 + c.size))
    ctr = c.center
    same(np.linalg.norm(A - ctr, axis=1), np.linalg.norm(c.P - ctr, axis=1), 'centre of the data is not fixed', rtol=1e-9, atol=1e-9 * (1 + c.size))
    Q = c.points()
    for b in c.backends():
        r, r2 = c.run(ob, Q, b), c.run(o2, Q, b)
        same(r2[0], r[0], 'estimate changes with the angle under unit scaling (%s)' % b, **c.tol(cc))
        same(r2[1], r[1], 'variance changes with the angle under unit scaling (%s)' % b, **c.tol(cc))


# ---------------------------------------------------------------- P12
@case('P12', 150)
def great_circle(rng, log):
    from pykrige.core import great_circle_distance as f
    m = int(rng.integers(1, 7))
    lo1, lo2 = rng.uniform(-360, 720, m), rng.uniform(-360, 720, m)
    la1, la2 = rng.uniform(-90, 90, m), rng.uniform(-90, 90, m)
    kind = rng.integers(0, 7)
    if kind == 1:
        lo2, la2 = lo1.copy(), la1.copy()
    elif kind == 2:
        lo2, la2 = lo1 + 180, -la1
    elif kind == 3:
        lo2, la2 = lo1 + rng.normal(size=m) * 1e-6, la1 + rng.normal(size=m) * 1e-6
    elif kind == 4:
        la1[:] = rng.choice([90.0, -90.0])
    elif kind == 5:
        la1[:], la2[:] = 0, 0
    elif kind == 6:
        lo2, la2 = lo1 + 180 + rng.normal(size=m) * 1e-6, -la1 + rng.normal(size=m) * 1e-6
        la2 = np.clip(la2, -90, 90)
    log(dict(lon1=lo1.tolist(), lat1=la1.tolist(), lon2=lo2.tolist(), lat2=la2.tolist()))
    d = f(lo1, la1, lo2, la2)
    want = gcd(lo1, la1, lo2, la2)
    same(d, want, 'great-circle distance', rtol=1e-6, atol=3e-7)
    small = want < 1e-3
    same(np.asarray(d)[small], want[small], 'short great-circle distance', rtol=1e-5, atol=1e-11)
    need((np.asarray(d) >= 0).all() and (np.asarray(d) <= 180 + 1e-9).all(), 'distance outside [0, 180]')
    same(f(lo2, la2, lo1, la1), d, 'not symmetric', rtol=1e-9, atol=1e-9)
    sh = 360.0 * rng.integers(-2, 3, m)
    same(f(lo1 + sh, la1, lo2, la2), d, 'not 360-degree periodic', rtol=1e-7, atol=1e-7)
    same(f(lo1, la1, lo1, la1), 0 * lo1, 'distance to itself', atol=1e-10)
    same(f(lo1[:, None], la1[:, None], lo2[None, :], la2[None, :]), gcd(lo1[:, None], la1[:, None], lo2[None, :], la2[None, :]), 'broadcast', rtol=1e-6, atol=3e-7)
    same(f(float(lo1[0]), float(la1[0]), float(lo2[0]), float(la2[0])), want[0], 'scalar arguments', rtol=1e-6, atol=3e-7)


@case('P12', 100)
def geographic_invariance(rng, log):
    c = Case(rng, cls='OK', geo=True)
    log(c)
    cc = c.check_cond()
    stat = c.extra['enable_statistics'] = bool(rng.random() < .4)
    ob = c.build()
    Q = c.points()
    z0, s0 = c.ref(Q)
    P0 = c.P.copy()
    c.P = P0 + 360.0 * np.stack([rng.integers(-1, 2, c.n), np.zeros(c.n)], axis=1)
    o2 = c.build()
    Q2 = Q + 360.0 * np.stack([rng.integers(-1, 2, len(Q)), np.zeros(len(Q))], axis=1)
    same(o2.lags, ob.lags, 'lags change when longitudes are shifted by 360', rtol=1e-6, atol=1e-6) if len(o2.lags) == len(ob.lags) else None
    if stat and cc < 1e8:
        for at in ('delta', 'sigma'):
            u, v = np.asarray(getattr(ob, at), float), np.asarray(getattr(o2, at), float)
            if len(u) == len(v):  # a vanishing variance may be left out on one side
                same(v, u, 'statistics (%s) not 360-degree invariant' % at, rtol=1e-6, atol=c.tol(cc)['atol'] * 1000)
    for b in c.backends():
        z, s = c.run(ob, Q, b)
        same(z, z0, 'geographic estimate (%s)' % b, rtol=1e-6, atol=c.tol(cc)['atol'] * 100)
        same(s, s0, 'geographic variance (%s)' % b, rtol=1e-6, atol=1e-6)
        y = c.run(o2, Q2, b)
        same(y[0], z, 'estimate not 360-degree invariant (%s)' % b, rtol=1e-6, atol=c.tol(cc)['atol'] * 100)
        same(y[1], s, 'variance not 360-degree invariant (%s)' % b, rtol=1e-6, atol=1e-6)
    k = int(rng.integers(2, c.n + 1))
    c.P = P0
    z0, s0 = c.ref(Q, k=k)
    for b in c.backends(True):
        z, s = c.run(o2, Q2, b, k)
        same(z, z0, 'moving window does not use the great-circle neighbours (%s, k=%d)' % (b, k), rtol=1e-6, atol=1e-6 * (1 + np.abs(c.val).max()))
        same(s, s0, 'moving window variance, geographic (%s, k=%d)' % (b, k), rtol=1e-6, atol=1e-6)


# ---------------------------------------------------------------- P13
def snap(o):
    if isinstance(o, np.ndarray):
        return ('a', o.dtype.str, o.shape, o.tobytes(), np.ma.getmaskarray(o).tobytes() if isinstance(o, np.ma.MaskedArray) else None)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(q) for q in o)
    if isinstance(o, dict):
        return ('d',) + tuple((q, snap(o[q])) for q in o)
    return repr(o) if not callable(o) else id(o)


@case('P13', 120)
def inputs_untouched(rng, log):
    c = Case(rng, cls=cls_all(rng))
    log(c)
    cc = c.check_cond()
    kw = c.kwargs()
    dt = rng.choice(['float64', 'float64', 'float32', 'list'])
    co = [c.P[:, i].copy() for i in range(c.dim)]
    v = c.val.copy()
    if dt == 'float32':
        co, v = [q.astype('float32') for q in co], v.astype('float32')
    elif dt == 'list':
        co, v = [q.tolist() for q in co], v.tolist()
    ins = [co, v, kw]
    before = snap(ins)
    with silent():
        ob = c.cls_obj()(*co, v, **kw)
    need(snap(ins) == before, 'constructor modifies its arguments')
    Q = c.points()
    axes = c.axes()
    G, shape = c.axes_points(axes)
    k = None
    ekw = {}
    b = str(rng.choice(c.backends()))
    if c.cls.startswith('OK') and rng.random() < .3:
        k = int(rng.integers(2, c.n + 1))
        b = str(rng.choice(c.backends(True)))
        ekw['n_closest_points'] = k
        try:
            c.ref(Q, k=k), c.ref(G, k=k)
        except Skip:
            raise
    mask = np.ascontiguousarray(rng.random(shape) < .4)
    calls = []
    qa = [Q[:, i].copy() for i in range(c.dim)]
    sp = c.spec_at(Q)
    spg = [s.reshape(shape) for s in c.spec_at(G)]
    for style in ('points', 'grid', 'masked'):
        a = dict(style=style, backend=b, **ekw)
        if c.has_spec:
            a['specified_drift_arrays'] = sp if style == 'points' else spg
        if style == 'masked':
            a['mask'] = mask
        calls.append((style, (qa if style == 'points' else [x.copy() for x in axes]), a))

    def do(i):
        style, pos, a = calls[i]
        a = dict(a)
        with silent():
            return ob.execute(a.pop('style'), *pos, **a)
    sc = snap(calls)
    first = {}
    for i in range(3):
        r = do(i)
        first[i] = tuple(np.ma.array(q, copy=True) for q in r)
        need(snap(calls) == sc, 'execute(%s, %s) modifies its arguments' % (calls[i][0], b))
        # results are the caller's: changing them must not influence later calls
        for q in r:
            if isinstance(q, np.ma.MaskedArray):
                q.data[...] = 77.0
                q.mask = True
            else:
                q[...] = 77.0
        need(snap(calls) == sc, 'the result of execute(%s, %s) shares memory with the arguments' % (calls[i][0], b))
    for i in [int(q) for q in rng.integers(0, 3, 3)]:
        r = do(i)
        for q, w in zip(r, first[i]):
            need(np.array_equal(np.ma.getmaskarray(q), np.ma.getmaskarray(w)), 'repeating execute(%s, %s): mask differs' % (calls[i][0], b))
            need(np.array_equal(plain(q)[~np.ma.getmaskarray(q)], plain(w)[~np.ma.getmaskarray(w)], equal_nan=True), 'repeating execute(%s, %s): result differs' % (calls[i][0], b))
    # later changes of the inputs by the caller
    def wreck(o):
        if isinstance(o, np.ndarray) and o.dtype.kind == 'f':
            o[...] = o * 3 + 11
        elif isinstance(o, list):
            for i, q in enumerate(o):
                if isinstance(q, (np.ndarray, list, dict)):
                    wreck(q)
                elif isinstance(q, (int, float)):
                    o[i] = q * 3 + 11
                elif callable(q):
                    o[i] = lambda *a: 1e3 * a[0]
            if o and callable(o[0]):
                o.append(lambda *a: a[0])
        elif isinstance(o, dict):
            for q in list(o):
                if isinstance(o[q], (np.ndarray, list, dict)):
                    wreck(o[q])
                elif isinstance(o[q], float):
                    o[q] = o[q] * 3 + 11
    wreck(co), wreck(v)
    for q in kw:
        if q not in ('drift_terms',) and isinstance(kw[q], (np.ndarray, list, dict)):
            wreck(kw[q])
    for i in range(3):
        r = do(i)
        for q, w in zip(r, first[i]):
            mk = np.ma.getmaskarray(w)
            need(np.array_equal(plain(q)[~mk], plain(w)[~mk], equal_nan=True), 'changing the constructor arguments afterwards changes execute(%s)' % calls[i][0])


@case('P13', 60)
def update_keeps_inputs(rng, log):
    c = Case(rng, cls=cls_all(rng))
    d = Case(rng, cls=c.cls, n=c.n, geo=c.geo)
    log(c)
    ob = c.build()
    kw = dict(d.vario_kw(), **d.anis_kw())
    before = snap(kw)
    with silent():
        ob.update_variogram_model(**kw)
    need(snap(kw) == before, 'update_variogram_model modifies its arguments')
    par = np.array(ob.variogram_model_parameters, float)
    if isinstance(kw['variogram_parameters'], list):
        for i in range(len(kw['variogram_parameters'])):
            kw['variogram_parameters'][i] = 99.0
    else:
        for q in kw['variogram_parameters']:
            kw['variogram_parameters'][q] = 99.0
    need(np.array_equal(par, np.array(ob.variogram_model_parameters, float)), 'changing the parameter list after update changes the model')


@case('P13', 40)
def statistics_do_not_disturb(rng, log):
    """reading results off an object does not change it"""
    c = Case(rng, cls=cls_all(rng))
    log(c)
    c.check_cond()
    ob = c.build()
    Q = c.points()
    r0 = c.run(ob, Q)
    at0 = {q: snap(w) for q, w in vars(ob).items() if isinstance(w, (np.ndarray, list, float, int, str, bool))}
    with silent():
        ob.get_statistics(), ob.get_epsilon_residuals(), ob.print_statistics()
        if hasattr(ob, 'get_variogram_points'):
            ob.get_variogram_points()
    c.run(ob, c.points(), 'loop')
    c.run_grid(ob, c.axes())
    for q, w in at0.items():
        need(snap(getattr(ob, q)) == w, 'evaluating changes the attribute %s of the model' % q)
    r1 = c.run(ob, Q)
    need(np.array_equal(r0[0], r1[0]) and np.array_equal(r0[1], r1[1]), 'evaluation depends on earlier evaluations')


# ---------------------------------------------------------------- P14
def ext_case(rng, tr=None):
    nx, ny = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    reg = rng.random() < .4
    gx = np.linspace(-3, 9, nx) if reg else np.sort(rng.uniform(-3, 9, nx)) + np.arange(nx) * .2
    gy = np.linspace(10, 17, ny) if reg else np.sort(rng.uniform(10, 17, ny)) + np.arange(ny) * .2
    G = rng.normal(size=(ny, nx)) * 3
    return gx, gy, G


@case('P14', 160)
def external_is_bilinear(rng, log):
    import pykrige
    gx, gy, G = ext_case(rng)
    if rng.random() < .3:
        co = rng.normal(size=4)
        G = co[0] + co[1] * gx[None, :] + co[2] * gy[:, None] + co[3] * gx[None, :] * gy[:, None]

    def pts(m):
        q = np.stack([rng.uniform(gx[0], gx[-1], m), rng.uniform(gy[0], gy[-1], m)], axis=1)
        for i in range(m):
            r = rng.random()
            if r < .25:
                q[i, 0] = rng.choice(gx)
            if .15 < r < .4:
                q[i, 1] = rng.choice(gy)
        return q
    P = np.stack([rng.uniform(gx[0], gx[-1], 9), rng.uniform(gy[0], gy[-1], 9)], axis=1)
    for i in range(9):
        if rng.random() < .3:
            P[i] = [rng.choice(gx), P[i, 1]] if rng.random() < .5 else [P[i, 0], rng.choice(gy)]
    D = np.hypot(P[:, None, 0] - P[:, 0], P[:, None, 1] - P[:, 1]) + 9 * np.eye(9)
    if D.min() < .05:
        raise Skip('close')
    val = np.array([bilinear(gx, gy, G, *q) for q in P])
    if np.ptp(val) < 1e-3:
        raise Skip('flat')
    tr = nx_ne = len(gx) != len(gy) and rng.random() < .4
    kw = {}
    if rng.random() < .3:
        kw = dict(anisotropy_scaling=2.0, anisotropy_angle=40.0)
    g2x, g2y = (gx, gy) if rng.random() < .7 else (gx[:, None], gy[None, :])
    if g2x.ndim == 2:
        g2x, g2y = gx.copy(), gy.copy()
    log(dict(gx=gx.tolist(), gy=gy.tolist(), G=G.tolist(), P=P.tolist(), transposed=bool(tr)))
    Gin = (G.T if tr else G).copy()
    if rng.random() < .3:
        Gin = np.asfortranarray(Gin)
    with silent():
        ob = pykrige.UniversalKriging(P[:, 0], P[:, 1], val, variogram_model='exponential', variogram_parameters=[1.0, 4.0, 0.0],
                                      drift_terms=['external_Z'], external_drift=Gin, external_drift_x=g2x, external_drift_y=g2y, **kw)
    Q = pts(int(rng.integers(1, 7)))
    want = np.array([bilinear(gx, gy, G, *q) for q in Q])
    lim = dict(rtol=1e-6, atol=1e-6 * (1 + np.abs(G).max()))
    for b in ('vectorized', 'loop'):
        with silent():
            z, s = ob.execute('points', Q[:, 0], Q[:, 1], backend=b)
        same(z, want, 'external drift is not the bilinear interpolation (%s)' % b, **lim)
    ax, ay = np.sort(pts(3)[:, 0]), np.sort(pts(4)[:, 1])
    want = np.array([[bilinear(gx, gy, G, u, w) for u in ax] for w in ay])
    for b in ('vectorized', 'loop'):
        with silent():
            z, s = ob.execute('grid', ax, ay, backend=b)
        same(z, want, 'external drift on a grid (%s)' % b, **lim)
    if hasattr(ob, 'z_scalars'):
        same(ob.z_scalars, val, 'external drift at the data', rtol=1e-9, atol=1e-9 * (1 + np.abs(G).max()))


@case('P14', 60)
def outside_raster_refused(rng, log):
    import pykrige
    gx, gy, G = ext_case(rng)
    P = np.stack([rng.uniform(gx[0], gx[-1], 6), rng.uniform(gy[0], gy[-1], 6)], axis=1)
    val = rng.normal(size=6)
    eps = float(rng.choice([1e-3, .4, 30.0]))
    side = int(rng.integers(4))
    q = np.array([rng.uniform(gx[0], gx[-1]), rng.uniform(gy[0], gy[-1])])
    q[side // 2] = (gx, gy)[side // 2][0 if side % 2 == 0 else -1] + (-eps if side % 2 == 0 else eps)
    log(dict(gx=gx.tolist(), gy=gy.tolist(), q=q.tolist()))
    kw = dict(variogram_model='exponential', variogram_parameters=[1.0, 4.0, .1], drift_terms=['external_Z'], external_drift=G,
              external_drift_x=gx, external_drift_y=gy)
    with silent():
        ob = pykrige.UniversalKriging(P[:, 0], P[:, 1], val, **kw)
    Q = np.concatenate([P[:2], q[None]])[rng.permutation(3)]
    for b in ('vectorized', 'loop'):
        raises(lambda: ob.execute('points', Q[:, 0], Q[:, 1], backend=b), 'point %s outside the drift raster (%s)' % (q, b))
        raises(lambda: ob.execute('grid', [q[0]], [q[1]], backend=b), 'grid point %s outside the drift raster (%s)' % (q, b))
    P2 = P.copy()
    P2[int(rng.integers(6))] = q
    raises(lambda: pykrige.UniversalKriging(P2[:, 0], P2[:, 1], val, **kw), 'datum %s outside the drift raster' % q)


# ---------------------------------------------------------------- P15
METHODS = {'OK': 'ordinary', 'UK': 'universal', 'OK3': 'ordinary3d', 'UK3': 'universal3d'}


def krige_args(c, rng):
    """options of the sklearn style wrapper and of the class itself"""
    kw = c.kwargs()
    w = dict(method=METHODS[c.cls], variogram_model=kw['variogram_model'], variogram_parameters=kw['variogram_parameters'],
             variogram_function=kw.get('variogram_function'), exact_values=kw['exact_values'], nlags=int(rng.integers(2, 9)),
             weight=bool(rng.random() < .5), n_closest_points=int(rng.integers(2, c.n + 1)))
    if 'pseudo_inv' in kw:
        w.update(pseudo_inv=True, pseudo_inv_type=kw['pseudo_inv_type'])
    if c.dim == 2:
        short = rng.random() < .3       # a single value is enough in 2D
        w['anisotropy_scaling'] = (c.scaling[0],) if short else (c.scaling[0], 1.0)
        w['anisotropy_angle'] = (c.angles[0],) if short else (c.angles[0], 0.0, 0.0)
    else:
        w['anisotropy_scaling'], w['anisotropy_angle'] = c.scaling, c.angles
    kw['nlags'], kw['weight'] = w['nlags'], w['weight']
    if c.cls == 'OK':
        w['coordinates_type'] = kw.get('coordinates_type', 'euclidean')
        if rng.random() < .4:
            w['enable_statistics'] = kw['enable_statistics'] = True
    if c.cls.startswith('UK'):
        w['drift_terms'] = kw['drift_terms']
        if 'functional_drift' in kw:
            w['functional_drift'] = kw['functional_drift']
        if 'point_drift' in kw:
            w['point_drift'] = kw['point_drift']
        if 'external_drift' in kw:
            w['ext_drift_grid'] = (kw['external_drift'], kw['external_drift_x'], kw['external_drift_y'])
    return w, kw


@case('P15', 140)
def wrapper_is_class(rng, log):
    from pykrige.compat import Krige
    c = Case(rng, cls=cls_all(rng))
    c.drift = [d for d in c.drift if d[0] != 'spec']
    log(c)
    cc = c.check_cond()
    w, kw = krige_args(c, rng)
    if rng.random() < .2 and c.model != 'custom':
        w['variogram_parameters'] = kw['variogram_parameters'] = None
    with silent():
        m = Krige(**w)
        m.fit(c.P.copy(), c.val.copy())
        ob = c.cls_obj()(*[c.P[:, i] for i in range(c.dim)], c.val, **kw)
    same_model(m.model, ob, kw['variogram_parameters'] is None, 'wrapper model')
    Q = c.points()
    for b in (None, 'loop', 'vectorized'):
        a = dict(backend=b or 'loop')
        if c.cls.startswith('OK'):
            if b == 'vectorized':
                continue
            a['n_closest_points'] = w['n_closest_points']
        try:
            with silent():
                z, s = ob.execute('points', *[Q[:, i] for i in range(c.dim)], **a)
        except Exception:
            raise Skip('class fails')
        with silent():
            p = m.predict(Q.copy(), **({} if b is None else {'backend': b}))
        same(p, z, 'wrapper prediction differs from the class (%s)' % b, **c.tol(cc))
        with silent():
            pz, pv = m.execute({n: Q[:, i] for i, n in enumerate(['xpoints', 'ypoints', 'zpoints'][:c.dim])}, **({} if b is None else {'backend': b}))
        same(pz, z, 'wrapper execute: prediction', **c.tol(cc))
        same(pv, s, 'wrapper execute: variance', **c.tol(cc))
    need((getattr(m.model, 'epsilon', None) is None) == (getattr(ob, 'epsilon', None) is None), 'enable_statistics not passed on')
    for at in ('exact_values', 'pseudo_inv', 'pseudo_inv_type', 'verbose', 'coordinates_type'):
        if hasattr(ob, at):
            need(getattr(m.model, at) == getattr(ob, at), 'wrapper option %s not passed on' % at)


@case('P15', 25)
def wrapper_refuses(rng, log):
    from pykrige.compat import Krige
    c = Case(rng, cls=cls_all(rng), drift=[])
    log(c)
    w, kw = krige_args(c, rng)
    with silent():
        m = Krige(**w)
    raises(lambda: m.predict(c.P), 'prediction before fitting')
    wrong = rng.normal(size=(c.n, 5 - c.dim))
    raises(lambda: m.fit(wrong, c.val), 'fit with points of the wrong dimension')
    with silent():
        m = Krige(**w)
        m.fit(c.P, c.val)
    raises(lambda: m.predict(wrong), 'predict with points of the wrong dimension')
    raises(lambda: m.predict(rng.normal(size=(3, 4))), 'predict with 4 columns')
    raises(lambda: m.predict(rng.normal(size=(3, 1))), 'predict with 1 column')
    raises(lambda: Krige(method='kriging'), 'unknown method')
    # the estimator keeps its options (scikit-learn cloning)
    try:
        from sklearn.base import clone
    except ImportError:
        return
    with silent():
        k2 = clone(m)
        for q, v in m.get_params(deep=False).items():
            u = k2.get_params(deep=False)[q]
            need(u is v or type(u) is type(v) and (np.array_equal(u, v) if not isinstance(v, (dict, list, tuple)) else snap(u) == snap(v)), 'clone loses option ' + q)
        k2.fit(c.P, c.val)
        try:
            r = m.predict(c.P[:2] + .01 * c.size)
        except Exception:
            return
        same(k2.predict(c.P[:2] + .01 * c.size), r, 'clone predicts differently')


# ---------------------------------------------------------------- P16
@case('P16', 60)
def regression_kriging(rng, log):
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.tree import DecisionTreeRegressor
    c = Case(rng, cls=str(rng.choice(['OK', 'OK', 'OK3', 'UK', 'UK3'])), n=int(rng.integers(7, 16)))
    c.drift = [d for d in c.drift if d[0] != 'spec']
    log(c)
    cc = c.check_cond()
    F = rng.normal(size=(c.n, 3))
    y = F @ rng.normal(size=3) * 2 + c.val
    mk = [lambda: LinearRegression(), lambda: Ridge(alpha=3.0), lambda: DecisionTreeRegressor(max_depth=2, random_state=0)][int(rng.integers(3))]
    w, kw = krige_args(c, rng)
    if rng.random() < .35 and c.model != 'custom':
        w['variogram_parameters'] = kw['variogram_parameters'] = None
    F0, P0, y0 = F.copy(), c.P.copy(), y.copy()
    with silent():
        m = RegressionKriging(regression_model=mk(), **w)
        m.fit(F, c.P, y)
        r = mk().fit(F, y)
        resid = y - r.predict(F)
        ob = c.cls_obj()(*[c.P[:, i] for i in range(c.dim)], resid, **kw)
    need(np.array_equal(F, F0) and np.array_equal(c.P, P0) and np.array_equal(y, y0), 'fit modifies its arguments')
    Q = c.points()
    G = rng.normal(size=(len(Q), 3))
    a = dict(backend='loop')
    if c.cls.startswith('OK'):
        a['n_closest_points'] = w['n_closest_points']
    try:
        with silent():
            z, s = ob.execute('points', *[Q[:, i] for i in range(c.dim)], **a)
    except Exception:
        raise Skip('class fails')
    same_model(m.krige.model, ob, kw['variogram_parameters'] is None, 'kriging of the residuals')
    if kw['variogram_parameters'] is None:
        return
    c.val = resid
    t = c.tol(cc)
    with silent():
        same(m.krige_residual(Q), z, 'kriged residual', **t)
        same(m.predict(G, Q), z + r.predict(G), 'regression kriging prediction', rtol=1e-7, atol=t['atol'] + 1e-8)
    if c.exact:
        with silent():
            same(m.predict(F, c.P), y, 'training targets not returned at training points', rtol=1e-6, atol=1e-6 * (1 + np.abs(y).max()) + t['atol'])
    with silent():
        from sklearn.metrics import r2_score
        yy = rng.normal(size=len(Q))
        if len(Q) > 1:
            same(m.score(G, Q, yy), r2_score(yy, m.predict(G, Q)), 'score')
    raises(lambda: RegressionKriging(regression_model=object()), 'an object that is no regressor')


# ---------------------------------------------------------------- P17
def my_ilr(X):
    X = np.maximum(X, np.finfo(float).eps)
    D = X.shape[1]
    L = np.log(X)
    return np.stack([(np.sqrt((i + 1) / (i + 2.0))) * (L[:, :i + 1].mean(axis=1) - L[:, i + 1]) for i in range(D - 1)], axis=1)


@case('P17', 80)
def ilr(rng, log):
    from pykrige.ck import closure, ilr_transformation, inverse_ilr_transformation
    m, D = int(rng.integers(1, 6)), int(rng.integers(2, 8))
    X = rng.gamma(1.0, size=(m, D)) + 1e-3
    X /= X.sum(axis=1, keepdims=True)
    Y = rng.gamma(1.0, size=(m, D)) + 1e-3
    log(dict(X=X.tolist()))
    keep = X.copy()
    Z = ilr_transformation(X)
    need(np.array_equal(X, keep), 'ilr modifies its argument')
    need(Z.shape == (m, D - 1), 'ilr shape')
    same(inverse_ilr_transformation(Z), X, 'inverse of ilr', rtol=1e-8)
    W = rng.normal(size=(m, D - 1)) * 2
    k2 = W.copy()
    V = inverse_ilr_transformation(W)
    need(np.array_equal(W, k2), 'inverse ilr modifies its argument')
    need((V > 0).all(), 'inverse ilr not positive')
    same(V.sum(axis=1), np.ones(m), 'inverse ilr rows do not sum to one')
    same(ilr_transformation(V), W, 'ilr of its inverse', rtol=1e-7, atol=1e-8)
    clr = lambda A: np.log(A) - np.log(A).mean(axis=1, keepdims=True)
    same(np.linalg.norm(ilr_transformation(X) - ilr_transformation(Y), axis=1), np.linalg.norm(clr(X) - clr(Y), axis=1), 'ilr is not an isometry', rtol=1e-8)
    same(ilr_transformation(3.0 * X), Z, 'ilr depends on the scale', rtol=1e-8, atol=1e-8)
    C = closure(Y)
    same(C, Y / Y.sum(axis=1, keepdims=True), 'closure')


@case('P17', 40)
def classification_kriging(rng, log):
    from pykrige.ck import ClassificationKriging, ilr_transformation
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    c = Case(rng, cls=str(rng.choice(['OK', 'OK', 'OK3', 'UK'])), n=int(rng.integers(14, 26)), exact=True)
    c.drift = [d for d in c.drift if d[0] != 'spec']
    log(c)
    c.check_cond()
    K = int(rng.integers(2, 5))
    labels = [np.array([3, 7, 11, 20]), np.array(['clay', 'loam', 'sand', 'silt']), np.array([0, 1, 2, 3]), np.array([-5, -2, 4, 9])][int(rng.integers(4))][:K]
    lab = rng.permutation(np.concatenate([np.arange(K), np.arange(K), rng.integers(0, K, c.n - 2 * K)]))
    y = labels[lab].reshape(-1, 1)
    F = rng.normal(size=(c.n, 2)) + lab[:, None] * rng.choice([.3, 1.0])
    mk = lambda: GaussianNB() if rng_flag else LogisticRegression(C=.5)
    rng_flag = rng.random() < .5
    w, kw = krige_args(c, rng)
    if rng.random() < .35 and c.model != 'custom':
        w['variogram_parameters'] = kw['variogram_parameters'] = None
    with silent():
        m = ClassificationKriging(classification_model=mk(), **w)
        m.fit(F, c.P, y)
        cl = mk().fit(F, y.ravel())
    need(list(cl.classes_) == list(labels), 'harness')
    onehot = (y == labels[None, :]).astype(float)
    R0 = my_ilr(onehot) - my_ilr(cl.predict_proba(F))
    R = ilr_transformation(onehot) - ilr_transformation(cl.predict_proba(F))  # the orthonormal basis is the library's choice
    same(R @ R.T, R0 @ R0.T, 'ilr residuals (Gram matrix)', rtol=1e-7, atol=1e-7)
    Q = c.points(6)
    G = rng.normal(size=(len(Q), 2))
    a = dict(backend='loop')
    if c.cls.startswith('OK'):
        a['n_closest_points'] = w['n_closest_points']
    cols, obs = [], []
    for i in range(K - 1):
        try:
            with silent():
                ob = c.cls_obj()(*[c.P[:, d] for d in range(c.dim)], R[:, i], **kw)
                obs.append(ob)
                cols.append(ob.execute('points', *[Q[:, d] for d in range(c.dim)], **a)[0])
        except Exception:
            raise Skip('class fails')
    kr = np.stack(cols, axis=1)
    for ob, mk_ in zip(obs, m.krige):
        same_model(mk_.model, ob, kw['variogram_parameters'] is None, 'kriging of the ilr residuals')
    if kw['variogram_parameters'] is None:
        return
    with silent():
        same(m.krige_residual(Q), kr, 'kriged ilr residuals', rtol=1e-6, atol=1e-6 * (1 + np.abs(R).max()))
        pred = m.predict(G, Q)
    V = (kr + ilr_transformation(cl.predict_proba(G))) @ ilr_transformation(np.exp(np.eye(K))).T
    o = np.sort(V, axis=1)
    clear = o[:, -1] - o[:, -2] > 1e-4 * (1 + np.abs(V).max())
    want = labels[np.argmax(V, axis=1)]
    need(np.shape(pred) == (len(Q),), 'shape of the prediction %s' % (np.shape(pred),))
    need(all(p == q for p, q, r in zip(pred, want, clear) if r), 'predicted labels %s instead of %s' % (list(pred), list(want)))
    need(set(pred) <= set(labels), 'predictions are not class labels')
    with silent():
        from sklearn.metrics import accuracy_score
        yy = labels[rng.integers(0, K, len(Q))]
        same(m.score(G, Q, yy), accuracy_score(yy, pred), 'score')
    raises(lambda: ClassificationKriging(classification_model=object()), 'an object that is no classifier')


# ---------------------------------------------------------------- P18 / P19
def grid_case(rng, square=False):
    nx, ny = int(rng.integers(2, 14)), int(rng.integers(2, 14))
    q = lambda lo, hi: float(rng.integers(int(lo * 4), int(hi * 4))) / 4
    dx = q(.25, 40)
    dy = dx if square else q(.25, 40)
    x = q(-2000, 2000) + dx * np.arange(nx)
    y = q(-2000, 2000) + dy * np.arange(ny)
    mag = float(rng.choice([1.0, 100.0, 1e5, 1e6, 3e9]))
    z = np.round(rng.normal(size=(ny, nx)) * mag, 2)
    if rng.random() < .2:
        z = np.round(z, 0)
    if rng.random() < .2:  # wide range of magnitudes, missing-value conventions of other programs
        w = rng.random(z.shape) < .3
        z = np.where(w, np.sign(z) * 10.0 ** np.round(rng.uniform(0, 38, z.shape), 2), z)
        z[rng.random(z.shape) < .1] = rng.choice([1e30, -1e30, 1e20, 3.4028235e38, 1.70141e38, 1e31])
    nd = float(rng.choice([-999.0, -9999.0, 12345.0, -1.0, -99.25, 0.5, -999.25, 1e30, 0.0, 1234567.25, -9.75e5]))
    return x, y, z, dx, dy, nd


@case('P18', 120)
def asc_round_trip(rng, log):
    import pykrige.kriging_tools as kt
    style = int(rng.integers(1, 3))
    x, y, z, dx, dy, nd = grid_case(rng, style == 2)
    log(dict(x=x.tolist(), y=y.tolist(), shape=z.shape, style=style, nodata=nd))
    zin, mask = z.copy(), None
    if rng.random() < .4:
        mask = rng.random(z.shape) < .3
        zin = np.ma.array(z.copy(), mask=mask)
        zin.data[mask] = 1e20
    keep = snap([x, y, zin])
    with tempfile.TemporaryDirectory() as td:
        fn = os.path.join(td, 'g.asc')
        with silent():
            kw = {} if nd == -999.0 and rng.random() < .5 else {'no_data': nd}
            kt.write_asc_grid(x, y, zin, filename=fn, style=style, **kw)
            need(snap([x, y, zin]) == keep, 'write_asc_grid modifies its arguments')
            g, gx, gy, cs, nod = kt.read_asc_grid(fn)
            lines = open(fn).read().splitlines()
            with open(fn, 'a') as f:
                f.write('\n' + '\n'.join('footer line %d' % q for q in range(2)) + '\n')
            g2 = kt.read_asc_grid(fn, footer=2)
    want = z if mask is None else np.where(mask, nd, z)
    same(g, want, 'grid values after the ASC round trip', rtol=1e-12, atol=5.1e-3)
    same(g2[0], want, 'grid values with a footer', rtol=1e-12, atol=5.1e-3)
    same(gx, x, 'x coordinates after the ASC round trip', atol=6e-3 * (1 + len(x)))
    same(gy, y, 'y coordinates after the ASC round trip', atol=6e-3 * (1 + len(y)))
    same(np.atleast_1d(cs), np.array([dx, dy]) if np.ndim(cs) else np.array([dx]), 'cell size', atol=6e-3)
    need(abs(nod - nd) < 6e-3, 'no-data value')
    need(lines[0].split()[0].upper() == 'NCOLS', 'header')


@case('P18', 60)
def asc_refuses(rng, log):
    import pykrige.kriging_tools as kt
    x, y, z, dx, dy, nd = grid_case(rng, True)
    x = np.arange(5) * 1.5
    y = np.arange(4) * 1.5
    z = rng.normal(size=(4, 5))
    log(dict())
    with tempfile.TemporaryDirectory() as td:
        fn = os.path.join(td, 'g.asc')
        W = lambda *a, **k: kt.write_asc_grid(*a, filename=fn, **k)
        xb = x.copy()
        xb[int(rng.integers(1, 4))] += .3
        yb = y.copy()
        yb[1 if rng.random() < .5 else -1] += .4
        for st in (1, 2):
            x1 = x.copy(); x1[-1] += .5
            y1 = y.copy(); y1[-1] += .5
            x2 = x.copy(); x2[1] += .3
            y2 = y.copy(); y2[1] += .3
            raises(lambda: W(x1, y, z, style=st), 'irregular x spacing (last)')
            raises(lambda: W(x, y1, z, style=st), 'irregular y spacing (last)')
            raises(lambda: W(x2, y, z, style=st), 'irregular x spacing (first)')
            raises(lambda: W(x, y2, z, style=st), 'irregular y spacing (first)')
            x3 = x.copy(); x3[2] += .3      # first and mean step agree
            y3 = y.copy(); y3[2] += .3
            raises(lambda: W(x3, y, z, style=st), 'irregular x spacing (inside)')
            raises(lambda: W(x, y3, z, style=st), 'irregular y spacing (inside)')
            raises(lambda: W(x, y, z[0], style=st), 'one-dimensional grid')
            raises(lambda: W(x, y, np.stack([z, z]), style=st), 'three-dimensional grid')
            X, Y = np.meshgrid(x, y)
            raises(lambda: W(X, y, z, style=st), 'two-dimensional x')
            raises(lambda: W(x, Y, z, style=st), 'two-dimensional y')
        raises(lambda: W(x, y * 2, z, style=2), 'non-square cells in style 2')
        raises(lambda: W(x, y, z, style=3), 'unknown style')
        raises(lambda: W(x, y, z, style=0), 'unknown style')
        with silent():
            W(x, y * 2, z, style=1)
            t = open(fn).read()
            open(fn, 'w').write(t.replace('NROWS          4', 'NROWS          7'))
        raises(lambda: kt.read_asc_grid(fn), 'wrong row count in the header')
        open(fn, 'w').write(t.replace('NCOLS          5', 'NCOLS          6'))
        raises(lambda: kt.read_asc_grid(fn), 'wrong column count in the header')
        open(fn, 'w').write(t.replace('NCOLS', 'COLUMNS'))
        raises(lambda: kt.read_asc_grid(fn), 'unknown header key')


@case('P19', 160)
def zmap_round_trip(rng, log):
    import pykrige.kriging_tools as kt
    x, y, z, dx, dy, nd = grid_case(rng)
    mag = float(rng.choice([1.0, 50.0, 9e5, 1.2e6, 3e9, 1e101]))
    z = rng.normal(size=z.shape) * mag
    if rng.random() < .3:
        z = np.abs(z)
    if rng.random() < .2:
        x, dx = x[0] + (dx / 3) * np.arange(len(x)), dx / 3
        y, dy = y[0] + (dy / 7) * np.arange(len(y)), dy / 7
    cs = str(rng.choice(['<null>', 'UTM 33N', 'WGS84', 'EPSG:4326', 'ETRS89, zone 32: a']))
    log(dict(x=x.tolist(), y=y.tolist(), shape=z.shape, nodata=nd, mag=mag))
    zin = z.copy()
    miss = np.zeros(z.shape, bool)
    r = rng.random()
    if r < .3:
        miss = rng.random(z.shape) < .3
        zin = np.ma.array(z.copy(), mask=miss)
    elif r < .5:
        miss = rng.random(z.shape) < .3
        zin[miss] = np.nan
    keep = snap([x, y, zin])
    with tempfile.TemporaryDirectory() as td:
        fn = os.path.join(td, 'g.zmap')
        with silent():
            kt.write_zmap_grid(x, y, zin, filename=fn, no_data=nd, coord_sys=cs)
            need(snap([x, y, zin]) == keep, 'write_zmap_grid modifies its arguments')
            g, gx, gy, c, nod, csr = kt.read_zmap_grid(fn)
    want = np.where(miss, nd, z)
    prec = np.where(np.abs(want) >= 1e6, 6e-8 * np.abs(want), 5.1e-5)
    need(g.shape == z.shape, 'shape after the ZMAP round trip %s' % (g.shape,))
    bad = ~(np.abs(g - want) <= prec + 1e-12 * np.abs(want))
    need(not bad.any(), 'grid values after the ZMAP round trip: %s' % (np.argwhere(bad)[:1].tolist(),))
    same(gx, x, 'x coordinates after the ZMAP round trip', rtol=1e-9, atol=1e-8)
    same(gy, y, 'y coordinates after the ZMAP round trip', rtol=1e-9, atol=1e-8)
    same(c, (dx, dy), 'cell sizes', rtol=1e-7)
    need(nod == nd, 'no-data value %r' % nod)
    need(csr == cs, 'coordinate system label %r' % csr)


@case('P19', 40)
def zmap_refuses(rng, log):
    import pykrige.kriging_tools as kt
    n, m = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    x = float(rng.normal()) + np.arange(n) * float(rng.uniform(.2, 5))
    y = float(rng.normal()) + np.arange(m) * float(rng.uniform(.2, 5))
    z = rng.normal(size=(m, n))
    i, k = int(rng.integers(0, n)), int(rng.integers(0, m))
    log(dict(x=x.tolist(), y=y.tolist(), i=i, k=k))
    with tempfile.TemporaryDirectory() as td:
        fn = os.path.join(td, 'g.zmap')
        W = lambda *a: kt.write_zmap_grid(*a, filename=fn)
        xb, yb = x.copy(), y.copy()
        xb[i] += .3 * (x[1] - x[0])
        yb[k] += .3 * (y[1] - y[0])
        raises(lambda: W(xb, y, z), 'irregular x spacing (%d)' % i)
        raises(lambda: W(x, yb, z), 'irregular y spacing (%d)' % k)


# ---------------------------------------------------------------- P20
@case('P20', 120)
def statistics(rng, log):
    c = Case(rng, cls=cls_all(rng), n=int(rng.integers(3, 15)), exact=None)
    c.drift = []
    log(c)
    if c.cls == 'OK':
        c.extra['enable_statistics'] = True
    ob = c.build()
    upd = rng.random() < .3
    if upd:
        with silent():
            ob.update_variogram_model(**c.vario_kw(), **c.anis_kw())
    A = c.adj(c.P)
    delta, sigma = [], []
    for i in range(1, c.n):
        D = c.dist(A[:i], A[:i])
        M = np.zeros((i + 1, i + 1))
        M[:i, :i] = -c.gamma(D)
        M[np.arange(i), np.arange(i)] = 0
        M[:i, i] = M[i, :i] = 1
        d = c.dist(A[i:i + 1], A[:i])[0]
        b = np.concatenate([-c.gamma(d), [1.0]])
        if np.linalg.cond(M) > 1e9:
            raise Skip('cond')
        w = np.linalg.solve(M, b)
        ss = -(w * b).sum()
        if abs(ss) < 1e-6:
            raise Skip('vanishing variance')
        if ss < 0:
            raise Skip('negative')
        delta.append(c.val[i] - w[:i] @ c.val[:i])
        sigma.append(np.sqrt(ss))
    delta, sigma = np.array(delta), np.array(sigma)
    t = dict(rtol=1e-6, atol=1e-7 * (1 + np.abs(c.val).max()))
    same(ob.delta, delta, 'delta', **t)
    same(ob.sigma, sigma, 'sigma', **t)
    eps = delta / sigma
    same(ob.epsilon, eps, 'epsilon', **t)
    same(ob.get_epsilon_residuals(), eps, 'epsilon residuals', **t)
    n1 = len(eps) - 1
    if n1 < 1:
        return
    Q1, Q2 = abs(eps.sum() / n1), (eps ** 2).sum() / n1
    cR = Q2 * np.exp(np.log(sigma ** 2).sum() / len(sigma))
    for a, b in zip(ob.get_statistics(), (Q1, Q2, cR)):
        same(a, b, 'Q1, Q2, cR', **t)
    same([ob.Q1, ob.Q2, ob.cR], [Q1, Q2, cR], 'Q1, Q2, cR attributes', **t)


@case('P20', 40)
def statistics_duplicates(rng, log):
    """data that repeat an earlier location have vanishing variance and are left out"""
    c = Case(rng, cls=str(rng.choice(['OK', 'UK', 'OK3', 'UK3'])), n=8, models=['exponential', 'linear', 'spherical'], custom=False, unit=True, geo=False)
    c.drift = []
    j = int(rng.integers(3, 8))
    c.P[7] = c.P[int(rng.integers(0, 7))]
    log(c)
    if c.cls == 'OK':
        c.extra['enable_statistics'] = True
    ob = c.build()
    need(len(ob.delta) == len(ob.sigma) == len(ob.epsilon) == 6, 'a datum with vanishing variance is not left out of all three alike: %d %d %d' % (len(ob.delta), len(ob.sigma), len(ob.epsilon)))
    same(ob.epsilon, ob.delta / ob.sigma, 'epsilon is delta over sigma', rtol=1e-9)


# ---------------------------------------------------------------- P21
def fit_cost(model, p, lags, sem, weight):
    r = vario(model, p, lags) - sem
    if weight:
        dr = lags.max() - lags.min()
        k = 2.1972 / (0.1 * dr)
        x0 = 0.7 * dr + lags.min()
        w = 1 / (1 + np.exp(-k * (x0 - lags)))
        r = r * (w / w.sum())
    return (np.sqrt(1 + r ** 2) - 1).sum()


@case('P21', 140)
def automatic_fit(rng, log):
    c = Case(rng, cls=cls_all(rng), n=int(rng.integers(6, 30)), custom=False)
    w, nl = bool(rng.random() < .5), int(rng.integers(3, 12))
    sc = float(rng.choice([0.05, 1.0, 8.0]))
    c.val = sc * (c.val + (c.P[:, 0] / c.size if rng.random() < .5 else 0))
    log(c)
    m = str(c.model)
    kw = dict(variogram_parameters=None, nlags=nl, weight=w)
    try:
        if rng.random() < .3:
            ob = c.build()
            with silent():
                ob.update_variogram_model(m, nlags=nl, weight=w, **c.anis_kw())
        else:
            ob = c.build(**kw)
    except np.linalg.LinAlgError:
        raise Skip('singular statistics')
    lags, sem, p = np.asarray(ob.lags), np.asarray(ob.semivariance), np.asarray(ob.variogram_model_parameters, float)
    if len(lags) < 3:
        raise Skip('few lags')
    S, L = sem.max(), lags.max()
    s0 = sem.min()
    if m == 'linear':
        lo, hi = [0, 0], [np.inf, S]
        x0 = [(S - s0) / (L - lags.min()), s0]
    elif m == 'power':
        lo, hi = [0, 0.001, 0], [np.inf, 1.999, S]
        x0 = [(S - s0) / (L - lags.min()), 1.1, s0]
    else:
        lo, hi = [0, 0, 0], [10 * S, L, S]
        x0 = [S - s0, .25 * L, s0]
    lo, hi = np.array(lo, float), np.array(hi, float)
    need(len(p) == len(lo), 'number of fitted parameters')
    need((p >= lo - 1e-12).all() and (p <= hi * (1 + 1e-12) + 1e-12).all(), 'fitted parameters %s outside the bounds' % p)
    f = fit_cost(m, p, lags, sem, w)
    need(f <= fit_cost(m, x0, lags, sem, w) + 1e-9, 'fit is worse than its starting point')
    from scipy.optimize import least_squares

    def resid(q):
        r = vario(m, q, lags) - sem
        if w:
            dr = lags.max() - lags.min()
            ww = 1 / (1 + np.exp(-2.1972 / (.1 * dr) * (.7 * dr + lags.min() - lags)))
            r = r * (ww / ww.sum())
        return r
    def close(fr, tol):
        return f <= fr * (1 + tol) + 1e-7 * (1 + fr) + 1e-10
    fr = fit_cost(m, least_squares(resid, x0, bounds=(lo, hi), loss='soft_l1').x, lags, sem, w)
    if not close(fr, 5e-4):
        # the objective has kinks and several basins: rounding alone may lead to another local
        # minimum, so compare with the worst of runs from minutely perturbed starts
        x0, lo_, hi_ = np.array(x0, float), np.maximum(lo, -1e300), np.minimum(hi, 1e300)
        for _ in range(40):
            xs = np.clip(x0 * (1 + rng.normal(0, 1e-6, len(x0))), lo_, hi_)
            fr = max(fr, fit_cost(m, least_squares(resid, xs, bounds=(lo, hi), loss='soft_l1').x, lags, sem, w))
        need(close(fr, 0.02), 'fitted cost %g, attainable from the same start %g' % (f, fr))


@case('P21', 60)
def fit_weights(rng, log):
    from pykrige import core
    m = int(rng.integers(2, 12))
    x = np.sort(rng.uniform(.1, 20, m)) + np.arange(m) * .01
    y = rng.uniform(0, 3, m)
    log(dict(x=x.tolist(), y=y.tolist()))
    f = lambda p, d: p[0] * d + p[1]
    p = [0.3, 0.2]
    if not hasattr(core, '_variogram_residuals'):
        raise Skip('renamed')
    r0 = core._variogram_residuals(p, x.copy(), y.copy(), f, False)
    r1 = core._variogram_residuals(p, x.copy(), y.copy(), f, True)
    same(r0, f(p, x) - y, 'unweighted residuals')
    w = r1 / r0
    same(w.sum(), 1.0, 'weights do not sum to one', rtol=1e-9)
    need((np.diff(w) < 0).all(), 'weights do not decrease with lag')
    dr = x.max() - x.min()
    ww = 1 / (1 + np.exp(-2.1972 / (.1 * dr) * (.7 * dr + x.min() - x)))
    same(w, ww / ww.sum(), 'logistic weights', rtol=1e-8)


# ---------------------------------------------------------------- P22
@case('P22', 60)
def bad_options(rng, log):
    c = Case(rng, cls=cls_all(rng), geo=False)
    log(c)
    for bad in ('Pinv', 'inv', '', 'pinv3', None):
        raises(lambda: c.build(pseudo_inv=True, pseudo_inv_type=bad), 'pseudo_inv_type=%r' % (bad,))
        raises(lambda: c.build(pseudo_inv=False, pseudo_inv_type=bad), 'pseudo_inv_type=%r' % (bad,))
    for bad in (1, 0, 'True', None, np.array([True]), 1.0):
        raises(lambda: c.build(exact_values=bad), 'exact_values=%r' % (bad,))
    if c.cls == 'OK':
        for bad in ('Geographic', 'geo', '', 'cartesian', None):
            raises(lambda: c.build(coordinates_type=bad), 'coordinates_type=%r' % (bad,))
    ob = c.build()
    axes = [np.sort(c.points(m)[:, i]) for i, m in zip(range(c.dim), (3, 4, 2))]
    Q, shape = c.axes_points(axes)
    pts = c.points(4)
    base = {}
    if c.has_spec:
        base['specified_drift_arrays'] = c.spec_at(pts)
    gb = {}
    if c.has_spec:
        gb['specified_drift_arrays'] = [s.reshape(shape) for s in c.spec_at(Q)]
    P4 = [pts[:, i] for i in range(c.dim)]
    E = lambda style, co, **k: (lambda: ob.execute(style, *co, **k))
    for bad in ('Grid', 'point', '', None, 'mask', 5):
        raises(E(bad, P4, **base), 'style=%r' % (bad,))
    for bad in ('c', 'vector', '', 'Loop', None):
        raises(E('points', P4, backend=bad, **base), 'backend=%r' % (bad,))
        raises(E('grid', axes, backend=bad, **gb), 'backend=%r' % (bad,))
    if c.cls != 'OK':
        raises(E('points', P4, backend='C', **base), 'backend C of a class without one')
    if c.cls.startswith('OK'):
        for bad in (('vectorized', 'x') if c.cls == 'OK' else ('vectorized', 'C', 'x')):
            raises(E('points', P4, backend=bad, n_closest_points=2), 'moving window with backend %s' % bad)
    for b in c.backends():
        raises(E('masked', axes, backend=b, **gb), 'masked without a mask')
        bads = [(9, 4), (3, 9), (5, 5), (3, 3)] if c.dim == 2 else [(2, 4, 9), (4, 2, 3), (3, 2, 4), (2, 3, 4), (2, 2, 2)]
        for s in bads:
            raises(E('masked', axes, mask=np.zeros(s, bool), backend=b, **gb), 'mask of shape %s for grid %s' % (s, shape))
        raises(E('masked', axes, mask=np.zeros(int(np.prod(shape)), bool), backend=b, **gb), 'flat mask')
        if c.dim == 3:
            raises(E('masked', axes, mask=np.zeros(shape[1:], bool), backend=b, **gb), 'two-dimensional mask')
        for i in range(c.dim):
            w = [q.copy() for q in P4]
            w[i] = w[i][:-1]
            raises(E('points', w, backend=b, **base), 'point arrays of different length (axis %d, %s)' % (i, b))
            w = [q.copy() for q in P4]
            w[i] = np.append(w[i], 1.0)
            raises(E('points', w, backend=b, **base), 'point arrays of different length (axis %d, %s)' % (i, b))
    # valid combinations are accepted
    for b in c.backends():
        for style in ('points', 'grid', 'masked'):
            with silent():
                k = dict(base if style == 'points' else gb)
                if style == 'masked':
                    k['mask'] = rng.random(shape) < .3
                r = ob.execute(style, *(P4 if style == 'points' else axes), backend=b, **k)
            need(np.shape(r[0]) == ((4,) if style == 'points' else shape), 'shape of a valid %s request' % style)
    ints = [np.unique(np.round(a * 8 / min(1, c.size))).astype(int) for a in axes]
    if c.drift == []:
        for b in c.backends():
            with silent():
                r1 = ob.execute('grid', *ints, backend=b)
                r2 = ob.execute('grid', *[a.astype(float) for a in ints], backend=b)
            same(r1[0], r2[0], 'integer coordinates', **c.tol())
            with silent():
                r3 = ob.execute('grid', *[a.tolist() for a in ints], backend=b)
            same(r3[0], r2[0], 'list coordinates', **c.tol())


@case('P22', 60)
def bad_drifts(rng, log):
    import pykrige
    d = ['spec', 'regional'] if rng.random() < .5 else ['spec']
    c = Case(rng, cls=str(rng.choice(['UK', 'UK3'])), drift=d, n=int(rng.integers(9, 14)))
    log(c)
    kw = c.kwargs()
    mk = lambda **o: c.build(**o)
    if not c.has_spec:
        raise Skip('no drift')
    spec = kw['specified_drift']
    for bad in (None, [], tuple(spec), np.array(spec), [spec[0][:-1]], [np.append(spec[0], 1.0)], spec[0], [spec[0]] * len(spec[:-1]) + [spec[0][:2]]):
        raises(lambda: mk(specified_drift=bad), 'specified drift data %s' % type(bad))
    for bad in (None, [], (lambda *a: a[0]), (lambda *a: a[0],)):
        raises(lambda: mk(drift_terms=['functional'], functional_drift=bad), 'functional drift %s' % type(bad))
    if c.cls == 'UK':
        raises(lambda: mk(drift_terms=['point_log']), 'point_log without locations')
        gx, gy = np.linspace(c.P[:, 0].min() - 1, c.P[:, 0].max() + 1, 4), np.linspace(c.P[:, 1].min() - 1, c.P[:, 1].max() + 1, 5)
        G = rng.normal(size=(5, 4))
        ex = dict(drift_terms=['external_Z'])
        raises(lambda: mk(**ex), 'external drift without raster')
        raises(lambda: mk(external_drift=G, **ex), 'external drift without coordinates')
        raises(lambda: mk(external_drift=G, external_drift_x=gx, **ex), 'external drift without y')
        raises(lambda: mk(external_drift=G, external_drift_y=gy, **ex), 'external drift without x')
        raises(lambda: mk(external_drift_x=gx, external_drift_y=gy, **ex), 'external drift without values')
        for s in ((5, 5), (4, 4), (3, 5), (5, 3), (20,)):
            raises(lambda: mk(external_drift=np.zeros(s), external_drift_x=gx, external_drift_y=gy, **ex), 'external drift of shape %s' % (s,))
        with silent():
            mk(external_drift=G, external_drift_x=gx, external_drift_y=gy, **ex)
            mk(external_drift=G.T, external_drift_x=gx, external_drift_y=gy, **ex)
    ob = c.build()
    pts = c.points(4)
    P4 = [pts[:, i] for i in range(c.dim)]
    sp = c.spec_at(pts)
    axes = [np.sort(c.points(m)[:, i]) for i, m in zip(range(c.dim), (3, 4, 2))]
    Q, shape = c.axes_points(axes)
    sg = [s.reshape(shape) for s in c.spec_at(Q)]
    for b in ('vectorized', 'loop'):
        E = lambda style, co, arr: (lambda: ob.execute(style, *co, backend=b, specified_drift_arrays=arr))
        for bad in (None, [], tuple(sp), sp + sp[:1], sp[:-1] if len(sp) > 1 else sp * 2, [s[:-1] for s in sp], [s[:, None] for s in sp], [np.append(s, 0.) for s in sp]):
            raises(E('points', P4, bad), 'specified drift values for points: %s' % type(bad))
        flat = [s.ravel() for s in sg]
        for bad in (None, [], tuple(sg), sg + sg[:1], flat, [s[..., :-1] for s in sg], [s[1:] for s in sg]):
            raises(E('grid', axes, bad), 'specified drift values for a grid: %s' % type(bad))
        with silent():
            E('points', P4, sp)()
            r1 = E('grid', axes, sg)()
            r2 = E('grid', axes, [s.swapaxes(0, -1) for s in sg])()
        same(r2[0], r1[0], 'specified drift grids with reversed axes', **c.tol())


# ---------------------------------------------------------------- P23
@case('P23', 150)
def kernels_in_bounds(rng, log):
    """kernels built with bounds checks on: an access outside raises IndexError"""
    c = Case(rng, cls='OK', models=C_MODELS, custom=False, n=int(rng.choice([2, 3, 4, 5, 8, 13, 30, 60])))
    log(c)
    if not np.all(np.isfinite(c.system())):
        raise Skip('inf')
    ob = c.build()
    axes = c.axes(nmax=6)
    Q, shape = c.axes_points(axes)
    k = None
    if rng.random() < .6:
        k = int(rng.choice([2, min(3, c.n), c.n, int(rng.integers(2, c.n + 1))]))
    style = str(rng.choice(['points', 'grid', 'masked']))
    cc = c.cond()
    if cc > 1e8:
        raise Skip('cond')
    try:
        if style == 'points':
            z, s = c.run(ob, Q, 'C', k)
            mask = np.zeros(len(Q), bool)
        else:
            mask = rng.random(shape) < rng.choice([0, .3, .7, 1.0]) if style == 'masked' else None
            z, s = c.run_grid(ob, axes, 'C', k, mask)
            mask = np.zeros(shape, bool) if mask is None else mask
    except IndexError as e:
        raise Fail('compiled kernel accesses memory outside a buffer: %s (style %s, window %s, %d data, %d points)' % (e, style, k, c.n, len(Q)))
    z0, s0 = c.ref(Q, k=k)
    z0, s0 = z0.reshape(np.shape(z)), s0.reshape(np.shape(z))
    same(plain(z)[~mask], z0[~mask], 'an unmasked entry of the result is not written correctly', rtol=1e-5, atol=1e-5 * (1 + np.abs(c.val).max()))
    same(plain(s)[~mask], s0[~mask], 'an unmasked entry of the variance is not written correctly', rtol=1e-5, atol=1e-5)


# ---------------------------------------------------------------- P24
@case('P24', 160)
def kriging_equations(rng, log):
    c = Case(rng, cls=cls_all(rng))
    log(c)
    cc = c.check_cond()
    ob = c.build()
    Q = c.points()
    z0, s0 = c.ref(Q)
    t = c.tol(cc)
    for b in c.backends():
        z, s = c.run(ob, Q, b)
        same(z, z0, 'estimate (%s)' % b, **t)
        same(s, s0, 'variance (%s)' % b, rtol=1e-7, atol=1e-8 * (1 + np.abs(s0).max()) + 1e-13 * cc)
    axes = c.axes()
    G, shape = c.axes_points(axes)
    z0, s0 = c.ref(G)
    b = str(rng.choice(c.backends()))
    z, s = c.run_grid(ob, axes, b)
    same(z, z0.reshape(shape), 'grid estimate (%s)' % b, **t)
    same(s, s0.reshape(shape), 'grid variance (%s)' % b, rtol=1e-7, atol=1e-8 * (1 + np.abs(s0).max()) + 1e-13 * cc)


@case('P24', 30)
def integer_inputs(rng, log):
    c = Case(rng, cls=cls_all(rng), geo=False, ints=True, n=int(rng.integers(7, 12)))
    c.val = np.round(c.val * 3)
    if c.model in ('linear', 'power'):
        c.params = [1, 1] if c.model == 'linear' else [1, 1, 1]
        c.p = [float(q) for q in c.params]
    log(c)
    cc = c.check_cond()
    D = c.dist(c.P, c.P) + 9 * np.eye(c.n)
    if D.min() == 0:
        raise Skip('duplicate')
    with silent():
        ob = c.cls_obj()(*[c.P[:, i].astype(int) for i in range(c.dim)], c.val.astype(int), **c.kwargs())
    Q = np.round(c.points(4))
    z0, s0 = c.ref(Q)
    for b in c.backends():
        kw = {}
        if c.has_spec:
            kw['specified_drift_arrays'] = c.spec_at(Q)
        with silent():
            z, s = ob.execute('points', *[Q[:, i].astype(int) for i in range(c.dim)], backend=b, **kw)
        same(z, z0, 'estimate from integer inputs (%s)' % b, **c.tol(cc))
        same(s, s0, 'variance from integer inputs (%s)' % b, **c.tol(cc))


@case('P24', 25)
def collinear_and_1d(rng, log):
    """data on a line (y constant), masked-array or nested-list inputs, column vectors"""
    import pykrige
    n = int(rng.integers(4, 9))
    x = np.cumsum(rng.uniform(.3, 1.2, n))
    v = rng.normal(size=n)
    p = [1.5, 2.0, 0.25]
    log(dict(x=x.tolist(), v=v.tolist()))
    with silent():
        ob = pykrige.OrdinaryKriging(x[:, None], np.zeros((n, 1)), v[:, None], variogram_model='exponential', variogram_parameters={'psill': 1.5, 'range': 2.0, 'nugget': .25})
    q = np.linspace(x[0] - 1, x[-1] + 1, 5)
    A = np.zeros((n + 1, n + 1))
    A[:n, :n] = -vario('exponential', p, np.abs(x[:, None] - x))
    A[np.arange(n), np.arange(n)] = 0
    A[n, :n] = A[:n, n] = 1
    R = np.concatenate([-vario('exponential', p, np.abs(q[:, None] - x)), np.ones((5, 1))], axis=1)
    W = np.linalg.solve(A, R.T).T
    for b in ('vectorized', 'loop', 'C'):
        with silent():
            z, s = ob.execute('grid', q, np.array([0.0]), backend=b)
        same(z, (W[:, :n] @ v)[None, :], 'one-dimensional kriging (%s)' % b)
        same(s, -(W * R).sum(axis=1)[None, :], 'one-dimensional kriging variance (%s)' % b)


# ---------------------------------------------------------------- P25
def gs_model(rng, dim, size, latlon=False):
    import gstools as gs
    cl = [gs.Exponential, gs.Gaussian, gs.Spherical, gs.Stable][int(rng.integers(4))]
    kw = dict(var=dyadic(rng, .5, 2), len_scale=dyadic(rng, .3, 1) * size, nugget=dyadic(rng, 0, .4))
    if latlon:
        return cl(latlon=True, var=kw['var'], nugget=kw['nugget'], len_scale=float(rng.uniform(.2, .9)))
    if rng.random() < .8:
        kw['anis'] = [float(rng.choice([.3, .5, 1.0, 2.0])) for _ in range(dim - 1)]
        kw['angles'] = [float(a) for a in rng.uniform(-3, 3, 1 if dim == 2 else 3)]
    return cl(dim=dim, **kw)


@case('P25', 100)
def gstools_models(rng, log):
    try:
        import gstools as gs
    except ImportError:
        raise Skip('no gstools')
    cls = str(rng.choice(['OK', 'OK', 'UK', 'OK3', 'UK3']))
    c = Case(rng, cls=cls, unit=True, n=int(rng.integers(7, 14)), pinv='', kinds=['regional', 'func'])
    m = gs_model(rng, c.dim, c.size, c.geo)
    log(dict(c.describe(), gs=repr(m)))
    f = m.pykrige_vario
    base = {q: w for q, w in c.kwargs().items() if q not in c.vario_kw() and q not in c.anis_kw()}
    co = [c.P[:, i] for i in range(c.dim)]
    cl = c.cls_obj()
    if c.geo:
        an = {}
    elif c.dim == 2:
        an = dict(anisotropy_scaling=m.pykrige_anis, anisotropy_angle=m.pykrige_angle)
    else:
        an = dict(anisotropy_scaling_y=m.pykrige_anis_y, anisotropy_scaling_z=m.pykrige_anis_z, anisotropy_angle_x=m.pykrige_angle_x,
                  anisotropy_angle_y=m.pykrige_angle_y, anisotropy_angle_z=m.pykrige_angle_z)
    with silent():
        if rng.random() < .5:
            a = cl(*co, c.val, variogram_model=m, **base)
        else:
            a = c.build()
            a.update_variogram_model(m)
            if rng.random() < .3:
                a.update_variogram_model('linear', [1.0, .1])
                a.update_variogram_model(m, variogram_parameters=[9.0, 9.0], variogram_function=lambda p, d: 5 * d)
        b = cl(*co, c.val, variogram_model='custom', variogram_parameters=[], variogram_function=lambda p, d: f(p, d), **an, **base)
    c.func, c.model, c.p = (lambda p, d: np.asarray(f(p, d))), 'custom', []
    if c.dim == 2 and not c.geo:
        c.scaling, c.angles = (m.pykrige_anis,), (m.pykrige_angle,)
    elif not c.geo:
        c.scaling = (m.pykrige_anis_y, m.pykrige_anis_z)
        c.angles = (m.pykrige_angle_x, m.pykrige_angle_y, m.pykrige_angle_z)
    cc = c.cond()
    if not cc < 1e9:
        raise Skip('cond')
    Q = c.points()
    z0, s0 = c.ref(Q)
    t = c.tol(cc)
    for k in ('vectorized', 'loop'):
        r, q = c.run(a, Q, k), c.run(b, Q, k)
        same(r[0], q[0], 'GSTools model vs explicit custom variogram: estimate (%s)' % k, **t)
        same(r[1], q[1], 'GSTools model vs explicit custom variogram: variance (%s)' % k, **t)
        same(r[0], z0, 'GSTools model: estimate (%s)' % k, rtol=1e-6, atol=t['atol'] * 10)
        same(r[1], s0, 'GSTools model: variance (%s)' % k, rtol=1e-6, atol=t['atol'] * 10)
    if not c.geo:
        same(a.X_ADJUSTED, b.X_ADJUSTED, 'GSTools anisotropy')


@case('P25', 25)
def gstools_refused(rng, log):
    try:
        import gstools as gs
    except ImportError:
        raise Skip('no gstools')
    cls = str(rng.choice(['OK', 'UK', 'OK3', 'UK3']))
    c = Case(rng, cls=cls, unit=True, geo=False, n=7)
    c.drift = []
    log(c)
    co = [c.P[:, i] for i in range(c.dim)]
    ob = c.build()
    M = lambda **k: gs.Exponential(var=1, len_scale=2, **k)
    bad = [M(dim=3)] if c.dim == 2 else [M(dim=2), M(dim=1)]
    if c.dim == 2:
        bad.append(gs.Exponential(latlon=True, var=1, len_scale=.4))
    else:
        bad.append(gs.Exponential(latlon=True, var=1, len_scale=.4)) if False else None

    class Fake:
        pykrige_kwargs = {}
        field_dim = c.dim
        latlon = False
        pykrige_vario = staticmethod(lambda p, d: d)
        pykrige_anis = pykrige_anis_y = pykrige_anis_z = 1.0
        pykrige_angle = pykrige_angle_x = pykrige_angle_y = pykrige_angle_z = 0.0
    bad.append(Fake())
    for m in [q for q in bad if q is not None]:
        raises(lambda: c.cls_obj()(*co, c.val, variogram_model=m), 'GSTools model %r for %s' % (m, cls))
        raises(lambda: c.build().update_variogram_model(m), 'update with GSTools model %r for %s' % (m, cls))
