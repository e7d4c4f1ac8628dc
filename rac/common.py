"""Executable form of the contracts: an independent reference for kriging, input
generators and assertion helpers.  Written from the property statements; shares
no code with the package under test."""
import contextlib
import io
import math
import warnings

import numpy as np

warnings.simplefilter('ignore')
np.seterr(all='ignore')


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Fail(msg)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def raises(fn, msg, *kinds):
    """fn must raise an error instead of returning a result"""
    try:
        with silent():
            r = fn()
    except Exception:
        return
    raise Fail('%s: no error raised, returned %s' % (msg, str(r)[:200]))


def plain(a):
    return np.asarray(np.ma.getdata(a), dtype=float)


def same(a, b, msg, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(a.shape == b.shape, '%s: shape %s instead of %s' % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    need(np.array_equal(np.isnan(a), np.isnan(b)), '%s: NaN pattern differs: %s vs %s' % (msg, a, b))
    d = np.abs(a - b)
    lim = atol + rtol * np.maximum(np.abs(a), np.abs(b))
    bad = ~(d <= lim) & ~np.isnan(a)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, d, -1)), a.shape)
        raise Fail('%s: at %s got %r expected %r' % (msg, tuple(int(q) for q in i), float(a[i]), float(b[i])))


# ------------------------------------------------------------------ reference model
def vario(model, p, d):
    """documented variogram formulas on internal parameters"""
    d = np.asarray(d, dtype=float)
    if callable(model):
        return model(p, d)
    if model == 'linear':
        return p[0] * d + p[1]
    if model == 'power':
        return p[0] * d ** p[1] + p[2]
    ps, r, ng = p
    if model == 'gaussian':
        return ps * (1 - np.exp(-d ** 2 / (4 * r / 7) ** 2)) + ng
    if model == 'exponential':
        return ps * (1 - np.exp(-3 * d / r)) + ng
    if model == 'spherical':
        return np.where(d <= r, ps * (1.5 * d / r - 0.5 * (d / r) ** 3) + ng, ps + ng)
    if model == 'hole-effect':
        return ps * (1 - (1 - 3 * d / r) * np.exp(-3 * d / r)) + ng
    raise KeyError(model)


def rot2(deg):
    t = math.radians(deg)
    return np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]])


def rotmat(angles):
    """rotation of the coordinates: about x, then y, then z"""
    c = [math.cos(math.radians(-a)) for a in angles]
    s = [math.sin(math.radians(-a)) for a in angles]
    rx = np.array([[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]])
    ry = np.array([[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]])
    rz = np.array([[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1]])
    return rz @ (ry @ rx)


def adjust(P, center, scaling, angles):
    P = np.asarray(P, dtype=float) - center
    R = rot2(angles[0]) if P.shape[1] == 2 else rotmat(angles)
    Q = P @ R.T
    for i, s in enumerate(scaling):
        Q[:, i + 1] *= s
    return Q + center


def sphere(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)], axis=-1)


def gcd(lon1, lat1, lon2, lat2):
    """angle between directions, via cross/dot products"""
    a, b = np.broadcast_arrays(sphere(lon1, lat1), sphere(lon2, lat2))
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, axis=-1)))


def bilinear(gx, gy, G, x, y):
    i = int(np.clip(np.searchsorted(gx, x, side='right') - 1, 0, len(gx) - 2))
    j = int(np.clip(np.searchsorted(gy, y, side='right') - 1, 0, len(gy) - 2))
    t = (x - gx[i]) / (gx[i + 1] - gx[i])
    u = (y - gy[j]) / (gy[j + 1] - gy[j])
    return (1 - t) * (1 - u) * G[j, i] + t * (1 - u) * G[j, i + 1] + (1 - t) * u * G[j + 1, i] + t * u * G[j + 1, i + 1]


MODELS = ['linear', 'power', 'gaussian', 'spherical', 'exponential', 'hole-effect']
C_MODELS = ['linear', 'power', 'gaussian', 'spherical', 'exponential']


def user_params(rng, model, p, kind=None):
    """internal parameters -> one of the documented user formats"""
    kind = kind or rng.choice(['list', 'sill', 'psill'])
    if model == 'linear':
        return list(p) if kind == 'list' else {'slope': p[0], 'nugget': p[1]}
    if model == 'power':
        return list(p) if kind == 'list' else {'scale': p[0], 'exponent': p[1], 'nugget': p[2]}
    if kind == 'list':
        return [p[0] + p[2], p[1], p[2]]
    if kind == 'sill':
        return {'sill': p[0] + p[2], 'range': p[1], 'nugget': p[2]}
    return {'psill': p[0], 'range': p[1], 'nugget': p[2]}


def dyadic(rng, lo, hi, q=64):
    """float with few bits, so that sill - nugget is exact"""
    return float(rng.integers(int(lo * q), int(hi * q) + 1)) / q


def gen_params(rng, model, scale, nugget=None):
    ng = nugget if nugget is not None else (0.0 if rng.random() < 0.3 else dyadic(rng, 0.05, 0.6))
    if model == 'linear':
        return [dyadic(rng, 0.2, 3.0) / max(1.0, round(scale)), ng]
    if model == 'power':
        return [dyadic(rng, 0.2, 2.0), dyadic(rng, 0.75, 1.7), ng]
    return [dyadic(rng, 0.5, 4.0), dyadic(rng, 0.4, 1.5) * scale, ng]


def spread(rng, n, dim, size):
    """distinct, well separated locations"""
    m = int(math.ceil((2.5 * n) ** (1.0 / dim))) + 1
    cells = np.array(np.meshgrid(*[np.arange(m)] * dim)).reshape(dim, -1).T
    pick = cells[rng.permutation(len(cells))[:n]]
    return (pick + rng.uniform(0.15, 0.85, pick.shape)) * (size / m)


class Case:
    """a kriging problem: data, options, and its reference solution"""

    def __init__(self, rng, cls=None, models=None, drift=None, geo=None, n=None, unit=None, nugget=None, custom=True, pinv=None,
                 exact=None, kinds=None, ints=False):
        self.rng = rng
        self.cls = cls or rng.choice(['OK', 'UK', 'OK3', 'UK3'])
        self.dim = 3 if self.cls.endswith('3') else 2
        self.geo = (self.cls == 'OK' and rng.random() < 0.3) if geo is None else geo
        if n is None:
            n = int(rng.choice([3, 4, 5, 6, 7, 8, 9, 11, 14, 25, 40], p=[.06, .1, .14, .14, .14, .12, .1, .08, .06, .04, .02]))
            if self.cls.startswith('UK'):
                n = max(n, 7)
        self.n = n
        size = float(rng.choice([1.0, 4.0, 10.0, 60.0]))
        self.size = size
        if self.geo:
            self.P = np.stack([rng.uniform(-180, 360, n), rng.uniform(-80, 80, n)], axis=1)
            for _ in range(200):
                D = gcd(self.P[:, None, 0], self.P[:, None, 1], self.P[:, 0], self.P[:, 1]) + 1e3 * np.eye(n)
                if D.min() > 1.5:
                    break
                i = int(np.argmin(D.min(axis=1)))
                self.P[i] = [rng.uniform(-180, 360), rng.uniform(-80, 80)]
            size = self.size = 60.0
        else:
            off = rng.choice([0.0, 0.0, 3.0, -40.0, 100.0], size=self.dim)
            self.P = spread(rng, n, self.dim, size) + off
            if ints:
                self.P = np.round(self.P * 8 / min(1.0, size))
                size = self.size = float(np.ptp(self.P, axis=0).max())
        self.val = rng.normal(size=n) * float(rng.choice([1.0, 5.0])) + float(rng.choice([0.0, 0.0, 20.0]))
        self.exact = bool(rng.random() < 0.75) if exact is None else exact
        self.model = rng.choice(models or MODELS + (['custom'] if custom else []))
        self.p = None
        self.func = None
        if self.model == 'custom':
            self.p = [dyadic(rng, 0.5, 2), dyadic(rng, 0.5, 1.5) * size, dyadic(rng, 0, 0.4)]
            self.func = lambda q, d: q[0] * (1 - np.exp(-3 * d / q[1])) + q[2]
        else:
            self.p = gen_params(rng, self.model, size, nugget)
        self.params = list(self.p) if self.model == 'custom' else user_params(rng, self.model, self.p)
        if unit is None:
            unit = rng.random() < 0.35
        ns = self.dim - 1
        na = 1 if self.dim == 2 else 3
        if self.geo:
            self.scaling, self.angles = (1.0,), (0.0,)
        elif unit:
            self.scaling, self.angles = (1.0,) * ns, (0.0,) * na
        else:
            self.scaling = tuple(float(rng.choice([1.0, 0.5, 2.0, 3.5, 0.2])) for _ in range(ns))
            self.angles = tuple(float(rng.choice([0.0, 30.0, -45.0, 90.0, 137.0, 213.0])) for _ in range(na))
        self.pinv = (rng.choice(['', '', '', 'pinv', 'pinvh']) if pinv is None else pinv)
        self.drift = []
        if self.cls.startswith('UK'):
            self.make_drift(drift, kinds)
        self.extra = {}

    # ------------------------------------------------------------ drift
    def make_drift(self, drift, kinds=None):
        rng = self.rng
        kinds_all = ['regional', 'spec', 'func'] + (['log', 'ext'] if self.dim == 2 else [])
        if drift is None:
            k = int(rng.integers(0, 4))
            names = list(rng.choice(kinds or kinds_all, size=min(k, len(kinds or kinds_all)), replace=False))
        else:
            names = list(drift)
        budget = self.n - 3
        lo, hi = self.P.min(axis=0), self.P.max(axis=0)
        ctr = (lo + hi) / 2
        L = max(float((hi - lo).max()), 1e-9)
        for nm in names:
            if nm == 'regional':
                if budget < self.dim + 1:
                    continue
                self.drift.append(('regional',))
                budget -= self.dim
            elif nm == 'log':
                k = int(rng.integers(1, 3))
                if budget < k + 1:
                    continue
                w = np.empty((k, 3))
                w[:, :2] = ctr + rng.uniform(-0.8, 0.8, (k, 2)) * L
                w[:, 2] = rng.choice([1.0, -2.0, 0.5, 3.0], size=k)
                self.drift.append(('log', w))
                budget -= k
            elif nm == 'ext':
                if budget < 2:
                    continue
                nx, ny = int(rng.integers(3, 7)), int(rng.integers(3, 7))
                gx = np.sort(np.concatenate([[lo[0] - 0.9 * L, hi[0] + 0.9 * L], rng.uniform(lo[0] - 0.6 * L, hi[0] + 0.6 * L, nx)]))
                gy = np.sort(np.concatenate([[lo[1] - 0.9 * L, hi[1] + 0.9 * L], rng.uniform(lo[1] - 0.6 * L, hi[1] + 0.6 * L, ny)]))
                G = rng.normal(size=(len(gy), len(gx))) * 2
                tr = len(gx) != len(gy) and rng.random() < 0.3
                self.drift.append(('ext', gx, gy, G, bool(tr)))
                budget -= 1
            elif nm == 'spec':
                k = int(rng.integers(1, 3))
                if budget < k + 1:
                    continue
                fs = [rng.normal(size=6) for _ in range(k)]
                self.drift.append(('spec', [self.specfn(c, ctr, L) for c in fs]))
                budget -= k
            elif nm == 'func':
                k = int(rng.integers(1, 3))
                if budget < k + 1:
                    continue
                self.drift.append(('func', [self.funcfn(rng.normal(size=6), ctr, L) for _ in range(k)]))
                budget -= k

    def specfn(self, c, ctr, L):
        def f(P):
            Q = (np.asarray(P) - ctr) / L
            return np.sin(c[0] + 3 * c[1] * Q[..., 0] + 3 * c[2] * Q[..., 1]) + (c[3] * Q[..., 2] if self.dim == 3 else 0) + c[4] * Q[..., 0] ** 2
        return f

    def funcfn(self, c, ctr, L):
        if self.dim == 2:
            return lambda x, y: c[0] * np.sin(2 * (x - ctr[0]) / L + c[1]) + c[2] * ((y - ctr[1]) / L) ** 2
        return lambda x, y, z: c[0] * np.sin(2 * (x - ctr[0]) / L + c[1]) + c[2] * ((y - ctr[1]) / L) ** 2 + c[3] * np.cos(2 * (z - ctr[2]) / L)

    @property
    def center(self):
        return (self.P.min(axis=0) + self.P.max(axis=0)) / 2

    def adj(self, Q):
        if self.geo:
            return np.asarray(Q, dtype=float)
        return adjust(Q, self.center, self.scaling, self.angles)

    def spec_at(self, Q):
        out = []
        for d in self.drift:
            if d[0] == 'spec':
                out += [f(np.asarray(Q, dtype=float)) for f in d[1]]
        return out

    def drift_at(self, Q):
        """drift columns at locations Q (original coordinates), in the documented order"""
        Q = np.asarray(Q, dtype=float)
        A = self.adj(Q)
        cols = []
        order = ['regional', 'log', 'ext', 'spec', 'func']
        for d in sorted(self.drift, key=lambda t: order.index(t[0])):
            if d[0] == 'regional':
                cols += [A[:, i] for i in range(self.dim)]
            elif d[0] == 'log':
                W = self.adj(d[1][:, :2])
                for w, s in zip(W, d[1][:, 2]):
                    r = np.sqrt((A[:, 0] - w[0]) ** 2 + (A[:, 1] - w[1]) ** 2)
                    lg = np.log(r)
                    lg = np.where(np.isinf(lg), -100.0, lg)
                    cols.append(-s * lg)
            elif d[0] == 'ext':
                cols.append(np.array([bilinear(d[1], d[2], d[3], q[0], q[1]) for q in Q]))
            elif d[0] == 'spec':
                cols += [f(Q) for f in d[1]]
            elif d[0] == 'func':
                cols += [f(*[A[:, i] for i in range(self.dim)]) for f in d[1]]
        return np.stack(cols, axis=1) if cols else np.zeros((len(Q), 0))

    # ------------------------------------------------------------ real objects
    def cls_obj(self):
        import pykrige
        return {'OK': pykrige.OrdinaryKriging, 'UK': pykrige.UniversalKriging, 'OK3': pykrige.OrdinaryKriging3D,
                'UK3': pykrige.UniversalKriging3D}[self.cls]

    def anis_kw(self):
        if self.dim == 2:
            return dict(anisotropy_scaling=self.scaling[0], anisotropy_angle=self.angles[0])
        return dict(anisotropy_scaling_y=self.scaling[0], anisotropy_scaling_z=self.scaling[1], anisotropy_angle_x=self.angles[0],
                    anisotropy_angle_y=self.angles[1], anisotropy_angle_z=self.angles[2])

    def vario_kw(self):
        kw = dict(variogram_model=self.model, variogram_parameters=self.params)
        if self.model == 'custom':
            kw['variogram_function'] = self.func
        return kw

    def kwargs(self):
        kw = dict(self.vario_kw())
        kw.update(self.anis_kw())
        kw['exact_values'] = self.exact
        if self.pinv:
            kw.update(pseudo_inv=True, pseudo_inv_type=str(self.pinv))
        if self.geo:
            kw['coordinates_type'] = 'geographic'
        if self.cls.startswith('UK'):
            terms = []
            for d in self.drift:
                if d[0] == 'regional':
                    terms.append('regional_linear')
                elif d[0] == 'log':
                    terms.append('point_log')
                    kw['point_drift'] = d[1]
                elif d[0] == 'ext':
                    terms.append('external_Z')
                    kw['external_drift_x'], kw['external_drift_y'] = d[1], d[2]
                    kw['external_drift'] = d[3].T if d[4] else d[3]
                elif d[0] == 'spec':
                    terms.append('specified')
                    kw['specified_drift'] = [f(self.P) for f in d[1]]
                elif d[0] == 'func':
                    terms.append('functional')
                    kw['functional_drift'] = list(d[1])
            kw['drift_terms'] = terms
        kw.update(self.extra)
        return kw

    def build(self, val=None, **over):
        kw = self.kwargs()
        kw.update(over)
        v = self.val if val is None else val
        with silent():
            return self.cls_obj()(*[self.P[:, i].copy() for i in range(self.dim)], np.array(v), **kw)

    @property
    def has_spec(self):
        return any(d[0] == 'spec' for d in self.drift)

    def run(self, obj, Q, backend=None, k=None):
        """evaluate at points -> (z, ss)"""
        Q = np.asarray(Q, dtype=float)
        kw = {}
        if backend:
            kw['backend'] = backend
        if k is not None:
            kw['n_closest_points'] = k
        if self.has_spec:
            kw['specified_drift_arrays'] = self.spec_at(Q)
        with silent():
            z, s = obj.execute('points', *[Q[:, i].copy() for i in range(self.dim)], **kw)
        return z, s

    def axes_points(self, axes):
        """grid axes (x, y[, z]) -> all points in row-major [z,] y, x order"""
        G = np.meshgrid(*axes[::-1], indexing='ij')
        return np.stack([g.ravel() for g in G[::-1]], axis=1), tuple(len(a) for a in axes[::-1])

    def run_grid(self, obj, axes, backend=None, k=None, mask=None, spec_T=False):
        Q, shape = self.axes_points(axes)
        kw = {}
        if backend:
            kw['backend'] = backend
        if k is not None:
            kw['n_closest_points'] = k
        if self.has_spec:
            sp = [np.asarray(s).reshape(shape) for s in self.spec_at(Q)]
            kw['specified_drift_arrays'] = [s.swapaxes(0, -1) if spec_T else s for s in sp]
        style = 'grid'
        if mask is not None:
            style = 'masked'
            kw['mask'] = mask
        with silent():
            return obj.execute(style, *[np.array(a) for a in axes], **kw)

    def backends(self, window=False):
        if self.cls == 'OK':
            if window:
                return ['loop'] + (['C'] if self.model in C_MODELS else [])
            return ['vectorized', 'loop'] + (['C'] if self.model in C_MODELS else [])
        if self.cls == 'OK3' and window:
            return ['loop']
        return ['vectorized', 'loop']

    # ------------------------------------------------------------ reference solution
    def gamma(self, d):
        return vario(self.func if self.model == 'custom' else self.model, self.p, d)

    def dist(self, A, Bp):
        if self.geo:
            return gcd(A[:, None, 0], A[:, None, 1], Bp[None, :, 0], Bp[None, :, 1])
        return np.sqrt(((A[:, None, :] - Bp[None, :, :]) ** 2).sum(axis=2))

    def system(self, sel=None):
        sel = np.arange(self.n) if sel is None else sel
        A = self.adj(self.P)[sel]
        F = self.drift_at(self.P)[sel]
        n, p = len(sel), F.shape[1]
        M = np.zeros((n + p + 1, n + p + 1))
        M[:n, :n] = -self.gamma(self.dist(A, A))
        M[np.arange(n), np.arange(n)] = 0
        M[:n, n:n + p] = F
        M[n:n + p, :n] = F.T
        M[:n, n + p] = 1
        M[n + p, :n] = 1
        return M

    def rhs(self, Q, sel=None):
        sel = np.arange(self.n) if sel is None else sel
        Q = np.asarray(Q, dtype=float)
        D = self.dist(self.adj(Q), self.adj(self.P)[sel])
        b = -self.gamma(D)
        if self.exact:
            b = np.where(D <= 1e-10 if not self.geo else D <= 1e-9, 0.0, b)
        return np.concatenate([b, self.drift_at(Q), np.ones((len(Q), 1))], axis=1)

    def cond(self, sel=None):
        M = self.system(sel)
        return float(np.linalg.cond(M)) if np.all(np.isfinite(M)) else np.inf

    def check_cond(self, lim=1e8):
        c = self.cond()
        if not c < lim:
            raise Skip('ill-conditioned')
        return c

    def ref(self, Q, val=None, k=None):
        Q = np.asarray(Q, dtype=float)
        val = self.val if val is None else np.asarray(val, dtype=float)
        if k is None:
            M, b = self.system(), self.rhs(Q)
            w = np.linalg.solve(M, b.T).T
            return w[:, :self.n] @ val, -(w * b).sum(axis=1)
        z, s = np.empty(len(Q)), np.empty(len(Q))
        for i in range(len(Q)):
            sel = self.nearest(Q[i:i + 1], k)
            M, b = self.system(sel), self.rhs(Q[i:i + 1], sel)[0]
            if np.linalg.cond(M) > 1e8:
                raise Skip('ill-conditioned window')
            w = np.linalg.solve(M, b)
            z[i], s[i] = w[:k] @ val[sel], -(w * b).sum()
        return z, s

    def nearest(self, q, k):
        D = self.dist(self.adj(q), self.adj(self.P))[0]
        o = np.argsort(D, kind='stable')
        if k < self.n and D[o[k]] - D[o[k - 1]] < 1e-7 * (1 + D[o[k]]):
            raise Skip('tie')
        return o[:k]

    def points(self, m=None, hits=True):
        """evaluation points; some coincide with data"""
        rng = self.rng
        m = m or int(rng.choice([1, 2, 3, 5, 9]))
        lo, hi = self.P.min(axis=0), self.P.max(axis=0)
        L = float((hi - lo).max()) or 1.0
        Q = rng.uniform(lo - 0.3 * L, hi + 0.3 * L, (m, self.dim))
        if self.geo:
            Q = np.stack([rng.uniform(-180, 360, m), rng.uniform(-85, 85, m)], axis=1)
        if hits:
            h = rng.random(m) < 0.3
            Q[h] = self.P[rng.integers(0, self.n, h.sum())]
        return Q

    def axes(self, hits=True, nmax=5):
        rng = self.rng
        lo, hi = self.P.min(axis=0), self.P.max(axis=0)
        L = float((hi - lo).max()) or 1.0
        out = []
        for i in range(self.dim):
            m = int(rng.integers(1, nmax + 1 - (self.dim == 3)))
            a = rng.uniform(lo[i] - 0.3 * L, hi[i] + 0.3 * L, m)
            if self.geo:
                a = rng.uniform(-180, 360, m) if i == 0 else rng.uniform(-85, 85, m)
            if rng.random() < 0.6:
                a = np.sort(a)
            out.append(a)
        if hits and rng.random() < 0.5:
            q = self.P[rng.integers(0, self.n)]
            for i in range(self.dim):
                out[i][rng.integers(0, len(out[i]))] = q[i]
        return out

    def tol(self, c=None):
        c = self.cond() if c is None else c
        s = 1 + float(np.abs(self.val).max())
        return dict(rtol=1e-7, atol=s * (1e-9 + 1e-14 * c))

    def describe(self):
        d = dict(cls=self.cls, n=self.n, dim=self.dim, geo=bool(self.geo), model=str(self.model), params=self.params, scaling=self.scaling,
                 angles=self.angles, exact=self.exact, pinv=str(self.pinv), drift=[t[0] for t in self.drift], P=self.P.tolist(),
                 val=self.val.tolist())
        return d
