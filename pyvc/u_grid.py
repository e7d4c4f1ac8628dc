"""Contracts: grid files (P18, P19).

A client writes a grid and reads the file back; the text in between is modelled by textio."""
from fractions import Fraction
import z3
from .unit import unit
from .terms import *
from . import terms as T
from .values import *
from .values import _same
from . import textio
from .textio import RNDF, RNDE

KT = 'pykrige.kriging_tools.'
F2 = lambda v: RNDF(z3.IntVal(2), toz(v, R))


class Grid:
    """a regular ascending grid with values, masked or not"""

    def __init__(self, c, ny, nx, masked, nan=False, style=1):
        self.c, self.ny, self.nx = c, ny, nx
        self.x0, self.y0, self.dx = c.real('x0'), c.real('y0'), c.real('dx')
        self.dy = c.real('dy') if style == 1 else self.dx
        self.nd = c.real('no_data')
        np_ = c.eng.np
        lin = lambda o, d: lambda q: toz(o, R) + toz(q[0], R) * d
        self.x, self.y = np_.new((nx,), lin(self.x0, self.dx), 'f', 'x'), np_.new((ny,), lin(self.y0, self.dy), 'f', 'y')
        self.x.cell.frozen = self.y.cell.frozen = True
        self.zf = z3.Function('z', I, I, R)
        at = lambda q: self.zf(toz(q[0], I), toz(q[1], I))
        self.missing = (lambda q: False)
        val = at
        if nan:
            isn = z3.Function('isnan', I, I, B)
            val = lambda q: NV(isn(toz(q[0], I), toz(q[1], I)), at(q))
            self.missing = lambda q: isn(toz(q[0], I), toz(q[1], I))
        self.z = np_.new((ny, nx), val, 'f', 'z')
        self.z.cell.frozen = True
        if masked:
            m = c.array('mask', (ny, nx), 'b')
            self.z = MArr(self.z, m)
            self.missing = lambda q: m.get(q)
        self.pre = [self.dx >= Fraction(1, 100), self.dy >= Fraction(1, 100)]
        if is_z(nx):
            self.pre += [nx >= 2, ny >= 2]

    def value(self, q):
        """what is stored of cell q"""
        return ite(self.missing(q), self.nd, self.zf(toz(q[0], I), toz(q[1], I)))


def asc_unit(style, masked):
    def f(c):
        eng = c.eng
        ny, nx = c.int('ny'), c.int('nx')
        cap = (c.int('maxlines'), c.int('maxfields'))
        textio.install(eng, cap)
        g = Grid(c, ny, nx, masked, style=style)
        pre = g.pre + [ny + 50 < cap[0], nx + 50 < cap[1]]
        W, Rd = c.func(KT + 'write_asc_grid'), c.func(KT + 'read_asc_grid')

        def go():
            eng.call(W, [g.x, g.y, g.z], dict(filename=eng.filename, no_data=g.nd, style=style))
            return eng.call(Rd, [eng.filename], {})

        def post(v):
            if not isinstance(v, tuple) or len(v) != 5:
                eng.fail('five values are returned', '%r' % (v,))
                return
            z, x, y, cs, nd = [eng.force(u) for u in v]
            c.array_is('values in their place, to two decimals, no-data value where masked', z, (ny, nx), lambda q: F2(g.value(q)))
            sx = sy = 0
            if style == 2:
                h = div(g.dx, 2)
                x0, y0 = add(F2(sub(g.x0, h)), div(F2(g.dx), 2)), add(F2(sub(g.y0, h)), div(F2(g.dx), 2))
            else:
                x0, y0 = F2(g.x0), F2(g.y0)
            c.array_is('x coordinates', x, (nx,), lambda q: add(x0, mul(toz(q[0], R), F2(g.dx))))
            c.array_is('y coordinates', y, (ny,), lambda q: add(y0, mul(toz(q[0], R), F2(g.dy))))
            if style == 1:
                ok = isinstance(cs, tuple) and len(cs) == 2
                c.prove('cell sizes are a pair', ok)
                if ok:
                    c.same_elem('cell size in x', cs[0], F2(g.dx))
                    c.same_elem('cell size in y', cs[1], F2(g.dy))
            else:
                c.same_elem('cell size', cs, F2(g.dx))
            c.same_elem('no-data value', nd, F2(g.nd))
        c.run('write and read', go, pre, post)
    unit('kriging_tools.asc[style %d%s]' % (style, ', masked' if masked else ''), 'P18')(f)


for _s in (1, 2):
    for _m in (False, True):
        asc_unit(_s, _m)


# ------------------------------------------------------------ what is refused
def refusal(name, prop, setup):
    def f(c):
        eng = c.eng
        textio.install(eng, (c.int('maxlines'), c.int('maxfields')))
        W, args, kw, pre = setup(c)
        c.run('write', lambda: eng.call(W, args, dict(kw, filename=eng.filename)), pre,
              lambda v: c.prove('such a grid is refused', False), raises=lambda o: o.kind in ('ValueError', 'TypeError'), total=False)
    unit(name, prop)(f)


def irregular(writer, axis, at, prop):
    """one step of x (y) differs from the first one by more than numpy.allclose lets pass"""
    def setup(c):
        n, m = c.int('n'), c.int('m')
        a, b = c.array('axis', (n,)), c.array('other axis', (m,))
        k = c.int('k')
        el = lambda i: toz(a.get((i,)), R)
        d0, dk = el(1) - el(0), el(k + 1) - el(k)
        ab = lambda t: z3.If(t >= 0, t, -t)
        pre = [n >= 3, m >= 2, k >= 0, k + 1 < n, ab(dk - d0) > z3.Q(1, 10 ** 8) + z3.Q(1, 10 ** 5) * ab(d0)]
        x, y = (a, b) if axis == 'x' else (b, a)
        z = c.array('z', (m, n) if axis == 'x' else (n, m))
        kw = {} if at is None else dict(style=at)
        return c.func(KT + writer), [x, y, z], kw, pre
    refusal('kriging_tools.%s: irregular %s is refused%s' % (writer, axis, '' if at is None else ' [style %d]' % at), prop, setup)


for _ax in 'xy':
    for _s in (1, 2):
        irregular('write_asc_grid', _ax, _s, 'P18')
    irregular('write_zmap_grid', _ax, None, 'P19')


def non_square(c):
    g = Grid(c, c.int('ny'), c.int('nx'), False)
    return c.func(KT + 'write_asc_grid'), [g.x, g.y, g.z], dict(style=2), g.pre + [g.dx != g.dy]


def bad_style(c):
    g = Grid(c, c.int('ny'), c.int('nx'), False)
    s = c.int('style')
    return c.func(KT + 'write_asc_grid'), [g.x, g.y, g.z], dict(style=s), g.pre + [s != 1, s != 2]


def two_dim(which):
    def setup(c):
        g = Grid(c, c.int('ny'), c.int('nx'), False)
        p, q, s = c.int('p'), c.int('q'), c.int('style')
        bad = c.array('bad', (p, q))
        x, y = (bad, g.y) if which == 'x' else (g.x, bad)
        return c.func(KT + 'write_asc_grid'), [x, y, g.z], dict(style=s), g.pre + [p >= 2, q >= 2]
    return setup


refusal('kriging_tools.write_asc_grid: non-square cells are refused in style 2', 'P18', non_square)
refusal('kriging_tools.write_asc_grid: an unknown style is refused', 'P18', bad_style)
for _ax in 'xy':
    refusal('kriging_tools.write_asc_grid: a two-dimensional %s is refused' % _ax, 'P18', two_dim(_ax))


# ------------------------------------------------------------ "to two decimals"
@unit('grid precision', 'P18')
def precision(c):
    from .terms import R as _
    h = z3.Q(1, 200)
    ab = lambda t: z3.If(t >= 0, t, -t)
    v, x0, dx, cx = c.real('v'), c.real('x0'), c.real('dx'), c.real('c')
    i = c.int('i')
    c.eng.pv.extra_axioms.append(textio.axioms)
    c.lemma('a stored value is within half a unit of the second decimal', [], ab(F2(v) - v) <= h)
    c.lemma('style 1: coordinate i is within (i + 1) / 200', [i >= 0], ab(F2(x0) + z3.ToReal(i) * F2(dx) - (x0 + z3.ToReal(i) * dx)) <= (z3.ToReal(i) + 1) * h)
    c.lemma('style 2: coordinate i is within (i + 3/2) / 200', [i >= 0],
            ab(F2(x0 - dx / 2) + F2(dx) / 2 + z3.ToReal(i) * F2(dx) - (x0 + z3.ToReal(i) * dx)) <= (z3.ToReal(i) + z3.Q(3, 2)) * h)


# ------------------------------------------------------------ ZMAP, any numbers of rows and columns
def zmap_any(kind):
    def f(c):
        eng = c.eng
        textio.install(eng, (100, 100), flat=True)
        ny, nx = c.int('ny'), c.int('nx')
        g = Grid(c, ny, nx, kind == 'masked', nan=kind == 'nan')
        label = SymStr('coord_sys')
        W, Rd = c.func(KT + 'write_zmap_grid'), c.func(KT + 'read_zmap_grid')
        ab = lambda t: z3.If(t >= 0, t, -t)

        def go():
            eng.call(W, [g.x, g.y, g.z], dict(filename=eng.filename, no_data=g.nd, coord_sys=label))
            return eng.call(Rd, [eng.filename], {})

        def post(v):
            if not isinstance(v, tuple) or len(v) != 6:
                eng.fail('six values are returned', '%r' % (v,))
                return
            z, x, y, cs, nd, cr = [eng.force(u) for u in v]
            ok = isinstance(z, Arr) and len(z.shape) == 2
            c.prove('the values are a matrix', ok)
            if ok:
                c.prove('shape of the values', b_and(cmp('==', z.shape[0], ny), cmp('==', z.shape[1], nx)))
                i, j = eng.pv.sk('i'), eng.pv.sk('j')
                r, w = z.get((i, j)), toz(g.value((i, j)), R)
                if is_scalar(r) and eng.disk.named:
                    r = eng.disk.unfold(toz(r, R))
                c.prove('every value comes back in its place to the precision of the format', z3.Implies(z3.And(0 <= i, i < ny, 0 <= j, j < nx), z3.Or(
                    ab(toz(r, R) - w) <= z3.Q(1, 20000), ab(toz(r, R) - w) <= z3.Q(1, 2 * 10 ** 7) * ab(w))) if is_scalar(r) else False)
            c.array_is('x coordinates', x, (nx,), lambda q: toz(g.x.get(q), R))
            c.array_is('y coordinates', y, (ny,), lambda q: toz(g.y.get(q), R))
            ok = isinstance(cs, tuple) and len(cs) == 2
            c.prove('cell sizes are a pair', ok)
            if ok:
                c.same_elem('cell size in x', cs[0], g.dx)
                c.same_elem('cell size in y', cs[1], g.dy)
            c.same_elem('no-data value', nd, g.nd)
            c.prove('label of the coordinate system', cr is label)
        c.run('write and read', go, g.pre, post)
    unit('kriging_tools.zmap[%s]' % kind, 'P19')(f)


for _k in ('plain', 'masked', 'nan'):
    zmap_any(_k)


# ------------------------------------------------------------ ZMAP, given shapes, the file line by line
def zmap_unit(ny, nx, kind):
    def f(c):
        eng = c.eng
        textio.install(eng, (100, 100))
        g = Grid(c, ny, nx, kind == 'masked', nan=kind == 'nan')
        label = SymStr('coord_sys')
        W, Rd = c.func(KT + 'write_zmap_grid'), c.func(KT + 'read_zmap_grid')
        ab = lambda t: z3.If(t >= 0, t, -t)

        def go():
            eng.call(W, [g.x, g.y, g.z], dict(filename=eng.filename, no_data=g.nd, coord_sys=label))
            return eng.call(Rd, [eng.filename], {})

        def post(v):
            if not isinstance(v, tuple) or len(v) != 6:
                eng.fail('six values are returned', '%r' % (v,))
                return
            z, x, y, cs, nd, cr = [eng.force(u) for u in v]
            ok = isinstance(z, Arr) and tuple(z.shape) == (ny, nx)
            c.prove('shape of the values', ok)
            for i in range(ny if ok else 0):
                for j in range(nx):
                    r, w = z.get((i, j)), toz(g.value((i, j)), R)
                    c.prove('value %d,%d comes back to the precision of the format' % (i, j), z3.Or(ab(toz(r, R) - w) <= z3.Q(1, 20000), ab(toz(r, R) - w) <= z3.Q(1, 2 * 10 ** 7) * ab(w)) if is_scalar(r) else False)
            c.array_is('x coordinates', x, (nx,), lambda q: toz(g.x.get(q), R))
            c.array_is('y coordinates', y, (ny,), lambda q: toz(g.y.get(q), R))
            ok = isinstance(cs, tuple) and len(cs) == 2
            c.prove('cell sizes are a pair', ok)
            if ok:
                c.same_elem('cell size in x', cs[0], g.dx)
                c.same_elem('cell size in y', cs[1], g.dy)
            c.same_elem('no-data value', nd, g.nd)
            c.prove('label of the coordinate system', cr is label)
        c.run('write and read', go, g.pre, post)
    unit('kriging_tools.zmap[%d x %d, %s]' % (ny, nx, kind), 'P19')(f)


for _ny, _nx in ((2, 2), (3, 3), (6, 2), (11, 2)):
    for _k in ('plain', 'masked', 'nan'):
        zmap_unit(_ny, _nx, _k)
