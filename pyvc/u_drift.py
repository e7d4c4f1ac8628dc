"""Contracts: the external drift raster (P14)."""
from fractions import Fraction
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *
from . import npmodel as N

UK = 'pykrige.uk.UniversalKriging'


def raster(c):
    nx, ny = c.int('nx'), c.int('ny')
    ax, ay, Z = c.array('ax', (nx,)), c.array('ay', (ny,)), c.array('Zext', (ny, nx))
    for a, n in ((ax, nx), (ay, ny)):
        up = lambda i, j, a=a, n=n: z3.Implies(z3.And(0 <= i, i < j, j < n), toz(a.get((i,)), R) < toz(a.get((j,)), R))
        c.eng.pv.pair_facts.append(lambda i, j, up=up: z3.And(up(i, j), up(j, i)))
    o = Obj(c.eng.heap, c.func(UK), dict(external_Z_array=Z, external_Z_array_x=ax, external_Z_array_y=ay))
    o.frozen = True
    return nx, ny, ax, ay, Z, o


def axis_case(ax, n, x, i, i2, mode):
    """x at node i, or strictly between the nodes i and i2 = i + 1"""
    a = lambda k: toz(ax.get((k,)), R)
    x = toz(x, R)
    if mode == 'node':
        return [0 <= i, i < n, x == a(i)]
    return [0 <= i, i2 < n, i2 == i + 1, a(i) < x, x < a(i2)]


def weights(ax, x, i, i2, mode):
    """linear interpolation: ([(node, weight)], the sum of the weights)"""
    if mode == 'node':
        return [(i, Fraction(1))], Fraction(1)
    a = lambda k: ax.get((k,))
    return [(i, sub(a(i2), x)), (i2, sub(x, a(i)))], sub(a(i2), a(i))


def extremes_in(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in ('MAXH', 'MINH'):
            out.append(x)
        else:
            todo += x.children()
    return out


def decide(eng, t):
    """t with its leading case distinctions settled by the path condition"""
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        if eng.pv.z3_prove(t.arg(0), eng.pc)[0]:
            t = t.arg(1)
        elif eng.pv.z3_prove(z3.Not(t.arg(0)), eng.pc)[0]:
            t = t.arg(2)
        else:
            break
    return t


def bilinear(Z, wx, wy):
    r = Fraction(0)
    for j, u in wy[0]:
        for i, v in wx[0]:
            r = add(r, mul(mul(u, v), Z.get((j, i))))
    return div(r, mul(wx[1], wy[1]))


def check(c, lab, value, x, y, extra, nx, ny, ax, ay, Z):
    """value is the bilinear interpolation of the raster at (x, y), wherever the point lies"""
    eng = c.eng
    i, j, i2, j2 = [eng.pv.sk(k) for k in ('i', 'j', 'i2', 'j2')]
    for mx in ('node', 'between'):
        for my in ('node', 'between'):
            nm = '%s: bilinear interpolation, x %s, y %s' % (lab, mx, my)
            hyp = list(extra) + axis_case(ax, nx, x, i, i2, mx) + axis_case(ay, ny, y, j, j2, my)
            # the index searched for is one of the bracketing nodes
            sub_ = []
            n0 = len(eng.pc)
            eng.pc += [simp(toz(k)) for k in hyp if k is not True]
            for u in extremes_in(toz(value)):
                for k in (i, i2, j, j2):
                    if (k is i2 and mx == 'node') or (k is j2 and my == 'node'):
                        continue
                    if eng.pv.z3_prove(u == z3.ToReal(k), eng.pc)[0]:
                        sub_.append((u, z3.ToReal(k)))
                        break
            v0 = z3.substitute(toz(value), *sub_) if sub_ else toz(value)
            v0 = decide(eng, v0)
            del eng.pc[n0:]
            v = unz(simp(v0))
            c.same_elem(nm, v, bilinear(Z, weights(ax, x, i, i2, mx), weights(ay, y, j, j2, my)), hyp)


def ends(c, nx, ny, ax, ay):
    """the ends of the (ascending) axes: indices where the least and the greatest node lie"""
    ix = [c.int(k) for k in ('firstx', 'lastx', 'firsty', 'lasty')]
    pre = []
    for a, n, lo, hi in ((ax, nx, ix[0], ix[1]), (ay, ny, ix[2], ix[3])):
        v = lambda k, a=a: toz(a.get((k,)), R)
        pre += [0 <= lo, lo < n, 0 <= hi, hi < n]
        c.eng.pv.idx_facts.append(lambda k, v=v, n=n, lo=lo, hi=hi: z3.Implies(z3.And(0 <= k, k < n), z3.And(v(lo) <= v(k), v(k) <= v(hi))))
    # the greatest and the least node, as the code computes them
    c.eng.pc = [simp(k) for k in pre + [nx >= 1, ny >= 1]]
    for a, n, lo, hi in ((ax, nx, ix[0], ix[1]), (ay, ny, ix[2], ix[3])):
        for h, k in ((T.MAXH, hi), (T.MINH, lo)):
            q = T.mk_ext(h, n, lambda k: toz(a.get((k,)), R)) == toz(a.get((k,)), R)
            if c.prove('the extreme node of an ascending axis', q):
                pre.append(q)
    e = [toz(ax.get((ix[0],)), R), toz(ax.get((ix[1],)), R), toz(ay.get((ix[2],)), R), toz(ay.get((ix[3],)), R)]
    return pre, lambda x, y: z3.Or(x < e[0], x > e[1], y < e[2], y > e[3])


@unit('uk._calculate_data_point_zscalars[scalar]', 'P14')
def scalar(c):
    nx, ny, ax, ay, Z, o = raster(c)
    x, y = c.real('x'), c.real('y')
    pre, outside = ends(c, nx, ny, ax, ay)

    def post(v):
        check(c, 'scalar', c.eng.force(v), x, y, [], nx, ny, ax, ay, Z)
        c.prove('a value is returned inside the raster only', z3.Not(outside(x, y)))
    c.run('scalar', lambda: c.eng.call(c.func(UK + '._calculate_data_point_zscalars'), [o, x, y, 'scalar'], {}), [nx >= 1, ny >= 1] + pre, post,
          lambda e: b_and(e.kind == 'ValueError', outside(x, y)))


def array_unit(dims):
    def f(c):
        nx, ny, ax, ay, Z, o = raster(c)
        pre, outside = ends(c, nx, ny, ax, ay)
        shp = tuple(c.int('p%d' % k) for k in range(dims))
        X, Y = c.array('X', shp), c.array('Y', shp)
        at = lambda A, ix: toz(A.get(ix), R)
        ix = tuple(c.eng.pv.sk('q') for _ in shp)
        inb = [z3.And(0 <= k, k < n) for k, n in zip(ix, shp)]

        def post(v):
            v = c.eng.force(v)
            c.prove('shape', b_and(*[cmp('==', a, b) for a, b in zip(v.shape, shp)]))
            check(c, 'point', v.get(ix), at(X, ix), at(Y, ix), inb, nx, ny, ax, ay, Z)
            c.prove('every point lies inside the raster', z3.Not(outside(at(X, ix), at(Y, ix))), inb)

        def exc(e):
            return b_and(e.kind == 'ValueError', N.mk_any_nd(shp, lambda q: outside(at(X, q), at(Y, q))))
        c.run('array', lambda: c.eng.call(c.func(UK + '._calculate_data_point_zscalars'), [o, X, Y], {}), [nx >= 1, ny >= 1] + pre + [n >= 1 for n in shp], post, exc)
    return f


unit('uk._calculate_data_point_zscalars[1D]', 'P14')(array_unit(1))


@unit('uk._calculate_data_point_zscalars[lemmas]', 'P14')
def lemmas(c):
    nx, ny, ax, ay, Z, o = raster(c)
    pre, outside = ends(c, nx, ny, ax, ay)
    x, y = c.real('x'), c.real('y')
    c.eng.pc = [simp(k) for k in pre + [nx >= 1, ny >= 1]]
    # every point inside the raster is at a node or between two: i is the last node not after the point
    for a, n, v, lab in ((ax, nx, x, 'x'), (ay, ny, y, 'y')):
        i = c.eng.pv.sk('i')
        at = lambda k: toz(a.get((k,)), R)
        fact = lambda k: z3.Implies(z3.And(0 <= k, k < n, at(k) <= v), k <= i)
        here = [z3.Not(outside(x, y)), 0 <= i, i < n, at(i) <= v, fact(i + 1)]
        c.eng.pv.idx_facts.append(fact)
        c.prove('%s: a node or between two nodes' % lab, z3.Or(at(i) == v, z3.And(i + 1 < n, at(i) < v, v < at(i + 1))), here)
        c.eng.pv.idx_facts.pop()
    # the interpolation of a bilinear raster is that bilinear function
    k0, k1, k2, k3 = [c.real('b%d' % k) for k in range(4)]
    f = lambda u, w: k0 + k1 * u + k2 * w + k3 * u * w
    i, j, i2, j2 = [c.eng.pv.sk(k) for k in ('i', 'j', 'i2', 'j2')]
    g = lambda a, k: toz(a.get((k,)), R)
    bz = type('B', (), dict(get=staticmethod(lambda ix: f(g(ax, ix[1]), g(ay, ix[0])))))
    for mx in ('node', 'between'):
        for my in ('node', 'between'):
            hyp = axis_case(ax, nx, x, i, i2, mx) + axis_case(ay, ny, y, j, j2, my)
            u = g(ax, i) if mx == 'node' else x
            w = g(ay, j) if my == 'node' else y
            c.prove('exact for a bilinear raster, x %s, y %s' % (mx, my), cmp('==', bilinear(bz, weights(ax, x, i, i2, mx), weights(ay, y, j, j2, my)), f(u, w)), hyp)
