"""Contracts of pykrige.core and pykrige.variogram_models."""
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *

C = 'pykrige.core.'
V = 'pykrige.variogram_models.'


def variogram_unit(model):
    fname = V + model.replace('-', '_') + '_variogram_model'

    def go(c):
        k = S.NPAR[model]
        ps = [c.real('p%d' % i) for i in range(k)]
        n, m = c.int('n'), c.int('m')
        f = c.func(fname)
        for label, shape in (('vector', (n,)), ('matrix', (n, m))):
            d = c.array('d', shape)
            dd = lambda q: d.get(q)
            kinds = [('list', c.list(ps)), ('array', None)]
            for pk, pv in kinds:
                if pk == 'array':
                    pv = c.eng.np.asarr(c.list(ps))
                    pv.cell.frozen = True
                pre = [n >= 1, m >= 1] + S.par_pre(model, ps)
                c.run('%s, parameters as %s' % (label, pk), lambda: c.eng.call(f, [pv, d], {}), pre,
                      lambda v: c.array_is('%s/%s equals the documented formula' % (label, pk), v, shape, lambda q: S.VARIO[model](ps, dd(q))))
    go.__name__ = 'v_' + model
    unit('variogram_models.' + model, 'P09')(go)


for _m in S.VARIO:
    variogram_unit(_m)


@unit('variogram shape lemmas', 'P09')
def shape_lemmas(c):
    d, e = c.real('d'), c.real('e')
    for model in S.VARIO:
        ps = [c.real('p%d' % i) for i in range(S.NPAR[model])]
        pre = S.par_pre(model, ps)
        f = lambda x: S.VARIO[model](ps, x)
        nug = ps[-1]
        c.lemma(model + ': value at zero is the nugget', pre, cmp('==', f(toz(0, R)), nug))
        for nm, hy, goal in S.shape_goals(model, ps, d, e):
            c.lemma(model + ': ' + nm, pre + hy, goal)


@unit('core._adjust_for_anisotropy', 'P11', 'P07')
def adjust(c):
    f = c.func(C + '_adjust_for_anisotropy')
    n = c.int('n')
    for nd in (2, 3):
        ctr = [c.real('c%d' % i) for i in range(nd)]
        sc = [c.real('s%d' % i) for i in range(nd - 1)]
        an = [c.real('a%d' % i) for i in range(1 if nd == 2 else 3)]

        def go():
            X = c.array('X', (n, nd), frozen=False)
            return c.eng.call(f, [X, c.list(ctr), c.list(sc), c.list(an)], {})
        XF = z3.Function('X', I, I, R)
        c.run('%dD' % nd, go, [n >= 1], lambda v: c.array_is('%dD: rotate by the angles about the centre, then stretch' % nd, v, (n, nd),
              lambda q: S.pick(q[1], S.adjust([XF(q[0], k) for k in range(nd)], ctr, sc, an))))


@unit('anisotropy lemmas', 'P11')
def adjust_lemmas(c):
    for nd in (2, 3):
        ctr = [c.real('c%d' % i) for i in range(nd)]
        an = [c.real('a%d' % i) for i in range(1 if nd == 2 else 3)]
        x = [c.real('x%d' % i) for i in range(nd)]
        y = [c.real('y%d' % i) for i in range(nd)]
        one = [Fraction(1)] * (nd - 1)
        sc = [c.real('s%d' % i) for i in range(nd - 1)]
        zero = [Fraction(0)] * len(an)
        A = lambda p, s, a: S.adjust(p, ctr, s, a)
        for k in range(nd):
            c.lemma('%dD: identity for unit scaling and zero angles, component %d' % (nd, k), [], cmp('==', A(x, one, zero)[k], x[k]))
            c.lemma('%dD: the centre is fixed, component %d' % (nd, k), [], cmp('==', A(ctr, sc, an)[k], ctr[k]))
        # A x - A y is the same map (about the origin) applied to x - y; every stage is linear and preserves lengths
        u = [c.real('u%d' % i) for i in range(nd)]
        v = [c.real('v%d' % i) for i in range(nd)]
        for axis in (2,) if nd == 2 else (0, 1, 2):
            a = c.real('a')
            ru = S.rot_axis(u, axis, a)
            n2 = lambda w: sum2([power(t, 2) for t in w])
            c.lemma('%dD: a turn about axis %d preserves lengths' % (nd, axis), [], cmp('==', S.trig_reduce(n2(ru), [S.rad(a)]), n2(u)))
            rv, rd = S.rot_axis(v, axis, a), S.rot_axis([sub(p, q) for p, q in zip(u, v)], axis, a)
            for k in range(nd):
                c.lemma('%dD: a turn about axis %d is linear, component %d' % (nd, axis, k), [], cmp('==', sub(ru[k], rv[k]), rd[k]))
        Ax, Ay = A(x, one, an), A(y, one, an)
        st = [sub(p, q) for p, q in zip(x, y)]
        for axis, a in zip((2,) if nd == 2 else (0, 1, 2), an):
            st = S.rot_axis(st, axis, a)
        for k in range(nd):
            c.lemma('%dD: unit scaling: difference of images is the turned difference, component %d' % (nd, k), [], cmp('==', sub(Ax[k], Ay[k]), st[k]))


def sum2(xs):
    r = Fraction(0)
    for x in xs:
        r = add(r, x)
    return r


@unit('core.great_circle_distance', 'P12')
def gcd_(c):
    f = c.func(C + 'great_circle_distance')
    n, m = c.int('n'), c.int('m')
    cases = {
        'vectors': ((n,),) * 4,
        'column against row': ((n, 1), (n, 1), (1, m), (1, m)),
    }
    for label, shp in cases.items():
        args = [c.array(nm, s) for nm, s in zip(('lon1', 'lat1', 'lon2', 'lat2'), shp)]
        out = (n,) if label == 'vectors' else (n, m)

        def sp(q):
            if label == 'vectors':
                return S.gcd(*[a.get(q) for a in args])
            return S.gcd(args[0].get((q[0], 0)), args[1].get((q[0], 0)), args[2].get((0, q[1])), args[3].get((0, q[1])))
        c.run(label, lambda: c.eng.call(f, args, {}), [n >= 1, m >= 1], lambda v: c.array_is(label + ': angle between the directions, in degrees', v, out, sp))


@unit('great-circle lemmas', 'P12')
def gcd_lemmas(c):
    l1, b1, l2, b2 = [c.real(x) for x in ('l1', 'b1', 'l2', 'b2')]
    g = S.gcd(l1, b1, l2, b2)
    angs = [S.rad(b1), S.rad(b2), S.rad(sub(l1, l2))]
    y2, x = S.gcd_parts(l1, b1, l2, b2)
    y3, x3 = S.gcd_parts(l2, b2, l1, b1)
    c.lemma('symmetric: same dot product', [], cmp('==', x, x3))
    c.lemma('symmetric: same length of the cross product', [], cmp('==', S.trig_reduce(y2, angs), S.trig_reduce(y3, angs)))
    c.lemma('cross and dot product lie on the unit circle (the angle is well defined)', [], cmp('==', S.trig_reduce(add(y2, power(x, 2)), angs), Fraction(1)))
    y0, x0 = S.gcd_parts(l1, b1, l1, b1)
    c.lemma('equal points: the cross product vanishes', [], cmp('==', S.trig_reduce(y0, angs), Fraction(0)))
    c.lemma('equal points: the dot product is one', [], cmp('==', S.trig_reduce(x0, angs), Fraction(1)))
    c.lemma('equal points: the distance is zero', [toz(cmp('==', t_atan2(Fraction(0), Fraction(1)), Fraction(0)))], cmp('==', mul(div(Fraction(180), PI), t_atan2(Fraction(0), Fraction(1))), Fraction(0)))
    c.lemma('at least 0 and at most 180', [], b_and(cmp('>=', g, 0), cmp('<=', g, 180)))
    # sine and cosine have period two pi
    for sgn in (1, -1):
        for a, arg in (('first', 0), ('second', 2)):
            p = [l1, b1, l2, b2]
            p[arg] = add(p[arg], Fraction(360 * sgn))
            h = S.gcd(*p)
            c.lemma('adding %d degrees to the %s longitude changes nothing' % (360 * sgn, a), [], cmp('==', h, g))


@unit('core.euclid3_to_great_circle', 'P12', 'P06')
def e3(c):
    f = c.func(C + 'euclid3_to_great_circle')
    n = c.int('n')
    D = z3.Function('D', I, R)

    def go():
        return c.eng.call(f, [c.array('D', (n,), frozen=False)], {})
    c.run('chord to angle', go, [n >= 1], lambda v: c.array_is('angle of the chord in degrees', v, (n,), lambda q: S.chord(D(q[0]))))
