"""Contracts: variogram parameter formats (P08), experimental semivariogram (P10), fit (P21)."""
import z3
from .unit import unit
from . import spec as S
from .terms import *
from . import terms as T
from .values import *

C = 'pykrige.core.'
KEYS = {'linear': ['slope', 'nugget'], 'power': ['scale', 'exponent', 'nugget']}
BOUNDED = ['gaussian', 'spherical', 'exponential', 'hole-effect']
NAMES = ['linear', 'power'] + BOUNDED + ['custom']


def list_is(c, name, v, items, notalias=None):
    if not isinstance(v, PList):
        c.eng.fail(name, 'result is a %s, not a list' % type(v).__name__)
        return
    c.prove(name + ': length', cmp('==', v.length(), len(items)))
    if notalias is not None and v is notalias:
        c.eng.fail(name, 'the list of the caller itself is returned')
    if len(v.items) != len(items):
        if not v.concrete:
            got = [c.eng.list_get(v, i) for i in range(len(items))]
        else:
            return
    else:
        got = v.items
    for i, (a, b) in enumerate(zip(got, items)):
        c.same_elem(name + ': entry %d' % i, c.eng.force(a), b)


@unit('core._make_variogram_parameter_list', 'P08', 'P22')
def params(c):
    f = c.func(C + '_make_variogram_parameter_list')
    allk = ['slope', 'scale', 'exponent', 'nugget', 'sill', 'psill', 'range']
    r = {k: c.real(k) for k in allk}
    has = {k: c.boolean('has_' + k) for k in allk}
    other = SymStr('model')
    unknown = [other.code != str_code(m) for m in NAMES]

    # absent
    for m in NAMES:
        c.run('%s, no parameters' % m, lambda: c.eng.call(f, [m, None], {}), [], lambda v, m=m: c.prove('%s: None stays None' % m, v is None))
    # dictionaries
    for m in NAMES + ['?']:
        mv = other if m == '?' else m

        def mk():
            d = c.dict(dict(r), frozen=True)
            d.opt = dict(has)
            return d
        d = mk()
        if m in KEYS:
            need = [has[k] for k in KEYS[m]]
            post = lambda v, m=m: (c.prove('%s dict accepted only when complete' % m, b_and(*[has[k] for k in KEYS[m]])),
                                   list_is(c, '%s dict: documented order' % m, v, [r[k] for k in KEYS[m]]))
            rz = lambda e, need=need: b_and(e.kind == 'KeyError', b_not(b_and(*need)))
            total = True
        elif m in BOUNDED:
            comp = b_and(has['range'], has['nugget'], b_or(has['sill'], has['psill']))

            def post(v, m=m, comp=comp):
                c.prove('%s dict accepted only when complete' % m, comp)
                list_is(c, '%s dict: partial sill, range, nugget' % m, v, [ite(has['sill'], sub(r['sill'], r['nugget']), r['psill']), r['range'], r['nugget']])
            rz = lambda e, comp=comp: b_and(e.kind == 'KeyError', b_not(comp))
            total = True
        else:
            post = lambda v, m=m: c.prove('%s: a dict is refused' % m, False)
            rz = lambda e, m=m: e.kind == ('TypeError' if m == 'custom' else 'ValueError')
            total = False
        c.run('%s, dict' % m, lambda: c.eng.call(f, [mv, d], {}), unknown if m == '?' else [], post, rz, total=total)
    # lists of any length
    n = c.int('n')
    E = z3.Function('entry', I, R)
    for m in NAMES + ['?']:
        mv = other if m == '?' else m
        L = PList(c.eng.heap, [], n, lambda i: E(toz(i, I)))
        L.frozen = True
        if m == 'custom':
            def post(v):
                if not isinstance(v, PList):
                    return c.eng.fail('custom list: passed unchanged', 'not a list')
                c.prove('custom list: a list of its own', v is not L)
                c.prove('custom list: same length', cmp('==', v.length(), n))
                q = c.eng.pv.sk('q')
                c.same_elem('custom list: every entry', c.eng.list_get(v, q), E(q), [0 <= q, q < n])
            c.run('custom, list', lambda: c.eng.call(f, [mv, L], {}), [n >= 0], post)
        elif m == '?':
            c.run('unknown model, list', lambda: c.eng.call(f, [mv, L], {}), [n >= 0] + unknown, lambda v: c.prove('unknown model is refused', False),
                  lambda e: e.kind == 'ValueError', total=False)
        else:
            k = 2 if m == 'linear' else 3
            if m in BOUNDED:
                want = [sub(E(0), E(2)), E(1), E(2)]
            else:
                want = [E(i) for i in range(k)]

            def post(v, m=m, k=k, want=want):
                c.prove('%s list accepted only with %d entries' % (m, k), cmp('==', n, k))
                list_is(c, '%s list: documented order' % m, v, want, L)
            c.run('%s, list' % m, lambda: c.eng.call(f, [mv, L], {}), [n >= 0], post, lambda e, k=k: b_and(e.kind == 'ValueError', n != k))
    # other containers
    for m in NAMES:
        for what, v in (('tuple', (r['slope'], r['range'], r['nugget'])), ('array', c.array('par', (n,))), ('number', r['sill']), ('string', 'abc')):
            c.run('%s, %s' % (m, what), lambda: c.eng.call(f, [m, v], {}), [n >= 0], lambda v, m=m, what=what: c.prove('%s: a %s is refused' % (m, what), False),
                  lambda e: e.kind == 'TypeError', total=False)


@unit('parameter format lemmas', 'P08')
def fmt_lemmas(c):
    ps, rg, ng = c.real('psill'), c.real('range'), c.real('nugget')
    sill = add(ps, ng)
    # contract instances: dict with sill, dict with psill, list [sill, range, nugget]
    a = [sub(sill, ng), rg, ng]
    b = [ps, rg, ng]
    l = [sub(sill, ng), rg, ng]
    for i in range(3):
        c.lemma('sill dict = psill dict, entry %d' % i, [], cmp('==', a[i], b[i]))
        c.lemma('sill dict = list, entry %d' % i, [], cmp('==', a[i], l[i]))
