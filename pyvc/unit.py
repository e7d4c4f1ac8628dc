"""Verification units: one function under contract each."""
import time
import z3
from .base import new_engine
from .interp import Obligation, Infeasible
from .terms import *
from . import terms as T
from .values import *

UNITS = {}       # name -> (function, properties)
THOROUGH = set() # units left to the thorough tier


def of_property(pid, quick):
    """units of a property; 'P01+' among the properties of a unit: in the thorough tier only"""
    return [n for n, (f, props) in UNITS.items() if pid in props and not (quick and n in THOROUGH) or pid + '+' in props and not quick]


def unit(name, *props, quick=True):
    def deco(f):
        UNITS[name] = (f, props)
        if not quick:
            THOROUGH.add(name)
        return f
    return deco


class Ctx:
    """symbolic inputs, pre- and postconditions of one function"""

    def __init__(self, name):
        self.name = name
        self.eng = new_engine()
        self.cases = 0
        self.assumed = []

    # ------------------------------------------------------------ inputs
    def int(self, name):
        return z3.Int(name)

    def real(self, name):
        return z3.Real(name)

    def boolean(self, name):
        return z3.Bool(name)

    def array(self, name, shape, kind='f', frozen=True):
        f = z3.Function(name, *([I] * len(shape) + [{'f': R, 'i': I, 'b': B}[kind]]))
        a = self.eng.np.new(shape, lambda idx: f(*[toz(i, I) for i in idx]) if idx else f(), kind, name)
        a.cell.frozen = frozen
        return a

    def list(self, items, frozen=True):
        p = PList(self.eng.heap, items)
        p.frozen = frozen
        return p

    def dict(self, d, frozen=True):
        p = PDict(self.eng.heap, d)
        p.frozen = frozen
        return p

    def func(self, qual):
        """pykrige.core._krige -> Func"""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:k])
            try:
                m = self.eng.module(mod)
            except (FileNotFoundError, NotADirectoryError):
                continue
            o = m
            for p in parts[k:]:
                if isinstance(o, Mod):
                    if p not in o.glob:
                        raise Unsupported("function %s is gone" % qual)
                    o = o.glob[p]
                else:
                    o = o.lookup(p)
                    if o is None:
                        raise Unsupported("function %s is gone" % qual)
            if isinstance(o, tuple):
                o = o[1]
            return o
        raise Unsupported("function %s is gone" % qual)

    # ------------------------------------------------------------ running
    def run(self, label, thunk, pre, post, raises=None, total=True):
        """all paths of thunk() under pre; post(value) on normal ones; raises(kind) -> Bool: allowed"""
        eng = self.eng
        eng.pc = [simp(toz(c)) for c in pre if c is not True]
        if not eng.pv.feasible(eng.pc):
            eng.fail('%s: precondition is satisfiable' % label, 'the precondition is contradictory')
            return
        outs, mark = eng.explore(thunk)
        n0 = len(eng.pc)
        seen = 0
        for o in outs:
            eng.pc[n0:] = o.conds
            eng.pos = (self.name, label)
            if not eng.pv.feasible(eng.pc):
                continue
            eng.install(o.delta)
            try:
                if o.kind in ('ok', 'ret'):
                    seen += 1
                    def go():
                        post(o.val)
                    # the postcondition itself may fork
                    subs, mk = eng.explore(go)
                    for s in subs:
                        if s.kind == 'raise':
                            eng.fail('%s: postcondition' % label, 'evaluating the postcondition raised ' + s.val.kind)
                elif o.kind == 'raise':
                    ok = raises(o.val) if raises is not None else False
                    if ok is not True:
                        if ok is False or ok is None:
                            eng.oblige('%s: no %s is raised' % (label, o.val.kind), False)
                        else:
                            eng.oblige('%s: %s only where documented' % (label, o.val.kind), ok)
                    else:
                        eng.oblige('%s: %s is documented' % (label, o.val.kind), True)
            finally:
                eng.heap.restore(mark)
        del eng.pc[n0:]
        eng.pc = []
        self.cases += 1
        if total and not seen:
            eng.fail('%s: some path returns' % label, 'no path returns normally')

    # ------------------------------------------------------------ goals
    def prove(self, name, goal, extra=()):
        eng = self.eng
        n0 = len(eng.pc)
        eng.pc += [simp(toz(c)) for c in extra if c is not True]
        r = eng.oblige(name, goal)
        del eng.pc[n0:]
        return r

    def same_elem(self, name, a, b, extra=()):
        """scalars a == b (NV aware)"""
        if isinstance(a, NV) or isinstance(b, NV):
            a = a if isinstance(a, NV) else NV(False, a)
            b = b if isinstance(b, NV) else NV(False, b)
            self.prove(name + ' (nan)', simp(toz(a.flag, B) == toz(b.flag, B)), extra)
            if simp(toz(a.flag, B)) is not None and z3.is_true(simp(toz(a.flag, B))):
                return
            self.prove(name, cmp('==', a.val, b.val), list(extra) + [b_not(a.flag)])
            return
        if isinstance(a, float) or isinstance(b, float):
            self.prove(name, (not is_z(a)) and (not is_z(b)) and a == b, extra)
            return
        if not is_scalar(a) or not is_scalar(b):
            self.eng.fail(name, 'not a number: %r vs %r' % (type(a).__name__, type(b).__name__))
            return
        if sortof(a) == B or sortof(b) == B:
            self.prove(name, simp(toz(truth(a)) == toz(truth(b))), extra)
            return
        self.prove(name, cmp('==', a, b), extra)

    def array_is(self, name, v, shape, spec, extra=(), kind=None):
        """v is an array of the shape with elements spec(idx)"""
        eng = self.eng
        v = eng.force(v)
        if isinstance(v, SqArr):
            v = eng.np.desq(v)
        if not isinstance(v, Arr):
            eng.fail(name, 'result is a %s, not an array' % type(v).__name__)
            return
        if len(v.shape) != len(shape):
            eng.fail(name + ': shape', 'rank %d instead of %d' % (len(v.shape), len(shape)))
            return
        for k, (a, b) in enumerate(zip(v.shape, shape)):
            self.prove(name + ': extent %d' % k, cmp('==', a, b), extra)
        q = tuple(eng.pv.sk('q') for _ in shape)
        rng = []
        for x, s in zip(q, shape):
            rng += [0 <= x, toz(cmp('<', x, s))]
        if kind is not None:
            if v.kind != kind:
                eng.fail(name + ': type', 'element kind %s instead of %s' % (v.kind, kind))
        self.same_elem(name + ': every element', v.get(q), spec(q), list(extra) + rng)

    def lemma(self, name, hyps, goal):
        eng = self.eng
        eng.pos = (self.name, 'lemma')
        n0 = eng.pc
        eng.pc = [simp(toz(h)) for h in hyps]
        if not eng.pv.feasible(eng.pc):
            eng.fail(name, 'contradictory hypotheses')
        else:
            t0 = time.time()
            eng.oblige(name, goal)
            if time.time() - t0 > 10:
                eng.notes.append('%s took %.0f s' % (name, time.time() - t0))
        eng.pc = n0


def run_unit(name):
    f, props = UNITS[name]
    t0 = time.time()
    c = Ctx(name)
    err = None
    try:
        f(c)
    except Unsupported as e:
        err = 'outside the verifier\'s subset: %s (at %s)' % (e, c.eng.pos)
    except Raise as e:
        err = 'unexpected exception %s while setting up (%s)' % (e.kind, e.msg)
    except Infeasible:
        err = 'no feasible path'
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:
        import traceback
        err = 'verifier could not process the code: %s\n%s' % (e, traceback.format_exc()[-1500:])
    obls = [dict(obligation='%s: %s' % (name, o.name), ok=bool(o.ok), detail=str(o.why), pos=str(o.pos), by=str(o.why) if o.ok else '', goal=o.goal or '')
            for o in c.eng.obls]
    if err is not None:
        obls.append(dict(obligation='%s: function within reach of the verifier' % name, ok=False, detail=err, pos=str(c.eng.pos), by='', goal=''))
    if not obls:
        obls.append(dict(obligation='%s: obligations are generated' % name, ok=False, detail='no obligation generated', pos='', by='', goal=''))
    return dict(unit=name, obligations=obls, functions=sorted(c.eng.inlined), used=sorted(c.eng.used_contracts), notes=c.eng.notes,
                solver_s=round(c.eng.pv.stats.time, 3), queries=c.eng.pv.stats.queries, wall=round(time.time() - t0, 2), assumed=c.assumed)
