"""Conformance of the library model and of the loop summaries with Python and numpy.

Every snippet of selftest/snippets.py is executed twice: by the symbolic engine, once, for arrays of any size and content, and by
Python with numpy for random small arrays.  The symbolic outcome whose path condition holds for the random input is evaluated at
that input and compared: value, shape, element kind, NaN, mask, or the kind of exception.  This tests what the proofs trust (npmodel,
loops, interp, terms); it is no part of a check.

    python3-vt pyvc/conform.py [NAME ..]
"""
import ast
import inspect
import math
import os
import random
import sys
import textwrap
import warnings
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['PYVC_SRC'] = os.path.join(HERE, 'selftest')
from pyvc import terms as T
from pyvc.terms import *
from pyvc.values import *
from pyvc.unit import Ctx
from pyvc.prover import app_lam
from pyvc.interp import External

MATH = dict(SQRT=lambda x: math.sqrt(x) if x >= 0 else float('nan'), EXP=math.exp, LOG=lambda x: math.log(x) if x > 0 else float('nan'), SIN=math.sin, COS=math.cos,
            ACOS=lambda x: math.acos(x) if -1 <= x <= 1 else float('nan'), ATAN2=math.atan2, RINV=lambda x: Fraction(1) / x if isinstance(x, (int, Fraction)) and x else (1 / x if x else float('nan')),
            FDIV=lambda a, b: a // b, FMOD=lambda a, b: a % b, FLAT=lambda r, c, m: r * m + c, IMUL=lambda a, b: a * b, NLMUL=lambda a, b: a * b, NLMULI=lambda a, b: a * b,
            RMOD=lambda a, b: a % b)


def power(a, b):
    try:
        if isinstance(b, Fraction) and b.denominator == 1 and isinstance(a, (int, Fraction)) and (a or b >= 0):
            return Fraction(a) ** int(b)
        return math.pow(a, b)
    except (ValueError, ZeroDivisionError, OverflowError):
        return float('nan')


class Undefined(Exception):
    pass


class Eval:
    def __init__(self, env):
        self.env = env
        self.memo = {}
        self.keep = []

    def __call__(self, t):
        if not is_z(t):
            return t
        k = t.get_id()
        if k not in self.memo:
            self.keep.append(t)
            self.memo[k] = self.ev(t)
        return self.memo[k]

    def ev(self, t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        kd = t.decl().kind()
        ch = t.children()
        K = z3
        if kd == K.Z3_OP_ITE:
            return self(ch[1]) if self(ch[0]) else self(ch[2])
        if kd == K.Z3_OP_AND:
            return all(self(c) for c in ch)
        if kd == K.Z3_OP_OR:
            return any(self(c) for c in ch)
        if kd == K.Z3_OP_IMPLIES:
            return not self(ch[0]) or self(ch[1])
        if kd == K.Z3_OP_UNINTERPRETED:
            return self.app(t, ch)
        v = [self(c) for c in ch]
        if kd == K.Z3_OP_NOT:
            return not v[0]
        if kd == K.Z3_OP_EQ:
            return v[0] == v[1]
        if kd == K.Z3_OP_DISTINCT:
            return len(set(v)) == len(v)
        if kd == K.Z3_OP_LE:
            return v[0] <= v[1]
        if kd == K.Z3_OP_LT:
            return v[0] < v[1]
        if kd == K.Z3_OP_GE:
            return v[0] >= v[1]
        if kd == K.Z3_OP_GT:
            return v[0] > v[1]
        if kd == K.Z3_OP_ADD:
            return sum(v[1:], v[0])
        if kd == K.Z3_OP_SUB:
            r = v[0]
            for x in v[1:]:
                r = r - x
            return r
        if kd == K.Z3_OP_UMINUS:
            return -v[0]
        if kd == K.Z3_OP_MUL:
            r = v[0]
            for x in v[1:]:
                r = r * x
            return r
        if kd == K.Z3_OP_DIV:
            return (Fraction(v[0]) / v[1] if isinstance(v[0], (int, Fraction)) and isinstance(v[1], (int, Fraction)) else v[0] / v[1]) if v[1] else float('nan')
        if kd == K.Z3_OP_IDIV:
            return v[0] // v[1] if v[1] > 0 else -(v[0] // -v[1])
        if kd == K.Z3_OP_MOD:
            return v[0] % abs(v[1])
        if kd == K.Z3_OP_TO_REAL:
            return Fraction(v[0]) if isinstance(v[0], int) else v[0]
        if kd == K.Z3_OP_TO_INT:
            return math.floor(v[0])
        if kd == K.Z3_OP_POWER:
            return power(v[0], v[1])
        if kd == K.Z3_OP_SELECT:
            return self(app_lam(ch[0], *[self.lit(x) for x in v[1:]]))
        raise Undefined('operator %s' % t.decl())

    def lit(self, x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if isinstance(x, int):
            return z3.IntVal(x)
        return z3.RealVal(Fraction(x))

    def at(self, L, *ks):
        return self(app_lam(L, *[z3.IntVal(k) for k in ks]))

    def app(self, t, ch):
        nm = t.decl().name()
        if nm == 'pi!' or t.eq(T.PI):
            return math.pi
        if nm in MATH:
            return MATH[nm](*[self(c) for c in ch])
        if nm == 'POW':
            return power(*[self(c) for c in ch])
        if nm == 'SUM':
            return sum([self.at(ch[1], k) for k in range(self(ch[0]))], Fraction(0))
        if nm == 'CNT':
            return sum(1 for k in range(self(ch[0])) if self.at(ch[1], k))
        if nm == 'CNT2':
            return sum(1 for i in range(self(ch[0])) for j in range(self(ch[1])) if self.at(ch[2], i, j))
        if nm == 'ANY':
            return any(self.at(ch[1], k) for k in range(self(ch[0])))
        if nm in ('MAXH', 'MINH'):
            v = [self.at(ch[1], k) for k in range(self(ch[0])) if self.at(ch[2], k)]
            if not v:
                raise Undefined('extreme of nothing')
            return max(v) if nm == 'MAXH' else min(v)
        if nm == 'RNDF':
            return Fraction(round(Fraction(self(ch[1])), self(ch[0])))
        if nm in ('ARGMAX', 'ARGMIN'):
            v = [self.at(ch[1], k) for k in range(self(ch[0]))]
            return v.index(max(v) if nm == 'ARGMAX' else min(v))
        if nm == 'INV':
            n = self(ch[0])
            A = np.array([[float(self.at(ch[1], i, j)) for j in range(n)] for i in range(n)])
            return float(np.linalg.inv(A)[self(ch[2]), self(ch[3])])
        if nm in self.env:
            v = self.env[nm]
            for c in ch:
                i = self(c)
                if not 0 <= i < len(v):
                    raise Undefined('%s read outside of its bounds: %r' % (nm, i))
                v = v[i]
            return v
        raise Undefined('symbol %s' % nm)


def concrete(v, ev, eng):
    """symbolic value at the input -> comparable Python value"""
    while isinstance(v, Choice):
        v = v.a if ev(v.cond) else v.b
    if isinstance(v, SqArr):
        v = eng.np.desq(v)
    if isinstance(v, NV):
        return float('nan') if ev(v.flag) else ev(v.val) if is_z(v.val) else v.val
    if isinstance(v, Arr):
        sh = tuple(int(ev(s)) for s in v.shape)
        return ('array', v.kind, sh, [concrete(v.get(tuple(q)), ev, eng) for q in np.ndindex(*sh)])
    if isinstance(v, MArr):
        d, m = concrete(v.data, ev, eng), concrete(v.mask, ev, eng)
        return ('masked', d[1], d[2], [None if b else x for x, b in zip(d[3], m[3])])
    if isinstance(v, FArr):
        sh = tuple(int(ev(s)) for s in v.dom)
        z = [concrete(v.val(tuple(z3.IntVal(i) for i in q)), ev, eng) for q in np.ndindex(*sh) if ev(toz(v.cond(tuple(z3.IntVal(i) for i in q))))]
        return ('array', v.kind, (len(z),), z)
    if isinstance(v, tuple):
        return ('tuple', [concrete(x, ev, eng) for x in v])
    if isinstance(v, PList):
        n = int(ev(v.n)) if is_z(v.n) else v.n
        return ('list', [concrete(v.elem(z3.IntVal(k)), ev, eng) for k in range(n)] + [concrete(x, ev, eng) for x in v.items])
    if isinstance(v, PDict):
        return ('dict', {k: concrete(x, ev, eng) for k, x in v.d.items()})
    if isinstance(v, Obj):
        return ('object', {k: concrete(x, ev, eng) for k, x in v.attrs.items()})
    if is_z(v):
        return ev(v)
    if isinstance(v, (External, Poison)):
        raise Undefined(type(v).__name__)
    return v


def real(v):
    if isinstance(v, np.ma.MaskedArray):
        m = np.ma.getmaskarray(v)
        return ('masked', kind(v), v.shape, [None if b else x for x, b in zip(v.data.ravel().tolist(), m.ravel().tolist())])
    if isinstance(v, np.ndarray):
        return ('array', kind(v), v.shape, v.ravel().tolist())
    if isinstance(v, tuple):
        return ('tuple', [real(x) for x in v])
    if isinstance(v, list):
        return ('list', [real(x) for x in v])
    if isinstance(v, dict):
        return ('dict', {k: real(x) for k, x in v.items()})
    if isinstance(v, np.generic):
        return v.item()
    if hasattr(v, '__dict__') and type(v).__module__ == 'snippets':
        return ('object', {k: real(x) for k, x in v.__dict__.items()})
    return v


def kind(v):
    return {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'i'}.get(v.dtype.kind, v.dtype.kind)


def same(a, b):
    num = (int, float, Fraction)
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b or isinstance(a, num) and isinstance(b, num) and False
    if isinstance(a, num) and isinstance(b, num):
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= 1e-9 * max(1, abs(fa), abs(fb))
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


VALS = {'f': [-2.0, -1.0, -0.5, 0.0, 0.0, 0.5, 1.0, 1.0, 1.5, 2.0, 3.0, 0.25], 'i': [-2, -1, 0, 0, 1, 1, 2, 3], 'b': [False, True]}


def spec_of(fn):
    """'a: (n, m)' annotations of the snippet: array shapes, or int / float / bool"""
    out = []
    for p in ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0].args.args:
        a = ast.unparse(p.annotation)
        k = 'f'
        if a.endswith("@ 'i'") or a.endswith("@ 'b'"):
            k, a = a[-2], a[:-6].strip()
        if a in ('int', 'float', 'bool', 'pos'):
            out.append((p.arg, a, None))
        else:
            sh = ast.literal_eval(ast.unparse(ast.parse(a, mode='eval')).replace('(', '("').replace(',)', '",)').replace(', ', '", "').replace(')', '")').replace('"",)', '",)').replace(',")', ',)'))
            out.append((p.arg, k, tuple(int(s) if s.isdigit() else s for s in sh)))
    return out


def run(name, fn, trials=60):
    c = Ctx(name)
    eng = c.eng
    sp = spec_of(fn)
    dims = sorted({s for _, _, sh in sp if sh for s in sh if isinstance(s, str)})
    pre, args = [], []
    D = {d: z3.Int(d) for d in dims}
    zero = 'zero' in (fn.__doc__ or '')
    pre += [D[d] >= (0 if zero else 1) for d in dims]
    for a, k, sh in sp:
        if sh is None:
            args.append({'int': z3.Int, 'pos': z3.Int, 'float': z3.Real, 'bool': z3.Bool}[k](a))
            if k == 'pos':
                pre.append(args[-1] >= 0)
        else:
            args.append(c.array(a, tuple(D.get(s, s) for s in sh), kind=k, frozen=False))
    f = c.func('snippets.' + name)
    eng.pc = [simp(toz(p)) for p in pre]
    try:
        outs, mark = eng.explore(lambda: eng.call(f, list(args), {}))
    except Unsupported as e:
        return 'unsupported: %s at %s' % (e, eng.pos), 0
    rng = random.Random(name)
    n = 0
    bad_obl = [o for o in eng.obls if not o.ok]
    for t in range(trials):
        size = {d: rng.randint(0 if zero else 1, 4) for d in dims}
        env, pyargs = dict(size), []
        for a, k, sh in sp:
            if sh is None:
                v = {'int': lambda: rng.randint(-5, 5), 'pos': lambda: rng.randint(0, 5), 'float': lambda: rng.choice(VALS['f']), 'bool': lambda: rng.random() < .5}[k]()
                env[a] = Fraction(v) if k == 'float' else v
                pyargs.append(v)
            else:
                s = tuple(size.get(x, x) for x in sh)
                x = np.array([rng.choice(VALS[k]) for _ in range(int(np.prod(s)))]).reshape(s).astype({'f': float, 'i': int, 'b': bool}[k])
                pyargs.append(x)
                conv = lambda y: [conv(z) for z in y] if isinstance(y, list) else (Fraction(y) if k == 'f' else y)
                env[a] = conv(x.tolist())
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                want = ('value', real(fn(*pyargs)))
        except Exception as e:
            want = ('raise', type(e).__name__)
        ev = Eval(env)
        hit = []
        for o in outs:
            try:
                if all(ev(toz(p)) for p in o.conds):
                    hit.append(o)
            except Undefined as e:
                return 'path condition undefined: %s' % e, n
        if not hit:
            return 'no outcome applies to %s' % env, n
        gots = []
        for o in hit:
            if o.kind == 'raise':
                gots.append(('raise', o.val.kind))
                continue
            eng.install(o.delta)
            try:
                gots.append(('value', concrete(o.val, ev, eng)))
            except Undefined as e:
                if 'HAVOC' in str(e) or 'Poison' in str(e):
                    return 'imprecise: ' + str(e)[:40], n
                gots.append(('undefined', str(e)))
            except Unsupported as e:
                return 'unsupported: reading the result: %s' % e, n
            finally:
                eng.heap.restore(mark)
        # several outcomes may apply (a decision taken where it does not matter): all have to agree
        got = next((g for g in gots if g[0] != want[0] or not same(g[1], want[1])), gots[0])
        if want[0] == 'value' and has_nan_or_inf(want[1]) and 'nan' not in (fn.__doc__ or ''):
            continue
        if not (got[0] == want[0] and same(got[1], want[1])):
            return 'MISMATCH at %s\n     python %s\n     engine %s' % ({k: (v if not isinstance(v, list) else str(np.array(v, dtype=float).tolist())) for k, v in env.items()}, want, got), n
        n += 1
    return None, n


def has_nan_or_inf(v):
    if isinstance(v, float):
        return math.isnan(v) or math.isinf(v)
    if isinstance(v, (tuple, list)):
        return any(has_nan_or_inf(x) for x in v)
    if isinstance(v, dict):
        return any(has_nan_or_inf(x) for x in v.values())
    return False


def main():
    sys.path.insert(0, os.path.join(HERE, 'selftest'))
    import snippets
    fns = [(k, v) for k, v in vars(snippets).items() if inspect.isfunction(v) and v.__module__ == 'snippets' and not k.startswith('_')]
    bad = uns = 0
    for k, v in fns:
        if sys.argv[1:] and not any(a in k for a in sys.argv[1:]):
            continue
        try:
            r, n = run(k, v)
        except Exception as e:
            if '-v' in sys.argv or True:
                import traceback
                r, n = 'crash: ' + traceback.format_exc()[-700:], 0
        if r is None:
            print('ok    %-28s %d inputs' % (k, n), flush=True)
        elif r.startswith(('unsupported', 'imprecise')):
            uns += 1
            print('reach %-28s %s' % (k, r[:200]), flush=True)
        else:
            bad += 1
            print('BAD   %-28s %s' % (k, r[:1500]), flush=True)
    print('%d functions, %d mismatches, %d out of reach' % (len(fns), bad, uns))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
