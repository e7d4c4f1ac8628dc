"""Lemmas about the specification functions, proved by Lean: the definitions are printed from the specification on every run."""
import os
import re
import resource
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from .unit import unit
from .interp import Obligation
from .terms import *
from . import terms as T
from . import spec as S
from . import u_ok

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas')
K = z3


class Printer:
    """z3 terms -> Lean; integers are indices (natural numbers), differences occur only where they are not negative"""

    def __init__(self, names=None):
        self.names = names or {}

    def p(self, t, env=()):
        t = T.toz(t)
        if K.is_var(t):
            return env[-1 - K.get_var_index(t)]
        if K.is_rational_value(t) or K.is_int_value(t):
            v = t.as_fraction() if K.is_rational_value(t) else Fraction(t.as_long())
            s = str(v.numerator) if v.denominator == 1 else '%d / %d' % (v.numerator, v.denominator)
            return '(%s : ℝ)' % s if t.sort() == R else '(%s)' % s
        d, k = t.decl(), t.decl().kind()
        ch = t.children()
        if t.sort() == I and k in (K.Z3_OP_ADD, K.Z3_OP_SUB, K.Z3_OP_MUL, K.Z3_OP_UMINUS):
            return self.index(t, env)
        q = lambda: [self.p(c, env) for c in ch]
        if k == K.Z3_OP_ITE:
            return '(if %s then %s else %s)' % tuple(q())
        if k in (K.Z3_OP_ADD, K.Z3_OP_MUL, K.Z3_OP_AND, K.Z3_OP_OR):
            return '(%s)' % ({K.Z3_OP_ADD: ' + ', K.Z3_OP_MUL: ' * ', K.Z3_OP_AND: ' ∧ ', K.Z3_OP_OR: ' ∨ '}[k].join(q()))
        if k == K.Z3_OP_SUB:
            return '(%s)' % ' - '.join(q())
        if k == K.Z3_OP_UMINUS:
            return '(-%s)' % q()[0]
        if k == K.Z3_OP_NOT:
            return '(¬ %s)' % q()[0]
        if k in (K.Z3_OP_LE, K.Z3_OP_LT, K.Z3_OP_GE, K.Z3_OP_GT, K.Z3_OP_EQ):
            return '(%s %s %s)' % (q()[0], {K.Z3_OP_LE: '≤', K.Z3_OP_LT: '<', K.Z3_OP_GE: '≥', K.Z3_OP_GT: '>', K.Z3_OP_EQ: '='}[k], q()[1])
        if k == K.Z3_OP_TRUE:
            return 'True'
        if k == K.Z3_OP_FALSE:
            return 'False'
        if k == K.Z3_OP_UNINTERPRETED and d.name() == 'SUM':
            lam = ch[1]
            v = 'k%d' % len(env)
            return '(∑ %s ∈ Finset.range %s, %s)' % (v, self.p(ch[0], env), self.p(lam.body(), env + (v,)))
        if k == K.Z3_OP_UNINTERPRETED and d.name() == 'RINV':
            return '(%s)⁻¹' % q()[0]
        if k == K.Z3_OP_UNINTERPRETED:
            nm = self.names.get(d.name(), d.name())
            return '(%s)' % ' '.join([nm] + q()) if ch else nm
        raise Unsupported('specification term %s' % d.name())

    def index(self, t, env):
        pos, neg = [], []
        t = som(t)
        for m in (t.children() if K.is_add(t) else [t]):
            c, fs = 1, []
            for f in T._factors(m):
                if K.is_int_value(f):
                    c *= f.as_long()
                else:
                    fs.append(self.p(f, env))
            s = ' * '.join(([str(abs(c))] if abs(c) != 1 or not fs else []) + fs)
            (pos if c > 0 else neg).append(s)
        if not neg:
            return '(%s)' % ' + '.join(pos)
        return '(%s - %s)' % (' + '.join(pos) or '0', '(%s)' % ' + '.join(neg))


def definitions():
    n, p, i, j = z3.Ints('n p i j')
    D, fd, V = [z3.Function(x, I, I, R) for x in ('D', 'fd', 'V')]
    g = z3.Function('γ', R, R)
    fp, bd, Z = [z3.Function(x, I, R) for x in ('fp', 'bd', 'Z')]
    ex, eps = z3.Bool('ex'), z3.Real('eps')
    gam = lambda d: g(toz(d, R))
    pr = Printer()
    dr = (p, lambda k, q: fd(toz(k, I), toz(q, I)), lambda k: fp(toz(k, I)))
    N, A = u_ok.system(n, lambda a, b: D(toz(a, I), toz(b, I)), gam, drift=dr)
    N2, b = u_ok.rhs(n, lambda q: bd(toz(q, I)), gam, ex, eps, drift=dr[::2])
    z, s = u_ok.solution(n, N, lambda a, c: V(toz(a, I), toz(c, I)), b, lambda k: Z(toz(k, I)))
    N0, A0 = u_ok.system(n, lambda a, b: D(toz(a, I), toz(b, I)), gam)
    b0 = u_ok.rhs(n, lambda q: bd(toz(q, I)), gam, ex, eps)[1]
    bK = S.kriging_system(n, lambda a, b: D(toz(a, I), toz(b, I)), lambda q: bd(toz(q, I)), gam, zero=lambda q: cmp('<=', bd(toz(q, I)), eps))[2]
    out = ['import Mathlib', 'open Finset', 'open scoped Classical', 'set_option linter.all false', 'namespace Kriging', '']
    R2, R1 = 'ℕ → ℕ → ℝ', 'ℕ → ℝ'
    com = '(n p : ℕ) '
    bs = '(ex : Prop) (eps : ℝ) (bd : %s) (γ : ℝ → ℝ) (fp : %s) ' % (R1, R1)
    defs = [
        ('N', com, 'ℕ', N), ('Nb', com, 'ℕ', N2), ('N0', '(n : ℕ) ', 'ℕ', N0),
        ('A', com + '(D : %s) (γ : ℝ → ℝ) (fd : %s) (i j : ℕ) ' % (R2, R2), 'ℝ', A(i, j)),
        ('A0', '(n : ℕ) (D : %s) (γ : ℝ → ℝ) (i j : ℕ) ' % R2, 'ℝ', A0(i, j)),
        ('b', com + bs + '(i : ℕ) ', 'ℝ', b(i)),
        ('b0', '(n : ℕ) (ex : Prop) (eps : ℝ) (bd : %s) (γ : ℝ → ℝ) (i : ℕ) ' % R1, 'ℝ', b0(i)),
        ('bK', '(n : ℕ) (eps : ℝ) (bd : %s) (γ : ℝ → ℝ) (i : ℕ) ' % R1, 'ℝ', bK(i)),
        ('est', com + '(V : %s) ' % R2 + bs + '(Z : %s) ' % R1, 'ℝ', z),
        ('var', com + '(V : %s) ' % R2 + bs, 'ℝ', s)]
    for nm, args, typ, t in defs:
        out.append('noncomputable def %s %s: %s := %s' % (nm, args, typ, pr.p(t)))
    out += ['', 'end Kriging', '']
    return '\n'.join(out)


def lean(text, names):
    """run Lean; for each theorem: accepted, and on which axioms"""
    if shutil.which('lean') is None:
        raise Unsupported('lean is not installed')
    d = tempfile.mkdtemp(prefix='leanlem')
    try:
        f = os.path.join(d, 'L.lean')
        with open(f, 'w', encoding='utf-8') as h:
            h.write(text + '\n' + '\n'.join('#print axioms %s' % x for x in names) + '\n')

        def pre():
            h = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (h, h))
        r = subprocess.run(['lean', f], capture_output=True, encoding='utf-8', timeout=380, cwd=d, preexec_fn=pre)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d)


def run(c, text, space='Kriging'):
    names = [space + '.' + m for m in re.findall(r'^theorem (\w+)', text, re.M)]
    t0 = time.time()
    rc, out = lean(text, names)
    c.eng.pv.stats.time += time.time() - t0
    c.eng.pos = ('lemmas', 'lean')
    flat = re.sub(r'\s+', ' ', out)
    for nm in names:
        m = re.search(r"'%s' depends on axioms: \[([^\]]*)\]|'%s' does not depend on any axioms" % (re.escape(nm), re.escape(nm)), flat)
        ok = rc == 0 and m is not None and set((m.group(1) or '').replace(' ', '').split(',')) <= {'', 'propext', 'Classical.choice', 'Quot.sound'}
        if ok:
            c.eng.obls.append(Obligation('lemma %s' % nm, True, 'lean', c.eng.pos))
        else:
            c.eng.fail('lemma %s' % nm, out[:1500])


@unit('lemmas about the kriging systems (Lean)', 'P01', 'P02', 'P03', 'P04', 'P06')
def kriging_lemmas(c):
    run(c, definitions() + open(os.path.join(HERE, 'Kriging.lean'), encoding='utf-8').read())


def ilr_definitions():
    from . import u_wrap as W
    k, j = z3.Ints('k j')
    row = z3.Function('row', I, R)
    at = lambda q: row(toz(q, I))
    pr = Printer({'HELMERT': 'helmert', 'EXP': 'Real.exp', 'LOG': 'Real.log', 'SQRT': 'Real.sqrt'})
    out = ['import Mathlib', 'open Finset', 'open scoped Classical', 'set_option linter.all false', 'namespace Ilr', '',
           '/-- row i (of k - 1) and column j (of k) of the Helmert matrix, as documented by scipy.linalg.helmert -/',
           'noncomputable def helmert (k i j : ℕ) : ℝ := if j < i + 1 then 1 / Real.sqrt ((i + 1) * (i + 2)) '
           'else if j = i + 1 then -(i + 1) / Real.sqrt ((i + 1) * (i + 2)) else 0',
           'noncomputable def eps : ℝ := %s' % pr.p(T.toz(W.EPS))]
    for nm, t in (('ilr', W.ilr_spec(at, k, j)), ('inverse', W.inverse_spec(at, k, j))):
        out.append('noncomputable def %s (k : ℕ) (row : ℕ → ℝ) (j : ℕ) : ℝ := %s' % (nm, pr.p(t)))
    return '\n'.join(out + ['', 'end Ilr', ''])


@unit('lemmas about the log-ratio transforms (Lean)', 'P17')
def ilr_lemmas(c):
    run(c, ilr_definitions() + open(os.path.join(HERE, 'Ilr.lean'), encoding='utf-8').read(), 'Ilr')


if __name__ == '__main__':
    import sys
    ilr = 'ilr' in sys.argv
    print((ilr_definitions() if ilr else definitions()) + open(os.path.join(HERE, 'Ilr.lean' if ilr else 'Kriging.lean'), encoding='utf-8').read())
