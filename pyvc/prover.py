"""Obligation prover.

Equalities are first decided structurally (contextual elimination of
conditionals, polynomial normal form, congruence with extensional comparison of
binders); every leaf condition and every remaining goal goes to z3 (and, when z3
answers unknown, to cvc5), together with ground instances of the axioms of the
uninterpreted heads that occur.  Resource limits (not wall clock) bound the
solver, so runs are reproducible.
"""
import time
from fractions import Fraction
import itertools
import z3
from .terms import *
from . import terms as T

ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL,
         z3.Z3_OP_ANUM, z3.Z3_OP_ITE, z3.Z3_OP_DIV, z3.Z3_OP_POWER}


import os
TRACE = os.environ.get('PYVC_TRACE')


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.structural = 0
        self.by = {}


AX_HEADS = {'ANY', 'MAXH', 'MINH', 'CNT', 'SQRT', 'SIN', 'COS', 'EXP', 'LOG', 'POW', 'RINV', 'ATAN2', 'GCD', 'ACOS', 'pi!', 'FMOD', 'FDIV',
            'ARGMAX', 'ARGMIN', 'FLAT', 'IMUL', 'SUM', 'INV', 'PINV', 'LSQ', 'RNDF', 'RNDE'}
_intr = {}


def interesting(root):
    """subterms that carry axioms or serve as index candidates: [(id, term, head name, is index candidate)]"""
    k = root.get_id()
    r = _intr.get(k)
    if r is None:
        out = []
        for x in subterms([root]):
            if not z3.is_app(x):
                continue
            d = x.decl()
            if d.kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            nm = d.name()
            cand = x.sort() == I and (x.num_args() == 0 or nm in ('FDIV', 'FMOD'))
            if cand or nm in AX_HEADS or nm in EXTRA_HEADS:
                out.append((x.get_id(), x, nm, cand))
        r = _intr[k] = (root, out)
    return r[1]


EXTRA_HEADS = set()     # further heads some contract adds axioms for


def subterms(ts):
    """ground subterms (not below binders)"""
    seen, out, st = set(), [], [t for t in ts if is_z(t)]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        out.append(x)
        st.extend(x.children())
    return out


def ho_heads():
    return {h.name() for h in (T.SUM, T.CNT, T.ANY, T.MAXH, T.MINH, T.ARGMAX, T.ARGMIN, T.INV, T.PINV, T.LSQ, T.CNT2)}


HO = ho_heads()
GEN = {}       # further heads of contracts: name -> position of the extent that bounds all binders


def ho_head(name, *sig, n=0):
    """declare a specification function with functional arguments"""
    GEN[name] = n
    HO.add(name)
    return z3.Function(name, *sig)


NLMUL = z3.Function('NLMUL', R, R, R)
NLMULI = z3.Function('NLMULI', I, I, I)


def is_lam(x):
    return z3.is_quantifier(x) or z3.is_K(x)


class Prover:
    def __init__(self, rlimit=4000000):
        self.rlimit = rlimit
        self.stats = Stats()
        self._ent = {}
        self._abs = {}
        self._axc = {}
        self._axm = {}
        self._skn = 0
        self.extra_axioms = []   # functions (subterm) -> list of facts, added by contracts
        self.pair_facts = []     # universally quantified preconditions, instantiated at index terms
        self.idx_facts = []
        self.full_leaf = False
        self.splits = 0
        self.keep = []
        self.deadline = None

    def sk(self, base='q', sort=I):
        self._skn += 1
        return z3.Const('%s?%d' % (base, self._skn), sort)

    # ------------------------------------------------------------ axioms
    def axioms(self, ts, rounds=2, light=False):
        gs = tuple(self.pair_facts) + (None,) + tuple(self.idx_facts) + (None,) + tuple(self.extra_axioms)
        ck = ('ax', light, rounds, tuple(map(id, gs)), tuple(t.get_id() for t in ts if is_z(t)))
        hit = self._axc.get(ck)
        if hit is not None:
            return hit[1]
        facts, done = [], set()
        idx = {}
        todo = [t for t in ts if is_z(t)]
        for _ in range(rounds):
            seen, sub = set(), []
            new = []
            # index candidates: Int constants and flat-index parts
            for t in todo:
                for e in interesting(t):
                    if e[0] not in seen:
                        seen.add(e[0])
                        sub.append(e)
                        if e[3]:
                            idx[e[0]] = e[1]
            cands = list(idx.values())[:24]
            if not light:
                for gi, g in enumerate(self.pair_facts):
                    for a in cands:
                        for b in cands:
                            kk = ('pf', gi, a.get_id(), b.get_id())
                            if a.get_id() < b.get_id() and kk not in done:
                                done.add(kk)
                                facts.append(self._memo((id(g),) + kk, lambda: [toz(g(a, b), B)], (g, a, b))[0])
                for gi, g in enumerate(self.idx_facts):
                    for a in cands:
                        kk = ('if', gi, a.get_id())
                        if kk not in done:
                            done.add(kk)
                            facts.append(self._memo((id(g),) + kk, lambda: [toz(g(a), B)], (g, a))[0])
            exps, pows = [], []
            for key, x, nm, isc in sub:
                if nm in ('ANY', 'MAXH', 'MINH', 'CNT', 'ARGMAX', 'ARGMIN'):
                    n, L = x.arg(0), x.arg(1)
                    for c in cands:
                        kk = (key, c.get_id())
                        if kk in done:
                            continue
                        done.add(kk)
                        new += self._memo(('inst',) + kk, lambda: self._inst(nm, x, n, L, c), (x, c))
                if key in done:
                    continue
                done.add(key)
                new += self._memo(('loc', key, light), lambda: self._local(x, nm, key, light, exps, pows), (x,))
                if nm == 'EXP':
                    exps.append(x)
                elif nm == 'POW':
                    pows.append(x)
                if nm == 'FMOD' or nm == 'FDIV':
                    p, m = x.arg(0), x.arg(1)
                    q, r = FDIV(p, m), FMOD(p, m)
                    new += [z3.Implies(m > 0, z3.And(0 <= r, r < m)), z3.Implies(z3.And(p >= 0, m > 0), q >= 0),
                            z3.Implies(z3.And(p >= 0, m > 0), q <= p), z3.Implies(m > 0, FLAT(q, r, m) == p)]
                    for _u, u, un, _c in sub:
                        if un == 'IMUL':
                            a = idivfactor(u, m)
                            if a is not None:
                                new.append(z3.Implies(z3.And(m > 0, p >= 0), (p < u) == (q < a)))
                elif nm == 'FLAT':
                    r, c, m = x.arg(0), x.arg(1), x.arg(2)
                    ok = z3.And(0 <= c, c < m, r >= 0)
                    new += [z3.Implies(ok, z3.And(x >= c, x >= r, FDIV(x, m) == r, FMOD(x, m) == c))]
                    for _u, u, un, _c in sub:
                        if un == 'IMUL':
                            a = idivfactor(u, m)
                            if a is not None:
                                new.append(z3.Implies(ok, (x < u) == (r < a)))
                            elif u.num_args() == 2:
                                # r*m + c < (r+1)*m <= u
                                for a, b in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                                    new.append(z3.Implies(z3.And(ok, m <= a, r < b), x < u))
                elif nm == 'IMUL':
                    a, b = x.arg(0), x.arg(1)
                    new += [z3.Implies(z3.And(a >= 1, b >= 1), z3.And(x >= a, x >= b)),
                            z3.Implies(z3.And(a >= 0, b >= 0), x >= 0), z3.Implies(z3.Or(a == 0, b == 0), x == 0),
                            z3.Implies(a == 1, x == b), z3.Implies(b == 1, x == a)]
                    fs = ifactors(x)
                    if len(fs) <= 3 and any(f.num_args() for f in fs):
                        # a product in any order (factors may equal other terms)
                        for pm in itertools.permutations(fs):
                            y = pm[0]
                            for f in pm[1:]:
                                y = IMUL(y, f)
                            if not y.eq(x):
                                new.append(x == y)
                if nm in ('SUM', 'ANY', 'CNT'):
                    new += self.unroll(x, sub, done)
                for f in self.extra_axioms:
                    new += self._memo((id(f), key), lambda: f(x) or [], (f, x))
            if not light:
                for i in range(min(len(exps), 6)):
                    for j in range(i):
                        a, b = exps[i], exps[j]
                        k = (a.get_id(), b.get_id(), 'm')
                        if k not in done:
                            done.add(k)
                            new += [(a.arg(0) <= b.arg(0)) == (a <= b), z3.Implies(a.arg(0) == b.arg(0), a == b)]
                for i in range(min(len(pows), 6)):
                    for j in range(i):
                        a, b = pows[i], pows[j]
                        k = (a.get_id(), b.get_id(), 'm')
                        if k not in done:
                            done.add(k)
                            new.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) > 0, 0 <= a.arg(0), a.arg(0) <= b.arg(0)), a <= b))
                            new.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) > 0, 0 <= b.arg(0), b.arg(0) <= a.arg(0)), b <= a))
            facts += new
            if not new:
                break
            todo = new
        self._axc[ck] = (tuple(ts), facts, gs)
        return facts

    def _memo(self, k, f, keep):
        r = self._axm.get(k)
        if r is None:
            r = self._axm[k] = (f(), keep)
        return r[0]

    def _inst(self, nm, x, n, L, c):
        rng = z3.And(0 <= c, c < n)
        if nm == 'ANY':
            return [z3.Implies(z3.And(rng, app_lam(L, c)), x)]
        if nm == 'CNT':
            return [z3.Implies(z3.And(rng, app_lam(L, c)), x >= 1)]
        if nm in ('ARGMAX', 'ARGMIN'):
            here, best = app_lam(L, c), app_lam(L, x)
            if nm == 'ARGMIN':
                here, best = -here, -best
            return [z3.Implies(rng, here <= best), z3.Implies(z3.And(rng, c < x), here < best)]
        if nm == 'MAXH':
            return [z3.Implies(z3.And(rng, app_lam(x.arg(2), c)), app_lam(L, c) <= x)]
        return [z3.Implies(z3.And(rng, app_lam(x.arg(2), c)), app_lam(L, c) >= x)]

    def _local(self, x, nm, key, light, exps, pows):
        """axioms about one application"""
        new = []
        if nm == 'SQRT':
            a = x.arg(0)
            new += [x >= 0, z3.Implies(a >= 0, x * x == a), z3.Implies(a == 0, x == 0), z3.Implies(a > 0, x > 0)]
        elif nm == 'SIN' or nm == 'COS':
            a = x.arg(0)
            s, c = SIN(a), COS(a)
            new += [s * s + c * c == 1]
            new += [z3.Implies(a == 0, z3.And(s == 0, c == 1)), x <= 1, x >= -1]
        elif nm == 'EXP':
            a = x.arg(0)
            new += [x > 0, z3.Implies(a == 0, x == 1), z3.Implies(a > 0, x > 1 + a), z3.Implies(a < 0, x < 1),
                    x >= 1 + a]
        elif nm == 'LOG':
            a = x.arg(0)
            new += [z3.Implies(a == 1, x == 0), z3.Implies(a > 1, x > 0),
                    z3.Implies(z3.And(a > 0, a < 1), x < 0)]
            if z3.is_app(a) and a.decl().eq(EXP):
                new.append(x == a.arg(0))
        elif nm == 'POW':
            a, e = x.arg(0), x.arg(1)
            new += [z3.Implies(z3.And(a == 0, e > 0), x == 0), z3.Implies(a > 0, x > 0), z3.Implies(a >= 0, x >= 0),
                    z3.Implies(e == 1, x == a), z3.Implies(a == 1, x == 1),
                    z3.Implies(z3.And(e == 0, a > 0), x == 1)]
        elif nm == 'RINV':
            y = x.arg(0)
            new += [z3.Implies(y != 0, y * x == 1), z3.Implies(y == 0, x == 0),
                    z3.Implies(y > 0, x > 0), z3.Implies(y < 0, x < 0)]
        elif nm == 'ATAN2':
            y, c = x.arg(0), x.arg(1)
            new += [x <= PI, x > -PI, z3.Implies(y >= 0, x >= 0), z3.Implies(z3.And(y == 0, c > 0), x == 0),
                    z3.Implies(z3.And(y == 0, c >= 0), x == 0),
                    z3.Implies(y < 0, x < 0)]
        elif nm == 'GCD':
            a, b, c_, d = x.children()
            new += [x >= 0, x <= 180, x == GCD(c_, d, a, b), z3.Implies(z3.And(a == c_, b == d), x == 0)]
        elif nm == 'ACOS':
            a = x.arg(0)
            new += [x >= 0, x <= PI, z3.Implies(a == 1, x == 0), z3.Implies(a == -1, x == PI),
                    z3.Implies(a == 0, 2 * x == PI)]
        elif nm == 'pi!':
            new += [x > z3.Q(314159, 100000), x < z3.Q(314160, 100000)]
        elif nm == 'ANY':
            n, L = x.arg(0), x.arg(1)
            w = z3.Const('w!any%d' % key, I)
            self.keep.append(x)
            new.append(z3.Implies(x, z3.And(0 <= w, w < n, app_lam(L, w))))
        elif nm == 'CNT':
            n, L = x.arg(0), x.arg(1)
            w = z3.Const('w!cnt%d' % key, I)
            self.keep.append(x)
            new += [x >= 0, z3.Implies(n >= 0, x <= n),
                    z3.Implies(x > 0, z3.And(0 <= w, w < n, app_lam(L, w)))]
        elif nm in ('ARGMAX', 'ARGMIN'):
            new.append(z3.Implies(x.arg(0) > 0, z3.And(0 <= x, x < x.arg(0))))
        elif nm in ('MAXH', 'MINH'):
            n, L, P = x.arg(0), x.arg(1), x.arg(2)
            w = z3.Const('w!ext%d' % key, I)
            self.keep.append(x)
            ne = z3.And(0 <= w, w < n, app_lam(P, w), app_lam(L, w) == x)
            kk = bvar()
            nonempty = ANY(n, P) if not z3.is_true(app_lam(P, kk)) else n > 0
            new.append(z3.Implies(nonempty, ne))
        elif nm == 'SUM' and not light:
            n = x.arg(0)
            new.append(z3.Implies(n <= 0, x == 0))
        return new

    def unroll(self, x, sub, done):
        """H(n + 1, f) in terms of H(n, f) for two occurring applications"""
        out = []
        nm = x.decl().name()
        for _y, y, yn, _c in sub:
            if yn != nm or y.eq(x) or not y.arg(1).eq(x.arg(1)):
                continue
            k = (x.get_id(), y.get_id(), 'u')
            if k in done:
                continue
            done.add(k)
            n, m = x.arg(0), y.arg(0)
            d = unz(som(n - m))
            if is_z(d) or d != 1:
                continue
            f = app_lam(x.arg(1), m)
            if nm == 'SUM':
                out.append(z3.Implies(m >= 0, x == y + f))
            elif nm == 'CNT':
                out.append(z3.Implies(m >= 0, x == y + z3.If(f, z3.IntVal(1), z3.IntVal(0))))
            else:
                out.append(z3.Implies(m >= 0, x == z3.Or(y, f)))
        return out

    # ------------------------------------------------------------ solver calls
    def abstr(self, t):
        """over-approximation: nonlinear products and binder applications become opaque constants"""
        k = t.get_id()
        r = self._abs.get(k)
        if r is not None:
            return r[1]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            if z3.is_mul(t) and sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                num, fs = toz(1, t.sort()), []
                for f in T._factors(t):
                    if z3.is_rational_value(f) or z3.is_int_value(f):
                        num = f if z3.is_rational_value(num) and num.as_fraction() == 1 or z3.is_int_value(num) and num.as_long() == 1 else z3.simplify(num * f)
                    else:
                        fs.append(self.abstr(f))
                fs.sort(key=lambda x: x.get_id())
                r = fs[0]
                h = NLMUL if t.sort() == R else NLMULI
                for f in fs[1:]:
                    r = h(r, f)
                r = num * r
            elif any(z3.is_quantifier(c) for c in t.children()) or t.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_DIV):
                r = z3.Const('abs!%d' % k, t.sort())
            else:
                ch = [self.abstr(c) for c in t.children()]
                if all(a.eq(b) for a, b in zip(ch, t.children())):
                    r = t
                else:
                    d = t.decl()
                    kd = d.kind()
                    if kd == z3.Z3_OP_ADD:
                        r = z3.Sum(*ch)
                    elif kd == z3.Z3_OP_AND:
                        r = z3.And(*ch)
                    elif kd == z3.Z3_OP_OR:
                        r = z3.Or(*ch)
                    else:
                        r = d(*ch)
        self._abs[k] = (t, r)
        return r

    def _solve_lin(self, asserts, rlimit):
        return self._solve([self.abstr(toz(a)) for a in asserts], rlimit)

    def _solve(self, asserts, rlimit):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('rlimit', rlimit)
        s.set('timeout', 10000)
        for a in asserts:
            s.add(a)
        t0 = time.time()
        r = s.check()
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        return r, s

    def entails(self, pc, c, rlimit=300000):
        """cheap check used for contextual simplification and branching: True/False(unknown)"""
        if isinstance(c, bool):
            return c
        for p in pc:
            if p.eq(c):
                return True
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), tuple(p.get_id() for p in pc))
        r = self._ent.get(key)
        if r is None:
            nc = c.arg(0) if z3.is_not(c) else None
            for p in pc:
                if p.eq(c):
                    r = True
                elif nc is not None and p.eq(nc) or z3.is_not(p) and p.arg(0).eq(c):
                    r = False
            if r is None:
                base = list(pc) + [z3.Not(c)]
                ax = self.axioms(base, light=True)
                res, _ = self._solve_lin(base + ax, rlimit)
                r = (res == z3.unsat)
            self._ent[key] = r
            self.keep.append((c, tuple(pc)))
        return r

    def feasible(self, pc):
        base = list(pc)
        res, _ = self._solve_lin(base + self.axioms(base, light=True), 300000)
        return res != z3.unsat

    # ------------------------------------------------------------ contextual simplification
    def deep(self, t, pc, memo=None):
        """eliminate conditionals decided by pc, also below binders (under range assumptions)"""
        if not is_z(t):
            return t
        if memo is None:
            memo = {}
        return self._deep(t, pc, memo, {})

    def _has_ite(self, t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE:
                    return True
                st.extend(x.children())
        return False

    def _deep(self, t, pc, memo, _):
        key = t.get_id()
        if key in memo:
            return memo[key][1]
        if not self._has_ite(t):
            memo[key] = (t, t)
            return t
        r = self._deep1(t, pc, memo)
        memo[key] = (t, r)
        return r

    def _deep1(self, t, pc, memo):
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            return t
        d = t.decl()
        if d.kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            if self.entails(pc, c):
                return self._deep(t.arg(1), pc, memo, None)
            if self.entails(pc, z3.Not(c)):
                return self._deep(t.arg(2), pc, memo, None)
            if self._has_ite(c):
                c2 = simp(self._deep(c, pc, memo, None))
                if not c2.eq(c):
                    c = c2
                    if z3.is_true(c) or self.entails(pc, c):
                        return self._deep(t.arg(1), pc, memo, None)
                    if z3.is_false(c) or self.entails(pc, z3.Not(c)):
                        return self._deep(t.arg(2), pc, memo, None)
            a = self._deep(t.arg(1), pc + [c], {}, None)
            b = self._deep(t.arg(2), pc + [z3.Not(c)], {}, None)
            return a if a.eq(b) else z3.If(c, a, b)
        nm = d.name()
        if nm == 'SUM':
            n, L = self._deep(t.arg(0), pc, memo, None), t.arg(1)
            k = self.sk('k')
            body = self._deep(app_lam(L, k), pc + [0 <= k, k < n], {}, None)
            r = mk_sum(n, lambda q: z3.substitute(body, (k, q)))
            return toz(r, R)
        if nm in ('CNT', 'ANY'):
            n, L = self._deep(t.arg(0), pc, memo, None), t.arg(1)
            k = self.sk('k')
            body = simp(self._deep(app_lam(L, k), pc + [0 <= k, k < n], {}, None))
            return toz((mk_cnt if nm == 'CNT' else mk_any)(n, lambda q: z3.substitute(body, (k, q))))
        if nm in ('INV', 'PINV', 'LSQ'):
            o = 1 if nm == 'PINV' else 0
            n, L = t.arg(o), t.arg(o + 1)
            i, j = self.sk('k'), self.sk('k')
            body = self._deep(app_lam(L, i, j), pc + [0 <= i, i < n, 0 <= j, j < n], {}, None)
            L2 = lam(lambda a, b: z3.substitute(body, (i, a), (j, b)), 2)
            rest = [t.arg(q) for q in range(o + 2, t.num_args())]
            if nm == 'LSQ':
                L3 = rest[0]
                b3 = self._deep(app_lam(L3, i), pc + [0 <= i, i < n], {}, None)
                rest[0] = lam(lambda a: z3.substitute(b3, (i, a)))
            rest = [self._deep(r, pc, memo, None) if not z3.is_quantifier(r) else r for r in rest]
            head = [t.arg(0)] if nm == 'PINV' else []
            return d(*(head + [n, L2] + rest))
        if nm in GEN:
            n = self._deep(t.arg(GEN[nm]), pc, memo, None)
            ch = []
            for a in t.children():
                if z3.is_quantifier(a):
                    ks = [self.sk('k') for _ in range(a.num_vars())]
                    rng = [c for k in ks for c in (0 <= k, k < n)]
                    body = self._deep(app_lam(a, *ks), pc + rng, {}, None)
                    ch.append(close(ks, body))
                else:
                    ch.append(self._deep(a, pc, memo, None))
            return d(*ch)
        if nm in ('MAXH', 'MINH'):
            n, L, P = t.arg(0), t.arg(1), t.arg(2)
            k = self.sk('k')
            cond = simp(self._deep(app_lam(P, k), pc + [0 <= k, k < n], {}, None))
            body = self._deep(app_lam(L, k), pc + [0 <= k, k < n, cond], {}, None)
            return mk_ext(d, n, lambda q: z3.substitute(body, (k, q)), lambda q: z3.substitute(cond, (k, q)))
        ch = [self._deep(c, pc, memo, None) for c in t.children()]
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        return rebuild(d, ch)

    # ------------------------------------------------------------ proving
    def equations(self, pc):
        """index equalities x = t of the path condition, oriented for substitution"""
        for p in pc:
            if z3.is_eq(p) and p.arg(0).sort() == I:
                a, b = p.arg(0), p.arg(1)
                for x, t in ((a, b), (b, a)) if a.get_id() > b.get_id() or not isvar(b) else ((b, a), (a, b)):
                    if isvar(x) and not has_const(t, {x.decl().get_id()}):
                        return p, x, t
        return None

    def inline_eqs(self, ts, pc):
        pc = conjuncts(pc)
        for _ in range(8):
            e = self.equations(pc)
            if e is None:
                break
            p, x, t = e
            sb = lambda u: renorm(simp(z3.substitute(u, (x, t))))
            pc = [sb(q) for q in pc if not q.eq(p)]
            pc = [q for q in pc if not z3.is_true(q)]
            ts = [sb(u) if is_z(u) else u for u in ts]
        return ts, pc

    def prove(self, goal, pc, depth=9):
        """-> (bool, reason)"""
        if is_z(goal):
            pc = [toz(p) for p in pc]
            (goal,), pc = self.inline_eqs([goal], pc)
        goal = unz(goal)
        if goal is True:
            return True, 'trivial'
        if goal is False:
            if not self.feasible(pc):
                return True, 'infeasible path'
            r, s = self._solve(list(pc) + self.axioms(list(pc)), self.rlimit)
            if r == z3.unsat:
                return True, 'infeasible path'
            return False, 'goal is False on a feasible path'
        goal = simp(goal)
        if z3.is_true(goal):
            return True, 'trivial'
        if z3.is_and(goal):
            for g in goal.children():
                ok, why = self.prove(g, pc, depth)
                if not ok:
                    return ok, why
            return True, 'conj'
        if z3.is_implies(goal):
            return self.prove(goal.arg(1), list(pc) + [goal.arg(0)], depth)
        for p in pc:
            if p.eq(goal):
                return True, 'assumption'
        if z3.is_eq(goal) and goal.arg(0).sort() in (R, I):
            if self.eq(goal.arg(0), goal.arg(1), list(pc), depth):
                return True, 'eq'
            return self.z3_prove(goal, pc)
        return self.z3_prove(goal, pc, depth=depth)

    def z3_prove(self, goal, pc, rlimit=None, depth=4):
        g = self.deep(goal, list(pc))
        pc = list(pc)
        base = pc + [z3.Not(toz(g))]
        ax = self.axioms(base)
        cong = self.congruences([g] + pc, pc, depth) if depth > 0 else []
        r, s = self._solve_lin(base + ax + cong, rlimit or self.rlimit)
        if r == z3.unsat:
            return True, 'z3'
        if depth == 0 and not self.full_leaf:
            return False, 'not implied by the linear abstraction\n' + str(goal)[:1500]
        r, s = self._solve(base + ax + cong, rlimit or self.rlimit)
        if r == z3.unsat:
            return True, 'z3'
        if r == z3.unknown:
            ok = self.cvc5(base + ax + cong)
            if ok:
                return True, 'cvc5'
            return False, 'solver gave up (unknown)\n' + str(goal)[:1500]
        m = s.model()
        return False, 'counter-model: ' + str(m)[:1500] + '\nfor ' + str(goal)[:1500]

    def cvc5(self, asserts):
        try:
            import subprocess
            s = z3.Solver()
            s.add(*asserts)
            txt = s.to_smt2()
            if 'lambda' in txt:
                return False
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--rlimit=2000000', '--tlimit=20000'],
                               input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=30)
            self.stats.queries += 1
            return p.stdout.strip().startswith('unsat')
        except Exception:
            return False

    def congruences(self, ts, pc, depth):
        """equalities between higher-order heads with provably equal arguments"""
        hs = {}
        for x in subterms(ts):
            if z3.is_app(x) and x.decl().name() in HO:
                hs.setdefault(x.decl().name(), []).append(x)
        out = []
        for nm, xs in hs.items():
            for i in range(min(len(xs), 8)):
                for j in range(i):
                    if self.app_eq(xs[i], xs[j], pc, depth - 1):
                        out.append(xs[i] == xs[j])
        return out

    def eq(self, a, b, pc, depth):
        if a.eq(b):
            return True
        if depth <= 0:
            return False
        s = R if R in (a.sort(), b.sort()) else I
        a, b = toz(a, s), toz(b, s)
        d = som(a - b)
        if is_zero(d):
            self.stats.structural += 1
            return True
        if s == I and 'IMUL' in {x.decl().name() for x in subterms([d]) if z3.is_app(x)}:
            d = som(distribute(d))
            if is_zero(d):
                self.stats.structural += 1
                return True
        if not self._has_nonlin(d):
            r, _ = self._solve_lin(list(pc) + [d != 0] + self.axioms(list(pc) + [d], light=True), 400000)
            if r == z3.unsat:
                return True
            if s == I:
                return False
        d = som(self.deep(d, list(pc)))
        if is_zero(d):
            self.stats.structural += 1
            return True
        # case split on the first undecided top-level condition
        c = self.first_cond(d)
        if c is not None:
            if self.splits > 14:
                return False
            self.splits += 1
            try:
                for lit_ in (c, z3.Not(c)):
                    pc2 = list(pc) + [lit_]
                    if not self.feasible(pc2):
                        continue
                    d2 = d
                    if any(z3.is_eq(x) for x in conjuncts([lit_])):
                        (d2,), pc2 = self.inline_eqs([d], pc2)
                    if not self.eq(d2, toz(Fraction(0), s), pc2, depth):
                        return False
            finally:
                self.splits -= 1
            return True
        return self.zero(d, pc, depth)

    def _has_nonlin(self, d):
        for x in subterms([d]):
            if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            if z3.is_mul(x) and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                return True
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                return True
        return False

    def first_cond(self, d):
        st = [d]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE:
                    inner = self.first_cond(x.arg(0))
                    return inner if inner is not None else x.arg(0)
                st.extend(x.children())
        return None

    def zero(self, d, pc, depth):
        """d is ite-free at top level: prove d == 0"""
        for _ in range(12):
            d = som(d)
            if is_zero(d):
                self.stats.structural += 1
                return True
            # 1. combine sums over the same range
            a = self.align_sums(d, pc)
            if a is not None:
                return self.eq(a, toz(Fraction(0)), pc, depth)
            r = self.group_sums(d, pc, depth)
            if r is True:
                return True
            # 2. merge equal applications
            atoms = {}
            for x in self.atoms(d):
                atoms.setdefault((x.decl().name(), x.num_args()), []).append(x)
            hit = None
            for (nm, na), xs in atoms.items():
                for i in range(len(xs)):
                    for j in range(i):
                        u, v = xs[i], xs[j]
                        if not u.eq(v) and self.app_eq(u, v, pc, depth - 1):
                            hit = (u, v)
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                break
            d = z3.substitute(d, hit)
        if depth < 3:
            if TRACE:
                print('DEPTH', str(d)[:600])
            return False
        ok, why = self.z3_prove(d == 0, pc, rlimit=self.rlimit // 2, depth=0)
        if not ok and TRACE:
            print('LEAF depth', depth, ':', str(d)[:1500], '\n  UNDER', str(pc)[:1500], '\n  ', why[:100])
        return ok

    def atoms(self, d):
        out, st, seen = [], [d], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                    out.append(x)
                else:
                    st.extend(x.children())
        return out

    def align_sums(self, d, pc):
        """SUM(n + c, F) -> SUM(n, F) + F(n) + ... when a sum up to n occurs too"""
        ss = [x for x in self.atoms(d) if x.decl().eq(SUM)]
        ns = {x.arg(0).get_id(): x.arg(0) for x in ss}
        if len(ns) < 2:
            return None
        for x in ss:
            best = None
            for n in ns.values():
                c = unz(simp(x.arg(0) - n))
                if not is_z(c) and 0 < c <= 3 and (best is None or c > best[0]) and self.entails(list(pc), n >= 0):
                    best = (c, n)
            if best is not None:
                c, n = best
                r = mk_sum(n, lambda k, L=x.arg(1): app_lam(L, k))
                for i in range(c):
                    r = add(r, app_lam(x.arg(1), simp(n + i)))
                return som(z3.substitute(d, (x, toz(r, R))))
        return None

    def group_sums(self, d, pc, depth):
        monos = list(d.children()) if z3.is_add(d) else [d]
        groups, rest = {}, []
        for m in monos:
            fs = T._factors(m)
            ss = [f for f in fs if z3.is_app(f) and f.decl().eq(SUM)]
            if len(ss) != 1:
                rest.append(m)
                continue
            cs = [f for f in fs if not f.eq(ss[0])]
            n = ss[0].arg(0)
            groups.setdefault(n.get_id(), (n, []))[1].append((cs, ss[0].arg(1)))
        if not groups:
            return False
        if rest:
            rr = toz(Fraction(0))
            for m in rest:
                rr = rr + m
            if not self.eq(som(rr), toz(Fraction(0)), pc, depth - 1):
                return False
        for n, items in groups.values():
            k = self.sk('k')
            tot = toz(Fraction(0))
            for cs, L in items:
                t = app_lam(L, k)
                for c in cs:
                    t = c * t
                tot = tot + t
            if not self.eq(som(tot), toz(Fraction(0)), list(pc) + [0 <= k, k < n], depth - 1):
                return False
        return True

    def app_eq(self, u, v, pc, depth):
        """two applications of the same head: arguments provably equal"""
        if u.eq(v):
            return True
        if depth <= 0 or not u.decl().eq(v.decl()):
            return False
        nm = u.decl().name()
        key = ('app', u.get_id(), v.get_id(), depth, tuple(p.get_id() for p in pc))
        if key in self._ent:
            return self._ent[key]
        r = self._app_eq(u, v, pc, depth, nm)
        self._ent[key] = r
        self.keep.append((u, v, tuple(pc)))
        return r

    def lam_eq(self, L1, L2, ns, pc, depth, guard=None):
        if L1.eq(L2):
            return True
        ks = [self.sk('k') for _ in range(L1.num_vars())]
        rng = []
        for k, n in zip(ks, ns if isinstance(ns, tuple) else (ns,) * len(ks)):
            rng += [0 <= k, k < n]
        if guard is not None:
            rng.append(app_lam(guard, *ks))
        x, y = app_lam(L1, *ks), app_lam(L2, *ks)
        if x.sort() == B:
            ok, _ = self.z3_prove(simp(x == y), list(pc) + rng, rlimit=self.rlimit // 2, depth=depth - 1)
            return ok
        x, y = som(x), som(y)
        if z3.is_app(x) and z3.is_app(y) and x.decl().kind() == z3.Z3_OP_ITE and y.decl().kind() == z3.Z3_OP_ITE and not x.eq(y):
            # the same value where the conditions agree
            q = list(pc) + rng
            ok = x.arg(0).eq(y.arg(0)) or self.z3_prove(simp(x.arg(0) == y.arg(0)), q, rlimit=self.rlimit // 4, depth=depth - 1)[0]
            if ok and self.eq(x.arg(1), y.arg(1), q + [x.arg(0)], depth) and self.eq(x.arg(2), y.arg(2), q + [z3.Not(x.arg(0))], depth):
                return True
        return self.eq(x, y, list(pc) + rng, depth)

    def _app_eq(self, u, v, pc, depth, nm):
        n_args = u.num_args()
        if nm in HO:
            o = 1 if nm == 'PINV' else GEN.get(nm, 0)
            if nm == 'PINV' and not u.arg(0).eq(v.arg(0)):
                return False
            n = u.arg(o)
            if not self.eq(n, v.arg(o), pc, depth):
                return False
            rest = list(range(o + 1, n_args)) if nm not in GEN else [i for i in range(n_args) if i != o]
            if nm in ('MAXH', 'MINH'):
                if not self.lam_eq(u.arg(2), v.arg(2), n, pc, depth):
                    return False
                return self.lam_eq(u.arg(1), v.arg(1), n, pc, depth, guard=u.arg(2))
            # cheap index arguments first
            for i in rest:
                if not is_lam(u.arg(i)) and not self.arg_eq(u.arg(i), v.arg(i), pc, depth):
                    return False
            for i in rest:
                if is_lam(u.arg(i)) and not self.lam_eq(u.arg(i), v.arg(i), (n, u.arg(1)) if nm == 'CNT2' else n, pc, depth):
                    return False
            return True
        if nm == 'GCD':      # symmetric in the two points
            us, vs = u.children(), v.children()
            for perm in ((0, 1, 2, 3), (2, 3, 0, 1)):
                if all(self.eq(us[i], vs[j], pc, depth) for i, j in enumerate(perm)):
                    return True
            return False
        for i in range(n_args):
            a, b = u.arg(i), v.arg(i)
            if is_lam(a) or is_lam(b):
                if not a.eq(b):
                    return False
                continue
            if not self.arg_eq(a, b, pc, depth):
                return False
        return True

    def arg_eq(self, a, b, pc, depth):
        if a.eq(b):
            return True
        if a.sort() == B:
            return self.z3_prove(simp(a == b), pc, rlimit=200000, depth=0)[0]
        if a.sort() in (R, I):
            return self.eq(a, b, pc, depth)
        if z3.is_app(a) and z3.is_app(b) and a.num_args() > 0:
            return self.app_eq(a, b, pc, depth)
        return False


def conjuncts(pc):
    """conjunctions (also negated disjunctions and implications) of the path condition taken apart"""
    out, st = [], list(reversed(list(pc)))
    while st:
        p = st.pop()
        if z3.is_and(p):
            st.extend(reversed(p.children()))
        elif z3.is_not(p) and z3.is_or(p.arg(0)):
            st.extend(z3.Not(c) for c in reversed(p.arg(0).children()))
        elif z3.is_not(p) and z3.is_not(p.arg(0)):
            st.append(p.arg(0).arg(0))
        else:
            out.append(p)
    # unit propagation: disjuncts whose negation is known are dropped
    for _ in range(4):
        known = {p.get_id() for p in out}
        hit = None
        for i, p in enumerate(out):
            if z3.is_or(p):
                ch = [c for c in p.children() if z3.Not(c).get_id() not in known and not (z3.is_not(c) and c.arg(0).get_id() in known)]
                if len(ch) < p.num_args():
                    hit = (i, ch)
                    break
        if hit is None:
            break
        i, ch = hit
        new = [z3.BoolVal(False)] if not ch else conj_parts(ch[0]) if len(ch) == 1 else [z3.Or(*ch)]
        out[i:i + 1] = new
    return out


def conj_parts(p):
    """a formula taken apart into conjuncts"""
    if z3.is_and(p):
        return [q for c in p.children() for q in conj_parts(c)]
    if z3.is_not(p) and z3.is_or(p.arg(0)):
        return [q for c in p.arg(0).children() for q in conj_parts(z3.Not(c))]
    if z3.is_not(p) and z3.is_not(p.arg(0)):
        return conj_parts(p.arg(0).arg(0))
    return [p]


FLATHEADS = {'IMUL', 'FLAT', 'FDIV', 'FMOD'}
_rn = {}


def renorm(t):
    """integer products and flat indices brought back to normal form after a substitution"""
    if not is_z(t):
        return t
    hit = _rn.get(t.get_id())
    if hit is not None:
        return hit[1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [renorm(c) for c in t.children()]
        if t.decl().name() in FLATHEADS and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = rebuild(t.decl(), ch)
        elif any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = rebuild(t.decl(), ch)
    _rn[t.get_id()] = (t, r)
    return r


def distribute(t):
    """integer products of sums multiplied out"""
    if not z3.is_app(t) or not t.num_args():
        return t
    ch = [distribute(c) for c in t.children()]
    if t.decl().name() == 'IMUL':
        r = z3.IntVal(0)
        for a in summands(ch[0]):
            for b in summands(ch[1]):
                r = r + toz(mul(unz(a), unz(b)), I)
        return simp(r)
    return t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t


def summands(t):
    t = som(t)
    return list(t.children()) if z3.is_add(t) else [t]


def isvar(x):
    return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


def is_zero(d):
    v = unz(d)
    return not is_z(v) and v == 0


def rebuild(d, ch):
    nm = d.name()
    if nm == 'RINV':
        try:
            return toz(rinv(ch[0]), R)
        except ZeroDivisionError:
            return d(*ch)
    f = {'SIN': t_sin, 'COS': t_cos, 'EXP': t_exp, 'LOG': t_log, 'SQRT': t_sqrt, 'ACOS': t_acos}.get(nm)
    if f:
        return toz(f(ch[0]), R)
    if nm == 'FLAT':
        return toz(flat(unz(ch[0]), unz(ch[1]), unz(ch[2])), I)
    if nm == 'FDIV':
        return toz(fdiv(ch[0], unz(ch[1])), I)
    if nm == 'FMOD':
        return toz(fmod(ch[0], unz(ch[1])), I)
    if nm == 'IMUL':
        return toz(mul(unz(ch[0]), unz(ch[1])), I)
    if d.kind() == z3.Z3_OP_UNINTERPRETED and any(c.sort() == R for c in ch):
        ch = [som(c) if c.sort() == R else c for c in ch]
    k = d.kind()
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return d(*ch)
