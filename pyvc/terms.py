"""Term layer: thin helpers over z3 ASTs (used as a hash-consed term language).

Concrete numbers stay Python values: int for integers, Fraction for floats
(machine floats are treated as mathematical reals; literals by their decimal
spelling), float only for inf/nan.  Symbolic scalars are z3 expressions of sort
Int, Real or Bool.
"""
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
z3.set_param('rlimit', 0)


class Unsupported(Exception):
    """The code uses something outside the verifier's subset."""


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def is_scalar(x):
    return is_z(x) or isinstance(x, (bool, int, Fraction, float))


def lit(s):
    """float literal -> Fraction of its decimal spelling (inf/nan stay float)."""
    if s != s or s in (float('inf'), float('-inf')):
        return s
    return Fraction(repr(s))


def toz(x, sort=None):
    if is_z(x):
        if sort is not None and x.sort() != sort:
            if sort == R and x.sort() == I:
                if z3.is_int_value(x):
                    return z3.RealVal(x.as_long())
                return z3.ToReal(x)
            if sort == R and x.sort() == B:
                return z3.If(x, z3.RealVal(1), z3.RealVal(0))
            if sort == I and x.sort() == B:
                return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            raise Unsupported("sort %s -> %s" % (x.sort(), sort))
        return x
    if isinstance(x, bool):
        if sort is None or sort == B:
            return z3.BoolVal(x)
        return z3.IntVal(int(x)) if sort == I else z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x) if sort == R else z3.IntVal(x)
    if isinstance(x, Fraction):
        if sort == I:
            if x.denominator == 1:
                return z3.IntVal(int(x))
            raise Unsupported("fraction as int")
        return z3.RealVal(x)
    if isinstance(x, float):
        if x == float('inf'):
            return INF
        if x == float('-inf'):
            return -INF
        return NANC
    raise Unsupported("not a scalar: %r" % (type(x),))


INF = z3.Real('INF!')       # opaque; only compared structurally
NANC = z3.Real('NAN!')
PI = z3.Real('pi!')


def unz(x):
    """z3 value -> python value when concrete."""
    if not is_z(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def sortof(x):
    if is_z(x):
        return x.sort()
    if isinstance(x, bool):
        return B
    if isinstance(x, int):
        return I
    return R


_simp_cache = {}


def simp(x):
    if not is_z(x):
        return x
    k = x.get_id()
    r = _simp_cache.get(k)
    if r is None:
        y = z3.simplify(x)
        _simp_cache[k] = (x, y)
        return y
    return r[1]


_som_cache = {}


def som(x):
    if not is_z(x):
        return x
    k = x.get_id()
    r = _som_cache.get(k)
    if r is None:
        y = z3.simplify(x, som=True, mul_to_power=False, blast_distinct=True, arith_lhs=False, hoist_ite=False)
        _som_cache[k] = (x, y)
        return y
    return r[1]


# ---------------------------------------------------------------- arithmetic
def _both(a, b):
    if is_z(a) or is_z(b):
        s = R if (sortof(a) == R or sortof(b) == R) else I
        return toz(a, s), toz(b, s), s
    return a, b, None


def fix(x):
    if isinstance(x, bool):
        return int(x)
    return x


def _isspecial(x):
    return isinstance(x, float)


def num_of(a):
    """a Boolean operand of an arithmetic operation is 0 or 1"""
    return int(a) if isinstance(a, bool) else toz(a, I) if is_z(a) and a.sort() == B else a


def add(a, b):
    a, b = num_of(fix(a)), num_of(fix(b))
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        r = a + b
        return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
    if _isspecial(a) or _isspecial(b):
        if not is_z(a) and not is_z(b):
            return float(a) + float(b)
    if is_num(a) and a == 0 and not (isinstance(a, Fraction) and sortof(b) == I):
        return b
    if is_num(b) and b == 0 and not (isinstance(b, Fraction) and sortof(a) == I):
        return a
    x, y, s = _both(a, b)
    return x + y


def neg(a):
    a = fix(a)
    if not is_z(a):
        return -a
    if a.sort() == B:
        a = toz(a, I)
    return -a


def sub(a, b):
    a, b = num_of(fix(a)), num_of(fix(b))
    if not is_z(a) and not is_z(b):
        if _isspecial(a) or _isspecial(b):
            return float(a) - float(b)
        r = a - b
        return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
    if is_num(b) and b == 0 and not (isinstance(b, Fraction) and sortof(a) == I):
        return a
    x, y, s = _both(a, b)
    if x.eq(y):
        return 0 if s == I else Fraction(0)
    return x - y


IMUL = z3.Function('IMUL', I, I, I)


def mul(a, b):
    a, b = num_of(fix(a)), num_of(fix(b))
    if not is_z(a) and not is_z(b):
        if _isspecial(a) or _isspecial(b):
            return float(a) * float(b)
        r = a * b
        return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
    for u, v in ((a, b), (b, a)):
        if is_num(u):
            if u == 0:
                return 0 if (isinstance(u, int) and sortof(v) == I) else Fraction(0)
            if u == 1 and not (isinstance(u, Fraction) and sortof(v) == I):
                return v
    x, y, s = _both(a, b)
    if s == I and is_z(unz(x)) and is_z(unz(y)):
        return imul(ifactors(x) + ifactors(y))
    return x * y


def ifactors(x):
    """factors of an integer product term"""
    x = simp(x)
    if z3.is_app(x) and x.decl().eq(IMUL):
        return ifactors(x.arg(0)) + ifactors(x.arg(1))
    return [x]


def imul(fs):
    fs = sorted(fs, key=str)
    r = fs[0]
    for f in fs[1:]:
        r = IMUL(r, f)
    return r


def idivfactor(u, m):
    """u / m for a product term u that has the factor(s) m, else None"""
    fs = ifactors(u)
    for g in ifactors(m):
        for i, f in enumerate(fs):
            if f.eq(g):
                del fs[i]
                break
        else:
            return None
    return imul(fs) if fs else z3.IntVal(1)


RINV = z3.Function('RINV', R, R)


def rinv(y):
    y = unz(som(toz(y, R)))
    if isinstance(y, Fraction):
        if y == 0:
            raise ZeroDivisionError
        return 1 / y
    # pull numeric factors / split products (convention 1/0 = 0 makes this total)
    if z3.is_mul(y):
        r = Fraction(1)
        for c in y.children():
            r = mul(r, rinv(c))
        return r
    if z3.is_app(y) and y.decl().eq(RINV):
        return y.arg(0)
    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UMINUS:
        return neg(rinv(y.arg(0)))
    return RINV(y)


def div(a, b):
    """true division"""
    a, b = fix(a), fix(b)
    if not is_z(a) and not is_z(b):
        if _isspecial(a) or _isspecial(b):
            return float(a) / float(b)
        return Fraction(a) / Fraction(b)
    if is_num(b):
        return mul(Fraction(1) / Fraction(b), toz(a, R))
    return mul(toz(a, R), rinv(b))


# ---------------------------------------------------------------- integer div/mod on flat indices
FDIV = z3.Function('FDIV', I, I, I)
FMOD = z3.Function('FMOD', I, I, I)
FLAT = z3.Function('FLAT', I, I, I, I)   # FLAT(r, c, m) = r*m + c with 0 <= c < m


def _same(a, b):
    if not is_z(a) and not is_z(b):
        return a == b
    return simp(toz(a)).eq(simp(toz(b)))


def flat(r, c, m):
    if not is_z(r) and r == 0:
        return c
    if not is_z(m):
        return add(mul(r, m), c)
    if is_z(r) and is_z(c):
        r, c = simp(r), simp(c)
        # FLAT(FDIV(p,m), FMOD(p,m), m) = p
        if z3.is_app(r) and r.decl().eq(FDIV) and z3.is_app(c) and c.decl().eq(FMOD) \
           and r.arg(0).eq(c.arg(0)) and _same(r.arg(1), m) and _same(c.arg(1), m):
            return r.arg(0)
    return FLAT(toz(r, I), toz(c, I), simp(toz(m, I)))


def fdiv(p, m):
    if not is_z(p) and not is_z(m):
        return p // m
    if not is_z(m) and m == 1:
        return p
    p, m = simp(toz(p, I)), simp(toz(m, I))
    if z3.is_app(p) and p.decl().eq(FLAT) and _same(p.arg(2), m):
        return p.arg(0)
    if not is_z(unz(m)) and unz(m) > 0:
        return p / m
    return FDIV(p, m)


def fmod(p, m):
    if not is_z(p) and not is_z(m):
        return p % m
    if not is_z(m) and m == 1:
        return 0
    p, m = simp(toz(p, I)), simp(toz(m, I))
    if z3.is_app(p) and p.decl().eq(FLAT) and _same(p.arg(2), m):
        return p.arg(1)
    if not is_z(unz(m)) and unz(m) > 0:
        return p % m
    return FMOD(p, m)


# ---------------------------------------------------------------- boolean / comparison
def b_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if is_z(x):
            if z3.is_true(x):
                continue
            if z3.is_false(x):
                return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if is_z(x):
            if z3.is_false(x):
                continue
            if z3.is_true(x):
                return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def truth(x):
    """numeric/boolean scalar -> Bool"""
    if isinstance(x, bool):
        return x
    if is_z(x):
        if x.sort() == B:
            return x
        return x != 0
    if isinstance(x, (int, Fraction, float)):
        return bool(x)
    raise Unsupported("truth of %r" % (type(x),))


def cmp(op, a, b):
    a, b = (fix(a) if not is_z(b) or b.sort() != B else a), (fix(b) if not is_z(a) or a.sort() != B else b)
    if not is_z(a) and not is_z(b):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if is_z(a) and a.sort() == B or is_z(b) and b.sort() == B:
        if op in ('==', '!='):
            sa, sb = sortof(a), sortof(b)
            if sa == B and sb == B:
                x, y = toz(a), toz(b)
                return x == y if op == '==' else x != y
        a = toz(a, I) if sortof(a) == B else a
        b = toz(b, I) if sortof(b) == B else b
    if _isspecial(a) or _isspecial(b):
        # comparisons with inf: finite reals assumed on the other side
        for u, v, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if _isspecial(v):
                if v != v:
                    return o == '!='
                if v > 0:
                    return o in ('<', '<=', '!=')
                return o in ('>', '>=', '!=')
    x, y, s = _both(a, b)
    if x.eq(y):
        return op in ('==', '<=', '>=')
    if op == '==':
        return x == y
    if op == '!=':
        return x != y
    if op == '<':
        return x < y
    if op == '<=':
        return x <= y
    if op == '>':
        return x > y
    return x >= y


def ite(c, a, b):
    if c is True or (is_z(c) and z3.is_true(c)):
        return a
    if c is False or (is_z(c) and z3.is_false(c)):
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    sa, sb = sortof(a), sortof(b)
    if sa == sb:
        s = sa
    elif R in (sa, sb):
        s = R
    else:
        s = I
    x, y = toz(a, s), toz(b, s)
    if x.eq(y):
        return a
    return z3.If(c, x, y)


def absv(a):
    if not is_z(a):
        return abs(a)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in ('SQRT', 'EXP'):
        return a
    return z3.If(a >= 0, a, -a)


def maxv(a, b):
    return ite(cmp('>=', a, b), a, b)


def minv(a, b):
    return ite(cmp('<=', a, b), a, b)


# ---------------------------------------------------------------- transcendental heads
SQRT = z3.Function('SQRT', R, R)
EXP = z3.Function('EXP', R, R)
LOG = z3.Function('LOG', R, R)
SIN = z3.Function('SIN', R, R)
COS = z3.Function('COS', R, R)
ACOS = z3.Function('ACOS', R, R)
ATAN2 = z3.Function('ATAN2', R, R, R)
POW = z3.Function('POW', R, R, R)
GCD = z3.Function('GCD', R, R, R, R, R)     # great-circle distance (contract of core.great_circle_distance)


def _negative_lead(x):
    """canonical sign: True when the first monomial (in a fixed order) has a negative coefficient"""
    x = som(x)
    ms = list(x.children()) if z3.is_add(x) else [x]

    def split(m):
        c, rest = Fraction(1), []
        for f in _factors(m):
            v = unz(f)
            if isinstance(v, (int, Fraction)):
                c *= v
            else:
                rest.append(f)
        return c, rest
    best = None
    for m in ms:
        c, rest = split(m)
        k = ' '.join(sorted(f.sexpr() for f in rest))
        if best is None or k < best[0]:
            best = (k, c)
    return best[1] < 0


def _mod2pi(x):
    """drop a multiple of 2 pi (periodicity of sine and cosine)"""
    x = som(toz(x, R))
    for m in (x.children() if z3.is_add(x) else [x]):
        v = som(m / PI) if False else None
        fs = _factors(m)
        rest = [f for f in fs if not isinstance(unz(f), (int, Fraction))]
        if len(rest) == 1 and rest[0].eq(PI):
            c = Fraction(1)
            for f in fs:
                if isinstance(unz(f), (int, Fraction)):
                    c *= unz(f)
            k = c // 2
            if k:
                return som(x - toz(2 * k, R) * PI)
    return x


def t_sin(x):
    x = _mod2pi(x)
    if unz(x) == 0 and not is_z(unz(x)):
        return Fraction(0)
    if _negative_lead(x):
        return neg(SIN(som(-x)))
    return SIN(x)


def t_cos(x):
    x = _mod2pi(x)
    if unz(x) == 0 and not is_z(unz(x)):
        return Fraction(1)
    if _negative_lead(x):
        return COS(som(-x))
    return COS(x)


def t_exp(x):
    x = som(toz(x, R))
    if not is_z(unz(x)) and unz(x) == 0:
        return Fraction(1)
    return EXP(x)


def t_log(x):
    return LOG(som(toz(x, R)))


def t_sqrt(x):
    x = som(toz(x, R))
    v = unz(x)
    if not is_z(v) and v in (0, 1):
        return Fraction(v)
    return SQRT(x)


def t_acos(x):
    return ACOS(som(toz(x, R)))


def t_atan2(y, x):
    return ATAN2(som(toz(y, R)), som(toz(x, R)))


def power(a, e):
    if isinstance(e, Fraction) and e.denominator == 1:
        isint = False
        k = int(e)
    elif isinstance(e, int):
        isint = True
        k = e
    else:
        if is_z(e) or isinstance(e, Fraction):
            if e == Fraction(1, 2) and not is_z(e):
                return t_sqrt(a)
            return POW(som(toz(a, R)), som(toz(e, R)))
        raise Unsupported("power")
    if 0 <= k <= 4:
        if k == 0:
            return 1 if isint else Fraction(1)
        if not isint:
            a = a if is_z(a) and a.sort() == R else (toz(a, R) if is_z(a) else Fraction(a))
        r = a
        for _ in range(k - 1):
            r = mul(r, a)
        return r
    if k < 0:
        return div(1, power(a, -k))
    return POW(som(toz(a, R)), toz(e, R))


# ---------------------------------------------------------------- binders
LAM1 = z3.ArraySort(I, R)
LAM2 = z3.ArraySort(I, I, R)
LAMB = z3.ArraySort(I, B)
SUM = z3.Function('SUM', I, LAM1, R)           # SUM(n, f) = sum_{0<=k<n} f(k)
CNT = z3.Function('CNT', I, LAMB, I)           # number of k in [0,n) with p(k)
ANY = z3.Function('ANY', I, LAMB, B)           # exists k in [0,n): p(k)
MAXH = z3.Function('MAXH', I, LAM1, LAMB, R)   # max over k in [0,n) with p(k)
MINH = z3.Function('MINH', I, LAM1, LAMB, R)
ARGMAX = z3.Function('ARGMAX', I, LAM1, I)     # first k in [0,n) with the largest f(k)
ARGMIN = z3.Function('ARGMIN', I, LAM1, I)
INV = z3.Function('INV', I, LAM2, I, I, R)     # entry of the inverse of an n x n matrix
PINV = z3.Function('PINV', I, I, LAM2, I, I, R)  # kind, n
LSQ = z3.Function('LSQ', I, LAM2, LAM1, I, R)

_bv = [0]


def bvar(sort=I):
    """a constant used to build a binder; alpha-equal lambdas are hash-consed"""
    _bv[0] += 1
    return z3.Const('bv!%d' % _bv[0], sort)


_canon = {}


def close(vs, body, norm=True):
    """Lambda over canonical names: alpha-equal binders become the same AST"""
    cs = []
    for i, v in enumerate(vs):
        key = ('k%d' % i, v.sort().name())
        if key not in _canon:
            _canon[key] = z3.Const(key[0], v.sort())
        cs.append(_canon[key])
    body = z3.substitute(body, *zip(vs, cs))
    body = som(body) if norm else body
    return z3.Lambda(cs, body)


def lam(f, n=1, sort=R):
    vs = [bvar() for _ in range(n)]
    return close(vs, som(toz(f(*vs), sort)))


def app_lam(L, *args):
    """beta reduction"""
    if z3.is_K(L):
        return L.arg(0)
    assert z3.is_quantifier(L) and L.is_lambda(), L
    n = L.num_vars()
    # de Bruijn: var 0 is the last bound variable
    return z3.substitute_vars(L.body(), *[toz(a, I) for a in reversed(args)])


def has_const(t, consts):
    """does t contain any of the given constants/functions (by decl id)?"""
    ids = consts
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().get_id() in ids:
                return True
            st.extend(x.children())
    return False


def _factors(m):
    if z3.is_mul(m):
        out = []
        for c in m.children():
            out.extend(_factors(c))
        return out
    if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_UMINUS:
        return [z3.RealVal(-1)] + _factors(m.arg(0))
    return [m]


def mk_sum(n, f):
    """sum_{0<=k<n} f(k): linear in the body, constants pulled out"""
    if not is_z(n):
        r = Fraction(0)
        if n <= 8:
            for k in range(n):
                r = add(r, f(k))
            return r
    n = simp(toz(n, I))
    k = bvar()
    body = som(toz(f(k), R))
    kid = {k.decl().get_id()}
    monos = list(body.children()) if z3.is_add(body) else [body]
    total = None
    rest = []
    for m in monos:
        const, dep = [], []
        for g in _factors(m):
            (dep if has_const(g, kid) else const).append(g)
        if not dep:
            t = mul(toz(n, R), _prod(const))
        else:
            d = _prod(dep)
            t = SUM(n, close([k], toz(d, R)))
            if const:
                t = mul(_prod(const), t)
        total = t if total is None else add(total, t)
    return total


def _prod(xs):
    r = None
    for x in sorted(xs, key=lambda t: t.sexpr() if t.num_args() == 0 else t.decl().name()) if False else xs:
        r = x if r is None else r * x
    return r if r is not None else Fraction(1)


def mk_any(n, f):
    if not is_z(n) and n <= 12:
        return b_or(*[f(k) for k in range(n)])
    n = simp(toz(n, I))
    k = bvar()
    body = simp(toz(f(k), B))
    if z3.is_false(body):
        return False
    return ANY(n, close([k], body))


def mk_cnt(n, f):
    if not is_z(n) and n <= 8:
        r = 0
        for k in range(n):
            r = add(r, ite(f(k), 1, 0))
        return r
    n = simp(toz(n, I))
    k = bvar()
    body = simp(toz(f(k), B))
    if z3.is_false(body):
        return 0
    if z3.is_true(body):
        return n
    return CNT(n, close([k], body))


def mk_ext(head, n, f, p=None):
    n = simp(toz(n, I))
    k = bvar()
    body = som(toz(f(k), R))
    cond = simp(toz(p(k) if p is not None else True, B))
    return head(n, close([k], body), close([k], cond))


def mk_inv(n, f, i, j, kind=None):
    n = simp(toz(n, I))
    a, b = bvar(), bvar()
    body = som(toz(f(a, b), R))
    L = close([a, b], body)
    if kind is None:
        return INV(n, L, toz(i, I), toz(j, I))
    return PINV(kind, n, L, toz(i, I), toz(j, I))


class Fresh:
    """deterministic fresh names (reset for every re-execution)"""

    def __init__(self):
        self.n = 0

    def __call__(self, base, sort):
        self.n += 1
        return z3.Const('%s!%d' % (base, self.n), sort)

    def fn(self, base, *sig):
        self.n += 1
        return z3.Function('%s!%d' % (base, self.n), *sig)


RMOD = z3.Function('RMOD', R, R, R)
LAMB2 = z3.ArraySort(I, I, B)
CNT2 = z3.Function('CNT2', I, I, LAMB2, I)     # number of pairs (i,j) in [0,n)x[0,m) with p(i,j)
MININT = z3.Function('R2I', R, I)


def TOINT(x):
    """integer equal to the integer-valued real x"""
    if not is_z(x):
        return int(x)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    return z3.ToInt(x)


def lamb2(f):
    a, b = bvar(), bvar()
    return close([a, b], simp(toz(f(a, b), B)), norm=False)
