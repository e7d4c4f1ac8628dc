"""Text files and the string operations on them.

A string is a sequence of parts: literal text, Num (a formatted number), PAD (any number of blanks, possibly none) and SymStr
(unknown text, without line breaks).  Format specifications decide what a formatted number reads back as: RNDF(d, v) is v
rounded to d decimals, RNDE(d, v) to d digits after the first one, str(v) is exact.

A file has a line and a token counter.  What is written outside of loops over a symbolic range is kept literally, line by line
(real numbers in the cell SLOT); what such a loop writes goes to the cells CODE, VAL (line, token) and LEN (line).
With flat=True it goes to cells over the running token number instead, and it is only recorded that no line is blank: the way the
tokens are spread over the lines is left open.  A `while` loop that reads such a file line by line is handled by the invariant
"the state after the lines read so far is that after one line with all their tokens" (while_lines)."""
import re
from fractions import Fraction
import z3
from .terms import *
from . import terms as T
from .values import *
from .values import _same

RNDF = z3.Function('RNDF', I, R, R)
RNDE = z3.Function('RNDE', I, R, R)
NUMBER = 0           # code of a token that is one number


class Pad:
    def __repr__(self):
        return 'PAD'


PAD = Pad()


class Num:
    """a formatted number: kind 'i'/'f', value = what it reads back as (None: in the slot of the file)"""

    def __init__(self, kind, value, slot=None):
        self.kind, self.value, self.slot = kind, value, slot

    def __repr__(self):
        return 'Num(%s%s)' % (self.kind, '' if self.slot is None else ' %d' % self.slot)


_refs = {}


def numref(kind, k):
    return _refs.setdefault((kind, k), Num(kind, None, k))


def axioms(x):
    """facts about a rounded number"""
    n = x.decl().name() if z3.is_app(x) else ''
    if n not in ('RNDF', 'RNDE') or not z3.is_int_value(x.arg(0)):
        return []
    d, v = x.arg(0).as_long(), x.arg(1)
    if n == 'RNDF':
        h = z3.Q(1, 2 * 10 ** d)
        return [x - v <= h, v - x <= h]
    h = z3.Q(1, 2 * 10 ** d)
    a = z3.If(v >= 0, v, -v)
    return [x - v <= h * a, v - x <= h * a]


def norm(parts):
    """flat list of parts; adjacent text joined, PAD next to a blank dropped"""
    out = []
    for p in parts:
        if isinstance(p, FmtStr):
            if getattr(p, 'opaque', False):
                raise Unsupported('text built in a way that is not modelled')
            q = norm(p.parts)
        else:
            q = [p]
        for x in q:
            if isinstance(x, tuple) or is_scalar(x):
                x = number(x[1] if isinstance(x, tuple) else x)
            if x == '' and isinstance(x, str):
                continue
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
                continue
            if not isinstance(x, (str, Num, Pad, SymStr)):
                raise Unsupported('text of a %s' % type(x).__name__)
            out.append(x)
    r = []
    for i, x in enumerate(out):
        if x is PAD:
            if r and (r[-1] is PAD or isinstance(r[-1], str) and r[-1][-1] in ' \t\n'):
                continue
            if i + 1 < len(out) and isinstance(out[i + 1], str) and out[i + 1][0] in ' \t\n':
                continue
        r.append(x)
    return r


def number(v):
    """str(v)"""
    if isinstance(v, NV):
        raise Unsupported('text of a value that may be nan')
    if isinstance(v, float):
        raise Unsupported('text of %r' % v)
    if not is_z(v) and not isinstance(v, Fraction):
        return str(v)
    return Num('i' if sortof(v) == I else 'f', v)


def make(parts):
    p = norm(parts)
    if not p:
        return ''
    if len(p) == 1 and isinstance(p[0], (str, SymStr)):
        return p[0]
    return FmtStr(p)


def parts_of(s):
    return norm([s])


SPEC = re.compile(r'^([<>^]?)(\d*)(?:\.(\d+))?([a-zA-Z]?)$')


def known(eng, v):
    """v, which is known not to be nan"""
    if not isinstance(v, NV):
        return v
    if eng.decide(v.flag):
        raise Unsupported('text of nan')
    return v.val


def fmt_value(v, spec):
    """format(v, spec) -> parts"""
    if isinstance(v, (str, SymStr, FmtStr)):
        m = re.match(r'^([<>^]?)(\d*)s?$', spec)
        if not m:
            raise Unsupported('format %r of text' % spec)
        return [v] if not m.group(2) else [v, PAD] if m.group(1) in ('', '<') else [PAD, v] if m.group(1) == '>' else [PAD, v, PAD]
    m = SPEC.match(spec)
    if not m or isinstance(v, (NV, float)) or not is_scalar(v) or sortof(v) == B:
        raise Unsupported('format %r' % spec)
    al, w, d, t = m.groups()
    isint = sortof(v) == I
    if isint and t in ('', 'n', 'd') and d is None:
        if not is_z(v):
            return [format(int(v), spec)]
        x = Num('i', v)
    elif t in ('f', 'F'):
        x = Num('f', unz(RNDF(z3.IntVal(int(d) if d is not None else 6), toz(v, R))))
    elif t in ('e', 'E'):
        x = Num('f', unz(RNDE(z3.IntVal(int(d) if d is not None else 6), toz(v, R))))
    elif not isint and t in ('g', 'G', 'n'):
        x = Num('f', unz(RNDE(z3.IntVal(max(int(d) if d is not None else 6, 1) - 1), toz(v, R))))
    elif not isint and t == '' and d is None:
        x = Num('f', v)
    else:
        raise Unsupported('format %r' % spec)
    if not w:
        return [x]
    return [x, PAD] if al == '<' else [PAD, x, PAD] if al == '^' else [PAD, x]


def str_format(s, args, kw):
    """s.format(*args)"""
    out, k = [], 0
    for lit, name, spec, conv in __import__('string').Formatter().parse(s):
        out.append(lit)
        if name is None:
            continue
        if conv or '{' in (spec or ''):
            raise Unsupported('format string %r' % s)
        if name == '':
            v, k = args[k], k + 1
        elif name.isdigit():
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            raise Unsupported('format string %r' % s)
        out += fmt_value(v, spec or '')
    return out


class Span(SymStr):
    """a line of the body with the tokens s .. s + w - 1 (w >= 1), all of them numbers"""

    def __init__(self, disk, s, w):
        super().__init__('line')
        self.disk, self.s, self.w = disk, s, w

    def split(self, eng):
        return PList(eng.heap, (), self.w, lambda k: FmtStr([Num('f', toz(self.disk.fval.fn((add(self.s, k),)), R))]))


# ------------------------------------------------------------ string methods
def tokens(eng, s):
    """s.split(): tokens are separated by blanks"""
    out, cur, pad = [], [], False
    for p in parts_of(s):
        if p is PAD:
            pad = bool(cur)
            continue
        if isinstance(p, str):
            for w in re.split(r'(\s+)', p):
                if w == '':
                    continue
                if w.isspace():
                    if cur:
                        out.append(make(cur))
                    cur, pad = [], False
                else:
                    if pad:
                        eng.oblige('fields of a line are separated by a blank', False)
                        raise Unsupported('fields that may run together')
                    cur.append(w)
            continue
        if isinstance(p, SymStr):
            raise Unsupported('split of unknown text')
        if pad:
            eng.oblige('fields of a line are separated by a blank', False)
            raise Unsupported('fields that may run together')
        cur.append(p)
    if cur:
        out.append(make(cur))
    return out


def split_on(s, sep, n=-1):
    out, cur = [], []
    for p in parts_of(s):
        if isinstance(p, str):
            while sep in p and (n < 0 or len(out) < n):
                a, p = p.split(sep, 1)
                out.append(make(cur + [a]))
                cur = []
            cur.append(p)
        elif isinstance(p, Num) and not re.search(r'[0-9eE.+-]', sep):
            cur.append(p)
        elif p is PAD and sep.strip():
            cur.append(p)
        elif n >= 0 and len(out) >= n:
            cur.append(p)
        else:
            raise Unsupported('split of unknown text')
    return out + [make(cur)]


def strip(s, left=True, right=True):
    if isinstance(s, Span):
        return s
    p = parts_of(s)
    while left and p and (p[0] is PAD or isinstance(p[0], str) and p[0][0].isspace()):
        p[0] = p[0].lstrip() if isinstance(p[0], str) else ''
        if p[0] == '':
            p = p[1:]
    while right and p and (p[-1] is PAD or isinstance(p[-1], str) and p[-1][-1].isspace()):
        p[-1] = p[-1].rstrip() if isinstance(p[-1], str) else ''
        if p[-1] == '':
            p = p[:-1]
    return make(p)


def replace(s, a, b):
    if not isinstance(a, str) or not isinstance(b, str) or re.search(r'[0-9eE.+-]', a):
        raise Unsupported('replace in text')
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(p.replace(a, b))
        elif p is PAD and a.isspace():
            if a != ' ' or b != '':
                raise Unsupported('replace of blanks')
        elif isinstance(p, SymStr):
            raise Unsupported('replace in unknown text')
        else:
            out.append(p)
    return make(out)


def starts(s, x):
    if isinstance(s, Span) and x and not re.match(r'[0-9\s.+-]', x):
        return False
    p = parts_of(s)
    if not p:
        return x == ''
    if not isinstance(p[0], str):
        q = [y for y in p if y is not PAD]
        if x and q and isinstance(q[0], Num) and not re.match(r'[0-9\s.+-]', x):
            return False
        raise Unsupported('startswith of unknown text')
    if len(p[0]) >= len(x):
        return p[0].startswith(x)
    if not x.startswith(p[0]):
        return False
    raise Unsupported('startswith of unknown text')


def has(s, x):
    if isinstance(s, Span) and not re.search(r'[0-9eE.+\s-]', x):
        return False
    p = parts_of(s)
    if any(isinstance(y, str) and x in y for y in p):
        return True
    if any(isinstance(y, SymStr) for y in p) or re.search(r'[0-9eE.+\s-]', x) and any(not isinstance(y, str) for y in p):
        raise Unsupported('search in unknown text')
    if len(p) > 1 and len(x) > 1 and not x.isalpha():
        raise Unsupported('search in unknown text')
    return False


def around(s, x):
    """s.split(x), s = A x B with blanks A, B"""
    p, q = parts_of(s), [y for y in parts_of(x)]
    if not q or not any(isinstance(y, Num) for y in q):
        raise Unsupported('split of text')
    for k in range(len(p) - len(q) + 1):
        if all(a is b or isinstance(a, str) and a == b for a, b in zip(p[k:], q)):
            a, b = p[:k], p[k + len(q):]
            if all(y is PAD or isinstance(y, str) and y.isspace() for y in a + b):
                return [make(a), make(b)]
    raise Unsupported('split of text')


def text_attr(eng, o, name):
    """method of a string; None: not handled here"""
    pure = lambda *a: isinstance(o, str) and all(isinstance(x, (str, int)) for x in a)

    def meth(f):
        def g(e, args, kw):
            args = [e.force(a) for a in args]
            if pure(*args) and not kw and name != 'join':
                r = getattr(o, name)(*args)
                return PList(e.heap, r) if isinstance(r, list) else r
            return f(e, *args, **kw)
        return Prim('str.' + name, g)
    L = lambda e, x: PList(e.heap, x)

    def split(e, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                raise Unsupported('split')
            if isinstance(o, Span):
                return o.split(e)
            return L(e, tokens(e, o))
        if not isinstance(sep, str):
            return L(e, around(o, sep))
        return L(e, split_on(o, sep, maxsplit))

    def join(e, it):
        items = e.iter_concrete(it)
        out = []
        for k, x in enumerate(items):
            out += ([o] if k else []) + [x]
        return make(out)

    def fmt(e, *args, **kw):
        return make(str_format(o, [known(e, e.force(a)) for a in args], {k: known(e, e.force(v)) for k, v in kw.items()}))

    def case(e):
        if any(isinstance(p, SymStr) for p in parts_of(o)):
            raise Unsupported('case of unknown text')
        return make([getattr(p, name)() if isinstance(p, str) else p for p in parts_of(o)])
    M = dict(split=split, rsplit=split, join=join, strip=lambda e: strip(o), lstrip=lambda e: strip(o, right=False), rstrip=lambda e: strip(o, left=False),
             replace=lambda e, a, b: replace(o, a, b), startswith=lambda e, x: starts(o, x), __contains__=lambda e, x: has(o, x), lower=case, upper=case,
             ljust=lambda e, n: make([o, PAD]), rjust=lambda e, n: make([PAD, o]))
    if isinstance(o, str):
        M['format'] = fmt
    return meth(M[name]) if name in M else None


def read_number(eng, s, want):
    """float(s) / int(s)"""
    p = [x for x in parts_of(s) if not (x is PAD or isinstance(x, str) and x.isspace())]
    if len(p) == 1 and isinstance(p[0], str):
        try:
            return int(p[0]) if want == 'i' else Fraction(p[0].strip())
        except ValueError:
            raise Raise('ValueError', 'number %r' % p[0])
    if len(p) != 1 or not isinstance(p[0], Num):
        if any(isinstance(x, SymStr) for x in p):
            raise Unsupported('number in unknown text')
        raise Raise('ValueError', 'number %r' % (p,))
    n = p[0]
    v = n.value if n.slot is None else unz(simp(eng.disk.slot.fn((n.slot,))))
    if want == 'i':
        if n.kind != 'i':
            raise Unsupported('int of the text of a real number')
        return v
    return v if sortof(v) == R else toz(v, R)


def subapps(t, name):
    from .loops import subapps
    return subapps(t, name)


# ------------------------------------------------------------ files
class Disk:
    """the one file of a unit"""

    def __init__(self, eng, cap, flat=False):
        self.eng, self.flat = eng, flat
        H = eng.heap
        L, C = cap
        self.st = Obj(H, 'disk', dict(raw=(), pend=(), line=0, col=0, glue=False, slots=0, written=False, tok=0, bol=True, blank=False))
        self.named = {}
        self.fcode = Cell(H, (10 ** 12,), lambda idx: -1, 'i', 'file token codes')
        self.fval = Cell(H, (10 ** 12,), lambda idx: Fraction(0), 'f', 'file token values')
        self.code = Cell(H, (L, C), lambda idx: -1, 'i', 'file codes')
        self.val = Cell(H, (L, C), lambda idx: Fraction(0), 'f', 'file values')
        self.len = Cell(H, (L,), lambda idx: -1, 'i', 'file line lengths')
        self.slot = Cell(H, (100000,), lambda idx: Fraction(0), 'f', 'file numbers')
        self.codes = {(Num,): NUMBER}

    def store(self, cell, idx, v):
        self.eng.heap.touch(cell)
        old = cell.fn
        memo = {}       # the old contents are shared by the branches that are merged later

        def fn(q):
            if any(is_z(a) for a in q):
                return ite(b_and(*[cmp('==', a, b) for a, b in zip(q, idx)]), v, old(q))
            k = tuple(q)
            if k not in memo:
                memo[k] = ite(b_and(*[cmp('==', a, b) for a, b in zip(q, idx)]), v, old(q))
            return memo[k]
        cell.fn = fn

    def set(self, **kw):
        self.eng.heap.touch(self.st)
        self.st.attrs.update(kw)

    def reset(self):
        self.set(raw=(), pend=(), line=0, col=0, glue=False, slots=0, written=True, tok=0, bol=True, blank=False)

    def literal(self):
        """everything so far was written outside of symbolic loops"""
        a = self.st.attrs
        if self.flat:
            return not is_z(a['tok']) and not isinstance(a['tok'], Poison) and a['tok'] == 0 and a['bol'] is True and a['blank'] is False
        return not is_z(a['line']) and a['line'] == len(a['raw']) and not is_z(a['col']) and a['col'] == 0 and a['glue'] is False

    def write(self, s):
        eng, a = self.eng, self.st.attrs
        if not eng.symloop and self.literal():
            self.write_literal(parts_of(s))
        else:
            self.write_tokens(parts_of(s))

    def write_literal(self, ps):
        a = self.st.attrs
        raw, pend, k = list(a['raw']), list(a['pend']), a['slots']
        for p in ps:
            if isinstance(p, Num) and p.slot is None and sortof(p.value) == R:
                self.store(self.slot, (k,), p.value)
                p, k = numref(p.kind, k), k + 1
            if isinstance(p, str):
                while '\n' in p:
                    x, p = p.split('\n', 1)
                    raw.append(tuple(norm(pend + [x, '\n'])))
                    pend = []
                if p == '':
                    continue
            pend.append(re.sub(r' +', ' ', p) if isinstance(p, str) and p.isspace() else p)
        self.set(raw=tuple(raw), pend=tuple(norm(pend)), line=len(raw), slots=k)

    def write_tokens(self, ps):
        eng, a = self.eng, self.st.attrs
        if a['pend'] != ():
            raise Unsupported('a line written partly in a loop')
        line, col, glue = a['line'], a['col'], a['glue']
        if self.flat:
            line, col = a['bol'], a['tok']
        blank = a['blank']
        if isinstance(blank, Poison) or isinstance(line, Poison) or isinstance(col, Poison) or isinstance(glue, Poison):
            raise Unsupported('position in the file')
        cur, pad, start = [], False, True

        def flush():
            nonlocal cur, col, line
            if cur:
                c = self.codes.setdefault(tuple(x if isinstance(x, str) else Num for x in cur), len(self.codes))
                vs = [x.value for x in cur if isinstance(x, Num)]
                if len(vs) > 1:
                    raise Unsupported('two numbers in one field')
                v = toz(vs[0], R) if vs else Fraction(0)
                if self.flat:
                    line = False
                self.store(self.fcode if self.flat else self.code, (col,) if self.flat else (line, col), c)
                self.store(self.fval if self.flat else self.val, (col,) if self.flat else (line, col), v)
                col = add(col, 1)
                cur = []

        def begin():
            if start and glue is not False or pad:
                eng.oblige('fields of a line are separated by a blank', b_and(not pad, b_not(glue) if start else True))
        for p in ps:
            if p is PAD:
                pad = pad or bool(cur)
                continue
            if isinstance(p, SymStr):
                raise Unsupported('unknown text written in a loop')
            for w in (re.split(r'(\n|[ \t]+)', p) if isinstance(p, str) else [p]):
                if w == '':
                    continue
                if w == '\n':
                    flush()
                    pad, start, glue = False, False, False
                    if self.flat:
                        blank, line = b_or(blank, line), True
                        continue
                    self.store(self.len, (line,), col)
                    line, col = add(line, 1), 0
                elif isinstance(w, str) and w.isspace():
                    flush()
                    pad, start, glue = False, False, False
                else:
                    begin()
                    pad, start = False, False
                    cur.append(w)
        g = bool(cur) or pad
        if cur:
            flush()
            glue = True
        elif not start:
            glue = g
        if self.flat:
            self.set(bol=line, tok=col, glue=glue, blank=blank)
        else:
            self.set(line=line, col=col, glue=glue)

    # reading
    def line_text(self, k):
        a = self.st.attrs
        if k < len(a['raw']):
            return make(a['raw'][k])
        if self.literal() and k == len(a['raw']):
            return make(a['pend'])
        if self.literal():
            return ''
        raise Unsupported('reading the body line by line')

    def body_tokens(self):
        """number of tokens of the body, all of them numbers, on lines that are not blank"""
        eng, a = self.eng, self.st.attrs
        if any(isinstance(a[n], Poison) for n in ('tok', 'blank', 'glue')):
            raise Unsupported('contents of the file')
        n = a['tok']
        k = eng.pv.sk('token')
        eng.oblige('the body of the file is not empty', cmp('>', n, 0))
        eng.oblige('no line of the body is blank', b_not(a['blank']))
        n0 = len(eng.pc)
        eng.pc += [k >= 0, toz(cmp('<', k, n))]
        eng.oblige('every field of the body is a number', cmp('==', self.fcode.fn((k,)), NUMBER))
        del eng.pc[n0:]
        return n

    def name_tokens(self):
        """the values of the tokens under a name (see unfold): what is done with them rarely depends on them"""
        f = self.eng.fresh.fn('TOKENS', I, R)
        self.named[f.name()] = self.fval.fn
        self.eng.heap.touch(self.fval)
        self.fval.fn = lambda idx: f(toz(idx[0], I))

    def unfold(self, t):
        """a term about named token values in terms of what was written"""
        while True:
            x = next((x for n in self.named for x in subapps(t, n)), None) if is_z(t) else None
            if x is None:
                return t
            t = z3.substitute(t, (x, toz(self.named[x.decl().name()]((x.arg(0),)), R)))

    def body(self, skip):
        """values of the lines from skip on: (rows, columns, value(i, k)); all fields are numbers, all lines equally long"""
        eng, a = self.eng, self.st.attrs
        if self.literal():
            raise Unsupported('the body was not written by a loop')
        for n in ('line', 'col', 'glue'):
            if isinstance(a[n], Poison):
                raise Unsupported('position in the file')
        if len(a['raw']) > skip:
            raise Unsupported('header lines in the body')
        line, col = a['line'], a['col']
        rows = sub(add(line, ite(cmp('>', col, 0), 1, 0)), skip)
        last = lambda i: cmp('==', add(i, skip), line)
        length = lambda i: ite(last(i), col, self.len.fn((add(i, skip),)))
        n = eng.unz_simp(length(0)) if hasattr(eng, 'unz_simp') else unz(simp(toz(length(0), I)))
        i, k = eng.pv.sk('row'), eng.pv.sk('field')
        n0 = len(eng.pc)
        eng.pc += [i >= 0, toz(cmp('<', i, rows)), k >= 0]
        eng.oblige('every line of the body has the same number of fields', cmp('==', length(i), n))
        eng.pc.append(toz(cmp('<', k, n)))
        eng.oblige('every field of the body is a number', cmp('==', self.code.fn((add(i, skip), k)), NUMBER))
        del eng.pc[n0:]
        return rows, n, lambda i, k: self.val.fn((add(i, skip), k))


def install(eng, cap, flat=False):
    """io.open / open of the one file, numpy.genfromtxt and the functions around it"""
    eng.disk = D = Disk(eng, cap, flat)
    X = eng.externals
    eng.pv.extra_axioms.append(axioms)

    def write(e, args, kw):
        o, s = args
        if o.attrs['mode'] != 'w':
            raise Raise('UnsupportedOperation')
        D.write(e.force(s))

    def readline(e, args, kw):
        o = args[0]
        if o.attrs['mode'] != 'r' or is_z(o.attrs['pos']):
            raise Unsupported('readline')
        k = o.attrs['pos']
        if k == 'end':
            return ''
        if isinstance(k, tuple):
            e.setattr(o, 'pos', 'used')
            return Span(D, *k)
        if k == 'used':
            raise Unsupported('two lines of the body read at once')
        e.setattr(o, 'pos', k + 1)
        return D.line_text(k)

    def readlines(e, args, kw):
        o, out = args[0], []
        while True:
            s = readline(e, [o], {})
            if s == '' and isinstance(s, str):
                return PList(e.heap, out)
            out.append(s)
    none = lambda e, args, kw: None
    cls = Cls('TextFile', dict(write=Prim('write', write), readline=Prim('readline', readline), readlines=Prim('readlines', readlines),
                               close=Prim('close', none), flush=Prim('flush', none)), [], Mod('io'))

    def open_(e, args, kw):
        b = dict(zip(('file', 'mode', 'buffering', 'encoding'), [e.force(a) for a in args]), **kw)
        m = b.get('mode', 'r').replace('t', '')
        if b['file'] is not eng.filename or m not in ('r', 'w'):
            raise Unsupported('open')
        if m == 'w':
            D.reset()
        elif not D.st.attrs['written']:
            raise Raise('FileNotFoundError')
        o = Obj(e.heap, cls, dict(mode=m, pos=0))
        D.file = o if m == 'r' else None
        return o
    eng.filename = SymStr('filename')
    X['io.open'] = Prim('open', open_)
    eng.np.BUILTINS['open'] = Prim('open', open_)
    X['os.path.basename'] = Prim('basename', lambda e, args, kw: SymStr('basename'))
    X['datetime.datetime.now'] = Prim('now', lambda e, args, kw: Obj(e.heap, Cls('datetime', dict(strftime=Prim('strftime', lambda e, a, k: SymStr('date'))), [], Mod('datetime'))))

    def genfromtxt(e, args, kw):
        for k in kw:
            if k not in ('skip_header', 'skip_footer'):
                raise Unsupported('genfromtxt ' + k)
        skip, foot = e.force(kw.get('skip_header', 0)), e.force(kw.get('skip_footer', 0))
        if e.force(args[0]) is not eng.filename or is_z(skip) or is_z(foot) or foot != 0:
            raise Unsupported('genfromtxt')
        r, c, v = D.body(skip)
        for n in (r, c):
            if not e.entails(cmp('>=', n, 2)):
                raise Unsupported('genfromtxt of a single row or column')
        return e.np.new((unz(simp(toz(r, I))), c), lambda idx: v(idx[0], idx[1]), 'f')
    X['numpy.genfromtxt'] = Prim('genfromtxt', genfromtxt)


# ------------------------------------------------------------ line by line
def at_body(eng):
    """the next line read is the first one written by a symbolic loop"""
    D = getattr(eng, 'disk', None)
    if D is None or not D.flat or getattr(D, 'file', None) is None or D.literal():
        return False
    p = D.file.attrs['pos']
    return isinstance(p, int) and p == len(D.st.attrs['raw']) and D.st.attrs['pend'] == ()


def while_lines(eng, body, where):
    """iterations of a `while True` loop, one for every line of the body.

    Invariant: the state after the lines with the tokens 0 .. s - 1 is the state after one line with these s tokens (up to
    variables that are havocked).  It is checked for any s and any length w of the next line; so the state after the whole body
    is that after one line with all of them."""
    from .interp import BreakSig
    from .loops import eq_elem
    D, f = eng.disk, eng.disk.file
    T_ = D.body_tokens()
    D.name_tokens()
    dead = {}

    def line(s, w):
        eng.setattr(f, 'pos', (s, w))
        body()
        if f.attrs['pos'] != 'used':
            raise Unsupported('a loop over lines that does not read a line')

    def kill():
        for ob, n in dead.values():
            eng.heap.touch(ob)
            if isinstance(ob, Cell):
                h = eng.fresh.fn('HAVOC', *([I] * len(ob.shape) + [R if ob.kind == 'f' else I if ob.kind == 'i' else B]))
                ob.fn = lambda idx, h=h: h(*[toz(i, I) for i in idx])
            else:
                (ob.vars if isinstance(ob, Frame) else ob.attrs)[n] = Poison('variable of a loop over lines')
    s, w = eng.fresh('s', I), eng.fresh('w', I)

    def two():
        line(0, s)
        kill()
        line(s, w)

    def one():
        line(0, add(s, w))

    def run(thunk):
        outs, mark = eng.explore(thunk)
        if not outs or any(o.kind not in ('ok', 'cont') for o in outs):
            raise Unsupported('loop over lines: %s' % sorted({o.kind for o in outs}))
        for o in outs:
            o.val = None
        return eng.merge_outcomes(outs, mark)[0], mark
    for _ in range(12):
        n0 = len(eng.pc)
        eng.pc += [s >= 1, w >= 1, toz(cmp('<=', add(s, w), T_))]
        eng.quiet += 1
        try:
            a, mark = run(two)
            b, _m = run(one)
            bad = []
            for k in set(a) | set(b):
                ob = (a.get(k) or b.get(k))[0]
                if ob.birth >= mark[1] or ob is f:
                    continue
                sa, sb = [m[k][1] if k in m else ob.get_state() for m in (a, b)]
                if isinstance(ob, Cell):
                    q = tuple(eng.pv.sk('q') for _ in ob.shape)
                    rng = [toz(x) for y, n in zip(q, ob.shape) for x in (0 <= y, cmp('<', y, n))]
                    if sa[0] is not sb[0] and not eq_elem(eng, sa[0](q), sb[0](q), eng.pc + rng):
                        bad.append((ob, None))
                elif isinstance(ob, (Frame, Obj)):
                    for n in set(sa) | set(sb):
                        x, y = sa.get(n), sb.get(n)
                        if n in sa and n in sb and (x is y or is_scalar(x) and is_scalar(y) and eq_elem(eng, x, y, eng.pc)):
                            continue
                        bad.append((ob, n))
                else:
                    raise Unsupported('a loop over lines that modifies a ' + type(ob).__name__)
        finally:
            eng.quiet -= 1
            del eng.pc[n0:]
        new = [x for x in bad if (id(x[0]), x[1]) not in dead]
        if not new:
            break
        for ob, n in new:
            dead[id(ob), n] = (ob, n)
    else:
        raise Unsupported('loop over lines')
    if not eng.quiet:
        from .interp import Obligation
        eng.obls.append(Obligation('the state after the lines read so far is that after one line with all their tokens (%s)' % eng.curfn, True, 'loop', where))
    line(0, T_)
    kill()
    eng.setattr(f, 'pos', 'end')
