"""Mechanical reading of the .pyx sources as Python (token level), on every run.

Kept: every statement, expression, call and condition.  Translated: 'cdef T a, b=e' -> 'a = cy_none("T"); b = cy_cast("T", e)';
typed parameters -> a cast on entry; assignments to typed names -> a cast; '&x' in a call -> cy_elem(x, i) for an element,
the value of x for a scalar with the scalars read back after the call (x = ...).  cimports become imports.
Dropped: nogil/noexcept, pointer arithmetic types, compile directives (their meaning, unchecked indexing without
wraparound, is the verifier's safety mode).
"""
import ast
import io
import re
import tokenize

TYPES = ('double', 'long', 'int', 'char', 'dict', 'float', 'bint', 'object', 'void', 'variogram_model_t', 'Py_ssize_t', 'size_t', 'str', 'list', 'tuple')


class PyxError(Exception):
    pass


def parse_decl(s):
    """'double [::1] zvalues = e' -> (type, rest)"""
    m = re.match(r'\s*(?:const\s+)?((?:unsigned\s+)?\w+(?:\s*\[[^\]]*:[^\]]*\])?)\s*(.*)$', s, re.S)
    t = re.sub(r'\s+', '', m.group(1))
    return t, m.group(2)


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        if c in ')]}':
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out


def logical_lines(src):
    """(indent, text) with comments removed and continuation lines joined"""
    lines, cur, depth, indent = [], '', 0, None
    toks = src.replace('\r\n', '\n').split('\n')
    for no, l in enumerate(toks, 1):
        body = strip_comment(l)
        if depth == 0:
            if not body.strip():
                continue
            indent, cur, start = len(body) - len(body.lstrip()), body.strip(), no
        else:
            cur += ' ' + body.strip()
        depth = bal(cur)
        if cur.endswith('\\'):
            cur = cur[:-1]
            depth = max(depth, 1)
            continue
        if depth == 0:
            lines.append((indent, cur, start))
    return lines


def strip_comment(l):
    q = None
    for i, c in enumerate(l):
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '#':
            return l[:i].rstrip()
    return l.rstrip()


def bal(s):
    q, d = None, 0
    for c in s:
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
    return d


def addr(s):
    """unary & -> ~ (there must be no other ~)"""
    if '~' in s:
        raise PyxError('~ in a pyx source')
    out, prev = '', ''
    for c in s:
        if c == '&' and (not prev or prev in '(,=[' or out.rstrip().endswith('return')):
            out += '~'
        else:
            out += c
        if not c.isspace():
            prev = c
    return out


HEAD = re.compile(r'^(cpdef|cdef|def)\s+(.*?)\b(\w+)\s*\((.*)\)\s*(?:(?:noexcept|nogil|with\s+gil|except\s*[^:]*)\s*)*:$', re.S)


def to_python(src):
    out = []
    types = {}
    pending = None          # casts to emit at the beginning of a body
    for indent, l, no in logical_lines(src):
        if pending is not None:
            for c in pending[1]:
                out.append((indent, c, pending[2]))
            pending = None
        if indent == 0:
            types = {}
        m = re.match(r'^from\s+([\w.]+)\s+cimport\s+(.*)$', l)
        if m:
            out.append((indent, 'from %s import %s' % m.groups(), no))
            continue
        if re.match(r'^cimport\s+numpy', l) or l.startswith('ctypedef') or re.match(r'^with\s+nogil\s*:', l):
            if l.startswith('with'):
                out.append((indent, 'if True:', no))
            continue
        m = re.match(r'^cimport\s+(.*)$', l)
        if m:
            out.append((indent, 'import ' + m.group(1), no))
            continue
        m = HEAD.match(l)
        if m:
            names, casts, types = [], [], {}
            for p in split_top(m.group(4)):
                p = p.strip()
                if not p:
                    continue
                d = ''
                if '=' in p:
                    p, d = p.split('=', 1)
                    d = '=' + d
                t, rest = parse_decl(p)
                if rest.strip():
                    nm = rest.strip()
                    types[nm] = t
                    casts.append('%s = cy_cast(%r, %s)' % (nm, t, nm))
                else:
                    nm = p.strip()
                names.append(nm + d)
            out.append((indent, 'def %s(%s):' % (m.group(3), ', '.join(names)), no))
            pending = (None, casts, no)
            cur_types = types
            continue
        if l.startswith('cdef '):
            t, rest = parse_decl(l[5:])
            for item in split_top(rest):
                item = item.strip()
                nm, _, e = item.partition('=')
                nm = nm.strip()
                types[nm] = t
                if e:
                    out.append((indent, '%s = cy_cast(%r, %s)' % (nm, t, addr(e.strip())), no))
                else:
                    out.append((indent, '%s = cy_none(%r)' % (nm, t), no))
            continue
        l = addr(l)
        m = re.match(r'^(\w+)\s*=(?!=)\s*(.*)$', l, re.S)
        if m and m.group(1) in types:
            out.append((indent, '%s = cy_cast(%r, %s)' % (m.group(1), types[m.group(1)], m.group(2)), no))
            continue
        out.append((indent, l, no))
    text, line = '', 1
    for indent, l, no in out:
        # keep the line numbers of the source where possible
        while line < no:
            text += '\n'
            line += 1
        text += ' ' * indent + l + '\n'
        line += 1
    return text


class Refs(ast.NodeTransformer):
    """f(~x, ~(a[i])) as a statement -> x, .. = cy_call(f, (positions of x ..), x, cy_elem(a, i))"""

    def visit_Expr(self, st):
        v = st.value
        if isinstance(v, ast.Call) and any(isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.Invert) for a in v.args):
            refs, args = [], []
            for k, a in enumerate(v.args):
                if isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.Invert):
                    o = a.operand
                    if isinstance(o, ast.Name):
                        refs.append((k, o.id))
                        args.append(o)
                    elif isinstance(o, ast.Subscript):
                        args.append(ast.Call(ast.Name('cy_elem', ast.Load()), [o.value, o.slice], []))
                    else:
                        raise PyxError('address of an expression')
                else:
                    args.append(a)
            call = ast.Call(ast.Name('cy_call', ast.Load()), [v.func, ast.Constant(tuple(k for k, _ in refs))] + args, [])
            if refs:
                st = ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for _, n in refs], ast.Store())], call)
            else:
                st = ast.Expr(call)
            return st
        return self.generic_visit(st)

    def visit_UnaryOp(self, v):
        self.generic_visit(v)
        if isinstance(v.op, ast.Invert):
            if isinstance(v.operand, ast.Name):
                return v.operand          # &function
            raise PyxError('address taken outside a call')
        return v


def load(path):
    with open(path, newline='') as f:
        t = ast.parse(to_python(f.read()))
    t = Refs().visit(t)
    ast.fix_missing_locations(t)
    for node in ast.walk(t):
        if hasattr(node, 'lineno') and not hasattr(node, 'end_lineno'):
            node.end_lineno = node.lineno
    return t


if __name__ == '__main__':
    import sys
    print(to_python(open(sys.argv[1]).read()))
    print(ast.unparse(load(sys.argv[1]))[-1500:])
