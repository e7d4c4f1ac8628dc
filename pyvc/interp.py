"""Symbolic interpreter for the Python subset used by PyKrige.

Every run parses the current source files; nothing of the analysed package is
imported or executed.  Function bodies are executed symbolically for all values
of their (symbolic) arguments; branches fork (or merge), loops over symbolic
ranges are replaced by an inferred closed form that is then checked to be
inductive by executing one arbitrary iteration.
"""
import ast
import builtins
import os
from fractions import Fraction
import z3
from .terms import *
from . import terms as T
from .values import *
from .values import _same
from .prover import Prover
from . import textio


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Infeasible(Exception):
    pass


def _same_cond(a, b):
    return is_z(a) and is_z(b) and a.eq(b) or (not is_z(a) and not is_z(b) and a == b)


class Unmergeable(Exception):
    pass


class Ctx:
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken = list(prefix), 0, []


class Outcome:
    def __init__(self, kind, val, conds, delta):
        self.kind, self.val, self.conds, self.delta = kind, val, conds, delta


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


class Obligation:
    def __init__(self, name, ok, why, pos, goal=None):
        self.name, self.ok, self.why, self.pos, self.goal = name, ok, why, pos, goal


SILENT = ('print', 'cy_none', 'basename', 'strftime', 'now',     # the result does not depend on them, or is arbitrary
           'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'numpy.errstate', 'numpy.seterr')


class SeenArgs(list):
    """arguments of a modelled function; what it never looks at is noticed"""

    def __init__(self, xs):
        list.__init__(self, xs)
        self.seen = set()

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen.update(range(len(self))[i])
        else:
            self.seen.add(i if i >= 0 else len(self) + i)
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen.update(range(len(self)))
        return list.__iter__(self)

    def __add__(self, o):
        self.seen.update(range(len(self)))
        return list.__add__(self, o)


class SeenKw(dict):
    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.seen.discard(k)
        return dict.pop(self, k, *d)

    def __iter__(self):
        self.seen.update(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.seen.update(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.seen.update(dict.keys(self))
        return dict.items(self)

    def values(self):
        self.seen.update(dict.keys(self))
        return dict.values(self)


class Engine:
    def __init__(self, src, modules=None, rlimit=4000000):
        self.src = src
        self.heap = Heap()
        self.pv = Prover(rlimit)
        self.pc = []
        self.ctxs = []
        self.fresh = Fresh()
        self.mods = {}
        self.contracts = {}        # qualname -> callable spec(engine, args, kwargs) -> value or raises
        self.used_contracts = set()
        self.inlined = set()
        self.obls = []
        self._obl_seen = {}
        self.quiet = 0
        self.symloop = 0           # inside a loop over a symbolic range
        self.disk = None           # text file model (textio)
        self.depth = 0
        self.pos = None
        self.curfn = None
        self.loops = {}            # pos -> note
        self.notes = []
        self.externals = modules or {}
        self.factories = {}        # Cls -> callable(engine, args, kwargs) -> the new object
        self.frame_violations = []
        self.nomerge = set()
        self.paths = 0
        self.pyx = set()           # modules read from .pyx sources
        self.safety = False
        self.missing = set()       # packages that are not installed

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, hint=None):
        """prove goal under the current path condition"""
        if self.quiet:
            return True
        goal = unz(goal)
        gid = goal.get_id() if is_z(goal) else goal
        key = (name, gid, tuple(p.get_id() for p in self.pc))
        if key in self._obl_seen:
            return self._obl_seen[key]
        ok, why = self.pv.prove(goal, self.pc)
        self._obl_seen[key] = ok
        self.pv.keep.append((goal, tuple(self.pc)))
        self.obls.append(Obligation(name, ok, why, self.pos, None if ok else str(goal)[:600]))
        return ok

    def fail(self, name, why):
        if not self.quiet:
            self.obls.append(Obligation(name, False, why, self.pos))

    def assume(self, c):
        c = simp(toz(c))
        if z3.is_true(c):
            return
        self.pc.append(c)

    def entails(self, c):
        if isinstance(c, bool):
            return c
        return self.pv.entails(self.pc, c)

    # ------------------------------------------------------------ forking
    def choose(self, conds):
        """fork on mutually exclusive conditions; returns the index taken"""
        live = []
        for i, c in enumerate(conds):
            if c is False:
                continue
            if c is not True and self.pv.entails(self.pc, b_not(c)):
                continue
            live.append(i)
        if not live:
            raise Infeasible()
        if len(live) == 1:
            i = live[0]
            if conds[i] is not True and not self.entails(conds[i]):
                self.assume(conds[i])
            return i
        ctx = self.ctxs[-1]
        if ctx.pos < len(ctx.prefix):
            i = ctx.prefix[ctx.pos]
        else:
            i = live[0]
        ctx.pos += 1
        ctx.taken.append((i, live))
        if conds[i] is not True:
            self.assume(conds[i])
        return i

    def decide(self, c):
        c = unz(simp(truth(c)))
        if isinstance(c, bool):
            return c
        return self.choose([c, b_not(c)]) == 0

    def explore(self, thunk, limit=4000):
        mark = self.heap.mark()
        n0 = len(self.pc)
        results, stack = [], [()]
        while stack:
            prefix = stack.pop()
            ctx = Ctx(prefix)
            self.ctxs.append(ctx)
            kind, val = 'ok', None
            saved = (self.depth, self.curfn, self.safety)
            try:
                val = thunk()
            except ReturnSig as e:
                kind, val = 'ret', e.v
            except BreakSig:
                kind = 'break'
            except ContinueSig:
                kind = 'cont'
            except Raise as e:
                kind, val = 'raise', e
            except Infeasible:
                kind = None
            finally:
                self.ctxs.pop()
            self.depth, self.curfn, self.safety = saved
            conds = self.pc[n0:]
            del self.pc[n0:]
            for t in range(len(prefix), len(ctx.taken)):
                i, live = ctx.taken[t]
                for alt in live:
                    if alt != i:
                        stack.append(tuple(x[0] for x in ctx.taken[:t]) + (alt,))
            if kind is not None:
                results.append(Outcome(kind, val, conds, self.heap.delta(mark)))
            self.heap.restore(mark)
            if len(results) > limit:
                raise Unsupported("too many paths")
        return results, mark

    def install(self, delta):
        for o, s in delta.values():
            self.heap.touch(o)
            o.set_state(s)

    # ------------------------------------------------------------ merging
    def merge_outcomes(self, outs, mark):
        """one state for several normal outcomes (raises Unmergeable)"""
        if len(outs) == 1:
            return outs[0].delta, outs[0].val
        objs = {}
        for o in outs:
            for k, (ob, st) in o.delta.items():
                objs[k] = ob
        conds = [b_and(*self.apart(o, outs[k + 1:])) for k, o in enumerate(outs)]
        merged = {}
        for k, ob in objs.items():
            if ob.birth >= mark[1]:
                sts = [o.delta[k][1] for o in outs if k in o.delta]
                if len(sts) == 1:
                    merged[k] = (ob, sts[0])
                    continue
            base = ob.get_state()
            sts = [o.delta[k][1] if k in o.delta else base for o in outs]
            st = sts[-1]
            for c, s in reversed(list(zip(conds[:-1], sts[:-1]))):
                st = self.merge_state(ob, c, s, st)
            merged[k] = (ob, st)
        v = outs[-1].val
        for c, o in reversed(list(zip(conds[:-1], outs[:-1]))):
            v = self.merge_val(c, o.val, v)
        return merged, v

    def apart(self, o, others):
        """the decisions that separate one outcome from the others (one of them is taken)"""
        out = []
        for p in others:
            k = 0
            while k < len(o.conds) and k < len(p.conds) and (o.conds[k] is p.conds[k] or _same_cond(o.conds[k], p.conds[k])):
                k += 1
            if k >= len(o.conds) or k >= len(p.conds):
                return o.conds
            a, b = o.conds[k], p.conds[k]
            if not z3.is_false(simp(z3.And(toz(a, B), toz(b, B)))) and not self.pv.entails(self.pc, simp(z3.Not(z3.And(toz(a, B), toz(b, B))))):
                return o.conds
            if not any(_same_cond(a, x) for x in out):
                out.append(a)
        return out

    def merge_state(self, ob, c, a, b):
        if isinstance(ob, Cell):
            if a[0] is b[0]:
                return a
            fa, fb = a[0], b[0]
            return (lambda idx, c=c, fa=fa, fb=fb: self.merge_elem(c, fa(idx), fb(idx)), a[1] or b[1])
        if isinstance(ob, PList):
            if not _same(a[0], b[0]) or len(a[2]) != len(b[2]) or a[1] is not b[1]:
                raise Unmergeable("list")
            return (a[0], a[1], tuple(self.merge_val(c, x, y) for x, y in zip(a[2], b[2])))
        if isinstance(ob, PDict):
            da, db = a[0], b[0]
            if set(da) != set(db):
                raise Unmergeable("dict")
            return ({k: self.merge_val(c, da[k], db[k]) for k in da}, a[1])
        if isinstance(ob, (Frame, Obj)):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                if k not in a or k not in b:
                    out[k] = Choice(c, a.get(k, Poison('unbound ' + k)), b.get(k, Poison('unbound ' + k)))
                else:
                    out[k] = self.merge_val(c, a[k], b[k])
            return out
        raise Unmergeable(str(type(ob)))

    def merge_elem(self, c, x, y):
        if isinstance(x, NV) or isinstance(y, NV):
            x = x if isinstance(x, NV) else NV(False, x)
            y = y if isinstance(y, NV) else NV(False, y)
            return NV(ite(c, x.flag, y.flag), ite(c, x.val, y.val))
        return ite(c, x, y)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if is_scalar(a) and is_scalar(b) and not isinstance(a, float) and not isinstance(b, float):
            if not is_z(a) and not is_z(b) and type(a) is type(b) and a == b:
                return a
            sa, sb = sortof(a), sortof(b)
            if sa == sb:
                return ite(c, a, b)
            return Choice(c, a, b)
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.cell is b.cell and a.axes == b.axes and len(a.shape) == len(b.shape):
            if all(_same(x, y) for x, y in zip(a.shape, b.shape)):
                return a
            return Arr(a.cell, a.axes, tuple(x if _same(x, y) else ite(c, x, y) for x, y in zip(a.shape, b.shape)))
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.obj is b.obj:
            return a
        return Choice(c, a, b)

    def force(self, v):
        while isinstance(v, Choice):
            v = v.a if self.decide(v.cond) else v.b
        if isinstance(v, Poison):
            raise Unsupported("use of untracked value: " + v.why)
        return v

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = Mod(name, {})
        base = os.path.join(self.src, *name.split('.'))
        if os.path.exists(base + '.pyx'):
            from . import pyxload, cymodel
            try:
                tree = pyxload.load(base + '.pyx')
            except (pyxload.PyxError, SyntaxError) as e:
                raise Unsupported('%s.pyx: %s' % (name, e))
            m.glob.update(cymodel.GLOB)
            self.pyx.add(name)
        else:
            path = base + '.py' if os.path.exists(base + '.py') else os.path.join(base, '__init__.py')
            with open(path, newline='') as f:
                tree = ast.parse(f.read().replace('\r\n', '\n'))
        self.mods[name] = m
        m.tree = tree
        m.glob['__name__'] = name
        saved = (self.pc, self.ctxs, self.quiet)
        jr, self.heap.journal = self.heap.journal, []
        self.pc, self.ctxs = [], [Ctx(())]
        fr = Frame(self.heap, m)
        fr.vars = m.glob
        self.exec_block(tree.body, fr)
        self.pc, self.ctxs, self.quiet = saved
        self.heap.journal = jr
        return m

    def import_name(self, modname, attr):
        """resolve 'from modname import attr'"""
        if modname.startswith('pykrige'):
            p = os.path.join(self.src, *(modname + '.' + attr).split('.'))
            if os.path.exists(p + '.py') or os.path.exists(p + '.pyx'):
                return self.module(modname + '.' + attr)
            m = self.module(modname)
            if attr not in m.glob:
                raise Unsupported("import %s from %s" % (attr, modname))
            return m.glob[attr]
        full = modname + '.' + attr
        if modname.split('.')[0] in self.missing:
            raise Raise('ImportError', full)
        return self.ext(full)

    def ext(self, full):
        if full in self.externals:
            return self.externals[full]
        if any(k.startswith(full + '.') for k in self.externals):
            return Mod(full)
        return Prim(full, lambda eng, args, kw, full=full: (_ for _ in ()).throw(Unsupported("external " + full)))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.pos = (self.curfn, getattr(st, 'lineno', 0))
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        m(st, fr)

    def setvar(self, fr, name, v):
        self.heap.touch(fr)
        fr.vars[name] = v

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Global(self, st, fr):
        raise Unsupported("global statement")

    def x_Return(self, st, fr):
        raise ReturnSig(self.eval(st.value, fr) if st.value else None)

    def x_Break(self, st, fr):
        raise BreakSig()

    def x_Continue(self, st, fr):
        raise ContinueSig()

    def x_Raise(self, st, fr):
        if st.exc is None:
            raise Raise('reraise')
        e = st.exc
        if isinstance(e, ast.Call):
            name = self.eval(e.func, fr)
        else:
            name = self.eval(e, fr)
        nm = name.name if isinstance(name, (TypeV, Cls, Prim)) else str(name)
        raise Raise(nm, pos=self.pos)

    def x_Assert(self, st, fr):
        if not self.decide(self.truthv(self.eval(st.test, fr))):
            raise Raise('AssertionError')

    def x_Import(self, st, fr):
        for a in st.names:
            top = a.name.split('.')[0]
            if a.asname:
                self.setvar(fr, a.asname, self.get_mod(a.name))
            else:
                self.setvar(fr, top, self.get_mod(top))

    def get_mod(self, name):
        if name.startswith('pykrige'):
            return self.module(name)
        if name.split('.')[0] in self.missing:
            raise Raise('ImportError', name)
        return Mod(name)

    def x_ImportFrom(self, st, fr):
        mod = st.module or ''
        if st.level:
            base = fr.glob.name.split('.')
            base = base[:len(base) - st.level]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            self.setvar(fr, a.asname or a.name, self.import_name(mod, a.name))

    def x_FunctionDef(self, st, fr):
        defaults = [self.eval(d, fr) for d in st.args.defaults]
        kwd = {a.arg: self.eval(d, fr) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        parent = None if fr.vars is fr.glob.glob else fr
        qual = fr.glob.name + '.' + st.name if not getattr(fr, 'clsname', None) else fr.glob.name + '.' + fr.clsname + '.' + st.name
        f = Func(st, fr.glob, parent, qual, defaults, kwd)
        for d in st.decorator_list:
            dv = self.eval(d, fr)
            if isinstance(dv, TypeV) and dv.name in ('staticmethod', 'classmethod', 'property'):
                f = (dv.name, f)
            else:
                raise Unsupported("decorator")
        self.setvar(fr, st.name, f)

    def x_ClassDef(self, st, fr):
        bases = [self.eval(b, fr) for b in st.bases]
        cf = Frame(self.heap, fr.glob, fr if fr.vars is not fr.glob.glob else None)
        cf.clsname = st.name
        self.exec_block(st.body, cf)
        c = Cls(st.name, dict(cf.vars), bases, fr.glob)
        for v in c.attrs.values():
            if isinstance(v, Func):
                v.cls = c
        self.setvar(fr, st.name, c)

    def x_Delete(self, st, fr):
        raise Unsupported("del")

    def x_Try(self, st, fr):
        try:
            self.exec_block(st.body, fr)
        except Raise as e:
            for h in st.handlers:
                if h.type is None or self.exc_match(e, self.eval(h.type, fr)):
                    if h.name:
                        self.setvar(fr, h.name, Poison('exception object'))
                    self.exec_block(h.body, fr)
                    break
            else:
                self.exec_block(st.finalbody, fr)
                raise
        else:
            self.exec_block(st.orelse, fr)
        self.exec_block(st.finalbody, fr)

    EXC_PARENT = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
                  'UFuncTypeError': 'TypeError', 'TypeError': 'Exception', 'ValueError': 'Exception',
                  'ImportError': 'Exception', 'IOError': 'Exception', 'OSError': 'Exception',
                  'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'AttributeError': 'Exception',
                  'LinAlgError': 'ValueError'}

    def exc_match(self, e, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            nm = x.name
            k = e.kind
            while k is not None:
                if k == nm:
                    return True
                k = self.EXC_PARENT.get(k, 'Exception' if k != 'Exception' else None)
        return False

    def x_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            old = self.force(self.eval(ast.Name(t.id, ast.Load()), fr))
            v = self.eval(st.value, fr)
            if isinstance(old, (Arr, MArr)):
                self.np.inplace(self, op, old, self.force(v))
                return
            if isinstance(old, PList) and op == '+':
                old.heap.touch(old)
                self.list_mut(old)
                old.items.extend(self.iter_concrete(v))
                return
            self.setvar(fr, t.id, self.binop(op, old, v))
            return
        if isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, fr))
            old = self.force(self.getattr(o, t.attr))
            v = self.eval(st.value, fr)
            if isinstance(old, (Arr, MArr)):
                self.np.inplace(self, op, old, self.force(v))
                return
            self.setattr(o, t.attr, self.binop(op, old, v))
            return
        if isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, fr))
            ix = self.eval_index(t.slice, fr)
            old = self.force(self.getitem(o, ix))
            v = self.force(self.eval(st.value, fr))
            self.setitem(o, ix, self.binop(op, old, v))
            return
        raise Unsupported("augassign")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            items = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, items):
                self.assign(a, b, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.force(self.eval(t.value, fr)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, fr))
            self.setitem(o, self.eval_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Raise('ValueError')
            return list(v)
        if isinstance(v, PList) and v.concrete:
            if len(v.items) != n:
                raise Raise('ValueError')
            return list(v.items)
        if isinstance(v, Arr):
            if not self.decide(cmp('==', v.shape[0], n)):
                raise Raise('ValueError')
            return [self.np.index(self, v, (i,)) for i in range(n)]
        raise Unsupported("unpack %s" % type(v).__name__)

    # ---- if
    def x_If(self, st, fr):
        c = self.truthv(self.eval(st.test, fr))
        c = unz(simp(c))
        if isinstance(c, bool):
            return self.exec_block(st.body if c else st.orelse, fr)
        if self.entails(c):
            return self.exec_block(st.body, fr)
        if self.entails(b_not(c)):
            return self.exec_block(st.orelse, fr)
        key = (id(st), len(self.ctxs))
        if not self.has_abrupt(st) or True:
            def arms():
                if self.decide(c):
                    self.exec_block(st.body, fr)
                else:
                    self.exec_block(st.orelse, fr)
            outs, mark = self.explore(arms)
            self.join(outs, mark)
            return
        if self.decide(c):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def has_abrupt(self, st):
        return False

    def join(self, outs, mark, value=False):
        """continue after a sub-exploration: merge normal outcomes, fork over the rest"""
        normal = [o for o in outs if o.kind == 'ok']
        other = [o for o in outs if o.kind != 'ok']
        groups = []
        if normal:
            try:
                d, v = self.merge_outcomes(normal, mark)
                groups.append(('ok', v, b_or(*[b_and(*o.conds) for o in normal]), d))
            except Unmergeable:
                for o in normal:
                    groups.append(('ok', o.val, b_and(*o.conds), o.delta))
        # merge identical raises
        rs = {}
        for o in other:
            if o.kind == 'raise':
                rs.setdefault(o.val.kind, []).append(o)
            else:
                groups.append((o.kind, o.val, b_and(*o.conds), o.delta))
        for k, os_ in rs.items():
            groups.append(('raise', os_[0].val, b_or(*[b_and(*o.conds) for o in os_]), os_[0].delta if len(os_) == 1 else {}))
        if not groups:
            raise Infeasible()
        if len(groups) == 1:
            i = 0
            if len(outs) == 1:
                for c in outs[0].conds:
                    self.assume(c)
        else:
            i = self.choose([simp(toz(g[2])) for g in groups])
        kind, v, _, d = groups[i]
        self.install(d)
        if kind == 'ok':
            return v
        if kind == 'ret':
            raise ReturnSig(v)
        if kind == 'break':
            raise BreakSig()
        if kind == 'cont':
            raise ContinueSig()
        raise v

    # ---- loops
    def x_While(self, st, fr):
        for _ in range(64):
            c = unz(simp(self.truthv(self.eval(st.test, fr))))
            if not isinstance(c, bool):
                raise Unsupported("while with symbolic condition")
            if not c:
                return
            if textio.at_body(self):
                if not isinstance(st.test, ast.Constant):
                    raise Unsupported("while over the lines of a file with a condition")
                textio.while_lines(self, lambda: self.loop_body(st.body, fr), '%s:%s' % (self.curfn, st.lineno))
                continue
            try:
                self.exec_block(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        raise Unsupported("while loop")

    def loop_body(self, body, fr):
        try:
            self.exec_block(body, fr)
        except ContinueSig:
            pass
        except BreakSig:
            raise Unsupported("break in a loop over the lines of a file")

    def x_For(self, st, fr):
        it = self.force(self.eval(st.iter, fr))
        dom = self.iter_domain(it)
        if dom[0] == 'concrete':
            first = True
            for v in dom[1]:
                if not first and isinstance(dom[1], Watched):
                    dom[1].check()
                first = False
                try:
                    self.assign(st.target, v, fr)
                    self.exec_block(st.body, fr)
                except BreakSig:
                    return
                except ContinueSig:
                    continue
            if isinstance(dom[1], Watched):
                dom[1].check(True)
            self.exec_block(st.orelse, fr)
            return
        _, N, elem, guard = dom
        from .loops import summarize
        summarize(self, N, guard, lambda j: (self.assign(st.target, elem(j), fr), self.exec_block(st.body, fr)), st)
        self.exec_block(st.orelse, fr)

    def iter_domain(self, it):
        if isinstance(it, RangeV):
            lo, hi, step = it.lo, it.hi, it.step
            if not any(is_z(x) for x in (lo, hi, step)):
                r = range(lo, hi, step)
                if len(r) <= 64:
                    return ('concrete', list(r))
            if is_z(step):
                raise Unsupported("symbolic range step")
            if step == 1:
                n = sub(hi, lo)
                n = unz(simp(n))
                if not is_z(n) and n <= 16:
                    return ('concrete', [add(lo, i) for i in range(max(n, 0))])
                if not self.entails(cmp('>=', n, 0)):
                    n = ite(cmp('>=', n, 0), n, 0)
                return ('sym', n, lambda j: add(lo, j), None)
            if step == -1:
                n = unz(simp(sub(lo, hi)))
                if not is_z(n) and n <= 16:
                    return ('concrete', [sub(lo, i) for i in range(max(n, 0))])
                if not self.entails(cmp('>=', n, 0)):
                    n = ite(cmp('>=', n, 0), n, 0)
                return ('sym', n, lambda j: sub(lo, j), None)
            raise Unsupported("range step")
        if isinstance(it, tuple):
            return ('concrete', list(it))
        if isinstance(it, str):
            return ('concrete', list(it))
        if isinstance(it, PList):
            if it.concrete:
                out = Watched(it.items)
                out.watch = list(it.watch)
                out.lists = [(it, list(it.items))]
                return ('concrete', out)
            if not it.items:
                e = it.elem
                return ('sym', it.n, lambda j: e(j), None)
            raise Unsupported("iteration over a mixed list")
        if isinstance(it, PDict):
            return ('concrete', list(it.d))
        if isinstance(it, KeysV):
            return ('concrete', list(it.d.d))
        if isinstance(it, Arr):
            # the array is read while the loop runs: rows are views, numbers are read when their turn comes
            n = it.shape[0]
            if not is_z(n) and n <= 16:
                out = Watched(self.np.index(self, it, (i,)) for i in range(n))
                if it.ndim == 1:
                    out.watch = [(it.cell, it.cell.fn)]
                return ('concrete', out)
            return ('sym', n, lambda j: self.np.index(self, it, (j,)), None)
        if isinstance(it, FArr):
            if len(it.dom) == 1:
                return ('sym', it.dom[0], lambda j: it.val((j,)), lambda j: it.cond((j,)))
        if isinstance(it, tuple('x')) if False else False:
            pass
        raise Unsupported("iteration over %s" % type(it).__name__)

    def iter_concrete(self, v):
        d = self.iter_domain(self.force(v))
        if d[0] != 'concrete':
            raise Unsupported("symbolic iteration")
        return d[1]

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def ev(self, e, fr):
        return self.force(self.eval(e, fr))

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return lit(v)
        return v

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.vars:
                v = f.vars[e.id]
                if isinstance(v, Choice):
                    v = self.force(v)
                    self.setvar(f, e.id, v)
                return v
            f = f.parent
        g = fr.glob.glob
        if e.id in g:
            return g[e.id]
        b = self.np.BUILTINS.get(e.id)
        if b is not None:
            return b
        if hasattr(builtins, e.id):
            raise Unsupported("builtin " + e.id)
        raise Raise('NameError', e.id)

    def e_Tuple(self, e, fr):
        return tuple(self.eval(x, fr) for x in e.elts)

    def e_List(self, e, fr):
        return PList(self.heap, [self.eval(x, fr) for x in e.elts])

    def e_Dict(self, e, fr):
        return PDict(self.heap, {self.ev(k, fr): self.eval(v, fr) for k, v in zip(e.keys, e.values)})

    def e_Set(self, e, fr):
        return tuple(self.eval(x, fr) for x in e.elts)

    def e_JoinedStr(self, e, fr):
        out, bad = [], False
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
                continue
            v = self.eval(x.value, fr)
            spec = x.format_spec
            try:
                if x.conversion != -1 or spec is not None and not all(isinstance(y, ast.Constant) for y in spec.values):
                    raise Unsupported("f-string")
                out += textio.fmt_value(textio.known(self, self.force(v)), ''.join(y.value for y in spec.values) if spec is not None else '')
            except Unsupported:
                out.append(('v', v))
                bad = True
        r = FmtStr(out)
        r.opaque = bad
        return r if bad else textio.make([r])

    def e_Lambda(self, e, fr):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(e.body, lineno=e.lineno)], decorator_list=[], lineno=e.lineno)
        return Func(node, fr.glob, fr, fr.glob.name + '.<lambda>@%d' % e.lineno, [self.eval(d, fr) for d in e.args.defaults], {})

    def e_IfExp(self, e, fr):
        c = unz(simp(self.truthv(self.eval(e.test, fr))))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        if self.decide(c):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None                # conjunction/disjunction of the Boolean operands so far
        kept = []                 # what was decided while later operands were evaluated
        mark = len(self.pc)
        last = len(e.values) - 1
        try:
            for i, x in enumerate(e.values):
                n0 = len(self.pc)
                try:
                    v = self.force(self.ev(x, fr))
                finally:
                    new = self.pc[n0:]
                    if acc is None:
                        mark = len(self.pc)
                    elif new:
                        kept.append(simp(z3.Implies(toz(acc if isand else b_not(acc)), z3.And(*new))))
                if i == last and acc is None:
                    return v
                if not (isinstance(v, bool) or is_z(v) and v.sort() == B):
                    # the value of the expression is one of the operands
                    if acc is not None:
                        del self.pc[mark:]
                        self.pc += kept
                        kept = []
                        go = self.decide(acc) == isand
                        mark = len(self.pc)
                        if not go:
                            return not isand
                        acc = None
                    if i == last:
                        return v
                    go = self.decide(self.truthv(v)) == isand
                    mark = len(self.pc)
                    if not go:
                        return v
                    continue
                c = unz(simp(self.truthv(v)))
                if isinstance(c, bool):
                    if c != isand:
                        return (v if acc is None else (False if isand else True))
                    continue
                acc = c if acc is None else (b_and(acc, c) if isand else b_or(acc, c))
                # short circuit: later operands are evaluated only when needed
                if i < last:
                    g = c if isand else b_not(c)
                    if self.pv.entails(self.pc, b_not(g)):
                        return acc
                    if not self.pv.entails(self.pc, g):
                        self.pc.append(simp(toz(g)))
        finally:
            del self.pc[mark:]
            self.pc += kept
        return acc if acc is not None else isand

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return b_not(self.truthv(v))
        if isinstance(e.op, ast.USub):
            return self.np.unary(self, 'neg', v)
        if isinstance(e.op, ast.Invert):
            return self.np.unary(self, 'invert', v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def e_BinOp(self, e, fr):
        return self.binop(BINOPS[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if op == '%' and isinstance(a, str):
            r = FmtStr([a, b])
            r.opaque = True
            return r
        if op == '+' and (isinstance(a, (str, FmtStr, SymStr)) or isinstance(b, (str, FmtStr, SymStr))):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return FmtStr([a, b])
        if isinstance(a, PList) and op == '*':
            if a.concrete and isinstance(b, int):
                return PList(self.heap, a.items * b)
            raise Unsupported("list * symbolic")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, PList) and isinstance(b, PList) and op == '+':
            if a.concrete and b.concrete:
                return PList(self.heap, a.items + b.items)
            if b.concrete:
                return PList(self.heap, a.items + b.items, a.n, a.elem)
            raise Unsupported("list concat")
        if op in ('//', '%', '/') and is_z(b) and b.sort() == I:
            if self.decide(b == 0):
                raise Raise('ZeroDivisionError')
        return self.np.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            acc = b_and(acc, self.truthv(v))
            left = right
        return acc

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            return r if isinstance(op, ast.Is) else b_not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else b_not(r)
        o = CMPOPS[type(op)]
        if (isinstance(a, NV) or isinstance(b, NV)) and (isinstance(a, NV) or is_scalar(a)) and (isinstance(b, NV) or is_scalar(b)):
            # a comparison with nan is false (!=: true)
            nan = b_or(*[v.flag for v in (a, b) if isinstance(v, NV)])
            r = cmp(o, *[v.val if isinstance(v, NV) else v for v in (a, b)])
            return b_or(nan, r) if o == '!=' else b_and(b_not(nan), r)
        if isinstance(a, (Arr, MArr, FArr)) or isinstance(b, (Arr, MArr, FArr)):
            return self.np.binop(self, o, a, b)
        if o in ('==', '!='):
            r = self.equals(a, b)
            return r if o == '==' else b_not(r)
        if is_scalar(a) and is_scalar(b):
            return cmp(o, a, b)
        if isinstance(a, PList) and isinstance(b, PList) and a.concrete and b.concrete or isinstance(a, tuple) and isinstance(b, tuple):
            xs, ys = [list(v) if isinstance(v, tuple) else list(v.items) for v in (a, b)]
            # lexicographic
            r = {'<': len(xs) < len(ys), '<=': len(xs) <= len(ys), '>': len(xs) > len(ys), '>=': len(xs) >= len(ys)}[o]
            for x, y in reversed(list(zip(xs, ys))):
                e, t = self.equals(x, y), self.compare(op, self.force(x), self.force(y)) if o in '<>' else None
                if t is None:
                    t = self.compare(ast.Lt() if o == '<=' else ast.Gt(), self.force(x), self.force(y))
                r = b_or(t, b_and(e, r))
            return r
        if a is None or b is None:
            raise Raise('TypeError')
        raise Unsupported("compare %s %s" % (type(a).__name__, type(b).__name__))

    def is_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            return False
        if isinstance(a, Member) and isinstance(b, Member):
            if a.i is None or b.i is None:
                raise Unsupported("identity of objects made in a loop")
            return a.fam is b.fam and cmp('==', a.i, b.i)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        if is_z(a) and a.sort() == B and isinstance(b, bool) or is_z(b) and b.sort() == B and isinstance(a, bool):
            return self.equals(a, b)
        return False

    def equals(self, a, b):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if a is b:
                return True
            if any(isinstance(x, textio.Span) for x in (a, b)):
                if '' in (a, b):
                    return False
                raise Unsupported("comparison of a line of text")
            if isinstance(a, SymStr) and isinstance(b, SymStr):
                return a.code == b.code
            s, o = (a, b) if isinstance(a, SymStr) else (b, a)
            if isinstance(o, str):
                return s.code == str_code(o)
            return False
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if isinstance(a, FmtStr) or isinstance(b, FmtStr):
                raise Unsupported("string compare")
            return False
        if a is None or b is None:
            return a is b
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if isinstance(a, PList):
                if not (a.concrete and b.concrete):
                    raise Unsupported("list equality")
                a, b = a.items, b.items
            if len(a) != len(b):
                return False
            return b_and(*[self.truthv(self.equals(self.force(x), self.force(y))) for x, y in zip(a, b)])
        if is_scalar(a) and is_scalar(b):
            return cmp('==', a, b)
        if isinstance(a, (Arr, MArr, FArr)) or isinstance(b, (Arr, MArr, FArr)):
            return self.np.binop(self, '==', a, b)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        return self.is_same(a, b)

    def contains(self, a, b):
        if isinstance(b, KeysV):
            b = b.d
        if isinstance(b, PDict):
            if isinstance(a, SymStr):
                return b_or(*[self.equals(a, k) for k in b.d])
            if isinstance(a, (Arr, PList, PDict, Obj)):
                if isinstance(a, Obj):
                    return any(a is k for k in b.d)
                raise Raise('TypeError')
            if a in b.opt:
                return b.opt[a]
            return any(type(k) is type(a) and k == a for k in b.d)
        if isinstance(b, (tuple, PList)):
            if isinstance(b, PList) and not b.concrete:
                return self.contains_sym(a, b)
            items = b if isinstance(b, tuple) else b.items
            return b_or(*[self.truthv(self.equals(a, self.force(x))) for x in items])
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, MemberSet):
            return b.has(a)
        if isinstance(b, ValuesV):
            return b_or(*[self.is_same(a, self.force(x)) for x in b.items])
        raise Unsupported("in %s" % type(b).__name__)

    def contains_sym(self, a, b):
        raise Unsupported("in symbolic list")

    def truthv(self, v):
        v = self.force(v)
        if is_scalar(v):
            return truth(v)
        if v is None:
            return False
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PList):
            return truth(cmp('>', v.length(), 0))
        if isinstance(v, PDict):
            if v.opt:
                raise Unsupported("truth of symbolic dict")
            return len(v.d) > 0
        if isinstance(v, (Obj, Func, Bound, Cls, Prim, UserFn, Mod)):
            return True
        if isinstance(v, Arr):
            if all(not is_z(s) and s == 1 or is_z(s) and self.decide(s == 1) for s in v.shape):
                return self.truthv(v.get((0,) * v.ndim))
            if any(not is_z(s) and s == 0 or is_z(s) and not self.entails(s >= 1) for s in v.shape):
                raise Unsupported("truth of an empty array")
            raise Raise('ValueError')
        if isinstance(v, (FmtStr, textio.Span)):
            return True
        if isinstance(v, MemberSet):
            raise Unsupported("truth of symbolic collection")
        raise Unsupported("truth of %s" % type(v).__name__)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index1(x, fr) for x in s.elts)
        return self.eval_index1(s, fr)

    def eval_index1(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def norm_list_index(self, ix, n):
        """python index -> nonnegative index (forks on sign), raising IndexError when out of range"""
        if not is_z(ix) and not is_z(n):
            if ix < 0:
                ix += n
            if not 0 <= ix < n:
                raise Raise('IndexError')
            return ix
        if not is_z(ix) and ix < 0:
            ix = add(n, ix)
        elif is_z(ix) and not self.entails(ix >= 0):
            if self.decide(ix < 0):
                ix = add(n, ix)
        if not self.decide(b_and(cmp('>=', ix, 0), cmp('<', ix, n))):
            raise Raise('IndexError')
        return ix

    def getitem(self, o, ix):
        if isinstance(o, (Arr, MArr, FArr, SqArr)):
            return self.np.index(self, o, ix if isinstance(ix, tuple) else (ix,))
        if isinstance(o, tuple):
            if isinstance(ix, SliceV):
                return o[slice(ix.lo, ix.hi, ix.step)]
            if is_z(ix):
                raise Unsupported("symbolic tuple index")
            return o[self.norm_list_index(ix, len(o))]
        if isinstance(o, PList):
            if isinstance(ix, SliceV):
                if o.concrete:
                    return PList(self.heap, o.items[slice(ix.lo, ix.hi, ix.step)])
                raise Unsupported("slice of symbolic list")
            ix = self.norm_list_index(ix, o.length())
            return self.list_get(o, ix)
        if isinstance(o, PDict):
            if isinstance(ix, SymStr):
                for k in o.d:
                    if self.decide(self.equals(ix, k)):
                        return o.d[k]
                raise Raise('KeyError')
            if ix in o.opt:
                if not self.decide(o.opt[ix]):
                    raise Raise('KeyError')
                return o.d[ix]
            for k in o.d:
                if type(k) is type(ix) and k == ix:
                    return o.d[k]
            raise Raise('KeyError')
        if isinstance(o, str) and not is_z(ix) and not isinstance(ix, SliceV):
            return o[ix]
        if isinstance(o, Obj):
            f = o.cls.lookup('__getitem__') if isinstance(o.cls, Cls) else None
            if f is not None:
                return self.call(Bound(f, o), [ix], {})
        if is_scalar(o):
            raise Raise('TypeError')
        if o is None:
            raise Raise('TypeError')
        raise Unsupported("index of %s" % type(o).__name__)

    def list_get(self, o, ix):
        if not is_z(ix) and not is_z(o.n):
            return o.items[ix - o.n] if ix >= o.n else o.elem(ix)
        if not o.items:
            return o.elem(ix)
        if self.entails(cmp('<', ix, o.n)):
            return o.elem(ix)
        # merge by cases
        r = o.elem(ix) if is_z(o.n) or o.n > 0 else None
        for q in reversed(range(len(o.items))):
            c = cmp('==', ix, add(o.n, q))
            r = o.items[q] if r is None else self.merge_val(c, o.items[q], r)
        return r

    def list_mut(self, o):
        if o.derived:
            raise Unsupported("a list made in a symbolic comprehension is changed")
        if o.frozen and o.birth is not None:
            self.frame_violation("list passed by the caller is modified")

    def frame_violation(self, what):
        if not self.quiet:
            self.frame_violations.append((what, self.pos))
            self.obls.append(Obligation('frame: ' + what, False, what, self.pos))

    def setitem(self, o, ix, v):
        o = self.force(o)
        if isinstance(o, (Arr, MArr)):
            return self.np.store(self, o, ix if isinstance(ix, tuple) else (ix,), self.force(v))
        if isinstance(o, PList):
            self.list_mut(o)
            ix = self.norm_list_index(ix, o.length())
            if is_z(ix) or not o.concrete:
                raise Unsupported("symbolic list store")
            self.heap.touch(o)
            o.items[ix] = v
            return
        if isinstance(o, PDict):
            if o.frozen:
                self.frame_violation("dict passed by the caller is modified")
            self.heap.touch(o)
            o.d[ix] = v
            o.opt.pop(ix, None)
            return
        if is_scalar(o):
            raise Raise('TypeError')
        raise Unsupported("store into %s" % type(o).__name__)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, o, name, default=Unsupported):
        if isinstance(o, Mod):
            if o.glob is not None:
                if name in o.glob:
                    return o.glob[name]
                sub_ = o.name + '.' + name
                p = os.path.join(self.src, *sub_.split('.'))
                if os.path.exists(p + '.py'):
                    return self.module(sub_)
                raise Raise('AttributeError')
            return self.ext(o.name + '.' + name)
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Choice):
                    v = self.force(v)
                    self.heap.touch(o)
                    o.attrs[name] = v
                return v
            if isinstance(o.cls, Cls):
                v = o.cls.lookup(name)
                if v is not None:
                    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Func):
                        if v[0] == 'staticmethod':
                            return v[1]
                        if v[0] == 'classmethod':
                            return Bound(v[1], o.cls)
                        return self.call(Bound(v[1], o), [], {})
                    if isinstance(v, (Func, Prim)):
                        return Bound(v, o)
                    return v
                if name == '__class__':
                    return o.cls
            if default is not Unsupported:
                return default
            raise Raise('AttributeError', name)
        if isinstance(o, Cls):
            v = o.lookup(name)
            if v is not None:
                if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Func):
                    return v[1] if v[0] == 'staticmethod' else Bound(v[1], o)
                return v
            if name == '__name__':
                return o.name
            raise Raise('AttributeError', name)
        if isinstance(o, (Arr, MArr, FArr, SqArr)):
            return self.np.attr(self, o, name)
        if isinstance(o, UserFn):
            if name in o.attrs:
                return o.attrs[name]
            raise Raise('AttributeError')
        if isinstance(o, Func):
            if name == '__name__':
                return o.node.name
            raise Raise('AttributeError')
        if isinstance(o, PList):
            return self.np.list_attr(self, o, name)
        if isinstance(o, PDict):
            return self.np.dict_attr(self, o, name)
        if isinstance(o, (str, FmtStr, SymStr)):
            return self.np.str_attr(self, o, name)
        if isinstance(o, (bool, int, Fraction)) or is_z(o):
            return self.np.scalar_attr(self, o, name, default)
        if isinstance(o, tuple) and name == 'index':
            raise Unsupported("tuple.index")
        if isinstance(o, External):
            return o.getattr(self, name)
        if isinstance(o, Prim):
            return self.ext(o.name + '.' + name)
        if o is None or isinstance(o, (tuple, TypeV)):
            if default is not Unsupported:
                return default
            raise Raise('AttributeError')
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Obj):
            if o.frozen:
                self.frame_violation("attribute %s of the model is modified" % name)
            self.heap.touch(o)
            o.attrs[name] = v
            return
        raise Unsupported("setattr on %s" % type(o).__name__)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_concrete(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if d.opt:
                    raise Unsupported("** of a dict with optional keys")
                for kk, vv in d.d.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        pos = self.pos
        r = self.call(f, args, kw)
        self.pos = pos
        return r

    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, Prim):
            if f.name in SILENT:
                return f.fn(self, args, kw)
            a, k = SeenArgs(args), SeenKw(kw)
            r = f.fn(self, a, k)
            if any(i not in a.seen for i in range(len(a))) or any(i not in k.seen for i in dict.keys(k)):
                raise Unsupported("an argument of %s is not modelled" % f.name)
            return r
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            if f in self.factories:
                return self.factories[f](self, args, kw)
            ob = Obj(self.heap, f)
            init = f.lookup('__init__')
            if init is not None:
                self.call(Bound(init, ob), args, kw)
            return ob
        if isinstance(f, UserFn):
            if f.raw:
                return f.fn(self, args, kw)
            return self.np.apply_user(self, f, [self.force(a) for a in args])
        if isinstance(f, TypeV):
            return self.np.call_type(self, f, args, kw)
        if isinstance(f, External):
            return f.call(self, args, kw)
        if isinstance(f, Obj) and isinstance(f.cls, Cls) and f.cls.lookup('__call__'):
            return self.call(Bound(f.cls.lookup('__call__'), f), args, kw)
        if f is None or is_scalar(f) or isinstance(f, str):
            raise Raise('TypeError')
        raise Unsupported("call of %s" % type(f).__name__)

    def bind(self, f, args, kw):
        """-> dict param -> value (raises TypeError like Python)"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names) and a.vararg is None:
            raise Raise('TypeError', 'too many arguments')
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in out:
                raise Raise('TypeError', 'duplicate argument ' + k)
            if k in kwnames:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Raise('TypeError', 'unexpected argument ' + k)
        if a.kwarg is not None:
            out[a.kwarg.arg] = PDict(self.heap, extra)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in out:
                out[n] = d
        for k, d in f.kwdefaults.items():
            if k not in out:
                out[k] = d
        for n in kwnames:
            if n not in out:
                raise Raise('TypeError', 'missing argument ' + n)
        return out

    def call_func(self, f, args, kw):
        spec = self.contracts.get(f.qual)
        if spec is not None:
            self.used_contracts.add(f.qual)
            return spec(self, f, args, kw)
        return self.run_body(f, args, kw)

    def run_body(self, f, args, kw):
        if self.depth > 40:
            raise Unsupported("recursion")
        self.inlined.add(f.qual)
        fr = Frame(self.heap, f.mod, f.closure)
        fr.vars.update(self.bind(f, args, kw))
        self.depth += 1
        saved = (self.curfn, self.safety)
        self.curfn = f.qual
        self.safety = f.mod.name in self.pyx
        try:
            self.exec_block(f.node.body, fr)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
            self.curfn, self.safety = saved

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def comp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        dom = self.iter_domain(self.ev(g.iter, fr))
        cf = Frame(self.heap, fr.glob, fr)
        if dom[0] == 'concrete':
            out = []
            for v in dom[1]:
                self.assign(g.target, v, cf)
                if all(self.decide(self.truthv(self.eval(c, cf))) for c in g.ifs):
                    out.append(self.eval(e.elt, cf))
            return PList(self.heap, out)
        _, N, elem, guard = dom
        if guard is not None or g.ifs:
            raise Unsupported("filtered symbolic comprehension")
        j = self.fresh('c', I)
        mark = len(self.pc)
        self.pc += [0 <= j, toz(cmp('<', j, N))]

        def body():
            self.assign(g.target, elem(j), cf)
            return self.eval(e.elt, cf)
        outs, mk = self.explore(body)
        del self.pc[mark:]
        ok = [o for o in outs if o.kind == 'ok']
        bad = [o for o in outs if o.kind != 'ok']
        if bad:
            c = mk_any(N, lambda q: b_or(*[subst(b_and(*o.conds), j, q) for o in bad]))
            if self.decide(c):
                raise bad[0].val
        if any(ob is not cf and ob.birth < mk[1] for o in ok for ob, _ in o.delta.values()):
            raise Unsupported("side effect in a symbolic comprehension")
        _, v = self.merge_outcomes(ok, mk)
        if isinstance(v, Member) and v.i is None:
            return PList(self.heap, (), N, v.placed(self))
        return PList(self.heap, (), N, lambda i: self.subst_val(v, j, i))

    def e_DictComp(self, e, fr):
        g = e.generators[0]
        cf = Frame(self.heap, fr.glob, fr)
        out = {}
        for v in self.iter_concrete(self.eval(g.iter, fr)):
            self.assign(g.target, v, cf)
            if all(self.decide(self.truthv(self.eval(c, cf))) for c in g.ifs):
                out[self.ev(e.key, cf)] = self.eval(e.value, cf)
        return PDict(self.heap, out)

    def subst_val(self, v, j, i):
        """value with the index symbol j replaced"""
        if is_z(v):
            return unz(subst(v, j, i))
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, j, i) for x in v)
        if isinstance(v, NV):
            return NV(self.subst_val(v.flag, j, i), self.subst_val(v.val, j, i))
        if isinstance(v, Arr):
            rd = v.reader()
            shape = tuple(unz(subst(s, j, i)) if is_z(s) else s for s in v.shape)
            c = Cell(self.heap, shape, lambda idx: self.subst_val(rd(idx), j, i), v.kind)
            c.frozen, c.derived = v.cell.frozen, True
            return Arr(c)
        if isinstance(v, FArr):
            return FArr([subst(s, j, i) if is_z(s) else s for s in v.dom], lambda idx: self.subst_val(v.cond(idx), j, i),
                        lambda idx: self.subst_val(v.val(idx), j, i), v.kind)
        if isinstance(v, SqArr):
            return SqArr(self.subst_val(v.arr, j, i))
        if isinstance(v, Choice):
            return Choice(subst(v.cond, j, i), self.subst_val(v.a, j, i), self.subst_val(v.b, j, i))
        if isinstance(v, UserFn):
            return UserFn(v.name, lambda *a: self.subst_val(v.fn(*a), j, i), v.attrs, v.raw)
        if isinstance(v, PList) and not v.concrete:
            return PList(self.heap, [self.subst_val(x, j, i) for x in v.items], subst(v.n, j, i), lambda q: self.subst_val(v.elem(q), j, i))
        if isinstance(v, FmtStr):
            r = FmtStr([self.subst_val(x, j, i) for x in v.parts])
            r.opaque = v.opaque
            return r
        if isinstance(v, textio.Num):
            return v if v.slot is not None else textio.Num(v.kind, self.subst_val(v.value, j, i))
        if isinstance(v, textio.Span):
            return textio.Span(v.disk, self.subst_val(v.s, j, i), self.subst_val(v.w, j, i))
        if isinstance(v, MArr):
            return MArr(self.subst_val(v.data, j, i), self.subst_val(v.mask, j, i))
        if isinstance(v, PList):
            # a list made in the iteration: its members may not be changed later
            r = PList(self.heap, [self.subst_val(x, j, i) for x in v.items])
            r.derived = True
            return r
        if isinstance(v, Member) and v.i is not None:
            return Member(v.fam, self.subst_val(v.i, j, i))
        if isinstance(v, (Obj, PDict, Func, Bound, Poison, Member)):
            raise Unsupported("a %s made in every iteration of a symbolic comprehension" % type(v).__name__)
        return v


class MemberSet:
    """symbolic collection of strings: membership of literals is given by Booleans"""

    def __init__(self, name, bools):
        self.name, self.bools = name, bools

    def has(self, a):
        if isinstance(a, str):
            return self.bools.get(a, False)
        raise Unsupported("membership")


class ValuesV:
    def __init__(self, items):
        self.items = items


class External:
    """modelled external object"""

    def getattr(self, eng, name):
        raise Unsupported("attribute %s" % name)

    def call(self, eng, args, kw):
        raise Unsupported("call")


class Watched(list):
    """values read in advance from arrays and lists that must not change while they are iterated"""
    watch = lists = ()

    def check(self, end=False):
        if not end and any(c.fn is not fn for c, fn in self.watch):
            raise Unsupported("an array changes while it is iterated")
        if any(len(o.items) != len(x) or any(p is not q for p, q in zip(o.items, x)) for o, x in self.lists):
            raise Unsupported("a list changes while it is iterated")


class Member(External):
    """object i of a family: one object made by each iteration of a symbolic loop or
    comprehension (i is None until it is placed in its list).  Distinct indices are
    distinct objects; their state is rows of the arrays kept by the family."""

    def __init__(self, fam, i=None, make=None):
        self.fam, self.i, self.make, self.owner = fam, i, make, None

    def placed(self, owner):
        if self.owner is not None and self.owner is not owner:
            raise Unsupported("one new object kept in two lists")
        self.owner = owner
        fam = self.make()
        return lambda i: Member(fam, i)

    def getattr(self, eng, name):
        if self.i is None:
            raise Unsupported("use of an object made in a loop before it is placed in its list")
        return self.fam.getattr(eng, self.i, name)


def subst(t, j, i):
    if not is_z(t):
        return t
    return simp(z3.substitute(t, (j, toz(i, j.sort()))))
