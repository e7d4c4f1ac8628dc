"""Values of the symbolic interpreter."""
from fractions import Fraction
import z3
from .terms import *
from . import terms as T


class Raise(Exception):
    """a Python exception raised by the analysed code"""

    def __init__(self, kind, msg='', pos=None):
        super().__init__(kind, msg)
        self.kind, self.msg, self.pos = kind, msg, pos


class Heap:
    """mutable objects with an undo journal"""

    def __init__(self):
        self.journal = []
        self.clock = 0

    def touch(self, o):
        self.journal.append((o, o.get_state()))

    def mark(self):
        self.clock += 1
        return (len(self.journal), self.clock)

    def restore(self, mark):
        n = mark[0]
        while len(self.journal) > n:
            o, s = self.journal.pop()
            o.set_state(s)

    def delta(self, mark):
        """objects changed since mark -> current state"""
        d = {}
        for o, _ in self.journal[mark[0]:]:
            d[id(o)] = (o, o.get_state())
        return d


class HObj:
    """mutable heap object"""

    def __init__(self, heap):
        self.heap = heap
        self.birth = heap.clock


class Cell(HObj):
    """storage of an array: shape, element function over index tuples, dtype kind"""

    def __init__(self, heap, shape, fn, kind, name=None):
        super().__init__(heap)
        self.shape, self.fn, self.kind, self.name = tuple(shape), fn, kind, name
        self.frozen = False     # True: owned by the caller/model: stores are frame violations
        self.aliased = False    # a reshape of it may alias
        self.derived = False    # element of a symbolic list, made anew at every access: stores are not supported

    def get_state(self):
        return (self.fn, self.aliased)

    def set_state(self, s):
        self.fn, self.aliased = s


class NV:
    """scalar that may be NaN: NaN iff flag"""
    __slots__ = ('flag', 'val')

    def __init__(self, flag, val):
        self.flag, self.val = flag, val


class Arr:
    """ndarray = view into a cell.  axes[c] describes cell axis c:
    ('fix', k) or ('ax', v, off, step): cell index = off + step * view index v"""
    __slots__ = ('cell', 'axes', 'shape')

    def __init__(self, cell, axes=None, shape=None):
        self.cell = cell
        if axes is None:
            axes = tuple(('ax', i, 0, 1) for i in range(len(cell.shape)))
            shape = cell.shape
        self.axes, self.shape = axes, tuple(shape)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def kind(self):
        return self.cell.kind

    def cidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == 'fix':
                out.append(a[1])
            else:
                _, v, off, step = a
                i = idx[v]
                if step == -1:
                    out.append(sub(off, i))
                elif step == 1:
                    out.append(add(off, i))
                else:
                    out.append(add(off, mul(step, i)))
        return tuple(out)

    def reader(self):
        """element function over view indices with the current contents"""
        fn, cidx = self.cell.fn, self.cidx
        if all(a == ('ax', i, 0, 1) for i, a in enumerate(self.axes)) and len(self.axes) == len(self.shape):
            return fn
        return lambda idx: fn(cidx(idx))

    def get(self, idx):
        return self.cell.fn(self.cidx(tuple(idx)))

    def is_whole(self):
        return all(a == ('ax', i, 0, 1) for i, a in enumerate(self.axes)) and len(self.axes) == len(self.shape) and \
            all(_same(x, y) for x, y in zip(self.shape, self.cell.shape))


def _same(a, b):
    if not is_z(a) and not is_z(b):
        return a == b
    return simp(toz(a)).eq(simp(toz(b)))


class MArr:
    """numpy masked array: data and mask element functions"""

    def __init__(self, data, mask):
        self.data, self.mask = data, mask

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def kind(self):
        return self.data.kind


class FArr:
    """1-d array: the values val(idx) for idx in the domain (row-major) with cond(idx)"""

    def __init__(self, dom, cond, val, kind, ident=None):
        self.dom, self.cond, self.val, self.kind = tuple(dom), cond, val, kind
        self.ident = ident

    ndim = 1


class SqArr:
    """np.squeeze of a symbolic-size array: extents equal to one dropped"""

    def __init__(self, arr):
        self.arr = arr


class PList(HObj):
    """list: n symbolic leading elements elem(i), then the concrete items"""

    def __init__(self, heap, items=(), n=0, elem=None):
        super().__init__(heap)
        self.items, self.n, self.elem = list(items), n, elem
        self.frozen = self.derived = False
        self.watch = ()      # arrays whose elements were read in advance (zip, enumerate)
        self.lazy = False    # members are read when they are asked for

    @property
    def concrete(self):
        return not is_z(self.n) and self.n == 0

    def length(self):
        return add(self.n, len(self.items))

    def get_state(self):
        return (self.n, self.elem, tuple(self.items))

    def set_state(self, s):
        self.n, self.elem, self.items = s[0], s[1], list(s[2])


class PDict(HObj):
    def __init__(self, heap, d):
        super().__init__(heap)
        self.d = dict(d)
        self.frozen = False
        self.opt = {}     # key -> Bool presence condition (symbolic dicts)

    def get_state(self):
        return (dict(self.d), dict(self.opt))

    def set_state(self, s):
        self.d, self.opt = dict(s[0]), dict(s[1])


class Obj(HObj):
    def __init__(self, heap, cls, attrs=None):
        super().__init__(heap)
        self.cls, self.attrs = cls, dict(attrs or {})
        self.frozen = False

    def get_state(self):
        return dict(self.attrs)

    def set_state(self, s):
        self.attrs = dict(s)


class Frame(HObj):
    def __init__(self, heap, glob, parent=None):
        super().__init__(heap)
        self.vars, self.glob, self.parent = {}, glob, parent

    def get_state(self):
        return dict(self.vars)

    def set_state(self, s):
        self.vars = dict(s)


class Ref:
    """address of an array element (compiled kernels)"""

    def __init__(self, obj, idx=None, var=None, frame=None):
        self.obj, self.idx, self.var, self.frame = obj, idx, var, frame


class Choice:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class Poison:
    """value the verifier lost track of"""

    def __init__(self, why):
        self.why = why


class SymStr:
    """unknown string"""

    def __init__(self, name):
        self.name = name
        self.code = z3.Int('str!' + name)


_codes = {}


def str_code(s):
    return _codes.setdefault(s, len(_codes) + 1)


class FmtStr:
    """string made of parts (formatted values); opaque except for its parts"""

    opaque = False      # built in a way that is not modelled: only usable in messages

    def __init__(self, parts):
        self.parts = parts


class Mod:
    def __init__(self, name, glob=None):
        self.name, self.glob = name, glob


class Prim:
    """modelled external function"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<prim %s>' % self.name


class Func:
    def __init__(self, node, mod, closure=None, qual=None, defaults=None, kwdefaults=None, cls=None):
        self.node, self.mod, self.closure, self.qual = node, mod, closure, qual
        self.defaults, self.kwdefaults, self.cls = defaults or [], kwdefaults or {}, cls


class Bound:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Cls:
    def __init__(self, name, attrs, bases, mod):
        self.name, self.attrs, self.bases, self.mod = name, attrs, bases, mod

    def lookup(self, k):
        if k in self.attrs:
            return self.attrs[k]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(k)
                if r is not None:
                    return r
        return None

    def isa(self, other):
        return self is other or any(isinstance(b, Cls) and b.isa(other) or b is other for b in self.bases)


class UserFn:
    """callable supplied by the caller: pure, elementwise; fn(args scalars) -> scalar term"""

    def __init__(self, name, fn, attrs=None, raw=False):
        self.name, self.fn, self.attrs, self.raw = name, fn, attrs or {}, raw


class TypeV:
    def __init__(self, name):
        self.name = name


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class KeysV:
    def __init__(self, d):
        self.d = d


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
