"""Loops over a symbolic range.

The state at the start of iteration j is described by a closed form per modified
variable/array (the loop invariant).  It is inferred from one symbolic iteration
on an arbitrary state and then checked: it must hold initially and be preserved
by an arbitrary iteration of the real body.  Only a checked invariant is used;
whatever has none is havocked.
"""
import z3
from .terms import *
from . import terms as T
from .values import *
from .values import _same
from . import textio
from . import interp as IN


class Item:
    """one modified location"""

    def __init__(self, key, ob, name, entry):
        self.key, self.ob, self.name, self.entry = key, ob, name, entry
        self.closed = None      # m -> value / element function at the start of iteration m
        self.hole = None
        self.dead = False       # no invariant: havocked
        self.step = None        # term added by iteration q
        self.nv = False         # array whose elements may be nan
        self.hole2 = None
        self.sols = None        # iterations that write an element
        self.block = None       # (j * m, m, j): iteration j writes a block of m elements

    def label(self):
        return self.name if self.name is not None else (getattr(self.ob, 'name', None) or 'array')


def isarr(it):
    return isinstance(it.ob, Cell)


def sort_of_kind(kind):
    return {'f': R, 'i': I, 'b': B}[kind]


UNBOUND = object()


def consts_of(t):
    out, st, seen = {}, [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x.decl()
            st.extend(x.children())
    return out


def mentions(v, names):
    if isinstance(v, NV):
        return mentions(v.flag, names) or mentions(v.val, names)
    if not is_z(v):
        return False
    return any(n in names for n in consts_of(v))


def leaves(t, hole, conds=()):
    """ite tree -> [(conds, leaf)]"""
    if is_z(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() != B:
        return leaves(t.arg(1), hole, conds + (t.arg(0),)) + leaves(t.arg(2), hole, conds + (z3.Not(t.arg(0)),))
    if is_z(t) and t.sort() == B and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return leaves(t.arg(1), hole, conds + (t.arg(0),)) + leaves(t.arg(2), hole, conds + (z3.Not(t.arg(0)),))
    if is_z(t) and is_z(hole) and t.sort() == B and (z3.is_or(t) or z3.is_and(t)) and any(x.eq(hole) for x in t.children()):
        rest = [x for x in t.children() if not x.eq(hole)]
        if z3.is_or(t):
            c = simp(z3.Or(*rest))
            return [(conds + (c,), z3.BoolVal(True)), (conds + (z3.Not(c),), hole)]
        c = simp(z3.And(*rest))
        return [(conds + (z3.Not(c),), z3.BoolVal(False)), (conds + (c,), hole)]
    return [(conds, t)]


def flatten_and(cs):
    out = []
    for c in cs:
        if z3.is_and(c):
            out += flatten_and(c.children())
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            out += flatten_and([z3.Not(x) if not z3.is_not(x) else x.arg(0) for x in c.arg(0).children()])
        elif z3.is_not(c) and z3.is_not(c.arg(0)):
            out += flatten_and([c.arg(0).arg(0)])
        else:
            out.append(c)
    return out


def split_or(cs):
    """one disjunction of the condition is split into cases"""
    for k, c in enumerate(cs):
        if z3.is_or(c) and c.num_args() <= 3:
            return [flatten_and(cs[:k] + [x] + cs[k + 1:]) for x in c.children()]
    return [cs]


def solve_for(eqn, j):
    """equality linear in j with coefficient +-1 -> the value of j"""
    if not z3.is_eq(eqn) or eqn.arg(0).sort() != I:
        return None
    jid = {j.decl().get_id()}
    # direct forms first (keeps FLAT etc. intact)
    for a, b in ((eqn.arg(0), eqn.arg(1)), (eqn.arg(1), eqn.arg(0))):
        if a.eq(j) and not has_const(b, jid):
            return b
    d = som(eqn.arg(0) - eqn.arg(1))
    ms = list(d.children()) if z3.is_add(d) else [d]
    coef, rest = 0, []
    for m in ms:
        if m.eq(j):
            coef += 1
        elif z3.is_mul(m) and m.num_args() == 2 and z3.is_int_value(m.arg(0)) and m.arg(1).eq(j):
            coef += m.arg(0).as_long()
        elif has_const(m, jid):
            return None
        else:
            rest.append(m)
    if coef not in (1, -1):
        return None
    r = toz(0, I)
    for m in rest:
        r = r + m
    return som(-r) if coef == 1 else som(r)


class LoopRun:
    def __init__(self, eng, N, guard, body, st):
        self.eng, self.guard, self.body, self.st = eng, guard, body, st
        self.N = unz(simp(toz(N, I)))
        self.items = {}
        self.order = []
        self.where = '%s:%s' % (eng.curfn, getattr(st, 'lineno', '?'))

    # ------------------------------------------------------------ state
    def add_delta(self, delta, mark):
        """register the locations changed by the body; True when new ones appear"""
        new = False
        for k, (ob, st) in delta.items():
            if ob.birth >= mark[1]:
                continue
            if isinstance(ob, Cell):
                names = [None]
            elif isinstance(ob, PList):
                names = [None]
            elif isinstance(ob, (Frame, Obj)):
                base = ob.get_state()
                names = [n for n in st if n not in base or st[n] is not base[n]]
                names += [n for n in self.known(ob) if n not in names]
            else:
                raise Unsupported("loop body modifies a %s" % type(ob).__name__)
            for n in names:
                key = (id(ob), n)
                if key not in self.items:
                    if n is None:
                        entry = ob.get_state()
                    else:
                        entry = ob.get_state().get(n, UNBOUND)
                    self.items[key] = Item(key, ob, n, entry)
                    self.order.append(key)
                    new = True
        return new

    def known(self, ob):
        return [n for (i, n) in self.items if i == id(ob)]

    def install(self, m):
        """state at the start of iteration m"""
        eng = self.eng
        for key in self.order:
            it = self.items[key]
            self.put(it, it.closed(m) if it.closed is not None else None)

    def put(self, it, v):
        eng, ob = self.eng, it.ob
        eng.heap.touch(ob)
        if isinstance(ob, Cell):
            if v is None:
                if it.hole is None:
                    it.hole = eng.fresh.fn('HOLE', *([I] * len(ob.shape) + [sort_of_kind(ob.kind)]))
                h = it.hole
                if it.nv:
                    if it.hole2 is None:
                        it.hole2 = eng.fresh.fn('HOLEnan', *([I] * len(ob.shape) + [B]))
                    h2 = it.hole2
                    ob.fn = lambda idx: NV(h2(*[toz(i, I) for i in idx]), h(*[toz(i, I) for i in idx]))
                    return
                ob.fn = lambda idx: h(*[toz(i, I) for i in idx]) if idx else h()
            else:
                ob.fn = v
        elif isinstance(ob, PList):
            if v is None:
                if it.hole is None:
                    it.hole = eng.fresh('HOLEn', I)
                it.hole_elem = self.no_elem
                ob.n, ob.elem, ob.items = it.hole, it.hole_elem, []
            else:
                ob.n, ob.elem, ob.items = v[0], v[1], list(v[2])
        else:
            d = ob.vars if isinstance(ob, Frame) else ob.attrs
            if v is None:
                e = it.entry
                if is_scalar(e) and not isinstance(e, float) and not it.dead:
                    if it.hole is None:
                        it.hole = eng.fresh('HOLE', it.sort if getattr(it, 'sort', None) is not None else sortof(e))
                    d[it.name] = it.hole
                else:
                    d[it.name] = Poison('loop-carried ' + str(it.name))
            else:
                d[it.name] = v

    @staticmethod
    def no_elem(i):
        raise Unsupported("element of a list built in a loop")

    # ------------------------------------------------------------ one iteration
    def iterate(self, quiet, resolve=True):
        """run one arbitrary iteration; -> (outs, mark, j)"""
        eng = self.eng
        j = eng.fresh('j', I)
        n0 = len(eng.pc)
        f0 = eng.fresh.n
        rng = [0 <= j, toz(cmp('<', j, self.N))]
        for c in rng:
            eng.pc.append(simp(c))
        if self.guard is not None:
            g = simp(toz(self.guard(j), B))
            if not z3.is_true(g):
                eng.pc.append(g)
        if quiet:
            eng.quiet += 1
        eng.symloop += 1
        try:
            def run():
                self.install(j)
                self.body(j)
            outs, mark = eng.explore(run)
        finally:
            eng.symloop -= 1
            if quiet:
                eng.quiet -= 1
            del eng.pc[n0:]
        return outs, mark, j, (f0, eng.fresh.n)

    def context(self, j):
        c = [simp(0 <= j), simp(toz(cmp('<', j, self.N)))]
        if self.guard is not None:
            g = simp(toz(self.guard(j), B))
            if not z3.is_true(g):
                c.append(g)
        return c

    def normal(self, outs):
        for o in outs:
            if o.kind in ('break', 'ret'):
                raise Unsupported("break/return inside a loop over a symbolic range (%s)" % self.where)
        return [o for o in outs if o.kind in ('ok', 'cont')]

    def value_after(self, it, merged):
        d = merged.get(id(it.ob))
        if d is None:
            return None
        st = d[1]
        if isinstance(it.ob, Cell):
            return st[0]
        if isinstance(it.ob, PList):
            return st
        return st.get(it.name, UNBOUND)

    # ------------------------------------------------------------ main
    def run(self):
        eng = self.eng
        N = self.N
        if not is_z(N) and N <= 0:
            return
        # empty range?
        if is_z(N) and eng.entails(N <= 0):
            return
        # infer
        for _ in range(12):
            outs, mark, j, fr = self.iterate(quiet=True)
            norm = self.normal(outs)
            grew = False
            for o in norm:
                o.val = None
                grew |= self.add_delta(o.delta, mark)
            if grew:
                continue
            if not norm:
                break
            merged = self.merge(norm, mark)
            progress = False
            ctx = self.context(j)
            names = {str(x.hole.decl().name() if isinstance(x.hole, z3.ExprRef) else x.hole.name())
                     for x in self.items.values() if x.closed is None and x.hole is not None}
            names |= {x.hole2.name() for x in self.items.values() if x.closed is None and x.hole2 is not None}
            for key in self.order:
                it = self.items[key]
                if it.closed is None and not it.dead:
                    progress |= self.infer(it, self.value_after(it, merged), j, ctx, names, fr)
            if not progress:
                break
        # what has no closed form is havocked
        for it in self.items.values():
            if it.closed is None:
                self.kill(it)
        # check
        for _ in range(len(self.items) + 1):
            nob = len(eng.obls)
            nfr = len(eng.frame_violations)
            outs, mark, j, fr = self.iterate(quiet=False)
            norm = self.normal(outs)
            for o in norm:
                o.val = None
            bad = self.check(norm, mark, j)
            if not bad:
                break
            del eng.obls[nob:]
            del eng.frame_violations[nfr:]
            eng._obl_seen.clear()
            for it in bad:
                eng.notes.append('no invariant for %s at %s' % (it.label(), self.where))
                self.kill(it)
        else:
            raise Unsupported("loop " + self.where)
        for it in self.items.values():
            if it.closed is not None and not it.dead and not eng.quiet:
                from .interp import Obligation
                eng.obls.append(Obligation('loop invariant of %s preserved at %s' % (it.label(), eng.curfn), True, 'loop', self.where))
        # exceptions raised by some iteration
        raises = [o for o in outs if o.kind == 'raise']
        groups = {}
        for o in raises:
            groups.setdefault(o.val.kind, []).append(o)
        conds = []
        for kind, os_ in groups.items():
            c = b_or(*[self.generalise(b_and(*o.conds), j, fr) for o in os_])
            g = b_and(*self.guard_only(j))
            c = b_and(g, c)
            conds.append(mk_any(self.N, lambda q, c=c: simp(z3.substitute(toz(c, B), (j, toz(q, I))))))
        if conds:
            none = b_and(*[b_not(c) for c in conds])
            i = eng.choose([none] + conds)
            if i > 0:
                raise list(groups.values())[i - 1][0].val
        # final state
        for key in self.order:
            it = self.items[key]
            self.put_final(it)

    def guard_only(self, j):
        return self.context(j)[2:]

    def merge(self, norm, mark):
        from .interp import Unmergeable
        try:
            merged, _ = self.eng.merge_outcomes(norm, mark)
            return merged
        except Unmergeable as e:
            raise Unsupported("loop body states cannot be merged: %s (%s)" % (e, self.where))

    def generalise(self, t, j, fr):
        """symbols created inside the iteration become functions of the iteration"""
        if not is_z(t):
            return t
        sub_, fsub = [], []
        mine = {(x.hole.decl() if isinstance(x.hole, z3.ExprRef) else x.hole).name() for x in self.items.values() if x.hole is not None}
        mine |= {x.hole2.name() for x in self.items.values() if x.hole2 is not None}
        for n, d in consts_of(t).items():
            if n in mine:
                continue
            if '!' in n and n.split('!')[-1].isdigit():
                k = int(n.split('!')[-1])
                if fr[0] + 1 < k <= fr[1] and not n.startswith(('bv!', 'w!', 'j!')):
                    if d.arity() > 0:
                        dom = [d.domain(i) for i in range(d.arity())]
                        g = z3.Function(n + '@', I, *(dom + [d.range()]))
                        fsub.append((d, g(j, *[z3.Var(i, s) for i, s in enumerate(dom)])))
                        continue
                    sub_.append((d(), z3.Function(n + '@', I, d.range())(j)))
        if fsub:
            t = z3.substitute_funs(t, *fsub)
        return z3.substitute(t, *sub_) if sub_ else t

    # ------------------------------------------------------------ inference
    def infer(self, it, after, j, ctx, names, fr):
        eng = self.eng
        if after is None:
            return False
        if isinstance(it.ob, Cell):
            return self.infer_cell(it, after, j, ctx, names, fr)
        if isinstance(it.ob, PList):
            return self.infer_list(it, after, j, names, fr)
        if it.hole is None and not (is_scalar(after)):
            return False
        if isinstance(after, Choice) or not is_scalar(after) or isinstance(after, float):
            return False
        v = toz(after)
        if it.hole is not None and v.sort() != it.hole.sort():
            if not getattr(it, 'sort', None) and v.sort() == R and it.hole.sort() == I:
                it.sort, it.hole = R, None
                it.entry = toz(it.entry, R)
                return True
            return False
        v = simp(self.generalise(v, j, fr))
        v = simp(eng.pv.deep(v, eng.pc + ctx))
        hn = str(it.hole) if it.hole is not None else None
        others = names - {hn}
        if mentions(v, others):
            return False
        at = lambda t, q: unz(simp(z3.substitute(t, (j, toz(q, I)))))
        e0 = it.entry
        if hn is None or not mentions(v, {hn}):
            if self.guard is not None:
                return False
            if not has_const(v, {j.decl().get_id()}) and e0 is not UNBOUND and _same_val(e0, unz(v)):
                it.closed = lambda m: e0
                return True
            if e0 is UNBOUND or not is_scalar(e0):
                return False
            it.closed = lambda m: ite(cmp('<=', m, 0), e0, at(v, sub(m, 1)))
            return True
        h = it.hole
        if v.eq(h):
            it.closed = lambda m: e0
            return True
        g = self.guard
        if v.sort() == B:
            # monotone accumulation
            t1 = simp(z3.substitute(v, (h, z3.BoolVal(True))))
            t0 = simp(z3.substitute(v, (h, z3.BoolVal(False))))
            if z3.is_true(t1):
                it.closed = lambda m: b_or(e0, mk_any(m, lambda q: b_and(g(q) if g else True, at(t0, q))))
                return True
            if z3.is_false(t0):
                it.closed = lambda m: b_and(e0, b_not(mk_any(m, lambda q: b_and(g(q) if g else True, b_not(at(t1, q))))))
                return True
            return False
        d = self.delta_of(v, h)
        if d is None or mentions(d, {hn}):
            # the same at the start of every iteration; the last iteration may leave another value
            last = self.last_differs(v, j, ctx) if g is None else None
            if last is not None and is_scalar(e0) and not mentions(last[0], {hn}) and _same_val(e0, last[0]):
                c2 = at(simp(z3.substitute(toz(last[1]), (h, toz(e0, h.sort())))), 0)
                N = self.N
                it.closed = lambda m: ite(b_or(cmp('<', m, N), cmp('<=', m, 0)), e0, c2)
                return True
            return False
        dz = toz(d, v.sort())
        if g is not None:
            dz = toz(ite(True, d, d), v.sort())
        if v.sort() == R:
            it.closed = lambda m: add(e0, mk_sum(m, lambda q: ite(g(q), at(dz, q), Fraction(0)) if g else at(dz, q)))
            if g is None:
                it.step = lambda q: at(dz, q)
        else:
            if g is None and not has_const(dz, {j.decl().get_id()}):
                it.closed = lambda m: add(e0, mul(m, unz(dz)))
            else:
                last = self.last_differs(dz, j, ctx)
                if last is not None and g is None:
                    c1, c2 = last
                    N = self.N
                    it.closed = lambda m: ite(b_or(cmp('<', m, N), cmp('<=', m, 0)), add(e0, mul(m, c1)), add(e0, add(mul(sub(N, 1), c1), c2)))
                    return True
                u = simp(z3.Or(dz == 0, dz == 1))
                if not eng.pv.prove(u, eng.pc + ctx)[0]:
                    return False
                it.closed = lambda m: add(e0, mk_cnt(m, lambda q: b_and(g(q) if g else True, cmp('==', at(dz, q), 1))))
        return True

    def last_differs(self, d, j, ctx):
        """d is one constant in every iteration but the last and another one there"""
        eng, jid = self.eng, {j.decl().get_id()}
        out = []
        for c in (cmp('<', j, sub(self.N, 1)), cmp('==', j, sub(self.N, 1))):
            v = unz(simp(eng.pv.deep(d, eng.pc + ctx + [toz(c, B)])))
            if is_z(v) and has_const(v, jid):
                return None
            out.append(v)
        return out

    def delta_of(self, v, h):
        """v - h with the conditionals kept"""
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.delta_of(v.arg(1), h), self.delta_of(v.arg(2), h)
            if a is None or b is None:
                return None
            return ite(v.arg(0), a, b)
        d = som(v - h)
        if has_const(d, {h.decl().get_id()}):
            return None
        return unz(d)

    def infer_list(self, it, after, j, names, fr):
        n, elem, items = after
        if not (is_z(n) and n.eq(it.hole) and elem == it.hole_elem and len(items) == 1):
            return False
        if self.guard is not None:
            return False
        en, ee, ei = it.entry
        if ei or is_z(en) or en != 0:
            return False
        v = items[0]
        eng = self.eng
        if isinstance(v, IN.Member) and v.i is None:
            el = v.placed(it.ob)
            it.closed = lambda m: (m, el, ())
            it.trusted_list = True
            return True
        if not self.closed_value(v, names, fr):
            return False
        it.closed = lambda m: (m, lambda i: eng.subst_val(v, j, i), ())
        it.trusted_list = True
        return True

    def closed_value(self, v, names, fr):
        """no unresolved hole and nothing created inside the iteration"""
        if isinstance(v, tuple):
            return all(self.closed_value(x, names, fr) for x in v)
        if is_z(v):
            if mentions(v, names):
                return False
            return self.generalise(v, z3.Int('probe'), fr).eq(v)
        if isinstance(v, Arr):
            if any(it.ob is v.cell for it in self.items.values()):
                return False            # one array changed by every iteration
            if not all(self.closed_value(s, names, fr) for s in v.shape):
                return False
            q = tuple(self.eng.pv.sk() for _ in v.shape)
            try:
                t = v.get(q)
            except Unsupported:
                return False
            if isinstance(t, NV):
                return self.closed_value(t.flag, names, fr) and self.closed_value(t.val, names, fr)
            return self.closed_value(t, names, fr)
        if isinstance(v, Choice):
            return all(self.closed_value(x, names, fr) for x in (v.cond, v.a, v.b))
        if isinstance(v, SqArr):
            return self.closed_value(v.arr, names, fr)
        if isinstance(v, FmtStr):
            return not v.opaque and all(self.closed_value(x, names, fr) for x in v.parts)
        if isinstance(v, textio.Num):
            return v.slot is not None or self.closed_value(v.value, names, fr)
        if isinstance(v, IN.Member):
            return v.i is not None and self.closed_value(v.i, names, fr)
        if isinstance(v, (Poison, Obj, PDict, PList, MArr, NV, Func, Bound, textio.Span)):
            return False
        if isinstance(v, FArr):
            q = tuple(self.eng.pv.sk() for _ in v.dom)
            return self.closed_value(v.cond(q), names, fr) and self.closed_value(v.val(q), names, fr)
        return True

    def infer_cell(self, it, fn, j, ctx, names, fr):
        eng, cell = self.eng, it.ob
        h = it.hole
        efn = it.entry[0]
        q = tuple(eng.pv.sk('q') for _ in cell.shape)
        rng = []
        for x, s in zip(q, cell.shape):
            rng += [simp(0 <= x), simp(toz(cmp('<', x, s)))]
        t = fn(q)
        if it.nv or isinstance(t, NV):
            return self.infer_nv(it, t, q, j, ctx, rng, names, fr)
        t = toz(t, sort_of_kind(cell.kind))
        self.block = self.last_sols = None
        r = self.solve_cell(t, h(*q) if h is not None else None, h, q, j, ctx, rng, names, fr)
        if r is None:
            return False
        it.block = self.block and (*self.block, j)
        it.sols = self.last_sols
        it.closed = self.close_cell(r, q, efn)
        return True

    def infer_nv(self, it, t, q, j, ctx, rng, names, fr):
        """array with nan elements: closed forms of the nan flag and of the value"""
        if not it.nv:
            it.nv, it.hole = True, None
            return True
        if it.ob.kind != 'f' or it.hole2 is None:
            return False
        efn = it.entry[0]
        part = lambda x, w: (x.flag if w == 'flag' else x.val) if isinstance(x, NV) else (False if w == 'flag' else x)
        h, h2 = it.hole, it.hole2
        own = {h.name(), h2.name()}
        rs = []
        for w, hh, srt in (('flag', h2, B), ('val', h, R)):
            self.last_sols = None
            r = self.solve_cell(toz(part(t, w), srt), hh(*q), hh, q, j, ctx, rng, names, fr)
            if r is None:
                return False
            rs.append(r)
            it.sols = self.last_sols or it.sols
        rf, rv = rs

        def closed(m):
            def at(idx):
                f = rf(m, idx, lambda i: part(efn(i), 'flag'))
                v = rv(m, idx, lambda i: part(efn(i), 'val'))
                return v if f is False else NV(f, v)
            return at
        it.closed = closed
        return True

    def close_cell(self, r, q, efn):
        def closed(m):
            def at(idx):
                return r(m, idx, efn)
            return at
        return closed

    def solve_cell(self, t, hq, h, q, j, ctx, rng, names, fr):
        """-> function (m, idx, entry) or None"""
        eng = self.eng
        t = simp(self.generalise(t, j, fr))
        t = simp(eng.pv.deep(t, eng.pc + ctx + rng))
        hname = h.name() if h is not None else None
        if mentions(t, names - {hname}):
            return None
        lv = []
        for cs, v in leaves(t, hq):
            if hname and not v.eq(hq) and mentions(v, {hname}):
                # read of the element written, spelled with the loop index
                for c in flatten_and(cs):
                    s = solve_for(c, j)
                    if s is not None:
                        v = simp(z3.substitute(v, (j, s)))
                        break
                # HOLE may only occur at the element itself
                for x in subapps(v, hname):
                    if not x.eq(hq):
                        return None
            lv.append((cs, v))
        writes = [(d, v) for c, v in lv if not v.eq(hq) for d in split_or(flatten_and(c))]
        if any(mentions(c, {hname}) for cs, _ in writes for c in cs):
            return None
        g = self.guard
        S = lambda term, idx, jj: unz(simp(z3.substitute(toz(term), *([(a, toz(b, I)) for a, b in zip(q, idx)] + [(j, toz(jj, I))]))))
        if not writes:
            return lambda m, idx, efn: efn(idx)
        W = b_or(*[b_and(*cs) for cs, _ in writes])
        if len(writes) > 1:
            # conditions that only choose the value written
            com = [c for c in writes[0][0] if all(any(c.eq(d) for d in cs) for cs, _ in writes[1:])]
            rest = b_or(*[b_and(*[c for c in cs if not any(c.eq(d) for d in com)]) for cs, _ in writes])
            if rest is True or is_z(rest) and eng.pv._solve([z3.Not(toz(rest, B))], 200000)[0] == z3.unsat:
                W = b_and(*com)
        V = None
        for cs, v in writes:
            V = v if V is None else ite(b_and(*cs), v, V)
        jid = {j.decl().get_id()}
        # unique iteration writing this element
        sols = []
        for cs, v in writes:
            s = None
            for c in cs:
                s = solve_for(c, j)
                if s is not None:
                    break
            if s is None:
                sols = None
                break
            if not any(s.eq(o) for o in sols):
                for o in sols:
                    if eng.pv.prove(s == o, eng.pc + rng)[0]:
                        break
                else:
                    sols.append(s)
        if sols is None and len(q) == 1:
            r = self.block_cell(writes, q[0], j, ctx, rng, hname)
            if r is not None:
                return r
        dep = any(has_const(toz(c), jid) for cs, _ in writes for c in cs)
        nohole = not mentions(toz(V), {hname})
        if sols is not None and (len(sols) == 1 or (nohole and len(sols) <= 3)):
            self.last_sols = lambda idx: [S(s, idx, 0) for s in sols]
            def closed(m, idx, efn):
                valid, vals = [], []
                js = []
                for s in sols:
                    jj = S(s, idx, 0)
                    w = b_and(cmp('<=', 0, jj), cmp('<', jj, m), g(jj) if g else True, S(W, idx, jj))
                    val = S(V, idx, jj)
                    if not nohole:
                        val = unz(z3.substitute(toz(val), (S(hq, idx, 0), toz(efn(idx), toz(val).sort()))))
                    valid.append(w), vals.append(val), js.append(jj)
                r = efn(idx)
                if len(sols) == 1:
                    return ite(valid[0], vals[0], r)
                # last writer wins
                for a in range(len(sols)):
                    last = b_and(valid[a], *[b_or(b_not(valid[b]), cmp('<=', js[b], js[a])) for b in range(len(sols)) if b != a])
                    r = ite(last, vals[a], r)
                return r
            return closed
        if nohole and not dep:
            vdep = has_const(toz(V), jid)
            if g is None:
                return lambda m, idx, efn: ite(b_and(cmp('>', m, 0), S(W, idx, 0)), S(V, idx, sub(m, 1)), efn(idx))
            if not vdep:
                return lambda m, idx, efn: ite(b_and(mk_any(m, g), S(W, idx, 0)), S(V, idx, 0), efn(idx))
            return None
        # accumulation
        if hq is None or hq.sort() not in (R, I):
            if hq is not None and hq.sort() == B and nohole is False:
                t1 = simp(z3.substitute(t, (hq, z3.BoolVal(True))))
                t0 = simp(z3.substitute(t, (hq, z3.BoolVal(False))))
                if z3.is_true(t1):
                    return lambda m, idx, efn: b_or(efn(idx), mk_any(m, lambda k: b_and(g(k) if g else True, S(t0, idx, k))))
            return None
        dl = None
        for cs, v in writes:
            d = som(v - hq)
            if mentions(d, {hname}):
                return None
            dl = ite(b_and(*cs), unz(d), dl if dl is not None else Fraction(0) if hq.sort() == R else 0)
        if hq.sort() != R:
            return None
        return lambda m, idx, efn: add(efn(idx), mk_sum(m, lambda k: ite(g(k), S(dl, idx, k), Fraction(0)) if g else S(dl, idx, k)))

    def block_cell(self, writes, q, j, ctx, rng, hname):
        """iteration j writes (part of) the block j*m <= q < j*m + m: the element q comes from iteration q // m"""
        eng = self.eng
        if any(mentions(x, {hname}) for cs, v in writes for x in list(cs) + [v]):
            return None
        prods = {x.get_id(): x for cs, _ in writes for c in cs for x in subapps(c, 'IMUL') if T.idivfactor(x, j) is not None}
        k = eng.pv.sk('k')
        for p in prods.values():
            m = T.idivfactor(p, j)
            if has_const(m, {j.decl().get_id()}):
                continue
            inb = [simp(p <= q), simp(q < p + m)]
            pos = [simp(m > 0)]
            if not eng.pv.prove(pos[0], eng.pc)[0]:
                continue
            if not all(eng.pv.prove(z3.And(*inb), eng.pc + ctx + rng + cs)[0] for cs, _ in writes):
                continue
            at = lambda t: simp(z3.substitute(toz(t), (q, p + k)))
            kr = eng.pc + ctx + [k >= 0, k < m]
            ws = []
            for cs, v in writes:
                cs = [c for c in map(at, cs) if not eng.pv.prove(c, kr)[0]]
                ws.append((cs, at(v)))
            W = b_or(*[b_and(*cs) for cs, _ in ws])
            V = None
            for cs, v in ws:
                V = v if V is None else ite(b_and(*cs), v, V)
            if eng.pv.prove(toz(W, B), kr)[0]:
                W = True
            g = self.guard

            def closed(mm, idx, efn, m=m, W=W, V=V):
                a, b = T.fdiv(toz(idx[0], I), m), T.fmod(toz(idx[0], I), m)
                S = lambda t: unz(simp(z3.substitute(toz(t), (j, toz(a, I)), (k, toz(b, I)))))
                c = b_and(cmp('<=', 0, idx[0]), cmp('<=', 0, a), cmp('<', a, mm), g(a) if g else True, S(W))
                return ite(c, S(V), efn(idx))
            self.block = (p, m)
            return closed
        return None

    # ------------------------------------------------------------ checking
    def check(self, norm, mark, j):
        """items whose closed form is not an invariant"""
        eng = self.eng
        bad = []
        if norm:
            merged = self.merge(norm, mark)
            known = {(id(ob), n) for ob, n in [(self.items[k].ob, self.items[k].name) for k in self.order]}
            for k, (ob, st) in merged.items():
                if ob.birth >= mark[1] or isinstance(ob, (Cell, PList)):
                    if ob.birth < mark[1] and (id(ob), None) not in known:
                        raise Unsupported("loop modifies an unexpected object")
                    continue
        else:
            merged = {}
        ctx = self.context(j)
        for key in self.order:
            it = self.items[key]
            if it.closed is None or it.dead:
                continue
            after = self.value_after(it, merged)
            if not self.holds(it, after, j, ctx):
                bad.append(it)
        return bad

    def holds(self, it, after, j, ctx):
        eng = self.eng
        n0 = len(eng.pc)
        try:
            if isinstance(it.ob, PList):
                return getattr(it, 'trusted_list', False)
            if isinstance(it.ob, Cell):
                q = tuple(eng.pv.sk('q') for _ in it.ob.shape)
                rng = []
                for x, s in zip(q, it.ob.shape):
                    rng += [simp(0 <= x), simp(toz(cmp('<', x, s)))]
                def pr(a, b, extra):
                    x = common(eng, a, b)
                    return x is not None and eq_elem(eng, *x, eng.pc + rng + extra) or eq_elem(eng, a, b, eng.pc + rng + extra)
                if not pr(it.closed(0)(q), it.entry[0](q), []):
                    return False
                self.after_fn = after
                if after is not None and not self.preserved(it, q, it.closed(add(j, 1))(q), after(q), j, pr, ctx):
                    return False
                if self.guard is not None:
                    ng = simp(z3.Not(toz(self.guard(j), B)))
                    if not pr(it.closed(add(j, 1))(q), it.closed(j)(q), ctx[:2] + [ng]):
                        return False
                return True
            pr = lambda a, b, extra: eq_elem(eng, a, b, eng.pc + extra)
            if not pr(it.closed(0), it.entry, []):
                return False
            if after is not None and it.step is not None and is_scalar(after) and not isinstance(after, float):
                # sum over m + 1 terms = sum over m terms + the m-th term
                d = simp(eng.pv.deep(simp(som(toz(after, R) - toz(it.closed(j), R))), eng.pc + ctx))
                d = som(d - toz(it.step(j), R))
                if z3.is_rational_value(d) and d.as_fraction() == 0:
                    return True
            if after is not None and not pr(it.closed(add(j, 1)), after, ctx):
                return False
            if self.guard is not None:
                ng = simp(z3.Not(toz(self.guard(j), B)))
                if not pr(it.closed(add(j, 1)), it.closed(j), ctx[:2] + [ng]):
                    return False
            return True
        finally:
            del eng.pc[n0:]

    def preserved(self, it, q, a, b, j, pr, ctx):
        if it.block and it.closed is not None and not it.dead:
            # q in the block written by this iteration (spelled j*m + k), or in another one
            p, m, j0 = it.block
            p = z3.substitute(p, (j0, j))
            k = self.eng.pv.sk('k')
            after = self.after_fn
            f = T.flat(j, k, m)
            if not pr(it.closed(add(j, 1))((f,)), after((p + k,)), ctx + [k >= 0, k < m]):
                return False
            d = T.fdiv(q[0], m)
            return all(pr(a, b, ctx + [c, toz(cmp('!=', d, j), B)]) for c in (q[0] < p, q[0] >= p + m))
        if not it.nv and (it.sols is None or len(it.sols(q)) != 1 or not is_z(a) or not is_z(b) or max(count_ite(a), count_ite(b)) <= 8):
            return pr(a, b, ctx)
        # cases: this iteration writes the element / another one does
        sub1 = lambda t, s: unz(simp(z3.substitute(toz(t), (j, toz(s, I))))) if is_z(t) else t
        subn = lambda v, s: NV(sub1(v.flag, s), sub1(v.val, s)) if isinstance(v, NV) else sub1(v, s)
        other = []
        for s in (it.sols(q) if it.sols is not None else []):
            if not pr(subn(a, s), subn(b, s), [toz(sub1(c, s), B) for c in ctx]):
                return False
            other.append(toz(b_not(cmp('==', j, s)), B))
        return pr(a, b, ctx + other)

    def kill(self, it):
        it.dead = True
        if isinstance(it.ob, Cell):
            f = self.eng.fresh.fn('HAVOC', *([I, I] + [I] * len(it.ob.shape) + [sort_of_kind(it.ob.kind)][-1:])) if False else \
                self.eng.fresh.fn('HAVOC', *([I] * (len(it.ob.shape) + 1) + [sort_of_kind(it.ob.kind)]))
            if it.nv:
                f2 = self.eng.fresh.fn('HAVOCnan', *([I] * (len(it.ob.shape) + 1) + [B]))
                it.closed = lambda m: (lambda idx: NV(f2(*([toz(m, I)] + [toz(i, I) for i in idx])), f(*([toz(m, I)] + [toz(i, I) for i in idx]))))
                return
            it.closed = lambda m: (lambda idx: f(*([toz(m, I)] + [toz(i, I) for i in idx])))
        elif isinstance(it.ob, PList):
            it.closed = lambda m: (self.eng.fresh('len', I), self.no_elem, ())
        else:
            it.closed = lambda m: Poison('loop variable ' + str(it.name))

    def put_final(self, it):
        self.put(it, it.closed(self.N))


def subapps(t, name):
    if name is None:
        return []
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() == name:
                out.append(x)
            st.extend(x.children())
    return out


def count_ite(t):
    n, st, seen = 0, [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        n += x.decl().kind() == z3.Z3_OP_ITE
        st.extend(x.children())
    return n


def common(eng, a, b):
    """large conditional values that occur in both terms, replaced by symbols (equality then holds for all their values)"""
    if not is_z(a) or not is_z(b) or max(count_ite(a), count_ite(b)) <= 8:
        return None
    def ites(t):
        out, st, seen = {}, [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.sort() == R and x.decl().kind() == z3.Z3_OP_ITE:
                out[x.get_id()] = x
            st.extend(x.children())
        return out
    shared = ites(b)
    st, subs, seen = [a], {}, set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.get_id() in shared and not a.eq(x):
            subs[x.get_id()] = (x, eng.pv.sk('v', R))
            continue
        st.extend(x.children())
    if not subs:
        return None
    return [z3.substitute(t, *subs.values()) for t in (a, b)]


def _same_val(a, b):
    if is_scalar(a) and is_scalar(b):
        return _same(a, b) if sortof(a) == sortof(b) else False
    return a is b


def eq_elem(eng, a, b, pc):
    if isinstance(a, NV) or isinstance(b, NV):
        a = a if isinstance(a, NV) else NV(False, a)
        b = b if isinstance(b, NV) else NV(False, b)
        fa, fb = toz(a.flag, B), toz(b.flag, B)
        if not eng.pv.prove(simp(fa == fb), pc)[0]:
            return False
        if z3.is_true(simp(fa)):
            return True
        return eng.pv.prove(cmp('==', a.val, b.val), pc + [simp(z3.Not(fa))])[0]
    if not is_scalar(a) or not is_scalar(b):
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return not is_z(a) and not is_z(b) and a == b
    if sortof(a) == B and sortof(b) == B:
        return eng.pv.prove(simp(toz(a) == toz(b)), pc)[0]
    return eng.pv.prove(cmp('==', a, b), pc)[0]


def summarize(eng, N, guard, body, st):
    LoopRun(eng, N, guard, body, st).run()
