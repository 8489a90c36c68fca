"""Symbolic arrays: axes are index domains given by predicates, contents are functions from index
representatives to terms.  Basic slicing gives write-through views; everything else copies."""
from . import term as t_
from .term import (T, term, const, var, fresh, app, and_, or_, not_, ite, eq, ne, lt, le, add, sub, mul, div,
                   exists, forall, count, sum_, subst, TRUE, FALSE, ZERO, ONE, is_c, solve_for)


class Unsupported(Exception):
    """construct outside the verified subset"""


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


# ------------------------------------------------------------------------------------------- axes
class Axis:
    sorts = ('I',)

    def vars(self, hint='r'):
        return tuple(fresh(s, hint) for s in self.sorts)

    def same(self, other):
        return self is other or self.key == other.key

    @property
    def const_n(self):
        return None

    def closed(self, vs, body):
        return t_._close('axis', list(vs), (body,), 'I')


class RangeAx(Axis):
    def __init__(self, n):
        self.n = term(n)
        self.key = ('R', self.n.id)

    def dom(self, r):
        return and_(le(ZERO, r[0]), lt(r[0], self.n))

    def card(self):
        return self.n

    def before(self, a, b):
        return lt(a[0], b[0])

    @property
    def const_n(self):
        return self.n.args[0] if is_c(self.n) else None

    def pos(self, r):
        return r[0]

    def at(self, p):
        return (p,)


class DomAx(Axis):
    """ordered subset of the integers given by a predicate (a boolean-mask selection of a range)"""

    def __init__(self, pred):
        self.pred = pred
        v = fresh('I', 'd')
        self.key = ('D', self.closed([v], pred(v)).id)

    def dom(self, r):
        return self.pred(r[0])

    def card(self):
        v = fresh('I', 'd')
        return count([v], self.pred(v))

    def before(self, a, b):
        return lt(a[0], b[0])

    def pos(self, r):
        """number of elements before r"""
        v = fresh('I', 'd')
        return count([v], and_(lt(v, r[0]), self.pred(v)))


class KeyAx(Axis):
    """the distinct keys of np.unique, in increasing order"""

    def __init__(self, sorts, pred):
        self.sorts = tuple(sorts)
        self.pred = pred
        vs = self.vars('k')
        self.key = ('K', self.sorts, self.closed(vs, pred(*vs)).id)

    def dom(self, r):
        return self.pred(*r)

    def card(self):
        vs = self.vars('k')
        return count(vs, self.pred(*vs))

    def before(self, a, b):
        out = FALSE
        for x, y in reversed(list(zip(a, b))):
            out = or_(lt(x, y), and_(eq(x, y), out))
        return out


class FiltAx(Axis):
    def __init__(self, base, pred):
        self.base, self.pred, self.sorts = base, pred, base.sorts
        vs = self.vars('f')
        self.key = ('F', base.key, self.closed(vs, pred(*vs)).id)

    def dom(self, r):
        return and_(self.base.dom(r), self.pred(*r))

    def card(self):
        vs = self.vars('f')
        return count(vs, self.dom(vs))

    def before(self, a, b):
        return self.base.before(a, b)


class PermAx(Axis):
    """the elements of base in another order; bef(a, b): a is certainly before b"""

    def __init__(self, base, bef, key):
        self.base, self.bef, self.sorts = base, bef, base.sorts
        self.key = ('P', base.key, key)

    def dom(self, r):
        return self.base.dom(r)

    def card(self):
        return self.base.card()

    def before(self, a, b):
        return self.bef(a, b)

    def canonical_card(self):
        return self.base


class ProdAx(Axis):
    def __init__(self, parts):
        self.parts = parts
        self.sorts = tuple(s for p in parts for s in p.sorts)
        self.key = ('X',) + tuple(p.key for p in parts)

    def split(self, r):
        out, i = [], 0
        for p in self.parts:
            out.append(tuple(r[i:i + len(p.sorts)]))
            i += len(p.sorts)
        return out

    def dom(self, r):
        return and_(*[p.dom(x) for p, x in zip(self.parts, self.split(r))])

    def card(self):
        return mul(*[p.card() for p in self.parts])

    def before(self, a, b):
        raise Unsupported('order on a product axis')


class EndAx(Axis):
    """axis without its first (tail) or last (init) element"""

    def __init__(self, base, which):
        self.base, self.which, self.sorts = base, which, base.sorts
        self.key = (which, base.key)

    def dom(self, r):
        vs = self.base.vars('e')
        other = self.base.before(vs, r) if self.which == 'tail' else self.base.before(r, vs)
        return and_(self.base.dom(r), exists(vs, and_(self.base.dom(vs), other)))

    def card(self):
        n = self.base.card()
        return ite(lt(ZERO, n), sub(n, ONE), ZERO)

    def before(self, a, b):
        return self.base.before(a, b)


class HeadAx(Axis):
    """a constant element followed by the elements of base (np.r_[x, base]); rep = (is_head, base rep)"""

    def __init__(self, base):
        self.base = base
        self.sorts = ('B',) + tuple(base.sorts)
        self.key = ('H', base.key)

    def dom(self, r):
        z = [eq(x, const(0, x.sort)) for x in r[1:]]
        return ite(r[0], and_(*z), self.base.dom(r[1:]))

    def card(self):
        return add(ONE, self.base.card())

    def before(self, a, b):
        return ite(a[0], not_(b[0]), and_(not_(b[0]), self.base.before(a[1:], b[1:])))


def map_axis(ax, f):
    """the axis with f applied to its definition (substitution of enclosing variables)"""
    vs = ax.vars('m')
    if f(ax.dom(vs)) is ax.dom(vs):
        return ax
    if isinstance(ax, RangeAx):
        return RangeAx(f(ax.n))
    if isinstance(ax, DomAx):
        return DomAx(lambda v: f(ax.pred(v)))
    if isinstance(ax, KeyAx):
        return KeyAx(ax.sorts, lambda *k: f(ax.pred(*k)))
    if isinstance(ax, FiltAx):
        return FiltAx(map_axis(ax.base, f), lambda *k: f(ax.pred(*k)))
    if isinstance(ax, ProdAx):
        return ProdAx([map_axis(p, f) for p in ax.parts])
    if isinstance(ax, HeadAx):
        return HeadAx(map_axis(ax.base, f))
    if isinstance(ax, EndAx):
        return EndAx(map_axis(ax.base, f), ax.which)
    raise Unsupported('substitution in an axis')


def sub_axis(ax, pred):
    """rows of ax satisfying pred(rep)"""
    if isinstance(ax, (RangeAx, DomAx)):
        return DomAx(lambda v: and_(ax.dom((v,)), pred((v,))))
    return FiltAx(ax, lambda *k: pred(tuple(k)))


def axis_params(ax):
    """(canonical key, variables of enclosing iterations the axis depends on)"""
    vs, ws = ax.vars('p'), ax.vars('p')
    dom = ax.dom(vs)
    try:
        bef = ax.before(vs, ws)
    except Unsupported:
        bef = FALSE
    fvs = sorted((dom.fv | bef.fv) - set(vs) - set(ws), key=lambda v: v.id)
    canon = {v: var(f'@{i}', v.sort) for i, v in enumerate(fvs)}
    key = t_._close('axis', list(vs) + list(ws), (subst(dom, canon), subst(bef, canon)), 'I').id
    return (key, ax.key if isinstance(ax, PermAx) else None), fvs


def pos_term(ax, r):
    """position of element r in the axis, kept symbolic so that indexing by it is exact"""
    if isinstance(ax, RangeAx):
        return r[0]
    key, fvs = axis_params(ax)
    fn = ('pos', key)
    if fn not in POS:
        v = fresh('I', 'd')
        canon = [var(f'@{i}', x.sort) for i, x in enumerate(fvs)]
        POS[fn] = (v, subst(ax.pred(v), dict(zip(fvs, canon))), canon) if isinstance(ax, DomAx) else None
    return app(fn, tuple(r) + tuple(fvs), 'I')


def pos_rep(ax, v):
    """the element whose position on the axis is the term v, if v was made by pos_term"""
    if v.op == 'app' and isinstance(v.args[0], tuple) and v.args[0][0] == 'pos':
        key, fvs = axis_params(ax)
        k = len(ax.sorts)
        if v.args[0] == ('pos', key) and list(v.args[1 + k:]) == fvs:
            return tuple(v.args[1:1 + k])
    return None


POS = {}


def expand_pos(t):
    """replace symbolic positions on integer subsets by their definition (number of elements before)"""
    def f(x):
        if x.op == 'app' and isinstance(x.args[0], tuple) and x.args[0][0] == 'pos' and POS[x.args[0]] is not None:
            v, body, canon = POS[x.args[0]]
            r = x.args[1]
            b = subst(body, dict(zip(canon, x.args[2:])))
            return count([v], and_(lt(v, r), b))
        return None
    if not any(x.op == 'app' and isinstance(x.args[0], tuple) for x in t_.subterms(t)):
        return t
    return t_.rewrite(t, f)


def axis_of_size(n):
    """the axis of np.zeros(n): a count of integers is identified with the subset it counts"""
    n = term(n)
    if n.op == 'count' and len(n.args[0]) == 1 and n.args[0][0].sort == 'I':
        def pred(v, n=n):
            vs, b = t_.open_(n)
            return subst(b, {vs[0]: v})
        return DomAx(pred)
    if n.op == 'count':
        def kp(*ks, n=n):
            vs, b = t_.open_(n)
            return subst(b, dict(zip(vs, ks)))
        return KeyAx([v.sort for v in n.args[0]], kp)
    return RangeAx(n)


SORT = {'f8': 'R', 'f4': 'R', 'i8': 'I', 'i4': 'I', 'u8': 'I', 'u1': 'I', 'u2': 'I', 'i1': 'I', 'i2': 'I', 'b': 'B', 'O': 'O', 'U': 'S'}
KIND = {'f8': 4, 'i8': 3, 'u8': 3, 'i4': 2, 'u1': 1, 'b': 0}
RANGE = {'u1': (0, 255), 'u2': (0, 65535), 'i1': (-128, 127), 'i2': (-32768, 32767)}


def narrow(t, dtype):
    """value kept by a narrow type: itself when representable, otherwise an unspecified value"""
    if dtype == 'f4':
        if is_c(t) and float(t.args[0]) in (-1.0, 0.0, 1.0) or t.op == 'toreal':
            return t
        return app('float32', (t,), 'R')
    if dtype not in RANGE:
        return t
    lo, hi = RANGE[dtype]
    if t.op == 'ite':
        return ite(t.args[0], narrow(t.args[1], dtype), narrow(t.args[2], dtype))
    if is_c(t) and lo <= t.args[0] <= hi:
        return t
    return ite(and_(le(const(lo), t), le(t, const(hi))), t, app('wrap_' + dtype, (t,), 'I'))


def result_dtype(a, b):
    if a == b:
        return a
    if 'f8' in (a, b):
        return 'f8'
    if 'f4' in (a, b):
        raise Unsupported('single precision arithmetic')
    if {a, b} == {'i8', 'u8'}:
        return 'f8'
    if a in KIND and b in KIND:
        return a if KIND[a] >= KIND[b] else b
    raise Unsupported(f'dtypes {a} {b}')


# ------------------------------------------------------------------------------------------- arrays
class Store:
    def __init__(self, axes, get, dtype, name=None):
        self.axes, self.get, self.dtype = list(axes), get, dtype
        self.id = uid()
        self.name = name


class Arr:
    """view of a store.  smap: per store axis  ('c', rep)  |  ('a', view axis)  |  ('s', view axis, offset)"""

    def __init__(self, store, axes, smap):
        self.store, self.axes, self.smap = store, list(axes), smap

    @property
    def dtype(self):
        return self.store.dtype

    @property
    def sort(self):
        return SORT[self.dtype]

    @property
    def ndim(self):
        return len(self.axes)

    def srep(self, reps):
        out = []
        for m in self.smap:
            if m[0] == 'c':
                out.append(m[1])
            elif m[0] == 'a':
                out.append(reps[m[1]])
            elif m[0] == 's':
                out.append((add(reps[m[1]][0], m[2]),))
            elif m[0] == 'p':       # component of a product axis
                ax, j = m[2], m[3]
                out.append(ax.split(reps[m[1]])[j])
        return out

    def at(self, reps):
        assert len(reps) == len(self.axes), (reps, self.axes)
        return self.store.get(self.srep(reps))

    def freeze(self):
        """closure over the current contents"""
        g, sr = self.store.get, self.srep
        return lambda reps: g(sr(reps))


def new(axes, get, dtype, name=None):
    st = Store(axes, get, dtype, name)
    return Arr(st, axes, [('a', i) for i in range(len(axes))])


def conv(t, dtype_from, dtype_to):
    """dtype conversion of a value"""
    s = SORT[dtype_to]
    if t.sort == s:
        return t if dtype_from == dtype_to else narrow(t, dtype_to)
    if s == 'R':
        return narrow(term(t, 'R'), dtype_to)
    if s == 'I':
        if t.sort == 'B':
            return term(t, 'I')
        if t.sort == 'R':
            return narrow(trunc(t), dtype_to)
    if s == 'B':
        return ne(t, const(0, t.sort))
    raise Unsupported(f'conversion {dtype_from} -> {dtype_to}')


def trunc(t):
    if t.op == 'toreal':
        return t.args[0]
    if is_c(t):
        return const(int(t.args[0]), 'I')
    if t.op == 'ite':
        return ite(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    f = t_.floor_(t)
    return ite(le(const(0, 'R'), t), f, t_.neg(t_.floor_(t_.neg(t))))


def astype(a, dtype):
    g, d = a.freeze(), a.dtype
    return new(a.axes, lambda r: conv(g(r), d, dtype), dtype)


def copy(a):
    return new(a.axes, a.freeze(), a.dtype)


def full(axes, v, dtype):
    v = conv(term(v), None, dtype)
    return new(axes, lambda r: v, dtype)


def is_unit(ax):
    return isinstance(ax, RangeAx) and ax.const_n == 1


def align(axes_list, ctx):
    """broadcast shapes; returns result axes and, per operand, a function result reps -> operand reps"""
    nd = max(len(a) for a in axes_list)
    res = []
    pick = [[None] * nd for _ in axes_list]
    for d in range(nd):
        cands = []
        for oi, axs in enumerate(axes_list):
            j = d - (nd - len(axs))
            if j >= 0:
                cands.append((oi, j, axs[j]))
        best = None
        for oi, j, ax in cands:
            if is_unit(ax):
                continue
            if best is None:
                best = ax
            elif best.same(ax):
                pass
            elif isinstance(best, EndAx) and isinstance(ax, EndAx) and best.which == 'init' and ax.which == 'tail' and best.base.same(ax.base):
                best = ax
            elif isinstance(best, EndAx) and isinstance(ax, EndAx) and best.which == 'tail' and ax.which == 'init' and best.base.same(ax.base):
                pass
            elif ctx.axes_equal(best, ax):
                if isinstance(best, RangeAx) and not isinstance(ax, RangeAx):
                    best = ax
            else:
                raise Unsupported(f'cannot align axes {best.key} and {ax.key}')
        if best is None:
            best = cands[0][2]
        res.append(best)
        for oi, j, ax in cands:
            if is_unit(ax) and not is_unit(best):
                pick[oi][d] = lambda r: (ZERO,)
            elif isinstance(best, EndAx) and best.which == 'tail' and isinstance(ax, EndAx) and ax.which == 'init':
                base = best.base
                pick[oi][d] = lambda r, base=base: ctx.pred_of(base, r)
            else:
                pick[oi][d] = lambda r: r
    maps = []
    for oi, axs in enumerate(axes_list):
        off = nd - len(axs)

        def m(reps, oi=oi, off=off, n=len(axs)):
            return [pick[oi][off + j](reps[off + j]) for j in range(n)]
        maps.append(m)
    return res, maps


def elementwise(f, operands, ctx, dtype):
    """operands: Arr or scalar T"""
    arrs = [o for o in operands if isinstance(o, Arr)]
    axes, maps = align([a.axes for a in arrs], ctx)
    gets = [a.freeze() for a in arrs]

    def get(reps):
        vals, i = [], 0
        for o in operands:
            if isinstance(o, Arr):
                vals.append(gets[i](maps[i](reps)))
                i += 1
            else:
                vals.append(o)
        return f(*vals)
    return new(axes, get, dtype)


def reduce_axis(a, axis, kind, ctx):
    """sum / any / all / max / min over one axis (or None = all)"""
    axes = list(range(a.ndim)) if axis is None else [axis % a.ndim] if isinstance(axis, int) else [x % a.ndim for x in axis]
    g, sort = a.freeze(), a.sort
    rest = [i for i in range(a.ndim) if i not in axes]

    def get(reps):
        vs, conds = [], []
        full_ = [None] * a.ndim
        for j, i in enumerate(rest):
            full_[i] = reps[j]
        todo = []
        for i in axes:
            ax = a.axes[i]
            if ax.const_n is not None and ax.const_n <= 16:
                todo.append(i)
            else:
                full_[i] = ax.vars('s')
                vs += list(full_[i])
                conds.append(ax.dom(full_[i]))

        def expand(k, fl):
            if k == len(todo):
                x = g(fl)
                if kind == 'sum':
                    x = term(x, 'I') if x.sort == 'B' else x
                    return sum_(vs, and_(*conds), x) if vs else x
                x = ne(x, const(0, x.sort)) if x.sort != 'B' else x
                if kind == 'any':
                    return exists(vs, and_(*conds, x))
                return forall(vs, or_(*[not_(c) for c in conds], x))
            outs = []
            for c in range(a.axes[todo[k]].const_n):
                f2 = list(fl)
                f2[todo[k]] = (const(c),)
                outs.append(expand(k + 1, f2))
            if kind == 'sum':
                return add(*outs) if outs else const(0, 'R' if sort == 'R' else 'I')
            return or_(*outs) if kind == 'any' else and_(*outs)
        return expand(0, full_)
    if kind == 'sum':
        dt = {'b': 'i8', 'i4': 'i8', 'u1': 'u8', 'u2': 'u8', 'i1': 'i8', 'i2': 'i8'}.get(a.dtype, a.dtype)
        if dt == 'f4':
            raise Unsupported('single precision sum')
    else:
        dt = 'b'
    if not rest:
        return get([]), dt
    return new([a.axes[i] for i in rest], get, dt), dt
