"""Merging sorted fragments: iterators of batches, a list of current batches, a heap and a sink that only accepts rows in order.

Every fragment f is a sequence of batches (f, k) of rows (f, k, i).  The state the loops work on is held in one record
(positions of the iterators, the lists by index, the heap as a bag of tuples, the rows written), so that an invariant can
be stated over it for any number of fragments, batches and rows."""
import ast
from .arr import *
from .interp import *
from . import term as t_
from .term import *
from .table import Fn, _ops
from .loops import Poison


def lex_le(u, v):
    """u <= v in the order of tuples"""
    if not u:
        return TRUE
    return or_(lt(u[0], v[0]), and_(eq(u[0], v[0]), lex_le(u[1:], v[1:])))


class Merge:
    def __init__(self, c, keys, F):
        self.keys = keys                     # [(column, direction)]
        self.F = F
        self.st = HDict({'iters_n': ZERO, 'iters': None, 'slot_n': ZERO, 'has': None, 'frag': None, 'cur': None, 'pos': lambda f: ZERO,
                         'heap': (), 'heapified': True, 'W': lambda f, k, i: FALSE, 'any': FALSE, 'last': None, 'flushed': False, 'read': False, 'pops': 0})
        f, k, i, k2, i2 = (fresh('I', x) for x in ('f', 'k', 'i', 'k', 'i'))
        c.require(forall([f], le(ZERO, self.nb(f))), forall([f, k], implies(and_(le(ZERO, k), lt(k, self.nb(f))), and_(le(ZERO, self.L(f, k)), implies(lt(add(k, ONE), self.nb(f)), lt(ZERO, self.L(f, k)))))))
        c.require(forall([f, k, i, k2, i2], implies(and_(self.row(f, k, i), self.row(f, k2, i2), or_(lt(k, k2), and_(eq(k, k2), lt(i, i2)))),
                                                    lex_le(self.key(f, k, i), self.key(f, k2, i2)))))

    nb = staticmethod(lambda f: app('batches', (f,), 'I'))
    L = staticmethod(lambda f, k: app('batch_rows', (f, k), 'I'))

    def row(self, f, k, i):
        return and_(le(ZERO, f), lt(f, self.F), le(ZERO, k), lt(k, self.nb(f)), le(ZERO, i), lt(i, self.L(f, k)))

    @staticmethod
    def cell(n, f, k, i):
        return app(('cell', n), (f, k, i), 'R')

    def key(self, f, k, i):
        """the columns of the sorting in the order asked for"""
        return tuple(neg(self.cell(n, f, k, i)) if d == 'descending' else self.cell(n, f, k, i) for n, d in self.keys)

    def set(self, I, **kw):
        for k, v in kw.items():
            I.heap_set(self.st, k, v)

    # ------------------------------------------------------------ invariant over the fragments before n
    def state(self, n, row):
        """clauses: (name, formula) of the state, given the next row of every fragment"""
        s = self.st
        f, k, i = (fresh('I', x) for x in 'fki')
        r = and_(le(ZERO, f), lt(f, n))
        out = [('lists', and_(eq(s['iters_n'], n), eq(s['slot_n'], n)))]
        if s['iters'] is not None:
            out.append(('iterators', forall([f], implies(r, eq(s['iters'](f), f)))))
            has, cur, pos = s['has'](f), s['cur'](f), s['pos'](f)
            act = self.active(f)
            out.append(('current', forall([f], implies(r, and_(implies(has, and_(eq(s['frag'](f), f), le(ZERO, cur), lt(cur, self.nb(f)), eq(pos, add(cur, ONE)))), implies(act, and_(le(ZERO, row(f)), lt(row(f), self.L(f, cur)))),
                                                              implies(not_(act), le(self.nb(f), pos)))))))
            out.append(('written', forall([f, k, i], iff(s['W'](f, k, i), and_(r, self.row(f, k, i), or_(not_(act), lt(k, cur), and_(eq(k, cur), lt(i, row(f)))))))))
            if s['last'] is not None:
                out.append(('order', forall([f], implies(and_(s['any'], r, act), lex_le(s['last'], self.key(f, cur, row(f)))))))
        else:
            out.append(('written', forall([f, k, i], not_(s['W'](f, k, i)))))
        out.append(('positions', forall([f], and_(le(ZERO, s['pos'](f)), implies(le(n, f), eq(s['pos'](f), ZERO))))))
        return out

    def active(self, f):
        """the fragment has a row that is not written"""
        return and_(self.st['has'](f), lt(ZERO, self.L(f, self.st['cur'](f))))

    def elem(self, f, row):
        return (*self.key(f, self.st['cur'](f), row(f)), f, row(f))

    def heap_is(self, n, row, ordered):
        """clauses: the heap holds the next row of every fragment that is not exhausted, once"""
        s = self.st
        f = fresh('I', 'f')
        if s['iters'] is None:
            return [('heap', const(not s['heap']))]
        want = and_(le(ZERO, f), lt(f, n), self.active(f))
        some, only, once = [], [], []
        for a, (vs, dom, e) in enumerate(s['heap']):
            if len(e) != len(self.keys) + 2:
                return [('heap', FALSE)]
            w = self.elem(f, row)
            some.append(exists(list(vs), and_(dom, *[eq(x, y) for x, y in zip(e, w)])))
            g = e[-2]
            only.append(forall(list(vs), implies(dom, and_(le(ZERO, g), lt(g, n), self.active(g), *[eq(x, y) for x, y in zip(e, self.elem(g, row))]))))
            for vs2, dom2, e2 in s['heap'][:a]:
                m = {v: fresh(v.sort, 'o') for v in vs2}
                once.append(forall(list(vs) + list(m.values()), implies(and_(dom, subst(dom2, m)), not_(eq(g, subst(e2[-2], m))))))
            if vs:
                m = {v: fresh(v.sort, 'o') for v in vs}
                once.append(forall(list(vs) + list(m.values()), implies(and_(dom, subst(dom, m), eq(g, subst(g, m))), and_(*[eq(v, w) for v, w in m.items()]))))
        return [('heap.complete', forall([f], implies(want, or_(*some)))), ('heap.only', and_(*only)), ('heap.once', and_(*once)), ('heap.order', const(bool(s['heapified']) or not ordered))]

    def assume(self, I, n, started):
        """a generic state in which the invariant holds"""
        u = 'loop' if started else ('setup' if n is self.F else 'setup+')      # the same names on every path
        row = lambda f: app(('row', u), (f,), 'I')
        cur, has, pos = (lambda f: app(('cur', u), (f,), 'I')), (lambda f: app(('has', u), (f,), 'B')), (lambda f: app(('at', u), (f,), 'I'))
        self.set(I, iters_n=n, slot_n=n, iters=lambda f: f, has=has, frag=lambda f: f, cur=cur, pos=pos, W=lambda f, k, i: app(('written', u), (f, k, i), 'B'),
                 any=var(f'!any{u}', 'B') if started else FALSE, last=tuple(var(f'!last{u}_{j}', 'R') for j in range(len(self.keys))) if started else None, heapified=started, read=True, pops=0)
        f = fresh('I', 'f')
        self.set(I, heap=(((f,), and_(le(ZERO, f), lt(f, n), self.active(f)), self.elem(f, row)),))
        self.row_of = row
        I.pc += [x for _, x in self.state(n, row)]

    def check(self, I, n, note, ordered=False):
        s = self.st
        row = getattr(self, 'row_of', None) if s['iters'] is not None else None
        for vs, dom, e in s['heap']:
            if not vs and row is not None:
                old = row
                row = lambda f, old=old, e=e: ite(eq(f, e[-2]), e[-1], old(f))
        for nm, x in self.state(n, row) + self.heap_is(n, row, ordered):
            I.obl('invariant', x, f'{note}: {nm}')


class FragIt:
    """iterator over the batches of a fragment"""

    def __init__(self, M, f):
        self.M, self.f = M, f

    def map_terms(self, g):
        return FragIt(self.M, g(self.f))

    def sym_next(self, I, *default):
        M, f = self.M, self.f
        pos = M.st['pos']
        p = pos(f)
        M.set(I, pos=lambda g: ite(eq(g, f), add(p, ONE), pos(g)))
        if I.decide(lt(p, M.nb(f))):
            return Batch(M, f, p)
        if not default:
            raise PyRaise('StopIteration')
        return default[0]

    def sym_is(self, I, b):
        return FALSE


class Batch:
    def __init__(self, M, f, k):
        self.M, self.f, self.k = M, f, k

    def map_terms(self, g):
        return Batch(self.M, g(self.f), g(self.k))

    def sym_len(self, I):
        return self.M.L(self.f, self.k)

    def sym_truth(self, I):
        return lt(ZERO, self.sym_len(I))

    def sym_is(self, I, b):
        return const(self is b)

    def sym_getitem(self, I, n):
        if not isinstance(n, str):
            raise Unsupported('column of a batch')
        return BatchCol(self, n)

    def slice(self, I, offset=0, length=None):
        o, n = _ops.scal(offset), _ops.scal(length) if length is not None else None
        return Slice(self, o, n)

    def sym_attr(self, I, a):
        if a == 'num_rows':
            return self.sym_len(I)
        if a == 'column':
            return Fn(lambda I, n: self.sym_getitem(I, n))
        if a == 'slice':
            return Fn(self.slice)
        raise Unsupported(f'batch.{a}')


class BatchCol:
    def __init__(self, b, n):
        self.b, self.n = b, n

    def sym_len(self, I):
        return self.b.sym_len(I)

    def sym_getitem(self, I, i):
        i = _ops.scal(i)
        I.obl('index', and_(le(ZERO, i), lt(i, self.b.sym_len(I))), 'row of a batch')
        return Cell(self.b.M.cell(self.n, self.b.f, self.b.k, i))


class Cell:
    def __init__(self, t):
        self.t = t

    def sym_attr(self, I, a):
        if a == 'as_py':
            return Fn(lambda I: self.t)
        raise Unsupported(f'scalar.{a}')


class Slice:
    def __init__(self, b, o, n):
        self.b, self.o, self.n = b, o, n


class Iters:
    """list of iterators: element f iterates over fragment iters(f)"""

    def __init__(self, M):
        self.M = M

    def sym_len(self, I):
        return self.M.st['iters_n']

    def sym_getitem(self, I, i):
        i = index(I, i, self.M.st['iters_n'])
        return FragIt(self.M, self.M.st['iters'](i))

    def append(self, I, v):
        if not isinstance(v, FragIt):
            raise Unsupported('list of iterators')
        n, old = self.M.st['iters_n'], self.M.st['iters']
        self.M.set(I, iters_n=add(n, ONE), iters=lambda f: ite(eq(f, n), v.f, old(f)))

    def sym_attr(self, I, a):
        if a == 'append':
            return Fn(self.append)
        raise Unsupported(f'list.{a}')

    def sym_truth(self, I):
        return lt(ZERO, self.sym_len(I))


class Slots:
    """list of current batches (or None)"""

    def __init__(self, M):
        self.M = M

    def sym_len(self, I):
        return self.M.st['slot_n']

    def sym_getitem(self, I, i):
        s = self.M.st
        i = index(I, i, s['slot_n'])
        if I.decide(s['has'](i)):
            return Batch(self.M, s['frag'](i), s['cur'](i))
        return None

    def put(self, I, i, v):
        s = dict(self.M.st)
        if v is not None and not isinstance(v, Batch):
            raise Unsupported('list of batches')
        b = v is not None
        self.M.set(I, has=lambda f: ite(eq(f, i), const(b), s['has'](f)))
        if b:
            self.M.set(I, frag=lambda f: ite(eq(f, i), v.f, s['frag'](f)), cur=lambda f: ite(eq(f, i), v.k, s['cur'](f)))

    def sym_setitem(self, I, i, v):
        self.put(I, index(I, i, self.M.st['slot_n']), v)

    def append(self, I, v):
        n = self.M.st['slot_n']
        self.put(I, n, v)
        self.M.set(I, slot_n=add(n, ONE))

    sym_attr, sym_truth = Iters.sym_attr, Iters.sym_truth


def index(I, i, n):
    i = _ops.scal(i)
    I.obl('index', and_(le(ZERO, i), lt(i, n)), 'position in a list')
    return i


class Heap:
    def __init__(self, M):
        self.M = M

    def add(self, I, e):
        if not isinstance(e, tuple):
            raise Unsupported('heap of something else')
        e = tuple(_ops.scal(x) for x in e)
        self.M.set(I, heap=self.M.st['heap'] + (((), TRUE, e),))

    def append(self, I, e):
        self.add(I, e)
        self.M.set(I, heapified=False)

    def some(self):
        return or_(*[exists(list(vs), d) if vs else d for vs, d, e in self.M.st['heap']])

    def sym_truth(self, I):
        return self.some()

    def sym_len(self, I):
        raise Unsupported('length of the heap')

    def sym_attr(self, I, a):
        if a == 'append':
            return Fn(self.append)
        raise Unsupported(f'list.{a}')

    def pop(self, I):
        """the smallest tuple"""
        s = self.M.st
        I.obl('heap', const(bool(s['heapified'])), 'heappop of a list that is not a heap')
        I.obl('non-empty', self.some(), 'heappop of an empty heap')
        hp = s['heap']
        if len(hp) != 1 or len(hp[0][0]) != 1:
            raise Unsupported('heappop of a heap under construction')
        (v,), dom, e = hp[0]
        f0 = var(f"!popped{s['pops']}", 'I')
        self.M.set(I, pops=s['pops'] + 1)
        m = {v: f0}
        e0 = tuple(subst(x, m) for x in e)
        I.pc += [subst(dom, m), forall([v], implies(dom, lex_le(e0, e)))]
        self.M.set(I, heap=(((v,), and_(dom, not_(eq(v, f0))), e),))
        return e0


def heap_ext():
    def on(f):
        def g(I, h, *a):
            if isinstance(h, PyList) and not h.parts and not a and f == 'heapify':
                return None
            if not isinstance(h, Heap):
                raise Unsupported('heap')
            if f == 'heapify':
                h.M.set(I, heapified=True)
            elif f == 'heappush':
                I.obl('heap', const(bool(h.M.st['heapified'])), 'heappush to a list that is not a heap')
                h.add(I, *a)
            else:
                return h.pop(I)
        return g
    return {'heapq.' + f: on(f) for f in ('heapify', 'heappush', 'heappop')}


def roles(M, st, env):
    """the lists of the set-up loop by the way they are used: iterators are read with next, the heap receives tuples"""
    fresh_lists = {n for n, v in env.d.items() if isinstance(v, PyList) and not v.parts}
    used = {n.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Name)} & fresh_lists
    return used


class SetUp:
    """for every fragment so far: its iterator, its first batch, and its first row in the heap"""

    def __init__(self, M):
        self.M = M

    def __call__(self, I, it, st, env):
        e = it.elem
        if not (isinstance(e, tuple) and any(isinstance(x, FragIt) for x in e) or isinstance(e, FragIt)) or self.M.st['read']:
            return None
        self.n = self.M.F
        names = roles(self.M, st, env)
        kinds = {}
        for x in st.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
                    for y in ast.walk(n.args[0]):
                        if isinstance(y, ast.Name) and y.id in names:
                            kinds[y.id] = Iters
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
                    a = n.args[0] if n.args else None
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'next':
                        kinds.setdefault(n.func.value.id, Slots)
                    elif isinstance(a, ast.Name) and any(isinstance(t, ast.Name) and t.id == a.id for t in ast.walk(st.target)):
                        kinds.setdefault(n.func.value.id, Iters)
        rest = names - set(kinds)
        if sorted(k.__name__ for k in kinds.values()) != ['Iters', 'Slots'] or len(rest) != 1:
            raise Unsupported('set-up of a merge in another form')
        kinds[rest.pop()] = Heap
        self.kinds = kinds
        return self

    def owns(self, o):
        return o is self.M.st

    def bind(self, env):
        for n, k in self.kinds.items():
            env[n] = k(self.M)

    def check(self, I, env, n, note):
        self.M.check(I, n, note)

    def assume(self, I, env, n):
        self.M.assume(I, n, False)
        self.bind(env)


class Merging:
    """invariant of the loop that writes the rows"""

    def __init__(self, M):
        self.M = M

    def __call__(self, I, st, env):
        return self if self.M.st['read'] and any(isinstance(v, Heap) for v in env.d.values()) else None

    def owns(self, o):
        return o is self.M.st

    def check(self, I, env, note):
        self.M.check(I, self.M.F, note, True)

    def assume(self, I, env):
        self.M.assume(I, self.M.F, True)


def write_rows(M, I, sl):
    """the sink: one row, not before those written, and not written before"""
    if not isinstance(sl, Slice):
        raise Unsupported('writing something else')
    s = dict(M.st)
    f, k, i = sl.b.f, sl.b.k, sl.o
    I.obl('row', and_(M.row(f, k, i), eq(sl.n, ONE) if sl.n is not None else eq(add(i, ONE), M.L(f, k))), 'one row is written')
    I.obl('written-once', not_(s['W'](f, k, i)), 'the row has been written before')
    key = M.key(f, k, i)
    if s['last'] is not None:
        I.obl('sorted', implies(s['any'], lex_le(s['last'], key)), 'rows are written in order')
    M.set(I, W=lambda a, b, c: or_(s['W'](a, b, c), and_(eq(a, f), eq(b, k), eq(c, i))), last=key, any=TRUE, flushed=False)
