"""Contracts of sorting: the sink receives every row of the source once, in the order asked for, for any number of tables,
batches and rows.  The merge is verified with an invariant (vc/merge.py); the columns sorted by are fixed lists."""
from .base import *
from vc.store import *
from vc.merge import *
from vc.loops import *

P = 'valor_lite.cache.persistent.'
E = 'valor_lite.cache.ephemeral.'
K = 'valor_lite.cache.compute.'


class Tab:
    """a table: a bag of rows (parts known by name) and how it is ordered"""

    def __init__(self, seq, order=None):
        self.seq, self.order = tuple(seq), order

    def map_terms(self, f):
        return Tab(map_seq(self.seq, f), self.order)

    def sym_attr(self, I, a):
        if a == 'sort_by':
            return Fn(lambda I, sorting: Tab(self.seq, keys_of(I, sorting)))
        if a == 'num_rows':
            return rows_in(self.seq)
        raise Unsupported(f'table.{a}')

    def sym_len(self, I):
        return rows_in(self.seq)

    def sym_is(self, I, b):
        return FALSE


def keys_of(I, sorting):
    return tuple(tuple(x) for x in I.concrete_seq(sorting))


def concat(I, v):
    def get(b):
        if not isinstance(b, Tab):
            raise Unsupported('joining something else')
        return list(b.seq)
    return Tab(seq_of(I, v, get))


class Scratch:
    """a directory of its own that is removed afterwards"""

    def sym_enter(self, I):
        return self

    def sym_exit(self, I):
        I.sort.removed = True

    def sym_binop(self, I, op, b):
        if op != 'Div' or not isinstance(b, str):
            raise Unsupported('path')
        return Scratch()


class World:
    """source, sink and intermediate cache of a sort"""

    def __init__(self, c, keys, sink, override):
        self.c, I = c, c.I
        I.sort = self
        self.keys = tuple(keys)
        self.nt = c.size('tables')
        q = fresh('S', 'q')
        c.require(forall([q], le(ZERO, app('nrows', (q,), 'I'))))
        self.source = Inst(c.func(P + 'FileCacheReader'))
        self.mem = sink == 'mem'
        self.sink = Inst(c.func((E + 'MemoryCacheWriter') if self.mem else (P + 'FileCacheWriter')))
        for n in ('_schema', '_batch_size', '_rows_per_file', '_compression', '_path'):
            self.sink.attrs[n] = ('sink', n)
        self.inter = Inst(c.func(P + 'FileCacheWriter'))
        self.reader = Inst(c.func(P + 'FileCacheReader'))
        self.sorting = PyList.of(list(self.keys))
        self.columns = var('columns', 'S')
        self.batch_size = var('batch_size', 'I')
        self.given = Fn(lambda I, t: self.over(t)) if override else None
        self.writes, self.inter_writes, self.calls = PyList(), PyList(), PyList()
        self.st = HDict({'flushed': False, 'late': True})
        self.M = None

    @staticmethod
    def name(t):
        return app('table', (t,), 'S')

    def over(self, t):
        if not isinstance(t, Tab) or len(t.seq) != 1 or t.seq[0][0] != 'one' or t.order:
            raise Unsupported('the override of something else')
        return Tab((atom(app('override', (t.seq[0][1],), 'S')),), 'override')

    def tables(self, I, b):
        if b['self'] is not self.source or b.get('filter') is not None:
            raise Unsupported('another reader')
        I.obl('columns', const(b['columns'] is self.columns), 'the columns asked for')
        if I.known(eq(self.nt, ONE)) is True:
            return PyList.of([Tab((atom(self.name(ZERO)),))])
        t = fresh('I', 't')
        return PyList([('seg', (t,), and_(le(ZERO, t), lt(t, self.nt)), (('one', Tab((atom(self.name(t)),))),))])

    def write_table(self, I, b):
        x = b['table']
        if not isinstance(x, Tab):
            raise Unsupported('writing something else')
        log = self.inter_writes if b['self'] is self.inter else self.writes if b['self'] is self.sink else None
        if log is None:
            raise Unsupported('another cache')
        I.call_method(log, 'append', [x]) if hasattr(I, 'call_method') else I.heap_set(log, 'parts', log.parts + (('one', x),))

    def write_batch(self, I, b):
        if b['self'] is not self.sink or self.M is None:
            raise Unsupported('another cache')
        write_rows(self.M, I, b['batch'])

    def flush(self, I, b):
        if b['self'] is self.sink:
            I.heap_set(self.st, 'flushed', True)
            if self.M is not None:
                self.M.set(I, flushed=True)

    def to_reader(self, I, b):
        """one file per table written: the fragments are the tables, each in order"""
        if b['self'] is not self.inter:
            raise Unsupported('another cache')
        self.c.I.pc_at_read = list(I.pc)
        t = fresh('I', 't')
        w = list(self.inter_writes.parts)
        ok = len(w) == 1 and w[0][0] == 'seg' and len(w[0][1]) == 1 and len(w[0][3]) == 1 and w[0][3][0][0] == 'one'
        if not w:
            I.obl('intermediate', eq(self.nt, ZERO), 'every table is written to the intermediate cache')
        elif not ok:
            raise Unsupported('intermediate cache filled in another way')
        else:
            _, (v,), dom, ((_, x),) = w[0]
            I.obl('intermediate', forall([v], iff(dom, and_(le(ZERO, v), lt(v, self.nt)))), 'every table is written to the intermediate cache')
            self.is_sorted(I, x, v)
        return self.reader

    def is_sorted(self, I, x, t):
        want = self.over(Tab((atom(self.name(t)),))) if self.given is not None else Tab((atom(self.name(t)),), self.keys)
        I.obl('intermediate-rows', const([atom_key(a) for a in x.seq] == [atom_key(a) for a in want.seq]), 'the table itself')
        I.obl('intermediate-order', const(x.order == want.order), 'sorted by the columns asked for')

    def iterators(self, I, b):
        if b['self'] is not self.reader:
            raise Unsupported('another reader')
        I.obl('batch-size', const(b['batch_size'] is self.batch_size), 'rows read at a time')
        f = fresh('I', 'f')
        return SymIter((f,), and_(le(ZERO, f), lt(f, self.nt)), FragIt(self.M, f), lambda a, b: lt(a[0], b[0]), f)

    def create(self, I, b):
        I.obl('scratch', const(isinstance(b['path'], Scratch)), 'the intermediate cache is in a directory of its own')
        I.obl('schema', const(b['schema'] == ('sink', '_schema')), 'the intermediate cache has the schema of the sink')
        return self.inter


on = lambda f: (lambda I, b: getattr(I.sort, f)(I, b))
USES = {P + 'FileCacheReader.iterate_tables': on('tables'), P + 'FileCacheReader.iterate_fragment_batch_iterators': on('iterators'), P + 'FileCache.count_tables': lambda I, b: I.sort.nt,
        P + 'FileCacheWriter.create': on('create')}
for _c in (P + 'FileCacheWriter.', E + 'MemoryCacheWriter.'):
    USES.update({_c + n: on(n) for n in ('write_table', 'write_batch', 'flush', 'to_reader')})
EXT = {**heap_ext(), 'pyarrow.concat_tables': concat, 'tempfile.TemporaryDirectory': lambda I: Scratch(), 'pathlib.Path': lambda I, p: p}

LISTS = {'one': [('a', 'descending')], 'two': [('a', 'ascending'), ('b', 'descending')], 'three': [('b', 'descending'), ('a', 'descending'), ('d', 'ascending')]}


def merges(tag, keys, override):
    def f(c):
        w = World(c, keys, 'file', override)
        M = w.M = Merge(c, w.keys, w.nt)
        c.I.invariants, c.I.while_invariants = [SetUp(M)], [Merging(M)]
        c.run(w.source, w.sink, w.inter, w.batch_size, w.sorting, columns=w.columns, table_sort_override=w.given)
        f, k, i = (fresh('I', x) for x in 'fki')
        c.ensure('every-row-written', forall([f, k, i], implies(M.row(f, k, i), M.st['W'](f, k, i))))
        c.ensure('nothing-else-written', forall([f, k, i], implies(M.st['W'](f, k, i), M.row(f, k, i))))
        c.ensure('merged', const(M.st['read']))
        c.ensure('flushed', const(bool(M.st['flushed'])))
    f.__name__ = 'merge_' + tag
    contract(K + '_merge', ['C15', 'C17'], uses=USES, externals=EXT)(f)


merges('one', LISTS['one'], False)
merges('two', LISTS['two'], False)
merges('three', LISTS['three'], False)
merges('override', LISTS['two'], True)


def use_merge(I, b):
    """contract merge_*: the sink receives every row in order"""
    w = I.sort
    I.obl('precondition', const(b['source'] is w.source and b['sink'] is w.sink and b['intermediate_sink'] is w.inter and keys_of(I, b['sorting']) == w.keys and b['columns'] is w.columns
                                and b['table_sort_override'] is w.given), 'arguments of the merge')
    I.obl('batch-size', const(b['batch_size'] is w.batch_size), 'rows read at a time')
    I.heap_set(w.st, 'merged', True)
    I.heap_set(w.st, 'flushed', True)


def sorts(sink, override):
    def f(c):
        w = World(c, LISTS['two'], sink, override)
        c.I.heap_set(w.st, 'merged', False)
        c.run(w.source, w.sink, w.batch_size, w.sorting, columns=w.columns, table_sort_override=w.given)
        c.ensure('flushed', const(w.st['flushed']))
        log = [p for p in w.writes.parts]
        if w.st['merged']:
            c.ensure('nothing-else', const(not log))
            return
        if not log:
            c.ensure('no-rows', eq(w.nt, ZERO))
            return
        if len(log) == 1 and log[0][0] == 'seg':
            # a table per table of the source: in order only if there is one
            c.ensure('order', le(w.nt, ONE))
            return
        if len(log) != 1 or log[0][0] != 'one':
            raise Unsupported('several tables in the sink')
        x = log[0][1]
        one = c.I.known(eq(w.nt, ONE)) is True
        want = lambda t: w.over(Tab((atom(w.name(t)),))) if override else Tab((atom(w.name(t)),), w.keys)
        if one and [atom_key(a) for a in x.seq] == [atom_key(a) for a in want(ZERO).seq]:
            c.ensure('rows', TRUE)
        else:
            ok = len(x.seq) == 1 and x.seq[0][0] == 'fam' and len(x.seq[0][1]) == 1
            if not ok:
                raise Unsupported('rows of the sink')
            _, (v,), dom, inner = x.seq[0]
            c.ensure('rows', const([atom_key(a) for a in inner] == [atom_key(a) for a in want(v).seq]))
            c.ensure('all-tables', forall([v], iff(dom, and_(le(ZERO, v), lt(v, w.nt)))))
        c.ensure('order', const(x.order == w.keys or (one and override and x.order == 'override')))
    f.__name__ = f'sort_{sink}' + ('_override' if override else '')
    contract(K + 'sort', ['C15', 'C17'], uses={**USES, K + '_merge': use_merge}, externals=EXT)(f)


for _s in ('file', 'mem'):
    for _o in (False, True):
        sorts(_s, _o)
