"""Contracts of the caches: what has been written is in the files (or the table) and the buffer, in order, whatever the
state the writer is in; flushing moves all of it to where readers look."""
from .base import *
from vc.store import *
from vc.table import *

P = 'valor_lite.cache.persistent.'
E = 'valor_lite.cache.ephemeral.'
EXT = externals(lambda I: I.disk)


def load_reader(I, b):
    """opens the directory it is given (the reader contracts state what it returns)"""
    return ('reader', b['path'])


USES = {P + 'FileCacheReader.load': load_reader}


def buffered(c):
    """any number of batches waiting in the buffer"""
    n = c.size('buffered')
    k = var('!buffered', 'I')
    ASC.add(k)
    key = app('buffered', (k,), 'S')
    q = fresh('S', 'q')
    c.require(forall([q], and_(le(ZERO, app('nrows', (q,), 'I')), implies(le(app('ncols', (q,), 'I'), ZERO), eq(app('nrows', (q,), 'I'), ZERO)))))
    return PyList([('seg', (k,), and_(le(ZERO, k), lt(k, n)), (('one', Block((atom(key),), None)),))])


def buffer_rows(b):
    out = []
    for p in b.parts:
        if p[0] == 'one':
            out += p[1].seq
        else:
            out.append(('fam', tuple(p[1]), p[2], p[3][0][1].seq))
    return tuple(out)


class Files:
    """a file cache writer in an arbitrary state"""

    def __init__(self, c):
        self.c = c
        self.disk = c.I.disk = Disk(c)
        self.schema = Schema()
        c.require(le(ZERO, self.schema.n))
        self.dir = self.disk.dir = DirPath(self.disk)
        self.o = o = Inst(c.func(P + 'FileCacheWriter'))
        w = None
        if c.I.decide(var('writer_open', 'B')):
            n = var('open_number', 'I')
            k = fresh('I', 'k')
            c.require(le(ZERO, n), forall([k], implies(subst(self.disk.dom, {self.disk.v: k}), lt(self.disk.number(k), n))))
            c.I.heap_set(self.disk.st, 'new', ((n, (atom(var('open_rows', 'S')),)),))
            c.I.heap_set(self.disk.st, 'open', (0,))
            w = PWriter(self.disk, 0, self.schema)
        cnt = c.size('count')
        o.attrs = HDict({'_path': self.dir, '_schema': self.schema, '_batch_size': var('batch_size', 'I'), '_rows_per_file': var('rows_per_file', 'I'), '_compression': var('compression', 'S'),
                         '_writer': w, '_buffer': buffered(c), '_count': cnt})
        self.before = self.rows()
        self.files = self.disk.st['new']

    def rows(self):
        return self.disk.rows() + buffer_rows(self.o.attrs['_buffer'])

    def valid(self):
        """the writer attribute is the file being written, which is the last one"""
        c, w, st = self.c, self.o.attrs['_writer'], self.disk.st
        ok = (w is None and not st['open']) or (isinstance(w, PWriter) and st['open'] == (w.i,) and w.i == len(st['new']) - 1)
        c.ensure('writer-state', const(ok))
        if isinstance(w, PWriter):
            c.ensure('file-schema', const(w.schema is self.schema))

    def holds(self, name, *extra):
        self.c.ensure(name, seq_equal(self.rows(), self.before + tuple(extra)))

    def flushed(self):
        c = self.c
        self.valid()
        c.ensure('all-on-disk', seq_equal(self.disk.closed_rows(), self.rows()))
        c.ensure('nothing-open', const(not self.disk.st['open'] and self.o.attrs['_writer'] is None))
        c.ensure('buffer-empty', eq(rows_in(buffer_rows(self.o.attrs['_buffer'])), ZERO))


def writes(name, arg, target, rows):
    """write: the rows are added at the end, nothing else changes"""
    def f(c):
        s = Files(c)
        a = arg(s)
        c.run(s.o, a)
        s.valid()
        s.holds('rows', *rows(a))
        if name == 'write_table':
            # a table gets a file of its own (sorting relies on it)
            c.ensure('own-file', const([atom_key(x) for x in s.disk.st['new'][-1][1]] == [atom_key(x) for x in a.seq]))
    f.__name__ = 'file_' + name
    contract(P + 'FileCacheWriter.' + target, ['C14', 'C17'], uses=USES, externals=EXT)(f)


new_batch = lambda s: Block((atom(var('given', 'S')),), s.schema)
new_table = lambda s: Block((atom(var('given', 'S')),), s.schema, 'table')
writes('write_batch', new_batch, 'write_batch', lambda b: b.seq)
writes('write_table', new_table, 'write_table', lambda b: b.seq)
writes('write_rows', lambda s: Source('given', 'rows'), 'write_rows', lambda b: (atom(b.key),))
writes('write_columns', lambda s: Source('given', 'columns'), 'write_columns', lambda b: (atom(b.key),))


@contract(P + 'FileCacheWriter.flush', ['C14', 'C17'], uses=USES, externals=EXT)
def file_flush(c):
    s = Files(c)
    c.run(s.o)
    s.holds('rows')
    s.flushed()


@contract(P + 'FileCacheWriter.flush', ['C14'], uses=USES, externals=EXT)
def file_flush_twice(c):
    s = Files(c)
    c.run(s.o)
    n = s.disk.st['new']
    c.run(s.o)
    c.ensure('same-files', const(s.disk.st['new'] == n))
    s.holds('rows')
    s.flushed()


@contract(P + 'FileCacheWriter.__exit__', ['C14'], uses=USES, externals=EXT)
def file_exit(c):
    s = Files(c)
    c.run(s.o, None, None, None)
    s.holds('rows')
    s.flushed()


@contract(P + 'FileCacheWriter.to_reader', ['C14', 'C17'], uses=USES, externals=EXT)
def file_to_reader(c):
    s = Files(c)
    r = c.run(s.o)
    s.holds('rows')
    s.flushed()
    c.ensure('reader-of-this-cache', const(r == ('reader', s.dir)))


# ---------------------------------------------------------------- in memory
class Memory:
    def __init__(self, c):
        self.c = c
        self.schema = Schema()
        c.require(le(ZERO, self.schema.n))
        self.o = Inst(c.func(E + 'MemoryCacheWriter'))
        self.o.attrs = HDict({'_table': Block((atom(var('table_rows', 'S')),), self.schema, 'table'), '_batch_size': var('batch_size', 'I'), '_buffer': buffered(c)})
        self.before = self.rows()

    def rows(self):
        return self.o.attrs['_table'].seq + buffer_rows(self.o.attrs['_buffer'])

    holds = Files.holds

    def valid(self):
        self.c.ensure('state', const(isinstance(self.o.attrs['_table'], Block) and self.o.attrs['_table'].kind == 'table'))

    def flushed(self):
        self.c.ensure('buffer-empty', eq(rows_in(buffer_rows(self.o.attrs['_buffer'])), ZERO))


def mem_writes(name, arg, rows):
    def f(c):
        s = Memory(c)
        a = arg(s)
        c.run(s.o, a)
        s.valid()
        s.holds('rows', *rows(a))
    f.__name__ = 'mem_' + name
    contract(E + 'MemoryCacheWriter.' + name, ['C14', 'C17'], externals=EXT)(f)


mem_writes('write_batch', new_batch, lambda b: b.seq)
mem_writes('write_table', new_table, lambda b: b.seq)
mem_writes('write_rows', lambda s: Source('given', 'rows'), lambda b: (atom(b.key),))
mem_writes('write_columns', lambda s: Source('given', 'columns'), lambda b: (atom(b.key),))


@contract(E + 'MemoryCacheWriter.flush', ['C14', 'C17'], externals=EXT)
def mem_flush(c):
    s = Memory(c)
    c.run(s.o)
    s.holds('rows')
    s.flushed()
    c.run(s.o)
    s.holds('rows-again')


@contract(E + 'MemoryCacheWriter.__exit__', ['C14'], externals=EXT)
def mem_exit(c):
    s = Memory(c)
    c.run(s.o, None, None, None)
    s.holds('rows')
    s.flushed()


@contract(E + 'MemoryCacheWriter.to_reader', ['C14', 'C17'], externals=EXT)
def mem_to_reader(c):
    s = Memory(c)
    r = c.run(s.o)
    s.holds('rows')
    c.ensure('reader-holds-all', seq_equal(r.attrs['_table'].seq, s.before))


# ---------------------------------------------------------------- readers
COLS = {'a': 'i8', 'b': 'f8', 'c': 'U', 'd': 'i8', '?filter': 'b'}
NAMES = ['a', 'b', 'c', 'd']


def file_reader(c):
    """any number of files, numbered in the order they were written"""
    rd = Reader('cache', COLS)
    c.require(le(ZERO, rd.nt))
    fr = c.I.frag = Fragments(rd)
    fr.dir = DirPath(fr)
    a, b = fresh('I', 'a'), fresh('I', 'b')
    c.require(forall([a], implies(and_(le(ZERO, a), lt(a, rd.nt)), and_(le(ZERO, fr.number(a)), le(ZERO, rd.rows(a))))))
    c.require(forall([a, b], implies(and_(le(ZERO, a), lt(a, b), lt(b, rd.nt)), lt(fr.number(a), fr.number(b)))))
    o = Inst(c.func(P + 'FileCacheReader'))
    o.attrs = HDict({'_path': fr.dir, '_schema': Schema(), '_batch_size': var('batch_size', 'I'), '_rows_per_file': var('rows_per_file', 'I'), '_compression': var('compression', 'S')})
    return rd, o


READ = {'pyarrow.dataset.dataset': lambda I, *a, **k: I.frag.dataset(I, *a, **k), 'pathlib.Path': lambda I, p: p, 'glob.glob': lambda I, p: I.frag.paths(I, p), **GLOB_EXT, **TABLE_EXT}
MATCHES = Expr(lambda col, r, t: col('?filter'))


def mem_reader(c):
    rd = Reader('cache', COLS)
    c.require(eq(rd.nt, ONE), le(ZERO, rd.rows(ZERO)))
    o = Inst(c.func(E + 'MemoryCacheReader'))
    o.attrs = HDict({'_table': rd.table(ZERO), '_batch_size': var('batch_size', 'I')})
    return rd, o


def one_per_table(c, rd, got, check):
    """the result lists one element per table, in the order of the tables"""
    if isinstance(got, PyList) and len(got.parts) == 1 and got.parts[0][0] == 'one':
        c.ensure('one-table', eq(rd.nt, ONE))
        return check(ZERO, TRUE, got.parts[0][1])
    ok = isinstance(got, PyList) and len(got.parts) == 1 and got.parts[0][0] == 'seg' and len(got.parts[0][1]) == 1
    if not ok:
        raise Unsupported('result of a reader')
    _, (t,), dom, inner = got.parts[0]
    c.ensure('in-order', const(t in ASC))
    if len(inner) != 1 or inner[0][0] != 'one':
        raise Unsupported('several elements per table')
    c.ensure('all-tables', forall([t], iff(dom, and_(le(ZERO, t), lt(t, rd.nt)))))
    check(t, dom, inner[0][1])


def rows_of(c, rd, t, dom, axis, flt):
    (vs,) = [axis.vars('q')]
    c.ensure('rows', forall([t, *vs] if t.op == 'var' else list(vs), implies(dom, iff(axis.dom(vs), and_(le(ZERO, vs[0]), lt(vs[0], rd.rows(t)), rd.cell('?filter', t, vs[0]) if flt else TRUE)))))


def cells_of(c, rd, t, dom, tb, names):
    for n in names:
        (vs,) = [tb.axis.vars('q')]
        c.ensure(f'column[{n}]', forall([t, *vs] if t.op == 'var' else list(vs), implies(and_(dom, tb.axis.dom(vs)), eq(tb.col(n, vs), rd.cell(n, t, vs[0])))))


def reads(where, make, cols, flt):
    tag = where + ('_columns' if cols else '') + ('_filtered' if flt else '')
    cls = (P + 'FileCacheReader.') if where == 'file' else (E + 'MemoryCacheReader.')

    def tables(c):
        rd, o = make(c)
        got = c.run(o, columns=PyList.of(cols) if cols else None, filter=MATCHES if flt else None)

        def check(t, dom, tb):
            if not isinstance(tb, Table):
                raise Unsupported('not a table')
            c.ensure('columns', const(list(tb.names or NAMES) == list(cols or NAMES)))
            rows_of(c, rd, t, dom, tb.axis, flt)
            cells_of(c, rd, t, dom, tb, cols or NAMES)
        one_per_table(c, rd, got, check)
    tables.__name__ = 'read_tables_' + tag
    contract(cls + 'iterate_tables', ['C14', 'C17', 'C18'] if flt else ['C14', 'C17'], externals=READ)(tables)
    if not cols:
        return
    nums = [x for x in cols if COLS[x] != 'U']

    def is_array(c, rd, t, dom, a):
        if not isinstance(a, Arr) or a.ndim != 2:
            raise Unsupported('not an array')
        c.ensure('width', eq(a.axes[1].card(), const(len(nums))))
        rows_of(c, rd, t, dom, a.axes[0], flt)
        vs = a.axes[0].vars('q')
        for i, n in enumerate(nums):
            c.ensure(f'column[{n}]', forall([t, *vs] if t.op == 'var' else list(vs), implies(and_(dom, a.axes[0].dom(vs)), eq(a.at([vs, (const(i),)]), term(rd.cell(n, t, vs[0]), 'R')))))

    def arrays(c):
        rd, o = make(c)
        got = c.run(o, numeric_columns=PyList.of(nums), filter=MATCHES if flt else None)
        one_per_table(c, rd, got, lambda t, dom, a: is_array(c, rd, t, dom, a))
    arrays.__name__ = 'read_arrays_' + tag
    contract(cls + 'iterate_arrays', ['C14', 'C17'], externals=READ)(arrays)

    def both(c):
        rd, o = make(c)
        got = c.run(o, columns=PyList.of(cols), numeric_columns=PyList.of(nums), filter=MATCHES if flt else None)

        def check(t, dom, x):
            if not isinstance(x, tuple) or len(x) != 2 or not isinstance(x[0], Table):
                raise Unsupported('not a pair')
            c.ensure('columns', const(set(cols) <= set(x[0].names or NAMES)))
            rows_of(c, rd, t, dom, x[0].axis, flt)
            cells_of(c, rd, t, dom, x[0], cols)
            is_array(c, rd, t, dom, x[1])
        one_per_table(c, rd, got, check)
    both.__name__ = 'read_both_' + tag
    contract(cls + 'iterate_tables_with_arrays', ['C14', 'C17'], externals=READ)(both)


for _w, _m in (('file', file_reader), ('mem', mem_reader)):
    for _c in (None, ['d', 'c', 'b']):
        for _f in (False, True):
            reads(_w, _m, _c, _f)


@contract(P + 'FileCache.count_rows', ['C14', 'C16'], externals=READ)
def file_count_rows(c):
    rd, o = file_reader(c)
    n = c.run(o)
    t, r = fresh('I', 't'), fresh('I', 'r')
    c.ensure('rows', eq(ops.scal(n), count([t, r], rd.has_row(t, r))))


@contract(P + 'FileCache.count_tables', ['C14', 'C15'], externals=READ)
def file_count_tables(c):
    rd, o = file_reader(c)
    c.ensure('tables', eq(ops.scal(c.run(o)), rd.nt))


@contract(E + 'MemoryCache.count_rows', ['C14', 'C16'], externals=READ)
def mem_count_rows(c):
    rd, o = mem_reader(c)
    c.ensure('rows', eq(ops.scal(c.run(o)), rd.rows(ZERO)))


@contract(E + 'MemoryCache.count_tables', ['C14', 'C15'], externals=READ)
def mem_count_tables(c):
    rd, o = mem_reader(c)
    c.ensure('tables', eq(ops.scal(c.run(o)), ONE))


@contract(E + 'MemoryCacheWriter.sort_by', ['C15', 'C17'], externals=EXT)
def mem_sort_by(c):
    s = Memory(c)
    by = var('sorting', 'S')
    c.run(s.o, by)
    t = s.o.attrs['_table']
    c.ensure('sorted', const(isinstance(t, Sorted) and t.by is by))
    if isinstance(t, Sorted):
        c.ensure('rows', seq_equal(t.of, s.before))
    s.flushed()


class OpenFile:
    def __init__(self, path):
        if not isinstance(path, FilePath):
            raise Unsupported('file name')
        self.ix = path.ix

    def sym_attr(self, I, a):
        if a == 'read':
            return Fn(lambda I: Block((atom(app('file', (self.ix,), 'S')),), None, 'table'))
        if a == 'close':
            return Fn(lambda I: None)
        raise Unsupported(f'file.{a}')

    def sym_enter(self, I):
        return self

    def sym_exit(self, I):
        pass


def rewrite_file(I, table, where=None, **kw):
    """a file replaced by a table"""
    if not isinstance(table, Block) or not isinstance(where, FilePath):
        raise Unsupported('write_table')
    I.obl('rows-kept', const(isinstance(table, Sorted) and [atom_key(a) for a in table.of] == [('one', app('file', (where.ix,), 'S').id)]), 'the file keeps its rows')
    I.obl('order', const(isinstance(table, Sorted) and table.by is I.by), 'sorted by the columns asked for')
    I.heap_set(I.rewritten, 'parts', I.rewritten.parts + (('one', where),))


def read_whole(I, where, **kw):
    return OpenFile(where).sym_attr(I, 'read')(I)


def flush_first(I, b):
    I.obl('nothing-sorted-yet', const(not I.rewritten.parts), 'buffered rows are written before the files are sorted')
    I.heap_set(I.flushes, 'n', 1)


@contract(P + 'FileCacheWriter.sort_by', ['C15', 'C17'], uses={P + 'FileCacheWriter.flush': flush_first},
          externals={**EXT, 'pyarrow.parquet.ParquetFile': lambda I, p: OpenFile(p), 'pyarrow.parquet.write_table': rewrite_file, 'pyarrow.parquet.read_table': read_whole})
def file_sort_by(c):
    """every file keeps its rows and is in order afterwards"""
    s = Files(c)
    c.I.rewritten, c.I.flushes, by = PyList(), HDict({'n': 0}), var('sorting', 'S')
    c.I.by = by
    c.run(s.o, by)
    c.ensure('flushed', const(c.I.flushes['n'] == 1))
    q = fresh('I', 'q')
    known = [n for n, _ in s.disk.st['new']]
    isfile = or_(exists([s.disk.v], and_(s.disk.dom, eq(s.disk.number(s.disk.v), q))), *[eq(q, n) for n in known])
    hit = []
    for p in c.I.rewritten.parts:
        if p[0] == 'one':
            hit.append(eq(p[1].ix, q))
        elif p[0] == 'seg' and len(p[3]) == 1 and p[3][0][0] == 'one':
            hit.append(exists(list(p[1]), and_(p[2], eq(p[3][0][1].ix, q))))
        else:
            raise Unsupported('files sorted in another way')
    c.ensure('every-file', forall([q], implies(isfile, or_(*hit))))
    c.ensure('no-other-file', forall([q], implies(or_(*hit), isfile)))


def batch_iterators(where, make):
    cls = (P + 'FileCacheReader.') if where == 'file' else (E + 'MemoryCacheReader.')

    def f(c):
        rd, o = make(c)
        n = var('batch_rows', 'I')
        got = c.run(o, n)

        def check(t, dom, x):
            c.ensure('batches-of-the-table', const(isinstance(x, Batches) and x.size is n))
            if isinstance(x, Batches):
                rows_of(c, rd, t, dom, x.t.axis, False)
                cells_of(c, rd, t, dom, x.t, NAMES)
        one_per_table(c, rd, got, check)
    f.__name__ = 'batch_iterators_' + where
    contract(cls + 'iterate_fragment_batch_iterators', ['C15', 'C17'], externals={**READ, 'iter': lambda I, x: x})(f)


batch_iterators('file', file_reader)
batch_iterators('mem', mem_reader)
