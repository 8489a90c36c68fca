"""Sequences of rows and the files of a cache: the part of pyarrow and the file system the cache writers use.

A batch or table of unknown content is an atom (with a number of rows); operations that join batches join sequences of
atoms.  Nothing here can take a batch apart: code that does is outside the subset."""
from .arr import *
from .interp import *
from . import term as t_
from .term import *
from .table import Fn, _ops, Batches


def atom(key):
    """rows known only by name"""
    return ('one', key)


def rows_in(seq):
    out = []
    for a in seq:
        if a[0] == 'one':
            out.append(app('nrows', (a[1],), 'I'))
        else:
            _, vs, dom, inner = a
            out.append(sum_(list(vs), dom, rows_in(inner)))
    return add(*out) if out else ZERO


def atom_key(a):
    if a[0] == 'one':
        return ('one', a[1].id)
    _, vs, dom, inner = a
    key = [atom_term(x) for x in inner]
    return ('fam', t_._close('axis', list(vs), (dom, *key), 'I').id)


def atom_term(a):
    if a[0] == 'one':
        return a[1]
    return t_._close('axis', list(a[1]), (a[2], *[atom_term(x) for x in a[3]]), 'I')


def map_seq(seq, f):
    return tuple(('one', f(a[1])) if a[0] == 'one' else ('fam', a[1], f(a[2]), map_seq(a[3], f)) for a in seq)


def seq_equal(a, b):
    """condition for two sequences to hold the same rows in the same order: the common part aligned, the rest without rows"""
    ka, kb = [atom_key(x) for x in a], [atom_key(x) for x in b]
    if ka == kb:
        return TRUE
    if len(a) > 9 or len(b) > 9:
        raise Unsupported('long sequences')
    outs = set()

    def go(i, j, left):
        if i == len(a) or j == len(b):
            outs.add(frozenset(left + [('a', x) for x in range(i, len(a))] + [('b', y) for y in range(j, len(b))]))
            return
        if ka[i] == kb[j]:
            go(i + 1, j + 1, left)
        go(i + 1, j, left + [('a', i)])
        go(i, j + 1, left + [('b', j)])
    go(0, 0, [])
    least = [o for o in outs if not any(p < o for p in outs)]
    return or_(*[and_(*[eq(rows_in(((a if w == 'a' else b)[i],)), ZERO) for w, i in sorted(o)]) for o in sorted(least, key=sorted)])


def seq_of(I, v, get):
    """sequence of the elements of a list"""
    def go(parts):
        out = []
        for p in parts:
            if p[0] == 'one':
                out += get(p[1])
            elif p[0] == 'seg':
                inner = tuple(go(p[3]))
                if inner:
                    out.append(('fam', tuple(p[1]), p[2], inner))
            elif p[0] == 'if' and I.known(p[1]) is True:
                out += go(p[2])
            else:
                raise Unsupported('joining a list under construction')
        return out
    parts = I.iter_parts(v)
    if not any(p[0] == 'one' for p in parts):
        I.obl('non-empty', lt(ZERO, _ops.list_len(I, PyList(parts))) if parts else FALSE, 'joining an empty list')
    return tuple(go(parts))


class Block:
    """record batch or table: rows only"""

    def __init__(self, seq, schema, kind='batch'):
        self.seq, self.schema, self.kind = tuple(seq), schema, kind

    def map_terms(self, f):
        return Block(map_seq(self.seq, f), self.schema, self.kind)

    def column(self, I, n):
        return Col(self.seq, n)

    def sym_getitem(self, I, n):
        if isinstance(n, (str, T)) and not (isinstance(n, T) and n.sort != 'S'):
            return Col(self.seq, n)
        raise Unsupported('part of a batch')

    def sym_len(self, I):
        return rows_in(self.seq)

    def sym_attr(self, I, a):
        if a == 'num_rows':
            return rows_in(self.seq)
        if a == 'column':
            return Fn(self.column)
        if a == 'schema':
            return self.schema
        if a == 'to_batches' and self.kind == 'table':
            raise Unsupported('to_batches')
        if a == 'sort_by' and self.kind == 'table':
            return Fn(lambda I, sorting: Sorted(self, sorting))
        raise Unsupported(f'{self.kind}.{a}')

    def sym_is(self, I, b):
        return const(self is b)


class Sorted(Block):
    """the rows of a table in another order"""

    def __init__(self, of, by):
        if not isinstance(by, T):
            raise Unsupported('sorting')
        self.of, self.by = of.seq, by
        key = app('sorted', tuple(atom_term(a) for a in of.seq) + (by,), 'S')
        super().__init__((('one', key),), of.schema, 'table')

    def map_terms(self, f):
        return Sorted(Block(map_seq(self.of, f), self.schema, 'table'), f(self.by))


class Col:
    def __init__(self, seq, name):
        self.seq, self.name = tuple(seq), name

    def map_terms(self, f):
        return Col(map_seq(self.seq, f), f(self.name) if isinstance(self.name, T) else self.name)


class Schema:
    """the columns of a cache, any number of them"""

    def __init__(self, name='schema'):
        self.name = name
        self.n = t_.size_var(name + '_fields')
        self.v = var('!' + name + '_field', 'I')
        ASC.add(self.v)
        self.dom = and_(le(ZERO, self.v), lt(self.v, self.n))

    def field(self, k):
        return app((self.name, 'field'), (k,), 'S')

    def sym_attr(self, I, a):
        if a == 'names':
            return PyList([('seg', (self.v,), self.dom, (('one', self.field(self.v)),))])
        if a == 'empty_table':
            return Fn(lambda I: Block((), self, 'table'))
        raise Unsupported(f'schema.{a}')

    def sym_is(self, I, b):
        return const(self is b)

    def sym_truth(self, I):
        return TRUE


def join_blocks(kind):
    def f(I, v, **kw):
        def get(b):
            if not isinstance(b, Block) or b.kind != kind:
                raise Unsupported(f'joining {b!r}')
            return b.seq
        if kw:
            raise Unsupported('options of a join')
        schemas = [p[1].schema for p in I.iter_parts(v) if p[0] == 'one' and isinstance(p[1], Block)]
        return Block(seq_of(I, v, get), next((x for x in schemas if x is not None), None), kind)
    return f


def join_columns(I, v):
    names = []

    def get(c):
        if not isinstance(c, Col):
            raise Unsupported('joining arrays')
        names.append(c.name)
        return c.seq
    s = seq_of(I, v, get)
    if len({n.id if isinstance(n, T) else n for n in names}) != 1:
        raise Unsupported('joining different columns')
    return Col(s, names[0])


def from_columns(I, arrays, schema=None, names=None):
    if not isinstance(schema, Schema) or names is not None:
        raise Unsupported('from_arrays without the schema')
    parts = I.iter_parts(arrays)
    if len(parts) != 1 or parts[0][0] != 'seg' or len(parts[0][3]) != 1 or parts[0][3][0][0] != 'one':
        raise Unsupported('from_arrays')
    _, vs, dom, ((_, col),) = parts[0]
    if vs != (schema.v,) or dom is not schema.dom or not isinstance(col, Col) or col.name is not schema.field(schema.v):
        raise Unsupported('from_arrays: columns of another order')
    if any(schema.v in atom_term(a).fv for a in col.seq):
        raise Unsupported('from_arrays: columns of different rows')
    return Block(col.seq, schema, 'batch')


class Source:
    """argument of write_rows / write_columns: any number of rows"""

    def __init__(self, name, kind):
        self.key = var(name, 'S')
        self.kind = kind

    def sym_len(self, I):
        return app('nrows', (self.key,), 'I') if self.kind == 'rows' else app('ncols', (self.key,), 'I')

    def sym_truth(self, I):
        return lt(ZERO, self.sym_len(I))


def from_source(kind, out):
    def f(I, v, schema=None):
        if isinstance(v, PyList) and not v.parts:
            return Block((), schema, out)
        if not isinstance(v, Source) or v.kind != kind:
            raise Unsupported('rows of another source')
        return Block((atom(v.key),), schema, out)
    return f


def batches_to_table(I, v, schema=None):
    b = join_blocks('batch')(I, v)
    return Block(b.seq, b.schema, 'table')


# ---------------------------------------------------------------- files
class Escaped:
    """a directory name in which wildcard characters are quoted"""

    def __init__(self, d):
        self.d = d

    def sym_format(self):
        return self


def glob_dir(I, pat, d):
    """pattern of the data files of directory d; the directory's own name is arbitrary and must not act as a pattern"""
    ps = [p for p in pat.parts if p != ''] if isinstance(pat, FStr) else []
    if len(ps) != 2 or ps[1] != '/*.parquet' or not isinstance(ps[0], tuple) or ps[0][1] != '':
        raise Unsupported('glob')
    x = ps[0][0]
    literal = isinstance(x, Escaped)
    if (x.d if literal else x) is not d:
        raise Unsupported('glob of another directory')
    I.obl('directory-name-is-no-pattern', const(literal), 'wildcard characters in the path of the cache')


GLOB_EXT = {'glob.escape': lambda I, p: Escaped(p)}


class DirPath:
    def __init__(self, disk):
        self.disk = disk

    def sym_attr(self, I, a):
        if a in ('exists', 'is_dir'):
            return Fn(lambda I: TRUE)
        if a == 'glob':
            return Fn(self.glob)
        raise Unsupported(f'path.{a}')

    def glob(self, I, pat):
        if pat != '*.parquet':
            raise Unsupported('glob')
        return self.disk.data_paths()

    def sym_str(self, I):
        return self

    def sym_format(self):
        return self

    def sym_binop(self, I, op, b):
        if op != 'Div' or not isinstance(b, FStr):
            raise Unsupported('path operation')
        ps = [p for p in b.parts if p != '']
        if len(ps) == 2 and isinstance(ps[0], tuple) and ps[1] == '.parquet' and int_format(ps[0][1]) and isinstance(ps[0][0], (int, T)):
            return FilePath(_ops.scal(ps[0][0]))
        raise Unsupported('file name')

    def sym_is(self, I, b):
        return const(self is b)


def int_format(spec):
    """formats whose result reads back as the same number"""
    return spec in ('', 'd') or (spec.endswith('d') and spec[:-1].isdigit() and spec[0] == '0')


class FilePath:
    """the data file with this number"""

    def __init__(self, ix):
        self.ix = ix

    def map_terms(self, f):
        return FilePath(f(self.ix))

    def sym_attr(self, I, a):
        if a == 'stem':
            return Stem(self.ix)
        if a == 'suffix':
            return '.parquet'
        if a in ('exists', 'is_file'):
            return Fn(lambda I: TRUE)
        raise Unsupported(f'file.{a}')


class Stem:
    def __init__(self, ix):
        self.ix = ix

    def map_terms(self, f):
        return Stem(f(self.ix))

    def sym_int(self, I):
        return self.ix


class Disk:
    """data files of one cache directory: those closed before (a family, numbered increasingly) and those made since"""

    def __init__(self, c, name='disk'):
        self.name = name
        self.nf = c.size(name + '_files')
        self.v = var('!' + name + '_file', 'I')
        ASC.add(self.v)
        self.dom = and_(le(ZERO, self.v), lt(self.v, self.nf))
        a, b = fresh('I', 'a'), fresh('I', 'b')
        c.require(forall([a], implies(and_(le(ZERO, a), lt(a, self.nf)), le(ZERO, self.number(a)))))
        c.require(forall([a, b], implies(and_(le(ZERO, a), lt(a, b), lt(b, self.nf)), lt(self.number(a), self.number(b)))))
        self.st = HDict({'new': (), 'open': ()})       # new: (number, seq); open: positions in new still being written

    def number(self, k):
        return app((self.name, 'number'), (k,), 'I')

    def old(self):
        return ('fam', (self.v,), self.dom, (atom(app((self.name, 'content'), (self.v,), 'S')),))

    def paths(self):
        return PyList([('seg', (self.v,), self.dom, (('one', FilePath(self.number(self.v))),))] + [('one', FilePath(n)) for n, _ in self.st['new']])

    def glob(self, I, pat):
        glob_dir(I, pat, self.dir)
        return self.paths()

    def data_paths(self):
        return self.paths()

    def make(self, I, path, seq):
        """a new file comes after every existing one"""
        if not isinstance(path, FilePath):
            raise Unsupported('file name')
        k = fresh('I', 'k')
        I.obl('new-file-is-last', and_(le(ZERO, path.ix), forall([k], implies(subst(self.dom, {self.v: k}), lt(self.number(k), path.ix))), *[lt(n, path.ix) for n, _ in self.st['new']]),
              'the file would replace an existing one or be read before it')
        I.heap_set(self.st, 'new', self.st['new'] + ((path.ix, tuple(seq)),))
        return len(self.st['new']) - 1

    def rows(self):
        """everything in the files, in reading order"""
        return (self.old(),) + tuple(a for _, s in self.st['new'] for a in s)

    def closed_rows(self):
        return (self.old(),) + tuple(a for i, (_, s) in enumerate(self.st['new']) for a in s if i not in self.st['open'])

    # ------------------------------------------------------------ pyarrow.parquet
    def write_table(self, I, table, where=None, **kw):
        if not isinstance(table, Block) or table.kind != 'table':
            raise Unsupported('write_table')
        self.make(I, where, table.seq)

    def writer(self, I, where=None, schema=None, **kw):
        i = self.make(I, where, ())
        I.heap_set(self.st, 'open', self.st['open'] + (i,))
        return PWriter(self, i, schema)


class PWriter:
    def __init__(self, disk, i, schema):
        self.disk, self.i, self.schema = disk, i, schema

    def sym_is(self, I, b):
        return const(self is b)

    def sym_truth(self, I):
        return TRUE

    def write(self, I, b, **kw):
        if not isinstance(b, Block):
            raise Unsupported('writing to a file')
        d = self.disk
        I.obl('file-open', const(self.i in d.st['open']), 'writing to a closed file')
        new_ = list(d.st['new'])
        new_[self.i] = (new_[self.i][0], new_[self.i][1] + b.seq)
        I.heap_set(d.st, 'new', tuple(new_))

    def close(self, I):
        I.heap_set(self.disk.st, 'open', tuple(i for i in self.disk.st['open'] if i != self.i))

    def sym_attr(self, I, a):
        if a in ('write_batch', 'write_table', 'write'):
            return Fn(self.write)
        if a == 'close':
            return Fn(self.close)
        raise Unsupported(f'writer.{a}')


def externals(disk_of):
    d = lambda f: (lambda I, *a, **k: f(disk_of(I), I, *a, **k))
    return {
        'pyarrow.concat_batches': join_blocks('batch'), 'pyarrow.concat_tables': join_blocks('table'), 'pyarrow.concat_arrays': join_columns,
        'pyarrow.RecordBatch.from_arrays': from_columns, 'pyarrow.RecordBatch.from_pylist': from_source('rows', 'batch'), 'pyarrow.RecordBatch.from_pydict': from_source('columns', 'batch'),
        'pyarrow.Table.from_batches': batches_to_table, 'pyarrow.Table.from_pylist': from_source('rows', 'table'),
        'pyarrow.parquet.write_table': d(Disk.write_table), 'pyarrow.parquet.ParquetWriter': d(Disk.writer),
        **GLOB_EXT, 'glob.glob': d(Disk.glob), 'pathlib.Path': lambda I, p: p,
    }


# ---------------------------------------------------------------- reading
class Fragments:
    """pyarrow.dataset over the data files of one directory: fragments come in no particular order"""

    def __init__(self, reader):
        self.reader = reader

    def number(self, t):
        return app((self.reader.name, 'number'), (t,), 'I')

    def dataset(self, I, source=None, schema=None, format=None):
        if source is not self.dir:
            raise Unsupported('another directory')
        return self

    def fragments(self, I, filter=None):
        t = fresh('I', 't')
        return PyList([('seg', (t,), and_(le(ZERO, t), lt(t, self.reader.nt)), (('one', Fragment(self, t)),))])

    def sym_attr(self, I, a):
        if a == 'get_fragments':
            return Fn(self.fragments)
        if a == 'count_rows':
            t, r = fresh('I', 't'), fresh('I', 'r')
            return Fn(lambda I: count([t, r], self.reader.has_row(t, r)))
        raise Unsupported(f'dataset.{a}')

    def paths(self, I, pat):
        glob_dir(I, pat, self.dir)
        return self.data_paths()

    def data_paths(self):
        t = fresh('I', 't')
        return PyList([('seg', (t,), and_(le(ZERO, t), lt(t, self.reader.nt)), (('one', FilePath(self.number(t))),))])


class Fragment:
    def __init__(self, ds, t):
        self.ds, self.t = ds, t

    def map_terms(self, f):
        return Fragment(self.ds, f(self.t))

    def to_table(self, I, columns=None, filter=None):
        tb = self.ds.reader.table(self.t)
        I.axiom(le(ZERO, self.ds.reader.rows(self.t)), [(self.ds.reader.name, 'rows')])
        if filter is not None:
            tb = tb.filter(I, filter)
        return tb if columns is None else tb.select(I, columns)

    def count_rows(self, I, filter=None):
        return self.to_table(I, None, filter).axis.card()

    def sym_attr(self, I, a):
        if a == 'path':
            return FilePath(self.ds.number(self.t))
        if a in ('to_table', 'count_rows'):
            return Fn(getattr(self, a))
        if a == 'to_batches':
            return Fn(lambda I, batch_size=None: Batches(self.to_table(I), batch_size))
        raise Unsupported(f'fragment.{a}')
