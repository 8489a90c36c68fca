"""Symbolic tables: the part of pyarrow the evaluators use.  A table is an ordered set of rows (an axis) with columns
given as functions of the row; a filter expression is a predicate on rows."""
from .arr import *
from .interp import *
from . import term as t_
from .term import T


class Fn:
    """bound method implemented here"""

    def __init__(self, f):
        self.f = f

    def __call__(self, I, *a, **k):
        return self.f(I, *a, **k)


class Table:
    def __init__(self, axis, col, types, names=None):
        self.axis, self.col, self.types = axis, col, types
        self.names = list(names) if names is not None else None

    # ------------------------------------------------------------ substitution
    def map_terms(self, f):
        return Table(map_axis(self.axis, f), lambda n, r: f(self.col(n, r)), self.types, self.names)

    def sym_subst(self, m):
        return self.map_terms(lambda t: subst(t, m))

    # ------------------------------------------------------------ behaviour
    def has(self, n):
        return n in self.types if self.names is None else n in self.names

    def column(self, I, n):
        if isinstance(n, int) and not isinstance(n, bool):
            n = (self.names if self.names is not None else list(self.types))[n]
        if not isinstance(n, str):
            raise Unsupported('column name')
        if not self.has(n):
            raise PyRaise('KeyError')
        return Column(self.axis, lambda r: self.col(n, r), self.types[n])

    def sym_getitem(self, I, n):
        return self.column(I, n)

    def filter(self, I, x):
        if isinstance(x, Arr):
            if not (x.axes[0].same(self.axis) or I.axes_equal(x.axes[0], self.axis)):
                raise Unsupported('mask of another length')
            g = x.freeze()
            return Table(sub_axis(self.axis, lambda r: g([r])), self.col, self.types, self.names)
        if not isinstance(x, Expr):
            raise Unsupported('table filter')
        return Table(sub_axis(self.axis, lambda r: x.f(lambda n: self.col(n, r), r, self)), self.col, self.types, self.names)

    def select(self, I, names):
        ns = [n for n in I.concrete_seq(names)]
        for n in ns:
            if not self.has(n):
                raise PyRaise('KeyError')
        return Table(self.axis, self.col, self.types, ns)

    def set_column(self, I, i, field, values):
        ns = list(self.names if self.names is not None else self.types)
        if not isinstance(i, int) or not 0 <= i < len(ns) or not isinstance(values, Arr) or values.ndim != 1:
            raise Unsupported('set_column')
        if not (values.axes[0].same(self.axis) or I.axes_equal(values.axes[0], self.axis)):
            raise Unsupported('column of another length')
        name = field.name if isinstance(field, TField) else field
        if not isinstance(name, str) or name in ns[:i] + ns[i + 1:]:
            raise Unsupported('set_column name')
        if isinstance(field, TField) and SORT[field.dtype] != SORT[values.dtype]:
            raise PyRaise('TypeError')
        g, old = values.freeze(), self.col
        ns[i] = name
        return Table(self.axis, lambda n, r: g([r]) if n == name else old(n, r), {**{k: v for k, v in self.types.items() if k in ns}, name: values.dtype}, ns)

    def sym_attr(self, I, a):
        if a == 'num_rows':
            return self.axis.card()
        if a == 'num_columns':
            return len(self.names if self.names is not None else self.types)
        if a == 'column_names':
            return PyList.of(list(self.names if self.names is not None else self.types))
        if a in ('filter', 'select', 'column', 'set_column'):
            return Fn(getattr(self, a))
        if a == 'schema':
            return TSchema(self)
        if a == 'to_batches':
            return Fn(lambda I, max_chunksize=None: Batches(self, max_chunksize))
        raise Unsupported(f'table.{a}')

    def sym_len(self, I):
        return self.axis.card()

    def sym_is(self, I, b):
        return FALSE


class Batches:
    """the rows of a table in order, some at a time"""

    def __init__(self, t, size):
        self.t, self.size = t, size

    def map_terms(self, f):
        return Batches(self.t.map_terms(f), f(self.size) if isinstance(self.size, T) else self.size)

    def sym_iter(self, I):
        return self


class TField:
    def __init__(self, name, dtype):
        self.name, self.dtype = name, dtype

    def sym_attr(self, I, a):
        if a == 'name':
            return self.name
        raise Unsupported(f'field.{a}')


class TSchema:
    def __init__(self, t):
        self.names, self.types = list(t.names if t.names is not None else t.types), t.types

    def sym_attr(self, I, a):
        if a == 'names':
            return PyList.of(self.names)
        if a == 'get_field_index':
            return Fn(lambda I, n: self.names.index(n) if n in self.names else -1)
        if a == 'field':
            return Fn(lambda I, n: self.sym_getitem(I, n))
        raise Unsupported(f'schema.{a}')

    def sym_getitem(self, I, i):
        if isinstance(i, str):
            i = self.names.index(i)
        if not isinstance(i, int) or not 0 <= i < len(self.names):
            raise Unsupported('schema field')
        return TField(self.names[i], self.types[self.names[i]])


class Column:
    def __init__(self, axis, get, dtype):
        self.axis, self.get, self.dtype = axis, get, dtype

    def map_terms(self, f):
        return Column(map_axis(self.axis, f), lambda r: f(self.get(r)), self.dtype)

    def sym_attr(self, I, a):
        if a == 'to_numpy':
            return Fn(lambda I, **k: new([self.axis], lambda r: self.get(r[0]), self.dtype))
        if a == 'to_pylist':
            vs = axis_vars(self.axis, 'x')
            return Fn(lambda I: PyList([('seg', vs, self.axis.dom(vs), (('one', self.get(vs)),))]))
        if a == 'take':
            return Fn(self.take)
        raise Unsupported(f'column.{a}')

    def take(self, I, ix):
        if not isinstance(ix, Arr) or ix.ndim != 1:
            raise Unsupported('take')
        g, ax = ix.freeze(), ix.axes[0]
        vs = ax.vars('t')
        rep = rep_at(I, self.axis, g([vs]), ax.dom(vs), vs)
        return Column(ax, lambda r: self.get(tuple(t_.subst(x, dict(zip(vs, r))) for x in rep)), self.dtype)

    def sym_getitem(self, I, ix):
        return Cell(self.get(rep_at(I, self.axis, _ops.scal(ix))))


class Cell:
    def __init__(self, v):
        self.v = v

    def map_terms(self, f):
        return Cell(f(self.v))

    def sym_attr(self, I, a):
        if a == 'as_py':
            return Fn(lambda I: self.v)
        raise Unsupported(f'scalar.{a}')


class _Ops:
    def __getattr__(self, n):
        from . import ops as o
        return getattr(o, n)


_ops = _Ops()


def rep_at(I, axis, p, dom=TRUE, vs=()):
    r = pos_rep(axis, p)
    if r is not None:
        return r
    return _ops.rep_of(I, axis, p, 'row', dom, vs)


class Expr:
    """filter expression: f(column getter, row, table) -> boolean term"""

    def __init__(self, f):
        self.f = f

    def sym_binop(self, I, op, b):
        if not isinstance(b, Expr):
            raise Unsupported('filter expression')
        if op == 'BitAnd':
            return Expr(lambda c, r, t: and_(self.f(c, r, t), b.f(c, r, t)))
        if op == 'BitOr':
            return Expr(lambda c, r, t: or_(self.f(c, r, t), b.f(c, r, t)))
        raise Unsupported(f'filter expression {op}')

    def sym_invert(self, I):
        return Expr(lambda c, r, t: not_(self.f(c, r, t)))

    def sym_is(self, I, b):
        return FALSE

    def sym_truth(self, I):
        raise PyRaise('ValueError')


class Field:
    def __init__(self, name):
        self.name = name

    def sym_compare(self, I, op, b):
        if isinstance(b, Cell):
            b = b.v
        b = _ops.scal(b)
        return Expr(lambda c, r, t: _ops.CMP[op](c(self.name), b))


def pc_scalar(I, v):
    if not isinstance(v, bool):
        raise Unsupported('pc.scalar')
    return Expr(lambda c, r, t: const(v))


class Uniq:
    """distinct values of a column; sorted ones can be indexed"""

    def __init__(self, arr, ordered=False):
        self.arr, self.ordered = arr, ordered

    def map_terms(self, f):
        raise Unsupported('values kept across iterations')

    def sym_len(self, I):
        return self.arr.axes[0].card()

    def sym_attr(self, I, a):
        if a == 'sort':
            return Fn(lambda I, order='ascending': Uniq(self.arr, True) if order == 'ascending' else self._no('descending order'))
        if a == 'to_numpy':
            return Fn(lambda I, **k: self.arr if self.ordered else self._no('order of distinct values'))
        raise Unsupported(f'distinct values.{a}')

    def _no(self, why):
        raise Unsupported(why)

    def sym_getitem(self, I, ix):
        ax = self.arr.axes[0]
        if not self.ordered:
            # some element, in an order that is not specified
            k = fresh('I', 'any')
            I.pc.append(ax.dom((k,)))
            return Cell(self.arr.at([(k,)]))
        return Cell(self.arr.at([rep_at(I, ax, _ops.scal(ix))]))


def pc_unique(I, col):
    from . import calls
    if isinstance(col, Column):
        col = calls.call(I, col.sym_attr(I, 'to_numpy'), [], {})
    if not isinstance(col, Arr):
        raise Unsupported('pc.unique')
    return Uniq(calls.np_unique(I, col))


TABLE_EXT = {
    'pyarrow.compute.unique': pc_unique,
    'pyarrow.compute.field': lambda I, n: Field(n),
    'pyarrow.compute.scalar': pc_scalar,
    'pyarrow.array': lambda I, a: a,
}


class Reader:
    """a cache reader: an ordered collection of tables (contract of iterate_tables, see contracts/cache.py).
    Rows of table t are 0..rows(t)-1; filter expressions select rows."""

    def __init__(self, name, types, single=None):
        self.name, self.types = name, types
        self.nt = t_.size_var(f'{name}_tables')

    def rows(self, t):
        return app((self.name, 'rows'), (t,), 'I')

    def cell(self, n, t, r):
        return app((self.name, n), (t, r), SORT[self.types[n]])

    def has_row(self, t, r):
        return and_(le(ZERO, t), lt(t, self.nt), le(ZERO, r), lt(r, self.rows(t)))

    def table(self, t):
        return Table(RangeAx(self.rows(t)), lambda n, r: self.cell(n, t, r[0]), self.types)

    def tables(self, I, columns=None, filter=None):
        t = fresh('I', 't')
        ASC.add(t)
        I.axiom(le(ZERO, self.rows(t)), [(self.name, 'rows')])
        tb = self.table(t)
        if filter is not None:
            tb = Table(sub_axis(tb.axis, lambda r: filter.f(lambda n: tb.col(n, r), (t, r[0]), tb)), tb.col, tb.types)
        if columns is not None:
            tb = tb.select(I, columns)
        return OrderedSeg((t,), and_(le(ZERO, t), lt(t, self.nt)), tb)

    def sym_attr(self, I, a):
        if a == 'iterate_tables':
            return Fn(lambda I, columns=None, filter=None: self.tables(I, columns, filter))
        if a == 'iterate_arrays':
            def arrays(I, numeric_columns=None, filter=None):
                from . import calls
                s = self.tables(I, numeric_columns, filter)
                cols = [calls.call(I, s.elem.column(I, n).sym_attr(I, 'to_numpy'), [], {}) for n in I.concrete_seq(numeric_columns)]
                return OrderedSeg(s.vars, s.dom, calls.np_column_stack(I, tuple(cols)))
            return Fn(arrays)
        if a == 'iterate_tables_with_arrays':
            def both(I, columns=None, filter=None, numeric_columns=None):
                from . import calls
                cs = list(I.concrete_seq(columns)) if columns is not None else []
                ns = list(I.concrete_seq(numeric_columns)) if numeric_columns is not None else []
                s = self.tables(I, PyList.of(list(dict.fromkeys(cs + ns))), filter)
                arr = calls.np_column_stack(I, tuple(calls.call(I, s.elem.column(I, n).sym_attr(I, 'to_numpy'), [], {}) for n in ns))
                return OrderedSeg(s.vars, s.dom, (s.elem, arr))
            return Fn(both)
        if a == 'count_rows':
            t, r = fresh('I', 't'), fresh('I', 'r')
            return Fn(lambda I: count([t, r], self.has_row(t, r)))
        if a == 'count_tables':
            return Fn(lambda I: self.nt)
        if a in ('batch_size', 'rows_per_file', 'compression'):
            return var(f'{self.name}_{a}', 'I' if a != 'compression' else 'S')
        raise Unsupported(f'reader.{a}')

    def sym_isinstance(self, I, n):
        if n in ('FileCacheReader', 'FileCache'):
            return var(f'{self.name}_on_disk', 'B')
        if n in ('MemoryCacheReader', 'MemoryCache'):
            return not_(var(f'{self.name}_on_disk', 'B'))
        return FALSE

    def sym_is(self, I, b):
        return FALSE


class OrderedSeg:
    """result of a generator over an ordered symbolic domain"""

    def __init__(self, vs, dom, elem):
        self.vars, self.dom, self.elem = vs, dom, elem

    def sym_iter(self, I):
        return [('sym', SymIter(self.vars, self.dom, self.elem, lambda a, b: lt(a[0], b[0])))]
