"""Contracts of building evaluators: finalising a builder, creating its caches on disk and loading them again."""
from .base import *
from vc.table import Fn
from vc.interp import *
from vc.store import Schema

TASK = {'od': 'valor_lite.object_detection.', 'cls': 'valor_lite.classification.', 'seg': 'valor_lite.semantic_segmentation.'}
P = 'valor_lite.cache.persistent.'


class W:
    """a cache writer; what is read from it depends on what was done to it before"""

    def __init__(self, c, name):
        self.name = name
        self.n = c.size(name + '_rows')
        self.st = HDict({'flushed': False, 'filled': False})

    def flush(self, I):
        I.heap_set(self.st, 'flushed', True)

    def count(self, I):
        I.obl('flushed-before-counting', const(self.st['flushed'] or self.name == 'roc_curve_writer'), f'rows of the {self.name} cache are counted before they are written')
        return self.n

    def sym_is(self, I, b):
        return const(self is b)

    def sym_attr(self, I, a):
        if a == 'flush':
            return Fn(self.flush)
        if a == 'count_rows':
            return Fn(self.count)
        if a == 'sort_by':
            return Fn(lambda I, by: None)
        if a == 'to_reader':
            return Fn(lambda I: R(self, self.st['filled']))
        if a == 'schema':
            return Fields(['pd_score', 'x', 'iou_prev', 'iou'])
        raise Unsupported(f'writer.{a}')


class R:
    def __init__(self, w, filled):
        self.w, self.filled = w, filled

    def sym_is(self, I, b):
        return const(self is b)


class Fields:
    def __init__(self, names):
        self.names = names

    def sym_list(self, I):
        return PyList.of([Field(n) for n in self.names])

    def sym_iter(self, I):
        return [('one', Field(n)) for n in self.names]

    def sym_attr(self, I, a):
        if a == 'names':
            return PyList.of(list(self.names))
        raise Unsupported(f'schema.{a}')


class Field:
    def __init__(self, n):
        self.n = n

    def sym_attr(self, I, a):
        if a == 'name':
            return self.n
        raise Unsupported(f'field.{a}')


class Labels:
    """an arbitrary label map"""

    def __init__(self, reader, override):
        self.reader, self.override = reader, override

    def sym_is(self, I, b):
        return const(self is b)


def labels(I, b):
    return Labels(b['reader'], b['index_to_label_override'])


OVERRIDE = ('override',)
META = ('metadata',)


def finalises(task, parts, steps):
    pre = TASK[task]

    def f(c):
        b = Inst(c.func(pre + 'evaluator.Builder'))
        ws = {a: W(c, a) for a in parts}
        b.attrs = HDict({**{'_' + a: w for a, w in ws.items()}, '_metadata_fields': META})
        main = ws[parts[0]]
        c.I.ws, c.I.builder = ws, b
        bs = var('batch_size', 'I')
        c.I.bs = bs
        try:
            r = c.run(b, **({'batch_size': bs} if task != 'seg' else {}), index_to_label_override=OVERRIDE)
        except PyRaise as e:
            if task == 'cls' and e.exc == 'RuntimeError':
                c.ensure('already-final', and_(lt(ZERO, main.n), lt(ZERO, ws['roc_curve_writer'].n)), props=['C21'])
            else:
                c.ensure('empty-cache', and_(const(e.exc == 'EmptyCacheError'), eq(main.n, ZERO)), props=['C21'])
            return
        c.ensure('not-empty', lt(ZERO, main.n), props=['C21'])
        if task == 'cls':
            c.ensure('not-final-before', eq(ws['roc_curve_writer'].n, ZERO), props=['C21'])
        a = r.attrs
        rd = a['_detailed_reader' if task == 'od' else '_reader']
        c.ensure('reader', const(isinstance(rd, R) and rd.w is main))
        lab = a['_index_to_label']
        c.ensure('labels', const(isinstance(lab, Labels) and lab.reader.w is main and lab.override is OVERRIDE), props=['C22', 'C17'])
        c.ensure('metadata-fields', const(a['_metadata_fields'] is META))
        if task != 'seg':
            x = a['_ranked_reader' if task == 'od' else '_roc_curve_reader']
            c.ensure('derived', const(isinstance(x, R) and x.w is ws['ranked_writer' if task == 'od' else 'roc_curve_writer'] and x.filled is True))
    f.__name__ = task + '_finalize'
    contract(pre + 'evaluator.Builder.finalize', ['C17', 'C21', 'C22'], uses={pre + 'shared.extract_labels': labels, **steps})(f)


def use_rank(I, b):
    """contract od_rank_glue: the ranked cache is filled"""
    if b['self'] is not I.builder:
        raise Unsupported('another builder')
    I.obl('batch-size', const(b['batch_size'] is I.bs), 'rows read at a time')
    I.heap_set(I.ws['ranked_writer'].st, 'filled', True)


def use_roc(I, b):
    I.obl('precondition', const(isinstance(b['reader'], R) and b['reader'].w is I.ws['writer'] and isinstance(b['index_to_label'], Labels) and b['batch_size'] is I.bs), 'arguments')
    I.heap_set(I.ws['roc_curve_writer'].st, 'filled', True)


finalises('od', ['detailed_writer', 'ranked_writer'], {TASK['od'] + 'evaluator.Builder._rank': use_rank})
finalises('cls', ['writer', 'roc_curve_writer', 'intermediate_writer'], {TASK['cls'] + 'evaluator.Builder._create_rocauc_intermediate': use_roc})
finalises('seg', ['writer'], {})


def use_sort(I, b):
    ws = I.ws
    o = b['table_sort_override']
    I.obl('source', const(isinstance(b['source'], R) and b['source'].w is ws['detailed_writer']), 'the detailed cache is ranked')
    I.obl('sink', const(b['sink'] is ws['ranked_writer']), 'into the ranked cache')
    I.obl('sorting', const([tuple(x) for x in I.concrete_seq(b['sorting'])] == [('pd_score', 'descending'), ('iou', 'descending')]), 'by score, then IoU, descending')
    I.obl('columns', const(sorted(I.concrete_seq(b['columns'])) == ['iou', 'pd_score', 'x']), 'every column of the ranked cache but the one ranking adds')
    I.obl('ranking', const(isinstance(o, Func) and o.qual == TASK['od'] + 'computation.rank_table'), 'tables are ranked')
    I.obl('batch-size', const(b['batch_size'] is I.bs), 'rows read at a time')
    I.heap_set(ws['ranked_writer'].st, 'filled', True)


@contract(TASK['od'] + 'evaluator.Builder._rank', ['C02', 'C04', 'C17'], uses={'valor_lite.cache.compute.sort': use_sort})
def od_rank_glue(c):
    b = Inst(c.func(TASK['od'] + 'evaluator.Builder'))
    c.I.ws = ws = {a: W(c, a) for a in ('detailed_writer', 'ranked_writer')}
    b.attrs = HDict({**{'_' + a: w for a, w in ws.items()}, '_metadata_fields': META})
    c.I.bs = var('batch_size', 'I')
    c.run(b, c.I.bs)
    c.ensure('ranked', const(ws['ranked_writer'].st['filled']))


# ---------------------------------------------------------------- on disk
class Dir:
    """a path below the directory of the evaluator"""

    def __init__(self, parts=()):
        self.parts = parts

    def sym_binop(self, I, op, b):
        if op != 'Div' or not isinstance(b, str):
            raise Unsupported('path')
        return Dir(self.parts + (b,))

    def sym_attr(self, I, a):
        if a == 'exists':
            return Fn(lambda I: I.root_exists if not self.parts else TRUE)
        if a == 'is_dir':
            return Fn(lambda I: I.root_is_dir if not self.parts else TRUE)
        raise Unsupported(f'path.{a}')

    def sym_format(self):
        return self

    def sym_is(self, I, b):
        return const(self is b)


class File:
    def __init__(self, p, mode):
        self.p, self.mode = p, mode

    def sym_enter(self, I):
        return self

    def sym_exit(self, I):
        pass


def dump(I, obj, f, **kw):
    I.heap_set(I.files, f.p.parts, obj)


def load(I, f):
    if f.p.parts not in I.files:
        raise PyRaise('FileNotFoundError')
    return I.files[f.p.parts]


def create(I, b):
    p = b['path']
    if not isinstance(p, Dir):
        raise Unsupported('path')
    I.obl('not-deleted', const(b['delete_if_exists'] is False), 'an existing cache would be deleted')
    I.obl('own-directory', const(bool(p.parts) and p.parts not in I.created), 'two caches in one directory')
    for k in ('batch_size', 'rows_per_file', 'compression'):
        I.obl('settings', const(b[k] is I.cfg[k]), k)
    I.heap_set(I.created, p.parts, b['schema'])
    w = Inst(I.the_writer)
    w.attrs = HDict({'_path': p, '_schema': b['schema']})
    return w


def open_reader(I, b):
    p = b['path']
    if not isinstance(p, Dir) or p.parts not in I.created:
        raise PyRaise('FileNotFoundError')
    r = Inst(I.the_reader)
    r.attrs = HDict({'_path': p, '_schema': I.created[p.parts]})
    return r


EXT = {'pathlib.Path': lambda I, p: p, 'open': lambda I, p, mode='r', **k: File(p, mode), 'json.dump': dump, 'json.load': load}


class Schema(tuple):
    """schema of a cache; it knows the type of every column"""

    def __new__(cls, *a):
        return tuple.__new__(cls, a)

    def sym_attr(self, I, a):
        if a != 'field':
            raise Unsupported(f'schema.{a}')
        return Fn(self.field)

    def field(self, I, name):
        if self[2] is not META or name not in FIELDS:
            raise PyRaise('KeyError')
        return Field(name)


class Field:
    def __init__(self, name):
        self.name = name

    def sym_attr(self, I, a):
        if a not in ('type', 'name'):
            raise Unsupported(f'field.{a}')
        return DataType(self.name) if a == 'type' else self.name


class DataType:
    """the type a metadata field was declared with; its text alone does not always name it"""

    def __init__(self, name):
        self.name = name


FIELDS = ('m1', 'm2')


def stored(I, b):
    e = next(iter(b.values()))
    if e[1] is not META:
        raise Unsupported('stored fields')
    return PyList.of([(k, 'text of a type') for k in FIELDS])


def restored(v):
    xs = v.concrete() if isinstance(v, PyList) else None
    return xs is not None and [x[0] for x in xs] == list(FIELDS) and all(isinstance(x[1], DataType) and x[1].name == x[0] for x in xs)


def persists(task, schemas, roles):
    pre = TASK[task]
    sch = {pre + 'shared.' + s: (lambda I, b, s=s: Schema('schema', s, b.get('metadata_fields', None))) for s in schemas}

    def f(c):
        I = c.I
        I.files, I.created = HDict({}), HDict({})
        I.root_exists = I.root_is_dir = TRUE
        I.the_writer, I.the_reader = c.func(P + 'FileCacheWriter'), c.func(P + 'FileCacheReader')
        I.cfg = {'batch_size': var('batch_size', 'I'), 'rows_per_file': var('rows_per_file', 'I'), 'compression': var('compression', 'S')}
        root = Dir()
        bld = c.run(c.func(pre + 'evaluator.Builder'), root, **I.cfg, metadata_fields=META)
        for w, r, s in roles:
            o = bld.attrs['_' + w]
            c.ensure(f'schema[{w}]', const(isinstance(o, Inst) and o.attrs['_schema'][1] == s and (o.attrs['_schema'][2] is META or o.attrs['_schema'][2] is None and s in NO_META)))
        c.ensure('metadata-fields', const(bld.attrs['_metadata_fields'] is META))
        ev = c.func(pre + 'evaluator.Evaluator')
        try:
            e = I.call(I.getattr(ev, 'load'), [root], {'index_to_label_override': OVERRIDE})
        except PyRaise as x:
            c.ensure('loads', FALSE)
            return
        for w, r, s in roles:
            if r is None:
                continue
            o = e.attrs.get('_' + r)
            c.ensure(f'loaded[{r}]', const(isinstance(o, Inst) and o.attrs['_path'].parts == bld.attrs['_' + w].attrs['_path'].parts))
        lab = e.attrs['_index_to_label']
        c.ensure('labels', const(isinstance(lab, Labels) and lab.reader is e.attrs['_' + roles[0][1]] and lab.override is OVERRIDE))
        c.ensure('metadata-loaded', const(restored(e.attrs['_metadata_fields'])))
        # a missing directory is reported
        I.root_exists = FALSE
        try:
            I.call(I.getattr(ev, 'load'), [root], {})
        except PyRaise as x:
            c.ensure('missing-reported', const(x.exc == 'FileNotFoundError'), props=['C21'])
        else:
            c.ensure('missing-reported', FALSE, props=['C21'])
    f.__name__ = task + '_persistent'
    contract(pre + 'evaluator.Builder.persistent', ['C14', 'C17', 'C21'],
             uses={P + 'FileCacheWriter.create': create, P + 'FileCacheReader.load': open_reader, pre + 'shared.extract_labels': labels,
                   pre + 'shared.encode_metadata_fields': lambda I, b: ('encoded', b['metadata_fields']),
                   pre + 'shared.decode_metadata_fields': stored, **sch}, externals=EXT)(f)


NO_META = ('generate_intermediate_schema', 'generate_roc_curve_schema')
persists('od', ['generate_detailed_schema', 'generate_ranked_schema'], [('detailed_writer', 'detailed_reader', 'generate_detailed_schema'), ('ranked_writer', 'ranked_reader', 'generate_ranked_schema')])
persists('cls', ['generate_schema', *NO_META], [('writer', 'reader', 'generate_schema'), ('roc_curve_writer', 'roc_curve_reader', 'generate_roc_curve_schema'), ('intermediate_writer', None, 'generate_intermediate_schema')])
persists('seg', ['generate_schema'], [('writer', 'reader', 'generate_schema')])
