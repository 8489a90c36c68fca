"""Contracts of Evaluator.filter: what is written to the cache of the filtered evaluator."""
from .metrics import *
from .evaluator import Data, CLS_TYPES, CE, cls_evaluator, labels
from .evaluator import *
from vc.table import *


class Sink:
    """a cache writer: the tables written to it (contracts of the writers, contracts/cache.py)"""

    def __init__(self):
        self.log = PyList()

    def sym_attr(self, I, a):
        if a == 'write_table':
            return Fn(lambda I, tbl: calls.call_method(I, self.log, 'append', [tbl], {}))
        raise Unsupported(f'writer.{a}')

    def map_terms(self, f):
        return self


class NewLoader:
    """loader of the filtered cache"""

    def __init__(self, **settings):
        self.settings, self.sink, self.done = settings, Sink(), None

    def map_terms(self, f):
        return self

    def sym_attr(self, I, a):
        if a in ('_writer', '_detailed_writer'):
            return self.sink
        if a == 'finalize':
            def finalize(I, **kw):
                return Finished(self, kw)
            return Fn(finalize)
        raise Unsupported(f'loader.{a}')

    def sym_is(self, I, b):
        return FALSE


class Finished:
    def __init__(self, loader, kw):
        self.loader, self.kw = loader, kw


def creators(mod):
    mem = lambda I, b: NewLoader(on_disk=False, **b)
    disk = lambda I, b: NewLoader(on_disk=True, **b)
    return {mod + 'Builder.in_memory': mem, mod + 'Builder.persistent': disk}


def written(c, d, res, names, keep, cells, fin):
    """the tables written hold exactly the rows to keep, with the given cells"""
    if not isinstance(res, Finished):
        raise Unsupported('result of filter')
    s = res.loader.settings
    disk = var(d.reader.name + '_on_disk', 'B')
    c.ensure('storage', disk if s['on_disk'] else not_(disk))
    c.ensure('batch-size', eq(ops.scal(s['batch_size']), var(d.reader.name + '_batch_size', 'I')))
    c.ensure('label-set', res.kw.get('index_to_label_override') is names)
    parts = res.loader.sink.log.parts
    if len(parts) != 1 or parts[0][0] != 'seg' or len(parts[0][3]) != 1 or parts[0][3][0][0] != 'one':
        raise Unsupported('shape of the writes')
    _, vs, dom, ((_, tb),) = parts[0]
    if not isinstance(tb, Table) or len(vs) != 1:
        raise Unsupported('written table')
    (t,) = vs
    r = fresh('I', 'r')
    try:
        inside = tb.axis.dom((r,))
    except Exception:
        raise Unsupported('rows of the written table')
    c.skolem('rows', [t, r], TRUE, eq(and_(dom, inside), and_(d.row(t, r), keep(t, r))))
    for n in d.reader.types:
        if n.startswith('?'):
            continue
        if not tb.has(n):
            c.ensure(f'column[{n}]', FALSE)
            continue
        want = cells.get(n, lambda t, r: d.cell(n, t, r))
        c.skolem(f'cell[{n}]', [t, r], and_(d.row(t, r), keep(t, r)), eq(tb.col(n, (r,)), want(t, r)))
    if s['on_disk']:
        c.ensure('rows-per-file', eq(ops.scal(s['rows_per_file']), var(d.reader.name + '_rows_per_file', 'I')))


def chosen(d, which, on, *key):
    """some row of the (selected) table with the same key satisfies the expression"""
    if not on:
        return lambda t, r: TRUE

    def f(t, r):
        q = fresh('I', 'q')
        return exists([q], and_(d.row(t, q), d.cell(which, t, q), *[eq(d.cell(k, t, q), d.cell(k, t, r)) for k in key]))
    return f


def variants(target, props, **kw):
    """every combination of given and omitted expressions"""
    def deco(f):
        for n, flags in (('none', (0, 0, 0)), ('datums', (1, 0, 0)), ('gts', (0, 1, 0)), ('pds', (0, 0, 1)), ('annotations', (0, 1, 1)), ('all', (1, 1, 1))):
            g = (lambda fl: lambda c: f(c, *map(bool, fl)))(flags)
            g.__name__ = f'{f.__name__}_{n}'
            contract(target, props, externals=TABLE_EXT, **kw)(g)
        return f
    return deco


def exprs(d, flags):
    e = lambda k: Expr(lambda col, r, t, k=k: col(k))
    return [e(k) if on else None for k, on in zip(('?datums', '?groundtruths', '?predictions'), flags)]


@variants(CE + 'Evaluator.filter', ['C18'], uses=creators(CE))
def cls_filter(c, *flags):
    d = Data(c, CLS_TYPES, flags[0])
    L, lab, names = labels(c)
    de, ge, pe = exprs(d, flags)
    res = c.run(cls_evaluator(c, d, names), datums=de, groundtruths=ge, predictions=pe, path='somewhere')
    kg = chosen(d, '?groundtruths', flags[1], 'datum_id', 'gt_label_id')
    kp = chosen(d, '?predictions', flags[2], 'datum_id', 'pd_label_id')
    written(c, d, res, names, lambda t, r: and_(kg(t, r), kp(t, r)), {}, None)


@variants(OE + 'Evaluator.filter', ['C18'], uses=creators(OE))
def od_filter(c, *flags):
    d, L, lab, names = od_data(c, flags[0])
    # a row without ground truth or without prediction has no overlap
    c.require(d.all(lambda x: implies(or_(lt(x('gt_id'), ZERO), lt(x('pd_id'), ZERO)), eq(x('iou'), term(0.0)))))
    de, ge, pe = exprs(d, flags)
    res = c.run(od_evaluator(c, d, names), datums=de, groundtruths=ge, predictions=pe, path='somewhere')
    kg = chosen(d, '?groundtruths', flags[1], 'datum_id', 'gt_id', 'gt_label_id')
    kp = chosen(d, '?predictions', flags[2], 'datum_id', 'pd_id', 'pd_label_id')
    has = lambda k, n: lambda t, r: and_(k(t, r), le(ZERO, d.cell(n, t, r)))
    gt, pd = has(kg, 'gt_id'), has(kp, 'pd_id')
    # an annotation that is filtered out is replaced by the marks of a missing one
    pick = lambda k, n, e: (n, lambda t, r: ite(k(t, r), d.cell(n, t, r), term(e)))
    written(c, d, res, names, lambda t, r: or_(gt(t, r), pd(t, r)),
            dict([pick(gt, 'gt_id', -1), pick(gt, 'gt_label_id', -1), pick(pd, 'pd_id', -1), pick(pd, 'pd_label_id', -1), pick(pd, 'pd_score', -1.0),
                  pick(lambda t, r: and_(gt(t, r), pd(t, r)), 'iou', 0.0)]), None)


@variants(SE + 'Evaluator.filter', ['C18'], uses=creators(SE))
def seg_filter(c, *flags):
    d, L, lab, names = seg_data(c, flags[0])
    de, ge, pe = exprs(d, flags)
    res = c.run(seg_evaluator(c, d, names), datums=de, groundtruths=ge, predictions=pe, path='somewhere')
    kg = chosen(d, '?groundtruths', flags[1], 'datum_id', 'gt_label_id')
    kp = chosen(d, '?predictions', flags[2], 'datum_id', 'pd_label_id')
    pick = lambda k, n, e: (n, lambda t, r: ite(k(t, r), d.cell(n, t, r), term(e)))
    # the pixels of a filtered-out annotation become unlabelled
    written(c, d, res, names, lambda t, r: TRUE, dict([pick(kg, 'gt_label_id', -1), pick(kp, 'pd_label_id', -1)]), None)
