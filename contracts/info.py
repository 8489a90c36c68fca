"""Contracts of the evaluators' information and of the label map read from a cache (C23, C22)."""
from .evaluator import *


def total_rows(d):
    t, r = fresh('I', 't'), fresh('I', 'r')
    return count([t, r], d.reader.has_row(t, r))


def check_info(c, d, L, info, meta, **want):
    a = info.attrs
    c.ensure('rows', eq(ops.scal(a['number_of_rows']), total_rows(d)))
    c.ensure('labels', eq(ops.scal(a['number_of_labels']), L))
    c.ensure('metadata', const(a['metadata_fields'] is meta))
    for k, v in want.items():
        c.ensure(k, eq(ops.scal(a['number_of_' + k]), v))


@both(CE + 'Evaluator.get_info', ['C23', 'C17'])
def cls_info(c, flt):
    d, L, lab, names = cls_data(c, flt)
    ev = cls_evaluator(c, d, names)
    ev.attrs['_metadata_fields'] = meta = PyList([])
    check_info(c, d, L, c.run(ev, datums=d.expr), meta, datums=n_datums(d))


@both(SE + 'Evaluator.get_info', ['C23', 'C17'])
def seg_info(c, flt):
    d, L, lab, names = seg_data(c, flt)
    ev = seg_evaluator(c, d, names)
    ev.attrs['_metadata_fields'] = meta = PyList([])
    on = lambda x, k: x(k) if flt else TRUE
    check_info(c, d, L, c.run(ev, datums=d.expr, groundtruths=d.gts, predictions=d.pds), meta, datums=n_datums(d), pixels=pixels(d),
               groundtruth_pixels=pixels(d, lambda x: and_(le(ZERO, x('gt_label_id')), on(x, '?groundtruths'))),
               prediction_pixels=pixels(d, lambda x: and_(le(ZERO, x('pd_label_id')), on(x, '?predictions'))))


@both(OE + 'Evaluator.get_info', ['C23', 'C17'])
def od_info(c, flt):
    d, L, lab, names = od_data(c, flt)
    ev = od_evaluator(c, d, names)
    ev.attrs['_metadata_fields'] = meta = PyList([])
    on = lambda x, k: x(k) if flt else TRUE
    check_info(c, d, L, c.run(ev, datums=d.expr, groundtruths=d.gts, predictions=d.pds), meta, datums=n_datums(d),
               groundtruth_annotations=distinct(d, 'gt_id', lambda x: and_(le(ZERO, x('gt_id')), on(x, '?groundtruths'))),
               prediction_annotations=distinct(d, 'pd_id', lambda x: and_(le(ZERO, x('pd_id')), on(x, '?predictions'))))


@both(CS + 'extract_groundtruth_count_per_label', ['C10', 'C17'])
def cls_gt_per_label(c, flt):
    d, L, lab, names = cls_data(c, flt)
    r = c.run(d.reader, L, d.expr, d.gts, d.pds)
    # a datum has rows in one table only, so (datum, label) pairs are counted once
    t, q, k = fresh('I', 't'), fresh('I', 'q'), fresh('I', 'd')

    def n(col, sel):
        return lambda l: count([k], exists([t, q], and_(d.row(t, q), d.cell(sel, t, q) if flt else TRUE, eq(d.cell('datum_id', t, q), k), eq(d.cell(col, t, q), l))))
    f = n('gt_label_id', '?groundtruths'), n('pd_label_id', '?predictions')
    c.ensure_array('count', r, [RangeAx(L), RangeAx(2)], lambda l, j: f[j[0].args[0]](l[0]))


def label_map(target, types, name):
    """the map holds exactly the label ids found in the rows, each with its own name"""
    def f(c):
        d = Data(c, types, False)
        name_of = lambda l: app('name', (l,), 'S')
        none = const(-1)
        # an id stands for one name; -1 stands for no label
        c.require(d.all(lambda x: and_(*[and_(le(none, x(k + '_label_id')), implies(le(ZERO, x(k + '_label_id')), eq(x(k + '_label'), name_of(x(k + '_label_id'))))) for k in ('gt', 'pd')])))
        r = c.run(d.reader)
        if not isinstance(r, PyDict) or r.items or not getattr(r, 'updates', None):
            raise Unsupported('shape of the map')
        t, q = fresh('I', 't'), fresh('I', 'q')
        has = lambda l: exists([t, q], and_(d.reader.has_row(t, q), or_(eq(d.cell('gt_label_id', t, q), l), eq(d.cell('pd_label_id', t, q), l))))
        l = fresh('I', 'l')
        c.skolem('every-label', [l], and_(le(ZERO, l), has(l)), or_(*[exists(list(vs), and_(dom, eq(key, l))) for vs, dom, key, val in r.updates]))
        for i, (vs, dom, key, val) in enumerate(r.updates):
            c.skolem(f'own-name[{i}]', list(vs), dom, and_(le(ZERO, key), has(key), eq(val, name_of(key))))
    f.__name__ = name
    contract(target, ['C22', 'C23', 'C17'])(f)

    def g(c):
        d = Data(c, types, False)
        L, lab, names = labels(c)
        c.ensure('given', const(c.run(d.reader, names) is names))
    g.__name__ = name + '_given'
    contract(target, ['C22', 'C23'])(g)


label_map(CS + 'extract_labels', CLS_TYPES, 'cls_labels')
label_map(SS + 'extract_labels', SEG_TYPES, 'seg_labels')
label_map(OS + 'extract_labels', OD_TYPES, 'od_labels')
