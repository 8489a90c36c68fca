"""Contracts of the schemas: the built-in columns followed or surrounded by the user's, rejected when they clash (C21); metadata
fields survive being stored (C17)."""
from .base import *
from vc.interp import *
from vc.arr import *
from vc import ops

COLUMNS = {
    'valor_lite.object_detection.shared.generate_detailed_schema': dict(datum_uid='string', datum_id='int64', gt_uid='string', gt_id='int64', gt_label='string', gt_label_id='int64', pd_uid='string',
                                                                        pd_id='int64', pd_label='string', pd_label_id='int64', pd_score='float64', iou='float64'),
    'valor_lite.object_detection.shared.generate_ranked_schema': dict(datum_uid='string', datum_id='int64', gt_id='int64', gt_label_id='int64', pd_id='int64', pd_label_id='int64', pd_score='float64', iou='float64', iou_prev='float64'),
    'valor_lite.classification.shared.generate_schema': dict(datum_uid='string', datum_id='int64', gt_label='string', gt_label_id='int64', pd_label='string', pd_label_id='int64', pd_score='float64', pd_winner='bool_', match='bool_'),
    'valor_lite.semantic_segmentation.shared.generate_schema': dict(datum_uid='string', datum_id='int64', gt_label='string', gt_label_id='int64', pd_label='string', pd_label_id='int64', count='uint64'),
}
EXT = {'pyarrow.' + k: (lambda I, k=k: ('type', k)) for k in ('string', 'int64', 'float64', 'bool_', 'uint64')}


def fields(c):
    """any number of metadata fields"""
    n = c.size('fields')
    k = fresh('I', 'k')
    ASC.add(k)
    name, typ = (lambda k: app('field_name', (k,), 'S')), (lambda k: app('field_type', (k,), 'S'))
    return n, name, typ, PyList([('seg', (k,), and_(le(ZERO, k), lt(k, n)), (('one', (name(k), typ(k))),))])


class Made:
    def __init__(self, parts):
        self.parts = parts


def schema_contract(target, cols, given):
    def f(c):
        n, name, typ, meta = fields(c)
        k = fresh('I', 'k')
        clash = exists([k], and_(le(ZERO, k), lt(k, n), or_(*[eq(name(k), ops.scal(x)) for x in cols])))
        try:
            r = c.run(meta if given else None)
        except PyRaise as e:
            c.ensure('rejected', and_(const(e.exc == 'ValueError' and given), clash))
            return
        if not isinstance(r, Made):
            raise Unsupported('schema')
        if given:
            c.ensure('no-clash', not_(clash))
        own = [p[1] for p in r.parts if p[0] == 'one']
        got = {x[0]: x[1] for x in own}
        c.ensure('columns', const(len(own) == len(got) and all(got.get(k) == ('type', v) for k, v in cols.items())))
        user = [p for p in r.parts if p[0] != 'one']
        if not given:
            c.ensure('no-more', const(not user))
            return
        one = len(user) == 1 and len(user[0][3]) == 1 and user[0][3][0][0] == 'one' and len(user[0][1]) == 1
        if user and not one:
            raise Unsupported('metadata columns')
        if not user:
            c.ensure('metadata-columns', eq(n, ZERO))
            return
        _, (v,), dom, ((_, x),) = user[0]
        c.ensure('metadata-columns', forall([v], and_(eq(dom, and_(le(ZERO, v), lt(v, n))), implies(dom, and_(eq(ops.scal(x[0]), name(v)), eq(ops.scal(x[1]), typ(v)))))))
    f.__name__ = target.split('.')[1][:3].replace('obj', 'od').replace('sem', 'seg') + '_' + target.split('.')[-1].replace('generate_', '') + ('' if given else '_plain')
    contract(target, ['C21', 'C14'], externals={**EXT, 'pyarrow.schema': lambda I, fs: Made(tuple(I.iter_parts(fs)))})(f)


for t_, cols in COLUMNS.items():
    for given in (True, False):
        schema_contract(t_, cols, given)


def stored_contract(task):
    pre = f'valor_lite.{task}.shared.'

    def f(c):
        n, name, typ, meta = fields(c)
        i, j = fresh('I', 'i'), fresh('I', 'j')
        c.require(forall([i, j], implies(and_(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), eq(name(i), name(j))), eq(i, j))))
        e = c.run(meta)
        r = c.I.call(c.func(pre + 'decode_metadata_fields'), [e], {})
        ps = tuple(c.I.iter_parts(r))
        if not ps:
            c.ensure('fields-survive', eq(n, ZERO))
            return
        if len(ps) != 1 or ps[0][0] != 'seg' or len(ps[0][1]) != 1 or len(ps[0][3]) != 1:
            raise Unsupported(f'fields {ps}')
        _, (v,), dom, ((_, x),) = ps[0]
        c.ensure('fields-survive', forall([v], and_(eq(dom, and_(le(ZERO, v), lt(v, n))), implies(dom, and_(eq(ops.scal(x[0]), name(v)), eq(ops.scal(x[1]), typ(v)))))))
    f.__name__ = {'object_detection': 'od', 'classification': 'cls', 'semantic_segmentation': 'seg'}[task] + '_stored_fields'
    contract(pre + 'encode_metadata_fields', ['C17'])(f)


for task in ('object_detection', 'classification', 'semantic_segmentation'):
    stored_contract(task)
