"""Contracts of the evaluators: metrics over the rows of a cache, however the rows are split into tables and whichever
datums are selected."""
from .metrics import *
from .cls import USES as CLS_USES, Rows, counts_spec, pair_spec, matrix_spec, unmatched_spec, ratio, f1_of
from .seg import USES as SEG_USES, rat, f1_of as seg_f1
from .od import USES as OD_USES, PRow, pair_masks, matrix_cell, gt_cell, pd_cell, score_ok
from .unpack import entry, mean
from vc.table import *

CE = 'valor_lite.classification.evaluator.'
CS = 'valor_lite.classification.shared.'

CLS_TYPES = {'datum_uid': 'U', 'datum_id': 'i8', 'gt_label': 'U', 'gt_label_id': 'i8', 'pd_label': 'U', 'pd_label_id': 'i8', 'pd_score': 'f8', 'pd_winner': 'b', 'match': 'b'}


class Data:
    """a reader, the expression selecting datums (or None), and the rows it selects"""

    def __init__(self, c, types, filtered, name='cache'):
        # a filter expression is an arbitrary predicate of the cells of a row: a column of its values
        self.reader = Reader(name, {**types, **{k: 'b' for k in ('?datums', '?groundtruths', '?predictions')}})
        self.filtered = filtered
        self.expr, self.gts, self.pds = (Expr(lambda col, r, t, k=k: col(k)) if filtered else None for k in ('?datums', '?groundtruths', '?predictions'))
        c.require(le(ZERO, self.reader.nt))

    def sel(self, t, r):
        return self.cell('?datums', t, r) if self.filtered else TRUE

    def row(self, t, r):
        return and_(self.reader.has_row(t, r), self.sel(t, r))

    def cell(self, n, t, r):
        return self.reader.cell(n, t, r)

    def all(self, f):
        t, r = fresh('I', 't'), fresh('I', 'r')
        return forall([t, r], implies(self.reader.has_row(t, r), f(lambda n: self.cell(n, t, r))))

    def aligned(self, *key):
        """rows agreeing on the key lie in the same table"""
        t, r, u, s = (fresh('I', x) for x in 'trus')
        return forall([t, r, u, s], implies(and_(self.reader.has_row(t, r), self.reader.has_row(u, s), *[eq(self.cell(k, t, r), self.cell(k, u, s)) for k in key]), eq(t, u)))

    def rows(self, t=None, r=None):
        t, r = t or fresh('I', 't'), r or fresh('I', 'r')
        c = lambda n: self.cell(n, t, r)
        return Rows([t, r], self.row(t, r), c('datum_id'), c('gt_label_id'), c('pd_label_id'), c('pd_score'), c('pd_winner'))


def cls_data(c, filtered):
    d = Data(c, CLS_TYPES, filtered)
    L, lab, names = labels(c)
    c.require(d.all(lambda x: and_(le(ZERO, x('gt_label_id')), lt(x('gt_label_id'), L), le(ZERO, x('pd_label_id')), lt(x('pd_label_id'), L), le(term(0.0), x('pd_score')))))
    c.require(d.aligned('datum_id'))
    return d, L, lab, names


def cls_evaluator(c, d, names):
    o = Inst(c.func(CE + 'Evaluator'))
    o.attrs = HDict({'_reader': d.reader, '_roc_curve_reader': Opaque('roc'), '_index_to_label': names, '_metadata_fields': None})
    return o


def n_datums(d):
    t, r, k = fresh('I', 't'), fresh('I', 'r'), fresh('I', 'd')
    return count([k], exists([t, r], and_(d.row(t, r), eq(d.cell('datum_id', t, r), k))))


def both(target, props, **kw):
    """contract stated for all datums and for a selection of them"""
    def deco(f):
        for flt in (False, True):
            g = (lambda flt: lambda c: f(c, flt))(flt)
            g.__name__ = f.__name__ + ('_filtered' if flt else '')
            contract(target, props + (['C18'] if flt and 'C18' not in props else []), externals=TABLE_EXT, **kw)(g)
        return f
    return deco


def few(c, rat, sizes, *ratios):
    """fewer than 10**9 counted objects: every ratio of counts is 0 or above 1e-9"""
    ok = lambda v: and_(le(term(0.0), v), le(v, term(1.0)), or_(eq(v, term(0.0)), lt(term(1e-9), v)))
    a, b = fresh('I', 'a'), fresh('I', 'b')
    c.follows('few-objects', [le(ZERO, a), le(ZERO, b), lt(add(a, b), term(10 ** 9))], ok(rat(a, b)))
    qs = [fresh('I', 'q') for _ in sizes]
    c.require(forall(qs, implies(and_(*[rng(x, n) for x, n in zip(qs, sizes)]), and_(*[ok(f(*qs)) for f in ratios]))))


@both(CS + 'extract_counts', ['C23', 'C17'])
def cls_extract_counts(c, flt):
    d, L, lab, names = cls_data(c, flt)
    r = c.run(d.reader, d.expr)
    c.ensure('datums', eq(ops.scal(r), n_datums(d)))


@both(CE + 'Evaluator.compute_precision_recall', ['C08', 'C09', 'C17', 'C22'], uses=CLS_USES)
def cls_eval_pr(c, flt):
    d, L, lab, names = cls_data(c, flt)
    m, th, ths = thresholds(c, 'th')
    hm = var('hardmax', 'B')
    R = d.rows()
    C = lambda s, l, k: counts_spec(R, th(s), hm, l, k)
    p = lambda s, l: ratio(C(s, l, 0), add(C(s, l, 0), C(s, l, 1)))
    q = lambda s, l: ratio(C(s, l, 0), add(C(s, l, 0), C(s, l, 2)))
    few(c, lambda a, b: ratio(a, add(a, b)), [m, L], p, q)
    box = lambda s, l: and_(rng(s, m), rng(l, L))
    cuts = dict(cuts=[solve.Cut(f'count{k}', 'II', box, lambda s, l, k=k: C(s, l, k), 'I', ['count']) for k in range(3)], cut_hyps=list(c.I.pc))
    c.assert_opts = lambda kind, where: cuts if kind == 'precondition' else None
    res = c.run(cls_evaluator(c, d, names), score_thresholds=ths, hardmax=hm, datums=d.expr)
    par = lambda l, s: {'score_threshold': th(s), 'hardmax': hm, 'label': lab(l)}
    def acc(s):
        v = fresh('I', 'l')
        return ratio(sum_([v], rng(v, L), C(s, v, 0)), n_datums(d))
    metric_list(c, 'Counts', entry(res, 'Counts'), [L, m], 'Counts', lambda l, s: (dict(tp=C(s, l, 0), fp=C(s, l, 1), fn=C(s, l, 2), tn=C(s, l, 3)), par(l, s)))
    metric_list(c, 'Precision', entry(res, 'Precision'), [L, m], 'Precision', lambda l, s: (p(s, l), par(l, s)))
    metric_list(c, 'Recall', entry(res, 'Recall'), [L, m], 'Recall', lambda l, s: (q(s, l), par(l, s)))
    metric_list(c, 'F1', entry(res, 'F1'), [L, m], 'F1', lambda l, s: (f1_of(p(s, l), q(s, l)), par(l, s)))
    metric_list(c, 'Accuracy', entry(res, 'Accuracy'), [m], 'Accuracy', lambda s: (acc(s), {'score_threshold': th(s), 'hardmax': hm}))


@both(CE + 'Evaluator.compute_confusion_matrix', ['C11', 'C17', 'C22'], uses=CLS_USES)
def cls_eval_cm(c, flt):
    d, L, lab, names = cls_data(c, flt)
    m, th, ths = thresholds(c, 'th')
    hm = var('hardmax', 'B')
    res = c.run(cls_evaluator(c, d, names), score_thresholds=ths, hardmax=hm, datums=d.expr)
    R, R2 = d.rows(), d.rows()
    hit = lambda s: or_(*pair_spec(R, R2, th(s), hm)[:2])
    metric_list(c, 'ConfusionMatrix', res, [m], 'ConfusionMatrix', lambda s: (
        {'confusion_matrix': Map(L, lab, lambda g: Map(L, lab, lambda p: matrix_spec(R, hit(s), g, p))),
         'unmatched_ground_truths': Map(L, lab, lambda g: unmatched_spec(R, pair_spec(R, R2, th(s), hm)[2], g))},
        {'score_threshold': th(s), 'hardmax': hm}))


# ---------------------------------------------------------------- semantic segmentation
SE = 'valor_lite.semantic_segmentation.evaluator.'
SS = 'valor_lite.semantic_segmentation.shared.'
SEG_TYPES = {'datum_uid': 'U', 'datum_id': 'i8', 'gt_label': 'U', 'gt_label_id': 'i8', 'pd_label': 'U', 'pd_label_id': 'i8', 'count': 'u8'}


def seg_data(c, filtered):
    d = Data(c, SEG_TYPES, filtered)
    L, lab, names = labels(c)
    ok = lambda v: and_(le(const(-1), v), lt(v, L))
    c.require(d.all(lambda x: and_(ok(x('gt_label_id')), ok(x('pd_label_id')), le(ZERO, x('count')))))
    c.require(d.aligned('datum_id'))
    return d, L, lab, names


def seg_evaluator(c, d, names):
    o = Inst(c.func(SE + 'Evaluator'))
    o.attrs = HDict({'_reader': d.reader, '_index_to_label': names, '_metadata_fields': None})
    return o


def pixels(d, cond=lambda c: TRUE):
    t, r = fresh('I', 't'), fresh('I', 'r')
    x = lambda n: d.cell(n, t, r)
    return sum_([t, r], and_(d.row(t, r), cond(x)), x('count'))


def seg_cell(d, i, j):
    """pixels of label i-1 predicted as label j-1 (0: no label)"""
    return pixels(d, lambda x: and_(eq(x('gt_label_id'), sub(i, ONE)), eq(x('pd_label_id'), sub(j, ONE))))


@both(SE + 'Evaluator._compute_confusion_matrix_intermediate', ['C12', 'C13', 'C17'])
def seg_eval_counts(c, flt):
    d, L, lab, names = seg_data(c, flt)
    cm = c.run(seg_evaluator(c, d, names), datums=d.expr)
    ax = RangeAx(add(L, ONE))
    c.ensure_array('cell', cm, [ax, ax], lambda i, j: seg_cell(d, i[0], j[0]))


@both(SS + 'extract_counts', ['C23', 'C17'])
def seg_extract_counts(c, flt):
    d, L, lab, names = seg_data(c, flt)
    nd, nt, ng, np_ = c.run(d.reader, d.expr, d.gts, d.pds)
    on = lambda x, k: x(k) if flt else TRUE
    c.ensure('datums', eq(ops.scal(nd), n_datums(d)))
    c.ensure('pixels', eq(ops.scal(nt), pixels(d)))
    c.ensure('groundtruth-pixels', eq(ops.scal(ng), pixels(d, lambda x: and_(le(ZERO, x('gt_label_id')), on(x, '?groundtruths')))))
    c.ensure('prediction-pixels', eq(ops.scal(np_), pixels(d, lambda x: and_(le(ZERO, x('pd_label_id')), on(x, '?predictions')))))


def use_intermediate(I, b):
    """the confusion matrix of the selected rows (contract seg_eval_counts)"""
    s = b['self']
    d, L = I.seg_data
    if s.attrs['_reader'] is not d.reader or b['datums'] is not d.expr:
        raise Unsupported('another cache')
    ax = RangeAx(add(L, ONE))
    return new([ax, ax], lambda r: seg_cell(d, r[0][0], r[1][0]), 'u8')


@both(SE + 'Evaluator.compute_precision_recall_iou', ['C13', 'C12', 'C17', 'C22'], uses={**SEG_USES, SE + 'Evaluator._compute_confusion_matrix_intermediate': use_intermediate})
def seg_eval_metrics(c, flt):
    d, L, lab, names = seg_data(c, flt)
    c.I.seg_data = d, L
    res = c.run(seg_evaluator(c, d, names), datums=d.expr)
    gt = lambda a: pixels(d, lambda x: eq(x('gt_label_id'), a))
    pd = lambda b: pixels(d, lambda x: eq(x('pd_label_id'), b))
    bt = lambda a, b: pixels(d, lambda x: and_(eq(x('gt_label_id'), a), eq(x('pd_label_id'), b)))
    none = const(-1)
    iou = lambda a, b: rat(bt(a, b), sub(add(gt(a), pd(b)), bt(a, b)))
    P = lambda k, *a: metric_list(c, k, entry(res, k), a[0], k, a[1])
    ok = lambda a: rng(a, L)
    cuts = dict(cuts=[solve.Cut('gt_px', 'I', ok, gt, 'I', ['sum']), solve.Cut('pd_px', 'I', ok, pd, 'I', ['sum']), solve.Cut('hit_px', 'I', ok, lambda a: bt(a, a), 'I', ['sum'])], cut_hyps=list(c.I.pc))
    c.ensure_opts = lambda n: cuts if n in ('mIOU.value', 'F1.value') else None
    pr, re = lambda l: rat(bt(l, l), pd(l)), lambda l: rat(bt(l, l), gt(l))
    P('Accuracy', [], lambda: (rat(pixels(d, lambda x: eq(x('gt_label_id'), x('pd_label_id'))), pixels(d)), {}))
    P('mIOU', [], lambda: (mean(L, lambda i: iou(i, i)), {}))
    for k, f in (('Precision', pr), ('Recall', re), ('F1', lambda l: seg_f1(pr(l), re(l))), ('IOU', lambda l: iou(l, l))):
        P(k, [L], lambda l, f=f: (f(l), {'label': lab(l)}))
    P('ConfusionMatrix', [], lambda: (
        {'confusion_matrix': Map(L, lab, lambda g: Map(L, lab, lambda p: {'iou': iou(g, p)})),
         'unmatched_predictions': Map(L, lab, lambda b: {'ratio': rat(bt(none, b), pd(b))}),
         'unmatched_ground_truths': Map(L, lab, lambda a: {'ratio': rat(bt(a, none), gt(a))})}, {}))


# ---------------------------------------------------------------- object detection
OE = 'valor_lite.object_detection.evaluator.'
OS = 'valor_lite.object_detection.shared.'
OD_TYPES = {'datum_uid': 'U', 'datum_id': 'i8', 'gt_uid': 'U', 'gt_id': 'i8', 'gt_label': 'U', 'gt_label_id': 'i8', 'pd_uid': 'U', 'pd_id': 'i8', 'pd_label': 'U', 'pd_label_id': 'i8', 'pd_score': 'f8', 'iou': 'f8'}


def distinct(d, key, cond=lambda x: TRUE):
    """number of distinct values of a column among the selected rows that satisfy the condition"""
    t, r, k = fresh('I', 't'), fresh('I', 'r'), fresh('I', 'k')
    x = lambda n: d.cell(n, t, r)
    return count([k], exists([t, r], and_(d.row(t, r), cond(x), eq(x(key), k))))


def od_data(c, filtered):
    """one row per pair; ids of annotations are global, an annotation has one label and lies in one datum"""
    d = Data(c, OD_TYPES, filtered)
    L, lab, names = labels(c)
    none = const(-1)
    side = lambda x, k: or_(and_(le(ZERO, x(k + '_id')), rng(x(k + '_label_id'), L)), and_(eq(x(k + '_id'), none), eq(x(k + '_label_id'), none)))
    c.require(d.all(lambda x: and_(le(ZERO, x('datum_id')), side(x, 'gt'), side(x, 'pd'), le(term(0.0), x('iou')), le(x('iou'), term(1.0)), score_ok(x('pd_id'), x('pd_score')),
                                      *[lt(x(k), const(2 ** 31)) for k in ('datum_id', 'gt_id', 'pd_id', 'gt_label_id', 'pd_label_id')])))
    c.require(d.aligned('datum_id'))
    t, r, u, s = (fresh('I', x) for x in 'trus')
    for k in ('gt', 'pd'):
        # a prediction may have several labels
        c.require(forall([t, r, u, s], implies(and_(d.reader.has_row(t, r), d.reader.has_row(u, s), le(ZERO, d.cell(k + '_id', t, r)), eq(d.cell(k + '_id', t, r), d.cell(k + '_id', u, s))),
                                               and_(eq(d.cell('datum_id', t, r), d.cell('datum_id', u, s)), eq(d.cell('gt_label_id', t, r), d.cell('gt_label_id', u, s)) if k == 'gt' else TRUE))))
    return d, L, lab, names


@both(OS + 'extract_counts', ['C23', 'C17'])
def od_extract_counts(c, flt):
    d, L, lab, names = od_data(c, flt)
    nd, ng, np_ = c.run(d.reader, d.expr, d.gts, d.pds)
    on = lambda x, k: x(k) if flt else TRUE
    c.ensure('datums', eq(ops.scal(nd), n_datums(d)))
    c.ensure('groundtruths', eq(ops.scal(ng), distinct(d, 'gt_id', lambda x: and_(le(ZERO, x('gt_id')), on(x, '?groundtruths')))))
    c.ensure('predictions', eq(ops.scal(np_), distinct(d, 'pd_id', lambda x: and_(le(ZERO, x('pd_id')), on(x, '?predictions')))))


@both(OS + 'extract_groundtruth_count_per_label', ['C02', 'C03', 'C04', 'C17'])
def od_gt_per_label(c, flt):
    d, L, lab, names = od_data(c, flt)
    g = c.run(d.reader, L, d.expr)
    c.ensure_array('count', g, [RangeAx(L)], lambda l: distinct(d, 'gt_id', lambda x: and_(le(ZERO, x('gt_id')), eq(x('gt_label_id'), l[0]))))


def od_evaluator(c, d, names, ranked=None):
    o = Inst(c.func(OE + 'Evaluator'))
    o.attrs = HDict({'_detailed_reader': d.reader, '_ranked_reader': ranked or Opaque('ranked'), '_index_to_label': names, '_metadata_fields': None})
    return o


def od_row(d):
    t, r = fresh('I', 't'), fresh('I', 'r')
    return PRow([t, r], d.row(t, r), *[d.cell(k, t, r) for k in ('datum_id', 'gt_id', 'pd_id', 'gt_label_id', 'pd_label_id', 'iou', 'pd_score')], app('match', (t, r), 'B'))


@both(OE + 'Evaluator.compute_confusion_matrix', ['C05', 'C17', 'C22'], uses=OD_USES)
def od_eval_cm(c, flt):
    d, L, lab, names = od_data(c, flt)
    m, it, its = thresholds(c, 'iou')
    n, st, sts = thresholds(c, 'score')
    i, j = od_row(d), od_row(d)
    # the greedy matching pairs existing annotations (od_greedy.matches)
    c.require(forall(i.vs, implies(and_(i.dom, i.match), and_(le(ZERO, i.G), le(ZERO, i.P)))))
    res = c.run(od_evaluator(c, d, names), iou_thresholds=its, score_thresholds=sts, datums=d.expr)
    M_ = lambda q, s: pair_masks(i, j, it(q), st(s))
    metric_list(c, 'ConfusionMatrix', res, [m, n], 'ConfusionMatrix', lambda q, s: (
        {'confusion_matrix': Map(L, lab, lambda g: Map(L, lab, lambda p: matrix_cell(i, or_(*M_(q, s)[:2]), g, p))),
         'unmatched_ground_truths': Map(L, lab, lambda g: gt_cell(i, M_(q, s)[3], g)),
         'unmatched_predictions': Map(L, lab, lambda p: pd_cell(i, M_(q, s)[2], p))},
        {'iou_threshold': it(q), 'score_threshold': st(s)}))
