"""Contracts of the functions that turn arrays into metric lists."""
from .metrics import *

CU = 'valor_lite.classification.utilities.'
OU = 'valor_lite.object_detection.utilities.'
SU = 'valor_lite.semantic_segmentation.utilities.'


def entry(d, k):
    for x in d.items:
        if str(getattr(x, 'value', x)) == k or x == k:
            return d.items[x]
    if hasattr(d, 'default'):
        return PyList()
    raise PyRaise('KeyError')


@contract(CU + 'unpack_precision_recall', ['C22', 'C08', 'C09'])
def cls_unpack_pr(c):
    L, lab, names = labels(c)
    m, th, ths = thresholds(c, 'th')
    hm = var('hardmax', 'B')
    S, A = RangeAx(m), RangeAx(L)
    cnt = c.arr('cnt', [S, A, RangeAx(4)], 'u8')
    p, r, f = (c.arr(x, [S, A], 'f8') for x in ('p', 'r', 'f'))
    acc = c.arr('acc', [S], 'f8')
    res = c.run(counts=cnt, precision=p, recall=r, accuracy=acc, f1_score=f, score_thresholds=ths, hardmax=hm, index_to_label=names)
    par = lambda l, s: {'score_threshold': th(s), 'hardmax': hm, 'label': lab(l)}
    C = lambda s, l, k: app('cnt', (s, l, const(k)), 'I')
    metric_list(c, 'Accuracy', entry(res, 'Accuracy'), [m], 'Accuracy', lambda s: (app('acc', (s,), 'R'), {'score_threshold': th(s), 'hardmax': hm}))
    metric_list(c, 'Counts', entry(res, 'Counts'), [L, m], 'Counts', lambda l, s: (dict(tp=C(s, l, 0), fp=C(s, l, 1), fn=C(s, l, 2), tn=C(s, l, 3)), par(l, s)))
    for k, a in (('Precision', 'p'), ('Recall', 'r'), ('F1', 'f')):
        metric_list(c, k, entry(res, k), [L, m], k, lambda l, s, a=a: (app(a, (s, l), 'R'), par(l, s)))


@contract(CU + 'unpack_rocauc', ['C22', 'C10'])
def cls_unpack_rocauc(c):
    L, lab, names = labels(c)
    a = c.arr('auc', [RangeAx(L)], 'f8')
    mean = var('mean', 'R')
    res = c.run(rocauc=a, mean_rocauc=mean, index_to_label=names)
    metric_list(c, 'ROCAUC', entry(res, 'ROCAUC'), [L], 'ROCAUC', lambda l: (app('auc', (l,), 'R'), {'label': lab(l)}))
    metric_list(c, 'mROCAUC', entry(res, 'mROCAUC'), [], 'mROCAUC', lambda: (mean, {}))


@contract(CU + 'unpack_confusion_matrix', ['C22', 'C11'])
def cls_unpack_cm(c):
    L, lab, names = labels(c)
    m, th, ths = thresholds(c, 'th')
    hm = var('hardmax', 'B')
    S, A = RangeAx(m), RangeAx(L)
    cm, ug = c.arr('cm', [S, A, A], 'u8'), c.arr('ug', [S, A], 'u8')
    res = c.run(confusion_matrices=cm, unmatched_groundtruths=ug, index_to_label=names, score_thresholds=ths, hardmax=hm)
    metric_list(c, 'ConfusionMatrix', res, [m], 'ConfusionMatrix', lambda s: (
        {'confusion_matrix': Map(L, lab, lambda g: Map(L, lab, lambda p: app('cm', (s, g, p), 'I'))),
         'unmatched_ground_truths': Map(L, lab, lambda g: app('ug', (s, g), 'I'))},
        {'score_threshold': th(s), 'hardmax': hm}))


def mean(n, f):
    v = fresh('I', 'v')
    return div(sum_([v], rng(v, n), f(v)), term(n, 'R'))


@contract(OU + 'unpack_precision_recall_into_metric_lists', ['C22', 'C03', 'C04', 'C05'])
def od_unpack_pr(c):
    L, lab, names = labels(c)
    m, it, its = thresholds(c, 'iou')
    n, st, sts = thresholds(c, 'score')
    Q, S, A = RangeAx(m), RangeAx(n), RangeAx(L)
    R = lambda f, *a: app(f, tuple(term(x) for x in a), 'R')
    arr = lambda f, *ax: c.arr(f, list(ax), 'f8')
    res = c.run(counts=c.arr('cnt', [Q, S, RangeAx(3), A], 'u8'), precision_recall_f1=arr('prf', Q, S, RangeAx(3), A), average_precision=arr('ap', Q, A),
                mean_average_precision=arr('map', Q), average_recall=arr('ar', S, A), mean_average_recall=arr('mar', S), pr_curve=arr('curve', Q, A, RangeAx(101), RangeAx(2)),
                iou_thresholds=its, score_thresholds=sts, index_to_label=names)
    I_, T_ = Seq(m, it), Seq(n, st)
    P = lambda k, *a: metric_list(c, k, entry(res, k), a[0], k, a[1])
    P('AP', [m, L], lambda i, l: (R('ap', i, l), {'iou_threshold': it(i), 'label': lab(l)}))
    P('mAP', [m], lambda i: (R('map', i), {'iou_threshold': it(i)}))
    P('APAveragedOverIOUs', [L], lambda l: (mean(m, lambda i: R('ap', i, l)), {'iou_thresholds': I_, 'label': lab(l)}))
    P('mAPAveragedOverIOUs', [], lambda: (mean(m, lambda i: R('map', i)), {'iou_thresholds': I_}))
    P('AR', [n, L], lambda s, l: (R('ar', s, l), {'iou_thresholds': I_, 'score_threshold': st(s), 'label': lab(l)}))
    P('mAR', [n], lambda s: (R('mar', s), {'iou_thresholds': I_, 'score_threshold': st(s)}))
    P('ARAveragedOverScores', [L], lambda l: (mean(n, lambda s: R('ar', s, l)), {'iou_thresholds': I_, 'score_thresholds': T_, 'label': lab(l)}))
    P('mARAveragedOverScores', [], lambda: (mean(n, lambda s: R('mar', s)), {'iou_thresholds': I_, 'score_thresholds': T_}))
    P('PrecisionRecallCurve', [m, L], lambda i, l: ({'precisions': Seq(101, lambda k: R('curve', i, l, k, 0)), 'scores': Seq(101, lambda k: R('curve', i, l, k, 1))},
                                                    {'iou_threshold': it(i), 'label': lab(l)}))
    par = lambda i, s, l: {'iou_threshold': it(i), 'score_threshold': st(s), 'label': lab(l)}
    C = lambda i, s, k, l: app('cnt', (i, s, const(k), l), 'I')
    P('Counts', [m, n, L], lambda i, s, l: (dict(tp=C(i, s, 0, l), fp=C(i, s, 1, l), fn=C(i, s, 2, l)), par(i, s, l)))
    for j, k in enumerate(('Precision', 'Recall', 'F1')):
        P(k, [m, n, L], lambda i, s, l, j=j: (R('prf', i, s, j, l), par(i, s, l)))


@contract(OU + 'unpack_confusion_matrix', ['C22', 'C06'])
def od_unpack_cm(c):
    L, lab, names = labels(c)
    m, it, its = thresholds(c, 'iou')
    n, st, sts = thresholds(c, 'score')
    Q, S, A = RangeAx(m), RangeAx(n), RangeAx(L)
    res = c.run(confusion_matrices=c.arr('cm', [Q, S, A, A], 'u8'), unmatched_groundtruths=c.arr('ug', [Q, S, A], 'u8'), unmatched_predictions=c.arr('up', [Q, S, A], 'u8'),
                index_to_label=names, iou_thresholds=its, score_thresholds=sts)
    metric_list(c, 'ConfusionMatrix', res, [m, n], 'ConfusionMatrix', lambda i, s: (
        {'confusion_matrix': Map(L, lab, lambda g: Map(L, lab, lambda p: app('cm', (i, s, g, p), 'I'))),
         'unmatched_ground_truths': Map(L, lab, lambda g: app('ug', (i, s, g), 'I')),
         'unmatched_predictions': Map(L, lab, lambda g: app('up', (i, s, g), 'I'))},
        {'iou_threshold': it(i), 'score_threshold': st(s)}))


@contract(SU + 'unpack_precision_recall_iou_into_metric_lists', ['C22', 'C12'])
def seg_unpack(c):
    L, lab, names = labels(c)
    A = RangeAx(L)
    R = lambda f, *a: app(f, tuple(term(x) for x in a), 'R')
    acc = var('acc', 'R')
    res = c.run(results=(c.arr('p', [A], 'f8'), c.arr('r', [A], 'f8'), c.arr('f', [A], 'f8'), acc, c.arr('iou', [A, A], 'f8'), c.arr('up', [A], 'f8'), c.arr('ug', [A], 'f8')), index_to_label=names)
    P = lambda k, *a: metric_list(c, k, entry(res, k), a[0], k, a[1])
    P('Accuracy', [], lambda: (acc, {}))
    P('mIOU', [], lambda: (mean(L, lambda i: R('iou', i, i)), {}))
    for k, f in (('Precision', 'p'), ('Recall', 'r'), ('F1', 'f')):
        P(k, [L], lambda l, f=f: (R(f, l), {'label': lab(l)}))
    P('IOU', [L], lambda l: (R('iou', l, l), {'label': lab(l)}))
    P('ConfusionMatrix', [], lambda: (
        {'confusion_matrix': Map(L, lab, lambda g: Map(L, lab, lambda p: {'iou': R('iou', g, p)})),
         'unmatched_predictions': Map(L, lab, lambda g: {'ratio': R('up', g)}),
         'unmatched_ground_truths': Map(L, lab, lambda g: {'ratio': R('ug', g)})}, {}))
