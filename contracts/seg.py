"""Contracts of valor_lite.semantic_segmentation.computation."""
from .base import *

M = 'valor_lite.semantic_segmentation.computation.'
R0, R1 = term(0.0), term(1.0)


def disjoint(c, f, n, npx):
    """masks of one side are pairwise disjoint (established by the loader)"""
    a, b, x = fresh('I', 'a'), fresh('I', 'b'), fresh('I', 'x')
    rng = and_(le(ZERO, a), lt(a, n), le(ZERO, b), lt(b, n), le(ZERO, x), lt(x, npx))
    c.require(forall([a, b, x], implies(and_(rng, f(a, x), f(b, x)), eq(a, b))))


def seg_intermediates_(c, bare=()):
    """bare: sides without annotations, given as no labels and one empty mask"""
    npx, L = c.size('npx'), c.size('L')
    ng, npd = (ZERO if k in bare else c.size(n) for k, n in (('gt', 'ng'), ('pd', 'np')))
    none = new([RangeAx(1), RangeAx(npx)], lambda r: FALSE, 'b')
    gt = none if 'gt' in bare else c.arr('gt', [RangeAx(ng), RangeAx(npx)], 'b')
    pd = new([RangeAx(1), RangeAx(npx)], lambda r: FALSE, 'b') if 'pd' in bare else c.arr('pd', [RangeAx(npd), RangeAx(npx)], 'b')
    gl = c.arr('gl', [RangeAx(ng)], 'i8')
    pl = c.arr('pl', [RangeAx(npd)], 'i8')
    c.require(c.fa(gl.axes, lambda i: and_(le(ZERO, gl.at([i])), lt(gl.at([i]), L))))
    c.require(c.fa(pl.axes, lambda i: and_(le(ZERO, pl.at([i])), lt(pl.at([i]), L))))
    GT = lambda a, x: app('gt', (a, x), 'B')
    PD = lambda a, x: app('pd', (a, x), 'B')
    disjoint(c, GT, ng, npx)
    disjoint(c, PD, npd, npx)
    cm = c.run(gt, pd, gl, pl, L)
    g, p, x = fresh('I', 'g'), fresh('I', 'p'), fresh('I', 'x')
    px = and_(le(ZERO, x), lt(x, npx))
    covg = lambda lab: exists([g], and_(le(ZERO, g), lt(g, ng), eq(app('gl', (g,), 'I'), lab), GT(g, x)))
    covp = lambda lab: exists([p], and_(le(ZERO, p), lt(p, npd), eq(app('pl', (p,), 'I'), lab), PD(p, x)))
    nog = not_(exists([g], and_(le(ZERO, g), lt(g, ng), GT(g, x))))
    nop = not_(exists([p], and_(le(ZERO, p), lt(p, npd), PD(p, x))))
    c.ensure('shape', and_(*[eq(a.card(), add(L, ONE)) for a in cm.axes]))
    a, b = fresh('I', 'a'), fresh('I', 'b')
    rng = and_(le(ZERO, a), lt(a, L), le(ZERO, b), lt(b, L))
    at = lambda i, j: cm.at([(i,), (j,)])
    # every cell counts the pixels under that pair of labels, each pixel once
    c.ensure('cell', forall([a, b], implies(rng, eq(at(add(a, ONE), add(b, ONE)), count([x], and_(px, covg(a), covp(b)))))))
    c.skolem('unmatched-gt', [a], and_(le(ZERO, a), lt(a, L)), eq(at(add(a, ONE), ZERO), count([x], and_(px, covg(a), nop))),
             lemmas=[solve.split_lemma([x], and_(px, covg(a)), nop)])
    c.skolem('unmatched-pd', [b], and_(le(ZERO, b), lt(b, L)), eq(at(ZERO, add(b, ONE)), count([x], and_(px, nog, covp(b)))),
             lemmas=[solve.split_lemma([x], and_(px, covp(b)), nog)])
    c.ensure('background', eq(at(ZERO, ZERO), count([x], and_(px, nog, nop))))
    c.unchanged('frame', gt, pd, gl, pl)


for nm, bare in (('', ()), ('_no_gt', ('gt',)), ('_no_pd', ('pd',)), ('_bare', ('gt', 'pd'))):
    f = (lambda b: lambda c: seg_intermediates_(c, b))(bare)
    f.__name__ = 'seg_intermediates' + nm
    contract(M + 'compute_intermediates', ['C12', 'C13'])(f)


@contract(M + 'compute_metrics', ['C13'])
def seg_metrics(c):
    L = c.size('L')
    n1 = add(L, ONE)
    cm = c.arr('cm', [RangeAx(n1), RangeAx(n1)], 'u8')
    C = lambda i, j: app('cm', (i, j), 'I')
    c.require(c.fa(cm.axes, lambda i, j: le(ZERO, cm.at([i, j]))))
    prec, rec, f1, acc, ious, upr, ugr = c.run(cm)
    S = metrics_spec(C, L)
    ax = [RangeAx(L)]
    c.ensure_array('precision', prec, ax, lambda a: S['precision'](a[0]))
    c.ensure_array('recall', rec, ax, lambda a: S['recall'](a[0]))
    c.ensure_array('f1', f1, ax, lambda a: f1_of(prec.at([a]), rec.at([a])))
    c.ensure_array('iou', ious, [RangeAx(L), RangeAx(L)], lambda a, b: S['iou'](a[0], b[0]))
    c.ensure_array('unmatched-prediction', upr, ax, lambda b: S['unmatched_pd'](b[0]))
    c.ensure_array('unmatched-groundtruth', ugr, ax, lambda a: S['unmatched_gt'](a[0]))
    c.ensure('accuracy', eq(term(acc, 'R'), S['accuracy']))
    for nm, arr in (('precision', prec), ('recall', rec), ('f1', f1), ('iou', ious), ('unmatched-prediction', upr), ('unmatched-groundtruth', ugr)):
        c.ensure('range.' + nm, c.fa(arr.axes, lambda *r: and_(le(R0, arr.at(list(r))), le(arr.at(list(r)), R1))))
    c.unchanged('frame', cm)


def rat(a, b):
    return ite(lt(ZERO, b), div(a, b), R0)


def f1_of(p, r):
    return ite(lt(R0, add(p, r)), div(mul(term(2.0), p, r), add(p, r)), R0)


def metrics_spec(C, L):
    """the metrics of a confusion matrix C(i, j); row and column 0 hold the pixels without a label"""
    i, j = fresh('I', 'i'), fresh('I', 'j')
    inr = lambda v: and_(le(ZERO, v), le(v, L))
    gtc = lambda a: sum_([j], inr(j), C(add(a, ONE), j))
    pdc = lambda b: sum_([i], inr(i), C(i, add(b, ONE)))
    C1 = lambda a, b: C(add(a, ONE), add(b, ONE))
    tot = sum_([i, j], and_(inr(i), inr(j)), C(i, j))
    tp = sum_([i], inr(i), C(i, i))
    prec, rec = lambda a: rat(C1(a, a), pdc(a)), lambda a: rat(C1(a, a), gtc(a))
    return {'precision': prec, 'recall': rec, 'f1': lambda a: f1_of(prec(a), rec(a)), 'iou': lambda a, b: rat(C1(a, b), sub(add(gtc(a), pdc(b)), C1(a, b))),
            'unmatched_pd': lambda b: rat(C(ZERO, add(b, ONE)), pdc(b)), 'unmatched_gt': lambda a: rat(C(add(a, ONE), ZERO), gtc(a)), 'accuracy': rat(tp, tot)}


def use_metrics(I, b):
    cm = b['confusion_matrix']
    if not isinstance(cm, Arr) or cm.ndim != 2:
        raise Unsupported('matrix of another shape')
    g = cm.freeze()
    v = [x.vars('q') for x in cm.axes]
    L = sub(cm.axes[0].card(), ONE)
    I.obl('precondition', and_(le(ZERO, L), eq(cm.axes[1].card(), cm.axes[0].card())), 'the confusion matrix is square')
    I.obl('precondition', forall([x for q in v for x in q], implies(and_(*[a.dom(x) for a, x in zip(cm.axes, v)]), le(ZERO, g(v)))), 'counts are non-negative')
    S = metrics_spec(lambda i, j: g([(i,), (j,)]), L)
    A_ = RangeAx(L)
    one = lambda k: new([A_], lambda r: S[k](r[0][0]), 'f8')
    return one('precision'), one('recall'), one('f1'), S['accuracy'], new([A_, A_], lambda r: S['iou'](r[0][0], r[1][0]), 'f8'), one('unmatched_pd'), one('unmatched_gt')


USES = {M + 'compute_metrics': use_metrics}
