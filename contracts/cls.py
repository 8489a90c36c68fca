"""Contracts of valor_lite.classification.computation."""
from .base import *

M = 'valor_lite.classification.computation.'
TOL = term(1e-8)      # np.isclose(score, 0): |score| <= atol


def pairs(c):
    """rows of (datum, ground truth label, prediction label), as produced by shared.extract_*"""
    n, L = c.size('n'), c.size('L', 1)
    rows = RangeAx(n)
    D = lambda i: app('D', (i,), 'I')
    G = lambda i: app('G', (i,), 'I')
    P = lambda i: app('P', (i,), 'I')
    ids = new([rows, RangeAx(3)], lambda r: ops.pick([D(r[0][0]), G(r[0][0]), P(r[0][0])], r[1][0]), 'i8', 'ids')
    sc = c.arr('sc', [rows], 'f8')
    w = c.arr('win', [rows], 'b')
    c.require(c.fa([rows], lambda i: and_(le(ZERO, G(i[0])), lt(G(i[0]), L), le(ZERO, P(i[0])), lt(P(i[0]), L))))
    # scores lie in [0, 1]
    c.require(c.fa([rows], lambda i: le(term(0.0), app('sc', i, 'R'))))
    m = c.size('m')
    th = c.arr('th', [RangeAx(m)], 'f8')
    hm = var('hardmax', 'B')
    return n, L, rows, D, G, P, ids, sc, w, m, th, hm


def positive(i, s, hm, tol):
    x = app('sc', (i,), 'R')
    return and_(lt(tol, x), le(app('th', (s,), 'R'), x), or_(not_(hm), app('win', (i,), 'B')))


class Rows:
    """the rows a specification ranges over: variables, domain and columns"""

    def __init__(self, vs, dom, D, G, P, score, winner):
        self.vs, self.dom, self.D, self.G, self.P, self.score, self.winner = list(vs), dom, D, G, P, score, winner

    def pos(self, th, hm, tol):
        return and_(lt(tol, self.score), le(th, self.score), or_(not_(hm), self.winner))


def counts_spec(R, th, hm, l, k):
    """entry k (TP, FP, FN, TN) of the counts of label l over the rows R at threshold th"""
    pos = R.pos(th, hm, TOL)
    d = fresh('I', 'd')
    if k == 0:      # datums of the label with a positive prediction of it
        return count(R.vs, and_(R.dom, eq(R.P, l), eq(R.G, l), pos))
    if k == 1:
        return count(R.vs, and_(R.dom, eq(R.P, l), ne(R.G, l), pos))
    if k == 2:      # datums of the label with it predicted but not positive, or another label positive
        return count([d], exists(R.vs, and_(R.dom, eq(R.D, d), eq(R.G, l), or_(and_(eq(R.P, l), not_(pos)), and_(ne(R.P, l), pos)))))
    return count([d], exists(R.vs, and_(R.dom, eq(R.D, d), eq(R.P, l), ne(R.G, l), not_(pos))))


def pair_spec(R, R2, th, hm):
    """(true positive, misclassified, unmatched) for a row R; R2: another row"""
    tol = term(1e-9)
    pos = R.pos(th, hm, tol)
    return (and_(pos, eq(R.G, R.P)), and_(pos, ne(R.G, R.P)),
            not_(exists(R2.vs, and_(R2.dom, eq(R2.D, R.D), eq(R2.G, R.G), R2.pos(th, hm, tol)))))


def matrix_spec(R, hit, g, p):
    d = fresh('I', 'd')
    return count([d], exists(R.vs, and_(R.dom, eq(R.D, d), eq(R.G, g), eq(R.P, p), hit)))


def unmatched_spec(R, un, g):
    d = fresh('I', 'd')
    return count([d], exists(R.vs, and_(R.dom, eq(R.D, d), eq(R.G, g), un)))


def model_rows(n, D, G, P, i=None):
    i = fresh('I', 'i') if i is None else i
    return Rows([i], and_(le(ZERO, i), lt(i, n)), D(i), G(i), P(i), app('sc', (i,), 'R'), app('win', (i,), 'B'))


@contract(M + 'compute_counts', ['C08', 'C09'])
def cls_compute_counts(c):
    n, L, rows, D, G, P, ids, sc, w, m, th, hm = pairs(c)
    res = c.run(ids, sc, w, th, hm, L)
    R = model_rows(n, D, G, P)
    spec = lambda s, l, k: counts_spec(R, app('th', s, 'R'), hm, l[0], k[0].args[0])
    c.ensure_array('counts', res, [RangeAx(m), RangeAx(L), RangeAx(4)], spec)
    c.unchanged('frame', sc, w, th)


def counts_in(c):
    m, L = c.size('m'), c.size('L')
    a = c.arr('cnt', [RangeAx(m), RangeAx(L), RangeAx(4)], 'u8')
    c.require(c.fa(a.axes, lambda s, l, k: le(ZERO, a.at([s, l, k]))))
    return m, L, a, lambda s, l, k: app('cnt', (s[0], l[0], const(k)), 'I')


def ratio(a, b):
    return ite(lt(ZERO, b), div(a, b), const(0, 'R'))


@contract(M + 'compute_precision', ['C09'])
def cls_precision(c):
    m, L, a, at = counts_in(c)
    r = c.run(a)
    c.ensure_array('precision', r, [RangeAx(m), RangeAx(L)], lambda s, l: ratio(at(s, l, 0), add(at(s, l, 0), at(s, l, 1))))
    c.ensure('range', c.fa(r.axes, lambda s, l: and_(le(term(0.0), r.at([s, l])), le(r.at([s, l]), term(1.0)))))
    c.unchanged('frame', a)


@contract(M + 'compute_recall', ['C09'])
def cls_recall(c):
    m, L, a, at = counts_in(c)
    r = c.run(a)
    c.ensure_array('recall', r, [RangeAx(m), RangeAx(L)], lambda s, l: ratio(at(s, l, 0), add(at(s, l, 0), at(s, l, 2))))
    c.ensure('range', c.fa(r.axes, lambda s, l: and_(le(term(0.0), r.at([s, l])), le(r.at([s, l]), term(1.0)))))
    c.unchanged('frame', a)


@contract(M + 'compute_f1_score', ['C09'])
def cls_f1(c):
    """precision and recall are ratios of a common TP count, so that they vanish together"""
    m, L = c.size('m'), c.size('L')
    ax = [RangeAx(m), RangeAx(L)]
    p, r = c.arr('p', ax, 'f8'), c.arr('r', ax, 'f8')
    big = term(1e-9)
    for a in (p, r):
        # values are k/n with n below 10**9
        c.require(c.fa(ax, lambda s, l: and_(le(term(0.0), a.at([s, l])), le(a.at([s, l]), term(1.0)),
                                             or_(eq(a.at([s, l]), term(0.0)), lt(big, a.at([s, l]))))))
    res = c.run(p, r)

    def spec(s, l):
        x, y = p.at([s, l]), r.at([s, l])
        return ite(lt(term(0.0), add(x, y)), div(mul(term(2.0), x, y), add(x, y)), term(0.0))
    c.ensure_array('f1', res, ax, spec)
    c.ensure('range', c.fa(ax, lambda s, l: and_(le(term(0.0), res.at([s, l])), le(res.at([s, l]), term(1.0)))))
    c.unchanged('frame', p, r)


@contract(M + 'compute_accuracy', ['C09'])
def cls_accuracy(c):
    m, L, a, at = counts_in(c)
    nd = c.size('nd')
    r = c.run(a, nd)
    l = fresh('I', 'l')
    tot = lambda s: sum_([l], and_(le(ZERO, l), lt(l, L)), app('cnt', (s[0], l, ZERO), 'I'))
    c.ensure_array('accuracy', r, [RangeAx(m)], lambda s: ratio(tot(s), nd))
    c.unchanged('frame', a)


@contract(M + 'compute_pair_classifications', ['C11'])
def cls_pairs(c):
    n, L, rows, D, G, P, ids, sc, w, m, th, hm = pairs(c)
    tp, mis, un = c.run(ids, sc, w, th, hm)
    ax = [RangeAx(m), rows]
    j = fresh('I', 'j')
    R2 = model_rows(n, D, G, P, j)
    at = lambda i: model_rows(n, D, G, P, i[0])
    for k, (nm, res) in enumerate((('tp', tp), ('misclassified', mis), ('unmatched', un))):
        c.ensure_array(nm, res, ax, lambda s, i: pair_spec(at(i), R2, app('th', s, 'R'), hm)[k])
    c.unchanged('frame', sc, w, th)


@contract(M + 'compute_confusion_matrix', ['C11'])
def cls_cm(c):
    n, L, rows, D, G, P, ids, sc, w, m, th, hm = pairs(c)
    ax = [RangeAx(m), rows]
    tp, mis, un = (c.arr(x, ax, 'b') for x in ('tp', 'mis', 'un'))
    cm, ug = c.run(ids, tp, mis, un, th, L)
    R = model_rows(n, D, G, P)
    B = lambda nm, s: app(nm, (s, R.vs[0]), 'B')
    c.ensure_array('matrix', cm, [RangeAx(m), RangeAx(L), RangeAx(L)], lambda s, g, p: matrix_spec(R, or_(B('tp', s[0]), B('mis', s[0])), g[0], p[0]))
    c.ensure_array('unmatched', ug, [RangeAx(m), RangeAx(L)], lambda s, g: unmatched_spec(R, B('un', s[0]), g[0]))
    c.unchanged('frame', tp, mis, un)


# ---------------------------------------------------------------- the contracts as callers see them
def arr_rows(ids, sc, w, r=None):
    ax = ids.axes[0]
    r = ax.vars('i') if r is None else r
    c = lambda k: ops_int(ids.at([r, (const(k),)]))
    return Rows(r, ax.dom(r), c(0), c(1), c(2), sc.at([r]) if sc is not None else None, w.at([r]) if w is not None else None)


def ops_int(t):
    return trunc(t) if t.sort == 'R' else t


def same_rows(I, ids, *arrs):
    for a in arrs:
        if not (a.axes[0].same(ids.axes[0]) or I.axes_equal(a.axes[0], ids.axes[0])):
            raise Unsupported('columns of different length')


def check_rows(I, R, L):
    """precondition shared by the pair computations"""
    I.obl('precondition', forall(R.vs, implies(R.dom, and_(le(ZERO, R.G), lt(R.G, L), le(ZERO, R.P), lt(R.P, L)))), 'labels of the rows are label indices')
    if R.score is not None:
        I.obl('precondition', forall(R.vs, implies(R.dom, le(term(0.0), R.score))), 'scores are non-negative')


def use_counts(I, b):
    ids, sc, w, th, hm, L = (b[k] for k in ('ids', 'scores', 'winners', 'score_thresholds', 'hardmax', 'n_labels'))
    L, hm = ops.scal(L), ops.scal(hm)
    same_rows(I, ids, sc, w)
    check_rows(I, arr_rows(ids, sc, w), L)
    return new([th.axes[0], RangeAx(L), RangeAx(4)],
               lambda r: ops.pick([counts_spec(arr_rows(ids, sc, w), th.at([r[0]]), hm, r[1][0], k) for k in range(4)], r[2][0]), 'u8')


def use_pairs(I, b):
    ids, sc, w, th, hm = (b[k] for k in ('ids', 'scores', 'winners', 'score_thresholds', 'hardmax'))
    hm = ops.scal(hm)
    same_rows(I, ids, sc, w)
    R = arr_rows(ids, sc, w)
    I.obl('precondition', forall(R.vs, implies(R.dom, le(term(0.0), R.score))), 'scores are non-negative')
    return tuple(new([th.axes[0], ids.axes[0]], lambda r, k=k: pair_spec(arr_rows(ids, sc, w, r[1]), arr_rows(ids, sc, w), th.at([r[0]]), hm)[k], 'b') for k in range(3))


def use_matrix(I, b):
    ids, tp, mis, un, th, L = (b[k] for k in ('ids', 'mask_tp', 'mask_fp_fn_misclf', 'mask_fn_unmatched', 'score_thresholds', 'n_labels'))
    L = ops.scal(L)
    for m in (tp, mis, un):
        if m.ndim != 2 or not m.axes[1].same(ids.axes[0]) and not I.axes_equal(m.axes[1], ids.axes[0]):
            raise Unsupported('masks of another shape')
    check_rows(I, arr_rows(ids, None, None), L)
    tp, mis, un = tp.freeze(), mis.freeze(), un.freeze()

    def cm(r):
        R = arr_rows(ids, None, None)
        return matrix_spec(R, or_(tp([r[0], tuple(R.vs)]), mis([r[0], tuple(R.vs)])), r[1][0], r[2][0])

    def ug(r):
        R = arr_rows(ids, None, None)
        return unmatched_spec(R, un([r[0], tuple(R.vs)]), r[1][0])
    S, A_ = th.axes[0], RangeAx(L)
    return new([S, A_, A_], cm, 'u8'), new([S, A_], ug, 'u8')


USES = {M + 'compute_counts': use_counts, M + 'compute_pair_classifications': use_pairs, M + 'compute_confusion_matrix': use_matrix}


def use_ratio(k2):
    def use(I, b):
        a = b['counts']
        if a.ndim != 3:
            raise Unsupported('counts of another shape')
        g = a.freeze()
        at = lambda r, k: g([r[0], r[1], (const(k),)])
        vs = [x.vars('q') for x in a.axes[:2]]
        I.obl('precondition', forall([v for x in vs for v in x], implies(and_(*[ax.dom(x) for ax, x in zip(a.axes, vs)]), and_(le(ZERO, at(vs, 0)), le(ZERO, at(vs, k2))))), 'counts are non-negative')
        return new(a.axes[:2], lambda r: ratio(at(r, 0), add(at(r, 0), at(r, k2))), 'f8')
    return use


def f1_of(x, y):
    return ite(lt(term(0.0), add(x, y)), div(mul(term(2.0), x, y), add(x, y)), term(0.0))


def use_f1(I, b):
    p, q = b['precision'].freeze(), b['recall'].freeze()
    axes = b['precision'].axes
    vs = [x.vars('q') for x in axes]
    ok = lambda v: and_(le(term(0.0), v), le(v, term(1.0)), or_(eq(v, term(0.0)), lt(term(1e-9), v)))
    I.obl('precondition', forall([v for x in vs for v in x], implies(and_(*[ax.dom(x) for ax, x in zip(axes, vs)]), and_(ok(p(vs)), ok(q(vs))))), 'precision and recall are 0 or above 1e-9')
    return new(axes, lambda r: f1_of(p(r), q(r)), 'f8')


def use_accuracy(I, b):
    a, nd = b['counts'], ops.scal(b['n_datums'])
    g = a.freeze()
    def tot(r):
        v = a.axes[1].vars('l')
        return sum_(list(v), a.axes[1].dom(v), g([r[0], v, (ZERO,)]))
    return new(a.axes[:1], lambda r: ratio(tot(r), nd), 'f8')


USES.update({M + 'compute_precision': use_ratio(1), M + 'compute_recall': use_ratio(2), M + 'compute_f1_score': use_f1, M + 'compute_accuracy': use_accuracy})
