"""Contracts of valor_lite.object_detection.computation."""
from .base import *

M = 'valor_lite.object_detection.computation.'
R0, R1 = term(0.0), term(1.0)
EPS = term(1e-9)


# ------------------------------------------------------------------------------------------- IoU
@contract(M + 'compute_bbox_iou', ['C01'])
def od_bbox_iou(c):
    n = c.size('n')
    data = c.arr('box', [RangeAx(n), RangeAx(2), RangeAx(4)], 'f8')
    B = lambda k, s, j: app('box', (k[0], const(s), const(j)), 'R')
    c.require(c.fa([RangeAx(n)], lambda k: and_(*[and_(lt(B(k, s, 0), B(k, s, 1)), lt(B(k, s, 2), B(k, s, 3))) for s in (0, 1)])))
    # boxes of non-negligible area
    area = lambda k, s: mul(sub(B(k, s, 1), B(k, s, 0)), sub(B(k, s, 3), B(k, s, 2)))
    c.require(c.fa([RangeAx(n)], lambda k: and_(le(EPS, area(k, 0)), le(EPS, area(k, 1)))))
    r = c.run(data)

    def inter(k, a, b):
        w = sub(min_(B(k, a, 1), B(k, b, 1)), max_(B(k, a, 0), B(k, b, 0)))
        h = sub(min_(B(k, a, 3), B(k, b, 3)), max_(B(k, a, 2), B(k, b, 2)))
        return mul(max_(w, R0), max_(h, R0))

    def spec(k):
        i = inter(k, 0, 1)
        return div(i, sub(add(area(k, 0), area(k, 1)), i))
    k = fresh('I', 'k')
    kd = and_(le(ZERO, k), lt(k, n))
    # the general facts below are stated over the specification value, equal to the result by the clause above
    i, a1, a2 = inter((k,), 0, 1), area((k,), 0), area((k,), 1)
    val = r.at([(k,)])
    x = [[B((k,), s, j) for j in range(4)] for s in (0, 1)]
    same = and_(*[eq(x[0][j], x[1][j]) for j in range(4)])
    disj = or_(le(x[0][1], x[1][0]), le(x[1][1], x[0][0]), le(x[0][3], x[1][2]), le(x[1][3], x[0][2]))
    area_le = c.lemma('product of smaller factors', 'RRRR', lambda w, h, a, b: or_(lt(w, R0), lt(h, R0), lt(a, w), lt(b, h), and_(le(R0, mul(w, h)), le(mul(w, h), mul(a, b)))))
    ratio = c.lemma('quotient in [0,1]', 'RR', lambda x, u: or_(lt(x, R0), lt(u, x), le(u, R0), and_(le(R0, div(x, u)), le(div(x, u), R1))))
    W, H = (max_(sub(min_(x[0][p + 1], x[1][p + 1]), max_(x[0][p], x[1][p])), R0) for p in (0, 2))
    ia = sub(add(a1, a2), i)
    lem = [area_le(W, H, sub(x[s][1], x[s][0]), sub(x[s][3], x[s][2])) for s in (0, 1)] + [ratio(i, ia)]
    c.ensure('shape', and_(const(r.ndim == 1), eq(r.axes[0].card(), n)))
    c.skolem('iou', [k], kd, eq(val, spec((k,))), lemmas=lem)
    c.skolem('identical', [k], and_(kd, same), eq(val, R1), lemmas=lem)
    c.skolem('disjoint', [k], and_(kd, disj), eq(val, R0), lemmas=lem)
    c.skolem('range', [k], kd, and_(le(R0, val), le(val, R1)), lemmas=lem)
    c.unchanged('frame', data)


@contract(M + 'compute_bitmask_iou', ['C01'])
def od_bitmask_iou(c):
    n, h, w = c.size('n'), c.size('h', 1), c.size('w', 1)
    data = c.arr('mask', [RangeAx(n), RangeAx(2), RangeAx(h), RangeAx(w)], 'b')
    r = c.run(data)
    y, x = fresh('I', 'y'), fresh('I', 'x')
    px = and_(le(ZERO, y), lt(y, h), le(ZERO, x), lt(x, w))
    Mk = lambda k, s: app('mask', (k, const(s), y, x), 'B')

    def spec(k):
        i = count([y, x], and_(px, Mk(k[0], 0), Mk(k[0], 1)))
        u = count([y, x], and_(px, or_(Mk(k[0], 0), Mk(k[0], 1))))
        return ite(lt(ZERO, u), div(i, u), R0)
    k = fresh('I', 'k')
    A_, B_ = Mk(k, 0), Mk(k, 1)
    lem = [solve.split_lemma([y, x], and_(px, or_(A_, B_)), B_), solve.split_lemma([y, x], and_(px, A_), B_)]
    kd = and_(le(ZERO, k), lt(k, n))
    c.ensure('shape', and_(const(r.ndim == 1), eq(r.axes[0].card(), n)))
    val = r.at([(k,)])
    c.skolem('iou', [k], kd, eq(val, spec((k,))), lemmas=lem)
    c.skolem('range', [k], kd, and_(le(R0, val), le(val, R1)), lemmas=lem, mono=True)
    # identical non-empty masks, disjoint masks
    same = forall([y, x], implies(px, eq(A_, B_)))
    c.skolem('identical', [k], and_(kd, same, exists([y, x], and_(px, A_))), eq(val, R1), lemmas=lem)
    c.skolem('disjoint', [k], and_(kd, not_(exists([y, x], and_(px, A_, B_)))), eq(val, R0), lemmas=lem)
    c.unchanged('frame', data)


def sh_binary(name):
    def f(I, a, b):
        return elementwise(lambda x, y: app('shapely.' + name, (x, y), 'O'), [a, b], I, 'O')
    return f


def sh_area(I, a):
    I.assumptions.add('shapely.intersection/union/area compute the exact intersection, union and (non-negative) area of their arguments')
    return elementwise(lambda x: app('shapely.area', (x,), 'R'), [a], I, 'f8')


SHAPELY = {'shapely.intersection': sh_binary('intersection'), 'shapely.union': sh_binary('union'), 'shapely.area': sh_area}


@contract(M + 'compute_polygon_iou', ['C01'], externals=SHAPELY)
def od_polygon_iou(c):
    n = c.size('n')
    data = c.arr('poly', [RangeAx(n), RangeAx(2)], 'O')
    P = lambda k, s: app('poly', (k, const(s)), 'O')
    r = c.run(data)
    ar = lambda op, k: app('shapely.area', (app('shapely.' + op, (P(k, 0), P(k, 1)), 'O'),), 'R')
    # a union of negligible area is treated as empty
    c.ensure_array('iou', r, [RangeAx(n)], lambda k: ite(le(EPS, ar('union', k[0])), div(ar('intersection', k[0]), ar('union', k[0])), R0))
    c.unchanged('frame', data)


# ------------------------------------------------------------------------------------------- pairs
COLS = ['D', 'G', 'P', 'GL', 'PL']


def od_pairs(c, prev=False, name=''):
    """rows (datum, ground truth, prediction, their labels, iou, score[, lower bound])"""
    n, L = c.size('n'), c.size('L', 1)
    rows = RangeAx(n)
    f = {k: (lambda i, k=k: app(k, (i,), 'I')) for k in COLS}
    f['iou'] = lambda i: app('iou', (i,), 'R')
    f['sc'] = lambda i: app('sc', (i,), 'R')
    f['prev'] = lambda i: app('prev', (i,), 'R')
    names = COLS + ['iou', 'sc'] + (['prev'] if prev else [])
    a = new([rows, RangeAx(len(names))], lambda r: ops.pick([term(f[k](r[0][0]), 'R') for k in names], r[1][0]), 'f8', 'pairs')
    return n, L, rows, f, a


def row(i, n):
    return and_(le(ZERO, i), lt(i, n))


def ids_ok(c, n, L, f):
    """null ids are -1; a missing side has no label"""
    i = fresh('I', 'i')
    lab = lambda a, l: or_(and_(eq(a, const(-1)), eq(l, const(-1))), and_(le(ZERO, a), le(ZERO, l), lt(l, L)))
    c.require(forall([i], implies(row(i, n), and_(le(ZERO, f['D'](i)), lab(f['G'](i), f['GL'](i)), lab(f['P'](i), f['PL'](i)),
                                                  le(R0, f['iou'](i)), le(f['iou'](i), R1), score_ok(f['P'](i), f['sc'](i))))))


def score_ok(p, sc):
    """a score belongs to a prediction; rows without one hold -1"""
    return or_(and_(le(ZERO, p), le(R0, sc), le(sc, R1)), and_(lt(p, ZERO), eq(sc, term(-1.0))))


@contract(M + 'mask_pairs_greedily', ['C05', 'C06'])
def od_greedy(c):
    n, L, rows, f, a = od_pairs(c)
    ids_ok(c, n, L, f)
    i = fresh('I', 'i')
    big = const(2 ** 31)
    c.require(forall([i], implies(row(i, n), and_(*[lt(f[k](i), big) for k in COLS]))))
    c.require(lt(ZERO, n))
    res = c.run(a)
    c.ensure('shape', and_(const(res.ndim == 1), eq(res.axes[0].card(), n)))
    # the selection Q made by the code satisfies the recursion that defines the greedy one-to-one pairing (rows in the
    # given order; a row is taken iff both sides exist and no earlier taken row shares one), and a row matches iff it
    # shows the same pair as a taken row.  The recursion has one solution, so this determines the result.
    r, j = fresh('I', 'r'), fresh('I', 'j')
    Q = selected(res.at([(r,)]), r)
    same = lambda x, y: or_(eq(f['G'](x), f['G'](y)), eq(f['P'](x), f['P'](y)))
    c.skolem('greedy-selection', [i], row(i, n), eq(Q(i), and_(le(ZERO, f['G'](i)), le(ZERO, f['P'](i)),
             not_(exists([j], and_(le(ZERO, j), lt(j, i), Q(j), same(i, j)))))))
    c.skolem('matches', [r], row(r, n), eq(res.at([(r,)]), exists([j], and_(row(j, n), Q(j), eq(f['G'](j), f['G'](r)), eq(f['P'](j), f['P'](r))))))
    c.unchanged('frame', a)


def selected(t, r):
    """the selected rows, read off a result of the form: exists j. (selected j) and (j relates to r)"""
    if t.op != 'exists' or len(t.args[0]) != 1:
        raise Unsupported('the result is not an existential over selected rows')
    vs, b = t_.open_(t)
    parts = [x for x in (b.args if b.op == 'and' else (b,)) if r not in x.fv]
    return lambda x: subst(and_(*parts), {vs[0]: x})


# ------------------------------------------------------------------------------------------- ranking
@contract(M + 'rank_pairs', ['C02', 'C04'])
def od_rank_pairs(c):
    n, L, rows, f, a = od_pairs(c)
    ids_ok(c, n, L, f)
    G, P, GL, PL, D = f['G'], f['P'], f['GL'], f['PL'], f['D']
    pairs_, idx = c.run(a)
    i, j = fresh('I', 'i'), fresh('I', 'j')
    # candidates of a prediction: the rows whose label matches, or all of its rows if none does
    cand = lambda x: and_(row(x, n), le(ZERO, P(x)), or_(eq(GL(x), PL(x)), not_(exists([j], and_(row(j, n), le(ZERO, P(j)), eq(P(j), P(x)), eq(GL(j), PL(j)))))))
    first = lambda x: and_(cand(x), not_(exists([i], and_(lt(i, x), cand(i), eq(D(i), D(x)), eq(P(i), P(x)), eq(PL(i), PL(x))))))
    c.ensure('shape', const(pairs_.ndim == 2 and idx.ndim == 1 and c.I.axes_equal(pairs_.axes[0], idx.axes[0]) and pairs_.axes[1].const_n == 7))
    ax = pairs_.axes[0]
    r, r2 = ax.vars('r'), ax.vars('s')
    at = lambda q: idx.at([q])
    c.skolem('selects-first-candidate', r, ax.dom(r), first(at(r)))
    for k, nm in enumerate(COLS + ['iou', 'sc']):
        c.skolem(f'rows[{nm}]', r, ax.dom(r), eq(pairs_.at([r, (const(k),)]), term(f[nm](at(r)), 'R')))
    c.skolem('one-row-each', list(r) + list(r2), and_(ax.dom(r), ax.dom(r2), eq(at(r), at(r2))), and_(*[eq(x, y) for x, y in zip(r, r2)]))
    q = ax.vars('q')
    w = fresh('I', 'w')
    c.skolem('complete', [w], first(w), exists(list(q), and_(ax.dom(q), eq(at(q), w))))
    hi = lambda x, y: or_(lt(f['sc'](at(y)), f['sc'](at(x))), and_(eq(f['sc'](at(y)), f['sc'](at(x))), lt(f['iou'](at(y)), f['iou'](at(x)))))
    c.skolem('ordered', list(r) + list(r2), and_(ax.dom(r), ax.dom(r2), hi(r, r2)), ax.before(r, r2))
    c.unchanged('frame', a)


@contract(M + 'calculate_ranking_boundaries', ['C02', 'C04'])
def od_boundaries(c):
    """a row is a true positive at IoU threshold t iff boundary < t <= iou: it is the first (best ranked) row of its
    ground truth that reaches t"""
    n, L, rows, f, a = od_pairs(c)
    ids_ok(c, n, L, f)
    G, P, GL, PL, D, iou = f['G'], f['P'], f['GL'], f['PL'], f['D'], f['iou']
    i, j = fresh('I', 'i'), fresh('I', 'j')
    same = lambda x, y: and_(eq(D(x), D(y)), eq(G(x), G(y)), eq(GL(x), GL(y)), eq(GL(y), PL(y)))
    rel = lambda x: and_(row(x, n), le(ZERO, G(x)), eq(GL(x), PL(x)))
    k, t = fresh('I', 'k'), fresh('R', 't')
    c.I.hints = [lambda x: not_(exists([j], and_(le(ZERO, j), lt(j, x), eq(GL(j), PL(j)), same(x, j), le(iou(x), iou(j)))))]
    res = c.run(a)
    c.ensure('shape', and_(const(res.ndim == 1), eq(res.axes[0].card(), n)))
    v = res.at([(k,)])
    two = term(2.0)
    V = lambda x: app('boundary', (x,), 'R')
    # 1. the rows with a boundary are the strict running maxima of their ground truth
    record = lambda x: and_(rel(x), not_(exists([j], and_(lt(j, x), rel(j), same(x, j), le(iou(x), iou(j))))))
    facts = [
        ('records', lambda k, v: eq(ne(v, two), record(k))),
        ('first-record', lambda k, v: or_(not_(record(k)), exists([j], and_(lt(j, k), rel(j), same(k, j))), eq(v, R0))),
        ('previous-record', lambda k, v: or_(not_(record(k)), not_(exists([j], and_(lt(j, k), rel(j), same(k, j)))),
             exists([i], and_(lt(i, k), record(i), same(k, i), eq(v, iou(i)), not_(exists([x], and_(lt(i, x), lt(x, k), record(x), same(k, x)))))))),
        ('unmatched', lambda k, v: or_(rel(k), eq(v, two))),
    ]
    x = fresh('I', 'x')
    best = solve.first_max(lambda x: and_(lt(x, k), rel(x), same(k, x)), iou, n)
    for nm, fact in facts:
        c.skolem(nm, [k], row(k, n), fact(k, v), two=True, lemmas=[best] if nm.startswith('prev') else [])
    # 2. hence (V stands for the result) the true positive test  boundary < t <= iou  picks the first row to reach t
    hyps = list(c.pre) + [forall([k], implies(row(k, n), fact(k, V(k)))) for nm, fact in facts]
    earlier = lambda x: exists([j], and_(lt(j, x), rel(j), same(x, j), le(t, iou(j))))
    least = solve.least(lambda x: and_(rel(x), same(k, x), le(t, iou(x))))
    c.follows('first-to-reach', hyps + [rel(k), lt(R0, t), le(t, R1), le(t, iou(k))], eq(lt(V(k), t), not_(earlier(k))), lemmas=[least])
    c.follows('range', hyps + [row(k, n)], or_(eq(V(k), two), and_(le(R0, V(k)), le(V(k), R1))))
    c.unchanged('frame', a)


# ------------------------------------------------------------------------------------------- counts
@contract(M + 'compute_counts', ['C02', 'C04', 'C03'])
def od_counts(c):
    n, L, rows, f, a = od_pairs(c, prev=True)
    G, P, GL, PL, D, iou, sc = (f[k] for k in ('G', 'P', 'GL', 'PL', 'D', 'iou', 'sc'))
    ids_ok(c, n, L, f)
    i, j = fresh('I', 'i'), fresh('I', 'j')
    # ranked: rows of predictions, by descending score
    c.require(forall([i], implies(row(i, n), le(ZERO, P(i)))))
    c.require(forall([i, j], implies(and_(row(i, n), row(j, n), lt(i, j)), le(sc(j), sc(i)))))
    nt, ns = c.size('nt'), c.size('ns')
    T = c.arr('T', [RangeAx(nt)], 'f8')
    S = c.arr('S', [RangeAx(ns)], 'f8')
    ngt = c.arr('ngt', [RangeAx(L)], 'u8')
    rc = c.arr('rc', [RangeAx(nt), RangeAx(L), RangeAx(2)], 'u8')
    pr = c.arr('pr', [RangeAx(nt), RangeAx(L), RangeAx(101), RangeAx(2)], 'f8')
    c.require(c.fa(ngt.axes, lambda l: le(ZERO, ngt.at([l]))))
    c.require(c.fa(rc.axes, lambda t, l, k: le(ZERO, rc.at([t, l, k]))))
    Tt = lambda t: app('T', (t,), 'R')
    cand = lambda r, t: and_(row(r, n), lt(EPS, sc(r)), le(ZERO, G(r)), eq(GL(r), PL(r)), le(Tt(t), iou(r)), lt(f['prev'](r), Tt(t)))
    # each ground truth is matched at most once per threshold, in this batch or an earlier one
    c.require(c.fa([RangeAx(nt), RangeAx(L)], lambda t, l: le(add(app('rc', (t[0], l[0], ONE), 'I'), count([i], and_(cand(i, t[0]), eq(PL(i), l[0])))), app('ngt', l, 'I'))))
    res = c.run(a, T, S, ngt, L, rc, pr)
    pos = lambda r, s: and_(row(r, n), lt(EPS, sc(r)), le(app('S', (s,), 'R'), sc(r)))
    same = lambda x, y: and_(eq(D(x), D(y)), eq(G(x), G(y)), eq(GL(x), GL(y)))
    tp = lambda r, t, s: and_(cand(r, t), pos(r, s), not_(exists([j], and_(lt(j, r), cand(j, t), pos(j, s), same(j, r)))))

    def spec(t, s, k, l):
        t, s, k, l = t[0], s[0], k[0].args[0], l[0]
        if k == 0:
            return count([i], and_(eq(PL(i), l), tp(i, t, s)))
        if k == 1:
            return count([i], and_(eq(PL(i), l), pos(i, s), not_(tp(i, t, s))))
        return ZERO
    c.ensure_array('counts', res, [RangeAx(nt), RangeAx(ns), RangeAx(3), RangeAx(L)], spec, props=['C02', 'C03'])
    def spec2(t, l, k):
        t, k, l = t[0], k[0].args[0], l[0]
        old = app('rc', (t, l, const(k)), 'I')
        return add(old, count([i], and_(row(i, n), eq(PL(i), l), cand(i, t) if k else TRUE)))
    c.ensure_array('running', rc, [RangeAx(nt), RangeAx(L), RangeAx(2)], spec2, props=['C04'])
    # 101-point curve: each bin holds the best precision (score) of the rows whose recall falls in it, or its former value if larger
    lab = lambda t, r: add(ONE, count([i], and_(lt(i, r), row(i, n), eq(PL(i), PL(r)))))
    hit = lambda t, r: add(ONE, count([i], and_(lt(i, r), cand(i, t), eq(PL(i), PL(r)))))
    RC = lambda t, l, k: app('rc', (t, l, const(k)), 'I')
    ntp = lambda t, r: ite(cand(r, t), add(RC(t, PL(r), 1), hit(t, r)), ZERO)
    prec = lambda t, r: div(ntp(t, r), add(RC(t, PL(r), 0), lab(t, r)))
    rbin = lambda t, r: floordiv(mul(const(100), ntp(t, r)), max_(app('ngt', (PL(r),), 'I'), ONE))
    t, l, b, r = (fresh('I', x) for x in 'tlbr')
    dom = and_(le(ZERO, t), lt(t, nt), le(ZERO, l), lt(l, L), le(ZERO, b), lt(b, const(101)))
    rt = lambda r, t: and_(row(r, n), le(ZERO, t), lt(t, nt))
    cuts = dict(cuts=[solve.Cut('ntp', 'II', rt, lambda r, t: ntp(t, r), 'I', ['ite']), solve.Cut('precision', 'II', rt, lambda r, t: prec(t, r), 'R', ['ite', '/'])], cut_hyps=list(c.pre))
    for k, nm, val in ((0, 'precision', prec), (1, 'score', lambda t, r: sc(r))):
        now, old = pr.at([(t,), (l,), (b,), (const(k),)]), app('pr', (t, l, b, const(k)), 'R')
        inb = and_(row(r, n), eq(PL(r), l), eq(rbin(t, r), b))
        c.skolem(f'curve-{nm}.keeps', [t, l, b], dom, le(old, now), props=['C04'], **cuts)
        c.skolem(f'curve-{nm}.dominates', [t, l, b, r], and_(dom, inb), le(val(t, r), now), props=['C04'], **cuts)
        c.skolem(f'curve-{nm}.attained', [t, l, b], dom, or_(eq(now, old), exists([r], and_(inb, eq(now, val(t, r))))), props=['C04'], **cuts)


# ------------------------------------------------------------------------------------------- metrics
def prf_in(c, name='cnt', dtype='u8'):
    nt, ns, L = c.size('nt'), c.size('ns'), c.size('L')
    a = c.arr(name, [RangeAx(nt), RangeAx(ns), RangeAx(3), RangeAx(L)], dtype)
    return nt, ns, L, a


@contract(M + 'compute_precision_recall_f1', ['C03'])
def od_prf(c):
    nt, ns, L, a = prf_in(c)
    c.require(c.fa(a.axes, lambda *q: le(ZERO, a.at(list(q)))))
    gt = c.arr('gt', [RangeAx(L)], 'u8')
    C = lambda t, s, k, l: app('cnt', (t[0], s[0], const(k), l[0]), 'I')
    N = lambda l: app('gt', l, 'I')
    bound = const(10 ** 9)
    # fewer true positives than ground truths, fewer than a billion annotations
    c.require(c.fa([RangeAx(nt), RangeAx(ns), RangeAx(L)], lambda t, s, l: and_(le(C(t, s, 0, l), N(l)), lt(add(C(t, s, 0, l), C(t, s, 1, l)), bound))))
    c.require(c.fa([RangeAx(L)], lambda l: and_(le(ZERO, N(l)), lt(N(l), bound))))
    res = c.run(a, gt)
    ratio = lambda x, y: ite(lt(ZERO, y), div(x, y), R0)

    def spec(t, s, k, l):
        k = k[0].args[0]
        tp, fp = C(t, s, 0, l), C(t, s, 1, l)
        if k == 0:
            return ratio(tp, add(tp, fp))
        if k == 1:
            return ratio(tp, N(l))
        # harmonic mean of precision and recall
        return ratio(term(mul(const(2), tp), 'R'), term(add(tp, fp, N(l)), 'R'))
    ax = [RangeAx(nt), RangeAx(ns), RangeAx(L)]
    small = c.lemma('ratio is not tiny', 'II', lambda x, y: or_(le(x, ZERO), lt(y, x), le(bound, y), lt(EPS, div(x, y))))
    harm = c.lemma('harmonic mean of ratios', 'III', lambda x, u, v: or_(le(x, ZERO), lt(u, x), lt(v, x),
                   eq(div(mul(term(2.0), div(x, u), div(x, v)), add(div(x, u), div(x, v))), div(mul(const(2), x), add(u, v)))))
    q = [x.vars('q') for x in ax]
    dom = and_(*[x.dom(v) for x, v in zip(ax, q)])
    t, s, l = q
    tp, fp = C(t, s, 0, l), C(t, s, 1, l)
    c.ensure('shape', and_(const(res.ndim == 4), *[eq(x.card(), y.card()) for x, y in zip(res.axes, a.axes)]))
    for k, nm in enumerate(('precision', 'recall', 'f1')):
        val = res.at([t, s, (const(k),), l])
        lem = [] if k < 2 else [small(tp, add(tp, fp)), small(tp, N(l)), harm(tp, add(tp, fp), N(l))]
        c.skolem(nm, [v for x in q for v in x], dom, eq(val, spec(t, s, (const(k),), l)), lemmas=lem)
    c.unchanged('frame', a, gt)


@contract(M + 'compute_average_recall', ['C03'])
def od_ar(c):
    nt, ns, L, a = prf_in(c, 'prf', 'f8')
    c.require(lt(ZERO, nt), lt(ZERO, L))
    ar, mar = c.run(a)
    t, l = fresh('I', 't'), fresh('I', 'l')
    S = lambda s, l: sum_([t], and_(le(ZERO, t), lt(t, nt)), app('prf', (t, s, ONE, l), 'R'))
    c.ensure_array('average-recall', ar, [RangeAx(ns), RangeAx(L)], lambda s, l: div(S(s[0], l[0]), nt))
    c.ensure_array('mean', mar, [RangeAx(ns)], lambda s: div(sum_([l], and_(le(ZERO, l), lt(l, L)), div(S(s[0], l), nt)), L))
    c.unchanged('frame', a)


@contract(M + 'compute_average_precision', ['C04'])
def od_ap(c):
    nt, L = c.size('nt'), c.size('L')
    a = c.arr('pr', [RangeAx(nt), RangeAx(L), RangeAx(101), RangeAx(2)], 'f8')
    pr = lambda t, l, b, k: app('pr', (t, l, b, const(k)), 'R')
    c.require(c.fa(a.axes, lambda t, l, b, k: le(R0, a.at([t, l, b, k]))))
    ap, m, curve = c.run(a)
    b, x = fresh('I', 'b'), fresh('I', 'x')
    t, l = fresh('I', 't'), fresh('I', 'l')
    dom = and_(le(ZERO, t), lt(t, nt), le(ZERO, l), lt(l, L))
    inr = lambda y: and_(le(ZERO, y), lt(y, const(101)))
    c.ensure('shape', and_(const(ap.ndim == 2 and m.ndim == 1 and curve.ndim == 4), *[eq(p.card(), q.card()) for p, q in zip(curve.axes, a.axes)],
                           eq(ap.axes[0].card(), nt), eq(ap.axes[1].card(), L), eq(m.axes[0].card(), nt)))
    for k, nm in ((0, 'precision'), (1, 'score')):
        v = lambda y: curve.at([(t,), (l,), (y,), (const(k),)])
        # right-running maximum
        c.skolem(f'curve-{nm}.dominates', [t, l, b, x], and_(dom, inr(b), inr(x), le(b, x)), le(pr(t, l, x, k), v(b)))
        c.skolem(f'curve-{nm}.attained', [t, l, b], and_(dom, inr(b)), exists([x], and_(le(b, x), inr(x), eq(v(b), pr(t, l, x, k)))))
    v0 = lambda y: curve.at([(t,), (l,), (y,), (ZERO,)])
    c.skolem('average', [t, l], dom, eq(ap.at([(t,), (l,)]), div(sum_([b], inr(b), v0(b)), term(101.0))))
    c.skolem('mean', [t], and_(le(ZERO, t), lt(t, nt), lt(ZERO, L)), eq(m.at([(t,)]), div(sum_([l], and_(le(ZERO, l), lt(l, L)), ap.at([(t,), (l,)])), L)))


# ------------------------------------------------------------------------------------------- pair classification
def greedy_summary(I, args):
    """contract od_greedy: a mask over the rows"""
    pairs = list(args.values())[0]
    return new([pairs.axes[0]], lambda r: app('match', r[0], 'B'), 'b')


class PRow:
    """rows of detailed pairs: bound variables, domain, cells, and whether the greedy matching takes the pair"""

    def __init__(self, vs, dom, D, G, P, GL, PL, iou, sc, match):
        self.vs, self.dom, self.D, self.G, self.P, self.GL, self.PL, self.iou, self.sc, self.match = list(vs), dom, D, G, P, GL, PL, iou, sc, match


def scored(x, s):
    return and_(lt(EPS, x.sc), le(s, x.sc))


def hit(x, t, s):
    """the pair x is matched at IoU threshold t and score threshold s"""
    return and_(x.dom, x.match, lt(EPS, x.iou), le(t, x.iou), scored(x, s))


def pair_masks(r, j, t, s):
    """tp, misclassified, unmatched prediction, unmatched ground truth of row r; j ranges over all rows"""
    return (and_(hit(r, t, s), eq(r.GL, r.PL)), and_(hit(r, t, s), ne(r.GL, r.PL)),
            and_(le(ZERO, r.P), scored(r, s), not_(exists(j.vs, and_(hit(j, t, s), eq(j.D, r.D), eq(j.P, r.P))))),
            and_(le(ZERO, r.G), not_(exists(j.vs, and_(hit(j, t, s), eq(j.D, r.D), eq(j.G, r.G))))))


def matrix_cell(i, m, g, p):
    """distinct (datum, ground truth, prediction) pairs with labels g, p among the rows i with m"""
    d, x, y = (fresh('I', v) for v in 'dxy')
    return count([d, x, y], exists(i.vs, and_(i.dom, eq(i.D, d), eq(i.G, x), eq(i.P, y), eq(i.GL, g), eq(i.PL, p), m)))


def gt_cell(i, m, g):
    d, x = fresh('I', 'd'), fresh('I', 'x')
    return count([d, x], exists(i.vs, and_(i.dom, eq(i.D, d), eq(i.G, x), eq(i.GL, g), m)))


def pd_cell(i, m, p):
    d, y = fresh('I', 'd'), fresh('I', 'y')
    return count([d, y], exists(i.vs, and_(i.dom, eq(i.D, d), eq(i.P, y), eq(i.PL, p), m)))


def model_row(f, n, i=None):
    i = fresh('I', 'i') if i is None else i
    return PRow([i], row(i, n), *[f[k](i) for k in (*COLS, 'iou', 'sc')], app('match', (i,), 'B'))


MASKS = ('tp', 'misclassified', 'unmatched-prediction', 'unmatched-groundtruth')


@contract(M + 'compute_pair_classifications', ['C05', 'C06'], uses={M + 'mask_pairs_greedily': greedy_summary})
def od_pairs_cls(c):
    n, L, rows, f, a = od_pairs(c)
    ids_ok(c, n, L, f)
    i = fresh('I', 'i')
    big = const(2 ** 31)
    c.require(forall([i], implies(row(i, n), and_(*[lt(f[k](i), big) for k in COLS]))))
    # a pair without overlap has iou 0; matched pairs have both sides (od_greedy.matches)
    c.require(forall([i], implies(and_(row(i, n), app('match', (i,), 'B')), and_(le(ZERO, f['G'](i)), le(ZERO, f['P'](i))))))
    nt, ns = c.size('nt'), c.size('ns')
    T, S = c.arr('T', [RangeAx(nt)], 'f8'), c.arr('S', [RangeAx(ns)], 'f8')
    out = c.run(a, T, S)
    ax = [RangeAx(nt), RangeAx(ns), rows]
    J = model_row(f, n)
    for k, nm in enumerate(MASKS):
        c.ensure_array(nm, out[k], ax, lambda t, s, r, k=k: pair_masks(model_row(f, n, r[0]), J, app('T', t, 'R'), app('S', s, 'R'))[k])
    c.unchanged('frame', a, T, S)


@contract(M + 'compute_confusion_matrix', ['C05', 'C06'])
def od_cm(c):
    n, L, rows, f, a = od_pairs(c)
    ids_ok(c, n, L, f)
    G, P = f['G'], f['P']
    nt, ns = c.size('nt'), c.size('ns')
    T, S = c.arr('T', [RangeAx(nt)], 'f8'), c.arr('S', [RangeAx(ns)], 'f8')
    ax = [RangeAx(nt), RangeAx(ns), rows]
    names = ('tp', 'mis', 'fp', 'fn')
    m = {k: c.arr(k, ax, 'b') for k in names}
    B = lambda k, t, s, i: app(k, (t, s, i), 'B')
    # the masks of od_pairs_cls
    t, s, i = (fresh('I', x) for x in 'tsi')
    dom = and_(le(ZERO, t), lt(t, nt), le(ZERO, s), lt(s, ns), row(i, n))
    c.require(forall([t, s, i], implies(dom, and_(implies(or_(B('tp', t, s, i), B('mis', t, s, i)), and_(le(ZERO, G(i)), le(ZERO, P(i)))),
                                                  implies(B('fp', t, s, i), le(ZERO, P(i))), implies(B('fn', t, s, i), le(ZERO, G(i)))))))
    cm, ug, up = c.run(a, *[m[k] for k in names], L, T, S)
    i = model_row(f, n)
    v = i.vs[0]
    c.ensure_array('matrix', cm, [RangeAx(nt), RangeAx(ns), RangeAx(L), RangeAx(L)], lambda t, s, g, p: matrix_cell(i, or_(B('tp', t[0], s[0], v), B('mis', t[0], s[0], v)), g[0], p[0]))
    c.ensure_array('unmatched-groundtruths', ug, [RangeAx(nt), RangeAx(ns), RangeAx(L)], lambda t, s, g: gt_cell(i, B('fn', t[0], s[0], v), g[0]))
    c.ensure_array('unmatched-predictions', up, [RangeAx(nt), RangeAx(ns), RangeAx(L)], lambda t, s, p: pd_cell(i, B('fp', t[0], s[0], v), p[0]))
    c.unchanged('frame', *m.values())


# ------------------------------------------------------------------------------------------- the contracts as callers see them
def call_row(a, r=None):
    """a row of the array handed to a callee"""
    ax = a.axes[0]
    r = ax.vars('i') if r is None else r
    x = [a.at([r, (const(k),)]) for k in range(7)]
    of = sorted({v for k in range(7) for v in x[k].fv if not t_.is_size(v)} - set(v for q in r for v in q.fv), key=lambda v: v.id)
    tr = lambda t: trunc(t) if t.sort == 'R' else t
    return PRow(r, ax.dom(r), *[tr(t) for t in x[:5]], x[5], x[6], app('match', tuple(of) + tuple(r), 'B'))


def check_pairs(I, R, L=None):
    lab = lambda a, l: or_(and_(eq(a, const(-1)), eq(l, const(-1))), and_(le(ZERO, a), le(ZERO, l), lt(l, L) if L is not None else TRUE))
    I.obl('precondition', forall(R.vs, implies(R.dom, and_(le(ZERO, R.D), lab(R.G, R.GL), lab(R.P, R.PL)))), 'ids and labels of the rows')


def use_pair_masks(I, b):
    a, T, S = b['detailed_pairs'], b['iou_thresholds'], b['score_thresholds']
    R = call_row(a)
    check_pairs(I, R)
    I.obl('precondition', forall(R.vs, implies(R.dom, and_(le(R0, R.iou), le(R.iou, R1), score_ok(R.P, R.sc)))), 'iou and scores of the rows')
    big = const(2 ** 31)
    I.obl('precondition', forall(R.vs, implies(R.dom, and_(*[lt(x, big) for x in (R.D, R.G, R.P, R.GL, R.PL)]))), 'ids below 2**31')
    a = b['detailed_pairs'] = new(a.axes, a.freeze(), a.dtype)
    return tuple(new([T.axes[0], S.axes[0], a.axes[0]], lambda r, k=k: pair_masks(call_row(a, r[2]), call_row(a), T.at([r[0]]), S.at([r[1]]))[k], 'b') for k in range(4))


def use_cm(I, b):
    a, L, T, S = b['detailed_pairs'], ops.scal(b['number_of_labels']), b['iou_thresholds'], b['score_thresholds']
    m = [b[k] for k in ('mask_tp', 'mask_fp_fn_misclf', 'mask_fp_unmatched', 'mask_fn_unmatched')]
    for x in m:
        if x.ndim != 3 or not x.axes[2].same(a.axes[0]) and not I.axes_equal(x.axes[2], a.axes[0]):
            raise Unsupported('masks of another shape')
    check_pairs(I, call_row(a), L)
    tp, mis, fp, fn = (x.freeze() for x in m)
    a = new(a.axes, a.freeze(), a.dtype)
    Q, Z, A_ = T.axes[0], S.axes[0], RangeAx(L)
    R = call_row(a)
    q, z = Q.vars('t'), Z.vars('s')
    ok = lambda g, c: implies(g([q, z, tuple(R.vs)]), c)
    I.obl('precondition', forall([*q, *z, *R.vs], implies(and_(Q.dom(q), Z.dom(z), R.dom), and_(ok(tp, and_(le(ZERO, R.G), le(ZERO, R.P))), ok(mis, and_(le(ZERO, R.G), le(ZERO, R.P))), ok(fp, le(ZERO, R.P)), ok(fn, le(ZERO, R.G))))),
          'masked rows have the annotations they count')

    def cell(f, *masks):
        def at(r):
            R = call_row(a)
            return f(R, or_(*[g([r[0], r[1], tuple(R.vs)]) for g in masks]), *[x[0] for x in r[2:]])
        return at
    return (new([Q, Z, A_, A_], cell(matrix_cell, tp, mis), 'u8'), new([Q, Z, A_], cell(gt_cell, fn), 'u8'), new([Q, Z, A_], cell(pd_cell, fp), 'u8'))


USES = {M + 'compute_pair_classifications': use_pair_masks, M + 'compute_confusion_matrix': use_cm}
