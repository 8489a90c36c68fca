"""Contracts of the functions behind the per-annotation examples."""
from .metrics import *
from vc.table import *

OU = 'valor_lite.object_detection.utilities.'
CU = 'valor_lite.classification.utilities.'


def mapping(width, index, id_col, uid_col):
    """the mapping sends the id of every row of the table to the identifier the user gave, and nothing else"""
    def f(c):
        n = c.size('n')
        R = RangeAx(n)
        ID, UID = (lambda r: app('id', (r,), 'I')), (lambda r: app('uid', (r,), 'S'))
        x, y = fresh('I', 'x'), fresh('I', 'y')
        # ids identify the annotation
        c.require(forall([x, y], implies(and_(rng(x, n), rng(y, n), eq(ID(x), ID(y))), eq(UID(x), UID(y)))))
        tbl = Table(R, lambda k, r: {id_col: ID, uid_col: UID}[k](r[0]), {id_col: 'i8', uid_col: 'U'})
        pairs = c.arr('pairs', [R, RangeAx(width)], 'f8')
        c.require(forall([x], implies(rng(x, n), eq(app('pairs', (x, const(index)), 'R'), term(ID(x), 'R')))))
        res = c.run(tbl, pairs, index, id_col, uid_col)
        if not hasattr(res, 'updates') or res.items or len(res.updates) != 1:
            raise Unsupported('shape of the mapping')
        vs, dom, key, val = res.updates[0]
        r = fresh('I', 'r')
        c.skolem('named', [r], and_(rng(r, n), le(ZERO, ID(r))), exists(list(vs), and_(dom, eq(key, ID(r)))))
        c.skolem('own', [r] + list(vs), and_(dom, rng(r, n), eq(key, ID(r))), and_(eq(val, UID(r)), le(ZERO, key)))
        c.skolem('only', list(vs), dom, exists([r], and_(rng(r, n), eq(key, ID(r)))))
    return f


for nm, args in (('datum', (7, 0, 'datum_id', 'datum_uid')), ('gt', (7, 1, 'gt_id', 'gt_uid')), ('pd', (7, 2, 'pd_id', 'pd_uid'))):
    f = mapping(*args)
    f.__name__ = f'od_mapping_{nm}'
    contract(OU + 'create_mapping', ['C06'], externals=TABLE_EXT)(f)
f = mapping(4, 0, 'datum_id', 'datum_uid')
f.__name__ = 'cls_mapping'
contract(CU + 'create_mapping', ['C11'], externals=TABLE_EXT)(f)


# ------------------------------------------------------------------------------------------- examples
def ids(c, name, n, names):
    """one user-given identifier per internal index; rows of one datum with the same identifier are the same annotation"""
    k = c.size('n_' + name)
    return k, (lambda i: app(name + '_uid', (term(i),), 'S')), SymDict(k, lambda i: app(name + '_uid', (term(i),), 'S'))


@contract(OU + 'unpack_examples', ['C06', 'C22'])
def od_unpack_examples(c):
    n = c.size('n')
    R = RangeAx(n)
    D, G, P, GL, PL = (lambda i, k=k: app(k, (i,), 'I') for k in ('D', 'G', 'P', 'GL', 'PL'))
    pairs = new([R, RangeAx(7)], lambda r: ops.pick([*(term(f(r[0][0]), 'R') for f in (D, G, P, GL, PL)), app('iou', r[0], 'R'), app('sc', r[0], 'R')], r[1][0]), 'f8', 'pairs')
    mi, ti, its = thresholds(c, 'iou_th')
    ms, ts, sts = thresholds(c, 'score_th')
    box = [RangeAx(mi), RangeAx(ms), R]
    tp, fp, fn = (c.arr(k, box, 'b') for k in ('tp', 'fp', 'fn'))
    T_, F_, N_ = (lambda t, s, r, k=k: app(k, (t, s, r), 'B') for k in ('tp', 'fp', 'fn'))
    nd, du, dmap = ids(c, 'datum', n, D)
    ng, gu, gmap = ids(c, 'gt', n, G)
    np_, pu, pmap = ids(c, 'pd', n, P)
    x, y, t, s = (fresh('I', q) for q in 'xyts')
    two = and_(rng(x, n), rng(y, n), eq(D(x), D(y)))
    c.require(forall([x], implies(rng(x, n), rng(D(x), nd))))
    c.require(forall([t, s, x], implies(and_(rng(t, mi), rng(s, ms), rng(x, n)), and_(
        implies(T_(t, s, x), and_(rng(G(x), ng), rng(P(x), np_))), implies(F_(t, s, x), rng(P(x), np_)), implies(N_(t, s, x), rng(G(x), ng))))))
    # an annotation has one index, one identifier within its datum, and is listed with one label
    c.require(forall([x, y], implies(and_(two, eq(gu(G(x)), gu(G(y)))), and_(eq(G(x), G(y)), eq(GL(x), GL(y))))))
    c.require(forall([x, y], implies(and_(two, eq(pu(P(x)), pu(P(y)))), and_(eq(P(x), P(y)), eq(PL(x), PL(y))))))
    res = c.run(pairs, tp, fn, fp, its, sts, dmap, gmap, pmap)
    r = fresh('I', 'r')
    here = lambda q: exists([r], and_(rng(r, n), eq(D(r), q)))
    on = lambda m, d, t, s: lambda r: and_(rng(r, n), eq(D(r), d), m(t, s, r))
    metric_list(c, 'examples', res, [here, mi, ms], 'Examples', lambda d, t, s: (
        {'datum_id': du(d),
         'true_positives': Bag('I', lambda r: (on(T_, d, t, s)(r), (gu(G(r)), pu(P(r))))),
         'false_positives': Bag('I', lambda r: (on(F_, d, t, s)(r), pu(P(r)))),
         'false_negatives': Bag('I', lambda r: (on(N_, d, t, s)(r), gu(G(r))))},
        {'iou_threshold': ti(t), 'score_threshold': ts(s)}))


@contract(CU + 'unpack_examples', ['C11', 'C22'])
def cls_unpack_examples(c):
    n = c.size('n')
    R = RangeAx(n)
    L, lab, names = labels(c)
    D, G, P = (lambda i, k=k: app(k, (i,), 'I') for k in ('D', 'G', 'P'))
    pairs = new([R, RangeAx(3)], lambda r: ops.pick([f(r[0][0]) for f in (D, G, P)], r[1][0]), 'i8', 'ids')
    m, th, ths = thresholds(c, 'th')
    hm = var('hardmax', 'B')
    tp, fp, fn = (c.arr(k, [RangeAx(m), R], 'b') for k in ('tp', 'fp', 'fn'))
    T_, F_, N_ = (lambda s, r, k=k: app(k, (s, r), 'B') for k in ('tp', 'fp', 'fn'))
    nd, du, dmap = ids(c, 'datum', n, D)
    x, y, s = (fresh('I', q) for q in 'xys')
    c.require(forall([x], implies(rng(x, n), and_(rng(D(x), nd), rng(G(x), L), rng(P(x), L)))))
    # a datum has one ground truth label; a true positive predicts it
    c.require(forall([x, y], implies(and_(rng(x, n), rng(y, n), eq(D(x), D(y))), eq(G(x), G(y)))))
    c.require(forall([s, x], implies(and_(rng(s, m), rng(x, n), T_(s, x)), eq(G(x), P(x)))))
    res = c.run(pairs, tp, fn, fp, ths, hm, dmap, names)
    r = fresh('I', 'r')
    here = lambda q: exists([r], and_(rng(r, n), eq(D(r), q)))
    on = lambda k, d, s, r: and_(rng(r, n), eq(D(r), d), k(s, r))
    hit = lambda d, s, l: exists([y], and_(on(T_, d, s, y), eq(G(y), l)))
    metric_list(c, 'examples', res, [here, m], 'Examples', lambda d, s: (
        {'datum_id': du(d),
         'true_positives': Bag('I', lambda r: (on(T_, d, s, r), lab(G(r)))),
         'false_positives': Bag('I', lambda r: (and_(on(F_, d, s, r), not_(hit(d, s, P(r)))), lab(P(r)))),
         'false_negatives': Bag('I', lambda r: (and_(on(N_, d, s, r), not_(hit(d, s, G(r)))), lab(G(r))))},
        {'score_threshold': th(s), 'hardmax': hm}))
