"""Contracts of the ROC computation: the area under the stored curve, whatever its split into tables (C10)."""
from .evaluator import *
from vc import solve, loops

CC = 'valor_lite.classification.computation.'
R0 = term(0.0)
half = term(2.0)


def ratio0(a, b):
    return ite(lt(ZERO, b), div(term(a, 'R'), term(b, 'R')), R0)


def zero_sum(vs, dom, val):
    """a sum of zeros is zero"""
    w = {v: fresh(v.sort, 'w') for v in vs}
    return or_(eq(sum_(list(vs), dom, val), R0), and_(subst(dom, w), ne(subst(val, w), R0)))


@contract(CC + 'compute_rocauc', ['C10'])
def cls_rocauc(c):
    n, L = c.size('n'), c.size('L', 1)
    rows, labs = RangeAx(n), RangeAx(L)
    LB, FP, TP = ((lambda i, k=k: app(k, (i,), 'I')) for k in ('LB', 'FP', 'TP'))
    array = new([rows, RangeAx(3)], lambda r: term(ops.pick([LB(r[0][0]), FP(r[0][0]), TP(r[0][0])], r[1][0]), 'R'), 'f8', 'array')
    gt, pd, area = c.arr('gt', [labs], 'u8'), c.arr('pd', [labs], 'u8'), c.arr('area', [labs], 'f8')
    prev = c.arr('prev', [labs, RangeAx(2)], 'u8')
    G, N, A = (lambda l: app('gt', (l,), 'I')), (lambda l: app('pd', (l,), 'I')), (lambda l: app('area', (l,), 'R'))
    PV = lambda l, k: app('prev', (l, const(k)), 'I')
    i = fresh('I', 'i')
    c.require(c.fa([rows], lambda i: and_(rng(LB(i[0]), L), le(ZERO, FP(i[0])), le(ZERO, TP(i[0])), lt(ZERO, N(LB(i[0]))))))
    c.require(c.fa([labs], lambda l: and_(le(ZERO, G(l[0])), le(G(l[0]), N(l[0])), le(ZERO, PV(l[0], 0)), le(ZERO, PV(l[0], 1)))))
    res = c.run(rocauc=area, array=array, gt_count_per_label=gt, pd_count_per_label=pd, n_labels=L, prev=prev)
    if not (isinstance(res, tuple) and len(res) == 2):
        raise Unsupported('result')
    a, b, m = (fresh('I', x) for x in 'abm')
    mine = lambda i, l: and_(rng(i, n), eq(LB(i), l))
    x = lambda v, l: ratio0(v, sub(N(l), G(l)))
    y = lambda v, l: ratio0(v, G(l))
    step = lambda p, q, l: div(mul(sub(x(q[0], l), x(p[0], l)), add(y(q[1], l), y(p[1], l))), half)
    pt = lambda i: (FP(i), TP(i))
    nxt = lambda a, b, l: and_(mine(a, l), mine(b, l), lt(a, b), not_(exists([m], and_(mine(m, l), lt(a, m), lt(m, b)))))
    first = lambda b, l: and_(mine(b, l), not_(exists([m], and_(mine(m, l), lt(m, b)))))
    last = lambda b, l: and_(mine(b, l), not_(exists([m], and_(mine(m, l), lt(b, m)))))
    spec = lambda l: add(A(l), sum_([b], first(b, l), step((PV(l, 0), PV(l, 1)), pt(b), l)), sum_([a, b], nxt(a, b, l), step(pt(a), pt(b), l)))
    l, f = fresh('I', 'l'), fresh('I', 'f')
    v = res[0].at([(l,)])
    c.ensure('area.shape', and_(const(res[0].ndim == 1), eq(res[0].axes[0].card(), L)))
    moved = or_(lt(ZERO, PV(l, 0)), lt(ZERO, PV(l, 1)), lt(ZERO, FP(f)))
    c.skolem('area.no-points', [l], and_(rng(l, L), not_(exists([a], mine(a, l)))), eq(v, spec(l)))
    c.skolem('area.from-last-point', [l, f], and_(rng(l, L), first(f, l), moved), eq(v, spec(l)))
    at = and_(rng(l, L), first(f, l), not_(moved))
    S1, S2 = sum_([b], first(b, l), step((PV(l, 0), PV(l, 1)), pt(b), l)), sum_([a, b], nxt(a, b, l), step(pt(a), pt(b), l))
    g = fresh('I', 'g')
    alone = forall([a], implies(mine(a, l), eq(a, f)))
    c.follows('area.flat', [*c.I.pc, at, eq(b, f)], eq(step((PV(l, 0), PV(l, 1)), pt(b), l), R0))
    flat = forall([b], implies(eq(b, f), eq(step((PV(l, 0), PV(l, 1)), pt(b), l), R0)))
    c.follows('area.first-step', [at, flat], eq(S1, R0), lemmas=[zero_sum([b], first(b, l), step((PV(l, 0), PV(l, 1)), pt(b), l))])
    c.follows('area.one-point', [at, alone], eq(S2, R0), lemmas=[zero_sum([a, b], nxt(a, b, l), step(pt(a), pt(b), l))])
    c.skolem('area.from-origin-alone', [l, f], and_(at, alone), eq(v, spec(l)), lemmas=[eq(S1, R0), eq(S2, R0)])
    two = le(const(2), count([a], mine(a, l)))
    c.follows('area.two-points', [at, mine(g, l), ne(g, f)], two, lemmas=[solve.split_lemma([a], mine(a, l), eq(a, f))])
    c.skolem('area.from-origin', [l, f], and_(at, mine(g, l), ne(g, f)), eq(v, spec(l)), lemmas=[eq(S1, R0), two])
    for k in range(2):
        v = res[1].at([(l,), (const(k),)])
        c.skolem(f'last-point[{k}]', [l, b], and_(rng(l, L), last(b, l)), eq(v, pt(b)[k]))
        c.skolem(f'last-point-kept[{k}]', [l], and_(rng(l, L), not_(exists([a], mine(a, l)))), eq(v, PV(l, k)))


# ------------------------------------------------------------------------------------------- over the tables
class Roc:
    """the stored curve: its points in tables, and the area as the tables are gone through"""

    def __init__(self, c, L):
        self.rd, self.L = Reader('roc', {'pd_label_id': 'i8', 'cumulative_fp': 'u8', 'cumulative_tp': 'u8'}), L
        c.require(le(ZERO, self.rd.nt))
        self.n = self.rd.nt

    def area(self, k, l):
        return app('area_so_far', (k, l), 'R')

    def last(self, k, l, j):
        return app('last_point', (k, l, j if isinstance(j, T) else const(j)), 'I')

    # contract of cls_gt_per_label: datums with the label, predictions of the label
    def n_gt(self, l):
        return app('n_gt', (l,), 'I')

    def n_pd(self, l):
        return app('n_pd', (l,), 'I')

    def __call__(self, I, it, st, env):
        f = [n for n, v in env.d.items() if isinstance(v, Arr) and v.ndim == 1 and v.store.dtype == 'f8']
        p = [n for n, v in env.d.items() if isinstance(v, Arr) and v.ndim == 2 and v.axes[1].const_n == 2 and v.store.dtype == 'u8' and n in loops.assigned(st.body)]
        if len(f) != 1 or len(p) != 1 or len(it.vars) != 1:
            return None
        self.names = f[0], p[0]
        self.arrs = [env.d[x] for x in self.names]
        return self

    def assume(self, I, env, k):
        I.table = k
        for nm, a, f in zip(self.names, self.arrs, (lambda r: self.area(k, r[0][0]), lambda r: self.last(k, r[0][0], r[1][0]))):
            I.heap_set(a.store, 'get', f)
            env.d[nm] = a

    def check(self, I, env, k, note):
        self.same(I, [env.d[x] for x in self.names], k, note)

    def same(self, I, arrs, k, note):
        l = fresh('I', 'l')
        a, p = arrs
        if not (isinstance(a, Arr) and isinstance(p, Arr)):
            raise Unsupported('state of the loop')
        I.obl('state', and_(const(a.ndim == 1 and p.ndim == 2), eq(a.axes[0].card(), self.L), eq(p.axes[0].card(), self.L), eq(p.axes[1].card(), const(2))), f'{note}: shapes')
        I.obl('state', implies(rng(l, self.L), eq(a.at([(l,)]), self.area(k, l))), f'{note}: area so far')
        for j in range(2):
            I.obl('state', implies(rng(l, self.L), eq(p.at([(l,), (const(j),)]), self.last(k, l, j))), f'{note}: last point')

    def owns(self, obj):
        return obj in [a.store for a in self.arrs]


def use_rocauc(I, b):
    """contract cls_rocauc: one more table"""
    R = I.roc
    k, L = I.table, R.L
    if k is None:
        raise Unsupported('outside of the loop over the tables')
    R.same(I, [b['rocauc'], b['prev']], k, 'precondition')
    a = b['array']
    if not isinstance(a, Arr) or a.ndim != 2:
        raise Unsupported('points')
    i, l = fresh('I', 'i'), fresh('I', 'l')
    I.obl('precondition', and_(eq(a.axes[0].card(), R.rd.rows(k)), eq(a.axes[1].card(), const(3))), 'points of the table')
    for j, n in enumerate(('pd_label_id', 'cumulative_fp', 'cumulative_tp')):
        I.obl('precondition', implies(rng(i, R.rd.rows(k)), eq(a.at([(i,), (const(j),)]), term(R.rd.cell(n, k, i), 'R'))), f'points of the table: {n}')
    I.obl('precondition', eq(ops.scal(b['n_labels']), L), 'labels')
    for x, f in ((b['gt_count_per_label'], R.n_gt), (b['pd_count_per_label'], R.n_pd)):
        I.obl('precondition', and_(const(x.ndim == 1), eq(x.axes[0].card(), L), implies(rng(l, L), eq(x.at([(l,)]), f(l)))), 'counts per label')
    k1 = add(k, ONE)
    I.heap_set(b['rocauc'].store, 'get', lambda r: R.area(k1, r[0][0]))
    I.heap_set(b['prev'].store, 'get', lambda r: R.last(k1, r[0][0], r[1][0]))
    return b['rocauc'], b['prev']


def use_gt_per_label(I, b):
    R = I.roc
    if b['reader'] is not R.main or any(b.get(k) is not None for k in ('datums', 'groundtruths', 'predictions')):
        raise Unsupported('another cache')
    I.obl('precondition', eq(ops.scal(b['number_of_labels']), R.L), 'labels')
    return new([RangeAx(R.L), RangeAx(2)], lambda r: ops.pick([R.n_gt(r[0][0]), R.n_pd(r[0][0])], r[1][0]), 'u8')


def use_unpack_roc(I, b):
    r = PyDict(dict(b))
    r.unpacked = True
    return r


@contract(CE + 'Evaluator.compute_rocauc', ['C10', 'C17', 'C22'], externals=TABLE_EXT,
          uses={CC + 'compute_rocauc': use_rocauc, CS + 'extract_groundtruth_count_per_label': use_gt_per_label, 'valor_lite.classification.utilities.unpack_rocauc': use_unpack_roc})
def cls_eval_rocauc(c):
    d, L, lab, names = cls_data(c, False)
    R = Roc(c, L)
    R.main = d.reader
    l, j = fresh('I', 'l'), fresh('I', 'j')
    # the fold of compute_rocauc over the tables, from an area of 0 at the origin
    c.require(forall([l, j], and_(eq(R.area(ZERO, l), R0), eq(R.last(ZERO, l, j), ZERO))))
    c.I.roc, c.I.table = R, None
    c.I.invariants = [R]
    ev = cls_evaluator(c, d, names)
    ev.attrs['_roc_curve_reader'] = R.rd
    res = c.run(ev)
    if not getattr(res, 'unpacked', False):
        raise Unsupported('metrics unpacked elsewhere')
    x = res.items
    c.ensure('labels', const(x['index_to_label'] is names), props=['C22'])
    c.ensure_array('area', x['rocauc'], [RangeAx(L)], lambda l: R.area(R.n, l[0]))
    c.ensure('mean', eq(ops.scal(x['mean_rocauc']), mean(L, lambda l: R.area(R.n, l))))
