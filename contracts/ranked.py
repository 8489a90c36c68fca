"""Contract of the detection evaluator's precision/recall computation: counts and curves over all ranked tables.

The loop over the tables is verified with an invariant; compute_counts, compute_precision_recall_f1, compute_average_precision
and compute_average_recall are used through their own contracts (contracts/od.py), and so is the unpacking (od_unpack_pr)."""
from .evaluator import *
from .od import M as OC, EPS, R0, R1
from vc.arr import trunc
from vc.term import subterms

OU = 'valor_lite.object_detection.utilities.'
BILLION = const(10 ** 9)
RANKED_TYPES = {**OD_TYPES, 'iou_prev': 'f8'}


def claim(I, kind, dom, goal, note, lemmas=(), only=None):
    """assert the goal for arbitrary values of its free variables in dom (only: from these hypotheses and the lemmas alone)"""
    pc = list(I.pc)
    I.pc[:] = [*(pc if only is None else only), dom, *lemmas]
    I.obl(kind, goal, note)
    I.pc[:] = pc


def injective_image(vs, p, x):
    """an injective image of a finite set is as large as the set"""
    k = fresh(x.sort, 'k')
    a, b = {v: fresh(v.sort, 'a') for v in vs}, {v: fresh(v.sort, 'b') for v in vs}
    bad = and_(subst(p, a), subst(p, b), eq(subst(x, a), subst(x, b)), or_(*[ne(a[v], b[v]) for v in vs]))
    return or_(eq(count(list(vs), p), count([k], exists(list(vs), and_(p, eq(x, k))))), bad)


def subset(v, p, q):
    """a part of a finite set is not larger than the set"""
    w = fresh(v.sort, 'w')
    return or_(le(count([v], p), count([v], q)), and_(subst(p, {v: w}), not_(subst(q, {v: w}))))


# names for the two expressions that turn counts into a point of the curve: a / b, and the bin of recall a / b; nothing here depends on more than the names
quotient = lambda a, b: app('quotient', (a, b), 'R')
percent = lambda a, b: app('percent', (a, b), 'I')


class Ranking:
    """the ranked rows (u: table, q: row) and what the metrics are made of"""

    def __init__(self, c, d, rk, L, nt, T, ns, S):
        self.d, self.rk, self.L, self.nt, self.T, self.ns, self.S = d, rk, L, nt, T, ns, S
        x = lambda n: lambda u, q: rk.cell(n, u, q)
        self.D, self.G, self.P, self.GL, self.PL, self.iou, self.sc, self.prev = (x(n) for n in ('datum_id', 'gt_id', 'pd_id', 'gt_label_id', 'pd_label_id', 'iou', 'pd_score', 'iou_prev'))

    def row(self, u, q):
        return self.rk.row(u, q)

    def cand(self, u, q, t):
        return and_(self.row(u, q), lt(EPS, self.sc(u, q)), le(ZERO, self.G(u, q)), eq(self.GL(u, q), self.PL(u, q)), le(self.T(t), self.iou(u, q)), lt(self.prev(u, q), self.T(t)))

    def pos(self, u, q, s):
        return and_(self.row(u, q), lt(EPS, self.sc(u, q)), le(self.S(s), self.sc(u, q)))

    def same(self, u, q, v, p):
        return and_(*[eq(f(u, q), f(v, p)) for f in (self.D, self.G, self.GL)])

    def ngt(self, l):
        return distinct(self.d, 'gt_id', lambda x: and_(le(ZERO, x('gt_id')), eq(x('gt_label_id'), l)))

    # ------------------------------------------------------------ totals over the tables before k
    def rows_before(self, k, cond):
        v, p = fresh('I', 'v'), fresh('I', 'p')
        return count([v, p], and_(lt(v, k), self.row(v, p), cond(v, p)))

    def tp(self, k, t, s, l):
        return self.rows_before(k, lambda v, p: and_(self.cand(v, p, t), self.pos(v, p, s), eq(self.PL(v, p), l)))

    def fp(self, k, t, s, l):
        return self.rows_before(k, lambda v, p: and_(self.pos(v, p, s), not_(self.cand(v, p, t)), eq(self.PL(v, p), l)))

    def total(self, k, l):
        return self.rows_before(k, lambda v, p: eq(self.PL(v, p), l))

    def hits(self, k, t, l):
        return self.rows_before(k, lambda v, p: and_(self.cand(v, p, t), eq(self.PL(v, p), l)))

    # ------------------------------------------------------------ position of a row in the ranking
    def earlier(self, u, q, cond):
        """rows with the same predicted label that rank before row q of table u: those of the tables before, and those before it in its table"""
        p = fresh('I', 'p')
        return add(self.rows_before(u, lambda v, p: and_(eq(self.PL(v, p), self.PL(u, q)), cond(v, p))),
                   count([p], and_(self.row(u, p), lt(p, q), eq(self.PL(u, p), self.PL(u, q)), cond(u, p))))

    def n_tp(self, u, q, t):
        return app('true_positives_so_far', (u, q, t), 'I')

    def rank(self, u, q):
        return app('rank', (u, q), 'I')

    def prec(self, u, q, t):
        return app('precision_at', (u, q, t), 'R')

    def bin(self, u, q, t):
        return app('recall_bin', (u, q, t), 'I')

    def define(self, I):
        u, q, t = fresh('I', 'u'), fresh('I', 'q'), fresh('I', 't')
        ok = and_(self.row(u, q), rng(t, self.nt))
        ax = lambda e, v, s: I.axiom(implies(ok, eq(e, v)), [s])
        ax(self.n_tp(u, q, t), ite(self.cand(u, q, t), add(ONE, self.earlier(u, q, lambda v, p: self.cand(v, p, t))), ZERO), 'true_positives_so_far')
        ax(self.rank(u, q), add(ONE, self.earlier(u, q, lambda v, p: TRUE)), 'rank')
        ax(self.prec(u, q, t), quotient(self.n_tp(u, q, t), self.rank(u, q)), 'precision_at')
        ax(self.bin(u, q, t), percent(self.n_tp(u, q, t), self.ngt(self.PL(u, q))), 'recall_bin')

    # ------------------------------------------------------------ schema instances
    def tp_bound(self, k, t, l):
        """the true positives of a label at a threshold are different ground truths of that label"""
        v, p, g = fresh('I', 'v'), fresh('I', 'p'), fresh('I', 'g')
        P = and_(lt(v, k), self.row(v, p), self.cand(v, p, t), eq(self.PL(v, p), l))
        u, r = fresh('I', 'u'), fresh('I', 'r')
        x = lambda n: self.d.cell(n, u, r)
        Q = exists([u, r], and_(self.d.row(u, r), le(ZERO, x('gt_id')), eq(x('gt_label_id'), l), eq(x('gt_id'), g)))
        return [injective_image([v, p], P, self.G(v, p)), subset(g, exists([v, p], and_(P, eq(self.G(v, p), g))), Q)]

    def split(self, k, cond):
        """rows of the tables before k+1: those before k and those of table k"""
        v, p = fresh('I', 'v'), fresh('I', 'p')
        return solve.split_lemma([v, p], and_(lt(v, add(k, ONE)), self.row(v, p), cond(v, p)), lt(v, k))


class Curve:
    """facts that determine the binned curve: every bin holds the largest value of the rows that fall in it, or 0"""

    def __init__(self, R, at):
        self.R, self.at = R, at

    def facts(self, k):
        R, (t, l, b, u, q) = self.R, [fresh('I', x) for x in 'tlbuq']
        dom = and_(rng(t, R.nt), rng(l, R.L), rng(b, const(101)))
        inb = and_(R.row(u, q), lt(u, k), eq(R.PL(u, q), l), eq(R.bin(u, q, t), b))
        out = []
        for c, val in ((0, lambda: R.prec(u, q, t)), (1, lambda: R.sc(u, q))):
            a = self.at(t, l, b, c)
            out += [('non-negative', [t, l, b], dom, le(R0, a)), ('dominates', [t, l, b, u, q], and_(dom, inb), le(val(), a)),
                    ('attained', [t, l, b], dom, or_(eq(a, R0), exists([u, q], and_(inb, eq(a, val())))))]
        return out


class Tables:
    """invariant of the loop over the tables"""

    def __init__(self, R):
        self.R, self.n = R, R.rk.reader.nt

    def __call__(self, I, it, st, env):
        find = lambda nd, ax, n: [v for v in env.d.values() if isinstance(v, Arr) and v.ndim == nd and v.axes[ax].const_n == n and all(m == ('a', i) for i, m in enumerate(v.smap))]
        got = [find(4, 2, 3), find(3, 2, 2), find(4, 2, 101)]
        if any(len(x) != 1 for x in got) or len(it.vars) != 1:
            return None
        self.counts, self.rc, self.pr = (x[0] for x in got)
        return self

    def curve(self, k):
        return lambda t, l, b, c: app('curve_so_far', (k, t, l, b, const(c)), 'R')

    def assume(self, I, env, k):
        R = self.R
        I.batch = None
        I.table = k
        pick = ops.pick
        I.heap_set(self.counts.store, 'get', lambda r: pick([R.tp(k, r[0][0], r[1][0], r[3][0]), R.fp(k, r[0][0], r[1][0], r[3][0]), ZERO], r[2][0]))
        I.heap_set(self.rc.store, 'get', lambda r: pick([R.total(k, r[1][0]), R.hits(k, r[0][0], r[1][0])], r[2][0]))
        I.heap_set(self.pr.store, 'get', lambda r: pick([self.curve(k)(r[0][0], r[1][0], r[2][0], c) for c in range(2)], r[3][0]))
        for nm, vs, dom, f in Curve(R, self.curve(k)).facts(k):
            I.pc.append(forall(vs, implies(dom, f)))
        if k is self.n:
            t, s, l = (fresh('I', x) for x in 'tsl')
            box = and_(rng(t, R.nt), rng(s, R.ns), rng(l, R.L))
            claim(I, 'lemma', box, le(R.tp(k, t, s, l), R.ngt(l)), 'true positives are ground truths', R.count_bounds(t, s, l))
            I.pc.append(forall([t, s, l], implies(box, le(R.tp(k, t, s, l), R.ngt(l)))))

    def check(self, I, env, k, note):
        R, (t, s, l) = self.R, [fresh('I', x) for x in 'tsl']
        k0 = k if is_c(k) else sub(k, ONE)
        box = and_(rng(t, R.nt), rng(s, R.ns), rng(l, R.L))
        ground = [h for h in I.pc if h not in I.ranks and not any(x.op == 'app' and str(x.args[0]).startswith('curve') for x in subterms(h))]
        cl = lambda goal, what, lem=(), hyps=(): claim(I, 'invariant', box, goal, f'{note}: {what}', lem if not is_c(k) else (), only=[*ground, *hyps])
        c = lambda j: self.counts.at([(t,), (s,), (const(j),), (l,)])
        cl(eq(c(0), R.tp(k, t, s, l)), 'true positives', [R.split(k0, lambda v, p: and_(R.cand(v, p, t), R.pos(v, p, s), eq(R.PL(v, p), l)))], I.unique)
        cl(eq(c(1), R.fp(k, t, s, l)), 'false positives', [R.split(k0, lambda v, p: and_(R.pos(v, p, s), not_(R.cand(v, p, t)), eq(R.PL(v, p), l)))], I.unique)
        cl(eq(c(2), ZERO), 'no false negatives yet')
        cl(eq(self.rc.at([(t,), (l,), (ZERO,)]), R.total(k, l)), 'predictions so far', [R.split(k0, lambda v, p: eq(R.PL(v, p), l))])
        cl(eq(self.rc.at([(t,), (l,), (ONE,)]), R.hits(k, t, l)), 'true positives so far', [R.split(k0, lambda v, p: and_(R.cand(v, p, t), eq(R.PL(v, p), l)))])
        # the precision and recall of the rows of this table, as computed with the running counts
        n = len(I.pc)
        if not is_c(k) and I.batch is not None:
            q, r = fresh('I', 'q'), fresh('I', 'r')
            ok = and_(R.row(k0, q), rng(t, R.nt))
            prec, bin_, ntp, nth, ntp_, nth_ = I.batch
            same = eq(nth(t, q), R.rank(k0, q)), eq(ntp(t, q), R.n_tp(k0, q, t))
            for f, g, h, nm in ((nth, nth_, R.rank(k0, q), 'rank of a row'), (ntp, ntp_, R.n_tp(k0, q, t), 'true positives up to a row')):
                claim(I, 'invariant', ok, eq(g(t, q), h), f'{note}: {nm}', only=ground)
                claim(I, 'invariant', ok, eq(f(t, q), h), f'{note}: {nm}, named', [eq(g(t, q), h), eq(f(t, q), g(t, q))], only=[])
            claim(I, 'invariant', ok, eq(prec(q, t), R.prec(k0, q, t)), f'{note}: precision at a row', same, only=[])
            claim(I, 'invariant', ok, eq(bin_(q, t), R.bin(k0, q, t)), f'{note}: recall at a row', same, only=[])
            I.pc.append(forall([q, t], implies(ok, and_(eq(prec(q, t), R.prec(k0, q, t)), eq(bin_(q, t), R.bin(k0, q, t))))))
        at = lambda t, l, b, c: self.pr.at([(t,), (l,), (b,), (const(c),)])
        for nm, vs, dom, f in Curve(R, at).facts(k):
            claim(I, 'invariant', dom, f, f'{note}: curve {nm}', only=[h for h in I.pc if h not in I.ranks])
        del I.pc[n:]

    def owns(self, obj):
        return obj in (self.counts.store, self.rc.store, self.pr.store)


# ------------------------------------------------------------------------------------------- callees
def use_counts(I, b):
    """contract od_counts"""
    a, T, S, ngt, L, rc, pr = (b[k] for k in ('ranked_pairs', 'iou_thresholds', 'score_thresholds', 'number_of_groundtruths_per_label', 'number_of_labels', 'running_counts', 'pr_curve'))
    L, ax = ops.scal(L), a.axes[0]
    if len(ax.sorts) != 1 or a.axes[1].const_n != 8 or I.batch is not None:
        raise Unsupported('pairs')
    g, th, sh, gh, rch, prh = a.freeze(), T.freeze(), S.freeze(), ngt.freeze(), rc.freeze(), pr.freeze()
    nt, ns = T.axes[0].card(), S.axes[0].card()
    for x, want in ((rc, [nt, L, const(2)]), (pr, [nt, L, const(101), const(2)]), (ngt, [L])):
        I.obl('precondition', and_(const(x.ndim == len(want)), *[eq(p.card(), q) for p, q in zip(x.axes, want)]), 'shape of the arrays')
        if any(m != ('a', i) for i, m in enumerate(x.smap)) or x.ndim != len(want):
            raise Unsupported('views')
    row = lambda i: ax.dom((i,))
    col = lambda k, i: g([(i,), (const(k),)])
    D, G, P, GL, PL = ((lambda i, k=k: trunc(col(k, i)) if col(k, i).sort == 'R' else col(k, i)) for k in range(5))
    iou, sc, prev = ((lambda i, k=k: col(k, i)) for k in (5, 6, 7))
    i, j = fresh('I', 'i'), fresh('I', 'j')
    lab = lambda x, l: or_(and_(eq(x, const(-1)), eq(l, const(-1))), and_(le(ZERO, x), le(ZERO, l), lt(l, L)))
    claim(I, 'precondition', row(i), and_(le(ZERO, D(i)), lab(G(i), GL(i)), lab(P(i), PL(i)), le(R0, iou(i)), le(iou(i), R1), score_ok(P(i), sc(i)), le(ZERO, P(i))), 'rows of predictions')
    claim(I, 'precondition', and_(row(i), row(j), lt(i, j)), le(sc(j), sc(i)), 'rows ordered by score')
    Tt, Ss, N = (lambda t: th([(t,)])), (lambda s: sh([(s,)])), (lambda l: gh([(l,)]))
    RC = lambda t, l, k: rch([(t,), (l,), (const(k),)])
    cand = lambda r, t: and_(row(r), lt(EPS, sc(r)), le(ZERO, G(r)), eq(GL(r), PL(r)), le(Tt(t), iou(r)), lt(prev(r), Tt(t)))
    pos = lambda r, s: and_(row(r), lt(EPS, sc(r)), le(Ss(s), sc(r)))
    t, l = fresh('I', 't'), fresh('I', 'l')
    R = I.ranking
    box, k1 = and_(rng(t, nt), rng(l, L)), add(I.table, ONE)
    ground = [h for h in I.pc if h not in I.ranks and not any(x.op == 'app' and str(x.args[0]).startswith('curve') for x in subterms(h))]
    so_far = add(RC(t, l, 1), count([i], and_(cand(i, t), eq(PL(i), l))))
    once = eq(so_far, R.hits(k1, t, l)), le(R.hits(k1, t, l), N(l))
    claim(I, 'precondition', box, once[0], 'a ground truth is claimed once: by the tables so far', [R.split(I.table, lambda v, p: and_(R.cand(v, p, t), eq(R.PL(v, p), l)))], only=ground)
    claim(I, 'precondition', box, once[1], 'a ground truth is claimed once: true positives', R.tp_bound(k1, t, l), only=ground + I.ranks)
    claim(I, 'precondition', box, le(so_far, N(l)), 'a ground truth is claimed once', once, only=ground)
    claim(I, 'precondition', and_(rng(t, nt), rng(l, L)), and_(le(ZERO, RC(t, l, 0)), le(ZERO, RC(t, l, 1)), le(ZERO, N(l))), 'running counts')
    same = lambda x, y: and_(eq(D(x), D(y)), eq(G(x), G(y)), eq(GL(x), GL(y)))
    tp = lambda r, t, s: and_(cand(r, t), pos(r, s), not_(exists([j], and_(lt(j, r), cand(j, t), pos(j, s), same(j, r)))))

    def cell(r):
        t, s, k, l = (x[0] for x in r)
        return ops.pick([count([i], and_(eq(PL(i), l), tp(i, t, s))), count([i], and_(eq(PL(i), l), pos(i, s), not_(tp(i, t, s)))), ZERO], k)
    res = new([T.axes[0], S.axes[0], RangeAx(3), RangeAx(L)], cell, 'u8')
    I.heap_set(rc.store, 'get', lambda r: add(rch(r), ops.pick([count([i], and_(row(i), eq(PL(i), r[1][0]))), count([i], and_(cand(i, r[0][0]), eq(PL(i), r[1][0])))], r[2][0])))
    # the curve: named functions of a row and a threshold
    o = uid()
    pn, bn, cn = f'precision{o}', f'bin{o}', f'curve{o}'
    prec, bin_, new_ = (lambda r, t: app(pn, (r, t), 'R')), (lambda r, t: app(bn, (r, t), 'I')), (lambda t, l, b, c: app(cn, (t, l, b, const(c)), 'R'))
    ntp_ = lambda t, r: ite(cand(r, t), add(RC(t, PL(r), 1), ONE, count([i], and_(lt(i, r), cand(i, t), eq(PL(i), PL(r))))), ZERO)
    nth_ = lambda t, r: add(RC(t, PL(r), 0), ONE, count([i], and_(lt(i, r), row(i), eq(PL(i), PL(r)))))
    ntp, nth = (lambda t, r: app(f'hits{o}', (t, r), 'I')), (lambda t, r: app(f'rank{o}', (t, r), 'I'))
    r, b_ = fresh('I', 'r'), fresh('I', 'b')
    for f, g_, nm in ((ntp, ntp_, f'hits{o}'), (nth, nth_, f'rank{o}')):
        I.axiom(implies(and_(row(r), rng(t, nt)), eq(f(t, r), g_(t, r))), [nm])
    I.axiom(implies(and_(row(r), rng(t, nt)), eq(prec(r, t), quotient(ntp(t, r), nth(t, r)))), [pn])
    I.axiom(implies(and_(row(r), rng(t, nt)), eq(bin_(r, t), percent(ntp(t, r), N(PL(r))))), [bn])
    dom = and_(rng(t, nt), rng(l, L), rng(b_, const(101)))
    inb = and_(row(r), eq(PL(r), l), eq(bin_(r, t), b_))
    for c, val in ((0, prec(r, t)), (1, sc(r))):
        now, old = new_(t, l, b_, c), prh([(t,), (l,), (b_,), (const(c),)])
        I.pc += [forall([t, l, b_], implies(dom, le(old, now))), forall([t, l, b_, r], implies(and_(dom, inb), le(val, now))),
                 forall([t, l, b_], implies(dom, or_(eq(now, old), exists([r], and_(inb, eq(now, val))))))]
    I.heap_set(pr.store, 'get', lambda q: ops.pick([new_(q[0][0], q[1][0], q[2][0], c) for c in range(2)], q[3][0]))
    I.batch = prec, bin_, ntp, nth, ntp_, nth_
    return res


def use_prf(I, b):
    """contract od_prf"""
    a, gt = b['counts'], b['number_of_groundtruths_per_label']
    g, n = a.freeze(), gt.freeze()
    nt, ns, three, L = (x.card() for x in a.axes)
    t, s, l = (fresh('I', x) for x in 'tsl')
    C = lambda t, s, k, l: g([(t,), (s,), (const(k),), (l,)])
    N = lambda l: n([(l,)])
    R = I.ranking
    claim(I, 'precondition', and_(rng(t, nt), rng(s, ns), rng(l, L)),
          and_(le(ZERO, C(t, s, 0, l)), le(ZERO, C(t, s, 1, l)), le(C(t, s, 0, l), N(l)), lt(add(C(t, s, 0, l), C(t, s, 1, l)), BILLION), lt(N(l), BILLION)), 'counts', R.count_bounds(t, s, l))
    ratio_ = lambda x, y: ite(lt(ZERO, y), div(x, y), R0)

    def at(r):
        t, s, k, l = (x[0] for x in r)
        tp, fp = C(t, s, 0, l), C(t, s, 1, l)
        return ops.pick([ratio_(tp, add(tp, fp)), ratio_(tp, N(l)), ratio_(term(mul(const(2), tp), 'R'), term(add(tp, fp, N(l)), 'R'))], k)
    return new(a.axes, at, 'f8')


def use_ap(I, b):
    """contract od_ap"""
    a = b['pr_curve']
    g = a.freeze()
    nt, L = a.axes[0].card(), a.axes[1].card()
    t, l, y, x = (fresh('I', q) for q in 'tlyx')
    dom = and_(rng(t, nt), rng(l, L), rng(y, const(101)))
    at = lambda t, l, y, c: g([(t,), (l,), (y,), (const(c),)])
    claim(I, 'precondition', dom, and_(le(R0, at(t, l, y, 0)), le(R0, at(t, l, y, 1))), 'curve is not negative')
    new_ = lambda t, l, y, c: app('curve', (t, l, y, const(c)), 'R')
    for c in range(2):
        I.pc += [forall([t, l, y, x], implies(and_(dom, le(y, x), lt(x, const(101))), le(at(t, l, x, c), new_(t, l, y, c)))),
                 forall([t, l, y], implies(dom, exists([x], and_(le(y, x), lt(x, const(101)), eq(new_(t, l, y, c), at(t, l, x, c))))))]
    AP = lambda t, l: div(sum_([y], rng(y, const(101)), new_(t, l, y, 0)), term(101.0))
    return (new([a.axes[0], a.axes[1]], lambda r: AP(r[0][0], r[1][0]), 'f8'), new([a.axes[0]], lambda r: div(sum_([l], rng(l, L), AP(r[0][0], l)), L), 'f8'),
            new(a.axes, lambda r: ops.pick([new_(r[0][0], r[1][0], r[2][0], c) for c in range(2)], r[3][0]), 'f8'))


def use_ar(I, b):
    """contract od_ar"""
    a = b['prec_rec_f1']
    g = a.freeze()
    nt, ns, _, L = (x.card() for x in a.axes)
    I.obl('precondition', and_(lt(ZERO, nt), lt(ZERO, L)), 'thresholds and labels')
    t, l = fresh('I', 't'), fresh('I', 'l')
    S = lambda s, l: div(sum_([t], rng(t, nt), g([(t,), (s,), (ONE,), (l,)])), nt)
    return new([a.axes[1], a.axes[3]], lambda r: S(r[0][0], r[1][0]), 'f8'), new([a.axes[1]], lambda r: div(sum_([l], rng(l, L), S(r[0][0], l)), L), 'f8')


def use_gt_count(I, b):
    """contract od_gt_per_label"""
    R = I.ranking
    if b['reader'] is not R.d.reader or b['datums'] is not R.d.expr:
        raise Unsupported('another cache')
    return new([RangeAx(ops.scal(b['number_of_labels']))], lambda r: R.ngt(r[0][0]), 'u8')


def use_unpack(I, b):
    r = PyDict({k: v for k, v in b.items()})
    r.unpacked = True
    return r


@both(OE + 'Evaluator.compute_precision_recall', ['C02', 'C03', 'C04', 'C17', 'C22'],
      uses={OC + 'compute_counts': use_counts, OC + 'compute_precision_recall_f1': use_prf, OC + 'compute_average_precision': use_ap, OC + 'compute_average_recall': use_ar,
            OS + 'extract_groundtruth_count_per_label': use_gt_count, OU + 'unpack_precision_recall_into_metric_lists': use_unpack})
def od_eval_pr(c, flt):
    d, L, lab, names = od_data(c, flt)
    rk = Data(c, RANKED_TYPES, flt, 'ranked')
    nt, T, its = thresholds(c, 'iou')
    ns, S, sts = thresholds(c, 'score')
    R = Ranking(c, d, rk, L, nt, T, ns, S)
    t = fresh('I', 't')
    c.require(forall([t], implies(rng(t, nt), and_(lt(R0, T(t)), le(T(t), R1)))))
    u, q, v, p = (fresh('I', x) for x in 'uqvp')
    none = const(-1)
    has = rk.reader.has_row
    # what the ranking guarantees: rows of predictions by descending score; a ground truth is claimed by one row at every threshold
    c.require(rk.all(lambda x: and_(le(ZERO, x('datum_id')), le(ZERO, x('pd_id')), rng(x('pd_label_id'), L), le(R0, x('pd_score')), le(x('pd_score'), R1), le(R0, x('iou')), le(x('iou'), R1),
                                    or_(and_(le(ZERO, x('gt_id')), rng(x('gt_label_id'), L)), and_(eq(x('gt_id'), none), eq(x('gt_label_id'), none))))))
    two = and_(has(u, q), has(v, p))
    c.require(forall([u, q, v, p], implies(and_(two, or_(lt(u, v), and_(eq(u, v), lt(q, p)))), le(R.sc(v, p), R.sc(u, q)))))
    c.require(forall([u, q, v, p, t], implies(and_(two, rng(t, nt), R.cand(u, q, t), R.cand(v, p, t), R.same(u, q, v, p)), and_(eq(u, v), eq(q, p)))))
    c.I.unique = [c.I.pc[-1]]
    c.require(forall([u, q, v, p], implies(and_(two, le(ZERO, R.G(u, q)), eq(R.G(u, q), R.G(v, p))), and_(eq(R.D(u, q), R.D(v, p)), eq(R.GL(u, q), R.GL(v, p))))))
    # its ground truths are those of the detailed cache
    c.require(forall([u, q], implies(and_(R.row(u, q), le(ZERO, R.G(u, q))), exists([v, p], and_(d.row(v, p), eq(d.cell('gt_id', v, p), R.G(u, q)), eq(d.cell('gt_label_id', v, p), R.GL(u, q)))))))
    c.I.ranks = list(c.I.pc)
    R.define(c.I)
    # fewer than a billion annotations
    l = fresh('I', 'l')
    K = rk.reader.nt
    n_pd, n_gt = (lambda l: app('n_pd', (l,), 'I')), (lambda l: app('n_gt', (l,), 'I'))
    c.I.axiom(implies(rng(l, L), and_(eq(n_pd(l), R.total(K, l)), lt(n_pd(l), BILLION))), ['n_pd'])
    c.I.axiom(implies(rng(l, L), and_(eq(n_gt(l), R.ngt(l)), lt(n_gt(l), BILLION))), ['n_gt'])

    def count_bounds(t, s, l):
        v, p = fresh('I', 'v'), fresh('I', 'p')
        P = and_(lt(v, K), R.row(v, p), eq(R.PL(v, p), l))
        cd = and_(R.cand(v, p, t))
        return [solve.split_lemma([v, p], P, R.pos(v, p, s)), solve.split_lemma([v, p], and_(P, R.pos(v, p, s)), cd), eq(n_pd(l), n_pd(l)), le(ZERO, n_pd(l)), lt(n_gt(l), BILLION),
                solve.split_lemma([v, p], and_(P, cd), R.pos(v, p, s)), *R.tp_bound(K, t, l)]
    R.count_bounds = count_bounds
    c.I.ranking, c.I.batch, c.I.table = R, None, None
    c.I.invariants = [Tables(R)]
    res = c.run(od_evaluator(c, d, names, rk.reader), iou_thresholds=its, score_thresholds=sts, datums=d.expr)
    if not getattr(res, 'unpacked', False):
        raise Unsupported('metrics unpacked elsewhere')
    x = res.items
    c.ensure('thresholds', const(x['iou_thresholds'] is its and x['score_thresholds'] is sts and x['index_to_label'] is names), props=['C22'])
    axes = [RangeAx(nt), RangeAx(ns), RangeAx(3), RangeAx(L)]
    tot = lambda t, s, l: (R.tp(K, t, s, l), R.fp(K, t, s, l), R.ngt(l))
    ratio_ = lambda a, b: ite(lt(ZERO, b), div(a, b), R0)

    def counts(t, s, k, l):
        tp, fp, n = tot(t[0], s[0], l[0])
        return (tp, fp, sub(n, tp))[k[0].args[0]]

    def prf(t, s, k, l):
        tp, fp, n = tot(t[0], s[0], l[0])
        return (ratio_(tp, add(tp, fp)), ratio_(tp, n), ratio_(term(mul(const(2), tp), 'R'), term(add(tp, fp, n), 'R')))[k[0].args[0]]
    c.ensure_array('counts', x['counts'], axes, counts, props=['C02', 'C17'] + (['C18'] if flt else []))
    c.ensure_array('precision-recall-f1', x['precision_recall_f1'], axes, prf, props=['C03'] + (['C18'] if flt else []))
    rec = lambda t, s, l: ratio_(tot(t, s, l)[0], tot(t, s, l)[2])
    avg = lambda s, l: mean(nt, lambda t: rec(t, s, l))
    c.ensure_array('average-recall', x['average_recall'], [RangeAx(ns), RangeAx(L)], lambda s, l: avg(s[0], l[0]), props=['C03'])
    c.ensure_array('mean-average-recall', x['mean_average_recall'], [RangeAx(ns)], lambda s: mean(L, lambda l: avg(s[0], l)), props=['C03'])
    cv = x['pr_curve']
    c.ensure('curve.shape', and_(const(isinstance(cv, Arr) and cv.ndim == 4), *[eq(a.card(), b) for a, b in zip(cv.axes, (nt, L, const(101), const(2)))]), props=['C04'])
    t, l, b = (fresh('I', y) for y in 'tlb')
    dom = and_(rng(t, nt), rng(l, L), rng(b, const(101)))
    inb = and_(R.row(u, q), eq(R.PL(u, q), l), le(b, R.bin(u, q, t)))
    pc4 = ['C04'] + (['C18'] if flt else [])
    for k, nm, val in ((0, 'precision', R.prec(u, q, t)), (1, 'score', R.sc(u, q))):
        at = cv.at([(t,), (l,), (b,), (const(k),)])
        c.follows(f'curve-{nm}.dominates', [*(h for h in c.I.pc if h not in c.I.ranks), dom, inb, lt(R.bin(u, q, t), const(101))], le(val, at), props=pc4)
        c.skolem(f'curve-{nm}.attained', [t, l, b], dom, or_(eq(at, R0), exists([u, q], and_(inb, eq(at, val)))), props=pc4)
    ap = x['average_precision']
    AP = lambda t, l: mean(const(101), lambda b: cv.at([(t,), (l,), (b,), (ZERO,)]))
    c.ensure_array('average-precision', ap, [RangeAx(nt), RangeAx(L)], lambda t, l: AP(t[0], l[0]), props=pc4)
    c.ensure_array('mean-average-precision', x['mean_average_precision'], [RangeAx(nt)], lambda t: mean(L, lambda l: AP(t[0], l)), props=pc4)
