"""Contract of rank_table: the rows of a table through the two ranking kernels (od_rank_pairs, od_boundaries) and back."""
from .ranked import *
from .od import COLS, row
from vc.table import Table, TField, Fn
from vc import solve

NUM = ['datum_id', 'gt_id', 'pd_id', 'gt_label_id', 'pd_label_id', 'iou', 'pd_score']


class Ranked(Table):
    """a table that can be sorted, taken from and extended"""

    def sort_by(self, I, by):
        """another order of the rows: a permutation, ordered by the keys"""
        keys = []
        for x in I.concrete_seq(by):
            k, o = I.concrete_seq(x) if not isinstance(x, tuple) else x
            if not self.has(k):
                raise PyRaise('KeyError')
            keys.append((k, {'ascending': 1, 'descending': -1}[o]))
        if not isinstance(self.axis, RangeAx):
            raise Unsupported('order of a selection')
        I.sorts += 1
        n, name = self.axis.card(), f'order{I.sorts}'
        sig = lambda r: app(name, (r,), 'I')
        r, s, w = (fresh('I', x) for x in 'rsw')

        def better(x, y):
            """x must come before y"""
            out = FALSE
            for k, d in reversed(keys):
                a, b = self.col(k, (x,)), self.col(k, (y,))
                out = or_(lt(a, b) if d > 0 else lt(b, a), and_(eq(a, b), out))
            return out
        I.pc += [forall([r], implies(row(r, n), row(sig(r), n))), forall([r, s], implies(and_(row(r, n), row(s, n), eq(sig(r), sig(s))), eq(r, s))),
                 forall([w], implies(row(w, n), and_(row(app(name + '_inv', (w,), 'I'), n), eq(sig(app(name + '_inv', (w,), 'I')), w)))),
                 forall([r, s], implies(and_(row(r, n), row(s, n), better(sig(s), sig(r))), lt(s, r)))]
        I.order = I.pc[-4:]
        return Ranked(self.axis, lambda n, r: self.col(n, (sig(r[0]),)), self.types, self.names)

    def take(self, I, idx):
        if not isinstance(idx, Arr) or idx.ndim != 1 or not isinstance(self.axis, RangeAx):
            raise Unsupported('take')
        g = idx.freeze()
        r = idx.axes[0].vars('r')
        claim(I, 'in-bounds', idx.axes[0].dom(r), row(g([r]), self.axis.card()), 'rows taken exist')
        return Ranked(idx.axes[0], lambda n, r: self.col(n, (g([r]),)), self.types, self.names)

    def append_column(self, I, field, values):
        name = field.name if isinstance(field, TField) else field
        if not isinstance(values, Arr) or values.ndim != 1 or not isinstance(name, str):
            raise Unsupported('append_column')
        if not (values.axes[0].same(self.axis) or I.axes_equal(values.axes[0], self.axis)):
            raise PyRaise('ArrowInvalid')
        I.obl('new-column', const(not self.has(name)), 'the column is not there yet')
        g, old = values.freeze(), self.col
        return Ranked(self.axis, lambda n, r: g([r]) if n == name else old(n, r), {**self.types, name: values.dtype}, list(self.names if self.names is not None else self.types) + [name])

    def sym_attr(self, I, a):
        if a in ('sort_by', 'take', 'append_column'):
            return Fn(getattr(self, a))
        return Table.sym_attr(self, I, a)


def columns(a):
    g = a.freeze()
    col = lambda k: lambda i: g([(i,), (const(k),)])
    f = {k: (lambda i, h=col(j): trunc(h(i)) if h(i).sort == 'R' else h(i)) for j, k in enumerate(COLS)}
    f['iou'], f['sc'] = col(5), col(6)
    return f


def ids(f, L):
    lab = lambda x, l: or_(and_(eq(x, const(-1)), eq(l, const(-1))), and_(le(ZERO, x), le(ZERO, l), lt(l, L)))
    return lambda i: and_(le(ZERO, f['D'](i)), lab(f['G'](i), f['GL'](i)), lab(f['P'](i), f['PL'](i)), le(R0, f['iou'](i)), le(f['iou'](i), R1), score_ok(f['P'](i), f['sc'](i)))


def candidates(f, n):
    """od_rank_pairs: of a prediction, the rows whose label matches, or all of its rows if none does"""
    j = fresh('I', 'j')
    return lambda x: and_(row(x, n), le(ZERO, f['P'](x)), or_(eq(f['GL'](x), f['PL'](x)), not_(exists([j], and_(row(j, n), le(ZERO, f['P'](j)), eq(f['P'](j), f['P'](x)), eq(f['GL'](j), f['PL'](j)))))))


def key_of(f, x, y):
    return and_(*[eq(f[k](x), f[k](y)) for k in ('D', 'P', 'PL')])


def use_rank_pairs(I, b):
    """contract od_rank_pairs"""
    a = b['sorted_pairs']
    if not isinstance(a, Arr) or a.ndim != 2 or a.axes[1].const_n != 7 or not isinstance(a.axes[0], RangeAx) or I.rank is not None:
        raise Unsupported('pairs')
    n, f = a.axes[0].card(), columns(a)
    i, j, r, s, w = (fresh('I', x) for x in 'ijrsw')
    for k in range(5):
        c = a.at([(i,), (const(k),)])
        claim(I, 'precondition', row(i, n), eq(c, term(trunc(c), 'R')) if c.sort == 'R' else TRUE, 'whole numbers')
    claim(I, 'precondition', row(i, n), ids(f, I.L)(i), 'rows of a detailed cache')
    m = var("ranked_rows", "I")
    I.pc.append(le(ZERO, m))
    cand = candidates(f, n)
    first = lambda x: and_(cand(x), not_(exists([i], and_(lt(i, x), cand(i), key_of(f, i, x)))))
    at = lambda r: app('ranked_index', (r,), 'I')
    hi = lambda x, y: or_(lt(f['sc'](at(y)), f['sc'](at(x))), and_(eq(f['sc'](at(y)), f['sc'](at(x))), lt(f['iou'](at(y)), f['iou'](at(x)))))
    I.ranking = len(I.pc)
    I.pc += [forall([r], implies(row(r, m), first(at(r)))), forall([r, s], implies(and_(row(r, m), row(s, m), eq(at(r), at(s))), eq(r, s))),
             forall([w], implies(first(w), exists([r], and_(row(r, m), eq(at(r), w))))),
             forall([r, s], implies(and_(row(r, m), row(s, m), hi(r, s)), lt(r, s)))]
    I.ranking = I.pc[I.ranking:]
    ax = RangeAx(m)
    g = a.freeze()
    I.rank = at, m, new([ax, a.axes[1]], lambda q: g([(at(q[0][0]),), q[1]]), 'f8'), f
    return I.rank[2], new([ax], lambda q: at(q[0][0]), 'i8')


def use_boundaries(I, b):
    """contract od_boundaries"""
    a = next(iter(b.values()))
    if not isinstance(a, Arr) or a.ndim != 2 or a.axes[1].const_n != 7 or not isinstance(a.axes[0], RangeAx):
        raise Unsupported('pairs')
    n, f = a.axes[0].card(), columns(a)
    i, j, k, t = fresh('I', 'i'), fresh('I', 'j'), fresh('I', 'k'), fresh('R', 't')
    claim(I, 'precondition', row(i, n), ids(f, I.L)(i), 'ranked rows')
    V = lambda x: app('boundary', (x,), 'R')
    rel, same = relevant(f, n)
    I.pc += [forall([k, t], implies(and_(rel(k), lt(R0, t), le(t, R1), le(t, f['iou'](k))), eq(lt(V(k), t), not_(exists([j], and_(lt(j, k), rel(j), same(k, j), le(t, f['iou'](j)))))))),
             forall([k], implies(row(k, n), or_(eq(V(k), term(2.0)), and_(le(R0, V(k)), le(V(k), R1))))), forall([k], implies(and_(row(k, n), not_(rel(k))), eq(V(k), term(2.0))))]
    return new([a.axes[0]], lambda q: V(q[0][0]), 'f8')


def relevant(f, n):
    same = lambda x, y: and_(eq(f['D'](x), f['D'](y)), eq(f['G'](x), f['G'](y)), eq(f['GL'](x), f['GL'](y)), eq(f['GL'](y), f['PL'](y)))
    return (lambda x: and_(row(x, n), le(ZERO, f['G'](x)), eq(f['GL'](x), f['PL'](x)))), same


def to_array(I, a, type=None):
    return a


@contract(OC + 'rank_table', ['C02', 'C04'], uses={OC + 'rank_pairs': use_rank_pairs, OC + 'calculate_ranking_boundaries': use_boundaries},
          externals={'pyarrow.array': to_array, 'pyarrow.field': lambda I, n, t: TField(n, 'f8'), 'pyarrow.float64': lambda I: 'f8'})
def od_rank_table(c):
    n, L = c.size('n'), c.size('L', 1)
    types = {**{k: 'i8' for k in NUM[:5]}, 'iou': 'f8', 'pd_score': 'f8', 'datum_uid': 'U'}
    cell = lambda k, i: app(k + '!', (i,), {'i8': 'I', 'f8': 'R', 'U': 'S'}[types[k]])
    tbl = Ranked(RangeAx(n), lambda k, r: cell(k, r[0]), types)
    f = {a: (lambda i, k=k: cell(k, i)) for a, k in zip(COLS + ['iou', 'sc'], NUM)}
    i, j = fresh('I', 'i'), fresh('I', 'j')
    c.require(forall([i], implies(row(i, n), ids(f, L)(i))))
    # a prediction has one score for a label
    c.require(forall([i, j], implies(and_(row(i, n), row(j, n), le(ZERO, f['P'](i)), key_of(f, i, j)), eq(f['sc'](i), f['sc'](j)))))
    c.I.L, c.I.rank, c.I.sorts = L, None, 0
    out = c.run(tbl)
    if not isinstance(out, Ranked) or c.I.rank is None:
        raise Unsupported('table ranked elsewhere')
    ax = out.axis
    r, s, w, x = (fresh('I', y) for y in 'rswx')
    o = lambda k, r: out.col(k, (r,))
    # the row of the table an output row comes from
    W = lambda r: app('source_row', (r,), 'I')
    m = ax.card()
    c.ensure('columns', const(sorted(out.names or types) == sorted([*types, 'iou_prev'])))
    at = c.I.rank[0]
    src = None
    # named through the order of the first sort
    if c.I.sorts != 1:
        raise Unsupported('sorted more than once')
    c.I.axiom(eq(W(r), app('order1', (at(r),), 'I')), ['source_row'])
    for k in types:
        c.skolem(f'cells[{k}]', [r], row(r, m), eq(o(k, r), cell(k, W(r))))
    cand = candidates(f, n)
    c.skolem('rows', [r], row(r, m), row(W(r), n))
    g = c.I.rank[3]
    best = lambda w: and_(cand(w), not_(exists([x], and_(cand(x), key_of(f, x, w), lt(f['iou'](w), f['iou'](x))))))
    # candidates of the table are those of the sorted rows
    sg = lambda r: app('order1', (r,), 'I')
    cs = candidates(g, n)
    into, one, onto, ordered = c.I.order
    inv = lambda w: app('order1_inv', (w,), 'I')
    c.follows('candidates-kept', [into, onto, row(r, n), cs(r)], cand(sg(r)))
    c.follows('candidates-of-the-table', [into, onto, row(w, n), cand(w)], cs(inv(w)), lemmas=[eq(sg(inv(w)), w)])
    kept = [forall([r], implies(and_(row(r, n), cs(r)), cand(sg(r)))), forall([w], implies(cand(w), and_(row(inv(w), n), cs(inv(w)), eq(sg(inv(w)), w))))]
    src = eq(W(r), sg(at(r)))
    first, distinct_, complete, _ = c.I.ranking
    c.skolem('candidate', [r], row(r, m), cand(W(r)), lemmas=kept)
    # an earlier candidate of the same prediction would have been chosen; a better one is earlier
    named = lambda a, *vs: [app(a, tuple(v for v in vs), 'I')]
    score1 = c.pre[-1]
    z = inv(x)
    is_first = and_(cs(at(r)), not_(exists([i], and_(lt(i, at(r)), cs(i), key_of(g, i, at(r))))))
    c.follows('chosen-first', [first, row(r, m)], is_first)
    c.follows('best-of-its-prediction', [row(r, m), cand(x), key_of(f, x, W(r)), kept[1], is_first, src, ordered, score1, into], le(f['iou'](x), f['iou'](W(r))),
              lemmas=[or_(not_(lt(z, at(r))), not_(cs(z)), not_(key_of(g, z, at(r)))), eq(sg(z), x)])
    c.skolem('one-row-each', [r, s], and_(row(r, m), row(s, m), key_of(f, W(r), W(s))), eq(r, s), lemmas=kept)
    q = fresh('I', 'q')
    mine = lambda x: and_(cs(x), key_of(f, sg(x), w))
    lead = and_(mine(q), not_(exists([i], and_(lt(i, q), mine(i)))))
    c.follows('every-prediction.some', [cand(w), kept[1]], mine(inv(w)))
    c.follows('every-prediction.leads', [lead], and_(cs(q), not_(exists([i], and_(lt(i, q), cs(i), key_of(g, i, q))))))
    c.follows('every-prediction', [mine(inv(w)), complete, forall([q], implies(lead, and_(cs(q), not_(exists([i], and_(lt(i, q), cs(i), key_of(g, i, q))))))), forall([r], src)],
              exists([r], and_(row(r, m), key_of(f, W(r), w))), lemmas=[solve.least(mine)])
    c.skolem('by-score', [r, s], and_(row(r, m), row(s, m), lt(r, s)), le(o('pd_score', s), o('pd_score', r)))
    h = {a: (lambda i, k=k: o(k, i)) for a, k in zip(COLS + ['iou', 'sc'], NUM)}
    rel, same = relevant(h, m)
    t = fresh('R', 't')
    reach = lambda r: implies(and_(lt(R0, t), le(t, R1), rel(r), le(t, h['iou'](r))), eq(lt(o('iou_prev', r), t), not_(exists([s], and_(lt(s, r), rel(s), same(r, s), le(t, h['iou'](s)))))))
    c.skolem('first-to-reach', [r, t], TRUE, reach(r))
    # hence a ground truth is claimed by one row at every threshold; over any columns
    hh = {a: (lambda i, a=a: app('col_' + a, (i,), h[a](i).sort)) for a in h}
    pv = lambda i: app('col_prev', (i,), 'R')
    rel, same = relevant(hh, m)
    claims = lambda r: and_(rel(r), le(t, hh['iou'](r)), lt(pv(r), t))
    q = fresh('I', 'q')
    reach = lambda r: implies(and_(lt(R0, t), le(t, R1), rel(r), le(t, hh['iou'](r))), eq(lt(pv(r), t), not_(exists([q], and_(lt(q, r), rel(q), same(r, q), le(t, hh['iou'](q)))))))
    c.follows('claimed-once', [lt(R0, t), le(t, R1), claims(r), claims(s), same(r, s), reach(r), reach(s)], eq(r, s))
