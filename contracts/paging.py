"""Contract of the pagination of a cache: which rows are returned for every split into tables and every page."""
from .evaluator import *


class Pages:
    """positions of the datums of a (filtered) cache: tables in order, datums of a table by id"""

    def __init__(self, c, flt):
        self.d = d = Data(c, {'datum_id': 'i8'}, flt)
        c.require(d.aligned('datum_id'))
        a = fresh('I', 'a')
        c.require(forall([a], le(ZERO, d.reader.rows(a))))
        self.nt = d.reader.nt

    def has(self, t, k):
        """datum k has a row in table t"""
        r = fresh('I', 'r')
        return exists([r], and_(le(ZERO, r), lt(r, self.d.reader.rows(t)), self.d.sel(t, r), eq(self.d.cell('datum_id', t, r), k)))

    def before(self, t):
        u, k = fresh('I', 'u'), fresh('I', 'k')
        return count([u, k], and_(le(ZERO, u), lt(u, self.nt), lt(u, t), self.has(u, k)))

    def size(self, t):
        k = fresh('I', 'k')
        return count([k], self.has(t, k))

    def rank(self, t, r):
        """position, within its table, of the datum of row r"""
        k, x = fresh('I', 'k'), self.d.cell('datum_id', t, r)
        return count([k], and_(self.has(t, k), lt(k, x)))

    def total(self):
        t, r = fresh('I', 't'), fresh('I', 'r')
        return count([t, r], self.d.reader.has_row(t, r))

    def facts(self, c):
        """facts about the positions, proved from their definitions; returned in terms of the names before/size/rank (see cuts)"""
        t, u, x, k, v, r = (fresh('I', n) for n in 'tuxkvr')
        pre = list(c.I.pc)
        intab = lambda t: and_(le(ZERO, t), lt(t, self.nt))
        B, S, R = (lambda t: app('before', (t,), 'I')), (lambda t: app('size', (t,), 'I')), (lambda t, x: app('rank', (t, x), 'I'))
        self.B, self.R = B, R
        i = self.d.cell('datum_id', t, r)
        out = []

        def fact(name, vs, dom, goal, lemmas, same):
            c.follows(name, pre + [dom], goal, lemmas=lemmas)
            out.append(same)
        fact('rank-below-size', [t, r], self.d.row(t, r), and_(le(ZERO, self.rank(t, r)), lt(self.rank(t, r), self.size(t))), [solve.split_lemma([k], self.has(t, k), lt(k, i))],
             forall([t, r], implies(self.d.row(t, r), and_(le(ZERO, R(t, r)), lt(R(t, r), S(t))))))
        fact('tables-add-up', [t, u], and_(intab(t), intab(u), lt(t, u)), le(add(self.before(t), self.size(t)), self.before(u)),
             [solve.split_lemma([v, k], and_(intab(v), self.has(v, k), lt(v, u)), le(v, t)), solve.split_lemma([v, k], and_(intab(v), self.has(v, k), lt(v, u), le(v, t)), lt(v, t))],
             forall([t, u], implies(and_(intab(t), intab(u), lt(t, u)), le(add(B(t), S(t)), B(u)))))
        fact('fewer-datums-than-rows', [t], intab(t), le(add(self.before(t), self.size(t)), self.total()),
             [solve.split_lemma([v, k], and_(intab(v), self.has(v, k)), le(v, t)), solve.split_lemma([v, k], and_(intab(v), self.has(v, k), le(v, t)), lt(v, t)),
              solve.image_lemma([v], [r], self.d.row(v, r), self.d.cell('datum_id', v, r)), solve.split_lemma([v, r], self.d.reader.has_row(v, r), self.d.sel(v, r))],
             forall([t], implies(intab(t), le(add(B(t), S(t)), self.total()))))
        fact('sizes', [t], intab(t), and_(le(ZERO, self.before(t)), le(ZERO, self.size(t))), [], forall([t], implies(intab(t), and_(le(ZERO, B(t)), le(ZERO, S(t))))))
        return out

    def cuts(self, c):
        ok = lambda t: and_(le(ZERO, t), lt(t, self.nt))
        return dict(cuts=[solve.Cut('before', 'I', ok, self.before, 'I', ['count']), solve.Cut('size', 'I', ok, self.size, 'I', ['count']),
                          solve.Cut('rank', 'II', self.d.row, self.rank, 'I', ['count'])], cut_hyps=list(c.I.pc))


def returned(got, t, r):
    """row r of table t is in the result"""
    out = []
    for p in got.parts:
        if p[0] != 'seg' or len(p[1]) != 1:
            raise Unsupported('pages')
        m = {p[1][0]: t}
        for q in p[3]:
            for z in (q[2] if q[0] == 'if' else (q,)):
                if z[0] != 'one' or not isinstance(z[1], Table):
                    raise Unsupported('pages')
                out.append(and_(subst(p[2], m), subst(q[1], m) if q[0] == 'if' else TRUE, subst(z[1].axis.dom((r,)), m)))
    return or_(*out)


def page(c, flt, lim):
    g = Pages(c, flt)
    d = g.d
    offset = c.size('offset')
    limit = c.size('limit') if lim else None
    c0 = g.cuts(c)
    c.assert_opts = lambda kind, where: c0 if kind == 'index-in-bounds' else None
    facts = g.facts(c)
    got = c.run(d.reader, 'datum_id', modifier=d.expr, limit=limit, offset=offset)
    t, r = fresh('I', 't'), fresh('I', 'r')
    pos = add(g.B(t), g.R(t, r))
    want = and_(le(offset, pos), lt(pos, add(offset, limit)) if lim else TRUE)
    c.require(*facts)
    c.skolem('rows', [t, r], d.row(t, r), iff(returned(got, t, r), want), **c0)
    c.skolem('only-rows', [t, r], returned(got, t, r), d.row(t, r))


for _f in (False, True):
    for _l in (False, True):
        _g = (lambda f, l: lambda c: page(c, f, l))(_f, _l)
        _g.__name__ = 'page' + ('_limit' if _l else '') + ('_filtered' if _f else '')
        contract('valor_lite.cache.compute.paginate_index', ['C16', 'C18'] if _f else ['C16'], externals=TABLE_EXT, feas=.4)(_g)
