"""Contracts of the loaders: what is written to the cache for the data added."""
from .metrics import *
from .evaluator import *
from vc.table import *

OL = 'valor_lite.object_detection.loader.'
OA = 'valor_lite.object_detection.annotation.'
EPS = 1e-9


class RowSink:
    """a cache writer: the lists of rows written to it (contracts of the writers, contracts/cache.py)"""

    def __init__(self):
        self.log = PyList()

    def map_terms(self, f):
        return self

    def sym_attr(self, I, a):
        if a == 'write_rows':
            return Fn(lambda I, rows: calls.call_method(I, self.log, 'append', [rows], {}))
        raise Unsupported(f'writer.{a}')


def sym_list(n, elem, name='k'):
    k = fresh('I', name)
    ASC.add(k)
    return PyList([('seg', (k,), rng(k, n), (('one', elem(k)),))])


def leaves(parts, vs=(), dom=TRUE):
    """elements of a nested symbolic list: (variables, condition, element)"""
    for p in parts:
        if p[0] == 'one':
            yield vs, dom, p[1]
        elif p[0] == 'seg':
            yield from leaves(p[3], vs + tuple(p[1]), and_(dom, p[2]))
        elif p[0] == 'if':
            yield from leaves(p[2], vs, and_(dom, p[1]))
        else:
            raise Unsupported('list of rows')


def rows_written(log):
    out = []
    for vs, dom, lst in leaves(log.parts):
        if not isinstance(lst, PyList):
            raise Unsupported('rows')
        out += [(a, b, d) for a, b, d in leaves(lst.parts, vs, dom)]
    for a, b, d in out:
        if not isinstance(d, PyDict) or d.updates:
            raise Unsupported('row')
    return out


def inst(c, qual, **attrs):
    o = Inst(c.func(qual))
    o.attrs = HDict(attrs)
    return o


LABEL = lambda s: app('label_index', (s,), 'I')
OD_FIELDS = list(OD_TYPES)


def od_add(c, with_meta):
    N = c.size('N')
    S = lambda f, *a: app(f, a, 'S')
    Z = lambda f, *a: app(f, a, 'I')
    ng, np_, nl = (lambda k: Z('n_gts', k)), (lambda k: Z('n_pds', k)), (lambda k, p: Z('n_labels', k, p))
    x, y = fresh('I', 'x'), fresh('I', 'y')
    c.require(forall([x], and_(le(ZERO, ng(x)), le(ZERO, np_(x)))), forall([x, y], le(ZERO, nl(x, y))))

    def meta(f, *a):
        """metadata with a field of its own and fields named like the built-in ones"""
        return PyDict({**{n: S('hostile_' + f + n, *a) for n in OD_FIELDS}, f: S('meta_' + f, *a)}) if with_meta else None

    def gt(k, g):
        return inst(c, OA + 'BoundingBox', uid=S('g_uid', k, g), labels=PyList.of([S('g_label', k, g)]), scores=PyList(), metadata=meta('gm', k, g))

    def pd(k, p):
        return inst(c, OA + 'BoundingBox', uid=S('p_uid', k, p), labels=sym_list(nl(k, p), lambda l: S('p_label', k, p, l), 'l'),
                    scores=sym_list(nl(k, p), lambda l: app('p_score', (k, p, l), 'R'), 'l'), metadata=meta('pm', k, p))

    def det(k):
        return inst(c, OA + 'Detection', uid=S('d_uid', k), groundtruths=sym_list(ng(k), lambda g: gt(k, g), 'g'), predictions=sym_list(np_(k), lambda p: pd(k, p), 'p'), metadata=meta('dm', k))
    iou = lambda k, p, g: app('iou', (k, p, g), 'R')
    ious = lambda k: new([RangeAx(np_(k)), RangeAx(ng(k))], lambda r: iou(k, r[0][0], r[1][0]), 'f8')
    sink = RowSink()
    D0, G0, P0 = var('D0', 'I'), var('G0', 'I'), var('P0', 'I')
    o = inst(c, OL + 'Loader', _detailed_writer=sink, _datum_count=D0, _groundtruth_count=G0, _prediction_count=P0, _labels=Opaque('labels'))
    c.require(le(ZERO, D0), le(ZERO, G0), le(ZERO, P0))
    c.run(o, sym_list(N, det), sym_list(N, ious), False)
    # ids: the annotations added before come first
    before = lambda n: lambda k: sum_([y], and_(rng(y, N), lt(y, k)), ite(le(ZERO, n(y)), n(y), ZERO))
    gid = lambda k, g: add(G0, before(ng)(k), g)
    pid = lambda k, p: add(P0, before(np_)(k), p)
    c.ensure('datum-count', eq(ops.scal(o.attrs['_datum_count']), add(D0, N)))
    c.ensure('groundtruth-count', eq(ops.scal(o.attrs['_groundtruth_count']), add(G0, before(ng)(N))))
    c.ensure('prediction-count', eq(ops.scal(o.attrs['_prediction_count']), add(P0, before(np_)(N))))
    alone_g = lambda k, g: forall([y], implies(rng(y, np_(k)), lt(iou(k, y, g), term(EPS))))
    alone_p = lambda k, p: forall([y], implies(rng(y, ng(k)), lt(iou(k, p, y), term(EPS))))
    rows = rows_written(sink.log)
    kinds = {'gt': [], 'pd': [], 'pair': []}
    for i, (vs, dom, d) in enumerate(rows):
        it = d.items
        missing = [n for n in OD_FIELDS if n not in it]
        if missing:
            c.ensure(f'fields[{i}]', FALSE)
            continue
        kind = 'pd' if it['gt_uid'] is None else 'gt' if it['pd_uid'] is None else 'pair'
        kinds[kind].append((vs, dom, it))
        t = lambda n: ops.scal(it[n])
        k = sub(t('datum_id'), D0)
        g, p, l = sub(t('gt_id'), add(G0, before(ng)(k))), sub(t('pd_id'), add(P0, before(np_)(k))), fresh('I', 'l')
        has_g = and_(rng(g, ng(k)), eq(t('gt_uid'), S('g_uid', k, g)), eq(t('gt_label'), S('g_label', k, g)), eq(t('gt_label_id'), LABEL(S('g_label', k, g)))) if kind != 'pd' else \
            and_(eq(t('gt_id'), const(-1)), eq(t('gt_label_id'), const(-1)), const(it['gt_label'] is None))
        has_p = and_(rng(p, np_(k)), eq(t('pd_uid'), S('p_uid', k, p)),
                     exists([l], and_(rng(l, nl(k, p)), eq(t('pd_label'), S('p_label', k, p, l)), eq(t('pd_label_id'), LABEL(S('p_label', k, p, l))), eq(t('pd_score'), app('p_score', (k, p, l), 'R'))))) if kind != 'gt' else \
            and_(eq(t('pd_id'), const(-1)), eq(t('pd_label_id'), const(-1)), const(it['pd_label'] is None), eq(term(t('pd_score'), 'R'), term(-1.0)))
        over = {'gt': lambda: and_(alone_g(k, g), eq(t('iou'), term(0.0))), 'pd': lambda: and_(alone_p(k, p), eq(t('iou'), term(0.0))), 'pair': lambda: and_(eq(t('iou'), iou(k, p, g)), le(term(EPS), t('iou')))}[kind]()
        c.skolem(f'row-{kind}.datum', list(vs), dom, and_(rng(k, N), eq(t('datum_uid'), S('d_uid', k))))
        c.skolem(f'row-{kind}.gt', list(vs), dom, has_g)
        c.skolem(f'row-{kind}.pd', list(vs), dom, has_p)
        c.skolem(f'row-{kind}.overlap', list(vs), dom, over)
        if with_meta:
            own = [eq(t('dm'), S('meta_dm', k))] if 'dm' in it else [FALSE]
            own += ([eq(t('gm'), S('meta_gm', k, g))] if 'gm' in it else [FALSE]) if kind != 'pd' else []
            own += ([eq(t('pm'), S('meta_pm', k, p))] if 'pm' in it else [FALSE]) if kind != 'gt' else []
            c.skolem(f'row-{kind}.metadata', list(vs), dom, and_(*own))
    # every annotation is represented
    k, g, p, l = (fresh('I', x) for x in 'kgpl')

    def some(kind, *conds):
        out = []
        for vs, dom, it in kinds[kind]:
            t = lambda n: ops.scal(it[n])
            m = {v: fresh(v.sort, 'w') for v in vs}
            out.append(exists(list(m.values()), subst(and_(dom, *[eq(t(n), v) for n, v in conds]), m)))
        return or_(*out)
    lab = [('pd_label', S('p_label', k, p, l)), ('pd_score', app('p_score', (k, p, l), 'R'))]
    c.skolem('all.gts', [k, g], and_(rng(k, N), rng(g, ng(k)), alone_g(k, g)), some('gt', ('datum_id', add(D0, k)), ('gt_id', gid(k, g))))
    c.skolem('all.pds', [k, p, l], and_(rng(k, N), rng(p, np_(k)), rng(l, nl(k, p)), alone_p(k, p)), some('pd', ('datum_id', add(D0, k)), ('pd_id', pid(k, p)), *lab))
    c.skolem('all.pairs', [k, g, p, l], and_(rng(k, N), rng(p, np_(k)), rng(g, ng(k)), rng(l, nl(k, p)), le(term(EPS), iou(k, p, g))),
             some('pair', ('datum_id', add(D0, k)), ('gt_id', gid(k, g)), ('pd_id', pid(k, p)), *lab))


for nm in ('', '_metadata'):
    f = (lambda m: lambda c: od_add(c, m))(bool(nm))
    f.__name__ = 'od_add_data' + nm
    contract(OL + 'Loader._add_data', ['C07'], externals={**TABLE_EXT, 'tqdm.tqdm': lambda I, x, disable=None: x}, uses={OL + 'Loader._add_label': lambda I, b: LABEL(ops.scal(b['value']))})(f)


# ------------------------------------------------------------------------------------------- labels
class LabelMap:
    """dict from names to indices: 0..n-1, each used once"""

    def __init__(self, n):
        self.n, self.new = n, []

    def known(self, s):
        return app('known', (s,), 'B')

    def index(self, s):
        return app('index', (s,), 'I')

    def sym_attr(self, I, a):
        if a == 'get':
            return Fn(lambda I, s, default=None: self.index(ops.scal(s)) if I.decide(self.known(ops.scal(s))) else default)
        raise Unsupported(f'labels.{a}')

    def sym_len(self, I):
        if self.new:
            raise Unsupported('size of a changed map')
        return self.n

    def sym_contains(self, I, s):
        return self.known(ops.scal(s))

    def sym_getitem(self, I, s):
        if not I.decide(self.known(ops.scal(s))):
            raise PyRaise('KeyError')
        return self.index(ops.scal(s))

    def sym_setitem(self, I, k, v):
        self.new.append((ops.scal(k), ops.scal(v)))


def add_label(qual):
    """a known label keeps its index; a new one gets the next index, and no other label changes"""
    def f(c):
        n = c.size('n')
        m, inv = LabelMap(n), PyDict()
        x, y = fresh('S', 'x'), fresh('S', 'y')
        c.require(forall([x], implies(m.known(x), rng(m.index(x), n))), forall([x, y], implies(and_(m.known(x), m.known(y), eq(m.index(x), m.index(y))), eq(x, y))))
        v = var('value', 'S')
        o = inst(c, qual, _labels=m, _index_to_label=RecordingDict())
        r = ops.scal(c.run(o, v))
        c.ensure('known', implies(m.known(v), and_(eq(r, m.index(v)), const(not m.new))))
        c.ensure('new', implies(not_(m.known(v)), and_(eq(r, n), const(len(m.new) == 1), *[and_(eq(a, v), eq(b, n)) for a, b in m.new])))
        back = o.attrs['_index_to_label'].new
        if 'object_detection' not in qual:
            c.ensure('inverse', and_(const(len(back) == len(m.new)), *[and_(eq(a, n), eq(b, v)) for a, b in back]))
    return f


class RecordingDict:
    def __init__(self):
        self.new = []

    def sym_setitem(self, I, k, v):
        self.new.append((ops.scal(k), ops.scal(v)))


CL, SL = 'valor_lite.classification.loader.', 'valor_lite.semantic_segmentation.loader.'
for nm, mod, props in (('od', OL, ['C07', 'C22']), ('cls', CL, ['C08', 'C22']), ('seg', SL, ['C12', 'C22'])):
    f = add_label(mod + 'Loader')
    f.__name__ = nm + '_add_label'
    contract(mod + 'Loader._add_label', props)(f)


# ------------------------------------------------------------------------------------------- classification
CA = 'valor_lite.classification.annotation.'


def cls_add(c, with_meta):
    N = c.size('N')
    S = lambda f, *a: app(f, a, 'S')
    n = lambda k: app('n_preds', (k,), 'I')
    score = lambda k, l: app('score', (k, l), 'R')
    x = fresh('I', 'x')
    c.require(forall([x], lt(ZERO, n(x))))
    meta = lambda k: PyDict({**{f: S('hostile_' + f, k) for f in CLS_TYPES}, 'm': S('meta', k)}) if with_meta else None
    item = lambda k: inst(c, CA + 'Classification', uid=S('d_uid', k), groundtruth=S('gt', k), predictions=sym_list(n(k), lambda l: S('pred', k, l), 'l'),
                          scores=sym_list(n(k), lambda l: score(k, l), 'l'), metadata=meta(k))
    s, t = fresh('S', 's'), fresh('S', 't')
    c.require(forall([s], le(ZERO, LABEL(s))), forall([s, t], implies(eq(LABEL(s), LABEL(t)), eq(s, t))))
    D0 = var('D0', 'I')
    sink = RowSink()
    o = inst(c, CL + 'Loader', _writer=sink, _datum_count=D0, _labels=Opaque('labels'))
    c.run(o, sym_list(N, item))
    c.ensure('datum-count', eq(ops.scal(o.attrs['_datum_count']), add(D0, N)))
    rows = rows_written(sink.log)
    j = fresh('I', 'j')
    first_best = lambda k, l: forall([j], implies(rng(j, n(k)), and_(le(score(k, j), score(k, l)), or_(le(l, j), lt(score(k, j), score(k, l))))))
    got = []
    for vs, dom, d in rows:
        it = d.items
        if any(f not in it for f in CLS_TYPES):
            c.ensure('fields', FALSE)
            continue
        v = lambda f: ops.scal(it[f])
        k, l = sub(v('datum_id'), D0), fresh('I', 'l')
        got.append((vs, dom, v))
        c.skolem('row.datum', list(vs), dom, and_(rng(k, N), eq(v('datum_uid'), S('d_uid', k)), eq(v('gt_label'), S('gt', k)), eq(v('gt_label_id'), LABEL(S('gt', k)))))
        c.skolem('row.prediction', list(vs), dom, exists([l], and_(rng(l, n(k)), eq(v('pd_label'), S('pred', k, l)), eq(v('pd_label_id'), LABEL(S('pred', k, l))), eq(v('pd_score'), score(k, l)),
                                                                    eq(v('pd_winner'), first_best(k, l)))))
        c.skolem('row.match', list(vs), dom, eq(v('match'), eq(v('gt_label'), v('pd_label'))))
        if with_meta:
            c.skolem('row.metadata', list(vs), dom, eq(v('m'), S('meta', k)) if 'm' in it else FALSE)
    k, l = fresh('I', 'k'), fresh('I', 'l')
    want = lambda v: and_(eq(v('datum_id'), add(D0, k)), eq(v('pd_label'), S('pred', k, l)), eq(v('pd_score'), score(k, l)), eq(v('pd_winner'), first_best(k, l)))
    c.skolem('all', [k, l], and_(rng(k, N), rng(l, n(k))), or_(*[exists(list(m.values()), subst(and_(dom, want(v)), m)) for vs, dom, v in got for m in [{a: fresh(a.sort, 'w') for a in vs}]]))


for nm in ('', '_metadata'):
    f = (lambda m: lambda c: cls_add(c, m))(bool(nm))
    f.__name__ = 'cls_add_data' + nm
    contract(CL + 'Loader.add_data', ['C08', 'C11'], externals={**TABLE_EXT, 'tqdm.tqdm': lambda I, x, disable=None: x}, uses={CL + 'Loader._add_label': lambda I, b: LABEL(ops.scal(b['value']))})(f)


@contract(CL + 'Loader.add_data', ['C21'], externals={'tqdm.tqdm': lambda I, x, disable=None: x}, uses={CL + 'Loader._add_label': lambda I, b: LABEL(ops.scal(b['value']))})
def cls_add_empty(c):
    """a classification without predictions is rejected before anything of it is written"""
    sink = RowSink()
    o = inst(c, CL + 'Loader', _writer=sink, _datum_count=var('D0', 'I'), _labels=Opaque('labels'))
    item = inst(c, CA + 'Classification', uid=var('u', 'S'), groundtruth=var('g', 'S'), predictions=PyList(), scores=PyList(), metadata=None)
    res, exc = c.attempt(o, PyList.of([item]))
    c.ensure('rejected', const(exc == 'ValueError'))
    c.ensure('nothing-written', const(not sink.log.parts))


# ------------------------------------------------------------------------------------------- segmentation
SA = 'valor_lite.semantic_segmentation.annotation.'
SC = 'valor_lite.semantic_segmentation.computation.'
NAME = lambda i: app('label_name', (i,), 'S')


class Names:
    """inverse of the label map"""

    def sym_getitem(self, I, i):
        return NAME(ops.scal(i))


class Labels(LabelMap):
    def known(self, s):
        return and_(le(ZERO, LABEL(s)), lt(LABEL(s), self.n))

    def index(self, s):
        return LABEL(s)


def cells_of(GT, ng, gl, PD, npd, pl, pix, px):
    """number of pixels under each pair of labels (row and column 0: no label)"""
    g, p = fresh('I', 'g'), fresh('I', 'p')
    covg = lambda lab: exists([g], and_(rng(g, ng), eq(gl(g), lab), GT(g, pix)))
    covp = lambda lab: exists([p], and_(rng(p, npd), eq(pl(p), lab), PD(p, pix)))
    nog, nop = not_(exists([g], and_(rng(g, ng), GT(g, pix)))), not_(exists([p], and_(rng(p, npd), PD(p, pix))))
    return {'pair': lambda a, b: count(list(pix), and_(px, covg(a), covp(b))), 'gt': lambda a: count(list(pix), and_(px, covg(a), nop)),
            'pd': lambda b: count(list(pix), and_(px, nog, covp(b))), 'none': lambda: count(list(pix), and_(px, nog, nop))}


def use_intermediates(I, b):
    gt, pd, gl, pl, L = (b[k] for k in ('groundtruths', 'predictions', 'groundtruth_labels', 'prediction_labels', 'n_labels'))
    L = ops.scal(L)
    I.obl('precondition', eq(gt.axes[1].card(), pd.axes[1].card()), 'as many pixels on both sides')
    empty = {k: m for k, m, lab in (('pd', pd, pl), ('gt', gt, gl)) if I.decide(eq(lab.axes[0].card(), ZERO))}
    pix = pd.axes[1] if 'gt' in empty else gt.axes[1]
    if not empty and not gt.axes[1].same(pd.axes[1]):
        raise Unsupported('pixels of the two sides')

    def side(m, lab, what):
        mg, lg = m.freeze(), lab.freeze()
        ax = m.axes[1]
        n = lab.axes[0].card()
        v, w, x = m.axes[0].vars('a'), m.axes[0].vars('b'), ax.vars('x')
        lv = lab.axes[0].vars('l')
        I.obl('precondition', or_(eq(m.axes[0].card(), n), and_(eq(n, ZERO), eq(m.axes[0].card(), ONE), forall(list(v) + list(x), implies(and_(m.axes[0].dom(v), ax.dom(x)), not_(mg([v, x])))))), f'one mask per {what} label')
        I.obl('precondition', forall(list(lv), implies(lab.axes[0].dom(lv), rng(lg([lv]), L))), f'{what} labels are known')
        I.obl('precondition', forall(list(v) + list(w) + list(x), implies(and_(m.axes[0].dom(v), m.axes[0].dom(w), ax.dom(x), mg([v, x]), mg([w, x])), and_(*[eq(p, q) for p, q in zip(v, w)]))), f'{what} masks are disjoint')
        if any(m is e for e in empty.values()):
            return (lambda a, x: FALSE), ZERO, (lambda a: ZERO)
        if len(v) != 1 or len(lv) != 1:
            raise Unsupported('masks')
        return (lambda a, x: mg([(a,), x])), n, (lambda a: lg([(a,)]))
    G, ng, gls = side(gt, gl, 'ground truth')
    P, npd, pls = side(pd, pl, 'prediction')
    x = pix.vars('x')
    S = cells_of(G, ng, gls, P, npd, pls, x, pix.dom(x))
    n1 = add(L, ONE)
    return new([RangeAx(n1), RangeAx(n1)], lambda r: ite(eq(r[0][0], ZERO), ite(eq(r[1][0], ZERO), S['none'](), S['pd'](sub(r[1][0], ONE))),
                                                         ite(eq(r[1][0], ZERO), S['gt'](sub(r[0][0], ONE)), S['pair'](sub(r[0][0], ONE), sub(r[1][0], ONE)))), 'u8')


def seg_add(c, with_meta):
    L = c.size('L')
    S = lambda f, *a: app(f, a, 'S')
    ng, npd, H, W = c.size('ng'), c.size('npd'), c.size('H'), c.size('W')
    i, j, h, w = (fresh('I', x) for x in 'ijhw')
    GT, PD = (lambda g, x: app('gt', (g,) + tuple(x), 'B')), (lambda g, x: app('pd', (g,) + tuple(x), 'B'))
    for f, n in ((GT, ng), (PD, npd)):
        c.require(forall([i, j, h, w], implies(and_(rng(i, n), rng(j, n), f(i, (h, w)), f(j, (h, w))), eq(i, j))))
    for f, n in (('g_label', ng), ('p_label', npd)):
        c.require(forall([i], implies(rng(i, n), and_(rng(LABEL(S(f, i)), L), eq(NAME(LABEL(S(f, i))), S(f, i))))))
    meta = PyDict({**{f: S('hostile_' + f) for f in SEG_TYPES}, 'm': S('meta')}) if with_meta else None
    mask = lambda f: lambda g: new([RangeAx(H), RangeAx(W)], lambda r: f(g, (r[0][0], r[1][0])), 'b')
    item = lambda f, m: lambda g: inst(c, SA + 'Bitmask', label=S(f, g), mask=mask(m)(g), metadata=None)
    seg = inst(c, SA + 'Segmentation', uid=S('d_uid'), groundtruths=sym_list(ng, item('g_label', GT), 'g'), predictions=sym_list(npd, item('p_label', PD), 'p'), shape=(H, W), size=mul(H, W), metadata=meta)
    D0 = var('D0', 'I')
    sink = RowSink()
    o = inst(c, SL + 'Loader', _writer=sink, _datum_count=D0, _labels=Labels(L), _index_to_label=Names())
    c.run(o, PyList.of([seg]))
    c.ensure('datum-count', eq(ops.scal(o.attrs['_datum_count']), add(D0, ONE)))
    pix = (fresh('I', 'h'), fresh('I', 'w'))
    C = cells_of(GT, ng, lambda g: LABEL(S('g_label', g)), PD, npd, lambda p: LABEL(S('p_label', p)), pix, and_(rng(pix[0], H), rng(pix[1], W)))
    rect = eq(count(list(pix), and_(rng(pix[0], H), rng(pix[1], W))), mul(H, W))   # counting schema: pairs of indices below H and W
    kinds = {'pair': [], 'gt': [], 'pd': [], 'none': []}
    for vs, dom, d in rows_written(sink.log):
        it = d.items
        if any(f not in it for f in SEG_TYPES):
            c.ensure('fields', FALSE)
            continue
        v = lambda f: ops.scal(it[f])
        kind = ('none' if it['pd_label'] is None else 'pd') if it['gt_label'] is None else 'gt' if it['pd_label'] is None else 'pair'
        kinds[kind].append((vs, dom, it))
        sides = [and_(rng(v(k + '_label_id'), L), eq(v(k + '_label'), NAME(v(k + '_label_id')))) if it[k + '_label'] is not None else eq(v(k + '_label_id'), const(-1)) for k in ('gt', 'pd')]
        c.skolem(f'row-{kind}.labels', list(vs), dom, and_(*sides, eq(v('datum_uid'), S('d_uid')), eq(v('datum_id'), D0)))
        a, b = v('gt_label_id'), v('pd_label_id')
        c.skolem(f'row-{kind}.count', list(vs), dom, eq(v('count'), C[kind](*{'pair': (a, b), 'gt': (a,), 'pd': (b,), 'none': ()}[kind])), lemmas=[rect] if kind == 'none' else ())
        if with_meta:
            c.skolem(f'row-{kind}.metadata', list(vs), dom, eq(v('m'), S('meta')) if 'm' in it else FALSE)
    # every pair of labels with common pixels has exactly one row, and so has every label on its own and the background
    a, b = fresh('I', 'a'), fresh('I', 'b')

    def once(kind, dom0, need, *conds):
        rows = kinds[kind]
        hit = lambda vs, dom, it: and_(dom, *[eq(ops.scal(it[n]), x) for n, x in conds])
        c.skolem(f'{kind}.present', [a, b], and_(dom0, need), or_(*[exists(list(m.values()), subst(hit(vs, dom, it), m)) for vs, dom, it in rows for m in [{v: fresh(v.sort, 'w') for v in vs}]]))
        for q, (vs, dom, it) in enumerate(rows):
            for vs2, dom2, it2 in rows[:q]:
                c.skolem(f'{kind}.once', [a, b], dom0, not_(and_(hit(vs, dom, it), hit(vs2, dom2, it2))))
            m = {v: fresh(v.sort, 'w') for v in vs}
            c.skolem(f'{kind}.once', [a, b], and_(dom0, hit(vs, dom, it), subst(hit(vs, dom, it), m)), and_(*[eq(v, x) for v, x in m.items()]))
    once('pair', and_(rng(a, L), rng(b, L)), lt(ZERO, C['pair'](a, b)), ('gt_label_id', a), ('pd_label_id', b))
    once('gt', rng(a, L), TRUE, ('gt_label_id', a))
    once('pd', rng(b, L), TRUE, ('pd_label_id', b))
    once('none', TRUE, TRUE)


for nm in ('', '_metadata'):
    f = (lambda m: lambda c: seg_add(c, m))(bool(nm))
    f.__name__ = 'seg_add_data' + nm
    contract(SL + 'Loader.add_data', ['C12'], externals={**TABLE_EXT, 'tqdm.tqdm': lambda I, x, disable=None: x},
             uses={SL + 'Loader._add_label': lambda I, b: LABEL(ops.scal(b['value'])), SC + 'compute_intermediates': use_intermediates})(f)
