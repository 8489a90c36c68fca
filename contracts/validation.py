"""Contracts of the annotation classes: what can be constructed (C21), and what construction guarantees the loaders."""
from .loading import *

CA = 'valor_lite.classification.annotation.'
POST = '.__post_init__'


def build(c, qual, **kw):
    """construct through the class, as a user does"""
    f = c.func(qual)
    c.pre = list(c.I.pc)
    try:
        return calls.call(c.I, f, [], kw), None
    except PyRaise as e:
        return None, e.exc


def labelled(c, lo=0):
    n, m = c.size('n_labels'), c.size('n_scores')
    labels = sym_list(n, lambda i: app('label', (i,), 'S'), 'l')
    scores = sym_list(m, lambda i: app('score', (i,), 'R'), 's')
    bad = or_(and_(eq(m, ZERO), ne(n, ONE)), and_(lt(ZERO, m), ne(n, m)))
    return labels, scores, bad


def exactly(c, exc, bad, *kinds):
    """an error of one of these kinds is raised exactly for the bad inputs"""
    c.only_raises(exc, *kinds)
    c.ensure('rejected', implies(bad, const(exc is not None)))
    c.ensure('accepted', implies(not_(bad), const(exc is None)))


def keeps(c, o, exc, **attrs):
    if exc is None:
        for k, v in attrs.items():
            w = o.attrs.get(k)
            if isinstance(v, T):
                c.ensure('kept.' + k, eq(ops.scal(w), v))
            else:
                c.ensure('kept.' + k, const(w is v))


@contract(OA + 'BoundingBox' + POST, ['C21', 'C07'])
def od_new_box(c):
    labels, scores, bad = labelled(c)
    ext = {e: var(e, 'R') for e in ('xmin', 'xmax', 'ymin', 'ymax')}
    o, exc = build(c, OA + 'BoundingBox', uid=var('uid', 'S'), labels=labels, scores=scores, **ext)
    exactly(c, exc, bad, 'ValueError')
    keeps(c, o, exc, uid=var('uid', 'S'), labels=labels, scores=scores, **ext)


class Shape:
    """a value given as polygon: a shapely polygon or not, empty or not"""

    def sym_isinstance(self, I, name):
        return app('is_' + {'ShapelyPolygon': 'Polygon'}.get(name, name), (var('shape', 'O'),), 'B')

    def sym_attr(self, I, a):
        if a == 'is_empty':
            return app('is_empty', (var('shape', 'O'),), 'B')
        raise Unsupported(f'polygon.{a}')


@contract(OA + 'Polygon' + POST, ['C21', 'C07'])
def od_new_polygon(c):
    labels, scores, bad = labelled(c)
    s = Shape()
    o, exc = build(c, OA + 'Polygon', uid=var('uid', 'S'), shape=s, labels=labels, scores=scores)
    exactly(c, exc, or_(not_(s.sym_isinstance(c.I, 'Polygon')), s.sym_attr(c.I, 'is_empty'), bad), 'ValueError', 'TypeError')
    keeps(c, o, exc, uid=var('uid', 'S'), labels=labels, scores=scores, shape=s)


def new_mask(dtype):
    def f(c):
        labels, scores, bad = labelled(c)
        H, W = c.size('H'), c.size('W')
        m = c.arr('mask', [RangeAx(H), RangeAx(W)], dtype)
        y, x = fresh('I', 'y'), fresh('I', 'x')
        some = exists([y, x], and_(rng(y, H), rng(x, W), app('mask', (y, x), 'B'))) if dtype == 'b' else FALSE
        o, exc = build(c, OA + 'Bitmask', uid=var('uid', 'S'), mask=m, labels=labels, scores=scores)
        exactly(c, exc, or_(not_(some), bad), 'ValueError')
        keeps(c, o, exc, uid=var('uid', 'S'), labels=labels, scores=scores, mask=m)
    f.__name__ = 'od_new_mask' + {'b': '', 'u1': '_bytes', 'i8': '_ints', 'f8': '_floats'}[dtype]
    contract(OA + 'Bitmask' + POST, ['C21', 'C07'])(f)


for d in ('b', 'u1', 'i8', 'f8'):
    new_mask(d)


@contract(OA + 'Detection' + POST, ['C21', 'C07'])
def od_new_detection(c):
    ng, npd = c.size('ng'), c.size('np')
    nl, ns = (lambda p: app('n_labels', (p,), 'I')), (lambda p: app('n_scores', (p,), 'I'))
    p = fresh('I', 'p')
    c.require(forall([p], and_(le(ZERO, nl(p)), le(ZERO, ns(p)))))
    ann = lambda i: inst(c, OA + 'BoundingBox', uid=app('uid', (i,), 'S'), labels=sym_list(nl(i), lambda l: app('label', (i, l), 'S'), 'l'), scores=sym_list(ns(i), lambda l: app('score', (i, l), 'R'), 's'), metadata=None)
    gts, pds = sym_list(ng, ann, 'g'), sym_list(npd, ann, 'p')
    o, exc = build(c, OA + 'Detection', uid=var('uid', 'S'), groundtruths=gts, predictions=pds)
    exactly(c, exc, exists([p], and_(rng(p, npd), ne(nl(p), ns(p)))), 'ValueError')
    keeps(c, o, exc, uid=var('uid', 'S'), groundtruths=gts, predictions=pds)


@contract(CA + 'Classification' + POST, ['C21', 'C08'])
def cls_new(c):
    n, m = c.size('n_labels'), c.size('n_scores')
    labels, scores = sym_list(n, lambda i: app('label', (i,), 'S'), 'l'), sym_list(m, lambda i: app('score', (i,), 'R'), 's')
    o, exc = build(c, CA + 'Classification', uid=var('uid', 'S'), groundtruth=var('gt', 'S'), predictions=labels, scores=scores)
    exactly(c, exc, ne(n, m), 'ValueError')
    keeps(c, o, exc, uid=var('uid', 'S'), groundtruth=var('gt', 'S'), predictions=labels, scores=scores)


@contract(CA + 'Classification' + POST, ['C21', 'C08'])
def cls_new_many_labels(c):
    """a list of labels or nothing at all is not a ground truth"""
    n = c.size('n_labels')
    labels, scores = sym_list(n, lambda i: app('label', (i,), 'S'), 'l'), sym_list(n, lambda i: app('score', (i,), 'R'), 's')
    gt = None if c.I.decide(var('nothing', 'B')) else sym_list(c.size('k'), lambda i: app('gt', (i,), 'S'), 'g')
    o, exc = build(c, CA + 'Classification', uid=var('uid', 'S'), groundtruth=gt, predictions=labels, scores=scores)
    exactly(c, exc, TRUE, 'ValueError')


def seg_mask(dtype):
    def f(c):
        m = c.arr('mask', [RangeAx(c.size('H')), RangeAx(c.size('W'))], dtype)
        o, exc = build(c, SA + 'Bitmask', mask=m, label=var('label', 'S'))
        exactly(c, exc, const(dtype != 'b'), 'ValueError')
        keeps(c, o, exc, mask=m, label=var('label', 'S'))
    f.__name__ = 'seg_new_mask' + {'b': '', 'u1': '_bytes', 'i8': '_ints', 'f8': '_floats'}[dtype]
    contract(SA + 'Bitmask' + POST, ['C21', 'C12'])(f)


for d in ('b', 'u1', 'i8', 'f8'):
    seg_mask(d)


@contract(SA + 'Segmentation' + POST, ['C21', 'C12'], uses={SA + 'Segmentation._validate_bitmasks': lambda I, b: calls.call_method(I, b['self'].attrs['metadata'].items['seen'], 'append', [(b['bitmasks'], b['self'].attrs['size'])], {})})
def seg_new(c):
    """an image has a positive height and width; both sides are validated"""
    H, W = var('H', 'I'), var('W', 'I')
    ms = lambda s: sym_list(c.size('n' + s), lambda i: Opaque('mask'), s)
    g, p = ms('g'), ms('p')
    seen = PyList()
    o, exc = build(c, SA + 'Segmentation', uid=var('uid', 'S'), groundtruths=g, predictions=p, shape=(H, W), metadata=PyDict({'seen': seen}))
    exactly(c, exc, or_(le(H, ZERO), le(W, ZERO)), 'ValueError')
    if exc is None:
        c.ensure('size', eq(ops.scal(o.attrs['size']), mul(H, W)))
        got = [x[1][0] for x in seen.parts]
        c.ensure('validated', const(len(got) == 2 and g in got and p in got))


def seg_other_shape(n):
    def f(c):
        shp = tuple(var(f's{i}', 'I') for i in range(n))
        o, exc = build(c, SA + 'Segmentation', uid=var('uid', 'S'), groundtruths=PyList(), predictions=PyList(), shape=shp)
        exactly(c, exc, TRUE, 'ValueError')
    f.__name__ = f'seg_new_{n}d'
    contract(SA + 'Segmentation' + POST, ['C21'])(f)


for n in (0, 1, 3):
    seg_other_shape(n)


# ------------------------------------------------------------------------------------------- overlapping masks
class Disjoint:
    """invariant of the loop over the masks: the pixels covered and the pixels covered twice so far; earlier masks have
    lost the pixels of the masks before them"""

    def __init__(self, masks, M, n, H, W):
        self.masks, self.M, self.n, self.H, self.W = masks, M, n, H, W

    def __call__(self, I, it, st, env):
        names = ('mask_accumulation', 'mask_overlap_accumulation')
        return self if len(it.vars) == 1 and all(x in env.d for x in names) else None

    def cover(self, k, y, x):
        j = fresh('I', 'j')
        return exists([j], and_(le(ZERO, j), lt(j, k), self.M(j, y, x)))

    def twice(self, k, y, x):
        i, j = fresh('I', 'i'), fresh('I', 'j')
        return exists([i, j], and_(le(ZERO, j), lt(j, i), lt(i, k), self.M(i, y, x), self.M(j, y, x)))

    def mask(self, k, i, y, x):
        return and_(self.M(i, y, x), or_(le(k, i), not_(self.cover(i, y, x))))

    def axes(self):
        return [RangeAx(self.H), RangeAx(self.W)]

    def assume(self, I, env, k):
        for nm, f in (('mask_accumulation', self.cover), ('mask_overlap_accumulation', self.twice)):
            env.d[nm] = None if I.decide(eq(k, ZERO)) else new(self.axes(), lambda r, f=f: f(k, r[0][0], r[1][0]), 'b')
        I.heap_set(self.masks.store, 'get', lambda r: self.mask(k, r[0][0], r[1][0], r[2][0]))

    def check(self, I, env, k, note):
        y, x, i = (fresh('I', q) for q in 'yxi')
        px = and_(rng(y, self.H), rng(x, self.W))
        for nm, f in (('mask_accumulation', self.cover), ('mask_overlap_accumulation', self.twice)):
            v = env.d[nm]
            if v is None:
                I.obl('invariant', eq(k, ZERO), f'{note}: {nm}')
            elif not isinstance(v, Arr) or v.ndim != 2:
                raise Unsupported(nm)
            else:
                I.obl('invariant', and_(lt(ZERO, k), *[eq(a.card(), b.card()) for a, b in zip(v.axes, self.axes())], forall([y, x], implies(px, eq(v.at([(y,), (x,)]), f(k, y, x))))), f'{note}: {nm}')
        I.obl('invariant', forall([i, y, x], implies(and_(px, rng(i, self.n)), eq(self.masks.at([(i,), (y,), (x,)]), self.mask(k, i, y, x)))), f'{note}: masks')

    def owns(self, obj):
        return obj is self.masks.store


def use_warn(I, msg=None, *a, **k):
    calls.call_method(I, I.warned, 'append', [TRUE], {})


@contract(SA + 'Segmentation._validate_bitmasks', ['C12'], externals={'warnings.warn': use_warn})
def seg_overlap(c):
    """where masks of one side overlap the earliest keeps the pixel, and a warning is issued"""
    n, H, W = c.size('n'), c.size('H', 1), c.size('W', 1)
    M = lambda i, y, x: app('mask', (i, y, x), 'B')
    c.I.warned = PyList()
    all_ = new([RangeAx(n), RangeAx(H), RangeAx(W)], lambda r: M(r[0][0], r[1][0], r[2][0]), 'b')
    masks = sym_list(n, lambda i: inst(c, SA + 'Bitmask', label=app('label', (i,), 'S'), metadata=None, mask=c.I.row(all_, (i,))), 'i')
    c.I.invariants = [Disjoint(all_, M, n, H, W)]
    o = inst(c, SA + 'Segmentation', uid=var('uid', 'S'), shape=(H, W))
    c.run(o, masks, 'ground truth')
    i, j, y, x = (fresh('I', q) for q in 'ijyx')
    c.skolem('pixels', [i, y, x], and_(rng(i, n), rng(y, H), rng(x, W)), eq(all_.at([(i,), (y,), (x,)]), and_(M(i, y, x), not_(exists([j], and_(le(ZERO, j), lt(j, i), M(j, y, x)))))))
    c.skolem('disjoint', [i, j, y, x], and_(rng(i, n), rng(j, n), rng(y, H), rng(x, W), all_.at([(i,), (y,), (x,)]), all_.at([(j,), (y,), (x,)])), eq(i, j))
    overlap = exists([i, j, y, x], and_(rng(i, n), rng(j, n), ne(i, j), rng(y, H), rng(x, W), M(i, y, x), M(j, y, x)))
    c.ensure('warning', eq(const(bool(c.I.warned.parts)), overlap))
