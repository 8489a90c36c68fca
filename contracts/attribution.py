"""Contracts of the detection loader's entry points: every IoU belongs to the pair it was computed from (C01, C07)."""
from .loading import *

OC = 'valor_lite.object_detection.computation.'
N_GT, N_PD = (lambda k: app('n_gts', (k,), 'I')), (lambda k: app('n_pds', (k,), 'I'))


def rows_of(a, *tail):
    if not isinstance(a, Arr) or a.ndim != 1 + len(tail) or any(x.const_n != n for x, n in zip(a.axes[1:], tail) if n is not None):
        raise Unsupported('pairs')
    return a.freeze(), a.axes[0]


def use_bbox(I, b):
    """postcondition of od_bbox_iou: element k is a symmetric function of the two boxes of row k"""
    g, ax = rows_of(b['data'], 2, 4)
    return new([ax], lambda r: BOX(*[g([r[0], (const(i),), (const(j),)]) for i in range(2) for j in range(4)]), 'f8')


def use_mask(I, b):
    g, ax = rows_of(b['data'], 2, None, None)
    h, w = b['data'].axes[2:]
    return new([ax], lambda r: mask_iou(lambda s, y, x: g([r[0], (const(s),), (y,), (x,)]), h, w), 'f8')


def mask_iou(at, h, w):
    y, x = fresh('I', 'y'), fresh('I', 'x')
    px = and_(h.dom((y,)), w.dom((x,)))
    i, u = count([y, x], and_(px, at(0, y, x), at(1, y, x))), count([y, x], and_(px, or_(at(0, y, x), at(1, y, x))))
    return ite(lt(ZERO, u), div(i, u), term(0.0))


def use_polygon(I, b):
    g, ax = rows_of(b['data'], 2)
    return new([ax], lambda r: POLY(g([r[0], (ZERO,)]), g([r[0], (ONE,)])), 'f8')


BOX = lambda *a: app('box_iou', tuple(a), 'R')
POLY = lambda a, b: app('polygon_iou', (a, b), 'R')


def attribution(kind):
    def f(c):
        N = c.size('N')
        x = fresh('I', 'x')
        c.require(forall([x], and_(le(ZERO, N_GT(x)), le(ZERO, N_PD(x)))))
        R = lambda s, e, k, i: app(f'{s}_{e}', (k, i), 'R')
        ext = ('xmin', 'xmax', 'ymin', 'ymax')
        H, W = (lambda k: app('H', (k,), 'I')), (lambda k: app('W', (k,), 'I'))
        c.require(forall([x], and_(le(ZERO, H(x)), le(ZERO, W(x)))))
        px = lambda s, k, i, y, z: app(f'{s}_mask', (k, i, y, z), 'B')
        shp = lambda s, k, i: app(f'{s}_shape', (k, i), 'O')
        data = {'bounding_boxes': lambda s: lambda k, i: {e: R(s, e, k, i) for e in ext},
                'bitmasks': lambda s: lambda k, i: {'mask': new([RangeAx(H(k)), RangeAx(W(k))], lambda r: px(s, k, i, r[0][0], r[1][0]), 'b')},
                'polygons': lambda s: lambda k, i: {'shape': shp(s, k, i)}}[kind]
        cls = {'bounding_boxes': 'BoundingBox', 'bitmasks': 'Bitmask', 'polygons': 'Polygon'}[kind]
        ann = lambda s, k: lambda i: inst(c, OA + cls, uid=app(s + '_uid', (k, i), 'S'), metadata=None, **data(s)(k, i))
        det = lambda k: inst(c, OA + 'Detection', uid=app('d_uid', (k,), 'S'), groundtruths=sym_list(N_GT(k), ann('g', k), 'g'), predictions=sym_list(N_PD(k), ann('p', k), 'p'), metadata=None)
        a = [fresh('R', 'a') for _ in range(8)]
        p, q = fresh('O', 'p'), fresh('O', 'q')
        c.require(forall(a, eq(BOX(*a), BOX(*a[4:], *a[:4]))), forall([p, q], eq(POLY(p, q), POLY(q, p))))
        dets = sym_list(N, det)
        o = inst(c, OL + 'Loader', got=PyList())
        c.run(o, dets)
        got = o.attrs['got'].parts
        c.ensure('added-once', const(len(got) == 1 and got[0][0] == 'one'))
        if not (len(got) == 1 and got[0][0] == 'one'):
            return
        d, ious = got[0][1]
        c.ensure('detections', const(d is dets))
        k, g, p = fresh('I', 'k'), fresh('I', 'g'), fresh('I', 'p')
        for vs, dom, m in leaves(ious.parts):
            if len(vs) != 1 or not isinstance(m, Arr):
                raise Unsupported('matrices')
            c.skolem('one-per-detection', [k], TRUE, eq(rng(k, N), subst(dom, {vs[0]: k})))
            c.ensure('matrix', const(m.ndim == 2))
            if m.ndim != 2:
                continue
            c.skolem('shape', list(vs), dom, and_(eq(m.axes[0].card(), N_PD(vs[0])), eq(m.axes[1].card(), N_GT(vs[0]))))
            kk = vs[0]
            want = {'bounding_boxes': lambda: BOX(*[R('g', e, kk, g) for e in ext], *[R('p', e, kk, p) for e in ext]),
                    'bitmasks': lambda: mask_iou(lambda s, y, z: px('gp'[s], kk, (g, p)[s], y, z), RangeAx(H(kk)), RangeAx(W(kk))),
                    'polygons': lambda: POLY(shp('g', kk, g), shp('p', kk, p))}[kind]()
            c.skolem('iou', [kk, g, p], and_(dom, rng(g, N_GT(kk)), rng(p, N_PD(kk))), eq(m.at([(p,), (g,)]), want))
    f.__name__ = 'od_add_' + kind
    return f


def use_add_data(I, b):
    calls.call_method(I, b['self'].attrs['got'], 'append', [(b['detections'], b['detection_ious'])], {})


for kind in ('bounding_boxes', 'bitmasks', 'polygons'):
    contract(OL + 'Loader.add_' + kind, ['C01', 'C07'], uses={OL + 'Loader._add_data': use_add_data, OC + 'compute_bbox_iou': use_bbox, OC + 'compute_bitmask_iou': use_mask, OC + 'compute_polygon_iou': use_polygon})(attribution(kind))


def no_pairs(fn):
    """a detection without pairs: numpy gives an array of shape (0,)"""
    def f(c):
        r = c.run(new([RangeAx(0)], lambda r: term(0.0), 'f8'))
        c.ensure('empty', const(isinstance(r, Arr) and r.ndim == 1 and r.axes[0].const_n == 0))
    f.__name__ = 'od_' + fn + '_no_pairs'
    return f


for fn in ('compute_bbox_iou', 'compute_bitmask_iou', 'compute_polygon_iou'):
    contract(OC + fn, ['C01', 'C07'])(no_pairs(fn))
