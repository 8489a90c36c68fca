"""Semantic segmentation: per-pixel oracle over the user's own masks, and cases."""
from fractions import Fraction as F
import json, warnings
import numpy as np
import pyarrow.compute as pc
from common import *

META = [('dt_m', 'int64'), ('gt_m', 'int64'), ('pd_m', 'int64')]


def gen(rng, size, meta=False, overlap=True, repeat=True, n_labels=None):
    nl = n_labels or rng.randint(1, 2 + min(size, 3))
    labels = names(rng, nl)
    rng.shuffle(labels)
    out = []
    for d in range(rng.randint(1, 1 + size)):
        h, w = rng.randint(1, 2 + size), rng.randint(1, 2 + size)
        if rng.random() < .02:
            h, w = rng.choice([(260, 257), (1, 300), (40, 30)])
        r = np.random.default_rng(rng.randrange(2**32))

        def side(key):
            k = rng.randint(0, min(3, nl + 1))
            ls = [rng.choice(labels) for _ in range(k)] if repeat else rng.sample(labels, min(k, nl))
            taken = np.zeros((h, w), bool)
            ms = []
            for l in ls:
                m = r.random((h, w)) < rng.choice([0.0, .2, .5, .9, 1.0])
                if not overlap:
                    m &= ~taken
                taken |= m
                ms.append({'label': l, 'mask': m, 'meta': {key: rng.randint(0, 2)} if meta else None})
            return ms
        out.append({'uid': f'd{d}', 'shape': (h, w), 'gts': side('gt_m'), 'pds': side('pd_m'), 'meta': {'dt_m': rng.randint(0, 2)} if meta else None})
    if not any(d['gts'] or d['pds'] for d in out):
        return gen(rng, size, meta, overlap, repeat, n_labels)
    return out


def labels_of(data):
    return sorted({m['label'] for d in data for m in d['gts'] + d['pds']})


def to_seg(d):
    from valor_lite.semantic_segmentation import Segmentation, Bitmask
    mk = lambda ms: [Bitmask(mask=m['mask'].copy(), label=m['label'], metadata=m['meta']) for m in ms]
    return Segmentation(uid=d['uid'], groundtruths=mk(d['gts']), predictions=mk(d['pds']), shape=d['shape'], metadata=d['meta'])


def build(rng, data, tmp, cfg=None, meta=False):
    from valor_lite.semantic_segmentation import Loader
    cfg = cfg or cfgs(rng)
    loader, path = make_loader(Loader, cfg, tmp, META if meta else None)
    for c in partition(rng, [to_seg(d) for d in data]):
        loader.add_data(c)
    return loader.finalize(), path, cfg


def owner(ms, h, w):
    """index of the earliest mask covering each pixel, or None"""
    return [[next((k for k, m in enumerate(ms) if m['mask'][y, x]), None) for x in range(w)] for y in range(h)]


def pixels(data, labels, dt=None, gt=None, pd=None):
    """(gt label or None, pd label or None) -> pixels"""
    n = {(g, p): 0 for g in labels + [None] for p in labels + [None]}
    for d in data:
        if dt and not dt(d):
            continue
        h, w = d['shape']
        og, op = owner(d['gts'], h, w), owner(d['pds'], h, w)
        for y in range(h):
            for x in range(w):
                g = None if og[y][x] is None else d['gts'][og[y][x]]
                p = None if op[y][x] is None else d['pds'][op[y][x]]
                g = None if g is None or (gt and not gt(d, g)) else g['label']
                p = None if p is None or (pd and not pd(d, p)) else p['label']
                n[(g, p)] += 1
    return n


def div(a, b):
    return a / b if b else 0.0


def expected(n, labels):
    G = {l: sum(n[(l, p)] for p in labels + [None]) for l in labels}
    P = {l: sum(n[(g, l)] for g in labels + [None]) for l in labels}
    tot = sum(n.values())
    out = {'Precision': {l: div(n[(l, l)], P[l]) for l in labels}, 'Recall': {l: div(n[(l, l)], G[l]) for l in labels}}
    out['F1'] = {l: div(2 * n[(l, l)], P[l] + G[l]) for l in labels}
    iou = {g: {p: div(n[(g, p)], G[g] + P[p] - n[(g, p)]) for p in labels} for g in labels}
    out['IOU'] = {l: iou[l][l] for l in labels}
    out['mIOU'] = sum(out['IOU'].values()) / len(labels)
    out['Accuracy'] = div(sum(n[(l, l)] for l in labels) + n[(None, None)], tot)
    out['CM'] = {'confusion_matrix': {g: {p: {'iou': iou[g][p]} for p in labels} for g in labels},
                 'unmatched_predictions': {l: {'ratio': div(n[(None, l)], P[l])} for l in labels},
                 'unmatched_ground_truths': {l: {'ratio': div(n[(l, None)], G[l])} for l in labels}}
    return out


def check(ev_or_r, n, labels, what='', **info):
    r = norm(ev_or_r)
    e = expected(n, labels)
    expect_eq(set(r), {'Accuracy', 'ConfusionMatrix', 'mIOU', 'Precision', 'Recall', 'F1', 'IOU'}, 'metric types')
    for k in ('Precision', 'Recall', 'F1', 'IOU'):
        expect_eq(sorted(m.parameters['label'] for m in r[k]), labels, f'{what} {k} labels')
        for m in r[k]:
            expect_eq(getattr(m.type, 'value', m.type), k, 'metric type')
            expect_close(m.value, e[k][m.parameters['label']], f'{what} {k} of {m.parameters["label"]}', pixels=n, **info)
            expect(0 <= m.value <= 1, f'{k} outside [0, 1]')
    for k in ('mIOU', 'Accuracy'):
        expect_eq(len(r[k]), 1, f'{k} entries')
        expect_close(r[k][0].value, e[k], f'{what} {k}', pixels=n, **info)
        expect(0 <= r[k][0].value <= 1, f'{k} outside [0, 1]')
    expect_eq(len(r['ConfusionMatrix']), 1, 'ConfusionMatrix entries')
    d = same(canon(r['ConfusionMatrix'][0].value), e['CM'])
    expect(d is None, f'{what} confusion matrix: {d}', pixels=n, **info)


def desc(data):
    return [{'shape': d['shape'], 'gts': [(m['label'], m['mask'].astype(int).tolist()) for m in d['gts']], 'pds': [(m['label'], m['mask'].astype(int).tolist()) for m in d['pds']]} for d in data]


def check_info(i, n, data, labels, what='info'):
    expect_eq((i.number_of_datums, i.number_of_labels, i.number_of_pixels, i.number_of_groundtruth_pixels, i.number_of_prediction_pixels),
              (len(data), len(labels), sum(n.values()), sum(v for (g, p), v in n.items() if g is not None), sum(v for (g, p), v in n.items() if p is not None)), what, data=desc(data))


@case('C12')
def seg_pixels(rng, size, tmp):
    data = gen(rng, size); ev, _, _ = build(rng, data, tmp); L = labels_of(data)
    n = pixels(data, L)
    check_info(ev.info, n, data, L)
    m = getattr(ev, '_compute_confusion_matrix_intermediate', None)
    check(ev.compute_precision_recall_iou(), n, L, data=desc(data))
    check_info(ev.get_info(datums=pc.field('datum_uid') == 'd0'), pixels(data[:1], L), data[:1], L, 'info of one datum')


@case('C12')
def seg_overlap(rng, size, tmp):
    """earliest mask keeps the pixel, later masks lose it, the warning names the overlap"""
    d = gen(rng, size)[0]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        s = to_seg(d)
    h, w = d['shape']
    over = False
    for ms, got in ((d['gts'], s.groundtruths), (d['pds'], s.predictions)):
        o = owner(ms, h, w)
        for k, (m, g) in enumerate(zip(ms, got)):
            want = np.array([[o[y][x] == k for x in range(w)] for y in range(h)])
            expect_eq(g.label, m['label'], 'label of a mask')
            expect((g.mask == want).all(), f'mask {k} after overlap resolution', masks=[x['mask'].astype(int).tolist() for x in ms], got=g.mask.astype(int).tolist())
        over |= any((a['mask'] & b['mask']).any() for i, a in enumerate(ms) for b in ms[i + 1:])
    expect_eq(any('overlap' in str(x.message) for x in ws), over, 'overlap warning', data=desc([d]))


@case('C12', weight=.5)
def seg_intermediates(rng, size, tmp):
    from valor_lite.semantic_segmentation import computation as C
    f = getattr(C, 'compute_intermediates', None)
    if f is None:
        raise Skip('compute_intermediates')
    d = gen(rng, size, overlap=False)[0]
    L = labels_of([d]) or ['L0']
    sz = d['shape'][0] * d['shape'][1]
    st = lambda ms: np.stack([m['mask'].flatten() for m in ms]) if ms else np.zeros((1, sz), bool)
    ix = lambda ms: np.array([L.index(m['label']) for m in ms], dtype=np.int64)
    cm = f(groundtruths=st(d['gts']), predictions=st(d['pds']), groundtruth_labels=ix(d['gts']), prediction_labels=ix(d['pds']), n_labels=len(L))
    n = pixels([d], L)
    K = [None] + L
    expect_eq(cm.tolist(), [[n[(g, p)] for p in K] for g in K], 'intermediate pixel counts', data=desc([d]))


@case('C13')
def seg_metrics(rng, size, tmp):
    data = gen(rng, size, meta=True, repeat=False); ev, _, _ = build(rng, data, tmp, meta=True); L = labels_of(data)
    check(ev.compute_precision_recall_iou(), pixels(data, L), L, data=desc(data))
    v = rng.randint(0, 2)
    check(ev.compute_precision_recall_iou(datums=pc.field('dt_m') == v), pixels(data, L, dt=lambda d: d['meta']['dt_m'] == v), L, 'datum filter', data=desc(data))


@case('C13')
def seg_formulas(rng, size, tmp):
    """metric formulas on arbitrary pixel counts, including zeros and very large ones"""
    from valor_lite.semantic_segmentation import computation as C
    f = getattr(C, 'compute_metrics', None)
    if f is None:
        raise Skip('compute_metrics')
    k = rng.randint(1, 4)
    pool = [0, 0, 1, 2, 5, 100, 2**33, 2**45]
    cm = np.array([[rng.choice(pool) for _ in range(k + 1)] for _ in range(k + 1)], dtype=np.uint64)
    p, r, f1, acc, ious, ump, umg = f(cm.copy())
    L = [f'L{i}' for i in range(k)]
    K = [None] + L
    n = {(K[i], K[j]): int(cm[i, j]) for i in range(k + 1) for j in range(k + 1)}
    e = expected(n, L)
    for i, l in enumerate(L):
        expect_close(float(p[i]), e['Precision'][l], 'precision', cm=cm.tolist()); expect_close(float(r[i]), e['Recall'][l], 'recall', cm=cm.tolist())
        expect_close(float(f1[i]), e['F1'][l], 'F1', cm=cm.tolist())
        expect_close(float(ump[i]), e['CM']['unmatched_predictions'][l]['ratio'], 'unmatched predictions', cm=cm.tolist())
        expect_close(float(umg[i]), e['CM']['unmatched_ground_truths'][l]['ratio'], 'unmatched ground truths', cm=cm.tolist())
        for j, q in enumerate(L):
            expect_close(float(ious[i, j]), e['CM']['confusion_matrix'][l][q]['iou'], 'IoU', cm=cm.tolist(), i=i, j=j)
    expect_close(float(acc), e['Accuracy'], 'accuracy', cm=cm.tolist())


@case('C17', weight=.7)
def seg_storage(rng, size, tmp):
    from valor_lite.semantic_segmentation import Evaluator
    data = gen(rng, size); L = labels_of(data)
    kw = {}
    if rng.random() < .5:
        kw = {'datums': pc.field('datum_uid').isin(sorted(d['uid'] for d in data if rng.random() < .5) or ['none'])}
    res = []
    for i in range(3):
        cfg = {'kind': 'memory', 'batch_size': 10_000} if i == 0 else cfgs(rng)
        ev, path, _ = build(rng, data, tmp, cfg=cfg)
        if path and rng.random() < .6:
            ev = Evaluator.load(path)
        out = {}
        for v in ev.compute_precision_recall_iou(**kw).values():
            out.update(keyed(v))
        i = ev.get_info(**kw)
        res.append((cfg, out, (i.number_of_datums, i.number_of_labels, i.number_of_pixels, i.number_of_groundtruth_pixels, i.number_of_prediction_pixels, i.number_of_rows)))
    for cfg, out, inf in res[1:]:
        d = same(res[0][1], out)
        expect(d is None, f'results differ between {res[0][0]} and {cfg}: {d}', data=desc(data))
        expect_eq(inf, res[0][2], f'info with {cfg}', data=desc(data))


@case('C18')
def seg_filter(rng, size, tmp):
    from valor_lite.exceptions import EmptyCacheError
    data = gen(rng, size, meta=True, repeat=False, overlap=rng.random() < .5); ev, path, _ = build(rng, data, tmp, meta=True); L = labels_of(data)
    de = ge = pe = None; dt = gt = pd = None
    if rng.random() < .6:
        v0 = rng.randint(0, 2); de, dt = pc.field('dt_m') == v0, lambda d: d['meta']['dt_m'] == v0
    if rng.random() < .6:
        if rng.random() < .5:
            l1 = rng.choice(L); ge, gt = pc.field('gt_label') == l1, lambda d, m: m['label'] == l1
        else:
            v1 = rng.randint(0, 2); ge, gt = pc.field('gt_m') == v1, lambda d, m: m['meta']['gt_m'] == v1
    if rng.random() < .6:
        if rng.random() < .5:
            l2 = rng.choice(L); pe, pd = pc.field('pd_label') == l2, lambda d, m: m['label'] == l2
        else:
            v2 = rng.randint(0, 2); pe, pd = pc.field('pd_m') == v2, lambda d, m: m['meta']['pd_m'] == v2
    if de is not None:
        check(ev.compute_precision_recall_iou(datums=de), pixels(data, L, dt), L, 'datum filter', data=desc(data))
    before = {}
    for v in ev.compute_precision_recall_iou().values():
        before.update(keyed(v))
    sel = [d for d in data if not dt or dt(d)]
    try:
        fe = ev.filter(datums=de, groundtruths=ge, predictions=pe, path=tmp.new('f') if path else None)
    except EmptyCacheError:
        expect(not sel, 'filter reported an empty cache although datums remain', data=desc(data))
        return
    n = pixels(data, L, dt, gt, pd)
    check(fe.compute_precision_recall_iou(), n, L, 'filtered evaluator', data=desc(data))
    check_info(fe.info, n, sel, L, 'info of the filtered evaluator')
    after = {}
    for v in ev.compute_precision_recall_iou().values():
        after.update(keyed(v))
    expect(same(before, after) is None, 'filtering changed the original')


@case('C21', weight=.5)
def seg_invalid(rng, size, tmp):
    from valor_lite.semantic_segmentation import Loader, Segmentation, Bitmask
    from valor_lite.exceptions import EmptyCacheError
    h, w = rng.randint(1, 4), rng.randint(1, 4)
    expect_raises(lambda: Bitmask(mask=np.ones((h, w), dtype=rng.choice([np.uint8, np.int64, np.float32])), label='a'), ValueError, 'mask of the wrong type')
    ok = Bitmask(mask=np.ones((h, w), bool), label='a')
    sh = rng.choice([(h + 1, w), (h, w + 1), (h * w,), (h, w, 1), (1, h, w)])
    bad = Bitmask(mask=np.ones(sh, bool), label='b')
    for side in ('groundtruths', 'predictions'):
        kw = {'groundtruths': [ok], 'predictions': [Bitmask(mask=np.ones((h, w), bool), label='a')]}
        kw[side] = kw[side] + [bad] if rng.random() < .5 else [bad]
        expect_raises(lambda: Segmentation(uid='x', shape=(h, w), **kw), ValueError, f'{side} mask of the wrong shape')
        kw[side] = [rng.choice([np.ones((h, w), bool), 'mask', None])]
        expect_raises(lambda: Segmentation(uid='x', shape=(h, w), **kw), ValueError, f'{side} that is not a Bitmask')
    expect_raises(lambda: Segmentation(uid='x', groundtruths=[], predictions=[], shape=rng.choice([(0, w), (h, 0), (h,), (h, w, 2), (), (-1, w), (h, -2)])), ValueError, 'invalid shape')
    f = rng.choice(['datum_uid', 'datum_id', 'gt_label', 'gt_label_id', 'pd_label', 'pd_label_id', 'count'])
    fields = [('ok', 'int64'), (f, 'string')]; rng.shuffle(fields)
    expect_raises(lambda: Loader.in_memory(metadata_fields=fields), ValueError, f'metadata field {f!r}')
    expect_raises(lambda: Loader.persistent(path=tmp.new(), metadata_fields=fields), ValueError, f'metadata field {f!r}')
    expect_raises(lambda: Loader.in_memory().finalize(), EmptyCacheError, 'empty cache')
    l, p = make_loader(Loader, {'kind': 'file', 'batch_size': 3, 'rows_per_file': 4}, tmp)
    expect_raises(lambda: l.finalize(), EmptyCacheError, 'empty file cache')
    expect_raises(lambda: Loader.persistent(path=p), Exception, 'existing cache directory')


@case('C22', weight=.7)
def seg_labels(rng, size, tmp):
    data = gen(rng, size + 1, n_labels=rng.randint(1, 6)); ev, _, _ = build(rng, data, tmp); L = labels_of(data)
    check(ev.compute_precision_recall_iou(), pixels(data, L), L, data=desc(data))


@case('C23', weight=.7)
def seg_info(rng, size, tmp):
    from valor_lite.semantic_segmentation import Evaluator
    data = gen(rng, size, meta=True, repeat=False, overlap=False); ev, path, _ = build(rng, data, tmp, meta=True); L = labels_of(data)
    v = rng.randint(0, 2); g, p = rng.choice(L), rng.choice(L)
    for e in [ev] + ([Evaluator.load(path)] if path else []):
        n = pixels(data, L)
        check_info(e.info, n, data, L)
        expect_eq([tuple(map(str, x)) for x in (e.info.metadata_fields or [])], META, 'metadata fields')
        sub = [d for d in data if d['meta']['dt_m'] == v]
        n2 = pixels(sub, L)
        i = e.get_info(datums=pc.field('dt_m') == v, groundtruths=pc.field('gt_label') == g, predictions=pc.field('pd_label') == p)
        expect_eq((i.number_of_datums, i.number_of_pixels, i.number_of_groundtruth_pixels, i.number_of_prediction_pixels),
                  (len(sub), sum(n2.values()), sum(x for (a, b), x in n2.items() if a == g), sum(x for (a, b), x in n2.items() if b == p)), 'info with filters', data=desc(data))
        check(e.compute_precision_recall_iou(), n, L, data=desc(data))


@case('C23', 'C17', 'C18', weight=.3)
def seg_fields(rng, size, tmp):
    from valor_lite.semantic_segmentation import Loader, Evaluator
    data = gen(rng, size)
    fields_after_load(Loader, Evaluator, lambda l: l.add_data([to_seg(d) for d in data]), rng, tmp)
