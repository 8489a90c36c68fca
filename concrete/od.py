"""Object detection: independent oracle over the user's own annotations, and cases."""
from fractions import Fraction as F
import json, warnings
import numpy as np
import pyarrow.compute as pc
from common import *

OD_META = [('dt_m', 'int64'), ('gt_m', 'int64'), ('pd_m', 'int64')]


# ---------------------------------------------------------------- data
def rect_iou(a, b):
    iw = max(0, min(a[1], b[1]) - max(a[0], b[0]))
    ih = max(0, min(a[3], b[3]) - max(a[2], b[2]))
    i = iw * ih
    u = (a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - i
    return F(i, u) if u > 0 else F(0)


SCORES = [0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 0.9, 1.0]


def gen(rng, size, meta=False, n_labels=None, max_ann=None, grid=6, nonempty=True, distinct=False, dup=False):
    nl = n_labels or rng.randint(1, 1 + min(size, 4))
    if grid == 6 and rng.random() < .15:
        grid = 400          # small overlaps and IoUs close to each other
    labels = names(rng, nl)
    rng.shuffle(labels)
    bases = []
    for _ in range(rng.randint(1, 3)):
        x0 = rng.randint(0, grid - 1); y0 = rng.randint(0, grid - 1)
        bases.append((x0, rng.randint(x0 + 1, grid), y0, rng.randint(y0 + 1, grid)))

    def geom():
        if grid > 50 and rng.random() < .2:     # a sliver of overlap with a base
            b = rng.choice(bases)
            if b[1] < grid and b[3] < grid:
                return (b[1] - 1, rng.randint(b[1] + 1, grid), rng.choice([b[3] - 1, b[2]]), rng.randint(b[3] + 1, grid))
        if rng.random() < .65:
            b = list(rng.choice(bases))
            for k in range(4):
                if rng.random() < .3:
                    b[k] += rng.choice([-1, 1])
            b = [min(max(v, 0), grid) for v in b]
            if b[0] < b[1] and b[2] < b[3]:
                return tuple(b)
        x0 = rng.randint(0, grid - 1); y0 = rng.randint(0, grid - 1)
        return (x0, rng.randint(x0 + 1, grid), y0, rng.randint(y0 + 1, grid))

    ma = max_ann or min(1 + size, 4)
    pool = SCORES if not distinct else None
    if not distinct:
        c = rng.random()
        if c < .15:             # scores close to each other
            e = rng.choice([1e-2, 1e-3, 1e-5, 1e-7])
            pool = [rng.choice([.3, .5]) + e * k for k in range(5)]
        elif c < .3:            # ties
            pool = [.5, .5, .5, .9]
    rng.pool = pool
    data = []
    reuse = rng.random() < .5
    for d in range(rng.randint(1, 1 + size)):
        gts = [{'uid': f'g{g}' if reuse else f'{d}g{g}', 'geom': geom(), 'label': rng.choice(labels),
                'meta': {'gt_m': rng.randint(0, 2)} if meta else None} for g in range(rng.randint(0, ma))]
        pds = []
        for q in range(rng.randint(0, ma)):
            k = 1 if rng.random() < .7 else rng.randint(1, nl)
            pds.append({'uid': f'p{q}' if reuse else f'{d}p{q}', 'geom': geom(), 'labels': rng.sample(labels, k),
                        'scores': [rng.choice(pool) if pool else round(rng.random(), 6) for _ in range(k)],
                        'meta': {'pd_m': rng.randint(0, 2)} if meta else None})
        data.append({'uid': f'd{d}', 'gts': gts, 'pds': pds, 'meta': {'dt_m': rng.randint(0, 2)} if meta else None})
    if nonempty and not any(x['gts'] or x['pds'] for x in data):
        return gen(rng, size, meta, n_labels, max_ann, grid, nonempty, distinct, dup)
    if dup and rng.random() < .4:
        # identifiers that repeat, even within a datum: the annotations are still distinct
        for d in data:
            for side, u in (('gts', 'g'), ('pds', 'p')):
                if rng.random() < .6:
                    for a in d[side]:
                        a['uid'] = f'{u}{rng.randint(0, 1)}'
    return data


def label_order(data):
    """labels in the set of all annotations"""
    out = []
    for d in data:
        for g in d['gts']:
            out.append(g['label'])
        for p in d['pds']:
            out += p['labels']
    return sorted(set(out))


def to_detections(data, kind, grid=6):
    from valor_lite.object_detection import Detection, BoundingBox, Polygon, Bitmask
    import shapely.geometry as sg

    def mk(a, labels, scores):
        x0, x1, y0, y1 = a['geom']
        kw = dict(uid=a['uid'], labels=labels, scores=scores, metadata=a['meta'])
        if kind == 'bbox':
            return BoundingBox(xmin=x0, xmax=x1, ymin=y0, ymax=y1, **kw)
        if kind == 'polygon':
            return Polygon(shape=sg.Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]), **kw)
        m = np.zeros((grid + 2, grid + 3), dtype=bool)
        m[y0:y1, x0:x1] = True
        return Bitmask(mask=m, **kw)
    return [Detection(uid=d['uid'], metadata=d['meta'],
                      groundtruths=[mk(g, [g['label']], []) for g in d['gts']],
                      predictions=[mk(p, list(p['labels']), list(p['scores'])) for p in d['pds']]) for d in data]


ADD = {'bbox': 'add_bounding_boxes', 'polygon': 'add_polygons', 'bitmask': 'add_bitmasks'}


def build(rng, data, tmp, cfg=None, kind=None, meta=False, fin=None, parts=None, late=0):
    from valor_lite.object_detection import Loader
    cfg = cfg or cfgs(rng)
    kind = kind or rng.choice(['bbox', 'bbox', 'polygon', 'bitmask'])
    if kind == 'bitmask' and max([v for d in data for a in d['gts'] + d['pds'] for v in a['geom']], default=0) > 6:
        kind = 'polygon'
    dets = to_detections(data, kind)
    loader, path = make_loader(Loader, cfg, tmp, OD_META if meta else None)
    if late:
        continue_from(loader, late, '_datum_count', '_groundtruth_count', '_prediction_count')
    for chunk in (parts(dets) if parts else partition(rng, dets)):
        getattr(loader, ADD[kind])(chunk)
    ev = loader.finalize(batch_size=fin or rng.choice([1, 2, 3, 1000]))
    return ev, path, cfg


# ---------------------------------------------------------------- oracle
def ranking(data):
    """scored labels of every prediction in ranked order: dicts with datum, pd, label, score, gt (index or None), iou"""
    rows = []
    for di, d in enumerate(data):
        for pi, p in enumerate(d['pds']):
            ov = [(rect_iou(g['geom'], p['geom']), gi) for gi, g in enumerate(d['gts'])]
            ov = [(i, gi) for i, gi in ov if i > 0]
            matching = {d['gts'][gi]['label'] for _, gi in ov}
            scored = [k for k, l in enumerate(p['labels']) if l in matching] or list(range(len(p['labels'])))
            for k in scored:
                l = p['labels'][k]
                same_l = [(i, gi) for i, gi in ov if d['gts'][gi]['label'] == l]
                best = max(same_l, key=lambda x: (x[0], -x[1])) if same_l else None
                anyb = best or (max(ov, key=lambda x: (x[0], -x[1])) if ov else (F(0), None))
                rows.append({'d': di, 'p': pi, 'label': l, 'score': p['scores'][k], 'iou': anyb[0], 'gt': best[1] if best else None})
    rows.sort(key=lambda r: (-r['score'], -r['iou'], r['d'], r['p']))
    return rows


def gt_counts(data, labels):
    n = {l: 0 for l in labels}
    for d in data:
        for g in d['gts']:
            n[g['label']] += 1
    return n


def tp_flags(rows, t):
    """true positive flag of every ranked row at IoU threshold t (score > 0 only)"""
    claimed = set()
    out = []
    for r in rows:
        ok = r['gt'] is not None and float(r['iou']) >= t and r['score'] > EPS and (r['d'], r['gt']) not in claimed
        if ok:
            claimed.add((r['d'], r['gt']))
        out.append(ok)
    return out


EPS = 1e-9


def oracle_counts(data, labels, ious, scores):
    rows = ranking(data)
    ng = gt_counts(data, labels)
    out = {}
    for t in ious:
        fl = tp_flags(rows, t)
        for s in scores:
            for l in labels:
                tp = sum(f and r['label'] == l and r['score'] >= s for r, f in zip(rows, fl))
                n = sum(r['label'] == l and r['score'] >= s and r['score'] > EPS for r in rows)
                out[(l, t, s)] = (tp, n - tp, ng[l] - tp)
    return out


def oracle_curves(data, labels, ious):
    rows = ranking(data)
    ng = gt_counts(data, labels)
    out = {}
    for t in ious:
        fl = tp_flags(rows, t)
        for l in labels:
            prec = [0.0] * 101
            sc = [0.0] * 101
            k = tp = 0
            for r, f in zip(rows, fl):
                if r['label'] != l:
                    continue
                k += 1
                sc[0] = max(sc[0], r['score'])
                if f:
                    tp += 1
                    b = 100 * tp // ng[l]
                    for x in range(b + 1):
                        prec[x] = max(prec[x], tp / k)
                        sc[x] = max(sc[x], r['score'])
            out[(l, t)] = (prec, sc)
    return out


def greedy(d):
    """kept one-to-one pairs (gt index, pd index) of a datum"""
    rows = []
    for gi, g in enumerate(d['gts']):
        for pi, p in enumerate(d['pds']):
            i = rect_iou(g['geom'], p['geom'])
            if i > 0:
                for k, l in enumerate(p['labels']):
                    rows.append((-p['scores'][k], -i, gi, pi, k))
    rows.sort()
    ug, up, kept = set(), set(), []
    for _, i, gi, pi, _k in rows:
        if gi not in ug and pi not in up:
            kept.append((gi, pi, -i)); ug.add(gi); up.add(pi)
    return kept


def classify(d, t, s):
    """(matched [(gi, pi, pd label)], unmatched gts [gi], unmatched prediction labels [(pi, label)])"""
    m = []
    for gi, pi, i in greedy(d):
        if float(i) >= t:
            p = d['pds'][pi]
            m += [(gi, pi, l) for l, x in zip(p['labels'], p['scores']) if x > EPS and x >= s]
    mg = {x[0] for x in m}; mp = {x[1] for x in m}
    ug = [gi for gi in range(len(d['gts'])) if gi not in mg]
    upd = [(pi, l) for pi, p in enumerate(d['pds']) if pi not in mp for l, x in zip(p['labels'], p['scores']) if x > EPS and x >= s]
    return m, ug, upd


def oracle_cm(data, labels, t, s):
    cm = {a: {b: 0 for b in labels} for a in labels}
    ug = {a: 0 for a in labels}; up = {a: 0 for a in labels}
    for d in data:
        m, g, p = classify(d, t, s)
        for gi, pi, l in m:
            cm[d['gts'][gi]['label']][l] += 1
        for gi in g:
            ug[d['gts'][gi]['label']] += 1
        for pi, l in p:
            up[l] += 1
    return cm, ug, up


def thresholds(rng, data, k=3):
    """IoU thresholds in (0, 1], some exactly at an IoU of the data, unordered, possibly repeated"""
    vals = sorted({float(rect_iou(g['geom'], p['geom'])) for d in data for g in d['gts'] for p in d['pds']} - {0.0})
    out = []
    for _ in range(rng.randint(1, k)):
        c = rng.random()
        if vals and c < .5:
            v = rng.choice(vals)
            if rng.random() < .3:
                v = min(1.0, v + 1e-7)
            out.append(v)
        elif c < .7:
            out.append(1.0)
        else:
            out.append(rng.choice([0.05, 0.1, 0.25, 0.5, 0.75, 0.95]))
    if rng.random() < .15:
        out.append(out[0])
    return out


def sthresholds(rng, k=3):
    out = [rng.choice([0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1.0]) for _ in range(rng.randint(1, k))]
    if getattr(rng, 'pool', None) and rng.random() < .3:
        out[rng.randrange(len(out))] = rng.choice(rng.pool)
    return out


# ---------------------------------------------------------------- checks of one result against the oracle
def check_counts(res, data, labels, ious, scores, what='Counts'):
    want = oracle_counts(data, labels, ious, scores)
    seen = 0
    for m in res['Counts']:
        pr = m.parameters
        k = (pr['label'], pr['iou_threshold'], pr['score_threshold'])
        expect(k in want, f'{what}: unexpected entry', key=k)
        expect_eq((m.value['tp'], m.value['fp'], m.value['fn']), want[k], f'{what} (tp, fp, fn) at (label, iou, score) {k}', data=data)
        seen += 1
    expect_eq(seen, len(labels) * len(ious) * len(scores), f'{what}: number of entries')


def check_pr(res, labels, ious, scores):
    """precision/recall/F1/AR from the reported counts"""
    cnt = {}
    for m in res['Counts']:
        p = m.parameters
        cnt[(p['label'], p['iou_threshold'], p['score_threshold'])] = m.value
    rec = {}
    for name in ('Precision', 'Recall', 'F1'):
        expect_eq(len(res[name]), len(labels) * len(ious) * len(scores), f'{name}: number of entries')
        for m in res[name]:
            p = m.parameters
            k = (p['label'], p['iou_threshold'], p['score_threshold'])
            c = cnt[k]
            tp, fp, fn = c['tp'], c['fp'], c['fn']
            pr = tp / (tp + fp) if tp + fp else 0.0
            rc = tp / (tp + fn) if tp + fn else 0.0
            f1 = 2 * pr * rc / (pr + rc) if pr + rc else 0.0
            rec[k] = rc
            expect_close(m.value, {'Precision': pr, 'Recall': rc, 'F1': f1}[name], f'{name} at {k}', counts=c)
            expect(0 <= m.value <= 1, f'{name} outside [0, 1]', value=m.value)
    ar = {}
    expect_eq(len(res['AR']), len(labels) * len(scores), 'AR: number of entries')
    for m in res['AR']:
        p = m.parameters
        expect_eq(list(p['iou_thresholds']), list(ious), 'AR iou_thresholds')
        v = sum(rec[(p['label'], t, p['score_threshold'])] for t in ious) / len(ious)
        ar[(p['label'], p['score_threshold'])] = v
        expect_close(m.value, v, f'AR at {p}')
    mar = {}
    for m in res['mAR']:
        p = m.parameters
        v = sum(ar[(l, p['score_threshold'])] for l in labels) / len(labels)
        mar[p['score_threshold']] = v
        expect_close(m.value, v, f'mAR at {p}')
    expect_eq(len(res['mAR']), len(scores), 'mAR: number of entries')
    expect_eq(sorted(m.parameters['label'] for m in res['ARAveragedOverScores']), sorted(labels), 'ARAveragedOverScores labels')
    for m in res['ARAveragedOverScores']:
        l = m.parameters['label']
        expect_close(m.value, sum(ar[(l, s)] for s in scores) / len(scores), f'ARAveragedOverScores of {l}')
    expect_eq(len(res['mARAveragedOverScores']), 1, 'mARAveragedOverScores entries')
    expect_close(res['mARAveragedOverScores'][0].value, sum(mar[s] for s in scores) / len(scores), 'mARAveragedOverScores')


def check_ap(res, data, labels, ious):
    cur = oracle_curves(data, labels, ious)
    ap = {}
    expect_eq(len(res['PrecisionRecallCurve']), len(labels) * len(ious), 'PrecisionRecallCurve entries')
    for m in res['PrecisionRecallCurve']:
        p = m.parameters
        k = (p['label'], p['iou_threshold'])
        wp, ws = cur[k]
        d = same(list(m.value['precisions']), wp)
        expect(d is None, f'precision curve at {k}: {d}', data=data)
        d = same(list(m.value['scores']), ws)
        expect(d is None, f'score curve at {k}: {d}', data=data)
    expect_eq(len(res['AP']), len(labels) * len(ious), 'AP entries')
    for m in res['AP']:
        p = m.parameters
        k = (p['label'], p['iou_threshold'])
        v = sum(cur[k][0]) / 101
        ap[k] = v
        expect_close(m.value, v, f'AP at {k}', data=data)
    mapv = {}
    for m in res['mAP']:
        t = m.parameters['iou_threshold']
        mapv[t] = sum(ap[(l, t)] for l in labels) / len(labels)
        expect_close(m.value, mapv[t], f'mAP at {t}')
    expect_eq(len(res['mAP']), len(ious), 'mAP entries')
    for m in res['APAveragedOverIOUs']:
        l = m.parameters['label']
        expect_close(m.value, sum(ap[(l, t)] for t in ious) / len(ious), f'APAveragedOverIOUs of {l}')
    expect_eq(sorted(m.parameters['label'] for m in res['APAveragedOverIOUs']), sorted(labels), 'APAveragedOverIOUs labels')
    expect_close(res['mAPAveragedOverIOUs'][0].value, sum(mapv[t] for t in ious) / len(ious), 'mAPAveragedOverIOUs')


def check_cm(ms, data, labels, ious, scores):
    expect_eq([(m.parameters['iou_threshold'], m.parameters['score_threshold']) for m in ms],
              [(t, s) for t in ious for s in scores], 'confusion matrix thresholds')
    for m in ms:
        t, s = m.parameters['iou_threshold'], m.parameters['score_threshold']
        cm, ug, up = oracle_cm(data, labels, t, s)
        expect_eq(m.value['confusion_matrix'], cm, f'confusion matrix at iou {t} score {s}', data=data)
        expect_eq(m.value['unmatched_ground_truths'], ug, f'unmatched ground truths at iou {t} score {s}', data=data)
        expect_eq(m.value['unmatched_predictions'], up, f'unmatched predictions at iou {t} score {s}', data=data)


def check_cm_examples(ms, data, labels, ious, scores):
    expect_eq([(m.parameters['iou_threshold'], m.parameters['score_threshold']) for m in ms],
              [(t, s) for t in ious for s in scores], 'confusion matrix thresholds')
    js = lambda x: sorted(json.dumps(v, sort_keys=True) for v in x)
    for m in ms:
        t, s = m.parameters['iou_threshold'], m.parameters['score_threshold']
        cm = {a: {b: [] for b in labels} for a in labels}
        ug = {a: [] for a in labels}; up = {a: [] for a in labels}
        for d in data:
            mt, g, p = classify(d, t, s)
            for gi, pi, l in mt:
                cm[d['gts'][gi]['label']][l].append({'datum_id': d['uid'], 'ground_truth_id': d['gts'][gi]['uid'], 'prediction_id': d['pds'][pi]['uid']})
            for gi in g:
                ug[d['gts'][gi]['label']].append({'datum_id': d['uid'], 'ground_truth_id': d['gts'][gi]['uid']})
            for pi, l in p:
                up[l].append({'datum_id': d['uid'], 'prediction_id': d['pds'][pi]['uid']})
        v = m.value
        expect_eq(set(v['confusion_matrix']), set(labels), 'labels of the matrix')
        for a in labels:
            for b in labels:
                c = v['confusion_matrix'][a][b]
                expect_eq(js(c['examples']), js(cm[a][b]), f'examples of cell {a},{b} at iou {t} score {s}', data=data)
                expect_eq(c['count'], len(cm[a][b]), f'count of cell {a},{b}')
            for nm, w in (('unmatched_ground_truths', ug), ('unmatched_predictions', up)):
                expect_eq(js(v[nm][a]['examples']), js(w[a]), f'{nm} examples of {a} at iou {t} score {s}', data=data)
                expect_eq(v[nm][a]['count'], len(w[a]), f'{nm} count of {a}')


def want_examples(d, t, s):
    m, ug, up = classify(d, t, s)
    tp = [(d['gts'][gi]['uid'], d['pds'][pi]['uid']) for gi, pi, l in m if d['gts'][gi]['label'] == l]
    mis = [(gi, pi, l) for gi, pi, l in m if d['gts'][gi]['label'] != l]
    fp = [d['pds'][pi]['uid'] for pi, l in {(pi, l) for _, pi, l in mis} | set(up)]
    fn = [d['gts'][gi]['uid'] for gi in {gi for gi, _, _ in mis} | set(ug)]
    return sorted(tp), sorted(fp), sorted(fn)


def check_examples(ms, data, ious, scores):
    want = {}
    for d in data:
        if d['gts'] or d['pds']:
            for t in ious:
                for s in scores:
                    want.setdefault((d['uid'], t, s), []).append(want_examples(d, t, s))
    got = {}
    for m in ms:
        v = m.value
        got.setdefault((v['datum_id'], m.parameters['iou_threshold'], m.parameters['score_threshold']), []).append(
            (sorted(tuple(x) for x in v['true_positives']), sorted(v['false_positives']), sorted(v['false_negatives'])))
    expect_eq({k: len(x) for k, x in got.items()}, {k: len(x) for k, x in want.items()}, 'examples: one entry per datum and thresholds')
    for k in want:
        expect_eq(sorted(got[k]), sorted(want[k]), f'examples (tp, fp, fn) at {k}', data=data)


# ---------------------------------------------------------------- cases
def _setup(rng, size, tmp, meta=False, **kw):
    data = gen(rng, size, meta=meta, **kw)
    ev, path, cfg = build(rng, data, tmp, meta=meta)
    return data, label_order(data), ev, path, cfg


@case('C02', 'C01')
def counts(rng, size, tmp):
    data, labels, ev, _, cfg = _setup(rng, size, tmp)
    ious, scores = thresholds(rng, data), sthresholds(rng)
    check_counts(ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)


@case('C02', 'C04', 'C05')
def dense(rng, size, tmp):
    """few labels, many annotations on one datum: contended ground truths"""
    data = gen(rng, size, n_labels=rng.randint(1, 2), max_ann=3 + size, grid=rng.choice([3, 4]))
    ev, _, _ = build(rng, data, tmp)
    labels = label_order(data)
    ious, scores = thresholds(rng, data), sthresholds(rng)
    r = ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores)
    check_counts(r, data, labels, ious, scores)
    check_ap(r, data, labels, ious)
    check_cm(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)


@case('C02')
def count_identities(rng, size, tmp):
    """TP + FN is the number of ground truths; result at a threshold is independent of the others"""
    data, labels, ev, _, _ = _setup(rng, size, tmp)
    ious, scores = thresholds(rng, data), sthresholds(rng)
    ng = gt_counts(data, labels)
    r = ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores)
    for m in r['Counts']:
        expect_eq(m.value['tp'] + m.value['fn'], ng[m.parameters['label']], f'TP + FN at {m.parameters}', data=data)
    t, s = rng.choice(ious), rng.choice(scores)
    r1 = ev.compute_precision_recall(iou_thresholds=[t], score_thresholds=[s])
    for m in r1['Counts']:
        o = [x for x in r['Counts'] if x.parameters == m.parameters]
        expect(all(x.value == m.value for x in o), 'counts depend on the other thresholds', params=m.parameters)


@case('C02', 'C05', 'C08', weight=.2)
def many_labels(rng, size, tmp):
    """label ids far apart must not be conflated"""
    from valor_lite.object_detection import Loader, Detection, BoundingBox
    n = rng.choice([300, 700])
    loader = Loader.in_memory()
    k = rng.randint(1, 3)
    gts = [BoundingBox(uid=f'g{i}', xmin=3 * i, xmax=3 * i + 2, ymin=0, ymax=2, labels=[f'L{i}']) for i in range(n)]
    pds = [BoundingBox(uid=f'p{i}', xmin=3 * i, xmax=3 * i + 2, ymin=0, ymax=2, labels=[f'L{(i + (k if i % 2 else 0)) % n}'], scores=[.5]) for i in range(n)]
    # spread over small datums to keep the pair matrix small
    step = 25
    loader.add_bounding_boxes([Detection(uid=str(i), groundtruths=gts[i:i + step], predictions=pds[i:i + step]) for i in range(0, n, step)])
    ev = loader.finalize()
    r = ev.compute_precision_recall(iou_thresholds=[.5], score_thresholds=[.5])
    tp = sum(m.value['tp'] for m in r['Counts']); fp = sum(m.value['fp'] for m in r['Counts'])
    expect_eq((tp, fp), (n - n // 2, n // 2), 'tp/fp totals with many labels')
    cm = ev.compute_confusion_matrix(iou_thresholds=[.5], score_thresholds=[.5])[0].value['confusion_matrix']
    expect_eq(sum(cm[f'L{i}'][f'L{(i + (k if i % 2 else 0)) % n}'] for i in range(n)), n, 'cells with many labels')


@case('C03')
def pr_formulas(rng, size, tmp):
    data, labels, ev, _, _ = _setup(rng, size, tmp)
    ious, scores = thresholds(rng, data), sthresholds(rng)
    check_pr(ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores), labels, ious, scores)


@case('C03', weight=.15)
def pr_sparse(rng, size, tmp):
    """few matches among many annotations: small values are not flushed to zero"""
    n = rng.choice([120, 250, 400])
    hits = set(rng.sample(range(n), rng.randint(0, 2)))
    extra = rng.randint(0, 2)
    g = lambda i: {'uid': 'g', 'geom': (0, 2, 0, 2), 'label': 'a', 'meta': None}
    b = lambda j, hit: {'uid': f'p{j}', 'geom': (0, 2, 0, 2) if hit else (3 + j, 4 + j, 3, 4), 'labels': ['a'], 'scores': [rng.choice([.3, .6])], 'meta': None}
    data = [{'uid': f'd{i}', 'meta': None, 'gts': [g(i)], 'pds': [b(0, i in hits)] + [b(j + 1, False) for j in range(extra)]} for i in range(n)]
    ev, _, _ = build(rng, data, tmp, cfg={'kind': 'memory', 'batch_size': 10_000}, kind='bbox', parts=lambda x: [x], fin=1000)
    r = ev.compute_precision_recall(iou_thresholds=[.5, .7], score_thresholds=[.2, .5])
    check_counts(r, data, ['a'], [.5, .7], [.2, .5])
    check_pr(r, ['a'], [.5, .7], [.2, .5])


@case('C04')
def ap(rng, size, tmp):
    data, labels, ev, _, _ = _setup(rng, size + 2, tmp, n_labels=rng.randint(1, 3))
    ious = thresholds(rng, data)
    check_ap(ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=[.5]), data, labels, ious)


@case('C04', weight=.3)
def ap_recall_points(rng, size, tmp):
    """n ground truths, one perfect ranking prefix: the recall bins are exact"""
    n = rng.choice([3, 7, 25, 29, 50, 57, 100, 100, 130, 250])
    k = rng.randint(1, n)
    bad = set(rng.sample(range(k), rng.randint(0, min(rng.choice([3, 3, 40]), k - 1))))
    data = [{'uid': f'd{i}', 'meta': None, 'gts': [{'uid': 'g', 'geom': (0, 2, 0, 2), 'label': 'a', 'meta': None}],
             'pds': [{'uid': 'p', 'geom': (0, 2, 0, 2) if i not in bad else (3, 4, 3, 4), 'labels': ['a'], 'scores': [round(1 - i / 300, 6)], 'meta': None}] if i < k else []}
            for i in range(n)]
    ev, _, _ = build(rng, data, tmp)
    check_ap(ev.compute_precision_recall(iou_thresholds=[.5], score_thresholds=[.5]), data, ['a'], [.5])


@case('C05')
def cm(rng, size, tmp):
    data, labels, ev, _, _ = _setup(rng, size, tmp)
    ious, scores = thresholds(rng, data), sthresholds(rng)
    check_cm(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)


@case('C05')
def cm_threshold_independence(rng, size, tmp):
    data, labels, ev, _, _ = _setup(rng, size, tmp)
    ious, scores = thresholds(rng, data), sthresholds(rng)
    ms = ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores)
    i = rng.randrange(len(ms))
    p = ms[i].parameters
    m1 = ev.compute_confusion_matrix(iou_thresholds=[p['iou_threshold']], score_thresholds=[p['score_threshold']])[0]
    d = same(canon(ms[i]), canon(m1))
    expect(d is None, f'confusion matrix depends on the other thresholds: {d}', ious=ious, scores=scores, data=data)


@case('C06')
def cm_examples(rng, size, tmp):
    data, labels, ev, _, _ = _setup(rng, size, tmp)
    ious, scores = thresholds(rng, data, 2), sthresholds(rng, 2)
    check_cm_examples(ev.compute_confusion_matrix_with_examples(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)


@case('C06')
def examples(rng, size, tmp):
    data, labels, ev, _, _ = _setup(rng, size, tmp)
    ious, scores = thresholds(rng, data, 2), sthresholds(rng, 2)
    check_examples(ev.compute_examples(iou_thresholds=ious, score_thresholds=scores), data, ious, scores)


@case('C02', 'C05', 'C06', weight=.2)
def late_annotations(rng, size, tmp):
    """annotations added after many others, whose internal ids are large"""
    data = gen(rng, size)
    ev, _, _ = build(rng, data, tmp, late=rng.choice([120, 250, 32760, 65530]))
    labels, ious, scores = label_order(data), thresholds(rng, data, 2), sthresholds(rng, 2)
    check_counts(ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)
    check_cm(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)
    check_cm_examples(ev.compute_confusion_matrix_with_examples(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)
    check_examples(ev.compute_examples(iou_thresholds=ious, score_thresholds=scores), data, ious, scores)


@case('C07')
def ingestion(rng, size, tmp):
    """all annotations present, with their own labels, ids, scores and metadata"""
    data, labels, ev, path, cfg = _setup(rng, size, tmp, meta=True, dup=True)
    info = ev.info
    expect_eq(info.number_of_groundtruth_annotations, sum(len(d['gts']) for d in data), 'ground truths ingested', data=data)
    expect_eq(info.number_of_prediction_annotations, sum(len(d['pds']) for d in data), 'predictions ingested', data=data)
    expect_eq(info.number_of_labels, len(labels), 'labels ingested')
    # every annotation appears by name: unreachable thresholds make everything unmatched
    m = ev.compute_confusion_matrix_with_examples(iou_thresholds=[1.5], score_thresholds=[0.0])[0].value
    for l in labels:
        want = sorted((d['uid'], g['uid']) for d in data for g in d['gts'] if g['label'] == l)
        got = sorted((e['datum_id'], e['ground_truth_id']) for e in m['unmatched_ground_truths'][l]['examples'])
        expect_eq(got, want, f'ground truths of {l}', data=data)
        want = sorted((d['uid'], p['uid']) for d in data for p in d['pds'] for x, s in zip(p['labels'], p['scores']) if x == l and s > EPS)
        got = sorted((e['datum_id'], e['prediction_id']) for e in m['unmatched_predictions'][l]['examples'])
        expect_eq(got, want, f'predictions of {l}', data=data)
    # metadata
    for f, who in (('dt_m', None), ('gt_m', 'gts'), ('pd_m', 'pds')):
        for v in range(3):
            e = pc.field(f) == v
            if f == 'dt_m':
                expect_eq(ev.get_info(datums=e).number_of_datums, sum((d['meta'][f] == v) and bool(d['gts'] or d['pds']) for d in data), f'datums with {f}={v}', data=data)
            elif f == 'gt_m':
                expect_eq(ev.get_info(groundtruths=e).number_of_groundtruth_annotations, sum(g['meta'][f] == v for d in data for g in d['gts']), f'ground truths with {f}={v}', data=data)
            else:
                expect_eq(ev.get_info(predictions=e).number_of_prediction_annotations, sum(p['meta'][f] == v for d in data for p in d['pds']), f'predictions with {f}={v}', data=data)
    # scores survive: threshold at every score
    for s in sorted({x for d in data for p in d['pds'] for x in p['scores'] if x > 0})[:3]:
        mm = ev.compute_confusion_matrix(iou_thresholds=[1.5], score_thresholds=[s])[0].value['unmatched_predictions']
        for l in labels:
            expect_eq(mm[l], sum(x >= s for d in data for p in d['pds'] for y, x in zip(p['labels'], p['scores']) if y == l), f'predictions of {l} with score >= {s}', data=data)


@case('C07')
def ingestion_matching(rng, size, tmp):
    """annotations only interact within their datum, whatever the ids"""
    data, labels, ev, _, _ = _setup(rng, size, tmp, dup=True)
    check_cm_examples(ev.compute_confusion_matrix_with_examples(iou_thresholds=[.1], score_thresholds=[.1]), data, labels, [.1], [.1])
    check_counts(ev.compute_precision_recall(iou_thresholds=[.1], score_thresholds=[.1]), data, labels, [.1], [.1])


@case('C07', 'C21', weight=.3)
def metadata_clash(rng, size, tmp):
    from valor_lite.object_detection import Loader
    f = rng.choice(['datum_uid', 'datum_id', 'gt_uid', 'gt_id', 'gt_label', 'gt_label_id', 'pd_uid', 'pd_id', 'pd_label', 'pd_label_id', 'pd_score', 'iou', 'iou_prev'])
    fields = [('ok', 'int64'), (f, 'string')]
    rng.shuffle(fields)
    expect_raises(lambda: Loader.in_memory(metadata_fields=fields), ValueError, f'metadata field {f!r}')
    p = tmp.new()
    expect_raises(lambda: Loader.persistent(path=p, metadata_fields=fields), ValueError, f'metadata field {f!r}')


@case('C07', weight=.5)
def metadata_cannot_override(rng, size, tmp):
    """undeclared metadata named like a built-in field never replaces it"""
    data = gen(rng, size)
    bad = {'datum_uid': 'EVIL', 'gt_uid': 'EVIL', 'pd_uid': 'EVIL', 'gt_label': 'EVIL', 'pd_label': 'EVIL', 'pd_score': .123, 'iou': .77,
           'datum_id': 99, 'gt_id': 99, 'pd_id': 99, 'gt_label_id': 0, 'pd_label_id': 0}
    for d in data:
        if rng.random() < .5:
            d['meta'] = dict(bad)
        for a in d['gts'] + d['pds']:
            if rng.random() < .5:
                a['meta'] = dict(bad)
    ev, _, _ = build(rng, data, tmp)
    labels = label_order(data)
    check_cm_examples(ev.compute_confusion_matrix_with_examples(iou_thresholds=[.3], score_thresholds=[.1]), data, labels, [.3], [.1])


@case('C17')
def od_storage(rng, size, tmp):
    from valor_lite.object_detection import Evaluator
    data = gen(rng, size + 1)
    ious, scores = thresholds(rng, data, 2), sthresholds(rng, 2)
    kind = rng.choice(['bbox', 'polygon', 'bitmask'])
    kw = {}
    if rng.random() < .5:
        ids = sorted(d['uid'] for d in data if rng.random() < .5)
        kw = {'datums': pc.field('datum_uid').isin(ids) if ids else pc.field('datum_uid') == 'none'}
    res = []
    base = {'kind': 'memory', 'batch_size': 10_000}
    for i in range(3):
        cfg = base if i == 0 else cfgs(rng)
        ev, path, _ = build(rng, data, tmp, cfg=cfg, kind=kind, fin=1000 if i == 0 else None)
        if path and rng.random() < .6:
            ev = Evaluator.load(path)
        r = {**ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores, **kw)}
        out = {}
        for k, v in r.items():
            out.update(keyed(v))
        out.update(keyed(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores, **kw)))
        exs = sorted(json.dumps(canon(m), sort_keys=True) for m in ev.compute_examples(iou_thresholds=ious, score_thresholds=scores, **kw))
        for k, v in keyed(ev.compute_confusion_matrix_with_examples(iou_thresholds=ious, score_thresholds=scores, **kw)).items():
            out['cme' + k] = order_free(v)
        inf = ev.get_info(**kw)
        res.append((cfg, out, exs, (inf.number_of_datums, inf.number_of_groundtruth_annotations, inf.number_of_prediction_annotations, inf.number_of_labels, inf.number_of_rows)))
    for cfg, out, exs, inf in res[1:]:
        d = same(res[0][1], out)
        expect(d is None, f'results differ between {res[0][0]} and {cfg}: {d}', data=data, ious=ious, scores=scores)
        d = same([json.loads(x) for x in res[0][2]], [json.loads(x) for x in exs])
        expect(d is None, f'examples differ between {res[0][0]} and {cfg}: {d}', data=data)
        expect_eq(inf, res[0][3], f'info with {cfg}')


def sub_od(data, dt=None, gt=None, pd=None):
    """what remains after filtering; gt(datum, g) and pd(datum, p, label, score)"""
    out = []
    for d in data:
        if dt and not dt(d):
            continue
        out.append({**d, 'gts': [g for g in d['gts'] if gt is None or gt(d, g)], 'pds': []})
        for p in d['pds']:
            keep = [k for k, (l, s) in enumerate(zip(p['labels'], p['scores'])) if pd is None or pd(d, p, l, s)]
            if keep:
                out[-1]['pds'].append({**p, 'labels': [p['labels'][k] for k in keep], 'scores': [p['scores'][k] for k in keep]})
    return out


def rand_filters(rng, data, labels):
    dt = gt = pd = None
    de = ge = pe = None
    c = rng.random()
    if c < .5:
        k = rng.random()
        if k < .5:
            ids = {d['uid'] for d in data if rng.random() < .6}
            de, dt = pc.field('datum_uid').isin(sorted(ids)) if ids else pc.field('datum_uid') == 'none', lambda d: d['uid'] in ids
        else:
            v = rng.randint(0, 2)
            de, dt = pc.field('dt_m') == v, lambda d, v=v: d['meta']['dt_m'] == v
    if rng.random() < .6:
        if rng.random() < .5:
            v = rng.randint(0, 2)
            ge, gt = pc.field('gt_m') == v, lambda d, g, v=v: g['meta']['gt_m'] == v
        else:
            l = rng.choice(labels)
            ge, gt = pc.field('gt_label') == l, lambda d, g, l=l: g['label'] == l
    if rng.random() < .6:
        k = rng.random()
        if k < .35:
            v = rng.randint(0, 2)
            pe, pd = pc.field('pd_m') == v, lambda d, p, l, s, v=v: p['meta']['pd_m'] == v
        elif k < .7:
            x = rng.choice(labels)
            pe, pd = pc.field('pd_label') == x, lambda d, p, l, s: l == x
        else:
            t = rng.choice([.1, .25, .5])
            pe, pd = pc.field('pd_score') >= t, lambda d, p, l, s: s >= t
    return (de, dt), (ge, gt), (pe, pd)


@case('C18')
def od_filter(rng, size, tmp):
    from valor_lite.exceptions import EmptyCacheError
    data, labels, ev, path, cfg = _setup(rng, size + 1, tmp, meta=True)
    (de, dt), (ge, gt), (pe, pd) = rand_filters(rng, data, labels)
    ious, scores = thresholds(rng, data, 2), sthresholds(rng, 2)
    before = keyed(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores))
    # datum filter passed to the metrics
    if de is not None:
        s = sub_od(data, dt)
        r = ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores, datums=de)
        check_counts(r, s, labels, ious, scores, 'Counts with datum filter')
        check_ap(r, s, labels, ious)
        check_cm(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores, datums=de), s, labels, ious, scores)
        check_examples(ev.compute_examples(iou_thresholds=ious, score_thresholds=scores, datums=de), s, ious, scores)
        check_cm_examples(ev.compute_confusion_matrix_with_examples(iou_thresholds=ious, score_thresholds=scores, datums=de), s, labels, ious, scores)
    s = sub_od(data, dt, gt, pd)
    empty = not any(d['gts'] or d['pds'] for d in s)
    try:
        fe = ev.filter(datums=de, groundtruths=ge, predictions=pe, path=tmp.new('f') if path else None)
    except EmptyCacheError:
        expect(empty, 'filter reported an empty cache although annotations remain', data=data)
        return
    r = fe.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores)
    check_counts(r, s, labels, ious, scores, 'Counts of the filtered evaluator')
    check_ap(r, s, labels, ious)
    check_cm(fe.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores), s, labels, ious, scores)
    check_examples(fe.compute_examples(iou_thresholds=ious, score_thresholds=scores), s, ious, scores)
    i = fe.info
    expect_eq((i.number_of_datums, i.number_of_groundtruth_annotations, i.number_of_prediction_annotations, i.number_of_labels),
              (sum(bool(d['gts'] or d['pds']) for d in s), sum(len(d['gts']) for d in s), sum(len(d['pds']) for d in s), len(labels)), 'info of the filtered evaluator', data=data)
    after = keyed(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores))
    expect(same(before, after) is None, 'filtering changed the original evaluator')


@case('C23')
def od_info(rng, size, tmp):
    from valor_lite.object_detection import Evaluator
    data, labels, ev, path, cfg = _setup(rng, size + 1, tmp, meta=True)
    (de, dt), (ge, gt), (pe, pd) = rand_filters(rng, data, labels)
    evs = [ev] + ([Evaluator.load(path)] if path else [])
    for e in evs:
        i = e.info
        expect_eq((i.number_of_datums, i.number_of_groundtruth_annotations, i.number_of_prediction_annotations, i.number_of_labels),
                  (sum(bool(d['gts'] or d['pds']) for d in data), sum(len(d['gts']) for d in data), sum(len(d['pds']) for d in data), len(labels)), 'info', data=data, cfg=cfg)
        expect_eq([tuple(map(str, x)) for x in (i.metadata_fields or [])], OD_META, 'metadata fields')
        rows = sum(max(1, sum(rect_iou(g['geom'], p['geom']) > 0 for p in d['pds'])) for d in data for g in d['gts'])
        sub = sub_od(data, dt)
        i = e.get_info(datums=de, groundtruths=ge, predictions=pe)
        ng = sum(1 for d in sub for g in d['gts'] if gt is None or gt(d, g))
        npd = sum(1 for d in sub for p in d['pds'] if pd is None or any(pd(d, p, l, s) for l, s in zip(p['labels'], p['scores'])))
        expect_eq((i.number_of_datums, i.number_of_groundtruth_annotations, i.number_of_prediction_annotations),
                  (sum(bool(d['gts'] or d['pds']) for d in sub), ng, npd), 'info with filters', data=data, cfg=cfg)
        # names recovered: every label reported
        m = e.compute_confusion_matrix(iou_thresholds=[.5], score_thresholds=[.5])[0].value
        expect_eq(sorted(m['unmatched_ground_truths']), labels, 'label names')
        # ... and attached to the right counts
        check_cm(e.compute_confusion_matrix(iou_thresholds=[.5], score_thresholds=[.1]), data, labels, [.5], [.1])


@case('C16')
def od_pages(rng, size, tmp):
    data, labels, ev, _, _ = _setup(rng, size + 2, tmp)
    n = sum(bool(d['gts'] or d['pds']) for d in data)
    ids = None
    de = None
    if rng.random() < .4:
        ids = {d['uid'] for d in data if rng.random() < .7}
        de = pc.field('datum_uid').isin(sorted(ids)) if ids else None
    al = [canon(m) for m in ev.compute_examples(iou_thresholds=[.3], score_thresholds=[.1], datums=de)]
    k = rng.randint(1, n + 1)
    got = []
    for off in range(0, n + k, k):
        page = [canon(m) for m in ev.compute_examples(iou_thresholds=[.3], score_thresholds=[.1], datums=de, limit=k, offset=off)]
        expect_eq(len(page), max(0, min(k, len(al) - off)), f'datums on page offset {off} limit {k}')
        got += page
    srt = lambda v: sorted(json.dumps(x, sort_keys=True) for x in v)
    expect_eq(srt(got), srt(al), f'union of the pages of {k}')


@case('C22')
def od_labels_thresholds(rng, size, tmp):
    """each entry equals the entry of a run with only its own thresholds"""
    data, labels, ev, _, _ = _setup(rng, size + 1, tmp, n_labels=rng.randint(1, 5))
    ious, scores = thresholds(rng, data, 3), sthresholds(rng, 3)
    r = ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=scores)
    want = {'Counts': (1, 1, 1), 'Precision': (1, 1, 1), 'Recall': (1, 1, 1), 'F1': (1, 1, 1), 'AP': (1, 1, 0), 'mAP': (0, 1, 0),
            'AR': (1, 0, 1), 'mAR': (0, 0, 1), 'PrecisionRecallCurve': (1, 1, 0), 'APAveragedOverIOUs': (1, 0, 0), 'mAPAveragedOverIOUs': (0, 0, 0),
            'ARAveragedOverScores': (1, 0, 0), 'mARAveragedOverScores': (0, 0, 0)}
    expect_eq({getattr(k, 'value', k) for k in r}, set(want), 'metric types')
    for name, (bl, bi, bs) in want.items():
        exp = sorted((json.dumps([l, t, s]) for l in (labels if bl else [None]) for t in (ious if bi else [None]) for s in (scores if bs else [None])))
        got = []
        for m in r[name]:
            p = m.parameters
            expect_eq(getattr(m.type, 'value', m.type), name, 'metric type')
            expect_eq('label' in p, bool(bl), f'{name} label parameter'); expect_eq('iou_threshold' in p, bool(bi), f'{name} iou_threshold'); expect_eq('score_threshold' in p, bool(bs), f'{name} score_threshold')
            got.append(json.dumps([p.get('label'), p.get('iou_threshold'), p.get('score_threshold')]))
            if name in ('AR', 'mAR', 'APAveragedOverIOUs', 'mAPAveragedOverIOUs', 'ARAveragedOverScores', 'mARAveragedOverScores'):
                expect_eq(list(p['iou_thresholds']), ious, f'{name} iou_thresholds')
            if 'OverScores' in name:
                expect_eq(list(p['score_thresholds']), scores, f'{name} score_thresholds')
        expect_eq(sorted(got), exp, f'{name}: entries')
    t, s = rng.choice(ious), rng.choice(scores)
    r1 = ev.compute_precision_recall(iou_thresholds=[t], score_thresholds=[s])
    for name in ('Counts', 'Precision', 'Recall', 'F1', 'AP', 'mAP', 'PrecisionRecallCurve'):
        for m in r1[name]:
            for o in r[name]:
                if o.parameters == m.parameters:
                    d = same(canon(o.value), canon(m.value))
                    expect(d is None, f'{name} entry {m.parameters} differs from a run with only its thresholds: {d}', data=data)
    check_counts(r, data, labels, ious, scores)
    check_pr(r, labels, ious, scores)
    check_ap(r, data, labels, ious)
    check_cm(ev.compute_confusion_matrix(iou_thresholds=ious, score_thresholds=scores), data, labels, ious, scores)


@case('C21')
def od_invalid(rng, size, tmp):
    from valor_lite.object_detection import Loader, Detection, BoundingBox, Polygon, Bitmask
    from valor_lite.exceptions import EmptyCacheError
    import shapely.geometry as sg
    nl, ns = rng.randint(0, 4), rng.randint(0, 4)
    labels = names(rng, nl); scores = [.5] * ns
    ok = (ns == 0 and nl == 1) or (ns > 0 and ns == nl)
    mk = {'bbox': lambda **k: BoundingBox(uid='x', xmin=0, xmax=1, ymin=0, ymax=1, **k),
          'polygon': lambda **k: Polygon(uid='x', shape=sg.Polygon([(0, 0), (1, 0), (1, 1)]), **k),
          'bitmask': lambda **k: Bitmask(uid='x', mask=np.ones((2, 2), dtype=bool), **k)}
    for nm, f in mk.items():
        if ok:
            a = f(labels=labels, scores=scores)
            if ns == 0:
                expect_raises(lambda: Detection(uid='d', groundtruths=[], predictions=[f(labels=['a'], scores=[.1]), a]), ValueError, f'{nm} prediction without scores')
            else:
                Detection(uid='d', groundtruths=[], predictions=[a])
        else:
            expect_raises(lambda: f(labels=labels, scores=scores), ValueError, f'{nm} with {nl} labels and {ns} scores')
    expect_raises(lambda: Polygon(uid='x', shape=sg.Polygon(), labels=['a']), ValueError, 'empty polygon')
    expect_raises(lambda: Polygon(uid='x', shape=rng.choice([[(0, 0), (1, 1)], np.zeros(3), sg.Point(0, 0), sg.box(0, 0, 1, 1).boundary]), labels=['a']), TypeError, 'polygon of the wrong type')
    sh = (rng.randint(1, 4), rng.randint(1, 4))
    expect_raises(lambda: Bitmask(uid='x', mask=np.zeros(sh, dtype=bool), labels=['a']), ValueError, 'empty mask')
    for bad in (np.ones(sh, dtype=rng.choice([np.uint8, np.int64, np.float64])), [[True, False]]):
        expect_raises(lambda: Bitmask(uid='x', mask=bad, labels=['a']), ValueError, 'mask of the wrong type')
    expect_raises(lambda: Loader.in_memory().finalize(), EmptyCacheError, 'empty cache')
    l, p = make_loader(Loader, {'kind': 'file', 'batch_size': 3, 'rows_per_file': 4}, tmp)
    expect_raises(lambda: l.finalize(), EmptyCacheError, 'empty file cache')
    expect_raises(lambda: Loader.persistent(path=p), Exception, 'existing cache directory')
    ev, _, _ = build(rng, gen(rng, 1), tmp)
    for fn in (ev.compute_precision_recall, ev.compute_confusion_matrix, ev.compute_examples, ev.compute_confusion_matrix_with_examples):
        expect_raises(lambda: fn(iou_thresholds=[], score_thresholds=[.5]), ValueError, f'{fn.__name__} without IoU thresholds')
        expect_raises(lambda: fn(iou_thresholds=[.5], score_thresholds=[]), ValueError, f'{fn.__name__} without score thresholds')


# ---------------------------------------------------------------- IoU
def _poly_area(p):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1])) / 2


def _clip(sub, clip):
    """Sutherland-Hodgman, convex counter-clockwise, Fractions"""
    out = sub
    for a, b in zip(clip, clip[1:] + clip[:1]):
        inp, out = out, []
        side = lambda q: (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])
        for p, q in zip(inp, inp[1:] + inp[:1]):
            sp, sq = side(p), side(q)
            if sp >= 0:
                out.append(p)
            if (sp > 0 > sq) or (sp < 0 < sq):
                t = F(sp) / (sp - sq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def _convex(rng):
    pts = sorted({(rng.randint(0, 9), rng.randint(0, 9)) for _ in range(6)})
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    h = half(pts) + half(pts[::-1])
    if len(h) < 3 or _poly_area(h) == 0:
        return _convex(rng)
    return [(F(x), F(y)) for x, y in h]


@case('C01', weight=2)
def iou_functions(rng, size, tmp):
    import shapely.geometry as sg
    from valor_lite.object_detection import computation as C
    n = rng.randint(1, 4)
    # boxes: float, negative, huge, tiny, degenerate
    scale = rng.choice([1.0, 1e-3, 1e6, 0.37])
    def box():
        a = sorted(rng.uniform(-3, 3) * scale for _ in range(2)); b = sorted(rng.uniform(-3, 3) * scale for _ in range(2))
        if rng.random() < .15:
            a[1] = a[0]
        return a + b
    pairs = []
    for _ in range(n):
        x = box()
        y = list(x) if rng.random() < .2 else box()
        pairs.append([x, y])
    if hasattr(C, 'compute_bbox_iou'):
        got = C.compute_bbox_iou(np.array(pairs, dtype=np.float64))
        rev = C.compute_bbox_iou(np.array([p[::-1] for p in pairs], dtype=np.float64))
        expect_eq(got.shape, (n,), 'bbox IoU shape')
        for (x, y), v, w in zip(pairs, got, rev):
            fx, fy = [F(t) for t in x], [F(t) for t in y]
            i = max(F(0), min(fx[1], fy[1]) - max(fx[0], fy[0])) * max(F(0), min(fx[3], fy[3]) - max(fx[2], fy[2]))
            u = (fx[1] - fx[0]) * (fx[3] - fx[2]) + (fy[1] - fy[0]) * (fy[3] - fy[2]) - i
            if u != 0 and u < F(1, 10**8):
                continue  # below the library's epsilon
            expect(close(float(v), float(i / u) if u else 0.0, 1e-7), 'bbox IoU', a=x, b=y, got=float(v), want=float(i / u) if u else 0.0)
            expect(close(float(v), float(w), 1e-12), 'bbox IoU not symmetric', a=x, b=y)
            expect(0 <= v <= 1 + 1e-12, 'bbox IoU outside [0, 1]', v=float(v))
    if hasattr(C, 'compute_bitmask_iou'):
        h, w = rng.choice([(1, 1), (2, 3), (5, 4), (17, 19), (40, 3), (40, 30), (300, 301)])
        r = np.random.default_rng(rng.randrange(2**32))
        ms = r.random((n, 2, h, w)) < r.choice([.05, .3, .7, 1.0])
        got = C.compute_bitmask_iou(ms)
        for m, v in zip(ms, got):
            i = int((m[0] & m[1]).sum()); u = int((m[0] | m[1]).sum())
            expect_close(float(v), i / u if u else 0.0, 'bitmask IoU', shape=(h, w))
    if hasattr(C, 'compute_polygon_iou'):
        ps = [(_convex(rng), _convex(rng)) for _ in range(n)]
        arr = np.array([[sg.Polygon([(float(x), float(y)) for x, y in q]) for q in p] for p in ps])
        got = C.compute_polygon_iou(arr)
        for (a, b), v in zip(ps, got):
            c = _clip(a, b)
            i = abs(_poly_area(c)) if len(c) > 2 else F(0)
            u = _poly_area(a) + _poly_area(b) - i
            expect(close(float(v), float(i / u), 1e-7), 'polygon IoU', a=a, b=b, got=float(v), want=float(i / u))


@case('C01')
def iou_via_api(rng, size, tmp):
    """the IoU of every pair decides exactly at the threshold, for all three geometries, and is attributed to its own pair"""
    data = gen(rng, size, n_labels=rng.randint(1, 3), max_ann=3)
    vals = sorted({float(rect_iou(g['geom'], p['geom'])) for d in data for g in d['gts'] for p in d['pds']} - {0.0})
    ious = []
    for v in rng.sample(vals, min(len(vals), 3)):
        ious += [v, min(v * (1 + 1e-9), 1.0)]
    ious = ious or [.5]
    labels = label_order(data)
    big = max([v for d in data for a in d['gts'] + d['pds'] for v in a['geom']], default=0) > 6
    for kind in ('bbox', 'polygon') if big else ('bbox', 'polygon', 'bitmask'):
        ev, _, _ = build(rng, data, tmp, kind=kind, cfg={'kind': 'memory', 'batch_size': 10_000})
        check_counts(ev.compute_precision_recall(iou_thresholds=ious, score_thresholds=[.05]), data, labels, ious, [.05], f'{kind} Counts')
        check_cm_examples(ev.compute_confusion_matrix_with_examples(iou_thresholds=ious, score_thresholds=[.05]), data, labels, ious, [.05])


@case('C23')
def od_info_filtered(rng, size, tmp):
    """totals of a filtered evaluator, also when filtered again"""
    from valor_lite.exceptions import EmptyCacheError
    data, labels, ev, path, cfg = _setup(rng, size + 1, tmp, meta=True)
    s = data
    for _ in range(rng.randint(1, 2)):
        (de, dt), (ge, gt), (pe, pd) = rand_filters(rng, data, labels)
        s = sub_od(s, dt, gt, pd)
        empty = not any(d['gts'] or d['pds'] for d in s)
        try:
            ev = ev.filter(datums=de, groundtruths=ge, predictions=pe, path=tmp.new('f') if path else None)
        except EmptyCacheError:
            expect(empty, 'filter reported an empty cache although annotations remain', data=data)
            return
        i = ev.info
        expect_eq((i.number_of_datums, i.number_of_groundtruth_annotations, i.number_of_prediction_annotations, i.number_of_labels),
                  (sum(bool(d['gts'] or d['pds']) for d in s), sum(len(d['gts']) for d in s), sum(len(d['pds']) for d in s), len(labels)), 'info of the filtered evaluator', data=data, cfg=cfg)
        if empty:
            return


@case('C23', 'C17', 'C18', weight=.3)
def od_fields(rng, size, tmp):
    from valor_lite.object_detection import Loader, Evaluator
    data = gen(rng, size)
    fields_after_load(Loader, Evaluator, lambda l: l.add_bounding_boxes(to_detections(data, 'bbox')), rng, tmp)
