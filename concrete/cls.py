"""Classification: independent oracle over the user's own data, and cases."""
from fractions import Fraction as F
import json
import numpy as np
import pyarrow.compute as pc
from common import *

META = [('dt_m', 'int64')]
SCORES = [0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 1.0]
THR = [0.0, 0.1, 0.25, 0.3, 0.5, 0.75, 0.99, 1.0]


def gen(rng, size, full=False, meta=False, n_labels=None, fine=False):
    nl = n_labels or rng.randint(1, 2 + min(size, 4))
    labels = names(rng, nl)
    rng.shuffle(labels)
    out = []
    reuse_scores = rng.random() < .7
    pool = SCORES
    if rng.random() < .15:      # scores close to each other
        e = rng.choice([1e-2, 1e-4, 1e-6])
        pool = [rng.choice([.25, .5]) + e * k for k in range(4)]
    rng.pool = pool
    for d in range(270 if not full and rng.random() < .02 else rng.randint(1, 2 + 2 * size)):
        preds = labels[:] if full else rng.sample(labels, rng.randint(1, nl))
        rng.shuffle(preds)
        out.append({'uid': f'd{d}', 'gt': rng.choice(labels), 'preds': preds,
                    'scores': [round(rng.random(), 5) + .00001 if (fine or not reuse_scores) else rng.choice(pool) for _ in preds],
                    'meta': {'dt_m': rng.randint(0, 2)} if meta else None})
    return out


def label_set(data):
    return sorted({d['gt'] for d in data} | {l for d in data for l in d['preds']})


def build(rng, data, tmp, cfg=None, meta=False, fin=None, late=0):
    from valor_lite.classification import Loader, Classification
    cfg = cfg or cfgs(rng)
    loader, path = make_loader(Loader, cfg, tmp, META if meta else None)
    if late:
        continue_from(loader, late, '_datum_count')
    items = [Classification(uid=d['uid'], groundtruth=d['gt'], predictions=list(d['preds']), scores=list(d['scores']), metadata=d['meta']) for d in data]
    for c in partition(rng, items):
        loader.add_data(c)
    return loader.finalize(batch_size=fin or rng.choice([1, 2, 3, 7, 1000])), path, cfg


def positives(d, t, hardmax):
    """(label, score) pairs that are positive on datum d; d may carry 'win' (kept through filtering)"""
    w = d['win'] if 'win' in d else d['preds'][max(range(len(d['scores'])), key=lambda i: (d['scores'][i], -i))]
    return [(l, s) for l, s in zip(d['preds'], d['scores']) if s > 0 and s >= t and (not hardmax or l == w)]


def counts(data, label, t, h):
    tp = fp = fn = tn = 0
    for d in data:
        pos = {l for l, _ in positives(d, t, h)}
        if d['gt'] == label:
            tp += label in pos
            fn += (label in d['preds'] and label not in pos) or any(l != label for l in pos)
        elif label in d['preds']:
            fp += label in pos
            tn += label not in pos
    return {'tp': tp, 'fp': fp, 'fn': fn, 'tn': tn}


def thr(rng, k=3):
    out = [rng.choice(THR) for _ in range(rng.randint(1, k))]
    if rng.random() < .3:
        out[rng.randrange(len(out))] = rng.choice(getattr(rng, 'pool', THR))
    return out


def prf(ev, **kw):
    return norm(ev.compute_precision_recall(**kw))


def by(metrics):
    out = {}
    for m in metrics:
        p = m.parameters
        out.setdefault((p.get('label'), p.get('score_threshold')), []).append(m)
    return out


def check_counts(r, data, labels, ts, h, what='Counts'):
    b = by(r['Counts'])
    for l in labels:
        for t in ts:
            ms = b.get((l, t), [])
            expect_eq(len(ms), ts.count(t), f'{what}: entries for {l} at {t}')
            for m in ms:
                expect_eq(m.parameters.get('hardmax'), h, 'hardmax parameter')
                expect_eq({k: int(v) for k, v in m.value.items()}, counts(data, l, t, h), f'{what} of {l} at {t} hardmax={h}', data=data)


def check_pr(r, data, labels, ts, h, cnt=None):
    P, R, FF, A = by(r['Precision']), by(r['Recall']), by(r['F1']), by(r['Accuracy'])
    C = by(r['Counts'])
    n = len(data)
    for t in ts:
        for l in labels:
            for i, m in enumerate(C[(l, t)]):
                c = m.value
                p = c['tp'] / (c['tp'] + c['fp']) if c['tp'] + c['fp'] else 0.0
                q = c['tp'] / (c['tp'] + c['fn']) if c['tp'] + c['fn'] else 0.0
                f = 2 * p * q / (p + q) if p + q else 0.0
                for nm, B, want in (('Precision', P, p), ('Recall', R, q), ('F1', FF, f)):
                    v = B[(l, t)][i].value
                    expect_close(v, want, f'{nm} of {l} at {t}', counts=c)
                    expect(0 <= v <= 1, f'{nm} outside [0, 1]')
        tot = sum(counts(data, l, t, h)['tp'] for l in labels)
        for m in A[(None, t)]:
            expect_close(m.value, tot / n if n else 0.0, f'Accuracy at {t}', data=data)
            expect(0 <= m.value <= 1, 'Accuracy outside [0, 1]', v=m.value)


def check_cm(ms, data, labels, ts, h):
    expect_eq([m.parameters['score_threshold'] for m in ms], ts, 'thresholds of the confusion matrices')
    for m, t in zip(ms, ts):
        expect_eq(m.parameters['hardmax'], h, 'hardmax')
        cm = {g: {p: 0 for p in labels} for g in labels}; um = {g: 0 for g in labels}
        for d in data:
            pos = positives(d, t, h)
            for l, _ in pos:
                cm[d['gt']][l] += 1
            if not pos:
                um[d['gt']] += 1
        expect_eq(canon(m.value['confusion_matrix']), cm, f'confusion matrix at {t} hardmax={h}', data=data)
        expect_eq(canon(m.value['unmatched_ground_truths']), um, f'unmatched ground truths at {t} hardmax={h}', data=data)


def check_cme(ms, data, labels, ts, h):
    expect_eq([m.parameters['score_threshold'] for m in ms], ts, 'thresholds of the matrices with examples')
    for m, t in zip(ms, ts):
        cm = {g: {p: [] for p in labels} for g in labels}; um = {g: [] for g in labels}
        for d in data:
            pos = positives(d, t, h)
            for l, s in pos:
                cm[d['gt']][l].append((d['uid'], s))
            if not pos:
                um[d['gt']].append(d['uid'])
        got = m.value['confusion_matrix']
        expect_eq(sorted(got), labels, 'labels of the matrix with examples')
        for g in labels:
            expect_eq(sorted(got[g]), labels, 'labels of the matrix with examples')
            for p in labels:
                c = got[g][p]
                expect_eq(c['count'], len(c['examples']), 'count vs examples')
                expect_eq(sorted((e['datum_id'], e['score']) for e in c['examples']), sorted(cm[g][p]), f'examples of ({g}, {p}) at {t} hardmax={h}', data=data)
            c = m.value['unmatched_ground_truths'][g]
            expect_eq(c['count'], len(c['examples']), 'count vs examples')
            expect_eq(sorted(e['datum_id'] for e in c['examples']), sorted(um[g]), f'unmatched examples of {g} at {t}', data=data)


def want_example(d, t, h):
    pos = [l for l, _ in positives(d, t, h)]
    tp = [l for l in pos if l == d['gt']]
    fp = [l for l in pos if l != d['gt']]
    fn = [d['gt']] if (not pos or fp) and not tp else []
    return {'datum_id': d['uid'], 'true_positives': tp, 'false_positives': sorted(fp), 'false_negatives': fn}


def check_examples(ms, data, ts, h):
    want = sorted(json.dumps([t, want_example(d, t, h)], sort_keys=True) for d in data for t in ts)
    got = []
    for m in ms:
        v = canon(m.value)
        expect_eq(m.parameters['hardmax'], h, 'hardmax')
        got.append(json.dumps([m.parameters['score_threshold'], {'datum_id': v['datum_id'], 'true_positives': sorted(v['true_positives']), 'false_positives': sorted(v['false_positives']), 'false_negatives': sorted(v['false_negatives'])}], sort_keys=True))
    if sorted(got) != want:
        a = [x for x in got if x not in want]; b = [x for x in want if x not in got]
        raise Fail(f'examples: got {a[:3]}, expected {b[:3]} ({len(got)} entries, expected {len(want)}) | data={data!r}')


def roc(data, l):
    P = [d['scores'][d['preds'].index(l)] for d in data if d['gt'] == l]
    N = [d['scores'][d['preds'].index(l)] for d in data if d['gt'] != l]
    if not P or not N:
        return F(0)
    return F(sum(2 if p > n else 1 if p == n else 0 for p in P for n in N), 2 * len(P) * len(N))


@case('C08')
def cls_counts(rng, size, tmp):
    data = gen(rng, size); ev, _, _ = build(rng, data, tmp); L = label_set(data)
    ts, h = thr(rng), rng.random() < .5
    check_counts(prf(ev, score_thresholds=ts, hardmax=h), data, L, ts, h)


@case('C08', weight=.3)
def cls_counts_big(rng, size, tmp):
    data = gen(rng, size * 6); ev, _, _ = build(rng, data, tmp); L = label_set(data)
    ts, h = thr(rng, 4), rng.random() < .5
    check_counts(prf(ev, score_thresholds=ts, hardmax=h), data, L, ts, h)


@case('C09')
def cls_pr(rng, size, tmp):
    data = gen(rng, size, meta=True); ev, _, _ = build(rng, data, tmp, meta=True); L = label_set(data)
    ts, h = thr(rng), rng.random() < .5
    r = prf(ev, score_thresholds=ts, hardmax=h)
    check_pr(r, data, L, ts, h)
    v = rng.randint(0, 2)
    sub = [d for d in data if d['meta']['dt_m'] == v]
    r = prf(ev, score_thresholds=ts, hardmax=h, datums=pc.field('dt_m') == v)
    check_counts(r, sub, L, ts, h); check_pr(r, sub, L, ts, h)


def direct(name):
    from valor_lite.classification import computation as C
    f = getattr(C, name, None)
    if f is None:
        raise Skip(name)
    return f


@case('C09')
def cls_pr_formulas(rng, size, tmp):
    """formula functions on arbitrary counts, including zeros and very large ones"""
    ns, nl = rng.randint(1, 3), rng.randint(1, 4)
    pool = [0, 0, 1, 2, 3, 7, 10**6, 2**40]
    c = np.array([[[rng.choice(pool) for _ in range(4)] for _ in range(nl)] for _ in range(ns)], dtype=np.uint64)
    p, r = direct('compute_precision')(c), direct('compute_recall')(c)
    f = direct('compute_f1_score')(p, r)
    n = rng.choice([0, 1, 5, 2**41])
    a = direct('compute_accuracy')(c, n_datums=n)
    for i in range(ns):
        for j in range(nl):
            tp, fp, fn, _ = map(int, c[i, j])
            wp = F(tp, tp + fp) if tp + fp else F(0); wr = F(tp, tp + fn) if tp + fn else F(0)
            expect_close(float(p[i, j]), float(wp), 'precision', c=c[i, j].tolist()); expect_close(float(r[i, j]), float(wr), 'recall', c=c[i, j].tolist())
            if wp + wr == 0 or wp + wr > F(1, 10**8):
                expect_close(float(f[i, j]), float(2 * wp * wr / (wp + wr)) if wp + wr else 0.0, 'F1', c=c[i, j].tolist())
        w = F(sum(int(x) for x in c[i, :, 0]), n) if n else F(0)
        expect(close(float(a[i]), float(w), 1e-9 * max(1, float(w))), 'accuracy', got=float(a[i]), want=float(w))


@case('C10', weight=2)
def cls_roc(rng, size, tmp):
    data = gen(rng, size + rng.randint(0, 2), full=True)
    ev, path, cfg = build(rng, data, tmp)
    L = label_set(data)
    r = norm(ev.compute_rocauc())
    got = {m.parameters['label']: m.value for m in r['ROCAUC']}
    expect_eq(sorted(got), L, 'ROCAUC labels')
    for l in L:
        expect(close(got[l], float(roc(data, l))), f'ROCAUC of {l}: got {got[l]!r}, expected {float(roc(data, l))!r}', data=data, cfg=cfg)
    expect_eq(len(r['mROCAUC']), 1, 'mROCAUC entries')
    expect_close(r['mROCAUC'][0].value, float(sum(roc(data, l) for l in L) / len(L)), 'mROCAUC', data=data)
    # only the order of the scores matters (0 stays a score like any other)
    d2 = [{**d, 'scores': [s * s * .5 + .1 * s for s in d['scores']]} for d in data]
    ev2, _, _ = build(rng, d2, tmp)
    for m in norm(ev2.compute_rocauc())['ROCAUC']:
        expect_close(m.value, got[m.parameters['label']], 'ROCAUC under a monotone change of the scores', data=data)


@case('C11')
def cls_cm(rng, size, tmp):
    data = gen(rng, size); ev, _, _ = build(rng, data, tmp); L = label_set(data)
    ts, h = thr(rng), rng.random() < .5
    check_cm(ev.compute_confusion_matrix(score_thresholds=ts, hardmax=h), data, L, ts, h)


@case('C08', 'C11', weight=.2)
def cls_late(rng, size, tmp):
    """datums added after many others, whose internal ids are large"""
    data = gen(rng, size); ev, _, _ = build(rng, data, tmp, late=rng.choice([120, 250, 32760, 65530])); L = label_set(data)
    ts, h = thr(rng), rng.random() < .5
    check_cm(ev.compute_confusion_matrix(score_thresholds=ts, hardmax=h), data, L, ts, h)
    check_cme(ev.compute_confusion_matrix_with_examples(score_thresholds=ts, hardmax=h), data, L, ts, h)
    check_examples(ev.compute_examples(score_thresholds=ts, hardmax=h), data, ts, h)


@case('C11')
def cls_cme(rng, size, tmp):
    data = gen(rng, size); ev, _, _ = build(rng, data, tmp); L = label_set(data)
    ts, h = thr(rng), rng.random() < .5
    check_cme(ev.compute_confusion_matrix_with_examples(score_thresholds=ts, hardmax=h), data, L, ts, h)
    check_examples(ev.compute_examples(score_thresholds=ts, hardmax=h), data, ts, h)


@case('C16', weight=.6)
def cls_pages(rng, size, tmp):
    data = gen(rng, size + 1, meta=True); ev, _, _ = build(rng, data, tmp, meta=True)
    de, sub = None, data
    if rng.random() < .4:
        v = rng.randint(0, 2); de = pc.field('dt_m') == v; sub = [d for d in data if d['meta']['dt_m'] == v]
    ts = thr(rng, 2)
    k = rng.randint(1, len(data) + 1)
    allp = []
    for off in range(0, len(data) + k, k):
        page = ev.compute_examples(score_thresholds=ts, hardmax=True, datums=de, limit=k, offset=off)
        expect_eq(len(page), len(ts) * max(0, min(k, len(sub) - off)), f'entries on page offset {off} limit {k}', data=data)
        allp += page
    check_examples(allp, sub, ts, True)
    check_examples(ev.compute_examples(score_thresholds=ts, datums=de), sub, ts, True)
    expect_eq(ev.compute_examples(score_thresholds=ts, limit=0), [], 'limit 0')


@case('C17')
def cls_storage(rng, size, tmp):
    from valor_lite.classification import Evaluator
    data = gen(rng, size + 1, full=rng.random() < .6)
    full = all(set(d['preds']) == set(label_set(data)) for d in data)
    ts, h = thr(rng), rng.random() < .5
    kw = {}
    if rng.random() < .5:
        kw = {'datums': pc.field('datum_uid').isin(sorted(d['uid'] for d in data if rng.random() < .5) or ['none'])}
    res = []
    for i in range(3):
        cfg = {'kind': 'memory', 'batch_size': 10_000} if i == 0 else cfgs(rng)
        ev, path, _ = build(rng, data, tmp, cfg=cfg, fin=1000 if i == 0 else None)
        if path and rng.random() < .6:
            ev = Evaluator.load(path)
        out = {}
        for v in prf(ev, score_thresholds=ts, hardmax=h, **kw).values():
            out.update(keyed(v))
        if full:
            for v in norm(ev.compute_rocauc()).values():
                out.update(keyed(v))
        out.update(keyed(ev.compute_confusion_matrix(score_thresholds=ts, hardmax=h, **kw)))
        for k, v in keyed(ev.compute_confusion_matrix_with_examples(score_thresholds=ts, hardmax=h, **kw)).items():
            out['cme' + k] = order_free(v)
        exs = sorted(json.dumps(canon(m), sort_keys=True) for m in ev.compute_examples(score_thresholds=ts, hardmax=h, **kw))
        inf = ev.get_info(**kw)
        res.append((cfg, out, exs, (inf.number_of_datums, inf.number_of_labels, inf.number_of_rows)))
    for cfg, out, exs, inf in res[1:]:
        d = same(res[0][1], out)
        expect(d is None, f'results differ between {res[0][0]} and {cfg}: {d}', data=data, ts=ts)
        expect_eq(exs, res[0][2], f'examples with {cfg}', data=data)
        expect_eq(inf, res[0][3], f'info with {cfg}')


@case('C18')
def cls_filter(rng, size, tmp):
    from valor_lite.exceptions import EmptyCacheError
    data = gen(rng, size + 1, meta=True, full=rng.random() < .4); ev, path, _ = build(rng, data, tmp, meta=True); L = label_set(data)
    for d in data:
        d['win'] = d['preds'][max(range(len(d['scores'])), key=lambda i: (d['scores'][i], -i))]
    de = ge = pe = None; dt = gt = pd = None
    if rng.random() < .6:
        if rng.random() < .5:
            v = rng.randint(0, 2); de, dt = pc.field('dt_m') == v, lambda d: d['meta']['dt_m'] == v
        else:
            ids = sorted(d['uid'] for d in data if rng.random() < .6) or ['none']
            de, dt = pc.field('datum_uid').isin(ids), lambda d: d['uid'] in ids
    if rng.random() < .4:
        gl = rng.choice(L); ge, gt = pc.field('gt_label') == gl, lambda d: d['gt'] == gl
    if rng.random() < .4:
        if rng.random() < .5:
            pl = rng.choice(L); pe, pd = pc.field('pd_label') == pl, lambda l, s: l == pl
        else:
            st = rng.choice([.1, .3, .5]); pe, pd = pc.field('pd_score') >= st, lambda l, s: s >= st
    ts, h = thr(rng), rng.random() < .5
    if de is not None:
        s = [d for d in data if dt(d)]
        r = prf(ev, score_thresholds=ts, hardmax=h, datums=de)
        check_counts(r, s, L, ts, h); check_pr(r, s, L, ts, h)
        check_cm(ev.compute_confusion_matrix(score_thresholds=ts, hardmax=h, datums=de), s, L, ts, h)
        check_cme(ev.compute_confusion_matrix_with_examples(score_thresholds=ts, hardmax=h, datums=de), s, L, ts, h)
        check_examples(ev.compute_examples(score_thresholds=ts, hardmax=h, datums=de), s, ts, h)
    before = keyed(ev.compute_confusion_matrix(score_thresholds=ts, hardmax=h))
    s = []
    for d in data:
        if (dt and not dt(d)) or (gt and not gt(d)):
            continue
        keep = [i for i, (l, sc) in enumerate(zip(d['preds'], d['scores'])) if pd is None or pd(l, sc)]
        if keep:
            s.append({**d, 'preds': [d['preds'][i] for i in keep], 'scores': [d['scores'][i] for i in keep]})
    try:
        fe = ev.filter(datums=de, groundtruths=ge, predictions=pe, path=tmp.new('f') if path else None)
    except EmptyCacheError:
        expect(not s, 'filter reported an empty cache although data remains', data=data)
        return
    expect(bool(s), 'filter kept data although nothing matches')
    r = prf(fe, score_thresholds=ts, hardmax=h)
    check_counts(r, s, L, ts, h, 'Counts of the filtered evaluator'); check_pr(r, s, L, ts, h)
    check_cm(fe.compute_confusion_matrix(score_thresholds=ts, hardmax=h), s, L, ts, h)
    check_examples(fe.compute_examples(score_thresholds=ts, hardmax=h), s, ts, h)
    expect_eq((fe.info.number_of_datums, fe.info.number_of_labels, fe.info.number_of_rows), (len(s), len(L), sum(len(d['preds']) for d in s)), 'info of the filtered evaluator')
    if all(set(d['preds']) == set(L) for d in s):
        for m in norm(fe.compute_rocauc())['ROCAUC']:
            expect_close(m.value, float(roc(s, m.parameters['label'])), 'ROCAUC of the filtered evaluator', data=data)
    expect(same(before, keyed(ev.compute_confusion_matrix(score_thresholds=ts, hardmax=h))) is None, 'filtering changed the original')


@case('C21', weight=.7)
def cls_invalid(rng, size, tmp):
    from valor_lite.classification import Loader, Classification
    from valor_lite.exceptions import EmptyCacheError
    n, m = rng.randint(0, 4), rng.randint(0, 4)
    mk = lambda: Classification(uid='x', groundtruth='a', predictions=[f'L{i}' for i in range(n)], scores=[.1] * m)
    if n != m:
        expect_raises(mk, ValueError, f'{n} labels with {m} scores')
    else:
        c = mk()
        for kind in ('memory', 'file'):
            l, _ = make_loader(Loader, {'kind': kind, 'batch_size': 2}, tmp)
            ok = Classification(uid='y', groundtruth='a', predictions=['a'], scores=[1.0])
            items = [ok, c] if rng.random() < .5 else [c]
            if n == 0:
                expect_raises(lambda: l.add_data(items), ValueError, 'classification without predictions')
            else:
                l.add_data(items)
    expect_raises(lambda: Classification(uid='x', groundtruth=rng.choice([None, ['a'], 3, ('a', 'b')]), predictions=['a'], scores=[1.0]), ValueError, 'ground truth that is not a label')
    f = rng.choice(['datum_uid', 'datum_id', 'gt_label', 'gt_label_id', 'pd_label', 'pd_label_id', 'pd_score', 'pd_winner', 'match'])
    fields = [('ok', 'int64'), (f, 'string')]; rng.shuffle(fields)
    expect_raises(lambda: Loader.in_memory(metadata_fields=fields), ValueError, f'metadata field {f!r}')
    expect_raises(lambda: Loader.persistent(path=tmp.new(), metadata_fields=fields), ValueError, f'metadata field {f!r}')
    expect_raises(lambda: Loader.in_memory().finalize(), EmptyCacheError, 'empty cache')
    l, p = make_loader(Loader, {'kind': 'file', 'batch_size': 3, 'rows_per_file': 4}, tmp)
    expect_raises(lambda: l.finalize(), EmptyCacheError, 'empty file cache')
    expect_raises(lambda: Loader.persistent(path=p), Exception, 'existing cache directory')
    ev, _, _ = build(rng, gen(rng, 1), tmp)
    for fn in (ev.compute_precision_recall, ev.compute_confusion_matrix, ev.compute_examples, ev.compute_confusion_matrix_with_examples):
        expect_raises(lambda: fn(score_thresholds=[]), ValueError, f'{fn.__name__} without thresholds')


@case('C22')
def cls_labels_thresholds(rng, size, tmp):
    data = gen(rng, size + 1, n_labels=rng.randint(1, 6), full=rng.random() < .5); ev, _, _ = build(rng, data, tmp); L = label_set(data)
    ts, h = thr(rng, 4), rng.random() < .5
    r = prf(ev, score_thresholds=ts, hardmax=h)
    expect_eq({getattr(k, 'value', k) for k in r}, {'Counts', 'Precision', 'Recall', 'F1', 'Accuracy'}, 'metric types')
    for nm in ('Counts', 'Precision', 'Recall', 'F1', 'Accuracy'):
        exp = sorted(json.dumps([l, t, h]) for l in (L if nm != 'Accuracy' else [None]) for t in ts)
        expect_eq(sorted(json.dumps([m.parameters.get('label'), m.parameters['score_threshold'], m.parameters['hardmax']]) for m in r[nm]), exp, f'{nm} entries')
        for m in r[nm]:
            expect_eq(getattr(m.type, 'value', m.type), nm, 'metric type')
    check_counts(r, data, L, ts, h); check_pr(r, data, L, ts, h)
    check_cm(ev.compute_confusion_matrix(score_thresholds=ts, hardmax=h), data, L, ts, h)
    check_cme(ev.compute_confusion_matrix_with_examples(score_thresholds=ts, hardmax=h), data, L, ts, h)
    if all(set(d['preds']) == set(L) for d in data):
        for m in norm(ev.compute_rocauc())['ROCAUC']:
            expect_close(m.value, float(roc(data, m.parameters['label'])), f'ROCAUC of {m.parameters["label"]}', data=data)


@case('C23')
def cls_info(rng, size, tmp):
    from valor_lite.classification import Evaluator
    data = gen(rng, size + 1, meta=True); ev, path, cfg = build(rng, data, tmp, meta=True); L = label_set(data)
    v = rng.randint(0, 2)
    for e in [ev] + ([Evaluator.load(path)] if path else []):
        i = e.info
        expect_eq((i.number_of_datums, i.number_of_labels, i.number_of_rows), (len(data), len(L), sum(len(d['preds']) for d in data)), 'info', data=data, cfg=cfg)
        expect_eq([tuple(map(str, x)) for x in (i.metadata_fields or [])], META, 'metadata fields')
        expect_eq(e.get_info(datums=pc.field('dt_m') == v).number_of_datums, sum(d['meta']['dt_m'] == v for d in data), 'datums under a filter', data=data)
        check_cm(e.compute_confusion_matrix(score_thresholds=[.3], hardmax=False), data, L, [.3], False)


@case('C23', 'C17', 'C18', weight=.3)
def cls_fields(rng, size, tmp):
    from valor_lite.classification import Loader, Evaluator, Classification
    data = gen(rng, size)
    items = [Classification(uid=d['uid'], groundtruth=d['gt'], predictions=list(d['preds']), scores=list(d['scores'])) for d in data]
    fields_after_load(Loader, Evaluator, lambda l: l.add_data(items), rng, tmp)
