"""Caches, external sort and pagination: cases against a list of rows."""
import json, os
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
from common import *

SCHEMA = pa.schema([('k', pa.int64()), ('s', pa.float64()), ('q', pa.int64()), ('name', pa.string()), ('flag', pa.bool_())])
COLS = ['k', 's', 'q', 'name', 'flag']


def row(rng, i):
    return {'k': rng.randint(0, 4), 's': rng.choice([0.0, .25, .5, 1.0, -1.5, .5 + 1e-9, .25 + 1e-7]), 'q': rng.randint(-1, 1), 'name': f'r{i}', 'flag': rng.random() < .5}


def writer(rng, tmp, kind=None, schema=SCHEMA, b=None, r=None):
    from valor_lite.cache import MemoryCacheWriter, FileCacheWriter
    kind = kind or rng.choice(['memory', 'file', 'file'])
    b = b or rng.choice([1, 2, 3, 4, 7, 100])
    if kind == 'memory':
        return MemoryCacheWriter.create(schema=schema, batch_size=b), kind
    p = tmp.new()
    return FileCacheWriter.create(path=p, schema=schema, batch_size=b, rows_per_file=r or rng.choice([1, 2, 3, 5, 8, 1000]), compression=rng.choice(['snappy', 'gzip', 'none'])), kind


def batch(rows, schema=SCHEMA):
    return pa.RecordBatch.from_pylist(rows, schema=schema)


def write(rng, w, rows):
    """one write call of a random kind"""
    k = rng.randint(0, 3)
    if k == 0:
        w.write_rows(rows)
    elif k == 1:
        w.write_columns({c: pa.array([r[c] for r in rows], type=SCHEMA.field(c).type) for c in COLS}) if rows else w.write_columns({})
    elif k == 2:
        w.write_batch(batch(rows))
    else:
        w.write_table(pa.Table.from_batches([batch(rows)]))
    return k


def read(rd, **kw):
    out = []
    for t in rd.iterate_tables(**kw):
        out += t.to_pylist()
    return out


@case('C14', weight=3)
def history(rng, size, tmp):
    """any write history yields exactly the rows written, in order"""
    w, kind = writer(rng, tmp)
    rows, calls, log = [], [], []
    n = rng.randint(0, 4 + 4 * size)
    for i in range(n):
        if rng.random() < .15:
            w.flush(); log.append('flush')
            expect_eq(w.count_rows(), len(rows), 'rows after flush', log=log, kind=kind)
            continue
        if rng.random() < .07:
            read(w.to_reader()); log.append('read')
            continue
        rs = [row(rng, len(rows) + j) for j in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))]
        k = write(rng, w, rs)
        log.append((k, len(rs)))
        if rs:
            calls.append([r['name'] for r in rs])
        rows += rs
    if rng.random() < .5:
        with w:
            pass
        w.flush()
    info = dict(log=log, kind=kind, batch_size=w.batch_size, rows_per_file=getattr(w, 'rows_per_file', None))
    rd = w.to_reader()
    if not rows:
        expect_eq(read(rd), [], 'empty cache', **info)
        return
    got = read(rd)
    expect_eq([g['name'] for g in got], [r['name'] for r in rows], 'rows (by name) in write order', **info)
    expect(got == rows, 'row contents', **info)
    expect_eq(rd.count_rows(), len(rows), 'reader row count', **info)
    expect_eq(w.count_rows(), len(rows), 'writer row count', **info)
    w.flush(); w.flush()
    expect(read(w.to_reader()) == rows, 'rows after flushing again', **info)
    # a call never spans two tables
    tables = [[r['name'] for r in t.to_pylist()] for t in rd.iterate_tables()]
    where = {nm: i for i, t in enumerate(tables) for nm in t}
    for c in calls:
        expect(len({where[x] for x in c}) == 1, 'rows of one write call are spread over tables', call=c, **info)
    # columns and filters
    cols = rng.sample(COLS, rng.randint(1, 4))
    v = rng.randint(0, 4)
    expect(read(rd, columns=cols) == [{c: r[c] for c in cols} for r in rows], 'column selection', cols=cols, **info)
    sel = [r for r in rows if r['k'] == v]
    expect(read(rd, filter=pc.field('k') == v) == sel, 'filter', **info)
    expect(read(rd, columns=cols, filter=pc.field('k') == v) == [{c: r[c] for c in cols} for r in sel], 'columns and filter', cols=cols, **info)
    num = rng.sample(['k', 's', 'q'], rng.randint(1, 3))
    for flt, want in ((None, rows), (pc.field('k') == v, sel)):
        arr = [a.tolist() for a in rd.iterate_arrays(numeric_columns=num, filter=flt)]
        expect_eq([x for a in arr for x in a], [[r[c] for c in num] for r in want], 'iterate_arrays', cols=num, **info)
        other = rng.choice([['name'], ['name', 'flag'], ['k', 'name'], None])
        tb, ar = [], []
        for t, a in rd.iterate_tables_with_arrays(columns=other, filter=flt, numeric_columns=num):
            expect_eq(set(t.schema.names), set(num) | set(other or []), 'columns of iterate_tables_with_arrays')
            tb += t.to_pylist(); ar += a.tolist()
        cs = sorted(set(num) | set(other or []))
        expect([{c: r[c] for c in cs} for r in tb] == [{c: r[c] for c in cs} for r in want], 'iterate_tables_with_arrays table', **info)
        expect_eq(ar, [[r[c] for c in num] for r in want], 'iterate_tables_with_arrays array', cols=num, **info)
    for bs in (1, 3, 1000):
        fr = []
        for it in rd.iterate_fragment_batch_iterators(batch_size=bs):
            for b in it:
                expect(b.num_rows <= bs, 'fragment batch larger than the batch size')
                fr += b.to_pylist()
        expect(fr == rows, 'fragment batches', **info)
    if kind == 'file':
        from valor_lite.cache import FileCacheReader
        r2 = FileCacheReader.load(w.path)
        expect(read(r2) == rows, 'loaded cache', **info)
        expect_eq((r2.batch_size, r2.rows_per_file, r2.compression, r2.schema), (w.batch_size, w.rows_per_file, w.compression, SCHEMA), 'loaded configuration')


@case('C14', 'C15', weight=.1)
def many_files(rng, size, tmp):
    from valor_lite.cache import compute
    w, _ = writer(rng, tmp, kind='file', b=1, r=1)
    n = rng.choice([105, 130])
    rows = [row(rng, i) for i in range(n)]
    for r in rows:
        w.write_rows([r])
    rd = w.to_reader()
    expect(read(rd) == rows, f'rows of a cache of {n} files')
    expect_eq(rd.count_rows(), n, 'row count'); expect_eq(rd.count_tables(), n, 'table count')
    sink, k2 = writer(rng, tmp)
    compute.sort(source=rd, sink=sink, batch_size=2, sorting=[('s', 'descending'), ('k', 'ascending')])
    expect(read(sink.to_reader()) == sorted(rows, key=lambda r: (-r['s'], r['k'])), f'sorted rows of {n} files', sink=k2)


def key(sorting):
    def k(r):
        return tuple(-r[c] if d == 'descending' else r[c] for c, d in sorting)
    return k


def rsorting(rng):
    cs = rng.sample(['k', 's', 'q'], rng.randint(1, 3))
    return [(c, rng.choice(['ascending', 'descending'])) for c in cs]


def fill(rng, w, n):
    rows = []
    while len(rows) < n:
        rs = [row(rng, len(rows) + j) for j in range(rng.choice([1, 1, 2, 3, 6]))]
        write(rng, w, rs); rows += rs
        if rng.random() < .2:
            w.flush()
    if rng.random() < .2:
        w.write_table(SCHEMA.empty_table())
    return rows


@case('C15', weight=3)
def external_sort(rng, size, tmp):
    from valor_lite.cache import compute
    src, k1 = writer(rng, tmp, r=rng.choice([1, 2, 3, 5, 8]))
    rows = fill(rng, src, rng.randint(1, 8 + 8 * size))
    rd = src.to_reader()
    before = [t.to_pylist() for t in rd.iterate_tables()]
    sorting = rsorting(rng)
    cols = None
    schema = SCHEMA
    if rng.random() < .4:
        keep = {c for c, _ in sorting} | {'name'} | set(rng.sample(COLS, 1))
        cols = [c for c in COLS if c in keep]
        schema = pa.schema([SCHEMA.field(c) for c in cols])
    sink, k2 = writer(rng, tmp, schema=schema)
    bs = rng.choice([1, 2, 3, 5, 100])
    kw = {}
    if rng.random() < .3:
        kw['table_sort_override'] = lambda t: t.sort_by(sorting)
    compute.sort(source=rd, sink=sink, batch_size=bs, sorting=sorting, columns=cols, **kw)
    got = read(sink.to_reader())
    info = dict(sorting=sorting, source=k1, sink=k2, batch_size=bs, sink_batch=sink.batch_size, tables=[len(t) for t in before])
    want = [{c: r[c] for c in (cols or COLS)} for r in rows]
    expect_eq(sorted(r['name'] for r in got), sorted(r['name'] for r in rows), 'rows of the sorted cache', **info)
    by = {r['name']: r for r in want}
    expect(all(by[g['name']] == g for g in got), 'row contents changed by sorting', **info)
    ks = [key(sorting)(g) for g in got]
    expect(all(a <= b for a, b in zip(ks, ks[1:])), 'sorted order', keys=ks, **info)
    # equal keys: in source order
    pos = {r['name']: i for i, r in enumerate(x for t in before for x in t)}
    for a, b in zip(got, got[1:]):
        if key(sorting)(a) == key(sorting)(b):
            expect(pos[a['name']] < pos[b['name']], 'rows with equal keys left their order', a=a, b=b, **info)
    expect([t.to_pylist() for t in rd.iterate_tables()] == before, 'source modified by sorting', **info)


@case('C15')
def sort_in_place(rng, size, tmp):
    w, kind = writer(rng, tmp)
    rows = fill(rng, w, rng.randint(1, 8 + 8 * size))
    before = [t.to_pylist() for t in w.to_reader().iterate_tables()]
    sorting = rsorting(rng)
    extra = []
    if rng.random() < .5:
        extra = [row(rng, 1000 + j) for j in range(2)]
        w.write_rows(extra)       # buffered rows are part of the cache
    w.sort_by(sorting)
    after = [t.to_pylist() for t in w.to_reader().iterate_tables()]
    if not extra:
        expect_eq(len(after), len(before), 'number of tables')
        for a, b in zip(after, before):
            expect_eq(sorted(r['name'] for r in a), sorted(r['name'] for r in b), 'rows of a table')
    names = {r['name']: r for r in rows + extra}
    expect_eq(sorted(r['name'] for t in after for r in t), sorted(names), 'rows after sorting in place')
    for a in after:
        ks = [key(sorting)(r) for r in a]
        expect(ks == sorted(ks), 'table order', keys=ks)
        expect(all(names[r['name']] == r for r in a), 'row contents')


PS = pa.schema([('id', pa.int64()), ('v', pa.int64()), ('t', pa.int64())])


@case('C16', weight=3)
def pages(rng, size, tmp):
    from valor_lite.cache import compute, MemoryCacheWriter, FileCacheWriter
    n = rng.randint(1, 4 + 4 * size)
    if rng.random() < .4:
        w = MemoryCacheWriter.create(schema=PS, batch_size=rng.choice([1, 3, 100]))
    else:
        w = FileCacheWriter.create(path=tmp.new(), schema=PS, batch_size=rng.choice([1, 2, 5]), rows_per_file=rng.choice([1, 2, 4, 9, 100]))
    total = 0
    ids = list(range(n))
    if rng.random() < .3:
        rng.shuffle(ids)
    most = rng.choice([1, 4])
    for i in ids:
        k = rng.randint(1, most)
        w.write_rows([{'id': i, 'v': total + j, 't': rng.randint(0, 2)} for j in range(k)])
        total += k
    if rng.random() < .4:
        w.flush(); w.sort_by([('v', 'descending')])
    rd = w.to_reader()
    flt = None
    if rng.random() < .4:
        flt = pc.field('t') == rng.randint(0, 2)
    tables = [t.to_pylist() for t in rd.iterate_tables(filter=flt)]
    index = [i for t in tables for i in sorted({r['id'] for r in t})]
    rows = {}
    for t in tables:
        for r in t:
            rows.setdefault(r['id'], []).append(r['v'])
    run = lambda limit, offset: [r for t in compute.paginate_index(source=rd, column_key='id', modifier=flt, limit=limit, offset=offset) for r in t.to_pylist()]

    def check(got, want, what):
        d = {}
        for r in got:
            d.setdefault(r['id'], []).append(r['v'])
        expect_eq(sorted(d), sorted(want), what, index=index, tables=[[r['id'] for r in t] for t in tables])
        for i in want:
            expect_eq(d[i], rows[i], f'{what}: rows of datum {i}')
    check(run(None, 0), index, 'no limit')
    for _ in range(8):
        o, l = rng.randint(0, n + 3), rng.choice([0, 1, 2, 3, rng.randint(1, n), n, n + 2, total, total + 5])
        check(run(l, o), index[o:o + l], f'offset {o} limit {l}')
        check(run(None, o), index[o:], f'offset {o} no limit')
    k = rng.randint(1, n)
    got = []
    for o in range(0, len(index) + k, k):
        got += run(k, o)
    expect_eq(sorted(r['v'] for r in got), sorted(v for vs in rows.values() for v in vs), f'union of the pages of {k}')


def tree(p):
    out = {}
    for d, ds, fs in os.walk(p):
        for f in fs:
            q = os.path.join(d, f)
            out[os.path.relpath(q, p)] = open(q, 'rb').read()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), p) + '/'] = None
    return out


@case('C21', weight=.7)
def create_delete(rng, size, tmp):
    from valor_lite.cache import FileCacheWriter
    p = tmp.new()
    mk = lambda **kw: FileCacheWriter.create(path=p, schema=SCHEMA, batch_size=2, rows_per_file=3, **kw)
    what = rng.choice(['dir', 'dirfile', 'file', 'cache', 'parent', 'cacheplus'])
    if what == 'parent':
        mk(); return
    if what == 'file':
        open(p, 'w').write('x')
    elif what == 'dir':
        os.mkdir(p)
    elif what == 'dirfile':
        os.mkdir(p); open(os.path.join(p, 'keep.txt'), 'w').write('x')
        if rng.random() < .5:
            open(os.path.join(p, '000000.parquet'), 'w').write('not a cache')
    else:
        w = mk(); rows = [row(rng, i) for i in range(rng.randint(0, 9))]
        w.write_rows(rows); w.flush()
        if what == 'cacheplus':
            extra = rng.choice(['notes.txt', 'x.parquet.bak', 'sub/', 'sub/000001.parquet', 'a.json', 'parquet', '.cfg.bak'])
            q = os.path.join(p, extra)
            if extra.endswith('/'):
                os.mkdir(q)
            else:
                os.makedirs(os.path.dirname(q), exist_ok=True); open(q, 'w').write('mine')
    root = os.path.dirname(p)
    open(os.path.join(root, 'sibling.parquet'), 'w').write('s')
    before = tree(root)
    expect_raises(lambda: mk(), Exception, f'creating over {what}')
    expect_eq(tree(root), before, f'failed create over {what} changed files')
    b = os.path.basename(p) + '/'
    own = {k for k in before if k.startswith(b) and '/' not in k[len(b):].rstrip('/') and (k.endswith('.parquet') or k == b + '.cfg')}
    if what in ('cache', 'cacheplus'):
        use = rng.choice(['delete', 'create'])
        try:
            if use == 'delete':
                FileCacheWriter.delete(p)
            else:
                w = mk(delete_if_exists=True)
                w.write_rows([row(rng, 0)]); w.flush()
                expect_eq(w.count_rows(), 1, 'recreated cache')
            failed = None
        except Exception as e:
            failed = e
        after = tree(root)
        gone = set(before) - set(after)
        bad = gone - own - {b}
        expect(not bad, f'{use} removed files that are not part of the cache', removed=sorted(bad))
        changed = [k for k in before if k in after and after[k] != before[k] and k not in own]
        expect(not changed, f'{use} changed other files', changed=changed)
        if what == 'cache':
            expect(failed is None, f'{use} failed: {failed}')
            if use == 'delete':
                expect(not os.path.exists(p), 'cache directory still exists after delete')
    else:
        try:
            FileCacheWriter.delete(p)
        except Exception:
            pass
        after = tree(root)
        lost = {k for k in before if k not in after and k != b}
        expect(not lost, f'delete of {what} removed files', removed=sorted(lost))


@case('C17', weight=.5)
def same_rows_everywhere(rng, size, tmp):
    rows = [row(rng, i) for i in range(rng.randint(1, 6 + 6 * size))]
    sorting = rsorting(rng)
    from valor_lite.cache import compute
    res = []
    for _ in range(3):
        w, kind = writer(rng, tmp)
        i = 0
        while i < len(rows):
            k = rng.randint(1, 4); w.write_rows(rows[i:i + k]); i += k
        sink, k2 = writer(rng, tmp)
        rd = w.to_reader()
        expect(read(rd) == rows, f'rows in {kind} cache')
        compute.sort(source=rd, sink=sink, batch_size=rng.choice([1, 2, 50]), sorting=sorting)
        res.append((kind, k2, read(sink.to_reader())))
    for r in res[1:]:
        expect(r[2] == res[0][2], f'sorted rows differ between {res[0][:2]} and {r[:2]}', sorting=sorting)
