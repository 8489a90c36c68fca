"""Shared pieces of the concrete layer (executable contracts, run on the real code)."""
import math, random, shutil, tempfile, os


class Fail(Exception):
    """An executable contract was violated by the real code."""


class Skip(Exception):
    """The entry point this case needs does not exist under its usual name."""


TOL = 1e-9


def close(a, b, tol=TOL):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return False
    return abs(a - b) <= tol


def expect(cond, msg, **info):
    if not cond:
        raise Fail(msg + (' | ' + ', '.join(f'{k}={v!r}' for k, v in info.items()) if info else ''))


def expect_eq(a, b, msg, **info):
    if a != b:
        raise Fail(f'{msg}: got {a!r}, expected {b!r}' + (' | ' + ', '.join(f'{k}={v!r}' for k, v in info.items()) if info else ''))


def expect_close(a, b, msg, **info):
    if not close(a, b):
        raise Fail(f'{msg}: got {a!r}, expected {b!r}' + (' | ' + ', '.join(f'{k}={v!r}' for k, v in info.items()) if info else ''))


def expect_raises(fn, types, msg):
    try:
        r = fn()
    except types:
        return
    except Exception as e:  # noqa
        raise Fail(f'{msg}: raised {type(e).__name__} ({e}) instead of {types}')
    raise Fail(f'{msg}: accepted, returned {r!r}')


class Scratch:
    """A scratch directory removed at the end of the case."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vcase_')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def new(self, name='c'):
        p = tempfile.mkdtemp(prefix=name, dir=self.path)
        rng = getattr(self, 'rng', None)
        if rng is not None and rng.random() < .25:
            q = os.path.join(p, *rng.choice([('c[1]',), ('c*',), ('c d',), ('a', 'b', 'c'), ('c.v1',), ('ä',), ('c?',), ('[!x]', 'c'), ('c.parquet',), ("it's",), ('.c',)]))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            return q
        return os.path.join(p, 'cache')


REG = {}


def case(*props, weight=1, name=None):
    """register fn(rng, size, tmp) as a case of the given properties"""
    def deco(fn):
        for p in props:
            REG.setdefault(p, []).append((name or fn.__module__ + '.' + fn.__name__, fn, weight))
        return fn
    return deco


def canon(x):
    """canonical form of metric objects for comparisons between runs"""
    if hasattr(x, 'to_dict'):
        x = x.to_dict()
    if isinstance(x, dict):
        return {(k.value if hasattr(k, 'value') else k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return x


def same(a, b, path='', tol=TOL):
    """None if equal up to float tolerance, else where they differ"""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else f'{path}: {a!r} != {b!r}'
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if close(float(a), float(b), tol) else f'{path}: {a!r} != {b!r}'
    if type(a) is not type(b):
        return f'{path}: {a!r} != {b!r}'
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'{path}: keys {sorted(map(str, set(a) ^ set(b)))}'
        for k in a:
            r = same(a[k], b[k], f'{path}.{k}', tol)
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: length {len(a)} != {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f'{path}[{i}]', tol)
            if r:
                return r
        return None
    return None if a == b else f'{path}: {a!r} != {b!r}'


def keyed(metrics):
    """list of metrics -> dict keyed by (type, sorted parameters); duplicates kept as list"""
    import json
    out = {}
    for m in metrics:
        d = canon(m)
        out.setdefault(json.dumps([d['type'], d['parameters']], sort_keys=True), []).append(d['value'])
    return out


ODD = ['L0', 'L0 ', ' L0', 'l0', 'L 0', 'L0\n', '\tL0', '0', '-1', '1.0', 'None', 'nan', 'true', 'Ünï', 'U\u0308ni\u0308', '標識', 'a,b', 'a"b', "a'b", '{x}', 'x/y', 'label', 'x' * 300]


def names(rng, n):
    """label names; now and then ones that a careless normalisation would merge or change"""
    if n <= len(ODD) and rng.random() < .25:
        return rng.sample(ODD, n)
    return [f'L{i}' for i in range(n)]


EXTRA = ['int8', 'int32', 'uint16', 'uint64', 'float', 'double', 'string', 'large_string', 'bool', 'binary', 'large_binary', 'date32', 'timestamp[ms]', 'timestamp[us]', 'tz', 'decimal', 'list', 'fixed']


def extra_fields(rng):
    """further metadata fields of assorted types"""
    return [(f'x{i}_{rng.choice(["a", "b c", "é"])}', rng.choice(EXTRA)) for i in range(rng.choice([0, 0, 1, 2, 4]))]


def fields_after_load(Loader, Evaluator, add, rng, tmp):
    """the declared metadata fields are the ones reported, by the evaluator and by one loaded from disk"""
    import pyarrow as pa
    fs = extra_fields(rng)
    alias = {'date32': pa.date32(), 'timestamp[ms]': pa.timestamp('ms'), 'timestamp[us]': pa.timestamp('us'), 'tz': pa.timestamp('us', tz='UTC'), 'decimal': pa.decimal128(10, 2),
             'list': pa.list_(pa.int64()), 'fixed': pa.binary(4)}
    given = [(k, alias[t] if t in alias else (getattr(pa, t)() if rng.random() < .5 and hasattr(pa, t) else t)) for k, t in fs]
    def real(t):
        return t if not isinstance(t, str) else pa.type_for_alias(t)
    want = [(k, str(real(t))) for k, t in given]
    path = tmp.new()
    loader = Loader.persistent(path=path, metadata_fields=given or None)
    add(loader)
    ev = loader.finalize()
    for what, e in (('evaluator', ev), ('loaded evaluator', Evaluator.load(path))):
        got = [(k, str(real(t))) for k, t in (e.info.metadata_fields or [])]
        expect_eq(got, want, f'metadata fields of the {what}')
        import pyarrow.compute as pc
        try:
            f = e.filter(datums=pc.field('datum_id') >= 0, path=tmp.new())
        except Exception as x:
            raise Fail(f'filtering the {what} with metadata fields {want}: {type(x).__name__}: {x}')
        expect_eq((f.info.number_of_datums, [(k, str(real(t))) for k, t in (f.info.metadata_fields or [])]), (e.info.number_of_datums, want), f'filtered {what}')


def cfgs(rng):
    """a random cache configuration"""
    if rng.random() < .5:
        return {'kind': 'memory', 'batch_size': rng.choice([1, 2, 3, 5, 10, 10_000])}
    return {'kind': 'file', 'batch_size': rng.choice([1, 2, 3, 5, 10, 10_000]),
            'rows_per_file': rng.choice([1, 2, 3, 5, 8, 20, 100_000]),
            'compression': rng.choice(['snappy', 'gzip', 'none'])}


def make_loader(Loader, cfg, tmp, metadata_fields=None):
    kw = {k: v for k, v in cfg.items() if k in ('batch_size', 'rows_per_file', 'compression')}
    if cfg['kind'] == 'memory':
        return Loader.in_memory(metadata_fields=metadata_fields, **kw), None
    path = tmp.new()
    return Loader.persistent(path=path, metadata_fields=metadata_fields, **kw), path


def partition(rng, items, cfg_parts=None):
    """split items into consecutive add calls"""
    if not items:
        return []
    mode = rng.randint(0, 2)
    if mode == 0:
        return [items]
    if mode == 1:
        return [[x] for x in items]
    out, i = [], 0
    while i < len(items):
        k = rng.randint(1, 3)
        out.append(items[i:i + k])
        i += k
    return out


def norm(r):
    """metric dictionary keyed by plain type names"""
    return {getattr(k, 'value', k): v for k, v in r.items()}


def order_free(x):
    """lists of examples compared as multisets"""
    import json
    if isinstance(x, dict):
        return {k: order_free(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((order_free(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    return x


def continue_from(loader, n, *names):
    """a loader that has handed out n ids already"""
    for k in names:
        if type(getattr(loader, k, None)) is not int or getattr(loader, k) != 0:
            raise Skip('id counter ' + k)
    for k in names:
        setattr(loader, k, n)
