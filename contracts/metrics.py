"""Specifications of metric lists: one entry per combination of indices, each carrying its own value and parameters."""
import itertools
from .base import *
from vc.ops import tuple_


class Seq:
    """a list of n values"""

    def __init__(self, n, f):
        self.n, self.f = n, f


class Map:
    """a dict with exactly the keys key(0), ..., key(n-1)"""

    def __init__(self, n, key, f):
        self.n, self.key, self.f = n, key, f


class Any:
    """not constrained"""


def labels(c, lo=1):
    """index_to_label: the indices 0..L-1, distinct names"""
    L = c.size('L', lo)
    lab = lambda i: app('lab', (term(i),), 'S')
    i, j = fresh('I', 'i'), fresh('I', 'j')
    c.require(forall([i, j], implies(and_(le(ZERO, i), lt(i, L), le(ZERO, j), lt(j, L), eq(lab(i), lab(j))), eq(i, j))))
    return L, lab, SymDict(L, lab)


def thresholds(c, name, lo=1):
    n = c.size('n_' + name, lo)
    k = fresh('I', 'k')
    return n, lambda i: app(name, (i,), 'R'), seq(k, n, app(name, (k,), 'R'))


def rng(v, n):
    return and_(le(ZERO, v), lt(v, n))


def flatten(parts, vs=(), dom=TRUE):
    for p in parts:
        if p[0] == 'one':
            yield vs, dom, p[1]
        elif p[0] == 'seg':
            yield from flatten(p[3], vs + tuple(p[1]), and_(dom, p[2]))
        elif p[0] == 'if':
            yield from flatten(p[2], vs, and_(dom, p[1]))
        else:
            raise Unsupported('unknown list contents')


def inside(q, n):
    """q is an index of a dimension: below n, or in the set n"""
    return n(q) if callable(n) else rng(q, n)


class Bag:
    """specification of a list whose order is not specified: one entry for every element of a set; f(*vars) -> (condition, entry)"""

    def __init__(self, sorts, f):
        self.sorts, self.f = sorts, f


def bag(c, name, v, spec, hyps, props):
    same = lambda a, b: and_(const(len(a) == len(b)), *[eq(ops.scal(x), ops.scal(y)) for x, y in zip(a, b)])
    row = lambda x: tuple(x) if isinstance(x, (tuple, tuple_)) else (x,)
    es = list(flatten(listed(v)))
    ws = [fresh(s, 'w') for s in spec.sorts]
    cond, want = spec.f(*ws)
    news = []
    for i, (vs, d, x) in enumerate(es):
        m = {w: fresh(w.sort, 'u') for w in vs}
        news.append((list(m.values()), subst(d, m), row(ops.subst_value(x, m))))
    c.ensure(name + '.complete', quantify(hyps + [cond], or_(*[exists(vs, and_(d, same(x, row(want)))) for vs, d, x in news])), props)
    for i, (vs, d, x) in enumerate(news):
        tag = f'[{i}]' if len(news) > 1 else ''
        c.ensure(f'{name}.only{tag}', quantify(hyps + [d], exists(ws, and_(cond, same(x, row(want))))), props)
        m = {w: fresh(w.sort, 'v') for w in vs}
        c.ensure(f'{name}.once{tag}', quantify(hyps + [d, subst(d, m), same(x, tuple(subst(ops.scal(y), m) for y in x))], and_(*[eq(w, m[w]) for w in vs])), props)
        for j in range(i):
            c.ensure(f'{name}.once[{j},{i}]', not_(and_(*hyps, d, news[j][1], same(x, news[j][2]))), props)


def listed(v):
    if isinstance(v, PyList):
        return v.parts
    if isinstance(v, (tuple, list)):
        return tuple(('one', x) for x in v)
    raise Unsupported(f'expected a list, not {type(v).__name__}')


def match(entry_vars, sizes, probe):
    """assignment of specification variables to the variables of an entry: the one under which most parameters agree"""
    sv = [fresh('I', 'q') for _ in sizes]
    if len(entry_vars) != len(sizes):
        raise Unsupported('list entries are indexed differently')
    best = None
    for perm in itertools.permutations(range(len(sizes))):
        m = {entry_vars[a]: sv[b] for a, b in enumerate(perm)}
        s = probe(m, sv)
        if best is None or s > best[0]:
            best = (s, m)
    return sv, best[1]


def compare(c, name, v, spec, hyps, props):
    """obligations that the value v is what spec says, under hyps"""
    if isinstance(spec, Any):
        return
    if isinstance(spec, dict):
        if not isinstance(v, PyDict) or v.updates:
            c.ensure(name + '.dict', FALSE, props) if not isinstance(v, PyDict) else unsupported('symbolic dict')
            return
        if set(v.items) != set(spec):
            c.ensure(name + f'.keys{sorted(map(str, set(v.items) ^ set(spec)))}', implies(and_(*hyps), FALSE), props)
            return
        for k in spec:
            compare(c, f'{name}.{k}', v.items[k], spec[k], hyps, props)
    elif isinstance(spec, Bag):
        bag(c, name, v, spec, hyps, props)
    elif isinstance(spec, Seq):
        sequence(c, name, v, spec, hyps, props)
    elif isinstance(spec, Map):
        mapping(c, name, v, [spec], hyps, props)
    elif spec is None or isinstance(spec, (str, bool)):
        ok = v is None if spec is None else I_eq(c, v, spec)
        c.ensure(name, implies(and_(*hyps), ok if isinstance(ok, T) else const(bool(ok))), props)
    else:
        s = ops.scal(spec)
        if v is None or not (isinstance(v, T) or isinstance(v, (int, float, str))):
            unsupported(f'{name}: value {type(v).__name__}')
        x = ops.scal(v)
        if x.sort != s.sort and {x.sort, s.sort} <= {'I', 'R'}:
            x, s = term(x, 'R'), term(s, 'R')
        if x.sort != s.sort:
            c.ensure(name + '.type', implies(and_(*hyps), FALSE), props)
            return
        c.ensure(name, quantify(hyps, eq(x, s)), props)


def quantify(hyps, goal):
    return implies(and_(*hyps), goal)


def I_eq(c, v, spec):
    if isinstance(v, (str, bool)) and not isinstance(v, T):
        return v == spec
    if isinstance(v, T) and isinstance(spec, str):
        return eq(v, const(spec, 'S'))
    return v is spec


def unsupported(why):
    raise Unsupported(why)


def sequence(c, name, v, spec, hyps, props):
    es = list(flatten(listed(v)))
    n = term(spec.n)
    if all(not vs for vs, _, _ in es) and is_c(n):
        if all(d is TRUE for _, d, _ in es):
            c.ensure(name + '.length', const(len(es) == n.args[0]), props)
            for i, (_, _, x) in enumerate(es[:n.args[0]]):
                compare(c, f'{name}[{i}]', x, spec.f(const(i)), hyps, props)
            return
        unsupported(f'{name}: conditional list')
    if len(es) != 1 or len(es[0][0]) != 1 or es[0][0][0] not in ASC:
        unsupported(f'{name}: list of unknown order')
    (ev,), d, x = es[0]
    q = fresh('I', 'q')
    m = {ev: q}
    c.ensure(name + '.length', implies(and_(*hyps), eq(subst(d, m), rng(q, n))), props)
    compare(c, name + '[]', ops.subst_value(x, m), spec.f(q), hyps + [rng(q, n)], props)


def leaves(d, depth):
    """entries of nested dicts as (variables, condition, path of keys, value); None if some write replaces a whole dict"""
    out = []
    for k, v in d.items.items():
        if depth > 1 and isinstance(v, PyDict):
            return None
        out.append(((), TRUE, (ops.scal(k),), v))
    for vs, dom, key, val in d.updates:
        path = tuple(key) if isinstance(key, tuple_) else (key,)
        if len(path) < depth:
            if not isinstance(key, tuple_) or not isinstance(val, PyDict):
                return None
            sub_ = leaves(val, depth - len(path))
            if sub_ is None:
                return None
            out += [(vs + v2, and_(dom, d2), path + p2, x) for v2, d2, p2, x in sub_]
        elif len(path) == depth:
            out.append((vs, dom, path, val))
        else:
            raise Unsupported('nested dict')
    return out


def mapping(c, name, v, specs, hyps, props):
    if not isinstance(v, PyDict):
        unsupported(f'{name}: not a dict')
    spec = specs[0]
    qs = [fresh('I', 'q')]
    inner = spec.f(qs[0])
    levels = [spec]
    while isinstance(inner, Map):
        levels.append(inner)
        qs.append(fresh('I', 'q'))
        inner = inner.f(qs[-1])
    lv = leaves(v, len(levels))
    if lv is not None:
        keys = [l.key(q) for l, q in zip(levels, qs)]
        dom = and_(*[rng(q, l.n) for l, q in zip(levels, qs)])
        here = []
        for i, (vs, d, path, x) in enumerate(lv):
            m = {w: fresh(w.sort, 'u') for w in vs}
            d, path, x = subst(d, m), [subst(k, m) for k in path], ops.subst_value(x, m)
            at = and_(*[eq(a, b) for a, b in zip(path, keys)])
            here.append(exists(list(m.values()), and_(d, at)))
            tag = f'{name}{{{i}}}' if len(lv) > 1 else name + '{}'
            compare(c, tag, x, inner, hyps + [dom, d, at], props)
            c.ensure(tag + '.key', quantify(hyps + [d], exists(qs, and_(dom, at))), props)
        c.ensure(name + '.present', quantify(hyps + [dom], or_(*here)), props)
        return
    # a dict stored as a whole: whichever write comes last, it holds what it should
    if v.items or any(isinstance(u[2], tuple_) for u in v.updates):
        unsupported(f'{name}: nested dict written in several ways')
    q = qs[0]
    here = []
    for i, (vs, d, key, x) in enumerate(v.updates):
        m = {w: fresh(w.sort, 'u') for w in vs}
        d, key, x = subst(d, m), subst(key, m), ops.subst_value(x, m)
        at = eq(key, spec.key(q))
        here.append(exists(list(m.values()), and_(d, at)))
        tag = f'{name}{{{i}}}' if len(v.updates) > 1 else name + '{}'
        compare(c, tag, x, spec.f(q), hyps + [rng(q, spec.n), d, at], props)
        c.ensure(tag + '.key', quantify(hyps + [d], exists([q], and_(rng(q, spec.n), at))), props)
    c.ensure(name + '.present', quantify(hyps + [rng(q, spec.n)], or_(*here)), props)


def metric_list(c, name, v, sizes, typ, spec, props=None):
    """v holds exactly one metric per index tuple of the given sizes; spec(*indices) -> (value, parameters)"""
    props = props or c.con.props
    es = list(flatten(listed(v)))
    if not sizes:
        c.ensure(name + '.one-entry', const(len(es) == 1 and not es[0][0] and es[0][1] is TRUE), props)
        if len(es) != 1:
            return
    doms, norm = [], None
    for i, (vs, dom, x) in enumerate(es):
        if not isinstance(x, Inst):
            unsupported(f'{name}: entry {type(x).__name__}')

        def probe(m, sv):
            par = spec(*sv)[1]
            got = x.attrs.get('parameters')
            if not isinstance(got, PyDict):
                return 0
            n = 0
            for k, w in par.items():
                g = got.items.get(k)
                if isinstance(w, T) and isinstance(g, T):
                    n += subst(g, m) is w
            return n
        sv, m = match(vs, sizes, probe)
        if norm is None:
            norm = sv
        m2 = {k: subst(t, dict(zip(sv, norm))) for k, t in m.items()}
        d = subst(dom, m2)
        doms.append(d)
        want, par = spec(*norm)
        y = ops.subst_value(x, m2)
        tag = name if len(es) == 1 else f'{name}#{i}'
        hy = [inside(q, n) for q, n in zip(norm, sizes)] + [d]
        compare(c, tag + '.type', y.attrs.get('type'), typ, hy, props)
        compare(c, tag + '.value', y.attrs.get('value'), want, hy, props)
        compare(c, tag + '.parameters', y.attrs.get('parameters'), par, hy, props)
    if not es:
        c.ensure(name + '.one-entry-each', not_(exists(qs := [fresh('I', 'q') for _ in sizes], and_(*[inside(q, n) for q, n in zip(qs, sizes)]))), props)
        return
    box = and_(*[inside(q, n) for q, n in zip(norm, sizes)])
    if sizes:
        c.ensure(name + '.one-entry-each', eq(or_(*doms), box), props)
    for i in range(len(doms)):
        for j in range(i):
            c.ensure(name + f'.distinct[{j},{i}]', not_(and_(box, doms[i], doms[j])), props)
