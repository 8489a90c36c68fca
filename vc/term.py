"""Hash-consed first-order terms with binders (forall, exists, count, sum).

Sorts: 'I' integers, 'R' reals, 'B' booleans, other strings are uninterpreted sorts.
count(vs, P) is the number of tuples vs satisfying P (finite by construction: every binder over
array positions carries its bounds); sum(vs, P, v) the sum of v over those tuples.
"""
from fractions import Fraction

_tab = {}
_cnt = [0]
_fresh = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'bd', '_sc')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise TypeError(f'symbolic truth value: {self!r}')


def _mk(op, args, sort, fv=None, bd=None):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    _cnt[0] += 1
    t.id = _cnt[0]
    if fv is None:
        fs = [a.fv for a in args if isinstance(a, T)]
        fv = frozenset().union(*fs) if fs else frozenset()
        bd = max([a.bd for a in args if isinstance(a, T)], default=0)
    t.fv, t.bd = fv, bd
    _tab[key] = t
    return t


def var(name, sort='I'):
    key = ('var', (name,), sort)
    t = _tab.get(key)
    if t is None:
        t = _mk('var', (name,), sort, frozenset(), 0)
        t.fv = frozenset([t])
    return t


def fresh(sort='I', hint='v'):
    _fresh[0] += 1
    return var(f'{hint}~{_fresh[0]}', sort)


def const(v, sort=None):
    if isinstance(v, bool):
        return _mk('c', (v,), 'B', frozenset(), 0)
    if sort is None:
        sort = 'I' if isinstance(v, int) else 'R'
    return _mk('c', (Fraction(v) if sort == 'R' else int(v), ), sort, frozenset(), 0)


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def sym(name, sort='S'):
    """distinct constant of an uninterpreted sort (e.g. a string literal)"""
    return _mk('lit', (name,), sort, frozenset(), 0)


def is_c(t):
    return t.op == 'c'


def term(x, sort=None):
    if isinstance(x, T):
        if sort == 'R' and x.sort == 'I':
            return to_real(x)
        if sort == 'R' and x.sort == 'B':
            return ite(x, const(1, 'R'), const(0, 'R'))
        if sort == 'I' and x.sort == 'B':
            return ite(x, ONE, ZERO)
        return x
    if isinstance(x, bool):
        return term(const(x), sort) if sort in ('I', 'R') else const(x)
    if isinstance(x, int):
        return const(x, sort or 'I')
    if isinstance(x, float):
        import math
        if math.isinf(x) or math.isnan(x):
            raise ValueError('non-finite constant')
        return const(Fraction(repr(x)), 'R')
    if isinstance(x, Fraction):
        return const(x, 'R')
    if isinstance(x, str):
        return sym(x, 'S')
    raise TypeError(f'not a scalar: {x!r}')


def to_real(t):
    if t.sort == 'R':
        return t
    if is_c(t):
        return const(t.args[0], 'R')
    if t.op == 'ite':
        return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    if t.op == '+':
        return add(*[to_real(a) for a in t.args])
    if t.op == '*':
        return mul(*[to_real(a) for a in t.args])
    return _mk('toreal', (t,), 'R')


def app(f, args, sort):
    return _mk('app', (f,) + tuple(args), sort)


# ------------------------------------------------------------------ booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'exists':
        vs, b = open_(a)
        return forall(vs, not_(b))
    if a.op == 'forall':
        vs, b = open_(a)
        return exists(vs, not_(b))
    return _mk('not', (a,), 'B')


def _flat(op, xs):
    for x in xs:
        if x.op == op:
            yield from x.args
        else:
            yield x


def and_(*xs):
    seen = {}
    for x in _flat('and', xs):
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        seen[x.id] = x
    for x in list(seen.values()):
        n = not_cheap(x)
        if n is not None and n.id in seen:
            return FALSE
    # absorption: a & (a | b) = a
    out = []
    for x in seen.values():
        if x.op == 'or' and any(y.id in seen for y in x.args):
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def or_(*xs):
    seen = {}
    for x in _flat('or', xs):
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        seen[x.id] = x
    for x in list(seen.values()):
        n = not_cheap(x)
        if n is not None and n.id in seen:
            return TRUE
    out = []
    for x in seen.values():
        if x.op == 'and' and any(y.id in seen for y in x.args):
            continue
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(sorted(out, key=lambda t: t.id)), 'B')


def not_cheap(x):
    if x.op == 'not':
        return x.args[0]
    if x.op == '<':
        return _tab.get(('<=', (x.args[1], x.args[0]), 'B'))
    if x.op == '<=':
        return _tab.get(('<', (x.args[1], x.args[0]), 'B'))
    return _tab.get(('not', (x,), 'B'))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.sort != b.sort:
        s = 'R' if 'R' in (a.sort, b.sort) else 'I'
        a, b = term(a, s), term(b, s)
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.sort)


def _num(a, b):
    a, b = term(a), term(b)
    if a.sort == b.sort:
        if a.sort == 'B':
            return term(a, 'I'), term(b, 'I')
        return a, b
    if 'R' in (a.sort, b.sort):
        return term(a, 'R'), term(b, 'R')
    if 'I' in (a.sort, b.sort) and 'B' in (a.sort, b.sort):
        return term(a, 'I'), term(b, 'I')
    return a, b


def _lift(f, a, b):
    """push a comparison with a constant into an ite of constants"""
    if a.op == 'ite' and is_c(b) and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == 'ite' and is_c(a) and (is_c(b.args[1]) or is_c(b.args[2])):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def eq(a, b):
    if a.sort != b.sort:
        if {a.sort, b.sort} <= {'I', 'R', 'B'}:
            a, b = _num(a, b)
        else:
            raise TypeError(f'eq of {a.sort} and {b.sort}')
    if a is b:
        return TRUE
    if is_c(a) and is_c(b):
        return const(a.args[0] == b.args[0])
    if a.op == 'lit' and b.op == 'lit':
        return FALSE
    if a.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if not_cheap(a) is b:
            return FALSE
    else:
        r = _lift(eq, a, b)
        if r is not None:
            return r
        if a.sort in ('I', 'R'):
            d = sub(a, b)
            if is_c(d):
                return const(d.args[0] == 0)
            if d.op == '+' or d.op == '*' and is_c(d.args[0]):
                a, b = _sides(d)
            if a.sort == 'R':
                x, y = int_view(a), int_view(b)
                if x is not None and y is not None:
                    return eq(x, y)
    if a.id > b.id:
        a, b = b, a
    return _mk('=', (a, b), 'B')


def ne(a, b):
    return not_(eq(a, b))


def _sides(d):
    """d = p - n with positive coefficients on both sides; (n, p)"""
    pos, neg_ = [], []
    for x in (d.args if d.op == '+' else (d,)):
        c, r = _split(x)
        (pos if c > 0 else neg_).append(x if c > 0 else neg(x))
    z = const(0, d.sort)
    # divide by a common integer factor
    return (add(*neg_) if neg_ else z), (add(*pos) if pos else z)


def _konst(d):
    for x in (d.args if d.op == '+' else (d,)):
        if is_c(x):
            return x.args[0]
    return 0


def lt(a, b):
    a, b = _num(a, b)
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return const(a.args[0] < b.args[0])
    r = _lift(lt, a, b)
    if r is not None:
        return r
    d = sub(b, a)
    if is_c(d):
        return const(d.args[0] > 0)
    if d.sort == 'I' and _konst(d) == 1:
        return le(ZERO, sub(d, ONE))
    a, b = _sides(d)
    if a.sort == 'R':
        x, y = int_view(a), int_view(b)
        if x is not None and y is not None:
            return lt(x, y)
    if _nonneg(a) and is_c(b) and b.args[0] <= 0:
        return FALSE
    return _mk('<', (a, b), 'B')


def le(a, b):
    a, b = _num(a, b)
    if a is b:
        return TRUE
    if is_c(a) and is_c(b):
        return const(a.args[0] <= b.args[0])
    r = _lift(le, a, b)
    if r is not None:
        return r
    d = sub(b, a)
    if is_c(d):
        return const(d.args[0] >= 0)
    if d.sort == 'I' and _konst(d) == -1:
        return lt(ZERO, add(d, ONE))
    a, b = _sides(d)
    if a.sort == 'R':
        x, y = int_view(a), int_view(b)
        if x is not None and y is not None:
            return le(x, y)
    if is_c(a) and a.args[0] <= 0 and _nonneg(b):
        return TRUE
    return _mk('<=', (a, b), 'B')


def int_view(t):
    """integer term of the same value as a real term, when it has that form"""
    if t.op == 'toreal':
        return t.args[0]
    if is_c(t):
        v = Fraction(t.args[0])
        return const(int(v), 'I') if v.denominator == 1 else None
    if t.op in ('+', '*'):
        xs = [int_view(a) for a in t.args]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = add(r, x) if t.op == '+' else mul(r, x)
        return r
    return None


def _nonneg(t):
    if t.op == 'count':
        return True
    if is_c(t):
        return t.args[0] >= 0
    if t.op in ('+', '*'):
        return all(_nonneg(a) for a in t.args)
    if t.op == 'toreal':
        return _nonneg(t.args[0])
    if t.op == 'ite':
        return _nonneg(t.args[1]) and _nonneg(t.args[2])
    if t.op == 'sum':
        return _nonneg(t.args[2])
    return False


# ------------------------------------------------------------------ arithmetic
def _split(t):
    """coefficient, rest"""
    if is_c(t):
        return t.args[0], None
    if t.op == '*' and is_c(t.args[0]):
        r = t.args[1:]
        return t.args[0].args[0], (r[0] if len(r) == 1 else _mk('*', r, t.sort))
    return 1, t


def add(*xs):
    xs = [term(x) for x in xs]
    s = 'R' if any(x.sort == 'R' for x in xs) else 'I'
    acc, k = {}, 0
    order = []
    stack = []
    for x in xs:
        x = term(x, s)
        stack += list(x.args) if x.op == '+' else [x]
    for x in stack:
        c, r = _split(x)
        if r is None:
            k += c
        else:
            if r.id not in acc:
                acc[r.id] = [0, r]
            acc[r.id][0] += c
    out = []
    for i in sorted(acc):
        c, r = acc[i]
        if c == 0:
            continue
        out.append(r if c == 1 else mul(const(c, s), r))
    if k != 0 or not out:
        out.append(const(k, s))
    if len(out) == 1:
        return out[0]
    return _mk('+', tuple(sorted(out, key=lambda t: t.id)), s)


def neg(a):
    a = term(a)
    return mul(const(-1, a.sort if a.sort == 'R' else 'I'), a)


def sub(a, b):
    a, b = _num(a, b)
    if a is b:
        return const(0, a.sort)
    return add(a, neg(b))


def mul(*xs):
    xs = [term(x) for x in xs]
    s = 'R' if any(x.sort == 'R' for x in xs) else 'I'
    k = 1
    out = []
    stack = []
    for x in xs:
        x = term(x, s)
        stack += list(x.args) if x.op == '*' else [x]
    for x in stack:
        if is_c(x):
            k *= x.args[0]
        else:
            out.append(x)
    if k == 0:
        return const(0, s)
    if not out:
        return const(k, s)
    if len(out) == 1 and out[0].op == '+' and k != 1:
        return add(*[mul(const(k, s), a) for a in out[0].args])
    if len(out) == 1 and out[0].op == 'ite' and is_c(out[0].args[1]) and is_c(out[0].args[2]):
        o = out[0]
        return ite(o.args[0], mul(const(k, s), o.args[1]), mul(const(k, s), o.args[2]))
    out.sort(key=lambda t: t.id)
    if k != 1:
        out = [const(k, s)] + out
    if len(out) == 1:
        return out[0]
    return _mk('*', tuple(out), s)


def div(a, b):
    """real division; meaning is only fixed where the divisor is non-zero"""
    a, b = term(a, 'R'), term(b, 'R')
    if is_c(b) and b.args[0] != 0:
        return mul(const(1 / Fraction(b.args[0]), 'R'), a)
    if is_c(a) and a.args[0] == 0:
        return a
    return _mk('/', (a, b), 'R')


def floordiv(a, b):
    a, b = term(a, 'I'), term(b, 'I')
    if is_c(a) and is_c(b) and b.args[0] != 0:
        return const(a.args[0] // b.args[0])
    if is_c(b) and b.args[0] == 1:
        return a
    return _mk('div', (a, b), 'I')


def mod(a, b):
    a, b = term(a, 'I'), term(b, 'I')
    if is_c(a) and is_c(b) and b.args[0] != 0:
        return const(a.args[0] % b.args[0])
    return _mk('mod', (a, b), 'I')


def floor_(a):
    a = term(a)
    if a.sort == 'I':
        return a
    if is_c(a):
        import math
        return const(math.floor(a.args[0]), 'I')
    if a.op == 'toreal':
        return a.args[0]
    return _mk('floor', (a,), 'I')


def max_(a, b):
    a, b = _num(a, b)
    if a.id > b.id:
        a, b = b, a
    return ite(le(a, b), b, a)


def min_(a, b):
    a, b = _num(a, b)
    if a.id > b.id:
        a, b = b, a
    return ite(le(a, b), a, b)


def abs_(a):
    a = term(a)
    return ite(le(const(0, a.sort), a), a, neg(a))


# ------------------------------------------------------------------ binders
BIND = ('forall', 'exists', 'count', 'sum')


def _rename(t, m, memo):
    """structural replacement of variables by variables/terms without touching inner binder names"""
    if not t.fv & m.keys():
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'var':
        r = m.get(t, t)
    else:
        args = tuple(_rename(a, m, memo) if isinstance(a, T) else a for a in t.args)
        if t.op in ('and', 'or', '+', '='):
            args = tuple(sorted(args, key=lambda x: x.id))
        elif t.op == '*':
            args = tuple(sorted(args, key=lambda x: (not is_c(x), x.id)))
        fv = frozenset().union(*[(frozenset([m[v]]) if v in m else frozenset([v])) for v in t.fv])
        r = _mk(t.op, args, t.sort, fv, t.bd)
    memo[t.id] = r
    return r


def _close(op, vs, bodies, sort):
    fvs = frozenset().union(*[b.fv for b in bodies])
    d = 1 + max(b.bd for b in bodies)
    # canonical order of the bound variables: order of first occurrence, unused ones dropped by the caller
    m = {v: var(f'!{d}_{i}', v.sort) for i, v in enumerate(vs)}
    memo = {}
    bs = tuple(_rename(b, m, memo) for b in bodies)
    bound = tuple(m[v] for v in vs)
    key = (op, (bound,) + bs, sort)
    t = _tab.get(key)
    if t is None:
        t = _mk(op, (bound,) + bs, sort, fvs - frozenset(vs), d)
    return t


def open_(t):
    """fresh variables and bodies of a binder term"""
    bound = t.args[0]
    vs = [fresh(b.sort, 'o') for b in bound]
    m = dict(zip(bound, vs))
    memo = {}
    bs = [_rename(b, m, memo) for b in t.args[1:]]
    return (vs, bs[0]) if len(bs) == 1 else (vs, *bs)


def _occ_order(vs, t):
    """variables of vs in order of first occurrence in t"""
    want, out, seen = set(vs), [], set()

    def go(x):
        if x.id in seen or not (x.fv & want):
            return
        seen.add(x.id)
        if x.op == 'var':
            out.append(x)
            return
        for a in x.args:
            if isinstance(a, T):
                go(a)
    go(t)
    return out


def _conj(t):
    return list(t.args) if t.op == 'and' else [t]


def solve_for(c, v):
    """term e with c <=> (v = e), for an equality linear in v with unit coefficient"""
    if c.op == 'not' and c.args[0] is v:
        return FALSE
    if c is v:
        return TRUE
    if c.op != '=':
        return None
    a, b = c.args
    if v not in c.fv:
        return None
    if a.sort not in ('I', 'R'):
        if a is v and v not in b.fv:
            return b
        if b is v and v not in a.fv:
            return a
        return None
    d = sub(a, b)   # v*k + rest = 0
    parts = d.args if d.op == '+' else (d,)
    k, rest = None, []
    for p in parts:
        co, r = _split(p)
        if r is v:
            k = co
        elif v in p.fv:
            return None
        else:
            rest.append(p)
    if k == 1:
        return neg(add(*rest)) if rest else const(0, v.sort)
    if k == -1:
        return add(*rest) if rest else const(0, v.sort)
    if v.sort == 'R' and k:
        return mul(const(Fraction(-1) / Fraction(k), 'R'), add(*rest)) if rest else const(0, 'R')
    return None


_simp_memo = {}


def _lits(t, pos):
    """literals that hold when t holds (pos) / does not hold"""
    if pos:
        return t.args if t.op == 'and' else (t,)
    return [not_(x) for x in (t.args if t.op == 'or' else (t,))]


def simp(t, known=frozenset()):
    """contextual simplification: conditions decided by sibling conjuncts / enclosing conditions (ids in known)"""
    if t.id in known:
        return TRUE
    if t.sort == 'B':
        n = not_(t) if known and t.op in ('and', 'or') else not_cheap(t)
        if n is not None and n.id in known:
            return FALSE
    if t.op in ('var', 'c', 'lit'):
        return t
    if t.op in ('app', '=', '<', '<=') and not _has_ite(t):
        return t
    if t.op in ('count', 'sum', 'exists', 'forall'):
        return t
    k = (t.id, known)
    r = _simp_memo.get(k)
    if r is not None:
        return r
    if t.op in ('and', 'or'):
        isand = t.op == 'and'
        mk = and_ if isand else or_
        atoms = [x for x in t.args if x.op not in ('and', 'or', 'ite', 'not') or x.op == 'not' and x.args[0].op not in ('ite',)]
        comp = [x for x in t.args if x not in atoms]
        out = [simp(x, known) for x in atoms]
        ctx = known
        if comp:
            ctx = known | {(x if isand else not_(x)).id for x in out}
        res = []
        for x in comp:
            y = simp(x, ctx)
            res.append(y)
        r = mk(*out, *res)
    elif t.op == 'ite':
        c = simp(t.args[0], known)
        if c is TRUE:
            r = simp(t.args[1], known)
        elif c is FALSE:
            r = simp(t.args[2], known)
        else:
            r = ite(c, simp(t.args[1], known | {x.id for x in (c, *_lits(c, True))}),
                    simp(t.args[2], known | {x.id for x in (not_(c), *_lits(c, False))}))
    else:
        args = [simp(a, known) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    _simp_memo[k] = r
    return r


_ite_memo = {}


def _has_ite(t):
    r = _ite_memo.get(t.id)
    if r is None:
        if t.op in ('ite', 'and', 'or'):
            r = True
        elif t.op in BIND:
            r = False
        else:
            r = any(isinstance(a, T) and _has_ite(a) for a in t.args)
        _ite_memo[t.id] = r
    return r


def _pin(vs, cs):
    """find a variable pinned by one conjunct"""
    for v in vs:
        for c in cs:
            e = solve_for(c, v)
            if e is not None and not (e.fv & {v}):
                return v, e, c
    return None


def exists(vs, b):
    b = simp(b)
    vs = [v for v in vs if v in b.fv]
    if not vs or b is FALSE or b is TRUE:
        return b
    if b.op == 'or':
        return or_(*[exists(vs, x) for x in b.args])
    cs = _conj(b)
    p = _pin(vs, cs)
    if p:
        v, e, c = p
        return exists([x for x in vs if x is not v], subst(and_(*[x for x in cs if x is not c]), {v: e}))
    out = [c for c in cs if not (c.fv & set(vs))]
    if out:
        return and_(*out, exists(vs, and_(*[c for c in cs if c.fv & set(vs)])))
    # merge nested exists
    for c in cs:
        if c.op == 'exists':
            ws, bb = open_(c)
            return exists(vs + ws, and_(*[x for x in cs if x is not c], bb))
    return _close('exists', _occ_order(vs, b), (b,), 'B')


def forall(vs, b):
    b = simp(b)
    vs = [v for v in vs if v in b.fv]
    if not vs or b is FALSE or b is TRUE:
        return b
    if b.op == 'and':
        return and_(*[forall(vs, x) for x in b.args])
    ds = list(b.args) if b.op == 'or' else [b]
    p = _pin(vs, [not_(d) for d in ds])
    if p:
        v, e, c = p
        return forall([x for x in vs if x is not v], subst(or_(*[d for d in ds if not_(d) is not c]), {v: e}))
    out = [d for d in ds if not (d.fv & set(vs))]
    if out:
        return or_(*out, forall(vs, or_(*[d for d in ds if d.fv & set(vs)])))
    for d in ds:
        if d.op == 'forall':
            ws, bb = open_(d)
            return forall(vs + ws, or_(*[x for x in ds if x is not d], bb))
    return _close('forall', _occ_order(vs, b), (b,), 'B')


def count(vs, b):
    vs = list(vs)
    b = simp(b)
    if b is FALSE:
        return ZERO
    cs = _conj(b)
    p = _pin(vs, cs)
    if p:
        v, e, c = p
        return count([x for x in vs if x is not v], subst(and_(*[x for x in cs if x is not c]), {v: e}))
    if not vs:
        return ite(b, ONE, ZERO)
    out = [c for c in cs if not (c.fv & set(vs))]
    if out:
        return ite(and_(*out), count(vs, and_(*[c for c in cs if c.fv & set(vs)])), ZERO)
    order = _occ_order(vs, b)
    if len(order) != len(vs):
        raise ValueError('count over an unbounded variable')
    # number of integers in a range
    if len(vs) == 1 and vs[0].sort == 'I':
        r = _range_count(vs[0], cs)
        if r is not None:
            return r
    m = _unshift(vs, cs)
    if m:
        return count(vs, subst(b, m))
    return _close('count', order, (b,), 'I')


def _unshift(vs, cs):
    """the substitution that makes ranges with a constant lower bound start at zero"""
    m = {}
    for v in vs:
        if v.sort == 'I':
            lo = [c.args[0].args[0] + (c.op == '<') for c in cs if c.op in ('<', '<=') and c.args[1] is v and is_c(c.args[0])]
            if lo and max(lo) != 0:
                m[v] = add(v, const(max(lo)))
    return m


def _range_count(v, cs):
    los, his = [], []
    for c in cs:
        if c.op not in ('<', '<='):
            return None
        a, b = c.args
        if a is v and v not in b.fv:
            his.append(b if c.op == '<' else add(b, ONE))
        elif b is v and v not in a.fv:
            los.append(a if c.op == '<=' else add(a, ONE))
        else:
            return None
    if not los or not his or len(los) + len(his) > 3:
        return None
    lo, hi = los[0], his[0]
    for x in los[1:]:
        lo = max_(lo, x)
    for x in his[1:]:
        hi = min_(hi, x)
    return max_(sub(hi, lo), ZERO) if not (lo is ZERO and hi.op in ('var', 'app') and is_size(hi)) else hi


SIZES = set()


def size_var(name):
    v = var(name, 'I')
    SIZES.add(v)
    return v


def is_size(t):
    return t in SIZES or t.op == 'count'


def sum_(vs, b, x):
    vs = list(vs)
    b = simp(b)
    x = simp(term(x), frozenset(y.id for y in _lits(b, True)))
    if x.sort == 'B':
        x = term(x, 'I')
    if b is FALSE or (is_c(x) and x.args[0] == 0):
        return const(0, x.sort)
    # 0/1 values become counts
    if x.op == 'ite':
        c, p, q = x.args
        if is_c(q) and q.args[0] == 0:
            return sum_(vs, and_(b, c), p)
        if is_c(p) and p.args[0] == 0:
            return sum_(vs, and_(b, not_(c)), q)
        if c.op == '=' or True:
            if (set(vs) & c.fv):
                return add(sum_(vs, and_(b, c), p), sum_(vs, and_(b, not_(c)), q))
    if is_c(x):
        r = count(vs, b)
        return mul(x, term(r, x.sort))
    if x.op == '+':
        return add(*[sum_(vs, b, y) for y in x.args])
    if x.op == '*' and is_c(x.args[0]):
        return mul(x.args[0], sum_(vs, b, mul(*x.args[1:])))
    if x.op == 'toreal':
        return to_real(sum_(vs, b, x.args[0]))
    cs = _conj(b)
    p = _pin(vs, cs)
    if p:
        v, e, c = p
        m = {v: e}
        return sum_([y for y in vs if y is not v], subst(and_(*[y for y in cs if y is not c]), m), subst(x, m))
    if not vs:
        return ite(b, x, const(0, x.sort))
    if not (x.fv & set(vs)):
        return mul(x, term(count(vs, b), x.sort))
    # sum of counts is a count of pairs
    if x.op == 'count':
        ws, bb = open_(x)
        return count(vs + ws, and_(b, bb))
    if x.op == 'sum':
        ws, bb, y = open_(x)
        return sum_(vs + ws, and_(b, bb), y)
    out = [c for c in cs if not (c.fv & set(vs))]
    if out:
        return ite(and_(*out), sum_(vs, and_(*[c for c in cs if c.fv & set(vs)]), x), const(0, x.sort))
    order = _occ_order(vs, b)
    if len(order) != len(vs):
        raise ValueError('sum over an unbounded variable')
    m = _unshift(vs, cs)
    if m:
        return sum_(vs, subst(b, m), subst(x, m))
    return _close('sum', order, (b, x), x.sort)


# ------------------------------------------------------------------ substitution
EVAL = {}       # partially interpreted functions


def rebuild(t, args):
    o = t.op
    if o == 'not':
        return not_(*args)
    if o == 'and':
        return and_(*args)
    if o == 'or':
        return or_(*args)
    if o == 'ite':
        return ite(*args)
    if o == '=':
        return eq(*args)
    if o == '<':
        return lt(*args)
    if o == '<=':
        return le(*args)
    if o == '+':
        return add(*args)
    if o == '*':
        return mul(*args)
    if o == '/':
        return div(*args)
    if o == 'div':
        return floordiv(*args)
    if o == 'mod':
        return mod(*args)
    if o == 'floor':
        return floor_(*args)
    if o == 'toreal':
        return to_real(*args)
    if o == 'app' and args[0] in EVAL:
        return EVAL[args[0]](*args[1:])
    if o == 'app':
        return app(args[0], args[1:], t.sort)
    raise ValueError(o)


def rewrite(t, f, memo=None):
    """bottom-up rewriting; f(term) -> replacement or None, applied to every node after its children"""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ('var', 'c', 'lit'):
        r = t
    elif t.op in BIND:
        o = open_(t)
        vs, bs = o[0], [rewrite(b, f, memo) for b in o[1:]]
        r = {'forall': forall, 'exists': exists, 'count': count, 'sum': sum_}[t.op](vs, *bs)
    else:
        args = [rewrite(a, f, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    n = f(r)
    if n is not None:
        r = n
    memo[t.id] = r
    return r


def subst(t, m):
    """capture-avoiding simultaneous substitution of variables"""
    keys = frozenset(m)
    memo = {}

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'var':
            r = m[t]
        elif t.op in BIND:
            o = open_(t)
            vs, bs = o[0], [go(b) for b in o[1:]]
            r = {'forall': forall, 'exists': exists, 'count': count, 'sum': sum_}[t.op](vs, *bs)
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t.id] = r
        return r
    return go(t)


def subst_app(t, fname, fn):
    """replace applications of the uninterpreted function fname by fn(*args)"""
    if not uses_app(t, fname):
        return t
    return rewrite(t, lambda x: fn(*x.args[1:]) if x.op == 'app' and x.args[0] == fname else None)


def uses_app(t, fname, memo=None):
    return any(x.args[0] == fname for x in subterms(t) if x.op == 'app')


def subterms(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def show(t, d=0):
    if t.op == 'var':
        return t.args[0]
    if t.op == 'c':
        return str(t.args[0])
    if t.op == 'lit':
        return repr(t.args[0])
    if t.op == 'app':
        return f"{t.args[0]}({', '.join(map(show, t.args[1:]))})"
    if t.op in BIND:
        return f"({t.op} {' '.join(map(show, t.args[0]))}. {' ; '.join(map(show, t.args[1:]))})"
    if t.op == 'not':
        return f'!{show(t.args[0])}'
    if t.op == 'ite':
        return f'(if {show(t.args[0])} then {show(t.args[1])} else {show(t.args[2])})'
    if t.op in ('toreal', 'floor'):
        return f'{t.op}({show(t.args[0])})'
    return '(' + f' {t.op} '.join(map(show, t.args)) + ')'
