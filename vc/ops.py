"""Operators, indexing and assignment on the interpreter's values."""
from fractions import Fraction
from . import term as t_
from .arr import *
from .interp import (PyList, PyDict, PySet, SymDict, Inst, Ext, Opaque, IxSel, EnumVal, PyRaise, ASC, seq, Unsupported, MISSING)


def truth(I, v):
    if isinstance(v, bool) or v is None:
        return bool(v)
    if isinstance(v, T):
        if v.sort == 'B':
            return v
        if v.sort in ('I', 'R'):
            return ne(v, const(0, v.sort))
        if v.sort == 'S':
            return ne(v, t_.sym('', 'S'))
        raise Unsupported('truth of ' + v.sort)
    if isinstance(v, (int, float, str, tuple)):
        return bool(v)
    if isinstance(v, PyList):
        if any(p[0] == 'one' for p in v.parts):
            return True
        if not v.parts:
            return False
        return lt(ZERO, list_len(I, v))
    if isinstance(v, PyDict):
        if v.items:
            return True
        if not v.updates:
            return False
        raise Unsupported('truth of a symbolic dict')
    if isinstance(v, PySet):
        return bool(v.items)
    if isinstance(v, SymDict):
        return lt(ZERO, v.n)
    if hasattr(v, 'sym_truth'):
        return v.sym_truth(I)
    if isinstance(v, (Inst, Ext)):
        return True
    if isinstance(v, Arr):
        if v.ndim == 0:
            return truth(I, v.at([]))
    raise Unsupported(f'truth value of {type(v).__name__}')


def list_len(I, v):
    def cnt(parts, vs, dom):
        out = []
        for p in parts:
            if p[0] == 'one':
                out.append(count(vs, dom) if vs else ite(dom, ONE, ZERO))
            elif p[0] == 'seg':
                out.append(cnt(p[3], list(vs) + list(p[1]), and_(dom, p[2])))
            elif p[0] == 'if':
                out.append(cnt(p[2], vs, and_(dom, p[1])))
            else:
                raise Unsupported('length of a list under construction')
        return add(*out) if out else ZERO
    n = cnt(v.parts, [], TRUE)
    return n.args[0] if is_c(n) else n


def scal(v):
    """scalar operand as term"""
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, int, float, Fraction)):
        return term(int(v) if isinstance(v, int) and not isinstance(v, bool) else v)
    if isinstance(v, str):
        return t_.sym(v, 'S')
    raise Unsupported(f'scalar {type(v).__name__}')


def sdtype(v):
    t = scal(v)
    return {'I': 'i8', 'R': 'f8', 'B': 'b', 'S': 'U'}.get(t.sort, 'O')


def wdtype(a, b):
    """result dtype; python scalars are weak"""
    if isinstance(a, Arr) and isinstance(b, Arr):
        return result_dtype(a.dtype, b.dtype)
    x, y = (a, b) if isinstance(a, Arr) else (b, a)
    d = sdtype(y)
    if d == 'i8' and x.dtype in ('u8', 'i4', 'u1', 'f8', 'i8', 'u2', 'i1', 'i2'):
        return x.dtype
    if d == 'b':
        return x.dtype
    return result_dtype(x.dtype, d) if not (d == 'f8' and x.dtype in ('i8', 'u8', 'i4', 'u1', 'b')) else 'f8'


def bits(op, a, b):
    """bitwise operation on terms that are trees of constants"""
    if a.op == 'ite':
        return ite(a.args[0], bits(op, a.args[1], b), bits(op, a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], bits(op, a, b.args[1]), bits(op, a, b.args[2]))
    if is_c(a) and is_c(b):
        x, y = int(a.args[0]), int(b.args[0])
        return const({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op])
    if op == 'BitOr':
        # (x << 32) | y  with a 32-bit y
        for u, v in ((a, b), (b, a)):
            if u.op == '*' and is_c(u.args[0]) and u.args[0].args[0] == 1 << 32:
                return ite(le(ZERO, v), add(u, v), v)
        if is_c(a) and a.args[0] == 0:
            return b
        if is_c(b) and b.args[0] == 0:
            return a
    return app('bit:' + op, (a, b), 'I')


t_.EVAL.update({'bit:BitAnd': lambda a, b: bits('BitAnd', a, b), 'bit:BitOr': lambda a, b: bits('BitOr', a, b), 'bit:BitXor': lambda a, b: bits('BitXor', a, b)})

PLAIN = {'Add': add, 'Mult': mul}


def scalar_op(I, op, a, b, dtype=None):
    a, b = scal(a), scal(b)
    if op in ('BitAnd', 'BitOr', 'BitXor') and a.sort == 'B' and b.sort == 'B':
        return {'BitAnd': and_, 'BitOr': or_, 'BitXor': lambda x, y: ne(x, y)}[op](a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        return bits(op, term(a, 'I'), term(b, 'I'))
    if a.sort == 'B':
        a = term(a, 'I')
    if b.sort == 'B':
        b = term(b, 'I')
    if a.sort not in 'IR' or b.sort not in 'IR':
        raise Unsupported(f'{op} on {a.sort}/{b.sort}')
    if op in PLAIN:
        return PLAIN[op](a, b)
    if op == 'Sub':
        return sub(a, b)
    if op == 'Div':
        return div(a, b)
    if op == 'FloorDiv':
        if a.sort == 'I' and b.sort == 'I':
            return t_.floordiv(a, b)
        return t_.to_real(t_.floor_(div(a, b)))
    if op == 'Mod':
        if a.sort == 'I' and b.sort == 'I':
            return t_.mod(a, b)
    if op == 'LShift' and is_c(b):
        return mul(const(1 << int(b.args[0])), a)
    if op == 'RShift' and is_c(b):
        return t_.floordiv(a, const(1 << int(b.args[0])))
    if op == 'Pow' and is_c(b) and b.args[0] in (1, 2, 3):
        return mul(*[a] * int(b.args[0]))
    raise Unsupported(f'operator {op}')


def binop(I, op, a, b):
    if hasattr(a, 'sym_binop'):
        return a.sym_binop(I, op, b)
    if hasattr(b, 'sym_rbinop'):
        return b.sym_rbinop(I, op, a)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) or I.is_scalar(a) or isinstance(a, int)):
            a = to_array(I, a)
        if not (isinstance(b, Arr) or I.is_scalar(b) or isinstance(b, int)):
            b = to_array(I, b)
        dt = wdtype(a, b)
        xs = [x if isinstance(x, Arr) else scal(x) for x in (a, b)]
        if op == 'Div':
            dt = 'f8'
        if op in ('BitAnd', 'BitOr', 'BitXor') and dt == 'f8':
            raise Unsupported('bitwise on floats')
        if op in ('Add', 'Mult', 'Sub') and dt == 'b':
            if op == 'Sub':
                raise Unsupported('boolean subtract')
            f = {'Add': or_, 'Mult': and_}[op]
            return elementwise(f, xs, I, 'b')
        s = SORT[dt]

        def f(x, y):
            if op in ('BitAnd', 'BitOr', 'BitXor') and dt == 'b':
                return scalar_op(I, op, x, y)
            if op == 'Div':
                return div(term(x, 'R'), term(y, 'R'))
            return narrow(scalar_op(I, op, term(x, s) if s in 'IR' else x, term(y, s) if s in 'IR' else y), dt)
        r = elementwise(f, xs, I, dt)
        if op == 'Sub' and dt in ('u8', 'u1'):
            vs = [ax.vars('u') for ax in r.axes]
            I.obl('no-wrap', forall([v for x in vs for v in x], or_(not_(and_(*[ax.dom(x) for ax, x in zip(r.axes, vs)])), le(ZERO, r.at(vs)))), 'unsigned subtraction does not wrap')
        return r
    if isinstance(a, PyList) and isinstance(b, PyList) and op == 'Add':
        return PyList(a.parts + b.parts)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, PyList) and isinstance(b, int) and op == 'Mult':
        return PyList(a.parts * b)
    if isinstance(a, PyList) and isinstance(b, T) and op == 'Mult' and len(a.parts) == 1 and a.parts[0][0] == 'one' and (I.is_scalar(a.parts[0][1]) or isinstance(a.parts[0][1], str)):
        from .js import ListArr
        v = scal(a.parts[0][1])
        return ListArr(new([RangeAx(ite(lt(b, ZERO), ZERO, b) if not I.entails(le(ZERO, b)) else b)], lambda r: v, sdtype(v)))
    if isinstance(a, PyList) and isinstance(b, T) and op == 'Mult':
        k = fresh('I', 'rep')
        ASC.add(k)
        return PyList([('seg', (k,), and_(le(ZERO, k), lt(k, b)), a.parts)])
    if op == 'BitAnd' and isinstance(b, PySet) and getattr(a, 'is_set', False):
        a, b = b, a
    if op == 'BitAnd' and isinstance(a, PySet) and getattr(b, 'is_set', False) and all(isinstance(x, (str, T)) for x in a.items):
        among = lambda v: or_(*[eq(scal(v), scal(x)) for x in a.items])
        parts = []
        for p in b.parts:
            if p[0] == 'one':
                parts.append(('seg', (), among(p[1]), (p,)))
            elif len(p[3]) == 1 and p[3][0][0] == 'one':
                parts.append(('seg', p[1], and_(p[2], among(p[3][0][1])), p[3]))
            else:
                raise Unsupported('nested set')
        r = PyList(parts)
        r.is_set = True
        return r
    if isinstance(a, PySet) and isinstance(b, PySet):
        if op == 'BitAnd':
            return PySet([x for x in a.items if x in b.items])
        if op == 'BitOr':
            return PySet(a.items + [x for x in b.items if x not in a.items])
        if op == 'Sub':
            return PySet([x for x in a.items if x not in b.items])
    if isinstance(a, str) and isinstance(b, str) and op == 'Add':
        return a + b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported(f'{op} on an opaque value')
    conc = all(isinstance(x, (int, float)) for x in (a, b))
    if conc:
        if op in ('Div', 'FloorDiv', 'Mod') and b == 0:
            raise PyRaise('ZeroDivisionError')
        if op == 'Div' and isinstance(a, int) and isinstance(b, int):
            return Fraction(a, b)
        if any(isinstance(x, float) for x in (a, b)):
            return scalar_op(I, op, a, b)
        import operator
        f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'FloorDiv': operator.floordiv, 'Mod': operator.mod,
             'LShift': operator.lshift, 'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor, 'Pow': operator.pow}.get(op)
        if f is None:
            raise Unsupported(op)
        return f(a, b)
    if op in ('Div', 'FloorDiv', 'Mod'):
        nz = ne(scal(b), const(0, scal(b).sort))
        if nz is FALSE:
            raise PyRaise('ZeroDivisionError')
        I.obl('nonzero-divisor', nz, 'python division')
    return scalar_op(I, op, a, b)


CMP = {'Lt': lt, 'LtE': le, 'Gt': lambda a, b: lt(b, a), 'GtE': lambda a, b: le(b, a)}


def scalar_cmp(op, a, b):
    a, b = scal(a), scal(b)
    if op in ('Eq', 'NotEq'):
        if a.sort != b.sort and not ({a.sort, b.sort} <= {'I', 'R', 'B'}):
            r = FALSE
        else:
            r = eq(a, b)
        return r if op == 'Eq' else not_(r)
    if a.sort == 'S' or b.sort == 'S':
        raise Unsupported('string order')
    return CMP[op](a, b)


def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        if hasattr(a, 'sym_is'):
            r = a.sym_is(I, b)
        elif hasattr(b, 'sym_is'):
            r = b.sym_is(I, a)
        elif b is None or a is None:
            r = a is b
        elif isinstance(a, bool) or isinstance(b, bool):
            r = a is b
        else:
            r = a is b or (isinstance(a, (Ext,)) and a == b)
        if isinstance(r, T):
            return r if op == 'Is' else not_(r)
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        if op == 'NotIn':
            return (not r) if isinstance(r, bool) else not_(r)
        return r
    if hasattr(a, 'sym_compare'):
        return a.sym_compare(I, op, b)
    if hasattr(b, 'sym_compare'):
        sw = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}.get(op, op)
        return b.sym_compare(I, sw, a)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not isinstance(a, Arr) and not I.is_scalar(a):
            a = to_array(I, a)
        if not isinstance(b, Arr) and not I.is_scalar(b):
            b = to_array(I, b)
        return elementwise(lambda x, y: scalar_cmp(op, x, y), [x if isinstance(x, Arr) else scal(x) for x in (a, b)], I, 'b')
    if a is None or b is None:
        if op in ('Eq', 'NotEq'):
            return (a is b) == (op == 'Eq')
        raise PyRaise('TypeError')
    if isinstance(a, (Ext, tuple, PySet, PyList)) or isinstance(b, (Ext, tuple, PySet, PyList)):
        if op not in ('Eq', 'NotEq'):
            raise Unsupported('ordering of non-numbers')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                r = False
            else:
                r = True
                for x, y in zip(a, b):
                    r = I.and2(r, compare(I, 'Eq', x, y))
        elif isinstance(a, PySet) and isinstance(b, PySet):
            r = set(a.items) == set(b.items)
        elif isinstance(a, PyList) and isinstance(b, PyList):
            return compare(I, op, tuple(a.concrete()), tuple(b.concrete()))
        else:
            r = a == b
        return r if op == 'Eq' else ((not r) if isinstance(r, bool) else not_(r))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('comparison with an opaque value')
    if not isinstance(a, T) and not isinstance(b, T):
        if isinstance(a, float) or isinstance(b, float):
            return scalar_cmp(op, a, b) is TRUE
        import operator
        f = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op]
        return f(a, b)
    return scalar_cmp(op, a, b)


def contains(I, c, x):
    if hasattr(c, 'sym_contains'):
        return c.sym_contains(I, x)
    if isinstance(c, (PySet, PyDict)) and hasattr(x, 'sym_hash'):
        x.sym_hash(I)
    if isinstance(c, PySet):
        items = c.items
    elif isinstance(c, PyDict):
        if (c.updates or isinstance(x, T)) and not c.items and isinstance(x, T):
            if not c.updates:
                return False
            return haskey(c, x)
        if c.updates:
            raise Unsupported('membership in a symbolic dict')
        items = list(c.items)
    elif isinstance(c, SymDict):
        xi = scal(x)
        return and_(le(ZERO, xi), lt(xi, c.n))
    elif isinstance(c, (tuple, list)):
        items = list(c)
    elif isinstance(c, PyList):
        out = []
        for p in c.parts:
            if p[0] == 'one':
                r = compare(I, 'Eq', p[1], x)
                out.append(r if isinstance(r, T) else const(bool(r)))
            elif p[0] == 'seg' and len(p[3]) == 1 and p[3][0][0] == 'one':
                out.append(exists(list(p[1]), and_(p[2], compare(I, 'Eq', p[3][0][1], x))))
            else:
                raise Unsupported('membership in nested list')
        return or_(*out) if out else FALSE
    elif isinstance(c, str) and isinstance(x, str):
        return x in c
    else:
        raise Unsupported(f'membership in {type(c).__name__}')
    out = False
    for y in items:
        r = compare(I, 'Eq', y, x)
        if r is True or r is TRUE:
            return True
        if isinstance(r, T):
            out = r if out is False else or_(out, r)
    return out


# ------------------------------------------------------------------------------------------- arrays from python values
def to_array(I, v, dtype=None):
    if isinstance(v, Arr):
        return v if dtype is None else astype(v, dtype)
    if isinstance(v, (tuple, PyList)):
        parts = [('one', x) for x in v] if isinstance(v, tuple) else v.parts
        if all(p[0] == 'one' for p in parts):
            vals = [p[1] for p in parts]
            if not vals:
                return new([RangeAx(0)], lambda r: const(0, SORT[dtype or 'f8']), dtype or 'f8')
            if all(I.is_scalar(x) or isinstance(x, int) for x in vals):
                ts = [scal(x) for x in vals]
                d = dtype
                if d is None:
                    d = sdtype(ts[0])
                    for x in ts[1:]:
                        d = result_dtype(d, sdtype(x))
                ts = [conv(x, None, d) for x in ts]
                return new([RangeAx(len(ts))], lambda r: pick(ts, r[0][0]), d)
            arrs = [to_array(I, x, dtype) for x in vals]
            n = arrs[0].ndim
            if any(x.ndim != n for x in arrs):
                raise Unsupported('ragged array')
            axes, maps = align([x.axes for x in arrs], I)
            gets = [x.freeze() for x in arrs]
            d = arrs[0].dtype
            for x in arrs[1:]:
                d = result_dtype(d, x.dtype)
            return new([RangeAx(len(arrs))] + axes, lambda r: pick([conv(g(m(r[1:])), None, d) for g, m in zip(gets, maps)], r[0][0]), d)
        if len(parts) == 1 and parts[0][0] == 'seg' and len(parts[0][3]) == 1 and parts[0][3][0][0] == 'one':
            _, vs, dom, ((_, val),) = parts[0]
            ax, sm = seg_axis(vs, dom)
            if isinstance(val, tuple) and not all(I.is_scalar(x) or isinstance(x, int) for x in val):
                val = PyList.of(list(val))
            if isinstance(val, tuple):
                vals = [scal(x) for x in val]
                d = dtype or sdtype(vals[0])
                for x in vals[1:]:
                    d = dtype or result_dtype(d, sdtype(x))
                return new([ax, RangeAx(len(vals))], lambda r: pick([conv(subst(x, sm(r[0])), None, d) for x in vals], r[1][0]), d)
            if I.is_scalar(val):
                x = scal(val)
                d = dtype or sdtype(x)
                x = conv(x, None, d)
                return new([ax], lambda r: subst(x, sm(r[0])), d)
            if isinstance(val, PyList):
                val = to_array(I, val, dtype)
            if isinstance(val, Arr):
                g = val.freeze()
                vaxes = val.axes
                if any(set(vs) & ax2.dom(ax2.vars()).fv for ax2 in vaxes):
                    raise Unsupported('ragged symbolic array')
                d = dtype or val.dtype
                return new([ax] + vaxes, lambda r: conv(subst(g(r[1:]), sm(r[0])), None, d), d)
        if len(parts) == 1 and parts[0][0] == 'seg' and len(parts[0][3]) == 1 and parts[0][3][0][0] == 'seg':
            # comprehension over two ranges: row by row
            _, vs, dom, (inner,) = parts[0]
            ax, sm = seg_axis(vs, dom)
            if set(vs) & inner[2].fv:
                raise Unsupported('ragged symbolic array')
            a = to_array(I, PyList([inner]), dtype)
            g, n1 = a.freeze(), len(ax.sorts)
            return new([ProdAx([ax, a.axes[0]])] + a.axes[1:], lambda r: subst(g([tuple(r[0][n1:])] + list(r[1:])), sm(tuple(r[0][:n1]))), a.dtype)
    if I.is_scalar(v) or isinstance(v, int):
        t = conv(scal(v), None, dtype) if dtype else scal(v)
        return new([], lambda r: t, dtype or sdtype(v))
    raise Unsupported(f'array of {type(v).__name__}')


def seg_axis(vs, dom):
    """axis for a list segment"""
    vs = list(vs)
    if not (len(vs) == 1 and vs[0] in ASC):
        ax = DomAx(lambda x: subst(dom, {vs[0]: x})) if len(vs) == 1 and vs[0].sort == 'I' else KeyAx([v.sort for v in vs], lambda *k: subst(dom, dict(zip(vs, k))))
        key = ('listorder', t_._close('axis', list(vs), (dom,), 'I').id)
        return PermAx(ax, lambda a, b: app(key, tuple(a) + tuple(b), 'B'), key), lambda r: dict(zip(vs, r))
    if len(vs) == 1 and vs[0].sort == 'I':
        v = vs[0]
        n = count([v], dom)
        if not (n.op == 'count' or (n.op == 'ite' and n.args[1].op == 'count')):
            lo = [c for c in (dom.args if dom.op == 'and' else (dom,)) if c.op == '<=' and c.args[0] is ZERO and c.args[1] is v]
            if lo:
                hi = [c for c in dom.args if c.op == '<' and c.args[0] is v]
                if hi and len(dom.args) == 2:
                    return RangeAx(hi[0].args[1]), lambda r: {v: r[0]}
        return DomAx(lambda x: subst(dom, {v: x})), lambda r: {v: r[0]}
    ax = KeyAx([v.sort for v in vs], lambda *k: subst(dom, dict(zip(vs, k))))
    return ax, lambda r: dict(zip(vs, r))


def pick(ts, i):
    """ts[i] for a concrete list"""
    if is_c(i):
        return ts[i.args[0]]
    out = ts[-1]
    for j in range(len(ts) - 2, -1, -1):
        out = ite(eq(i, const(j)), ts[j], out)
    return out


# ------------------------------------------------------------------------------------------- indexing
def rep_of(I, ax, v, note, dom=TRUE, vs=()):
    """representative of position v on the axis"""
    if isinstance(v, bool):
        raise Unsupported('boolean index')
    v = scal(v)
    if v.sort == 'R':
        raise Unsupported('float index')
    pr = pos_rep(ax, v)
    if pr is not None:
        return pr
    if isinstance(ax, RangeAx):
        if is_c(v) and v.args[0] < 0:
            v = add(ax.n, v)
        if v.op == 'app' and isinstance(v.args[0], tuple) and v.args[0][0] == 'pos':
            v = expand_pos(v)
        g = and_(le(ZERO, v), lt(v, ax.n))
        if not (is_c(v) and ax.const_n is not None and v.args[0] < ax.const_n):
            I.obl('index-in-bounds', forall(list(vs), or_(not_(dom), g)), note)
        return (v,)
    base = ax
    if is_c(v):
        nonempty = exists(vs0 := ax.vars('n'), ax.dom(vs0))
        I.obl('index-in-bounds', forall(list(vs), or_(not_(dom), nonempty)), note + ' (non-empty)')
        if v.args[0] == 0:
            return I.choice('first', ax, lambda r: TRUE)
        if v.args[0] == -1:
            return I.choice('last', ax, lambda r: TRUE)
    if list(ax.sorts) == ['I'] and ascending(ax):
        return nth(I, ax, v, note, dom, vs)
    raise Unsupported(f'position index on a selected axis')


def ascending(ax):
    a, b = fresh('I', 'a'), fresh('I', 'b')
    try:
        return ax.before((a,), (b,)) is lt(a, b)
    except Unsupported:
        return False


def nth(I, ax, v, note, dom, vs):
    """element at position v of a finite set of integers in ascending order"""
    g = and_(le(ZERO, v), lt(v, ax.card()))
    I.obl('index-in-bounds', forall(list(vs), or_(not_(dom), g)), note)
    key, fvs = axis_params(ax)
    fn = ('nth', key)
    x, k, p = fresh('I', 'x'), fresh('I', 'k'), fresh('I', 'p')
    rep = app(fn, (p,) + tuple(fvs), 'I')
    ok = and_(le(ZERO, p), lt(p, ax.card()))
    I.axiom(t_.implies(ok, ax.dom((rep,))), [fn])
    I.axiom(t_.implies(and_(ok, ax.dom((x,))), t_.iff(le(rep, x), le(p, count([k], and_(ax.dom((k,)), lt(k, x)))))), [fn])
    return (app(fn, (v,) + tuple(fvs), 'I'),)


def slice_axis(I, ax, s):
    """(new axis, 's'/'a' mapping offset or None for identity) of a basic slice"""
    lo, hi, st = s.start, s.stop, s.step
    if st is not None and st != 1:
        raise Unsupported('slice step')
    if lo is None and hi is None:
        return ax, None
    if isinstance(ax, RangeAx):
        n = ax.n
        lo_t = ZERO if lo is None else norm_pos(I, n, lo)
        hi_t = n if hi is None else norm_pos(I, n, hi)
        ln = sub(hi_t, lo_t)
        if not (is_c(ln) and ln.args[0] >= 0) and not I.entails(le(ZERO, ln)):
            ln = t_.max_(ln, ZERO)
        return RangeAx(ln), lo_t
    if lo == 1 and hi is None:
        return EndAx(ax, 'tail'), None
    if lo is None and hi == -1:
        return EndAx(ax, 'init'), None
    raise Unsupported('slice of a selected axis')


def norm_pos(I, n, p):
    p = scal(p)
    if is_c(p):
        if p.args[0] < 0:
            return add(n, p) if I.entails(le(const(-p.args[0]), n)) else t_.max_(add(n, p), ZERO)
        if is_c(n):
            return const(min(p.args[0], n.args[0]))
        return p if I.entails(le(p, n)) else t_.min_(p, n)
    if I.entails(and_(le(ZERO, p), le(p, n))):
        return p
    raise Unsupported('symbolic slice bound')


class Plan:
    """selection of array positions: result axes and map result reps -> array reps"""

    def __init__(self, axes, fn, view=None):
        self.axes, self.fn, self.view = axes, fn, view


def is_mask(x):
    return isinstance(x, Arr) and x.dtype == 'b'


def is_idx(x):
    return isinstance(x, Arr) and x.dtype != 'b'


def mask_axis(I, axes, m):
    """axis (over the masked axes) selected by the boolean array m"""
    al, maps = align([axes, m.axes], I)
    g = m.freeze()
    if len(axes) == 1:
        ax = axes[0]

        def pred(*r):
            return g(maps[1]([tuple(r)]))
        if isinstance(ax, (RangeAx, DomAx)):
            v = fresh('I', 'm')
            if pred(v) is TRUE:
                return ax
            if ax.const_n is not None and ax.const_n <= 16 and False:
                return ax
            body = I.hinted(v, t_.simp(and_(ax.dom((v,)), pred(v))))
            return DomAx(lambda x: subst(body, {v: x}))
        return FiltAx(ax, pred)
    pa = ProdAx(list(axes))
    return FiltAx(pa, lambda *r: g(maps[1](pa.split(r))))


def plan(I, a, ix):
    ix = ix if isinstance(ix, tuple) else (ix,)
    # a tuple of concrete ints inside an index tuple is a column gather
    items = []
    for x in ix:
        if isinstance(x, PyList):
            if all(p[0] == 'one' for p in x.parts):
                x = tuple(x.concrete())
            else:
                x = to_array(I, x)
        items.append(x)
    n_used = sum(x.ndim if is_mask(x) else len(x.parts) if isinstance(x, IxSel) else 0 if x is None else 1 for x in items if x is not Ellipsis)
    if Ellipsis in [x for x in items if not isinstance(x, (Arr, T))]:
        j = [i for i, x in enumerate(items) if x is Ellipsis][0]
        items[j:j + 1] = [slice(None)] * (a.ndim - n_used)
    else:
        items += [slice(None)] * (a.ndim - n_used)
    if any(isinstance(x, IxSel) for x in items):
        parts = []
        for x in items:
            if isinstance(x, IxSel):
                parts += [('ix', p) for p in x.parts]
            else:
                parts.append(('n', x))
        axes, fns = [], []
        k = 0
        for i, (tag, p) in enumerate(parts):
            ax = a.axes[i]
            if tag == 'n' and not (isinstance(p, slice) and p == slice(None)):
                raise Unsupported('mixed ix_ indexing')
            nax, f = select(I, ax, p if tag == 'ix' else slice(None), 'ix_')
            axes.append(nax)
            fns.append(f)
        return Plan(axes, lambda r: [f(x) for f, x in zip(fns, r)])
    fancy = [i for i, x in enumerate(items) if isinstance(x, Arr) or isinstance(x, tuple)]
    if not fancy:
        axes, view, k, j = [], [], 0, 0
        fns = []
        for x in items:
            if x is None:
                axes.append(RangeAx(1))
                k += 1
                continue
            ax = a.axes[j]
            if isinstance(x, slice):
                nax, off = slice_axis(I, ax, x)
                axes.append(nax)
                if off is None or off is ZERO:
                    fns.append(lambda r, k=k: r[k])
                    view.append(('a', k))
                else:
                    fns.append(lambda r, k=k, off=off: (add(r[k][0], off),))
                    view.append(('s', k, off))
                k += 1
            else:
                rep = rep_of(I, ax, x, 'array index')
                fns.append(lambda r, rep=rep: rep)
                view.append(('c', rep))
            j += 1
        return Plan(axes, lambda r: [f(r) for f in fns], view)
    # fancy indexing: all non-slice items form one broadcast group
    grp = [i for i, x in enumerate(items) if isinstance(x, (Arr, tuple)) or (x is not None and not isinstance(x, slice))]
    first = grp[0]
    if grp != list(range(first, first + len(grp))):
        first_pos_front = True
    else:
        first_pos_front = False
    masks = [i for i in grp if is_mask(items[i])]
    gaxes, gfn = None, {}
    # array axis number of every item
    axno, j = {}, 0
    for i, x in enumerate(items):
        if x is None:
            continue
        axno[i] = j
        j += x.ndim if is_mask(x) else 1
    idx_items = [i for i in grp if is_idx(items[i]) or isinstance(items[i], tuple)]
    if masks:
        if len(masks) > 1 or idx_items:
            if idx_items and len(masks) == 1 and all(isinstance(items[i], tuple) for i in idx_items):
                raise Unsupported('mask together with a list index')
            raise Unsupported('several advanced indices with a mask')
        mi = masks[0]
        m = items[mi]
        max_ = a.axes[axno[mi]:axno[mi] + m.ndim]
        sax = mask_axis(I, max_, m)
        gaxes = [sax]
        if m.ndim == 1:
            gfn[axno[mi]] = lambda g: g[0]
        else:
            pa = sax.base
            for q in range(m.ndim):
                gfn[axno[mi] + q] = lambda g, q=q: pa.split(g[0])[q]
    else:
        arrs = [to_array(I, items[i]) for i in idx_items]
        gaxes, maps = align([x.axes for x in arrs], I)
        dvs = [ax.vars('g') for ax in gaxes]
        dom = and_(*[ax.dom(v) for ax, v in zip(gaxes, dvs)])
        flat = [v for x in dvs for v in x]
        for i, x, mp in zip(idx_items, arrs, maps):
            g = x.freeze()
            ax = a.axes[axno[i]]
            small = all(q.const_n is not None and q.const_n <= 16 for q in gaxes)
            if isinstance(items[i], tuple):
                for c in items[i]:
                    rep_of(I, ax, c, 'column index')
            else:
                rep_of(I, ax, g(mp(dvs)), 'gather index', dom, flat)

            def f(gr, g=g, mp=mp, ax=ax):
                return rep_quiet(I, ax, g(mp(gr)))
            gfn[axno[i]] = f
    for i in grp:
        if i not in masks and i not in idx_items:
            rep = rep_of(I, a.axes[axno[i]], items[i], 'array index')
            gfn[axno[i]] = lambda g, rep=rep: rep
    axes, fns, k = [], {}, 0
    ng = len(gaxes)
    order = []
    placed = False
    gpos = 0
    pos = 0
    if first_pos_front:
        axes += gaxes
        placed, pos = True, ng
    for i, x in enumerate(items):
        if i in grp:
            if not placed:
                gpos = pos
                axes += gaxes
                pos += ng
                placed = True
            continue
        if x is None:
            axes.append(RangeAx(1))
            pos += 1
            continue
        nax, off = slice_axis(I, a.axes[axno[i]], x)
        axes.append(nax)
        fns[axno[i]] = (lambda r, p=pos: r[p]) if off is None or off is ZERO else (lambda r, p=pos, off=off: (add(r[p][0], off),))
        pos += 1

    def fn(r):
        g = r[gpos:gpos + ng]
        return [gfn[d](g) if d in gfn else fns[d](r) for d in range(a.ndim)]
    return Plan(axes, fn)


def rep_quiet(I, ax, v):
    n = len(I.obls)
    r = rep_of(I, ax, v, '')
    del I.obls[n:]
    return r


def select(I, ax, p, note):
    """one np.ix_ part: mask, concrete tuple or index array"""
    if is_mask(p):
        return mask_axis(I, [ax], p), lambda r: r
    if isinstance(p, slice):
        return ax, lambda r: r
    x = to_array(I, p)
    g = x.freeze()
    vs = x.axes[0].vars('g')
    if x.axes[0].const_n is not None and x.axes[0].const_n <= 16:
        for c in range(x.axes[0].const_n):
            rep_of(I, ax, g([(const(c),)]), note)
    else:
        rep_of(I, ax, g([vs]), note, x.axes[0].dom(vs), vs)
    return x.axes[0], lambda r: rep_quiet(I, ax, g([r]))


def getitem(I, o, ix):
    if isinstance(o, Arr):
        p = plan(I, o, ix)
        if p.view is not None:
            if not p.axes:
                return o.at(p.fn([]))
            smap = []
            for m in o.smap:
                if m[0] == 'c':
                    smap.append(m)
                elif m[0] == 'a':
                    smap.append(p.view[m[1]])
                elif m[0] == 's':
                    w = p.view[m[1]]
                    if w[0] == 'c':
                        smap.append(('c', (add(w[1][0], m[2]),)))
                    elif w[0] == 'a':
                        smap.append(('s', w[1], m[2]))
                    else:
                        smap.append(('s', w[1], add(w[2], m[2])))
                elif m[0] == 'p':
                    w = p.view[m[1]]
                    if w[0] == 'a':
                        smap.append(('p', w[1], m[2], m[3]))
                    else:
                        return new(p.axes, _compose(o.freeze(), p.fn), o.dtype)
            return Arr(o.store, p.axes, smap)
        return new(p.axes, _compose(o.freeze(), p.fn), o.dtype)
    if isinstance(o, (tuple, str)):
        if isinstance(ix, (int, slice)):
            try:
                return o[ix]
            except IndexError:
                raise PyRaise('IndexError')
    if isinstance(o, PyList):
        if isinstance(ix, (int, slice)) and all(p[0] == 'one' for p in o.parts):
            try:
                r = o.concrete()[ix]
            except IndexError:
                raise PyRaise('IndexError')
            return PyList.of(r) if isinstance(ix, slice) else r
        if hasattr(o, 'sym_getitem'):
            return o.sym_getitem(I, ix)
        if len(o.parts) == 1 and o.parts[0][0] == 'seg' and isinstance(ix, (int, T)):
            _, vs, dom, inner = o.parts[0]
            if len(inner) == 1 and inner[0][0] == 'one' and len(vs) == 1 and vs[0].sort == 'I':
                ax, sm = seg_axis(vs, dom)
                if isinstance(ax, (RangeAx, DomAx)):
                    rep = rep_of(I, ax, ix, 'list index')
                    return subst_value(inner[0][1], sm(rep))
        if len(o.parts) == 1 and o.parts[0][0] == 'seg' and isinstance(ix, slice) and ix.step is None and all(x is None or isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in (ix.start, ix.stop)):
            _, vs, dom, inner = o.parts[0]
            if len(inner) == 1 and inner[0][0] == 'if' and I.entails(forall(list(vs), or_(not_(dom), inner[0][1]))):
                inner = inner[0][2]
            if len(inner) == 1 and inner[0][0] == 'one' and len(vs) == 1 and vs[0].sort == 'I':
                ax, sm = seg_axis(vs, dom)
                if isinstance(ax, RangeAx):
                    n = ax.card()
                    cut = lambda x: n if x is None else ite(le(const(x), n), const(x), n)
                    lo = cut(ix.start or 0)
                    j = fresh('I', 'j')
                    ASC.add(j)
                    return PyList([('seg', (j,), and_(le(ZERO, j), lt(j, sub(cut(ix.stop), lo))), (('one', subst_value(inner[0][1], sm((add(j, lo),)))),))])
        raise Unsupported('indexing a symbolic list')
    if isinstance(o, PyDict):
        if isinstance(ix, T):
            return sym_lookup(I, o, ix)
        if ix in o.items and not o.updates:
            return o.items[ix]
        if o.updates:
            raise Unsupported('lookup in a symbolic dict')
        if hasattr(o, 'default'):
            return o.default(I, ix)
        raise PyRaise('KeyError')
    if isinstance(o, SymDict):
        k = scal(ix)
        I.obl('key-present', and_(le(ZERO, k), lt(k, o.n)), f'key of {o.name}')
        return o.value(k)
    if hasattr(o, 'sym_getitem'):
        return o.sym_getitem(I, ix)
    if isinstance(o, Ext):
        from . import calls
        return calls.ext_getitem(I, o, ix)
    raise Unsupported(f'indexing {type(o).__name__}')


def haskey(o, k):
    """is the key present in the dict in its current state?  left open: both answers are explored"""
    return app(('haskey', o.id, len(o.updates)), (k,), 'B')


def sym_lookup(I, o, k):
    if o.items:
        raise Unsupported('symbolic key lookup')
    if o.updates and len(o.updates[-1]) == 4:
        vs, dom, key, val = o.updates[-1]
        if not vs and dom is TRUE and (key is k or key == (k,)):
            return val
    if haskey(o, k) in I.pc:
        return DictRef(o, k)
    raise Unsupported('symbolic key lookup')


class DictRef:
    """the dict stored under a symbolic key that is present; only writes to it are supported"""

    def __init__(self, o, k):
        self.o, self.k = o, k

    def sym_setitem(self, I, ix, v):
        if not isinstance(ix, T) or not isinstance(v, T):
            raise Unsupported('write to a nested symbolic dict')
        I.heap_set(self.o, 'updates', self.o.updates + (((), TRUE, tuple_((self.k, ix)), v),))


class tuple_(tuple):
    """path of keys into nested dicts"""


def fresh_key(I, o, k):
    return not_(haskey(o, k)) in I.pc


def subst_value(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, (int, float, str, bool, type(None), Fraction, Ext)):
        return v
    if isinstance(v, Arr):
        g = v.freeze()
        return new([map_axis(ax, lambda t: subst(t, m)) for ax in v.axes], lambda r: subst(g(r), m), v.dtype)
    if hasattr(v, 'sym_subst'):
        return v.sym_subst(m)
    if isinstance(v, (PyDict, PyList, Inst, Opaque)):
        from .loops import map_value
        return map_value(v, lambda t: subst(t, m))
    raise Unsupported(f'substitution in {type(v).__name__}')


def _compose(g, fn):
    return lambda r: g(fn(r))


def setitem(I, o, ix, v):
    if isinstance(o, Arr):
        p = plan(I, o, ix)
        write(I, o, p, v)
        return
    if isinstance(o, PyDict):
        if isinstance(ix, T):
            if isinstance(v, PyDict) and fresh_key(I, o, ix):
                ix2 = tuple_((ix,))      # known to be absent: nothing is replaced
                I.heap_set(o, 'updates', o.updates + (((), TRUE, ix2, v),))
                return
            I.heap_set(o, 'updates', o.updates + (((), TRUE, ix, v),))
            return
        if o.updates:
            raise Unsupported('concrete write to a symbolic dict')
        I.heap_set(o.items, ix, v)
        return
    if isinstance(o, PyList) and isinstance(ix, int):
        c = list(o.parts)
        if any(p[0] != 'one' for p in c):
            raise Unsupported('assignment into a symbolic list')
        c[ix] = ('one', v)
        I.heap_set(o, 'parts', tuple(c))
        return
    if hasattr(o, 'sym_setitem'):
        return o.sym_setitem(I, ix, v)
    raise Unsupported(f'item assignment on {type(o).__name__}')


def write(I, o, p, v, accumulate=False):
    """o[plan] = v  (or += for np.add.at)"""
    st = o.store
    dt = st.dtype
    if isinstance(v, (tuple, PyList)):
        v = to_array(I, v)
    if isinstance(v, Arr):
        if v.ndim > len(p.axes):
            raise Unsupported('value has more dimensions than the selection')
        _, maps = align([p.axes, v.axes], I)
        if len(_) != len(p.axes) or any(not (is_unit(x) and is_unit(y)) and not x.same(y) and not I.axes_equal(x, y) for x, y in zip(_, p.axes)):
            if not all(isinstance(x, EndAx) for x, y in zip(_, p.axes) if not x.same(y)):
                raise Unsupported('shape of assigned value')
        vg = v.freeze()
        ra = _

        def val(r):
            return conv(vg(maps[1](r)), v.dtype, dt)
        # alignment of init/tail axes may choose the value's axis
        if isinstance(v, Arr) and len(ra) and any(isinstance(x, EndAx) and not x.same(y) for x, y in zip(ra, p.axes)):
            raise Unsupported('assignment across shifted axes')
    else:
        sv = conv(scal(v), None, dt)

        def val(r):
            return sv
    if dt in ('u8', 'u1') and isinstance(v, Arr) and v.dtype in ('i8', 'f8', 'i4') or dt in ('u8', 'u1') and not isinstance(v, Arr):
        vs = [ax.vars('u') for ax in p.axes]
        g = le(ZERO, val(vs))
        if g is not TRUE:
            I.obl('unsigned-range', forall([x for q in vs for x in q], or_(not_(and_(*[ax.dom(x) for ax, x in zip(p.axes, vs)])), g)), 'value stored in an unsigned array')
    small = [i for i, ax in enumerate(p.axes) if ax.const_n is not None and ax.const_n <= 16 and p.view is None]
    combos = [{}]
    for i in small:
        combos = [{**c, i: (const(k),)} for c in combos for k in range(p.axes[i].const_n)]
    old = st.get
    for combo in combos:
        reps = [combo.get(i) or ax.vars('w') for i, ax in enumerate(p.axes)]
        vs = [x for i, r in enumerate(reps) if i not in combo for x in r]
        dom = and_(*[ax.dom(r) for i, (ax, r) in enumerate(zip(p.axes, reps)) if i not in combo])
        target = [x for r in o.srep(p.fn(reps)) for x in r]
        value = val(reps)
        old = _updated(I, old, vs, dom, target, value, accumulate, st)
    I.heap_set(st, 'get', old)


def _updated(I, old, vs, dom, target, value, accumulate, st):
    def get(s):
        flat = [x for r in s for x in r]
        eqs = [eq(a, b) if a.fv & set(vs) else I.eq_choice(a, b) for a, b in zip(target, flat)]
        if accumulate:
            d = sum_(vs, and_(dom, *eqs), value)
            return add(old(s), d)
        # solve the equations for the selection variables
        m, rest, unsolved = solve_vars(vs, eqs)
        c = subst(and_(dom, *rest), m)
        x = subst(value, m)
        if unsolved:
            if set(unsolved) & x.fv:
                raise Unsupported('assignment through a non-invertible index')
            c = exists(unsolved, c)
        if c is FALSE:
            return old(s)
        return ite(c, x, old(s)) if c is not TRUE else x
    return memo_get(get)


def memo_get(g):
    tab = {}

    def get(s):
        k = tuple(x.id for r in s for x in r)
        r = tab.get(k)
        if r is None:
            r = tab[k] = (g(s), s)
        return r[0]
    return get


def solve_vars(vs, eqs):
    m, rest, todo = {}, list(eqs), list(vs)
    progress = True
    while progress and todo:
        progress = False
        for v in list(todo):
            for c in rest:
                c2 = subst(c, m) if m else c
                e = solve_for(c2, v)
                if e is None and c2.op == 'and':
                    continue
                if e is not None and not (e.fv & set(todo)):
                    m = {k: subst(x, {v: e}) for k, x in m.items()}
                    m[v] = e
                    rest.remove(c)
                    todo.remove(v)
                    progress = True
                    break
    # conjunctions of equalities (tuple keys) are already separate equations
    return m, rest, todo
