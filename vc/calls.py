"""Calls: repository functions (contract or inlined), builtins, numpy."""
import ast
from fractions import Fraction
from . import term as t_
from .arr import *
from .interp import *
from .interp import MISSING
from . import ops
from .ops import scal, to_array, list_len, pick

BUILTINS = {'range', 'len', 'int', 'float', 'bool', 'str', 'min', 'max', 'sum', 'abs', 'zip', 'enumerate', 'list', 'tuple', 'dict', 'set', 'any', 'all',
            'isinstance', 'sorted', 'print', 'type', 'getattr', 'hasattr', 'map', 'filter', 'reversed', 'round', 'iter', 'next', 'open', 'super', 'property', 'staticmethod', 'classmethod'}
EXC = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'Exception', 'NotImplementedError', 'FileNotFoundError', 'FileExistsError',
       'NotADirectoryError', 'AssertionError', 'StopIteration', 'ImportError', 'AttributeError', 'PermissionError', 'OSError'}


# ------------------------------------------------------------------------------------------- repository functions
def bind(I, f, args, kwargs, env):
    a = f.node.args
    if a.posonlyargs:
        raise Unsupported('positional-only parameters')
    names = [x.arg for x in a.args]
    out = {}
    if a.vararg:
        out[a.vararg.arg] = tuple(args[len(names):])
        args = args[:len(names)]
    if a.kwarg:
        known = set(names) | {x.arg for x in a.kwonlyargs}
        out[a.kwarg.arg] = PyDict({k: v for k, v in kwargs.items() if k not in known})
        kwargs = {k: v for k, v in kwargs.items() if k in known}
    if len(args) > len(names):
        raise PyRaise('TypeError')
    for n, v in zip(names, args):
        out[n] = v
    denv = Env(f.module)
    for n, v in kwargs.items():
        if n in out or n not in names + [x.arg for x in a.kwonlyargs]:
            raise PyRaise('TypeError')
        out[n] = v
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if n not in out:
            out[n] = I.eval(d, f.env or denv)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in out:
            if d is None:
                raise PyRaise('TypeError')
            out[x.arg] = I.eval(d, f.env or denv)
    for n in names:
        if n not in out:
            raise PyRaise('TypeError')
    return out


def call_func(I, f, args, kwargs):
    if isinstance(f, Bound):
        return call(I, f.fn, [f.self_] + list(args), kwargs)
    b = bind(I, f, args, kwargs, None)
    c = I.contracts.get(f.qual) if f.env is None else None
    if c is not None:
        I.called[f.qual] = I.called.get(f.qual, 0) + 1
        return c(I, b)
    return inline(I, f, b)


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return False


def inline(I, f, b):
    I.inlined.add(f.qual)
    I.sources[f.qual] = f.node
    I.sources[f.module.name] = f.module.tree
    env = Env(f.module, f.env)
    env.d.update(b)
    if f.cls is not None:
        env.d.setdefault('__class__', f.cls)
    if isinstance(f.node, ast.Lambda):
        return I.eval(f.node.body, env)
    gen = is_generator(f.node)
    if gen:
        env.d['__yield__'] = PyList()
        I.assumptions.add('generators run to completion when created')
    I.depth += 1
    if I.depth > 40:
        I.depth = 0
        raise Unsupported('recursion')
    line, fn = I.cur_line, I.cur_fn
    I.cur_fn = f.qual
    try:
        I.run_body(f.node.body, env)
        return env.d['__yield__'] if gen else None
    except PyReturn as r:
        return env.d['__yield__'] if gen else r.v
    finally:
        I.depth -= 1
        I.cur_line, I.cur_fn = line, fn


def decorators(node):
    return [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else '?' for d in node.decorator_list]


def find_member(I, cls, name):
    if name in cls.members:
        return cls.members[name]
    for b in cls.bases:
        try:
            c = I.global_(cls.module, b)
        except KeyError:
            continue
        if isinstance(c, Cls):
            r = find_member(I, c, name)
            if r is not None:
                return r
    return None


def getattr_(I, o, attr):
    if isinstance(o, Module):
        return I.global_(o, attr)
    if isinstance(o, Ext) and not hasattr(o, 'sym_attr'):
        return ext_attr(I, o, attr)
    if isinstance(o, Cls):
        if o.enum is not None and attr in o.enum:
            return o.enum[attr]
        if attr == '__name__':
            return o.name
        m = find_member(I, o, attr)
        if m is None:
            raise Unsupported(f'{o.name}.{attr}')
        if 'classmethod' in decorators(m.node):
            return Bound(m, o)
        return decorated(I, m)
    if isinstance(o, Inst):
        if attr in o.attrs:
            return o.attrs[attr]
        m = find_member(I, o.cls, attr)
        if m is None:
            raise PyRaise('AttributeError')
        ds = decorators(m.node)
        if 'property' in ds:
            return call_func(I, Bound(m, o), [], {})
        if 'classmethod' in ds:
            return Bound(m, o.cls)
        if 'staticmethod' in ds:
            return m
        return Bound(decorated(I, m), o)
    if isinstance(o, Arr):
        if attr == 'shape':
            return tuple(unc(ax.card()) for ax in o.axes)
        if attr == 'size':
            n = mul(*[ax.card() for ax in o.axes]) if o.axes else ONE
            return unc(n)
        if attr == 'ndim':
            return o.ndim
        if attr == 'dtype':
            return Ext('numpy.dtype:' + o.dtype)
        if attr == 'T':
            g = o.freeze()
            return new(list(reversed(o.axes)), lambda r: g(list(reversed(r))), o.dtype)
        return Meth(o, attr)
    if hasattr(o, 'sym_attr'):
        return o.sym_attr(I, attr)
    if isinstance(o, EnumStr) and attr in ('value', 'name'):
        return str(o) if attr == 'value' else o.member
    if isinstance(o, (PyList, PyDict, PySet, SymDict, T, str, tuple, Opaque, int, float)):
        return Meth(o, attr)
    raise Unsupported(f'attribute {attr} of {type(o).__name__}')


PLAIN = {'property', 'classmethod', 'staticmethod', 'abstractmethod', 'dataclass', 'wraps', 'overload', 'cache', 'lru_cache'}


def decorated(I, m):
    """the function with decorators of the repository applied"""
    for d in reversed(m.node.decorator_list if isinstance(m, Func) and hasattr(m.node, 'decorator_list') else []):
        name = decorators(ast.FunctionDef(name='', decorator_list=[d], args=None, body=[]))[0]
        if name in PLAIN:
            continue
        f = I.eval(d, Env(m.module))
        raw = Func(m.node, m.module, m.env, m.cls)
        raw.node = m.node
        m = call(I, f, [raw], {})
    return m


class Meth:
    def __init__(self, o, name):
        self.o, self.name = o, name


def unc(t):
    return t.args[0] if isinstance(t, T) and is_c(t) and t.sort == 'I' else t


def ext_attr(I, o, attr):
    full = f'{o.name}.{attr}'
    if attr == '__name__' and o.name in EXC:
        return o.name
    if full in I.externals:
        v = I.externals[full]
        return v
    if o.name == 'numpy':
        if attr in DT:
            return Ext('numpy.dtype:' + DT[attr])
        if attr == 'newaxis':
            return None
    return Ext(full)


DT = {'float64': 'f8', 'float32': 'f4', 'int16': 'i2', 'int8': 'i1', 'uint16': 'u2', 'int64': 'i8', 'int32': 'i4', 'uint64': 'u8', 'uint8': 'u1', 'bool_': 'b', 'intp': 'i8', 'integer': 'i8', 'bool': 'b', 'str_': 'U'}


def dtype_of(d, default=None):
    if d is None:
        return default
    if isinstance(d, Ext):
        if d.name.startswith('numpy.dtype:'):
            return d.name.split(':')[1]
        if d.name in ('int', 'float', 'bool', 'str', 'object'):
            return {'int': 'i8', 'float': 'f8', 'bool': 'b', 'str': 'U', 'object': 'O'}[d.name]
    raise Unsupported(f'dtype {d!r}')


def call(I, f, args, kwargs):
    if isinstance(f, (Func, Bound)):
        return call_func(I, f, args, kwargs)
    if isinstance(f, Cls):
        return construct(I, f, args, kwargs)
    if isinstance(f, Meth):
        return call_method(I, f.o, f.name, args, kwargs)
    if isinstance(f, Ext):
        if f.name in I.externals:
            return I.externals[f.name](I, *args, **kwargs)
        if f.name.startswith('numpy.dtype:'):
            return np_scalar(I, f.name.split(':')[1], *args)
        if f.name.startswith('numpy.'):
            h = NP.get(f.name[6:])
            if h is None:
                raise Unsupported(f.name)
            return h(I, *args, **kwargs)
        if f.name in BI:
            return BI[f.name](I, *args, **kwargs)
        if f.name in EXC:
            return Ext(f.name)
        raise Unsupported(f'call of {f.name}')
    if callable(f):
        return f(I, *args, **kwargs)
    raise Unsupported(f'call of {type(f).__name__}')


def construct(I, c, args, kwargs):
    key = f'{c.module.name}.{c.name}'
    if key in I.contracts:
        return I.contracts[key](I, args, kwargs)
    if c.enum is not None:
        if len(args) == 1 and isinstance(args[0], (int, str)):
            return args[0]
        raise Unsupported('enum construction')
    o = Inst(c)
    init = find_member(I, c, '__init__')
    if init is not None:
        call_func(I, Bound(init, o), args, kwargs)
        return o
    fields = []

    def collect(cc):
        for b in cc.bases:
            try:
                bb = I.global_(cc.module, b)
            except KeyError:
                continue
            if isinstance(bb, Cls):
                collect(bb)
        for n, d in cc.members.get('__fields__', []):
            fields.append((n, d, cc))
    collect(c)
    if 'dataclass' in decorators(c.node) or fields:
        names = [n for n, _, _ in fields]
        vals = dict(zip(names, args))
        vals.update(kwargs)
        for n, d, cc in fields:
            if n not in vals:
                if d is None:
                    raise PyRaise('TypeError')
                vals[n] = field_default(I, d, cc)
        for n in vals:
            if n not in names:
                raise PyRaise('TypeError')
        for n in names:
            o.attrs[n] = vals[n]
        post = find_member(I, c, '__post_init__')
        if post is not None:
            call_func(I, Bound(post, o), [], {})
        return o
    if any(b in EXC or b.endswith('Error') or b == 'Exception' for b in c.bases):
        o.name = c.name
        return o
    if not args and not kwargs:
        return o
    raise Unsupported(f'construction of {c.name}')


def field_default(I, d, cc):
    if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'field':
        for k in d.keywords:
            if k.arg == 'default_factory':
                f = I.eval(k.value, Env(cc.module))
                return call(I, f, [], {})
            if k.arg == 'default':
                return I.eval(k.value, Env(cc.module))
        raise Unsupported('dataclass field')
    return I.eval(d, Env(cc.module))


# ------------------------------------------------------------------------------------------- builtins
def b_range(I, *a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = ZERO, scal(a[0])
    elif len(a) == 2:
        lo, hi = scal(a[0]), scal(a[1])
    else:
        raise Unsupported('range with a step')
    k = fresh('I', 'k')
    ASC.add(k)
    return SymIter((k,), and_(le(lo, k), lt(k, hi)), k, lambda x, y: lt(x[0], y[0]), pos=sub(k, lo))


def b_len(I, v):
    if isinstance(v, (tuple, str, range)):
        return len(v)
    if isinstance(v, PyList):
        if getattr(v, 'is_set', False):
            raise Unsupported('size of a symbolic set')
        return list_len(I, v)
    if isinstance(v, PyDict):
        if v.updates:
            raise Unsupported('size of a symbolic dict')
        return len(v.items)
    if isinstance(v, PySet):
        return len(v.items)
    if isinstance(v, SymDict):
        return v.n
    if isinstance(v, Arr):
        return unc(v.axes[0].card())
    if hasattr(v, 'sym_len'):
        return v.sym_len(I)
    raise Unsupported(f'len of {type(v).__name__}')


def b_int(I, v=0):
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, T):
        if v.sort == 'I':
            return v
        if v.sort == 'B':
            return term(v, 'I')
        if v.sort == 'R':
            return trunc(v)
    if isinstance(v, float):
        return int(v)
    if hasattr(v, 'sym_int'):
        return v.sym_int(I)
    raise Unsupported('int()')


def b_float(I, v=0.0):
    if I.is_scalar(v):
        return term(scal(v), 'R')
    raise Unsupported('float()')


def b_bool(I, v=False):
    return I.truth(v)


def b_str(I, v=''):
    if isinstance(v, str):
        return v
    if isinstance(v, T) and v.sort == 'S':
        return v
    if isinstance(v, (int,)):
        return str(v)
    if hasattr(v, 'sym_str'):
        return v.sym_str(I)
    return Opaque('str()')


def b_minmax(which):
    def f(I, *a, **kw):
        if kw:
            raise Unsupported('min/max with key')
        if len(a) == 1:
            parts = I.iter_parts(a[0])
            if all(p[0] == 'one' for p in parts):
                a = [p[1] for p in parts]
            elif any(p[0] == 'one' for p in parts):
                # some elements are known: the largest of them and of the others, if any
                ones = [p[1] for p in parts if p[0] == 'one']
                out = b_minmax(which)(I, *ones) if len(ones) > 1 else ones[0]
                pick_ = t_.max_ if which == 'max' else t_.min_
                for p in parts:
                    if p[0] == 'seg':
                        ne_ = exists(list(p[1]), p[2])
                        npc, nob = len(I.pc), len(I.obls)
                        I.pc.append(ne_)
                        m = sym_max(I, (p,), which)
                        del I.pc[npc:], I.obls[nob:]
                        out = ite(ne_, pick_(*[term(x, 'R') if 'R' in (scal(out).sort, m.sort) else x for x in (scal(out), m)]), term(out, m.sort))
                return out
            else:
                return sym_max(I, parts, which)
        if not a:
            raise PyRaise('ValueError')
        if all(isinstance(x, int) for x in a):
            return max(a) if which == 'max' else min(a)
        out = scal(a[0])
        for x in a[1:]:
            out = (t_.max_ if which == 'max' else t_.min_)(out, scal(x))
        return out
    return f


def sym_max(I, parts, which):
    """largest element of a symbolic collection: named by a choice function"""
    if len(parts) == 1 and parts[0][0] == 'seg':
        # one element per index, its value depending on the path taken for that index
        _, vs, dom, inner = parts[0]
        if inner and all(p[0] == 'if' and len(p[2]) == 1 and p[2][0][0] == 'one' for p in inner):
            conds, vals = [p[1] for p in inner], [scal(p[2][0][1]) for p in inner]
            if all(I.entails(not_(and_(dom, a, b))) for i, a in enumerate(conds) for b in conds[:i]):
                if len({x.sort for x in vals}) > 1:
                    vals = [term(x, 'R') for x in vals]
                v = vals[-1]
                for a, x in zip(conds[-2::-1], vals[-2::-1]):
                    v = ite(a, x, v)
                parts = (('seg', vs, and_(dom, or_(*conds)), (('one', v),)),)
    if len(parts) != 1 or parts[0][0] != 'seg' or len(parts[0][3]) != 1 or parts[0][3][0][0] != 'one':
        raise Unsupported('max of a mixed collection')
    _, vs, dom, ((_, val),) = parts[0]
    val = scal(val)
    ax = KeyAx([v.sort for v in vs], lambda *k: subst(dom, dict(zip(vs, k))))
    I.obl('non-empty', exists(list(vs), dom), f'{which}() of an empty sequence')
    p = PermAx(ax, (lambda a, b: lt(subst(val, dict(zip(vs, b))), subst(val, dict(zip(vs, a))))) if which == 'max' else
               (lambda a, b: lt(subst(val, dict(zip(vs, a))), subst(val, dict(zip(vs, b))))), ('max', which, t_._close('axis', list(vs), (dom, val), 'I').id))
    rep = I.choice('first', p, lambda r: TRUE)
    return subst(val, dict(zip(vs, rep)))


def b_sum(I, v, start=0):
    parts = I.iter_parts(v)
    acc = scal(start) if I.is_scalar(start) or isinstance(start, int) else None
    if acc is None:
        raise Unsupported('sum start')

    def go(ps, vs, dom):
        out = ZERO
        for p in ps:
            if p[0] == 'one':
                x = scal(p[1])
                if x.sort == 'B':
                    x = term(x, 'I')
                out = add(out, sum_(vs, dom, x) if vs else ite(dom, x, const(0, x.sort)))
            elif p[0] == 'seg':
                out = add(out, go(p[3], vs + list(p[1]), and_(dom, p[2])))
            elif p[0] == 'if':
                out = add(out, go(p[2], vs, and_(dom, p[1])))
            else:
                raise Unsupported('sum')
        return out
    return unc(add(acc, go(parts, [], TRUE)))


def b_anyall(which):
    def f(I, v):
        def go(ps, vs, dom):
            out = []
            for p in ps:
                if p[0] == 'one':
                    c = I.truth(p[1])
                    c = const(c) if isinstance(c, bool) else c
                    out.append(exists(vs, and_(dom, c)) if which == 'any' else forall(vs, or_(not_(dom), c)))
                elif p[0] == 'seg':
                    out += go(p[3], vs + list(p[1]), and_(dom, p[2]))
                elif p[0] == 'if':
                    out += go(p[2], vs, and_(dom, p[1]))
                else:
                    raise Unsupported(which)
            return out
        outs = go(I.iter_parts(v), [], TRUE)
        r = or_(*outs) if which == 'any' else and_(*outs)
        return bool(r.args[0]) if is_c(r) else r
    return f


def b_zip(I, *vs, strict=False):
    its = [I.iterate(v) for v in vs]
    if all(len(x) == 1 and x[0][0] == 'sym' for x in its):
        first = its[0][0][1]
        elems = [first.elem]
        for x in its[1:]:
            y = x[0][1]
            if len(y.vars) != len(first.vars):
                raise Unsupported('zip of different axes')
            m = dict(zip(y.vars, first.vars))
            d = subst(y.dom, m)
            if d is not first.dom and not I.entails(forall(list(first.vars), eq(d, first.dom))):
                raise Unsupported('zip of sequences of different length')
            elems.append(ops.subst_value(y.elem, m))
        return SymIter(first.vars, first.dom, tuple(elems), first.before, first.pos)
    if all(k == 'one' for x in its for k, _ in x):
        return PyList.of([tuple(x[1] for x in row) for row in zip(*its)])
    raise Unsupported('zip')


def b_enumerate(I, v, start=0):
    its = I.iterate(v)
    if all(k == 'one' for k, _ in its):
        return PyList.of([(i + start, x) for i, (_, x) in enumerate(its)])
    if len(its) == 1:
        s = its[0][1]
        if s.pos is None:
            raise Unsupported('enumerate')
        return SymIter(s.vars, s.dom, (add(s.pos, term(start)), s.elem), s.before, s.pos)
    raise Unsupported('enumerate')


def b_next(I, v, *default):
    if hasattr(v, 'sym_next'):
        return v.sym_next(I, *default)
    raise Unsupported('next')


def b_list(I, v=()):
    if hasattr(v, 'sym_list'):
        return v.sym_list(I)
    return PyList(I.iter_parts(v))


def b_tuple(I, v=()):
    return tuple(I.concrete_seq(v))


def b_set(I, v=()):
    if hasattr(v, 'sym_set'):
        return v.sym_set(I)
    parts = I.iter_parts(v)
    if all(p[0] == 'one' for p in parts):
        out = []
        for p in parts:
            if isinstance(p[1], T):
                raise Unsupported('set of symbolic values')
            if p[1] not in out:
                out.append(p[1])
        return PySet(out)
    l = PyList(parts)
    l.is_set = True
    return l


def b_dict(I, v=None, **kw):
    d = PyDict()
    if v is not None:
        if isinstance(v, PyDict):
            d.items.update(v.items)
            d.updates = v.updates
        elif isinstance(v, SymDict):
            return v
        else:
            for kind, x in I.iterate(v):
                if kind == 'one':
                    d.items[x[0]] = x[1]
                else:
                    d.updates += ((x.vars, x.dom, x.elem[0], x.elem[1]),)
    d.items.update(kw)
    return d


def b_isinstance(I, o, c):
    if isinstance(c, UnionType):
        c = c.members
    cs = c if isinstance(c, tuple) else (c,)
    sym = []
    for k in cs:
        if isinstance(k, Cls):
            if isinstance(o, Inst):
                todo = [o.cls]
                while todo:
                    x = todo.pop()
                    if x is k:
                        return True
                    for b in x.bases:
                        try:
                            y = I.global_(x.module, b)
                        except KeyError:
                            continue
                        if isinstance(y, Cls):
                            todo.append(y)
            elif hasattr(o, 'sym_isinstance'):
                r = o.sym_isinstance(I, k.name)
                sym.append(const(r) if isinstance(r, bool) else r)
        elif isinstance(k, Ext):
            n = k.name.split('.')[-1]
            if hasattr(o, 'sym_isinstance'):
                r = o.sym_isinstance(I, n)
                sym.append(const(r) if isinstance(r, bool) else r)
                continue
            if n == 'str' and (isinstance(o, str) or isinstance(o, T) and o.sort == 'S'):
                return True
            if n == 'int' and (isinstance(o, int) or isinstance(o, T) and o.sort == 'I'):
                return True
            if n == 'float' and (isinstance(o, float) or isinstance(o, T) and o.sort == 'R'):
                return True
            if n == 'bool' and (isinstance(o, bool) or isinstance(o, T) and o.sort == 'B'):
                return True
            if n == 'list' and isinstance(o, PyList):
                return True
            if n == 'dict' and isinstance(o, PyDict):
                return True
            if n == 'tuple' and isinstance(o, tuple):
                return True
            if n == 'ndarray' and isinstance(o, Arr):
                return True
        else:
            raise Unsupported('isinstance')
    r = or_(*sym) if sym else FALSE
    return bool(r.args[0]) if is_c(r) else r


class UnionType:
    """X | Y as the second argument of isinstance"""

    def __init__(self, members):
        self.members = members


class ExcType:
    def __init__(self, name):
        self.name = name

    def sym_attr(self, I, attr):
        if attr in ('__name__', '__qualname__'):
            return self.name
        raise Unsupported('attribute of an exception class')


def b_type(I, o):
    if isinstance(o, Inst):
        return o.cls
    if isinstance(o, ExcVal):
        return ExcType(o.name)
    if isinstance(o, Ext) and o.name in EXC:
        return o
    raise Unsupported('type()')


def b_getattr(I, o, name, *default):
    if not isinstance(name, str):
        raise Unsupported('getattr')
    try:
        return getattr_(I, o, name)
    except PyRaise as e:
        if e.exc == 'AttributeError' and default:
            return default[0]
        raise


def b_abs(I, v):
    if isinstance(v, Arr):
        return elementwise(t_.abs_, [v], I, v.dtype)
    return t_.abs_(scal(v))


def b_sorted(I, v, key=None, reverse=False):
    parts = I.iter_parts(v)
    if key is None and all(p[0] == 'one' and isinstance(p[1], (int, str)) for p in parts):
        return PyList.of(sorted([p[1] for p in parts], reverse=bool(reverse)))
    if len(parts) == 1 and parts[0][0] == 'seg' and len(parts[0][1]) == 1 and len(parts[0][3]) == 1 and parts[0][3][0][0] == 'one' and reverse is False:
        # elements whose keys increase strictly with their index come out in the order of the index
        _, (v,), dom, ((_, x),) = parts[0]
        k = x if key is None else call(I, key, [x], {})
        if isinstance(k, T) and k.sort in ('I', 'R'):
            a, b = fresh(v.sort, 'a'), fresh(v.sort, 'b')
            at = lambda t, w: subst(t, {v: w})
            if I.entails(forall([a, b], t_.implies(and_(at(dom, a), at(dom, b), lt(a, b)), lt(at(k, a), at(k, b))))):
                w = fresh(v.sort, 'k')
                ASC.add(w)
                return PyList([('seg', (w,), at(dom, w), (('one', loops_map(x, lambda t: at(t, w))),))])
    raise Unsupported('sorted of symbolic values')


def b_print(I, *a, **k):
    return None


def b_iter(I, v):
    return v


BI = {'range': b_range, 'len': b_len, 'int': b_int, 'float': b_float, 'bool': b_bool, 'str': b_str, 'min': b_minmax('min'), 'max': b_minmax('max'), 'sum': b_sum,
      'next': b_next, 'abs': b_abs, 'zip': b_zip, 'enumerate': b_enumerate, 'list': b_list, 'tuple': b_tuple, 'dict': b_dict, 'set': b_set, 'any': b_anyall('any'), 'all': b_anyall('all'),
      'isinstance': b_isinstance, 'type': b_type, 'getattr': b_getattr, 'sorted': b_sorted, 'print': b_print, 'warnings.warn': lambda I, *a, **k: I.warned.append(and_(*I.pc)),
      'collections.defaultdict': lambda I, f=None: DefaultDict(f)}


class DefaultDict(PyDict):
    def __init__(self, factory):
        super().__init__()
        self.factory = factory

    def default(self, I, ix):
        """an absent key and one holding a fresh empty list behave alike for [] (all that is allowed here)"""
        if not isinstance(self.factory, Ext) or self.factory.name not in ('list', 'dict'):
            raise Unsupported('defaultdict factory')
        v = PyList() if self.factory.name == 'list' else PyDict()
        v.id = self.id
        dict.__setitem__(self.items, ix, v)
        return v


def np_scalar(I, d, v=0):
    if isinstance(v, int) and not isinstance(v, bool) and d != 'f8' and d != 'b':
        return int(v)
    if isinstance(v, Arr):
        return astype(v, d)
    return conv(scal(v), None, d)


# ------------------------------------------------------------------------------------------- methods
def call_method(I, o, name, args, kwargs):
    if isinstance(o, Arr):
        return arr_method(I, o, name, args, kwargs)
    if isinstance(o, PyList):
        if name == 'append':
            I.heap_set(o, 'parts', o.parts + (('one', args[0]),))
            return None
        if name == 'extend':
            I.heap_set(o, 'parts', o.parts + I.iter_parts(args[0]))
            return None
        if name == 'index':
            for i, x in enumerate(o.concrete()):
                if I.compare('Eq', x, args[0]) is True:
                    return i
            raise PyRaise('ValueError')
        if name == 'copy':
            return PyList(o.parts)
    if isinstance(o, tuple):
        if name == 'index':
            return o.index(args[0])
        if name == 'count':
            return o.count(args[0])
    if isinstance(o, PyDict):
        if name == 'items':
            if o.updates:
                return sym_items(I, o)
            return PyList.of([(k, v) for k, v in o.items.items()])
        if name == 'keys':
            if o.updates:
                raise Unsupported('keys of a symbolic dict')
            return PyList.of(list(o.items))
        if name == 'values':
            if o.updates:
                raise Unsupported('values of a symbolic dict')
            return PyList.of(list(o.items.values()))
        if name == 'get':
            if not o.items and all(u[1] is FALSE for u in o.updates):
                return args[1] if len(args) > 1 else None
            if o.updates or isinstance(args[0], T):
                raise Unsupported('get on a symbolic dict')
            return o.items.get(args[0], args[1] if len(args) > 1 else None)
        if name == 'update':
            x = args[0]
            if isinstance(x, PyDict):
                if x.items:
                    if o.updates:
                        raise Unsupported('dict update order')
                    for k, v in x.items.items():
                        I.heap_set(o.items, k, v)
                if x.updates:
                    I.heap_set(o, 'updates', o.updates + x.updates)
                return None
        if name == 'pop':
            if o.updates:
                # remove one key from every update
                k = scal(args[0])
                I.heap_set(o, 'updates', tuple((vs, and_(dom, ne(key, k)), key, val) for vs, dom, key, val in o.updates))
                return Opaque('popped value')
            if args[0] in o.items:
                v = o.items[args[0]]
                c = dict(o.items)
                c.pop(args[0])
                I.heap_set(o, 'items', HDict(c))
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise('KeyError')
        if name == 'copy':
            d = PyDict(o.items)
            d.updates = o.updates
            return d
        if name == 'setdefault':
            if not o.updates and not isinstance(args[0], T):
                if args[0] not in o.items:
                    I.heap_set(o.items, args[0], args[1])
                return o.items[args[0]]
    if isinstance(o, SymDict):
        k = fresh('I', 'k')
        dom = and_(le(ZERO, k), lt(k, o.n))
        bf = lambda a, b: app(('dictorder', o.name), (a[0], b[0]), 'B')
        if name == 'items':
            return SymIter((k,), dom, (k, o.value(k)), bf)
        if name == 'keys':
            return SymIter((k,), dom, k, bf)
        if name == 'values':
            return SymIter((k,), dom, o.value(k), bf)
        if name == 'get':
            kk = scal(args[0])
            if I.decide(and_(le(ZERO, kk), lt(kk, o.n))):
                return o.value(kk)
            return args[1] if len(args) > 1 else None
    if isinstance(o, PySet):
        if name == 'add':
            if args[0] not in o.items:
                o.items.append(args[0])
            return None
        if name in ('union', 'intersection', 'difference'):
            return ops.binop(I, {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name], o, args[0])
    if isinstance(o, str):
        if name in ('lower', 'upper', 'strip', 'split', 'join', 'format', 'replace', 'startswith', 'endswith', 'find', 'rfind'):
            cargs = [tuple(x.concrete()) if isinstance(x, PyList) else x for x in args]
            if all(isinstance(x, (str, int, tuple)) for x in cargs):
                try:
                    r = getattr(o, name)(*cargs)
                except TypeError:
                    return Opaque('string')
                return PyList.of(r) if isinstance(r, list) else r
            return Opaque('string')
    if isinstance(o, T):
        if name in ('item', 'copy'):
            return o
        if name == 'astype':
            return conv(o, None, dtype_of(args[0]))
        if name in ('sum', 'max', 'min', 'mean'):
            return o
        if o.sort == 'S' and name in ('lower', 'upper', 'strip'):
            return app('str.' + name, (o,), 'S')
    if isinstance(o, Opaque):
        return Opaque(o.why + '.' + name)
    raise Unsupported(f'method {name} of {type(o).__name__}')


def sym_items(I, o):
    if o.items or len(o.updates) != 1:
        raise Unsupported('items of a symbolic dict')
    vs, dom, key, val = o.updates[0]
    return I.seg_iter(vs, dom, (key, val))


def arr_method(I, a, name, args, kwargs):
    ax = kwargs.get('axis', args[0] if args and name in ('sum', 'any', 'all', 'mean', 'max', 'min', 'cumsum') else None)
    if name in ('sum', 'any', 'all', 'mean', 'max', 'min', 'cumsum') and set(kwargs) - {'axis'}:
        if name == 'sum' and set(kwargs) <= {'axis', 'dtype'}:
            r, dt = reduce_axis(a, ax, name, I)
            d = dtype_of(kwargs['dtype'], dt)
            return astype(r, d) if isinstance(r, Arr) else conv(r, dt, d)
        raise Unsupported(f'{name} with {sorted(kwargs)}')
    if name in ('sum', 'any', 'all'):
        r, dt = reduce_axis(a, ax, name, I)
        return r if isinstance(r, Arr) else r
    if name == 'mean':
        r, dt = reduce_axis(a, ax, 'sum', I)
        axs = range(a.ndim) if ax is None else [ax % a.ndim]
        n = mul(*[a.axes[i].card() for i in axs])
        if isinstance(r, Arr):
            return elementwise(lambda x: div(term(x, 'R'), term(n, 'R')), [r], I, 'f8')
        return div(term(r, 'R'), term(n, 'R'))
    if name in ('max', 'min'):
        if ax is None and a.ndim == 1:
            vs = a.axes[0].vars('x')
            return sym_max(I, (('seg', vs, a.axes[0].dom(vs), (('one', a.at([vs])),)),), name)
        raise Unsupported('max over an axis')
    if name == 'astype':
        d = dtype_of(args[0])
        return astype(a, d)
    if name == 'copy':
        return A.copy(a)
    if name == 'reshape':
        shp = args[0] if len(args) == 1 and isinstance(args[0], (tuple, PyList)) else args
        return reshape(I, a, I.concrete_seq(shp) if not isinstance(shp, (list, tuple)) else list(shp))
    if name in ('flatten', 'ravel'):
        return reshape(I, a, [-1])
    if name == 'tolist':
        if a.ndim == 1:
            vs = axis_vars(a.axes[0], 'x')
            if a.axes[0].const_n is not None and a.axes[0].const_n <= 128:
                return PyList.of([a.at([(const(i),)]) for i in range(a.axes[0].const_n)])
            return PyList([('seg', vs, a.axes[0].dom(vs), (('one', a.at([vs])),))])
        if a.ndim == 2:
            out_v = axis_vars(a.axes[0], 'x')
            inner = arr_method(I, I.row(a, out_v), 'tolist', [], {})
            if a.axes[0].const_n is not None and a.axes[0].const_n <= 128:
                return PyList.of([arr_method(I, I.row(a, (const(i),)), 'tolist', [], {}) for i in range(a.axes[0].const_n)])
            return PyList([('seg', out_v, a.axes[0].dom(out_v), (('one', inner),))])
        raise Unsupported('tolist of 3-d')
    if name == 'diagonal':
        if a.ndim != 2 or not I.axes_equal(a.axes[0], a.axes[1]):
            raise Unsupported('diagonal')
        g = a.freeze()
        return new([a.axes[0]], lambda r: g([r[0], r[0]]), a.dtype)
    if name == 'transpose' and not args:
        return getattr_(I, a, 'T')
    if name == 'item' and a.ndim == 0:
        return a.at([])
    if name == 'to_numpy':
        return a
    if name == 'nonzero':
        return (np_where(I, a)[0],)
    if name == 'fill':
        I.write_all(a, args[0])
        return None
    raise Unsupported(f'ndarray.{name}')


def reshape(I, a, shp):
    """insertion/removal of unit axes, merging of trailing axes"""
    src = [i for i in range(a.ndim) if not is_unit(a.axes[i])]
    out_axes, srcs = [], []
    si = 0
    for j, d in enumerate(shp):
        if d == 1:
            out_axes.append(RangeAx(1))
            srcs.append(None)
            continue
        if si >= len(src):
            if d == -1:
                out_axes.append(RangeAx(1))
                srcs.append(None)
                continue
            raise Unsupported('reshape')
        ax = a.axes[src[si]]
        if d == -1:
            rest_out = len([x for x in shp[j + 1:] if x != 1])
            take = len(src) - si - rest_out
            if take == 1:
                out_axes.append(ax)
                srcs.append((si,))
            elif take > 1:
                out_axes.append(ProdAx([a.axes[src[q]] for q in range(si, si + take)]))
                srcs.append(tuple(range(si, si + take)))
            else:
                raise Unsupported('reshape')
            si += take
            continue
        c = ax.card()
        if isinstance(ax, ProdAx) and len(ax.parts) == len(shp) == 2 and a.ndim == 1:
            return unflatten(I, a, ax, [scal(x) for x in shp])
        if c is not term(d) and not I.entails(eq(c, scal(d))):
            raise Unsupported('reshape to another size')
        out_axes.append(ax)
        srcs.append((si,))
        si += 1
    if si != len(src):
        raise Unsupported('reshape')
    g = a.freeze()

    def get(r):
        full = [(ZERO,)] * a.ndim
        for ax, s, x in zip(out_axes, srcs, r):
            if s is None:
                continue
            if len(s) == 1:
                full[src[s[0]]] = x
            else:
                for q, part in zip(s, ax.split(x)):
                    full[src[q]] = part
        return g(full)
    return new(out_axes, get, a.dtype)


def unflatten(I, a, ax, shp):
    """array over the pairs of two ranges, row by row, as a matrix"""
    g = a.freeze()
    same = and_(*[eq(p.card(), n) for p, n in zip(ax.parts, shp)])
    if same is TRUE or I.entails(same):
        return new(list(ax.parts), lambda r: g([tuple(r[0]) + tuple(r[1])]), a.dtype)
    if any(not isinstance(p, RangeAx) for p in ax.parts):
        raise Unsupported('reshape')
    I.obl('reshape', eq(mul(*[p.card() for p in ax.parts]), mul(*shp)), 'as many elements as before')
    n = ax.parts[1].card()
    pos = lambda r: add(mul(r[0][0], shp[1]), r[1][0])
    return new([RangeAx(shp[0]), RangeAx(shp[1])], lambda r: g([(t_.floordiv(pos(r), n), t_.mod(pos(r), n))]), a.dtype)


# ------------------------------------------------------------------------------------------- numpy
def shape_axes(I, shape):
    if isinstance(shape, (tuple, PyList)):
        return [axis_of_size(scal(x)) for x in I.concrete_seq(shape)]
    return [axis_of_size(scal(shape))]


def np_zeros(I, shape, dtype=None):
    d = dtype_of(dtype, 'f8')
    return full(shape_axes(I, shape), const(0, SORT[d]) if d != 'b' else FALSE, d)


def np_ones(I, shape, dtype=None):
    d = dtype_of(dtype, 'f8')
    return full(shape_axes(I, shape), const(1, SORT[d]) if d != 'b' else TRUE, d)


def np_full(I, shape, fill_value, dtype=None):
    v = scal(fill_value)
    d = dtype_of(dtype, ops.sdtype(v))
    return full(shape_axes(I, shape), v, d)


def np_like(v):
    def f(I, a, dtype=None):
        d = dtype_of(dtype, a.dtype)
        return full(a.axes, (const(bool(v)) if d == 'b' else const(v, SORT[d])), d)
    return f


def np_array(I, v, dtype=None, copy=True):
    d = dtype_of(dtype)
    if isinstance(v, Arr):
        return A.copy(v) if d is None else astype(v, d)
    return to_array(I, v, d)


def np_arange(I, *a, dtype=None):
    lo, hi = (ZERO, scal(a[0])) if len(a) == 1 else (scal(a[0]), scal(a[1]))
    if len(a) > 2:
        raise Unsupported('arange step')
    n = sub(hi, lo)
    ax = axis_of_size(n)
    if isinstance(ax, RangeAx) and not I.entails(le(ZERO, n)):
        ax = RangeAx(t_.max_(n, ZERO))
    return new([ax], lambda r: add(lo, pos_term(ax, r[0])), 'i8')


def np_where(I, c, *rest):
    c = c if isinstance(c, Arr) else to_array(I, c)
    if rest:
        x, y = [v if isinstance(v, Arr) else scal(v) for v in rest]
        d = ops.wdtype(x, y) if isinstance(x, Arr) or isinstance(y, Arr) else result_dtype(ops.sdtype(x), ops.sdtype(y))
        return elementwise(lambda q, u, v: ite(q, conv(u, None, d), conv(v, None, d)), [c, x, y], I, d)
    if c.dtype != 'b':
        c = elementwise(lambda x: ne(x, const(0, x.sort)), [c], I, 'b')
    if c.ndim == 1:
        ax = ops.mask_axis(I, c.axes, c)
        base = c.axes[0]
        return (new([ax], lambda r: pos_term(base, r[0]), 'i8'),)
    ax = ops.mask_axis(I, c.axes, c)
    return tuple(new([ax], lambda r, q=q: pos_term(c.axes[q], ax.base.split(r[0])[q]), 'i8') for q in range(c.ndim))


def np_unique(I, a, axis=None, return_index=False, return_counts=False, return_inverse=False):
    a = a if isinstance(a, Arr) else to_array(I, a)
    if a.ndim == 2 and axis == 0:
        n = a.axes[1].const_n
        if n is None:
            raise Unsupported('unique rows of unknown width')
        g = a.freeze()
        vals = lambda r: [g([r, (const(c),)]) for c in range(n)]
        ax = a.axes[0]
    elif a.ndim == 1 and axis in (None, 0, -1):
        g = a.freeze()
        vals = lambda r: [g([r])]
        ax, n = a.axes[0], 1
    elif axis is None:
        return np_unique(I, reshape(I, a, [-1]), None, return_index, return_counts, return_inverse)
    else:
        raise Unsupported('unique')
    s = a.sort
    probe = ax.vars('u')
    # integer-valued columns of a float array keep integer keys
    ints = [x.op == 'toreal' for x in vals(probe)]
    sorts = ['I' if i else s for i in ints]

    def raw(r):
        return [x.args[0] if i else x for x, i in zip(vals(r), ints)]

    def phi(*k):
        r = ax.vars('u')
        return exists(list(r), and_(ax.dom(r), *[eq(x, y) for x, y in zip(raw(r), k)]))
    kax = KeyAx(sorts, phi)
    if n == 1 and a.ndim == 1:
        uniq = new([kax], lambda r: term(r[0][0], 'R') if ints[0] else r[0][0], a.dtype)
    else:
        uniq = new([kax, RangeAx(n)], lambda r: pick([term(x, 'R') if i else x for x, i in zip(r[0], ints)], r[1][0]), a.dtype)
    out = [uniq]
    if return_index:
        def first(r):
            w = I.choice('first', ax, lambda v: and_(*[eq(x, y) for x, y in zip(raw(v), r[0])]))
            return pos_term(ax, w)
        out.append(new([kax], first, 'i8'))
    if return_inverse:
        out.append(new([ax], lambda r: pos_term(kax, tuple(raw(r[0]))), 'i8'))
    if return_counts:
        def cnt(r):
            v = ax.vars('u')
            return count(list(v), and_(ax.dom(v), *[eq(x, y) for x, y in zip(raw(v), r[0])]))
        out.append(new([kax], cnt, 'i8'))
    return out[0] if len(out) == 1 else tuple(out)


def np_bincount(I, x, weights=None, minlength=0):
    x = x if isinstance(x, Arr) else to_array(I, x)
    if x.ndim != 1:
        raise Unsupported('bincount')
    ax = x.axes[0]
    g = x.freeze()
    r = ax.vars('b')
    n = scal(minlength)
    v = g([r])
    if v.sort == 'R':
        v = trunc(v)
    I.obl('bincount-range', forall(list(r), or_(not_(ax.dom(r)), and_(le(ZERO, v), lt(v, n)))), 'bincount values lie in [0, minlength)')
    if weights is not None:
        _, maps = align([x.axes, weights.axes], I)
        wg = weights.freeze()
        return new([RangeAx(n)], lambda k: term(sum_(list(r2 := ax.vars('b')), and_(ax.dom(r2), eq(_int(g([r2])), k[0][0])), term(wg(maps[1]([r2])), 'R')), 'R'), 'f8')

    def get(k):
        r2 = ax.vars('b')
        return count(list(r2), and_(ax.dom(r2), eq(_int(g([r2])), k[0][0])))
    return new([axis_of_size(n)], get, 'i8')


def _int(t):
    return trunc(t) if t.sort == 'R' else t


def np_isclose(I, a, b, rtol=1e-5, atol=1e-8):
    def f(x, y):
        x, y = term(x, 'R'), term(y, 'R')
        return le(t_.abs_(sub(x, y)), add(scal(atol), mul(scal(rtol), t_.abs_(y))))
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(f, [x if isinstance(x, Arr) else scal(x) for x in (a, b)], I, 'b')
    return f(scal(a), scal(b))


def np_isin(I, a, b, assume_unique=False, invert=False):
    a = a if isinstance(a, Arr) else to_array(I, a)
    b = b if isinstance(b, Arr) else to_array(I, b)
    bg, axes = b.freeze(), b.axes

    def f(x):
        out = []
        vs = [ax.vars('i') for ax in axes]
        r = exists([v for q in vs for v in q], and_(*[ax.dom(q) for ax, q in zip(axes, vs)], eq(bg(vs), x)))
        return not_(r) if invert else r
    if all(ax.const_n is not None and ax.const_n <= 16 for ax in axes) and len(axes) == 1:
        vals = [bg([(const(i),)]) for i in range(axes[0].const_n)]
        f = lambda x: (not_ if invert else (lambda q: q))(or_(*[eq(v, x) for v in vals]))
    return elementwise(f, [a], I, 'b')


def np_binary(op):
    def f(I, a, b, out=None, where=None):
        r = ops.binop(I, op, a, b)
        return store_out(I, r, out, where)
    return f


def store_out(I, r, out, where):
    if out is None:
        if where is not None:
            raise Unsupported('where without out')
        return r
    if where is not None:
        w = where if isinstance(where, Arr) else scal(where)
        r = elementwise(lambda c, x, o: ite(c, conv(x, None, out.dtype), o), [w, r if isinstance(r, Arr) else scal(r), out], I, out.dtype)
    I.write_all(out, r)
    return out


def np_divide(I, a, b, out=None, where=None, dtype=None):
    if isinstance(a, Arr) or isinstance(b, Arr):
        r = ops.binop(I, 'Div', a, b)
    else:
        r = div(scal(a), scal(b))
    if out is None:
        return r
    return store_out(I, r, out, where)


def np_minmax(which):
    def f(I, a, b, out=None):
        g = t_.max_ if which == 'max' else t_.min_
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            return g(scal(a), scal(b))
        d = ops.wdtype(a, b)
        s = SORT[d]
        r = elementwise(lambda x, y: g(term(x, s), term(y, s)), [x if isinstance(x, Arr) else scal(x) for x in (a, b)], I, d)
        return store_out(I, r, out, None)
    return f


def np_logical(op):
    def f(I, *xs, out=None):
        def tr(x):
            return x if x.sort == 'B' else ne(x, const(0, x.sort))
        fn = {'and': lambda x, y: and_(tr(x), tr(y)), 'or': lambda x, y: or_(tr(x), tr(y)), 'not': lambda x: not_(tr(x)), 'xor': lambda x, y: ne(tr(x), tr(y))}[op]
        r = elementwise(fn, [x if isinstance(x, Arr) else scal(x) for x in xs], I, 'b')
        return store_out(I, r, out, None)
    return f


def np_reduce(name):
    def f(I, a, axis=None, **kw):
        if not isinstance(a, Arr):
            a = to_array(I, a)
        return arr_method(I, a, name, [], {'axis': axis})
    return f


def np_column_stack(I, xs):
    arrs = [x if isinstance(x, Arr) else to_array(I, x) for x in I.concrete_seq(xs)]
    arrs2 = []
    for x in arrs:
        arrs2.append(x)
    return np_hstack(I, tuple(reshape(I, x, [-1, 1]) if x.ndim == 1 else x for x in arrs2))


def np_hstack(I, xs):
    arrs = [x if isinstance(x, Arr) else to_array(I, x) for x in I.concrete_seq(xs)]
    if all(x.ndim == 1 for x in arrs):
        return np_concat(I, tuple(arrs), 0)
    return np_concat(I, tuple(arrs), 1)


def np_concat(I, xs, axis=0, dtype=None):
    arrs = [x if isinstance(x, Arr) else to_array(I, x) for x in I.concrete_seq(xs)]
    d = arrs[0].dtype
    for x in arrs[1:]:
        d = result_dtype(d, x.dtype)
    nd = arrs[0].ndim
    if axis is None:
        raise Unsupported('concatenate')
    axis %= nd
    if all(x.axes[axis].const_n is not None for x in arrs):
        others, maps = align([[ax for i, ax in enumerate(x.axes) if i != axis] for x in arrs], I)
        gets = [x.freeze() for x in arrs]
        cells = []
        for g, mp, x in zip(gets, maps, arrs):
            for c in range(x.axes[axis].const_n):
                cells.append((g, mp, c))
        res = others[:axis] + [RangeAx(len(cells))] + others[axis:]

        def get(r):
            o = r[:axis] + r[axis + 1:]
            def cell(q):
                g, mp, c = q
                fr = mp(o)
                return conv(g(fr[:axis] + [(const(c),)] + fr[axis:]), None, d)
            i = r[axis][0]
            if is_c(i):
                return cell(cells[i.args[0]])
            return pick([cell(q) for q in cells], i)
        return new(res, get, d)
    if len(arrs) == 2 and nd == 1 and arrs[0].axes[0].const_n == 1:
        g0, g1 = arrs[0].freeze(), arrs[1].freeze()
        ax = HeadAx(arrs[1].axes[0])
        return new([ax], lambda r: ite(r[0][0], conv(g0([(ZERO,)]), None, d), conv(g1([r[0][1:]]), None, d)), d)
    raise Unsupported('concatenate of symbolic lengths')


def np_stack(I, xs, axis=0):
    if axis != 0:
        raise Unsupported('stack')
    return to_array(I, xs)


def np_lexsort(I, keys):
    ks = [k if isinstance(k, Arr) else to_array(I, k) for k in I.concrete_seq(keys)]
    axes, maps = align([k.axes for k in ks], I)
    ax = axes[0]
    gets = [k.freeze() for k in ks]

    def bef(a, b):
        out = ax.before(a, b)
        for g, m in zip(gets, maps):
            x, y = g(m([a])), g(m([b]))
            out = or_(lt(x, y), and_(eq(x, y), out))
        return out
    u, v = ax.vars('p'), ax.vars('q')
    key = t_._close('axis', list(u) + list(v), (bef(u, v),), 'I').id
    pax = PermAx(ax, bef, ('lex', key))
    return new([pax], lambda r: pos_term(ax, r[0]), 'i8')


def np_argbest(which):
    def f(I, a, axis=None):
        """position of the first largest (smallest) element"""
        if not isinstance(a, Arr):
            a = np_array(I, a)
        if a.ndim != 1 or axis not in (None, 0, -1):
            raise Unsupported('arg' + which)
        ax, g = a.axes[0], a.freeze()
        u, v = ax.vars('p'), ax.vars('q')

        def bef(x, y):
            p, q = g([x]), g([y])
            return or_(lt(q, p) if which == 'max' else lt(p, q), and_(eq(p, q), ax.before(x, y)))
        I.obl('non-empty', exists(list(u), ax.dom(u)), f'arg{which} of an empty sequence')
        p = PermAx(ax, bef, ('arg' + which, t_._close('axis', list(u) + list(v), (and_(ax.dom(u), ax.dom(v), bef(u, v)),), 'I').id))
        return pos_term(ax, I.choice('first', p, lambda r: TRUE))
    return f


def np_argsort(I, a, axis=-1, kind=None, stable=None):
    if a.ndim == 1:
        ax, outer = a.axes[0], []
    elif a.ndim == 2 and axis in (1, -1):
        ax, outer = a.axes[1], [a.axes[0]]
    else:
        raise Unsupported('argsort')
    g = a.freeze()
    is_stable = kind in ('stable', 'mergesort') or stable is True

    def axis_at(o):
        def bef(x, y):
            p, q = g(o + [x]), g(o + [y])
            return or_(lt(p, q), and_(eq(p, q), ax.before(x, y))) if is_stable else lt(p, q)
        u, v = ax.vars('p'), ax.vars('q')
        body = bef(u, v)
        key = t_._close('axis', list(u) + list(v), (body,), 'I').id
        return PermAx(ax, bef, ('argsort', key, is_stable))
    if not outer:
        pax = axis_at([])
        return new([pax], lambda r: pos_term(ax, r[0]), 'i8')
    return SortRows(outer[0], axis_at, ax)


class SortRows:
    """2-d result of argsort along the last axis: one permutation per row"""

    def __init__(self, outer, axis_at, base):
        self.outer, self.axis_at, self.base = outer, axis_at, base

    def sym_getitem(self, I, ix):
        if isinstance(ix, tuple):
            if len(ix) == 2 and isinstance(ix[1], slice) and ix[1] == slice(None):
                ix = ix[0]
            else:
                raise Unsupported('indexing a sorted array')
        rep = ops.rep_of(I, self.outer, ix, 'row index')
        pax = self.axis_at([rep])
        base = self.base
        return new([pax], lambda r: pos_term(base, r[0]), 'i8')


def np_sort(I, a, axis=-1):
    if a.ndim == 1:
        return ops.getitem(I, a, np_argsort(I, a))
    raise Unsupported('sort')


def np_add_at(I, a, ix, v):
    p = ops.plan(I, a, ix)
    ops.write(I, a, p, v, accumulate=True)
    return None


def np_ix(I, *parts):
    return IxSel(list(parts))


def np_accumulate_max(I, a, axis=0):
    if a.ndim != 1:
        raise Unsupported('accumulate')
    ax, g = a.axes[0], a.freeze()

    def get(r):
        # the first position of the largest element up to r
        key = ('accmax',)
        p = PermAx(ax, lambda x, y: or_(lt(g([y]), g([x])), and_(eq(g([x]), g([y])), ax.before(x, y))), ('accmax', _axfn(ax, g)))
        q = I.pred_base(ax, r[0])
        if q is not None:       # up to the predecessor of q: before q
            w = I.choice('first', p, lambda v: ax.before(v, q))
        elif total(ax):
            w = I.choice('first', p, lambda v: not_(ax.before(r[0], v)))
        else:
            w = I.choice('first', p, lambda v: or_(ax.before(v, r[0]), and_(*[eq(x, y) for x, y in zip(v, r[0])])))
        return g([w])
    return new([ax], get, a.dtype)


def _axfn(ax, g):
    v = ax.vars('z')
    return t_._close('axis', list(v), (ax.dom(v), g([v])), 'I').id


def np_cumsum(I, a, axis=None):
    if a.ndim != 1:
        raise Unsupported('cumsum')
    ax, g = a.axes[0], a.freeze()

    def get(r):
        v = ax.vars('z')
        x = g([v])
        x = term(x, 'I') if x.sort == 'B' else x
        return sum_(list(v), and_(ax.dom(v), or_(ax.before(v, r[0]), and_(*[eq(p, q) for p, q in zip(v, r[0])]))), x)
    return new([ax], get, {'b': 'i8'}.get(a.dtype, a.dtype))


def np_trapezoid(I, y, x=None, axis=-1):
    """sum over consecutive elements of (x_i - x_{i-1}) (y_i + y_{i-1}) / 2"""
    ax = y.axes[0]
    gx, gy = x.freeze(), y.freeze()
    if not I.axes_equal(ax, x.axes[0]):
        raise Unsupported('trapezoid')
    a, b, m = ax.vars('a'), ax.vars('b'), ax.vars('m')
    between = exists(list(m), and_(ax.dom(m), ax.before(a, m), ax.before(m, b)))
    dom = and_(ax.dom(a), ax.dom(b), ax.before(a, b), not_(between))
    val = div(mul(sub(gx([b]), gx([a])), add(gy([b]), gy([a]))), const(2, 'R'))
    if isinstance(ax, HeadAx):
        base = ax.base
        b2 = base.vars('b')
        first = and_(base.dom(b2), not_(exists(list(m2 := base.vars('m')), and_(base.dom(m2), base.before(m2, b2)))))
        head = tuple([TRUE] + [const(0, s) for s in base.sorts])
        hb = (FALSE,) + tuple(b2)
        part1 = sum_(list(b2), first, div(mul(sub(gx([hb]), gx([head])), add(gy([hb]), gy([head]))), const(2, 'R')))
        inner = new([base], lambda r: gy([(FALSE,) + tuple(r[0])]), y.dtype)
        innx = new([base], lambda r: gx([(FALSE,) + tuple(r[0])]), x.dtype)
        return add(part1, np_trapezoid(I, inner, innx))
    return sum_(list(a) + list(b), dom, val)


def np_any_scalar(I, a, axis=None):
    return np_reduce('any')(I, a, axis)


def np_sum(I, a, axis=None, **kw):
    return np_reduce('sum')(I, a, axis)


def np_expand_dims(I, a, axis):
    ix = [slice(None)] * a.ndim
    ix.insert(axis % (a.ndim + 1), None)
    return ops.getitem(I, a, tuple(ix))


def np_astype_fn(I, a, dtype=None):
    return np_array(I, a, dtype) if not isinstance(a, Arr) or dtype is not None else a


def np_max(which):
    def f(I, a, axis=None):
        return arr_method(I, a, which, [], {'axis': axis})
    return f


def np_diagonal(I, a):
    return arr_method(I, a, 'diagonal', [], {})


NP = {'zeros': np_zeros, 'ones': np_ones, 'full': np_full, 'zeros_like': np_like(0), 'ones_like': np_like(1), 'array': np_array, 'asarray': np_astype_fn,
      'arange': np_arange, 'where': np_where, 'nonzero': lambda I, a: np_where(I, a), 'flatnonzero': lambda I, a: np_where(I, a)[0], 'unique': np_unique, 'bincount': np_bincount, 'isclose': np_isclose, 'isin': np_isin,
      'add': np_binary('Add'), 'subtract': np_binary('Sub'), 'multiply': np_binary('Mult'), 'divide': np_divide, 'true_divide': np_divide,
      'bitwise_and': np_binary('BitAnd'), 'bitwise_or': np_binary('BitOr'), 'floor_divide': np_binary('FloorDiv'),
      'maximum': np_minmax('max'), 'minimum': np_minmax('min'), 'logical_and': np_logical('and'), 'logical_or': np_logical('or'), 'logical_not': np_logical('not'),
      'logical_xor': np_logical('xor'), 'invert': np_logical('not'),
      'sum': np_sum, 'any': np_reduce('any'), 'all': np_reduce('all'), 'mean': np_reduce('mean'), 'max': np_max('max'), 'min': np_max('min'), 'amax': np_max('max'), 'amin': np_max('min'),
      'column_stack': np_column_stack, 'hstack': np_hstack, 'concatenate': np_concat, 'stack': np_stack, 'vstack': lambda I, xs: np_concat(I, xs, 0),
      'lexsort': np_lexsort, 'argsort': np_argsort, 'argmax': np_argbest('max'), 'argmin': np_argbest('min'), 'sort': np_sort, 'add.at': np_add_at, 'ix_': np_ix, 'maximum.accumulate': np_accumulate_max,
      'cumsum': np_cumsum, 'expand_dims': np_expand_dims, 'diagonal': np_diagonal, 'abs': b_abs, 'empty': np_zeros, 'count_nonzero': lambda I, a, axis=None: np_sum(I, np_logical('or')(I, a, a), axis),
      'trapezoid': lambda I, y=None, x=None, axis=-1: np_trapezoid(I, y, x, axis), 'trapz': lambda I, y=None, x=None, axis=-1: np_trapezoid(I, y, x, axis),
      'equal': lambda I, a, b: ops.compare(I, 'Eq', a, b), 'not_equal': lambda I, a, b: ops.compare(I, 'NotEq', a, b), 'greater': lambda I, a, b: ops.compare(I, 'Gt', a, b),
      'greater_equal': lambda I, a, b: ops.compare(I, 'GtE', a, b), 'less': lambda I, a, b: ops.compare(I, 'Lt', a, b), 'less_equal': lambda I, a, b: ops.compare(I, 'LtE', a, b),
      'transpose': lambda I, a: getattr_(I, a, 'T'), 'ravel': lambda I, a: reshape(I, a, [-1]), 'reshape': lambda I, a, s: reshape(I, a, I.concrete_seq(s)),
      'sign': None, 'square': lambda I, a: ops.binop(I, 'Mult', a, a), 'negative': lambda I, a: elementwise(t_.neg, [a], I, a.dtype),
      'copy': lambda I, a: A.copy(a)}
NP = {k: v for k, v in NP.items() if v is not None}


def ext_getitem(I, o, ix):
    if o.name == 'numpy.r_':
        return np_concat(I, tuple(to_1d(I, x) for x in (ix if isinstance(ix, tuple) else (ix,))), 0)
    return Ext(o.name + '[]')


def to_1d(I, x):
    if isinstance(x, Arr):
        return x
    return to_array(I, (x,))


def loops_map(v, f):
    from .loops import map_value
    return map_value(v, f)
