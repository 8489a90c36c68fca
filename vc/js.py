"""Dynamically typed values, text and lists used as arrays.

Js is an arbitrary JSON value: a term of the uninterpreted sort 'J' with its kind, length, items and members given by
uninterpreted functions, so a statement about it covers every value a parser can return."""
import re
from .interp import *
from . import term as t_
from .arr import *
from .term import T

KIND = {'NoneType': 0, 'bool': 1, 'int': 2, 'float': 3, 'str': 4, 'list': 5, 'dict': 6}


def S(x):
    return t_.sym(x, 'S') if isinstance(x, str) else x


class Js:
    def __init__(self, h):
        self.h = h

    # ------------------------------------------------------------ specification view
    def kind(self):
        return app('jkind', (self.h,), 'I')

    def is_(self, name):
        k = eq(self.kind(), const(KIND[name]))
        return or_(k, eq(self.kind(), const(1))) if name == 'int' else k

    def len(self):
        return app('jlen', (self.h,), 'I')

    def item(self, i):
        return Js(app('jitem', (self.h, i), 'J'))

    def has(self, k):
        return app('jhas', (self.h, S(k)), 'B')

    def get(self, k):
        return Js(app('jget', (self.h, S(k)), 'J'))

    def text(self):
        return app('jstr', (self.h,), 'S')

    def equals(self, s):
        return and_(self.is_('str'), eq(self.text(), S(s)))

    def keys_are(self, names):
        """the keys are exactly names"""
        return and_(*[self.has(k) for k in names], eq(app('jnkeys', (self.h,), 'I'), const(len(names))))

    def map_terms(self, f):
        return Js(f(self.h))

    def sym_subst(self, m):
        return Js(subst(self.h, m))

    # ------------------------------------------------------------ behaviour of Python
    def sym_isinstance(self, I, n):
        return self.is_(n) if n in KIND else FALSE

    def sym_len(self, I):
        if not I.decide(or_(self.is_('list'), self.is_('dict'), self.is_('str'))):
            raise PyRaise('TypeError')
        I.pc.append(le(ZERO, self.len()))
        return self.len()

    def sym_truth(self, I):
        if I.decide(or_(self.is_('list'), self.is_('dict'), self.is_('str'))):
            return lt(ZERO, self.len())
        raise Unsupported('truth of a JSON scalar')

    def sym_iter(self, I):
        if I.decide(self.is_('list')):
            k = fresh('I', 'k')
            return [('sym', SymIter((k,), and_(le(ZERO, k), lt(k, self.len())), self.item(k), lambda a, b: lt(a[0], b[0]), pos=k))]
        if I.decide(or_(self.is_('dict'), self.is_('str'))):
            raise Unsupported('iteration over a JSON dict')
        raise PyRaise('TypeError')

    def sym_contains(self, I, x):
        if I.decide(self.is_('dict')):
            if isinstance(x, str) or isinstance(x, T) and x.sort == 'S':
                return self.has(x)
            raise Unsupported('key of a JSON dict')
        if I.decide(or_(self.is_('list'), self.is_('str'))):
            raise Unsupported('membership in a JSON list')
        raise PyRaise('TypeError')

    def sym_getitem(self, I, ix):
        if isinstance(ix, str) or isinstance(ix, T) and ix.sort == 'S':
            if not I.decide(self.is_('dict')):
                raise PyRaise('TypeError')
            if not I.decide(self.has(ix)):
                raise PyRaise('KeyError')
            return self.get(ix)
        if isinstance(ix, (int, T)):
            if not I.decide(self.is_('list')):
                raise PyRaise('TypeError')
            i = term(ix)
            if not I.decide(and_(le(t_.neg(self.len()), i), lt(i, self.len()))):
                raise PyRaise('IndexError')
            return self.item(ite(lt(i, ZERO), add(i, self.len()), i))
        raise Unsupported('index of a JSON value')

    def sym_compare(self, I, op, b):
        if op in ('Eq', 'NotEq'):
            if isinstance(b, str) or isinstance(b, T) and b.sort == 'S':
                r = self.equals(b)
                return r if op == 'Eq' else not_(r)
            if b is None:
                r = self.is_('NoneType')
                return r if op == 'Eq' else not_(r)
        raise Unsupported('comparison of a JSON value')

    def sym_is(self, I, b):
        if b is None:
            return self.is_('NoneType')
        return FALSE

    def sym_hash(self, I):
        if I.decide(or_(self.is_('list'), self.is_('dict'))):
            raise PyRaise('TypeError')

    def sym_attr(self, I, name):
        if name == 'keys':
            def keys(I):
                if not I.decide(self.is_('dict')):
                    raise PyRaise('AttributeError')
                return JsKeys(self)
            return keys
        if name == 'get':
            def get(I, k, default=None):
                if not I.decide(self.is_('dict')):
                    raise PyRaise('AttributeError')
                return self.get(k) if I.decide(self.has(k)) else default
            return get
        raise Unsupported(f'attribute {name} of a JSON value')


class JsKeys:
    def __init__(self, js):
        self.js = js

    def sym_set(self, I):
        return self

    def sym_compare(self, I, op, b):
        if op in ('Eq', 'NotEq') and isinstance(b, PySet) and all(isinstance(x, str) for x in b.items):
            r = self.js.keys_are(b.items)
            return r if op == 'Eq' else not_(r)
        raise Unsupported('comparison of the keys of a JSON value')

    def sym_contains(self, I, x):
        return self.js.sym_contains(I, x)


# ------------------------------------------------------------------------------------------- text
class Text:
    """text matched by a known regular expression"""

    def __init__(self, pattern):
        self.pattern = pattern

    def first(self):
        """first character, when the pattern fixes it"""
        try:
            p = list(re._parser.parse(self.pattern))
        except re.error:
            return None
        if p and str(p[0][0]) == 'LITERAL':
            return chr(p[0][1])
        return None

    def is_integer(self):
        return self.pattern in (r'-?\d+', r'\d+', r'[-+]?\d+', r'-?[0-9]+', r'[0-9]+')

    def sym_int(self, I):
        if not self.is_integer():
            if I.decide(app(('notint', self.pattern), (), 'B')):
                raise PyRaise('ValueError')
        return app(('intval', self.pattern), (), 'I')

    def sym_str(self, I):
        return self


class Match:
    def __init__(self, pattern):
        self.pattern = pattern

    def sym_truth(self, I):
        return True

    def sym_is(self, I, b):
        return FALSE

    def sym_attr(self, I, name):
        if name == 'group':
            def group(I, n=0):
                if n != 0:
                    raise Unsupported('group of a match')
                return Text(self.pattern)
            return group
        raise Unsupported(f'match.{name}')


def re_search(I, pattern, text, *flags):
    if not isinstance(pattern, str) or flags:
        raise Unsupported('regular expression')
    if I.decide(app(('matches', pattern), (), 'B')):
        return Match(pattern)
    return None


def json_loads(I, text):
    """assumed: json.loads of text starting with '{' returns a dict or raises JSONDecodeError"""
    if I.decide(app('notjson', (), 'B')):
        raise PyRaise('JSONDecodeError')
    j = Js(app('parsed', (), 'J'))
    first = text.first() if isinstance(text, Text) else None
    if first == '{':
        I.pc.append(j.is_('dict'))
    elif first == '[':
        I.pc.append(j.is_('list'))
    I.assumptions.add("json.loads returns an arbitrary JSON value (a dict if the text starts with '{') or raises JSONDecodeError")
    return j


# ------------------------------------------------------------------------------------------- lists used as arrays
class ListArr:
    """list of scalars of symbolic length with item assignment"""

    def __init__(self, a):
        self.arr = a

    def sym_len(self, I):
        from .calls import unc
        return unc(self.arr.axes[0].card())

    def sym_iter(self, I):
        return I.iterate(self.arr)

    def sym_truth(self, I):
        return lt(ZERO, self.arr.axes[0].card())

    def sym_getitem(self, I, ix):
        r = I.getitem(self.arr, ix)
        if isinstance(ix, slice):
            g = r.freeze()
            return ListArr(new(r.axes, g, r.dtype))
        return r

    def sym_setitem(self, I, ix, v):
        if isinstance(ix, slice):
            raise Unsupported('slice assignment into a list')
        I.setitem(self.arr, ix, v)

    def sym_isinstance(self, I, n):
        return TRUE if n == 'list' else FALSE


def sym_strings(name, n, *args):
    """a list of n arbitrary strings"""
    k = fresh('I', 'k')
    return seq(k, n, app(name, (*args, k), 'S'))


def list_key(v):
    """(name, arguments) identifying the contents of a list of scalars"""
    if isinstance(v, PyList) and all(p[0] == 'one' and isinstance(p[1], (str, int)) for p in v.parts):
        return ('list', tuple(p[1] for p in v.parts)), ()
    if isinstance(v, PyList) and len(v.parts) == 1 and v.parts[0][0] == 'seg':
        _, vs, dom, inner = v.parts[0]
        if len(inner) == 1 and inner[0][0] == 'one' and isinstance(inner[0][1], T):
            el = inner[0][1]
            fvs = sorted({x for x in dom.fv | el.fv if not t_.is_size(x)} - set(vs), key=lambda x: x.id)
            canon = [var(f'@{i}', x.sort) for i, x in enumerate(fvs)]
            m = dict(zip(fvs, canon))
            return ('list', t_._close('axis', list(vs), (subst(dom, m), subst(el, m)), 'I').id), tuple(fvs)
    raise Unsupported('list passed to an LLM request')
