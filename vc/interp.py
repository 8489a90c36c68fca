"""Symbolic interpreter over the real source in /repo.

Executes function bodies on symbolic inputs.  Branches on symbolic conditions fork (re-execution with a decision
list); loops over symbolic ranges run their body once on a generic iteration and are summarised by ownership,
accumulation or a recursion over the iterations (strong induction), never unrolled; concrete loops are unrolled."""
import ast
import os
from fractions import Fraction
from . import term as t_
from .term import (T, term, const, var, fresh, app, and_, or_, not_, ite, eq, ne, lt, le, add, sub, mul, div,
                   exists, forall, count, sum_, subst, TRUE, FALSE, ZERO, ONE, is_c, solve_for, subterms)
from .arr import *
from . import arr as A
from . import solve


class PyRaise(Exception):
    def __init__(self, exc, msg=None):
        super().__init__(exc)
        self.exc, self.msg = exc, msg


class PyReturn(Exception):
    def __init__(self, v):
        self.v = v


class PyContinue(Exception):
    pass


class PyBreak(Exception):
    pass


class Infeasible(Exception):
    pass


class Poison:
    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------------------------------- heap values
class HDict(dict):
    """dict with an age, so that loops can tell their own temporaries from outer state"""

    def __init__(self, *a):
        super().__init__(*a)
        self.id = uid()


class PyList:
    """list: parts are ('one', v) or ('seg', vars, dom, parts) or ('pre', id) or ('if', cond, parts)"""

    def __init__(self, parts=()):
        self.parts = tuple(parts)
        self.id = uid()

    @staticmethod
    def of(vs):
        return PyList([('one', v) for v in vs])

    def concrete(self):
        if any(p[0] != 'one' for p in self.parts):
            raise Unsupported('symbolic list where a concrete one is needed')
        return [p[1] for p in self.parts]


class PyDict:
    def __init__(self, items=None):
        self.items = HDict(items or {})   # concrete keys
        self.id = uid()
        self.updates = ()                # symbolic updates (vars, dom, key, value)


class PySet:
    def __init__(self, items=()):
        self.items = list(items)


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = HDict()
        self.id = uid()


class Func:
    def __init__(self, node, module, env=None, cls=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = getattr(node, 'name', '<lambda>')

    @property
    def qual(self):
        return f"{self.module.name}.{self.cls.name + '.' if self.cls else ''}{self.name}"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class SuperObj:
    """super(): methods of the base classes bound to the object"""

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def sym_attr(self, I, a):
        from . import calls
        for b in self.cls.bases:
            try:
                c = I.global_(self.cls.module, b)
            except KeyError:
                continue
            if isinstance(c, Cls):
                m = calls.find_member(I, c, a)
                if m is not None:
                    return Bound(m, self.obj)
        if a == '__init__' and set(self.cls.bases) <= {'Exception', 'ValueError', 'RuntimeError', 'object', 'ABC'}:
            return lambda I, *args, **kwargs: None
        raise Unsupported(f'super().{a}')


class Cls:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.members = {}
        self.bases = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?' for b in node.bases]
        self.enum = None
        self.loaded = False


class EnumVal(int):
    pass


class EnumStr(str):
    """member of a (str, Enum) class: behaves as its value"""


class Ext:
    """external object (module, function or opaque value) known by its dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<ext {self.name}>'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class EnumMem(Ext):
    """member of a plain Enum"""

    def __init__(self, qual, name, value):
        self.name, self.member, self.value = qual, name, value

    def sym_attr(self, I, a):
        if a == 'value':
            return self.value
        if a == 'name':
            return self.member
        raise Unsupported(f'enum member {a}')


class SymIter:
    """iteration over a symbolic domain: variables, domain, element value; before: order of iterations"""

    def __init__(self, vars, dom, elem, before, pos=None):
        self.vars, self.dom, self.elem, self.before, self.pos = tuple(vars), dom, elem, before, pos
        if len(self.vars) == 1 and pos is self.vars[0]:
            ASC.add(pos)


# variables that increase along the sequence they range over
ASC = set()


def axis_vars(ax, name):
    vs = ax.vars(name)
    if isinstance(ax, (RangeAx, DomAx)):
        ASC.add(vs[0])
    return vs


def seq(v, n, elem):
    """the list elem(0), ..., elem(n-1)"""
    ASC.add(v)
    return PyList([('seg', (v,), and_(le(ZERO, v), lt(v, n)), (('one', elem),))])


class SymDict:
    """dict from the integers 0..n-1 (in unspecified order) to labels; the index_to_label maps"""

    def __init__(self, n, value, name='labels'):
        self.n, self.value, self.name = n, value, name


class Opaque:
    """value nothing is known about"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f'<opaque {self.why}>'


class ExcVal:
    """a caught exception whose message is a symbolic text"""

    def __init__(self, name, msg):
        self.name, self.msg = name, msg

    def map_terms(self, f):
        return ExcVal(self.name, f(self.msg))

    def sym_str(self, I):
        return self.msg

    def sym_is(self, I, b):
        return FALSE

    def sym_truth(self, I):
        return True


class IxSel:
    def __init__(self, parts):
        self.parts = parts


class FStr(Opaque):
    """formatted string: literal parts and (value, format) pairs"""

    def __init__(self, parts):
        Opaque.__init__(self, 'f-string')
        self.parts = tuple(parts)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.env = {}
        for st in self.tree.body:
            self._scan(st)

    def origin(self, st):
        """the absolute name of the module a from-import reads"""
        if not st.level:
            return st.module
        parts = self.name.split('.')
        if self.path.endswith('__init__.py'):
            parts = parts + ['']
        return '.'.join([*parts[:len(parts) - st.level], *([st.module] if st.module else [])])

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = st
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.defs[st.target.id] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.defs[a.asname or a.name] = ('from', self.origin(st), a.name)
        elif isinstance(st, (ast.If, ast.Try)):
            for x in st.body:
                self._scan(x)


def digest(sources):
    """of the code a contract depends on: function bodies and module constants, comments and docstrings apart"""
    import hashlib
    h = hashlib.sha256()
    for k in sorted(sources):
        n = sources[k]
        if isinstance(n, ast.Module):
            parts = [ast.dump(x) for x in n.body if isinstance(x, (ast.Assign, ast.AnnAssign))]
        else:
            body = [x for x in n.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str))] if isinstance(n.body, list) else [n.body]
            parts = [ast.dump(n.args)] + [ast.dump(x) for x in body]
        h.update((k + '\n' + '\n'.join(parts)).encode())
    return h.hexdigest()[:20]


class Scope:
    """exploration of one body: decisions taken so far"""

    def __init__(self, decisions):
        self.decisions, self.i = list(decisions), 0
        self.alternatives = []


MISSING = object()


RAW = {}     # axiom id -> (variables, matrix) before normalisation


def axioms_for(axioms, terms):
    """the axioms that define a function symbol occurring in the terms, transitively"""
    axioms = list(axioms)
    seen, out, todo = set(), [], list(terms)
    while todo and axioms:
        new = set()
        for t in todo:
            for x in subterms(t):
                if x.op == 'app':
                    new.add(x.args[0])
        new -= seen
        seen |= new
        todo = [f for f, s in axioms if s & new]
        axioms = [(f, s) for f, s in axioms if not s & new]
        out += todo
    return out


def empty_count(t):
    """a count is zero iff nothing is counted"""
    if t.op in ('=', '<', '<='):
        a, b = t.args
        if t.op == '=' and is_c(b):
            a, b = b, a
        if b.op == '*' and len(b.args) == 2 and is_c(b.args[0]) and b.args[0].args[0] > 0:
            b = b.args[1]
        if is_c(a) and b.op == 'count' and a.args[0] == 0 and t.op in '=<':
            vs, body = t_.open_(b)
            e = exists(list(vs), body)
            return e if t.op == '<' else not_(e)
    return None


class Interp:
    def __init__(self, src_root, externals=None, contracts=None, feas_timeout=2.0):
        self.root = src_root
        self.mods = {}
        self.pc = []              # path condition / hypotheses in force
        self.axioms = {}          # id -> T
        self.obls = []            # (kind, hyps, goal, where)
        self.log = []             # heap undo log
        self.scopes = []
        self.feas = {}
        self.externals = externals or {}
        self.contracts = contracts or {}
        self.notes = set()
        self.assumptions = set()
        self.called = {}
        self.inlined = set()
        self.sources = {}         # function -> AST, module -> AST
        self.feas_timeout = feas_timeout
        self.active_pre = set()
        self.choice_defs = {}     # name -> (tag, axis, variables, body, parameters)
        self.preds = {}
        self.hints = []           # characterisations of selected rows offered by the contract
        self.depth = 0
        self.cur_line = None
        self.cur_fn = None
        self.warned = []
        self.solver_time = 0.0

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.root, *name.split('.'))
        path = base + '.py' if os.path.exists(base + '.py') else os.path.join(base, '__init__.py')
        if not os.path.exists(path):
            raise Unsupported(f'no module {name}')
        m = self.mods[name] = Module(name, path)
        return m

    def global_(self, m, name):
        if name in m.env:
            return m.env[name]
        if name not in m.defs:
            raise KeyError(name)
        d = m.defs[name]
        if isinstance(d, tuple):
            v = self.import_(m, d)
        elif isinstance(d, ast.FunctionDef):
            from . import calls
            v = calls.decorated(self, Func(d, m))
        elif isinstance(d, ast.ClassDef):
            v = self.load_class(d, m)
        else:
            v = self.eval(d.value, Env(m))
        m.env[name] = v
        return v

    def import_(self, m, d):
        if d[0] == 'import':
            if d[1].startswith('valor_lite'):
                return self.module(d[1])
            return Ext(d[1])
        _, mod, name = d
        if mod and mod.startswith('valor_lite'):
            try:
                mm = self.module(mod)
                if name in mm.defs:
                    return self.global_(mm, name)
            except Unsupported:
                pass
            try:
                return self.module(mod + '.' + name)
            except Unsupported:
                raise Unsupported(f'import {name} from {mod}')
        return Ext(f'{mod}.{name}')

    def load_class(self, node, m):
        c = Cls(node, m)
        m.env[node.name] = c
        if any(b in ('IntFlag', 'Enum', 'IntEnum', 'Flag') for b in c.bases) or 'Enum' in ''.join(c.bases):
            c.enum = {}
            nxt = 1
            for st in node.body:
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                    if isinstance(st.value, ast.Call) and getattr(st.value.func, 'id', '') == 'auto':
                        v = nxt
                    else:
                        v = self.eval(st.value, Env(m))
                    if 'IntFlag' in c.bases and isinstance(v, int):
                        nxt = v * 2
                        c.enum[st.targets[0].id] = v
                    elif 'str' in c.bases and isinstance(v, str):
                        e = c.enum[st.targets[0].id] = EnumStr(v)
                        e.member = st.targets[0].id
                    else:
                        c.enum[st.targets[0].id] = EnumMem(f'{c.name}.{st.targets[0].id}', st.targets[0].id, v)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                c.members[st.name] = Func(st, m, cls=c)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.members.setdefault('__fields__', []).append((st.target.id, st.value))
        return c

    # ------------------------------------------------------------------ logic state
    def axiom(self, f, syms, also=()):
        """fact about the function symbols syms, which it defines"""
        if f is not TRUE:
            vs = [v for v in f.fv if not t_.is_size(v)]
            raw = f
            f = forall(vs, f)
            self.axioms[f.id] = (f, frozenset(syms))
            RAW[f.id] = [(vs, raw)] + [([v for v in g.fv if not t_.is_size(v)], g) for g in also]

    def hyps(self, goal=TRUE):
        return axioms_for(self.axioms.values(), list(self.pc) + [goal]) + list(self.pc)

    def known(self, c):
        flat = set()
        for h in self.pc:
            for x in (h.args if h.op == 'and' else (h,)):
                flat.add(x.id)
        cs = c.args if c.op == 'and' else (c,)
        if all(x.id in flat for x in cs):
            return True
        n = not_(c)
        ns = n.args if n.op == 'and' else (n,)
        if all(x.id in flat for x in ns):
            return False
        if c.op == 'or' and any(x.id in flat for x in c.args):
            return True
        return None

    def entails(self, c, timeout=None):
        """quick proof attempt from the path condition"""
        if is_c(c):
            return c is TRUE
        k = self.known(c)
        if k is not None:
            return k
        key = (tuple(sorted(h.id for h in self.pc)), len(self.axioms), c.id)
        if key not in self.feas:
            try:
                r = solve.prove(self.hyps(c), c, timeout or self.feas_timeout, rounds=1, use_cvc5=False)
                self.feas[key] = r.status == 'discharged'
                self.solver_time += r.time_s
            except Exception as e:   # noqa
                self.feas[key] = False
        return self.feas[key]

    def hinted(self, v, body):
        """intermediate assertion: a selection proved equal to a characterisation given by the contract is replaced by it"""
        if not self.hints:
            return body
        parts = list(body.args) if body.op == 'and' else [body]
        big = [x for x in parts if sum(1 for _ in subterms(x)) > 40]
        if not big:
            return body
        small = [x for x in parts if x not in big]
        npc = len(self.pc)
        self.pc += small
        try:
            for h in self.hints:
                cand = h(v)
                if self.entails(eq(and_(*big), cand), timeout=10):
                    return t_.simp(and_(*small, cand))
        finally:
            del self.pc[npc:]
        return body

    def axes_equal(self, a, b):
        if a.same(b):
            return True
        if isinstance(a, RangeAx) and isinstance(b, RangeAx):
            return self.entails(eq(a.n, b.n))
        if type(a) is type(b) and isinstance(a, (DomAx, KeyAx)) and a.sorts == b.sorts:
            v = a.vars()
            return self.entails(forall(v, eq(a.dom(v), b.dom(v))))
        return False

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = t_.rewrite(c, empty_count)
        if is_c(c):
            return bool(c.args[0])
        k = self.known(c)
        if k is not None:
            return k
        sc = self.scopes[-1]
        if sc.i < len(sc.decisions):
            d = sc.decisions[sc.i]
            sc.i += 1
            if d[0] != c.id:
                raise Unsupported('non-deterministic re-execution')
            v = d[1]
        else:
            if self.entails(c):
                v, alt = True, False
            elif self.entails(not_(c)):
                v, alt = False, False
            else:
                v, alt = True, True
            if alt:
                sc.alternatives.append(sc.decisions[:] + [(c.id, False)])
            sc.decisions.append((c.id, v))
            sc.i += 1
        self.pc.append(c if v else not_(c))
        return v

    def obl(self, kind, goal, note=''):
        if goal is TRUE:
            return
        if self.known(goal) is True:
            return
        self.obls.append((kind, self.hyps_light(), goal, f'{self.cur_fn}:{self.cur_line} {note}'))

    def hyps_light(self):
        return list(self.pc)

    # ------------------------------------------------------------------ heap
    def heap_set(self, obj, attr, value):
        if getattr(obj, 'copy_of', None):
            raise Unsupported('change of an element of a symbolic sequence')
        if isinstance(obj, dict):
            self.log.append((obj, attr, obj.get(attr, MISSING)))
            obj[attr] = value
        else:
            self.log.append((obj, attr, getattr(obj, attr)))
            setattr(obj, attr, value)

    def undo(self, mark, born=None):
        """restore the heap, except objects created since born"""
        while len(self.log) > mark:
            obj, attr, old = self.log.pop()
            if born is not None and getattr(obj, 'id', 0) > born:
                continue
            if isinstance(obj, dict):
                if old is MISSING:
                    obj.pop(attr, None)
                else:
                    obj[attr] = old
            else:
                setattr(obj, attr, old)

    def explore(self, run):
        """run() on every feasible path; returns [(path condition, outcome, touched heap)]"""
        out = []
        work = [[]]
        while work:
            dec = work.pop()
            sc = Scope(dec)
            self.scopes.append(sc)
            mark, npc = len(self.log), len(self.pc)
            born = uid()
            try:
                try:
                    res = ('ok', run())
                except PyContinue:
                    res = ('ok', None)
                except PyBreak:
                    res = ('break', None)
                except PyReturn as r:
                    res = ('return', r.v)
                except PyRaise as e:
                    res = ('raise', e)
                except Infeasible:
                    res = None
            finally:
                self.scopes.pop()
            if res is not None:
                touched = {}
                for obj, attr, old in self.log[mark:]:
                    if getattr(obj, 'id', 0) > born:
                        continue         # created on this path
                    cur = obj.get(attr, MISSING) if isinstance(obj, dict) else getattr(obj, attr)
                    touched[(id(obj), attr)] = (obj, attr, cur)
                out.append((and_(*self.pc[npc:]), res, touched))
            self.undo(mark, born)
            del self.pc[npc:]
            work += sc.alternatives
            if len(out) > 300:
                raise Unsupported('too many paths')
        return out

    # ------------------------------------------------------------------ choice functions
    def choice(self, tag, ax, P, extra=()):
        """element of the axis, chosen by tag ('first'/'last'/'any') among those satisfying P(rep)"""
        vs = ax.vars('c')
        body = and_(ax.dom(vs), P(vs))
        ws = ax.vars('w')
        bef = ax.before(vs, ws) if tag != 'any' else FALSE
        fvs = sorted((body.fv | bef.fv) - set(vs) - set(ws), key=lambda v: v.id)
        for x in subterms(body):
            if x.op == 'app' and x.args[0] in self.active_pre:
                raise Unsupported('choice over loop-carried state')
        canon = [var(f'@{i}', v.sort) for i, v in enumerate(fvs)]
        cb = subst(body, dict(zip(fvs, canon)))
        name = (tag, t_._close('axis', list(vs) + list(ws), (cb, subst(bef, dict(zip(fvs, canon)))), 'I').id)
        rep = tuple(app(name + (i,), fvs, s) for i, s in enumerate(ax.sorts))
        w = ax.vars('w')
        bw = subst(body, dict(zip(vs, w)))
        ex = exists(vs, body)
        br = subst(body, dict(zip(vs, rep)))
        if name not in self.choice_defs:
            self.choice_defs[name] = (tag, ax, list(vs), cb, canon)
        syms = [name + (i,) for i in range(len(rep))]
        self.axiom(or_(not_(bw), br), syms, also=[or_(not_(ex), br)])
        if tag == 'first':
            self.axiom(or_(not_(bw), not_(ax.before(w, rep))), syms)
        elif tag == 'last':
            self.axiom(or_(not_(bw), not_(ax.before(rep, w))), syms)
        return rep

    def pred_of(self, ax, r):
        """predecessor of element r in the axis (the last element before it)"""
        if isinstance(ax, RangeAx):
            return (sub(r[0], ONE),)
        rep = self.choice('last', ax, lambda v: ax.before(v, r))
        for i, x in enumerate(rep):
            fvs = x.args[1:]
            canon = self.choice_defs[x.args[0][:-1]][4]
            self.preds[x.args[0]] = (ax.key, [subst(y, dict(zip(fvs, canon))) for y in r], canon)
        return rep

    def pred_base(self, ax, r):
        """q such that r is the predecessor of q in the axis, if r is known to be one"""
        x = r[0]
        if x.op != 'app' or x.args[0] not in self.preds:
            return None
        key, q, canon = self.preds[x.args[0]]
        if key != ax.key and ax.key != self.choice_defs[x.args[0][:-1]][1].key:
            return None
        q = tuple(subst(y, dict(zip(canon, x.args[1:]))) for y in q)
        return q if self.pred_of(ax, q)[0] is x else None

    def eq_choice(self, a, s):
        """s = a, where a denotes the first/last element of a totally ordered set: s is in it and nothing precedes/follows it"""
        if a.op == 'app' and isinstance(a.args[0], tuple) and a.args[0][:-1] in self.choice_defs:
            tag, ax, vs, cb, canon = self.choice_defs[a.args[0][:-1]]
            if tag in ('first', 'last') and len(vs) == 1 and total(ax) and not any(v.args[0].startswith('@') for x in a.args[1:] for v in x.fv):
                m = dict(zip(canon, a.args[1:]))
                body = lambda x: subst(cb, {**m, vs[0]: x})
                w = fresh('I', 'w')
                return and_(body(s), not_(exists([w], and_(body(w), lt(w, s) if tag == 'first' else lt(s, w)))))
        return eq(a, s)

    # ------------------------------------------------------------------ running a function
    def call_func(self, f, args, kwargs):
        from . import calls
        return calls.call_func(self, f, args, kwargs)

    def run_body(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    # ------------------------------------------------------------------ statements
    def stmt(self, st, env):
        self.cur_line = getattr(st, 'lineno', None)
        k = type(st).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported(f'statement {k}')
        return m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def e_Yield(self, e, env):
        l = env.get('__yield__')
        v = None if e.value is None else self.eval(e.value, env)
        self.heap_set(l, 'parts', l.parts + (('one', v),))
        return None

    def e_YieldFrom(self, e, env):
        l = env.get('__yield__')
        for kind, v in self.iterate(self.eval(e.value, env)):
            if kind == 'one':
                self.heap_set(l, 'parts', l.parts + (('one', v),))
            else:
                self.heap_set(l, 'parts', l.parts + (('seg', v.vars, v.dom, (('one', v.elem),)),))
        return None

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            env[a.asname or a.name.split('.')[0]] = self.import_(env.module, ('import', a.name))

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env[a.asname or a.name] = self.import_(env.module, ('from', env.module.origin(st), a.name))

    def s_FunctionDef(self, st, env):
        env[st.name] = Func(st, env.module, env)

    def s_Return(self, st, env):
        raise PyReturn(self.eval(st.value, env) if st.value else None)

    def s_Continue(self, st, env):
        raise PyContinue()

    def s_Break(self, st, env):
        raise PyBreak()

    def s_Raise(self, st, env):
        e = self.eval(st.exc, env) if st.exc is not None else Opaque('re-raise')
        name = getattr(e, 'name', None) or (e.cls.name if isinstance(e, Inst) else None) or (e.name if isinstance(e, (Cls, Ext)) else 'Exception')
        raise PyRaise(name, e)

    def s_Assert(self, st, env):
        if not self.decide(self.truth(self.eval(st.test, env))):
            raise PyRaise('AssertionError')

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env[t.id] = Poison('deleted')
            else:
                raise Unsupported('del')

    def s_Global(self, st, env):
        raise Unsupported('global')

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                if isinstance(x, ast.Starred):
                    raise Unsupported('starred target')
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.index(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, env), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def setattr_(self, o, attr, v):
        if isinstance(o, Inst):
            self.heap_set(o.attrs, attr, v)
        elif hasattr(o, 'sym_setattr'):
            o.sym_setattr(self, attr, v)
        else:
            raise Unsupported(f'set attribute {attr} of {o!r}')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            vs = list(v)
        elif isinstance(v, PyList):
            vs = v.concrete()
        elif isinstance(v, Arr) and v.axes[0].const_n == n:
            vs = [self.getitem(v, i) for i in range(n)]
        else:
            raise Unsupported(f'unpacking {type(v).__name__}')
        if len(vs) != n:
            raise PyRaise('ValueError')
        return vs

    def s_AugAssign(self, st, env):
        rhs = self.eval(st.value, env)
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            if isinstance(cur, Arr):
                res = self.binop(op, cur, rhs)
                self.write_all(cur, res)
            elif isinstance(cur, PyList) and op == 'Add':
                self.heap_set(cur, 'parts', cur.parts + self.iter_parts(rhs))
            else:
                env[t.id] = self.binop(op, cur, rhs)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.index(t.slice, env)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.binop(op, cur, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            if isinstance(cur, Arr):
                self.write_all(cur, self.binop(op, cur, rhs))
            else:
                self.setattr_(o, t.attr, self.binop(op, cur, rhs))
        else:
            raise Unsupported('augmented target')

    def s_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        self.run_body(st.body if self.decide(c) else st.orelse, env)

    def s_With(self, st, env):
        mgrs = []
        for it in st.items:
            m = self.eval(it.context_expr, env)
            mgrs.append(m)
            v = self.enter(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.run_body(st.body, env)
        for m in reversed(mgrs):
            self.exit(m)

    def enter(self, m):
        if isinstance(m, Inst) and '__enter__' in m.cls.members:
            return self.call_func(Bound(m.cls.members['__enter__'], m), [], {})
        if hasattr(m, 'sym_enter'):
            return m.sym_enter(self)
        raise Unsupported(f'with {m!r}')

    def exit(self, m):
        if isinstance(m, Inst):
            self.call_func(Bound(m.cls.members['__exit__'], m), [None, None, None], {})
        elif hasattr(m, 'sym_exit'):
            m.sym_exit(self)

    def s_Try(self, st, env):
        if st.finalbody:
            raise Unsupported('try/finally')
        try:
            self.run_body(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                if self.exc_matches(h, e, env):
                    if h.name:
                        env[h.name] = e.msg
                    self.run_body(h.body, env)
                    return
            raise
        else:
            self.run_body(st.orelse, env)

    EXC_PARENTS = {'InvalidLLMResponseError': ('Exception',), 'JSONDecodeError': ('ValueError',), 'ValueError': ('Exception',),
                   'TypeError': ('Exception',), 'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception')}

    def exc_matches(self, h, e, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [x.attr if isinstance(x, ast.Attribute) else x.id for x in ts]
        todo, seen = [e.exc], set()
        while todo:
            n = todo.pop()
            if n in names:
                return True
            if n in seen:
                continue
            seen.add(n)
            todo += list(self.EXC_PARENTS.get(n, ('Exception',)))
        return False

    # ------------------------------------------------------------------ loops
    def s_While(self, st, env):
        for f in getattr(self, 'while_invariants', ()):
            inv = f(self, st, env)
            if inv is not None:
                from . import loops
                return loops.while_by_invariant(self, st, env, inv)
        for _ in range(400):
            c = self.truth(self.eval(st.test, env))
            if isinstance(c, T) and not is_c(c):
                raise Unsupported('while loop on a symbolic condition')
            if not (c if isinstance(c, bool) else c is TRUE):
                self.run_body(st.orelse, env)
                return
            try:
                self.run_body(st.body, env)
            except PyContinue:
                continue
            except PyBreak:
                return
        raise Unsupported('while loop did not end')

    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        if isinstance(it, range) and len(it) > 16 and abs(it.step) == 1:
            from . import loops
            k = fresh('I', 'k')
            lo, hi = min(it[0], it[-1]), max(it[0], it[-1])
            si = SymIter((k,), and_(le(const(lo), k), le(k, const(hi))), k, (lambda a, b: lt(a[0], b[0])) if it.step > 0 else (lambda a, b: lt(b[0], a[0])))
            si.nonempty = True
            mark, npc, nob, saved = len(self.log), len(self.pc), len(self.obls), dict(env.d)
            try:
                if loops.sym_for(self, si, st, env) != 'break':
                    self.run_body(st.orelse, env)
                return
            except Unsupported:
                if len(it) > 64:
                    raise
                self.undo(mark)
                del self.pc[npc:]
                del self.obls[nob:]
                env.d.clear()
                env.d.update(saved)
        for kind, x in self.iterate(it):
            if kind == 'one':
                self.assign(st.target, x, env)
                try:
                    self.run_body(st.body, env)
                except PyContinue:
                    pass
                except PyBreak:
                    return
            elif kind == 'sym':
                from . import loops
                if loops.sym_for(self, x, st, env) == 'break':
                    return
            else:
                raise Unsupported('iteration')
        self.run_body(st.orelse, env)

    def iterate(self, it):
        """sequence of ('one', value) and ('sym', SymIter)"""
        if isinstance(it, (tuple, list)):
            return [('one', x) for x in it]
        if isinstance(it, range):
            return [('one', x) for x in it]
        if isinstance(it, str):
            return [('one', x) for x in it]
        if isinstance(it, SymIter):
            return [('sym', it)]
        if isinstance(it, PyList):
            out = []
            for p in it.parts:
                if p[0] == 'one':
                    out.append(p)
                elif p[0] == 'seg' and len(p[3]) == 1 and p[3][0][0] == 'one':
                    out.append(('sym', self.seg_iter(p[1], p[2], p[3][0][1])))
                else:
                    raise Unsupported('iterating a nested symbolic list')
            return out
        if isinstance(it, PyDict):
            if it.updates:
                raise Unsupported('iterating a symbolic dict')
            return [('one', k) for k in it.items]
        if isinstance(it, PySet):
            return [('one', k) for k in it.items]
        if isinstance(it, SymDict):
            k = fresh('I', 'k')
            return [('sym', SymIter((k,), and_(le(ZERO, k), lt(k, it.n)), k, lambda a, b: app(('dictorder', it.name), (a[0], b[0]), 'B')))]
        if isinstance(it, Arr):
            ax = it.axes[0]
            if ax.const_n is not None and ax.const_n <= 128:
                return [('one', self.getitem(it, i)) for i in range(ax.const_n)]
            vs = axis_vars(ax, 'k')
            return [('sym', SymIter(vs, ax.dom(vs), self.row(it, vs), ax.before, pos=pos_term(ax, vs)))]
        if hasattr(it, 'sym_iter'):
            return it.sym_iter(self)
        if it is None or isinstance(it, (int, float, T)):
            raise PyRaise('TypeError')
        raise Unsupported(f'iteration over {type(it).__name__}')

    def seg_iter(self, vs, dom, elem):
        """iteration over a list segment"""
        if len(vs) == 1 and vs[0] in ASC:
            from .ops import seg_axis
            ax, sm = seg_axis(vs, dom)
            return SymIter(vs, dom, elem, lambda a, b: lt(a[0], b[0]), pos=pos_term(ax, vs))
        key = ('listorder', t_._close('axis', list(vs), (dom,), 'I').id)
        return SymIter(vs, dom, elem, lambda a, b: app(key, tuple(a) + tuple(b), 'B'))

    def row(self, a, rep):
        """a[rep] along the first axis (a view)"""
        if a.ndim == 1:
            return a.at([rep])
        smap = []
        for m in a.smap:
            if m[0] == 'a' and m[1] == 0:
                smap.append(('c', rep))
            elif m[0] == 's' and m[1] == 0:
                smap.append(('c', (add(rep[0], m[2]),)))
            elif m[0] in ('a', 's'):
                smap.append((m[0], m[1] - 1) + tuple(m[2:]))
            elif m[0] == 'c':
                smap.append(m)
            else:
                raise Unsupported('row of a product view')
        return Arr(a.store, a.axes[1:], smap)

    def iter_parts(self, v):
        if isinstance(v, PyList):
            return v.parts
        out = []
        for kind, x in self.iterate(v):
            if kind == 'one':
                out.append(('one', x))
            else:
                out.append(('seg', x.vars, x.dom, (('one', x.elem),)))
        return tuple(out)

    # ------------------------------------------------------------------ expressions
    def lookup(self, name, env):
        v = env.get(name)
        if v is MISSING:
            try:
                return self.global_(env.module, name)
            except KeyError:
                pass
            from . import calls
            if name in calls.BUILTINS or name in calls.EXC:
                return Ext(name)
            raise Unsupported(f'name {name}')
        if isinstance(v, Poison):
            raise Unsupported(f'{name} is not defined here ({v.why})')
        return v

    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, float):
            return e.value
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_seq(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def concrete_seq(self, v):
        if isinstance(v, (tuple, list, range)):
            return list(v)
        if isinstance(v, PyList):
            return v.concrete()
        if isinstance(v, (PyDict, PySet)) or isinstance(v, Arr):
            r = self.iterate(v)
            if all(k == 'one' for k, _ in r):
                return [x for _, x in r]
        raise Unsupported(f'sequence {type(v).__name__}')

    def e_List(self, e, env):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts += list(self.iter_parts(self.eval(x.value, env)))
            else:
                parts.append(('one', self.eval(x, env)))
        return PyList(parts)

    def e_Set(self, e, env):
        return PySet([self.eval(x, env) for x in e.elts])

    def e_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, PyDict) or o.updates:
                    raise Unsupported('dict unpacking')
                d.items.update(o.items)
            else:
                kk = self.eval(k, env)
                if isinstance(kk, T):
                    raise Unsupported('symbolic key in a dict display')
                d.items[kk] = self.eval(v, env)
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value, env)
                except (Unsupported, PyRaise):
                    return Opaque('f-string')
                spec = self.eval(v.format_spec, env) if v.format_spec is not None else ''
                if isinstance(x, (str, int)) and spec == '' and v.conversion == -1:
                    parts.append(str(x))
                elif isinstance(spec, str) and v.conversion == -1 and ((isinstance(x, T) and x.sort == 'I') or isinstance(x, int) or hasattr(x, 'sym_format')):
                    parts.append((x, spec))
                else:
                    return Opaque('f-string')
        if any(isinstance(p, tuple) for p in parts):
            out = []
            for p in parts:
                if isinstance(p, str) and out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            return FStr(out)
        return ''.join(parts)

    def e_Lambda(self, e, env):
        return Func(e, env.module, env)

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if isinstance(c, bool) or is_c(c) or self.known(c) is not None:
            return self.eval(e.body if self.decide(c) else e.orelse, env)
        # value-level conditional when both sides are pure scalars
        mark, npc, nob = len(self.log), len(self.pc), len(self.obls)
        try:
            self.pc.append(c)
            a = self.eval(e.body, env)
            del self.pc[npc:]
            self.pc.append(not_(c))
            b = self.eval(e.orelse, env)
            del self.pc[npc:]
            if len(self.log) == mark and self.is_scalar(a) and self.is_scalar(b) and not isinstance(a, str) and not isinstance(b, str):
                return ite(c, term(a), term(b))
        except (PyRaise, TypeError):
            pass
        del self.pc[npc:]
        del self.obls[nob:]
        self.undo(mark)
        return self.eval(e.body if self.decide(c) else e.orelse, env)

    def is_scalar(self, v):
        return isinstance(v, (T, int, float, bool, Fraction)) and not isinstance(v, EnumVal)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        n0 = len(self.pc)
        guards = []         # (position in pc, condition) of the short-circuit guards

        def leave():
            """facts learnt while a guard was in force hold under that guard only"""
            if guards:
                tail = self.pc[n0:]
                del self.pc[n0:]
                g = []
                pos = {i for i, _ in guards}
                for i, x in enumerate(tail, n0):
                    if i in pos:
                        g.append(not_(x))
                    else:
                        y = or_(*g, x) if g else x
                        if y is not TRUE:
                            self.pc.append(y)
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            v = self.eval(x, env)
            c = self.truth(v)
            if isinstance(c, T) and is_c(c):
                c = c is TRUE
            if isinstance(c, bool):
                if c != isand:          # decides the whole expression
                    leave()
                    return v if acc is None else self._bool_end(acc, c, isand)
                if last:
                    leave()
                    return v if acc is None else acc
                continue
            if last and acc is None:
                return v
            acc = c if acc is None else (and_(acc, c) if isand else or_(acc, c))
            if not last:
                # short circuit: later operands are only evaluated under the earlier ones
                guards.append((len(self.pc), c))
                self.pc.append(c if isand else not_(c))
        leave()
        return acc

    def _bool_end(self, acc, c, isand):
        return FALSE if isand else TRUE

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        k = type(e.op).__name__
        if k == 'Not':
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else not_(c)
        if k == 'USub':
            if isinstance(v, Arr):
                if v.dtype in ('u8', 'u1', 'b'):
                    raise Unsupported('negation of unsigned')
                return elementwise(t_.neg, [v], self, v.dtype)
            return t_.neg(v) if isinstance(v, T) else -v
        if k == 'Invert':
            if isinstance(v, Arr):
                if v.dtype != 'b':
                    raise Unsupported('~ of a non-boolean array')
                return elementwise(not_, [v], self, 'b')
            if isinstance(v, T) and v.sort == 'B':
                return not_(v)
            if hasattr(v, 'sym_invert'):
                return v.sym_invert(self)
            if isinstance(v, int):
                return ~v
        if k == 'UAdd':
            return v
        raise Unsupported(f'unary {k}')

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(type(op).__name__, left, right)
            acc = c if acc is None else self.and2(acc, c)
            left = right
        return acc

    def and2(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return and_(a, b)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.index(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*[self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def index(self, s, env):
        return self.eval(s, env)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and not e.keywords:
            c, o = env.get('__class__'), env.get('self')
            if not isinstance(c, Cls) or not isinstance(o, Inst):
                raise Unsupported('super')
            return SuperObj(c, o)
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_seq(self.eval(a.value, env))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comprehension(a, env, a.elt))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PyDict) or d.updates:
                    raise Unsupported('**kwargs')
                kwargs.update(d.items)
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        line = self.cur_line
        r = self.call(f, args, kwargs)
        self.cur_line = line
        return r

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env[e.target.id] = v
        return v

    def e_ListComp(self, e, env):
        return self.comprehension(e, env, e.elt)

    def e_GeneratorExp(self, e, env):
        return self.comprehension(e, env, e.elt)

    def e_SetComp(self, e, env):
        r = self.comprehension(e, env, e.elt)
        if any(p[0] != 'one' for p in r.parts):
            r.is_set = True
            return r
        return PySet(r.concrete())

    def e_DictComp(self, e, env):
        r = self.comprehension(e, env, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
        d = PyDict()
        for p in r.parts:
            if p[0] == 'one':
                k, v = p[1]
                if isinstance(k, T):
                    raise Unsupported('symbolic dict key')
                d.items[k] = v
            elif p[0] == 'seg' and len(p[3]) == 1 and p[3][0][0] == 'one':
                d.updates += ((p[1], p[2], p[3][0][1][0], p[3][0][1][1]),)
            else:
                raise Unsupported('dict comprehension')
        return d

    def comprehension(self, e, env, elt):
        gens = e.generators

        def go(i, env2):
            if i == len(gens):
                return (('one', self.eval(elt, env2)),)
            g = gens[i]
            parts = []
            for kind, x in self.iterate(self.eval(g.iter, env2)):
                env3 = Env(env2.module, env2)
                if kind == 'one':
                    self.assign(g.target, x, env3)
                    ok = True
                    for c in g.ifs:
                        cv = self.truth(self.eval(c, env3))
                        if not self.decide(cv):
                            ok = False
                            break
                    if ok:
                        parts += go(i + 1, env3)
                else:
                    def run(x=x, env3=env3):
                        self.assign(g.target, x.elem, env3)
                        conds = []
                        for c in g.ifs:
                            cv = self.truth(self.eval(c, env3))
                            cv = const(cv) if isinstance(cv, bool) else cv
                            conds.append(cv)
                            self.pc.append(cv)
                        sub_ = go(i + 1, env3)
                        return conds, sub_
                    npc = len(self.pc)
                    self.pc.append(x.dom)
                    outs = self.explore(run)
                    del self.pc[npc:]
                    for pcond, res, touched in outs:
                        if res[0] != 'ok' or touched:
                            raise Unsupported('side effects in a comprehension' if res[0] == 'ok' else f'{res[0]} {getattr(res[1], "exc", "")} in a comprehension')
                        conds, sub_ = res[1]
                        parts.append(('seg', x.vars, and_(x.dom, *conds, pcond if len(outs) > 1 else TRUE), tuple(sub_)))
            return tuple(parts)
        return PyList(go(0, env))

    # ------------------------------------------------------------------ operations (see ops.py)
    def truth(self, v):
        from . import ops
        return ops.truth(self, v)

    def binop(self, op, a, b):
        from . import ops
        return ops.binop(self, op, a, b)

    def compare(self, op, a, b):
        from . import ops
        return ops.compare(self, op, a, b)

    def getattr(self, o, attr):
        from . import calls
        return calls.getattr_(self, o, attr)

    def call(self, f, args, kwargs):
        from . import calls
        return calls.call(self, f, args, kwargs)

    def getitem(self, o, ix):
        from . import ops
        return ops.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        from . import ops
        return ops.setitem(self, o, ix, v)

    def write_all(self, a, v):
        from . import ops
        return ops.setitem(self, a, tuple(slice(None) for _ in range(a.ndim)), v)


def total(ax):
    return isinstance(ax, (RangeAx, DomAx)) or isinstance(ax, FiltAx) and total(ax.base)


class Env:
    def __init__(self, module, parent=None):
        self.module, self.parent, self.d = module, parent, {}

    def get(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.parent
        return MISSING

    def __setitem__(self, k, v):
        self.d[k] = v
