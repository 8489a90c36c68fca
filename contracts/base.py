"""Contract framework: a contract builds symbolic inputs satisfying its precondition, runs the body of the real
function taken from the current source, and states postconditions; every obligation is discharged by the solver."""
from vc import term as t_
from vc.term import *
from vc.arr import *
from vc import arr as A
from vc.interp import *
from vc import calls, ops, solve
from vc.calls import call_func

CONTRACTS = {}


class Contract:
    def __init__(self, fn, target, props, uses, externals, timeout, opts):
        self.fn, self.target, self.props, self.uses, self.externals, self.timeout, self.opts = fn, target, props, uses, externals, timeout, opts
        self.name = fn.__name__


def contract(target, props, uses=None, externals=None, timeout=20, **opts):
    """uses: {qualified callee: contract summary used in place of its body}"""
    def deco(fn):
        CONTRACTS[fn.__name__] = Contract(fn, target, tuple(props), uses or {}, externals or {}, timeout, opts)
        return fn
    return deco


class Ctx:
    def __init__(self, I, con):
        self.I, self.con = I, con
        self.out = []          # (name, props, hyps, goal, lemmas)
        self.seen = set()
        self.ensure_opts = lambda name: None      # prove options by name of the clause
        self.pre = None

    # ---------------------------------------------------------------- inputs
    def size(self, name, lo=0):
        n = t_.size_var(name)
        self.require(le(const(lo), n))
        return n

    def arr(self, name, axes, dtype):
        """array with arbitrary contents"""
        s = SORT[dtype]
        return new(axes, lambda r: app(name, tuple(x for q in r for x in q), s), dtype, name)

    def require(self, *ts):
        for x in ts:
            if x is not TRUE:
                self.I.pc.append(x)

    def fa(self, axes, f):
        """for all elements of the axes"""
        vs = [ax.vars('q') for ax in axes]
        return forall([v for x in vs for v in x], implies(and_(*[ax.dom(x) for ax, x in zip(axes, vs)]), f(*vs)))

    def define(self, t):
        """definition of a specification function"""
        self.I.pc.append(t)

    # ---------------------------------------------------------------- running the code
    def func(self, qual):
        mod, name = qual.rsplit('.', 1)
        try:
            m = self.I.module(mod)
            return self.I.global_(m, name)
        except Unsupported:
            mod, cls = mod.rsplit('.', 1)
            c = self.I.global_(self.I.module(mod), cls)
            return calls.find_member(self.I, c, name)

    def run(self, *args, target=None, **kw):
        """execute the body of the real function"""
        f = self.func(target or self.con.target)
        self.pre = list(self.I.pc)
        self.snap = {id(x.store): x.store.get for x in list(args) + list(kw.values()) if isinstance(x, Arr)}
        b = calls.bind(self.I, f, list(args), kw, None)
        return calls.inline(self.I, f, b)

    def attempt(self, *args, **kw):
        """(result, None), or (None, name of the exception raised)"""
        try:
            return self.run(*args, **kw), None
        except PyRaise as e:
            return None, e.exc

    def only_raises(self, exc, *allowed):
        """exceptional postcondition: on this path one of the allowed exceptions (or none) was raised"""
        if exc is not None:
            self.ensure(f'raises-only[{exc}]', const(exc in allowed))

    # ---------------------------------------------------------------- postconditions
    def ensure(self, name, goal, props=None, lemmas=(), **kw):
        if isinstance(goal, bool):
            goal = const(goal)
        kw = kw or self.ensure_opts(name) or {}
        self.out.append((name, tuple(props or self.con.props), list(self.I.pc), goal, tuple(lemmas), kw))

    def skolem(self, name, vs, dom, goal, props=None, lemmas=(), **kw):
        """postcondition for arbitrary vs in dom; the lemmas may mention vs"""
        self.out.append((name, tuple(props or self.con.props), list(self.I.pc) + [dom], goal, tuple(lemmas), kw))

    def follows(self, name, hyps, goal, props=None, lemmas=(), **kw):
        """consequence of other clauses of this contract (given as hyps), without the code"""
        self.out.append((name, tuple(props or self.con.props), list(hyps), goal, tuple(lemmas), kw))

    def ensure_array(self, name, a, axes, spec, props=None, lemmas=(), **kw):
        """shape and every element of the result"""
        if not isinstance(a, Arr):
            raise Unsupported(f'{name}: result is not an array')
        if a.ndim != len(axes):
            self.ensure(name + '.shape', FALSE, props)
            return
        ok = True
        for i, (x, y) in enumerate(zip(a.axes, axes)):
            if not x.same(y) and not self.I.axes_equal(x, y):
                self.ensure(f'{name}.shape{i}', eq(x.card(), y.card()), props)
        vs = [ax.vars('q') for ax in axes]
        dom = and_(*[ax.dom(x) for ax, x in zip(axes, vs)])
        small = [i for i, ax in enumerate(axes) if ax.const_n is not None and ax.const_n <= 8]
        combos = [{}]
        for i in small:
            combos = [{**c, i: (const(k),)} for c in combos for k in range(axes[i].const_n)]
        for c in combos:
            reps = [c.get(i) or v for i, v in enumerate(vs)]
            d = and_(*[ax.dom(x) for ax, x in zip(axes, reps)])
            g = a.at(reps)
            s = spec(*reps)
            tag = '' if not c else '[' + ','.join(str(c[i][0].args[0]) for i in small) + ']'
            self.ensure(name + tag, forall([v for r in reps for x in [r] for v in x if v.op == 'var'], implies(d, eq(g, s))), props, lemmas, **kw)

    def lemma(self, name, sorts, f, props=None, **kw):
        """auxiliary fact: forall vs. f(vs), proved on its own without any hypothesis; returns its instances"""
        vs = [fresh(x, 'l') for x in sorts]
        self.out.append(('lemma ' + name, tuple(props or self.con.props), [], f(*vs), (), kw))
        return f

    def unchanged(self, name, *arrs):
        """frame: arrays handed in by the caller were not modified"""
        for a in arrs:
            old = self.snap.get(id(a.store))
            if old is None or old is a.store.get:
                self.ensure(name, TRUE)
                continue
            vs = [ax.vars('q') for ax in a.axes]
            now = a.at(vs)
            cur = a.store.get
            a.store.get = old
            orig = a.at(vs)
            a.store.get = cur
            self.ensure(name, forall([x for q in vs for x in q], implies(and_(*[ax.dom(x) for ax, x in zip(a.axes, vs)]), eq(now, orig))))


def generate(con, src_root):
    """obligations of one contract: [(id, props, kind, hyps, goal, lemmas, where)] plus bookkeeping"""
    I = Interp(src_root, externals=dict(con.externals), contracts=dict(con.uses), feas_timeout=con.opts.get('feas', 2.0))
    ctxs = []

    def run():
        c = Ctx(I, con)
        ctxs.append(c)
        con.fn(c)
        return c
    outs = I.explore(run)
    obls, seen = [], set()
    nran = 0
    for i, (pcond, res, touched) in enumerate(outs):
        if res[0] == 'ok':
            c = res[1]
            nran += 1
            for name, props, hyps, goal, lemmas, kw in c.out:
                k = (name, tuple(sorted({h.id for h in hyps})), goal.id)
                if k in seen:
                    continue
                seen.add(k)
                obls.append((f'{con.name}.{name}', props, 'postcondition', hyps, goal, lemmas, con.target, kw))
        elif res[0] == 'raise':
            e = res[1]
            k = ('raise', e.exc, pcond.id)
            if k not in seen:
                seen.add(k)
                obls.append((f'{con.name}.no-exception[{e.exc}]', con.props, 'exception-free', [pcond], FALSE, (), f'{con.target}', {}))
        else:
            raise Unsupported(f'path ends with {res[0]}')
    asserted = []
    for kind, hyps, goal, where in I.obls:
        # assertions checked earlier on the same path are assumed
        hs = {h.id for h in hyps}
        hyps = list(hyps) + [g for hj, g in asserted if hj <= hs and g is not goal]
        if goal.op == 'exists':
            asserted.append((hs, goal))
        k = (kind, tuple(sorted({h.id for h in hyps})), goal.id)
        if k in seen:
            continue
        seen.add(k)
        obls.append((f'{con.name}.{kind}', con.props, kind, hyps, goal, (), where, next((f(kind, where) for f in [getattr(c, 'assert_opts', None) for c in ctxs] if f), None) or {}))
    pres = [c.pre for c in ctxs if c.pre is not None]
    return I, obls, (pres[0] if pres else []), nran
