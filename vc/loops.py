"""Summaries of loops over symbolic domains.

The body runs once on a generic iteration k over a generic pre-state.  The effect on every location s of every
touched array (and on every scalar) must have one of these shapes, each justified by induction over the iterations:
  own   s is changed only in iteration f(s)              -> final(s) = effect of iteration f(s), if f(s) is one
  sum   post(s) = pre(s) + d(s, k), d free of pre          -> final(s) = init(s) + sum over k of d(s, k)
  or    post(s) = pre(s) or e(s, k)                        -> final(s) = init(s) or exists k. e(s, k)
  and   post(s) = pre(s) and e(s, k)                       -> final(s) = init(s) and forall k. e(s, k)
  set   post(s) = K if e(s, k) else pre(s)                 -> final(s) = K if exists k. e(s, k) else init(s)
  max   post(s) = max(pre(s), d(s, k))                     -> final(s) = the largest of init(s) and all d(s, k)
Conditions of an iteration that depend on the pre-state are named by a function of k defined by recursion over the
earlier iterations (well-founded), so sequential loops such as greedy matching are covered without unrolling."""
import ast
from .arr import *
from . import term as t_
from .interp import *
from .interp import MISSING
from .term import T


def assigned(stmts):
    out = set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def aug_only(st, names):
    """names whose only assignments in the loop are augmented ones (in place for arrays)"""
    aug = {id(n.target) for x in st.body for n in ast.walk(x) if isinstance(n, ast.AugAssign)}
    out = set(names)
    for x in [st.target, *st.body]:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in aug:
                out.discard(n.id)
    return out


def is_num(v):
    return isinstance(v, (T, int, float, Fraction)) and not isinstance(v, EnumVal) and not (isinstance(v, T) and v.sort not in 'IRB')


class Carried:
    """one loop-carried location: an array store or a scalar (environment variable / attribute)"""

    def __init__(self, kind, obj, attr, init, sort, arity):
        self.kind, self.obj, self.attr, self.init, self.sort, self.arity = kind, obj, attr, init, sort, arity
        self.name = f'pre{uid()}'
        self.shape = None       # summary kind
        self.f = None


def by_invariant(I, it, st, env, inv):
    """the induction rule: the invariant holds initially and is preserved by a generic iteration of the body"""
    k = it.vars[0]
    names = assigned(st.body) | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    base = dict(env.d)
    names -= {n for n in aug_only(st, names) if isinstance(base.get(n), Arr)}
    inv.check(I, env, ZERO, 'invariant holds initially')
    mark, npc, born = len(I.log), len(I.pc), uid()
    I.pc.append(it.dom)

    def run():
        env.d.clear()
        env.d.update({**base, **{n: Poison('assigned in the loop') for n in names}})
        inv.assume(I, env, k)
        I.assign(st.target, it.elem, env)
        try:
            I.run_body(st.body, env)
        except PyContinue:
            pass
        inv.check(I, env, add(k, ONE), 'invariant is preserved')
    try:
        outs = I.explore(run)
    finally:
        del I.pc[npc:]
        env.d.clear()
        env.d.update(base)
    I.undo(mark)
    for pcond, res, touched in outs:
        if res[0] == 'raise':
            I.obl('no-exception', not_(and_(it.dom, pcond)), f'{res[1].exc} in a loop')
        elif res[0] != 'ok':
            raise Unsupported('exit from a loop with an invariant')
        for obj, attr, cur in touched.values():
            if getattr(obj, 'id', 0) <= born and not inv.owns(obj):
                raise Unsupported('the loop changes something its invariant does not mention')
    env.d.update({n: Poison('assigned in the loop') for n in names})
    inv.assume(I, env, inv.n)
    return 'end'


def while_by_invariant(I, st, env, inv):
    """the rule of the while loop (partial correctness): the invariant holds initially, is preserved by the body under the
    condition, and holds with the negated condition afterwards"""
    names = assigned(st.body)
    base = dict(env.d)
    inv.check(I, env, 'invariant holds initially')
    mark, npc, born = len(I.log), len(I.pc), uid()

    def run():
        env.d.clear()
        env.d.update({**base, **{n: Poison('assigned in the loop') for n in names}})
        inv.assume(I, env)
        c = I.truth(I.eval(st.test, env))
        if not I.decide(c if isinstance(c, T) else const(bool(c))):
            return
        try:
            I.run_body(st.body, env)
        except PyContinue:
            pass
        inv.check(I, env, 'invariant is preserved')
    try:
        outs = I.explore(run)
    finally:
        del I.pc[npc:]
        env.d.clear()
        env.d.update(base)
    I.undo(mark)
    for pcond, res, touched in outs:
        if res[0] == 'raise':
            I.obl('no-exception', not_(pcond), f'{res[1].exc} in a loop')
        elif res[0] != 'ok':
            raise Unsupported('exit from a loop with an invariant')
        for obj, attr, cur in touched.values():
            if getattr(obj, 'id', 0) <= born and not inv.owns(obj):
                raise Unsupported('the loop changes something its invariant does not mention')
    env.d.update({n: Poison('assigned in the loop') for n in names})
    inv.assume(I, env)
    c = I.truth(I.eval(st.test, env))
    I.pc.append(not_(c if isinstance(c, T) else const(bool(c))))
    I.run_body(st.orelse, env)


def sym_for(I, it, st, env):
    for f in getattr(I, 'invariants', ()):
        inv = f(I, it, st, env)
        if inv is not None:
            return by_invariant(I, it, st, env, inv)
    names = assigned(st.body) | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    base_env = dict(env.d)
    names -= {n for n in aug_only(st, names) if isinstance(base_env.get(n, MISSING), Arr)}
    stores, lists, attrs, dicts = {}, {}, {}, {}
    scal_names = {}
    # array variables assigned (not updated in place) in the body
    plain = {t.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    rebound = {n: None for n in plain if isinstance(base_env.get(n, MISSING), Arr)}
    born = uid()
    for _ in range(8):
        r = attempt(I, it, st, env, base_env, names, stores, lists, attrs, dicts, scal_names, born, rebound)
        if r is not None:
            return r
    raise Unsupported('loop state did not stabilise')


def attempt(I, it, st, env, base_env, names, stores, lists, attrs, dicts, scal_names, born, rebound):
    carried = []
    mark, npc, nob = len(I.log), len(I.pc), len(I.obls)
    pre_env = dict(base_env)
    for n in names:
        v = base_env.get(n, MISSING)
        if v is MISSING:
            continue
        if is_num(v):
            s = scal_names.get(n) or ('B' if isinstance(v, bool) else term(v).sort)
            c = Carried('var', env, n, v, s, 0)
            carried.append(c)
            pre_env[n] = app(c.name, (), s)
        elif isinstance(v, Arr) and n in rebound:
            # array variable bound to a new array in every iteration
            v = rebound[n] or v
            g = v.freeze()
            c = Carried('arr', env, n, g, SORT[v.dtype], None)
            c.axes, c.dtype = v.axes, v.dtype
            carried.append(c)
            pre_env[n] = new(v.axes, lambda reps, c=c: app(c.name, tuple(x for r in reps for x in r), c.sort), v.dtype)
        else:
            pre_env[n] = Poison('assigned in the loop')
    for sid, s in stores.items():
        c = Carried('store', s, 'get', s.get, SORT[s.dtype], None)
        carried.append(c)
        I.heap_set(s, 'get', lambda reps, c=c: app(c.name, tuple(x for r in reps for x in r), c.sort))
    for (oid, a), (o, v) in attrs.items():
        c = Carried('attr', o, a, v, 'B' if isinstance(v, bool) else term(v).sort, 0)
        carried.append(c)
        I.heap_set(o, a, app(c.name, (), c.sort))
    for lid, l in lists.items():
        I.heap_set(l, 'parts', (('pre', lid),))
    for did, d in dicts.items():
        I.heap_set(d, 'updates', (('pre', did),))
    for c in carried:
        I.active_pre.add(c.name)
    I.pc.append(it.dom)
    target_env = env

    def run():
        env.d.clear()
        env.d.update(pre_env)
        I.assign(st.target, it.elem, env)
        I.run_body(st.body, env)
        return None
    outs = []

    def run2():
        try:
            return run()
        finally:
            run2.env = dict(env.d)
    # collect the final environment of each path
    envs = []

    def run3():
        try:
            run2()
        except PyContinue:
            pass
        except PyBreak:
            raise PyReturn(('break', dict(env.d)))
        except PyReturn as r:
            raise PyReturn(('return', r.v))
        envs.append(dict(env.d))
        return len(envs) - 1
    try:
        outs = [(p, r[1] if r[0] == 'return' else r, tch) for p, r, tch in I.explore(run3)]
    finally:
        del I.pc[npc:]
        for c in carried:
            I.active_pre.discard(c.name)
        env.d.clear()
        env.d.update(base_env)
    I.undo(mark)
    # newly discovered state: start again with it made generic
    again = False
    for pcond, res, touched in outs:
        for key, (obj, attr, cur) in touched.items():
            if getattr(obj, 'id', 0) > born:
                continue                  # created by the iteration itself
            if isinstance(obj, Store):
                if obj.id not in stores and obj.get is not cur:
                    stores[obj.id] = obj
                    again = True
            elif isinstance(obj, PyList):
                if id(obj) not in lists:
                    lists[id(obj)] = obj
                    again = True
            elif isinstance(obj, PyDict) and attr == 'updates':
                if id(obj) not in dicts:
                    dicts[id(obj)] = obj
                    again = True
            elif isinstance(obj, dict):
                if (id(obj), attr) not in attrs:
                    old = obj.get(attr, MISSING)
                    if old is MISSING:
                        raise Unsupported('loop adds a key to a dict')
                    if not is_num(old):
                        raise Unsupported(f'loop changes attribute {attr}')
                    attrs[(id(obj), attr)] = (obj, old)
                    again = True
            elif hasattr(obj, 'loop_touch'):
                pass
            else:
                raise Unsupported(f'loop changes {type(obj).__name__}.{attr}')
    if again:
        del I.obls[nob:]
        return None
    # array variables whose shape grows by broadcasting in the first iteration
    for c in carried:
        if c.kind == 'arr':
            for p, r, tch in outs:
                if r[0] == 'ok':
                    v = envs[r[1]].get(c.attr)
                    if not isinstance(v, Arr):
                        raise Unsupported('array variable rebound to something else')
                    same = v.ndim == len(c.axes) and all(x.same(y) or I.axes_equal(x, y) for x, y in zip(v.axes, c.axes))
                    if not same:
                        old = base_env[c.attr]
                        off = v.ndim - old.ndim
                        if not getattr(it, 'nonempty', False) or off < 0 or rebound[c.attr] is not None or not all(x.same(y) or I.axes_equal(x, y) for x, y in zip(v.axes[off:], old.axes)):
                            raise Unsupported('array variable changes its shape in a loop')
                        g = old.freeze()
                        rebound[c.attr] = new(v.axes, lambda reps, g=g, off=off: g(reps[off:]), old.dtype)
                        del I.obls[nob:]
                        return None
                    if v.dtype != c.dtype:
                        raise Unsupported('array variable changes its type in a loop')
    # sort promotion of scalars
    for c in carried:
        if c.kind == 'var':
            for i, (pcond, res, touched) in enumerate(outs):
                if res[0] == 'ok':
                    v = envs[res[1]].get(c.attr, MISSING)
                    if is_num(v) and not isinstance(v, bool) and term(v).sort == 'R' and c.sort == 'I':
                        scal_names[c.attr] = 'R'
                        del I.obls[nob:]
                        return None
    return finish(I, it, st, env, base_env, names, carried, outs, envs, lists, dicts, nob) or 'end'


def mentions_pre(t, names):
    return any(x.op == 'app' and x.args[0] in names for x in subterms(t))


def finish(I, it, st, env, base_env, names, carried, outs, envs, lists, dicts, nob):
    pre_names = {c.name: c for c in carried}
    normal = [(p, r, tch) for p, r, tch in outs if r[0] == 'ok']
    exits = [(p, r, tch) for p, r, tch in outs if r[0] in ('raise', 'return', 'break')]
    posts = {}
    for c in carried:
        if c.kind == 'store':
            s = [ax.vars('s') for ax in c.obj.axes]
            c.s = s
            vals = []
            for p, r, tch in normal:
                k = (id(c.obj), 'get')
                g = tch[k][2] if k in tch else None
                vals.append((p, g(s) if g else app(c.name, tuple(x for q in s for x in q), c.sort)))
        elif c.kind == 'arr':
            c.s = [ax.vars('s') for ax in c.axes]
            vals = [(p, envs[r[1]][c.attr].at(c.s)) for p, r, tch in normal]
        else:
            c.s = []
            vals = []
            for p, r, tch in normal:
                if c.kind == 'var':
                    v = envs[r[1]].get(c.attr)
                else:
                    k = (id(c.obj), c.attr)
                    v = tch[k][2] if k in tch else app(c.name, (), c.sort)
                if not is_num(v):
                    v = None
                else:
                    v = term(v, c.sort if c.sort in 'IR' else None)
                vals.append((p, v))
        if any(v is None for _, v in vals):
            c.post = None
            continue
        post = vals[-1][1] if vals else None
        for p, v in reversed(vals[:-1]):
            post = ite(p, v, post)
        if post is None:
            post = app(c.name, tuple(x for q in c.s for x in q), c.sort)
        c.post = post
    rec = Rec(I, it, pre_names)
    for c in carried:
        summarise(I, it, c, rec, pre_names)
    rec.close()
    # obligations raised in the body mention the pre-state: rewrite them
    for i in range(nob, len(I.obls)):
        kind, hyps, goal, where = I.obls[i]
        kk = {v: v for v in it.vars}
        hyps = [rec.at(h, it.vars) for h in hyps]
        goal = rec.at(goal, it.vars)
        I.obls[i] = (kind, hyps, goal, where)
    if exits and handle_exits(I, it, exits, rec, carried, normal, env, envs, lists, dicts, names):
        return 'break'
    # install the final state
    for c in carried:
        if c.kind == 'arr':
            if c.shape is None:
                env[c.attr] = Poison('last value of a loop')
            elif c.shape == 'same':
                env[c.attr] = new(c.axes, c.init, c.dtype)
            else:
                env[c.attr] = new(c.axes, rec.final_get(c), c.dtype)
            continue
        if c.shape == 'same':
            continue
        if c.kind == 'store':
            if c.shape is None:
                raise Unsupported(f'loop effect on an array (line {st.lineno})')
            I.heap_set(c.obj, 'get', rec.final_get(c))
        else:
            v = rec.final_scalar(c) if c.shape is not None else Poison('last value of a loop')
            if c.kind == 'var':
                env[c.attr] = v
            elif isinstance(v, Poison):
                raise Unsupported('attribute overwritten in a loop')
            else:
                I.heap_set(c.obj, c.attr, v)
    done = {c.attr for c in carried if c.kind in ('var', 'arr')}
    for n in names:
        if n not in done:
            env[n] = last_value(I, it, rec, base_env.get(n, MISSING), [(p, envs[r[1]].get(n, MISSING)) for p, r, tch in normal])
    for lid, l in lists.items():
        parts = list(l.parts)
        flat = list_growth(it, rec, lid, l, normal)
        if flat:
            parts.append(('seg', it.vars, it.dom, tuple(flat)))
        I.heap_set(l, 'parts', tuple(parts))
    for did, d in dicts.items():
        ups = []
        for p, r, tch in normal:
            k = (id(d), 'updates')
            new_ = tch[k][2] if k in tch else (('pre', did),)
            for u in new_[1:]:
                vs, dom, key, val = u
                val2 = map_value(val, lambda t: rec.at(t, it.vars))
                ups.append((tuple(it.vars) + tuple(vs), and_(it.dom, rec.at(p, it.vars) if len(normal) > 1 else TRUE, rec.at(dom, it.vars)), map_key(key, lambda t: rec.at(t, it.vars)), val2))
        I.heap_set(d, 'updates', d.updates + tuple(ups))


def last_value(I, it, rec, init, vals):
    """value after the loop of a variable every iteration assigns"""
    if init is MISSING or isinstance(init, (Poison, Arr, PyList, PyDict)) or len(vals) != 1 or not isinstance(vals[0][1], (Inst, Ext, ExcVal, T)):
        return Poison('loop temporary')
    if not I.decide(exists(list(it.vars), it.dom)):
        return init
    ks = I.choice('last', iter_axis(it), lambda k: TRUE)
    v = vals[0][1]
    if isinstance(v, Ext):
        return v
    m = dict(zip(it.vars, ks))
    return map_value(v, lambda t: rec.at(subst(t, m), ks))


def list_growth(it, rec, lid, l, normal):
    """what a generic iteration appends to the list"""
    sub_parts = []
    for p, r, tch in normal:
        k = (id(l), 'parts')
        new_ = tch[k][2] if k in tch else (('pre', lid),)
        if not new_ or new_[0] != ('pre', lid):
            raise Unsupported('list rebuilt in a loop')
        if new_[1:]:
            sub_parts.append(('if', rec.at(p, it.vars), map_parts(new_[1:], lambda t: rec.at(t, it.vars))))
    flat = []
    for sp in sub_parts:
        if sp[1] is TRUE:
            flat += list(sp[2])
        else:
            flat.append(sp)
    return flat


def map_value(v, f):
    if isinstance(v, T):
        return f(v)
    if isinstance(v, tuple):
        return tuple(map_value(x, f) for x in v)
    if isinstance(v, PyList):
        return PyList(map_parts(v.parts, f))
    if isinstance(v, PyDict):
        d = PyDict({k: map_value(x, f) for k, x in v.items.items()})
        d.updates = tuple((vs, f(dom), map_key(key, f), map_value(val, f)) for vs, dom, key, val in v.updates)
        return d
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.attrs = HDict({k: map_value(x, f) for k, x in v.attrs.items()})
        o.attrs.copy_of = True
        return o
    if isinstance(v, Arr):
        if any(m[0] == 'c' for m in v.smap):
            # view of an array the mapping does not change
            t = v.store.get([ax.vars('q') for ax in v.store.axes])
            if f(t) is t:
                return Arr(v.store, [map_axis(ax, f) for ax in v.axes], [('c', tuple(f(x) for x in m[1])) if m[0] == 'c' else m for m in v.smap])
        g = v.freeze()
        a = new([map_axis(ax, f) for ax in v.axes], lambda r: f(g(r)), v.dtype)
        a.store.copy_of = True
        return a
    if hasattr(v, 'map_terms'):
        return v.map_terms(f)
    return v


def map_key(key, f):
    if isinstance(key, T):
        return f(key)
    if isinstance(key, tuple):
        return type(key)(map_key(x, f) for x in key)
    return key


def map_parts(parts, f):
    out = []
    for p in parts:
        if p[0] == 'one':
            out.append(('one', map_value(p[1], f)))
        elif p[0] == 'seg':
            out.append(('seg', p[1], f(p[2]), map_parts(p[3], f)))
        elif p[0] == 'if':
            out.append(('if', f(p[1]), map_parts(p[2], f)))
        else:
            out.append(p)
    return tuple(out)


def conj(t):
    return list(t.args) if t.op == 'and' else [t]


def changed(t, pre):
    """condition under which the term differs syntactically from pre"""
    if t is pre:
        return FALSE
    if t.op == 'ite':
        c, a, b = t.args
        return or_(and_(c, changed(a, pre)), and_(not_(c), changed(b, pre)))
    return TRUE


def pins(cond, k):
    """map k -> term implied by every disjunct of cond"""
    ds = list(cond.args) if cond.op == 'or' else [cond]
    common = None
    for d in ds:
        m = {}
        for v in k:
            for c in flat_conj(d):
                e = solve_for(c, v)
                if e is not None and not (e.fv & set(k)):
                    m.setdefault(v, []).append(e)
        if common is None:
            common = m
        else:
            common = {v: [e for e in es if e in m.get(v, [])] for v, es in common.items()}
    if common is None or any(not common.get(v) for v in k):
        return None
    return {v: common[v][0] for v in k}


def flat_conj(d):
    for c in conj(d):
        if c.op == 'or':
            # factor: a conjunct present in every disjunct
            sets = [set(flat_conj(x)) for x in c.args]
            for x in set.intersection(*sets):
                yield x
        else:
            yield c


def summarise(I, it, c, rec, pre_names):
    pre = app(c.name, tuple(x for q in c.s for x in q), c.sort)
    svars = [x for q in c.s for x in q]
    k = list(it.vars)
    c.svars, c.pre = svars, pre
    if c.post is None:
        c.shape = None
        return
    t = c.post
    if c.kind in ('store', 'arr'):
        dom_s = and_(*[ax.dom(r) for ax, r in zip(c.obj.axes if c.kind == 'store' else c.axes, c.s)])
        t = c.post = t_.simp(t, frozenset(x.id for x in (*t_._lits(it.dom, True), *t_._lits(dom_s, True))))
    if t is pre:
        c.shape = 'same'
        return
    ch = changed(t, pre)
    if ch is FALSE:
        c.shape = 'same'
        return
    if c.kind == 'store':
        # 1. ownership: the location determines the iteration
        m = pins(ch, k)
        if m is None and len(k) and not is_accumulation(t, pre, c):
            m = pins_by_proof(I, it, ch, k, svars, dom_s)
        if m is not None and all(not mentions_pre(e, pre_names) for e in m.values()):
            c.shape, c.f = 'own', [m[v] for v in k]
            return
    # 2. accumulation
    if c.sort in 'IR':
        d = t_.sub(t, pre)
        d = split_delta(t, pre)
        if d is not None and not mentions_pre(d, {c.name: 1}):
            c.shape, c.delta = 'sum', d
            return
        d = max_delta(t, pre)
        if d is not None and not mentions_pre(d, {c.name: 1}):
            c.shape, c.delta = 'max', d
            return
    if t.op == 'ite' and t.args[2] is pre and not mentions_pre(t.args[0], pre_names) and not mentions_pre(t.args[1], pre_names) and not (t.args[1].fv & set(k)):
        c.shape, c.delta, c.value = 'set', t.args[0], t.args[1]
        return
    if t.op == 'ite' and t.args[1] is pre and not mentions_pre(t.args[0], pre_names) and not mentions_pre(t.args[2], pre_names) and not (t.args[2].fv & set(k)):
        c.shape, c.delta, c.value = 'set', not_(t.args[0]), t.args[2]
        return
    if c.sort == 'B':
        e = bool_delta(t, pre, True)
        if e is not None:
            c.shape, c.delta = 'or', e
            return
        e = bool_delta(t, pre, False)
        if e is not None:
            c.shape, c.delta = 'and', e
            return
    c.shape = None


def is_accumulation(t, pre, c):
    if c.sort in 'IR':
        d = split_delta(t, pre)
        return d is not None and not mentions_pre(d, {c.name: 1})
    return False


def pins_by_proof(I, it, ch, k, svars, dom_s):
    """iteration as a function of the location, through equalities between k and functions of s anywhere in ch"""
    cands = {v: [] for v in k}
    for x in subterms(ch):
        if x.op == '=':
            for v in k:
                e = solve_for(x, v)
                if e is not None and not (e.fv & set(k)) and not any(w.args[0].startswith('!') for w in e.fv if isinstance(w.args[0], str)):
                    cands[v].append(e)
    if any(not cands[v] for v in k):
        return None
    m = {}
    I.pc.append(it.dom)
    try:
        for v in k:
            for e in cands[v][:4]:
                if I.entails(or_(not_(dom_s), not_(ch), eq(v, e))):
                    m[v] = e
                    break
            else:
                return None
    finally:
        I.pc.pop()
    return m


def joined(eqs, x, y):
    """x = y by the equalities"""
    if x is y:
        return True
    seen, todo = {x}, [x]
    while todo:
        u = todo.pop()
        for a, b in eqs:
            for p, q in ((a, b), (b, a)):
                if p is u and q not in seen:
                    if q is y:
                        return True
                    seen.add(q)
                    todo.append(q)
    return False


def split_delta(t, pre, eqs=()):
    """d with t = pre + d; eqs: equalities that hold where t is used"""
    if t is pre:
        return const(0, t.sort)
    if t.op == 'app' and t.args[0] == pre.args[0]:
        return const(0, t.sort) if all(joined(eqs, x, y) for x, y in zip(t.args[1:], pre.args[1:])) else None
    if t.op == 'ite':
        e2 = tuple(tuple(x.args) for x in flat_conj(t.args[0]) if x.op == '=')
        a, b = split_delta(t.args[1], pre, eqs + e2), split_delta(t.args[2], pre, eqs)
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    if t.op == '+':
        if pre in t.args:
            return add(*[x for x in t.args if x is not pre]) if len(t.args) > 1 else const(0, t.sort)
        has = [x for x in t.args if mentions_pre(x, {pre.args[0]: 1})]
        if len(has) == 1:
            d = split_delta(has[0], pre, eqs)
            if d is not None:
                return add(d, *[x for x in t.args if x is not has[0]])
    return None


def max_delta(t, pre):
    """d with t = max(pre, d)"""
    if t.op != 'ite' or pre not in t.args[1:]:
        return None
    c, a, b = t.args
    d = b if a is pre else a
    return d if t is t_.max_(pre, d) or c in ((t_.le(pre, d), t_.lt(pre, d)) if b is pre else (t_.le(d, pre), t_.lt(d, pre))) else None


def bool_delta(t, pre, is_or):
    """e with t = pre or e (resp. pre and e), e free of pre"""
    lo = t_.rewrite(t, lambda x: FALSE if x is pre else None)
    hi = t_.rewrite(t, lambda x: TRUE if x is pre else None)
    if is_or:
        return lo if hi is TRUE else None
    return hi if lo is FALSE else None


class Rec:
    """closed forms of the loop state at the start of an iteration and after the loop"""

    def __init__(self, I, it, pre_names):
        self.I, self.it, self.pre = I, it, pre_names
        self.recs = {}       # condition id -> name
        self.depth = 0

    def close(self):
        """name iteration conditions that depend on the pre-state of or/and-accumulated arrays"""
        I, it = self.I, self.it
        seq = [c for c in self.pre.values() if c.shape in ('or', 'and', 'own') and self.cyclic(c)]
        if not seq:
            return
        names = {c.name for c in self.pre.values()}
        defs = []

        def abstract(t, k):
            """replace maximal boolean subterms that mention the pre-state and no location variable"""
            if not mentions_pre(t, self.pre):
                return t
            if t.sort == 'B' and not (t.fv & locs) and t.op in ('app', 'and', 'or', 'not', '=', '<', '<='):
                if t.op in ('and', 'or'):
                    dep = [x for x in t.args if mentions_pre(x, self.pre)]
                    ind = [x for x in t.args if not mentions_pre(x, self.pre)]
                    core = and_(*dep) if t.op == 'and' else or_(*dep)
                    a = name_(core, k)
                    return and_(a, *ind) if t.op == 'and' else or_(a, *ind)
                return name_(t, k)
            if t.op in t_.BIND:
                raise Unsupported('loop state under a binder')
            if t.op == 'app' and t.args[0] in names:
                return t
            return t_.rebuild(t, [abstract(a, k) if isinstance(a, T) else a for a in t.args])

        def name_(b, k):
            if b.id not in self.recs:
                fvs = sorted(params | {v for v in b.fv if not t_.is_size(v)} - set(k), key=lambda v: v.id)
                nm = f'rec{uid()}'
                self.recs[b.id] = (nm, b, fvs)
                defs.append((nm, b, fvs))
            nm, b, fvs = self.recs[b.id]
            return app(nm, tuple(k) + tuple(fvs), 'B')
        locs = set(x for c in self.pre.values() for x in getattr(c, 'svars', []))
        k = tuple(it.vars)
        # variables of enclosing generic iterations: arguments of the named conditions
        params = set(it.dom.fv)
        for c in self.pre.values():
            for x in (getattr(c, 'delta', None), c.post, *(c.f or [])):
                if x is not None:
                    params |= x.fv
        params = {v for v in params if not t_.is_size(v)} - set(k) - locs
        for c in self.pre.values():
            if c.shape in ('or', 'and'):
                c.delta = abstract(c.delta, k)
                if mentions_pre(c.delta, self.pre):
                    c.shape = None
            elif c.shape == 'own':
                c.post = abstract(c.post, k)
            elif c.shape == 'sum':
                c.delta = abstract(c.delta, k)
                if mentions_pre(c.delta, self.pre):
                    c.shape = None
        for nm, b, fvs in defs:
            body = self.at(b, k)
            if {v for v in body.fv if not t_.is_size(v)} - set(k) - set(fvs):
                raise Unsupported('loop state depends on an enclosing iteration')
            I.axiom(or_(not_(it.dom), eq(app(nm, tuple(k) + tuple(fvs), 'B'), body)), [nm])

    def cyclic(self, c):
        t = c.delta if c.shape in ('or', 'and') else c.post
        if c.shape in ('or', 'and'):
            return mentions_pre(t, self.pre)
        return any(x.op == 'app' and x.args[0] in self.pre and self.pre[x.args[0]].shape in ('or', 'and') for x in subterms(t))

    # value of the pre-state at the start of iteration kk
    def at(self, t, kk):
        if not mentions_pre(t, self.pre):
            return t
        self.depth += 1
        if self.depth > 12:
            self.depth = 0
            raise Unsupported('loop state recursion')
        try:
            return t_.rewrite(t, lambda x: self.pre_at(self.pre[x.args[0]], x.args[1:], kk) if x.op == 'app' and x.args[0] in self.pre else None)
        finally:
            self.depth -= 1

    def init(self, c, s):
        if c.kind not in ('store', 'arr'):
            return term(c.init, c.sort if c.sort in 'IR' else None)
        out, i = [], 0
        for ax in (c.obj.axes if c.kind == 'store' else c.axes):
            out.append(tuple(s[i:i + len(ax.sorts)]))
            i += len(ax.sorts)
        return c.init(out)

    def pre_at(self, c, s, kk):
        I, it = self.I, self.it
        m = dict(zip(c.svars, s))
        if c.shape == 'same':
            return self.init(c, s)
        if c.shape == 'own':
            f = [subst(e, m) for e in c.f]
            same = and_(*[eq(a, b) for a, b in zip(f, kk)])
            if same is TRUE or I.entails(or_(not_(subst(it.dom, dict(zip(it.vars, kk)))), same)):
                return self.init(c, s)
            # changed in an earlier iteration?
            j = [fresh(v.sort, 'j') for v in it.vars]
            bf = it.before(tuple(f), tuple(kk))
            dj = subst(it.dom, dict(zip(it.vars, f)))
            body = subst(c.post, {**m, **dict(zip(it.vars, f))})
            body = self.at(body, tuple(f))
            return ite(and_(dj, bf), body, self.init(c, s))
        if c.shape == 'max':
            return self.maximum(c, s, kk)
        if c.shape == 'set':
            j = [fresh(v.sort, 'j') for v in it.vars]
            d = subst(c.delta, {**m, **dict(zip(it.vars, j))})
            dom = and_(subst(it.dom, dict(zip(it.vars, j))), it.before(tuple(j), tuple(kk)))
            return ite(exists(j, and_(dom, d)), subst(c.value, m), self.init(c, s))
        if c.shape in ('sum', 'or', 'and'):
            j = [fresh(v.sort, 'j') for v in it.vars]
            d = subst(c.delta, {**m, **dict(zip(it.vars, j))})
            d = self.at(d, tuple(j))
            dom = and_(subst(it.dom, dict(zip(it.vars, j))), it.before(tuple(j), tuple(kk)))
            if c.shape == 'sum':
                return add(self.init(c, s), sum_(j, dom, d))
            if c.shape == 'or':
                return or_(self.init(c, s), exists(j, and_(dom, d)))
            return and_(self.init(c, s), forall(j, or_(not_(dom), d)))
        raise Unsupported('use of loop-carried state')

    def maximum(self, c, s, kk=None):
        """largest of the initial value and the contributions of the iterations before kk (all of them if None)"""
        I, it = self.I, self.it
        j = [fresh(v.sort, 'j') for v in it.vars]
        ks = [fresh(v.sort, 'k') for v in it.vars] if kk is not None else []
        d = self.at(subst(c.delta, dict(zip(it.vars, j))), tuple(j))
        dom = subst(it.dom, dict(zip(it.vars, j)))
        if kk is not None:
            dom = and_(dom, it.before(tuple(j), tuple(ks)))
        init = self.init(c, c.svars)
        par = sorted({v for v in d.fv | dom.fv | init.fv if not t_.is_size(v)} - set(j) - set(ks) - set(c.svars), key=lambda v: v.id)
        key = ('max', c.name, kk is not None)
        v = app(key, tuple(ks) + tuple(c.svars) + tuple(par), c.sort)
        I.axiom(le(init, v), [key])
        I.axiom(or_(not_(dom), le(d, v)), [key])
        I.axiom(or_(eq(v, init), exists(j, and_(dom, eq(v, d)))), [key])
        return subst(v, {**dict(zip(c.svars, s)), **dict(zip(ks, kk or ()))})

    def final(self, c, s):
        I, it = self.I, self.it
        m = dict(zip(c.svars, s))
        if c.shape == 'max':
            return self.maximum(c, s)
        if c.shape == 'own':
            f = [subst(e, m) for e in c.f]
            km = dict(zip(it.vars, f))
            dj = subst(it.dom, km)
            t = c.post
            m2 = dict(m)
            m2.update({v: subst(e, m) for v, e in zip(it.vars, c.f)})
            body = subst(t, m2)
            body = self.at(body, tuple(f))
            return ite(dj, body, self.init(c, s))
        j = [fresh(v.sort, 'j') for v in it.vars]
        d = subst(c.delta, {**m, **dict(zip(it.vars, j))})
        d = self.at(d, tuple(j))
        dom = subst(it.dom, dict(zip(it.vars, j)))
        if c.shape == 'set':
            return ite(exists(j, and_(dom, d)), subst(c.value, m), self.init(c, s))
        if c.shape == 'sum':
            return add(self.init(c, s), sum_(j, dom, d))
        if c.shape == 'or':
            return or_(self.init(c, s), exists(j, and_(dom, d)))
        if c.shape == 'and':
            return and_(self.init(c, s), forall(j, or_(not_(dom), d)))
        raise Unsupported('loop effect')

    def final_get(self, c):
        from .ops import memo_get
        return memo_get(lambda reps: self.final(c, tuple(x for r in reps for x in r)))

    def final_scalar(self, c):
        return self.final(c, ())


def iter_axis(it):
    base = KeyAx([v.sort for v in it.vars], lambda *k: subst(it.dom, dict(zip(it.vars, k))))
    return PermAx(base, lambda a, b: it.before(tuple(a), tuple(b)), ('iter', t_._close('axis', list(it.vars), (it.dom,), 'I').id))


def handle_exits(I, it, exits, rec, carried, normal, env, envs, lists, dicts, names):
    """raise / return / break inside the loop: the first iteration that leaves it decides.  True after a break"""
    conds = [rec.at(p, it.vars) for p, r, tch in exits]
    ex = exists(list(it.vars), and_(it.dom, or_(*conds)))
    if not I.decide(ex):
        return False
    kinds = {(r[0], r[1].exc if r[0] == 'raise' else None) for p, r, tch in exits}
    simple = len(kinds) == 1 and exits[0][1][0] == 'raise'
    ks = I.choice('first', iter_axis(it), lambda k: subst(or_(*conds), dict(zip(it.vars, k))))
    m = dict(zip(it.vars, ks))
    which = exits[-1]
    for e, c in zip(exits[:-1], conds[:-1]):
        if I.decide(subst(c, m)):
            which = e
            break
    else:
        if len(exits) > 1:
            I.pc.append(subst(conds[-1], m))
    p, r, tch = which
    f = lambda t: rec.at(subst(t, m), ks)
    # state when the loop is left
    for c in carried:
        if c.kind == 'store':
            k = (id(c.obj), 'get')
            g = tch[k][2] if k in tch else None
            I.heap_set(c.obj, 'get', lambda reps, c=c, g=g: f(g(reps) if g else app(c.name, tuple(x for q in reps for x in q), c.sort)))
        elif c.kind == 'attr':
            k = (id(c.obj), c.attr)
            v = tch[k][2] if k in tch else app(c.name, (), c.sort)
            I.heap_set(c.obj, c.attr, map_value(v, f))
        elif c.kind == 'var' and r[0] == 'break':
            v = r[1].get(c.attr, MISSING)
            env[c.attr] = map_value(v, f) if is_num(v) else Poison('value at a break')
        elif c.kind == 'arr' and r[0] == 'break':
            env[c.attr] = Poison('array at a break')
    for lid, l in lists.items():
        parts = list(l.parts)
        flat = list_growth(it, rec, lid, l, normal)
        if flat:
            parts.append(('seg', it.vars, and_(it.dom, it.before(tuple(it.vars), tuple(ks))), tuple(flat)))
        k = (id(l), 'parts')
        if k in tch and tch[k][2][1:]:
            parts += list(map_parts(tch[k][2][1:], f))
        I.heap_set(l, 'parts', tuple(parts))
    for did, d in dicts.items():
        I.heap_set(d, 'updates', (('poison',),))
    if r[0] == 'raise':
        raise PyRaise(r[1].exc, r[1].msg)
    if r[0] == 'return':
        raise PyReturn(map_value(r[1], f))
    done = {c.attr for c in carried if c.kind in ('var', 'arr')}
    for n in names:
        if n not in done:
            env[n] = map_value(r[1].get(n, Poison('loop temporary')), f)
    return True
