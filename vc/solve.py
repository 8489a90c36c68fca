"""Discharge verification conditions with z3 (cvc5 as second opinion).

count/sum binders become uninterpreted symbols applied to their free variables.  Three lemma schemas about
them are instantiated (all are theorems about finite counting):
  ext      (P1(w) <=> P2(w)) for the skolem tuple w   ==>  count P1 = count P2       (sums: and equal summands)
  le       P1(w) ==> P2(w)                            ==>  count P1 <= count P2
  empty    count P >= 0;  count P = 0  or  P(w)       (and  P(v) ==> count P > 0 as a quantified axiom)
  proj     A(w,t) functional in t: count_{k,t} A = count_k exists t. A
"""
import itertools
import subprocess
import time
import z3
from . import term as t_
from .term import T, BIND, open_, subst, subterms, and_, or_, not_, eq, le, lt, iff, implies, exists, count

STATS = {'queries': 0, 'time': 0.0, 'z3': 0, 'cvc5': 0}


class Tr:
    def __init__(self):
        self.vars, self.funs, self.sorts, self.lits, self.memo = {}, {}, {}, {}, {}

    def sort(self, s):
        if s == 'I':
            return z3.IntSort()
        if s == 'R':
            return z3.RealSort()
        if s == 'B':
            return z3.BoolSort()
        if s not in self.sorts:
            self.sorts[s] = z3.DeclareSort('U_' + s)
        return self.sorts[s]

    def fun(self, name, args, res):
        k = (name, tuple(a.sexpr() for a in args), res.sexpr())
        if k not in self.funs:
            self.funs[k] = z3.Function(f'{name}_{len(self.funs)}', *args, res)
        return self.funs[k]

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._tr(t)
        return r

    def _tr(self, t):
        o = t.op
        if o == 'var':
            return z3.Const(f'{t.args[0]}|{t.sort}', self.sort(t.sort))
        if o == 'c':
            v = t.args[0]
            if t.sort == 'B':
                return z3.BoolVal(v)
            if t.sort == 'I':
                return z3.IntVal(v)
            return z3.Q(v.numerator, v.denominator)
        if o == 'lit':
            k = (t.args[0], t.sort)
            if k not in self.lits:
                self.lits[k] = z3.Const(f'lit_{len(self.lits)}', self.sort(t.sort))
            return self.lits[k]
        if o in ('forall', 'exists'):
            vs, b = open_(t)
            zb = self.tr(b)
            q = z3.ForAll if o == 'forall' else z3.Exists
            return q([self.tr(v) for v in vs], zb)
        if o in ('count', 'sum'):
            fv = t_._occ_order(list(t.fv), t_._mk('tup', tuple(t.args[1:]), 'I')) if t.fv else []
            m = {v: t_.var(f'#{i}', v.sort) for i, v in enumerate(fv)}
            key = subst(t, m) if m else t
            f = self.fun(f'{o}{key.id}', [self.sort(v.sort) for v in fv], self.sort(t.sort))
            return f(*[self.tr(v) for v in fv])
        if o == 'app':
            a = [self.tr(x) for x in t.args[1:]]
            return self.fun(str(t.args[0]), [x.sort() for x in a], self.sort(t.sort))(*a)
        a = [self.tr(x) for x in t.args]
        if o == 'and':
            return z3.And(*a)
        if o == 'or':
            return z3.Or(*a)
        if o == 'not':
            return z3.Not(a[0])
        if o == 'ite':
            return z3.If(a[0], a[1], a[2])
        if o == '=':
            return a[0] == a[1]
        if o == '<':
            return a[0] < a[1]
        if o == '<=':
            return a[0] <= a[1]
        if o == '+':
            return z3.Sum(*a)
        if o == '*':
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if o == '/':
            return a[0] / a[1]
        if o == 'div':
            return a[0] / a[1]
        if o == 'mod':
            return a[0] % a[1]
        if o == 'floor':
            return z3.ToInt(a[0])
        if o == 'toreal':
            return z3.ToReal(a[0])
        raise ValueError(o)

    def distinct(self):
        by = {}
        for (n, s), c in self.lits.items():
            by.setdefault(s, []).append(c)
        return [z3.Distinct(*cs) for cs in by.values() if len(cs) > 1]


def closed_aggs(ts):
    """count/sum subterms that are not under another binder's scope through a bound variable"""
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.op in ('count', 'sum') and not any(v.args[0].startswith('!') for v in x.fv):
                out[x.id] = x
    return list(out.values())


def perms(s1, s2, limit=6):
    """assignments of positions of s1 to positions of s2 with the same sorts"""
    n = len(s1)
    if sorted(s1) != sorted(s2):
        return
    k = 0
    for p in itertools.permutations(range(n)):
        if all(s1[p[i]] == s2[i] for i in range(n)):
            yield p
            k += 1
            if k >= limit:
                return


def ext_lemmas(c1, c2, mono=False):
    if (c1.op == 'sum') != (c2.op == 'sum') or c1.sort != c2.sort and c1.op == 'sum':
        return
    s1, s2 = [v.sort for v in c1.args[0]], [v.sort for v in c2.args[0]]
    for p in perms(s1, s2):
        o1 = open_(c1)
        ws = o1[0]
        m = {b: ws[p[i]] for i, b in enumerate(c2.args[0])}
        memo = {}
        bs = [t_._rename(b, m, memo) for b in c2.args[1:]]
        # the renamed body may need renormalising
        bs = [subst(b, {}) for b in bs]
        if c1.op == 'count':
            yield or_(eq(c1, c2), not_(iff(o1[1], bs[0])))
            if mono:
                yield or_(le(c1, c2), and_(o1[1], not_(bs[0])))
                # second skolem for the converse
                o3 = open_(c1)
                m3 = {b: o3[0][p[i]] for i, b in enumerate(c2.args[0])}
                b3 = t_._rename(c2.args[1], m3, {})
                yield or_(le(c2, c1), and_(b3, not_(o3[1])))
                # proper subsets
                o4 = open_(c1)
                b4 = subst(t_._rename(c2.args[1], {b: o4[0][p[i]] for i, b in enumerate(c2.args[0])}, {}), {})
                yield or_(lt(c1, c2), and_(o1[1], not_(bs[0])), t_.forall(o4[0], or_(not_(b4), o4[1])))
                yield or_(lt(c2, c1), and_(b3, not_(o3[1])), t_.forall(o4[0], or_(b4, not_(o4[1]))))
        else:
            yield or_(eq(c1, c2), not_(iff(o1[1], bs[0])), and_(o1[1], not_(eq(o1[2], bs[1]))))


def basic_lemmas(c, quant=True):
    if c.op == 'count':
        vs, b = open_(c)
        yield le(t_.ZERO, c)
        yield or_(eq(c, t_.ZERO), b)
        ws, bb = open_(c)
        if len(ws) == 1 and ws[0].sort == 'I' and bb.op == 'and':
            # a subset of a range has at most as many elements
            rng = [x for x in bb.args if x.op in ('<', '<=') and ws[0] in x.args and ws[0] not in x.args[x.args[0] is ws[0]].fv]
            los, his = [x for x in rng if x.args[1] is ws[0]], [x for x in rng if x.args[0] is ws[0]]
            if los and his:
                yield le(c, t_.count(ws, and_(los[0], his[0])))
        if quant:
            ws, bb = open_(c)
            yield t_.forall(ws, or_(not_(bb), lt(t_.ZERO, c)))
    elif c.op == 'sum':
        # nonneg: unless some summand is negative, the sum is at least every summand
        z = t_.const(0, c.sort)
        vs, b, x = open_(c)
        neg = and_(b, lt(x, z))
        yield or_(neg, le(z, c))
        vs2, b2, x2 = open_(c)
        yield or_(eq(c, z), and_(b2, not_(eq(x2, z))))
        if quant:
            ws, bb, y = open_(c)
            yield or_(neg, t_.forall(ws, or_(not_(bb), le(y, c))))


def two_lemmas(c):
    """at most one element: all elements equal; more than one: two different elements"""
    if c.op == 'count':
        (a, pa), (b, pb) = open_(c), open_(c)
        same = and_(*[eq(x, y) for x, y in zip(a, b)])
        yield or_(lt(t_.ONE, c), t_.forall(a + b, or_(not_(pa), not_(pb), same)))
        (a, pa), (b, pb) = open_(c), open_(c)
        yield or_(le(c, t_.ONE), and_(pa, pb, or_(*[not_(eq(x, y)) for x, y in zip(a, b)])))


def least(phi, sort='I'):
    """well-ordering: a set of non-negative integers that is not empty has a least element"""
    v, w = t_.fresh(sort, 'w'), t_.fresh(sort, 'w')
    x, y = t_.fresh(sort, 'least'), t_.fresh(sort, 'w')
    nn = lambda q: and_(le(t_.ZERO, q), phi(q))
    return or_(not_(exists([v], nn(v))), and_(nn(x), t_.forall([y], or_(not_(nn(y)), le(x, y)))))


def first_max(phi, val, n):
    """a non-empty set of integers in [0, n) has a first element of largest value"""
    v, x, y = t_.fresh('I', 'w'), t_.fresh('I', 'argmax'), t_.fresh('I', 'w')
    inn = lambda q: and_(le(t_.ZERO, q), lt(q, n), phi(q))
    return or_(not_(exists([v], inn(v))),
               and_(inn(x), t_.forall([y], or_(not_(inn(y)), lt(val(y), val(x)), and_(eq(val(y), val(x)), le(x, y))))))


def least_for_goal(goal):
    """the goal asks for an element with extremal properties: a least element satisfying its quantifier-free part"""
    if goal.op != 'exists' or len(goal.args[0]) != 1 or goal.args[0][0].sort != 'I':
        return []
    vs, b = open_(goal)
    parts = b.args if b.op == 'and' else (b,)
    qf = [x for x in parts if x.bd == 0]
    if len(qf) == len(parts) or not any(x.op == '<=' and x.args[0] is t_.ZERO and x.args[1] is vs[0] for x in qf):
        return []
    return [least(lambda q: subst(and_(*qf), {vs[0]: q}))]


def shift_lemmas(c1, c2):
    """sums/counts over one integer variable related by i -> i + 1"""
    if len(c1.args[0]) != 1 or len(c2.args[0]) != 1 or c1.op != c2.op or c1.args[0][0].sort != 'I':
        return
    for k in (1, -1):
        o1 = open_(c1)
        w = o1[0][0]
        o2 = open_(c2)
        bs = [subst(x, {o2[0][0]: t_.add(w, t_.const(k))}) for x in o2[1:]]
        bad = not_(iff(o1[1], bs[0]))
        if c1.op == 'sum':
            bad = or_(bad, and_(o1[1], not_(eq(o1[2], bs[1]))))
        yield or_(eq(c1, c2), bad)


def peel(c):
    """first element of a sum/count over one integer variable: returns lemma"""
    if len(c.args[0]) != 1 or c.args[0][0].sort != 'I':
        return None
    o = open_(c)
    v = o[0][0]
    b = o[1]
    if subst(b, {v: t_.const(-1)}) is not t_.FALSE and not any(x.op == '<=' and x.args[0] is t_.ZERO and x.args[1] is v for x in (b.args if b.op == 'and' else (b,))):
        return None
    rest = and_(b, lt(t_.ZERO, v))
    b0 = subst(b, {v: t_.ZERO})
    if c.op == 'count':
        return eq(c, t_.add(t_.ite(b0, t_.ONE, t_.ZERO), count([v], rest)))
    return eq(c, t_.add(t_.ite(b0, subst(o[2], {v: t_.ZERO}), t_.const(0, c.sort)), t_.sum_([v], rest, o[2])))


def union_lemmas(cs):
    """c1 = c2 + c3 when P1 is the disjoint union of P2 and P3"""
    for c1 in cs:
        for c2, c3 in itertools.combinations([c for c in cs if c is not c1], 2):
            if not (c1.op == c2.op == c3.op) or not ([v.sort for v in c1.args[0]] == [v.sort for v in c2.args[0]] == [v.sort for v in c3.args[0]]):
                continue
            o1 = open_(c1)
            ws = o1[0]
            p2 = t_._rename(c2.args[1], dict(zip(c2.args[0], ws)), {})
            p3 = t_._rename(c3.args[1], dict(zip(c3.args[0], ws)), {})
            bad = or_(and_(p2, p3), not_(iff(o1[1], or_(p2, p3))))
            if c1.op == 'sum':
                x2 = t_._rename(c2.args[2], dict(zip(c2.args[0], ws)), {})
                x3 = t_._rename(c3.args[2], dict(zip(c3.args[0], ws)), {})
                bad = or_(bad, and_(p2, not_(eq(x2, o1[2]))), and_(p3, not_(eq(x3, o1[2]))))
            yield or_(eq(c1, t_.add(c2, c3)), bad)


def proj_lemmas(c1, c2):
    """count over (k, t) of A  =  count over k of (exists t. A) when A is functional in t"""
    if c1.op != 'count' or c2.op != 'count':
        return
    n1, n2 = len(c1.args[0]), len(c2.args[0])
    if n1 <= n2:
        return
    for sel in itertools.permutations(range(n1), n2):
        if any(c1.args[0][sel[i]].sort != c2.args[0][i].sort for i in range(n2)):
            continue
        rest = [i for i in range(n1) if i not in sel]
        va, a = open_(c1)
        vb, b = open_(c1)
        same = and_(*[eq(va[i], vb[i]) for i in sel])
        bad = and_(a, b, same, or_(*[not_(eq(va[i], vb[i])) for i in rest]))
        # projection equals c2's predicate at a skolem point
        vk, body = open_(c1)
        ex = exists([vk[i] for i in rest], body)
        m = {bv: vk[sel[i]] for i, bv in enumerate(c2.args[0])}
        p2 = t_._rename(c2.args[1], m, {})
        yield or_(eq(c1, c2), bad, not_(iff(ex, p2)))


def bij_lemma(c1, c2, f, g):
    """count P1 = count P2 by the maps f: vars1 -> vars2 and g: vars2 -> vars1 (python functions on terms)"""
    v1, p1 = open_(c1)
    v2, p2 = open_(c2)
    f1, g2 = f(*v1), g(*v2)
    p2f = t_._rename(c2.args[1], dict(zip(c2.args[0], f1)), {}) if False else subst_bound(c2, f1)
    p1g = subst_bound(c1, g2)
    gf, fg = g(*f1), f(*g2)
    bad = or_(and_(p1, not_(and_(p2f, *[eq(a, b) for a, b in zip(gf, v1)]))),
              and_(p2, not_(and_(p1g, *[eq(a, b) for a, b in zip(fg, v2)]))))
    return or_(eq(c1, c2), bad)


def split_lemma(vs, p, q):
    """a finite set is the disjoint union of its parts inside and outside q"""
    return eq(count(vs, p), t_.add(count(vs, and_(p, q)), count(vs, and_(p, not_(q)))))


def image_lemma(vs, rs, p, x):
    """the image of a finite set is not larger than the set"""
    k = t_.fresh(x.sort, 'k')
    return t_.le(count(list(vs) + [k], exists(list(rs), and_(p, eq(x, k)))), count(list(vs) + list(rs), p))


def split_sum(vs, p, q, x):
    return eq(t_.sum_(vs, p, x), t_.add(t_.sum_(vs, and_(p, q), x), t_.sum_(vs, and_(p, not_(q)), x)))


def simplify_ites(hyps, goal, cache):
    """resolve conditions of conditionals that the hypotheses decide"""
    for _ in range(12):
        conds = []
        for x in subterms(goal):
            if x.op == 'ite' and not any(isinstance(v.args[0], str) and v.args[0].startswith('!') for v in x.args[0].fv):
                conds.append(x.args[0])
        todo = [c for c in {c.id: c for c in conds}.values() if c.id not in cache]
        if not todo:
            return goal
        hit = False
        for c in todo[:12]:
            cache[c.id] = None
            for val, f in ((t_.TRUE, not_(c)), (t_.FALSE, c)):
                r, s, dt = _z3(hyps, f, 0.3)
                if r == z3.unsat:
                    goal = t_.rewrite(goal, lambda x: val if x is c else None)
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return goal
    return goal


def subst_bound(c, args):
    vs, b = open_(c)
    return subst(b, dict(zip(vs, args)))


class Result:
    def __init__(self, status, backend, time_s, out=''):
        self.status, self.backend, self.time_s, self.out = status, backend, time_s, out


def _z3(hyps, neg_goal, timeout, ematch=False):
    tr = Tr()
    s = z3.Solver()
    if ematch:
        s.set('auto_config', False)
        s.set('mbqi', False)
    s.set('timeout', int(timeout * 1000))
    fs = [tr.tr(h) for h in hyps] + [tr.tr(neg_goal)]
    for f in fs + tr.distinct():
        s.add(f)
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    return r, s, dt


def _cvc5(smt, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit', str(int(timeout * 1000)), '--lang', 'smt2', '--nl-ext-tplanes', '-'],
                           input='(set-logic ALL)\n' + smt, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        r = out[0] if out else 'unknown'
    except Exception as e:  # noqa
        r = 'unknown'
    STATS['time'] += time.time() - t0
    return r, time.time() - t0


def skolemise_goal(hyps, goal):
    """split a goal into (hyps, atomic goal) pieces"""
    if goal.op == 'and':
        for g in goal.args:
            yield from skolemise_goal(hyps, g)
        return
    if goal.op == 'forall':
        vs, b = open_(goal)
        yield from skolemise_goal(hyps, b)
        return
    if goal.op == 'or':
        # a disjunct of negated existential form becomes a hypothesis
        ds = list(goal.args)
        hs, rest = [], []
        for d in ds:
            n = not_(d)
            if n.op == 'exists':
                vs, b = open_(n)
                hs.append(b)
            elif d.op == 'forall':
                rest.append(open_(d)[1])
            else:
                rest.append(d)
        if len(rest) == 1 and rest[0].op == 'and':
            yield from skolemise_goal(hyps + hs, rest[0])
        else:
            yield hyps + hs, or_(*rest)
        return
    yield hyps, goal


def ground_axioms(axioms, hyps, goal):
    """instances of the axioms of choice functions at the ground choice terms of the goal, for the goal's own variables"""
    gvars = [v for v in goal.fv if not t_.is_size(v) and not v.args[0].startswith('!')]
    out = {}
    apps = {}
    for x in subterms(goal):
        if x.op == 'app' and isinstance(x.args[0], tuple) and not any(v.args[0].startswith('!') for v in x.fv):
            apps.setdefault(x.args[0], []).append(x)
    for vs, b in axioms:
        want = set(vs)
        pats = [x for x in subterms(b) if x.op == 'app' and x.args[0] in apps]
        for p in pats:
            for g in apps[p.args[0]]:
                m = {}
                if len(p.args) != len(g.args):
                    continue
                for q, c in zip(p.args[1:], g.args[1:]):
                    if q in want:
                        if m.setdefault(q, c) is not c:
                            break
                    elif q is not c:
                        break
                else:
                    rest = [v for v in vs if v not in m]
                    if len(rest) > 2:
                        continue
                    for combo in itertools.product(*[[w for w in gvars if w.sort == v.sort] for v in rest]):
                        i = t_.subst(b, {**m, **dict(zip(rest, combo))})
                        if i is not t_.TRUE:
                            out[i.id] = i
                        if len(out) > 60:
                            return list(out.values())
    return list(out.values())


def witness_cases(goal):
    """add instances of existential disjuncts at the chosen elements named in the goal (equivalent goal)"""
    ds = goal.args if goal.op == 'or' else (goal,)
    ex = [d for d in ds if d.op == 'exists' and len(d.args[0]) == 1]
    if not ex:
        return goal
    ch = [x for x in subterms(goal) if x.op == 'app' and isinstance(x.args[0], tuple) and x.args[0][0] in ('first', 'last', 'any') and not any(v.args[0].startswith('!') for v in x.fv)]
    new = []
    for d in ex:
        vs, b = open_(d)
        new += [subst(b, {vs[0]: x}) for x in ch[:4] if x.sort == vs[0].sort]
    return or_(goal, *new)


def prop_unsat(fs):
    """contradiction by propositional reasoning alone (atoms uninterpreted)"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t.op == 'and':
                r = z3.And([go(a) for a in t.args])
            elif t.op == 'or':
                r = z3.Or([go(a) for a in t.args])
            elif t.op == 'not':
                r = z3.Not(go(t.args[0]))
            elif t is t_.TRUE or t is t_.FALSE:
                r = z3.BoolVal(t is t_.TRUE)
            elif t.op in ('<', '<='):
                # a <= b is the negation of b < a
                a, b = t.args
                x, y = (a.id, b.id) if t.op == '<' else (b.id, a.id)
                r = z3.Bool(f'lt_{x}_{y}')
                if t.op == '<=':
                    r = z3.Not(r)
            else:
                r = z3.Bool(f'a{t.id}')
            memo[t.id] = r
        return r
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add([go(f) for f in fs])
    return s.check() == z3.unsat


def ite_cases(goal):
    """cases of an equation between conditionals: [(conditions, equation)]"""
    if goal.op != '=':
        return [([], goal)]
    out, todo = [], [([], goal)]
    while todo:
        cs, g = todo.pop()
        if g.op == '=' and len(out) + len(todo) < 8:
            a, b = g.args
            if b.op == 'ite' and a.op != 'ite':
                a, b = b, a
            if a.op == 'ite':
                c, x, y = a.args
                todo += [(cs + [c], eq(x, b)), (cs + [not_(c)], eq(y, b))]
                continue
        out.append((cs, g))
    return out


def instances(hyps, goal):
    """ground instances, at the terms of the goal, of universal hypotheses with aggregates over their variables"""
    out = {}
    ground = None
    for h in hyps:
        if h.op != 'forall' or not any(x.op in ('count', 'sum') for x in subterms(h)):
            continue
        vs, b = open_(h)
        want = set(vs)
        if not any(x.op in ('count', 'sum') and x.fv & want for x in subterms(b)):
            continue
        pats = [x for x in subterms(b) if x.op == 'app' and want <= {a for a in x.args[1:] if isinstance(a, t_.T)}]
        if not pats:
            continue
        if ground is None:
            ground = {}
            for x in subterms(goal):
                if x.op == 'app' and not any(v.args[0].startswith('!') for v in x.fv):
                    ground.setdefault((x.args[0], len(x.args)), []).append(x)
        for p in pats:
            for g in ground.get((p.args[0], len(p.args)), ()):
                m = {}
                for a, c in zip(p.args[1:], g.args[1:]):
                    if a in want:
                        if m.setdefault(a, c) is not c:
                            break
                    elif a is not c:
                        break
                else:
                    i = t_.subst(b, m)
                    out[i.id] = i
    return list(out.values())[:12]


def relevant(hyps, goal):
    """drop hypotheses that share no symbol with the goal's cone"""
    def symbols(t):
        out = set()
        for x in subterms(t):
            if x.op == 'var' and not x.args[0].startswith('!'):
                out.add(x)
            elif x.op == 'app':
                out.add(x.args[0])
        return out
    sym = symbols(goal)
    hs = [(h, symbols(h)) for h in hyps]
    used = set()
    changed = True
    while changed:
        changed = False
        for i, (h, s) in enumerate(hs):
            if i not in used and (s & sym or not s):
                used.add(i)
                if not s <= sym:
                    sym |= s
                    changed = True
    return [h for i, (h, s) in enumerate(hs) if i in used]


def prove(hyps, goal, timeout=15, lemmas=(), rounds=2, mono=False, proj=True, want_model=False, use_cvc5=True, two=False, axioms=(), raw=()):
    """True iff hyps |= goal.  lemmas: extra T facts (already justified by the caller)."""
    total = 0.0
    for hs, g in skolemise_goal([h for h in hyps if h is not t_.TRUE], goal):
        if g is t_.TRUE or g in hs or any(h is t_.FALSE for h in hs):
            continue
        g = witness_cases(g)
        inst = instances(hs, g)
        lem = list(lemmas) + inst + least_for_goal(g)
        mono = mono or bool(inst)
        if two:
            for cc in closed_aggs([g]):
                lem += list(two_lemmas(cc))
        r = None
        if axioms:
            # first with ground instances of the axioms only
            gi = ground_axioms(raw, hs, g)
            if gi:
                qf = [h for h in hs if not any(x.op in t_.BIND for x in subterms(h))]
                if prop_unsat(qf + gi + [not_(g)]):
                    STATS['z3'] += 1
                    continue
                t1, _, dt = _z3(qf + gi, not_(g), 1.5, ematch=True)
                total += dt
                if t1 == z3.unsat:
                    STATS['z3'] += 1
                    continue
                r = _prove1(hs, g, min(timeout, 4), lem + gi, rounds, mono, proj, False)
                total += r.time_s
        if r is None or r.status != 'discharged':
            parts = ite_cases(g)
            if len(parts) > 1 and timeout > 4:
                # by cases on the conditionals of an equation
                r = _prove1(hs + list(axioms), g, 4, lem, rounds, mono, proj, False)
                total += r.time_s
                if r.status != 'discharged':
                    for cs, p in parts:
                        r = _prove1(hs + list(axioms) + cs, p, timeout, lem, rounds, mono, proj, use_cvc5)
                        total += r.time_s
                        if r.status != 'discharged':
                            break
            else:
                r = _prove1(hs + list(axioms), g, timeout, lem, rounds, mono, proj, use_cvc5)
                total += r.time_s
        if r.status != 'discharged':
            r.time_s = total
            return r
    return Result('discharged', 'z3', total)


def _prove1(hyps, goal, timeout, lemmas, rounds, mono, proj, use_cvc5):
    hyps = list(hyps)
    if any(x.op in ('count', 'sum') for x in subterms(goal)):
        goal = simplify_ites([h for h in hyps if not closed_aggs([h])], goal, {})
        if goal is t_.TRUE:
            return Result('discharged', 'z3', 0.0)
    ng = not_(goal)
    r = _attempt(hyps, ng, timeout, lemmas, rounds, mono, proj, use_cvc5, False)
    if r.status == 'discharged' or not closed_aggs([ng] + list(lemmas)) or rounds < 2:
        return r
    r2 = _attempt(hyps, ng, timeout, lemmas, rounds, True, proj, False, True)
    r2.time_s += r.time_s
    if r2.status == 'discharged':
        return r2
    if r.status == 'unknown' or r2.status == 'unknown':
        r2.status = 'unknown'
    return r2


def _attempt(hyps, ng, timeout, lemmas, rounds, mono, proj, use_cvc5, deep):
    extra = list(lemmas)
    done = set()
    gl = [ng] + list(lemmas)
    if deep:
        for c in closed_aggs(gl):
            p = peel(c)
            if p is not None:
                extra.append(p)
                gl.append(p)
        cs = closed_aggs(gl)
        for a, b in itertools.combinations(cs, 2):
            extra += list(shift_lemmas(a, b))
        if len(cs) <= 8:
            extra += list(union_lemmas(cs))
    for rnd in range(rounds):
        aggs = closed_aggs(gl)
        hy = closed_aggs(hyps)
        new = []
        cand = {c.id: c for c in aggs}
        allc = list({**{c.id: c for c in hy}, **cand}.values())
        for c in allc:
            if ('b', c.id) not in done:
                done.add(('b', c.id))
                new += list(basic_lemmas(c))
        for a in aggs:
            for b in allc:
                if a is b:
                    continue
                k = tuple(sorted((a.id, b.id)))
                if k in done:
                    continue
                done.add(k)
                if len(a.args[0]) == len(b.args[0]):
                    new += list(ext_lemmas(a, b, mono))
                elif proj:
                    new += list(proj_lemmas(a, b)) + list(proj_lemmas(b, a))
        if not new:
            break
        extra += new
        gl = gl + new
        if len(extra) > 400:
            break
    t = 0.0
    # pattern-based instantiation alone first, then with model-based instantiation
    r, s, dt = _z3(hyps + extra, ng, min(timeout, 5), ematch=True)
    t += dt
    if r == z3.unsat:
        STATS['z3'] += 1
        return Result('discharged', 'z3', t)
    r, s, dt = _z3(hyps + extra, ng, timeout)
    t += dt
    if r == z3.unsat:
        STATS['z3'] += 1
        return Result('discharged', 'z3', t)
    if r == z3.sat:
        return Result('failed', 'z3', t, 'sat; countermodel:\n' + model_text(s))
    why = s.reason_unknown()
    if use_cvc5:
        smt = s.to_smt2()
        rr, dt = _cvc5(smt, timeout)
        t += dt
        if rr == 'unsat':
            STATS['cvc5'] += 1
            return Result('discharged', 'cvc5', t)
        if rr == 'sat':
            return Result('failed', 'cvc5', t, 'sat (cvc5)')
    if 'timeout' in why or 'cancel' in why or 'resource' in why:
        return Result('unknown', 'z3+cvc5', t, f'unknown ({why})')
    return Result('failed', 'z3', t, f'not provable: unknown ({why}); candidate model:\n' + model_text(s))


def model_text(s):
    try:
        m = s.model()
        return '\n'.join(f'{d.name()} = {m[d]}' for d in list(m.decls())[:60])[:4000]
    except Exception as e:  # noqa
        return f'(no model: {e})'


def roles(t, v):
    """argument positions of function symbols in which v occurs"""
    return {(x.args[0], i) for x in subterms(t) if x.op == 'app' and v in x.fv for i, a in enumerate(x.args) if a is v}


class Cut:
    """intermediate assertion on subterms: a subterm proved equal to the specification f(vars) for all vars in dom is
    replaced by an uninterpreted function of vars there (a generalisation of the obligation, hence sound)"""
    def __init__(self, name, sorts, dom, spec, sort, ops=('ite', '/', 'div', '+')):
        self.name, self.sorts, self.dom, self.spec, self.sort, self.ops = name, list(sorts), dom, spec, sort, ops
        self.memo = {}
        self.time = 0.0
        vs = [t_.fresh(s, 'c') for s in self.sorts]
        self.params = self.spec(*vs).fv - set(vs)
        self.roles = [roles(self.spec(*vs), v) for v in vs]
        self.syms = {x.args[0] for x in subterms(self.spec(*vs)) if x.op == 'app'}

    def match(self, x, hyps, timeout=1.5):
        if not self.syms <= {y.args[0] for y in subterms(x) if y.op == 'app'}:
            return None
        # chosen elements stand for arbitrary ones
        back = {}

        def lift(y):
            if y.op == 'app' and isinstance(y.args[0], tuple) and y.args[0][0] in ('first', 'last', 'any') and not y.fv & opened:
                v = t_.var(f'@ch{y.id}', y.sort)
                back[v] = y
                return v
            return None
        opened = set()
        z = t_.rewrite(x, lift) if any(y.op == 'app' and isinstance(y.args[0], tuple) for y in subterms(x)) else x
        fvs = [v for v in z.fv if not t_.is_size(v) and v not in self.params]
        if sorted(v.sort for v in fvs) != sorted(self.sorts):
            return None
        rx = {v: roles(z, v) for v in fvs}
        for p in itertools.permutations(fvs):
            if [v.sort for v in p] != self.sorts or not all(rx[v] & r or not (rx[v] or r) for v, r in zip(p, self.roles)):
                continue
            ws = [t_.var(f'@cut{i}', s) for i, s in enumerate(self.sorts)]
            y = subst(z, dict(zip(p, ws)))
            k = y.id
            if k not in self.memo:
                r = prove(hyps + [self.dom(*ws)], t_.simp(eq(y, self.spec(*ws)), frozenset(a.id for a in t_._lits(self.dom(*ws), True))), timeout=timeout, use_cvc5=False, rounds=1)
                self.time += r.time_s
                self.memo[k] = r.status == 'discharged'
            if self.memo[k]:
                q = [back.get(v, v) for v in p]
                return t_.ite(self.dom(*q), t_.app(self.name, q, x.sort), t_.app(('opaque', k), q, x.sort))
        return None


def apply_cuts(ts, cuts, hyps):
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in ('var', 'c', 'lit'):
            return t
        r = None
        if t.sort in 'IR' and any(x.op in ('count', 'sum') for x in subterms(t)):
            for c in cuts:
                if c.sort == t.sort and t.op in c.ops:
                    r = c.match(t, hyps)
                    if r is not None:
                        break
        if r is None:
            if t.op in t_.BIND:
                o = open_(t)
                vs, bs = o[0], [go(b) for b in o[1:]]
                r = {'forall': t_.forall, 'exists': t_.exists, 'count': t_.count, 'sum': t_.sum_}[t.op](vs, *bs)
            else:
                args = [go(a) if isinstance(a, t_.T) else a for a in t.args]
                r = t if all(x is y for x, y in zip(args, t.args)) else t_.rebuild(t, args)
        memo[t.id] = r
        return r
    return [go(t) for t in ts]
