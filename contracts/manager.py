"""Contracts of the text-generation evaluator: retries and the metric returned by every compute_* method."""
from .base import *
from .text import *
from .text import BAD, C

M = 'valor_lite.text_generation.manager.'


class Ghost:
    """counts the evaluations of the metric; attempt k is rejected when bad(k)"""

    def __init__(self):
        self.st = HDict({'n': const(0)})

    def attempt(self, I, result):
        k = self.st['n']
        I.heap_set(self.st, 'n', add(k, ONE))
        if I.decide(app('bad_attempt', (k,), 'B')):
            raise PyRaise(BAD, ExcVal(BAD, app('message', (k,), 'S')))
        return result(k)


class Fn:
    """the decorated method: an arbitrary function"""

    def __init__(self, g):
        self.g = g

    def __call__(self, I, *a, **kw):
        if I.decide(app('crash', (self.g.st['n'],), 'B')):
            I.heap_set(self.g.st, 'n', add(self.g.st['n'], ONE))
            raise PyRaise('RuntimeError')
        return self.g.attempt(I, lambda k: app('value', (k,), 'R'))

    def sym_attr(self, I, name):
        return 'metric' if name == '__name__' else Opaque(name)


def evaluator(c, retries):
    cls = c.func(M + 'Evaluator')
    o = Inst(cls)
    o.attrs = HDict({'client': Client(), 'retries': retries, 'default_system_prompt': var('system', 'S')})
    return o


def bad(k):
    return app('bad_attempt', (k,), 'B')


def attempts(c, g, r, retries, good):
    """first accepted attempt decides; at most 1 + retries attempts; otherwise an error metric for the last failure"""
    n = g.st['n']
    i = fresh('I', 'i')
    inn = and_(le(ZERO, i), le(i, retries))
    some = exists([i], and_(inn, not_(bad(i))))
    c.ensure('attempts-bounded', le(n, add(retries, ONE)))
    c.ensure('at-least-one-attempt', lt(ZERO, n))
    last = sub(n, ONE)
    c.ensure('earlier-attempts-failed', forall([i], implies(and_(le(ZERO, i), lt(i, last)), bad(i))))
    is_err = isinstance(r, Inst) and r.cls.name == 'Metric' and r.attrs['type'] == 'Error'
    if is_err:
        c.ensure('error-only-if-all-fail', and_(eq(n, add(retries, ONE)), forall([i], implies(inn, bad(i)))))
        v, p = r.attrs['value'], r.attrs['parameters']
        c.ensure('error-type', const(isinstance(v, PyDict) and list(v.items) == ['type', 'message'] and v.items['type'] == BAD))
        c.ensure('error-message', eq(S(v.items['message']), app('message', (last,), 'S')) if isinstance(v.items['message'], T) else FALSE)
        c.ensure('error-parameters', and_(const(p.items['evaluator'] == 'model'), eq(term(p.items['retries']), retries)))
    else:
        c.ensure('success-is-accepted', not_(bad(last)))
        good(last)


@contract(M + 'llm_guided_metric', ['C20'])
def txt_retry(c):
    g = Ghost()
    retries = c.size('retries')
    w = c.run(Fn(g))
    try:
        r, exc = calls.call(c.I, w, [evaluator(c, retries)], {}), None
    except PyRaise as e:
        r, exc = None, e.exc
    c.only_raises(exc, 'RuntimeError')
    if exc is not None:
        n, i = g.st['n'], fresh('I', 'i')
        c.ensure('other-errors-not-retried', and_(app('crash', (sub(n, ONE),), 'B'), le(n, add(retries, ONE)),
                                                  forall([i], implies(and_(le(ZERO, i), lt(i, sub(n, ONE))), and_(bad(i), not_(app('crash', (i,), 'B')))))))
        return
    attempts(c, g, r, retries, lambda last: c.ensure('returns-accepted', eq(r, app('value', (last,), 'R')) if isinstance(r, T) else FALSE))


# method -> (metric type, arguments of the computation, needs context)
METHODS = {
    'answer_correctness': ('AnswerCorrectness', ('query', 'response', 'groundtruths')),
    'answer_relevance': ('AnswerRelevance', ('query', 'response')),
    'bias': ('Bias', ('response',)),
    'context_precision': ('ContextPrecision', ('query', 'predicted_context', 'groundtruth_context')),
    'context_recall': ('ContextRecall', ('predicted_context', 'groundtruth_context')),
    'context_relevance': ('ContextRelevance', ('query', 'context')),
    'faithfulness': ('Faithfulness', ('response', 'context')),
    'hallucination': ('Hallucination', ('response', 'context')),
    'summary_coherence': ('SummaryCoherence', ('text', 'summary')),
    'toxicity': ('Toxicity', ('response',)),
}
NEEDS_CONTEXT = ('groundtruths', 'predicted_context', 'groundtruth_context', 'context')


def method_contract(kind):
    mtype, params = METHODS[kind]
    box = {}

    def score(k, args):
        nm, xs = ask(kind, *args)
        return app(('score', nm), (k, *xs), 'R')

    def use(I, b):
        if not isinstance(b['client'], Client) or b['system_prompt'] is not var('system', 'S'):
            raise Unsupported('client or prompt of another evaluator')
        return box['g'].attempt(I, lambda k: score(k, [b[p] for p in params]))

    def f(c):
        g = box['g'] = Ghost()
        retries = c.size('retries')
        q = Inst(c.func('valor_lite.text_generation.annotation.QueryResponse'))
        cx = Inst(c.func('valor_lite.text_generation.annotation.Context'))
        gt, pd = sym_strings('gt', c.size('n_gt')), sym_strings('pd', c.size('n_pd'))
        cx.attrs = HDict({'groundtruth': gt, 'prediction': pd})
        none = c.I.decide(var('no_context', 'B'))
        q.attrs = HDict({'query': var('query', 'S'), 'response': var('response', 'S'), 'context': None if none else cx})
        f_ = calls.getattr_(c.I, evaluator(c, retries), 'compute_' + kind)
        c.pre = list(c.I.pc)
        try:
            r, exc = calls.call(c.I, f_, [q], {}), None
        except PyRaise as e:
            r, exc = None, e.exc
        if none and any(p in NEEDS_CONTEXT for p in params):
            c.ensure('context-required', const(exc == 'ValueError'))
            c.ensure('nothing-requested', eq(g.st['n'], ZERO))
            return
        c.only_raises(exc)
        if exc is not None:
            return
        vals = {'query': var('query', 'S'), 'response': var('response', 'S'), 'groundtruths': gt, 'predicted_context': pd, 'groundtruth_context': gt,
                'context': pd, 'text': var('query', 'S'), 'summary': var('response', 'S')}

        def good(last):
            ok = isinstance(r, Inst) and r.cls.name == 'Metric'
            t = r.attrs['type'] if ok else None
            c.ensure('metric-type', const(ok and t == mtype))
            c.ensure('metric-value', eq(term(r.attrs['value'], 'R'), score(last, [vals[p] for p in params])))
            p = r.attrs['parameters']
            c.ensure('metric-parameters', and_(const(p.items['evaluator'] == 'model'), eq(term(p.items['retries']), retries)))
        attempts(c, g, r, retries, good)
    f.__name__ = 'txt_compute_' + kind
    contract(M + 'Evaluator.compute_' + kind, ['C19', 'C20'], uses={C + 'calculate_' + kind: use})(f)


for _k in METHODS:
    method_contract(_k)
