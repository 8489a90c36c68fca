"""Contracts of valor_lite.text_generation: LLM output validation, verdict proportions, retries."""
from .base import *
from vc.js import *
from vc import js

G = 'valor_lite.text_generation.llm.generation.'
V = 'valor_lite.text_generation.llm.validators.'
U = 'valor_lite.text_generation.llm.utilities.'
C = 'valor_lite.text_generation.computation.'
BAD = 'InvalidLLMResponseError'
R0, R1 = term(0.0), term(1.0)
YES = S('yes')


# ------------------------------------------------------------------------------------------- specification
def every(j, f):
    """f of every item of a JSON list"""
    i = fresh('I', 'i')
    return forall([i], implies(and_(le(ZERO, i), lt(i, j.len())), f(j.item(i))))


def valid_statements(r, key, allowed, n):
    x = r.get(key)
    return and_(r.is_('dict'), r.has(key), x.is_('list'), every(x, lambda v: v.is_('str')),
                TRUE if allowed is None else every(x, lambda v: or_(*[v.equals(a) for a in allowed])),
                TRUE if n is None else eq(x.len(), term(n)))


def valid_verdicts(r, key, allowed, n):
    x = r.get(key)

    def ok(v):
        return and_(v.is_('dict'), v.keys_are(['verdict', 'analysis']),
                    TRUE if allowed is None else or_(*[v.get('verdict').equals(a) for a in allowed]))
    return and_(r.is_('dict'), r.has(key), x.is_('list'), every(x, ok), TRUE if n is None else eq(x.len(), term(n)))


def use_validator(valid):
    """contract of a validator: returns exactly when the response is valid, otherwise raises"""
    def f(I, b):
        al = b['allowed_values']
        if I.decide(valid(b['response'], b['key'], None if al is None else [x for x in al.items], b['enforce_length'])):
            return None
        raise PyRaise(BAD)
    return f


USE_V = {V + 'validate_statements': use_validator(valid_statements), V + 'validate_verdicts': use_validator(valid_verdicts)}


def validator_contract(c, valid):
    """one path per combination of optional arguments"""
    r = Js(var('response', 'J'))
    c.require(r.is_('dict'))
    n = c.size('n')
    al = [None, ['yes', 'no'], ['yes', 'no', 'idk']][0 if c.I.decide(var('no_values', 'B')) else 1 if c.I.decide(var('two', 'B')) else 2]
    ln = None if c.I.decide(var('no_length', 'B')) else n
    c.require(le(ZERO, r.get('k').len()))
    _, exc = c.attempt(r, 'k', None if al is None else PySet(al), ln)
    ok = valid(r, 'k', al, ln)
    if exc is None:
        c.ensure('accepts-only-valid', ok)
    else:
        c.only_raises(exc, BAD)
        c.ensure('rejects-only-invalid', not_(ok))


@contract(V + 'validate_statements', ['C20'])
def txt_validate_statements(c):
    validator_contract(c, valid_statements)


@contract(V + 'validate_verdicts', ['C20'])
def txt_validate_verdicts(c):
    validator_contract(c, valid_verdicts)


TEXT_EXT = {'re.search': re_search, 'json.loads': json_loads}


@contract(U + 'trim_and_load_json', ['C20'], externals=TEXT_EXT)
def txt_load(c):
    r, exc = c.attempt(var('text', 'S'))
    c.only_raises(exc, BAD)
    if exc is None:
        c.ensure('result-is-a-dict', r.is_('dict') if isinstance(r, Js) else FALSE)


@contract(U + 'find_first_signed_integer', ['C20'], externals=TEXT_EXT)
def txt_integer(c):
    r, exc = c.attempt(var('text', 'S'))
    c.only_raises(exc)
    if exc is None and r is not None:
        c.ensure('result-is-an-integer', const(isinstance(r, int) or isinstance(r, T) and r.sort == 'I'))
        c.ensure('of-the-text', eq(term(r), app(('intval', r'-?\d+'), (), 'I')))


def load_summary(I, b):
    """contract txt_load"""
    if I.decide(var('not_json', 'B')):
        raise PyRaise(BAD)
    j = Js(app('loaded', (), 'J'))
    I.pc.append(j.is_('dict'))
    return j


def int_summary(I, b):
    """contract txt_integer"""
    return None if I.decide(var('no_integer', 'B')) else app('first_integer', (), 'I')


class Client:
    """LLM client: records the requests"""

    def __init__(self):
        self.st = HDict({'n': 0})

    def __call__(self, I, messages):
        I.heap_set(self.st, 'n', self.st['n'] + 1)
        self.last = messages
        return var('reply', 'S')

    def sym_attr(self, I, name):
        if name == 'model_name':
            return 'model'
        raise PyRaise('AttributeError')

    def sym_is(self, I, b):
        return FALSE

    def sym_truth(self, I):
        return True


FORMAT = {f'valor_lite.text_generation.llm.instructions.format_{x}': (lambda x: lambda I, b: Opaque('instruction ' + x))(x) for x in (
    'claims_instruction', 'opinions_instruction', 'statements_instruction', 'answer_correctness_verdicts_instruction', 'answer_relevance_verdicts_instruction',
    'bias_verdicts_instruction', 'context_precision_verdicts_instruction', 'context_recall_verdicts_instruction', 'context_relevance_verdicts_instruction',
    'faithfulness_verdicts_instruction', 'hallucination_verdicts_instruction', 'summary_coherence_instruction', 'toxicity_verdicts_instruction')}
USE_GEN = {**USE_V, **FORMAT, U + 'trim_and_load_json': load_summary, U + 'find_first_signed_integer': int_summary}


def one_request(c, cl):
    c.ensure('one-request', const(cl.st['n'] == 1))


def rejects_only(c, exc, invalid):
    """a reply is rejected only when it is not valid (otherwise a good reply costs a retry or the metric)"""
    if exc is not None:
        c.ensure('rejects-only-invalid', invalid)


NOT_JSON = var('not_json', 'B')


def generator_of_statements(name):
    @contract(G + f'generate_{name}', ['C20', 'C19'], uses=USE_GEN)
    def f(c):
        cl = Client()
        r, exc = c.attempt(cl, var('system', 'S'), var('text', 'S'))
        c.only_raises(exc, BAD)
        one_request(c, cl)
        if exc is None:
            j = Js(app('loaded', (), 'J')).get(name)
            c.ensure('list-of-text', and_(const(isinstance(r, Js)), j.is_('list'), every(j, lambda v: v.is_('str'))))
            c.ensure('of-the-reply', eq(r.h, j.h))
        rejects_only(c, exc, or_(NOT_JSON, not_(valid_statements(Js(app('loaded', (), 'J')), name, None, None))))
    f.__name__ = f'txt_gen_{name}'
    c = CONTRACTS.pop('f')
    c.name = f.__name__
    CONTRACTS[c.name] = c


for _n in ('claims', 'opinions', 'statements'):
    generator_of_statements(_n)

# generator -> (parameters, parameter whose length the reply must have, allowed verdicts)
VERDICTS = {
    'answer_relevance': (('query', 'statements*'), 'statements', ('yes', 'no', 'idk')),
    'bias': (('opinions*',), 'opinions', ('yes', 'no')),
    'context_precision': (('query', 'ordered_context_list*', 'groundtruth'), 'ordered_context_list', ('yes', 'no')),
    'context_recall': (('context_list*', 'groundtruth_statements*'), 'groundtruth_statements', ('yes', 'no')),
    'context_relevance': (('query', 'context_list*'), 'context_list', ('yes', 'no')),
    'faithfulness': (('claims*', 'context_list*'), 'claims', ('yes', 'no')),
    'hallucination': (('text', 'context_list*'), 'context_list', ('yes', 'no')),
    'toxicity': (('opinions*',), 'opinions', ('yes', 'no')),
}


def inputs(c, params):
    out = {}
    for p in params:
        if p.endswith('*'):
            out[p[:-1]] = sym_strings(p[:-1], c.size('n_' + p[:-1]))
        else:
            out[p] = var(p, 'S')
    return out


def generator_of_verdicts(name):
    params, ref, allowed = VERDICTS[name]

    @contract(G + f'generate_{name}_verdicts', ['C20', 'C19'], uses=USE_GEN)
    def f(c):
        cl = Client()
        kw = inputs(c, params)
        r, exc = c.attempt(cl, var('system', 'S'), **kw)
        c.only_raises(exc, BAD)
        one_request(c, cl)
        if exc is None:
            j = Js(app('loaded', (), 'J')).get('verdicts')
            c.ensure('of-the-reply', eq(r.h, j.h) if isinstance(r, Js) else FALSE)
            c.ensure('one-verdict-each', and_(j.is_('list'), eq(j.len(), var_size('n_' + ref))))
            c.ensure('verdicts-allowed', every(j, lambda v: and_(v.is_('dict'), v.has('verdict'), or_(*[v.get('verdict').equals(a) for a in allowed]))))
        rejects_only(c, exc, or_(NOT_JSON, not_(valid_verdicts(Js(app('loaded', (), 'J')), 'verdicts', allowed, var_size('n_' + ref)))))
    c = CONTRACTS.pop('f')
    c.name = f'txt_gen_{name}_verdicts'
    CONTRACTS[c.name] = c


def var_size(n):
    return t_.size_var(n)


for _n in VERDICTS:
    generator_of_verdicts(_n)


@contract(G + 'generate_answer_correctness_verdicts', ['C20', 'C19'], uses=USE_GEN)
def txt_gen_correctness(c):
    cl = Client()
    kw = inputs(c, ('query', 'prediction_statements*', 'groundtruth_statements*'))
    r, exc = c.attempt(cl, var('system', 'S'), **kw)
    c.only_raises(exc, BAD)
    one_request(c, cl)
    if exc is None:
        j = Js(app('loaded', (), 'J'))
        c.ensure('of-the-reply', eq(r.h, j.h) if isinstance(r, Js) else FALSE)
        c.ensure('lists-of-text', and_(*[and_(j.has(k), j.get(k).is_('list'), every(j.get(k), lambda v: v.is_('str'))) for k in ('TP', 'FP', 'FN')]))
        c.ensure('predictions-partitioned', eq(add(j.get('TP').len(), j.get('FP').len()), var_size('n_prediction_statements')))
        c.ensure('missed-groundtruths', le(j.get('FN').len(), var_size('n_groundtruth_statements')))
    j = Js(app('loaded', (), 'J'))
    rejects_only(c, exc, or_(NOT_JSON, *[not_(valid_statements(j, k, None, None)) for k in ('TP', 'FP', 'FN')],
                             ne(add(j.get('TP').len(), j.get('FP').len()), var_size('n_prediction_statements')),
                             lt(var_size('n_groundtruth_statements'), j.get('FN').len())))


@contract(G + 'generate_summary_coherence', ['C20', 'C19'], uses=USE_GEN)
def txt_gen_coherence(c):
    cl = Client()
    r, exc = c.attempt(cl, var('system', 'S'), var('text', 'S'), var('summary', 'S'))
    c.only_raises(exc, BAD)
    one_request(c, cl)
    if exc is None:
        r = term(r) if r is not None else const(-1)
        c.ensure('between-1-and-5', and_(le(ONE, r), le(r, const(5))))
        c.ensure('of-the-reply', eq(r, app('first_integer', (), 'I')))
    v = app('first_integer', (), 'I')
    rejects_only(c, exc, or_(var('no_integer', 'B'), lt(v, ONE), lt(const(5), v)))


# ------------------------------------------------------------------------------------------- scores
# The LLM is an arbitrary function of what it is asked; its replies satisfy the contracts of the generators above.
def ask(kind, *args):
    """name and arguments of the reply to a request about these texts and lists"""
    name, out = [kind], []
    for a in args:
        if isinstance(a, str):
            a = S(a)
        if isinstance(a, T):
            out.append(a)
        else:
            k, xs = list_key(a)
            name.append(k)
            out += xs
    return tuple(name), tuple(out)


def statements_of(kind, text):
    """list of statements/claims/opinions extracted from a text"""
    text = S(text)
    return sym_strings(kind, app(('n', kind), (text,), 'I'), text)


def use_statements(kind):
    def f(I, b):
        t = S(b['text'])
        if I.decide(app(('bad', kind), (t,), 'B')):
            raise PyRaise(BAD)
        I.axiom(le(ZERO, app(('n', kind), (t,), 'I')), [('n', kind)])
        return statements_of(kind, t)
    return f


def verdict(kind, args, i):
    nm, xs = ask(kind, *args)
    return app(('verdict', nm), (*xs, i), 'S')


def use_verdicts(kind):
    params, ref, allowed = VERDICTS[kind]

    def f(I, b):
        args = [b[p.rstrip('*')] for p in params]
        nm, xs = ask(kind, *args)
        if I.decide(app(('bad', nm), xs, 'B')):
            raise PyRaise(BAD)
        i = fresh('I', 'i')
        n = term(ops.list_len(I, b[ref]))
        v = app(('verdict', nm), (*xs, i), 'S')
        I.axiom(or_(*[eq(v, S(a)) for a in allowed]), [('verdict', nm)])
        return seq(i, n, PyDict({'verdict': v, 'analysis': Opaque('analysis')}))
    return f


def correctness(args, k):
    nm, xs = ask('correctness', *args)
    return app(('n', k, nm), xs, 'I')


def use_correctness(I, b):
    args = [b[k] for k in ('query', 'prediction_statements', 'groundtruth_statements')]
    nm, xs = ask('correctness', *args)
    if I.decide(app(('bad', nm), xs, 'B')):
        raise PyRaise(BAD)
    n = {k: app(('n', k, nm), xs, 'I') for k in ('TP', 'FP', 'FN')}
    for k in n:
        I.axiom(le(ZERO, n[k]), [('n', k, nm)])
    I.axiom(eq(add(n['TP'], n['FP']), term(ops.list_len(I, args[1]))), [('n', 'TP', nm), ('n', 'FP', nm)])
    I.axiom(le(n['FN'], term(ops.list_len(I, args[2]))), [('n', 'FN', nm)])
    return PyDict({k: sym_strings((k, nm), n[k], *xs) for k in n})


USE_LLM = {**{G + f'generate_{k}': use_statements(k) for k in ('claims', 'opinions', 'statements')},
           **{G + f'generate_{k}_verdicts': use_verdicts(k) for k in VERDICTS}, G + 'generate_answer_correctness_verdicts': use_correctness,
           G + 'generate_summary_coherence': lambda I, b: coherence(I, b)}


def coherence(I, b):
    xs = (S(b['text']), S(b['summary']))
    if I.decide(app('bad_coherence', xs, 'B')):
        raise PyRaise(BAD)
    v = app('coherence', xs, 'I')
    I.axiom(and_(le(ONE, v), le(v, const(5))), ['coherence'])
    return v


def in_range(c, r):
    c.ensure('between-0-and-1', and_(le(R0, term(r, 'R')), le(term(r, 'R'), R1)))


def share(n, f):
    """proportion of 0..n-1 satisfying f"""
    i = fresh('I', 'i')
    return div(count([i], and_(le(ZERO, i), lt(i, n), f(i))), n)


def proportion(c, r, n, kind, args, what='yes'):
    c.ensure('proportion', implies(lt(ZERO, n), eq(term(r, 'R'), share(n, lambda i: eq(verdict(kind, args, i), S(what))))))


@contract(C + 'calculate_answer_correctness', ['C19', 'C20'], uses=USE_LLM)
def txt_answer_correctness(c):
    q, resp = var('query', 'S'), var('response', 'S')
    n = c.size('n')
    r, exc = c.attempt(Client(), var('system', 'S'), q, resp, sym_strings('gts', n))
    c.only_raises(exc, BAD)
    if exc is None:
        g = fresh('I', 'g')
        dom = and_(le(ZERO, g), lt(g, n))
        t, f, m = (correctness((q, statements_of('statements', resp), statements_of('statements', app('gts', (g,), 'S'))), k) for k in ('TP', 'FP', 'FN'))
        f1 = ite(lt(ZERO, t), div(t, add(t, mul(term(0.5), add(f, m)))), R0)
        r = term(r, 'R')
        c.ensure('at-least-zero', le(R0, r))
        c.skolem('best-groundtruth', [g], dom, le(f1, r))
        c.ensure('attained', or_(eq(r, R0), exists([g], and_(dom, eq(r, f1)))))
        in_range(c, r)


@contract(C + 'calculate_answer_relevance', ['C19', 'C20'], uses=USE_LLM)
def txt_answer_relevance(c):
    q, resp = var('query', 'S'), var('response', 'S')
    r, exc = c.attempt(Client(), var('system', 'S'), q, resp)
    c.only_raises(exc, BAD)
    if exc is None:
        n = app(('n', 'statements'), (resp,), 'I')
        proportion(c, r, n, 'answer_relevance', (q, statements_of('statements', resp)))
        c.ensure('nothing-said', implies(eq(n, ZERO), eq(term(r, 'R'), R0)))
        in_range(c, r)


def opinions_contract(kind):
    def f(c):
        resp = var('response', 'S')
        r, exc = c.attempt(Client(), var('system', 'S'), resp)
        c.only_raises(exc, BAD)
        if exc is None:
            n = app(('n', 'opinions'), (resp,), 'I')
            proportion(c, r, n, kind, (statements_of('opinions', resp),))
            c.ensure('nothing-said', implies(eq(n, ZERO), eq(term(r, 'R'), R0)))
            in_range(c, r)
    f.__name__ = 'txt_' + kind
    contract(C + 'calculate_' + kind, ['C19', 'C20'], uses=USE_LLM)(f)


opinions_contract('bias')
opinions_contract('toxicity')


@contract(C + 'calculate_context_precision', ['C19', 'C20'], uses=USE_LLM)
def txt_context_precision(c):
    q = var('query', 'S')
    n, m = c.size('n'), c.size('m')
    pc, gc = sym_strings('ctx', n), sym_strings('gts', m)
    r, exc = c.attempt(Client(), var('system', 'S'), q, pc, gc)
    c.only_raises(exc, BAD)
    if exc is None:
        r = term(r, 'R')
        g, i, j = fresh('I', 'g'), fresh('I', 'i'), fresh('I', 'j')
        rel = lambda x: exists([g], and_(le(ZERO, g), lt(g, m), eq(verdict('context_precision', (q, pc, app('gts', (g,), 'S')), x), YES)))
        inn = lambda x: and_(le(ZERO, x), lt(x, n))
        c.ensure('both-empty', implies(and_(eq(n, ZERO), eq(m, ZERO)), eq(r, R1)))
        c.ensure('one-empty', implies(and_(or_(eq(n, ZERO), eq(m, ZERO)), ne(n, m)), eq(r, R0)))
        some = exists([i], and_(inn(i), rel(i)))
        both = and_(lt(ZERO, n), lt(ZERO, m))
        c.ensure('none-relevant', implies(and_(both, not_(some)), eq(r, R0)))
        at_k = div(count([j], and_(le(ZERO, j), le(j, i), rel(j))), add(i, ONE))
        c.ensure('mean-precision-at-k', implies(and_(both, some), eq(r, div(sum_([i], and_(inn(i), rel(i)), at_k), count([i], and_(inn(i), rel(i)))))))


@contract(C + 'calculate_context_recall', ['C19', 'C20'], uses=USE_LLM)
def txt_context_recall(c):
    n, m = c.size('n'), c.size('m')
    pc, gc = sym_strings('ctx', n), sym_strings('gts', m)
    r, exc = c.attempt(Client(), var('system', 'S'), pc, gc)
    c.only_raises(exc, BAD)
    if exc is None:
        r = term(r, 'R')
        g, i = fresh('I', 'g'), fresh('I', 'i')
        txt = app('gts', (g,), 'S')
        st = app(('n', 'statements'), (txt,), 'I')
        v = verdict('context_recall', (pc, statements_of('statements', txt)), i)
        sc = ite(lt(ZERO, st), div(count([i], and_(le(ZERO, i), lt(i, st), eq(v, YES))), st), R0)
        dom = and_(le(ZERO, g), lt(g, m))
        c.ensure('both-empty', implies(and_(eq(n, ZERO), eq(m, ZERO)), eq(r, R1)))
        c.ensure('one-empty', implies(and_(or_(eq(n, ZERO), eq(m, ZERO)), ne(n, m)), eq(r, R0)))
        both = and_(lt(ZERO, n), lt(ZERO, m))
        c.skolem('best-groundtruth', [g], and_(both, dom), le(sc, r))
        c.ensure('attained', implies(both, exists([g], and_(dom, eq(r, sc)))))


@contract(C + 'calculate_context_relevance', ['C19', 'C20'], uses=USE_LLM)
def txt_context_relevance(c):
    q, n = var('query', 'S'), c.size('n')
    ctx = sym_strings('ctx', n)
    r, exc = c.attempt(Client(), var('system', 'S'), q, ctx)
    c.only_raises(exc, BAD)
    if exc is None:
        proportion(c, r, n, 'context_relevance', (q, ctx))
        c.ensure('no-context', implies(eq(n, ZERO), eq(term(r, 'R'), R0)))
        in_range(c, r)


@contract(C + 'calculate_faithfulness', ['C19', 'C20'], uses=USE_LLM)
def txt_faithfulness(c):
    resp, n = var('response', 'S'), c.size('n')
    ctx = sym_strings('ctx', n)
    r, exc = c.attempt(Client(), var('system', 'S'), resp, ctx)
    c.only_raises(exc, BAD)
    if exc is None:
        k = app(('n', 'claims'), (resp,), 'I')
        r = term(r, 'R')
        c.ensure('no-context', implies(eq(n, ZERO), eq(r, R0)))
        c.ensure('no-claims', implies(and_(lt(ZERO, n), eq(k, ZERO)), eq(r, R1)))
        c.ensure('proportion', implies(and_(lt(ZERO, n), lt(ZERO, k)), eq(r, share(k, lambda i: eq(verdict('faithfulness', (statements_of('claims', resp), ctx), i), YES)))))
        in_range(c, r)


@contract(C + 'calculate_hallucination', ['C19', 'C20'], uses=USE_LLM)
def txt_hallucination(c):
    resp, n = var('response', 'S'), c.size('n')
    ctx = sym_strings('ctx', n)
    r, exc = c.attempt(Client(), var('system', 'S'), resp, ctx)
    c.only_raises(exc, BAD, 'ValueError')
    if exc == 'ValueError':
        c.ensure('only-without-context', eq(n, ZERO))
    if exc is None:
        proportion(c, r, n, 'hallucination', (resp, ctx))
        in_range(c, r)


@contract(C + 'calculate_summary_coherence', ['C19', 'C20'], uses=USE_LLM)
def txt_coherence(c):
    a, b = var('text', 'S'), var('response', 'S')
    r, exc = c.attempt(Client(), var('system', 'S'), a, b)
    c.only_raises(exc, BAD)
    if exc is None:
        c.ensure('reply', eq(term(r), app('coherence', (a, b), 'I')))
        c.ensure('between-1-and-5', and_(le(ONE, term(r)), le(term(r), const(5))))
