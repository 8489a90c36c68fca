"""Contracts of the metrics that need no LLM (ROUGE, BLEU), of compute_all, and of the wrappers around the vendors' clients.

The ROUGE, BLEU and tokenizer libraries and the vendors' clients are stand-ins that may return any value; the contracts hold whatever they return."""
from .base import *
from .text import *
from .text import C
from .manager import M, METHODS, evaluator

KINDS = ('rouge1', 'rouge2', 'rougeL', 'rougeLsum')
LISTS = (KINDS, ('rougeLsum', 'rouge1'), ('rouge2',), ())
B_ = 'valor_lite.text_generation.llm.integrations.'


class Rouge:
    """evaluate's ROUGE scorer: one score per prediction and type"""

    def __init__(self):
        self.st = HDict({'n': 0})

    def sym_attr(self, I, name):
        if name != 'compute':
            raise Unsupported(name)
        return self.compute

    def compute(self, I, predictions=None, references=None, rouge_types=None, use_stemmer=False, use_aggregator=True):
        I.heap_set(self.st, 'n', self.st['n'] + 1)
        p = predictions.concrete()
        q = references.concrete()
        if p is None or q is None or len(p) != 1 or len(q) != 1 or use_aggregator is not False:
            raise Unsupported('ROUGE of other than one prediction')
        self.asked = (p[0], q[0], use_stemmer)
        if I.decide(var('no_metrics', 'B')):
            return None
        return PyDict({k: PyList.of([app('rouge_score', (S(k),), 'R')]) for k in rouge_types.concrete()})


def pick(c, name, options):
    for i, o in enumerate(options[:-1]):
        if c.I.decide(var(f'{name}{i}', 'B')):
            return o
    return options[-1]


def rouge_value(k):
    x = app('rouge_score', (S(k),), 'R')
    return ite(lt(x, R0), R0, x)


box = {}


def load_rouge(I, name):
    if name != 'rouge':
        raise Unsupported(name)
    box['rouge'] = Rouge()
    return box['rouge']


@contract(C + 'calculate_rouge_scores', ['C19'], externals={'evaluate.load': load_rouge})
def txt_rouge_scores(c):
    kinds = pick(c, 'kinds', LISTS)
    refs = sym_strings('reference', c.size('n'))
    stem = var('stem', 'B')
    r = c.run(var('prediction', 'S'), refs, PyList.of(kinds), stem)
    a = box['rouge'].asked
    c.ensure('scores-this-response', and_(eq(a[0], var('prediction', 'S')) if isinstance(a[0], T) else FALSE, const(a[1] is refs), eq(term(a[2], 'B'), stem)))
    if c.I.decide(var('no_metrics', 'B')):
        c.ensure('nothing-without-metrics', const(not r.items and not r.updates))
        return
    c.ensure('one-score-per-type', const(tuple(r.items) == kinds and not r.updates))
    for k in kinds:
        c.ensure(f'score-is-the-scorers[{k}]', eq(term(r.items[k], 'R'), rouge_value(k)))
        c.ensure(f'score-not-negative[{k}]', le(R0, term(r.items[k], 'R')))


class Tokenizer:
    def sym_attr(self, I, name):
        if name != 'tokenize':
            raise Unsupported(name)
        return lambda I, text: app('tokens', (text,), 'S')


def tokens(text):
    return app('tokens', (text,), 'S')


def bleu_score(I, references=None, hypothesis=None, weights=None):
    box['bleu'] = (references, hypothesis, weights)
    return var('bleu_score', 'R')


@contract(C + 'calculate_sentence_bleu', ['C19'], externals={'nltk.tokenize.RegexpTokenizer': lambda I, *a, **k: Tokenizer(), 'nltk.translate.bleu_score.sentence_bleu': bleu_score})
def txt_sentence_bleu(c):
    n = c.size('n')
    refs = sym_strings('reference', n)
    w = pick(c, 'weights', (PyList.of([.25] * 4), PyList.of([1.0]), PyList.of([.5, .5]), PyList.of([])))
    box.pop('bleu', None)
    r, exc = c.attempt(var('prediction', 'S'), refs, w)
    if not w.parts:
        c.ensure('weights-required', const(exc == 'ValueError' and 'bleu' not in box))
        return
    c.only_raises(exc)
    if exc:
        return
    got, hyp, ww = box['bleu']
    c.ensure('scores-this-response', and_(eq(hyp, tokens(var('prediction', 'S'))) if isinstance(hyp, T) else FALSE, const(ww is w)))
    b = var('bleu_score', 'R')
    c.ensure('score-not-negative', le(R0, term(r, 'R')))
    c.ensure('score-is-the-scorers', implies(le(term(1e-9), b), eq(term(r, 'R'), b)))
    c.ensure('score-close-to-the-scorers', implies(le(R0, b), and_(le(term(r, 'R'), b), le(b, add(term(r, 'R'), term(1e-9))))))
    c.ensure('every-reference', eq(term(calls.b_len(c.I, got)), n))
    i = var('i', 'I')
    c.require(le(ZERO, i), lt(i, n))
    c.ensure('references-tokenized', eq(ops.getitem(c.I, got, i), tokens(app('reference', (i,), 'S'))))


# ------------------------------------------------------------------------------------------- methods of the evaluator
def query(c):
    q = Inst(c.func('valor_lite.text_generation.annotation.QueryResponse'))
    cx = Inst(c.func('valor_lite.text_generation.annotation.Context'))
    cx.attrs = HDict({'groundtruth': sym_strings('gt', c.size('n_gt')), 'prediction': sym_strings('pd', c.size('n_pd'))})
    none = c.I.decide(var('no_context', 'B'))
    q.attrs = HDict({'query': var('query', 'S'), 'response': var('response', 'S'), 'context': None if none else cx})
    return q, cx, none


def use_rouge(I, b):
    box['asked'] = b
    return PyDict({k: app('rouge_score', (S(k),), 'R') for k in b['rouge_types'].concrete()})


@contract(M + 'Evaluator.compute_rouge', ['C19', 'C22'], uses={C + 'calculate_rouge_scores': use_rouge})
def txt_compute_rouge(c):
    q, cx, none = query(c)
    kinds = pick(c, 'kinds', LISTS)
    stem = var('stem', 'B')
    r, exc = c.attempt(q, PyList.of(kinds), stem)
    if none:
        c.ensure('context-required', const(exc == 'ValueError'))
        return
    c.only_raises(exc)
    if exc:
        return
    b = box['asked']
    c.ensure('scores-this-response', and_(eq(b['prediction'], var('response', 'S')), const(b['references'] is cx.attrs['groundtruth']), eq(term(b['use_stemmer'], 'B'), stem)))
    ms = r.concrete()
    c.ensure('one-metric-per-type', const(ms is not None and len(ms) == len(kinds)))
    for k, m in zip(kinds, ms):
        c.ensure(f'metric[{k}]', and_(const(isinstance(m, Inst) and m.attrs['type'] == 'ROUGE' and m.attrs['parameters'].items['rouge_type'] == k),
                                      eq(term(m.attrs['value'], 'R'), app('rouge_score', (S(k),), 'R')), eq(term(m.attrs['parameters'].items['use_stemmer'], 'B'), stem)))


def use_bleu(I, b):
    box['asked'] = b
    return var('bleu_score', 'R')


@contract(M + 'Evaluator.compute_sentence_bleu', ['C19', 'C22'], uses={C + 'calculate_sentence_bleu': use_bleu})
def txt_compute_bleu(c):
    q, cx, none = query(c)
    given = c.I.decide(var('weights_given', 'B'))
    w = PyList.of([.5, .25, .25])
    r, exc = c.attempt(q, w) if given else c.attempt(q)
    if none:
        c.ensure('context-required', const(exc == 'ValueError'))
        return
    c.only_raises(exc)
    if exc:
        return
    b = box['asked']
    c.ensure('scores-this-response', and_(eq(b['prediction'], var('response', 'S')), const(b['references'] is cx.attrs['groundtruth'])))
    ws = [x.args[0] if isinstance(x, T) else x for x in b['weights'].concrete()]
    c.ensure('weights', const([float(x) for x in ws] == ([.5, .25, .25] if given else [.25] * 4)))
    c.ensure('metric', and_(const(isinstance(r, Inst) and r.attrs['type'] == 'BLEU' and r.attrs['parameters'].items['weights'] is b['weights']), eq(term(r.attrs['value'], 'R'), var('bleu_score', 'R'))))


def all_uses():
    def one(kind):
        def f(I, b):
            return Result(kind, b)
        return f
    out = {M + 'Evaluator.compute_' + k: one(k) for k in METHODS}
    out[M + 'Evaluator.compute_sentence_bleu'] = one('sentence_bleu')
    out[M + 'Evaluator.compute_rouge'] = lambda I, b: PyList.of([Result(('rouge', k), b) for k in b['rouge_types'].concrete()])
    return out


class Result:
    def __init__(self, kind, b):
        self.kind, self.b = kind, b


@contract(M + 'Evaluator.compute_all', ['C19', 'C20', 'C22'], uses=all_uses())
def txt_compute_all(c):
    q, cx, none = query(c)
    w, kinds, stem = PyList.of([.5, .5]), pick(c, 'kinds', LISTS), var('stem', 'B')
    ev = evaluator(c, c.size('retries'))
    r = c.run(ev, q, bleu_weights=w, rouge_types=PyList.of(kinds), rouge_use_stemmer=stem)
    got = {getattr(k, 'value', k): v for k, v in r.items.items()}
    want = {t: k for k, (t, _) in METHODS.items()}
    c.ensure('every-metric-reported', const(set(map(str, got)) == set(want) | {'ROUGE', 'BLEU'} and not r.updates))
    for t, kind in want.items():
        x = got[t].concrete()
        c.ensure(f'one-metric[{t}]', const(len(x) == 1 and isinstance(x[0], Result) and x[0].kind == kind and x[0].b.get('response') is q and x[0].b.get('self') is ev))
    x = got['BLEU'].concrete()
    c.ensure('bleu', const(len(x) == 1 and x[0].kind == 'sentence_bleu' and x[0].b['response'] is q and x[0].b['weights'] is w))
    x = got['ROUGE'].concrete()
    c.ensure('rouge', const([y.kind for y in x] == [('rouge', k) for k in kinds] and all(y.b['response'] is q and y.b['use_stemmer'] is stem for y in x)))


# ------------------------------------------------------------------------------------------- wrappers of the vendors' clients
class Bag:
    """an object with the given attributes"""

    def __init__(self, **kw):
        self.d = kw

    def sym_attr(self, I, name):
        if name not in self.d:
            raise PyRaise('AttributeError')
        return self.d[name]

    def sym_is(self, I, b):
        return FALSE

    def sym_truth(self, I):
        return True


def optional(I, name, v):
    return None if I.decide(var('no_' + name, 'B')) else v


def vendor(c, cls, path, make):
    """the wrapper around a client whose method at path answers with make(I)"""
    st = HDict({'n': 0})

    def api(I, model=None, messages=None, **kw):
        I.heap_set(st, 'n', st['n'] + 1)
        box['api'] = (model, messages, kw)
        return make(I)
    node = Bag(**{path[-1]: api})
    for p in reversed(path[:-1]):
        node = Bag(**{p: node})
    o = Inst(c.func(B_ + cls))
    o.attrs = HDict({'client': node, 'model_name': var('model', 'S'), 'seed': var('seed', 'I'), 'total_prompt_tokens': var('prompt0', 'I'), 'total_completion_tokens': var('completion0', 'I')})
    return o, st


def messages():
    return PyList.of([PyDict({'role': S('system'), 'content': var('system', 'S')}), PyDict({'role': S('user'), 'content': var('question', 'S')})])


def vendor_contract(c, cls, path, make, cut, empty):
    o, st = vendor(c, cls, path, make)
    ms = messages()
    r, exc = c.attempt(o, ms)
    c.ensure('one-request', const(st['n'] == 1))
    model, sent, kw = box['api']
    c.ensure('request', and_(eq(S(model), var('model', 'S')), const(sent is ms)))
    reason = var('finish_reason', 'S')
    truncated = or_(*[eq(reason, S(x)) for x in cut])
    if exc is not None:
        c.only_raises(exc, 'ValueError')
        c.ensure('error-only-if-incomplete', truncated)
        return None
    no = empty(c.I)
    if no:
        c.ensure('no-answer-is-empty', eq(S(r), S('')))
    else:
        c.ensure('incomplete-answer-raised', not_(truncated))
        c.ensure('answer-unchanged', eq(S(r), var('content', 'S')))
    return o, kw


@contract(B_ + 'OpenAIWrapper.__call__', ['C20'])
def txt_openai(c):
    def make(I):
        usage = optional(I, 'usage', Bag(prompt_tokens=var('prompt', 'I'), completion_tokens=var('completion', 'I')))
        m = Bag(content=optional(I, 'content', var('content', 'S')))
        return Bag(choices=PyList.of([Bag(message=m, finish_reason=var('finish_reason', 'S'))]), usage=usage)
    x = vendor_contract(c, 'OpenAIWrapper', ('chat', 'completions', 'create'), make, ('length', 'content_filter'), lambda I: I.decide(var('no_content', 'B')))
    if x is not None:
        o, kw = x
        c.ensure('seed-sent', eq(term(kw['seed']), var('seed', 'I')) if kw.get('seed') is not None else FALSE)
        f = ZERO if c.I.decide(var('no_usage', 'B')) else ONE
        c.ensure('prompt-tokens', eq(term(o.attrs['total_prompt_tokens']), add(var('prompt0', 'I'), mul(f, var('prompt', 'I')))))
        c.ensure('completion-tokens', eq(term(o.attrs['total_completion_tokens']), add(var('completion0', 'I'), mul(f, var('completion', 'I')))))


@contract(B_ + 'MistralWrapper.__call__', ['C20'])
def txt_mistral(c):
    def make(I):
        m = Bag(content=optional(I, 'content', var('content', 'S')))
        ch = PyList.of([Bag(message=optional(I, 'message', m), finish_reason=var('finish_reason', 'S'))])
        return optional(I, 'response', Bag(choices=optional(I, 'choices', ch)))
    vendor_contract(c, 'MistralWrapper', ('chat', 'complete'), make, ('length',), lambda I: any(I.decide(var('no_' + x, 'B')) for x in ('response', 'choices', 'message', 'content')))
