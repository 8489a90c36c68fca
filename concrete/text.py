"""Text generation: scripted LLM client and independent scores."""
import json
from fractions import Fraction as F
from common import *

ITEM = {'statements': 'statements', 'claims': 'claims', 'opinions': 'opinions'}
METRICS = ['answer_correctness', 'answer_relevance', 'bias', 'context_precision', 'context_recall', 'context_relevance', 'faithfulness', 'hallucination', 'summary_coherence', 'toxicity']
TYPE = {'answer_correctness': 'AnswerCorrectness', 'answer_relevance': 'AnswerRelevance', 'bias': 'Bias', 'context_precision': 'ContextPrecision', 'context_recall': 'ContextRecall',
        'context_relevance': 'ContextRelevance', 'faithfulness': 'Faithfulness', 'hallucination': 'Hallucination', 'summary_coherence': 'SummaryCoherence', 'toxicity': 'Toxicity'}
KEY = {'answer_correctness': 'statements', 'answer_relevance': 'statements', 'bias': 'opinions', 'context_recall': 'statements', 'faithfulness': 'claims', 'toxicity': 'opinions'}


class Plan:
    """one query with fixed LLM opinions about it, and the score they mean"""

    def __init__(self, rng, metric, size):
        self.rng, self.metric = rng, metric
        n = lambda: rng.choice([0, 1, 1, 2, 3, size + 1]) if rng.random() < .9 else rng.randint(4, 20)
        self.ngt, self.nctx = n(), n()
        if metric == 'hallucination':
            self.nctx = max(1, self.nctx)
        self.response = 'zzRESPzz'
        self.gts = [f'zzGT{i}zz' for i in range(self.ngt)]
        self.ctx = [f'zzCTX{i}zz' for i in range(self.nctx)]
        self.items = {t: [f'zzIT_{t[2:-2]}_{j}zz' for j in range(n())] for t in [self.response] + self.gts}
        v = ['yes', 'no', 'idk'] if metric == 'answer_relevance' else ['yes', 'no']
        p = rng.choice([.1, .5, .9])
        vs = lambda k: [('yes' if rng.random() < p else rng.choice(v[1:])) for _ in range(k)]
        self.verd = {t: vs(len(self.items[t])) for t in self.items}      # per judged item list
        self.ctxv = vs(self.nctx)
        self.prec = {t: vs(self.nctx) for t in self.gts}
        self.ac = {}
        for t in self.gts:
            k = len(self.items[self.response])
            tp = rng.randint(0, k)
            self.ac[t] = (tp, k - tp, rng.randint(0, len(self.items[t])))
        empties = [t for t in self.gts if not self.items[t]]
        for t in empties:
            self.ac[t] = self.ac[empties[0]]
        self.coh = rng.randint(1, 5)

    def score(self):
        frac = lambda vs: F(sum(x == 'yes' for x in vs), len(vs)) if vs else F(0)
        m = self.metric
        if m in ('answer_relevance', 'bias', 'toxicity'):
            return frac(self.verd[self.response])
        if m == 'faithfulness':
            return F(0) if not self.ctx else F(1) if not self.items[self.response] else frac(self.verd[self.response])
        if m in ('context_relevance', 'hallucination'):
            return frac(self.ctxv)
        if m in ('context_precision', 'context_recall'):
            if not self.ctx and not self.gts:
                return F(1)
            if not self.ctx or not self.gts:
                return F(0)
            if m == 'context_recall':
                return max(frac(self.verd[t]) for t in self.gts)
            use = [any(self.prec[t][i] == 'yes' for t in self.gts) for i in range(self.nctx)]
            ps = [F(sum(use[:k + 1]), k + 1) for k in range(self.nctx) if use[k]]
            return sum(ps, F(0)) / len(ps) if ps else F(0)
        if m == 'answer_correctness':
            best = F(0)
            for t in self.gts:
                tp, fp, fn = self.ac[t]
                if tp:
                    best = max(best, F(2 * tp, 2 * tp + fp + fn))
            return best
        return self.coh

    def reply(self, prompt):
        """(kind, object) answering this prompt; kinds: items, verdicts, ac, score"""
        m = self.metric
        V = lambda vs: ('verdicts', {'verdicts': [{'verdict': x, 'analysis': 'a'} for x in vs]})
        if m == 'summary_coherence':
            return 'score', self.coh
        if m in ('context_relevance', 'hallucination'):
            return V(self.ctxv)
        if m == 'context_precision':
            t = [g for g in self.gts if g in prompt]
            return V(self.prec[t[0]])
        owners = [t for t in self.items if any(i in prompt for i in self.items[t])]
        if m == 'answer_correctness':
            texts = [t for t in self.items if t in prompt]
            if texts and not owners:
                return 'items', {'statements': self.items[texts[0]]}
            g = [t for t in owners if t != self.response] or [t for t in self.gts if not self.items[t]] or self.gts
            tp, fp, fn = self.ac[g[0]]
            return 'ac', {'TP': ['x'] * tp, 'FP': ['x'] * fp, 'FN': ['x'] * fn}
        if owners:
            return V(self.verd[owners[0]])
        texts = [t for t in self.items if t in prompt]
        if not texts or (m == 'context_recall' and any(c in prompt for c in self.ctx)):
            return V([])
        return 'items', {KEY[m]: self.items[texts[0]]}

    def query(self):
        from valor_lite.text_generation import QueryResponse, Context
        ctx = Context(groundtruth=list(self.gts), prediction=list(self.ctx))
        return QueryResponse(query='zzQUERYzz', response=self.response, context=ctx)

    def __repr__(self):
        return json.dumps({k: v for k, v in self.__dict__.items() if k != 'rng'})


def wrap(rng, kind, obj):
    """a well-formed response text"""
    if kind == 'score':
        return rng.choice([f'{obj}', f'Score: {obj}', f'{obj}/5', f' {obj}. good, 9 points', f'{obj}.7'])
    s = json.dumps(obj, indent=rng.choice([None, 2]))
    return rng.choice([s, f'Sure! {s} done', f'```json\n{s}\n```', '\n' + s + '\n'])


def corrupt(rng, kind, obj, plan):
    """a malformed response text of the same kind"""
    if kind == 'score':
        return rng.choice(['none', '', '0', '6', '-1', '-3 of 5', '10', '42 out of 100', 'score 55', 'NaN', '-5', 'minus', '00', '12345678901234567890'])
    o = json.loads(json.dumps(obj))
    opts = ['text', 'brackets', 'notjson', 'two', 'missing', 'type', 'case', 'empty']
    key = rng.choice(sorted(o))
    if kind == 'items' or kind == 'ac':
        opts += ['nonstr']
    if kind == 'ac':
        opts += ['count', 'count', 'fn']
    if kind == 'verdicts':
        opts += ['len', 'len']
        if o[key]:
            opts += ['entry', 'nokey', 'noverdict', 'extra', 'value', 'value', 'value']
    c = rng.choice(opts)
    if c == 'text':
        return 'I cannot help with that.'
    if c == 'empty':
        return ''
    if c == 'brackets':
        return json.dumps(o).replace('{', '(').replace('}', ')')
    if c == 'notjson':
        return rng.choice(['{' + 'verdicts: yes}', json.dumps(o)[:-1] + ',}', "{'verdicts': []}", '{]}', json.dumps(o).replace(':', '=', 1)])
    if c == 'two':
        return json.dumps(o) + ' and ' + json.dumps(o)
    if c == 'missing':
        o.pop(key)
    elif c == 'case':
        o[key.swapcase()] = o.pop(key)
    elif c == 'type':
        o[key] = rng.choice([None, 'yes', 3, {'0': 'a'}, True, {}, ''])
    elif c == 'nonstr':
        o[key] = o[key] + [rng.choice([None, 1, ['x'], {'a': 'b'}, True, 1.5])]
    elif c == 'count':
        k = rng.choice(['TP', 'FP'])
        o[k] = o[k] + ['x'] if rng.random() < .5 or not o[k] else o[k][:-1]
    elif c == 'fn':
        o['FN'] = o['FN'] + ['x'] * 200
    elif c == 'len':
        o[key] = o[key][:-1] if o[key] and rng.random() < .5 else o[key] + [{'verdict': 'yes', 'analysis': 'a'}]
    else:
        i = rng.randrange(len(o[key]))
        e = o[key][i]
        if c == 'entry':
            o[key][i] = rng.choice(['yes', None, ['verdict', 'analysis'], 1, True])
        elif c == 'nokey':
            e.pop('analysis')
        elif c == 'noverdict':
            e.pop('verdict')
        elif c == 'extra':
            e['score'] = 1
        else:
            bad = ['Yes', 'YES', 'no ', '', 'maybe', None, True, 1, ['yes'], {'yes': 1}, 'y', 'yesno', 'true', 0.5, 'unsure']
            if plan.metric != 'answer_relevance':
                bad += ['idk', 'idk']
            e['verdict'] = rng.choice(bad)
    return wrap(rng, 'items', o)


class Client:
    model_name = 'mock'

    def __init__(self, plan, script=None, exc=None):
        self.plan, self.script, self.exc = plan, script, exc
        self.calls, self.bad, self.log = 0, 0, []

    def __call__(self, messages):
        self.calls += 1
        kind, obj = self.plan.reply('\n'.join(m['content'] for m in messages if m['role'] != 'system'))
        if self.exc is not None and self.calls == self.exc[0]:
            raise self.exc[1]
        if self.script and self.script(self.calls):
            self.bad += 1
            t = corrupt(self.plan.rng, kind, obj, self.plan)
            self.log.append(('bad', kind, t[:300]))
            return t
        self.log.append(('ok', kind))
        return wrap(self.plan.rng, kind, obj)


def run(ev, metric, q):
    f = getattr(ev, f'compute_{metric}', None)
    if f is None:
        raise Skip(metric)
    return f(q)


def value_ok(m, plan, what='score'):
    w = plan.score()
    expect_eq(getattr(m.type, 'value', m.type), TYPE[plan.metric], f'{plan.metric}: type', value=m.value, plan=plan)
    expect_close(float(m.value), float(w), f'{plan.metric}: {what}', plan=plan)
    if plan.metric == 'summary_coherence':
        expect(m.value in (1, 2, 3, 4, 5) and isinstance(m.value, int), 'coherence in 1..5')
    else:
        expect(0 <= m.value <= 1, f'{plan.metric} outside [0, 1]', value=m.value)


@case('C19', weight=3)
def scores(rng, size, tmp):
    from valor_lite.text_generation import Evaluator
    for metric in METRICS:
        plan = Plan(rng, metric, size)
        r = rng.randint(0, 2)
        ev = Evaluator(client=Client(plan), retries=r)
        value_ok(run(ev, metric, plan.query()), plan)


@case('C19', weight=.7)
def bleu(rng, size, tmp):
    from valor_lite.text_generation import Evaluator, QueryResponse, Context
    words = ['the', 'cat', 'sat', 'on', 'mat', '$12', 'a.b', 'dog']
    s = lambda: ' '.join(rng.choice(words) for _ in range(rng.randint(1, 7)))
    ref = [s() for _ in range(rng.randint(1, 3))]
    p = rng.choice(ref) if rng.random() < .3 else s()
    n = rng.randint(1, 4)
    m = Evaluator.compute_sentence_bleu(QueryResponse(query='q', response=p, context=Context(groundtruth=ref)), weights=[1 / n] * n)
    expect(0 <= m.value <= 1 + 1e-9, 'BLEU outside [0, 1]', p=p, ref=ref, v=m.value)
    if p in ref and len(p.split()) >= n and '.' not in p and '$' not in p:
        expect(abs(m.value - 1) < 1e-9, 'BLEU of an exact copy', p=p, ref=ref, v=m.value)
    expect_raises(lambda: Evaluator.compute_sentence_bleu(QueryResponse(query='q', response=p, context=Context(groundtruth=ref)), weights=[]), ValueError, 'BLEU without weights')
    expect_raises(lambda: Evaluator.compute_sentence_bleu(QueryResponse(query='q', response=p)), ValueError, 'BLEU without context')


@case('C19', weight=.5)
def rouge(rng, size, tmp):
    """scores of the ROUGE backend are passed through per type, never below zero"""
    from valor_lite.text_generation import Evaluator, QueryResponse, Context
    try:
        import evaluate
    except Exception:
        raise Skip('evaluate')
    vals = {t: rng.choice([-.1, 0.0, .25, 1.0, -1e-12]) for t in ['rouge1', 'rouge2', 'rougeL', 'rougeLsum']}

    class R:
        def compute(self, predictions, references, rouge_types, use_stemmer, use_aggregator):
            assert not use_aggregator
            self.seen = (predictions, references)
            return {t: [vals[t]] for t in rouge_types}
    old = evaluate.load
    rr = R()
    evaluate.load = lambda *a, **k: rr
    try:
        ts = rng.sample(list(vals), rng.randint(1, 4)); st = rng.random() < .5
        ms = Evaluator.compute_rouge(QueryResponse(query='q', response='p', context=Context(groundtruth=['r1', 'r2'])), rouge_types=ts, use_stemmer=st)
    finally:
        evaluate.load = old
    expect_eq([(m.parameters['rouge_type'], m.parameters['use_stemmer'], m.value) for m in ms], [(t, st, max(vals[t], 0.0)) for t in ts], 'ROUGE values')
    expect_eq(rr.seen, (['p'], [['r1', 'r2']]), 'ROUGE inputs')


@case('C20', weight=3)
def retries(rng, size, tmp):
    """malformed responses at chosen calls: bounded attempts, first valid attempt wins"""
    from valor_lite.text_generation import Evaluator
    for metric in METRICS:
        plan = Plan(rng, metric, size)
        base = Client(plan)
        value_ok(run(Evaluator(client=base), metric, plan.query()), plan)
        n = base.calls
        if n == 0:
            continue
        r = rng.randint(0, 4)
        k = rng.choice([0, 1, r, r + 1, r + 3])
        # call numbers at which the first k attempts fail
        at, c = set(), 0
        fails = min(k, r + 1)
        for _ in range(fails):
            p = rng.randint(1, n)
            at.add(c + p); c += p
        cl = Client(plan, script=lambda i: i in at)
        m = run(Evaluator(client=cl, retries=r), metric, plan.query())
        info = dict(metric=metric, retries=r, failing=fails, log=cl.log)
        if fails == r + 1:
            expect(m is not None and getattr(m.type, 'value', m.type) == 'Error', f'malformed responses gave {m!r} instead of an error metric', **info)
            expect_eq(m.value['type'], 'InvalidLLMResponseError', 'error type', **info)
            expect(isinstance(m.value['message'], str) and m.value['message'], 'error message', **info)
            expect_eq(m.parameters, {'evaluator': 'mock', 'retries': r}, 'error parameters', **info)
            expect_eq(cl.calls, c, 'number of LLM calls', **info)
        else:
            expect(m is not None and getattr(m.type, 'value', m.type) != 'Error', f'a valid attempt was lost: {m!r}', **info)
            value_ok(m, plan, 'score after invalid attempts')
            expect_eq(cl.calls, c + n, 'number of LLM calls', **info)


@case('C20')
def other_errors(rng, size, tmp):
    from valor_lite.text_generation import Evaluator
    metric = rng.choice(METRICS)
    plan = Plan(rng, metric, size)
    base = Client(plan)
    run(Evaluator(client=base), metric, plan.query())
    if base.calls:
        at = rng.randint(1, base.calls)
        e = rng.choice([RuntimeError('x'), TimeoutError('t'), KeyError('k'), ValueError('v'), TypeError('t'), ConnectionError('c')])
        cl = Client(plan, exc=(at, e))
        expect_raises(lambda: run(Evaluator(client=cl, retries=rng.randint(0, 3)), metric, plan.query()), type(e), f'{metric}: error of the client')
        expect_eq(cl.calls, at, 'calls after a client error')
    expect_raises(lambda: run(Evaluator(client=None), metric, plan.query()), ValueError, 'no client')

    class NoName:
        def __call__(self, messages):
            return '{}'
    expect_raises(lambda: run(Evaluator(client=NoName()), metric, plan.query()), AttributeError, 'client without a model name')
    from valor_lite.text_generation import QueryResponse
    if metric in ('answer_correctness', 'context_precision', 'context_recall', 'context_relevance', 'faithfulness', 'hallucination'):
        expect_raises(lambda: run(Evaluator(client=base, retries=2), metric, QueryResponse(query='q', response='r')), ValueError, f'{metric} without context')


@case('C22', weight=.3)
def text_types(rng, size, tmp):
    from valor_lite.text_generation import Evaluator
    for metric in METRICS:
        plan = Plan(rng, metric, 1)
        r = rng.randint(0, 3)
        m = run(Evaluator(client=Client(plan), retries=r), metric, plan.query())
        value_ok(m, plan)
        expect_eq(m.parameters, {'evaluator': 'mock', 'retries': r}, f'{metric} parameters')


class Ns:
    def __init__(self, **kw):
        self.__dict__.update(kw)


@case('C20', weight=.5)
def vendors(rng, size, tmp):
    """answers of the vendors' clients: unchanged when complete, an error when cut off"""
    import sys
    import types
    from valor_lite.text_generation import Evaluator
    try:
        from valor_lite.text_generation.llm import integrations as it
    except Exception:
        raise Skip('integrations')
    content = rng.choice(['{"a": 1}', 'x', '  y\n', '', None])
    seen = []
    which = rng.choice(['openai', 'mistralai'])
    reason = rng.choice(['stop', 'stop', 'length', 'content_filter', 'tool_calls'] if which == 'openai' else ['stop', 'stop', 'length', 'tool_calls'])
    choice = Ns(message=Ns(content=content), finish_reason=reason)
    resp = Ns(choices=[choice], usage=rng.choice([None, Ns(prompt_tokens=rng.randint(0, 9), completion_tokens=rng.randint(0, 9))]))

    def create(**kw):
        seen.append(kw)
        return resp
    mod = types.ModuleType(which)
    if which == 'openai':
        mod.OpenAI = lambda *a, **k: Ns(chat=Ns(completions=Ns(create=create)))
    else:
        mod.Mistral = lambda *a, **k: Ns(chat=Ns(complete=create))
    old = sys.modules.get(which)
    sys.modules[which] = mod
    try:
        cl = it.OpenAIWrapper(model_name='m', seed=7) if which == 'openai' else it.MistralWrapper(model_name='m')
        if which == 'openai' and rng.random() < .3:
            expect_raises(lambda: Evaluator.openai(model_name='m', api_key='k', retries=rng.randint(1, 3), seed=rng.choice([0, 5])), ValueError, 'seed together with retries')
            e = Evaluator.openai(model_name='m', api_key='k', retries=rng.randint(0, 3))
            expect_eq(e.client.model_name, 'm', 'model name')
    finally:
        if old is None:
            sys.modules.pop(which)
        else:
            sys.modules[which] = old
    ms = [{'role': 'system', 'content': 's'}, {'role': 'user', 'content': 'q'}]
    call = lambda: cl(ms)
    if reason in ('length', 'content_filter') and not (which == 'mistralai' and content is None):
        expect_raises(call, ValueError, f'{which} answer ended by {reason}')
    else:
        expect_eq(call(), content or '', f'{which} answer')
    expect_eq([(s['model'], s['messages']) for s in seen], [('m', ms)], 'requests')
    bad = rng.choice([None, {'role': 'user', 'content': 'x'}, ['x'], [{'role': 'user'}], [{'content': 'x'}], [{'role': 1, 'content': 'x'}], [ms[0], {'role': 'user', 'content': None}]])
    expect_raises(lambda: cl(bad), (TypeError, ValueError), 'malformed messages')
    expect_eq(len(seen), 1, 'requests after malformed messages')


@case('C19', 'C20', 'C22', weight=.3)
def all_metrics(rng, size, tmp):
    """compute_all reports every metric, with the value its own method gives"""
    from valor_lite.text_generation import Evaluator, QueryResponse, Context
    try:
        import evaluate
    except Exception:
        raise Skip('evaluate')

    class R:
        def compute(self, predictions, references, rouge_types, use_stemmer, use_aggregator):
            return {t: [.25 + len(t) / 100] for t in rouge_types}

    class Cl:
        model_name = 'mock'

        def __init__(self):
            self.calls = 0

        def __call__(self, messages):
            self.calls += 1
            p = '\n'.join(m['content'] for m in messages)
            return '' if bad else answers[sum(map(ord, p)) % len(answers)]
    # every answer is one of a few texts chosen by the prompt alone, so the methods and compute_all see the same client
    answers = ['{"statements": ["a", "b"], "claims": ["c"], "opinions": ["o", "p"], "verdicts": [{"verdict": "yes", "analysis": "x"}, {"verdict": "no", "analysis": "x"}], "TP": ["a"], "FP": ["b"], "FN": []}',
               '{"statements": ["a"], "claims": ["c", "d"], "opinions": ["o"], "verdicts": [{"verdict": "yes", "analysis": "x"}], "TP": ["a"], "FP": [], "FN": []}', '4']
    bad = rng.random() < .1
    n = rng.randint(0, 3)
    q = QueryResponse(query=f'q{rng.randint(0, 99)}', response=f'the cat sat on mat {rng.randint(0, 99)}', context=Context(groundtruth=[f'the cat sat {i}' for i in range(1, rng.randint(1, 3) + 1)], prediction=[f'c{i}' for i in range(max(1, n))]))
    r = rng.randint(0, 2)
    kinds, stem, w = rng.sample(['rouge1', 'rouge2', 'rougeL', 'rougeLsum'], rng.randint(1, 4)), rng.random() < .5, rng.choice([[.5, .5], [1.0], [.25] * 4])
    old = evaluate.load
    evaluate.load = lambda *a, **k: R()
    try:
        res = norm(Evaluator(client=Cl(), retries=r).compute_all(q, bleu_weights=w, rouge_types=kinds, rouge_use_stemmer=stem))
        ev = Evaluator(client=Cl(), retries=r)
        want = {TYPE[m]: [canon(run(ev, m, q))] for m in METRICS}
        want['ROUGE'] = [canon(m) for m in Evaluator.compute_rouge(q, rouge_types=kinds, use_stemmer=stem)]
        want['BLEU'] = [canon(Evaluator.compute_sentence_bleu(q, weights=w))]
    finally:
        evaluate.load = old
    expect_eq(set(res), set(want), 'metrics of compute_all')
    for k in want:
        d = same(canon(res[k]), want[k])
        expect(d is None, f'compute_all {k}: {d}', query=q.query)
