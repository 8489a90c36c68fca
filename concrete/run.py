"""Concrete layer driver: runs the executable contracts of one property on the real code.

python run.py --property C02 --seed 1 --budget 20 --max-cases 400 --out out.json [--replay file]
"""
import argparse, json, os, random, signal, sys, time, traceback, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import common  # noqa
from common import REG, Fail, Skip, Scratch


CASE_TIMEOUT = 90


def _timeout(*_):
    raise TimeoutError(f'the call did not return within {CASE_TIMEOUT} s')


signal.signal(signal.SIGALRM, _timeout)


def load():
    for m in ('od', 'cls', 'seg', 'cache', 'text'):
        try:
            __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise


def one(prop, name, fn, seed, i):
    rng = random.Random(f'{seed}:{name}:{i}')
    size = 1 + min(i // 12, 4)
    signal.alarm(CASE_TIMEOUT)
    try:
        with Scratch() as tmp:
            tmp.rng = random.Random(f'{seed}:{name}:{i}:path')
            fn(rng, size, tmp)
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property'); ap.add_argument('--seed', default='1'); ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--max-cases', type=int, default=100000); ap.add_argument('--out'); ap.add_argument('--replay')
    a = ap.parse_args()
    load()
    if a.replay:
        r = json.load(open(a.replay))
        c = r.get('case') or r
        for name, fn, _ in REG[r['property']]:
            if name == c['name']:
                try:
                    one(r['property'], name, fn, c['seed'], c['index'])
                except Exception:
                    traceback.print_exc(); print('REPRODUCED'); sys.exit(1)
                print('not reproduced'); sys.exit(0)
        print('no such case'); sys.exit(2)
    t0 = time.time()
    cases = REG.get(a.property, [])
    stat = {n: 0 for n, _, _ in cases}
    skipped = {}
    debt = {n: 0.0 for n, _, _ in cases}
    fails = []
    total = 0
    while cases and not fails and total < a.max_cases and time.time() - t0 < a.budget:
        live = [c for c in cases if c[0] not in skipped]
        if not live:
            break
        name, fn, w = min(live, key=lambda c: stat[c[0]] / c[2])
        i = stat[name]; stat[name] += 1; total += 1
        try:
            one(a.property, name, fn, a.seed, i)
        except Skip as e:
            skipped[name] = str(e)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            fails.append({'name': name, 'seed': a.seed, 'index': i, 'kind': 'contract' if isinstance(e, Fail) else 'exception',
                          'message': f'{type(e).__name__}: {e}'[:4000], 'traceback': traceback.format_exc()[-6000:]})
    out = {'property': a.property, 'cases': total, 'per_case': stat, 'skipped': skipped, 'fails': fails, 'wall_s': round(time.time() - t0, 2)}
    s = json.dumps(out, indent=1)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(s)


if __name__ == '__main__':
    main()
