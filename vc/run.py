"""Generate and discharge the obligations of one property from the current source.

usage: python3-vt vc/run.py --property C08 --repo /repo --out vc.json   (or --contract NAME for development)"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'      # reproducible term order
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vc import solve, term as t_, arr as A          # noqa: E402
from vc.term import and_, FALSE, TRUE                # noqa: E402
from vc.interp import axioms_for, RAW, digest                  # noqa: E402
from contracts import base                           # noqa: E402


def load():
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.endswith('.py') and f not in ('__init__.py', 'base.py'):
            importlib.import_module('contracts.' + f[:-3])
    return base.CONTRACTS


_job = {}
PER_OBLIGATION = 120        # s; a prover that does not answer in this time is no answer


class Late(BaseException):
    pass


def _late(*a):
    raise Late




def base_digests():
    try:
        return json.load(open(os.path.join(HERE, 'contracts', 'baseline.json')))
    except FileNotFoundError:
        return {}




def prove_one(i):
    con, axioms, o = _job['con'], _job['axioms'], _job['obls'][i]
    oid, props, kind, hyps, goal, lemmas, where, kw = o
    t0 = time.time()
    kw = dict(kw)
    tmo = kw.pop('timeout', con.timeout)
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(PER_OBLIGATION)
    try:
        hyps = [A.expand_pos(h) for h in hyps]
        goal2 = t_.simp(A.expand_pos(goal), frozenset(x.id for h in hyps for x in t_._lits(h, True)))
        ax0 = axioms_for(axioms, hyps + [goal2])
        ax = [A.expand_pos(a) for a in ax0]
        raw = [(vs, A.expand_pos(b)) for a in ax0 for vs, b in RAW[a.id]]
        cuts = kw.pop('cuts', None)
        if cuts:
            pre = kw.pop('cut_hyps')
            goal2, *ax = solve.apply_cuts([goal2] + ax, cuts, pre)
            goal2 = t_.simp(goal2, frozenset(x.id for h in hyps for x in t_._lits(h, True)))
            hyps = solve.apply_cuts(hyps, cuts, pre)
            raw = [(vs, solve.apply_cuts([b], cuts, pre)[0]) for vs, b in raw]
        r = solve.prove(hyps, goal2, timeout=tmo, lemmas=lemmas, axioms=ax, raw=raw, **kw)
        st, be, out = r.status, r.backend, r.out
    except Late:
        st, be, out = 'time limit', '-', f'no answer within {PER_OBLIGATION} s'
    except Exception as e:      # noqa
        st, be, out = 'unknown', '-', 'engine: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + '\n' + traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    return {'i': i, 'status': st, 'backend': be, 'time_s': round(time.time() - t0, 3), 'solver_output': out[:6000]}


def do_contract(name, root, prop, procs):
    con = base.CONTRACTS[name]
    t0 = time.time()
    res = {'contract': name, 'target': con.target, 'obligations': [], 'not_generated': None, 'assumptions': [], 'inlined': [], 'used': [], 'gen_s': 0, 'feas_s': 0}
    try:
        I, obls, pre, nran = base.generate(con, root)
    except base.Unsupported as e:
        res['not_generated'] = f'{con.target}: outside the verified subset: {e}'
        res['trace'] = traceback.format_exc()[-3000:]
        return res
    except base.PyRaise as e:
        res['not_generated'] = f'{con.target}: contract setup raised {e.exc}'
        res['trace'] = traceback.format_exc()[-3000:]
        return res
    except Exception as e:      # noqa
        res['not_generated'] = f'{con.target}: engine error {type(e).__name__}: {e}'
        res['trace'] = traceback.format_exc()[-3000:]
        return res
    res['gen_s'] = round(time.time() - t0, 2)
    res['feas_s'] = round(I.solver_time, 2)
    res['inlined'] = sorted(I.inlined)
    res['used'] = sorted(I.called)
    res['digest'] = digest(I.sources)
    res['unchanged'] = base_digests().get(name) == res['digest']
    res['assumptions'] = sorted(I.assumptions)
    keep = [o for o in obls if prop is None or prop in o[1]]
    # vacuity guard: the precondition must not be contradictory
    guard = None
    if nran == 0:
        res['not_generated'] = f'{con.target}: no path of the body returns under the precondition'
        return res
    _job.update(con=con, axioms=list(I.axioms.values()), obls=keep)
    if len(keep) > 3 and procs > 1:
        outs = []
        with mp.get_context('fork').Pool(min(procs, len(keep))) as p:
            it = p.imap_unordered(prove_one, range(len(keep)), chunksize=1)
            try:
                while len(outs) < len(keep):
                    outs.append(it.next(timeout=max(0.1, _job['end'] - time.time())))
            except mp.TimeoutError:
                p.terminate()
        got = {r['i'] for r in outs}
        outs += [{'i': i, 'status': 'time limit', 'backend': '-', 'time_s': 0, 'solver_output': 'not decided within the time of the run'} for i in range(len(keep)) if i not in got]
    else:
        outs = [prove_one(i) for i in range(len(keep))]
    outs.sort(key=lambda r: r['i'])
    for r in outs:
        oid, props, kind, hyps, goal, lemmas, where, kw = keep[r['i']]
        res['obligations'].append({'id': f"{oid}#{r['i']}", 'function': con.target, 'kind': kind, 'statement': repr(goal)[:1500], 'status': r['status'], 'backend': r['backend'],
                                   'time_s': r['time_s'], 'solver_output': r['solver_output'] if r['status'] != 'discharged' else '', 'where': where, 'props': list(props), 'source_as_proved': res['unchanged']})
    g = solve.prove([A.expand_pos(h) for h in pre] + axioms_for(I.axioms.values(), pre), FALSE, timeout=3, use_cvc5=False, rounds=1)
    if g.status == 'discharged':
        res['obligations'] = []
        res['not_generated'] = f'{con.target}: the precondition is contradictory (vacuous contract)'
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--contract')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--update-baseline', action='store_true', help='record the digests of the sources whose obligations are all discharged')
    ap.add_argument('--limit', type=float, default=800, help='seconds after which obligations still open are reported as not decided')
    ap.add_argument('--procs', type=int, default=4)
    a = ap.parse_args()
    cons = load()
    root = os.path.join(a.repo, 'src')
    if a.contract == 'all':
        a.contract = ','.join(cons)
    if a.contract:
        names = a.contract.split(',')
        prop = None
    else:
        names = [n for n, c in cons.items() if a.property in c.props]
        prop = a.property
    t0 = time.time()
    end = _job['end'] = t0 + a.limit
    results = []
    if len(names) == 1:
        results = [do_contract(names[0], root, prop, 8)]
    elif names:
        # one process per contract, each with its own provers
        ctx = mp.get_context('fork')
        pend, live = list(names), {}

        def work(n, out):
            os.setpgid(0, 0)
            out.send(do_contract(n, root, prop, a.procs))
            out.close()

        def late(n):
            return {'contract': n, 'target': cons[n].target, 'obligations': [], 'not_generated': f'{cons[n].target}: not generated within the time of the run', 'assumptions': [], 'inlined': [], 'used': [], 'gen_s': 0, 'feas_s': 0}
        while pend or live:
            while pend and len(live) < 4:
                n = pend.pop(0)
                rx, tx = ctx.Pipe(False)
                p = ctx.Process(target=work, args=(n, tx))
                p.start()
                tx.close()
                live[rx] = (n, p)
            left = end + 15 - time.time()
            for rx in mp.connection.wait(list(live), timeout=max(0.1, left)):
                n, p = live.pop(rx)
                try:
                    results.append(rx.recv())
                except EOFError:
                    results.append(late(n))
                p.join()
            if left <= 0:
                for n, p in live.values():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        p.kill()
                results += [late(n) for n in [x for x, _ in live.values()] + pend]
                break
    results.sort(key=lambda r: names.index(r['contract']))
    obl = [o for r in results for o in r['obligations']]
    out = {
        'functions': [{'name': r['target'], 'contract': r['contract'], 'obligations': len(r['obligations']), 'discharged': sum(o['status'] == 'discharged' for o in r['obligations']),
                       'bodies': r['inlined'], 'callee_contracts': r['used'], 'generation_s': r['gen_s']} for r in results],
        'obligations': obl,
        'not_generated': [r['not_generated'] for r in results if r['not_generated']],
        'assumptions': sorted({x for r in results for x in r['assumptions']}),
        'backends': sorted({o['backend'] for o in obl if o['status'] == 'discharged'}),
        'solver_time_s': round(sum(o['time_s'] for o in obl) + sum(r['feas_s'] for r in results), 2),
        'wall_s': round(time.time() - t0, 2),
    }
    if a.update_baseline:
        b = base_digests()
        for r in results:
            if not r['not_generated'] and all(o['status'] == 'discharged' for o in r['obligations']):
                b[r['contract']] = r['digest']
        json.dump(b, open(os.path.join(HERE, 'contracts', 'baseline.json'), 'w'), indent=1, sort_keys=True)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, indent=1)
    if a.v or not a.out:
        for r in results:
            print(r['contract'], 'gen', r['gen_s'], 'feas', r['feas_s'], 'NOT GENERATED ' + r['not_generated'] if r['not_generated'] else '')
            if r['not_generated']:
                print(r.get('trace', ''))
            for o in r['obligations']:
                print(f"  {o['status']:10} {o['time_s']:7.2f} {o['backend']:7} {o['id']}  {o['where']}")
                if o['status'] != 'discharged':
                    print('      ', o['statement'][:1200])
                    print('      ', o['solver_output'][:600].replace('\n', '\n       '))
        print('discharged', sum(o['status'] == 'discharged' for o in obl), 'of', len(obl), 'wall', out['wall_s'])


if __name__ == '__main__':
    main()
