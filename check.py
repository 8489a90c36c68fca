#!/usr/bin/env python3
"""Decides one property: deductive layer (vc/, contracts/) on /repo's current source, then the executable
contracts (concrete/) as replay search and labelled bounded stand-in.   python3 check.py C02 [quick|thorough]"""
import json, os, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
TIERS = {'quick': dict(shards=5, budget=22, extra=45, vc=260), 'thorough': dict(shards=6, budget=240, extra=240, vc=1500)}


def start_concrete(prop, seeds, budget, tmp, tag):
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=tmp,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    out = []
    for s in seeds:
        o = os.path.join(tmp, f'{tag}_{s}.json')
        p = subprocess.Popen([VENV, os.path.join(HERE, 'concrete', 'run.py'), '--property', prop, '--seed', s, '--budget', str(budget), '--out', o],
                             env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out.append((p, o, s))
    return out


def collect(procs, budget):
    res = []
    end = time.time() + budget + 200
    for p, o, s in procs:
        try:
            txt = p.communicate(timeout=max(1, end - time.time()))[0].decode(errors='replace')
        except subprocess.TimeoutExpired:
            p.kill(); txt = p.communicate()[0].decode(errors='replace')
            res.append({'seed': s, 'cases': 0, 'per_case': {}, 'skipped': {}, 'fails': [{'name': 'hang', 'seed': s, 'index': -1, 'kind': 'exception', 'message': 'the executable contract did not return', 'traceback': txt[-3000:]}]})
            continue
        try:
            r = json.load(open(o))
        except Exception:
            r = {'cases': 0, 'per_case': {}, 'skipped': {}, 'fails': [{'name': 'import', 'seed': s, 'index': -1, 'kind': 'exception', 'message': 'the executable contracts could not run on the code', 'traceback': txt[-3000:]}]}
        r['seed'] = s
        res.append(r)
    return res


def end_session(sid):
    """ends what the deductive layer may have left running"""
    for d in os.listdir('/proc'):
        if d.isdigit() and int(d) != os.getpid():
            try:
                if os.getsid(int(d)) == sid:
                    os.kill(int(d), 9)
            except OSError:
                pass


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    cfg = TIERS[tier]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vcheck_')
    try:
        rc = decide(prop, tier, cfg, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, cfg, seed, t0, tmp):
    vo = os.path.join(tmp, 'vc.json')
    vp = None
    if os.path.exists(os.path.join(HERE, 'vc', 'run.py')):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        vp = subprocess.Popen([VT, os.path.join(HERE, 'vc', 'run.py'), '--property', prop, '--repo', REPO, '--tier', tier, '--out', vo, '--limit', str(cfg['vc'])], env=env, cwd=HERE,
                              stdout=open(os.path.join(tmp, 'vc.log'), 'wb'), stderr=subprocess.STDOUT, start_new_session=True)
    conc = collect(start_concrete(prop, [f'{seed}.{i}' for i in range(cfg['shards'])], cfg['budget'], tmp, 'a'), cfg['budget'])
    vc = None
    if vp:
        try:
            # with a failing input in hand the proof only adds detail
            vp.wait(timeout=cfg['vc'] + 40 if not any(r['fails'] for r in conc) else 45)
        except subprocess.TimeoutExpired:
            vp.kill(); vp.wait()
        end_session(vp.pid)
        txt = open(os.path.join(tmp, 'vc.log'), errors='replace').read()
        try:
            vc = json.load(open(vo))
        except Exception:
            vc = {'functions': [], 'obligations': [], 'notes': ['deductive layer gave no result: ' + txt[-1500:]], 'assumptions': [], 'error': txt[-3000:]}
    # a refuted obligation fails; one the solver gives no answer on fails unless the code is, comments apart, the code on
    # which it was discharged before (a slow machine is not a violation)
    obls = (vc or {}).get('obligations', [])
    failed = [o for o in obls if o['status'] == 'failed' or o['status'] == 'unknown' and not o['source_as_proved']]
    if failed and not any(r['fails'] for r in conc):
        conc += collect(start_concrete(prop, [f'{seed}.x{i}' for i in range(8)], cfg['extra'], tmp, 'b'), cfg['extra'])
    fails = [f for r in conc for f in r['fails']]
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    violations = 0
    out = []
    for k in known.get('findings', []):
        if k['property'] == prop and k.get('status') == 'open':
            hit = [f for f in fails if k['match'] in f['message']]
            fails = [f for f in fails if f not in hit]
            out.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    replay = os.path.join(HERE, 'replays', f'{prop}.json')
    if os.path.exists(replay):
        os.unlink(replay)
    rc = 0
    if fails or failed:
        rc, violations = 1, len(fails) + len(failed)
        rec = {'property': prop, 'tier': tier, 'case': fails[0] if fails else None, 'more_cases': fails[1:4],
               'failed_obligations': [{k: o.get(k) for k in ('id', 'function', 'kind', 'statement', 'status', 'solver_output', 'where')} for o in failed],
               'how_to_replay': f'PYTHONPATH={REPO}/src {VENV} {HERE}/concrete/run.py --replay {replay}' if fails else 'no failing input was found; the failed obligations and the solver output are below'}
        json.dump(rec, open(replay, 'w'), indent=1)
        for o in failed:
            out.append(f"failed obligation: {o['id']} [{o['status']}] {o.get('statement', '')[:300]}")
        for f in fails[:2]:
            out.append(f"failing input: {f['name']} seed={f['seed']} index={f['index']}: {f['message'][:900]}")
        out.append(f'VIOLATION property={prop} replay={replay}' + ('' if fails else ' no-failing-input-found'))
    evidence(prop, tier, seed, t0, vc, conc, violations)
    print('\n'.join(out + [f"{prop}: {'violated' if rc else 'held'}; {len((vc or {}).get('obligations', []))} obligations, {sum(r['cases'] for r in conc)} executable-contract cases, {time.time() - t0:.1f} s"]))
    return rc


def evidence(prop, tier, seed, t0, vc, conc, violations):
    m = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    level = m.get(prop, {}).get('level', 'other')
    per = {}
    for r in conc:
        for k, v in r['per_case'].items():
            per[k] = per.get(k, 0) + v
    obl = (vc or {}).get('obligations', [])
    cov = {'obligations': len(obl), 'discharged': sum(o['status'] == 'discharged' for o in obl),
           'checker_cmd': f'{VT} {HERE}/vc/run.py --property {prop} --repo {REPO}',
           'trusted_base': ['vc/ (symbolic interpreter of the Python/numpy subset, lemma schemas)', 'contracts/ (the specifications)', 'z3', 'cvc5'],
           'functions_under_contract': (vc or {}).get('functions', []),
           'backends': (vc or {}).get('backends', []), 'solver_time_s': (vc or {}).get('solver_time_s', 0),
           'not_generated': (vc or {}).get('not_generated', []), 'notes': (vc or {}).get('notes', []),
           'obligation_list': [{k: o.get(k) for k in ('id', 'function', 'kind', 'statement', 'status', 'backend', 'time_s')} for o in obl],
           'evaluations': sum(r['cases'] for r in conc), 'distinct_nontrivial': sum(r['cases'] for r in conc),
           'rule': 'BOUNDED stand-in and replay search, never counted as proved: every case draws a fresh seeded random input (small sizes first, growing) through the public API and compares with the independent oracle; each seed/index pair is a distinct input',
           'bounded_cases': per, 'skipped_cases': {k: v for r in conc for k, v in r['skipped'].items()},
           'samples': [{'case': k, 'seed': f'{seed}.0', 'index': 0} for k in sorted(per)][:6] or ['none'],
           'explanation': 'obligations generated from the current source and discharged by SMT, plus bounded executable contracts on the running code'}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': (vc or {}).get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
