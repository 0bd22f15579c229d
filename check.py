#!/usr/bin/env python3-vt
"""Decides one property on the current working tree of the repository.

    check.py ID

1. The contracts of the property (contracts/<id>.py) are checked against the
   source of the repository as it is now: every obligation is generated from
   the parsed source files and discharged by the solver (engine/).
2. In parallel the same contracts are evaluated on the running library with
   concrete inputs (replay/), which supplies failing inputs for refuted
   obligations and a bounded stand-in for what the proof layer cannot reach.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: error of the check.
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
EVID = os.path.join(HERE, 'evidence')
WORKERS = 6
BUDGET = {'quick': dict(proof=240, replay=60, deep=240), 'thorough': dict(proof=420, replay=300, deep=300)}

TRUSTED = [
    'engine/: parser-to-obligation generator and term algebra, cross-checked by tools/selftest.py',
    'z3 (linear arithmetic and case splits)',
    'CPython semantics of the statements in engine/interp.py',
]
ARITH = ('floating-point arithmetic is treated as exact real and complex arithmetic; '
         'rounding is covered only by the concrete replay')


def worker(prop, shard, n, seed, deadline, q):
    try:
        from engine.verify import Runner
        from engine.solve import STATS
        R = Runner(prop, seed, deadline)
        R.shard = (shard, n)
        m = importlib.import_module('contracts.' + prop.lower())
        m.contracts(R)
        out = {'obl': [(o.name, o.status, o.detail, o.paths) for o in R.obl.values()],
               'functions': sorted(R.functions), 'inlined': sorted(R.inlined),
               'contracts': sorted(map(str, R.used_contracts)), 'assumed': sorted(map(str, R.assumed)),
               'vacuous': R.vacuous, 'notes': R.notes, 'times': R.times, 'cases': R.cases,
               'bounded': sorted(R.bounded.items()),
               'stats': {k: v for k, v in vars(STATS).items() if isinstance(v, (int, float))}
               if not isinstance(STATS, dict) else dict(STATS)}
        q.put((shard, out))
    except BaseException as e:      # reported, never a verdict
        import traceback
        q.put((shard, {'error': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()}))


def prove(prop, seed, budget):
    if not os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py')):
        return None
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    deadline = time.time() + budget
    ps = [ctx.Process(target=worker, args=(prop, i, WORKERS, seed, deadline, q))
          for i in range(WORKERS)]
    for p in ps:
        p.start()
    res = {}
    hard = deadline + 60
    while len(res) < WORKERS and time.time() < hard:
        try:
            i, out = q.get(timeout=1)
            res[i] = out
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        if p.is_alive():
            p.terminate()
        p.join(5)
    for i in range(WORKERS):
        res.setdefault(i, {'error': 'worker ended without a result'})
    return [res[i] for i in range(WORKERS)]


def replay_start(prop, seed, tier, budget, out):
    env = dict(os.environ, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen(
        [PY, '-W', 'ignore', os.path.join(HERE, 'replay', 'run.py'), prop, '--seed', str(seed),
         '--tier', tier, '--budget', str(budget), '--out', out],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=HERE)


def replay_wait(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'replay did not finish in time'
    try:
        with open(out) as f:
            return json.load(f), ''
    except (OSError, ValueError):
        return None, txt.decode(errors='replace')[-2000:]


def merge(parts):
    tot = {'obl': {}, 'errors': []}
    for k in ('functions', 'inlined', 'contracts', 'assumed', 'bounded'):
        tot[k] = set()
    tot['notes'], tot['vacuous'], tot['cases'], tot['stats'], tot['times'] = [], [], 0, {}, {}
    rank = {'proved': 0, 'undecided': 1, 'refuted': 2}
    for p in parts:
        if 'error' in p:
            tot['errors'].append(p['error'] + '\n' + p.get('tb', ''))
            continue
        for n, s, d, c in p['obl']:
            old = tot['obl'].get(n)
            if old is None or rank[s] > rank[old[0]]:
                tot['obl'][n] = (s, d, c)
        for k in ('functions', 'inlined', 'contracts', 'assumed', 'bounded'):
            tot[k] |= set(p[k])
        tot['notes'] += p['notes']
        tot['vacuous'] += p['vacuous']
        tot['cases'] += p['cases']
        tot['times'].update(p['times'])
        for k, v in p['stats'].items():
            tot['stats'][k] = tot['stats'].get(k, 0) + v
    return tot


def known(prop):
    """Known findings are identified by contract and text; none suppresses more."""
    out = []
    try:
        for line in open(os.path.join(HERE, 'KNOWN_FINDINGS.md')):
            if line.startswith(f'finding: property={prop} '):
                out.append(line.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    b = BUDGET[tier]
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    out = os.path.join(EVID, f'.replay-{prop}.json')
    if os.path.exists(out):
        os.remove(out)
    rp = replay_start(prop, seed, tier, b['replay'], out)
    parts = prove(prop, seed, b['proof'])
    rep, why = replay_wait(rp, out, b['replay'] + 120)
    pr = merge(parts) if parts is not None else None

    refuted = [] if pr is None else [(n, d) for n, (s, d, _) in pr['obl'].items() if s == 'refuted']
    undec = [] if pr is None else [(n, d) for n, (s, d, _) in pr['obl'].items() if s == 'undecided']
    bnd = {} if pr is None else dict(pr['bounded'])
    proved = 0 if pr is None else sum(s == 'proved' and n not in bnd
                                      for n, (s, _, _) in pr['obl'].items())

    if refuted and rep is not None and not rep['failures']:
        # look harder for a failing input before reporting
        out2 = out + '.deep'
        p2 = replay_start(prop, seed + 1, 'thorough', b['deep'], out2)
        rep2, _ = replay_wait(p2, out2, b['deep'] + 120)
        if rep2 is not None:
            for k in ('evaluations', 'distinct'):
                rep[k] += rep2[k]
            rep['failures'] = rep2['failures']
        if os.path.exists(out2):
            os.remove(out2)
    if os.path.exists(out):
        os.remove(out)

    failures = rep['failures'] if rep else []
    violation = None
    known_f = known(prop)
    for f in failures:
        if any(k.startswith(f'[{f["contract"]}]') and k.split('] ', 1)[1] in f['what'] for k in known_f):
            print(f'KNOWN-FINDING: property={prop} {f["what"][:200]}')
            continue
        violation = {'property': prop, 'contract': f['contract'], 'input': f['input'],
                     'what': f['what'], 'seed': seed,
                     'failed_obligations': [{'name': n, 'verifier': d} for n, d in refuted[:20]],
                     'undischarged': [{'name': n, 'verifier': d} for n, d in undec[:20]],
                     'rerun': f'{PY} -W ignore replay/run.py --replay <this file>'}
        break
    if violation is None and refuted:
        violation = {'property': prop, 'obligation': refuted[0][0], 'verifier': refuted[0][1],
                     'what': refuted[0][0], 'seed': seed,
                     'failed_obligations': [{'name': n, 'verifier': d} for n, d in refuted[:50]]}

    level = 'proof' if proved else 'other'
    evals = rep['evaluations'] if rep else 0
    cov = {'evaluations': evals, 'distinct_nontrivial': rep['distinct'] if rep else 0,
           'rule': 'bounded stand-in and source of failing inputs: random circuits and settings '
                   'drawn from the seed, run through the real library and compared with the '
                   'contract evaluated independently; distinct inputs counted by their full '
                   'description, inputs outside the precondition are not counted',
           'samples': rep['samples'] if rep else []}
    assumptions = [ARITH]
    if pr is not None:
        cov.update({
            'obligations': len([n for n in pr['obl'] if n not in bnd]), 'discharged': proved,
            'refuted': len(refuted), 'undischarged_bounded_only': [n for n, _ in undec],
            'checker_cmd': f'python3-vt check.py {prop}',
            'trusted_base': TRUSTED,
            'functions_under_contract': sorted(pr['functions']),
            'functions_inlined_from_source': sorted(pr['inlined']),
            'contracts_used_at_calls': sorted(pr['contracts']),
            'bounded_obligations': {n: f'{s}; {bnd[n]}' for n, (s, _, _) in pr['obl'].items()
                                    if n in bnd},
            'verification_cases': pr['cases'],
            'back_end': pr['stats'],
            'solver_wall_s': round(sum(pr['times'].values()), 2),
        })
        assumptions += sorted(pr['assumed'])
        if undec:
            cov['undischarged_reasons'] = {n: d[:200] for n, d in undec[:40]}
    else:
        cov['explanation'] = 'no obligation of this property is within reach of the verifier; ' \
                             'bounded evaluation of the contract only'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    tmp = os.path.join(EVID, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))

    print(f'{prop} {tier}: {proved} obligations discharged, {len(refuted)} refuted, '
          f'{len(undec)} left to the bounded replay; {evals} replayed inputs, '
          f'{len(failures)} failing; {ev["wall_s"]} s')
    if violation:
        path = os.path.join(EVID, 'replay', prop + '.json')
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        print(violation['what'][:600])
        for n, d in refuted[:5]:
            print('failed obligation:', n, '|', d[:300])
        print(f'VIOLATION property={prop} replay={path}'
              + ('' if 'input' in violation else ' no-failing-input-found'))
        return 1
    if rep is None:
        print('error: replay gave no result:', why)
        return 2
    if rep['n_errors'] > 0.5 * max(1, rep['evaluations']):
        print('error: the replay cannot evaluate the contract:', rep['errors'][:2])
        return 2
    if evals == 0 or (pr is not None and not pr['obl']):
        print('error: nothing was checked', (pr or {}).get('errors', [])[:2])
        return 2
    if pr is not None and pr['errors']:
        print('error in the proof layer:', pr['errors'][0])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
