"""Entry point of the replay layer.

    run.py ID --seed N --tier T --budget SECONDS --out FILE
    run.py --replay FILE      runs one recorded failing input again
"""
import argparse
import importlib
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from replay import lib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=40)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if 'input' not in d:
            print('no concrete input recorded:', d.get('what'))
            return 2
        m = importlib.import_module('replay.' + d['property'].lower())
        t = lib.T(d['property'], d.get('seed', 0), 'quick', 600)
        t.run(d['contract'], m.CONTRACTS[d['contract']], d['input'])
        for f in t.failures:
            print('FAILS', f['contract'], f['what'])
        for e in t.errors:
            print('ERROR', e)
        return 1 if t.failures else 0
    t = lib.T(a.prop, a.seed, a.tier, a.budget)
    m = importlib.import_module('replay.' + a.prop.lower())
    m.run(t)
    out = {'evaluations': t.evaluations, 'distinct': len(t.distinct), 'samples': t.samples[:5],
           'failures': t.failures, 'errors': t.errors[:20], 'n_errors': len(t.errors),
           'skipped': t.skipped, 'contracts': sorted(m.CONTRACTS),
           'wall_s': round(time.time() - t.t0, 2), 'worst': t.worst}
    s = json.dumps(out, default=str)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(json.dumps(out, indent=1, default=str))
    return 1 if t.failures else 0


if __name__ == '__main__':
    sys.exit(main())
