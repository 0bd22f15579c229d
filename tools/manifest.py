"""Write MANIFEST.json from properties.jsonl and the contract modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    if not line.strip():
        continue
    pid = json.loads(line)['id']
    proof = os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py'))
    if proof:
        level, note = 'proof', (
            'Obligations generated from the functions in /repo on every run and discharged by the '
            'normaliser and z3. Numbers are exact reals, library calls (numpy, scipy, torch, qutip) '
            'are assumed contracts listed in the evidence file. Obligations that are not discharged '
            'are listed there as bounded only and are not counted as proved; the same contracts are '
            'also run on concrete inputs, which supplies the failing input of a violation.')
    else:
        level, note = 'other', (
            'Bounded: the contracts are run on generated concrete circuits only. No obligation of '
            'this property is proved for all inputs.')
    checks.append(dict(property=pid, quick_cmd=f'python3-vt check.py {pid}',
                       thorough_cmd=f'python3-vt check.py {pid}',
                       evidence_file=f'evidence/{pid}.json',
                       technique='contracts on the functions in /repo, obligations discharged by '
                                 'symbolic execution with an algebraic normaliser and z3' if proof else
                                 'contracts on the functions in /repo, run on concrete inputs (bounded)',
                       level=level, level_note=note))
out = dict(version=1, setup_cmd='true', 
           checks=checks, not_applicable=[], notes='See DESIGN.md.')
old = os.path.join(HERE, 'MANIFEST.json')
with open(old, 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
