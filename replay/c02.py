"""C02 on concrete sequences of setter calls."""
from .lib import *
from SQcircuit import noise


def state():
    E = noise.ENV
    return {'freq': float(unt.get_unit_freq()), 'cap': unt.get_unit_cap(), 'ind': unt.get_unit_ind(),
            'JJ': unt.get_unit_JJ(), 'T': float(E['T']), 'low': float(E['omega_low']),
            'high': float(E['omega_high']), 'texp': float(E['t_exp']),
            'eng': sqset.get_engine().lower(), 'optim': bool(sqset.get_optim_mode())}


UN = {'freq': FREQ, 'cap': {**FARAD, **FREQ}, 'ind': {**HENRY, **FREQ}, 'JJ': FREQ}


def gen(r, i):
    ops = []
    for _ in range(r.randint(3, 14)):
        k = r.choice(['freq', 'cap', 'ind', 'JJ', 'T', 'low', 'high', 'texp', 'eng', 'optim', 'reset'])
        bad = r.random() < 0.2
        if k in UN:
            ops.append([k, r.choice(list(UN[k])) if not bad else
                        r.choice(['Ghz', 'parsec', '', 's', 'F' if k != 'cap' else 'H'])])
        elif k == 'T':
            ops.append([k, rnd(r, 1e-3, 1)])
        elif k in ('low', 'high'):
            ops.append([k, rnd(r, .1, 100), r.choice(list(FREQ)) if not bad else 'ns'])
        elif k == 'texp':
            ops.append([k, rnd(r, .1, 100), r.choice(list(TIME)) if not bad else 'GHz'])
        elif k == 'eng':
            ops.append([k, r.choice(['NumPy', 'PyTorch', 'numpy', 'PYTORCH']) if not bad
                        else r.choice(['torch', 'jax', ''])])
        elif k == 'optim':
            ops.append([k, r.random() < 0.5])
        else:
            ops.append([k])
    return {'ops': ops}


def seq(t, d):
    m = state()
    t.equal('initial settings', m, {'freq': 1e9, 'cap': 'GHz', 'ind': 'GHz', 'JJ': 'GHz',
            'T': 0.015, 'low': 2 * np.pi, 'high': 2 * np.pi * 3e9, 'texp': 10 * 1e-6,
            'eng': 'numpy', 'optim': False} if abs(m['texp'] - 1e-5) < 1e-18 else None)
    for op in d['ops']:
        k = op[0]
        want = dict(m)
        ok = True
        if k in UN:
            ok = op[1] in UN[k]
            f = {'freq': unt.set_unit_freq, 'cap': unt.set_unit_cap, 'ind': unt.set_unit_ind,
                 'JJ': unt.set_unit_JJ}[k]
            call = lambda: f(op[1])
            if ok:
                want[k] = FREQ[op[1]] if k == 'freq' else op[1]
        elif k == 'T':
            call = lambda: noise.set_temp(op[1])
            want['T'] = op[1]
        elif k in ('low', 'high'):
            ok = op[2] in FREQ
            f = noise.set_low_freq if k == 'low' else noise.set_high_freq
            call = lambda: f(op[1], op[2])
            if ok:
                want[k] = 2 * np.pi * op[1] * FREQ[op[2]]
        elif k == 'texp':
            ok = op[2] in TIME
            call = lambda: noise.set_t_exp(op[1], op[2])
            if ok:
                want[k] = op[1] * TIME[op[2]]
        elif k == 'eng':
            ok = op[1].lower() in ('numpy', 'pytorch')
            call = lambda: sq.set_engine(op[1])
            if ok:
                want['eng'] = op[1].lower()
        elif k == 'optim':
            call = lambda: sqset.set_optim_mode(op[1])
            want['eng'] = 'pytorch' if op[1] else 'numpy'
        else:
            call = noise.reset_to_default
            want.update(T=0.015, low=2 * np.pi, high=2 * np.pi * 3e9, texp=10e-6)
        want['optim'] = want['eng'] == 'pytorch'
        if ok:
            call()
        else:
            t.raises(f'{op}', call)
        got = state()
        for key in want:
            if isinstance(want[key], float):
                t.close(f'{key} after {op}', got[key], want[key], rtol=1e-13)
            else:
                t.equal(f'{key} after {op}', got[key], want[key])
        m = got


CONTRACTS = {'sequence': seq}


def run(t):
    t.loop('sequence', gen, seq, 1500 if t.tier == 'quick' else 20000)
