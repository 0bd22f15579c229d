"""C02: settings change only what is asked."""
from engine.verify import *

FREQ = {'Hz': '1', 'kHz': '1e3', 'MHz': '1e6', 'GHz': '1e9', 'THz': '1e12'}
FARAD = ['F', 'mF', 'uF', 'nF', 'pF', 'fF']
HENRY = ['H', 'mH', 'uH', 'nH', 'pH', 'fH']
TIME = {'s': '1', 'ms': '1e-3', 'us': '1e-6', 'ns': '1e-9', 'ps': '1e-12', 'fs': '1e-15'}
ENVK = ('T', 'omega_low', 'omega_high', 't_exp')


def arbitrary(V, eng):
    """Every setting has an arbitrary value; only equality of text is known."""
    V.fn('units', 'set_unit_freq', 'MHz')
    V.fn('units', 'set_unit_cap', 'pF')
    V.fn('units', 'set_unit_ind', 'pH')
    V.fn('units', 'set_unit_JJ', 'kHz')
    u = V.mod('units').ns
    for k in ('_unit_cap', '_unit_ind', '_unit_JJ'):
        if isinstance(u.get(k), str):
            V.I.set_in(u, k, SStr((('any', k),)), ('aux',))
    if isinstance(u.get('_unit_freq'), SNum):
        V.I.set_in(u, '_unit_freq', V.real('uf', True), ('aux',))
    env = V.get('noise', 'ENV')
    for k in ENVK:
        V.I.models.setitem(V.I, env, k, V.real('env_' + k, True))
    V.fn('settings', 'set_engine', eng)


def snapshot(V):
    s = {}
    for k in ('get_unit_freq', 'get_unit_cap', 'get_unit_ind', 'get_unit_JJ'):
        s[k] = V.fn('units', k)
    env = V.get('noise', 'ENV')
    for k in ENVK:
        s[k] = V.I.models.getitem(V.I, env, k)
    s['entries'] = V.call(Builtin('len'), env)
    s['engine'] = V.fn('settings', 'get_engine')
    s['optim'] = V.fn('settings', 'get_optim_mode')
    return s


def check(V, r, changed):
    old, new = r
    for k in old:
        V.eq(f'{k} afterwards', new[k], changed.get(k, old[k]))


def contracts(R):
    ops = []
    for u, f in FREQ.items():
        ops.append(('units', 'set_unit_freq', (u,), {'get_unit_freq': C(f)}))
        ops.append(('units', 'set_unit_JJ', (u,), {'get_unit_JJ': u}))
        for s in ('low', 'high'):
            ops.append(('noise', f'set_{s}_freq', ('#v', u),
                        {'omega_' + s: lambda v, f=f: TWO * PI * v * C(f)}))
    for u in FARAD + list(FREQ):
        ops.append(('units', 'set_unit_cap', (u,), {'get_unit_cap': u}))
    for u in HENRY + list(FREQ):
        ops.append(('units', 'set_unit_ind', (u,), {'get_unit_ind': u}))
    for u, f in TIME.items():
        ops.append(('noise', 'set_t_exp', ('#v', u), {'t_exp': lambda v, f=f: v * C(f)}))
    ops.append(('noise', 'set_temp', ('#v',), {'T': lambda v: v}))
    ops.append(('noise', 'reset_to_default', (),
                {'T': C('0.015'), 'omega_low': TWO * PI, 'omega_high': TWO * PI * C('3e9'),
                 't_exp': C('10e-6')}))
    for name, e in (('NumPy', 'numpy'), ('PyTorch', 'pytorch'), ('numpy', 'numpy'),
                    ('pytorch', 'pytorch'), ('NUMPY', 'numpy'), ('PYTORCH', 'pytorch')):
        ops.append(('settings', 'set_engine', (name,), {'engine': e, 'optim': e == 'pytorch'}))
    for s, e in ((True, 'pytorch'), (False, 'numpy')):
        ops.append(('settings', 'set_optim_mode', (s,), {'engine': e, 'optim': s}))
    for eng in ('numpy', 'pytorch'):
        for m, f, args, ch in ops:
            def body(V, m=m, f=f, args=args, ch=ch, eng=eng):
                v = V.real('v', True)

                def run():
                    arbitrary(V, eng)
                    old = snapshot(V)
                    V.fn(m, f, *[v if a == '#v' else a for a in args])
                    return old, snapshot(V)
                changed = {k: (x(P(v)) if callable(x) else x) for k, x in ch.items()}
                V.explore(run, lambda V, r: check(V, r, changed))
            R.case(f'{f}{args} from {eng}', [f'{m}.{f}'], body, eng)
        bad = [('units', 'set_unit_freq', ('parsec',)), ('units', 'set_unit_freq', ('fF',)),
               ('units', 'set_unit_cap', ('nH',)), ('units', 'set_unit_cap', ('bad',)),
               ('units', 'set_unit_ind', ('nF',)), ('units', 'set_unit_ind', ('bad',)),
               ('units', 'set_unit_JJ', ('nF',)), ('units', 'set_unit_JJ', ('nH',)),
               ('units', 'set_unit_JJ', ('bad',)), ('noise', 'set_low_freq', ('#v', 's')),
               ('noise', 'set_low_freq', ('#v', 'bad')), ('noise', 'set_high_freq', ('#v', 'bad')),
               ('noise', 'set_high_freq', ('#v', 'nF')),
               ('noise', 'set_t_exp', ('#v', 'GHz')), ('noise', 'set_t_exp', ('#v', 'bad')),
               ('settings', 'set_engine', ('tensorflow',)), ('settings', 'set_engine', ('',))]
        for m, f, args in bad:
            def reject(V, m=m, f=f, args=args, eng=eng):
                v = V.real('v', True)
                box = {}

                def run():
                    arbitrary(V, eng)
                    box['old'] = snapshot(V)
                    V.fn(m, f, *[v if a == '#v' else a for a in args])
                V.explore(run, lambda V, e: check(V, (box['old'], snapshot(V)), {}),
                          expect='raise')
            R.case(f'{f}{args} refused from {eng}', [f'{m}.{f}'], reject, eng)
        consts(R, eng)


def consts(R, eng):
    """Reading never changes anything and element construction keeps the settings."""
    def body(V):
        def run():
            arbitrary(V, eng)
            old = snapshot(V)
            v = V.real('v', True)
            for cls, u in (('Capacitor', 'fF'), ('Inductor', 'nH'), ('Junction', 'GHz')):
                el = V.call(V.get('elements', cls), v, u)
                V.meth(el, 'get_value', 'GHz')
            V.call(V.get('elements', 'Loop'), v)
            V.call(V.get('elements', 'Charge'), v)
            return old, snapshot(V)
        V.explore(run, lambda V, r: check(V, r, {}))
    R.case(f'elements leave the settings alone [{eng}]', ['elements.Capacitor.__init__'], body, eng)
