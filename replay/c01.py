"""C01 on concrete elements."""
from .lib import *

UN = {'C': {**FARAD, **FREQ}, 'L': {**HENRY, **FREQ}, 'J': FREQ}


def make(kind, *a, **k):
    return {'C': sq.Capacitor, 'L': sq.Inductor, 'J': sq.Junction}[kind](*a, **k)


def si(kind, v, u):
    if kind == 'C':
        return cap_si(v, u)
    if kind == 'L':
        return ind_si(v, u)
    return v * FREQ[u] * 2 * np.pi


def from_si(kind, x, u):
    """What reading in unit u must give."""
    if kind == 'C':
        return x / FARAD[u] if u in FARAD else cap_si(x, 'F') and EC ** 2 / 2 / x / H_PLANCK / FREQ[u]
    if kind == 'L':
        return x / HENRY[u] if u in HENRY else (PHI0 / 2 / np.pi) ** 2 / x / H_PLANCK / FREQ[u]
    return x / FREQ[u]


def gen(r, i):
    kind = r.choice('CLJ')
    us = list(UN[kind])
    return {'kind': kind, 'u': r.choice(us), 'v': rnd(r, 1e-3, 1e3), 'u3': r.choice(us),
            'v2': rnd(r, 1e-3, 1e3), 'engine': r.choice(['NumPy', 'PyTorch']),
            'default': r.choice(us), 'mode': r.choice(['unit', 'default', 'reset', 'posn']),
            'freq': r.choice(list(FREQ)), 'swap': r.random() < 0.3}


def conv(t, d):
    sq.set_engine(d['engine'])
    k = d['kind']
    unt.set_unit_freq(d['freq'])
    {'C': unt.set_unit_cap, 'L': unt.set_unit_ind, 'J': unt.set_unit_JJ}[k](d['default'])
    u, v = d['u'], d['v']
    if d['mode'] == 'default':
        el, u = make(k, v), d['default']
    elif d['mode'] == 'posn':
        el = make(k, value=v, unit=u)
    else:
        el = make(k, v, u)
    if d['mode'] == 'reset':
        el.set_value(d['v2'], d['u3'])
        v, u = d['v2'], d['u3']
    x = si(k, v, u)
    for u2 in UN[k]:
        t.close(f'reading in {u2}', float(el.get_value(u2)), from_si(k, x, u2), rtol=1e-11)
    base = {'C': 'F', 'L': 'H', 'J': 'Hz'}[k]
    t.close('reading without unit', float(el.get_value()), from_si(k, x, base), rtol=1e-11)
    if d['engine'] == 'PyTorch':
        t.true('value is a double tensor', isinstance(el.get_value(), torch.Tensor)
               and el.get_value().dtype == torch.float64)


def gen_opt(r, i):
    return {'kind': r.choice('CLJ'), 'v': rnd(r, .1, 10), 'q': rnd(r, 10, 1e6), 'a': rnd(r, 1e-9, 1e-3),
            'engine': r.choice(['NumPy', 'PyTorch']), 'grad': r.random() < 0.5,
            'cap': r.random() < 0.5, 'c': rnd(r, 0.1, 50), 'fn': r.random() < 0.5,
            'label': r.choice([None, 'abc', 'my el']), 'err': r.choice([0, 0, 3.5])}


def options(t, d):
    sq.set_engine(d['engine'])
    k = d['kind']
    kw = {}
    grad = d['grad'] and d['engine'] == 'PyTorch'
    if grad:
        kw['requires_grad'] = True
    if d['label']:
        kw['id_str'] = d['label']
    if d['err']:
        kw['error'] = d['err']
    f1 = lambda w: d['q'] + w
    f2 = lambda w, T: d['q'] + w * T
    if k == 'J':
        kw['A'] = d['a']
        kw['Y'] = f2
    else:
        kw['Q'] = (f1 if k == 'C' else f2) if d['fn'] else d['q']
    if k != 'C':
        lp = [sq.Loop(), sq.Loop()]
        kw['loops'] = lp
        if d['cap']:
            cap = kw['cap'] = sq.Capacitor(d['c'], 'fF')
    el = make(k, d['v'], 'GHz', **kw)
    if not d['err']:
        t.close('value', float(el.get_value('GHz')), from_si(k, si(k, d['v'], 'GHz'), 'GHz'),
                rtol=1e-11)
    else:
        t.true('sampled value near the mean', abs(float(el.get_value('GHz'))
               / from_si(k, si(k, d['v'], 'GHz'), 'GHz') - 1) < 10)
    t.equal('error', el.error, d['err'])
    if d['label']:
        t.equal('label', el.id_str, d['label'])
    if d['engine'] == 'PyTorch':
        t.equal('gradient flag', bool(el.requires_grad), grad)
    if k == 'J':
        t.equal('noise amplitude', el.A, d['a'])
        t.close('admittance', el.Y(2., 3.), f2(2., 3.))
    elif k == 'L':
        t.close('quality factor', el.Q(2., 3.), f2(2., 3.) if d['fn'] else d['q'])
    else:
        t.close('quality factor', el.Q(2.), f1(2.) if d['fn'] else d['q'])
    if k != 'C':
        t.true('loops', len(el.loops) == 2 and all(a is b for a, b in zip(el.loops, lp)))
        if d['cap']:
            t.true('own capacitor', el.cap is cap)
            t.close('own capacitor value', float(el.cap.get_value('fF')), d['c'], rtol=1e-11)
    for u in ('parsec', 'ghz', 'H' if k == 'C' else 'F'):
        t.raises(f'unit {u}', lambda: make(k, d['v'], u))


CONTRACTS = {'conversion': conv, 'options': options}


def run(t):
    n = 1200 if t.tier == 'quick' else 8000
    t.loop('conversion', gen, conv, n, 0.7)
    t.loop('options', gen_opt, options, n // 2)
