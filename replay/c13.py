"""C13 on concrete circuits."""
from .lib import *
from .c08 import setup
from .c11 import ref_coupling
from scipy import special
from SQcircuit import noise

KB = unt.k_B if hasattr(unt, 'k_B') else scipy.constants.k


def gen(r, i):
    s = gen_circuit(r, r.choice(['numpy', 'numpy', 'pytorch']), max_extra=2)
    s['ngs'] = [round(r.uniform(-0.45, 0.45), 3) for _ in range(4)]
    s['tseed'] = r.randint(0, 10 ** 6)
    s['temp'] = float(f'{10 ** r.uniform(-4, 0.5):.4g}')
    s['states'] = r.sample(range(4), 2)
    for e in s['elements']:
        e['kw'] = {}
        for where, k in (('kw', 'C'), ('capkw', 'own')):
            if where == 'kw' and e['kind'] != 'C':
                continue
            if where == 'capkw' and not e.get('cap'):
                continue
            q = r.choice(['default', 'number', 'none'])
            if q == 'number':
                e[where] = {'Q': rnd(r, 1e3, 1e7)}
            else:
                e[where] = {'Q': q}
        if e['kind'] == 'L':
            q = r.choice(['default', 'number', 'nan'])
            e['kw'] = {'Q': rnd(r, 1e5, 1e9) if q == 'number' else q}
        if e['kind'] == 'J':
            q = r.choice(['default', 'fun', 'nan'])
            e['kw'] = {'Y': rnd(r, 1e-30, 1e-28) if q == 'fun' else q}
    return s


def options(s):
    """Turn the loss descriptions into constructor arguments."""
    out = json.loads(json.dumps(s))
    for e in out['elements']:
        for where in ('kw', 'capkw'):
            d = e.get(where)
            if not d:
                continue
            for k in ('Q', 'Y'):
                if k in d:
                    v = d[k]
                    if v == 'none':
                        d[k] = None
                    elif v == 'nan':
                        d[k] = lambda w, T: float('nan')
                    elif k == 'Y' and v != 'default':
                        d[k] = lambda w, T, v=v: v
    return out


def q_cap(v, w):
    if v == 'default':
        return 1e6 * (2 * np.pi * 6e9 / abs(w)) ** 0.7
    return v


def q_ind(v, w, T):
    if v != 'default':
        return v
    a = HBAR * 2 * np.pi * 0.5e9 / (2 * KB * T)
    b = HBAR * w / (2 * KB * T)
    lk = lambda x: np.log(special.k0e(x)) - x
    ls = lambda x: x + np.log1p(-np.exp(-2 * x)) - np.log(2)
    return 500e6 * np.exp(lk(a) + ls(a) - lk(b) - ls(b))


def y_qp(v, w, T):
    if v != 'default':
        return v
    d, x = 3.4e-4, 3e-6
    al = HBAR * w / (2 * KB * T)
    return (np.sqrt(2 / np.pi) * (8 / (d * 1.6e-19) / (HBAR * 2 * np.pi / EC ** 2))
            * (2 * (d * 1.6e-19) / HBAR / w) ** 1.5 * x * np.sqrt(al)
            * special.k0e(al) * (1 - np.exp(-2 * al)) / 2)


def rates(t, s):
    noise.set_temp(s['temp'])
    b = setup(options(s), 40)
    cir = b.cir
    D = int(np.prod(dims_of(cir)))
    k = 4
    if D < 6:
        t.skip()
    H = npop(cir.hamiltonian())
    if not gap_ok(np.linalg.eigvalsh(H)[:k + 1], 1e-5):
        t.skip()
    cir.diag(k)
    V, w = vecs(cir, k), npop(cir.efreqs) * 2 * np.pi * 1e9
    m, n = s['states']
    om = abs(w[m] - w[n])
    ref = reference(b, b.ng)
    al = HBAR * om / (KB * s['temp'])
    down = 2.0 if al > 700 else 1 + 1 / np.tanh(al / 2)
    up = 0.0 if al > 700 else down * np.exp(-al)
    ind = inductive_list(s)
    unit = {'capacitive': 0.0, 'inductive': 0.0, 'quasiparticle': 0.0}
    scale = dict(unit)
    el2 = lambda op: abs(V[m].conj() @ op @ V[n]) ** 2
    for e, ids in s['edges']:
        op = ref_coupling(ref, 'capacitive', tuple(e))
        x, big = el2(op), np.max(np.abs(op)) ** 2
        for i in ids:
            el = s['elements'][i]
            if el['kind'] == 'C':
                v, C = el['kw']['Q'], element_value(el)
            elif el.get('cap'):
                v, C = el['capkw']['Q'], cap_si(*el['cap'])
            else:
                continue
            if v == 'none':
                continue
            unit['capacitive'] += C / q_cap(v, om) * x
            scale['capacitive'] += C / q_cap(v, om) * big
    for i, e, bi in ind:
        el = s['elements'][i]
        if el['kind'] == 'L' and el['kw']['Q'] != 'nan':
            op = ref.ind_op(e)
            f = 1 / q_ind(el['kw']['Q'], om, s['temp']) / element_value(el)
            unit['inductive'] += f * el2(op)
            scale['inductive'] += f * np.max(np.abs(op)) ** 2
        if el['kind'] == 'J' and el['kw']['Y'] != 'nan':
            op = ref.sinhalf(e, ref.flux[bi])
            f = y_qp(el['kw']['Y'], om, s['temp']) * om * element_value(el) * HBAR
            unit['quasiparticle'] += f * el2(op)
            scale['quasiparticle'] += f * np.max(np.abs(op)) ** 2
    for d in unit:
        tot = float(npop(cir.dec_rate(d, (m, n))).real)
        rev = float(npop(cir.dec_rate(d, (n, m))).real)
        one = float(npop(cir.dec_rate(d, (m, n), total=False)).real)
        two = float(npop(cir.dec_rate(d, (n, m), total=False)).real)
        sc = scale[d] * (down + up)
        kw = dict(rtol=1e-6, scale=sc, atol=1e-9 * unit[d] * (down + up) + 1e-25)
        t.true(f'{d} rate negative: {tot} {one} {two}', tot >= 0 and one >= 0 and two >= 0)
        t.close(f'{d} total', tot, unit[d] * (down + up), **kw)
        rel = 1e-6 * tot + 1e-9 * sc + 1e-25
        t.true(f'{d}: total {tot} depends on the order of levels: {rev}', abs(tot - rev) <= rel)
        t.true(f'{d}: {one} and {two} do not add up to {tot}', abs(one + two - tot) <= rel)
        dn, u = (one, two) if m > n else (two, one)
        t.close(f'{d} downwards', dn, unit[d] * down, **kw)
        t.close(f'{d} upwards', u, unit[d] * up, **kw)
        if dn > 1e-5 * sc + 1e-20 and al < 600:
            t.close(f'{d} detailed balance', u / dn, np.exp(-al), rtol=1e-3)


CONTRACTS = {'rates': rates}


def run(t):
    t.loop('rates', gen, rates, 90 if t.tier == 'quick' else 900)
