"""C14 on concrete circuits."""
from .lib import *
from .c08 import setup
from .c12 import usable
from SQcircuit import noise


def gen(r, i, engine=None):
    s = gen_circuit(r, engine or r.choice(['numpy', 'pytorch']), max_extra=2)
    s['ngs'] = [round(r.uniform(0.05, 0.45), 3) for _ in range(4)]
    s['namp'] = [rnd(r, 1e-5, 1e-3) for _ in range(4)]
    s['tseed'] = r.randint(0, 10 ** 6)
    s['pseed'] = r.randint(0, 10 ** 6)
    s['states'] = r.sample(range(3), 2)
    s['loop_kw'] = {'A': rnd(r, 1e-7, 1e-5)}
    for e in s['elements']:
        if e['kind'] == 'J':
            e['kw'] = {'A': rnd(r, 1e-8, 1e-6)}
    s['low'] = [rnd(r, 0.1, 100), r.choice(['Hz', 'kHz'])]
    s['texp'] = [rnd(r, 0.1, 100), r.choice(['us', 'ns', 'ms'])]
    return s


def gen_torch(r, i):
    return gen(r, i, 'pytorch')


def start(t, s, grad=()):
    noise.set_low_freq(*s['low'])
    noise.set_t_exp(*s['texp'])
    b = setup(s, 36)
    k = usable(b)
    if k is None or k <= max(s['states']):
        t.skip()
    if grad:
        ng, tr = b.ng, list(b.cir.trunc_nums)
        b = Built(s, grad)
        b.ng = ng
        b.cir.set_trunc_nums(tr)
        for i, x in ng.items():
            b.cir.set_charge_offset(i + 1, x)
    for i in b.ng:
        b.cir.set_charge_noise(i + 1, s['namp'][i])
    b.cir.diag(k)
    return b, k


def sources(s, fx):
    """noise type -> list of (amplitude, its derivative map, dH, d2H(key), size)"""
    fac = np.sqrt(2 * abs(np.log(s['low'][0] * FREQ[s['low'][1]] * 2 * np.pi
                                 * s['texp'][0] * TIME[s['texp'][1]])))
    out = {'flux': [], 'charge': [], 'cc': []}
    for k in fx.order:
        key = ('loop', k)
        out['flux'].append((s['loop_kw']['A'] * 2 * np.pi, {}, fx.d1(key),
                            lambda p, key=key: fx.d2(p, key)))
    for i in fx.ng:
        key = ('ng', i)
        out['charge'].append((s['namp'][i], {}, fx.d1(key), lambda p, key=key: fx.d2(p, key)))
    ext = fx.B @ np.array([fx.p0['loop', k] for k in fx.order]) if fx.order else \
        np.zeros(len(fx.inds))
    for i, e, b in fx.inds:
        el = s['elements'][i]
        if el['kind'] != 'J':
            continue
        a = el['kw']['A']
        x = np.exp(1j * ext[b]) * fx.exps[b]
        cos, sin = (x + x.conj().T) / 2, (x - x.conj().T) / 2j

        def second(p, b=b, sin=sin):
            if p[0] == 'loop' and p[1] in fx.order:
                return fx.B[b, fx.order.index(p[1])] * sin
            return 0 * sin
        out['cc'].append((a * fx.p0['el', i], {('el', i): a}, -cos, second))
    return fac, out


def rates(t, s):
    b, k = start(t, s)
    cir = b.cir
    V = vecs(cir, k)
    fx = Fixed(b, b.ng)
    fac, src = sources(s, fx)
    m, n = s['states']
    for d, lst in src.items():
        want, sc = 0.0, 0.0
        for A, dA, dH, _ in lst:
            sl = np.real(V[m].conj() @ dH @ V[m] - V[n].conj() @ dH @ V[n])
            want += abs(A * sl) * fac
            sc += A * np.max(np.abs(dH)) * fac
        got = float(npop(cir.dec_rate(d, (m, n))).real)
        rev = float(npop(cir.dec_rate(d, (n, m))).real)
        t.close(f'{d} rate', got, want, rtol=1e-6, scale=sc, atol=1e-12)
        t.close(f'{d} rate with levels swapped', rev, got, rtol=1e-9, scale=sc, atol=1e-12)


def gradients(t, s):
    r = random.Random(s['pseed'])
    ps = params_of(s)
    grad = set(r.sample(ps, r.randint(1, len(ps))))
    b, k = start(t, s, grad)
    cir = b.cir
    V, w = vecs(cir, k), npop(cir.efreqs) * 2 * np.pi * 1e9
    fx = Fixed(b, b.ng)
    fac, src = sources(s, fx)
    m, n = s['states']
    d = r.choice([x for x in src if src[x]])
    rate = cir.dec_rate(d, (m, n))
    cir.zero_grad()
    rate.backward()
    names = {id(element_of(b, p)): p for p in grad}
    for el, g in zip(cir.parameters_elems, cir.parameters_grad):
        key = names[id(el)]
        dP = fx.d1(key)
        want = sc = 0.0
        for A, dA, dH, d2 in src[d]:
            sl = np.real(V[m].conj() @ dH @ V[m] - V[n].conj() @ dH @ V[n])
            if abs(sl) < 1e-6 * np.max(np.abs(dH)):
                t.skip()
            dd = d2(key)
            sec = 0.0
            big = np.max(np.abs(dd))
            for st, sg in ((m, 1), (n, -1)):
                x = np.real(V[st].conj() @ dd @ V[st])
                for q in range(k):
                    if q != st:
                        x += 2 * np.real((V[st].conj() @ dH @ V[q]) * (V[q].conj() @ dP @ V[st])
                                         ) / (w[st] - w[q])
                        big += fx.scale(key) * np.max(np.abs(dH)) / abs(w[st] - w[q])
                sec += sg * x
            want += np.sign(sl) * fac * (dA.get(key, 0) * sl + A * sec)
            sc += fac * (dA.get(key, 0) * np.max(np.abs(dH)) + A * big)
        t.close(f'gradient of the {d} rate by {key}', float(npop(g)), want, rtol=1e-5, scale=sc)


CONTRACTS = {'dephasing rates': rates, 'gradients of dephasing rates': gradients}


def run(t):
    q = t.tier == 'quick'
    t.loop('dephasing rates', gen, rates, 60 if q else 600, 0.5)
    t.loop('gradients of dephasing rates', gen_torch, gradients, 60 if q else 600)
