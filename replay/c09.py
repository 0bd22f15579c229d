"""C09 on concrete histories."""
from .lib import *


def gen(r, i):
    s = gen_circuit(r, r.choice(['numpy', 'numpy', 'pytorch']), **({} if r.random() < 0.3 else {'n': r.choice([1, 1, 2, 2, 3])}))
    s['hseed'] = r.randint(0, 10 ** 9)
    s['steps'] = r.randint(2, 9)
    return s


def observe(cir, om):
    out = {'H': npop(cir.hamiltonian())}
    for i in range(len(om)):
        out[f'Q{i}'] = npop(cir.charge_op(i + 1))
    out['cap'] = npop(cir.coupling_op('capacitive', (0, 1)))
    out['ind'] = npop(cir.coupling_op('inductive', (0, 1)))
    return out


def room(cir, k):
    return min(k, int(np.prod(dims_of(cir))) - 2)


def history(t, s):
    r = random.Random(s['hseed'])
    b = Built(s)
    cir = b.cir
    cur = json.loads(json.dumps(s))
    om = np.asarray(cir.omega, float)
    charge = [i for i in range(len(om)) if om[i] == 0]
    ng, nums, log = {}, None, []
    seed2 = r.randint(0, 10 ** 9)
    for step in range(s['steps'] + 1):
        kinds = ['trunc', 'flux', 'ng', 'ng', 'value', 'diag', 'ham', 'noise', 'repeat', 'dec', 'newloop']
        k = r.choice(kinds)
        if step == s['steps'] and nums is None:
            k = 'trunc'
        if k == 'trunc':
            nums = choose_trunc(r, cir, 60)
            cir.set_trunc_nums(list(nums))
        elif k == 'flux' and b.loops:
            j = r.randrange(len(b.loops))
            cur['loops'][j] = round(r.uniform(-1, 1), 3)
            b.loops[j].set_flux(cur['loops'][j])
        elif k == 'newloop' and b.loops:
            # a flux together with an update
            j = r.randrange(len(b.loops))
            cur['loops'][j] = round(r.uniform(-1, 1), 3)
            b.loops[j].set_flux(cur['loops'][j])
            cir.update()
        elif k == 'ng' and charge:
            j = r.choice(charge)
            ng[j] = r.choice([0, 0.0, 0.5, round(r.uniform(-0.6, 0.6), 3)])
            cir.set_charge_offset(j + 1, ng[j])
        elif k == 'value':
            used = sorted({i for _, ids in cur['edges'] for i in ids})
            for j in r.sample(used, min(len(used), r.randint(1, 2))):
                e = cur['elements'][j]
                e['value'] = float(f"{e['value'] * r.uniform(0.6, 1.6):.6g}")
                b.els[j].set_value(e['value'], e['unit'])
                if e.get('cap') and r.random() < 0.5:
                    e['cap'][0] = float(f"{e['cap'][0] * r.uniform(0.6, 1.6):.6g}")
                    b.els[j].cap.set_value(e['cap'][0], e['cap'][1])
            cir.update()
        elif k == 'diag' and nums is not None and room(cir, 2) >= 1:
            cir.diag(room(cir, 2))
        elif k == 'ham' and nums is not None:
            cir.hamiltonian()
        elif k == 'noise' and charge:
            cir.set_charge_noise(r.choice(charge) + 1, 1e-4)
        elif k == 'dec' and nums is not None and room(cir, 3) >= 2:
            cir.diag(room(cir, 3))
            cir.dec_rate(r.choice(['capacitive', 'quasiparticle', 'inductive', 'flux', 'cc']), (0, 1))
        elif k == 'repeat' and nums is not None:
            x = npop(cir.hamiltonian())
            t.close('repeated Hamiltonian', npop(cir.hamiltonian()), x, rtol=1e-12)
            cir.set_trunc_nums(list(nums))
            t.close('Hamiltonian after setting the same truncation', npop(cir.hamiltonian()), x,
                    rtol=1e-9)
        log.append(k)
    f = Built(cur)
    fc = f.cir
    om2 = np.asarray(fc.omega, float)
    t.equal('modes', [bool(x) for x in om2], [bool(x) for x in om])
    fc.set_trunc_nums(list(nums))
    for j, x in ng.items():
        fc.set_charge_offset(j + 1, x)
    # coordinates may differ in sign or order of equal modes: compare spectra
    a, c = observe(cir, om2), observe(fc, om2)
    same = npop(cir.S).shape == npop(fc.S).shape and np.allclose(
        npop(cir.S), npop(fc.S), rtol=1e-6, atol=1e-9 * np.max(np.abs(npop(fc.S))))
    if same:
        for key in c:
            sc = np.max(np.abs(c[key]))
            t.close(f'{key} after {log}', a[key], c[key], rtol=1e-6, scale=sc or 1.0)
    ea, ec = (np.linalg.eigvalsh(x['H']) for x in (a, c))
    t.close(f'spectrum after {log}', ea, ec, rtol=1e-6)
    if a['H'].shape[0] > 5:
        cir.diag(3)
        t.close(f'eigenfrequencies after {log}', npop(cir.efreqs), ec[:3] / 2 / np.pi / 1e9,
                rtol=1e-6, scale=np.max(np.abs(ec)) / 2 / np.pi / 1e9)
        # the stored operators used by rates are those of the final settings
        fc.diag(3)
        if gap_ok(ec[:4], 1e-4) and same:
            for d in ('capacitive', 'inductive', 'flux', 'charge', 'cc'):
                x, y = float(npop(cir.dec_rate(d, (0, 1))).real), float(npop(fc.dec_rate(d, (0, 1))).real)
                t.close(f'{d} rate after {log}', x, y, rtol=1e-4,
                        atol=1e-6 * rate_scale(d))


def rate_scale(d):
    return {'capacitive': 1e3, 'inductive': 1e3, 'flux': 1e5, 'charge': 1e6, 'cc': 1e5}[d]


CONTRACTS = {'history': history}


def run(t):
    t.loop('history', gen, history, 150 if t.tier == 'quick' else 1500)
