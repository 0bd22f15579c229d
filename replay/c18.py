"""C18 on concrete sweeps."""
import tempfile
from .lib import *
from .c08 import setup
from SQcircuit.sweep import Sweep
from SQcircuit.storage import SQdata

TYPES = ('capacitive', 'inductive', 'quasiparticle', 'charge', 'cc', 'flux')


def gen(r, i):
    for _ in range(50):
        s = gen_circuit(r, 'numpy', max_extra=2)
        kind = r.choice(['flux', 'charge'])
        if kind == 'flux' and not s['loops']:
            continue
        s['ngs'] = [round(r.uniform(-0.45, 0.45), 3) for _ in range(4)]
        s['tseed'] = r.randint(0, 10 ** 6)
        s['kind'] = kind
        s['pseed'] = r.randint(0, 10 ** 6)
        s['loss'] = r.random() < 0.5
        s['file'] = r.random() < 0.3
        s['neig'] = r.randint(2, 4)
        return s
    raise Failure('no circuit')


def sweep(t, s):
    r = random.Random(s['pseed'])
    b = setup(s, 24)
    cir = b.cir
    D = int(np.prod(dims_of(cir)))
    if D - 2 < 2:
        t.skip()
    k = min(s['neig'], D - 2)
    if s['kind'] == 'flux':
        params = [b.loops[i] for i in r.sample(range(len(b.loops)), r.randint(1, len(b.loops)))]
        which = [b.loops.index(x) for x in params]
    else:
        if not b.ng:
            t.skip()
        which = r.sample(sorted(b.ng), r.randint(1, len(b.ng)))
        params = [i + 1 for i in which]
    grid = [[round(r.uniform(-0.9, 0.9), 3) for _ in range(r.randint(1, 3))] for _ in which]
    if r.random() < 0.5:
        grid = [np.array(g) for g in grid]
    sw = Sweep(cir, k, properties=['efreq', 'loss'] if s['loss'] else None)
    fn = sw.sweepFlux if s['kind'] == 'flux' else sw.sweepCharge
    shape = tuple(len(g) for g in grid)
    if s['file']:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'data')
            fn(params, grid, toFile=f)
            back = SQdata.load(f)
        ef, dec = back.efreq, back.dec
        t.close('saved table', ef, sw.efreq, rtol=0)
        if s['loss']:
            for x in TYPES:
                t.close('saved rates', dec[x], sw.dec[x], rtol=0)
    else:
        ef, dec = fn(params, grid)
    t.equal('shape of the table', np.asarray(ef).shape, (k,) + shape)
    if s['loss']:
        t.equal('kinds of rates', sorted(dec), sorted(TYPES))
    # every point on a fresh circuit
    for idx in itertools.product(*[range(n) for n in shape]):
        cur = json.loads(json.dumps(s))
        f = None
        if s['kind'] == 'flux':
            for w, g, i in zip(which, grid, idx):
                cur['loops'][w] = float(g[i])
        f = Built(cur)
        f.cir.set_trunc_nums(list(cir.trunc_nums))
        for i, x in b.ng.items():
            f.cir.set_charge_offset(i + 1, x)
        if s['kind'] == 'charge':
            for w, g, i in zip(which, grid, idx):
                f.cir.set_charge_offset(w + 1, float(g[i]))
        fr = npop(f.cir.diag(k)[0])
        H = npop(f.cir.hamiltonian())
        sc = np.max(np.abs(H)) / 2 / np.pi / 1e9
        t.close(f'frequencies at {idx}', ef[(slice(None),) + idx], fr, rtol=1e-8, scale=sc)
        if s['loss'] and gap_ok(np.linalg.eigvalsh(H)[:4], 1e-4):
            for x in TYPES:
                w = float(npop(f.cir.dec_rate(x, (1, 0))).real)
                t.equal('shape of the rates', np.asarray(dec[x]).shape, shape)
                t.close(f'{x} rate at {idx}', float(dec[x][idx]), w, rtol=1e-4,
                        atol=1e-6 * max(1e-20, float(np.max(np.abs(dec[x])))) + 1e-6)


CONTRACTS = {'sweep': sweep}


def run(t):
    t.loop('sweep', gen, sweep, 60 if t.tier == 'quick' else 500)
