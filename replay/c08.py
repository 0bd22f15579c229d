"""C08 on concrete circuits."""
from .lib import *


def gen(r, i):
    s = gen_circuit(r, 'pytorch' if r.random() < 0.3 else 'numpy',
                    floating=r.random() < 0.1, max_extra=2)
    s['ngs'] = [round(r.uniform(-0.5, 0.5), 3) for _ in range(4)]
    s['tseed'] = r.randint(0, 10 ** 6)
    return s


def setup(s, total=160):
    b = Built(s)
    cir = b.cir
    r = random.Random(s['tseed'])
    cir.set_trunc_nums(choose_trunc(r, cir, total))
    ng = {}
    om = np.asarray(cir.omega, float)
    for i in range(len(om)):
        if om[i] == 0:
            ng[i] = s['ngs'][i]
            cir.set_charge_offset(i + 1, ng[i])
    b.ng = ng
    return b


def hamil(t, s):
    b = setup(s)
    ref = reference(b, b.ng)
    H = npop(b.cir.hamiltonian())
    want = ref.hamiltonian()
    sc = np.max(np.abs(want))
    t.close('Hamiltonian', H, want, rtol=1e-9, scale=sc)
    t.close('Hermitian', H, H.conj().T, rtol=1e-9, scale=sc)


CONTRACTS = {'hamiltonian': hamil}


def run(t):
    t.loop('hamiltonian', gen, hamil, 60 if t.tier == 'quick' else 600)
