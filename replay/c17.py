"""C17 on concrete systems."""
from .lib import *
from .c08 import gen as gen8, setup
from SQcircuit.systems import System, Couple


def gen(r, i):
    eng = r.choice(['numpy', 'pytorch'])
    k = r.choice([2, 2, 3])
    subs = []
    for _ in range(k):
        s = gen_circuit(r, eng, n=r.choice([1, 1, 2, 3]), max_extra=1)
        s['ngs'] = [round(r.uniform(-0.45, 0.45), 3) for _ in range(4)]
        s['tseed'] = r.randint(0, 10 ** 6)
        s['neig'] = r.randint(2, 4)
        subs.append(s)
    cps = []
    order = list(range(k))
    r.shuffle(order)
    for a, b in zip(order, order[1:]):
        cps.append([a, b])
    if r.random() < 0.4:
        cps.append(r.sample(range(k), 2))
    out = []
    for a, b in cps:
        na = max(max(e) for e, _ in subs[a]['edges'])
        nb = max(max(e) for e, _ in subs[b]['edges'])
        out.append([a, r.randint(1, na), b, r.randint(1, nb),
                    0.0 if r.random() < 0.1 else rnd(r, 0.1, 20)])
    return {'engine': eng, 'subs': subs, 'couplings': out, 'unit': r.choice(['GHz', 'GHz', 'MHz', 'Hz'])}


def system(t, s):
    sq.set_unit_freq(s['unit'])
    bs = [setup(x, 20) for x in s['subs']]
    for b, x in zip(bs, s['subs']):
        D = int(np.prod(dims_of(b.cir)))
        x['k'] = min(x['neig'], D - 2)
        if x['k'] < 2:
            t.skip()
        b.cir.diag(x['k'])
    cs = [Couple(bs[a].cir, i, bs[c].cir, j, sq.Capacitor(v, 'fF'))
          for a, i, c, j, v in s['couplings']]
    sysm = System(cs)
    order = []
    for a, _, c, _, _ in s['couplings']:
        for x in (a, c):
            if x not in order:
                order.append(x)
    t.true('circuits in order of appearance',
           len(sysm.circuits) == len(order)
           and all(x is bs[i].cir for x, i in zip(sysm.circuits, order)))
    refs = {i: reference(bs[i], bs[i].ng) for i in order}
    N = [refs[i].C.shape[0] for i in order]
    off = {i: sum(N[:p]) for p, i in enumerate(order)}
    bare = scipy.linalg.block_diag(*[refs[i].C for i in order])
    C = bare.copy()
    for a, i, c, j, v in s['couplings']:
        w = np.zeros(len(C))
        w[off[a] + i - 1] += 1
        w[off[c] + j - 1] -= 1
        C += v * 1e-15 * np.outer(w, w)
    t.close('capacitance matrix', npop(sysm.cap_matrix()), C, rtol=1e-9)
    H = npop(sysm.hamiltonian())
    dims = [s['subs'][i]['k'] for i in order]
    u = FREQ[s['unit']]

    def on(p, op):
        m = [np.eye(d) for d in dims]
        m[p] = op
        out = np.eye(1)
        for x in m:
            out = np.kron(out, x)
        return out
    want = sum(on(p, np.diag(npop(bs[i].cir.efreqs))) for p, i in enumerate(order))
    local = want.copy()
    R = scipy.linalg.block_diag(*[refs[i].R for i in order])
    A = R.T @ (np.linalg.inv(C) - np.linalg.inv(bare)) @ R
    Q = []
    for p, i in enumerate(order):
        V = np.array(vecs(bs[i].cir, dims[p])).T
        for m in range(refs[i].n):
            Q.append((p, V.conj().T @ refs[i].Q(m) @ V))
    sc = 0.0
    for a in range(len(Q)):
        for c in range(a, len(Q)):
            pa, qa = Q[a]
            pc, qc = Q[c]
            op = on(pa, qa @ qc) if pa == pc else on(pa, qa) @ on(pc, qc)
            f = (0.5 if a == c else 1.0) * A[a, c] / (2 * np.pi * u)
            want = want + f * op
            sc += abs(f) * np.max(np.abs(op)) if op.size else 0
    t.close('Hamiltonian', H, want, rtol=1e-8, scale=np.max(np.abs(local)) + sc)
    if all(v == 0 for *_, v in s['couplings']):
        t.close('no coupling', H, local, rtol=1e-9)


CONTRACTS = {'system': system}


def run(t):
    t.loop('system', gen, system, 60 if t.tier == 'quick' else 600)
