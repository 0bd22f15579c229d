"""C05 on concrete circuits."""
from .lib import *


def gen(r, i):
    return gen_circuit(r, r.choice(['numpy', 'numpy', 'pytorch']), n=r.choice([1, 2, 2, 3, 3]),
                       max_extra=2, kinds=r.choice(['random', 'random', 'L', 'J']))


def coords(t, s):
    b = Built(s)
    cir = b.cir
    C, L, W = ref_matrices(s)
    S, R, om = modes_of(cir)
    n0, n = C.shape[0], S.shape[1]
    t.equal('columns', (S.shape, R.shape), ((n0, n), (n0, n)))
    t.equal('modes', (len(om), cir.n), (n, n))
    G = S.T @ R
    d = np.sqrt(np.outer(np.linalg.norm(S, axis=0), np.linalg.norm(R, axis=0)))
    t.close('conjugate', G, np.eye(n), atol=1e-7)
    if hasattr(cir, 'coord_transform'):
        t.close('charge coordinates', cir.coord_transform('charge'), S.T, rtol=1e-12)
        t.close('flux coordinates', cir.coord_transform('flux'), R.T, rtol=1e-12)
    ci, lt, wt = R.T @ np.linalg.inv(C) @ R, S.T @ L @ S, W @ S if len(W) else W
    dci = np.sqrt(np.abs(np.diag(ci)))
    nci = np.outer(dci, dci)
    t.close('transformed inverse capacitance', npop(cir.cInvTrans) / nci, ci / nci, atol=1e-6)
    har = [i for i in range(n) if om[i] != 0]
    chg = [i for i in range(n) if om[i] == 0]
    lsc = np.array([np.linalg.norm(S[:, i]) for i in range(n)])
    lref = np.outer(lsc, lsc) * max(np.max(np.abs(L)), 1e-300)
    t.close('transformed susceptance', npop(cir.lTrans) / lref, lt / lref, atol=1e-6)
    for i in range(n):
        for j in range(n):
            if i != j or i in chg:
                t.true(f'susceptance of modes {i},{j} vanishes', abs(lt[i, j]) / lref[i, j] < 1e-6)
            if i != j and i in har and j in har:
                t.true(f'harmonic modes {i},{j} decoupled', abs(ci[i, j]) / nci[i, j] < 1e-6)
    for i in har:
        t.close('mode frequency', om[i], np.sqrt(ci[i, i] * lt[i, i]), rtol=1e-5)
    if len(W):
        wsc = max(1.0, np.max(np.abs(wt)))
        t.close('junction rows', npop(cir.wTrans), wt, atol=2e-5, rtol=2e-5)
        for i in chg:
            x = npop(cir.wTrans)[:, i]
            t.true('charge steps', np.all(np.isin(x, [-1, 0, 1])))
        if s['engine'] == 'numpy':
            for i in range(n):
                t.true(f'mode {i} is touched by a junction', np.any(npop(cir.wTrans)[:, i] != 0))
    if s['engine'] == 'numpy' and not len(W) or s['engine'] == 'pytorch':
        t.equal('number of modes', n, n0)


CONTRACTS = {'coordinates': coords}


def run(t):
    t.loop('coordinates', gen, coords, 250 if t.tier == 'quick' else 3000)
