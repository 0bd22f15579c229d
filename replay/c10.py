"""C10 on concrete circuits."""
from .lib import *
from .c08 import gen as gen8, setup


def gen(r, i):
    s = gen8(r, i)
    s['unit'] = r.choice(['GHz', 'MHz', 'Hz', 'THz', 'kHz'])
    s['unit2'] = r.choice(['GHz', 'MHz', 'Hz', 'THz', 'kHz'])
    s['k'] = r.choice([1, 2, 3, 5, 7])
    return s


def diag(t, s):
    b = setup(s, 100)
    cir = b.cir
    H = npop(cir.hamiltonian())
    D = H.shape[0]
    k = min(s['k'], D - 2)
    if k < 1:
        return
    unt.set_unit_freq(s['unit'])
    out = cir.diag(k)
    f, v = out[0], out[1]
    u = FREQ[s['unit']]
    w = np.linalg.eigvalsh(H)
    sc = np.max(np.abs(w)) / (2 * np.pi * u)
    got = npop(f)
    t.equal('number of frequencies', got.shape, (k,))
    t.close('frequencies', got, w[:k] / (2 * np.pi * u), rtol=1e-7, scale=sc)
    t.true('ascending', np.all(np.diff(got) >= -1e-9 * sc))
    t.true('real', got.dtype.kind == 'f')
    t.equal('number of vectors', len(v), k)
    V = np.array([npop(v[i]).reshape(-1) for i in range(k)]).T
    t.close('norms', np.linalg.norm(V, axis=0), np.ones(k), atol=1e-7)
    res = H @ V - V * (got * 2 * np.pi * u)
    t.close('eigenvector pairing', res, np.zeros_like(res), scale=np.max(np.abs(w)), rtol=1e-6)
    t.close('stored frequencies', npop(cir.efreqs), got, rtol=1e-12)
    V2 = np.array([npop(cir.evecs[i]).reshape(-1) for i in range(k)]).T
    t.close('stored vectors', V2, V, atol=1e-12)
    unt.set_unit_freq(s['unit2'])
    t.close('frequencies in another unit', npop(cir.efreqs), got * u / FREQ[s['unit2']], rtol=1e-12)
    if s['engine'] == 'numpy':
        for i in range(k):
            t.equal('kind of vector', v[i].type, 'ket')


CONTRACTS = {'diagonalise': diag}


def run(t):
    t.loop('diagonalise', gen, diag, 100 if t.tier == 'quick' else 1000)
