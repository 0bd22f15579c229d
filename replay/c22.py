"""C22 on concrete circuits."""
from .lib import *
from . import c08


def gen(r, i):
    s = c08.gen(r, i)
    s['gseed'] = r.randint(0, 10 ** 6)
    return s


def hfun(n, y):
    """Normalised oscillator functions 0..n at y, by the stable recurrence."""
    out = [np.pi ** -0.25 * np.exp(-y ** 2 / 2)]
    if n >= 1:
        out.append(np.sqrt(2) * y * out[0])
    for k in range(1, n):
        out.append(np.sqrt(2 / (k + 1)) * y * out[-1] - np.sqrt(k / (k + 1)) * out[-2])
    return out


def x0_of(ref, j):
    return np.sqrt(HBAR * ref.z(j)) / PHI0


def mode_values(ref, j, grid, shift):
    """Mode functions of one mode on a grid, levels along the first axis."""
    m = ref.m[j]
    g = np.asarray(grid, float)
    if ref.charge[j]:
        k0 = (m - 1) // 2 if shift else 0
        return np.array([np.exp(1j * g * (k - k0)) / np.sqrt(2 * np.pi) for k in range(m)])
    x0 = x0_of(ref, j)
    return np.array(hfun(m - 1, g / x0)) / np.sqrt(x0)


def expected(ref, vec, grid, shift):
    psi = np.asarray(vec).reshape(ref.m)
    for j in range(ref.n):
        # the axis of mode j is always the first remaining one
        psi = np.tensordot(psi, mode_values(ref, j, grid[j], shift), axes=([0], [0]))
    psi = np.squeeze(psi)
    if psi.ndim > 1:
        psi = np.swapaxes(psi, 0, 1)
    return psi


def compare(t, what, got, ref, vec, grid):
    w = [expected(ref, vec, grid, sh) for sh in (False, True)]
    sc = max(np.max(np.abs(w[0])), 1e-9)
    g = np.asarray(got)
    t.equal(what + ' shape', list(g.shape), list(w[0].shape))
    err = min(np.max(np.abs(g - x)) for x in w)
    if not err <= 1e-7 * sc:
        t.close(what, g, w[0], rtol=1e-7, scale=sc)


def wave(t, s):
    b = c08.setup(s, 40)
    cir = b.cir
    ref = reference(b, b.ng)
    if ref.n > 3 or ref.dim < 6:
        t.skip()
    r = random.Random(s['gseed'])
    k = min(3, ref.dim - 2)
    cir.diag(k)
    vs = vecs(cir, k)
    st = r.randrange(k)
    grid = []
    for j in range(ref.n):
        n = r.choice([1, 2, 3, 4, 5])
        sc = np.pi if ref.charge[j] else 3 * x0_of(ref, j)
        grid.append(np.array([r.uniform(-sc, sc) for _ in range(n)]))
        if r.random() < 0.3:
            grid[-1][0] = 0.0
    compare(t, 'wavefunction', cir.eig_phase_coord(st, grid=grid), ref, vs[st], grid)


def norm(t, s):
    b = c08.setup(s, 14)
    cir = b.cir
    ref = reference(b, b.ng)
    if ref.n > 2 or ref.dim < 5:
        t.skip()
    cir.diag(2)
    grid, wts = [], []
    for j in range(ref.n):
        if ref.charge[j]:
            n = 2 * ref.m[j] + 1
            grid.append(np.arange(n) * 2 * np.pi / n)
            wts.append(2 * np.pi / n)
        else:
            x0 = x0_of(ref, j)
            g = np.linspace(-1, 1, 81) * (np.sqrt(2 * ref.m[j]) + 5) * x0
            grid.append(g)
            wts.append(g[1] - g[0])
    for k in range(2):
        psi = np.asarray(cir.eig_phase_coord(k, grid=grid))
        t.close(f'norm of state {k}', np.sum(np.abs(psi) ** 2) * np.prod(wts), 1.0, rtol=1e-6)


def high(t, s):
    """Level numbers beyond the range where the polynomial overflows."""
    reset()
    lp = sq.Loop(s['flux'])
    L = sq.Inductor(s['EL'], 'GHz', loops=[lp])
    J = sq.Junction(s['EJ'], 'GHz', loops=[lp])
    C = sq.Capacitor(s['EC'], 'GHz')
    cir = sq.Circuit({(0, 1): [C, L, J]})
    cir.set_trunc_nums([s['m']])
    ci, lt = float(npop(cir.cInvTrans)[0, 0]), float(npop(cir.lTrans)[0, 0])
    x0 = np.sqrt(HBAR * np.sqrt(ci / lt)) / PHI0
    cir.diag(2)
    g = np.array(s['g']) * x0
    hs = np.array(hfun(s['m'] - 1, g / x0)) / np.sqrt(x0)
    for k in range(2):
        v = npop(cir.evecs[k]).reshape(-1)
        got = np.asarray(cir.eig_phase_coord(k, grid=[g]))
        t.close(f'wavefunction with {s["m"]} levels', got, v @ hs, rtol=1e-6,
                scale=max(np.max(np.abs(v @ hs)), 1e-3 / np.sqrt(x0)))


def gen_high(r, i):
    return {'flux': round(r.random(), 3), 'EL': r.uniform(0.3, 3), 'EJ': r.uniform(1, 10),
            'EC': r.uniform(0.5, 5), 'm': r.choice([120, 180, 262, 275]),
            'g': [0.0, r.uniform(0.1, 2), r.uniform(2, 8), r.uniform(-25, -10)]}


CONTRACTS = {'wavefunction': wave, 'norm': norm, 'high levels': high}


def run(t):
    q = t.tier == 'quick'
    t.loop('high levels', gen_high, high, 4 if q else 30, 0.3)
    t.loop('wavefunction', gen, wave, 120 if q else 1500, 0.7)
    t.loop('norm', gen, norm, 40 if q else 400)
