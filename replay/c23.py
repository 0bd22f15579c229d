"""C23 on concrete circuits."""
from .lib import *
from . import c08


def gen(r, i):
    s = c08.gen(r, i)
    s['cseed'] = r.randint(0, 10 ** 6)
    return s


def outside(ref, vec, t):
    """Weight of the basis states with some mode among its last t levels."""
    w = 0.0
    for idx, x in zip(np.ndindex(*ref.m), np.asarray(vec)):
        if any(l >= m - t for l, m in zip(idx, ref.m)):
            w += abs(x) ** 2
    return w


def figure(t, s):
    b = c08.setup(s, 60)
    cir = b.cir
    ref = reference(b, b.ng)
    if ref.dim < 6:
        t.skip()
    r = random.Random(s['cseed'])
    k = min(4, ref.dim - 2)
    cir.diag(k)
    before = [np.array(x) for x in vecs(cir, k)]
    for _ in range(4):
        st, w = r.randrange(k), r.choice([1, 1, 2, 3, 10])
        want = outside(ref, before[st], w)
        ok, eps = cir.check_convergence(eig_vec_idx=st, t=w, threshold=1e-5)
        t.close(f'figure of state {st} with {w} levels', float(eps), want, rtol=1e-9, scale=1)
        t.equal('decision', bool(ok), bool(float(eps) < 1e-5))
        for f in (0.5, 2.0):
            if want > 1e-12:
                t.equal(f'decision at {f}', bool(cir.check_convergence(st, w, f * want)[0]), f > 1)
    if k > 1:
        ok, eps = cir.check_convergence()
        t.close('default state and levels', float(eps), outside(ref, before[1], 10),
                rtol=1e-9, scale=1)
        t.equal('default decision', bool(ok), bool(float(eps) < 1e-5))
    for x, y in zip(before, vecs(cir, k)):
        t.close('eigenvectors unchanged', y, x, rtol=1e-12, scale=1)


CONTRACTS = {'convergence': figure}


def run(t):
    t.loop('convergence', gen, figure, 60 if t.tier == 'quick' else 600)
