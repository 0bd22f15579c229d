"""C06 on concrete circuits."""
from .lib import *


def gen(r, i):
    s = gen_circuit(r, r.choice(['numpy', 'numpy', 'pytorch']), n=r.choice([1, 2, 2, 3, 3, 4, 5]))
    s['tseed'] = r.randint(0, 10 ** 6)
    return s


def trunc(t, s):
    b = Built(s)
    cir = b.cir
    r = random.Random(s['tseed'])
    om = np.asarray(cir.omega, float)
    n = len(om)
    nums = [r.randint(1, 5) if om[i] else r.randint(1, 3) for i in range(n)]
    if all(k == 1 for k in nums):
        nums[0] = 4
    for again in range(2):
        cir.set_trunc_nums(list(nums))
        dims = [2 * k - 1 if om[i] == 0 else k for i, k in enumerate(nums)]
        D = int(np.prod(dims))
        t.equal('truncation numbers read back', [int(x) for x in cir.trunc_nums], nums)
        t.equal('dimensions', [int(x) for x in cir.m], dims)
        H = npop(cir.hamiltonian())
        t.equal('shape of the Hamiltonian', H.shape, (D, D))
        for k in range(n):
            t.equal('shape of a charge operator', npop(cir.charge_op(k + 1)).shape, (D, D))
        f = getattr(cir, '_tensor_to_modes', None)
        if f is not None:
            for x in range(D):
                q, want = x, []
                for m in dims[::-1]:
                    want.append(q % m)
                    q //= m
                t.equal(f'mode indices of {x}', [int(v) for v in f(x)], want[::-1])
        if D >= 5:
            cir.diag(2)
            v = cir.evecs[0]
            t.equal('length of an eigenvector', int(np.prod(npop(v).shape)), D)
        nums = [max(1, k - 1) if r.random() < 0.5 else k + 1 for k in nums]


def auto(t, s):
    b = Built(s)
    cir = b.cir
    r = random.Random(s['tseed'])
    om = np.asarray(cir.omega, float)
    n = len(om)
    for K in [1, 2, r.randint(2, 12), r.randint(10, 300), r.choice([8, 27, 64, 125, 4, 9, 16])]:
        nums = cir.truncate_circuit(K)
        dims = [2 * k - 1 if om[i] == 0 else k for i, k in enumerate(nums)]
        t.equal('truncation numbers read back', [int(x) for x in cir.trunc_nums],
                [int(x) for x in nums])
        t.equal('dimensions', [int(x) for x in cir.m], dims)
        t.true(f'at least one level for K={K}: {nums}', all(k >= 1 for k in nums))
        t.true(f'total size for K={K}: {dims}', int(np.prod(dims)) <= K)
        root = int(np.floor(K ** (1.0 / n) + 1e-9))
        for i, k in enumerate(nums):
            big = root if om[i] else (root + 1) // 2
            t.true(f'level number {k} of mode {i} for K={K}', big - 1 <= k <= big or k == big)


CONTRACTS = {'truncation': trunc, 'automatic': auto}


def run(t):
    q = t.tier == 'quick'
    t.loop('truncation', gen, trunc, 160 if q else 800, 0.6)
    t.loop('automatic', gen, auto, 60 if q else 500)
