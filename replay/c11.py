"""C11 on concrete circuits."""
from .lib import *
from .c08 import gen as gen8, setup


def gen(r, i):
    s = gen8(r, i)
    s['pseed'] = r.randint(0, 10 ** 9)
    return s


def ref_coupling(ref, kind, nodes):
    n1, n2 = nodes
    if kind == 'capacitive':
        K = np.linalg.inv(ref.C) @ ref.R
        w = K[n1 + n2 - 1] if 0 in nodes else K[n2 - 1] - K[n1 - 1]
        return sum(w[i] * ref.Q(i) for i in range(ref.n))
    w = edge_vec(ref.C.shape[0], nodes) @ ref.S
    return sum(w[i] * ref.phi(i) for i in range(ref.n))


def coupling(t, s):
    b = setup(s, 60)
    cir = b.cir
    ref = reference(b, b.ng)
    r = random.Random(s['pseed'])
    N = ref.C.shape[0]
    D = ref.dim
    k = min(4, D - 2)
    if k >= 1:
        cir.diag(k)
        V = vecs(cir, k)
    for kind in ('capacitive', 'inductive'):
        ops = {}
        sc = None
        for a in range(N + 1):
            for c in range(N + 1):
                if a != c:
                    op = npop(cir.coupling_op(kind, (a, c)))
                    want = ref_coupling(ref, kind, (a, c))
                    ops[a, c] = op
                    full = max(np.max(np.abs(ref_coupling(ref, kind, (0, x)))) for x in range(1, N + 1))
                    t.close(f'{kind} operator {(a, c)}', op, want, rtol=1e-8, scale=full)
        for a in range(1, N + 1):
            for c in range(1, N + 1):
                if a != c:
                    t.close('swapped nodes', ops[a, c], -ops[c, a], rtol=1e-9, scale=full)
                    sg = 1 if kind == 'capacitive' else -1
                    t.close('chain to ground', ops[a, c], sg * (ops[0, c] - ops[0, a]),
                            rtol=1e-9, scale=full)
        if k >= 1:
            for _ in range(3):
                a, c = r.sample(range(N + 1), 2)
                i, j = r.randrange(k), r.randrange(k)
                if i == j and kind == 'capacitive' and False:
                    continue
                got = complex(npop(cir.matrix_elements(kind, (a, c), (i, j))))
                back = complex(npop(cir.matrix_elements(kind, (a, c), (j, i))))
                want = V[i].conj() @ ops[a, c] @ V[j]
                t.close(f'{kind} matrix element', got, want, rtol=1e-8, scale=full)
                t.close('conjugate symmetry', back, np.conj(got), rtol=1e-8, scale=full)


CONTRACTS = {'coupling': coupling}


def run(t):
    t.loop('coupling', gen, coupling, 70 if t.tier == 'quick' else 700)
