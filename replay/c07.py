"""C07 on concrete circuits."""
from .lib import *
from .c08 import gen, setup


def modeops(t, s):
    b = setup(s)
    cir = b.cir
    ref = reference(b, b.ng)
    D = ref.dim
    M = getattr(cir, '_memory_ops', {})
    for i in range(ref.n):
        q = ref.Q(i)
        t.close(f'charge operator of mode {i}', npop(cir.charge_op(i + 1)), q, rtol=1e-9)
        if 'phi' in M:
            t.close(f'flux operator of mode {i}', npop(M['phi'][i]), ref.phi(i), rtol=1e-9)
        if 'N' in M:
            t.close(f'number operator of mode {i}', npop(M['N'][i]), ref.N(i), rtol=1e-9,
                    atol=1e-12)
        if 'QQ' in M:
            for j in range(i, ref.n):
                t.close(f'product of charge operators {i},{j}', npop(M['QQ'][i][j - i]),
                        ref.on(i, ref.q1(i) @ ref.q1(i)) if i == j else q @ ref.Q(j), rtol=1e-9)
    if 'exp' in M:
        for k, w in enumerate(ref.wt):
            t.close(f'phase operator of junction edge {k}', npop(M['exp'][k]),
                    ref.expw(npop(cir.wTrans)[k]), rtol=1e-8)
            t.close(f'half phase operator of junction edge {k}', npop(M['root_exp'][k]),
                    ref.expw(npop(cir.wTrans)[k], True), rtol=1e-8)


CONTRACTS = {'operators': modeops}


def run(t):
    t.loop('operators', gen, modeops, 80 if t.tier == 'quick' else 800)
