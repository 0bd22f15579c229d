"""C04 on concrete circuits."""
from .lib import *


def gen(r, i):
    s = gen_circuit(r, r.choice(['numpy', 'numpy', 'pytorch']), n=r.choice([1, 2, 2, 3, 4]),
                    max_extra=3)
    if not s['loops']:
        return None
    s['new'] = [round(r.uniform(-1, 1), 3) for _ in s['loops']]
    return s


def flux(t, s):
    b = Built(s)
    cir = b.cir
    B = npop(cir.B)
    ind = inductive_list(s)
    order = [next(k for k, l in enumerate(b.loops) if l is x) for x in cir.loops]
    t.equal('every loop is known once', sorted(order), list(range(len(s['loops']))))
    t.equal('shape of the flux shares', B.shape, (len(ind), len(order)))
    ro = loop_order(s)
    G = loop_vectors(s)[[ro.index(k) for k in order]]
    t.close('loop equations', np.abs(G @ B), np.eye(len(order)), rtol=5e-5)
    sg = np.sign(np.diag(G @ B))
    # weighted balance at every node
    n = max(max(e) for e, _ in s['edges'])
    K = np.array([edge_vec(n, e) for _, e, _ in ind])
    w = flux_weights(s)
    for k in range(n):
        terms = np.abs(K[:, k])[:, None] * w[:, None]
        sc = np.max(terms)
        if sc == 0:
            continue
        res = (K[:, k] * w) @ B
        t.close('balance', res, np.zeros_like(res), scale=sc, rtol=5e-5)
    # exact shares where the weights are of one size
    if len(order):
        t.close('shares', B * sg, ref_B(s)[:, [ro.index(k) for k in order]], rtol=0, atol=3e-5)
    # flux at an element follows the loops
    for l, v in zip(b.loops, s['new']):
        l.set_flux(v)
    f = getattr(cir, '_get_external_flux_at_element', None)
    want = B @ (2 * np.pi * np.array([s['new'][k] for k in order]))
    if f is not None:
        got = np.array([complex(npop(f(i))) for i in range(len(ind))])
        t.close('flux at elements', got, want.astype(complex), rtol=1e-12, scale=10)


CONTRACTS = {'flux': flux}


def run(t):
    t.loop('flux', gen, flux, 250 if t.tier == 'quick' else 3000)
