"""C12 on concrete circuits."""
from .lib import *
from .c08 import setup


def gen(r, i, engine=None):
    s = gen_circuit(r, engine or r.choice(['numpy', 'pytorch']), max_extra=2)
    s['ngs'] = [round(r.uniform(-0.45, 0.45), 3) for _ in range(4)]
    s['tseed'] = r.randint(0, 10 ** 6)
    s['pseed'] = r.randint(0, 10 ** 6)
    return s


def gen_torch(r, i):
    return gen(r, i, 'pytorch')


def pert(V, w, dH, m):
    k = len(V)
    out = np.zeros_like(V[0], dtype=complex)
    for n in range(k):
        if n != m:
            out += (V[n].conj() @ dH @ V[m]) / (w[m] - w[n]) * V[n]
    return out


def usable(b, total=40):
    """Eigensystem, or None when levels are too close for a stable derivative."""
    cir = b.cir
    D = int(np.prod(dims_of(cir)))
    k = min(5, D - 2)
    if k < 2:
        return None
    H = npop(cir.hamiltonian())
    e = np.linalg.eigvalsh(H)
    if not gap_ok(e[:k + 1], 1e-5):
        return None
    return k


def partial(t, s):
    b = setup(s, 40)
    cir = b.cir
    k = usable(b)
    if k is None:
        t.skip()
    cir.diag(k)
    V, w = vecs(cir, k), npop(cir.efreqs) * 2 * np.pi * 1e9
    fx = Fixed(b, b.ng)
    for key in params_of(s):
        el = element_of(b, key)
        dH = fx.d1(key)
        sc = fx.scale(key)
        own = [np.real(V[m].conj() @ dH @ V[m]) for m in range(k)]
        for m in range(k):
            got = float(npop(cir.get_partial_omega(el, m, subtract_ground=False)))
            t.close(f'derivative of level {m} by {key}', got, own[m], rtol=1e-6, scale=sc)
            got = float(npop(cir.get_partial_omega(el, m)))
            t.close(f'derivative of transition {m} by {key}', got, own[m] - own[0],
                    rtol=1e-6, scale=sc)
            if m < 2:
                pv = npop(cir.get_partial_vec(el, m)).reshape(-1)
                want = pert(V, w, dH, m)
                gap = np.min(np.abs(np.delete(w, m) - w[m]))
                t.close(f'derivative of state {m} by {key}', pv, want, rtol=1e-5, scale=sc / gap)


def backprop(t, s):
    r = random.Random(s['pseed'])
    ps = params_of(s)
    grad = set(r.sample(ps, r.randint(1, len(ps))))
    b = None
    sq.set_engine('PyTorch')
    base = setup(dict(s), 40)
    k = usable(base)
    if k is None:
        t.skip()
    import replay.c08 as c8
    b = Built(s, grad)
    b.ng = base.ng
    b.cir.set_trunc_nums(list(base.cir.trunc_nums))
    for i, x in b.ng.items():
        b.cir.set_charge_offset(i + 1, x)
    cir = b.cir
    f, v = cir.diag(k)
    V, w = vecs(cir, k), npop(cir.efreqs) * 2 * np.pi * 1e9
    D = len(V[0])
    cf = np.array([r.uniform(-1, 1) for _ in range(k)])
    cv = np.array([[complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(D)] for _ in range(k)])
    tcf, tcv = torch.as_tensor(cf), torch.as_tensor(cv)
    loss = torch.sum(tcf * f) + torch.sum(torch.real(torch.conj(tcv) * v))
    loss.backward()
    fx = Fixed(b, b.ng)
    seen = []
    for key in sorted(grad):
        el = element_of(b, key)
        dH = fx.d1(key)
        sc = fx.scale(key)
        own = np.array([np.real(V[m].conj() @ dH @ V[m]) for m in range(k)])
        want = np.sum(cf * own) / 2 / np.pi / 1e9
        gaps = []
        for m in range(k):
            want += np.real(np.sum(cv[m].conj() * pert(V, w, dH, m)))
            gaps.append(np.min(np.abs(np.delete(w, m) - w[m])))
        got = el._value.grad if hasattr(el, '_value') else None
        if got is None:
            got = grad_of(cir, el)
        scale = sc * (1e-9 + D ** 0.5 * sum(1 / g for g in gaps))
        t.close(f'gradient by {key}', float(npop(got)), want, rtol=1e-5, scale=scale)


def grad_of(cir, el):
    for x, g in zip(cir.parameters_elems, cir.parameters_grad):
        if x is el:
            return g
    raise Failure('no gradient for a parameter')


CONTRACTS = {'partial derivatives': partial, 'back-propagation': backprop}


def run(t):
    q = t.tier == 'quick'
    t.loop('partial derivatives', gen, partial, 60 if q else 600, 0.6)
    t.loop('back-propagation', gen_torch, backprop, 40 if q else 400)
