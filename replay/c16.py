"""C16 on concrete circuits."""
import pickle as stdpickle
import dill
import tempfile
from .lib import *
from .c08 import setup
from .c12 import usable


def gen(r, i):
    s = gen_circuit(r, r.choice(['numpy', 'pytorch']), max_extra=2)
    s['ngs'] = [round(r.uniform(-0.45, 0.45), 3) for _ in range(4)]
    s['tseed'] = r.randint(0, 10 ** 6)
    s['pseed'] = r.randint(0, 10 ** 6)
    return s


def pattern(cir):
    """Which element, capacitor and loop objects are the same object."""
    seen = {}

    def nr(o):
        return seen.setdefault(id(o), len(seen))
    out = []
    for e, els in cir.elements.items():
        row = []
        for el in els:
            row.append((type(el).__name__, nr(el),
                        nr(el.cap) if hasattr(el, 'cap') else None,
                        [nr(l) for l in getattr(el, 'loops', [])]))
        out.append((tuple(e), row))
    return out, [nr(l) for l in cir.loops]


def values(cir):
    out = []
    for e, els in cir.elements.items():
        for el in els:
            out.append(float(npop(el.get_value())))
            if hasattr(el, 'cap'):
                out.append(float(npop(el.cap.get_value())))
    out += [float(npop(l.value())) for l in cir.loops]
    return out


def objects(cir):
    out = []
    for els in cir.elements.values():
        for el in els:
            out.append(el)
            if hasattr(el, 'cap'):
                out.append(el.cap)
    return out + list(cir.loops)


def same(t, what, a, b, spec):
    t.equal(f'{what}: structure', pattern(a), pattern(b))
    t.close(f'{what}: values', values(a), values(b), rtol=1e-13)
    t.equal(f'{what}: truncation', list(a.trunc_nums), list(b.trunc_nums))
    Ha, Hb = npop(a.hamiltonian()), npop(b.hamiltonian())
    t.close(f'{what}: Hamiltonian', Ha, Hb, rtol=1e-12)
    for i in range(len(b.trunc_nums)):
        t.close(f'{what}: charge operator', npop(a.charge_op(i + 1)), npop(b.charge_op(i + 1)), rtol=1e-12)


def mutate(r, cir, els, loops, unit_of):
    """A change made through public methods; returns its name."""
    k = r.choice(['value', 'flux', 'trunc', 'ng', 'cap', 'noise'])
    if k == 'flux' and loops:
        r.choice(loops).set_flux(round(r.uniform(-1, 1), 3))
    elif k == 'trunc':
        cir.set_trunc_nums([x + 1 for x in cir.trunc_nums])
    elif k in ('ng', 'noise'):
        om = np.asarray(cir.omega, float)
        ch = [i for i in range(len(om)) if om[i] == 0]
        if ch:
            i = r.choice(ch)
            (cir.set_charge_offset if k == 'ng' else cir.set_charge_noise)(i + 1, 0.21)
    else:
        el = r.choice(els)
        if k == 'cap' and hasattr(el, 'cap'):
            el.cap.set_value(round(r.uniform(3, 9), 5), 'GHz')
        else:
            el.set_value(round(r.uniform(3, 9), 5), 'GHz')
        cir.update()
    return k


def copies(t, s):
    r = random.Random(s['pseed'])
    ps = params_of(s)
    grad = set(r.sample(ps, r.randint(0, len(ps)))) if s['engine'] == 'pytorch' else ()
    b = setup(s, 30)
    ng, tr = b.ng, list(b.cir.trunc_nums)
    b = Built(s, grad)
    b.cir.set_trunc_nums(tr)
    for i, x in ng.items():
        b.cir.set_charge_offset(i + 1, x)
        b.cir.set_charge_noise(i + 1, 3e-4)
    cir = b.cir
    b.ng = ng
    k = usable(b)
    had = k is not None and r.random() < 0.7
    if had:
        cir.diag(k)
    H0 = npop(cir.hamiltonian()).copy()
    v0, p0 = values(cir), pattern(cir)
    e0 = npop(cir.efreqs).copy() if had else None
    keep = r.random() < 0.5
    cp = cir.safecopy(save_eigs=keep) if (keep and had) else cir.safecopy()
    keep = keep and had
    # the original is as before
    t.equal('original structure', pattern(cir), p0)
    t.close('original values', values(cir), v0, rtol=0)
    if had:
        t.close('original eigenfrequencies', npop(cir.efreqs), e0, rtol=0)
    same(t, 'copy', cp, cir, s)
    for i in ng:
        t.close('noise amplitude', float(cp.charge_islands[i].A), float(cir.charge_islands[i].A))
    a, c = objects(cir), objects(cp)
    for x in c:
        t.true('copy shares an object with the original', not any(x is y for y in a))
    if s['engine'] == 'pytorch':
        for x in c:
            v = x.internal_value
            t.true('copy is linked to the gradient graph', v.grad_fn is None)
        t.equal('number of parameters', len(cp.parameters), len(cir.parameters))
        ids = {id(x): i for i, x in enumerate(a)}
        idc = {id(x): i for i, x in enumerate(c)}
        t.equal('parameters', [idc.get(id(x)) for x in cp.parameters_elems],
                [ids.get(id(x)) for x in cir.parameters_elems])
    if keep:
        t.close('kept eigenfrequencies', npop(cp.efreqs), e0, rtol=0)
        for i in range(k):
            t.close('kept eigenvectors', npop(cp.evecs[i]), npop(cir.evecs[i]), rtol=0)
        for d in ('capacitive', 'inductive', 'quasiparticle', 'cc', 'flux', 'charge'):
            t.close(f'{d} rate of the copy', float(npop(cp.dec_rate(d, (0, 1))).real),
                    float(npop(cir.dec_rate(d, (0, 1))).real), rtol=1e-10)
    else:
        t.raises('eigenfrequencies of a copy without eigensystem', lambda: cp.efreqs)
    # later changes
    if r.random() < 0.5:
        mutated, other = cp, cir
    else:
        mutated, other = cir, cp
    els = [el for x in mutated.elements.values() for el in x]
    vo, Ho = values(other), npop(other.hamiltonian()).copy()
    names = [mutate(r, mutated, els, list(mutated.loops), None) for _ in range(3)]
    t.close(f'values of the other circuit after {names}', values(other), vo, rtol=0)
    t.close(f'Hamiltonian of the other circuit after {names}', npop(other.hamiltonian()), Ho, rtol=1e-12)
    if keep and mutated is cir:
        t.close('kept eigenfrequencies after a change', npop(cp.efreqs), e0, rtol=0)
    # both can be changed to the same settings
    other.update()
    t.close('Hamiltonian of the other circuit after an update', npop(other.hamiltonian()), Ho,
            rtol=1e-9)


def pickled(t, s):
    b = setup(s, 30)
    cir = b.cir
    r = random.Random(s['pseed'])
    H0 = npop(cir.hamiltonian()).copy()
    src = cir.picklecopy() if r.random() < 0.6 else cir
    data = dill.dumps(src, dill.HIGHEST_PROTOCOL)
    back = dill.loads(data)
    t.equal('restored structure', pattern(back), pattern(cir))
    t.close('restored values', values(back), values(cir), rtol=0)
    back.update()
    t.close('restored Hamiltonian', npop(back.hamiltonian()), H0, rtol=1e-9)
    t.equal('restored truncation', list(back.trunc_nums), list(cir.trunc_nums))
    t.close('Hamiltonian of the original after pickling', npop(cir.hamiltonian()), H0, rtol=0)
    again = dill.loads(dill.dumps(cir, dill.HIGHEST_PROTOCOL))
    t.close('full pickle keeps operators', npop(again.hamiltonian()), H0, rtol=1e-12)
    back2 = dill.loads(dill.dumps(back, dill.HIGHEST_PROTOCOL))
    t.close('restored circuit pickles in full', npop(back2.hamiltonian()), H0, rtol=1e-9)


CONTRACTS = {'copies': copies, 'pickles': pickled}


def run(t):
    q = 1 if t.tier == 'quick' else 8
    t.loop('copies', gen, copies, 90 * q, 0.7)
    t.loop('pickles', gen, pickled, 40 * q)
