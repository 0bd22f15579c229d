"""C21 on concrete circuits: every invalid call in every state of the circuit."""
import contextlib
import io
from .lib import *
from .c02 import state as settings_state
from SQcircuit.exceptions import CircuitStateError, ModeError

STATES = ['fresh', 'truncated', 'diagonalised']


def snap(cir, st):
    out = {'trunc': list(cir.m), 'n': cir.n, 'flux_dist': cir.flux_dist,
           'settings': settings_state(),
           'els': [[str(e), len(x)] for e, x in cir.elements.items()],
           'ng': [float(npop(q.value())) for q in cir.charge_islands.values()],
           'noise': [float(q.A) for q in cir.charge_islands.values()]}
    arrays = {'values': [float(npop(el.internal_value)) for x in cir.elements.values() for el in x],
              'caps': [float(npop(el.cap.internal_value)) for x in cir.elements.values() for el in x
                       if hasattr(el, 'cap')],
              'loops': [float(npop(l.value())) for l in cir.loops]}
    if st != 'fresh':
        arrays['H'] = npop(cir.hamiltonian())
    if st == 'diagonalised':
        arrays['efreqs'] = npop(cir.efreqs)
        arrays['evecs'] = np.array([npop(v).reshape(-1) for v in cir.evecs])
    return out, arrays


def bad_calls(cir, b, st, engine, spec):
    """(name, kinds of error, call)."""
    el = next(x for y in cir.elements.values() for x in y)
    ind = [x for y in cir.elements.values() for x in y if hasattr(x, 'cap')]
    om = np.asarray(cir.omega, float)
    n = cir.n
    har = [i + 1 for i in range(n) if om[i] != 0]
    chg = [i + 1 for i in range(n) if om[i] == 0]
    V, S, M = ValueError, CircuitStateError, ModeError
    out = []

    def add(name, kinds, fn):
        out.append((name, kinds, fn))
    if st == 'fresh':
        add('hamiltonian before truncation', S, lambda: cir.hamiltonian())
        add('diag before truncation', S, lambda: cir.diag(2))
        add('charge operator before truncation', S, lambda: cir.charge_op(1))
    if st != 'diagonalised':
        add('frequencies before diag', S, lambda: cir.efreqs)
        add('vectors before diag', S, lambda: cir.evecs)
        add('matrix element before diag', S, lambda: cir.matrix_elements('capacitive', (0, 1), (0, 1)))
        for k in ('capacitive', 'inductive', 'quasiparticle', 'charge', 'cc', 'flux'):
            add(f'{k} rate before diag', S, lambda k=k: cir.dec_rate(k, (0, 1)))
        add('frequency derivative before diag', S, lambda: cir.get_partial_omega(el, 0))
        add('state derivative before diag', S, lambda: cir.get_partial_vec(el, 0))
        add('wavefunction before diag', S,
            lambda: cir.eig_phase_coord(0, grid=[np.array([0.1])] * n))
        add('convergence before diag', S, lambda: cir.check_convergence())
    if engine == 'numpy':
        add('parameters with the other engine', M, lambda: cir.parameters)
        add('setting parameters with the other engine', M, lambda: setattr(cir, 'parameters', [1.0]))
        add('gradients with the other engine', M, lambda: cir.parameters_grad)
        add('parameter dictionary with the other engine', M, lambda: cir.parameters_dict)
        add('parameter elements with the other engine', M, lambda: cir.parameters_elems)
        add('parameter types with the other engine', M, lambda: cir.get_params_type())
        add('clearing gradients with the other engine', M, lambda: cir.zero_grad())
        add('gradient flag with the other engine', M, lambda: el.requires_grad)
        add('setting the gradient flag with the other engine', M,
            lambda: setattr(el, 'requires_grad', True))
        add('leaf flag with the other engine', M, lambda: el.is_leaf)
        add('gradient with the other engine', M, lambda: el.grad)
        add('setting a gradient with the other engine', M, lambda: setattr(el, 'grad', None))
    for bad in (tuple([3] * n), 3, None, '3', np.array([3] * n)):
        add(f'truncation numbers {bad!r}', V, lambda bad=bad: cir.set_trunc_nums(bad))
    for bad in ([3] * (n - 1), [3] * (n + 1), []):
        add(f'truncation numbers {bad}', V, lambda bad=bad: cir.set_trunc_nums(bad))
    for fn, nm in ((cir.set_charge_offset, 'gate charge'), (cir.set_charge_noise, 'charge noise')):
        for k in har[:1] + [n + 1, 0]:
            add(f'{nm} of mode {k}', V, lambda fn=fn, k=k: fn(k, 0.3))
        for k in (1.0, '1', None):
            add(f'{nm} of mode {k!r}', V, lambda fn=fn, k=k: fn(k, 0.3))
    for k in (2.0, '2', None):
        add(f'diag({k!r})', (V, S) if st == 'fresh' else V, lambda k=k: cir.diag(k))
    for nm in ('Fock', '', 'eigen'):
        add(f'basis {nm!r}', (V, S) if st == 'fresh' else V, lambda nm=nm: cir.charge_op(1, nm))
    add('operator name', V, lambda: cir.op('cos_half', {}))
    for nm in ('magnetic', 'Capacitive', ''):
        add(f'coupling {nm!r}', V, lambda nm=nm: cir.coupling_op(nm, (0, 1)))
        add(f'matrix element of coupling {nm!r}', (V, S) if st != 'diagonalised' else V,
            lambda nm=nm: cir.matrix_elements(nm, (0, 1), (0, 1)))
    for nd in (1, None):
        add(f'coupling nodes {nd!r}', V, lambda nd=nd: cir.coupling_op('capacitive', nd))
    for nm in ('thermal', 'Charge', ''):
        add(f'noise {nm!r}', (V, S) if st != 'diagonalised' else V,
            lambda nm=nm: cir.dec_rate(nm, (1, 0)))
    for nm in ('node', ''):
        add(f'coordinate {nm!r}', V, lambda nm=nm: cir.coord_transform(nm))
    for k in (1.5, '9', 0, -3):
        add(f'total size {k!r}', V, lambda k=k: cir.truncate_circuit(k))
    for k in (1.0, '0', None):
        add(f'wavefunction of state {k!r}', (V, S) if st != 'diagonalised' else V,
            lambda k=k: cir.eig_phase_coord(k, grid=[np.array([0.1])] * n))
    add('description format', V, lambda: cir.description('html'))
    for nm in ('all ', 'capacitors', ''):
        add(f'flux distribution {nm!r}', V, lambda nm=nm: sq.Circuit(cir.elements, flux_dist=nm))
    for u in ('Ghz', 'parsec', 's'):
        add(f'reading in unit {u!r}', V, lambda u=u: el.get_value(u))
        add(f'setting in unit {u!r}', V, lambda u=u: el.set_value(1.0, u))
        for x in ind[:1]:
            add(f'reading in unit {u!r} (inductive)', V, lambda u=u: x.get_value(u))
            add(f'setting in unit {u!r} (inductive)', V, lambda u=u: x.set_value(1.0, u))
        add(f'capacitor in unit {u!r}', V, lambda u=u: sq.Capacitor(1, u))
        add(f'inductor in unit {u!r}', V, lambda u=u: sq.Inductor(1, u))
        add(f'junction in unit {u!r}', V, lambda u=u: sq.Junction(1, u))
        add(f'frequency unit {u!r}', V, lambda u=u: sq.set_unit_freq(u))
        for f in (sq.set_unit_cap, sq.set_unit_ind, sq.set_unit_JJ):
            add(f'default unit {u!r}', V, lambda u=u, f=f: f(u))
    for u in ('H', 'pH'):
        add(f'capacitor in {u}', V, lambda u=u: sq.Capacitor(1, u))
        add(f'junction in {u}', V, lambda u=u: sq.Junction(1, u))
    for u in ('F', 'fF'):
        add(f'inductor in {u}', V, lambda u=u: sq.Inductor(1, u))
        add(f'junction in {u}', V, lambda u=u: sq.Junction(1, u))
    add('engine', V, lambda: sq.set_engine('jax'))
    if engine == 'pytorch' and len(cir.parameters) > 0:
        add('short parameter list', V, lambda: setattr(cir, 'parameters', []))
    return out


def gen(r, i):
    s = gen_circuit(r, r.choice(['numpy', 'pytorch']), max_extra=2)
    s['tseed'] = r.randint(0, 10 ** 6)
    s['state'] = STATES[i % 3]
    s['ng'] = round(r.uniform(-0.4, 0.4), 3)
    return s


def rejected(t, s):
    r = random.Random(s['tseed'])
    ps = params_of(s) if s['engine'] == 'pytorch' else []
    grad = set(r.sample(ps, min(len(ps), r.randint(0, 2))))
    b = Built(s, grad)
    cir = b.cir
    tr = choose_trunc(r, cir, 24)
    om = np.asarray(cir.omega, float)
    ng = {i: s['ng'] for i in range(len(om)) if om[i] == 0}
    for i, x in ng.items():
        cir.set_charge_offset(i + 1, x)
    if s['state'] != 'fresh':
        cir.set_trunc_nums(tr)
        if len(npop(cir.hamiltonian())) < 5:
            t.skip()
    if s['state'] == 'diagonalised':
        cir.diag(3)
    calls = bad_calls(cir, b, s['state'], s['engine'], s)
    r.shuffle(calls)
    before, arr = snap(cir, s['state'])
    for name, kinds, fn in calls[:s.get('ncalls', 40)]:
        with contextlib.redirect_stdout(io.StringIO()):
            t.raises(name, fn, kinds)
        after, arr2 = snap(cir, s['state'])
        t.equal(f'state after {name}', after, before)
        for k in arr:
            t.close(f'{k} after {name}', arr2[k], arr[k], rtol=0)
    # a valid call afterwards
    cir.set_trunc_nums(tr)
    ref = reference(b, ng)
    if ref.dim < 5:
        return
    w, _ = cir.diag(3)
    want = np.sort(np.linalg.eigvalsh(ref.hamiltonian()))
    t.close('frequencies afterwards', npop(w), want[:3] / 2 / np.pi / 1e9, rtol=1e-7,
            scale=np.max(np.abs(want)) / 2 / np.pi / 1e9)


CONTRACTS = {'rejected': rejected}


def run(t):
    t.loop('rejected', gen, rejected, 60 if t.tier == 'quick' else 600)
