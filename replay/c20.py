"""C20 on concrete circuits: the symbolic Hamiltonian is evaluated with the
listed numbers and compared with the Hamiltonian of the library."""
import contextlib
import io
import re
import sympy as sm
from .lib import *
from . import c08


def gen(r, i):
    s = c08.gen(r, i)
    s['funit'] = r.choice(['GHz', 'GHz', 'MHz', 'Hz', 'THz'])
    return s


SUB = {ord(c): str(i) for i, c in enumerate('₀₁₂₃₄₅₆₇₈₉')}


def plain(text):
    """The text with Greek letters and subscripts spelt out."""
    text = text.replace('ₑ', '_e').replace('φ', 'phi').replace('ω', 'omega')
    text = text.replace('⋅', '*').replace('π', 'pi')
    text = re.sub('(?<!_e)([₀₁₂₃₄₅₆₇₈₉]+)', r'_\1', text)
    return text.translate(SUB)


class Ev:
    """Value of a symbolic expression as a matrix (numbers stay numbers)."""
    def __init__(self, ref, dv, har):
        self.ref, self.dv, self.har = ref, dv, har

    def sym(self, name):
        dv, h = self.dv, self.har
        m = re.fullmatch(r'(omega|zp|phi|ng|EL|EJ|phi_e|EC|n|a|ad)_?(\d+)', name)
        if not m:
            raise Failure(f'unknown symbol {name} in the description')
        k, d = m.group(1), m.group(2)
        if k == 'EC':
            return float(dv['EC'][int(d[0]) - 1, int(d[1]) - 1])
        i = int(d) - 1
        if k == 'omega':
            return float(dv['omega'][i])
        if k == 'zp':
            return float(dv['phi_zp'][i])
        if k == 'ng':
            return float(dv['ng'][i - h])
        if k in ('EL', 'EJ'):
            return float(npop(dv[k][i]))
        if k == 'phi_e':
            return 2 * np.pi * float(npop(dv['loops'][i]))
        R = self.ref
        if k == 'n':
            return R.on(i, R.n1(i))
        a = ladder(R.m[i])
        if k == 'phi':
            return R.on(i, float(dv['phi_zp'][i]) * (a + a.conj().T))
        return R.on(i, a if k == 'a' else a.conj().T)

    def __call__(self, e):
        if e.is_Number or e.is_NumberSymbol:
            return float(e)
        if isinstance(e, sm.cos):
            return self.cos(e.args[0])
        if e.is_Symbol:
            return self.sym(e.name)
        if type(e).__name__ == 'qOperator':
            return self.sym(str(e.args[0]) if e.args else str(e))
        v = [self(x) for x in e.args]
        if e.is_Add:
            out = v[0]
            for x in v[1:]:
                out = self.add(out, x)
            return out
        if e.is_Mul:
            out = v[0]
            for x in v[1:]:
                out = out @ x if np.ndim(out) and np.ndim(x) else out * x
            return out
        if e.is_Pow:
            return np.linalg.matrix_power(v[0], int(v[1])) if np.ndim(v[0]) else v[0] ** v[1]
        if len(v) == 0 or not hasattr(e, 'args'):
            return float(e)
        raise Failure(f'unexpected expression {e}')

    def add(self, a, b):
        if np.ndim(a) and not np.ndim(b):
            b = b * np.eye(len(a))
        if np.ndim(b) and not np.ndim(a):
            a = a * np.eye(len(b))
        return a + b

    def cos(self, arg):
        arg = sm.expand(arg)
        w = np.zeros(self.ref.n)
        c = 0.0
        for term in sm.Add.make_args(arg):
            co, sy = term.as_coeff_Mul()
            m = re.fullmatch(r'phi_(\d+)', getattr(sy, 'name', ''))
            if m:
                w[int(m.group(1)) - 1] += float(co)
            else:
                c += float(self(term))
        x = np.exp(1j * c) * self.ref.expw(w)
        return (x + x.conj().T) / 2


def descr(t, s):
    b = c08.setup(s, 60)
    cir = b.cir
    sq.set_unit_freq(s['funit'])
    u = FREQ[s['funit']]
    before = npop(cir.hamiltonian())
    with contextlib.redirect_stdout(io.StringIO()):
        text = plain(cir.description('txt', _test=True))
    dv = cir.descrip_vars
    ref = reference(b, b.ng)
    har = sum(not c for c in ref.charge)
    om = np.asarray(cir.omega, float)
    t.equal('number of modes', int(dv['n_modes']), ref.n)
    t.equal('number of harmonic modes', int(dv['har_dim']), har)
    t.equal('number of charge modes', int(dv['charge_dim']), ref.n - har)
    t.equal('number of loops', int(dv['n_loops']), len(cir.loops))
    t.close('mode frequencies', np.asarray(dv['omega'], float), om / 2 / np.pi / u, rtol=1e-12)
    t.close('gate charges', [float(x) for x in dv['ng']],
            [b.ng[i] for i in range(ref.n) if ref.charge[i]], rtol=1e-12, atol=1e-15)
    zp = [2 * np.pi / PHI0 * np.sqrt(HBAR / 2 * ref.z(i)) for i in range(har)]
    t.close('zero-point fluctuations', [float(x) for x in dv['phi_zp']], zp, rtol=1e-9)
    ind = inductive_list(s)
    EJ = [element_value(s['elements'][i]) / 2 / np.pi / u for i, e, k in ind
          if s['elements'][i]['kind'] == 'J']
    EL = [(PHI0 / 2 / np.pi) ** 2 / element_value(s['elements'][i]) / H_PLANCK / u
          for i, e, k in ind if s['elements'][i]['kind'] == 'L']
    t.close('junction energies', [float(npop(x)) for x in dv['EJ']], EJ, rtol=1e-9)
    t.close('inductive energies', [float(npop(x)) for x in dv['EL']], EL, rtol=1e-6)
    nc = [i for i in range(ref.n) if ref.charge[i]]
    for i in nc:
        for j in nc:
            if j >= i:
                want = (2 * EC) ** 2 / HBAR / 2 / np.pi / u * ref.ci[i, j] * (0.5 if i == j else 1)
                t.close(f'charging energy {i},{j}', float(dv['EC'][i, j]), want, rtol=1e-7,
                        atol=1e-9 * abs(ref.ci[i, i]) * (2 * EC) ** 2 / HBAR / 2 / np.pi / u)
    order = [next(k for k, l in enumerate(b.loops) if l is x) for x in cir.loops]
    t.close('loop fluxes', [float(npop(x)) for x in dv['loops']],
            [s['loops'][k] for k in order], rtol=1e-12, atol=1e-15)
    t.close('description leaves the Hamiltonian', npop(cir.hamiltonian()), before, rtol=1e-12)

    # the symbolic Hamiltonian with these numbers
    ev = Ev(ref, dv, har)
    H = ev(dv['H'])
    if not np.ndim(H):
        H = H * np.eye(ref.dim)
    want = before / 2 / np.pi / u
    # what the rounding of the printed shares can change
    tol = 1e-6 * np.max(np.abs(want)) + 1e-12
    B = npop(cir.B) if len(cir.loops) else np.zeros((len(ind), 0))
    fl = [abs(s['loops'][k]) * 2 * np.pi for k in order]
    for (i, e, k), bk in zip(ind, B):
        el = s['elements'][i]
        dphi = 0.0051 * sum(fl)
        if el['kind'] == 'J':
            w = edge_vec(ref.C.shape[0], e) @ ref.S
            tol += element_value(el) / 2 / np.pi / u * (dphi + sum(
                1e-6 * zp[j] * 2 * np.sqrt(ref.m[j]) for j in range(har)))
        elif np.any(bk):
            v = (PHI0 / 2 / np.pi) ** 2 / element_value(el) / H_PLANCK / u
            wv = edge_vec(ref.C.shape[0], e) @ ref.S
            p = sum(zp[j] * 2 * np.sqrt(ref.m[j]) * abs(wv[j]) for j in range(har))
            dp = sum(zp[j] * 2 * np.sqrt(ref.m[j]) * 0.0021 for j in range(har))
            ext = sum(abs(x) * f for x, f in zip(bk, fl))
            tol += v * (p * dphi + dp * (ext + dphi))
    t.close('symbolic Hamiltonian', H, want, rtol=0, atol=tol)

    # printed numbers
    def printed(name, scale_digits):
        m = re.findall(re.escape(name) + r'\s*=\s*([-+0-9.e]+)', text)
        t.true(f'{name} printed', len(m) >= 1)
        return float(m[0])
    for k, v in enumerate(EJ):
        t.close(f'printed junction energy {k}', printed(f'EJ_{k+1}', 3), round(v, 3), rtol=1e-5, atol=0.0011)
    hj = 0
    for k, v in enumerate(EL):
        if dv['EL_has_ext_flux'][k]:
            t.close(f'printed inductive energy {k}', printed(f'EL_{k+1}', 3), round(v, 3), rtol=1e-5, atol=0.0011)
    for n_, i in enumerate(nc):
        t.close(f'printed gate charge {i}', printed(f'ng_{i+1}', 3), b.ng[i], rtol=0, atol=6e-4)
    lines = [l for l in text.split('\n') if l.startswith('mode ')]
    t.equal('mode kinds', [('charge' if 'charge' in l else 'harmonic') for l in lines],
            ['charge' if c else 'harmonic' for c in ref.charge])
    for i in range(har):
        m = re.search(r'omega_%d/\(?2\*pi\)?\s*=\s*([-+0-9.e]+)' % (i + 1), lines[i])
        t.true('mode frequency printed', m is not None)
        t.close(f'printed frequency {i}', float(m.group(1)), om[i] / 2 / np.pi / u, rtol=1e-4, atol=1.1e-5)
        m = re.search(r'zp_%d = ([-+0-9.e]+)' % (i + 1), lines[i])
        t.close(f'printed zero-point {i}', float(m.group(1)), zp[i], rtol=6e-3)
    for k, x in enumerate(order):
        m = re.search(r'phi_e%d/\(?2\*pi\)?\s*=\s*([-+0-9.e]+)' % (k + 1), text)
        t.true('loop flux printed', m is not None)
        t.close(f'printed loop flux {k}', float(m.group(1)), s['loops'][x], rtol=0, atol=0.0051)


def listing(t, s):
    """Element and loop listings."""
    b = Built(s)
    with contextlib.redirect_stdout(io.StringIO()):
        text = b.cir.element_description(_test=True)
    rows = []
    for e, ids in s['edges']:
        rows.append(('edge', str(tuple(e))))
        for i in ids:
            rows.append((s['elements'][i]['kind'], s['elements'][i]))
    lines = [l for l in text.split('\n') if l]
    t.equal('number of lines', len(lines), len(rows))
    names = {'C': 'C', 'L': 'L', 'J': 'JJ'}
    for l, (k, d) in zip(lines, rows):
        if k == 'edge':
            t.equal('edge line', l, f'Edge {d}:')
            continue
        m = re.fullmatch(r'\t(\w+) = (\S+) (\S+)', l)
        t.true('element line', m is not None)
        t.equal('element kind', m.group(1), names[k])
        v = float(m.group(2))
        un = m.group(3)
        # a junction reads back as an angular frequency (C01)
        got = v * FREQ[un] if k == 'J' else element_value(dict(d, value=v, unit=un))
        t.close('element value', got, element_value(d), rtol=6e-4)
    if len(b.cir.loops):
        with contextlib.redirect_stdout(io.StringIO()):
            text = b.cir.loop_description(_test=True)
        rows = text.rstrip('\n').split('\n')[2:]
        B = npop(b.cir.B)
        t.equal('rows of the flux table', len(rows), len(B))
        for k, row in enumerate(rows):
            nums = [float(x) for x in row.split(':')[1].split()]
            t.close(f'flux shares of row {k}', nums, np.abs(B[k]), rtol=0, atol=0.0051)


CONTRACTS = {'description': descr, 'listing': listing}


def run(t):
    q = t.tier == 'quick'
    t.loop('description', gen, descr, 45 if q else 500, 0.8)
    t.loop('listing', lambda r, i: gen_circuit(r, r.choice(['numpy', 'pytorch']), max_extra=2),
           listing, 30 if q else 300)
