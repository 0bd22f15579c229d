"""Evaluation of the contracts on the real code with concrete inputs.

Runs under the interpreter that has the library's dependencies.  Circuits are
described by plain JSON data so that a failing input can be written to a file
and run again.  The expected values are computed here from the definitions.
"""
import itertools
import json
import logging
import os
import random
import sys
import time
import traceback

os.environ.setdefault('OMP_NUM_THREADS', '1')
import warnings
warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

import numpy as np
import scipy.linalg
import torch
import qutip as qt
torch.set_num_threads(1)

import SQcircuit as sq
from SQcircuit import units as unt
from SQcircuit import settings as sqset

HBAR, PHI0, EC, KB = 1.0545718e-34, 2.067833e-15, 1.6021766e-19, 1.38e-23
FREQ = {'Hz': 1., 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}
FARAD = {'F': 1., 'mF': 1e-3, 'uF': 1e-6, 'nF': 1e-9, 'pF': 1e-12, 'fF': 1e-15}
HENRY = {'H': 1., 'mH': 1e-3, 'uH': 1e-6, 'nH': 1e-9, 'pH': 1e-12, 'fH': 1e-15}
TIME = {'s': 1.0, 'ms': 1.0e-3, 'us': 1.0e-6, 'ns': 1.0e-9, 'ps': 1.0e-12, 'fs': 1.0e-15}
H_PLANCK = 2 * np.pi * HBAR
# defaults fixed when the library is imported
UNIT_KEYS = ('_unit_freq', '_unit_cap', '_unit_ind', '_unit_JJ')


# inputs per contract in the quick tier, as a multiple of the counts in the modules
QUICK = 4


class Failure(Exception):
    """The code under test does not do what the contract says."""


class OutOfTime(BaseException):
    pass


class Skip(Exception):
    """The input is outside the contract's precondition."""


class T:
    """One replay run: budget, randomness, failures."""
    def __init__(self, prop, seed, tier, budget):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0, self.budget = time.time(), budget
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.errors = []
        self.unavailable = set()
        self.skipped = 0
        self.outside = 0
        self.worst = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def rng(self, name, i):
        return random.Random(f'{self.seed}/{self.prop}/{name}/{i}')

    def run(self, name, fn, data, sample=True):
        """Evaluate one contract on one input; data is JSON."""
        reset()
        self.evaluations += 1
        key = json.dumps([name, data], sort_keys=True, default=str)
        self.distinct.add(hash(key))
        if len(self.samples) < 8 and sample and self.evaluations % 7 == 1:
            self.samples.append({'contract': name, 'input': json.loads(json.dumps(data, default=str))})
        try:
            fn(self, data)
        except Failure as e:
            self.fail(name, data, str(e))
        except Skip:
            self.evaluations -= 1
            self.distinct.discard(hash(key))
            self.outside += 1
        except OutOfTime:
            raise
        except Exception as e:
            self.classify(name, data, e)
        finally:
            reset()

    def classify(self, name, data, e):
        """An exception inside the library on a valid input is a failure; one
        raised by this harness (say, an internal name that is gone) is not."""
        tb = traceback.extract_tb(e.__traceback__)
        here = os.path.dirname(os.path.abspath(__file__))
        lib = [f for f in tb if f.filename.startswith(os.path.join(REPO, 'SQcircuit'))]
        last_own = max((i for i, f in enumerate(tb) if f.filename.startswith(here)), default=-1)
        last_lib = max((i for i, f in enumerate(tb)
                        if f.filename.startswith(os.path.join(REPO, 'SQcircuit'))), default=-1)
        msg = f'{type(e).__name__}: {e} at ' + '; '.join(
            f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-3:])
        if last_lib > last_own:
            self.fail(name, data, 'exception on a valid input: ' + msg)
        else:
            self.errors.append(f'{name}: {msg}')

    def fail(self, name, data, text):
        self.failures.append({'contract': name, 'input': data, 'what': text})

    def loop(self, name, gen, fn, n, share=1.0):
        """n random inputs, or until the share of the time budget is used."""
        stop = time.time() + max(1.0, self.left() * share)
        if self.tier == 'quick':
            n *= QUICK
        for i in range(n):
            if time.time() > stop or self.left() < 0:
                self.skipped += n - i
                break
            if len(self.failures) >= 3:
                break
            r = self.rng(name, i)
            try:
                data = gen(r, i)
            except Failure:
                continue
            if data is None:
                continue
            self.run(name, fn, data)

    # ------------------------------------------------------ assertions
    def close(self, what, got, want, rtol=1e-7, atol=0.0, scale=None):
        g, w = nparr(got), nparr(want)
        if g.shape != w.shape:
            raise Failure(f'{what}: shape {g.shape}, expected {w.shape}')
        if g.size == 0:
            return
        s = np.max(np.abs(w)) if scale is None else scale
        d = np.abs(g - w)
        if not np.all(np.isfinite(g)) and np.all(np.isfinite(w)):
            raise Failure(f'{what}: not finite: {g!r}')
        tol = rtol * s + atol
        m = np.max(d) if np.all(np.isfinite(w)) else (0.0 if np.array_equal(g, w) else np.inf)
        self.worst[what.split(' ')[0]] = max(self.worst.get(what.split(' ')[0], 0.0),
                                             float(m / tol) if tol > 0 else float(m > 0))
        if not m <= tol:
            i = np.unravel_index(np.argmax(d), d.shape) if d.ndim else ()
            raise Failure(f'{what}: got {g[i]!r}, expected {w[i]!r} at {tuple(map(int, i))} '
                          f'(largest difference {m:.3g}, tolerance {tol:.3g})')

    def skip(self):
        raise Skip()

    def true(self, what, cond):
        if not cond:
            raise Failure(what)

    def equal(self, what, got, want):
        if not (got == want):
            raise Failure(f'{what}: got {got!r}, expected {want!r}')

    def raises(self, what, fn, kinds=Exception):
        try:
            fn()
        except kinds:
            return
        raise Failure(f'{what}: accepted')


def nparr(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().resolve_conj()
        if x.layout != torch.strided:
            x = x.to_dense()
        return x.cpu().numpy()
    if isinstance(x, qt.Qobj):
        return x.full()
    return np.asarray(x)


def npop(x):
    """Operator of either engine as a dense array."""
    return np.asarray(nparr(x))


def reset():
    """Global settings as after importing the library."""
    try:
        sq.set_engine('NumPy')
        unt.set_unit_freq('GHz')
        unt.set_unit_cap('GHz')
        unt.set_unit_ind('GHz')
        unt.set_unit_JJ('GHz')
        from SQcircuit import noise
        noise.reset_to_default()
    except Exception:
        pass


# ------------------------------------------------------------- circuits

def rnd(r, lo, hi):
    """log-uniform with few digits"""
    return float(f'{lo * (hi / lo) ** r.random():.6g}')


class GraphGen:
    """Random circuit description.

    {'elements': [{'kind','value','unit','cap','loops',...}],
     'edges': [[[n1, n2], [element ids]]], 'loops': [flux], 'flux_dist': ...}
    """
    def __init__(self, r, n=None, kinds='random', loops=True, max_extra=1, flip=True,
                 own_cap=True, share=False, floating=False, big_cap=None, perm=True):
        self.r = r
        n = n or r.choice([1, 1, 2, 2, 3])
        self.n = n
        els, edges, inductive = [], {}, []
        nodes = list(range(1, n + 1))
        if perm:
            r.shuffle(nodes)
        # tree over 0..n
        placed = [0]
        tree = []
        for v in nodes:
            if floating and v != nodes[-1] and len(placed) == 1:
                u = 0
            else:
                u = r.choice(placed)
            tree.append((u, v))
            placed.append(v)

        def add_el(edge, el):
            els.append(el)
            edges.setdefault(edge, []).append(len(els) - 1)
            return len(els) - 1

        def orient(u, v):
            return (v, u) if flip and r.random() < 0.5 else (u, v)

        def indel(edge, kind):
            el = {'kind': kind, 'unit': 'GHz',
                  'value': rnd(r, 0.3, 4) if kind == 'L' else rnd(r, 1, 15), 'loops': []}
            if own_cap and r.random() < 0.5:
                el['cap'] = [rnd(r, 2, 40), 'GHz']
            i = add_el(edge, el)
            inductive.append((i, edge))
            return i

        if kinds == 'random':
            pick = lambda: r.choice(['L', 'J', 'J'])
        elif kinds == 'L':
            pick = lambda: 'L'
        elif kinds == 'J':
            pick = lambda: 'J'
        else:
            pick = kinds
        for u, v in tree:
            e = orient(u, v)
            k = pick()
            indel(e, k)
            add_el(e, {'kind': 'C', 'unit': 'GHz', 'value': rnd(r, 0.3, 6)})
        if kinds == 'random' and not any(els[i]['kind'] == 'J' for i, _ in inductive):
            i, e = inductive[0]
            els[i]['kind'] = 'J'
            els[i]['value'] = rnd(r, 1, 15)
        if loops:
            for _ in range(r.randint(0, max_extra) if max_extra else 0):
                if r.random() < 0.5 or n == 1:
                    e = r.choice(list(edges))
                else:
                    u, v = r.sample(range(0, n + 1), 2)
                    e = (u, v)
                    if (v, u) in edges:
                        e = (v, u)
                indel(e, pick() if kinds != 'random' else r.choice(['L', 'J', 'L']))
        # some pure capacitors between nodes
        if n > 1 and r.random() < 0.5:
            u, v = r.sample(range(0, n + 1), 2)
            e = (v, u) if (v, u) in edges else (u, v)
            add_el(e, {'kind': 'C', 'unit': 'GHz', 'value': rnd(r, 3, 40)})
        order = list(edges)
        r.shuffle(order)
        for e in order:
            r.shuffle(edges[e])
        # a circuit needs loops for every fundamental cycle of the inductive graph
        self.els, self.edges, self.order = els, edges, order
        self.assign_loops()
        self.share = share

    def assign_loops(self):
        r = self.r
        order = self.order
        parent = {}
        adj = {}
        cyc = []

        def path(a, b):
            """tree path a -> b as list of (el, sign wrt own edge)"""
            prev = {a: None}
            q = [a]
            while q:
                x = q.pop(0)
                for (y, i, s) in adj.get(x, []):
                    if y not in prev:
                        prev[y] = (x, i, s)
                        q.append(y)
            if b not in prev:
                return None
            out = []
            while prev[b] is not None:
                x, i, s = prev[b]
                out.append((i, s))
                b = x
            return out[::-1]
        self.cycles = []
        for e in order:
            for i in self.edges[e]:
                if self.els[i]['kind'] == 'C':
                    continue
                u, v = e
                p = path(v, u)
                if p is None:
                    adj.setdefault(u, []).append((v, i, 1))
                    adj.setdefault(v, []).append((u, i, -1))
                else:
                    self.cycles.append([(i, 1)] + p)
        loops = []
        for c in self.cycles:
            k = len(loops)
            loops.append(round(r.uniform(-0.9, 0.9), 4))
            for i, _ in c:
                self.els[i]['loops'].append(k)
        self.loops = loops

    def spec(self, engine='numpy', flux_dist=None):
        return {'engine': engine, 'flux_dist': flux_dist or self.r.choice(
                    ['junctions', 'inductors', 'all', 'all']) if self._dist_ok() else 'all',
                'elements': self.els, 'loops': self.loops,
                'edges': [[list(e), self.edges[e]] for e in self.order]}

    def _dist_ok(self):
        return True


def fix_dist(spec):
    """junctions/inductors distribution needs loops that contain both kinds,
    otherwise the weights are all tiny or all huge; keep it anyway: the
    equations stay regular."""
    return spec


def gen_circuit(r, engine='numpy', **kw):
    if 'n' not in kw and 'kinds' not in kw and not kw.get('floating') and r.random() < 0.25:
        return special(r, engine)
    g = GraphGen(r, **kw)
    s = g.spec(engine)
    if r.random() < 0.3:
        merge(r, s)
    return s


def special(r, engine):
    """Structures that random graphs hit rarely."""
    els, loops, edges = [], [], []

    def el(kind, lps=(), own=0.4):
        e = {'kind': kind, 'unit': 'GHz',
             'value': {'C': rnd(r, 0.3, 6), 'L': rnd(r, 0.3, 3), 'J': rnd(r, 2, 12)}[kind]}
        if kind != 'C':
            e['loops'] = list(lps)
            if r.random() < own:
                e['cap'] = [rnd(r, 3, 40), 'GHz']
        els.append(e)
        return len(els) - 1

    def flux():
        loops.append(round(r.uniform(-0.9, 0.9), 4))
        return len(loops) - 1

    def edge(a, b, ids):
        ids = list(ids)
        r.shuffle(ids)
        edges.append([[b, a] if r.random() < 0.5 else [a, b], ids])
    what = r.choice(['zeropi', 'parallel', 'chain', 'ring', 'twins'])
    if what == 'zeropi':
        l = flux()
        L, J = el('L', [l]), el('J', [l])
        C, CJ = el('C'), el('C')
        edge(0, 1, [CJ, J])
        edge(0, 2, [L])
        edge(0, 3, [C])
        edge(1, 2, [C])
        edge(1, 3, [L])
        edge(2, 3, [CJ, J])
    elif what == 'parallel':
        l = flux()
        edge(0, 1, [el('C'), el('J', [l]), el('J', [l])])
        edge(0, 2, [el('C'), el(r.choice('JJL'))])
        edge(1, 2, [el('C')])
    elif what == 'chain':
        n = r.choice([3, 4])
        for k in range(1, n + 1):
            edge(r.choice([0, k - 1]), k, [el('C'), el(r.choice('JJL') if k > 1 else 'J')])
    elif what == 'ring':
        # three elements around one loop, two of them the same
        l = flux()
        x = r.choice('JJL')
        a, b = el(x, [l]), el('J' if x == 'L' else r.choice('JL'), [l])
        edge(0, 1, [el('C'), a])
        edge(1, 2, [el('C'), a])
        edge(2, 0, [el('C'), b])
    else:
        # the same inductor across two parallel-flux branches of one edge pair
        l1, l2 = flux(), flux()
        edge(0, 1, [el('C'), el('J', [l1]), el('L', [l1, l2]), el('J', [l2])])
        if r.random() < 0.5:
            edge(1, 2, [el('C')])
            edge(0, 2, [el('C'), el('J')])
    r.shuffle(edges)
    return {'engine': engine, 'flux_dist': r.choice(['junctions', 'inductors', 'all', 'all']),
            'elements': els, 'loops': loops, 'edges': edges, 'structure': what}


def merge(r, s):
    """Let one element sit on two edges."""
    place = {i: k for k, (_, ids) in enumerate(s['edges']) for i in ids}
    els = s['elements']
    pairs = [(a, b) for a in place for b in place
             if a != b and place[a] != place[b] and els[a]['kind'] == els[b]['kind']
             and els[a].get('loops', []) == els[b].get('loops', [])]
    if pairs:
        a, b = r.choice(sorted(pairs))
        ids = s['edges'][place[b]][1]
        ids[ids.index(b)] = a


def cap_si(v, u):
    return v * FARAD[u] if u in FARAD else EC ** 2 / 2 / (v * FREQ[u] * H_PLANCK)


def ind_si(v, u):
    return v * HENRY[u] if u in HENRY else (PHI0 / 2 / np.pi) ** 2 / (v * FREQ[u] * H_PLANCK)


class Built:
    """Circuit objects made from a description."""
    def __init__(self, spec, grad=()):
        self.spec = spec
        sq.set_engine('PyTorch' if spec['engine'] == 'pytorch' else 'NumPy')
        self.loops = [sq.Loop(value=f, **({'requires_grad': True} if ('loop', k) in grad else {}),
                              **spec.get('loop_kw', {}))
                      for k, f in enumerate(spec['loops'])]
        self.els = []
        self.caps = {}
        for k, e in enumerate(spec['elements']):
            kw = dict(e.get('kw', {}))
            if ('el', k) in grad:
                kw['requires_grad'] = True
            if e['kind'] == 'C':
                self.els.append(sq.Capacitor(e['value'], e['unit'], **kw))
                continue
            if e.get('cap'):
                ck = dict(e.get('capkw', {}))
                if ('cap', k) in grad:
                    ck['requires_grad'] = True
                self.caps[k] = sq.Capacitor(e['cap'][0], e['cap'][1], **ck)
                kw['cap'] = self.caps[k]
            cls = sq.Inductor if e['kind'] == 'L' else sq.Junction
            self.els.append(cls(e['value'], e['unit'],
                                loops=[self.loops[i] for i in e['loops']], **kw))
        self.cir = sq.Circuit({tuple(e): [self.els[i] for i in ids]
                               for e, ids in spec['edges']}, flux_dist=spec['flux_dist'])


def element_value(e):
    """SI value (F, H, rad/s)."""
    if e['kind'] == 'C':
        return cap_si(e['value'], e['unit'])
    if e['kind'] == 'L':
        return ind_si(e['value'], e['unit'])
    return e['value'] * FREQ[e['unit']] * 2 * np.pi


def edge_vec(n, e):
    """Incidence of an edge: node flux difference, ground is zero."""
    w = np.zeros(n + 1)
    a, b = e
    if a == 0 or b == 0:
        w[a + b] = 1
    else:
        w[a] += 1
        w[b] -= 1
    return w[1:]


TINYCAP = 1e-20


def ref_matrices(spec):
    n = max(max(e) for e, _ in spec['edges'])
    C, L, W = np.zeros((n, n)), np.zeros((n, n)), []
    for e, ids in spec['edges']:
        w = edge_vec(n, e)
        lap = np.outer(w, w)
        junc = False
        for i in ids:
            el = spec['elements'][i]
            if el['kind'] == 'C':
                C += cap_si(el['value'], el['unit']) * lap
            else:
                cap = cap_si(*el['cap']) if el.get('cap') else TINYCAP
                C += cap * lap
                if el['kind'] == 'L':
                    L += lap / ind_si(el['value'], el['unit'])
                else:
                    junc = True
        if junc:
            W.append(w)
    return C, L, np.array(W).reshape(len(W), n)


def inductive_list(spec):
    """(element id, edge, b index) in the order of the description"""
    out = []
    for e, ids in spec['edges']:
        for i in ids:
            if spec['elements'][i]['kind'] != 'C':
                out.append((i, tuple(e), len(out)))
    return out


def flux_weights(spec):
    ws = []
    for i, e, b in inductive_list(spec):
        el = spec['elements'][i]
        d = spec['flux_dist']
        if d == 'all':
            ws.append(cap_si(*el['cap']) if el.get('cap') else TINYCAP)
        else:
            small = (el['kind'] == 'J') == (d == 'junctions')
            ws.append(1e-20 if small else 1e20)
    return np.array(ws)


def loop_order(spec):
    """Loops in the order in which the circuit meets them."""
    seen = []
    for i, e, b in inductive_list(spec):
        for l in spec['elements'][i]['loops']:
            if l not in seen:
                seen.append(l)
    return seen


def loop_vectors(spec):
    """For every loop the signs of its elements along the loop; the first
    element of the loop is +1."""
    n = max(max(e) for e, _ in spec['edges'])
    ind = inductive_list(spec)
    G = []
    for l in loop_order(spec):
        mem = [(b, edge_vec(n, e)) for i, e, b in ind for x in spec['elements'][i]['loops'] if x == l]
        K = np.array([w for _, w in mem])
        # signs s with sum s_k w_k = 0, s_0 = 1
        u, s, vt = np.linalg.svd(K.T)
        null = vt[-1]
        g = np.zeros(len(ind))
        for (b, _), x in zip(mem, null / null[0]):
            g[b] = round(x)
        G.append(g)
    return np.array(G).reshape(len(G), len(ind))


def ref_flux(spec):
    """External flux (rad) of every inductive element, exact arithmetic in the
    null space of the balance equations."""
    n = max(max(e) for e, _ in spec['edges'])
    ind = inductive_list(spec)
    lo = loop_order(spec)
    phi = np.array([spec['loops'][l] for l in lo]) * 2 * np.pi
    B = ref_B(spec)
    return B @ phi if len(lo) else np.zeros(len(ind))


def ref_B(spec):
    n = max(max(e) for e, _ in spec['edges'])
    ind = inductive_list(spec)
    G = loop_vectors(spec)
    if not len(G):
        return np.zeros((len(ind), 0))
    K = np.array([edge_vec(n, e) for _, e, _ in ind])
    w = flux_weights(spec)
    # minimise sum w b^2 subject to G b = unit vector: same as the balance
    # K^T diag(w) b = 0 together with the loop equations.  b = W^-1 G^T y
    winv = w.min() / w
    M = (G * winv) @ G.T
    # relative weights may differ by 1e40: solve through scaled elimination
    return solve_weighted(G, w)


def solve_weighted(G, w):
    """argmin b^T diag(w) b with G b = I, by lexicographic levels of w."""
    from fractions import Fraction
    m, nb = G.shape
    gi = [[Fraction(int(x)) for x in row] for row in G]
    wf = [Fraction(float(x)) for x in w]
    M = [[sum(gi[a][k] * gi[b][k] / wf[k] for k in range(nb)) for b in range(m)] for a in range(m)]
    inv = frac_inv(M)
    B = [[sum(gi[a][k] / wf[k] * inv[a][l] for a in range(m)) for l in range(m)]
         for k in range(nb)]
    return np.array([[float(x) for x in row] for row in B])


def frac_inv(M):
    from fractions import Fraction
    n = len(M)
    A = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        if A[p][c] == 0:
            raise Failure('loop vectors are dependent')
        A[c], A[p] = A[p], A[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        for i in range(n):
            if i != c and A[i][c] != 0:
                f = A[i][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[c])]
    return [r[n:] for r in A]


# -------------------------------------------------- reference operators

def ladder(m):
    return np.diag(np.sqrt(np.arange(1, m)), 1).astype(complex)


class Ref:
    """Reference operators of a circuit in the coordinates R, S it chose."""
    def __init__(self, spec, S, R, omega, m, ng, matrices=None, flux=None):
        self.spec = spec
        self.C, self.L, self.W = matrices or ref_matrices(spec)
        self.S, self.R = S, R
        self.n = S.shape[1]
        self.m = list(m)
        self.ci = R.T @ np.linalg.inv(self.C) @ R
        self.lt = S.T @ self.L @ S
        self.wt = self.W @ S
        self.charge = [omega[i] == 0 for i in range(self.n)]
        self.ng = ng
        self.dim = int(np.prod(self.m))
        self.flux = ref_flux(spec) if flux is None else flux

    def on(self, i, op):
        mats = [np.eye(k) for k in self.m]
        mats[i] = op
        out = np.eye(1)
        for x in mats:
            out = np.kron(out, x)
        return out

    def z(self, i):
        return np.sqrt(self.ci[i, i] / self.lt[i, i])

    def q1(self, i):
        m = self.m[i]
        if self.charge[i]:
            nn = np.diag(np.arange(-(m - 1) // 2, (m - 1) // 2 + 1).astype(float))
            return 2 * EC / np.sqrt(HBAR) * (nn - self.ng.get(i, 0) * np.eye(m))
        a = ladder(m)
        return -1j * np.sqrt(0.5 / self.z(i)) * (a - a.conj().T)

    def phi1(self, i):
        m = self.m[i]
        if self.charge[i]:
            return np.eye(m)
        a = ladder(m)
        return np.sqrt(0.5 * self.z(i)) * (a + a.conj().T)

    def n1(self, i):
        m = self.m[i]
        if self.charge[i]:
            return np.diag(np.arange(-(m - 1) // 2, (m - 1) // 2 + 1).astype(float))
        return np.diag(np.arange(m).astype(float))

    def Q(self, i):
        return self.on(i, self.q1(i))

    def phi(self, i):
        return self.on(i, self.phi1(i))

    def N(self, i):
        return self.on(i, self.n1(i))

    def expw(self, w, half=False):
        """exp(i phase) of an edge with mode weights w."""
        out = np.eye(1)
        for j in range(self.n):
            m = self.m[j]
            if self.charge[j]:
                k = int(round(w[j]))
                x = np.eye(m) if half else np.eye(m, k=-k)
            else:
                a = ladder(m)
                zp = 2 * np.pi / PHI0 * np.sqrt(HBAR / 2 * self.z(j))
                al = 1j * zp * w[j] * (0.5 if half else 1)
                x = scipy.linalg.expm(al * a.conj().T - np.conj(al) * a)
            out = np.kron(out, x)
        return out

    def ind_op(self, e):
        w = edge_vec(self.C.shape[0], e) @ self.S
        out = np.zeros((self.dim, self.dim), complex)
        for j in range(self.n):
            if not self.charge[j]:
                out = out + w[j] * self.phi(j)
        return out

    def hamiltonian(self, flux=None):
        H = np.zeros((self.dim, self.dim), complex)
        om = [np.sqrt(abs(self.ci[i, i] * self.lt[i, i])) for i in range(self.n)]
        for i in range(self.n):
            if self.charge[i]:
                H += 0.5 * self.ci[i, i] * self.on(i, self.q1(i) @ self.q1(i))
            else:
                H += om[i] * self.N(i)
            for j in range(i + 1, self.n):
                H += self.ci[i, j] * self.Q(i) @ self.Q(j)
        ext = self.flux if flux is None else flux
        for i, e, b in inductive_list(self.spec):
            el = self.spec['elements'][i]
            v = element_value(el)
            if el['kind'] == 'L':
                H += ext[b] / v * PHI0 / 2 / np.pi / np.sqrt(HBAR) * self.ind_op(e)
            else:
                H -= v * self.cosop(e, ext[b])
        return H

    def exp_edge(self, e, half=False):
        w = edge_vec(self.C.shape[0], e) @ self.S
        return self.expw(w, half)

    def cosop(self, e, phi):
        x = np.exp(1j * phi) * self.exp_edge(e)
        return (x + x.conj().T) / 2

    def sinop(self, e, phi):
        x = np.exp(1j * phi) * self.exp_edge(e)
        return (x - x.conj().T) / 2j

    def sinhalf(self, e, phi):
        x = np.exp(1j * phi / 2) * self.exp_edge(e, True)
        return (x - x.conj().T) / 2j


def modes_of(cir):
    return (npop(cir.S), npop(cir.R), np.asarray(cir.omega, float))


def reference(built, ng=None):
    cir = built.cir
    S, R, om = modes_of(cir)
    return Ref(built.spec, S, R, om, dims_of(cir), ng or {}, flux=lib_flux(built))


def lib_flux(built):
    """External flux per inductive element from the circuit's own flux shares,
    which C04 checks against the loop and balance equations."""
    ind = inductive_list(built.spec)
    cir = built.cir
    if not built.spec['loops']:
        return np.zeros(len(ind))
    order = [next(k for k, l in enumerate(built.loops) if l is x) for x in cir.loops]
    vals = np.array([built.spec['loops'][k] for k in order]) * 2 * np.pi
    return npop(cir.B) @ vals


def dims_of(cir):
    """Hilbert-space dimensions from the truncation numbers."""
    t = list(cir.trunc_nums)
    om = np.asarray(cir.omega, float)
    return [2 * k - 1 if om[i] == 0 else k for i, k in enumerate(t)]


def choose_trunc(r, cir, total=160, lo=2):
    om = np.asarray(cir.omega, float)
    n = len(om)
    out = []
    left = total
    for i in range(n):
        cap = max(lo, int(left ** (1.0 / (n - i))))
        if om[i] == 0:
            k = r.randint(max(2, min(3, cap // 2)), max(2, min(6, (cap + 1) // 2)))
            left //= 2 * k - 1
        else:
            k = r.randint(min(3, cap), max(3, min(9, cap)))
            left //= k
        left = max(left, 1)
        out.append(int(k))
    return out


class Fixed:
    """Hamiltonian as a function of the element values, loop fluxes and gate
    charges at fixed mode operators; derivatives by central differences."""
    def __init__(self, built, ng=None):
        self.b = built
        self.ref = reference(built, ng)
        self.ng = dict(ng or {})
        r = self.ref
        self.Qs = [r.Q(i) for i in range(r.n)]
        self.phis = [r.phi(i) if not r.charge[i] else np.zeros((r.dim, r.dim)) for i in range(r.n)]
        self.H0 = r.hamiltonian()
        spec = built.spec
        self.p0 = {}
        for k, e in enumerate(spec['elements']):
            self.p0['el', k] = element_value(e)
            if e['kind'] != 'C':
                self.p0['cap', k] = cap_si(*e['cap']) if e.get('cap') else TINYCAP
        for k, f in enumerate(spec['loops']):
            self.p0['loop', k] = 2 * np.pi * f
        for i in range(r.n):
            if r.charge[i]:
                self.p0['ng', i] = self.ng.get(i, 0)
        cir = built.cir
        self.order = [next(k for k, l in enumerate(built.loops) if l is x) for x in cir.loops]
        self.B = npop(cir.B) if spec['loops'] else np.zeros((len(inductive_list(spec)), 0))
        self.inds = inductive_list(spec)
        self.indops = {b: r.ind_op(e) for i, e, b in self.inds}
        self.exps = {b: r.exp_edge(e) for i, e, b in self.inds
                     if spec['elements'][i]['kind'] == 'J'}
        self._q = {}

    def quad(self, ci, lt, ng):
        """1/2 Q ci Q + 1/2 phi lt phi"""
        r = self.ref
        Qs = []
        for i in range(r.n):
            if r.charge[i]:
                Qs.append(self.Qs[i] - 2 * EC / np.sqrt(HBAR) * (ng[i] - self.ng.get(i, 0))
                          * np.eye(r.dim))
            else:
                Qs.append(self.Qs[i])
        H = np.zeros((r.dim, r.dim), complex)
        for i in range(r.n):
            for j in range(r.n):
                a, b = (i, j) if i <= j else (j, i)
                if ci[i, j] != 0:
                    H += 0.5 * ci[i, j] * Qs[a] @ Qs[b]
                if lt[i, j] != 0:
                    H += 0.5 * lt[i, j] * self.phis[a] @ self.phis[b]
        return H

    def pot(self, p):
        """Flux bias and junction terms."""
        spec = self.b.spec
        r = self.ref
        ext = self.B @ np.array([p['loop', k] for k in self.order]) if self.order else \
            np.zeros(len(self.inds))
        H = np.zeros((r.dim, r.dim), complex)
        for i, e, b in self.inds:
            v = p['el', i]
            if spec['elements'][i]['kind'] == 'L':
                H += ext[b] / v * PHI0 / 2 / np.pi / np.sqrt(HBAR) * self.indops[b]
            else:
                x = np.exp(1j * ext[b]) * self.exps[b]
                H -= v * (x + x.conj().T) / 2
        return H

    def mats(self, p):
        spec = self.b.spec
        n = self.ref.C.shape[0]
        C, L = np.zeros((n, n)), np.zeros((n, n))
        for e, ids in spec['edges']:
            w = edge_vec(n, e)
            lap = np.outer(w, w)
            for i in ids:
                k = spec['elements'][i]['kind']
                if k == 'C':
                    C += p['el', i] * lap
                else:
                    C += p['cap', i] * lap
                    if k == 'L':
                        L += lap / p['el', i]
        return self.ref.R.T @ np.linalg.inv(C) @ self.ref.R, self.ref.S.T @ L @ self.ref.S

    def H(self, p):
        """Difference to the Hamiltonian at the actual values is exact."""
        ci, lt = self.mats(p)
        ng = {i: p['ng', i] for i in range(self.ref.n) if self.ref.charge[i]}
        return self.quad(ci, lt, ng) + self.pot(p)

    def scale(self, key):
        """Size of dH/dkey, with a floor above the difference noise."""
        p = self.p0[key] if key[0] in ('el', 'cap') else 1.0
        return max(np.max(np.abs(self.d1(key))), 1e-4 * np.max(np.abs(self.H0)) / p)

    def step(self, key):
        return 1e-3 * self.p0[key] if key[0] in ('el', 'cap') else 1e-3

    def moved(self, *moves):
        p = dict(self.p0)
        for k, d in moves:
            p[k] = p[k] + d
        return p

    def d1(self, key):
        """dH/dkey, fourth order central difference"""
        if key in self._q:
            return self._q[key]
        h = self.step(key)
        f = lambda c: self.H(self.moved((key, c * h)))
        r = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
        self._q[key] = r
        return r

    def d2(self, a, b):
        """Mixed second derivative."""
        h = self.step(a)

        def g(c):
            base = self.moved((a, c * h))
            hb = self.step(b)
            f = lambda x: self.H({**base, b: base[b] + x * hb})
            return (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * hb)
        return (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * h)


def element_of(built, key):
    k, i = key
    return {'el': lambda: built.els[i], 'cap': lambda: built.els[i].cap,
            'loop': lambda: built.loops[i]}[k]()


def params_of(spec, shared=True):
    out = []
    used = {i for _, ids in spec['edges'] for i in ids}
    for k, e in enumerate(spec['elements']):
        if k not in used:
            continue
        out.append(('el', k))
        if e.get('cap'):
            out.append(('cap', k))
    inl = {l for k in used for l in spec['elements'][k].get('loops', [])}
    out += [('loop', k) for k in range(len(spec['loops'])) if k in inl]
    return out


def vecs(cir, n):
    """Eigenvectors as columns of plain arrays."""
    return [npop(cir.evecs[k]).reshape(-1) for k in range(n)]


def gap_ok(w, rel=1e-6):
    """Neighbouring levels well apart."""
    d = np.diff(np.sort(w))
    return np.all(d > rel * np.max(np.abs(w)) + 2 * np.pi * 1e4)
