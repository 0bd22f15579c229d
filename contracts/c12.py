"""C12: first derivatives."""
from engine.extmodels import F as EXT
from . import c10
from .circ import *
from .c11 import two_states
from .c13 import sandwich

SINV = Base('C', kind='mat', real=True, sym=True)
RM = NC.sym(Base('R', kind='mat', real=True))
SM = NC.sym(Base('S', kind='mat', real=True))
PH = Phi0 * (TWO * PI).inv() * hbar.fpow(Fraction(-1, 2))


def quad(A, op):
    """1/2 x^T A x for a symmetric matrix A."""
    i, j = VAR('%si', 'I'), VAR('%sj', 'I')
    a, b = Poly.atom(i), Poly.atom(j)
    return (op(a) * op(a)).scale(HALF * A.entry(a, a)).sum(i, ZEROP, n) \
        + (op(a) * op(b)).scale(A.entry(a, b)).sum(j, a + ONEP, n).sum(i, ZEROP, n)


def bl(k):
    return ap('bL', k, sort='I')


def bj(k):
    return ap('bJ', k, sort='I')


def dH(kind, t, b=None):
    """Derivative of the Hamiltonian with respect to element or loop t."""
    k = VAR('%sp', 'I')
    K = Poly.atom(k)
    if kind == 'cap':
        ci = NC.sym(SINV).inv()
        return quad((RM.trans() * ci * GC(t) * ci * RM).scale(-ONEP), Q)
    if kind == 'ind':
        here = ind_lit('=', ap('idL', K, sort='I') - t)
        bias = NC.sym(BIND, K).scale(-here * ext_flux(bl(K)) * PH * (vL(t) * vL(t)).inv())
        return quad((SM.trans() * GL(t) * SM).scale(-ONEP), PHI) + bias.sum(k, ZEROP, nL)
    if kind == 'loop':
        lin = NC.sym(BIND, K).scale(ap('B', bl(K), t) * PH * vL(ap('idL', K, sort='I')).inv())
        jun = NC.sym(BSIN, K).scale(ap('B', bj(K), t) * vJ(ap('idJ', K, sort='I')))
        return lin.sum(k, ZEROP, nL) + jun.sum(k, ZEROP, nJ)
    here = ind_lit('=', ap('idJ', K, sort='I') - t)
    if b is not None:
        here = here * ind_lit('=', bj(K) - b)
    return NC.sym(BCOS, K).scale(-here).sum(k, ZEROP, nJ)


LIMIT = {'cap': nC, 'ind': nI, 'loop': nl, 'jun': I_('nK')}


def element(V, c, kind):
    t = V.int('t')
    V.assume(ind_lit('<=', -t.p), ind_lit('<', t.p - LIMIT[kind]))
    fam = {'cap': c.caps, 'ind': c.inds, 'loop': c.lps, 'jun': c.juns}[kind]
    return FamObj(fam, t.p), t.p


class PartialH:
    """Contract of the derivative of the Hamiltonian (proved below): some
    Hermitian operator belonging to the element."""
    def apply(self, I, f, args, kw):
        return qob(NC.sym(Base('dH', herm=True)))


DH = NC.sym(Base('dH', herm=True))
PARTIAL = {'circuit.Circuit._get_partial_H': PartialH()}


def re(z):
    return (z + z.conj()) * HALF


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for kind in ('cap', 'ind', 'loop', 'jun', 'jun at one place'):
            def part(V, kind=kind):
                c = Circ(V)
                el, t = element(V, c, kind[:3] if kind != 'loop' else kind)
                b = None
                if kind.endswith('place'):
                    b = V.int('b')
                    V.assume(ind_lit('<=', -b.p))

                def run():
                    o = c.build()
                    return V.meth(o, '_get_partial_H', el, *([b] if b is not None else []))

                def post(V, r):
                    want = dH(kind[:3] if kind != 'loop' else kind, t, b.p if b else None)
                    V.eq('derivative of the Hamiltonian', nc_of(r), want)
                    if kind not in ('cap', 'ind'):     # there operators of different modes commute
                        V.eq('Hermitian', nc_of(r).dag(), nc_of(r))
                V.explore(run, post)
            R.case(f'_get_partial_H {kind} [{eng}]',
                   ['circuit.Circuit._get_partial_H', 'circuit.Circuit._get_quadratic_Q',
                    'circuit.Circuit._get_quadratic_phi'], part, engine=eng)

        for ground in (True, False):
            def pom(V, ground=ground):
                c = Circ(V)
                i, j = two_states(V)

                def run():
                    o = c.build()
                    return V.meth(o, 'get_partial_omega', FamObj(c.juns, P(V.int('t'))), i,
                                  subtract_ground=ground)

                def post(V, r):
                    x = sandwich(i.p, DH, i.p)
                    if ground:
                        x = x - sandwich(ZEROP, DH, ZEROP)
                    V.eq('expectation value of the derivative', r, re(x))
                V.explore(run, post)
            R.case(f'get_partial_omega {"minus ground" if ground else ""} [{eng}]',
                   ['circuit.Circuit.get_partial_omega'], pom, engine=eng, contracts=PARTIAL)

        def pmn(V):
            c = Circ(V)
            i, j = two_states(V)

            def run():
                o = c.build()
                return V.meth(o, '_get_partial_omega_mn', FamObj(c.juns, P(V.int('t'))), (i, j))

            def post(V, r):
                V.eq('difference of expectation values', r,
                     re(sandwich(i.p, DH, i.p) - sandwich(j.p, DH, j.p)))
            V.explore(run, post)
        R.case(f'_get_partial_omega_mn [{eng}]', ['circuit.Circuit._get_partial_omega_mn'], pmn,
               engine=eng, contracts=PARTIAL)

        def pvec(V):
            c = Circ(V)
            i, j = two_states(V)

            def run():
                o = c.build()
                return V.meth(o, 'get_partial_vec', FamObj(c.juns, P(V.int('t'))), i, epsilon=0)

            def post(V, r):
                k = VAR('%sn', 'I')
                K = Poly.atom(k)
                x = NC.sym(BPSI, K).scale(sandwich(K, DH, i.p) * (w(i.p) - w(K)).inv()
                                          * ind_lit('!=', K - i.p))
                V.eq('perturbation sum over the other states', nc_of(r), x.sum(k, ZEROP, ne))
            V.explore(run, post)
        R.case(f'get_partial_vec [{eng}]', ['circuit.Circuit.get_partial_vec'], pvec,
               engine=eng, contracts=PARTIAL)

    backward(R)


def named(args, kw, *names):
    """Arguments by name; None for one that is left out."""
    a = dict(zip(names, args))
    a.update({k: v for k, v in kw.items() if k in names})
    return tuple(a.get(n) for n in names)


class Omega:
    """get_partial_omega without the ground level (proved above)."""
    def __init__(self, used):
        self.used = used

    def apply(self, I, f, args, kw):
        o, el, m, ground = named(args, kw, 'self', 'el', 'm', 'subtract_ground')
        self.used.append(o)
        if ground is not False:
            raise Unsupported('ground level subtracted')
        return Arr('torch', (), ap('dw_' + el.fam.name, el.ident, P(m)), 'float')


class Vec:
    """get_partial_vec (proved above)."""
    def __init__(self, used):
        self.used = used

    def apply(self, I, f, args, kw):
        o, el, m = named(args, kw, 'self', 'el', 'm')
        self.used.append(o)
        nc = NC.sym(Base('dpsi_' + el.fam.name, nslots=2, kind='ket'), el.ident, P(m))
        return Arr('torch', (D,), nc, 'complex', vec=True)


def backward(R):
    for limit in (False, True):
        used = []

        def back(V, limit=limit, used=used):
            c = Circ(V)
            lim = V.int('lim')
            V.assume(ind_lit('<=', ONEP - nP))

            def run():
                del used[:]
                o = c.build()
                ctx = ExtObj('ctx')
                cls = V.get('torch_extensions', 'EigenSolver')
                pars = EXT['torch.stack'](V.I, V.attr(o, 'parameters'))
                V.call(V.attr(cls, 'forward'), ctx, pars, o, SNum(ne, 'int'), lim if limit else None)
                g = Arr('torch', (ne, D + ONEP), ap('gout', IXP[0], IXP[1], sort='C'), 'complex')
                return V.call(V.attr(cls, 'backward'), ctx, g)

            def post(V, r):
                k = V.int('k')
                V.assume(ind_lit('<=', -k.p), ind_lit('<', k.p - nP))
                V.eq('as many gradients as inputs', V.call(Builtin('len'), r), C(4))
                V.true('nothing for the other inputs', all(x is None for x in r[1:]))
                p, q = V.int('p'), V.int('q')
                V.assume(ind_lit('<=', -p.p), ind_lit('<', p.p - ne), ind_lit('<=', -q.p), ind_lit('<', q.p - D))
                c10.UNIT.now = 0
                at = c10.order(ne, p.p)
                for o in {id(x): x for x in used}.values():
                    w = c10.item(V, V.attr(o, 'efreqs'), p)
                    w = c10.item(V, w, 0) if isinstance(w, Arr) and w.ndim == 1 else w
                    V.eq('derivative at these frequencies', w,
                         c10.lam(ne, at) * (TWO * PI * c10.UNIT.value(0)).inv())
                    V.eq('derivative at these vectors', c10.component(V, V.attr(o, 'evecs'), p, q),
                         c10.vec(ne, at).entry(q.p))
                V.eq('one entry per parameter', V.call(Builtin('len'), r[0]), nP)
                i, j = VAR('%si', 'I'), VAR('%sj', 'I')
                a, b = Poly.atom(i), Poly.atom(j)

                def g(x, y):
                    return ap('gout', x, y, sort='C').conj()
                vec = NC.sym(Base('dpsi_par', nslots=2, kind='ket'), k.p, a)
                s = sum_range(i, ZEROP, ne, ap('dw_par', k.p, a) * g(a, ZEROP))
                s = s + sum_range(i, ZEROP, ne, sum_range(j, ZEROP, D, vec.entry(b, ZEROP) * g(a, b + ONEP))
                                  * (ind_lit('<', a - lim.p) if limit else ONEP))
                V.eq('chain rule', V.I.models.getitem(V.I, r[0], k), re(s))
            V.explore(run, post)
        R.case(f'EigenSolver.backward{" for the lower vectors only" if limit else ""}',
               ['torch_extensions.EigenSolver.forward', 'torch_extensions.EigenSolver.backward'], back, engine='pytorch',
               contracts={**c10.CONTRACTS, 'circuit.Circuit.get_partial_omega': Omega(used),
                          'circuit.Circuit.get_partial_vec': Vec(used)})

    class Given:
        """forward, remembering what it was given."""
        def __init__(self, seen):
            self.seen = seen

        def apply(self, I, f, args, kw):
            self.seen.append(args)
            return Arr('torch', (ne, D + ONEP), ap('solved', *IXP[:2], sort='C'), 'complex')

    for limit in (False, True):
        seen = []

        def asked(V, limit=limit, seen=seen):
            c = Circ(V)
            lim, old = V.int('lim'), V.int('old')
            V.assume(ind_lit('<=', ONEP - nP))

            def run():
                del seen[:]
                o = c.build()
                V.fn('torch_extensions', 'set_max_eigenvector_grad', old if limit else lim)
                V.fn('torch_extensions', 'set_max_eigenvector_grad', lim if limit else None)
                return o, V.fn('torch_extensions', 'eigencircuit', o, SNum(ne, 'int'))

            def post(V, r):
                o, out = r
                V.true('solved once', len(seen) == 1 and len(seen[0]) == 5)
                _, pars, circuit, n_eig, last = seen[0]
                V.true('for this circuit', circuit is o)
                V.eq('with its parameters', pars, EXT['torch.stack'](V.I, V.attr(o, 'parameters')))
                V.eq('for the number of levels asked for', n_eig, SNum(ne, 'int'))
                V.eq('gradient limited as last set', last, lim if limit else None)
                V.eq('returned as solved', out, Arr('torch', (ne, D + ONEP), ap('solved', *IXP[:2], sort='C'),
                                                    'complex'))
            V.explore(run, post)
        R.case(f'eigencircuit, {"vectors limited" if limit else "all vectors"}',
               ['torch_extensions.eigencircuit', 'torch_extensions.set_max_eigenvector_grad'], asked,
               engine='pytorch', contracts={'torch_extensions.EigenSolver.forward': Given(seen)})
