"""C22: phase representation of the eigenstates, any number of modes, levels
and grid points."""
from engine import grids as GR
from engine.solve import prove_zero
from .circ import *
from .c06 import product_index

from engine import solve as SV
# zeros of the polynomials occur in the models
SV.MODELV['phase'] = lambda m, a: 0 if m.h('phase0', *a) < .3 else 3 * m.h('phase', *a) - 1.5
HALF_ = Fraction(1, 2)


def gridvec(V):
    """One coordinate vector per mode, of any length."""
    k = V.I.fresh('k')
    K = Poly.atom(k)
    return SList([Seg.uniform(n, k, Arr('np', (glen(K),), gval(K, IXP[0]), 'float'))])


def glen(k):
    return ap('points', k, sort='I', pos=True)


def gval(k, i):
    return ap('phase', k, i)


def sizes():
    k = VAR('%sz', 'I')
    return Seg.uniform(n, k, num(md(Poly.atom(k)), 'int'))


class Digits:
    """_tensor_to_modes: the digits of an index of the product space (proved
    in c06.py)."""
    def apply(self, I, f, args, kw):
        return SList([GR.digits(I, P(args[1]), sizes())])


def level(V, i, k):
    name, _ = EM.digit_fun(V.I, sizes())
    return ap(name, i, k, sort='I')


def factor(V, i, k, shifted):
    """Function of mode k in basis state i at the grid point IX0."""
    l = level(V, i, k)
    x = gval(k, ap('coordinate', k, IXP[0], sort='I'))
    q = l - (md(k) - ONEP) * HALF if shifted else l
    wave = (TWO * PI).fpow(Fraction(-1, 2)) * f_exp(Poly.const(0, 1) * x * q)
    s = (hbar * Z(k)).fpow(HALF_) * Phi0.inv()     # width of the ground state
    y = x * s.inv()
    j = fresh_bound()
    logfact = sum_range(j, ZEROP, l, f_fun('log', Poly.atom(j) + ONEP))
    osc = GR.he(l, TWO.fpow(HALF_) * y) * f_exp(-y * y * HALF) * s.fpow(-HALF_) \
        * PI.fpow(-HALF_ / 2) * f_exp(-logfact * HALF)
    ch = ind_lit('=', om(k))
    return ch * wave + ind_not(ch) * osc


def wave(V, state, shifted):
    """Superposition of the products with the components of the state."""
    i, k = fresh_bound(), fresh_bound()
    dim = EM.prod_term(V.I, sizes())
    prod = mk_prod(k, n, factor(V, Poly.atom(i), Poly.atom(k), shifted))
    return sum_range(i, ZEROP, dim, NC.sym(BPSI, state).entry(Poly.atom(i)) * prod)


def contracts(R):
    product_index(R)
    for eng in ('numpy', 'pytorch'):
        def phase(V):
            c = Circ(V)
            k, t, a = V.int('k'), V.int('t'), V.int('a')
            V.assume(ind_lit('<=', -k.p), ind_lit('<', k.p - ne),
                     ind_lit('=', D - EM.prod_term(V.I, sizes())))

            def run():
                return V.meth(c.build(), 'eig_phase_coord', k, gridvec(V))

            def post(V, r):
                g = GR.info_of(r)
                V.true('values on the grid', g is not None)
                V.eq('a value for every combination', g.N, n)
                V.eq('points of an axis', g.length, glen(IXP[0]))
                V.true('axes of one point are dropped', g.dropped)
                ax = g.axes
                V.zero('axes of the first two modes exchanged', ind_lit('<', ONEP - ax)
                       * ind_lit('<=', -a.p) * ind_lit('<', a.p - ax)
                       * (g.perm.subst({IX[0]: a.p}) - GR.swapped(a.p, ZEROP, ONEP)))
                got = entries(r)
                want = [wave(V, k.p, x) for x in (False, True)]
                w = next((x for x in want if prove_zero(got - x, V.I.ctx())), want[0])
                V.eq('superposition of mode functions', got.subst({IX[0]: t.p}), w.subst({IX[0]: t.p}))
            V.explore(run, post)
        R.case(f'wavefunction [{eng}]', ['circuit.Circuit.eig_phase_coord'], phase, engine=eng,
               contracts={'circuit.Circuit._tensor_to_modes': Digits()})
