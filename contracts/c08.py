"""C08: the Hamiltonian is the documented sum of energies."""
from .circ import *


def stored(V, o, key, fam, idn, bn, t):
    return V.I.models.getitem(V.I, getm(V, o, key), (
        FamObj(fam, ap(idn, t, sort='I')), SNum(ap(bn, t, sort='I'), 'int')))


def stored_junction(V, c, o, t):
    """Operators kept for rates and derivatives, at every junction place."""
    b, wi = ap('bJ', t, sort='I'), ap('wJ', t, sort='I')
    e = NC.sym(BEXP, wi).scale(expI(ext_flux(b)))
    r = NC.sym(BREXP, wi).scale(expI(ext_flux(b) * HALF))
    want = {'cos': (e + e.dag()).scale(HALF),
            'sin': (e - e.dag()).scale(Poly.const(0, Fraction(-1, 2))),
            'sin_half': (r - r.dag()).scale(Poly.const(0, Fraction(-1, 2)))}
    for key, v in want.items():
        V.eq(f'kept operator {key}', nc_of(stored(V, o, key, c.juns, 'idJ', 'bJ', t)), v)


def stored_inductor(V, c, o, t):
    V.eq('kept operator of an inductor',
         nc_of(stored(V, o, 'ind_hamil', c.inds, 'idL', 'bL', t)),
         ind_op(ap('eL1', t, sort='I'), ap('eL2', t, sort='I')))


def with_facts(V, facts, f):
    """Obligations under additional hypotheses."""
    mark = len(V.I.trail)
    V.assume(*facts)
    f()
    V.I.undo_to(mark)


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        def ham(V):
            c = Circ(V)

            def run():
                o = c.build()
                c.before = dict(o.attrs)
                return o, V.meth(o, 'hamiltonian')

            def post(V, r):
                o, r = r
                V.eq('Hamiltonian', r, qob(h_spec()))
                V.eq('Hermitian', qob(r.nc.dag()), r)
                t = V.int('t')
                V.assume(ind_lit('<=', -t.p))
                with_facts(V, [ind_lit('<', t.p - nJ)], lambda: stored_junction(V, c, o, t.p))
                with_facts(V, [ind_lit('<', t.p - nL)], lambda: stored_inductor(V, c, o, t.p))
                V.true('nothing else changes', all(o.attrs[x] is v for x, v in c.before.items()))
            V.explore(run, post)
        R.case(f'hamiltonian [{eng}]', ['circuit.Circuit.hamiltonian'], ham, engine=eng)
    for eng in ('numpy', 'pytorch'):
        def lc(V):
            c = Circ(V)

            def run():
                o = c.build()
                return V.meth(o, '_get_LC_hamil')

            def post(V, r):
                V.eq('quadratic part', r, qob(lc_spec()))
            V.explore(run, post)
        R.case(f'_get_LC_hamil [{eng}]', ['circuit.Circuit._get_LC_hamil'], lc, engine=eng)

        def extf(V):
            c = Circ(V)

            def run():
                o = c.build()
                b = V.int('b')
                V.assume(ind_lit('<=', -b.p), ind_lit('<=', b.p - nL - nJ + ONEP))
                return b, V.meth(o, '_get_external_flux_at_element', b)

            def post(V, r):
                V.eq('sum over loops of share times flux', r[1], ext_flux(r[0].p))
            V.explore(run, post)
        R.case(f'_get_external_flux_at_element [{eng}]',
               ['circuit.Circuit._get_external_flux_at_element'], extf, engine=eng)
