"""C23: the convergence test, any number of modes, dimensions and levels."""
from .circ import *
from .c22 import level, sizes


def inside(V, state, t):
    """Weight of the basis states with no mode among its last t levels."""
    i, k = fresh_bound(), fresh_bound()
    I_, K = Poly.atom(i), Poly.atom(k)
    low = mk_prod(k, n, ind_lit('<', level(V, I_, K) - md(K) + t))
    a = f_abs(NC.sym(BPSI, state).entry(I_))
    return sum_range(i, ZEROP, EM.prod_term(V.I, sizes()), low * a * a)


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        def test(V):
            c = Circ(V)
            k, t, x = V.int('k'), V.int('t'), V.real('x')
            V.assume(ind_lit('<=', -k.p), ind_lit('<', k.p - ne), ind_lit('<=', ONEP - t.p),
                     ind_lit('=', D - EM.prod_term(V.I, sizes())))

            def run():
                o = c.build()
                f = Frame(V, o)
                r = V.meth(o, 'check_convergence', k, t, x)
                f.check('circuit unchanged')
                return r

            def post(V, r):
                V.true('a decision and a figure', isinstance(r, tuple) and len(r) == 2)
                eps = ONEP - inside(V, k.p, t.p)
                V.eq('figure', r[1], eps)
                V.zero('decision', P(r[0]) - ind_lit('<', P(r[1]) - x.p))
            V.explore(run, post)
        R.case(f'convergence [{eng}]', ['circuit.Circuit.check_convergence'], test, engine=eng)
