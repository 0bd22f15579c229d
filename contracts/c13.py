"""C13: depolarisation rates."""
from .circ import *
from .c11 import coupling_spec, two_states, CouplingContract

LOG_LIMIT = C(40)      # beyond, the factors agree with their limits to rounding

T = Poly.atom(VAR('T', 'R', True))


def set_env(V):
    env = V.get('noise', 'ENV')
    V.I.models.setitem(V.I, env, 'T', SNum(T, 'float'))


def fabs(p):
    return f_fun('abs', p)


def sandwich(i, op, j):
    return (NC.sym(BPSI, i).dag() * op * NC.sym(BPSI, j)).close()


def sq(z):
    """Squared modulus."""
    return fabs(z) * fabs(z)


def bose(V, al):
    """Spectral factors downwards and upwards."""
    if V.I.ctx().entails(ind_lit('<', LOG_LIMIT - al)):
        return TWO, ZEROP
    down = ONEP + f_fun('tanh', al * HALF).inv()
    return down, down * f_exp(-al)


def sin_half(t):
    """sin of half the junction phase at place t."""
    b, wi = ap('bJ', t, sort='I'), ap('wJ', t, sort='I')
    e = NC.sym(BREXP, wi).scale(expI(ext_flux(b) * HALF))
    return (e - e.dag()).scale(Poly.const(0, Fraction(-1, 2)))


def nan(x):
    return ind_lit('=', ap('isnan', x, sort='I') - ONEP)


class MatEl:
    """Contract of matrix_elements (proved under C11)."""
    def apply(self, I, f, args, kw):
        o, ctype, nodes, states = args
        a, b = (P(x) for x in (nodes.items if isinstance(nodes, SList) else nodes))
        i, j = (P(x) for x in (states.items if isinstance(states, SList) else states))
        r = sandwich(i, coupling_spec(ctype, a, b), j)
        eng = I.call(I.getattr(I.load('SQcircuit.settings'), 'get_optim_mode'), [], {})
        return Arr('torch', (), r, 'complex') if eng is True else SNum(r, 'complex')


MATEL = {'circuit.Circuit.matrix_elements': MatEl()}


def unit_rate(V, c, dec, i, j, omega):
    """Sum over the lossy elements without the spectral factor."""
    k, e = VAR('%sk', 'I'), VAR('%se', 'I')
    K, E = Poly.atom(k), Poly.atom(e)
    if dec == 'capacitive':
        m = sq(sandwich(i, coupling_spec('capacitive', ap('eE1', E, sort='I'),
                                         ap('eE2', E, sort='I')), j))
        tot = ZEROP
        for kind in ('c', 'l', 'j'):
            idt = ap('at_' + kind, E, K, sort='I')
            if kind != 'c':
                idt = ap('capL' if kind == 'l' else 'capJ', idt, sort='I')
            tot = tot + sum_range(k, ZEROP, cnt(kind, E), vC(idt) * ap('Qc', idt, omega).inv())
        return sum_range(e, ZEROP, nE, tot * m)
    if dec == 'inductive':
        idt = ap('idL', K, sort='I')
        q = ap('Ql', idt, omega, T)
        return sum_range(k, ZEROP, nL, (ONEP - nan(q)) * (q * vL(idt)).inv()
                         * sq(sandwich(i, NC.sym(BIND, K), j)))
    idt = ap('idJ', K, sort='I')
    y = ap('Y', idt, omega, T)
    op = NC.sym(BSINH, K) if V.engine == 'numpy' else sin_half(K)
    return sum_range(k, ZEROP, nJ, (ONEP - nan(y)) * y * omega * vJ(idt) * hbar
                     * sq(sandwich(i, op, j)))


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for dec in ('capacitive', 'inductive', 'quasiparticle'):
            for total in (True, False):
                def rate(V, dec=dec, total=total):
                    c = Circ(V)
                    set_env(V)
                    i, j = two_states(V)
                    V.assume(ind_lit('!=', i.p - j.p), ind_lit('!=', w(i.p) - w(j.p)))

                    def run():
                        o = c.build()
                        return V.meth(o, 'dec_rate', dec, (i, j), total=total)

                    def post(V, r):
                        omega = fabs(w(j.p) - w(i.p))
                        down, up = bose(V, hbar * omega * (k_B * T).inv())
                        if total:
                            s = down + up
                        else:
                            g = ind_lit('<', j.p - i.p)
                            s = g * down + (ONEP - g) * up
                        V.eq('rate', r, s * unit_rate(V, c, dec, i.p, j.p, omega))
                    V.explore(run, post)
                R.case(f'dec_rate {dec} {"total" if total else "one way"} [{eng}]',
                       ['circuit.Circuit.dec_rate'], rate, engine=eng, contracts=MATEL)

        omega = Poly.atom(VAR('om', 'R', True))

        def freq(V):
            return Arr('torch', (), omega, 'float') if V.engine == 'pytorch' else SNum(omega, 'float')

        def qcap(V):
            def run():
                c = V.call(V.get('elements', 'Capacitor'), V.real('c', True), 'F')
                return V.call(V.attr(c, 'Q'), freq(V))

            def post(V, r):
                x = (C(12 * 10 ** 9) * PI * omega.inv())
                V.eq('frequency law', r, C(10 ** 6) * x.fpow(Fraction(7, 10)))
            V.explore(run, post)
        R.case(f'default capacitor quality [{eng}]', ['elements.Capacitor._default_q_cap'], qcap,
               engine=eng)

        def k0s(x):
            """K0(x) sinh(x)."""
            k = Poly.atom(APP('k0e', (x,), 'R', True))
            return k * f_exp(-x) * (f_exp(x) - f_exp(-x)) * HALF

        def qind(V):
            def run():
                c = V.call(V.get('elements', 'Inductor'), V.real('l', True), 'H')
                return V.call(V.attr(c, 'Q'), freq(V), SNum(T, 'float'))

            def post(V, r):
                u = hbar * (TWO * k_B * T).inv()
                al, be = u * TWO * PI * C(5 * 10 ** 8), u * omega
                V.eq('ratio of K0 sinh', P(r) * k0s(be), C(5 * 10 ** 8) * k0s(al))
            V.explore(run, post)
        R.case(f'default inductor quality [{eng}]', ['elements.Inductor._default_q_ind'], qind,
               engine=eng)

        def yjun(V):
            d, x = V.real('delta', True), V.real('xqp', True)

            def run():
                c = V.call(V.get('elements', 'Junction'), V.real('j', True), 'GHz', delta=d, x=x)
                return V.call(V.attr(c, 'Y'), freq(V), SNum(T, 'float'))

            def post(V, r):
                gap = d.p * C('1.6e-19')
                al = hbar * omega * (TWO * k_B * T).inv()
                k = Poly.atom(APP('k0e', (al,), 'R', True))
                rk = TWO * PI * hbar * (e_charge * e_charge).inv()
                want = (TWO * PI.inv()).fpow(Fraction(1, 2)) * C(8) * (gap * rk).inv() \
                    * (TWO * gap * (hbar * omega).inv()).fpow(Fraction(3, 2)) * x.p \
                    * al.fpow(Fraction(1, 2)) * k * (ONEP - f_exp(-al - al)) * HALF
                V.eq('quasiparticle admittance', r, want)
            V.explore(run, post)
        R.case(f'default junction admittance [{eng}]', ['elements.Junction._get_default_y_func'],
               yjun, engine=eng)
