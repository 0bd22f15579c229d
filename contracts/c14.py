"""C14: dephasing rates and their gradients."""
from .circ import *
from .c11 import two_states
from .c12 import (element, quad, RM, SINV, PH, bl, bj, re, LIMIT)
from .c13 import sandwich, fabs

OLOW, TEXP = (Poly.atom(VAR(x, 'R', True)) for x in ('omega_low', 't_exp'))
FACTOR = (TWO * fabs(f_fun('log', OLOW * TEXP))).fpow(Fraction(1, 2))


def set_env(V):
    env = V.get('noise', 'ENV')
    V.I.models.setitem(V.I, env, 'omega_low', SNum(OLOW, 'float'))
    V.I.models.setitem(V.I, env, 't_exp', SNum(TEXP, 'float'))


def key_of(el, b):
    return (el.ident,) if b is None else (el.ident, P(b))


def dh(el, b=None):
    """Derivative of the Hamiltonian with respect to an element or loop."""
    k = key_of(el, b)
    return NC.sym(Base('dH_' + el.fam.name, nslots=len(k), herm=True), *k)


def dpsi(el, m):
    """Derivative of an eigenvector."""
    return NC.sym(Base('dpsi_' + el.fam.name, nslots=2, kind='ket'), el.ident, m)


def slope(op, i, j):
    return re(sandwich(i, op, i) - sandwich(j, op, j))


def place(args, kw):
    return kw.get('_b_id', args[2] if len(args) > 2 else None)


class PartialH:
    """_get_partial_H (proved under C12)."""
    def apply(self, I, f, args, kw):
        return qob(dh(args[1], place(args, kw)))


class Slope:
    """_get_partial_omega_mn (proved under C12)."""
    def apply(self, I, f, args, kw):
        st = kw.get('states', args[2] if len(args) > 2 else None)
        b = kw.get('_b_id', args[3] if len(args) > 3 else None)
        i, j = (P(x) for x in st)
        v = slope(dh(args[1], b), i, j)
        eng = I.call(I.getattr(I.load('SQcircuit.settings'), 'get_optim_mode'), [], {})
        return Arr('torch', (), v, 'float') if eng is True else SNum(v, 'float')


class Vec:
    """get_partial_vec (proved under C12)."""
    def apply(self, I, f, args, kw):
        nc = dpsi(args[1], P(args[2]))
        eng = I.call(I.getattr(I.load('SQcircuit.settings'), 'get_optim_mode'), [], {})
        if eng is True:
            return Arr('torch', (D,), nc, 'complex', vec=True)
        return qob(nc, 'ket')


C12 = {'circuit.Circuit._get_partial_H': PartialH(),
       'circuit.Circuit._get_partial_omega_mn': Slope(),
       'circuit.Circuit.get_partial_vec': Vec()}

KINDS = ('cap', 'ind', 'loop', 'jun')


def charge_op(i):
    """Derivative of the Hamiltonian with respect to a gate charge."""
    j = VAR('%sq', 'I')
    J = Poly.atom(j)
    e = symmat('cit', n).val.subst({IX[0]: i, IX[1]: J})
    return Q(J).scale(e * hbar.fpow(Fraction(-1, 2))).sum(j, ZEROP, n)


def charge_op2(kind, i, t):
    """Its derivative with respect to an element."""
    if kind != 'cap':
        return NC({})
    j = VAR('%sq', 'I')
    J = Poly.atom(j)
    ci = NC.sym(SINV).inv()
    A = RM.trans() * ci * GC(t) * ci * RM
    return Q(J).scale(-A.entry(i, J) * hbar.fpow(Fraction(-1, 2))).sum(j, ZEROP, n)


def flux_op2(kind, l, t):
    """Derivative of the flux derivative of the Hamiltonian."""
    k = VAR('%sp', 'I')
    K = Poly.atom(k)
    if kind == 'cap':
        return NC({})
    if kind == 'ind':
        x = NC.sym(BIND, K).scale(-ind_lit('=', ap('idL', K, sort='I') - t) * ap('B', bl(K), l)
                                  * PH * (vL(t) * vL(t)).inv())
        return x.sum(k, ZEROP, nL)
    if kind == 'jun':
        x = NC.sym(BSIN, K).scale(ind_lit('=', ap('idJ', K, sort='I') - t) * ap('B', bj(K), l))
        return x.sum(k, ZEROP, nJ)
    x = NC.sym(BCOS, K).scale(vJ(ap('idJ', K, sort='I')) * ap('B', bj(K), l) * ap('B', bj(K), t))
    return x.sum(k, ZEROP, nJ)


def jun_op2(kind, p, t):
    """Derivative of the critical current derivative at junction place p."""
    if kind != 'loop':
        return NC({})
    return NC.sym(BSIN, p).scale(ap('B', bj(p), t))


def slope2(d1, d2, el, i, j):
    """Derivative of the slope: change of the states and of the operator."""
    a = sandwich_k(dpsi(el, i), d1, i) - sandwich_k(dpsi(el, j), d1, j)
    return TWO * re(a) + re(sandwich(i, d2, i) - sandwich(j, d2, j))


def sandwich_k(bra, op, j):
    return (bra.dag() * op * NC.sym(BPSI, j)).close()


def drate(A, dA, s, s2):
    return f_fun('sign', s) * FACTOR * (dA * s + A * s2)


def charge_amp(i):
    return ap('AC', i) * TWO * e_charge


def rate(dec, i, j):
    k = VAR('%sk', 'I')
    K = Poly.atom(k)
    if dec == 'flux':
        lp = FamObj(Fam('loop', [], {}), K)
        return sum_range(k, ZEROP, nl, FACTOR * fabs(ap('AL', K) * slope(dh(lp), i, j)))
    if dec == 'charge':
        return sum_range(k, ZEROP, n, ind_lit('=', om(K)) * FACTOR
                         * fabs(charge_amp(K) * slope(charge_op(K), i, j)))
    t = ap('idJ', K, sort='I')
    ju = FamObj(Fam('jun', [], {}), t)
    return sum_range(k, ZEROP, nJ, FACTOR * fabs(ap('AJ', t) * vJ(t)
                                                 * slope(dh(ju, bj(K)), i, j)))


def grad(dec, kind, el, i, j):
    k = VAR('%sk', 'I')
    K = Poly.atom(k)
    t = el.ident
    if dec == 'flux':
        lp = FamObj(Fam('loop', [], {}), K)
        return sum_range(k, ZEROP, nl, drate(
            ap('AL', K), ZEROP, slope(dh(lp), i, j),
            slope2(dh(lp), flux_op2(kind, K, t), el, i, j)))
    if dec == 'charge':
        return sum_range(k, ZEROP, n, ind_lit('=', om(K)) * drate(
            charge_amp(K), ZEROP, slope(charge_op(K), i, j),
            slope2(charge_op(K), charge_op2(kind, K, t), el, i, j)))
    p = ap('idJ', K, sort='I')
    op = dh(FamObj(Fam('jun', [], {}), p), bj(K))
    dA = ind_lit('=', p - t) * ap('AJ', p) if kind == 'jun' else ZEROP
    return sum_range(k, ZEROP, nJ, drate(
        ap('AJ', p) * vJ(p), dA, slope(op, i, j),
        slope2(op, jun_op2(kind, K, t), el, i, j)))


class GradContract:
    """partial_*_dec (proved below)."""
    def apply(self, I, f, args, kw):
        o, el = args[:2]
        i, j = (P(x) for x in args[2])
        if not isinstance(o.attrs['_evecs'], Arr):
            raise PyRaise(IndexError('no eigenvectors'))
        return SNum(ap('grad_' + el.fam.name, el.ident, i, j), 'float')


class RateContract:
    """_dec_rate_*_np (proved below)."""
    def __init__(self, dec):
        self.dec = dec

    def apply(self, I, f, args, kw):
        i, j = (P(x) for x in args[1])
        v = ap('rate_' + self.dec, i, j)
        return Arr('torch', (), v, 'float')


FUNCS = {'charge': 'DecRateCharge', 'cc': 'DecRateCC', 'flux': 'DecRateFlux'}


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for dec in ('charge', 'flux', 'cc'):
            def num_rate(V, dec=dec):
                c = Circ(V)
                set_env(V)
                i, j = two_states(V)

                def run():
                    o = c.build()
                    return V.meth(o, f'_dec_rate_{dec}_np', (i, j))

                def post(V, r):
                    V.eq('sum of amplitude times slope', r, rate(dec, i.p, j.p))
                    V.eq('symmetric in the levels', rate(dec, i.p, j.p), rate(dec, j.p, i.p))
                V.explore(run, post)
            R.case(f'_dec_rate_{dec}_np [{eng}]', [f'circuit.Circuit._dec_rate_{dec}_np',
                                                   'circuit.Circuit._dephasing'],
                   num_rate, engine=eng, contracts=C12)

    for dec in ('charge', 'flux', 'cc'):
        for kind in KINDS:
            def gr(V, dec=dec, kind=kind):
                c = Circ(V)
                set_env(V)
                i, j = two_states(V)
                el, t = element(V, c, kind)
                if kind in ('ind', 'jun'):      # an element of the circuit
                    k = VAR('%sk', 'I')
                    V.assume(ind_lit('<=', ONEP - sum_range(
                        k, ZEROP, nL if kind == 'ind' else nJ,
                        ind_lit('=', ap('idL' if kind == 'ind' else 'idJ', Poly.atom(k),
                                        sort='I') - t))))

                def run():
                    o = c.build()
                    return V.fn('torch_extensions', f'partial_{dec}_dec', o, el, (i, j))

                def post(V, r):
                    V.eq('derivative of the rate', r, grad(dec, kind, el, i.p, j.p))
                V.explore(run, post)
            R.case(f'partial_{dec}_dec with respect to {kind}',
                   [f'torch_extensions.partial_{dec}_dec', 'torch_extensions.partial_squared_omega'],
                   gr, engine='pytorch', contracts=C12)

        def grads(V, dec=dec):
            c = Circ(V)
            i, j = two_states(V)
            g = V.real('g')

            def run():
                o = c.build()
                ctx = ExtObj('ctx')
                cls = V.get('torch_extensions', FUNCS[dec])
                V.call(V.attr(cls, 'setup_context'), ctx, (None, o, (i, j)), None)
                return V.call(V.attr(cls, 'backward'), ctx, Arr('torch', (), g.p, 'float'))

            def post(V, r):
                V.eq('as many gradients as inputs', V.call(Builtin('len'), r), C(3))
                V.true('nothing for the circuit and the levels', r[1] is None and r[2] is None)
                k = V.int('k')
                V.assume(ind_lit('<=', -k.p), ind_lit('<', k.p - nP))
                V.eq('one entry per parameter', V.call(Builtin('len'), r[0]), nP)
                V.eq('outer gradient times derivative of the rate', V.I.models.getitem(V.I, r[0], k),
                     g.p * ap('grad_par', k.p, i.p, j.p))
            V.explore(run, post)
        R.case(f'{FUNCS[dec]}.backward', [f'torch_extensions.{FUNCS[dec]}.backward',
                                            f'torch_extensions.{FUNCS[dec]}.setup_context'], grads,
               engine='pytorch',
               contracts={f'torch_extensions.partial_{dec}_dec': GradContract(),
                          'circuit.Circuit.safecopy': SafeCopy()})

        def fwd(V, dec=dec):
            c = Circ(V)
            i, j = two_states(V)

            def run():
                o = c.build()
                return V.fn('torch_extensions', f'dec_rate_{dec}_torch', o, (i, j))

            def post(V, r):
                V.eq('the rate', r, ap('rate_' + dec, i.p, j.p))
            V.explore(run, post)
        R.case(f'dec_rate_{dec}_torch', [f'torch_extensions.dec_rate_{dec}_torch',
                                         f'torch_extensions.{FUNCS[dec]}.forward'], fwd,
               engine='pytorch',
               contracts={f'circuit.Circuit._dec_rate_{dec}_np': RateContract(dec),
                          'circuit.Circuit.safecopy': SafeCopy()})

        for eng in ('numpy', 'pytorch'):
            def disp(V, dec=dec):
                c = Circ(V)
                i, j = two_states(V)

                def run():
                    o = c.build()
                    return V.meth(o, 'dec_rate', dec, (i, j))

                def post(V, r):
                    V.eq('the rate', r, ap('rate_' + dec, i.p, j.p))
                V.explore(run, post)
            tab = {f'circuit.Circuit._dec_rate_{x}_np': RateContract(x) for x in FUNCS}
            tab.update({f'torch_extensions.dec_rate_{x}_torch': RateContract(x) for x in FUNCS})
            R.case(f'dec_rate {dec} [{eng}]', ['circuit.Circuit.dec_rate'], disp, engine=eng,
                   contracts=tab)

    for eng in ('numpy', 'pytorch'):
        for kind in ('Loop', 'Charge'):
            def amp(V, kind=kind):
                v, a, b = V.real('v'), V.real('a'), V.real('b')

                def run():
                    cls = V.get('elements', kind)
                    x = V.call(cls, v, A=b)
                    V.meth(x, 'set_noise', a)
                    return x, V.call(cls, v, A=a)

                def post(V, r):
                    V.true('same kind', r[0].cls is r[1].cls)
                    for name in sorted(set(r[0].attrs) | set(r[1].attrs)):
                        V.eq('amplitude set later is as if given at first', r[0].attrs.get(name),
                             r[1].attrs.get(name))
                V.explore(run, post)
            R.case(f'noise amplitude of a {kind.lower()} [{eng}]', [f'elements.{kind}.set_noise',
                                                                    f'elements.{kind}.__init__'], amp, engine=eng)
