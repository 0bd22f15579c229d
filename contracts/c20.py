"""C20: the description states the Hamiltonian in use, any number of modes,
elements and loops."""
from engine import symb as SY
from .circ import *
from .c10 import UNIT, Unit, item

h = I_('nh')


class Screen:
    """display: writes to the screen only."""
    def apply(self, I, f, args, kw):
        return None


class Notebook:
    """is_notebook: either answer."""
    def apply(self, I, f, args, kw):
        return mkbool(ind_lit('=', Poly.atom(VAR('notebook', 'I'))))


CONTRACTS = {'units.get_unit_freq': UNIT, 'texts.HamilTxt.display': Screen(),
             'texts.is_notebook': Notebook()}
FUNCS = ['circuit.Circuit.description', 'circuit.Circuit._compute_descrip_vars',
         'circuit.Circuit._phi_zp', 'circuit.Circuit._impedance',
         'circuit.Circuit._get_quadratic_cInvTrans',
         'symbolic.construct_hamiltonian', 'symbolic.har_mode_hamil', 'symbolic.charge_mode_hamil',
         'symbolic.inductive_hamil', 'symbolic.jj_hamil', 'symbolic.ExplicitSymbol.__new__',
         'symbolic.qOperator.__new__', 'texts.HamilTxt.__init__', 'texts.HamilTxt.ham_txt',
         'texts.HamilTxt.mode_txt', 'texts.HamilTxt.param_txt', 'texts.HamilTxt.loop_txt',
         'texts.HamilTxt.print_circuit_description']


def sym(name, *i):
    return ap('sym ' + name, *i)


def omh(k):
    return ap('omh', k, pos=True)


def total(f, lo, hi):
    """Sum over lo..hi-1, counted from zero."""
    k = fresh_bound()
    return sum_range(k, ZEROP, hi - lo, f(lo + Poly.atom(k)))


def share(b, l, loops):
    return ap('B', b, l) if loops else ZEROP


def row(b, loops):
    """Whether an external flux acts at the place."""
    return ind_lit('!=', total(lambda l: f_abs(ap('B', b, l)), ZEROP, nl)) if loops else ZEROP


def applied(b, loops):
    return total(lambda l: ap('B', b, l) * sym('phi_e{}', l + ONEP), ZEROP, nl) if loops else ZEROP


def h_text(loops):
    """The Hamiltonian in the symbols of the description."""
    one = ONEP
    t = total(lambda i: sym('omega_{}', i + one) * sym('ad_{}', i + one) * sym('a_{}', i + one),
              ZEROP, h)
    q = lambda i: sym('n_{}', i + one) - sym('ng_{}', i + one)
    t = t + total(lambda i: total(lambda j: sym('EC_{}{}', i + one, j + one) * q(i) * q(j), i, n),
                  h, n)

    def coil(p):
        n1, n2, b = (ap(x, p, sort='I') for x in ('eL1', 'eL2', 'bL'))
        g = ONEP - ind_lit('!=', n1) * ind_lit('!=', n2)

        def c(k):
            return g * S_ent(n1 + n2 - one, k) + ind_lit('!=', n1) * ind_lit('!=', n2) * (
                S_ent(n1 - one, k) - S_ent(n2 - one, k))
        return row(b, loops) * sym('EL_{}', p + one) * applied(b, loops) * total(
            lambda k: c(k) * sym('phi_{}', k + one), ZEROP, h)

    def jun(p):
        b, wi = ap('bJ', p, sort='I'), ap('wJ', p, sort='I')
        ph = total(lambda k: ap('wt', wi, k) * sym('phi_{}', k + one), ZEROP, n)
        return -sym('EJ_{}', p + one) * f_fun('cos', ph + applied(b, loops))
    return t + total(coil, ZEROP, nL) + total(jun, ZEROP, nJ)


def unit():
    return Unit.value(0)


def zp(i):
    return TWO * PI * Phi0.inv() * (hbar * HALF * Z(i)).fpow(Fraction(1, 2))


def EC(i, j):
    c = ind_lit('=', i - j) * HALF * dg('cit', i) + ind_lit('<', i - j) * ap('cit', i, j)
    return (TWO * e_charge).ipow(2) * (hbar * TWO * PI * unit()).inv() * c


def EJ(p):
    return vJ(ap('idJ', p, sort='I')) * (TWO * PI * unit()).inv()


def EL(p):
    return (Phi0 * (TWO * PI).inv()).ipow(2) * vL(ap('idL', p, sort='I')).inv() \
        * (TWO * PI * hbar * unit()).inv()


X = Poly.atom(VAR('X', 'R'))


def says(p):
    return ap('says', p)


def kinds(i, word):
    return ap('is ' + word, i)


def text_spec(loops, ham):
    one = ONEP

    def st(lhs, rhs):
        return says(lhs) * (X + rhs)

    def mode(i):
        j = i + one
        return st(sym('phi_{}', j), sym('zp_{}', j) * (sym('a_{}', j) + sym('ad_{}', j))) \
            + st(sym('omega_{}', j) * (TWO * PI).inv(), omh(i) * (TWO * PI * unit()).inv()) \
            + st(sym('zp_{}', j), zp(i)) + kinds(j, 'harmonic')

    t = st(Poly.atom(VAR('sym H', 'R')), ham)
    t = t + total(mode, ZEROP, h)
    t = t + total(lambda i: st(sym('ng_{}', i + one), ng(i)) + kinds(i + one, 'charge'), h, n)
    t = t + total(lambda i: total(lambda j: st(sym('EC_{}{}', i + one, j + one), EC(i, j)), i, n), h, n)
    t = t + total(lambda p: row(ap('bL', p, sort='I'), loops) * st(sym('EL_{}', p + one), EL(p)),
                  ZEROP, nL)
    t = t + total(lambda p: st(sym('EJ_{}', p + one), EJ(p)), ZEROP, nJ)
    if loops:
        t = t + total(lambda l: st(sym('phi_e{}', l + one) * (TWO * PI).inv(),
                                   flux(l) * (TWO * PI).inv()), ZEROP, nl)
    return t


def describe(c, **over):
    k = c.V.I.fresh('k')
    K = Poly.atom(k)
    d = dict(omega=Arr('np', (n,), ind_lit('<', IXP[0] - h) * omh(IXP[0])),
             charge_islands=SDict([DSeg(n, k, ind_lit('<=', h - K), SNum(K, 'int'), FamObj(c.chs, K))]),
             descrip_vars=SDict([]))
    d.update(over)
    return c.build(**d)


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for loops in (True, False):
            for tp in ('txt', 'ltx'):
                def text(V, tp=tp, loops=loops):
                    c = Circ(V)

                    def run():
                        SY.EXACT[0] = True
                        UNIT.now = 0
                        V.I.symbols = []
                        V.assume(ind_lit('<=', -h), ind_lit('<=', h - n), ind_lit('<=', ONEP - n))
                        if loops:
                            V.assume(ind_lit('<=', ONEP - nl))
                        o = describe(c)
                        if not loops:
                            o.attrs['loops'] = SList([])
                        fr = Frame(V, o)
                        return o, fr, V.meth(o, 'description', tp, _test=True)

                    def post(V, r):
                        o, fr, r = r
                        H = P(getv(V, o, 'H'))
                        apart(V, 'text', SY.statements(r, X, says, kinds) - text_spec(loops, H), SAID)
                        apart(V, 'Hamiltonian', H - h_text(loops), TERMS)
                        variables(V, o, loops)
                        latex(V)
                        fr.check('circuit and settings are as before', but=('descrip_vars',))
                    try:
                        V.explore(run, post)
                    finally:
                        SY.EXACT[0] = False
                R.case(f'description {tp} {"with" if loops else "without"} loops [{eng}]', FUNCS, text,
                       engine=eng, contracts=CONTRACTS)


def variables(V, o, loops):
    """The documented dictionary holds the same numbers."""
    i, j, t = V.int('i'), V.int('j'), V.int('t')
    V.assume(ind_lit('<=', -i.p), ind_lit('<=', i.p - j.p), ind_lit('<', j.p - n), ind_lit('<=', -t.p))

    def at(key, *idx):
        v = getv(V, o, key)
        for k in idx:
            v = item(V, v, k)
        return v

    def check(key, want, *idx, when=()):
        mark = len(V.I.trail)
        V.assume(*when)
        V.zero(f'variable {key}', P(at(key, *idx)) - want)
        V.I.undo_to(mark)

    har = [ind_lit('<', i.p - h)]
    check('n_modes', n)
    check('har_dim', h)
    check('charge_dim', n - h)
    check('n_loops', nl if loops else ZEROP)
    check('omega', omh(i.p) * (TWO * PI * unit()).inv(), i, when=har)
    check('phi_zp', zp(i.p), i, when=har)
    check('ng', ng(i.p), num(i.p - h, 'int'), when=[ind_lit('<=', h - i.p)])
    check('EC', EC(i.p, j.p), (i, j), when=[ind_lit('<=', h - i.p)])
    check('EL', EL(t.p), t, when=[ind_lit('<', t.p - nL)])
    check('EJ', EJ(t.p), t, when=[ind_lit('<', t.p - nJ)])
    if loops:
        check('loops', flux(t.p) * (TWO * PI).inv(), t, when=[ind_lit('<', t.p - nl)])


def latex(V):
    """The LaTeX name of a symbol has the same indices, and names differ if symbols do."""
    names = {}
    ok = True
    for s, attrs in V.I.symbols:
        if 'lsymbol' not in attrs:
            continue
        a, b = only(s.p), only(attrs['lsymbol'].p)
        ok = ok and a[1] == b[1] and names.setdefault(b[0], a[0]) == a[0]
    V.true('LaTeX names', ok)


def only(p):
    (m, _), = p.t.items()
    a = m[0][0]
    return (a.fn, [x.key for x in a.args]) if a.kind == 'app' else (a.name, [])


# what a statement is about, and the symbols that tell terms of the Hamiltonian apart
SAID = [('kind of the modes', 'is '), ('Hamiltonian', 'says(sym H'), ('mode frequencies', 'says((1/2*pi:R+^-1*sym omega'),
        ('flux of a mode', 'says(sym phi_{}'), ('zero-point fluctuations', 'says(sym zp'),
        ('gate charges', 'says(sym ng'), ('charging energies', 'says(sym EC'),
        ('inductive energies', 'says(sym EL'), ('junction energies', 'says(sym EJ'),
        ('external fluxes', 'sym phi_e')]
TERMS = [('harmonic modes', 'sym omega'), ('charge modes', 'sym EC'), ('inductors', 'sym EL'),
         ('junctions', 'sym EJ')]


def apart(V, what, p, groups):
    """Each group of terms by itself; the symbols of the groups are independent."""
    parts = [{} for _ in groups] + [{}]
    for m, c in p.t.items():
        k = ' '.join(a.key for a, _ in m)
        parts[next((i for i, (_, s) in enumerate(groups) if s in k), len(groups))][m] = c
    for (name, _), q in zip(groups + [('rest', '')], parts):
        V.zero(f'{what}: {name}', Poly(q))


def getv(V, o, key):
    return V.I.models.getitem(V.I, V.I.getattr(o, 'descrip_vars'), key)
