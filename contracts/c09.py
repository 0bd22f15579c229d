"""C09: everything stored is recomputed when what it depends on changes."""
from .circ import *
from .c08 import stored_junction, stored_inductor, with_facts


def offset_of(V, j):
    """Gate charge of mode j as it is set now."""
    return V.attr(FamObj(V.chs, j), 'chValue')


class Network:
    """Contract of _get_LCWB (C03, C04): registers the places of junctions and
    inductors, the loops and the parameters, and returns the matrices of the
    element values as they are at the call."""
    def __init__(self, eng):
        self.eng = eng

    def apply(self, I, f, args, kw):
        o = args[0]
        ek = I.getattr(o, 'elem_keys')
        self.fresh = [len(x[1].items) == 0 for x in ek.items] + [
            len(I.getattr(o, 'loops').items) == 0,
            len(I.getattr(o, '_parameters').items) == 0]
        self.nodes = I.getattr(o, 'n')
        nd = self.nd = P(self.nodes)
        kind = 'torch' if self.eng == 'pytorch' else 'np'

        def mat(name):
            return Arr(kind, (nd, nd), NC.sym(Base(name, kind='mat', real=True, sym=True)))
        self.out = (mat('newC'), mat('newL'), Arr('np', (nW, nd), ap('newW', IXP[0], IXP[1])),
                    Arr('np', (nL + nJ, nl), ap('newB', IXP[0], IXP[1])))
        return self.out


class Transform:
    """Contract of _transform_hamil (C05): from unit coordinate changes, the
    inverse capacitance, the susceptance and the junction matrix it sets the
    coordinate changes, the transformed matrices and the frequencies."""
    def __init__(self, net):
        self.net = net

    def apply(self, I, f, args, kw):
        o = args[0]
        self.given = {x: I.getattr(o, x) for x in ('R', 'S', 'cInvTrans', 'lTrans', 'wTrans', 'C', 'L', 'W', 'B')}
        nd = self.net.nd
        o.attrs.update(
            R=Arr('np', (nd, nd), ap('newR', IXP[0], IXP[1])),
            S=Arr('np', (nd, nd), ap('newS', IXP[0], IXP[1])),
            cInvTrans=Arr('np', (nd, nd), ap('newcit', IXP[0], IXP[1])),
            lTrans=Arr('np', (nd, nd), ap('newlt', IXP[0], IXP[1])),
            wTrans=Arr('np', (nW, nd), ap('newwt', IXP[0], IXP[1])),
            omega=Arr('np', (nd,), ap('newomega', IXP[0])))
        return None


class Remove:
    """Contract of _update_nmodes_remove_uncoupled_modes (C05): the modes that
    no junction touches leave every quantity; the others keep their order."""
    def apply(self, I, f, args, kw):
        o = args[0]
        self.called = True
        at = lambda name, *k: Arr('np', k, ap(name, *[IXP[i] for i in range(len(k))]))
        nd = self.net.nd
        o.attrs.update(
            n=SNum(n, 'int'), R=at('keptR', nd, n), S=at('keptS', nd, n), cInvTrans=at('keptcit', n, n),
            lTrans=at('keptlt', n, n), wTrans=at('keptwt', nW, n), omega=at('keptomega', n))
        return None


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for when in ('truncated', 'not truncated'):
            def offset(V, when=when):
                c = Circ(V)
                V.chs = c.chs
                mode, val = V.int('mode'), V.real('val')
                V.assume(ind_lit('<=', ONEP - mode.p), ind_lit('<=', mode.p - n),
                         ind_lit('=', om(mode.p - ONEP)))

                def run():
                    o = c.build(current=True, **({} if when == 'truncated' else {'m': SList([])}))
                    c.before = dict(o.attrs)
                    V.meth(o, 'set_charge_offset', mode, val)
                    return o

                def post(V, o):
                    j = V.int('j')
                    V.assume(ind_lit('<=', -j.p), ind_lit('<=', j.p - n + ONEP), ind_lit('=', om(j.p)))
                    same = ind_lit('=', j.p - mode.p + ONEP)
                    V.eq('the gate charge of that mode and no other',
                         offset_of(V, j.p), same * val.p + ind_lit('!=', j.p - mode.p + ONEP) * ng(j.p))
                    if when == 'truncated':
                        caches_current(V, o)
                    V.true('dimensions, matrices and elements as before', all(
                        o.attrs.get(x) is c.before[x] for x in (
                            'm', 'n', 'ms', 'elements', 'elem_keys', 'loops', 'C', 'L', 'W', 'B', 'S', 'R',
                            'cInvTrans', 'lTrans', 'wTrans', 'omega', 'charge_islands', '_parameters')))
                V.explore(run, post)
            R.case(f'set_charge_offset, {when} [{eng}]', ['circuit.Circuit.set_charge_offset',
                                                          'elements.Charge.set_offset'],
                   offset, engine=eng, contracts=CACHES)

        def noise(V):
            c = Circ(V)
            V.chs = c.chs
            mode, val = V.int('mode'), V.real('val')
            V.assume(ind_lit('<=', ONEP - mode.p), ind_lit('<=', mode.p - n),
                     ind_lit('=', om(mode.p - ONEP)))

            def run():
                o = c.build()
                c.before = dict(o.attrs)
                V.meth(o, 'set_charge_noise', mode, val)
                return o

            def post(V, o):
                j = V.int('j')
                V.assume(ind_lit('<=', -j.p), ind_lit('<=', j.p - n + ONEP), ind_lit('=', om(j.p)))
                V.eq('gate charges as before', offset_of(V, j.p), ng(j.p))
                V.true('circuit as before', all(o.attrs.get(x) is v for x, v in c.before.items()))
            V.explore(run, post)
        R.case(f'set_charge_noise [{eng}]', ['circuit.Circuit.set_charge_noise',
                                             'elements.Charge.set_noise'], noise, engine=eng,
               contracts=CACHES)

        # the Hamiltonian after a change of a loop flux, and a second time
        def again(V):
            c = Circ(V)
            which, val = V.int('which'), V.real('val')
            V.assume(ind_lit('<=', -which.p), ind_lit('<', which.p - nl))

            def run():
                o = c.build()
                first = V.meth(o, 'hamiltonian')
                twice = V.meth(o, 'hamiltonian')
                V.meth(c.loopobj(which.p), 'set_flux', val)
                o2 = V.meth(o, 'hamiltonian')
                return o, first, twice, o2

            def post(V, r):
                o, first, twice, after = r
                V.eq('the second call returns the same', twice, first)
                V.eq('the loop has the flux that was set', V.meth(c.loopobj(which.p), 'value'),
                     val.p * TWO * PI)
                V.eq('Hamiltonian of the new flux', after, qob(h_spec(lambda t: ind_lit('=', t - which.p) * val.p * TWO * PI
                                       + ind_lit('!=', t - which.p) * flux(t))))
            V.explore(run, post)
        R.case(f'hamiltonian after a change of flux [{eng}]', ['circuit.Circuit.hamiltonian'], again,
               engine=eng)

        updates(R, eng, ('truncated', 'not truncated'))


def updates(R, eng, states):
    for when in states:
        for opt in ('drops modes',) if eng == 'numpy' else ('keeps modes',):
            net, rem = Network(eng), Remove()
            tr = Transform(net)
            rem.net = net

            def upd(V, when=when, net=net, tr=tr, rem=rem, opt=opt):
                c = Circ(V)
                V.chs = c.chs
                rem.called = False
                top = Poly.atom(VAR('top', 'I'))
                a, b = ap('eE1', top, sort='I'), ap('eE2', top, sort='I')
                # the highest node is a node of some edge
                V.assume(ind_lit('<=', ONEP - nW), ind_lit('<=', -top), ind_lit('<', top - nE),
                         ind_lit('=', (a - N) * (b - N)))
                if opt == 'keeps modes':
                    V.assume(ind_lit('=', n - N))

                def run():
                    rem.called = False
                    o = c.build(**({'m': SList([])} if when == 'not truncated' else {}))
                    if when == 'restored':
                        # a restored circuit comes without its operators
                        del o.attrs['_memory_ops'], o.attrs['_LC_hamil']
                    c.before = dict(o.attrs)
                    V.meth(o, 'update')
                    return o

                def post(V, o):
                    V.true('places, loops and parameters are collected afresh', all(net.fresh))
                    nd = P(net.nodes)
                    V.assume(*EM.greatest_facts(V.I, nd, top))
                    V.eq('number of nodes', nd, N)
                    for x, v in zip('CLWB', net.out):
                        V.true(f'matrix {x} is the one of the current values',
                               tr.given[x] is v and o.attrs[x] is v)
                    one = ind_lit('=', IXP[0] - IXP[1])
                    for x in 'RS':
                        V.eq(f'{x} starts as the unit matrix', tr.given[x],
                               Arr('np', (nd, nd), one))
                    inv = NC.sym(Base('newC', kind='mat', real=True, sym=True)).inv()
                    V.eq('inverse capacitance of the current values', nc_of(tr.given['cInvTrans']), inv)
                    V.eq('susceptance of the current values', nc_of(tr.given['lTrans']),
                         NC.sym(Base('newL', kind='mat', real=True, sym=True)))
                    V.eq('junction matrix of the current elements', tr.given['wTrans'],
                           Arr('np', (nW, nd), ap('newW', IXP[0], IXP[1])))
                    for x in ('lTrans', 'wTrans'):
                        V.true(f'{x} is not the matrix itself', all(
                            tr.given[x] is not tr.given[y] for y in 'LW'))
                    V.true('modes no junction touches are dropped unless optimising',
                           rem.called is (opt == 'drops modes'))
                    V.true('truncation and gate charges are kept', all(
                        o.attrs[x] is c.before[x] for x in ('m', 'ms', 'charge_islands', 'elements'))
                        and not V.I.famw)
                    mem = V.attr(o, '_memory_ops')
                    for key in ('cos', 'sin', 'sin_half', 'ind_hamil'):
                        V.true(f'no operator {key} of the former values is left',
                               len(getm(V, o, key).items) == 0)
                    if when != 'not truncated':
                        caches_current(V, o)
                    V.eq('no levels of the former values', V.call(Builtin('len'), V.attr(o, '_efreqs')), ZEROP)
                    V.eq('no states of the former values', V.call(Builtin('len'), V.attr(o, '_evecs')), ZEROP)
                V.explore(run, post)
            R.case(f'update, {when}, {opt} [{eng}]', ['circuit.Circuit.update'], upd, engine=eng,
                   contracts={**CACHES, 'circuit.Circuit._get_LCWB': net,
                              'circuit.Circuit._transform_hamil': tr,
                              'circuit.Circuit._update_nmodes_remove_uncoupled_modes': rem})
