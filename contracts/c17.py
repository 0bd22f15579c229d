"""C17: composite systems combine their parts in order."""
import ast

from .circ import *
from .c11 import charge_ops
from engine.loops import Invariant, loop_names
from engine.values import TensQ

S, nK = I_('S'), I_('nK')
MODES = lambda s: ap('modes', s, sort='I', pos=True)
NODES = lambda s: ap('nodes', s, sort='I', pos=True)
LEVELS = lambda s: ap('levels', s, sort='I', pos=True)
CS, RS = Base('Cs', nslots=1, kind='mat', real=True, sym=True), Base('Rs', nslots=1, kind='mat', real=True)
BBARE = EM.blocks_base(lambda k: NC.sym(CS, k), S)
BR = EM.blocks_base(lambda k: NC.sym(RS, k), S)
BSYS = Base('C of the system', kind='mat', real=True, sym=True)


def total(f, upto):
    v = VAR('%tot', 'I')
    return sum_range(v, ZEROP, upto, f(Poly.atom(v)))


def within(V, name, hi, lo=ZEROP):
    x = V.int(name)
    V.assume(ind_lit('<=', lo - x.p), ind_lit('<=', x.p - hi))
    return x


def circuits(V):
    """The circuits of a system: any number, each with its own sizes."""
    kind = 'torch' if V.engine == 'pytorch' else 'np'

    return Fam('circuit', [V.mod('circuit').ns['Circuit']], {
        'n': lambda I, o: SNum(MODES(o.ident), 'int'),
        'C': lambda I, o: Arr(kind, (NODES(o.ident),) * 2, NC.sym(CS, o.ident)),
        'R': lambda I, o: Arr('np', (NODES(o.ident), MODES(o.ident)), NC.sym(RS, o.ident)),
        'efreqs': lambda I, o: Arr(kind, (LEVELS(o.ident),), ap('level', o.ident, IXP[0]), 'float'),
        '_efreqs': lambda I, o: Arr(kind, (LEVELS(o.ident),), ap('level', o.ident, IXP[0]), 'float')})


class Parts:
    """The list of distinct circuits; proved below."""
    def __init__(self, fam):
        self.fam = fam

    def apply(self, I, f, args, kw):
        k = I.fresh('c')
        return SList([Seg.uniform(S, k, FamObj(self.fam, Poly.atom(k)))])


class Tensor:
    """Tensor product of the operators in their order."""
    def apply(self, I, f, args, kw):
        return TensQ(list(args))


def system(V, c=None, **over):
    fam = circuits(V)
    K = V.I.fresh('x')
    XP = Poly.atom(K)
    cap = V.mod('elements').ns['Capacitor']
    caps = Fam('coupling cap', [cap], {
        'internal_value': lambda I, o: sc(V, ap('vK', o.ident)),
        '_value': lambda I, o: sc(V, ap('vK', o.ident)), 'type': lambda I, o: cap})
    cp = Fam('couple', [V.get('systems', 'Couple')], {
        'circuits': lambda I, o: SList([FamObj(fam, ap('sA', o.ident, sort='I')),
                                        FamObj(fam, ap('sB', o.ident, sort='I'))]),
        'attrs': lambda I, o: SList([SNum(ap('nA', o.ident, sort='I'), 'int'),
                                     SNum(ap('nB', o.ident, sort='I'), 'int')]),
        'el': lambda I, o: FamObj(caps, o.ident)})
    V.I.contracts.update({'systems.System._get_all_circuits': Parts(fam),
                          'functions.tensor_product': Tensor()})
    o = V.call(V.get('systems', 'System'), SList([Seg.uniform(nK, K, FamObj(cp, XP))]))
    o.fam = fam
    return o


def node_in_sys(s, i):
    return total(NODES, s) + i - ONEP


def op_at(V, nc, s, hint='op'):
    """Operator of circuit s as the engine stores it."""
    if V.engine == 'pytorch':
        return Arr('torch', (LEVELS(s), LEVELS(s)), nc, 'complex')
    return SQobj(nc, (LEVELS(s), LEVELS(s)))


def factors(V, ops):
    """Tensor product with the given operators at the given circuits and the
    identity everywhere else."""
    k = V.I.fresh('f')
    K = Poly.atom(k)
    cases, rest = [], ONEP
    for s, nc in ops:
        cases.append((rest * ind_lit('=', K - s), [op_at(V, nc, K)]))
        rest = rest * ind_lit('!=', K - s)
    cases.append((rest, [op_at(V, NC.scalar(ONEP), K)]))
    return TensQ([Seg(S, k, cases)])


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        def sizes(V):
            def run():
                return system(V)

            def post(V, o):
                V.eq('number of circuits', V.attr(o, 'n_sub'), S)
                V.eq('number of modes', V.attr(o, 'n_N'), total(MODES, S))
                k = V.I.fresh('k')
                V.eq('levels of every circuit', V.attr(o, 'trunc_nums'),
                     SList([Seg.uniform(S, k, SNum(LEVELS(Poly.atom(k)), 'int'))]))
            V.explore(run, post)
        R.case(f'System [{eng}]', ['systems.System.__init__',
                                   'systems.System._get_all_circuits_num_eig'], sizes, engine=eng)

        def node(V):
            s = within(V, 's', S - ONEP)
            i = within(V, 'i', NODES(s.p), ONEP)

            def run():
                o = system(V)
                return V.meth(o, '_node_idx_in_sys', FamObj(o.fam, s.p), i)

            def post(V, r):
                V.eq('nodes of the circuits before it plus its own', r, node_in_sys(s.p, i.p))
            V.explore(run, post)
        R.case(f'_node_idx_in_sys [{eng}]', ['systems.System._node_idx_in_sys'], node, engine=eng)

        def part(V):
            i = V.int('i')
            V.assume(ind_lit('<=', -i.p), ind_lit('<', i.p - total(MODES, S - ONEP) - MODES(S - ONEP)))

            def run():
                q, s = V.meth(system(V), '_node_idx_in_sub_sys', i)
                c = P(s)
                # the sum over the circuits before c, split off its last term
                if V.I.decide(ind_lit('<=', ONEP - c)):
                    V.assume(ind_lit('=', total(MODES, c) - total(MODES, c - ONEP) - MODES(c - ONEP)))
                else:
                    V.assume(ind_lit('=', total(MODES, c)))
                return P(q), c

            def post(V, r):
                q, c = r
                V.eq('modes before the circuit plus its own', total(MODES, c) + q - ONEP, i.p)
                V.true('a circuit', ind_lit('<=', -c) * ind_lit('<=', c - S + ONEP))
                V.true('at least its first mode', ind_lit('<=', ONEP - q))
                V.true('at most its last mode', ind_lit('<=', q - MODES(c)))
            V.explore(run, post)
        R.case(f'_node_idx_in_sub_sys [{eng}]', ['systems.System._node_idx_in_sub_sys'], part,
               engine=eng)

        def one(V):
            s = within(V, 's', S - ONEP)

            def run():
                o = system(V)
                return V.meth(o, '_op_in_sys', op_at(V, NC.sym(Base('X')), s.p), s)

            def post(V, r):
                V.eq('operator on its own factor', r, factors(V, [(s.p, NC.sym(Base('X')))]))
            V.explore(run, post)
        R.case(f'_op_in_sys [{eng}]', ['systems.System._op_in_sys'], one, engine=eng)

        for same in (True, False):
            def two(V, same=same):
                s, t = within(V, 's', S - ONEP), within(V, 't', S - ONEP)
                V.assume(ind_lit('=' if same else '!=', s.p - t.p))
                X, Y = NC.sym(Base('X')), NC.sym(Base('Y'))

                def run():
                    o = system(V)
                    return V.meth(o, '_op_times_op_in_sys', op_at(V, X, s.p), s, op_at(V, Y, t.p), t)

                def post(V, r):
                    V.eq('operators on their own factors', r, factors(
                        V, [(s.p, X * Y)] if same else [(s.p, X), (t.p, Y)]))
                V.explore(run, post)
            R.case(f'_op_times_op_in_sys {"same" if same else "different"} [{eng}]',
                   ['systems.System._op_times_op_in_sys'], two, engine=eng)
        more(R, eng)
        charge_ops(R, eng)


BLEV = Base('levels', nslots=1, herm=True)
BQQ = Base('charge product', nslots=2)
BQC = Base('charge', nslots=2, herm=True)
WHOLE = I_('dim')


def whole(V_engine, nc):
    if V_engine == 'pytorch':
        return Arr('torch', (WHOLE, WHOLE), nc, 'complex')
    return SQobj(nc, (WHOLE, WHOLE))


def engine_of(I):
    opt = I.call(I.getattr(I.load('SQcircuit.settings'), 'get_optim_mode'), [], {})
    return 'pytorch' if opt is True else 'numpy'


class Levels:
    """Contract of _op_in_sys for the spectrum of a circuit: the diagonal
    operator of its levels on its factor."""
    def apply(self, I, f, args, kw):
        a = dict(zip(('self', 'sub_op', 'sub_idx'), args), **kw)
        op, s = a['sub_op'], P(a['sub_idx'])
        e = op_entries(op)
        i, j = Poly.atom(I.fresh('i')), Poly.atom(I.fresh('j'))
        inside = ind_lit('<=', -i) * ind_lit('<=', i - LEVELS(s) + ONEP) \
            * ind_lit('<=', -j) * ind_lit('<=', j - LEVELS(s) + ONEP)
        d = e.subst({IX[0]: i, IX[1]: j}) - ind_lit('=', i - j) * ap('level', s, i)
        if not prove_zero(inside * d, I.ctx()):
            raise Unsupported('operator that is not the spectrum of its circuit')
        return whole(engine_of(I), NC.sym(BLEV, s))


def op_entries(op):
    if isinstance(op, SQobj):
        if len(op.nc.t) == 1:
            (w, c), = op.nc.t.items()
            b = w[0].base if len(w) == 1 and not w[0].inv else None
            if b is not None and b.inner and b.inner[0] == 'ent' and c == ONEP:
                # a matrix given by its entries
                t = {IX[0]: IXP[1], IX[1]: IXP[0]} if w[0].t else {}
                return b.inner[1].subst(t)
        return op.nc.entry(IXP[0], IXP[1])
    return entries(op)


class Pair:
    """Contract of _QQ_op."""
    def apply(self, I, f, args, kw):
        a = dict(zip(('self', 'm', 'n'), args), **kw)
        return whole(engine_of(I), NC.sym(BQQ, P(a['m']), P(a['n'])))


class CapMatrix:
    def apply(self, I, f, args, kw):
        kind = 'torch' if engine_of(I) == 'pytorch' else 'np'
        t = total(NODES, S)
        return Arr(kind, (t, t), NC.sym(BSYS))


def quad(A):
    """Half of the quadratic form; products in the order of the modes."""
    i, j = VAR('%qi', 'I'), VAR('%qj', 'I')
    IP, JP = Poly.atom(i), Poly.atom(j)
    T = total(MODES, S)
    d = NC.sym(BQQ, IP, IP).scale(A(IP, IP) * HALF).sum(i, ZEROP, T)
    o = NC.sym(BQQ, IP, JP).scale(A(IP, JP) * ind_lit('<', IP - JP)).sum(j, ZEROP, T).sum(i, ZEROP, T)
    return d + o


def more(R, eng):
    def cap(V):
        def run():
            return V.meth(system(V), 'cap_matrix')

        def post(V, r):
            T = total(NODES, S)
            V.eq('rows', r.shape[0], T)
            V.eq('columns', r.shape[1], T)
            x = VAR('%x', 'I')
            X = Poly.atom(x)
            a = place(ap('sA', X, sort='I'), ap('nA', X, sort='I'))
            b = place(ap('sB', X, sort='I'), ap('nB', X, sort='I'))
            i, j = IXP[0], IXP[1]
            at = lambda p, q: ind_lit('=', p - q)
            add = (at(i, a) - at(i, b)) * (at(j, a) - at(j, b)) * ap('vK', X)
            V.eq('blocks and couplings', r, Arr('np', r.shape, NC.sym(BBARE).entry(i, j)
                                                + sum_range(x, ZEROP, nK, add)))
        V.explore(run, post)
    R.case(f'cap_matrix [{eng}]', ['systems.System.cap_matrix', 'systems.System._bare_cap_matrix'],
           cap, engine=eng, contracts={'systems.System._node_idx_in_sys': NodeIdx()})

    def quadr(V):
        def run():
            o = system(V)
            T = total(MODES, S)
            A = Arr('torch' if V.engine == 'pytorch' else 'np', (T, T), ap('A', IXP[0], IXP[1]))
            return V.meth(o, '_quadratic_Q', A)

        def post(V, r):
            V.eq('half of the quadratic form', nc_of(r), quad(lambda i, j: ap('A', i, j)))
        V.explore(run, post)
    R.case(f'_quadratic_Q [{eng}]', ['systems.System._quadratic_Q'], quadr, engine=eng,
           contracts={'systems.System._QQ_op': Pair()})

    def local(V):
        def run():
            return V.meth(system(V), '_H_local')

        def post(V, r):
            V.eq('sum of the spectra', nc_of(r), local_spec())
        V.explore(run, post)
    R.case(f'_H_local [{eng}]', ['systems.System._H_local'], local, engine=eng,
           contracts={'systems.System._op_in_sys': Levels()})

    def qq(V):
        T = total(MODES, S)
        m, k = within(V, 'm', T - ONEP), within(V, 'k', T - ONEP)
        part = lambda i: ap('part', i, sort='I')
        own = lambda i: ap('own', i, sort='I')
        for x in (m, k):
            V.assume(ind_lit('<=', -part(x.p)), ind_lit('<=', part(x.p) - S + ONEP))

        def run():
            return V.meth(system(V), '_QQ_op', m, k)

        def post(V, r):
            s, t = part(m.p), part(k.p)
            X, Y = NC.sym(BQC, s, own(m.p)), NC.sym(BQC, t, own(k.p))
            same = V.I.ctx().entails(ind_lit('=', s - t))
            V.eq('charges of the two modes', r, factors(V, [(s, X * Y)] if same else [(s, X), (t, Y)]))
        V.explore(run, post)
    R.case(f'_QQ_op [{eng}]', ['systems.System._QQ_op'], qq, engine=eng,
           contracts={'systems.System._node_idx_in_sub_sys': SubIdx(),
                      'circuit.Circuit.charge_op': ChargeOp()})

    any_couplings(R, eng)
    any_factors(R, eng)
    small(R, eng)

    for meth in ('_H_int', 'hamiltonian'):
        def inter(V, meth=meth):
            def run():
                return V.meth(system(V), meth)

            def post(V, r):
                want = int_spec(V)
                if meth == 'hamiltonian':
                    want = want + local_spec()
                V.eq('coupling by the change of the inverse capacitance matrix'
                     if meth == '_H_int' else 'spectra and coupling', nc_of(r), want)
            V.explore(run, post)
        R.case(f'{meth} [{eng}]', ['systems.System.' + meth], inter, engine=eng,
               contracts={'systems.System._op_in_sys': Levels(), 'systems.System._QQ_op': Pair(),
                          'systems.System.cap_matrix': CapMatrix()})


class SubIdx:
    """Contract of _node_idx_in_sub_sys: circuit and mode of a mode of the system."""
    def apply(self, I, f, args, kw):
        i = P(dict(zip(('self', 'i'), args), **kw)['i'])
        return (SNum(ap('own', i, sort='I'), 'int'), SNum(ap('part', i, sort='I'), 'int'))


class ChargeOp:
    """Contract of charge_op in the eigenbasis."""
    def apply(self, I, f, args, kw):
        a = dict(zip(('self', 'mode', 'basis'), args), **kw)
        if a.get('basis', 'original') != 'eig' or not isinstance(a['self'], FamObj):
            raise Unsupported('charge operator outside the eigenbasis')
        s = a['self'].ident
        nc = NC.sym(BQC, s, P(a['mode']))
        if engine_of(I) == 'pytorch':
            return Arr('torch', (LEVELS(s), LEVELS(s)), nc, 'complex')
        return SQobj(nc, (LEVELS(s), LEVELS(s)))


def product_factors(r):
    """The factors of a tensor or Kronecker product in their order."""
    if isinstance(r, TensQ):
        return [Seg.uniform(x.N, x.k, SQobj(nc_of(x.item(Poly.atom(x.k))), x.item(Poly.atom(x.k)).shape))
                if isinstance(x, Seg) else SQobj(nc_of(x), x.shape) for x in r.items]
    (w, c), = nc_of(r).t.items()
    inner = w[0].base.inner if len(w) == 1 and c == ONEP and EM.plain(w[0]) else None
    if inner and inner[0] == 'kron':
        return [SQobj(nc, sh) for nc, sh in inner[1]]
    return [SQobj(nc_of(r), r.shape)]


class Distinct(Invariant):
    """Invariant: each circuit is listed once, and every circuit of the
    couplings so far is listed."""
    def __init__(self, V):
        self.V, self.who = V, None
        self.any = V.int('any circuit').p

    def fits(self, I, s, state, seg):
        return len(state) == 1 and all(isinstance(v, SList) and not v.items for v in state.values()) \
            and isinstance(seg.item(ZEROP), FamObj) and seg.item(ZEROP).fam.name == 'couple'

    def covers(self, I, N, item):
        self.V.eq('every coupling is looked at', N, nK)

    def count(self, q, x):
        j = fresh_bound()
        return sum_range(j, ZEROP, q, ind_lit('=', self.who(Poly.atom(j)) - x))

    def generic(self, I, state, k):
        q = self.q = Poly.atom(I.fresh('q'))
        name = f'listed{I.kcount}'
        self.who = lambda j: ap(name, j, sort='I')
        I.assume(ind_lit('<=', -q))
        b = I.fresh('j')
        self.fam = circuits(self.V) if getattr(self, 'fam', None) is None else self.fam
        for x in (self.any, ap('sA', k, sort='I'), ap('sB', k, sort='I')):
            I.assume(ind_lit('<=', self.count(q, x) - ONEP))
        return {n_: SList([Seg.uniform(q, b, FamObj(self.fam, self.who(Poly.atom(b))))]) for n_ in state}

    def step(self, I, before, after, item, k):
        V = self.V
        (old,), (new,) = before.values(), after.values()
        more = new[len(old):]
        if new[:len(old)] != old or not all(isinstance(x, FamObj) for x in more):
            raise Unsupported('circuits listed in another way')

        def times(x):
            return sum((ind_lit('=', y.ident - x) for y in more), self.count(self.q, x))
        V.zero('each circuit once', ind_lit('<', ONEP - times(self.any)))
        for f in ('sA', 'sB'):
            V.zero('the circuits of each coupling', ind_lit('<', times(ap(f, k, sort='I')) - ONEP))


def any_couplings(R, eng):
    def parts(V):
        inv = Distinct(V)

        def run():
            V.I.invariant = inv
            fam = inv.fam = circuits(V)
            K = V.I.fresh('x')
            cp = Fam('couple', [V.get('systems', 'Couple')], {
                'circuits': lambda I, o: SList([FamObj(fam, ap('sA', o.ident, sort='I')),
                                                FamObj(fam, ap('sB', o.ident, sort='I'))])})
            try:
                return V.attr(V.call(V.get('systems', 'System'),
                                     SList([Seg.uniform(nK, K, FamObj(cp, Poly.atom(K)))])), 'circuits')
            finally:
                V.I.invariant = None

        def post(V, r):
            if inv.who is None:
                raise Unsupported('loop of another form')
            j = fresh_bound()
            V.eq('the list', r, SList([Seg.uniform(inv.q, j, FamObj(inv.fam, inv.who(Poly.atom(j))))]))
        V.explore(run, post)
    R.case(f'circuits of a system [{eng}]', ['systems.System._get_all_circuits'], parts, engine=eng)


class Factors(Invariant):
    """Invariant: the product of the factors so far, in their order."""
    def __init__(self, V, item):
        self.V, self.item, self.name = V, item, None

    def fits(self, I, s, state, seg):
        stored, _ = loop_names(s)
        names = stored - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        if state or len(names) != 1:
            return False
        self.name, = names
        return True

    def kept(self, gen):
        return [self.name]

    def product(self, t):
        j = fresh_bound()
        return TensQ([Seg.uniform(t, j, self.item(Poly.atom(j)))])

    def generic(self, I, state, t):
        return {} if I.decide(ind_lit('=', t)) else {self.name: self.product(t)}

    def step(self, I, before, after, item, t):
        V, want = self.V, SQobj(nc_of(self.item(t)), self.item(t).shape)
        got = product_factors(after[self.name])
        old = product_factors(before[self.name]) if before else []
        if len(got) != len(old) + 1 or any(not isinstance(x, Seg) or x.N != y.N for x, y in zip(got, old)):
            raise Unsupported('product in another form')
        V.eq('factors so far', TensQ(got[:-1]), TensQ(old))
        V.eq('factor at hand', TensQ(got[-1:]), TensQ([want]))


def any_factors(R, eng):
    def tens(V):
        inv = Factors(V, lambda k: op_at(V, NC.sym(Base('factor operator', nslots=1), k), k))
        j = fresh_bound()

        def run():
            V.I.invariant = inv
            try:
                return V.fn('functions', 'tensor_product', Seg.uniform(nK, j, inv.item(Poly.atom(j))))
            finally:
                V.I.invariant = None
        V.explore(run, lambda V, r: V.eq('factors in order', TensQ(product_factors(r)), TensQ(product_factors(inv.product(nK)))))
    R.case(f'tensor_product [{eng}]', ['functions.tensor_product'], tens, engine=eng)


def small(R, eng):
    """Lists of a fixed length."""
    for name, pairs, order in (
            ('two circuits', [(0, 1)], [0, 1]), ('two couplings', [(0, 1), (1, 0)], [0, 1]),
            ('chain', [(0, 1), (1, 2)], [0, 1, 2]), ('chain from its middle', [(1, 2), (0, 1)], [1, 2, 0]),
            ('ring', [(0, 1), (1, 2), (2, 0)], [0, 1, 2]),
            ('four circuits', [(0, 1), (2, 3), (1, 2)], [0, 1, 2, 3])):
        def parts(V, pairs=pairs, order=order):
            def run():
                fam = circuits(V)
                cs = [FamObj(fam, C(i)) for i in range(4)]
                cap = V.call(V.get('elements', 'Capacitor'), V.real('v', True), 'fF')
                cp = [V.call(V.get('systems', 'Couple'), cs[a], 1, cs[b], 1, cap) for a, b in pairs]
                o = V.call(V.get('systems', 'System'), SList(cp))
                return V.attr(o, 'circuits'), [cs[i] for i in order]

            def post(V, r):
                V.eq('every circuit once, in order of appearance', r[0], SList(r[1]))
            V.explore(run, post)
        R.case(f'circuits of a system: {name} [{eng}]', ['systems.System._get_all_circuits',
                                                         'systems.Couple.__init__'], parts, engine=eng,
               bounded=f'{len(pairs)} couplings')
    for k in (1, 2, 3):
        def blk(V, k=k):
            def run():
                kind = 'torch' if V.engine == 'pytorch' else 'np'
                return V.fn('functions', 'block_diag', *[
                    Arr(kind, (NODES(C(i)), MODES(C(i))), ap(f'M{i}', IXP[0], IXP[1])) for i in range(k)])

            def post(V, r):
                at = lambda f, i: sum((f(C(a)) for a in range(i)), ZEROP)
                V.eq('rows', r.shape[0], at(NODES, k))
                V.eq('columns', r.shape[1], at(MODES, k))
                for i in range(k):
                    for j in range(k):
                        a, b = V.int(f'a{i}{j}').p, V.int(f'b{i}{j}').p
                        V.assume(ind_lit('<=', -a), ind_lit('<', a - NODES(C(i))),
                                 ind_lit('<=', -b), ind_lit('<', b - MODES(C(j))))
                        V.eq(f'block {i},{j}', entries(r).subst({
                            IX[0]: a + at(NODES, i), IX[1]: b + at(MODES, j)}),
                            ap(f'M{i}', a, b) if i == j else ZEROP)
            V.explore(run, post)
        R.case(f'block_diag of {k} [{eng}]', ['functions.block_diag'], blk, engine=eng,
               bounded=f'{k} matrices')
    for k in (1, 2, 3, 4):
        def tens(V, k=k):
            ops = [op_at(V, NC.sym(Base(f'X{i}')), C(i)) for i in range(k)]

            def run():
                return V.fn('functions', 'tensor_product', *ops)

            def post(V, r):
                V.eq('factors in order', TensQ(product_factors(r)), TensQ(
                    [SQobj(nc_of(x), x.shape) for x in ops]))
            V.explore(run, post)
        R.case(f'tensor_product of {k} [{eng}]', ['functions.tensor_product'], tens, engine=eng,
               bounded=f'{k} factors')


def local_spec():
    s = VAR('%s', 'I')
    return NC.sym(BLEV, Poly.atom(s)).sum(s, ZEROP, S)


def int_spec(V):
    m = NC.sym(BSYS).inv() - NC.sym(BBARE).inv()
    Rm = NC.sym(BR)
    A = Rm.trans() * m * Rm
    u = P(V.fn('units', 'get_unit_freq'))
    return quad(lambda i, j: A.entry(i, j)).scale(EM.truediv(V.I, ONEP, TWO * PI * u))


def place(s, i):
    """The row node_in_sys(s, i); below the number of all nodes, since partial
    sums of positive sizes do not decrease."""
    return ap('place', s, i, sort='I')


def _facts():
    from engine import solve as SV
    rows = lambda: total(NODES, S)
    SV.AXIOM['place'] = lambda a: [ind_lit('<=', -place(*a)), ind_lit('<=', place(*a) - rows() + ONEP)]
    SV.MODELV['place'] = lambda m, a: int(m.poly(node_in_sys(C(a[0]), C(a[1]))))
    for x in ('A', 'B'):
        def circuit_of(m, a, x=x):
            return int(m.h('s' + x, tuple(a)) * int(m.poly(S)))
        SV.MODELV['s' + x] = circuit_of
        SV.MODELV['n' + x] = lambda m, a, x=x, f=circuit_of: 1 + int(
            m.h('n' + x, tuple(a)) * int(m.poly(NODES(C(f(m, a))))))


_facts()


class NodeIdx:
    """Contract of _node_idx_in_sys, proved above."""
    def apply(self, I, f, args, kw):
        a = dict(zip(('self', 'cr', 'i'), args), **kw)
        return SNum(place(a['cr'].ident, P(a['i'])), 'int')
