"""C03: network matrices."""
from engine.terms import INJECTIVE
from .circ import *
from .columns import columns



def tag(t):
    return ap('tag', t, sort='I')


def val(t):
    return ap('val', t, pos=True)


def cap_of(t):
    return ap('capOf', t, sort='I')


def at(e, k):
    """Identity of the k-th element of edge number e."""
    return ap('at', e, k, sort='I')


def count(e):
    return ap('nel', e, sort='I', pos=True)


def _axioms():
    from engine import solve as SV

    def ax(args):
        v = tag(args[0])
        a = args[0].t
        if len(a) == 1:
            (m, c), = a.items()
            if len(m) == 1 and m[0][0].kind == 'app' and m[0][0].fn == 'capOf':
                return [ind_lit('=', v)]
        return [ind_lit('<=', -v), ind_lit('<=', v - TWO)]
    SV.AXIOM['tag'] = ax
    SV.AXIOM['capOf'] = lambda args: [ind_lit('=', tag(cap_of(args[0])))]
    # a loop lists each of its places once
    INJECTIVE.add('idx')
    SV.MODELV['idx'] = lambda m, args: args[1]
    # identities of owned capacitors are odd in the models
    SV.MODELV['capOf'] = lambda m, args: 100 + int(args[0] * 7 + 50 * m.h('capOf', *args))
    SV.MODELV['tag'] = lambda m, args: 0 if args[0] >= 100 else int(3 * m.h('tag', *args))


_axioms()


class Net:
    def __init__(self, V):
        self.V = V
        el = V.mod('elements').ns
        self.cls = [el[x] for x in ('Capacitor', 'Inductor', 'Junction')]

        def value(I, o):
            return sc(V, val(o.ident))

        def inductive(f):
            def g(I, o):
                if I.decide(ind_lit('=', tag(o.ident))):
                    return NotImplemented
                return f(I, o)
            return g
        k = V.I.fresh('k')
        self.loops = Fam('loop', [el['Loop']], {
            '_value': lambda I, o: sc(V, flux(o.ident)),
            'indices': lambda I, o: SList([Seg.uniform(
                ap('nidx', o.ident, sort='I', pos=True), k,
                num(ap('idx', o.ident, Poly.atom(k), sort='I'), 'int'))])})
        self.els = Fam('el', self.cls, {
            '_value': value,
            'type': lambda I, o: I.fam_cls(o),
            'cap': inductive(lambda I, o: FamObj(self.els, cap_of(o.ident))),
            'loops': inductive(lambda I, o: SList([Seg.uniform(
                ap('nlo', o.ident, sort='I', pos=True), k,
                FamObj(self.loops, ap('lo', o.ident, Poly.atom(k), sort='I')))]))}, tag)

    def circuit(self):
        V = self.V
        e, k = V.I.fresh('e'), V.I.fresh('k')
        E, K = Poly.atom(e), Poly.atom(k)
        elements = SDict([DSeg(nE, e, ONEP, (num(ap('eE1', E, sort='I'), 'int'),
                                             num(ap('eE2', E, sort='I'), 'int')),
                               SList([Seg.uniform(count(E), k, FamObj(self.els, at(E, K)))]))])
        cls = V.mod('circuit').ns['Circuit']
        return SObj(cls, dict(
            elements=elements, n=num(N, 'int'), loops=SList([Seg.uniform(nl, k, FamObj(self.loops, K))]), _parameters=SDict([]),
            flux_dist='junctions',
            elem_keys=SDict([[self.cls[1], SList([])], [self.cls[2], SList([])]])))


def lap(i1, i2, a, b):
    """Laplacian of an edge; ground is node 0."""
    def d(x, y):
        return ind_lit('=', x - y)
    na, nb = a + ONEP, b + ONEP
    return (d(i1, na) - d(i2, na)) * (d(i1, nb) - d(i2, nb))


class Elsewhere:
    """Contract of the part that registers loops: nothing of the network
    matrices is touched (checked below)."""
    def apply(self, I, f, args, kw):
        return None


class Kept:
    """Contract of the choice of independent columns (proved in columns.py): as
    many as the rank, which makes the system for the flux distribution square
    (connected graph, all loops specified)."""
    def __init__(self, short=nl):
        self.short = short

    def apply(self, I, f, args, kw):
        m = self.given = args[0]
        I.assumed.add('rank of the edge matrix: elements less loops (connected graph, all loops specified)')
        return Arr('np', (m.shape[0], m.shape[0] - self.short), ap('kept', *IXP[:2]), 'float')


class LoopVector:
    """Contract of Loop.get_g: the orientation of each of its elements."""
    def apply(self, I, f, args, kw):
        t = args[0].ident
        return Arr('np', (ONEP, ap('nidx', t, sort='I', pos=True)), ap('g', t, IXP[1]), 'float')


LOOPS = {'functions.remove_dependent_columns': Kept(),
         'elements.Loop.get_g': LoopVector(),
         'circuit.CircuitEdge.update_circuit_loop_from_element': Elsewhere(),
         'circuit.Circuit.add_to_parameters': Elsewhere()}


def own(i):
    """Whether the element has a capacitor of its own."""
    return ind_lit('!=', tag(i))


def per_edge(f, e):
    k = VAR('%sk', 'I')
    return sum_range(k, ZEROP, count(e), f(at(e, Poly.atom(k))))


def cap_total(e):
    return per_edge(lambda i: ind_lit('=', tag(i)) * val(i) + own(i) * val(cap_of(i)), e)


def ind_total(e):
    return per_edge(lambda i: ind_lit('=', tag(i) - ONEP) * val(i).inv(), e)


def sum_edges(f, a, b):
    e = VAR('%se', 'I')
    E = Poly.atom(e)
    return sum_range(e, ZEROP, nE, f(E) * lap(ap('eE1', E, sort='I'), ap('eE2', E, sort='I'), a, b))


def is_kind(i, kind):
    """Capacitor 0, inductor 1, junction 2; neither of the others."""
    t = tag(i)
    return {0: ind_lit('=', t), 1: ind_lit('!=', t) * ind_lit('=', t - ONEP),
            2: ind_lit('!=', t) * ind_lit('!=', t - ONEP)}[kind]


def has_junction(e):
    return ind_lit('!=', per_edge(lambda i: is_kind(i, 2), e))


def junction_rows(e):
    """Number of edges with a junction before e."""
    k = VAR('%sr', 'I')
    return sum_range(k, ZEROP, e, has_junction(Poly.atom(k)))


def inductive_before(e, k):
    """Number of inductors and junctions before place (e, k)."""
    x, y = VAR('%sx', 'I'), VAR('%sy', 'I')
    X, Y = Poly.atom(x), Poly.atom(y)
    return sum_range(x, ZEROP, e, per_edge(own, X)) + sum_range(y, ZEROP, k, own(at(e, Y)))


def key_list(V, net, kind):
    e, k = V.I.fresh('e'), V.I.fresh('k')
    E, K = Poly.atom(e), Poly.atom(k)
    i = at(E, K)
    key = ((num(ap('eE1', E, sort='I'), 'int'), num(ap('eE2', E, sort='I'), 'int')),
           FamObj(net.els, i), num(inductive_before(E, K), 'int'))
    if kind == 2:
        key += (num(junction_rows(E), 'int'),)
    here = is_kind(i, kind)
    return SList([Seg(nE, e, [(ONEP, [Seg(count(E), k, [(here, [key]), (ONEP - here, [])])])])])


def contracts(R):
    columns(R)
    for eng in ('numpy', 'pytorch'):
        def edge(V):
            net = Net(V)
            i1, i2, a, b = V.int('i1'), V.int('i2'), V.int('a'), V.int('b')
            V.assume(*[ind_lit('<=', -x.p) for x in (i1, i2, a, b)], ind_lit('<=', i1.p - N),
                     ind_lit('<=', i2.p - N), ind_lit('!=', i1.p - i2.p),
                     ind_lit('<', a.p - N), ind_lit('<', b.p - N))

            def run():
                return V.fn('circuit', 'CircuitEdge', net.circuit(), (i1, i2))

            def post(V, o):
                g = lambda x, *i: V.I.models.getitem(V.I, x, i if len(i) > 1 else i[0])
                V.eq('one incidence entry per node', V.call(Builtin('len'), V.attr(o, 'w')), N)
                w = V.attr(o, 'w')
                V.eq('incidence of the edge', P(g(w, a)) * P(g(w, b)), lap(i1.p, i2.p, a.p, b.p))
                V.eq('Laplacian of the edge', g(V.attr(o, 'mat_rep'), a, b), lap(i1.p, i2.p, a.p, b.p))
            V.explore(run, post)
        R.case(f'CircuitEdge [{eng}]', ['circuit.CircuitEdge.__init__', 'circuit.CircuitEdge._set_w_at_edge',
                                       'circuit.CircuitEdge._set_matrix_rep'], edge, engine=eng)

        def lcwb(V):
            net = Net(V)
            a, b = V.int('a'), V.int('b')
            V.assume(*[ind_lit('<=', -x.p) for x in (a, b)],
                     ind_lit('<', a.p - N), ind_lit('<', b.p - N))
            c = net.circuit()

            def run():
                return V.meth(c, '_get_LCWB')

            def post(V, o):
                g = lambda x, *i: V.I.models.getitem(V.I, x, i if len(i) > 1 else i[0])
                cm, lm, w, _ = V.I.models.iter_items(V.I, o)
                V.eq('capacitance matrix', g(cm, a, b), sum_edges(cap_total, a.p, b.p))
                V.eq('inverse inductance matrix', g(lm, a, b), sum_edges(ind_total, a.p, b.p))
                e, k = VAR('%se', 'I'), V.I.fresh('k')
                E, K = Poly.atom(e), Poly.atom(k)
                V.eq('one row per edge with a junction', V.call(Builtin('len'), w),
                     sum_range(e, ZEROP, nE, has_junction(E)))
                # derivative with respect to the value of an element
                t = V.int('t')
                el = FamObj(net.els, t.p)
                pm = g(V.attr(c, 'partial_mats'), el)
                places = sum_edges(lambda e: per_edge(lambda i: ind_lit('=', i - t.p), e), a.p, b.p)
                owned = sum_edges(lambda e: per_edge(
                    lambda i: own(i) * ind_lit('=', cap_of(i) - t.p), e), a.p, b.p)
                V.eq('derivative matrix of a capacitor', ind_lit('=', tag(t.p)) * P(g(pm, a, b)),
                     ind_lit('=', tag(t.p)) * (places + owned))
                V.eq('derivative matrix of an inductor', ind_lit('=', tag(t.p) - ONEP) * P(g(pm, a, b)),
                     ind_lit('=', tag(t.p) - ONEP) * places * (val(t.p) * val(t.p)).inv())
                keys = V.attr(c, 'elem_keys')
                for kind in (1, 2):
                    V.eq(f'{net.cls[kind].name} places', g(keys, net.cls[kind]), key_list(V, net, kind))
                # row of an edge
                x = V.int('x')
                V.assume(ind_lit('<=', -x.p), ind_lit('<', x.p - nE), has_junction(x.p))
                # an edge with a junction adds itself to those before it
                V.assume(ind_lit('<', junction_rows(x.p) - junction_rows(nE)))
                r = num(junction_rows(x.p), 'int')
                V.eq('incidence row of an edge', P(g(w, r, a)) * P(g(w, r, b)),
                     lap(ap('eE1', x.p, sort='I'), ap('eE2', x.p, sort='I'), a.p, b.p))
            V.explore(run, post)
        R.case(f'matrices [{eng}]', ['circuit.Circuit._get_LCWB'], lcwb, engine=eng, contracts=LOOPS)
