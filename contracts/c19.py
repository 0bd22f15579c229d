"""C19: parameters are the elements that need gradients."""
from engine.terms import INJECTIVE
from .c03 import *

# number of parameters and the identity of the k-th; no element is listed twice
npar = ap('npar', sort='I', pos=True)
INJECTIVE.add('pid')


def pid(k):
    return ap('pid', k, sort='I')


def flag(f, t):
    return ind_lit('!=', ap(f, t, sort='I'))


def needs(t):
    """Requires a gradient or is computed from a value that does."""
    r, l = flag('rg', t), flag('leaf', t)
    return r + (ONEP - r) * (ONEP - l)


class Recorder:
    """Contract of add_to_parameters in its callers: which element is offered,
    in which order.  What it does with the element is proved below."""
    def apply(self, I, f, args, kw):
        circ, el = args
        lst = circ.attrs['offered']
        I.set_items(lst, list(lst.items) + [el])
        return None


class Updated:
    """Contract of update."""
    def apply(self, I, f, args, kw):
        I.setattr(args[0], 'updated', True)


def members(V, tensors):
    """Parameters with values that are tensors; tensors: values are objects of
    their own, else arrays."""
    el = V.mod('elements').ns
    cls = [el[x] for x in ('Capacitor', 'Inductor', 'Junction', 'Loop')]

    def value(I, o):
        return Arr('torch', (), val(o.ident), 'float', grad=SBool(flag('rg', o.ident)),
                   leaf=SBool(flag('leaf', o.ident)))
    fam = Fam('par', cls, {'_value': value}, lambda t: ap('ptag', t, sort='I'))
    k = V.I.fresh('k')
    K = Poly.atom(k)
    if tensors:
        tens = Fam('tensor', [SClass('Tensor', [], {}, None)], {
            'grad': lambda I, o: Arr('torch', (), ap('gradof', o.ident), 'float')})
        item = FamObj(tens, ap('tid', K, sort='I'))
    else:
        item = Arr('torch', (), ap('pval', K), 'float')
    d = SDict([DSeg(npar, k, ONEP, FamObj(fam, pid(K)), item)])
    circ = SObj(V.mod('circuit').ns['Circuit'], dict(_parameters=d))
    return fam, circ, k, item


INJECTIVE.add('tid')


def contracts(R):
    R_ = dict(engine='pytorch')

    for what in ('new', 'known', 'not needed'):
        def add(V, what=what):
            fam, circ, k, item = members(V, False)
            t = V.int('t')
            j = VAR('%sj', 'I')
            listed = sum_range(j, ZEROP, npar, ind_lit('=', pid(Poly.atom(j)) - t.p))
            if what == 'new':
                V.assume(needs(t.p), ind_lit('<', listed - ONEP))
            elif what == 'known':
                V.assume(ind_lit('<=', ONEP - listed))
            else:
                V.assume(ONEP - needs(t.p), ind_lit('<', listed - ONEP))
            el = FamObj(fam, t.p)

            def post(V, _):
                d = V.attr(circ, '_parameters')
                n_ = npar + (ONEP if what == 'new' else ZEROP)
                V.eq('number of parameters', V.call(Builtin('len'), d), n_)
                ks = SList(V.I.models.dict_items(V.I, d, 'keys'))
                vs = SList(V.I.models.dict_items(V.I, d, 'values'))
                V.eq('elements', ks, SList([Seg.uniform(npar, k, FamObj(fam, pid(Poly.atom(k))))]
                                           + ([el] if what == 'new' else [])))
                V.eq('values', vs, SList([Seg.uniform(npar, k, item)]
                                         + ([V.attr(el, '_value')] if what == 'new' else [])))
            V.explore(lambda: V.meth(circ, 'add_to_parameters', el), post)
        R.case(f'add_to_parameters, element {what}', [
            'circuit.Circuit.add_to_parameters', 'elements.CircuitComponent.requires_grad',
            'elements.CircuitComponent.is_leaf', 'elements.CircuitComponent.internal_value'], add, **R_)

    def offered(V):
        net = Net(V)
        c = net.circuit()
        c.attrs['offered'] = SList([])

        def post(V, o):
            e, k, j = V.I.fresh('e'), V.I.fresh('k'), V.I.fresh('j')
            E, K, J = Poly.atom(e), Poly.atom(k), Poly.atom(j)
            t = at(E, K)
            el = FamObj(net.els, t)
            loops = Seg.uniform(ap('nlo', t, sort='I', pos=True), j,
                                FamObj(net.loops, ap('lo', t, J, sort='I')))
            V.eq('every element, own capacitor and loop, in the order of the edges', V.attr(c, 'offered'),
                 SList([Seg(nE, e, [(ONEP, [Seg(count(E), k, [
                     (ind_lit('=', tag(t)), [el]),
                     (own(t), [FamObj(net.els, cap_of(t)), loops, el])])])])]))
        V.explore(lambda: V.meth(c, '_get_LCWB'), post)
    R.case('elements offered as parameters', ['circuit.Circuit._get_LCWB'], offered, contracts=dict(
        {k: v for k, v in LOOPS.items() if 'update_circuit_loop' not in k},
        **{'circuit.Circuit.add_to_parameters': Recorder(), 'circuit.Circuit.add_loop': Elsewhere(),
           'elements.Loop.add_index': Elsewhere(), 'elements.Loop.add_to_k_mat': Elsewhere()}), **R_)

    def lists(V):
        fam, circ, k, item = members(V, False)

        def run():
            return [V.attr(circ, a) for a in ('parameters', 'parameters_elems', 'parameters_dict')] \
                + [V.meth(circ, 'get_params_type')]

        def post(V, r):
            V.eq('values in order', r[0], SList([Seg.uniform(npar, k, item)]))
            V.eq('elements in order', r[1], SList([Seg.uniform(npar, k, FamObj(fam, pid(Poly.atom(k))))]))
            V.eq('elements of the dictionary', SList(V.I.models.dict_items(V.I, r[2], 'keys')), r[1])
            V.eq('values of the dictionary', SList(V.I.models.dict_items(V.I, r[2], 'values')), r[0])
        V.explore(run, post)
    R.case('lists of parameters', ['circuit.Circuit.parameters', 'circuit.Circuit.parameters_elems',
                                   'circuit.Circuit.parameters_dict', 'circuit.Circuit.get_params_type'],
           lists, **R_)

    def assign(V):
        fam, circ, k, item = members(V, False)
        more = V.int('more')
        V.assume(ind_lit('<=', -more.p))
        new = SList([Seg.uniform(npar + more.p, k, Arr('torch', (), ap('new', Poly.atom(k)), 'float'))])

        def run():
            V.I.setattr(circ, 'parameters', new)

        def post(V, _):
            i, t = V.int('i'), V.int('t')
            V.assume(ind_lit('<=', -i.p), ind_lit('<', i.p - npar))
            V.eq('value of a parameter', V.attr(FamObj(fam, pid(i.p)), '_value'),
                 Arr('torch', (), ap('new', i.p), 'float'))
            j = VAR('%sj', 'I')
            V.assume(ind_lit('<', sum_range(j, ZEROP, npar, ind_lit('=', pid(Poly.atom(j)) - t.p)) - ONEP))
            V.eq('value of another element', P(V.attr(FamObj(fam, t.p), '_value').val), val(t.p))
            V.same('circuit refreshed', circ.attrs.get('updated'), True)
        V.explore(run, post)
    R.case('assigning parameters', ['circuit.Circuit.parameters', 'elements.CircuitComponent.internal_value'],
           assign, contracts={'circuit.Circuit.update': Updated()}, **R_)

    def short(V):
        fam, circ, k, item = members(V, False)
        m = V.int('m')
        V.assume(ind_lit('<=', -m.p), ind_lit('<', m.p - npar))
        new = SList([Seg.uniform(m.p, k, Arr('torch', (), ap('new', Poly.atom(k)), 'float'))])
        V.explore(lambda: V.I.setattr(circ, 'parameters', new), None, expect='raise')
    R.case('list that is too short', ['circuit.Circuit.parameters'], short,
           contracts={'circuit.Circuit.update': Updated()}, **R_)

    def grads(V):
        fam, circ, k, item = members(V, True)

        def post(V, g):
            i = V.int('i')
            V.assume(ind_lit('<=', -i.p), ind_lit('<', i.p - npar))
            V.eq('one gradient per parameter', V.call(Builtin('len'), g), npar)
            V.eq('gradient of its own parameter', V.I.models.getitem(V.I, g, i),
                 Arr('torch', (), ap('gradof', ap('tid', i.p, sort='I')), 'float'))
        V.explore(lambda: V.attr(circ, 'parameters_grad'), post)
    R.case('gradients', ['circuit.Circuit.parameters_grad'], grads, **R_)

    def zero(V):
        fam, circ, k, item = members(V, True)

        def run():
            V.meth(circ, 'zero_grad')

        def post(V, _):
            i = V.int('i')
            V.assume(ind_lit('<=', -i.p), ind_lit('<', i.p - npar))
            V.same('gradient cleared', V.attr(FamObj(item.fam, ap('tid', i.p, sort='I')), 'grad'), None)
        V.explore(run, post)
    R.case('zero_grad', ['circuit.Circuit.zero_grad'], zero, **R_)
