"""C06: truncation numbers fix all dimensions."""
from engine.loops import Invariant
from .circ import *


def nu(i):
    return ap('nums', i, sort='I', pos=True)


def dim(i):
    """Dimension of a mode from its truncation number."""
    ch = ind_lit('=', om(i))
    return ch * (nu(i).scale(2) - ONEP) + (ONEP - ch) * nu(i)


def nums(V):
    k = V.I.fresh('k')
    return SList([Seg.uniform(n, k, SNum(nu(Poly.atom(k)), 'int'))])


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        def setn(V):
            c = Circ(V)

            def run():
                o = c.build()
                V.meth(o, 'set_trunc_nums', nums(V))
                return o

            def post(V, o):
                i = V.int('i')
                V.assume(ind_lit('<=', -i.p), ind_lit('<=', i.p - n + ONEP))
                m = V.attr(o, 'm')
                V.eq('one dimension per mode', V.call(Builtin('len'), m), n)
                V.eq('dimension of mode i', V.I.models.getitem(V.I, m, i), dim(i.p))
                t = V.attr(o, 'trunc_nums')
                V.eq('numbers read back: length', V.call(Builtin('len'), t), n)
                V.eq('numbers read back', V.I.models.getitem(V.I, t, i), nu(i.p))
                caches_current(V, o)
            V.explore(run, post)
        R.case(f'set_trunc_nums [{eng}]', ['circuit.Circuit.set_trunc_nums',
                                           'circuit.Circuit.trunc_nums'], setn, engine=eng,
               contracts=CACHES)

    class SetTrunc:
        """Contract of set_trunc_nums (proved above): takes the numbers."""
        def apply(self, I, f, args, kw):
            self.given = args[1]
            return None

    for eng in ('numpy', 'pytorch'):
        st = SetTrunc()

        def auto(V, st=st):
            c = Circ(V)
            K = V.int('K')
            V.assume(ind_lit('<=', ONEP - K.p))

            def run():
                o = c.build()
                return V.meth(o, 'truncate_circuit', K)

            def post(V, t):
                V.true('numbers returned are the ones set', st.given is t)
                V.eq('one number per mode', V.call(Builtin('len'), t), n)
                i = V.int('i')
                V.assume(ind_lit('<=', -i.p), ind_lit('<=', i.p - n + ONEP))
                x = P(V.call(Builtin('pow'), K, num(n.inv(), 'float')))
                d = P(V.I.models.getitem(V.I, t, i))
                ch = ind_lit('=', om(i.p))
                dm = ch * (d.scale(2) - ONEP) + (ONEP - ch) * d
                V.true('dimension at most the n-th root of K', ind_lit('<=', dm - x))
                V.true('at least one level', ind_lit('<=', ONEP - d))
            V.explore(run, post)
        R.case(f'truncate_circuit [{eng}]', ['circuit.Circuit.truncate_circuit'], auto, engine=eng,
               contracts={'circuit.Circuit.set_trunc_nums': st})

    product_index(R)


def product_index(R):
    """Digits of an index of the product space, number of modes fixed."""
    for nm, sizes in ((1, None), (2, None), (3, (3, 2, 4)), (4, (2, 3, 1, 4)), (5, (2, 3, 2, 4, 3))):
        def modes(V, nm=nm, sizes=sizes):
            c = Circ(V)
            ms = [Poly.atom(VAR(f'm{i}', 'I', True)) for i in range(nm)] if sizes is None \
                else [C(x) for x in sizes]
            ds = [Poly.atom(VAR(f'd{i}', 'I')) for i in range(nm)]
            for d, m in zip(ds, ms):
                V.assume(ind_lit('<=', -d), ind_lit('<', d - m))
            x = ZEROP
            for d, m in zip(ds, ms):
                x = x * m + d

            def run():
                o = c.build(n=nm, m=SList([SNum(m, 'int') for m in ms]))
                return V.meth(o, '_tensor_to_modes', SNum(x, 'int'))

            def post(V, t):
                V.eq('mixed-radix digits', t, SList([SNum(d, 'int') for d in ds]))
            V.explore(run, post)
        R.case(f'_tensor_to_modes n={nm}', ['circuit.Circuit._tensor_to_modes'], modes,
               bounded=f'{nm} modes' + (f' of sizes {sizes}' if sizes else ', any sizes'))

    any_modes(R)


def tail(t):
    """Dimension of the last t modes together."""
    return ap('tail', t, sort='I', pos=True)


def digit(t):
    return ap('digit of the index', t, sort='I')


def rest(t):
    """The index within the modes from t on."""
    return ap('rest', t, sort='I')


class Digits(Invariant):
    """Invariants: the products of the last 1, 2, ... dimensions, largest first;
    the digits so far and what is left of the index."""
    def __init__(self, V):
        self.V, self.done = V, 0

    def fits(self, I, s, state, seg):
        lists = [k for k, v in state.items() if isinstance(v, SList)]
        if len(lists) != 1 or state[lists[0]].items or len(state) > 2:
            return False
        self.list = lists[0]
        self.left = next((k for k in state if k != self.list), None)
        if self.left is not None and not isnum(state[self.left]):
            return False
        if self.left is not None:
            self.V.eq('starts from the whole index', state[self.left], rest(ZEROP))
        return True

    def covers(self, I, N, item):
        self.done += 1

    def items(self, I, t):
        j = I.fresh('j')
        J = Poly.atom(j)
        return [Seg.uniform(t, j, num(digit(J) if self.left else tail(t - J), 'int'))]

    def facts(self, I, t):
        last = n - ONEP - t
        I.assume(ind_lit('=', tail(ZEROP) - ONEP))
        if self.left:
            for f in radix(t) if t != n else ():
                I.assume(f)
        else:
            I.assume(ind_lit('=', tail(t + ONEP) - tail(t) * md(last)))

    def generic(self, I, state, t):
        self.facts(I, t)
        out = {self.list: SList(self.items(I, t))}
        if self.left:
            out[self.left] = num(rest(t) if t == n else digit(t) * tail(n - ONEP - t) + rest(t + ONEP), 'int')
        return out

    def step(self, I, before, after, item, t):
        V, new = self.V, after[self.list]
        t1 = t + ONEP
        if self.left:
            if len(new) != 2 or new[0] != before[self.list][0]:
                raise Unsupported('digits in another form')
            V.eq('digit', new[1], digit(t))
            if I.ctx().plus(ind_lit('<', t1 - n)).sat() != 'unsat':
                V.eq('index left', after[self.left], rest(t1))
        else:
            one = [x for x in new if not isinstance(x, Seg)]
            if len(one) != 1 or len(new) > 2 or len(new) == 2 and new[1] is not before[self.list][0]:
                if new[0] is not before[self.list][0] or I.ctx().plus(ind_lit('<', -t)).sat() != 'unsat':
                    raise Unsupported('products in another form')
            V.eq('product of the last dimensions', one[0], tail(t1))


def radix(t):
    """Facts about the digits of an index."""
    s = tail(n - ONEP - t)
    return [ind_lit('=', rest(t) - digit(t) * s - rest(t + ONEP)), ind_lit('=', rest(n)),
            ind_lit('<=', -rest(t + ONEP)), ind_lit('<', rest(t + ONEP) - s),
            ind_lit('<=', -digit(t)), ind_lit('<', digit(t) - md(t))]


def any_modes(R):
    def lemma(V):
        """What is left is smaller than the size of a step, by induction from the last mode."""
        t = V.int('t').p
        V.assume(ind_lit('<=', -t), ind_lit('<', t - n),
                 ind_lit('=', tail(n - t) - tail(n - t - ONEP) * md(t)), *radix(t))
        V.true('index left is not negative', ind_lit('<=', -rest(t)))
        V.zero('index left is below the step', ind_lit('<=', tail(n - t) - rest(t)))
    R.case('digits of an index', [], lemma)

    def modes(V):
        inv = Digits(V)
        c = Circ(V)

        def run():
            o = c.build()
            inv.done = 0
            V.I.invariant = inv
            try:
                return V.meth(o, '_tensor_to_modes', num(rest(ZEROP), 'int'))
            finally:
                V.I.invariant = None

        def post(V, r):
            if inv.done != 2:
                raise Unsupported('loops of another form')
            j = V.int('j')
            V.assume(ind_lit('<=', -j.p), ind_lit('<', j.p - n))
            V.eq('one per mode', V.call(Builtin('len'), r), n)
            V.eq('digits of the index', V.I.models.getitem(V.I, r, j), digit(j.p))
        V.explore(run, post)
    R.case('_tensor_to_modes', ['circuit.Circuit._tensor_to_modes'], modes)
