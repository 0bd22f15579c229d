"""C18: the entry of a sweep at a grid index belongs to that grid point.

The number of swept parameters is fixed in each case (one to three), the grid
lengths, the grid values and the number of levels are arbitrary.
"""
from .circ import *

TYPES = ('capacitive', 'inductive', 'quasiparticle', 'charge', 'cc', 'flux')
K = I_('levels')


def gp(a, t):
    """Grid value t of axis a."""
    return ap(f'grid{a}', t)


def lev(k, *vals):
    return ap('level', k, *vals)


class Diag:
    """Contract of diag (C10): the levels of the circuit as it is set now."""
    def __init__(self, now):
        self.now = now

    def apply(self, I, f, args, kw):
        o = args[0]
        cnt = args[1] if len(args) > 1 else kw['n_eig']
        vals = self.now(I, o)
        I.setattr(o, 'solved_at', tuple(num(v, 'float') for v in vals))
        return Arr('np', (P(cnt),), lev(IXP[0], *vals), 'float'), SList([])


class Rate:
    """Contract of dec_rate (C13, C14): a function of the mechanism, the two
    levels, the eigensystem last computed and the present settings."""
    def __init__(self, now):
        self.now = now

    def apply(self, I, f, args, kw):
        o = args[0]
        a = dict(zip(('dec_type', 'states', 'total'), args[1:]))
        a.update(kw)
        if a.get('total', True) is not True:
            raise Unsupported('partial rate')
        s = a['states'].items if isinstance(a['states'], SList) else a['states']
        return num(rate(a['dec_type'], [P(x) for x in s], [P(x) for x in I.getattr(o, 'solved_at')],
                        self.now(I, o)), 'float')


def rate(kind, states, at, now):
    return ap('rate ' + kind, *states, *at, *now)


class Offset:
    """Contract of set_charge_offset (C09): the gate charge of the mode."""
    def apply(self, I, f, args, kw):
        a = dict(zip(('mode', 'ng'), args[1:]))
        a.update(kw)
        I.setattr(args[0], f'gate charge {a["mode"]}', num(P(a['ng']), 'float'))
        return None


def contracts(R):
    contracts_any(R)
    contracts_file(R)
    for kind in ('flux', 'charge'):
        for d in (1, 2):
            modes = [2, 3, 1][:d]
            loops = []

            def now(I, o, kind=kind, modes=modes, loops=loops):
                if kind == 'flux':
                    return [P(I.call(I.getattr(x, 'value'), [], {})) for x in loops]
                return [P(I.getattr(o, f'gate charge {m}')) for m in modes]
            for loss in (False, True):
                def case(V, kind=kind, d=d, modes=modes, loops=loops, loss=loss, now=now):
                    c = Circ(V)
                    sizes = [I_(f'points{a}') for a in range(d)]
                    ix = [V.int(f'i{a}') for a in range(d)]
                    lv = V.int('lv')
                    for x, s in zip(ix + [lv], sizes + [K]):
                        V.assume(ind_lit('<=', -x.p), ind_lit('<', x.p - s))

                    def run():
                        o = c.build()
                        del loops[:]
                        for _ in range(d):
                            loops.append(V.call(c.Loop))
                        k = V.I.fresh('k')
                        grid = SList([SList([Seg.uniform(sizes[a], k, SNum(gp(a, Poly.atom(k)), 'float'))])
                                      for a in range(d)])
                        if kind == 'charge':
                            for m in modes:
                                V.I.setattr(o, f'gate charge {m}', SNum(ap('ng0', C(m)), 'float'))
                        prop = SList(['efreq', 'loss']) if loss else None
                        sw = V.call(V.get('sweep', 'Sweep'), o, SNum(K, 'int'), prop)
                        if kind == 'flux':
                            r = V.meth(sw, 'sweepFlux', SList(list(loops)), grid)
                        else:
                            r = V.meth(sw, 'sweepCharge', SList(list(modes)), grid)
                        return sw, r

                    def post(V, r):
                        sw, (table, dec) = r
                        x = [i.p for i in ix]
                        f = TWO * PI if kind == 'flux' else ONEP
                        vals = [gp(a, x[a]) * f for a in range(d)]
                        V.eq('one axis for the levels and one per parameter', tuple(
                            num(p, 'int') for p in table.shape), tuple(num(p, 'int') for p in [K] + sizes))
                        V.eq('level at the grid point', V.I.models.getitem(V.I, table, (lv, *ix)),
                             lev(lv.p, *vals))
                        V.true('the table is kept', V.attr(sw, 'efreq') is table)
                        if not loss:
                            V.true('no rates unless asked for', dec is None)
                            return
                        V.true('one table per mechanism', sorted(y[0] for y in dec.items) == sorted(TYPES))
                        V.true('the rates are kept', V.attr(sw, 'dec') is dec)
                        for t in TYPES:
                            a = V.I.models.getitem(V.I, dec, t)
                            V.eq(f'{t}: one axis per parameter', tuple(num(p, 'int') for p in a.shape),
                                 tuple(num(p, 'int') for p in sizes))
                            V.eq(f'{t}: rate from level 1 to level 0 at the grid point',
                                 V.I.models.getitem(V.I, a, tuple(ix) if d > 1 else ix[0]),
                                 rate(t, [ONEP, ZEROP], vals, vals))
                    V.explore(run, post)
                R.case(f'sweep of {d} {kind}{" values" if d > 1 else ""}'
                       + (' with rates' if loss else ''),
                       ['sweep.Sweep.sweep' + kind.capitalize()], case,
                       contracts={'circuit.Circuit.diag': Diag(now), 'circuit.Circuit.dec_rate': Rate(now),
                                  'circuit.Circuit.set_charge_offset': Offset()},
                       bounded=f'{d} swept parameter{"s" if d > 1 else ""}')


# ---------------------------------------------------------------- any number of parameters
axes = I_('axes')


def size(a):
    return ap('size', a, sort='I', pos=True)


def code(f):
    """A number that stands for the vector f(0), f(1), ..: functions of the
    vector are functions of it."""
    a = VAR('%ca', 'I')
    return sum_range(a, ZEROP, axes, ap('tag', Poly.atom(a), f(Poly.atom(a))))


class AnyDiag(Diag):
    def __init__(self):
        self.now = self.values

    def values(self, I, o):
        a = I.fresh('a')
        A = Poly.atom(a)
        mark = len(I.trail)
        I.assume(ind_lit('<=', -A))
        I.assume(ind_lit('<', A - axes))
        nd = len(I.decs)
        v = P(self.value(I, o, A))
        if len(I.decs) != nd:
            raise Unsupported('setting of one parameter undecided')
        I.undo_to(mark)
        return [code(lambda t: v.subst({a: t}))]


def anyloop(c):
    return lambda a: FamObj(c.lps, a)


def contracts_any(R):
    for kind in ('flux', 'charge'):
        for loss in (False, True):
            dg_ = AnyDiag()

            def case(V, kind=kind, loss=loss, dg_=dg_):
                c = Circ(V)
                t, lv = V.int('t'), V.int('lv')

                def run():
                    o = c.build()
                    k, a = V.I.fresh('k'), V.I.fresh('a')
                    A = Poly.atom(a)
                    grid = SList([Seg.uniform(axes, a, SList([Seg.uniform(size(A), k, SNum(
                        ap('grid', A, Poly.atom(k)), 'float'))]))])
                    params = SList([Seg.uniform(axes, a, c.loopobj(A) if kind == 'flux'
                                                else SNum(mode_of(A), 'int'))])
                    if kind == 'flux':
                        dg_.value = lambda I, o, a: I.call(I.getattr(c.loopobj(a), 'value'), [], {})
                    else:
                        dg_.value = lambda I, o, a: I.getattr(FamObj(c.chs, mode_of(a) - ONEP), 'chValue')
                    prop = SList(['efreq', 'loss']) if loss else None
                    sw = V.call(V.get('sweep', 'Sweep'), o, SNum(K, 'int'), prop)
                    r = V.meth(sw, 'sweep' + kind.capitalize(), params, grid)
                    return sw, r

                def post(V, r):
                    sw, (table, dec) = r
                    a = Poly.atom(IX[0])
                    V.true('one axis for the levels, then one per parameter', table.meta.get('vec') is not None
                           and table.meta['vec'][0] == 1 and len(table.shape) == 2)
                    T = table.shape[1]
                    V.eq('number of axes', table.meta['vec'][1], axes)
                    V.eq('length of an axis', table.meta['vec'][2].subst({IX[0]: t.p}), size(t.p))
                    V.assume(ind_lit('<=', -t.p), ind_lit('<', t.p - T), ind_lit('<=', -lv.p),
                             ind_lit('<', lv.p - K))
                    f = TWO * PI if kind == 'flux' else ONEP
                    dig = f'digit[{axes.key}|{size(a).key}]'
                    at = code(lambda b: ap('grid', b, ap(dig, t.p, b, sort='I')) * f)
                    V.eq('number of levels', table.shape[0], K)
                    V.eq('level at the grid point', V.I.models.getitem(V.I, table, (lv, t)), lev(lv.p, at))
                    V.true('the table is kept', V.attr(sw, 'efreq') is table)
                    if not loss:
                        V.true('no rates unless asked for', dec is None)
                        return
                    V.true('one table per mechanism', sorted(y[0] for y in dec.items) == sorted(TYPES))
                    V.true('the rates are kept', V.attr(sw, 'dec') is dec)
                    for x in TYPES:
                        d = V.I.models.getitem(V.I, dec, x)
                        V.true(f'{x}: one axis per parameter', d.meta.get('vec') is not None
                               and d.meta['vec'][0] == 0 and len(d.shape) == 1)
                        V.eq(f'{x}: rate from level 1 to level 0 at the grid point',
                             V.I.models.getitem(V.I, d, t), rate(x, [ONEP, ZEROP], [at], [at]))
                V.explore(run, post)
            R.case(f'sweep of any number of {kind} values' + (' with rates' if loss else ''),
                   ['sweep.Sweep.sweep' + kind.capitalize()], case,
                   contracts={'circuit.Circuit.diag': dg_, 'circuit.Circuit.dec_rate': Rate(dg_.now),
                              **({} if kind == 'flux' else {'circuit.Circuit.set_charge_offset': AnyOffset()})})


def contracts_file(R):
    def case(V):
        c = Circ(V)

        def run():
            sw = V.call(V.get('sweep', 'Sweep'), None, 2, SList(['efreq', 'loss']))
            a = Poly.atom(IX[0])
            table = Arr('np', (K, axes), ap('saved', IXP[0], IXP[1]), 'float')
            dec = SDict([[t, Arr('np', (axes,), ap('saved ' + t, IXP[0]), 'float')] for t in TYPES])
            V.I.setattr(sw, 'efreq', table)
            V.I.setattr(sw, 'dec', dec)
            V.meth(sw, 'save', 'the file')
            # a later change does not reach the file
            V.I.models.setitem(V.I, table, (0, 0), SNum(ap('later'), 'float'))
            V.I.models.setitem(V.I, V.I.models.getitem(V.I, dec, 'cc'), 0, SNum(ap('later'), 'float'))
            return V.call(V.I.getattr(V.get('storage', 'SQdata'), 'load'), 'the file')

        def post(V, r):
            V.eq('levels', V.attr(r, 'efreq'), Arr('np', (K, axes), ap('saved', IXP[0], IXP[1]), 'float'))
            for t in TYPES:
                V.eq(f'rates {t}', V.I.models.getitem(V.I, V.attr(r, 'dec'), t),
                     Arr('np', (axes,), ap('saved ' + t, IXP[0]), 'float'))
            V.eq('number of levels', V.attr(r, 'numEig'), C(2))
        V.explore(run, post)
    R.case('saving and loading', ['storage.SQdata.save', 'storage.SQdata.load'], case)


def mode_of(a):
    return ap('mode', a, sort='I')


INJECTIVE.add('mode')


class AnyOffset:
    """Contract of set_charge_offset (C09): the gate charge of that mode."""
    def apply(self, I, f, args, kw):
        a = dict(zip(('mode', 'ng'), args[1:]))
        a.update(kw)
        d = I.getattr(args[0], 'charge_islands')
        fam = d.items[0].val.fam
        I.setattr(FamObj(fam, P(a['mode']) - ONEP), 'chValue', num(P(a['ng']), 'float'))
        return None
