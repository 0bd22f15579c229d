"""C01: element values survive every unit conversion."""
from engine.verify import *

FREQ = {'Hz': '1', 'kHz': '1e3', 'MHz': '1e6', 'GHz': '1e9', 'THz': '1e12'}
FARAD = {'F': '1', 'mF': '1e-3', 'uF': '1e-6', 'nF': '1e-9', 'pF': '1e-12', 'fF': '1e-15'}
HENRY = {'H': '1', 'mH': '1e-3', 'uH': '1e-6', 'nH': '1e-9', 'pH': '1e-12', 'fH': '1e-15'}
h = TWO * PI * hbar
KIND = {'Capacitor': FARAD, 'Inductor': HENRY, 'Junction': {}}


def energy_si(cls):
    """energy in Hz as a function of the SI value and back (an involution)."""
    if cls == 'Capacitor':
        return lambda p: e_charge * e_charge * HALF * (p * h).inv()
    return lambda p: (Phi0 * (TWO * PI).inv()).ipow(2) * (p * h).inv()


def si(cls, p, u):
    """Quantity meant by p in unit u: farad, henry or (junction) hertz."""
    if u in FREQ:
        q = p * C(FREQ[u])
        return q if cls == 'Junction' else energy_si(cls)(q)
    return p * C(KIND[cls][u])


def read(cls, q):
    """Junction energies are read as angular frequencies."""
    return TWO * PI * q if cls == 'Junction' else q


def units(cls):
    return list(KIND[cls]) + list(FREQ)


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for cls in KIND:
            quals = [f'elements.{cls}.__init__', f'elements.{cls}.set_value',
                     f'elements.{cls}.get_value', f'elements.{cls}._get_default_id_str']
            for u in units(cls):
                def body(V, cls=cls, u=u):
                    v = V.real('v', pos=True)

                    def post(V, el):
                        for u2 in units(cls):
                            got = V.meth(el, 'get_value', u2)
                            V.eq(f'value in {u2}', si(cls, P(got), u2), read(cls, si(cls, P(v), u)))
                    V.explore(lambda: V.call(V.get('elements', cls), v, u), post)
                    # re-setting the value after construction
                    w = V.real('w', pos=True)

                    def again():
                        el = V.call(V.get('elements', cls), w, units(cls)[0])
                        V.meth(el, 'set_value', v, u)
                        return el
                    V.explore(again, post, label=f'{V.name} after set_value')
                R.case(f'{cls}({u}) [{eng}]', quals, body, eng)
            for u in units(cls):
                def dflt(V, cls=cls, u=u):
                    setter = {'Capacitor': 'set_unit_cap', 'Inductor': 'set_unit_ind',
                              'Junction': 'set_unit_JJ'}[cls]
                    v = V.real('v', pos=True)

                    def run():
                        V.fn('units', setter, u)
                        return V.call(V.get('elements', cls), v)

                    def post(V, el):
                        g = V.meth(el, 'get_value', u)
                        V.eq(f'default unit {u}', si(cls, P(g), u), read(cls, si(cls, P(v), u)))
                    V.explore(run, post)
                R.case(f'{cls} default unit {u} [{eng}]', quals + ['units.set_unit_cap'], dflt, eng)
            options(R, cls, eng)


def options(R, cls, eng):
    quals = [f'elements.{cls}.__init__']

    def body(V):
        v, q, err = V.real('v', True), V.real('q', True), V.real('err', True)
        cap = None
        kw = {'id_str': 'label', 'error': 0}
        u = units(cls)[0]

        def run():
            k = dict(kw)
            if cls != 'Capacitor':
                k['cap'] = V.call(V.get('elements', 'Capacitor'), V.real('c', True), 'F')
                k['loops'] = SList([])
            if cls == 'Junction':
                k['A'], k['x'] = V.real('A', True), V.real('x', True)
            else:
                k['Q'] = q
            k['requires_grad'] = eng == 'pytorch'
            return V.call(V.get('elements', cls), v, u, **k), k

        def post(V, r):
            el, k = r
            V.eq('label', V.attr(el, 'id_str'), 'label')
            V.eq('error', V.attr(el, 'error'), SNum(ZEROP, 'int'))
            if eng == 'pytorch':
                V.eq('gradient flag', bool(V.attr(el, 'requires_grad')), True)
            if cls != 'Capacitor':
                V.same('own capacitor', V.attr(el, 'cap'), k['cap'])
                V.eq('own capacitor value', V.meth(k['cap'], 'get_value', 'F'), V.real('c', True))
                V.same('loops', V.attr(el, 'loops'), k['loops'])
            if cls == 'Junction':
                V.eq('noise amplitude', V.attr(el, 'A'), k['A'])
            else:
                om = V.real('om', True)
                args = (om,) if cls == 'Capacitor' else (om, V.real('T', True))
                V.eq('quality factor', V.call(V.attr(el, 'Q'), *args), q)
        V.explore(run, post)
    R.case(f'{cls} options [{eng}]', quals, body, eng)

    def bad(V):
        v = V.real('v', True)
        V.explore(lambda: V.call(V.get('elements', cls), v, 'parsec'), None, expect='raise')

        def run():
            el = V.call(V.get('elements', cls), v, units(cls)[0])
            return V.meth(el, 'get_value', 'parsec')
        V.explore(run, None, expect='raise', label=V.name + ' reading')
    R.case(f'{cls} unknown unit [{eng}]', quals, bad, eng)
