"""C21: invalid and premature calls are rejected and change nothing."""
from .circ import *

STATES = ('fresh', 'truncated', 'diagonalised')
V_, S_, M_ = 'ValueError', 'CircuitStateError', 'ModeError'


class Accepted:
    """Reached only by a call that was not rejected."""
    def apply(self, I, f, args, kw):
        return None


FUNCS = ['circuit.Circuit.' + f for f in (
    '__init__', 'efreqs', 'evecs', 'parameters', 'parameters_grad', 'parameters_dict',
    'parameters_elems', 'get_params_type', 'zero_grad', 'set_trunc_nums', 'set_charge_offset',
    'set_charge_noise', 'charge_op', 'op', 'diag', 'truncate_circuit', 'check_convergence',
    'coord_transform', 'hamiltonian', 'eig_phase_coord', 'coupling_op', 'matrix_elements',
    'dec_rate', 'get_partial_omega', 'get_partial_vec', 'description')]
FUNCS += [f'elements.{c}.{f}' for c in ('Capacitor', 'Inductor', 'Junction')
          for f in ('__init__', 'get_value', 'set_value')]
FUNCS += ['elements.CircuitComponent.' + f for f in ('requires_grad', 'is_leaf', 'grad')]
LATER = {**CACHES, 'circuit.Circuit.update': Accepted()}


def state_of(c, st):
    """A circuit in one of the three states."""
    over = {}
    if st == 'fresh':
        over.update(m=SList([]), ms=SList([]), _memory_ops=empty_memory(), _LC_hamil=SList([]))
    if st != 'diagonalised':
        over.update(_efreqs=Arr('torch' if c.V.engine == 'pytorch' else 'np', (ZEROP,), ZEROP, 'float'),
                    _evecs=SList([]))
    return c.build(**over)


def is_kind(e, kinds):
    names = [k.name if isinstance(k, SClass) else k.__name__ for k in e.cls.mro] \
        if isinstance(e, SObj) else [k.__name__ for k in type(e).__mro__] if isinstance(e, BaseException) \
        else [getattr(e, 'kind', '')]
    return any(k in names for k in kinds)


def text(s):
    return SStr((('any', s),))


def calls(V, c, st, eng):
    """name -> (kinds of error, call on the circuit, conditions)."""
    k, x, amp = V.int('k'), V.real('x'), V.real('amp')
    el = {'capacitor': FamObj(c.caps, V.int('t').p), 'inductor': FamObj(c.inds, V.int('t').p),
          'junction': FamObj(c.juns, V.int('t').p), 'loop': FamObj(c.lps, V.int('t').p)}
    two = (num(ZEROP, 'int'), num(ONEP, 'int'))
    out = {}

    def add(name, kinds, fn, *facts):
        out[name] = (kinds, fn, facts)
    if st == 'fresh':
        add('hamiltonian before truncation', [S_], lambda o: V.meth(o, 'hamiltonian'))
        add('diag before truncation', [S_], lambda o: V.meth(o, 'diag', k))
        add('charge operator before truncation', [S_], lambda o: V.meth(o, 'charge_op', k))
    if st != 'diagonalised':
        add('frequencies before diag', [S_], lambda o: V.attr(o, 'efreqs'))
        add('vectors before diag', [S_], lambda o: V.attr(o, 'evecs'))
        for ty in ('capacitive', 'inductive'):
            add(f'{ty} matrix element before diag', [S_],
                lambda o, ty=ty: V.meth(o, 'matrix_elements', ty, two, two))
        for ty in ('capacitive', 'inductive', 'quasiparticle', 'charge', 'cc', 'flux'):
            add(f'{ty} rate before diag', [S_], lambda o, ty=ty: V.meth(o, 'dec_rate', ty, two))
        for nm, e in el.items():
            add(f'frequency derivative for a {nm} before diag', [S_],
                lambda o, e=e: V.meth(o, 'get_partial_omega', e, k))
            add(f'state derivative for a {nm} before diag', [S_],
                lambda o, e=e: V.meth(o, 'get_partial_vec', e, k))
        add('wavefunction before diag', [S_],
            lambda o: V.meth(o, 'eig_phase_coord', k, SList([])))
        add('convergence before diag', [S_], lambda o: V.meth(o, 'check_convergence'))
    if eng == 'numpy':
        for a in ('parameters', 'parameters_grad', 'parameters_dict', 'parameters_elems'):
            add(f'{a} with the other engine', [M_], lambda o, a=a: V.attr(o, a))
        add('setting parameters with the other engine', [M_],
            lambda o: V.I.setattr(o, 'parameters', SList([x])))
        for a in ('get_params_type', 'zero_grad'):
            add(f'{a} with the other engine', [M_], lambda o, a=a: V.meth(o, a))
        for nm, e in el.items():
            for a in ('requires_grad', 'is_leaf', 'grad'):
                add(f'{a} of a {nm} with the other engine', [M_], lambda o, e=e, a=a: V.attr(e, a))
            for a, v in (('requires_grad', True), ('grad', None)):
                add(f'setting {a} of a {nm} with the other engine', [M_],
                    lambda o, e=e, a=a, v=v: V.I.setattr(e, a, v))
    nums = SList([Seg.uniform(k.p, V.I.fresh('j'), num(ap('num', k.p, sort='I'), 'int'))])
    for nm, bad in (('a tuple', (k, k)), ('a number', k), ('nothing', None), ('text', 'abc'),
                    ('an array', Arr('np', (n,), ap('num', IXP[0], sort='I'), 'int'))):
        add(f'truncation numbers given as {nm}', [V_], lambda o, bad=bad: V.meth(o, 'set_trunc_nums', bad))
    add('truncation numbers of the wrong count', [V_], lambda o: V.meth(o, 'set_trunc_nums', nums),
        ind_lit('!=', k.p - n), ind_lit('<=', -k.p))
    for f in ('set_charge_offset', 'set_charge_noise'):
        add(f'{f} of a mode that is harmonic', [V_], lambda o, f=f: V.meth(o, f, k, amp),
            ind_lit('!=', om(k.p - ONEP)))
        add(f'{f} of a mode beyond the last', [V_], lambda o, f=f: V.meth(o, f, k, amp),
            ind_lit('<', n - k.p))
        add(f'{f} of a mode before the first', [V_], lambda o, f=f: V.meth(o, f, k, amp),
            ind_lit('<=', k.p))
        for nm, bad in (('a fractional number', x), ('text', '1'), ('nothing', None)):
            add(f'{f} of mode {nm}', [V_], lambda o, f=f, bad=bad: V.meth(o, f, bad, amp))
    for nm, bad in (('a fractional number', x), ('text', '2'), ('nothing', None)):
        pre = [S_] if st == 'fresh' else []
        add(f'diag of {nm}', [V_] + pre, lambda o, bad=bad: V.meth(o, 'diag', bad))
        pre = [S_] if st != 'diagonalised' else []
        add(f'wavefunction of state {nm}', [V_] + pre,
            lambda o, bad=bad: V.meth(o, 'eig_phase_coord', bad, SList([])))
    for bad in ('Fock', '', 'eigen', 'Eig'):
        add(f'basis {bad!r}', [V_] + ([S_] if st == 'fresh' else []),
            lambda o, bad=bad: V.meth(o, 'charge_op', k, bad))
    for bad in ('cos_half', '', 'SIN'):
        add(f'operator {bad!r}', [V_], lambda o, bad=bad: V.meth(o, 'op', bad, SDict([])))
    for bad in ('magnetic', 'Capacitive', ''):
        add(f'coupling {bad!r}', [V_], lambda o, bad=bad: V.meth(o, 'coupling_op', bad, two))
        add(f'matrix element of coupling {bad!r}', [V_] + ([S_] if st != 'diagonalised' else []),
            lambda o, bad=bad: V.meth(o, 'matrix_elements', bad, two, two))
    for nm, bad in (('a number', k), ('nothing', None)):
        for ty in ('capacitive', 'inductive'):
            add(f'{ty} coupling of {nm}', [V_], lambda o, bad=bad, ty=ty: V.meth(o, 'coupling_op', ty, bad))
    for bad in ('thermal', 'Charge', ''):
        add(f'noise {bad!r}', [V_] + ([S_] if st != 'diagonalised' else []),
            lambda o, bad=bad: V.meth(o, 'dec_rate', bad, two))
    for bad in ('node', '', 'current'):
        add(f'coordinate {bad!r}', [V_], lambda o, bad=bad: V.meth(o, 'coord_transform', bad))
    for nm, bad in (('a fractional number', x), ('text', '9')):
        add(f'total size {nm}', [V_], lambda o, bad=bad: V.meth(o, 'truncate_circuit', bad))
    add('total size below one', [V_], lambda o: V.meth(o, 'truncate_circuit', k), ind_lit('<=', k.p))
    add('description format', [V_], lambda o: V.meth(o, 'description', 'html'))
    for bad in ('all ', 'capacitors', ''):
        add(f'flux distribution {bad!r}', [V_],
            lambda o, bad=bad: V.call(V.get('circuit', 'Circuit'), V.attr(o, 'elements'), flux_dist=bad))
    if eng == 'pytorch':
        short = SList([Seg.uniform(k.p, V.I.fresh('j'), sc(V, x.p))])
        add('a parameter list that is too short', [V_], lambda o: V.I.setattr(o, 'parameters', short),
            ind_lit('<', k.p - nP), ind_lit('<=', -k.p))
    for nm in ('capacitor', 'inductor', 'junction'):
        other = {'capacitor': ('pH', 'parsec', 's'), 'inductor': ('fF', 'parsec', 's'),
                 'junction': ('pH', 'fF', 's')}[nm]
        for u in other:
            add(f'reading a {nm} in {u}', [V_], lambda o, e=el[nm], u=u: V.meth(e, 'get_value', u))
            add(f'setting a {nm} in {u}', [V_], lambda o, e=el[nm], u=u: V.meth(e, 'set_value', x, u))
            add(f'new {nm} in {u}', [V_], lambda o, nm=nm, u=u: V.fn('elements', nm.capitalize(), x, u))
    return out


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for st in STATES:
            for name in R.listing(lambda V: calls(V, Circ(V), st, eng), eng):
                def rej(V, name=name, st=st, eng=eng):
                    c = Circ(V)
                    kinds, fn, facts = calls(V, c, st, eng)[name]
                    V.assume(ind_lit('<=', TWO - ne), *facts)
                    fr = []

                    def run():
                        o = state_of(c, st)
                        fr[:] = [Frame(V, o)]
                        return fn(o)

                    def post(V, e):
                        V.true('documented kind of error', is_kind(e, kinds))
                        fr[0].check()
                    V.explore(run, post, expect='raise')
                R.case(f'{name}, {st} [{eng}]', FUNCS, rej, engine=eng, contracts=LATER)
