"""C11: coupling operators and matrix elements."""
from .circ import *


def volt(a, i):
    """Voltage of node a in terms of the charge of mode i."""
    k = NC.sym(Base('C', kind='mat', real=True, sym=True)).inv() \
        * NC.sym(Base('R', kind='mat', real=True))
    return k.entry(a - ONEP, i)


def coupling_spec(ctype, a, b):
    """Difference of node voltages (second minus first) or node fluxes (first
    minus second); with ground on either side the other node, positive."""
    v = VAR('%sm', 'I')
    i = Poly.atom(v)
    g = ONEP - (ONEP - ind_lit('=', a)) * (ONEP - ind_lit('=', b))
    if ctype == 'capacitive':
        c = g * volt(a + b, i) + (ONEP - g) * (volt(b, i) - volt(a, i))
        return Q(i).scale(c).sum(v, ZEROP, n)
    c = g * S_ent(a + b - ONEP, i) + (ONEP - g) * (S_ent(a - ONEP, i) - S_ent(b - ONEP, i))
    return PHI(i).scale(c).sum(v, ZEROP, n)


def two_nodes(V):
    a, b = V.int('a'), V.int('b')
    V.assume(ind_lit('<=', -a.p), ind_lit('<=', -b.p), ind_lit('<=', a.p - N),
             ind_lit('<=', b.p - N), ind_lit('!=', a.p - b.p))
    return a, b


def two_states(V):
    i, j = V.int('i'), V.int('j')
    V.assume(ind_lit('<=', -i.p), ind_lit('<=', -j.p), ind_lit('<', i.p - ne),
             ind_lit('<', j.p - ne))
    return i, j


class CouplingContract:
    """Contract of coupling_op, proved below."""
    def apply(self, I, f, args, kw):
        nodes = args[2]
        items = nodes.items if isinstance(nodes, SList) else nodes
        a, b = P(items[0]), P(items[1])
        q = coupling_spec(args[1], a, b)
        force = kw.get('force_use_qutip', args[3] if len(args) > 3 else False)
        eng = I.call(I.getattr(I.load('SQcircuit.settings'), 'get_optim_mode'), [], {})
        if eng is True and force is not True:
            return Arr('torch', (D, D), q, 'complex')
        return qob(q)


COUPLING = {'circuit.Circuit.coupling_op': CouplingContract()}


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        for ctype in ('capacitive', 'inductive'):
            for force in (False, True):
                def cop(V, ctype=ctype, force=force):
                    c = Circ(V)
                    a, b = two_nodes(V)

                    def run():
                        o = c.build()
                        return V.meth(o, 'coupling_op', ctype, (a, b), force_use_qutip=force)

                    def post(V, r):
                        want = coupling_spec(ctype, a.p, b.p)
                        V.eq('difference of the node variables', nc_of(r), want)
                        V.eq('Hermitian', nc_of(r).dag(), nc_of(r))
                        tens = V.engine == 'pytorch' and not force
                        V.true('kind of the result', isinstance(r, Arr if tens else SQobj))
                    V.explore(run, post)
                R.case(f'coupling_op {ctype}{" as operator" if force else ""} [{eng}]',
                       ['circuit.Circuit.coupling_op'], cop, engine=eng)

            def mel(V, ctype=ctype):
                c = Circ(V)
                a, b = two_nodes(V)
                i, j = two_states(V)

                def run():
                    o = c.build()
                    return V.meth(o, 'matrix_elements', ctype, (a, b), (i, j))

                def post(V, r):
                    op = coupling_spec(ctype, a.p, b.p)
                    want = (NC.sym(BPSI, i.p).dag() * op * NC.sym(BPSI, j.p))
                    V.eq('sandwich of the operator', r, want.close())
                V.explore(run, post)
            R.case(f'matrix_elements {ctype} [{eng}]', ['circuit.Circuit.matrix_elements'], mel,
                   engine=eng, contracts=COUPLING)

        charge_ops(R, eng)


def charge_ops(R, eng):
    for basis in ('original', 'eig', None):
        def chop(V, basis=basis):
            c = Circ(V)
            k = V.int('k')
            V.assume(ind_lit('<=', ONEP - k.p), ind_lit('<=', k.p - n))

            def run():
                o = c.build()
                return V.meth(o, 'charge_op', k, **({'basis': basis} if basis else {}))

            def post(V, r):
                q, vec = Q(k.p - ONEP), NC.sym(BVEC)
                V.eq('charge of the mode', nc_of(r), vec.dag() * q * vec if basis == 'eig' else q)
                V.true('kind of the result', isinstance(r, Arr if V.engine == 'pytorch' else SQobj))
                sz = ne if basis == 'eig' else D
                V.eq('rows', r.shape[0], sz)
                V.eq('columns', r.shape[1], sz)
            V.explore(run, post)
        R.case(f'charge_op {basis or "default"} [{eng}]', ['circuit.Circuit.charge_op'], chop, engine=eng)
