"""C07: mode operators act on their own mode."""
from .circ import *


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        def build(V):
            c = Circ(V)

            def run():
                o = c.build(_memory_ops=empty_memory())
                V.meth(o, '_build_op_memory')
                return V.I.getattr(o, '_memory_ops')
            V.explore(run, op_memory_ok)
        R.case(f'_build_op_memory [{eng}]',
               ['circuit.Circuit.' + x for x in (
                   '_build_op_memory', '_charge_op_isolated', '_flux_op_isolated',
                   '_num_op_isolated', '_impedance', '_squeeze_op', '_is_charge_mode')],
               build, engine=eng)

        def exps(V):
            c = Circ(V)

            def run():
                o = c.build(_memory_ops=empty_memory())
                V.meth(o, '_build_exp_ops')
                return V.I.getattr(o, '_memory_ops')
            V.explore(run, exp_memory_ok)
        R.case(f'_build_exp_ops [{eng}]',
               ['circuit.Circuit.' + x for x in (
                   '_build_exp_ops', '_d_op_isolated', 'alpha', '_phi_zp')], exps, engine=eng)

        def chop(V):
            c = Circ(V)
            i = V.int('i')

            def run():
                o = c.build()
                V.assume(ind_lit('<=', ONEP - i.p), ind_lit('<=', i.p - n))
                return V.meth(o, 'charge_op', i)

            def post(V, r):
                V.eq('operator of that mode', nc_of(r), Q(i.p - ONEP))
            V.explore(run, post)
        R.case(f'charge_op [{eng}]', ['circuit.Circuit.charge_op'], chop, engine=eng)
