"""C10: eigenfrequencies and eigenvectors."""
from engine.extmodels import eigpairs, sort_perm
from .circ import *

BH = Base('H', herm=True)
lam, vec = eigpairs(NC.sym(BH), 'SR')


class Hamil:
    """hamiltonian (proved under C08)."""
    def apply(self, I, f, args, kw):
        return qob(NC.sym(BH))


class Unit:
    """The frequency unit in force (units proved under C02)."""
    now = 0

    def apply(self, I, f, args, kw):
        return SNum(self.value(self.now), 'float')

    @staticmethod
    def value(i):
        return ap('unit', C(i), pos=True)


def order(k, i):
    """Position of the i-th smallest among the k pairs."""
    return sort_perm(None, Arr('np', (k,), lam(k, IXP[0]), 'float'))(i)


UNIT = Unit()
CONTRACTS = {'circuit.Circuit.hamiltonian': Hamil(), 'circuit.Circuit.safecopy': SafeCopy(),
             'units.get_unit_freq': UNIT}
FUNCS = ['circuit.Circuit.diag', 'circuit.Circuit._diag_np', 'circuit.Circuit.efreqs',
         'circuit.Circuit.evecs']
TFUNCS = ['circuit.Circuit._diag_torch', 'torch_extensions.eigencircuit',
          'torch_extensions.EigenSolver.forward']


def item(V, v, i):
    return V.I.models.getitem(V.I, v, i)


def component(V, v, i, j):
    """Component j of vector i."""
    x = item(V, v, i)
    if isinstance(x, Arr):
        return item(V, x, j) if x.ndim == 1 else item(V, item(V, x, j), 0)
    return nc_of(x).entry(j.p)


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        def dg(V):
            c = Circ(V)
            k, i, j = V.int('k'), V.int('i'), V.int('j')
            V.assume(ind_lit('<=', ONEP - k.p), ind_lit('<=', -i.p), ind_lit('<', i.p - k.p),
                     ind_lit('<=', -j.p), ind_lit('<', j.p - D))

            def run():
                UNIT.now = 0
                o = c.build()
                return o, V.meth(o, 'diag', k)

            def post(V, r):
                o, (f, v) = r
                at = order(k.p, i.p)
                for what, vals, vecs, u in (('returned', f, v, 0), ('read back', None, None, 0),
                                            ('in another unit', None, None, 1)):
                    UNIT.now = u
                    if vals is None:
                        vals, vecs = V.attr(o, 'efreqs'), V.attr(o, 'evecs')
                    V.eq(f'{what}: as many frequencies as asked for', V.call(Builtin('len'), vals), k.p)
                    V.eq(f'{what}: as many vectors as asked for', V.call(Builtin('len'), vecs), k.p)
                    V.eq(f'{what}: i-th smallest eigenvalue in the unit', item(V, vals, i),
                         lam(k.p, at) * (TWO * PI * UNIT.value(u)).inv())
                    V.eq(f'{what}: vector of that eigenvalue', component(V, vecs, i, j),
                         vec(k.p, at).entry(j.p))
            V.explore(run, post)
        R.case(f'diag [{eng}]', FUNCS + (TFUNCS if eng == 'pytorch' else []), dg,
               engine=eng, contracts=CONTRACTS)
