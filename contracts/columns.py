"""The choice of independent columns of a matrix, any size and entries."""
import ast
from fractions import Fraction

from .circ import *
from engine.extmodels import F as EXT
from engine.solve import AXIOM
from engine.loops import Invariant

A_, B_ = VAR('rows', 'I', True), VAR('cols', 'I', True)
rows, cols = Poly.atom(A_), Poly.atom(B_)


def given():
    return Arr('np', (rows, cols), ap('M', *IXP[:2]), 'float')


def left():
    """The matrix without its columns of zeros."""
    i, j, k = fresh_bound(), VAR('%c', 'I'), fresh_bound()
    some = ind_lit('!=', sum_range(i, ZEROP, rows, ind_lit('!=', ap('M', Poly.atom(i), Poly.atom(j)))))
    return Arr('np', (rows, sum_range(k, ZEROP, cols, some.subst({j: Poly.atom(k)}))),
               ap('M', IXP[0], EM.selector(cols, j, some)(IXP[1])), 'float')


class NonZero:
    """Contract of the removal of columns of zeros (proved below)."""
    def apply(self, I, f, args, kw):
        m = args[0] if args else kw['matrix']
        if not isinstance(m, Arr) or m.shape != (rows, cols) or entries(m) != entries(given()):
            raise Unsupported('columns removed from another matrix')
        return left()


def column(item):
    """The number among the loop variables."""
    xs = [x for x in (item if isinstance(item, tuple) else (item,)) if isinstance(x, SNum)]
    if len(xs) != 1:
        raise Unsupported('columns in another way')
    return xs[0]


class Columns(Invariant):
    """Invariant: the columns kept so far are columns of the matrix and
    independent, none is dropped again, and one that is left out depends on
    those kept before it."""
    def __init__(self, V):
        self.V, self.q = V, None

    def covers(self, I, n, item):
        """The loop comes to each column once."""
        t = fresh_bound()
        i = P(column(item(Poly.atom(t))))
        if i not in (Poly.atom(t), n - ONEP - Poly.atom(t)):
            raise Unsupported('columns in another order')
        self.V.eq('every column is looked at', n, self.z.shape[1])

    def fits(self, I, s, state, seg):
        self.z = given() if seg.N == cols else left()
        return len(state) == 1 and all(isinstance(v, SList) and not v.items for v in state.values())

    def generic(self, I, state, k):
        q = self.q = Poly.atom(I.fresh('q'))
        name = f'kept{I.kcount}'

        def place(j):
            return ap(name, j, sort='I')

        def ax(args):
            j = place(args[0])
            out = ind_lit('<', args[0]) + ind_lit('<=', q - args[0])
            return [out + (ONEP - out) * ind_lit('<=', -j) * ind_lit('<', j - self.z.shape[1])]
        AXIOM[name] = ax
        self.place = place
        I.assume(ind_lit('<=', -q))
        I.assume(ind_lit('<=', q - k))
        b = I.fresh('j')
        xs = SList([Seg.uniform(q, b, num(place(Poly.atom(b)), 'int'))])
        I.assume(ind_lit('=', P(self.rank(I, xs)) - q))
        return {n: xs for n in state}

    def rank(self, I, xs):
        z = I.models.getitem(I, self.z, (slice(None), xs))
        return EXT['numpy.linalg.matrix_rank'](I, z)

    def step(self, I, before, after, item, k):
        V, item = self.V, column(item)
        (old,), (new,) = before.values(), after.values()
        n_old, n_new = (I.models.length(I, SList(list(x))) for x in (old, new))
        if new[:len(old)] != old or len(new) > len(old) + 1:
            raise Unsupported('columns kept in another way')
        V.eq('columns kept are independent', self.rank(I, SList(list(new))), n_new)
        if len(new) > len(old):
            V.eq('the column at hand is kept', new[-1], item)
        else:
            V.zero('a column left out depends on those kept',
                   ind_lit('=', P(self.rank(I, SList(list(old) + [item]))) - n_old - ONEP))


def columns(R):
    def zero(V):
        V.explore(lambda: V.fn('functions', 'remove_zero_columns', given()),
                  lambda V, r: V.eq('columns', r, left()))
    R.case('columns of zeros removed', ['functions.remove_zero_columns'], zero)

    def indep(V):
        inv = Columns(V)

        def run():
            V.I.invariant = inv
            try:
                return V.fn('functions', 'remove_dependent_columns', given())
            finally:
                V.I.invariant = None

        def post(V, r):
            if inv.q is None:
                raise Unsupported('loop of another form')
            V.eq('columns of the matrix', r, Arr('np', (rows, inv.q), entries(inv.z).subst({IX[1]: inv.place(IXP[1])}),
                                                 'float'))
            V.eq('independent', EXT['numpy.linalg.matrix_rank'](V.I, r), inv.q)
        V.explore(run, post)
    R.case('independent columns', ['functions.remove_dependent_columns'], indep,
           contracts={'functions.remove_zero_columns': NonZero()})


class Rows(Invariant):
    """Invariant of the Gram-Schmidt process: one basis vector per row kept."""
    def __init__(self, V):
        self.V, self.q = V, None

    def fits(self, I, s, state, seg):
        if len(state) != 2 or not all(isinstance(v, SList) and not v.items for v in state.values()):
            return False
        calls = [x.func.value for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)]
        read = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
                and not any(x is y for y in calls)} & set(state)
        if len(read) != 1:
            return False
        self.basis, = read
        self.places, = set(state) - read
        return True

    def generic(self, I, state, k):
        q = self.q = Poly.atom(I.fresh('q'))
        I.assume(ind_lit('<=', -q))
        I.assume(ind_lit('<=', q - k))
        b = I.fresh('j')
        B = Poly.atom(b)
        self.c = c = I.kcount
        AXIOM[f'place{c}'] = lambda args: [self.inside(ap(f'place{c}', *args, sort='I'), args[0])]
        return {self.places: SList([Seg.uniform(q, b, num(ap(f'place{c}', B, sort='I'), 'int'))]),
                self.basis: SList([Seg.uniform(q, b, Arr('np', (cols,), ap(f'e{c}', B, IXP[0]), 'float'))])}

    def inside(self, j, at):
        out = ind_lit('<', at) + ind_lit('<=', self.q - at)
        return out + (ONEP - out) * ind_lit('<=', -j) * ind_lit('<', j - rows)

    def covers(self, I, n, item):
        self.V.eq('every row is looked at', n, rows)

    def rest(self, i, r):
        """The row, normalised, without its part along the basis so far."""
        s, l, t = fresh_bound(), fresh_bound(), fresh_bound()
        S, L, T = (Poly.atom(x) for x in (s, l, t))
        size = sum_range(s, ZEROP, cols, f_abs(ap('M', i, S)) * f_abs(ap('M', i, S))).fpow(Fraction(1, 2))
        scale = (size + C('1e-9')).inv()
        along = sum_range(t, ZEROP, cols, ap('M', i, T) * scale * ap(f'e{self.c}', L, T))
        return ap('M', i, r) * scale - sum_range(l, ZEROP, self.q, along * ap(f'e{self.c}', L, r))

    def step(self, I, before, after, item, k):
        V = self.V
        old, new = before[self.places], after[self.places]
        olde, newe = before[self.basis], after[self.basis]
        if new[:len(old)] != old or newe[:len(olde)] != olde or len(new) > len(old) + 1 or len(newe) > len(olde) + 1:
            raise Unsupported('rows kept in another way')
        V.eq('a vector for each row kept', C(len(new) - len(old)), C(len(newe) - len(olde)))
        i, t = P(item), fresh_bound()
        T = Poly.atom(t)
        tol = P(V.I.models.getitem(V.I, V.get('settings', 'ACC'), 'Gram-Schmidt'))
        big = sum_range(t, ZEROP, cols, ind_lit('<', tol - f_abs(self.rest(i, T))))
        if len(new) > len(old):
            V.eq('the row at hand is kept', new[-1], item)
            V.zero('a row kept is independent', ind_lit('=', big))
            e = self.rest(i, T)
            size = sum_range(t, ZEROP, cols, f_abs(e) * f_abs(e)).fpow(Fraction(1, 2))
            V.eq('part of the row outside the basis so far', newe[-1],
                 Arr('np', (cols,), self.rest(i, IXP[0]) * size.inv(), 'float'))
        else:
            V.zero('a row left out depends on those kept', ind_lit('!=', big))


def gram_schmidt(R):
    def indep(V):
        inv = Rows(V)
        o = SObj(V.mod('circuit').ns['Circuit'], {})

        def run():
            V.I.invariant = inv
            try:
                return V.meth(o, '_independent_rows', given())
            finally:
                V.I.invariant = None

        def post(V, r):
            if inv.q is None:
                raise Unsupported('loop of another form')
            k = fresh_bound()
            K = Poly.atom(k)
            V.eq('places of the rows kept', r[0],
                 SList([Seg.uniform(inv.q, k, num(ap(f'place{inv.c}', K, sort='I'), 'int'))]))
            V.eq('their vectors', r[1],
                 SList([Seg.uniform(inv.q, k, Arr('np', (cols,), ap(f'e{inv.c}', K, IXP[0]), 'float'))]))
        V.explore(run, post)
    R.case('independent rows', ['circuit.Circuit._independent_rows'], indep)
