"""C24: the printed tables of elements and of flux shares."""
import re

from .c03 import *


def flat(x, out=None):
    """Pieces of a text in order: plain text, formatted values, names and
    repetitions; a join of repetitions keeps its separator."""
    out = [] if out is None else out
    if isinstance(x, str):
        if out and isinstance(out[-1], str):
            out[-1] += x
        elif x:
            out.append(x)
    elif isinstance(x, SStr):
        for y in x.parts:
            flat(y, out)
    elif isinstance(x, Seg):
        out.append(Seg(x.N, x.k, [(c, flat(SStr(tuple(xs)))) for c, xs in x.nest]))
    elif isinstance(x, tuple) and x and x[0] == 'join':
        for i, y in enumerate(x[2]):
            if i:
                flat(x[1], out)
            if isinstance(y, Seg):
                out.append(('between', x[1]))
            flat(y, out)
    elif isinstance(x, tuple) and x and x[0] in ('fmt', 'any', 'repeat'):
        out.append(x)
    else:
        raise Unsupported(f'piece of text {type(x).__name__}')
    return out


def same_text(V, label, got, want):
    """Obligations that two texts are the same, piece by piece."""
    if want and not got:
        V.zero(f'{label}: each listed once', ONEP)
        return
    if len(got) != len(want) or any(type(a) is not type(b) for a, b in zip(got, want)):
        raise Unsupported('text put together in another way')
    for a, b in zip(got, want):
        if isinstance(a, str):
            V.true(label, a == b)
        elif isinstance(a, Seg):
            V.eq(f'{label}: number', a.N, b.N)
            k = V.I.fresh('row')
            K = Poly.atom(k)
            mark = len(V.I.trail)
            V.assume(ind_lit('<=', -K), ind_lit('<', K - b.N))
            try:
                for c, xs in b.nest:
                    c = c.subst({b.k: K})
                    tot = ZEROP
                    inner = len(V.I.trail)
                    V.assume(c)
                    if V.I.ctx().sat() == 'unsat':
                        V.I.undo_to(inner)
                        continue
                    for d, ys in a.nest:
                        d = d.subst({a.k: K})
                        tot = tot + d
                        if V.I.ctx().plus(d).sat() == 'unsat':
                            continue
                        m2 = len(V.I.trail)
                        V.assume(d)
                        same_text(V, label, [subst_value(y, {a.k: K}) for y in ys],
                                  [subst_value(x, {b.k: K}) for x in xs])
                        V.I.undo_to(m2)
                    V.zero(f'{label}: each listed once', tot - ONEP)
                    V.I.undo_to(inner)
            finally:
                V.I.undo_to(mark)
        elif a[0] != b[0]:
            raise Unsupported('text put together in another way')
        elif a[0] == 'fmt':
            values(V, f'{label}: value', a[1], b[1])
            values(V, f'{label}: format', a[2], b[2])
        else:
            values(V, label, a[1:], b[1:])


def values(V, label, a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for x, y in zip(a, b):
            values(V, label, x, y)
    elif isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        same_text(V, label, flat(a), flat(b))
    else:
        V.eq(label, a, b)


def element_table():
    e, k = fresh_bound(), fresh_bound()
    E, K = Poly.atom(e), Poly.atom(k)
    i = at(E, K)
    rows = [(is_kind(i, n_), [f'\t{name} = ', ('fmt', SNum(val(i), 'float'), '.3e'), f' {u}\n'])
            for n_, (name, u) in enumerate((('C', 'F'), ('L', 'H'), ('JJ', 'Hz')))]
    edge = (num(ap('eE1', E, sort='I'), 'int'), num(ap('eE2', E, sort='I'), 'int'))
    return [Seg(nE, e, [(ONEP, ['Edge ', ('fmt', edge, ''), ':\n', Seg(count(E), k, rows)])])]


nB = Poly.atom(VAR('nB', 'I', True))


def share(V):
    """A circuit with inductive elements of either kind, in any order."""
    el = V.mod('elements').ns
    kinds = [el['Inductor'], el['Junction']]
    loops = Fam('loop', [el['Loop']], {'id_str': lambda I, o: named('loop name', o.ident)})
    els = Fam('el', kinds, {'id_str': lambda I, o: named('element name', o.ident)},
              lambda i: ap('kind', i, sort='I'))
    k = V.I.fresh('k')
    K = Poly.atom(k)
    first = ind_lit('=', ap('kind', K, sort='I'))
    edge, row = (num(ap('eE1', K, sort='I'), 'int'), num(ap('eE2', K, sort='I'), 'int')), num(K, 'int')
    place = num(ap('place', K, sort='I'), 'int')
    keys = [[kinds[0], SList([Seg(nB, k, [(first, [(edge, FamObj(els, K), row)]), (ind_not(first), [])])])],
            [kinds[1], SList([Seg(nB, k, [(ind_not(first), [(edge, FamObj(els, K), row, place)]),
                                          (first, [])])])]]
    return SObj(V.mod('circuit').ns['Circuit'], dict(
        loops=SList([Seg.uniform(nl, k, FamObj(loops, K))]), elem_keys=SDict(keys),
        B=Arr('np', (nB, nl), ap('B', *IXP[:2]), 'float')))


def named(what, i):
    return SStr((('any', what, num(i, 'int')),))


def words(xs):
    """The pieces without spaces, lines and widths."""
    out = []
    for x in xs:
        if isinstance(x, str):
            if x.strip('- \t\n'):
                flat(' '.join(x.split()), out)
        elif isinstance(x, Seg):
            out.append(Seg(x.N, x.k, [(c, words(ys)) for c, ys in x.nest]))
        elif x[0] == 'fmt':
            spec = flat(x[2])
            if spec and isinstance(spec[0], str) and not re.fullmatch('[<>^]?[0-9]*', spec[0]):
                raise Unsupported('format of an entry')
            if isinstance(x[1], (str, SStr)):
                for y in words(flat(x[1])):
                    flat(SStr((y,)), out)
            else:
                out.append(('fmt', x[1], ''))
        elif x[0] == 'any':
            out.append(x)
        elif x[0] == 'between' and not x[1].strip() or x[0] == 'repeat' \
                and not x[1].strip('- '):
            continue
        else:
            raise Unsupported('layout of the table')
    return out


def share_table():
    """Names of the loops; per element its name, number and shares."""
    i, j = fresh_bound(), fresh_bound()
    A, J = Poly.atom(i), Poly.atom(j)
    size = f_fun('rint', f_abs(ap('B', A, J)) * C(100)) * C('1/100')
    return [Seg.uniform(nl, j, ('any', 'loop name', num(J, 'int'))),
            Seg(nB, i, [(ONEP, [('any', 'element name', num(A, 'int')), ', b', ('fmt', num(A + ONEP, 'int'), ''), ':',
                                Seg.uniform(nl, j, ('fmt', SNum(size, 'float'), ''))])])]


def contracts(R):
    for eng in ('numpy', 'pytorch'):
        def table(V):
            net = Net(V)

            def run():
                o = net.circuit()
                f = Frame(V, o)
                r = V.meth(o, 'element_description', True)
                f.check('circuit unchanged')
                return r
            V.explore(run, lambda V, r: same_text(V, 'element', flat(r), element_table()))
        R.case(f'elements [{eng}]', ['circuit.Circuit.element_description',
                                     'texts.HamilTxt.print_el_description'], table, engine=eng)

        def shares(V):
            def run():
                o = share(V)
                f = Frame(V, o)
                r = V.meth(o, 'loop_description', True)
                f.check('circuit unchanged')
                return r
            V.explore(run, lambda V, r: same_text(V, 'share', words(flat(r)), share_table()))
        R.case(f'shares [{eng}]', ['circuit.Circuit.loop_description',
                                   'texts.HamilTxt.print_loop_description'], shares, engine=eng)
