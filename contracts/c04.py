"""C04: distribution of external flux over the elements of loops.

The distribution matrix is B = around(X^-1 I, 5).  The obligations state X and
I entry by entry, for any number of edges, elements and loops: the rows of X
are the current balance at the nodes and, below, the oriented places of each
loop; I picks the loop rows.  Hence the shares of loop t, before rounding, add
up to one around loop t and to zero around the others."""
from engine.nc import WORDS
from engine.extmodels import resolve_sel
from .c03 import *

MILLI5 = Poly.const(100000)


def inverse_system(p):
    """(X, I) of p = rint(1e5 entry of X^-1 I)/1e5, entries in IX0, IX1; None
    if p has another form."""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'app' or m[0][0].fn != 'rint':
        return None
    q = m[0][0].args[0]
    if len(q.t) != 1 or Poly({m: c}) * MILLI5 != Poly({m: ONE}):
        return None
    (m, c), = q.t.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'app' or Poly({m: c}) != Poly({m: ONE}) * MILLI5:
        return None
    return product(m[0][0])


def product(a):
    """(X, I) of an entry of X^-1 I."""
    w = WORDS.get(a.fn) if a.kind == 'app' else None
    if not w or len(w) != 2 or not w[0].inv or w[1].inv:
        return None
    if any(x.base.inner is None or x.base.inner[0] != 'ent' or x.c for x in w):
        return None
    out = []
    for x in w:
        e = x.base.inner[1]
        out.append(e.subst({IX[0]: IXP[1], IX[1]: IXP[0]}) if x.t else e)
    return out, a.args


def scale_of(p, out):
    """The common unit of the weights."""
    for a in p.atoms():
        if a.kind == 'app' and a.fn.startswith('max['):
            out[a.key] = a
        elif a.kind == 'app':
            for x in a.args:
                scale_of(x, out)
        elif a.kind == 'sum':
            scale_of(a.body, out)
        elif a.kind in ('ind', 'poly'):
            scale_of(a.poly, out)
    return out


def weight(i, how):
    if how == 'all':
        return val(cap_of(i))
    big, small = Poly.const(10 ** 20), Poly.const(Fraction(1, 10 ** 20))
    j, l = is_kind(i, 2), is_kind(i, 1)
    return (l * big + j * small) if how == 'junctions' else (l * small + j * big)


def clamp(w):
    lo = Poly.const(Fraction(1, 10 ** 8))
    g = ind_lit('<=', lo - w)
    return g * w + (ONEP - g) * lo


def contracts(R):
    columns(R)
    for eng in ('numpy', 'pytorch'):
        for how in ('junctions', 'inductors', 'all'):
            kept = Kept()

            def dist(V, how=how, kept=kept):
                net = Net(V)
                c = net.circuit()
                c.attrs['flux_dist'] = how

                def run():
                    return V.meth(c, '_get_LCWB')

                def post(V, o):
                    b = V.I.models.iter_items(V.I, o)[3]
                    e = VAR('%se', 'I')
                    nb = sum_range(e, ZEROP, nE, per_edge(own, Poly.atom(e)))
                    V.eq('one row per inductive element', b.shape[0], nb)
                    V.eq('one column per loop', b.shape[1], nl)
                    i, l = V.int('i'), V.int('l')
                    V.assume(ind_lit('<=', -i.p), ind_lit('<', i.p - nb), ind_lit('<=', -l.p), ind_lit('<', l.p - nl))
                    g = P(V.I.models.getitem(V.I, b, (i, l)))
                    s = inverse_system(g)
                    if s is None:
                        raise Unsupported('form of the distribution matrix')
                    (X, Im), at_ = s
                    V.eq('element', at_[0], i.p)
                    V.eq('loop', at_[1], l.p)

                    def rd(p, r, c):
                        return resolve_sel(V.I, p.subst({IX[0]: r, IX[1]: c}))
                    V.eq('right-hand side', rd(Im, i.p, l.p), ind_lit('=', i.p - (nb - nl) - l.p))
                    V.eq('places of a loop with their orientation', rd(X, nb - nl + l.p, i.p), sum_range(
                        e, ZEROP, ap('nidx', l.p, sort='I', pos=True),
                        ind_lit('=', ap('idx', l.p, Poly.atom(e), sort='I') - i.p) * ap('g', l.p, Poly.atom(e))))
                    # current balance at a place
                    x, k, r = V.int('x'), V.int('k'), V.int('r')
                    el = at(x.p, k.p)
                    V.assume(ind_lit('<=', -x.p), ind_lit('<', x.p - nE), ind_lit('<=', -k.p),
                             ind_lit('<', k.p - count(x.p)), own(el))
                    V.assume(ind_lit('<=', -r.p), ind_lit('<', r.p - nb + nl))
                    col = inductive_before(x.p, k.p)
                    # an inductive element adds itself to those before it
                    V.assume(ind_lit('<', col - nb))
                    K = kept.given
                    V.eq('phase drops: one row per inductive element', K.shape[0], nb)
                    V.eq('phase drops: one column per node', K.shape[1], N)
                    a, b = V.int('a'), V.int('b')
                    V.assume(*[ind_lit('<=', -y.p) for y in (a, b)], *[ind_lit('<', y.p - N) for y in (a, b)])
                    get = V.I.models.getitem
                    c_ = num(col, 'int')
                    V.eq('phase drop at a place', P(get(V.I, K, (c_, a))) * P(get(V.I, K, (c_, b))),
                         lap(ap('eE1', x.p, sort='I'), ap('eE2', x.p, sort='I'), a.p, b.p))
                    u = scale_of(X, {})
                    if len(u) > 1:
                        raise Unsupported('unit of the weights')
                    unit = Poly.atom(next(iter(u.values()))) if u else ONEP
                    V.eq('current balance', rd(X, r.p, col), ap('kept', col, r.p) * clamp(
                        weight(el, how) * unit.inv()))
                V.explore(run, post)
            R.case(f'flux distribution over {how} [{eng}]', ['circuit.Circuit._get_LCWB'], dist, engine=eng,
                   contracts=dict(LOOPS, **{'functions.remove_dependent_columns': kept}))

    for eng in ('numpy', 'pytorch'):
        kept = Kept(ONEP)

        def loop_vector(V, kept=kept):
            el = V.mod('elements').ns
            rows = ap('rows', sort='I', pos=True)
            k, j = V.I.fresh('k'), V.I.fresh('j')
            V.assume(ind_lit('<=', TWO - rows))
            lp = SObj(el['Loop'], dict(k_mat=SList([Seg.uniform(rows, k, SList([Seg.uniform(
                N, j, num(ap('w', Poly.atom(k), Poly.atom(j), sort='I'), 'int'))]))])))

            def post(V, g):
                i, r = V.int('i'), V.int('r')
                V.assume(*[ind_lit('<=', -x.p) for x in (i, r)], *[ind_lit('<', x.p - rows) for x in (i, r)])
                a = V.int('a')
                V.assume(ind_lit('<=', -a.p), ind_lit('<', a.p - N))
                V.eq('phase drops along the loop', V.I.models.getitem(V.I, kept.given, (i, a)),
                     ap('w', i.p, a.p, sort='I'))
                V.eq('one row', g.shape[0], ONEP)
                V.eq('one entry per place', g.shape[1], rows)
                v = P(V.I.models.getitem(V.I, g, (0, i)))
                s = product(next(iter(v.atoms()))) if len(v.atoms()) == 1 else None
                if s is None:
                    raise Unsupported('form of the loop vector')
                (Y, b), at_ = s
                b0 = b.subst({IX[0]: ZEROP, IX[1]: ZEROP})
                V.eq('scale', v, Poly.atom(next(iter(v.atoms()))))
                V.eq('place', at_[0], i.p)
                V.eq('column', at_[1], ZEROP)
                V.eq('first place along the loop, net current at every node zero',
                     Y.subst({IX[0]: r.p, IX[1]: i.p}),
                     ind_lit('=', r.p) * ind_lit('=', i.p) * b0
                     + ind_lit('!=', r.p) * ap('kept', i.p, r.p - ONEP))
                V.eq('right-hand side', b.subst({IX[0]: r.p, IX[1]: ZEROP}), ind_lit('=', r.p) * b0)
                V.true('first row given', ind_lit('!=', b0))
            V.explore(lambda: V.meth(lp, 'get_g'), post)
        R.case(f'Loop.get_g [{eng}]', ['elements.Loop.get_g'], loop_vector, engine=eng,
               contracts={'functions.remove_dependent_columns': kept})

        def register(V):
            el, cm = V.mod('elements').ns, V.mod('circuit').ns
            k, j = V.I.fresh('k'), V.I.fresh('j')

            def seen(x):
                """What a loop has met before."""
                return SList([Seg.uniform(ap('seen' + x, sort='I', pos=True), k,
                                          num(ap('place' + x, Poly.atom(k), sort='I'), 'int'))])
            loops = [SObj(el['Loop'], dict(indices=seen('i' + x), k_mat=seen('k' + x))) for x in 'abc']
            a, b, c = loops
            circ = SObj(cm['Circuit'], dict(loops=SList([a, c])))
            w = SList([Seg.uniform(N, j, num(ap('w', Poly.atom(j), sort='I'), 'int'))])
            edge = SObj(cm['CircuitEdge'], dict(circ=circ, w=w))
            e = SObj(el['Junction'], dict(loops=SList([a, b])))
            bid = V.int('b')

            def run():
                V.meth(edge, 'update_circuit_loop_from_element', e, bid)

            def post(V, _):
                V.eq('loops in order of appearance', V.attr(circ, 'loops'), SList([a, c, b]))
                V.eq('known loop: place added', V.attr(a, 'indices'), SList(seen('ia').items + [bid]))
                V.eq('known loop: edge added', V.attr(a, 'k_mat'), SList(seen('ka').items + [w]))
                V.eq('new loop: only this place', V.attr(b, 'indices'), SList([bid]))
                V.eq('new loop: only this edge', V.attr(b, 'k_mat'), SList([w]))
                V.eq('other loop untouched', V.attr(c, 'indices'), seen('ic'))
                V.eq('other loop untouched: edges', V.attr(c, 'k_mat'), seen('kc'))
            V.explore(run, post)
        R.case(f'registration of loops [{eng}]', [
            'circuit.CircuitEdge.update_circuit_loop_from_element', 'circuit.Circuit.add_loop',
            'elements.Loop.add_index', 'elements.Loop.add_to_k_mat', 'elements.Loop.reset'],
            register, engine=eng, contracts={'circuit.Circuit.add_to_parameters': Elsewhere()})

        def share(V):
            c = Circ(V)

            def run():
                o = c.build()
                b = V.int('b')
                V.assume(ind_lit('<=', -b.p), ind_lit('<', b.p - nL - nJ))
                return b, V.meth(o, '_get_external_flux_at_element', b)

            def post(V, r):
                V.eq('sum over loops of share times flux', r[1], ext_flux(r[0].p))
            V.explore(run, post)
        R.case(f'_get_external_flux_at_element [{eng}]', ['circuit.Circuit._get_external_flux_at_element'],
               share, engine=eng)
