"""Loops over sequences of unknown length.

The body is executed once for a generic index k from a state in which every
location the body can write holds an arbitrary value.  The difference between
that value and the value after the iteration yields the inductive summary:
  accumulate   x := x + d(k)           ->  entry + sum of d
  append       xs.append(v(k))         ->  entry ++ segment
  store        a[e(k)] := v(k)         ->  pointwise update, e injective
  dictionary   m[key(k)] := v(k)       ->  entry ++ segment
  flag         x := c under p(k)       ->  c if some k has p(k), else entry
  first match  break/return/raise      ->  first index with the exit condition
Anything else is reported as unsupported.
"""
import ast
import re

from .terms import *
from .nc import NC, Base, Letter
from .solve import AXIOM, MODELV, Budget, prove_zero, prove_nc_zero, replace_atom
from .values import *
from . import interp as IN


class Same:
    pass


SAME = Same()
OBJECTS = (SList, SDict, SObj, FunDict, Arr)


def run_loop(I, items, body):
    """Returns True if the loop was left by break."""
    for it in list(items):
        try:
            if isinstance(it, Seg):
                if run_seg(I, it, body):
                    return True
            elif isinstance(it, Hist):
                raise Unsupported('iteration over a sequence under construction')
            else:
                try:
                    body(it)
                except IN.ContinueX:
                    pass
        except IN.BreakX:
            return True
    return False


def loop_names(s):
    """Names a loop assigns, and those it may change in place."""
    stored, changed = set(), set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stored.add(n.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Name):
            changed.add(n.func.value.id)
        elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) \
                and isinstance(n.value, ast.Name):
            changed.add(n.value.id)
    return stored, changed


class Invariant:
    """fits: whether a loop is of the form the invariant is about, given the
    variables it changes; generic: a state that has it before turn k; step:
    obligations that a turn keeps it; covers: that the loop takes every turn."""
    def kept(self, gen):
        return gen

    def covers(self, I, N, item):
        pass


def by_invariant(I, inv, s, env, items, body):
    """A loop with a stated invariant: one path shows that a generic iteration
    keeps it, the other goes on after the loop from any state that has it.
    False if the loop is not of the form the invariant is about."""
    if len(items) != 1 or not isinstance(items[0], Seg) or not items[0].is_uniform():
        return False
    seg = items[0]
    stored, changed = loop_names(s)
    fresh = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    fresh |= {n for n in stored if isinstance(env.vars.get(n, Poison('')), Poison)}
    state = {n: env.vars[n] for n in sorted(stored | changed)
             if n in env.vars and n not in fresh and (n in stored or isinstance(env.vars[n], SList))}
    if any(isinstance(x, (ast.Return, ast.Break)) for x in ast.walk(s)) or s.orelse \
            or not inv.fits(I, s, state, seg):
        return False
    if I.decide(ind_lit('<', seg.N)):
        return False
    once = I.decide(ind_lit('=', Poly.atom(I.fresh('once'))))
    K = Poly.atom(I.fresh('turn')) if once else seg.N
    if once:
        I.assume(ind_lit('<=', -K))
        I.assume(ind_lit('<', K - seg.N))
        if I.ctx().sat() == 'unsat':
            raise IN.Infeasible()
    gen = inv.generic(I, state, K)
    for n, v in gen.items():
        I.set_in(env.vars, n, v, ('env', env, n))
    if not once:
        inv.covers(I, seg.N, seg.item)
        for n in fresh - set(gen):
            I.set_in(env.vars, n, Poison('value of the last iteration'), ('env', env, n))
        return True
    def now(v):
        return list(v.items) if isinstance(v, SList) else v
    before = {n: now(v) for n, v in gen.items()}
    mark, start = len(I.trail), new_oid()
    item = seg.item(K)
    try:
        body(item)
    except IN.ContinueX:
        pass
    mine = {v.oid for v in gen.values() if isinstance(v, SList)}
    for _, loc in I.trail[mark:]:
        if loc[0] in ('fact', 'dec') or loc[0] == 'env' and (loc[1] is env or loc[1].oid > start) \
                or loc[0] != 'famw' and len(loc) > 1 and getattr(loc[1], 'oid', 0) > start \
                or loc[0] == 'list' and loc[1].oid in mine:
            continue
        raise Unsupported(f'loop with an invariant changes something else ({loc[0]})')
    inv.step(I, before, {n: now(env.vars[n]) for n in inv.kept(gen) if n in env.vars}, item, K)
    raise IN.Infeasible()


def loc_key(loc):
    k = loc[0]
    if k == 'env':
        return ('env', loc[1].oid, loc[2])
    if k == 'ns':
        return ('ns', loc[1].oid, loc[2])
    if k == 'attr':
        return ('attr', loc[1].oid, loc[2])
    if k == 'clsattr':
        return ('clsattr', loc[1].oid, loc[2])
    if k in ('list', 'dict', 'fun'):
        return (k, loc[1].oid)
    if k == 'store':
        return (k, loc[1].oid)
    if k == 'famw':
        return ('famw', loc[1], loc[2])
    return (k,)


def loc_oid(loc):
    if loc[0] == 'famw':
        return 0
    return loc[1].oid


def read_loc(I, loc):
    k = loc[0]
    if k == 'env':
        return loc[1].vars.get(loc[2], SAME)
    if k == 'ns':
        return loc[1].ns.get(loc[2], SAME)
    if k == 'clsattr':
        return loc[1].ns.get(loc[2], SAME)
    if k == 'attr':
        return loc[1].attrs.get(loc[2], SAME)
    if k in ('list', 'dict'):
        return list(loc[1].items)
    if k == 'fun':
        return loc[1].val
    if k == 'store':
        return loc[1].val
    if k == 'famw':
        return list(I.famw.get((loc[1], loc[2]), []))
    raise Unsupported(f'loop effect on {k}')


def write_loc(I, loc, v):
    k = loc[0]
    d = {'env': lambda: loc[1].vars, 'ns': lambda: loc[1].ns,
         'clsattr': lambda: loc[1].ns, 'attr': lambda: loc[1].attrs}.get(k)
    if d is not None:
        d = d()
        if v is SAME:
            if loc[2] in d:
                old = d.pop(loc[2])
                I.log(lambda: d.__setitem__(loc[2], old), loc)
            return
        I.set_in(d, loc[2], v, loc)
    elif k in ('list', 'dict'):
        old = loc[1].items
        loc[1].items = v

        def undo():
            loc[1].items = old
        I.log(undo, loc)
    elif k == 'fun':
        I.set_fun(loc[1], v)
    elif k == 'store':
        st = loc[1]
        old = st.val
        st.val = v

        def undo():
            st.val = old
        I.log(undo, loc)
    elif k == 'famw':
        key = (loc[1], loc[2])
        old = I.famw.get(key)
        I.famw[key] = v

        def undo():
            if old is None:
                I.famw.pop(key, None)
            else:
                I.famw[key] = old
        I.log(undo, loc)
    else:
        raise Unsupported(f'loop effect on {k}')


class Acc:
    """Arbitrary value given to a written location."""
    def __init__(self, name):
        self.name = name


_loop_ids = [0]


def acc_name(lid, kk, loc):
    return f'%acc{lid}_{loc_oid(loc)}_{kk[-1]}'


def run_seg(I, seg, body):
    N = seg.N
    c = N.as_int()
    if c is not None and c <= 0:
        return False
    # concrete short segments are simply unrolled
    if c is not None and c <= 6:
        for j in range(c):
            _iter(I, seg, Poly.const(j), body)
        return False
    omark = new_oid()
    start = I.kcount
    locs = {}       # key -> loc
    mode = {}       # key -> 'poison' | 'acc'
    hints = {}
    closed = {}     # key -> (variable, value at the start of that iteration)
    _loop_ids[0] += 1
    lid = _loop_ids[0]
    while True:
        k = I.fresh('k')
        K = Poly.atom(k)
        in_range = [ind_lit('<=', -K), ind_lit('<=', K - N + ONEP)]
        if I.ctx().sat(*in_range) == 'unsat':
            return False
        paths = _stabilise(I, seg, K, in_range, body, locs, mode, hints, omark, closed, lid)
        if not locs and not any(p['exit'] for p in paths):
            return False
        for p in paths:
            _no_escape([p['cond'].key] + [repr_full(v) if not isinstance(v, list) else
                                          repr_items(v) for v in p['final'].values()], start)
        exits = [p for p in paths if p['exit']]
        normal = [p for p in paths if not p['exit']]
        if exits and len(normal) == 1 and len(closed) < len(locs) \
                and any(f'%acc{lid}_' in p['cond'].key for p in paths) \
                and _close_before_exit(I, locs, mode, hints, normal, k, N, closed, lid):
            continue
        try:
            if not _close(I, locs, mode, hints, normal, k, N, closed, lid):
                break
        except Unsupported:
            if not _columns(I, locs, mode, paths, k, closed):
                raise
    if not exits:
        summarise(I, locs, mode, hints, normal, k, N, closed, lid)
        return False
    # first match
    ec = ZEROP
    for p in exits:
        ec = ec + p['cond']
    if f'%acc{lid}_' in ec.key:
        raise Unsupported('exit of a loop depends on earlier iterations')
    tot = sum_range(k, ZEROP, N, ec)
    if I.decide(ind_lit('<=', ONEP - tot)):
        K0 = _unique(ec, k)
        if K0 is None:
            K0 = Poly.atom(I.fresh('first'))
            # no exit in the iteration before
            I.assume(ONEP - ind_lit('<=', ONEP - K0) * ec.subst({k: K0 - ONEP}))
        I.assume(ind_lit('<=', -K0))
        I.assume(ind_lit('<=', K0 - N + ONEP))
        cond0 = ec.subst({k: K0})
        for f in _factors(cond0):
            I.assume(f)
        I.first_facts.append((k, K0, ec))
        I.log(lambda: I.first_facts.pop(), ('fact',))
        summarise(I, locs, mode, hints, normal, k, K0, closed, lid)
        _iter(I, seg, K0, body)
        # the iteration must have left the loop
        raise Unsupported('first match did not leave the loop')
    if closed:
        I.assume(ONEP - ind_lit('<=', ONEP - N) * ec.subst({k: N - ONEP}))
    summarise(I, locs, mode, hints, normal, k, N, closed, lid)
    return False


def _unique(ec, k):
    """The only index that satisfies the exit condition, if it is explicit."""
    for f in _factors(ec):
        for m, c in f.t.items():
            a = m[0][0] if len(f.t) == 1 and len(m) == 1 else None
            if a is not None and a.kind == 'ind' and a.rel == '=':
                r = solve_linear(a.poly, k)
                if r is not None and k not in r.fv:
                    return r
    return None


def _no_escape(texts, start):
    """A match found inside an iteration is a different one in each."""
    for t in texts:
        for x in re.findall(r'%(?:first|key|pos|rand|xi)(\d+)', t):
            if int(x) > start:
                raise Unsupported('first match inside a loop body')


def _stabilise(I, seg, K, in_range, body, locs, mode, hints, omark, closed, lid):
    """Trial iterations until the set of written locations no longer grows."""
    for attempt in range(12):
        try:
            paths = _trial(I, seg, K, in_range, body, locs, mode, hints, omark, closed, lid)
        except IN.NeedAcc as e:
            kk = loc_key(e.loc)
            if kk not in locs:
                raise
            mode[kk] = 'keep' if mode[kk] == 'poison' and isinstance(
                read_loc(I, e.loc), OBJECTS) else 'acc'
            continue
        new = False
        for kk, loc in locs.items():
            # candidate invariant: the name stays bound to the same object
            if mode[kk] == 'keep' and any(p['final'][kk] is not p['start'][kk] for p in paths):
                mode[kk] = 'acc'
                new = True
        if new:
            continue
        for p in paths:
            for kk, loc in p['written'].items():
                if kk not in locs:
                    locs[kk] = loc
                    mode[kk] = 'poison'
                    new = True
                    if loc[0] == 'list':
                        hints[kk] = 'indexed' if loc[1].oid in I.indexed_lists else None
                if loc[0] == 'list':
                    continue
                h = p['final'].get(kk)
                if h is not None and not isinstance(h, (Poison, Same)) \
                        and _better(h, hints.get(kk)):
                    if kk in hints and mode[kk] == 'acc':
                        new = True
                    hints[kk] = h
        if not new:
            return paths
    raise Unsupported('loop effects do not stabilise')


def _columns(I, locs, mode, paths, k, closed):
    """Arrays of which iteration k writes only the entries with k as one of the
    indices: those with higher indices still have their first value."""
    new = False
    for kk, loc in locs.items():
        if loc[0] != 'store' or kk in closed or isinstance(mode[kk], tuple):
            continue
        for d in range(len(loc[2].shape) if len(loc) > 2 else 0):
            if all(_only_at(p['final'].get(kk), p['start'].get(kk), d, k) for p in paths):
                mode[kk] = ('columns', d)
                new = True
                break
    return new


def _entry(v):
    return v.entry(IXP[0], IXP[1]) if isinstance(v, NC) else v


def _only_at(f, s, d, k):
    if f is None or s is None:
        return False
    at = ind_lit('=', IXP[d] - Poly.atom(k))
    (m, _), = at.t.items()
    diff = _entry(f) - _entry(s)
    return all(m[0] in mo for mo in diff.t)


def _sum_columns(entry, fin, d, k, N, n):
    out = ZEROP
    for c, f, s in fin:
        if not _only_at(f, s, d, k):
            raise Unsupported('entries of another iteration written')
        x = (_entry(f) - _entry(s)).subst({IX[d]: Poly.atom(k)})
        if n in x.key or n in c.key:
            raise Unsupported('array accumulation depends on other entries')
        out = out + (c * x).subst({k: IXP[d]})
    return _entry(entry) + ind_lit('<=', -IXP[d]) * ind_lit('<', IXP[d] - N) * out


def _closable(loc, mode):
    return loc[0] in ('list', 'dict', 'store', 'fun', 'famw') or mode == 'acc'


def _close(I, locs, mode, hints, paths, k, N, closed, lid):
    """Some locations depend on the value others have at the start of the
    iteration.  Locations whose summary is independent of the others get their
    closed form; True if that made progress and the trial must be repeated."""
    bad = None
    for kk, loc in locs.items():
        if kk in closed or not _closable(loc, mode[kk]):
            continue
        try:
            _summary(I, kk, loc, mode[kk], hints.get(kk), paths, k, N, lid)
        except Unsupported as e:
            bad = bad or e
    if bad is None:
        return False
    good = {}
    M = I.fresh('upto')
    MP = Poly.atom(M)
    I2 = _WithFacts(I, [ind_lit('<=', -MP), ind_lit('<=', MP - N)])
    for kk, loc in locs.items():
        if kk in closed or not _closable(loc, mode[kk]):
            continue
        try:
            v = _summary(I2, kk, loc, mode[kk], hints.get(kk), paths, k, MP, lid)
        except Unsupported:
            continue
        good[kk] = (M, v)
    if not good:
        raise bad
    closed.update(good)
    return True


def _close_before_exit(I, locs, mode, hints, normal, k, N, closed, lid):
    """The exit condition depends on accumulated values.  Every iteration before
    the first exit runs through the only path without exit, whatever its
    condition, so accumulated values have their closed form there."""
    M = I.fresh('upto')
    MP = Poly.atom(M)
    I2 = _WithFacts(I, [ind_lit('<=', -MP), ind_lit('<=', MP - N)])
    path = dict(normal[0], cond=ONEP)
    good = {}
    for kk, loc in locs.items():
        if kk in closed or not _closable(loc, mode[kk]):
            continue
        try:
            good[kk] = (M, _summary(I2, kk, loc, mode[kk], hints.get(kk), [path], k, MP, lid))
        except Unsupported:
            continue
    closed.update(good)
    return bool(good)


def closed_at(loc, mv, p):
    M, v = mv
    mp = {M: p}
    if loc[0] == 'list':
        return subst_items(v, mp)
    if loc[0] == 'dict':
        return [DSeg(x.N.subst(mp), x.k, x.cond.subst(mp), subst_value(x.key, mp),
                     subst_value(x.val, mp)) if isinstance(x, DSeg) else
                [subst_value(x[0], mp), subst_value(x[1], mp)] for x in v]
    if loc[0] == 'store':
        return v.subst(mp)
    if loc[0] == 'fun':
        return v.subst(mp)
    return subst_value(v, mp)


def _factors(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == ONE:
            return [Poly({((a, e),): ONE}) for a, e in m]
    return [p]


def _rank(v):
    if v is None:
        return 0
    if isinstance(v, (bool, int)):
        return 1
    if isinstance(v, SNum):
        return {'int': 2, 'float': 3, 'complex': 4}[v.kind]
    return 5


def _better(h, old):
    return old is None or _rank(h) > _rank(old)


def _iter(I, seg, K, body):
    for cond, xs in seg.nest:
        cc = cond.subst({seg.k: K})
        if len(seg.nest) == 1 and cc == ONEP or I.decide(cc):
            for x in xs:
                x = subst_value(x, {seg.k: K})
                if isinstance(x, Seg):
                    run_seg(I, x, body)
                    continue
                try:
                    body(x)
                except IN.ContinueX:
                    pass
            return


def _acc_value(I, kk, loc, hint, entry, lid):
    """Arbitrary value of the kind the location holds."""
    n = acc_name(lid, kk, loc)
    if loc[0] == 'famw':
        return [Hist(loc)]
    if loc[0] in ('list', 'dict'):
        if loc[0] == 'list' and hint == 'indexed':
            out = []
            for it in entry:
                if isinstance(it, Seg) and it.is_uniform():
                    v = it.cases[0][1][0]
                    if isinstance(v, (int, SNum)):
                        kind = 'int' if isinstance(v, int) else v.kind
                        out.append(Seg.uniform(it.N, it.k, SNum(Poly.atom(
                            APP(n, (Poly.atom(it.k),), 'I' if kind == 'int' else 'R')), kind)))
                        continue
                raise Unsupported('indexed list under a loop')
            return out
        return [Hist(loc)]
    if loc[0] == 'fun':
        if isinstance(entry, NC) or isinstance(hint, NC):
            return NC.sym(Base(n + '(.)', nslots=1), IXP[0])
        nd = len(loc[1].shape or ())
        return Poly.atom(APP(n, tuple(IXP[:nd + 1]), 'R'))
    if loc[0] == 'store':
        if isinstance(entry, NC):
            return NC.sym(Base(n, kind='mat'))
        nd = len(loc[2].shape) if len(loc) > 2 else 0
        srt = 'C' if loc[2].dtype == 'complex' else 'R'
        return Poly.atom(APP(n, tuple(IXP[:nd]), srt))
    if isinstance(hint, SQobj):
        z = ZEROP
        if isinstance(entry, int) and entry == 0:
            z = ind_lit('=', Poly.atom(VAR(n + '_z', 'I')) - ONEP)
        elif isinstance(entry, SQobj):
            z = entry.zero_if
            if not z.is_zero():
                z = ind_lit('=', Poly.atom(VAR(n + '_z', 'I')) - ONEP)
        return SQobj(NC.sym(Base(n)), hint.shape, hint.kind, hint.fmt, hint.dims, z)
    if isinstance(hint, Arr) and not isinstance(entry, Arr):
        z = entry if isinstance(entry, int) else None
        if hint.meta.get('opmat') and z == 0:
            a = Arr(hint.kind, hint.shape, NC.sym(Base(n)), hint.dtype, **hint.meta)
            a.meta['zero_if'] = ind_lit('=', Poly.atom(VAR(n + '_z', 'I')) - ONEP)
            return a
    if isinstance(hint, Arr) and grows(entry, hint):
        ln = Poly.atom(VAR(n + '_len', 'I'))
        return Arr(hint.kind, (ln,) + tuple(hint.shape[1:]), Poly.atom(APP(
            n, tuple(IXP[:hint.ndim]), 'R')), hint.dtype)
    if isinstance(hint, Arr):
        if isinstance(hint.val, NC):
            return Arr(hint.kind, hint.shape, NC.sym(Base(n, kind='mat')), hint.dtype, **hint.meta)
        srt = 'C' if hint.dtype == 'complex' else 'R'
        return Arr(hint.kind, hint.shape, Poly.atom(APP(n, tuple(IXP[:hint.ndim]), srt)),
                   hint.dtype, **hint.meta)
    if isinstance(hint, (str, SStr)):
        return SStr((Hist(loc),))
    if isinstance(hint, (int, SNum)):
        kind = 'int' if isinstance(hint, int) else hint.kind
        if isinstance(entry, SNum) and _rank(entry) > _rank(hint):
            kind = entry.kind
        return SNum(Poly.atom(VAR(n, {'int': 'I', 'float': 'R', 'complex': 'C'}[kind])), kind)
    raise Unsupported(f'accumulator of type {type(hint).__name__}')


def grows(entry, hint):
    """Whether rows are added to the array."""
    return isinstance(entry, Arr) and entry.ndim == hint.ndim > 0 \
        and hint.shape[0] != entry.shape[0] and entry.shape[1:] == hint.shape[1:]


def _sum_rows(I, entry, fin, k, N, n):
    """x = concatenate((x, rows(k))): the rows of all iterations in order."""
    from .models import entries
    if len(fin) != 1:
        raise Unsupported('rows added under a condition')
    (c, f, s), = fin
    ln = Poly.atom(VAR(n + '_len', 'I'))
    add = f.shape[0] - ln
    if f.shape[1:] != entry.shape[1:] or add != ONEP:
        raise Unsupported('array grows by several rows')
    ctx = I.ctx().plus(ind_lit('<=', -ln), ind_lit('<=', -IXP[0]), ind_lit('<', IXP[0] - ln))
    if not prove_zero(entries(f) - entries(s), ctx):
        raise Unsupported('rows changed while adding others')
    row = _acc_free(entries(f).subst({IX[0]: ln}), n)
    m = entry.shape[0]
    val = ind_lit('<', IXP[0] - m) * entries(entry) \
        + ind_lit('<=', m - IXP[0]) * row.subst({k: IXP[0] - m})
    return Arr(f.kind, (m + N,) + tuple(entry.shape[1:]), val, f.dtype)


def _trial(I, seg, K, in_range, body, locs, mode, hints, omark, closed, lid):
    """Explore one generic iteration; returns the list of paths."""
    mark = len(I.trail)
    entry = {kk: read_loc(I, loc) for kk, loc in locs.items()}
    try:
        for kk, loc in locs.items():
            if kk in closed:
                write_loc(I, loc, closed_at(loc, closed[kk], K))
            elif mode[kk] == 'keep':
                pass
            elif _closable(loc, mode[kk]):
                v = _acc_value(I, kk, loc, hints.get(kk), entry[kk], lid)
                if isinstance(mode[kk], tuple):
                    old = ind_lit('<=', K - IXP[mode[kk][1]])
                    v = old * _entry(entry[kk]) + ind_not(old) * _entry(v)
                write_loc(I, loc, v)
            else:
                write_loc(I, loc, Poison('value of an earlier iteration', loc))
        start = {kk: read_loc(I, loc) for kk, loc in locs.items()}
        paths = []
        for f in in_range:
            I.assume(f)
        nd = len(I.decs)

        def run():
            run.mark = len(I.trail)
            try:
                _iter(I, seg, K, body)
            except IN.BreakX:
                return 'break'
            except IN.ReturnX:
                return 'return'
            except IN.PyRaise:
                return 'raise'
            return None

        def on_path(r, facts):
            written = {}
            for _, loc in I.trail[run.mark:]:
                if loc[0] in ('fact', 'dec', 'aux'):
                    continue
                if loc[0] == 'famw' or loc_oid(loc) < omark:
                    if loc[0] == 'env' and loc[1].oid >= omark:
                        continue
                    written[loc_key(loc)] = loc
            cond = ONEP
            for d in I.decs[nd:]:
                cond = cond * d
            final = {}
            memo = {}
            for kk, loc in list(locs.items()) + list(written.items()):
                v = read_loc(I, loc)
                # objects made in this iteration are undone with the trial
                final[kk] = [freeze(x, omark, memo) for x in v] if isinstance(v, list) \
                    else freeze(v, omark, memo)
            paths.append({'exit': r[1] if r[0] == 'ok' else 'raise', 'cond': cond,
                          'written': written, 'final': final, 'start': start,
                          'zero': {}})
        I.explore(run, on_path)
        for p in paths:
            p['entry'] = entry
        return paths
    finally:
        I.undo_to(mark)


def freeze(v, omark, memo):
    """The value as it is now, independent of later changes or undoing."""
    if isinstance(v, (SList, SDict, SObj)):
        if v.oid < omark:
            return v
        if v.oid in memo:
            return memo[v.oid]
    if isinstance(v, SList):
        r = memo[v.oid] = SList([])
        r.items = [freeze(x, omark, memo) for x in v.items]
        return r
    if isinstance(v, SDict):
        r = memo[v.oid] = SDict([], v.default)
        r.keycmp = v.keycmp
        r.items = [freeze(x, omark, memo) for x in v.items]
        return r
    if isinstance(v, SObj):
        r = memo[v.oid] = SObj(v.cls, {})
        for a, x in v.attrs.items():
            r.attrs[a] = freeze(x, omark, memo)
        return r
    if isinstance(v, Arr):
        root = v
        while root.view is not None:
            root = root.view[0]
        if root.store.oid < omark:
            return v
        return Arr(v.kind, v.shape, v.val, v.dtype, **v.meta)
    if isinstance(v, tuple):
        return tuple(freeze(x, omark, memo) for x in v)
    if isinstance(v, list):
        return [freeze(x, omark, memo) for x in v]
    if isinstance(v, Seg):
        return Seg(v.N, v.k, [(c, [freeze(x, omark, memo) for x in xs]) for c, xs in v.nest])
    if isinstance(v, DSeg):
        return DSeg(v.N, v.k, v.cond, v.key, freeze(v.val, omark, memo))
    return v


def _has(v, name):
    if isinstance(v, (Poly, NC)):
        return name in v.key
    if isinstance(v, (SNum, SBool)):
        return name in v.p.key
    return name in repr_full(v)


def repr_full(v):
    if isinstance(v, (SNum, SBool)):
        return v.p.key
    if isinstance(v, SQobj):
        return v.nc.key + v.zero_if.key
    if isinstance(v, Arr):
        return v.val.key
    if isinstance(v, (SList, TensQ)):
        return repr_items(v.items)
    if isinstance(v, SStr):
        return repr_items(v.parts)
    if isinstance(v, Seg):
        return repr_items([v])
    if isinstance(v, tuple):
        return ''.join(repr_full(x) for x in v)
    if isinstance(v, FamObj):
        return v.ident.key
    if isinstance(v, ExtObj) and v.kind == 'eq':
        return repr_full((v.data['lhs'], v.data['rhs']))
    if isinstance(v, SObj):
        return ''.join(repr_full(x) for x in v.attrs.values()
                       if isinstance(x, (SNum, SBool, SStr, SQobj, Arr)))
    return repr(v)


def repr_items(items):
    s = ''
    for it in items:
        if isinstance(it, Seg):
            s += it.N.key + ''.join(c.key + repr_items(xs) for c, xs in it.nest)
        else:
            s += repr_full(it)
    return s


def exact(v):
    """Text that two values share only where they are the same."""
    if isinstance(v, (SNum, SBool)):
        return f'<{getattr(v, "kind", "bool")} {v.p.key}>'
    if isinstance(v, (bool, int, float, complex, str, type(None))):
        return repr(v)
    if isinstance(v, (tuple, list)):
        return type(v).__name__ + '(' + ','.join(exact(x) for x in v) + ')'
    if isinstance(v, SList):
        return 'SList' + exact(list(v.items))
    if isinstance(v, TensQ):
        return f'TensQ{exact(list(v.items))}*{v.coeff.key}'
    if isinstance(v, SStr):
        return 'SStr' + exact(tuple(v.parts))
    if isinstance(v, Seg):
        return f'Seg({v.N.key},{v.k.key},' + ','.join(f'{c.key}:{exact(list(xs))}' for c, xs in v.nest) + ')'
    if isinstance(v, FamObj):
        return f'<{v.fam.name} {v.ident.key}>'
    if isinstance(v, SQobj):
        return f'<{v.kind} {v.fmt} {v.shape and [exact(x) for x in v.shape]} {v.nc.key} {v.zero_if.key}>'
    if isinstance(v, (Poly, NC)):
        return v.key
    if isinstance(v, Arr):
        return f'<{v.kind} {v.dtype} {[x.key for x in v.shape]} {v.val.key}>'
    if isinstance(v, Hist):
        return '<history>'
    if isinstance(v, ExtObj) and v.kind == 'eq':
        return 'eq' + exact((v.data['lhs'], v.data['rhs']))
    return f'<{type(v).__name__} {id(v)}>'


def _is_same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, SNum) and isinstance(b, SNum):
        return a.p == b.p and a.kind == b.kind
    return False


def summarise(I, locs, mode, hints, paths, k, N, closed, lid):
    """Write the state after N iterations."""
    post = []
    for kk, loc in locs.items():
        if kk in closed:
            post.append((loc, closed_at(loc, closed[kk], N)))
        else:
            post.append((loc, _summary(I, kk, loc, mode[kk], hints.get(kk), paths, k, N, lid)))
    for loc, v in post:
        write_loc(I, loc, v)


def _summary(I, kk, loc, mode, hint, paths, k, N, lid):
    entry = read_loc(I, loc)
    n = acc_name(lid, kk, loc)
    fin = [(p['cond'], p['final'][kk], p['start'].get(kk)) for p in paths]
    for c, _, _ in fin:
        if _closable(loc, mode) and f'%acc{lid}_' in c.key and not f'{n}_z' in c.key:
            raise AccItem('path depends on earlier iterations')
    if loc[0] == 'list':
        v = _sum_list(I, loc, entry, fin, k, N, hint, n)
        r = repr_items(v)
    elif loc[0] == 'dict':
        v = _sum_dict(I, loc, entry, fin, k, N)
        r = ''
    elif loc[0] == 'famw':
        v = _sum_famw(entry, fin, k, N)
        r = ''.join(repr_full(x) for w in v[len(entry):] for x in w[:2])
    elif loc[0] == 'store':
        v = _sum_columns(entry, fin, mode[1], k, N, n) if isinstance(mode, tuple) \
            else _sum_val(I, entry, fin, k, N, n)
        r = v.key
    elif loc[0] == 'fun':
        v = _sum_val(I, entry, fin, k, N, n)
        r = v.key
    else:
        v = _sum_binding(I, loc, entry, fin, k, N, mode, n)
        r = repr_full(v) if mode == 'acc' else ''
    if f'%acc{lid}_' in r:
        raise AccItem('value depends on earlier iterations')
    return v


def last_index(N, k, c):
    """The last k < N with c(k) = 1, where there is one."""
    free = sorted((x for x in (c.fv | N.fv) - {k} if x.kind == 'var' and x.name[0] in '%$'),
                  key=lambda x: x.key)
    hole = [VAR(f'$last{i}', x.sort) for i, x in enumerate(free)]
    kk = VAR('$last', 'I')
    mp = {x: Poly.atom(h) for x, h in zip(free, hole)}
    c0, N0 = c.subst({k: Poly.atom(kk), **mp}), N.subst(mp)
    name = f'last[{N0.key}|{c0.key}]'

    def ax(args):
        me = Poly.atom(APP(name, tuple(args), 'I'))
        sub = dict(zip(hole, args))
        ca, na, j = c0.subst(sub), N0.subst(sub), fresh_bound()
        tot = sum_range(j, ZEROP, na, ca.subst({kk: Poly.atom(j)}))
        none = ind_lit('<=', tot)
        return [none + ind_not(none) * ind_lit('<=', -me) * ind_lit('<', me - na) * ca.subst({kk: me})]

    def mv(m, args):
        sub = {h: Poly.const(a) for h, a in zip(hole, args)}
        ca = c0.subst(sub)
        for i in range(int(m.poly(N0.subst(sub))) - 1, -1, -1):
            if m.poly(ca.subst({kk: Poly.const(i)})):
                return i
        return 0
    AXIOM[name], MODELV[name] = ax, mv
    return Poly.atom(APP(name, tuple(Poly.atom(x) for x in free), 'I'))


def _acc_free(x, n, what='value'):
    if n in x.key:
        raise Unsupported(f'{what} in a loop depends on earlier iterations')
    return x


def _sum_binding(I, loc, entry, fin, k, N, mode, n):
    if all(f is s or isinstance(f, Poison) and f.loc is not None and loc_key(f.loc) == loc_key(loc)
           for _, f, s in fin):
        return entry
    if all(_is_same_value(f, entry) or isinstance(f, Poison) for _, f, s in fin):
        return entry
    if mode == 'poison':
        vals = [(c, f) for c, f, s in fin
                if not (isinstance(f, Poison) and f.loc is not None)]
        consts = {repr(f) for _, f in vals if f is None or isinstance(f, (int, str, bool))}
        if len(consts) == 1 and all(f is None or isinstance(f, (int, str, bool)) for _, f in vals):
            cond = ZEROP
            for c, f in vals:
                cond = cond + c
            tot = sum_range(k, ZEROP, N, cond)
            if I.decide(ind_lit('<=', ONEP - tot)):
                return vals[0][1]
            return entry
        # last iteration's value if unconditional
        if len(fin) == 1 and not isinstance(fin[0][1], Same):
            try:
                f = fin[0][1]
                if isinstance(f, (SNum, SQobj, FamObj, tuple)):
                    if I.ctx().entails(ind_lit('<=', ONEP - N)):
                        return subst_value(f, {k: N - ONEP})
            except Unsupported:
                pass
        # the value of the last iteration that has one
        if len(vals) == 1 and isinstance(vals[0][1], (SNum, FamObj)) and '%acc' not in vals[0][0].key:
            c, f = vals[0]

            def last():
                if I.decide(ind_lit('<=', ONEP - sum_range(k, ZEROP, N, c))):
                    return subst_value(f, {k: last_index(N, k, c)})
                return entry
            return Poison('value of the last iteration', at=last)
        return Poison('value of the last iteration')
    if mode == 'keep' or isinstance(entry, (SList, SDict, SObj, FunDict)):
        raise Unsupported('name bound to another object in a loop')
    if all(isinstance(f, Arr) and isinstance(s, Arr) and f.ndim and n + '_len' in s.shape[0].key
           for _, f, s in fin):
        return _sum_rows(I, entry, fin, k, N, n)
    if all(isinstance(f, (str, SStr)) for _, f, _ in fin):
        return _sum_text(loc, entry, fin, k, N)
    # accumulation
    f0 = fin[0][1]
    zv = VAR(n + '_z', 'I')
    if any(isinstance(f, SQobj) for _, f, _ in fin) or any(
            isinstance(f, Arr) and f.meta.get('opmat') for _, f, _ in fin):
        def ncof(f):
            if isinstance(f, SQobj):
                return f.nc
            if isinstance(f, Arr) and isinstance(f.val, NC):
                return f.val
            if isinstance(f, int) and f == 0:
                return NC({})
            raise Unsupported('operator accumulator changes type')
        hasz = any(zv in c.fv for c, _, _ in fin)
        if isinstance(entry, int) and entry != 0:
            raise Unsupported('operator accumulator starting from a number')
        acc = NC.sym(Base(n))
        tot = NC({})
        tot1 = NC({})
        stay, go = ZEROP, ZEROP
        for c, f, s in fin:
            c0 = c.subst({zv: ZEROP})
            c1 = c.subst({zv: ONEP})
            if not c0.is_zero():
                d = ncof(f) - acc
                _acc_free(d, n, 'operator sum')
                tot = tot + d.scale(c0)
                if f is s or d.is_zero():
                    stay = stay + c0
                else:
                    go = go + c0
            if hasz and not c1.is_zero():
                d = ncof(f)
                if n in d.key:
                    d = d - acc
                _acc_free(d, n, 'operator sum')
                tot1 = tot1 + d.scale(c1)
        _acc_free(stay, n)
        _acc_free(go, n)
        if hasz and not prove_nc_zero(tot - tot1, I.ctx()):
            raise Unsupported('first summand treated differently')
        tot = tot.sum(k, ZEROP, N)
        base = NC({}) if isinstance(entry, int) else ncof(entry)
        z = ONEP if isinstance(entry, int) else (
            entry.zero_if if isinstance(entry, SQobj) else entry.meta.get('zero_if', ZEROP))
        if not z.is_zero():
            moved = sum_range(k, ZEROP, N, go)
            if stay.is_zero():
                z = z * ind_lit('<=', N)
            else:
                z = z * ind_lit('=', moved)
        if not z.is_zero() and I.ctx().sat(z) == 'unsat':
            z = ZEROP
        q = next(f for _, f, _ in fin if isinstance(f, (SQobj, Arr)))
        if isinstance(q, SQobj):
            return SQobj(base + tot, q.shape, q.kind, q.fmt, q.dims, z)
        a = Arr(q.kind, q.shape, base + tot, q.dtype, **q.meta)
        a.meta['zero_if'] = z
        return a
    if isinstance(f0, Arr):
        ev = entry.val if isinstance(entry, Arr) else (
            NC({}) if isinstance(f0.val, NC) else _pol(entry))
        v = _sum_val(I, ev, [(c, f.val, s.val) for c, f, s in fin], k, N, n)
        return Arr(f0.kind, f0.shape, v, f0.dtype, **f0.meta)
    kinds = []
    tot = ZEROP
    acc = None
    for c, f, s in fin:
        if not isinstance(f, (int, SNum)):
            raise Unsupported(f'accumulator becomes {type(f).__name__}')
        kinds.append(f if isinstance(f, SNum) else SNum(Poly.const(f), 'int'))
        d = _pol(f) - s.p
        if n in d.key:
            v = _sum_val(I, _pol(entry), [(c, _pol(f), s.p) for c, f, s in fin], k, N, n)
            return num(v, max([f for _, f, _ in fin] + [entry], key=_rank).kind)
        _acc_free(d, n, 'sum')
        _acc_free(c, n, 'condition')
        tot = tot + c * d
    tot = merge_compl(tot)
    kind = max(kinds, key=_rank).kind
    if not isinstance(entry, (int, SNum)):
        raise Unsupported('accumulator entry value')
    return num(_pol(entry) + sum_range(k, ZEROP, N, tot) if not tot.is_zero() else _pol(entry),
               kind)


def _sum_text(loc, entry, fin, k, N):
    """Text added at the end."""
    from .symb import pieces
    cases = []
    for c, f, s in fin:
        ps = pieces(f)
        if not ps or not isinstance(ps[0], Hist) or '<history>' in repr_items(ps[1:]):
            raise Unsupported('text rebuilt inside a loop')
        cases.append((c, ps[1:]))
    return SStr((entry, Seg(N, k, cases)))


def _pol(v):
    if isinstance(v, SNum):
        return v.p
    if isinstance(v, bool):
        return Poly.const(int(v))
    if isinstance(v, int):
        return Poly.const(v)
    raise Unsupported(f'number expected, got {type(v).__name__}')


def _sum_val(I, entry, fin, k, N, n):
    """Arrays and total maps: accumulation or injective overwriting."""
    s = fin[0][2]
    nc = any(isinstance(f, NC) for _, f, _ in fin)
    if isinstance(entry, NC) and not all(isinstance(f, NC) for _, f, _ in fin):
        # a matrix changed entry by entry
        def ent(v):
            return v.entry(IXP[0], IXP[1]) if isinstance(v, NC) else v
        entry = ent(entry)
        fin = [(c, ent(f), ent(st)) for c, f, st in fin]
        s, nc = fin[0][2], False
    if nc:
        if isinstance(entry, Poly):
            if not entry.is_zero():
                raise Unsupported('matrix accumulator')
            entry = NC({})
        tot = NC({})
        for c, f, s in fin:
            d = f - s
            if n in d.key or n in c.key:
                raise Unsupported('matrix accumulation')
            tot = tot + d.scale(c)
        return entry + tot.sum(k, ZEROP, N)
    (m, _), = s.t.items()
    accatom = m[0][0]
    # val = g*acc + h over all paths
    g, h = ZEROP, ZEROP
    for c, f, _ in fin:
        if n in c.key:
            raise Unsupported('condition in a loop depends on earlier iterations')
        gp, hp = {}, {}
        for mo, co in f.t.items():
            if any(a is accatom or a == accatom for a, _ in mo):
                rest = tuple(x for x in mo if x[0] != accatom)
                if any(x[0] == accatom and x[1] != 1 for x in mo):
                    raise Unsupported('nonlinear accumulation')
                gp[rest] = co
            else:
                hp[mo] = co
        g = g + c * Poly(gp)
        h = h + c * Poly(hp)
    g, h = merge_compl(g), merge_compl(h)
    if n in g.key or n in h.key:
        raise Unsupported('array accumulation depends on other entries')
    # paths partition the iteration; g = 1 where nothing is overwritten
    tot_c = ZEROP
    for c, _, _ in fin:
        tot_c = tot_c + c
    one_minus_g = merge_compl(tot_c) - g
    ctx = I.ctx()
    K = Poly.atom(k)
    rng = ctx.plus(ind_lit('<=', -K), ind_lit('<=', K - N + ONEP))
    if one_minus_g.is_zero() or prove_zero(one_minus_g, rng):
        return entry + (sum_range(k, ZEROP, N, h) if not h.is_zero() else ZEROP)
    k2 = I.fresh('j')
    K2 = Poly.atom(k2)
    inj = one_minus_g * one_minus_g.subst({k: K2})
    c2 = ctx.plus(ind_lit('<=', -K), ind_lit('<=', K - K2 + ONEP), ind_lit('<=', K2 - N + ONEP))
    if not _quick_zero(inj, c2):
        # x := x * g(k)
        if h.is_zero() and prove_zero(merge_compl(tot_c) - ONEP, rng):
            return entry * mk_prod(k, N, g)
        raise Unsupported('entries may be written more than once')
    sg = sum_range(k, ZEROP, N, one_minus_g)
    return entry * (ONEP - sg) + sum_range(k, ZEROP, N, h)


def _quick_zero(p, ctx):
    try:
        return prove_zero(p, ctx, Budget(400, 10))
    except Unsupported:
        return False


def _sum_list(I, loc, entry, fin, k, N, hint, n):
    if hint == 'indexed':
        out = []
        for pos, it in enumerate(entry):
            vals = []
            for c, f, s in fin:
                fv, sv = f[pos], s[pos]
                if not (isinstance(fv, Seg) and fv.is_uniform()):
                    raise Unsupported('indexed list')
                sub = {fv.k: IXP[0]}
                vals.append((c, _pol(subst_value(fv.cases[0][1][0], sub)),
                             _pol(subst_value(sv.cases[0][1][0], {sv.k: IXP[0]}))))
            e = _pol(subst_value(it.cases[0][1][0], {it.k: IXP[0]}))
            # entry k of the list is defined for 0 <= k < length only
            sub = I.ctx
            I2 = _WithFacts(I, [ind_lit('<=', -IXP[0]), ind_lit('<=', IXP[0] - it.N + ONEP)])
            v = _sum_val(I2, e, vals, k, N, n)
            v0 = it.cases[0][1][0]
            kind = 'int' if isinstance(v0, int) else v0.kind
            for c, f, s in fin:
                x = f[pos].cases[0][1][0]
                if isinstance(x, SNum) and _rank(x) > _rank(SNum(ZEROP, kind)):
                    kind = x.kind
            out.append(Seg.uniform(it.N, it.k, num(v.subst({IX[0]: Poly.atom(it.k)}), kind)))
        return out
    cases = []
    for c, f, s in fin:
        if not f or not isinstance(f[0], Hist):
            raise Unsupported('list rebuilt inside a loop')
        new = f[1:]
        if any(isinstance(x, Hist) for x in new):
            raise Unsupported('list rebuilt inside a loop')
        if '<history>' in repr_items(new):
            raise AccItem('list item depends on a list under construction')
        cases.append((c, new))
    if all(not x for _, x in cases):
        return list(entry)
    if len(cases) == 1:
        cases = [(ONEP, cases[0][1])]
    if any(isinstance(x, Seg) for _, xs in cases for x in xs):
        return list(entry) + [Seg(N, k, join_cases(cases))]
    return list(entry) + [tidy(I, Seg(N, k, cases))]


def join_cases(cases):
    """Cases with the same items taken together."""
    out = {}
    for c, xs in cases:
        xs = canon_items([Seg(x.N, x.k, join_cases(x.nest)) if isinstance(x, Seg) else x for x in xs], 0)
        key = exact(xs)
        if key in out:
            c = out[key][0] + c
        out[key] = (c, xs)
    out = [(merge_compl(c), xs) for c, xs in out.values()]
    return [(ONEP, out[0][1])] if len(out) == 1 else out


def canon_items(items, d):
    """Bound indices named by depth."""
    out = []
    for it in items:
        if isinstance(it, Seg):
            nk = VAR(f'%in{d}', 'I')
            mp = {it.k: Poly.atom(nk)}
            it = Seg(it.N, nk, [(c.subst(mp), canon_items([subst_value(x, mp) for x in xs], d + 1))
                                for c, xs in it.nest])
        out.append(it)
    return out


def tidy(I, seg):
    """Equivalent segment with the cases merged where the values allow it."""
    cases = seg.cases
    if len(cases) < 2:
        return seg
    full = [c for c in cases if c[1]]
    if any(len(xs) != 1 for _, xs in full):
        return seg
    v = merge_values([(c, xs[0]) for c, xs in full])
    if len(full) == len(cases):
        return seg if v is None else Seg.uniform(seg.N, seg.k, v)
    # items only from some index on
    tot = ZEROP
    for c, _ in full:
        tot = tot + c
    K = Poly.atom(seg.k)
    ctx = I.ctx().plus(ind_lit('<=', -K), ind_lit('<=', K - seg.N + ONEP))
    for T in thresholds(tot, seg.k):
        if I.ctx().entails(ind_lit('<=', -T)) and I.ctx().entails(ind_lit('<=', T - seg.N)) and \
                prove_zero(tot - ind_lit('<=', T - K), ctx):
            sub = {seg.k: K + T}
            cs = [(c.subst(sub), [subst_value(x, sub) for x in xs]) for c, xs in full]
            if v is not None:
                return Seg.uniform(seg.N - T, seg.k, subst_value(v, sub))
            if len(cs) == 1:
                cs = [(ONEP, cs[0][1])]
            return Seg(seg.N - T, seg.k, cs)
    return seg


def thresholds(p, k):
    out = {}
    K = Poly.atom(k)
    for a in p.atoms():
        if a.kind == 'ind' and k in a.fv:
            for sgn in (1, -1):
                t = K - a.poly.scale(sgn)
                if k not in t.fv:
                    for d in (-1, 0, 1):
                        q = t + Poly.const(d)
                        out[q.key] = q
    return list(out.values())


def merge_values(vals):
    """Single value equal to v_i where c_i holds (the c_i partition)."""
    vs = [v for _, v in vals]
    if all(isinstance(v, SQobj) and v.zero_if.is_zero() for v in vs):
        nc = NC({})
        for c, v in vals:
            nc = nc + v.nc.scale(c)
        sh = vs[0].shape
        if any(v.shape != sh for v in vs):
            if any(v.shape is None for v in vs):
                sh = None
            else:
                sh = tuple(_csum([(c, v.shape[i]) for c, v in vals]) for i in range(2))
        kinds = {v.kind for v in vs}
        return SQobj(nc, sh, vs[0].kind, vs[0].fmt, None) if len(kinds) == 1 else None
    if all(isinstance(v, TensQ) for v in vs):
        its = [v.items for v in vs]
        if any(len(x) != len(its[0]) for x in its):
            return None
        out = []
        for col in zip(*its):
            if all(isinstance(x, Seg) and x.is_uniform() and x.N == col[0].N for x in col):
                t = VAR(f'%m{new_oid()}', 'I')
                T = Poly.atom(t)
                u = merge_values([(c, x.item(T)) for (c, _), x in zip(vals, col)])
                if u is None:
                    return None
                out.append(Seg.uniform(col[0].N, t, u))
            elif any(isinstance(x, Seg) for x in col):
                return None
            else:
                u = merge_values([(c, x) for (c, _), x in zip(vals, col)])
                if u is None:
                    return None
                out.append(u)
        return TensQ(out, _csum([(c, v.coeff) for c, v in vals]))
    if all(isinstance(v, (int, SNum)) and not isinstance(v, bool) for v in vs):
        kind = max([v.kind if isinstance(v, SNum) else 'int' for v in vs],
                   key=('int', 'float', 'complex').index)
        return SNum(_csum([(c, _pol(v)) for c, v in vals]), kind)
    return None


def _csum(xs):
    t = ZEROP
    for c, p in xs:
        t = t + c * p
    return t


class AccItem(Unsupported):
    """Items that depend on an accumulator of the same loop."""


class _WithFacts:
    def __init__(self, I, facts):
        self.I, self.f = I, facts

    def ctx(self):
        return self.I.ctx().plus(*self.f)

    def __getattr__(self, a):
        return getattr(self.I, a)




def joint(t):
    """(names, argument) of a tuple (f(x), g(x), ..) declared to determine x."""
    fns, arg = [], None
    for v in t:
        if not isinstance(v, SNum) or len(v.p.t) != 1:
            return None
        (m, c), = v.p.t.items()
        if c != ONE or len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a.kind != 'app' or len(a.args) != 1 or arg is not None and a.args[0] != arg:
            return None
        fns.append(a.fn)
        arg = a.args[0]
    return (tuple(fns), arg) if tuple(fns) in INJECTIVE else None


def injective(v, k):
    """Whether different values of k give different keys."""
    if isinstance(v, tuple):
        j = joint(v)
        if j is not None and inj_poly(j[1], k):
            return True
        return any(injective(x, k) for x in v)
    if isinstance(v, FamObj):
        return inj_poly(v.ident, k)
    if isinstance(v, SNum):
        return inj_poly(v.p, k)
    return False


def inj_poly(p, k):
    rest, hit = {}, []
    for m, c in p.t.items():
        if any(k is a or k in a.fv for a, _ in m):
            hit.append((m, c))
    if len(hit) != 1 or len(hit[0][0]) != 1 or hit[0][0][0][1] != 1:
        return False
    a = hit[0][0][0][0]
    if a is k or a == k:
        return True
    return a.kind == 'app' and a.fn in INJECTIVE and inj_poly(a.args[-1], k) and \
        not any(k in x.fv for x in a.args[:-1])


def _sum_famw(entry, fin, k, N):
    """Attribute of a different object written in every iteration."""
    out, groups = list(entry), {}
    if len(fin) == 1 and all(isinstance(w, tuple) and k not in w[0].fv and (
            len(w) == 2 or k not in w[2][1].fv | w[2][2].fv) for w in fin[0][1][1:]) \
            and isinstance(fin[0][1][0], Hist) and len(fin[0][1]) > 1:
        # the same objects in every iteration: the last one counts
        last, some = {k: N - ONEP}, ind_lit('<=', ONEP - N)
        for w in fin[0][1][1:]:
            k2, N2, c2 = w[2] if len(w) > 2 else (fresh_bound(), ONEP, ONEP)
            out.append((w[0], subst_value(w[1], last), (k2, N2, c2 * some)))
        return out
    for c, f, _ in fin:
        if not f or not isinstance(f[0], Hist) or len(f) > 2:
            raise Unsupported('several attribute stores in one iteration')
        if len(f) == 2:
            if len(f[1]) > 2 or not inj_poly(f[1][0], k):
                raise Unsupported('attribute of one object written in several iterations')
            key = f'{f[1][0].key}|{type(f[1][1]).__name__}|{exact(f[1][1])}'
            groups.setdefault(key, [f[1][0], f[1][1], ZEROP])[2] += c
    return out + [(i, v, (k, N, merge_compl(c))) for i, v, c in groups.values()]


def _sum_dict(I, loc, entry, fin, k, N):
    cond = None
    pairs = []
    npairs = set()
    for c, f, s in fin:
        if not f or not isinstance(f[0], Hist):
            raise Unsupported('dict rebuilt inside a loop')
        new = f[1:]
        npairs.add(len(new))
        for x in new:
            if isinstance(x, (Hist, DSeg)):
                raise Unsupported('dict rebuilt inside a loop')
        pairs.append((c, new))
    if npairs == {0}:
        return list(entry)
    # one pair per iteration on some of the paths; equal keys and values merge
    if max(npairs) > 1:
        raise Unsupported('several dict stores in one iteration')
    groups = []
    for c, new in pairs:
        if not new:
            continue
        key, val = new[0]
        if '%acc' in repr_full(key) or '%acc' in repr_full(val) or '<history>' in repr_full(val):
            raise AccItem('dict item depends on an accumulator')
        groups.append((c, key, val))
    if len(groups) > 1:
        keys = {exact(g[1]) for g in groups}
        vals = {exact(g[2]) for g in groups}
        if len(keys) > 1:
            raise Unsupported('dict stores differ between paths')
        c = ZEROP
        for g in groups:
            c = c + g[0]
        v = groups[0][2]
        if len(vals) > 1:
            if all(isinstance(g[2], SQobj) and g[2].zero_if.is_zero() for g in groups):
                nc = NC({})
                for g in groups:
                    nc = nc + g[2].nc.scale(g[0])
                v = SQobj(nc, v.shape, v.kind, v.fmt, v.dims)
            else:
                raise Unsupported('dict stores differ between paths')
        groups = [(c, groups[0][1], v)]
    c, key, val = groups[0]
    if len(pairs) == 1:
        c = ONEP
    if not injective(key, k):
        raise Unsupported('dict keys of different iterations may coincide')
    seg = DSeg(N, k, c, key, val)
    # a store overwrites an entry with an equal key
    out = []
    for it in entry:
        if isinstance(it, DSeg):
            r = I.models.dseg_overlap(I, it, seg)
            if r == 'same':
                continue
            if r != 'disjoint':
                raise Unsupported('dict overwritten partially in a loop')
        else:
            raise Unsupported('dict with separate items stored in a loop')
        out.append(it)
    return out + [seg]
