"""Assumed contracts of numpy, scipy, torch, qutip and the standard library."""
import itertools
from fractions import Fraction

from .terms import *
from .nc import NC, Base, Letter, REBUILD, blocks2, EXPAND, SUBWORD, normal_form
from .solve import prove_zero, prove_nc_zero, replace_atom, AXIOM, MODELV
from .values import *
from . import interp as IN
from .interp import PyRaise, Builtin
from . import loops as LP
from .loops import Hist
from .models import (P, isnum, kindof, kmax, num, entries, to_nc, dt_join, arr_dtype,
                     broadcast, meta_of, ssubst, truediv, ceq, ent_base)

PI = Poly.atom(VAR('pi', 'R', True))
USED = set()
F = {}


def ext(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


CONSTS = {
    'numpy.pi': SNum(PI, 'float'), 'math.pi': SNum(PI, 'float'),
    'scipy.constants.pi': SNum(PI, 'float'),
    'numpy.newaxis': None,
}
NP_MODS = ('numpy', 'scipy', 'torch', 'qutip', 'math')


def ext_attr(I, e, name):
    full = f'{e.name}.{name}'
    if full in CONSTS:
        return CONSTS[full]
    if full.startswith('copy.') or full.startswith('collections.') or full.startswith('typing.'):
        return Ext(full)
    return Ext(full)


def canon(name):
    for a, b in (('torch.linalg', 'torch.linalg'), ('qutip.core.', 'qutip.')):
        pass
    return name


def call(I, name, args, kw):
    f = F.get(name)
    if f is None:
        if name.startswith(('logging', 'warnings')):
            return None
        if name.startswith('typing.'):
            return Ext(name + '()')
        if I.loading:
            return Ext(name + '()')
        raise Unsupported(f'library function {name}')
    USED.add(name)
    I.assumed.add(name)
    try:
        return f(I, *args, **kw)
    except TypeError as e:
        if '() got' in str(e) or '() missing' in str(e) or '() takes' in str(e):
            raise Unsupported(f'arguments of {name}: {e}')
        raise


# ------------------------------------------------------------- arrays

def as_arr(I, v, kind='np'):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (SList, tuple)):
        return np_array(I, v)
    if isinstance(v, bool) or isinstance(v, SBool):
        return Arr(kind, (), P(v), 'bool')
    if isnum(v):
        return Arr(kind, (), P(v), kindof(v))
    if isinstance(v, SQobj):
        return Arr(kind, v.shape or (), v.nc, 'complex')
    if v is None or isinstance(v, (str, SObj, FamObj, SDict)):
        raise PyRaise(TypeError('not a numeric array'))
    raise Unsupported(f'array from {type(v).__name__}')


SELECT = {}


def selector(N, k, cnt):
    """r -> the r-th index k < N with cnt(k) = 1."""
    kk = VAR('$sel', 'I')
    c = merge_compl(cnt.subst({k: Poly.atom(kk)}))
    if any(x.name.startswith('%') for x in (c.fv | N.fv) - {kk}):
        raise Unsupported('filtered list inside a loop')
    name = f'sel[{N.key}|{c.key}]'

    def sel(r):
        return Poly.atom(APP(name, (r,), 'I'))

    def ax(args):
        me = sel(args[0])
        j = fresh_bound()
        out = ind_lit('<', args[0]) + ind_lit('<=', sum_range(j, ZEROP, N, c.subst({kk: Poly.atom(j)})) - args[0])
        return [out + (ONEP - out) * ind_lit('<=', -me) * ind_lit('<', me - N) * c.subst({kk: me})]

    def mv(m, args):
        r = int(args[0])
        for i in range(int(m.poly(N))):
            if m.poly(c.subst({kk: Poly.const(i)})):
                if r == 0:
                    return i
                r -= 1
        return 0
    AXIOM[name], MODELV[name], SELECT[name] = ax, mv, (N, kk, c)
    return sel


def selector2(N, k, M, j, cnt):
    """r -> (the indices k, j of the r-th pair k < N, j < M(k) with cnt(k, j) = 1),
    pairs in lexical order."""
    kk, jj = VAR('$sel', 'I'), VAR('$selj', 'I')
    K, J = Poly.atom(kk), Poly.atom(jj)
    c, m = merge_compl(cnt.subst({k: K, j: J})), M.subst({k: K})
    if any(x.name.startswith('%') for x in (c.fv | N.fv | m.fv) - {kk, jj}):
        raise Unsupported('filtered list inside a loop')
    names = [f'sel{i}[{N.key}|{m.key}|{c.key}]' for i in '12']

    def sel(r):
        return [Poly.atom(APP(x, (r,), 'I')) for x in names]

    def before(e, t):
        """Number of selected pairs before (e, t)."""
        a, b = fresh_bound(), fresh_bound()
        A, B = Poly.atom(a), Poly.atom(b)
        return sum_range(a, ZEROP, e, sum_range(b, ZEROP, m.subst({kk: A}), c.subst({kk: A, jj: B}))) \
            + sum_range(b, ZEROP, t, c.subst({kk: e, jj: B}))

    def ax(args):
        x, y = sel(args[0])
        mx = m.subst({kk: x})
        out = ind_lit('<', args[0]) + ind_lit('<=', before(N, ZEROP) - args[0])
        return [out + (ONEP - out) * ind_lit('<=', -x) * ind_lit('<', x - N) * ind_lit('<=', -y)
                * ind_lit('<', y - mx) * c.subst({kk: x, jj: y})]

    def mv(which):
        def f(mo, args):
            r = int(args[0])
            for a in range(int(mo.poly(N))):
                for b in range(int(mo.poly(m.subst({kk: Poly.const(a)})))):
                    if mo.poly(c.subst({kk: Poly.const(a), jj: Poly.const(b)})):
                        if r == 0:
                            return (a, b)[which]
                        r -= 1
            return 0
        return f
    for i, x in enumerate(names):
        AXIOM[x], MODELV[x] = ax, mv(i)
        SELECT2[x] = (i, kk, jj, c, before)
    return sel


SELECT2 = {}


def all_apps(p, out):
    """Applications of selecting functions anywhere in p, innermost first."""
    for a in p.atoms():
        if 'sel' not in a.key or a.key in out:
            continue
        if a.kind == 'app':
            for x in a.args:
                all_apps(x, out)
            if a.fn in SELECT or a.fn in SELECT2:
                out[a.key] = a
        elif a.kind == 'sum':
            all_apps(a.body, out)
        elif a.kind in ('ind', 'poly'):
            all_apps(a.poly, out)
    return out


def resolve_sel(I, p):
    """sel(number of selected indices before t) = t where t is selected."""
    if isinstance(p, NC) or 'sel' not in p.key:
        return p
    for a in all_apps(p, {}).values():
        if not a.fv <= p.fv:
            continue
        if a.fn in SELECT2:
            which, kk, jj, c, before = SELECT2[a.fn]
            xs = sorted((x for x in a.args[0].fv if x.kind == 'var' and x.sort == 'I'),
                        key=lambda x: x.key)
            for x in xs:
                for y in xs:
                    t, u = Poly.atom(x), Poly.atom(y)
                    if x is not y and prove_zero(a.args[0] - before(t, u), I.ctx()) \
                            and I.ctx().entails(c.subst({kk: t, jj: u})):
                        return resolve_sel(I, replace_atom(p, a, (t, u)[which]))
        if a.fn in SELECT:
            N, kk, c = SELECT[a.fn]
            for x in a.args[0].fv:
                if x.kind == 'var' and x.sort == 'I':
                    t, j = Poly.atom(x), fresh_bound()
                    if prove_zero(a.args[0] - sum_range(j, ZEROP, t, c.subst({kk: Poly.atom(j)})), I.ctx()) \
                            and I.ctx().entails(c.subst({kk: t})):
                        return resolve_sel(I, replace_atom(p, a, t))
    return p


_opaque = [0]


def leaf_item(items):
    for it in items:
        if isinstance(it, Seg):
            for _, xs in it.nest:
                x = leaf_item(xs)
                if x is not None:
                    return x
        else:
            return it
    return None


def fresh_pos():
    """Position in a list while the indices of its items are moved up by one;
    lists nest, so each has its own."""
    _opaque[0] += 1
    return VAR(f'$pos{_opaque[0]}', 'I')


def rows_array(I, items, n, kind, dtype):
    """Array of a list with filtered or nested segments."""
    it = items[0]
    if len(items) == 1 and not it.nested and all(len(xs) <= 1 for _, xs in it.cases):
        full = [(c, xs[0]) for c, xs in it.cases if xs]
        tot = ZEROP
        for c, _ in full:
            tot = tot + c
        pos = fresh_pos()
        at = selector(it.N, it.k, tot)(Poly.atom(pos))
        val = ZEROP
        shape = None
        for c, x in full:
            sub = as_arr(I, subst_value(x, {it.k: at}), kind)
            p = ssubst(entries(sub), {IX[j]: IXP[j + 1] for j in range(sub.ndim)})
            if shape is not None and sub.shape != shape:
                raise Unsupported('rows of different shapes')
            shape = sub.shape
            val = val + (p if len(full) == 1 else c.subst({it.k: at}) * p)
        return Arr(kind, (n,) + tuple(shape), val.subst({pos: IXP[0]}),
                   dtype or sub.dtype)
    outer = [x for x in it.nest if x[1]] if len(items) == 1 and it.nested else []
    if outer and all(len(xs) == 1 and isinstance(xs[0], Seg) and not xs[0].nested
                     and all(len(ys) <= 1 for _, ys in xs[0].cases) for _, xs in outer):
        inn = outer[0][1][0]
        full, tot = [], ZEROP
        for c0, (x,) in outer:
            if x.N != inn.N:
                raise Unsupported('array of a filtered list')
            for c, ys in x.cases:
                if ys:
                    c = c0 * c.subst({x.k: Poly.atom(inn.k)})
                    full.append((c, subst_value(ys[0], {x.k: Poly.atom(inn.k)})))
                    tot = tot + c
        pos = fresh_pos()
        a, b = selector2(it.N, it.k, inn.N, inn.k, tot)(Poly.atom(pos))
        mp = {it.k: a, inn.k: b}
        val, shape = ZEROP, None
        for c, x in full:
            sub = as_arr(I, subst_value(x, mp), kind)
            p = ssubst(entries(sub), {IX[j]: IXP[j + 1] for j in range(sub.ndim)})
            if shape is not None and sub.shape != shape:
                raise Unsupported('rows of different shapes')
            shape = sub.shape
            val = val + (p if len(full) == 1 else c.subst(mp) * p)
        return Arr(kind, (n,) + tuple(shape), val.subst({pos: IXP[0]}), dtype or sub.dtype)
    x = leaf_item(items)
    sub = as_arr(I, x, kind) if not isinstance(x, FamObj) else None
    if sub is None or any(y.name.startswith('%') for d in sub.shape for y in d.fv):
        raise Unsupported('array of a filtered list')
    _opaque[0] += 1
    return Arr(kind, (n,) + tuple(sub.shape), Poly.atom(APP(
        f'opaque#{_opaque[0]}', tuple(IXP[:1 + sub.ndim]), 'R')), dtype or sub.dtype)


def np_array(I, v, kind='np', dtype=None):
    """np.array / torch.tensor of nested lists."""
    if isinstance(v, Arr):
        return Arr(kind, v.shape, v.val, dtype or v.dtype, **meta_of(v))
    if isinstance(v, (SQobj,)):
        return Arr(kind, v.shape, v.nc, 'complex', opmat=True)
    if not isinstance(v, (SList, tuple)):
        a = as_arr(I, v, kind)
        return Arr(kind, a.shape, a.val, dtype or a.dtype)
    items = list(v) if isinstance(v, tuple) else v.items
    n = I.models.length(I, SList(items))
    if not items:
        return Arr(kind, (ZEROP,), ZEROP, 'float')
    if not any(isinstance(it, Hist) for it in items) and any(
            isinstance(it, Seg) and not it.is_uniform() for it in items):
        return rows_array(I, items, n, kind, dtype)
    val = ZEROP
    shape = None
    off = ZEROP
    dts = []
    for it in items:
        if isinstance(it, Hist):
            raise Unsupported('array of a list under construction')
        if isinstance(it, Seg):
            if not it.is_uniform():
                raise Unsupported('array of a filtered list')
            x = it.item(IXP[0] - off)
            sub = as_arr(I, x, kind)
            g = ind_lit('<=', off - IXP[0]) * ind_lit('<=', IXP[0] - off - it.N + ONEP)
            p = entries(sub)
            # the item's own indices move up by one; IX0 is the position
            tmpvar = fresh_pos()
            x = it.item(Poly.atom(tmpvar) - off)
            sub = as_arr(I, x, kind)
            p = ssubst(entries(sub), {IX[j]: IXP[j + 1] for j in range(sub.ndim)})
            p = p.subst({tmpvar: IXP[0]})
            off = off + it.N
        else:
            sub = as_arr(I, it, kind)
            g = ind_lit('=', IXP[0] - off)
            p = ssubst(entries(sub), {IX[j]: IXP[j + 1] for j in range(sub.ndim)})
            off = off + ONEP
        dts.append(sub.dtype)
        if shape is None:
            shape = sub.shape
        elif len(shape) != len(sub.shape):
            raise PyRaise(ValueError('inhomogeneous array'))
        if len(items) == 1 and isinstance(items[0], Seg):
            g = ONEP
        val = val + g * p
    return Arr(kind, (n,) + tuple(shape), val, dtype or dt_join(*dts))


def arr_result(kind, shape, val, dtype, **meta):
    if not shape and kind == 'np':
        if dtype == 'bool':
            return mkbool(val)
        return num(val, {'float': 'float', 'complex': 'complex', 'int': 'int'}[dtype])
    return Arr(kind, shape, val, dtype, **meta)


def matmul(I, A, B, kind):
    for x in (A, B):
        z = x.meta.get('zero_if')
        if z is not None and not z.is_zero() and I.decide(z):
            raise Unsupported('matrix product with a plain zero')
    dt = dt_join(A.dtype, B.dtype)
    meta = meta_of(A, B)
    if A.ndim == 0 or B.ndim == 0:
        raise PyRaise(ValueError('matmul: scalar operand'))
    x, y = A.shape[-1], B.shape[0] if B.ndim == 1 else B.shape[-2]
    if x != y and not prove_zero(x - y, I.ctx()):
        if x is not None and y is not None:
            if I.decide(ind_lit('!=', x - y)):
                raise PyRaise(ValueError('matmul: shape mismatch'))
    if kind == 'torch':
        meta['sparse'] = bool(A.meta.get('sparse') and B.meta.get('sparse'))
    isnc = isinstance(A.val, NC) or isinstance(B.val, NC)
    if isnc and A.ndim == 2 and B.ndim == 2:
        a, b = to_nc(A), to_nc(B)
        return Arr(kind, (A.shape[0], B.shape[1]), a * b, dt, **meta)
    if isnc and A.ndim == 2 and B.ndim == 1:
        return Arr(kind, (A.shape[0],), to_nc(A) * to_nc(B), dt, **meta)
    pa, pb = entries(A), entries(B)
    k = I.fresh('m')
    K = Poly.atom(k)
    if A.ndim == 1 and B.ndim == 1:
        v = sum_range(k, ZEROP, x, pa.subst({IX[0]: K}) * pb.subst({IX[0]: K}))
        return arr_result(kind, (), v, dt)
    if A.ndim == 2 and B.ndim == 2:
        v = sum_range(k, ZEROP, x, pa.subst({IX[1]: K}) * ssubst(pb, {IX[0]: K}))
        return Arr(kind, (A.shape[0], B.shape[1]), v, dt, **meta)
    if A.ndim == 2 and B.ndim == 1:
        v = sum_range(k, ZEROP, x, pa.subst({IX[1]: K}) * pb.subst({IX[0]: K}))
        return Arr(kind, (A.shape[0],), v, dt, **meta)
    if A.ndim == 1 and B.ndim == 2:
        v = sum_range(k, ZEROP, x, pa.subst({IX[0]: K}) * ssubst(pb, {IX[0]: K, IX[1]: IXP[0]}))
        return Arr(kind, (B.shape[1],), v, dt, **meta)
    raise Unsupported('matmul of these shapes')


def sparse_result(op, A, B):
    sa, sb = A.meta.get('sparse'), B.meta.get('sparse')
    if A.ndim == 0:
        return bool(sb)
    if B.ndim == 0:
        return bool(sa)
    return bool(sa and sb)


class IdxPlan:
    """How an index expression maps result indices to parent indices."""
    def __init__(self):
        self.shape = []
        self.sub = {}       # parent dim -> Poly in result IX
        self.guard = []     # (parent dim, kind, data) for writes
        self.fancy = False


def _norm_idx(I, i, n):
    p = P(i)
    c = p.as_int()
    if c is not None:
        return p + n if c < 0 else p
    if I.decide(ind_lit('<', p)):
        p = p + n
    return p


def plan_index(I, a, idx):
    idx = GR.at_point(I, a, idx)
    if isinstance(idx, SList) and getattr(idx, 'is_tuple', False):
        idx = rank_index(I, a, idx)
    if not isinstance(idx, tuple):
        idx = (idx,)
    nd = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if nd > a.ndim:
        raise PyRaise(IndexError('too many indices for array'))
    if any(x is Ellipsis for x in idx):
        k = next(i for i, x in enumerate(idx) if x is Ellipsis)
        idx = idx[:k] + (slice(None),) * (a.ndim - nd) + idx[k + 1:]
    else:
        idx = tuple(idx) + (slice(None),) * (a.ndim - nd)
    pl = IdxPlan()
    d = 0
    for x in idx:
        r = len(pl.shape)
        if x is None:
            pl.shape.append(ONEP)
            continue
        n = a.shape[d]
        if isinstance(x, slice):
            if x.step not in (None, 1):
                if x.step == -1 and x.start is None and x.stop is None:
                    pl.shape.append(n)
                    pl.sub[d] = n - ONEP - IXP[r]
                    pl.guard.append((d, 'rev', (r, n)))
                    d += 1
                    continue
                raise Unsupported('array slice step')

            def bound(v, dflt):
                if v is None:
                    return dflt
                v = _norm_idx(I, v, n)
                if v == n:
                    return v
                if I.decide(ind_lit('<', n - v)):
                    return n
                return v
            lo, hi = bound(x.start, ZEROP), bound(x.stop, n)
            ln = hi - lo
            if not lo.is_zero() or hi != n:
                if I.decide(ind_lit('<', ln)):
                    ln = ZEROP
            pl.shape.append(ln)
            pl.sub[d] = IXP[r] + lo
            pl.guard.append((d, 'slice', (r, lo, lo + ln, n)))
        elif isinstance(x, (int, SNum, SBool)) or isinstance(x, Arr) and x.ndim == 0:
            if isinstance(x, SNum) and x.kind != 'int' or isinstance(x, Arr) and x.dtype not in (
                    'int', 'bool'):
                raise PyRaise(IndexError('only integers are valid indices'))
            p = _norm_idx(I, x, n)
            if not I.ctx().entails(ind_lit('<', p - n)):
                if I.decide(ind_lit('<=', n - p)):
                    raise PyRaise(IndexError('index out of bounds'))
            pl.sub[d] = p
            pl.guard.append((d, 'int', p))
        elif isinstance(x, (Arr, SList)) or isinstance(x, ExtObj) and x.kind == 'range':
            x = as_arr(I, x if not isinstance(x, ExtObj) else SList(I.models.iter_items(I, x)))
            if x.ndim != 1:
                raise Unsupported('index array with several axes')
            if x.dtype == 'bool':
                if pl.fancy:
                    raise Unsupported('several index arrays')
                if not prove_zero(x.shape[0] - n, I.ctx()):
                    raise Unsupported('mask of another length')
                pl.fancy = True
                m = entries(x)
                pl.shape.append(count(I, m, n))
                pl.sub[d] = selector(n, IX[0], m)(IXP[r])
                pl.guard.append((d, 'mask', (r, m)))
                d += 1
                continue
            if pl.fancy:
                # index arrays side by side run together
                prev = [g for g in pl.guard if g[1] == 'fancy']
                if not prev or prev[-1][0] != d - 1 or not prove_zero(
                        prev[-1][2][1].shape[0] - x.shape[0], I.ctx()):
                    raise Unsupported('several index arrays')
                r = prev[-1][2][0]
                pl.sub[d] = entries(x).subst({IX[0]: IXP[r]})
                pl.guard.append((d, 'fancy', (r, x)))
                d += 1
                continue
            pl.fancy = True
            pl.shape.append(x.shape[0])
            pl.sub[d] = entries(x).subst({IX[0]: IXP[r]})
            pl.guard.append((d, 'fancy', (r, x)))
        else:
            raise PyRaise(IndexError('invalid index'))
        d += 1
    return pl


def count(I, m, n):
    """Number of indices below n where the mask (in IX[0]) holds."""
    k = fresh_bound()
    return sum_range(k, ZEROP, n, m.subst({IX[0]: Poly.atom(k)}))


def resolve_with(I, p, *facts):
    """resolve_sel under additional facts."""
    class Local:
        def ctx(self):
            return I.ctx().plus(*facts)
    return resolve_sel(Local(), p)


def arr_getitem(I, a, idx):
    if isinstance(idx, Arr) and idx.dtype == 'bool' and idx.ndim > 1:
        raise Unsupported('mask index')
    if a.meta.get('idxmap') is not None:
        return a.meta['idxmap'](I, a, idx)
    g = GR.info_of(a)
    if isinstance(g, GR.Block):
        return GR.block_slice(I, a, g, idx)
    if isinstance(idx, ExtObj) and idx.kind == 'diagidx':
        return arr_result(a.kind, (a.shape[0],), ssubst(entries(a), {IX[1]: IXP[0]}), a.dtype)
    pl = plan_index(I, a, idx)
    rows = a.meta.get('rows')
    if rows is not None and a.ndim == 2 and len(pl.guard) == 2 and pl.guard[0][1] == 'int' \
            and len(pl.shape) == 1 and pl.shape[0] == a.shape[1]:
        return Arr(a.kind, (a.shape[1],), NC.sym(rows, pl.guard[0][2]), a.dtype,
                   **{k: v for k, v in a.meta.items() if k in ('grad',)})
    mp = {IX[d]: p for d, p in pl.sub.items()}
    nd = a.ndim
    par = a
    sh = tuple(pl.shape)
    if isinstance(a.val, NC) and nd == 2 and len(sh) == 2 and all(
            g[1] == 'slice' and g[2][1].is_zero() and g[2][2] == g[2][3] for g in pl.guard):
        return a

    def read(v):
        e = v.entry(*IXP[:nd]) if isinstance(v, NC) else v
        return resolve_sel(I, ssubst(e, mp))

    def write(newval):
        v = newval
        cur = entries(par)
        g = ONEP
        back = {}
        for d, k, data in pl.guard:
            if k == 'int':
                g = g * ind_lit('=', IXP[d] - data)
            elif k == 'slice':
                r, lo, hi, n = data
                if not lo.is_zero():
                    g = g * ind_lit('<=', lo - IXP[d])
                if hi != n:
                    g = g * ind_lit('<=', IXP[d] - hi + ONEP)
                back[IX[r]] = IXP[d] - lo
            elif k == 'rev':
                r, n = data
                back[IX[r]] = n - ONEP - IXP[d]
            else:
                raise Unsupported('store through an index array')
        pe = read(cur)
        d1 = v - pe
        if pe.is_zero() or len(d1.t) < len(v.t) or g == ONEP:
            if g == ONEP:
                I.set_store(par, ssubst(v, back))
            else:
                I.set_store(par, cur + g * ssubst(d1, back))
        else:
            I.set_store(par, cur * (ONEP - g) + g * ssubst(v, back))
    if not sh and a.kind == 'np':
        return arr_result('np', (), read(a.val), a.dtype)
    if pl.fancy:
        return arr_result(a.kind, sh, read(a.val), a.dtype, **meta_of(a))
    m = {}
    if a.meta.get('grad'):
        m['grad'] = True
    return Arr(a.kind, sh, None, a.dtype, view=(a, read, write), **m)


def arr_setitem(I, a, idx, v):
    if isinstance(idx, ExtObj) and idx.kind == 'diagidx':
        v = as_arr(I, v)
        pv = entries(v)
        cur = entries(a)
        eqd = ind_lit('=', IXP[0] - IXP[1])
        d = ssubst(cur, {IX[1]: IXP[0]})
        I.set_store(a, cur + eqd * (pv - d))
        return
    if isinstance(idx, Arr) and idx.dtype == 'bool' and idx.ndim == a.ndim and idx.ndim:
        if not all(prove_zero(x - y, I.ctx()) for x, y in zip(a.shape, idx.shape)):
            raise Unsupported('mask of another shape')
        v = as_arr(I, v)
        if v.ndim:
            raise Unsupported('store of an array through a mask')
        m, cur = entries(idx), entries(a)
        I.set_store(a, cur + m * (entries(v) - cur))
        return
    pl = plan_index(I, a, idx)
    if isinstance(v, (SQobj,)):
        raise PyRaise(TypeError('cannot store an operator into an array'))
    sub = as_arr(I, v)
    sh = tuple(pl.shape)
    if a.dtype in ('float', 'int') and sub.dtype == 'complex' and a.kind == 'np':
        raise PyRaise(TypeError('complex into float array'))
    while len(sub.shape) > len(sh) and sub.shape[0] == ONEP:
        # numpy accepts leading axes of length 1
        sub = Arr(sub.kind, sub.shape[1:], ssubst(entries(sub).subst({IX[0]: ZEROP}), {
            IX[j]: IXP[j - 1] for j in range(1, sub.ndim)}), sub.dtype)
    if len(sub.shape) > len(sh):
        raise Unsupported('store with extra axes')
    probe = Arr('np', sh, ZEROP, 'float')
    _, _, pv = broadcast(I, probe, sub)
    if not sh:
        view = None
    nd = a.ndim
    if pl.fancy:
        return fancy_store(I, a, pl, pv)
    g = ONEP
    back = {}
    for d, k, data in pl.guard:
        if k == 'int':
            g = g * ind_lit('=', IXP[d] - data)
        elif k == 'slice':
            r, lo, hi, n = data
            if not lo.is_zero():
                g = g * ind_lit('<=', lo - IXP[d])
            if hi != n:
                g = g * ind_lit('<=', IXP[d] - hi + ONEP)
            back[IX[r]] = IXP[d] - lo
        elif k == 'rev':
            r, n = data
            back[IX[r]] = n - ONEP - IXP[d]
        else:
            raise Unsupported('store through an index array')
    cur = entries(a)
    pe = ssubst(cur, {IX[d]: p for d, p in pl.sub.items()})
    d1 = pv - pe
    if g == ONEP:
        I.set_store(a, ssubst(pv, back))
    elif pe.is_zero() or len(d1.t) < len(pv.t):
        I.set_store(a, cur + g * ssubst(d1, back))
    else:
        I.set_store(a, cur * (ONEP - g) + g * ssubst(pv, back))


def fancy_store(I, a, pl, pv):
    """a[.., list, ..] = v with distinct indices in the list, or a mask for it."""
    g, at, back = ONEP, [], {}
    for d, k, data in pl.guard:
        if k == 'int':
            g = g * ind_lit('=', IXP[d] - data)
        elif k == 'fancy':
            at.append((d, *data))
        elif k == 'mask':
            r, m = data
            m = m.subst({IX[0]: IXP[d]})
            t = fresh_bound()
            g = g * m
            back[IX[r]] = sum_range(t, ZEROP, IXP[d], data[1].subst({IX[0]: Poly.atom(t)}))
        elif k == 'slice' and data[1].is_zero() and data[2] == data[3]:
            back[IX[data[0]]] = IXP[d]
        else:
            raise Unsupported('store through an index array')
    cur = entries(a)
    if not at:
        new = ssubst(pv, back)
        new = resolve_with(I, new, g) if 'sel[' in new.key else new
        I.set_store(a, cur + g * (new - cur))
        return
    k, k2 = I.fresh('k'), I.fresh('k')
    K, K2 = Poly.atom(k), Poly.atom(k2)
    n = at[0][2].shape[0]
    ctx = I.ctx().plus(ind_lit('<=', -K), ind_lit('<', K - K2), ind_lit('<', K2 - n))
    if not any(LP.inj_poly(ix.subst({IX[0]: K}), k) or prove_zero(
            ind_lit('=', ix.subst({IX[0]: K}) - ix.subst({IX[0]: K2})), ctx)
            for ix in [entries(x) for _, _, x in at]):
        raise Unsupported('store through an index array with repetitions')
    here = ONEP
    for d, r, x in at:
        here = here * ind_lit('=', entries(x).subst({IX[0]: K}) - IXP[d])
    hit = sum_range(k, ZEROP, n, here)
    new = sum_range(k, ZEROP, n, here * ssubst(ssubst(pv, back), {IX[r]: K}))
    I.set_store(a, cur + g * (new - cur * hit) if not cur.is_zero() else g * new)


@ext('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero')
def _where(I, c, *ab):
    c = as_arr(I, c)
    if ab:
        x, y = ab
        sh, pc, px = broadcast(I, c, as_arr(I, x))
        sh, pc2, py = broadcast(I, Arr('np', sh, pc, 'bool'), as_arr(I, y))
        sh, px2, _ = broadcast(I, Arr('np', sh, px, 'float'), Arr('np', sh, py, 'float'))
        return arr_result('np', sh, py + pc2 * (px2 - py), dt_join(arr_dtype(x), arr_dtype(y)))
    if c.ndim != 1 or c.dtype != 'bool':
        raise Unsupported('where')
    m = entries(c)
    return (Arr('np', (count(I, m, c.shape[0]),), selector(c.shape[0], IX[0], m)(IXP[0]), 'int'),)


@ext('numpy.delete')
def _delete(I, a, idx, axis=None):
    a, x = as_arr(I, a), as_arr(I, idx)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('delete from a flattened array')
        axis = 0
    if not isinstance(axis, int) or x.ndim != 1:
        raise Unsupported('delete')
    axis = axis % a.ndim
    n = a.shape[axis]
    if x.shape[0].is_zero():
        return Arr(a.kind, a.shape, a.val, a.dtype)
    if x.dtype == 'bool':
        c = entries(x)
    else:
        e = entries(x)
        at = next((y for y in e.atoms() if y.kind == 'app' and y.fn in SELECT), None)
        if at is None or e != Poly.atom(at) or at.args != (IXP[0],):
            raise Unsupported('delete of these indices')
        N, kk, c = SELECT[at.fn]
        c = c.subst({kk: IXP[0]})
        if not prove_zero(N - n, I.ctx()) or not prove_zero(x.shape[0] - count(I, c, N), I.ctx()):
            raise Unsupported('delete of these indices')
    keep = merge_compl(ONEP - c)
    at = selector(n, IX[0], keep)(IXP[axis])
    sh = list(a.shape)
    sh[axis] = n - count(I, c, n)
    return Arr(a.kind, tuple(sh), entries(a).subst({IX[axis]: at}), a.dtype)


def arr_iter(I, a):
    if a.ndim == 0:
        raise PyRaise(TypeError('iteration over a 0-d array'))
    n = a.shape[0]
    c = n.as_int()
    if c is not None and c <= 12:
        return [arr_getitem(I, a, i) for i in range(c)]
    k = I.fresh('k')
    p = entries(a)
    sub = {IX[0]: Poly.atom(k)}
    for j in range(1, a.ndim):
        sub[IX[j]] = IXP[j - 1]
    item = arr_result(a.kind, a.shape[1:], ssubst(p, sub), a.dtype)
    return [Seg.uniform(n, k, item)]


def map_scalar(I, v, f, out=None):
    """Apply a scalar function to a number or an array."""
    if isinstance(v, (SList, tuple)):
        v = np_array(I, v)
    if isinstance(v, Arr):
        m = {'grad': True} if v.meta.get('grad') else {}
        if v.meta.get('sparse'):
            m['sparse'] = True
        return arr_result(v.kind, v.shape, f(entries(v)), out or v.dtype, **m)
    if isnum(v):
        return num(f(P(v)), out or kindof(v))
    if isinstance(v, (SQobj, str)) or v is None:
        raise PyRaise(TypeError('bad argument for a numeric function'))
    raise Unsupported(f'numeric function of {type(v).__name__}')


def scalar_fn(name, fn, out='float'):
    def g(I, v, dtype=None):
        o = out
        if isinstance(v, Arr) and v.dtype == 'complex' or isinstance(v, SNum) and v.kind == 'complex':
            o = 'complex'
        return map_scalar(I, v, fn, o)
    for lib in ('numpy', 'torch', 'math'):
        F[f'{lib}.{name}'] = g


for _n in ('exp', 'log', 'sin', 'cos', 'tanh', 'sinh', 'cosh', 'sqrt', 'sign', 'tan', 'arctan'):
    scalar_fn(_n, lambda p, _n=_n: f_fun(_n, p))


@ext('numpy.abs', 'torch.abs', 'numpy.absolute')
def _abs(I, v):
    if isinstance(v, Arr):
        return map_scalar(I, v, f_abs, 'float' if v.dtype == 'complex' else v.dtype)
    if isnum(v):
        return map_scalar(I, v, f_abs, 'float' if kindof(v) == 'complex' else kindof(v))
    return map_scalar(I, v, f_abs, 'float')


def f_real(p):
    if p.sort() != 'C':
        return p
    return (p + p.conj()).scale(Fraction(1, 2))


def f_imag(p):
    if p.sort() != 'C':
        return ZEROP
    return ((p - p.conj()) * IUNIT).scale(Fraction(-1, 2))


@ext('numpy.real', 'torch.real')
def _real(I, v):
    if isinstance(v, Arr) and isinstance(v.val, NC) and v.dtype != 'complex':
        return v
    return map_scalar(I, v, f_real, 'float')


@ext('numpy.imag', 'torch.imag')
def _imag(I, v):
    return map_scalar(I, v, f_imag, 'float')


@ext('numpy.conj', 'torch.conj', 'numpy.conjugate')
def _conj(I, v):
    if isinstance(v, Arr) and isinstance(v.val, NC):
        return Arr(v.kind, v.shape, v.val.conj(), v.dtype, **v.meta)
    return map_scalar(I, v, lambda p: p.conj())


@ext('numpy.round', 'numpy.around')
def _round(I, v, n=0):
    return map_scalar(I, v, lambda p: f_round(p, P(n)), None)


@ext('torch.round')
def _tround(I, v):
    return map_scalar(I, v, lambda p: f_round(p, ZEROP), None)


def f_round(p, n):
    """np.round(x, n) = round(x * 10**n) / 10**n."""
    k = n.as_int()
    if k is None:
        return Poly.atom(APP('round', (p, n), 'R'))
    if SY.rounded(k):
        return p
    if p.is_const() and p.as_int() is not None and k >= 0:
        return p
    s = Poly.const(Fraction(10) ** k)
    srt = 'C' if p.sort() == 'C' else 'R'
    q = p * s
    if q.is_zero():
        return q
    if f_neg(q):
        return -f_round(-p, n)
    return Poly.atom(APP('rint', (q,), srt)) * s.inv()


def f_neg(p):
    from .terms import f_neg_lead
    return f_neg_lead(p)


@ext('numpy.floor', 'torch.floor', 'math.floor')
def _floor(I, v):
    return map_scalar(I, v, lambda p: f_fun('floor', p))


@ext('numpy.ceil', 'torch.ceil', 'math.ceil')
def _ceil(I, v):
    return map_scalar(I, v, lambda p: -f_fun('floor', -p))


@ext('numpy.isnan', 'torch.isnan')
def _isnan(I, v):
    if isinstance(v, Arr) and v.ndim:
        I.assumed.add('no NaN in arrays')
        return arr_result(v.kind, v.shape, ZEROP, 'bool')
    # not-a-number is a property of the value the solver knows nothing about
    return mkbool(ind_lit('=', Poly.atom(APP('isnan', (P(v),), 'I')) - ONEP))


@ext('torch.pow', 'numpy.power')
def _pow(I, x, a):
    return I.models.binop(I, 'Pow', x, a)


def _mm(I, a, b, gt):
    A, B = as_arr(I, a), as_arr(I, b)
    shape, pa, pb = broadcast(I, A, B)
    if shape:
        c = ind_lit('<=', pb - pa) if gt else ind_lit('<=', pa - pb)
        return Arr('np', shape, c * pa + (ONEP - c) * pb, dt_join(A.dtype, B.dtype))
    r = I.decide(ind_lit('<=', pb - pa) if gt else ind_lit('<=', pa - pb))
    return num(pa if r else pb, kmax(kindof(A), kindof(B)))


@ext('numpy.maximum')
def _maximum(I, a, b):
    return _mm(I, a, b, True)


@ext('numpy.minimum')
def _minimum(I, a, b):
    return _mm(I, a, b, False)


@ext('scipy.special.kve')
def _kve(I, n, x):
    return map_scalar(I, x, lambda p: Poly.atom(APP('k0e' if P(n).is_zero() else 'kve',
                                                    (p,) if P(n).is_zero() else (P(n), p), 'R',
                                                    True)), 'float')


@ext('torch.special.scaled_modified_bessel_k0')
def _k0e(I, x):
    return map_scalar(I, x, lambda p: Poly.atom(APP('k0e', (p,), 'R', True)), 'float')


# ---------------------------------------------------------- creation

def dtype_of(d, default='float'):
    if d is None:
        return default
    if isinstance(d, Builtin):
        return {'int': 'int', 'float': 'float', 'complex': 'complex', 'bool': 'bool'}[d.name]
    if isinstance(d, Ext):
        n = d.name.split('.')[-1]
        if n.startswith('complex') or n == 'cdouble':
            return 'complex'
        if n.startswith('float') or n == 'double':
            return 'float'
        if n.startswith('int') or n == 'long':
            return 'int'
        if n == 'bool':
            return 'bool'
    if isinstance(d, str):
        return {'c': 'complex', 'f': 'float', 'i': 'int'}.get(d[0], default)
    if isinstance(d, ExtObj) and d.kind == 'dtype':
        return d.data['name']
    raise Unsupported('dtype')


def shape_of(I, s):
    if isinstance(s, (SList, tuple)):
        items = list(s) if isinstance(s, tuple) else s.items
        if any(isinstance(x, Seg) for x in items):
            raise Unsupported('shape of unknown rank')
        return tuple(P(x) for x in items)
    return (P(s),)


def only(kw, *names):
    """Options that do not matter; any other is outside the fragment."""
    for k in kw:
        if k not in names:
            raise Unsupported(f'option {k}')


def _full(kind, v):
    def f(I, *s, dtype=None, requires_grad=False, **kw):
        only(kw, 'device', 'order')
        if len(s) == 1 and isinstance(s[0], SList) and kind == 'np':
            seg = [(i, x) for i, x in enumerate(s[0].items) if isinstance(x, Seg)]
            if len(seg) == 1 and seg[0][1].is_uniform():
                # axes of unknown number: one axis for the rank of the index vector
                T, d, size = ranks(I, seg[0][1])
                sh = [T if isinstance(x, Seg) else P(x) for x in s[0].items]
                return Arr(kind, sh, v, dtype_of(dtype), vec=(seg[0][0], d, size))
        sh = shape_of(I, s[0]) if len(s) == 1 else tuple(P(x) for x in s)
        return Arr(kind, sh, v, dtype_of(dtype))
    return f


F['numpy.zeros'] = _full('np', ZEROP)
F['torch.zeros'] = _full('torch', ZEROP)
F['numpy.ones'] = _full('np', ONEP)
F['torch.ones'] = _full('torch', ONEP)


def _like(kind, v):
    def f(I, a, dtype=None, **kw):
        only(kw, 'device', 'order')
        a = as_arr(I, a)
        return Arr(kind, a.shape, v, dtype_of(dtype) if dtype is not None else a.dtype)
    return f


F['numpy.zeros_like'] = _like('np', ZEROP)
F['torch.zeros_like'] = _like('torch', ZEROP)
F['numpy.ones_like'] = _like('np', ONEP)
F['torch.ones_like'] = _like('torch', ONEP)


def _eye(kind):
    def f(I, n, m=None, k=0, dtype=None, **kw):
        only(kw, 'device', 'order')
        if P(k) != ZEROP:
            return Arr(kind, (P(n), P(n if m is None else m)),
                       ind_lit('=', IXP[0] + P(k) - IXP[1]), dtype_of(dtype))
        if m is not None and not prove_zero(P(m) - P(n), I.ctx()):
            return Arr(kind, (P(n), P(m)), ind_lit('=', IXP[0] - IXP[1]), dtype_of(dtype))
        return Arr(kind, (P(n), P(n)), NC.scalar(ONEP), dtype_of(dtype))
    return f


F['numpy.eye'] = F['numpy.identity'] = _eye('np')
F['torch.eye'] = _eye('torch')


@ext('numpy.array', 'numpy.asarray')
def _array(I, v, dtype=None, **kw):
    only(kw, 'copy', 'order')
    if isinstance(v, Arr) and v.kind == 'torch':
        if v.meta.get('grad'):
            raise PyRaise(RuntimeError('requires grad'))
    a = np_array(I, v, 'np', None if dtype is None else dtype_of(dtype))
    return a


@ext('torch.tensor')
def _tensor(I, v, dtype=None, requires_grad=False, **kw):
    only(kw, 'device')
    if isinstance(v, ExtObj) and v.kind == 'coopart':
        return v
    a = np_array(I, v, 'torch', None if dtype is None else dtype_of(dtype))
    if isinstance(v, Arr):
        a = Arr('torch', v.shape, v.val, a.dtype)
    if requires_grad is not False and I.truth(requires_grad):
        a.meta['grad'] = True
        a.meta['leaf'] = True
    else:
        a.meta['leaf'] = True
    return a


@ext('torch.as_tensor')
def _as_tensor(I, v, dtype=None, **kw):
    only(kw, 'device')
    if isinstance(v, Arr):
        dt = v.dtype if dtype is None else dtype_of(dtype)
        if v.kind == 'torch' and dt == v.dtype:
            return v
        if v.view is not None or dt != v.dtype:
            a = Arr('torch', v.shape, v.val, dt, **v.meta)
            if v.kind == 'torch' and dt != v.dtype:
                a.meta.pop('leaf', None)
            return a
        return Arr('torch', v.shape, None, dt, store=v.store, **v.meta)
    return np_array(I, v, 'torch', None if dtype is None else dtype_of(dtype))


F['torch.from_numpy'] = _as_tensor


@ext('torch.LongTensor', 'torch.Size')
def _lt(I, v):
    return v


@ext('numpy.arange')
def _arange(I, a, b=None, c=None):
    lo, hi = (ZEROP, P(a)) if b is None else (P(a), P(b))
    if c is not None and P(c) != ONEP:
        raise Unsupported('arange step')
    n = hi - lo
    return Arr('np', (n,), lo + IXP[0], 'int')


@ext('numpy.diag', 'torch.diag')
def _diag(I, v, k=0):
    if k != 0:
        raise Unsupported('diag offset')
    a = as_arr(I, v)
    if a.ndim == 1:
        e = entries(a)
        return Arr(a.kind, (a.shape[0], a.shape[0]), e * ind_lit('=', IXP[0] - IXP[1]), a.dtype)
    e = entries(a)
    return Arr(a.kind, (a.shape[0],), e.subst({IX[1]: IXP[0]}), a.dtype)


@ext('numpy.squeeze', 'torch.squeeze')
def _squeeze(I, v, dim=None, axis=None):
    a = as_arr(I, v)
    g = GR.info_of(a)
    if g is not None:
        if dim is not None or axis is not None:
            raise Unsupported('squeeze of one axis of a grid')
        return GR.drop(I, a, g)
    keep = [d for d in range(a.ndim) if a.shape[d] != ONEP]
    if dim is not None or axis is not None:
        dd = dim if dim is not None else axis
        keep = [d for d in range(a.ndim) if d != dd % a.ndim or a.shape[d] != ONEP]
    if len(keep) == a.ndim:
        return a
    mp = {IX[d]: ZEROP for d in range(a.ndim)}
    for r, d in enumerate(keep):
        mp[IX[d]] = IXP[r]
    return arr_result(a.kind, tuple(a.shape[d] for d in keep), ssubst(entries(a), mp), a.dtype)


@ext('torch.unsqueeze', 'numpy.expand_dims')
def _unsqueeze(I, v, dim):
    idx = [slice(None)] * v.ndim
    idx.insert(dim if dim >= 0 else v.ndim + 1 + dim, None)
    if isinstance(v.val, NC) and v.ndim == 1 and dim == 1:
        return Arr(v.kind, (v.shape[0], ONEP), v.val, v.dtype, **v.meta)
    return arr_getitem(I, v, tuple(idx))


@ext('numpy.transpose', 'torch.transpose', 'torch.t')
def _transpose(I, v, a=None, b=None, axes=None):
    if axes is not None:
        a = axes
    if GR.info_of(v) is not None:
        return GR.transpose(I, v, [x for x in (a, b) if x is not None])
    if v.ndim < 2:
        return v
    if v.ndim != 2:
        raise Unsupported('transpose')
    if a is not None:
        # torch swaps two axes, numpy takes an order
        o = [a, b] if b is not None else list(a.items if isinstance(a, SList) else a)
        if not all(isinstance(x, int) for x in o) or sorted(x % 2 for x in o) != [0, 1]:
            raise Unsupported('order of the axes')
        if v.kind != 'torch' and [x % 2 for x in o] == [0, 1]:
            return v
    m = {k: x for k, x in v.meta.items() if k in ('sparse', 'opmat', 'grad')}
    if isinstance(v.val, NC):
        return Arr(v.kind, (v.shape[1], v.shape[0]), v.val.trans(), v.dtype, **m)
    par = v

    def sw(e):
        return ssubst(e, {IX[0]: IXP[1], IX[1]: IXP[0]})

    def read(x):
        return sw(x.entry(*IXP[:2]) if isinstance(x, NC) else x)
    return Arr(v.kind, (v.shape[1], v.shape[0]), None, v.dtype,
               view=(par, read, lambda nv: I.set_store(par, sw(nv))), **m)


@ext('numpy.linalg.inv', 'torch.linalg.inv', 'scipy.linalg.inv')
def _inv(I, v):
    nc = to_nc(v)
    return Arr(v.kind, v.shape, nc.inv(), v.dtype)


def root_base(nc, real=True, sym=True):
    b = Base(f'sqrtm{{{nc.key}}}', kind='mat', real=real, sym=sym)
    b.inner = ('sqrtm', nc)
    b.fv = nc.fv
    return b


@ext('scipy.linalg.sqrtm')
def _sqrtm(I, v):
    nc = to_nc(v)
    w = next(iter(nc.t)) if len(nc.t) == 1 else ()
    sym = len(w) == 1 and w[0].base.sym and not w[0].inv and nc.t[w] == ONEP
    b = root_base(nc, v.dtype != 'complex', sym)
    if sym:
        # the root of a symmetric positive semidefinite matrix
        EXPAND[w[0].base.name] = (Letter(b), Letter(b))
    return Arr(v.kind, v.shape, NC.sym(b), v.dtype)


@ext('numpy.linalg.svd')
def _svd(I, v, full_matrices=True, **kw):
    """v = left diag(d) right, right orthogonal, d not negative."""
    if kw:
        raise Unsupported('svd options')
    a = to_nc(v)
    if len(a.t) != 1 or next(iter(a.t.values())) != ONEP or not prove_zero(
            v.shape[0] - v.shape[1], I.ctx()):
        raise Unsupported('svd of this matrix')
    fn = f'svd[{a.key}]'
    if fn not in AXIOM:
        fn = 'opaque#' + fn         # nothing known about the rank
    d = Poly.atom(APP(fn, (IXP[0],), 'R'))
    AXIOM.setdefault(fn, lambda args: [ind_lit('<=', -Poly.atom(APP(fn, tuple(args), 'R')))])
    MODELV.setdefault(fn, lambda m, args: abs(m.h(fn, tuple(args))))
    left, right = (Base(f'{x}[{a.key}]', kind='mat', real=True, unitary=True)
                   for x in ('opaque#svdL', 'svdR'))
    if not a.fv:
        right.inner, right.fv = ('svdR', a), frozenset()
    n = v.shape[0]
    sq = normal_form(a.trans() * a, False)
    (w, c), = sq.t.items()
    r = NC.sym(right)
    mid = to_nc(Arr('np', (n, n), d * d * ind_lit('=', IXP[0] - IXP[1]), 'float'))
    SUBWORD[w] = r.trans() * mid * r
    return (Arr('np', (n, n), NC.sym(left), 'float'), Arr('np', (n,), d, 'float'),
            Arr('np', (n, n), r, 'float'))


@ext('numpy.linalg.eig', 'numpy.linalg.eigh')
def _eig(I, v):
    a = to_nc(v)
    n = v.shape[0]
    b = Base(f'opaque#eigvecs[{a.key}]', kind='mat')
    return (Arr('np', (n,), Poly.atom(APP(f'eig[{a.key}]', (IXP[0],), 'R')), 'float'),
            Arr('np', (n, n), NC.sym(b), 'float'))


@ext('numpy.linalg.eigvals', 'numpy.linalg.eigvalsh')
def _eigvals(I, v):
    return _eig(I, v)[0]


def closed_count(I, k, N, e):
    """Number of k in 0..N-1 within bounds, where the tightest are known."""
    if len(e.t) != 1:
        return None
    (m, c), = e.t.items()
    if c != ONE or not m or any(a.kind != 'ind' or a.rel != '<=' for a, _ in m):
        return None
    K = Poly.atom(k)
    lo, hi = [ZEROP], [N - ONEP]
    for a, _ in m:
        u, l = a.poly - K, a.poly + K
        if k not in u.fv:
            hi.append(-u)
        elif k not in l.fv:
            lo.append(l)
        else:
            return None
    ctx = I.ctx()
    lo = [x for x in lo if all(ctx.entails(ind_lit('<=', y - x)) for y in lo)][:1]
    hi = [x for x in hi if all(ctx.entails(ind_lit('<=', x - y)) for y in hi)][:1]
    if not lo or not hi:
        return None
    r = hi[0] - lo[0] + ONEP
    return r if ctx.entails(ind_lit('<=', -r)) else None


@ext('numpy.sum', 'torch.sum')
def _sum(I, v, axis=None, dim=None):
    axis = axis if axis is not None else dim
    if isinstance(v, (SList, tuple)) and axis is None:
        v = np_array(I, v)
    if isnum(v):
        return v
    a = as_arr(I, v)
    e = entries(a)
    g = GR.info_of(a)
    if isinstance(g, GR.Block):
        if axis is not None or a.dtype == 'bool':
            raise Unsupported('sum over a product space')
        return arr_result(a.kind, (), g.total_sum(I, e), a.dtype)
    if axis is None:
        for d in range(a.ndim):
            k = I.fresh('s')
            e = e.subst({IX[d]: Poly.atom(k)})
            e = closed_count(I, k, a.shape[d], e) or sum_range(k, ZEROP, a.shape[d], e)
        return arr_result(a.kind, (), e, 'int' if a.dtype == 'bool' else a.dtype)
    if isinstance(axis, (tuple, SList)):
        for ax in sorted({x % a.ndim for x in (axis if isinstance(axis, tuple) else axis.items)},
                         reverse=True):
            a = _sum(I, a, axis=ax)
        return a
    axis = axis % a.ndim
    k = I.fresh('s')
    e = e.subst({IX[axis]: Poly.atom(k)})
    e = sum_range(k, ZEROP, a.shape[axis], e)
    mp = {}
    r = 0
    for d in range(a.ndim):
        if d != axis:
            mp[IX[d]] = IXP[r]
            r += 1
    return arr_result(a.kind, tuple(s for d, s in enumerate(a.shape) if d != axis),
                      ssubst(e, mp), 'int' if a.dtype == 'bool' else a.dtype)


@ext('numpy.prod')
def _prod(I, v):
    if isinstance(v, (SList, tuple)):
        items = list(v) if isinstance(v, tuple) else v.items
        r = 1
        for it in items:
            if isinstance(it, Seg):
                if not it.is_uniform():
                    raise Unsupported('product over a filtered list')
                r = I.models.binop(I, 'Mult', r, num(prod_term(I, it), 'int'))
            else:
                r = I.models.binop(I, 'Mult', r, it)
        return r
    raise Unsupported('prod')


def prod_term(I, seg):
    """Product of the numbers of a segment."""
    k = I.fresh('k')
    return mk_prod(k, seg.N, P(seg.item(Poly.atom(k))))


@ext('numpy.dot')
def _dot(I, a, b):
    A, B = as_arr(I, a), as_arr(I, b)
    if A.ndim == 0 or B.ndim == 0:
        return I.models.binop(I, 'Mult', a, b)
    return matmul(I, A, B, 'np')


@ext('torch.mm', 'torch.sparse.mm', 'torch.matmul', 'numpy.matmul')
def _tmm(I, a, b):
    A, B = as_arr(I, a), as_arr(I, b)
    return matmul(I, A, B, 'torch' if 'torch' in (A.kind, B.kind) else 'np')


@ext('numpy.count_nonzero')
def _count_nonzero(I, v, axis=None):
    a = as_arr(I, v)
    e = entries(a) if a.dtype == 'bool' else ind_lit('!=', entries(a))
    return _sum(I, Arr(a.kind, a.shape, e, 'bool'), axis=axis)


@ext('numpy.linalg.matrix_rank')
def _matrix_rank(I, v, tol=None, hermitian=False, rtol=None):
    """A number between zero and the sizes, the same for the same entries."""
    a = as_arr(I, v)
    if a.ndim != 2:
        raise Unsupported('rank of an array')
    e = entries(a)
    fv = sorted({x for p in (*a.shape, e) for x in p.fv} - {IX[0], IX[1]}, key=lambda x: x.key)
    new = {x: Poly.atom(VAR(f'$rank{i}', x.sort, x.pos)) for i, x in enumerate(fv)}
    sh = [p.subst(new) for p in a.shape]
    name = f'rank[{sh[0].key}|{sh[1].key}|{e.subst(new).key}]'

    def ax(args):
        me = Poly.atom(APP(name, tuple(args), 'I'))
        mp = {VAR(f'$rank{i}', x.sort, x.pos): y for (i, x), y in zip(enumerate(fv), args)}
        return [ind_lit('<=', -me)] + [ind_lit('<=', me - p.subst(mp)) for p in sh]
    AXIOM[name] = ax
    I.assumed.add('numpy.linalg.matrix_rank as the rank (its tolerance left aside)')
    return num(Poly.atom(APP(name, tuple(Poly.atom(x) for x in fv), 'I')), 'int')


@ext('numpy.any')
def _any(I, v, axis=None):
    a = as_arr(I, v)
    if axis is not None:
        e = entries(a) if a.dtype == 'bool' else ind_lit('!=', entries(a))
        r = as_arr(I, _sum(I, Arr(a.kind, a.shape, e, 'int'), axis=axis))
        return arr_result(a.kind, r.shape, ind_lit('!=', entries(r)), 'bool')
    e = entries(a) if a.dtype == 'bool' else ind_lit('!=', entries(a))
    for d in range(a.ndim):
        k = I.fresh('s')
        e = sum_range(k, ZEROP, a.shape[d], e.subst({IX[d]: Poly.atom(k)}))
    return mkbool(ind_lit('<=', ONEP - e))


@ext('numpy.all')
def _all(I, v, axis=None):
    a = as_arr(I, v)
    e = ind_not(entries(a)) if a.dtype == 'bool' else ind_lit('=', entries(a))
    if axis is not None:
        r = as_arr(I, _sum(I, Arr(a.kind, a.shape, e, 'int'), axis=axis))
        return arr_result(a.kind, r.shape, ind_lit('=', entries(r)), 'bool')
    if e.is_zero():
        return True
    for d in range(a.ndim):
        k = I.fresh('s')
        e = sum_range(k, ZEROP, a.shape[d], e.subst({IX[d]: Poly.atom(k)}))
    return mkbool(ind_lit('=', e))


def np_prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def greatest(I, v, name, *more):
    """Greatest (least) entry, a function of the entries only."""
    a = as_arr(I, np_array(I, v) if isinstance(v, SList) else v)
    e = entries(a)
    if a.ndim not in (1, 2):
        raise Unsupported(f'{name} of this array')
    # loop variables are arguments of the function
    par = sorted((x for x in e.fv if x not in IX and x.name.startswith('%')), key=lambda x: x.key)
    if par and more:
        raise Unsupported(f'{name} of this array')
    hole = [VAR(f'$g{i}', x.sort) for i, x in enumerate(par)]
    real, e = e, e.subst({x: Poly.atom(h) for x, h in zip(par, hole)})
    at = APP(f'{name}[{e.key}]', tuple(a.shape) + tuple(Poly.atom(x) for x in par) + more,
             'I' if kindof(a) == 'int' else 'R')
    pick = max if name == 'max' else min

    def value(m, args, place=None):
        size = [int(x) for x in args[:a.ndim]]
        if any(x < 0 for x in size) or np_prod(size) > 400:
            raise OverflowError('size')
        env = dict(zip(hole, args[a.ndim:]))
        got = [(m.poly(e, {**env, **dict(zip(IX, ix))}), ix)
               for ix in itertools.product(*[range(x) for x in size])]
        got = [(x.real if isinstance(x, complex) else x, ix) for x, ix in got]
        if more:
            got.append((args[-1], (0,) * a.ndim))
        if not got:
            return m.h(at.fn, tuple(args))
        best = pick(got, key=lambda x: x[0])
        return best[0] if place is None else best[1][place]
    MODELV[at.fn] = value
    for i in range(a.ndim):
        MODELV[f'arg{at.fn}{i}'] = lambda m, args, i=i: value(m, args, i)
    if not more:
        I.greatest[at] = (name, real, a.shape)
        for i in range(a.ndim):
            AXIOM[f'arg{at.fn}{i}'] = lambda args, i=i, f=f'arg{at.fn}{i}': [
                ind_lit('<=', args[i]) + (ONEP - ind_lit('<=', args[i])) * ind_lit(
                    '<=', -Poly.atom(APP(f, tuple(args), 'I'))) * ind_lit(
                    '<', Poly.atom(APP(f, tuple(args), 'I')) - args[i])]
    return num(Poly.atom(at), kindof(a))


def greatest_facts(I, m, *k):
    """m, returned by `greatest`, is the entry at some place, and not below
    (above) the entry at place k."""
    at = next((a for a in m.atoms() if a in I.greatest), None)
    if at is None or m != Poly.atom(at):
        return []
    name, e, shape = I.greatest[at]
    wit = [Poly.atom(APP(f'arg{at.fn}{i}', at.args, 'I')) for i in range(len(shape))]
    ent = lambda ix: e.subst(dict(zip(IX, ix)))
    s = 1 if name == 'max' else -1
    return [ind_lit('=', m - ent(wit)), ind_lit('<=', (ent(k) - m).scale(s))] + [
        f for x, n in zip(wit, shape) for f in (ind_lit('<=', -x), ind_lit('<', x - n))]


@ext('numpy.argmax')
def _argmax(I, v, axis=None):
    m = P(greatest(I, v, 'max'))
    (at,) = [x for x in m.atoms() if x in I.greatest]
    if axis is not None or len(I.greatest[at][2]) != 1:
        raise Unsupported('argmax along an axis')
    return num(Poly.atom(APP(f'arg{at.fn}0', at.args, 'I')), 'int')


@ext('numpy.max', 'numpy.amax')
def _max(I, v, initial=None):
    if initial is None and isinstance(v, (SList, tuple)) and not any(
            isinstance(x, Seg) for x in (v if isinstance(v, tuple) else v.items)):
        return I.models.b_max(I, v)
    return greatest(I, v, 'max', *(() if initial is None else (P(initial),)))


@ext('numpy.linalg.norm')
def _norm(I, v, ord=None, axis=None, keepdims=False):
    x = as_arr(I, v)
    if axis is not None and x.ndim == 2 and ord in (None, 2) and isinstance(axis, int) and -2 <= axis < 2 \
            and isinstance(keepdims, bool):
        d = axis % 2
        kk = I.fresh('s')
        e = f_abs(entries(x))
        e = sum_range(kk, ZEROP, x.shape[d], (e * e).subst({IX[d]: Poly.atom(kk)})).fpow(Fraction(1, 2))
        n = x.shape[1 - d]
        if keepdims:
            return Arr(x.kind, (n, ONEP) if d else (ONEP, n), e, 'float')
        return Arr(x.kind, (n,), e if d else e.subst({IX[1]: IXP[0]}), 'float')
    if axis is not None or keepdims:
        raise Unsupported('this norm')
    if not (ord is None or ord == 'fro' and x.ndim == 2 or ord == 2 and x.ndim == 1):
        raise Unsupported('this norm')
    e = f_abs(entries(x))
    e = e * e
    g = GR.info_of(x)
    if isinstance(g, GR.Block):
        if ord is not None:
            raise Unsupported('this norm')
        return num(g.total_sum(I, e).fpow(Fraction(1, 2)), 'float')
    for d in range(x.ndim):
        kk = I.fresh('s')
        e = sum_range(kk, ZEROP, x.shape[d], e.subst({IX[d]: Poly.atom(kk)}))
    return num(e.fpow(Fraction(1, 2)) if not e.is_zero() else ZEROP, 'float')


# ket symbol -> matrix with these columns
COLUMNS = {}


def columns(I, seg):
    """Matrix with one column per item."""
    if not seg.is_uniform():
        raise Unsupported('columns')
    k = Poly.atom(VAR('%col', 'I'))
    a = seg.item(k)
    if not isinstance(a, Arr) or a.ndim != 2 or a.shape[1] != ONEP:
        raise Unsupported('columns')
    for ket, mat in COLUMNS.items():
        if to_nc(a) == NC.sym(ket, k):
            return Arr(a.kind, (a.shape[0], seg.N), NC.sym(mat), a.dtype)
    raise Unsupported('columns')


@ext('numpy.concatenate', 'torch.cat')
def _concat(I, vs, axis=0, dim=None):
    axis = dim if dim is not None else axis
    items = I.models.iter_items(I, vs)
    if len(items) == 1 and isinstance(items[0], Seg) and axis in (1, -1):
        return columns(I, items[0])
    parts = [as_arr(I, x) for x in items]
    off = ZEROP
    val = ZEROP
    nd = parts[0].ndim
    axis = axis % nd
    for x in parts:
        g = ind_lit('<=', off - IXP[axis]) * ind_lit('<=', IXP[axis] - off - x.shape[axis] + ONEP)
        val = val + g * entries(x).subst({IX[axis]: IXP[axis] - off})
        off = off + x.shape[axis]
    sh = list(parts[0].shape)
    sh[axis] = off
    return Arr(parts[0].kind, sh, val, dt_join(*[x.dtype for x in parts]))


@ext('torch.stack', 'numpy.stack')
def _stack(I, vs, dim=0):
    if dim != 0:
        raise Unsupported('stack')
    items = I.models.iter_items(I, vs)
    kind = 'np'
    for it in items:
        x = it.cases[0][1][0] if isinstance(it, Seg) else it
        if isinstance(x, Arr) and x.kind == 'torch':
            kind = 'torch'
    return np_array(I, SList(items), kind)


@ext('numpy.vstack')
def _vstack(I, vs):
    items = I.models.iter_items(I, vs)
    if len(items) == 2 and all(isinstance(x, ExtObj) and x.kind == 'coopart' for x in items):
        if items[0].data['nc'] is not items[1].data['nc']:
            raise Unsupported('indices of different matrices')
        return ExtObj('cooidx', nc=items[0].data['nc'],
                      parts=tuple(x.data['part'] for x in items))
    if any(not isinstance(x, Arr) or x.ndim != 2 for x in items):
        raise Unsupported('vstack')
    return _concat(I, vs, 0)


@ext('numpy.hstack')
def _hstack(I, vs):
    if any(not isinstance(x, Arr) or x.ndim != 2 for x in I.models.iter_items(I, vs)):
        raise Unsupported('hstack')
    return _concat(I, vs, 1)


@ext('torch.sparse_coo_tensor')
def _sparse_coo(I, idx, vals, size=None, dtype=None, **kw):
    """Sparse tensor holding the listed entries of a matrix."""
    only(kw, 'device')
    if not (isinstance(idx, ExtObj) and idx.kind == 'cooidx' and isinstance(vals, ExtObj)
            and vals.kind == 'coopart' and vals.data['part'] == 'data'
            and vals.data['nc'] is idx.data['nc']):
        raise Unsupported('sparse tensor of unknown entries')
    q = idx.data['nc'].data['q']
    if idx.data['parts'] == ('row', 'col'):
        nc, sh = q.nc, q.shape
    elif idx.data['parts'] == ('col', 'row'):
        nc, sh = q.nc.trans(), (q.shape[1], q.shape[0])
    else:
        raise Unsupported('sparse tensor of unknown entries')
    return Arr('torch', sh, nc, dtype_of(dtype, 'complex'), sparse=True, opmat=True)


@ext('torch.sort')
def _tsort(I, v):
    return (_sort(I, v), _argsort(I, v))


@ext('numpy.sort')
def _sort(I, v):
    a = as_arr(I, v)
    perm = sort_perm(I, a)
    e = entries(a)
    return Arr(a.kind, a.shape, e.subst({IX[0]: perm(IXP[0])}), a.dtype)


def sort_perm(I, a):
    """The permutation that sorts a 1-D array in ascending order."""
    if a.ndim != 1:
        raise Unsupported('sort')
    e = entries(a)
    name = f'sortidx[{e.key}]'

    def perm(i):
        return Poly.atom(APP(name, (a.shape[0], i), 'I'))

    def ax(args):
        n, i = args
        me = Poly.atom(APP(name, (n, i), 'I'))
        out = ind_lit('<', i) + ind_lit('<=', n - i)
        return [out + (ONEP - out) * ind_lit('<=', -me) * ind_lit('<', me - n)]

    def mv(m, args):
        vals = [complex(m.poly(e.subst({IX[0]: Poly.const(i)}))).real for i in range(int(args[0]))]
        at = sorted(range(len(vals)), key=vals.__getitem__)
        return at[int(args[1])] if 0 <= int(args[1]) < len(at) else 0
    AXIOM[name], MODELV[name] = ax, mv
    return perm


@ext('numpy.argsort')
def _argsort(I, v):
    a = as_arr(I, v)
    perm = sort_perm(I, a)
    return Arr(a.kind, a.shape, perm(IXP[0]), 'int')


@ext('scipy.sparse.linalg.eigsh')
def _eigsh(I, A, k=6, which='LM', **kw):
    return _eigs(I, A, k, {'SA': 'SR', 'LA': 'LR'}.get(which, which), **kw)


@ext('scipy.sparse.linalg.eigs')
def _eigs(I, A, k=6, which='LM', ncv=None, **kw):
    """Assumed: the k eigenpairs the selection asks for, in any order; column i
    of the vectors belongs to value i.  May fail to converge unless the subspace
    is enlarged."""
    if kw:
        raise Unsupported('eigensolver options')
    nc = A.data['q'].nc if isinstance(A, ExtObj) and A.kind == 'coo' else to_nc(A)
    sh = A.data['q'].shape if isinstance(A, ExtObj) else A.shape
    if ncv is None and I.decide(ind_lit('=', Poly.atom(I.fresh('conv', 'I')) - ONEP)):
        raise PyRaise(ExtObj('scipy.sparse.linalg.ArpackNoConvergence'))
    lam, vec = eigpairs(nc, which)
    n = P(k)
    return (Arr('np', (n,), lam(n, IXP[0]), 'complex'),
            Arr('np', (sh[0], n), vec(n, IXP[1]).entry(IXP[0]), 'complex'))


def eigpairs(nc, which):
    """lam(k, i), vec(k, i): pair number i of the k the solver returns."""
    name = f'{{{nc.key}}}{which}'

    def rank(m, k, i):
        at = sorted(range(int(k)), key=lambda j: m.h('eigorder', name, int(k), j))
        return at[int(i)] if 0 <= i < len(at) else -1

    def val(m, args):
        j = rank(m, *args)
        return j + m.h('eigval', name, j)

    def ket(m, args):
        import numpy as np
        j = rank(m, *args)
        r = np.random.default_rng(int(m.h('eigvec', name, j) * 2 ** 60))
        from .solve import DIM
        return r.normal(size=(DIM, 1)) + 1j * r.normal(size=(DIM, 1))
    b = Base('eigvec' + name, nslots=2, kind='ket', ev=ket)
    MODELV['eigval' + name] = val

    def lam(k, i):
        return Poly.atom(APP('eigval' + name, (k, i), 'R'))

    def vec(k, i):
        return NC.sym(b, k, i)
    return lam, vec


@ext('numpy.random.randn', 'numpy.random.rand')
def _rand(I, *a):
    if a:
        name = I.fresh('random numbers', 'R').name
        return Arr('np', tuple(P(x) for x in a), Poly.atom(APP(name, tuple(IXP[:len(a)]), 'R')), 'float')
    return num(Poly.atom(I.fresh('rand', 'R')), 'float')


@ext('torch.normal', 'numpy.random.normal')
def _normal(I, mean, std):
    """mean + std*xi with xi an unknown standard normal sample."""
    torch_ = isinstance(mean, Arr) and mean.kind == 'torch'
    p = P(mean)
    if not P(std).is_zero():
        p = p + P(std) * Poly.atom(I.fresh('xi', 'R'))
    return Arr('torch', (), p, 'float') if torch_ else num(p, 'float')


def kron_base(parts):
    """Kronecker product of matrices, kept flat (the product is associative)."""
    flat = []
    for nc, sh in parts:
        ws = list(nc.t.items())
        if len(ws) == 1 and len(ws[0][0]) == 1 and ws[0][1] == ONEP \
                and getattr(ws[0][0][0].base, 'inner', None) \
                and ws[0][0][0].base.inner[0] == 'kron' and plain(ws[0][0][0]):
            flat += list(ws[0][0][0].base.inner[1])
        else:
            flat.append((nc, sh))
    b = Base('kron{' + '|'.join(f'{nc.key}:{sh[0].key},{sh[1].key}' for nc, sh in flat) + '}')
    b.inner = ('kron', tuple(flat))
    fv = frozenset()
    for nc, sh in flat:
        fv = fv | nc.fv | sh[0].fv | sh[1].fv
    b.fv = fv
    return b


def plain(letter):
    return not (letter.inv or letter.t or letter.c)


REBUILD['kron'] = lambda b, mp: kron_base([
    (nc.subst(mp), (sh[0].subst(mp), sh[1].subst(mp))) for nc, sh in b.inner[1]])


@ext('torch.kron', 'numpy.kron')
def _kron(I, a, b):
    if isinstance(a, TensQ) or isinstance(b, TensQ):
        xs = [x.items if isinstance(x, TensQ) else [x] for x in (a, b)]
        if any(isinstance(x, TensQ) and x.coeff != ONEP for x in (a, b)):
            raise Unsupported('kron')
        return TensQ([*xs[0], *xs[1]])
    A, B = as_arr(I, a), as_arr(I, b)
    if A.ndim != 2 or B.ndim != 2:
        raise Unsupported('kron')
    kind = 'torch' if 'torch' in (A.kind, B.kind) else 'np'
    return Arr(kind, (A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]),
               NC.sym(kron_base([(to_nc(A), A.shape), (to_nc(B), B.shape)])),
               dt_join(A.dtype, B.dtype), opmat=True)


BLK = VAR('%blk', 'I')


def blocks_base(item, count):
    """Block-diagonal matrix with the block item(k) for k = 0 .. count-1 in order."""
    nc = item(Poly.atom(BLK))
    real = all(l.base.real for w in nc.t for l in w)
    return Base(f'blocks[{count.key}]{{{nc.key}}}', kind='mat', real=real, sym=nc.trans() == nc)


@ext('scipy.linalg.block_diag', 'torch.block_diag')
def _block_diag(I, *args):
    if len(args) == 1 and isinstance(args[0], Seg):
        seg = args[0]
        if not seg.is_uniform() or not isinstance(seg.item(ZEROP), Arr):
            raise Unsupported('blocks')
        a = seg.item(Poly.atom(BLK))
        if a.ndim != 2 or any(v != BLK and v not in IX and v.name.startswith('%')
                              for v in value_fv(a) | seg.N.fv):
            raise Unsupported('blocks')
        sh = tuple(sum_range(BLK, ZEROP, seg.N, x) for x in a.shape)
        b = blocks_base(lambda k: to_nc(seg.item(k)), seg.N)
        return Arr(a.kind, sh, NC.sym(b), a.dtype)
    if not args or any(isinstance(x, Seg) for x in args):
        raise Unsupported('blocks')
    arrs = [as_arr(I, x) for x in args]
    if any(a.ndim != 2 for a in arrs):
        raise Unsupported('blocks that are not matrices')
    if len(arrs) == 2 and all(I.ctx().entails(ind_lit('=', a.shape[0] - a.shape[1])) for a in arrs) \
            and all(a.kind == 'np' for a in arrs) and any(isinstance(a.val, NC) for a in arrs):
        m = arrs[0].shape[0] + arrs[1].shape[0]
        return Arr('np', (m, m), NC.sym(blocks2(arrs[0].shape[0], to_nc(arrs[0]), to_nc(arrs[1]))),
                   dt_join(*[a.dtype for a in arrs]))
    val, r, c, dt = ZEROP, ZEROP, ZEROP, 'float'
    for a in arrs:
        i, j = IXP[0] - r, IXP[1] - c
        g = ind_lit('<=', -i) * ind_lit('<=', i - a.shape[0] + ONEP) \
            * ind_lit('<=', -j) * ind_lit('<=', j - a.shape[1] + ONEP)
        val = val + g * entries(a).subst({IX[0]: i, IX[1]: j})
        r, c, dt = r + a.shape[0], c + a.shape[1], dt_join(dt, a.dtype)
    return Arr('torch' if any(a.kind == 'torch' for a in arrs) else 'np', (r, c), val, dt)


# ------------------------------------------------------------- qutip

def _dimsym(I, n):
    return P(n)


def opsym(name, n, **kw):
    """Operator of a truncated mode: one slot holding the truncation number."""
    return NC.sym(Base(name, nslots=1, **kw), n)


@ext('numpy.diag_indices_from')
def _diag_indices_from(I, a):
    return ExtObj('diagidx')


@ext('qutip.qeye', 'qutip.identity')
def _qeye(I, n):
    if isinstance(n, (SList, tuple)):
        items = list(n) if isinstance(n, tuple) else n.items
        out = []
        for it in items:
            if isinstance(it, Seg):
                out.append(Seg(it.N, it.k, [(c, [_qeye(I, x) for x in xs]) for c, xs in it.cases]))
            else:
                out.append(_qeye(I, it))
        return TensQ(out)
    return SQobj(NC.scalar(ONEP), (P(n), P(n)), dims=(P(n),))


@ext('qutip.num')
def _qnum(I, n, **k):
    return SQobj(opsym('num', P(n), herm=True, real=True, sym=True), (P(n), P(n)), dims=(P(n),))


@ext('qutip.destroy')
def _qdestroy(I, n, **k):
    return SQobj(opsym('a', P(n), real=True), (P(n), P(n)), dims=(P(n),))


@ext('qutip.create')
def _qcreate(I, n, **k):
    return SQobj(opsym('a', P(n), real=True).dag(), (P(n), P(n)), dims=(P(n),))


@ext('qutip.charge')
def _qcharge(I, nmax, *a, **k):
    if a or k:
        raise Unsupported('charge arguments')
    return SQobj(opsym('charge', P(nmax), herm=True, real=True, sym=True),
                 (P(nmax).scale(2) + ONEP,) * 2, dims=(P(nmax).scale(2) + ONEP,))


@ext('qutip.displace')
def _qdisplace(I, n, alpha, **k):
    b = Base('displace', nslots=2)
    p = P(alpha)
    bb = Base(f'displace{{{p.key}}}', nslots=1)
    bb.inner = ('displace', p)
    bb.fv = p.fv
    return SQobj(NC.sym(bb, P(n)), (P(n), P(n)), dims=(P(n),))


def _rebuild_displace(b, mp):
    p = b.inner[1].subst(mp)
    bb = Base(f'displace{{{p.key}}}', nslots=1)
    bb.inner = ('displace', p)
    bb.fv = p.fv
    return bb


REBUILD['displace'] = _rebuild_displace


@ext('qutip.tensor')
def _qtensor(I, *args):
    if len(args) == 1 and isinstance(args[0], (SList, tuple)):
        args = I.models.iter_items(I, args[0])
    if len(args) == 1 and not isinstance(args[0], Seg):
        return args[0]
    return TensQ(list(args))


@ext('qutip.Qobj')
def _qobj(I, v, dims=None, **k):
    if isinstance(v, SQobj):
        return SQobj(v.nc, v.shape, v.kind, v.fmt, v.dims)
    if isnum(v):
        return SQobj(NC.scalar(P(v)), (ONEP, ONEP), 'oper', 'dense', None)
    a = as_arr(I, v)
    kind = 'oper'
    if a.shape == (ONEP, ONEP):
        return SQobj(NC.scalar(entries(a).subst({IX[0]: ZEROP, IX[1]: ZEROP})), (ONEP, ONEP),
                     'oper', 'dense', None)
    if a.ndim == 1:
        sh = (a.shape[0], ONEP)
        kind = 'ket'
    elif a.ndim == 2 and a.shape[1] == ONEP:
        sh = a.shape
        kind = 'ket'
    else:
        sh = a.shape
    return SQobj(to_nc(a), sh, kind, 'dense', None)


def qobj_op(I, op, a, b):
    if isinstance(a, TensQ) or isinstance(b, TensQ):
        return tens_op(I, op, a, b)
    if op == 'Add' or op == 'Sub':
        def q(x):
            if isinstance(x, SQobj):
                return x.nc, x.zero_if
            if isnum(x) or isinstance(x, Arr) and x.ndim == 0:
                p = P(x)
                if p.is_zero():
                    return NC({}), ONEP
                return NC.scalar(p), ZEROP
            raise Unsupported('sum of an operator and an array')
        na, za = q(a)
        nb, zb = q(b)
        ref = a if isinstance(a, SQobj) else b
        if not za.is_zero() and not isinstance(a, int) and isinstance(b, SQobj):
            ref = b
        z = za * zb
        if not z.is_zero() and I.ctx().sat(z) == 'unsat':
            z = ZEROP
        return SQobj(na + nb if op == 'Add' else na - nb, ref.shape, ref.kind, ref.fmt, ref.dims, z)
    if op == 'Mult' and isinstance(b, SQobj) and isnum(a):
        a, b = b, a
    if op in ('Mult', 'Div') and isinstance(a, SQobj) and isnum(b):
        f = P(b) if op == 'Mult' else truediv(I, ONEP, P(b))
        return SQobj(a.nc.scale(f), a.shape, a.kind, a.fmt, a.dims, a.zero_if)
    for x in (a, b):
        if isinstance(x, SQobj) and not x.zero_if.is_zero():
            if I.decide(x.zero_if):
                raise Unsupported('plain zero in an operator product')
    if op in ('Mult', 'MatMult'):
        if isinstance(a, SQobj) and isinstance(b, SQobj):
            return qprod(I, a, b)
        q, s = (a, b) if isinstance(a, SQobj) else (b, a)
        if isinstance(s, Arr) and s.ndim > 0:
            raise Unsupported('operator times array')
        return SQobj(q.nc.scale(P(s)), q.shape, q.kind, q.fmt, q.dims)
    if op == 'Div':
        if isinstance(a, SQobj) and not isinstance(b, SQobj):
            return SQobj(a.nc.scale(truediv(I, ONEP, P(b))), a.shape, a.kind, a.fmt, a.dims)
        raise PyRaise(TypeError('unsupported operand'))
    if op == 'Pow' and isinstance(a, SQobj) and isinstance(b, int) and b >= 0:
        r = NC.scalar(ONEP)
        for _ in range(b):
            r = r * a.nc
        return SQobj(r, a.shape, a.kind, a.fmt, a.dims)
    raise Unsupported(f'operator {op}')


def qprod(I, a, b):
    n = a.nc * b.nc
    if a.kind == 'bra' and b.kind == 'ket':
        return num(n.close(), 'complex')
    if a.kind == 'oper' and b.kind == 'ket':
        return SQobj(n, b.shape, 'ket', b.fmt, a.dims)
    if a.kind == 'bra' and b.kind == 'oper':
        return SQobj(n, a.shape, 'bra', a.fmt, b.dims)
    if a.kind == 'ket' and b.kind == 'bra':
        return SQobj(n, None, 'oper', a.fmt, a.dims)
    if a.kind == b.kind == 'oper':
        if a.shape == b.shape == (ONEP, ONEP) and set(n.t) <= {()}:
            # a 1 x 1 product is returned as a number
            return num(n.t.get((), ZEROP), 'complex')
        return SQobj(n, a.shape, 'oper', a.fmt, a.dims)
    raise PyRaise(TypeError('incompatible operator product'))


def align(I, xs, ys):
    """Cut two item lists into matching pieces."""
    xs, ys = list(xs), list(ys)
    out = []
    while xs or ys:
        if not xs or not ys:
            raise Unsupported('tensor factors of different number')
        a, b = xs.pop(0), ys.pop(0)
        sa, sb = isinstance(a, Seg), isinstance(b, Seg)
        if not sa and not sb:
            out.append((a, b))
        elif sa and sb:
            if a.N == b.N or prove_zero(a.N - b.N, I.ctx()):
                k = I.fresh('k')
                out.append((Seg.uniform(a.N, k, a.item(Poly.atom(k))),
                            Seg.uniform(a.N, k, b.item(Poly.atom(k)))))
            elif I.decide(ind_lit('<', a.N - b.N)):
                k, k2 = I.fresh('k'), I.fresh('k')
                out.append((Seg.uniform(a.N, k, a.item(Poly.atom(k))),
                            Seg.uniform(a.N, k, b.item(Poly.atom(k)))))
                ys.insert(0, Seg.uniform(b.N - a.N, k2, b.item(Poly.atom(k2) + a.N)))
            else:
                k, k2 = I.fresh('k'), I.fresh('k')
                out.append((Seg.uniform(b.N, k, a.item(Poly.atom(k))),
                            Seg.uniform(b.N, k, b.item(Poly.atom(k)))))
                xs.insert(0, Seg.uniform(a.N - b.N, k2, a.item(Poly.atom(k2) + b.N)))
        else:
            # split one item off the segment
            s = a if sa else b
            o = b if sa else a
            if I.decide(ind_lit('<=', s.N)):
                (ys if sa else xs).insert(0, o)
                continue
            k = I.fresh('k')
            head = s.item(ZEROP)
            tail = Seg.uniform(s.N - ONEP, k, s.item(Poly.atom(k) + ONEP))
            if sa:
                xs[0:0] = [head, tail]
                ys.insert(0, o)
            else:
                ys[0:0] = [head, tail]
                xs.insert(0, o)
    return out


def tens_op(I, op, a, b):
    if op == 'Mult' or op == 'MatMult':
        if isinstance(a, TensQ) and isinstance(b, TensQ):
            out = []
            for x, y in align(I, a.items, b.items):
                if isinstance(x, Seg):
                    out.append(Seg.uniform(x.N, x.k, qobj_op(I, 'Mult', x.cases[0][1][0],
                                                              y.cases[0][1][0])))
                else:
                    out.append(qobj_op(I, 'Mult', x, y))
            I.assumed.add('tensor(f)*tensor(g) = tensor(f*g)')
            return TensQ(out, a.coeff * b.coeff)
        t, s = (a, b) if isinstance(a, TensQ) else (b, a)
        if isnum(s):
            return TensQ(t.items, t.coeff * P(s))
    if op == 'Div' and isinstance(a, TensQ) and isnum(b):
        return TensQ(a.items, a.coeff * truediv(I, ONEP, P(b)))
    raise Unsupported(f'{op} of tensor products')


def qobj_getitem(I, q, idx):
    if not q.zero_if.is_zero() and I.decide(q.zero_if):
        raise PyRaise(TypeError('int is not subscriptable'))
    if isinstance(idx, tuple) and len(idx) == 2 and all(isnum(x) for x in idx):
        return num(q.nc.entry(P(idx[0]), P(idx[1])), 'complex')
    if isnum(idx) and q.kind == 'ket':
        # a row of the matrix
        return arr_getitem(I, Arr('np', (q.shape[0], ONEP), q.nc.entry(IXP[0]), 'complex'), idx)
    raise Unsupported('operator index')


def qshape(q):
    return q.shape


def attr(I, o, name):
    """Attributes of numbers, arrays and library objects."""
    if isinstance(o, SQobj) and not o.zero_if.is_zero():
        if I.decide(o.zero_if):
            raise PyRaise(AttributeError(f'int has no attribute {name}'))
        o = SQobj(o.nc, o.shape, o.kind, o.fmt, o.dims)
    if isinstance(o, Arr):
        z = o.meta.get('zero_if', ZEROP)
        if not z.is_zero():
            if I.decide(z):
                raise PyRaise(AttributeError(f'int has no attribute {name}'))
        g = GR.info_of(o)
        if g is not None:
            r = GR.attr(I, o, g, name)
            if r is not NotImplemented:
                return r
        if name == 'T':
            return _transpose(I, o)
        if name == 'shape':
            return tuple(num(s, 'int') for s in o.shape)
        if name == 'ndim':
            return o.ndim
        if name == 'size' and o.kind == 'np':
            r = ONEP
            for s in o.shape:
                r = r * s
            return num(r, 'int')
        if name == 'real':
            return _real(I, o)
        if name == 'imag':
            return _imag(I, o)
        if name == 'dtype':
            return ExtObj('dtype', name=o.dtype)
        if name == 'is_sparse':
            return bool(o.meta.get('sparse'))
        if name == 'layout':
            return Ext('torch.sparse_coo' if o.meta.get('sparse') else 'torch.strided')
        if name == 'requires_grad':
            g = o.meta.get('grad', False)
            return g
        if name == 'is_leaf':
            return o.meta.get('leaf', not o.meta.get('grad', False))
        if name == 'grad':
            return o.meta.get('gradval')
        if name == 'flat':
            return ExtObj('flat', arr=o)
        if name in ARR_METHODS:
            return BMeth(o, name)
        if name == 'data':
            return o
        if o.kind == 'np' and name in ('detach', 'numpy', 'clone', 'backward', 'to_dense', 'dim'):
            raise PyRaise(AttributeError(name))
        raise Unsupported(f'array attribute {name}')
    if isinstance(o, (SNum,)) or isinstance(o, int) and not isinstance(o, bool):
        if name == 'real':
            return num(f_real(P(o)), 'int' if kindof(o) == 'int' else 'float')
        if name == 'imag':
            return num(f_imag(P(o)), 'int' if kindof(o) == 'int' else 'float')
        if name in ('item', 'conjugate', 'is_integer', 'copy'):
            return BMeth(o, name)
        if name == 'shape' and not isinstance(o, int):
            raise Unsupported('shape of a scalar')
    if isinstance(o, (SQobj, TensQ)):
        if name in ('dag', 'conj', 'trans', 'full', 'to', 'copy', 'data_as', 'eigenstates',
                    'eigenenergies', 'unit', 'tr', 'overlap', 'norm', 'inv', 'matrix_element',
                    'ptrace', 'contract'):
            return BMeth(o, name)
        if isinstance(o, SQobj):
            if name == 'shape':
                return tuple(num(s, 'int') for s in o.shape)
            if name == 'dtype':
                return Ext({'csr': 'qutip.core.data.CSR', 'dia': 'qutip.core.data.Dia',
                            'dense': 'qutip.core.data.Dense'}[o.fmt])
            if name == 'dims':
                return ExtObj('dims', d=o.dims)
            if name == 'type':
                return o.kind
            if name == 'isoper':
                return o.kind == 'oper'
            if name == 'isket':
                return o.kind == 'ket'
        raise Unsupported(f'operator attribute {name}')
    if isinstance(o, ExtObj):
        if o.kind == 'nditer' and name == 'multi_index':
            if o.data['cur'] is None:
                raise Unsupported('position of an iterator outside its loop')
            return ExtObj('gridpoint', p=o.data['cur'], shape=o.data['arr'].shape)
        if o.kind == 'ctx' and name == 'saved_tensors':
            return o.data.get('saved', ())
        if o.kind == 'ctx' and name in o.data.get('attrs', {}):
            return o.data['attrs'][name]
        if o.kind == 'coo':
            return BMeth(o, name) if name in ('tocoo',) else ExtObj('coopart', nc=o, part=name)
    return NotImplemented


ARR_METHODS = {'detach', 'numpy', 'clone', 'copy', 'transpose', 'conj', 'item', 'tolist', 'dot',
               'sum', 'to', 'to_dense', 'to_sparse', 'dim', 'astype', 'reshape', 'flatten',
               'squeeze', 'unsqueeze', 'abs', 'max', 'min', 'any', 'all', 'argsort', 'sort',
               'double', 'type', 'backward', 'requires_grad_', 'conj_physical', 'adjoint', 'H',
               'mm', 'matmul', 'cpu', 'coalesce', 'mean', 'exp', 'log', 'sqrt', 'pow', 'round',
               'view', 'diagonal', 'trace', 'real', 'imag', 'swapaxes'}


def method(I, o, name, args, kw):
    if isinstance(o, Arr):
        f = globals().get('am_' + name)
        if f is None:
            raise Unsupported(f'array method {name}')
        I.assumed.add(f'{"Tensor" if o.kind == "torch" else "ndarray"}.{name}')
        return f(I, o, *args, **kw)
    if isinstance(o, (SNum, int)):
        if name == 'item' or name == 'copy':
            return o
        if name == 'conjugate':
            return num(P(o).conj(), kindof(o))
        raise Unsupported(f'number method {name}')
    if isinstance(o, (SQobj, TensQ)):
        return qmethod(I, o, name, args, kw)
    if isinstance(o, ExtObj):
        return extobj_method(I, o, name, args, kw)
    raise Unsupported(f'method {name} of {type(o).__name__}')


def am_detach(I, a):
    m = {k: x for k, x in a.meta.items() if k not in ('grad', 'leaf', 'gradval')}
    if a.view is not None:
        return Arr(a.kind, a.shape, None, a.dtype, view=a.view, **m)
    return Arr(a.kind, a.shape, None, a.dtype, store=a.store, **m)


def am_cpu(I, a):
    return a


def am_numpy(I, a):
    if a.meta.get('grad'):
        raise PyRaise(RuntimeError("Can't call numpy() on Tensor that requires grad"))
    if a.ndim == 0:
        return num(P(a), kindof(a))
    m = {k: x for k, x in a.meta.items() if k in ('opmat',)}
    if a.view is not None:
        return Arr('np', a.shape, None, a.dtype, view=a.view, **m)
    return Arr('np', a.shape, None, a.dtype, store=a.store, **m)


def am_clone(I, a, **k):
    m = {k: x for k, x in a.meta.items() if k not in ('leaf', 'gradval')}
    return Arr(a.kind, a.shape, a.val, a.dtype, **m)


am_copy = am_clone


def am_transpose(I, a, *ax):
    if GR.info_of(a) is not None:
        return GR.transpose(I, a, list(ax))
    return _transpose(I, a, *ax)


am_adjoint = lambda I, a: _conj(I, _transpose(I, a))


def am_conj(I, a):
    return _conj(I, a)


def am_item(I, a):
    p = entries(a)
    return num(p.subst({IX[i]: ZEROP for i in range(a.ndim)}), kindof(a))


def am_dot(I, a, b):
    return _dot(I, a, b)


def am_sum(I, a, axis=None, dim=None):
    return _sum(I, a, axis, dim)


def am_to(I, a, *x, **k):
    d = k.get('dtype', x[0] if x else None)
    return Arr(a.kind, a.shape, a.val, dtype_of(d), **a.meta)


def am_astype(I, a, d):
    dt = dtype_of(d)
    if dt == 'int' and a.dtype == 'float':
        raise Unsupported('astype int')
    return Arr(a.kind, a.shape, a.val, dt)


def am_to_dense(I, a):
    m = {k: x for k, x in a.meta.items() if k != 'sparse'}
    return Arr(a.kind, a.shape, a.val, a.dtype, **m)


def am_to_sparse(I, a):
    m = dict(a.meta)
    m['sparse'] = True
    return Arr(a.kind, a.shape, a.val, a.dtype, **m)


def am_coalesce(I, a):
    return a


def am_dim(I, a):
    return a.ndim


def am_squeeze(I, a, dim=None):
    return _squeeze(I, a, dim)


def am_unsqueeze(I, a, dim):
    return _unsqueeze(I, a, dim)


def am_double(I, a):
    return a


def am_requires_grad_(I, a, v=True):
    a.meta['grad'] = v
    return a


def am_tolist(I, a):
    return SList(arr_iter(I, a))


def am_any(I, a, axis=None):
    return _any(I, a, axis)


def am_all(I, a, axis=None):
    return _all(I, a, axis)


def am_argmax(I, a):
    return _argmax(I, a)


def am_nonzero(I, a):
    return _where(I, a)


def am_abs(I, a):
    return _abs(I, a)


def am_argsort(I, a):
    return _argsort(I, a)


def am_max(I, a):
    return _max(I, a)


def am_reshape(I, a, *sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, SList)):
        sh = sh[0] if isinstance(sh[0], tuple) else sh[0].items
    if len(sh) == a.ndim and not any(isinstance(x, Seg) for x in sh):
        free = [i for i, x in enumerate(sh) if isinstance(x, int) and x == -1]
        if len(free) <= 1 and all(i in free or P(x) == y or prove_zero(P(x) - y, I.ctx())
                                  for i, (x, y) in enumerate(zip(sh, a.shape))):
            return a
    b = GR.block(I, a, sh)
    if b is not None:
        return b
    g = GR.info_of(a)
    if g is None and a.ndim == 1 and len(sh) == 2 and not any(isinstance(x, Seg) for x in sh):
        def whole(x):
            return isinstance(x, int) and x == -1 or prove_zero(P(x) - a.shape[0], I.ctx())
        if P(sh[1]) == ONEP and whole(sh[0]):
            return arr_getitem(I, a, (slice(None), None))
        if P(sh[0]) == ONEP and whole(sh[1]):
            return arr_getitem(I, a, (None, slice(None)))
    if isinstance(g, GR.Block) and sh == (-1,):
        return am_flatten(I, a)
    raise Unsupported('reshape')


def am_view(I, a, *sh):
    return am_reshape(I, a, *sh)


def am_flatten(I, a):
    g = GR.info_of(a)
    if isinstance(g, GR.Block):
        n = g.total if g.mask is None else count(I, g.mask, g.total)
        return Arr(a.kind, (n,), entries(a), a.dtype)
    if a.ndim == 1:
        return a
    raise Unsupported('flatten')


def qmethod(I, q, name, args, kw):
    if isinstance(q, TensQ):
        if name in ('to', 'copy', 'contract'):
            return TensQ(q.items, q.coeff)
        if name == 'dag':
            out = []
            for it in q.items:
                if isinstance(it, Seg):
                    out.append(Seg.uniform(it.N, it.k, qmethod(I, it.cases[0][1][0], 'dag', [], {})))
                else:
                    out.append(qmethod(I, it, 'dag', [], {}))
            return TensQ(out, q.coeff.conj())
        raise Unsupported(f'tensor method {name}')
    if not q.zero_if.is_zero() and I.decide(q.zero_if):
        raise PyRaise(AttributeError(f'int has no attribute {name}'))
    if name == 'dag':
        k = {'ket': 'bra', 'bra': 'ket', 'oper': 'oper'}[q.kind]
        sh = None if q.shape is None else (q.shape[1], q.shape[0])
        return SQobj(q.nc.dag(), sh, k, q.fmt, q.dims)
    if name == 'trans':
        return SQobj(q.nc.trans(), q.shape, q.kind, q.fmt, q.dims)
    if name == 'conj':
        return SQobj(q.nc.conj(), q.shape, q.kind, q.fmt, q.dims)
    if name == 'full':
        return Arr('np', q.shape, q.nc, 'complex', opmat=True)
    if name == 'to':
        f = args[0]
        f = f if isinstance(f, str) else f.name.split('.')[-1]
        return SQobj(q.nc, q.shape, q.kind, f.lower(), q.dims)
    if name in ('copy', 'contract'):
        # contract only drops tensor factors of dimension one
        return SQobj(q.nc, q.shape, q.kind, q.fmt, q.dims)
    if name == 'data_as':
        return ExtObj('coo', q=q)
    raise Unsupported(f'operator method {name}')


def extobj_method(I, o, name, args, kw):
    if o.kind == 'coo' and name == 'tocoo':
        return o
    if o.kind == 'logger':
        return None
    if o.kind == 'printer' and name == 'doprint':
        return SY.doprint(I, *args)
    if o.kind == 'ctx' and name == 'save_for_backward':
        o.data['saved'] = tuple(args)
        return None
    if o.kind == 'set':
        items = o.data['items']
        if name == 'add':
            if not any(I.truth(I.models.key_eq(I, x, args[0])) for x in items):
                old = items
                o.data['items'] = items + [args[0]]

                def undo():
                    o.data['items'] = old
                I.log(undo, ('aux',))
            return None
    if o.kind in ('file',):
        return None
    raise Unsupported(f'method {name} of {o.kind}')


def extobj_op(I, op, a, b):
    raise Unsupported('operation on a library object')


def extobj_getitem(I, o, i):
    if o.kind in ('iter', 'range'):
        items = I.models.iter_items(I, o)
        if o.kind == 'iter':
            raise PyRaise(TypeError('object is not subscriptable'))
        return I.models.getitem(I, SList(items), i)
    if o.kind == '__dict__':
        if i in o.data['obj'].attrs:
            return o.data['obj'].attrs[i]
        raise PyRaise(KeyError(i))
    raise Unsupported(f'index into {o.kind}')


def setattr(I, o, name, v):
    if isinstance(o, Arr):
        if name == 'requires_grad':
            if o.meta.get('grad') and not o.meta.get('leaf', True) and v is False:
                raise PyRaise(RuntimeError('you can only change requires_grad flags of leaf'))
            old = o.meta
            new = dict(old)
            new['grad'] = v
            new['leaf'] = True
            o.meta = new

            def undo():
                o.meta = old
            I.log(undo, ('aux',))
            return
        if name == 'grad':
            old = o.meta
            o.meta = dict(old)
            o.meta['gradval'] = v

            def undo2():
                o.meta = old
            I.log(undo2, ('aux',))
            return
    if isinstance(o, ExtObj) and o.kind == 'symbol':
        o.data['attrs'][name] = v
        return
    if isinstance(o, SQobj) and name == 'dims':
        o.dims = v
        return
    if isinstance(o, ExtObj) and o.kind == 'ctx':
        o.data.setdefault('attrs', {})[name] = v
        return
    if isinstance(o, Ext):
        I.events.append(('store', o.name + '.' + name))
        return
    if o is None or isnum(o) or isinstance(o, (str, tuple, SList, SDict)):
        raise PyRaise(AttributeError(name))
    if isinstance(o, Arr) and o.kind == 'torch' and name == 'dims':
        o.meta = dict(o.meta, dims=v)      # a label; no operation reads it
        return
    raise Unsupported(f'attribute store on {type(o).__name__}')


def ext_isinstance(I, v, name):
    last = name.split('.')[-1]
    if name in ('numpy.ndarray', 'ndarray'):
        return isinstance(v, Arr) and v.kind == 'np'
    if name in ('torch.Tensor', 'Tensor'):
        return isinstance(v, Arr) and v.kind == 'torch'
    if last == 'Qobj':
        return isinstance(v, (SQobj, TensQ))
    if last in ('Number', 'Real', 'Complex'):
        return isinstance(v, (int, SNum))
    if last == 'OrderedDict':
        return isinstance(v, SDict)
    if last in ('Iterable', 'Sequence'):
        return isinstance(v, (SList, tuple, str, Arr))
    if last in ('float64', 'floating'):
        return False
    if last == 'Callable':
        return I.models.b_callable(I, v)
    raise Unsupported(f'isinstance with {name}')


# ---------------------------------------------------- standard library

@ext('collections.OrderedDict')
def _od(I, v=None):
    return I.models.b_dict(I, v) if v is not None else SDict()


@ext('collections.defaultdict')
def _dd(I, f=None, *a):
    if not a and isinstance(f, SFunc):
        z = I.call(f, [], {})
        if type(z) in (int, float) and z == 0:
            m = FunDict(ZEROP)          # 0 stands for the zero array too
            m.default = f
            return m
    d = SDict()
    d.default = f
    return d


@ext('logging.getLogger')
def _logger(I, *a):
    return ExtObj('logger')


@ext('copy.copy')
def _copy(I, o):
    if isinstance(o, SObj):
        if I.class_attr(o.cls, '__copy__') is not None:
            raise Unsupported('__copy__')
        return restored(I, SObj(o.cls, {}), state_of(I, o))
    if isinstance(o, (SList, SDict)):
        return I.models.m_copy(I, o)
    if isinstance(o, Arr):
        return am_clone(I, o)
    if o is None or isinstance(o, (int, str, SNum, tuple, SFunc, SClass, UFun)):
        return o
    if isinstance(o, SQobj):
        return qmethod(I, o, 'copy', [], {})
    raise Unsupported('copy')


def state_of(I, o):
    """What copy and pickle take over from an object."""
    m = I.class_attr(o.cls, '__getstate__')
    if any(I.class_attr(o.cls, x) is not None for x in ('__reduce__', '__reduce_ex__', '__getnewargs__')):
        raise Unsupported('custom reduction')
    if m is None:
        return SDict([[k, v] for k, v in o.attrs.items()])
    st = I.call(SBound(m, o), [], {})
    if isinstance(st, ExtObj) and st.kind == '__dict__':
        if st.data['obj'] is not o:
            raise Unsupported('state of another object')
        return SDict([[k, v] for k, v in o.attrs.items()])
    if not isinstance(st, SDict) or any(not isinstance(x, list) for x in st.items):
        raise Unsupported('state of an object')
    return st


def restored(I, n, st):
    m = I.class_attr(n.cls, '__setstate__')
    if m is not None:
        I.call(SBound(m, n), [st], {})
    else:
        n.attrs.update((k, v) for k, v in st.items)
    return n


@ext('dill.dump', 'pickle.dump')
def _dump(I, o, f, *a, **kw):
    if not (isinstance(f, ExtObj) and f.kind == 'file'):
        raise Unsupported('dump')
    path, mode = f.data['path'], f.data['mode']
    if not isinstance(path, str) or 'w' not in mode or 'b' not in mode:
        raise Unsupported('file')
    old, had = I.files.get(path), path in I.files
    I.files[path] = deepcopy(I, o, {})

    def undo():
        if had:
            I.files[path] = old
        else:
            I.files.pop(path, None)
    I.log(undo, ('aux',))


@ext('dill.load', 'pickle.load')
def _load(I, f, *a, **kw):
    path, mode = f.data['path'], f.data['mode']
    if 'b' not in mode or path not in I.files:
        raise PyRaise(FileNotFoundError(str(path)))
    return deepcopy(I, I.files[path], {})


@ext('copy.deepcopy')
def _deepcopy(I, o, memo=None):
    return deepcopy(I, o, {})


def deepcopy(I, o, memo):
    if o is None or isinstance(o, (int, str, SNum, SBool, SFunc, SClass, SStr, UFun, UFunInst, Ext,
                                   Builtin)):
        return o
    oid = getattr(o, 'oid', None)
    if oid is not None and oid in memo:
        return memo[oid]
    if isinstance(o, SObj):
        m = I.class_attr(o.cls, '__deepcopy__')
        if m is not None:
            raise Unsupported('__deepcopy__')
        n = SObj(o.cls, {})
        memo[oid] = n
        st = state_of(I, o)
        return restored(I, n, SDict([[k, deepcopy(I, v, memo)] for k, v in st.items]))
    if isinstance(o, SList):
        n = SList([])
        memo[oid] = n
        n.items = [Seg(x.N, x.k, [(c, [deepcopy(I, y, memo) for y in xs]) for c, xs in x.cases])
                   if isinstance(x, Seg) else deepcopy(I, x, memo) for x in o.items]
        return n
    if isinstance(o, tuple):
        return tuple(deepcopy(I, x, memo) for x in o)
    if isinstance(o, SDict):
        n = SDict()
        n.default, n.keycmp = o.default, o.keycmp
        memo[oid] = n
        for x in o.items:
            if isinstance(x, DSeg):
                n.items.append(DSeg(x.N, x.k, x.cond, deepcopy(I, x.key, memo),
                                    deepcopy(I, x.val, memo)))
            else:
                n.items.append([deepcopy(I, x[0], memo), deepcopy(I, x[1], memo)])
        return n
    if isinstance(o, Arr):
        if o.kind == 'torch' and o.meta.get('grad') and not o.meta.get('leaf', False):
            raise PyRaise(RuntimeError('Only Tensors created explicitly by the user support deepcopy'))
        n = Arr(o.kind, o.shape, o.val, o.dtype, **o.meta)
        memo[oid] = n
        return n
    if isinstance(o, SQobj):
        return SQobj(o.nc, o.shape, o.kind, o.fmt, o.dims, o.zero_if)
    if isinstance(o, FamObj):
        return FamObj(copy_fam(I, o.fam, memo), o.ident)
    raise Unsupported(f'deepcopy of {type(o).__name__}')


def copy_fam(I, f, memo):
    """The copies of the objects of a family made by one deepcopy."""
    c = memo.get(('family', id(f)))
    if c is None:
        I.copies = getattr(I, 'copies', 0) + 1
        c = Fam(f"{f.name}'{I.copies}", f.classes, {}, f.tagfn)
        memo[('family', id(f))] = c
        for a, g in f.attrs.items():
            c.attrs[a] = lambda I, o, g=g: deepcopy(I, g(I, FamObj(f, o.ident)), memo)
        for (name, a), ws in list(I.famw.items()):
            if name == f.name:
                key = (c.name, a)
                I.famw[key] = [(w[0], deepcopy(I, w[1], memo)) + tuple(w[2:]) for w in ws]
                I.log(lambda key=key: I.famw.pop(key, None), ('famw', c.name, a, ZEROP))
    return c


def ranks(I, seg):
    """Number of index vectors below the sizes of a segment."""
    size = P(seg.item(IXP[0]))
    return prod_term(I, seg), seg.N, size


def product_of_family(I, seg):
    """product(range(s_0), .., range(s_{d-1})): the index vectors in
    lexicographic order, each once; entry a of the t-th is digit(t, a)."""
    if not seg.is_uniform():
        raise Unsupported('product of a filtered sequence')
    r = seg.item(IXP[0])
    if not (isinstance(r, ExtObj) and r.kind == 'range' and r.data['lo'].is_zero()
            and r.data['step'] == 1):
        raise Unsupported('product of sequences that are not ranges')
    a = I.fresh('k')
    sizes = Seg.uniform(seg.N, a, num(r.data['hi'].subst({IX[0]: Poly.atom(a)}), 'int'))
    T, d, size = ranks(I, sizes)
    name, _ = digit_fun(I, sizes)
    t, b = I.fresh('k'), I.fresh('k')
    vec = SList([Seg.uniform(d, b, num(Poly.atom(APP(
        name, (Poly.atom(t), Poly.atom(b)), 'I')), 'int'))])
    vec.is_tuple = vec.frozen = True
    return ExtObj('iter', items=[Seg(T, t, [(ONEP, [vec])])])


def digit_fun(I, sizes):
    """Name of the function digit(t, a) for these sizes, and their number."""
    T, d, size = ranks(I, sizes)
    if any(x.name.startswith('%') for x in size.fv | d.fv if x not in IX):
        raise Unsupported('product inside a loop')
    name = f'digit[{d.key}|{size.key}]'

    def ax(args):
        t, b = args
        v = Poly.atom(APP(name, tuple(args), 'I'))
        g = ind_lit('<=', -t) * ind_lit('<', t - T) * ind_lit('<=', -b) * ind_lit('<', b - d)
        return [ONEP - g * ind_lit('<', v), ONEP - g * ind_lit('<=', size.subst({IX[0]: b}) - v)]

    def mv(m, args):
        t, b = int(args[0]), int(args[1])
        for x in range(int(m.poly(d)) - 1, -1, -1):
            n = int(m.poly(size, {IX[0]: x}))
            if n <= 0:
                return 0
            if x == b:
                return t % n
            t //= n
        return 0
    AXIOM[name], MODELV[name] = ax, mv
    return name, d


def rank_index(I, a, idx):
    """An index that contains a whole index vector: its rank."""
    items = idx.items
    out = []
    for pos, x in enumerate(items):
        if isinstance(x, Seg):
            if a.meta.get('vec') is None or a.meta['vec'][0] != pos or not x.is_uniform():
                raise Unsupported('index of unknown length')
            _, d, size = a.meta['vec']
            p = P(x.item(IXP[0]))
            at = next(iter(p.atoms()), None)
            if at is None or p != Poly.atom(at) or at.kind != 'app' \
                    or at.fn != f'digit[{d.key}|{size.key}]' or at.args[1] != IXP[0] or x.N != d:
                raise Unsupported('index of unknown length')
            out.append(num(at.args[0], 'int'))
        else:
            out.append(x)
    return tuple(out)


@ext('itertools.product')
def _product(I, *vs, repeat=1):
    if len(vs) == 1 and isinstance(vs[0], Seg) and repeat == 1:
        return product_of_family(I, vs[0])
    ls = [I.models.iter_items(I, v) for v in vs] * repeat

    def level(i, pre):
        if i == len(ls):
            return [tuple(pre)]
        out = []
        for x in ls[i]:
            if isinstance(x, Hist):
                raise Unsupported('product of a sequence under construction')
            if isinstance(x, Seg):
                k = I.fresh('k')
                mp = {x.k: Poly.atom(k)}
                if x.nested:
                    raise Unsupported('product of nested sequences')
                out.append(Seg(x.N, k, [(c.subst(mp), [z for y in ys for z in level(
                    i + 1, pre + [subst_value(y, mp)])]) for c, ys in x.cases]))
            else:
                out += level(i + 1, pre + [x])
        return out
    return ExtObj('iter', items=level(0, []))


def autograd_apply(I, cls, args, kw):
    ctx = ExtObj('ctx')
    fw = I.getattr(cls, 'forward')
    setup = I.class_attr(cls, 'setup_context')
    if setup is not None:
        r = I.call(fw, list(args), {})
        I.call(I.getattr(cls, 'setup_context'), [ctx, tuple(args), r], {})
    else:
        r = I.call(fw, [ctx] + list(args), {})
    if isinstance(r, Arr) and any(isinstance(a, Arr) and a.meta.get('grad') for a in args):
        r = Arr(r.kind, r.shape, r.val, r.dtype, **{**r.meta, 'grad': True, 'leaf': False})
    return r


def fun_get(I, d, k):
    ident = fun_key(k)
    v = d.val
    v = v.subst({IX[0]: ident})
    return wrap_fun(d, v)


def fun_key(k):
    if isinstance(k, FamObj):
        return k.ident
    raise Unsupported('key of a total map')


def wrap_fun(d, v):
    w = getattr(d, 'wrap', None)
    if w is not None:
        return w(v)
    if d.shape is not None:
        return Arr('np', d.shape, ssubst(v, {IX[i + 1]: IXP[i] for i in range(len(d.shape))}), 'float')
    if isinstance(v, NC):
        raise Unsupported('total map value')
    return num(v, 'float')


def fun_set(I, d, k, v):
    if isinstance(k, SObj) and isinstance(d.val, Poly) and d.val.is_zero() and getattr(d, 'default', None):
        # nothing stored yet and keys are single objects: an ordinary dictionary
        was = dict(d.__dict__)

        def undo():
            d.__class__ = FunDict
            d.__dict__.clear()
            d.__dict__.update(was)
        I.log(undo, ('fun', d))
        d.__class__ = SDict
        d.items, d.keycmp = [], None
        return I.models.dict_set(I, d, k, v)
    ident = fun_key(k)
    g = ind_lit('=', IXP[0] - ident)
    unw = getattr(d, 'unwrap', None)
    if unw is None and isinstance(v, Arr) and v.ndim:
        if d.shape is None:
            d.shape = v.shape
        if len(d.shape) != v.ndim or any(not prove_zero(x - y, I.ctx())
                                         for x, y in zip(d.shape, v.shape)):
            raise Unsupported('arrays of different shapes in one map')
        p = ssubst(entries(v), {IX[i]: IXP[i + 1] for i in range(v.ndim)})
    else:
        if unw is None and d.shape is not None:
            raise Unsupported('numbers and arrays in one map')
        p = unw(v) if unw is not None else P(v)
    cur = d.val
    if isinstance(cur, NC) or isinstance(p, NC):
        if isinstance(cur, Poly):
            cur = NC({}) if cur.is_zero() else cur
        pe = cur.subst({IX[0]: ident})
        I.set_fun(d, cur + (p - pe).scale(g))
        return
    pe = cur.subst({IX[0]: ident})
    I.set_fun(d, cur + g * (p - pe))


from . import grids as GR
from . import symb as SY
