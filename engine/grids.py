"""Arrays over the points of a grid with any number of axes.

meshgrid of n coordinate vectors gives n arrays with n axes.  They are kept in
flattened form: one index, the position of the grid point in C order, so that
everything done entry by entry is done as for any array of one axis.  The axes
themselves are remembered apart: whether those of length one were dropped, and
in which order they come.
"""
from .terms import *
from .values import *
from .solve import AXIOM, MODELV
from .models import P, num, entries, ssubst, isnum
from . import extmodels as EM
from .extmodels import ext
from . import interp as IN

GRIDS = {}      # variable of the size -> Info


class Info:
    """axes: number of axes; size: length of an axis (of IX0); perm: axis of the
    grid (after dropping) that stands at position IX0."""
    mask = None

    def __init__(self, N, length, dropped, perm):
        self.N, self.length, self.dropped, self.perm = N, length, dropped, perm

    @property
    def axes(self):
        if not self.dropped:
            return self.N
        k = fresh_bound()
        return sum_range(k, ZEROP, self.N, ind_lit(
            '!=', self.length.subst({IX[0]: Poly.atom(k)}) - ONEP))

    @property
    def name(self):
        return f'points[{self.N.key}|{self.length.key}]' + '/dropped' * self.dropped \
            + (f'/{self.perm.key}' if self.perm != IXP[0] else '')


def size_var(info):
    v = VAR(info.name, 'I', True)
    GRIDS[v] = info
    return Poly.atom(v)


def info_of(a):
    if isinstance(a, Arr) and a.ndim == 1 and len(a.shape[0].t) == 1:
        for v in a.shape[0].fv:
            return GRIDS.get(v)
    return None


class Block(Info):
    """A vector over a product space seen with one axis per factor, or the part
    of it between bounds of the axes (sel: positions of the part in the whole)."""
    def __init__(self, I, sizes, mask=None, bounds=''):
        super().__init__(sizes.N, P(sizes.item(IXP[0])), False, IXP[0])
        self.sizes, self.mask, self.bounds = sizes, mask, bounds
        self.total = EM.prod_term(I, sizes)
        self.at = None if mask is None else EM.selector(self.total, IX[0], mask)(IXP[0])

    @property
    def name(self):
        return f'opaque#block[{self.N.key}|{self.length.key}]{self.bounds}'

    def part(self, I, lo, hi):
        """Entries with lo <= level < hi in every factor (both in IX0)."""
        if self.mask is not None:
            raise Unsupported('part of a part')
        name, d = EM.digit_fun(I, self.sizes)
        k = I.fresh('k')
        K = Poly.atom(k)
        l = Poly.atom(APP(name, (IXP[0], K), 'I'))
        c = ONEP
        if lo is not None:
            c = c * ind_lit('<=', lo.subst({IX[0]: K}) - l)
        if hi is not None:
            c = c * ind_lit('<', l - hi.subst({IX[0]: K}))
        return Block(I, self.sizes, mk_prod(k, self.N, c),
                     f'/{lo and lo.key}:{hi and hi.key}')

    def total_sum(self, I, e):
        """Sum of the entries e (in IX0)."""
        k = I.fresh('s')
        if self.mask is None:
            return sum_range(k, ZEROP, self.total, e.subst({IX[0]: Poly.atom(k)}))
        e = EM.replace_atom(e, next(iter(self.at.atoms())), Poly.atom(k))
        if IX[0] in e.fv:
            raise Unsupported('sum over a part of a product space')
        return sum_range(k, ZEROP, self.total, self.mask.subst({IX[0]: Poly.atom(k)}) * e)


def block(I, a, sh):
    """reshape of a vector to the sizes of the factors of its space."""
    if len(sh) != 1 or not isinstance(sh[0], Seg) or not sh[0].is_uniform():
        return None
    if a.ndim == 2 and a.shape[1] == ONEP:
        e = entries(a).subst({IX[1]: ZEROP})
    elif a.ndim == 1 and info_of(a) is None:
        e = entries(a)
    else:
        return None
    info = Block(I, sh[0])
    if not EM.prove_zero(a.shape[0] - info.total, I.ctx()):
        raise Unsupported('reshape to another size')
    return Arr(a.kind, (size_var(info),), e, a.dtype)


def block_axes(I, info, idx):
    """(condition on the axis in IX0, slice in IX0) for the axes an index names."""
    items = list(idx.items) if isinstance(idx, SList) else list(idx) if isinstance(idx, tuple) else [idx]
    if len(items) == 1 and isinstance(items[0], Seg) and EM.prove_zero(items[0].N - info.N, I.ctx()) \
            and all(len(xs) == 1 for _, xs in items[0].nest):
        return [(c.subst({items[0].k: IXP[0]}), subst_value(xs[0], {items[0].k: IXP[0]}))
                for c, xs in items[0].nest]
    if any(isinstance(x, Seg) for x in items) or items.count(Ellipsis) > 1:
        raise Unsupported('index into an array over a product space')
    at = items.index(Ellipsis) if Ellipsis in items else len(items)
    need = len(items) - (at < len(items))
    if I.ctx().plus(ind_lit('<', info.N - P(need))).sat() != 'unsat':
        raise Unsupported('index into an array over a product space')
    return [(ind_lit('=', IXP[0] - P(i)), x) for i, x in enumerate(items[:at])] \
        + [(ind_lit('=', IXP[0] - info.N + P(len(items) - i)), x)
           for i, x in enumerate(items) if i > at]


def block_slice(I, a, info, idx):
    """A slice along every axis, or along the first or last axes."""
    axes = block_axes(I, info, idx)
    if not all(isinstance(s, slice) and s.step in (None, 1) for _, s in axes):
        raise Unsupported('index into an array over a product space')

    def bound(v):
        if IX[0] in P(v).fv:
            return P(v) + info.length * ind_lit('<', P(v))
        return P(v) + info.length if I.decide(ind_lit('<', P(v))) else P(v)

    def bounds(part, rest):
        vs = [(c, getattr(s, part)) for c, s in axes]
        vs = [(c, v) for c, v in vs if v is not None and not (part == 'start' and P(v).is_zero())]
        if not vs:
            return None
        out = rest
        for c, v in vs:
            out = out + c * (bound(v) - rest)
        return out
    new = info.part(I, bounds('start', ZEROP), bounds('stop', info.length))
    return Arr(a.kind, (size_var(new),), ssubst(entries(a), {IX[0]: new.at}), a.dtype)


def moved(a, info):
    return Arr(a.kind, (size_var(info),), entries(a), a.dtype)


@ext('numpy.meshgrid')
def _meshgrid(I, *xs, indexing='xy', sparse=False, copy=True):
    if len(xs) != 1 or not isinstance(xs[0], Seg) or not xs[0].is_uniform() or sparse is not False:
        raise Unsupported('meshgrid of separate arrays')
    seg = xs[0]
    g = seg.item(IXP[1])
    if not isinstance(g, Arr) or g.ndim != 1:
        raise Unsupported('meshgrid of other things than vectors')
    length = g.shape[0].subst({IX[1]: IXP[0]})
    perm = IXP[0]
    if indexing == 'xy':
        perm = swapped(IXP[0], ZEROP, ONEP)
    elif indexing != 'ij':
        raise IN.PyRaise(ValueError('indexing'))
    info = Info(seg.N, length, False, perm)
    size = size_var(info)
    k = I.fresh('k')
    K = Poly.atom(k)
    item = seg.item(K)
    where = Poly.atom(APP('coordinate', (K, IXP[0]), 'I'))
    val = entries(item).subst({IX[0]: where})
    return SList([Seg.uniform(seg.N, k, Arr('np', (size,), val, item.dtype))])


def swapped(k, a, b):
    return k + ind_lit('=', k - a) * (b - a) + ind_lit('=', k - b) * (a - b)


def plain(info):
    if isinstance(info, Block):
        raise Unsupported('axes of a product space')


def drop(I, a, info):
    plain(info)
    if info.dropped:
        return a
    if info.perm != IXP[0]:
        raise Unsupported('axes dropped after reordering')
    return moved(a, Info(info.N, info.length, True, IXP[0]))


def reorder(I, a, info, ax):
    """ax: source axis of position IX0."""
    plain(info)
    return moved(a, Info(info.N, info.length, info.dropped, ssubst(info.perm, {IX[0]: ax})))


def transpose(I, a, axes):
    info = info_of(a)
    if len(axes) == 1 and isinstance(axes[0], (SList, tuple)):
        axes = list(axes[0].items if isinstance(axes[0], SList) else axes[0])
    if not axes:
        return reorder(I, a, info, info.axes - ONEP - IXP[0])
    pos, ax = ZEROP, ZEROP
    for x in axes:
        if isinstance(x, Seg):
            if not x.is_uniform():
                raise Unsupported('order of the axes')
            inside = ind_lit('<=', pos - IXP[0]) * ind_lit('<', IXP[0] - pos - x.N)
            ax = ax + inside * P(x.item(IXP[0] - pos))
            pos = pos + x.N
        else:
            ax = ax + ind_lit('=', IXP[0] - pos) * P(x)
            pos = pos + ONEP
    if not EM.prove_zero(pos - info.axes, I.ctx()):
        raise Unsupported('another number of axes')
    return reorder(I, a, info, ax)


def shape(I, a, info):
    if info.mask is not None:
        plain(info)
    k = I.fresh('k')
    K = Poly.atom(k)
    if info.perm == IXP[0] and not info.dropped:
        length = info.length.subst({IX[0]: K})
    else:
        length = Poly.atom(APP('length:' + info.name, (K,), 'I', True))
    return I.models.mk_tuple(I, [Seg.uniform(info.axes, k, num(length, 'int'))])


def attr(I, a, info, name):
    """Attributes that depend on the axes; NotImplemented for the others."""
    if name == 'shape':
        return shape(I, a, info)
    if name in ('reshape', 'flatten') and isinstance(info, Block):
        return NotImplemented
    if name == 'ndim':
        return num(info.axes, 'int')
    if name == 'T':
        return transpose(I, a, [])
    if name in ('reshape', 'flatten', 'view', 'diagonal', 'trace', 'dot', 'mm', 'matmul',
                'flat', 'tolist'):
        raise Unsupported(f'{name} of an array over a grid')
    return NotImplemented


@ext('numpy.swapaxes')
def _swapaxes(I, a, x, y):
    info = info_of(a)
    if info is None or not isinstance(x, int) or not isinstance(y, int) or x < 0 or y < 0:
        raise Unsupported('swapaxes')
    return reorder(I, a, info, swapped(IXP[0], Poly.const(x), Poly.const(y)))


EM.am_swapaxes = _swapaxes


@ext('numpy.nditer')
def _nditer(I, a, flags=None, **kw):
    info = info_of(a)
    if info is None or kw:
        raise Unsupported('nditer')
    return ExtObj('nditer', arr=a, cur=None)


def iteration(I, o):
    """Items of a loop over nditer: the positions."""
    k = I.fresh('k')
    return [Seg.uniform(o.data['arr'].shape[0], k, num(Poly.atom(k), 'int'))]


def at_point(I, a, idx):
    """Position a multi-index stands for."""
    info = info_of(a)
    if isinstance(info, Block):
        raise Unsupported('index into an array over a product space')
    if isinstance(idx, ExtObj) and idx.kind == 'gridpoint':
        if a.shape != idx.data['shape']:
            raise Unsupported('index of another array')
        return num(idx.data['p'], 'int')
    if info is not None and not isinstance(idx, (Arr,)):
        raise Unsupported('index into an array over a grid')
    return idx


HERMITE = 'He'


def he(n, x):
    """Hermite polynomial with weight exp(-x^2/2)."""
    return Poly.atom(APP(HERMITE, (n, x), 'R'))


def _he_value(m, args):
    n, x = args
    if n != int(n) or n < 0:
        return m.h(HERMITE, tuple(args))
    a, b = 1.0, x
    for k in range(1, int(n)):
        a, b = b, x * b - k * a
    return b if n >= 1 else a


MODELV[HERMITE] = _he_value


def _entrywise(I, f, n, x):
    if isinstance(n, Arr) and n.ndim:
        raise Unsupported('polynomials of several degrees')
    if isinstance(x, Arr) and x.ndim:
        return Arr(x.kind, x.shape, f(P(n), entries(x)), 'float')
    return num(f(P(n), P(x)), 'float')


@ext('scipy.special.eval_hermitenorm')
def _hermitenorm(I, n, x):
    return _entrywise(I, he, n, x)


@ext('mpmath.hermite', 'scipy.special.eval_hermite')
def _hermite(I, n, x):
    """H_n(x) = 2^(n/2) He_n(sqrt(2) x)."""
    two = Poly.const(2)
    return _entrywise(I, lambda n, x: f_exp(n * HALF * f_fun('log', two))
                      * he(n, f_fun('sqrt', two) * x), n, x)


for _a, _b in (('mpmath.sign', 'numpy.sign'), ('mpmath.log', 'numpy.log'),
               ('mpmath.fabs', 'numpy.abs'), ('mpmath.exp', 'numpy.exp'),
               ('mpmath.sqrt', 'numpy.sqrt')):
    if _b in EM.F:
        EM.F[_a] = EM.F[_b]


@ext('numpy.isfinite')
def _isfinite(I, v):
    """Whether the machine's result is finite: nothing is known about it."""
    AXIOM['isfinite'] = lambda args: []

    def f(p):
        return ind_lit('=', Poly.atom(APP('isfinite', (p,), 'I')) - ONEP)
    if isinstance(v, Arr) and v.ndim:
        return EM.arr_result(v.kind, v.shape, f(entries(v)), 'bool')
    return EM.mkbool(f(P(v)))


@ext('numpy.unravel_index')
def _unravel(I, i, shape):
    if not isnum(i) or not isinstance(shape, (SList, tuple)):
        raise Unsupported('unravel_index')
    items = list(shape.items if isinstance(shape, SList) else shape)
    if len(items) != 1 or not isinstance(items[0], Seg) or not items[0].is_uniform():
        raise Unsupported('unravel_index of this shape')
    return I.models.mk_tuple(I, [digits(I, P(i), items[0])])


def digits(I, t, sizes):
    """Segment of the digits of t, the last one running fastest."""
    name, d = EM.digit_fun(I, sizes)
    k = I.fresh('k')
    return Seg.uniform(d, k, num(Poly.atom(APP(name, (t, Poly.atom(k)), 'I')), 'int'))


@ext('scipy.special.gammaln', 'math.lgamma')
def _gammaln(I, x):
    """Logarithm of (x-1)! for a positive integer."""
    if not isnum(x) or P(x).sort() != 'I' or not I.ctx().entails(ind_lit('<=', ONEP - P(x))):
        raise Unsupported('gamma function')
    k = fresh_bound()
    return num(sum_range(k, ZEROP, P(x) - ONEP, f_fun('log', Poly.atom(k) + ONEP)), 'float')
