"""Symbolic expressions of the library and the text made of them.

An expression is the term it stands for.  A symbol is a function of the
indices in its name: `Symbol(f'omega_{i}')` is the atom `sym omega_{}` at i.
Ladder operators are kept in normal order, so that the other order differs by
a commutator.  Printing an equation gives a piece of text that says so.
"""
import re
from .terms import *
from .values import *
from .models import P, num, isnum, kindof
from . import extmodels as EM
from .extmodels import ext
from . import interp as IN

LOWER, RAISE = 'sym a_{}', 'sym ad_{}'
EXACT = [False]     # rounding to two or more decimals taken as exact


def rounded(n):
    """Whether rounding to n decimals is left out of account."""
    return EXACT[0] and n is not None and n >= 2


# ------------------------------------------------------------------ text

def pieces(t):
    """The text as a flat list of literal strings, statements and segments;
    separators between the items of a segment are left out."""
    if isinstance(t, str):
        return [t] if t else []
    if isinstance(t, SStr):
        return [y for x in t.parts for y in pieces(x)]
    if isinstance(t, Seg):
        return [Seg(t.N, t.k, [(c, [y for x in xs for y in pieces(x)]) for c, xs in t.nest])]
    if isinstance(t, tuple) and t[0] == 'join':
        out = []
        for i, x in enumerate(t[2]):
            out += (pieces(t[1]) if i else []) + pieces(x)
        return out
    return [t]


def split_name(t):
    """Name of a symbol: its pattern and the indices in it."""
    pat, args = '', []
    for x in pieces(t):
        if isinstance(x, str):
            for i, y in enumerate(re.split(r'(\d+)', x)):
                if i % 2:
                    args.append(Poly.const(int(y)))
                pat += '{}' if i % 2 else y
        elif isinstance(x, tuple) and x[0] == 'fmt' and x[2] == '' and isnum(x[1]):
            pat += '{}'
            args.append(P(x[1]))
        else:
            raise Unsupported('name of a symbol')
    return pat, tuple(args)


def symbol(t):
    pat, args = split_name(t)
    return SNum(Poly.atom(APP('sym ' + pat, args, 'R') if args else VAR('sym ' + pat, 'R')),
                'float')


def statements(text, X, says, kinds):
    """Sum over the equations lhs = rhs in the text of says(lhs) (X + rhs), plus
    kinds(i, word) for every line that gives the kind of mode i."""
    tot = ZEROP

    def walk(items):
        s, label = ZEROP, None
        for j, x in enumerate(items):
            if isinstance(x, Seg):
                t = ZEROP
                for c, xs in x.nest:
                    t = t + c * walk(xs)
                s = s + sum_range(x.k, ZEROP, x.N, merge_compl(t)) if not t.is_zero() else s
            elif isinstance(x, tuple) and x[0] == 'eq':
                s = s + says(x[1].p) * (X + x[2].p)
            elif isinstance(x, tuple) and x[0] == 'expr':
                raise Unsupported('expression without a statement')
            elif isinstance(x, tuple) and x[0] == 'fmt':
                if j and isinstance(items[j - 1], str) and items[j - 1].rstrip().endswith('mode'):
                    label = P(x[1])
            elif isinstance(x, str):
                m = re.search(r'mode (\d+)', x)
                if m:
                    label = Poly.const(int(m.group(1)))
                m = re.search('harmonic|charge', x)
                if m and label is not None:
                    s = s + kinds(label, m.group(0))
            elif isinstance(x, Hist):
                raise Unsupported('text under construction')
        return s
    return walk(pieces(text))


# ----------------------------------------------------------- expressions

def product(x, y):
    """Product with ladder operators in normal order."""
    if LOWER not in x.key or RAISE not in y.key:
        return x * y
    r = x * y
    for a, dx in derivs(x, LOWER):
        for b, dy in derivs(y, RAISE):
            r = r + dx * dy * ind_lit('=', a - b)
    return r


def derivs(p, fn):
    out = {}
    for m, c in p.t.items():
        hit = [(a, e) for a, e in m if fn in a.key]
        if not hit:
            continue
        if len(hit) > 1 or hit[0][1] != 1 or hit[0][0].kind != 'app' or hit[0][0].fn != fn:
            raise Unsupported('product of ladder operators')
        a = hit[0][0]
        k = a.args[0]
        out[k] = out.get(k, ZEROP) + Poly({tuple(x for x in m if x[0] != a): c})
    return out.items()


def value(v):
    if isinstance(v, Arr) and v.ndim == 0:
        return num(P(v), kindof(v))
    if isnum(v):
        return v if isinstance(v, SNum) else SNum(P(v), 'float')
    raise Unsupported(f'symbolic expression of {type(v).__name__}')


def is_symbolic(cls):
    return any(isinstance(b, Ext) and b.name.startswith('sympy.') for b in cls.mro)


def instantiate(I, cls, args, kw):
    """A class of symbols: its own __new__ runs, the base gives the symbol."""
    new = I.class_attr(cls, '__new__')
    if new is None:
        return symbol(args[0])
    r = I.call(new, [cls] + list(args), kw)
    if not (isinstance(r, ExtObj) and r.kind == 'symbol'):
        raise Unsupported('symbol class')
    s = symbol(r.data['name'])
    I.symbols.append((s, r.data['attrs']))
    return s


def base_new(I, args, kw):
    return ExtObj('symbol', name=args[1], attrs={})


base_new._vp_native = True


@ext('sympy.Symbol', 'sympy.symbols', 'sympy.physics.quantum.Operator')
def _symbol(I, name, **kw):
    EM.only(kw, 'real', 'positive', 'nonnegative')
    return symbol(name)


def fold(I, args, op, start):
    items = [it if isinstance(it, Seg) else value(it) for it in args]
    return I.models.b_sum(I, SList(items)) if op == 'Add' else mul(I, items)


def mul(I, items):
    r = ONEP
    for x in items:
        if isinstance(x, Seg):
            raise Unsupported('product of a list of factors')
        r = product(r, P(x))
    return SNum(r, 'float')


@ext('sympy.Add')
def _add(I, *args, evaluate=True):
    r = fold(I, args, 'Add', 0)
    return SNum(P(r), 'float')


@ext('sympy.Mul')
def _mul(I, *args, evaluate=True):
    return fold(I, args, 'Mul', 1)


@ext('sympy.Pow')
def _pow(I, a, b, evaluate=True):
    return I.models.binop(I, 'Pow', value(a), value(b))


@ext('sympy.Add.make_args')
def _make_args(I, v):
    # the terms of the sum, taken together
    return (value(v),)


@ext('sympy.nsimplify', 'sympy.simplify', 'sympy.sympify', 'sympy.S', 'sympy.expand', 'sympy.Float',
     'sympy.factor')
def _same(I, v, *a, **kw):
    if a or kw:
        raise Unsupported('sympy conversion')
    return value(v)


@ext('sympy.cos')
def _cos(I, v):
    return EM.F['numpy.cos'](I, value(v))


@ext('sympy.sin')
def _sin(I, v):
    return EM.F['numpy.sin'](I, value(v))


@ext('sympy.exp')
def _exp(I, v):
    return EM.F['numpy.exp'](I, value(v))


@ext('sympy.Matrix')
def _matrix(I, v):
    a = EM.as_arr(I, v)
    if a.ndim != 1:
        raise Unsupported('sympy matrix')
    return Arr('np', a.shape, EM.entries(a), a.dtype)


@ext('sympy.Eq')
def _eq(I, a, b, evaluate=True):
    return ExtObj('eq', lhs=value(a), rhs=value(b))


@ext('sympy.printing.latex.LatexPrinter', 'sympy.printing.pretty.pretty.PrettyPrinter')
def _printer(I, *a, **kw):
    return ExtObj('printer')


EM.CONSTS['sympy.pi'] = EM.CONSTS['numpy.pi']
EM.CONSTS['sympy.I'] = SNum(Poly.const(0, 1), 'complex')


def doprint(I, v):
    if isinstance(v, ExtObj) and v.kind == 'eq':
        return SStr((('eq', v.data['lhs'], v.data['rhs']),))
    return SStr((('expr', value(v)),))


def number_in(v):
    """Number a text like f'{x:.5e}' stands for."""
    p = pieces(v)
    if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'fmt':
        m = re.fullmatch(r'\.(\d+)[ef]', p[0][2]) if isinstance(p[0][2], str) else None
        if m and rounded(int(m.group(1))) and isnum(p[0][1]):
            return SNum(P(p[0][1]), 'float')
    raise Unsupported('number read from text')
