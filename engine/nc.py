"""Operators and matrices: non-commutative polynomials with index slots.

A value is a finite map  family -> coefficient.  A family is a word of letters;
a letter with r index arguments owns r integer slots.  The value denotes
    sum over all integer slot assignments of coefficient(slots) * word(slots),
so  Q_i  is the family (Q,) with coefficient [s0 = i], and a sum over an index
is a sum of coefficients.  Two values are equal if all coefficients agree.
"""
from fractions import Fraction
from .terms import *
from . import terms as T

SLOT = [VAR(f'$s{i}', 'I') for i in range(24)]
SLOTP = [Poly.atom(v) for v in SLOT]


class Letter:
    """name, number of slots and the marks inverse/transpose/conjugate."""
    __slots__ = ('base', 'inv', 't', 'c', 'key', '_h')
    tab = {}

    def __new__(cls, base, inv=False, t=False, c=False):
        if base.real:
            c = False
        if base.sym:
            t = False
        if base.herm and c:
            t, c = not t, False
        if base.unitary and inv:
            inv, t, c = False, not t, not c
            if base.real:
                c = False
        k = base.name + ('~-1' if inv else '') + ('~T' if t else '') + ('~c' if c else '')
        if k in cls.tab and cls.tab[k].base is base:
            return cls.tab[k]
        self = object.__new__(cls)
        self.base, self.inv, self.t, self.c, self.key = base, inv, t, c, k
        self._h = hash(k)
        cls.tab[k] = self
        return self

    def __eq__(self, o):
        return self is o or (isinstance(o, Letter) and self.key == o.key)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.key

    def tr(self):
        return Letter(self.base, self.inv, not self.t, self.c)

    def cj(self):
        return Letter(self.base, self.inv, self.t, not self.c)

    def dag(self):
        return Letter(self.base, self.inv, not self.t, not self.c)

    def inverse(self):
        return Letter(self.base, not self.inv, self.t, self.c)


class Base:
    """A letter's underlying symbol."""
    tab = {}

    def __new__(cls, name, nslots=0, herm=False, sym=False, real=False,
                unitary=False, kind='op', ev=None, inner=None):
        b = cls.tab.get(name)
        if b is not None:
            return b
        b = object.__new__(cls)
        b.name, b.nslots, b.herm, b.sym, b.real = name, nslots, herm, sym, real
        b.unitary, b.kind, b.ev, b.inner = unitary, kind, ev, inner
        b.fv = frozenset()
        cls.tab[name] = b
        return b


# adjacent-letter rewriting: (key1, key2) -> None (identity) for slotless letters
PAIR_RULES = {}


def diag_base(p):
    """Diagonal matrix with the entries p, a polynomial in the row index."""
    b = Base(f'diag{{{p.key}}}', kind='mat', sym=True, real=p.sort() != 'C')
    b.inner = ('diag', p)
    b.fv = frozenset(v for v in p.fv if v != ROW)
    return b


def diag_of(l):
    """Entries of a diagonal letter, None for other letters."""
    if l.base.inner is None or l.base.inner[0] != 'diag':
        return None
    p = l.base.inner[1]
    return p.inv() if l.inv else p


ROW = VAR('$i0', 'I')


def reduce_word(w):
    """Cancel adjacent slotless inverse pairs and registered pairs; diagonal
    matrices side by side are multiplied."""
    out = []
    for l in w:
        if out and l.base.nslots == 0 and out[-1].base.nslots == 0:
            p = out[-1]
            if (p.key, l.key) in PAIR_RULES or (
                    p.base is l.base and p == l.inverse()):
                out.pop()
                continue
            x, y = diag_of(p), diag_of(l)
            if x is not None and y is not None:
                out.pop()
                if x * y != ONEP:
                    out.append(Letter(diag_base(x * y)))
                continue
        out.append(l)
    return tuple(out)


def nslots(w):
    return sum(l.base.nslots for l in w)


def shift_slots(p, k):
    if k == 0:
        return p
    mp = {SLOT[i]: SLOTP[i + k] for i in range(len(SLOT) - k) if SLOT[i] in p.fv}
    # simultaneous substitution through temporaries
    tmp = {v: Poly.atom(VAR(f'$t{v.name}', 'I')) for v in mp}
    q = p.subst(tmp)
    return q.subst({VAR(f'$t{v.name}', 'I'): mp[v] for v in mp})


def permute_slots(p, perm):
    """perm: list, new slot index for each old slot."""
    tmp = {SLOT[i]: Poly.atom(VAR(f'$t{i}', 'I')) for i in range(len(perm))}
    q = p.subst(tmp)
    return q.subst({VAR(f'$t{i}', 'I'): SLOTP[perm[i]] for i in range(len(perm))})


class NC:
    __slots__ = ('t', '_key')

    def __init__(self, t):
        self.t = {w: c for w, c in t.items() if not c.is_zero()}
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = ' ++ '.join(
                f'{"".join("<" + l.key + ">" for l in w)}:{self.t[w].key}'
                for w in sorted(self.t, key=lambda w: [l.key for l in w]))
        return self._key

    def __eq__(self, o):
        return isinstance(o, NC) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    @property
    def fv(self):
        s = set()
        for w, c in self.t.items():
            s |= c.fv
            for l in w:
                s |= l.base.fv
        return frozenset(v for v in s if not v.name.startswith('$s'))

    def is_zero(self):
        return not self.t

    @staticmethod
    def sym(base, *idx):
        c = ONEP
        for i, p in enumerate(idx):
            c = c * ind_lit('=', SLOTP[i] - p)
        assert len(idx) == base.nslots
        return NC({(Letter(base),): c})

    @staticmethod
    def scalar(p):
        return NC({(): p})

    def __add__(self, o):
        d = dict(self.t)
        for w, c in o.t.items():
            d[w] = d[w] + c if w in d else c
        return NC(d)

    def __neg__(self):
        return NC({w: -c for w, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, p):
        return NC({w: c * p for w, c in self.t.items()})

    def __mul__(self, o):
        d = {}
        for w1, c1 in self.t.items():
            k = nslots(w1)
            for w2, c2 in o.t.items():
                w = reduce_word(w1 + w2)
                c = c1 * shift_slots(c2, k)
                d[w] = d[w] + c if w in d else c
        return NC(d)

    def _rev(self, f, conj):
        d = {}
        for w, c in self.t.items():
            n = nslots(w)
            # slot positions reverse blockwise with the word
            perm, pos = [0] * n, 0
            starts, s = [], 0
            for l in w:
                starts.append(s)
                s += l.base.nslots
            newpos = 0
            for li in range(len(w) - 1, -1, -1):
                for r in range(w[li].base.nslots):
                    perm[starts[li] + r] = newpos
                    newpos += 1
            nw = reduce_word(tuple(f(l) for l in reversed(w)))
            nc = permute_slots(c.conj() if conj else c, perm)
            d[nw] = d[nw] + nc if nw in d else nc
        return NC(d)

    def dag(self):
        return self._rev(lambda l: l.dag(), True)

    def trans(self):
        return self._rev(lambda l: l.tr(), False)

    def conj(self):
        return NC({tuple(l.cj() for l in w): c.conj() for w, c in self.t.items()})

    def inv(self):
        if len(self.t) == 1:
            (w, c), = self.t.items()
            if nslots(w) == 0:
                # product inverse
                return NC({reduce_word(tuple(l.inverse() for l in reversed(w))): c.inv()})
        name = f'inv{{{self.key}}}'
        b = Base(name, kind='mat')
        b.inner = ('inv', self)
        b.fv = self.fv
        return NC.sym(b)

    def subst(self, mp):
        d = {}
        for w, c in self.t.items():
            nw = tuple(letter_subst(l, mp) for l in w)
            nc = c.subst(mp)
            d[nw] = d[nw] + nc if nw in d else nc
        return NC(d)

    def sum(self, v, lo, hi):
        for w in self.t:
            for l in w:
                if v in l.base.fv:
                    raise Unsupported('sum over an index inside a compound operator')
        g = ind_lit('<=', lo - Poly.atom(v)) * ind_lit('<=', Poly.atom(v) - hi + ONEP)
        return NC({w: mk_sum(v, g * c) for w, c in self.t.items()})

    def close(self, prefix='braket:'):
        """Scalar denoted by words that are complete sandwiches."""
        out = ZEROP
        for w, c in self.t.items():
            n = nslots(w)
            real = all(l.base.real for l in w)
            out = out + _sum_slots(c, n, lambda s: word_app(prefix, w, s, ()))
        return out

    def entry(self, *ij):
        out = ZEROP
        for w, c in self.t.items():
            n = nslots(w)
            out = out + _sum_slots(c, n, lambda s: entry_app(w, s, ij))
        return out


def _sum_slots(c, n, f):
    """sum over slots of c * f(slots) with f a Poly of the slots."""
    p = c * f(SLOTP[:n])
    for i in range(n):
        if SLOT[i] in p.fv:
            p = mk_sum(SLOT[i], p)
    return p


def word_key(w):
    return ''.join('<' + l.key + '>' for l in w)


WORDS = {}


def word_app(prefix, w, slots, extra):
    k = prefix + word_key(w)
    WORDS[k] = w
    real = all(l.base.real for l in w)
    return Poly.atom(APP(k, tuple(slots) + tuple(extra), 'R' if real else 'C'))


def entry_app(w, slots, ij):
    if not w:
        return ind_lit('=', ij[0] - ij[1]) if len(ij) == 2 else ONEP
    if len(w) == 1 and len(ij) == 2:
        d = diag_of(w[0])
        if d is not None:
            return ind_lit('=', ij[0] - ij[1]) * d.subst({ROW: ij[0]})
        if w[0].base.inner is not None and w[0].base.inner[0] == 'blocks2':
            return blocks_entry(w[0], ij)
    if w[0].base.kind == 'ket' and w[0].t and w[-1].base.kind == 'ket' and not w[-1].t \
            and all(x.is_zero() for x in ij):
        return word_app('braket:', w, slots, ())
    real = all(l.base.real for l in w)
    if len(ij) == 2 and w[-1].base.kind == 'ket' and not w[-1].t and ij[1].is_zero():
        ij = ij[:1]
    if len(ij) == 2:
        # canonical choice between the word and its transpose
        tw = tuple(l.tr() for l in reversed(w))
        if word_key(tw) < word_key(w) and nslots(w) == 0:
            w, ij = tw, (ij[1], ij[0])
        elif tw == w and nslots(w) == 0 and ij[1].key < ij[0].key and len(w) >= 1:
            ij = (ij[1], ij[0])
    return word_app('entry:' if real else 'centry:', w, slots, ij)


def _entry_subst(a, args):
    w = WORDS[a.fn]
    k = nslots(w)
    return entry_app(w, args[:k], args[k:])


SUBST_HOOKS['entry:'] = _entry_subst


def _ncconj(a):
    w = WORDS[a.fn]
    n = nslots(w)
    if a.fn.startswith('braket:'):
        nw = tuple(l.dag() for l in reversed(w))
        args, pos = [], []
        s = 0
        for l in w:
            pos.append(a.args[s:s + l.base.nslots])
            s += l.base.nslots
        for p in reversed(pos):
            args += list(p)
        return word_app('braket:', nw, args, a.args[n:])
    nw = tuple(l.cj() for l in w)
    return entry_app(nw, a.args[:n], a.args[n:])


set_ncconj(_ncconj)


def letter_subst(l, mp):
    b = l.base
    if not (b.fv & mp.keys()):
        return l
    nb = b.inner[0].__class__ is str and rebuild(b, mp)
    return Letter(nb, l.inv, l.t, l.c)


REBUILD = {}


def rebuild(b, mp):
    return REBUILD[b.inner[0]](b, mp)


def _rebuild_inv(b, mp):
    nc = b.inner[1].subst(mp)
    (w, c), = nc.inv().t.items()
    return w[0].base


REBUILD['inv'] = _rebuild_inv


def _rebuild_diag(b, mp):
    return diag_base(b.inner[1].subst(mp))


REBUILD['diag'] = _rebuild_diag

# letter -> product it stands for; product -> equal value
EXPAND = {}
SUBWORD = {}


def normal_form(nc, products=True):
    """Equal value by the equations above."""
    out = NC({})
    for w, c in nc.t.items():
        ls = []
        for l in w:
            e = EXPAND.get(l.base.name)
            if e is None:
                ls.append(l)
                continue
            if l.inv:
                e = tuple(x.inverse() for x in reversed(e))
            if l.t:
                e = tuple(x.tr() for x in reversed(e))
            ls += e
        ls = reduce_word(tuple(ls))
        hit = None
        for lhs, rhs in SUBWORD.items() if products else ():
            for i in range(len(ls) - len(lhs) + 1):
                if ls[i:i + len(lhs)] == lhs:
                    hit = NC({ls[:i]: ONEP}) * rhs * NC({ls[i + len(lhs):]: ONEP})
                    break
            if hit is not None:
                break
        if nslots(w) and (hit is not None or ls != w):
            raise Unsupported('equations between indexed operators')
        out = out + (NC({ls: c}) if hit is None else normal_form(hit).scale(c))
    return out


def blocks2(a, x, y):
    """Block-diagonal matrix of x, with a rows, and y."""
    b = Base(f'blocks2{{{a.key}|{x.key}|{y.key}}}', kind='mat')
    b.inner = ('blocks2', a, x, y)
    b.fv = a.fv | x.fv | y.fv
    b.real = all(l.base.real for z in (x, y) for w in z.t for l in w)
    return b


def blocks_entry(l, ij):
    _, a, x, y = l.base.inner
    i, j = ij
    out = ZEROP
    for z, off, g in ((x, ZEROP, ind_lit('<', i - a) * ind_lit('<', j - a)),
                      (y, a, ind_lit('<=', a - i) * ind_lit('<=', a - j))):
        if l.inv:
            z = z.inv()
        if l.t:
            z = z.trans()
        if l.c:
            z = z.conj()
        out = out + g * z.entry(i - off, j - off)
    return out


def _rebuild_blocks2(b, mp):
    _, a, x, y = b.inner
    return blocks2(a.subst(mp), x.subst(mp), y.subst(mp))


REBUILD['blocks2'] = _rebuild_blocks2
