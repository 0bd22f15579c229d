"""Scalar terms: polynomials with complex rational coefficients over atoms.

Every scalar the verified code computes is kept in a normal form: a finite sum
of monomials, a monomial being a product of atoms with rational exponents.
Atoms are variables, applications of uninterpreted or axiomatised functions,
indicators of literals, finite sums over an integer index, and polynomials kept
closed because they stand under a root or in a denominator.
Real arithmetic is mathematical (no rounding); this is a stated assumption.
"""
from fractions import Fraction
import itertools

ZERO = (Fraction(0), Fraction(0))
ONE = (Fraction(1), Fraction(0))


class Unsupported(BaseException):
    """The construct is outside the reach of the verifier."""


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cmul(a, b):
    if not a[1] and not b[1]:
        return (a[0] * b[0], a[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)


# ----------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('key', '_h', 'fv', 'sort', 'pos', 'kind')
    _tab = {}

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self.key == o.key)

    def __hash__(self):
        return self._h

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return self.key


def _intern(cls, key, init):
    a = Atom._tab.get(key)
    if a is None:
        a = cls.__new__(cls)
        a.key = key
        a._h = hash(key)
        init(a)
        Atom._tab[key] = a
    return a


class VarA(Atom):
    __slots__ = ('name',)


def VAR(name, sort='R', pos=False):
    """A variable. sort is 'I', 'R', 'C' or 'B'; pos means strictly positive."""
    def init(a):
        a.name, a.sort, a.pos, a.kind = name, sort, pos, 'var'
        a.fv = frozenset([a])
    key = f'{name}:{sort}{"+" if pos else ""}'
    return _intern(VarA, key, init)


class AppA(Atom):
    __slots__ = ('fn', 'args')


def APP(fn, args, sort='R', pos=False):
    args = tuple(args)

    def init(a):
        a.fn, a.args, a.sort, a.pos, a.kind = fn, args, sort, pos, 'app'
        a.fv = frozenset().union(*[x.fv for x in args]) if args else frozenset()
    key = f'{fn}({",".join(x.key for x in args)}):{sort}{"+" if pos else ""}'
    return _intern(AppA, key, init)


class IndA(Atom):
    __slots__ = ('rel', 'poly')


def IND(rel, poly):
    def init(a):
        a.rel, a.poly, a.sort, a.pos, a.kind = rel, poly, 'I', False, 'ind'
        a.fv = poly.fv
    return _intern(IndA, f'[{poly.key}{rel}0]', init)


class SumA(Atom):
    __slots__ = ('var', 'body')


def SUMA(var, body, sort):
    def init(a):
        a.var, a.body, a.sort, a.pos, a.kind = var, body, sort, False, 'sum'
        a.fv = body.fv - {var}
    return _intern(SumA, f'SUM[{var.key}]{{{body.key}}}', init)


class ProdA(Atom):
    """Product of body over 0 <= var < N."""
    __slots__ = ('var', 'N', 'body')


def PRODA(var, N, body):
    def init(a):
        a.var, a.N, a.body, a.kind = var, N, body, 'prod'
        a.sort = body.sort()
        a.pos = is_pos(body)
        a.fv = (body.fv - {var}) | N.fv
    return _intern(ProdA, f'PROD[{var.key}<{N.key}]{{{body.key}}}', init)


class PolyA(Atom):
    __slots__ = ('poly',)


def POLYA(poly, pos=False):
    def init(a):
        a.poly, a.sort, a.pos, a.kind = poly, 'R', pos, 'poly'
        a.fv = poly.fv
    return _intern(PolyA, f'<{poly.key}>{"+" if pos else ""}', init)


class PrimeA(Atom):
    __slots__ = ('val',)


def PRIMEA(p):
    def init(a):
        a.val, a.sort, a.pos, a.kind, a.fv = p, 'R', True, 'prime', frozenset()
    return _intern(PrimeA, f'p{p}', init)


# ----------------------------------------------------------- polynomials

def _contradiction(d):
    inds = [a for a in d if a.kind == 'ind' and a.rel in ('=', '<=', '<')]
    for a in inds:
        (m, _), = ind_not(Poly.atom(a)).t.items()
        if m and m[0][0] in d:
            return True
    return False


def _mono_mul(m1, m2):
    """Product of two monomials -> (monomial, extra Poly factor or None)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    extra = None
    for a, e in m2:
        if a in d:
            ne = d[a] + e
            if a.kind == 'ind':
                ne = Fraction(1)
            if ne == 0:
                del d[a]
            else:
                d[a] = ne
        else:
            d[a] = e
    if _contradiction(d):
        return None, None
    # exponentials combine
    ex = []
    sg = None
    for a in d:
        if a.kind == 'app':
            if a.fn == 'exp':
                ex.append(a)
            elif a.fn == 'sign':
                sg = a
    if len(ex) > 1 or (len(ex) == 1 and d[ex[0]] != 1):
        tot = ZEROP
        for a in ex:
            tot = tot + a.args[0] * Poly.const(d.pop(a))
        p = f_exp(tot)
        extra = p
    if sg is not None and d[sg] > 0:
        # sign(x)*|x| = x
        q = sg.args[0]
        for a in [a for a in d if a.kind == 'app' and a.fn == 'abs' and d[a] >= 1]:
            if a.args[0] == q or a.args[0] == -q:
                for x in (a, sg):
                    d[x] -= 1
                    if d[x] == 0:
                        del d[x]
                extra = q if extra is None else extra * q
                break
    for a in list(d):
        if a.kind in ('poly', 'prime'):
            e = d[a]
            fl = e.numerator // e.denominator
            if a.kind == 'prime' and fl != 0:
                d[a] = e - fl
                if d[a] == 0:
                    del d[a]
                f = Poly.const(Fraction(a.val) ** fl)
                extra = f if extra is None else extra * f
            elif a.kind == 'poly' and e >= 1:
                d[a] = e - fl
                if d[a] == 0:
                    del d[a]
                f = a.poly.ipow(fl)
                extra = f if extra is None else extra * f
    return tuple(sorted(d.items(), key=lambda t: t[0].key)), extra


class Poly:
    __slots__ = ('t', '_key', '_fv', '_h')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._fv = None

    @staticmethod
    def const(c, im=0):
        c = (Fraction(c), Fraction(im))
        return Poly({(): c}) if c != ZERO else ZEROP

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, Fraction(e)),): ONE})

    @property
    def key(self):
        if self._key is None:
            if not self.t:
                self._key = '0'
            else:
                parts = []
                for m in sorted(self.t, key=_mono_key):
                    c = self.t[m]
                    cs = str(c[0]) if not c[1] else f'({c[0]}+{c[1]}i)'
                    ms = '*'.join(a.key if e == 1 else f'{a.key}^{e}' for a, e in m)
                    parts.append(cs if not ms else (ms if cs == '1' else cs + '*' + ms))
                self._key = '(' + ' + '.join(parts) + ')' if len(parts) > 1 else parts[0]
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        """(re, im) fractions, or None."""
        if not self.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.const_val()
        if c is not None and not c[1] and c[0].denominator == 1:
            return int(c[0])
        return None

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m)
            if n is None:
                d[m] = c
            else:
                s = cadd(n, c)
                if s == ZERO:
                    del d[m]
                else:
                    d[m] = s
        return Poly(d)

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = c if isinstance(c, tuple) else (Fraction(c), Fraction(0))
        if c == ZERO:
            return ZEROP
        return Poly({m: cmul(v, c) for m, v in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZEROP
        d = {}
        rest = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, extra = _mono_mul(m1, m2)
                if m is None:
                    continue
                c = cmul(c1, c2)
                if extra is not None:
                    r = Poly({m: c}) * extra
                    rest = r if rest is None else rest + r
                    continue
                n = d.get(m)
                if n is not None:
                    c = cadd(n, c)
                    if c == ZERO:
                        del d[m]
                        continue
                d[m] = c
        res = Poly(d)
        return res if rest is None else res + rest

    def ipow(self, n):
        if n < 0:
            return self.inv().ipow(-n)
        r = ONEP
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def content(self):
        """(c, p) with self = c*p, p having leading coefficient 1."""
        lead = max(self.t, key=_mono_key)
        c = self.t[lead]
        return c, self.scale(cinv(c))

    def inv(self):
        if not self.t:
            raise ZeroDivisionError('division by zero')
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if all(a.kind != 'ind' for a, _ in m):
                return Poly({tuple((a, -e) for a, e in m): cinv(c)})
            raise Unsupported('division by an indicator')
        c, p = self.content()
        # common monomial factor stays factored
        g, q = _common(p)
        SIDE.add(q)
        r = Poly({((POLYA(q, is_pos(q)), Fraction(-1)),): cinv(c)})
        return r * g.inv() if g is not None else r

    def fpow(self, e):
        """Real power with a rational exponent."""
        e = Fraction(e)
        if e.denominator == 1:
            return self.ipow(int(e)) if e >= 0 else self.inv().ipow(int(-e))
        if not self.t:
            return ZEROP
        if len(self.t) == 1:
            (m, c), = self.t.items()
            out = ONEP
            rest = []
            if c[1] == 0 and c[0] > 0:
                out = out * _rat_pow(c[0], e)
            elif c[1] == 0 and c[0] < 0:
                out = out * _rat_pow(-c[0], e)
                rest.append((None, -1))
            else:
                raise Unsupported('root of a complex constant')
            for a, x in m:
                if a.kind == 'ind':
                    out = out * Poly({((a, Fraction(1)),): ONE})
                elif a.pos or (a.kind == 'poly' and a.pos):
                    out = out * Poly({((a, x * e),): ONE})
                elif x.denominator == 1 and (x % 2 == 0):
                    # (a^2k)^e = |a|^(2ke)
                    out = out * f_abs(Poly.atom(a)).fpow(x * e)
                else:
                    rest.append((a, x))
            if rest:
                p = ONEP
                for a, x in rest:
                    p = p * (Poly.const(x) if a is None else Poly({((a, x),): ONE}))
                if len(p.t) == 1 and p == self:
                    return Poly({((POLYA(p), e),): ONE})
                if p.t == {(): (Fraction(-1), Fraction(0))}:
                    raise Unsupported('root of a negative number')
                out = out * Poly({((POLYA(p), e),): ONE})
            return out
        c, p = self.content()
        if c[1] == 0 and c[0] > 0:
            g, q = _common(p)
            if g is not None and is_pos(g):
                return _rat_pow(c[0], e) * g.fpow(e) * Poly({((POLYA(q, is_pos(q)), e),): ONE})
            return _rat_pow(c[0], e) * Poly({((POLYA(p, is_pos(p)), e),): ONE})
        if c[1] == 0:
            return _rat_pow(-c[0], e) * Poly({((POLYA(-p), e),): ONE})
        return Poly({((POLYA(self), e),): ONE})

    def conj(self):
        out = ZEROP
        for m, c in self.t.items():
            p = Poly.const(c[0], -c[1])
            for a, e in m:
                p = p * atom_conj(a).fpow(e)
            out = out + p
        return out

    def subst(self, mp):
        """mp: dict VarA -> Poly."""
        mp = {v: p for v, p in mp.items() if v in self.fv}
        if not mp:
            return self
        out = ZEROP
        for m, c in self.t.items():
            keep, ch = [], []
            for a, e in m:
                (keep if not (a.fv & mp.keys()) else ch).append((a, e))
            p = Poly({tuple(keep): c})
            for a, e in ch:
                p = p * atom_subst(a, mp).fpow(e)
            out = out + p
        return out

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def sort(self):
        s = 'I'
        for m, c in self.t.items():
            if c[1]:
                return 'C'
            if c[0].denominator != 1:
                s = 'R'
            for a, e in m:
                if a.sort == 'C':
                    return 'C'
                if a.sort != 'I' or e.denominator != 1 or e < 0:
                    s = 'R'
        return s


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


ZEROP = Poly({})
ONEP = Poly({(): ONE})
IUNIT = Poly({(): (Fraction(0), Fraction(1))})
HALF = Poly.const(Fraction(1, 2))


class _Side:
    """Denominators that must not vanish, collected as side conditions."""
    def __init__(self):
        self.items = {}

    def add(self, p):
        self.items[p.key] = p


SIDE = _Side()


def _common(p):
    """Largest common monomial of the terms of p -> (mono Poly or None, rest)."""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d:
                del common[a]
            else:
                common[a] = min(common[a], d[a])
        if not common:
            return None, p
    common = {a: e for a, e in common.items() if a.kind != 'ind'}
    if not common:
        return None, p
    g = Poly({tuple(sorted(common.items(), key=lambda t: t[0].key)): ONE})
    return g, p * g.inv()


def _factor(n):
    out = {}
    p = 2
    while p * p <= n and p < 200000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _rat_pow(q, e):
    out = ONEP
    for n, s in ((q.numerator, 1), (q.denominator, -1)):
        for p, k in _factor(n).items():
            x = Fraction(k * s) * e
            fl = x.numerator // x.denominator
            out = out * Poly.const(Fraction(p) ** fl)
            if x != fl:
                out = out * Poly({((PRIMEA(p), x - fl),): ONE})
    return out


def is_pos(p):
    """Syntactic sufficient condition for p > 0."""
    if not p.t:
        return False
    for m, c in p.t.items():
        if c[1] or c[0] <= 0:
            return False
        for a, e in m:
            if not (a.pos or (a.kind == 'app' and a.fn in ('exp', 'cosh'))):
                return False
    return True


# ------------------------------------------------------ atom operations

REAL_FNS = {'exp', 'cos', 'sin', 'log', 'tanh', 'sinh', 'cosh', 'sign', 'k0e',
            'kve', 'floor'}


def f_exp(p):
    if p.is_zero():
        return ONEP
    # exp(r*log q) = q**r; a logarithm is only taken of positive numbers
    out, rest = ONEP, {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].fn == 'log' \
                and c[1] == 0 and (c[0].denominator <= 2 or is_pos(m[0][0].args[0])):
            out = out * m[0][0].args[0].fpow(c[0])
        else:
            rest[m] = c
    if len(rest) < len(p.t):
        return out * f_exp(Poly(rest))
    return Poly.atom(APP('exp', (p,), 'C' if p.sort() == 'C' else 'R', p.sort() != 'C'))


def f_neg_lead(p):
    lead = max(p.t, key=_mono_key)
    c = p.t[lead]
    return c[0] < 0 or (c[0] == 0 and c[1] < 0)


def f_fun(fn, *args):
    """Axiomatised or uninterpreted real function."""
    p = args[0]
    if fn == 'exp':
        return f_exp(p)
    if fn == 'sqrt':
        return p.fpow(Fraction(1, 2))
    if fn == 'abs':
        return f_abs(p)
    if fn in ('cos', 'cosh'):
        if p.is_zero():
            return ONEP
        if f_neg_lead(p):
            p = -p
        return Poly.atom(APP(fn, (p,), p.sort() if p.sort() == 'C' else 'R', fn == 'cosh'))
    if fn in ('sin', 'sinh', 'tanh'):
        if p.is_zero():
            return ZEROP
        if f_neg_lead(p):
            return -f_fun(fn, -p)
        return Poly.atom(APP(fn, (p,), 'C' if p.sort() == 'C' else 'R',
                             fn != 'sin' and is_pos(p)))
    if fn == 'log':
        if p == ONEP:
            return ZEROP
        # log of products of positive factors
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c[1] == 0 and c[0] > 0 and all(a.pos for a, _ in m) and (m or c[0] != 1):
                out = ZEROP
                for n, s in ((c[0].numerator, 1), (c[0].denominator, -1)):
                    for q, k in _factor(n).items():
                        out = out + Poly.atom(APP('log', (Poly.const(q),), 'R')).scale(k * s)
                for a, e in m:
                    if a.kind == 'app' and a.fn == 'exp':
                        out = out + a.args[0].scale(e)
                    else:
                        out = out + Poly.atom(APP('log', (Poly.atom(a),), 'R')).scale(e)
                return out
            rest = tuple(x for x in m if not x[0].pos)
            if c[1] == 0 and c[0] > 0 and rest and (len(rest) < len(m) or c[0] != 1):
                # a logarithm is only taken of positive numbers
                return f_fun('log', Poly({rest: ONE})) + f_fun('log', Poly(
                    {tuple(x for x in m if x[0].pos): c}))
    if fn == 'sign':
        if p.is_zero():
            return ZEROP
        if is_pos(p):
            return ONEP
        if f_neg_lead(p):
            return -f_fun('sign', -p)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            k = tuple(x for x in m if not x[0].pos)
            if c[1] == 0 and (len(k) < len(m) or c != ONE) and k:
                return f_fun('sign', Poly({k: ONE}))
    if fn == 'floor' and p.sort() == 'I':
        return p
    sort = 'I' if fn in ('floor',) else 'R'
    return Poly.atom(APP(fn, args, sort, fn in ('k0e',)))


def f_abs(p):
    if p.is_zero():
        return p
    if is_pos(p):
        return p
    if p.sort() != 'C' and is_pos(-p):
        return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = Poly.const(abs(c[0])) if not c[1] else (
            Poly.const(abs(c[1])) if not c[0] else
            Poly.const(c[0] ** 2 + c[1] ** 2).fpow(Fraction(1, 2)))
        rest = ONEP
        for a, e in m:
            if a.kind == 'ind' or a.pos or (a.kind == 'poly' and e.denominator == 2):
                out = out * Poly({((a, e),): ONE})
            elif e % 2 == 0 and a.sort != 'C':
                out = out * Poly({((a, e),): ONE})
            elif a.kind == 'app' and a.fn in ('abs', 'exp') and a.sort == 'R':
                out = out * Poly({((a, e),): ONE})
            elif a.kind == 'app' and a.fn == 'exp':
                # |exp(z)| = exp(Re z)
                z = a.args[0]
                out = out * f_exp((z + z.conj()).scale(Fraction(e, 2)))
            else:
                rest = rest * Poly({((a, e),): ONE})
        if rest == ONEP:
            return out
        if rest != p:
            return out * f_abs(rest)
    c, q = p.content()
    if c != ONE:
        return f_abs(Poly.const(*c)) * f_abs(q)
    # take positive common factors out
    if len(q.t) > 1:
        g, r = _common(q)
        if g is not None:
            gp = f_abs(g)
            return gp * f_abs(r)
    cand = [q, -q]
    if q.sort() == 'C':
        cj = q.conj()
        cand += [cj, -cj, q * IUNIT, -(q * IUNIT), cj * IUNIT, -(cj * IUNIT)]
        cc = [x.content()[1] for x in cand]
        cand = cc
    best = min(cand, key=lambda x: x.key)
    return Poly.atom(APP('abs', (best,), 'R'))


def atom_conj(a):
    if a.sort in ('R', 'I', 'B'):
        return Poly.atom(a)
    if a.kind == 'app':
        if a.fn in CONJ_RULES:
            return CONJ_RULES[a.fn](a)
        if a.fn.startswith('braket:') or a.fn.startswith('centry:'):
            return NCCONJ(a)
        if a.fn in ('exp', 'cos', 'sin', 'sinh', 'cosh', 'tanh'):
            return f_fun(a.fn, a.args[0].conj())
        if a.fn == 'conj':
            return a.args[0]
        return Poly.atom(APP('conj', (Poly.atom(a),), 'C'))
    if a.kind == 'sum':
        return mk_sum(a.var, a.body.conj())
    if a.kind == 'prod':
        return mk_prod(a.var, a.N, a.body.conj())
    if a.kind == 'poly':
        q = a.poly.conj()
        if len(q.t) == 1:
            return q
        c, p = q.content()
        return Poly.atom(POLYA(p, a.pos)).scale(c)
    return Poly.atom(APP('conj', (Poly.atom(a),), 'C'))


CONJ_RULES = {}
SUBST_HOOKS = {}


def NCCONJ(a):
    raise Unsupported('conj')


def set_ncconj(f):
    global NCCONJ
    NCCONJ = f


_subst_cache = {}


def atom_subst(a, mp):
    if a.kind == 'var':
        return mp.get(a, None) or (mp[a] if a in mp else Poly.atom(a))
    mp = {v: p for v, p in mp.items() if v in a.fv}
    key = (a, tuple(sorted((v.key, p.key) for v, p in mp.items())))
    r = _subst_cache.get(key)
    if r is None:
        if len(_subst_cache) > 300000:
            _subst_cache.clear()
        r = _subst_cache[key] = _atom_subst(a, mp)
    return r


def _atom_subst(a, mp):
    if a.kind == 'app':
        args = tuple(x.subst(mp) for x in a.args)
        if args == a.args:
            return Poly.atom(a)
        if a.fn in ('exp', 'cos', 'sin', 'sinh', 'cosh', 'tanh', 'log', 'sign', 'abs', 'floor'):
            return f_fun(a.fn, *args)
        if a.fn in SUBST_HOOKS:
            return SUBST_HOOKS[a.fn](a, args)
        if a.fn.startswith(('entry:', 'centry:')):
            return SUBST_HOOKS['entry:'](a, args)
        return Poly.atom(APP(a.fn, args, a.sort, a.pos))
    if a.kind == 'ind':
        return ind_lit(a.rel, a.poly.subst(mp))
    if a.kind in ('sum', 'prod'):
        # capture avoidance: rename the bound variable when needed
        body, var, full = a.body, a.var, mp
        if var in mp:
            mp = {k: v for k, v in mp.items() if k is not var}
        for p in mp.values():
            if var in p.fv:
                nv = fresh_bound()
                body = body.subst({var: Poly.atom(nv)})
                var = nv
                break
        if a.kind == 'prod':
            return mk_prod(var, a.N.subst(full), body.subst(mp))
        return mk_sum(var, body.subst(mp))
    if a.kind == 'poly':
        p = a.poly.subst(mp)
        if p == a.poly:
            return Poly.atom(a)
        if len(p.t) == 1:
            return p
        c, q = p.content()
        if c[1] == 0 and c[0] > 0:
            return Poly.atom(POLYA(q, is_pos(q))).scale(c)
        return Poly.atom(POLYA(p, is_pos(p)))
    return Poly.atom(a)


# ------------------------------------------------------------ indicators

INJECTIVE = set()      # functions declared injective by a contract's precondition


def _inj_args(q):
    """a - b if q is f(a) - f(b) with f injective."""
    if len(q.t) != 2:
        return None
    (m1, c1), (m2, c2) = q.t.items()
    if c1[1] or c2[1] or c1[0] + c2[0] != 0 or len(m1) != 1 or len(m2) != 1 \
            or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a, b = m1[0][0], m2[0][0]
    if a.kind == b.kind == 'app' and a.fn == b.fn and a.fn in INJECTIVE and len(a.args) == 1:
        return a.args[0] - b.args[0]
    return None


def ind_lit(rel, p):
    """Indicator polynomial of p rel 0, rel in ('=', '!=', '<=', '<')."""
    c = p.const_val()
    if c is not None:
        if rel == '=':
            return ONEP if c == ZERO else ZEROP
        if rel == '!=':
            return ONEP if c != ZERO else ZEROP
        if rel == '<':
            return ONEP if c[0] < 0 else ZEROP
        return ONEP if c[0] <= 0 else ZEROP
    if rel in ('=', '!='):
        k, q = p.content()
        d = _inj_args(q)
        if d is not None:
            return ind_lit(rel, d)
        if len(q.t) == 1:
            # positive factors do not matter
            (m, _), = q.t.items()
            m = tuple((a, e) for a, e in m if not a.pos)
            if not m:
                return ZEROP if rel == '=' else ONEP
            q = Poly({m: ONE})
            if all(a.kind == 'ind' for a, _ in m):
                if rel == '!=':
                    return q
                if len(m) == 1:
                    return ind_not(q)
        return Poly.atom(IND(rel, q))
    if p.sort() == 'C':
        raise Unsupported('order comparison of complex numbers')
    if rel == '<':
        if p.sort() == 'I':
            return ind_lit('<=', p + ONEP)
        lead = max((m for m in p.t if m), key=_mono_key)
        return Poly.atom(IND('<', p.scale(1 / abs(p.t[lead][0]))))
    if p.sort() == 'I':
        # divide by the gcd of the non-constant coefficients
        from math import gcd
        g = 0
        for m, v in p.t.items():
            if m:
                g = gcd(g, int(v[0]))
        if g > 1:
            k0 = p.t.get((), ZERO)[0]
            q = (p - Poly.const(k0)).scale(Fraction(1, g))
            # g*q + k0 <= 0  <=> q <= floor(-k0/g)
            p = q - Poly.const((-k0 / g).__floor__())
        return Poly.atom(IND('<=', p))
    lead = max((m for m in p.t if m), key=_mono_key)
    return Poly.atom(IND('<=', p.scale(1 / abs(p.t[lead][0]))))


def ind_not(p):
    """Complement of a 0/1-valued polynomial, a literal where p is one."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == ONE and len(m) == 1 and m[0][0].kind == 'ind':
            a = m[0][0]
            if a.rel == '<=':
                return ind_lit('<', -a.poly)
            if a.rel == '<':
                return ind_lit('<=', -a.poly)
            if a.rel == '=':
                return Poly.atom(IND('!=', a.poly))
            if a.rel == '!=':
                return Poly.atom(IND('=', a.poly))
    return ONEP - p


# ----------------------------------------------------------------- sums

_bound_n = itertools.count()


def merge_compl(p):
    """A*l + A*(not l) = A, repeatedly."""
    t = dict(p.t)
    again = True
    while again:
        again = False
        for m in list(t):
            for i, (a, e) in enumerate(m):
                if a.kind != 'ind':
                    continue
                q = ind_not(Poly.atom(a))
                rest = Poly({m[:i] + m[i + 1:]: t[m]})
                o = rest * q
                if len(o.t) == 1:
                    (m2, c2), = o.t.items()
                    if t.get(m2) == c2 and m2 != m:
                        del t[m], t[m2]
                        for mm, cc in rest.t.items():
                            c = cadd(t.get(mm, (0, 0)), cc)
                            if c == (0, 0):
                                t.pop(mm, None)
                            else:
                                t[mm] = c
                        again = True
                        break
            if again:
                break
    return Poly(t)


def fresh_bound():
    return VAR(f'%b{next(_bound_n)}', 'I')


def _sum_depth(p):
    d = 0
    for a in p.atoms():
        d = max(d, _atom_depth(a))
    return d


def _atom_depth(a):
    if a.kind == 'sum':
        return 1 + _sum_depth(a.body)
    if a.kind == 'prod':
        return max(1 + _sum_depth(a.body), _sum_depth(a.N))
    if a.kind == 'app':
        return max([_sum_depth(x) for x in a.args] or [0])
    if a.kind in ('ind', 'poly'):
        return _sum_depth(a.poly)
    return 0


def solve_linear(p, v):
    """p is affine in v with coefficient +-1 (integer v): v = result, else None."""
    m1 = ((v, Fraction(1)),)
    c = p.t.get(m1)
    if c is None or c[1] or abs(c[0]) != 1:
        return None
    rest = Poly({m: x for m, x in p.t.items() if m != m1})
    if v in rest.fv:
        return None
    return rest.scale(-1 / c[0])


def mk_sum(v, body):
    """Sum over all integers v of body (support finite by its indicators)."""
    out = ZEROP
    groups = {}
    for m, c in body.t.items():
        free = tuple((a, e) for a, e in m if v not in a.fv)
        dep = tuple((a, e) for a, e in m if v in a.fv)
        if not dep:
            raise Unsupported('sum without finite support')
        # eliminate through an equality
        done = False
        for a, e in dep:
            if a.kind == 'ind' and a.rel == '=':
                s = solve_linear(a.poly, v)
                if s is not None and s.sort() == 'I':
                    rest = tuple(x for x in dep if x[0] is not a)
                    out = out + Poly({free: c}) * Poly({rest: ONE}).subst({v: s})
                    done = True
                    break
        if done:
            continue
        groups.setdefault(dep, []).append((free, c))
    for dep, fs in groups.items():
        b = Poly({dep: ONE})
        depth = _sum_depth(b)
        cv = VAR(f'%{depth}', 'I')
        if cv is not v:
            if cv in b.fv:
                raise Unsupported('bound variable clash')
            b = b.subst({v: Poly.atom(cv)})
        if len(b.t) != 1:
            # canonicalisation changed the shape; sum again termwise
            for m2, c2 in b.t.items():
                at = SUMA(cv, Poly({m2: ONE}), 'C' if b.sort() == 'C' else ('I' if b.sort() == 'I' else 'R'))
                for free, c in fs:
                    out = out + Poly({free: cmul(c, c2)}) * Poly.atom(at)
            continue
        s = b.sort()
        at = SUMA(cv, b, s)
        out = out + Poly({f: c for f, c in fs}) * Poly.atom(at)
    return out


def mk_prod(v, N, body):
    """Product of body over 0 <= v < N."""
    c = N.as_int()
    if c is not None and c <= 6:
        out = ONEP
        for j in range(c):
            out = out * body.subst({v: Poly.const(j)})
        return out
    if body == ONEP:
        return ONEP
    cv = VAR(f'%{_sum_depth(body)}', 'I')
    if cv is not v:
        if cv in body.fv:
            raise Unsupported('bound variable clash')
        body = body.subst({v: Poly.atom(cv)})
    return Poly.atom(PRODA(cv, N, body))


def sum_range(v, lo, hi, body):
    """Sum of body for lo <= v < hi."""
    g = ind_lit('<=', lo - Poly.atom(v)) * ind_lit('<=', Poly.atom(v) - hi + ONEP)
    return mk_sum(v, g * body)
