"""Discharging of obligations: z3 for conditions, normalisation for equalities,
concrete models for refutation."""
import hashlib
import math
import random
import re
import time
from fractions import Fraction

import numpy as np
import z3

from .terms import *
from . import nc as NCM
from .nc import NC, Base, Letter, SLOT, SLOTP, nslots, WORDS

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'norm_time': 0.0, 'splits': 0}
Z3_TIMEOUT_MS = 4000

_zcache = {}

# Preconditions on functions that stand for data of the pre-state, declared by
# the contracts: AXIOM[fn](args) gives 0/1 polynomials that hold for every
# argument, MODELV[fn](model, args) a value for the search for counterexamples.
AXIOM = {}
MODELV = {}


class Side(list):
    def __init__(self):
        super().__init__()
        self.done = set()


def axiom_side(a, side):
    ax = AXIOM.get(a.fn)
    if ax and isinstance(side, Side) and a.key not in side.done:
        side.done.add(a.key)
        for p in ax(a.args):
            side.append(z3_bool(p, side))


def z3_var(a):
    return z3.Int(a.key) if a.sort == 'I' else z3.Real(a.key)


def z3_atom(a, side):
    if a.kind == 'var':
        v = z3_var(a)
        if a.pos:
            side.append(v > 0)
        return v
    if a.kind == 'app':
        try:
            args = [z3_poly(x, side) for x in a.args]
        except Unsupported:
            args = None
        if args is not None and a.fn == 'abs':
            return z3.If(args[0] >= 0, args[0], -args[0])
        if args is not None and a.fn == 'floor':
            return z3.ToInt(args[0])
        if args is not None and a.fn == 'mod':
            return args[0] % args[1]
        if args is not None and a.fn == 'div':
            return args[0] / args[1]
        rng = z3.IntSort() if a.sort == 'I' else z3.RealSort()
        if not args:
            v = z3.Const('atom!' + a.key, rng)
        else:
            f = z3.Function(a.fn + '/' + ''.join('i' if x.is_int() else 'r' for x in args)
                            + a.sort, *[x.sort() for x in args], rng)
            v = f(*args)
        if a.pos:
            side.append(v > 0)
        axiom_side(a, side)
        return v
    if a.kind == 'ind':
        return z3.If(z3_lit(a, side), z3.IntVal(1), z3.IntVal(0))
    if a.kind == 'poly':
        return z3_poly(a.poly, side)
    if a.kind == 'prime':
        return z3.RealVal(a.val)
    v = z3.Const('atom!' + a.key, z3.IntSort() if a.sort == 'I' else z3.RealSort())
    if a.kind == 'sum' and nonneg(a.body):
        side.append(v >= 0)
    return v


def nonneg(p):
    """Whether p is a sum of products that cannot be negative."""
    return all(c[0] > 0 and not c[1] and all(
        x.kind == 'ind' or getattr(x, 'pos', False) or x.kind == 'sum' and nonneg(x.body)
        for x, _ in m) for m, c in p.t.items())


def z3_lit(a, side):
    p = z3_poly(a.poly, side)
    if a.rel == '=':
        return p == 0
    if a.rel == '!=':
        return p != 0
    return p <= 0 if a.rel == '<=' else p < 0


def z3_poly(p, side):
    tot = None
    for m, c in p.t.items():
        if c[1]:
            raise Unsupported('complex number in a condition')
        t = z3.IntVal(int(c[0])) if c[0].denominator == 1 else z3.RealVal(str(c[0]))
        for a, e in m:
            if a.sort == 'C':
                raise Unsupported('complex number in a condition')
            if e.denominator == 1 and e > 0:
                x = z3_atom(a, side)
                for _ in range(int(e)):
                    t = t * x
            elif e.denominator == 1:
                x = z3_atom(a, side)
                if x.is_int():
                    x = z3.ToReal(x)
                side.append(x != 0)
                for _ in range(int(-e)):
                    t = t / x
            else:
                v = z3.Real(f'pow!{a.key}^{e}')
                side.append(v >= 0 if e > 0 else v > 0)
                t = t * v
        tot = t if tot is None else tot + t
    return z3.IntVal(0) if tot is None else tot


def z3_bool(p, side):
    """0/1-valued polynomial -> z3 Bool."""
    c = p.const_val()
    if c is not None:
        return z3.BoolVal(c[0] == 1)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == ONE and all(a.kind == 'ind' for a, _ in m):
            return z3.And(*[z3_lit(a, side) for a, _ in m])
    return z3_poly(p, side) == 1


class Ctx:
    """Assumptions: 0/1 polynomials known to be one, axioms as z3 formulas."""

    def __init__(self, facts=(), axioms=()):
        self.facts = list(facts)
        self.axioms = list(axioms)

    def plus(self, *ps):
        c = Ctx(self.facts + [p for p in ps if p != ONEP], self.axioms)
        return c

    def solver(self):
        s = z3.Solver()
        s.set('timeout', Z3_TIMEOUT_MS)
        side = Side()
        for p in self.facts:
            try:
                s.add(z3_bool(p, side))
            except Unsupported:
                pass
        for ax in self.axioms:
            s.add(ax)
        return s, side

    def sat(self, *ps):
        """'sat', 'unsat' or 'unknown' of the facts together with ps."""
        key = (tuple(p.key for p in self.facts), len(self.axioms), tuple(p.key for p in ps))
        if key in _zcache:
            return _zcache[key]
        t0 = time.time()
        s, side = self.solver()
        try:
            for p in ps:
                s.add(z3_bool(p, side))
        except Unsupported:
            r = 'unknown'
            for p in ps:
                if p.is_zero():
                    r = 'unsat'
            _zcache[key] = r
            return r
        for x in side:
            s.add(x)
        r = str(s.check())
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        _zcache[key] = r
        return r

    def entails(self, p):
        if p == ONEP:
            return True
        return self.sat(ind_not(p)) == 'unsat'

    def rewrites(self):
        """Rewriting atom -> Poly from the equalities among the facts."""
        rw = []
        for p in self.facts:
            rw += eq_rewrites(p)
        return rw


def eq_rewrites(p):
    out = []
    if len(p.t) == 1:
        (m, c), = p.t.items()
        for a, _ in m:
            if a.kind == 'ind' and a.rel == '=':
                r = solve_atom(a.poly)
                if r:
                    out.append(r)
    return out


def solve_atom(p):
    """Orient p = 0 as atom -> rest."""
    cands = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('var', 'app', 'sum') and not c[1]:
            a = m[0][0]
            if a.kind == 'var' and a.name.startswith('$s'):
                pri = 0
            elif a.kind == 'var' and a.name.startswith('%'):
                pri = 0
            else:
                pri = {'var': 1, 'app': 2, 'sum': 3}[a.kind]
            rest = Poly({k: v for k, v in p.t.items() if k != m}).scale(cinv((-c[0], -c[1])))
            if a.sort == 'I' and rest.sort() != 'I':
                continue
            if _occurs(a, rest):
                continue
            cands.append((pri, -len(a.key), a.key, a, rest))
    if not cands:
        return None
    cands.sort(key=lambda t: t[:3])
    return cands[0][3], cands[0][4]


def _occurs(a, p):
    if a.kind == 'var':
        return a in p.fv
    return a.key in p.key


def apply_rewrite(p, a, rest):
    if a.kind == 'var':
        return p.subst({a: rest})
    if a.key not in p.key:
        return p
    return replace_atom(p, a, rest)


def replace_atom(p, a, rest):
    out = ZEROP
    for m, c in p.t.items():
        q = Poly({(): c})
        for b, e in m:
            if b == a:
                q = q * rest.fpow(e)
            elif a.key in b.key:
                q = q * replace_in_atom(b, a, rest).fpow(e)
            else:
                q = q * Poly({((b, e),): ONE})
        out = out + q
    return out


def replace_in_atom(b, a, rest):
    if b.kind == 'app':
        args = tuple(replace_atom(x, a, rest) for x in b.args)
        if args == b.args:
            return Poly.atom(b)
        v = [VAR(f'$r{i}', 'R') for i in range(len(args))]
        # rebuild through the normal constructors
        if b.fn in ('exp', 'cos', 'sin', 'sinh', 'cosh', 'tanh', 'log', 'sign', 'abs', 'floor'):
            return f_fun(b.fn, *args)
        return Poly.atom(APP(b.fn, args, b.sort, b.pos))
    if b.kind == 'ind':
        return ind_lit(b.rel, replace_atom(b.poly, a, rest))
    if b.kind == 'sum':
        if rest.fv & {b.var}:
            raise Unsupported('capture')
        return mk_sum(b.var, replace_atom(b.body, a, rest))
    if b.kind == 'prod':
        if rest.fv & {b.var}:
            raise Unsupported('capture')
        return mk_prod(b.var, replace_atom(b.N, a, rest), replace_atom(b.body, a, rest))
    if b.kind == 'poly':
        q = replace_atom(b.poly, a, rest)
        if len(q.t) <= 1:
            return q
        return Poly.atom(POLYA(q, is_pos(q)))
    return Poly.atom(b)


def set_ind(p, lit, val):
    """Replace the indicator atom lit by 0/1 everywhere (free occurrences)."""
    return replace_atom(p, lit, ONEP if val else ZEROP) if lit.key in p.key else p


def _free_inds(p, bound=frozenset(), acc=None):
    """Indicator atoms without bound variables, anywhere in p."""
    if acc is None:
        acc = {}
    for a in p.atoms():
        if a.kind == 'ind':
            if not (a.fv & bound):
                acc[a.key] = a
            _free_inds(a.poly, bound, acc)
        elif a.kind == 'app':
            for x in a.args:
                _free_inds(x, bound, acc)
        elif a.kind == 'sum':
            _free_inds(a.body, bound | {a.var}, acc)
        elif a.kind == 'prod':
            _free_inds(a.N, bound, acc)
            _free_inds(a.body, bound | {a.var}, acc)
        elif a.kind == 'poly':
            _free_inds(a.poly, bound, acc)
    return acc


def clear_denominators(p):
    for _ in range(20):
        worst = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'poly' and e < 0:
                    k = -(e.numerator // e.denominator)
                    worst[a] = max(worst.get(a, 0), k)
        if not worst:
            return p
        for a, k in worst.items():
            for _ in range(k):
                p = p * Poly.atom(a)
    return p


class Budget:
    def __init__(self, n=4000, t=60):
        self.n = n
        self.t0 = time.time()
        self.t = t

    def step(self):
        self.n -= 1
        if self.n < 0 or time.time() - self.t0 > self.t:
            raise Unsupported('proof search budget')


def _vanishing_sum(f):
    if len(f.t) != 1:
        return None
    (m, c), = f.t.items()
    if len(m) != 1 or m[0][0].kind != 'ind' or m[0][0].rel != '=' or 'SUM' not in f.key:
        return None
    p = m[0][0].poly
    return p if any(a.kind == 'sum' for a in p.atoms()) and len(p.t) > 1 else None


def _names(p):
    return set(re.findall(r'[\w<>:]+(?=\()', p.key))


def _offset(a):
    """Symbolic part of what is added to the index wherever the summand uses
    it; counting from there makes sums over the same items look the same."""
    out = {}

    def walk(p):
        for b in p.atoms():
            if b.kind == 'app':
                for x in b.args:
                    t = x - Poly.atom(a.var)
                    if a.var in x.fv and a.var not in t.fv:
                        if any(y.kind != 'var' or y.name.startswith('%') for y in t.atoms()):
                            continue
                        t = Poly({m: c for m, c in t.t.items() if m})
                        out[t.key] = t
                    else:
                        walk(x)
            elif b.kind == 'sum':
                walk(b.body)
    walk(a.body)
    return next(iter(out.values())) if len(out) == 1 else ZEROP


def prove_zero(p, ctx, budget=None, depth=0):
    """True if p = 0 under ctx could be derived."""
    budget = budget or Budget()
    if depth == 0 and 'SUM' in p.key:
        # a sum known to vanish, taken as a whole
        for f in ctx.facts:
            q = _vanishing_sum(f)
            if q is not None and _names(q) == _names(p):
                rest = Ctx([x for x in ctx.facts if x is not f], ctx.axioms)
                for r in (p + q, p - q):
                    if prove_zero(r, rest, budget, 1):
                        return True
    budget.step()
    if p.is_zero():
        return True
    for a, rest in ctx.rewrites():
        p = apply_rewrite(p, a, rest)
    p = clear_denominators(p)
    if p.is_zero():
        return True
    inds = _free_inds(p)
    if inds:
        # equalities first: they simplify most
        lit = min(inds.values(), key=lambda a: (a.rel not in ('=',), len(a.key), a.key))
        STATS['splits'] += 1
        lp = Poly.atom(lit)
        neg = ind_not(lp)
        ok = True
        for val, fact in ((True, lp), (False, neg)):
            if ctx.sat(fact) == 'unsat':
                continue
            q = set_ind(p, lit, val)
            (nm, _), = neg.t.items()
            if len(nm) == 1 and nm[0][0].kind == 'ind':
                q = set_ind(q, nm[0][0], not val)
            if not prove_zero(q, ctx.plus(fact), budget, depth + 1):
                return False
        return True
    # sums: pointwise comparison of the bodies
    sums = [a for a in p.atoms() if a.kind == 'sum']
    if sums:
        rest, body = {}, ZEROP
        v = VAR(f'%p{depth}', 'I')
        ok = True
        for m, c in p.t.items():
            sa = [(a, e) for a, e in m if a.kind == 'sum']
            if len(sa) == 1 and sa[0][1] == 1:
                a = sa[0][0]
                other = tuple(x for x in m if x[0] is not a)
                body = body + Poly({other: c}) * a.body.subst({a.var: Poly.atom(v) - _offset(a)})
            else:
                rest[m] = c
        if not rest and prove_zero(body, ctx, budget, depth + 1):
            return True
    # products of the same length: comparison of the factors
    prods = sorted((a for a in p.atoms() if a.kind == 'prod'), key=lambda a: a.key)
    for i, a in enumerate(prods):
        for b in prods[:i]:
            if not prove_zero(a.N - b.N, ctx, budget, depth + 1):
                continue
            v = VAR(f'%p{depth}', 'I')
            x = Poly.atom(v)
            if prove_zero(a.body.subst({a.var: x}) - b.body.subst({b.var: x}),
                          ctx.plus(ind_lit('<=', -x), ind_lit('<', x - a.N)), budget, depth + 1):
                return prove_zero(replace_atom(p, a, Poly.atom(b)), ctx, budget, depth + 1)
    # signs of absolute values that the context decides
    for a in list(p.atoms()):
        if a.kind == 'app' and a.fn in ('abs', 'sign') and a.args[0].sort() != 'C':
            q = a.args[0]
            pos, neg = ind_lit('<=', -q), ind_lit('<=', q)
            if ctx.entails(pos):
                r = q if a.fn == 'abs' else None
            elif ctx.entails(neg):
                r = -q if a.fn == 'abs' else None
            else:
                r = None
            if r is not None:
                return prove_zero(replace_atom(p, a, r), ctx, budget, depth + 1)
    # real-arithmetic entailment as a last resort
    try:
        if p.sort() != 'C' and len(p.t) < 12 and not sums:
            if ctx.sat(ind_lit('!=', p)) == 'unsat':
                return True
    except Unsupported:
        pass
    return False


def prove_nc_zero(x, ctx, budget=None):
    for w, c in x.t.items():
        if not prove_zero(c, ctx, budget):
            return False
    return True


# ------------------------------------------------------ concrete models

DIM = 3

# value of a variable in every model, by key of the variable
FIXED = {}


class NoModel(Exception):
    pass


class Model:
    """Deterministic pseudo-random interpretation of all atoms."""

    def __init__(self, seed, overrides=None):
        self.seed = seed
        self.over = dict(overrides or {})
        self.rng = random.Random(seed)
        self.vars = {}
        self.size_hint = 3
        self.mats = {}

    def h(self, *parts):
        d = hashlib.sha256(repr((self.seed,) + parts).encode()).digest()
        return int.from_bytes(d[:8], 'big') / 2 ** 64

    def var(self, a):
        if a.key in self.vars:
            return self.vars[a.key]
        if a.key in FIXED:
            return FIXED[a.key]
        u = self.h('var', a.key)
        if a.sort == 'I':
            v = int(u * 3) + (1 if a.pos else 0)
        elif a.sort == 'C':
            v = complex(u * 2 - 1, self.h('im', a.key) * 2 - 1)
        elif a.pos:
            v = 0.3 + u * 1.5
        else:
            v = u * 3 - 1.5
        self.vars[a.key] = v
        return v

    def poly(self, p, env=None):
        tot = 0
        for m, c in p.t.items():
            t = float(c[0]) if not c[1] else complex(c[0], c[1])
            for a, e in sorted(m, key=lambda x: x[0].kind != 'ind') if len(m) > 1 else m:
                if t == 0:
                    break
                x = self.atom(a, env)
                if e != 1:
                    if x == 0 and e < 0:
                        raise NoModel('division by zero')
                    if e.denominator == 1:
                        x = x ** int(e)
                    else:
                        if isinstance(x, complex) or x >= 0:
                            x = x ** float(e)
                        else:
                            x = complex(x) ** float(e)
                t = t * x
            tot = tot + t
        return tot

    def upper(self, a, env):
        """End of the range of a sum that is evaluated."""
        for m in a.body.t:
            for x, _ in m:
                if x.kind == 'ind' and x.rel in ('<=', '<'):
                    c = x.poly.t.get(((a.var, Fraction(1)),))
                    if c is None or c[0] != 1:
                        continue
                    rest = x.poly - Poly.atom(a.var)
                    if a.var in rest.fv:
                        continue
                    try:
                        r = self.poly(rest, env)
                    except TypeError:
                        continue
                    if isinstance(r, complex):
                        r = r.real
                    if -r > 60:
                        raise NoModel('long sum')
                    return max(8, int(-r) + 2)
        return 8

    def atom(self, a, env=None):
        if a.kind == 'var':
            if env and a in env:
                return env[a]
            return self.var(a)
        if a.kind == 'prime':
            return float(a.val)
        if a.kind == 'poly':
            return self.poly(a.poly, env)
        if a.kind == 'ind':
            x = self.poly(a.poly, env)
            if isinstance(x, complex):
                if a.rel in ('=', '!='):
                    z = abs(x) < 1e-9
                    return 1 if z == (a.rel == '=') else 0
                x = x.real
            tol = 1e-9
            if a.rel == '=':
                return 1 if abs(x) < tol else 0
            if a.rel == '!=':
                return 1 if abs(x) >= tol else 0
            if a.rel == '<=':
                return 1 if x <= tol else 0
            return 1 if x < -tol else 0
        if a.kind == 'sum':
            tot = 0
            env2 = dict(env or {})
            for k in range(-2, self.upper(a, env)):
                env2[a.var] = k
                tot = tot + self.poly(a.body, env2)
            return tot
        if a.kind == 'prod':
            tot = 1
            env2 = dict(env or {})
            top = self.poly(a.N, env)
            if top > 60:
                raise NoModel('long product')
            for k in range(int(top)):
                env2[a.var] = k
                tot = tot * self.poly(a.body, env2)
            return tot
        args = []
        for x in a.args:
            v = self.poly(x, env)
            if isinstance(v, complex) and abs(v.imag) <= 1e-12 * abs(v):
                v = v.real
            if isinstance(v, float) and v == int(v) and abs(v) < 1e9:
                v = int(v)
            args.append(v)
        key = (a.fn, tuple(round(v, 9) if isinstance(v, float) else v for v in args))
        if key in self.over:
            return self.over[key]
        fn = a.fn
        if fn in MODELV:
            return MODELV[fn](self, args)
        if fn in FUNS:
            return FUNS[fn](*args)
        if fn.startswith('braket:') or fn.startswith('trace:'):
            w = WORDS[fn]
            return complex(self.word(w, args[:nslots(w)], env)[0, 0])
        if fn.startswith('entry:') or fn.startswith('centry:'):
            w = WORDS[fn]
            n = nslots(w)
            M = self.word(w, args[:n], env)
            i = args[n:]
            try:
                if any(x < 0 for x in i):
                    raise IndexError
                v = M[tuple(int(x) for x in i)] if len(i) == 2 else M[int(i[0]), 0]
            except IndexError:
                return self.h('oob', fn, tuple(args))
            return v.real if fn.startswith('entry:') else complex(v)
        u = self.h(fn, tuple(round(v, 9) if isinstance(v, float) else v for v in args))
        if a.sort == 'I':
            return int(u * 3) + (1 if a.pos else 0)
        if a.sort == 'C':
            return complex(u * 2 - 1, self.h('im', *key) * 2 - 1)
        return 0.3 + u if a.pos else u * 3 - 1.5

    def base(self, b, args, env=None):
        """Matrix of a letter's base symbol."""
        key = (b.name, tuple(args))
        if key in self.mats:
            return self.mats[key]
        if b.inner is not None:
            if b.inner[0] not in EVAL_INNER or env and any(v in env for v in b.fv or ()):
                raise NoModel('operator built from a bound index')
            M = EVAL_INNER[b.inner[0]](self, b, args)
        elif b.ev is not None:
            M = b.ev(self, args)
        else:
            cols = 1 if b.kind == 'ket' else DIM
            r = np.random.default_rng(int(self.h('mat', *key) * 2 ** 60))
            M = r.normal(size=(DIM, cols)).astype(complex)
            if not b.real:
                M = M + 1j * r.normal(size=(DIM, cols))
            if b.unitary:
                M, _ = np.linalg.qr(M)
            if b.herm:
                M = (M + M.conj().T) / 2
            if b.sym:
                M = (M + M.T) / 2
        self.mats[key] = M
        return M

    def word(self, w, args, env=None):
        M = None
        s = 0
        for l in w:
            n = l.base.nslots
            X = self.base(l.base, [int(x) if isinstance(x, (int, np.integer)) else x
                                   for x in args[s:s + n]], env)
            s += n
            if l.inv:
                X = np.linalg.inv(X)
            if l.t:
                X = X.T
            if l.c:
                X = X.conj()
            M = X if M is None else M @ X
        return M

    def nc(self, x, env=None, slot_range=range(-1, 5)):
        """Value of an operator expression as a matrix."""
        import itertools as it
        tot = None
        for w, c in x.t.items():
            n = nslots(w)
            for s in it.product(slot_range, repeat=n):
                e = dict(env or {})
                for i, v in enumerate(s):
                    e[SLOT[i]] = v
                k = self.poly(c, e)
                if k == 0:
                    continue
                M = self.word(w, list(s), env)
                M = np.eye(DIM) if M is None else M
                M = k * M
                if tot is None:
                    tot = M
                elif tot.shape != M.shape:
                    raise NoModel('shape')
                else:
                    tot = tot + M
        return np.zeros((DIM, DIM)) if tot is None else tot


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise NoModel('domain')
    return g


import cmath


def _cx(f, g):
    return _safe(lambda x: g(x) if isinstance(x, complex) else f(x))


def _k0e(x):
    from scipy.special import kve
    return float(kve(0, x))


FUNS = {
    'exp': _cx(math.exp, cmath.exp), 'cos': _cx(math.cos, cmath.cos),
    'sin': _cx(math.sin, cmath.sin), 'sinh': _cx(math.sinh, cmath.sinh),
    'cosh': _cx(math.cosh, cmath.cosh), 'tanh': _cx(math.tanh, cmath.tanh),
    'log': _safe(math.log), 'abs': abs,
    'sign': lambda x: (x > 0) - (x < 0), 'floor': lambda x: math.floor(x + 1e-12),
    'mod': _safe(lambda a, b: a % b), 'div': _safe(lambda a, b: a // b),
    'conj': lambda z: complex(z).conjugate(),
    'pow': _safe(lambda a, b: a ** b),
    'trunc': lambda x: int(x + (1e-12 if x > 0 else -1e-12)),
    'idiv': _safe(lambda a, b: a // b), 'round0': lambda x: round(x),
    'round': lambda x, n: round(x, int(n)),
    'rint': lambda x: complex(round(x.real), round(x.imag)) if isinstance(x, complex) else round(x),
}


def _pow_axiom(args):
    """b >= 1 and e >= 0 give b^e >= 1."""
    b, e = args
    v = Poly.atom(APP('pow', tuple(args), 'R'))
    return [ONEP - ind_lit('<=', ONEP - b) * ind_lit('<=', -e) * ind_lit('<', v - ONEP)]


AXIOM['pow'] = _pow_axiom


EVAL_INNER = {}


def _eval_inv(m, b, args):
    return np.linalg.inv(m.nc(b.inner[1]))


def _eval_sqrtm(m, b, args):
    from scipy.linalg import sqrtm
    x = m.nc(b.inner[1])
    if b.sym:
        # a symmetric matrix has a real root where it has no negative eigenvalue
        d, v = np.linalg.eigh(x.real)
        if np.abs(x.imag).max() > 1e-12 or d.min() < -1e-9:
            raise NoModel('root')
        return ((v * np.sqrt(np.where(d < 1e-12, 0, d))) @ v.T).astype(complex)
    return sqrtm(x)


def _eval_diag(m, b, args):
    return np.diag([complex(m.poly(b.inner[1], {IX_[0]: i})) for i in range(DIM)])


def _eval_svdR(m, b, args):
    return np.linalg.svd(m.nc(b.inner[1]))[2]


def _eval_blocks2(m, b, args):
    a = int(m.poly(b.inner[1]))
    if not 0 <= a <= DIM:
        raise NoModel('blocks')
    M = np.zeros((DIM, DIM), complex)
    for x, s in ((b.inner[2], slice(0, a)), (b.inner[3], slice(a, DIM))):
        d = s.stop - s.start
        for w, c in x.t.items():
            X = np.eye(d, dtype=complex)
            for l in w:
                if l.base.nslots:
                    raise NoModel('blocks')
                Y = m.base(l.base, [])[:d, :d]
                Y = np.linalg.inv(Y) if l.inv else Y
                Y = Y.T if l.t else Y
                X = X @ (Y.conj() if l.c else Y)
            M[s, s] += m.poly(c) * X
    return M


def _eval_displace(m, b, args):
    from scipy.linalg import expm
    a = np.diag(np.sqrt(np.arange(1, DIM)), 1)
    p = complex(m.poly(b.inner[1]))
    return expm(p * a.T - p.conjugate() * a)


IX_ = [VAR('$i0', 'I'), VAR('$i1', 'I')]      # entry indices, as in values.py


def _eval_ent(m, b, args):
    return np.array([[complex(m.poly(b.inner[1], {IX_[0]: i, IX_[1]: j})) for j in range(DIM)]
                     for i in range(DIM)])


EVAL_INNER.update(inv=_eval_inv, sqrtm=_eval_sqrtm, diag=_eval_diag, svdR=_eval_svdR,
                  blocks2=_eval_blocks2, displace=_eval_displace, ent=_eval_ent)


def find_models(ctx, fvs, seed, want=3, tries=400):
    """Models of the facts of ctx."""
    out = []
    for t in range(tries):
        m = Model(f'{seed}/{t}')
        try:
            ok = True
            for p in ctx.facts:
                force_fact(m, p)
            m.mats.clear()          # computed before all values were chosen
            for p in ctx.facts:
                v = m.poly(p)
                if abs(v - 1) > 1e-6:
                    ok = False
                    break
            if ok:
                out.append(m)
                if len(out) >= want:
                    return out
        except NoModel:
            continue
        except (OverflowError, ZeroDivisionError, np.linalg.LinAlgError, TypeError):
            continue
    return out


def force_fact(m, p):
    """Make simple facts true in the model by choosing values of atoms."""
    if len(p.t) != 1:
        return
    (mo, c), = p.t.items()
    for a, _ in mo:
        if a.kind != 'ind':
            continue
        if m.atom(a) == 1:
            continue
        q = a.poly
        for mm, cc in q.t.items():
            if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind in ('var', 'app') and not cc[1]:
                x = mm[0][0]
                rest = Poly({k: v for k, v in q.t.items() if k != mm})
                if _occurs(x, rest) or x.kind == 'var' and x.key in FIXED:
                    continue
                r = m.poly(rest)
                if isinstance(r, complex):
                    continue
                val = -r / float(cc[0])
                s = 1 if cc[0] > 0 else -1
                if a.rel == '<=':
                    val = val - s * int(m.h('slack', a.key) * 3)
                elif a.rel == '<':
                    val = val - s * (0.1 + m.h('slack', a.key))
                elif a.rel == '!=':
                    val = val + 1
                if x.sort == 'I':
                    if abs(val - round(val)) > 1e-9:
                        continue
                    val = int(round(val))
                if x.pos and val <= 0:
                    continue
                if x.kind == 'var':
                    m.vars[x.key] = val
                else:
                    if x.fn in FUNS or ':' in x.fn or '[' in x.fn:
                        continue
                    args = []
                    for y in x.args:
                        v = m.poly(y)
                        if isinstance(v, float) and v == int(v):
                            v = int(v)
                        args.append(v)
                    m.over[(x.fn, tuple(round(v, 9) if isinstance(v, float) else v
                                        for v in args))] = val
                break


def refute_zero(p, ctx, seed=0, want=24):
    """A model in which p differs clearly from zero, or None."""
    if 'opaque#' in p.key:
        return None
    for m in find_models(ctx, None, seed, want):
        try:
            v = m.poly(p)
            scale = sum(abs(m.poly(Poly({mo: c}))) for mo, c in p.t.items())
        except (NoModel, OverflowError, ZeroDivisionError, np.linalg.LinAlgError, TypeError,
                ValueError):
            continue
        if abs(v) > 1e-6 * max(scale, 1e-12) and abs(v) > 1e-12:
            return m, v
    return None


def refute_nc_zero(x, ctx, seed=0, want=24):
    if 'opaque#' in x.key:
        return None
    for m in find_models(ctx, None, seed, want):
        try:
            v = m.nc(x)
            scale = 0.0
            for w, c in x.t.items():
                scale = max(scale, np.abs(m.nc(NC({w: c}))).max())
        except (NoModel, OverflowError, ZeroDivisionError, np.linalg.LinAlgError, TypeError,
                ValueError):
            continue
        if np.abs(v).max() > 1e-6 * max(scale, 1e-12) and np.abs(v).max() > 1e-12:
            return m, v
    return None
