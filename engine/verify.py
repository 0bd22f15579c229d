"""Contracts: generation and discharge of proof obligations.

A contract is checked by executing the function's current source on symbolic
arguments satisfying the precondition; every path and every clause of the
postcondition is one obligation.  Status of an obligation:
  proved     discharged by normalisation and z3
  refuted    an interpretation satisfying the path condition violates it
  undecided  neither, or the code uses something outside the fragment
"""
import os
import time
import traceback

from .terms import *
from .nc import NC, Base
from .solve import (Ctx, prove_zero, prove_nc_zero, refute_zero, refute_nc_zero, find_models,
                    STATS, Budget)
from .values import *
from . import interp as IN
from .interp import Interp, PyRaise, Builtin
from .models import Models, P, isnum, entries, to_nc, kindof
from .loops import Hist, _is_same_value
from . import extmodels as EM

REPO = os.environ.get('VERIF_REPO', '/repo')

UNIT_SYMS = {'hbar': 'hbar', 'e': 'e_charge', 'Phi0': 'Phi0', 'k_B': 'k_B'}
hbar = Poly.atom(VAR('hbar', 'R', True))
e_charge = Poly.atom(VAR('e_charge', 'R', True))
Phi0 = Poly.atom(VAR('Phi0', 'R', True))
k_B = Poly.atom(VAR('k_B', 'R', True))
PI = EM.PI
TWO = Poly.const(2)


def C(x):
    return Poly.const(Fraction(x) if not isinstance(x, str) else Fraction(x))


class Skip(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'detail', 'paths', 'model')

    def __init__(self, name):
        self.name, self.status, self.detail, self.paths, self.model = name, 'proved', '', 0, None


class Runner:
    """Collects the obligations of one property."""
    def __init__(self, prop, seed=0, deadline=None):
        self.prop = prop
        self.seed = seed
        self.obl = {}
        self.functions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.vacuous = []
        self.notes = []
        self.deadline = deadline
        self.times = {}
        self.cases = 0
        self.shard = (0, 1)
        self.seen = 0
        self.bounded = {}
        self.bound = None

    def record(self, name, status, detail='', model=None):
        o = self.obl.setdefault(name, Obligation(name))
        o.paths += 1
        if self.bound:
            self.bounded[name] = self.bound
        rank = {'proved': 0, 'undecided': 1, 'refuted': 2}
        if rank[status] > rank[o.status]:
            o.status, o.detail, o.model = status, detail, model
        return o

    def case(self, name, quals, fn, engine='numpy', contracts=None, bounded=None):
        """Run one verification unit. fn(V) explores and checks.  bounded:
        the size the unit fixes; its obligations never count as proved."""
        t = time.time()
        self.bound = bounded
        self.seen += 1
        if self.seen % self.shard[1] != self.shard[0]:
            return
        if self.deadline and t > self.deadline:
            self.record(name, 'undecided', 'time budget of the proof layer used up')
            return
        self.cases += 1
        n0 = sum(o.paths for o in self.obl.values())
        V = None
        try:
            V = Verifier(self, name, engine)
            for q in quals:
                if not V.has_function(q):
                    self.notes.append(f'{name}: {q} not present under this name')
                else:
                    self.functions.add(q)
            if contracts:
                V.I.contracts.update(contracts)
            fn(V)
        except Unsupported as e:
            self.record(name, 'undecided', f'outside the verified fragment: {e}')
        except PyRaise as e:
            self.record(name, 'undecided', f'setup raised {exc_text(e.exc)}')
        except IN.NeedAcc as e:
            self.record(name, 'undecided', 'loop-carried value outside the fragment')
        except RecursionError:
            self.record(name, 'undecided', 'recursion limit')
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError,
                StopIteration, ZeroDivisionError, NotImplementedError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.record(name, 'undecided',
                        f'engine error {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}')
        if V is not None:
            self.inlined |= V.I.inlined
            self.used_contracts |= V.I.used_contracts
            self.assumed |= V.I.assumed
        if sum(o.paths for o in self.obl.values()) == n0:
            self.vacuous.append(name)
            self.record(name, 'undecided', 'no obligation generated')
        self.times[name] = round(time.time() - t, 2)

    def listing(self, fn, engine='numpy'):
        """Names of units that depend on the classes of the code."""
        try:
            return list(fn(Verifier(self, 'listing', engine)))
        except (Unsupported, PyRaise, KeyError, AttributeError) as e:
            self.record('listing', 'undecided', f'{type(e).__name__} {e}')
            return []

    def summary(self):
        st = {'proved': 0, 'refuted': 0, 'undecided': 0}
        for o in self.obl.values():
            st[o.status] += 1
        return st


def exc_text(e):
    if isinstance(e, SObj):
        return e.cls.name
    return f'{type(e).__name__}({", ".join(map(str, e.args))})'


def is_error(e):
    """Explicit rejections, as opposed to crashes of the symbolic run."""
    return e


class Verifier:
    def __init__(self, runner, name, engine='numpy'):
        self.r = runner
        self.name = name
        self.I = Interp(REPO, Models())
        I = self.I
        I.load('SQcircuit')
        u = I.load('SQcircuit.units')
        for k, v in UNIT_SYMS.items():
            if k in u.ns:
                u.ns[k] = SNum(Poly.atom(VAR(v, 'R', True)), 'float')
        self.engine = engine
        s = I.load('SQcircuit.settings')
        if '_ENG' in s.ns:
            s.ns['_ENG'] = engine
        elif engine != 'numpy':
            raise Unsupported('engine switch')
        self.path = 0

    # ---------------------------------------------------------- access
    def mod(self, name):
        return self.I.load('SQcircuit.' + name)

    def get(self, mod, name):
        return self.I.getattr(self.mod(mod), name)

    def has_function(self, qual):
        parts = qual.split('.')
        try:
            m = self.mod(parts[0])
        except (Unsupported, PyRaise):
            return False
        x = m.ns.get(parts[1])
        if x is None:
            return False
        if len(parts) == 3:
            return isinstance(x, SClass) and self.I.class_attr(x, parts[2]) is not None
        return True

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw)

    def fn(self, mod, name, *args, **kw):
        return self.I.call(self.get(mod, name), list(args), kw)

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def attr(self, o, name):
        return self.I.getattr(o, name)

    # --------------------------------------------------------- symbols
    def real(self, name, pos=False):
        return SNum(Poly.atom(VAR(name, 'R', pos)), 'float')

    def int(self, name, pos=False):
        return SNum(Poly.atom(VAR(name, 'I', pos)), 'int')

    def tens(self, name, pos=False, **meta):
        return Arr('torch', (), Poly.atom(VAR(name, 'R', pos)), 'float', leaf=True, **meta)

    def scalar(self, name, pos=True):
        """A number as the engine stores it."""
        return self.tens(name, pos) if self.engine == 'pytorch' else self.real(name, pos)

    def assume(self, *ps):
        for p in ps:
            self.I.assume(p)

    # --------------------------------------------------------- explore
    def explore(self, run, post, expect='ok', label=None, limit=600):
        """run() executes code; post(V, value) states the postcondition.
        expect 'ok': no exception may escape; 'raise': every path raises."""
        lab = label or self.name
        count = [0]

        def on_path(r, facts):
            count[0] += 1
            if self.I.ctx().sat() == 'unsat':
                return
            if r[0] == 'raise':
                e = r[1]
                if expect == 'raise':
                    self.r.record(f'{lab}: rejected', 'proved')
                    if post is not None:
                        post(self, e)
                    return
                self.unexpected(lab, e)
                return
            if expect == 'raise':
                # reaching the end means the call was accepted
                m = find_models(self.I.ctx(), None, self.r.seed, want=1)
                self.r.record(f'{lab}: rejected', 'refuted' if m else 'undecided',
                              'call is accepted')
                return
            post(self, r[1])
        self.I.explore(run, on_path, limit)
        if count[0] == 0:
            raise Unsupported('no feasible path')

    def unexpected(self, lab, e):
        """An exception on a path that satisfies the precondition."""
        own = getattr(self.I, 'raised', None) is e      # by a statement of the code itself
        if own and find_models(self.I.ctx(), None, self.r.seed, want=1):
            self.r.record(f'{lab}: no exception', 'refuted', f'raises {exc_text(e)}')
        else:
            self.r.record(f'{lab}: no exception', 'undecided', f'raises {exc_text(e)}')

    # ----------------------------------------------------- obligations
    def zero(self, label, p, hint=None):
        """Obligation p = 0."""
        name = f'{self.name}: {label}'
        ctx = self.I.ctx()
        if isinstance(p, NC):
            ok = prove_nc_zero(p, ctx)
        else:
            ok = prove_zero(p, ctx)
        if ok:
            self.r.record(name, 'proved')
            return True
        ref = (refute_nc_zero if isinstance(p, NC) else refute_zero)(p, ctx, self.r.seed)
        if ref is not None:
            m, v = ref
            self.r.record(name, 'refuted', f'difference {short(p)}; value {short(v)} in an '
                          f'interpretation with {model_text(m)}', model=dict(m.vars))
        else:
            self.r.record(name, 'undecided', f'difference not decided: {short(p)}')
        return False

    def eq(self, label, a, b):
        """Obligation that two values are equal."""
        name = f'{self.name}: {label}'
        r = self.diff(a, b)
        if r is True:
            self.r.record(name, 'proved')
        elif r is False:
            self.r.record(name, 'refuted', f'got {short(a)}, expected {short(b)}')
        else:
            for i, p in enumerate(r):
                self.zero(label, p)
            if not r:
                self.r.record(name, 'proved')

    def diff(self, a, b, factors=False):
        """True/False, or a list of Poly/NC that must vanish.  The factors of a
        tensor product must have the same sizes."""
        if a is b:
            return True
        if isinstance(a, Poly):
            a = SNum(a, 'float')
        if isinstance(b, Poly):
            b = SNum(b, 'float')
        if isinstance(a, Arr) and a.ndim == 0 and isnum(b):
            return [P(a) - P(b)]
        if isinstance(b, Arr) and b.ndim == 0 and isnum(a):
            return [P(a) - P(b)]
        if isnum(a) and isnum(b):
            d = P(a) - P(b)
            return True if d.is_zero() else [d]
        if isinstance(a, NC) or isinstance(b, NC):
            x, y = nc_of(a), nc_of(b)
            return [x - y]
        if isinstance(a, (SQobj,)) and isinstance(b, SQobj):
            out = [a.nc - b.nc]
            if factors:
                if a.shape is None or b.shape is None:
                    raise Unsupported('size of a factor')
                out += [x - y for x, y in zip(a.shape, b.shape)]
            return out
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.ndim != b.ndim:
                return False
            out = [x - y for x, y in zip(a.shape, b.shape) if x != y]
            if isinstance(a.val, NC) and isinstance(b.val, NC):
                return out + [a.val - b.val]
            g = ONEP
            for i, s in enumerate(a.shape):
                g = g * ind_lit('<=', -IXP[i]) * ind_lit('<=', IXP[i] - s + ONEP)
            return out + [g * (entries(a) - entries(b))]
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) or \
                isinstance(a, SList) and isinstance(b, SList):
            xs = a.items if isinstance(a, SList) else list(a)
            ys = b.items if isinstance(b, SList) else list(b)
            return self.diff_items(xs, ys)
        if isinstance(a, TensQ) and isinstance(b, TensQ):
            r = self.diff_items(a.items, b.items, True)
            if r is False:
                return False
            return ([] if r is True else r) + [a.coeff - b.coeff]
        if isinstance(a, FamObj) and isinstance(b, FamObj):
            if a.fam is not b.fam:
                return False
            return [a.ident - b.ident]
        if isinstance(a, SDict) and isinstance(b, SDict):
            xs = [tuple(x) if isinstance(x, list) else x for x in a.items]
            ys = [tuple(x) if isinstance(x, list) else x for x in b.items]
            return self.diff_items(xs, ys)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if any(isinstance(x, SStr) and len(x.parts) == 1 and x.parts[0][0] == 'any'
                   for x in (a, b)) and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) \
                    and not (isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts):
                return False            # arbitrary text differs in some interpretation
            if isinstance(a, SStr) and isinstance(b, SStr):
                return self.diff(tuple(a.parts), tuple(b.parts))
            raise Unsupported('comparison of unknown text')
        if type(a) is type(b) and isinstance(a, (str, int, bool)):
            return a == b
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return False
        if isinstance(a, SObj) or isinstance(b, SObj):
            return False
        if isinstance(a, SFunc) and isinstance(b, SFunc):
            return a.node is b.node
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')

    def diff_items(self, xs, ys, factors=False):
        from .extmodels import align
        if not any(isinstance(x, (Seg, Hist, DSeg)) for x in list(xs) + list(ys)):
            if len(xs) != len(ys):
                return False
            pairs = list(zip(xs, ys))
        else:
            try:
                pairs = align_any(self.I, xs, ys)
            except Unsupported:
                d = self.I.models.length(self.I, SList(list(xs))) - self.I.models.length(self.I, SList(list(ys)))
                if prove_zero(d, self.I.ctx()):
                    raise
                return [d]
        out = []
        for x, y in pairs:
            if isinstance(x, Seg):
                K = Poly.atom(x.k)
                g = ind_lit('<=', -K) * ind_lit('<=', K - x.N + ONEP)
                if len(x.nest) != len(y.nest) or any(len(a[1]) != len(b[1]) or a[0] != b[0]
                                                     for a, b in zip(x.nest, y.nest)):
                    r = self.diff_cases(x, y, g, factors)
                    if r is False:
                        return False
                    out += r
                    continue
                for (c1, i1), (c2, i2) in zip(x.nest, y.nest):
                    out.append(g * (c1 - c2))
                    r = self.diff_items(i1, i2, factors)
                    if r is False:
                        return False
                    if r is not True:
                        out += [(p.scale(g * c1) if isinstance(p, NC) else g * c1 * p) for p in r]
            else:
                r = self.diff(x, y, factors)
                if r is False:
                    return False
                if r is not True:
                    out += r
        return [p for p in out if not p.is_zero()]

    def diff_cases(self, x, y, g, factors):
        """Segments whose cases are split differently."""
        out = []
        ctx = self.I.ctx()
        for c1, i1 in x.nest:
            for c2, i2 in y.nest:
                c = g * c1 * c2
                if not i1 and not i2 or c.is_zero() or ctx.sat(*factor_list(c)) == 'unsat':
                    continue
                if len(i1) != len(i2):
                    out.append(c)
                    continue
                r = self.diff_items(i1, i2, factors)
                if r is False:
                    out.append(c)
                elif r is not True:
                    out += [(p.scale(c) if isinstance(p, NC) else c * p) for p in r]
        return out

    def true(self, label, cond):
        """Obligation that a (symbolic) boolean holds."""
        name = f'{self.name}: {label}'
        if cond is True:
            self.r.record(name, 'proved')
            return
        if cond is False:
            self.r.record(name, 'refuted', 'does not hold')
            return
        p = cond.p if isinstance(cond, SBool) else cond
        ctx = self.I.ctx()
        if p == ONEP or ctx.entails(p) or prove_zero(ONEP - p, ctx):
            self.r.record(name, 'proved')
            return
        ref = refute_zero(ONEP - p, ctx, self.r.seed)
        if ref is not None:
            self.r.record(name, 'refuted', f'fails: {short(p)}', model=dict(ref[0].vars))
        else:
            self.r.record(name, 'undecided', short(p))

    def same(self, label, a, b):
        """Obligation that two values are the same object or equal constants."""
        name = f'{self.name}: {label}'
        ok = a is b or _is_same_value(a, b)
        self.r.record(name, 'proved' if ok else 'refuted',
                      '' if ok else f'got {short(a)}, expected {short(b)}')


def factor_list(p):
    from .loops import _factors
    return _factors(p)


def align_any(I, xs, ys):
    from .extmodels import align
    xs = [Seg(x.N, x.k, [(x.cond, [(x.key, x.val)])]) if isinstance(x, DSeg) else x for x in xs]
    ys = [Seg(x.N, x.k, [(x.cond, [(x.key, x.val)])]) if isinstance(x, DSeg) else x for x in ys]
    if len(xs) == len(ys) and all(isinstance(a, Seg) == isinstance(b, Seg)
                                  for a, b in zip(xs, ys)):
        out = []
        for a, b in zip(xs, ys):
            if isinstance(a, Seg):
                if a.N != b.N and not prove_zero(a.N - b.N, I.ctx()):
                    break
                k = I.fresh('k')
                sub = Poly.atom(k)
                na = Seg(a.N, k, [(c.subst({a.k: sub}), [subst_value(v, {a.k: sub}) for v in vs])
                                  for c, vs in a.nest])
                nb = Seg(a.N, k, [(c.subst({b.k: sub}), [subst_value(v, {b.k: sub}) for v in vs])
                                  for c, vs in b.nest])
                out.append((na, nb))
            else:
                out.append((a, b))
        else:
            return out
    return align(I, xs, ys)


def nc_of(v):
    if isinstance(v, NC):
        return v
    if isinstance(v, SQobj):
        return v.nc
    if isinstance(v, Arr):
        return to_nc(v)
    if isinstance(v, int) and v == 0:
        return NC({})
    if isinstance(v, SNum) and v.p.is_zero():
        return NC({})
    raise Unsupported(f'operator expected, got {type(v).__name__}')


def short(x, n=int(__import__("os").environ.get("DL", 400))):
    s = x.key if isinstance(x, (Poly, NC)) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def model_text(m):
    items = sorted(m.vars.items())[:12]
    return ', '.join(f'{k}={v:.6g}' if isinstance(v, float) else f'{k}={v}' for k, v in items)
