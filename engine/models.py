"""Meaning of Python's built-in types and of the libraries the code uses.

Everything in this file and in extmodels.py is an assumed contract of CPython,
numpy, scipy, torch or qutip; the names used in a run are listed in its
evidence file.
"""
import string
from fractions import Fraction

from .terms import *
from .nc import NC, Base, Letter, REBUILD, diag_base
from .solve import prove_zero, prove_nc_zero
from .values import *
from . import interp as IN
from .interp import PyRaise, Builtin
from . import loops as LP
from .loops import Hist


def isnum(v):
    return isinstance(v, (int, SNum, SBool))


def kindof(v):
    if isinstance(v, (int, SBool)):
        return 'int'
    if isinstance(v, SNum):
        return v.kind
    if isinstance(v, Arr):
        return {'float': 'float', 'complex': 'complex', 'int': 'int', 'bool': 'int'}[v.dtype]
    raise Unsupported(f'number expected, got {type(v).__name__}')


KORD = {'int': 0, 'float': 1, 'complex': 2}


def kmax(*ks):
    return max(ks, key=lambda k: KORD[k])


def P(v):
    if isinstance(v, bool):
        return Poly.const(int(v))
    if isinstance(v, int):
        return Poly.const(v)
    if isinstance(v, (SNum, SBool)):
        return v.p
    if isinstance(v, Arr) and v.ndim == 0:
        if isinstance(v.val, NC):
            return v.val.close()
        return v.val
    if isinstance(v, Poly):
        return v
    raise Unsupported(f'number expected, got {type(v).__name__}')


def truediv(I, a, b):
    if b.is_zero():
        raise PyRaise(ZeroDivisionError())
    return a * b.inv()


def ssubst(p, mp):
    """Simultaneous substitution."""
    return p.subst(mp)


# ------------------------------------------------------------- matrices

def entries(a):
    """Entry polynomial of an array in IX."""
    v = a.val
    if isinstance(v, NC):
        if a.ndim == 2:
            return v.entry(IXP[0], IXP[1])
        if a.ndim == 1:
            return v.entry(IXP[0])
        return v.close()
    return v


def _rebuild_ent(b, mp):
    return ent_base(b.inner[1].subst(mp))


_slim = {}


def slim(p, facts=()):
    """Equal polynomial where the facts hold: equalities for indices used up,
    implied conditions of each summand dropped."""
    key = (p.key,) + tuple(f.key for f in facts)
    if key in _slim:
        return _slim[key]
    from .solve import Ctx
    out = ZEROP
    for m, c in p.t.items():
        inds = [a for a, _ in m if a.kind == 'ind']
        q = Poly({m: c})
        if len(inds) > 1:
            for a in inds:
                if a.rel != '=':
                    continue
                for ix in (IX[1], IX[0]):
                    t = _solve_for(a.poly, ix)
                    if t is not None:
                        rest = Poly({tuple(x for x in m if x[0] is not a): c})
                        q = rest.subst({ix: t}) * Poly.atom(a)
                        break
                break
        for m2, c2 in q.t.items():
            lits = sorted([a for a, _ in m2 if a.kind == 'ind'],
                          key=lambda a: (a.rel == '=', -len(a.key), a.key))
            keep = list(lits)
            for a in lits:
                if a.rel == '=':
                    continue
                others = [Poly.atom(x) for x in keep if x is not a]
                if (others or facts) and Ctx([*others, *facts]).entails(Poly.atom(a)):
                    keep.remove(a)
            out = out + Poly({tuple(x for x in m2 if x[0].kind != 'ind' or x[0] in keep): c2})
    _slim[key] = out
    return out


def _solve_for(p, v):
    """t with p = 0 <=> v = t, if p is linear in v with coefficient +-1."""
    for s in (1, -1):
        t = Poly.atom(v) - p.scale(s)
        if v not in t.fv:
            return t
    return None


def ent_base(p):
    p = slim(p)
    b = Base(f'ent{{{p.key}}}', kind='mat', real=p.sort() != 'C')
    b.inner = ('ent', p)
    b.fv = frozenset(v for v in p.fv if v not in IX)
    return b


REBUILD['ent'] = _rebuild_ent


def diagonal(p):
    """Entries of a diagonal matrix that is not a multiple of 1."""
    (em, _), = ind_lit('=', IXP[0] - IXP[1]).t.items()
    out = ZEROP
    for m, c in p.t.items():
        if em[0] not in m:
            return None
        out = out + Poly({tuple(x for x in m if x != em[0]): c})
    out = out.subst({IX[1]: IXP[0]})
    return out if IX[0] in out.fv else None


def to_nc(a):
    v = a.val
    if isinstance(v, NC):
        return v
    if a.ndim != 2 and a.ndim != 1:
        raise Unsupported('matrix form of this array')
    if a.ndim == 2 and a.shape[0] == a.shape[1]:
        d = diagonal(v)
        if d is not None:
            return NC.sym(diag_base(d))
    # linear combination of entries of known words
    from .nc import WORDS, nslots, SLOTP
    out = NC({})
    eye = ind_lit('=', IXP[0] - IXP[1])
    for m, c in v.t.items():
        hit = None
        rest = []
        for a_, e in m:
            if a_.kind == 'app' and a_.fn.startswith(('entry:', 'centry:')) and e == 1 \
                    and hit is None and a_.fn in WORDS \
                    and not any(x in q.fv for q in a_.args[:nslots(WORDS[a_.fn])] for x in IX):
                w = WORDS[a_.fn]
                k = nslots(w)
                one, at = ONEP, a_.args[k:]
                for s_, q in enumerate(a_.args[:k]):
                    one = one * ind_lit('=', SLOTP[s_] - q)
                if a.ndim == 2 and at == (IXP[0], IXP[1]):
                    hit = NC({w: one})
                    continue
                if a.ndim == 2 and at == (IXP[1], IXP[0]):
                    hit = NC({w: one}).trans()
                    continue
                if a.ndim == 1 and at == (IXP[0],):
                    hit = NC({w: one})
                    continue
            rest.append((a_, e))
        r = Poly({tuple(rest): c})
        if hit is None and a.ndim == 2:
            (em, _), = eye.t.items()
            if em[0] in rest:
                rest.remove(em[0])
                r = Poly({tuple(rest): c})
                hit = NC.scalar(ONEP)
        if hit is None or any(x in r.fv for x in IX):
            # conditions that say no more than the ranges of the indices
            v = slim(v, [c for s, i in zip(a.shape, IXP) for c in
                         (ind_lit('<=', -i), ind_lit('<', i - s))])
            if a.ndim == 2:
                t = ssubst(v, {IX[0]: IXP[1], IX[1]: IXP[0]})
                if t.key < v.key:
                    return NC.sym(ent_base(t)).trans()
            return NC.sym(ent_base(v))
        out = out + hit.scale(r)
    return out


def dt_join(*ds):
    o = ['bool', 'int', 'float', 'complex']
    return o[max(o.index(d) for d in ds)]


def arr_dtype(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, bool):
        return 'bool'
    return kindof(v)


def broadcast(I, a, b):
    """(shape, entries a, entries b)"""
    sa, sb = a.shape, b.shape
    n = max(len(sa), len(sb))

    def lift(x):
        p = entries(x)
        k = n - len(x.shape)
        if k:
            p = ssubst(p, {IX[i]: IXP[i + k] for i in range(len(x.shape))})
        return p, (None,) * k + tuple(x.shape)
    pa, ta = lift(a)
    pb, tb = lift(b)
    shape = []
    for i, (x, y) in enumerate(zip(ta, tb)):
        if x is None:
            shape.append(y)
        elif y is None:
            shape.append(x)
        elif x == y:
            shape.append(x)
        elif y == ONEP:
            pb = pb.subst({IX[i]: ZEROP})
            shape.append(x)
        elif x == ONEP:
            pa = pa.subst({IX[i]: ZEROP})
            shape.append(y)
        elif prove_zero(x - y, I.ctx()):
            shape.append(x)
        else:
            raise PyRaise(ValueError('operands could not be broadcast together'))
    return tuple(shape), pa, pb


def meta_of(*xs):
    m = {}
    for x in xs:
        if isinstance(x, Arr):
            for k in ('opmat',):
                if k in x.meta:
                    m[k] = x.meta[k]
    return m


class Models:
    TRANSPARENT_DECORATORS = {'torch.autograd.function.once_differentiable',
                              'functools.wraps', 'typing.overload',
                              'abc.abstractmethod', 'functools.lru_cache'}

    def __init__(self):
        from . import extmodels
        self.ext = extmodels
        self.used = {}

    def install(self, I):
        self.I = I

    def modname(self, name):
        return name

    # ---------------------------------------------------------- tuples
    def mk_tuple(self, I, items):
        if any(isinstance(x, (Seg, Hist)) for x in items):
            t = SList(items)
            t.is_tuple = True
            t.frozen = True
            return t
        return tuple(items)

    # ---------------------------------------------------------- binary
    def binop(self, I, op, a, b, inplace=False):
        if isinstance(a, bool):
            a = int(a) if op not in ('BitAnd', 'BitOr') else a
        if isinstance(b, bool):
            b = int(b) if op not in ('BitAnd', 'BitOr') else b
        for x, y, name in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if isinstance(x, (SObj, FamObj)):
                nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'MatMult': 'matmul',
                      'Div': 'truediv', 'Pow': 'pow'}.get(op)
                cls = x.cls if isinstance(x, SObj) else I.fam_cls(x)
                m = nm and I.class_attr(cls, name % nm)
                if m is not None:
                    return I.call(SBound(m, x), [y], {})
                raise PyRaise(TypeError('unsupported operand'))
        if isinstance(a, int) and isinstance(b, int):
            return self.int_op(I, op, a, b)
        if isinstance(a, str) or isinstance(a, SStr):
            if op == 'Mod':
                return a if isinstance(a, str) and '%' not in a else SStr((('mod', a, b),))
            if op == 'Add':
                if isinstance(b, str) and isinstance(a, str):
                    return a + b
                if isinstance(b, (str, SStr)):
                    return SStr((a, b))
                raise PyRaise(TypeError('can only concatenate str'))
            if op == 'Mult' and isinstance(b, int) and isinstance(a, str):
                return a * b
            if op == 'Mult' and isinstance(b, SNum):
                return SStr((('repeat', a, b),))
            raise Unsupported('text operation')
        if isinstance(b, (str, SStr)):
            if op == 'Mult' and isinstance(a, int) and isinstance(b, str):
                return a * b
            if op == 'Mult' and isinstance(a, SNum):
                return SStr((('repeat', b, a),))
            if op == 'Add':
                raise PyRaise(TypeError('unsupported operand'))
            raise Unsupported('text operation')
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(a, SNum) and isinstance(b, tuple) and op == 'Mult':
            a, b = b, a
        if isinstance(a, tuple) and len(a) == 1 and isinstance(b, SNum) and op == 'Mult':
            return self.mk_tuple(I, self.binop(I, op, SList(list(a)), b).items)
        if isinstance(a, tuple) and isinstance(b, SList) and op == 'Add' \
                and getattr(b, 'is_tuple', False):
            return self.mk_tuple(I, list(a) + b.items)
        if isinstance(a, SList) and op == 'Add':
            if getattr(a, 'is_tuple', False):
                return self.mk_tuple(I, a.items + self.iter_items(I, b))
            if inplace:
                I.set_items(a, a.items + self.iter_items(I, b))
                return a
            if isinstance(b, SList):
                return SList(a.items + b.items)
            if isinstance(b, Arr):
                return self.arr_op(I, op, self.ext.np_array(I, a), b)
            raise PyRaise(TypeError('can only concatenate list'))
        if op == 'Mult' and isinstance(b, SList) and isnum(a):
            a, b = b, a
        if op == 'Mult' and isinstance(a, SList) and isnum(b):
            if isinstance(b, int):
                if any(isinstance(x, Seg) for x in a.items):
                    raise Unsupported('repeated symbolic list')
                return SList(a.items * b)
            k = I.fresh('k')
            if len(a.items) != 1:
                raise Unsupported('repeated list')
            return SList([Seg.uniform(P(b), k, a.items[0])])
        if isinstance(a, SList) or isinstance(b, SList):
            if isinstance(a, Arr):
                return self.arr_op(I, op, a, self.ext.np_array(I, b))
            if isinstance(b, Arr):
                return self.arr_op(I, op, self.ext.np_array(I, a), b)
            raise PyRaise(TypeError('unsupported operand for list'))
        if a is None or b is None:
            raise PyRaise(TypeError('unsupported operand NoneType'))
        if isinstance(a, (SQobj, TensQ)) or isinstance(b, (SQobj, TensQ)):
            return self.ext.qobj_op(I, op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if inplace and isinstance(a, Arr) and op in ('Add', 'Sub', 'Mult', 'Div') \
                    and a.ndim > 0 and not a.meta.get('opmat'):
                r = self.arr_op(I, op, a, b)
                I.set_store(a, r.val)
                return a
            return self.arr_op(I, op, a, b)
        if isinstance(a, SBool) and isinstance(b, (SBool, bool)) and op == 'BitAnd':
            return mkbool(P(a) * P(b))
        if isnum(a) and isnum(b):
            return self.num_op(I, op, a, b)
        if isinstance(a, (SDict, FunDict, SClass, SFunc)) or isinstance(b, (SDict, FunDict, SClass)):
            raise PyRaise(TypeError('unsupported operand'))
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            return self.ext.extobj_op(I, op, a, b)
        raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')

    def int_op(self, I, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op in ('FloorDiv', 'Mod', 'Div') and b == 0:
            raise PyRaise(ZeroDivisionError())
        if op == 'FloorDiv':
            return a // b
        if op == 'Mod':
            return a % b
        if op == 'Div':
            return SNum(Poly.const(Fraction(a, b)), 'float')
        if op == 'Pow':
            if b >= 0:
                return a ** b
            return SNum(Poly.const(Fraction(a) ** b), 'float')
        if op == 'BitAnd':
            return a & b
        if op == 'BitOr':
            return a | b
        raise Unsupported(f'integer {op}')

    def num_op(self, I, op, a, b):
        k = kmax(kindof(a), kindof(b))
        x, y = P(a), P(b)
        if op == 'Add':
            return num(x + y, k)
        if op == 'Sub':
            return num(x - y, k)
        if op == 'Mult':
            return num(self.ext.SY.product(x, y), k)
        if op == 'Div':
            return num(truediv(I, x, y), 'complex' if k == 'complex' else 'float')
        if op == 'Pow':
            return num(self.power(I, x, y), k if k != 'int' or y.as_int() is not None
                       and y.as_int() >= 0 else 'float')
        if op in ('FloorDiv', 'Mod'):
            c = y.as_int()
            if k == 'int':
                q = Poly.atom(APP('idiv', (x, y), 'I'))
                if c is not None and c > 0 or I.ctx().entails(ind_lit('<', -y)):
                    r = x - q * y
                    I.assume(ind_lit('<=', -r))
                    I.assume(ind_lit('<=', r - y + ONEP))
                    return num(q if op == 'FloorDiv' else r, 'int')
                raise Unsupported('integer division')
            q = f_fun('floor', truediv(I, x, y))
            return num(q if op == 'FloorDiv' else x - q * y, 'float')
        if op in ('BitAnd',):
            return mkbool(x * y)
        raise Unsupported(f'scalar {op}')

    def power(self, I, x, y):
        c = y.const_val()
        if c is not None and not c[1]:
            if c[0].denominator <= 2:
                if x.is_zero() and c[0] < 0:
                    raise PyRaise(ZeroDivisionError())
                if c[0].denominator == 1 and abs(c[0]) > 60:
                    raise Unsupported('large power')
                return x.fpow(c[0])
            if c[0].denominator <= 100 and len(x.t) == 1:
                (m, k), = x.t.items()
                if not k[1] and k[0] > 0 and all(getattr(a, 'pos', False) for a, _ in m):
                    return x.fpow(c[0])
        xc = x.const_val()
        if xc is not None and not xc[1] and xc[0] > 0:
            return f_exp(y * f_fun('log', x))
        return Poly.atom(APP('pow', (x, y), 'R'))

    def arr_op(self, I, op, a, b):
        A = self.ext.as_arr(I, a)
        B = self.ext.as_arr(I, b)
        kind = 'torch' if 'torch' in (A.kind, B.kind) else 'np'
        if op == 'MatMult':
            return self.ext.matmul(I, A, B, kind)
        for x, y in ((A, B), (B, A)):
            z = x.meta.get('zero_if')
            if z is not None and not z.is_zero():
                if op == 'Add' and isinstance(x.val, NC) and isinstance(y.val, NC):
                    yz = y.meta.get('zero_if', ZEROP)
                    r = Arr(kind, y.shape, x.val + y.val, dt_join(x.dtype, y.dtype),
                            **meta_of(A, B))
                    r.meta['zero_if'] = z * yz
                    return r
                if I.decide(z):
                    x2 = 0
                    return self.binop(I, op, x2 if x is A else y, y if x is A else x2)
                x.meta = dict(x.meta)
                x.meta['zero_if'] = ZEROP
        dt = dt_join(A.dtype, B.dtype)
        meta = meta_of(A, B)
        if kind == 'torch':
            meta['sparse'] = self.ext.sparse_result(op, A, B)
            if A.meta.get('grad') or B.meta.get('grad'):
                meta['grad'] = True
        if op == 'Div':
            dt = dt_join(dt, 'float')
        # scalar with matrix
        for x, y, left in ((A, B, True), (B, A, False)):
            if y.ndim == 0 and x.ndim > 0 and isinstance(x.val, NC):
                s = P(y)
                if op == 'Mult':
                    return Arr(kind, x.shape, x.val.scale(s), dt, **meta)
                if op == 'Div' and left:
                    return Arr(kind, x.shape, x.val.scale(truediv(I, ONEP, s)), dt, **meta)
                if op in ('Add', 'Sub') and s.is_zero():
                    v = x.val if op == 'Add' or left else -x.val
                    return Arr(kind, x.shape, v, dt, **meta)
        if op in ('Add', 'Sub') and A.ndim == B.ndim and A.ndim > 0 and (
                isinstance(A.val, NC) or isinstance(B.val, NC)):
            va, vb = A.val, B.val
            if isinstance(va, Poly) and va.is_zero():
                va = NC({})
            if isinstance(vb, Poly) and vb.is_zero():
                vb = NC({})
            if isinstance(va, NC) and isinstance(vb, NC):
                broadcast_shape(I, A, B)
                return Arr(kind, A.shape, va + vb if op == 'Add' else va - vb, dt, **meta)
        shape, pa, pb = broadcast(I, A, B)
        if op == 'Add':
            v = pa + pb
        elif op == 'Sub':
            v = pa - pb
        elif op == 'Mult':
            v = pa * pb
        elif op == 'Div':
            v = arr_div(I, pa, pb)
        elif op == 'Pow':
            v = self.power(I, pa, pb)
        elif op == 'BitAnd':
            v = pa * pb
        else:
            raise Unsupported(f'array {op}')
        if not shape and kind == 'np':
            return num(v, 'complex' if dt == 'complex' else ('float' if dt == 'float' else 'int'))
        return Arr(kind, shape, v, dt, **meta)

    def unop(self, I, op, v):
        if op == 'UAdd':
            return v
        if op == 'USub':
            if isinstance(v, int):
                return -int(v)
            if isinstance(v, SNum):
                return num(-v.p, v.kind)
            if isinstance(v, Arr):
                return Arr(v.kind, v.shape, -v.val, v.dtype, **{k: x for k, x in v.meta.items()
                                                                if k != 'leaf'})
            if isinstance(v, SQobj):
                return SQobj(-v.nc, v.shape, v.kind, v.fmt, v.dims, v.zero_if)
            if isinstance(v, TensQ):
                return TensQ(v.items, -v.coeff)
            raise PyRaise(TypeError('bad operand type for unary -'))
        if op == 'Invert':
            if isinstance(v, Arr):
                return Arr(v.kind, v.shape, ind_not(entries(v)), 'bool')
            if isinstance(v, SBool):
                return mkbool(ind_not(v.p))
        raise Unsupported(f'unary {op}')

    # --------------------------------------------------------- compare
    NEG = {'NotEq': 'Eq', 'NotIn': 'In', 'IsNot': 'Is'}

    def compare(self, I, op, a, b):
        if op in self.NEG:
            r = self.compare(I, self.NEG[op], a, b)
            if isinstance(r, Arr):
                return Arr(r.kind, r.shape, ind_not(entries(r)), 'bool')
            return (not r) if isinstance(r, bool) else mkbool(ind_not(r.p))
        if op == 'Is':
            if a is None or b is None:
                return a is b
            if isinstance(a, (bool, str)) and isinstance(b, (bool, str)):
                return a is b or (isinstance(a, str) and a == b)
            if isinstance(a, FamObj) and isinstance(b, FamObj):
                return self.key_eq(I, a, b)
            if isinstance(a, SBool) and isinstance(b, bool):
                return a if b else mkbool(ind_not(a.p))
            if isinstance(a, int) and isinstance(b, int):
                return a == b and type(a) is type(b)
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a.name == b.name
            return a is b
        if op == 'In':
            return self.contains(I, b, a)
        if op == 'Eq':
            return self.eq(I, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            A, B = self.ext.as_arr(I, a), self.ext.as_arr(I, b)
            kind = 'torch' if 'torch' in (A.kind, B.kind) else 'np'
            shape, pa, pb = broadcast(I, A, B)
            d = {'Lt': ('<', pa - pb), 'LtE': ('<=', pa - pb), 'Gt': ('<', pb - pa),
                 'GtE': ('<=', pb - pa)}[op]
            return Arr(kind, shape, ind_lit(*d), 'bool')
        if isnum(a) and isnum(b):
            x, y = P(a), P(b)
            d = {'Lt': ('<', x - y), 'LtE': ('<=', x - y), 'Gt': ('<', y - x),
                 'GtE': ('<=', y - x)}[op]
            return mkbool(ind_lit(*d))
        if isinstance(a, (tuple, str)) and isinstance(b, (tuple, str)) and type(a) is type(b):
            if isinstance(a, str):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            for x, y in zip(a, b):
                if I.truth(self.compare(I, 'Eq', x, y)):
                    continue
                return self.compare(I, {'LtE': 'Lt', 'GtE': 'Gt'}.get(op, op), x, y)
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b),
                    'GtE': len(a) >= len(b)}[op]
        if a is None or b is None or isinstance(a, (str, SList, tuple)) \
                or isinstance(b, (str, SList, tuple)):
            raise PyRaise(TypeError('ordering not supported'))
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')

    def eq(self, I, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, (str, SObj)) or isinstance(b, (str, SObj)):
                return False
            if isinstance(a, SQobj) or isinstance(b, SQobj):
                return False
            for x, y in ((a, b), (b, a)):
                z = x.meta.get('zero_if') if isinstance(x, Arr) else None
                if z is not None and not z.is_zero() and isinstance(y, int) and y == 0:
                    return mkbool(z)
            A, B = self.ext.as_arr(I, a), self.ext.as_arr(I, b)
            kind = 'torch' if 'torch' in (A.kind, B.kind) else 'np'
            shape, pa, pb = broadcast(I, A, B)
            d = pa - pb
            if d.sort() == 'C':
                r = ceq(d)
            else:
                r = ind_lit('=', d)
            return Arr(kind, shape, r, 'bool')
        if isinstance(a, SQobj) or isinstance(b, SQobj):
            q, o = (a, b) if isinstance(a, SQobj) else (b, a)
            if isinstance(o, int) and o == 0:
                return mkbool(q.zero_if)
            raise Unsupported('comparison of operators')
        if isinstance(a, (SObj, FamObj)):
            m = None
            if isinstance(a, SObj):
                m = I.class_attr(a.cls, '__eq__')
            elif len(a.fam.classes) == 1:
                m = I.class_attr(a.fam.classes[0], '__eq__')
            if m is not None:
                return I.call(SBound(m, a), [b], {})
            return self.key_eq(I, a, b)
        return self.key_eq(I, a, b)

    def key_eq(self, I, a, b):
        """Equality of plain values; identity for objects."""
        if a is b:
            return True
        if isnum(a) and isnum(b):
            d = P(a) - P(b)
            if d.sort() == 'C':
                return mkbool(ceq(d))
            return mkbool(ind_lit('=', d))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                raise Unsupported('comparison of unknown text')
            return False
        if isinstance(a, FamObj) and isinstance(b, FamObj):
            if a.fam is not b.fam:
                return False
            return mkbool(ind_lit('=', a.ident - b.ident))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            ja, jb = LP.joint(a), LP.joint(b)
            if ja is not None and jb is not None and ja[0] == jb[0]:
                return mkbool(ind_lit('=', ja[1] - jb[1]))
            r = ONEP
            for x, y in zip(a, b):
                e = self.key_eq(I, x, y)
                if e is False:
                    return False
                r = r * P(e)
            return mkbool(r)
        if isinstance(a, SList) and isinstance(b, SList):
            if not any(isinstance(x, (Seg, Hist)) for x in a.items + b.items):
                return self.key_eq(I, tuple(a.items), tuple(b.items))
            if not a.items and len(b.items) == 1 and isinstance(b.items[0], Seg):
                return mkbool(ind_lit('=', self.length(I, b)))
            if not b.items and len(a.items) == 1 and isinstance(a.items[0], Seg):
                return mkbool(ind_lit('=', self.length(I, a)))
            raise Unsupported('list equality')
        if isinstance(a, SDict) and isinstance(b, SDict):
            if not a.items or not b.items:
                return self.not_bool(self.truth_p(I, b if not a.items else a))
            raise Unsupported('dict equality')
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        return False

    def not_bool(self, b):
        return (not b) if isinstance(b, bool) else mkbool(ind_not(b.p))

    def truth_p(self, I, v):
        n = self.length(I, v)
        return mkbool(ind_lit('<=', ONEP - n))

    def contains(self, I, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported('text search')
        if isinstance(c, ExtObj) and c.kind == 'set':
            c = SList(c.data['items'])
        if isinstance(c, ExtObj) and c.kind == '__dict__':
            return x in c.data['obj'].attrs
        if isinstance(c, (SDict,)):
            return self.dict_find(I, c, x) is not None
        if isinstance(c, tuple):
            c = SList(list(c))
        if isinstance(c, ExtObj) and c.kind in ('keys', 'values', 'items', 'range'):
            c = SList(self.iter_items(I, c))
        if isinstance(c, SList):
            r = ZEROP
            for it in c.items:
                if isinstance(it, Hist):
                    raise Unsupported('membership in a list under construction')
                if isinstance(it, Seg):
                    tot = ZEROP
                    for cond, xs in it.cases:
                        for y in xs:
                            tot = tot + cond * P(self.key_eq(I, y, x))
                    if tot.is_zero():
                        continue
                    cnt = ind_lit('<=', ONEP - sum_range(it.k, ZEROP, it.N, tot))
                    r = r + cnt - r * cnt
                else:
                    e = self.key_eq(I, it, x)
                    if e is True:
                        return True
                    e = P(e)
                    r = r + e - r * e
            return mkbool(r)
        if isinstance(c, FunDict):
            raise Unsupported('membership in a total map')
        raise Unsupported(f'membership in {type(c).__name__}')

    # ------------------------------------------------------ containers
    def length(self, I, v):
        if isinstance(v, (str, tuple)):
            return Poly.const(len(v))
        if isinstance(v, (SList, SDict)):
            n = ZEROP
            for it in v.items:
                if isinstance(it, Hist):
                    raise Unsupported('length of a sequence under construction')
                if isinstance(it, Seg):
                    if it.is_uniform():
                        n = n + it.N
                    else:
                        c = ZEROP
                        for cond, xs in it.nest:
                            c = c + cond * self.length(I, SList(xs))
                        n = n + sum_range(it.k, ZEROP, it.N, merge_compl(c))
                elif isinstance(it, DSeg):
                    if it.cond == ONEP:
                        n = n + it.N
                    else:
                        n = n + sum_range(it.k, ZEROP, it.N, it.cond)
                else:
                    n = n + ONEP
            return n
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise(TypeError('len() of unsized object'))
            return v.shape[0]
        if isinstance(v, ExtObj) and v.kind == 'set':
            return Poly.const(len(v.data['items']))
        if isinstance(v, ExtObj) and v.kind in ('keys', 'values', 'items', 'range'):
            return self.length(I, SList(self.iter_items(I, v)))
        if v is None or isnum(v) or isinstance(v, SQobj):
            raise PyRaise(TypeError('object has no len()'))
        if isinstance(v, SStr):
            return self.text_length(I, v)
        raise Unsupported(f'len of {type(v).__name__}')

    def list_at(self, I, items, i):
        """Item at index i (int or Poly)."""
        p = Poly.const(i) if isinstance(i, int) else P(i)
        if any(isinstance(x, Hist) for x in items):
            if isinstance(i, int) and i < 0 and not any(
                    isinstance(x, (Seg, Hist)) for x in items[i:]) and len(items) >= -i:
                return items[i]
            raise Unsupported('index into a sequence under construction')
        n = self.length(I, SList(items))
        neg = ind_lit('<', p)
        if I.decide(neg):
            p = p + n
            if I.decide(ind_lit('<', p)):
                raise PyRaise(IndexError('list index out of range'))
        off = ZEROP
        for it in items:
            if isinstance(it, Seg):
                if not it.is_uniform():
                    raise Unsupported('index into a filtered sequence')
                if I.decide(ind_lit('<', p - off - it.N)):
                    return it.item(p - off)
                off = off + it.N
            else:
                if I.decide(ind_lit('=', p - off)):
                    return it
                off = off + ONEP
        raise PyRaise(IndexError('list index out of range'))

    def slice_items(self, I, items, s):
        if s.step not in (None, 1):
            st = s.step
            if st == -1 and s.start is None and s.stop is None:
                return self.reversed_items(I, items)
            if not any(isinstance(x, (Seg, Hist)) for x in items):
                return items[s]
            raise Unsupported('slice step')
        if not any(isinstance(x, (Seg, Hist)) for x in items) and all(
                x is None or isinstance(x, int) for x in (s.start, s.stop)):
            return items[s]
        n = self.length(I, SList(items))

        def norm(x, d):
            if x is None:
                return d
            p = P(x)
            if I.decide(ind_lit('<', p)):
                p = p + n
                if I.decide(ind_lit('<', p)):
                    p = ZEROP
            if I.decide(ind_lit('<', n - p)):
                p = n
            return p
        lo, hi = norm(s.start, ZEROP), norm(s.stop, n)
        out = []
        off = ZEROP
        for it in items:
            if isinstance(it, Seg):
                if not it.is_uniform():
                    raise Unsupported('slice of a filtered sequence')
                end = off + it.N
                # start within the segment
                a = ZEROP
                if not I.decide(ind_lit('<=', lo - off)):
                    if I.decide(ind_lit('<=', end - lo)):
                        off = end
                        continue
                    a = lo - off
                b = it.N
                if not I.decide(ind_lit('<=', end - hi)):
                    if I.decide(ind_lit('<=', hi - off)):
                        off = end
                        continue
                    b = hi - off
                if not (b - a).is_zero():
                    k = I.fresh('k')
                    out.append(Seg.uniform(b - a, k, it.item(Poly.atom(k) + a)))
                off = end
            else:
                if I.decide(ind_lit('<=', lo - off)) and I.decide(ind_lit('<', off - hi)):
                    out.append(it)
                off = off + ONEP
        return out

    def reversed_items(self, I, items):
        out = []
        for it in reversed(items):
            if isinstance(it, Seg):
                if not it.is_uniform():
                    raise Unsupported('reversed filtered sequence')
                k = I.fresh('k')
                it = Seg.uniform(it.N, k, it.item(it.N - ONEP - Poly.atom(k)))
            out.append(it)
        return out

    def getitem(self, I, o, i):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, (SDict,)):
            return self.dict_get(I, o, i)
        if isinstance(o, FunDict):
            return self.ext.fun_get(I, o, i)
        if isinstance(o, Arr):
            return self.ext.arr_getitem(I, o, i)
        if isinstance(i, Arr) and i.ndim == 0:
            i = num(P(i), 'int')
        if isinstance(o, str):
            if isinstance(i, (int, slice)):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise(IndexError('string index'))
            raise Unsupported('text index')
        if isinstance(o, (tuple, SList)):
            items = list(o) if isinstance(o, tuple) else o.items
            if isinstance(i, slice):
                r = self.slice_items(I, items, i)
                return self.mk_tuple(I, r) if isinstance(o, tuple) or getattr(
                    o, 'is_tuple', False) else SList(r)
            if not isnum(i):
                raise PyRaise(TypeError('list indices must be integers'))
            if isinstance(i, SNum) and i.kind != 'int':
                raise PyRaise(TypeError('list indices must be integers'))
            return self.list_at(I, items, i if isinstance(i, int) else i)
        if isinstance(o, ExtObj):
            return self.ext.extobj_getitem(I, o, i)
        if isinstance(o, Ext):
            return Ext(o.name + '[]')
        if isinstance(o, SQobj):
            return self.ext.qobj_getitem(I, o, i)
        if isinstance(o, (SObj, FamObj)):
            m = I.class_attr(o.cls, '__getitem__') if isinstance(o, SObj) else None
            if m is not None:
                return I.call(SBound(m, o), [i], {})
            raise PyRaise(TypeError('object is not subscriptable'))
        if isinstance(o, Builtin):
            return o
        if o is None or isnum(o):
            raise PyRaise(TypeError('object is not subscriptable'))
        raise Unsupported(f'index into {type(o).__name__}')

    def setitem(self, I, o, i, v):
        if isinstance(o, SDict):
            return self.dict_set(I, o, i, v)
        if isinstance(o, FunDict):
            return self.ext.fun_set(I, o, i, v)
        if isinstance(o, Arr):
            return self.ext.arr_setitem(I, o, i, v)
        if isinstance(i, Arr) and i.ndim == 0:
            i = num(P(i), 'int')
        if isinstance(o, SList):
            if isinstance(i, slice):
                raise Unsupported('slice assignment')
            items = o.items
            if getattr(o, 'is_tuple', False):
                raise PyRaise(TypeError('tuple does not support item assignment'))
            if any(isinstance(x, Hist) for x in items):
                if isinstance(i, int) and i < 0 and not any(
                        isinstance(x, (Seg, Hist)) for x in items[i:]) and len(items) >= -i:
                    new = list(items)
                    new[i] = v
                    return I.set_items(o, new)
                raise Unsupported('store into a list under construction')
            if not any(isinstance(x, Seg) for x in items) and isinstance(i, int):
                if not -len(items) <= i < len(items):
                    raise PyRaise(IndexError('list assignment index out of range'))
                new = list(items)
                new[i] = v
                return I.set_items(o, new)
            p = P(i)
            n = self.length(I, o)
            if I.decide(ind_lit('<', p)):
                p = p + n
                if I.decide(ind_lit('<', p)):
                    raise PyRaise(IndexError('list assignment index out of range'))
            off = ZEROP
            for pos, it in enumerate(items):
                if isinstance(it, Seg):
                    if not it.is_uniform():
                        raise Unsupported('store into a filtered sequence')
                    if I.decide(ind_lit('<', p - off - it.N)):
                        old = it.cases[0][1][0]
                        new = list(items)
                        K = Poly.atom(it.k)
                        if isnum(old) and isnum(v):
                            g = ind_lit('=', K - (p - off))
                            oe = P(old).subst({it.k: p - off})
                            d = P(v) - oe
                            if len(d.t) < len(P(v).t) or oe.is_zero():
                                nv = P(old) + g * d
                            else:
                                nv = P(old) * (ONEP - g) + g * P(v)
                            new[pos] = Seg.uniform(it.N, it.k, num(nv, kmax(kindof(old), kindof(v))))
                            I.indexed_lists.add(o.oid)
                        else:
                            # split the segment around the index
                            k1, k2 = I.fresh('k'), I.fresh('k')
                            new[pos:pos + 1] = [
                                Seg.uniform(p - off, k1, it.item(Poly.atom(k1))), v,
                                Seg.uniform(it.N - ONEP - (p - off), k2,
                                            it.item(Poly.atom(k2) + p - off + ONEP))]
                        return I.set_items(o, new)
                    off = off + it.N
                else:
                    if I.decide(ind_lit('=', p - off)):
                        new = list(items)
                        new[pos] = v
                        return I.set_items(o, new)
                    off = off + ONEP
            raise PyRaise(IndexError('list assignment index out of range'))
        if isinstance(o, tuple):
            raise PyRaise(TypeError('tuple does not support item assignment'))
        if isinstance(o, Ext):
            I.events.append(('store', o.name))
            return
        if isinstance(o, SObj):
            m = I.class_attr(o.cls, '__setitem__')
            if m is not None:
                return I.call(SBound(m, o), [i, v], {})
        if isinstance(o, ExtObj) and o.kind == '__dict__':
            I.set_in(o.data['obj'].attrs, i, v, ('attr', o.data['obj'], i))
            return
        raise Unsupported(f'store into {type(o).__name__}')

    def delitem(self, I, o, i):
        if isinstance(o, SDict):
            for pos, it in enumerate(o.items):
                if isinstance(it, list) and I.truth(self.key_eq(I, it[0], i)):
                    return I.set_items(o, o.items[:pos] + o.items[pos + 1:])
                if not isinstance(it, list):
                    raise Unsupported('del from a symbolic dict')
            raise PyRaise(KeyError(str(i)))
        if isinstance(o, SList) and isinstance(i, int) and not any(
                isinstance(x, (Seg, Hist)) for x in o.items):
            new = list(o.items)
            try:
                del new[i]
            except IndexError:
                raise PyRaise(IndexError('del'))
            return I.set_items(o, new)
        raise Unsupported('del item')

    # ------------------------------------------------------------ dict
    def match(self, tmpl, target, kv):
        """Poly e with tmpl[kv := e] == target, or None."""
        if isinstance(tmpl, FamObj) and isinstance(target, FamObj):
            if tmpl.fam is not target.fam:
                return None
            return match_poly(tmpl.ident, target.ident, kv)
        if isinstance(tmpl, tuple) and isinstance(target, tuple) and len(tmpl) == len(target):
            for a, b in zip(tmpl, target):
                e = self.match(a, b, kv)
                if e is not None:
                    s = subst_value(tmpl, {kv: e})
                    if self.key_eq(None, s, target) is True:
                        return e
            return None
        if isnum(tmpl) and isnum(target):
            return match_poly(P(tmpl), P(target), kv)
        return None

    def dict_find(self, I, d, k):
        """Matching entry: ('pair', item) or ('seg', seg, index); None if absent."""
        if isinstance(k, SStr):
            raise Unsupported('unknown text as key')
        if isinstance(k, SList):
            raise PyRaise(TypeError('unhashable type'))
        for it in reversed(d.items):
            if isinstance(it, Hist):
                raise Unsupported('lookup in a dict under construction')
            if isinstance(it, DSeg):
                e = self.match(it.key, k, it.k)
                if e is not None:
                    c = ind_lit('<=', -e) * ind_lit('<=', e - it.N + ONEP) * it.cond.subst({it.k: e})
                    if I.decide(c):
                        return ('seg', it, e)
                    # another index could carry the same key only if keys repeat
                    if d.keycmp == 'distinct':
                        continue
                g = self.key_eq(I, it.key, k)
                if g is False:
                    continue
                u = LP._unique(it.cond * P(g), it.k)
                if u is not None:
                    c = ind_lit('<=', -u) * ind_lit('<=', u - it.N + ONEP) \
                        * (it.cond * P(g)).subst({it.k: u})
                    if I.decide(c):
                        return ('seg', it, u)
                    continue
                tot = sum_range(it.k, ZEROP, it.N, it.cond * P(g))
                if I.decide(ind_lit('<=', ONEP - tot)):
                    s = I.fresh('key')
                    S = Poly.atom(s)
                    I.assume(ind_lit('<=', -S))
                    I.assume(ind_lit('<=', S - it.N + ONEP))
                    for f in LP._factors((it.cond * P(g)).subst({it.k: S})):
                        I.assume(f)
                    return ('seg', it, S)
            else:
                if I.truth(self.key_eq(I, it[0], k)):
                    return ('pair', it)
        return None

    def dict_get(self, I, d, k):
        r = self.dict_find(I, d, k)
        if r is None:
            if d.default is not None:
                v = I.call(d.default, [], {})
                self.dict_set(I, d, k, v)
                return v
            raise PyRaise(KeyError(str(k)))
        if r[0] == 'pair':
            return r[1][1]
        return subst_value(r[1].val, {r[1].k: r[2]})

    def dict_set(self, I, d, k, v, init=False):
        if isinstance(k, SList):
            raise PyRaise(TypeError('unhashable type'))
        if init and not d.items:
            d.items.append([k, v])
            return
        items = list(d.items)
        if any(isinstance(x, Hist) for x in items):
            # keys of earlier iterations are assumed handled by the summary
            for pos in range(len(items) - 1, -1, -1):
                it = items[pos]
                if isinstance(it, Hist):
                    break
                if isinstance(it, list) and self.key_eq(I, it[0], k) is True:
                    items[pos] = [k, v]
                    return I.set_items(d, items)
            return I.set_items(d, items + [[k, v]])
        r = self.dict_find(I, d, k)
        if r is None:
            items.append([k, v])
        elif r[0] == 'pair':
            pos = next(i for i, x in enumerate(items) if x is r[1])
            items[pos] = [r[1][0], v]
        else:
            seg, e = r[1], r[2]
            pos = next(i for i, x in enumerate(items) if x is seg)
            old = seg.val
            K = Poly.atom(seg.k)
            if isnum(old) and isnum(v):
                g = ind_lit('=', K - e)
                items[pos] = DSeg(seg.N, seg.k, seg.cond, seg.key,
                                  num(P(old) * (ONEP - g) + g * P(v), kmax(kindof(old), kindof(v))))
            elif isinstance(old, SQobj) and isinstance(v, SQobj):
                g = ind_lit('=', K - e)
                items[pos] = DSeg(seg.N, seg.k, seg.cond, seg.key,
                                  SQobj(old.nc.scale(ONEP - g) + v.nc.scale(g), v.shape, v.kind,
                                        v.fmt, v.dims))
            else:
                raise Unsupported('store into a symbolic dict')
        I.set_items(d, items)

    def dseg_overlap(self, I, old, new):
        if old.N == new.N:
            ok = subst_value(old.key, {old.k: Poly.atom(new.k)})
            if self.key_eq(I, ok, new.key) is True and \
                    old.cond.subst({old.k: Poly.atom(new.k)}) == new.cond:
                return 'same'
        if self.key_eq(I, old.key, new.key) is False:
            return 'disjoint'
        return 'unknown'

    # ------------------------------------------------------- iteration
    def unpack(self, I, v, n, starred, elts):
        items = self.iter_items(I, v)
        import ast
        if starred:
            pos = next(i for i, x in enumerate(elts) if isinstance(x, ast.Starred))
            if any(isinstance(x, (Seg, Hist)) for x in items):
                raise Unsupported('starred unpacking')
            after = n - pos - 1
            if len(items) < n - 1:
                raise PyRaise(ValueError('not enough values to unpack'))
            mid = items[pos:len(items) - after]
            return items[:pos] + [SList(mid)] + (items[len(items) - after:] if after else [])
        if any(isinstance(x, (Seg, Hist)) for x in items):
            L = self.length(I, SList(items))
            if L.as_int() == n:
                return [self.list_at(I, items, i) for i in range(n)]
            if I.decide(ind_lit('=', L - Poly.const(n))):
                return [self.list_at(I, items, i) for i in range(n)]
            raise PyRaise(ValueError('wrong number of values to unpack'))
        if len(items) != n:
            raise PyRaise(ValueError('wrong number of values to unpack'))
        return items

    def iter_items(self, I, v):
        if isinstance(v, Poison):
            if v.loc is not None:
                raise IN.NeedAcc(v.loc)
            raise Unsupported(v.why)
        if isinstance(v, SList):
            return list(v.items)
        if isinstance(v, (tuple, str)):
            return list(v)
        if isinstance(v, SDict):
            return self.dict_items(I, v, 'keys')
        if isinstance(v, ExtObj):
            if v.kind in ('keys', 'values', 'items'):
                return self.dict_items(I, v.data['d'], v.kind)
            if v.kind in ('set', 'iter'):
                return list(v.data['items'])
            if v.kind == 'range':
                lo, hi, st = v.data['lo'], v.data['hi'], v.data['step']
                a, b = lo.as_int(), hi.as_int()
                if a is not None and b is not None:
                    return list(range(a, b, st))
                if st == 1:
                    n = hi - lo
                    c = n.as_int()
                    if c is not None:
                        return [num(lo + Poly.const(i), 'int') for i in range(max(c, 0))]
                    # the number of iterations is max(n, 0)
                    if I.ctx().entails(ind_lit('<=', -n)):
                        N = n
                    elif I.decide(ind_lit('<=', -n)):
                        N = n
                    else:
                        return []
                    k = I.fresh('k')
                    return [Seg.uniform(N, k, num(lo + Poly.atom(k), 'int'))]
                if st == -1:
                    n = lo - hi
                    if I.decide(ind_lit('<=', -n)):
                        k = I.fresh('k')
                        return [Seg.uniform(n, k, num(lo - Poly.atom(k), 'int'))]
                    return []
            if v.kind == '__dict__':
                return list(v.data['obj'].attrs)
            if v.kind == 'nditer':
                return self.ext.GR.iteration(I, v)
            raise Unsupported(f'iteration over {v.kind}')
        if isinstance(v, Arr):
            return self.ext.arr_iter(I, v)
        if isinstance(v, (SQobj,)):
            raise Unsupported('iteration over an operator')
        if v is None or isnum(v):
            raise PyRaise(TypeError('object is not iterable'))
        if isinstance(v, (SObj, FamObj)):
            m = I.class_attr(v.cls, '__iter__') if isinstance(v, SObj) else None
            if m is not None:
                return self.iter_items(I, I.call(SBound(m, v), [], {}))
            raise PyRaise(TypeError('object is not iterable'))
        raise Unsupported(f'iteration over {type(v).__name__}')

    def dict_items(self, I, d, what):
        out = []
        if isinstance(d, FunDict):
            raise Unsupported('iteration over a total map')

        def pick(k, v):
            return {'keys': k, 'values': v, 'items': (k, v)}[what]
        for it in d.items:
            if isinstance(it, Hist):
                out.append(it)
            elif isinstance(it, DSeg):
                out.append(Seg(it.N, it.k, [(it.cond, [pick(it.key, it.val)])]))
            else:
                out.append(pick(it[0], it[1]))
        return out

    # ------------------------------------------------------------ text
    def text_length(self, I, v):
        """Number of characters; nothing is known about that of formatted values."""
        out = ZEROP
        for x in v.parts:
            if isinstance(x, str):
                out = out + Poly.const(len(x))
            elif isinstance(x, tuple) and x[0] == 'any':
                out = out + Poly.atom(APP('length:' + x[1], tuple(P(y) for y in x[2:]), 'I', True))
            else:
                return Poly.atom(I.fresh('opaque#length', pos=True))
        return out

    def fmt(self, I, x, spec, conv):
        if isinstance(x, str) and not spec:
            return repr(x) if conv == ord('r') else x
        if isinstance(x, bool) or isinstance(x, int) and not spec:
            return str(x)
        if isinstance(x, SObj) and not spec:
            m = I.class_attr(x.cls, '__repr__') if conv == ord('r') else \
                (I.class_attr(x.cls, '__str__') or I.class_attr(x.cls, '__repr__'))
            if m is not None:
                return I.call(SBound(m, x), [], {})
        if isinstance(x, SStr) and not spec and conv == -1:
            return x
        return SStr((('fmt', x, spec),))

    # ------------------------------------------------------------ truth
    def truth(self, I, v):
        if isinstance(v, (SList, SDict)):
            n = self.length(I, v)
            return I.decide(ind_lit('<=', ONEP - n))
        if isinstance(v, Arr):
            if v.ndim == 0 or all(s == ONEP for s in v.shape):
                p = entries(v)
                if v.ndim:
                    p = p.subst({IX[i]: ZEROP for i in range(v.ndim)})
                if v.dtype == 'bool':
                    return I.decide(p)
                return I.decide(ind_lit('!=', p))
            raise PyRaise(ValueError('truth value of an array is ambiguous'))
        if isinstance(v, SQobj):
            if v.zero_if.is_zero():
                return True
            return not I.decide(v.zero_if)
        if isinstance(v, SStr):
            raise Unsupported('truth of unknown text')
        if isinstance(v, ExtObj) and v.kind in ('set', 'keys', 'values', 'items', 'range'):
            return I.decide(ind_lit('<=', ONEP - self.length(I, v)))
        if isinstance(v, (SObj, FamObj)):
            cls = v.cls if isinstance(v, SObj) else I.fam_cls(v)
            m = I.class_attr(cls, '__len__') or I.class_attr(cls, '__bool__')
            if m is not None:
                raise Unsupported('truth of an object')
            return True
        if isinstance(v, (FamObj, SClass, SFunc, SBound, Builtin, UFun, UFunInst, TensQ, Ext,
                          ExtObj, BMeth)):
            return True
        raise Unsupported(f'truth of {type(v).__name__}')

    # --------------------------------------------------------- dispatch
    def call_builtin(self, I, name, args, kw):
        f = getattr(self, 'b_' + name, None)
        if f is None:
            raise Unsupported(f'builtin {name}')
        return f(I, *args, **kw)

    def b_len(self, I, v):
        if isinstance(v, (SObj,)):
            m = I.class_attr(v.cls, '__len__')
            if m is None:
                raise PyRaise(TypeError('object has no len()'))
            return I.call(SBound(m, v), [], {})
        return num(self.length(I, v), 'int')

    def b_range(self, I, a, b=None, c=1):
        lo, hi = (0, a) if b is None else (a, b)
        for x in (lo, hi):
            if isinstance(x, SNum) and x.kind != 'int' or not isnum(x) and not isinstance(x, Arr):
                raise PyRaise(TypeError('range() needs integers'))
        if not isinstance(c, int):
            raise Unsupported('range step')
        return ExtObj('range', lo=P(lo), hi=P(hi), step=c)

    def b_enumerate(self, I, v, start=0):
        out = []
        off = P(start)
        for it in self.iter_items(I, v):
            if isinstance(it, Seg):
                if it.is_uniform():
                    out.append(Seg(it.N, it.k, [(c, [(num(off + Poly.atom(it.k), 'int'), x)
                                                     for x in xs]) for c, xs in it.cases]))
                    off = off + it.N
                elif all(len(xs) <= 1 for _, xs in it.cases):
                    # position = number of items contributed before
                    j = fresh_bound()
                    cnt = ZEROP
                    for c, xs in it.cases:
                        if xs:
                            cnt = cnt + c.subst({it.k: Poly.atom(j)})
                    posn = off + sum_range(j, ZEROP, Poly.atom(it.k), cnt)
                    out.append(Seg(it.N, it.k, [(c, [(num(posn, 'int'), x) for x in xs])
                                                for c, xs in it.cases]))
                    off = off + self.length(I, SList([it]))
                else:
                    raise Unsupported('enumerate of a filtered sequence')
            elif isinstance(it, Hist):
                raise Unsupported('enumerate of a sequence under construction')
            else:
                out.append((num(off, 'int'), it))
                off = off + ONEP
        return ExtObj('iter', items=out)

    def b_zip(self, I, *vs, strict=False):
        ls = [self.iter_items(I, v) for v in vs]
        out = []
        ls = [list(x) for x in ls]
        while all(ls):
            heads = [x[0] for x in ls]
            if any(isinstance(h, Hist) for h in heads):
                raise Unsupported('zip of a sequence under construction')
            segs = [h for h in heads if isinstance(h, Seg)]
            if not segs:
                out.append(tuple(heads))
                for x in ls:
                    x.pop(0)
                continue
            if len(segs) == len(heads):
                if not all(h.is_uniform() for h in heads):
                    raise Unsupported('zip of filtered sequences')
                N = heads[0].N
                for h in heads[1:]:
                    if not (h.N == N or prove_zero(h.N - N, I.ctx())):
                        # shortest wins
                        if I.decide(ind_lit('<=', h.N - N)):
                            N = h.N
                k = I.fresh('k')
                out.append(Seg.uniform(N, k, tuple(h.item(Poly.atom(k)) for h in heads)))
                rest = False
                for x, h in zip(ls, heads):
                    x.pop(0)
                    if h.N != N and not prove_zero(h.N - N, I.ctx()):
                        rest = True
                if rest:
                    if all(not x for x in ls):
                        break
                    raise Unsupported('zip of misaligned sequences')
                continue
            # a segment against single items: peel single items off the segment
            for x in ls:
                h = x[0]
                if isinstance(h, Seg):
                    if not h.is_uniform():
                        raise Unsupported('zip of filtered sequences')
                    if I.decide(ind_lit('<=', h.N)):
                        x.pop(0)
                        break
                    k = I.fresh('k')
                    x[0:1] = [h.item(ZEROP),
                              Seg.uniform(h.N - ONEP, k, h.item(Poly.atom(k) + ONEP))]
        return ExtObj('iter', items=out)

    def b_map(self, I, f, *vs):
        out = SList([])
        if len(vs) == 1:
            LP.run_loop(I, self.iter_items(I, vs[0]),
                        lambda x: I.set_items(out, out.items + [I.call(f, [x], {})]))
        else:
            LP.run_loop(I, self.b_zip(I, *vs).data['items'],
                        lambda x: I.set_items(out, out.items + [I.call(f, list(x), {})]))
        return out

    def b_filter(self, I, f, v):
        out = SList([])

        def body(x):
            if I.truth(x if f is None else I.call(f, [x], {})):
                I.set_items(out, out.items + [x])
        LP.run_loop(I, self.iter_items(I, v), body)
        return out

    def b_sum(self, I, v, start=0):
        box = IN.Env(None, None)
        box.vars['acc'] = start
        loc = ('env', box, 'acc')

        def body(x):
            old = box.vars['acc']
            if isinstance(old, Poison):
                raise IN.NeedAcc(old.loc)
            I.set_in(box.vars, 'acc', self.binop(I, 'Add', old, x), loc)
        LP.run_loop(I, self.iter_items(I, v), body)
        r = box.vars['acc']
        if isinstance(r, Poison):
            raise Unsupported('sum')
        return r

    def b_int(self, I, v=0, *rest):
        if isinstance(v, Arr) and v.ndim == 0:
            v = num(P(v), kindof(v))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, SBool):
            return num(v.p, 'int')
        if isinstance(v, SNum):
            if v.kind == 'int':
                return v
            if v.kind == 'complex':
                raise PyRaise(TypeError('int of complex'))
            c = v.p.const_val()
            if c is not None:
                return int(c[0])
            if v.p.sort() == 'I':
                return num(v.p, 'int')
            if I.ctx().entails(ind_lit('<=', -v.p)):
                f = f_fun('floor', v.p)
                if f.as_int() is None:
                    I.assume(ind_lit('<=', f - v.p))
                    I.assume(ind_lit('<', v.p - f - ONEP))
                return num(f, 'int')
            return num(Poly.atom(APP('trunc', (v.p,), 'I')), 'int')
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise(ValueError('int of text'))
        if v is None or isinstance(v, (SList, tuple)):
            raise PyRaise(TypeError('int() argument'))
        raise Unsupported('int()')

    def b_float(self, I, v=0):
        if isinstance(v, Arr) and v.ndim == 0:
            return num(P(v), 'float')
        if isnum(v):
            if kindof(v) == 'complex':
                raise PyRaise(TypeError('float of complex'))
            return SNum(P(v), 'float')
        if isinstance(v, str):
            if v in ('inf', '-inf', 'nan'):
                raise Unsupported('special float')
            try:
                return SNum(Poly.const(Fraction(v)), 'float')
            except ValueError:
                raise PyRaise(ValueError('float of text'))
        if isinstance(v, SStr):
            return self.ext.SY.number_in(v)
        if v is None or isinstance(v, (SList, tuple)):
            raise PyRaise(TypeError('float() argument'))
        raise Unsupported('float()')

    def b_complex(self, I, a=0, b=0):
        return SNum(P(a) + P(b) * IUNIT, 'complex')

    def b_bool(self, I, v=False):
        if isinstance(v, SBool):
            return v
        return I.truth(v)

    def b_isinstance(self, I, v, t):
        if isinstance(t, tuple):
            return any(I.truth(self.b_isinstance(I, v, x)) for x in t)
        if isinstance(t, SList):
            raise PyRaise(TypeError('isinstance() arg 2'))
        if isinstance(v, SQobj) and not v.zero_if.is_zero():
            if I.decide(v.zero_if):
                v = 0
        if isinstance(v, Arr) and not v.meta.get('zero_if', ZEROP).is_zero():
            if I.decide(v.meta['zero_if']):
                v = 0
        if isinstance(t, SClass):
            if isinstance(v, SObj):
                return t in v.cls.mro
            if isinstance(v, FamObj):
                hit = [c for c in v.fam.classes if t in c.mro]
                if not hit:
                    return False
                if len(hit) == len(v.fam.classes):
                    return True
                tg = v.fam.tagfn(v.ident)
                r = ZEROP
                for c in hit:
                    r = r + ind_lit('=', tg - Poly.const(v.fam.classes.index(c)))
                return mkbool(r)
            return False
        if isinstance(t, Builtin):
            n = t.name
            if n == 'int':
                return isinstance(v, (int, SBool)) or isinstance(v, SNum) and v.kind == 'int'
            if n == 'float':
                return isinstance(v, SNum) and v.kind == 'float'
            if n == 'complex':
                return isinstance(v, SNum) and v.kind == 'complex'
            if n == 'bool':
                return isinstance(v, (bool, SBool))
            if n == 'str':
                return isinstance(v, (str, SStr))
            if n == 'list':
                return isinstance(v, SList) and not getattr(v, 'is_tuple', False)
            if n == 'tuple':
                return isinstance(v, tuple) or getattr(v, 'is_tuple', False)
            if n == 'dict':
                return isinstance(v, (SDict, FunDict))
            if n == 'object':
                return True
            if n == 'set':
                return isinstance(v, ExtObj) and v.kind == 'set'
            if n == 'type':
                return isinstance(v, (SClass, Builtin))
        if isinstance(t, type) and issubclass(t, BaseException):
            if isinstance(v, SObj):
                return any(isinstance(b, type) and issubclass(b, t) for b in v.cls.mro)
            return isinstance(v, t)
        if isinstance(t, Ext):
            return self.ext.ext_isinstance(I, v, t.name)
        raise Unsupported(f'isinstance with {t!r}')

    def b_issubclass(self, I, a, b):
        if isinstance(a, SClass):
            bs = b if isinstance(b, tuple) else (b,)
            return any(x in a.mro for x in bs)
        raise Unsupported('issubclass')

    def _minmax(self, I, args, kw, op):
        if len(args) == 1:
            items = self.iter_items(I, args[0])
        else:
            items = list(args)
        if not items:
            if 'default' in kw:
                return kw['default']
            raise PyRaise(ValueError('empty sequence'))
        if any(isinstance(x, (Seg, Hist)) for x in items):
            if kw:
                raise Unsupported('max of a symbolic sequence')
            from . import extmodels as EM
            return EM.greatest(I, SList(items), 'max' if op == 'Gt' else 'min')
        key = kw.get('key')
        best = items[0]
        for x in items[1:]:
            a, b = (x, best) if key is None else (I.call(key, [x], {}), I.call(key, [best], {}))
            if I.truth(self.compare(I, op, a, b)):
                best = x
        return best

    def b_max(self, I, *args, **kw):
        return self._minmax(I, args, kw, 'Gt')

    def b_min(self, I, *args, **kw):
        return self._minmax(I, args, kw, 'Lt')

    def b_list(self, I, v=None):
        return SList([] if v is None else self.iter_items(I, v))

    def b_tuple(self, I, v=None):
        return () if v is None else self.mk_tuple(I, self.iter_items(I, v))

    def b_dict(self, I, v=None, **kw):
        d = SDict()
        if isinstance(v, SDict):
            d.items = list(v.items)
        elif isinstance(v, ExtObj) and v.kind == '__dict__':
            d.items = [[k, x] for k, x in v.data['obj'].attrs.items()]
        elif v is not None:
            for it in self.iter_items(I, v):
                if isinstance(it, Seg):
                    if d.items or len(it.cases) != 1 or len(it.cases[0][1]) != 1:
                        raise Unsupported('dict of a symbolic sequence')
                    cond, (pair,) = it.cases[0]
                    k, x = self.unpack(I, pair, 2, False, None)
                    if not LP.injective(k, it.k):
                        raise Unsupported('dict of a symbolic sequence with repeated keys')
                    d.items.append(DSeg(it.N, it.k, cond, k, x))
                    continue
                k, x = self.unpack(I, it, 2, False, None)
                self.dict_set(I, d, k, x)
        for k, x in kw.items():
            self.dict_set(I, d, k, x)
        return d

    def b_set(self, I, v=None):
        items = [] if v is None else self.iter_items(I, v)
        if any(isinstance(x, (Seg, Hist)) for x in items):
            return ExtObj('set', items=items)
        out = []
        for x in items:
            if not any(I.truth(self.key_eq(I, x, y)) for y in out):
                out.append(x)
        return ExtObj('set', items=out)

    b_frozenset = b_set

    def b_abs(self, I, v):
        if isinstance(v, int):
            return abs(v)
        if isnum(v):
            return num(f_abs(P(v)), 'float' if kindof(v) == 'complex' else kindof(v))
        return self.ext.call(I, 'numpy.abs', [v], {})

    def b_round(self, I, v, nd=None):
        if isinstance(v, int):
            return v
        if isnum(v) and nd is None:
            return num(Poly.atom(APP('round0', (P(v),), 'I')), 'int')
        if isnum(v):
            if self.ext.SY.rounded(P(nd).as_int()):
                return num(P(v), 'float')
            return num(Poly.atom(APP('round', (P(v), P(nd)), 'R')), 'float')
        return self.ext.call(I, 'numpy.round', [v, nd], {})

    def b_print(self, I, *a, **k):
        return None

    def b_str(self, I, v=''):
        return self.fmt(I, v, '', -1)

    def b_repr(self, I, v):
        return self.fmt(I, v, '', ord('r'))

    def b_format(self, I, v, spec=''):
        return self.fmt(I, v, spec, -1)

    def b_hasattr(self, I, o, name):
        return I.hasattr(o, name)

    def b_getattr(self, I, o, name, *d):
        if d:
            try:
                return I.getattr(o, name)
            except PyRaise as e:
                if isinstance(e.exc, AttributeError):
                    return d[0]
                raise
        return I.getattr(o, name)

    def b_setattr(self, I, o, name, v):
        I.setattr(o, name, v)

    def b_type(self, I, v):
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, FamObj):
            return I.fam_cls(v)
        for n, t in (('bool', (bool, SBool)), ('int', int), ('str', (str, SStr)),
                     ('tuple', tuple), ('dict', SDict)):
            if isinstance(v, t):
                return Builtin(n)
        if isinstance(v, SNum):
            return Builtin(v.kind)
        if isinstance(v, SList):
            return Builtin('list')
        if isinstance(v, Arr):
            return Ext('numpy.ndarray' if v.kind == 'np' else 'torch.Tensor')
        if isinstance(v, (SQobj, TensQ)):
            return Ext('qutip.Qobj')
        if v is None:
            return Builtin('NoneType')
        raise Unsupported('type()')

    def b_any(self, I, v):
        items = self.iter_items(I, v)
        out = ZEROP
        for it in items:
            if isinstance(it, Seg):
                t = ZEROP
                for c, xs in it.cases:
                    for x in xs:
                        t = t + c * P(self.as_bool(x))
                e = ind_lit('<=', ONEP - sum_range(it.k, ZEROP, it.N, t)) if not t.is_zero() else ZEROP
                out = out + e - out * e
            elif I.truth(it):
                return True
        return mkbool(out)

    def as_bool(self, x):
        if isinstance(x, (bool, SBool)):
            return x
        if isinstance(x, (int, SNum)):
            return mkbool(ind_lit('!=', P(x)))
        raise Unsupported('truth in a symbolic sequence')

    def b_all(self, I, v):
        items = self.iter_items(I, v)
        out = ONEP
        for it in items:
            if isinstance(it, Seg):
                t = ZEROP
                for c, xs in it.cases:
                    for x in xs:
                        t = t + c * (ONEP - P(self.as_bool(x)))
                if not t.is_zero():
                    out = out * ind_lit('=', sum_range(it.k, ZEROP, it.N, t))
            elif not I.truth(it):
                return False
        return mkbool(out)

    def b_sorted(self, I, v, key=None, reverse=False):
        items = self.iter_items(I, v)
        if any(isinstance(x, (Seg, Hist)) for x in items):
            raise Unsupported('sorted')
        out = []
        for x in items:
            pos = len(out)
            kx = x if key is None else I.call(key, [x], {})
            while pos > 0:
                ky = out[pos - 1] if key is None else I.call(key, [out[pos - 1]], {})
                less = self.compare(I, 'Lt', kx, ky) if not reverse else \
                    self.compare(I, 'Lt', ky, kx)
                if I.truth(less):
                    pos -= 1
                else:
                    break
            out.insert(pos, x)
        return SList(out)

    def b_reversed(self, I, v):
        return SList(self.reversed_items(I, self.iter_items(I, v)))

    def b_callable(self, I, v):
        return isinstance(v, (SFunc, SBound, SClass, Builtin, UFun, UFunInst, BMeth, Ext))

    def b_object(self, I):
        return ExtObj('object')

    def b_pow(self, I, a, b):
        return self.binop(I, 'Pow', a, b)

    def b_iter(self, I, v):
        return ExtObj('iter', items=self.iter_items(I, v))

    def b_next(self, I, v, *d):
        items = self.iter_items(I, v)
        if not items:
            if d:
                return d[0]
            raise PyRaise(StopIteration())
        if isinstance(items[0], Seg):
            if isinstance(v, ExtObj):
                raise Unsupported('next')
            s = items[0]
            if s.is_uniform() and I.decide(ind_lit('<=', ONEP - s.N)):
                return s.item(ZEROP)
            raise Unsupported('next of a filtered sequence')
        if isinstance(v, ExtObj) and v.kind == 'iter':
            v.data['items'] = items[1:]
        return items[0]

    def b_id(self, I, v):
        if isinstance(v, (SObj, SList, SDict, Arr)):
            return v.oid
        if isinstance(v, FamObj):
            return num(v.ident, 'int')
        raise Unsupported('id')

    def b_slice(self, I, *a):
        return slice(*a)

    def b_divmod(self, I, a, b):
        return (self.binop(I, 'FloorDiv', a, b), self.binop(I, 'Mod', a, b))

    def b_vars(self, I, o):
        return ExtObj('__dict__', obj=o)

    def b_open(self, I, *a, **k):
        I.events.append(('open', a))
        return ExtObj('file', path=a[0], mode=a[1] if len(a) > 1 else k.get('mode', 'r'))

    # --------------------------------------------------------- methods
    def getattr(self, I, o, name):
        if isinstance(o, ExtObj) and o.kind == 'super':
            cls, obj = o.data['cls'], o.data['obj']
            mro = obj.cls.mro if isinstance(obj, SObj) else (
                obj.mro if isinstance(obj, SClass) else I.fam_cls(obj).mro)
            i = mro.index(cls)
            for c in mro[i + 1:]:
                if isinstance(c, SClass) and name in c.ns:
                    return I.bind_attr(c.ns[name], obj, cls)
            if name == '__init__':
                return BMeth(obj, '__super_init__')
            if name == '__new__' and isinstance(obj, SClass) and self.ext.SY.is_symbolic(obj):
                return self.ext.SY.base_new
            raise PyRaise(AttributeError(name))
        if isinstance(o, Poison):
            if o.loc is not None:
                raise IN.NeedAcc(o.loc)
            raise Unsupported(o.why)
        r = self.ext.attr(I, o, name)
        if r is not NotImplemented:
            return r
        if isinstance(o, (SList, SDict, str, tuple, FunDict, SStr)):
            if hasattr(self, 'm_' + name) or isinstance(o, (str, SStr)) and hasattr(str, name):
                ty = {SList: list, SDict: dict, FunDict: dict, tuple: tuple, str: str,
                      SStr: str}[type(o)]
                if isinstance(o, SList) and getattr(o, 'is_tuple', False):
                    ty = tuple
                if hasattr(ty, name) or isinstance(o, SDict):
                    return BMeth(o, name)
            if not hasattr({SList: list, SDict: dict, FunDict: dict, tuple: tuple, str: str,
                            SStr: str}[type(o)], name):
                raise PyRaise(AttributeError(name))
            raise Unsupported(f'method {name} of {type(o).__name__}')
        if isinstance(o, ExtObj):
            return BMeth(o, name)
        if isinstance(o, (SFunc, SBound)) and name in ('__name__', '__doc__', '__qualname__'):
            f = o.func if isinstance(o, SBound) else o
            return getattr(f.node, 'name', '<lambda>')
        if isinstance(o, BaseException):
            if name == 'args':
                return o.args
            return BMeth(o, name)
        if o is None or isinstance(o, (int, SNum, SBool, UFun, UFunInst, SFunc)):
            raise PyRaise(AttributeError(f'no attribute {name}'))
        raise Unsupported(f'attribute {name} of {type(o).__name__}')

    def call_method(self, I, o, name, args, kw):
        if name == '__super_init__':
            return None
        if isinstance(o, (str, SStr)):
            return self.str_method(I, o, name, args, kw)
        if isinstance(o, (SList, SDict, tuple, FunDict)):
            f = getattr(self, 'm_' + name, None)
            if f is None:
                raise Unsupported(f'method {name}')
            return f(I, o, *args, **kw)
        if isinstance(o, ExtObj) and o.kind == '__dict__':
            at = o.data['obj'].attrs
            if name in ('items', 'keys', 'values', 'copy', 'get'):
                d = SDict([[k, v] for k, v in at.items()])
                return d if name == 'copy' else getattr(self, 'm_' + name)(I, d, *args, **kw)
            if name == 'update' and len(args) <= 1:
                new = dict(kw)
                for a in args:
                    a = self.call_method(I, a, 'copy', [], {}) if isinstance(a, ExtObj) else a
                    if not isinstance(a, SDict) or any(not isinstance(x, list) for x in a.items):
                        raise Unsupported('update of __dict__')
                    new.update((k, v) for k, v in a.items)
                for k, v in new.items():
                    self.setitem(I, o, k, v)
                return None
        return self.ext.method(I, o, name, args, kw)

    def format_parts(self, I, text, args, kw, auto):
        """Pieces of text.format(*args, **kw); None where a field is not a
        plain position or name."""
        out = []
        for lit, field, spec, conv in string.Formatter().parse(text):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == '':
                field = str(next(auto, len(args)))
            if field.isdigit() and int(field) < len(args):
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            sub = self.format_parts(I, spec, args, kw, auto)
            if sub is None:
                return None
            sub = ''.join(sub) if all(isinstance(x, str) for x in sub) else SStr(tuple(sub))
            out.append(self.fmt(I, v, sub, ord(conv) if conv else -1))
        return out

    def str_method(self, I, o, name, args, kw):
        if name == 'join':
            items = self.iter_items(I, args[0])
            if isinstance(o, str) and all(isinstance(x, str) for x in items):
                return o.join(items)
            if o == '':
                return SStr(tuple(items))
            return SStr((('join', o, tuple(items)),))
        if name == 'format':
            if isinstance(o, str):
                parts = self.format_parts(I, o, args, kw, iter(range(len(args))))
                if parts is not None:
                    return ''.join(parts) if all(isinstance(x, str) for x in parts) else SStr(tuple(parts))
            return SStr((('format', o) + tuple(args),))
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args):
            r = getattr(o, name)(*args, **kw)
            return SList(r) if isinstance(r, list) else r
        if name in ('ljust', 'rjust', 'center') and len(args) == 1:
            side = {'ljust': '<', 'rjust': '>', 'center': '^'}[name]
            n = self.fmt(I, args[0], '', -1)
            return SStr((('fmt', o, side + n if isinstance(n, str) else SStr((side, n))),))
        if isinstance(o, SStr):
            return SStr((('method', o, name) + tuple(args),))
        raise Unsupported(f'text method {name}')

    def m_append(self, I, l, v):
        I.set_items(l, l.items + [v])

    def m_extend(self, I, l, v):
        I.set_items(l, l.items + self.iter_items(I, v))

    def m_insert(self, I, l, i, v):
        if any(isinstance(x, (Seg, Hist)) for x in l.items) and i != 0:
            raise Unsupported('insert')
        new = list(l.items)
        new.insert(i, v)
        I.set_items(l, new)

    def m_pop(self, I, l, *a):
        if isinstance(l, SDict):
            r = self.dict_find(I, l, a[0])
            if r is None:
                if len(a) > 1:
                    return a[1]
                raise PyRaise(KeyError(str(a[0])))
            if r[0] != 'pair':
                raise Unsupported('pop')
            I.set_items(l, [x for x in l.items if x is not r[1]])
            return r[1][1]
        i = a[0] if a else -1
        if any(isinstance(x, (Seg, Hist)) for x in l.items) or not isinstance(i, int):
            raise Unsupported('pop')
        new = list(l.items)
        try:
            v = new.pop(i)
        except IndexError:
            raise PyRaise(IndexError('pop'))
        I.set_items(l, new)
        return v

    def m_remove(self, I, l, v):
        if any(isinstance(x, (Seg, Hist)) for x in l.items):
            raise Unsupported('remove')
        for i, x in enumerate(l.items):
            if I.truth(self.key_eq(I, x, v)):
                return I.set_items(l, l.items[:i] + l.items[i + 1:])
        raise PyRaise(ValueError('remove'))

    def m_reverse(self, I, l):
        I.set_items(l, self.reversed_items(I, l.items))

    def m_sort(self, I, l, key=None, reverse=False):
        I.set_items(l, self.b_sorted(I, l, key, reverse).items)

    def m_clear(self, I, l):
        I.set_items(l, [])

    def m_index(self, I, l, v):
        items = list(l) if isinstance(l, tuple) else l.items
        off = ZEROP
        for it in items:
            if isinstance(it, Seg):
                if not it.is_uniform():
                    raise Unsupported('index in a filtered sequence')
                y = it.cases[0][1][0]
                e = self.match(y, v, it.k)
                g = P(self.key_eq(I, y, v))
                if e is not None and I.ctx().entails(
                        ind_lit('<=', -e) * ind_lit('<=', e - it.N + ONEP)):
                    # first match: keys pairwise distinct is required
                    k2 = I.fresh('j')
                    K2 = Poly.atom(k2)
                    c2 = I.ctx().plus(ind_lit('<=', -K2), ind_lit('<', K2 - e))
                    if prove_zero(g.subst({it.k: K2}), c2):
                        return num(off + e, 'int')
                tot = sum_range(it.k, ZEROP, it.N, g)
                if I.decide(ind_lit('<=', ONEP - tot)):
                    s = I.fresh('pos')
                    S = Poly.atom(s)
                    I.assume(ind_lit('<=', -S))
                    I.assume(ind_lit('<=', S - it.N + ONEP))
                    for f in LP._factors(g.subst({it.k: S})):
                        I.assume(f)
                    return num(off + S, 'int')
                off = off + it.N
            elif isinstance(it, Hist):
                raise Unsupported('index in a sequence under construction')
            else:
                if I.truth(self.key_eq(I, it, v)):
                    return num(off, 'int')
                off = off + ONEP
        raise PyRaise(ValueError('not in list'))

    def m_count(self, I, l, v):
        items = list(l) if isinstance(l, tuple) else l.items
        n = ZEROP
        for it in items:
            if isinstance(it, Seg):
                t = ZEROP
                for c, xs in it.cases:
                    for x in xs:
                        t = t + c * P(self.key_eq(I, x, v))
                if not t.is_zero():
                    n = n + sum_range(it.k, ZEROP, it.N, t)
            elif isinstance(it, Hist):
                raise Unsupported('count')
            else:
                n = n + P(self.key_eq(I, it, v))
        return num(n, 'int')

    def m_copy(self, I, o):
        if isinstance(o, SDict):
            d = SDict(o.items, o.default)
            d.keycmp = o.keycmp
            return d
        return SList(o.items)

    def m_keys(self, I, d):
        return ExtObj('keys', d=d)

    def m_values(self, I, d):
        return ExtObj('values', d=d)

    def m_items(self, I, d):
        return ExtObj('items', d=d)

    def m_get(self, I, d, k, default=None):
        r = self.dict_find(I, d, k)
        if r is None:
            return default
        if r[0] == 'pair':
            return r[1][1]
        return subst_value(r[1].val, {r[1].k: r[2]})

    def m_setdefault(self, I, d, k, default=None):
        r = self.dict_find(I, d, k)
        if r is None:
            self.dict_set(I, d, k, default)
            return default
        return self.dict_get(I, d, k)

    def m_update(self, I, d, v=None, **kw):
        if v is not None:
            for it in (v.items if isinstance(v, SDict) else self.iter_items(I, v)):
                if isinstance(it, (list, tuple)):
                    self.dict_set(I, d, it[0], it[1])
                else:
                    raise Unsupported('update with a symbolic dict')
        for k, x in kw.items():
            self.dict_set(I, d, k, x)

    def m_move_to_end(self, I, d, k, last=True):
        r = self.dict_find(I, d, k)
        if r is None:
            raise PyRaise(KeyError(str(k)))
        if r[0] != 'pair':
            raise Unsupported('move_to_end')
        rest = [x for x in d.items if x is not r[1]]
        I.set_items(d, rest + [r[1]] if last else [r[1]] + rest)

    # -------------------------------------------------------- libraries
    def call_ext(self, I, name, args, kw):
        return self.ext.call(I, name, args, kw)

    def ext_attr(self, I, e, name):
        return self.ext.ext_attr(I, e, name)

    def instantiate(self, I, cls, args, kw):
        if self.ext.SY.is_symbolic(cls):
            return self.ext.SY.instantiate(I, cls, args, kw)
        return NotImplemented

    def obj_attr(self, I, o, name):
        return NotImplemented

    def class_ext_attr(self, I, cls, name):
        for b in cls.mro:
            if isinstance(b, Ext) and b.name == 'torch.autograd.Function' and name == 'apply':
                f = lambda I, args, kw: self.ext.autograd_apply(I, cls, args, kw)
                f._vp_native = True
                return f
        return NotImplemented

    def set_dict(self, I, o, v):
        if isinstance(v, ExtObj) and v.kind == '__dict__':
            new = v.data['obj'].attrs
        elif isinstance(v, SDict):
            new = {k: x for k, x in v.items}
        else:
            raise Unsupported('__dict__ assignment')
        old = o.attrs
        o.attrs = new

        def undo():
            o.attrs = old
        I.log(undo, ('attr', o, '__dict__'))

    def setattr(self, I, o, name, v):
        return self.ext.setattr(I, o, name, v)


def ceq(d):
    """Indicator that a complex number is zero."""
    return ind_lit('=', f_abs(d))


def ind_not_p(p):
    return ONEP - p


def arr_div(I, pa, pb):
    if pb.is_zero():
        raise Unsupported('array division by zero')
    return pa * pb.inv()


def broadcast_shape(I, A, B):
    for x, y in zip(A.shape, B.shape):
        if x != y and not prove_zero(x - y, I.ctx()):
            raise PyRaise(ValueError('shape mismatch'))


def match_poly(t, target, kv):
    """Poly e with t[kv := e] == target syntactically."""
    if kv not in t.fv:
        return None
    if t == Poly.atom(kv):
        return target
    # linear in kv
    r = solve_linear(t - target, kv)
    if r is not None and kv not in r.fv:
        return r
    if len(t.t) == 1 and len(target.t) == 1:
        (m1, c1), = t.t.items()
        (m2, c2), = target.t.items()
        if c1 == c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1]:
            a, b = m1[0][0], m2[0][0]
            if a.kind == b.kind == 'app' and a.fn == b.fn and len(a.args) == len(b.args):
                for x, y in zip(a.args, b.args):
                    e = match_poly(x, y, kv)
                    if e is not None and t.subst({kv: e}) == target:
                        return e
    return None
