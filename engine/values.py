"""Run-time values of the symbolic interpreter."""
import itertools
from .terms import *
from .nc import NC, Base, Letter, SLOT, SLOTP

_oid = itertools.count(1)
IX = [VAR(f'$i{j}', 'I') for j in range(6)]
IXP = [Poly.atom(v) for v in IX]


def new_oid():
    return next(_oid)


class SNum:
    """Scalar: kind is 'int', 'float' or 'complex'."""
    __slots__ = ('p', 'kind')

    def __init__(self, p, kind):
        self.p, self.kind = p, kind

    def __repr__(self):
        return f'<{self.kind} {self.p.key[:200]}>'


def num(p, kind='float'):
    if kind == 'int':
        i = p.as_int()
        if i is not None:
            return i
    return SNum(p, kind)


class SBool:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f'<bool {self.p.key[:200]}>'


def mkbool(p):
    if p.is_zero():
        return False
    if p == ONEP:
        return True
    return SBool(p)


class SStr:
    """Text whose characters are not tracked."""
    def __init__(self, parts=()):
        self.parts = parts

    def __repr__(self):
        return '<text>'


class Seg:
    """k = 0..N-1, each contributing the items of the case that holds.  An item
    that is itself a segment contributes its items in turn (`nest`)."""
    __slots__ = ('N', 'k', 'nest', 'nested')

    def __init__(self, N, k, cases):
        self.N, self.k, self.nest = N, k, cases
        self.nested = any(isinstance(x, Seg) for _, xs in cases for x in xs)

    @property
    def cases(self):
        if self.nested:
            raise Unsupported('nested sequence')
        return self.nest

    @staticmethod
    def uniform(N, k, item):
        return Seg(N, k, [(ONEP, [item])])

    def is_uniform(self):
        return not self.nested and len(self.nest) == 1 and len(self.nest[0][1]) == 1 \
            and self.nest[0][0] == ONEP

    def item(self, i):
        return subst_value(self.cases[0][1][0], {self.k: i})

    def __repr__(self):
        return f'Seg({self.N.key}, {self.k.key}, {self.nest})'


class SList:
    def __init__(self, items, frozen=False):
        self.items = list(items)
        self.oid = new_oid()
        self.frozen = frozen

    def __repr__(self):
        return f'SList({self.items})'


class DSeg:
    """Entries key(k) -> value(k) for k = 0..N-1 where cond(k)."""
    __slots__ = ('N', 'k', 'cond', 'key', 'val')

    def __init__(self, N, k, cond, key, val):
        self.N, self.k, self.cond, self.key, self.val = N, k, cond, key, val


class SDict:
    """Insertion-ordered map. items: list of [key, value] pairs and DSeg."""
    def __init__(self, items=(), default=None):
        self.items = list(items)
        self.default = default
        self.oid = new_oid()
        self.keycmp = None

    def __repr__(self):
        return f'SDict({self.items})'


class Hist:
    """Unknown content of a list or dict collected by earlier iterations."""
    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return '<history>'


class FunDict:
    """Total map from objects to values with default 0: the value for the
    object with identity x is ent, an NC / Poly in the variable IX[0]."""
    def __init__(self, val):
        self.val = val
        self.oid = new_oid()
        self.shape = None           # of the arrays, whose indices are IX[1], IX[2]


class SObj:
    def __init__(self, cls, attrs=None, label=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.oid = new_oid()
        self.label = label

    def __repr__(self):
        return f'<{self.cls.name} object {self.label or self.oid}>'


class Fam:
    """A family of objects indexed by an identity term."""
    def __init__(self, name, classes, attrs, tagfn=None):
        self.name = name
        self.classes = classes      # list of SClass, tag value = position
        self.attrs = attrs          # name -> f(I, obj)
        self.tagfn = tagfn          # ident -> Poly with the class tag


class FamObj:
    __slots__ = ('fam', 'ident')

    def __init__(self, fam, ident):
        self.fam, self.ident = fam, ident

    def __repr__(self):
        return f'<{self.fam.name} {self.ident.key}>'


class SQobj:
    """qutip.Qobj: nc is its matrix. zero_if: condition under which the value
    is the plain number 0 instead (an empty sum)."""
    def __init__(self, nc, shape=None, kind='oper', fmt='csr', dims=None, zero_if=ZEROP):
        self.nc, self.shape, self.kind, self.fmt, self.dims = nc, shape, kind, fmt, dims
        self.zero_if = zero_if

    def __repr__(self):
        return f'<Qobj {self.nc.key[:200]}>'


class TensQ:
    """qutip.tensor(x_0, ..., x_{n-1}) kept as the list of its factors."""
    def __init__(self, items, coeff=ONEP, dag=False):
        self.items = items
        self.coeff = coeff

    def __repr__(self):
        return f'<tensor {self.items}>'


class Store:
    __slots__ = ('val', 'oid')

    def __init__(self, val):
        self.val = val
        self.oid = new_oid()


class Arr:
    """ndarray or Tensor. The content is an entry polynomial in IX[0..ndim-1]
    or an NC matrix (column vector for ndim 1)."""
    def __init__(self, kind, shape, val, dtype='float', store=None, view=None, **meta):
        self.kind = kind
        self.shape = tuple(shape)
        self.dtype = dtype
        self.view = view            # (parent Arr, read fn, write fn or None)
        self.store = store if store is not None else (None if view else Store(val))
        self.meta = meta
        self.oid = new_oid()
        self.frozen = False

    @property
    def val(self):
        if self.view is not None:
            return self.view[1](self.view[0].val)
        return self.store.val

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f'<{self.kind} array {[s.key for s in self.shape]} {str(self.val)[:300]}>'


class Ext:
    """A name of a library outside the repository."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


class ExtObj:
    """Opaque value of a library type."""
    def __init__(self, kind, **data):
        self.kind = kind
        self.data = data
        self.oid = new_oid()


class Poison:
    """Value of a location that has no defined value here."""
    def __init__(self, why, loc=None, at=None):
        self.why, self.loc = why, loc
        self.at = at                # gives the value when it is asked for


class SMod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns = {}
        self.oid = new_oid()

    def __repr__(self):
        return f'<module {self.name}>'


class SClass:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        self.oid = new_oid()
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro if isinstance(b, SClass) else [b]):
                if c not in out:
                    out.append(c)
        return out

    def __repr__(self):
        return f'<class {self.name}>'


class SFunc:
    def __init__(self, node, mod, env, qual, defaults, kwdefaults, cls=None):
        self.node, self.mod, self.env, self.qual = node, mod, env, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls
        self.oid = new_oid()

    def __repr__(self):
        return f'<function {self.qual}>'


class SBound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f'<bound {self.func}>'


class SProp:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class SStatic:
    def __init__(self, f):
        self.f = f


class SClassM:
    def __init__(self, f):
        self.f = f


class BMeth:
    """Method of a built-in container or model value."""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f'<method {self.name} of {self.obj}>'


class UFun:
    """A caller-supplied function of which nothing is known."""
    def __init__(self, name, apply):
        self.name, self.apply = name, apply


def subst_value(v, mp):
    if v is None or isinstance(v, (int, str, bool, float, SClass, SFunc, Ext, SMod, UFun)):
        return v
    if isinstance(v, SStr):
        if not value_fv(v) & mp.keys():
            return v
        return SStr(tuple(subst_items(v.parts, mp)))
    if isinstance(v, SNum):
        return num(v.p.subst(mp), v.kind)
    if isinstance(v, SBool):
        return mkbool(v.p.subst(mp))
    if isinstance(v, tuple):
        return tuple(subst_value(x, mp) for x in v)
    if isinstance(v, slice):
        return slice(*[subst_value(x, mp) for x in (v.start, v.stop, v.step)])
    if isinstance(v, FamObj):
        return FamObj(v.fam, v.ident.subst(mp))
    if isinstance(v, SQobj):
        return SQobj(v.nc.subst(mp),
                     None if v.shape is None else tuple(s.subst(mp) for s in v.shape),
                     v.kind, v.fmt, v.dims, v.zero_if.subst(mp))
    if isinstance(v, TensQ):
        return TensQ(subst_items(v.items, mp), v.coeff.subst(mp))
    if isinstance(v, Seg):
        return subst_items([v], mp)[0]
    if isinstance(v, SList):
        if not value_fv(v) & mp.keys():
            return v
        r = SList(subst_items(v.items, mp), frozen=True)
        if getattr(v, 'is_tuple', False):
            r.is_tuple = True
        return r
    if isinstance(v, Arr):
        if not value_fv(v) & mp.keys():
            return v
        a = Arr(v.kind, [s.subst(mp) for s in v.shape], v.val.subst(mp), v.dtype, **v.meta)
        a.frozen = True
        return a
    if isinstance(v, UFunInst):
        return UFunInst(v.ufun, tuple(p.subst(mp) for p in v.params))
    if isinstance(v, SBound):
        return SBound(v.func, subst_value(v.self_, mp))
    if isinstance(v, SObj):
        if not any(value_fv(x) & mp.keys() for x in v.attrs.values()):
            return v
        raise Unsupported('substitution into an object')
    if isinstance(v, Poison):
        return v
    if isinstance(v, ExtObj):
        if not value_fv(v) & mp.keys():
            return v
        if v.kind == 'range':
            return ExtObj('range', lo=v.data['lo'].subst(mp), hi=v.data['hi'].subst(mp),
                          step=v.data['step'])
        if v.kind == 'eq':
            return ExtObj('eq', lhs=subst_value(v.data['lhs'], mp), rhs=subst_value(v.data['rhs'], mp))
        raise Unsupported(f'substitution into {v.kind}')
    if isinstance(v, Hist):
        return v
    raise Unsupported(f'substitution into {type(v).__name__}')


class UFunInst:
    """Function value belonging to a family member, e.g. the Q of element x."""
    def __init__(self, ufun, params):
        self.ufun, self.params = ufun, params


def subst_items(items, mp):
    out = []
    for it in items:
        if isinstance(it, Seg):
            m = {k: p for k, p in mp.items() if k is not it.k}
            if any(it.k in p.fv for p in m.values()):
                nk = VAR(f'%f{new_oid()}', 'I')
                cases = [(c.subst({it.k: Poly.atom(nk)}),
                          [subst_value(x, {it.k: Poly.atom(nk)}) for x in xs])
                         for c, xs in it.nest]
                it = Seg(it.N, nk, cases)
            out.append(Seg(it.N.subst(m), it.k,
                           [(c.subst(m), [subst_value(x, m) for x in xs]) for c, xs in it.nest]))
        else:
            out.append(subst_value(it, mp))
    return out


def value_fv(v, seen=None):
    seen = seen or set()
    if isinstance(v, (SNum, SBool)):
        return v.p.fv
    if isinstance(v, tuple):
        return frozenset().union(*[value_fv(x, seen) for x in v]) if v else frozenset()
    if isinstance(v, FamObj):
        return v.ident.fv
    if isinstance(v, SQobj):
        return v.nc.fv | v.zero_if.fv | (frozenset().union(*[s.fv for s in v.shape])
                                         if v.shape else frozenset())
    if isinstance(v, SStr):
        return value_fv(tuple(v.parts), seen)
    if isinstance(v, (SList, TensQ)):
        s = frozenset()
        for it in v.items:
            s = s | value_fv(it, seen)
        return s
    if isinstance(v, Seg):
        t = v.N.fv
        for c, xs in v.nest:
            t = t | c.fv
            for x in xs:
                t = t | value_fv(x, seen)
        return t - {v.k}
    if isinstance(v, Arr):
        s = frozenset(x for x in v.val.fv if x not in IX)
        for d in v.shape:
            s = s | d.fv
        return s
    if isinstance(v, UFunInst):
        return frozenset().union(*[p.fv for p in v.params])
    if isinstance(v, SBound):
        return value_fv(v.self_, seen)
    if isinstance(v, ExtObj):
        s = frozenset()
        for x in v.data.values():
            for y in x if isinstance(x, (list, tuple)) else (x,):
                s = s | (y.fv if isinstance(y, Poly) else value_fv(y, seen))
        return s
    if isinstance(v, SObj):
        if v.oid in seen:
            return frozenset()
        seen.add(v.oid)
        s = frozenset()
        for x in v.attrs.values():
            s = s | value_fv(x, seen)
        return s
    return frozenset()
