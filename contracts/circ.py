"""A generic circuit: the data invariant of Circuit with every quantity symbolic.

n modes (any number), N nodes, nL inductor places, nJ junction places, nW
junction edges, nl loops, ne computed levels.  Elements, loops and charge
islands are families of objects indexed by an identity; the same element may
sit at several places.  Operators are non-commuting symbols indexed by mode,
junction edge or place.
"""
from engine.verify import *
from engine.terms import INJECTIVE
from engine.values import UFun, UFunInst, Fam, FamObj, Seg, DSeg, SDict, SList, SObj, SQobj, Arr, IXP, IX


# every place has its own row of the flux distribution
INJECTIVE.update(('bL', 'bJ'))
# the edges of a circuit are the keys of a dictionary
INJECTIVE.add(('eE1', 'eE2'))


def I_(name, pos=True):
    return Poly.atom(VAR(name, 'I', pos))


def ap(name, *args, sort='R', pos=False):
    return Poly.atom(APP(name, tuple(args), sort, pos))


n, N, nL, nJ, nW, nl, ne, nE, nC, nI, D = (I_(x) for x in (
    'n', 'N', 'nL', 'nJ', 'nW', 'nl', 'ne', 'nE', 'nC', 'nI', 'D'))
nP = I_('nP')

def _ranges():
    from engine import solve as SV

    def between(fn, lo, hi, extra=None):
        """lo <= fn(..) <= hi, both terms without the argument."""
        def ax(args):
            v = Poly.atom(APP(fn, tuple(args), 'I'))
            return [ind_lit('<=', lo - v), ind_lit('<=', v - hi)] + (extra(args) if extra else [])

        def mv(m, args):
            a, b = int(m.poly(lo)), int(m.poly(hi))
            return a + int(m.h(fn, tuple(args)) * max(b - a + 1, 1))
        SV.AXIOM[fn] = ax
        SV.MODELV[fn] = mv

    for pre in ('eL', 'eJ', 'eE'):
        def differ(args, pre=pre):
            return [ind_lit('!=', Poly.atom(APP(pre + '1', tuple(args), 'I'))
                            - Poly.atom(APP(pre + '2', tuple(args), 'I')))]
        between(pre + '1', ZEROP, N, differ)
        between(pre + '2', ZEROP, N, differ)

        def mv2(m, args, pre=pre):
            a = SV.MODELV[pre + '1'](m, args)
            k = int(m.poly(N))
            return (a + 1 + int(m.h(pre + '2', tuple(args)) * k)) % (k + 1)
        SV.MODELV[pre + '2'] = mv2
    between('bL', ZEROP, nL + nJ - ONEP)
    between('bJ', ZEROP, nL + nJ - ONEP)
    SV.MODELV['bL'] = lambda m, args: args[0]
    SV.MODELV['bJ'] = lambda m, args: int(m.poly(nL)) + args[0]
    between('wJ', ZEROP, nW - ONEP)
    # both kinds of mode occur in the models
    SV.MODELV['omega'] = lambda m, args: 0 if m.h('charge', *args) < .5 else .3 + m.h('om', *args)
    SV.MODELV['wt'] = lambda m, args: (-1, 0, 1, m.h('wt', *args))[int(4 * m.h('wt?', *args))]


_ranges()

BQ = Base('Q', nslots=1, herm=True)
BPHI = Base('phi', nslots=1, herm=True)
BNUM = Base('num', nslots=1, herm=True)
BEXP = Base('exp', nslots=1)
BREXP = Base('rexp', nslots=1)
BCOS = Base('cos', nslots=1, herm=True)
BSIN = Base('sin', nslots=1, herm=True)
BSINH = Base('sinh', nslots=1, herm=True)
BIND = Base('indop', nslots=1, herm=True)
BLC = Base('HLC', herm=True)
BPSI = Base('psi', nslots=1, kind='ket')
BVEC = Base('V', kind='mat')
EM.COLUMNS[BPSI] = BVEC


def Q(i):
    return NC.sym(BQ, i)


def PHI(i):
    return NC.sym(BPHI, i)


def NUM(i):
    return NC.sym(BNUM, i)


def qob(nc, kind='oper'):
    return SQobj(nc, (D, D) if kind == 'oper' else (D, ONEP), kind=kind)


def sc(V, p, leaf=False):
    """A number as the engine stores it in an element."""
    if V.engine == 'pytorch':
        return Arr('torch', (), p, 'float', leaf=leaf)
    return SNum(p, 'float')


def vL(t):
    return ap('vL', t, pos=True)


def vC(t):
    return ap('vC', t, pos=True)


def vP(t):
    return ap('vP', t, pos=True)


def vJ(t):
    return ap('vJ', t, pos=True)


def flux(t):
    return ap('flux', t)


def ng(t):
    return ap('ng', t)


def om(k):
    return ap('omega', k)


def md(k):
    return ap('m', k, sort='I', pos=True)


def w(k):
    return ap('efreq', k)


OLD = ['before the call']


class Circ:
    """Builds the object; attributes are the pieces the specifications use."""
    def __init__(self, V, sameel=True):
        self.V = V
        I = V.I
        el = V.mod('elements').ns
        self.Cap, self.Ind, self.Jun, self.Loop, self.Charge = (
            el[x] for x in ('Capacitor', 'Inductor', 'Junction', 'Loop', 'Charge'))
        k = V.I.fresh

        def val(f):
            return lambda I, o: sc(V, f(o.ident))

        self.caps = Fam('cap', [self.Cap], {
            'internal_value': val(vC), '_value': val(vC),
            'type': lambda I, o: self.Cap,
            'Q': lambda I, o: UFunV('Qc', o.ident, 1)})
        self.inds = Fam('ind', [self.Ind], {
            'internal_value': val(vL), '_value': val(vL),
            'type': lambda I, o: self.Ind,
            'cap': lambda I, o: FamObj(self.caps, ap('capL', o.ident, sort='I')),
            'Q': lambda I, o: UFunV('Ql', o.ident, 2)})
        self.juns = Fam('jun', [self.Jun], {
            'internal_value': val(vJ), '_value': val(vJ),
            'type': lambda I, o: self.Jun,
            'cap': lambda I, o: FamObj(self.caps, ap('capJ', o.ident, sort='I')),
            'A': lambda I, o: SNum(ap('AJ', o.ident), 'float'),
            'Y': lambda I, o: UFunV('Y', o.ident, 2)})
        self.lps = Fam('loop', [self.Loop], {
            'internal_value': val(flux), '_value': val(flux),
            'A': lambda I, o: SNum(ap('AL', o.ident), 'float')})
        self.chs = Fam('charge', [self.Charge], {
            'chValue': lambda I, o: SNum(ng(o.ident), 'float'),
            'A': lambda I, o: SNum(ap('AC', o.ident), 'float')})

        # a parameter is an element or loop of any class
        self.pars = Fam('par', [self.Cap, self.Ind, self.Jun, self.Loop], {
            'internal_value': val(vP), '_value': val(vP)}, lambda t: ap('kindP', t, sort='I'))

    # places
    def edge(self, pre, t):
        """Nodes of a place: two different numbers from 0 to N."""
        return (SNum(ap(pre + '1', t, sort='I'), 'int'), SNum(ap(pre + '2', t, sort='I'), 'int'))

    def loopobj(self, t):
        return FamObj(self.lps, t)

    def indobj(self, t):
        return FamObj(self.inds, t)

    def build(self, current=False, **over):
        V = self.V
        fr = V.I.fresh
        cls = V.mod('circuit').ns['Circuit']
        k = fr('k')
        K = Poly.atom(k)

        def seg(cnt, f):
            return SList([Seg.uniform(cnt, k, f(K))])

        def mat(name, a, b, **kw):
            kind = 'torch' if V.engine == 'pytorch' and name in ('C', 'L') else 'np'
            return Arr(kind, (a, b), NC.sym(Base(name, kind='mat', real=True, **kw)))

        def ent(name, a, b, sym=False):
            i, j = IXP[0], IXP[1]
            return Arr('np', (a, b), ap(name, i, j))

        psi = lambda t: NC.sym(BPSI, t)
        indk = seg(nL, lambda t: (self.edge('eL', t), self.indobj(ap('idL', t, sort='I')),
                                  SNum(ap('bL', t, sort='I'), 'int')))
        junk = seg(nJ, lambda t: (self.edge('eJ', t), FamObj(self.juns, ap('idJ', t, sort='I')),
                                  SNum(ap('bJ', t, sort='I'), 'int'),
                                  SNum(ap('wJ', t, sort='I'), 'int')))
        j2 = fr('j')
        J2 = Poly.atom(j2)
        mem = {
            'Q': seg(n, lambda t: qob(Q(t))),
            'QQ': seg(n, lambda t: SList([Seg.uniform(n - t, j2, qob(Q(t) * Q(t + J2)))])),
            'phi': seg(n, lambda t: qob(PHI(t))),
            'N': seg(n, lambda t: qob(NUM(t))),
            'exp': seg(nW, lambda t: qob(NC.sym(BEXP, t))),
            'root_exp': seg(nW, lambda t: qob(NC.sym(BREXP, t))),
        }

        def place_dict(cnt, fam, idn, bn, base):
            d = SDict([DSeg(cnt, k, ONEP, (FamObj(fam, ap(idn, K, sort='I')),
                                           SNum(ap(bn, K, sort='I'), 'int')),
                            qob(NC.sym(base, K)))])
            return d
        mem['cos'] = place_dict(nJ, self.juns, 'idJ', 'bJ', BCOS)
        mem['sin'] = place_dict(nJ, self.juns, 'idJ', 'bJ', BSIN)
        mem['sin_half'] = place_dict(nJ, self.juns, 'idJ', 'bJ', BSINH)
        mem['ind_hamil'] = place_dict(nL, self.inds, 'idL', 'bL', BIND)
        for x in mem.values():
            x.src = OLD
        lc = qob(NC.sym(BLC))
        lc.src = OLD
        self.mem = mem
        if V.engine == 'pytorch':
            ev = Arr('torch', (ne, D), NC.sym(BVEC).trans(), 'complex',
                     rows=BPSI)
            ef = Arr('torch', (ne,), w(IXP[0]), 'float')
        else:
            ev = seg(ne, lambda t: qob(psi(t), 'ket'))
            ef = Arr('np', (ne,), w(IXP[0]), 'float')
        self.nocaps = Fam('cap0', [self.Cap], {
            'internal_value': val0(V), '_value': val0(V),
            'type': lambda I, o: self.Cap, 'Q': lambda I, o: None})

        def fam_with_cap(fam, capfam):
            at = dict(fam.attrs)
            at['cap'] = lambda I, o: FamObj(capfam, ap('cap' + fam.name, o.ident, sort='I'))
            return Fam(fam.name, fam.classes, at)
        self.kinds = {'c': self.caps, 'c0': self.nocaps, 'l': self.inds,
                      'l0': fam_with_cap(self.inds, self.nocaps), 'j': self.juns,
                      'j0': fam_with_cap(self.juns, self.nocaps)}
        e = fr('e')
        E = Poly.atom(e)
        lst = SList([Seg.uniform(cnt(x, E), k, FamObj(f, ap('at_' + x, E, K, sort='I')))
                     for x, f in self.kinds.items()])
        elements = SDict([DSeg(nE, e, ONEP, self.edge('eE', E), lst)])
        pm = SDict([DSeg(nC, k, ONEP, FamObj(self.caps, K), Arr('np', (N, N), GC(K))),
                    DSeg(nI, k, ONEP, FamObj(self.inds, K), Arr('np', (N, N), GL(K)))])
        attrs = dict(
            elements=elements, partial_mats=pm,
            _parameters=SDict([DSeg(nP, k, ONEP, FamObj(self.pars, K), sc(V, vP(K)))]),
            n=SNum(n, 'int'), m=seg(n, lambda t: SNum(md(t), 'int')), ms=SList([]),
            omega=Arr('np', (n,), om(IXP[0])),
            charge_islands=SDict([DSeg(n, k, ind_lit('=', om(K)), SNum(K, 'int'),
                                       FamObj(self.chs, K))]),
            elem_keys=SDict([[self.Ind, indk], [self.Jun, junk]]),
            loops=seg(nl, lambda t: self.loopobj(t)),
            B=ent('B', nL + nJ, nl),
            C=mat('C', N, N, sym=True), L=mat('L', N, N, sym=True),
            W=ent('W', nW, N), wTrans=ent('wt', nW, n),
            R=mat('R', N, n), S=mat('S', N, n),
            cInvTrans=symmat('cit', n), lTrans=symmat('lt', n),
            _memory_ops=SDict([[a, b] for a, b in mem.items()]),
            _LC_hamil=lc, _efreqs=ef, _evecs=ev,
            flux_dist='junctions', _toggle_fullcopy=True,
        )
        attrs.update(over)
        self.obj = SObj(cls, attrs)
        if current:
            # what is stored belongs to the settings
            for x in ('Q', 'QQ', 'phi', 'N', 'exp', 'root_exp'):
                mem[x].src = settings(V.I, self.obj, x)
            lc.src = LCContract.source(V.I, self.obj)
        return self.obj


def GC(t):
    """Derivative of the capacitance matrix with respect to a capacitor."""
    return NC.sym(Base('GC', nslots=1, kind='mat', real=True, sym=True), t)


def GL(t):
    """Minus the derivative of the inverse inductance matrix with respect to
    an inductor."""
    return NC.sym(Base('GL', nslots=1, kind='mat', real=True, sym=True), t)


def cnt(kind, e):
    """Number of elements of a kind on an edge."""
    return ap('cnt_' + kind, e, sort='I', pos=True)


def val0(V):
    return lambda I, o: sc(V, ap('vC0', o.ident, pos=True))


def symmat(name, sz):
    """A symmetric matrix given by its entries, positive on the diagonal."""
    i, j = IXP[0], IXP[1]
    eq, lt, gt = ind_lit('=', i - j), ind_lit('<', i - j), ind_lit('<', j - i)
    val = eq * dg(name, i) + lt * ap(name, i, j) + gt * ap(name, j, i)
    return Arr('np', (sz, sz), val)


def dg(name, i):
    return ap(name + 'd', i, pos=True)


def UFunV(name, ident, nargs):
    """An unknown positive function belonging to the element."""
    def apply(I, params, args):
        return _fapply(name, params, args)
    return UFunInst(UFun(name, apply), (ident,))


def _fapply(name, params, args):
    v = ap(name, *params, *[P(a) for a in args])
    if any(isinstance(a, Arr) and a.kind == 'torch' for a in args):
        return Arr('torch', (), v, 'float')
    return SNum(v, 'float')


HALF = Poly.const(Fraction(1, 2))


def opn(name, *idx, **kw):
    return NC.sym(Base(name, nslots=len(idx), **kw), *idx)


def a_(m):
    return opn('a', m, real=True)


def chargeop(m):
    return opn('charge', (m - ONEP).scale(Fraction(1, 2)), herm=True, real=True, sym=True)


def Z(i):
    """Impedance of a mode."""
    return (dg('cit', i) * dg('lt', i).inv()).fpow(Fraction(1, 2))


def iso(i, mf=None):
    """charge, flux and number operator of mode i on its own space."""
    m = (mf or md)(i)
    ch = ind_lit('=', om(i))
    one = ind_lit('=', m - ONEP)
    h = (ONEP - ch) * (ONEP - one)
    q = (chargeop(m) - NC.scalar(ng(i))).scale(ch * TWO * e_charge * hbar.fpow(Fraction(-1, 2)))
    q = q + (a_(m) - a_(m).dag()).scale(
        h * Poly.const(0, -1) * (HALF * Z(i).inv()).fpow(Fraction(1, 2)))
    phi = NC.scalar(ch) + (a_(m) + a_(m).dag()).scale(h * (HALF * Z(i)).fpow(Fraction(1, 2)))
    num_ = chargeop(m).scale(ch) + opn('num', m, herm=True, real=True, sym=True).scale(ONEP - ch)
    return q, phi, num_


def embed(f, mf=None):
    """f(j, i) -> factor of mode j in the operator of mode i."""
    mf = mf or md

    def at(i, k):
        m = mf(Poly.atom(k))
        return TensQ([Seg.uniform(n, k, SQobj(f(Poly.atom(k), i), (m, m)))])
    return at


def own(x, j, i):
    return x.scale(ind_lit('=', i - j)) + NC.scalar(ONEP - ind_lit('=', i - j))


def jun_factor(V, i, j, half, mf=None):
    """Factor of mode j in exp(i phase) of junction edge i (or its root)."""
    m = (mf or md)(j)
    ch = ind_lit('=', om(j))
    one = ind_lit('=', m - ONEP)
    wt = ap('wt', i, j)
    if half:
        q = NC.scalar(ch)
    else:
        D = shift(V, m)
        q = NC.scalar(ch * ind_lit('=', wt)) + D.scale(ch * ind_lit('<', wt)) \
            + D.dag().scale(ch * ind_lit('<', -wt))
    al = Poly.const(0, 1) * TWO * PI * Phi0.inv() * (hbar * HALF * Z(j)).fpow(Fraction(1, 2)) * wt
    if half:
        al = al * HALF
    d = EM._qdisplace(V.I, num(m, 'int'), num(al, 'complex')).nc
    return q + NC.scalar((ONEP - ch) * one) + d.scale((ONEP - ch) * (ONEP - one))


def shift(V, m):
    """Lowers the charge by one: entry (a, a+1) is one."""
    a, b = IXP[0], IXP[1]
    e = ind_lit('=', a + ONEP - b) * ind_lit('<=', -a) * ind_lit('<=', b - m + ONEP)
    return to_nc(Arr('np', (m, m), e))


def lc_spec():
    """Charging energy of the charge modes and of all mode pairs, plus
    frequency times level number for harmonic modes."""
    i, j = VAR('%si', 'I'), VAR('%sj', 'I')
    a, b = Poly.atom(i), Poly.atom(j)
    ch = ind_lit('=', om(a))
    one = (Q(a) * Q(a)).scale(HALF * dg('cit', a) * ch) + NUM(a).scale(om(a) * (ONEP - ch))
    pair = (Q(a) * Q(b)).scale(ap('cit', a, b))
    return one.sum(i, ZEROP, n) + pair.sum(j, a + ONEP, n).sum(i, ZEROP, n)


def ext_flux(b, fl=flux):
    i = VAR('%sl', 'I')
    l = Poly.atom(i)
    return sum_range(i, ZEROP, nl, fl(l) * ap('B', b, l))


def S_ent(a, b):
    return NC.sym(Base('S', kind='mat', real=True)).entry(a, b)


def ind_op(n1, n2):
    """Flux difference of the two nodes of an edge; ground is zero."""
    i = VAR('%sm', 'I')
    a = Poly.atom(i)
    g = ONEP - (ONEP - ind_lit('=', n1)) * (ONEP - ind_lit('=', n2))
    c = g * S_ent(n1 + n2 - ONEP, a) + (ONEP - g) * (S_ent(n1 - ONEP, a) - S_ent(n2 - ONEP, a))
    return PHI(a).scale(c).sum(i, ZEROP, n)


def nodes_ok(pre, t):
    a, b = ap(pre + '1', t, sort='I'), ap(pre + '2', t, sort='I')
    return [ind_lit('<=', -a), ind_lit('<=', -b), ind_lit('<=', a - N), ind_lit('<=', b - N),
            ind_lit('!=', a - b)]


def ind_term(t, fl=flux):
    b = ap('bL', t, sort='I')
    c = vL(ap('idL', t, sort='I')).inv() * ext_flux(b, fl) * Phi0 * (TWO * PI).inv() \
        * hbar.fpow(Fraction(-1, 2))
    return ind_op(ap('eL1', t, sort='I'), ap('eL2', t, sort='I')).scale(c)


def expI(p):
    return f_exp(Poly.const(0, 1) * p)


def jcos(t, fl=flux):
    b, wi = ap('bJ', t, sort='I'), ap('wJ', t, sort='I')
    e = NC.sym(BEXP, wi).scale(expI(ext_flux(b, fl)))
    return (e + e.dag()).scale(HALF)


def jun_term(t, fl=flux):
    return jcos(t, fl).scale(-vJ(ap('idJ', t, sort='I')))


def h_spec(fl=flux):
    k = VAR('%sp', 'I')
    K = Poly.atom(k)
    return NC.sym(BLC) + ind_term(K, fl).sum(k, ZEROP, nL) + jun_term(K, fl).sum(k, ZEROP, nJ)


def op_memory_ok(V, mem, mf=None):
    """Every operator of the memory is the one the modes define."""
    def g(x):
        return V.I.models.getitem(V.I, mem, x)

    def length(x):
        return V.call(Builtin('len'), x)
    i = V.int('i')
    V.assume(ind_lit('<=', -i.p), ind_lit('<=', i.p - n + ONEP))
    k = V.I.fresh('k')
    for pos, key in enumerate(('Q', 'phi', 'N')):
        lst = g(key)
        V.eq(f'{key}: one operator per mode', length(lst), n)
        V.eq(f'{key} of mode i', V.I.models.getitem(V.I, lst, i),
             embed(lambda j, i: own(iso(j, mf)[pos], j, i), mf)(i.p, k))
    t = V.int('t')
    V.assume(ind_lit('<=', -t.p), ind_lit('<=', t.p + i.p - n + ONEP))
    row = V.I.models.getitem(V.I, g('QQ'), i)
    V.eq('QQ: one row per mode', length(g('QQ')), n)
    V.eq('QQ: pairs with the modes from i on', length(row), n - i.p)
    V.eq('QQ: product of the two mode operators', V.I.models.getitem(V.I, row, t),
         embed(lambda j, i: own(iso(j, mf)[0], j, i) * own(iso(j, mf)[0], j, i + t.p), mf)(i.p, k))


def exp_memory_ok(V, mem, mf=None):
    i = V.int('e')
    V.assume(ind_lit('<=', -i.p), ind_lit('<=', i.p - nW + ONEP))
    k = V.I.fresh('k')
    for key in ('exp', 'root_exp'):
        lst = V.I.models.getitem(V.I, mem, key)
        V.eq(f'{key}: one operator per junction edge', V.call(Builtin('len'), lst), nW)
        V.eq(f'{key} of edge i', V.I.models.getitem(V.I, lst, i),
             embed(lambda j, i: jun_factor(V, i, j, key == 'root_exp', mf), mf)(i.p, k))


def empty_memory():
    d = SDict([[a, SList([])] for a in ('Q', 'QQ', 'phi', 'N', 'exp', 'root_exp')]
              + [[a, SDict([])] for a in ('cos', 'sin', 'sin_half', 'ind_hamil')])
    for x in d.items:
        x[1].src = OLD
    return d


def getm(V, o, a):
    return V.I.models.getitem(V.I, V.I.getattr(o, '_memory_ops'), a)


class CacheContract:
    """Contract of a function that fills part of the operator memory (the
    content is proved under C07): it assigns exactly the given entries, as a
    function of the settings at the call."""
    def __init__(self, *keys):
        self.keys = keys

    def apply(self, I, f, args, kw):
        o = args[0]
        mem = I.getattr(o, '_memory_ops')
        k = I.fresh('k')
        for x in self.keys:
            src = settings(I, o, x)
            v = SList([Seg.uniform(nW if 'exp' in x else n, k,
                                   qob(NC.sym(Base('new' + x, nslots=1), Poly.atom(k))))])
            v.src = src
            I.models.setitem(I, mem, x, v)
        return None


def settings(I, o, key):
    """What the operators of the memory are a function of; those of the
    junctions (exp and its root) do not contain the gate charges."""
    m = I.getattr(o, 'm')
    out = [('m', tuple(m.items))]
    for a in ('omega', 'cInvTrans', 'lTrans', 'wTrans', 'charge_islands'):
        v = I.getattr(o, a)
        out.append((a, id(v), v.val.key if isinstance(v, Arr) else
                    tuple(map(id, v.items))))
    if 'exp' not in key:
        out.append(('gate charges', tuple((w[0].key, id(w[1])) for w in I.famw.get(
            ('charge', 'chValue'), []))))
    return out


def same_settings(a, b):
    return len(a) == len(b) and all(
        len(x) == len(y) and all(p is q or p == q for p, q in zip(x, y)) for x, y in zip(a, b))


class LCContract:
    """Contract of the quadratic part (proved under C08): the result is a
    function of the pair and number operators, the transformed inverse
    capacitance and the frequencies as they are at the call."""
    def apply(self, I, f, args, kw):
        o = args[0]
        q = qob(NC.sym(BLC))
        q.src = self.source(I, o)
        return q

    @staticmethod
    def source(I, o):
        mem = I.getattr(o, '_memory_ops')
        return [I.models.getitem(I, mem, 'QQ'), I.models.getitem(I, mem, 'N'),
                I.getattr(o, 'cInvTrans'), I.getattr(o, 'omega')]


CACHES = {'circuit.Circuit._get_LC_hamil': LCContract(),
          'circuit.Circuit._build_op_memory': CacheContract('Q', 'QQ', 'phi', 'N'),
          'circuit.Circuit._build_exp_ops': CacheContract('exp', 'root_exp')}


def caches_current(V, o, exps=True):
    """Everything stored was computed from what is set now."""
    for key in ('Q', 'QQ', 'phi', 'N') + (('exp', 'root_exp') if exps else ()):
        V.true(f'stored operators {key} belong to the current settings',
               same_settings(source_of(getm(V, o, key)), settings(V.I, o, key)))
    src = source_of(V.attr(o, '_LC_hamil'))
    cur = LCContract.source(V.I, o)
    V.true('stored quadratic part belongs to the current operators',
           len(src) == len(cur) and all(a is b for a, b in zip(src, cur)))


def source_of(v):
    src = getattr(v, 'src', None)
    if isinstance(v, SList) and not v.items:
        return []
    if src is None:
        raise Unsupported('stored operator not computed by the functions under contract')
    return src


class SafeCopy:
    """safecopy (C16): a copy with the same observable state."""
    def apply(self, I, f, args, kw):
        o = args[0]
        keep = kw.get('save_eigs', args[1] if len(args) > 1 else False)
        c = SObj(o.cls, dict(o.attrs))
        if keep is not True:
            c.attrs['_efreqs'], c.attrs['_evecs'] = SList([]), SList([])
        return c


class Frame:
    """Everything reachable from the given values and the settings; `check`
    records that all of it is as it was."""
    def __init__(self, V, *roots):
        self.V = V
        self.roots = [(f'argument {i}' if i else 'circuit', r) for i, r in enumerate(roots)]
        for mod, names in (('units', None), ('settings', None), ('noise', None)):
            ns = V.mod(mod).ns
            for k, v in ns.items():
                if not k.startswith('__') and not isinstance(v, (SFunc, SClass, Builtin, Ext, UFun)):
                    self.roots.append((f'{mod}.{k}', None))
        self.before = self.state()

    def state(self):
        out, seen = {}, {}

        def walk(path, v):
            if isinstance(v, SObj):
                out[path] = v
                if id(v) not in seen:
                    seen[id(v)] = v
                    for k, x in v.attrs.items():
                        walk(f'{path}.{k}', x)
            elif isinstance(v, (SList, SDict)):
                out[path] = type(v).__name__
                if id(v) not in seen:
                    seen[id(v)] = v
                    out[path + ' size'] = len(v.items)
                    for i, x in enumerate(v.items):
                        if isinstance(x, (list, tuple)):
                            for j, y in enumerate(x):
                                walk(f'{path}[{i}][{j}]', y)
                        else:
                            walk(f'{path}[{i}]', x)
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    walk(f'{path}[{i}]', x)
            elif isinstance(v, Arr):
                out[path] = ('array', v.val.key, tuple(x.key for x in v.shape))
            elif isinstance(v, SNum):
                out[path] = ('number', v.p.key)
            elif isinstance(v, SQobj):
                out[path] = ('operator', v.nc.key)
            else:
                out[path] = v
        for path, r in self.roots:
            if r is None:
                mod, k = path.split('.')
                r = self.V.mod(mod).ns.get(k)
            walk(path, r)
        for k, ws in self.V.I.famw.items():
            for i, w_ in enumerate(ws):
                walk(f'{k}[{i}] {w_[0].key}', w_[1])
        return out

    def check(self, label='everything is as before', but=()):
        now = self.state()
        skip = tuple(f'circuit.{x}' for x in but)
        bad = [p for p in self.before if p not in now or not _same(now[p], self.before[p])]
        bad = [p for p in bad if not (skip and p.split('[')[0].startswith(skip))]
        bad += [p for p in now if p not in self.before and p.startswith('(')]
        self.V.r.record(f'{self.V.name}: {label}', 'refuted' if bad else 'proved',
                        'changed: ' + ', '.join(bad[:6]) if bad else '')


def _same(a, b):
    if a is b:
        return True
    return type(a) is type(b) and isinstance(a, (str, int, float, bool, tuple)) and a == b
