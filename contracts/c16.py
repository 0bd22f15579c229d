"""C16: copies of a circuit are faithful and independent."""
from .circ import *
from .c09 import updates
from engine.values import TensQ

EXEMPT = ('descrip_vars',)
EIGS = ('_efreqs', '_evecs')


class Twin:
    """Compares a copy with its original: same content, same sharing, nothing
    changeable in common, no gradient."""
    def __init__(self, V):
        self.V = V
        self.pair = {}              # original -> copy
        self.back = {}
        self.old, self.new = {}, {}  # changeable things reached on either side
        self.bad = []
        self.eqs = []
        self.linked = []

    def fail(self, path, what):
        self.bad.append(f'{path}: {what}')

    def both(self, path, a, b):
        """a and b correspond; False if already compared."""
        self.old[id(a)] = (path, a)
        self.new[id(b)] = (path, b)
        if id(a) in self.pair:
            if self.pair[id(a)] is not b:
                self.fail(path, 'sharing')
            return False
        if id(b) in self.back:
            self.fail(path, 'sharing')
            return False
        self.pair[id(a)], self.back[id(b)] = b, a
        return True

    def items(self, path, xs, ys):
        if len(xs) != len(ys):
            return self.fail(path, f'{len(xs)} and {len(ys)} items')
        for i, (x, y) in enumerate(zip(xs, ys)):
            p = f'{path}[{i}]'
            if isinstance(x, Seg) != isinstance(y, Seg) or isinstance(x, DSeg) != isinstance(y, DSeg):
                self.fail(p, 'form')
            elif isinstance(x, Seg):
                k = Poly.atom(self.V.I.fresh('k'))
                sx, sy = {x.k: k}, {y.k: k}
                self.eqs.append((p, x.N - y.N))
                if len(x.nest) != len(y.nest):
                    self.fail(p, 'cases')
                    continue
                for (c, i1), (d, i2) in zip(x.nest, y.nest):
                    self.eqs.append((p, c.subst(sx) - d.subst(sy)))
                    # the items are looked at for a generic position
                    self.items(p, [subst_value(v, sx) for v in i1], [subst_value(v, sy) for v in i2])
            elif isinstance(x, DSeg):
                k = Poly.atom(self.V.I.fresh('k'))
                sx, sy = {x.k: k}, {y.k: k}
                self.eqs.append((p, x.N - y.N))
                self.eqs.append((p, x.cond.subst(sx) - y.cond.subst(sy)))
                self.walk(p + ' key', subst_value(x.key, sx), subst_value(y.key, sy))
                self.walk(p, subst_value(x.val, sx), subst_value(y.val, sy))
            elif isinstance(x, list):
                self.items(p, x, y)
            else:
                self.walk(p, x, y)

    def walk(self, path, a, b):
        I = self.V.I
        if isinstance(a, FamObj) and isinstance(b, FamObj):
            self.eqs.append((path, a.ident - b.ident))
            if self.both(path, a.fam, b.fam):
                t = Poly.atom(I.fresh('t'))
                for x in a.fam.attrs:
                    self.walk(f'{path}.{x}', I.getattr(FamObj(a.fam, t), x), I.getattr(FamObj(b.fam, t), x))
            return
        if isinstance(a, (SNum, SBool, int, float, str, bool)) or a is None:
            d = self.V.diff(a, b) if type(a) is type(b) or isnum(a) and isnum(b) else False
            return self.leaf(path, d)
        if type(a) is not type(b):
            return self.fail(path, f'{type(a).__name__} became {type(b).__name__}')
        if isinstance(a, SObj):
            if a.cls is not b.cls:
                return self.fail(path, 'class')
            if self.both(path, a, b):
                for x in list(a.attrs) + [y for y in b.attrs if y not in a.attrs]:
                    if x in EXEMPT or isinstance(a.attrs.get(x), Skipped):
                        continue
                    if x not in a.attrs or x not in b.attrs:
                        self.fail(f'{path}.{x}', 'missing')
                    else:
                        self.walk(f'{path}.{x}', a.attrs[x], b.attrs[x])
        elif isinstance(a, (SList, SDict)):
            if self.both(path, a, b):
                self.items(path, a.items, b.items)
        elif isinstance(a, tuple):
            self.items(path, list(a), list(b))
        elif isinstance(a, Arr):
            ra, rb = root(a), root(b)
            self.old[id(ra)], self.new[id(rb)] = (path, ra), (path, rb)
            if a.kind != b.kind:
                self.fail(path, 'kind of array')
            if b.kind == 'torch' and b.meta.get('grad') and not b.meta.get('leaf', False):
                self.linked.append(path)
            self.leaf(path, self.V.diff(a, b))
        elif isinstance(a, (SQobj, TensQ)):
            self.leaf(path, self.V.diff(a, b))
        elif a is not b and not (isinstance(a, UFunInst) and a.ufun.name == b.ufun.name and all(
                x == y for x, y in zip(a.params, b.params))):
            self.fail(path, f'another {type(a).__name__}')

    def leaf(self, path, d):
        if d is False:
            self.fail(path, 'value')
        elif d is not True:
            self.eqs += [(path, x) for x in d]

    def record(self, tag, a, b):
        V = self.V
        self.walk('circuit', a, b)
        V.r.record(f'{V.name}: {tag}same structure and sharing', 'refuted' if self.bad else 'proved',
                   '; '.join(self.bad[:5]))
        for path, p in self.eqs:
            V.zero(f'{tag}same values', p)
        common = [self.old[x][0] for x in self.old if x in self.new]
        V.r.record(f'{V.name}: {tag}nothing in common', 'refuted' if common else 'proved',
                   '; '.join(common[:5]))
        V.r.record(f'{V.name}: {tag}no link to a gradient graph', 'refuted' if self.linked else 'proved',
                   '; '.join(self.linked[:5]))


class Skipped:
    """Attribute the comparison leaves out."""


def root(a):
    while a.view is not None:
        a = a.view[0]
    return a.store


def state(o, skip=()):
    """Shell with the attributes of o as they are now."""
    return SObj(o.cls, {k: (Skipped() if k in skip else v) for k, v in o.attrs.items()})


def no_eigs(V, o):
    for f, x in (('levels', 'efreqs'), ('states', 'evecs')):
        v = o.attrs.get('_' + x)
        V.true(f'no {f}', v is not None and V.I.models.length(V.I, v).is_zero())


def learn(a):
    """As a value computed from others that need gradients."""
    a.meta.update(grad=True, leaf=False)
    return a


def network(V, c, which):
    """A circuit with a given arrangement of elements; values and flags symbolic."""
    def el(cls, name, grad, **kw):
        x = V.call(V.get('elements', cls), V.real(name + ' given', True),
                   *([] if cls == 'Loop' else ['fF' if cls == 'Capacitor' else 'GHz']), **kw)
        v = Arr('torch', (), ap(name), 'float')
        if grad:
            v.meta.update(grad=True, leaf=grad == 'leaf')
        x.attrs['_value'] = v
        return x
    l1, l2 = el('Loop', 'l1', 'leaf'), el('Loop', 'l2', None)
    c1, c2, c3 = el('Capacitor', 'c1', 'leaf'), el('Capacitor', 'c2', None), el('Capacitor', 'c3', 'computed')
    if which == 'two loops':
        j1 = el('Junction', 'j1', 'leaf', loops=SList([l1]), cap=c1)
        j2 = el('Junction', 'j2', None, loops=SList([l2]))
        i1 = el('Inductor', 'i1', 'computed', loops=SList([l1, l2]), cap=c2)
        edges = [((0, 1), [j1, c3]), ((1, 2), [i1]), ((0, 2), [j2])]
        loops, pars = [l1, l2], [j1, c1, c3, i1, l1]
    elif which == 'shared elements':
        j1 = el('Junction', 'j1', 'computed', loops=SList([l1]), cap=c1)
        i1 = el('Inductor', 'i1', 'leaf', loops=SList([l1]), cap=c1)
        edges = [((0, 1), [j1, j1, c3]), ((1, 2), [j1]), ((0, 2), [i1, c3, c1])]
        loops, pars = [l1], [j1, c1, c3, i1, l1]
    else:
        j1 = el('Junction', 'j1', None, cap=c2)
        edges = [((0, 1), [c2, j1]), ((1, 2), [c2])]
        loops, pars = [], []
    o = c.build()
    els = [x for _, xs in edges for x in xs]
    ind, jun = [], []
    b = 0
    for w_, (e, xs) in enumerate(edges):
        for x in xs:
            if x.cls.name == 'Inductor':
                ind.append((e, x, b))
            elif x.cls.name == 'Junction':
                jun.append((e, x, b, w_))
            if x.cls.name != 'Capacitor':
                b += 1
    attrs = o.attrs
    attrs['elements'] = SDict([[e, SList(xs)] for e, xs in edges])
    attrs['loops'] = SList(loops)
    attrs['_parameters'] = SDict([[x, x.attrs['_value']] for x in pars])
    attrs['elem_keys'] = SDict([[c.Ind, SList(ind)], [c.Jun, SList(jun)]])
    seen = []
    for x in els + [x.attrs['cap'] for x in els if 'cap' in x.attrs]:
        if x.cls.name in ('Capacitor', 'Inductor') and not any(x is y for y in seen):
            seen.append(x)
    attrs['partial_mats'] = SDict([[x, Arr('np', (N, N), ap(f'G{i}', IXP[0], IXP[1]))]
                                   for i, x in enumerate(seen)])
    mem = attrs['_memory_ops']
    for key, rows in (('cos', jun), ('sin', jun), ('sin_half', jun), ('ind_hamil', ind)):
        d = SDict([[(r[1], r[2]), qob(NC.sym(Base(f'{key} {r[2]}')))] for r in rows])
        mem.items = [[k, d if k == key else v] for k, v in mem.items]
    for x in ('C', 'L', '_efreqs', '_evecs'):
        attrs[x] = learn(attrs[x])
    return o


def contracts(R):
    for keep in (False, True):
        def generic(V, keep=keep):
            c = Circ(V)

            def run():
                o = c.build()
                fr = Frame(V, o)
                r = V.meth(o, 'safecopy', **({'save_eigs': True} if keep else {}))
                return o, r, fr

            def post(V, r):
                o, cp, fr = r
                fr.check('the original is as before')
                Twin(V).record('', state(o, () if keep else EIGS), cp)
                if not keep:
                    no_eigs(V, cp)
                V.eq('Hamiltonian of the copy', V.meth(cp, 'hamiltonian'), qob(h_spec()))
            V.explore(run, post)
        R.case(f'safecopy{" with eigensystem" if keep else ""} [numpy]', ['circuit.Circuit.safecopy'], generic)

    for eng in ('numpy', 'pytorch'):
        updates(R, eng, ('restored',))

        for light in (True, False):
            def pickled(V, light=light):
                c = Circ(V)

                def run():
                    o = c.build()
                    fr = Frame(V, o)
                    src = V.meth(o, 'picklecopy') if light else o
                    V.true('another circuit', src is not o or not light)
                    # writing to and reading from a file takes the state over
                    return o, EM.deepcopy(V.I, src, {}), fr

                def post(V, r):
                    o, back, fr = r
                    fr.check('the original is as before')
                    tw = Twin(V)
                    tw.record('', state(o, ('_memory_ops', '_LC_hamil') if light else ()), back)
                    if light:
                        V.true('large operators are left out', not any(
                            x in back.attrs for x in ('_memory_ops', '_LC_hamil')))
                    again = EM.deepcopy(V.I, back, {})
                    V.true('the restored circuit is saved in full', set(again.attrs) == set(back.attrs))
                    if not light:
                        V.eq('Hamiltonian', V.meth(back, 'hamiltonian'), qob(h_spec()))
                V.explore(run, post)
            R.case(f'{"picklecopy" if light else "full copy"} to a file and back [{eng}]',
                   ['circuit.Circuit.picklecopy', 'circuit.Circuit.__getstate__',
                    'circuit.Circuit.__setstate__'], pickled, engine=eng)

    for which in ('two loops', 'shared elements', 'no loop'):
        for keep in (False, True):
            def tensors(V, which=which, keep=keep):
                c = Circ(V)

                def run():
                    o = network(V, c, which)
                    fr = Frame(V, o)
                    return o, V.meth(o, 'safecopy', **({'save_eigs': True} if keep else {})), fr

                def post(V, r):
                    o, cp, fr = r
                    fr.check('the original is as before')
                    Twin(V).record('', state(o, () if keep else EIGS), cp)
                    if not keep:
                        no_eigs(V, cp)
                V.explore(run, post)
            R.case(f'safecopy of {which}{" with eigensystem" if keep else ""} [pytorch]',
                   ['circuit.Circuit.safecopy'], tensors, engine='pytorch',
                   bounded='three arrangements of up to six elements, any values')
