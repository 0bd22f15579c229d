"""C05: the change of coordinates is canonical and keeps the energy."""
import numpy as np

from .circ import *
from .c09 import Network, Transform, Remove
from .columns import columns, gram_schmidt
from engine.nc import normal_form, diag_base, WORDS
from engine.models import to_nc, entries
from engine.extmodels import selector
from engine import solve as SV
from engine.solve import replace_atom, AXIOM, MODELV

i, j = I_('i', False), I_('j', False)


def base(name, **kw):
    return NC.sym(Base(name, kind='mat', real=True, **kw))


SM, RM, CI, LT, WT = (base('coord ' + x, sym=x in ('ci', 'lt')) for x in ('S', 'R', 'ci', 'lt', 'wt'))
C0, L0, W0 = base('cap', sym=True), base('susc', sym=True), base('jun')
T1, T2 = base('step s'), base('step r')


DC = NC.sym(diag_base(ap('cinv', IXP[0])))
DL = NC.sym(diag_base(ap('linv', IXP[0])))


def arr(nc, x=n, y=n, kind='np'):
    return Arr(kind, (x, y), nc, 'float')


def shape(V, tag, got, *want):
    V.true(f'{tag}: axes', got.ndim == len(want))
    for x, y in zip(got.shape, want):
        V.zero(f'{tag}: shape', x - y)


def same(V, tag, got, want):
    """Matrices agree."""
    V.zero(tag, normal_form(to_nc(got)) - normal_form(want))


def inside(x, cnt=n):
    return [ind_lit('<=', -x), ind_lit('<', x - cnt)]


def plain(p):
    """Entries with the equations between matrices applied."""
    for x in list(p.atoms()):
        if x.kind == 'app' and x.fn.startswith('entry:') and x.fn in WORDS:
            w_ = WORDS[x.fn]
            q = normal_form(NC({w_: ONEP}))
            if q != NC({w_: ONEP}):
                return plain(replace_atom(p, x, q.entry(*x.args)))
    return p


# rank of the susceptance matrix; singular values and eigenvalues in descending
# order, those beyond the rank vanish, the others are not small
rk = I_('rank', False)
SV_D = f'svd[{(NC.sym(Base("sqrtm{<susc>:1}", kind="mat", real=True, sym=True)) * NC.sym(Base("sqrtm{<cap>:1}", kind="mat", real=True, sym=True)).inv()).key}]'
EIG = f'eig[{L0.key}]'


def _rank():
    def vanish(fn):
        def ax(args):
            v, k = ap(fn, *args), args[0]
            out = ind_lit('<=', rk - k)
            return [ind_lit('<=', -v), ONEP - out + out * ind_lit('=', v), out + (ONEP - out) * ind_lit('<', -v),
                    ind_lit('<=', rk - n), ind_lit('<=', -rk)]

        def mv(m, args):
            return 0 if int(args[0]) >= int(m.poly(rk)) else 1 / (1 + int(args[0]))
        SV.AXIOM[fn], SV.MODELV[fn] = ax, mv

    def spectrum(fn, f):
        vanish(fn)

        def mv(m, args):
            d = f(m)
            return 0 if not 0 <= int(args[0]) < len(d) else d[int(args[0])]
        SV.MODELV[fn] = mv
    root_l, root_c = (NC.sym(EM.root_base(x)) for x in (L0, C0))
    spectrum(SV_D, lambda m: [x if x > 1e-6 else 0 for x in np.linalg.svd(
        m.nc(root_l * root_c.inv()))[1]])
    spectrum(EIG, lambda m: [x if x > 1e-6 else 0 for x in np.linalg.eigvalsh(m.nc(L0).real)[::-1]])
    # matrices of the models
    for x in (n, nW, N):
        SV.FIXED[next(iter(x.atoms())).key] = SV.DIM

    def psd(m, rank, tag):
        a = np.array([[m.h(tag, p, q) - .5 for q in range(rank)] for p in range(SV.DIM)])
        return (a @ a.T).astype(complex)
    bases = {x: next(iter(next(iter(y.t))[0:1])).base for x, y in (('cap', C0), ('susc', L0), ('wt', WT))}
    bases['wt'].ev = lambda m, args: np.array([[0 if m.h('touched', q) < .4 else m.h('wt', p, q) - .5
                                                for q in range(SV.DIM)] for p in range(SV.DIM)], complex)
    bases['cap'].ev = lambda m, args: psd(m, SV.DIM, 'cap') + np.eye(SV.DIM)
    bases['susc'].ev = lambda m, args: psd(m, min(int(m.poly(rk)), SV.DIM), 'susc')
    vanish('linv')
    vanish('freq')


_rank()


def rank_facts(V):
    k = fresh_bound()
    K = Poly.atom(k)
    # for any threshold
    acc = num(Poly.atom(VAR('threshold', 'R', True)), 'float')
    V.I.models.dict_set(V.I, V.get('settings', 'ACC'), 'sing_mode_detect', acc)
    SV.FIXED[next(iter(P(acc).atoms())).key] = 1e-4
    top = P(EM.greatest(V.I, Arr('np', (n,), ap(EIG, IXP[0]), 'float'), 'max'))
    small = ind_lit('<', ap(EIG, K) * top.inv() - P(acc))
    return [ind_lit('<=', -rk), ind_lit('<=', rk - n), ind_lit('=', rk)
            + ind_lit('!=', rk) * ind_lit('=', sum_range(k, ZEROP, n, small) - n + rk)]


def om(x):
    return ap('freq', x)


def om_arr():
    return Arr('np', (n,), om(IXP[0]), 'float')


def accuracy(V, name):
    return P(V.I.models.dict_get(V.I, V.get('settings', 'ACC'), name))


def rounded(V, x, om, free):
    """x, rounded for charge modes."""
    acc = accuracy(V, 'Gram-Schmidt')
    ch, some = ind_lit('=', om), ind_lit('!=', free)
    out = (ONEP - ch) * x + ch * some * x
    for t in (ZEROP, ONEP, -ONEP):
        near = ind_lit('<', f_abs(x - t) - acc)
        out = out + ch * some * near * (t - x)
    return out


class Rounded:
    """Contract of the rounding: a new matrix, a function of the argument."""
    def apply(self, I, f, args, kw):
        x = args[1] if len(args) > 1 else kw['w_mat']
        return Arr('np', (nW, n), ap(rnd(to_nc(x)), IXP[0], IXP[1]), 'float')


def rnd(nc):
    return f'rnd[{normal_form(nc).key}]'


class Accepted:
    """Contract of the check of charge steps."""
    def apply(self, I, f, args, kw):
        s_ = args[1] if len(args) > 1 else kw['S']
        fn = rnd(to_nc(args[0].attrs['wTrans']) * to_nc(s_))
        ok = ind_lit('=', I_('accepted ' + fn) - ONEP)

        def ax(args):
            return [ONEP - ok * steps(ap(fn, *args), args[1])]

        def mv(m, args):
            v = m.h(fn, tuple(args))
            charge = m.poly(om(Poly.const(int(args[1])))) == 0
            return int(v * 3) - 1 if m.poly(ok) and charge else v
        AXIOM[fn], MODELV[fn] = ax, mv
        return SBool(ok)


def steps(v, jj):
    """The entry is not a step of charge."""
    return ind_lit('=', om(jj)) * ind_lit('!=', v) * ind_lit('!=', v - ONEP) * ind_lit('!=', v + ONEP)


class Independent:
    """Contract of the search for independent rows: their places and as many
    vectors (proved in columns.py); a basis completed by random vectors is
    complete."""
    def apply(self, I, f, args, kw):
        I.assumed.add('no more independent vectors than the dimension; random vectors complete a basis')
        x = args[-1] if args else kw['a_mat']
        cols = x.shape[1]
        k = I.fresh('k')
        K = Poly.atom(k)
        again = 'basis vector(' in entries(x).key
        cnt = cols if again else I_('independent')
        if not again:
            I.assume(ind_lit('<=', cnt - cols))
        name = 'basis vector' + (' again' if again else '')
        return (SList([Seg.uniform(cnt, k, SNum(ap('row of', K, sort='I'), 'int'))]),
                SList([Seg.uniform(cnt, k, Arr('np', (cols,), ap(name, K, IXP[0]), 'float'))]))


class Reduced:
    """Contract of the removal of dependent columns: some columns."""
    def apply(self, I, f, args, kw):
        x = args[0]
        return Arr('np', (x.shape[0], I_('reduced')), entries(x).subst({IX[1]: ap(
            'kept', IXP[1], sort='I')}), 'float')


class Step:
    """Contract of a step: new coordinates; after the first, the matrices are
    diagonal."""
    def __init__(self, k, calls):
        self.k, self.calls = k, calls

    def apply(self, I, f, args, kw):
        o, k = args[0], self.k
        before = {x: o.attrs.get(x) for x in ('omega', 'S1')}
        s_, r_ = base(f's{k}'), base(f'r{k}')
        new = before['new'] = {
            'S': arr(base(f'S after {k}')), 'R': arr(base(f'R after {k}')),
            'cInvTrans': arr(DC if k == 1 else base(f'ci after {k}')),
            'lTrans': arr(DL if k == 1 else base(f'lt after {k}')),
            'wTrans': arr(base(f'wt after {k}'), o.attrs['wTrans'].shape[0])}
        o.attrs.update(new)
        out = arr(s_), arr(r_)
        self.calls.append((k, *out, before))
        return out


class Retry(Exception):
    pass


class Once:
    """The outer call runs the code; an inner one has the contract of the
    function, which holds there by induction if the state is as it was."""
    def __init__(self):
        self.frame = None

    def apply(self, I, f, args, kw):
        if self.frame is None:
            self.frame = Frame(self.V, args[0])
            try:
                return I.run_func(f, args, kw)
            finally:
                self.frame = None
        self.frame.check('retried from the same state')
        raise Retry()


def written_out(nc, x, y):
    """Entry of a product as a sum over the inner indices."""
    out = ZEROP
    for w_, c0 in normal_form(nc).t.items():
        e = NC({w_[:1]: ONEP}).entry(x, y) if len(w_) <= 1 else ZEROP
        if len(w_) > 1:
            k = fresh_bound()
            K = Poly.atom(k)
            e = sum_range(k, ZEROP, n, NC({w_[:1]: ONEP}).entry(x, K)
                          * written_out(NC({w_[1:]: ONEP}), K, y))
        out = out + c0 * e
    return out


def instances(V, x):
    """Where a sum of conditions is below 1, each of its terms vanishes."""
    for f in list(V.I.ctx().facts):
        for at in f.atoms():
            if at.kind == 'ind' and f == Poly.atom(at) and at.rel in ('<=', '<', '=') and len(at.poly.t) == 1:
                (m, c0), = at.poly.t.items()
                if c0[0] > 0 and len(m) == 1 and m[0][0].kind == 'sum' and m[0][1] == 1:
                    s_ = m[0][0]
                    for mo, co in s_.body.subst({s_.var: x}).t.items():
                        if co[0] > 0 and all(y.kind == 'ind' for y, _ in mo):
                            left = [Poly.atom(y) for y, _ in mo if not V.I.ctx().entails(Poly.atom(y))]
                            q = ONEP
                            for y in left:
                                q = q * y
                            V.assume(ind_not(q))


def contracts(R):
    columns(R)
    gram_schmidt(R)
    for jun in (True, False):
        def apply(V, jun=jun):
            c = Circ(V)
            cnt = nW if jun else ZEROP

            def run():
                o = c.build(S=arr(SM), R=arr(RM), cInvTrans=arr(CI), lTrans=arr(LT),
                            wTrans=arr(WT, cnt), W=arr(W0, cnt))
                V.meth(o, '_apply_transformation', arr(T1), arr(T2))
                return o

            def post(V, o):
                at = o.attrs
                same(V, 'flux coordinates', at['S'], SM * T1)
                same(V, 'charge coordinates', at['R'], RM * T2)
                same(V, 'inverse capacitance', at['cInvTrans'], T2.trans() * CI * T2)
                same(V, 'inverse inductance', at['lTrans'], T1.trans() * LT * T1)
                if jun:
                    same(V, 'junctions', at['wTrans'], WT * T1)
            V.explore(run, post)
        R.case(f'one change of coordinates{"" if jun else ", no junction"}',
               ['circuit.Circuit._apply_transformation'], apply)

    def removal(V):
        c = Circ(V)
        at0 = {}

        def run():
            at0.update(S=arr(SM, N), R=arr(RM, N), cInvTrans=arr(CI), lTrans=arr(LT),
                       wTrans=arr(WT, nW), omega=om_arr())
            o = c.build(n=num(n, 'int'), **at0)
            fr = Frame(V, o)
            V.meth(o, '_update_nmodes_remove_uncoupled_modes')
            return o, fr

        def post(V, r):
            o, fr = r
            k = fresh_bound()
            t = VAR('t', 'I')
            untouched = ind_lit('=', sum_range(k, ZEROP, nW, ind_lit(
                '=', WT.entry(Poly.atom(k), Poly.atom(t)))) - nW)
            sel = selector(n, t, ONEP - untouched)
            left = n - sum_range(t, ZEROP, n, untouched)
            V.zero('number of modes', P(o.attrs['n']) - left)
            V.assume(ind_lit('<=', -i), ind_lit('<', i - left), ind_lit('<=', -j),
                     ind_lit('<', j - left))
            for x, rows, cols in (('S', 0, 1), ('R', 0, 1), ('cInvTrans', 1, 1), ('lTrans', 1, 1),
                                  ('wTrans', 0, 1)):
                g = o.attrs[x]
                shape(V, x, g, left if rows else at0[x].shape[0], left)
                V.zero(f'{x} keeps the touched modes', entries(g).subst({IX[0]: i, IX[1]: j})
                       - entries(at0[x]).subst({IX[0]: sel(i) if rows else i, IX[1]: sel(j)}))
            g = o.attrs['omega']
            shape(V, 'omega', g, left)
            V.zero('omega keeps the touched modes', entries(g).subst({IX[0]: j})
                   - om(sel(j)))
            fr.check('nothing else changes', but=('n', 'S', 'R', 'cInvTrans', 'lTrans', 'wTrans', 'omega'))
        V.explore(run, post)
    R.case('modes no junction touches are removed',
           ['circuit.Circuit._update_nmodes_remove_uncoupled_modes'], removal)

    for jun in (True, False):
        for eng in ('numpy', 'pytorch'):
            def first(V, jun=jun):
                c = Circ(V)
                cnt = nW if jun else ZEROP
                kind = 'torch' if V.engine == 'pytorch' else 'np'

                def run():
                    o = c.build(n=num(n, 'int'), C=arr(C0, kind=kind), L=arr(L0, kind=kind),
                                S=arr(NC.scalar(ONEP)), R=arr(NC.scalar(ONEP)),
                                cInvTrans=arr(C0.inv()), lTrans=arr(L0),
                                wTrans=arr(W0, cnt), W=arr(W0, cnt))
                    V.assume(*rank_facts(V))
                    r = V.meth(o, '_get_and_apply_transformation_1')
                    return o, r

                def post(V, r):
                    o, (s1, r1) = r
                    at = o.attrs
                    S_, R_ = to_nc(at['S']), to_nc(at['R'])
                    same(V, 'step in the flux coordinates', s1, S_)
                    same(V, 'step in the charge coordinates', r1, R_)
                    V.zero('charge stays conjugate to flux',
                           normal_form(S_.trans() * R_) - NC.scalar(ONEP))
                    same(V, 'inverse capacitance in the new coordinates', at['cInvTrans'],
                         R_.trans() * C0.inv() * R_)
                    V.assume(*inside(i), *inside(j))
                    top = P(EM.greatest(V.I, Arr('np', (n,), ap(SV_D, IXP[0]), 'float'), 'max'))
                    V.assume(*EM.greatest_facts(V.I, top, i))
                    for what, x, old in (('inverse capacitance', 'cInvTrans', None),
                                         ('inverse inductance', 'lTrans', S_.trans() * L0 * S_)):
                        e = plain(entries(at[x])).subst({IX[0]: i, IX[1]: j})
                        V.zero(f'{what}: modes decoupled', e * ind_lit('!=', i - j))
                        if old is not None:
                            V.zero(f'{what} in the new coordinates', e - plain(old.entry(i, j)))
                    if jun:
                        same(V, 'junctions in the new coordinates', at['wTrans'], W0 * S_)
                V.explore(run, post)
            R.case(f'first step{"" if jun else ", no junction"} [{eng}]',
                   ['circuit.Circuit._get_and_apply_transformation_1',
                    'circuit.Circuit._apply_transformation'], first, engine=eng)

    def rounding(V):
        c = Circ(V)
        free = I_('free')

        def run():
            V.assume(ind_lit('<=', -free))
            o = c.build(n=num(n, 'int'), omega=om_arr(), num_jun_without_ind=num(free, 'int'))
            w_ = Arr('np', (nW, n), ap('wt', IXP[0], IXP[1]), 'float')
            return V.meth(o, '_round_to_zero_one', w_), w_

        def post(V, r):
            r, w_ = r
            shape(V, 'result', r, nW, n)
            V.zero('argument unchanged', entries(w_) - ap('wt', IXP[0], IXP[1]))
            V.true('result is a copy', r is not w_ and r.view is None)
            V.assume(*inside(i, nW), *inside(j))
            x = ap('wt', i, j)
            V.zero('rounded entries', entries(r).subst({IX[0]: i, IX[1]: j})
                   - rounded(V, x, om(j), free))
        V.explore(run, post)
    R.case('rounding of charge steps', ['circuit.Circuit._round_to_zero_one'], rounding)

    def success(V):
        c = Circ(V)

        def run():
            o = c.build(n=num(n, 'int'), omega=om_arr(), wTrans=arr(WT, nW))
            return V.meth(o, '_is_gram_schmidt_successful', arr(T1))

        def post(V, r):
            bad = steps(ap(rnd(WT * T1), i, j), j)
            V.assume(*inside(i, nW), *inside(j), ind_lit('=', om(j)))
            instances(V, j)
            instances(V, i)
            V.zero('accepted only with charge steps 0, 1 and -1', P(r) * bad)
        V.explore(run, post)
    R.case('check of charge steps', ['circuit.Circuit._is_gram_schmidt_successful'], success,
           contracts={'circuit.Circuit._round_to_zero_one': Rounded()})

    for form in ('any', 'decoupled', 'any, inductors everywhere'):
        def second(V, form=form):
            c = Circ(V)
            o0 = {}
            free = I_('free')
            if 'everywhere' in form:
                form, free = 'any', ZEROP
            CC, LL = (CI, LT) if form == 'any' else (DC, DL)
            once = V.I.contracts['circuit.Circuit._get_and_apply_transformation_2']
            once.V = V

            def run():
                k = fresh_bound()
                V.assume(ind_lit('<=', -rk), ind_lit('<=', rk - n), ind_lit('=', sum_range(k, ZEROP, n, ind_lit(
                    '=', om(Poly.atom(k)))) - n + rk))
                o = c.build(n=num(n, 'int'), omega=om_arr(), S=arr(SM), R=arr(SM.inv().trans()),
                            S1=arr(SM), R1=arr(SM.inv().trans()), num_jun_without_ind=num(free, 'int'),
                            cInvTrans=arr(CC), lTrans=arr(LL), wTrans=arr(WT, nW), W=arr(W0, nW))
                o0.update(o.attrs)
                try:
                    return o, V.meth(o, '_get_and_apply_transformation_2')
                except Retry:
                    return None

            def post(V, r):
                if r is None:
                    return
                o, (s2, r2) = r
                at = o.attrs
                T, Q_ = to_nc(s2), to_nc(r2)
                V.assume(*inside(i), *inside(j))
                V.true('the first step stays as recorded', o.attrs['S1'] is o0['S1'] and o.attrs['R1'] is o0['R1'])
                if form == 'any':
                    V.zero('charge stays conjugate to flux',
                           normal_form(to_nc(at['S']).trans() * to_nc(at['R'])) - NC.scalar(ONEP))
                    same(V, 'flux coordinates', at['S'], SM * T)
                    same(V, 'charge coordinates', at['R'], SM.inv().trans() * Q_)
                    same(V, 'inverse capacitance in the new coordinates', at['cInvTrans'],
                         Q_.trans() * CI * Q_)
                    same(V, 'inverse inductance in the new coordinates', at['lTrans'], T.trans() * LT * T)
                    fn = rnd(WT * T)
                    V.zero('junctions in the new coordinates, rounded',
                           entries(at['wTrans']) - ap(fn, IXP[0], IXP[1]))
                    V.zero('junctions move charge by 0, 1 or -1', steps(entries(at['wTrans']).subst(
                        {IX[0]: i, IX[1]: j}), j))
                else:
                    har, off = ind_lit('<', i - rk), ind_lit('!=', i - j)
                    ci, li = (written_out(to_nc(at[x]), i, j) for x in ('cInvTrans', 'lTrans'))
                    V.zero('harmonic modes keep their inverse capacitance',
                           har * (ci - ind_lit('=', i - j) * ap('cinv', i)))
                    V.zero('no inductance between modes', off * li)
                    li = written_out(to_nc(at['lTrans']), i, i)
                    V.zero('harmonic modes keep their inverse inductance', har * (li - ap('linv', i)))
                    V.zero('no inductance in a charge mode', ind_lit('<=', rk - i) * li)
            V.explore(run, post)
        R.case(f'second step, {form} matrices', ['circuit.Circuit._get_and_apply_transformation_2'],
               second, contracts={
                   'circuit.Circuit._get_and_apply_transformation_2': Once(),
                   'circuit.Circuit._round_to_zero_one': Rounded(),
                   'circuit.Circuit._is_gram_schmidt_successful': Accepted(),
                   'circuit.Circuit._independent_rows': Independent(),
                   'functions.remove_dependent_columns': Reduced()})

    for jun in (True, False):
        def third(V, jun=jun):
            c = Circ(V)
            cnt = nW if jun else ZEROP
            w0 = Arr('np', (cnt, n), ap('wt', IXP[0], IXP[1]), 'float') if jun else arr(W0, ZEROP)

            def run():
                o = c.build(n=num(n, 'int'), omega=om_arr(), S=arr(SM), R=arr(SM.inv().trans()),
                            cInvTrans=arr(CI), lTrans=arr(LT), wTrans=w0, W=arr(W0, cnt))
                return o, V.meth(o, '_get_and_apply_transformation_3')

            def post(V, r):
                o, (s3, r3) = r
                at = o.attrs
                T, Q_ = to_nc(s3), to_nc(r3)
                V.zero('charge stays conjugate to flux',
                       normal_form(to_nc(at['S']).trans() * to_nc(at['R'])) - NC.scalar(ONEP))
                same(V, 'flux coordinates', at['S'], SM * T)
                same(V, 'charge coordinates', at['R'], SM.inv().trans() * Q_)
                same(V, 'inverse capacitance in the new coordinates', at['cInvTrans'],
                     Q_.trans() * CI * Q_)
                same(V, 'inverse inductance in the new coordinates', at['lTrans'], T.trans() * LT * T)
                V.assume(*inside(i), *inside(j))
                V.zero('modes are only scaled', T.entry(i, j) * ind_lit('!=', i - j))
                V.zero('charge modes are kept', (T.entry(j, j) - ONEP) * ind_lit('=', om(j)))
                if jun:
                    V.assume(*inside(i, nW))
                    x = ap('wt', i, j)
                    zp = TWO * PI * Phi0.inv() * (hbar * HALF * (
                        CI.entry(j, j) * LT.entry(j, j).inv()).fpow(Fraction(1, 2))).fpow(Fraction(1, 2))
                    small = ind_lit('!=', om(j)) * ind_lit('<', f_abs(zp * x) - accuracy(V, 'har_mode_elim'))
                    V.zero('junctions in the new coordinates', entries(at['wTrans']).subst(
                        {IX[0]: i, IX[1]: j}) - (ONEP - small) * x * T.entry(j, j))
            V.explore(run, post)
        R.case(f'third step{"" if jun else ", no junction"}',
               ['circuit.Circuit._get_and_apply_transformation_3'], third)

    for jun in (True, False):
        def whole(V, jun=jun):
            c = Circ(V)
            cnt = nW if jun else ZEROP
            calls = V.I.contracts['circuit.Circuit._get_and_apply_transformation_1'].calls

            def run():
                calls.clear()
                o = c.build(n=num(n, 'int'), wTrans=arr(W0, cnt), W=arr(W0, cnt))
                V.meth(o, '_transform_hamil')
                return o, list(calls)

            def post(V, r):
                o, done = r
                at = o.attrs
                V.true('steps in order', [x[0] for x in done] == ([1, 2, 3] if jun else [1, 3]))
                for k, s_, r_, before in done:
                    V.true(f'flux step {k} is recorded', at[f'S{k}'] is s_)
                    V.true(f'charge step {k} is recorded', at[f'R{k}'] is r_)
                    if k > 1:
                        shape(V, 'frequencies', before['omega'], n)
                        V.assume(*inside(j))
                        V.zero(f'frequencies before step {k}', entries(before['omega']).subst({IX[0]: j})
                               - (ap('cinv', j) * ap('linv', j)).fpow(Fraction(1, 2)))
                        V.true(f'first step is recorded before step {k}', before['S1'] is done[0][1])
                for x in ('S', 'R', 'cInvTrans', 'lTrans', 'wTrans'):
                    V.true(f'{x} is the one of the last step', at[x] is done[-1][3]['new'][x])
                V.true('frequencies stay', at['omega'] is done[-1][3]['omega'])
            V.explore(run, post)
        calls = []
        R.case(f'all steps{"" if jun else ", no junction"}', ['circuit.Circuit._transform_hamil'], whole,
               contracts={f'circuit.Circuit._get_and_apply_transformation_{k}': Step(k, calls)
                          for k in (1, 2, 3)})

    for eng in ('numpy', 'pytorch'):
        net, rem = Network(eng), Remove()
        tr = Transform(net)
        rem.net = net

        def new(V, net=net, tr=tr, rem=rem):
            c = Circ(V)
            V.assume(ind_lit('<=', ONEP - nW))
            if V.engine == 'pytorch':
                V.I.settings_optim = True

            def run():
                rem.called = False
                el = c.build().attrs['elements']
                return V.call(V.get('circuit', 'Circuit'), el)

            def post(V, o):
                nd = P(net.nodes)
                V.true('places, loops and parameters are collected afresh', all(net.fresh))
                for x, v in zip('CLWB', net.out):
                    V.true(f'matrix {x} is the one of the elements', tr.given[x] is v and o.attrs[x] is v)
                for x in 'RS':
                    V.eq(f'{x} starts as the unit matrix', tr.given[x],
                         Arr('np', (nd, nd), ind_lit('=', IXP[0] - IXP[1])))
                V.eq('inverse capacitance at the start', nc_of(tr.given['cInvTrans']),
                     NC.sym(Base('newC', kind='mat', real=True, sym=True)).inv())
                V.eq('susceptance at the start', nc_of(tr.given['lTrans']),
                     NC.sym(Base('newL', kind='mat', real=True, sym=True)))
                V.eq('junction matrix at the start', tr.given['wTrans'],
                     Arr('np', (nW, nd), ap('newW', IXP[0], IXP[1])))
                for x in ('lTrans', 'wTrans'):
                    V.true(f'{x} is not the matrix itself', all(
                        tr.given[x] is not tr.given[y] for y in 'LW'))
                V.true('modes no junction touches are dropped unless optimising',
                       rem.called is (V.engine == 'numpy'))
            V.explore(run, post)
        R.case(f'a new circuit [{eng}]', ['circuit.Circuit.__init__'], new, engine=eng,
               contracts={'circuit.Circuit._get_LCWB': net, 'circuit.Circuit._transform_hamil': tr,
                          'circuit.Circuit._update_nmodes_remove_uncoupled_modes': rem})

    for kind, name in (('charge', 'S'), ('flux', 'R'), ('CHARGE', 'S'), ('Flux', 'R')):
        def coord(V, kind=kind, name=name):
            c = Circ(V)

            def run():
                return V.meth(c.build(S=arr(SM, N), R=arr(RM, N)), 'coord_transform', kind)

            def post(V, r):
                shape(V, 'matrix', r, n, N)
                same(V, f'{kind} coordinates', r, (SM if name == 'S' else RM).trans())
            V.explore(run, post)
        R.case(f'coord_transform {kind}', ['circuit.Circuit.coord_transform'], coord)

    def neither(V):
        c = Circ(V)
        V.explore(lambda: V.meth(c.build(), 'coord_transform', 'phase'), None, expect='raise')
    R.case('coord_transform of another kind', ['circuit.Circuit.coord_transform'], neither)
