"""C15: both engines compute the same mathematical functions."""
from engine.verify import *
from engine.terms import f_exp, f_fun, f_abs, IUNIT
from engine.extmodels import f_real, f_imag, f_round, kron_base, _kron

ENG = ('numpy', 'pytorch')


def x_of(V, kind, rank, cplx=False, pos=False):
    """A number, a vector or a matrix of arbitrary size with arbitrary entries."""
    sort = 'C' if cplx else 'R'
    dt = 'complex' if cplx else 'float'
    if rank == 0:
        p = Poly.atom(VAR('x', sort, pos))
        return (SNum(p, dt) if kind == 'np' else Arr('torch', (), p, dt)), p
    sh = tuple(Poly.atom(VAR(n, 'I', True)) for n in ('n1', 'n2')[:rank])
    p = Poly.atom(APP('x', tuple(IXP[:rank]), sort, pos))
    return Arr(kind, sh, p, dt), p


def val(v):
    return entries(v) if isinstance(v, Arr) else P(v)


def kind(v):
    return v.kind if isinstance(v, Arr) else 'np'


MATH = [('abs', f_abs, 'RC'), ('exp', f_exp, 'RC'), ('imag', f_imag, 'C'), ('real', f_real, 'RC'),
        ('cosh', lambda p: f_fun('cosh', p), 'R'), ('sinh', lambda p: f_fun('sinh', p), 'R'),
        ('tanh', lambda p: f_fun('tanh', p), 'R'), ('sqrt', lambda p: f_fun('sqrt', p), '+'),
        ('log', lambda p: f_fun('log', p), '+')]


def contracts(R):
    for eng in ENG:
        for k in ('np', 'torch'):
            for f, spec, sorts in MATH:
                for s in sorts:
                    for rank in (0, 1, 2):
                        def body(V, f=f, spec=spec, s=s, rank=rank, k=k):
                            x, p = x_of(V, k, rank, s == 'C', s == '+')

                            def post(V, r):
                                V.eq('value', val(r), spec(p))
                                V.eq('kind', kind(r), k)
                                if rank:
                                    V.eq('shape', list(r.shape), list(x.shape))
                            V.explore(lambda: V.fn('functions', f, x), post)
                        R.case(f'{f} of {s} rank {rank} {k} [{eng}]', [f'functions.{f}'], body, eng)
            special(R, eng, k)
        matrices(R, eng)
    gradients(R)


def special(R, eng, k):
    for rank in (0, 1):
        def body(V, rank=rank):
            x, p = x_of(V, k, rank, pos=True)
            q = [f'functions.{n}' for n in ('log_sinh', 'k0e', 'log_k0')]
            k0 = Poly.atom(APP('k0e', (p,), 'R', True))
            V.explore(lambda: V.fn('functions', 'log_sinh', x), lambda V, r: V.eq(
                'exp(log_sinh) = sinh', f_exp(val(r)).scale(2), f_exp(p) - f_exp(-p)),
                label=V.name + ' log_sinh')
            V.explore(lambda: V.fn('functions', 'k0e', x), lambda V, r: V.eq(
                'scaled K0', val(r), k0), label=V.name + ' k0e')
            V.explore(lambda: V.fn('functions', 'log_k0', x), lambda V, r: V.eq(
                'exp(log_k0) = K0', f_exp(val(r)) * f_exp(p), k0), label=V.name + ' log_k0')
        R.case(f'special functions rank {rank} {k} [{eng}]', ['functions.log_sinh', 'functions.k0e',
                                                            'functions.log_k0'], body, eng)
        for a in (-2, 0, 2, 3, Fraction(1, 2), Fraction(-3, 2)):
            def pw(V, a=a, rank=rank):
                x, p = x_of(V, k, rank, pos=True)
                b = a if isinstance(a, int) else SNum(Poly.const(a), 'float')
                V.explore(lambda: V.fn('functions', 'pow', x, b), lambda V, r: V.eq(
                    'power', val(r), p.fpow(Fraction(a))))
            R.case(f'pow {a} rank {rank} {k} [{eng}]', ['functions.pow'], pw, eng)
        for a in (0, 1, 2, 3, 6):
            def rd(V, a=a, rank=rank):
                x, p = x_of(V, k, rank)
                V.explore(lambda: V.fn('functions', 'round', x, a), lambda V, r: V.eq(
                    'rounded', val(r), f_round(p, Poly.const(a))))
                if a == 3:
                    V.explore(lambda: V.fn('functions', 'round', x), lambda V, r: V.eq(
                        'rounded by default', val(r), f_round(p, Poly.const(3))))
            R.case(f'round {a} rank {rank} {k} [{eng}]', ['functions.round'], rd, eng)
    for f, gt in (('maximum', True), ('minimum', False)):
        def mm(V, f=f, gt=gt):
            a, b = Poly.atom(VAR('a', 'R')), Poly.atom(VAR('b', 'R'))

            def w(p):
                return SNum(p, 'float') if k == 'np' else Arr('torch', (), p, 'float')

            def post(V, r):
                c = ind_lit('<=', b - a) if gt else ind_lit('<=', a - b)
                V.zero('extreme value', P(r) - c * a - (ONEP - c) * b)
            V.explore(lambda: V.fn('functions', f, w(a), w(b)), post)
        R.case(f'{f} {k} [{eng}]', [f'functions.{f}'], mm, eng)

    def sm(V):
        for rank in (1, 2):
            x, p = x_of(V, k, rank, True)
            v = [VAR(f's{i}', 'I') for i in range(rank)]
            e = p.subst({IX[i]: Poly.atom(v[i]) for i in range(rank)})
            for i in range(rank):
                e = sum_range(v[i], ZEROP, x.shape[i], e)
            V.explore(lambda: V.fn('functions', 'sum', x), lambda V, r: V.eq(
                f'sum of rank {rank}', val(r), e))
    R.case(f'sum {k} [{eng}]', ['functions.sum'], sm, eng)


def gradients(R):
    def body(V):
        x, p = x_of(V, 'torch', 0, pos=True)
        g = V.tens('g')
        for cls, want in (
                ('K0eSolver', lambda k0, k1: k0 - k1),
                ('LogK0Solver', lambda k0, k1: -k1 * k0.inv())):
            def run(cls=cls):
                c = V.get('functions', cls)
                ctx = ExtObj('ctx')
                V.call(V.attr(c, 'forward'), ctx, x)
                return V.call(V.attr(c, 'backward'), ctx, g)
            k0 = Poly.atom(APP('k0e', (p,), 'R', True))
            k1 = Poly.atom(APP('kve', (ONEP, p), 'R', True))
            V.explore(run, lambda V, r, want=want, cls=cls: V.eq(
                f'{cls} derivative', P(r), P(g) * want(k0, k1)))
    R.case('derivatives of the special functions', ['functions.K0eSolver.backward',
                                                    'functions.LogK0Solver.backward'], body,
           'pytorch')


def matrices(R, eng):
    t = eng == 'pytorch'
    n, m, l = (Poly.atom(VAR(x, 'I', True)) for x in ('n', 'm', 'l'))
    A, B, M = (NC.sym(Base(x)) for x in 'ABM')
    u, w = NC.sym(Base('u', kind='vec')), NC.sym(Base('w', kind='vec'))

    def wrap(nc, sh, how):
        if how == 'tensor':
            return Arr('torch', sh, nc, 'complex')
        if how == 'sparse':
            return Arr('torch', sh, nc, 'complex', sparse=True)
        if how == 'array':
            return Arr('np', sh, nc, 'complex')
        return SQobj(nc, sh, 'ket' if sh[1] == ONEP else 'oper', how.split()[1])

    def nc(r):
        return to_nc(r) if isinstance(r, Arr) else r.nc

    forms = ['tensor', 'sparse', 'qobj csr', 'qobj dia', 'qobj dense'] if t else \
        ['array', 'qobj csr', 'qobj dia', 'qobj dense']
    for fa in forms:
        for fb in forms:
            if not t and (fa == 'array') != (fb == 'array'):
                continue

            def mm(V, fa=fa, fb=fb):
                def post(V, r):
                    V.eq('product', nc(r), A * B)
                V.explore(lambda: V.fn('functions', 'mat_mul', wrap(A, (n, m), fa),
                                       wrap(B, (m, l), fb)), post)
            R.case(f'mat_mul {fa} {fb} [{eng}]', ['functions.mat_mul'], mm, eng)

    for fo in forms:
        if fo == 'array':
            continue

        def ip(V, fo=fo):
            if t:
                s1, s2 = Arr('torch', (n,), u, 'complex'), Arr('torch', (n,), w, 'complex')
            else:
                s1, s2 = wrap(u, (n, ONEP), 'qobj dense'), wrap(w, (n, ONEP), 'qobj dense')

            def post(V, r):
                V.eq('sandwich', P(r), (u.dag() * M * w).close() if not t else
                     (u.dag() * M * w).entry(ZEROP, ZEROP))
            V.explore(lambda: V.fn('functions', 'operator_inner_product', s1,
                                   wrap(M, (n, n), fo), s2), post)
        R.case(f'operator_inner_product {fo} [{eng}]', ['functions.operator_inner_product'], ip, eng)

    def dg(V):
        f = lambda x: (lambda: V.fn('functions', 'dag', x))
        V.explore(f(SQobj(A, (n, m))), lambda V, r: V.eq('operator', r.nc, A.dag()))
        V.explore(f(Arr('torch', (n, m), A, 'complex')), lambda V, r: V.eq(
            'matrix tensor', to_nc(r), A.dag()))
        V.explore(f(Arr('torch', (n,), u, 'complex')), lambda V, r: V.eq(
            'vector tensor', entries(r), u.entry(IXP[0]).conj()))
        V.explore(f(Arr('np', (n,), u, 'complex')), lambda V, r: V.eq(
            'vector array', entries(r), u.entry(IXP[0]).conj()))
    R.case(f'dag [{eng}]', ['functions.dag'], dg, eng)
    k = 'torch' if t else 'np'

    def rest(V):
        a, b = Arr(k, (n, m), A, 'complex'), Arr(k, (l, l), M, 'complex')

        def blocks(V, r):
            g = lambda lo, hi, d: ind_lit('<=', lo - IXP[d]) * ind_lit('<=', IXP[d] - hi + ONEP)
            want = g(ZEROP, n, 0) * g(ZEROP, m, 1) * A.entry(IXP[0], IXP[1]) + \
                g(n, n + l, 0) * g(m, m + l, 1) * M.entry(IXP[0] - n, IXP[1] - m)
            V.eq('block diagonal', r, Arr(k, (n + l, m + l), want, 'complex'))
        V.explore(lambda: V.fn('functions', 'block_diag', a, b), blocks)
        d = Arr(k, (n,), Poly.atom(APP('d', (IXP[0],), 'R')), 'float')
        V.explore(lambda: V.fn('functions', 'diag', d), lambda V, r: V.eq(
            'diagonal', r, Arr(k, (n, n), entries(d) * ind_lit('=', IXP[0] - IXP[1]), 'float')))
        V.explore(lambda: V.fn('functions', 'mat_inv', b), lambda V, r: V.eq(
            'inverse', to_nc(r), M.inv()))
        V.explore(lambda: V.fn('functions', 'eye', SNum(n, 'int')), lambda V, r: V.eq(
            'identity', nc(r), NC.scalar(ONEP)))
        V.explore(lambda: V.fn('functions', 'mat_to_op', b), lambda V, r: V.eq(
            'operator of a matrix', nc(r), M))
        V.explore(lambda: V.fn('functions', 'zero'), lambda V, r: V.eq('zero', P(r), ZEROP))
        V.explore(lambda: V.fn('functions', 'zeros', (SNum(n, 'int'), SNum(m, 'int'))),
                  lambda V, r: V.eq('zeros', r, Arr(k, (n, m), ZEROP, 'float')))
        V.explore(lambda: V.fn('functions', 'copy', b), lambda V, r: (
            V.eq('copy', to_nc(r), M), V.true('copy is another object', r is not b)))
        for fo in ('csr', 'dia', 'dense'):
            q = SQobj(A, (n, m), 'oper', fo)
            V.explore(lambda: V.fn('functions', 'qobj_to_tensor', q), lambda V, r: (
                V.eq(f'tensor of {fo}', to_nc(r), A), V.eq('shape', list(r.shape), [n, m]),
                V.eq('tensor kind', r.kind, 'torch')))
            V.explore(lambda: V.fn('functions', 'dense', q), lambda V, r: (
                V.eq(f'dense of {fo}', to_nc(r), A)))
            V.explore(lambda: V.fn('functions', 'to_numpy', q), lambda V, r: (
                V.eq(f'array of {fo}', to_nc(r), A)))
        for h in ('tensor', 'sparse'):
            V.explore(lambda: V.fn('functions', 'dense', wrap(A, (n, m), h)), lambda V, r: (
                V.eq(f'dense of {h}', to_nc(r), A),
                V.eq(f'dense of {h} is dense', bool(r.meta.get('sparse')), False)))
        V.explore(lambda: V.fn('functions', 'to_numpy', Arr('torch', (n, m), A, 'complex', grad=True)),
                  lambda V, r: (V.eq('array of a tensor', to_nc(r), A), V.eq('kind', r.kind, 'np')))
        V.explore(lambda: V.fn('functions', 'to_numpy', Arr('np', (n, m), A, 'complex')),
                  lambda V, r: V.eq('array of an array', to_nc(r), A))
        x, y, z = V.real('x'), V.real('y'), V.real('z')
        V.explore(lambda: V.fn('functions', 'array', SList([x, y, z])), lambda V, r: [
            V.eq(f'array item {i}', val(r).subst({IX[0]: Poly.const(i)}), P(v))
            for i, v in enumerate((x, y, z))])
    R.case(f'matrix functions [{eng}]', ['functions.' + f for f in (
        'block_diag', 'diag', 'mat_inv', 'eye', 'mat_to_op', 'zero', 'zeros', 'copy',
        'qobj_to_tensor', 'dense', 'to_numpy', 'array')], rest, eng)
    for ar in (1, 2, 3, 4):
        def tp(V, ar=ar):
            ops = [(NC.sym(Base(f'O{i}')), (Poly.atom(VAR(f'd{i}', 'I', True)),) * 2)
                   for i in range(ar)]
            args = [Arr('torch', sh, o, 'complex') if t else SQobj(o, sh) for o, sh in ops]

            def post(V, r):
                if ar == 1:
                    V.eq('single factor', nc(r), ops[0][0])
                elif t:
                    V.eq('factors in order', to_nc(r), NC.sym(kron_base(ops)))
                else:
                    V.eq('factors in order', list(r.items), args)
            V.explore(lambda: V.fn('functions', 'tensor_product', *args), post)
        R.case(f'tensor_product of {ar} [{eng}]', ['functions.tensor_product'], tp, eng)
