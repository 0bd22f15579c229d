"""C15 on concrete arguments."""
from .lib import *
import SQcircuit.functions as sqf
from scipy import special

CPLX = ['abs', 'exp', 'imag', 'real', 'sqrt', 'tanh', 'sinh', 'cosh', 'log', 'sum']


def gen_math(r, i):
    n = r.choice([0, 1, 1, 2])
    shape = [r.randint(1, 4) for _ in range(n)]
    size = int(np.prod(shape)) if shape else 1
    f = r.choice(['abs', 'exp', 'imag', 'real', 'sqrt', 'tanh', 'sinh', 'cosh', 'log', 'sum',
                  'log_sinh', 'k0e', 'log_k0', 'pow', 'round'])
    pos = f in ('sqrt', 'log', 'log_sinh', 'k0e', 'log_k0', 'pow')
    vals = [10 ** r.uniform(-3, 1.3) if pos else r.uniform(-4, 4) for _ in range(size)]
    im = [r.uniform(-2, 2) for _ in range(size)] if (f == 'imag' or (
        f in ('abs', 'exp', 'real', 'sum') and r.random() < 0.5)) else None
    return {'f': f, 'shape': shape, 're': vals, 'im': im, 'a': round(r.uniform(-2, 3), 2),
            'engine': r.choice(['NumPy', 'PyTorch'])}


OWN = {'abs': np.abs, 'exp': np.exp, 'imag': np.imag, 'real': np.real, 'sqrt': np.sqrt,
       'tanh': np.tanh, 'sinh': np.sinh, 'cosh': np.cosh, 'log': np.log, 'sum': np.sum,
       'log_sinh': lambda x: np.log(np.sinh(x)), 'k0e': lambda x: special.k0(x) * np.exp(x),
       'log_k0': lambda x: np.log(special.k0(x))}


def math(t, s):
    sq.set_engine(s['engine'])
    x = np.array(s['re'])
    if s['im']:
        x = x + 1j * np.array(s['im'])
    x = x.reshape(s['shape'])
    f = getattr(sqf, s['f'], None)
    if f is None:
        t.skip()
    if s['f'] == 'pow':
        run = lambda y: f(y, s['a'])
        want = x ** s['a']
    elif s['f'] == 'round':
        run = lambda y: f(y, 2)
        want = np.round(x, 2)
    else:
        run = f
        want = OWN[s['f']](x)
    for kind, y in (('array', x if x.ndim else x[()]), ('tensor', torch.as_tensor(x))):
        got = run(y)
        t.close(f"{s['f']} of {kind}", nparr(got), want, rtol=2e-7,
                atol=1e-7 if s["f"] == "log_sinh" else 1e-12)
        t.equal(f"kind of {s['f']} of {kind}", isinstance(got, torch.Tensor), kind == 'tensor')


def gen_grad(r, i):
    return {'f': r.choice(['k0e', 'log_k0', 'log_sinh']), 'x': float(f'{10 ** r.uniform(-3, 2):.5g}'),
            'c': round(r.uniform(-3, 3), 2)}


def grads(t, s):
    sq.set_engine('PyTorch')
    x = torch.tensor(s['x'], dtype=torch.float64, requires_grad=True)
    y = s['c'] * getattr(sqf, s['f'])(x)
    y.backward()
    v = s['x']
    k0, k1 = special.k0e(v), special.k1e(v)
    want = {'k0e': k0 - k1, 'log_k0': -k1 / k0, 'log_sinh': 1 / np.tanh(v)}[s['f']]
    t.close(f"derivative of {s['f']}", float(x.grad), s['c'] * want, rtol=1e-6)


def cm(r, n, m):
    return [[[round(r.uniform(-2, 2), 3), round(r.uniform(-2, 2), 3)]
             if r.random() < 0.7 else [0.0, 0.0] for _ in range(m)] for _ in range(n)]


def mat(d):
    return np.array([[complex(*x) for x in row] for row in d])


def gen_mat(r, i):
    a, b, c = (r.randint(2, 4) for _ in range(3))
    return {'A': cm(r, a, b), 'B': cm(r, b, c), 'sq': cm(r, 3, 3), 'v': cm(r, 3, 1), 'w': cm(r, 3, 1),
            'fa': r.choice(['csr', 'dense', 'dia']), 'fb': r.choice(['csr', 'dense', 'dia']),
            'ka': r.choice(['tensor', 'sparse', 'qobj']), 'kb': r.choice(['tensor', 'sparse', 'qobj'])}


def wrap(x, kind, fmt):
    if kind == 'tensor':
        return torch.as_tensor(x)
    if kind == 'sparse':
        return torch.as_tensor(x).to_sparse()
    return qt.Qobj(x).to(fmt)


def den(x):
    if isinstance(x, torch.Tensor) and x.layout != torch.strided:
        x = x.to_dense()
    return npop(x)


def matrices(t, s):
    A, B, M = mat(s['A']), mat(s['B']), mat(s['sq'])
    v, w = mat(s['v']), mat(s['w'])
    sq.set_engine('NumPy')
    t.close('product of operators', den(sqf.mat_mul(wrap(A, 'qobj', s['fa']), wrap(B, 'qobj', s['fb']))),
            A @ B, rtol=1e-12)
    t.close('product of arrays', den(sqf.mat_mul(A, B)), A @ B, rtol=1e-12)
    ip = (v.conj().T @ M @ w)[0, 0]
    t.close('inner product', complex(nparr(sqf.operator_inner_product(
        qt.Qobj(v), wrap(M, 'qobj', s['fa']), qt.Qobj(w)))), ip, rtol=1e-12, scale=10)
    t.close('adjoint of an operator', den(sqf.dag(qt.Qobj(A))), A.conj().T, rtol=1e-12)
    t.close('adjoint of a vector', sqf.dag(v[:, 0]), v[:, 0].conj(), rtol=1e-12)
    t.close('block diagonal', sqf.block_diag(A, M), scipy.linalg.block_diag(A, M))
    t.close('diagonal', sqf.diag(v[:, 0]), np.diag(v[:, 0]))
    t.close('tensor product', den(sqf.tensor_product(qt.Qobj(M), qt.Qobj(B))), np.kron(M, B), rtol=1e-12)
    t.close('identity', den(sqf.eye(4)), np.eye(4))
    t.close('operator of a matrix', den(sqf.mat_to_op(M)), M)
    S = M + 6 * np.eye(3)
    t.close('inverse', sqf.mat_inv(S), np.linalg.inv(S), rtol=1e-10)
    sq.set_engine('PyTorch')
    for x, kx in ((A, s['ka']),):
        got = sqf.mat_mul(wrap(A, s['ka'], s['fa']), wrap(B, s['kb'], s['fb']))
        t.close(f"product of {s['ka']} ({s['fa']}) and {s['kb']} ({s['fb']})", den(got), A @ B, rtol=1e-12)
    for op in (wrap(M, 'qobj', s['fa']), wrap(M, 'tensor', '')):
        t.close('inner product', complex(nparr(sqf.operator_inner_product(
            torch.as_tensor(v[:, 0]), op, torch.as_tensor(w[:, 0])))), ip, rtol=1e-12, scale=10)
    t.close('adjoint of a tensor', den(sqf.dag(torch.as_tensor(A))), A.conj().T)
    t.close('adjoint of a vector', den(sqf.dag(torch.as_tensor(v[:, 0]))), v[:, 0].conj())
    t.close('block diagonal', den(sqf.block_diag(torch.as_tensor(A), torch.as_tensor(M))),
            scipy.linalg.block_diag(A, M))
    t.close('diagonal', den(sqf.diag(torch.as_tensor(v[:, 0]))), np.diag(v[:, 0]))
    t.close('tensor product', den(sqf.tensor_product(torch.as_tensor(M), torch.as_tensor(B))),
            np.kron(M, B), rtol=1e-12)
    t.close('identity', den(sqf.eye(4)), np.eye(4))
    t.close('inverse', den(sqf.mat_inv(torch.as_tensor(S))), np.linalg.inv(S), rtol=1e-10)
    for f in ('csr', 'dense', 'dia'):
        t.close(f'tensor of an operator ({f})', den(sqf.qobj_to_tensor(wrap(A, 'qobj', f))), A)
    t.close('array of a tensor', sqf.to_numpy(torch.as_tensor(A)), A)
    t.close('array of an operator', sqf.to_numpy(qt.Qobj(A)), A)
    t.close('dense operator', den(sqf.dense(wrap(A, 'qobj', s['fa']))), A)
    t.close('dense tensor', den(sqf.dense(wrap(A, 'sparse', ''))), A)
    c = torch.as_tensor(A.copy())
    d = sqf.copy(c)
    d[0, 0] = 99
    t.close('copy leaves the original', den(c), A)
    t.close('array', den(sqf.array([1.5, 2])), [1.5, 2])
    t.close('zeros', den(sqf.zeros((2, 3))), np.zeros((2, 3)))


def gen_cols(r, i):
    n, m = r.randint(1, 4), r.randint(1, 6)
    cols = []
    for _ in range(m):
        k = r.random()
        if k < 0.2:
            cols.append([0] * n)
        elif k < 0.5 and cols:
            c = r.choice(cols)
            f = r.choice([1, -1, 2])
            cols.append([f * x for x in c])
        else:
            cols.append([r.choice([-1, 0, 1, 2]) for _ in range(n)])
    return {'cols': cols}


def columns(t, s):
    M = np.array(s['cols'], float).T
    got = np.asarray(sqf.remove_dependent_columns(M))
    kept = []
    for j in range(M.shape[1]):
        if np.any(M[:, j]) and np.linalg.matrix_rank(M[:, kept + [j]]) == len(kept) + 1:
            kept.append(j)
    t.close('independent columns', got, M[:, kept])
    nz = [j for j in range(M.shape[1]) if np.any(M[:, j])]
    t.close('non-zero columns', sqf.remove_zero_columns(M), M[:, nz])


CONTRACTS = {'functions': math, 'derivatives': grads, 'matrix operations': matrices,
             'column selection': columns}


def run(t):
    q = 1 if t.tier == 'quick' else 8
    t.loop('functions', gen_math, math, 300 * q, 0.3)
    t.loop('derivatives', gen_grad, grads, 60 * q, 0.3)
    t.loop('matrix operations', gen_mat, matrices, 80 * q, 0.6)
    t.loop('column selection', gen_cols, columns, 100 * q)
