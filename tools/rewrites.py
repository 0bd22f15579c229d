"""Behaviour-preserving rewrites of the whole package: after each of them every
obligation must still be discharged, or at worst be left to the replay; none may
be refuted.  Run by hand after changing the engine or a contracts module:

    python3-vt tools/rewrites.py [rewrite ...]

Works on scratch copies of the sources; the repository is not touched.
"""
import ast
import copy
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def name(x):
    return ast.Name(x, ast.Load())


def assign(x, v):
    return ast.Assign([ast.Name(x, ast.Store())], v)


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.count = 0

    def new(self, stem):
        self.count += 1
        return f'{stem}_{self.count}'


class SwapBranches(Rewrite):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class NameResult(Rewrite):
    """return e  ->  result_ = e; return result_"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [assign('result_', n.value), ast.Return(name('result_'))]


class UnrollComprehension(Rewrite):
    """x = [e for v in xs]  ->  loop with append"""
    def visit_Assign(self, n):
        v = n.value
        if not (isinstance(v, ast.ListComp) and len(v.generators) == 1 and isinstance(n.targets[0], ast.Name)):
            return n
        g = v.generators[0]
        own = {m.id for m in ast.walk(g.target) if isinstance(m, ast.Name)}
        for part in [g.target, v.elt, *g.ifs]:
            for m in ast.walk(part):
                if isinstance(m, ast.Name) and m.id in own:
                    m.id += '_v'
        acc = self.new('acc')
        body = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [assign(acc, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []),
                ast.Assign(n.targets, name(acc))]


class RenameLocals(Rewrite):
    """Every local name gets a prefix."""
    def visit_FunctionDef(self, n):
        inner = [m for b in n.body for m in ast.walk(b)]
        if any(isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global)) for m in inner):
            return n
        args = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        own = {m.id for m in inner if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - args
        for m in inner:
            if isinstance(m, ast.Name) and m.id in own:
                m.id = 'v_' + m.id
        return n


class Enumerate(Rewrite):
    """for i in range(len(x))  ->  for i, _ in enumerate(x)"""
    def visit_For(self, n):
        self.generic_visit(n)
        m = re.fullmatch(r'range\(len\((.*)\)\)', ast.unparse(n.iter))
        if m:
            n.iter = ast.Call(name('enumerate'), [n.iter.args[0].args[0]], [])
            n.target = ast.Tuple([n.target, ast.Name('_unused', ast.Store())], ast.Store())
        return n


class UnpackInside(Rewrite):
    """for a, b in xs  ->  for item in xs: a, b = item"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Tuple):
            item = self.new('item')
            n.body.insert(0, ast.Assign([n.target], name(item)))
            n.target = ast.Name(item, ast.Store())
        return n


class Temporaries(Rewrite):
    """Arguments and operands are computed into names first."""
    def hoist(self, n):
        v, out = n.value, []

        def take(a):
            t = self.new('tmp')
            out.append(assign(t, a))
            return name(t)
        if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) \
                and all(k.arg for k in v.keywords):
            v.args = [take(a) if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript, ast.Attribute, ast.ListComp))
                      else a for a in v.args]
        elif isinstance(v, ast.BinOp):
            for side in ('left', 'right'):
                if isinstance(getattr(v, side), (ast.BinOp, ast.Call)):
                    setattr(v, side, take(getattr(v, side)))
        return out + [n]

    visit_Assign = visit_Return = visit_AugAssign = hoist

    def visit_ClassDef(self, n):
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                self.generic_visit(b)
        return n


class FlipComparisons(Rewrite):
    """a < b  ->  b > a"""
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
            ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP:
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops = [self.FLIP[type(n.ops[0])]()]
        return n


class ExtractBodies(Rewrite):
    """Every method hands its work to a helper method."""
    def visit_ClassDef(self, n):
        out = []
        for b in n.body:
            out.append(b)
            if not isinstance(b, ast.FunctionDef) or b.name.startswith('__') or b.decorator_list:
                continue
            a = b.args
            if not a.args or a.args[0].arg != 'self' or a.vararg or a.kwarg or a.kwonlyargs:
                continue
            if any(isinstance(m, ast.Yield) or isinstance(m, ast.Name) and m.id == 'super' for m in ast.walk(b)):
                continue
            h = copy.deepcopy(b)
            h.name = '_' + b.name.lstrip('_') + '_impl'
            h.args.defaults = []
            call = ast.Call(ast.Attribute(name('self'), h.name, ast.Load()), [name(x.arg) for x in a.args[1:]], [])
            b.body = [ast.Return(call)]
            out.append(h)
        n.body = out
        return n


class Blocks(Rewrite):
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n


class GuardClauses(Blocks):
    """No else after a branch that leaves."""
    def block(self, body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                rest, s.orelse = s.orelse, []
                out += self.block(rest)
        return out


class ExtendForAppend(Blocks):
    """for v in xs: x.append(e)  ->  x.extend([e for v in xs])"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and len(s.body) == 1 and re.match(r'[\w.]+\.append\(', ast.unparse(s.body[0])):
                c = s.body[0].value
                xs = ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                s = ast.Expr(ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()), [xs], []))
            out.append(s)
        return out


REWRITES = [SwapBranches, NameResult, UnrollComprehension, RenameLocals, Enumerate, UnpackInside, Temporaries,
            FlipComparisons, ExtractBodies, GuardClauses, ExtendForAppend]

RUN = ("import sys,importlib; sys.path.insert(0,%r); sys.setrecursionlimit(20000)\n"
       "from engine.verify import *\n"
       "R=Runner(%r); importlib.import_module('contracts.'+%r).contracts(R)\n"
       "print(R.summary())\n"
       "for o in R.obl.values():\n"
       "    if o.status!='proved': print(o.status,o.name)\n")


def main():
    ids = sorted(re.findall(r'c\d\d(?=\.py)', ' '.join(os.listdir(os.path.join(HERE, 'contracts')))))
    bad = 0
    for T in REWRITES:
        if sys.argv[1:] and T.__name__ not in sys.argv[1:]:
            continue
        d = tempfile.mkdtemp(prefix='rewrite-')
        try:
            pkg = os.path.join(d, 'SQcircuit')
            shutil.copytree(os.path.join(REPO, 'SQcircuit'), pkg, ignore=shutil.ignore_patterns('__pycache__'))
            for f in os.listdir(pkg):
                if f.endswith('.py'):
                    p = os.path.join(pkg, f)
                    with open(p) as h:
                        t = T().visit(ast.parse(h.read()))
                    with open(p, 'w') as h:
                        h.write(ast.unparse(ast.fix_missing_locations(t)))

            def one(c):
                r = subprocess.run([sys.executable, '-c', RUN % (HERE, c.upper(), c)], capture_output=True,
                                   text=True, env={**os.environ, 'VERIF_REPO': d})
                return r.stdout.splitlines() or ['error ' + r.stderr[-300:]]
            with ThreadPoolExecutor(6) as ex:
                res = list(ex.map(one, ids))
        finally:
            shutil.rmtree(d)
        und = [f'{c.upper()} {x}' for c, r in zip(ids, res) for x in r if x.startswith('undecided')]
        ref = [f'{c.upper()} {x}' for c, r in zip(ids, res) for x in r if x.startswith(('refuted', 'error'))]
        bad += len(ref)
        print(T.__name__, len(ids), 'modules', len(und), 'undecided', len(ref), 'refuted', und[:3] + ref[:5], flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
