"""Symbolic execution of the Python source of the repository.

The functions of /repo are parsed on every run and executed on symbolic values.
Branches on symbolic conditions are explored exhaustively; a loop over a
sequence of unknown length is summarised for a generic iteration (see loops.py).
"""
import ast
import os
from fractions import Fraction

from .terms import *
from .nc import NC
from .solve import Ctx
from .values import *


class PyRaise(Exception):
    """A Python exception raised by the executed code."""
    def __init__(self, exc):
        self.exc = exc


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class Infeasible(BaseException):
    pass


class NeedAcc(BaseException):
    def __init__(self, loc):
        self.loc = loc


class EngineLimit(Unsupported):
    pass


BUILTIN_EXC = {n: getattr(__import__('builtins'), n) for n in (
    'ValueError', 'KeyError', 'IndexError', 'TypeError', 'AttributeError', 'Exception',
    'NameError', 'NotImplementedError', 'AssertionError', 'RuntimeError', 'ZeroDivisionError',
    'FileNotFoundError', 'BaseException', 'ImportError', 'ArithmeticError', 'StopIteration')}

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'map', 'filter', 'sum', 'int', 'float', 'complex',
            'isinstance', 'issubclass', 'max', 'min', 'list', 'tuple', 'dict', 'set', 'abs',
            'round', 'print', 'str', 'hasattr', 'getattr', 'setattr', 'type', 'super', 'any',
            'all', 'sorted', 'reversed', 'bool', 'repr', 'callable', 'open', 'object', 'pow',
            'property', 'staticmethod', 'classmethod', 'iter', 'next', 'id', 'slice', 'divmod',
            'format', 'hash', 'vars', 'frozenset', 'NotImplemented'}


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<builtin {self.name}>'


class Env:
    __slots__ = ('vars', 'parent', 'mod', 'locals', 'globals', 'nonlocals', 'oid', 'func', 'cls')

    def __init__(self, parent, mod, locs=(), globs=(), nonl=(), func=None):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.locals, self.globals, self.nonlocals = set(locs), set(globs), set(nonl)
        self.oid = new_oid()
        self.func = func
        self.cls = None


class Explorer:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []

    def next(self):
        t = self.taken
        while t and not t[-1][1]:
            t.pop()
        if not t:
            return None
        t[-1] = [not t[-1][0], False]
        return t


_scope_cache = {}


def scope_of(node):
    """(locals, globals, nonlocals) of a function or lambda."""
    if node in _scope_cache:
        return _scope_cache[node]
    loc, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def tgt(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    loc -= glob | nonl
    _scope_cache[node] = (loc, glob, nonl)
    return _scope_cache[node]


class Interp:
    def __init__(self, repo, models):
        self.repo = repo
        self.models = models
        self.mods = {}
        self.facts = []
        self.decs = []
        self.first_facts = []
        self.indexed_lists = set()
        self.axioms = []
        self.trail = []
        self.expl = []
        self.depth = 0
        self.contracts = {}
        self.invariant = None           # of the loops it fits (loops.by_invariant)
        self.symbols = []
        self.active = None
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.famw = {}
        self.greatest = {}
        self.files = {}
        self.events = []
        self.steps = 0
        self.max_steps = 3_000_000
        self.callhook = None
        self.obligations = None     # callback for call preconditions
        self.kcount = 0
        self.src_lines = {}
        self.loading = False
        self.covered = set()
        models.install(self)

    # ------------------------------------------------------------ state
    def log(self, undo, loc):
        self.trail.append((undo, loc))

    def undo_to(self, mark):
        while len(self.trail) > mark:
            u, _ = self.trail.pop()
            u()

    def ctx(self):
        return Ctx(self.facts, self.axioms)

    def assume(self, p):
        if p == ONEP:
            return
        self.facts.append(p)
        self.log(lambda: self.facts.pop(), ('fact',))

    def decide(self, b):
        """Truth value of a symbolic boolean; forks if both are possible."""
        if isinstance(b, bool):
            return b
        p = b.p if isinstance(b, SBool) else b
        if p.is_zero():
            return False
        if p == ONEP:
            return True
        ctx = self.ctx()
        for a, rest in ctx.rewrites():
            from .solve import apply_rewrite
            q = apply_rewrite(p, a, rest)
            if q.is_zero():
                return False
            if q == ONEP:
                return True
        if p.key in {f.key for f in self.facts}:
            return True
        n = ind_not(p)
        if n.key in {f.key for f in self.facts}:
            return False
        if ctx.sat(p) == 'unsat':
            return False
        if ctx.sat(n) == 'unsat':
            return True
        if not self.expl:
            raise Unsupported('branch outside of an exploration')
        ex = self.expl[-1]
        i = len(ex.taken)
        if i < len(ex.prefix):
            ex.taken.append(ex.prefix[i])
        else:
            ex.taken.append([True, True])
        if len(ex.taken) > 60:
            raise EngineLimit('too many branches')
        c = ex.taken[i][0]
        d = p if c else n
        self.assume(d)
        self.decs.append(d)
        self.log(lambda: self.decs.pop(), ('dec',))
        return c

    def choose(self, label):
        """Non-deterministic boolean (both outcomes explored)."""
        return self.decide(ind_lit('=', Poly.atom(VAR(f'%choice_{label}', 'I')) - ONEP))

    def explore(self, fn, on_path, limit=600):
        """Run fn for every combination of branch outcomes."""
        prefix = []
        n = 0
        while True:
            mark = len(self.trail)
            ev = len(self.events)
            ex = Explorer(prefix)
            self.expl.append(ex)
            d = self.depth
            nf = len(self.facts)
            try:
                try:
                    r = ('ok', fn())
                except PyRaise as e:
                    r = ('raise', e.exc)
                except Infeasible:
                    r = None
                if r is not None:
                    on_path(r, self.facts[nf:])
            finally:
                self.depth = d
                self.expl.remove(ex)
                self.undo_to(mark)
                del self.events[ev:]
            n += 1
            if n > limit:
                raise EngineLimit('too many paths')
            prefix = ex.next()
            if prefix is None:
                return n

    def fresh(self, name='k', sort='I', pos=False):
        self.kcount += 1
        return VAR(f'%{name}{self.kcount}', sort, pos)

    def raise_(self, cls, *args):
        raise PyRaise(cls(*args))

    # ---------------------------------------------------------- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split('.')
        path = os.path.join(self.repo, *rel)
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if len(rel) > 1:
            self.load('.'.join(rel[:-1]))
            if name in self.mods:
                return self.mods[name]
        if not os.path.exists(path):
            raise Unsupported(f'module {name} not found')
        m = SMod(name, path)
        self.mods[name] = m
        src = open(path).read()
        self.src_lines[path] = src.split('\n')
        tree = ast.parse(src, path)
        env = Env(None, m)
        m.ns['__name__'] = name
        was, self.loading = self.loading, True
        try:
            self.exec_block(tree.body, env)
        finally:
            self.loading = was
        if len(rel) > 1:
            self.mods['.'.join(rel[:-1])].ns.setdefault(rel[-1], m)
        return m

    def import_(self, name):
        if name == 'SQcircuit' or name.startswith('SQcircuit.'):
            return self.load(name)
        return Ext(self.models.modname(name))

    # -------------------------------------------------------- variables
    def lookup(self, env, name):
        e = env
        if name in env.globals:
            e = None
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                while isinstance(v, Poison) and v.at is not None:
                    v = v.at()
                    if type(v).__name__ != 'Same':
                        self.set_in(e.vars, name, v, ('env', e, name))
                if isinstance(v, Poison):
                    if v.loc is not None:
                        raise NeedAcc(v.loc)
                    raise Unsupported(f'{name}: {v.why}')
                return v
            if name in e.locals and e is env and name not in e.nonlocals:
                raise PyRaise(NameError(f'local variable {name} referenced before assignment'))
            e = e.parent
        ns = env.mod.ns
        if name in ns:
            v = ns[name]
            if isinstance(v, Poison):
                if v.loc is not None:
                    raise NeedAcc(v.loc)
                raise Unsupported(f'{name}: {v.why}')
            return v
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        if name in BUILTINS:
            return Builtin(name)
        if name == '__file__':
            return env.mod.path
        raise PyRaise(NameError(name))

    def set_var(self, env, name, v):
        e = env
        if name in env.globals:
            e = None
        elif name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.locals:
                e = e.parent
        if e is None or (e.parent is None and e.func is None and e.cls is None):
            self.set_ns(env.mod, name, v)
        else:
            self.set_in(e.vars, name, v, ('env', e, name))

    def set_ns(self, mod, name, v):
        self.set_in(mod.ns, name, v, ('ns', mod, name))

    _MISSING = object()

    def set_in(self, d, key, v, loc):
        if self.loading:
            d[key] = v
            return
        old = d.get(key, self._MISSING)

        def undo():
            if old is self._MISSING:
                d.pop(key, None)
            else:
                d[key] = old
        d[key] = v
        self.log(undo, loc)

    def set_items(self, lst, items):
        """Replace the content of a list or dict object."""
        if getattr(lst, 'frozen', False):
            raise Unsupported('mutation of an element of a symbolic sequence')
        old = lst.items
        lst.items = items

        def undo():
            lst.items = old
        self.log(undo, ('list' if isinstance(lst, SList) else 'dict', lst))

    def set_store(self, arr, val):
        if arr.frozen:
            raise Unsupported('mutation of an element of a symbolic sequence')
        if arr.view is not None:
            if arr.view[2] is None:
                raise Unsupported('assignment through this view')
            arr.view[2](val)
            return
        st = arr.store
        old = st.val
        st.val = val

        def undo():
            st.val = old
        self.log(undo, ('store', st, arr))

    def set_fun(self, d, val):
        old = d.val
        d.val = val

        def undo():
            d.val = old
        self.log(undo, ('fun', d))

    # ------------------------------------------------------- statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise EngineLimit('step budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            v = self.models.binop(self, type(s.op).__name__, old, self.eval(s.value, env), True)
            self.set_var(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            v = self.models.binop(self, type(s.op).__name__, old, self.eval(s.value, env), True)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            idx = self.eval(t.slice, env)
            old = self.models.getitem(self, o, idx)
            v = self.models.binop(self, type(s.op).__name__, old, self.eval(s.value, env), True)
            self.models.setitem(self, o, idx, v)
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_var(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.models.setitem(self, o, self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.models.unpack(self, v, len(t.elts),
                                      any(isinstance(x, ast.Starred) for x in t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Unsupported('assignment target')

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while True:
            if not self.truth(self.eval(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 40:
                raise EngineLimit('while loop')
            try:
                self.exec_block(s.body, env)
            except BreakX:
                return
            except ContinueX:
                continue

    def s_For(self, s, env):
        from .loops import run_loop, by_invariant
        src = self.eval(s.iter, env)
        it = self.models.iter_items(self, src)

        def body(item):
            if isinstance(src, ExtObj) and src.kind == 'nditer':
                src.data['cur'] = item.p
                item = self.models.getitem(self, src.data['arr'], self.getattr(src, 'multi_index'))
            self.assign(s.target, item, env)
            self.exec_block(s.body, env)
        if self.invariant is not None and by_invariant(self, self.invariant, s, env, it, body):
            broke = False
        else:
            broke = run_loop(self, it, body)
        if not broke:
            self.exec_block(s.orelse, env)

    def s_Return(self, s, env):
        raise ReturnX(None if s.value is None else self.eval(s.value, env))

    def s_Break(self, s, env):
        raise BreakX()

    def s_Continue(self, s, env):
        raise ContinueX()

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'cur_exc', None)
            raise PyRaise(cur)
        e = self.eval(s.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        elif isinstance(e, SClass):
            e = self.call(e, [], {})
        if s.cause is not None:
            self.eval(s.cause, env)
        self.raised = e
        raise PyRaise(e)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.raised = AssertionError()
            raise PyRaise(self.raised)

    def exc_matches(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, x) for x in spec)
        if isinstance(spec, type):
            if isinstance(exc, SObj):
                return any(isinstance(b, type) and issubclass(b, spec) for b in exc.cls.mro)
            return isinstance(exc, spec)
        if isinstance(spec, SClass):
            return isinstance(exc, SObj) and spec in exc.cls.mro
        if isinstance(spec, Ext):
            return isinstance(exc, ExtObj) and exc.kind == spec.name
        raise Unsupported('except clause')

    def s_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, env)):
                        if h.name:
                            self.set_var(env, h.name, e.exc)
                        old = getattr(self, 'cur_exc', None)
                        self.cur_exc = e.exc
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, ReturnX, BreakX, ContinueX):
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def s_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(s.body, env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Name):
                self.set_var(env, t.id, Poison('deleted'))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, SObj) and t.attr in o.attrs:
                    old = o.attrs.pop(t.attr)
                    self.log(lambda: o.attrs.__setitem__(t.attr, old), ('attr', o, t.attr))
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def s_Import(self, s, env):
        for al in s.names:
            m = self.import_(al.name)
            if al.asname:
                self.set_var(env, al.asname, m)
            else:
                top = al.name.split('.')[0]
                self.set_var(env, top, self.import_(top) if top != al.name else m)

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            base = env.mod.name.split('.')
            if not env.mod.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.import_(name)
        for al in s.names:
            if al.name == '*':
                if isinstance(m, SMod):
                    for k, v in list(m.ns.items()):
                        if not k.startswith('_'):
                            self.set_var(env, k, v)
                continue
            if isinstance(m, SMod):
                if al.name in m.ns:
                    v = m.ns[al.name]
                else:
                    v = self.load(m.name + '.' + al.name)
            else:
                v = self.models.ext_attr(self, m, al.name)
            self.set_var(env, al.asname or al.name, v)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        self.set_var(env, s.name, f)

    def make_func(self, s, env):
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
               if d is not None}
        name = getattr(s, 'name', '<lambda>')
        cls = env.cls
        if cls is not None:
            qual = f'{cls}.{name}'
        elif env.func is not None:
            qual = f'{env.func.qual}.<locals>.{name}'
        else:
            qual = name
        closure = env
        while closure is not None and (closure.cls is not None):
            closure = closure.parent
        if closure is not None and closure.func is None:
            closure = None
        mname = env.mod.name.split('.')[-1]
        f = SFunc(s, env.mod, closure, f'{mname}.{qual}' if env.func is None else qual,
                  defaults, kwd)
        return f

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name):
            if d.id == 'property':
                return SProp(f)
            if d.id == 'staticmethod':
                return SStatic(f)
            if d.id == 'classmethod':
                return SClassM(f)
            if d.id == 'once_differentiable':
                return f
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            p = self.eval(d.value, env)
            return SProp(p.get, f)
        v = self.eval(d, env)
        if isinstance(v, Ext) and v.name in self.models.TRANSPARENT_DECORATORS:
            return f
        return self.call(v, [f], {})

    def s_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        ce = Env(env, env.mod)
        ce.cls = s.name
        ce.func = env.func
        self.exec_block_cls(s.body, ce)
        c = SClass(s.name, bases, ce.vars, env.mod)
        for v in c.ns.values():
            for f in self._funcs_of(v):
                f.cls = c
        for d in reversed(s.decorator_list):
            raise Unsupported('class decorator')
        self.set_var(env, s.name, c)

    @staticmethod
    def _funcs_of(v):
        if isinstance(v, SFunc):
            return [v]
        if isinstance(v, SProp):
            return [x for x in (v.get, v.set) if isinstance(x, SFunc)]
        if isinstance(v, (SStatic, SClassM)) and isinstance(v.f, SFunc):
            return [v.f]
        return []

    def exec_block_cls(self, body, ce):
        ce.locals = set()
        for s in body:
            self.exec(s, ce)

    # ------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, float):
            lines = self.src_lines.get(env.mod.path)
            txt = None
            if lines and hasattr(e, 'end_col_offset') and e.lineno == e.end_lineno:
                txt = lines[e.lineno - 1].encode()[e.col_offset:e.end_col_offset].decode()
            try:
                fr = Fraction(txt.replace('_', '')) if txt else Fraction(repr(v))
            except (ValueError, TypeError):
                fr = Fraction(repr(v))
            return SNum(Poly.const(fr), 'float')
        if isinstance(v, complex):
            return SNum(IUNIT.scale(Fraction(repr(v.imag))), 'complex')
        raise Unsupported('constant')

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_BinOp(self, e, env):
        return self.models.binop(self, type(e.op).__name__, self.eval(e.left, env),
                                 self.eval(e.right, env), False)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        return self.models.unop(self, type(e.op).__name__, v)

    def not_(self, v):
        if isinstance(v, SBool):
            return mkbool(ind_not(v.p))
        return not self.truth(v)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            v = self.models.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return res

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.models.getitem(self, self.eval(e.value, env), self.eval(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out += self.models.iter_items(self, self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Tuple(self, e, env):
        return self.models.mk_tuple(self, self.elts(e.elts, env))

    def e_List(self, e, env):
        return SList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return ExtObj('set', items=self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                for it in src.items:
                    d.items.append(it)
            else:
                kk = self.eval(k, env)
                self.models.dict_set(self, d, kk, self.eval(v, env), init=True)
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec is not None else ''
                parts.append(self.models.fmt(self, x, spec, v.conversion))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SStr(tuple(parts))

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    def comp(self, gens, env, emit):
        """Run comprehension clauses; emit(env) at the innermost level."""
        from .loops import run_loop
        loc = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    loc.add(n.id)
        ce = Env(env, env.mod, loc, env.globals, (), None)
        ce.func = env.func or True

        def level(i):
            if i == len(gens):
                emit(ce)
                return
            g = gens[i]
            it = self.models.iter_items(self, self.eval(g.iter, ce if i else env))

            def body(item):
                self.assign(g.target, item, ce)
                for c in g.ifs:
                    if not self.truth(self.eval(c, ce)):
                        return
                level(i + 1)
            run_loop(self, it, body)
        level(0)

    def e_ListComp(self, e, env):
        out = SList([])
        self.comp(e.generators, env,
                  lambda ce: self.set_items(out, out.items + [self.eval(e.elt, ce)]))
        return out

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, env):
        d = SDict()

        def emit(ce):
            k = self.eval(e.key, ce)
            self.models.dict_set(self, d, k, self.eval(e.value, ce))
        self.comp(e.generators, env, emit)
        return d

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = Builtin('super')
        else:
            f = self.eval(e.func, env)
        if isinstance(f, Builtin) and f.name == 'super' and not e.args:
            en = env
            while not isinstance(en.func, SFunc):
                en = en.parent
            fn = en.func
            first = fn.node.args.args[0].arg
            return ExtObj('super', cls=fn.cls, obj=en.vars[first])
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                for kk, vv in v.items:
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, SFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, SBound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, SClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, (SStatic,)):
            return self.call(f.f, args, kw)
        if isinstance(f, Builtin):
            return self.models.call_builtin(self, f.name, args, kw)
        if isinstance(f, BMeth):
            return self.models.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.name, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a for a in args if isinstance(a, (str, int))])
        if isinstance(f, UFunInst):
            return f.ufun.apply(self, f.params, args)
        if isinstance(f, UFun):
            return f.apply(self, (), args)
        if callable(f) and getattr(f, '_vp_native', False):
            return f(self, args, kw)
        if isinstance(f, (FamObj, SObj)):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kw)
        if f is None or isinstance(f, (int, str, SNum, SList, SDict, Arr, tuple)):
            raise PyRaise(TypeError('object is not callable'))
        raise Unsupported(f'call of {f!r}')

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None and not (self.active == f.qual and self.depth == 0):
            r = c.apply(self, f, args, kw)
            if r is not NotImplemented:
                self.used_contracts.add(f.qual)
                return r
        return self.run_func(f, args, kw)

    def bind(self, f, args, kw):
        a = f.node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if any(isinstance(x, Seg) for x in args):
            if a.vararg is None or pos:
                raise Unsupported('sequence of unknown length as arguments')
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise(TypeError(f'{f.qual}: too many arguments'))
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = self.models.mk_tuple(self, args[len(pos):])
        kwx = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    raise PyRaise(TypeError(f'{f.qual}: multiple values for {k}'))
                out[k] = v
            elif a.kwarg is not None:
                kwx[k] = v
            else:
                raise PyRaise(TypeError(f'{f.qual}: unexpected argument {k}'))
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:] if nd else [], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise PyRaise(TypeError(f'{f.qual}: missing argument {n}'))
        if a.kwarg is not None:
            out[a.kwarg.arg] = SDict([[k, v] for k, v in kwx.items()])
        return out

    def run_func(self, f, args, kw):
        if self.depth > 60:
            raise EngineLimit('recursion')
        loc, glob, nonl = scope_of(f.node)
        env = Env(f.env, f.mod, loc, glob, nonl, f)
        env.vars.update(self.bind(f, args, kw))
        if not isinstance(f.node, ast.Lambda):
            self.inlined.add(f.qual)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if self._is_generator(f.node):
                raise Unsupported('generator function')
            try:
                self.exec_block(f.node.body, env)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    _gen_cache = {}

    def _is_generator(self, node):
        if node not in self._gen_cache:
            self._gen_cache[node] = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                                        for n in ast.walk(node))
        return self._gen_cache[node]

    def instantiate(self, cls, args, kw):
        h = self.models.instantiate(self, cls, args, kw)
        if h is not NotImplemented:
            return h
        o = SObj(cls)
        init = self.class_attr(cls, '__init__')
        if init is not None:
            self.call(SBound(init, o), args, kw)
        elif any(isinstance(b, Ext) for b in cls.mro):
            return ExtObj('inst:' + cls.name, args=args, kw=kw)
        elif args or kw:
            if not any(isinstance(b, type) for b in cls.mro):
                raise PyRaise(TypeError('unexpected arguments'))
        return o

    # ------------------------------------------------------- attributes
    def class_attr(self, cls, name):
        for c in cls.mro:
            if isinstance(c, SClass):
                if name in c.ns:
                    return c.ns[name]
        return None

    def bind_attr(self, a, obj, cls):
        if isinstance(a, SProp):
            return self.call(a.get, [obj], {})
        if isinstance(a, SStatic):
            return a.f
        if isinstance(a, SClassM):
            return SBound(a.f, cls)
        if isinstance(a, SFunc):
            return SBound(a, obj)
        return a

    def getattr(self, o, name):
        if isinstance(o, SObj):
            a = self.class_attr(o.cls, name)
            if isinstance(a, SProp):
                return self.bind_attr(a, o, o.cls)
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    if v.loc is not None:
                        raise NeedAcc(v.loc)
                    raise Unsupported(f'attribute {name}: {v.why}')
                return v
            if a is not None:
                return self.bind_attr(a, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return ExtObj('__dict__', obj=o)
            h = self.models.obj_attr(self, o, name)
            if h is not NotImplemented:
                return h
            raise PyRaise(AttributeError(f'{o.cls.name} has no attribute {name}'))
        if isinstance(o, FamObj):
            return self.fam_getattr(o, name)
        if isinstance(o, SMod):
            if name in o.ns:
                v = o.ns[name]
                if isinstance(v, Poison):
                    if v.loc is not None:
                        raise NeedAcc(v.loc)
                    raise Unsupported(f'{o.name}.{name}: {v.why}')
                return v
            sub = os.path.join(os.path.dirname(o.path), name + '.py')
            if o.path.endswith('__init__.py') and os.path.exists(sub):
                return self.load(o.name + '.' + name)
            raise PyRaise(AttributeError(f'module {o.name} has no attribute {name}'))
        if isinstance(o, SClass):
            if name == '__name__':
                return o.name
            a = self.class_attr(o, name)
            if a is None:
                h = self.models.class_ext_attr(self, o, name)
                if h is not NotImplemented:
                    return h
                raise PyRaise(AttributeError(f'{o.name} has no attribute {name}'))
            if isinstance(a, SStatic):
                return a.f
            if isinstance(a, SClassM):
                return SBound(a.f, o)
            return a
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, name)
        return self.models.getattr(self, o, name)

    def fam_cls(self, o):
        """Class of a family member, deciding its tag if necessary."""
        cl = o.fam.classes
        if len(cl) == 1:
            return cl[0]
        t = o.fam.tagfn(o.ident)
        for i, c in enumerate(cl[:-1]):
            if self.decide(ind_lit('=', t - Poly.const(i))):
                return c
        return cl[-1]

    def fam_getattr(self, o, name):
        ws = self.famw.get((o.fam.name, name))
        if ws:
            for w in reversed(ws):
                v = self.fam_written(w, o)
                if v is not NotImplemented:
                    return v
        if name in o.fam.attrs:
            if any(k[0] == o.fam.name for k in self.famw):
                # a property comes before what the family says
                ps = [self.class_attr(c, name) for c in o.fam.classes]
                if isinstance(ps[0], SProp) and all(p is ps[0] for p in ps):
                    try:
                        return self.bind_attr(ps[0], o, o.fam.classes[0])
                    except PyRaise as e:
                        if not isinstance(e.exc, AttributeError):
                            raise
            v = o.fam.attrs[name](self, o)
            if v is not NotImplemented:
                return v
        cls = self.fam_cls(o)
        if name == '__class__':
            return cls
        a = self.class_attr(cls, name)
        if a is None:
            raise PyRaise(AttributeError(f'{cls.name} has no attribute {name}'))
        return self.bind_attr(a, o, cls)

    def fam_written(self, w, o):
        """Value a store gave to the attribute of this object."""
        if not isinstance(w, tuple):
            raise Unsupported('attribute written in an earlier iteration')
        ident, v = w[:2]
        if len(w) == 2:
            if ident == o.ident or self.decide(ind_lit('=', ident - o.ident)):
                return v
            return NotImplemented
        from . import loops as LP
        k, N, cond = w[2]
        g = cond * ind_lit('=', ident - o.ident)
        if g.is_zero():
            return NotImplemented
        u = LP._unique(g, k)
        if u is None:
            if not self.decide(ind_lit('<=', ONEP - sum_range(k, ZEROP, N, g))):
                return NotImplemented
            u = Poly.atom(self.fresh('key'))
            self.assume(ind_lit('<=', -u))
            self.assume(ind_lit('<=', u - N + ONEP))
            for f in LP._factors(g.subst({k: u})):
                self.assume(f)
            return subst_value(v, {k: u})
        if self.decide(ind_lit('<=', -u) * ind_lit('<=', u - N + ONEP) * g.subst({k: u})):
            return subst_value(v, {k: u})
        return NotImplemented

    def hasattr(self, o, name):
        if isinstance(o, FamObj):
            if (o.fam.name, name) in self.famw or name in o.fam.attrs:
                try:
                    return o.fam.attrs[name](self, o) is not NotImplemented \
                        if name in o.fam.attrs else True
                except PyRaise:
                    return False
            return self.class_attr(self.fam_cls(o), name) is not None
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            a = self.class_attr(o.cls, name)
            if isinstance(a, SProp):
                if a.set is None:
                    raise PyRaise(AttributeError('cannot set attribute'))
                self.call(a.set, [o, v], {})
                return
            if name == '__dict__':
                return self.models.set_dict(self, o, v)
            self.set_in(o.attrs, name, v, ('attr', o, name))
            return
        if isinstance(o, FamObj):
            cls = o.fam.classes[0] if len(o.fam.classes) == 1 else self.fam_cls(o)
            a = self.class_attr(cls, name)
            if isinstance(a, SProp):
                self.call(a.set, [o, v], {})
                return
            key = (o.fam.name, name)
            old = self.famw.get(key)
            self.famw[key] = (old or []) + [(o.ident, v)]

            def undo():
                if old is None:
                    self.famw.pop(key, None)
                else:
                    self.famw[key] = old
            self.log(undo, ('famw', o.fam.name, name, o.ident))
            return
        if isinstance(o, SMod):
            self.set_ns(o, name, v)
            return
        if isinstance(o, SClass):
            self.set_in(o.ns, name, v, ('clsattr', o, name))
            return
        self.models.setattr(self, o, name, v)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return self.decide(v.p)
        if isinstance(v, SNum):
            return self.decide(ind_lit('!=', v.p))
        return self.models.truth(self, v)
