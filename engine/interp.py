"""Symbolic interpreter over the ASTs of the real functions in /repo.

The source of every module is read and parsed on every run; nothing is transcribed by hand.  Loops over symbolic
ranges become sums/products/lists/recurrences, Python-level branches are explored path by path.
"""
import ast
import os
from .terms import *
from .solver import *
from . import nf as NF
from .nf import Undecided, prove_eq
from .values import *

REPO = os.environ.get('VERIF_REPO', '/repo')


class Env:
    def __init__(self, parent=None, vars=None):
        self.vars = vars if vars is not None else {}
        self.parent = parent

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)

    def has(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return True
            e = e.parent
        return False


class Closure:
    def __init__(self, node, env, defaults, kwdefaults, module, qualname, interp):
        self.node, self.env, self.defaults, self.kwdefaults = node, env, defaults, kwdefaults
        self.module, self.qualname, self.interp = module, qualname, interp
        self.bound = None

    def __repr__(self):
        return f'<closure {self.qualname}>'

    def __call__(self, *a, **k):
        return self.interp.call(self, list(a), k)


class Filtered:
    """the elements of a symbolic list that satisfy a condition"""

    def __init__(self, n, var, cond, value):
        self.n, self.var, self.cond, self.value = n, var, cond, value


def const_bool(b):
    return TRUE if b else FALSE


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<builtin {self.name}>'

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Explorer:
    """Depth-first exploration of the decisions whose condition mentions the scope variables."""

    def __init__(self, interp, scope, top=False):
        self.interp, self.scope, self.top = interp, frozenset(scope), top
        self.decisions = []
        self.pos = 0
        self.npaths = 0

    def decide(self, c):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
        else:
            d = True
            self.decisions.append([True, c])
        self.pos += 1
        lit = c if d else not_(c)
        Ctx.stack.append(lit)
        self.pushed.append(lit)
        return d

    def run(self, thunk, catch=False):
        """yield (path condition, value) for every path"""
        out = []
        MAXP = 64
        base = len(Ctx.stack)
        while True:
            self.pos = 0
            self.pushed = []
            self.interp.explorers.append(self)
            try:
                try:
                    v = thunk()
                    kind = 'ok'
                except Raised as e:
                    if not catch:
                        raise
                    v, kind = e, 'raise'
                out.append((and_(*self.pushed) if self.pushed else TRUE, kind, v, list(self.pushed)))
            finally:
                self.interp.explorers.pop()
                del Ctx.stack[base:]
            self.npaths += 1
            if self.npaths > MAXP:
                raise Undecided('too many paths')
            # next path
            del self.decisions[self.pos:]
            while self.decisions and not self.decisions[-1][0]:
                self.decisions.pop()
            if not self.decisions:
                return out
            self.decisions[-1][0] = False


def merge(cases):
    """[(cond, value)] covering all cases -> value"""
    if len(cases) == 1:
        return cases[0][1]
    v0 = cases[-1][1]
    vals = [v for _, v in cases]
    if all(v is v0 for v in vals):
        return v0
    if any(v is POISON for v in vals):
        return POISON
    if all(is_scalar(v) for v in vals):
        if all(not isinstance(v, T) for v in vals) and all(type(v) is type(v0) and v == v0 for v in vals):
            return v0
        r = toT(v0)
        isb = all(toT(v).sort == 'B' for v in vals)
        conv = toT if isb else numT
        r = conv(v0)
        for c, v in reversed(cases[:-1]):
            r = ite(c, conv(v), r)
        return r
    if all(isinstance(v, Tensor) for v in vals):
        if len({v.ndim for v in vals}) != 1:
            raise Undecided('merge of different ranks')
        for v in vals:
            for a, b in zip(v.shape, v0.shape):
                if not prove_eq(a, b):
                    raise Undecided('merge of different shapes')
        vs = tuple(fresh('i', 'I', 0, s) for s in v0.shape)
        r = v0.at(*vs)
        for c, v in reversed(cases[:-1]):
            r = ite(c, v.at(*vs), r)
        dts = [v.dt for v in vals]
        dt = dts[0] if len(set(dts)) == 1 else 'f'
        for x in dts:
            dt = x if hasattr(x, 'narrow') else dt
        return Tensor(v0.shape, vs, r, dt, any(v.np for v in vals))
    if all(isinstance(v, (Tensor,)) or is_scalar(v) for v in vals):
        raise Undecided('merge of scalar and array')
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(merge([(c, v[k]) for c, v in cases]) for k in range(len(v0)))
    if all(isinstance(v, list) for v in vals) and len({len(v) for v in vals}) == 1:
        return [merge([(c, v[k]) for c, v in cases]) for k in range(len(v0))]
    if all(isinstance(v, str) for v in vals) and len(set(vals)) == 1:
        return v0
    if all(v is None for v in vals):
        return None
    raise Undecided('cannot merge values of different kinds')


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.explorers = []
        self.contracts = {}      # qualname -> callable(interp, args, kwargs) -> value
        self.target = None       # qualname being verified (its own body is used, except on recursion)
        self.depth = 0
        self.frame_violations = []
        self.shared = {}
        self.used_contracts = set()
        self.functions_seen = {}   # qualname -> (file, line, sha)
        self.loop_contracts = {}
        from . import models
        self.models = models
        models.install(self)

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            raise Undecided(f'module {name} not found')
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src)
        env = Env(self.builtins_env(), {})
        env.modname = name
        env.path = path
        env.source = src
        self.modules[name] = env
        env.pending = {}
        for st in tree.body:
            self.exec_module_stmt(st, env, name)
        for nm, v in list(env.vars.items()):
            self.mark_shared(v, f'module variable {nm}')
        return env

    def mark_shared(self, v, what):
        """objects that survive a call: a write to them would make results depend on earlier calls"""
        if isinstance(v, (list, dict)):
            self.shared[id(v)] = (v, what)
        elif isinstance(v, Tensor) and v.np:
            v.isinput, v.name = True, what
        elif isinstance(v, Closure):
            for d in list(v.defaults or ()) + list(v.kwdefaults.values() if isinstance(v.kwdefaults, dict) else (v.kwdefaults or ())):
                if isinstance(d, (list, dict, Tensor)):
                    self.mark_shared(d, f'default of {v.qualname}')
        elif isinstance(v, Builtin) and isinstance(getattr(v, 'inner', None), Closure):
            self.mark_shared(v.inner, what)

    def check_shared(self, v):
        if id(v) in self.shared:
            raise Undecided(f'changes state shared between calls ({self.shared[id(v)][1]})')

    def exec_module_stmt(self, st, env, name):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            try:
                self.exec_stmt(st, env)
            except Undecided as e:
                for n in self.stmt_names(st):
                    env.vars[n] = Poison(f'{n}: {e}')
            return
        try:
            self.exec_stmt(st, env)
        except Undecided as e:
            for n in self.stmt_names(st):
                env.vars[n] = Poison(f'{n}: {e}')

    def stmt_names(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return [st.name]
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return [(a.asname or a.name).split('.')[0] for a in st.names]
        out = []
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)
        return out

    def builtins_env(self):
        if not hasattr(self, '_benv'):
            self._benv = Env(None, dict(self.models.BUILTINS(self)))
        return self._benv

    def function(self, qual):
        """'mfs.x.y:f' or 'mfs.x.y:Class.f'"""
        mod, name = qual.split(':')
        env = self.load(mod)
        parts = name.split('.')
        if parts[0] not in env.vars:
            raise MissingFunction(qual)
        v = env.vars[parts[0]]
        for p in parts[1:]:
            if isinstance(v, ClassObj):
                if p not in v.methods:
                    raise MissingFunction(qual)
                v = self.class_attr(v, p)
            else:
                raise MissingFunction(qual)
        return v

    # ------------------------------------------------------------------ decisions
    def truth(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, tuple, list, dict)):
            return bool(v)
        if isinstance(v, Tensor):
            if v.ndim == 0:
                v = v.at()
            else:
                if all(s.op == 'const' and s.args[0] == 1 for s in v.shape):
                    v = v.at(*[ZERO] * v.ndim)
                else:
                    raise Raised('ValueError', 'truth value of an array')
        if isinstance(v, SymList):
            return self.truth(lt(ZERO, v.n))
        if isinstance(v, T):
            if v.sort != 'B':
                v = not_(eq(v, ZERO))
            return self.decide(v)
        if isinstance(v, (Closure, Builtin, OpaqueFn, Instance, ClassObj, Mod)):
            return True
        raise Undecided(f'truth of {type(v).__name__}')

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op in ('and', 'or'):
            r = c.op == 'and'
            for d in c.args:
                if self.decide(d) != r:
                    return not r
            return r
        if c.op == 'not':
            return not self.decide(c.args[0])
        try:
            s = NF.simp_cond(c)
        except Undecided:
            s = c
        if s is TRUE:
            return True
        if s is FALSE:
            return False
        if not real_cond(s):
            if proves(s):
                return True
            if refutes(s):
                return False
        if not self.explorers:
            raise Undecided('decision outside exploration')
        fv = s.fv
        for e in reversed(self.explorers):
            if e.scope & fv or e.top:
                return e.decide(s)
        raise Undecided('no explorer')

    def local(self, scope, conds, thunk):
        """Evaluate thunk under conds with local path exploration over scope variables; merged value."""
        ex = Explorer(self, scope)
        with assuming(*conds):
            outs = ex.run(thunk)
        return merge([(c, v) for c, k, v, _ in outs])

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, (Builtin, OpaqueFn)):
            return f.fn(*args, **kwargs)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Poison):
            raise Undecided(f.msg)
        if callable(f) and not isinstance(f, (T, Tensor)):
            return f(*args, **kwargs)
        raise Raised('TypeError', f'not callable: {f!r}')

    def instantiate(self, cls, args, kwargs):
        if cls.fields is None:
            raise Undecided(f'instantiating {cls.name}')
        fields = {}
        for n, a in zip(cls.fields, args):
            fields[n] = a
        for k, v in kwargs.items():
            if k not in cls.fields:
                raise Raised('TypeError', f'unexpected field {k}')
            fields[k] = v
        for n in cls.fields:
            if n not in fields:
                if n in cls.defaults:
                    fields[n] = cls.defaults[n]
                else:
                    raise Raised('TypeError', f'missing field {n}')
        return Instance(cls, fields)

    def class_attr(self, cls, name, inst=None):
        kind, f = cls.methods[name]
        if kind == 'static':
            return f
        if kind == 'class':
            return BoundMethod(f, cls, self)
        return BoundMethod(f, inst, self) if inst is not None else f

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos):
            if a.vararg is None:
                raise Raised('TypeError', f'too many arguments for {f.qualname}')
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in env:
                    raise Raised('TypeError', f'multiple values for {k}')
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Raised('TypeError', f'unexpected keyword {k} for {f.qualname}')
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            if n not in env:
                env[n] = d
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env and d is not NODEFAULT:
                env[x.arg] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise Raised('TypeError', f'missing argument {n} of {f.qualname}')
        return env

    def call_closure(self, f, args, kwargs):
        q = f.qualname
        c = self.contracts.get(q)
        if c is not None and not (q == self.target and self.depth_of(q) == 0):
            self.used_contracts.add(q)
            env = self.bind(f, args, kwargs)
            return c(self, env)
        if self.depth > 60:
            raise Undecided('recursion too deep')
        env = Env(f.env, self.bind(f, args, kwargs))
        env.qual = q
        self.depth += 1
        self.callstack.append(q)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            self.note(f)
            try:
                for st in f.node.body:
                    self.exec_stmt(st, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.callstack.pop()

    callstack = []

    def depth_of(self, q):
        return sum(1 for x in self.callstack if x == q)

    def note(self, f):
        if f.qualname not in self.functions_seen:
            self.functions_seen[f.qualname] = f.node.lineno

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(st).__name__}')
        return m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise _Break()

    def st_Continue(self, st, env):
        raise _Continue()

    def st_Raise(self, st, env):
        name = 'Exception'
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        raise Raised(name)

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise Raised('AssertionError')

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Import(self, st, env):
        for a in st.names:
            if a.asname:
                env.vars[a.asname] = self.import_mod(a.name)
            else:
                env.vars[a.name.split('.')[0]] = self.import_mod(a.name.split('.')[0])

    def import_mod(self, name):
        if name.split('.')[0] == 'mfs':
            return RepoMod(self, name)
        return Mod(name)

    def st_ImportFrom(self, st, env):
        mod = st.module or ''
        if st.level:
            e = env
            while not hasattr(e, 'modname'):
                e = e.parent
            base = e.modname.split('.')
            if not e.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)] if st.level > 1 else base
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            nm = a.asname or a.name
            if mod.split('.')[0] == 'mfs':
                env.vars[nm] = LazyImport(self, mod, a.name)
            else:
                env.vars[nm] = self.models.resolve(self, mod + '.' + a.name)

    def st_FunctionDef(self, st, env):
        f = self.make_closure(st, env, st.name)
        v = f
        for dec in reversed(st.decorator_list):
            d = self.eval(dec, env)
            v = self.call(d, [v])
            if isinstance(v, Builtin):
                v.qualname = f.qualname
        env.vars[st.name] = self.maybe_contract(f, v)

    def maybe_contract(self, f, v):
        """A decorated function with a contract is replaced at call sites through its final value."""
        if v is f:
            return v
        q = f.qualname
        interp = self

        def call(*a, **k):
            c = interp.contracts.get(q + '!')
            if c is not None and q != interp.target:
                interp.used_contracts.add(q)
                return c(interp, interp.bind(f, list(a), k))
            return interp.call(v, list(a), k)
        b = Builtin(q, call)
        b.inner = f
        return b

    def make_closure(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [self.eval(d, env) if d is not None else NODEFAULT for d in a.kw_defaults]
        e = env
        prefix = ''
        while e is not None and not hasattr(e, 'modname'):
            if hasattr(e, 'qual') and not prefix:
                prefix = e.qual.split(':')[1] + '.'
            e = e.parent
        mod = e.modname if e is not None else '?'
        if hasattr(env, 'clsname'):
            prefix = env.clsname + '.'
        return Closure(node, env, defaults, kwd, mod, f'{mod}:{prefix}{name}', self)

    def st_ClassDef(self, st, env):
        fields, defaults, methods = [], {}, {}
        cenv = Env(env, {})
        cenv.clsname = st.name
        isnt = any(self.base_name(b) == 'NamedTuple' for b in st.bases)
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields.append(s.target.id)
                if s.value is not None:
                    defaults[s.target.id] = self.eval(s.value, env)
            elif isinstance(s, ast.FunctionDef):
                kind = 'inst'
                for d in s.decorator_list:
                    n = self.base_name(d)
                    if n == 'staticmethod':
                        kind = 'static'
                    elif n == 'classmethod':
                        kind = 'class'
                    elif n == 'property':
                        kind = 'prop'
                    else:
                        raise Undecided(f'decorator {n} in class')
                f = self.make_closure(s, cenv, s.name)
                # methods do not see the class namespace
                f.env = env
                methods[s.name] = (kind, f)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                pass
            elif isinstance(s, ast.Pass):
                pass
            else:
                raise Undecided(f'class statement {type(s).__name__}')
        c = ClassObj(st.name, env, st, fields if isnt else None, methods)
        c.defaults = defaults
        env.vars[st.name] = c

    def base_name(self, n):
        return n.id if isinstance(n, ast.Name) else (n.attr if isinstance(n, ast.Attribute) else '?')

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        op = type(st.op).__name__
        if isinstance(st.target, ast.Name):
            old = self.lookup(st.target.id, env)
            v = self.eval(st.value, env)
            if isinstance(old, list) and op == 'Add':
                old.extend(self.to_list(v))
                return
            if isinstance(old, Tensor) and old.np:
                new = self.models.binop(self, op, old, v)
                self.check_inplace(old, new)
                self.mutate(old, new)
                return
            env.vars[st.target.id] = self.models.binop(self, op, old, v)
        elif isinstance(st.target, ast.Subscript):
            base = self.eval(st.target.value, env)
            key = self.eval_index(st.target.slice, env)
            old = self.models.getitem(self, base, key)
            new = self.models.binop(self, op, old, self.eval(st.value, env))
            self.models.setitem(self, base, key, new)
        else:
            raise Undecided('augmented assignment target')

    def check_inplace(self, old, new):
        if not isinstance(new, Tensor) or len(new.shape) != len(old.shape) or \
                not all(prove_eq(a, b) for a, b in zip(new.shape, old.shape)):
            raise Undecided('in-place shape change')
        if isinstance(old.dt, self.models.Narrow) and not isinstance(new.dt, self.models.Narrow):
            raise Undecided('in-place update of a narrow array')
        if old.dt == 'i' and new.dt != 'i':
            raise Undecided('in-place cast')

    def mutate(self, arr, new):
        if arr.isinput:
            self.frame_violations.append(f'writes to its argument {arr.name}')
        if arr.viewof is not None:
            raise Undecided('mutation through a view')
        arr.vs, arr.body = new.vs, new.body
        arr.version += 1
        if hasattr(self, 'mutlog'):
            for s in self.mutlog:
                s.add(arr)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, None if star else len(t.elts))
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(vals) < k + after:
                    raise Raised('ValueError', 'unpack')
                for x, y in zip(t.elts[:k], vals[:k]):
                    self.assign(x, y, env)
                self.assign(t.elts[k].value, list(vals[k:len(vals) - after]), env)
                for x, y in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env)
            else:
                if len(vals) != len(t.elts):
                    raise Raised('ValueError', 'unpack')
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, env)
            key = self.eval_index(t.slice, env)
            self.models.setitem(self, base, key, v)
        else:
            raise Undecided('assignment target')

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, Instance):
            return [v.fields[k] for k in v.cls.fields]
        if isinstance(v, Tensor):
            m = v.shape[0]
            if m.op == 'const':
                return [self.models.getitem(self, v, k) for k in range(int(m.args[0]))]
            if n is not None:
                if proves(eq(m, const(n))):
                    return [self.models.getitem(self, v, k) for k in range(n)]
            raise Undecided('unpacking an array of symbolic length')
        if isinstance(v, SymList):
            if n is not None and proves(eq(v.n, const(n))):
                return [v.at(k) for k in range(n)]
        if isinstance(v, RangeV) and v.n.op == 'const':
            return [v.at(k) for k in range(int(v.n.args[0]))]
        raise Undecided(f'unpack {type(v).__name__}')

    def to_list(self, v):
        """Concrete list of elements, or SymList."""
        if isinstance(v, Filtered):
            raise Undecided('filtered symbolic comprehension')
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, SymList):
            if v.n.op == 'const':
                return [v.at(k) for k in range(int(v.n.args[0]))]
            return v
        if isinstance(v, RangeV):
            n = v.n
            n = NF.canon(n)
            if n.op == 'const':
                return [pyint(v.at(k)) for k in range(max(0, int(n.args[0])))]
            k = fresh('k', 'I', 0, n)
            return SymList(n, k, v.at(k))
        if isinstance(v, Tensor):
            if v.ndim == 0:
                raise Raised('TypeError', 'iteration over a 0-d array')
            n = v.shape[0]
            if n.op == 'const':
                return [self.models.getitem(self, v, k) for k in range(int(n.args[0]))]
            k = fresh('k', 'I', 0, n)
            return SymList(n, k, tab(v.shape[1:], lambda *i: v.at(k, *i), v.dt, v.np) if v.ndim > 1 else v.at(k))
        if isinstance(v, Instance):
            return [v.fields[k] for k in v.cls.fields]
        if isinstance(v, str):
            return list(v)
        raise Undecided(f'iteration over {type(v).__name__}')

    def st_For(self, st, env):
        it = self.to_list(self.eval(st.iter, env))
        if st.orelse:
            raise Undecided('for-else')
        if isinstance(it, list):
            for x in it:
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except _Break:
                    break
                except _Continue:
                    continue
            return
        from .loops import symbolic_for
        symbolic_for(self, st, it, env)

    def counted_while(self, st, env):
        """`while i < n: ...; i += 1` with a symbolic n, as (for statement, values of i, final i)"""
        t = st.test
        if st.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not st.body:
            return None
        l, r = t.left, t.comparators[0]
        op = type(t.ops[0])
        if op in (ast.Gt, ast.GtE):
            l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        last = st.body[-1]
        if op not in (ast.Lt, ast.LtE) or not isinstance(l, ast.Name) or not isinstance(last, ast.AugAssign) or \
                not isinstance(last.op, ast.Add) or not isinstance(last.target, ast.Name) or last.target.id != l.id or \
                not isinstance(last.value, ast.Constant) or last.value.value != 1 or isinstance(last.value.value, bool):
            return None
        from .loops import stored_names
        body = st.body[:-1]
        names = stored_names(body)
        if l.id in names or l.id not in env.vars or any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(r)) \
                or any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(r)):
            return None
        start, stop = env.vars[l.id], self.eval(r, env)
        if not isinstance(toT(start), T) or toT(start).sort != 'I' or toT(stop).sort != 'I':
            return None
        start, stop = toT(start), toT(stop)
        if op is ast.LtE:
            stop = add(stop, ONE)
        n = NF.canon(sub(stop, start))
        if n.op == 'const':
            return None
        k = fresh('k', 'I', 0, n)
        loop = ast.For(target=ast.Name(id=l.id, ctx=ast.Store()), iter=t, body=body or [ast.Pass()], orelse=[])
        return loop, SymList(n, k, add(start, k)), stop

    def st_While(self, st, env):
        cw = self.counted_while(st, env)
        if cw is not None:
            from .loops import symbolic_for
            loop, it, stop = cw
            if not NF.proves(le(ZERO, it.n)):
                if not self.truth(le(ZERO, it.n)):
                    return
            name = loop.target.id
            old = env.vars.pop(name)
            symbolic_for(self, loop, it, env)
            env.vars[name] = stop if not NF.proves(le(it.n, ZERO)) else old
            return
        n = 0
        while self.truth(self.eval(st.test, env)):
            n += 1
            if n > 64:
                raise Undecided('while loop bound')
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue

    def st_With(self, st, env):
        raise Undecided('with')

    def st_Try(self, st, env):
        raise Undecided('try')

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Undecided('del')

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(e).__name__}')
        return m(e, env)

    def lookup(self, name, env):
        try:
            v = env.get(name)
        except KeyError:
            raise Raised('NameError', name)
        if isinstance(v, LazyImport):
            v = v.force()
            # keep lazy so that contracts apply
        if isinstance(v, Poison):
            raise Undecided(v.msg)
        return v

    def ex_Name(self, e, env):
        return self.lookup(e.id, env)

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return lift(v)
        if isinstance(v, complex):
            return add(lift(v.real), mul(lift(v.imag), NF.IMAG))
        return v

    def ex_Tuple(self, e, env):
        return tuple(self.eval_elts(e.elts, env))

    def ex_List(self, e, env):
        xs = self.eval_elts(e.elts, env)
        return xs

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.to_list(self.eval(x.value, env))
                if isinstance(v, SymList):
                    if len(elts) == 1:
                        raise Undecided('star of symbolic list')
                    raise Undecided('star of symbolic list')
                out += v
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Dict(self, e, env):
        return {self.eval(k, env): self.eval(v, env) for k, v in zip(e.keys, e.values)}

    def ex_JoinedStr(self, e, env):
        return '<fstring>'

    def ex_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env.vars[e.target.id] = v
        return v

    def ex_Lambda(self, e, env):
        return self.make_closure(e, env, '<lambda>')

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            return not self.truth(v)
        if op == 'USub':
            if isinstance(v, int) and not isinstance(v, bool):
                return -v
            return self.models.elementwise(self, lambda t: neg(t), v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            return self.models.elementwise(self, lambda t: not_(t), v)
        raise Undecided(op)

    def ex_BinOp(self, e, env):
        return self.models.binop(self, type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.models.compare(self, type(op).__name__, left, right)
            res = c if res is None else self.models.logical_and(self, res, c)
            left = right
        return res

    def ex_Attribute(self, e, env):
        v = self.eval(e.value, env)
        return self.models.getattr_(self, v, e.attr)

    def ex_Subscript(self, e, env):
        base = self.eval(e.value, env)
        if isinstance(base, (Builtin, ClassObj, Mod, TypeMarker)) or base is None:
            return base       # typing subscripts
        return self.models.getitem(self, base, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) if isinstance(x, ast.Slice) else self.eval(x, env)
                         for x in self.flat_star(s.elts, env))
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, env)

    def flat_star(self, elts, env):
        for x in elts:
            if isinstance(x, ast.Starred):
                raise Undecided('starred index')
        return elts

    def ex_Slice(self, e, env):
        return self.eval_index(e, env)

    def ex_Call(self, e, env):
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                v = self.to_list(v)
                if isinstance(v, SymList):
                    args.append(StarSym(v))
                else:
                    args += v
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, env))
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs)

    def ex_ListComp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def ex_GeneratorExp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def ex_SetComp(self, e, env):
        raise Undecided('set comprehension')

    def comp(self, elt, gens, env):
        if len(gens) != 1:
            # flatten concrete nested generators
            g = gens[0]
            it = self.to_list(self.eval(g.iter, env))
            if isinstance(it, SymList):
                raise Undecided('nested symbolic comprehension')
            out = []
            for x in it:
                en = Env(env, {})
                self.assign(g.target, x, en)
                if all(self.truth(self.eval(c, en)) for c in g.ifs):
                    r = self.comp(elt, gens[1:], en)
                    if isinstance(r, SymList):
                        raise Undecided('nested symbolic comprehension')
                    out += r
            return out
        g = gens[0]
        it = self.to_list(self.eval(g.iter, env))
        if isinstance(it, list):
            out = []
            for x in it:
                en = Env(env, {})
                self.assign(g.target, x, en)
                if all(self.truth(self.eval(c, en)) for c in g.ifs):
                    out.append(self.eval(elt, en))
            return out
        if g.ifs:
            return self.filtered(elt, g, it, env)
        k = fresh('k', 'I', 0, it.n)

        def body():
            en = Env(env, {})
            self.assign(g.target, it.at(k), en)
            return self.eval(elt, en)
        v = self.local({k}, [le(ZERO, k), lt(k, it.n)], body)
        return SymList(it.n, k, v)

    def filtered(self, elt, g, it, env):
        """the elements whose conditions hold: only their sum has a meaning here"""
        k = fresh('k', 'I', 0, it.n)

        def body():
            en = Env(env, {})
            self.assign(g.target, it.at(k), en)
            cs = []
            for c in g.ifs:
                b = self.models.toB(self.eval(c, en))
                b = const_bool(b) if isinstance(b, bool) else b
                if not isinstance(b, T) or b.sort != 'B':
                    raise Undecided('filtered symbolic comprehension')
                cs.append(b)
            c = and_(*cs)
            with assuming(c):
                return c, self.eval(elt, en)
        c, v = self.local({k}, [le(ZERO, k), lt(k, it.n)], body)
        return Filtered(it.n, k, c, v)


def pyint(t):
    if isinstance(t, T) and t.op == 'const' and t.args[0].denominator == 1:
        return int(t.args[0])
    return t


def real_cond(c):
    return any(isinstance(a, T) and a.sort not in ('I', 'B') for a in c.args)


class StarSym:
    def __init__(self, v):
        self.v = v


class Poison:
    def __init__(self, msg):
        self.msg = msg


class TypeMarker:
    def __init__(self, name):
        self.name = name


class MissingFunction(Exception):
    pass


class NODEFAULT:
    pass


class LazyImport:
    def __init__(self, interp, mod, name):
        self.interp, self.mod, self.name = interp, mod, name

    def force(self):
        env = self.interp.load(self.mod)
        if self.name in env.vars:
            v = env.vars[self.name]
            return v.force() if isinstance(v, LazyImport) else v
        if self.interp.module_path(self.mod + '.' + self.name):
            return RepoMod(self.interp, self.mod + '.' + self.name)
        raise Undecided(f'import {self.mod}.{self.name}')


class RepoMod:
    def __init__(self, interp, name):
        self.interp, self.name = interp, name

    def attr(self, a):
        if self.interp.module_path(self.name + '.' + a):
            return RepoMod(self.interp, self.name + '.' + a)
        v = self.interp.load(self.name).vars[a]
        return v.force() if isinstance(v, LazyImport) else v


class BoundMethod:
    def __init__(self, f, obj, interp):
        self.f, self.obj, self.interp = f, obj, interp
        self.qualname = f.qualname

    def __call__(self, *a, **k):
        return self.interp.call(self.f, [self.obj] + list(a), k)
