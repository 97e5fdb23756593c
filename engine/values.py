"""Values of the symbolic interpreter."""
from fractions import Fraction
from .terms import *
from .solver import Ctx, assuming, proves, refutes
from .nf import Undecided


class Tensor:
    """Array with (possibly symbolic) shape; body is the element at the index symbols vs."""
    __slots__ = ('shape', 'vs', 'body', 'dt', 'np', 'viewof', 'version', 'isinput', 'name')
    __hash__ = object.__hash__

    def __init__(self, shape, vs, body, dt='f', np=False):
        self.shape = tuple(lift(s) for s in shape)
        self.vs, self.body, self.dt, self.np = tuple(vs), body, dt, np
        self.viewof, self.version, self.isinput, self.name = None, 0, False, None

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        if self.viewof is not None and self.viewof[0].version != self.viewof[1]:
            raise Undecided('use of a view after its base was mutated')
        if len(idx) != len(self.vs):
            raise Undecided(f'rank mismatch: {len(idx)} indices for rank {len(self.vs)}')
        return subst(self.body, {v: lift(i) for v, i in zip(self.vs, idx)})

    def lam(self):
        return lam(self.vs, self.shape, self.body)

    def __repr__(self):
        return f'Tensor{tuple(map(show, self.shape))}[{",".join(map(show, self.vs))}: {show(self.body)}]'

    # operators used by specifications (elementwise, same shape or scalar)
    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) == self.ndim and all(isinstance(i, (int, T)) for i in idx):
            return self.at(*[neg_index(i, n) for i, n in zip(idx, self.shape)])
        if len(idx) < self.ndim and all(isinstance(i, (int, T)) for i in idx):
            rest = self.shape[len(idx):]
            idx = [neg_index(i, n) for i, n in zip(idx, self.shape)]
            return tab(rest, lambda *j: self.at(*idx, *j), self.dt)
        raise TypeError(idx)


def neg_index(i, n):
    if isinstance(i, int):
        return lift(i) if i >= 0 else add(n, lift(i))
    return i


def tab(shape, fn, dt='f', np=False):
    shape = tuple(lift(s) for s in shape)
    vs = tuple(fresh('i', 'I', 0, s) for s in shape)
    r = fn(*vs)
    if isinstance(r, Tensor):
        ws = tuple(fresh('i', 'I', 0, s) for s in r.shape)
        return Tensor(shape + r.shape, vs + ws, r.at(*ws), r.dt, np)
    return Tensor(shape, vs, lift(r), dt, np)


POISON = type('Poison', (), {})()       # a loop temporary without a value on some path


class SymList:
    """Python list of symbolic length: element at index var."""

    def __init__(self, n, var, value):
        self.n, self.var, self.value = lift(n), var, value

    def at(self, i):
        return vsubst(self.value, {self.var: lift(i)})


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lift(lo), lift(hi), step

    @property
    def n(self):
        if self.step == 1:
            return sub(self.hi, self.lo)
        if self.step == -1:
            return sub(self.lo, self.hi)
        if self.step > 0:
            return idiv(add(sub(self.hi, self.lo), const(self.step - 1)), const(self.step))
        raise Undecided('range step')

    def at(self, i):
        return add(self.lo, mul(const(self.step), lift(i)))


class OpaqueFn:
    """A user-supplied callable: uninterpreted, given by a Python function building its result value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class Dtype:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'dtype({self.name})'


def vsubst(v, m):
    """Substitution in a value."""
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Tensor):
        if not m:
            return v
        mm = m
        r = Tensor([subst(s, mm) for s in v.shape], (), ZERO, v.dt, v.np)
        vs = tuple(fresh('i', 'I', 0, s) for s in r.shape)
        r.vs = vs
        r.body = subst(subst(v.body, dict(zip(v.vs, vs))), mm)
        return r
    if isinstance(v, tuple):
        if hasattr(v, '_fields'):
            return type(v)(*[vsubst(x, m) for x in v])
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, list):
        return [vsubst(x, m) for x in v]
    if isinstance(v, dict):
        return {k: vsubst(x, m) for k, x in v.items()}
    if isinstance(v, SymList):
        w = fresh('k', 'I', 0)
        return SymList(subst(v.n, m), w, vsubst(vsubst(v.value, {v.var: w}), m))
    if isinstance(v, Instance):
        return Instance(v.cls, {k: vsubst(x, m) for k, x in v.fields.items()})
    if hasattr(v, 'vsubst'):
        return v.vsubst(m)
    return v


def vfree(v):
    if isinstance(v, T):
        return v.fv
    if isinstance(v, Tensor):
        s = v.body.fv - set(v.vs)
        for z in v.shape:
            s = s | z.fv
        return s
    if isinstance(v, (tuple, list)):
        s = frozenset()
        for x in v:
            s = s | vfree(x)
        return s
    if isinstance(v, SymList):
        return (vfree(v.value) - {v.var}) | v.n.fv
    if isinstance(v, Instance):
        s = frozenset()
        for x in v.fields.values():
            s = s | vfree(x)
        return s
    if hasattr(v, 'vfree'):
        return v.vfree()
    return frozenset()


class ClassObj:
    def __init__(self, name, env, node, fields, methods):
        self.name, self.env, self.node, self.fields, self.methods = name, env, node, fields, methods


class Instance:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Mod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<module {self.name}>'


class Raised(Exception):
    """The program raised an exception."""

    def __init__(self, exc, msg=''):
        self.exc, self.msg = exc, msg
        super().__init__(f'{exc}: {msg}')


def is_scalar(v):
    return isinstance(v, (T, int, float, Fraction, complex)) and not isinstance(v, bool) or isinstance(v, bool)


def toT(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fraction)):
        return const(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return sym(repr(v), 'R')
        return const(Fraction(repr(v)))
    if isinstance(v, Tensor) and v.ndim == 0:
        return v.at()
    raise Undecided(f'not a scalar: {type(v).__name__}')


def numT(v):
    t = toT(v)
    return ite(t, ONE, ZERO) if t.sort == 'B' else t


def shape_of(v):
    if isinstance(v, Tensor):
        return v.shape
    if is_scalar(v):
        return ()
    raise Undecided(f'shape of {type(v).__name__}')
