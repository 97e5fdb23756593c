"""Numerical evaluation of terms: looks for a countermodel of an equation that was not discharged.

Integer symbols get values satisfying the assumptions (z3), everything else generic values: array entries and
uninterpreted functions are smooth pseudo-random functions of their arguments, so two different applications differ and
two equal arguments give equal values up to rounding.  A difference found here refutes the obligation for the
uninterpreted reading of the library functions; agreement on all samples means that the procedure was incomplete.
"""
import cmath
import itertools
import math
import random
import time
import zlib
import numpy as np
import z3
from .terms import *
from .solver import Ctx, to_z3, _sym_constraints
from . import loops, nf as NF


class CannotEval(Exception):
    pass


class Reject(Exception):
    pass


def h01(*key):
    return (zlib.crc32(repr(key).encode()) & 0xffffffff) / 2.0 ** 32


class Ev:
    def __init__(self, ints, seed, deadline, scale=1., noise=0.):
        self.ints, self.seed, self.deadline, self.scale, self.noise = ints, seed, deadline, scale, noise
        self.memo = {}
        self.n = 0

    # ---- generic values
    def generic(self, key, feats, pos, sort):
        """smooth pseudo-random function of the features"""
        s = 0.0
        for i, f in enumerate(feats):
            f = complex(f)
            w = 1.1 + h01(key, i, self.seed)
            s += math.cos(w * f.real + 6.28 * h01(key, i, 'p', self.seed)) * (0.6 + 0.4 * h01(key, i, 'a'))
            if f.imag:
                s += math.cos(w * f.imag + 6.28 * h01(key, i, 'q', self.seed))
        v = math.sin(s + 6.28 * h01(key, self.seed)) * 1.3 + 0.1 * math.sin(3.7 * s)
        if sort == 'I':
            return int(2.999 * h01(key, self.seed, *[int(complex(f).real) for f in feats]))
        if sort == 'B':
            return h01(key, self.seed, *[round(complex(f).real, 6) for f in feats]) < 0.5
        v = (math.exp(0.5 * v) if pos else v) * self.scale
        return v * (1 + self.noise * (h01(key, 'noise', *[round(complex(f).real, 9) for f in feats]) - 0.5)) if self.noise else v

    def feats(self, x):
        if isinstance(x, np.ndarray):
            return [x.ndim, *x.shape] + [complex(v) for v in x.ravel()]
        if isinstance(x, (tuple, list)):
            return [f for y in x for f in self.feats(y)]
        if isinstance(x, Head):
            return [1000 * h01(x.name)]
        if isinstance(x, str):
            return [1000 * h01(x)]
        if x is None:
            return [0.5]
        return [complex(x)]

    # ---- evaluation
    def ev(self, t, env):
        self.n += 1
        if self.n % 256 == 0 and time.time() > self.deadline:
            raise CannotEval('time')
        key = (t, tuple((s, env[s]) for s in sorted(env, key=lambda s: s.uid) if s in t.fv)) if t.op not in ('const', 'sym') else None
        if key is not None:
            try:
                r = self.memo.get(key)
            except TypeError:
                key, r = None, None
            if r is not None:
                return r
        r = self._ev(t, env)
        if isinstance(r, float) and not math.isfinite(r) or isinstance(r, complex) and not cmath.isfinite(r):
            raise Reject('not finite')
        if key is not None:
            self.memo[key] = r
        return r

    def _ev(self, t, env):
        op, a = t.op, t.args
        if op == 'const':
            c = a[0]
            return int(c) if c.denominator == 1 else c.numerator / c.denominator
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'sym':
            if t in env:
                return env[t]
            if t in self.ints:
                return self.ints[t]
            if t is NF.PI:
                return math.pi
            if a[0] == 'inf':
                return 1e100
            if t.sort in 'AL':
                return Head(a[0], t)
            if t.sort == 'I':
                raise CannotEval(f'unassigned {a[0]}')
            if t.sort == 'C':
                return complex(self.generic(a[0], (), False, 'R'), self.generic(a[0] + 'i', (), False, 'R'))
            return self.generic(a[0], (), t in Sym_info.pos or t in Sym_info.nonneg, t.sort)
        if op == 'add':
            return sum(self.ev(x, env) for x in a)
        if op == 'mul':
            r = 1
            vals = [self.ev(x, env) for x in a]
            for v in vals:
                r = r * v
            return r
        if op == 'pow':
            return self.power(self.ev(a[0], env), self.ev(a[1], env))
        if op in ('sum', 'prod'):
            v, lo, hi, body = a
            lo, hi = self.ev(lo, env), self.ev(hi, env)
            if hi - lo > 4000:
                raise CannotEval('large sum')
            r = 0 if op == 'sum' else 1
            for i in range(int(lo), int(hi)):
                x = self.ev(body, {**env, v: i})
                r = r + x if op == 'sum' else r * x
            return r
        if op == 'ite':
            return self.ev(a[1] if self.ev(a[0], env) else a[2], env)
        if op in ('lt', 'le', 'eq'):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
                return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]
            if isinstance(x, complex) or isinstance(y, complex):
                if op == 'eq':
                    return x == y
                raise Reject('complex order')
            if abs(x - y) < 1e-9:
                if x == y and op in ('le', 'eq'):
                    return True
                raise Reject('near tie')
            return {'lt': x < y, 'le': x <= y, 'eq': False}[op]
        if op == 'not':
            return not self.ev(a[0], env)
        if op == 'and':
            return all(self.ev(x, env) for x in a)
        if op == 'or':
            return any(self.ev(x, env) for x in a)
        if op == 'idiv':
            return self.ev(a[0], env) // self.nz(self.ev(a[1], env))
        if op == 'mod':
            return self.ev(a[0], env) % self.nz(self.ev(a[1], env))
        if op == 'lam':
            vs, sizes, body = a
            shp = [int(self.ev(s, env)) for s in sizes]
            if np.prod(shp) > 3000 or min(shp + [0]) < 0:
                raise CannotEval('large array')
            out = np.zeros(shp, dtype=object)
            for i in itertools.product(*map(range, shp)):
                out[i] = self.ev(body, {**env, **dict(zip(vs, i))})
            return Arr(out)
        if op == 'flam':
            vs, body = a
            out = []
            for k in range(2):
                e = dict(env)
                for j, v in enumerate(vs):
                    e[v] = Head(f'@{k}.{j}', None) if v.sort in 'AL' else (1 + k if v.sort == 'I' else 0.37 + 0.61 * k + 0.13 * j)
                out.append(self.ev(body, e))
            return tuple(out)
        if op == 'tup':
            return tuple(self.ev(x, env) for x in a)
        if op == 'app':
            return self.apply(t, env)
        raise CannotEval(op)

    def nz(self, x):
        if x == 0:
            raise Reject('division by zero')
        return x

    def power(self, b, e):
        if e == 0:
            return 1
        if b == 0:
            if not isinstance(e, complex) and e > 0:
                return 0
            raise Reject('zero base')
        if isinstance(e, float) and e == int(e):
            e = int(e)
        if isinstance(e, int):
            try:
                return b ** e
            except OverflowError:
                raise Reject('overflow')
        if not isinstance(b, complex) and b < 0:
            raise Reject('root of a negative number')
        return b ** e

    def apply(self, t, env):
        name, args = t.args[0], t.args[1:]
        if name == 'sel':
            head = args[0]
            if head in loops.DEFS and head not in env:
                return self.state(head, args, env)
            hv = self.ev(head, env)
            idx = [self.ev(i, env) for i in args[1:]]
            if isinstance(hv, Arr):
                try:
                    return hv.a[tuple(int(i) for i in idx)]
                except IndexError:
                    raise CannotEval('index')
            if not isinstance(hv, Head):
                raise CannotEval('selection')
            s = hv.sym
            if s in Sym_info.rule or any(x is s for x, _ in Sym_info.rule.values()):
                return self.rule_entry(s, idx)
            if s in Sym_info.symm and len(idx) >= 2:
                idx[-2:] = sorted(idx[-2:])
                v = self.generic(hv.name, idx, False, t.sort)
                return v + (2.0 + len(idx)) * (idx[-1] == idx[-2]) if t.sort != 'I' else v
            if t.sort == 'I':
                v = self.generic(hv.name, idx, False, 'I')
                from .solver import app_range
                lo, hi = app_range(t)
                lo = self.ev(lo, env) if lo is not None else 0
                if hi is not None:
                    hi = self.ev(hi, env)
                    if hi <= lo:
                        raise Reject('empty range')
                    return lo + int(h01(hv.name, tuple(idx), self.seed) * (hi - lo))
                return lo + v
            if t.sort == 'C':
                return complex(self.generic(hv.name, idx, False, 'R'), self.generic(hv.name + 'i', idx, False, 'R'))
            return self.generic(hv.name, idx, s in Sym_info.pos or s in Sym_info.nonneg, t.sort)
        vals = [self.ev(x, env) if isinstance(x, T) else x for x in args]
        f = KNOWN.get(name)
        if f is not None:
            try:
                return f(self, *vals)
            except (OverflowError, ValueError, ZeroDivisionError, np.linalg.LinAlgError):
                raise Reject(name)
        feats = self.feats([v.a if isinstance(v, Arr) else v for v in vals])
        return self.generic(name, feats, name in Sym_info.pos or name in Sym_info.nonneg, t.sort)

    def rule_entry(self, s, idx):
        """an entry of a quadrature rule exact to degree two"""
        w = s if s in Sym_info.rule else next(k for k, (x, _) in Sym_info.rule.items() if x is s)
        key = ('rule', w)
        if key not in self.memo:
            xi, n = Sym_info.rule[w]
            n = int(self.ev(n, {}))
            d = self.ints.get(sym('dx', 'I'), 1)
            if n <= d and xi is not None:
                raise Reject('rule too small')
            W = np.array([math.exp(0.4 * self.generic('w', (r,), False, 'R')) for r in range(n)])
            W /= W.sum()
            if xi is None:
                self.memo[key] = (W, None)
                return float(W[int(idx[0])])
            X = np.array([[self.generic('xi', (r, a), False, 'R') for a in range(d)] for r in range(n)])
            X = X - W @ X
            try:
                X = np.linalg.solve(np.linalg.cholesky((X.T * W) @ X), X.T).T
            except np.linalg.LinAlgError:
                raise Reject('rule')
            self.memo[key] = (W, X)
        W, X = self.memo[key]
        if s is w:
            return float(W[int(idx[0])])
        return float(X[int(idx[0]), int(idx[1])])

    def state(self, head, args, env):
        sd, lf = loops.DEFS[head]
        K = int(self.ev(args[1], env))
        np_ = len(sd.params)
        ps = tuple(self.ev(x, env) for x in args[2:2 + np_])
        idx = tuple(self.ev(x, env) for x in args[2 + np_:])
        key = ('S', head, K, ps, idx)
        try:
            r = self.memo.get(key)
        except TypeError:
            raise CannotEval('state parameters')
        if r is not None:
            return r
        if K < 0 or K > 60:
            raise CannotEval('state index')
        for j in range(K):       # bottom-up, so that the recursion stays shallow
            for l2 in sd.leaves:
                pass
        e = dict(zip(sd.params, ps))
        e.update(zip(lf.vs, idx))
        if K == 0:
            r = self.ev(lf.init, e)
        else:
            e[sd.k] = K - 1
            r = self.ev(lf.step, e)
        self.memo[key] = r
        return r


class Head:
    """an array symbol"""

    def __init__(self, name, sym):
        self.name, self.sym = name, sym

    def __eq__(self, o):
        return isinstance(o, Head) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Arr:
    """an array value (hashable)"""

    def __init__(self, a):
        self.a = a
        self.k = (a.shape, tuple(a.ravel().tolist()))

    def __eq__(self, o):
        return isinstance(o, Arr) and self.k == o.k

    def __hash__(self):
        return hash(self.k)


def _mat(x):
    if not isinstance(x, Arr):
        raise CannotEval('matrix')
    return x.a.astype(complex if any(isinstance(v, complex) for v in x.a.ravel()) else float)


def _inv(ev, A, i, j):
    return np.linalg.inv(_mat(A))[int(i), int(j)].item()


def _chol(ev, A, i, j):
    m = _mat(A)
    if not np.allclose(m, m.T):
        raise Reject('not symmetric')
    return np.linalg.cholesky(m)[int(i), int(j)].item()


def _triinv(ev, A, i, j):
    return np.linalg.inv(np.tril(_mat(A)))[int(i), int(j)].item()


def _real(x):
    if isinstance(x, complex):
        if abs(x.imag) > 1e-12:
            raise CannotEval('complex argument')
        return x.real
    return x


def _digit(ev, sizes, r, k):
    s = [int(v) for v in sizes.a]
    k = int(k)
    if not 0 <= k < len(s):
        raise CannotEval('digit')
    m = 1
    for v in s[k + 1:]:
        m *= v
    if m == 0 or s[k] == 0:
        raise Reject('empty box')
    return (int(r) // m) % s[k]


def _herm(ev, n, x):
    p, c = 1, x
    if n == 0:
        return 1
    for k in range(1, int(n)):
        p, c = c, x * c - k * p
    return c


def _comb(ev, n, k):
    n, k = int(n), int(k)
    return math.comb(n, k) if n >= 0 and 0 <= k <= n else 0


KNOWN = {
    'exp': lambda ev, x: cmath.exp(x) if isinstance(x, complex) else math.exp(x),
    'log': lambda ev, x: cmath.log(x) if isinstance(x, complex) else math.log(x),
    'cos': lambda ev, x: math.cos(_real(x)),
    'sin': lambda ev, x: math.sin(_real(x)),
    'tanh': lambda ev, x: math.tanh(_real(x)),
    'abs': lambda ev, x: abs(x),
    'floor': lambda ev, x: math.floor(x),
    'trunc': lambda ev, x: int(x),
    'round': lambda ev, x: round(_real(x)),
    'lgamma': lambda ev, x: math.lgamma(x),
    'fact': lambda ev, n: math.factorial(int(n)),
    'fact2': lambda ev, n: math.prod(range(int(n), 0, -2)),
    'comb': _comb,
    'inv': _inv,
    'chol': _chol,
    'triinv': _triinv,
    'digit': _digit,
    'herm': _herm,
    'prodl': lambda ev, A: math.prod(A.a.ravel().tolist()),
}


def _root(ev, A, i):
    key = ('roots', A)
    if key not in ev.memo:
        p = [float(_real(x)) for x in A.a]
        if abs(p[0]) < 1e-3:
            raise Reject('leading coefficient')
        ev.memo[key] = np.roots(p)
    return complex(ev.memo[key][int(i)])


def _argext(sign):
    def f(ev, A):
        v = [sign * _real(x) for x in A.a]
        k = min(range(len(v)), key=lambda i: v[i])
        if v[k] >= 1e99 or any(j != k and abs(v[j] - v[k]) < 1e-9 for j in range(len(v))):
            raise Reject('tie')
        return k
    return f


KNOWN['rootre'] = lambda ev, A, i: _root(ev, A, i).real
KNOWN['rootim'] = lambda ev, A, i: _root(ev, A, i).imag
KNOWN['argminr'] = _argext(1)
KNOWN['argmaxr'] = _argext(-1)


def _wrap(lo, hi):
    # a conversion the engine could not show to be exact: it is taken to wrap at the smallest such width
    lo, hi = (0, 3) if lo == 0 else (-2, 1)
    return lambda ev, x: (int(x) - lo) % (hi - lo + 1) + lo


for _n, (_lo, _hi) in {'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535), 'int16': (-32768, 32767),
                       'int32': (-2 ** 31, 2 ** 31 - 1), 'uint32': (0, 2 ** 32 - 1)}.items():
    KNOWN['as_' + _n] = _wrap(_lo, _hi)
# a rounding to less than double precision: some value near x, not x (coarser than the comparison tolerance)
KNOWN['as_float32'] = lambda ev, x: x * (1 + 1e-4)
KNOWN['as_float16'] = lambda ev, x: x * (1 + 1e-4)


def assignments(ints, extra, rng, want, deadline):
    """integer assignments satisfying the context and `extra`"""
    allc = [c for c in extra if c is not TRUE] + list(Ctx.assumptions())
    allc += _sym_constraints(allc + list(ints))
    s = z3.Solver()
    s.set('timeout', 1500)
    ex = []
    for c in allc:
        s.add(to_z3(c, ex))
    s.add(*ex)
    zs = {x: to_z3(x, []) for x in ints}
    if s.check() != z3.sat:
        return
    order = sorted(ints, key=lambda x: x.uid)
    for _ in range(want):
        if time.time() > deadline:
            return
        s.push()
        rng.shuffle(order)
        for x in order:
            top = rng.choice((2, 3, 4, 5))
            for c in (zs[x] == rng.randint(0, top), zs[x] <= 6, zs[x] <= 12):
                s.push()
                s.add(c)
                if s.check() == z3.sat:
                    break
                s.pop()
        if s.check() == z3.sat:
            m = s.model()
            out = {}
            for x in ints:
                try:
                    out[x] = m.eval(zs[x], model_completion=True).as_long()
                except Exception:
                    pass
            yield out
        while s.num_scopes():
            s.pop()


def branch_conditions(g, w):
    def conds(t, out, seen, free):
        if id(t) in seen or not isinstance(t, T):
            return
        seen.add(id(t))
        if t.op in ('lt', 'le', 'eq') and t.fv <= free and t.fv and all(x.sort == 'I' for x in t.fv):
            out.add(t)
        for a in t.args:
            if isinstance(a, T):
                conds(a, out, seen, free)
            elif isinstance(a, tuple):
                for b in a:
                    conds(b, out, seen, free)
    a, b = set(), set()
    free = set(g.fv) | set(w.fv)
    conds(g, a, set(), free)
    conds(w, b, set(), free)
    return sorted(a ^ b, key=str)[:6]


def countermodel(g, w, residual=None, seconds=25, seed=1):
    """('differs', detail) | ('agrees', number of samples) | ('unknown', reason)"""
    t0 = time.time()
    rng = random.Random(seed)
    ass = [c for c in Ctx.assumptions()]
    free = set(g.fv) | set(w.fv)
    todo = list(free)
    for c in ass:
        free |= c.fv
    while todo:                      # symbols of the ranges and of the loop definitions
        s = todo.pop()
        more = set()
        for b in (Sym_info.lo.get(s), Sym_info.hi.get(s)):
            if b is not None:
                more |= b.fv
        if s in loops.DEFS:
            sd, lf = loops.DEFS[s]
            for l in sd.leaves:
                more |= (l.init.fv | l.step.fv) - set(l.vs) - {sd.k} - set(sd.params)
            more |= sd.n.fv
        more -= free
        free |= more
        todo += list(more)
    ints = [s for s in free if s.sort == 'I']
    guards = [[]]
    for m in list(residual or ())[:6]:
        if not m.conds:
            continue
        ren = {v: fresh('e', 'I', 0) for v in m.bv}        # bound variables: some value
        guards.append([subst(c, ren) for c in m.conds] if ren else list(m.conds))
    soft = set()
    for c in branch_conditions(g, w):                       # both sides of every condition only one side has
        for d in (c, not_(c)):
            if d not in (TRUE, FALSE) and len(soft) < 8:
                soft.add(len(guards))
                guards.append([d])
    sizes = [s for s in (set(g.fv) | set(w.fv)) if s.sort == 'I' and Sym_info.hi.get(s) is None]
    for c in sorted(int_constants(g) ^ int_constants(w))[:3]:   # sizes beyond a constant that only one side has
        for s in sizes[:3]:
            soft.add(len(guards))
            guards.append([le(const(c + 2), s), le(s, const(c + 3))])
    good, last = 0, 'no assignment'
    deadline = t0 + seconds
    for gi, gd in enumerate(guards):
        try:
            src = list(assignments(list(set(ints) | {x for c in gd for x in c.fv if x.sort == 'I'}), gd, rng, 6 if gi == 0 else 3, deadline))
        except Exception as e:
            last = f'assignment: {e}'
            continue
        ok = 0
        for k, asg in enumerate(src):
            for s2 in range(2):
                if time.time() > deadline:
                    break
                try:
                    v = compare_at(g, w, ass, asg, f'{seed}.{gi}.{k}.{s2}', deadline)
                    if v is None:
                        last = 'assumption not met'
                        continue
                    if isinstance(v, str):
                        return 'unknown', v
                    if v[0]:
                        return 'differs', v[0]
                    ok += 1
                except Reject as e:
                    last = f'rejected: {e}'
                except CannotEval as e:
                    last = f'{e}'
                except RecursionError:
                    last = 'recursion'
        good += ok
        if gi and src and not ok and gi not in soft:
            return 'unknown', f'guard not sampled: {last}'
    if good >= 4 and real_thresholds(g) ^ real_thresholds(w):
        # a comparison of reals that only one side makes: magnitudes at which it may come out differently
        for k, scale in enumerate((25., 1e-3, 600., 1e-7, 1e4)):
            try:
                for j, asg in enumerate(assignments(ints, [], rng, 2, time.time() + 8)):
                    v = compare_at(g, w, ass, asg, f'{seed}.s{k}.{j}', time.time() + 6, scale)
                    if isinstance(v, tuple) and v[0]:
                        return 'differs', v[0] + f' (magnitude {scale})'
            except (Reject, CannotEval, RecursionError, OverflowError, ZeroDivisionError, ValueError):
                continue
    return ('agrees', good) if good >= 4 else ('unknown', last)


def compare_at(g, w, ass, asg, seed, deadline, scale=1.):
    """None (assumption not met) | reason (not comparable) | ('' or the difference,)"""
    def at(noise):
        E = Ev(asg, seed, deadline, scale, noise)
        if not all(E.ev(c, {}) for c in ass):
            return None
        return E.ev(g, {}), E.ev(w, {})
    r = at(0.)
    if r is None:
        return None
    a, b = r
    if isinstance(a, (Head, Arr, tuple)) or isinstance(b, (Head, Arr, tuple)):
        return 'not a number'
    what = f'{a} vs {b} at ' + ', '.join(f'{s.args[0]}={v}' for s, v in list(asg.items())[:12])
    if isinstance(a, bool) or isinstance(b, bool):
        return (what if bool(a) != bool(b) else '',)
    if abs(a - b) <= 1e-6 * (min(1., scale) + abs(a) + abs(b)):
        return ('',)
    if isinstance(a, int) and isinstance(b, int):
        return (what,)
    r = at(1e-12)                       # is the difference larger than the effect of rounding?
    if r is None or max(abs(r[0] - a), abs(r[1] - b)) > 1e-2 * abs(a - b):
        raise Reject('ill-conditioned')
    return (what,)


def int_constants(t):
    """integer constants 4..40 in comparisons of integers (or minima, maxima), also inside sums and loops"""
    out, seen, todo = set(), set(), [t]
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or id(t) in seen:
            continue
        seen.add(id(t))
        if t.op in ('lt', 'le', 'eq') and all(x.sort == 'I' for x in t.args if isinstance(x, T)):
            sub_ = list(t.args)
            while sub_:
                x = sub_.pop()
                if isinstance(x, T):
                    if x.op == 'const' and x.args[0].denominator == 1 and 4 <= abs(int(x.args[0])) <= 40:
                        out.add(abs(int(x.args[0])))
                    elif x.op in ('add', 'mul', 'ite', 'lt', 'le'):
                        sub_ += list(x.args)
        if t.op == 'sym' and t in loops.DEFS:
            for l in loops.DEFS[t][0].leaves:
                todo += [l.init, l.step]
        for a in t.args:
            todo += list(a) if isinstance(a, tuple) else [a]
    return out


def real_thresholds(t):
    """the comparisons of reals in a term and in the loops it refers to"""
    out, seen, todo = set(), set(), [t]
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or id(t) in seen:
            continue
        seen.add(id(t))
        if t.op in ('lt', 'le', 'eq') and any(x.sort == 'R' for x in t.args if isinstance(x, T)):
            out.add(str(t))
        if t.op == 'app' and t.args[0] in ('abs', 'sign', 'floor', 'trunc', 'max', 'min', 'round'):
            out.add(t.args[0])
        if t.op == 'sym' and t in loops.DEFS:
            for l in loops.DEFS[t][0].leaves:
                todo += [l.init, l.step]
        for a in t.args:
            todo += list(a) if isinstance(a, tuple) else [a]
    return out
