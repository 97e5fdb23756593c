"""Models (assumed contracts) of the external functions the code calls: jax.numpy, numpy, jax.lax, math, scipy, tme.

Each entry states the mathematical value of the call on exact reals; they are listed as assumptions in the evidence and
cross-checked concretely against the installed libraries by harness/crosscheck.py.
"""
import math
import itertools
from fractions import Fraction
from .terms import *
from .solver import *
from . import nf as NF
from .nf import Undecided, prove_eq, PI, IMAG
from .values import *

USED = set()      # external functions whose model was used


# =============================================================================== helpers

def dim_eq(a, b):
    return a is b or prove_eq(a, b)


def dim_is1(a):
    return a is ONE or (a.op != 'const' and proves(eq(a, ONE)))


def dt_of(v):
    if isinstance(v, Tensor):
        return v.dt
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, T):
        return {'I': 'i', 'B': 'b', 'C': 'c'}.get(v.sort, 'f')
    return 'f'


class Narrow(str):
    """dtype kind of an array narrower than 64 bits: compares equal to the kind, remembers the dtype"""
    narrow = None


def narrow_dt(kind, name):
    d = Narrow(kind)
    d.narrow = name
    return d


def narrowed(name, b):
    """value b after conversion to the narrow dtype: itself where it is provably representable"""
    if b.op == 'app' and b.args and b.args[0] == 'as_' + name:
        return b
    if name in RANGES:
        lo, hi = RANGES[name]
        if proves(and_(le(const(lo), b), le(b, const(hi)))):
            return b
        return app('as_' + name, b, sort='I')
    if b.op == 'const' and b.args[0] in (-2, -1, 0, 1, 2):
        return b
    return app('as_' + name, b)


def renarrow(r, *operands):
    """arithmetic of narrow arrays (with each other or with scalars) stays narrow"""
    ds = [o.dt for o in operands if isinstance(o, Tensor)]
    if not ds or not all(isinstance(d, Narrow) for d in ds) or not isinstance(r, Tensor) or r.dt not in ('i', 'f'):
        return r
    if r.dt != ds[0]:
        return r
    n = max((d.narrow for d in ds), key=lambda x: int(''.join(c for c in x if c.isdigit())))
    return Tensor(r.shape, r.vs, narrowed(n, r.body), narrow_dt(str(r.dt), n), r.np)


def join_dt(*ds):
    for x in ('c', 'f', 'i', 'b'):
        if x in ds:
            return x
    return ds[0]


def is_np(v):
    return isinstance(v, Tensor) and v.np


def asarray(ip, v, np=False):
    """list/tuple/SymList/scalar/Tensor -> Tensor or scalar T"""
    if isinstance(v, Tensor):
        return v
    if is_scalar(v):
        return toT(v) if not isinstance(v, bool) else toT(v)
    if isinstance(v, SymList):
        x = asarray(ip, v.value, np)
        if isinstance(x, Tensor):
            if v.var in frozenset().union(*[s.fv for s in x.shape]):
                raise Undecided('ragged array')
            return Tensor((v.n,) + x.shape, (v.var,) + x.vs, x.body, x.dt, np)
        return Tensor((v.n,), (v.var,), x, dt_of(x), np)
    if isinstance(v, RangeV):
        return asarray(ip, ip.to_list(v), np)
    if isinstance(v, (list, tuple)):
        xs = [asarray(ip, x, np) for x in v]
        n = len(xs)
        if n == 0:
            return Tensor((0,), (fresh('i', 'I', 0, 0),), ZERO, 'f', np)
        if all(not isinstance(x, Tensor) or x.ndim == 0 for x in xs):
            xs = [toT(x) for x in xs]
            i = fresh('i', 'I', 0, n)
            body = xs[-1]
            for k in range(n - 2, -1, -1):
                body = ite(eq(i, const(k)), xs[k], body)
            return Tensor((n,), (i,), body, join_dt(*[dt_of(x) for x in xs]), np)
        if any(not isinstance(x, Tensor) for x in xs):
            raise Raised('ValueError', 'ragged array')
        if len({x.ndim for x in xs}) != 1:
            raise Raised('ValueError', 'ragged array')
        for x in xs[1:]:
            for a, b in zip(x.shape, xs[0].shape):
                if not dim_eq(a, b):
                    raise Undecided('stack of different shapes')
        i = fresh('i', 'I', 0, n)
        vs = tuple(fresh('i', 'I', 0, s) for s in xs[0].shape)
        body = xs[-1].at(*vs)
        for k in range(n - 2, -1, -1):
            body = ite(eq(i, const(k)), xs[k].at(*vs), body)
        return Tensor((n,) + xs[0].shape, (i,) + vs, body, join_dt(*[x.dt for x in xs]), np)
    raise Undecided(f'asarray of {type(v).__name__}')


def arr(ip, v):
    """Tensor (scalars become 0-d tensors)"""
    a = asarray(ip, v)
    if isinstance(a, Tensor):
        return a
    return Tensor((), (), a, dt_of(a))


def unwrap(t):
    return t


def result(t):
    """0-d tensors are plain scalar terms"""
    if isinstance(t, Tensor) and t.ndim == 0:
        return t.at()
    return t


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        dims = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        d = dims[0]
        for e in dims[1:]:
            if d is e:
                continue
            if dim_is1(d):
                d = e if not dim_is1(e) else ONE
            elif dim_is1(e):
                continue
            elif dim_eq(d, e):
                continue
            else:
                if d.op == 'const' and e.op == 'const':
                    raise Raised('TypeError', f'incompatible shapes {d} {e}')
                if refutes(eq(d, e)) and refutes(eq(d, ONE)) and refutes(eq(e, ONE)):
                    raise Raised('TypeError', f'incompatible shapes {d} {e}')
                raise Undecided(f'cannot show that dimensions {d} and {e} are broadcastable')
        out.append(d)
    return tuple(out)


def bat(t, shape, idx):
    """element of t broadcast to shape at idx"""
    if not isinstance(t, Tensor):
        return t
    k = len(shape) - t.ndim
    ii = []
    for d, s, i in zip(t.shape, shape[k:], idx[k:]):
        if d is not s and dim_is1(d) and not dim_is1(s):
            ii.append(ZERO)
        else:
            ii.append(i)
    return t.at(*ii)


def broadcast(ip, fn, vals, dt=None):
    vals = [asarray(ip, v) for v in vals]
    if all(not isinstance(v, Tensor) for v in vals):
        return fn(*vals)
    shape = broadcast_shapes(*[v.shape for v in vals if isinstance(v, Tensor)])
    d = dt or join_dt(*[dt_of(v) for v in vals])
    np = any(is_np(v) for v in vals) and not any(isinstance(v, Tensor) and not v.np for v in vals)
    vs = tuple(fresh('i', 'I', 0, s) for s in shape)
    body = fn(*[bat(v, shape, vs) for v in vals])
    return result(Tensor(shape, vs, body, d, np))


def elementwise(ip, fn, v, dt=None):
    return broadcast(ip, fn, [v], dt)


def num(t):
    return ite(t, ONE, ZERO) if t.sort == 'B' else t


def tpow(ip, b, e):
    b, e = num(b), num(e)
    return power(b, e)


def binop(ip, op, a, b):
    r = binop_(ip, op, a, b)
    return renarrow(r, a, b) if isinstance(r, Tensor) else r


def binop_(ip, op, a, b):
    if isinstance(a, AtProxy) or isinstance(b, AtProxy):
        raise Undecided('at proxy')
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and not isinstance(a, T) and not isinstance(b, T):
        a, b = int(a), int(b)
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'FloorDiv' and b:
            return a // b
        if op == 'Mod' and b:
            return a % b
        if op == 'Pow':
            return a ** b if b >= 0 else const(Fraction(a) ** b)
        if op == 'Div':
            if b == 0:
                raise Raised('ZeroDivisionError')
            return const(Fraction(a, b))
        if op in ('BitAnd', 'BitOr', 'LShift', 'RShift', 'BitXor'):
            return {'BitAnd': a & b, 'BitOr': a | b, 'LShift': a << b, 'RShift': a >> b, 'BitXor': a ^ b}[op]
    if isinstance(a, str) and isinstance(b, str) and op == 'Add':
        return a + b
    if isinstance(a, str):
        return '<str>'
    if op == 'Add' and isinstance(a, (list, SymList)) and isinstance(b, (list, SymList)):
        return concat_lists(ip, a, b)
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == 'Mult' and isinstance(a, (list, tuple)) and isinstance(b, (int, T)) and not isinstance(a, Tensor):
        return rep_list(a, b)
    if op == 'Mult' and isinstance(b, (list, tuple)) and isinstance(a, (int, T)):
        return rep_list(b, a)
    if isinstance(a, (list, tuple, SymList)) and not isinstance(b, Tensor) or \
            isinstance(b, (list, tuple, SymList)) and not isinstance(a, Tensor):
        raise Raised('TypeError', f'{op} on list')
    if isinstance(a, (list, tuple, SymList)) and isinstance(b, Tensor) and not b.np or \
            isinstance(b, (list, tuple, SymList)) and isinstance(a, Tensor) and not a.np:
        raise Raised('TypeError', f'{op} of jax array and list')
    if a is None or b is None:
        raise Raised('TypeError', f'{op} on None')
    if op == 'MatMult':
        return matmul(ip, a, b)
    dt = join_dt(dt_of(a), dt_of(b))
    if dt == 'b':
        dt = 'i'
    if op == 'Add':
        return broadcast(ip, lambda x, y: add(num(x), num(y)), [a, b], dt)
    if op == 'Sub':
        return broadcast(ip, lambda x, y: sub(num(x), num(y)), [a, b], dt)
    if op == 'Mult':
        return broadcast(ip, lambda x, y: mul(num(x), num(y)), [a, b], dt)
    if op == 'Div':
        return broadcast(ip, lambda x, y: mkreal(div(num(x), num(y))), [a, b], 'c' if dt == 'c' else 'f')
    if op == 'Pow':
        return broadcast(ip, lambda x, y: tpow(ip, x, y), [a, b], dt)
    if op == 'FloorDiv':
        return broadcast(ip, lambda x, y: floor_div(x, y), [a, b], dt)
    if op == 'Mod':
        return broadcast(ip, lambda x, y: int_mod(x, y), [a, b], dt)
    if op in ('BitAnd', 'BitOr'):
        f = and_ if op == 'BitAnd' else or_
        r = broadcast(ip, lambda x, y: f(x, y) if x.sort == 'B' and y.sort == 'B' else bad('bit op'), [a, b], 'b')
        return r
    raise Undecided(f'operator {op}')


def mkreal(t):
    return t


def bad(m):
    raise Undecided(m)


def floor_div(x, y):
    if x.sort == 'I' and y.op == 'const' and y.args[0] > 0 and y.args[0].denominator == 1:
        return idiv(x, y)
    return app('floor', div(x, y), sort='I')


def int_mod(x, y):
    if x.sort == 'I' and y.op == 'const' and y.args[0] > 0 and y.args[0].denominator == 1:
        return mod(x, y)
    raise Undecided('modulo')


def rep_list(l, n):
    if isinstance(n, int):
        return l * n
    if n.op == 'const':
        return l * int(n.args[0])
    if len(l) == 1:
        return SymList(n, fresh('k', 'I', 0, n), l[0])
    raise Undecided('list repetition')


def concat_lists(ip, a, b):
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    na = const(len(a)) if isinstance(a, list) else a.n
    nb = const(len(b)) if isinstance(b, list) else b.n
    n = add(na, nb)
    k = fresh('k', 'I', 0, n)
    if isinstance(a, SymList) and isinstance(a.value, (SymList, RangeV)) and isinstance(b, list) and len(b) == 1:
        # a family of integer lists with one more member
        x, y = a.at(k), ip.to_list(b[0])
        if isinstance(x, RangeV):
            x = ip.to_list(x)
        if isinstance(x, SymList) and isinstance(y, SymList):
            j = fresh('j', 'I', 0)
            vx, vy = x.at(j), y.at(j)
            if is_scalar(vx) and is_scalar(vy):
                c = lt(k, na)
                return SymList(n, k, SymList(ite(c, x.n, y.n), j, ite(c, toT(vx), toT(vy))))
        raise Undecided('concatenation of nested lists')
    if isinstance(a, SymList) and isinstance(b, list) and any(not is_scalar(x) for x in b):
        raise Undecided('concatenation of nested lists')

    def get(l, i):
        if isinstance(l, SymList):
            return l.at(i)
        cases = [(eq(i, const(j)), x) for j, x in enumerate(l)]
        from .interp import merge
        return merge(cases)
    from .interp import merge
    if isinstance(a, list) and not a:
        return b
    if isinstance(b, list) and not b:
        return a
    return SymList(n, k, merge([(lt(k, na), get(a, k)), (TRUE, get(b, sub(k, na)))]))


def compare(ip, op, a, b):
    if op == 'Is':
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        raise Undecided('is')
    if op == 'IsNot':
        return not compare(ip, 'Is', a, b)
    if op in ('In', 'NotIn'):
        if isinstance(a, str) and isinstance(b, (str, list, tuple, dict)):
            return (a in b) == (op == 'In')
        if isinstance(b, (list, tuple)) and all(is_scalar(x) for x in b):
            r = FALSE
            for x in b:
                r = or_(r, toT(compare(ip, 'Eq', a, x)))
            return r if op == 'In' else not_(r)
        raise Undecided('in')
    if isinstance(a, str) or isinstance(b, str):
        if op in ('Eq', 'NotEq'):
            return (a == b) == (op == 'Eq')
        raise Undecided('string comparison')
    if a is None or b is None:
        if op in ('Eq', 'NotEq'):
            return (a is b) == (op == 'Eq')
        raise Raised('TypeError', 'comparison with None')
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if op not in ('Eq', 'NotEq'):
            raise Undecided('tuple comparison')
        if len(a) != len(b):
            return op == 'NotEq'
        r = TRUE
        for x, y in zip(a, b):
            r = and_(r, toT(compare(ip, 'Eq', x, y)))
        r = r if op == 'Eq' else not_(r)
        return True if r is TRUE else False if r is FALSE else r
    fn = {'Eq': eq, 'NotEq': lambda x, y: not_(eq(x, y)), 'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}[op]
    r = broadcast(ip, lambda x, y: fn(num(x), num(y)), [a, b], 'b')
    if r is TRUE:
        return True
    if r is FALSE:
        return False
    return r


def logical_and(ip, a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    return broadcast(ip, lambda x, y: and_(x, y), [toB(a), toB(b)], 'b')


def toB(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return v


# =============================================================================== indexing

def norm_idx(ip, i, n, what='index'):
    """normalise one scalar index against dimension n, with an in-bounds proof"""
    if isinstance(i, bool):
        raise Undecided('boolean index')
    if isinstance(i, int):
        if i >= 0:
            if n.op == 'const':
                if i >= n.args[0]:
                    raise Raised('IndexError')
            elif not proves(lt(const(i), n)):
                if not ip.decide(lt(const(i), n)):
                    raise OOB(f'index {i} out of range for length {n}')
            return const(i)
        if n.op == 'const':
            if -i > n.args[0]:
                raise Raised('IndexError')
        elif not proves(le(const(-i), n)):
            if not ip.decide(le(const(-i), n)):
                raise OOB(f'index {i} out of range for length {n}')
        return add(n, const(i))
    i = toT(i)
    if i.op == 'const':
        return norm_idx(ip, int(i.args[0]), n)
    if i.sort != 'I':
        i2 = NF.canon(i)
        if i2.sort != 'I' and not int_valued(i2):
            raise Undecided(f'non-integer index {show(i)[:80]}')
    if not proves(and_(le(ZERO, i), lt(i, n))):
        if proves(and_(lt(i, ZERO), le(neg(n), i))):
            return add(i, n)
        ic = NF.canon(i)
        if ic is not i and proves(and_(le(ZERO, ic), lt(ic, n))):
            return ic
        raise Undecided(f'cannot show index {show(i)[:120]} < {show(n)[:80]} in bounds')
    return i


def int_valued(t):
    if t.sort == 'I':
        return True
    if t.op in ('add', 'mul'):
        return all(int_valued(x) for x in t.args)
    return False


class OOB(Raised):
    def __init__(self, msg):
        Raised.__init__(self, 'IndexError', msg)


def slice_range(ip, s, n):
    """slice -> (start, length, step)"""
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, T) and step.op == 'const':
        step = int(step.args[0])
    if not isinstance(step, int):
        raise Undecided('symbolic slice step')

    def clampidx(x, default):
        if x is None:
            return default
        if isinstance(x, T) and x.op == 'const':
            x = int(x.args[0])
        if isinstance(x, int):
            if x < 0:
                if n.op == 'const':
                    return const(max(0, int(n.args[0]) + x))
                if proves(le(const(-x), n)) or ip.decide(le(const(-x), n)):
                    return add(n, const(x))
                return ZERO
            if n.op == 'const':
                return const(min(x, int(n.args[0])))
            if proves(le(const(x), n)) or ip.decide(le(const(x), n)):
                return const(x)
            return n
        x = toT(x)
        if proves(le(ZERO, x)) or ip.decide(le(ZERO, x)):
            if proves(le(x, n)) or ip.decide(le(x, n)):
                return x
            return n
        y = add(n, x)
        if proves(le(ZERO, y)) or ip.decide(le(ZERO, y)):
            return y
        return ZERO
    if step > 0:
        lo = clampidx(s.start, ZERO)
        hi = clampidx(s.stop, n)
        length = sub(hi, lo)
        if length.op == 'const':
            length = const(max(0, int(length.args[0])))
        elif length is not n and not proves(le(ZERO, length)) and not ip.decide(le(ZERO, length)):
            length = ZERO
        if step > 1:
            length = idiv(add(length, const(step - 1)), const(step))
        return lo, length, step
    if s.start is None and s.stop is None:
        if step == -1:
            return sub(n, ONE), n, -1
    raise Undecided('negative slice step')


def parse_key(ip, key, t):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        p = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (t.ndim - nreal)
    else:
        key += [slice(None)] * (t.ndim - nreal)
    if sum(1 for k in key if k is not None) != t.ndim:
        raise Raised('IndexError', 'too many indices')
    return key


def getitem(ip, base, key):
    if isinstance(base, NzIdx) and (key == -1 or isinstance(key, T) and key.op == 'const' and key.args[0] == -1):
        return max_(ip, base)
    if isinstance(base, AtProxy):
        return AtProxy(base.t, key)
    if isinstance(base, Instance):
        vals = [base.fields[k] for k in base.cls.fields]
        return getitem(ip, tuple(vals), key)
    if isinstance(base, (list, tuple)):
        if isinstance(key, slice):
            ks = [None if x is None else int(toT(x).args[0]) if toT(x).op == 'const' else bad('symbolic slice of a list')
                  for x in (key.start, key.stop, key.step)]
            return base[slice(*ks)]
        k = toT(key)
        if k.op == 'const':
            i = int(k.args[0])
            if not -len(base) <= i < len(base):
                raise Raised('IndexError')
            return base[i]
        if isinstance(base, list) or isinstance(base, tuple):
            i = norm_idx(ip, k, const(len(base)))
            from .interp import merge
            return merge([(eq(i, const(j)), x) for j, x in enumerate(base)])
    if isinstance(base, dict):
        return base[key]
    if isinstance(base, str):
        if isinstance(key, slice):
            ks = [None if x is None else int(toT(x).args[0]) if toT(x).op == 'const' else bad('symbolic slice of a string')
                  for x in (key.start, key.stop, key.step)]
            return base[slice(*ks)]
        k = toT(key)
        if base == '<str>' or k.op != 'const':
            return '<str>'
        if not -len(base) <= int(k.args[0]) < len(base):
            raise Raised('IndexError')
        return base[int(k.args[0])]
    if isinstance(base, SymList):
        if isinstance(key, slice):
            lo, n, st = slice_range(ip, key, base.n)
            k = fresh('k', 'I', 0, n)
            return SymList(n, k, base.at(add(lo, mul(const(st), k))))
        return base.at(norm_idx(ip, key, base.n))
    if isinstance(base, RangeV):
        return base.at(norm_idx(ip, key, base.n))
    if isinstance(base, T):
        base = Tensor((), (), base, dt_of(base))
    if not isinstance(base, Tensor):
        raise Undecided(f'indexing {type(base).__name__}')
    t = base
    key = parse_key(ip, key, t)
    adv = [j for j, k in enumerate(key) if isinstance(k, (Tensor, list, SymList)) and not
           (isinstance(k, Tensor) and k.ndim == 0)]
    key = [k.at() if isinstance(k, Tensor) and k.ndim == 0 else k for k in key]
    outshape = []       # (dimension)
    plan = []           # per input dim: function(out idx list) -> index
    basic = True
    advshape = ()
    if adv:
        basic = False
        ats = {j: arr(ip, key[j]) for j in adv}
        for a in ats.values():
            if a.dt == 'b':
                raise Undecided('boolean mask')
        advshape = broadcast_shapes(*[a.shape for a in ats.values()])
        # scalars mixed with advanced indices count as advanced for placement
        ints = [j for j, k in enumerate(key) if k is not None and not isinstance(k, slice) and j not in adv]
        alladv = sorted(adv + ints)
        contiguous = alladv == list(range(alladv[0], alladv[-1] + 1))
    pos = 0
    advpos = None
    dims = iter(range(t.ndim))
    k_dim = 0
    slots = []
    if adv and not contiguous:
        advpos = 0
        outshape += list(advshape)
        pos = len(advshape)
    for j, k in enumerate(key):
        if k is None:
            outshape.append(ONE)
            pos += 1
            continue
        n = t.shape[k_dim]
        if isinstance(k, slice):
            lo, ln, st = slice_range(ip, k, n)
            p = pos
            plan.append(lambda o, p=p, lo=lo, st=st: add(lo, mul(const(st), o[p])))
            outshape.append(ln)
            pos += 1
        elif j in adv:
            if advpos is None:
                advpos = pos
                outshape += list(advshape)
                pos += len(advshape)
            a = ats[j]
            vs = a.vs
            # in-bounds proof for all elements
            rng = []
            idx = a.body
            with assuming(*[c for v, s in zip(a.vs, a.shape) for c in (le(ZERO, v), lt(v, s))]):
                nidx = norm_idx(ip, idx, n)
            a2 = Tensor(a.shape, a.vs, nidx, 'i')
            ap = advpos
            plan.append(lambda o, a2=a2, ap=ap: bat(a2, advshape, o[ap:ap + len(advshape)]))
        else:
            i = norm_idx(ip, k, n)
            plan.append(lambda o, i=i: i)
        k_dim += 1
    vs = tuple(fresh('i', 'I', 0, s) for s in outshape)
    body = t.at(*[f(vs) for f in plan])
    r = Tensor(outshape, vs, body, t.dt, t.np)
    if t.np and basic and outshape:
        r.viewof = (t, t.version)
    return result(r)


def setitem(ip, base, key, val, op='set'):
    if isinstance(base, (list, dict)):
        ip.check_shared(base)
    if isinstance(base, list):
        k = toT(key) if not isinstance(key, slice) else bad('list slice assignment')
        if k.op == 'const':
            base[int(k.args[0])] = val
            return
        raise Undecided('symbolic list assignment')
    if isinstance(base, SymList):
        i = norm_idx(ip, key, base.n)
        from .interp import merge
        old = base.value
        base.value = merge([(eq(base.var, i), val), (TRUE, old)])
        return
    if isinstance(base, dict):
        base[key] = val
        return
    if not isinstance(base, Tensor):
        raise Undecided(f'setitem on {type(base).__name__}')
    if not base.np:
        raise Raised('TypeError', 'jax arrays are immutable')
    new = set_tensor(ip, base, key, val, op)
    ip.mutate(base, new)


def set_tensor(ip, t, key, val, op='set'):
    key = parse_key(ip, key, t)
    key = [k.at() if isinstance(k, Tensor) and k.ndim == 0 else k for k in key]
    val = asarray(ip, val)
    vs = tuple(fresh('i', 'I', 0, s) for s in t.shape)
    conds = []
    outshape, oidx = [], []
    k_dim = 0
    for k in key:
        if k is None:
            outshape.append(ONE)
            oidx.append(ZERO)
            continue
        n = t.shape[k_dim]
        v = vs[k_dim]
        if isinstance(k, slice):
            lo, ln, st = slice_range(ip, k, n)
            if st == 1:
                conds += [le(lo, v), lt(v, add(lo, ln))] if not (lo is ZERO and ln is n) else []
                outshape.append(ln)
                oidx.append(sub(v, lo))
            elif st == -1:
                outshape.append(ln)
                oidx.append(sub(lo, v))
            else:
                raise Undecided('strided assignment')
        elif isinstance(k, (Tensor, list, SymList)):
            raise Undecided('advanced assignment')
        else:
            i = norm_idx(ip, k, n)
            conds.append(eq(v, i))
        k_dim += 1
    old = t.at(*vs)
    if isinstance(val, Tensor):
        shp = broadcast_shapes(tuple(outshape), val.shape)
        if len(shp) != len(outshape) or not all(dim_eq(a, b) for a, b in zip(shp, outshape)):
            raise Raised('ValueError', 'shape mismatch in assignment')
        new = bat(val, tuple(outshape), tuple(oidx))
    else:
        new = val
    new = num(new) if t.dt != 'b' else new
    if op == 'add':
        new = add(old, new)
    elif op == 'multiply':
        new = mul(old, new)
    elif op != 'set':
        raise Undecided(f'at.{op}')
    # the written values are converted to the array's dtype
    if t.dt == 'i' and new.sort != 'I' and dt_of(val) not in ('i', 'b') and not int_valued(new):
        new = app('trunc', new, sort='I')
    if isinstance(t.dt, Narrow):
        new = narrowed(t.dt.narrow, new)
    if t.dt != 'c' and dt_of(val) == 'c':
        raise Undecided('complex values stored in a real array')
    # under the write condition
    return Tensor(t.shape, vs, ite(and_(*conds), new, old), t.dt, t.np)


class AtProxy:
    def __init__(self, t, key=None):
        self.t, self.key = t, key


# =============================================================================== attributes

def getattr_(ip, v, name):
    if isinstance(v, GridAxes):
        from .interp import Builtin
        if name != 'reshape':
            raise Undecided('symbolic grid')
        return Builtin('reshape', lambda *sh: reshape(ip, v, *sh))
    from .interp import RepoMod, BoundMethod, Builtin, Closure
    if isinstance(v, Mod):
        return resolve(ip, v.name + '.' + name)
    if isinstance(v, RepoMod):
        return v.attr(name)
    if isinstance(v, Instance):
        if name in v.fields:
            return v.fields[name]
        if name in v.cls.methods:
            kind, f = v.cls.methods[name]
            if kind == 'prop':
                return ip.call(f, [v])
            return ip.class_attr(v.cls, name, v)
        if name == '_replace':
            def rep(**k):
                return Instance(v.cls, {**v.fields, **k})
            return Builtin('_replace', rep)
        raise Raised('AttributeError', name)
    if isinstance(v, ClassObj):
        return ip.class_attr(v, name)
    if isinstance(v, AtProxy):
        return Builtin('at.' + name, lambda val, **k: at_method(ip, v, name, val))
    if is_scalar(v) and not isinstance(v, bool):
        t = toT(v)
        v = Tensor((), (), t, dt_of(t))
        return tensor_attr(ip, v, name)
    if isinstance(v, Tensor):
        return tensor_attr(ip, v, name)
    if isinstance(v, list):
        if name in ('append', 'extend', 'insert', 'pop'):
            ip.check_shared(v)
        if name == 'append':
            return Builtin('append', lambda x: v.append(x))
        if name == 'copy':
            return Builtin('copy', lambda: list(v))
        if name == 'extend':
            return Builtin('extend', lambda x: v.extend(ip.to_list(x)))
        if name == 'insert':
            return Builtin('insert', lambda i, x: v.insert(i, x))
        if name == 'pop':
            return Builtin('pop', lambda i=-1: v.pop(i))
        if name == 'index':
            raise Undecided('list.index')
    if isinstance(v, dict):
        if name == 'get':
            return Builtin('get', lambda k, d=None: v.get(k, d))
        if name == 'items':
            return Builtin('items', lambda: [(a, b) for a, b in v.items()])
    if isinstance(v, str):
        def smeth(*a):
            return getattr(v, name)(*a)
        return Builtin('str.' + name, smeth)
    if name == 'append' and type(v).__name__ == 'LoopList':
        return Builtin('append', lambda x: v.added.append(x))
    if isinstance(v, SymList) and name == 'append':
        def app_(x):
            k = fresh('k', 'I', 0, add(v.n, ONE))
            from .interp import merge
            old = v.at(k)
            v.value = merge([(lt(k, v.n), old), (TRUE, x)])
            v.var = k
            v.n = add(v.n, ONE)
        return Builtin('append', app_)
    if name == 'defjvp' and getattr(v, 'qualname', None) in CUSTOM_JVP:
        return Builtin('defjvp', lambda f: f)
    raise Undecided(f'attribute {name} of {type(v).__name__}')


def at_method(ip, p, name, val):
    if p.t.np:
        raise Raised('AttributeError', 'at')
    return result(set_tensor(ip, p.t, p.key, val, {'set': 'set', 'add': 'add', 'mul': 'multiply',
                                                   'multiply': 'multiply'}.get(name, name)))


def tensor_attr(ip, t, name):
    from .interp import Builtin, pyint
    if name == 'shape':
        return tuple(pyint(s) for s in t.shape)
    if name == 'ndim':
        return t.ndim
    if name == 'size':
        return pyint(mul(*t.shape)) if t.shape else 1
    if name == 'dtype':
        if isinstance(t.dt, Narrow):
            return Dtype(t.dt.narrow)
        return Dtype({'f': 'float64', 'i': 'int64', 'c': 'complex128', 'b': 'bool'}.get(t.dt, t.dt))
    if name == 'T':
        return transpose(ip, t)
    if name == 'at':
        return AtProxy(t)
    if name == 'real':
        return elementwise(ip, real_part, t, 'f')
    if name == 'imag':
        return elementwise(ip, imag_part, t, 'f')
    fn = TENSOR_METHODS.get(name)
    if fn is None:
        raise Undecided(f'array method {name}')
    return Builtin('array.' + name, lambda *a, **k: fn(ip, t, *a, **k))


def re_im(x):
    """(real part, imaginary part); symbols other than the imaginary unit are real"""
    if NF.IMAG not in x.fv:
        return x, ZERO
    if x is NF.IMAG:
        return ZERO, ONE
    op, a = x.op, x.args
    if op == 'add':
        ps = [re_im(t) for t in a]
        return add(*[p[0] for p in ps]), add(*[p[1] for p in ps])
    if op == 'mul':
        r, i = ONE, ZERO
        for t in a:
            c, d = re_im(t)
            r, i = sub(mul(r, c), mul(i, d)), add(mul(r, d), mul(i, c))
        return r, i
    if op == 'pow' and a[1].op == 'const' and a[1].args[0].denominator == 1 and 0 < a[1].args[0] < 9:
        r, i = ONE, ZERO
        c, d = re_im(a[0])
        for _ in range(int(a[1].args[0])):
            r, i = sub(mul(r, c), mul(i, d)), add(mul(r, d), mul(i, c))
        return r, i
    if op == 'sum':
        c, d = re_im(a[3])
        return summ(a[0], a[1], a[2], c), summ(a[0], a[1], a[2], d)
    if op == 'ite':
        c, d = re_im(a[1]), re_im(a[2])
        return ite(a[0], c[0], d[0]), ite(a[0], c[1], d[1])
    if op == 'app' and a[0] == 'exp':
        c, d = re_im(a[1])
        return mul(app('exp', c), app('cos', d)), mul(app('exp', c), app('sin', d))
    raise Undecided('real part')


def real_part(x):
    return re_im(x)[0]


def imag_part(x):
    return re_im(x)[1]


def transpose(ip, x, axes=None):
    t = arr(ip, x)
    if axes is None:
        axes = tuple(reversed(range(t.ndim)))
    axes = [int(toT(a).args[0]) % t.ndim for a in ip.to_list(axes)]
    vs = tuple(fresh('i', 'I', 0, t.shape[a]) for a in axes)
    src = [None] * t.ndim
    for k, a in enumerate(axes):
        src[a] = vs[k]
    return result(Tensor([t.shape[a] for a in axes], vs, t.at(*src), t.dt, t.np))


def cdim(x):
    x = toT(x)
    return int(x.args[0]) if x.op == 'const' else None


def reshape(ip, x, *shape):
    if isinstance(x, GridAxes):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        if not x.stacked or len(shape) != 2 or not dim_eq(toT(shape[1]), x.d) or \
                not (toT(shape[0]) is const(-1) or dim_eq(toT(shape[0]), power(x.n, x.d))):
            raise Undecided('reshape of a symbolic grid')
        return x.rows()
    t = arr(ip, x)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    shape = [toT(s) for s in shape]
    src = [(k, d) for k, d in enumerate(t.shape) if not dim_is1(d)]
    neg1 = [k for k, s in enumerate(shape) if s.op == 'const' and s.args[0] == -1]
    if neg1:
        others = [s for k, s in enumerate(shape) if k != neg1[0]]
        rest = list(src)
        known = []
        for s in others:
            if dim_is1(s):
                continue
            hit = next((p for p in rest if dim_eq(p[1], s)), None)
            if hit is None:
                raise Undecided('reshape')
            rest.remove(hit)
        # only sound if order is preserved: require at most one remaining dim
        if len(rest) > 1:
            if all(r[1].op == 'const' for r in rest):
                tot = 1
                for r in rest:
                    tot *= int(r[1].args[0])
                shape[neg1[0]] = const(tot)
            elif len(shape) == 1:
                return ravel_general(ip, t, src)
            else:
                raise Undecided('reshape')
        else:
            shape[neg1[0]] = rest[0][1] if rest else ONE
    dst = [(k, d) for k, d in enumerate(shape) if not dim_is1(d)]
    if len(src) == len(dst) and all(dim_eq(a[1], b[1]) for a, b in zip(src, dst)):
        vs = tuple(fresh('i', 'I', 0, s) for s in shape)
        idx = [ZERO] * t.ndim
        for a, b in zip(src, dst):
            idx[a[0]] = vs[b[0]]
        return result(Tensor(shape, vs, t.at(*idx), t.dt, t.np))
    if all(d.op == 'const' for d in t.shape) and all(d.op == 'const' for d in shape):
        vs = tuple(fresh('i', 'I', 0, s) for s in shape)
        flat = ZERO
        for v, s in zip(vs, shape):
            flat = add(mul(flat, s), v)
        idx = []
        for s in reversed(t.shape):
            idx.append(mod(flat, s))
            flat = idiv(flat, s)
        return result(Tensor(shape, vs, t.at(*reversed(idx)), t.dt, t.np))
    raise Undecided('general reshape')


def ravel_general(ip, t, src):
    raise Undecided('ravel of a matrix')


# =============================================================================== reductions

def axes_of(ip, t, axis):
    if axis is None:
        return list(range(t.ndim))
    if isinstance(axis, (tuple, list)):
        return [int(toT(a).args[0]) % t.ndim for a in axis]
    a = toT(axis)
    if a.op != 'const':
        raise Undecided('symbolic axis')
    a = int(a.args[0])
    if not -t.ndim <= a < t.ndim:
        raise Raised('ValueError', 'axis out of range')
    return [a % t.ndim]


def reduce_(ip, x, axis, fn, keepdims=False, dt=None):
    """fn(var, n, body) -> T"""
    t = arr(ip, x)
    ax = axes_of(ip, t, axis)
    vs = tuple(fresh('i', 'I', 0, s) for s in t.shape)
    body = num(t.at(*vs))
    for a in reversed(ax):
        w = fresh('r', 'I')
        body = fn(w, t.shape[a], subst(body, {vs[a]: w}))
    if keepdims:
        shape = [ONE if k in ax else s for k, s in enumerate(t.shape)]
        ws = [fresh('i', 'I', 0, 1) if k in ax else vs[k] for k in range(t.ndim)]
        return Tensor(shape, ws, body, dt or t.dt, t.np)
    keep = [k for k in range(t.ndim) if k not in ax]
    return result(Tensor([t.shape[k] for k in keep], [vs[k] for k in keep], body, dt or t.dt, t.np))


def with_dtype(f, cast_input=False):
    """a library function with a dtype argument: the value converted to it"""
    def g(ip, *a, dtype=None, **kw):
        if dtype is None:
            return f(ip, *a, **kw)
        if cast_input and a:
            a = (cast(ip, a[0], dtype),) + a[1:]
        r = f(ip, *a, **kw)
        n = str(dtype.name if isinstance(dtype, Dtype) else getattr(dtype, 'name', dtype)).split('.')[-1]
        if isinstance(r, Tensor) and isinstance(r.dt, Narrow) and r.dt.narrow == n:
            return Tensor(r.shape, r.vs, narrowed(n, r.body), r.dt, r.np)
        return cast(ip, r, dtype)
    return g


def red_sum(ip, x, axis=None, keepdims=False, **kw):
    no_kw(kw)
    if isinstance(x, (list, tuple, SymList)):
        x = asarray(ip, x)
    return reduce_(ip, x, axis, lambda v, n, b: summ(v, ZERO, n, b), keepdims)


red_sum = with_dtype(red_sum, True)


def no_kw(kw, *ok):
    for k, v in kw.items():
        if k not in ok and v is not None:
            raise Undecided(f'keyword {k}')


def red_prod(ip, x, axis=None, keepdims=False, **kw):
    no_kw(kw)
    return reduce_(ip, x, axis, lambda v, n, b: prod(v, ZERO, n, b), keepdims)


red_prod = with_dtype(red_prod, True)


def red_mean(ip, x, axis=None, keepdims=False, **kw):
    no_kw(kw)
    return reduce_(ip, x, axis, lambda v, n, b: div(summ(v, ZERO, n, b), n), keepdims, 'f')


def average(ip, x, axis=None, weights=None, **kw):
    no_kw(kw)
    if weights is None:
        return red_mean(ip, x, axis)
    w = arr(ip, weights)
    t = arr(ip, x)
    if w.ndim == 1 and t.ndim > 1:
        ax = axes_of(ip, t, axis)[0]
        s = red_sum(ip, w)
        r = reduce_(ip, binop(ip, 'Mult', t, tab(t.shape, lambda *i: w.at(i[ax]))), ax,
                    lambda v, n, b: summ(v, ZERO, n, b))
        return binop(ip, 'Div', r, s)
    return binop(ip, 'Div', red_sum(ip, binop(ip, 'Mult', x, weights), axis), red_sum(ip, weights, axis))


def opaque_reduce(name):
    def f(ip, x, axis=None, keepdims=False, **kw):
        no_kw(kw)
        sort = 'I' if name.startswith('arg') else 'R'

        def g(v, n, b):
            i = fresh('i', 'I', 0, n)
            return app(name, lam((i,), (n,), subst(b, {v: i})), sort=sort)
        t = arr(ip, x)
        if axis is None and t.ndim > 1:
            raise Undecided(f'{name} over several axes')
        if name == 'argsort':
            raise Undecided('argsort')
        return reduce_(ip, x, axis, g, keepdims, 'i' if name.startswith('arg') else None)
    return f


class NzIdx:
    """positions of the non-zero entries of a vector"""

    def __init__(self, t):
        self.t = t


def nonzero(ip, x):
    t = arr(ip, x)
    if t.ndim != 1:
        raise Undecided('nonzero of a matrix')
    return (NzIdx(t),)


def any_from(ip, t, c):
    n = sub(t.shape[0], const(c))
    return quant(ip, tab((n,), lambda i: t.at(add(i, const(c))), t.dt), None, 'any')


def last_nonzero(ip, t):
    """last position of a non-zero entry; an exception if there is none"""
    L = NF.canon(t.lam())
    r = app('lastnz', L, sort='I')
    for c in (0, 1):
        if proves(le(const(c + 1), t.shape[0])):
            ax = or_(not_(any_from(ip, t, c)), le(const(c), r))
            if ax not in Ctx.base:
                Ctx.base.append(ax)
    return r


APP_RANGE['argminr'] = APP_RANGE['argmaxr'] = lambda t: (ZERO, t.args[1].args[1][0])
APP_RANGE['lastnz'] = lambda t: (ZERO, t.args[1].args[1][0])


def max_(ip, x, *a, **kw):
    if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], NzIdx):
        x = x[0]
    if isinstance(x, NzIdx):
        if not (proves(any_from(ip, x.t, 0)) or proves(any_from(ip, x.t, 1))):
            raise Undecided('maximum of a possibly empty set')
        return last_nonzero(ip, x.t)
    return opaque_reduce('maxr')(ip, x, *a, **kw)


def cumsum(ip, x, axis=None, **kw):
    no_kw(kw)
    t = arr(ip, x)
    if axis is None:
        if t.ndim != 1:
            raise Undecided('cumsum flatten')
        axis = 0
    a = axes_of(ip, t, axis)[0]
    vs = tuple(fresh('i', 'I', 0, s) for s in t.shape)
    w = fresh('r', 'I')
    body = summ(w, ZERO, add(vs[a], ONE), t.at(*[w if k == a else v for k, v in enumerate(vs)]))
    return Tensor(t.shape, vs, body, t.dt, t.np)


cumsum = with_dtype(cumsum, True)


def cumprod(ip, x, axis=None, **kw):
    no_kw(kw)
    t = arr(ip, x)
    if t.ndim != 1:
        raise Undecided('cumprod')
    v = fresh('i', 'I', 0, t.shape[0])
    w = fresh('r', 'I')
    return Tensor(t.shape, (v,), prod(w, ZERO, add(v, ONE), t.at(w)), t.dt, t.np)


cumprod = with_dtype(cumprod, True)


def diff(ip, x, n=1, axis=-1):
    t = arr(ip, x)
    if n != 1:
        raise Undecided('diff')
    a = axes_of(ip, t, axis)[0]
    shp = [sub(s, ONE) if k == a else s for k, s in enumerate(t.shape)]
    return tab(shp, lambda *i: sub(t.at(*[add(v, ONE) if k == a else v for k, v in enumerate(i)]), t.at(*i)), t.dt, t.np)


# =============================================================================== linear algebra

def einsum(ip, spec, *ops, **kw):
    no_kw(kw, 'precision', 'optimize')
    if not isinstance(spec, str):
        raise Undecided('einsum without a string')
    spec = spec.replace(' ', '')
    ops = [arr(ip, o) for o in ops]
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs, out = spec, None
    terms = lhs.split(',')
    if len(terms) != len(ops):
        raise Raised('ValueError', 'einsum operands')
    letters = 'ABCDEFGHIJ'
    nell = 0
    for s, o in zip(terms, ops):
        if '...' in s:
            nell = max(nell, o.ndim - len(s.replace('...', '')))
    ell = letters[:nell]
    new = []
    for s, o in zip(terms, ops):
        if '...' in s:
            k = o.ndim - len(s.replace('...', ''))
            s = s.replace('...', ell[nell - k:] if k else '')
        if len(s) != o.ndim:
            raise Raised('ValueError', 'einsum rank')
        new.append(s)
    if out is None:
        cnt = {}
        for s in new:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        out = ell + ''.join(sorted(c for c in cnt if cnt[c] == 1 and c not in ell))
    else:
        out = out.replace('...', ell)
    dims = {}
    for s, o in zip(new, ops):
        for c, d in zip(s, o.shape):
            if c in dims:
                if dims[c] is d:
                    continue
                if dim_is1(dims[c]) and not dim_is1(d):
                    dims[c] = d
                elif not dim_is1(d) and not dim_eq(dims[c], d):
                    if refutes(eq(dims[c], d)):
                        raise Raised('ValueError', 'einsum dimensions')
                    raise Undecided(f'einsum dimensions {dims[c]} and {d}')
            else:
                dims[c] = d
    allc = list(dict.fromkeys(''.join(new)))
    vs = {c: fresh('i', 'I', 0, dims[c]) if c in out else fresh('r', 'I') for c in allc}
    fac = []
    for s, o in zip(new, ops):
        idx = [ZERO if dim_is1(d) and not dim_is1(dims[c]) else vs[c] for c, d in zip(s, o.shape)]
        fac.append(num(o.at(*idx)))
    body = mul(*fac)
    for c in allc:
        if c not in out:
            body = summ(vs[c], ZERO, dims[c], body)
    np = all(o.np for o in ops if o.ndim)
    return result(Tensor([dims[c] for c in out], [vs[c] for c in out], body, join_dt(*[o.dt for o in ops]), np))


def dot(ip, a, b, **kw):
    no_kw(kw, 'precision')
    x, y = arr(ip, a), arr(ip, b)
    if x.ndim == 0 or y.ndim == 0:
        return binop(ip, 'Mult', a, b)
    if x.ndim == 1 and y.ndim == 1:
        return einsum(ip, 'i,i->', x, y)
    if y.ndim == 1:
        return einsum(ip, '...i,i->...', x, y)
    if x.ndim == 2 and y.ndim == 2 or x.ndim == 1 and y.ndim == 2:
        return einsum(ip, '...i,ij->...j', x, y)
    raise Undecided('dot')


def matmul(ip, a, b, **kw):
    no_kw(kw, 'precision')
    x, y = arr(ip, a), arr(ip, b)
    if x.ndim == 0 or y.ndim == 0:
        raise Raised('ValueError', 'matmul of scalars')
    if x.ndim == 1 and y.ndim == 1:
        return einsum(ip, 'i,i->', x, y)
    if x.ndim == 1:
        return einsum(ip, 'i,...ij->...j', x, y)
    if y.ndim == 1:
        return einsum(ip, '...ij,j->...i', x, y)
    return einsum(ip, '...ij,...jk->...ik', x, y)


def outer(ip, a, b):
    x, y = arr(ip, a), arr(ip, b)
    if x.ndim != 1 or y.ndim != 1:
        if x.ndim <= 1 and y.ndim <= 1:
            return reshape(ip, binop(ip, 'Mult', a, b), (-1, 1))
        raise Undecided('outer')
    return einsum(ip, 'i,j->ij', x, y)


def is_lower(t):
    """body known to vanish above the diagonal"""
    b = t.body
    if b.op == 'app' and b.args[0] in LOWER_HEADS and b.args[-2:] == t.vs[-2:]:
        return True
    i, j = fresh('i', 'I', 0, t.shape[-2]), fresh('j', 'I', 0, t.shape[-1])
    with assuming(lt(i, j)):
        try:
            return prove_eq(t.at(*t.vs[:-2], i, j), ZERO)
        except Undecided:
            return False


LOWER_HEADS = {'chol', 'ldlchol'}


def triinv_lam(t, lower):
    """lam of the lower-triangular matrix actually used"""
    if lower:
        if is_lower(t):
            return t.lam()
        i, j = fresh('i', 'I', 0, t.shape[0]), fresh('j', 'I', 0, t.shape[1])
        return lam((i, j), t.shape, ite(le(j, i), t.at(i, j), ZERO))
    i, j = fresh('i', 'I', 0, t.shape[0]), fresh('j', 'I', 0, t.shape[1])
    return lam((i, j), t.shape, ite(le(i, j), t.at(i, j), ZERO))


def triangular_solve(ip, a, b, left_side=False, lower=False, transpose_a=False, conjugate_a=False,
                     unit_diagonal=False):
    A, B = arr(ip, a), arr(ip, b)
    left_side, lower, transpose_a = map(ip.truth, (left_side, lower, transpose_a))
    if ip.truth(unit_diagonal):
        raise Undecided('unit_diagonal')
    if A.ndim != 2:
        raise Undecided('batched triangular_solve')
    n = A.shape[0]
    single = B.ndim == 1
    if single:
        B = expand_dims(ip, B, -1 if left_side else -2)
    if B.ndim != 2:
        raise Raised('TypeError', 'triangular_solve rank')
    need = B.shape[0] if left_side else B.shape[1]
    if not dim_eq(need, n):
        if refutes(eq(need, n)):
            raise Raised('TypeError', 'triangular_solve dimensions')
        # dimensions may or may not agree
        if not ip.decide(eq(need, n)):
            raise Raised('TypeError', 'triangular_solve dimensions')
    L = NF.canon(triinv_lam(A, lower))

    def ti(i, k):
        return app('triinv', L, k, i) if transpose_a else app('triinv', L, i, k)
    k = fresh('r', 'I')
    if left_side:
        r = tab(B.shape, lambda i, j: summ(k, ZERO, n, mul(ti(i, k), B.at(k, j))))
    else:
        r = tab(B.shape, lambda i, j: summ(k, ZERO, n, mul(B.at(i, k), ti(k, j))))
    if single:
        r = reshape(ip, r, (need,)) if not dim_is1(need) else tab((need,), lambda i: r.at(i, ZERO) if left_side else r.at(ZERO, i))
    return r


def solve_triangular(ip, a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    A, B = arr(ip, a), arr(ip, b)
    no_kw(kw, 'check_finite', 'overwrite_b')
    tr = trans in (1, 'T', 2, 'C')
    return triangular_solve(ip, A, B, left_side=True, lower=lower, transpose_a=tr, unit_diagonal=unit_diagonal)


def expand_dims(ip, x, axis):
    t = arr(ip, x)
    a = int(toT(axis).args[0])
    if a < 0:
        a += t.ndim + 1
    key = [slice(None)] * t.ndim
    key.insert(a, None)
    return getitem(ip, t, tuple(key))


def sym_lam(ip, t):
    """canonical lam of a (provably) symmetric matrix; otherwise its symmetric part"""
    L = NF.canon(t.lam())
    if NF.lam_symmetric(L):
        return L
    i, j = fresh('i', 'I', 0, t.shape[0]), fresh('j', 'I', 0, t.shape[0])
    return NF.canon(lam((i, j), t.shape, div(add(t.at(i, j), t.at(j, i)), const(2))))


def cholesky(ip, a, upper=False, symmetrize_input=True, **kw):
    t = arr(ip, a)
    if t.ndim > 2:
        i = [fresh('i', 'I', 0, s) for s in t.shape[:-2]]
        sub_t = tab(t.shape[-2:], lambda *j: t.at(*i, *j))
        r = cholesky(ip, sub_t, upper)
        return Tensor(t.shape, tuple(i) + r.vs, r.body, 'f')
    if t.ndim != 2:
        raise Raised('ValueError', 'cholesky rank')
    square(ip, t)
    L = sym_lam(ip, t)
    up = ip.truth(upper)
    return tab(t.shape, lambda i, j: app('chol', L, j, i) if up else app('chol', L, i, j))


def square(ip, t):
    if not dim_eq(t.shape[-1], t.shape[-2]):
        raise Undecided('matrix not provably square')


def cho_factor(ip, a, lower=False, **kw):
    no_kw(kw, 'check_finite', 'overwrite_a')
    low = ip.truth(lower)
    return (cholesky(ip, a, upper=not low), low)


def cho_solve(ip, c_and_lower, b, **kw):
    no_kw(kw, 'check_finite', 'overwrite_b')
    c, low = c_and_lower
    c = arr(ip, c)
    low = ip.truth(low)
    L = c if low else transpose(ip, c)
    y = triangular_solve(ip, L, b, left_side=True, lower=True)
    return triangular_solve(ip, L, y, left_side=True, lower=True, transpose_a=True)


def inv(ip, a, **kw):
    no_kw(kw)
    t = arr(ip, a)
    square(ip, t)
    if t.ndim != 2:
        raise Undecided('batched inverse')
    L = NF.canon(t.lam())
    return tab(t.shape, lambda i, j: app('inv', L, i, j))


def solve(ip, a, b, **kw):
    no_kw(kw, 'assume_a', 'lower')
    A, B = arr(ip, a), arr(ip, b)
    square(ip, A)
    if A.ndim != 2:
        raise Undecided('batched solve')
    if not dim_eq(A.shape[0], B.shape[0]):
        raise Undecided('solve dimensions')
    L = NF.canon(A.lam())
    k = fresh('r', 'I')
    return tab(B.shape, lambda i, *j: summ(k, ZERO, A.shape[0], mul(app('inv', L, i, k), B.at(k, *j))))


def eigh_lax(ip, a, lower=True, symmetrize_input=True, sort_eigenvalues=True, **kw):
    w, v = _eigh(ip, a, ip.truth(sort_eigenvalues))
    return v, w


def eigh_np(ip, a, **kw):
    no_kw(kw)
    w, v = _eigh(ip, a, True)
    return (w, v)


def _eigh(ip, a, srt):
    t = arr(ip, a)
    if t.ndim > 2:
        i = tuple(fresh('i', 'I', 0, s) for s in t.shape[:-2])
        w, v = _eigh(ip, tab(t.shape[-2:], lambda *j: t.at(*i, *j)), srt)
        return (Tensor(t.shape[:-1], i + w.vs, w.body, 'f'), Tensor(t.shape, i + v.vs, v.body, 'f'))
    square(ip, t)
    L = sym_lam(ip, t)
    s = const(1 if srt else 0)
    return (tab(t.shape[:1], lambda i: app('eigval', L, s, i)), tab(t.shape, lambda i, j: app('eigvec', L, s, i, j)))


def opaque_matrix(name):
    def f(ip, a, **kw):
        no_kw(kw)
        t = arr(ip, a)
        if t.ndim != 2:
            raise Undecided(name)
        square(ip, t)
        L = NF.canon(t.lam())
        return tab(t.shape, lambda i, j: app(name, L, i, j))
    return f


def norm(ip, x, ord=None, axis=None, **kw):
    no_kw(kw)
    t = arr(ip, x)
    if ord in (None, 'fro') and (axis is None) and (ord is None or t.ndim == 2):
        return power(red_sum(ip, elementwise(ip, lambda u: mul(u, u), t)), const(Fraction(1, 2)))
    if ord in (None, 2) and axis is not None:
        return elementwise(ip, lambda u: power(u, const(Fraction(1, 2))),
                           red_sum(ip, elementwise(ip, lambda u: mul(u, u), t), axis))
    raise Undecided('norm')


def diag(ip, x, k=0):
    t = arr(ip, x)
    k = int(toT(k).args[0])
    if t.ndim == 1:
        n = add(t.shape[0], const(abs(k)))
        if k >= 0:
            return tab((n, n), lambda i, j: ite(eq(j, add(i, const(k))), guard(t, i), ZERO), t.dt, t.np)
        return tab((n, n), lambda i, j: ite(eq(i, add(j, const(-k))), guard(t, j), ZERO), t.dt, t.np)
    if t.ndim == 2:
        return diagonal(ip, t, offset=k)
    raise Undecided('diag')


def guard(t, i):
    return t.at(i)


def diagonal(ip, x, offset=0, axis1=0, axis2=1):
    t = arr(ip, x)
    a1, a2 = [int(toT(a).args[0]) % t.ndim for a in (axis1, axis2)]
    off = int(toT(offset).args[0])
    n, m = t.shape[a1], t.shape[a2]
    r0, c0 = (0, off) if off >= 0 else (-off, 0)
    if off == 0:
        if dim_eq(n, m):
            ln = n
        elif proves(le(n, m)):
            ln = n
        elif proves(le(m, n)):
            ln = m
        else:
            ln = n if ip.decide(le(n, m)) else m
    elif dim_eq(n, m):
        ln = sub(n, const(abs(off)))
        if not proves(le(ZERO, ln)) and not ip.decide(le(ZERO, ln)):
            ln = ZERO
    else:
        raise Undecided('offset diagonal of a non-square matrix')
    keep = [k for k in range(t.ndim) if k not in (a1, a2)]
    shp = [t.shape[k] for k in keep] + [ln]

    def f(*i):
        idx = [None] * t.ndim
        for k, v in zip(keep, i):
            idx[k] = v
        idx[a1] = add(i[-1], const(r0))
        idx[a2] = add(i[-1], const(c0))
        return t.at(*idx)
    return tab(shp, f, t.dt, t.np)


def trace(ip, x, **kw):
    no_kw(kw)
    return red_sum(ip, diagonal(ip, x))


def trimask(low):
    def f(ip, x, k=0):
        t = arr(ip, x)
        k = int(toT(k).args[0])

        def g(*i):
            a, b = i[-2], i[-1]
            c = le(b, add(a, const(k))) if low else le(add(a, const(k)), b)
            return ite(c, t.at(*i), ZERO)
        return tab(t.shape, g, t.dt, t.np)
    return f


def concatenate(ip, xs, axis=0, **kw):
    no_kw(kw)
    xs = ip.to_list(xs)
    if isinstance(xs, SymList):
        raise Undecided('concatenate of a symbolic list')
    ts = [arr(ip, x) for x in xs]
    nd = ts[0].ndim
    if any(t.ndim != nd for t in ts) or nd == 0:
        raise Raised('ValueError', 'concatenate ranks')
    a = axes_of(ip, ts[0], axis)[0]
    for t in ts[1:]:
        for k in range(nd):
            if k != a and not dim_eq(t.shape[k], ts[0].shape[k]):
                raise Undecided('concatenate dimensions')
    tot = add(*[t.shape[a] for t in ts])
    shp = [tot if k == a else s for k, s in enumerate(ts[0].shape)]

    def f(*i):
        offs = [ZERO]
        for t in ts:
            offs.append(add(offs[-1], t.shape[a]))
        body = ts[-1].at(*[sub(v, offs[-2]) if k == a else v for k, v in enumerate(i)])
        for q in range(len(ts) - 2, -1, -1):
            body = ite(lt(i[a], offs[q + 1]), ts[q].at(*[sub(v, offs[q]) if k == a else v for k, v in enumerate(i)]),
                       body)
        return body
    return tab(shp, f, join_dt(*[t.dt for t in ts]), all(t.np for t in ts))


concatenate = with_dtype(concatenate)


def hstack(ip, xs, **kw):
    no_kw(kw)
    xs = ip.to_list(xs)
    if isinstance(xs, SymList):
        raise Undecided('hstack of a symbolic list')
    ts = [atleast(1)(ip, x) for x in xs]
    return concatenate(ip, ts, 0 if ts[0].ndim == 1 else 1)


def vstack(ip, xs, **kw):
    no_kw(kw)
    xs = ip.to_list(xs)
    if isinstance(xs, SymList):
        x = arr(ip, xs.value)
        if x.ndim == 0:
            x = tab((1,), lambda i: x.at())
        if x.ndim == 1:
            return Tensor((xs.n,) + x.shape, (xs.var,) + x.vs, x.body, x.dt)
        raise Undecided('vstack of symbolic list of matrices')
    ts = [atleast(2)(ip, x) for x in xs]
    return concatenate(ip, ts, 0)


def stack(ip, xs, axis=0, **kw):
    no_kw(kw)
    if isinstance(xs, GridAxes):
        if toT(axis) is not const(-1) or xs.stacked:
            raise Undecided('stack of a symbolic grid')
        return GridAxes(xs.d, xs.n, xs.elem, xs.dt, True)
    t = asarray(ip, ip.to_list(xs))
    a = int(toT(axis).args[0])
    if a == 0:
        return t
    a = a % t.ndim
    perm = list(range(1, t.ndim))
    perm.insert(a, 0)
    return transpose(ip, t, perm)


def moveaxis(ip, x, s, d):
    t = arr(ip, x)
    s, d = int(toT(s).args[0]) % t.ndim, int(toT(d).args[0]) % t.ndim
    perm = [k for k in range(t.ndim) if k != s]
    perm.insert(d, s)
    return transpose(ip, t, perm)


def swapaxes(ip, x, a, b):
    t = arr(ip, x)
    perm = list(range(t.ndim))
    a, b = int(toT(a).args[0]) % t.ndim, int(toT(b).args[0]) % t.ndim
    perm[a], perm[b] = perm[b], perm[a]
    return transpose(ip, t, perm)


def atleast(n):
    def f(ip, *xs):
        out = []
        for x in xs:
            t = arr(ip, x)
            if n == 1 and t.ndim == 0:
                b = t.at()
                t = tab((1,), lambda i: b, t.dt, t.np)
            elif n == 2 and t.ndim == 0:
                b = t.at()
                t = tab((1, 1), lambda i, j: b, t.dt, t.np)
            elif n == 2 and t.ndim == 1:
                o = t
                t = tab((ONE, o.shape[0]), lambda i, j: o.at(j), o.dt, o.np)
            out.append(t)
        return out[0] if len(out) == 1 else tuple(out)
    return f


def squeeze(ip, x, axis=None):
    t = arr(ip, x)
    if axis is not None:
        ax = axes_of(ip, t, axis)
        for a in ax:
            if not dim_is1(t.shape[a]):
                raise Undecided('squeeze of a dimension not provably 1')
    else:
        ax = [k for k, s in enumerate(t.shape) if dim_is1(s)]
        for k, s in enumerate(t.shape):
            if k not in ax and s.op != 'const' and not refutes(eq(s, ONE)):
                # the dimension may or may not be one
                if ip.decide(eq(s, ONE)):
                    ax.append(k)
    keep = [k for k in range(t.ndim) if k not in ax]
    vs = [fresh('i', 'I', 0, t.shape[k]) for k in keep]
    idx = [ZERO] * t.ndim
    for k, v in zip(keep, vs):
        idx[k] = v
    return result(Tensor([t.shape[k] for k in keep], vs, t.at(*idx), t.dt, t.np))


def arange(np):
    def f(ip, *a, dtype=None, step=1):
        a = [toT(x) for x in a]
        if len(a) == 1:
            lo, hi = ZERO, a[0]
        else:
            lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else toT(step)
        if st is not ONE:
            if st.op == 'const' and st.args[0] == -1:
                n = sub(lo, hi)
                return tab((n,), lambda i: sub(lo, i), 'i', np)
            raise Undecided('arange step')
        n = sub(hi, lo)
        if n.op == 'const':
            n = const(max(0, math.ceil(n.args[0])))
        elif not proves(le(ZERO, n)) and not ip.decide(le(ZERO, n)):
            n = ZERO
        dt = 'i'
        if dtype is not None and str(getattr(dtype, 'name', dtype)).split('.')[-1] in (*RANGES, 'float32', 'float16'):
            return cast(ip, f(ip, *a, step=step), dtype)
        if dtype is not None:
            dt = dtype_kind(dtype)
        return tab((n,), lambda i: add(lo, i), dt, np)
    return f


def linspace(np):
    def f(ip, start, stop, num=50, endpoint=True, dtype=None, axis=0):
        a, b, n = toT(start), toT(stop), toT(num)
        if endpoint is not True or dtype is not None or axis != 0:
            raise Undecided('linspace options')
        if n.op != 'const' or n.args[0] < 2:
            if not proves(le(const(2), n)):
                raise Undecided('linspace of fewer than two points')
        step = div(sub(b, a), sub(n, ONE))
        return tab((n,), lambda i: add(a, mul(i, step)), 'f', np)
    return f


def dtype_kind(d):
    n = d.name if isinstance(d, Dtype) else getattr(d, 'name', d)
    if not isinstance(n, str):
        n = str(n)
    n = n.split('.')[-1]
    if n in ('float', 'float64', 'double'):
        return 'f'
    if n in ('int', 'int64'):
        return 'i'
    if n in ('bool', 'bool_'):
        return 'b'
    if n in ('complex', 'complex128'):
        return 'c'
    if n == 'object':
        raise Undecided('object dtype')
    raise Undecided(f'narrow dtype {n}')


RANGES = {'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535), 'int16': (-32768, 32767),
          'int32': (-2 ** 31, 2 ** 31 - 1), 'uint32': (0, 2 ** 32 - 1), 'uint64': (0, 2 ** 64 - 1)}


def cast(ip, v, dtype):
    if dtype is None:
        return v
    n = dtype.name if isinstance(dtype, Dtype) else getattr(dtype, 'name', dtype)
    n = str(n).split('.')[-1]
    v = asarray(ip, v)
    t = arr(ip, v)
    if n in RANGES:
        if t.dt not in ('i', 'b'):
            t = arr(ip, cast(ip, v, Dtype('int64')))
        return result(Tensor(t.shape, t.vs, narrowed(n, num(t.body)), narrow_dt('i', n), t.np))
    if n in ('float32', 'float16'):
        if t.dt == 'c':
            raise Undecided(f'cast to {n}')
        return result(Tensor(t.shape, t.vs, narrowed(n, num(t.body)), narrow_dt('f', n), t.np))
    k = dtype_kind(dtype)
    if k == t.dt:
        return v if not isinstance(t.dt, Narrow) else result(Tensor(t.shape, t.vs, t.body, k, t.np))
    if k == 'f' and t.dt in ('i', 'b'):
        return result(Tensor(t.shape, t.vs, num(t.body), 'f', t.np))
    if k == 'c':
        return result(Tensor(t.shape, t.vs, num(t.body), 'c', t.np))
    if k == 'i' and t.dt == 'b':
        return result(Tensor(t.shape, t.vs, num(t.body), 'i', t.np))
    if k == 'i' and t.dt == 'f':
        b = NF.canon(t.body)
        if b.sort == 'I' or int_valued(b):
            return result(Tensor(t.shape, t.vs, t.body, 'i', t.np))
        return result(Tensor(t.shape, t.vs, app('trunc', t.body, sort='I'), 'i', t.np))
    raise Undecided(f'cast {t.dt} to {n}')


def shape_arg(ip, shape):
    if isinstance(shape, (tuple, list)):
        return tuple(toT(s) for s in shape)
    return (toT(shape),)


def full_like_maker(val, np):
    def f(ip, shape, dtype=None, **kw):
        v = val
        t = tab(shape_arg(ip, shape), lambda *i: lift(v), 'f', np)
        if dtype is not None:
            return cast(ip, Tensor(t.shape, t.vs, t.body, 'i', np), dtype)
        return t
    return f


def like(val):
    def f(ip, x, **kw):
        no_kw(kw)
        t = arr(ip, x)
        return result(tab(t.shape, lambda *i: lift(val), t.dt, t.np) if t.ndim else lift(val))
    return with_dtype(f)


def full(ip, shape, v, **kw):
    no_kw(kw)
    t = toT(v)
    return result(tab(shape_arg(ip, shape), lambda *i: t, dt_of(t)))


full = with_dtype(full)


def eye(np):
    def f(ip, n, m=None, k=0, dtype=None):
        n = toT(n)
        m = n if m is None else toT(m)
        k = toT(k)
        t = tab((n, m), lambda i, j: ite(eq(add(i, k), j), ONE, ZERO), 'f', np)
        if dtype is not None:
            return cast(ip, Tensor(t.shape, t.vs, t.body, 'i', np), dtype)
        return t
    return f


def mkarray(np):
    def f(ip, x, dtype=None, copy=None, ndmin=0, **kw):
        t = asarray(ip, x, np)
        if isinstance(t, Tensor):
            t = Tensor(t.shape, t.vs, t.body, t.dt, np)
            return cast(ip, t, dtype) if dtype is not None else t
        if dtype is not None:
            return cast(ip, t, dtype)
        return t
    return f


def where(ip, c, a=None, b=None):
    if a is None:
        raise Undecided('where with one argument')
    a, b, c = asarray(ip, a), asarray(ip, b), asarray(ip, toB(c))
    dt = join_dt(dt_of(a), dt_of(b))
    return broadcast(ip, lambda x, y, z: ite(x if x.sort == 'B' else not_(eq(x, ZERO)), y, z), [c, a, b], dt)


def clip(ip, x, a_min=None, a_max=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = x
    if lo is not None:
        r = broadcast(ip, tmax, [r, lo])
    if hi is not None:
        r = broadcast(ip, tmin, [r, hi])
    return r


def tmax(a, b):
    return ite(le(b, a), a, b)


def tmin(a, b):
    return ite(le(a, b), a, b)


def flip(ip, x, axis=None):
    t = arr(ip, x)
    ax = axes_of(ip, t, axis)
    return tab(t.shape, lambda *i: t.at(*[sub(sub(t.shape[k], ONE), v) if k in ax else v for k, v in enumerate(i)]),
               t.dt, t.np)


def pad(ip, x, width, mode='constant', constant_values=0, **kw):
    no_kw(kw)
    t = arr(ip, x)
    if mode != 'constant':
        raise Undecided('pad mode')
    w = width
    if isinstance(w, (tuple, list)) and w and isinstance(w[0], (tuple, list)):
        ws = [tuple(p) for p in w]
    elif isinstance(w, (tuple, list)):
        ws = [tuple(w)] * t.ndim
    else:
        ws = [(w, w)] * t.ndim
    if len(ws) == 1 and t.ndim > 1:
        ws = ws * t.ndim
    ws = [(toT(a), toT(b)) for a, b in ws]
    cv = toT(constant_values)
    shp = [add(s, a, b) for s, (a, b) in zip(t.shape, ws)]

    def f(*i):
        conds = []
        for v, s, (a, b) in zip(i, t.shape, ws):
            conds += [le(a, v), lt(v, add(s, a))]
        return ite(and_(*conds), t.at(*[sub(v, a) for v, (a, b) in zip(i, ws)]), cv)
    return tab(shp, f, t.dt, t.np)


def append(ip, a, v, axis=None):
    x, y = arr(ip, a), arr(ip, v)
    if axis is not None:
        return concatenate(ip, [x, y], axis)
    if x.ndim > 1 or y.ndim > 1:
        raise Undecided('append flatten')
    return concatenate(ip, [atleast(1)(ip, x), atleast(1)(ip, y)])


def trapz(ip, y, x=None, dx=1, axis=-1):
    t = arr(ip, y)
    if t.ndim != 1:
        a = axes_of(ip, t, axis)[0]
        if a != t.ndim - 1:
            raise Undecided('trapz axis')
    n = t.shape[-1]
    k = fresh('r', 'I')
    if x is not None:
        xt = arr(ip, x)
        if xt.ndim != 1:
            raise Undecided('trapz x')
        if not dim_eq(xt.shape[0], n):
            raise Undecided('trapz lengths')
        w = sub(xt.at(add(k, ONE)), xt.at(k))
    else:
        w = toT(dx)

    def f(*i):
        return summ(k, ZERO, sub(n, ONE), mul(w, div(add(t.at(*i, add(k, ONE)), t.at(*i, k)), const(2))))
    return result(tab(t.shape[:-1], f, t.dt) if t.ndim > 1 else f())


def gradient(ip, f, *a, axis=None, **kw):
    no_kw(kw)
    t = arr(ip, f)
    if t.ndim != 1:
        raise Undecided('gradient')
    h = toT(a[0]) if a else ONE
    n = t.shape[0]

    def g(i):
        return ite(eq(i, ZERO), div(sub(t.at(ONE), t.at(ZERO)), h),
                   ite(eq(i, sub(n, ONE)), div(sub(t.at(sub(n, ONE)), t.at(sub(n, const(2)))), h),
                       div(sub(t.at(add(i, ONE)), t.at(sub(i, ONE))), mul(const(2), h))))
    return tab((n,), g)


def searchsorted(ip, a, v, side='left', **kw):
    no_kw(kw, 'method')
    t = arr(ip, a)
    L = t.lam()
    n = t.shape[0]
    name = 'ssl' if side == 'left' else 'ssr'
    return elementwise(ip, lambda x: app(name, NF.canon(L), x, sort='I'), v, 'i')


APP_RANGE['ssl'] = lambda t: (ZERO, add(t.args[1].args[1][0], ONE))
APP_RANGE['ssr'] = lambda t: (ZERO, add(t.args[1].args[1][0], ONE))


def interp1d(ip, x, xp, fp, **kw):
    no_kw(kw)
    a, b = arr(ip, xp), arr(ip, fp)
    la, lb = NF.canon(a.lam()), NF.canon(b.lam())
    return elementwise(ip, lambda u: app('interp', la, lb, u), x, 'f')


def argsort(ip, x, axis=-1, **kw):
    no_kw(kw, 'kind', 'stable')
    t = arr(ip, x)
    if t.ndim != 1:
        raise Undecided('argsort')
    L = NF.canon(t.lam())
    return tab(t.shape, lambda i: app('argsort', L, i, sort='I'), 'i')


APP_RANGE['argsort'] = lambda t: (ZERO, t.args[1].args[1][0])


def sort_(ip, x, axis=-1, **kw):
    no_kw(kw)
    t = arr(ip, x)
    if t.ndim != 1:
        raise Undecided('sort')
    L = NF.canon(t.lam())
    return tab(t.shape, lambda i: t.at(app('argsort', L, i, sort='I')), t.dt)


def polyval(ip, p, x, **kw):
    no_kw(kw, 'unroll')
    t = arr(ip, p)
    k = fresh('r', 'I')
    n = t.shape[0]
    return elementwise(ip, lambda u: summ(k, ZERO, n, mul(t.at(k), power(u, sub(sub(n, ONE), k)))), x, 'f')


def polyadd(ip, a, b):
    s, t = arr(ip, a), arr(ip, b)
    n, m = s.shape[0], t.shape[0]
    if not proves(le(m, n)):
        if not proves(le(n, m)):
            raise Undecided('polyadd')
        s, t, n, m = t, s, m, n
    o = sub(n, m)
    return tab((n,), lambda i: add(s.at(i), ite(le(o, i), t.at(sub(i, o)), ZERO)), join_dt(s.dt, t.dt))


def polyder(ip, p, m=1):
    if m != 1:
        raise Undecided('polyder')
    t = arr(ip, p)
    n = sub(t.shape[0], ONE)
    return tab((n,), lambda i: mul(sub(n, i), t.at(i)), t.dt)


def roots(ip, p, strip_zeros=True, **kw):
    """the roots of a polynomial, in the order of the library: opaque real and imaginary parts"""
    no_kw(kw)
    if strip_zeros is not False:
        raise Undecided('roots with stripped zeros')
    t = arr(ip, p)
    L = NF.canon(t.lam())
    return tab((sub(t.shape[0], ONE),), lambda i: add(app('rootre', L, i), mul(NF.IMAG, app('rootim', L, i))), 'c')


def take(ip, x, idx, axis=None, **kw):
    no_kw(kw)
    t = arr(ip, x)
    if axis is None:
        if t.ndim != 1:
            raise Undecided('take')
        return getitem(ip, t, idx)
    a = axes_of(ip, t, axis)[0]
    return getitem(ip, t, tuple([slice(None)] * a + [idx]))


def take_along_axis(ip, x, idx, axis):
    t, ix = arr(ip, x), arr(ip, idx)
    a = axes_of(ip, t, axis)[0]
    return tab(ix.shape, lambda *i: t.at(*[norm_idx(ip, ix.at(*i), t.shape[a]) if k == a else v
                                           for k, v in enumerate(i)]), t.dt)


def tile(ip, x, reps):
    t = arr(ip, x)
    reps = ip.to_list(reps) if isinstance(reps, (tuple, list)) else [reps]
    raise Undecided('tile')


class GridAxes:
    """meshgrid('ij') of a symbolic number d of axes with n points each: coordinate k at (j_0..j_{d-1}) is elem(k, j_k)"""

    def __init__(self, d, n, elem, dt, stacked=False):
        self.d, self.n, self.elem, self.dt, self.stacked = d, n, elem, dt, stacked

    def rows(self):
        """C-order flattening of all grid axes, coordinates last"""
        sizes = NF.canon(lam((fresh('i', 'I'),), (self.d,), self.n))
        return tab((power(self.n, self.d), self.d), lambda r, k: self.elem(k, app('digit', sizes, r, k, sort='I')), self.dt)


def meshgrid(ip, *xs, indexing='xy', **kw):
    no_kw(kw)
    if any(type(x).__name__ == 'StarSym' for x in xs):
        if len(xs) != 1 or indexing != 'ij':
            raise Undecided('meshgrid of a symbolic number of axes')
        fam = xs[0].v
        if not isinstance(fam.value, Tensor) or fam.value.ndim != 1 or fam.var in fam.value.shape[0].fv:
            raise Undecided('meshgrid family')
        return GridAxes(fam.n, fam.value.shape[0], lambda k, j: fam.at(k).at(j), fam.value.dt)
    ts = [arr(ip, x) for x in xs]
    shp = [t.shape[0] for t in ts]
    order = list(range(len(ts)))
    if indexing == 'xy' and len(ts) >= 2:
        order[0], order[1] = 1, 0
    outshape = [shp[k] for k in order]
    res = []
    for k, t in enumerate(ts):
        p = order.index(k)
        res.append(tab(outshape, lambda *i, t=t, p=p: t.at(i[p]), t.dt, t.np))
    return res


def any_(ip, x, axis=None, **kw):
    return quant(ip, x, axis, 'any')


def all_(ip, x, axis=None, **kw):
    return quant(ip, x, axis, 'all')


def quant(ip, x, axis, name):
    t = arr(ip, x)
    if axis is not None and t.ndim > 1:
        raise Undecided(name)
    if t.ndim == 0:
        v = t.at()
        return v if v.sort == 'B' else not_(eq(v, ZERO))
    n = t.shape[0]
    if t.ndim == 1 and n.op == 'const':
        r = []
        for k in range(int(n.args[0])):
            v = t.at(const(k))
            r.append(v if v.sort == 'B' else not_(eq(v, ZERO)))
        return (or_ if name == 'any' else and_)(*r)
    b = t.body if t.body.sort == 'B' else not_(eq(t.body, ZERO))
    return app(name, NF.canon(lam(t.vs, t.shape, ite(b, ONE, ZERO))), sort='B')


def allclose(ip, *a, **k):
    raise Undecided('allclose')


# =============================================================================== scalar functions

def f1(name):
    return lambda ip, x, **kw: (no_kw(kw), elementwise(ip, lambda t: app(name, num(t)), x, 'f'))[1]


def sqrt(ip, x, **kw):
    def f(t):
        if t.op == 'const':
            c = t.args[0]
            if c >= 0:
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return const(Fraction(a, b))
        return power(t, const(Fraction(1, 2)))
    return elementwise(ip, lambda t: f(num(t)), x, 'f')


def cbrt(ip, x):
    return elementwise(ip, lambda t: power(num(t), const(Fraction(1, 3))), x, 'f')


def square_(ip, x):
    return elementwise(ip, lambda t: mul(num(t), num(t)), x)


INF = sym('inf', 'R')


def first_ite(t):
    if t.op == 'ite':
        return t
    if t.op in ('add', 'mul'):
        for u in t.args:
            r = first_ite(u)
            if r is not None:
                return r
    return None


def replace_ite(t, u, v):
    if t is u:
        return v
    if t.op in ('add', 'mul'):
        return (add if t.op == 'add' else mul)(*[replace_ite(x, u, v) for x in t.args])
    return t


def absval(ip, x, **kw):
    def one(t):
        if NF.IMAG in t.fv or INF in t.fv:
            u = first_ite(t)
            if u is not None:
                return ite(u.args[0], one(replace_ite(t, u, u.args[1])), one(replace_ite(t, u, u.args[2])))
            if INF in t.fv:
                if t is INF or t.op == 'add' and sum(INF in y.fv for y in t.args) == 1 and INF in t.args:
                    return INF
                raise Undecided('infinite value')
            a, b = re_im(t)
            return power(add(mul(a, a), mul(b, b)), const(Fraction(1, 2)))
        if t.op == 'const':
            return const(abs(t.args[0]))
        if t.sort == 'I':
            return ite(le(ZERO, t), t, neg(t))
        return app('abs', num(t))
    return elementwise(ip, one, x, 'f' if dt_of(x) == 'c' else None)


def int_ratio(t):
    """t = a / k with an integer-valued term a and a small positive integer k, or (None, 1)"""
    for k in (1, 2, 3, 4, 6, 8, 12):
        a = NF.canon(mul(const(k), t))
        if int_valued(a):
            return a, k
    return None, 1


def round_(ip, x, decimals=0, **kw):
    no_kw(kw)
    if decimals != 0:
        raise Undecided('round to decimals')
    return elementwise(ip, lambda t: t if t.sort == 'I' or int_valued(NF.canon(t)) else app('round', num(t)), x, None)


def pyround(ip, x, nd=None):
    from .interp import pyint
    if nd is not None:
        raise Undecided('round to decimals')
    t = toT(x)
    return x if t.sort == 'I' or int_valued(NF.canon(t)) else pyint(app('round', num(t), sort='I'))


def functools_cache(ip, f=None, maxsize=128, typed=False):
    """lru_cache: the first result for equal arguments is returned again; a mutable result is shared between calls"""
    from .interp import Builtin
    if f is None or isinstance(f, (int, T)):
        return Builtin('lru_cache', lambda g: functools_cache(ip, g))

    def call(*a, **k):
        for v in [*a, *k.values()]:
            if isinstance(v, (Tensor, list, SymList, dict)):
                raise Raised('TypeError', 'unhashable argument of a cached function')
        r = ip.call(f, list(a), k)
        ip.cached = getattr(ip, 'cached', [])

        def mark(x):
            if isinstance(x, Tensor) and x.np:
                x.isinput, x.name = True, 'a cached result'
                ip.cached.append(x)
            elif isinstance(x, (list, dict)):
                ip.shared[id(x)] = (x, 'a cached result')
                ip.cached.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    mark(y)
        mark(r)
        return r
    b = Builtin('cached', call)
    b.inner = f
    return b


def floor(ip, x):
    from .interp import pyint

    def f(t):
        t = NF.canon(t)
        if t.op == 'const':
            return const(math.floor(t.args[0]))
        if t.sort == 'I':
            return t
        a, k = int_ratio(t)
        if a is not None:
            return idiv(a, const(k))
        return app('floor', t, sort='I')
    return pyint(f(toT(x)))


def ceil(ip, x):
    return binop(ip, 'Mult', -1, floor(ip, elementwise(ip, neg, x)))


def int_(ip, x=0, *a):
    """int(): truncation towards zero"""
    if isinstance(x, int):
        return int(x)
    if isinstance(x, str):
        return int(x)
    t = NF.canon(toT(x))
    if t.sort == 'I':
        from .interp import pyint
        return pyint(t)
    if t.op == 'const':
        return int(t.args[0])
    if proves_nonneg_real(t):
        return floor(ip, t)
    raise Undecided('int() of a possibly negative real')


def proves_nonneg_real(t):
    a, k = int_ratio(t)
    return a is not None and proves(le(ZERO, a))


def float_(ip, x=0, *a):
    if isinstance(x, str):
        return lift(float(x)) if x not in ('inf', '-inf', 'nan') else sym(x, 'R')
    return toT(x)


def factorial(ip, n, exact=False, **kw):
    no_kw(kw)
    def f(t):
        if t.op == 'const':
            if t.args[0] < 0 or t.args[0].denominator != 1:
                raise Raised('ValueError', 'factorial')
            return const(math.factorial(int(t.args[0])))
        return app('fact', t, sort='I')
    from .interp import pyint
    return pyint(elementwise(ip, f, n, 'i')) if not isinstance(n, Tensor) else elementwise(ip, f, n, 'i')


def math_factorial(ip, n):
    if isinstance(n, T) and n.op != 'const':
        n = NF.canon(n)
        if n.op != 'const' and not proves(le(ZERO, n)):
            if not ip.decide(le(ZERO, n)):
                raise Raised('ValueError', 'factorial of a negative number')
    return factorial(ip, n)


def math_gamma(ip, n):
    t = numT(n)
    if t.op == 'const' and t.args[0].denominator == 1 and t.args[0] >= 1:
        return factorial(ip, const(t.args[0] - 1))
    if t.sort == 'I' and proves(le(ONE, t)):
        return factorial(ip, sub(t, ONE))
    raise Undecided('gamma function of a non-integer')


def factorial2(ip, n, exact=False):
    def f(t):
        if t.op == 'const':
            n = int(t.args[0])
            if n < 0:
                return ZERO       # scipy convention: 0 for negative arguments
            r = 1
            while n > 1:
                r *= n
                n -= 2
            return const(r)
        if proves(eq(mod(t, const(2)), ONE)):
            h = idiv(add(t, ONE), const(2))
            r = div(app('fact', add(t, ONE), sort='I'), mul(power(const(2), h), app('fact', h, sort='I')))
        elif proves(eq(mod(t, const(2)), ZERO)):
            h = idiv(t, const(2))
            r = mul(power(const(2), h), app('fact', h, sort='I'))
        else:
            r = app('fact2', t, sort='I')
        return r if proves(le(ZERO, t)) else ite(le(ZERO, t), r, ZERO)
    from .interp import pyint
    return pyint(elementwise(ip, f, n, 'i'))


def comb(ip, n, k, exact=False, **kw):
    no_kw(kw)
    def f(a, b):
        if a.op == 'const' and b.op == 'const':
            if a.args[0] < 0 or b.args[0] < 0:
                raise Raised('ValueError', 'comb')
            return const(math.comb(int(a.args[0]), int(b.args[0])))
        return app('comb', a, b, sort='I')
    from .interp import pyint
    r = broadcast(ip, f, [n, k], 'i')
    return pyint(r) if isinstance(r, T) else r


def math_comb(ip, n, k):
    a, b = toT(n), toT(k)
    for t in (a, b):
        if t.op == 'const':
            if t.args[0] < 0:
                raise Raised('ValueError', 'comb of a negative number')
        elif not proves(le(ZERO, t)):
            if not ip.decide(le(ZERO, t)):
                raise Raised('ValueError', 'comb of a negative number')
    return comb(ip, n, k)


def pascal(ip, n, kind='symmetric', exact=True):
    n = toT(n)
    if kind == 'lower':
        return tab((n, n), lambda i, j: ite(le(j, i), app('comb', i, j, sort='I'), ZERO), 'i', True)
    if kind == 'upper':
        return tab((n, n), lambda i, j: ite(le(i, j), app('comb', j, i, sort='I'), ZERO), 'i', True)
    return tab((n, n), lambda i, j: app('comb', add(i, j), i, sort='I'), 'i', True)


def norm_pdf(ip, x, loc=0, scale=1):
    def f(x, m, s):
        z = div(sub(x, m), s)
        return mul(app('exp', mul(const(Fraction(-1, 2)), power(z, const(2)))),
                   power(mul(const(2), PI), const(Fraction(-1, 2))), power(s, const(-1)))
    return broadcast(ip, f, [x, loc, scale], 'f')


def norm_logpdf(ip, x, loc=0, scale=1):
    def f(x, m, s):
        z = div(sub(x, m), s)
        return add(mul(const(Fraction(-1, 2)), power(z, const(2))),
                   mul(const(Fraction(-1, 2)), app('log', mul(const(2), PI))), neg(app('log', s)))
    return broadcast(ip, f, [x, loc, scale], 'f')


def mvn_logpdf(ip, x, mean, cov, **kw):
    no_kw(kw)
    xt, m, S = arr(ip, x), arr(ip, mean), arr(ip, cov)
    if xt.ndim != 1 or m.ndim != 1 or S.ndim != 2:
        raise Undecided('batched multivariate normal')
    d = xt.shape[0]
    L = sym_lam(ip, S)
    i, j = fresh('r', 'I'), fresh('r', 'I')
    q = summ(i, ZERO, d, summ(j, ZERO, d, mul(sub(xt.at(i), m.at(i)), app('inv', L, i, j), sub(xt.at(j), m.at(j)))))
    ld = mul(const(2), summ(i, ZERO, d, app('log', app('chol', L, i, i))))
    return mul(const(Fraction(-1, 2)), add(q, ld, mul(d, app('log', mul(const(2), PI)))))


def mvn_pdf(ip, x, mean, cov, **kw):
    return app('exp', mvn_logpdf(ip, x, mean, cov, **kw))


def opaque_pmf(name):
    def f(ip, k, *p, **kw):
        return broadcast(ip, lambda *a: app(name, *a), [k] + list(p), 'f')
    return f


def logsumexp(ip, a, axis=None, b=None, **kw):
    no_kw(kw)
    t = elementwise(ip, lambda u: app('exp', u), a)
    if b is not None:
        t = binop(ip, 'Mult', t, b)
    return elementwise(ip, lambda u: app('log', u), red_sum(ip, t, axis))


# =============================================================================== higher order

def map_axes(ip, in_axes, nargs):
    if in_axes is None or isinstance(in_axes, int):
        return [in_axes] * nargs
    l = ip.to_list(in_axes)
    if len(l) != nargs:
        raise Raised('ValueError', 'vmap in_axes')
    return l


def tree_slice(ip, v, ax, i):
    if ax is None:
        return v
    if isinstance(v, (tuple, list)):
        if isinstance(ax, (tuple, list)):
            r = [tree_slice(ip, x, a, i) for x, a in zip(v, ax)]
        else:
            r = [tree_slice(ip, x, ax, i) for x in v]
        return tuple(r) if isinstance(v, tuple) else r
    if v is None:
        return None
    if isinstance(v, Instance):
        return Instance(v.cls, {k: tree_slice(ip, x, ax, i) for k, x in v.fields.items()})
    t = arr(ip, v)
    if t.ndim == 0:
        raise Raised('ValueError', 'vmap over a scalar')
    a = ax % t.ndim
    shp = [s for k, s in enumerate(t.shape) if k != a]
    if not shp:
        return t.at(i)
    r = tab(shp, lambda *j: t.at(*[*j[:a], i, *j[a:]]), t.dt, t.np)
    return r


def tree_leaf_dim(ip, v, ax):
    if ax is None or v is None:
        return []
    if isinstance(v, (tuple, list)):
        out = []
        for k, x in enumerate(v):
            out += tree_leaf_dim(ip, x, ax[k] if isinstance(ax, (tuple, list)) else ax)
        return out
    if isinstance(v, Instance):
        out = []
        for x in v.fields.values():
            out += tree_leaf_dim(ip, x, ax)
        return out
    t = arr(ip, v)
    if t.ndim == 0:
        raise Raised('ValueError', 'vmap over a scalar')
    return [t.shape[ax % t.ndim]]


def tree_stack(ip, v, i, n, out_axis=0):
    if isinstance(v, tuple):
        return tuple(tree_stack(ip, x, i, n, out_axis) for x in v)
    if isinstance(v, list):
        return [tree_stack(ip, x, i, n, out_axis) for x in v]
    if v is None:
        return None
    if isinstance(v, Instance):
        return Instance(v.cls, {k: tree_stack(ip, x, i, n, out_axis) for k, x in v.fields.items()})
    t = arr(ip, v)
    if any(i in s.fv for s in t.shape):
        raise Undecided('vmap result with data-dependent shape')
    r = Tensor((n,) + t.shape, (i,) + t.vs, t.body, t.dt)
    if out_axis:
        return moveaxis(ip, r, 0, out_axis)
    return r


def vmap(ip, f, in_axes=0, out_axes=0, **kw):
    no_kw(kw, 'axis_name')
    from .interp import Builtin

    def g(*args, **kwargs):
        axes = map_axes(ip, in_axes, len(args))
        axes = [pyax(a) for a in axes]
        dims = []
        for a, ax in zip(args, axes):
            dims += tree_leaf_dim(ip, a, ax)
        for k, a in kwargs.items():
            dims += tree_leaf_dim(ip, a, 0)
        if not dims:
            raise Raised('ValueError', 'vmap without mapped arguments')
        n = dims[0]
        for d in dims[1:]:
            if not dim_eq(d, n):
                if refutes(eq(d, n)):
                    raise Raised('ValueError', 'vmap sizes')
                raise Undecided(f'vmap sizes {d} {n}')
        i = fresh('v', 'I', 0, n)
        sl = [tree_slice(ip, a, ax, i) for a, ax in zip(args, axes)]
        ks = {k: tree_slice(ip, a, 0, i) for k, a in kwargs.items()}
        r = ip.local({i}, [le(ZERO, i), lt(i, n)], lambda: ip.call(f, sl, ks))
        oa = out_axes if isinstance(out_axes, int) else 0
        return tree_stack(ip, r, i, n, oa)
    return Builtin(f'vmap({getattr(f, "name", getattr(f, "qualname", "?"))})', g)


def pyax(a):
    if isinstance(a, T):
        return int(a.args[0])
    if isinstance(a, (tuple, list)):
        return type(a)(pyax(x) for x in a)
    return a


def np_vectorize(ip, f, signature=None, otypes=None, excluded=None, **kw):
    from .interp import Builtin
    no_kw(kw, 'cache', 'doc')
    if excluded:
        raise Undecided('vectorize with excluded arguments')
    if otypes is not None:
        o = ip.to_list(otypes)
        if len(o) != 1:
            raise Undecided('otypes')
        g = np_vectorize(ip, f, signature)
        return Builtin('vectorize', lambda *a: cast(ip, g.fn(*a), o[0]))
    if signature is None:
        def g0(*args):
            shp = broadcast_shapes(*[arr(ip, a).shape for a in args])
            vs = tuple(fresh('i', 'I', 0, s) for s in shp)
            sl = [bat(arr(ip, a), shp, vs) for a in args]
            r = ip.local(set(vs), [c for v, s in zip(vs, shp) for c in (le(ZERO, v), lt(v, s))],
                         lambda: ip.call(f, sl))
            return result(Tensor(shp, vs, toT(r), dt_of(r), True))
        return Builtin('vectorize', g0)
    ins, outs = signature.replace(' ', '').split('->')
    import re
    incores = [tuple(x for x in c.split(',') if x) for c in re.findall(r'\(([^)]*)\)', ins)]
    outcore = [tuple(x for x in c.split(',') if x) for c in re.findall(r'\(([^)]*)\)', outs)]
    if len(outcore) != 1:
        raise Undecided('vectorize with several outputs')

    def g(*args):
        if len(args) != len(incores):
            raise Raised('TypeError', 'vectorize arguments')
        ts = [arr(ip, a) for a in args]
        lead = []
        for t, c in zip(ts, incores):
            if t.ndim < len(c):
                raise Raised('ValueError', 'vectorize core dimensions')
            lead.append(t.shape[:t.ndim - len(c)])
        shp = broadcast_shapes(*lead)
        vs = tuple(fresh('v', 'I', 0, s) for s in shp)
        sl = []
        for t, c, l in zip(ts, incores, lead):
            k = len(l)
            ii = []
            for d, s, v in zip(l, shp[len(shp) - k:], vs[len(vs) - k:]):
                ii.append(ZERO if d is not s and dim_is1(d) and not dim_is1(s) else v)
            if c:
                sl.append(tab(t.shape[k:], lambda *j, t=t, ii=ii: t.at(*ii, *j), t.dt, True))
            else:
                sl.append(t.at(*ii))
        r = ip.local(set(vs), [c for v, s in zip(vs, shp) for c in (le(ZERO, v), lt(v, s))], lambda: ip.call(f, sl))
        rt = arr(ip, r)
        if rt.ndim != len(outcore[0]):
            raise Raised('ValueError', 'vectorize output')
        return result(Tensor(shp + rt.shape, vs + rt.vs, rt.body, rt.dt, True))
    return Builtin('vectorize', g)


def functools_partial(ip, f, *a, **k):
    from .interp import Builtin

    def g(*b, **l):
        return ip.call(f, list(a) + list(b), {**k, **l})
    return Builtin('partial', g)


def jit(ip, f=None, **kw):
    from .interp import Builtin
    if f is None:
        return Builtin('jit', lambda g: g)
    return f


def fn_symbol_arg(v, ip):
    """Fresh array symbol of the shape of v (None for non-arrays)"""
    t = arr(ip, v)
    X = fresh('X', 'A')
    if t.ndim == 0:
        X = fresh('x', 'R')
        return X, X
    return X, Tensor(t.shape, t.vs, sel(X, *t.vs), t.dt)


def point_term(v, ip):
    t = arr(ip, v)
    return t.at() if t.ndim == 0 else t.lam()


def deriv(ip, f, argnums, args, kwargs):
    """Jacobian of every result leaf with respect to argument argnums: leaf shape + argument shape"""
    args = list(args)
    k = argnums
    if not isinstance(k, int):
        k = int(toT(k).args[0]) if is_scalar(k) else bad('argnums')
    if k < 0:
        k += len(args)
    x = args[k]
    X, Xv = fn_symbol_arg(x, ip)
    p = point_term(x, ip)
    xs = arr(ip, x).shape
    call_args = args[:k] + [Xv] + args[k + 1:]
    out = ip.local({X}, [], lambda: ip.call(f, call_args, kwargs))

    def one(leaf):
        t = arr(ip, leaf)
        vs = tuple(fresh('i', 'I', 0, s) for s in t.shape)
        ws = tuple(fresh('i', 'I', 0, s) for s in xs)
        body = D(t.at(*vs), X, p, ws)
        return result(Tensor(t.shape + xs, vs + ws, body, 'f'))
    return tree_map(one, out)


def D(body, X, p, ws):
    """d body / d X_ws at X = p; structural rules, opaque elsewhere"""
    if X not in body.fv:
        return ZERO
    op, a = body.op, body.args
    at = lambda t: subst(t, {X: p})
    if body is X:
        return ONE
    if op == 'add':
        return add(*[D(t, X, p, ws) for t in a])
    if op == 'mul':
        out = []
        for k, t in enumerate(a):
            if X in t.fv:
                out.append(mul(*[at(u) for u in a[:k]], D(t, X, p, ws), *[at(u) for u in a[k + 1:]]))
        return add(*out)
    if op == 'pow' and X not in a[1].fv:
        # d u^e = e u^(e-1) u'   (written so that e = 0 gives 0)
        return mul(at(a[1]), power(at(a[0]), sub(at(a[1]), ONE)), D(a[0], X, p, ws))
    if op == 'sum' and X not in a[1].fv and X not in a[2].fv:
        v, lo, hi, b = a
        if any(v in w.fv for w in ws) or v in p.fv:
            t2 = rename_binder(body)
            v, lo, hi, b = t2.args
        return summ(v, lo, hi, D(b, X, p, ws))
    if op == 'ite' and X not in a[0].fv:
        return ite(at(a[0]), D(a[1], X, p, ws), D(a[2], X, p, ws))
    if op == 'app':
        if a[0] == 'sel' and a[1] is X:
            if all(X not in i.fv for i in a[2:]):
                return ite(and_(*[eq(i, w) for i, w in zip(a[2:], ws)]), ONE, ZERO)
        if a[0] == 'exp':
            return mul(at(body), D(a[1], X, p, ws))
        if a[0] == 'log':
            return mul(power(at(a[1]), const(-1)), D(a[1], X, p, ws))
        if a[0] == 'sin':
            return mul(app('cos', at(a[1])), D(a[1], X, p, ws))
        if a[0] == 'cos':
            return mul(const(-1), app('sin', at(a[1])), D(a[1], X, p, ws))
        if a[0] == 'Dn' and a[3] is X and X not in a[1].fv and X not in a[2].fv:
            return app('Dn', a[1], add(a[2], ONE), p)
        # scalar opaque function of one scalar argument position
        dep = [k for k, t in enumerate(a) if k and isinstance(t, T) and X in t.fv]
        if len(dep) == 1 and a[dep[0]].sort not in ('L', 'A', 'I') and a[0] not in ('D',):
            k = dep[0]
            inner = a[k]
            x = fresh('x', 'R')
            fl = flam((x,), mk('app', a[:k] + (x,) + a[k + 1:], body.sort))
            dd = app('D', fl, at(inner))
            return mul(dd, D(inner, X, p, ws)) if inner is not X else dd
    return app('D', flam((X,), body), p, *ws)


def tree_map(f, v):
    if isinstance(v, tuple):
        return tuple(tree_map(f, x) for x in v)
    if isinstance(v, list):
        return [tree_map(f, x) for x in v]
    if v is None:
        return None
    if isinstance(v, Instance):
        return Instance(v.cls, {k: tree_map(f, x) for k, x in v.fields.items()})
    return f(v)


def jac(ip, f, argnums=0, has_aux=False, **kw):
    from .interp import Builtin
    no_kw(kw, 'holomorphic', 'allow_int')
    if ip.truth(has_aux):
        raise Undecided('has_aux')
    return Builtin('jac', lambda *a, **k: deriv(ip, f, argnums, a, k))


def grad(ip, f, argnums=0, **kw):
    from .interp import Builtin
    no_kw(kw, 'holomorphic', 'allow_int')

    def g(*a, **k):
        r = deriv(ip, f, argnums, a, k)
        return r
    return Builtin('grad', g)


def value_and_grad(ip, f, argnums=0, **kw):
    from .interp import Builtin
    no_kw(kw)
    return Builtin('value_and_grad', lambda *a, **k: (ip.call(f, list(a), k), deriv(ip, f, argnums, a, k)))


def hessian(ip, f, argnums=0, **kw):
    no_kw(kw)
    return jac(ip, jac(ip, f, argnums), argnums)


def lax_cond(ip, pred, tf, ff, *ops, **kw):
    p = pred
    if isinstance(p, Tensor):
        p = result(p) if p.ndim == 0 else bad('cond predicate')
    if isinstance(p, bool):
        return ip.call(tf if p else ff, list(ops))
    p = toT(p)
    if p.sort != 'B':
        p = not_(eq(p, ZERO))
    s = NF.simp_cond(p)
    if s is TRUE:
        return ip.call(tf, list(ops))
    if s is FALSE:
        return ip.call(ff, list(ops))
    with assuming(s):
        a = ip.call(tf, list(ops))
    with assuming(not_(s)):
        b = ip.call(ff, list(ops))
    from .interp import merge
    return merge([(s, a), (TRUE, b)])


def lax_select(ip, p, a, b):
    return where(ip, p, a, b)


def lax_switch(ip, ind, funcs, *ops):
    fl = ip.to_list(funcs)
    i = toT(ind)
    if isinstance(fl, list):
        from .interp import merge
        n = len(fl)
        if i.op == 'const':
            return ip.call(fl[max(0, min(n - 1, int(i.args[0])))], list(ops))
        vals = [(eq(i, const(k)), ip.call(f, list(ops))) for k, f in enumerate(fl[:-1])]
        if not vals:
            return ip.call(fl[0], list(ops))
        c0, v0 = vals[0]
        vals[0] = (le(i, ZERO), v0)
        return merge(vals + [(TRUE, ip.call(fl[-1], list(ops)))])
    if not proves(and_(le(ZERO, i), lt(i, fl.n))):
        raise Undecided('switch index')
    return ip.call(fl.at(i), list(ops))


def fori_loop(ip, lo, hi, body, init, **kw):
    from .loops import scan
    n = sub(toT(hi), toT(lo))
    from .interp import Builtin
    if n.op == 'const' and n.args[0] <= 8:
        c = init
        for k in range(int(n.args[0])):
            c = ip.call(body, [binop(ip, 'Add', lo, k), c])
        return c
    xs = tab((n,), lambda i: add(toT(lo), i), 'i')
    b = Builtin('fori', lambda c, x: (ip.call(body, [x, c]), None))
    return scan(ip, b, init, xs)[0]


def lax_scan(ip, f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    no_kw(kw)
    from .loops import scan
    return scan(ip, f, init, xs, length, ip.truth(reverse))


def lax_map(ip, f, xs):
    return vmap(ip, f)(xs)


# =============================================================================== random

def rkey(k):
    return toT(k) if not isinstance(k, Tensor) else (k.at(*[ZERO] * k.ndim) if False else bad('key array'))


def rsplit(ip, key, num=2):
    k, n = rkey(key), toT(num)
    return tab((n,), lambda i: app('rsplit', k, n, i, sort='K'), 'k')


def rdraw(name):
    def f(ip, key, shape=(), *a, **kw):
        no_kw(kw)
        k = rkey(key)
        extra = [toT(x) for x in a if is_scalar(x)]
        shp = shape_arg(ip, shape) if not (isinstance(shape, tuple) and shape == ()) else ()
        code = mk('tup', shp, 'L')
        return result(tab(shp, lambda *i: app(name, k, code, *extra, *i))) if shp else app(name, k, code, *extra)
    return with_dtype(f)


def rchoice(ip, key, a, shape=(), replace=True, p=None, **kw):
    no_kw(kw)
    k = rkey(key)
    if not is_scalar(a):
        raise Undecided('choice of array')
    n = toT(a)
    shp = shape_arg(ip, shape)
    if not ip.truth(replace):
        raise Undecided('choice without replacement')
    P = NF.canon(arr(ip, p).lam()) if p is not None else ZERO
    code = mk('tup', shp, 'L')
    return result(tab(shp, lambda *i: app('rchoice', k, n, P, code, *i, sort='I'), 'i'))


APP_RANGE['rchoice'] = lambda t: (ZERO, t.args[2])


def rbernoulli(ip, key, p=None, shape=None, **kw):
    no_kw(kw)
    k = rkey(key)
    t = arr(ip, p)
    shp = t.shape
    if shape is not None:
        full_ = shape_arg(ip, shape)
        if len(full_) != len(shp) or not all(dim_eq(a, b) for a, b in zip(full_, shp)):
            raise Undecided('bernoulli with broadcast')
    code = mk('tup', shp, 'L')
    return result(tab(shp, lambda *i: app('rbern', k, code, t.at(*i), *i)))


# =============================================================================== tme

def fn_flam(ip, f, like):
    X, Xv = fn_symbol_arg(like, ip)
    out = ip.local({X}, [], lambda: ip.call(f, [Xv]))
    return X, out


def tme_args(ip, x, dt, drift, dispersion, order):
    """Canonical opaque arguments of a TME call"""
    xp = point_term(x, ip)
    X, dr = fn_flam(ip, drift, x)
    Y, ds = fn_flam(ip, dispersion, x)

    def enc(X, v):
        t = arr(ip, v)
        return flam((X,), t.lam() if t.ndim else t.at())
    return xp, toT(dt), enc(X, dr), enc(Y, ds), toT(order)


def tme_expectation(ip, phi, x, dt, drift, dispersion, order=3, **kw):
    no_kw(kw)
    xp, d, a, b, o = tme_args(ip, x, dt, drift, dispersion, order)
    X, out = fn_flam(ip, phi, x)

    def one(leaf):
        t = arr(ip, leaf)
        vs = tuple(fresh('i', 'I', 0, s) for s in t.shape)
        return result(Tensor(t.shape, vs, app('tmeE', flam((X,), t.at(*vs)), xp, d, a, b, o), 'f'))
    return tree_map(one, out)


def tme_mean_and_cov(ip, x, dt, drift, dispersion, order=3, **kw):
    no_kw(kw)
    xp, d, a, b, o = tme_args(ip, x, dt, drift, dispersion, order)
    t = arr(ip, x)
    n = t.shape[0]
    Sym_info.symm.add('tmeC')
    X, Xv = fn_symbol_arg(x, ip)
    return (tab((n,), lambda i: app('tmeE', flam((X,), sel(X, i)), xp, d, a, b, o)),
            tab((n, n), lambda i, j: app('tmeC', xp, d, a, b, o, i, j)))


# =============================================================================== builtins

def b_sum(ip, xs, start=0):
    from .interp import Filtered
    if isinstance(xs, Filtered):
        if not is_scalar(xs.value):
            raise Undecided('filtered symbolic comprehension')
        w = fresh('r', 'I')
        return add(toT(start), summ(w, ZERO, xs.n, subst(ite(xs.cond, numT(xs.value), ZERO), {xs.var: w})))
    l = ip.to_list(xs)
    if isinstance(l, SymList):
        v = l.value
        if isinstance(v, Tensor):
            w = fresh('r', 'I')
            vs = tuple(fresh('i', 'I', 0, s) for s in v.shape)
            if any(l.var in s.fv for s in v.shape):
                raise Undecided('sum of ragged list')
            return binop(ip, 'Add', start, Tensor(v.shape, vs, summ(w, ZERO, l.n, subst(v.at(*vs), {l.var: w})), v.dt, v.np)) \
                if start != 0 else Tensor(v.shape, vs, summ(w, ZERO, l.n, subst(v.at(*vs), {l.var: w})), v.dt, v.np)
        w = fresh('r', 'I')
        s = summ(w, ZERO, l.n, subst(numT(v), {l.var: w}))
        return add(toT(start), s)
    r = start
    for x in l:
        r = binop(ip, 'Add', r, x)
    return r


def b_len(ip, x):
    from .interp import pyint
    if isinstance(x, (list, tuple, str, dict)):
        return len(x)
    if isinstance(x, Tensor):
        if x.ndim == 0:
            raise Raised('TypeError', 'len of 0-d')
        return pyint(x.shape[0])
    if isinstance(x, (SymList, RangeV)):
        return pyint(x.n)
    if isinstance(x, Instance):
        return len(x.cls.fields)
    raise Undecided('len')


def b_range(ip, *a):
    a = [toT(x) for x in a]
    if len(a) == 1:
        return RangeV(ZERO, a[0])
    if len(a) == 2:
        return RangeV(a[0], a[1])
    st = a[2]
    if st.op != 'const':
        raise Undecided('range step')
    return RangeV(a[0], a[1], int(st.args[0]))


def b_zip(ip, *xs, **kw):
    ls = [ip.to_list(x) for x in xs]
    if all(isinstance(l, list) for l in ls):
        return [tuple(t) for t in zip(*ls)]
    ns = [const(len(l)) if isinstance(l, list) else l.n for l in ls]
    n = ns[0]
    for m in ns[1:]:
        if not dim_eq(n, m):
            if proves(le(n, m)):
                continue
            if proves(le(m, n)):
                n = m
            else:
                raise Undecided('zip lengths')
    k = fresh('k', 'I', 0, n)
    return SymList(n, k, tuple(l.at(k) if isinstance(l, SymList) else getitem(ip, l, k) for l in ls))


def b_enumerate(ip, xs, start=0):
    l = ip.to_list(xs)
    if isinstance(l, list):
        return [(k + start, x) for k, x in enumerate(l)]
    k = fresh('k', 'I', 0, l.n)
    return SymList(l.n, k, (add(k, toT(start)), l.at(k)))


def b_list(ip, xs=()):
    l = ip.to_list(xs)
    return l


def b_tuple(ip, xs=()):
    l = ip.to_list(xs)
    return tuple(l) if isinstance(l, list) else l


def b_map(ip, f, *xs):
    l = b_zip(ip, *xs)
    if isinstance(l, list):
        return [ip.call(f, list(t)) for t in l]
    k = fresh('k', 'I', 0, l.n)
    v = ip.local({k}, [le(ZERO, k), lt(k, l.n)], lambda: ip.call(f, list(l.at(k))))
    return SymList(l.n, k, v)


def b_reversed(ip, xs):
    l = ip.to_list(xs)
    if isinstance(l, list):
        return l[::-1]
    k = fresh('k', 'I', 0, l.n)
    return SymList(l.n, k, l.at(sub(sub(l.n, ONE), k)))


def b_max(ip, *a):
    return _mm(ip, a, tmax)


def b_min(ip, *a):
    return _mm(ip, a, tmin)


def _mm(ip, a, f):
    if len(a) == 1:
        a = ip.to_list(a[0])
        if isinstance(a, SymList):
            raise Undecided('max of symbolic list')
    from .interp import pyint
    r = toT(a[0])
    for x in a[1:]:
        r = f(r, toT(x))
    return pyint(r)


def b_isinstance(ip, x, c):
    cs = c if isinstance(c, tuple) else (c,)
    names = {getattr(k, 'name', str(k)) for k in cs}
    if isinstance(x, Tensor):
        if any('ndarray' in n and 'numpy' in n.replace('jax.numpy', 'JJ') for n in names):
            return x.np
        if any('jax' in n for n in names):
            return not x.np
        return False
    if isinstance(x, int):
        return any(n.split('.')[-1] == 'int' for n in names)
    if is_scalar(x):
        if any(n.split('.')[-1] in ('ndarray', 'Array') for n in names):
            raise Undecided('isinstance of a scalar')
        if any(n.split('.')[-1] in ('float',) for n in names):
            return True
        return False
    if isinstance(x, str):
        return any(n.split('.')[-1] == 'str' for n in names)
    if isinstance(x, (list, tuple)):
        return any(n.split('.')[-1] == type(x).__name__ for n in names)
    if x is None:
        return False
    raise Undecided('isinstance')


def itertools_product(ip, *xs, repeat=1):
    from .interp import StarSym
    if any(isinstance(x, StarSym) for x in xs):
        return sym_product(ip, xs)
    ls = [ip.to_list(x) for x in xs]
    if repeat != 1:
        r = toT(repeat)
        if len(ls) == 1:
            if r.op == 'const':
                ls = ls * int(r.args[0])
            else:
                k = fresh('k', 'I', 0, r)
                return sym_product(ip, [StarSym(SymList(r, k, ls[0]))])
    if all(isinstance(l, list) for l in ls):
        tot = 1
        for l in ls:
            tot *= len(l)
        if tot <= 4096:
            return [tuple(t) for t in itertools.product(*ls)]
    return sym_product(ip, [StarSym(None), ls]) if False else bad('product of symbolic ranges')


class ProdRows:
    """rows of itertools.product over a symbolic family of integer lists"""

    def __init__(self, count, width, elem):
        self.count, self.width, self.elem = count, width, elem


def sym_product(ip, xs):
    """product(*family): row r, column a  = family[a][digit(r, a)]; digits enumerate the box lexicographically."""
    from .interp import StarSym
    if len(xs) == 1 and isinstance(xs[0], StarSym):
        fam = xs[0].v
    else:
        raise Undecided('mixed product')
    inner = fam.value
    if isinstance(inner, list):
        n = const(len(inner))
        get = lambda i: getitem(ip, inner, i)
    elif isinstance(inner, SymList):
        n = inner.n
        get = None
    elif isinstance(inner, RangeV):
        n = inner.n
        get = None
    else:
        raise Undecided('product family')
    with assuming(le(ZERO, fam.var), lt(fam.var, fam.n)):
        n = NF.canon(n)
    sizes = NF.canon(lam((fam.var,), (fam.n,), n))
    w = fresh('a', 'I', 0, fam.n)
    count = prod(w, ZERO, fam.n, subst(n, {fam.var: w})) if fam.var in n.fv else power(n, fam.n)
    r = fresh('r', 'I', 0, count)
    a = fresh('k', 'I', 0, fam.n)
    dig = app('digit', sizes, r, a, sort='I')
    na = subst(n, {fam.var: a})
    el = vsubst(inner, {fam.var: a})
    v = el.at(dig) if not isinstance(el, list) else getitem(ip, el, dig)
    return SymList(count, r, SymList(fam.n, a, v))


APP_RANGE['digit'] = lambda t: (ZERO, subst(t.args[1].args[2], dict(zip(t.args[1].args[0], (t.args[3],)))))


def b_slice(ip, *a):
    return slice(*a)


def astype(ip, t, dtype, **kw):
    return cast(ip, t, dtype)


TENSOR_METHODS = dict(
    sum=red_sum, prod=red_prod, mean=red_mean, max=opaque_reduce('maxr'), min=opaque_reduce('minr'),
    argmax=opaque_reduce('argmaxr'), argmin=opaque_reduce('argminr'),
    cumsum=cumsum, transpose=lambda ip, t, *a: transpose(ip, t, (a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else (list(a) or None))),
    reshape=reshape, ravel=lambda ip, t: reshape(ip, t, (-1,)), flatten=lambda ip, t: reshape(ip, t, (-1,)),
    astype=astype, copy=lambda ip, t: Tensor(t.shape, t.vs, t.body, t.dt, t.np),
    tolist=lambda ip, t: ip_tolist(ip, t), item=lambda ip, t: t.at(*[ZERO] * t.ndim),
    dot=dot, diagonal=diagonal, squeeze=squeeze, conj=lambda ip, t: t, any=any_, all=all_,
    trace=trace, swapaxes=swapaxes, clip=clip,
)


def ip_tolist(ip, t):
    if t.ndim == 0:
        return t.at()
    l = ip.to_list(t)
    if isinstance(l, SymList):
        if isinstance(l.value, Tensor):
            return SymList(l.n, l.var, ip_tolist(ip, l.value))
        return l
    return [ip_tolist(ip, x) if isinstance(x, Tensor) else x for x in l]


def BUILTINS(ip):
    from .interp import Builtin, TypeMarker
    d = dict(sum=b_sum, len=b_len, range=b_range, zip=b_zip, enumerate=b_enumerate, list=b_list, tuple=b_tuple,
             max=b_max, min=b_min, abs=absval, isinstance=b_isinstance, int=int_, float=float_, map=b_map,
             reversed=b_reversed, pow=lambda ip, a, b: binop(ip, 'Pow', a, b),
             round=lambda ip, x, *a: pyround(ip, x, *a), sorted=lambda ip, x, **k: bad('sorted'),
             any=lambda ip, x: any_(ip, asarray(ip, x)), all=lambda ip, x: all_(ip, asarray(ip, x)),
             bool=lambda ip, x: ip.truth(x), slice=b_slice, print=lambda ip, *a, **k: None,
             str=lambda ip, x='': str(x) if isinstance(x, (int, str)) else '<str>', callable=lambda ip, f: True,
             super=lambda ip: bad('super'))
    out = {}
    for k, f in d.items():
        b = Builtin(k, (lambda f: lambda *a, **kw: f(ip, *a, **kw))(f))
        out[k] = b
    for e in ('ValueError', 'TypeError', 'NotImplementedError', 'RuntimeError', 'Exception', 'IndexError',
              'AssertionError', 'ZeroDivisionError'):
        out[e] = TypeMarker(e)
    for e in ('object', 'str', 'dict', 'set', 'bool', 'complex', 'property', 'staticmethod', 'classmethod'):
        if e not in out:
            out[e] = TypeMarker(e)
    out['True'], out['False'], out['None'] = True, False, None
    out['NotImplemented'] = TypeMarker('NotImplemented')
    out['Ellipsis'] = Ellipsis
    return out


def block(ip, rows_):
    rs = ip.to_list(rows_)
    if isinstance(rs, SymList):
        raise Undecided('block of a symbolic list')
    if not isinstance(rs[0], list):
        return hstack(ip, rs)
    return concatenate(ip, [concatenate(ip, [atleast(2)(ip, x) for x in ip.to_list(r)], 1) for r in rs], 0)


def tensordot(ip, a, b, axes=2):
    a, b = arr(ip, a), arr(ip, b)
    if isinstance(axes, (tuple, list)):
        la, lb = axes
        la = [la] if is_scalar(la) else list(la)
        lb = [lb] if is_scalar(lb) else list(lb)
        la, lb = [int(toT(x).args[0]) % a.ndim for x in la], [int(toT(x).args[0]) % b.ndim for x in lb]
    else:
        k = int(toT(axes).args[0])
        la, lb = list(range(a.ndim - k, a.ndim)), list(range(k))
    names = iter('abcdefghijklmnopqrstuvwxyz')
    sa = [next(names) for _ in range(a.ndim)]
    sb = [sa[la[lb.index(q)]] if q in lb else next(names) for q in range(b.ndim)]
    out = [x for q, x in enumerate(sa) if q not in la] + [x for q, x in enumerate(sb) if q not in lb]
    return einsum(ip, f"{''.join(sa)},{''.join(sb)}->{''.join(out)}", a, b)


def broadcast_to(ip, x, shape):
    t = arr(ip, x)
    shp = [toT(v) for v in (ip.to_list(shape) if not is_scalar(shape) else [shape])]
    off = len(shp) - t.ndim
    if off < 0:
        raise Raised('ValueError', 'broadcast_to')
    one = []
    for q, d in enumerate(t.shape):
        if dim_eq(d, shp[off + q]):
            one.append(False)
        elif d is ONE:
            one.append(True)
        else:
            raise Undecided('broadcast_to dimensions')
    return tab(shp, lambda *i: t.at(*[ZERO if o else v for o, v in zip(one, i[off:])]), t.dt, t.np)


def full_like(ip, x, v, **kw):
    no_kw(kw)
    t = arr(ip, x)
    return broadcast_to(ip, v, list(t.shape))


full_like = with_dtype(full_like)


def kron(ip, a, b):
    a, b = arr(ip, a), arr(ip, b)
    if a.ndim != 2 or b.ndim != 2:
        raise Undecided('kron ranks')
    p, q = b.shape
    return tab((mul(a.shape[0], p), mul(a.shape[1], q)),
               lambda i, j: mul(a.at(idiv(i, p), idiv(j, q)), b.at(mod(i, p), mod(j, q))), join_dt(a.dt, b.dt), a.np and b.np)


def variance(ip, x, axis=None, ddof=0, keepdims=False, **kw):
    no_kw(kw)
    t = arr(ip, x)
    if axis is None:
        t, axis = reshape(ip, t, (-1,)), 0
    a = axes_of(ip, t, axis)[0]
    c = binop(ip, 'Sub', t, expand_dims(ip, red_mean(ip, t, a), a))
    sq = binop(ip, 'Mult', c, c)
    if ip.truth(keepdims):
        raise Undecided('var keepdims')
    return binop(ip, 'Div', red_sum(ip, sq, a), sub(t.shape[a], toT(ddof)))


def sigmoid(ip, x):
    return elementwise(ip, lambda t: power(add(ONE, app('exp', neg(t))), const(-1)), x, 'f')


def softplus(ip, x):
    return elementwise(ip, lambda t: app('log', add(ONE, app('exp', t))), x, 'f')


def logaddexp(ip, a, b):
    return broadcast(ip, lambda u, v: app('log', add(app('exp', u), app('exp', v))), [a, b], 'f')


def hypot(ip, a, b):
    return broadcast(ip, lambda u, v: power(add(power(u, const(2)), power(v, const(2))), const(Fraction(1, 2))), [a, b], 'f')


TABLE = {}


def reg(names, fn):
    for n in names.split():
        TABLE[n] = fn


for P, isnp in (('jax.numpy', False), ('numpy', True)):
    def r(names, fn, P=P):
        for n in names.split():
            TABLE[P + '.' + n] = fn
    r('array asarray', mkarray(isnp))
    r('einsum', einsum)
    r('dot vdot inner', dot)
    r('matmul', matmul)
    r('outer', outer)
    r('sum nansum', red_sum)
    r('prod product', red_prod)
    r('mean', red_mean)
    r('average', average)
    r('cumsum', cumsum)
    r('cumprod', cumprod)
    r('diff', diff)
    r('max amax', max_)
    r('nonzero', nonzero)
    r('min amin', opaque_reduce('minr'))
    r('argmax', opaque_reduce('argmaxr'))
    r('argmin', opaque_reduce('argminr'))
    r('arange', arange(isnp))
    r('linspace', linspace(isnp))
    r('zeros', full_like_maker(0, isnp))
    r('ones', full_like_maker(1, isnp))
    r('empty', lambda ip, *a, **k: bad('empty'))
    r('zeros_like', like(0))
    r('ones_like', like(1))
    r('full', full)
    r('eye identity', eye(isnp))
    r('diag', diag)
    r('diagonal', diagonal)
    r('trace', trace)
    r('tril', trimask(True))
    r('triu', trimask(False))
    r('concatenate', concatenate)
    r('hstack', hstack)
    r('vstack row_stack', vstack)
    r('stack', stack)
    r('append', append)
    r('pad', pad)
    r('atleast_1d', atleast(1))
    r('atleast_2d', atleast(2))
    r('squeeze', squeeze)
    r('expand_dims', expand_dims)
    r('reshape', reshape)
    r('ravel', lambda ip, t: reshape(ip, t, (-1,)))
    r('transpose permute_dims', transpose)
    r('moveaxis', moveaxis)
    r('swapaxes', swapaxes)
    r('where', where)
    r('clip', clip)
    r('maximum', lambda ip, a, b: broadcast(ip, tmax, [a, b]))
    r('minimum', lambda ip, a, b: broadcast(ip, tmin, [a, b]))
    r('flip', flip)
    r('flipud', lambda ip, x: flip(ip, x, 0))
    r('trapz trapezoid', trapz)
    r('gradient', gradient)
    r('searchsorted', searchsorted)
    r('interp', interp1d)
    r('argsort', argsort)
    r('sort', sort_)
    r('polyval', polyval)
    r('polyadd', polyadd)
    r('polyder', polyder)
    r('roots', roots)
    r('take', take)
    r('take_along_axis', take_along_axis)
    r('meshgrid', meshgrid)
    r('any', any_)
    r('all', all_)
    r('sqrt', sqrt)
    r('square', square_)
    r('abs absolute fabs', absval)
    for f in 'exp log sin cos tan tanh sinh cosh arctan arcsin arccos sign expm1 log1p isnan isfinite'.split():
        r(f, f1(f))
    r('round', round_)
    r('rint', round_)
    r('around', round_)
    r('expm1', lambda ip, x: elementwise(ip, lambda t: sub(app('exp', t), ONE), x, 'f'))
    r('log1p', lambda ip, x: elementwise(ip, lambda t: app('log', add(ONE, t)), x, 'f'))
    r('log2', lambda ip, x: elementwise(ip, lambda t: div(app('log', t), app('log', const(2))), x, 'f'))
    r('reciprocal', lambda ip, x: binop(ip, 'Div', 1, x))
    r('negative', lambda ip, x: elementwise(ip, neg, x))
    for nm, o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
                  ('power', 'Pow'), ('float_power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod')):
        r(nm, (lambda o: lambda ip, a, b: binop(ip, o, a, b))(o))
    for nm, o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'),
                  ('greater_equal', 'GtE')):
        r(nm, (lambda o: lambda ip, a, b: compare(ip, o, a, b))(o))
    r('logical_and', lambda ip, a, b: broadcast(ip, and_, [toB(a), toB(b)], 'b'))
    r('logical_or', lambda ip, a, b: broadcast(ip, or_, [toB(a), toB(b)], 'b'))
    r('logical_not', lambda ip, a: elementwise(ip, not_, toB(a), 'b'))
    r('real', lambda ip, x: elementwise(ip, real_part, x, 'f'))
    r('imag', lambda ip, x: elementwise(ip, imag_part, x, 'f'))
    r('block', block)
    r('tensordot', tensordot)
    r('broadcast_to', broadcast_to)
    r('full_like', full_like)
    r('kron', kron)
    r('var', variance)
    r('std', lambda ip, x, **k: sqrt(ip, variance(ip, x, **k)))
    r('logaddexp', logaddexp)
    r('hypot', hypot)
    r('column_stack', lambda ip, xs: concatenate(ip, [t if t.ndim == 2 else reshape(ip, t, (-1, 1)) for t in (arr(ip, x) for x in ip.to_list(xs))], 1))
    r('fliplr', lambda ip, x: flip(ip, x, 1))
    r('positive', lambda ip, x: arr(ip, x))
    r('linalg.cholesky', cholesky)
    r('linalg.inv', inv)
    r('linalg.solve', solve)
    r('linalg.norm', norm)
    r('linalg.eigh', eigh_np)
    r('linalg.multi_dot', lambda ip, l: __import__('functools').reduce(lambda a, b: matmul(ip, a, b), ip.to_list(l)))
    r('vectorize', np_vectorize)
    r('shape', lambda ip, x: tensor_attr(ip, arr(ip, x), 'shape'))
    r('ndim', lambda ip, x: arr(ip, x).ndim)
    r('copy', lambda ip, x: TENSOR_METHODS['copy'](ip, arr(ip, x)))
    r('int64 float64', lambda ip, x: asarray(ip, x))
    r('math.factorial', math_factorial)

reg('jax.scipy.linalg.cholesky scipy.linalg.cholesky',
    lambda ip, a, lower=False, **k: cholesky(ip, a, upper=not ip.truth(lower)))
reg('math.gamma', math_gamma)
reg('jax.lax.linalg.cholesky', cholesky)
reg('jax.lax.linalg.triangular_solve', triangular_solve)
reg('jax.scipy.linalg.solve_triangular scipy.linalg.solve_triangular', solve_triangular)
reg('jax.scipy.linalg.cho_factor scipy.linalg.cho_factor', cho_factor)
reg('jax.scipy.linalg.cho_solve scipy.linalg.cho_solve', cho_solve)
reg('jax.scipy.linalg.solve scipy.linalg.solve', solve)
reg('jax.scipy.linalg.inv scipy.linalg.inv', inv)
reg('jax.lax.linalg.eigh', eigh_lax)
reg('jax.scipy.linalg.eigh', eigh_np)
reg('jax.scipy.linalg.expm scipy.linalg.expm', opaque_matrix('expm'))
reg('jax.scipy.stats.norm.pdf', norm_pdf)
reg('jax.scipy.stats.norm.logpdf', norm_logpdf)
reg('jax.scipy.stats.multivariate_normal.pdf', mvn_pdf)
reg('jax.scipy.stats.multivariate_normal.logpdf', mvn_logpdf)
reg('jax.scipy.stats.bernoulli.pmf', opaque_pmf('bernpmf'))
reg('jax.scipy.stats.poisson.pmf', opaque_pmf('poispmf'))
reg('jax.scipy.special.logsumexp', logsumexp)
reg('jax.nn.sigmoid jax.scipy.special.expit jax.lax.logistic', sigmoid)
reg('jax.nn.softplus', softplus)
reg('jax.nn.logsumexp', logsumexp)
reg('jax.vmap', vmap)
reg('jax.jit', jit)
reg('jax.jacfwd jax.jacrev jax.jacobian', jac)
reg('jax.grad', grad)
reg('jax.value_and_grad', value_and_grad)
reg('jax.hessian', hessian)
reg('jax.lax.cond', lax_cond)
reg('jax.lax.select jax.lax.select_n', lax_select)
reg('jax.lax.switch', lax_switch)
reg('jax.lax.scan', lax_scan)
reg('jax.lax.map', lax_map)
reg('jax.lax.fori_loop', fori_loop)
reg('jax.lax.lgamma jax.scipy.special.gammaln scipy.special.gammaln math.lgamma', f1('lgamma'))
reg('jax.numpy.vectorize', np_vectorize)


def stop_gradient(ip, x):
    raise Undecided('stop_gradient')


CUSTOM_JVP = {'mfs.utils:integer_power'}      # their rules are under contract (integer_power_jvp)


def custom_jvp(ip, f):
    """differentiates like the function itself: the rule is the subject of a separate contract"""
    if getattr(f, 'qualname', None) not in CUSTOM_JVP:
        raise Undecided('custom_jvp')
    return f


reg('jax.custom_jvp', custom_jvp)
reg('jax.lax.stop_gradient', stop_gradient)
reg('jax.random.split', rsplit)
reg('jax.random.uniform', rdraw('runif'))
reg('jax.random.normal', rdraw('rnorm'))
reg('jax.random.choice', rchoice)
reg('jax.random.bernoulli', rbernoulli)
reg('jax.random.PRNGKey', lambda ip, s: app('prngkey', toT(s), sort='K'))
reg('functools.partial', functools_partial)
reg('functools.lru_cache functools.cache', functools_cache)
reg('math.factorial', math_factorial)
reg('math.comb', math_comb)
reg('math.floor', floor)
reg('math.ceil', ceil)
reg('math.sqrt', sqrt)
reg('math.exp', f1('exp'))
reg('math.log', f1('log'))
reg('math.pow', lambda ip, a, b: binop(ip, 'Pow', a, b))
reg('math.prod', red_prod)
reg('scipy.special.factorial', factorial)
reg('scipy.special.factorial2', factorial2)
reg('scipy.special.comb scipy.special.binom', comb)
reg('scipy.linalg.pascal', pascal)
reg('itertools.product', itertools_product)
reg('warnings.warn', lambda ip, *a, **k: None)
reg('tme.base_jax.expectation', tme_expectation)
reg('tme.base_jax.mean_and_cov', tme_mean_and_cov)

CONSTS = {'math.pi': PI, 'numpy.pi': PI, 'jax.numpy.pi': PI, 'jax.numpy.newaxis': None, 'numpy.newaxis': None,
          'math.e': sym('e', 'R'), 'jax.numpy.inf': sym('inf', 'R'), 'numpy.inf': sym('inf', 'R'),
          'math.inf': sym('inf', 'R'), 'math.tau': mul(const(2), PI)}

MODULES = {'jax', 'jax.numpy', 'numpy', 'jax.lax', 'jax.scipy', 'jax.lax.linalg', 'jax.scipy.linalg', 'jax.scipy.stats',
           'jax.scipy.stats.norm', 'jax.scipy.stats.multivariate_normal', 'jax.scipy.stats.bernoulli',
           'jax.scipy.stats.poisson', 'jax.numpy.linalg', 'numpy.linalg', 'jax.random', 'math', 'scipy', 'scipy.linalg',
           'scipy.special', 'functools', 'itertools', 'warnings', 'tme', 'tme.base_jax', 'typing', 'numpy.math',
           'jax.scipy.special', 'scipy.stats', 'jax.nn'}
ALIASES = {'np.math.factorial': 'math.factorial'}


def install(ip):
    pass


def resolve(ip, path):
    from .interp import Builtin, TypeMarker
    if path in MODULES:
        return Mod(path)
    if path in CONSTS:
        return CONSTS[path]
    if path in TABLE:
        fn = TABLE[path]

        def call(*a, **kw):
            USED.add(path)
            from .interp import StarSym
            if any(isinstance(x, StarSym) for x in a) and path not in ('itertools.product', 'jax.numpy.meshgrid', 'numpy.meshgrid'):
                raise Undecided('symbolic star argument')
            return fn(ip, *a, **kw)
        return Builtin(path, call)
    if path.startswith('typing.') or path in ('jax.Array', 'numpy.ndarray', 'jax.numpy.ndarray'):
        return TypeMarker(path)
    last = path.split('.')[-1]
    if last in ('int64', 'int32', 'uint8', 'float64', 'float32', 'int8', 'int16', 'uint16', 'bool_', 'complex128',
                'int_', 'float_'):
        return Dtype(last)

    def missing(*a, **k):
        raise Undecided(f'no model of {path}')
    return Builtin(path, missing)
