"""z3 back end for integer side conditions (indices, sizes, parities, guards)."""
import time
import z3
from .terms import *


class Ctx:
    """Assumptions in force (preconditions, path condition, local guards)."""
    base = []      # list of bool T
    stack = []
    stats = dict(queries=0, time=0.0, unknown=0)
    _ver = 0

    @classmethod
    def assumptions(cls):
        return cls.base + cls.stack

    @classmethod
    def key(cls):
        return frozenset(cls.base) | frozenset(cls.stack)


class assuming:
    def __init__(self, *conds):
        self.conds = [c for c in conds if c is not TRUE]

    def __enter__(self):
        Ctx.stack.extend(self.conds)

    def __exit__(self, *a):
        for _ in self.conds:
            Ctx.stack.pop()


_zc = {}


def _name(t):
    return f't{t.uid}'


def to_z3(t, extra):
    """T (int/bool, opaque reals allowed as atoms) -> z3.  `extra` collects side definitions."""
    k = (t, len(APP_RANGE))
    r = _zc.get(k)
    if r is None:
        e = []
        r = _zc[k] = (_to_z3(t, e), tuple(e))
    extra.extend(r[1])
    return r[0]


def _to_z3(t, extra):
    if t.op in ('sum', 'prod', 'app') and alpha(t) is not t:
        return to_z3(alpha(t), extra)
    op, a = t.op, t.args
    if op == 'const':
        c = a[0]
        return z3.IntVal(int(c)) if c.denominator == 1 and t.sort == 'I' else z3.RealVal(str(c))
    if op == 'sym':
        if t.sort == 'I':
            return z3.Int(_name(t))
        if t.sort == 'B':
            return z3.Bool(_name(t))
        return z3.Real(_name(t))
    if op == 'add':
        r = to_z3(a[0], extra)
        for u in a[1:]:
            r = r + to_z3(u, extra)
        return r
    if op == 'mul':
        r = to_z3(a[0], extra)
        for u in a[1:]:
            r = r * to_z3(u, extra)
        return r
    if op == 'pow' and a[1].op == 'const' and a[1].args[0].denominator == 1 and 0 < a[1].args[0] <= 3:
        b = to_z3(a[0], extra)
        r = b
        for _ in range(int(a[1].args[0]) - 1):
            r = r * b
        return r
    if op == 'ite':
        return z3.If(to_z3(a[0], extra), to_z3(a[1], extra), to_z3(a[2], extra))
    if op == 'idiv':
        x, y = to_z3(a[0], extra), to_z3(a[1], extra)
        if a[1].op == 'const' and a[1].args[0] > 0:
            return x / y
    if op == 'mod':
        x, y = to_z3(a[0], extra), to_z3(a[1], extra)
        if a[1].op == 'const' and a[1].args[0] > 0:
            return x % y
    if op == 'lt':
        return to_z3(a[0], extra) < to_z3(a[1], extra)
    if op == 'le':
        return to_z3(a[0], extra) <= to_z3(a[1], extra)
    if op == 'eq':
        return to_z3(a[0], extra) == to_z3(a[1], extra)
    if op == 'not':
        return z3.Not(to_z3(a[0], extra))
    if op == 'and':
        return z3.And(*[to_z3(u, extra) for u in a])
    if op == 'or':
        return z3.Or(*[to_z3(u, extra) for u in a])
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    # integer-indexed applications with integer arguments: uninterpreted functions, so congruence is available
    if op == 'app' and all(isinstance(u, T) and (u.sort in 'I' or u.op == 'sym') for u in a[1:]) and len(a) > 1:
        heads = [u for u in a[1:] if u.sort not in 'I']
        ints = [u for u in a[1:] if u.sort in 'I']
        fn = z3.Function('F_%s_%s_%d' % (a[0], '_'.join(_name(h) for h in heads), len(ints)),
                         *([z3.IntSort()] * len(ints)),
                         z3.IntSort() if t.sort == 'I' else (z3.BoolSort() if t.sort == 'B' else z3.RealSort())) \
            if ints else None
        if fn is not None:
            r = fn(*[to_z3(u, extra) for u in ints])
            if t.sort == 'I':
                lo, hi = app_range(t)
                if lo is not None:
                    extra.append(r >= to_z3(lo, []))
                if hi is not None:
                    extra.append(r < to_z3(hi, []))
            return r
    if t.sort == 'I':
        r = z3.Int(_name(t))
        if op in ('sum', 'prod') and syn_nonneg(t):
            extra.append(r >= 0)
        if op == 'app':
            lo, hi = app_range(t)
            if lo is not None:
                extra.append(r >= to_z3(lo, []))
            if hi is not None:
                extra.append(r < to_z3(hi, []))
        return r
    if t.sort == 'B':
        return z3.Bool(_name(t))
    r = z3.Real(_name(t))
    if op in ('sum', 'prod') and syn_nonneg(t):
        extra.append(r >= 0)
    return r


APP_RANGE = {}   # head -> function(T) -> (lo, hi) of an int-valued application


def app_range(t):
    a = t.args
    head = a[1] if a[0] == 'sel' else a[0]
    f = APP_RANGE.get(head)
    return f(t) if f else (None, None)


def syn_nonneg(t):
    """non-negative by its syntax"""
    op, a = t.op, t.args
    if op == 'const':
        return a[0] >= 0
    if op in ('add', 'mul'):
        return all(syn_nonneg(u) for u in a)
    if op in ('sum', 'prod'):
        return syn_nonneg(a[3])
    if op == 'ite':
        return syn_nonneg(a[1]) and syn_nonneg(a[2])
    if op == 'sym':
        lo = Sym_info.lo.get(t)
        return lo is not None and lo.op == 'const' and lo.args[0] >= 0
    if op == 'app':
        if a[0] in ('fact', 'comb'):
            return True
        lo = app_range(t)[0]
        return lo is not None and lo.op == 'const' and lo.args[0] >= 0
    return False


def _sym_constraints(ts):
    seen, todo, out = set(), list(ts), []
    while todo:
        t = todo.pop()
        for s in t.fv:
            if s in seen:
                continue
            seen.add(s)
            lo, hi = Sym_info.lo.get(s), Sym_info.hi.get(s)
            if lo is not None:
                out.append(le(lo, s))
                todo.append(lo)
            if hi is not None:
                out.append(lt(s, hi))
                todo.append(hi)
            if s in Sym_info.pos:
                out.append(lt(ZERO, s))
    return out


_cache = {}


def check_sat(conds, timeout=3000):
    """conds: list of bool T, in addition to the context.  Returns 'sat'/'unsat'/'unknown'."""
    conds = [c for c in conds if c is not TRUE]
    if any(c is FALSE for c in conds):
        return 'unsat'
    ass = Ctx.assumptions()
    key = (frozenset(conds), frozenset(ass))
    r = _cache.get(key)
    if r is not None:
        return r
    allc = list(conds) + list(ass)
    allc += _sym_constraints(allc)
    s = z3.Solver()
    s.set('timeout', timeout)
    extra = []
    zs = [to_z3(c, extra) for c in dict.fromkeys(allc)]
    s.add(*zs, *{id(e): e for e in extra}.values())
    t0 = time.time()
    r = str(s.check())
    Ctx.stats['queries'] += 1
    Ctx.stats['time'] += time.time() - t0
    if r == 'unknown':
        Ctx.stats['unknown'] += 1
    _cache[key] = r
    return r


def model(conds, syms, timeout=5000):
    allc = [c for c in conds if c is not TRUE] + list(Ctx.assumptions())
    allc += _sym_constraints(allc + list(syms))
    s = z3.Optimize()
    s.set('timeout', timeout)
    extra = []
    for c in allc:
        s.add(to_z3(c, extra))
    for e in extra:
        s.add(e)
    for x in syms:
        s.minimize(to_z3(x, []))
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for x in syms:
        v = m.eval(to_z3(x, []), model_completion=True)
        try:
            out[x] = v.as_long()
        except Exception:
            pass
    return out


def _const_diff(a, b):
    d = sub(a, b)
    return d.args[0] if d.op == 'const' else None


def proves(c):
    """Is the condition implied by the context?"""
    if c is TRUE:
        return True
    if c is FALSE:
        return check_sat([]) == 'unsat'
    if c.op in ('lt', 'le', 'eq') and c.args[0].sort == 'I' and c.args[1].sort == 'I':
        k = _const_diff(c.args[0], c.args[1])
        if k is not None:
            if {'lt': k < 0, 'le': k <= 0, 'eq': k == 0}[c.op]:
                return True
    return check_sat([not_(c)]) == 'unsat'


def refutes(c):
    if c is FALSE:
        return True
    if c is TRUE:
        return False
    return check_sat([c]) == 'unsat'
