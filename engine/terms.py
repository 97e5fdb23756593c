"""Hash-consed symbolic terms: the term language of the verifier.

Reals and integers are mathematical (see DESIGN.md, assumptions).  Sizes and indices are integer symbols, so every
statement proved about a term holds for all sizes.
"""
from fractions import Fraction
import itertools

_table = {}
_fresh = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'fv', 'h', 'uid', '__weakref__')
    _n = itertools.count()

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    # convenience operators
    def __add__(self, o): return add(self, lift(o))
    __radd__ = __add__
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    __rmul__ = __mul__
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __pow__(self, o): return power(self, lift(o))
    def __rpow__(self, o): return power(lift(o), self)


class Sym_info:
    """Range / sign information on free symbols."""
    lo = {}
    hi = {}
    pos = set()      # strictly positive real symbols / function heads
    nonneg = set()
    symm = set()     # heads of symmetric matrices (last two indices)
    unit = {}        # head -> ...
    intfun = set()
    rule = {}        # weights -> (nodes, number of nodes): a quadrature rule exact to degree two


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.h = hash(key)
        t.uid = next(T._n)
        if op == 'sym':
            t.fv = frozenset((t,))
        elif op in ('sum', 'prod'):
            v, lo, hi, body = args
            t.fv = (body.fv - {v}) | lo.fv | hi.fv
        elif op == 'lam':
            vs, sizes, body = args
            s = body.fv - set(vs)
            for z in sizes:
                s = s | z.fv
            t.fv = s
        elif op == 'flam':
            vs, body = args
            t.fv = body.fv - set(vs)
        else:
            s = frozenset()
            for a in args:
                if isinstance(a, T):
                    s = s | a.fv
            t.fv = s
        _table[key] = t
    return t


def const(c, sort=None):
    c = Fraction(c)
    return mk('const', (c,), sort or ('I' if c.denominator == 1 else 'R'))


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    raise TypeError(f'cannot lift {x!r}')


ZERO, ONE = const(0), const(1)
TRUE, FALSE = mk('true', (), 'B'), mk('false', (), 'B')


def sym(name, sort='R'):
    return mk('sym', (name,), sort)


def fresh(base='v', sort='I', lo=None, hi=None):
    s = sym(f'{base}!{next(_fresh)}', sort)
    if lo is not None:
        Sym_info.lo[s] = lift(lo)
    if hi is not None:
        Sym_info.hi[s] = lift(hi)
    return s


def is_const(t):
    return t.op == 'const'


def _sort2(*ts):
    for t in ts:
        if t.sort == 'C':
            return 'C'
    for t in ts:
        if t.sort == 'R':
            return 'R'
    return 'I'


def add(*ts):
    c = Fraction(0)
    out = []
    sort = _sort2(*ts)
    for t in ts:
        if t.op == 'const':
            c += t.args[0]
        elif t.op == 'add':
            for u in t.args:
                if u.op == 'const':
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if not out:
        return const(c)
    if c != 0:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    # collect like terms (keeps linear expressions canonical)
    if True:
        coeffs = {}
        order = []
        for u in out:
            k, b = _split(u)
            if b not in coeffs:
                order.append(b)
                coeffs[b] = Fraction(0)
            coeffs[b] += k
        out2 = []
        for b in sorted(order, key=lambda b: (b is None, b.uid if b is not None else 0)):
            k = coeffs[b]
            if k == 0:
                continue
            if b is None:
                out2.append(const(k))
            else:
                out2.append(b if k == 1 else mul(const(k), b))
        if not out2:
            return ZERO
        if len(out2) == 1:
            return out2[0]
        return mk('add', tuple(out2), sort)


def _split(u):
    if u.op == 'const':
        return u.args[0], None
    if u.op == 'mul' and u.args[0].op == 'const':
        rest = u.args[1:]
        return u.args[0].args[0], rest[0] if len(rest) == 1 else mk('mul', rest, u.sort)
    return Fraction(1), u


def mul(*ts):
    c = Fraction(1)
    out = []
    sort = _sort2(*ts)
    for t in ts:
        if t.op == 'const':
            c *= t.args[0]
        elif t.op == 'mul':
            for u in t.args:
                if u.op == 'const':
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if not out:
        return const(c)
    if len(out) == 1 and out[0].op == 'add':
        return add(*[mul(const(c), u) for u in out[0].args])
    if c != 1:
        out.insert(0, const(c))
        if c.denominator != 1 and sort == 'I':
            sort = 'R'
    if len(out) == 1:
        return out[0]
    return mk('mul', tuple(out), sort)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def power(b, e):
    b, e = lift(b), lift(e)
    if e.op == 'const':
        if e.args[0] == 0:
            return ONE
        if e.args[0] == 1:
            return b
        if b.op == 'const' and e.args[0].denominator == 1 and (b.args[0] != 0 or e.args[0] > 0):
            return const(b.args[0] ** int(e.args[0]))
    if b is ONE:
        return ONE
    sort = 'I' if b.sort == 'I' and e.sort == 'I' else ('C' if 'C' in (b.sort, e.sort) else 'R')
    if e.op == 'const' and e.args[0] < 0:
        sort = 'C' if sort == 'C' else 'R'
    return mk('pow', (b, e), sort)


def div(a, b):
    return mul(a, power(b, const(-1)))


def summ(v, lo, hi, body):
    lo, hi = lift(lo), lift(hi)
    if body is ZERO:
        return ZERO
    return mk('sum', (v, lo, hi, body), body.sort)


def prod(v, lo, hi, body):
    lo, hi = lift(lo), lift(hi)
    if body is ONE:
        return ONE
    return mk('prod', (v, lo, hi, body), body.sort)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    return mk('ite', (c, a, b), _sort2(a, b))


def app(name, *args, sort='R'):
    return mk('app', (name,) + tuple(args), sort)


def sel(arr, *idx, sort='R'):
    """Element of an array symbol; beta-reduces on array literals (lam)."""
    if arr.op == 'lam':
        vs, sizes, body = arr.args
        return subst(body, dict(zip(vs, idx)))
    return mk('app', ('sel', arr) + tuple(idx), sort)


def lam(vs, sizes, body):
    return mk('lam', (tuple(vs), tuple(lift(s) for s in sizes), body), 'L')


def flam(vs, body):
    return mk('flam', (tuple(vs), body), 'L')


def cmp(op, a, b):
    """op in lt le eq ; ints or reals"""
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[0], b.args[0]
        return TRUE if {'lt': x < y, 'le': x <= y, 'eq': x == y}[op] else FALSE
    if a is b:
        return FALSE if op == 'lt' else TRUE
    return mk(op, (a, b), 'B')


def lt(a, b): return cmp('lt', lift(a), lift(b))
def le(a, b): return cmp('le', lift(a), lift(b))
def eq(a, b): return cmp('eq', lift(a), lift(b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'lt':
        return cmp('le', c.args[1], c.args[0])
    if c.op == 'le':
        return cmp('lt', c.args[1], c.args[0])
    return mk('not', (c,), 'B')


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for d in (c.args if c.op == 'and' else (c,)):
            if d not in out:
                out.append(d)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for d in (c.args if c.op == 'or' else (c,)):
            if d not in out:
                out.append(d)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def idiv(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] // b.args[0])
    if b.op == 'const':
        k = b.args[0]
        if k == 1:
            return a
        parts = a.args if a.op == 'add' else (a,)
        if all(_split(p)[0] % k == 0 for p in parts):
            return add(*[mul(const(_split(p)[0] / k), _split(p)[1] if _split(p)[1] is not None else ONE) for p in parts])
    return mk('idiv', (a, b), 'I')


def mod(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] % b.args[0])
    if b.op == 'const':
        k = b.args[0]
        parts = a.args if a.op == 'add' else (a,)
        new = []
        for p in parts:
            c, r = _split(p)
            c2 = c % k
            if c2 != 0:
                new.append(mul(const(c2), r if r is not None else ONE))
        if not new:
            return ZERO
        a2 = add(*new)
        if a2.op == 'const':
            return const(a2.args[0] % k)
        return mk('mod', (a2, b), 'I')
    return mk('mod', (a, b), 'I')


# ---------------------------------------------------------------- substitution

_sub_cache = {}


def subst(t, m):
    """Capture-avoiding substitution, m: {sym: T}."""
    if not m:
        return t
    m = {k: v for k, v in m.items() if k in t.fv and k is not v}
    if not m:
        return t
    key = (t, frozenset(m.items()))
    r = _sub_cache.get(key)
    if r is None:
        if len(_sub_cache) > 400000:
            _sub_cache.clear()
        r = _subst(t, m)
        _sub_cache[key] = r
    return r


def rename_binder(t):
    """Return an alpha-variant of a sum/prod/lam/flam with fresh bound symbols."""
    if t.op in ('sum', 'prod'):
        v, lo, hi, body = t.args
        w = fresh('b', v.sort)
        return mk(t.op, (w, lo, hi, subst(body, {v: w})), t.sort)
    if t.op == 'lam':
        vs, sizes, body = t.args
        ws = tuple(fresh('l', v.sort) for v in vs)
        return mk('lam', (ws, sizes, subst(body, dict(zip(vs, ws)))), t.sort)
    vs, body = t.args
    ws = tuple(fresh('f', v.sort) for v in vs)
    return mk('flam', (ws, subst(body, dict(zip(vs, ws)))), t.sort)


_alpha_cache = {}


def alpha(t):
    """alpha-normal form: bound symbols named by the height of their scope"""
    r = _alpha_cache.get(t)
    if r is None:
        r = _alpha_cache[t] = _alpha(t)[0]
    return r


def _alpha(t):
    op = t.op
    if op in ('sym', 'const', 'true', 'false'):
        return t, 0
    if op in ('sum', 'prod'):
        v, lo, hi, body = t.args
        (lo, h1), (hi, h2), (body, h3) = _alpha(lo), _alpha(hi), _alpha(body)
        h = max(h1, h2, h3) + 1
        w = sym('@%d' % h, v.sort)
        return mk(op, (w, lo, hi, subst(body, {v: w})), t.sort), h
    if op == 'lam':
        vs, sizes, body = t.args
        ss = [_alpha(z) for z in sizes]
        body, h = _alpha(body)
        h = max([h] + [x[1] for x in ss]) + 1
        ws = tuple(sym('@%d.%d' % (h, i), v.sort) for i, v in enumerate(vs))
        return mk('lam', (ws, tuple(x[0] for x in ss), subst(body, dict(zip(vs, ws)))), t.sort), h
    if op == 'flam':
        return t, 0
    h, args = 0, []
    for a in t.args:
        if isinstance(a, T):
            a, k = _alpha(a)
            h = max(h, k)
        args.append(a)
    if tuple(args) == t.args:
        return t, h
    return rebuild(t, tuple(args)), h


def _subst(t, m):
    op = t.op
    if op == 'sym':
        return m.get(t, t)
    if op in ('sum', 'prod', 'lam', 'flam'):
        bound = (t.args[0],) if op in ('sum', 'prod') else t.args[0]
        vals = frozenset().union(*[v.fv for v in m.values()])
        if any(b in vals or b in m for b in bound):
            t = rename_binder(t)
        if op in ('sum', 'prod'):
            v, lo, hi, body = t.args
            lo, hi, body = subst(lo, m), subst(hi, m), subst(body, m)
            return summ(v, lo, hi, body) if op == 'sum' else prod(v, lo, hi, body)
        if op == 'lam':
            vs, sizes, body = t.args
            return lam(vs, [subst(s, m) for s in sizes], subst(body, m))
        vs, body = t.args
        return flam(vs, subst(body, m))
    args = tuple(subst(a, m) if isinstance(a, T) else a for a in t.args)
    return rebuild(t, args)


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return power(*args)
    if op == 'ite':
        return ite(*args)
    if op in ('lt', 'le', 'eq'):
        return cmp(op, *args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'mod':
        return mod(*args)
    if op == 'app':
        if args[0] == 'sel':
            return sel(*args[1:], sort=t.sort)
        return mk('app', args, t.sort)
    return mk(op, args, t.sort)


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if depth > 12:
        return '…'
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    op, a = t.op, t.args
    if op == 'const':
        return str(a[0])
    if op == 'sym':
        return a[0]
    if op == 'add':
        return '(' + ' + '.join(map(s, a)) + ')'
    if op == 'mul':
        return '*'.join(map(s, a))
    if op == 'pow':
        return f'{s(a[0])}^({s(a[1])})'
    if op in ('sum', 'prod'):
        return f'{op}[{s(a[0])}={s(a[1])}..{s(a[2])})({s(a[3])})'
    if op == 'ite':
        return f'({s(a[0])} ? {s(a[1])} : {s(a[2])})'
    if op == 'app':
        return f'{a[0]}({", ".join(map(s, a[1:]))})'
    if op == 'lam':
        return f'λ{",".join(map(s, a[0]))}<{",".join(map(s, a[1]))}. {s(a[2])}'
    if op == 'flam':
        return f'λ{",".join(map(s, a[0]))}. {s(a[1])}'
    if op in ('lt', 'le', 'eq'):
        return f'({s(a[0])} {dict(lt="<", le="<=", eq="==")[op]} {s(a[1])})'
    if op == 'not':
        return f'¬{s(a[0])}'
    if op in ('and', 'or'):
        return '(' + f' {op} '.join(map(s, a)) + ')'
    if op == 'true' or op == 'false':
        return op
    return f'{op}({", ".join(map(s, a))})'
