"""Normal forms and equality proofs for terms with symbolic sizes.

A term is expanded to a sum of monomials; a monomial is  coef * SUM_{bound vars} [conditions] * PROD atom^exponent.
Two terms are proved equal when, after matching monomials up to a change of bound variables, the weighted indicator
functions of their (integer) domains cancel identically -- decided by z3 for all integers.
"""
import itertools
from fractions import Fraction
from .terms import *
from .solver import *


class Undecided(Exception):
    """The construct is outside what the engine can decide (never reported as a violation)."""


class Blowup(Undecided):
    pass


MAXMONO = 4000
IMAG = sym('𝑖', 'C')
PI = sym('π', 'R')
Sym_info.pos.add(PI)


class Mono:
    __slots__ = ('bv', 'conds', 'facs', 'h')

    def __init__(self, bv, conds, facs):
        self.bv, self.conds = frozenset(bv), frozenset(conds)
        self.facs = tuple(sorted(((a, e) for a, e in facs if e is not ZERO), key=lambda p: (p[0].uid, p[1].uid)))
        self.h = hash((self.bv, self.conds, self.facs))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.bv == o.bv and self.conds == o.conds and self.facs == o.facs

    def fv(self):
        s = frozenset()
        for c in self.conds:
            s = s | c.fv
        for a, e in self.facs:
            s = s | a.fv | e.fv
        return s - self.bv

    def __repr__(self):
        r = ''
        if self.bv:
            r += 'Σ{' + ','.join(sorted(v.args[0] for v in self.bv)) + '}'
        if self.conds:
            r += '[' + ' & '.join(sorted(map(show, self.conds))) + ']'
        return r + '·'.join(f'{show(a)}' + ('' if e is ONE else f'^({show(e)})') for a, e in self.facs)


def show_poly(p):
    return ' + '.join(f'{c}*{m}' for m, c in p.items()) or '0'


UNIT = Mono((), (), ())


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + k * c
        if c2 == 0:
            r.pop(m, None)
        else:
            r[m] = c2
    return r


def pconst(c):
    return {UNIT: Fraction(c)} if c != 0 else {}


def is_unit_poly(p):
    return len(p) == 1 and UNIT in p


# ----------------------------------------------------------------------------- literals

def split_cond(c):
    """bool T -> list of (coef, [literals]) representing its indicator as a polynomial in literal indicators."""
    if c is TRUE:
        return [(1, ())]
    if c is FALSE:
        return []
    if c.op == 'and':
        acc = [(1, ())]
        for d in c.args:
            acc = [(x * y, tuple(dict.fromkeys(a + b))) for x, a in acc for y, b in split_cond(d)]
        return acc
    if c.op == 'or':
        # 1 - prod(1 - ci)
        acc = [(1, ())]
        for d in c.args:
            nd = split_cond(not_(d))
            acc = [(x * y, tuple(dict.fromkeys(a + b))) for x, a in acc for y, b in nd]
        return [(1, ())] + [(-x, a) for x, a in acc]
    if c.op == 'not' and c.args[0].op in ('and', 'or'):
        inner = c.args[0]
        if inner.op == 'or':
            return split_cond(and_(*[not_(d) for d in inner.args]))
        return [(1, ())] + [(-x, a) for x, a in split_cond(inner)]
    return [(1, (norm_literal(c),))]


_lit_cache = {}


def has_deep(x):
    """does an integer term contain an application of arrays or a conditional (so that it needs canonicalisation)?"""
    if x.op in ('add', 'mul'):
        return any(has_deep(a) for a in x.args)
    if x.op == 'ite':
        return True
    return x.op == 'app' and any(isinstance(a, T) and a.op in ('lam', 'flam', 'tup', 'sum', 'prod', 'ite', 'mul', 'add', 'pow') and a.sort != 'I'
                                 for a in x.args)


def norm_literal(c):
    neg_ = c.op == 'not'
    d = c.args[0] if neg_ else c
    if d.op not in ('lt', 'le', 'eq'):
        return c
    a, b = d.args
    if a.sort == 'I' and b.sort == 'I':
        x = sub(a, b)
        if has_deep(x):
            try:
                x = canon(x)
            except Undecided:
                pass
        if d.op == 'lt':
            x, op = add(x, ONE), 'le'
        else:
            op = d.op
        if x.op == 'const':
            r = cmp(op, x, ZERO)
        else:
            # normalise by gcd of coefficients
            parts = x.args if x.op == 'add' else (x,)
            ks = []
            k0 = Fraction(0)
            lin = []
            for p in parts:
                k = p.args[0].args[0] if p.op == 'mul' and p.args[0].op == 'const' else Fraction(1)
                if p.op == 'const':
                    k0 = p.args[0]
                else:
                    ks.append(k)
                    lin.append(p)
            if all(k.denominator == 1 for k in ks):
                from math import gcd
                g = 0
                for k in ks:
                    g = gcd(g, abs(int(k)))
                if g > 1:
                    if op == 'eq':
                        if k0 % g != 0:
                            return not_(FALSE) if neg_ else FALSE
                        x = add(*[mul(const(Fraction(1, g)), p) for p in lin], const(k0 / g))
                    else:
                        x = add(*[mul(const(Fraction(1, g)), p) for p in lin], const(-((-k0) // g)))
            if op == 'eq':
                # sign-normalise
                p0 = (x.args if x.op == 'add' else (x,))[0]
                k = p0.args[0].args[0] if p0.op == 'mul' and p0.args[0].op == 'const' else Fraction(1)
                if k < 0:
                    x = neg(x)
            r = mk(op, (x, ZERO), 'B')
        return not_(r) if neg_ else r
    # real comparison: canonicalise the difference
    x = canon(sub(a, b))
    if x.op == 'const':
        r = cmp(d.op, x, ZERO)
    else:
        k = lead_coef(x)
        if d.op == 'eq':
            x = canon(mul(const(1 / k), x))
        elif abs(k) != 1:
            x = canon(mul(const(1 / abs(k)), x))
        r = mk(d.op, (x, ZERO), 'B')
    return not_(r) if neg_ else r


def lead_coef(x):
    p = nf(x)
    m = min(p, key=lambda m: [(a.uid, e.uid) for a, e in m.facs])
    return p[m]


# ----------------------------------------------------------------------------- monomial products

def merge_facs(*faclists):
    d = {}
    for fl in faclists:
        for a, e in fl:
            d[a] = add(d[a], e) if a in d else e
    return d


def raw_fac(a, e):
    return power(a, e)


def rename_mono(m, avoid):
    clash = [v for v in m.bv if v in avoid]
    if not clash:
        return m
    mp = {v: fresh('b', 'I') for v in clash}
    return sub_mono(m, mp)


def sub_mono(m, mp):
    return Mono([mp.get(v, v) for v in m.bv], [subst(c, mp) for c in m.conds],
                [(subst(a, mp), subst(e, mp)) for a, e in m.facs])


def mono_fv_all(m):
    s = set(m.bv)
    for c in m.conds:
        s |= c.fv
    for a, e in m.facs:
        s |= a.fv | e.fv
    return s


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > MAXMONO:
        raise Blowup(f'product of {len(p)} x {len(q)} monomials')
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if m1.bv and m2.bv or m2.bv:
                m2r = rename_mono(m2, mono_fv_all(m1))
            else:
                m2r = m2
            if m1.bv:
                m1r = rename_mono(m1, mono_fv_all(m2r) - m2r.bv) if (m1.bv & (mono_fv_all(m2r))) else m1
            else:
                m1r = m1
            facs = merge_facs(m1r.facs, m2r.facs)
            r = simp(c1 * c2, m1r.bv | m2r.bv, set(m1r.conds | m2r.conds), facs)
            out = padd(out, r)
    if len(out) > MAXMONO:
        raise Blowup('too many monomials')
    return out


def lin_coef(t, v):
    """coefficient of sym v in linear int term t, or None if not linear in v."""
    if v not in t.fv:
        return Fraction(0)
    if t is v:
        return Fraction(1)
    if t.op == 'add':
        k = Fraction(0)
        for p in t.args:
            c = lin_coef(p, v)
            if c is None:
                return None
            k += c
        return k
    if t.op == 'mul' and t.args[0].op == 'const' and len(t.args) == 2:
        c = lin_coef(t.args[1], v)
        return None if c is None else c * t.args[0].args[0]
    return None


def solve_for(x, v):
    """x = 0 solved for v (coef +-1): returns T or None."""
    k = lin_coef(x, v)
    if k in (1, -1):
        return canon_int(mul(const(-k), sub(x, mul(const(k), v))))
    return None


def canon_int(t):
    return t


ELIM_ORDER = None


def simp(coef, bv, conds, facs):
    """Simplify one monomial; returns a Poly."""
    if coef == 0:
        return {}
    bv = set(bv)
    # --- literals
    conds2 = set()
    for c in conds:
        if c is TRUE:
            continue
        if c is FALSE:
            return {}
        conds2.add(c)
    conds = conds2
    # --- equality elimination of bound variables
    for c in list(conds):
        if c.op == 'eq' and c.args[0].sort == 'I':
            x = sub(c.args[0], c.args[1])
            cand = sorted((v for v in bv if v in x.fv), key=lambda s: s.uid, reverse=True)
            for v in cand:
                s = solve_for(x, v)
                if s is not None and v not in s.fv:
                    mp = {v: s}
                    conds3 = []
                    for d in conds:
                        if d is not c:
                            conds3.append(subst(d, mp))
                    body = mul(const(coef), *[power(subst(a, mp), subst(e, mp)) for a, e in facs.items()])
                    return wrap(bv - {v}, conds3, body)
    # --- free equalities: substitute a symbol (keeps the condition), canonical direction
    # --- numeric clean-up of factors
    f2 = {}
    for a, e in facs.items():
        if e is ZERO:
            continue
        f2[a] = e
    facs = f2
    # constants with symbolic exponent, sign atoms, imaginary unit
    extra = None
    for a, e in list(facs.items()):
        if a.op == 'const':
            c = a.args[0]
            if e.op == 'const' and e.args[0].denominator == 1:
                del facs[a]
                if c == 0 and e.args[0] < 0:
                    raise Undecided('division by zero constant')
                coef = coef * c ** int(e.args[0])
            elif c == -1:
                e2 = mod2_exp(e)
                if e2 is not e:
                    del facs[a]
                    k0, e3 = split_const(e2)
                    if k0.denominator == 1:
                        if k0 % 2:
                            coef = -coef
                        e2 = e3
                    if e2 is not ZERO:
                        facs[a] = e2
            else:
                k0, e3 = split_const(e)
                if k0.denominator == 1 and k0 != 0:
                    coef = coef * c ** int(k0)
                    facs[a] = e3
                elif k0.denominator != 1 and (k0 >= 1 or k0 < 0):
                    fl = k0.numerator // k0.denominator
                    coef = coef * c ** int(fl)
                    facs[a] = add(e3, const(k0 - fl))
        elif a is IMAG and e.op == 'const':
            k = int(e.args[0]) % 4
            del facs[a]
            if k >= 2:
                coef = -coef
            if k % 2:
                facs[a] = ONE
    if coef == 0:
        return {}
    # exponentials
    exps = [(a, e) for a, e in facs.items() if a.op == 'app' and a.args[0] == 'exp']
    if len(exps) > 1 or (exps and exps[0][1] is not ONE):
        for a, _ in exps:
            del facs[a]
        arg = canon(add(*[mul(e, a.args[1]) for a, e in exps]))
        if arg is not ZERO:
            a = app('exp', arg)
            facs[a] = ONE
    # --- groups (sums) with a positive integer part in the exponent: expand
    for a, e in list(facs.items()):
        if a.op in ('add', 'sum', 'ite'):
            k0, e3 = split_const(e)
            fl = k0.numerator // k0.denominator
            if fl >= 1 and fl <= 6:
                rest = dict(facs)
                e4 = add(e3, const(k0 - fl))
                if e4 is ZERO:
                    del rest[a]
                else:
                    rest[a] = e4
                p = simp(coef, bv, conds, rest) if not (bv & a.fv) else None
                if p is not None:
                    g = nf(a)
                    for _ in range(fl):
                        p = pmul(p, g)
                    return p
                else:
                    inner = mul(const(coef), *[power(x, y) for x, y in rest.items()])
                    p = nf(inner)
                    g = nf(a)
                    for _ in range(fl):
                        p = pmul(p, g)
                    return add_binders(p, bv, conds)
    # --- special two-factor contractions over a bound variable
    r = contract(coef, bv, conds, facs)
    if r is not None:
        return r
    # --- z3: unsatisfiable domain, redundant literals
    if conds:
        lits = sorted(conds, key=lambda c: (size(c), c.uid), reverse=True)
        if check_sat(lits) == 'unsat':
            return {}
        keep = list(lits)
        for c in lits:
            if c.op == 'eq' and c.args[0].sort != 'I':
                continue
            others = [d for d in keep if d is not c]
            if check_sat(others + [not_(c)]) == 'unsat':
                keep = others
        # an int equality-implied pair  x<=k & x>=k
        conds = set(keep)
        eqs = implied_equalities(bv, conds)
        if eqs is not None:
            v, s = eqs
            mp = {v: s}
            body = mul(const(coef), *[power(subst(a, mp), subst(e, mp)) for a, e in facs.items()])
            return wrap(bv - {v}, [subst(d, mp) for d in conds], body)
    # --- vacuous bound variables
    for v in list(bv):
        if any(v in a.fv or v in e.fv for a, e in facs.items()):
            continue
        los, his, ok = [], [], True
        for c in conds:
            if v in c.fv:
                if c.op != 'le':
                    ok = False
                    break
                x = sub(c.args[0], c.args[1])
                k = lin_coef(x, v)
                if k == 1:       # v + r <= 0  -> v <= -r
                    his.append((c, neg(sub(x, v))))
                elif k == -1:    # -v + r <= 0 -> v >= r
                    los.append((c, add(x, v)))
                else:
                    ok = False
                    break
        if ok and len(los) == 1 and len(his) == 1:
            cnt = add(sub(his[0][1], los[0][1]), ONE)
            rest = [c for c in conds if v not in c.fv]
            body = mul(const(coef), *[power(a, e) for a, e in facs.items()])
            nonempty = le(ZERO, cnt)
            with assuming(*rest):
                pr = proves(nonempty)
            if pr:
                return wrap(bv - {v}, rest, mul(body, cnt))
    return {Mono(bv, conds, facs.items()): Fraction(coef)}


def implied_equalities(bv, conds):
    """x <= 0 and -x <= 0 in conds with a bound variable solvable."""
    les = {}
    for c in conds:
        if c.op == 'le' and c.args[1] is ZERO and c.args[0].sort == 'I':
            les[c.args[0]] = c
    for x in les:
        if neg(x) in les:
            for v in sorted((v for v in bv if v in x.fv), key=lambda s: s.uid, reverse=True):
                s = solve_for(x, v)
                if s is not None:
                    return v, s
    return None


def size(t):
    if not isinstance(t, T):
        return 1
    if t.op == 'sym' or t.op == 'const':
        return 1
    n = 1
    for a in t.args:
        if isinstance(a, T):
            n += size(a)
        elif isinstance(a, tuple):
            n += len(a)
    return n


def split_const(e):
    if e.op == 'const':
        return e.args[0], ZERO
    if e.op == 'add':
        for p in e.args:
            if p.op == 'const':
                return p.args[0], sub(e, p)
    return Fraction(0), e


def mod2_exp(e):
    parts = e.args if e.op == 'add' else (e,)
    new, changed = [], False
    for p in parts:
        if p.op == 'const':
            new.append(p)
            continue
        k = p.args[0].args[0] if p.op == 'mul' and p.args[0].op == 'const' else Fraction(1)
        base = p if k == 1 else mk_rest(p)
        if k.denominator == 1:
            k2 = k % 2
            if k2 != k:
                changed = True
            if k2:
                new.append(mul(const(k2), base))
        else:
            new.append(p)
    k0, _ = split_const(e)
    if not changed and k0 == 0:
        return e
    r = add(*new) if new else ZERO
    return add(r, ZERO) if r is not e else mk('add', (e, ), e.sort) if False else r


def mk_rest(p):
    rest = p.args[1:]
    return rest[0] if len(rest) == 1 else mk('mul', rest, p.sort)


def wrap(bv, conds, body):
    """nf of  SUM_bv [conds] body, body raw."""
    lits = []
    for c in conds:
        c = norm_literal(c)
        if c is FALSE:
            return {}
        if c is not TRUE:
            lits.append(c)
    with assuming(*lits):
        p = nf(body)
    return add_binders(p, bv, lits)


def add_binders(p, bv, conds):
    out = {}
    for m, c in p.items():
        bad = set(bv)
        for d in conds:
            bad |= d.fv
        m = rename_mono(m, bad) if (m.bv & bad) else m
        out = padd(out, simp(c, m.bv | set(bv), set(m.conds) | set(conds), dict(m.facs)))
    return out


def contract(coef, bv, conds, facs):
    """chol(A)[i,k] chol(A)[j,k] summed over k -> A[i,j];  triinv(L)[k,i] triinv(L)[k,j], L=chol(A) -> inv(A)[i,j];
    A^{-1} contractions with triinv/chol:  triinv(L)[i,k] L[k,j] -> delta_ij."""
    for v in bv:
        occ = [(a, e) for a, e in facs.items() if v in a.fv or v in e.fv]
        if not occ:
            continue
        if Sym_info.rule and len(occ) <= 3:
            r = rule_moment(v, occ, conds)
            if r is not None:
                rest = {x: y for x, y in facs.items() if v not in x.fv}
                return wrap(set(bv) - {v}, [c for c in conds if v not in c.fv], mul(const(coef), r, *[power(x, y) for x, y in rest.items()]))
        tot = []
        ok = True
        for a, e in occ:
            if v in e.fv or a.op != 'app' or a.args[0] not in MATHEADS or e.op != 'const' or \
                    e.args[0].denominator != 1 or e.args[0] < 1:
                ok = False
                break
            # v must appear only as a plain index
            if v in a.args[1].fv:
                ok = False
                break
            tot += [a] * int(e.args[0])
        if not ok or len(tot) != 2:
            continue
        a, b = tot
        na, La, ia, ja = a.args
        nb, Lb, ib, jb = b.args
        n = La.args[1][0]
        # the range of v must be exactly [0, n)
        vc = [c for c in conds if v in c.fv]
        if not full_range(v, n, vc):
            continue
        repl = None
        if na == 'chol' and nb == 'chol' and La is Lb and ja is v and jb is v:
            repl = subst(La.args[2], dict(zip(La.args[0], (ia, ib))))
        elif na == 'triinv' and nb == 'triinv' and La is Lb and ia is v and ib is v:
            A = chol_arg(La)
            if A is not None:
                repl = app('inv', A, ja, jb)
        elif {na, nb} == {'triinv', 'chol'}:
            t, c = (a, b) if na == 'triinv' else (b, a)
            if chol_arg(t.args[1]) is c.args[1]:
                if t.args[3] is v and c.args[2] is v:
                    repl = ite(eq(t.args[2], c.args[3]), ONE, ZERO)
                elif t.args[2] is v and c.args[3] is v:
                    repl = ite(eq(t.args[3], c.args[2]), ONE, ZERO)
        elif na == 'orth' and nb == 'orth' and La is Lb and ((ja is v and jb is v) or (ia is v and ib is v)):
            x, y = (ia, ib) if ja is v and jb is v else (ja, jb)
            repl = ite(eq(x, y), ONE, ZERO)
        if repl is None:
            continue
        rest = {x: y for x, y in facs.items() if x is not a and x is not b}
        body = mul(const(coef), repl, *[power(x, y) for x, y in rest.items()])
        return wrap(set(bv) - {v}, [c for c in conds if v not in c.fv], body)
    return None


def rule_moment(v, occ, conds):
    """sum_v w[v] xi[v, .].. for a rule (w, xi) that is exact for polynomials of degree two: 1, 0, delta"""
    ws = [a for a, e in occ if e is ONE and a.op == 'app' and a.args[0] == 'sel' and a.args[1] in Sym_info.rule and a.args[2] is v]
    if len(ws) != 1:
        return None
    xi, n = Sym_info.rule[ws[0].args[1]]
    idx = []
    for a, e in occ:
        if a is ws[0]:
            continue
        if a.op != 'app' or a.args[0] != 'sel' or a.args[1] is not xi or a.args[2] is not v or v in a.args[3].fv or \
                e.op != 'const' or e.args[0] not in (1, 2):
            return None
        idx += [a.args[3]] * int(e.args[0])
    if len(idx) > 2 or not full_range(v, n, [c for c in conds if v in c.fv]):
        return None
    return (ONE, ZERO, ite(eq(*idx), ONE, ZERO) if len(idx) == 2 else None)[len(idx)]


MATHEADS = {'chol', 'triinv', 'inv', 'orth'}


def chol_arg(L):
    """If the lam L is literally chol(A), return A."""
    if L.op == 'lam' and L.args[2].op == 'app' and L.args[2].args[0] == 'chol':
        t = L.args[2]
        if t.args[2] is L.args[0][0] and t.args[3] is L.args[0][1]:
            return t.args[1]
    return None


def full_range(v, n, vc):
    want = {norm_literal(le(ZERO, v)), norm_literal(lt(v, n))}
    if set(vc) == want:
        return True
    if not all(c.op == 'le' for c in vc):
        return False
    return check_sat([le(ZERO, v), lt(v, n), not_(and_(*vc))]) == 'unsat' and \
        check_sat(list(vc) + [not_(and_(*want))]) == 'unsat'


# ----------------------------------------------------------------------------- normal form

_nf_cache = {}


def nf(t):
    key = (t, Ctx.key())
    r = _nf_cache.get(key)
    if r is None:
        r = _nf(t)
        _nf_cache[key] = r
    return r


def atom_poly(a, e=ONE):
    return simp(1, (), (), {a: e})


EXPAND_CONST = 6


def _nf(t):
    op, a = t.op, t.args
    if op == 'const':
        return pconst(a[0])
    if op == 'sym':
        return simp(1, (), (), {t: ONE})
    if op == 'add':
        out = {}
        for u in a:
            out = padd(out, nf(u))
        if len(out) > MAXMONO:
            raise Blowup('sum too large')
        return out
    if op == 'mul':
        out = nf(a[0])
        for u in a[1:]:
            out = pmul(out, nf(u))
        return out
    if op == 'ite':
        c, x, y = a
        c = simp_cond(c)
        if c is TRUE:
            return nf(x)
        if c is FALSE:
            return nf(y)
        out = {}
        with assuming(c):
            px = nf(x)
        with assuming(not_(c)):
            py = nf(y)
        for k, lits in split_cond(c):
            out = padd(out, add_binders(px, (), lits), k)
        for k, lits in split_cond(not_(c)):
            out = padd(out, add_binders(py, (), lits), k)
        return out
    if op == 'sum':
        v, lo, hi, body = a
        n = sub(hi, lo)
        if n.op == 'const' and n.args[0] <= EXPAND_CONST:
            out = {}
            for i in range(int(n.args[0])):
                out = padd(out, nf(subst(body, {v: add(lo, const(i))})))
            return out
        return wrap({v}, [le(lo, v), lt(v, hi)], body)
    if op == 'prod':
        return nf_prod(t)
    if op == 'pow':
        return nf_pow(a[0], a[1])
    if op == 'app':
        return nf_app(t)
    if op in ('idiv', 'mod'):
        x, y = canon(a[0]), canon(a[1])
        u = idiv(x, y) if op == 'idiv' else mod(x, y)
        if u.op not in ('idiv', 'mod'):
            return nf(u)
        # x div k under a known residue
        if y.op == 'const' and y.args[0] > 0:
            k = int(y.args[0])
            if k <= 4:
                for r in range(k):
                    if proves(eq(mk('mod', (x, y), 'I'), const(r))) if u.op != 'const' else False:
                        if op == 'mod':
                            return pconst(r)
                        return nf(mul(const(Fraction(1, k)), sub(x, const(r))))
        return simp(1, (), (), {u: ONE})
    if t.sort == 'B':
        return nf(ite(t, ONE, ZERO))
    raise Undecided(f'nf: {op}')


def simp_cond(c):
    """Evaluate a condition under the context when decided."""
    if c in (TRUE, FALSE):
        return c
    if c.op in ('and', 'or'):
        ds = [simp_cond(d) for d in c.args]
        return and_(*ds) if c.op == 'and' else or_(*ds)
    if c.op == 'not':
        return not_(simp_cond(c.args[0]))
    if c.op in ('lt', 'le', 'eq'):
        n = norm_literal(c)
        if n in (TRUE, FALSE):
            return n
        if n.args[0].op != 'not' and n.args and isinstance(n.args[0], T) and n.args[0].sort == 'I' or n.op == 'not':
            if proves(n):
                return TRUE
            if refutes(n):
                return FALSE
        else:
            if n in Ctx.assumptions():
                return TRUE
            if not_(n) in Ctx.assumptions():
                return FALSE
            s = sign_known(n)
            if s is not None:
                return TRUE if s else FALSE
        return n
    return c


def sign_known(n):
    """Real literal  x < 0 / x <= 0 / x == 0 decided by declared positivity."""
    x = n.args[0]
    p = nf(x)
    if p and all(m_positive(m) and not m.bv for m in p):
        if all(c > 0 for c in p.values()):
            return False          # x > 0
        if all(c < 0 for c in p.values()):
            return n.op != 'eq'
    return None


def m_positive(m):
    if m.conds:
        return False
    for a, e in m.facs:
        if is_pos(a):
            continue
        return False
    return True


def is_pos(a):
    if a in Sym_info.pos:
        return True
    if a.op == 'const':
        return a.args[0] > 0
    if a.op == 'app':
        if a.args[0] == 'exp':
            return True
        if a.args[0] in ('fact',):
            return True
        if a.args[0] == 'sel' and a.args[1] in Sym_info.pos:
            return True
        if a.args[0] in Sym_info.pos:
            return True
        if a.args[0] == 'chol' and a.args[2] is a.args[3]:
            return True
    if a.op == 'add':
        return all(is_pos_term(u) for u in a.args)
    if a.op == 'sym' and a.sort == 'I' and proves(lt(ZERO, a)):
        return True
    return False


def is_pos_term(u):
    try:
        p = nf(u)
    except Undecided:
        return False
    return bool(p) and all(c > 0 and m_positive(m) and not m.bv for m, c in p.items())


def const_pow(c, e):
    """rational constant ^ e (e raw, non-integer-constant) as facs dict, coef"""
    facs = {}
    coef = Fraction(1)
    if c < 0:
        facs[const(-1)] = e
        c = -c
    for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factorint(base).items():
            facs_add(facs, const(p), mul(const(sgn * k), e))
    return facs


def facs_add(f, a, e):
    f[a] = add(f[a], e) if a in f else e


def factorint(n):
    out = {}
    n = int(n)
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def nf_pow(b, e):
    e = canon(e)
    if e.op == 'const' and e.args[0] == 0:
        return pconst(1)
    if b.op == 'ite':
        return nf(ite(b.args[0], power(b.args[1], e), power(b.args[2], e)))
    if e.op == 'ite':
        return nf(ite(e.args[0], power(b, e.args[1]), power(b, e.args[2])))
    if b.op == 'pow' and pow_pow_ok(b, e):
        return nf_pow(b.args[0], canon(mul(b.args[1], e)))
    p = nf(b)
    if e.op == 'const' and e.args[0] == 1:
        return p
    if not p:
        if e.op == 'const':
            if e.args[0] > 0:
                return {}
            raise Undecided('0 to a non-positive power')
        return nf(ite(eq(e, ZERO), ONE, ZERO)) if e.sort == 'I' else {}
    if e.op == 'const' and e.args[0].denominator == 1 and 0 < e.args[0] <= 6 and \
            (len(p) <= 3 or e.args[0] <= 2) and not (len(p) == 1 and not next(iter(p)).bv and not next(iter(p)).conds):
        out = p
        for _ in range(int(e.args[0]) - 1):
            out = pmul(out, p)
        return out
    if len(p) == 1:
        (m, c), = p.items()
        if not m.bv and not m.conds:
            int_e = e.sort == 'I' or (e.op == 'const' and e.args[0].denominator == 1)
            facs = {}
            coef = Fraction(1)
            residual = {}
            for a, ea in m.facs:
                if int_e or is_pos(a) or half(ea) or a.op == 'app' and a.args[0] in Sym_info.nonneg:
                    facs_add(facs, a, canon(mul(ea, e)))
                else:
                    residual[a] = ea
            rc = c
            if int_e or c > 0:
                if e.op == 'const' and e.args[0].denominator == 1:
                    coef *= c ** int(e.args[0])
                else:
                    for a, ea in const_pow(c, e).items():
                        facs_add(facs, a, ea)
                rc = Fraction(1)
            if residual or rc != 1:
                g = canon_raw({Mono((), (), residual.items()): rc})
                facs_add(facs, g if len(residual) != 1 or rc != 1 or next(iter(residual.values())) is not ONE
                         else next(iter(residual)), e)
            return simp(coef, (), (), facs)
    # group: pull out common factors and rational content
    cf, coefc, rest = common(p)
    facs = {}
    coef = Fraction(1)
    int_e = e.sort == 'I' or (e.op == 'const' and e.args[0].denominator == 1)
    if cf or coefc != 1:
        okc = all(int_e or is_pos(a) for a in cf)
        if okc:
            for a, ea in cf.items():
                facs_add(facs, a, canon(mul(ea, e)))
            if e.op == 'const' and e.args[0].denominator == 1:
                coef = coefc ** int(e.args[0])
            else:
                for a, ea in const_pow(coefc, e).items():
                    facs_add(facs, a, ea)
            p = rest
    g = canon_raw(p)
    if g.op not in ('add', 'sum', 'ite') and not (g.op == 'mul' and any(u.op == 'sum' or u.op == 'ite' for u in g.args)):
        q = nf_pow(g, e) if g.op != 'pow' else atom_poly(g, e)
        return pmul(simp(coef, (), (), facs), q)
    facs_add(facs, g, e)
    return simp(coef, (), (), facs)


def half(e):
    return e.op == 'const' and e.args[0].denominator != 1


def pow_pow_ok(b, e):
    base, e1 = b.args
    if e.sort == 'I' or (e.op == 'const' and e.args[0].denominator == 1):
        return True
    if e1.op == 'const' and e1.args[0].denominator != 1:
        return True
    return is_pos_term(base)


def common(p):
    """common factors (atoms without bound variables, constant exponents) and positive rational content"""
    from math import gcd
    ms = list(p)
    cf = {}
    cand = dict(ms[0].facs)
    for a, e in cand.items():
        if e.op != 'const' or any(a.fv & m.bv for m in ms):
            continue
        es = []
        for m in ms:
            d = dict(m.facs).get(a)
            if d is None or d.op != 'const':
                es = None
                break
            es.append(d.args[0])
        if es is None:
            continue
        k = min(es)
        if all(x < 0 for x in es):
            k = max(es) if False else min(es)
        if k != 0:
            cf[a] = const(k)
    # also negative exponents not shared are left alone
    num = 0
    den = 1
    for c in p.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    content = Fraction(num, den)
    if not cf and content == 1:
        return {}, Fraction(1), p
    rest = {}
    for m, c in p.items():
        f = dict(m.facs)
        for a, k in cf.items():
            f[a] = sub(f[a], k)
        rest = padd(rest, simp(c / content, m.bv, set(m.conds), f))
    return cf, content, rest


def point_conds(t, v):
    """the conditions v == k (k free of v) that the term t branches on"""
    out, seen = [], set()
    def go(u):
        if not isinstance(u, T) or u in seen or v not in u.fv:
            return
        seen.add(u)
        if u.op == 'ite':
            def cs(c):
                if c.op == 'eq' and v in c.fv and c not in out:
                    out.append(c)
                elif c.op in ('and', 'or', 'not'):
                    for x in c.args:
                        cs(x)
            cs(u.args[0])
        for x in u.args:
            go(x)
    go(t)
    return out


def nf_prod(t):
    v, lo, hi, body = t.args
    n = sub(hi, lo)
    if n.op == 'const' and n.args[0] <= EXPAND_CONST:
        out = pconst(1)
        for i in range(int(n.args[0])):
            out = pmul(out, nf(subst(body, {v: add(lo, const(i))})))
        return out
    rng = (le(lo, v), lt(v, hi))
    for c in point_conds(body, v):
        k = solve_for(sub(c.args[0], c.args[1]), v)
        if k is None or v in k.fv:
            continue
        with assuming(*rng, not_(c)):
            off = nf(body)
        if is_unit_poly(off) and off[UNIT] == 1:       # every factor but the one at k is 1
            return nf(ite(and_(le(lo, k), lt(k, hi)), subst(body, {v: k}), ONE))
    with assuming(*rng):
        p = nf(body)
    if len(p) == 1:
        (m, c), = p.items()
        if not m.bv and not m.conds:
            facs = {}
            pre = pconst(1)
            if c != 1:
                pre = nf_pow(const(c), n)
            for a, e in m.facs:
                if v not in a.fv and v not in e.fv:
                    facs_add(facs, a, canon(mul(e, n)))
                elif v not in a.fv:
                    facs_add(facs, a, canon(summ(v, lo, hi, e)))
                else:
                    sgn = 1
                    le_ = e.args[0] if e.op == 'add' else e
                    if le_.op == 'mul' and le_.args[0].op == 'const' and le_.args[0].args[0] < 0 or \
                            le_.op == 'const' and le_.args[0] < 0:
                        sgn = -1
                    e2 = mul(const(sgn), e)
                    if e2.op == 'const' and e2.args[0].denominator == 1:
                        pa, pe = a, e2
                    else:
                        pa, pe = power(a, e2), ONE
                    w = sym('%p', 'I')
                    # shift to start at 0
                    bodyc = subst(pa, {v: add(w, lo)})
                    at = app('prodl', lam((w,), (n,), bodyc))
                    facs_add(facs, at, mul(const(sgn), pe))
            return pmul(pre, simp(1, (), (), facs))
    w = sym('%p', 'I')
    b = subst(body, {v: add(w, lo)})
    return simp(1, (), (), {app('prodl', canon(lam((w,), (n,), b))): ONE})


NFHOOK = {}      # name -> function(T with canonical args) -> T or None


def nf_app(t):
    a = t.args
    name = a[0]
    args = tuple(canon(x) if isinstance(x, T) else x for x in a[1:])
    u = mk('app', (name,) + args, t.sort) if name != 'sel' else sel(*args, sort=t.sort)
    if u.op != 'app':
        return nf(u)
    h = NFHOOK.get(name)
    if h is not None:
        r = h(u)
        if r is not None and r is not u:
            return nf(r)
    if name in MATHEADS or (name == 'sel' and u.args[1] in Sym_info.symm) or name in Sym_info.symm:
        u = sort_symm(u)
    return simp(1, (), (), {u: ONE})


def sort_symm(u):
    head = u.args[1] if u.args[0] == 'sel' else u.args[0]
    if head in Sym_info.symm or (u.args[0] == 'inv' and lam_symmetric(u.args[1])):
        i, j = u.args[-2:]
        if (size(i), i.uid) > (size(j), j.uid):
            return mk('app', u.args[:-2] + (j, i), u.sort)
    return u


_symcache = {}


def lam_symmetric(L):
    r = _symcache.get((L, Ctx.key()))
    if r is None:
        vs, sizes, body = L.args
        _symcache[(L, Ctx.key())] = False
        i, j = fresh('i', 'I', 0, sizes[0]), fresh('j', 'I', 0, sizes[0])
        r = prove_eq(subst(body, dict(zip(vs, (i, j)))), subst(body, dict(zip(vs, (j, i)))))
        _symcache[(L, Ctx.key())] = r
    return r


# -- elementary functions
def _log(u):
    x = u.args[1]
    p = nf(x)
    if x is ONE:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m.bv and not m.conds:
            out = []
            rest = {}
            for a, e in m.facs:
                if is_pos(a) and not (len(m.facs) == 1 and c == 1 and e is ONE):
                    out.append(mul(e, app('log', a)))
                elif half(e) and a.op != 'const':
                    out.append(mul(e, app('log', a)))
                else:
                    rest[a] = e
            if c > 0 and c != 1:
                for k, e in const_pow(c, ONE).items():
                    out.append(mul(e, app('log', k)))
                c = Fraction(1)
            if out:
                r = canon_raw({Mono((), (), rest.items()): c})
                if r is not ONE:
                    out.append(app('log', r))
                return add(*out)
            if len(rest) == 1 and c == 1:
                (a, e), = rest.items()
                if a.op == 'app' and a.args[0] == 'exp' and e is ONE:
                    return a.args[1]
                if a.op == 'const':
                    return None
    elif not p:
        return None
    if len(p) > 1 or any(m.bv for m in p):
        cf, content, _ = common(p)
        cf = {a: e for a, e in cf.items() if is_pos(a)}
        if cf or content != 1:
            rest = {}
            for m, c in p.items():
                f = dict(m.facs)
                for a, k in cf.items():
                    f[a] = sub(f[a], k)
                rest = padd(rest, simp(c / content, m.bv, set(m.conds), f))
            out = [mul(e, app('log', a)) for a, e in cf.items()]
            out += [mul(e, app('log', k)) for k, e in const_pow(content, ONE).items()]
            return add(*out, app('log', canon_raw(rest)))
    return None


def _exp(u):
    if u.args[1] is ZERO:
        return ONE
    x = u.args[1]
    if x.op == 'app' and x.args[0] == 'log':
        return x.args[1]
    p = nf(x)
    out, rest = [], {}
    for m, c in p.items():
        if not m.bv and not m.conds and len(m.facs) == 1:
            (a, e), = m.facs
            if a.op == 'app' and a.args[0] == 'log' and e is ONE:
                out.append(power(a.args[1], const(c)))
                continue
        rest[m] = c
    if out:
        return mul(*out, app('exp', canon_raw(rest)))
    return None


def _fact(u):
    x = u.args[1]
    if x.op == 'const':
        import math
        return const(math.factorial(int(x.args[0]))) if x.args[0] >= 0 else None
    return None


def _comb(u):
    n, k = u.args[1:]
    if n.op == 'const' and k.op == 'const' and n.args[0] >= 0 and k.args[0] >= 0:
        import math
        return const(math.comb(int(n.args[0]), int(k.args[0])))
    if proves(and_(le(ZERO, k), le(k, n))):
        return div(app('fact', n, sort='I'), mul(app('fact', k, sort='I'), app('fact', sub(n, k), sort='I')))
    if k is ZERO:
        return ONE if proves(le(ZERO, n)) else None
    if not has_binder(n) and not has_binder(k) and proves(and_(le(ZERO, n), lt(n, k))):
        return ZERO
    return None


def _abs(u):
    x = u.args[1]
    if is_pos_term(x):
        return x
    y = _neg_pref(x)
    return app('abs', y) if y is not None else None


def _neg_pref(x):
    """the canonical negation of x when it is the preferred representative of {x, -x}"""
    y = canon(mul(const(-1), x))
    return y if (size(y), y.uid) < (size(x), x.uid) else None


def _cos(u):
    if u.args[1] is ZERO:
        return ONE
    y = _neg_pref(u.args[1])
    return app('cos', y) if y is not None else None


def _sin(u):
    if u.args[1] is ZERO:
        return ZERO
    y = _neg_pref(u.args[1])
    return mul(const(-1), app('sin', y)) if y is not None else None


def _tanh(u):
    y = _neg_pref(u.args[1])
    return mul(const(-1), app('tanh', y)) if y is not None else None


def _one_by_one(f):
    def h(u):
        L = u.args[1]
        if L.op == 'lam' and len(L.args[0]) == 2 and all(x is ONE for x in L.args[1]):
            return f(subst(L.args[2], {v: ZERO for v in L.args[0]}))
        return None
    return h


NFHOOK.update(inv=_one_by_one(lambda b: power(b, const(-1))), triinv=_one_by_one(lambda b: power(b, const(-1))),
              chol=_one_by_one(lambda b: power(b, const(Fraction(1, 2)))))
NFHOOK.update(cos=_cos, sin=_sin, tanh=_tanh, log=_log, exp=_exp, fact=_fact, comb=_comb, abs=_abs)


# ----------------------------------------------------------------------------- canonical raw terms

_canon_cache = {}


def canon(t):
    if t.op in ('const', 'true', 'false'):
        return t
    if t.op == 'sym':
        return t
    key = (t, Ctx.key())
    r = _canon_cache.get(key)
    if r is None:
        r = _canon(t)
        _canon_cache[key] = r
    return r


def level(t):
    """nesting level of canonical binders inside t"""
    return _level(t)


_levc = {}


def _level(t):
    if not isinstance(t, T):
        return max([_level(x) for x in t], default=0) if isinstance(t, tuple) else 0
    if t.op in ('sym', 'const'):
        return 0
    r = _levc.get(t)
    if r is None:
        r = max([_level(x) for x in t.args if isinstance(x, (T, tuple))], default=0)
        if t.op in ('sum', 'prod', 'lam', 'flam'):
            r += 1
        _levc[t] = r
    return r


def _canon(t):
    if t.sort == 'B':
        if t.op in ('lt', 'le', 'eq', 'not'):
            return simp_cond(t)
        if t.op in ('and', 'or'):
            return simp_cond(t)
        return t
    if t.op == 'lam':
        vs, sizes, body = t.args
        ws = [fresh('l', v.sort) for v in vs]
        sizes = [canon(s) for s in sizes]
        b = subst(body, dict(zip(vs, ws)))
        rng = []
        for w, s in zip(ws, sizes):
            rng += [le(ZERO, w), lt(w, s)]
        with assuming(*rng):
            b = canon(b)
        L = level(b) + 1
        ns = [sym(f'%{L}_{k}', v.sort) for k, v in enumerate(vs)]
        return lam(ns, sizes, subst(b, dict(zip(ws, ns))))
    if t.op == 'flam':
        vs, body = t.args
        ws = [fresh('f', v.sort) for v in vs]
        for v, w in zip(vs, ws):
            if v in Sym_info.symm:
                Sym_info.symm.add(w)
        b = canon(subst(body, dict(zip(vs, ws))))
        L = level(b) + 1
        ns = [sym(f'@{L}_{k}', v.sort) for k, v in enumerate(vs)]
        return flam(ns, subst(b, dict(zip(ws, ns))))
    if t.op == 'tup':
        return mk('tup', tuple(canon(x) for x in t.args), 'L')
    return canon_raw(nf(t))


def atom_key(a, bv):
    """key of an atom that does not depend on the names of the bound variables"""
    if a.op == 'sym':
        return ('b',) if a in bv else ('s', a.uid)
    if a.op == 'const':
        return ('c', a.args[0])
    if not (a.fv & bv):
        return ('t', a.uid)
    return (a.op,) + tuple(atom_key(x, bv) if isinstance(x, T) else
                           (('tp',) + tuple(atom_key(y, bv) for y in x) if isinstance(x, tuple) else ('n', str(x)))
                           for x in a.args)


def canon_mono(m):
    """Rename bound variables canonically (best effort). Returns (sortkey, bvs, conds, facs)."""
    if not m.bv:
        facs = sorted(m.facs, key=lambda p: (str(atom_key(p[0], m.bv)), str(atom_key(p[1], m.bv))))
        return m
    lvl = 1 + max([level(a) for a, e in m.facs] + [level(e) for a, e in m.facs] + [0] +
                  [level(c) for c in m.conds])
    facs = sorted(m.facs, key=lambda p: str((atom_key(p[0], m.bv), atom_key(p[1], m.bv))))
    # order of first occurrence
    order = []

    def visit(t):
        if t.op == 'sym':
            if t in m.bv and t not in order:
                order.append(t)
            return
        if not (t.fv & m.bv):
            return
        for x in t.args:
            if isinstance(x, T):
                visit(x)
            elif isinstance(x, tuple):
                for y in x:
                    visit(y)

    groups = itertools.groupby(facs, key=lambda p: str((atom_key(p[0], m.bv), atom_key(p[1], m.bv))))
    groups = [list(g) for _, g in groups]
    nperm = 1
    import math
    for g in groups:
        nperm *= math.factorial(len(g))
    best = None
    if nperm <= 24:
        perms = itertools.product(*[itertools.permutations(g) for g in groups])
    else:
        perms = [groups]
    for pm in perms:
        order.clear()
        for g in pm:
            for a, e in g:
                visit(a)
                visit(e)
        rest = sorted((v for v in m.bv if v not in order),
                      key=lambda v: str(sorted(str(atom_key(c, m.bv)) for c in m.conds if v in c.fv)))
        o = order + rest
        mp = {v: sym(f'${lvl}_{k}', 'I') for k, v in enumerate(o)}
        m2 = sub_mono(m, mp)
        m2 = Mono(m2.bv, [norm_literal(c) for c in m2.conds], m2.facs)
        k = tuple(sorted(c.uid for c in m2.conds)), tuple((a.uid, e.uid) for a, e in m2.facs)
        if best is None or k < best[0]:
            best = (k, m2)
    return best[1]


def mono_raw(m, c):
    body = mul(const(c), *[power(a, e) for a, e in m.facs])
    conds = set(m.conds)
    # split off simple ranges for the bound variables
    rng = {}
    for v in m.bv:
        los = [d for d in conds if d.op == 'le' and lin_coef(sub(d.args[0], d.args[1]), v) == -1]
        his = [d for d in conds if d.op == 'le' and lin_coef(sub(d.args[0], d.args[1]), v) == 1]
        rng[v] = (los, his)
    order = sorted(m.bv, key=lambda v: v.args[0])
    if m.bv:
        done = []
        for v in order:
            los = [d for d in rng[v][0] if not (d.fv & (m.bv - {v}) - set(done))]
            his = [d for d in rng[v][1] if not (d.fv & (m.bv - {v}) - set(done))]
            if not los or not his:
                # reorder attempt: fall back to first available
                los = los or rng[v][0]
                his = his or rng[v][1]
            if not los or not his:
                raise Undecided('bound variable without a range: ' + show_poly({m: c}))
            l = min(los, key=lambda d: (size(d), d.uid))
            h = min(his, key=lambda d: (size(d), d.uid))
            x = sub(l.args[0], l.args[1])
            y = sub(h.args[0], h.args[1])
            rng[v] = (add(x, v), add(neg(sub(y, v)), ONE))
            conds.discard(l)
            conds.discard(h)
            done.append(v)
        # dependency order: outermost first must not mention later variables
        seq = []
        left = list(order)
        while left:
            for v in left:
                if not ((rng[v][0].fv | rng[v][1].fv) & (set(left) - {v})):
                    seq.append(v)
                    left.remove(v)
                    break
            else:
                raise Undecided('cyclic ranges')
        if conds:
            body = ite(and_(*sorted(conds, key=lambda d: d.uid)), body, ZERO)
        for v in reversed(seq):
            body = summ(v, rng[v][0], rng[v][1], body)
        return body
    if conds:
        body = ite(and_(*sorted(conds, key=lambda d: d.uid)), body, ZERO)
    return body


def reflection(m):
    """{v: lo + hi - v} for a bound variable that occurs in array indices only with coefficient -1"""
    for v in m.bv:
        coefs = set()

        def visit(t):
            if not (isinstance(t, T) and v in t.fv):
                return
            if t.op == 'app' and t.args[0] == 'sel':
                for i in t.args[2:]:
                    if v in i.fv:
                        coefs.add(lin_coef(i, v))
            for a in t.args:
                if isinstance(a, tuple):
                    for b in a:
                        visit(b)
                else:
                    visit(a)
        for a, e in m.facs:
            visit(a)
            visit(e)
        if coefs != {-1}:
            continue
        los = [d for d in m.conds if v in d.fv and d.op == 'le' and lin_coef(sub(d.args[0], d.args[1]), v) == -1]
        his = [d for d in m.conds if v in d.fv and d.op == 'le' and lin_coef(sub(d.args[0], d.args[1]), v) == 1]
        if len(los) == 1 and len(his) == 1 and not any(v in c.fv for c in m.conds if c is not los[0] and c is not his[0]):
            lo = add(sub(los[0].args[0], los[0].args[1]), v)
            hi = neg(sub(sub(his[0].args[0], his[0].args[1]), v))
            if not ((lo.fv | hi.fv) & m.bv):
                return v, nfc(lo), nfc(hi)
    return None


def nfc(t):
    return canon_raw_plain(nf(t))


def canon_raw_plain(p):
    return add(*[mono_raw(m, c) for m, c in p.items()]) if p else ZERO


def canon_poly(p, reflect=True):
    out = {}
    if reflect:
        q = None
        for m, c in p.items():
            r = reflection(m) if m.bv else None
            if r is None:
                continue
            v, lo, hi = r
            w = fresh('v', 'I')
            try:
                body = sub_mono(Mono(m.bv - {v}, [d for d in m.conds if v not in d.fv], m.facs), {v: sub(add(lo, hi), w)})
                t = summ(w, lo, add(hi, ONE), mono_raw(body, c))
            except Undecided:
                continue
            if q is None:
                q = dict(p)
            q.pop(m, None)
            for m2, c2 in nf(t).items():
                x = q.get(m2, 0) + c2
                if x:
                    q[m2] = x
                else:
                    q.pop(m2, None)
        if q is not None:
            return canon_poly(q, False)
    for m, c in p.items():
        m2 = canon_mono(m)
        c2 = out.get(m2, 0) + c
        if c2:
            out[m2] = c2
        else:
            out.pop(m2, None)
    return out


def canon_raw(p):
    q = canon_poly(p)
    items = sorted(q.items(), key=lambda mc: (len(mc[0].facs), [(a.uid, e.uid) for a, e in mc[0].facs],
                                              sorted(c.uid for c in mc[0].conds)))
    ts = [mono_raw(m, c) for m, c in items]
    if not ts:
        return ZERO
    if len(ts) == 1:
        return ts[0]
    return add(*ts)


# ----------------------------------------------------------------------------- equality

_eqdepth = [0]
_eqcache = {}


def prove_eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return True
    key = (a, b, Ctx.key())
    r = _eqcache.get(key)
    if r is not None:
        return r
    if _eqdepth[0] > 8:
        return False
    _eqdepth[0] += 1
    try:
        if a.sort == 'I' and b.sort == 'I' and not (has_binder(a) or has_binder(b)):
            if proves(eq(a, b)):
                _eqcache[key] = True
                return True
        d = padd(nf(a), nf(b), -1)
        r = poly_zero(d)
    finally:
        _eqdepth[0] -= 1
    _eqcache[key] = r
    return r


_hb = {}


def has_binder(t):
    r = _hb.get(t)
    if r is None:
        r = t.op in ('sum', 'prod', 'lam', 'flam') or any(has_binder(x) for x in t.args if isinstance(x, T))
        _hb[t] = r
    return r


LAST_RESIDUAL = [None]


def poly_zero(d, rounds=4):
    d = canon_poly(d)
    if not d:
        return True
    left = match_groups(d)
    if not left:
        return True
    for rule in (elim_inverse, clear_denominators, shift_fact, known_syms, parity, rebase):
        d2 = rule(left)
        if d2 is not None and rounds > 0:
            if poly_zero(d2, rounds - 1):
                return True
    if rounds > 0 and split_free(left, rounds):
        return True
    if _eqdepth[0] <= 1 or LAST_RESIDUAL[0] is None:
        LAST_RESIDUAL[0] = left
    return False


def parity_literal(c):
    """[c] = (1 + s (-1)^x) / 2 for a literal on the parity of x: (x, s)"""
    n = c.op == 'not'
    e = c.args[0] if n else c
    if e.op != 'eq' or e.args[1] is not ZERO:
        return None
    k, m = split_const(e.args[0])
    if m.op == 'mul' and len(m.args) == 2 and m.args[0] is const(-1):
        k, m = -k, m.args[1]
    if m.op != 'mod' or m.args[1] is not const(2) or k not in (0, -1):
        return None
    s = 1 if k == 0 else -1
    return m.args[0], -s if n else s


def parity(d):
    """indicators of parity as powers of -1"""
    out, done = {}, False
    for m, c in d.items():
        lits = [(q, parity_literal(q)) for q in m.conds]
        ps = [(q, r) for q, r in lits if r is not None]
        if not ps:
            out = padd(out, {m: c})
            continue
        done = True
        base = mul(const(c), *[power(a, e) for a, e in m.facs],
                   *[mul(const(Fraction(1, 2)), add(ONE, mul(const(s), power(const(-1), x)))) for _, (x, s) in ps])
        out = padd(out, wrap(m.bv, [q for q, r in lits if r is None], base))
    return out if done else None


def rebase(d):
    """bound variables of alternating sums start at zero, signs without constant exponents"""
    out, done = {}, False
    for m, c in d.items():
        f = dict(m.facs)
        e = f.get(const(-1))
        if e is None or not m.bv:
            out = padd(out, {m: c})
            continue
        mp = {}
        for q in m.conds:
            if q.op == 'le' and q.args[1] is ZERO:
                k, x = split_const(q.args[0])
                for v in m.bv:
                    if x is neg(v) and k.denominator == 1 and k != 0:
                        mp[v] = add(v, const(k))
        k, _ = split_const(subst(e, mp) if mp else e)
        if not mp and k == 0:
            out = padd(out, {m: c})
            continue
        done = True
        e2 = subst(e, mp)
        k, e2 = split_const(e2)
        if k.denominator != 1:
            return None
        del f[const(-1)]
        sgn = -1 if k % 2 else 1
        g = {subst(a, mp): subst(x, mp) for a, x in f.items()}
        if len(g) != len(f):
            return None
        if e2 is not ZERO:
            g[const(-1)] = e2
        out = padd(out, {Mono(m.bv, [norm_literal(subst(q, mp)) for q in m.conds], g.items()): c * sgn})
    return out if done else None


def known_const(t):
    if t.op == 'const':
        return int(t.args[0]) if t.args[0].denominator == 1 else None
    if has_binder(t):
        return None
    m = model([], [t]) if t.op == 'sym' else None
    if m is None:
        v = fresh('kc', 'I')
        with assuming(eq(v, t)):
            m = model([], [v])
            x = m.get(v) if m else None
    else:
        x = m.get(t)
    if x is None:
        return None
    return int(x) if proves(eq(t, const(int(x)))) else None


def known_syms(d):
    """integer symbols with a known value"""
    if len(d) > 12 or not Ctx.stack:
        return None
    mp = {}
    for m in d:
        for a, e in m.facs:
            if a.op == 'sym' and a.sort == 'I' and a not in m.bv and a not in mp:
                k = known_const(a)
                if k is not None:
                    mp[a] = const(k)
    if not mp:
        return None
    out = {}
    for m, c in d.items():
        f, p = {}, None
        extra = []
        for a, e in m.facs:
            if a in mp:
                extra.append(power(mp[a], e))
            else:
                facs_add(f, a, e)
        p = simp(c, m.bv, set(m.conds), f)
        for x in extra:
            p = pmul(p, nf(x))
        out = padd(out, p)
    return out


def shift_fact(d):
    """fact(x + k) = (x + k) ... (x + 1) fact(x)"""
    ats = []
    for m in d:
        for a, e in m.facs:
            if a.op == 'app' and a.args[0] == 'fact' and not (a.fv & m.bv) and a not in ats:
                ats.append(a)
    rep = {}
    for a in ats:
        best = 0
        k = known_const(a.args[1])
        if k is not None and 0 <= k < 20:
            rep[a] = (app('fact', const(k), sort='I'), 0)
            continue
        for b in ats:
            if a is b:
                continue
            k = canon(sub(a.args[1], b.args[1]))
            if k.op != 'const':
                k = known_const(k)
                if k is None:
                    continue
                k = const(k)
                if k is ZERO and ats.index(b) < ats.index(a) and b not in rep:
                    rep[a] = (b, 0)
            if k.op == 'const' and 0 < k.args[0] <= 6 and k.args[0] > best and proves(le(ZERO, b.args[1])):
                best, rep[a] = k.args[0], (b, int(k.args[0]))
    if not rep:
        return None
    out = {}
    for m, c in d.items():
        f = dict(m.facs)
        extra = []
        for a in list(f):
            if a in rep:
                e = f.pop(a)
                b, k = rep[a]
                if b.args[1].op != 'const':
                    facs_add(f, b, e)
                else:
                    extra.append(power(b, e))
                if e.op != 'const':
                    return None
                for j in range(k):
                    extra.append(power(sub(a.args[1], const(j)), e))
        p = simp(c, m.bv, set(m.conds), f)
        for x in extra:
            p = pmul(p, nf(x))
        out = padd(out, p)
    return out


def split_free(d, rounds):
    """case split on the side conditions that do not depend on bound variables: every consistent sign assignment of
    the conditions is examined, with the equalities of the assignment substituted"""
    ats = {}
    for m in d:
        for c in m.conds:
            if not (c.fv & m.bv):
                a = c.args[0] if c.op == 'not' else c
                ats.setdefault(repr(a), a)
    ats = [ats[k] for k in sorted(ats, key=lambda k: (len(k), k))]
    if not ats or len(ats) > 6 or len(d) > 40:
        return False
    budget = [24]

    def go(i, val):
        if check_sat([]) == 'unsat':
            return True
        while i < len(ats):
            a = ats[i]
            if proves(a):
                val = {**val, a: True}
            elif refutes(a):
                val = {**val, a: False}
            else:
                break
            i += 1
        if i < len(ats):
            for lit, b in ((ats[i], True), (not_(ats[i]), False)):
                with assuming(lit):
                    if not go(i + 1, {**val, ats[i]: b}):
                        return False
            return True
        budget[0] -= 1
        if budget[0] < 0:
            return False
        mp = {}
        for a, b in val.items():
            if b and a.op == 'eq':
                x = subst(sub(a.args[0], a.args[1]), mp)
                for v in sorted((u for u in x.fv if u.op == 'sym' and u.sort == 'I'), key=lambda u: -u.uid):
                    t = solve_for(x, v)
                    if t is not None and v not in t.fv:
                        mp = {k: subst(u, {v: t}) for k, u in mp.items()}
                        mp[v] = t
                        break
        dd = {}
        for m, k in d.items():
            cc, dead = set(), False
            for y in m.conds:
                if not (y.fv & m.bv):
                    a, pos = (y.args[0], False) if y.op == 'not' else (y, True)
                    if val[a] != pos:
                        dead = True
                        break
                    continue
                cc.add(y)
            if dead:
                continue
            m2 = Mono(m.bv, frozenset(cc), m.facs)
            if mp and not (mono_fv_all(m2) & set(mp)) == set():
                m2 = sub_mono(m2, mp)
                if any(a.fv & set(mp) for a, e in m2.facs):
                    m2 = Mono(m.bv, frozenset(cc), m.facs)
            p = pconst(k)
            for a, e in m2.facs:
                p = pmul(p, nf(power(a, e)))
            dd = padd(dd, add_binders(p, m2.bv, m2.conds))
        return poly_zero(dd, 0) or (rounds > 1 and poly_zero(dd, 1))
    return go(0, {})


def clear_denominators(d):
    best = None
    for m in d:
        for a, e in m.facs:
            if e.op == 'const' and e.args[0] < 0 and e.args[0].denominator == 1 and a.op in ('add', 'sum', 'ite') \
                    and not (a.fv & m.bv):
                k = e.args[0]
                if best is None or level(a) > level(best[0]):
                    best = (a, k)
    if best is None:
        return None
    a = best[0]
    kmin = min([e.args[0] for m in d for x, e in m.facs if x is a and e.op == 'const'] + [Fraction(0)])
    out = {}
    for m, c in d.items():
        f = dict(m.facs)
        facs_add(f, a, const(-kmin))
        if a.fv & m.bv:
            return None
        out = padd(out, simp(c, m.bv, set(m.conds), f))
    return out


def elim_inverse(d):
    """SUM_b S[a,b] inv(S)[b,c] = delta: rewrite a leading single-atom term of S."""
    invs = {}
    for m in d:
        for a, e in m.facs:
            if a.op == 'app' and a.args[0] == 'inv':
                invs[a.args[1]] = True
    changed = False
    for S in sorted(invs, key=level, reverse=True):
        vs, sizes, body = S.args
        i, j = fresh('i', 'I', 0, sizes[0]), fresh('j', 'I', 0, sizes[0])
        p = nf(subst(body, dict(zip(vs, (i, j)))))
        lead = None
        for m, c in sorted(p.items(), key=lambda mc: len(mc[0].facs)):
            if len(m.facs) == 1 and not m.bv and not m.conds and m.facs[0][1] is ONE and m.facs[0][0].op == 'app' \
                    and {i, j} <= m.facs[0][0].fv:
                a = m.facs[0][0]
                idx = [x for x in a.args[1:] if x in (i, j)]
                if len(idx) == 2 and a.args[-2:] in ((i, j), (j, i)):
                    lead = (m, c, a)
                    break
        if lead is None:
            continue
        m0, c0, a0 = lead
        rest = padd(p, {m0: c0}, -1)
        sym_ok = lam_symmetric(S)
        out = dict(d)
        for _ in range(60):
            hit = None
            for m, c in out.items():
                hit = find_inv_pair(m, a0, i, j, S, sizes[0], sym_ok)
                if hit:
                    break
            if not hit:
                break
            changed = True
            (fx, fi, b, u, w) = hit
            # factor lead[u,b] * inv[b,w]  -> (delta_uw - sum_b rest[u,b] inv[b,w]) / c0
            f = dict(m.facs)
            for x in (fx, fi):
                f[x] = sub(f[x], ONE)
                if f[x] is ZERO:
                    del f[x]
            others = mul(const(c), *[power(x, y) for x, y in f.items()])
            repl = nf(add(mul(const(1 / c0), ite(eq(u, w), ONE, ZERO)),
                          mul(const(-1 / c0), summ(b, ZERO, sizes[0], mul(canon_raw(p_sub(rest, {i: u, j: b})),
                                                                          app('inv', S, b, w))))))
            oth = wrap(m.bv - {b}, [x for x in m.conds if b not in x.fv], ONE)
            new = pmul_binders(m.bv - {b}, [x for x in m.conds if b not in x.fv], nf(others), repl)
            out = padd(out, {m: c}, -1)
            out = padd(out, new)
            out = canon_poly(out)
            if len(out) > 600:
                return None
        d = out
    return d if changed else None


def p_sub(p, mp):
    return {sub_mono(rename_mono(m, set(mp) | set().union(*[v.fv for v in mp.values()])), mp): c for m, c in p.items()}


def pmul_binders(bv, conds, p, q):
    r = pmul(p, q)
    return add_binders(r, bv, conds)


def find_inv_pair(m, a0, i, j, S, n, sym_ok):
    for fi, e in m.facs:
        if fi.op == 'app' and fi.args[0] == 'inv' and fi.args[1] is S and e is ONE:
            x, y = fi.args[2:]
            for b, w in ((x, y), (y, x)):
                if b is y and not sym_ok:
                    continue
                if b not in m.bv:
                    continue
                occ = [a for a, ee in m.facs if b in a.fv or b in ee.fv]
                if len(occ) != 2:
                    continue
                fx = [a for a in occ if a is not fi]
                if len(fx) != 1:
                    continue
                fx = fx[0]
                if dict(m.facs)[fx] is not ONE or fx.op != 'app' or fx.args[:-2] != a0.args[:-2]:
                    continue
                if not full_range(b, n, [c for c in m.conds if b in c.fv]):
                    continue
                p, q = fx.args[-2:]
                head = fx.args[1] if fx.args[0] == 'sel' else fx.args[0]
                symm = head in Sym_info.symm
                straight = a0.args[-2:] == (i, j)
                cands = []
                if q is b and b not in p.fv:
                    cands.append((p, straight))
                if p is b and b not in q.fv:
                    cands.append((q, not straight))
                for u, st in cands:
                    if st or symm or sym_ok:
                        return fx, fi, b, u, w
    return None


def head_key(a, e):
    def hk(t, d):
        if not isinstance(t, T):
            return str(t)
        if t.op == 'app':
            if t.args[0] == 'sel':
                return ('app', 'sel', t.args[1].uid if t.args[1].op == 'sym' and not t.args[1].args[0].startswith('@')
                        else '?')
            return ('app', t.args[0], len(t.args))
        if t.op == 'sym':
            return ('sym',)
        if t.op == 'const':
            return ('const', t.args[0])
        if t.op in ('add', 'sum', 'mul', 'ite'):
            return ('grp',)
        return (t.op,)
    ek = ('c', e.args[0]) if e.op == 'const' else ('e',)
    return (hk(a, 0), ek)


def match_groups(d):
    groups = []
    items = sorted(d.items(), key=lambda mc: (len(mc[0].facs), mc[0].h))
    for m, c in items:
        sig = (len(m.bv), tuple(sorted(map(str, (head_key(a, e) for a, e in m.facs)))))
        placed = False
        for g in groups:
            if g['sig'] != sig:
                continue
            best = None
            n = 0
            for mp in unify_mono(m, g['rep']):
                conds = frozenset(norm_literal(subst(x, mp)) for x in m.conds)
                if any(conds == h[1] for h in g['items']):
                    best = conds
                    break
                if best is None:
                    best = conds
                n += 1
                if n > 12:
                    break
            if best is not None:
                g['items'].append((c, best, m))
                placed = True
                break
        if not placed:
            groups.append(dict(sig=sig, rep=m, items=[(c, m.conds, m)]))
    left = {}
    for g in groups:
        agg = {}
        for c, conds, m in g['items']:
            agg[conds] = agg.get(conds, 0) + c
        agg = {k: v for k, v in agg.items() if v != 0}
        if not agg:
            continue
        if domain_cancels(agg):
            continue
        for conds, c in agg.items():
            m2 = Mono(g['rep'].bv, conds, g['rep'].facs)
            left = padd(left, {m2: c})
    if left:
        left2 = absorb(left)
        if left2 is not None:
            return left2
    return left


def absorb(left):
    """A monomial with fewer bound variables may be an instance of one with more (a split-off summand): lift it
    to  SUM_v [v == value] ...  and redo the domain comparison."""
    ms = list(left)
    depth = max(len(m.bv) for m in ms)
    if depth == 0 or len(ms) > 40:
        return None
    reps = sorted((m for m in ms if m.bv), key=lambda m: (-len(m.bv), len(m.conds)))
    out = dict(left)
    changed = False
    for r in reps:
        if r not in out:
            continue
        agg = {r.conds: out[r]}
        used = [r]
        for m in ms:
            if m is r or m not in out or len(m.facs) != len(r.facs):
                continue
            if m.bv == r.bv and m.facs == r.facs:
                agg[m.conds] = agg.get(m.conds, 0) + out[m]
                used.append(m)
                continue
            mp = instance_of(m, r)
            if mp is None:
                continue
            conds = frozenset(list(m.conds) + [norm_literal(eq(v, t)) for v, t in mp.items()])
            agg[conds] = agg.get(conds, 0) + out[m]
            used.append(m)
        if len(used) > 1 and domain_cancels(agg):
            for m in used:
                out.pop(m, None)
            changed = True
    return out if changed else None


def instance_of(m, r):
    """map {bound var of r: term over m's variables} with r.facs[map] == m.facs; m may keep bound variables, which are
    then among the images (each distinct)"""
    if len(m.bv) >= len(r.bv) and not (len(m.bv) == len(r.bv) and m.bv):
        return None
    if m.bv:
        return None
    clash = r.bv & mono_fv_all(m)
    if clash:
        return None
    for mp in _unify_lists(list(r.facs), list(m.facs), {}, r.bv, frozenset(), []):
        if len(mp) == len(r.bv):
            return mp
    return None


def domain_cancels(agg):
    import time
    terms = []
    extra = []
    allc = []
    for conds, c in agg.items():
        allc += list(conds)
        z = z3.And(*[to_z3(x, extra) for x in conds]) if conds else z3.BoolVal(True)
        terms.append(z3.If(z, z3.RealVal(str(c)), z3.RealVal(0)))
    s = z3.Solver()
    s.set('timeout', 5000)
    ass = Ctx.assumptions()
    allc += list(ass)
    for c in list(ass) + _sym_cons(allc):
        s.add(to_z3(c, extra))
    for e in extra:
        s.add(e)
    s.add(z3.Sum(terms) != 0)
    t0 = time.time()
    r = s.check()
    Ctx.stats['queries'] += 1
    Ctx.stats['time'] += time.time() - t0
    return r == z3.unsat


from .solver import _sym_constraints as _sym_cons


def unify_mono(m, r):
    """Yield maps {bound var of m: term over bound vars of r} making the factor lists equal."""
    mf, rf = list(m.facs), list(r.facs)
    if len(mf) != len(rf) or len(m.bv) != len(r.bv):
        return
    clash = m.bv & mono_fv_all(r)
    ren = {v: fresh('u', 'I') for v in clash}
    inv = {w: v for v, w in ren.items()}
    m2 = sub_mono(m, ren) if ren else m
    with assuming(*r.conds):
        found = list(itertools.islice((mp for mp in _unify_lists(list(m2.facs), rf, {}, m2.bv, r.bv, [])
                                       if len(mp) == len(m2.bv) and bijective(mp, m2.bv, r.bv)), 13))
    rc = {norm_literal(c) for c in r.conds}
    for mp in found:
        # the factors were matched under r's side conditions; what is needed is equality under m's own
        mc = {norm_literal(subst(c, mp)) for c in m2.conds}
        if not rc <= mc:
            sm = sub_mono(Mono(frozenset(), frozenset(), m2.facs), mp)
            if sm.facs != r.facs:
                with assuming(*mc):
                    if not any(True for _ in _unify_lists(list(sm.facs), rf, {}, frozenset(), frozenset(), [])):
                        continue
        yield {inv.get(k, k): v for k, v in mp.items()}


def bijective(mp, mb, rb):
    if not mb:
        return True
    mb, rb = sorted(mb, key=lambda s: s.uid), sorted(rb, key=lambda s: s.uid)
    mat = []
    for v in mb:
        row = []
        for w in rb:
            k = lin_coef(mp[v], w)
            if k is None:
                return False
            row.append(k)
        mat.append(row)
    return abs(det(mat)) == 1


def det(m):
    n = len(m)
    if n == 0:
        return Fraction(1)
    m = [list(map(Fraction, r)) for r in m]
    d = Fraction(1)
    for i in range(n):
        p = next((k for k in range(i, n) if m[k][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for k in range(i + 1, n):
            f = m[k][i] / m[i][i]
            for j in range(i, n):
                m[k][j] -= f * m[i][j]
    return d


def _unify_lists(mf, rf, mp, mb, rb, deferred):
    if not mf:
        free = [v for v in mb if v not in mp]
        if free:
            used = set()
            for v in mp.values():
                used |= v.fv & rb
            avail = [w for w in rb if w not in used]
            if len(avail) != len(free) or len(free) > 4:
                return
            for perm in itertools.permutations(avail):
                mp2 = dict(mp)
                mp2.update(zip(free, perm))
                if all(sem_eq(x, y, mp2) for x, y in deferred):
                    yield mp2
            return
        if all(sem_eq(x, y, mp) for x, y in deferred):
            yield mp
        return
    # choose the factor of m with the fewest unresolved variables
    k = min(range(len(mf)), key=lambda q: (grp(mf[q][0]), len([v for v in mb if v not in mp and
                                               (v in mf[q][0].fv or v in mf[q][1].fv)])))
    a, e = mf[k]
    mrest = mf[:k] + mf[k + 1:]
    for q, (b, f) in enumerate(rf):
        if str(head_key(a, e)) != str(head_key(b, f)):
            continue
        rrest = rf[:q] + rf[q + 1:]
        for mp2, def2 in unify_seq([(a, b), (e, f)], mp, mb, rb):
            yield from _unify_lists(mrest, rrest, mp2, mb, rb, deferred + def2)


def grp(a):
    return 1 if a.op in ('add', 'sum', 'mul', 'ite') else 0


def unresolved(t, mp, mb):
    return [v for v in t.fv if v in mb and v not in mp]


def unify_seq(pairs, mp, mb, rb):
    """yield (map, deferred)"""
    if not pairs:
        yield mp, []
        return
    (a, b), rest = pairs[0], pairs[1:]
    for mp1, d1 in unify_term(a, b, mp, mb, rb):
        for mp2, d2 in unify_seq(rest, mp1, mb, rb):
            yield mp2, d1 + d2


def unify_term(a, b, mp, mb, rb):
    un = unresolved(a, mp, mb)
    if not un:
        if quick_eq(a, b, mp):
            yield mp, []
            return
        if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            if sem_eq(a, b, mp):
                yield mp, []
            return
        if sem_eq(a, b, mp):
            yield mp, []
        return
    if a.sort == 'I' and a.op != 'app':
        if len(un) == 1:
            v = un[0]
            k = lin_coef(a, v)
            if k in (1, -1):
                r = subst(sub(a, mul(const(k), v)), mp)
                val = mul(const(k), sub(b, r))
                if lin_ok(val, rb):
                    mp2 = dict(mp)
                    mp2[v] = val
                    yield mp2, []
                return
        yield mp, [(a, b)]
        return
    if a.op == 'app' and b.op == 'app':
        if a.args[0] != b.args[0] or len(a.args) != len(b.args):
            return
        pairs = list(zip(a.args[1:], b.args[1:]))
        yield from unify_seq(pairs, mp, mb, rb)
        head = a.args[1] if a.args[0] == 'sel' else a.args[0]
        if head in Sym_info.symm or (a.args[0] == 'inv' and lam_symmetric(a.args[1])):
            pairs = list(zip(a.args[1:-2], b.args[1:-2])) + [(a.args[-2], b.args[-1]), (a.args[-1], b.args[-2])]
            yield from unify_seq(pairs, mp, mb, rb)
        return
    if a.op == 'pow' and b.op == 'pow':
        yield from unify_seq(list(zip(a.args, b.args)), mp, mb, rb)
        return
    if a.op == 'lam' and b.op == 'lam' and len(a.args[0]) == len(b.args[0]):
        # unify through simple bodies, else defer
        ws = [fresh('l', 'I') for _ in a.args[0]]
        ab = subst(a.args[2], dict(zip(a.args[0], ws)))
        bb = subst(b.args[2], dict(zip(b.args[0], ws)))
        if ab.op == 'app' and bb.op == 'app' and ab.args[0] == bb.args[0]:
            got = False
            for mp2, d2 in unify_term(ab, bb, mp, mb, rb):
                if not any(w in v.fv for v in mp2.values() for w in ws):
                    got = True
                    yield mp2, [(a, b)]
            if got:
                return
        yield mp, [(a, b)]
        return
    yield mp, [(a, b)]


def lin_ok(val, rb):
    return all(lin_coef(val, w) is not None for w in rb)


def quick_eq(a, b, mp):
    return subst(a, mp) is b


def sem_eq(a, b, mp):
    a = subst(a, mp)
    return term_eq(a, b)


def term_eq(a, b):
    """semantic equality of two terms of any sort"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    if a.sort == 'B' or b.sort == 'B':
        if a.sort != b.sort:
            return False
        return bool_equiv(a, b)
    if a.op == 'lam' or b.op == 'lam':
        if a.op != b.op or len(a.args[0]) != len(b.args[0]):
            return False
        if not all(prove_eq(x, y) for x, y in zip(a.args[1], b.args[1])):
            return False
        ws = [fresh('l', 'I', 0, s) for s in b.args[1]]
        return prove_eq(subst(a.args[2], dict(zip(a.args[0], ws))), subst(b.args[2], dict(zip(b.args[0], ws))))
    if a.op == 'flam' or b.op == 'flam':
        if a.op != b.op or len(a.args[0]) != len(b.args[0]):
            return False
        ws = [fresh('f', v.sort) for v in b.args[0]]
        return term_eq(subst(a.args[1], dict(zip(a.args[0], ws))), subst(b.args[1], dict(zip(b.args[0], ws))))
    if a.op == 'tup' or b.op == 'tup':
        return a.op == b.op and len(a.args) == len(b.args) and all(term_eq(x, y) for x, y in zip(a.args, b.args))
    if a.sort == 'A' or b.sort == 'A':
        return False
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        if all(term_eq(x, y) for x, y in zip(a.args[1:], b.args[1:])):
            return True
        head = a.args[1] if a.args[0] == 'sel' else a.args[0]
        if head in Sym_info.symm or (a.args[0] == 'inv' and lam_symmetric(a.args[1])):
            return all(term_eq(x, y) for x, y in zip(a.args[1:-2], b.args[1:-2])) and \
                term_eq(a.args[-2], b.args[-1]) and term_eq(a.args[-1], b.args[-2])
        if a.sort == 'I' and b.sort == 'I' and proves(eq(a, b)):
            return True
        if a.args[0] != 'comb':
            return False
    try:
        return prove_eq(a, b)
    except Undecided:
        return False


def bool_equiv(a, b):
    return check_sat([or_(and_(a, not_(b)), and_(b, not_(a)))]) == 'unsat'
