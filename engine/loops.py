"""Loops: lax.scan and `for` over symbolic ranges.

A loop is turned into a recurrence: every carried leaf l gets a state function  S_l(k)  (the value before step k), with
S_l(0) = init and S_l(k+1) = step_l(S(k), k).  Leaves with a closed form (accumulators, constants, one-step memories,
array fills) are replaced by it.  A new recurrence is compared with those already known by induction (base + step,
discharged like any other equality); leaves proved equal share one state function, so equal loops become equal terms.
"""
import ast
from .terms import *
from .solver import *
from . import nf as NF
from .nf import Undecided, prove_eq, canon
from .values import *


class ScanDef:
    def __init__(self, n, k, params, leaves):
        self.n, self.k, self.params = n, k, params
        self.leaves = leaves      # list of Leaf


class Leaf:
    def __init__(self, sym, shape, vs, sort, init, step, dt):
        self.sym, self.shape, self.vs, self.sort = sym, shape, vs, sort
        self.init, self.step, self.dt = init, step, dt     # terms over vs (init) / vs,k (step)


REGISTRY = []
DEFS = {}        # state symbol -> (ScanDef, Leaf)
STATS = dict(loops=0, inductions=0)


def reset():
    REGISTRY.clear()
    DEFS.clear()


# ------------------------------------------------------------------ pytrees

def flatten(v, out):
    """returns a rebuild function(list)->value; appends leaves to out"""
    if isinstance(v, tuple):
        fs = [flatten(x, out) for x in v]
        return lambda it: tuple(f(it) for f in fs)
    if isinstance(v, list):
        fs = [flatten(x, out) for x in v]
        return lambda it: [f(it) for f in fs]
    if isinstance(v, dict):
        ks = list(v)
        fs = [flatten(v[k], out) for k in ks]
        return lambda it: {k: f(it) for k, f in zip(ks, fs)}
    if isinstance(v, Instance):
        ks = list(v.fields)
        fs = [flatten(v.fields[k], out) for k in ks]
        return lambda it: Instance(v.cls, {k: f(it) for k, f in zip(ks, fs)})
    if v is None:
        return lambda it: None
    if isinstance(v, Tensor):
        if v.ndim == 0:
            v = v.at()
        out.append(v)
        return lambda it: next(it)
    if is_scalar(v):
        out.append(numT(v))
        return lambda it: next(it)
    raise Undecided(f'loop state of kind {type(v).__name__}')


def rebuild_tree(f, leaves):
    return f(iter(leaves))


def scan(ip, f, init, xs, length=None, reverse=False):
    m = ip.models
    n = None
    if xs is not None:
        dims = m.tree_leaf_dim(ip, xs, 0)
        if not dims and length is None:
            raise Raised('ValueError', 'scan without a length')
        if dims:
            n = dims[0]
            for d in dims[1:]:
                if not m.dim_eq(d, n):
                    if refutes(eq(d, n)):
                        raise Raised('ValueError', 'scan sizes')
                    raise Undecided(f'scan sizes {d} {n}')
    if n is None:
        n = toT(length)
    elif length is not None and not prove_eq(n, toT(length)):
        raise Undecided('scan length')
    n = canon(n)
    if n.op == 'const' and n.args[0] <= 4:
        c = init
        outs = []
        N = int(n.args[0])
        for k in range(N):
            t = N - 1 - k if reverse else k
            x = m.tree_slice(ip, xs, 0, const(t)) if xs is not None else None
            c, y = ip.unpack(ip.call(f, [c, x]), 2)
            outs.append(y)
        if reverse:
            outs.reverse()
        if N == 0:
            raise Undecided('empty scan')
        return c, stack_tree(ip, outs)

    def body(k, carry):
        t = sub(sub(n, ONE), k) if reverse else k
        x = m.tree_slice(ip, xs, 0, t) if xs is not None else None
        r = ip.call(f, [carry, x])
        r = ip.unpack(r, 2)
        return r[0], r[1]
    final, outs, k = core(ip, n, init, body)
    if outs is None:
        return final, None
    i = fresh('t', 'I', 0, n)
    src = sub(sub(n, ONE), i) if reverse else i
    outs = vsubst_noneok(outs, {k: src})
    return final, m.tree_stack(ip, outs, i, n, 0)


def vsubst_noneok(v, mp):
    return None if v is None else vsubst(v, mp)


def stack_tree(ip, outs):
    v = outs[0]
    if v is None:
        return None
    if isinstance(v, tuple):
        return tuple(stack_tree(ip, [o[k] for o in outs]) for k in range(len(v)))
    if isinstance(v, list):
        return [stack_tree(ip, [o[k] for o in outs]) for k in range(len(v))]
    return ip.models.asarray(ip, list(outs))


def as_tensor(v):
    if isinstance(v, Tensor):
        return v
    return Tensor((), (), v, 'f')


def core(ip, n, init, body):
    """Returns (final carry, outs as a value in terms of k, k)."""
    leaves0 = []
    reb = flatten(init, leaves0)
    symm = [l for l, v in enumerate(leaves0) if isinstance(v, Tensor) and v.ndim == 2 and v.dt == 'f'
            and NF.prove_eq(v.shape[0], v.shape[1]) and NF.lam_symmetric(v.lam())]
    while True:
        res = attempt(ip, n, leaves0, reb, body, set(symm))
        if res[0] == 'retry':
            symm = [l for l in symm if l not in res[1]]
            continue
        return res[1]


def attempt(ip, n, leaves0, reb, body, symm):
    STATS['loops'] += 1
    k = fresh('t', 'I', 0, n)
    C = []
    vals = []
    for l, v in enumerate(leaves0):
        if isinstance(v, Tensor):
            s = fresh('C', 'A')
            if l in symm:
                Sym_info.symm.add(s)
            t = tab(v.shape, lambda *i: sel(s, *i, sort=leafsort(v)), v.dt, False)
            t.np = v.np
            C.append(s)
            vals.append(t)
        else:
            s = fresh('c', carry_sort(v))
            C.append(s)
            vals.append(s)
    conds = [le(ZERO, k), lt(k, n)]
    scope = {k} | set(C)

    def thunk():
        nc, out = body(k, rebuild_tree(reb, [copy_val(v) for v in vals]))
        nl = []
        flatten(nc, nl)
        return nl, out
    with assuming(*conds):
        nl, out = ip.local(scope, [], thunk)
        if len(nl) != len(leaves0):
            raise Raised('TypeError', 'scan carry structure')
        failed = []
        for l, (v0, v1) in enumerate(zip(leaves0, nl)):
            if isinstance(v0, Tensor) != isinstance(v1, Tensor):
                raise Raised('TypeError', 'scan carry type')
            if isinstance(v0, Tensor):
                if v0.ndim != v1.ndim:
                    raise Raised('TypeError', 'scan carry rank')
                for a, b in zip(v0.shape, v1.shape):
                    if not prove_eq(a, b):
                        if refutes(eq(a, b)):
                            raise Raised('TypeError', 'scan carry shape')
                        raise Undecided('scan carry shape')
                if l in symm and not NF.lam_symmetric(v1.lam()):
                    failed.append(l)
        if failed:
            return 'retry', failed
    return 'ok', finish(ip, n, k, C, leaves0, vals, nl, out, reb, conds, symm)


def copy_val(v):
    if isinstance(v, Tensor):
        t = Tensor(v.shape, v.vs, v.body, v.dt, v.np)
        return t
    return v


def carry_sort(v):
    # a carried integer may become real; integers that stay integers keep their sort through closed forms only
    return v.sort if v.sort in ('K', 'C', 'B') else 'R'


def leafsort(v):
    return {'k': 'K', 'c': 'C', 'i': 'I', 'b': 'B'}.get(v.dt, 'R')


def finish(ip, n, k, C, leaves0, vals, nl, out, reb, conds, symm):
    L = len(C)
    news = []
    inits = []
    vss = []
    for v0, val, v1 in zip(leaves0, vals, nl):
        if isinstance(v0, Tensor):
            vs = val.vs
            news.append(v1.at(*vs))
            inits.append(v0.at(*vs))
            vss.append(vs)
        else:
            news.append(v1)
            inits.append(v0)
            vss.append(())
    shapes = [v0.shape if isinstance(v0, Tensor) else () for v0 in leaves0]
    # an array whose row k + c is computed from its row k + c - 1 only: carry the row
    hist = {}
    with assuming(*conds):
        for l in range(L):
            r = row_recurrence(C, l, vss[l], shapes[l], inits[l], news, k)
            if r is not None:
                R, s_, init_row, step_row = r
                hist[l] = (L + len(hist), s_)
                C = C + [R]
                leaves0 = leaves0 + [Tensor(shapes[l][1:], vss[l][1:], init_row, leaves0[l].dt, False)
                                     if len(shapes[l]) > 1 else init_row]
                vss.append(vss[l][1:])
                shapes.append(shapes[l][1:])
                inits.append(init_row)
                news.append(step_row)
                news[l] = ZERO
    L0, L = L, len(C)
    Cset = set(C)
    # class A: closed form without any carry; class B: closed form over recursive leaves, not read by any other leaf
    stateA = {}
    progress = True
    while progress:
        progress = False
        for l in range(L):
            if l in stateA or l in hist:
                continue
            f, deps = closed_form(l, C, vss[l], shapes[l], inits[l], news[l], k, n, conds)
            if f is None or deps:
                continue
            stateA[l] = lambda K, f=f: f(K, {})
            st = stateA[l](k)
            mp1 = {C[l]: lam(vss[l], shapes[l], st) if shapes[l] else st}
            with assuming(*conds):
                for j in range(L):
                    if C[l] in news[j].fv:
                        news[j] = subst(news[j], mp1)
            progress = True
    obs = {}
    for l in range(L):
        if l in stateA or l in hist:
            continue
        if any(C[l] in news[j].fv for j in range(L) if j != l and j not in stateA):
            continue
        f, deps = closed_form(l, C, vss[l], shapes[l], inits[l], news[l], k, n, conds)
        if f is not None:
            obs[l] = f
    rec = [l for l in range(L) if l not in stateA and l not in obs and l not in hist]
    state = dict(stateA)
    mp = {}
    if rec:
        free = set()
        for l in rec:
            free |= (news[l].fv | inits[l].fv) - set(vss[l])
            for s in shapes[l]:
                free |= s.fv
        free -= Cset
        free -= {k}
        params = tuple(sorted((s for s in free if is_local(s)), key=lambda s: s.uid))
        sd = ScanDef(n, k, params, [])
        syms = {}
        for l in rec:
            syms[l] = fresh('S', 'A')
            if l in symm:
                Sym_info.symm.add(syms[l])
        for l in rec:
            body_l = sel(syms[l], k, *params, *vss[l], sort=C_sort(C[l], leaves0[l]))
            mp[C[l]] = lam(vss[l], shapes[l], body_l) if shapes[l] else body_l
        for l in rec:
            sd.leaves.append(Leaf(syms[l], shapes[l], vss[l], C_sort(C[l], leaves0[l]), inits[l],
                                  subst(news[l], mp), None))
        alias = register(sd)
        mp = {}
        for l in rec:
            al = alias.get(syms[l])
            vs = vss[l]
            state[l] = al if al is not None else \
                (lambda K, s=syms[l], vs=vs, srt=C_sort(C[l], leaves0[l]): sel(s, K, *params, *vs, sort=srt))
            st = state[l](k)
            mp[C[l]] = lam(vs, shapes[l], st) if shapes[l] else st
    for l in stateA:
        st = state[l](k)
        mp[C[l]] = lam(vss[l], shapes[l], st) if shapes[l] else st
    for l, f in obs.items():
        state[l] = lambda K, f=f, mp=dict(mp): f(K, mp)
    for l in obs:
        st = state[l](k)
        mp[C[l]] = lam(vss[l], shapes[l], st) if shapes[l] else st
    for l, (r, s_) in hist.items():
        state[l] = lambda K, l=l, r=r, s_=s_: ite(and_(le(ZERO, s_), lt(s_, K)), state[r](add(s_, ONE)), inits[l])
    for l in hist:
        mp[C[l]] = lam(vss[l], shapes[l], state[l](k))
    fin = []
    for l in range(L0):
        t = state[l](n)
        fin.append(Tensor(shapes[l], vss[l], t, leaves0[l].dt, leaves0[l].np) if shapes[l] or
                   isinstance(leaves0[l], Tensor) else t)
    final = rebuild_tree(reb, fin)

    # outputs; an output that is the new carry becomes the state at k+1
    def conv(v):
        if isinstance(v, tuple):
            return tuple(conv(x) for x in v)
        if isinstance(v, list):
            return [conv(x) for x in v]
        if v is None:
            return None
        if isinstance(v, Instance):
            return Instance(v.cls, {a: conv(x) for a, x in v.fields.items()})
        for l, v1 in enumerate(nl):
            if v is v1 or (not isinstance(v, Tensor) and not isinstance(v1, Tensor) and is_scalar(v) and
                           numT(v) is v1) or same_tensor(v, v1):
                t = state[l](add(k, ONE))
                if isinstance(v, Tensor) and v.ndim:
                    return Tensor(v.shape, vss[l], t, v.dt, v.np)
                return t
        return vsubst(v, mp)
    return final, conv(out), k


def row_recurrence(C, l, vs, shape, init, news, k):
    """news[l] = ite(vs_0 == k + c, val, C[vs]) where val reads C only at row k + c - 1, and no other carry reads C"""
    c, new = C[l], news[l]
    if not shape or new.op != 'ite' or any(c in t.fv for j, t in enumerate(news) if j != l):
        return None
    cond, val, old = new.args
    if cond.op != 'eq' or cond.args[0].sort != 'I' or c not in val.fv or old is not sel(c, *vs, sort=old.sort):
        return None
    s = NF.solve_for(sub(cond.args[0], cond.args[1]), k)
    if s is None or s.fv & set(vs[1:]) or vs[0] not in s.fv:
        return None
    row = NF.solve_for(sub(s, k), vs[0])                 # the row written at step k
    if row is None or not prove_eq(subst(row, {k: add(k, ONE)}), add(row, ONE)):
        return None
    prev = NF.canon(sub(row, ONE))
    if not proves(le(ZERO, subst(prev, {k: ZERO}))):
        return None
    if vs[0] in val.fv:
        val = subst(val, {vs[0]: row})
    R = fresh('C', 'A' if len(shape) > 1 else old.sort)
    ok = [True]

    def fn(u):
        if u.op == 'app' and u.args[0] == 'sel' and u.args[1] is c:
            if not prove_eq(u.args[2], prev):
                ok[0] = False
                return None
            return sel(R, *u.args[3:], sort=u.sort) if len(shape) > 1 else R
        return None
    step = rewrite(val, fn)
    if not ok[0] or c in step.fv:
        return None
    return R, s, subst(init, {vs[0]: subst(prev, {k: ZERO})}), step


def same_tensor(a, b):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor) or a.ndim != b.ndim:
        return False
    if a.shape != b.shape:
        return False
    return a.at(*b.vs) is b.body


def C_sort(c, v0):
    if isinstance(v0, Tensor):
        return leafsort(v0)
    return c.sort


def is_local(s):
    return '!' in s.args[0] and s not in DEFS and not s.args[0].startswith('S!') or s.args[0][:1] in '%$@'


def closed_form(l, C, vs, shape, init, new, k, n, conds):
    """(f, deps): f(K, mp) is the state before step K, mp maps the carries to their states at step k"""
    c = C[l]
    Cs = set(C)
    own = sel(c, *vs, sort=new.sort if new.sort in 'KICB' else 'R') if shape else c
    with assuming(*conds, *[x for v, s in zip(vs, shape) for x in (le(ZERO, v), lt(v, s))]):
        if new is own:
            return (lambda K, mp: init), set()
        # memory of something that does not involve itself
        if c not in new.fv:
            return (lambda K, mp: ite(eq(K, ZERO), init, subst(subst(new, mp), {k: sub(K, ONE)}))), new.fv & Cs
        # array fill
        r = fill_form(c, vs, shape, init, new, k, n)
        if r is not None:
            return r[0], r[1] & Cs
        if new.sort in 'KB':
            return None, None
        # accumulator
        try:
            d = NF.padd(NF.nf(new), NF.nf(own), -1)
        except Undecided:
            d = None
        if d is not None and shape and len(d) <= 6 and any(c in m.fv() for m in d):
            try:
                if NF.poly_zero(d, 1):
                    return (lambda K, mp: init), set()
            except Undecided:
                pass
        if d is not None and not any(c in m.fv() for m in d):
            inc = NF.canon_raw(d)
            if c not in inc.fv:
                def acc(K, mp):
                    w = fresh('b', 'I')
                    return add(init, summ(w, ZERO, K, subst(subst(inc, mp), {k: w})))
                return acc, inc.fv & Cs
        inc = increment(new, own, c)
        if inc is not None:
            def acc2(K, mp):
                w = fresh('b', 'I')
                return add(init, summ(w, ZERO, K, subst(subst(inc, mp), {k: w})))
            return acc2, inc.fv & Cs
        # product
        try:
            p = NF.nf(new)
        except Undecided:
            p = None
        fac = product_factor(p, own, c) if p is not None else None
        if fac is not None:
            def pf(K, mp):
                w = fresh('b', 'I')
                return mul(init, prod(w, ZERO, K, subst(subst(fac, mp), {k: w})))
            return pf, fac.fv & Cs
    return None, None


def product_factor(p, own, c):
    """new / own, if every term of new has the carry as a factor exactly once and not otherwise"""
    out = {}
    for m, co in p.items():
        f = dict(m.facs)
        if f.get(own) is not ONE or own.fv & m.bv:
            return None
        del f[own]
        if any(c in a.fv or c in e.fv for a, e in f.items()) or any(c in x.fv for x in m.conds):
            return None
        out[NF.Mono(m.bv, m.conds, f.items())] = co
    if not out:
        return None
    r = NF.canon_raw(out)
    return r if c not in r.fv else None


def increment(new, own, c):
    """new - own, if free of the carry"""
    if new.op == 'ite' and c not in new.args[0].fv:
        a, b = increment(new.args[1], own, c), increment(new.args[2], own, c)
        return None if a is None or b is None else ite(new.args[0], a, b)
    try:
        d = NF.padd(NF.nf(new), NF.nf(own), -1)
    except Undecided:
        return None
    if any(c in m.fv() for m in d):
        return None
    r = NF.canon_raw(d)
    return r if c not in r.fv else None


def fill_form(c, vs, shape, init, new, k, n):
    """new = c[vs] overwritten under conditions  vs_j == a*k+b & rest  (values and conditions free of the carry itself):
    every element keeps its last write"""
    if not shape:
        return None
    writes = []
    t = new
    while t.op == 'ite':
        writes.append((t.args[0], t.args[1]))
        t = t.args[2]
    if not writes or len(writes) > 3 or t is not sel(c, *vs, sort=t.sort):
        return None
    ws, free = [], set()
    for cond, val in writes:
        if c in (val.fv | cond.fv):
            return None
        free |= val.fv | cond.fv
        lits = cond.args if cond.op == 'and' else (cond,)
        for q in lits:
            if q.op != 'eq' or q.args[0].sort != 'I':
                continue
            s = NF.solve_for(sub(q.args[0], q.args[1]), k)
            if s is not None:
                ws.append((s, [y for y in lits if y is not q], val))
                break
        else:
            return None

    def ff(K, mp):
        oks = [and_(le(ZERO, s), lt(s, K), *[subst(subst(y, mp), {k: s}) for y in rest]) for s, rest, _ in ws]
        out = init
        for a in reversed(range(len(ws))):
            s, _, val = ws[a]
            last = [or_(not_(oks[b]), lt(ws[b][0], s) if b < a else le(ws[b][0], s)) for b in range(len(ws)) if b != a]
            out = ite(and_(oks[a], *last), subst(subst(val, mp), {k: s}), out)
        return out
    return ff, free


# ------------------------------------------------------------------ induction against known recurrences

def register(sd):
    """Try to identify the leaves of sd with leaves of known recurrences; returns {leaf symbol: state function}."""
    alias = {}
    for old in REGISTRY:
        more = None                    # the trip counts may differ: states up to the smaller one are compared
        if not prove_eq(old.n, sd.n):
            if proves(le(sd.n, old.n)):
                more = False
            elif proves(le(old.n, sd.n)) and not any(l.sym in Sym_info.symm for l in old.leaves):
                more = True
            else:
                continue
        m = match(sd, old, sd.n if more is not None else None)
        if m:
            if more:                   # the recurrence of `old` continued: its states beyond old.n were not used before
                old.n = sd.n
            for ls, f in m.items():
                alias.setdefault(ls, f)
            if len(m) == len(sd.leaves):
                return alias
    REGISTRY.append(sd)
    for lf in sd.leaves:
        DEFS[lf.sym] = (sd, lf)
    return alias


def leaf_compatible(a, b):
    return len(a.shape) == len(b.shape) and a.sort == b.sort and all(prove_eq(x, y) for x, y in zip(a.shape, b.shape))


def match(new, old, n=None):
    if len(new.params) != len(old.params):
        return None
    pm = dict(zip(new.params, old.params))
    if any(a.sort != b.sort for a, b in pm.items()):
        return None
    for a, b in pm.items():
        la, lb = Sym_info.hi.get(a), Sym_info.hi.get(b)
        if la is not None and lb is not None and not prove_eq(la, lb):
            return None
    kmap = {new.k: old.k}
    cands = []
    for a in new.leaves:
        row = []
        for b in old.leaves:
            if not leaf_compatible(a, b):
                continue
            ia = subst(a.init, {**pm, **dict(zip(a.vs, b.vs))})
            rng = [x for v, s in zip(b.vs, b.shape) for x in (le(ZERO, v), lt(v, s))]
            with assuming(*rng):
                try:
                    ok = NF.term_eq(ia, b.init)
                except Undecided:
                    ok = False
            if ok:
                row.append(b)
        cands.append(row)
    import itertools
    rows = [r + [None] for r in cands]
    tried = 0
    best = None
    # Houdini on the most ambitious assignment first
    for asg in itertools.product(*rows):
        used = [b for b in asg if b is not None]
        if not used or len(set(map(id, used))) != len(used):
            continue
        tried += 1
        if tried > 24:
            break
        pairs = {a.sym: (a, b) for a, b in zip(new.leaves, asg) if b is not None}
        good = houdini(pairs, new, old, pm, kmap, n)
        if good:
            return {a.sym: (lambda K, a=a, b=b: state_in(old, b, K, a.vs, new.params, pm)) for a, b in good.values()}
    return best


def state_in(old, b, K, vs, params, pm):
    return sel(b.sym, K, *params, *vs, sort=b.sort)


def houdini(pairs, new, old, pm, kmap, n=None):
    pairs = dict(pairs)
    k = old.k
    if n is not None:
        k = fresh('t', 'I', 0, n)
        kmap = {new.k: k}
    while pairs:
        # rewrite new-state symbols to old-state symbols
        rw = {a.sym: b.sym for a, b in pairs.values()}
        bad = None
        for s, (a, b) in pairs.items():
            st = subst(a.step, {**pm, **kmap, **dict(zip(a.vs, b.vs)), **rw})
            rng = [x for v, z in zip(b.vs, b.shape) for x in (le(ZERO, v), lt(v, z))]
            with assuming(le(ZERO, k), lt(k, old.n if n is None else n), *rng):
                try:
                    ok = NF.term_eq(st, b.step if n is None else subst(b.step, {old.k: k}))
                except Undecided:
                    ok = False
            if not ok:
                bad = s
                break
        if bad is None:
            STATS['inductions'] += 1
            return pairs
        return None
    return None


# ------------------------------------------------------------------ for loops

class LoopList:
    """list appended to inside a symbolic loop"""

    def __init__(self, base):
        self.base, self.added = base, []


def stored_names(body):
    out = []
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name not in out:
                out.append(x.name)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
                out.append(x.id)
            if isinstance(x, ast.AugAssign):
                t = x.target
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Name) and t.id not in out:
                    out.append(t.id)
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Name) and t.id not in out:
                        out.append(t.id)
    return out


def appended_names(body):
    out = []
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr == 'append' and isinstance(x.func.value, ast.Name):
                if x.func.value.id not in out:
                    out.append(x.func.value.id)
    return out


def leaves_loop(x, inner=False):
    if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not inner:
        return True
    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return False
    inner = inner or isinstance(x, (ast.For, ast.While))
    return any(leaves_loop(y, inner) for y in ast.iter_child_nodes(x))


def callable_value(v):
    from .interp import Closure, Builtin
    from .values import OpaqueFn
    return isinstance(v, (Closure, Builtin, OpaqueFn, DerFn)) or type(v).__name__ == 'Fn'


class Iterate:
    """a fresh function of scalars"""

    def __init__(self, ip, name):
        self.ip, self.name = ip, name

    def __call__(self, *a, **k):
        if k:
            raise Undecided('keyword arguments')
        return self.ip.models.broadcast(self.ip, lambda *ts: app(self.name, *ts), list(a), 'f')


class DerFn:
    """the n-th derivative of f in its first argument (scalars)"""

    def __init__(self, ip, f, n):
        self.ip, self.f, self.n = ip, f, lift(n)

    def __call__(self, x, *a, **k):
        n = NF.canon(self.n)
        if n is ZERO:
            return self.ip.call(self.f, [x, *a], k)
        if k or len(a) > 2:
            raise Undecided('arguments of an iterated derivative')
        x = self.ip.models.arr(self.ip, x)
        if x.ndim:
            raise Undecided('iterated derivative of a function of an array')
        X = fresh('x', 'R')
        b = self.ip.local({X}, [], lambda: self.ip.call(self.f, [X, *a]))
        return app('Dn', flam((X,), toT(self.ip.models.arr(self.ip, b).at())), n, x.at())

    def vsubst(self, m):
        return DerFn(self.ip, self.f, subst(self.n, m))

    def vfree(self):
        return self.n.fv


def symbolic_for(ip, st, it, env):
    if any(leaves_loop(x) for x in st.body):
        raise Undecided('break/continue/return in a symbolic loop')
    n = it.n
    if proves(le(n, ZERO)):
        return
    names = stored_names(st.body)
    apps = [a for a in appended_names(st.body) if env.has(a)]
    targets = [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]
    carried = [x for x in names if x in env.vars and x not in targets and x not in apps
               and not isinstance(env.vars[x], (LoopList,))]
    carried = [x for x in carried if env.vars[x] is not None]
    fnc = {x: env.vars[x] for x in carried if callable_value(env.vars[x])}
    carried = [x for x in carried if x not in fnc]
    for x in names:
        if x not in env.vars and env.has(x) and not isinstance(env.get(x), (str,)):
            pass
    temps = [x for x in names if x not in carried and x not in apps and x not in fnc]
    if not proves(le(ZERO, n)):
        # a negative count means an empty loop
        n = ite(le(n, ZERO), ZERO, n)
        raise Undecided('loop count not known to be non-negative')
    listvals = {a: env.get(a) for a in apps}
    tempvals = {}
    fnouts = {}

    # functions redefined in the body: f_{k+1} = f_k' gives f_k = the k-th derivative of f_0; otherwise they are not read
    def fn_rule(k, carry):
        from .interp import Poison
        G = fresh('G', 'R').args[0]
        e = Env_like(env)
        for x, v in zip(carried, carry):
            e.vars[x] = v
        for a in apps:
            e.vars[a] = LoopList(listvals[a])
        for x in fnc:
            e.vars[x] = Iterate(ip, G + x)
        ip.assign(st.target, it.at(k), e)
        ip.exec_block(st.body, e)
        out = {}
        for x in fnc:
            h, ok = e.vars[x], True
            try:
                for m in range(3):
                    xs = [fresh('x', 'R') for _ in range(m + 1)]
                    want = ip.models.deriv(ip, Iterate(ip, G + x), 0, xs, {})
                    ok = ok and NF.term_eq(toT(ip.call(h, xs)), toT(want))
            except (Undecided, Raised):
                ok = False
            out[x] = ok
        return out
    derived = {}

    # arrays mutated in place but reached under other names are not supported
    def body(k, carry):
        e = Env_like(env)
        for x, v in zip(carried, carry):
            e.vars[x] = v
        ll = {}
        if fnc:
            from .interp import Poison
            derived.clear()
            derived.update(fn_rule(k, carry))
            for x in fnc:
                e.vars[x] = DerFn(ip, fnc[x], k) if derived[x] else Poison(f'function {x} redefined in a loop')
        for a in apps:
            ll[a] = LoopList(listvals[a])
            e.vars[a] = ll[a]
        ip.assign(st.target, it.at(k), e)
        ip.exec_block(st.body, e)
        out = []
        for a in apps:
            if len(ll[a].added) != 1:
                raise Undecided('append count in loop')
            v = ll[a].added[0]
            if callable_value(v):
                fnouts[a] = next((x for x in fnc if derived[x] and e.vars[x] is v), None)
                if fnouts[a] is None:
                    raise Undecided('list of functions')
                v = ZERO
            out.append(v)
        tv = [e.vars.get(x) for x in temps]
        tv = [v if supported(v) else POISON for v in tv]
        return tuple(e.vars[x] for x in carried), (tuple(out), tuple(tv))
    init = tuple(freeze(env.vars[x]) for x in carried)
    final, outs, k = core(ip, n, init, body)
    for x, v in zip(carried, final):
        old = env.vars[x]
        if isinstance(old, Tensor) and isinstance(v, Tensor) and old.np:
            ip.mutate(old, v)
        else:
            env.vars[x] = v
    outl, tv = outs
    for x, f in fnc.items():
        from .interp import Poison
        env.vars[x] = DerFn(ip, f, n) if derived.get(x) else Poison(f'function {x} redefined in a loop')
    for a, v in zip(apps, outl):
        old = listvals[a]
        if a in fnouts:
            f = fnc[fnouts[a]]
            if isinstance(old, list) and len(old) == 1 and old[0] is f:
                j = fresh('k', 'I', 0)
                env_set(env, a, SymList(add(n, ONE), j, DerFn(ip, f, j)))
                continue
            v = DerFn(ip, f, add(k, ONE))
            if not (isinstance(old, list) and not old):
                raise Undecided('list of functions')
        tail = SymList(n, k, v)
        env_set(env, a, ip.models.concat_lists(ip, old, tail) if not (isinstance(old, list) and not old) else tail)
    last = proves(lt(ZERO, n))
    for x, v in zip(temps, tv):
        if v is not POISON and last:
            env.vars[x] = vsubst(v, {k: sub(n, ONE)})
        else:
            env.vars.pop(x, None)


def supported(v):
    if isinstance(v, (T, Tensor, int, float)):
        return True
    if isinstance(v, tuple):
        return all(supported(x) for x in v)
    return False


def freeze(v):
    if isinstance(v, Tensor):
        return Tensor(v.shape, v.vs, v.body, v.dt, v.np)
    return v


def env_set(env, a, v):
    e = env
    while e is not None:
        if a in e.vars:
            e.vars[a] = v
            return
        e = e.parent


def Env_like(env):
    from .interp import Env
    e = Env(env, {})
    if hasattr(env, 'qual'):
        e.qual = env.qual
    return e


# ------------------------------------------------------------------ unfolding of state functions

def rewrite(t, fn, cache=None):
    """bottom-up rewriting; fn(term) -> term or None"""
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ('sum', 'prod'):
        v, lo, hi, body = t.args
        lo, hi, body = rewrite(lo, fn, cache), rewrite(hi, fn, cache), rewrite(body, fn, cache)
        r = summ(v, lo, hi, body) if op == 'sum' else prod(v, lo, hi, body)
    elif op == 'lam':
        r = lam(t.args[0], [rewrite(s, fn, cache) for s in t.args[1]], rewrite(t.args[2], fn, cache))
    elif op == 'flam':
        r = flam(t.args[0], rewrite(t.args[1], fn, cache))
    elif op in ('sym', 'const', 'true', 'false'):
        r = t
    else:
        r = rebuild(t, tuple(rewrite(a, fn, cache) if isinstance(a, T) else a for a in t.args))
    q = fn(r)
    r = r if q is None else q
    cache[t] = r
    return r


def state_indices(*ts):
    """step indices K of the state atoms sel(S, K, ...) without bound variables"""
    out = []
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'app' and t.args[0] == 'sel' and t.args[1] in DEFS and t.args[2] not in out:
            out.append(t.args[2])
        for a in t.args:
            if isinstance(a, T):
                go(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        go(b)
    for t in ts:
        go(t)
    return out


def unfold(t, which):
    """which(K) -> 'init' | 'step' | None"""
    def fn(u):
        if u.op == 'app' and u.args[0] == 'sel' and u.args[1] in DEFS:
            sd, lf = DEFS[u.args[1]]
            K = u.args[2]
            w = which(K)
            np_ = len(sd.params)
            mp = dict(zip(sd.params, u.args[3:3 + np_]))
            mp.update(zip(lf.vs, u.args[3 + np_:]))
            if w == 'init':
                return subst(lf.init, mp)
            if w == 'step':
                mp[sd.k] = sub(K, ONE)
                return subst(lf.step, mp)
        return None
    return rewrite(t, fn)


def equal_by_unfolding(g, w, depth=2):
    """case split on the step index of the states that occur (0, or at least 1)"""
    Ks = [K for K in state_indices(g, w)]
    for K in Ks[:3]:
        if K.op == 'const':
            continue
        if not proves(le(ONE, K)):
            with assuming(eq(K, ZERO)):
                is0 = lambda J: 'init' if J is K or proves(eq(J, ZERO)) else None
                if not NF.term_eq(unfold(g, is0), unfold(w, is0)):
                    continue
            with assuming(le(ONE, K)):
                if NF.term_eq(g, w) or depth and equal_by_unfolding(g, w, depth - 1):
                    return True
        else:
            is1 = lambda J: 'step' if J is K else None
            if NF.term_eq(unfold(g, is1), unfold(w, is1)):
                return True
    return False
