"""Contracts of mfs/multi_dims"""
from .base import Contract, Abs
from . import gens

MI = 'mfs.multi_dims.multi_indices:'
MQD = 'mfs.multi_dims.quadratures:'
MM = 'mfs.multi_dims.moments:'
MF = 'mfs.multi_dims.filtering:'


# ------------------------------------------------------------------ counting (C01)

def all_indices(d, lo, hi):
    """independent enumeration in graded lexicographic order"""
    import itertools
    if d == 0:
        return [()] if lo <= 0 <= hi else []
    out = [x for x in itertools.product(range(max(hi, 0) + 1), repeat=d) if lo <= sum(x) <= hi]
    return sorted(out, key=lambda x: (sum(x), x))


def SIZE(M, d, u, l=0):
    """number of x in N^d with l <= |x| <= u"""
    if M.conc:
        return len(all_indices(d, l, u)) if d * u < 40 else sum(M.comb(s + d - 1, s) for s in range(l, u + 1))
    from engine.values import toT
    d, u, l = toT(d), toT(u), toT(l)
    return M.ite(M.lt(u, l), 0, M.comb(u + d, u) - M.ite(M.lt(0, l), M.comb(l - 1 + d, l - 1), 0))


def SZ(M, d, u, l=0):
    """the contract of sizeof_multi_indices as seen by its callers"""
    if M.conc:
        return SIZE(M, d, u, l)
    from engine.terms import app, lt, ite, ZERO
    from engine.values import toT
    from engine import nf as NF
    d, u, l = toT(d), toT(u), toT(l)
    return ite(lt(NF.canon(u - l), ZERO), ZERO, app('misize', d, u, l, sort='I'))


_BOUND = [None]


def _ranges():
    from engine.solver import APP_RANGE
    from engine.terms import ZERO, ONE, ite, le, summ, fresh, subst
    from engine.solver import proves
    from engine import nf as NF
    # size > 0 when there is a dimension (Lean: MultiIndex.size_pos)
    APP_RANGE['misize'] = lambda t: (ite(le(ONE, t.args[1]), ONE, ZERO), None)

    def grlex(t):
        # rank of a multi-index of degree <= deg among at least size(d, deg) moments (Lean: MultiIndex.rank_lt)
        if _BOUND[0] is None:
            return ZERO, None
        vs, sh, body = t.args[1].args
        if not proves(le(ZERO, body)):
            return ZERO, None
        v = fresh('b', 'I')
        deg, m = _BOUND[0]
        tot = NF.canon(summ(v, ZERO, sh[0], subst(body, {vs[0]: v})))
        return ZERO, (m if proves(le(tot, deg)) else None)
    APP_RANGE['grlex'] = grlex


def _size_in(G, d0):
    if d0:      # zero-dimensional tails occur in the ranking recursion, always with a positive lower degree
        return dict(d=0, u=G.size('u', lo=-1, conc=(0, 1, 3, 2, 5, -1, 7)), l=G.size('l', lo=1, conc=(1, 2, 3, 5)))
    l = G.size('l', lo=0, conc=(0, 1, 2, 3, 0, 5))
    return dict(d=G.size('d', lo=1, conc=(1, 2, 3, 4, 5)), u=G.size('u', lo=-1, conc=(0, 1, 3, 2, 5, -1, 7)), l=l)


Contract('sizeof_multi_indices', 'C01', MI + 'sizeof_multi_indices', _size_in, lambda M, i, d0: SIZE(M, i['d'], i['u'], i['l']),
         callee=lambda M, e: SZ(M, e['d'], e['upper_sum'], e['lower_sum']), jit=False, trials=30, lean=('MultiIndex',),
         cases=[dict(d0=False), dict(d0=True)], also=('C02',))


# ------------------------------------------------------------------ ranking (C01)

def _rank_formula(M, x, lower):
    """number of predecessors (the Lean file shows that it is): all vectors of smaller degree, and for each coordinate i the
    vectors of the same degree that agree before i and are smaller at i"""
    d = M.shape(x, 0)
    tot = M.S(0, d, lambda a: x[a])

    def at(i):
        R = M.S(i, d, lambda a: x[a])
        return M.ite(M.le(1, x[i]), SZ(M, d - (i + 1), R, R - x[i] + 1), 0)
    r = SZ(M, d, tot - 1, 0) + M.S(0, d, at)
    return r - M.ite(M.lt(0, lower), SZ(M, d, lower - 1, 0), 0)


def rank_conc(x, lower=0):
    """position by comparison with the definition of the order (counting by degree and prefix)"""
    import math
    x = [int(v) for v in x]
    d, t = len(x), sum(x)
    comp = lambda k, s: (math.comb(s + k - 1, s) if k else int(s == 0)) if s >= 0 else 0
    r = sum(comp(d, s) for s in range(lower, t))
    rem = t
    for i, v in enumerate(x):
        r += sum(comp(d - i - 1, rem - a) for a in range(v))
        rem -= v
    return r


def RANK(M, x):
    """position of the multi-index x (a vector) in the graded lexicographic order"""
    if M.conc:
        return rank_conc(x)
    from engine.terms import app
    from engine import nf as NF
    return app('grlex', NF.canon(M.ip.models.arr(M.ip, x).lam()), sort='I')


def _rank_callee(M, e):
    from engine.terms import lt, ZERO
    from engine.values import toT, tab
    from engine import nf as NF
    x = M.ip.models.arr(M.ip, e['multi_index'])
    l = toT(e['lower_sum'])
    r = RANK(M, x)
    return r if l is ZERO else r - M.ite(M.lt(0, l), SZ(M, x.shape[0], l - 1, 0), 0)


def _rank_in(G, low):
    d = G.size('d', lo=1, conc=(1, 2, 3, 4, 5))
    r = dict(x=G.arr('x', (d,), dt='i', np=True, gen=gens.mindex))
    if low:
        r['low'] = G.size('low', lo=0, conc=(0, 1, 2))
        if G.conc:
            r['low'] = min(r['low'], int(sum(r['x'])))
    return r


def _rank_spec(M, i, low):
    return rank_conc(i['x'], i.get('low', 0)) if M.conc else _rank_formula(M, i['x'], i.get('low', 0))


Contract('graded_lexico_indexof_multi_index', 'C01', MI + 'graded_lexico_indexof_multi_index', _rank_in, _rank_spec,
         call=lambda i, low: ([i['x']], dict(lower_sum=i['low']) if low else {}), cases=[dict(low=False), dict(low=True)],
         real_call=lambda f, a, k, i, low: f(tuple(int(v) for v in i['x']), **k), callee=_rank_callee, jit=False, trials=25,
         lean=('MultiIndex',), also=('C02',))


# ------------------------------------------------------------------ enumeration (C01)

def NEXT(M, x):
    """successor in the graded lexicographic order.  With k the last non-zero coordinate: if k = 0 (or none), the first vector
    of the next degree; otherwise move one unit from k to k - 1 and the rest of k to the last coordinate"""
    d = M.shape(x, 0)
    if M.conc:
        raise NotImplementedError
    tot = M.S(0, d, lambda a: x[a])
    k = M.lastnz(x)
    xk = x[k]
    return M.tab(d, lambda a: M.ite(M.not_(M.anynz(x, 1)), M.ite(M.eq(a, d - 1), tot + 1, 0),
                                    M.ite(M.eq(k, d - 1), x[a] + M.ite(M.eq(a, d - 2), 1, 0) - M.ite(M.eq(a, d - 1), 1, 0),
                                          M.ite(M.eq(a, k), 0, x[a] + M.ite(M.eq(a, k - 1), 1, 0) + M.ite(M.eq(a, d - 1), xk - 1, 0)))), 'i')


NX = Abs('nextmi', MI + '_next_graded_lexico_multi_index', [('multi_index', 'a')], lambda x: (x.shape,), NEXT, dt='i')
Contract('_next_graded_lexico_multi_index', 'C01', MI + '_next_graded_lexico_multi_index',
         lambda G: dict(x=G.arr('x', (G.size('d', lo=2),), dt='i', np=True)), lambda M, i: NEXT(M, i['x']), abs=NX)

def _gen_in(G, d1):
    if not G.conc:
        _ranges()
    l = G.size('l', lo=0, conc=(0, 0, 1, 2, 0, 3))
    d = 1 if d1 else G.size('d', lo=2, conc=(2, 3, 4, 2, 3, 5))
    if G.conc:
        return dict(d=d, u=l + G.size('e', lo=0, conc=(0, 1, 3, 2, 4)), l=l)
    u = G.size('u', lo=0)
    G.assume(le_(G, l, u))
    return dict(d=d, u=u, l=l)


def le_(G, a, b):
    from engine.terms import le, lift
    return le(lift(a), lift(b))


def GENROWS(M, d, u, l, d1):
    """the multi-indices of degree l..u in graded lexicographic order: start at l e_{d-1}, then take successors (the Lean file
    shows that this lists every multi-index exactly once, in increasing order)"""
    if M.conc:
        import numpy as np
        return np.array(all_indices(int(d), int(l), int(u)), dtype='int64').reshape(-1, int(d))
    if d1:
        return M.tab((u - l + 1, 1), lambda r, c: r + l, 'i')
    z = SZ(M, d, u, l)
    x0 = M.tab(d, lambda a: M.ite(M.eq(a, d - 1), l, 0), 'i')
    at = M.recur(z - 1, x0, lambda k, x: NX(M, x))
    return M.tab((z, d), lambda r, c: at(r)[c], 'i')


def GEN(M, d, u, l=0):
    """callers: the basis as an opaque (size, d) integer array"""
    if M.conc:
        return GENROWS(M, d, u, l, False)
    from engine.terms import app
    from engine.values import toT, tab
    from engine import nf as NF
    d, u, l = toT(d), toT(u), toT(l)
    n = SIZE(M, d, u, l)
    return tab((NF.canon(n), d), lambda r, c: app('mibasis', d, u, l, r, c, sort='I'), 'i', True)


Contract('generate_graded_lexico_multi_indices', 'C01', MI + 'generate_graded_lexico_multi_indices', _gen_in,
         lambda M, i, d1: GENROWS(M, i['d'], i['u'], i['l'], d1), cases=[dict(d1=True), dict(d1=False)],
         callee=lambda M, e: GEN(M, e['d'], e['upper_sum'], e['lower_sum']), jit=False, trials=18, lean=('MultiIndex',),
         also=('C02',))


def _find_in(G, nd):
    d = G.size('d', lo=1, conc=(1, 2, 3, 4))
    lead = [G.size(s, lo=1, conc=(2, 1, 3)) for s in ('a', 'b')][:nd]
    return dict(x=G.arr('x', (*lead, d), dt='i', np=True, gen=gens.mindexs))


def _find_spec(M, i, nd):
    x = i['x']
    sh = [M.shape(x, k) for k in range(nd + 1)]
    row = lambda *q: M.tab(sh[-1], lambda c: x[(*q, c)], 'i')
    return M.tab(tuple(sh[:-1]), lambda *q: RANK(M, row(*q)), 'i') if nd else RANK(M, x)


Contract('find_indices', 'C01', MI + 'find_indices', _find_in, _find_spec, cases=[dict(nd=k) for k in range(3)], jit=False,
         trials=8, also=('C02',))


# ------------------------------------------------------------------ Gram and Hankel indices, extraction (C02)

def _gh_in(G):
    return dict(N=G.size('N', lo=1, conc=(1, 2, 3, 2, 4)), d=G.size('d', lo=1, conc=(1, 2, 3, 2)))


def _gh_spec(M, i):
    N, d = i['N'], i['d']
    B = GEN(M, d, N - 1)
    s = M.comb(N - 1 + d, N - 1)
    return M.tab((d + 1, s, s), lambda k, a, b: RANK(M, M.tab(d, lambda c: B[a, c] + B[b, c] + M.ite(M.eq(k, c + 1), 1, 0), 'i')), 'i')


Contract('gram_and_hankel_indices_graded_lexico', 'C02', MI + 'gram_and_hankel_indices_graded_lexico', _gh_in, _gh_spec, jit=False,
         trials=8)


def unit(M, d, *pos):
    return M.tab(d, lambda c: sum((M.ite(M.eq(c, p), 1, 0) for p in pos[1:]), M.ite(M.eq(c, pos[0]), 1, 0)), 'i')


def _ex_ms(G, nd, d, deg=3):
    m = G.size('m', lo=1)
    if not G.conc:      # the collection holds all the moments up to a degree (at least two)
        _ranges()
        from engine.terms import lift
        _BOUND[0] = (lift(deg), m)
    lead = [G.size(n, lo=1, conc=(2, 1, 3)) for n in ('t', 'u')[:nd]]
    if G.conc:
        m = len(all_indices(d, 0, deg))
    return G.arr('ms', (*lead, m), np=True)


def _em_in(G, nd):
    d = G.size('d', lo=1, conc=(1, 2, 3, 4))
    x = G.arr('x', (d,), dt='i', np=True, gen=lambda rng, t, d: _small(rng, d))
    ms = _ex_ms(G, nd, d)
    if not G.conc:
        from engine.terms import lt, app
        from engine import nf as NF
        _BOUND[0] = None
        G.assume(lt(app('grlex', NF.canon(x.lam()), sort='I'), ms.shape[-1]))
    return dict(ms=ms, x=x)


def _small(rng, d):
    import numpy as np
    x = np.zeros(d, dtype='int64')
    for _ in range(int(rng.integers(4))):
        x[rng.integers(d)] += 1
    return x


def mom(M, ms, nd, x, *t):
    return ms[(*t, RANK(M, x))]


def _stack(M, ms, nd, f, shape, dt='f'):
    if nd:
        return M.tab(tuple(M.shape(ms, a) for a in range(nd)) + shape, lambda *q: f(q[:nd], *q[nd:]))
    return M.tab(shape, lambda *q: f((), *q)) if shape else f(())


Contract('extract_moments', 'C02', MM + 'extract_moments', _em_in,
         lambda M, i, nd: _stack(M, i['ms'], nd, lambda t: i['ms'][(*t, RANK(M, i['x']))], ()), cases=[dict(nd=0), dict(nd=1), dict(nd=2)], jit=False)
Contract('extract_mean', 'C02', MM + 'extract_mean', lambda G, nd: (lambda d: dict(ms=_ex_ms(G, nd, d), d=d))(G.size('d', lo=1, conc=(1, 2, 3, 4))),
         lambda M, i, nd: _stack(M, i['ms'], nd, lambda t, a: i['ms'][(*t, RANK(M, unit(M, i['d'], a)))], (i['d'],)),
         cases=[dict(nd=0), dict(nd=1), dict(nd=2)], jit=False)
Contract('extract_cov', 'C02', MM + 'extract_cov', lambda G, nd: (lambda d: dict(ms=_ex_ms(G, nd, d), d=d))(G.size('d', lo=1, conc=(1, 2, 3, 4))),
         lambda M, i, nd: _stack(M, i['ms'], nd, lambda t, a, b: i['ms'][(*t, RANK(M, unit(M, i['d'], a, b)))], (i['d'], i['d'])),
         cases=[dict(nd=0), dict(nd=1), dict(nd=2)], jit=False)


def _mm_in(G, nd):
    d, N = G.size('d', lo=1, conc=(1, 2, 3, 2)), G.size('N', lo=1, conc=(1, 2, 3))
    ax = G.size('ax', lo=0, conc=(0, 1, 2))
    if G.conc:
        ax = ax % d
    else:
        from engine.terms import lt
        G.assume(lt(ax, d))
    ms = _ex_ms(G, nd, d, 2 * N - 1)
    return dict(ms=ms, d=d, N=N, ax=ax)


Contract('marginalise_moments', 'C02', MM + 'marginalise_moments', _mm_in,
         lambda M, i, nd: _stack(M, i['ms'], nd, lambda t, p: i['ms'][(*t, RANK(M, M.tab(i['d'], lambda c: M.ite(M.eq(c, i['ax']), p, 0), 'i')))],
                                 (2 * i['N'],)), cases=[dict(nd=0), dict(nd=1), dict(nd=2)], jit=False)


# ------------------------------------------------------------------ Cartesian products (C04)

def DIG(M, n, d, r, k):
    """entry k of the r-th element of {0..n-1}^d, last coordinate fastest"""
    if M.conc:
        return (r // n ** (d - 1 - k)) % n
    from engine.terms import app, lam, fresh
    from engine import nf as NF
    from engine.values import toT
    n, d = toT(n), toT(d)
    return app('digit', NF.canon(lam((fresh('i', 'I'),), (d,), n)), toT(r), toT(k), sort='I')


def _cpi(M, d, n):
    return M.tab((M.pow(n, d), d), lambda r, k: DIG(M, n, d, r, k), 'i')


Contract('nd_cartesian_prod_indices', 'C04', MQD + 'nd_cartesian_prod_indices',
         lambda G: dict(d=G.size('d', lo=1, conc=(1, 2, 3, 2)), n=G.size('n', lo=1, conc=(1, 2, 3, 4))),
         lambda M, i: _cpi(M, i['d'], i['n']), callee=lambda M, e: _cpi(M, e['d'], e['n']), jit=False, trials=12, also=('C15',))


def _cp_in(G, nd, own):
    d, n = G.size('d', lo=1, conc=(1, 2, 3, 2)), G.size('n', lo=1, conc=(1, 2, 3, 4))
    r = dict(x=G.arr('x', (d, n)) if nd == 2 else G.arr('x', (d, G.size('m', lo=1, conc=(2, 1, 3)), n)))
    if not own:
        R = G.size('R', lo=1, conc=(1, 2, 5))
        r['inds'] = G.arr('inds', (R, d), dt='i', np=True, rng=n)
    return r


def _cp_spec(M, i, nd, own):
    x = i['x']
    d, n = M.shape(x, 0), M.shape(x, nd - 1)
    if own:
        R, at = M.pow(n, d), lambda r, k: DIG(M, n, d, r, k)
    else:
        R, at = M.shape(i['inds'], 0), lambda r, k: i['inds'][r, k]
    if nd == 2:
        return M.tab((R, d), lambda r, k: x[k, at(r, k)])
    return M.tab((R, M.shape(x, 1), d), lambda r, c, k: x[k, c, at(r, k)])


Contract('nd_cartesian_prod', 'C04', MQD + 'nd_cartesian_prod', _cp_in, _cp_spec,
         cases=[dict(nd=2, own=True), dict(nd=2, own=False), dict(nd=3, own=False)])
Contract('nd_cartesian_prod_2', 'C04', MQD + 'nd_cartesian_prod_2', lambda G: _cp_in(G, 2, True), lambda M, i: _cp_spec(M, i, 2, True))


# ------------------------------------------------------------------ n-dimensional quadrature (C04)

def mqnd_conc(ms, inds, mean, scale, ldl):
    import itertools
    import numpy as np
    import scipy.linalg
    ms, inds = np.asarray(ms, float), np.asarray(inds)
    d, s = inds.shape[0] - 1, inds.shape[1]
    Gm = ms[inds[0]]
    L = gens.ldl_chol_conc(Gm) if ldl else np.linalg.cholesky(Gm)
    lam, V = [], []
    for k in range(d):
        X = scipy.linalg.solve_triangular(L, ms[inds[k + 1]], lower=True)
        K = scipy.linalg.solve_triangular(L, X.T, lower=True).T
        l, v = np.linalg.eigh((K + K.T) / 2)
        lam.append(l)
        V.append(v)
    W, X = [], []
    for js in itertools.product(range(s), repeat=d):
        w = V[0][0, js[0]] * V[-1][0, js[-1]]
        for k in range(d - 1):
            w *= np.sum(V[k][:, js[k]] * V[k + 1][:, js[k + 1]])
        W.append(w)
        X.append([lam[k][js[k]] * scale[k] + mean[k] for k in range(d)])
    return np.array(W), np.array(X)


def _mqnd_callee(M, e):
    from engine.terms import app, add, mul
    from engine.values import tab, numT
    from engine import nf as NF
    ip = M.ip
    ms, inds = ip.models.arr(ip, e['ms']), ip.models.arr(ip, e['inds'])
    d, s = NF.canon(inds.shape[0] - 1), inds.shape[1]
    tag = ('L' if ip.truth(e['ldl']) else 'C') + ('s' if ip.truth(e['sort_nodes']) else 'u')
    L, I = NF.canon(ms.lam()), NF.canon(inds.lam())
    R = M.pow(s, d)
    w = tab((R,), lambda r: app('mqnw' + tag, L, I, r))
    sh = []
    for nm, dflt in (('scale', 1), ('mean', 0)):
        v = e[nm]
        t = None if v is None else ip.models.arr(ip, v)
        sh.append((lambda k, dflt=dflt: dflt) if t is None else ((lambda k, t=t: t.at(k)) if t.ndim else (lambda k, t=t: t.at())))
    scale, mean = sh
    if e['mean'] is None:
        scale = lambda k: 1           # without a mean the scale is not used
    x = tab((R, d), lambda r, k: app('mqnx' + tag, L, I, r, k) * scale(k) + mean(k))
    return w, x


def MQND(M, ms, inds, mean, scale, ldl, sort=False):
    if M.conc:
        import numpy as np
        d = inds.shape[0] - 1
        return mqnd_conc(ms, inds, np.zeros(d) if mean is None else mean, np.ones(d) if scale is None else scale, ldl)
    return _mqnd_callee(M, dict(ms=ms, inds=inds, mean=mean, scale=scale, ldl=ldl, sort_nodes=sort))


def nd_moments(rng, d, N, kind='raw'):
    """moments up to degree 2N-1 of a generic discrete distribution; (moments, mean, scale, multi-indices)"""
    import numpy as np
    mi = np.array(all_indices(d, 0, 2 * N - 1)).reshape(-1, d)
    q = max(12, 3 * len(all_indices(d, 0, N)))
    A = np.eye(d) + 0.4 * rng.normal(size=(d, d))
    x = rng.uniform(-1.5, 1.5, size=(q, d)) @ A.T + 0.3 * rng.normal(size=d)
    w = rng.uniform(0.3, 1., size=q)
    w /= w.sum()
    m = w @ x
    s = np.sqrt(w @ (x - m) ** 2)
    if kind != 'raw':
        x = x - m
    if kind == 'scaled':
        x = x / s
    return np.array([np.sum(w * np.prod(x ** n, axis=1)) for n in mi]), m, s, mi


def gram_conc(N, d):
    import numpy as np
    B = np.array(all_indices(d, 0, N - 1)).reshape(-1, d)
    r = lambda v: rank_conc(v)
    out = [[[r(a + b) for b in B] for a in B]]
    for k in range(d):
        e = np.eye(d, dtype=int)[k]
        out.append([[r(a + b + e) for b in B] for a in B])
    return np.array(out, dtype='int64')


def _mq_sizes(G):
    return G.size('d', lo=1, conc=(1, 2, 3, 2)), G.size('N', lo=1, conc=(1, 2, 3, 2))


def _mqnd_in(G, mode, ldl, sort):
    if G.conc:
        d, N = _mq_sizes(G)
        if d == 3:
            N = min(N, 2)
        ms, m, s, _ = nd_moments(G.rng, d, N, mode)
        r = dict(ms=ms, inds=gram_conc(N, d))
        if mode != 'raw':
            r['mean'] = m
        if mode == 'scaled':
            r['scale'] = s
        return r
    d, s, z = G.size('d', lo=1), G.size('s', lo=1), G.size('z', lo=1)
    r = dict(ms=G.arr('ms', (z,)), inds=G.arr('inds', (d + 1, s, s), dt='i', np=True, symm=True, rng=z))
    if mode != 'raw':
        r['mean'] = G.arr('mean', (d,))
    if mode == 'scaled':
        r['scale'] = G.arr('scale', (d,), pos=True)
    return r


def _mqnd_spec(M, i, mode, ldl, sort):
    """K_k = L^-1 H_k L^-T = V_k diag(lam_k) V_k^T; for every j in {0..s-1}^d the node (lam_k[j_k])_k with the weight
    V_0[0,j_0] <V_0[:,j_0], V_1[:,j_1]> ... <V_{d-2}[:,j_{d-2}], V_{d-1}[:,j_{d-1}]> V_{d-1}[0,j_{d-1}]"""
    ms, inds = i['ms'], i['inds']
    if M.conc:
        return MQND(M, ms, inds, i.get('mean'), i.get('scale'), ldl, sort)
    from .one_dim2 import ldlchol_callee
    d, s = M.shape(inds, 0) - 1, M.shape(inds, 1)
    Gm = M.tab((s, s), lambda a, b: ms[inds[0, a, b]])
    L = ldlchol_callee(M, dict(mat=Gm, eps=None)) if ldl else M.chol(Gm)
    Li = M.triinv(L)
    K = lambda k: M.mm(M.mm(Li, M.tab((s, s), lambda a, b: ms[inds[k + 1, a, b]])), M.tr(Li))
    V = lambda k: M.eigh(K(k), sort)[0]
    lam = lambda k: M.eigh(K(k), sort)[1]
    j = lambda r, k: DIG(M, s, d, r, k)
    mean, scale = i.get('mean'), i.get('scale')
    w = M.tab(M.pow(s, d), lambda r: V(0)[0, j(r, 0)] * V(d - 1)[0, j(r, d - 1)] *
              M.P(0, d - 1, lambda k: M.S(s, lambda c: V(k)[c, j(r, k)] * V(k + 1)[c, j(r, k + 1)])))
    x = M.tab((M.pow(s, d), d), lambda r, k: lam(k)[j(r, k)] * (1 if scale is None else scale[k]) + (0 if mean is None else mean[k]))
    return w, x


Contract('moment_quadrature_nd', 'C04', MQD + 'moment_quadrature_nd', _mqnd_in, _mqnd_spec,
         call=lambda i, mode, ldl, sort: ([i['ms'], i['inds']], dict(**{k: i[k] for k in ('mean', 'scale') if k in i}, sort_nodes=sort, ldl=ldl)),
         cases=[dict(mode=m, ldl=l, sort=s) for m, l, s in (('raw', False, False), ('central', False, True), ('scaled', False, False),
                                                             ('scaled', True, False), ('raw', True, True))],
         callee=_mqnd_callee, rtol=1e-5, atol=1e-6, trials=8)


# ------------------------------------------------------------------ n-dimensional filters (C07)

def _nd_model(rng, d, N, mi, neg=False):
    """X' | x ~ N(a sin(Bx) + c, diag(v)); builders of the conditional moments, row-wise mean (and variance), and pdf"""
    import numpy as np
    from math import comb
    B, c = 0.7 * np.eye(d) + 0.25 * rng.normal(size=(d, d)), 0.2 * rng.normal(size=d)
    a, v = rng.uniform(0.6, 1., size=d), rng.uniform(0.2, 0.5, size=d)
    H, r = rng.normal(size=d), float(rng.uniform(0.8, 1.5))
    P = 2 * N
    V = v - 2. if neg else v

    def mom(xp, m):
        """m: (d,) -> (P, d) raw moments of N(m, v)"""
        out = [0. * m + 1., m]
        for p in range(2, P):
            out.append(m * out[-1] + (p - 1) * V * out[-2])
        return xp.stack(out[:P])

    def f(xp, x):
        return a * xp.sin(B @ x) + c

    def one(xp, x, n, mean, scale):
        t = mom(xp, f(xp, x) - mean)
        return xp.prod(t[n, xp.arange(d)] / (xp.asarray(scale) + 0. * t[0]) ** n)

    def cond(xp, byindex):
        mis = xp.asarray(mi)

        def g(xs, ns, mean=0., scale=1.):
            if xp is np:
                return one(np, np.asarray(xs), mi[int(ns)] if byindex else np.asarray(ns), mean, scale)
            import jax
            return jax.vmap(lambda x: jax.vmap(lambda n: one(xp, x, mis[n] if byindex else n, mean, scale))(ns))(xs)
        return g

    def cmean(xp):
        if xp is np:
            return lambda x: f(np, x)
        import jax
        return jax.vmap(lambda x: f(xp, x))

    def cmv(xp):
        if xp is np:
            return lambda x: (f(np, x), v)
        import jax
        return jax.vmap(lambda x: (f(xp, x), 0. * x + v))

    def pdf(xp):
        return lambda y, x: xp.exp(-0.5 * (y[0] - xp.sum(H * xp.sin(x))) ** 2 / r) / (1. + 0.1 * xp.sum(y * y))
    return cond, cmean, cmv, pdf


def _nf_in(G, kind, sig, stable):
    if not G.conc:
        d, s, z, T_ = G.size('d', lo=1), G.size('s', lo=1), G.size('z', lo=1), G.size('T', lo=1)
        r = dict(cond=G.fn('cond', 'outerv'))
        if kind == 'central':
            r['cm'] = G.fn('cmean', 'rows')
        if kind == 'scaled':
            r['cm'] = G.fn('cmv', 'rows', nres=2)
        r.update(pdf=G.fn('pdf', 'vec', out=(), pos=True), ys=G.arr('ys', (T_, G.size('m', lo=1))),
                 mi=G.arr('mi', (z, d), dt='i'), inds=G.arr('inds', (d + 1, s, s), dt='i', symm=True, rng=z))
        r['ms0'] = G.arr('ms0', (z,))
        if kind != 'raw':
            r['mean0'] = G.arr('mean0', (d,))
        if kind == 'scaled':
            r['scale0'] = G.arr('scale0', (d,), pos=True)
        return r
    from harness.conc import CFn
    d, N = _mq_sizes(G)
    if d == 3:
        N = min(N, 2)
    if kind == 'scaled':
        N = max(N, 2)
    ms, m, s, mi = nd_moments(G.rng, d, N, kind)
    cond, cmean, cmv, pdf = _nd_model(G.rng, d, N, mi)
    r = dict(cond=CFn(lambda xp: cond(xp, sig == 'index'), 'outerv'))
    if kind == 'central':
        r['cm'] = CFn(cmean, 'rows')
    if kind == 'scaled':
        r['cm'] = CFn(cmv, 'rows', 2)
    r.update(pdf=CFn(pdf, 'vec'), ys=G.rng.normal(size=(G.size('T', lo=1, conc=(1, 2, 3)), 2)), mi=mi, inds=gram_conc(N, d), ms0=ms)
    if kind != 'raw':
        r['mean0'] = m
    if kind == 'scaled':
        r['scale0'] = s
    return r


def _nf_call(i, kind, sig, stable):
    a = [(i['cond'], sig)] + ([i['cm']] if kind != 'raw' else []) + [i['pdf'], i['ys'], (i['mi'], i['inds']), i['ms0']]
    a += [i[k] for k in ('mean0', 'scale0') if k in i]
    return a, dict(stable=stable)


def _nf_spec(M, i, kind, sig, stable):
    cond, pdf, ys, mi, inds = i['cond'], i['pdf'], i['ys'], i['mi'], i['inds']
    z, d, T_ = M.shape(mi, 0), M.shape(mi, 1), M.shape(ys, 0)
    order = (lambda p: M.tab(d, lambda a: mi[p, a], 'i')) if sig == 'multi-index' else (lambda p: p)

    def step(k, st):
        ms, nell = st[0], st[-1]
        mean = st[1] if kind != 'raw' else None
        scale = st[2] if kind == 'scaled' else None
        w, x = MQND(M, ms, inds, mean, scale, stable)
        R = M.shape(w, 0)
        node = lambda q: M.tab(d, lambda a: x[q, a])
        extra = []
        if kind == 'central':
            mean = M.tab(d, lambda a: M.S(R, lambda q: w[q] * i['cm'].pt(node(q))[a]))
            extra = [mean]
        if kind == 'scaled':
            mean = M.tab(d, lambda a: M.S(R, lambda q: w[q] * i['cm'].pt(node(q))[0][a]))
            scale = M.tab(d, lambda a: M.sqrt(M.S(R, lambda q: w[q] * i['cm'].pt(node(q))[1][a])))
            extra = [mean, scale]
        ms = M.tab(z, lambda p: M.S(R, lambda q: w[q] * cond.pt(node(q), order(p), *extra)))
        w, x = MQND(M, ms, inds, mean, scale, stable)
        y = M.tab(M.shape(ys, 1), lambda a: ys[k, a])
        lik = lambda q: pdf.pt(y, M.tab(d, lambda a: x[q, a]))
        py = M.S(R, lambda q: w[q] * lik(q))
        new = ()
        if kind != 'raw':
            mean = M.tab(d, lambda a: M.div(M.S(R, lambda q: w[q] * x[q, a] * lik(q)), py))
            new = (mean,)
        if kind == 'scaled':
            scale = M.tab(d, lambda a: M.sqrt(M.div(M.S(R, lambda q: w[q] * M.pow(x[q, a] - mean[a], 2) * lik(q)), py)))
            new = (mean, scale)
        u = {'raw': lambda q, a: x[q, a], 'central': lambda q, a: x[q, a] - mean[a],
             'scaled': lambda q, a: M.div(x[q, a] - mean[a], scale[a])}[kind]
        ms = M.tab(z, lambda p: M.div(M.S(R, lambda q: w[q] * M.P(0, d, lambda a: M.pow(u(q, a), mi[p, a])) * lik(q)), py))
        return (ms,) + new + (nell - M.log(py),)
    at = M.recur(T_, (i['ms0'],) + tuple(i[k] for k in ('mean0', 'scale0') if k in i) + (M.pow(0, 1),), step)
    nr = dict(raw=1, central=2, scaled=3)[kind]
    return tuple(M.tab(T_, lambda k, r=r: at(k + 1)[r]) for r in range(nr)) + (at(T_)[nr],)


for _kind, _name in (('raw', 'rms'), ('central', 'cms'), ('scaled', 'scms')):
    Contract('moment_filter_nd_' + _name, 'C07', MF + 'moment_filter_nd_' + _name,
             lambda G, sig, stable, kind=_kind: _nf_in(G, kind, sig, stable),
             lambda M, i, sig, stable, kind=_kind: _nf_spec(M, i, kind, sig, stable),
             call=lambda i, sig, stable, kind=_kind: _nf_call(i, kind, sig, stable),
             cases=[dict(sig='multi-index', stable=False), dict(sig='index', stable=False), dict(sig='multi-index', stable=True)],
             rtol=2e-4, atol=1e-5, trials=4)


def _stable_check(rng, trial, real):
    """conditional moments with negative variances: the predicted Gram matrix is indefinite, which stable=True completes"""
    import jax.numpy as jnp
    import numpy as np
    kind, name = (('raw', 'rms'), ('central', 'cms'), ('scaled', 'scms'))[trial % 3]
    d, N = 2, 2
    ms, m, s, mi = nd_moments(rng, d, N, kind)
    cond, cmean, cmv, _ = _nd_model(rng, d, N, mi, neg=True)
    pdf = lambda y, x: 0.2 + 1. / (1. + (y[0] - jnp.sum(jnp.sin(x))) ** 2)
    a = [(cond(jnp, False), 'multi-index')] + ([] if kind == 'raw' else [cmean(jnp)] if kind == 'central' else [cmv(jnp)])
    a += [pdf, jnp.asarray(rng.normal(size=(1, 2))), (jnp.asarray(mi), jnp.asarray(gram_conc(N, d))), jnp.asarray(ms)]
    a += [jnp.asarray(v) for v in (m, s)[:dict(raw=0, central=1, scaled=2)[kind]]]
    r = real(MF + 'moment_filter_nd_' + name)(*a, stable=True)
    if not all(np.all(np.isfinite(np.asarray(v))) for v in r[:1]):
        return [f'moment_filter_nd_{name}(stable=True) on an indefinite predicted Gram matrix: {r!r}']


_st = Contract('moment_filter_nd.stable', 'C07', MF + 'moment_filter_nd_rms', None, None, prove=False, trials=3,
               note='bounded: stable=True reaches both quadratures of a step (next to the proof), replayed on one indefinite prediction')
_st.check = _stable_check


def _bad_in(G, kind):
    r = _nf_in(G, kind, 'multi-index', False)
    if G.conc:
        import numpy as np
        r['ms0'] = np.concatenate([r['ms0'], [0.3] * (1 + G.trial % 3)]) if G.trial % 2 or len(r['ms0']) < 3 else r['ms0'][:-1]
        return r
    from engine.terms import not_, eq
    z2 = G.size('z2', lo=1)
    G.assume(not_(eq(z2, r['mi'].shape[0])))
    r['ms0'] = G.arr('ms0', (z2,))
    return r


for _kind, _name in (('raw', 'rms'), ('central', 'cms'), ('scaled', 'scms')):
    Contract('moment_filter_nd_%s.reject' % _name, 'C07', MF + 'moment_filter_nd_' + _name,
             lambda G, kind=_kind: _bad_in(G, kind), lambda M, i: (),
             call=lambda i, kind=_kind: _nf_call(i, kind, 'multi-index', False),
             raises=lambda M, i: (('ValueError',), M.not_(M.eq(M.shape(i['ms0'], 0), M.shape(i['mi'], 0)))), trials=4, jit=False)


# ------------------------------------------------------------------ multivariate normal and uniform moments (C09)

def normal_moment(mu, cov, idx):
    """E prod x_a^idx_a by Stein's recursion (independent oracle)"""
    import functools
    idx = tuple(int(v) for v in idx)

    @functools.lru_cache(None)
    def E(k):
        for a, v in enumerate(k):
            if v:
                r = list(k)
                r[a] -= 1
                out = mu[a] * E(tuple(r))
                for b, u in enumerate(r):
                    if u:
                        q = list(r)
                        q[b] -= 1
                        out += cov[a, b] * u * E(tuple(q))
                return out
        return 1.
    return E(idx)


def _mi_even(M, n):
    return M.eq(M.mod(n, 2), 0)


def _kan_terms(M, cov, n, v):
    """sign, binomials and half quadratic form of Kan's sum at the offset v"""
    d = M.shape(n, 0)
    h = lambda a: M.div(n[a], 2) - v(a)
    q = M.div(M.S(d, lambda a: M.S(d, lambda b: h(a) * cov[a, b] * h(b))), 2)
    return M.pow(-1, M.S(d, v)) * M.P(0, d, lambda a: M.comb(n[a], v(a))), q, h


def _ckan(M, i, np):
    cov, n = i['cov'], i['n']
    if M.conc:
        return normal_moment([0.] * len(n), cov, n)
    d = M.shape(n, 0)
    s = M.S(d, lambda a: n[a])

    def term(v):
        c, q, h = _kan_terms(M, cov, n, v)
        return c * M.pow(q, M.div(s, 2))
    tot = M.box(d, lambda a: n[a] + 1, term)
    return M.ite(_mi_even(M, s), M.div(tot, M.fact(M.idiv(s, 2))), 0)


def _kan_in(G, np, mean=False):
    d = G.size('d', lo=1, conc=(1, 2, 3, 2, 4))
    r = dict(mean=G.arr('mean', (d,), np=np)) if mean else {}
    cov = G.spd('cov', d)
    if not G.conc:
        cov = G.arr('cov', (d, d), symm=True, np=np)
    r.update(cov=cov, n=G.arr('n', (d,), dt='i', np=True, nat=True, gen=gens.mindex))
    return r


def _kan_call(i, np):
    return list(i.values()), {}


def _kan_real(f, a, k, i, np):
    import numpy
    import jax.numpy as jnp
    c = numpy.asarray if np else jnp.asarray
    n = tuple(int(v) for v in i['n'])
    return f(*([c(i['mean'])] if 'mean' in i else []), c(i['cov']), n if i['n'].sum() % 2 else numpy.array(n))


NPC = [dict(np=True), dict(np=False)]
Contract('central_moments_mvn_kan', 'C09', MM + 'central_moments_mvn_kan', _kan_in, _ckan, cases=NPC, real_call=_kan_real, jit=False,
         trials=12, rtol=1e-6, atol=1e-8)


def _rkan(M, i, np):
    mu, cov, n = i['mean'], i['cov'], i['n']
    if M.conc:
        return normal_moment(mu, cov, n)
    d = M.shape(n, 0)
    s = M.S(d, lambda a: n[a])

    def term(v):
        r = v(d)
        c, q, h = _kan_terms(M, cov, n, v)
        lin = M.S(d, lambda a: h(a) * mu[a])
        return c * M.div(M.pow(q, r) * M.pow(lin, s - 2 * r), M.fact(r) * M.fact(s - 2 * r))
    return M.box(d + 1, lambda a: M.ite(M.lt(a, d), n[a] + 1, M.idiv(s, 2) + 1), term)


def RKAN(M, e):
    from engine.terms import app
    from engine import nf as NF
    enc = [NF.canon(M.ip.models.arr(M.ip, e[k]).lam()) for k in ('mean', 'cov', 'multi_index')]
    return app('mvnraw', *enc)


Contract('raw_moments_mvn_kan', 'C09', MM + 'raw_moments_mvn_kan', lambda G, np: _kan_in(G, np, True), _rkan, cases=NPC, real_call=_kan_real,
         jit=False, trials=12, rtol=1e-6, atol=1e-8, callee=RKAN)


def _un_in(G, m):
    d = G.size('d', lo=1, conc=(1, 2, 3))
    r = dict(b=G.arr('b', (d, 2), gen=gens.boxes), n=G.arr('n', (d,), dt='i', np=True, nat=True, gen=gens.mindex))
    if m:
        r['mean'] = G.arr('mean', (d,))
    return r


def _un(M, i, m):
    """E prod (X_a - m_a)^n_a for independent uniforms on [b_a0, b_a1]"""
    b, n = i['b'], i['n']
    mu = (lambda a: i['mean'][a]) if m else (lambda a: 0)
    return M.P(0, M.shape(n, 0), lambda a: M.div(M.pow(b[a, 1] - mu(a), n[a] + 1) - M.pow(b[a, 0] - mu(a), n[a] + 1),
                                                 (n[a] + 1) * (b[a, 1] - b[a, 0])))


Contract('moments_nd_uniform', 'C09', MM + 'moments_nd_uniform', _un_in, _un, cases=[dict(m=False), dict(m=True)], jit=False,
         call=lambda i, m: ([i['b'], i['n']], dict(means=i['mean']) if m else {}), trials=8,
         real_call=lambda f, a, k, i, m: f([tuple(float(u) for u in r) for r in i['b']], tuple(int(u) for u in i['n']),
                                           **({'means': [float(u) for u in i['mean']]} if m else {})))


def _mgf_in(G, n):
    d = len(n)
    cov = G.spd('cov', d) if G.conc else G.arr('cov', (d, d), symm=True)
    return dict(mean=G.arr('mean', (d,)), cov=cov)


def _mgf(M, i, n):
    if M.conc:
        return normal_moment(i['mean'], i['cov'], n)
    from engine.terms import const
    mu, cov = i['mean'], i['cov']
    return normal_moment([mu[const(a)] for a in range(len(n))], {(a, b): cov[const(min(a, b)), const(max(a, b))] for a in range(len(n)) for b in range(len(n))}, n)


MGF_N = [(0,), (1,), (2,), (3,), (4,), (1, 1), (0, 2), (2, 1), (0, 3), (2, 2), (1, 0, 1), (1, 1, 1), (0, 2, 1)]
MGF_C = MGF_N + [(5,), (3, 1)]
Contract('raw_moments_mvn_mgf', 'C09', MM + 'raw_moments_mvn_mgf', _mgf_in, _mgf, cases=[dict(n=n) for n in MGF_N], conc_cases=[dict(n=n) for n in MGF_C],
         call=lambda i, n: ([i['mean'], i['cov'], n], {}), trials=2, rtol=1e-6, atol=1e-8, jit=False,
         note='proved per multi-index (degree up to 4, listed in the cases) for all means and covariances')


# ------------------------------------------------------------------ transition moments in several dimensions (C10)

def _fac_in(G, order=1):
    d = G.size('d', lo=1, conc=(1, 2, 2, 3))
    r = G.size('r', lo=1, conc=(2, 1, 3))
    z = G.size('z', lo=1, conc=(3, 4, 2))
    return dict(drift=G.fn('drift', 'vec', out=(d,), gen=gens.driftn), disp=G.fn('disp', 'vec', out=(d, G.size('w', lo=1, conc=(1, 2))), gen=gens.dispn),
                dt=G.real('dt', pos=True, gen=gens.dt), mi=G.arr('mi', (z, d), dt='i', np=True, nat=True, gen=gens.small_mindexs), x=G.arr('x', (r, d)),
                mean=G.arr('mean', (d,)), scale=G.arr('scale', (d,), pos=True, gen=gens.pos_vec),
                **dict(order=G.size('order', lo=1) if order is None else order))


def _fac(M, i, mv, E):
    """raw, central, scaled moments, mean, mean and variances at the rows of x; E(x row, n, mean, scale)"""
    x, mi = i['x'], i['mi']
    r, d, z = M.shape(x, 0), M.shape(x, 1), M.shape(mi, 0)
    row = lambda a: M.tab(d, lambda k: x[a, k])
    n = lambda b: M.tab(d, lambda k: mi[b, k], 'i')
    s = lambda b: M.P(0, d, lambda k: M.pow(i['scale'][k], mi[b, k]))
    mean = M.tab((r, d), lambda a, k: mv(row(a))[0][k])
    return (M.tab((r, z), lambda a, b: E(row(a), n(b), None, None)), M.tab((r, z), lambda a, b: E(row(a), n(b), i['mean'], None)),
            M.tab((r, z), lambda a, b: M.div(E(row(a), n(b), i['mean'], None), s(b)) if not getattr(E, 'scaled', 0) else E(row(a), n(b), i['mean'], i['scale'])),
            mean, (mean, M.tab((r, d), lambda a, k: mv(row(a))[1][k, k])))


def _normalE(M, mv):
    def E(x, n, mu, sc):
        m, c = mv(x)
        d = M.shape(x, 0)
        return M.mvn(m if mu is None else M.tab(d, lambda k: m[k] - mu[k]), c, n)
    return E


def _em(M, i):
    def mv(x):
        d, dt = M.shape(x, 0), i['dt']
        a, b = i['drift'](x), i['disp'](x)
        w = M.shape(b, 1)
        return (M.tab(d, lambda k: x[k] + a[k] * dt), M.tab((d, d), lambda k, l: M.S(w, lambda q: b[k, q] * b[l, q]) * dt))
    return _fac(M, i, mv, _normalE(M, mv))


def _five_nd(M, ip, r, i, ns):
    x = i['x']
    return (ip.call(r[0], [x, ns]), ip.call(r[1], [x, ns, i['mean']]), ip.call(r[2], [x, ns, i['mean'], i['scale']]), ip.call(r[3], [x]), ip.call(r[4], [x]))


def _five_ndc(r, i, ns):
    import jax
    import jax.numpy as jnp
    r = [jax.jit(f) for f in r]
    x, m, s, ns = jnp.asarray(i['x']), jnp.asarray(i['mean']), jnp.asarray(i['scale']), jnp.asarray(ns)
    return (r[0](x, ns), r[1](x, ns, m), r[2](x, ns, m, s), r[3](x), r[4](x))


def _arange(M, i):
    return M.tab(M.shape(i['mi'], 0), lambda k: k, 'i')


Contract('sde_cond_moments_euler_maruyama', 'C10', MM + 'sde_cond_moments_euler_maruyama', _fac_in, _em,
         call=lambda i: ([i['drift'], i['disp'], i['dt'], i['mi']], {}), real_call=lambda f, a, k, i: f(a[0], a[1], a[2], i['mi']),
         post=lambda M, ip, r, i: _five_nd(M, ip, r, i, _arange(M, i)),
         conc_post=lambda M, r, i: _five_ndc(r, i, range_(i)), trials=3, rtol=1e-6, atol=1e-8)


def range_(i):
    import numpy as np
    return np.arange(len(i['mi']))


ORD = [dict(order=1), dict(order=2), dict(order=3)]


def _tmn(M, i, order):
    order = i['order']
    mv = lambda x: M.tmen(x, i['dt'], i['drift'], i['disp'], order)
    return _fac(M, i, mv, _normalE(M, mv))


Contract('sde_cond_moments_tme_normal_nd', 'C10', MM + 'sde_cond_moments_tme_normal', _fac_in, _tmn, cases=[dict(order=None)], conc_cases=ORD[:2],
         call=lambda i, order: ([i['drift'], i['disp'], i['dt'], i['order'], i['mi']], {}), real_call=lambda f, a, k, i, order: f(*a[:4], i['mi']),
         post=lambda M, ip, r, i, order: _five_nd(M, ip, r, i, _arange(M, i)),
         conc_post=lambda M, r, i, order: _five_ndc(r, i, range_(i)), trials=2, rtol=1e-6, atol=1e-8)


def _tmd(M, i, order):
    order = i['order']

    def E(x, n, mu, sc):
        return M.tmen_exp(x, i['dt'], i['drift'], i['disp'], order, n, mu, sc)
    E.scaled = True
    return _fac(M, i, lambda x: M.tmen(x, i['dt'], i['drift'], i['disp'], order), E)


Contract('sde_cond_moments_tme_nd', 'C10', MM + 'sde_cond_moments_tme', _fac_in, _tmd, cases=[dict(order=None)], conc_cases=ORD[:2],
         call=lambda i, order: ([i['drift'], i['disp'], i['dt'], i['order']], {}),
         post=lambda M, ip, r, i, order: _five_nd(M, ip, r, i, i['mi']),
         conc_post=lambda M, r, i, order: _five_ndc(r, i, i['mi']), trials=2, rtol=1e-6, atol=1e-8)
