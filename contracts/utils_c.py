"""Contracts of mfs/utils.py"""
from .base import Contract
from . import gens
from .one_dim2 import _rn, ldlchol_callee

U = 'mfs.utils:'


# ------------------------------------------------------------------ LDL (C11)

def _ldl_rec(M, A):
    """Column-by-column LDL recursion: at(j) is the state after the columns < j+1 are final"""
    n = M.shape(A, 0)
    l0 = M.tab((n, n), lambda i, k: M.ite(M.eq(i, k), M.ite(M.lt(0, 1), 1, 0), M.ite(M.and_(M.eq(k, 0), M.lt(0, i)), M.div(A[i, 0], A[0, 0]), 0)))
    d0 = M.tab(n, lambda i: A[0, 0])

    def step(t, st):
        l, d = st
        j = t + 1
        dj = A[j, j] - M.S(0, j, lambda k: l[j, k] * l[j, k] * d[k])
        d2 = M.tab(n, lambda i: M.ite(M.eq(i, j), dj, d[i]))
        l2 = M.tab((n, n), lambda i, c: M.ite(M.and_(M.eq(c, j), M.lt(j, i)),
                                              M.div(A[i, j] - M.S(0, j, lambda k: l[i, k] * l[j, k] * d[k]), dj), l[i, c]))
        return l2, d2
    return M.recur(n - 1, (l0, d0), step)(n - 1)


def _sqm(G, gen):
    n = G.size('n', lo=1, conc=(1, 2, 3, 4, 5))
    return dict(mat=G.arr('A', (n, n), symm=True, gen=gen))


def _ldl_callee(M, e):
    from engine.terms import app, ite, lt, eq, ONE, ZERO
    from engine.values import tab
    A = e['mat']
    L = M.ip.models.sym_lam(M.ip, A)
    n = A.shape[0]
    return (tab((n, n), lambda i, j: ite(eq(i, j), ONE, ite(lt(j, i), app('ldlL', L, i, j), ZERO))),
            tab((n,), lambda i: app('ldlD', L, i)))


Contract('ldl', 'C11', U + 'ldl', lambda G: _sqm(G, gens.sym_pivots), lambda M, i: _ldl_rec(M, i['mat']),
         callee=_ldl_callee, rtol=1e-6, lean=('LDL',))


def _ldlchol(M, A, eps):
    n = M.shape(A, 0)
    if M.conc:
        l, d = _ldl_rec(M, A)
    else:
        l, d = _ldl_callee(M, dict(mat=A))
    if eps is None:
        eps = M.div(M.sqrt(M.S(n, lambda a: M.S(n, lambda b: M.pow(A[a, b], 2)))), 10 ** 8)
    return M.tab((n, n), lambda i, j: l[i, j] * M.ite(M.lt(d[j], 0), eps, M.sqrt(M.max(d[j], 0))))


def _ldlchol_sym(M, A, eps):
    n = M.shape(A, 0)
    if M.conc:
        return _ldlchol(M, A, eps)
    l, d = _ldl_callee(M, dict(mat=A))
    if eps is None:
        eps = M.div(M.sqrt(M.S(n, lambda a: M.S(n, lambda b: M.pow(A[a, b], 2)))), 10 ** 8)
    return M.tab((n, n), lambda i, j: l[i, j] * M.ite(M.lt(d[j], 0), eps, M.sqrt(d[j])))


def _lc_in(G, eps):
    d = _sqm(G, gens.sym_pivots)
    if eps:
        d['eps'] = G.real('eps', pos=True, gen=gens.real_pos)
    return d


Contract('ldl_chol', 'C11', U + 'ldl_chol', _lc_in, lambda M, i, eps: _ldlchol_sym(M, i['mat'], i.get('eps')),
         cases=[dict(eps=False), dict(eps=True)], callee=ldlchol_callee, rtol=1e-6)


# ------------------------------------------------------------------ Bell, Hermite (C19)

def _xs_trunc(xs, m):
    from engine.terms import lam, fresh, lift
    v = fresh('b', 'I', 0, m)
    if isinstance(xs, (list, tuple)):
        raise TypeError('list argument')
    return lam((v,), (lift(m),), xs.at(v))


def _bell_callee(M, e):
    from engine.terms import app, sub, add, ONE, ite, lt, eq, and_, or_, ZERO, le
    from engine.values import toT
    from engine import nf as NF
    n, k = toT(e['n']), toT(e['k'])
    m = NF.canon(add(sub(n, k), ONE))
    return ite(lt(n, k), ZERO, ite(eq(k, ZERO), ite(eq(n, ZERO), ONE, ZERO), app('bell', n, k, _xs_trunc(e['xs'], m))))


def bell_conc(n, k, xs):
    import math
    if n == 0 and k == 0:
        return 1.
    if n == 0 or k == 0 or n < k:
        return 0.
    return sum(math.comb(n - 1, i - 1) * xs[i - 1] * bell_conc(n - i, k - 1, xs) for i in range(1, n - k + 2))


def BELL(M, n, k, xs):
    return bell_conc(n, k, xs) if M.conc else _bell_callee(M, dict(n=n, k=k, xs=xs))


def _bell_in(G):
    k = G.size('k', lo=0, conc=(0, 1, 2, 3, 1, 2, 4))
    n = k + G.size('e', lo=0, conc=(0, 1, 2, 3, 4))
    xs = G.arr('xs', (n - k + 1,))
    return dict(n=n, k=k, xs=[float(v) for v in xs] if G.conc and G.trial % 2 else xs)


def _bell_spec(M, i):
    n, k, xs = i['n'], i['k'], i['xs']
    if M.conc:
        return bell_conc(n, k, xs)
    rec = M.S(1, n - k + 2, lambda j: M.comb(n - 1, j - 1) * xs[j - 1] * BELL(M, n - j, k - 1, xs))
    return M.ite(M.and_(M.eq(n, 0), M.eq(k, 0)), 1, M.ite(M.or_(M.eq(n, 0), M.eq(k, 0)), 0, rec))


Contract('partial_bell', 'C19', U + 'partial_bell', _bell_in, _bell_spec, recursive=True, callee=_bell_callee, trials=10)


def _cbell_callee(M, e):
    n, xs = e['n'], e['xs']
    return M.ite(M.eq(n, 0), 1, M.S(1, n + 1, lambda k: BELL(M, n, k, xs))) if M.conc else _cb_sym(M, n, xs)


def _cb_sym(M, n, xs):
    from engine.values import toT
    n = toT(n)
    return M.ite(M.eq(n, 0), 1, M.S(1, n + 1, lambda k: BELL(M, n, k, xs)))


def _cb_in(G):
    n = G.size('n', lo=0, conc=(0, 1, 2, 3, 4, 5, 6))
    xs = G.arr('xs', (n,))
    return dict(n=n, xs=[float(v) for v in xs] if G.conc and G.trial % 2 else xs)


Contract('complete_bell', 'C19', U + 'complete_bell', _cb_in, lambda M, i: _cbell_callee(M, i), callee=_cbell_callee, trials=7)


def herm_conc(n, x):
    a, b = 1., x
    for k in range(1, n + 1):
        a, b = b, x * b - k * a
    return a


def _herm_callee(M, e):
    from engine.terms import app, ite, eq, ONE, ZERO
    from engine.values import toT
    n, x = toT(e['n']), toT(e['x'])
    return ite(eq(n, ZERO), ONE, ite(eq(n, ONE), x, app('herm', n, x)))


def HERM(M, n, x):
    return herm_conc(n, x) if M.conc else _herm_callee(M, dict(n=n, x=x))


def _herm_spec(M, i):
    n, x = i['n'], i['x']
    if M.conc:
        return herm_conc(n, x)
    def up1():           # the pair (He_k, He_{k+1}) built from below, n - 1 steps
        return M.ite(M.eq(n, 0), 1, M.recur(n - 1, (1 + 0 * x, x), lambda k, c: (c[1], x * c[1] - (k + 1) * c[0]))(n - 1)[1])

    def up():            # n steps
        return M.recur(n, (1 + 0 * x, x), lambda k, c: (c[1], x * c[1] - (k + 1) * c[0]))(n)[0]
    # forward and backward evaluation of the three-term recurrence: lean/Hermite.lean
    return M.alt(lambda: M.ite(M.eq(n, 0), 1, M.ite(M.eq(n, 1), x, x * HERM(M, n - 1, x) - (n - 1) * HERM(M, n - 2, x))), up1, up)


Contract('hermite_probabilist', 'C19', U + 'hermite_probabilist',
         lambda G: dict(n=G.size('n', lo=0, conc=(0, 1, 2, 3, 4, 5, 6)), x=G.real('x', gen=gens.real_any)),
         _herm_spec, recursive=True, callee=_herm_callee, trials=8, lean=('Hermite',))

# gamma, factorial, binom are thin wrappers over lgamma
Contract('utils_factorial', 'C19', U + 'factorial', lambda G: dict(n=G.real('n', pos=True, gen=lambda r, t: float(t % 23))),
         lambda M, i: M.gamma(i['n'] + 1), trials=8, rtol=1e-9)
Contract('utils_gamma', 'C19', U + 'gamma', lambda G: dict(n=G.real('n', pos=True, gen=lambda r, t: float(t % 23) + 0.5)),
         lambda M, i: M.gamma(i['n']), trials=8, rtol=1e-9)


def _binom_in(G):
    k = G.real('k', pos=True, gen=lambda r, t: float(t % 3))
    return dict(n=k + G.real('e', pos=True, gen=lambda r, t: float(t % 37 // 2)), k=k)


Contract('utils_binom', 'C19', U + 'binom', _binom_in,
         lambda M, i: M.div(M.gamma(i['n'] + 1), M.gamma(i['k'] + 1) * M.gamma(i['n'] - i['k'] + 1)), trials=8, rtol=1e-9)


# ------------------------------------------------------------------ cumulants (C08)

def _cum_in(G, zero):
    s = G.size('s', lo=2, conc=(2, 3, 4, 5, 6, 7))
    return dict(sms=G.arr('sms', (s,), gen=gens.raw_moments if zero else gens.scaled_moments),
                mean=0. if zero else G.real('mean', pos=True, gen=gens.real_pos), scale=G.real('scale', pos=True, gen=gens.real_pos))


def _cum(M, i, zero):
    """k_1 = mean; k_n = sum_k (-1)^(k-1) (k-1)! B_{n,k}(c_1, c_2, ...), c_j = scale^j s_j"""
    sms, scale = i['sms'], i['scale']
    s = M.shape(sms, 0)
    c = M.tab(s - 1, lambda j: sms[j + 1] * M.pow(scale, j + 1))
    return M.tab(s - 1, lambda j: M.ite(M.eq(j, 0), sms[1] if zero else i['mean'],
                                        M.S(1, j + 2, lambda k: M.pow(-1, k - 1) * M.fact(k - 1) * BELL(M, j + 1, k, c))))


Contract('sms_to_cumulants', 'C08', 'mfs.one_dim.moments:sms_to_cumulants', _cum_in, _cum,
         call=lambda i, zero: ([i['sms'], i['mean'], i['scale']], {}), cases=[dict(zero=False), dict(zero=True)], jit=False)


# ------------------------------------------------------------------ Lanczos (C23)

def _lz_in(G):
    n = G.size('n', lo=1, conc=(2, 3, 4, 5))
    m = G.size('m', lo=1, conc=(1, 2, 3))
    if G.conc:
        m = min(m, n)
    return dict(a=G.arr('A', (n, n), symm=True, gen=gens.sym_pivots), v0=G.arr('v0', (n,), gen=gens.unit_vec), m=m)


def _lz(M, a, v0, m):
    n = M.shape(a, 0)
    mv = lambda v: M.tab(n, lambda r: M.S(n, lambda k: a[r, k] * v[k]))
    dot = lambda u, v: M.S(n, lambda k: u[k] * v[k])
    wp = mv(v0)
    al0 = dot(wp, v0)
    w0 = M.tab(n, lambda r: wp[r] - al0 * v0[r])

    def step(k, st):
        v_, w, al, be = st
        beta = M.sqrt(dot(w, w))
        v = M.tab(n, lambda r: M.div(w[r], beta))
        wp = mv(v)
        alpha = dot(wp, v)
        return v, M.tab(n, lambda r: wp[r] - alpha * v[r] - beta * v_[r]), alpha, beta
    at = M.recur(m - 1, (v0, w0, al0, M.pow(0, 1)), step)
    return (M.tab((n, m), lambda r, j: at(j)[0][r]), M.tab(m, lambda j: at(j)[2]), M.tab(m - 1, lambda j: at(j + 1)[3]))


def _lz_callee(M, e):
    from engine.terms import app
    from engine.values import tab, toT
    from engine import nf as NF
    A, v0, m = e['a'], e['v0'], NF.canon(toT(e['m']))
    h = (M.ip.models.sym_lam(M.ip, A), NF.canon(v0.lam()), m)
    return (tab((A.shape[0], m), lambda r, j: app('lzV', *h, r, j)), tab((m,), lambda j: app('lzA', *h, j)),
            tab((m - 1,), lambda j: app('lzB', *h, j)))


def LANCZOS(M, a, v0, m):
    return _lz(M, a, v0, m) if M.conc else _lz_callee(M, dict(a=a, v0=v0, m=m))


Contract('lanczos', 'C23', U + 'lanczos', _lz_in, lambda M, i: _lz(M, i['a'], i['v0'], i['m']), rtol=1e-6,
         callee=_lz_callee)


# ------------------------------------------------------------------ LTI (C22)

def _lti_in(G):
    d, w = G.size('d', lo=1, conc=(1, 2, 3)), G.size('w', lo=1, conc=(1, 2))
    return dict(A=G.arr('A', (d, d)), B=G.arr('B', (d, w)), dt=G.real('dt', pos=True, gen=gens.dt))


def _lti(M, i):
    """Van Loan: F = expm(A dt); with expm([[A, BB'],[0, -A']] dt) = [[F, C],[0, F'^-1]], Cov = C F'"""
    A, B, dt = i['A'], i['B'], i['dt']
    d, w = M.shape(A, 0), M.shape(B, 1)
    F = M.expm(M.tab((d, d), lambda a, b: A[a, b] * dt))
    phi = M.tab((2 * d, 2 * d), lambda a, b: M.ite(M.lt(a, d), M.ite(M.lt(b, d), M.at(A, a, b) * dt,
                M.S(w, lambda k: M.at(B, a, k) * M.at(B, b - d, k)) * dt), M.ite(M.lt(b, d), 0, -M.at(A, b - d, a - d) * dt)))
    E = M.expm(phi)
    return F, M.tab((d, d), lambda a, b: M.S(d, lambda k: E[a, d + k] * F[b, k]))


Contract('discretise_lti_sde', 'C22', U + 'discretise_lti_sde', _lti_in, _lti)


# ------------------------------------------------------------------ simulate_sde (C22)

def _sim_in(G, diag):
    d, T_, S_ = G.size('d', lo=1, conc=(1, 2, 3)), G.size('T', lo=1, conc=(1, 2, 4)), G.size('steps', lo=1, conc=(1, 2, 3))
    return dict(mc=G.fn('mc', 'vec', out=((d,), (d, d)), nres=2, gen=gens.m_and_cov_diag if diag else gens.m_and_cov),
                x0=G.arr('x0', (d,)), dt=G.real('dt', pos=True, gen=gens.dt), T=T_, key=G.key(), steps=S_)


def _sim(M, i, diag):
    mc, x0, T_, S_ = i['mc'], i['x0'], i['T'], i['steps']
    d = M.shape(x0, 0)
    ddt = M.div(i['dt'], S_)
    z = M.normal(M.split(i['key'], 0), (T_, S_, d))

    def outer(t, x):
        def inner(s, x):
            m, c = mc(x, ddt)
            R = M.tab((d, d), lambda a, b: M.sqrt(c[a, b])) if diag else M.chol(c)
            return M.tab(d, lambda a: m[a] + M.S(d, lambda b: R[a, b] * z[t, s, b]))
        return M.recur(S_, x, inner)(S_)
    at = M.recur(T_, x0, outer)
    return M.tab(T_, lambda t: at(t + 1))


Contract('simulate_sde', 'C22', U + 'simulate_sde', _sim_in, _sim,
         call=lambda i, diag: ([i['mc'], i['x0'], i['dt'], i['T'], i['key']], dict(diagonal_cov=diag, integration_steps=i['steps'])),
         cases=[dict(diag=False), dict(diag=True)], jit=False)


# ------------------------------------------------------------------ posterior Cramer-Rao (C24)

def _pcr_in(G):
    T_, N, dx, dy = (G.size('T', lo=1, conc=(1, 2, 3)), G.size('N', lo=1, conc=(1, 3)), G.size('dx', lo=1, conc=(1, 2, 3)),
                     G.size('dy', lo=1, conc=(1, 2)))
    return dict(xs=G.arr('xs', (T_ + 1, N, dx)), ys=G.arr('ys', (T_, N, dy)), j0=G.spd('j0', dx),
                lt=G.fn('ltr', 'vec', out=(), gen=gens.logtrans), ll=G.fn('llk', 'vec', out=(), gen=gens.loglik))


def _pcr(M, i):
    xs, ys, lt, ll = i['xs'], i['ys'], i['lt'], i['ll']
    T_, N, dx = M.shape(ys, 0), M.shape(xs, 1), M.shape(xs, 2)

    def step(k, j):
        H11 = [M.hess2(lt, xs[k + 1, r], xs[k, r], 1, 1) for r in range(N)] if M.conc else None
        d11 = M.tab((dx, dx), lambda a, b: -M.div(M.S(N, lambda r: M.hess2(lt, xs[k + 1, r], xs[k, r], 1, 1)[a, b]), N))
        d12 = M.tab((dx, dx), lambda a, b: -M.div(M.S(N, lambda r: M.hess2(lt, xs[k + 1, r], xs[k, r], 1, 0)[a, b]), N))
        d22 = M.tab((dx, dx), lambda a, b: -M.div(M.S(N, lambda r: M.hess2(lt, xs[k + 1, r], xs[k, r], 0, 0)[a, b]
                                                      + M.hess2(ll, ys[k, r], xs[k + 1, r], 1, 1)[a, b]), N))
        W = M.inv(M.add(j, d11))
        return M.tab((dx, dx), lambda a, b: d22[a, b] - M.S(dx, lambda p: M.S(dx, lambda q: d12[p, a] * W[p, q] * d12[q, b])))
    at = M.recur(T_, i['j0'], step)
    return M.tab(T_, lambda k: at(k + 1))


Contract('posterior_cramer_rao', 'C24', U + 'posterior_cramer_rao', _pcr_in, _pcr, rtol=1e-6)


# ------------------------------------------------------------------ Gaussian sums (C21)

def _gs_in(G):
    n = G.size('n', lo=1, conc=(1, 2, 3))
    N = G.size('N', lo=1, conc=(1, 2, 3))
    return dict(means=G.arr('means', (n,)), variances=G.arr('variances', (n,), pos=True, gen=gens.pos_arr),
                weights=G.arr('weights', (n,), pos=True, gen=gens.simplex, simplex=True), N=N)


def _gs(M, i):
    m, v, w, N2 = i['means'], i['variances'], i['weights'], 2 * i['N']
    n = M.shape(m, 0)
    c = M.S(n, lambda k: m[k] * w[k])
    var = M.S(n, lambda k: w[k] * (v[k] + M.pow(m[k] - c, 2)))
    cms = M.tab(N2, lambda p: M.S(n, lambda k: w[k] * _rn(M, m[k] - c, v[k], p)))
    return dict(means=m, variances=v, weights=w, mean=c, variance=var,
                rms=M.tab(N2, lambda p: M.S(n, lambda k: w[k] * _rn(M, m[k], v[k], p))), cms=cms,
                scms=M.tab(N2, lambda p: M.div(cms[p], M.pow(M.sqrt(var), p))))


Contract('GaussianSum1D.new', 'C21', U + 'GaussianSum1D.new', _gs_in, _gs, jit=False)
