"""Contracts of mfs/one_dim: moment formulas, transition moments, filters (cms, scms), quadrature, Taylor, densities."""
from .base import Contract
from . import gens
from .one_dim import MO, FI, Q, MQ, _r2c

PD = 'mfs.one_dim.pdf_approximations:'


# ------------------------------------------------------------------ Gaussian moments (C09)

def _std(M, p):
    """E Z^p for Z ~ N(0, 1)"""
    h = M.idiv(p, 2)
    return M.ite(M.eq(M.mod(p, 2), 0), M.div(M.fact(p), M.pow(2, h) * M.fact(h)), 0)


Contract('raw_moment_of_standard_normal', 'C09', MO + 'raw_moment_of_standard_normal',
         lambda G: dict(p=G.size('p', lo=0, conc=(0, 1, 2, 3, 4, 5, 6, 8, 10, 13))), lambda M, i: _std(M, i['p']),
         callee=lambda M, e: _std(M, e['p']), trials=10, jit=False)


def _cn(M, v, p):
    h = M.idiv(p, 2)
    return M.ite(M.eq(M.mod(p, 2), 0), M.pow(v, h) * M.div(M.fact(p), M.pow(2, h) * M.fact(h)), 0)


Contract('central_moment_of_normal', 'C09', MO + 'central_moment_of_normal',
         lambda G: dict(v=G.real('v', pos=True, gen=gens.real_pos), p=G.size('p', lo=0, conc=(0, 1, 2, 3, 4, 5, 6, 8, 9))),
         lambda M, i: _cn(M, i['v'], i['p']), trials=10, lean=('Normal',))


def _rn(M, mean, v, p):
    return M.S(0, p + 1, lambda m: M.comb(p, m) * M.pow(mean, m) *
               M.ite(M.eq(M.mod(p - m, 2), 0), M.pow(v, M.idiv(p - m, 2)) * _std(M, p - m), 0))


Contract('raw_moment_of_normal', 'C09', MO + 'raw_moment_of_normal',
         lambda G: dict(mean=G.real('mean', gen=gens.real_any), v=G.real('v', pos=True, gen=gens.real_pos),
                        p=G.size('p', lo=0, conc=(0, 1, 2, 3, 4, 5, 6, 8, 9))),
         lambda M, i: _rn(M, i['mean'], i['v'], i['p']),
         callee=lambda M, e: _rn(M, e['mean'], e['variance'], e['p']), trials=10)


# ------------------------------------------------------------------ filters (C05)

def _fc_in(G, stable):
    n = G.size('n', lo=1, conc=(1, 2, 3, 4))
    T_ = G.size('T', lo=1, conc=(1, 2, 5))
    return dict(cond=G.fn('cond', 'outer', gen=gens.cond_central), cmean=G.fn('cmean', 'ew', gen=gens.cond_mean),
                pdf=G.fn('pdf', 'ew', pos=True, gen=gens.pdf),
                cms0=G.arr('cms0', (2 * n,), gen=gens.central_moments), mean0=G.real('mean0', gen=gens.real_any),
                ys=G.arr('ys', (T_,), gen=gens.obs))


def _cms_spec(M, i, stable):
    cond, cmean, pdf, cms0, ys = i['cond'], i['cmean'], i['pdf'], i['cms0'], i['ys']
    N2, T_ = M.shape(cms0, 0), M.shape(ys, 0)

    def step(k, st):
        cms, mean, nell = st
        w, x = MQ(M, cms, mean, 1, stable)
        n = M.shape(w, 0)
        mp = M.S(n, lambda q: w[q] * cmean.pt(x[q]))
        pred = M.tab(N2, lambda p: M.S(n, lambda q: w[q] * cond.pt(x[q], p, mp)))
        w, x = MQ(M, pred, mp, 1, stable)
        py = M.S(n, lambda q: w[q] * pdf.pt(ys[k], x[q]))
        mean = M.div(M.S(n, lambda q: w[q] * x[q] * pdf.pt(ys[k], x[q])), py)
        cms = M.tab(N2, lambda p: M.div(M.S(n, lambda q: w[q] * M.pow(x[q] - mean, p) * pdf.pt(ys[k], x[q])), py))
        return cms, mean, nell - M.log(py)
    at = M.recur(T_, (cms0, i['mean0'], M.pow(0, 1)), step)
    return M.tab(T_, lambda k: at(k + 1)[0]), M.tab(T_, lambda k: at(k + 1)[1]), at(T_)[2]


Contract('moment_filter_cms', 'C05', FI + 'moment_filter_cms', _fc_in, _cms_spec,
         call=lambda i, stable: ([i['cond'], i['cmean'], i['pdf'], i['cms0'], i['mean0'], i['ys']], dict(stable=stable)),
         cases=[dict(stable=False), dict(stable=True)])


def _fs_in(G, stable):
    n = G.size('n', lo=2, conc=(2, 3, 4))
    T_ = G.size('T', lo=1, conc=(1, 2, 5))
    return dict(cond=G.fn('cond', 'outer', gen=gens.cond_central),
                cmv=G.fn('cmv', 'ew', nres=2, gen=gens.cond_mean_var),
                pdf=G.fn('pdf', 'ew', pos=True, gen=gens.pdf),
                scms0=G.arr('scms0', (2 * n,), gen=gens.scaled_moments), mean0=G.real('mean0', gen=gens.real_any),
                scale0=G.real('scale0', pos=True, gen=gens.real_pos), ys=G.arr('ys', (T_,), gen=gens.obs))


def _scms_spec(M, i, stable):
    cond, cmv, pdf, s0, ys = i['cond'], i['cmv'], i['pdf'], i['scms0'], i['ys']
    N2, T_ = M.shape(s0, 0), M.shape(ys, 0)

    def step(k, st):
        sms, mean, scale, nell = st
        w, x = MQ(M, sms, mean, scale, stable)
        n = M.shape(w, 0)
        mp = M.S(n, lambda q: w[q] * cmv.pt(x[q])[0])
        sp = M.sqrt(M.S(n, lambda q: w[q] * cmv.pt(x[q])[1]))
        pred = M.tab(N2, lambda p: M.S(n, lambda q: w[q] * cond.pt(x[q], p, mp, sp)))
        w, x = MQ(M, pred, mp, sp, stable)
        py = M.S(n, lambda q: w[q] * pdf.pt(ys[k], x[q]))
        mean = M.div(M.S(n, lambda q: w[q] * x[q] * pdf.pt(ys[k], x[q])), py)
        scale = M.sqrt(M.div(M.S(n, lambda q: w[q] * M.pow(x[q] - mean, 2) * pdf.pt(ys[k], x[q])), py))
        sms = M.tab(N2, lambda p: M.div(M.S(n, lambda q: w[q] * M.pow(M.div(x[q] - mean, scale), p)
                                            * pdf.pt(ys[k], x[q])), py))
        return sms, mean, scale, nell - M.log(py)
    at = M.recur(T_, (s0, i['mean0'], i['scale0'], M.pow(0, 1)), step)
    return tuple(M.tab(T_, lambda k, r=r: at(k + 1)[r]) for r in range(3)) + (at(T_)[3],)


Contract('moment_filter_scms', 'C05', FI + 'moment_filter_scms', _fs_in, _scms_spec,
         call=lambda i, stable: ([i['cond'], i['cmv'], i['pdf'], i['scms0'], i['mean0'], i['scale0'], i['ys']],
                                 dict(stable=stable)),
         cases=[dict(stable=False), dict(stable=True)])


def _stable_check(rng, trial, real):
    """conditional moments with a negative variance: the predicted Hankel matrix is indefinite, which stable=True completes"""
    import jax.numpy as jnp
    import numpy as np
    kind = ('rms', 'cms', 'scms')[trial % 3]
    c = gens.cond_raw(rng, trial, v=-1.6)(jnp) if kind == 'rms' else gens._central(0.8, 0.1, -1.6)(jnp)
    pdf = lambda y, x: 0.2 + 1. / (1. + (y - x) ** 2)
    cm = lambda x: 0.8 * jnp.sin(x) + 0.1
    m0, ys = jnp.array([1., 0., 1., 0.]), jnp.asarray(rng.normal(size=1))
    args = dict(rms=[c, pdf, m0, ys], cms=[c, cm, pdf, m0, 0.2, ys],
                scms=[c, lambda x: (cm(x), 0. * x + 0.3), pdf, m0, 0.2, 1.1, ys])[kind]
    r = real(FI + 'moment_filter_' + kind)(*args, stable=True)
    if not all(np.all(np.isfinite(np.asarray(v))) for v in r):
        return [f'moment_filter_{kind}(stable=True) on an indefinite predicted Hankel matrix: {r!r}']


_st = Contract('moment_filter.stable', 'C05', FI + 'moment_filter_rms', None, None, prove=False, trials=3,
               note='bounded: stable=True reaches both quadratures of a step (next to the proof), replayed on one indefinite prediction')
_st.check = _stable_check



# ------------------------------------------------------------------ the quadrature itself (C03)

Contract('hankel_indices', 'C03', Q + 'hankel_indices', lambda G: dict(n=G.size('n', lo=1, conc=(1, 2, 3, 6))),
         lambda M, i: (M.tab((i['n'], i['n']), lambda a, b: a + b, 'i'), M.tab((i['n'], i['n']), lambda a, b: a + b + 1, 'i')),
         callee=lambda M, e: (M.tab((e['n'], e['n']), lambda a, b: a + b, 'i'),
                              M.tab((e['n'], e['n']), lambda a, b: a + b + 1, 'i')), jit=False)


def ldlchol_callee(M, e):
    from engine.terms import app, ite, le, ZERO
    from engine.values import tab
    A = e['mat']
    if e['eps'] is not None:
        from engine.nf import Undecided
        raise Undecided('ldl_chol with explicit eps')
    L = M.ip.models.sym_lam(M.ip, A)
    return tab(A.shape, lambda i, j: ite(le(j, i), app('ldlchol', L, i, j), ZERO))


def _mq_spec(M, i, ldl, sort):
    """K = L^-1 H L^-T with L the chosen factor of the Gram matrix; weights = squared first components of the
    eigenvectors of K, nodes = scale * eigenvalues + mean"""
    ms = i['ms']
    if M.conc:
        return gens.mq_conc(M, ms, i['mean'], i['scale'], ldl, sort)
    n = M.idiv(M.shape(ms, 0), 2)
    Gm = M.tab((n, n), lambda a, b: ms[a + b])
    H = M.tab((n, n), lambda a, b: ms[a + b + 1])
    L = ldlchol_callee(M, dict(mat=Gm, eps=None)) if ldl else M.chol(Gm)
    Li = M.triinv(L)
    K = M.mm(M.mm(Li, H), M.tr(Li))
    V, lam = M.eigh(K, sort)
    return M.tab(n, lambda a: M.pow(V[0, a], 2)), M.tab(n, lambda a: i['scale'] * lam[a] + i['mean'])


Contract('moment_quadrature', 'C03', Q + 'moment_quadrature',
         lambda G, ldl, sort: dict(ms=G.arr('ms', (2 * G.size('n', lo=1, conc=(1, 2, 3, 4, 5)),), gen=gens.raw_moments),
                                   mean=G.real('mean', gen=gens.real_any), scale=G.real('scale', pos=True, gen=gens.real_pos)),
         _mq_spec, call=lambda i, ldl, sort: ([i['ms'], i['mean'], i['scale']], dict(sort_nodes=sort, ldl=ldl)),
         cases=[dict(ldl=False, sort=True), dict(ldl=False, sort=False), dict(ldl=True, sort=True), dict(ldl=True, sort=False)],
         rtol=1e-6, atol=1e-7, lean=('Gauss',))


# ------------------------------------------------------------------ characteristic functions

def _cis(M, t):
    return M.cis(t)


def _cf_in(G):
    n = G.size('n', lo=1, conc=(1, 2, 3, 4))
    return dict(z=G.real('z', gen=gens.real_any), ms=G.arr('ms', (2 * n,), gen=gens.raw_moments),
                mean=G.real('mean', gen=gens.real_any), scale=G.real('scale', pos=True, gen=gens.real_pos))


def _cf(M, i):
    w, x = MQ(M, i['ms'], i['mean'], i['scale'], False)
    return M.S(M.shape(w, 0), lambda q: w[q] * M.cis(i['z'] * x[q]))


Contract('characteristic_fn', 'C08', MO + 'characteristic_fn', _cf_in, _cf)


def _cfp_in(G):
    n = G.size('n', lo=2, conc=(2, 3, 7))
    return dict(z=G.real('z', gen=gens.real_any), ps=G.arr('ps', (n,), gen=gens.pos_arr), xs=G.arr('xs', (n,), gen=gens.incr))


def _cfp(M, i):
    z, ps, xs = i['z'], i['ps'], i['xs']
    n = M.shape(ps, 0)
    return M.S(0, n - 1, lambda k: M.div((xs[k + 1] - xs[k]) * (M.cis(z * xs[k + 1]) * ps[k + 1] + M.cis(z * xs[k]) * ps[k]), 2))


Contract('characteristic_from_pdf', 'C08', MO + 'characteristic_from_pdf', _cfp_in, _cfp)


def _if_in(G):
    n = G.size('n', lo=2, conc=(2, 3, 7))
    return dict(x=G.real('x', gen=gens.real_any), re=G.arr('cre', (n,), gen=gens.obs), im=G.arr('cim', (n,), gen=gens.obs),
                zs=G.arr('zs', (n,), gen=gens.incr))


def _if_call(i):
    r, m = i['re'], i['im']
    if not hasattr(r, 'lam'):
        return [i['x'], r + 1j * m, i['zs']], {}
    from engine.values import tab
    from engine.nf import IMAG
    from engine.terms import add, mul
    return [i['x'], tab(r.shape, lambda k: add(r.at(k), mul(IMAG, m.at(k))), 'c'), i['zs']], {}


def _ift(M, i):
    """p(x) = 1/(2 pi) * trapezoidal rule of Re(exp(-i x z) phi(z))"""
    x, c, d, z = i['x'], i['re'], i['im'], i['zs']
    n = M.shape(z, 0)
    g = lambda k: M.cos(x * z[k]) * c[k] + M.sin(x * z[k]) * d[k]
    return M.div(M.S(0, n - 1, lambda k: M.div((z[k + 1] - z[k]) * (g(k + 1) + g(k)), 2)), 2 * M.pi)


Contract('inverse_fourier', 'C20', PD + 'inverse_fourier', _if_in, _ift, call=_if_call)


# ------------------------------------------------------------------ Taylor quadrature (C25)

def _tq_in(G, order):
    n = G.size('order', lo=0) if order is None else order
    return dict(f=G.fn('f', 'ew', gen=gens.exp2 if order is not None and order > 12 else gens.smooth2), cms=G.arr('cms', (n + 1,), gen=gens.central_moments),
                mean=G.real('mean', gen=gens.real_any), order=n, op=G.real('op', gen=gens.real_any))


def _tq(M, i, order):
    f, c, m = i['f'], i['cms'], i['mean']
    # the zeroth moment of a probability is one
    if order is None:
        return f.pt(m, i['op']) + M.S(i['order'], lambda r: M.div(M.dern(f, m, i['op'], r + 1) * c[r + 1], M.fact(r + 1)))
    return f.pt(m, i['op']) + sum([M.div(M.dern(f, m, i['op'], r) * c[r], M.fact(r)) for r in range(1, order + 1)])


Contract('taylor_quadrature', 'C25', Q + 'taylor_quadrature', _tq_in, _tq,
         call=lambda i, order: ([i['f'], i['cms'], i['mean'], i['order'], i['op']], {}), rtol=1e-6,
         cases=[dict(order=None)] + [dict(order=k) for k in range(5)], conc_cases=[dict(order=k) for k in (*range(5), 7, 23)], trials=2)


# ------------------------------------------------------------------ transition moments (C10)

def _ip_in(G):
    m = G.size('m', lo=1, conc=(1, 3))
    return dict(x=G.arr('x', (m,), gen=gens.pts0), n=G.size('n', lo=0, conc=(0, 1, 2, 3, 5)), t=G.arr('t', (m,)))


def _ip_jvp(M, i):
    """the directional derivative of x^n: n x^(n-1) t, and 0 for n = 0"""
    x, n, t = i['x'], i['n'], i['t']
    m = M.shape(x, 0)
    return (M.tab(m, lambda a: M.pow(x[a], n)), M.tab(m, lambda a: M.ite(M.eq(n, 0), 0, n * M.pow(x[a], M.max(n - 1, 0)) * t[a])))


Contract('integer_power', 'C10', 'mfs.utils:integer_power', _ip_in, lambda M, i: _ip_jvp(M, i)[0], call=lambda i: ([i['x'], i['n']], {}), optional=True, jit=False)
Contract('integer_power_jvp', 'C10', 'mfs.utils:integer_power_jvp', _ip_in, _ip_jvp, call=lambda i: ([(i['x'], i['n']), (i['t'], None)], {}), optional=True, jit=False)


def _euler_in(G):
    N = G.size('N', lo=1, conc=(1, 2, 3))
    m = G.size('m', lo=1, conc=(1, 3))
    return dict(drift=G.fn('drift', 'ew', gen=gens.drift1), disp=G.fn('disp', 'ew', pos=True, gen=gens.disp1),
                dt=G.real('dt', pos=True, gen=gens.dt), N=N, x=G.arr('x', (m,), gen=gens.pts0),
                mean=G.real('mean', gen=gens.real_any), scale=G.real('scale', pos=True, gen=gens.real_pos))


def _euler(M, i):
    x, dt = i['x'], i['dt']
    m, N2 = M.shape(x, 0), 2 * i['N']
    mu = lambda a: x[a] + i['drift'].pt(x[a]) * dt
    v = lambda a: M.pow(i['disp'].pt(x[a]), 2) * dt
    return (M.tab((m, N2), lambda a, n: _rn(M, mu(a), v(a), n)),
            M.tab((m, N2), lambda a, n: _rn(M, mu(a) - i['mean'], v(a), n)),
            M.tab((m, N2), lambda a, n: M.div(_rn(M, mu(a) - i['mean'], v(a), n), M.pow(i['scale'], n))),
            M.tab(m, mu), (M.tab(m, mu), M.tab(m, v)))


def _five_sym(M, ip, r, i):
    """calls the five returned functions on the test inputs (symbolic)"""
    ns = M.tab(2 * i['N'], lambda k: k, 'i')
    x = i['x']
    return (ip.call(r[0], [x, ns]), ip.call(r[1], [x, ns, i['mean']]), ip.call(r[2], [x, ns, i['mean'], i['scale']]),
            ip.call(r[3], [x]), ip.call(r[4], [x]))


def _five_conc(M, r, i):
    import jax.numpy as jnp
    ns = jnp.arange(2 * i['N'])
    x = jnp.asarray(i['x'])
    import jax
    r = [jax.jit(f) for f in r]
    return (r[0](x, ns), r[1](x, ns, i['mean']), r[2](x, ns, i['mean'], i['scale']), r[3](x), r[4](x))


Contract('sde_cond_moments_euler', 'C10', MO + 'sde_cond_moments_euler', _euler_in, _euler,
         call=lambda i: ([i['drift'], i['disp'], i['dt'], i['N']], {}),
         post=lambda M, ip, r, i: _five_sym(M, ip, r, i), conc_post=lambda M, r, i: _five_conc(M, r, i))


def _tme_in(G, order):
    d = _euler_in(G)
    d['order'] = G.size('order', lo=1) if order is None else order
    return d


def _tmen(M, i, order):
    order = i['order']
    x, N2 = i['x'], 2 * i['N']
    m = M.shape(x, 0)
    mv = lambda a: M.tme1(x[a], i['dt'], i['drift'], i['disp'], order)
    mean = lambda a: M.tme1_mean(x[a], i['dt'], i['drift'], i['disp'], order)
    return (M.tab((m, N2), lambda a, n: _rn(M, mv(a)[0], mv(a)[1], n)),
            M.tab((m, N2), lambda a, n: _rn(M, mv(a)[0] - i['mean'], mv(a)[1], n)),
            M.tab((m, N2), lambda a, n: M.div(_rn(M, mv(a)[0] - i['mean'], mv(a)[1], n), M.pow(i['scale'], n))),
            M.tab(m, mean), (M.tab(m, lambda a: mv(a)[0]), M.tab(m, lambda a: mv(a)[1])))


Contract('sde_cond_moments_tme_normal', 'C10', MO + 'sde_cond_moments_tme_normal', _tme_in, _tmen,
         call=lambda i, order: ([i['drift'], i['disp'], i['dt'], i['order'], i['N']], {}),
         cases=[dict(order=None)], conc_cases=[dict(order=1), dict(order=2), dict(order=3)], trials=2,
         post=lambda M, ip, r, i, order: _five_sym(M, ip, r, i), conc_post=lambda M, r, i, order: _five_conc(M, r, i))


def _tme(M, i, order):
    order = i['order']
    x, N2 = i['x'], 2 * i['N']
    m = M.shape(x, 0)
    E = lambda a, n, mu=0, sc=1: M.tme1_exp(x[a], i['dt'], i['drift'], i['disp'], order, n, mu, sc)
    mv = lambda a: M.tme1(x[a], i['dt'], i['drift'], i['disp'], order)
    mu, sc = i['mean'], i['scale']
    return (M.tab((m, N2), lambda a, n: E(a, n)),
            M.tab((m, N2), lambda a, n: E(a, n, mu)),
            M.tab((m, N2), lambda a, n: E(a, n, mu, sc)),
            M.tab(m, lambda a: E(a, 1)), (M.tab(m, lambda a: mv(a)[0]), M.tab(m, lambda a: mv(a)[1])))


Contract('sde_cond_moments_tme', 'C10', MO + 'sde_cond_moments_tme', _tme_in, _tme,
         call=lambda i, order: ([i['drift'], i['disp'], i['dt'], i['order']], {}),
         cases=[dict(order=None)], conc_cases=[dict(order=1), dict(order=2), dict(order=3)], trials=2,
         post=lambda M, ip, r, i, order: _five_sym(M, ip, r, i), conc_post=lambda M, r, i, order: _five_conc(M, r, i))
