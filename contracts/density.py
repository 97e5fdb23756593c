"""Density approximations (C20), Gaussian-sum methods (C21), Ritz vectors (C23)"""
from .base import Contract
from . import gens
from .one_dim2 import PD
from .utils_c import U, BELL, HERM, _gs_in, _gs, LANCZOS, _lz_in, _cb_sym, _cbell_callee


def _call(M, ip, f, *a):
    return ip.call(f, list(a))


# ------------------------------------------------------------------ Gram--Charlier

def _gc_in(G):
    s = G.size('s', lo=2, conc=(2, 3, 4, 5, 6))
    m = G.size('m', lo=1, conc=(1, 3))
    return dict(cum=G.arr('cum', (s,), gen=gens.cumulants, pos_at=(1,)), x=G.arr('x', (m,)))


def _gc(M, i):
    k, x = i['cum'], i['x']
    s, m = M.shape(k, 0), M.shape(x, 0)
    mu, v = k[0], k[1]
    inp = M.tab(s, lambda j: M.ite(M.lt(j, 2), 0, k[j]))

    def bell(j):
        if M.conc:
            return _cbell_callee(M, dict(n=j, xs=inp))
        return _cb_sym(M, j, inp)
    base = lambda t: M.div(M.exp(M.div(-M.pow(t - mu, 2), 2 * v)), M.sqrt(2 * M.pi * v))
    return M.tab(m, lambda a: base(x[a]) * M.S(0, s + 1, lambda j: M.div(bell(j), M.fact(j) * M.sqrt(M.pow(v, j)))
                                               * HERM(M, j, M.div(x[a] - mu, M.sqrt(v)))))


Contract('gram_charlier', 'C20', PD + 'gram_charlier', _gc_in, _gc, call=lambda i: ([i['cum']], {}),
         post=lambda M, ip, r, i: _call(M, ip, r, i['x']), conc_post=lambda M, r, i: _cc(r, i['x']), rtol=1e-6)


def _cc(f, *a):
    import jax.numpy as jnp
    return f(*[jnp.asarray(x) for x in a])


# ------------------------------------------------------------------ Legendre expansion

def _leg_in(G, default):
    s = G.size('s', lo=1, conc=(1, 2, 3, 4, 6))
    m = G.size('m', lo=1, conc=(1, 3))
    d = dict(rms=G.arr('rms', (s,), gen=gens.raw_moments), x=G.arr('x', (m,)))
    if not default:
        d['a'] = G.real('a', gen=gens.real_any)
        d['b'] = d['a'] + G.real('len', pos=True, gen=gens.real_pos)
    return d


def _legp(M, k, f):
    """coefficients of P_k applied to the sequence f"""
    return M.S(0, M.idiv(k, 2) + 1, lambda i: M.div(M.pow(-1, i) * M.fact(2 * k - 2 * i),
               M.pow(2, k) * M.fact(i) * M.fact(k - i) * M.fact(k - 2 * i)) * f(k - 2 * i))


def _leg(M, i, default):
    r, x = i['rms'], i['x']
    a, b = (-1, 1) if default else (i['a'], i['b'])
    s, m = M.shape(r, 0), M.shape(x, 0)
    um = M.tab(s, lambda k: M.S(0, k + 1, lambda j: M.comb(k, j) * M.pow(M.div(2, b - a), j)
                                * M.pow(M.div(-(a + b), b - a), k - j) * r[j]))
    u = lambda t: M.div(2 * t - (a + b), b - a)
    return M.tab(m, lambda c: M.div(2, b - a) * M.S(0, s, lambda k: M.div(2 * k + 1, 2) * _legp(M, k, lambda j: um[j])
                                                    * _legp(M, k, lambda j: M.pow(u(x[c]), j))))


Contract('legendre_poly_expansion', 'C20', PD + 'legendre_poly_expansion', _leg_in, _leg,
         call=lambda i, default: ([i['rms']] + ([] if default else [i['a'], i['b']]), {}),
         cases=[dict(default=False), dict(default=True)],
         post=lambda M, ip, r, i, default: _call(M, ip, r, i['x']), conc_post=lambda M, r, i, default: _cc(r, i['x']), rtol=1e-6)


# ------------------------------------------------------------------ cumulant generating function, saddle point

def _cgf_in(G):
    s = G.size('s', lo=1, conc=(1, 2, 4, 6))
    return dict(z=G.real('z', gen=lambda r, t: float(r.uniform(-0.3, 0.3))), ms=G.arr('ms', (s,), gen=gens.scaled_moments),
                mean=G.real('mean', gen=gens.real_any), scale=G.real('scale', pos=True, gen=gens.real_pos))


Contract('truncated_cumulant_generating_function', 'C20', PD + 'truncated_cumulant_generating_function', _cgf_in,
         lambda M, i: i['z'] * i['mean'] + M.log(M.S(M.shape(i['ms'], 0), lambda n: M.div(M.pow(i['z'] * i['scale'], n), M.fact(n)) * i['ms'][n])))


def _sp_in(G):
    """scaled moments; in every other trial the saddle equation is given a pair of complex roots a + bi, b small, which are
    nearer to the target than the real ones (the higher moments are solved for)"""
    import numpy as np
    import math
    rng = G.rng
    n = G.size('n', lo=2, conc=(2, 3, 4))
    mean, scale = gens.real_any(rng, G.trial), gens.real_pos(rng, G.trial)
    r = dict(sms=G.arr('sms', (2 * n,), gen=gens.scaled_moments), mean=mean, scale=scale, x=mean + scale * rng.normal(size=3))
    if G.trial % 2 and n > 2:
        for _ in range(200):
            sms = np.array(r['sms'])
            x = mean + scale * rng.normal()
            f = np.array([math.factorial(k) for k in range(2 * n)])
            u = (x - mean) / scale + 0.3 * rng.normal() + 1j * 10. ** rng.uniform(-4, -1.1)
            # sum_k c_k ((mean - x) u^k + scale k u^(k-1)) = 0, c = sms / k!
            co = np.array([(mean - x) * u ** k + (scale * k * u ** (k - 1) if k else 0.) for k in range(2 * n)]) / f
            a = np.stack([co[[3, 4]].real, co[[3, 4]].imag])
            b = -np.sum(np.delete(co * sms, [3, 4]))
            sms[[3, 4]] = np.linalg.solve(a, [b.real, b.imag])
            i = dict(sms=sms, mean=mean, scale=scale, x=np.array([x]))
            rt = np.roots(np.flip((mean - x) * sms / f + scale * np.append((sms / f * np.arange(2 * n))[1:], 0.)))
            rr = rt[np.abs(rt.imag) < 1e-8].real
            near = len(rr) and np.min(np.abs(rr - (x - mean) / scale)) > 1.5 * abs(u - (x - mean) / scale)
            if near and np.abs(sms).max() < 2000 and np.isfinite(_sp(None, i)).all():
                return dict(i, x=np.array([x, x, x]))
    return r


def _sp_sym(M, i):
    from engine.models import INF
    from engine.terms import app, sym
    c, mu, sc, xs = i['sms'], i['mean'], i['scale'], i['x']
    s = M.shape(c, 0)
    co = lambda k: M.div(c[k], M.fact(k))                       # P(u) = sum co_k u^k
    P = lambda u, d=0: M.S(s, lambda k: co(k) * M.pow(u, k - d) * ([1, k, k * (k - 1)][d]))

    def one(a):
        x = xs[a]
        # (mean - x) P(u) + scale P'(u), leading coefficient first
        q = M.tab(s, lambda j: (mu - x) * co(s - 1 - j) + M.ite(M.le(1, j), sc * (s - j) * co(s - j), 0))
        u = M.nearest_real_root(q, M.div(x - mu, sc), 1e-8)
        z = M.div(u, sc)
        p0, p1, p2 = P(u), P(u, 1), P(u, 2)
        K2 = sc * sc * (M.div(p2, p0) - M.div(p1, p0) * M.div(p1, p0))
        return M.div(M.exp(z * mu + M.log(p0) - z * x), M.sqrt(2 * M.pi * K2))
    return M.tab(M.shape(xs, 0), one)


def _sp(M, i):
    """saddle point s: K'(s) = x for K(z) = z mean + log P(z scale), nearest real root; density exp(K(s) - s x) / sqrt(2 pi K''(s))"""
    import numpy as np
    import math
    if M is not None and not M.conc:
        return _sp_sym(M, i)
    c = np.array([m / math.factorial(n) for n, m in enumerate(i['sms'])])
    P = np.polynomial.polynomial
    d1, d2 = P.polyder(c), P.polyder(c, 2) if len(c) > 2 else np.zeros(1)
    out = []
    for x in i['x']:
        mu, sc = i['mean'], i['scale']
        r = P.polyroots(np.trim_zeros(P.polyadd((mu - x) * c, sc * d1), 'b'))
        r = r[np.abs(r.imag) < 1e-8].real
        if not len(r):
            out.append(np.nan)
            continue
        u = r[np.argmin(np.abs(r - (x - mu) / sc))]
        p, q, q2 = P.polyval(u, c), P.polyval(u, d1), P.polyval(u, d2)
        K2 = sc ** 2 * (q2 * p - q * q) / p ** 2
        out.append(np.exp(u / sc * mu + np.log(p) - u / sc * x) / np.sqrt(2 * math.pi * K2))
    return np.array(out)


Contract('saddle_point', 'C20', PD + 'saddle_point',
         lambda G: dict(sms=G.arr('sms', (2 * G.size('n', lo=2, conc=(2, 3, 4)),), gen=gens.scaled_moments),
                        mean=G.real('mean', gen=gens.real_any), scale=G.real('scale', pos=True, gen=gens.real_pos),
                        x=G.arr('x', (G.size('m', lo=1),))), _sp, conc_inputs=_sp_in, trials=14, call=lambda i: ([i['sms'], i['mean'], i['scale']], {}),
         conc_post=lambda M, r, i: _cc(r, i['x']), post=lambda M, ip, r, i: _call(M, ip, r, i['x']), rtol=1e-4)


# ------------------------------------------------------------------ Gaussian-sum methods

def _gsm_in(G):
    d = _gs_in(G)
    d['x'] = G.arr('x', (G.size('m', lo=1, conc=(1, 3)),))
    d['key'] = G.key()
    d['ns'] = G.size('ns', lo=1, conc=(1, 4))
    return d


def _gsm(M, i):
    m, v, w, x = i['means'], i['variances'], i['weights'], i['x']
    n = M.shape(m, 0)
    c = M.choice(i['key'], n, i['ns'], w)
    z = M.normal(M.split(i['key'], 0), (i['ns'],))
    return (M.tab(M.shape(x, 0), lambda a: M.S(n, lambda k: w[k] * M.exp(M.n_logpdf(x[a], m[k], v[k])))),
            M.tab(i['ns'], lambda a: m[c[a]] + M.sqrt(v[c[a]]) * z[a]))


def _meth(M, ip, r, i):
    g = ip.models.getattr_
    return _call(M, ip, g(ip, r, 'pdf'), i['x']), _call(M, ip, g(ip, r, 'sampler'), i['key'], i['ns'])


Contract('GaussianSum1D.methods', 'C21', U + 'GaussianSum1D.new', _gsm_in, _gsm,
         call=lambda i: ([i['means'], i['variances'], i['weights'], i['N']], {}),
         post=_meth, conc_post=lambda M, r, i: (_cc(r.pdf, i['x']), r.sampler(i['key'], i['ns'])), jit=False)


# ------------------------------------------------------------------ Ritz

def _ritz_in(G, srt):
    d = _lz_in(G)
    d['v0'] = G.arr('u0', (M_n(d),), gen=gens.obs)
    return d


def M_n(d):
    return d['a'].shape[0]


def _ritz(M, i, srt):
    """Ritz vectors V Y diag(|v0| Y[0, :]) and Ritz values of the tridiagonal matrix of the Lanczos run"""
    a, v0, m = i['a'], i['v0'], i['m']
    n = M.shape(a, 0)
    nrm = M.sqrt(M.S(n, lambda k: M.pow(v0[k], 2)))
    vs, al, be = LANCZOS(M, a, M.tab(n, lambda k: M.div(v0[k], nrm)), m)
    T_ = M.tab((m, m), lambda r, c: M.ite(M.eq(r, c), al[r], 0) + M.ite(M.eq(r, c + 1), M.at(be, c), 0)
               + M.ite(M.eq(c, r + 1), M.at(be, r), 0))
    Y, lam = M.eigh(T_, srt)
    return M.tab((n, m), lambda r, j: M.S(m, lambda k: vs[r, k] * Y[k, j]) * Y[0, j] * nrm), lam


Contract('lanczos_ritz', 'C23', U + 'lanczos_ritz', _ritz_in, _ritz,
         call=lambda i, srt: ([i['a'], i['v0'], i['m']], dict(sort_eigenvalues=srt)), cases=[dict(srt=True), dict(srt=False)],
         rtol=1e-6)


def _vl_in(G):
    d = G.size('d', lo=1, conc=(1, 2))
    return dict(f=[G.fn(n, 'vec', out=(), gen=gens.scalar_of_vec) for n in ('f1', 'f2', 'f3')], x=G.arr('x', (d,)))


Contract('vmap_list_of_funcs', 'C10', U + 'vmap_list_of_funcs', _vl_in,
         lambda M, i: M.tab(3, lambda k: M.ite(M.eq(k, 0), i['f'][0](i['x']), M.ite(M.eq(k, 1), i['f'][1](i['x']), i['f'][2](i['x'])))),
         call=lambda i: ([i['f']], {}), post=lambda M, ip, r, i: _call(M, ip, r, i['x']), conc_post=lambda M, r, i: _cc(r, i['x']))


# ------------------------------------------------------------------ multidimensional Gaussian sums (C21)

def _gnd_in(G):
    n, d, z = G.size('n', lo=1, conc=(1, 2, 3)), G.size('d', lo=1, conc=(2, 1, 3)), G.size('z', lo=1, conc=(3, 1, 4))
    return dict(means=G.arr('means', (n, d)), covs=G.arr('covs', (n, d, d), symm=True, gen=lambda r, t, n, d, d2: gens.spd_seq(r, t, n, d, d2)),
                weights=G.arr('weights', (n,), pos=True, gen=gens.simplex, simplex=True), mi=G.arr('mi', (z, d), dt='i', np=True, nat=True, gen=gens.small_mindexs))


def _gnd(M, i):
    """mixture mean, covariance, raw and central moments of every listed multi-index"""
    m, c, w, mi = i['means'], i['covs'], i['weights'], i['mi']
    n, d, z = M.shape(m, 0), M.shape(m, 1), M.shape(mi, 0)
    mean = M.tab(d, lambda a: M.S(n, lambda k: w[k] * m[k, a]))
    cov = M.tab((d, d), lambda a, b: M.S(n, lambda k: w[k] * (c[k, a, b] + m[k, a] * m[k, b])) - mean[a] * mean[b])
    idx = lambda q: M.tab(d, lambda a: mi[q, a], 'i')
    cv = lambda k: M.tab((d, d), lambda a, b: c[k, a, b])
    rms = M.tab(z, lambda q: M.S(n, lambda k: w[k] * M.mvn(M.tab(d, lambda a: m[k, a]), cv(k), idx(q))))
    cms = M.tab(z, lambda q: M.S(n, lambda k: w[k] * M.mvn(M.tab(d, lambda a: m[k, a] - mean[a]), cv(k), idx(q))))
    return d, m, c, w, mean, cov, rms, cms


def _gnd_f(g):
    return tuple(g(f) for f in ('d', 'means', 'covs', 'weights', 'mean', 'cov', 'rms', 'cms'))


Contract('GaussianSumND.new', 'C21', U + 'GaussianSumND.new', _gnd_in, _gnd, real_call=lambda f, a, k, i: f(a[0], a[1], a[2], i['mi']),
         post=lambda M, ip, r, i: _gnd_f(lambda f: r.fields[f]), conc_post=lambda M, r, i: _gnd_f(lambda f: getattr(r, f)), jit=False, also=('C26',),
         rtol=1e-6, atol=1e-8, trials=4)


def _gndm_in(G):
    r = _gnd_in(G)
    r['x'] = G.arr('x', (r['means'].shape[1],), gen=lambda rng, t, d: rng.normal(size=d) * (1, 1, 400)[t % 3])
    r['key'] = G.key()
    r['ns'] = G.size('ns', lo=1, conc=(1, 4))
    return r


def _gndm(M, i):
    m, cv, w, x, ns = i['means'], i['covs'], i['weights'], i['x'], i['ns']
    n, d = M.shape(m, 0), M.shape(m, 1)
    lp = lambda k: M.gauss_logpdf(x, M.tab(d, lambda a: m[k, a]), M.tab((d, d), lambda a, b: cv[k, a, b]))
    pdf = M.S(n, lambda k: w[k] * M.exp(lp(k)))
    c = M.choice(i['key'], n, ns, w)
    z = M.normal(M.split(i['key'], 0), (ns, d))
    root = lambda q: M.chol(M.tab((d, d), lambda a, b: cv[c[q], a, b]))
    lpdf = M.log(pdf) if not M.conc else M.logsumexp([lp(k) + M.log(w[k]) for k in range(n)])       # the same real number
    return pdf, lpdf, M.tab((ns, d), lambda q, a: m[c[q], a] + M.S(d, lambda b: root(q)[a, b] * z[q, b]))


def _methn(M, ip, r, i):
    g = ip.models.getattr_
    return tuple(_call(M, ip, g(ip, r, k), i['x']) for k in ('pdf', 'logpdf')) + (_call(M, ip, g(ip, r, 'sampler'), i['key'], i['ns']),)


Contract('GaussianSumND.methods', 'C21', U + 'GaussianSumND.new', _gndm_in, _gndm, call=lambda i: ([i['means'], i['covs'], i['weights'], i['mi']], {}),
         real_call=lambda f, a, k, i: f(a[0], a[1], a[2], i['mi']), post=_methn,
         conc_post=lambda M, r, i: (_cc(r.pdf, i['x']), _cc(r.logpdf, i['x']), r.sampler(i['key'], i['ns'])), jit=False, trials=4)
