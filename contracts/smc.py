"""Contracts of resampling (C16), particle filters (C17), brute-force filter (C18), sigma-point rules (C15)"""
from .base import Contract, Abs
from . import gens
from .gfs import QU, MODES, sgps, fld, sg_pts, mv

RS = 'mfs.classical_filters_smoothers.resampling:'
SM = 'mfs.classical_filters_smoothers.smc:'
BF = 'mfs.classical_filters_smoothers.brute_force:'


# ------------------------------------------------------------------ resampling (C16)

def _rs_in(G):
    n = G.size('n', lo=1, conc=(1, 2, 3, 5, 8))
    return dict(weights=G.arr('weights', (n,), gen=gens.simplex_zeros, simplex=True), key=G.key())


def _cs(M, w):
    return M.tab(M.shape(w, 0), lambda j: M.S(0, j + 1, lambda r: w[r]))


def _pos(M, w, u):
    """n positions in [0, 1) -> ancestor indices by inversion of the cumulative weights"""
    n = M.shape(w, 0)
    cs = _cs(M, w)
    return M.tab(n, lambda i: M.min(M.ss(cs, u(i)), n - 1), 'i')


def _sysm(M, i):
    u = M.uniform(i['key'], ())
    n = M.shape(i['weights'], 0)
    return _pos(M, i['weights'], lambda k: M.div(k + u, n))


def _strat(M, i):
    n = M.shape(i['weights'], 0)
    u = M.uniform(i['key'], (n,))
    return _pos(M, i['weights'], lambda k: M.div(k + u[k], n))


def _multi(M, i):
    n = M.shape(i['weights'], 0)
    u = M.uniform(i['key'], (n + 1,))
    z = lambda k: M.S(0, k + 1, lambda r: -M.log(u[r]))
    return _pos(M, i['weights'], lambda k: M.div(z(k), z(n)))


for _n, _f in (('systematic', _sysm), ('stratified', _strat), ('multinomial', _multi)):
    Contract(_n, 'C16', RS + _n, _rs_in, lambda M, i, _f=_f: _f(M, i), trials=20, lean=('Resampling',))


def CR_def(M, samples, weights, ns, key):
    """inverse of the piecewise-linear interpolant of the mid-point cumulative weights, at stratified uniforms"""
    n = M.shape(samples, 0)
    idx = M.argsort(samples)
    xs, ws = M.tab(n, lambda k: M.at(samples, idx[k])), M.tab(n, lambda k: M.at(weights, idx[k]))
    cs = M.tab(n, lambda k: M.S(0, k + 1, lambda r: M.div(ws[r], 2)) + M.S(0, k, lambda r: M.div(ws[r], 2)))
    u = M.uniform(key, (ns,))
    return M.tab(ns, lambda k: M.interp(M.div(u[k] + k, ns), cs, xs))


CR = Abs('contres', RS + 'continuous_resampling', [('samples', 'a'), ('weights', 'a'), ('nsamples', 'a'), ('key', 'k')],
         lambda s, w, n, k: ((n,),), CR_def)


def _cr_in(G):
    n = G.size('n', lo=1, conc=(2, 3, 5, 8))
    return dict(samples=G.arr('samples', (n,)), weights=G.arr('weights', (n,), gen=gens.simplex, simplex=True), ns=G.size('ns', lo=1, conc=(1, 3, 6)),
                key=G.key())


Contract('continuous_resampling', 'C16', RS + 'continuous_resampling', _cr_in, lambda M, i: CR_def(M, *i.values()), abs=CR, trials=10)


# ------------------------------------------------------------------ particle filters (C17)

def _fns(G, n, dx):
    sh = (n,) if dx is None else (n, dx)
    return dict(ini=G.fn('ini', 'vec', out=sh, gen=gens.init_sampler),
                res=G.fn('res', 'vec', out=(n,), sort='I', dt='i', rng=n, gen=gens.resampler))


def _bf_in(G, conti):
    n, dy, T_ = G.size('n', lo=1, conc=(1, 3, 6)), G.size('dy', lo=1, conc=(1, 2)), G.size('T', lo=1, conc=(1, 2, 4))
    dx = None if conti else G.size('dx', lo=1, conc=(1, 2))
    d = _fns(G, n, dx)
    d.update(tr=G.fn('tr', 'vec', out=(n,) if conti else (n, dx), gen=gens.trans_sampler),
             pdf=G.fn('mpdf', 'vec', out=(n,), pos=True, gen=gens.part_pdf), ys=G.arr('ys', (T_, dy)), key=G.key(), n=n)
    return d


def _norm(M, w):
    n = M.shape(w, 0)
    return M.tab(n, lambda k: M.div(w[k], M.S(n, lambda r: w[r])))


def _pick(M, x, idx):
    n = M.shape(x, 0)
    return M.tab((n, M.shape(x, 1)), lambda k, a: M.at(x, idx[k], a))


def _bf(M, i, conti):
    ys, n, key = i['ys'], i['n'], i['key']
    T_ = M.shape(ys, 0)

    def step(k, st):
        x, nell = st
        kk = M.splitn(key, T_, k)
        x = i['tr'](x, kk)
        w = i['pdf'](ys[k], x)
        nell = nell - M.log(M.div(M.S(n, lambda r: w[r]), n))
        w = _norm(M, w)
        k2 = M.split(kk, 0)
        if conti:
            return CR(M, x, w, n, k2), nell
        return _pick(M, x, i['res'](w, k2)), nell
    at = M.recur(T_, (i['ini'](key, n), M.pow(0, 1)), step)
    return M.tab(T_, lambda k: at(k + 1)[0]), at(T_)[1]


Contract('bootstrap_filter', 'C17', SM + 'bootstrap_filter', _bf_in, _bf, cases=[dict(conti=False), dict(conti=True)],
         call=lambda i, conti: ([i['tr'], i['pdf'], i['ys'], i['ini'], i['key'], i['n'], i['res']], dict(conti_resampling=conti)),
         modes=MODES, jit=False)


def _pf_in(G):
    n, dx, dy, T_ = (G.size('n', lo=1, conc=(1, 3, 6)), G.size('dx', lo=1, conc=(1, 2)), G.size('dy', lo=1, conc=(1, 2)),
                     G.size('T', lo=1, conc=(1, 2, 4)))
    d = _fns(G, n, dx)
    d.update(prop=G.fn('prop', 'vec', out=(n, dx), gen=gens.prop_sampler), pden=G.fn('pden', 'vec', out=(n,), pos=True, gen=gens.pair_pdf3),
             tden=G.fn('tden', 'vec', out=(n,), pos=True, gen=gens.pair_pdf), pdf=G.fn('mpdf', 'vec', out=(n,), pos=True, gen=gens.part_pdf),
             ys=G.arr('ys', (T_, dy)), key=G.key(), n=n)
    return d


def _pf(M, i):
    ys, n, key = i['ys'], i['n'], i['key']
    T_ = M.shape(ys, 0)

    def step(k, anc):
        kk = M.splitn(key, T_, k)
        x = i['prop'](anc, ys[k], kk)
        a, b, c = i['pdf'](ys[k], x), i['tden'](x, anc), i['pden'](x, anc, ys[k])
        w = _norm(M, M.tab(n, lambda r: M.div(a[r] * b[r], c[r])))
        return _pick(M, x, i['res'](w, M.split(kk, 0)))
    at = M.recur(T_, i['ini'](key, n), step)
    return M.tab(T_, lambda k: at(k + 1))


Contract('particle_filter', 'C17', SM + 'particle_filter', _pf_in, _pf,
         call=lambda i: ([i['prop'], i['pden'], i['tden'], i['pdf'], i['ys'], i['ini'], i['key'], i['n'], i['res']], {}), jit=False)


# ------------------------------------------------------------------ brute force (C18)

def _bff_in(G, method):
    n, T_, st = G.size('n', lo=2, conc=(3, 4, 7)), G.size('T', lo=1, conc=(1, 2, 3)), G.size('steps', lo=1, conc=(1, 2, 3))
    return dict(drift=G.fn('drift', 'ew', gen=gens.drift1), disp=G.fn('disp', 'ew', pos=True, gen=gens.disp1),
                pdf=G.fn('pdf', 'ew', pos=True, gen=gens.pdf), ps=G.arr('ps', (n,), pos=True, gen=gens.pos_arr),
                xs=G.arr('xs', (n,), gen=gens.linsp), ys=G.arr('ys', (T_,)), dt=G.real('dt', pos=True, gen=gens.dt), steps=st)


def _trapz(M, f, xs):
    n = M.shape(xs, 0)
    return M.S(0, n - 1, lambda k: M.div((xs[k + 1] - xs[k]) * (f(k + 1) + f(k)), 2))


def _npdf(M, x, m, s):
    return M.div(M.exp(-M.div(M.pow(M.div(x - m, s), 2), 2)), s * M.sqrt(2 * M.pi))


def _grad1(M, p, h):
    n = M.shape(p, 0)
    return M.tab(n, lambda i: M.ite(M.eq(i, 0), M.div(p[1] - p[0], h), M.ite(M.eq(i, n - 1), M.div(p[n - 1] - p[n - 2], h),
                                    M.div(M.at(p, i + 1) - M.at(p, i - 1), 2 * h))))


def _bff(M, i, method):
    drift, disp, pdf, xs, ys = i['drift'], i['disp'], i['pdf'], i['xs'], i['ys']
    n, T_, st = M.shape(xs, 0), M.shape(ys, 0), i['steps']
    ddt = M.div(i['dt'], st)
    if method == 'kolmogorov':
        h = xs[1] - xs[0]
        d = lambda f, x, r: M.dern(f, x, None, r)

        def sub(k, p):
            """p + ddt * ( -(a p)' + (gamma p)'' / 2 ), derivatives of a and gamma = b^2 exact, of p by central differences"""
            p1 = _grad1(M, p, h)
            p2 = _grad1(M, p1, h)

            def at(c):
                x = xs[c]
                b, b1, b2 = disp.pt(x), d(disp, x, 1), d(disp, x, 2)
                g, g1, g2 = b * b, 2 * b * b1, 2 * b1 * b1 + 2 * b * b2
                return p[c] + ddt * (-(d(drift, x, 1) * p[c] + drift.pt(x) * p1[c]) + M.div(g2 * p[c] + 2 * g1 * p1[c] + g * p2[c], 2))
            return M.tab(n, at)
    else:
        if method == 'chapman-euler':
            mu = lambda r: xs[r] + drift.pt(xs[r]) * ddt
            sd = lambda r: disp.pt(xs[r]) * M.sqrt(ddt)
        else:
            o = int(method.split('-')[-1])
            mu = lambda r: M.tme1(xs[r], ddt, drift, disp, o)[0]
            sd = lambda r: M.sqrt(M.tme1(xs[r], ddt, drift, disp, o)[1])

        def sub(k, p):
            return M.tab(n, lambda a: _trapz(M, lambda r: _npdf(M, xs[a], mu(r), sd(r)) * p[r], xs))

    def step(k, p):
        p = M.recur(st, p, sub)(st)
        z = _trapz(M, lambda r: pdf.pt(ys[k], xs[r]) * p[r], xs)
        return M.tab(n, lambda a: M.div(pdf.pt(ys[k], xs[a]) * p[a], z))
    at = M.recur(T_, i['ps'], step)
    return M.tab(T_, lambda k: at(k + 1))


Contract('brute_force_filter', 'C18', BF + 'brute_force_filter', _bff_in, _bff,
         call=lambda i, method: ([i['drift'], i['disp'], i['pdf'], i['ps'], i['xs'], i['ys'], i['dt']],
                                 dict(integration_steps=i['steps'], pred_method=method)),
         cases=[dict(method=m) for m in ('kolmogorov', 'chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'chapman-tme-3', 'chapman-tme-12')],
         conc_cases=[dict(method=m) for m in ('kolmogorov', 'chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'chapman-tme-3')], jit=False, trials=4)
