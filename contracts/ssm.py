"""Contracts of the packaged test models (mfs/one_dim/ss_models.py, mfs/multi_dims/ss_models.py), property C26"""
from .base import Contract
from . import gens
from .utils_c import _gs
from .density import _gnd, _gnd_f, _cc, _call

O1 = 'mfs.one_dim.ss_models:'
OD = 'mfs.multi_dims.ss_models:'
HEAD = 3        # simulated steps compared in a replay (the trajectories are long)


def vals(M, xs):
    """a constant array given by (nested) numbers"""
    import fractions
    if M.conc:
        import numpy as np
        return np.array(xs, dtype=float)
    from engine.terms import const
    F = lambda v: const(fractions.Fraction(str(v)))
    if not isinstance(xs[0], (list, tuple)):
        def f(a):
            r = F(xs[-1])
            for j in range(len(xs) - 2, -1, -1):
                r = M.ite(M.eq(a, j), F(xs[j]), r)
            return r
        return M.tab(len(xs), f)
    rows = [vals(M, r) for r in xs]

    def g(a, *b):
        r = rows[-1][b]
        for j in range(len(xs) - 2, -1, -1):
            r = M.ite(M.eq(a, j), rows[j][b], r)
        return r
    return M.tab((len(xs),) + tuple(rows[0].shape), g)


def num(M, v):
    if M.conc:
        return float(v)
    import fractions
    from engine.terms import const
    return const(fractions.Fraction(str(v)))


def _m1_in(G):
    return dict(N=G.size('N', lo=1, conc=(1, 2, 4)), x=G.arr('x', (G.size('m', lo=1, conc=(3, 1)),)), p=G.real('p', pos=True, gen=gens.real_pos),
                y=G.pick('y', None if G.conc else _int(G, 'y'), lambda r, t: int(r.integers(0, 2))), x0=G.real('x0', gen=gens.real_any), key=G.key())


def _int(G, name):
    from engine.terms import sym
    return sym(name, 'I')


def _sim1(M, i, drift, T_, dt):
    """Euler-type simulation with the third-order TME mean and covariance, 100 sub-steps per step"""
    S_ = 100
    ddt = M.div(num(M, dt), S_)
    z = M.normal(M.split(i['key'], 0), (T_, S_, 1))
    disp = _one(M)

    def outer(t, x):
        def inner(s, x):
            m, c = M.tme1(x if M.conc else x[0], ddt, drift, disp, 3)
            r = m + M.sqrt(c) * z[t, s, 0]
            return r if M.conc else M.tab(1, lambda j: r)       # the state is a vector of length one
        return M.recur(S_, x, inner)(S_)
    if M.conc:
        at = M.recur(HEAD, float(i['x0']), outer)
        return T_, M.tab(HEAD, lambda t: at(t + 1))
    at = M.recur(T_, M.tab(1, lambda j: i['x0']), outer)
    return M.tab(T_, lambda t: at(t + 1)[0])


class _Poly:
    """a scalar function with its Taylor jet (for the TME oracle)"""

    def __init__(self, f):
        from harness.conc import CFn
        self.c = CFn(lambda xp: (lambda x: f(xp, x)), 'ew')

    def jet(self, x, K):
        return self.c.jet(x, K)


def _one(M):
    if M.conc:
        return _Poly(lambda xp, x: 1. + 0. * x)
    from engine.terms import ONE
    return lambda x: ONE


def _fun(M, f, sym):
    return _Poly(f) if M.conc else sym


def _gs1(M, i):
    r = _gs(M, dict(means=vals(M, [-0.5, 0.5]), variances=vals(M, [0.05, 0.05]), weights=vals(M, [0.5, 0.5]), N=i['N']))
    return tuple(r[k] for k in GS1)


GS1 = ('means', 'variances', 'weights', 'mean', 'variance', 'rms', 'cms', 'scms')


def _benes(M, i):
    x = i['x']
    m = M.shape(x, 0)
    dt = num(M, '0.01')
    lo = lambda u: M.div(1, 1 + M.exp(-M.pow(u, 3) / 5))
    th = _fun(M, lambda xp, u: xp.tanh(u), lambda u: M.tab(M.shape(u, 0), lambda k: _tanh(M, u[k])) if not M.conc else None)
    return (dt, 100, M.tab(100, lambda k: dt * (k + 1)), _gs1(M, i), M.tab(m, lambda k: _tanh(M, x[k])), 1, M.tab(m, lambda k: lo(x[k])),
            M.tab(m, lambda k: _bern(M, i['y'], lo(x[k]))), _sim1(M, i, th, 100, '0.01'))


def _tanh(M, u):
    if M.conc:
        import math
        return math.tanh(u)
    from engine.terms import app, lift
    return app('tanh', lift(u))


def _bern(M, y, p):
    if M.conc:
        return p if y == 1 else 1 - p
    from engine.terms import app, lift
    return app('bernpmf', lift(y), lift(p))


def _pois(M, y, lam):
    if M.conc:
        import math
        return math.exp(-lam) * lam ** y / math.factorial(y)
    from engine.terms import app, lift
    return app('poispmf', lift(y), lift(lam))


def _post1(M, ip, r, i, p=False):
    dt, T_, ts, ic, drift, disp, emi, pmf, sim = r
    a = [i['p']] if p else []
    return (dt, T_, ts, tuple(ic.fields[k] for k in GS1), _call(M, ip, drift, i['x'], *a), _call(M, ip, disp, i['x']), _call(M, ip, emi, i['x'], *a),
            _call(M, ip, pmf, i['y'], i['x'], *a), _call(M, ip, sim, i['x0'], i['key']))


def _conc1(r, i, p=False):
    import jax.numpy as jnp
    import numpy as np
    dt, T_, ts, ic, drift, disp, emi, pmf, sim = r
    x = jnp.asarray(i['x'])
    a = [i['p']] if p else []
    tr = np.asarray(sim(i['x0'], i['key']))
    return (dt, T_, ts, tuple(getattr(ic, k) for k in GS1), drift(x, *a), disp(x), emi(x, *a), pmf(i['y'], x, *a), (tr.shape[0], tr[:HEAD]))


Contract('benes_bernoulli', 'C26', O1 + 'benes_bernoulli', _m1_in, _benes, call=lambda i: ([i['N']], {}), post=_post1,
         conc_post=lambda M, r, i: _conc1(r, i), jit=False, trials=2, rtol=1e-6, atol=1e-8)


def _well(M, i):
    x, p = i['x'], i['p']
    m = M.shape(x, 0)
    dt = num(M, '0.01')
    em = lambda u: M.log(1 + M.exp(p * u))
    dr = lambda u: u * (1 - p * M.pow(u, 2))
    f = _fun(M, lambda xp, u: u * (1 - p * u ** 2), lambda u: M.tab(M.shape(u, 0), lambda k: dr(u[k])) if not M.conc else None)
    return (dt, 1000, M.tab(1000, lambda k: dt * (k + 1)), _gs1(M, i), M.tab(m, lambda k: dr(x[k])), 1, M.tab(m, lambda k: em(x[k])),
            M.tab(m, lambda k: _pois(M, i['y'], em(x[k]))), _sim1(M, i, f, 1000, '0.01'))


Contract('well_poisson', 'C26', O1 + 'well_poisson', _m1_in, _well, call=lambda i: ([i['p'], i['N']], {}),
         post=lambda M, ip, r, i: _post1(M, ip, r, i, True), conc_post=lambda M, r, i: _conc1(r, i, True), jit=False, trials=2, rtol=1e-6, atol=1e-8)


# ------------------------------------------------------------------ several dimensions

def _sat_in(G):
    return dict(a=G.real('a', gen=gens.real_any), b=G.real('b', gen=gens.real_any), c=G.real('c', gen=gens.real_any), x=G.arr('x', (2,)))


def _sat(M, i):
    x, a, b, c = (i[k] for k in ('x', 'a', 'b', 'c'))
    d1 = -b * x[1] - M.sin(x[0]) - c * M.sin(2 * x[0])
    return (M.tab(2, lambda k: M.ite(M.eq(k, 0), x[1], d1)),
            M.tab((2, 2), lambda k, l: M.ite(M.and_(M.eq(k, 1), M.eq(l, 1)), -a * b * x[1] - b * M.sin(x[0]), 0)))


Contract('satellite_orbital_stability', 'C26', OD + 'satellite_orbital_stability', _sat_in, _sat, call=lambda i: ([i['a'], i['b'], i['c']], {}),
         post=lambda M, ip, r, i: tuple(_call(M, ip, f, i['x']) for f in r), conc_post=lambda M, r, i: tuple(_cc(f, i['x']) for f in r), jit=False)


def _pp_in(G, dflt):
    return dict(mi=G.arr('mi', (G.size('z', lo=1, conc=(3, 1, 5)), 2), dt='i', np=True, nat=True, gen=gens.small_mindexs), x=G.arr('x', (2,)),
                u=G.arr('u', (G.size('m', lo=1, conc=(3, 1)),)), y=G.pick('y', None if G.conc else _int(G, 'y'), lambda r, t: int(r.integers(0, 2))), key=G.key(),
                S=100 if dflt else G.size('S', lo=1, conc=(5, 1)))


PPK = ('d', 'means', 'covs', 'weights', 'mean', 'cov', 'rms', 'cms')


def _pp(M, i, dflt):
    dt, T_, S_, sg = num(M, '0.001'), 2000, i['S'], num(M, '0.1')
    x = i['x']
    par = dict(means=vals(M, [[1., 1.], [1., 1.]]), covs=vals(M, [[['0.001', 0], [0, '0.001']], [['0.002', 0], [0, '0.002']]]), weights=vals(M, [0.5, 0.5]), mi=i['mi'])
    gs = _gnd(M, par)
    drift = lambda x, k: M.ite(M.eq(k, 0), x[0] * (4 - 4 * x[1]), x[1] * (4 * x[0] - 4))
    em = lambda u: M.div(1, 1 + M.exp(1 - M.pow(u, 3)))
    key = lambda k: M.splitn(i['key'], 3, k)
    # initial state: one draw of the mixture
    c = M.choice(key(0), 2, 1, par['weights'])
    z0 = M.normal(M.split(key(0), 0), (1, 2))
    root = M.chol(M.tab((2, 2), lambda a, b: par['covs'][c[0], a, b]))
    x0 = M.tab(2, lambda a: par['means'][c[0], a] + M.S(2, lambda b: root[a, b] * z0[0, b]))
    w = M.normal(key(1), (T_, S_, 2))
    ddt = M.div(dt, S_)

    def outer(t, x):
        def inner(s, x):
            dw = lambda k: M.sqrt(ddt) * w[t, s, k]
            return M.tab(2, lambda k: x[k] + drift(x, k) * ddt + sg * x[k] * dw(k) + M.div(M.pow(sg, 2), 2) * x[k] * (M.pow(dw(k), 2) - ddt))
        return M.recur(S_, x, inner)(S_)
    base = (dt, T_, M.tab(T_, lambda k: dt * (k + 1)), gs, M.tab(2, lambda k: drift(x, k)),
            M.tab((2, 2), lambda k, l: M.ite(M.eq(k, l), sg * x[k], 0)), M.tab(M.shape(i['u'], 0), lambda k: em(i['u'][k])), _bern(M, i['y'], em(x[0])))
    if M.conc:
        import numpy as np
        at = M.recur(HEAD, x0, outer)
        return base + ((T_, T_, x0, np.array([at(t + 1) for t in range(HEAD)])),)
    at = M.recur(T_, x0, outer)
    xs = M.tab((T_, 2), lambda t, k: at(t + 1)[k])
    return base + ((x0, xs, M.bern_draw(key(2), M.tab(T_, lambda t: em(xs[t, 0])))),)


def _pp_sym(M, ip, r, i, dflt):
    dt, T_, ts, gs, drift, disp, emi, pmf, sim = r
    return (dt, T_, ts, tuple(gs.fields[k] for k in PPK), _call(M, ip, drift, i['x']), _call(M, ip, disp, i['x']), _call(M, ip, emi, i['u']),
            _call(M, ip, pmf, i['y'], i['x']), _call(M, ip, sim, i['key'], *([] if dflt else [i['S']])))


def _pp_conc(M, r, i, dflt):
    import jax
    import jax.numpy as jnp
    import numpy as np
    dt, T_, ts, gs, drift, disp, emi, pmf, sim = r
    x0, xs, ys = (np.asarray(v) for v in sim(i['key'], *([] if dflt else [i['S']])))
    # the measurements are the Bernoulli draws of the returned states with the third key
    k = jax.random.split(i['key'], 3)[2]
    want = np.asarray(jax.random.bernoulli(k, jnp.asarray(1 / (1 + np.exp(1 - xs[:, 0] ** 3))), (T_,)))
    assert (ys == want).mean() > 0.999, 'measurements are not the draws of the emission probability'
    return (dt, T_, ts, tuple(getattr(gs, k) for k in PPK), drift(jnp.asarray(i['x'])), disp(jnp.asarray(i['x'])), emi(jnp.asarray(i['u'])),
            pmf(i['y'], jnp.asarray(i['x'])), (xs.shape[0], len(ys), x0, xs[:HEAD]))


Contract('prey_predator', 'C26', OD + 'prey_predator', _pp_in, _pp, call=lambda i, dflt: ([i['mi']], {}), real_call=lambda f, a, k, i, dflt: f(i['mi']), cases=[dict(dflt=True), dict(dflt=False)],
         post=_pp_sym, conc_post=_pp_conc, jit=False, trials=2, rtol=1e-6, atol=1e-8)
