"""Property C06: the raw, central and scaled representations describe the same filtering distribution.

The property is a lemma over the contracts of the quadratures and of the six filters: each contract states the recursion
its function computes (proved from /repo's source on every run), and lean/Equivalence.lean derives from these recursions
that the three representations are moments of one distribution with one likelihood.  The contracts below replay the
law itself on the real functions (bounded)."""
from .base import Contract, REGISTRY

SHARED = ('moment_quadrature', 'hankel_indices', 'moment_filter_rms', 'moment_filter_cms', 'moment_filter_scms',
          'moment_quadrature_nd', 'nd_cartesian_prod_indices', 'nd_cartesian_prod',
          'moment_filter_nd_rms', 'moment_filter_nd_cms', 'moment_filter_nd_scms')
for _c in REGISTRY:
    if _c.id in SHARED:
        _c.also = _c.also + ('C06',)


def _table(m, v, K):
    """moments 0..K of N(m, v)"""
    import jax.numpy as jnp
    t = [jnp.ones_like(m), m]
    for n in range(1, K):
        t.append(m * t[n] + n * v * t[n - 1])
    return jnp.stack(t[:K + 1], -1)


def _rows_close(name, a, b, tol):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return [f'{name}: shapes {a.shape} and {b.shape}']
    if not np.all(np.abs(a - b) <= tol * (1 + np.abs(b))):
        return [f'{name}: differs by {np.max(np.abs(a - b))!r}: {a.ravel()[:6]} and {b.ravel()[:6]}']
    return []


def _one(rng, trial, real):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from math import comb
    F = 'mfs.one_dim.filtering:moment_filter_'
    N = 1 + trial % 4
    if trial % 4 == 0:
        N = 2
    K, T, st = 2 * N - 1, 1 + trial % 3, bool(trial % 2)
    al, be, v0, v1, r = rng.uniform(0.5, 1.), rng.uniform(-.5, .5), rng.uniform(.3, .8), rng.uniform(0, .3), rng.uniform(.4, 1.5)
    mu = lambda x: al * x + be * jnp.sin(x)
    var = lambda x: v0 + v1 * jnp.cos(x) ** 2
    ks = np.arange(K + 1)
    raw = lambda x, n: _table(mu(x), var(x), K)[..., n]
    cen = lambda x, n, m: _table(mu(x) - m, var(x), K)[..., n]
    sca = lambda x, n, m, s: _table((mu(x) - m) / s, var(x) / s ** 2, K)[..., n]
    pdf = [lambda y, x: jnp.exp(-0.5 * (y - x - .2 * x ** 2) ** 2 / r), lambda y, x: jnp.where(y > 0, 1., 0.) / (1 + jnp.exp(-x)) + jnp.where(y > 0, 0., 1.) / (1 + jnp.exp(x))][trial // 2 % 2]
    ys = rng.normal(size=T)
    # initial distribution: a three-component mixture
    w, c, q = rng.dirichlet(np.ones(3)), rng.normal(size=3) * .8, rng.uniform(.2, .6, size=3)
    tab = lambda m, s: np.asarray(w @ _table(jnp.asarray((c - m) / s), jnp.asarray(q / s ** 2), K))
    rms0 = tab(0., 1.)
    m0 = rms0[1]
    s0 = float(np.sqrt(tab(m0, 1.)[2])) if trial % 3 or N == 1 else float(rng.uniform(.5, 2.))
    A = jnp.asarray
    R, l1 = real(F + 'rms')(raw, pdf, A(rms0), A(ys), stable=st)
    C, mc, l2 = real(F + 'cms')(cen, mu, pdf, A(tab(m0, 1.)), m0, A(ys), stable=st)
    S, ms, ss, l3 = real(F + 'scms')(sca, lambda x: (mu(x), var(x)), pdf, A(tab(m0, s0)), m0, s0, A(ys), stable=st)
    R = np.asarray(R)
    errs = _rows_close('negative log likelihood, central and raw', l2, l1, 1e-6) + _rows_close('negative log likelihood, scaled and raw', l3, l1, 1e-6)
    cen_of = lambda t, m: np.array([sum(comb(n, k) * (-m) ** (n - k) * R[t, k] for k in range(n + 1)) for n in ks])
    errs += _rows_close('means, central and raw', mc, R[:, 1], 1e-6) + _rows_close('means, scaled and raw', ms, R[:, 1], 1e-6)
    want = np.array([cen_of(t, R[t, 1]) for t in range(T)])
    errs += _rows_close('moments, central and raw', C, want, 1e-5)
    if N > 1:
        sd = np.sqrt(want[:, 2])
        errs += _rows_close('scales, scaled and raw', ss, sd, 1e-5)
        errs += _rows_close('moments, scaled and raw', S, want / sd[:, None] ** ks, 1e-4)
    # the quadrature itself
    Qf = real('mfs.one_dim.quadtures:moment_quadrature')
    W = [tuple(np.asarray(v) for v in Qf(*a, sort_nodes=True, ldl=st)) for a in
         ((A(rms0),), (A(tab(m0, 1.)), m0), (A(tab(m0, s0)), m0, s0))]
    for k, nm in ((1, 'central'), (2, 'scaled')):
        errs += _rows_close(f'quadrature weights, {nm} and raw', W[k][0], W[0][0], 1e-6) + _rows_close(f'quadrature nodes, {nm} and raw', W[k][1], W[0][1], 1e-6)
    return errs


def _nd(rng, trial, real):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import itertools
    from .multi import gram_conc, all_indices
    F = 'mfs.multi_dims.filtering:moment_filter_nd_'
    d, N = [(2, 2), (1, 2), (2, 3), (1, 3), (3, 2)][trial % 5]
    mi = np.array(all_indices(d, 0, 2 * N - 1)).reshape(-1, d)
    inds = gram_conc(N, d)
    K, T, st = 2 * N - 1, 1 + trial % 3, bool(trial % 2)
    B = np.eye(d) * rng.uniform(.6, .9) + .1 * rng.normal(size=(d, d))
    v0, r = rng.uniform(.3, .8, size=d), rng.uniform(.6, 1.5)
    mu = lambda x: x @ jnp.asarray(B.T) + .1 * jnp.sin(x)
    var = lambda x: jnp.asarray(v0) + .1 * jnp.cos(x) ** 2
    pick = lambda t, n: jnp.prod(jnp.stack([t[..., a, :][..., n[:, a]] for a in range(d)], -1), -1)
    raw = lambda x, n: pick(_table(mu(x), var(x), K), n)
    cen = lambda x, n, m: pick(_table(mu(x) - m, var(x), K), n)
    sca = lambda x, n, m, s: pick(_table((mu(x) - m) / s, var(x) / s ** 2, K), n)
    pdf = lambda y, x: jnp.exp(-0.5 * jnp.sum((y - x) ** 2) / r) / (1 + .1 * jnp.sum(x) ** 2)
    ys = .5 * rng.normal(size=(T, d))
    w, c, q = rng.dirichlet(np.ones(3)), rng.normal(size=(3, d)) * .5, rng.uniform(.2, .6, size=(3, d))
    tab = lambda m, s: np.asarray(w @ pick(_table(jnp.asarray((c - m) / s), jnp.asarray(q / s ** 2), K), mi))
    one = np.ones(d)
    rms0 = tab(0. * one, one)
    at = {tuple(int(a) for a in k): p for p, k in enumerate(mi)}
    e = lambda a, k=1: tuple(k if b == a else 0 for b in range(d))
    mean_of = lambda v: np.array([v[at[e(a)]] for a in range(d)])
    m0 = mean_of(rms0)
    s0 = np.sqrt([tab(m0, one)[at[e(a, 2)]] for a in range(d)]) if trial % 2 else rng.uniform(.6, 1.5, size=d)
    A = jnp.asarray
    po = (mi, inds)
    R, l1 = real(F + 'rms')((raw, 'multi-index'), pdf, A(ys), po, A(rms0), stable=st)
    C, mc, l2 = real(F + 'cms')((cen, 'multi-index'), mu, pdf, A(ys), po, A(tab(m0, one)), A(m0), stable=st)
    S, ms, ss, l3 = real(F + 'scms')((sca, 'multi-index'), lambda x: (mu(x), var(x)), pdf, A(ys), po, A(tab(m0, s0)), A(m0), A(s0), stable=st)
    R = np.asarray(R)
    if not np.all(np.isfinite(R)) or not np.isfinite(float(l1)):
        return []
    from math import comb

    def cen_of(v, m):
        o = []
        for k in mi:
            s = 0.
            for j in itertools.product(*[range(int(b) + 1) for b in k]):
                s += np.prod([comb(int(b), i) * (-m[a]) ** (int(b) - i) for a, (b, i) in enumerate(zip(k, j))]) * v[at[tuple(j)]]
            o.append(s)
        return np.array(o)
    means = np.array([mean_of(R[t]) for t in range(T)])
    want = np.array([cen_of(R[t], means[t]) for t in range(T)])
    errs = _rows_close('negative log likelihood, central and raw', l2, l1, 1e-6) + _rows_close('negative log likelihood, scaled and raw', l3, l1, 1e-6)
    errs += _rows_close('means, central and raw', mc, means, 1e-6) + _rows_close('means, scaled and raw', ms, means, 1e-6)
    errs += _rows_close('moments, central and raw', C, want, 1e-5)
    sd = np.sqrt(np.array([[want[t, at[e(a, 2)]] for a in range(d)] for t in range(T)]))
    errs += _rows_close('scales, scaled and raw', ss, sd, 1e-5)
    errs += _rows_close('moments, scaled and raw', S, want / np.array([[np.prod(sd[t] ** k) for k in mi] for t in range(T)]), 1e-4)
    return errs


for _id, _f, _t, _n in (('representations_1d', _one, 'mfs.one_dim.filtering:moment_filter_scms', 12), ('representations_nd', _nd, 'mfs.multi_dims.filtering:moment_filter_nd_scms', 5)):
    _c = Contract(_id, 'C06', _t, None, None, prove=False, trials=_n, lean=('Equivalence',),
                  note='bounded replay of the law (the proof is the Lean lemma over the contracts of the quadratures and filters)')
    _c.check = _f
