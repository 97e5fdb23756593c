"""Concrete input generators (used only by the replay harness)."""
import math


def _np():
    import numpy
    return numpy


# ---- scalars

def real_any(rng, trial):
    return [0., 1., -2.5, 0.3][trial] if trial < 4 else float(rng.normal() * 3)


def real_pos(rng, trial):
    return [1., 0.5, 2.5][trial] if trial < 3 else float(rng.uniform(0.2, 3.))


# ---- moment sequences

def disc(rng, k):
    np = _np()
    x = np.sort(rng.uniform(-2., 2., size=k)) + np.linspace(0, 0.5, k)
    w = rng.uniform(0.3, 1., size=k)
    return x, w / w.sum()


def raw_moments(rng, trial, s):
    np = _np()
    x, w = disc(rng, max(3, s))
    x = x + [0., 1.5, -0.7][trial % 3]
    return np.array([np.sum(w * x ** p) for p in range(s)])


def central_moments(rng, trial, s):
    np = _np()
    x, w = disc(rng, max(3, s))
    x = x - np.sum(w * x)
    return np.array([np.sum(w * x ** p) for p in range(s)])


def scaled_moments(rng, trial, s):
    np = _np()
    x, w = disc(rng, max(3, s))
    x = x - np.sum(w * x)
    x = x / np.sqrt(np.sum(w * x ** 2))
    return np.array([np.sum(w * x ** p) for p in range(s)])


raw_moments_pd = raw_moments


def mq_conc(M, ms, mean, scale, ldl, sort):
    """Independent concrete moment quadrature (definition: K = L^-1 H L^-T, weights V[0]^2)."""
    np = _np()
    import scipy.linalg
    ms = np.asarray(ms, float)
    n = len(ms) // 2
    i = np.arange(n)[:, None] + np.arange(n)[None, :]
    Gm, H = ms[i], ms[i + 1]
    L = ldl_chol_conc(Gm) if ldl else np.linalg.cholesky(Gm)
    X = scipy.linalg.solve_triangular(L, H, lower=True)
    K = scipy.linalg.solve_triangular(L, X.T, lower=True).T
    lam, V = np.linalg.eigh((K + K.T) / 2)
    return V[0] ** 2, scale * lam + mean


def ldl_chol_conc(A):
    """lower factor of the LDL decomposition, columns times sqrt(pivot), or times 1e-8 |A|_F for a negative pivot"""
    np = _np()
    L, d = ldl_conc(A)
    return L * np.where(d < 0, 1e-8 * np.linalg.norm(A, 'fro'), np.sqrt(np.abs(d)))[None, :]


def ldl_conc(A):
    np = _np()
    n = A.shape[0]
    L, d = np.eye(n), np.zeros(n)
    for j in range(n):
        d[j] = A[j, j] - np.sum(L[j, :j] ** 2 * d[:j])
        for i in range(j + 1, n):
            L[i, j] = (A[i, j] - np.sum(L[i, :j] * L[j, :j] * d[:j])) / d[j]
    return L, d


# ---- user functions; each returns build(xp)

def _gm(xp, m, v, n):
    """E (m + sqrt(v) Z)^n elementwise for integer n, as a polynomial"""
    def one(p):
        r = 0.
        for k in range(0, p + 1, 2):
            r = r + math.comb(p, k) * m ** (p - k) * v ** (k // 2) * (math.factorial(k) // (2 ** (k // 2) * math.factorial(k // 2)))
        return r
    if isinstance(n, (int,)) or getattr(n, 'shape', None) == () and not hasattr(n, 'aval'):
        return one(int(n))
    raise TypeError


def cond_raw(rng, trial, v=None):
    a, b, v = float(rng.uniform(0.5, 1.)), float(rng.normal() * 0.3), v or float(rng.uniform(0.1, 0.5))

    def build(xp):
        import numpy as np

        def f(x, n):
            m = a * xp.sin(x) + b
            if xp is np:
                return _gm(np, m, v, int(n))
            # orders are 0..N-1
            N = n.shape[0]
            return xp.stack([_gm(xp, m, v, p) + 0. * x for p in range(N)], axis=-1)[..., n]
        return f
    return build


def cond_central(rng, trial):
    a, b, v = float(rng.uniform(0.5, 1.)), float(rng.normal() * 0.3), float(rng.uniform(0.1, 0.5))
    return _central(a, b, v)


def _central(a, b, v):
    def build(xp):
        import numpy as np

        def f(x, n, mean, scale=1.):
            m = a * xp.sin(x) + b - mean
            if xp is np:
                return _gm(np, m, v, int(n)) / scale ** int(n)
            N = n.shape[0]
            return xp.stack([_gm(xp, m, v, p) / scale ** p + 0. * x for p in range(N)], axis=-1)[..., n]
        return f
    return build


def cond_mean(rng, trial):
    a, b = float(rng.uniform(0.5, 1.)), float(rng.normal() * 0.3)
    return lambda xp: (lambda x: a * xp.sin(x) + b)


def cond_mean_var(rng, trial):
    a, b = float(rng.uniform(0.5, 1.)), float(rng.normal() * 0.3)
    return lambda xp: (lambda x: (a * xp.sin(x) + b, 0.3 + 0.1 * xp.cos(x)))


def pdf(rng, trial):
    c, s = float(rng.uniform(0.5, 1.5)), float(rng.uniform(0.6, 1.5))
    return lambda xp: (lambda y, x: xp.exp(-0.5 * (y - c * x - 0.2 * x ** 2) ** 2 / s) / math.sqrt(2 * math.pi * s))


def obs(rng, trial, *shape):
    return rng.normal(size=shape)


def pts0(rng, trial, *shape):
    """states; the first one is zero (or one, the mean in some trials) exactly"""
    x = rng.normal(size=shape)
    if trial % 2 == 0:
        x[0] = [0., 0., 1.][trial % 3]
    return x


def pos_arr(rng, trial, *shape):
    return rng.uniform(0.1, 1., size=shape)


def incr(rng, trial, n):
    np = _np()
    return np.cumsum(rng.uniform(0.1, 1., size=n)) - 1.


def dt(rng, trial):
    return float(rng.uniform(0.01, 0.2))


def smooth2(rng, trial):
    a, b = float(rng.uniform(0.5, 1.5)), float(rng.normal())
    return lambda xp: (lambda x, op: xp.sin(a * x + b) + op * x ** 3 + xp.exp(0.3 * x))


def exp2(rng, trial):
    """cheap to differentiate many times"""
    return lambda xp: (lambda x, op: xp.exp(x) + op * x)


def drift1(rng, trial):
    a, b = float(rng.normal()), float(rng.normal())
    return lambda xp: (lambda x: a * xp.sin(x) + b * x)


def disp1(rng, trial):
    a = float(rng.uniform(0.3, 1.))
    return lambda xp: (lambda x: a + 0.2 * xp.cos(x))


def sym_pivots(rng, trial, n, m=None):
    """symmetric, well-conditioned leading minors, positive definite for even trials, indefinite for odd ones"""
    np = _np()
    L = np.tril(rng.normal(size=(n, n)) * 0.6, -1) + np.eye(n)
    d = rng.uniform(0.5, 2., size=n)
    if trial % 2:
        d = d * np.where(rng.uniform(size=n) < 0.5, -1., 1.)
    if trial % 5 == 3 and n > 1:
        # singular (exactly: all operations are exact)
        L = np.tril(rng.integers(-1, 2, size=(n, n)), -1) + np.eye(n)
        d = 2. ** rng.integers(-1, 3, size=n)
        d[n - 1] = 0.
    A = L @ np.diag(d) @ L.T
    return (A + A.T) / 2


def unit_vec(rng, trial, n):
    np = _np()
    v = rng.normal(size=n)
    return v / np.linalg.norm(v)


def simplex(rng, trial, n):
    w = rng.uniform(0.2, 1., size=n)
    return w / w.sum()


def _spd(rng, d):
    np = _np()
    B = rng.normal(size=(d, d))
    return B @ B.T / d + np.diag(0.3 + rng.uniform(size=d))


def m_and_cov(rng, trial, out):
    d = out[0][0]
    A, Sg = rng.normal(size=(d, d)) * 0.3, _spd(rng, d)
    return lambda xp: (lambda x, dt: (x + dt * xp.sin(xp.asarray(A) @ x), dt * (xp.asarray(Sg) * (1. + 0.1 * xp.sum(x ** 2)))))


def m_and_cov_diag(rng, trial, out):
    np = _np()
    d = out[0][0]
    A, Sg = rng.normal(size=(d, d)) * 0.3, np.diag(rng.uniform(0.2, 1., size=d))
    return lambda xp: (lambda x, dt: (x + dt * xp.sin(xp.asarray(A) @ x), dt * (xp.asarray(Sg) * (1. + 0.1 * xp.sum(x ** 2)))))


def logtrans(rng, trial, out):
    a = float(rng.uniform(0.5, 1.))
    return lambda xp: (lambda x, z: -0.5 * xp.sum((x - a * xp.sin(z) - 0.2 * xp.sum(z ** 2)) ** 2 * (1. + 0.3 * xp.cos(xp.sum(z)))))


def loglik(rng, trial, out):
    a = float(rng.uniform(0.5, 1.))
    return lambda xp: (lambda y, x: -0.5 * xp.sum((y[0] - a * x - 0.2 * xp.sin(x)) ** 2) - 0.1 * xp.sum(y * y) * xp.sum(x ** 2))


def cumulants(rng, trial, s):
    k = rng.normal(size=s) * 0.3
    k[1] = 0.5 + abs(k[1])
    return k


def scalar_of_vec(rng, trial, out):
    a = float(rng.normal())
    return lambda xp: (lambda x: xp.sum(xp.sin(a * x)) + xp.sum(x ** 2))


def spd_seq(rng, trial, T, n, n2):
    np = _np()
    return np.stack([_spd(rng, n) for _ in range(T)]) if T else np.zeros((0, n, n))


def meas(rng, trial, out):
    np = _np()
    d = out[0][0]
    b, R = rng.normal(size=(d, 8)), _spd(rng, d)
    return lambda xp: (lambda x: (xp.sin(xp.asarray(b)[:, :x.shape[0]] @ x) + 0.3 * xp.sum(x), xp.asarray(R) * (1. + 0.1 * xp.sum(x ** 2))))


def meas_const(rng, trial, out):
    d = out[0][0]
    b, R = rng.normal(size=(d, 8)), _spd(rng, d)
    return lambda xp: (lambda x: (xp.sin(xp.asarray(b)[:, :x.shape[0]] @ x) + 0.3 * xp.sum(x), xp.asarray(R)))


class RealSGP:
    """An asymmetric sigma-point rule that is exact to degree two (concrete)"""

    def __init__(self, rng, trial, d):
        np = _np()
        s = 2 * d + 1 + trial % 2
        self.d, self.n_points, self.wc = d, s, None
        # symmetric positive rule close to a second-order exact one, perturbed
        base = np.sqrt(d + 0.5) * np.concatenate([np.eye(d), -np.eye(d), np.zeros((s - 2 * d, d))])
        w = np.concatenate([np.full(2 * d, 1 / (2 * (d + 0.5))), np.full(s - 2 * d, (0.5 / (d + 0.5)) / (s - 2 * d))])
        self.xi = base + 0.05 * rng.normal(size=(s, d))
        w = w * rng.uniform(0.9, 1.1, size=s)
        self.w = w / w.sum()
        self.xi = self.xi - self.w @ self.xi
        self.xi = np.linalg.solve(np.linalg.cholesky((self.xi.T * self.w) @ self.xi), self.xi.T).T

    def real(self):
        import jax.numpy as jnp
        from mfs.classical_filters_smoothers.quadratures import SigmaPoints
        return SigmaPoints(d=self.d, n_points=self.n_points, w=jnp.asarray(self.w), wc=None, xi=jnp.asarray(self.xi))


def driftn(rng, trial, out):
    d = out[0]
    A = rng.normal(size=(d, d)) * 0.5
    return lambda xp: (lambda x: xp.sin(xp.asarray(A) @ x) - 0.5 * x)


def dispn(rng, trial, out):
    d, w = out
    B = rng.normal(size=(d, w)) * 0.5
    return lambda xp: (lambda x: xp.asarray(B) * (1. + 0.2 * xp.cos(xp.sum(x))))


def ode2(rng, trial, out):
    d = out[0][0]
    A, Sg = rng.normal(size=(d, d)), _spd(rng, d)
    return lambda xp: (lambda m, v: (xp.sin(xp.asarray(A) @ m) + v @ m, xp.asarray(A) @ v + v @ xp.asarray(A).T + xp.asarray(Sg) * xp.sum(m * m)))


def ode4(rng, trial, out):
    d = out[0][0]
    A, Sg = rng.normal(size=(d, d)), _spd(rng, d)
    return lambda xp: (lambda m, v, mf, vf: (xp.sin(xp.asarray(A) @ m) + v @ (m - mf), xp.asarray(A) @ v + v @ xp.asarray(A).T
                                             + xp.asarray(Sg) * xp.sum(m * m) - 0.3 * vf))


def simplex_zeros(rng, trial, n):
    np = _np()
    w = rng.uniform(0.2, 1., size=n)
    if trial % 3 == 1 and n > 1:
        w[rng.integers(n)] = 0.
    if trial % 3 == 2:
        w = w ** 6
    return w / w.sum()


def linsp(rng, trial, n):
    np = _np()
    return np.linspace(-2., 2.5, n)


def _jr(f):
    """a sampler that uses jax.random on both sides"""
    import numpy as np

    def build(xp):
        def g(*a):
            r = f(*a)
            return np.asarray(r) if xp is np else r
        return g
    return build


def init_sampler(rng, trial, out):
    import jax
    tail = out[1:]
    return _jr(lambda key, n: jax.random.normal(key, (int(n),) + tuple(tail)))


def trans_sampler(rng, trial, out):
    import jax
    import jax.numpy as jnp
    return _jr(lambda x, key: jnp.sin(x) + 0.5 * jax.random.normal(key, x.shape))


def prop_sampler(rng, trial, out):
    import jax
    import jax.numpy as jnp
    return _jr(lambda x, y, key: jnp.sin(x) + 0.1 * jnp.sum(y) + 0.5 * jax.random.normal(key, x.shape))


def _rowsum(xp, x):
    return xp.sum(x, axis=-1) if x.ndim > 1 else x


def part_pdf(rng, trial, out):
    k, c = [(0.5, 0.01), (4., 1e-9), (1.5, 1e-4)][trial % 3]
    return lambda xp: (lambda y, x: xp.exp(-k * (xp.sum(y) - _rowsum(xp, x)) ** 2) + c)


def pair_pdf(rng, trial, out):
    return lambda xp: (lambda x, z: xp.exp(-0.5 * _rowsum(xp, (x - xp.sin(z)) ** 2)) + 0.02)


def pair_pdf3(rng, trial, out):
    return lambda xp: (lambda x, z, y: xp.exp(-0.4 * _rowsum(xp, (x - xp.sin(z) - 0.1 * xp.sum(y)) ** 2)) + 0.03)


def resampler(rng, trial, out):
    import jax
    import jax.numpy as jnp
    if trial % 2:       # a resampling rule that resolves small weights
        return _jr(lambda w, key: jnp.clip(jnp.sum(w[None, :] > 10. ** (-0.31 - 0.9 * jnp.arange(w.shape[0]))[:, None], axis=1), 0, w.shape[0] - 1))
    return _jr(lambda w, key: jax.random.choice(key, w.shape[0], (w.shape[0],), p=w))


def mindex(rng, trial, d):
    np = _np()
    if trial == 0:
        return np.zeros(d, dtype='int64')
    x = rng.integers(0, 4, size=d)
    if trial % 3 == 0:
        x[rng.integers(d):] = 0
    if trial % 3 == 1:
        x[:rng.integers(d)] = 0
    if trial % 5 == 4:
        x = x * rng.integers(1, 4)
    if trial % 7 == 3:
        x[0], x[1:] = 8, x[1:] % 3
    return x.astype('int64')


def mindexs(rng, trial, *shape):
    np = _np()
    return rng.integers(0, 4, size=shape).astype('int64') if trial else np.zeros(shape, dtype='int64')


def tensor_of_vec(rng, trial, out):
    """x (d,) -> array of the given shape"""
    np = _np()
    a = rng.normal(size=out) * 0.7
    b = rng.normal(size=out)
    return lambda xp: (lambda x: xp.sin(xp.asarray(a) * xp.sum(x) + xp.asarray(b)) + xp.asarray(b) * xp.sum(x ** 2) + x[0])


def boxes(rng, trial, d, two):
    np = _np()
    lo = rng.normal(size=d)
    return np.stack([lo, lo + rng.uniform(0.5, 2., size=d)], axis=1)


def small_mindexs(rng, trial, z, d):
    """distinct multi-indices of low degree, rows in no particular order"""
    np = _np()
    import itertools
    al = [t for t in itertools.product(range(4), repeat=d) if sum(t) <= 3]
    idx = rng.permutation(len(al))[:z]
    r = np.array([al[k] for k in idx], dtype='int64')
    return r if len(r) == z else np.concatenate([r, np.ones((z - len(r), d), dtype='int64')])


def pos_vec(rng, trial, d):
    return rng.uniform(0.6, 1.6, size=d)
