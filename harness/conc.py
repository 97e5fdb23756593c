"""Concrete side of the specification language: plain numpy / Python loops.  Used to replay contracts on the real code."""
import math
import numpy as np


class ConcM:
    conc = True
    pi = math.pi

    def S(self, *a):
        lo, hi, f = a if len(a) == 3 else (0, a[0], a[1])
        r = 0.
        for i in range(int(lo), int(hi)):
            r = r + f(i)
        return r

    def P(self, *a):
        lo, hi, f = a if len(a) == 3 else (0, a[0], a[1])
        r = 1.
        for i in range(int(lo), int(hi)):
            r = r * f(i)
        return r

    def tab(self, shape, f, dt='f'):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        vals = [f(*i) for i in np.ndindex(*shape)]
        if vals and isinstance(vals[0], tuple):
            return tuple(self._mk(shape, [v[k] for v in vals]) for k in range(len(vals[0])))
        return self._mk(shape, vals)

    def _mk(self, shape, vals):
        if vals and isinstance(vals[0], tuple):
            return tuple(self._mk(shape, [v[k] for v in vals]) for k in range(len(vals[0])))
        a = np.array(vals)
        if a.dtype == object:
            a = a.astype(float)
        return a.reshape(shape + a.shape[1:])

    def ite(self, c, a, b): return a if c else b
    def eq(self, a, b): return a == b
    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b
    def gt(self, a, b): return a > b
    def ge(self, a, b): return a >= b
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def exp(self, x): return np.exp(x)
    def log(self, x): return np.log(x)
    def sqrt(self, x): return np.sqrt(x)
    def cos(self, x): return np.cos(x)
    def sin(self, x): return np.sin(x)
    def div(self, a, b): return a / b
    def idiv(self, a, b): return int(a) // int(b)
    def mod(self, a, b): return int(a) % int(b)

    def pow(self, a, b):
        if isinstance(b, (int, np.integer)):
            if isinstance(a, (int, np.integer)):
                return int(a) ** int(b) if b >= 0 else float(a) ** int(b)
            return a ** int(b)
        return a ** b

    def fact(self, n): return math.factorial(int(n))
    def comb(self, n, k): return math.comb(int(n), int(k)) if 0 <= k <= n else 0
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def inv(self, A): return np.linalg.inv(A)
    def chol(self, A): return np.linalg.cholesky(A)

    def expm(self, A):
        import scipy.linalg
        return scipy.linalg.expm(A)

    def mm(self, A, B): return A @ B
    def tr(self, A): return np.asarray(A).T
    def add(self, A, B): return A + B
    def sub(self, A, B): return A - B
    def mul(self, A, B): return A * B
    def quot(self, A, B): return A / B
    def dot(self, a, b): return np.dot(a, b)
    def eye(self, n): return np.eye(int(n))
    def sum(self, a): return np.sum(a)
    def logdet(self, A): return np.linalg.slogdet(np.atleast_2d(A))[1]

    def gauss_logpdf(self, y, mu, V):
        r = np.asarray(y) - np.asarray(mu)
        return -0.5 * (r @ np.linalg.solve(V, r) + self.logdet(V) + len(r) * math.log(2 * math.pi))

    def logsumexp(self, v):
        m = max(v)
        return m + math.log(sum(math.exp(x - m) for x in v))

    def n_logpdf(self, y, mu, v):
        return -0.5 * ((y - mu) ** 2 / v + np.log(2 * math.pi * v))

    def jac(self, f, x):
        return f.jac(x)

    def jacf(self, f, x, *rest):
        """Jacobian in the first argument (of the first result)"""
        import jax
        if 'jacf' not in f.cache:
            f.cache['jacf'] = jax.jit(jax.jacfwd(lambda u, *r: (f.jax(u, *r)[0] if f.nres > 1 else f.jax(u, *r))))
        return np.asarray(f.cache['jacf'](np.asarray(x), *rest))

    def symm(self, A):
        return A

    def ss(self, cs, v):
        return int(np.sum(np.asarray(cs) < v))

    def argsort(self, x):
        return np.argsort(x, kind='stable')

    def interp(self, x, xp, fp):
        return float(np.interp(x, xp, fp))

    def uniform(self, key, shape):
        import jax
        return np.asarray(jax.random.uniform(key, tuple(int(s) for s in shape)))

    def splitn(self, key, n, k):
        import jax
        return jax.random.split(key, int(n))[int(k)]

    def alt(self, *forms):
        return forms[0]()

    def shape(self, A, k): return np.shape(A)[k]
    def cis(self, t): return np.exp(1j * t)
    def at(self, A, *i):
        i = tuple(int(x) for x in i)
        return A[i] if all(0 <= x < s for x, s in zip(i, A.shape)) else 0.   # out of range: the value is not used
    def gamma(self, x): return math.gamma(x)

    def choice(self, key, n, size, p):
        import jax
        return np.asarray(jax.random.choice(key, int(n), (int(size),), p=np.asarray(p)))

    def eigh(self, K, srt):
        lam, V = np.linalg.eigh(K)
        return V, lam

    def hess2(self, f, a, b, p, q):
        import jax
        key = ('hess', p, q)
        if key not in f.cache:
            f.cache[key] = jax.jit(jax.jacfwd(jax.grad(f.jax, argnums=p), argnums=q))
        return np.asarray(f.cache[key](a, b))

    def split(self, key, k):
        import jax
        return jax.random.split(key)[k]

    def normal(self, key, shape):
        import jax
        return np.asarray(jax.random.normal(key, tuple(int(s) for s in shape)))

    def dern(self, f, x, op, r):
        import jax
        key = ('dern', r)
        if key not in f.cache:
            g = f.jax
            for _ in range(int(r)):
                g = jax.grad(g)
            f.cache[key] = jax.jit(g)
        return float(f.cache[key](float(x), op) if op is not None else f.cache[key](float(x)))

    # TME from its definition: E phi(X) ~ sum_k dt^k / k! (A^k phi)(x),  A phi = a phi' + b^2/2 phi'', by Taylor jets
    def _tme(self, x, drift, disp, order, phi):
        K = 2 * order
        P = np.polynomial.polynomial
        a, b = drift.jet(x, K), disp.jet(x, K)
        h = P.polymul(b, b)[:K + 1] / 2
        p = np.zeros(K + 1)
        p[:min(len(phi), K + 1)] = phi[:K + 1]
        out = [p[0]]
        for k in range(order):
            d1 = P.polyder(p) if len(p) > 1 else np.zeros(1)
            d2 = P.polyder(p, 2) if len(p) > 2 else np.zeros(1)
            p = P.polyadd(P.polymul(a, d1)[:K + 1], P.polymul(h, d2)[:K + 1])
            out.append(p[0])
        return np.array(out) / np.array([math.factorial(k) for k in range(order + 1)])

    def tme1(self, x, dt, drift, disp, order):
        m = self._tme(x, drift, disp, order, [x, 1.])
        e2 = self._tme(x, drift, disp, order, [x * x, 2 * x, 1.])
        P = np.polynomial.polynomial
        c = e2 - np.convolve(m, m)[:order + 1]
        return P.polyval(dt, m), P.polyval(dt, c)

    def tme1_mean(self, x, dt, drift, disp, order):
        return self.tme1(x, dt, drift, disp, order)[0]

    def tme1_exp(self, x, dt, drift, disp, order, n, mu, sc):
        P = np.polynomial.polynomial
        phi = P.polypow([(x - mu) / sc, 1. / sc], n) if n else np.array([1.])
        return P.polyval(dt, self._tme(x, drift, disp, order, phi))

    # TME in several dimensions from the definition of the generator, by automatic differentiation
    def _tmen(self, x, dt, drift, disp, order, phi, key):
        import jax
        import jax.numpy as jnp
        cache = drift.cache
        if key not in cache:
            def gen(p):
                def q(u):
                    b = disp.jax(u)
                    return jnp.dot(jax.grad(p)(u), drift.jax(u)) + 0.5 * jnp.sum(jax.hessian(p)(u) * (b @ b.T))
                return q

            def allk(u, *par):
                p = lambda w: phi(w, *par)
                out = []
                for k in range(order + 1):
                    out.append(p(u) / math.factorial(k))
                    p = gen(p)
                return jnp.stack(out)
            cache[key] = jax.jit(allk)
        return cache[key]

    def tmen(self, x, dt, drift, disp, order):
        import jax.numpy as jnp
        P = np.polynomial.polynomial
        d = len(x)
        x = jnp.asarray(x)
        f1 = self._tmen(x, dt, drift, disp, order, lambda u, e: jnp.dot(u, e), ('tmen1', order))
        f2 = self._tmen(x, dt, drift, disp, order, lambda u, e, g: jnp.dot(u, e) * jnp.dot(u, g), ('tmen2', order))
        I = jnp.eye(d)
        m = [np.asarray(f1(x, I[a])) for a in range(d)]
        cov = np.array([[P.polyval(dt, np.asarray(f2(x, I[a], I[b])) - np.convolve(m[a], m[b])[:order + 1]) for b in range(d)] for a in range(d)])
        return np.array([P.polyval(dt, v) for v in m]), cov

    def tmen_exp(self, x, dt, drift, disp, order, n, mu=None, sc=None):
        import jax.numpy as jnp
        d = len(x)
        n = tuple(int(v) for v in n)
        mu = jnp.zeros(d) if mu is None else jnp.asarray(mu)
        sc = jnp.ones(d) if sc is None else jnp.asarray(sc)

        def phi(u, mu, sc):
            r = 1.
            for a, k in enumerate(n):
                for _ in range(k):
                    r = r * (u[a] - mu[a]) / sc[a]
            return r + 0. * jnp.sum(u)
        f = self._tmen(x, dt, drift, disp, order, phi, ('tmenE', order, n))
        return float(np.polynomial.polynomial.polyval(dt, np.asarray(f(jnp.asarray(x), mu, sc))))

    def mvn(self, mu, cov, n):
        from contracts.multi import normal_moment
        return normal_moment(mu, cov, n)

    def recur(self, n, init, step):
        st = [init]

        def at(K):
            K = int(K)
            while len(st) <= K:
                st.append(step(len(st) - 1, st[-1]))
            return st[K]
        return at


class CFn:
    """A concrete user callable: f(xp) builds it for numpy or jax.numpy"""

    def __init__(self, build, kind, nres=1):
        import jax
        import jax.numpy as jnp
        self.build, self.kind, self.nres = build, kind, nres
        self.jax = build(jnp)
        self.np = build(np)
        self._jac = None
        self.cache = {}

    def pt(self, *args):
        r = self.np(*args)
        if self.kind == 'outer':
            pass
        return r

    def __call__(self, *args):
        r = self.np(*args)
        return r

    def jet(self, x, K):
        """Taylor coefficients at the scalar x up to degree K"""
        import jax
        if 'jet' not in self.cache:
            self.cache['jet'] = []
        l = self.cache['jet']
        while len(l) <= K:
            l.append(jax.grad(l[-1]) if l else self.jax)
        if ('jetf', K) not in self.cache:
            self.cache['jetf', K] = jax.jit(lambda u: [l[k](u) / math.factorial(k) for k in range(K + 1)])
        return np.array(self.cache['jetf', K](float(x)))

    def jac(self, x):
        import jax
        import jax.numpy as jnp
        if self._jac is None:
            self._jac = jax.jit(jax.jacfwd(self.jax))
        return np.asarray(self._jac(jnp.asarray(x)))


class ConcG:
    conc = True

    def __init__(self, rng, trial, hint=None):
        self.rng, self.trial, self.hint = rng, trial, hint or {}
        self.sizes = {}

    def size(self, name, lo=1, hi=None, conc=None, hi_conc=None):
        if name in self.hint and lo <= self.hint[name] <= (150 if '_free' in self.hint else max(conc or (12,)) + 3):
            v = self.hint[name]
        elif conc:
            v = conc[(self.trial + len(self.sizes) * 7) % len(conc)] if self.trial < len(conc) else \
                conc[int(self.rng.integers(len(conc)))]
        else:
            v = int(self.rng.integers(lo, (hi if hi is not None else (hi_conc or lo + 4)) + 1))
        self.sizes[name] = int(v)
        return int(v)

    int_ = size

    def real(self, name, pos=False, gen=None, nonneg=False):
        if gen is not None:
            return float(gen(self.rng, self.trial))
        v = float(self.rng.normal()) * (1. if pos or nonneg else self.hint.get('_arr', 1.))
        return abs(v) + 0.1 if pos else v

    def arr(self, name, shape, gen=None, symm=False, pos=False, dt='f', np=False, pos_at=(), rng=None, nat=False, simplex=False):
        import numpy as _np
        if rng is not None:
            return self.rng.integers(0, rng, size=tuple(int(s) for s in shape))
        shape = tuple(int(s) for s in shape)
        if gen is not None:
            a = _np.asarray(gen(self.rng, self.trial, *shape))
            assert a.shape == shape, (name, a.shape, shape)
            return a
        if dt == 'i':
            return self.rng.integers(0, 4, size=shape)
        a = self.rng.normal(size=shape)
        if pos:
            a = _np.abs(a) + 0.1
        else:
            a = a * self.hint.get('_arr', 1.)
        if symm:
            a = (a + a.T) / 2
        return a

    def spd(self, name, n, gen=None):
        import numpy as _np
        if gen is not None:
            return gen(self.rng, self.trial, int(n))
        B = self.rng.normal(size=(n, n))
        return (B @ B.T / n + _np.diag(0.3 + self.rng.uniform(size=n))) * self.hint.get('_spd', 1.)

    def key(self, name='key'):
        import jax
        return jax.random.PRNGKey(int(self.rng.integers(1 << 30)))

    def fn(self, name, kind, gen=None, **kw):
        out = kw.get('out')
        build = gen(self.rng, self.trial, *([out] if kind == 'vec' else []))
        if 'pdf' in name and '_pdf' in self.hint:
            b0, k = build, self.hint['_pdf']
            build = lambda xp: (lambda f: (lambda *a: k * f(*a)))(b0(xp))
        return CFn(build, kind, kw.get('nres', 1))

    def assume(self, c):
        if not c:
            raise Skip()

    def pick(self, name, sym_value, gen):
        return gen(self.rng, self.trial)


class Skip(Exception):
    pass


def to_real(v):
    """numpy inputs -> arguments of the real function"""
    import jax.numpy as jnp
    if isinstance(v, CFn):
        return v.jax
    if hasattr(v, 'real') and hasattr(v, 'n_points'):
        return v.real()
    if isinstance(v, np.ndarray):
        return jnp.asarray(v)
    if isinstance(v, tuple):
        return tuple(to_real(x) for x in v)
    if isinstance(v, list):
        return [to_real(x) for x in v]
    return v


class ANYC:
    pass


def compare(got, want, rtol, atol, path='result'):
    """list of mismatch descriptions"""
    if want is ANYC or getattr(want, '__name__', '') == 'ANY':
        return []
    if isinstance(want, dict):
        out = []
        for k, w in want.items():
            out += compare(getattr(got, k), w, rtol, atol, f'{path}.{k}')
        return out
    if isinstance(want, (tuple, list)):
        if len(got) != len(want):
            return [f'{path}: {len(got)} results instead of {len(want)}']
        out = []
        for k, (g, w) in enumerate(zip(got, want)):
            out += compare(g, w, rtol, atol, f'{path}[{k}]')
        return out
    if want is None:
        return [] if got is None else [f'{path}: None expected']
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return [f'{path}: shape {g.shape} instead of {w.shape}']
    if g.size == 0:
        return []
    if g.dtype == bool or w.dtype == bool:
        return [] if np.array_equal(g, w) else [f'{path}: boolean values differ']
    g = g.astype(complex if np.iscomplexobj(g) or np.iscomplexobj(w) else float)
    w = w.astype(g.dtype)
    fin = np.isfinite(w)
    if not np.all(fin):     # outside the precondition of the concrete oracle
        g, w = np.where(fin, g, 0.), np.where(fin, w, 0.)
    if not np.all(np.isfinite(g)):
        return [f'{path}: non-finite value {g.ravel()[:8]} where {w.ravel()[:8]} is specified']
    scale = np.max(np.abs(w)) if w.size else 0.
    err = np.abs(g - w)
    # elementwise relative error with a floor relative to the largest entry
    tol = atol + rtol * np.maximum(np.abs(w), 1e-3 * scale)
    if np.all(err <= tol):
        return []
    k = int(np.argmax(err - tol))
    idx = np.unravel_index(k, g.shape) if g.shape else ()
    return [f'{path}{list(map(int, idx))}: got {g[idx]!r}, specified {w[idx]!r} (max error {err.max():.3e})']
