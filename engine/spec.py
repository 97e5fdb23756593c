"""Symbolic side of the specification language (namespace M) and of the input builders (namespace G)."""
from .terms import *
from .solver import *
from . import nf as NF
from . import loops
from .nf import Undecided, PI
from .values import *


class SymM:
    conc = False
    pi = PI

    def __init__(self, ip, mode='opaque'):
        self.ip, self.mode = ip, mode

    # ---- algebra
    def S(self, *a):
        lo, hi, f = a if len(a) == 3 else (0, a[0], a[1])
        v = fresh('b', 'I')
        lo, hi = lift(lo), lift(hi)
        with assuming(le(lo, v), lt(v, hi)):
            return summ(v, lo, hi, lift(f(v)))

    def P(self, *a):
        lo, hi, f = a if len(a) == 3 else (0, a[0], a[1])
        v = fresh('b', 'I')
        lo, hi = lift(lo), lift(hi)
        with assuming(le(lo, v), lt(v, hi)):
            return prod(v, lo, hi, lift(f(v)))

    def box(self, d, size, f):
        """sum of f(v) over all integer vectors 0 <= v_a < size(a), a < d"""
        d = lift(d)
        k = fresh('k', 'I', 0, d)
        with assuming(le(ZERO, k), lt(k, d)):
            n = NF.canon(lift(size(k)))
        sizes = NF.canon(lam((k,), (d,), n))
        w = fresh('a', 'I', 0, d)
        count = prod(w, ZERO, d, subst(n, {k: w})) if k in n.fv else power(n, d)
        r = fresh('r', 'I')
        with assuming(le(ZERO, r), lt(r, count)):
            return summ(r, ZERO, count, lift(f(lambda a: app('digit', sizes, r, lift(a), sort='I'))))

    def tab(self, shape, f, dt='f'):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(lift(s) for s in shape)
        vs = tuple(fresh('i', 'I', 0, s) for s in shape)
        with assuming(*[c for v, s in zip(vs, shape) for c in (le(ZERO, v), lt(v, s))]):
            r = f(*vs)
        if isinstance(r, tuple):
            return tuple(self._stack(shape, vs, x, dt) for x in r)
        return self._stack(shape, vs, r, dt)

    def _stack(self, shape, vs, r, dt):
        if isinstance(r, Tensor):
            if r.ndim == 0:
                r = r.at()
            else:
                return Tensor(shape + r.shape, vs + r.vs, r.body, r.dt)
        if isinstance(r, tuple):
            return tuple(self._stack(shape, vs, x, dt) for x in r)
        return Tensor(shape, vs, lift(r), dt)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            a, b = self.ip.models.arr(self.ip, a), self.ip.models.arr(self.ip, b)
            return tab(a.shape, lambda *i: ite(c, a.at(*i), b.at(*i)))
        return ite(c, lift(a), lift(b))

    def eq(self, a, b): return eq(a, b)
    def lt(self, a, b): return lt(a, b)
    def le(self, a, b): return le(a, b)
    def gt(self, a, b): return gt(a, b)
    def ge(self, a, b): return ge(a, b)
    def and_(self, *a): return and_(*a)
    def or_(self, *a): return or_(*a)
    def not_(self, a): return not_(a)
    def exp(self, x): return app('exp', lift(x))
    def log(self, x): return app('log', lift(x))
    def sqrt(self, x): return power(lift(x), const(Fraction(1, 2)))
    def pow(self, a, b): return power(lift(a), lift(b))
    def div(self, a, b): return div(lift(a), lift(b))
    def idiv(self, a, b): return idiv(a, b)
    def mod(self, a, b): return mod(a, b)
    def cos(self, x): return app('cos', lift(x))
    def sin(self, x): return app('sin', lift(x))

    def fact(self, n): return app('fact', lift(n), sort='I')

    def comb(self, n, k): return app('comb', lift(n), lift(k), sort='I')

    def max(self, a, b):
        a, b = lift(a), lift(b)
        return ite(lt(a, b), b, a)

    def min(self, a, b):
        a, b = lift(a), lift(b)
        return ite(lt(b, a), b, a)

    # ---- matrices: square Tensors
    def inv(self, A):
        return self.ip.models.inv(self.ip, A)

    def chol(self, A):
        return self.ip.models.cholesky(self.ip, A)

    def expm(self, A):
        return self.ip.models.TABLE['jax.scipy.linalg.expm'](self.ip, A)

    def mm(self, A, B):
        return self.ip.models.matmul(self.ip, A, B)

    def tr(self, A):
        return tab((A.shape[1], A.shape[0]), lambda i, j: A.at(j, i))

    def add(self, A, B):
        return self.ip.models.binop(self.ip, 'Add', A, B)

    def sub(self, A, B):
        return self.ip.models.binop(self.ip, 'Sub', A, B)

    def mul(self, A, B):
        return self.ip.models.binop(self.ip, 'Mult', A, B)

    def quot(self, A, B):
        return self.ip.models.binop(self.ip, 'Div', A, B)

    def dot(self, a, b):
        return self.ip.models.dot(self.ip, a, b)

    def eye(self, n):
        return tab((n, n), lambda i, j: ite(eq(i, j), ONE, ZERO))

    def sum(self, a):
        return self.ip.models.red_sum(self.ip, a)

    def logdet(self, A):
        """log det of a symmetric positive definite matrix"""
        L = self.chol(A)
        return self.S(L.shape[0], lambda i: mul(const(2), app('log', L.at(i, i))))

    def gauss_logpdf(self, y, mu, V):
        n = V.shape[0]
        Vi = self.inv(V)
        q = self.S(n, lambda i: self.S(n, lambda j: (y[i] - mu[i]) * Vi.at(i, j) * (y[j] - mu[j])))
        return mul(const(Fraction(-1, 2)), q + self.logdet(V) + lift(n) * app('log', mul(const(2), PI)))

    def n_logpdf(self, y, mu, v):
        """scalar normal log-density, variance v"""
        y, mu, v = lift(y), lift(mu), lift(v)
        return mul(const(Fraction(-1, 2)), power(y - mu, const(2)) / v + app('log', mul(const(2), PI, v)))

    def jac(self, f, x):
        return self.ip.models.jac(self.ip, f)(x)

    def jacf(self, f, x, *rest):
        m = self.ip.models
        return m.jac(self.ip, lambda u: (f(u, *rest)[0] if f.nres > 1 else f(u, *rest)))(x)

    def symm(self, A):
        """a matrix known to be symmetric (identity concretely)"""
        return A

    def ss(self, cs, v):
        """searchsorted, left"""
        return self.ip.models.searchsorted(self.ip, cs, lift(v))

    def argsort(self, x):
        return self.ip.models.argsort(self.ip, x)

    def interp(self, x, xp, fp):
        return numT(self.ip.models.interp1d(self.ip, lift(x), xp, fp))

    def uniform(self, key, shape):
        return self.ip.models.TABLE['jax.random.uniform'](self.ip, key, shape)

    def splitn(self, key, n, k):
        return self.ip.models.rsplit(self.ip, key, n).at(lift(k))

    def alt(self, *forms):
        from .verify import Alt
        return Alt(*[f() for f in forms])

    def shape(self, A, k):
        return A.shape[k]

    def at(self, A, *i):
        return A.at(*[lift(x) for x in i])

    def gamma(self, x):
        return app('exp', app('lgamma', lift(x)))

    def hess2(self, f, a, b, p, q):
        """second derivatives of f(a, b): index r of the p-th argument, column index of the q-th argument"""
        m = self.ip.models
        return m.jac(self.ip, m.jac(self.ip, f, p), q)(a, b)

    def split(self, key, k):
        return self.ip.models.rsplit(self.ip, key).at(lift(k))

    def normal(self, key, shape):
        return self.ip.models.TABLE['jax.random.normal'](self.ip, key, shape)

    def choice(self, key, n, size, p):
        return self.ip.models.rchoice(self.ip, key, n, (size,), p=p)

    def bern_draw(self, key, p):
        return self.ip.models.rbernoulli(self.ip, key, p, p.shape)

    def cis(self, t):
        return app('exp', mul(NF.IMAG, lift(t)))

    def lastnz(self, x):
        return self.ip.models.last_nonzero(self.ip, x)

    def anynz(self, x, c):
        return self.ip.models.any_from(self.ip, x, c)

    def triinv(self, L):
        return self.ip.models.triangular_solve(self.ip, L, self.eye(L.shape[0]), left_side=True, lower=True)

    def eigh(self, K, srt):
        return self.ip.models.eigh_lax(self.ip, K, sort_eigenvalues=srt)

    def nearest_real_root(self, q, p, tol):
        """real part of the root (imaginary part below tol) of the polynomial q, leading coefficient first, nearest to p"""
        m = self.ip.models
        r = m.roots(self.ip, q, strip_zeros=False)
        n = r.shape[0]
        i = fresh('i', 'I', 0, n)
        re, im = m.re_im(r.at(i))
        dist = ite(lt(app('abs', im), lift(tol)), power(add(power(sub(re, lift(p)), const(2)), power(im, const(2))), const(Fraction(1, 2))), m.INF)
        k = app('argminr', lam((i,), (n,), dist), sort='I')
        return m.re_im(r.at(k))[0]

    def dern(self, f, x, op, r):
        """r-th derivative of f(., op) at x"""
        m = self.ip.models
        if not isinstance(r, int):
            from .loops import DerFn
            return numT(DerFn(self.ip, f, r)(x, *([op] if op is not None else [])))
        g = f
        for _ in range(r):
            g = m.grad(self.ip, g)
        return numT(g(x, op) if op is not None else g(x))

    def _v1(self, x):
        return tab((ONE,), lambda i: lift(x))

    def tme1(self, x, dt, drift, disp, order):
        m, c = self.ip.models.tme_mean_and_cov(self.ip, self._v1(x), dt, drift, disp, order=order)
        return m.at(ZERO), c.at(ZERO, ZERO)

    def tme1_mean(self, x, dt, drift, disp, order):
        return self.tme1(x, dt, drift, disp, order)[0]

    def tme1_exp(self, x, dt, drift, disp, order, n, mu, sc):
        """TME of E ((X - mu) / sc)^n"""
        m = self.ip.models
        phi = lambda u: power(div(sub(u, lift(mu)), lift(sc)), lift(n))
        g = lambda u: tab(u.shape, lambda i: lift(phi(u.at(i))))
        return m.tme_expectation(self.ip, g, self._v1(x), dt, drift, disp, order=order).at(ZERO)

    def tmen(self, x, dt, drift, disp, order):
        return self.ip.models.tme_mean_and_cov(self.ip, x, dt, drift, disp, order=order)

    def tmen_exp(self, x, dt, drift, disp, order, n, mu=None, sc=None):
        """TME of E prod_a ((X_a - mu_a) / sc_a)^n_a"""
        m = self.ip.models
        z = lambda u, a: div(sub(u.at(a), mu.at(a)), sc.at(a)) if sc is not None else (sub(u.at(a), mu.at(a)) if mu is not None else u.at(a))
        g = lambda u: self.P(0, u.shape[0], lambda a: power(z(u, a), n.at(a)))
        return numT(m.tme_expectation(self.ip, g, x, dt, drift, disp, order=order))

    def mvn(self, mu, cov, n):
        """the moment of order n (a multi-index) of N(mu, cov), opaque"""
        enc = [NF.canon(self.ip.models.arr(self.ip, v).lam()) for v in (mu, cov, n)]
        return app('mvnraw', *enc)

    # ---- recurrences
    def recur(self, n, init, step):
        single = not isinstance(init, tuple)
        ini = (init,) if single else init
        n = NF.canon(lift(n))
        if n.op == 'const' and n.args[0] <= 4:
            states = [ini]
            for k in range(int(n.args[0])):
                r = step(const(k), states[-1][0] if single else states[-1])
                states.append((r,) if single else r)

            def at0(K):
                K = NF.canon(lift(K))
                if K.op == 'const':
                    r = states[int(K.args[0])]
                else:
                    from .interp import merge
                    r = merge([(eq(K, const(j)), s) for j, s in enumerate(states)])
                return r[0] if single else r
            return at0

        def body(k, c):
            r = step(k, c[0] if single else c)
            return ((r,) if single else r), c
        final, outs, k = loops.core(self.ip, n, ini, body)

        def at(K):
            r = vsubst(outs, {k: lift(K)})
            return r[0] if single else r
        return at


class ConstCov:
    def __init__(self, ip, mean, cov):
        self.ip, self.mean, self.cov = ip, mean, cov

    def __call__(self, *args, **kw):
        return self.mean(*args, **kw), self.cov


class Fn:
    """Uninterpreted user callable.  kind:
    ew     elementwise (broadcast) over all arguments -> scalar per element
    outer  f(x: (...,), n: (N,), *scalars) -> (..., N)
    vec    f(array args, scalars...) -> array of `out` shape (opaque in all arguments)
    """

    def __init__(self, ip, name, kind, out=(), nres=1, symm=False, pos=False, sort='R', dt='f', rng=None):
        if rng is not None:
            hi = lift(rng)
            for r in range(nres):
                APP_RANGE[name if nres == 1 else f'{name}.{r}'] = lambda t: (ZERO, hi)
        self.ip, self.name, self.kind, self.out, self.nres, self.sort, self.dt = ip, name, kind, out, nres, sort, dt
        self.symm = symm
        if symm:
            for r in (range(nres) if symm is True else symm):
                Sym_info.symm.add(self.head(r))
        if pos:
            for r in range(nres):
                Sym_info.pos.add(self.head(r))

    def head(self, r):
        return self.name if self.nres == 1 else f'{self.name}.{r}'

    def pt(self, *args):
        if self.kind == 'rows':
            rs = tuple(tab(args[0].shape, lambda k, r=r: app(self.head(r), self.enc(args[0]), k)) for r in range(self.nres))
            return rs[0] if self.nres == 1 else rs
        rs = tuple(app(self.head(r), *[self.enc(a) for a in args], sort=self.sort) for r in range(self.nres))
        return rs[0] if self.nres == 1 else rs

    def enc(self, a):
        if isinstance(a, Tensor) and a.ndim:
            return a.lam()
        if isinstance(a, (tuple, list)):
            return mk('tup', tuple(self.enc(x) for x in a), 'L')
        return numT(a)

    def __call__(self, *args, **kw):
        m = self.ip.models
        if kw:
            raise Undecided('keyword arguments to a user function')
        if self.kind == 'ew':
            r = tuple(m.broadcast(self.ip, lambda *ts, r=r: app(self.head(r), *ts), list(args), 'f')
                      for r in range(self.nres))
            return r[0] if self.nres == 1 else r
        if self.kind == 'outer':
            x, n = m.arr(self.ip, args[0]), m.arr(self.ip, args[1])
            ex = [numT(a) for a in args[2:]]
            k = x.ndim
            return m.result(tab(x.shape + n.shape, lambda *i: app(self.head(0), x.at(*i[:k]), n.at(*i[k:]), *ex)))
        if self.kind == 'outerv':
            # rows of x: (r, d), orders n: (z, d) or (z,), further arguments shared -> (r, z)
            x, n = m.arr(self.ip, args[0]), m.arr(self.ip, args[1])
            if x.ndim != 2 or n.ndim not in (1, 2):
                raise Undecided('argument ranks of a vectorised user function')
            ex = [self.enc(a) for a in args[2:]]
            row = lambda t, i: tab(t.shape[1:], lambda *j: t.at(i, *j), t.dt).lam() if t.ndim == 2 else t.at(i)
            return tab((x.shape[0], n.shape[0]), lambda i, j: app(self.head(0), row(x, i), row(n, j), *ex))
        if self.kind == 'rows':
            # rows of x: (r, d) -> (r, d), row by row
            x = m.arr(self.ip, args[0])
            if x.ndim != 2:
                raise Undecided('argument ranks of a vectorised user function')
            rs = tuple(tab(x.shape, lambda i, k, r=r: app(self.head(r), tab(x.shape[1:], lambda *j: x.at(i, *j), x.dt).lam(), k))
                       for r in range(self.nres))
            return rs[0] if self.nres == 1 else rs
        enc = [self.enc(a) for a in args]
        rs = []
        for r in range(self.nres):
            shp = self.out[r] if self.nres > 1 else self.out
            rs.append(tab(shp, lambda *i, r=r: app(self.head(r), *enc, *i, sort=self.sort), self.dt) if len(shp)
                      else app(self.head(r), *enc, sort=self.sort))
        return rs[0] if self.nres == 1 else tuple(rs)


class SymG:
    conc = False

    def __init__(self, ip, fixed=None):
        self.ip = ip
        self.fixed = fixed or {}
        self.sizes = {}

    def size(self, name, lo=1, hi=None, conc=None, hi_conc=None):
        if name in self.fixed:
            return const(self.fixed[name])
        s = sym(name, 'I')
        Sym_info.lo[s] = const(lo)
        if hi is not None:
            Sym_info.hi[s] = const(hi + 1)
        self.sizes[name] = s
        return s

    int_ = size

    def real(self, name, pos=False, gen=None, nonneg=False):
        s = sym(name, 'R')
        if pos:
            Sym_info.pos.add(s)
        return s

    def arr(self, name, shape, gen=None, symm=False, pos=False, dt='f', np=False, pos_at=(), rng=None, nat=False, simplex=False):
        a = sym(name, 'A')
        if simplex:     # the entries sum to one
            Sym_info.rule[a] = (None, lift(shape[0]))
        if rng is not None:
            hi = lift(rng)
            APP_RANGE[a] = lambda t: (ZERO, hi)
        elif nat:
            APP_RANGE[a] = lambda t: (ZERO, None)
        for k in pos_at:
            Sym_info.pos.add(sel(a, const(k)))
        if symm:
            Sym_info.symm.add(a)
        if pos:
            Sym_info.pos.add(a)
        srt = {'i': 'I', 'f': 'R', 'b': 'B', 'k': 'K'}[dt]
        t = tab(shape, lambda *i: sel(a, *i, sort=srt), dt, np)
        t.isinput, t.name = True, name
        return t

    def spd(self, name, n, gen=None):
        return self.arr(name, (n, n), symm=True)

    def key(self, name='key'):
        return sym(name, 'K')

    def fn(self, name, kind, gen=None, **kw):
        return Fn(self.ip, name, kind, **kw)

    def rule(self, w, xi):
        """(w, xi) is a quadrature rule exact for polynomials of degree two under N(0, I)"""
        Sym_info.rule[sym('w', 'A')] = (sym('xi', 'A'), w.shape[0])

    def fn_const(self, name, out, symm=True):
        """a user function returning (mean, covariance) whose covariance does not depend on the point"""
        return ConstCov(self.ip, Fn(self.ip, name, 'vec', out=out[0]), self.arr(name + '_cov', out[1], symm=symm))

    def assume(self, c):
        if c is not TRUE:
            Ctx.base.append(c)

    def pick(self, name, sym_value, gen):
        return sym_value
