"""Contracts of mfs/classical_filters_smoothers/gfs.py and quadratures.py: Kalman (C12), extended / sigma-point (C13),
continuous-discrete (C14), sigma-point rules (C15)"""
from .base import Contract, Abs
from . import gens

GF = 'mfs.classical_filters_smoothers.gfs:'
QU = 'mfs.classical_filters_smoothers.quadratures:'


# ------------------------------------------------------------------ specification helpers

def mv(M, A, x):
    n, k = M.shape(A, 0), M.shape(A, 1)
    return M.tab(n, lambda i: M.S(k, lambda j: A[i, j] * x[j]))


def vadd(M, a, b, s=1):
    return M.tab(M.shape(a, 0), lambda i: a[i] + s * b[i])


def madd(M, a, b, s=1):
    return M.tab((M.shape(a, 0), M.shape(a, 1)), lambda i, j: a[i, j] + s * b[i, j])


def sandwich(M, A, P, Q=None):
    """A P A' (+ Q)"""
    n, k = M.shape(A, 0), M.shape(A, 1)
    return M.tab((n, n), lambda i, j: M.S(k, lambda p: M.S(k, lambda q: A[i, p] * P[p, q] * A[j, q])) + (Q[i, j] if Q is not None else 0))


def condition(M, mp, vp, pred, S, C, y, alt=False):
    """Gaussian conditioning: joint mean (mp, pred), covariances vp, S, cross-covariance C (dx, dy); observe y"""
    K = M.mm(C, M.inv(S))
    mean = vadd(M, mp, mv(M, K, vadd(M, y, pred, -1)))
    if alt:
        cov = M.alt(lambda: madd(M, vp, sandwich(M, K, S), -1), lambda: madd(M, vp, M.mm(K, M.tr(C)), -1))
    else:
        cov = madd(M, vp, M.mm(K, M.tr(C)), -1)
    return mean, cov, -M.gauss_logpdf(y, pred, S)


def _dims(*ks):
    def f(*args):
        return tuple(tuple(args[k].shape[j] for k, j in shp) for shp in ks)
    return f


LU = Abs('linupd', GF + '_linear_update', [('mp', 'a'), ('vp', 's'), ('H', 'a'), ('pred_y', 'a'), ('Xi', 's'), ('y', 'a')],
         lambda mp, vp, H, pred, Xi, y: ((mp.shape[0],), (mp.shape[0], mp.shape[0]), ()),
         lambda M, mp, vp, H, pred, Xi, y: condition(M, mp, vp, pred, sandwich(M, H, vp, Xi), M.mm(vp, M.tr(H)), y), symm=(1,))

LP = Abs('linpred', GF + '_linear_predict', [('F', 'a'), ('Sigma', 's'), ('m', 'a'), ('P', 's')],
         lambda F, S, m, P: ((F.shape[0],), (F.shape[0], F.shape[0])),
         lambda M, F, S, m, P: (mv(M, F, m), sandwich(M, F, P, S)), symm=(1,))

GS = Abs('gsmooth', GF + '_gaussian_smoother_shared',
         [('DT', 'a'), ('mf', 'a'), ('vf', 's'), ('mp', 'a'), ('vp', 's'), ('ms', 'a'), ('vs', 's')],
         lambda DT, mf, vf, mp, vp, ms, vs: ((mf.shape[0],), (mf.shape[0], mf.shape[0])),
         lambda M, DT, mf, vf, mp, vp, ms, vs: rts_step(M, M.tr(DT), mf, vf, mp, vp, ms, vs), symm=(1,))


def symm_lemma(*rs):
    """the flagged results are symmetric matrices (used by callers)"""
    def lem(M, inp, val, **case):
        from engine.terms import fresh
        from engine.solver import assuming, le, lt
        from engine import nf as NF
        out = []
        for r in rs:
            t = val[r]
            i, j = fresh('i', 'I', 0, t.shape[0]), fresh('j', 'I', 0, t.shape[0])
            with assuming(le(0, i), lt(i, t.shape[0]), le(0, j), lt(j, t.shape[0])):
                out.append((f'result[{r}] is symmetric', bool(NF.term_eq(t.at(i, j), t.at(j, i)))))
        return out
    return lem


def lin_update(M, mp, vp, H, pred, Xi, y):
    return LU(M, mp, vp, H, pred, Xi, y)


def filt(M, m0, v0, ys, step):
    T_ = M.shape(ys, 0)

    def body(k, st):
        m, v, ell = st
        m, v, inc = step(m, v, ys[k])
        return m, v, ell + inc
    at = M.recur(T_, (m0, v0, M.pow(0, 1)), body)
    return tuple(M.tab(T_, lambda k, r=r: at(k + 1)[r]) for r in range(3))


def smooth(M, mfs, vfs, step):
    """backward recursion from the last filtering estimate"""
    T_ = M.shape(mfs, 0)

    def body(k, st):
        t = T_ - 2 - k
        return step(st[0], st[1], mfs[t], vfs[t])
    at = M.recur(T_ - 1, (mfs[T_ - 1], vfs[T_ - 1]), body)
    return tuple(M.tab(T_, lambda k, r=r: at(T_ - 1 - k)[r]) for r in range(2))


def rts_step(M, D, mf, vf, mp, vp, ms, vs):
    """D = Cov(x_k, x_k+1)"""
    Gn = M.mm(D, M.inv(vp))
    return vadd(M, mf, mv(M, Gn, vadd(M, ms, mp, -1))), sandwich(M, Gn, madd(M, vs, vp, -1), vf)


# ------------------------------------------------------------------ Kalman (C12)

def _lu_in(G):
    dx, dy = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 3, 1))
    return dict(mp=G.arr('mp', (dx,)), vp=G.spd('vp', dx), H=G.arr('H', (dy, dx)), pred=G.arr('pred', (dy,)), Xi=G.spd('Xi', dy),
                y=G.arr('y', (dy,)))


Contract('_linear_update', 'C12', GF + '_linear_update', _lu_in, lambda M, i: LU.defn(M, *i.values()), abs=LU,
         lemmas=symm_lemma(1), also=('C13', 'C14'))


def _lp_in(G):
    dx = G.size('dx', lo=1, conc=(1, 2, 3))
    return dict(F=G.arr('F', (dx, dx)), Sigma=G.spd('Sigma', dx), m=G.arr('m', (dx,)), P=G.spd('P', dx))


Contract('_linear_predict', 'C12', GF + '_linear_predict', _lp_in, lambda M, i: LP.defn(M, *i.values()), abs=LP,
         lemmas=symm_lemma(1))


def _gsm_in(G):
    dx = G.size('dx', lo=1, conc=(1, 2, 3))
    return dict(DT=G.arr('DT', (dx, dx)), mf=G.arr('mf', (dx,)), vf=G.spd('vf', dx), mp=G.arr('mp', (dx,)), vp=G.spd('vp', dx),
                ms=G.arr('ms', (dx,)), vs=G.spd('vs', dx))


Contract('_gaussian_smoother_shared', 'C12', GF + '_gaussian_smoother_shared', _gsm_in, lambda M, i: GS.defn(M, *i.values()), abs=GS,
         lemmas=symm_lemma(1), also=('C13',))


def _kf_in(G):
    dx, dy, T_ = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 3, 1)), G.size('T', lo=1, conc=(1, 2, 4))
    return dict(F=G.arr('F', (dx, dx)), Sigma=G.spd('Sigma', dx), H=G.arr('H', (dy, dx)), Xi=G.spd('Xi', dy),
                m0=G.arr('m0', (dx,)), v0=G.spd('v0', dx), ys=G.arr('ys', (T_, dy)))


def _kf(M, i):
    F, H = i['F'], i['H']

    def step(m, v, y):
        mp, vp = LP(M, F, i['Sigma'], m, v)
        return lin_update(M, mp, vp, H, mv(M, H, mp), i['Xi'], y)
    return filt(M, i['m0'], i['v0'], i['ys'], step)


MODES = ('opaque', 'inline')
Contract('kf', 'C12', GF + 'kf', _kf_in, _kf, modes=MODES)


def _sm_in(G, extra):
    dx, T_ = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('T', lo=1, conc=(1, 2, 4))
    d = extra(G, dx)
    d['mfs'] = G.arr('mfs', (T_, dx))
    d['vfs'] = G.arr('vfs', (T_, dx, dx), symm=True, gen=gens.spd_seq)
    return d


def _rts(M, i):
    F = i['F']
    return smooth(M, i['mfs'], i['vfs'], lambda ms, vs, mf, vf: GS(M, M.mm(F, vf), mf, vf, mv(M, F, mf),
                                                                       sandwich(M, F, vf, i['Sigma']), ms, vs))


Contract('rts', 'C12', GF + 'rts', lambda G: _sm_in(G, lambda G, dx: dict(F=G.arr('F', (dx, dx)), Sigma=G.spd('Sigma', dx))), _rts, modes=MODES)


# ------------------------------------------------------------------ extended Kalman (C13)

def _mc(G, dx):
    return G.fn('mc', 'vec', out=((dx,), (dx, dx)), nres=2, symm=(1,), gen=gens.m_and_cov)


def _hc(G, dx, dy):
    return G.fn('hc', 'vec', out=((dy,), (dy, dy)), nres=2, symm=(1,), gen=gens.meas)


def _ekf_in(G, fwd):
    dx, dy, T_ = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 3, 1)), G.size('T', lo=1, conc=(1, 2, 4))
    return dict(mc=_mc(G, dx), hc=_hc(G, dx, dy), m0=G.arr('m0', (dx,)), v0=G.spd('v0', dx),
                dt=G.real('dt', pos=True, gen=gens.dt), ys=G.arr('ys', (T_, dy)))


def _eku(M, hc, mp, vp, y, fwd=None):
    pred, Xi = hc(mp)
    return LU(M, mp, vp, M.jacf(hc, mp), pred, Xi, y)


EU = Abs('ekfupd', GF + '_ekf_update', [('measurement_cond_m_cov', ('f', [1])), ('mp', 'a'), ('vp', 's'), ('y', 'a')],
         lambda hc, mp, vp, y: ((mp.shape[0],), (mp.shape[0], mp.shape[0]), ()), _eku, symm=(1,))


def _eku_in(G, fwd):
    dx, dy = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 3, 1))
    return dict(hc=_hc(G, dx, dy), mp=G.arr('mp', (dx,)), vp=G.spd('vp', dx), y=G.arr('y', (dy,)))


Contract('_ekf_update', 'C13', GF + '_ekf_update', _eku_in, lambda M, i, fwd: _eku(M, *i.values()), abs=EU, lemmas=symm_lemma(1),
         call=lambda i, fwd: (list(i.values()), dict(fwd_jacobian=fwd)), cases=[dict(fwd=False), dict(fwd=True)], modes=MODES,
         also=('C14',))


def _ekf(M, i, fwd):
    mc, dt = i['mc'], i['dt']

    def step(m, v, y):
        mp, Sg = mc(m, dt)
        return EU(M, i['hc'], mp, sandwich(M, M.jacf(mc, m, dt), v, Sg), y)
    return filt(M, i['m0'], i['v0'], i['ys'], step)


FWD = [dict(fwd=False), dict(fwd=True)]
Contract('ekf', 'C13', GF + 'ekf', _ekf_in, _ekf, modes=MODES, cases=FWD,
         call=lambda i, fwd: ([i['mc'], i['hc'], i['m0'], i['v0'], i['dt'], i['ys']], dict(fwd_jacobian=fwd)))


def _eks(M, i):
    mc, dt = i['mc'], i['dt']

    def step(ms, vs, mf, vf):
        J = M.jacf(mc, mf, dt)
        mp, Sg = mc(mf, dt)
        return GS(M, M.mm(J, vf), mf, vf, mp, sandwich(M, J, vf, Sg), ms, vs)
    return smooth(M, i['mfs'], i['vfs'], step)


Contract('eks', 'C13', GF + 'eks', lambda G: _sm_in(G, lambda G, dx: dict(mc=_mc(G, dx), dt=G.real('dt', pos=True, gen=gens.dt))), _eks, modes=MODES,
         call=lambda i: ([i['mc'], i['mfs'], i['vfs'], i['dt']], {}))


# ------------------------------------------------------------------ sigma points

def _hcc(G, dy, const):
    """the measurement model; with const its covariance is the same at every point"""
    out = ((dy,), (dy, dy))
    if const and not G.conc:
        return G.fn_const('hc', out)
    return G.fn('hc', 'vec', out=out, nres=2, symm=(1,), gen=gens.meas_const if const else gens.meas)


def sgps(G, dx, exact=True):
    s = G.size('s', lo=1, conc=(4, 5))
    if G.conc:
        return gens.RealSGP(G.rng, G.trial, dx)
    from engine.interp import Instance
    w, xi = G.arr('w', (s,)), G.arr('xi', (s, dx))
    if exact:
        G.rule(w, xi)
    return SymSGP(G.ip, dx, s, w, xi)


def SymSGP(ip, d, s, w, xi):
    from engine.interp import Interp
    cls = ip.function(QU + 'SigmaPoints')
    return ip.call(cls, [], dict(d=d, n_points=s, w=w, wc=None, xi=xi))


def fld(M, sg, k):
    return getattr(sg, k) if M.conc else sg.fields[k]


def sg_pts(M, sg, m, v):
    xi, L = fld(M, sg, 'xi'), M.chol(v)
    d = M.shape(xi, 1)
    return M.tab((M.shape(xi, 0), d), lambda s, a: m[a] + M.S(d, lambda b: L[a, b] * xi[s, b]))


def sg_moments(M, sg, chi, f):
    """f(chi_s) -> (mean, cov); returns mean, covariance (total), cross-covariance with chi, evaluations"""
    w = fld(M, sg, 'w')
    s = M.shape(w, 0)
    ev = M.tab(s, lambda r: f(chi[r]))
    fm, fc = ev
    dy, dx = M.shape(fm, 1), M.shape(chi, 1)
    mu = M.tab(dy, lambda a: M.S(s, lambda r: w[r] * fm[r, a]))
    cov = M.tab((dy, dy), lambda a, b: M.S(s, lambda r: w[r] * (fm[r, a] * fm[r, b] + fc[r, a, b])) - mu[a] * mu[b])
    return mu, cov, fm, fc


def sg_cross(M, sg, chi, m, fm, mu):
    w = fld(M, sg, 'w')
    s = M.shape(w, 0)
    return M.tab((M.shape(chi, 1), M.shape(fm, 1)), lambda a, b: M.S(s, lambda r: w[r] * chi[r, a] * fm[r, b]) - m[a] * mu[b])


def sg_update(M, sg, hc, mp, vp, y, const, top=False):
    chi = sg_pts(M, sg, mp, vp)
    pred, S, fm, fc = sg_moments(M, sg, chi, hc)
    if const:
        w = fld(M, sg, 'w')
        dy = M.shape(fm, 1)
        S = M.tab((dy, dy), lambda a, b: M.S(M.shape(w, 0), lambda r: w[r] * fm[r, a] * fm[r, b]) - pred[a] * pred[b] + fc[0, a, b])
    return condition(M, mp, vp, pred, S, sg_cross(M, sg, chi, mp, fm, pred), y, alt=top)


def _sgp_pred(M, sg, mc, dt, m, v):
    """mc: function of one point (and dt)"""
    chi = sg_pts(M, sg, m, v)
    mp, vp, fm, fc = sg_moments(M, sg, chi, lambda x: mc(x, dt))
    return mp, vp, chi, fm


def rows(M, f, s):
    """point function -> function of an array of points"""
    def g(chi, *r):
        return M.tab(M.shape(chi, 0), lambda k: f(chi[k], *r))
    return g


def _like_chi(args):
    return [args[0].fields['xi']]


SP = Abs('sgppred', GF + '_sgp_prediction',
         [('sgps', 'sg'), ('vectorised_state_cond_m_cov', ('f', lambda a: [a[0].fields['xi'], a[2]])), ('dt', 'a'), ('mf', 'a'), ('vf', 's')],
         lambda sg, f, dt, m, v: ((m.shape[0],), (m.shape[0], m.shape[0]), sg.fields['xi'].shape, sg.fields['xi'].shape),
         None, symm=(1,))


def SGPRED(M, sg, mc, dt, m, v):
    if M.conc or M.mode == 'inline':
        return _sgp_pred(M, sg, mc, dt, m, v)
    return SP.opaque(M, [sg, rows(M, mc, None), dt, m, v])


def _sgpp_in(G):
    dx = G.size('dx', lo=1, conc=(1, 2, 3))
    return dict(sg=sgps(G, dx), mc=_mc(G, dx), dt=G.real('dt', pos=True, gen=gens.dt), m=G.arr('m', (dx,)), v=G.spd('v', dx))


def vec(f, nargs):
    """vectorised form of a point function, as the callers build it"""
    if hasattr(f, 'jax'):
        import jax
        return jax.vmap(f.jax, in_axes=[0] + [None] * nargs)
    return f.ip.models.vmap(f.ip, f, in_axes=[0] + [None] * nargs)


Contract('_sgp_prediction', 'C13', GF + '_sgp_prediction', _sgpp_in, lambda M, i: _sgp_pred(M, *i.values()), abs=SP,
         call=lambda i: ([i['sg'], vec(i['mc'], 1), i['dt'], i['m'], i['v']], {}), lemmas=symm_lemma(1), jit=False)

SU = {c: Abs('sgpupd%d' % c, GF + '_sgp_update', [('sgps', 'sg'), ('vectorised_measurement_cond_m_cov', ('f', _like_chi)), ('mp', 'a'),
                                                 ('vp', 's'), ('y', 'a')],
             lambda sg, f, m, v, y: ((m.shape[0],), (m.shape[0], m.shape[0]), ()), None, symm=(1,)) for c in (False, True)}


class SUsel:
    @staticmethod
    def callee(M, env):
        return SU[bool(M.ip.truth(env['const_measurement_cov']))].callee(M, env)


def SGUPD(M, sg, hc, mp, vp, y, const):
    if M.conc or M.mode == 'inline':
        return sg_update(M, sg, hc, mp, vp, y, const)
    return SU[const].opaque(M, [sg, rows(M, hc, None), mp, vp, y])


def _sgu_in(G, const):
    dx, dy = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 1))
    return dict(sg=sgps(G, dx), hc=_hcc(G, dy, const),
                mp=G.arr('mp', (dx,)), vp=G.spd('vp', dx), y=G.arr('y', (dy,)))


Contract('_sgp_update', 'C13', GF + '_sgp_update', _sgu_in, lambda M, i, const: sg_update(M, *i.values(), const, top=True), abs=SUsel,
         call=lambda i, const: ([i['sg'], vec(i['hc'], 0), i['mp'], i['vp'], i['y'], const], {}), lemmas=symm_lemma(1), jit=False,
         cases=[dict(const=False), dict(const=True)], also=('C14',))


def _sgf_in(G, const):
    dx, dy, T_ = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 1)), G.size('T', lo=1, conc=(1, 2, 3))
    return dict(mc=_mc(G, dx), hc=_hcc(G, dy, const),
                sg=sgps(G, dx), m0=G.arr('m0', (dx,)), v0=G.spd('v0', dx), dt=G.real('dt', pos=True, gen=gens.dt), ys=G.arr('ys', (T_, dy)))


def _sgf(M, i, const):
    sg, dt = i['sg'], i['dt']

    def step(m, v, y):
        mp, vp, _, _ = SGPRED(M, sg, i['mc'], dt, m, v)
        return SGUPD(M, sg, i['hc'], mp, vp, y, const)
    return filt(M, i['m0'], i['v0'], i['ys'], step)


CONST = [dict(const=False), dict(const=True)]
Contract('sgp_filter', 'C13', GF + 'sgp_filter', _sgf_in, _sgf, modes=MODES, cases=CONST,
         call=lambda i, const: ([i['mc'], i['hc'], i['sg'], i['m0'], i['v0'], i['dt'], i['ys']], dict(const_measurement_cov=const)))


def _sgs(M, i):
    sg, dt = i['sg'], i['dt']

    def step(ms, vs, mf, vf):
        mp, vp, chi, fm = SGPRED(M, sg, i['mc'], dt, mf, vf)
        return GS(M, M.tr(sg_cross(M, sg, chi, mf, fm, mp)), mf, vf, mp, vp, ms, vs)
    return smooth(M, i['mfs'], i['vfs'], step)


Contract('sgp_smoother', 'C13', GF + 'sgp_smoother',
         lambda G: _sm_in(G, lambda G, dx: dict(mc=_mc(G, dx), sg=sgps(G, dx), dt=G.real('dt', pos=True, gen=gens.dt))), _sgs, modes=MODES,
         call=lambda i: ([i['mc'], i['sg'], i['mfs'], i['vfs'], i['dt']], {}))


# ------------------------------------------------------------------ Runge--Kutta (C14)

def _rk4(M, f, m, v, dt, *rest):
    def shift(k, c):
        return (M.tab(M.shape(m, 0), lambda a: m[a] + c * k[0][a]),
                M.tab((M.shape(v, 0), M.shape(v, 1)), lambda a, b: v[a, b] + c * k[1][a, b]))
    h = M.div(dt, 2)
    k1 = f(m, v, *rest)
    k2 = f(*shift(k1, h), *rest)
    k3 = f(*shift(k2, h), *rest)
    k4 = f(*shift(k3, dt), *rest)
    s6 = M.div(dt, 6)
    return (M.tab(M.shape(m, 0), lambda a: m[a] + s6 * (k1[0][a] + 2 * k2[0][a] + 2 * k3[0][a] + k4[0][a])),
            M.tab((M.shape(v, 0), M.shape(v, 1)), lambda a, b: v[a, b] + s6 * (k1[1][a, b] + 2 * k2[1][a, b] + 2 * k3[1][a, b] + k4[1][a, b])))


class RK4(Abs):
    """Opaque RK4 step.  If v is symmetric and the vector field maps symmetric matrices to symmetric ones, so is the result
    (lemma of the contracts of rk4_m_cov and rk4_m_cov_backward)."""

    def __init__(self, name, target, back):
        self.name, self.target, self.back = name, target, back
        self.params = [('m_cov_ode', None), ('m', 'a'), ('v', 's')] + ([('mf', 'a'), ('vf', 's')] if back else []) + [('dt', 'a')]

    def __call__(self, M, f, m, v, dt, *rest):
        if M.conc or M.mode == 'inline':
            return _rk4(M, f, m, v, dt, *rest)
        return self.opaque(M, [f, m, v] + list(rest) + [dt])

    def callee(self, M, env):
        return self.opaque(M, [env[p] for p, _ in self.params])

    def opaque(self, M, args):
        from engine.terms import app, mk, flam, fresh, sel
        from engine.values import tab
        from engine.solver import Sym_info
        from engine import nf as NF
        ip, md = M.ip, M.ip.models
        enc = [self.enc(M, args, k) for k in range(1, len(args))]
        syms, vals = [], []
        for a in args[1:-1]:
            X, Xv = md.fn_symbol_arg(a, ip)
            if Xv.ndim == 2:
                Sym_info.symm.add(X)
            syms.append(X)
            vals.append(Xv)
        om, ov = ip.local(set(syms), [], lambda: ip.call(args[0], vals))
        L = NF.canon(ov.lam())
        if not NF.lam_symmetric(L):
            raise NF.Undecided('the covariance vector field is not shown to preserve symmetry')
        # the bound matrix arguments are renamed by the binder: mark the bound names symmetric as well
        F = NF.canon(flam(tuple(syms), mk('tup', (NF.canon(om.lam()), L), 'L')))
        d = args[1].shape[0]
        Sym_info.symm.add(self.name + '.1')
        return (tab((d,), lambda i: app(self.name + '.0', F, *enc, i)), tab((d, d), lambda i, j: app(self.name + '.1', F, *enc, i, j)))


RKF = RK4('rk4', QU + 'rk4_m_cov', False)
RKB = RK4('rk4b', QU + 'rk4_m_cov_backward', True)


def _rk_in(G, back):
    dx = G.size('dx', lo=1, conc=(1, 2, 3))
    d = dict(f=G.fn('ode', 'vec', out=((dx,), (dx, dx)), nres=2, symm=(1,), gen=gens.ode4 if back else gens.ode2),
             m=G.arr('m', (dx,)), v=G.spd('v', dx))
    if back:
        d.update(mf=G.arr('mf', (dx,)), vf=G.spd('vf', dx))
    d['dt'] = G.real('dt', gen=gens.dt)
    return d


Contract('rk4_m_cov', 'C14', QU + 'rk4_m_cov', lambda G: _rk_in(G, False), lambda M, i: _rk4(M, i['f'], i['m'], i['v'], i['dt']), abs=RKF, inline=(QU + 'rk4_m_cov_backward',),
         lemmas=symm_lemma(1))
Contract('rk4_m_cov_backward', 'C14', QU + 'rk4_m_cov_backward', lambda G: _rk_in(G, True),
         lambda M, i: _rk4(M, i['f'], i['m'], i['v'], i['dt'], i['mf'], i['vf']), abs=RKB, lemmas=symm_lemma(1),
         inline=(QU + 'rk4_m_cov',))


# ------------------------------------------------------------------ continuous-discrete filters and smoothers (C14)

def _outer_self(M, B):
    n, w = M.shape(B, 0), M.shape(B, 1)
    return M.tab((n, n), lambda a, b: M.S(w, lambda k: B[a, k] * B[b, k]))


def _sde(G, dx):
    dw = G.size('dw', lo=1, conc=(1, 2, 3))
    return dict(drift=G.fn('drift', 'vec', out=(dx,), gen=gens.driftn), disp=G.fn('disp', 'vec', out=(dx, dw), gen=gens.dispn))


def _cdekf_in(G, fwd):
    dx, dy, T_ = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 3, 1)), G.size('T', lo=1, conc=(1, 2, 4))
    d = _sde(G, dx)
    d.update(hc=_hc(G, dx, dy), m0=G.arr('m0', (dx,)), v0=G.spd('v0', dx), dt=G.real('dt', pos=True, gen=gens.dt), ys=G.arr('ys', (T_, dy)))
    return d


def _sym2(M, A):
    """A + A'"""
    n = M.shape(A, 0)
    return M.tab((n, n), lambda a, b: A[a, b] + A[b, a])


def _cdekf(M, i, fwd):
    def ode(m, v):
        return i['drift'](m), madd(M, _sym2m(M, M.jacf(i['drift'], m), v), _outer_self(M, i['disp'](m)))

    def step(m, v, y):
        mp, vp = RKF(M, ode, m, v, i['dt'])
        return EU(M, i['hc'], mp, vp, y)
    return filt(M, i['m0'], i['v0'], i['ys'], step)


def _sym2m(M, A, v):
    """A v + v A'"""
    n = M.shape(A, 0)
    return M.tab((n, n), lambda a, b: M.S(n, lambda k: A[a, k] * v[k, b] + v[a, k] * A[b, k]))


Contract('cd_ekf', 'C14', GF + 'cd_ekf', _cdekf_in, _cdekf, cases=FWD, modes=MODES,
         call=lambda i, fwd: ([i['drift'], i['disp'], i['hc'], i['m0'], i['v0'], i['dt'], i['ys']], dict(fwd_jacobian=fwd)))


def _cdeks(M, i):
    def ode(m, v, mf, vf):
        Gm = _outer_self(M, i['disp'](m))
        Vi = M.inv(M.symm(vf))
        A = madd(M, M.jacf(i['drift'], m), M.mm(Gm, Vi))
        return (vadd(M, i['drift'](m), mv(M, Gm, mv(M, Vi, vadd(M, m, mf, -1)))), madd(M, _sym2m(M, A, v), Gm, -1))
    return smooth(M, i['mfs'], i['vfs'], lambda ms, vs, mf, vf: RKB(M, ode, ms, vs, -i['dt'], mf, vf))


Contract('cd_eks', 'C14', GF + 'cd_eks',
         lambda G: _sm_in(G, lambda G, dx: dict(_sde(G, dx), dt=G.real('dt', pos=True, gen=gens.dt))), _cdeks, modes=MODES,
         call=lambda i: ([i['drift'], i['disp'], i['mfs'], i['vfs'], i['dt']], {}))


def sg_ode(M, sg, drift, B, m, v):
    w, xi, L = fld(M, sg, 'w'), fld(M, sg, 'xi'), M.chol(v)
    s, d = M.shape(w, 0), M.shape(m, 0)
    dev = M.tab((s, d), lambda r, a: M.S(d, lambda b: L[a, b] * xi[r, b]))
    chi = M.tab((s, d), lambda r, a: m[a] + dev[r, a])
    f = M.tab(s, lambda r: drift(chi[r]))
    C = M.tab((d, d), lambda a, b: M.S(s, lambda r: w[r] * dev[r, a] * f[r, b]))
    return M.tab(d, lambda a: M.S(s, lambda r: w[r] * f[r, a])), madd(M, _sym2(M, C), _outer_self(M, B))


def _cdsg(G, dx):
    dw = G.size('dw', lo=1, conc=(1, 2, 3))
    return dict(drift=G.fn('drift', 'vec', out=(dx,), gen=gens.driftn), B=G.arr('B', (dx, dw)), sg=sgps(G, dx))


def _cdsgf_in(G, const):
    dx, dy, T_ = G.size('dx', lo=1, conc=(1, 2, 3)), G.size('dy', lo=1, conc=(1, 2, 1)), G.size('T', lo=1, conc=(1, 2, 3))
    d = _cdsg(G, dx)
    d.update(hc=_hcc(G, dy, const),
             m0=G.arr('m0', (dx,)), v0=G.spd('v0', dx), dt=G.real('dt', pos=True, gen=gens.dt), ys=G.arr('ys', (T_, dy)))
    return d


def _cdsgf(M, i, const):
    def step(m, v, y):
        mp, vp = RKF(M, lambda m, v: sg_ode(M, i['sg'], i['drift'], i['B'], m, v), m, v, i['dt'])
        return SGUPD(M, i['sg'], i['hc'], mp, vp, y, const)
    return filt(M, i['m0'], i['v0'], i['ys'], step)


Contract('cd_sgp_filter', 'C14', GF + 'cd_sgp_filter', _cdsgf_in, _cdsgf, cases=CONST, modes=MODES,
         call=lambda i, const: ([i['drift'], i['B'], i['hc'], i['sg'], i['m0'], i['v0'], i['dt'], i['ys']], dict(const_measurement_cov=const)))


def _cdsgs(M, i):
    def ode(m, v, mf, vf):
        Gm = _outer_self(M, i['B'])
        A = M.mm(Gm, M.inv(M.symm(vf)))
        a, b = sg_ode(M, i['sg'], i['drift'], i['B'], m, v)
        return vadd(M, a, mv(M, A, vadd(M, m, mf, -1))), madd(M, madd(M, b, _sym2m(M, A, v)), Gm, -2)
    return smooth(M, i['mfs'], i['vfs'], lambda ms, vs, mf, vf: RKB(M, ode, ms, vs, -i['dt'], mf, vf))


Contract('cd_sgp_smoother', 'C14', GF + 'cd_sgp_smoother',
         lambda G: _sm_in(G, lambda G, dx: dict(_cdsg(G, dx), dt=G.real('dt', pos=True, gen=gens.dt))), _cdsgs, modes=MODES,
         call=lambda i: ([i['drift'], i['B'], i['sg'], i['mfs'], i['vfs'], i['dt']], {}))
