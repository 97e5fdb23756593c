"""Contracts of the sigma-point rules (mfs/classical_filters_smoothers/quadratures.py)"""
from .base import Contract
from . import gens
from .gfs import QU, sgps, fld, SymSGP


# ------------------------------------------------------------------ cubature: exact to degree three

def _rule(M, w, xi):
    """moments of the rule up to degree three, and its size"""
    s, d = M.shape(w, 0), M.shape(xi, 1)
    return (s, M.S(s, lambda q: w[q]),
            M.tab(d, lambda a: M.S(s, lambda q: w[q] * xi[q, a])),
            M.tab((d, d), lambda a, b: M.S(s, lambda q: w[q] * xi[q, a] * xi[q, b])),
            M.tab((d, d, d), lambda a, b, c: M.S(s, lambda q: w[q] * xi[q, a] * xi[q, b] * xi[q, c])))


def _cub_post(M, ip, r, i):
    f = r.fields
    return (f['d'], f['n_points']) + _rule(M, f['w'], f['xi'])


def _cub_conc(M, r, i):
    import numpy as np
    return (r.d, r.n_points) + _rule(M, np.asarray(r.w), np.asarray(r.xi))


def _cub(M, i):
    d = i['d']
    return (d, 2 * d, 2 * d, M.pow(1, 1), M.tab(d, lambda a: 0 * M.sqrt(1)), M.tab((d, d), lambda a, b: M.ite(M.eq(a, b), 1, 0)),
            M.tab((d, d, d), lambda a, b, c: 0 * M.sqrt(1)))


Contract('SigmaPoints.cubature', 'C15', QU + 'SigmaPoints.cubature', lambda G: dict(d=G.size('d', lo=1, conc=(1, 2, 3, 5, 4))), _cub,
         post=_cub_post, conc_post=_cub_conc, jit=False, trials=5)


# ------------------------------------------------------------------ points and expectations

def _gen_in(G):
    d = G.size('dx', lo=1, conc=(1, 2, 3))
    return dict(sg=sgps(G, d, exact=False), m=G.arr('m', (d,)), L=G.arr('L', (d, d)))


def _pts(M, i):
    xi = fld(M, i['sg'], 'xi')
    d = M.shape(xi, 1)
    return M.tab((M.shape(xi, 0), d), lambda q, a: i['m'][a] + M.S(d, lambda b: i['L'][a, b] * xi[q, b]))


Contract('SigmaPoints.gen_sigma_points', 'C15', QU + 'SigmaPoints.gen_sigma_points', _gen_in, _pts)

SH = {0: (), 1: ('k',), 2: ('k', 'l')}


def _ex_in(G, nd):
    d = G.size('dx', lo=1, conc=(1, 2, 3))
    sg = sgps(G, d, exact=False)
    s = len(sg.w) if G.conc else sg.fields['w'].shape[0]
    return dict(sg=sg, ev=G.arr('ev', (s,) + tuple(G.size(n, lo=1, conc=(1, 2, 3)) for n in SH[nd])))


def _wsum(M, w, ev, nd):
    s = M.shape(w, 0)
    if not nd:
        return M.S(s, lambda q: w[q] * ev[q])
    return M.tab(tuple(M.shape(ev, k + 1) for k in range(nd)), lambda *j: M.S(s, lambda q: w[q] * ev[(q, *j)]))


Contract('SigmaPoints.expectation', 'C15', QU + 'SigmaPoints.expectation', _ex_in,
         lambda M, i, nd: _wsum(M, fld(M, i['sg'], 'w'), i['ev'], nd), cases=[dict(nd=k) for k in range(3)])


def _en_in(G, nd):
    d = G.size('dx', lo=1, conc=(1, 2, 3))
    sg = sgps(G, d, exact=False)
    s = len(sg.w) if G.conc else sg.fields['w'].shape[0]
    shp = tuple(G.size(n, lo=1, conc=(1, 2, 3)) for n in SH[nd])
    return dict(sg=sg, f=G.fn('f', 'vec', out=shp, gen=gens.tensor_of_vec), chi=G.arr('chi', (s, d)))


def _rows(M, f, chi):
    return M.tab(M.shape(chi, 0), lambda q: f(chi[q]))


def _vmap(f):
    """the vectorised integrand"""
    from .gfs import vec
    return vec(f, 0)


Contract('SigmaPoints.expectation_from_nodes', 'C15', QU + 'SigmaPoints.expectation_from_nodes', _en_in,
         lambda M, i, nd: _wsum(M, fld(M, i['sg'], 'w'), _rows(M, i['f'], i['chi']), nd), cases=[dict(nd=k) for k in range(3)],
         call=lambda i, nd: ([i['sg'], _vmap(i['f']), i['chi']], {}))


# ------------------------------------------------------------------ Gauss-Hermite

def GHRULE(M, d, p):
    """callers: some rule of p**d points (exactness is the bounded contract gauss_hermite.exact)"""
    from engine.terms import app, power
    from engine.values import tab, toT
    from engine import nf as NF
    d, p = toT(d), toT(p)
    s = NF.canon(power(p, d))
    return SymSGP(M.ip, d, s, tab((s,), lambda q: app('ghw', d, p, q)), tab((s, d), lambda q, a: app('ghx', d, p, q, a)))


def _moment1(k):
    import math
    return 0. if k % 2 else float(math.prod(range(1, k, 2)))


def _gh_check(rng, trial, real):
    import itertools
    import numpy as np
    grid = [(1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 2), (1, 5), (4, 2), (3, 3), (2, 5), (1, 10), (3, 4), (4, 3), (1, 7), (2, 8),
            (5, 2), (2, 1), (3, 1), (1, 12), (1, 26), (1, 20), (1, 30), (1, 16), (2, 18), (2, 4), (1, 4), (1, 6), (2, 6), (1, 8), (1, 9), (5, 3), (4, 4), (2, 10), (3, 6)]
    d, p = grid[trial % len(grid)]
    r = real(QU + 'SigmaPoints.gauss_hermite')(d, p) if p != 3 or trial % 2 else real(QU + 'SigmaPoints.gauss_hermite')(d)
    w, xi = np.asarray(r.w), np.asarray(r.xi)
    if r.d != d or r.n_points != p ** d or w.shape != (p ** d,) or xi.shape != (p ** d, d):
        return [f'gauss_hermite({d}, {p}): d={r.d}, n_points={r.n_points}, w{w.shape}, xi{xi.shape}']
    degs = itertools.product(range(2 * p), repeat=d)
    if (2 * p) ** d > 400:
        degs = [tuple(rng.integers(0, 2 * p, size=d)) for _ in range(400)] + [tuple((2 * p - 2) * int(a == b) for a in range(d)) for b in range(d)]
    for k in degs:
        terms = w * np.prod(xi ** np.array(k), axis=1)
        got, want = terms.sum(), np.prod([_moment1(int(a)) for a in k])
        tol = 1e-6 * max(1., np.abs(terms).sum())
        if not abs(got - want) <= tol:
            return [f'gauss_hermite({d}, {p}): E x^{tuple(int(a) for a in k)} = {got!r}, exact {want!r}']


gh = Contract('gauss_hermite.exact', 'C15', QU + 'SigmaPoints.gauss_hermite', None, None, prove=False, trials=27,
              note='bounded: exactness of the Gauss-Hermite rule for dimensions up to 5 and orders up to 30 (polynomial roots are outside the verifier)')
gh.check = _gh_check
gh.callee = lambda M, e: GHRULE(M, e['d'], e['order'])


def _ge_in(G, mode):
    T_ = G.size('T', lo=1, conc=(1, 3, 2))
    d = 1 if mode == 'force' else G.size('dx', lo=1, conc=(1, 2))
    f = G.fn('f', 'vec', out=(G.size('k', lo=1, conc=(1, 2)),), gen=gens.tensor_of_vec)
    p = G.size('p', lo=1, conc=(1, 3, 5, 4))
    if mode == 'force':
        return dict(m=G.arr('m', (T_,)), L=G.arr('L', (T_,), pos=True), f=f, p=p, d=1)
    return dict(m=G.arr('m', (T_, d)), L=G.arr('L', (T_, d, d)), f=f, p=p, d=d)


def _ge(M, i, mode):
    d, p, m, L, f = i['d'], i['p'], i['m'], i['L'], i['f']
    if M.conc:
        import numpy as np
        x1, w1 = np.polynomial.hermite_e.hermegauss(p)
        w1 = w1 / w1.sum()
        import itertools
        xi = np.array(list(itertools.product(x1, repeat=d)))
        w = np.array([np.prod(t) for t in itertools.product(w1, repeat=d)])
        if mode == 'force':
            m, L = m.reshape(-1, 1), L.reshape(-1, 1, 1)
    else:
        r = GHRULE(M, d, p)
        w, xi = r.fields['w'], r.fields['xi']
    s = M.shape(w, 0)
    ma = (lambda t, a: m[t]) if mode == 'force' and not M.conc else (lambda t, a: m[t, a])
    La = (lambda t, a, b: L[t]) if mode == 'force' and not M.conc else (lambda t, a, b: L[t, a, b])
    chi = M.tab((M.shape(m, 0), s, d), lambda t, q, a: ma(t, a) + M.S(d, lambda b: La(t, a, b) * xi[q, b]))
    ev = M.tab((M.shape(m, 0), s), lambda t, q: f(M.tab(d, lambda a: chi[t, q, a])))
    return M.tab((M.shape(m, 0), M.shape(ev, 2)), lambda t, k: M.S(s, lambda q: w[q] * ev[t, q, k]))


Contract('gaussian_expectation', 'C15', QU + 'gaussian_expectation', _ge_in, _ge, cases=[dict(mode='full'), dict(mode='force')],
         call=lambda i, mode: ([i['m'], i['L'], _vmap(i['f'])], dict(d=i['d'], order=i['p'], force_shape=(mode == 'force'))),
         rtol=1e-6)
