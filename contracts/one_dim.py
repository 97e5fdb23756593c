"""Contracts of mfs/one_dim/moments.py, filtering.py, quadtures.py"""
from .base import Contract
from . import gens

Q = 'mfs.one_dim.quadtures:'
MO = 'mfs.one_dim.moments:'
FI = 'mfs.one_dim.filtering:'


# ------------------------------------------------------------------ conversions (C08)

def in_ms(G, lo=2):
    s = G.size('s', lo=lo, hi_conc=9)
    return s


def _r2c_inputs(G):
    s = G.size('s', lo=2, conc=(2, 3, 4, 5, 8, 11))
    return dict(rms=G.arr('rms', (s,), gen=gens.raw_moments))


def _r2c(M, rms):
    s = M.shape(rms, 0)
    return M.tab(s, lambda n: M.S(0, n + 1, lambda j: M.comb(n, j) * M.pow(-1, n - j) * rms[j] * M.pow(rms[1], n - j)))


Contract('raw_to_central', 'C08', MO + 'raw_to_central', _r2c_inputs, lambda M, i: _r2c(M, i['rms']),
         callee=lambda M, e: _r2c(M, e['rms']), lean=('Moments',))


def _c2r(M, cms, mean):
    s = M.shape(cms, 0)
    return M.tab(s, lambda n: M.S(0, n + 1, lambda j: M.comb(n, j) * cms[j] * M.pow(mean, n - j)))


Contract('central_to_raw', 'C08', MO + 'central_to_raw',
         lambda G: dict(cms=G.arr('cms', (G.size('s', lo=1, conc=(1, 2, 3, 4, 5, 8, 11)),), gen=gens.central_moments),
                        mean=G.real('mean', gen=gens.real_any)),
         lambda M, i: _c2r(M, i['cms'], i['mean']), callee=lambda M, e: _c2r(M, e['cms'], e['mean']))


def _r2s(M, rms, scale):
    c = _r2c(M, rms)
    if scale is None:
        scale = M.sqrt(rms[2] - M.pow(rms[1], 2))
    return M.tab(M.shape(rms, 0), lambda n: M.div(c[n], M.pow(scale, n)))


def _r2s_in(G, default):
    s = G.size('s', lo=3, conc=(3, 4, 5, 8, 11))
    d = dict(rms=G.arr('rms', (s,), gen=gens.raw_moments))
    if not default:
        d['scale'] = G.real('scale', pos=True, gen=gens.real_pos)
    return d


Contract('raw_to_scaled', 'C08', MO + 'raw_to_scaled', _r2s_in, lambda M, i, default: _r2s(M, i['rms'], i.get('scale')),
         cases=[dict(default=False), dict(default=True)],
         callee=lambda M, e: _r2s(M, e['rms'], e['scale']))


def _s2c(M, sms, scale):
    return M.tab(M.shape(sms, 0), lambda n: sms[n] * M.pow(scale, n))


Contract('scaled_to_central', 'C08', MO + 'scaled_to_central',
         lambda G: dict(sms=G.arr('sms', (G.size('s', lo=1, conc=(1, 2, 3, 4, 7)),), gen=gens.central_moments),
                        scale=G.real('scale', pos=True, gen=gens.real_pos)),
         lambda M, i: _s2c(M, i['sms'], i['scale']), callee=lambda M, e: _s2c(M, e['sms'], e['scale']))


# ------------------------------------------------------------------ quadrature as seen by its callers

def mq_callee(M, env):
    """weights and nodes of the moment quadrature: opaque functions of the moments; the nodes are affine in mean, scale"""
    from engine.terms import app, idiv, const, lift, mul, add
    from engine.values import tab, numT
    from engine import nf as NF
    ms = env['ms']
    n = idiv(ms.shape[0], const(2))
    n = NF.canon(n)
    tag = ('L' if M.ip.truth(env['ldl']) else 'C') + ('s' if M.ip.truth(env['sort_nodes']) else 'u')
    L = ms.lam()
    mean, scale = numT(env['mean']), numT(env['scale'])
    w = tab((n,), lambda i: app('mqw' + tag, L, i))
    x = tab((n,), lambda i: add(mul(scale, app('mqx' + tag, L, i)), mean))
    return w, x


def MQ(M, ms, mean, scale, ldl, sort=False):
    """the contract of moment_quadrature as used in specifications"""
    if M.conc:
        return gens.mq_conc(M, ms, mean, scale, ldl, sort)
    return mq_callee(M, dict(ms=ms, mean=mean, scale=scale, ldl=ldl, sort_nodes=sort))


Contract('moment_quadrature_iface', 'C03', Q + 'moment_quadrature', None, None, callee=mq_callee, prove=False, conc=False)


# ------------------------------------------------------------------ filters (C05)

def _f_in(G, stable):
    n = G.size('n', lo=1, conc=(1, 2, 3, 4))
    T_ = G.size('T', lo=1, conc=(1, 2, 5))
    return dict(cond=G.fn('cond', 'outer', gen=gens.cond_raw), pdf=G.fn('pdf', 'ew', pos=True, gen=gens.pdf),
                rms0=G.arr('rms0', (2 * n,), gen=gens.raw_moments_pd), ys=G.arr('ys', (T_,), gen=gens.obs))


def _rms_spec(M, i, stable):
    cond, pdf, rms0, ys = i['cond'], i['pdf'], i['rms0'], i['ys']
    N2 = M.shape(rms0, 0)
    T_ = M.shape(ys, 0)

    def step(k, st):
        rms, nell = st
        w, x = MQ(M, rms, 0, 1, stable)
        n = M.shape(w, 0)
        pred = M.tab(N2, lambda p: M.S(n, lambda q: w[q] * cond.pt(x[q], p)))
        w, x = MQ(M, pred, 0, 1, stable)
        py = M.S(n, lambda q: w[q] * pdf.pt(ys[k], x[q]))
        post = M.tab(N2, lambda p: M.div(M.S(n, lambda q: w[q] * M.pow(x[q], p) * pdf.pt(ys[k], x[q])), py))
        return post, nell - M.log(py)
    at = M.recur(T_, (rms0, M.pow(0, 1)), step)
    return M.tab(T_, lambda k: at(k + 1)[0]), at(T_)[1]


Contract('moment_filter_rms', 'C05', FI + 'moment_filter_rms', _f_in, _rms_spec,
         call=lambda i, stable: ([i['cond'], i['pdf'], i['rms0'], i['ys']], dict(stable=stable)),
         cases=[dict(stable=False), dict(stable=True)])
