"""Generates the obligations of a contract from the current source and discharges them."""
import time
import traceback
from .terms import *
from . import terms
from .solver import *
from . import solver, nf as NF, loops, models, evalt
from .nf import Undecided
from .values import *
from .interp import Interp, Explorer, MissingFunction, Closure, Builtin, Env
from .spec import SymM, SymG


class Ob:
    """One proof obligation"""

    def __init__(self, name, status, detail=''):
        self.name, self.status, self.detail = name, status, detail

    def json(self):
        return dict(obligation=self.name, status=self.status, detail=self.detail[:1500])


def fresh_state():
    Ctx.base.clear()
    Ctx.stack.clear()
    Ctx.stats.update(queries=0, time=0.0, unknown=0)
    loops.reset()
    for c in (NF._nf_cache, NF._canon_cache, NF._eqcache, NF._symcache, solver._cache, terms._sub_cache):
        c.clear()
    Sym_info.lo.clear()
    Sym_info.hi.clear()
    Sym_info.pos.clear()
    Sym_info.pos.add(NF.PI)
    Sym_info.symm.clear()
    Sym_info.rule.clear()
    Sym_info.nonneg.clear()
    models.USED.clear()


def compare_values(got, want, path, out, ctxname):
    """Append (leaf path, ok, detail)"""
    if isinstance(want, (tuple, list)):
        if isinstance(got, Instance):
            got = [got.fields[k] for k in got.cls.fields]
        if isinstance(got, SymList):
            g2 = []
            try:
                if got.n.op == 'const':
                    g2 = [got.at(k) for k in range(int(got.n.args[0]))]
                    got = g2
            except Exception:
                pass
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            out.append((path, False, f'structure differs: {type(got).__name__}'))
            return
        for k, (g, w) in enumerate(zip(got, want)):
            compare_values(g, w, f'{path}[{k}]', out, ctxname)
        return
    if isinstance(want, dict):
        for k, w in want.items():
            if isinstance(got, Instance) and k in got.fields:
                compare_values(got.fields[k], w, f'{path}.{k}', out, ctxname)
            else:
                out.append((path, False, f'no field {k}'))
        return
    if want is None:
        out.append((path, got is None, 'None expected'))
        return
    if want is ANY:
        return
    if isinstance(want, Alt):
        first = None
        for k, w in enumerate(want.forms):
            o2 = []
            try:
                compare_values(got, w, path, o2, ctxname)
            except Undecided:
                if k == 0:
                    raise
                continue
            if all(o[1] for o in o2):
                out.extend(o2)
                return
            first = first or o2
        out.extend(first)
        return
    if isinstance(got, (SymList, list, tuple)):
        got = ANYIP[0].models.asarray(ANYIP[0], got)
    if isinstance(want, Tensor) and want.ndim == 0:
        want = want.at()
    if isinstance(got, Tensor) and got.ndim == 0:
        got = got.at()
    if isinstance(want, Tensor):
        if not isinstance(got, Tensor):
            out.append((path, False, f'array of rank {want.ndim} expected, got a scalar'))
            return
        if got.ndim != want.ndim:
            out.append((path, False, f'rank {got.ndim} instead of {want.ndim}'))
            return
        for a, b in zip(got.shape, want.shape):
            if not NF.prove_eq(a, b):
                out.append((path + '.shape', False, f'shape {show(a)} instead of {show(b)}'))
                return
        vs = tuple(fresh('q', 'I', 0, s) for s in want.shape)
        rng = [c for v, s in zip(vs, want.shape) for c in (le(ZERO, v), lt(v, s))]
        with assuming(*rng):
            NF.LAST_RESIDUAL[0] = None
            g, w = got.at(*vs), want.at(*vs)
            ok = NF.term_eq(g, w)
            det = '' if ok else describe(g, w)
            try:
                if not ok and loops.equal_by_unfolding(NF.canon(g), NF.canon(w)):
                    ok, det = True, ''
            except (Undecided, RecursionError):
                pass
            st = settle(ok, g, w)
        out.append((path, ok, det + st[1], (g, w), None if ok else NF.LAST_RESIDUAL[0], st[0]))
        return
    if isinstance(want, bool) or isinstance(want, T) and want.sort == 'B':
        g, w = toT(got), toT(want)
        ok = NF.term_eq(g, w)
        out.append((path, ok, '' if ok else f'{show(g)[:300]} vs {show(w)[:300]}'))
        return
    if isinstance(got, Tensor):
        out.append((path, False, 'scalar expected, got an array'))
        return
    NF.LAST_RESIDUAL[0] = None
    g, w = numT(got), numT(want)
    ok = NF.term_eq(g, w)
    det = '' if ok else describe(g, w)
    if not ok:
        res = NF.LAST_RESIDUAL[0]
        try:
            ok = loops.equal_by_unfolding(g, w)
        except (Undecided, RecursionError):
            pass
        NF.LAST_RESIDUAL[0] = res
    st = settle(ok, g, w)
    out.append((path, ok, det + st[1], (g, w), None if ok else NF.LAST_RESIDUAL[0], st[0]))


def settle(ok, g, w):
    """status of an obligation: an equation that was not discharged is refuted only if it has a countermodel"""
    if ok:
        return 'proved', ''
    try:
        kind, what = evalt.countermodel(g, w, NF.LAST_RESIDUAL[0])
    except Exception as e:
        kind, what = 'unknown', f'{type(e).__name__}: {e}'
    if kind == 'agrees':
        return 'undecided', f' [both sides agree in {what} numerical interpretations]'
    return 'failed', f' [countermodel: {what}]' if kind == 'differs' else f' [countermodel search: {what}]'


class Alt:
    """Mathematically equal forms of one specification (the equality is a lemma, see lean/)"""

    def __init__(self, *forms):
        self.forms = forms


class ANY:
    pass


ANYIP = [None]


def describe(g, w):
    r = NF.LAST_RESIDUAL[0]
    s = f'difference not shown to be zero: '
    if r:
        s += NF.show_poly(r)[:900]
    else:
        s += f'{show(g)[:400]}  vs  {show(w)[:400]}'
    return s


class Result:
    def __init__(self, cid):
        self.cid = cid
        self.obs = []
        self.seconds = 0
        self.stats = {}
        self.functions = {}
        self.callees = set()
        self.models = set()
        self.hints = []


def verify(contract, registry, repo=None, verbose=False):
    """registry: {qualname: contract} for call-site replacement.  Returns Result."""
    t0 = time.time()
    first = None
    for mode in contract.modes:
        res = Result(contract.id)
        verify_mode(contract, registry, repo, verbose, res, mode)
        res.seconds = time.time() - t0
        res.mode = mode
        bad = [o for o in res.obs if o.status != 'proved']
        if not bad and res.obs:
            return res
        first = first or res
        if verbose and mode != contract.modes[-1]:
            for o in bad:
                print('   [%s]' % mode, o.status, o.name, o.detail[:300])
    return res if res.obs and all(o.status == 'proved' for o in res.obs) else first


def verify_mode(contract, registry, repo, verbose, res, mode):
    for case in contract.cases:
        todo = [{}]
        done = set()
        while todo:
            fixed = todo.pop()
            key = tuple(sorted(fixed.items()))
            if key in done or len(done) > 8:
                continue
            done.add(key)
            name = f'{contract.target}{fmt(case)}{fmt(fixed)}'
            try:
                more = verify_case(contract, registry, case, fixed, name, res, repo, verbose, mode)
                todo += more
            except Undecided as e:
                res.obs.append(Ob(name, 'undecided', f'{e}'))
                if verbose:
                    traceback.print_exc()
            except MissingFunction as e:
                res.obs.append(Ob(name, 'missing', f'function not found: {e}'))
            except RecursionError:
                res.obs.append(Ob(name, 'undecided', 'recursion limit'))
            except (TypeError, AttributeError, KeyError, ValueError, AssertionError, IndexError, ZeroDivisionError,
                    StopIteration, NotImplementedError, Exception) as e:
                if verbose:
                    traceback.print_exc()
                res.obs.append(Ob(name, 'undecided', f'engine: {type(e).__name__}: {e}'))


def fmt(d):
    return '[' + ','.join(f'{k}={v}' for k, v in d.items()) + ']' if d else ''


def verify_case(contract, registry, case, fixed, name, res, repo, verbose, mode='opaque'):
    fresh_state()
    ip = Interp(repo)
    ANYIP[0] = ip
    Interp.callstack = []
    M = SymM(ip, mode)
    G = SymG(ip, fixed)
    for q, c in registry.items():
        if q == contract.target and not contract.recursive:
            continue
        if q in contract.inline:
            continue
        if c.abs is not None and mode == 'inline':
            continue
        if c.callee is not None:
            ip.contracts[q] = (lambda ip_, env, c=c: c.callee(SymM(ip_, mode), env))
            ip.contracts[q + '!'] = ip.contracts[q]
    ip.target = contract.target
    if contract.setup:
        contract.setup(M, G, ip)
    inp = contract.inputs(G, **case)
    args, kwargs = contract.call(inp, **case)
    args, kwargs = list(args), dict(kwargs)
    f = ip.function(contract.target)
    if isinstance(f, Builtin) and hasattr(f, 'inner'):
        pass
    # vacuity: the preconditions are satisfiable
    if check_sat([]) == 'unsat':
        res.obs.append(Ob(name + ' precondition satisfiable', 'vacuous', 'contradictory precondition'))
        return []
    res.obs.append(Ob(name + ' precondition satisfiable', 'proved', ''))
    ex = Explorer(ip, (), top=True)
    more = []

    def thunk():
        ip.frame_violations = []
        inp2 = contract.inputs(SymGAgain(G), **case)
        a, k = contract.call(inp2, **case)
        r = ip.call(f, list(a), dict(k))
        shared = any(x is y for x in tree_leaves(r) for y in getattr(ip, 'cached', ()))
        if contract.post:
            r = contract.post(M, ip, r, inp2, **case)
        return r, list(ip.frame_violations) + (['the returned array is shared with later calls'] if shared else [])
    outs = ex.run(thunk, catch=True)
    for pi, (cond, kind, v, lits) in enumerate(outs):
        pname = name + (f' path {pi}' if len(outs) > 1 else '')
        with assuming(*lits):
            # does the path fix a size?
            fx = None
            if check_sat([]) == 'unsat':
                continue
            for sname, s in G.sizes.items():
                mdl = model([], [s])
                if mdl and s in mdl and proves(eq(s, const(mdl[s]))):
                    fx = (sname, mdl[s])
                    break
            if fx is not None:
                nf_ = dict(fixed)
                nf_[fx[0]] = fx[1]
                more.append(nf_)
                continue
            if kind == 'raise':
                want = contract.raises(M, inp, **case) if contract.raises else None
                if want is not None and v.exc in want[0]:
                    ok = NF.simp_cond(want[1]) is TRUE or proves(want[1])
                    res.obs.append(Ob(pname + f' raises {v.exc}', 'proved' if ok else 'failed', str(v)))
                else:
                    res.obs.append(Ob(pname + ' terminates normally', 'failed', f'raises {v}'))
                    res.hints.append(hint(G))
                continue
            val, frame = v
            for fv in frame:
                res.obs.append(Ob(pname + ' frame', 'failed', fv))
            want = contract.spec(M, inp, **case)
            out = []
            compare_values(val, want, 'result', out, pname)
            if contract.raises:
                w = contract.raises(M, inp, **case)
                if w is not None:
                    ok = NF.simp_cond(not_(w[1])) is TRUE or proves(not_(w[1]))
                    res.obs.append(Ob(pname + ' no exception required', 'proved' if ok else 'failed'))
            for o in out:
                res.obs.append(Ob(f'{pname} {o[0]}', 'proved' if o[1] else o[5] if len(o) > 5 else 'failed', o[2]))
                if not o[1]:
                    res.hints.extend(guard_hints(G, o[4] if len(o) > 4 else None))
            if contract.lemmas:
                for lname, goal in contract.lemmas(M, inp, val, **case):
                    ok = goal if isinstance(goal, bool) else (NF.simp_cond(goal) is TRUE or proves(goal))
                    res.obs.append(Ob(f'{pname} lemma {lname}', 'proved' if ok else 'failed', ''))
    for k_, v_ in Ctx.stats.items():
        res.stats[k_] = res.stats.get(k_, 0) + v_
    res.functions.update(ip.functions_seen)
    res.callees |= ip.used_contracts
    res.models |= set(models.USED)
    return more


def tree_leaves(v):
    if isinstance(v, tuple):
        return [x for y in v for x in tree_leaves(y)]
    return [v]


def hint(G):
    m = model([], list(G.sizes.values()))
    if not m:
        return {}
    return {s.args[0]: v for s, v in m.items()}


def guard_hints(G, residual):
    """sizes for which the undischarged difference can be non-zero: models of the guards of its terms"""
    out = [hint(G)]
    for m in list(residual or ())[:6]:
        try:
            r = model(list(m.conds), list(G.sizes.values()), timeout=1500)
        except Exception:
            continue
        h = {s.args[0]: v for s, v in r.items()} if r else None
        if h and h not in out:
            out.append(h)
    return out


class SymGAgain:
    """Re-creates the same symbolic inputs (fresh value objects, so that in-place writes do not leak between paths)"""

    def __init__(self, G):
        self.__dict__['G'] = G

    def __getattr__(self, a):
        if a == 'assume':
            return lambda c: None
        return getattr(self.G, a)
