"""Replays contracts on the real code: python run.py OUT.json PROP[,PROP] SEED MULT [--only ID] [--hints JSON]

Runs under the repository's own interpreter; compares the real function (eager and jitted) with the specification."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
warnings.filterwarnings('ignore')
import numpy as np
import jax
jax.config.update('jax_enable_x64', True)
jax.config.update('jax_platform_name', 'cpu')
import jax.numpy as jnp
from harness import conc
from harness.conc import ConcM, ConcG, Skip, to_real, compare


def real(qual):
    mod, name = qual.split(':')
    v = importlib.import_module(mod)
    for p in name.split('.'):
        v = getattr(v, p)
    return v


def seed_of(seed, cid, case, trial):
    return zlib.crc32(f'{seed}|{cid}|{sorted(case.items())}|{trial}'.encode())


def is_arr(v):
    return isinstance(v, np.ndarray) and v.dtype != object


def np_leaves(v):
    if isinstance(v, (tuple, list)):
        return [x for u in v for x in np_leaves(u)]
    return [v] if is_arr(v) else []


def run_one(c, case, trial, seed, hint, jit):
    rng = np.random.default_rng(seed_of(seed, c.id, case, trial))
    G = ConcG(rng, trial, hint)
    M = ConcM()
    inp = (c.conc_inputs or c.inputs)(G, **case)
    args, kwargs = c.call(inp, **case)
    want_exc = None
    if c.raises:
        w = c.raises(M, inp, **case)
        if w is not None and bool(w[1]):
            want_exc = w[0]
    try:
        f = real(c.target)
    except (AttributeError, ImportError) as e:
        if c.optional:
            raise Skip()        # an internal function, judged through its callers
        return [f'public function missing: {e}'], G, inp
    ra, rk = to_real(list(args)), {k: to_real(v) for k, v in kwargs.items()}
    if c.real_call:
        runner = lambda a, k: c.real_call(f, a, k, inp, **case)
    else:
        runner = lambda a, k: f(*a, **k)
    errs = []
    got = None
    before = [(v, v.copy()) for v in np_leaves([ra, list(rk.values())])]
    try:
        got = runner(ra, rk)
        exc = None
    except Exception as e:
        exc = e
    if want_exc is not None:
        if exc is None or type(exc).__name__ not in want_exc:
            errs.append(f'expected {want_exc}, got {type(exc).__name__ if exc else "a value"}')
        return errs, G, inp
    if exc is not None and hint and ('RESOURCE_EXHAUSTED' in str(exc) or isinstance(exc, MemoryError)):
        raise Skip()
    if exc is not None:
        return [f'raised {type(exc).__name__}: {str(exc)[:300]}'], G, inp
    try:
        want = c.spec(M, inp, **case)
    except np.linalg.LinAlgError:
        raise Skip()            # outside the precondition (a matrix that must be positive definite is not)
    if c.conc_post:
        got = c.conc_post(M, got, inp, **case)
    cmpf = c.compare or compare
    errs += cmpf(got, want, c.rtol, c.atol)
    if errs and (c.id.startswith(ILL) or '_free' in hint or any(k in hint for k in ('_spd', '_pdf', '_arr'))) and rounding(c, M, inp, case, got, want):
        raise Skip()            # the specified value itself is that sensitive to rounding of the inputs
    if any(not np.array_equal(v, w, equal_nan=v.dtype.kind in 'fc') for v, w in before):
        errs.append('an argument was modified')
    if not errs and not c.conc_post and not c.real_call:
        mine = [v for v in np_leaves([got]) if v.flags.writeable and v.size]
        if mine:                # results belong to the caller: writing to them changes no later result
            for v in mine:
                v[...] = 77
            errs += ['after writing to the first result, the second call: ' + e for e in cmpf(runner(ra, rk), want, c.rtol, c.atol)]
    if jit and c.jit and not errs and not c.conc_post:
        idx = [i for i, v in enumerate(args) if is_arr(v) or isinstance(v, float)]
        kid = [k for k, v in kwargs.items() if is_arr(v) or isinstance(v, float)]

        def g(av, kv):
            a = list(ra)
            for i, v in zip(idx, av):
                a[i] = v
            k = dict(rk)
            for n, v in zip(kid, kv):
                k[n] = v
            return runner(a, k)
        if c.jit == 'vals':
            pass
        try:
            gj = jax.jit(g)([ra[i] for i in idx], [rk[k] for k in kid])
            errs += ['jit: ' + e for e in cmpf(gj, want, c.rtol, c.atol)]
        except Exception as e:
            errs.append(f'jit raised {type(e).__name__}: {str(e)[:300]}')
    return errs, G, inp


ILL = ('moment_filter', 'moment_quadrature')       # moment matrices are badly conditioned


def perturb(v, rng):
    if isinstance(v, float):
        return v * (1 + 1e-11 * rng.normal())
    if not is_arr(v) or v.dtype.kind != 'f':
        return v
    e = rng.normal(size=v.shape)
    if v.ndim >= 2 and v.shape[-1] == v.shape[-2] and np.array_equal(v, np.swapaxes(v, -1, -2)):
        e = (e + np.swapaxes(e, -1, -2)) / 2
    return v * (1 + 1e-11 * e)


def leaves(v):
    if isinstance(v, (tuple, list)):
        return [x for u in v for x in leaves(u)]
    return [np.asarray(v, dtype=float)]


def rounding(c, M, inp, case, got, want):
    """is the difference explained by perturbing the inputs by 1e-11 (relative)?"""
    try:
        g, w = leaves(got), leaves(want)
        if [x.shape for x in g] != [x.shape for x in w]:
            return False
        tol = [np.zeros(()) for _ in w]
        for k in range(4):
            rng = np.random.default_rng(k)
            p = {n: perturb(v, rng) for n, v in inp.items()}
            w2 = leaves(c.spec(M, p, **case))
            tol = [np.maximum(t, np.max(np.abs(a - b), initial=0.)) for t, a, b in zip(tol, w, w2)]
        return all(np.all(np.abs(a - b) <= c.atol + c.rtol * np.abs(b) + 20 * t) for a, b, t in zip(g, w, tol))
    except Exception:
        return False


class TimeLimit(BaseException):
    pass


def on_alarm(*a):
    raise TimeLimit()


SCALES = [{'_spd': 1e-5}, {'_pdf': 1e-9}, {'_arr': 1e-3}, {'_arr': 0.}, {'_pdf': 30.}, {'_arr': 12.}, {'_spd': 1e3},
          {'_arr': 1e-5}, {'_arr': 50.}]


def stress_trials(c, case, seed, consts, hs):
    """(trial, hint): unusual sizes, one at a time, and unusual magnitudes"""
    G = ConcG(np.random.default_rng(seed_of(seed, c.id, case, 0)), 0)
    try:
        (c.conc_inputs or c.inputs)(G, **case)
    except Skip:
        pass
    cap = c.stress if isinstance(c.stress, dict) else {}
    if isinstance(consts, list):
        consts = dict(sizes=consts, mags=[])
    vals = sorted({v + e for v in consts['sizes'] for e in (0, 1)} | {5, 8, 12, 22, 45}) + [140]
    scales = SCALES + [{'_arr': (1.6 if m > 1 else 0.4) * m} for m in consts['mags']]
    out = [(180 + k, h) for k, h in enumerate(scales) if h.get('_arr', 0) <= cap.get('_arr', 1e9)]
    out += [(210 + k, dict(h, _free=1)) for k, h in enumerate(hs[:6])]
    if c.stress:
        out += [(220 + k, {n: v, '_free': 1}) for k, v in enumerate(vals) for n in G.sizes if v <= cap.get(n, cap.get('*', 66))]
    return out


def describe(v):
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 64 else f'array{v.shape}'
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [describe(x) for x in v]
    return str(type(v).__name__)


def main():
    out, props, seed, mult = sys.argv[1], sys.argv[2].split(','), sys.argv[3], float(sys.argv[4])
    only = None
    hints, stress = {}, None
    rest = sys.argv[5:]
    while rest:
        a = rest.pop(0)
        if a == '--only':
            only = rest.pop(0).split(',')
        elif a == '--hints':
            hints = json.loads(rest.pop(0))
        elif a == '--stress':
            stress = json.loads(rest.pop(0))
    signal.signal(signal.SIGALRM, on_alarm)
    budget = float(os.environ.get('VERIF_HARNESS_BUDGET', '420'))
    from contracts import allc
    fails = []
    stats = {}
    t0 = time.time()
    nrun = 0
    truncated = []
    for c in allc.contracts():
        if c.prop not in props and not (set(getattr(c, 'also', ())) & set(props)):
            continue
        if not c.conc or (only and c.id not in only):
            continue
        t1 = time.time()
        n = 0
        try:
            if hasattr(c, 'check'):
                for trial in range(max(1, int(c.trials * mult))):
                    if time.time() - t0 > budget:
                        truncated.append(c.id)
                        break
                    rng = np.random.default_rng(seed_of(seed, c.id, {}, trial))
                    try:
                        errs = c.check(rng, trial, real) or []
                    except Skip:
                        continue
                    except AssertionError as e:
                        errs = [str(e) or 'assertion failed']
                    except Exception as e:
                        tb = traceback.extract_tb(e.__traceback__)
                        errs = [f'raised {type(e).__name__}: {str(e)[:300]} at {tb[-1].filename}:{tb[-1].lineno}']
                    n += 1
                    if errs:
                        fails.append(dict(contract=c.id, target=c.target, case={}, trial=trial, seed=seed, sizes={},
                                          errors=errs[:4], inputs={}, hint={}))
                        break
            else:
                for case in c.conc_cases:
                    hs = hints.get(c.id, [])
                    trials = [(t, {}) for t in range(max(1, int(c.trials * mult)))] + \
                             [(100 + t, h) for h in hs[:4] for t in range(2)] + \
                             [(150 + t, dict(h, _free=1)) for t, h in enumerate(c.extra)]
                    if stress is not None:
                        trials = stress_trials(c, case, seed, stress, hs)
                    bad = False
                    for trial, h in trials:
                        if time.time() - t0 > budget:
                            truncated.append(c.id)
                            break
                        try:
                            if stress is not None:
                                signal.alarm(30)
                            errs, G, inp = run_one(c, case, trial, seed, h, jit=(trial < 1 or h) and stress is None)
                        except Skip:
                            continue
                        except (MemoryError, TimeLimit):
                            if stress is None:
                                raise
                            continue
                        finally:
                            signal.alarm(0)
                        n += 1
                        if errs:
                            fails.append(dict(contract=c.id, target=c.target, case=case, trial=trial, seed=seed,
                                              sizes=G.sizes, errors=errs[:4], hint=h,
                                              inputs={k: describe(v) for k, v in inp.items()} if isinstance(inp, dict)
                                              else {}))
                            bad = True
                            break
                    if bad:
                        break
        except Exception as e:
            fails.append(dict(contract=c.id, target=c.target, case={}, trial=-1, seed=seed, sizes={}, hint={}, inputs={},
                              errors=[f'HARNESS {type(e).__name__}: {e} ' + traceback.format_exc()[-600:]], harness=True))
        stats[c.id] = dict(executions=n, seconds=round(time.time() - t1, 2))
        nrun += n
    json.dump(dict(fails=fails, stats=stats, executions=nrun, seconds=time.time() - t0, truncated=truncated),
              open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
