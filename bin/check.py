#!/usr/bin/env python3
"""Decides one property:  python3-vt bin/check.py PROP [quick|thorough]

1. every contract of the property is proved from /repo's current source (one process per contract case);
2. the same contracts are replayed on the real code (executable form of the specification, concrete inputs);
3. exit 1 with a VIOLATION line iff a violation is established; evidence/<PROP>.json is rewritten on every run.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(VERIF)
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = 'python3-vt'
RPY = '/opt/venv/bin/python'
from contracts import allc
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPLAY = os.environ.get('VERIF_REPLAY', os.path.join(VERIF, 'replay'))


def env_engine():
    e = dict(os.environ, PYTHONPATH=VERIF, PYTHONHASHSEED='0', VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def env_real():
    e = dict(os.environ, PYTHONPATH=f'{REPO}:{VERIF}', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', VERIF_REPO=REPO,
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             PYTHONDONTWRITEBYTECODE='1')
    return e


STOP = [None]       # time after which running proofs are ended, set once a violation was replayed


def run(cmd, env, timeout, stoppable=False):
    """(rc, tail of output); the whole process group is ended on a timeout"""
    if stoppable and STOP[0] and time.time() > STOP[0]:
        return 'stopped', ''
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=VERIF)
    end = time.time() + timeout
    while True:
        try:
            o, _ = p.communicate(timeout=2)
            return p.returncode, o.decode(errors='replace')[-3000:]
        except subprocess.TimeoutExpired:
            stop = stoppable and STOP[0] and time.time() > STOP[0]
            if time.time() < end and not stop:
                continue
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            return ('stopped' if stop else 'timeout'), ''


def constants_of(target):
    """constants of the function and of the repository functions it names: sizes and magnitudes at which behaviour may change"""
    import ast
    import glob
    defs = {}
    for f in glob.glob(f'{REPO}/mfs/**/*.py', recursive=True):
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                defs.setdefault(n.name, []).append(n)
        for n in tree.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        defs.setdefault(t.id, []).append(n)
    mags = {}
    out, seen, todo = {}, set(), [(p, 0) for p in target.split(':')[1].split('.')]
    while todo:
        name, d = todo.pop(0)
        if name in seen or d > 3:
            continue
        seen.add(name)
        for n in defs.get(name, []):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and type(x.value) in (int, float) and 3 <= abs(x.value) <= 64 and float(x.value).is_integer():
                    out[abs(int(x.value))] = min(d, out.get(abs(int(x.value)), 9))
                if isinstance(x, ast.Constant) and type(x.value) in (int, float) and x.value != 0 and (abs(x.value) < 0.2 or abs(x.value) > 4) \
                        and 1e-30 < abs(x.value) < 1e9:
                    mags[abs(float(x.value))] = min(d, mags.get(abs(float(x.value)), 9))
                if isinstance(x, ast.Name):
                    todo.append((x.id, d + 1))
                elif isinstance(x, ast.Attribute):
                    todo.append((x.attr, d + 1))

    def near(q, n):
        return [v for v, d in sorted(q.items(), key=lambda p: (p[1], p[0]))][:n]
    return dict(sizes=near(out, 12), mags=near(mags, 6))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cs = [c for c in allc.contracts() if c.prop == prop or prop in c.also]
    if not cs:
        print(f'no contracts for {prop}')
        sys.exit(2)
    tmp = tempfile.mkdtemp(prefix='verif_')
    try:
        code = decide(prop, tier, seed, t0, cs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, t0, cs, tmp):
    thorough = tier == 'thorough'
    ptime = 600 if thorough else 240
    jobs = []
    for c in cs:
        if c.prove and c.inputs is not None:
            for k in range(len(c.cases)):
                jobs.append((c, k))
    conc = [c for c in cs if c.conc and (c.inputs is not None or hasattr(c, 'check'))]
    mult = 8 if thorough else 1

    def proof(job, mode=None):
        c, k = job
        out = f'{tmp}/p_{safe(c.id)}_{k}{mode or ""}.json'
        e = env_engine()
        if mode:
            e['VERIF_MODE'] = mode
        rc, o = run([PY, '-m', 'engine.worker', out, c.id, str(k)], e, ptime, True)
        if os.path.exists(out):
            return job, json.load(open(out))
        why = 'time limit' if rc == 'timeout' else 'ended after a replayed violation' if rc == 'stopped' else f'worker ended ({rc}): {o[-300:]}'
        return job, dict(contract=c.id, target=c.target, case=k, seconds=ptime, functions={}, callees=[], models=[], stats={},
                         hints=[], obs=[dict(obligation=f'{c.target} case {k}', status='undecided', detail=why)])

    def harness(c, mult, seed, hints, budget, tag, stress=None):
        out = f'{tmp}/h_{safe(c.id)}_{tag}.json'
        e = env_real()
        e['VERIF_HARNESS_BUDGET'] = str(budget)
        cmd = [RPY, 'harness/run.py', out, prop, str(seed), str(mult), '--only', c.id]
        if hints:
            cmd += ['--hints', json.dumps({c.id: hints})]
        if stress:
            cmd += ['--stress', json.dumps(stress)]
        rc, o = run(cmd, e, budget + 120)
        if os.path.exists(out):
            r = json.load(open(out))
            if any(not f.get('harness') for f in r['fails']) and not STOP[0]:
                STOP[0] = time.time() + 45      # the obligations that fail quickly are still named
            return c, r
        return c, dict(fails=[], stats={}, executions=0, truncated=[c.id], error=f'harness ended ({rc}): {o[-800:]}')

    def lean(f):
        out = f'{tmp}/l_{safe(f)}'
        rc, o = run(['lean', f'lean/{f}.lean'], dict(os.environ), 600)
        return f, (rc if rc else 'sorry' if 'sorry' in o else 0), o
    lean_files = sorted({l for c in cs for l in c.lean})
    with cf.ThreadPoolExecutor(8) as ex:
        hf = [ex.submit(harness, c, mult, seed, [], 1200 if thorough else 150, 'a') for c in conc]
        pf = [ex.submit(proof, j) for j in jobs]
        lf = [ex.submit(lean, f) for f in lean_files]
        proofs = [f.result() for f in pf]
        reals = [f.result() for f in hf]
        leans = [f.result() for f in lf]
        # the contracts of the private helpers that the callers were verified against
        have = {c.id for (c, k), r in proofs}
        byt = {c.target: c for c in allc.contracts() if c.callee is not None and c.inputs is not None and c.prove}
        while True:
            new = [h for h in {byt[t].id: byt[t] for _, r in proofs for t in r['callees'] if t in byt}.values()
                   if h.private and h.id not in have]
            if not new:
                break
            have |= {h.id for h in new}
            proofs += [f.result() for f in [ex.submit(proof, (h, k)) for h in new for k in range(len(h.cases))]]
        # a private helper that no longer meets its contract (or is gone) is expanded in its callers instead
        weakh = {c.target for (c, k), r in proofs if c.private and not clean(r)}
        if weakh:
            redo = [j for j, r in proofs if not j[0].private and set(r['callees']) & helpers_over(weakh, proofs)]
            again = dict(((j[0].id, j[1]), (j, r)) for j, r in [f.result() for f in [ex.submit(proof, j, 'inline') for j in redo]])
            proofs = [again.get((j[0].id, j[1]), (j, r)) for j, r in proofs if j[0].target not in helpers_over(weakh, proofs)]

    # contracts whose obligations are not all discharged: search harder on the real code
    weak = {}
    for (c, k), r in proofs:
        bad = [o for o in r['obs'] if o['status'] not in ('proved', 'cond')]
        if not r['obs']:
            bad = [dict(obligation=f'{c.target} case {k}', status='undecided', detail='no obligation generated')]
            r['obs'] = bad
        if bad:
            w = weak.setdefault(c.id, dict(c=c, bad=[], hints=[]))
            w['bad'] += bad
            w['hints'] += [h for h in r['hints'] if h]
    failing = {f['contract'] for _, h in reals for f in h['fails'] if not f.get('harness')}
    esc = [w for w in weak.values() if w['c'].id not in failing and w['c'].conc]
    if esc and not failing:
        with cf.ThreadPoolExecutor(8) as ex:
            fs = []
            for w in esc:
                for s in range(1 if len(esc) > 3 else 2):
                    fs.append(ex.submit(harness, w['c'], 6 if not thorough else 20, seed + 1000 + s, uniq(w['hints'])[:6],
                                        150 if not thorough else 900, f'e{s}'))
                fs.append(ex.submit(harness, w['c'], 1, seed + 2000, uniq(w['hints'])[:6], 200 if not thorough else 900, 's',
                                    constants_of(w['c'].target)))
            reals += [f.result() for f in fs]

    # verdict
    viol = []
    for c, h in reals:
        for f in h['fails']:
            if f.get('harness'):
                continue
            viol.append(('replayed', f))
    if not viol:
        for w in weak.values():
            for o in w['bad']:
                if o['status'] == 'failed':
                    viol.append(('refuted', dict(contract=w['c'].id, target=w['c'].target, obligation=o)))
    for f, rc, o in leans:
        if rc != 0:
            # a static lemma does not depend on /repo: a failure is an error of the installation
            print(f'lemma file {f} was not accepted: {rc} {o[-500:]}')
    os.makedirs(REPLAY, exist_ok=True)
    lines = []
    seen = set()
    for kind, f in viol:
        if f['contract'] in seen:
            continue
        seen.add(f['contract'])
        path = os.path.join(REPLAY, f'{prop}-{safe(f["contract"])}.json')
        f = dict(f, property=prop, kind=kind, obligations=[o for w in weak.values() if w['c'].id == f['contract'] for o in w['bad']][:10])
        json.dump(f, open(path, 'w'), indent=1, default=str)
        lines.append(f'VIOLATION property={prop} replay={path}' + ('' if kind == 'replayed' else ' no-failing-input-found'))
        what = f['errors'][0] if kind == 'replayed' else f['obligation']['obligation'] + ': ' + f['obligation']['detail'][:300]
        print(f'{f["contract"]} ({f["target"]}): {what}')

    # evidence
    obs = [o for _, r in proofs for o in r['obs']]
    disch = sum(o['status'] == 'proved' for o in obs)
    fns = {}
    for (c, k), r in proofs:
        for q, l in r['functions'].items():
            fns.setdefault(q, set()).add(c.id)
    contracts_under = sorted({c.target for c in cs if c.prove and c.inputs is not None})
    execs = sum(h['executions'] for _, h in reals)
    bounded = sorted(c.id for c in cs if not c.prove and c.conc) + sorted(weak)
    level = 'proof' if obs and disch == len(obs) and any(c.prove for c in cs) else ('proof' if disch else 'other')
    trusted = ['/verif/engine: symbolic interpreter, normal-form equality procedure, library models (the replay compares the same specifications with the real libraries)',
               'z3 (side conditions)', 'CPython ast'] + ([f'Lean 4 kernel + Mathlib ({", ".join(lean_files)})'] if lean_files else [])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(lines),
              coverage=dict(
                  obligations=len(obs), discharged=disch,
                  checker_cmd=f'python3-vt bin/check.py {prop} {tier}',
                  trusted_base=trusted,
                  functions_under_contract=contracts_under,
                  functions_interpreted={q: sorted(v) for q, v in sorted(fns.items())},
                  callee_contracts_used=sorted({x for _, r in proofs for x in r['callees']}),
                  assumed_library_contracts=sorted({m for _, r in proofs for m in r['models']}),
                  back_end=dict(z3_queries=sum(r['stats'].get('queries', 0) for _, r in proofs),
                                z3_seconds=round(sum(r['stats'].get('time', 0) for _, r in proofs), 2),
                                z3_unknown=sum(r['stats'].get('unknown', 0) for _, r in proofs),
                                total_proof_seconds=round(sum(r['seconds'] for _, r in proofs), 2)),
                  obligation_list=[dict(obligation=o['obligation'], status=o['status']) for o in obs],
                  undischarged=[o for w in weak.values() for o in w['bad']][:20],
                  lean_lemmas={f: ('accepted' if rc == 0 else str(rc)) for f, rc, o in leans},
                  replay_executions=execs,
                  replay={c.id: h['stats'].get(c.id) for c, h in reals},
                  replay_errors=[f for _, h in reals for f in h['fails'] if f.get('harness')][:5] + [h['error'] for _, h in reals if 'error' in h][:5],
                  replay_truncated=sorted({x for _, h in reals for x in h['truncated']}),
                  bounded_only=bounded),
              assumptions=assumptions(cs))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1, default=str)
    print(f'{prop}: {disch}/{len(obs)} obligations discharged, {execs} replay executions, {time.time() - t0:.1f} s')
    for w in weak.values():
        for o in w['bad'][:3]:
            print(f'  not discharged: {o["obligation"]} [{o["status"]}] {o["detail"][:160]}')
    for c, h in reals:
        if 'error' in h:
            print('  ', h['error'][:300])
    for l in lines:
        print(l)
    return 1 if lines else 0


def clean(r):
    return bool(r['obs']) and all(o['status'] == 'proved' for o in r['obs'])


def helpers_over(weak, proofs):
    """the weak private helpers and the private helpers verified against them"""
    w = set(weak)
    while True:
        n = w | {j[0].target for j, r in proofs if j[0].private and set(r['callees']) & w}
        if n == w:
            return w
        w = n


def assumptions(cs):
    a = ['floating-point arithmetic is treated as real arithmetic in the proofs; the replay runs the real code in double precision',
         'library functions (jax, numpy, scipy, tme) satisfy the models listed under assumed_library_contracts',
         'user-supplied callables are pure functions of their arguments',
         'termination of loops over finite ranges is by construction; recursive functions are assumed to terminate']
    for c in cs:
        if c.note and c.note not in a:
            a.append(f'{c.id}: {c.note}')
    return a


def uniq(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


def safe(s):
    return re.sub(r'[^A-Za-z0-9_.-]', '_', s)


if __name__ == '__main__':
    main()
