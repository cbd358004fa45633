"""Runs one property's check:  python3-vt -m symx.run C01 [--tier quick|thorough]"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_PY = '/opt/venv/bin/python'
TASKS = 8

MOD = None
H = None
KEEP_SAMPLES = 2


def worker_init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)


def explore(case, prefix, slice_s, deadline):
    from symx import engine as E
    from symx import hooks
    case_c = json.loads(json.dumps(case))

    def path():
        hooks.STUBS.clear()
        hooks.REAL_LOGGING[0] = False
        try:
            MOD.run(H, case_c)
        except E.Stop:
            raise
        except RecursionError:
            eng.hang('recursion')
            raise E.Violated('recursion')
        except Exception as ex:
            if eng.env is None:
                eng._ensure_env()
            tb = traceback.extract_tb(ex.__traceback__)
            where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:]
            eng.exceptions.append(dict(msg='unexpected %s: %s' % (type(ex).__name__, str(ex)[:300]),
                                       where=where, exc=True, inputs=eng.inputs_of(eng.env)))
            raise E.Violated('exception')
    eng = E.Engine(path, prefix)
    eng.exceptions = []
    eng.max_samples = KEEP_SAMPLES
    left = eng.explore(slice_s=slice_s, deadline=deadline)
    exc = {}
    for x in eng.exceptions:
        exc.setdefault((x['msg'], tuple(x['where'])), x)
    return dict(case=case, left=left, stats=eng.stats, reached=eng.reached,
                why=eng.incomplete_why, violations=eng.violations,
                exceptions=list(exc.values())[:4], nexc=len(eng.exceptions),
                samples=eng.samples, sites=dict(hooks.SITES), executed=sorted(hooks.EXECUTED))


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def replay(prop, harness, jobs, workdir, seconds=20):
    if not jobs:
        return []
    src = os.path.join(workdir, 'batch.json')
    dst = os.path.join(workdir, 'out.json')
    with open(src, 'w') as f:
        json.dump(dict(property=prop, harness=harness, jobs=jobs, seconds=seconds), f)
    if os.path.exists(dst):
        os.unlink(dst)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONUTF8='1')
    p = subprocess.run([REPLAY_PY, '-W', 'ignore', os.path.join(VERIF, 'symx', 'replay.py'), src, dst],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=max(120, seconds * 3 + len(jobs)))
    if not os.path.exists(dst):
        raise RuntimeError('replay failed: %s' % p.stderr.decode('utf-8', 'replace')[-2000:])
    with open(dst) as f:
        return json.load(f)


def main():
    global MOD, H, KEEP_SAMPLES
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--only', default=None, help='only cases whose JSON contains this text')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=TASKS)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    random.seed(seed)
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'symx.run'] + sys.argv[1:])
    t0 = time.time()
    budget = a.budget or 780.0
    deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix='symx_')
    try:
        return check(a, tier, seed, t0, deadline, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, tier, seed, t0, deadline, scratch):
    global MOD, H, KEEP_SAMPLES
    os.environ['NXT_USER_DIR'] = os.path.join(scratch, 'user')
    os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
    for k in ('NXT_FILE_ROOTS', 'NXT_SITE_DIR', 'NXT_VERBOSE', 'NXT_DCC'):
        os.environ.pop(k, None)
    os.makedirs(os.environ['NXT_USER_DIR'])
    os.makedirs(os.environ['TMPDIR'])
    tempfile.tempdir = None
    sys.setrecursionlimit(4000)
    from symx import instrument, hooks, api
    import logging
    instrument.install(VERIF)
    name = a.prop.lower()
    mods = [f[:-3] for f in os.listdir(os.path.join(VERIF, 'harness'))
            if f.lower().startswith(name + '_') and f.endswith('.py')]
    if len(mods) != 1:
        print('no harness for', a.prop)
        return 2
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    err = None
    try:
        MOD = importlib.import_module('harness.' + mods[0])
    except Exception:
        err = traceback.format_exc()
    if err:
        print(err)
        print('ERROR: the code under test could not be loaded')
        return 2
    prop = MOD.PROPERTY
    H = api.make_symh()
    cases = MOD.cases(tier)
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    KEEP_SAMPLES = 1 if len(cases) > 100 else 3
    import gc
    gc.collect()
    gc.freeze()

    stats, reached, why, sites, executed = {}, {}, {}, {}, set()
    samples, confirmed, unconfirmed, unsupported = [], [], [], {}
    percase = {}
    left_over = 0
    ctx = multiprocessing.get_context('fork')
    ex = cf.ProcessPoolExecutor(max_workers=a.j, mp_context=ctx, initializer=worker_init)
    pending = {}
    queue = [(c, []) for c in cases][::-1]
    worker_errors = []
    try:
        while queue or pending:
            now = time.time()
            while queue and len(pending) < a.j * 2 and now < deadline:
                c, p = queue.pop()
                small = (len(queue) + len(pending)) < a.j * 3
                pending[ex.submit(explore, c, p, 1.5 if small else 6.0, deadline)] = (c, p)
            if not pending:
                break
            done, _ = cf.wait(list(pending), timeout=60, return_when=cf.FIRST_COMPLETED)
            for f in done:
                c, p = pending.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    worker_errors.append('%s on case %s' % (
                        ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:], c))
                    continue
                merge(stats, r['stats'])
                merge(reached, r['reached'])
                merge(why, r['why'])
                merge(sites, r['sites'])
                executed.update(r['executed'])
                merge(percase.setdefault(json.dumps(c, sort_keys=True), {}), r['stats'])
                for s in r['samples']:
                    samples.append(dict(case=c, **s))
                # unexplored remainders, largest subtrees last in = explored first
                for pre in r['left']:
                    queue.append((c, pre))
                cands = [dict(case=c, **v) for v in r['violations'] + r['exceptions']]
                cands = [v for v in cands if len(unconfirmed) < 12 and
                         (not v.get('exc') or unsupported.get(v['msg'], 0) < 2)]
                if cands:
                    secs = 40 if any(v.get('hang') for v in cands) else 20
                    res = replay(prop, mods[0], [dict(case=v['case'], inputs=v['inputs'])
                                                 for v in cands], scratch, secs)
                    for v, rr in zip(cands, res):
                        v['replayed'] = rr
                        if rr['status'] in ('failed', 'exception', 'hang'):
                            confirmed.append(v)
                        elif v.get('exc') or v.get('hang'):
                            unsupported[v['msg']] = unsupported.get(v['msg'], 0) + 1
                            v['why'] = 'unsupported'
                            if a.v or unsupported[v['msg']] == 1:
                                print('unsupported:', v['msg'], v.get('where'), c, v['inputs'])
                        else:
                            unconfirmed.append(v)
                    stats['nexc'] = stats.get('nexc', 0) + r['nexc']
            if confirmed or len(unconfirmed) >= 12:
                break
            if time.time() > deadline:
                left_over += len(queue)
                queue = []
    finally:
        procs = list(getattr(ex, '_processes', {}).values())
        if confirmed or unconfirmed or time.time() > deadline + 20:
            for p_ in procs:
                p_.terminate()
        ex.shutdown(wait=True, cancel_futures=True)

    # --- validation of the encoding: replay path models on the real code
    validated = mism = 0
    mismatches = []
    nval = 60 if tier == 'quick' else 200
    if not confirmed and samples:
        pick = samples if len(samples) <= nval else random.sample(samples, nval)
        res = replay(prop, mods[0], [dict(case=s['case'], inputs=s['inputs']) for s in pick], scratch)
        for s, rr in zip(pick, res):
            if rr['status'] in ('failed', 'exception', 'hang'):
                confirmed.append(dict(case=s['case'], inputs=s['inputs'],
                                      msg='path model fails on the real code: ' + rr['msg'],
                                      replayed=rr))
            elif rr['status'] == 'ok' and norm(rr['observed']) == norm(s['observed']):
                validated += 1
            else:
                mism += 1
                mismatches.append(dict(case=s['case'], inputs=s['inputs'], real=rr,
                                       symbolic=norm(s['observed'])))
    wall = time.time() - t0
    missing = [l for l in getattr(MOD, 'REACH', []) if not reached.get(l)] if not a.only else []
    exhaustive = not (left_over or why or unsupported or worker_errors or unconfirmed or confirmed)
    cov = dict(
        states=stats.get('paths', 0) + stats.get('branches', 0),
        transitions=stats.get('branches', 0),
        traces_validated_against_impl=validated,
        samples=[dict(case=s['case'], inputs=s['inputs'], observed=norm(s['observed']))
                 for s in samples[:4]] or ['none'],
        explanation='states: symbolic states, i.e. completed symbolic paths plus the branch points '
                    'between them; transitions: branch points whose two sides were put to z3; '
                    'traces_validated_against_impl: path models replayed on the unmodified code '
                    'under /opt/venv/bin/python with the same observations',
        paths=stats.get('paths', 0), infeasible_paths=stats.get('infeasible', 0),
        assertions_checked=stats.get('checks', 0),
        assertions_put_to_solver=stats.get('checks_solver', 0),
        solver_queries=stats.get('queries', 0),
        solver_seconds=round(stats.get('solver_s', 0.0), 2),
        solver_unknown=stats.get('unknown', 0), solver='z3 ' + z3_version(),
        cases=len(cases), bounds=MOD.BOUNDS if isinstance(MOD.BOUNDS, str) else MOD.BOUNDS[tier],
        functions_encoded=sorted(executed),
        sources={k: v for k, v in sorted(instrument.SOURCES.items()) if k.startswith('nxt')},
        reached=reached, unreached=missing,
        concretisations=stats.get('concretised', 0), concretised_in=sites,
        incomplete_paths=why, unsupported=unsupported,
        candidates_not_reproduced=len(unconfirmed), unexplored_prefixes=left_over,
        encoding_mismatches=mismatches[:3], exhaustive=exhaustive)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(MOD, 'ASSUMPTIONS', [])) + [
                  'CPython 3.12 runs the instrumented source; `is` on short strings and ints '
                  'follows PyPy, which runs the tests', 'logging is stubbed out'],
              wall_s=round(wall, 2), violations=len(confirmed))
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
    print('%s %s: %d cases, %d paths, %d branches, %d assertions (%d by solver), %d queries, '
          'solver %.1fs, validated %d, mismatches %d, exhaustive=%s, wall %.1fs' % (
              prop, tier, len(cases), cov['paths'], cov['transitions'], cov['assertions_checked'],
              cov['assertions_put_to_solver'], cov['solver_queries'], cov['solver_seconds'],
              validated, mism, exhaustive, wall))
    if a.v:
        for k, v in sorted(percase.items(), key=lambda kv: -kv[1]['paths'])[:12]:
            print('   ', v['paths'], v['queries'], round(v['solver_s'], 1), k)
        print('    reached', reached)
        print('    sites', sites, 'why', why)
        for m in mismatches[:3]:
            print('    MISMATCH', m)
    if why or left_over or unsupported:
        print('INCOMPLETE:', why, unsupported, 'unexplored prefixes:', left_over)
    if mism:
        print('WARNING: %d path models observed differently on the real code' % mism)
    for kf in getattr(MOD, 'KNOWN', lambda: [])():
        print('KNOWN-FINDING: property=%s %s' % (prop, kf))
    if confirmed:
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(confirmed[:3]):
            path = os.path.join(rdir, '%s_%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, harness=mods[0], case=v['case'], inputs=v['inputs'],
                               msg=v['msg'], result=v['replayed'], seconds=40,
                               how='/opt/venv/bin/python %s/symx/replay.py %s' % (VERIF, path)),
                          f, indent=1)
            print('counterexample: %s | case %s | inputs %s | real code: %s %s' % (
                v['msg'], v['case'], json.dumps(v['inputs']), v['replayed']['status'],
                v['replayed']['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if unconfirmed:
        # the real code satisfies the property on these inputs: the encoding is imprecise there
        for v in unconfirmed[:3]:
            print('INCOMPLETE: candidate not reproduced on the real code: %s | case %s | inputs %s | %s'
                  % (v['msg'], v['case'], json.dumps(v['inputs']), v['replayed']['status']))
    if worker_errors:
        print('\n'.join(worker_errors[:2]))
        return 2
    if missing and not left_over:
        print('VACUOUS: never reached:', missing)
        return 2
    if mism and mism > validated:
        return 2
    return 0


def norm(x):
    return json.loads(json.dumps(x))


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
