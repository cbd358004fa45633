"""Concrete replay on the unmodified code of /repo (run with /opt/venv/bin/python).

  replay.py BATCH.json OUT.json     many assignments, results to OUT.json
  replay.py VIOLATION.json          one counterexample: prints what fails, exit 1 if it does
"""
import importlib
import json
import os
import sys
import tempfile
import traceback
import shutil
import signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class Timeout(BaseException):
    pass


def _alarm(s, f):
    raise Timeout()


def setup():
    scratch = tempfile.mkdtemp(prefix='symx_replay_')
    os.environ['NXT_USER_DIR'] = os.path.join(scratch, 'user')
    os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
    for k in ('NXT_FILE_ROOTS', 'NXT_SITE_DIR', 'NXT_VERBOSE', 'NXT_DCC'):
        os.environ.pop(k, None)
    os.makedirs(os.environ['NXT_USER_DIR'])
    os.makedirs(os.environ['TMPDIR'])
    tempfile.tempdir = None
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    return scratch


def run_one(mod, job, seconds):
    from symx import api
    H = api.ConcH(job['inputs'])
    out = dict(status='ok', msg='', observed=None)
    old = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        mod.run(H, job['case'])
    except api.Failed as e:
        out.update(status='failed', msg=str(e))
    except api.Refused:
        out.update(status='refused')
    except api.Missing as e:
        out.update(status='missing', msg=str(e))
    except Timeout:
        out.update(status='hang', msg='did not return within %d s' % seconds)
    except Exception as e:
        out.update(status='exception', msg='%s: %s' % (type(e).__name__, e),
                   trace=traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
        os.chdir(old)
    out['observed'] = H.observed
    return out


def main(argv):
    with open(argv[0]) as f:
        batch = json.load(f)
    single = 'jobs' not in batch
    jobs = [batch] if single else batch['jobs']
    scratch = setup()
    try:
        import logging
        null = open(os.devnull, 'w')
        keep = sys.stdout
        if not single:
            sys.stdout = null
        mod = importlib.import_module('harness.' + batch['harness'])
        logging.disable(logging.CRITICAL)
        res = []
        for j in jobs:
            res.append(run_one(mod, j, batch.get('seconds', 20)))
            if res[-1]['status'] == 'hang':
                break
        sys.stdout = keep
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if single:
        r = res[0]
        print(json.dumps(dict(property=batch['property'], case=batch['case'],
                              inputs=batch['inputs'], result=r), indent=1))
        return 1 if r['status'] in ('failed', 'exception', 'hang') else 0
    with open(argv[1], 'w') as f:
        json.dump(res, f)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
