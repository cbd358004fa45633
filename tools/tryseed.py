"""Validate planted bugs in scratch copies: tryseed.py [-n (no check)] ID... (default: all)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = {}


def sh(cmd, cwd, env, to=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=to, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(sid, check):
    d = os.path.join(V, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seed_')
    out = []
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8',
                   NXT_USER_DIR=tmp + '/user', TMPDIR=tmp + '/tmp', VERIF_REPO=repo)
        os.makedirs(tmp + '/user'); os.makedirs(tmp + '/tmp')
        demo = os.path.join(tmp, 'd'); os.makedirs(demo)
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(d, f), demo)
        rc, o = sh('bash %s/demo.sh' % demo, repo, env, 300)
        out.append('clean demo %d' % rc + ('' if rc == 0 else '\n' + o[-600:]))
        rc, o = sh('git apply %s/patch.diff' % d, repo, env)
        if rc:
            return sid, False, 'patch does not apply ' + o
        rc, o = sh('bash %s/demo.sh' % demo, repo, env, 300)
        out.append('patched demo %d' % rc)
        rc, o = sh('/opt/venv/bin/python -m pytest nxt/test -q -p no:cacheprovider --timeout=300 | tail -4',
                   repo, env)
        out.append('tests: ' + o.strip().split('\n')[-1])
        if check:
            ev = os.path.join(V, 'evidence', prop + '.json')
            rc, o = sh('python3-vt -W ignore -m symx.run %s --tier quick -j 4 --no-evidence' % prop, V, env)
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            out.append('check %s rc=%d %s' % (prop, rc, (v or ['-'])[0][:150]))
            if rc == 2:
                out.append(o[-500:])
    finally:
        shutil.rmtree(tmp)
    return sid, True, ' | '.join(out)


ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(3) as ex:
    for sid, ok, txt in ex.map(lambda i: one(i, '-n' not in sys.argv), ids):
        print(sid, txt, flush=True)
