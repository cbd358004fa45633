"""Development aid: small automatic changes of the code under test, to find what the checks miss.

mutate.py OUT.jsonl [-n COUNT] [-s SEED] [-f TEXT] [-w WORKERS]
Every mutant that passes the stable tests is put to the checks whose evidence lists the changed
function (most specific first) until one reports a violation.  Works on scratch copies only."""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['nxt_path', 'nxt_layer', 'nxt_node', 'stage', 'tokens', 'runtime', 'session', 'legacy', 'nxt_io',
         'nxt_log', 'cli', 'clean_json']
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
        ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def encoded():
    fs = {}
    for f in sorted(glob.glob(V + '/evidence/*.json')):
        d = json.load(open(f))
        names = [x for x in d['coverage']['functions_encoded'] if x.startswith('nxt.')]
        for x in names:
            fs.setdefault(x, []).append((len(names), d['property']))
    return dict((k, [p for _, p in sorted(v)]) for k, v in fs.items())


def mutants(mod, src, fs):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(fn, n, new, kind):
        a, b = span(n)
        if raw[a:b].decode() == new:
            return
        out.append(dict(mod=mod, fn=fn, line=n.lineno, kind=kind, old=text(n)[:160], new=new[:160],
                        parts=(raw, a, new, b)))

    def log(n):
        t = text(n)
        return t.startswith(('logger.', 'print(', 'logging.')) or 'logger.' in t.split('\n')[0]

    def visit(n, qual, infn):
        for c in ast.iter_child_nodes(n):
            q, f = qual, infn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = qual + '.' + c.name
                f = q if isinstance(c, ast.FunctionDef) else None
                if isinstance(c, ast.FunctionDef) and q not in fs:
                    continue
                visit(c, q, f)
                continue
            if infn:
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                if isinstance(c, ast.Expr) and log(c):
                    continue
                one(c, infn)
            visit(c, q, f)

    def one(c, fn):
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            add(fn, c, '%s %s %s' % (text(c.left), SWAP[type(c.ops[0])], text(c.comparators[0])), 'cmp')
        elif isinstance(c, ast.BoolOp):
            for i in range(len(c.values)):
                rest = [text(v) for j, v in enumerate(c.values) if j != i]
                add(fn, c, '(' + (' and ' if isinstance(c.op, ast.And) else ' or ').join(rest) + ')', 'drop operand')
            if len(c.values) == 2:
                add(fn, c, '(%s %s %s)' % (text(c.values[0]), 'or' if isinstance(c.op, ast.And) else 'and',
                                           text(c.values[1])), 'and/or')
        elif isinstance(c, (ast.If, ast.While)):
            t = text(c.test)
            add(fn, c.test, 'not (%s)' % t, 'negate')
            if isinstance(c, ast.If):
                add(fn, c.test, 'False', 'never')
                add(fn, c.test, 'True', 'always')
        elif isinstance(c, ast.IfExp):
            add(fn, c.test, 'not (%s)' % text(c.test), 'negate')
        elif isinstance(c, ast.Constant):
            if c.value is True or c.value is False:
                add(fn, c, str(not c.value), 'bool')
            elif isinstance(c.value, int):
                add(fn, c, str(c.value + 1), 'const')
                if c.value:
                    add(fn, c, str(c.value - 1), 'const')
        elif isinstance(c, (ast.Break, ast.Continue)):
            add(fn, c, 'continue' if isinstance(c, ast.Break) else 'break', 'loop')
            add(fn, c, 'pass', 'loop')
        elif isinstance(c, ast.Expr) and isinstance(c.value, ast.Call):
            add(fn, c, 'pass', 'drop call')
        elif isinstance(c, ast.AugAssign):
            add(fn, c, 'pass', 'drop +=')
            add(fn, c, '%s = %s' % (text(c.target), text(c.value)), '+= to =')
        elif isinstance(c, ast.Delete):
            add(fn, c, 'pass', 'drop del')
        elif isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], (ast.Subscript, ast.Attribute)):
            add(fn, c, 'pass', 'drop =')
        elif isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Slice):
            add(fn, c, text(c.value), 'no slice')
        elif isinstance(c, ast.Call):
            n = text(c.func)
            if n in ('reversed', 'sorted', 'list', 'set', 'copy.copy', 'copy.deepcopy', 'str') and len(c.args) == 1 and not c.keywords:
                add(fn, c, text(c.args[0]), 'no ' + n)
            if len(c.args) >= 2 and not n.startswith(('setattr', 'logger')) and not any(isinstance(a, ast.Starred) for a in c.args):
                a = [text(x) for x in c.args]
                a[0], a[1] = a[1], a[0]
                add(fn, c, '%s(%s)' % (n, ', '.join(a + [text(k) if False else '%s=%s' % (k.arg, text(k.value)) for k in c.keywords])), 'swap args')
            for i, k in enumerate(c.keywords):
                if k.arg:
                    a = [text(x) for x in c.args] + ['%s=%s' % (y.arg, text(y.value)) for j, y in enumerate(c.keywords) if j != i]
                    add(fn, c, '%s(%s)' % (n, ', '.join(a)), 'drop kw ' + k.arg)
            if n.endswith('.startswith'):
                add(fn, c, n[:-10] + 'endswith(%s)' % ', '.join(text(x) for x in c.args), 'startswith')
        elif isinstance(c, ast.BinOp) and isinstance(c.op, (ast.Add, ast.Sub)):
            add(fn, c, text(c.left), 'drop right')
            add(fn, c, text(c.right), 'drop left')
        elif isinstance(c, ast.Return) and c.value is not None:
            add(fn, c, 'return', 'return None')
    visit(tree, 'nxt.' + mod, None)
    return out


def arg(k, d):
    return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d


def main():
    outp = sys.argv[1]
    fs = encoded()
    pat, skip = arg('-f', ''), arg('-x', None)
    allm = []
    for m in FILES:
        allm += mutants(m, open('/repo/nxt/%s.py' % m).read(), fs)
    allm = [m for m in allm if pat in m['fn']]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d['mod'], d['line'], d['kind'], d['old'], d['new']))
    byfn = {}
    rnd = random.Random(int(arg('-s', '1')))
    rnd.shuffle(allm)
    for m in allm:
        byfn.setdefault(m['fn'], []).append(m)
    pick = []
    fns = sorted(byfn)
    rnd.shuffle(fns)
    while fns and len(pick) < int(arg('-n', '100')):
        for f in list(fns):
            # functions with many mutants are drawn from more often
            for _ in range(1 + len(byfn[f]) // 20):
                if byfn[f]:
                    m = byfn[f].pop()
                    if (m['mod'], m['line'], m['kind'], m['old'], m['new']) not in done:
                        pick.append(m)
            if not byfn[f]:
                fns.remove(f)
    pick = pick[:int(arg('-n', '100'))]
    print(len(allm), 'mutants,', len(pick), 'picked', flush=True)
    lock = threading.Lock()
    it = iter(pick)
    nw = int(arg('-w', '2'))
    jobs = str(max(2, 8 // nw))

    def work():
        tmp = tempfile.mkdtemp(prefix='mutant_')
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', NXT_USER_DIR=tmp + '/user',
                   TMPDIR=tmp + '/tmp', VERIF_REPO=repo)
        for d in ('/user', '/tmp'):
            os.makedirs(tmp + d)
        try:
            while True:
                with lock:
                    m = next(it, None)
                if m is None:
                    return
                t0 = time.time()
                raw, a, new, b = m['parts']
                res = (raw[:a] + new.encode() + raw[b:]).decode()
                try:
                    ast.parse(res)
                except SyntaxError:
                    continue
                f = repo + '/nxt/%s.py' % m['mod']
                orig = open(f).read()
                open(f, 'w').write(res)
                try:
                    r = dict((k, m[k]) for k in ('mod', 'fn', 'line', 'kind', 'old', 'new'))
                    try:
                        p = subprocess.run('/opt/venv/bin/python -m pytest nxt/test -q -p no:cacheprovider --timeout=60 | tail -1',
                                           shell=True, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
                        ok = '104 passed' in p.stdout
                    except subprocess.TimeoutExpired:
                        ok = False
                    r['tests'] = ok
                    if ok:
                        r['caught'], r['tried'], r['odd'] = None, [], []
                        for c in fs[m['fn']][:7]:
                            r['tried'].append(c)
                            try:
                                p = subprocess.run('python3-vt -W ignore -m symx.run %s --tier quick -j %s --no-evidence' % (c, jobs),
                                                   shell=True, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                            except subprocess.TimeoutExpired:
                                r['odd'].append(c + ' timeout')
                                continue
                            if p.returncode == 1:
                                r['caught'] = c
                                break
                            if p.returncode != 0:
                                r['odd'].append('%s rc=%d' % (c, p.returncode))
                    r['secs'] = int(time.time() - t0)
                    with lock:
                        with open(outp, 'a') as o:
                            o.write(json.dumps(r) + '\n')
                finally:
                    open(f, 'w').write(orig)
                    subprocess.run('git -C %s checkout -q -- . ; git -C %s clean -fdq' % (repo, repo), shell=True)
        finally:
            shutil.rmtree(tmp)
    ts = [threading.Thread(target=work) for _ in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
