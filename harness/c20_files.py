import json
import os
import shutil

from nxt import nxt_path, nxt_io
from nxt.plugins import file_fallbacks
from harness import common as C

PROPERTY = 'C20'
LET = 'abcdefghijklmnopqrstuvwxyz'
BOUNDS = {
    'quick': 'texts of up to 5 characters over "%$aB1_/" and one of any other character for environment '
             'variables; path texts of up to 4 characters for the working directory; relative, dotted, '
             'absolute and home paths and paths with a variable in both styles, with symbolic file names, '
             'below 0 to 3 file roots and a layer directory, each holding a file with a symbolic name or '
             'none; file tokens with symbolic values on up to 3 layers, muted or not',
    'thorough': 'texts of up to 7 characters, 4 roots, 4 layers'}
REACH = ['foreign', 'native', 'literal', 'cwd kept', 'cwd kept on error', 'first root', 'later root', 'layer dir',
         'nowhere', 'lower layer', 'token', 'path token', 'loaded', 'list',
         'parent', 'instance', 'child of instance', 'other', 'other relative', 'value refers', 'other refers',
         'file in value', 'file in text', 'missing']
ASSUMPTIONS = ['names of environment variables are identifiers',
               'on windows only texts without % are judged (its own style has no unambiguous reading next to '
               'converted variables)',
               'no symbolic links', 'os.path.exists, isfile, realpath, expandvars, expanduser, getcwd and chdir '
               'are stubbed by models over a symbolic file tree in the symbolic run; the replay uses real '
               'files below a scratch directory']
TOP = os.path.join(os.environ.get('TMPDIR', '/nonexistent'), 'c20')
HOME = TOP + '/home'
FILES = []
DIRS = []
CWD = ['']


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 6 if q else 8):
        out.append(dict(h='unify', n=n, target='linux'))
        out.append(dict(h='unify', n=n, target='win32'))
    for n in range(0, 5 if q else 7):
        for start in ('r0', None, 'gone'):
            out.append(dict(h='cwd', n=n, start=start))
    for shape in SHAPES:
        for n in range(0, 5 if not q else 4 if shape in ('@', '../@') else 3):
            for layer in ('l0', None, 'gone'):
                out.append(dict(h='roots', shape=shape, n=n, layer=layer, gone=n == 2))
        out.append(dict(h='load', shape=shape, n=2))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for roots in (0, 1) if q else (0, 1, 2):
            for text in TEXTS:
                if n < 3 or not roots or not q:
                    out.append(dict(h='token', layers=n, roots=roots, text=text))
    out.append(dict(h='token', layers=3, roots=1, text='${filelist::${a}}', both=True))
    for n in (1, 2) if q else (1, 2, 3):
        for how in HOWS:
            out.append(dict(h='deep', layers=n, how=how))
    return out


SHAPES = ['@', './@', 'd/@', '../@', 'd/../@', '$C20V/@', '${C20V}/@', '%C20V%/@', '%C20V%x/@', '~/@', 'TOP/abs/@']
TEXTS = ['${file::${a}}', '${file::@}', '${file::d/${/n.a}}', '${filelist::${a}}', '${path::${a}}', 'x${file::${b}}y',
         '${file::${a}${b}}']

HOWS = ['parent', 'instance', 'child of instance', 'other', 'other relative', 'value refers', 'other refers', 'file in value',
        'file in text', 'missing']


# ---- stand-ins --------------------------------------------------------------
def norm(p):
    if not p.startswith('/'):
        p = os.path.join(CWD[0], p)
    return os.path.normpath(p)


def m_exists(p):
    p = norm(p)
    for d in DIRS:
        if p == d:
            return True
    return m_isfile(p)


def m_isfile(p):
    p = norm(p)
    for f in FILES:
        if p == f:
            return True
    return False


def m_realpath(p):
    if '\0' in p:
        raise ValueError('embedded null byte')
    return norm(p)


def m_chdir(p):
    p = norm(p)
    if not [d for d in DIRS if d == p]:
        raise OSError('no such directory')
    CWD[0] = p


def m_getcwd():
    return CWD[0]


def m_expandvars(p):
    out = ''
    for kind, x in native(p):
        v = {'C20V': 'val', 'C20W': 'd/e'}.get(x) if kind == 'var' else None
        out += x if kind == 'lit' else v if v is not None else '$' + x
    return out


def m_expanduser(p):
    if p == '~' or p.startswith('~/'):
        return HOME + p[1:]
    return p


def native(text):
    """What os.path.expandvars reads: literal text and variables."""
    out, i, lit = [], 0, ''
    while i < len(text):
        if text[i] == '$' and i + 1 < len(text):
            j = i + 1
            if text[j] == '{':
                j += 1
                while j < len(text) and text[j] != '}':
                    j += 1
                if j < len(text):
                    out.append(('lit', lit))
                    lit = ''
                    out.append(('var', text[i + 2:j]))
                    i = j + 1
                    continue
            else:
                while j < len(text) and word(text[j]):
                    j += 1
                if j > i + 1:
                    out.append(('lit', lit))
                    lit = ''
                    out.append(('var', text[i + 1:j]))
                    i = j
                    continue
        lit += text[i]
        i += 1
    out.append(('lit', lit))
    return [x for x in out if x[0] == 'var' or x[1] != '']


def windows(text):
    """%NAME% variables"""
    out, i, lit = [], 0, ''
    while i < len(text):
        if text[i] == '%':
            j = i + 1
            while j < len(text) and word(text[j]):
                j += 1
            if j < len(text) and text[j] == '%' and j > i + 1 and not text[i + 1].isdigit():
                out += [('lit', lit), ('var', text[i + 1:j])]
                lit = ''
                i = j + 1
                continue
        lit += text[i]
        i += 1
    out.append(('lit', lit))
    return [x for x in out if x[0] == 'var' or x[1] != '']


def word(c):
    return c == '_' or 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9'


class FakeFile(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def m_open(p, mode='r'):
    if not m_isfile(p):
        raise IOError('no such file')
    return FakeFile()


def m_load(f, **kw):
    return {'version': '1.17'}


def make_dir(p):
    os.makedirs(p)


def make_file(p):
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, 'w') as f:
        f.write('{"version": "1.17"}')


def begin():
    if os.path.isdir(TOP):
        shutil.rmtree(TOP)
    os.makedirs(TOP)


def end():
    os.chdir('/')
    shutil.rmtree(TOP)


def m_make_dir(p):
    DIRS.append(p)


def m_make_file(p):
    FILES.append(p)
    DIRS.append(os.path.dirname(p))


def nothing():
    pass


def run(H, case):
    for f, m in ((os.path.exists, m_exists), (os.path.isfile, m_isfile), (os.path.realpath, m_realpath),
                 (os.chdir, m_chdir), (os.getcwd, m_getcwd), (os.path.expandvars, m_expandvars),
                 (os.path.expanduser, m_expanduser), (make_dir, m_make_dir), (make_file, m_make_file),
                 (begin, nothing), (end, nothing), (json.load, m_load)):
        H.stub(f, m)
    del FILES[:]
    del DIRS[:]
    DIRS.extend(['/', TOP])
    CWD[0] = TOP
    begin()
    before = dict([(k, os.environ.get(k)) for k in ('HOME', 'C20V', 'C20W', 'NXT_FILE_ROOTS')])
    os.environ['HOME'] = HOME
    os.environ['C20V'] = 'val'
    os.environ['C20W'] = 'd/e'
    os.environ.pop('NXT_FILE_ROOTS', None)
    for d in ('r0', 'r1', 'r2', 'r3', 'l0', 'l1', 'l2', 'l3', 'home', 'here'):
        make_dir(TOP + '/' + d)
    os.chdir(TOP + '/here')
    try:
        globals()['h_' + case['h']](H, case)
    finally:
        for k in before:
            if before[k] is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = before[k]
        end()


# ---- environment variables ----------------------------------------------------
def merged(parts):
    out = []
    for kind, x in parts:
        if kind == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + x)
        elif x != '':
            out.append((kind, x))
    return out


def h_unify(H, case):
    target = case['target']
    text = H.str('t', case['n'], alphabet='%$aB1_/.' if target == 'linux' else '$aB1_/.')
    got = nxt_path.unify_env_vars(text, target)
    want = []
    if target == 'linux':
        # variables in the windows style, in the text around them those of the own style
        for kind, x in windows(text):
            if kind == 'var':
                want.append((kind, x))
                H.reach('foreign')
            else:
                parts = native(x)
                want += parts
        # a $ right before %NAME% stays what it is
        want = merged(want)
        have = merged(native(got))
    else:
        for kind, x in native(text):
            if kind == 'var' and x[0].isdigit():
                want.append(('lit', '$' + x))
            else:
                want.append((kind, x))
        want = merged(want)
        have = merged(windows(got))
    H.check(H.eq([list(x) for x in have], [list(x) for x in want]), 'the same variables and text')
    H.observe('unified', got)
    if any([k == 'var' for k, x in want]):
        H.reach('native')
    else:
        H.check(H.eq(got, text), 'text without variables stays')
        H.reach('literal')


def h_cwd(H, case):
    text = H.str('t', case['n'], alphabet='a./~$%\0 ')
    start = TOP + '/' + case['start'] if case['start'] else None
    here = os.getcwd()
    try:
        got = nxt_path.full_file_expand(text, start)
    except (ValueError, OSError):
        H.check(os.getcwd() == here, 'the working directory after an error')
        H.reach('cwd kept on error')
        return
    H.check(os.getcwd() == here, 'the working directory')
    H.check(got.startswith('/'), 'an absolute path')
    if not [c for c in text if c in '~$%']:
        H.check(got == os.path.normpath(os.path.join(start or here, text)), 'relative to the start')
    H.reach('cwd kept')


# ---- roots ----------------------------------------------------------------------
def expected(shape, name, start):
    rel = shape.replace('TOP', TOP).replace('@', name)
    for v in ('$C20V', '${C20V}', '%C20V%'):
        rel = rel.replace(v, 'val')
    if rel.startswith('~'):
        rel = HOME + rel[1:]
    return os.path.normpath(os.path.join(start, rel))


def plant(H, tag, where, shape='@'):
    """A file with a symbolic name, or none."""
    if H.bool('has ' + tag):
        make_file(expected(shape, 'f' + H.str(tag, 1, alphabet='ab'), where))


def first(H, shape, name, starts):
    for i, s in enumerate(starts):
        path = expected(shape, name, s)
        if os.path.exists(path):
            return i, path
    return None, ''


def h_roots(H, case):
    shape, n = case['shape'], case['n']
    name = 'f' + H.str('name', 1, alphabet='ab')
    starts = [TOP + '/r%d' % i for i in range(n)]
    for i, s in enumerate(starts):
        plant(H, 'r%d' % i, s, shape)
    layer = TOP + '/' + case['layer'] if case['layer'] else None
    if case['layer'] == 'l0':
        plant(H, 'l', layer, shape)
    plant(H, 'here', TOP + '/here', shape)
    if n:
        roots = list(starts)
        if case['gone']:
            roots.insert(1, TOP + '/gone')
        os.environ['NXT_FILE_ROOTS'] = os.pathsep.join(roots)
    here = os.getcwd()
    got = file_fallbacks.file_root_fallback(shape.replace('TOP', TOP).replace('@', name), layer)
    H.check(os.getcwd() == here, 'the working directory')
    i, want = first(H, shape, name, starts + ([layer] if case['layer'] == 'l0' else []))
    H.check(got == want, 'the first that exists')
    H.reach('nowhere' if i is None else 'first root' if not i and n else 'later root' if i < n else 'layer dir')


def h_load(H, case):
    """Opening a graph file looks into the roots first."""
    shape, n = case['shape'], case['n']
    name = 'f' + H.str('name', 1, alphabet='abc') + '.nxt'
    starts = [TOP + '/r%d' % i for i in range(n)]
    for i, s in enumerate(starts + [TOP + '/here']):
        if H.bool('has %d' % i):
            make_file(expected(shape, 'f' + H.str('g%d' % i, 1, alphabet='abc') + '.nxt', s))
    os.environ['NXT_FILE_ROOTS'] = os.pathsep.join(starts)
    H.stub(open, m_open)
    here = os.getcwd()
    path = shape.replace('TOP', TOP).replace('@', name)
    i, want = first(H, shape, name, starts + [here])
    try:
        got = nxt_io.load_file_data(path)['real_path']
    except IOError:
        got = ''
    H.check(os.getcwd() == here, 'the working directory')
    H.check(got == want, 'the file in the first root that has it, else as named')
    H.reach('loaded')


# ---- tokens -----------------------------------------------------------------------
def h_token(H, case):
    n = case['layers']
    layers, a, b, muted = [], [], [], []
    name = 'f' + H.str('name', 1, alphabet='ab')
    for i in range(n):
        attrs = {}
        if H.bool('a%d' % i):
            attrs['a'] = {'value': 'f' + H.str('va%d' % i, 1, alphabet='ab')}
        if '${b}' in case['text'] and i != 1:
            attrs['b'] = {'value': 'fab'[:2 + i % 2]}
        mute = H.bool('mute%d' % i) if i == 1 or n == 2 else False
        a.append(attrs.get('a', {}).get('value'))
        b.append(attrs.get('b', {}).get('value'))
        muted.append(mute)
        layers.append({'nodes': {'/n': {'attrs': attrs}}, 'mute': bool(mute),
                       'real_path': TOP + '/l%d/x.nxt' % i, 'filepath': 'x%d.nxt' % i})
    stage = C.mk_stage(layers)
    H.assume(not all(muted))
    comp = stage.build_stage(0)
    node = comp.lookup('/n')
    roots = [TOP + '/r%d' % i for i in range(case['roots'])]
    if roots:
        os.environ['NXT_FILE_ROOTS'] = os.pathsep.join(roots)
    text = case['text'].replace('@', name)
    inner = 'd/@' if 'd/' in text else '@'
    two = text == '${file::${a}${b}}'
    for i, s in enumerate(roots + [TOP + '/l%d' % i for i in range(n)]):
        if H.bool('has %d' % i):
            stem = 'f' + H.str('g%d' % i, 1, alphabet='ab')
            make_file(expected(inner, stem + ('fa' if two else ''), s))
            if case.get('both') and not i:
                make_file(expected(inner, 'f' + H.str('other', 1, alphabet='ab'), s))
    here = os.getcwd()
    if node is None:
        return
    got = stage.resolve(node, text, comp)
    H.check(os.getcwd() == here, 'the working directory')
    found = []
    for d in range(n):
        active = [i for i in range(d, n) if not muted[i]]
        if not active:
            continue
        seen = []
        for col in (a, b):
            vals = [col[i] for i in active if col[i] is not None]
            seen.append(vals[0] if vals else '')
        value = name if '@' in case['text'] else seen[0] if '${a}' in text or '.a}' in text else seen[1]
        if two:
            value = seen[0] + seen[1]
        if not value and '/' not in inner:
            continue
        if value and text.startswith('${path'):
            H.check(got == expected('@', value, roots[0] if roots else TOP + '/l%d' % active[0]), 'path token')
            H.reach('path token')
            return
        i, path = first(H, inner, value, roots + [TOP + '/l%d' % active[0]])
        if i is not None and path not in found:
            found.append(path)
            if d:
                H.reach('lower layer')
        if d == 0 and i is not None:
            H.reach('token')
    if text.startswith('${path'):
        return
    if text.startswith('${filelist'):
        H.check(got == str(found), 'all that exist, strongest first')
        H.reach('list')
        return
    want = found[0] if found else ''
    if text.startswith('x'):
        want = 'x' + want + 'y'
    H.check(got == want, 'the strongest that exists')


def h_deep(H, case):
    """Values that come from elsewhere: inherited, instanced, of other nodes, built from other values."""
    how, n = case['how'], case['layers']
    at = {'parent': '/p/n', 'child of instance': '/i/k', 'other relative': '/p/n'}.get(how, '/n')
    src = {'parent': '/p', 'instance': '/s', 'child of instance': '/s/k', 'other': '/s', 'other relative': '/p/s',
           'other refers': '/s'}.get(how, '/n')
    text = {'other': '${file::${/s.a}}', 'other relative': '${file::${../s.a}}', 'other refers': '${file::${/s.a}}',
            'missing': '${file::${/gone.a}}'}.get(how, '${file::${a}}')
    layers, vals = [], []
    for i in range(n):
        v, has = 'f' + H.str('v%d' % i, 1, alphabet='ab'), H.bool('has v%d' % i)
        nodes = {}
        attrs = {}
        if how == 'value refers' or how == 'other refers':
            attrs['a'] = {'value': '${b}'}
            if has:
                attrs['b'] = {'value': v}
            if how == 'other refers':
                nodes['/n'] = {'attrs': {'b': {'value': 'fc'}}}
        elif how == 'file in value':
            if has:
                attrs['a'] = {'value': '${file::' + v + '}'}
        elif how == 'file in text':
            if has:
                attrs['a'] = {'value': '${file::' + v + '}z'}
        elif has:
            attrs['a'] = {'value': v}
        nodes[src] = {'attrs': attrs}
        if src.count('/') == 2:
            nodes.setdefault(src[:2], {})
        if not i:
            nodes.setdefault(at, {})
            if how == 'instance':
                nodes[at]['instance'] = '/s'
            if how == 'child of instance':
                nodes['/i'] = {'instance': '/s'}
                nodes.pop('/i/k')
        vals.append(v if has else None)
        layers.append({'nodes': nodes, 'real_path': TOP + '/l%d/x.nxt' % i, 'filepath': 'x%d.nxt' % i})
    stage = C.mk_stage(layers)
    comp = stage.build_stage(0)
    for i in range(n):
        plant(H, 'l%d' % i, TOP + '/l%d' % i)
        if how == 'file in text':
            plant(H, 'z%d' % i, TOP + '/l%d' % i, '@z')
    got = stage.resolve(comp.lookup(at), text, comp)
    want = ''
    for d in range(n):
        seen = [v for v in vals[d:] if v is not None]
        if not seen or how == 'missing':
            continue
        path = expected('@', seen[0], TOP + '/l%d' % d)
        if how == 'file in text':
            path = (path if os.path.exists(path) else '') + 'z'
            path = os.path.join(TOP + '/l%d' % d, path)
        if os.path.exists(path):
            want = path
            break
    H.check(got == want, 'the strongest that exists: ' + how)
    H.reach(how)
