import os
import shutil
import nxt
from nxt import nxt_path
from nxt import stage as nxt_stage
from nxt.remote import contexts

PROPERTY = 'C37'
BOUNDS = {
    'quick': 'one or two contexts one after the other; names of up to three characters (letters, quotes, a backslash, '
             'a blank, braces, a dot), eight interpreters (quotes and blanks in them, those with a graph of their own '
             'and the current one), four lists of further arguments, context graphs made anew or given by absolute and '
             'relative paths in seven places, names that are empty, taken or registered, graphs that are missing',
    'thorough': 'names of up to four characters, quotes in every part at once'}
REACH = ['made', 'given', 'missing', 'empty', 'taken', 'registered', 'two', 'later', 'starter']
ASSUMPTIONS = ['names are file names (no separators) without environment variables',
               'a later session runs the files that were left in the plugin folder (nxt.plugin_loader imports them)',
               'names and paths are chosen by the solver from finite lists: they are concrete on each path, as the '
               'text of the plugin is run']
CHARS = ['', 'a', "'", '"', '\\', ' ', '{', '}', '.']
EXES = ['/opt/py/bin/python3', "/opt/o'b/python", '/opt/a "b"/python.exe', '/opt/Maya', '/opt/blender.exe',
        '/opt/{name}', '/opt/a\\', None]
ARGS = [None, ('--python',), ['-x', "it's"], ('"{0}"', '\\')]
GRAPHS = ['g.nxt', 'plug/own.nxt', 'plain/g.nxt', 'plug/sub/g.nxt', "it's/g.nxt", 'p/g.nxt', 'config/g.nxt']


def cases(tier):
    n = 3 if tier == 'quick' else 4
    out = [dict(h='names', first=c, n=n) for c in CHARS]
    out += [dict(h='with', exe=i) for i in range(len(EXES))]
    out += [dict(h='graph', g=i) for i in range(len(GRAPHS))]
    out += [dict(h='refused', why=w) for w in ('empty', 'taken', 'registered', 'missing')]
    out += [dict(h='two')]
    return out


def run(H, case):
    root = os.path.join(os.path.realpath(os.environ['TMPDIR']), 'c37.%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    for d in ('plug/sub', 'plain', "it's", 'p', 'config', 'here'):
        os.makedirs(root + '/' + d)
    keep, known, cwd = nxt.USER_PLUGIN_DIR, list(contexts._CONTEXTS), os.getcwd()
    nxt.USER_PLUGIN_DIR = root + '/plug'
    os.chdir(root + '/here')
    try:
        globals()['h_' + case['h']](H, case, root)
    finally:
        os.chdir(cwd)
        nxt.USER_PLUGIN_DIR = keep
        contexts._CONTEXTS[:] = known
        shutil.rmtree(root, ignore_errors=True)


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(d + '/' + f, 'r') as o:
                out[d + '/' + f] = o.read()
    return out


def later_session(root):
    contexts._CONTEXTS[:] = [contexts.PYTHON_CONTEXT]
    for f in sorted(os.listdir(root + '/plug')):
        if f.endswith('.py'):
            with open(root + '/plug/' + f, 'r') as o:
                text = o.read()
            exec(text, {})


def create(exe, args, graph, name):
    kw = {}
    if exe is not None:
        kw['interpreter_exe'] = exe
    if args is not None:
        kw['exe_script_args'] = args
    if graph is not None:
        kw['context_graph'] = graph
    return nxt.create_context(name, **kw)


def judge(H, root, name, exe, args, graph):
    """The context that is found by the name, wherever the run is started"""
    os.chdir(root + '/plain')
    names = [n for n in contexts.iter_context_names()]
    H.check(len([n for n in names if n == name]) == 1, 'one context of the name')
    c = contexts.find_context_by_name(name)
    H.check(c is not None, 'the context is available')
    H.check(c.exe == (contexts.PYTHON_CONTEXT.exe if exe is None else exe), 'its interpreter')
    H.check(list(c.args) == list(args or ()), 'its further arguments')
    real = nxt_path.full_file_expand(c.graph)
    H.check(os.path.isfile(real), 'its graph is there')
    if graph is not None:
        H.check(os.path.samefile(real, graph), 'the graph that was given')
        H.reach('given')
        return
    H.check(os.path.dirname(real) == root + '/plug', 'a new graph next to the plugin')
    H.reach('made')


def runs(H, path):
    """A graph made for a context starts graphs"""
    stage = nxt_stage.Stage.load_from_filepath(path)
    comp = stage.build_stage()
    starts = stage.get_layer_start_nodes(comp)
    H.check(len(starts) > 0, 'the new graph can be started')
    H.check('/enter/call_graph' in comp.get_exec_order(starts[0]), 'and calls the graph')


def both(H, root, name, exe=None, args=None, graph=None, real=None):
    mine = listing(root)
    H.check(create(exe, args, graph, name) == name, 'the name of the new context')
    judge(H, root, name, exe, args, real)
    now = listing(root)
    for f in mine:
        H.check(now.get(f) == mine[f], 'no other file is touched')
    later_session(root)
    judge(H, root, name, exe, args, real)
    H.reach('later')


def h_names(H, case, root):
    name = ''.join([case['first']] + [H.choice('c%d' % i, CHARS) for i in range(1, case['n'])])
    H.assume(name != '')
    both(H, root, name, args=('-a',))


def h_with(H, case, root):
    exe = EXES[case['exe']]
    name = H.choice('name', ['mine', "it's"])
    both(H, root, name, exe, H.choice('args', ARGS))
    if exe in ('/opt/Maya', '/opt/blender.exe'):
        H.reach('starter')
        text = listing(root)[root + '/plug/custom_%s_context.nxt' % name]
        H.check(('maya' if exe == '/opt/Maya' else 'bpy') in text, 'the graph made for this interpreter')
    runs(H, root + '/plug/custom_%s_context.nxt' % name)


def h_graph(H, case, root):
    real = root + '/' + GRAPHS[case['g']]
    with open(real, 'w') as f:
        f.write('{"version": "1.17", "nodes": {}}')
    os.environ['C37_ROOT'] = root
    given = H.choice('how', [real, '../' + GRAPHS[case['g']], '$C37_ROOT/' + GRAPHS[case['g']]])
    name = H.choice('name', ['mine', "it's"])
    both(H, root, name, H.choice('exe', EXES[:2]), H.choice('args', ARGS[:2]), given, real)


def h_refused(H, case, root):
    """What can not be made changes nothing"""
    why = case['why']
    name, graph, errors = 'mine', None, IOError
    if why == 'empty':
        name, errors = H.choice('name', ['', None]), NameError
    elif why == 'taken':
        create(None, None, None, name)
        if H.bool('later'):
            later_session(root)
    elif why == 'registered':
        name = H.choice('name', ['python', 'mine'])
        if name == 'mine':
            contexts.register_context(contexts.RemoteContext(name, '/x', '/y'))
    else:
        graph = root + '/' + H.choice('graph', ['none.nxt', 'plain', 'plug/none.nxt'])
    mine, known = listing(root), list(contexts._CONTEXTS)
    try:
        create(H.choice('exe', EXES[:2]), H.choice('args', ARGS[:2]), graph, name)
        H.check(False, 'refused: ' + why)
    except errors:
        pass
    H.check(listing(root) == mine, 'nothing is written')
    H.check(list(contexts._CONTEXTS) == known, 'nothing is registered')
    H.reach(why)


def h_two(H, case, root):
    """Two contexts one after the other, in one session or two"""
    names = [H.choice('first', ['a', 'ab', "'"]), H.choice('second', ['b', 'a.b', '"'])]
    exes = [EXES[0], H.choice('exe', EXES[1:4])]
    create(exes[0], None, None, names[0])
    if H.bool('two sessions'):
        later_session(root)
    create(exes[1], ARGS[1], None, names[1])
    for again in (False, True):
        if again:
            later_session(root)
        judge(H, root, names[0], exes[0], None, None)
        judge(H, root, names[1], exes[1], ARGS[1], None)
        H.check(len(contexts._CONTEXTS) == 3, 'these two and the first')
    H.reach('two')
