import argparse
import ast
import copy
import json
import os
import sys
import nxt
from nxt import cli, nxt_io, nxt_layer, nxt_log, nxt_path
from nxt import session as nxt_session
from nxt import stage as nxt_stage
from nxt.remote import contexts, server
from nxt.runtime import ExitGraph
from harness import common as C

PROPERTY = 'C35'
LET = 'abcdefghijklmnopqrstuvw'
ROUTES = ['context', 'sub graph', 'remote sub graph']
BOUNDS = {
    'quick': 'a graph of four nodes (a start point, a node that follows it, a child of it, another start '
             'point) and the world, every attribute a symbolic letter; run through a context of the plain '
             'interpreter or of one that is called with further arguments, and through a sub-graph node and '
             'a remote sub-graph node of another graph; up to two parameters with symbolic values (for an '
             'attribute that is there, one that is not and one of the world), start nodes by path and by '
             'index; one node writes a symbolic value to itself and to the world and ends normally, with an exit-node or an exit-graph '
             'request',
    'thorough': 'two nodes write'}
REACH = ['context', 'sub graph', 'remote sub graph', 'exit graph', 'exit node', 'start path', 'start index',
         'arguments', 'parameters', 'unknown', 'brought back']
ASSUMPTIONS = ['the started process is a call of the command line interface in this process, the rpc call a direct '
               'one with copies of its arguments',
               'the values are not the same (what changes nothing is a matter of C18)',
               'json text of data read back is that data (stubbed by a store)',
               'the graph has no attributes of the names the context graph uses (graph_file, cache_file, '
               'parameters_file, start_node and those with a leading underscore)']
CODE = """import sys
k = sys.verif_step(self, '%s', STAGE)
if k == 'exit node':
    raise ExitNode('done')
if k == 'exit graph':
    raise ExitGraph('done')"""
PATHS = ['/a', '/a/k', '/ab', '/b']
OWN = ['v', 'w', 'x']


def cases(tier):
    out = []
    for route in ROUTES:
        for at in range(len(PATHS)):
            for end in ('', 'exit node', 'exit graph'):
                out.append(dict(h='same', route=route, at=at, end=end, two=tier != 'quick'))
    out.append(dict(h='unknown'))
    return out


def run(H, case):
    H.stub(nxt_stage.determine_nxt_type, kind_of)
    root = os.path.join(os.path.realpath(os.environ['TMPDIR']), 'c35.%d' % os.getpid())
    os.makedirs(root, exist_ok=True)
    w = World(H, case, root)
    store = C.JsonStore(H, everywhere=True)
    keep = (nxt_log.make_session_log, server.subprocess, nxt_session.NxtClient, sys.argv, nxt.remote.client.NxtClient)
    env = os.environ.get(nxt_log.VERBOSE_ENV_VAR)
    start_rpc = nxt_session.Session._start_rpc_server
    known = list(contexts._CONTEXTS)
    nxt_log.make_session_log = lambda filename=None: None
    server.subprocess = w
    nxt_session.NxtClient = nxt.remote.client.NxtClient = w.client
    nxt_session.Session._start_rpc_server = lambda self, **kw: None
    sys.verif_step = w.step
    try:
        globals()['h_' + case['h']](H, case, w)
    finally:
        store.restore()
        (nxt_log.make_session_log, server.subprocess, nxt_session.NxtClient, sys.argv, nxt.remote.client.NxtClient) = keep
        nxt_session.Session._start_rpc_server = start_rpc
        contexts._CONTEXTS[:] = known
        os.environ.pop(nxt_log.VERBOSE_ENV_VAR, None)
        if env is not None:
            os.environ[nxt_log.VERBOSE_ENV_VAR] = env
        del sys.verif_step


def kind_of(value):
    if isinstance(value, str) and len(value) == 1 and value not in '0123456789':
        return 'raw'
    try:
        return type(ast.literal_eval(value)).__name__
    except (ValueError, NameError, SyntaxError):
        return 'raw'


def child(args):
    """The process that is started"""
    sys.argv = ['cli.py'] + args
    cli.main()


def child_model(args):
    if args[0] == '--':
        args = args[1:]
    if args[0] != 'exec' or args[2] != '-p':
        raise ValueError('no call of the command line interface: %r' % args)
    cli.execute(argparse.Namespace(path=[args[1]], parameters=args[3:], start=None, context=None))


class World(object):
    def __init__(self, H, case, root):
        self.H, self.root = H, root
        self.graph = root + '/g.nxt'
        self.log, self.calls = [], []
        self.plan, self.world = {}, False

    def write(self, path, nodes, refs=()):
        data = {'version': nxt_io.GRAPH_VERSION.VERSION_STR, 'references': list(refs), 'nodes': nodes}
        with open(path, 'w') as f:
            json.dump(data, f)

    # processes
    CalledProcessError = ValueError

    def call(self, args, **kw):
        self.calls.append(args)
        for a in args:
            self.H.check(isinstance(a, str), 'a process is started with texts')
        exe = self.context.exe
        self.H.check(args[0] == exe, 'the interpreter of the context is started')
        more = list(self.context.args)
        self.H.check(list(args[1:1 + len(more)]) == more, 'with the arguments of the context')
        rest = list(args[1 + len(more):])
        self.H.check(os.path.basename(rest[0]) == 'cli.py' and os.path.isfile(rest[0]), 'and the command line interface')
        self.H.stub(child, child_model)
        try:
            child(rest[1:])
        except SystemExit:
            pass
        return 0

    check_call = call

    def run(self, args, **kw):
        self.returncode = self.call(args)
        return self

    def Popen(self, args, **kw):
        return self.run(args)

    def wait(self, *a, **kw):
        return 0

    poll = wait

    def communicate(self, *a, **kw):
        return None, None

    def client(self, *a, **kw):
        return Proxy(self)

    # the graph
    def step(self, node, path, world):
        """What the code of a node does"""
        self.log.append([path, getattr(world, 'w', None)] + [getattr(node, a, None) for a in OWN])
        k = self.plan.get(path)
        if not k:
            return None
        node.w = k[0]
        if self.world:
            world.w = k[0]
        if len(k) > 2:
            node.v = k[2]
        return k[1]


class Proxy(object):
    def __init__(self, w):
        self.w = w

    def exec_in_headless(self, *args):
        return server.ServerFunctions(None).exec_in_headless(*copy.deepcopy(args))


def outcome(cache, local=False):
    """The values the nodes that ran were left with; of the world those that were set in the run"""
    out = {}
    world = vars(cache.lookup('/')) if local else cache.lookup('/')
    for a in OWN:
        out[a] = [world.get(a) if local else getattr(world, a, None)]
    for p in PATHS:
        node = cache.lookup(p)
        out[p] = None if node is None else [getattr(node, a, None) for a in OWN]
    return out


def forms(H, a, b):
    if set(a) != set(b):
        return False
    for p in a:
        if (a[p] is None) != (b[p] is None):
            return False
        if a[p] is not None and not bool(H.eq(a[p], b[p])):
            return False
    return True


def build(H, w, case):
    made = []

    def sym(n, letters=LET):
        v = H.str(n, 1, alphabet=letters)
        for o in made:
            H.assume(H.not_(H.eq(o, v)))
        made.append(v)
        return v
    at, end = PATHS[case['at']], case['end']
    nodes = {'/': {'attrs': {'w': {'value': sym('/.w')}}},
             '/a': {'start_point': True, 'attrs': {'v': {'value': sym('/a.v')}, 'w': {'value': '${v}'}}},
             '/a/k': {'attrs': {'x': {'value': '${/a.v}'}}},
             '/ab': {'execute_in': '/a', 'attrs': {'v': {'value': '${/a.w}'}}},
             '/b': {'start_point': True, 'attrs': {'v': {'value': sym('/b.v')}}}}
    for p in PATHS:
        nodes[p]['code'] = (CODE % p).split('\n')
    w.write(w.graph, nodes)
    w.plan[at] = (sym('written'), end)
    w.world = H.bool('write the world')
    if case['two']:
        w.plan[at] += (sym('also written'),)
    if end:
        H.reach(end)
    params = {}
    for k in ('/a.v', '/b.x', '/.w'):
        if len(params) < 2 and H.bool('give ' + k):
            params[k] = sym('given ' + k, 'xyz')
            if k == '/b.x' and case['at'] in (0, 3):
                params[k] = H.choice('kind', [params[k], 5, [1, 'q'], {'k': 'q'}, '', 0])
            H.reach('parameters')
    start = H.choice('start', [None, '/a', '/b', '/ab', 0, 1])
    if isinstance(start, str):
        H.reach('start path')
    elif start is not None:
        H.reach('start index')
    return params, start


def local(H, w, params, start):
    """The reference: the run in this interpreter"""
    stage = nxt_stage.Stage.load_from_filepath(w.graph)
    try:
        layer = stage.execute(start=start, parameters=dict(params))
    except ExitGraph as e:
        layer = e.runtime_layer
    log = w.log
    w.log = []
    return log, outcome(layer.cache_layer, True), layer


def h_same(H, case, w):
    params, start = build(H, w, case)
    want, left, _ = local(H, w, params, start)
    more = ()
    if case['route'] != 'sub graph' and not (case['at'] or case['end']):
        more = H.choice('context', [(), ('--python',), ('-x', '--batch')])
    name = 'python'
    w.context = contexts.find_context_by_name('python')
    if more:
        name = 'mine'
        w.context = contexts.RemoteContext('mine', '/t/exe', contexts._context_graph, more)
        contexts.register_context(w.context)
        H.reach('arguments')
    given = dict(params)
    if case['route'] == 'context':
        cache = nxt_session.Session().execute_graph(w.graph, start, given, name)
        H.check(forms(H, outcome(cache), left), 'the nodes are left with the values they are left with locally')
    else:
        caller = '/_sub_graph' if case['route'] == 'sub graph' else '/_remote_sub_graph'
        attrs = {'_graph_path': {'value': w.graph}}
        # parameters of a remote sub graph are its attributes
        if start is not None:
            attrs['_start'] = {'value': str(start)} if isinstance(start, str) else \
                {'value': str(start), 'type': 'int'}
        if name != 'python':
            attrs['_context'] = {'value': name}
        H.assume('/a.v' not in params and '/b.x' not in params)
        if '/.w' in params:
            attrs['w'] = {'value': params['/.w']}
        refs = ['$NXT_BUILTINS/sub_graphs.nxt' if case['route'] == 'sub graph' else
                '$NXT_BUILTINS/remote_contexts.nxt']
        w.write(w.root + '/caller.nxt', {'/c': {'instance': caller, 'start_point': True, 'attrs': attrs}}, refs)
        layer = nxt_session.Session().execute_graph(w.root + '/caller.nxt')
        node = layer.cache_layer.lookup('/c')
        if left['w'][0] is not None:
            H.check(H.eq(getattr(node, 'w', None), left['w'][0]), 'attributes of the world are brought back')
            H.reach('brought back')
    H.check(H.eq(len(w.log), len(want)), 'the nodes that run locally run')
    for a, b in zip(w.log, want):
        H.check(H.eq(a, b), 'in the same order and with the same values')
    H.check(H.eq(given, params), 'the given parameters are left alone')
    H.reach(case['route'])


def h_unknown(H, case, w):
    """A context that is not known is refused before anything runs"""
    case = dict(case, at=0, end='', two=False)
    params, start = build(H, w, case)
    w.context = None
    name = H.choice('name', ['Python', 'pytho', ''])
    try:
        nxt_session.Session().execute_graph(w.graph, start, params, name)
        H.check(False, 'refused')
    except NameError:
        pass
    H.check(w.log == [] and w.calls == [], 'nothing ran')
    try:
        nxt.execute_graph(w.graph, start, params, name or 'none')
        H.check(False, 'refused')
    except NameError:
        pass
    H.check(w.log == [] and w.calls == [], 'nothing ran')
    H.reach('unknown')
    made = nxt_io.generate_temp_file()
    H.check(os.path.isfile(made) and made.endswith('.nxt'), 'a temporary file')
    for fd in os.listdir('/proc/self/fd'):
        try:
            H.check(os.readlink('/proc/self/fd/' + fd) != made, 'is not left open')
        except OSError:
            pass
