import os
import json
from nxt import nxt_layer, nxt_node, nxt_path, cli, stage as nxt_stage
from harness import common as C
from harness.comp_model import Model

PROPERTY = 'C17'
IA = C.IA
BOUNDS = {
    'quick': 'graphs of 4-5 nodes (parents, children, instances, names that are prefixes of one '
             'another) over two layers; one or two parameters with a symbolic node path of 1 or 2 '
             'names, attribute v, w or a new one, a symbolic value (string, integer or boolean); '
             'before a run, on a running layer and for a run started by node code; command lines of 0-6 arguments of up to 3 symbolic '
             'characters, and parameter files',
    'thorough': 'three parameters, 8 arguments'}
BOUNDS['quick'] += '; long: any set of parameters of all nodes at once'
REACH = ['many', 'set', 'new', 'missing', 'inherits', 'runtime', 'cli', 'odd', 'bad key', 'file', 'world', 'nested']
ASSUMPTIONS = ['node code that runs others gives no parameters to its own node', 'parameter keys name an attribute (/node.attr)', 'no node of the graph has code, except one that runs others',
               'a parameter whose node does not exist is reported and ignored',
               'attributes without an opinion on a node follow composition, with the parameter as the '
               'strongest opinion of its node']
GRAPHS = {
    'parent': {'/a': None, '/a/b': None, '/ab': None, '/a/b/c': None},
    'inst': {'/a': None, '/a/b': None, '/i': '/a', '/i2': '/i', '/ab': None},
    'gap': {'/a': None, '/a/g/b': None, '/b': None},
}


def cases(tier):
    q = tier == 'quick'
    out = []
    for g in sorted(GRAPHS):
        for n in ((1, 2) if q else (1, 2, 3)):
            out += [dict(h='params', graph=g, n=n, running=r, kind=k)
                    for r in (False, True) for k in ('str', 'int', 'bool')
                    if n == 1 or k == 'str']
        out.append(dict(h='world', graph=g))
        out.append(dict(h='many', graph=g))
        out.append(dict(h='nested', graph=g))
    out += [dict(h='cli', n=n) for n in range(0, 7 if q else 9)]
    out += [dict(h='file', n=n) for n in (0, 1, 2)]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def mk(H, case):
    """two layers; the opinions are spread over them"""
    g = GRAPHS[case['graph']]
    top, low, ops = {}, {}, {}
    for i, p in enumerate(sorted(g)):
        low[p] = {}
        if g[p]:
            low[p]['instance'] = g[p]
        for a in ('v', 'w'):
            if (a == 'v') == (i % 2 == 0):
                d = top.setdefault(p, {}) if i % 3 == 0 else low[p]
                d.setdefault('attrs', {})[a] = {'value': '%s of %s' % (a, p)}
                ops[p, a] = '%s of %s' % (a, p)
    return g, C.mk_stage([{'nodes': top}, {'nodes': low}]), ops


def node_path(H, tag):
    """a symbolic path of one or two names, the first of one or two characters"""
    kind = H.choice(tag + '.kind', ['1', '2', '1/1', '2/1', '1/1/1'])
    ns = [H.str('%s.%d' % (tag, i), int(k), exclude='/.') for i, k in enumerate(kind.split('/'))]
    return '/' + '/'.join(ns)


def snapshot(stage):
    out = []
    for l in stage._sub_layers:
        for p in sorted(l._nodes_path_as_key):
            n = l.lookup(p)
            out.append([p] + [[k, n.__dict__[k]] for k in sorted(n.__dict__) if not k.startswith('__')])
    return out


def judge(H, runtime, g, ops):
    m = Model(g)
    for p in sorted(m.paths):
        node = runtime.lookup(p)
        H.check(node is not None, 'the node is there: ' + p)
        for a in ('v', 'w', 'n'):
            want = [ops[x, a] for x in m.order(p) if (x, a) in ops]
            got = getattr(node, a, None)
            if want:
                H.check(H.eq(got, want[0]), 'attribute %s of %s' % (a, p))
            else:
                H.check(got is None, 'no attribute %s on %s' % (a, p))


def h_many(H, case):
    g, stage, ops = mk(H, case)
    params = {}
    for p in sorted(Model(g).paths):
        for a in ('v', 'n'):
            if a == 'v' or p != '/a':
                if H.bool('set %s.%s' % (p, a)):
                    params[p + '.' + a] = v = 'q' + p + a
                    ops[p, a] = v
    runtime = stage.execute_nodes([], stage.build_stage(), parameters=params)
    judge(H, runtime, g, ops)
    if len(params) > 5:
        H.reach('many')


def h_params(H, case):
    g, stage, ops = mk(H, case)
    m = Model(g)
    params = {}
    todo = []
    seen = []
    for i in range(case['n']):
        path = node_path(H, 'p%d' % i)
        a = H.choice('attr%d' % i, ['v', 'w', 'n'] if case['n'] == 1 else ['v', 'n'])
        v = {'str': lambda: H.str('val%d' % i, 1), 'int': lambda: H.int('val%d' % i, 0, 9),
             'bool': lambda: H.bool('val%d' % i)}[case['kind']]()
        for q, b in seen:
            H.assume(H.not_(H.all_of([H.eq(path, q), a == b])))
        seen.append((path, a))
        params[path + '.' + a] = v
        todo.append((path, a, v))
    for path, a, v in todo:
        at = [p for p in sorted(m.paths) if bool(H.eq(path, p))]
        if not at:
            H.reach('missing')
            continue
        H.reach('set' if (at[0], a) in ops else 'new')
        ops[at[0], a] = str(v)
        if [p for p in m.paths if p != at[0] and at[0] in m.order(p)]:
            H.reach('inherits')
    before = snapshot(stage)
    comp = stage.build_stage()
    if case['running']:
        runtime = stage.execute_nodes([], comp)
        stage.execute_nodes([], runtime, parameters=params)
        H.reach('runtime')
    else:
        runtime = stage.execute_nodes([], comp, parameters=params)
    judge(H, runtime, g, ops)
    after = snapshot(stage)
    H.check(before == after, 'the layers stay as they were')
    judge(H, stage.build_stage(), g, mk(H, case)[2])


def h_world(H, case):
    g, stage, ops = mk(H, case)
    v = H.str('v', 1)
    runtime = stage.execute_nodes([], stage.build_stage(), parameters={'/.v': v})
    judge(H, runtime, g, ops)
    H.check(H.eq(getattr(runtime.lookup('/'), 'v', None), v), 'the attribute of the world')
    H.check(all([l.lookup('/') is None for l in stage._sub_layers]), 'no world node in the layers')
    H.reach('world')


def h_nested(H, case):
    """node code that runs other nodes with parameters"""
    g, stage, ops = mk(H, case)
    order = sorted(g)
    low = stage._sub_layers[1]
    outer = order[0]
    setattr(low.lookup(outer), IA.COMPUTE, ["__stage__.step(execute)"])
    p = H.choice('node', order)
    a = H.choice('attr', ['v', 'w'])
    v = H.str('val', 1)
    if H.bool('start'):
        kw = dict(start=[q for q in order if q != outer][-1])
    else:
        kw = dict(paths=[q for q in order if q != outer])
    did = []

    def step(execute):
        if did:
            return
        did.append(1)
        execute(parameters={p + '.' + a: v}, **kw)
    stage.step = step
    H.stub(nxt_stage.determine_nxt_type, lambda x: 'raw')
    if p != outer:
        ops[p, a] = v
    runtime = stage.execute_nodes([outer], stage.build_stage())
    H.check(did == [1], 'the node has run')
    if p != outer:
        judge(H, runtime, g, ops)
        H.reach('nested')


class FakeSession(object):
    calls = []

    def execute_graph(self, *args):
        FakeSession.calls.append(args)


class Args(object):
    pass


def run_cli(H, args):
    FakeSession.calls = []
    keep = cli.Session
    cli.Session = FakeSession
    try:
        cli.execute(args)
    finally:
        cli.Session = keep
    H.check(len(FakeSession.calls) == 1, 'the graph runs once')
    return FakeSession.calls[0]


def h_cli(H, case):
    n = case['n']
    if n == 1:
        return
    items = []
    for i in range(n):
        # keys and values; a value may look like a key and a key like a value
        k = H.choice('len%d' % i, [1, 3]) if n <= 4 else 2
        items.append(H.str('arg%d' % i, k))
    args = Args()
    args.parameters = list(items)
    args.start = H.str('start', 2) if H.bool('has_start') else None
    args.path = ['/graph.nxt']
    args.context = None
    bad = any([bool(H.not_(H.eq(items[i][:1], '/'))) for i in range(0, n, 2)]) if n % 2 == 0 else None
    try:
        call = run_cli(H, args)
    except Exception as e:
        H.check(n % 2 == 1 or bad, 'refused without need')
        H.check(not FakeSession.calls, 'nothing is run')
        H.reach('odd' if n % 2 else 'bad key')
        return
    H.check(n % 2 == 0 and not bad, 'a wrong command line is refused')
    H.check(call[0] == '/graph.nxt' and call[3] is None, 'graph and context')
    H.check(call[1] is None if args.start is None else H.eq(call[1], args.start), 'start')
    got = list(call[2].items())
    want = []
    for i in range(0, n, 2):
        for w in want:
            if bool(H.eq(w[0], items[i])):
                w[1] = items[i + 1]
                break
        else:
            want.append([items[i], items[i + 1]])
    H.check(len(got) == len(want), 'one parameter per pair')
    for g, w in zip(got, want):
        H.check(H.all_of([H.eq(g[0], w[0]), H.eq(g[1], w[1])]), 'path followed by value, in order')
    H.reach('cli')


def h_file(H, case):
    data = dict([('/n%d.v' % i, H.str('v%d' % i, 1)) for i in range(case['n'])])
    path = os.path.join(os.environ['TMPDIR'], 'symx_params_%d_%d.json' % (os.getpid(), case['n']))
    C.JsonStore(H)
    dumped = json.dumps(data)
    with open(path, 'w') as f:
        f.write(dumped)
    args = Args()
    args.parameters = [path]
    args.start = None
    args.path = ['/graph.nxt']
    call = run_cli(H, args)
    H.check(len(call[2]) == len(data), 'all parameters of the file')
    for k in data:
        H.check(H.eq(call[2].get(k), data[k]), 'the value of the file')
    os.remove(path)
    args.parameters = [path]
    try:
        run_cli(H, args)
        H.check(False, 'a missing file is refused')
    except IOError:
        pass
    H.reach('file')
