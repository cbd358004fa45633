import ast

from nxt import nxt_layer, nxt_node, nxt_path, runtime, stage as nxt_stage
from harness import common as C
from harness.comp_model import Model

PROPERTY = 'C18'
IA = C.IA
BOUNDS = {
    'quick': 'four graphs of 3-6 nodes (chains, trees, instances with proxies, names that are prefixes '
             'of one another) over two layers with node and world code; every attribute value is two '
             'symbolic letters; every node may write one symbolic value to one of its attributes and end '
             'normally, with an exit-node or an exit-graph request; whole runs, runs continued on the '
             'running layer, nested runs at every node, every start point by path and by index, '
             'disabled nodes in explicit lists; integers and booleans; values that hold others, '
             'changed inside by their node, by a child and by an instance; '
             'every text of up to three tokens, four of the most used ones, (brackets, separators, numbers, names, quoted text) '
             'as the value of an attribute and read through references',
    'thorough': 'every node may write two attributes; texts of four tokens'}
BOUNDS['quick'] += '; long: a chain of 7 nodes that refer to one another'
REACH = ['ran', 'exit node', 'exit graph', 'written', 'same', 'seen', 'continued', 'nested', 'disabled',
         'start path', 'start index', 'no start', 'types', 'custom', 'error', 'inside',
         'literal', 'text']
ASSUMPTIONS = ['string values are two lower case letters (not read as another type)',
               'node code creates no new attributes and deletes none',
               'a node that sets an attribute to the value it already has makes no change']
# path -> (instance, execute in, own attributes); '=path.attr' is a reference
GRAPHS = {
    'chain': ([('/n', None, None, {'v': '', 'w': ''}),
               ('/na', None, '/n', {'r': '=/n.v', 'v': ''}),
               ('/nab', None, '/na', {'r': '=/na.r', 'w': '=w2', 'w2': ''})],
              ['/n', '/na', '/nab']),
    'tree': ([('/n', None, None, {'v': '', 'w': ''}),
              ('/n/n', None, None, {'w': '=v'}),
              ('/n/nab', None, None, {'v': '=../n.w'}),
              ('/n1', None, '/n', {'r': '=/n.v', 's': '=/n/n.v'})],
             ['/n', '/n/n', '/n/nab', '/n1']),
    'inst': ([('/n', None, None, {'v': '', 'w': '=v'}),
              ('/n/na', None, None, {'u': ''}),
              ('/i', '/n', '/n', {'v': ''}),
              ('/z', None, '/i', {'r': '=/n.v', 's': '=/i.w', 't': '=/i/na.u'})],
             ['/n', '/n/na', '/i', '/i/na', '/z']),
    'inst2': ([('/n', None, None, {'v': '', 'w': '=v'}),
               ('/ni', '/n', '/n', {}),
               ('/nij', '/ni', '/ni', {'x': '=/ni.v'})],
              ['/n', '/ni', '/nij']),
}
LONG = {
    'long': ([('/n', None, None, {'v': ''})] +
             [('/n%d' % i, None, '/n%d' % (i - 1) if i > 1 else '/n', {'r': '=/n%d.r' % (i - 1) if i > 1 else '=/n.v', 'w': ''})
              for i in range(1, 7)],
             ['/n'] + ['/n%d' % i for i in range(1, 7)]),
}
CODE = """k = __stage__.step(self, '%s', globals())
if k == 'node':
    raise ExitNode('done')
if k == 'graph':
    raise ExitGraph('done')
__stage__.after(self)"""


def cases(tier):
    q = tier == 'quick'
    out = []
    for g in sorted(GRAPHS):
        n = len(GRAPHS[g][1])
        out += [dict(h='run', g=g, writer=w, w2=w2, cut=0) for w in range(n)
                for w2 in [None] + (list(range(w + 1, n)) if not q or n == 3 else [])]
        out += [dict(h='run', g=g, writer=c - 1, w2=None, cut=c) for c in range(1, n)]
        out += [dict(h='nested', g=g, at=i, inner=j) for i in range(n) for j in range(n) if i != j]
        out += [dict(h='disabled', g=g), dict(h='custom', g=g)]
        out += [dict(h='error', g=g)]
    out += [dict(h='run', g='long', writer=w, w2=None, cut=c) for w, c in ((0, 0), (3, 0), (3, 4))]
    out += [dict(h='start'), dict(h='types')]
    out += [dict(h='literal', first=t, n=3 if q else 4, few=False) for t in TOKENS]
    out += [dict(h='literal', first=t, n=4, few=True) for t in TOKENS[:3:2]]
    out += [dict(h='inside', shape=sh, order=o) for sh in ('list', 'dict', 'both') for o in (0, 1)]
    return out


def run(H, case):
    if case['h'] != 'literal':
        H.stub(nxt_stage.determine_nxt_type, lambda v: 'raw')
    globals()['h_' + case['h']](H, case)


class World(object):
    """The stage, what its nodes do when they run and what they should see."""

    def __init__(self, H, g, code=CODE):
        self.H = H
        nodes, self.order = GRAPHS.get(g) or LONG[g]
        top, low = {'/': {'code': ['__stage__.world()']}}, {}
        self.raw = {}
        self.m = Model(dict([(n[0], n[1]) for n in nodes]))
        self.attrs = {}
        for i, (p, inst, ein, attrs) in enumerate(nodes):
            low[p] = {}
            if inst:
                low[p]['instance'] = inst
            else:
                low[p]['code'] = (code % p).split('\n')
            if ein:
                low[p]['execute_in'] = ein
            if i == 0:
                low[p]['start_point'] = True
            for j, a in enumerate(sorted(attrs)):
                v = attrs[a]
                if not v:
                    v = self.sym('%s.%s' % (p, a))
                    self.raw[p, a] = ('value', v)
                else:
                    self.raw[p, a] = ('ref', v[1:])
                    v = '${' + v[1:] + '}'
                where = top.setdefault(p, {}) if (i + j) % 2 else low[p]
                where.setdefault('attrs', {})[a] = {'value': v}
        for p in ('/n',):
            low[p]['child_order'] = ['n', 'na', 'nab']
        self.stage = C.mk_stage([{'nodes': top}, {'nodes': low}])
        self.before = self.snapshot()
        self.did = []
        self.frames = {}
        self.finished = []
        self.world_runs = 0
        self.plan = {}
        self.stage.step = self.step
        self.stage.after = self.after
        self.stage.world = self.world

    def sym(self, name):
        return self.H.str(name, 2, alphabet='abcdefghijklmnopqrstuvwxyz')

    def snapshot(self):
        out = []
        for l in self.stage._sub_layers:
            for p in sorted(l._nodes_path_as_key):
                n = l.lookup(p)
                out.append([p] + [[k, n.__dict__[k]] for k in sorted(n.__dict__) if not k.startswith('__')])
        return out

    def where(self, p, a):
        for q in self.m.order(p):
            if (q, a) in self.raw:
                return q
        return None

    def names(self, p):
        return sorted(set([a for q, a in self.raw if q in self.m.order(p)]))

    def value(self, p, a):
        kind, v = self.raw[self.where(p, a), a]
        if kind == 'value':
            return v
        q = p
        if '.' in v:
            path, a = v.rsplit('.', 1)
            q = path if path.startswith('/') else '/' + p.split('/')[1] + path[2:]
        else:
            a = v
        return self.value(q, a)

    def world(self):
        self.world_runs += 1

    def judge(self, frame, p):
        for a in self.names(p):
            self.H.check(self.H.eq(getattr(frame, a), self.value(p, a)), 'what %s sees in %s' % (p, a))

    def step(self, frame, tag, names):
        H = self.H
        p = getattr(frame, IA.NODE_PATH)
        H.check(self.world_runs == 1, 'the code of the world runs first, once')
        H.check(len(self.did) < len(self.expect) and p == self.expect[len(self.did)],
                'the nodes run in order, once each')
        H.check(tag == self.m.instanced(p)[-1], 'the code of the node runs')
        H.check('k' not in names, 'variables of other nodes are gone')
        self.did.append(p)
        self.frames[p] = frame
        self.judge(frame, p)
        H.reach('ran')
        todo = self.plan.get(p, {})
        if callable(todo):
            todo = self.plan[p] = todo()
            if todo['exit'] == 'graph':
                self.expect = list(self.did)
        for a in todo.get('write', []):
            new = todo['new' + a]
            old = self.value(p, a)
            setattr(frame, a, new)
            if bool(H.eq(new, old)):
                H.reach('same')
            else:
                self.raw[p, a] = ('value', new)
                H.reach('written')
        return todo.get('exit')

    def after(self, frame):
        self.finished.append(getattr(frame, IA.NODE_PATH))

    def final(self, runtime):
        H = self.H
        H.check(self.did == self.expect, 'all nodes have run')
        for p in sorted(self.m.paths):
            node = runtime.lookup(p)
            for a in self.names(p):
                H.check(H.eq(self.stage.get_node_attr_value(node, a, runtime), self.value(p, a)),
                        'attribute %s of %s after the run' % (a, p))
        H.check(self.before == self.snapshot(), 'the layers stay as they were')
        H.check(not runtime.running, 'the run has ended')


def plan(H, w, p, writes, exits=('', 'node', 'graph')):
    d = {}
    if writes:
        a = H.choice('attr' + p, w.names(p))
        d['write'] = [a]
        d['new' + a] = w.sym('new' + p)
    if exits:
        d['exit'] = H.choice('exit' + p, list(exits)) or None
    w.plan[p] = d
    return d


def h_run(H, case):
    w = World(H, case['g'])
    comp = w.stage.build_stage()
    w.expect = w.order

    def later(p, writes):
        # decided when the node runs
        w.plan[p] = lambda: plan(H, w, p, writes)
    for i, p in enumerate(w.order):
        later(p, i in (case['writer'], case['w2']))
    untouched = dict([((p, a), getattr(comp.lookup(p), a)) for p in w.m.paths for a in w.names(p)])
    cut = case['cut']
    raised = None
    try:
        if cut:
            runtime_layer = w.stage.execute_nodes(w.order[:cut], comp)
            runtime_layer = w.stage.execute_nodes(w.order[cut:], runtime_layer)
            H.reach('continued')
        else:
            runtime_layer = w.stage.execute(layer=comp)
    except runtime.ExitGraph as e:
        raised = e
        runtime_layer = e.runtime_layer
        H.reach('exit graph')
    ended = w.plan[w.did[-1]]['exit'] == 'graph' if w.did else False
    H.check((raised is not None) == ended, 'an exit-graph request ends the run')
    w.final(runtime_layer)
    want = [p for p in w.expect if not w.plan[p]['exit']]
    H.check(w.finished == want, 'code after an exit request does not run')
    if len([p for p in w.expect if w.plan[p]['exit'] == 'node']):
        H.reach('exit node')
    for p in sorted(w.m.paths):
        for a in w.names(p):
            H.check(H.eq(getattr(comp.lookup(p), a), untouched[p, a]), 'the composite stays as it was')
    if len(w.did) > 1:
        H.reach('seen')


NESTED = """__stage__.step(self, '%s', globals())
if __stage__.nests(self):
    execute([__stage__.inner])
__stage__.back(self)"""


def h_nested(H, case):
    """node code that runs another node goes on with its own attributes"""
    w = World(H, case['g'], code=NESTED)
    outer = w.order[case['at']]
    inner = w.order[case['inner']]
    w.stage.inner = inner
    w.expect = [outer, inner]
    back = []
    new = w.sym('new after')
    attr = H.choice('attr after', w.names(outer))
    plan(H, w, inner, True, ())
    plan(H, w, outer, False, ())

    def nests(frame):
        return getattr(frame, IA.NODE_PATH) == outer

    def came_back(frame):
        p = getattr(frame, IA.NODE_PATH)
        H.check(frame is w.frames[p], 'self is the node again after a nested run')
        back.append(p)
        if p == outer:
            old = getattr(frame, attr)
            setattr(frame, attr, new)
            if bool(H.not_(H.eq(new, old))):
                w.raw[outer, attr] = ('value', new)
    w.stage.nests = nests
    w.stage.back = came_back
    runtime_layer = w.stage.execute_nodes([outer], w.stage.build_stage())
    H.check(back == [inner, outer], 'the nested run ends first')
    w.final(runtime_layer)
    H.reach('nested')


def h_disabled(H, case):
    w = World(H, case['g'])
    comp = w.stage.build_stage()
    w.expect = []
    spec = w.stage._sub_layers[1]
    for p in w.order:
        if spec.lookup(p):
            if H.bool('has' + p):
                setattr(spec.lookup(p), IA.ENABLED, H.bool('on' + p))
    w.before = w.snapshot()
    for p in w.order:
        state = None
        for q in w.m.instanced(p):
            s = getattr(spec.lookup(q), IA.ENABLED, None) if spec.lookup(q) else None
            if state is None:
                state = s
        if state is None or bool(state):
            w.expect.append(p)
        else:
            H.reach('disabled')
    comp = w.stage.build_stage()
    w.final(w.stage.execute_nodes(w.order, comp))


def h_error(H, case):
    """an error in node code ends the run, reported as such"""
    w = World(H, case['g'], code=CODE.replace("raise ExitGraph('done')", "raise KeyError('bad')"))
    bad = H.int('bad', 0, len(w.order) - 1)
    at = [i for i in range(len(w.order)) if bool(bad == i)][0]
    plan(H, w, w.order[at], True, ())
    w.plan[w.order[at]]['exit'] = 'graph'
    w.expect = w.order[:at + 1]
    comp = w.stage.build_stage()
    rt = w.stage.execute_nodes([], comp)
    try:
        w.stage.execute_nodes(w.order, rt)
        H.check(False, 'the error is reported')
    except runtime.GraphError as e:
        H.check('KeyError' in str(e), 'the error of the node')
    H.check(w.did == w.expect and not rt.running, 'the run ends at the error')
    H.check(w.before == w.snapshot(), 'the layers stay as they were')
    H.reach('error')


def h_custom(H, case):
    """custom code runs in place of the node's own code"""
    w = World(H, case['g'])
    p = H.choice('node', w.order)
    w.expect = [p]
    d = plan(H, w, p, True)
    r = w.stage.execute_nodes([], w.stage.build_stage())
    got = w.stage.execute_custom_code(CODE % w.m.instanced(p)[-1], p, r)
    if d['exit']:
        want = runtime.ExitNode if d['exit'] == 'node' else runtime.ExitGraph
        H.check(isinstance(got, want), 'the exit request is handed back')
    else:
        H.check(got is None, 'nothing is handed back')
    w.final(r)
    H.reach('custom')


def h_start(H, case):
    """a run starts at the given node, the given start point or the first start point"""
    order = {'/s': ['/s', '/s/k', '/sa'], '/sa': ['/sa'], '/t': ['/t', '/ta'], '/ta': ['/ta'], '/s/k': ['/s/k', '/sa']}
    did = []
    nodes = {'/s': {}, '/s/k': {}, '/sa': {'execute_in': '/s'}, '/t': {}, '/ta': {'execute_in': '/t'}}
    for p in nodes:
        nodes[p]['code'] = ['__stage__.step(%r)' % p]
    points = []
    for p in ('/s', '/t'):
        if H.bool('start' + p):
            nodes[p]['start_point'] = True
            points.append(p)
    stage = C.mk_stage([{'nodes': nodes}])
    stage.step = did.append
    how = H.choice('how', ['path', 'index', 'none'])
    if how == 'path':
        p = '/' + H.str('path', 1) + H.choice('rest', ['', 'a', '/k'])
        known = [q for q in sorted(nodes) if bool(H.eq(p, q))]
        try:
            stage.execute(start=p)
        except ValueError:
            H.check(not known, 'the start is there')
            H.check(did == [], 'nothing runs')
            return
        H.check(bool(known), 'a start that is not there is refused')
        H.check(did == order[known[0]], 'the run starts at the given node')
        H.reach('start path')
        return
    idx = H.int('index', 0, 2) if how == 'index' else None
    listed = stage.get_layer_start_nodes(stage.build_stage())
    H.check(sorted(listed) == points, 'the start points')
    try:
        stage.execute(start=idx)
    except ValueError:
        H.check(not points, 'there is a start point')
        H.reach('no start')
        return
    except IndexError:
        H.check(how == 'index' and bool(idx >= len(points)), 'the start point is there')
        return
    H.check(bool(points) and (how == 'none' or bool(idx < len(points))), 'a start point is needed')
    want = [listed[i] for i in range(len(listed)) if how == 'none' or bool(idx == i)]
    H.check(did == order[want[0]], 'the run starts at the start point')
    H.reach('start index')


def h_types(H, case):
    """values that are not text keep their type"""
    kind = H.choice('kind', ['int', 'bool'])
    new = H.choice('new', ['int', 'bool'])
    v = H.int('v', 0, 2) if kind == 'int' else H.bool('vb')
    n = H.int('n', 0, 2) if new == 'int' else H.bool('nb')
    stage = C.mk_stage([{'nodes': {
        '/a': {'attrs': {'v': {'value': v}, 'l': {'value': v}}, 'code': ['__stage__.step(self)'], 'start_point': True},
        '/b': {'attrs': {'r': {'value': '${/a.v}'}}, 'code': ['__stage__.step(self)'], 'execute_in': '/a'}}}])
    H.stub(nxt_stage.determine_nxt_type, lambda t: 'bool' if t in ('True', 'False') else 'int')
    did = []

    def step(frame):
        did.append(getattr(frame, IA.NODE_PATH))
        if did == ['/a']:
            H.check(type(frame.v) is type(v) and bool(H.eq(frame.v, v)), 'the value of the attribute')
            frame.v = n
        else:
            H.check(type(frame.r) is type(n), 'the type of the changed value')
            H.check(H.eq(frame.r, n), 'the changed value')
    stage.step = step
    stage.execute()
    H.check(did == ['/a', '/b'], 'both have run')
    H.reach('types')


TOKENS = ['{', '}', '[', ']', '(', ')', ',', ':', '1', 'a', "'b'", ' ', '-', 'None', '.5']
PLAIN = object()


def read(text):
    try:
        v = ast.literal_eval(text)
    except Exception:
        return PLAIN
    return PLAIN if isinstance(v, str) else v


def h_literal(H, case):
    """text that is a literal is seen as what it says, any other text as it is; a reference to
    it is read the same way; nothing that is typed in keeps the graph from running"""
    n = case['n']
    tokens = TOKENS[:3] + TOKENS[6:9] if case['few'] else TOKENS
    text = ''.join([case['first']] + [H.choice('t%d' % i, tokens + ['']) for i in range(1, n)])
    stage = C.mk_stage([{'nodes': {
        '/a': {'attrs': {'v': {'value': 'old'}}, 'code': ['__stage__.step(self)'], 'start_point': True},
        '/b': {'attrs': {'r': {'value': '${/a.v}'}, 'l': {'value': '[${/a.v}]'}},
               'code': ['__stage__.step(self)'], 'execute_in': '/a'}}}])
    comp = stage.build_stage()
    low = stage._sub_layers[0]
    stage.node_setattr_data(low.lookup('/a'), 'v', low, create=True, comp_layer=comp, value=text)
    want = read(text)
    listed = read('[' + text + ']')
    did = []

    def same(got, raw, real):
        if real is PLAIN:
            H.check(type(got) is str and got == raw, 'text that is no literal is seen as it is')
            H.reach('text')
        else:
            H.check(type(got) is type(real) and repr(got) == repr(real), 'a literal is seen as what it says')
            H.reach('literal')

    def step(frame):
        did.append(getattr(frame, IA.NODE_PATH))
        if did == ['/a']:
            same(frame.v, text, want)
        else:
            same(frame.r, text, want)
            same(frame.l, '[' + text + ']', listed)
    stage.step = step
    stage.execute(layer=stage.build_stage())
    H.check(did == ['/a', '/b'], 'both have run')
    spec = stage._sub_layers[0].lookup('/a')
    kind = getattr(spec, 'v' + nxt_node.META_ATTRS.TYPE)
    try:
        v = ast.literal_eval(text)
        H.check(kind == type(v).__name__, 'the type is recorded')
    except Exception:
        H.check(kind == 'raw', 'the type of plain text is recorded')


def h_inside(H, case):
    """node code that changes the inside of a value changes its own node only"""
    a, b = H.str('a', 1, alphabet='xyz'), H.int('b', 0, 2)
    shapes = {'list': lambda: [[a], b], 'dict': lambda: {'k': [a, b]}, 'both': lambda: [{'k': [a]}, [b]]}
    make = shapes[case['shape']]

    def inner(v):
        while True:
            w = v[0] if isinstance(v, list) else v['k']
            if not isinstance(w, (list, dict)):
                return v
            v = w
    paths = ['/n', '/n/k', '/i']
    stage = C.mk_stage([{'nodes': {'/n/k': {'code': ['__stage__.step(self)']}}}, {'nodes': {
        '/n': {'attrs': {'v': {'value': make()}}, 'code': ['__stage__.step(self)']},
        '/i': {'instance': '/n'}}}])
    spec = stage._sub_layers[1].lookup('/n')
    comp = stage.build_stage()
    runs = ['/n', '/n/k', '/i'] if case['order'] == 0 else ['/i', '/n/k', '/n']
    change = dict([(p, H.bool('change ' + p)) for p in paths])
    added = {}
    own = {}
    did = []

    def want(p):
        return own.get(p, own.get('/n', ()))

    def expected(extra):
        v = make()
        inner(v).extend(extra)
        return v

    def step(frame):
        p = getattr(frame, IA.NODE_PATH)
        did.append(p)
        H.check(H.eq(frame.v, expected(want(p))), 'what %s sees' % p)
        if change[p]:
            new = H.str('new ' + p, 1, alphabet='xyz')
            own[p] = want(p) + (new,)
            inner(frame.v).append(new)
    stage.step = step
    rt = stage.execute_nodes(runs, comp)
    H.check(did == runs, 'all have run')
    for p in paths:
        H.check(H.eq(rt.lookup(p).v, expected(want(p))), 'a change inside a value is one of the node alone: ' + p)
    if H.bool('again'):
        del did[:]
        stage.execute_nodes(runs, rt)
        for p in paths:
            H.check(H.eq(rt.lookup(p).v, expected(want(p))), 'and again: ' + p)
    H.check(H.eq(spec.v, make()), 'the layers stay as they were')
    H.check(H.eq(comp.lookup('/n').v, make()), 'the composite stays as it was')
    H.reach('inside')
