from nxt import nxt_layer, nxt_node, nxt_path
from nxt import stage as nxt_stage
from harness import common as C
from harness import c11_inherit as P
from harness.comp_model import Model, expand

PROPERTY = 'C30'
IA = C.IA
META = C.META
BOUNDS = {
    'quick': 'the %d hierarchies of C11 (2-5 nodes; parents with and without gaps, instances, chains of them, '
             'proxies), every node with the attribute (symbolic value) or without it, over 1 layer and over '
             '2 layers for hierarchies of up to 3 nodes; a node on 3 layers, each with symbolic opinions on '
             'attribute, code, comment, enabled state and instance path, each layer muted or not'
             % len(P.SHAPES),
    'thorough': 'two layers for every hierarchy, four layers for the single node'}
REACH = ['all', 'behind', 'proxy', 'none', 'stronger', 'not stronger', 'layers', 'muted', 'falsy', 'sources', 'no source']
ASSUMPTIONS = ['the history is judged for user attributes']


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in P.QUICK:
        n = len(P.SHAPES[s])
        out.append(dict(h='hist', shape=s, layers=1))
        if n <= 3 or not q:
            out.append(dict(h='hist', shape=s, layers=2))
    out += [dict(h='layers', what=w, layers=3 if q else 4) for w in sorted(WHAT)]
    out += [dict(h='sources', node=p, n=2 if q else 3) for p in ('/g/n', '/g', '/g/n/k')]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def h_hist(H, case):
    shape, layers = P.SHAPES[case['shape']], case['layers']
    stage, ops = P.mk(H, shape, 'v', layers, False)
    comp = stage.build_stage(0)
    m = Model(dict(shape))
    own = [p for p, i in shape]
    for p in sorted(m.paths):
        node = comp.lookup(p)
        want = []
        for x in m.order(p):
            for l in range(layers):
                if (l, x) in ops:
                    want.append(([C.layer_path(l), x], ops[l, x]))

        def same(got, want, what):
            H.check([list(g[META.SOURCE]) for g in got] == [w[0] for w in want], what + ': ' + p)
            for g, w in zip(got, want):
                H.check(H.eq(g[META.VALUE], w[1]), 'with its value: ' + p)
        same(nxt_stage.get_historical_opinions(node, 'v', comp, include_local=True), want,
             'every opinion is listed, strongest first')
        H.reach('all' if want else 'none')
        past = nxt_stage.get_historical_opinions(node, 'v', comp)
        if want and want[0][0][1] == p:
            same(past, want[1:], 'what is behind the own opinion')
            H.reach('behind')
        elif p not in own:
            same(past, want, 'what a proxy shows and what is behind it')
            H.reach('proxy')
        else:
            same(past, want if len(past) == len(want) else want[1:], 'what is behind an opinion')


WHAT = {'v': 'v', 'falsy': 'v', 'code': IA.COMPUTE, 'comment': IA.COMMENT, 'enabled': IA.ENABLED,
        'instance': IA.INSTANCE_PATH}


def h_layers(H, case):
    """Which layers hold the node, which of them an opinion, and which opinion is in the way"""
    what, n = case['what'], case['layers']
    name = WHAT[what]
    data, there, ops = [], [], []
    for i in range(n):
        nodes = {'/s': {}, '/t': {}}
        there.append(H.bool('node %d' % i))
        ops.append(False)
        if there[i]:
            nodes['/g/n'] = d = {}
            ops[i] = H.bool('has %d' % i)
            if ops[i]:
                if what == 'falsy':
                    d['attrs'] = {'v': {'value': ['', 0, False, {}][H.choice('kind %d' % i, [0, 1, 2, 3])]}}
                    H.reach('falsy')
                elif what == 'instance':
                    d['instance'] = ['/s', '../../t', ''][H.choice('to %d' % i, [0, 1, 2])]
                else:
                    P.put(d, what, P.value(H, what, 'v %d' % i))
        # the same on a node of nearly the same name and above it
        nodes['/g'] = {'attrs': {'v': {'value': 'x'}}, 'code': ['x'], 'comment': 'x'}
        nodes['/g/na'] = {'attrs': {'v': {'value': 'x'}}, 'code': ['x'], 'comment': 'x'}
        data.append({'nodes': nodes})
    stage = C.mk_stage(data)
    active = []
    for i, l in enumerate(stage._sub_layers):
        active.append(True)
        if i < n - 1 and H.bool('muted %d' % i):
            l.set_muted(True)
            active[i] = False
            H.reach('muted')
    comp = stage.build_stage(0)
    layers = stage._sub_layers
    got = stage.get_layers_with_opinion('/g/n')
    H.check([layers.index(l) for l in got] == [i for i in range(n) if there[i]],
            'the layers that hold the node, strongest first')
    got = stage.get_layers_with_opinion('/g/n', attr_name=name)
    H.check([layers.index(l) for l in got] == [i for i in range(n) if ops[i]],
            'the layers that have an opinion, strongest first')
    if n > 2:
        got = stage.get_layers_with_opinion('/g/n', layers[1:], name)
        H.check([layers.index(l) for l in got] == [i for i in range(1, n) if ops[i]],
                'those of the layers asked for')
    H.reach('layers')
    node = comp.lookup('/g/n')
    if node is None:
        return
    for i in range(n):
        if not (there[i] and active[i]):
            continue
        got = nxt_node.has_stronger_opinion(node, name, layers[i].real_path)
        want = any([ops[j] and active[j] for j in range(i)])
        H.check(got == want, 'a stronger opinion is in the way exactly if a stronger layer has one')
        H.reach('stronger' if want else 'not stronger')


REFS = ['../na.v', '/g/n.v', '../../g/n/k.w', './k.v', 'k.v', '/na/n12/k.v2', '../n.v', 'v', 'w', '...v', '..w', '../../.x', 'file::../na.v',
        'contents::/g/n.v', '/g/n']


def h_sources(H, case):
    """The attributes of other nodes that a value or code refers to"""
    p, n = case['node'], case['n']
    text, want = '', []
    for i in range(n):
        ref = REFS[H.choice('ref %d' % i, list(range(len(REFS))))]
        text += H.str('text %d' % i, 1, exclude='${}\\\n') + '${' + ref + '}'
        if '::' in ref or ref in ('v', 'w', '/g/n'):
            H.reach('no source')
            continue
        at, name = ref.rsplit('.', 1)
        at = expand(at, p) + '.' + name
        if at not in want:
            want.append(at)
        H.reach('sources')
    data = {'/g': {}, '/g/n': {}, '/g/n/k': {}}
    data[p] = {'attrs': {'v': {'value': text}}, 'code': ['', text]}
    stage = C.mk_stage([{'nodes': data}])
    comp = stage.build_stage(0)
    node = comp.lookup(p)
    want = sorted(want)
    H.check(sorted(set(stage.get_node_attr_external_sources(node, 'v', comp))) == want, 'the attributes a value refers to')
    H.check(sorted(set(stage.get_node_code_external_sources(node, comp))) == want, 'the attributes the code refers to')
