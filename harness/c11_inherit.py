from nxt import nxt_layer, nxt_node, nxt_path
from harness import common as C
from harness.comp_model import Model, expand

PROPERTY = 'C11'
IA = C.IA
META = C.META
SRC = META.SOURCE
# node -> instance path
SHAPES = {
    'chain': [('/a', None), ('/a/b', None), ('/a/b/c', None)],
    'long chain': [('/a', None), ('/a/b', None), ('/a/b/c', None), ('/a/b/c/d', None), ('/a/b/c/d/e', None), ('/a/b/c/d/e/f', None)],
    'long inst': [('/n', '/m'), ('/m', '/l'), ('/l', '/k'), ('/k', '/j'), ('/j', '/i'), ('/i', None)],
    'gap': [('/a', None), ('/a/x/b', None), ('/a/x/b/y/c', None)],
    'wide gap': [('/a', None), ('/a/x/y/z/b', None)],
    'nogap': [('/x/b', None), ('/x/b/c', None)],
    'inst': [('/s', None), ('/n', '/s')],
    'parent+inst': [('/s', None), ('/p', None), ('/p/n', '/s')],
    'inst chain': [('/r', None), ('/s', '/r'), ('/n', '/s')],
    'inst chain 2': [('/n', '/m'), ('/m', '/l'), ('/l', '/k'), ('/k', None)],
    'parent instances': [('/q', None), ('/p', '/q'), ('/p/n', None)],
    'both instance': [('/q', None), ('/p', '/q'), ('/s', None), ('/p/n', '/s')],
    'sibling': [('/g', None), ('/g/s', None), ('/g/n', '/g/s')],
    'relative': [('/g', None), ('/g/s', None), ('/g/n', '../s')],
    'cousin': [('/g', None), ('/g/p', None), ('/g/p/n', '../../s'), ('/g/s', None)],
    'override': [('/q', None), ('/q/n', None), ('/p', '/q'), ('/p/n', None)],
    'proxy': [('/q', None), ('/q/n', None), ('/p', '/q')],
    'proxy chain': [('/q', None), ('/q/n', None), ('/p', '/q'), ('/o', '/p')],
    'proxy deep': [('/q', None), ('/q/m', None), ('/q/m/n', None), ('/p', '/q')],
    'inside proxy': [('/q/m/n', None), ('/q/m', None), ('/p', '/q'), ('/q', None), ('/p/m', None)],
    'of proxy': [('/q', None), ('/q/n', None), ('/p', '/q'), ('/o', '/p/n')],
    'source child instances': [('/r', None), ('/q', None), ('/q/n', '/r'), ('/p', '/q')],
    'missing': [('/p', None), ('/p/n', '/missing')],
    'child below instance': [('/s', None), ('/n', '/s'), ('/n/k', None), ('/n/k/j', None)],
}
SHAPES = dict([(k, [(C.respell(p), C.respell(i)) for p, i in v]) for k, v in SHAPES.items()])
WORLD = ['chain', 'wide gap', 'nogap', 'inst', 'parent+inst', 'sibling', 'proxy', 'gap']
QUICK = sorted(SHAPES)
BOUNDS = {
    'quick': '%d hierarchies of 2-6 nodes (parent chains with and without gaps, instances by absolute '
             'and relative path, chains of instances, instances below instances, proxies of them, a '
             'world node); every node holds the attribute (symbolic value), code, comment and '
             'enabled state or not, all symbolic, over 1 layer, and over 2 layers for hierarchies '
             'of up to 3 nodes' % len(SHAPES),
    'thorough': 'two layers for every hierarchy, a third layer for the small ones'}
BOUNDS['quick'] += '; long: chains of 6 parents and of 6 instances'
REACH = ['own', 'parent', 'inst', 'none', 'internal-own', 'internal-inst', 'world', 'lower']
ASSUMPTIONS = ['attributes hold a value other than None',
               'a node that stands for a descendant of an instance source has no other instance path',
               'an ancestor that a node shares with its instance source comes after the source '
               '(it reaches the node through the source)']


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in QUICK:
        n = len(SHAPES[s])
        for what in ('v', 'code', 'comment', 'enabled', 'meta'):
            out.append(dict(h='comp', shape=s, what=what, layers=1, world=False))
            if n <= 3 or (n <= 4 and not q):
                out.append(dict(h='comp', shape=s, what=what, layers=2, world=False))
            if n <= 2 and not q:
                out.append(dict(h='comp', shape=s, what=what, layers=3, world=False))
        if s in WORLD or not q:
            out.append(dict(h='comp', shape=s, what='v', layers=1, world=True))
    for what in ('v', 'code'):
        out += [dict(h='lower', inst=i, what=what) for i in
                ([None, '/s', None], [None, '/s', '/t'], [None, '', '/s'], ['/t', None, '/s'],
                 [None, '/t', ''])]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


NAME = dict(v='v', code=IA.COMPUTE, comment=IA.COMMENT, enabled=IA.ENABLED, meta='v')


def value(H, what, tag):
    if what == 'code':
        return [H.str(tag, 1), 'end']
    if what == 'enabled':
        return H.bool(tag)
    return H.str(tag, 1)


def put(data, what, v):
    if what in ('v', 'meta'):
        data.setdefault('attrs', {})['v'] = {'value': v}
        if what == 'meta':
            data['attrs']['v'] = {'value': 'x', 'comment': v}
    else:
        data[what] = v


def mk(H, shape, what, layers, world, inst_of=None):
    """-> stage, opinions {(layer, path): value}"""
    paths = [p for p, i in shape] + (['/'] if world else [])
    inst = dict(shape)
    ops, data = {}, []
    for l in range(layers):
        nodes = {}
        for p in paths:
            d = {}
            # with one layer all nodes are there; the weaker layers hold the structure
            if l < layers - 1 and not H.bool('node%d%s' % (l, p)):
                continue
            if l == layers - 1 and inst.get(p):
                d['instance'] = inst[p]
            if H.bool('has%d%s' % (l, p)):
                v = value(H, what, 'v%d%s' % (l, p))
                put(d, what, v)
                ops[l, p] = v
            nodes[p] = d
        data.append({'nodes': nodes})
    return C.mk_stage(data), ops


def first(ops, layers, p):
    for l in range(layers):
        if (l, p) in ops:
            return l, ops[l, p]
    return None


def h_comp(H, case):
    shape, what, layers, world = SHAPES[case['shape']], case['what'], case['layers'], case['world']
    stage, ops = mk(H, shape, what, layers, world)
    comp = stage.build_stage(0)
    nodes = dict(shape)
    if world:
        nodes['/'] = None
    m = Model(nodes)
    judge(H, stage, comp, m, ops, layers, what)


def judge(H, stage, comp, m, ops, layers, what):
    for p in sorted(m.paths):
        node = comp.lookup(p)
        H.check(node is not None, 'the node exists: ' + p)
        order = m.order(p) if what in ('v', 'meta') else m.instanced(p)
        want, at = None, None
        for x in order:
            f = first(ops, layers, x)
            if f is not None:
                want, at = f, x
                break
        if what in ('v', 'meta'):
            has = hasattr(node, 'v')
            H.check(has == (want is not None), 'the attribute shows exactly if something has it: ' + p)
            if not has:
                H.reach('none')
                continue
            got = node.v if what == 'v' else getattr(node, 'v' + META.COMMENT)
            H.check(H.eq(got, want[1]), 'own, then inherited, then instanced: ' + p)
            H.check(H.eq(list(stage.get_node_attr_source(node, 'v')), [C.layer_path(want[0]), at]),
                    'the source names the layer and node it comes from: ' + p)
            kinds = [nxt_layer.get_node_local_attr_names(p, stage._sub_layers),
                     stage.get_node_inherited_attr_names(node, comp),
                     stage.get_node_instanced_attr_names(node, comp)]
            H.check(any(['v' in k for k in kinds]),
                    'it is listed as local, inherited or instanced: ' + p)
            H.check(('v' in kinds[0]) == (at == p), 'it is listed as local exactly if it is: ' + p)
            H.reach('own' if at == p else
                    'world' if at == '/' else
                    'parent' if p.startswith(at + '/') else 'inst')
            if want[0]:
                H.reach('lower')
        else:
            got = getattr(node, NAME[what])
            if want is None:
                H.check(got is None or got == [], 'nothing to show: ' + p)
                H.reach('none')
                continue
            H.check(H.eq(got, want[1]), 'own, else that of the instance source: ' + what + ' ' + p)
            H.reach('internal-own' if at == p else 'internal-inst')


def h_lower(H, case):
    """The strongest opinion on the instance path decides what is instanced."""
    inst, what = case['inst'], case['what']
    nl = len(inst)
    data, ops = [], {}
    for l in range(nl):
        nodes = {'/s': {}, '/t': {}} if l == nl - 1 else {}
        mark = H.bool('there%d' % l) if inst[l] is None else True
        if mark:
            nodes['/n'] = {} if inst[l] is None else {'instance': inst[l]}
        for p in ('/s', '/t', '/n'):
            if p in nodes and (p != '/n' or l == nl - 1) and H.bool('has%d%s' % (l, p)):
                v = value(H, what, 'v%d%s' % (l, p))
                put(nodes[p], what, v)
                ops[l, p] = v
        data.append({'nodes': nodes})
    stage = C.mk_stage(data)
    for i, l in enumerate(stage._sub_layers):
        if i < nl - 1:
            l.set_muted(H.bool('mute%d' % i))
    act = [i for i in range(nl) if not stage._sub_layers[i].mute]
    comp = stage.build_stage(0)
    nodes = {'/s': None, '/t': None}
    for l in act:
        if '/n' in data[l]['nodes']:
            i = data[l]['nodes']['/n'].get('instance')
            if nodes.get('/n') is None:
                nodes['/n'] = i
    if '/n' not in nodes:
        H.check(comp.lookup('/n') is None, 'no node')
        return
    judge(H, stage, comp, Model(nodes), ops, nl, what)
