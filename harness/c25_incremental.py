from nxt import nxt_layer, nxt_node, nxt_path
from nxt import stage as nxt_stage
from harness import common as C

PROPERTY = 'C25'
IA = C.IA
RET = C.RET

# nodes of the composite, every one on some layer; value: instance path
TREES = {
    'inst': {'/a': '/b', '/b': None, '/b/k': None},
    'override': {'/a': '/b', '/a/k': None, '/b': None, '/b/k': None},
    'chain': {'/c': '/a', '/a': '/b', '/b': None},
    'chain child': {'/c': '/a', '/a': '/b', '/b': None, '/b/k': None},
    'deep': {'/a': '/b', '/b': None, '/b/k': None, '/b/k/m': None},
    'two': {'/a': '/b', '/c': '/b', '/b': None, '/b/k': None},
    'rel': {'/g': None, '/g/n': '../s', '/g/s': None, '/g/s/k': None},
    'tree': {'/a': None, '/a/k': None, '/a/k/m': None},
    'wide': {'/a': None, '/a/k': None, '/a/m': None},
    'flat': {'/a': None, '/b': None, '/b/k': None},
}
TREES = dict([(n, dict([(C.respell(p), C.respell(i)) for p, i in t.items()])) for n, t in TREES.items()])
PLAIN = ['tree', 'wide', 'flat']
INST = [t for t in sorted(TREES) if t not in PLAIN]
BOUNDS = {
    'quick': '%d graphs of 3-4 nodes (%d with instances: chains, overrides, two instances, relative) spread '
             'over 2 layers in every way, in each an opinion with a symbolic value or none; one edit '
             '(attribute, code, enabled, child order) of every node on every layer, and on the graphs '
             'without instances adding a node (new or at the place of one of another layer, also as a '
             'hierarchy), deleting one with or without its descendants, and two edits in a row'
             % (len(TREES), len(INST)),
    'thorough': '3 layers, three edits in a row'}
REACH = ['attr', 'code', 'enabled', 'order', 'add', 'localise', 'delete', 'stays', 'gone', 'hierarchy',
         'instance follows', 'weaker']
ASSUMPTIONS = ['no node lies below a missing one, before and after the edit',
               'a node added anew is listed last among its siblings until the graph is composed again '
               '(as the tests of the repository demand), so orders are judged for edits of child orders',
               'nodes are added to and deleted from graphs without instances only, instance paths are not '
               'edited (DESIGN.md)']


# letters only: such values are all of type 'raw', so the type is stubbed
LET = 'abcdefghijklmnopqrstuvwxyz'


def cases(tier):
    out = []
    for t in sorted(TREES):
        small = len(TREES[t]) < 4
        out.append(dict(h='edit', tree=t, op='code', layers=2, both=small, most=1 if small else 2))
        out.append(dict(h='edit', tree=t, op='v', layers=2, both=False, most=2))
        if small:
            out.append(dict(h='edit', tree=t, op='enabled', layers=2, both=False, most=9))
    for t in ('inst', 'two', 'wide', 'chain child'):
        out.append(dict(h='order', tree=t, layers=2, most=2))
    for t in PLAIN:
        for what in ('v', 'code') if t == 'flat' else ('code',):
            out.append(dict(h='add', tree=t, what=what, layers=2, most=1))
            out.append(dict(h='del', tree=t, what=what, layers=2, most=2))
        out.append(dict(h='hier', tree=t, layers=2))
    for t in ('tree', 'flat'):
        for a, b in (('add', 'del'), ('del', 'add'), ('code', 'del'), ('add', 'code')):
            out.append(dict(h='seq', tree=t, ops=[a, b], layers=2, most=1 if 'code' in (a, b) else 0))
    if tier == 'quick':
        return out
    for t in sorted(TREES):
        for op in ('code', 'enabled', 'v'):
            out.append(dict(h='edit', tree=t, op=op, layers=2, both=True, most=9))
            out.append(dict(h='edit', tree=t, op=op, layers=3, both=False, most=2))
    for t in INST:
        out.append(dict(h='order', tree=t, layers=2, most=9))
        out.append(dict(h='order', tree=t, layers=3, most=2))
    for t in PLAIN:
        for what in ('v', 'code', 'enabled'):
            out.append(dict(h='add', tree=t, what=what, layers=2, most=9))
            out.append(dict(h='del', tree=t, what=what, layers=2, most=9))
            out.append(dict(h='add', tree=t, what=what, layers=3, most=1))
            out.append(dict(h='del', tree=t, what=what, layers=3, most=1))
        for a in ('add', 'del', 'v', 'code', 'enabled'):
            for b in ('add', 'del', 'v', 'code'):
                out.append(dict(h='seq', tree=t, ops=[a, b], layers=2, most=2))
        for ops in (['add', 'del', 'add'], ['del', 'add', 'del'], ['add', 'v', 'del'], ['del', 'add', 'code']):
            out.append(dict(h='seq', tree=t, ops=ops, layers=2, most=1))
    return out


def run(H, case):
    H.stub(nxt_stage.determine_nxt_type, lambda v: 'raw')
    globals()['h_' + case['h']](H, case)


def opinion(H, tag, what):
    if what == 'v':
        return {'attrs': {'v': {'value': H.str('v' + tag, 1, alphabet=LET)}}}
    if what == 'code':
        return {'code': [H.str('c' + tag, 1)]}
    if what == 'enabled':
        return {'enabled': H.choice('e' + tag, [True, False])}
    return {}


def build(H, case, what, both=True, order=False):
    """Layers holding the nodes of the tree in some way; every node in at least one."""
    tree, nl = TREES[case['tree']], case['layers']
    layers = [{} for i in range(nl)]
    said = 0
    for p in sorted(tree):
        spots = []
        for i in range(nl):
            if H.bool('on%d%s' % (i, p)):
                spots.append(i)
        H.assume(bool(spots) and (both or len(spots) == 1))
        for i in spots:
            d = {}
            if what and said < case.get('most', 9) and H.bool('op%d%s' % (i, p)):
                said += 1
                d = opinion(H, '%d%s' % (i, p), what)
            layers[i][p] = d
        if tree[p] is not None:
            layers[spots[0]][p]['instance'] = tree[p]
    if order:
        for p in sorted(tree):
            kids = [x.rsplit('/', 1)[1] for x in sorted(tree) if x.rsplit('/', 1)[0] == p]
            if tree[p] is not None:
                src = [x for x in sorted(tree) if x.rsplit('/', 1)[0] == tree[p]]
                kids += [x.rsplit('/', 1)[1] for x in src]
            kids += ['nq']
            if len(kids) < 2:
                continue
            for i in range(nl):
                if p in layers[i] and said < case.get('most', 9) and H.bool('co%d%s' % (i, p)):
                    said += 1
                    ks = list(kids)
                    if H.bool('rev%d%s' % (i, p)):
                        ks.reverse()
                    layers[i][p]['child_order'] = ks
    stage = C.mk_stage([{'nodes': d} for d in layers])
    return stage, stage.build_stage(0)


def gap_free(layers):
    paths = set()
    for l in layers:
        paths.update(l._nodes_path_as_key)
    for p in paths:
        up = p.rsplit('/', 1)[0]
        if up and up not in paths:
            return False
    return True


def named(node, path):
    """Children some layer puts in order."""
    out = []
    for b in node.__bases__:
        if b.__name__ == nxt_node.SpecNode.__name__ and \
                nxt_path.join_node_paths(getattr(b, IA.PARENT_PATH), getattr(b, IA.NAME)) == path:
            out += getattr(b, IA.CHILD_ORDER)
    return out


def same(H, stage, comp, what, order=False):
    full = stage.build_stage(0)
    have, want = sorted(comp._nodes_path_as_key), sorted(full._nodes_path_as_key)
    H.check(H.eq(have, want), 'the same nodes')
    for p in want:
        a, b = comp.lookup(p), full.lookup(p)
        H.check(comp.get_node_path(a) == p, 'its path: ' + p)
        if what in ('v', 'all'):
            H.check(H.eq(C.attr(a, 'v'), C.attr(b, 'v')), 'attribute value: ' + p)
            if C.attr(b, 'v') != '<absent>':
                H.check(stage.get_node_attr_source(a, 'v') == stage.get_node_attr_source(b, 'v'), 'attribute source: ' + p)
        if what in ('code', 'all'):
            H.check(H.eq(getattr(a, IA.COMPUTE), getattr(b, IA.COMPUTE)), 'code: ' + p)
        if what in ('enabled', 'all'):
            H.check(getattr(a, IA.ENABLED) is getattr(b, IA.ENABLED), 'enabled: ' + p)
    for p in want + ['/']:
        H.check(sorted(comp.children(p, RET.Path)) == sorted(full.children(p, RET.Path)), 'children: ' + p)
        H.check(sorted(comp.descendants(p, RET.Path)) == sorted(full.descendants(p, RET.Path)),
                'descendants: ' + p)
        if order and p != '/':
            names = named(full.lookup(p), p)
            got = []
            for l in (comp, full):
                kids = [x.rsplit('/', 1)[1] for x in l.children(p, RET.Path, ordered=True)]
                first = [x for x in kids if x in names]
                H.check(kids[:len(first)] == first, 'ordered children come first: ' + p)
                got.append(first)
            H.check(got[0] == got[1], 'child order: ' + p)


def pick(H, stage, tag=''):
    """A node of some layer."""
    spots = [(i, p) for i, l in enumerate(stage._sub_layers) for p in sorted(l._nodes_path_as_key)]
    i, p = H.choice('at' + tag, spots)
    return stage._sub_layers[i], p


def edit(H, stage, comp, op, tag=''):
    layer, p = pick(H, stage, tag)
    node = layer.lookup(p)
    if layer is not stage._sub_layers[0] and stage._sub_layers[0].lookup(p):
        H.reach('weaker')
    if op == 'v':
        how = H.choice('how' + tag, ['set', 'other'] + (['delete'] if 'v' in node.__dict__ else []))
        if how == 'delete':
            stage.delete_node_attr(node, 'v')
        else:
            name = 'v' if how == 'set' else 'w'
            stage.node_setattr_data(node, name, layer, create=True, comp_layer=comp, value='n' + H.str('new' + tag, 1, alphabet=LET))
        H.reach('attr')
    elif op == 'code':
        lines = H.choice('lines' + tag, [0, 1])
        stage.node_setattr_data(node, IA.COMPUTE, layer, create=True, comp_layer=comp,
                                value=[H.str('new' + tag, 1)] if lines else [])
        H.reach('code')
    elif op == 'enabled':
        stage.node_setattr_data(node, IA.ENABLED, layer, create=True, comp_layer=comp,
                                value=H.choice('state' + tag, [True, False, None]))
        H.reach('enabled')
    return p


def h_edit(H, case):
    op = case['op']
    stage, comp = build(H, case, op, both=case['both'])
    p = edit(H, stage, comp, op)
    if any([i == p for i in TREES[case['tree']].values()]):
        H.reach('instance follows')
    same(H, stage, comp, op)


def h_order(H, case):
    stage, comp = build(H, case, '', both=False, order=True)
    layer, p = pick(H, stage)
    kids = [x.rsplit('/', 1)[1] for x in sorted(comp.children(p, RET.Path))] + ['nq']
    how = H.choice('how', ['none', 'forward', 'backward'])
    value = [] if how == 'none' else kids if how == 'forward' else kids[::-1]
    stage.node_setattr_data(layer.lookup(p), IA.CHILD_ORDER, layer, create=True, comp_layer=comp,
                            value=value)
    H.reach('order')
    same(H, stage, comp, '', order=True)


def add(H, stage, comp, what, tag=''):
    i = H.choice('layer' + tag, list(range(len(stage._sub_layers))))
    layer = stage._sub_layers[i]
    paths = sorted(comp._nodes_path_as_key)
    parent = H.choice('parent' + tag, ['/'] + paths)
    here = sorted([x.rsplit('/', 1)[1] for x in paths if (x.rsplit('/', 1)[0] or '/') == parent])
    name = H.choice('name' + tag, ['nq'] + [x for x in here if x != 'nq'])
    path = parent.rstrip('/') + '/' + name
    H.assume(not layer.lookup(path))
    data = {}
    if H.bool('op' + tag):
        data = opinion(H, tag + 'new', what)
        if 'attrs' in data:
            data['attributes'] = data.pop('attrs')
    spec = layer.lookup(parent)
    by = H.choice('by' + tag, ['path'] + (['node'] if spec else []))
    new, _ = stage.add_node(name=name, data=data, parent=parent if by == 'path' else spec, layer=layer,
                            comp_layer=comp, fix_names=False)
    H.check(layer.get_node_path(new[0]) == path, 'the path of the new node')
    if path in paths:
        H.reach('localise')
    else:
        H.reach('add')


def h_add(H, case):
    stage, comp = build(H, case, case['what'])
    add(H, stage, comp, case['what'])
    same(H, stage, comp, case['what'])


def h_hier(H, case):
    stage, comp = build(H, case, '', both=False)
    layer = stage._sub_layers[H.choice('layer', list(range(len(stage._sub_layers))))]
    top = H.choice('top', ['nq'] + sorted([x[1:] for x in comp._nodes_path_as_key if x.count('/') == 1]))
    names = [top] + H.choice('rest', [['nq'], ['nq', 'n'], ['n', 'nq'], ['n', 'nz', 'n']])
    stage.add_node_hierarchy(names, parent=None, layer=layer, comp_layer=comp)
    for i in range(len(names)):
        path = '/' + '/'.join(names[:i + 1])
        H.check(layer.lookup(path) is not None, 'every node of the hierarchy')
    H.reach('hierarchy')
    same(H, stage, comp, 'all')


def delete(H, stage, comp, tag=''):
    layer, p = pick(H, stage, tag)
    deep = H.bool('deep' + tag)
    stage.delete_node(layer.lookup(p), layer, comp_layer=comp, delete_descendants=deep)
    H.check(layer.lookup(p) is None, 'the node is gone from its layer')
    H.reach('delete')
    H.assume(gap_free(stage._sub_layers))
    H.reach('stays' if comp.lookup(p) else 'gone')


def h_del(H, case):
    stage, comp = build(H, case, case['what'])
    delete(H, stage, comp)
    same(H, stage, comp, case['what'])


def h_seq(H, case):
    what = [x for x in case['ops'] if x not in ('add', 'del')] + ['v']
    stage, comp = build(H, case, what[0], both=False)
    for i, op in enumerate(case['ops']):
        if op == 'add':
            add(H, stage, comp, what[0], str(i))
        elif op == 'del':
            H.assume(any([l._nodes_path_as_key for l in stage._sub_layers]))
            delete(H, stage, comp, str(i))
        else:
            H.assume(any([l._nodes_path_as_key for l in stage._sub_layers]))
            edit(H, stage, comp, op, str(i))
    same(H, stage, comp, what[0])
