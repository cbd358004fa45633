import copy
from nxt import nxt_node, nxt_path
from nxt import stage as nxt_stage
from harness import common as C

PROPERTY = 'C38'
IA = C.IA
RET = C.RET
NAMES = {'comment': IA.COMMENT, 'execute_in': IA.EXECUTE_IN, 'start_point': IA.START_POINT,
         'instance': IA.INSTANCE_PATH}
BOUNDS = {
    'quick': 'graphs of three to eight nodes over two layers (in every way; instances, children of their sources, roots that run '
             'in one another); one or two settings of comment (symbolic text), execute-in, start point and instance of any '
             'node on any layer, by their setters or by node_setattr_data, or taken away again',
    'thorough': 'three settings'}
REACH = ['comment', 'execute_in', 'start_point', 'instance', 'none', 'stronger', 'weaker', 'targets', 'starts']
ASSUMPTIONS = ['the composite is built anew after the edits']
TREES = {
    'inst': {'/a': '/b', '/b': None, '/b/k': None},
    'chain': {'/a': '/b', '/b': '/c', '/c': None, '/c/k': None},
    'long': {'/a': '/b', '/b': '/c', '/b/k': None, '/c': '/d', '/d': None, '/d/k': None, '/d/k/m': '/e', '/e': None},
    'plain': {'/a': None, '/b': None, '/b/k': None},
}
TREES = dict([(n, dict([(C.respell(p), C.respell(i)) for p, i in t.items()])) for n, t in TREES.items()])


def cases(tier):
    out = []
    for t in sorted(TREES):
        for op in sorted(NAMES):
            out.append(dict(h='edit', tree=t, ops=[op]))
    pairs = [['instance', 'instance'], ['execute_in', 'execute_in'], ['instance', 'execute_in'], ['comment', 'start_point']]
    for t in ('inst', 'plain') if tier == 'quick' else ('chain', 'inst', 'plain'):
        for ops in pairs:
            out.append(dict(h='edit', tree=t, ops=ops))
    if tier != 'quick':
        out += [dict(h='edit', tree='inst', ops=[a, b, 'instance']) for a in sorted(NAMES) for b in sorted(NAMES)]
    return out


def run(H, case):
    H.stub(nxt_stage.determine_nxt_type, lambda v: 'raw')
    globals()['h_' + case['h']](H, case)


def build(H, case):
    tree = TREES[case['tree']]
    layers = [{}, {}]
    at = H.choice('at', sorted(tree))
    for p in sorted(tree):
        # the others are where their depth says
        spots = H.choice('on' + p, [[0], [1], [0, 1]]) if p == at else [p.count('/') % 2]
        for i in spots:
            layers[i][p] = {'attrs': {'v': {'value': '%d%s' % (i, p)}}}
        if tree[p] is not None:
            layers[spots[-1]][p]['instance'] = tree[p]
    op = case['ops'][0]
    i = H.choice('said', [None, 0, 1])
    if i is not None and op != 'instance':
        H.assume(at in layers[i])
        layers[i][at][op] = value(H, op, tree, 'said', at)
    return layers, at


def value(H, op, tree, tag, p):
    if op == 'comment':
        return H.str('text' + tag, 1)
    if op == 'start_point':
        return H.choice('state' + tag, [True, False])
    if op == 'execute_in':
        return H.choice('in' + tag, sorted([x for x in tree if x.count('/') == 1 and x != p]))
    return H.choice('source' + tag, sorted([x for x in tree if x != p]) + ['../' + C.respell('/b')[1:], '/gone'])


def comp_state(H, stage):
    comp = stage.build_stage(0)
    out = {}
    for p in sorted(comp._nodes_path_as_key):
        n = comp.lookup(p)
        d = {}
        for k in ['v', 'w'] + [NAMES[x] for x in sorted(NAMES)] + [IA.ENABLED, IA.COMPUTE, IA.CHILD_ORDER]:
            d[k] = C.attr(n, k)
            if k == IA.INSTANCE_PATH and d[k] == '<absent>':
                d[k] = None
            if k not in ('w', IA.CHILD_ORDER):
                d[k + ' from'] = stage.get_node_attr_source(n, k) if has(d[k]) else None
        d['children'] = sorted(comp.children(p, RET.Path))
        out[p] = d
    return comp, out


def has(v):
    return not (v is None or v == [] or v == '<absent>')


def loops(data):
    """An instance within itself"""
    inst = {}
    for d in data[::-1]:
        for p in d:
            if d[p].get('instance'):
                inst[p] = nxt_path.expand_relative_node_path(d[p]['instance'], p)
    for p in inst:
        seen, todo = set(), [p]
        while todo:
            x = todo.pop()
            for y in [inst.get(z) for z in inst if z == x or z.startswith(x + '/')] + [
                    inst[z] for z in inst if x.startswith(z + '/')]:
                if y is None or y in seen:
                    continue
                if y == p or y.startswith(p + '/') or p.startswith(y + '/'):
                    return True
                seen.add(y)
                todo.append(y)
    return False


def h_edit(H, case):
    tree = TREES[case['tree']]
    data, at = build(H, case)
    stage = C.mk_stage([{'nodes': copy.deepcopy(d)} for d in data])
    if len(case['ops']) > 1:
        stage.build_stage(0)
    for n, op in enumerate(case['ops']):
        tag = str(n)
        spots = [(i, p) for i in (0, 1) for p in sorted(data[i]) if n or p == at]
        i, p = H.choice('at' + tag, spots)
        layer = stage._sub_layers[i]
        node = layer.lookup(p)
        how = H.choice('how' + tag, ['setter', 'data'] + ['none'])
        if op == 'start_point' and how == 'setter':
            how = 'data'
        want = None if how == 'none' else value(H, op, tree, tag, p)
        if how == 'data' or op == 'start_point':
            stage.node_setattr_data(node, NAMES[op], layer, create=True, value=want)
        elif op == 'comment':
            stage.set_node_comment(node, want, layer)
        elif op == 'execute_in':
            stage.set_node_exec_in(node, want, layer)
        else:
            stage.set_node_instance_path(node, want, layer)
        data[i][p].pop(op, None)
        if want is None:
            H.reach('none')
        else:
            data[i][p][op] = want
        if want is not None and p in data[1 - i]:
            H.reach('stronger' if i == 0 else 'weaker')
        if op == 'comment':
            H.check(H.eq(stage.get_node_comment(node), want), 'the comment')
        elif op == 'execute_in':
            H.check(stage.get_node_exec_in(node) == want, 'what it runs in')
        H.reach(op)
    H.assume(not loops(data))
    model = C.mk_stage([{'nodes': copy.deepcopy(d)} for d in data])
    for a, b in zip(stage._sub_layers, model._sub_layers):
        H.check(H.eq(flat(a.get_nodes_save_data()), flat(b.get_nodes_save_data())), 'what the layer saves')
    comp, got = comp_state(H, stage)
    want_comp, want = comp_state(H, model)
    H.check(sorted(got) == sorted(want), 'the nodes of the composite')
    for p in want:
        for k in sorted(want[p]):
            if k.startswith(IA.START_POINT):
                H.check(bool(got[p][k]) == bool(want[p][k]), 'start point of ' + p)
            elif k == IA.EXECUTE_IN + ' from' and not has(want[p][IA.EXECUTE_IN]):
                continue
            else:
                H.check(H.eq(got[p][k], want[p][k]), '%s of %s' % (k, p))
    starts = [p for p in want if want[p][IA.START_POINT]]
    H.check(sorted(stage.get_layer_start_nodes(comp)) == sorted(starts), 'the start points')
    if starts:
        H.reach('starts')
    for p in sorted(want):
        if p.count('/') == 1:
            H.check(comp.get_exec_order(p) == want_comp.get_exec_order(p), 'what runs')
    for p in sorted(want):
        inst, path = stage.safe_get_node_instance(comp.lookup(p), comp)
        if has(want[p][IA.INSTANCE_PATH]):
            real = nxt_path.expand_relative_node_path(want[p][IA.INSTANCE_PATH], p)
            H.check(path == real and inst is comp.lookup(real), 'its source')
            H.reach('targets')
        else:
            H.check(inst is None, 'no source')


def flat(nodes):
    return [[p, [[k, v if k != 'attrs' else [[a, list(d.items())] for a, d in v.items()]] for k, v in nodes[p].items()]]
            for p in nodes]
