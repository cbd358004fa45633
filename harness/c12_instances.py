from nxt import nxt_layer, nxt_node, nxt_path
from harness import common as C
from harness.comp_model import Model, expand

PROPERTY = 'C12'
IA = C.IA
# nodes; those listed with the number of characters of a symbolic instance path
TREES = {
    'two roots': [('/a', 1), ('/b', 0), ('/b/k', 0), ('/b/k/m', 0)],
    'three roots': [('/a', 1), ('/b', 1), ('/c', 1), ('/c/k', 0)],
    'child source': [('/a', 2), ('/b', 0), ('/b/k', 0), ('/b/k/m', 0)],
    'below': [('/p', 0), ('/p/n', 1), ('/b', 0), ('/b/k', 0), ('/c', 0)],
    'inner instance': [('/a', 1), ('/b', 0), ('/b/k', 1), ('/c', 0), ('/c/m', 0)],
    'local override': [('/a', 1), ('/a/k', 0), ('/a/z', 0), ('/b', 0), ('/b/k', 0), ('/b/k/m', 0)],
    'deep override': [('/a', 1), ('/a/k/m', 0), ('/b', 0), ('/b/k', 0), ('/b/k/m', 0), ('/b/k/m/x', 0)],
    'gap in source': [('/a', 1), ('/b', 0), ('/b/g/k', 0)],
    'gap at source': [('/a', 1), ('/b/k', 0), ('/c', 0)],
    'of a proxy': [('/a', 1), ('/b', 0), ('/b/k', 0), ('/b/k/m', 0), ('/c', 2)],
    'many': [('/a', 1), ('/b', 1), ('/b/k', 1), ('/c', 0), ('/c/m', 0)],
    'four chain': [('/a', 1), ('/b', 1), ('/c', 1), ('/d', 0), ('/d/k', 0)],
    'own below': [('/a', 1), ('/a/k', 0, '/c'), ('/b', 0), ('/b/k', 0), ('/b/k/m', 0), ('/c', 0), ('/c/x', 0)],
    'own below any': [('/a', 1), ('/a/k', 1), ('/b', 0), ('/b/k', 0), ('/b/k/m', 0), ('/c', 0), ('/c/x', 0)],
    'siblings': [('/g', 0), ('/g/a', 2), ('/g/b', 2), ('/g/b/k', 0)],
}
THOROUGH = {
    'five': [('/a', 1), ('/b', 1), ('/c', 1), ('/d', 1), ('/d/k', 1)],
    'of a proxy 3': [('/a', 1), ('/b', 0), ('/b/k', 1), ('/b/k/m', 0), ('/c', 2), ('/d', 1)],
    'nested': [('/a', 1), ('/b', 0), ('/b/k', 2), ('/c', 0), ('/c/m', 1), ('/d', 0), ('/d/x', 0)],
}
# relative instance paths (concrete); node -> instance
REL = {
    'sibling': {'/g': None, '/g/s': None, '/g/s/k': None, '/g/n': '../s'},
    'up two': {'/g': None, '/s': None, '/s/k': None, '/g/n': '../../s'},
    'mirrored': {'/s': None, '/s/x': None, '/s/x/k': None, '/s/y': '../x', '/t': '/s'},
    'two levels': {'/s': None, '/s/x': None, '/s/x/k': None, '/s/y': '../x', '/t': '/s', '/u': '/t'},
    'cut': {'/s': None, '/s/k': None, '/n': ''},
    'cut child': {'/s': None, '/s/k': None, '/s/k/m': None, '/n': '/s', '/n/k': ''},
    'override below': {'/a': '/b', '/a/k/m': None, '/b': None, '/b/k': None, '/b/k/m': None, '/b/k/x': None},
    'override chain': {'/a': '/b', '/b': '/c', '/c': None, '/c/k': None, '/b/k': None, '/a/k/y': None},
    'seven chain': {'/a': '/b', '/b': '/c', '/c': '/d', '/d': '/e', '/e': '/f', '/f': '/g', '/g': None, '/g/k': None, '/g/k/m': None},
    'deep source': {'/a': '/b', '/b': None, '/b/k': None, '/b/k/l': None, '/b/k/l/m': None, '/b/k/l/m/n': None, '/b/k/l/m/n/o': None},
    'long chain': {'/a': '/b', '/b': '/c', '/c': '/d', '/d': '/e', '/e': None, '/e/k': None, '/e/k/m': None},
}
REL = dict([(k, dict([(C.respell(p), C.respell(i)) for p, i in v.items()])) for k, v in REL.items()])
BOUNDS = {
    'quick': '%d trees of 3-6 nodes in which up to 3 nodes have a symbolic instance path (any one- or '
             'two-name path), so that every instance graph over the tree is covered, cyclic ones, '
             'chains, self and ancestor instances included; attributes and code of every node '
             'symbolic, one layer; %d trees with relative or emptied instance paths, the nodes spread over up to 2 layers in every way' % (len(TREES), len(REL)),
    'thorough': 'up to 5 symbolic instance paths'}
BOUNDS['quick'] += '; long: a chain of 7 instances, a source of 5 levels'
REACH = ['mirror', 'cyclic', 'override', 'chain', 'none', 'relative']
ASSUMPTIONS = ['a node that stands for a descendant of an instance source has an instance path of its own only '
               'where that descendant is a node of the layers (the path is then replaced)', 'for instance graphs that contain themselves only termination and the '
               'opinions the nodes hold themselves are judged']


def cases(tier):
    q = tier == 'quick'
    out = []
    t = dict(TREES)
    if not q:
        t.update(THOROUGH)
    for k in sorted(t):
        out.append(dict(h='sym', tree=k, what='v'))
        out.append(dict(h='sym', tree=k, what='code'))
    out += [dict(h='rel', tree=k, what=w, layers=1) for k in sorted(REL) for w in ('v', 'code')]
    out += [dict(h='rel', tree=k, what=w, layers=2) for k in sorted(REL) for w in ('v', 'code')]
    if not q:
        out += [dict(h='rel', tree=k, what='v', layers=3) for k in sorted(REL)]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def cyclic(nodes):
    """Whether some node would contain itself.  The content of a region (a path and all below it)
    is what the nodes there instance and what reaches the region through an instancing ancestor."""
    inst = dict([(p, expand(i, p)) for p, i in nodes.items() if i])
    for s in inst:
        seen, todo = set(), [inst[s]]
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            if s == r or s.startswith(r.rstrip('/') + '/') or r.count('/') > 8:
                return True
            for p in inst:
                if p == r or p.startswith(r + '/'):
                    todo.append(inst[p])
                elif r.startswith(p + '/'):
                    todo.append(inst[p] + r[len(p):])
    return False


def with_implied(paths):
    out = set()
    for p in paths:
        parts = p.split('/')
        for i in range(2, len(parts) + 1):
            out.add('/'.join(parts[:i]))
    return out


def h_sym(H, case):
    tree = dict(TREES, **THOROUGH)[case['tree']]
    what = case['what']
    paths = [t[0] for t in tree]
    fixed = dict([(t[0], t[2]) for t in tree if len(t) > 2])
    syms = {}
    for t in tree:
        p, k = t[:2]
        if k == 1:
            syms[p] = '/' + H.str('i' + p, 1, exclude='/.')
        elif k == 2:
            syms[p] = '/' + H.str('i' + p + '.0', 1, exclude='/.') + '/' + \
                H.str('i' + p + '.1', 1, exclude='/.')
    vals = {}
    data = {}
    for p in paths:
        v = vals[p] = H.str('v' + p, 1)
        data[p] = {'attrs': {'v': {'value': v}}} if what == 'v' else {'code': [v]}
        if p in syms:
            data[p]['instance'] = syms[p]
        elif p in fixed:
            data[p]['instance'] = fixed[p]
    stage = C.mk_stage([{'nodes': data}])
    comp = stage.build_stage(0)
    # which paths the symbolic ones name on this path of the execution
    known = with_implied(paths)
    nodes = dict([(p, fixed.get(p)) for p in paths])
    for i in range(6):
        got = dict(nodes)
        for p in syms:
            got[p] = '/?/?'
            for x in sorted(known):
                if x.count('/') == syms[p].count('/') and bool(H.eq(syms[p], x)):
                    got[p] = x
        if cyclic(got):
            break
        m = Model(got)
        new = with_implied(m.paths | m.virtual)
        if new <= known:
            break
        known |= new
    if cyclic(got):
        for p in paths:
            node = comp.lookup(p)
            H.check(node is not None, 'every node of the layer: ' + p)
            H.check(H.eq(node.v if what == 'v' else getattr(node, IA.COMPUTE)[0], vals[p]),
                    'its own opinion: ' + p)
        H.reach('cyclic')
        return
    judge(H, comp, m, vals, what)
    if any([got.get(got[p]) in known for p in syms]):
        H.reach('chain')
    if not any([got[p] in known for p in syms]):
        H.reach('none')


def judge(H, comp, m, vals, what):
    known = comp._nodes_path_as_key
    for p in sorted(m.paths):
        node = comp.lookup(p)
        H.check(node is not None, 'every descendant of the source has its place: ' + p)
        H.check(H.eq(comp.get_node_path(node), p), 'and knows its path: ' + p)
        H.check(getattr(node, IA.NAME) == p.rsplit('/', 1)[1], 'name: ' + p)
        H.check(H.eq(getattr(node, IA.PARENT_PATH), p.rsplit('/', 1)[0] or '/'), 'parent: ' + p)
        order = m.order(p) if what == 'v' else m.instanced(p)
        want = [x for x in order if x in vals][0]
        got = node.v if what == 'v' else getattr(node, IA.COMPUTE)
        H.check(H.eq(got, vals[want] if what == 'v' else [vals[want]]), 'value: ' + p)
        if p not in m.local:
            H.reach('mirror')
        elif m.inst.get(p) in m.paths and m.local[p] is None:
            H.reach('override')
    H.check(len([p for p in known if p != '/']) == len(m.paths - set(['/'])), 'no other node')
    for p in sorted(m.paths):
        kids = sorted(comp.children(p, C.RET.Path))
        H.check(kids == [x for x in sorted(m.paths) if m.parent(x) == p], 'its children: ' + p)


def h_rel(H, case):
    nodes, what, nl = REL[case['tree']], case['what'], case['layers']
    vals, data = {}, [{} for i in range(nl)]
    for p in sorted(nodes):
        v = vals[p] = H.str('v' + p, 1)
        d = {'attrs': {'v': {'value': v}}} if what == 'v' else {'code': [v]}
        if nodes[p] is not None:
            d['instance'] = nodes[p]
        at = 0
        while at < nl - 1 and not H.bool('at%d%s' % (at, p)):
            at += 1
        data[at][p] = d
    stage = C.mk_stage([{'nodes': d} for d in data])
    comp = stage.build_stage(0)
    judge(H, comp, Model(nodes), vals, what)
    H.reach('relative')
