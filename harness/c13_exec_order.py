from nxt import nxt_layer, nxt_node, nxt_path
from harness import common as C

PROPERTY = 'C13'
BOUNDS = {
    'quick': 'roots chained by every execute-in relation over 3 roots (cycles included); a root with '
             'up to 4 descendants on 3 levels, every enabled state, every start and child orders '
             'over two siblings; also on composed two-layer stages',
    'thorough': 'every execute-in relation over 4 roots; 3 siblings with every child order'}
BOUNDS['quick'] += '; long: chains of 7 roots and of 7 levels'
REACH = ['long', 'deep', 'chain', 'cycle', 'disabled', 'midstart', 'order', 'comp', 'world']
ASSUMPTIONS = ['the start node exists', 'a start below the root of a disabled tree is left out']


def cases(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    out = [dict(h='roots', n=i, start=s, where=w) for i in range(1, n + 1) for s in range(i)
           for w in ('layer', 'comp') if not (w == 'comp' and i > 3)]
    for start in ('/a', '/a/x', '/a/x/p', '/a/xy', '/a/x/pq'):
        out += [dict(h='tree', start=start, sib=2, chain=c) for c in (False, True)]
    if not q:
        out += [dict(h='tree', start='/a', sib=3, chain=False)]
    out.append(dict(h='world'))
    out += [dict(h='long', n=7), dict(h='deep', n=7)]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def h_long(H, case):
    """a long chain of roots, listed in another order"""
    n = case['n']
    roots = ['/r%d' % i for i in range(n)]
    listed = roots[::-1] if H.bool('backwards') else roots[3:] + roots[:3]
    nodes, on = {}, {}
    for r in listed:
        on[r] = H.bool('en' + r)
        nodes[r] = {'enabled': on[r]}
        i = roots.index(r)
        if i:
            nodes[r]['execute_in'] = roots[i - 1]
    layer = nxt_layer.SpecLayer.load_from_layer_data({'nodes': nodes})
    start = H.int('start', 0, n - 1)
    s = [i for i in range(n) if bool(start == i)][0]
    H.check(layer.get_root_exec_order(roots[s]) == roots[s:], 'the whole chain from the start on')
    H.check(layer.get_exec_order(roots[s]) == [r for r in roots[s:] if bool(on[r])], 'the enabled ones of the chain')
    H.reach('long')


def h_deep(H, case):
    """a node in a node in a node"""
    n = case['n']
    paths, nodes, on, p = [], {}, [], ''
    for i in range(n):
        p = p + '/d%d' % i
        paths.append(p)
        on.append(H.bool('en%d' % i))
        nodes[p] = {'enabled': on[-1]}
    layer = nxt_layer.SpecLayer.load_from_layer_data({'nodes': nodes})
    want = []
    for i in range(n):
        if not bool(on[i]):
            break
        want.append(paths[i])
    H.check(layer.get_exec_order(paths[0]) == want, 'down to the first one that is disabled')
    H.reach('deep')


def h_world(H, case):
    layer = nxt_layer.SpecLayer.load_from_layer_data({'nodes': {'/a': {}}})
    H.check(layer.get_exec_order('/') == [], 'the world has no execution order')
    H.reach('world')


def h_roots(H, case):
    n = case['n']
    roots = ['/%s' % c for c in 'abcd'[:n]]
    exec_in, enabled, nodes = {}, {}, {}
    for i, r in enumerate(roots):
        # any one-name path: another root, itself, or a root that is not there
        exec_in[r] = '/' + H.str('in%d' % i, 1, exclude='/.') if H.bool('has_in%d' % i) else None
        enabled[r] = H.bool('en%d' % i) if H.bool('has_en%d' % i) else None
        nodes[r] = {'execute_in': exec_in[r], 'enabled': enabled[r]}
        nodes[r + '/k'] = {}

    def on(r):
        return enabled[r] is None or bool(enabled[r])

    def runs_in(r, other):
        return exec_in[r] is not None and bool(H.eq(exec_in[r], other))
    start = roots[case['start']]
    if case['where'] == 'comp':
        layer = C.mk_stage([{'nodes': nodes}]).build_stage()
        H.reach('comp')
    else:
        layer = nxt_layer.SpecLayer.load_from_layer_data({'nodes': nodes})
    chain = layer.get_root_exec_order(start)
    H.observe('chain', chain)
    H.check(chain[0] == start and len(chain) == len(set(chain)), 'each root once, start first')
    for prev, nxt in zip(chain, chain[1:]):
        H.check(exec_in[nxt] is not None and H.eq(exec_in[nxt], prev),
                'each root executes in the one before')
    left = [r for r in roots if r not in chain and runs_in(r, chain[-1])]
    H.check(not left, 'the chain goes on as long as a root executes in its end')
    if len(chain) > 1:
        H.reach('chain')
    if any([runs_in(r, chain[-1]) for r in roots]):
        H.reach('cycle')
    got = layer.get_exec_order(start)
    H.observe('order', got)
    want = []
    for r in chain:
        if on(r):
            want += [r, r + '/k']
        else:
            H.reach('disabled')
    H.check(got == want, 'enabled roots of the chain with their children, in chain order')


def h_tree(H, case):
    start = case['start']
    kids = ['x', 'xy', 'x1'][:case['sib']]
    tree = {'/a': ['/a/' + k for k in kids], '/a/x': ['/a/x/p', '/a/x/pq'], '/a/xy': [],
            '/a/x1': [], '/a/x/p': [], '/a/x/pq': []}
    paths = ['/a'] + tree['/a'] + tree['/a/x']
    if case['chain']:
        tree['/ab'] = ['/ab/x']
        tree['/ab/x'] = []
        paths += ['/ab', '/ab/x']
    nodes = dict([(p, {}) for p in paths])
    if case['chain']:
        nodes['/ab']['execute_in'] = '/a'
    nodes['/unrelated'] = {}
    enabled = {}
    for p in paths:
        en = H.bool('en' + p)
        if p == '/a' and start != '/a':
            H.assume(en)
        elif case['chain'] or case['sib'] > 2 or H.bool('has_en' + p):
            pass
        else:
            en = None
        if en is not None:
            nodes[p]['enabled'] = en
        enabled[p] = True if en is None else en
    order = []
    for i in range(len(kids)):
        if case['chain'] and i:
            break
        left = [k for k in kids if k not in order]
        order.append(H.choice('co%d' % i, left))
    nodes['/a']['child_order'] = list(order)
    low = H.choice('pq', [['p', 'pq'], ['pq', 'p']])
    nodes['/a/x']['child_order'] = low
    comp = H.choice('where', ['layer', 'comp'])
    if comp == 'comp':
        layer = C.mk_stage([{'nodes': nodes}]).build_stage()
        H.reach('comp')
    else:
        layer = nxt_layer.SpecLayer.load_from_layer_data({'nodes': nodes})
    tree['/a'] = ['/a/' + k for k in order] + [p for p in tree['/a'] if p[3:] not in order]
    tree['/a/x'] = ['/a/x/' + k for k in low]
    got = layer.get_exec_order(start)
    H.observe('order', got)

    def walk(p, alive):
        alive = alive and bool(enabled[p])
        out = [(p, alive)]
        for c in tree[p]:
            out += walk(c, alive)
        return out
    seq = walk('/a', True)
    if case['chain']:
        seq += walk('/ab', True)
    i = [p for p, e in seq].index(start)
    want = [p for p, e in seq[i:] if e]
    H.check(got == want, 'enabled nodes from the start on, parents first, in child order')
    H.reach('order')
    if i:
        H.reach('midstart')
    if not all([e for p, e in seq]):
        H.reach('disabled')
