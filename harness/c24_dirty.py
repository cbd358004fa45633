from nxt import nxt_layer
from nxt.stage import Stage
from harness import common as C

PROPERTY = 'C24'
BOUNDS = {
    'quick': 'every dependency relation over 3 nodes (self loops included) as symbolic booleans; '
             'every sequence of 2 recordings and 1 removal with symbolic node names',
    'thorough': 'every dependency relation over 4 nodes without self loops; 3 recordings and 1 removal'}
BOUNDS['quick'] += '; long: a chain of 9 nodes with one more dependency between any two'
REACH = ['long', 'query', 'cycle', 'record', 'remove']
ASSUMPTIONS = ['a dependency list holds no path twice, which recording guarantees (checked here)']


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='query', n=n, self_loops=True) for n in (1, 2, 3)]
    if not q:
        out += [dict(h='query', n=4, self_loops=False, fixed=[a, b, c])
                for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    out += [dict(h='long', n=9)]
    out += [dict(h='record', k=k) for k in ((1, 2) if q else (1, 2, 3))]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def reachable(edges, start):
    seen, todo = [], [start]
    while todo:
        x = todo.pop()
        for y in edges.get(x, []):
            if y not in seen:
                seen.append(y)
                todo.append(y)
    return seen


def h_long(H, case):
    """a chain with one more dependency between any two"""
    n = case['n']
    nodes = ['/n%d' % i for i in range(n)]
    dm = dict([(nodes[i], [nodes[i + 1]]) for i in range(n - 1)])
    a, b, at = H.choice('from', nodes), H.choice('to', nodes), H.choice('at', nodes)
    if b not in dm.setdefault(a, []):
        dm[a].insert(0 if H.bool('first') else len(dm[a]), b)
    comp = nxt_layer.CompLayer()
    comp._dirty_map = dm
    got = comp.get_node_dirties(at)
    want = reachable(dm, at)
    H.check(sorted([g for g in got if g != at]) == sorted([w for w in want if w != at]), 'the whole chain')
    H.check(len(got) == len(set(got)), 'each once in a chain')
    H.reach('long')


def h_query(H, case):
    n = case['n']
    nodes = ['/n%d' % i for i in range(n)]
    comp = nxt_layer.CompLayer()
    fixed = list(case.get('fixed', []))
    dm = {}
    for i in range(n):
        for j in range(n):
            if i == j and not case['self_loops']:
                continue
            if fixed:
                e = bool(fixed.pop(0))
            else:
                e = bool(H.bool('e%d%d' % (i, j)))
            if e:
                dm.setdefault(nodes[i], []).append(nodes[j])
    comp._dirty_map = dm
    before = dict([(k, list(v)) for k, v in dm.items()])
    got = comp.get_node_dirties(nodes[0])
    H.observe('got', got)
    want = reachable(dm, nodes[0])
    H.check(sorted([g for g in got if g != nodes[0]]) == sorted([w for w in want if w != nodes[0]]),
            'exactly the nodes reachable through dependencies')
    H.check(len(got) == len(set(got)), 'each once')
    H.check(comp._dirty_map == before, 'asking changes nothing')
    H.reach('query')
    if nodes[0] in want:
        H.reach('cycle')
    H.check(comp.get_node_dirties('/elsewhere') == [], 'nothing depends on an unrecorded node')


def h_record(H, case):
    """Recording and forgetting dependencies keeps the map equal to the set of recorded pairs."""
    dm = {}
    pairs = []
    for i in range(case['k']):
        a = '/' + H.str('a%d' % i, 1, exclude='/.')
        b = '/' + H.str('b%d' % i, 1, exclude='/.')
        dm = Stage.extend_dirty_map(a, b, dm)
        if not bool(H.eq(a, b)):
            pairs.append((a, b))
        H.reach('record')
    Stage.extend_dirty_map('/', '/x', dm)
    Stage.extend_dirty_map('/x', '/', dm)
    same(H, dm, pairs)
    gone = '/' + H.str('gone', 1, exclude='/.')
    dm = Stage.remove_from_dirty_map(gone, dm)
    pairs = [p for p in pairs if not bool(H.eq(p[0], gone)) and not bool(H.eq(p[1], gone))]
    same(H, dm, pairs)
    H.reach('remove')


def same(H, dm, pairs):
    got = [(k, v) for k, vs in dm.items() for v in vs]
    got = [p for p in got if not bool(H.eq(p[0], p[1]))]
    for p in got:
        H.check(H.any_of([H.eq(p, w) for w in pairs]), 'only recorded dependencies')
    for w in pairs:
        H.check(H.any_of([H.eq(p, w) for p in got]), 'every recorded dependency')
    for i in range(len(got)):
        for j in range(i):
            H.check(H.not_(H.eq(got[i], got[j])), 'each dependency once')
    H.observe('n', len(got))
