from nxt import nxt_layer
from harness import common as C

PROPERTY = 'C21'
BOUNDS = {
    'quick': 'chains and trees of 3 layers with every placement of alias, colour and lock overrides '
             'and every sequence of 2 set or clear operations with symbolic values',
    'thorough': '4 layers, sequences of 3 operations'}
BOUNDS['quick'] += '; long: a chain of 6 layers'
REACH = ['seen', 'own', 'set', 'clear']
ASSUMPTIONS = ['layer file paths are distinct', 'overrides are set on layers that have a parent']

KINDS = ['alias', 'color', 'lock']
TABLE = {'alias': 'aliases', 'color': 'colors', 'lock': 'locks'}
# parents of the layers: a chain, a fan, a mixed tree
TREES = {3: [[None, 0, 1], [None, 0, 0]], 4: [[None, 0, 1, 2], [None, 0, 1, 1], [None, 0, 0, 1]]}


def cases(tier):
    n, k = (3, 2) if tier == 'quick' else (4, 3)
    out = []
    for m in range(3, n + 1):
        for t in TREES[m]:
            for kind in KINDS:
                out.append(dict(h='see', tree=t, kind=kind))
                for first in range(1, m):
                    out.append(dict(h='ops', tree=t, kind=kind, k=k, first=first))
    out += [dict(h='see', tree=[None, 0, 1, 2, 3, 4], kind=kind) for kind in KINDS]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def value(H, name, kind):
    if kind == 'lock':
        return H.bool(name)
    return H.str(name, 1)


def get(layer, kind, **kw):
    if kind == 'alias':
        return layer.get_alias(**kw)
    if kind == 'color':
        kw.setdefault('local', False)
        return layer.get_color(**kw)
    return layer.get_locked(**kw)


def set_over(layer, kind, v):
    if kind == 'alias':
        layer.set_alias_over(v)
    elif kind == 'color':
        layer.set_color_over(v)
    else:
        layer.set_locked_over(v)


def build(H, tree, kind, place):
    layers, table = [], []
    for i, p in enumerate(tree):
        data = {'filepath': C.layer_path(i), 'real_path': C.layer_path(i),
                'alias': H.str('own_alias%d' % i, 1), 'color': H.str('own_color%d' % i, 1),
                'lock': H.bool('own_lock%d' % i)}
        over = {}
        for j in range(len(tree)):
            if place and place(i, j):
                over[C.layer_path(j)] = value(H, 'o%d%d' % (i, j), kind)
        if over:
            data['meta_data'] = {TABLE[kind]: dict(over)}
        if p is not None:
            data['parent_layer'] = layers[p]
        layers.append(nxt_layer.SpecLayer(data))
        table.append(over)
    return layers, table


def own(layer, kind):
    return {'alias': layer.alias, 'color': layer.color, 'lock': layer.lock}[kind]


def up(tree, j):
    out = []
    while j is not None:
        out.append(j)
        j = tree[j]
    return out


def expect(layers, table, tree, j, kind):
    for i in up(tree, j)[::-1]:
        if C.layer_path(j) in table[i]:
            return table[i][C.layer_path(j)], True
    return own(layers[j], kind), False


def same(H, a, b):
    if a is None or b is None:
        return a is None and b is None
    return H.eq(a, b)


def compare(H, layers, table, tree, kind):
    for j, l in enumerate(layers):
        w, over = expect(layers, table, tree, j, kind)
        H.check(same(H, get(l, kind, local=False), w), 'topmost override, else its own')
        if not over:
            g = get(l, kind, local=False, fallback_to_local=False)
            H.check(not bool(g), 'nothing without an override when asked so')
        H.check(same(H, get(l, kind, local=True), own(l, kind)), 'its own when asked locally')
        H.reach('seen' if over else 'own')


def h_see(H, case):
    tree, kind = case['tree'], case['kind']
    j = H.choice('target', list(range(len(tree))))
    place = [H.choice('place%d' % i, [False, True]) for i in range(len(tree))]
    layers, table = build(H, tree, kind, lambda i, k: k == j and place[i])
    compare(H, layers, table, tree, kind)
    H.observe('seen', [get(l, kind, local=False) for l in layers])


def h_ops(H, case):
    tree, kind = case['tree'], case['kind']
    pre = H.choice('pre', ['none', 'mid', 'top'])
    src = {'none': -1, 'mid': tree[case['first']], 'top': 0}[pre]
    layers, table = build(H, tree, kind, lambda i, j: i == src and j == case['first'])
    others = [k for k in KINDS if k != kind]
    before = [[get(l, k, local=False) for k in others] for l in layers]
    for o in range(case['k']):
        j = case['first'] if o == 0 else H.choice('who%d' % o, list(range(1, len(tree))))
        if H.choice('op%d' % o, ['set', 'clear']) == 'set':
            v = value(H, 'v%d' % o, kind)
            set_over(layers[j], kind, v)
            table[0][C.layer_path(j)] = v
            H.reach('set')
        else:
            set_over(layers[j], kind, None)
            table[0].pop(C.layer_path(j), None)
            H.reach('clear')
        compare(H, layers, table, tree, kind)
    after = [[get(l, k, local=False) for k in others] for l in layers]
    for b, a in zip(before, after):
        for x, y in zip(b, a):
            H.check(same(H, x, y), 'the other kinds are untouched')
    H.observe('seen', [get(l, kind, local=False) for l in layers])
