from nxt import nxt_layer, nxt_node, nxt_path
from harness import common as C

PROPERTY = 'C15'
IA = C.IA
RET = C.RET
BOUNDS = {
    'quick': 'layers of up to 3 nodes (4 when renaming) at depths 1-3 (with and without missing intermediate nodes) with '
             'symbolic one-character names (some of two characters, so that names may be prefixes of one another); renaming to a symbolic name, reparenting one or two nodes '
             'below every other node, the world or a path without a node; child caches warm or cold; '
             'a second, stronger layer with a symbolic node, muted or not',
    'thorough': 'up to 5 nodes'}
BOUNDS['quick'] += '; long: 6 levels, 7 siblings'
REACH = ['long', 'rename', 'reparent', 'taken', 'free', 'below', 'order', 'two', 'gap', 'other layer']
ASSUMPTIONS = ['names consist of letters (legalising names is C16)',
               'a node is not moved below itself or to the parent it already has, and of two moved '
               'nodes none lies below the other',
               'a renamed node does not ask for the name it already has']

SHAPES = [[1], [1, 1], [1, 2], [1, 1, 2], [1, 2, 2], [1, 2, 3], [1, 3], [2, 2], [1, 1, 3]]
SHAPES_T = SHAPES + [[1, 3, 3], [1, 1, 2, 2], [1, 2, 2, 3], [1, 2, 3, 3], [1, 3, 1, 3], [1, 1, 2, 3], [1, 1, 1, 2, 2], [1, 2, 2, 3, 3],
                     [1, 2, 3, 4]]
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def cases(tier):
    q = tier == 'quick'
    out = []
    for sh in (SHAPES if q else SHAPES_T):
        for t in range(len(sh)):
            # nodes of one depth are interchangeable
            if t and sh[t] == sh[t - 1]:
                continue
            out.append(dict(h='rename', shape=sh, t=t, warm=True))
            for to in ['/', 'new'] + [i for i in range(len(sh)) if i != t]:
                if not (to == '/' and sh[t] == 1):
                    out.append(dict(h='move', shape=sh, t=[t], to=to, warm=True))
    for sh in ([1, 2], [1, 1, 2]):
        out.append(dict(h='rename', shape=sh, t=0, warm=False))
        out.append(dict(h='move', shape=sh, t=[1], to='new', warm=False))
    out += [dict(h='move', shape=sh, t=t, to=to, warm=True) for sh, t, to in
            [([1, 1], [0, 1], 'new'), ([2, 2], [0, 1], '/'), ([2, 2], [0, 1], 'new'),
             ([1, 2, 2], [1, 2], '/'), ([1, 2, 2], [1, 2], 'new'), ([1, 2, 1], [1, 2], 'new'),
             ([2, 2, 1], [0, 1], 2)] + ([] if q else [([1, 2, 1, 2], [1, 3], '/'), ([1, 2, 2, 3], [1, 2], 'new')])]
    out += [dict(h='rename', shape=[1, 2, 2, 3], t=t, warm=True) for t in (0, 1)]
    # names of different length, which may be prefixes of one another
    for sh, t, long in (([1, 1, 2], 0, [1, 2]), ([1, 1, 2], 0, [0]), ([1, 2, 2], 1, [0]), ([1, 1, 3], 0, [2]),
                        ([1, 1, 3], 0, [0]), ([2, 2, 1], 0, [1])):
        out.append(dict(h='rename', shape=sh, t=t, warm=True, long=long))
        out.append(dict(h='move', shape=sh, t=[t], to='new', warm=True, long=long))
    out += [dict(h='layers', op=o, muted=m) for o in ('rename', 'move') for m in (None, 0, 1)]
    out += [dict(h='long', op=o) for o in ('rename', 'move')]
    out += [dict(h='order', op=o, n=n) for o in ('rename', 'move', 'world') for n in (2, 3)]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def mk(H, shape, tag='', long=()):
    names, paths = [], []
    for i, depth in enumerate(shape):
        ns = [H.str('%sn%d.%d' % (tag, i, d), 2 if (i in long and not d) else 1, alphabet=LET)
              for d in range(depth)]
        names.append(ns)
        paths.append('/' + '/'.join(ns))
        for j in range(i):
            if shape[j] == depth:
                H.assume(H.not_(H.eq(names[i], names[j])))
    data = {'nodes': dict([(p, {'attrs': {'v': {'value': 'v%d' % i}}, 'code': ['c%d' % i],
                                'execute_in': '/x%d' % i, 'comment': 'k%d' % i})
                           for i, p in enumerate(paths)])}
    return names, paths, data


def below(H, ns, anc):
    return len(ns) > len(anc) and bool(H.eq(ns[:len(anc)], anc))


def warm_up(layer, paths):
    for p in paths:
        q = p
        while q != '/':
            layer.children(q, RET.Path, include_implied=True)
            layer.children(q)
            q = q.rsplit('/', 1)[0] or '/'
    layer.children('/', RET.Path, include_implied=True)
    layer.descendants('/', RET.Path)


def consistent(H, layer, n):
    H.check(len(layer._nodes_path_as_key) == n, 'no node is lost or overwritten')
    H.check(len(layer._nodes_node_as_key) == n, 'both maps have the same size')
    H.check(len(layer._node_table) == n, 'so has the node table')
    H.check(len(layer.spec_list) == n, 'and the list of specs')
    for p, node in list(layer._nodes_path_as_key.items()):
        H.check(H.eq(layer._nodes_node_as_key.get(node), p), 'the maps are inverse to one another')
        H.check(H.eq(p, nxt_path.join_node_paths(getattr(node, IA.PARENT_PATH),
                                                 getattr(node, IA.NAME))), 'name and parent give the path')
        row = [r[0] for r in layer._node_table if r[1] is node]
        H.check(len(row) == 1 and bool(H.eq('/' + '/'.join(row[0]), p)), 'node table entry')


def judge(H, layer, objs, names, want, orders):
    """objs: the nodes before; want: their names after; orders: child orders after (or None)"""
    consistent(H, layer, len(objs))
    for i, node in enumerate(objs):
        p = '/' + '/'.join(want[i])
        H.check(layer.lookup(p) is node, 'every node is where it belongs')
        H.check(H.eq(layer.get_node_path(node), p), 'and knows its path')
        H.check(node.v == 'v%d' % i and getattr(node, IA.COMPUTE) == ['c%d' % i] and
                getattr(node, IA.EXECUTE_IN) == '/x%d' % i and
                getattr(node, IA.COMMENT) == 'k%d' % i, 'with all its data')
        src = getattr(node, 'v' + C.META.SOURCE)
        H.check(src[0] == layer.real_path and bool(H.eq(src[1], p)), 'its attributes come from its path')
    # queries follow
    for i, node in enumerate(objs):
        p = '/' + '/'.join(want[i])
        kids = layer.children(p)
        H.check(all([any([k is o for k in kids]) ==
                     (len(want[j]) == len(want[i]) + 1 and below(H, want[j], want[i]))
                     for j, o in enumerate(objs)]), 'children follow the move')
        if orders[i] is not None:
            H.check(H.eq(getattr(node, IA.CHILD_ORDER), orders[i]), 'child order')
    seen = []
    for ns in names:
        for k in range(1, len(ns) + 1):
            if not any([len(x) == k and bool(H.eq(x, ns[:k])) for x in seen]):
                seen.append(ns[:k])
    for ns in seen:
        p = '/' + '/'.join(ns)
        if not bool(H.any_of([H.eq(ns, w) for w in want])):
            H.check(layer.lookup(p) is None, 'nothing stays behind')
        here = any([below(H, w, ns) for w in want])
        H.check(bool(layer.children(p, RET.Path, include_implied=True)) == here,
                'nothing is found below an old path that is not there')


def order_of(node):
    return list(getattr(node, IA.CHILD_ORDER))


def gap_in(H, rows, i):
    return any([below(H, r, rows[i]) and len(r) > len(rows[i]) + 1 and
                not any([bool(H.eq(r[:-1], x)) for x in rows]) for r in rows])


def h_rename(H, case):
    names, paths, data = mk(H, case['shape'], long=case.get('long', ()))
    stage = C.mk_stage([data])
    layer = stage.top_layer
    objs = [layer.lookup(p) for p in paths]
    orders = [order_of(o) for o in objs]
    t = case['t']
    new = H.str('new', 1, alphabet=LET)
    H.assume(H.not_(H.eq(new, names[t][-1])))
    layer.positions[paths[t]] = [1, 2]
    layer.collapse[paths[t]] = True
    if case['warm']:
        warm_up(layer, paths)
    got = stage.set_node_name(objs[t], new, layer)
    wish = names[t][:-1] + [new]
    taken = bool(H.any_of([H.eq(wish, ns) for ns in names]))
    used = getattr(objs[t], IA.NAME)
    if taken:
        H.reach('taken')
        H.check(H.not_(H.eq(used, new)), 'a taken name is not used')
    elif not any([below(H, ns, wish) for ns in names]):
        H.reach('free')
        H.check(H.eq(used, new), 'a free name is used as it is')
    final = names[t][:-1] + [used]
    H.check(H.eq(got, '/' + '/'.join(final)), 'the new path is returned')
    want = []
    for i, ns in enumerate(names):
        if i == t or below(H, ns, names[t]):
            want.append(final + ns[len(final):])
            if i != t:
                H.reach('below')
        else:
            want.append(ns)
    old = names[t][-1]
    for i in range(len(names)):
        if bool(H.eq(names[i], names[t][:-1])):
            orders[i] = [used if bool(H.eq(x, old)) else x for x in orders[i]]
    if gap_in(H, names, t):
        H.reach('gap')
    judge(H, layer, objs, names, want, orders)
    p = '/' + '/'.join(final)
    H.check(H.eq(layer.positions.get(p), [1, 2]) and paths[t] not in layer.positions, 'position')
    H.check(layer.collapse.get(p) is True and paths[t] not in layer.collapse, 'collapsed state')
    H.reach('rename')


def h_move(H, case):
    names, paths, data = mk(H, case['shape'], long=case.get('long', ()))
    stage = C.mk_stage([data])
    layer = stage.top_layer
    objs = [layer.lookup(p) for p in paths]
    orders = [order_of(o) for o in objs]
    ts, to = case['t'], case['to']
    if to == '/':
        dest = []
    elif to == 'new':
        dest = [H.str('to', 1, alphabet=LET)]
    else:
        dest = names[to]
    for t in ts:
        H.assume(H.not_(H.eq(dest, names[t][:-1])))
        H.assume(H.not_(H.eq(dest[:len(names[t])], names[t])))
        for u in ts:
            if t != u:
                H.assume(H.not_(below(H, names[t], names[u])))
    for t in ts:
        layer.collapse[paths[t]] = True
    if case['warm']:
        warm_up(layer, paths + ['/' + '/'.join(dest)])
    dpath = '/' + '/'.join(dest)
    res = stage.parent_nodes([objs[t] for t in ts], dpath, layer)
    cur = [list(ns) for ns in names]
    want_orders = [list(o) for o in orders]
    for t in ts:
        wish = dest + [names[t][-1]]
        used = getattr(objs[t], IA.NAME)
        taken = bool(H.any_of([H.eq(wish, ns) for ns in cur]))
        if taken:
            H.reach('taken')
            H.check(H.not_(H.eq(used, names[t][-1])), 'a taken name is not used')
        elif not any([below(H, ns, wish) for ns in cur]):
            H.reach('free')
            H.check(H.eq(used, names[t][-1]), 'a free name is kept')
        final = dest + [used]
        H.check(H.eq(res[paths[t]], '/' + '/'.join(final)), 'old and new path are returned')
        nxt = []
        for i, ns in enumerate(cur):
            if i == t or below(H, ns, cur[t]):
                nxt.append(final + ns[len(cur[t]):])
                if i != t:
                    H.reach('below')
            else:
                nxt.append(ns)
        for i, ns in enumerate(cur):
            if bool(H.eq(ns, cur[t][:-1])):
                want_orders[i] = [x for x in want_orders[i] if not bool(H.eq(x, cur[t][-1]))]
            elif bool(H.eq(ns, dest)) and not bool(H.any_of([H.eq(x, used) for x in want_orders[i]])):
                want_orders[i] = want_orders[i] + [used]
        if gap_in(H, cur, t):
            H.reach('gap')
        cur = nxt
    judge(H, layer, objs, names, cur, want_orders)
    for t in ts:
        p = '/' + '/'.join(cur[t])
        H.check(layer.collapse.get(p) is True, 'collapsed state')
    H.reach('reparent')
    if len(ts) > 1:
        H.reach('two')


def h_layers(H, case):
    """Two layers: names taken in the composite are not used, the other layer stays as it is."""
    op, muted = case['op'], case['muted']
    a, b, c = H.str('a', 1, alphabet=LET), H.str('b', 1, alphabet=LET), H.str('c', 1, alphabet=LET)
    new = H.str('new', 1, alphabet=LET)
    H.assume(H.not_(H.eq(a, b)))
    H.assume(H.not_(H.eq(new, a)))
    low = {'nodes': {'/' + a: {'attrs': {'v': {'value': 'v0'}}},
                     '/' + a + '/k': {'attrs': {'v': {'value': 'v1'}}},
                     '/' + b: {'attrs': {'v': {'value': 'v2'}}}, '/' + b + '/x': {}}}
    up = {'nodes': {'/' + c: {'attrs': {'v': {'value': 'up'}}}, '/' + a + '/z': {}, '/' + b + '/' + c: {}}}
    stage = C.mk_stage([up, low])
    top, layer = stage._sub_layers
    if muted is not None:
        stage._sub_layers[muted].set_muted(True)
    before = dict(top._nodes_path_as_key)
    node, kid, other = [layer.lookup('/' + p) for p in (a, a + '/k', b)]
    if op == 'rename':
        p = stage.set_node_name(node, new, layer)
        used, pre = getattr(node, IA.NAME), ''
        taken = bool(H.eq(new, b)) if muted == 0 else \
            bool(H.any_of([H.eq(new, b), H.eq(new, c)])) if muted is None else None
        wish = new
    else:
        stage.parent_nodes([node], '/' + b, layer)
        used, pre = getattr(node, IA.NAME), '/' + b
        wish = a
        taken = bool(H.eq(a, 'x')) if muted == 0 else \
            bool(H.any_of([H.eq(a, 'x'), H.eq(a, c)])) if muted is None else None
    if taken is not None:
        H.check(bool(H.eq(used, wish)) == (not taken), 'a name is changed exactly if it is taken')
    consistent(H, layer, 4)
    H.check(layer.lookup(pre + '/' + used) is node and node.v == 'v0', 'the node moved')
    H.check(layer.lookup(pre + '/' + used + '/k') is kid and kid.v == 'v1', 'so did what is below')
    H.check(H.eq(getattr(node, 'v' + C.META.SOURCE)[1], pre + '/' + used), 'its attributes come from its path')
    H.check(layer.lookup('/' + b) is other and other.v == 'v2', 'the other node stays')
    H.check(len(top._nodes_path_as_key) == len(before) and
            all([top.lookup(p) is n for p, n in before.items()]), 'the other layer stays as it is')
    H.reach('other layer')


def h_long(H, case):
    """Six levels, or one of seven siblings"""
    chain = ['/a', '/a/b', '/a/b/c', '/a/b/c/d', '/a/b/c/d/e', '/a/b/c/d/e/f']
    row = ['/w'] + ['/w/k%d' % i for i in range(7)]
    paths = chain + row
    gone = H.choice('gone', [None] + chain[1:4])
    paths = [p for p in paths if p != gone]
    stage = C.mk_stage([{'nodes': dict([(p, {'attrs': {'v': {'value': 'v' + p}}}) for p in paths])}])
    layer = stage.top_layer
    at = H.choice('at', [p for p in paths if p != '/w'])
    if H.bool('warm'):
        for p in paths:
            layer.descendants(p)
            layer.children(p, RET.Path, include_implied=True)
    par, _, name = at.rpartition('/')
    nodes = dict([(p, layer.lookup(p)) for p in paths])
    if case['op'] == 'rename':
        name = 'n' + H.str('new', 1, alphabet=LET)
        stage.set_node_name(nodes[at], name, layer)
    else:
        par = H.choice('to', ['', '/w', '/a', '/o'] + (['/w/k6'] if at != '/w/k6' else []))
        H.assume(par != at.rpartition('/')[0] and not (par + '/').startswith(at + '/'))
        stage.parent_nodes([nodes[at]], par or '/', layer)
    consistent(H, layer, len([p for p in layer._nodes_path_as_key]))
    for p in paths:
        q = par + '/' + name + p[len(at):] if p == at or p.startswith(at + '/') else p
        H.check(layer.lookup(q) is nodes[p] and nodes[p].v == 'v' + p, 'every node of a long layer: ' + p)
        H.check(H.eq(getattr(nodes[p], 'v' + C.META.SOURCE)[1], q), 'its attributes come from its path')
        if p != at and q != p:
            H.check(layer.lookup(p) is None, 'nothing stays at the old place')
    if at in row and case['op'] == 'rename':
        H.check(H.eq(order_of(nodes['/w']), [name if r == at else r[3:] for r in row[1:]]), 'its place among many')
    H.reach('long')


def h_order(H, case):
    """Child orders that differ from the order of creation."""
    op, n = case['op'], case['n']
    kids = [H.str('k%d' % i, 1, alphabet=LET) for i in range(n)]
    for i in range(n):
        for j in range(i):
            H.assume(H.not_(H.eq(kids[i], kids[j])))
    perm = [kids[-1]] + kids[:-1]
    root = '' if op == 'world' else '/p'
    nodes = {'/q': {'child_order': ['o'], 'attrs': {}}, '/q/o': {}}
    if root:
        nodes['/p'] = {'child_order': perm}
    for k in kids:
        nodes[root + '/' + k] = {}
    H.assume(H.not_(H.any_of([H.any_of([H.eq(k, x) for x in 'qpo']) for k in kids])))
    stage = C.mk_stage([{'nodes': nodes}])
    layer = stage.top_layer
    kid = layer.lookup(root + '/' + kids[0])
    if op == 'rename':
        new = H.str('new', 1, alphabet=LET)
        H.assume(H.not_(H.any_of([H.eq(k, new) for k in kids])))
        stage.set_node_name(kid, new, layer)
        H.check(H.eq(order_of(layer.lookup('/p')), [perm[0], new] + perm[2:]),
                'the new name takes the place of the old one')
        H.check(H.eq(layer.children('/p', RET.Path, ordered=True),
                     ['/p/' + x for x in [perm[0], new] + perm[2:]]), 'ordered children')
    else:
        stage.parent_nodes([kid], '/q', layer)
        H.check(H.eq(order_of(layer.lookup('/q')), ['o', kids[0]]), 'the new parent names it last')
        if op == 'move':
            H.check(H.eq(order_of(layer.lookup('/p')), [perm[0]] + perm[2:]), 'the old one no more')
        stage.parent_nodes([kid], root or '/', layer)
        H.check(order_of(layer.lookup('/q')) == ['o'], 'and back')
        if op == 'move':
            H.check(H.eq(order_of(layer.lookup('/p')), [perm[0]] + perm[2:] + [kids[0]]), 'it comes last')
    H.reach('order')
