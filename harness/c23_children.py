from nxt import nxt_layer, nxt_node, nxt_path
from harness import common as C

PROPERTY = 'C23'
RET = C.RET
BOUNDS = {
    'quick': 'layers of up to 3 nodes at depths 1-3 (parents present or implied) with symbolic '
             'one-character names (every character but / and .), queried twice in every pair of '
             'return forms; ordered queries over 3 children with symbolic child order; '
             'child cache kept through one add or remove',
    'thorough': 'layers of up to 4 nodes, depth up to 4, names of one or two characters'}
BOUNDS['quick'] += '; long: a chain of 7 levels with a gap and a side branch anywhere'
REACH = ['deep', 'children', 'descendants', 'implied', 'ordered', 'world', 'cache', 'above']
ASSUMPTIONS = ['node paths of a layer are distinct (they are dict keys)',
               'child orders hold no name twice',
               'ordered queries are asked about nodes that exist']

SHAPES_Q = [[1], [1, 1], [1, 2], [2, 2], [1, 3], [1, 1, 2], [1, 2, 2], [1, 2, 3], [2, 3, 3]]
SHAPES_T = SHAPES_Q + [[1, 1, 2, 2], [1, 2, 2, 3], [1, 2, 3, 3], [1, 2, 3, 4], [1, 1, 2, 3],
                       [2, 2, 3, 3]]
FORMS = ['Node', 'Path', 'NodeTable', 'NameDict', 'Boolean', 'implied']


def cases(tier):
    q = tier == 'quick'
    out = []
    for sh in (SHAPES_Q if q else SHAPES_T):
        for at in range(len(sh) + 2):
            out.append(dict(h='query', shape=sh, at=at, ln=1))
            if not q and len(sh) <= 2:
                out.append(dict(h='query', shape=sh, at=at, ln=2))
    for sh in (SHAPES_Q if q else SHAPES_T):
        for at in range(len(sh)):
            if sh[at] > 1:
                out.append(dict(h='above', shape=sh, at=at, ln=1))
    out.append(dict(h='above', shape=[1, 2, 3, 4], at=3, ln=1))
    out.append(dict(h='above', shape=[1, 3, 4], at=2, ln=1))
    out += [dict(h='deep', n=7)]
    out += [dict(h='ordered', n=n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    for n in (0, 1, 2):
        out += [dict(h='cache', n=n, op=op, form=f) for op in ('add', 'remove', 'clear')
                for f in ('Node', 'Path', 'NodeTable', 'NameDict', 'Boolean')]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def mk_layer(H, shape, ln):
    """Paths as name lists; the first name of a deeper path is its own symbol, so every relation
    between the paths (parent, ancestor, unrelated, prefix of a name) is covered."""
    names, paths = [], []
    for i, depth in enumerate(shape):
        ns = [H.str('n%d.%d' % (i, d), ln if d == 0 else 1, exclude='/.') for d in range(depth)]
        names.append(ns)
        paths.append('/' + '/'.join(ns))
    for i in range(len(shape)):
        for j in range(i):
            if shape[i] == shape[j]:
                H.assume(H.not_(H.eq(names[i], names[j])))
    layer = nxt_layer.SpecLayer.load_from_layer_data(
        {'nodes': dict([(p, {}) for p in paths])})
    return names, paths, layer


def is_child(H, ns, q):
    return len(ns) == len(q) + 1 and bool(H.eq(ns[:len(q)], q))


def is_desc(H, ns, q):
    return len(ns) > len(q) and bool(H.eq(ns[:len(q)], q))


def same_set(H, got, want):
    got, want = list(got), list(want)
    if len(got) != len(want):
        return False
    for w in want:
        if not bool(H.any_of([H.eq(w, g) for g in got])):
            return False
    return True


def ask(H, layer, what, q, form):
    """-> list of paths, or a boolean"""
    if form == 'implied':
        r = getattr(layer, what)(q, RET.Path, include_implied=True)
        return list(r)
    r = getattr(layer, what)(q, getattr(RET, form))
    if form == 'Path':
        return list(r)
    if form == 'Node':
        return [layer.get_node_path(n) for n in r]
    if form == 'NodeTable':
        for p, n in r:
            H.check(layer.lookup(p) is n, 'table pairs path and node')
        return [p for p, n in r]
    if form == 'NameDict':
        out = []
        for k, n in r.items():
            p = layer.get_node_path(n)
            H.check(H.eq(nxt_path.node_name_from_node_path(p), k), 'name dict pairs name and node')
            out.append(p)
        return out
    return bool(r)


def h_deep(H, case):
    """a chain of nodes, one of them maybe only implied, with a side branch anywhere"""
    n = case['n']
    paths = ['/' + '/'.join(['d%d' % j for j in range(i + 1)]) for i in range(n)]
    gone = H.choice('gone', [None] + paths[:-1])
    side = H.choice('side', ['/'] + paths)
    extra = side.rstrip('/') + '/' + H.str('extra', 1, exclude='/.')
    there = [p for p in paths if p != gone] + [extra]
    layer = nxt_layer.SpecLayer.load_from_layer_data({'nodes': dict([(p, {}) for p in there])})
    at = H.choice('at', ['/'] + paths)
    pre = at.rstrip('/') + '/'
    below = [p for p in paths if p.startswith(pre)]
    if side == at or side.startswith(pre):
        below.append(extra)
    kids = [p for p in below if '/' not in p[len(pre):]]
    H.check(same_set(H, layer.children(at, RET.Path, include_implied=True), kids), 'children in a chain')
    H.check(same_set(H, layer.descendants(at, RET.Path, include_implied=True), below), 'descendants in a chain')
    H.check(same_set(H, layer.children(at, RET.Path), [k for k in kids if k != gone]), 'children that exist')
    if at != '/':
        above = [p for p in paths[::-1] if at.startswith(p + '/')]
        H.check(list(layer.ancestors(at, RET.Path, include_implied=True)) == above, 'ancestors in a chain')
    H.reach('deep')


def h_query(H, case):
    names, paths, layer = mk_layer(H, case['shape'], case['ln'])
    at = case['at']
    if at < len(paths):
        qn, q = names[at], paths[at]
    elif at == len(paths):
        qn, q = [], '/'
        H.reach('world')
    else:                                       # a path that may or may not be there
        qn = [H.str('q', 1, exclude='/.')]
        q = '/' + qn[0]
    kids = [p for p, ns in zip(paths, names) if is_child(H, ns, qn)]
    desc = [p for p, ns in zip(paths, names) if is_desc(H, ns, qn)]
    dn = [ns for ns in names if is_desc(H, ns, qn)]
    if qn:
        # without implied paths, descendants are reached through nodes that exist
        desc = [p for p, ns in zip(paths, names) if is_desc(H, ns, qn) and all(
            [bool(H.any_of([H.eq(ns[:d], o) for o in names if len(o) == d]))
             for d in range(len(qn) + 1, len(ns))])]
    kids_i, desc_i = list(kids), ['/' + '/'.join(ns) for ns in dn]
    for ns in dn:
        for d in range(len(qn) + 1, len(ns)):
            p = '/' + '/'.join(ns[:d])
            if d == len(qn) + 1 and not bool(H.any_of([H.eq(p, k) for k in kids_i])):
                kids_i.append(p)
            if not bool(H.any_of([H.eq(p, k) for k in desc_i])):
                desc_i.append(p)
    pairs = H.choice('queries', [a + ' ' + b for a in ('c', 'd') for b in ('c', 'd')])
    f1 = H.choice('form1', FORMS)
    f2 = H.choice('form2', FORMS)
    for what, form in zip(pairs.split(), (f1, f2)):
        if what == 'd' and form in ('NameDict', 'Boolean'):
            what = 'c'
        got = ask(H, layer, 'children' if what == 'c' else 'descendants', q, form)
        H.observe(what + form, got if form == 'Boolean' else len(got))
        if form == 'Boolean':
            H.check(got == bool(kids), 'boolean form')
            continue
        if what == 'c':
            want = kids_i if form == 'implied' else kids
            H.check(same_set(H, got, want), 'children are the paths one name longer: ' + form)
            H.reach('children')
        else:
            want = desc_i if form == 'implied' else desc
            H.check(same_set(H, got, want), 'descendants are the paths below: ' + form)
            H.reach('descendants')
        if form == 'implied':
            H.reach('implied')


def h_above(H, case):
    """The nodes above a node, nearest first, by each form."""
    names, paths, layer = mk_layer(H, case['shape'], case['ln'])
    qn, q = names[case['at']], paths[case['at']]
    above, implied = [], []
    for d in range(len(qn) - 1, 0, -1):
        implied.append('/' + '/'.join(qn[:d]))
        for p, ns in zip(paths, names):
            if len(ns) == d and bool(H.eq(ns, qn[:d])):
                above.append((p, ns[-1]))
    want = [p for p, _ in above]
    at = layer.lookup(q) if H.bool('by node') else q
    form = H.choice('form', FORMS)
    if form == 'implied':
        got = layer.ancestors(q, RET.Path, include_implied=True)
        H.check(same_set(H, got, implied), 'every path above, with or without a node')
        H.reach('above')
        return
    got = layer.ancestors(at, getattr(RET, form))
    if form == 'Boolean':
        H.check(got is bool(want), 'boolean form')
    elif form == 'NameDict':
        for i in range(len(above)):
            for j in range(i):
                H.assume(H.not_(H.eq(above[i][1], above[j][1])))
        H.check(len(got) == len(above), 'every node above has its name')
        for p, n in above:
            found = [x for k, x in got.items() if bool(H.eq(k, n))]
            H.check(len(found) == 1 and found[0] is layer.lookup(p), 'name dict pairs name and node')
    else:
        if form == 'Node':
            got = [layer.get_node_path(n) for n in got]
        elif form == 'NodeTable':
            for p, n in got:
                H.check(layer.lookup(p) is n, 'table pairs path and node')
            got = [p for p, n in got]
        H.observe(form, len(got))
        H.check(H.eq(list(got), want), 'the nodes above, nearest first: ' + form)
    H.reach('above')


def h_ordered(H, case):
    """The children of /a and a child order that may name some of them, in any order, and others."""
    n = case['n']
    kn = ['x', 'y', 'z', 'w'][:n]
    order = []
    pool = kn + ['gone', 'b']
    for i in range(min(n + 1, 3)):
        c = H.choice('o%d' % i, ['<end>'] + [p for p in pool if p not in order])
        if c == '<end>':
            break
        order.append(c)
    nodes = {'/a': {}, '/b': {}, '/a/x/deep': {}, '/ab/x': {}}
    for k in kn:
        nodes['/a/' + k] = {}
    layer = nxt_layer.SpecLayer.load_from_layer_data({'nodes': nodes})
    nxt_node_attr = nxt_node.INTERNAL_ATTRS.CHILD_ORDER
    setattr(layer.lookup('/a'), nxt_node_attr, list(order))
    first = H.choice('warm', [False, True])
    if first:
        layer.children('/a')
    for form in ('Path', 'Node', 'NodeTable'):
        r = layer.children('/a', getattr(RET, form), ordered=True)
        if form == 'Node':
            r = [layer.get_node_path(x) for x in r]
        elif form == 'NodeTable':
            r = [p for p, x in r]
        got = [nxt_path.node_name_from_node_path(p) for p in r]
        H.observe(form, got)
        listed = [o for o in order if o in kn]
        H.check(got[:len(listed)] == listed, 'listed children come in child order: ' + form)
        H.check(sorted(got) == sorted(kn), 'every child once: ' + form)
    desc = layer.descendants('/a', ordered=True)
    H.observe('desc', desc)
    want = []
    for k in [nxt_path.node_name_from_node_path(p)
              for p in layer.children('/a', RET.Path, ordered=True)]:
        want.append('/a/' + k)
        if k == 'x':
            want.append('/a/x/deep')
    H.check(desc == want, 'ordered descendants: depth first in child order')
    H.reach('ordered')


def h_cache(H, case):
    """The cache follows additions and removals made through its own maintenance calls."""
    n, op, form = case['n'], case['op'], case['form']
    ks = []
    for i in range(n):
        k = H.str('k%d' % i, 1, exclude='/.')
        for o in ks:
            H.assume(H.not_(H.eq(k, o)))
        ks.append(k)
    layer = nxt_layer.SpecLayer.load_from_layer_data(
        {'nodes': dict([('/a', {}), ('/b', {})] + [('/a/' + k, {}) for k in ks])})
    warm = H.choice('warm', [None, 'Node', 'Path', 'NodeTable', 'NameDict', 'Boolean'])
    if warm:
        ask(H, layer, 'children', '/a', warm)
    elif op == 'add':
        return                      # the add call starts from an existing cache (see Stage.add_node)
    want = ['/a/' + k for k in ks]
    if op == 'add':
        new = H.str('new', 1, exclude='/.')
        for o in ks:
            H.assume(H.not_(H.eq(new, o)))
        node = nxt_node.create_spec_node({'name': new}, layer, '/a')
        path = '/a/' + new
        layer.children('/a')
        layer._nodes_path_as_key[path] = node
        layer._nodes_node_as_key[node] = path
        layer.add_child_to_child_cache('/a', path, node)
        want.append(path)
    elif op == 'remove' and ks:
        path = want.pop(0)
        node = layer.lookup(path)
        layer.remove_child_from_child_cache('/a', path, node)
        layer._nodes_path_as_key.pop(path)
        layer._nodes_node_as_key.pop(node)
    else:
        layer.clear_node_child_cache('/a')
    got = ask(H, layer, 'children', '/a', form)
    if form == 'Boolean':
        H.check(got == bool(want), 'boolean after ' + op)
    else:
        H.check(same_set(H, got, want), 'children after ' + op)
    H.observe('n', len(want))
    H.reach('cache')
