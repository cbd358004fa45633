from nxt import nxt_layer, nxt_node, nxt_path
from harness import common as C

PROPERTY = 'C28'
IA = C.IA
RET = C.RET
BOUNDS = {
    'quick': 'a node with up to 3 children on up to 3 layers, each child on any set of the layers, every '
             'layer listing up to 3 symbolic names (repeated ones, ones that name no node included); '
             'instances of it and chains of two instances with children and orders of their own, on one '
             'and two layers; grandchildren reached through instances',
    'thorough': 'up to 4 children and lists of up to 4 names'}
BOUNDS['quick'] += '; long: 7 children on two layers, their orders rotated and cut'
REACH = ['long', 'layers', 'instance', 'chain', 'stale', 'repeated', 'own first', 'mirrored', 'reverted', 'nothing new', 'placed']
ASSUMPTIONS = ['children have a node on every layer on the way (no missing nodes)',
               'the order of the roots is not judged (the world lists them only where it holds data)']


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        for ln in (2, 3):
            if n * ln < 7 and (n, ln) != (2, 3):
                out.append(dict(h='layers', n=n, kids='ab', ln=ln))
    out.append(dict(h='layers', n=2, kids='abc', ln=2))
    out += [dict(h='layers', n=2, kids='abcdefg', ln=0, rotate=r) for r in ('aceg', 'g', '')]
    out.append(dict(h='layers', n=1, kids='abc', ln=3))
    for chain, lens in ((False, [[2], [2]]), (True, [[2], [1], [1]]), (False, [[1, 1], [2, 0]]),
                        (False, [[2, 0], [1, 1]]), (True, [[1, 1], [1, 0], [1, 0]])):
        out.append(dict(h='inst', n=len(lens[0]), chain=chain, kids='ab', lens=lens))
    out += [dict(h='deep', own=o, n=n) for o, n in ((False, 1), (True, 1), (False, 2))]
    if q:
        return out
    for chain, lens in ((False, [[2, 1], [2, 1]]), (True, [[2], [2], [2]]), (True, [[1, 1], [1, 1], [1, 0]])):
        out.append(dict(h='inst', n=len(lens[0]), chain=chain, kids='ab', lens=lens))
    out.append(dict(h='inst', n=1, chain=False, kids='abc', lens=[[2], [2]]))
    out.append(dict(h='deep', own=True, n=2))
    out.append(dict(h='layers', n=2, kids='ab', ln=3))
    out.append(dict(h='layers', n=3, kids='abc', ln=3))
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def kept(H, part, whole, msg):
    """part is a subsequence of whole"""
    at = 0
    for x in part:
        while at < len(whole) and not bool(H.eq(whole[at], x)):
            at += 1
        H.check(at < len(whole), msg)
        at += 1


def isin(H, x, xs):
    return H.any_of([H.eq(x, y) for y in xs])


def no_repeat(H, xs, msg):
    for i in range(len(xs)):
        H.check(H.not_(isin(H, xs[i], xs[:i])), msg)


def listed(H, name, ln, kids):
    return [H.str('%s%d' % (name, i), 1, alphabet=kids + 'z') for i in range(ln)]


def dedup(H, xs):
    out = []
    for x in xs:
        if not bool(isin(H, x, out)):
            out.append(x)
    return out


def on_layers(H, name, n):
    """Which layers hold a node: any set but the empty one."""
    got = [i for i in range(n) if n == 1 or H.bool('%s@%d' % (name, i))]
    H.assume(len(got) > 0)
    return got


def layer_order(H, layer, path, given, kids, what):
    """The order of the node of one layer: what was listed, and every child of the layer."""
    node = layer.lookup(path)
    co = list(getattr(node, IA.CHILD_ORDER))
    want = dedup(H, given)
    if len(want) < len(given):
        H.reach('repeated')
    no_repeat(H, co, 'no name twice on a layer' + what)
    kept(H, want, co, 'what is listed keeps its order' + what)
    for k in kids:
        H.check(isin(H, k, co), 'every child on the layer is listed' + what)
    for x in co:
        H.check(isin(H, x, list(want) + list(kids)), 'nothing else is listed' + what)
    for x in want:
        if not bool(isin(H, x, kids)):
            H.reach('stale')
    return co


def composed(H, comp, path, orders, src, kids):
    """orders: the layers' orders, strongest first; src: the order of the instance source."""
    node = comp.lookup(path)
    co = list(getattr(node, IA.CHILD_ORDER))
    no_repeat(H, co, 'no name twice: ' + path)
    every = [x for o in orders + [src or []] for x in o]
    for x in every:
        H.check(isin(H, x, co), 'every listed name is there: ' + path)
    for x in co:
        H.check(isin(H, x, every), 'no other name is there: ' + path)
    for k in kids:
        H.check(isin(H, k, co), 'every child is listed: ' + path)
    if orders:
        kept(H, orders[0], co, 'the strongest order is kept: ' + path)
        own = [x for o in orders for x in o]
    else:
        H.check(H.eq(co, list(src or [])), 'the order of the source: ' + path)
    got = comp.children(path, RET.Path, ordered=True)
    want = [x for x in co if bool(isin(H, x, kids))]
    H.check(H.eq([p.rsplit('/', 1)[1] for p in got], want), 'the children come in this order: ' + path)
    return co


def placed(H, strong, weak, co):
    """The only new name of a weaker order, right behind names both orders begin with, goes there."""
    k = 0
    while k < len(strong) and k < len(weak) and bool(H.eq(strong[k], weak[k])):
        k += 1
    if 0 < k < len(weak) and not bool(isin(H, weak[k], strong)):
        if all([bool(isin(H, x, strong)) for x in weak[k + 1:]]):
            H.check(H.eq(co, strong[:k] + [weak[k]] + strong[k:]), 'a new name goes behind the names both begin with')
            H.reach('placed')


def h_layers(H, case):
    n, kids, ln = case['n'], case['kids'], case['ln']
    where = dict([(k, on_layers(H, k, n)) for k in kids]) if 'rotate' not in case else None
    if 'rotate' in case:
        where = dict([(k, [0, 1] if k in case['rotate'] else [1]) for k in kids])
    given = [listed(H, 'o%d.' % i, 1 if i and n == 3 else ln, kids) for i in range(n)]
    if 'rotate' in case:
        given = []
        for i in range(n):
            k = H.choice('from%d' % i, list(range(len(kids))))
            given.append(list(kids[k:] + kids[:k])[:H.choice('len%d' % i, [0, 3, 6, 7])])
        H.reach('long')
    data = []
    for i in range(n):
        nodes = {'/p': {'child_order': list(given[i])}}
        for k in kids:
            if i in where[k]:
                nodes['/p/' + k] = {}
        data.append({'nodes': nodes})
    stage = C.mk_stage(data)
    orders = [layer_order(H, stage._sub_layers[i], '/p', given[i], [k for k in kids if i in where[k]],
                          '') for i in range(n)]
    comp = stage.build_stage(0)
    co = composed(H, comp, '/p', orders, None, kids)
    for i in range(n):
        H.check(H.eq(list(getattr(stage._sub_layers[i].lookup('/p'), IA.CHILD_ORDER)), orders[i]),
                'the layers keep theirs')
    if n > 1:
        H.reach('layers')
        if len(co) == len(orders[0]):
            H.check(H.eq(co, orders[0]), 'weaker orders without new names change nothing')
            H.reach('nothing new')
    if n == 2:
        placed(H, orders[0], orders[1], co)
    for i in range(n):
        back = stage.get_reverted_child_order('/p', stage._sub_layers[i], comp)
        H.check(H.eq(back, [x for x in co if bool(isin(H, x, [k for k in kids if i in where[k]]))]),
                'reverted: the children of the layer in composed order')
        H.reach('reverted')


def h_inst(H, case):
    n, kids = case['n'], case['kids']
    names = ['/p', '/q', '/r'] if case['chain'] else ['/p', '/q']
    src = {'/q': '/p', '/r': '/q'}
    if case['chain'] and not H.bool('along'):
        # the source sorts after what instances it
        names = ['/r', '/q', '/p']
        src = {'/q': '/r', '/p': '/q'}
    where, given = {}, {}
    for r in names:
        for k in kids:
            if (case['chain'] or n > 1) and k == kids[-1]:
                # the last child: only what is instanced has it
                here = [n - 1] if r == names[0] else []
            elif case['chain'] and n > 1:
                here = [0] if H.bool('%s%s' % (r, k)) else []
            else:
                here = [i for i in range(n) if H.bool('%s%s@%d' % (r, k, i))]
            where[r, k] = here
        given[r] = [listed(H, 'o%s%d.' % (r, i), case['lens'][names.index(r)][i], kids) for i in range(n)]
    data = []
    for i in range(n):
        nodes = {}
        for r in names:
            nodes[r] = {'child_order': list(given[r][i])}
            if r in src:
                nodes[r]['instance'] = src[r]
            for k in kids:
                if i in where[r, k]:
                    nodes[r + '/' + k] = {}
        data.append({'nodes': nodes})
    stage = C.mk_stage(data)
    comp = stage.build_stage(0)
    done, have = {}, {}
    for r in names:
        orders = []
        for i in range(n):
            own = [k for k in kids if i in where[r, k]]
            orders.append(layer_order(H, stage._sub_layers[i], r, given[r][i], own, ' ' + r))
        s = src.get(r)
        have[r] = [k for k in kids if where[r, k] or (s and k in have[s])]
        done[r] = composed(H, comp, r, orders, done[s] if s else None, have[r])
        if s:
            H.reach('chain' if s in src else 'instance')
            if orders[0] and done[s] and not bool(H.eq(orders[0][0], done[s][0])):
                H.reach('own first')


def h_deep(H, case):
    """/q/k stands for /p/k, whose children have an order; with own: it has children itself."""
    n = case['n']
    given = [listed(H, 'o%d.' % i, 2, 'ab') for i in range(n)]
    mine = listed(H, 'm', 2, 'abc')
    data = []
    for i in range(n):
        nodes = {'/p': {}, '/p/k': {'child_order': list(given[i])}, '/p/k/a': {}, '/p/k/b': {}}
        if i == 0:
            nodes['/q'] = {'instance': '/p'}
            nodes['/t'] = {'instance': '/q'}
            if case['own']:
                nodes['/q/k'] = {'child_order': list(mine)}
                nodes['/q/k/c'] = {}
        data.append({'nodes': nodes})
    stage = C.mk_stage(data)
    orders = [layer_order(H, stage._sub_layers[i], '/p/k', given[i], 'ab', '') for i in range(n)]
    comp = stage.build_stage(0)
    p = composed(H, comp, '/p/k', orders, None, 'ab')
    own = []
    if case['own']:
        own = [layer_order(H, stage._sub_layers[0], '/q/k', mine, 'c', ' own')]
    kids = 'abc' if case['own'] else 'ab'
    q = composed(H, comp, '/q/k', own, p, kids)
    composed(H, comp, '/t/k', [], q, kids)
    H.reach('mirrored')
