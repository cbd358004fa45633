from nxt import nxt_path as P

PROPERTY = 'C02'
BOUNDS = {
    'quick': 'absolute node paths of 0..4 names of 1..2 arbitrary characters (no slash); all pairs of '
             'such paths of up to 3 names; every trim depth from 0 to one more than the depth',
    'thorough': 'absolute node paths of 0..6 names of 1..3 characters; all pairs up to 4 names'}
BOUNDS['quick'] += '; long: paths of 7 to 9 names'
REACH = ['single', 'world', 'pair_anc', 'pair_not', 'trim', 'join']
ASSUMPTIONS = ['node names are non-empty and contain no slash']


def shapes(maxdepth, maxlen):
    out = [[]]
    for _ in range(maxdepth):
        pass
    todo = [[]]
    for d in range(maxdepth):
        todo = [s + [l] for s in todo for l in range(1, maxlen + 1)]
        out += todo
    return out


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='single', s=s) for s in shapes(4 if q else 5, 2)]
    if not q:
        out += [dict(h='single', s=[3] * d) for d in range(1, 7)]
    out += [dict(h='single', s=[1] * d) for d in (7, 9)]
    out += [dict(h='pair', s=[1] * 8, t=[1] * d) for d in (5, 7, 8)]
    for s in shapes(3, 2) if q else shapes(4, 2):
        for t in shapes(3, 2) if q else shapes(3, 2) + [[1] * 4]:
            out.append(dict(h='pair', s=s, t=t))
    for s in shapes(3, 2):
        for t in shapes(2, 2)[1:]:
            out.append(dict(h='join', s=s, t=t))
    return out


def mk(H, tag, shape):
    names = [H.str('%s%d' % (tag, i), n, exclude='/') for i, n in enumerate(shape)]
    return names, to_path(names)


def to_path(names):
    if not names:
        return '/'
    p = ''
    for n in names:
        p = p + '/' + n
    return p


def run(H, case):
    globals()['h_' + case['h']](H, case)


def h_single(H, case):
    names, path = mk(H, 'n', case['s'])
    k = len(names)
    parent = P.get_parent_path(path)
    name = P.node_name_from_node_path(path)
    root = P.get_root_path(path)
    depth = P.get_path_depth(path)
    anc = P.all_ancestor_paths(path)
    H.observe('all', [parent, name, root, depth, anc])
    H.check(H.eq(depth, k), 'depth is the number of names')
    if not k:
        H.check(H.eq(parent, ''), 'the world has no parent')
        H.check(H.eq(name, '/'), 'the world is named by the separator')
        H.check(H.eq(list(anc), []), 'the world has no ancestors')
        H.reach('world')
    else:
        H.check(H.eq(parent, to_path(names[:-1])), 'parent drops the last name')
        H.check(H.eq(name, names[-1]), 'name is the last name')
        H.check(H.eq(root, to_path(names[:1])), 'root is the first name')
        H.check(H.eq(list(anc), [to_path(names[:i]) for i in range(k - 1, 0, -1)]),
                'ancestors are the proper prefixes, nearest first')
        H.check(H.eq(P.join_node_paths(parent, name), path), 'parent joined with name')
        H.check(P.is_ancestor(path, '/'), 'the world is an ancestor of every other node')
        H.check(H.not_(P.is_ancestor(path, path)), 'a node is not its own ancestor')
        for a in anc:
            H.check(P.is_ancestor(path, a), 'listed ancestors are ancestors')
            H.check(H.not_(P.is_ancestor(a, path)), 'a descendant is no ancestor')
        H.reach('single')
    d = H.int('d', 0, k + 1)
    t = P.trim_to_depth(path, d)
    H.observe('trim', t)
    for i in range(k + 2):
        H.check(H.any_of([H.not_(H.eq(d, i)), H.eq(t, to_path(names[:i]))]), 'trim keeps the first d names')
    H.reach('trim')


def h_pair(H, case):
    a, pa = mk(H, 'a', case['s'])
    b, pb = mk(H, 'b', case['t'])
    if not a and not b:
        return
    r = P.is_ancestor(pa, pb)
    H.observe('r', bool(r))
    want = len(b) < len(a) and H.all_of([H.eq(x, y) for x, y in zip(a, b)])
    if r:
        H.check(want, 'reported ancestor is a proper prefix')
        H.reach('pair_anc')
    else:
        H.check(H.not_(want), 'a proper prefix is reported as ancestor')
        H.reach('pair_not')


def h_join(H, case):
    a, pa = mk(H, 'a', case['s'])
    b = [H.str('b%d' % i, n, exclude='/') for i, n in enumerate(case['t'])]
    rel = b[0]
    for n in b[1:]:
        rel = rel + '/' + n
    H.check(H.eq(P.join_node_paths(pa, rel), to_path(a + b)), 'joining appends the names')
    H.check(H.eq(P.join_node_paths(pa, tuple(b)), to_path(a + b)), 'joining a tuple appends the names')
    H.reach('join')
