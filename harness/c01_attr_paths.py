from nxt import nxt_path as P

PROPERTY = 'C01'
BOUNDS = {
    'quick': 'every unicode string of length 0..9 for the split; node paths of up to 6 characters '
             'and attribute names of up to 3; namespaces of up to 4 names of 1..2 characters',
    'thorough': 'every unicode string of length 0..16; node paths up to 10, attribute names up to 5; '
                'namespaces of up to 6 names of 1..3 characters'}
REACH = ['split_attr', 'split_node', 'made', 'namespace', 'namespace_attr', 'absolute']
ASSUMPTIONS = []


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='split', n=n) for n in range(0, 10 if q else 17)]
    for n in range(0, 7 if q else 11):
        for k in range(1, 4 if q else 6):
            out.append(dict(h='make', n=n, k=k))
    for depth in range(1, 5 if q else 7):
        for ln in range(1, 3 if q else 4):
            out.append(dict(h='ns', depth=depth, ln=ln))
    for n in range(1, 8 if q else 12):
        out.append(dict(h='abs', n=n))
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def h_split(H, case):
    s = H.str('s', case['n'])
    node, attr = P.path_attr_partition(s)
    H.observe('parts', [node, attr])
    has_dot = H.any_of([H.eq(c, '.') for c in s])
    ends_dot = H.eq(s[-1:], '.') if len(s) else False
    is_attr = H.all_of([has_dot, H.not_(ends_dot)])
    if attr is None:
        H.check(H.not_(is_attr), 'a path with a dot before its last character is an attribute path')
        H.check(H.eq(node, s), 'a node path is returned unchanged')
        H.reach('split_node')
    else:
        H.check(is_attr, 'only such a path is an attribute path')
        H.check(H.eq(node + '.' + attr, s), 'parts join to the input')
        H.check(H.eq(P.make_attr_path(node, attr), s), 'make_attr_path inverts the split')
        H.check(H.all_of([H.not_(H.eq(c, '.')) for c in attr]), 'attr name follows the last dot')
        H.check(len(attr) > 0, 'attr name is not empty')
        H.reach('split_attr')
    n2 = P.node_path_from_attr_path(s)
    a2 = P.attr_name_from_attr_path(s)
    H.check(H.eq(n2, node), 'node_path_from_attr_path agrees')
    H.check(H.eq(a2, attr), 'attr_name_from_attr_path agrees')
    r = P.is_attr_path(s)
    H.check(H.eq(bool(r), bool(has_dot)), 'is_attr_path iff a dot occurs')


def h_make(H, case):
    node = H.str('node', case['n'])
    attr = H.str('attr', case['k'], exclude='.')
    path = P.make_attr_path(node, attr)
    H.observe('path', path)
    H.check(P.is_attr_path(path), 'made path looks like an attr path')
    n, a = P.path_attr_partition(path)
    H.check(H.eq(n, node), 'node path survives')
    H.check(H.eq(a, attr), 'attr name survives')
    H.reach('made')


def h_ns(H, case):
    names = [H.str('n%d' % i, case['ln'], exclude='/.') for i in range(case['depth'])]
    path = ''
    for n in names:
        path = path + '/' + n
    ns = P.str_path_to_node_namespace(path)
    H.observe('ns', ns)
    H.check(H.eq(list(ns), names), 'namespace lists the names')
    H.check(H.eq(P.node_namespace_to_str_path(ns), path), 'namespace turns back into the path')
    H.reach('namespace')
    attr = H.str('attr', 2, exclude='/.')
    ns2 = P.str_path_to_node_namespace(path + '.' + attr)
    H.check(H.eq(list(ns2), names), 'attribute name is not in the namespace')
    H.reach('namespace_attr')


def h_abs(H, case):
    # any absolute node path, also with odd separators
    path = '/' + H.str('p', case['n'] - 1, exclude='.')
    ns = P.str_path_to_node_namespace(path)
    H.observe('ns', ns)
    H.check(H.eq(P.node_namespace_to_str_path(ns), path), 'namespace turns back into the path')
    H.reach('absolute')
