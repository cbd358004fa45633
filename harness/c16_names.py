from nxt import nxt_layer, nxt_node, nxt_path
from nxt.stage import Stage
from harness import common as C

PROPERTY = 'C16'
BOUNDS = {
    'quick': 'requested names of 1 to 3 characters (any character); up to 2 existing siblings or '
             'attributes with symbolic names of up to 3 characters; below the world and below a '
             'node, in one layer and over two layers',
    'thorough': 'requested names of up to 4 characters, up to 3 existing names'}
BOUNDS['quick'] += '; long: up to 14 numbered names taken'
REACH = ['many', 'legal', 'replaced', 'free', 'taken', 'default', 'attr', 'attr_taken', 'added']
ASSUMPTIONS = ['"letters" are what the regular expression class \\w matches in Unicode',
               'the requested name is not empty', 'existing names are distinct and legal']

WORD = 'abN_019'


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='legal', n=n) for n in range(1, 4 if q else 5)]
    for n in (1, 2) if q else (1, 2, 3):
        for sib in ([[1], [n], [n, n + 1], [n + 1, n + 2]] if q else
                    [[n], [n, n + 1], [n + 1, n + 2], [n, n + 1, n + 1]]):
            for parent in ('/', '/p'):
                out.append(dict(h='unique', n=n, sib=sib, parent=parent))
    out += [dict(h='many', name=x, first=f) for x in ('a', 'a2', 'a9') for f in (2, 9, 10)]
    out += [dict(h='none', sib=s) for s in (0, 1, 2)]
    out += [dict(h='attr', n=n, k=k) for n in ((1, 2) if q else (1, 2, 3)) for k in ((0, 1, 2) if q else (0, 1, 2, 3))]
    out += [dict(h='attr_none', ex=e) for e in (0, 1, 2)]
    out += [dict(h='add', n=n, layers=l) for n in (1, 2) for l in (1, 2)]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def legal(H, name):
    if not name:
        return False
    if name[0].isdigit():
        return False
    for c in name:
        if not (c.isalnum() or c == '_'):
            return False
    return True


def h_legal(H, case):
    name = H.str('name', case['n'])
    got = Stage.legalize_name(name)
    H.observe('got', got)
    H.check(legal(H, got), 'a legalised name is legal')
    if legal(H, name):
        H.check(H.eq(got, name), 'a legal name is kept')
        H.reach('legal')
    else:
        H.reach('replaced')
    H.check(H.eq(Stage.legalize_name(got), got), 'legalising twice changes nothing more')


def distinct(H, names):
    for i in range(len(names)):
        for j in range(i):
            if len(names[i]) == len(names[j]):
                H.assume(H.not_(H.eq(names[i], names[j])))


def existing(H, lens):
    # the alphabet holds the digits the name generator tries, so every collision run is reachable
    ns = [H.str('ex%d' % i, n, alphabet='ab_0123') for i, n in enumerate(lens)]
    for n in ns:
        H.assume(H.not_(H.any_of([H.eq(n[0], d) for d in '0123'])))
    distinct(H, ns)
    return ns


def h_unique(H, case):
    parent = case['parent']
    sib = existing(H, case['sib'])
    join = (lambda n: '/' + n) if parent == '/' else (lambda n: parent + '/' + n)
    nodes = {'/p': {}, '/other': {}, '/other/a': {}}
    pairs = [(p, {}) for p in nodes] + [(join(n), {}) for n in sib]
    split = H.choice('split', [False, True])
    if split:
        stage = C.mk_stage([{'nodes': dict(pairs[:-1])}, {'nodes': dict(pairs[-1:])}])
    else:
        stage = C.mk_stage([{'nodes': dict(pairs)}])
    comp = stage.build_stage()
    name = H.str('name', case['n'], alphabet='ab_0123')
    got = stage.get_unique_node_name(name, comp, parent)
    H.observe('got', got)
    taken = sib + (['p', 'other'] if parent == '/' else [])
    H.check(legal(H, got), 'legal')
    for s in taken:
        H.check(H.not_(H.eq(got, s)), 'differs from every sibling')
    if legal(H, name) and not bool(H.any_of([H.eq(name, s) for s in taken])):
        H.check(H.eq(got, name), 'a legal free name is used as it is')
        H.reach('free')
    else:
        H.reach('taken')


def h_many(H, case):
    """many numbered names are taken"""
    name = case['name']
    n = H.int('n', 0, 13)
    taken = [name, 'a'] + ['a%d' % (case['first'] + i) for i in range(14) if bool(n > i)]
    taken += [name + '%d' % i for i in (2, 3)] if H.bool('appended') else []
    gap = H.choice('gap', [None] + taken[2:])
    taken = [t for t in taken if t != gap]
    parent = H.choice('parent', ['/', '/p'])
    join = (lambda x: '/' + x) if parent == '/' else (lambda x: parent + '/' + x)
    stage = C.mk_stage([{'nodes': dict([('/p', {})] + [(join(t), {}) for t in taken])}])
    got = stage.get_unique_node_name(name, stage.build_stage(), parent)
    H.check(legal(H, got) and got not in taken and got != 'p', 'a new name next to many')
    H.reach('many')


def h_none(H, case):
    sib = ['node', 'node2', 'node3'][:case['sib']]
    nodes = dict([('/' + s, {}) for s in sib])
    stage = C.mk_stage([{'nodes': nodes}])
    got = stage.get_unique_node_name(None, stage.build_stage(), '/')
    H.check(legal(H, got) and got not in sib, 'a default name is legal and free')
    H.observe('got', got)
    H.reach('default')


def h_attr(H, case):
    ex = []
    for i in range(case['k']):
        ex.append(H.choice('ex%d' % i, [e for e in ('a', 'a1', 'a2', 'a3', 'b', '_a', 'b2')
                                        if e not in ex]))
    data = dict([(n, {'value': '1'}) for n in ex])
    where = H.choice('where', ['layer', 'comp', 'weak', 'muted', 'soloed'])
    top = {'nodes': {'/a': {'attrs': data}}} if where != 'weak' else {'nodes': {'/a': {}}}
    low = {'nodes': {'/a': {'attrs': data}}} if where == 'weak' else {'nodes': {}}
    if where == 'muted':
        # names are taken on the edited layer itself whether or not it contributes
        top['mute'] = True
    elif where == 'soloed':
        low['solo'] = True
    stage = C.mk_stage([top, low])
    layer = stage.top_layer if where in ('layer', 'muted', 'soloed') else stage.build_stage()
    name = H.str('name', case['n'], alphabet='ab_0123')
    got = stage.get_unique_attr_name('/a', layer, name)
    H.observe('got', got)
    H.check(legal(H, got), 'legal')
    for s in ex:
        H.check(H.not_(H.eq(got, s)), 'unused on the node')
    if legal(H, name) and not bool(H.any_of([H.eq(name, s) for s in ex])):
        H.check(H.eq(got, name), 'a legal free name is used as it is')
        H.reach('attr')
    else:
        H.reach('attr_taken')


def h_attr_none(H, case):
    ex = ['attr', 'attr2', 'attr3'][:case['ex']]
    stage = C.mk_stage([{'nodes': {'/a': {'attrs': dict([(e, {}) for e in ex])}}}])
    got = stage.get_unique_attr_name('/a', stage.top_layer)
    H.check(legal(H, got) and got not in ex, 'a default name is legal and unused')
    H.check(stage.get_unique_attr_name('/a', stage.top_layer, '_name') not in
            nxt_node.INTERNAL_ATTRS.PROTECTED, 'never a reserved name')
    H.observe('got', got)


def h_add(H, case):
    """Adding a node under a taken name never replaces the node that has it."""
    first = H.str('first', case['n'], alphabet='ab1')
    H.assume(H.not_(H.eq(first[0], '1')))
    data = [{'nodes': dict([('/' + first, {'attrs': {'v': {'value': 'old'}}})])}]
    if case['layers'] == 2:
        data = [{'nodes': {}}] + data
    stage = C.mk_stage(data)
    comp = stage.build_stage()
    name = H.str('name', case['n'], alphabet='ab1')
    new, _ = stage.add_node(name=name, layer=stage.top_layer, comp_layer=comp)
    path = stage.top_layer.get_node_path(new[0])
    H.observe('path', path)
    H.check(H.not_(H.eq(path, '/' + first)), 'a new path')
    old = comp.lookup('/' + first)
    H.check(old is not None and H.eq(old.v, 'old'), 'the old node is still there')
    H.check(stage.top_layer.lookup(path) is new[0], 'the new node is found in its layer')
    H.check(comp.lookup(path) is not None, 'and in the composite')
    H.check(len(comp.descendants()) == 2, 'both')
    H.reach('added')
