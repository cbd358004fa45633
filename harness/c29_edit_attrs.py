import json

from nxt import nxt_layer, nxt_node, nxt_path
from nxt import stage as nxt_stage
from harness import common as C

PROPERTY = 'C29'
IA = C.IA
META = C.META
RET = C.RET
LET = 'abcdefghijklmnopqrstuvwxyz'
BOUNDS = {
    'quick': 'one edit (add, create, set value or comment, rename, delete) of a node with up to 3 '
             'attributes with symbolic values and comments, on either of two layers, muted or not, beside '
             'a sibling and a stronger or weaker node with the same attributes; transfers between two '
             'nodes, out of a layer and out of the composite of two layers (own, inherited and instanced '
             'attributes), followed by an edit on either side; duplicates of every node of trees of up to '
             '5 nodes with names taken next to it, followed by an edit on either side; values that hold lists '
             'and dicts, shared by no two of: original, duplicate, target of a transfer, saved data',
    'thorough': 'two edits in a row'}
BOUNDS['quick'] += '; long: duplicates of 6 levels and next to 12 taken names'
REACH = ['add', 'add taken', 'create', 'value', 'comment', 'rename', 'rename taken', 'delete', 'muted',
         'transfer', 'localise', 'inherited', 'not shared', 'duplicate', 'below', 'only itself', 'other layer',
         'deep']
ASSUMPTIONS = ['attribute values are text, or lists and dicts of text and integers', 'data given to add_node becomes part '
               'of the node (the existing tests rely on it)', 'an attribute is not renamed to its own name',
               'nodes are duplicated on the layer that holds them, or without their descendants on another',
               'the recorded type of an attribute is judged where it is kept (set, rename, duplicate)']
# letters only, so that every value is of type 'raw'
ATTRS = ['p', 'q', 'pq']


def cases(tier):
    out = []
    for at in (0, 1):
        for op in ('add', 'create', 'value', 'comment', 'both', 'rename', 'delete'):
            out.append(dict(h='edit', ops=[op], at=at))
    for kind in ('spec', 'comp', 'local', 'local all', 'other all'):
        out.append(dict(h='transfer', kind=kind))
    for tree in sorted(DUPS):
        for t in sorted(DUPS[tree]):
            for desc in (True, False):
                out.append(dict(h='dup', tree=tree, t=t, desc=desc))
    out += [dict(h='dupto', t=t) for t in ('/s', '/s/k')]
    out += [dict(h='deep', how=how, shape=sh) for how in DEEP for sh in ('list', 'dict', 'both')]
    if tier != 'quick':
        ops = ('add', 'value', 'comment', 'rename', 'delete')
        out += [dict(h='edit', ops=[a, b], at=at) for a in ops for b in ops for at in (0, 1)]
    return out


def run(H, case):
    H.stub(nxt_stage.determine_nxt_type, lambda value: 'raw')
    # only asked whether a value can be saved, and all values are text here
    C.JsonStore(H)
    globals()['h_' + case['h']](H, case)


def local(node):
    """name -> [value, comment, type] of the attributes of a layer's node"""
    out = {}
    for k in list(vars(node)):
        if k in IA.PROTECTED or k.endswith(META._suffix) or k.startswith('__'):
            continue
        out[k] = [getattr(node, k), getattr(node, k + META.COMMENT, None), getattr(node, k + META.TYPE, None)]
    return out


def rest(node):
    return [list(getattr(node, IA.COMPUTE)), getattr(node, IA.COMMENT), getattr(node, IA.ENABLED),
            getattr(node, IA.EXECUTE_IN), getattr(node, IA.INSTANCE_PATH), list(getattr(node, IA.CHILD_ORDER))]


def leftovers(node):
    """metas of attributes that are not there"""
    have = set(local(node))
    return [k for k in vars(node) for m in META.ALL if k.endswith(m) and k[:-len(m)] not in have and
            k[:-len(m)] not in IA.ALL]


def snap(stage):
    out = {}
    for i, l in enumerate(stage._sub_layers):
        for p in C.all_paths(l):
            n = l.lookup(p)
            out[i, p] = [local(n), rest(n)]
    return out


def same(H, got, want, msg, skip=()):
    H.check(sorted(got) == sorted(want), 'the same nodes' + msg)
    for k in want:
        if k in skip:
            continue
        H.check(sorted(got[k][0]) == sorted(want[k][0]), 'the same attributes' + msg)
        for a in want[k][0]:
            H.check(H.eq(got[k][0][a], want[k][0][a]), 'with the same content' + msg)
        H.check(H.eq(got[k][1], want[k][1]), 'everything else stays' + msg)


def node_data(H, tag, attrs, code=True):
    d = {'attrs': {}}
    for a in attrs:
        v = d['attrs'][a] = {'value': H.str('v' + tag + a, 1, alphabet=LET)}
        if H.bool('c?' + tag + a):
            v['comment'] = H.str('c' + tag + a, 1, alphabet=LET)
            v['type'] = 'raw'
    if code:
        d['code'] = [H.str('code' + tag, 1)]
    return d


def h_edit(H, case):
    at = case['at']
    have = [a for a in ATTRS if H.bool('has ' + a)]
    muted = H.bool('muted')
    data = [{'nodes': {}}, {'nodes': {}}]
    data[at]['nodes']['/n'] = node_data(H, 'n', have)
    data[at]['nodes']['/m'] = {'attrs': {'p': {'value': 'mp', 'comment': 'mc'}}}
    data[1 - at]['nodes']['/n'] = {'attrs': {'p': {'value': 'op'}, 'x': {'value': 'ox', 'comment': 'oc'}}}
    if muted:
        data[at]['mute'] = True
        H.reach('muted')
    stage = C.mk_stage(data)
    layer = stage._sub_layers[at]
    node = layer.lookup('/n')
    for no, op in enumerate(case['ops']):
        one_edit(H, stage, layer, node, at, op, str(no))


def one_edit(H, stage, layer, node, at, op, tag):
    before = snap(stage)
    was = before[at, '/n'][0]
    have = sorted(was)
    v, c = 'w' + H.str('new v' + tag, 1, alphabet=LET), 'w' + H.str('new c' + tag, 1, alphabet=LET)
    want = dict(was)
    if op in ('add', 'create'):
        name = H.choice('name' + tag, ATTRS + ['x', 'p2'])
        if op == 'add':
            got = stage.add_node_attr(node, name, {'value': v, 'comment': c}, layer)
            H.reach('add taken' if name in have else 'add')
        else:
            H.assume(name not in have)
            stage.node_setattr_data(node, name, layer, True, value=v, comment=c)
            got = name
            H.reach('create')
        H.check(got not in have, 'an added attribute has a name of its own')
        H.check(got == name or name in have, 'the one asked for where it is free')
        now = local(node)
        H.check(got in now, 'it is there')
        H.check(H.eq(now[got][:2], [v, c]), 'with its value and comment')
        H.check(getattr(node, got + META.SOURCE, None) == (layer.real_path, '/n'), 'and its source')
        want[got] = now[got]
    else:
        H.assume(len(have) > 0)
        a = H.choice('which' + tag, have)
        if op in ('value', 'comment', 'both'):
            kw = {}
            if op != 'comment':
                kw['value'] = v if not H.bool('empty' + tag) else ''
            if op != 'value':
                kw['comment'] = c
            create = H.bool('create' + tag)
            stage.node_setattr_data(node, a, layer, create, **kw)
            now = local(node)
            H.check(a in now, 'a changed attribute stays')
            if op == 'comment':
                H.check(H.eq(now[a], [was[a][0], c, was[a][2]]), 'only the comment changes')
            else:
                if kw['value'] == '':
                    H.check(now[a][0] in ('', None), 'an emptied value')
                    H.check(nxt_node.get_opinion(node, a)[1] is False, 'is no opinion')
                else:
                    H.check(H.eq(now[a][0], v), 'the value is set')
                    H.check(now[a][2] == 'raw', 'with its type')
                H.check(H.eq(now[a][1], c if op == 'both' else was[a][1]), 'the comment is set or stays')
                H.check(getattr(node, a + META.SOURCE, None) == (layer.real_path, '/n'), 'its source')
            want[a] = now[a]
            H.reach('comment' if op == 'comment' else 'value')
        elif op == 'delete':
            H.check(stage.delete_node_attr(node, a) is True, 'deleting an attribute that is there')
            H.check(stage.delete_node_attr(node, a) is False, 'and one that is not')
            del want[a]
            H.reach('delete')
        elif op == 'rename':
            to = H.choice('to' + tag, [x for x in ATTRS + ['x', 'p2'] if x != a])
            stage.rename_node_attr(node, a, to, layer)
            now = local(node)
            new = [x for x in now if x not in was]
            H.check(len(new) == 1, 'one new name')
            H.check(new[0] == to or to in have, 'the one asked for where it is free')
            H.check(H.eq(now.get(new[0]), was[a]), 'value, comment and type move')
            H.check(getattr(node, new[0] + META.SOURCE, None) == (layer.real_path, '/n'), 'so does the source')
            del want[a]
            want[new[0]] = was[a]
            H.reach('rename taken' if to in have else 'rename')
    H.check(leftovers(node) == [], 'nothing is left of attributes that are gone')
    before[at, '/n'][0] = want
    same(H, snap(stage), before, '')


def h_transfer(H, case):
    kind = case['kind']
    every = kind.endswith('all')
    data = [{'nodes': {}}, {'nodes': {}}]
    has = [[a for a in ('p', 'q') if H.bool('%d%s' % (i, a))] for i in (0, 1)]
    data[1]['nodes']['/s'] = node_data(H, 's1', has[1], code=False)
    if H.bool('code1'):
        data[1]['nodes']['/s']['code'] = ['s1' + H.str('code1', 1)]
    data[1]['nodes']['/s/k'] = {}
    data[1]['nodes']['/s'].update(comment='cs', execute_in='/e', child_order=['k'])
    if H.bool('enabled'):
        data[1]['nodes']['/s']['enabled'] = H.bool('enabled v')
    upper = kind != 'spec' and H.bool('upper')
    if upper:
        data[0]['nodes']['/s'] = node_data(H, 's0', has[0], code=False)
        if H.bool('code0'):
            data[0]['nodes']['/s']['code'] = ['s0' + H.str('code0', 1)]
    if every:
        data[1]['nodes']['/i'] = {'attrs': {'i': {'value': H.str('vi', 1, alphabet=LET)}, 'p': {'value': 'ip'}}}
        data[1]['nodes']['/s']['instance'] = '/i'
    stage = C.mk_stage(data)
    comp = stage.build_stage(0)
    if kind == 'spec':
        src, lay = stage._sub_layers[1].lookup('/s'), stage._sub_layers[1]
    else:
        src, lay = comp.lookup('/s'), comp
    L0 = stage._sub_layers[0]
    tgt = L0.lookup('/s') if kind.startswith('local') else None
    if tgt is None:
        tgt = stage.add_node('s' if kind.startswith('local') else 't', layer=0, fix_names=False)[0][0]
    else:
        H.reach('localise')
    path = L0.get_node_path(tgt)
    before = snap(stage)
    was = before[0, path][0]
    shown = dict([(a, [getattr(src, a), getattr(src, a + META.COMMENT, None)])
                  for a in ('p', 'q', 'i') if hasattr(src, a)])
    if not every:
        names = set(has[1]) | (set(has[0]) if upper else set())
        names = [a for a in ('p', 'q') if a in names]
    else:
        names = sorted(shown)
        if 'i' in names:
            H.reach('inherited')
    want = [list(getattr(src, IA.COMPUTE)), getattr(src, IA.COMMENT), getattr(src, IA.ENABLED),
            getattr(src, IA.EXECUTE_IN)]
    stage.transfer_node_data(tgt, L0, src, lay, every)
    H.reach('transfer')
    now = local(tgt)
    for a in names:
        H.check(a in now, 'every attribute arrives: ' + a)
        H.check(H.eq(now[a][:2], shown[a]), 'with its value and comment: ' + a)
    for a in was:
        if a not in names:
            H.check(a in now and bool(H.eq(now[a], was[a])), 'other attributes stay: ' + a)
    H.check(sorted(now) == sorted(set(names) | set(was)), 'no other attribute appears')
    got = [list(getattr(tgt, IA.COMPUTE)), getattr(tgt, IA.COMMENT), getattr(tgt, IA.ENABLED),
           getattr(tgt, IA.EXECUTE_IN)]
    if want[0]:
        H.check(H.eq(got[0], want[0]), 'the code arrives')
    else:
        H.check(H.eq(got[0], before[0, path][1][0]), 'no code leaves the code')
    H.check(H.eq(got[1:], want[1:]), 'and comment, enabled state and execute-in')
    H.check(L0.lookup(path) is tgt and '/' + getattr(tgt, IA.NAME) == path and
            getattr(tgt, IA.PARENT_PATH) == '/', 'the target keeps its place')
    H.check(getattr(tgt, IA.SOURCE_LAYER) == L0.real_path and not getattr(tgt, IA.PROXY),
            'and belongs to its layer')
    mid = snap(stage)
    same(H, mid, before, ' elsewhere', skip=[(0, path)])
    # later edits of the one are none of the other
    comp = stage.build_stage(0)
    if H.bool('edit source'):
        stage.set_node_code_lines(stage._sub_layers[1].lookup('/s'), ['later'], comp)
        skip = (1, '/s')
    else:
        stage.set_node_code_lines(tgt, ['later'], comp)
        skip = (0, path)
    same(H, snap(stage), mid, ' after a later edit', skip=[skip])
    H.check(snap(stage)[skip][1][0] == ['later'], 'the edit is made')
    H.reach('not shared')


# tree -> nodes to duplicate
DUPS = {
    'plain': {'/s': ['/s', '/s/k', '/s/k/m']},
    'taken': {'/s': ['/s', '/s1', '/s2', '/s/k'], '/s1': []},
    'wide': {'/s': ['/s', '/s/k', '/s/m'], '/s/k': []},
    'same name': {'/s': ['/s', '/s/s', '/s/s/s'], '/s/s': []},
    'deep': {'/s': ['/s', '/s/a', '/s/a/b', '/s/a/b/c', '/s/a/b/c/d', '/s/a/b/c/d/e']},
    'many taken': {'/s': ['/s', '/s/k'] + ['/s%d' % i for i in range(1, 13)]},
    'digits': {'/s1': ['/s1', '/s1/s', '/s2']},
}


def h_dup(H, case):
    nodes = [d for d in DUPS[case['tree']].values() if d][0]
    t, desc = case['t'], case['desc']
    data = {}
    for i, p in enumerate(nodes):
        if p == t:
            data[p] = node_data(H, p, ['p', 'pq'])
        else:
            data[p] = {'attrs': {'p': {'value': 'v' + p, 'comment': 'm' + p, 'type': 'raw'}}, 'code': [p]}
        data[p].update(comment='c' + p, execute_in='/e' + p, instance='/i' + p)
        if p == max([x for x in nodes if x.startswith(t)]) and H.bool('en' + p):
            data[p]['enabled'] = H.bool('env' + p)
    if case['tree'] == 'wide':
        data['/s']['child_order'] = ['m', 'k'] if H.bool('order') else ['k', 'm']
    stage = C.mk_stage([{'nodes': {'/z': {}}}, {'nodes': data}])
    layer = stage._sub_layers[1]
    for p in nodes:
        layer.children(p)
        layer.children(p, RET.Path, include_implied=True)
    before = snap(stage)
    made = stage.duplicate_node(layer.lookup(t), layer, descendants=desc)[0]
    H.check(len(made) > 0, 'something is made')
    top = layer.get_node_path(made[0])
    H.check(nxt_path.get_parent_path(top) == (t.rsplit('/', 1)[0] or '/'), 'the copy is a sibling')
    H.check(top not in nodes, 'with a name of its own')
    src = [p for p in nodes if p == t or (desc and p.startswith(t + '/'))]
    H.check(len(made) == len(src), 'one copy of each')
    after = snap(stage)
    H.check(len(after) == len(before) + len(src), 'no other node appears')
    par = t.rsplit('/', 1)[0] or '/'
    for p in src:
        q = top + p[len(t):]
        H.check((1, q) in after, 'each below the copy of its parent: ' + p)
        got, want = after[1, q], before[1, p]
        H.check(sorted(got[0]) == sorted(want[0]), 'the attributes are copied: ' + p)
        for a in want[0]:
            H.check(H.eq(got[0][a], want[0][a]), 'with value, comment and type: ' + p)
            H.check(getattr(layer.lookup(q), a + META.SOURCE) == (layer.real_path, q), 'their source: ' + p)
        H.check(H.eq(got[1][:5], want[1][:5]), 'code, comment, enabled, execute-in, instance: ' + p)
        if desc:
            H.check(H.eq(got[1][5], want[1][5]), 'child order: ' + p)
            kids = layer.children(q, RET.Path)
            H.check(sorted(kids) == sorted([top + x[len(t):] for x in src if x.rsplit('/', 1)[0] == p]),
                    'children queries know the copies: ' + p)
        for k in before:
            if k != (1, par):
                H.check(H.eq([after[k][0], after[k][1]], [before[k][0], before[k][1]]), 'the others stay')
        if len(src) > 1:
            H.reach('below')
    if par != '/':
        H.check(after[1, par][0] == before[1, par][0] and after[1, par][1][:5] == before[1, par][1][:5],
                'the parent stays')
        co = after[1, par][1][5]
        H.check([x for x in co if x != top.rsplit('/', 1)[1]] == before[1, par][1][5] and
                len(co) == len(before[1, par][1][5]) + 1, 'and lists the copy once')
    else:
        H.reach('only itself')
    H.reach('duplicate')
    # later edits of the one are none of the other
    comp = stage.build_stage(0)
    mid = snap(stage)
    p = H.choice('edit', src)
    if H.bool('edit copy'):
        p = top + p[len(t):]
    node = layer.lookup(p)
    stage.set_node_code_lines(node, ['later'], comp)
    stage.node_setattr_data(node, 'p', layer, True, value='later')
    same(H, snap(stage), mid, ' after a later edit', skip=[(1, p)])
    got = snap(stage)[1, p]
    H.check(got[1][0] == ['later'] and got[0]['p'][0] == 'later', 'the edit is made')
    H.reach('not shared')


def h_dupto(H, case):
    """Onto another layer, where its parents and a node of its name may exist."""
    t = case['t']
    data = {'/s': node_data(H, 's', ['p']), '/s/k': node_data(H, 'k', ['p', 'q'])}
    other = {'/z': {}}
    for p in ('/s', '/s/k'):
        if H.bool('there' + p) and (p == '/s' or '/s' in other):
            other[p] = {'attrs': {'p': {'value': 'other'}}}
    stage = C.mk_stage([{'nodes': other}, {'nodes': data}])
    L0, L1 = stage._sub_layers
    before = snap(stage)
    made = stage.duplicate_node(L1.lookup(t), L0, descendants=False)[0]
    after = snap(stage)
    top = L0.get_node_path(made[-1])
    H.check((0, top) not in before and (1, top) not in before, 'a path no layer has')
    H.check(nxt_path.get_parent_path(top) == (t.rsplit('/', 1)[0] or '/'), 'below the same parent')
    new = [k for k in after if k not in before]
    want = [(0, top)] + ([(0, '/s')] if t != '/s' and '/s' not in other else [])
    H.check(sorted(new) == sorted(want), 'the copy and the parents it needs')
    got, src = after[0, top], before[1, t]
    H.check(sorted(got[0]) == sorted(src[0]), 'its attributes')
    for a in src[0]:
        H.check(H.eq(got[0][a], src[0][a]), 'with their content')
    H.check(H.eq(got[1][:5], src[1][:5]), 'and the rest')
    for k in before:
        H.check(H.eq(after[k][0], before[k][0]) if k in before else True, 'other nodes keep their attributes')
        H.check(H.eq(after[k][1][:5], before[k][1][:5]), 'and the rest of theirs')
    H.reach('other layer')


DEEP = ('duplicate', 'spec', 'local', 'local all', 'inherited', 'saved')


def h_deep(H, case):
    """a value that holds others belongs to one node"""
    how = case['how']

    def value(tag):
        a, b = H.str('v0' + tag, 1, alphabet=LET), H.int('v1' + tag, 0, 3)
        return {'list': [[a], b], 'dict': {'k': [a, b]}, 'both': [{'k': {'l': [a]}}, [b]]}[case['shape']]

    def inner(v):
        while True:
            w = v[0] if isinstance(v, list) else v.get('k', v.get('l'))
            if not isinstance(w, (list, dict)):
                return v
            v = w
    v = value('')
    code = ['c' + H.str('code', 1, alphabet=LET)]
    data = {'attrs': {'p': {'value': v}}, 'code': code}
    nodes = [{'nodes': {}}, {'nodes': {'/m': {}}}]
    if how == 'inherited':
        nodes[1]['nodes'] = {'/m': {}, '/i': data, '/s': {'instance': '/i'}}
    else:
        nodes[1]['nodes']['/s'] = data
    stage = C.mk_stage(nodes)
    L0, L1 = stage._sub_layers
    comp = stage.build_stage(0)
    if how == 'duplicate':
        two = [L1.lookup('/s'), stage.duplicate_node(L1.lookup('/s'), L1)[0][0]]
    elif how == 'saved':
        two = [L1.lookup('/s'), nxt_layer.SpecLayer.load_from_layer_data(L1.get_save_data()).lookup('/s')]
    else:
        src = L1.lookup('/s') if how == 'spec' else comp.lookup('/s')
        two = [L1.lookup('/i' if how == 'inherited' else '/s'), stage.add_node('t', layer=0)[0][0]]
        stage.transfer_node_data(two[1], L0, src, L1 if how == 'spec' else comp, how in ('local all', 'inherited'))
    H.check(H.eq(two[0].p, value('')) and H.eq(two[1].p, value('')), 'both have the value')
    one = H.choice('changed', [0, 1])
    x = inner(two[one].p)
    if isinstance(x, list):
        x.append('later')
    else:
        x['later'] = 1
    getattr(two[one], IA.COMPUTE).append('later')
    H.check(bool(H.not_(H.eq(two[one].p, value('')))), 'the one is changed')
    H.check(H.eq(two[1 - one].p, value('')), 'a change inside the value of one leaves that of the other')
    if how != 'inherited':
        H.check(H.eq(getattr(two[1 - one], IA.COMPUTE), ['c' + H.str('code', 1, alphabet=LET)]), 'and the code')
    H.reach('deep')
