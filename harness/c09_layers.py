from nxt import nxt_layer, nxt_node, nxt_path
from nxt.stage import Stage
from harness import common as C

PROPERTY = 'C09'
IA = C.IA
META = C.META
SRC = META.SOURCE
BOUNDS = {
    'quick': 'composites of up to 3 layers with symbolic mute flags (2 with solo flags), taken at every '
             'index of the stack; per layer up to 2 nodes with symbolic one-character names at '
             'depths 1-2; one attribute with symbolic presence, value, type and comment per layer; '
             'each internal attribute with symbolic presence and value per layer',
    'thorough': 'up to 4 layers, 3 nodes per layer, longer values, every pair of internal attributes'}
BOUNDS['quick'] += '; long: 6 layers, each with an opinion, with the node alone, or muted'
REACH = ['stack', 'exists', 'attr', 'internal', 'override', 'muted', 'two', 'none']
ASSUMPTIONS = ['an attribute a layer lists has a value other than None (what saved files hold)',
               'no instancing (C11, C12) and the attribute is not also inherited from a parent (C11)']

INTERN = ['code', 'comment', 'enabled', 'execute_in', 'start_point']
ATTR = dict(code=IA.COMPUTE, comment=IA.COMMENT, enabled=IA.ENABLED, execute_in=IA.EXECUTE_IN,
            start_point=IA.START_POINT)


def cases(tier):
    q = tier == 'quick'
    out = []
    for shapes in ([[[1], [1]], [[1], [2]], [[2], [2]], [[1, 1], [1]], [[1, 2], [1]], [[1], [1], [1]]] +
                   ([] if q else [[[1, 1], [1, 1]], [[1, 2], [1, 2]], [[2, 2], [2]], [[1, 2], [2], [1]],
                                  [[1], [1], [1], [1]]])):
        for frm in range(len(shapes)):
            out.append(dict(h='exists', shapes=shapes, frm=frm))
    ns = (1, 2, 3) if q else (1, 2, 3, 4)
    for n in ns:
        for frm in range(n):
            if q and n == 3 and frm == 2:
                continue
            for what in ('value', 'type', 'comment'):
                for path in ('/a', '/a/b'):
                    if path != '/a' and (q and n == 3):
                        continue
                    out.append(dict(h='attr', n=n, frm=frm, what=what, path=path, solo=False))
            for k in INTERN:
                out.append(dict(h='internal', n=n, frm=frm, key=k, path='/a'))
    out.append(dict(h='attr', n=2, frm=0, what='value', path='/a', solo=True))
    out += [dict(h='stack', n=n) for n in ((6,) if q else (6, 8))]
    for k in ('code', 'comment'):
        out.append(dict(h='internal', n=2, frm=0, key=k, path='/'))
    out += [dict(h='two', kinds=ks, frm=0) for ks in (['s1', 's1'], ['int', 's0'], ['list', 's1'],
                                                      ['bool', 'int'], ['dict', 'list'])]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def flags(H, stage, n, solo=False):
    out = []
    for i, l in enumerate(stage._sub_layers):
        m = H.bool('mute%d' % i)
        s = H.bool('solo%d' % i) if solo else False
        l.set_muted(m)
        l.set_soloed(s)
        out.append((m, s))
    return out


def active(fl, frm):
    idx = list(range(frm, len(fl)))
    soloed = [i for i in idx if fl[i][1]]
    return [i for i in (soloed or idx) if not fl[i][0]]


def h_exists(H, case):
    shapes, frm = case['shapes'], case['frm']
    names, data = [], []
    for i, sh in enumerate(shapes):
        rows = []
        for j, depth in enumerate(sh):
            rows.append([H.str('n%d.%d.%d' % (i, j, d), 1, exclude='/.') for d in range(depth)])
            for k in range(j):
                if len(rows[k]) == depth:
                    H.assume(H.not_(H.eq(rows[k], rows[j])))
        names.append(rows)
        data.append({'nodes': dict([('/' + '/'.join(r), {}) for r in rows])})
    stage = C.mk_stage(data)
    fl = flags(H, stage, len(data))
    comp = stage.build_stage(frm)
    act = active(fl, frm)
    want = []
    for i in range(len(data)):
        for r in names[i]:
            p = '/' + '/'.join(r)
            on = [k for k in act if bool(H.any_of([H.eq(r, x) for x in names[k]]))]
            node = comp.lookup(p)
            if not on:
                H.check(node is None, 'no node of an inactive or stronger layer')
                H.reach('none')
                continue
            H.check(node is not None, 'every node of an active layer')
            H.check(H.eq(getattr(node, IA.NAME), r[-1]), 'its name')
            H.check(H.eq(getattr(node, IA.SOURCE_LAYER), C.layer_path(on[0])),
                    'its source is the strongest layer that defines it')
            H.check(H.eq(comp.get_node_path(node), p), 'it is found under its path')
            if not bool(H.any_of([H.eq(r, w) for w in want])):
                want.append(r)
            if len(on) > 1:
                H.reach('override')
    got = comp.descendants() if act else []
    H.check(len(got) == len(want), 'no other node')
    H.check(len(set(comp._nodes_path_as_key.keys()) - set(['/'])) == len(want), 'no other path')
    H.reach('exists')
    if len(act) < len(data) - frm:
        H.reach('muted')


def h_attr(H, case):
    n, frm, what, path = case['n'], case['frm'], case['what'], case['path']
    data, has, vals = [], [], []
    for i in range(n):
        nodes, v = {}, None
        if H.bool('node%d' % i):
            nodes[path] = {'attrs': {'other': {'value': i}}}
            if H.bool('attr%d' % i):
                v = H.str('v%d' % i, 1)
                e = {'value': 'x%d' % i}
                e[what] = v
                nodes[path]['attrs']['at'] = e
        if path != '/a' and H.bool('parent%d' % i):
            nodes['/a'] = {}
        has.append(path in nodes)
        vals.append(v)
        data.append({'nodes': nodes})
    stage = C.mk_stage(data)
    fl = flags(H, stage, n, case['solo'])
    comp = stage.build_stage(frm)
    act = active(fl, frm)
    node = comp.lookup(path) if act else None
    on = [i for i in act if has[i]]
    H.check((node is not None) == bool(on), 'the node exists exactly if an active layer defines it')
    if node is None:
        H.reach('none')
        return
    ops = [i for i in on if vals[i] is not None]
    name = {'value': 'at', 'type': 'at' + META.TYPE, 'comment': 'at' + META.COMMENT}[what]
    got = getattr(node, name, None)
    names = stage.get_node_attr_names(node)
    H.check(('at' in names) == bool(ops), 'the attribute exists exactly if an active layer has it')
    H.check(H.eq(node.other, on[0]), 'the other attribute is that of the strongest layer')
    if not ops:
        H.check(got is None, 'nothing shows from inactive layers')
        H.reach('none')
        return
    H.observe('v', got)
    H.check(H.eq(got, vals[ops[0]]), 'the strongest active layer decides the ' + what)
    H.check(H.eq(list(stage.get_node_attr_source(node, 'at')), [C.layer_path(ops[0]), path]),
            'the source names the strongest layer')
    if what == 'value':
        H.check(H.eq(stage.get_node_attr_value(node, 'at', comp, resolved=False), vals[ops[0]]),
                'attribute value query')
    d = stage.get_node_attr_data(node, 'at', comp)
    H.check(H.eq(d['value'], vals[ops[0]] if what == 'value' else 'x%d' % ops[0]), 'attribute data')
    H.reach('attr')
    if len(ops) > 1:
        H.reach('override')
    if len(on) < len([i for i in range(frm, n) if has[i]]):
        H.reach('muted')


def h_stack(H, case):
    """many layers, each with an opinion, with the node alone, or muted"""
    n = case['n']
    data, kinds = [], []
    for i in range(n):
        kinds.append(H.choice('kind%d' % i, ['value', 'node', 'muted']))
        attrs = {} if kinds[i] == 'node' else {'at': {'value': 'v%d' % i}}
        data.append({'nodes': {'/a': {'attrs': attrs, 'comment': None if kinds[i] == 'node' else 'c%d' % i}}})
    stage = C.mk_stage(data)
    for l, k in zip(stage._sub_layers, kinds):
        l.set_muted(k == 'muted')
    node = stage.build_stage(0).lookup('/a')
    ops = [i for i in range(n) if kinds[i] == 'value']
    H.check((node is None) == all([k == 'muted' for k in kinds]), 'the node exists if a layer is active')
    if ops:
        H.check(node.at == 'v%d' % ops[0] and getattr(node, IA.COMMENT) == 'c%d' % ops[0], 'the strongest of many layers')
        H.check(list(stage.get_node_attr_source(node, 'at')) == [C.layer_path(ops[0]), '/a'], 'its source')
        H.reach('stack')
    elif node is not None:
        H.check(not hasattr(node, 'at') and getattr(node, IA.COMMENT) is None, 'no layer has an opinion')


def h_internal(H, case):
    n, frm, key, path = case['n'], case['frm'], case['key'], case['path']
    data, has, vals = [], [], []
    for i in range(n):
        nodes, v = {}, None
        if H.bool('node%d' % i):
            nodes[path] = {}
            if H.bool('op%d' % i):
                if key == 'code':
                    v = [H.str('line%d.%d' % (i, k), 1) for k in range(1 + i % 2)]
                elif key in ('enabled', 'start_point'):
                    v = H.bool('v%d' % i)
                else:
                    v = H.str('v%d' % i, 1 if i else 0)
                nodes[path][key] = v
        has.append(path in nodes)
        vals.append(v)
        data.append({'nodes': nodes})
    stage = C.mk_stage(data)
    fl = flags(H, stage, n)
    comp = stage.build_stage(frm)
    act = active(fl, frm)
    node = comp.lookup(path) if act else None
    on = [i for i in act if has[i]]
    if path != '/':
        H.check((node is not None) == bool(on), 'the node exists exactly if an active layer defines it')
    if not on:
        H.reach('none')
        return
    got = getattr(node, ATTR[key])
    ops = [i for i in on if vals[i] is not None]
    if not ops:
        H.check(not nxt_node.has_opinion(got), 'nothing shows from inactive layers')
        H.reach('none')
        return
    H.observe('v', got)
    H.check(H.eq(got, vals[ops[0]]), 'the strongest active layer decides: ' + key)
    H.check(H.eq(list(stage.get_node_attr_source(node, ATTR[key])), [C.layer_path(ops[0]), path]),
            'the source names the strongest layer')
    H.reach('internal')
    if len(ops) > 1:
        H.reach('override')


def mk(H, tag, kind):
    if kind[0] == 's':
        return H.str(tag, int(kind[1:]))
    if kind == 'int':
        return H.int(tag, -1, 2)
    if kind == 'bool':
        return H.bool(tag)
    if kind == 'list':
        return [H.int(tag, 0, 1)]
    return {'k': H.str(tag, 1)}


def same(H, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and H.all_of([H.eq(a[k], b.get(k)) for k in a])
    if isinstance(a, list) or isinstance(b, list) or isinstance(b, dict):
        return isinstance(a, list) and isinstance(b, list) and H.eq(a, b)
    return H.all_of([isinstance(a, str) is isinstance(b, str), H.eq(a, b)])


def h_two(H, case):
    """Values of every kind, falsy ones included; layers differ in which attributes they state."""
    k0, k1 = case['kinds']
    a0, b1, c0, c1 = mk(H, 'a0', k0), mk(H, 'b1', k1), mk(H, 'c0', k0), mk(H, 'c1', k1)
    data = [{'nodes': {'/n': {'attrs': {'a': {'value': a0, 'type': 't0'}, 'c': {'value': c0}}}}},
            {'nodes': {'/n': {'attrs': {'b': {'value': b1, 'comment': 'k1'},
                                        'c': {'value': c1, 'comment': 'k2', 'type': 't1'}}}}}]
    stage = C.mk_stage(data)
    fl = flags(H, stage, 2)
    comp = stage.build_stage(0)
    act = active(fl, 0)
    if not act:
        H.check(len(comp.descendants()) == 0, 'nothing of muted layers')
        return
    node = comp.lookup('/n')
    if 0 in act:
        H.check(same(H, node.a, a0) if True else 0, 'strong attribute')
        H.check(same(H, node.c, c0), 'the stronger value wins')
        H.check(getattr(node, 'a' + META.TYPE) == 't0', 'its type')
    else:
        H.check(not hasattr(node, 'a') and same(H, node.c, c1), 'only the active layer')
    if 1 in act:
        H.check(same(H, node.b, b1), 'weak attribute')
        H.check(getattr(node, 'b' + META.COMMENT) == 'k1', 'its comment')
        H.check(getattr(node, 'c' + META.COMMENT) == 'k2', 'a comment only the weak layer states')
        H.check(getattr(node, 'c' + META.TYPE) == 't1', 'a type only the weak layer states')
    else:
        H.check(not hasattr(node, 'b') and not hasattr(node, 'c' + META.COMMENT),
                'only the active layer')
    names = sorted(stage.get_node_attr_names(node))
    H.check(names == [x for x in 'abc' if x == 'c' or (x == 'a' and 0 in act) or (x == 'b' and 1 in act)],
            'exactly the attributes of the active layers')
    H.reach('two')
