import json
import os
from nxt import nxt_layer, nxt_node, nxt_path, nxt_io
from harness import common as C

PROPERTY = 'C14'
IA = C.IA
BOUNDS = {
    'quick': 'one attribute with a value of every JSON kind (symbolic strings up to 2 characters, '
             'integers, reals, booleans, lists and dicts of them), type and comment; one node with '
             'symbolic code, comment, child order, execute-in, instance, start point and enabled '
             'state; one layer with symbolic flags, alias, colour, references, overrides and '
             'metadata; three nodes with symbolic names; as data and through a saved file; the cache of a run of up '
             'to three nodes with an attribute of every kind, one that cannot be saved, and symbolic code; '
             'either of two layers saved under its own or another path; a layer with a value that can not be saved',
    'thorough': 'strings up to 4 characters, two attributes, deeper values, four nodes'}
BOUNDS['quick'] += '; long: child orders of 6 names with one repeated anywhere'
REACH = ['long order', 'attr', 'falsy', 'node', 'layer', 'nodes', 'file', 'world', 'edit', 'cache', 'not saved',
         'save as', 'same path', 'unsavable', 'left out']
ASSUMPTIONS = ['None and [] are the absence of an opinion (nxt_node.has_opinion) and need not be '
               'told apart', 'comments and types are absent or not empty',
               'json.dump followed by json.load gives the data back (standard library); reading and '
               'writing the file is stubbed by an in-memory store in the symbolic run and real in '
               'the replay']


def cases(tier):
    q = tier == 'quick'
    out = []
    kinds = ['none', 'str0', 'str1', 'str2', 'int', 'real', 'bool', 'list0', 'list', 'dict0', 'dict',
             'nested', 'absent']
    if not q:
        kinds += ['str3', 'str4', 'deep']
    for k in kinds:
        out += [dict(h='attr', kind=k, n=1, via=v) for v in ('data', 'file')]
        if not q:
            out.append(dict(h='attr', kind=k, n=2, via='data'))
    out += [dict(h='node', world=w, via=v, path='/' if w else '/n')
            for w in (False, True) for v in ('data', 'file')]
    out += [dict(h='node', world=False, via='data', path=p) for p in ('/p/n', '/p/g/n')]
    out += [dict(h='layer', part=p, via=v) for p in ('flags', 'refs', 'overs', 'meta')
            for v in ('data', 'file')]
    shapes = [[1], [1, 1], [1, 2], [1, 1, 2], [2, 2], [1, 2, 3]]
    if not q:
        shapes += [[1, 1, 1, 2], [1, 2, 2, 3]]
    out += [dict(h='nodes', shape=s) for s in shapes]
    out += [dict(h='cache', kind=k, via=v) for k in kinds if k != 'absent' for v in ('data', 'file')]
    out += [dict(h='order', n=6)]
    out += [dict(h='unsavable', depth=d) for d in range(4)]
    out += [dict(h='save_as', k=k, built=b) for k in (0, 1) for b in (False, True)]
    out += [dict(h='edit', op=o) for o in ('code', 'value', 'order', 'mute', 'override',
                                           'collapse', 'position', 'new collapse', 'new position', 'no collapse')]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def val(H, tag, kind):
    if kind == 'none':
        return None
    if kind.startswith('str'):
        return H.str(tag, int(kind[3:]))
    if kind == 'int':
        return H.int(tag, -3, 1000)
    if kind == 'real':
        return H.real(tag, -1, 1)
    if kind == 'bool':
        return H.bool(tag)
    if kind == 'list0':
        return []
    if kind == 'list':
        return [H.str(tag + '.0', 1), H.int(tag + '.1', 0, 5), None]
    if kind == 'dict0':
        return {}
    if kind == 'dict':
        return {'k': H.str(tag + '.k', 1), 'e': ''}
    if kind == 'deep':
        return [[], {}, '', 0, False, {'a': {'b': H.str(tag + '.b', 1)}}]
    return {'a': [H.bool(tag + '.b'), {'b': [H.int(tag + '.i', 0, 3)]}], 'n': 0}


def opinion(v):
    return None if v is None or (isinstance(v, list) and not v) else v


def deq(H, a, b):
    """Structural equality, order of dict entries included."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        return H.all_of([H.all_of([H.eq(x[0], y[0]), deq(H, x[1], y[1])])
                         for x, y in zip(a.items(), b.items())])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return H.all_of([deq(H, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    # 0 and False and 0.0 are different values
    if isinstance(a, bool) is not isinstance(b, bool) or isinstance(a, float) is not isinstance(b, float):
        return False
    if isinstance(a, str) is not isinstance(b, str):
        return False
    return H.eq(a, b)


def clone(x):
    if isinstance(x, dict):
        return dict([(k, clone(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [clone(v) for v in x]
    return x


def again(H, layer, via):
    """-> (saved data, layer loaded from it)"""
    if via == 'data':
        saved = layer.get_save_data()
        return saved, nxt_layer.SpecLayer.load_from_layer_data(clone(saved))
    path = C.scratch('symx_save.nxt')
    layer.real_path = path
    saved = layer.save()
    H.check(saved is not None, 'the layer was saved')
    loaded = nxt_layer.SpecLayer.load_from_filepath(path)
    H.reach('file')
    return saved, loaded


def by_key(x):
    if isinstance(x, dict):
        return dict([(k, clone(x[k])) for k in sorted(x)])
    return clone(x)


def load(H, data):
    C.JsonStore(H)
    return nxt_layer.SpecLayer.load_from_layer_data(data)


def stable(H, layer, saved, layer2):
    """Saving what was loaded gives the same data again."""
    saved2 = layer2.get_save_data()
    H.check(deq(H, clone(saved), clone(saved2)), 'saving again gives the same data')
    H.observe('saved', clone(saved))


def h_attr(H, case):
    names = ['a', 'name', 'x1'][:case['n']]
    attrs, want = {}, {}
    for i, n in enumerate(names):
        kind = case['kind'] if i == 0 else 'int'
        d = {}
        if kind != 'absent':
            d['value'] = val(H, 'v%d' % i, kind)
        if H.bool('has_type%d' % i):
            d['type'] = H.str('type%d' % i, 1)
        if H.bool('has_comment%d' % i):
            d['comment'] = H.str('comment%d' % i, 2)
        attrs[n] = d
        want[n] = clone(d)
    layer = load(H, {'nodes': {'/n': {'attrs': attrs}}})
    saved, l2 = again(H, layer, case['via'])
    for l in (layer, l2):
        node = l.lookup('/n')
        for n in names:
            w = want[n]
            v = getattr(node, n)
            H.check(deq(H, opinion(v), opinion(w.get('value'))), 'attribute value')
            H.check(deq(H, getattr(node, n + C.META.TYPE, None), w.get('type')), 'attribute type')
            H.check(deq(H, getattr(node, n + C.META.COMMENT, None), w.get('comment')),
                    'attribute comment')
        H.check(sorted(nxt_layer.get_node_local_attr_names('/n', [l])) == sorted(names),
                'exactly the attributes')
    if case['kind'] in ('str0', 'dict0', 'int', 'bool', 'real'):
        H.reach('falsy')
    stable(H, layer, saved, l2)
    H.reach('attr')


NODE_KEYS = [('code', IA.COMPUTE), ('enabled', IA.ENABLED), ('execute_in', IA.EXECUTE_IN),
             ('instance', IA.INSTANCE_PATH), ('child_order', IA.CHILD_ORDER),
             ('start_point', IA.START_POINT), ('comment', IA.COMMENT)]


def h_order(H, case):
    """a long child order, one name of it maybe there twice"""
    names = ['k%d' % i for i in range(case['n'])]
    again = H.choice('again', [None] + names)
    listed = list(names)
    if again:
        listed.insert(H.choice('at', list(range(len(names) + 1))), again)
    want = []
    for x in listed:
        if x not in want:
            want.append(x)
    extra = H.choice('extra', [[], ['z'], ['k2', 'z']])
    layer = load(H, {'nodes': dict([('/n', {'child_order': listed})] + [('/n/' + x, {}) for x in extra])})
    saved, l2 = again_(H, layer)
    for l in (layer, l2):
        got = getattr(l.lookup('/n'), IA.CHILD_ORDER)
        H.check([x for x in got if x != 'z'] == want and len(got) == len(set(got)), 'a long child order')
        H.check(('z' in got) == ('z' in extra), 'the child is listed')
    H.reach('long order')


def again_(H, layer):
    return again(H, layer, 'data')


def h_node(H, case):
    path = case['path']
    d = {}
    deep = path.startswith('/p')
    keys = ['code', 'comment'] if case['world'] else [k for k, a in NODE_KEYS]
    for k in keys:
        if not H.bool('has_' + k):
            continue
        if k == 'code':
            n = H.choice('lines', [0, 1, 2])
            d[k] = [H.str('line%d' % i, i) for i in range(n)]
        elif k in ('enabled', 'start_point'):
            d[k] = H.bool(k)
        elif k == 'child_order':
            a, b = H.str('co0', 1), H.str('co1', 1)
            H.assume(H.not_(H.eq(a, b)))
            d[k] = [a, b]
        else:
            d[k] = H.str(k, 2)
    want = clone(d)
    nodes = {path: d}
    kids = []
    if deep:
        nodes['/p'] = {'enabled': True, 'child_order': ['g', 'z']}
        if H.bool('attr'):
            d['attrs'] = {'v': {'value': 'x'}}
        if H.bool('kid'):
            nodes[path + '/k'] = {}
            kids = ['k']
    layer = load(H, {'nodes': nodes})
    saved, l2 = again(H, layer, case['via'])
    if kids:
        want['child_order'] = getattr(layer.lookup(path), IA.CHILD_ORDER)
        H.check('k' in want['child_order'], 'a child is in the child order')
    for l in (layer, l2):
        node = l.lookup(path)
        if 'attrs' in d:
            H.check(node.v == 'x', 'attribute')
        if deep:
            H.check(getattr(l.lookup('/p'), IA.CHILD_ORDER)[-2:] == ['g', 'z'] or path == '/p/n',
                    'child order of the parent')
        for k, attr in NODE_KEYS:
            H.check(deq(H, opinion(getattr(node, attr)), opinion(want.get(k))), k)
    stable(H, layer, saved, l2)
    H.reach('world' if case['world'] else 'node')


LAYER_GET = [('alias', lambda l: l.alias), ('color', lambda l: l.color),
             ('mute', lambda l: l.mute), ('solo', lambda l: l.solo), ('lock', lambda l: l.lock),
             ('references', lambda l: l.get_references()),
             ('sub_layer_paths', lambda l: list(l.sub_layer_paths)),
             ('comp_overrides', lambda l: l.comp_overrides), ('positions', lambda l: l.positions),
             ('collapse', lambda l: l.collapse), ('aliases', lambda l: l.aliases),
             ('colors', lambda l: l.colors), ('locks', lambda l: l.locks)]


def h_layer(H, case):
    part = case['part']
    d = {'nodes': {}, 'alias': 'top'}
    want = {'alias': 'top', 'references': [], 'color': None}
    if part == 'flags':
        if H.bool('has_alias'):
            d['alias'] = want['alias'] = H.str('alias', 2)
        if H.bool('has_color'):
            d['color'] = want['color'] = H.str('color', 1)
        if H.bool('has_lock'):
            d['lock'] = H.bool('lock')
    elif part == 'refs':
        n = H.choice('nrefs', [0, 1, 2, 3])
        d['references'] = [H.str('ref%d' % i, 1 + i % 2) for i in range(n)]
        want['references'] = list(d['references'])
    elif part == 'overs':
        n = H.choice('novers', [0, 1, 2])
        o = {}
        for i in range(n):
            e = {}
            if H.bool('om%d' % i):
                e['mute'] = H.bool('mute%d' % i)
            if H.bool('os%d' % i):
                e['solo'] = H.bool('solo%d' % i)
            o['/L%d.nxt' % (n - i)] = e
        d['comp_overrides'] = o
        want['comp_overrides'] = clone(o)
    else:
        m = {}
        for k in ('positions', 'collapse', 'aliases', 'colors', 'locks'):
            if H.bool('has_' + k):
                v = {'positions': lambda: [H.real('px', -9, 9), H.real('py', -9, 9)],
                     'collapse': lambda: H.bool('co'), 'aliases': lambda: H.str('al', 1),
                     'colors': lambda: H.str('cl', 1), 'locks': lambda: H.bool('lk')}[k]()
                m[k] = {'/p': v}
                want[k] = clone(m[k])
        d['meta_data'] = m
    layer = load(H, d)
    layer.set_muted(H.bool('mute'))
    layer.set_soloed(H.bool('solo'))
    if 'lock' in d:
        layer.set_locked(d['lock'])
    for k, get in LAYER_GET:
        if k in want:
            H.check(deq(H, by_key(get(layer)), by_key(want[k])), 'loaded ' + k)
    saved, l2 = again(H, layer, case['via'])
    for k, get in LAYER_GET:
        a, b = get(layer), get(l2)
        if k in ('mute', 'solo', 'lock'):
            H.check(H.eq(bool(a), bool(b)), k)
            if k != 'lock':
                H.check(H.eq(saved.get(k, False), a), 'the flag is in the saved data: ' + k)
            continue
        H.check(deq(H, by_key(a), by_key(b)), k)
    if case['via'] == 'data':
        stable(H, layer, saved, l2)
    H.reach('layer')


def h_nodes(H, case):
    names, paths = [], []
    for i, depth in enumerate(case['shape']):
        ns = [H.str('n%d.%d' % (i, d), 1, exclude='/.') for d in range(depth)]
        names.append(ns)
        paths.append('/' + '/'.join(ns))
    for i in range(len(paths)):
        for j in range(i):
            if case['shape'][i] == case['shape'][j]:
                H.assume(H.not_(H.eq(names[i], names[j])))
    layer = load(H, {'nodes': dict([(p, {'attrs': {'v': {'value': 'v%d' % i}}})
                                    for i, p in enumerate(paths)])})
    saved, l2 = again(H, layer, 'data')
    H.check(len(l2.descendants()) == len(paths), 'no more nodes')
    for i, p in enumerate(paths):
        a, b = layer.lookup(p), l2.lookup(p)
        H.check(a is not None and b is not None, 'every node under its path')
        H.check(a.v == 'v%d' % i and b.v == 'v%d' % i, 'with its own data')
        H.check(H.eq(getattr(b, IA.NAME), names[i][-1]), 'its name')
        H.check(H.eq(getattr(b, IA.PARENT_PATH), nxt_path.get_parent_path(p)), 'its parent')
        H.check(deq(H, getattr(a, IA.CHILD_ORDER), getattr(b, IA.CHILD_ORDER)), 'its child order')
    stable(H, layer, saved, l2)
    H.reach('nodes')


def h_edit(H, case):
    """The saved data follows an edit and is not tied to the live layer."""
    op = case['op']
    layer = load(H, {'filepath': '/L0.nxt', 'meta_data': {
        'collapse': {'/n': True, '/n/x': True}, 'positions': {'/n': [1, 2]}}, 'nodes': {
        '/n': {'code': [H.str('c0', 1)], 'child_order': ['x', 'y'],
               'attrs': {'v': {'value': [H.int('i', 0, 5)]}}}, '/n/x': {}, '/n/y': {}}})
    node = layer.lookup('/n')
    first = layer.get_save_data()
    keep = clone(first)
    new = H.str('new', 1)
    if op == 'code':
        getattr(node, IA.COMPUTE).append(new)
    elif op == 'value':
        node.v.append(new)
    elif op == 'order':
        setattr(node, IA.CHILD_ORDER, ['y', 'x'])
    elif op == 'mute':
        layer.set_muted(True)
    elif op == 'collapse':
        layer.collapse['/n'] = H.bool('collapsed')
        layer.collapse['/n/y'] = H.bool('collapsed y')
    elif op == 'position':
        layer.positions['/n'] = [H.int('x', 0, 5), 0]
    elif op == 'new collapse':
        layer.collapse = {'/n/y': H.bool('collapsed')}
    elif op == 'new position':
        layer.positions = {'/n/y': [H.int('x', 0, 5), 0]}
    elif op == 'no collapse':
        layer.collapse.pop('/n')
    else:
        layer.set_mute_over('/L1.nxt', True)
    if op in ('code', 'value', 'order', 'mute'):
        H.check(deq(H, clone(first), keep), 'saved data does not change with the layer')
    saved, l2 = again(H, layer, 'data')
    n2 = l2.lookup('/n')
    for attr in (IA.COMPUTE, 'v', IA.CHILD_ORDER):
        H.check(deq(H, getattr(node, attr), getattr(n2, attr)), 'the edit is saved: ' + attr)
    H.check(bool(l2.mute) == bool(layer.mute), 'mute')
    H.check(deq(H, clone(layer.comp_overrides), clone(l2.comp_overrides)), 'overrides')
    H.check(deq(H, by_key(layer.collapse), by_key(l2.collapse)), 'collapse states')
    H.check(deq(H, by_key(layer.positions), by_key(l2.positions)), 'positions')
    stable(H, layer, saved, l2)
    H.reach('edit')


def h_save_as(H, case):
    """A layer saved under another path is where everything in it comes from."""
    load(H, {})
    root = os.environ['TMPDIR']
    stages, layers = C.Stage(), []
    stages._sub_layers = []
    paths = ['/', '/n', '/n/na']
    for i in (0, 1):
        nodes = {}
        for p in paths:
            if not H.bool('node %d %s' % (i, p)):
                continue
            d = {'attrs': {'v%d' % i: {'value': 'x'}}}
            if H.bool('both %d %s' % (i, p)):
                d['attrs']['w'] = {'value': 'y%d' % i}
            nodes[p] = d
        path = os.path.join(root, 'symx_l%d.nxt' % i)
        layer = stages.new_layer(i, {'filepath': path, 'real_path': path, 'nodes': nodes,
                                     'parent_layer': layers[0] if layers else None})
        layer._layer_idx = i
        layers.append(layer)
    if case['built']:
        stages.build_stage()
    layer = layers[case['k']]
    path = os.path.join(root, 'symx_l%d.nxt' % case['k'])
    if H.bool('other path'):
        path = os.path.join(root, 'symx_l2.nxt')
        H.reach('save as')
    else:
        H.reach('same path')
    H.check(layer.save(path) is not None, 'the layer was saved')
    H.check(layer.real_path == path, 'the path of the layer')
    for built in (None, stages.build_stage()):
        for p in paths:
            has = [l for l in layers if l.node_exists(p)]
            for l in has:
                node = l.lookup(p)
                H.check(stages.get_node_source_layer(node) is l, 'the layer of every node')
                for a in [a for a in ('v0', 'v1', 'w') if a in node.__dict__] + [IA.COMPUTE, IA.COMMENT, IA.ENABLED]:
                    H.check(stages.get_node_attr_source(node, a) == (l.real_path, p), 'the source of every opinion')
            if not built or not has:
                continue
            node = built.lookup(p)
            H.check(stages.get_node_source_layer(node) is has[0], 'the strongest layer of a composed node')
            for a in ('v0', 'v1', 'w'):
                own = [l for l in has if a in l.lookup(p).__dict__]
                if own:
                    src, src_path = stages.get_node_attr_source(node, a)
                    H.check(stages.lookup_layer(src) is own[0] and src_path == p, 'the source of a composed opinion')


class Thing(object):
    pass


def h_unsavable(H, case):
    """What can not be saved: a value is left out, anything else leaves the file that was there"""
    load(H, {})
    path, other = C.scratch('symx_was.nxt'), C.scratch('symx_other.nxt')
    bad = H.choice('bad', [set(['a']), object(), b'x', 1j])
    v = [bad, ['a', bad], {'k': bad}, {'k': [{'e': bad}]}][case['depth']]
    attrs = {'a': {'value': H.str('a', 1)}, 'b': {'value': H.int('b', 0, 9)}}
    layer = nxt_layer.SpecLayer.load_from_layer_data({
        'filepath': path, 'real_path': path, 'nodes': {'/n': {'attrs': attrs}, '/m': {'attrs': {'c': {'value': 'x'}}}}})
    node = layer.lookup('/n')
    where = H.choice('where', ['a', 'b', 'comment', 'position', 'color', 'code'])
    if where in ('a', 'b'):
        setattr(node, where, v)
    elif where == 'comment':
        setattr(node, IA.COMMENT, v)
    elif where == 'code':
        setattr(node, IA.COMPUTE, ['pass', v])
    elif where == 'position':
        layer.positions['/n'] = v
    else:
        layer.color = v
    for f in (path, other):
        with open(f, 'w') as o:
            o.write('before')
    to = H.choice('to', [None, path, other])
    if where in ('a', 'b'):
        H.check(layer.save(to) is not None, 'the rest is saved')
        again = nxt_layer.SpecLayer.load_from_filepath(to or path).lookup('/n')
        keep = 'b' if where == 'a' else 'a'
        H.check(H.eq(getattr(again, keep), attrs[keep]['value']), 'with every other value')
        H.check(getattr(again, where, None) is None, 'but the one')
        H.reach('left out')
        return
    H.check(not layer.save(to), 'a save that fails is told')
    for f in (path, other):
        with open(f, 'r') as o:
            H.check(o.read() == 'before', 'the file is as it was')
    H.check(layer.real_path == path, 'the layer stays where it was')
    H.reach('unsavable')


def h_cache(H, case):
    """The record of a run (CacheLayer): the attributes and code of what ran"""
    load(H, {})
    cache = nxt_layer.CacheLayer()
    want = {}
    for p in ('/', '/n', '/n/na'):
        if p != '/n' and not H.bool('ran ' + p):
            continue
        frame = type('frame', (), {})
        code = [H.str('code %s %d' % (p, i), 1, exclude='\n') for i in range(H.choice('lines ' + p, [1, 2]))]
        setattr(frame, IA.NODE_PATH, p)
        setattr(frame, IA.CACHED_CODE, '\n'.join(code))
        w = {'b': H.int('b' + p, 0, 1)}
        if p == '/n':
            w['a'] = val(H, 'a', case['kind'])
            if H.bool('thing'):
                frame.t = Thing()
                H.reach('not saved')
        for k in w:
            setattr(frame, k, w[k])
        cache.add_node(p, frame)
        want[p] = (clone(w), code)
    saved = cache.get_save_data()
    if case['via'] == 'file':
        path = C.scratch('symx_cache.nxt')
        cache.save(path)
        got = nxt_layer.CacheLayer.load_from_filepath(path)
        H.reach('file')
    else:
        got = nxt_layer.CacheLayer.load_from_layer_data(clone(saved))
    H.check(sorted(got.nodes) == sorted(want), 'the nodes that ran')
    for p in ('/', '/n', '/n/na', '/x'):
        node = got.lookup(p)
        if p not in want:
            H.check(node is None, 'no other node')
            continue
        attrs, code = want[p]
        for k in attrs:
            H.check(deq(H, opinion(getattr(node, k)), opinion(attrs[k])), 'what an attribute was at the end')
            H.check(deq(H, getattr(cache.lookup(p), k), attrs[k]), 'saving changes nothing')
        H.check(H.eq(getattr(node, IA.COMPUTE), code), 'the code that ran')
        H.check(H.eq(getattr(node, IA.CACHED_CODE), '\n'.join(code)), 'the code that ran as text')
    H.check(deq(H, clone(saved['nodes']), clone(got.get_save_data()['nodes'])), 'saving it again gives the same')
    H.reach('cache')
