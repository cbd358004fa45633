import json
import os
import shutil

from nxt import legacy, nxt_io, nxt_layer
from harness import common as C

PROPERTY = 'C19'
IA = C.IA
DIGIT = '0123456789'
LET = 'abcdefghijklmnopqrstuvwxyz'
BOUNDS = {
    'quick': 'version texts of every one- or two-digit major and minor number, with and without a patch '
             'number, missing and malformed ones; files of 0.39-0.99 with up to 4 nested nodes, of 1.0-1.9 '
             'with up to 3 referenced files and their overrides, and of 1.0-1.16 with up to 4 nodes at '
             'depths 1-3; symbolic names, attribute values, types, comments, code, flags and orders, each '
             'present or not',
    'thorough': 'one more node in each, two attributes per node, values of several kinds'}
BOUNDS['quick'] += '; long: 11 nodes at up to 6 levels'
REACH = ['current', 'older', 'newer', 'too old', 'unversioned', 'malformed', 'nested', 'references', 'flat', 'meta', 'converted']
ASSUMPTIONS = ['a node of a file older than 1.0 lists its children in its execute order (the converter '
               'drops those that are not listed)', 'such files have their data section',
               'ui hints (widget_type) need not be kept',
               'json.load of what json.dump wrote gives the data back (stubbed by an in-memory store in the '
               'symbolic run, real in the replay)']


def cases(tier):
    q = tier == 'quick'
    out = []
    for shape in ('d.d', 'd.dd', 'dd.d', 'dd.dd', 'd.d.d', 'd.dd.d', 'd', '', None, 'dd.dd.dd'):
        out.append(dict(h='gate', shape=shape))
    for tree in range(LONG if not q else LONG - 1):
        for what in ('attrs', 'flags', 'names'):
            out.append(dict(h='nested', tree=tree, what=what, two=not q))
            for minor in (('0', '9', '10', '14', '15', '16') if q else [str(i) for i in range(17)]):
                out.append(dict(h='flat', tree=tree, what=what, minor=minor, two=not q))
    for what in ('attrs', 'flags'):
        out.append(dict(h='nested', tree=LONG, what=what, two=False))
        for minor in ('0', '9', '15') if q else [str(i) for i in range(17)]:
            out.append(dict(h='flat', tree=LONG, what=what, minor=minor, two=False))
    for minor in [str(i) for i in range(17)]:
        out.append(dict(h='flat', tree=0, what='top', minor=minor))
    for n in range(0, 4 if q else 5):
        for minor in (['0', '9'] if q else [str(i) for i in range(10)]):
            out.append(dict(h='refs', n=n, minor=minor))
    for minor in ('0', '5', '9', '10', '16'):
        out.append(dict(h='meta', minor=minor))
    out.append(dict(h='meta', minor=None))
    for n in range(1, 4 if q else 6):
        for ext in ('nxt', 'json'):
            out.append(dict(h='convert', n=n, ext=ext, tree=0, what='attrs', minor='9'))
    for minor in (None, '0', '9', '14', '15', '16'):
        for tree in (1, 4):
            for what in ('attrs', 'flags') if tree == 1 or not q else ('flags',):
                out.append(dict(h='convert', n=1, ext='nxt', tree=tree, what=what, minor=minor))
    return out


# index of the parent of each node
TREES = [[None], [None, 0], [None, None], [None, 0, 0], [None, 0, 1], [None, 0, 1, 0], [None, 0, 0, 1, None]]
LONG = 7
TREES.append([None, 0, 1, 2, 3, 4, 0, 0, 1, None, None])


def clone(x):
    if isinstance(x, dict):
        return dict([(k, clone(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [clone(v) for v in x]
    return x


def write(H, data):
    C.JsonStore(H)
    path = C.scratch('symx_old.nxt')
    with open(path, 'w') as f:
        json.dump(data, f)
    return path


def loaded(H, data):
    path = write(H, data)
    out = nxt_io.load_file_data(path)
    H.check(out['filepath'] == path, 'the path asked for')
    H.check(out['real_path'] == os.path.realpath(path), 'the path read')
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def digits(s):
    n = 0
    for c in s:
        n = n * 10 + '0123456789'.index(c)
    return n


def h_gate(H, case):
    shape = case['shape']
    nodes = {'/n': {'attrs': {'v': {'value': 'x', 'type': 'raw'}}}}
    data = {'nodes': clone(nodes)}
    if not shape:
        if shape is not None:
            data['version'] = ''
        out = loaded(H, data)
        H.check(out['nodes'] == nodes, 'read as it is')
        H.reach('unversioned')
        return
    parts = []
    for i, p in enumerate(shape.split('.')):
        parts.append([H.choice('p%d.%d' % (i, j), list(DIGIT)) if len(p) > 1 and not j else
                      H.str('p%d.%d' % (i, j), 1, alphabet=DIGIT) for j in range(len(p))])
    data['version'] = '.'.join([''.join(p) for p in parts])
    if len(parts) == 1:
        try:
            loaded(H, data)
        except IOError:
            H.reach('malformed')
            return
        H.check(False, 'a version without a dot is refused')
    major, minor = [val(p) for p in parts[:2]]
    newer = H.any_of([major > 1, H.all_of([major == 1, minor > 17])])
    old = H.all_of([major == 0, minor < 39])
    try:
        if major == 0:
            data = dict(version=data['version'], data={}, children=[
                {'name': 'n', 'data': {'attributes': clone(nodes['/n']['attrs'])}}])
        out = loaded(H, data)
    except IOError:
        if newer:
            H.reach('newer')
            return
        H.check(old, 'only newer versions and those too old to convert are refused')
        H.reach('too old')
        return
    H.check(H.not_(newer), 'newer data is refused')
    H.check(H.not_(old), 'data too old is refused')
    H.check(sorted(out['nodes']) == ['/n'] and
            clone(out['nodes']['/n']['attrs']) == nodes['/n']['attrs'], 'the nodes')
    if H.all_of([major == 1, minor == 17]):
        H.check(H.eq(out['version'], data['version']), 'current data is left alone')
        H.check(sorted(out) == ['filepath', 'name', 'nodes', 'real_path', 'version'], 'nothing added')
        H.reach('current')
    else:
        H.reach('older')


def val(chars):
    n = 0
    for c in chars:
        n = n * 10 + int(c)
    return n


def features(H, i, what, two=False):
    """-> opinions a node holds, in today's keys"""
    d = {}
    if what == 'attrs':
        if H.bool('attrs%d' % i):
            d['attrs'] = {}
            for n in ['v', 'b'] if two else ['v']:
                a = {}
                for k in ('value', 'type', 'comment'):
                    if H.bool('%s%s%d' % (n, k, i)):
                        a[k] = H.str('%s%s%d.' % (n, k, i), 1)
                if a:
                    d['attrs'][n] = a
            if not d['attrs']:
                d.pop('attrs')
        if H.bool('code%d' % i):
            d['code'] = [H.str('line%d' % i, 1), '']
    elif what == 'flags':
        if H.bool('enabled%d' % i):
            d['enabled'] = H.bool('on%d' % i)
        if H.bool('start%d' % i):
            d['start_point'] = True
        if H.bool('instance%d' % i):
            d['instance'] = '/' + H.str('inst%d' % i, 1)
        if H.bool('exec%d' % i):
            d['execute_in'] = '/' + H.str('in%d' % i, 1)
        if H.bool('comment%d' % i):
            d['comment'] = H.str('note%d' % i, 1)
    return d


def graph(H, case):
    """-> names, paths, opinions, parents of the nodes of a tree"""
    tree = TREES[case['tree']]
    names, paths, opinions = [], [], []
    full = list(range(len(tree))) if len(tree) < 11 else [1, 5, 8, 10]
    if len(tree) > 2 or not case.get('two'):
        full = [H.choice('full', full)]
    for i, up in enumerate(tree):
        name = H.str('name%d' % i, 1, alphabet=LET) if case['what'] == 'names' else 'nab'[:1 + i % 3]
        if case['what'] == 'names' and i == 1:
            name += 'x' if H.bool('long') else ''
        if case['what'] != 'names' and i > 2:
            name += 'z'
        names.append(name)
        path = ('' if up is None else paths[up]) + '/' + name
        for other in paths:
            H.assume(H.not_(H.eq(other, path)))
        paths.append(path)
        if i in full:
            opinions.append(features(H, i, case['what'], case.get('two')))
        else:
            opinions.append({'attrs': {'w': {'value': H.str('w%d' % i, 1)}}} if i % 2 else {})
    for i in range(len(tree)):
        kids = [names[j] for j, up in enumerate(tree) if up == i]
        if kids:
            if len(kids) > 1 and H.bool('swap%d' % i):
                kids.reverse()
            opinions[i]['child_order'] = kids
    return names, paths, opinions, tree


def matches(H, out, paths, opinions):
    nodes = out['nodes']
    H.check(len(nodes) == len(paths), 'as many nodes as before')
    for path, want in zip(paths, opinions):
        found = [n for p, n in nodes.items() if H.eq(p, path)]
        H.check(len(found) == 1, 'every node under its path')
        got = found[0]
        H.check(sorted(got) == sorted(want), 'the opinions of the node')
        for k in want:
            H.check(H.eq(clone(got[k]), clone(want[k])), 'kept: ' + k)


def h_nested(H, case):
    """Data of before 1.0: nodes nested in one another."""
    names, paths, opinions, tree = graph(H, case)
    data = {'version': '0.%s%s.0' % (H.choice('m0', ['4', '9']), H.str('m1', 1, alphabet=DIGIT)),
            'data': {'start_nodes': [p for p, o in zip(paths, opinions) if o.get('start_point')]},
            'children': pre_release(names, opinions, tree)}
    out = loaded(H, data)
    matches(H, out, paths, opinions)
    layer = nxt_layer.SpecLayer.load_from_layer_data(out)
    H.check(sorted(layer._nodes_path_as_key) == sorted(out['nodes']), 'the layer has the nodes')
    H.reach('nested')


def pre_release(names, opinions, tree):
    made, tops = [], []
    for i, up in enumerate(tree):
        o = opinions[i]
        d = {'name': names[i], 'data': {}}
        for new, old in (('instance', 'instance'), ('enabled', 'enabled'), ('code', 'compute'),
                         ('attrs', 'attributes')):
            if new in o:
                d['data'][old] = clone(o[new])
        for new, old in (('execute_in', 'execute_in'), ('comment', 'comment'), ('child_order', 'execute_order')):
            if new in o:
                d[old] = clone(o[new])
        made.append(d)
        if up is None:
            tops.append(d)
        else:
            made[up].setdefault('children', []).append(d)
    return tops


def h_flat(H, case):
    names, paths, opinions, tree = graph(H, case)
    nodes = {}
    for i in range(len(paths)) if not H.bool('backward') else range(len(paths) - 1, -1, -1):
        nodes[paths[i]] = clone(opinions[i])
    extra = {}
    if case['what'] == 'top':
        for k in ('alias', 'color'):
            if H.bool('has ' + k):
                extra[k] = H.str(k, 1)
        for k in ('mute', 'solo', 'lock'):
            if H.bool('has ' + k):
                extra[k] = H.bool(k)
    data = dict(clone(extra), version='1.%s' % case['minor'], nodes=nodes)
    out = loaded(H, data)
    matches(H, out, paths, opinions)
    for k in extra:
        if k in ('mute', 'solo', 'lock') and not extra[k]:
            H.check(not out.get(k), 'kept: ' + k)
        else:
            H.check(H.eq(out.get(k), extra[k]), 'kept: ' + k)
    H.reach('flat')


DISK = []


class Handle(object):
    def __init__(self, path, entry=None):
        self.path, self.entry = path, entry
        if entry is None:
            for e in DISK:
                if e[0] == path:
                    self.entry = e
                    e[1] = ''
                    return
            self.entry = [path, '']
            DISK.append(self.entry)

    def read(self, *a):
        return self.entry[1]

    def write(self, text):
        self.entry[1] += text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def disk_open(path, mode='r', **kw):
    if mode.startswith('r'):
        for e in DISK:
            if e[0] == path:
                return Handle(path, e)
        raise IOError('no such file')
    return Handle(path)


def disk_list(d):
    return [p[len(d) + 1:] for p, _ in DISK if p.startswith(d + '/')]


def disk_real(p):
    return p if p.startswith('/') else os.path.normpath(os.getcwd() + '/' + p)


def h_convert(H, case):
    """The convert command: the result lies next to the file, or in its place when asked to."""
    names, paths, opinions, tree = graph(H, case)
    if case['minor'] is None:
        data = {'version': '0.45.0', 'children': pre_release(names, opinions, tree),
                'data': {'start_nodes': [p for p, o in zip(paths, opinions) if o.get('start_point')]}}
    else:
        data = {'version': '1.%s' % case['minor'],
                'nodes': dict([(p, clone(o)) for p, o in zip(paths, opinions)])}
    del DISK[:]
    H.stub(open, disk_open)
    C.JsonStore(H)
    H.stub(os.listdir, disk_list)
    H.stub(os.path.realpath, disk_real)
    H.stub(os.path.expanduser, lambda p: p)
    stem = H.str('stem', case['n'], alphabet='aC_.')
    where = os.path.join(os.path.realpath(os.environ['TMPDIR']), 'symx.conv%d' % os.getpid())
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    name = stem + '.' + case['ext']
    with open(where + '/' + name, 'w') as f:
        json.dump(data, f)
    replace = H.bool('replace')
    relative = H.bool('relative')
    cwd = os.getcwd()
    os.chdir(where)
    try:
        legacy.cli_file_convert(name if relative else where + '/' + name, replace)
    finally:
        os.chdir(cwd)
    made = name if replace else stem + '_CONVERTED.' + case['ext']
    got = sorted(os.listdir(where))
    H.observe('files', len(got))
    H.check(len(got) == (1 if replace else 2), 'one file is written, in place of the old one when asked to')
    H.check(bool(H.any_of([H.eq(g, made) for g in got])), 'the name of the written file')
    H.check(bool(H.any_of([H.eq(g, name) for g in got])), 'the file is still there')
    with open(where + '/' + made, 'r') as f:
        out = json.load(f)
    matches(H, out, paths, opinions)
    H.check(digits(out['version'].split('.')[1]) == 16, 'the version is the one written today')
    if not replace:
        with open(where + '/' + name, 'r') as f:
            old = json.load(f)
        H.check(H.eq(clone(old), clone(data)), 'the old file is left as it was')
    H.reach('converted')


def h_refs(H, case):
    """Data of before 1.10: referenced files with their overrides."""
    refs, want = [], {'mute': {}, 'solo': {}, 'alias': {}, 'color': {}}
    paths = []
    for i in range(case['n']):
        path = 'l' + H.str('ref%d' % i, 1, alphabet=LET) + '.nxt'
        for p in paths:
            H.assume(H.not_(H.eq(p, path)))
        paths.append(path)
        d = {'path': path}
        for k in ('mute', 'solo') if i < 2 else ('alias',):
            if H.bool('has %s%d' % (k, i)):
                d[k] = H.bool('%s%d' % (k, i)) if k != 'alias' else H.str('alias%d' % i, 1)
                want[k][i] = d[k]
        if not i:
            for k in ('alias', 'color'):
                if H.bool('has %s%d' % (k, i)):
                    d[k] = H.str('%s%d' % (k, i), 1)
                    want[k][i] = d[k]
        refs.append(d)
    data = {'version': '1.%s.0' % case['minor'], 'nodes': {}}
    if refs or H.bool('empty list'):
        data['references'] = refs
    old_alias = {}
    if H.bool('meta'):
        data['meta_data'] = {'position_data': {'/n': [1.0, 2.0]}}
        if H.bool('aliases'):
            old_alias = {'deep.nxt': H.str('deep', 1)}
            data['meta_data']['aliases'] = clone(old_alias)
    out = loaded(H, data)
    H.check(H.eq(list(out.get('references', [])), paths), 'the references in order')
    layer = nxt_layer.SpecLayer.load_from_layer_data(clone(out))
    H.check(H.eq(list(layer.sub_layer_paths), paths), 'the layer references them')
    for k in ('mute', 'solo'):
        for i, path in enumerate(paths):
            got = [d.get(k) for p, d in layer.comp_overrides.items() if H.eq(p, path)]
            if i in want[k]:
                H.check(len(got) == 1 and got[0] is not None and H.eq(got[0], want[k][i]), 'override: ' + k)
            else:
                H.check(not got or got[0] is None, 'no override: ' + k)
    for k, table in (('alias', layer.aliases), ('color', layer.colors)):
        for i, path in enumerate(paths):
            got = [v for p, v in table.items() if H.eq(p, path)]
            if i in want[k]:
                H.check(len(got) == 1 and H.eq(got[0], want[k][i]), 'override: ' + k)
            else:
                H.check(not got, 'no override: ' + k)
    for p in old_alias:
        H.check(H.eq(layer.aliases.get(p), old_alias[p]), 'the aliases there were')
    if 'meta_data' in data:
        H.check(clone(layer.positions) == {'/n': [1.0, 2.0]}, 'the positions')
    H.reach('references')


def h_meta(H, case):
    """Positions and collapsed nodes come along whatever the version."""
    x, name = H.real('x', -100, 100), '/' + H.str('name', 1, alphabet=LET)
    old = case['minor'] is None or int(case['minor']) < 10
    meta = {}
    if H.bool('pos'):
        meta['position_data' if old else 'positions'] = {name: [x, 0.0]}
    if H.bool('col'):
        meta['collapse_data' if old else 'collapse'] = {name: H.bool('collapsed')}
    if H.bool('other'):
        meta['mine'] = H.str('mine', 1)
    if case['minor'] is None:
        data = {'version': '0.45.0', 'data': clone(meta), 'children': []}
    else:
        data = {'version': '1.' + case['minor'], 'meta_data': clone(meta), 'nodes': {}}
    out = loaded(H, data)
    got = out.get('meta_data', {})
    for new, before in (('positions', 'position_data'), ('collapse', 'collapse_data')):
        want = meta.get(before if old else new)
        H.check(H.eq(clone(got.get(new)), clone(want)), new)
    H.check(H.eq(got.get('mine'), meta.get('mine')), 'other data')
    layer = nxt_layer.SpecLayer.load_from_layer_data(out)
    H.check(H.eq(clone(layer.positions), clone(got.get('positions', {}))), 'the positions of the layer')
    H.check(H.eq(clone(layer.collapse), clone(got.get('collapse', {}))), 'the collapsed nodes of the layer')
    H.reach('meta')
