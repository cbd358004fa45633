import copy
import json
import os
import posixpath
from nxt import nxt_io, nxt_layer, nxt_path, stage as nxt_stage
from nxt.stage import Stage
from harness import common as C

PROPERTY = 'C31'
# file -> references as written in it; directories are relative to the file
TREES = {
    'flat': {'n': ['na', 'nb', 'nc']},
    'dirs': {'n': ['na', 'd/nb', 'nc'], 'd/nb': ['nba', '../x']},
    'deep': {'n': ['d/na'], 'd/na': ['d/naa'], 'd/d/naa': ['../../x', 'y']},
    'last': {'n': ['d/na', 'e/nb', 'nc']},
    'like': {'n': ['d/x', 'e/x', 'y']},
    'like spelling': {'n': ['d/na', 'x'], 'd/na': ['x']},
    'like top': {'n': ['d/n', 'e/na']},
    'like both': {'n': ['d/x', 'x', 'x1'], 'd/x': ['../x']},
    'twice': {'n': ['na', 'd/nb'], 'na': ['d/x'], 'd/nb': ['x']},
    'one': {'n': []},
    'long': {'n': ['d/a', 'e/b', 'c', 'd/e/x'], 'd/a': ['aa', '../e/x'], 'd/aa': ['d/x'], 'd/d/x': ['../x', 'y'],
             'e/b': ['x', 'c'], 'c': ['x']},
}
KINDS = ['mute', 'solo', 'alias', 'color', 'lock']
BOUNDS = {
    'quick': '%d trees of 1-12 files spread over directories (references to the same directory, to others '
             'below and above, files of one name in several directories, one of the name of the top file, '
             'one file twice), the references in every order; every layer with a symbolic attribute value, '
             'own flags (mute, solo, lock, alias, colour) on one layer and an override of it by the top '
             'layer or by its parent; whole graphs and those below one layer' % len(TREES),
    'thorough': 'two layers with overrides'}
REACH = ['copied', 'again', 'own', 'over', 'over top', 'over parent', 'like', 'part', 'edited']
ASSUMPTIONS = ['reading and writing files is stubbed by an in-memory store',
               'a file that is referenced twice is unchanged since it was loaded',
               'a copy of a part of the graph is taken of a layer that brings in all weaker ones']


def cases(tier):
    out = [dict(h='copy', t=t) for t in sorted(TREES)]
    out += [dict(h='flags', t=t, kind=k) for t in sorted(TREES) for k in KINDS if t != 'one']
    out += [dict(h='edit', t=t) for t in ('twice', 'dirs', 'like', 'long')]
    out += [dict(h='part', t=t) for t in ('deep', 'like top')]
    return out


def run(H, case):
    C.JsonStore(H)
    files = {}
    keep = nxt_io.load_file_data, nxt_io.save_file_data
    root = os.path.realpath(os.environ['TMPDIR']) + '/c31'
    for d in ('d/d', 'd/e', 'd/d/d', 'e', 'out'):
        if not os.path.isdir(root + '/' + d):
            os.makedirs(root + '/' + d, exist_ok=True)

    def where(path):
        return posixpath.normpath(posixpath.join(os.getcwd(), path))

    def load(path):
        real = where(path)
        if real not in files:
            raise IOError(path)
        data = copy.deepcopy(files[real])
        data['filepath'] = path
        data['real_path'] = real
        return data

    def save(save_data, filepath=None, file_format=None):
        files[where(filepath)] = copy.deepcopy(dict(save_data))
        return filepath
    nxt_io.load_file_data, nxt_io.save_file_data = load, save
    cwd = os.getcwd()
    try:
        os.chdir(root)
        globals()['h_' + case['h']](H, case, files, load, root)
    finally:
        nxt_io.load_file_data, nxt_io.save_file_data = keep
        os.chdir(cwd)


def start(H, tree, files, load, root, mix=True):
    todo, refs = ['n'], {}
    while todo:
        f = todo.pop(0)
        if f in refs:
            continue
        rest, got = list(tree.get(f, [])), []
        while len(rest) > 1 and mix:
            got.append(rest.pop(H.choice('%s ref %d' % (f, len(got)), list(range(len(rest))))))
        refs[f] = got + rest
        todo += [posixpath.normpath(posixpath.join(posixpath.dirname(f), r)) for r in refs[f]]
    for i, f in enumerate(sorted(refs)):
        files[root + '/' + f + '.nxt'] = {
            'version': '1.17.0', 'references': [r + '.nxt' for r in refs[f]],
            'nodes': {'/node': {'attrs': {'a': {'value': H.str('v ' + f, 1)}}}, '/own%d' % i: {}}}
    return Stage(load(root + '/n.nxt'))


def state(layer):
    """What a layer is, where it is kept aside"""
    return [layer.get_muted(), layer.get_soloed(), layer.get_alias(), layer.get_color(local=False),
            layer.get_locked(), layer.get_cwd()]


def judge(H, stage, files, load, root, at=0):
    layers = stage._sub_layers[at:]
    before = [copy.deepcopy(l.get_save_data()) for l in stage._sub_layers]
    wrote = dict([(f, copy.deepcopy(files[f])) for f in files])
    comp = stage.build_stage(at)
    top = stage.save_to_temp(comp, root + '/out')
    H.check([l.get_save_data() for l in stage._sub_layers] == before, 'the layers are as before')
    for f in wrote:
        H.check(files[f] == wrote[f], 'the files of the graph are as before')
    for f in files:
        H.check(f in wrote or posixpath.dirname(f) == root + '/out', 'all is written to the directory')
    H.check(posixpath.dirname(top) == root + '/out', 'the top file is there')
    twin = Stage(load(top))
    H.check(len(twin._sub_layers) == len(layers), 'every layer is in the copy, once')
    for a, b in zip(layers, twin._sub_layers):
        H.check(H.eq(state(a), state(b)), 'the copy of a layer is in the same state')
        H.check(a.get_nodes_save_data() == b.get_nodes_save_data(), 'the copy of a layer holds the same nodes')
        p, q = a.parent_layer, b.parent_layer
        if a is layers[0]:
            H.check(q is None, 'the top layer of the copy')
        else:
            H.check([l is p for l in layers] == [l is q for l in twin._sub_layers],
                    'the copy of a layer has the copy of its parent')
        H.check(len(a.get_references()) == len(b.get_references()), 'as many references')
    comp2 = twin.build_stage()
    H.check(C.all_paths(comp2) == C.all_paths(comp), 'the composite holds the same nodes')
    if comp.lookup('/node'):
        H.check(H.eq(comp2.lookup('/node').a, comp.lookup('/node').a), 'with the same values')
    H.reach('copied')
    if len(set([posixpath.basename(l.real_path) for l in layers])) < \
            len(set([l.real_path for l in layers])):
        H.reach('like')
    return twin, root


def h_copy(H, case, files, load, root):
    stage = start(H, TREES[case['t']], files, load, root, case['t'] != 'long')
    judge(H, stage, files, load, root)
    H.reach('again')


def pick(H, name, seq):
    return seq[H.choice(name, list(range(len(seq))))]


SET = {'mute': ('set_muted', 'set_mute_over'), 'solo': ('set_soloed', 'set_solo_over'),
       'lock': ('set_locked', 'set_locked_over'), 'alias': ('set_alias', 'set_alias_over'),
       'color': (None, 'set_color_over')}


def h_flags(H, case, files, load, root):
    kind = case['kind']
    stage = start(H, TREES[case['t']], files, load, root, False)
    layer = pick(H, 'layer', stage._sub_layers)

    def new(tag):
        return H.str(tag, 1) if kind in ('alias', 'color') else H.bool(tag)
    own, over = SET[kind]
    if H.bool('own?'):
        if own:
            getattr(layer, own)(new('own'))
        else:
            layer.color = new('own')
        H.reach('own')
    if layer.parent_layer and H.bool('over?'):
        root_layer = stage._sub_layers[0]
        if kind in ('mute', 'solo'):
            who = root_layer
            if layer.parent_layer is not root_layer and H.bool('by parent'):
                who = layer.parent_layer
                H.reach('over parent')
            getattr(who, over)(layer.filepath, new('over'))
        else:
            getattr(layer, over)(new('over'))
        H.reach('over')
        if layer.parent_layer is not root_layer:
            H.reach('over top')
    judge(H, stage, files, load, root)


def h_part(H, case, files, load, root):
    stage = start(H, TREES[case['t']] if case['t'] == 'deep' else {'n': ['d/n'], 'd/n': ['d/n', 'e/n']},
                  files, load, root)
    judge(H, stage, files, load, root, 1)
    H.reach('part')


def h_edit(H, case, files, load, root):
    """Layers that are not saved yet"""
    H.stub(nxt_stage.determine_nxt_type, lambda v: 'raw')
    stage = start(H, TREES[case['t']], files, load, root, False)
    layer = pick(H, 'layer', stage._sub_layers)
    stage.node_setattr_data(layer.lookup('/node'), 'a', layer, False, value=H.str('new', 1, 'abc'))
    stage.add_node('more', layer=layer)
    judge(H, stage, files, load, root)
    H.reach('edited')
