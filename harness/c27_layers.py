import copy
import os
from nxt import nxt_io, nxt_layer, nxt_path, stage as nxt_stage
from nxt.stage import Stage
from harness import common as C

PROPERTY = 'C27'
BOUNDS = {
    'quick': 'stacks of up to 5 layers: every tree of references with up to two references per file in '
             'every order, one file that is referenced twice, one that is missing, one that is no graph, and files that '
             'reference one another in a circle; adding a layer '
             'that brings in up to 3 more at every place below every parent, at the end and on top; removing every '
             'layer by object and by index, before and after a composite was built, then adding again',
    'thorough': 'every pair of a removal and an addition'}
BOUNDS['quick'] += '; long: chains of 7 files, 6 references of one file'
REACH = ['loaded', 'more', 'missing', 'twice', 'added', 'deep', 'top', 'removed', 'by index', 'reloaded', 'built', 'round', 'broken']
ASSUMPTIONS = ['a file is not referenced twice by the same file',
               'a layer is added right below its parent or right below everything a layer below '
               'the same parent brought in']
# file -> references; names are prefixes of one another
TREES = [
    {'n': ['na', 'nb'], 'na': ['naa', 'nab'], 'nb': []},
    {'n': ['na', 'nb', 'nc'], 'nb': ['nba']},
    {'n': ['na'], 'na': ['naa'], 'naa': ['naaa', 'nab']},
    {'n': ['na', 'nb'], 'na': ['x'], 'nb': ['x', 'nc']},
    {'n': ['na', 'x', 'nb'], 'na': ['x'], 'x': ['y']},
    {'n': ['na', 'gone', 'nb'], 'na': ['gone']},
    {'n': []},
    {'n': ['na'], 'na': ['nb'], 'nb': ['nc'], 'nc': ['nd'], 'nd': ['ne'], 'ne': ['nf']},
    {'n': ['na', 'nb', 'nc', 'nd', 'ne', 'nf']},
]
ROUND = [
    {'n': ['n', 'na']},
    {'n': ['na', 'nb'], 'na': ['n', 'naa'], 'nb': ['na']},
    {'n': ['na', 'nb'], 'na': ['naa', 'nb'], 'naa': ['na'], 'nb': ['n']},
    {'n': ['na'], 'na': ['naa', 'nab'], 'naa': ['n', 'naa', 'nb'], 'nb': ['na']},
]
NEW = [
    {'z': []},
    {'z': ['za', 'zb']},
    {'z': ['za', 'zb'], 'za': ['zaa'], 'zb': ['zba']},
    {'z': ['za', 'q'], 'za': ['q']},
]
NEW_ROUND = [
    {'z': ['z', 'za']},
    {'z': ['za', 'n'], 'za': ['zb', 'z'], 'zb': ['za', 'n']},
]


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='load', t=t) for t in range(len(TREES))]
    out += [dict(h='more', t=t, n=n) for t in range(len(TREES)) for n in range(len(NEW))]
    out += [dict(h='add', t=t, n=n, built=b) for t in range(len(TREES)) for n in range(len(NEW))
            for b in (False, True)]
    out += [dict(h='load', t=t) for t in range(len(TREES), len(TREES + ROUND))]
    out += [dict(h=h, t=t, n=n, built=False) for h in ('more', 'add') for t in (0, 2, 6)
            for n in range(len(NEW), len(NEW + NEW_ROUND))]
    out += [dict(h='broken', t=t) for t in range(len(TREES))]
    out += [dict(h='top', t=t) for t in range(len(TREES))]
    out += [dict(h='remove', t=t, built=b) for t in range(len(TREES)) for b in (False, True)]
    out += [dict(h='both', t=t, n=n) for t in (range(len(TREES)) if not q else (0, 1, 3))
            for n in (range(len(NEW)) if not q else (1,))]
    return out


def run(H, case):
    files = {}
    keep = nxt_io.load_file_data, nxt_io.save_file_data
    root = os.path.realpath(os.environ['TMPDIR'])

    def load(path):
        name = os.path.basename(path)[:-4]
        if name not in files:
            raise IOError(path)
        if files[name] is None:
            raise ValueError('not a graph')
        data = copy.deepcopy(files[name])
        data['filepath'] = path
        data['real_path'] = root + '/' + name + '.nxt'
        return data

    def save(save_data, filepath=None, file_format=None):
        name = os.path.basename(filepath)[:-4]
        files[name] = copy.deepcopy(dict(save_data))
        return filepath
    nxt_io.load_file_data, nxt_io.save_file_data = load, save
    cwd = os.getcwd()
    try:
        globals()['h_' + case['h']](H, case, files, load)
    finally:
        nxt_io.load_file_data, nxt_io.save_file_data = keep
        os.chdir(cwd)


def put(files, tree):
    for f in tree:
        for r in [f] + tree[f]:
            if r != 'gone' and not (r in files and r not in tree):
                files[r] = {'version': nxt_layer.GRAPH_VERSION.VERSION_STR if hasattr(
                    nxt_layer, 'GRAPH_VERSION') else '1.17.0',
                    'references': [x + '.nxt' for x in tree.get(r, [])],
                    'nodes': {'/node': {'attrs': {'a': {'value': r}}}, '/' + r: {}}}


class Ref(object):
    """What the stack should be: a tree of [name, children]."""

    def __init__(self, tree, name, above=()):
        self.name = name
        above = tuple(above) + (name,)
        self.children = [Ref(tree, c, above) for c in tree.get(name, []) if c != 'gone' and c not in above]

    def flat(self):
        out = [self]
        for c in self.children:
            out += c.flat()
        return out

    def chain(self, ref):
        out = []
        while ref is not None:
            out.append(ref.name)
            ref = self.parent_of(ref)
        return out

    def parent_of(self, ref):
        for r in self.flat():
            if [c for c in r.children if c is ref]:
                return r


def name(layer):
    return os.path.basename(layer.real_path)[:-4]


def judge(H, stage, ref, files, load, loaded=False):
    flat = ref.flat()
    layers = stage._sub_layers
    H.check([name(l) for l in layers] == [r.name for r in flat], 'the order of the stack')
    for i, (l, r) in enumerate(zip(layers, flat)):
        H.check(l.layer_idx() == i, 'every layer knows its place')
        p = ref.parent_of(r)
        at = [k for k in range(len(flat)) if flat[k] is p]
        H.check(l.parent_layer is (layers[at[0]] if p else None), 'the parent of every layer')
        H.check([os.path.basename(x)[:-4] for x in l.get_references()] == [c.name for c in r.children],
                'the references of every layer, strongest first')
        H.check([os.path.basename(x)[:-4] for x in l.sub_layer_paths] == [c.name for c in r.children],
                'the reference paths of every layer')
    comp = stage.build_stage()
    H.check(getattr(comp.lookup('/node'), 'a') == flat[0].name, 'the strongest layer wins')
    H.check([name(l) for l in stage.get_layers_with_opinion('/node')] == [r.name for r in flat],
            'opinions from strong to weak')
    if len(set([r.name for r in flat])) < len(flat) and not loaded:
        # two layers of one file can differ, the file holds one of them
        return
    for l in layers:
        l.save()
    again = Stage(load(layers[0].real_path))
    H.check([name(l) for l in again._sub_layers] == [r.name for r in flat], 'the saved stack loads in the same order')
    H.reach('reloaded')


def shuffle(H, tree):
    """the references of every file in any order"""
    out = {}
    for f in sorted(tree):
        refs = list(tree[f])
        got = []
        while len(refs) > 1:
            got.append(refs.pop(H.choice('%s ref %d' % (f, len(got)), list(range(len(refs))))))
        out[f] = got + refs
    return out


def start(H, case, files, load, built=False, mix=True):
    tree = (TREES + ROUND)[case['t']]
    if mix:
        tree = shuffle(H, tree)
    put(files, tree)
    ref = Ref(tree, 'n')
    stage = Stage(load(os.path.realpath(os.environ['TMPDIR']) + '/n.nxt'))
    if built:
        stage.build_stage()
        H.reach('built')
    return stage, ref


def h_load(H, case, files, load):
    cwd = os.getcwd()
    stage, ref = start(H, case, files, load)
    H.check(os.getcwd() == cwd, 'the working directory stays')
    if 'gone' in (TREES + ROUND)[case['t']].get('na', []):
        H.reach('missing')
    names = [r.name for r in ref.flat()]
    if len(set(names)) < len(names):
        H.reach('twice')
    if case['t'] >= len(TREES):
        H.reach('round')
    judge(H, stage, ref, files, load, True)
    H.reach('loaded')


def h_broken(H, case, files, load):
    """A file that is no graph: an error, and nothing else"""
    tree = shuffle(H, TREES[case['t']])
    put(files, tree)
    bad = H.choice('bad', sorted(set([r.name for r in Ref(tree, 'n').flat()])))
    path = os.path.realpath(os.environ['TMPDIR']) + '/n.nxt'
    if bad == 'n':
        top = load(path)
        top['references'] = ['n.nxt']
        top['real_path'] = os.path.realpath(os.environ['TMPDIR']) + '/top.nxt'
    else:
        top = load(path)
    files[bad] = None
    cwd = os.getcwd()
    try:
        Stage(top)
        H.check(False, 'an error')
    except ValueError:
        pass
    H.check(os.getcwd() == cwd, 'the working directory stays')
    H.reach('broken')


def add(H, stage, ref, files, load, n):
    tree = shuffle(H, (NEW + NEW_ROUND)[n])
    put(files, tree)
    flat = ref.flat()
    k = H.int('parent', 0, len(flat) - 1)
    k = [i for i in range(len(flat)) if bool(k == i)][0]
    p = flat[k]
    c = H.int('place', 0, len(p.children))
    c = [i for i in range(len(p.children) + 1) if bool(c == i)][0]
    idx = k + 1 + sum([len(x.flat()) for x in p.children[:c]])
    new = Ref(tree, 'z', ref.chain(p))
    p.children.insert(c, new)
    data = load('z.nxt')
    data['parent_layer'] = stage._sub_layers[k]
    cwd = os.getcwd()
    layer = stage.new_sublayer(data, idx=idx)
    H.check(os.getcwd() == cwd, 'the working directory stays')
    H.check(layer is stage._sub_layers[idx], 'the new layer is at its index')
    if len(new.flat()) > 3:
        H.reach('deep')


def h_more(H, case, files, load):
    """a file loaded below any layer, at the end of the stack"""
    stage, ref = start(H, case, files, load, mix=False)
    tree = shuffle(H, (NEW + NEW_ROUND)[case['n']])
    put(files, tree)
    refs = ref.flat()
    flat = [r.name for r in refs]
    k = H.choice('parent', list(range(len(flat))))
    if H.bool('elsewhere'):
        os.chdir('/')
    cwd = os.getcwd()
    stage.load_from_file(load('z.nxt'), parent_layer=stage._sub_layers[k])
    H.check(os.getcwd() == cwd, 'the working directory stays')
    new = Ref(tree, 'z', ref.chain(refs[k])).flat()
    H.check([name(l) for l in stage._sub_layers] == flat + [r.name for r in new], 'loaded at the end of the stack')
    H.check(stage._sub_layers[len(flat)].parent_layer is stage._sub_layers[k], 'below the layer asked for')
    H.reach('more')


def h_add(H, case, files, load):
    stage, ref = start(H, case, files, load, case['built'], mix=False)
    add(H, stage, ref, files, load, case['n'])
    judge(H, stage, ref, files, load)
    H.reach('added')


def h_top(H, case, files, load):
    """a new layer above everything references what was the top"""
    stage, ref = start(H, case, files, load, H.bool('built'))
    put(files, {'z': []})
    if H.bool('refers'):
        files['z']['references'] = [stage.top_layer.filepath]
    cwd = os.getcwd()
    stage.new_sublayer(load(os.path.realpath(os.environ['TMPDIR']) + '/z.nxt'), idx=0)
    H.check(os.getcwd() == cwd, 'the working directory stays')
    top = Ref({}, 'z')
    top.children = [ref]
    judge(H, stage, top, files, load)
    H.reach('top')


def remove(H, stage, ref):
    flat = ref.flat()
    if len(flat) < 2:
        return False
    k = H.int('remove', 1, len(flat) - 1)
    k = [i for i in range(1, len(flat)) if bool(k == i)][0]
    if H.bool('by index'):
        stage.remove_sublayer(k)
        H.reach('by index')
    else:
        stage.remove_sublayer(stage._sub_layers[k])
    p = ref.parent_of(flat[k])
    p.children = [c for c in p.children if c is not flat[k]]
    return True


def h_remove(H, case, files, load):
    stage, ref = start(H, case, files, load, case['built'], mix=not case['built'])
    if remove(H, stage, ref):
        judge(H, stage, ref, files, load)
        H.reach('removed')


def h_both(H, case, files, load):
    stage, ref = start(H, case, files, load, True, mix=False)
    if H.bool('add first'):
        add(H, stage, ref, files, load, case['n'])
        remove(H, stage, ref)
    else:
        remove(H, stage, ref)
        add(H, stage, ref, files, load, case['n'])
    judge(H, stage, ref, files, load)
