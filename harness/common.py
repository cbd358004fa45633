"""Shared pieces of the harnesses (plain python, run both symbolically and concretely)."""
import json
import os

from nxt.stage import Stage
from nxt import nxt_layer, nxt_node, nxt_path

IA = nxt_node.INTERNAL_ATTRS
META = nxt_node.META_ATTRS
RET = nxt_layer.LayerReturnTypes


def mk_stage(layers):
    """A stage from in-memory layer data, strongest first; layer i's parent is given by `parent`
    (index) and defaults to the top layer."""
    stage = Stage()
    stage._sub_layers = []
    made = []
    for i, data in enumerate(layers):
        data = dict(data)
        parent = data.pop('parent', 0 if i else None)
        data['parent_layer'] = made[parent] if parent is not None else None
        data.setdefault('filepath', '/scratch/L%d.nxt' % i)
        data.setdefault('real_path', '/scratch/L%d.nxt' % i)
        data.setdefault('references', ['/scratch/L%d.nxt' % j for j, d in enumerate(layers)
                                       if j and d.get('parent', 0) == i])
        made.append(stage.new_layer(i, data))
    for i, l in enumerate(stage._sub_layers):
        l._layer_idx = i
    return stage


def layer_path(i):
    return '/scratch/L%d.nxt' % i


def attr(node, name, default='<absent>'):
    return getattr(node, name, default)


def all_paths(layer):
    return sorted([p for p in layer.descendants(return_type=RET.Path)])


def seq(H, name, options, n):
    return [H.choice('%s%d' % (name, i), options) for i in range(n)]


# Names that are prefixes of one another, some used on more than one level
NAMES = {'a': 'n', 'b': 'na', 'c': 'nab', 'd': 'n1', 'e': 'n12', 'k': 'n', 'm': 'nz', 'x': 'nab', 'y': 'na',
         'j': 'nabc', 'z': 'nabcd',
         's': 'n', 'n': 'na', 'p': 'nab', 'q': 'nabc', 'r': 'nabcd', 'o': 'n1', 't': 'n12', 'g': 'n123',
         'u': 'n1234', 'l': 'nx'}


def respell(path):
    """The same path with names that share prefixes."""
    if not path:
        return path
    return '/'.join([NAMES.get(x, x) for x in path.split('/')])


class JsonStore(object):
    """Stands in for json where the data is symbolic: the data is kept here, its text is a word that
    stands for it. Anything else is read as the text it is."""

    def __init__(self, H, everywhere=False):
        self.kept = {}
        if everywhere:
            # for the code of nodes, which the stubs do not reach
            self.was = json.dumps, json.dump, json.loads, json.load
            json.dumps, json.dump, json.loads, json.load = self.dumps, self.dump, self.loads, self.load
            return
        H.stub(json.dumps, self.dumps)
        H.stub(json.dump, self.dump)
        H.stub(json.loads, self.loads)
        H.stub(json.load, self.load)

    def restore(self):
        json.dumps, json.dump, json.loads, json.load = self.was

    def plain(self, data):
        if isinstance(data, dict):
            return dict([(k, self.plain(v)) for k, v in data.items()])
        if isinstance(data, (list, tuple)):
            return [self.plain(v) for v in data]
        if not (data is None or isinstance(data, (str, bool, int, float))):
            raise TypeError('Object of type %s is not JSON serializable' % type(data).__name__)
        return data

    def hooked(self, data, hook):
        if isinstance(data, dict):
            data = dict([(k, self.hooked(v, hook)) for k, v in data.items()])
            return hook(data) if hook else data
        if isinstance(data, list):
            return [self.hooked(v, hook) for v in data]
        return data

    def dumps(self, data, **kw):
        kept = self.plain(data)
        word = '"@json %d@"' % len(self.kept)
        self.kept[word] = kept
        return word

    def dump(self, data, f, **kw):
        f.write(self.dumps(data))

    def loads(self, text, object_hook=None, **kw):
        key = text.strip()
        if key in self.kept:
            return self.hooked(self.kept[key], object_hook)
        return self.hooked(json.JSONDecoder().decode(text), object_hook)

    def load(self, f, object_hook=None, **kw):
        return self.loads(f.read(), object_hook)


def scratch(name):
    """A file of this name in a folder of this process"""
    root = os.path.join(os.path.realpath(os.environ['TMPDIR']), 'symx.%d' % os.getpid())
    os.makedirs(root, exist_ok=True)
    return os.path.join(root, name)
