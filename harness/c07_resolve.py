import io
from nxt import nxt_layer, nxt_node, nxt_path, nxt_io, stage as nxt_stage, tokens
from harness import common as C
from harness.comp_model import Model

PROPERTY = 'C07'
IA = C.IA
BOUNDS = {
    'quick': 'graph of 7 nodes with parents, children, instances and prefix-sharing names; (text) every '
             'text of up to 8 characters without _, m and : with attribute values of one or two symbolic '
             'characters; (deep) texts of 3 to 4 tokens with symbolic characters '
             'between them, values that refer to other attributes up to 3 deep in the context of the '
             'node that holds them, and names and node paths built by nested tokens; (ref) every '
             'reference content of up to 6 characters without _, m and :; (lines) node code of 3 lines; '
             '(like) names that begin or end like a token type with up to 2 symbolic characters; (files) path and contents tokens with symbolic names and contents',
    'thorough': 'texts of up to 10 characters, references of up to 8'}
BOUNDS['quick'] += '; long: a text of 8 tokens, a chain of 8 references'
REACH = ['token', 'plain', 'unclosed', 'nested', 'missing', 'node ref', 'relative', 'inherited', 'lines',
         'contents', 'no file', 'other', 'like a token', 'first plugin', 'no plugin', 'plugin gives nothing']
ASSUMPTIONS = ['references are not cyclic', 'attribute names are not those every python class has '
               '(__doc__, mro)', 'tokens of plugins are those the case registers']
# node -> (instance, own attributes)
GRAPH = {
    '/a': (None, ['x', 'y', 'abx']),
    '/a/b': (None, ['y', 'z']),
    '/a/b/c': (None, ['x']),
    '/ab': (None, ['y']),
    '/c': ('/a', ['z']),
    '/c/b': (None, []),
    '/d': (None, []),
}


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='text', n=n, k=k) for n in range(0, 9 if q else 11) for k in (1, 2)
           if n < 8 or k == 1]
    out += [dict(h='ref', n=n, at=at) for n in range(0, 7 if q else 9) for at in ('/a/b', '/c', '/a/b/c')]
    out += [dict(h='deep', t=t, at=at) for t in range(len(TEXTS)) for at in ('/a', '/a/b', '/c/b', '/d')]
    out += [dict(h='lines', k=k) for k in (1, 2)]
    out += [dict(h='contents', n=n) for n in (1, 2)]
    out += [dict(h='other')]
    out += [dict(h='plugin', n=n) for n in (1, 2, 3)]
    out += [dict(h='like', word=w, n=n) for w in WORDS for n in (1, 2)]
    return out


# attribute names that only begin or end like the name of a token type
WORDS = ['_nxtpath', '_nxtcolor', '_nxt', 'contents', 'contents:', 'path', 'path:', 'file', 'file:', 'filelist']


def h_like(H, case):
    tail = H.str('tail', case['n'], exclude='${}./:')
    v = H.str('v', 1)
    front = H.bool('front')
    name = tail + case['word'] if front else case['word'] + tail
    stage, comp, ref = mk({})
    node = comp.lookup('/a/b')
    setattr(node, case['word'] + 'q', v)
    got = stage.resolve(node, '<${' + name + '}>', comp)
    if bool(H.eq(name, case['word'] + 'q')):
        H.check(H.eq(got, '<' + v + '>'), 'the value of the attribute')
        H.reach('like a token')
    elif not bool(H.any_of([H.eq(name, a) for a in ('x', 'y', 'z', 'abx')])):
        H.check(H.eq(got, '<>'), 'no such attribute')


def run(H, case):
    globals()['h_' + case['h']](H, case)


def mk(values):
    """values: (path, attr) -> value"""
    nodes = {}
    for p in GRAPH:
        inst, attrs = GRAPH[p]
        nodes[p] = {'attrs': dict([(a, {'value': values.get((p, a), a + ' of ' + p)}) for a in attrs])}
        if inst:
            nodes[p]['instance'] = inst
    stage = C.mk_stage([{'nodes': nodes}])
    table = dict([((p, a), values.get((p, a), a + ' of ' + p)) for p in GRAPH for a in GRAPH[p][1]])
    return stage, stage.build_stage(), Ref(table)


class Ref(object):
    """The documented meaning of tokens, position by position."""

    def __init__(self, table):
        self.table = table
        self.m = Model(dict([(p, GRAPH[p][0]) for p in GRAPH]))
        self.H = None

    def value(self, path, name):
        """the raw value of an attribute of a node of the composite"""
        for p in sorted(self.m.paths):
            if path == p:
                for q in self.m.order(p):
                    for a in ('x', 'y', 'z', 'abx'):
                        if (q, a) in self.table and name == a:
                            if q != p:
                                self.H.reach('inherited')
                            return p, self.table[q, a]
        return None, None

    def resolve(self, at, text):
        spans = []
        depth = start = i = 0
        n = len(text)
        while i < n:
            if i + 1 < n and text[i] == '$' and text[i + 1] == '{':
                if depth == 0:
                    start = i
                else:
                    self.H.reach('nested')
                depth += 1
            elif depth and text[i] == '}':
                depth -= 1
                if depth == 0:
                    spans.append((start, i + 1))
            i += 1
        if depth:
            self.H.reach('unclosed')
            return text
        out = ''
        last = 0
        for s, e in spans:
            out = out + text[last:s] + self.token(at, text[s + 2:e - 1])
            last = e
        return out + text[last:]

    def token(self, at, content):
        self.H.reach('token')
        if len(content) == 0:
            # the marker for a token without content
            return 'BADRESOLVE'
        ref = self.resolve(at, content)
        n = len(ref)
        dot = -1
        for i in range(n):
            if ref[i] == '.':
                dot = i
        path, name = at, ref
        if 0 < dot < n - 1:
            path, name = self.expand(ref[:dot], at), ref[dot + 1:]
            self.H.reach('node ref')
        p, raw = self.value(path, name)
        if p is None:
            self.H.reach('missing')
            return ''
        return self.resolve(p, raw)

    def expand(self, rel, start):
        if rel[0] == '/':
            return rel
        self.H.reach('relative')
        stack = start.split('/')[1:]
        cur = ''
        for c in list(rel) + ['/']:
            if c == '/':
                if cur == '..':
                    if stack:
                        stack.pop()
                elif not (cur == '' or cur == '.'):
                    stack.append(cur)
                cur = ''
            else:
                cur = cur + c
        return '/' + '/'.join(stack)


def judge(H, stage, comp, ref, at, text, what):
    ref.H = H
    got = stage.resolve(comp.lookup(at), text, comp)
    H.observe('got', got)
    want = ref.resolve(at, text)
    H.check(H.eq(got, want), what)
    return got


def h_text(H, case):
    values = {}
    for p, a in (('/a', 'x'), ('/a/b', 'y'), ('/a/b', 'z')):
        # one or two characters, so no value holds a token
        values[p, a] = H.str('%s.%s' % (p, a), case['k'], exclude='_m:')
    stage, comp, ref = mk(values)
    text = H.str('text', case['n'], exclude='_m:')
    got = judge(H, stage, comp, ref, '/a/b', text, 'every token and nothing else is replaced')
    if not bool(H.any_of([H.eq(text[i:i + 2], '${') for i in range(len(text) - 1)])):
        H.check(H.eq(got, text), 'text without tokens stays as it is')
        H.reach('plain')


def h_ref(H, case):
    stage, comp, ref = mk({})
    content = H.str('ref', case['n'], exclude='_m:')
    judge(H, stage, comp, ref, case['at'], '<${' + content + '}>', 'the attribute the reference names')


# number of symbolic gaps, template, values
TEXTS = [
    ('<0>${x}${y}${z}${x}<1>${y}${z}${x}<0>', {}),
    ('${x}<0>', {('/a', 'x'): '${/ab.y}<1>', ('/ab', 'y'): '${/c.z}', ('/c', 'z'): '${/a/b.y}', ('/a/b', 'y'): '${/a/b.z}',
                 ('/a/b', 'z'): '<2>${/a.abx}', ('/a', 'abx'): '${/a/b/c.x}', ('/a/b/c', 'x'): '${/a.y}', ('/a', 'y'): '<1>end'}),
    ('<0>${x}<1>${y}<2>${x}', {}),
    ('<0>${x}<1>', {('/a', 'x'): '<2>${y}<3>${z}'}),
    ('<0>${/a.x}<1>${x}', {('/a', 'x'): '<2>${y}'}),
    ('<0>${../../a.x}<1>${./b.y}<2>', {('/a/b', 'y'): '<3>${../.y}'}),
    ('<0>${${x}}<1>${<2>}', {('/a', 'x'): '<3>'}),
    ('<0>${${x}.y}<1>', {('/a', 'x'): '/<2>'}),
    ('${/a/b.y}<0>${/ab.y}', {('/a/b', 'y'): '${/ab.y}<1>', ('/ab', 'y'): '<2><3>'}),
    ('<0>${b.y}<1>${b.z}', {('/a/b', 'y'): '${..x}<2>', ('/a/b', 'z'): '${../.x}<3>'}),
    ('${x}<0>${z}${x}', {('/a', 'x'): '$', ('/a/b', 'z'): '{<1>}'}),
    ('${x}{z}${z}<0>', {('/a', 'x'): '<1>', ('/a/b', 'z'): '{<2>}'}),
    ('${${z}x}${z}', {('/a/b', 'z'): '/a.', ('/c', 'z'): '/ab<0>', ('/a', 'x'): '<1>'}),
    ('${abx}${${abx}}<0>', {('/a', 'abx'): '<1>b<2>'}),
]


def fill(H, text, gaps):
    out = ''
    while True:
        b, sep, rest = text.partition('<')
        out = out + b
        if not sep:
            return out
        i, _, text = rest.partition('>')
        if i not in gaps:
            gaps[i] = H.str('gap' + i, 1)
        out = out + gaps[i]


def h_deep(H, case):
    text, values = TEXTS[case['t']]
    gaps = {}
    text = fill(H, text, gaps)
    values = dict([(k, fill(H, values[k], gaps)) for k in values])
    stage, comp, ref = mk(values)
    judge(H, stage, comp, ref, case['at'], text, 'references are resolved from the inside out')
    for a in ('x', 'y', 'z'):
        node = comp.lookup(case['at'])
        ref.H = H
        p, raw = ref.value(case['at'], a)
        got = stage.get_node_attr_value(node, a, comp)
        H.check(H.eq(got, ref.resolve(case['at'], raw) if p else ''), 'the resolved value of the attribute')
        got = stage.get_node_attr_value(node, a, comp, resolved=False)
        H.check(H.eq(got, raw if p else ''), 'the raw value of the attribute')


def h_lines(H, case):
    c = H.str('c', case['k'], exclude='$')
    d = H.str('d', 1, exclude='$')
    stage, comp, ref = mk({('/a', 'x'): c, ('/a/b', 'z'): d + '${x}'})
    lines = ['first ${x}', d + '}${z}', '${/d.x}last']
    node = comp.lookup('/a/b')
    setattr(node, IA.COMPUTE, lines)
    ref.H = H
    want = '\n'.join([ref.resolve('/a/b', l) for l in lines])
    got = stage.get_node_code_lines(node, comp, nxt_node.DATA_STATE.RESOLVED if hasattr(
        nxt_node, 'DATA_STATE') else 'resolved')
    H.check(H.all_of([H.not_(H.eq(ch, '\n')) for l in got for ch in l]), 'one line per entry')
    H.check(H.eq('\n'.join(got), want), 'every line is resolved')
    from nxt import DATA_STATE
    H.check(H.eq(stage.get_node_code_string(node, comp, DATA_STATE.RESOLVED), want), 'resolved code')
    H.check(stage.get_node_code_lines(node, comp) == lines and
            getattr(node, IA.COMPUTE) == lines, 'the raw code stays')
    H.reach('lines')


def h_contents(H, case):
    """the text of a file takes the place of the token and is itself resolved"""
    name = H.str('name', case['n'], alphabet='pq')
    other = H.str('other', case['n'], alphabet='pq')
    body = H.str('body', 2, exclude='$\r')
    stage, comp, ref = mk({('/a', 'x'): name, ('/a/b', 'z'): body})

    def fake_open(path, *args, **kw):
        if path == '/dir/' + other:
            return io.StringIO(u'[${z}]')
        raise IOError(path)
    nxt_stage.open = fake_open
    try:
        got = stage.resolve(comp.lookup('/a/b'), '<${contents::/dir/${x}}>${z}', comp)
    finally:
        del nxt_stage.open
    if bool(H.eq(name, other)):
        H.check(H.eq(got, '<[' + body + ']>' + body), 'the resolved contents of the file')
        H.reach('contents')
    else:
        H.check(H.eq(got, '<>' + body), 'a missing file gives nothing')
        H.reach('no file')


def h_plugin(H, case):
    """the token that was registered first and takes the content gives the text for it"""
    content = H.str('content', case['n'], alphabet='pq:x')
    v, w = H.str('v', 1), H.str('w', 1)
    stage, comp, ref = mk({('/a/b', 'z'): v})
    node = comp.lookup('/a/b')
    calls = []

    def plugin(word, answer):
        def resolve(s, n, value, layer, **kw):
            calls.append(word)
            H.check(s is stage and n is node and layer is comp, 'the context of the token')
            H.check(kw == {'more': 1}, 'the further arguments')
            return answer(value)
        return tokens.register_token(word, lambda text: text.startswith(word), resolve)
    before = list(tokens.plugin_tokens)
    first = H.choice('first', ['p', 'p:', 'q'])
    second = H.choice('second', ['p', 'x', ':'])
    try:
        made = [plugin(first, lambda value: '(' + value + w), plugin(second, lambda value: None)]
        H.check(tokens.plugin_tokens == before + made, 'the registered tokens')
        H.check([t.prefix for t in made] == [first, second], 'their prefixes')
        got = stage.resolve(node, '<${' + content + '}>${z}', comp, more=1)
    finally:
        tokens.plugin_tokens[:] = before
        nxt_stage.plugin_tokens[:] = before
    if content.startswith(first):
        want = '(' + content[len(first):] + w
        H.reach('first plugin')
    elif content.startswith(second):
        want = ''
        H.reach('plugin gives nothing')
    else:
        want = None
        H.reach('no plugin')
    if want is None:
        ref.H = H
        want = ref.resolve('/a/b', '${' + content + '}')
    H.observe('got', got)
    H.check(H.eq(got, '<' + want + '>' + v), 'the text of the token')


def h_other(H, case):
    v = H.str('v', 2)
    stage, comp, ref = mk({('/a/b', 'z'): v})
    node = comp.lookup('/a/b')
    c = H.str('c', 1, exclude='$')
    H.check(H.eq(stage.resolve(node, c + '${_nxtpath}' + c, comp), c + '/a/b' + c), 'the path of the node')
    n = H.int('n', -9, 9)
    H.check(stage.resolve(node, n, comp) == str(n), 'text of a number')
    setattr(node, 'z', n)
    H.check(stage.resolve(node, '${z}', comp) == str(n), 'value of a number')
    b = H.bool('b')
    setattr(node, 'z', b)
    H.check(stage.resolve(node, '${z}', comp) == str(b), 'value of a boolean')
    setattr(node, 'z', None)
    H.check(stage.resolve(node, '<${z}>', comp) == '<>', 'no value')
    H.reach('other')
