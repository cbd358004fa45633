"""What the code of one node leaves behind for the code of the next."""
from nxt import nxt_path, runtime, stage as nxt_stage
from harness import common as C

PROPERTY = 'C33'
IA = C.IA
BOUNDS = {
    'quick': 'two nodes one after the other, a world node, custom code and nested runs; the first declares up to two names '
             'global in 9 ways (one per statement, several, indented, in a function, in comments) and '
             'assigns any subset of three names that contain one another, then ends normally, with an '
             'exit request or an error; the clean-up on its own with declared and assigned names of up to 3 '
             'symbolic letters',
    'thorough': 'three nodes, symbolic names of up to 4 letters'}
BOUNDS['quick'] += '; long: six nodes one after the other, each with a form and two names of its own'
REACH = ['many', 'kept', 'gone', 'two', 'comment', 'function', 'error', 'exit', 'world', 'custom', 'symbolic', 'before']
ASSUMPTIONS = ['a global statement stands on a line of its own or after a colon, its names on one line',
               'node code does not delete what others declared',
               'names that were global before a node ran stay so']
NAMES = ['v', 'vw', 'wv']
# name of a form -> (lines before the assignments, how many names it declares, indentation)
FORMS = {
    'none': ([], 0),
    'one': (['global {0}'], 1),
    'each': (['global {0}', 'global {1}'], 2),
    'comma': (['global {0}, {1}'], 2),
    'tight': (['global {0},{1}'], 2),
    'wide': (['global  {0} , {1}'], 2),
    'block': (['if True:', '    global {0}, {1}'], 2),
    'comment': (['# global {0}', 'if True:', '    # global {1}', '    pass'], 0),
    'function': (['def fun():', '    global {0}', '    {0} = 1', 'fun()'], 1),
}


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='run', form=f, how=e) for f in sorted(FORMS) for e in ('', 'node', 'graph', 'error', 'custom', 'world', 'nested')]
    if not q:
        out += [dict(h='three', form=f, form2=g) for f in sorted(FORMS) for g in ('none', 'one', 'comma', 'block')]
    out += [dict(h='many', turn=i) for i in range(9)]
    n = 3 if q else 4
    out += [dict(h='clean', form=f, n=n) for f in sorted(FORMS)]
    return out


def run(H, case):
    H.stub(nxt_stage.determine_nxt_type, lambda v: 'raw')
    globals()['h_' + case['h']](H, case)


def code(H, tag, form, names=NAMES):
    """-> (lines, names declared, names assigned)"""
    lines, n = FORMS[form]
    first = H.choice('first' + tag, names)
    second = H.choice('second' + tag, [x for x in names if x != first])
    lines = [l.format(first, second) for l in lines]
    declared = [first, second][:n]
    assigned = [x for x in names if H.bool('sets %s%s' % (x, tag))]
    lines = lines + ["%s = '%s'" % (x, x + tag) for x in assigned]
    if form == 'function' and first not in assigned:
        assigned = assigned + [first]
    return lines, declared, assigned


def h_run(H, case):
    lines, declared, assigned = code(H, '', case['form'])
    end = {'node': ["raise ExitNode('x')"], 'graph': ["raise ExitGraph('x')"], 'error': ["raise KeyError('x')"]}
    seen = []
    nodes = {'/n': {'code': ['__stage__.begin()'] + lines + end.get(case['how'], [])},
             '/na': {'code': ['__stage__.look(globals())']}}
    if case['how'] == 'world':
        nodes['/'] = {'code': ["wv = 'world'"]}
    if case['how'] == 'nested':
        nodes['/na']['code'] = ["execute(['/n'])"] + nodes['/na']['code']
    stage = C.mk_stage([{'nodes': nodes}])
    stage.begin = lambda: None
    stage.look = lambda g: seen.append(dict([(x, g[x]) for x in NAMES + ['fun'] if x in g]))
    comp = stage.build_stage()
    runtime_layer = stage.setup_runtime_layer(comp)
    g = runtime_layer._console.globals
    before = sorted([x for x in g if not x.startswith('__')])
    try:
        if case['how'] == 'custom':
            custom = stage.get_node_code_string(comp.lookup('/n'), comp)
            stage.execute_custom_code(custom, '/na', runtime_layer)
            H.reach('custom')
        elif case['how'] != 'nested':
            stage.execute_nodes(['/n'], runtime_layer)
    except runtime.GraphError:
        H.check(case['how'] == 'error', 'only the planned error')
        H.reach('error')
    except runtime.ExitGraph:
        H.check(case['how'] == 'graph', 'only the planned exit')
        H.reach('exit')
    want = dict([(x, x) for x in declared if x in assigned])
    if case['form'] == 'function' and declared[0] in want and not H.bool('sets %s' % declared[0]):
        want[declared[0]] = 1
    if case['how'] == 'world':
        # it was global before
        want['wv'] = 'world' if 'wv' not in assigned else g.get('wv')
        H.reach('world')
    stage.execute_nodes(['/na'], runtime_layer)
    H.check(len(seen) == 1 and seen[0] == want, 'the next node sees what was declared global and nothing else')
    after = sorted([x for x in g if not x.startswith('__') and x not in NAMES and x != 'self'])
    H.check(after == [x for x in before if x not in NAMES and x != 'self'], 'nothing else is left behind or lost')
    H.observe('seen', sorted(seen[0]))
    if want:
        H.reach('kept')
    if [x for x in assigned if x not in declared]:
        H.reach('gone')
    if len(want) > 1:
        H.reach('two')
    if case['form'] in ('comment', 'function'):
        H.reach(case['form'])


def h_three(H, case):
    """what the first declared stays when the second has run"""
    lines, declared, assigned = code(H, '', case['form'], ['v', 'vw'])
    lines2, declared2, assigned2 = code(H, '2', case['form2'], ['vw', 'v'])
    seen = []
    stage = C.mk_stage([{'nodes': {
        '/n': {'code': ['pass'] + lines}, '/na': {'code': ['pass'] + lines2},
        '/nab': {'code': ['__stage__.look(globals())']}}}])
    stage.look = lambda g: seen.append(sorted([x for x in NAMES + ['fun'] if x in g]))
    stage.execute_nodes(['/n', '/na', '/nab'], stage.build_stage())
    want = [x for x in declared if x in assigned]
    want += [x for x in declared2 if x in assigned2 and x not in want]
    H.check(seen == [sorted(want)], 'the third node sees what was declared global')
    if want:
        H.reach('kept')


def h_many(H, case):
    """six nodes, each with a form and names of its own"""
    nodes, order, want, left = {}, [], [], []
    names = ['v', 'vw', 'wv', 'x', 'xv', 'y']
    for i in range(6):
        form = sorted(FORMS)[(case['turn'] + i * 2) % 9]
        first, second = names[i], names[(i + 2) % 6]
        lines, n = FORMS[form]
        assigned = [x for x in (first, second) if (i + case['turn']) % 2 or H.bool('sets %s in %d' % (x, i))]
        path = '/n' + 'abcdef'[:i]
        nodes[path] = {'code': ['__stage__.look(%d, globals())' % i] + [l.format(first, second) for l in lines] +
                       ["%s = '%d'" % (x, i) for x in assigned]}
        order.append(path)
        left.append(list(want))
        if form == 'function' and first not in assigned:
            assigned.append(first)
        want += [x for x in (first, second)[:n] if x in assigned and x not in want]
    stage = C.mk_stage([{'nodes': nodes}])
    seen = []

    def look(i, g):
        H.check(i == len(seen), 'one after the other')
        seen.append([x for x in names if x in g])
    stage.look = look
    layer = stage.execute_nodes(order, stage.build_stage())
    g = layer._console.globals
    seen.append([x for x in names if x in g])
    left.append(want)
    for a, b in zip(seen, left):
        H.check(a == sorted(b, key=names.index), 'a node sees what those before it declared global, nothing else')
    H.observe('left', want)
    if len(want) > 3:
        H.reach('many')


def h_clean(H, case):
    """the clean-up for every name"""
    clean = getattr(nxt_stage, 'clean_globals', None)
    if clean is None:
        return
    lines, n = FORMS[case['form']]
    letters = 'ab_'
    first = H.str('first', H.choice('n0', [1, case['n']]), alphabet=letters)
    second = H.str('second', H.choice('n1', [1, 2]), alphabet=letters)
    key = H.str('key', H.choice('n2', [1, 2, case['n']]), alphabet=letters)
    lines = [l.format('<0>', '<1>').replace('<0>', first).replace('<1>', second) for l in lines]
    old = H.bool('before')
    table = {'self': 1, 'execute': 2}
    good = ['self', 'execute']
    if old:
        good.append(key)
        H.reach('before')
    table[key] = 3
    clean(lines + ['pass'], good, table)
    declared = H.any_of([H.eq(key, x) for x in [first, second][:n]] + [False])
    kept = bool([x for x in list(table.keys()) if len(x) == len(key) and bool(H.eq(x, key))])
    H.check(kept == (old or bool(declared)), 'a new name is kept if and only if it is declared global')
    H.check('self' in table and 'execute' in table, 'what was there stays')
    H.reach('symbolic')
