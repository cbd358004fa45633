"""An error in node code names the layer, the node, the line and what the line says."""
from nxt import nxt_path, runtime, stage as nxt_stage
from harness import common as C

PROPERTY = 'C34'
IA = C.IA
BOUNDS = {
    'quick': 'node code of up to 6 lines, each one of 5 kinds (plain, comment, blank, a reference that resolves '
             'to one or to several lines), the error at every line, raised there, in a function defined above, '
             'in a node run from there, or a syntax error; run on its own, after another node, as custom code, '
             'by an instance, from either of two layers, at the world node',
    'thorough': 'up to 8 lines'}
BOUNDS['quick'] += '; long: code of up to 105 lines'
REACH = ['raise', 'deep', 'nested', 'syntax', 'ref', 'custom', 'instance', 'second', 'world', 'shifted', 'ended']
ASSUMPTIONS = ['values hold no quotes']
KINDS = ['plain', 'comment', 'blank', 'one', 'many']
LINE = {'plain': 'y = 2', 'comment': '# text', 'blank': '', 'one': '${one}', 'many': '${many}'}
REF = {'one': 'y = 3', 'many': 'y = 4\n# five\ny = 6'}


def cases(tier):
    q = tier == 'quick'
    out = []
    for where in ('node', 'custom', 'instance', 'second', 'world'):
        for err in ('raise', 'deep', 'nested', 'syntax', 'ref'):
            if where == 'world' and err == 'nested':
                continue
            out.append(dict(where=where, err=err, n=3 if q else 4))
            if where == 'node':
                out.append(dict(where=where, err=err, n=0, long=True))
    return out


def run(H, case):
    H.stub(nxt_stage.determine_nxt_type, lambda v: 'raw')
    where, err = case['where'], case['err']
    above = [H.choice('above%d' % i, KINDS) for i in range(H.choice('n above', list(range(case['n'] + 1))))]
    if 'long' in case:
        above = ['plain'] * H.choice('many above', [9, 30, 101])
        above[H.choice('odd at', [0, 4, 8])] = H.choice('odd', KINDS)
    below = [H.choice('below%d' % i, ['plain', 'many']) for i in range(H.choice('n below', [0, 1]))]
    text, bad = {'raise': ("raise KeyError('bad')", 'KeyError'), 'deep': ('fun()', 'KeyError'),
                 'nested': ("execute(['/other'])", 'KeyError'), 'syntax': ('x = = 1', 'SyntaxError'),
                 'ref': ('${bad}', 'ZeroDivisionError')}[err]
    lines, out = [], []
    if err == 'deep':
        lines = ['def fun():', '    # in a function', "    raise KeyError('bad')"]
        out = list(lines)
    for k in above:
        lines.append(LINE[k])
        out += REF[k].split('\n') if k in REF else [LINE[k]]
    if 'many' in above:
        H.reach('shifted')
    lines.append(text)
    at = len(out) + 1
    says = '1/0' if err == 'ref' else text
    for k in below:
        lines.append(LINE[k])
    attrs = dict([(k, {'value': REF[k]}) for k in REF])
    attrs['bad'] = {'value': '1/0'}
    path = '/' if where == 'world' else '/n'
    node = {'code': lines, 'attrs': attrs}
    nodes = {'/other': {'code': ["raise KeyError('bad')"]}, '/na': {'code': ['__stage__.did()']}, path: node}
    low = H.bool('lower layer')
    stage = C.mk_stage([{'nodes': {'/x': {}} if low else nodes}, {'nodes': nodes if low else {'/y': {}}}])
    did = []
    stage.did = lambda: did.append(1)
    runs = path
    comp = None
    if where == 'instance':
        layer = stage._sub_layers[1 if low else 0]
        stage.add_node('i', {'instance': '/n'}, layer=layer.layer_idx())
        runs = '/i'
        H.reach('instance')
    if where == 'custom':
        code = '\n'.join(lines)
        setattr(stage._sub_layers[1 if low else 0].lookup(path), IA.COMPUTE, ['pass'])
        H.reach('custom')
    comp = stage.build_stage()
    runtime_layer = None
    error = None
    try:
        if where == 'world':
            H.reach('world')
            stage.setup_runtime_layer(comp)
        elif where == 'custom':
            runtime_layer = stage.setup_runtime_layer(comp)
            stage.execute_custom_code(code, path, runtime_layer)
        elif where == 'second':
            runtime_layer = stage.execute_nodes(['/na'], comp)
            stage.execute_nodes([runs, '/na'], runtime_layer)
        else:
            runtime_layer = stage.setup_runtime_layer(comp)
            stage.execute_nodes([runs, '/na'], runtime_layer)
    except runtime.GraphError as e:
        error = str(e)
    H.check(error is not None, 'the error is reported')
    H.check(len(did) == (1 if where == 'second' else 0), 'nothing runs after the error')
    if where == 'second':
        H.reach('second')
    place = 'File "%s", line %d, in %s\n' % (stage._sub_layers[0].real_path, at, runs)
    H.check(error.startswith(place), 'the error names the layer, the line and the node')
    H.check(says in error[len(place):], 'the error shows the line')
    H.check(bad in error.split('\n')[-1] or err == 'nested', 'the error ends with what was raised')
    if err == 'nested':
        inner = 'File "%s", line 1, in /other\n' % stage._sub_layers[0].real_path
        H.check(inner in error and error.endswith("KeyError: 'bad'"), 'the error of the inner node is shown too')
    H.observe('error', [at, runs])
    H.reach(err)
    if runtime_layer:
        H.check(not runtime_layer.running, 'the run has ended')
        H.reach('ended')
