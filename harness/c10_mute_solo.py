from nxt import nxt_layer
from harness import common as C

PROPERTY = 'C10'
BOUNDS = {
    'quick': 'stacks of up to 4 layers with symbolic mute and solo flags and one override entry per '
             'layer on the top layer; a chain of 3 layers with every placement and every value of '
             'override entries for the lowest; one override set on any layer of a chain of 3 with an '
             'existing entry; composition of a 3-layer stack under symbolic flags',
    'thorough': 'stacks of up to 5 layers, chains of 4 layers'}
BOUNDS['quick'] += '; long: 6 layers with every flag'
REACH = ['solo', 'nosolo', 'override', 'own', 'set', 'comp', 'allmuted']
ASSUMPTIONS = ['layer file paths are distinct']


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='active', n=n) for n in range(0, 5 if q else 6)]
    out += [dict(h='active', n=6)] if q else []
    out += [dict(h='active_over', n=n) for n in range(1, 4 if q else 5)]
    out += [dict(h='chain', n=n) for n in range(1, 4 if q else 5)]
    for n in (2, 3):
        for at in range(n):
            for tgt in range(at, n):
                for kind in ('mute', 'solo'):
                    for ent in range(n):
                        out.append(dict(h='set', n=n, at=at, tgt=tgt, kind=kind, ent=ent))
    out += [dict(h='comp', n=n) for n in ((2, 3) if q else (2, 3, 4))]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def mk_layers(H, n, overs=None, chain=False):
    layers = []
    for i in range(n):
        data = {'filepath': C.layer_path(i), 'real_path': C.layer_path(i)}
        if overs and overs[i]:
            data['comp_overrides'] = overs[i]
        if i:
            data['parent_layer'] = layers[i - 1] if chain else layers[0]
        l = nxt_layer.SpecLayer(data)
        l.set_muted(H.bool('mute%d' % i))
        l.set_soloed(H.bool('solo%d' % i))
        layers.append(l)
    return layers


def want_active(H, flags):
    """flags: list of (muted, soloed) truth values -> indices of contributing layers."""
    soloed = [i for i, f in enumerate(flags) if f[1]]
    pool = soloed if soloed else list(range(len(flags)))
    return [i for i in pool if not flags[i][0]]


def h_active(H, case):
    n = case['n']
    layers = mk_layers(H, n)
    flags = [(l.mute, l.solo) for l in layers]
    got = nxt_layer.get_active_layers(layers)
    got_idx = [layers.index(l) for l in got]
    H.observe('active', got_idx)
    H.check(H.eq(got_idx, want_active(H, flags)), 'un-muted layers, only soloed ones when any is')
    H.check(H.eq([layers.index(l) for l in nxt_layer.get_soloed_layers(layers)],
                 [i for i, f in enumerate(flags) if f[1]]), 'soloed layers')
    H.check(H.eq([layers.index(l) for l in nxt_layer.get_muted_layers(layers)],
                 [i for i, f in enumerate(flags) if f[0]]), 'muted layers')
    H.reach('solo' if any([bool(f[1]) for f in flags]) else 'nosolo')


def entry(H, tag):
    """An override entry: absent, or stating mute, solo, both or neither, with symbolic values."""
    kind = H.choice(tag + '.kind', ['absent', 'none', 'mute', 'solo', 'both'])
    if kind == 'absent':
        return None
    e = {}
    if kind in ('mute', 'both'):
        e['mute'] = H.bool(tag + '.mute')
    if kind in ('solo', 'both'):
        e['solo'] = H.bool(tag + '.solo')
    return e


def seen(flag, own, entries):
    """entries: nearest first (self, parent, ... top); the topmost one stating the flag decides."""
    for e in entries[::-1]:
        if e is not None and flag in e:
            return e[flag]
    return own


def h_active_over(H, case):
    n = case['n']
    over = {}
    ents = []
    for i in range(n):
        e = entry(H, 'e%d' % i)
        ents.append(e)
        if e is not None:
            over[C.layer_path(i)] = dict(e)
    layers = mk_layers(H, n, [over] + [None] * (n - 1))
    flags = []
    for i, l in enumerate(layers):
        flags.append((seen('mute', l.mute, [ents[i]]), seen('solo', l.solo, [ents[i]])))
        H.check(H.eq(bool(l.get_muted()), bool(flags[i][0])), 'muted as the override says')
        H.check(H.eq(bool(l.get_soloed()), bool(flags[i][1])), 'soloed as the override says')
        H.check(H.eq(l.get_muted(local=True), l.mute), 'local flag ignores overrides')
        H.check(H.eq(l.get_soloed(local=True), l.solo), 'local flag ignores overrides')
        H.reach('override' if ents[i] is not None else 'own')
    got = nxt_layer.get_active_layers(layers)
    H.observe('active', [layers.index(l) for l in got])
    H.check(H.eq([layers.index(l) for l in got], want_active(H, flags)), 'contributing layers')


def h_chain(H, case):
    n = case['n']
    ents = [entry(H, 'e%d' % i) for i in range(n)]          # on layer i, for the lowest layer
    other = [H.choice('other%d' % i, [False, True]) for i in range(n)]
    low = C.layer_path(n - 1)
    overs = []
    for i in range(n):
        o = {}
        if other[i]:
            o['/scratch/unrelated.nxt'] = {'mute': True, 'solo': True}
        if ents[i] is not None:
            o[low] = dict(ents[i])
        overs.append(o)
    layers = mk_layers(H, n, overs, chain=True)
    l = layers[-1]
    m, s = l.get_muted(), l.get_soloed()
    near = ents[::-1]
    H.observe('ms', [bool(m), bool(s)])
    H.check(H.eq(bool(m), bool(seen('mute', l.mute, near))), 'topmost entry decides mute')
    H.check(H.eq(bool(s), bool(seen('solo', l.solo, near))), 'topmost entry decides solo')
    H.check(H.eq(l.get_muted(local=True), l.mute), 'local flag ignores overrides')
    H.check(H.eq(l.get_soloed(local=True), l.solo), 'local flag ignores overrides')


def view(layers):
    return [(bool(l.get_muted()), bool(l.get_soloed())) for l in layers]


def h_set(H, case):
    n, at, tgt, kind = case['n'], case['at'], case['tgt'], case['kind']
    overs = [None] * n
    e = entry(H, 'pre')
    if e is not None:
        overs[case['ent']] = {C.layer_path(tgt): e}
    layers = mk_layers(H, n, overs, chain=True)
    before = view(layers)
    state = H.bool('state')
    if kind == 'mute':
        layers[at].set_mute_over(C.layer_path(tgt), state)
    else:
        layers[at].set_solo_over(C.layer_path(tgt), state)
    after = view(layers)
    H.observe('after', after)
    k = 0 if kind == 'mute' else 1
    for i in range(n):
        H.check(H.eq(before[i][1 - k], after[i][1 - k]), 'the other flag is untouched')
        if i != tgt:
            H.check(H.eq(before[i][k], after[i][k]), 'other layers are untouched')
        H.check(H.eq(layers[i].get_muted(local=True), layers[i].mute), 'own flags are untouched')
    if at == 0:
        H.check(H.eq(after[tgt][k], bool(state)), 'an override set on the top layer is seen')
    H.reach('set')


def h_comp(H, case):
    n = case['n']
    data = []
    for i in range(n):
        data.append({'nodes': {'/only%d' % i: {'attrs': {'v': {'value': 'o%d' % i}}},
                               '/all': {'attrs': {'v': {'value': 'a%d' % i}}}},
                     'mute': False, 'solo': False})
    stage = C.mk_stage(data)
    flags = []
    for i, l in enumerate(stage._sub_layers):
        l.set_muted(H.bool('mute%d' % i))
        l.set_soloed(H.bool('solo%d' % i))
        flags.append((l.mute, l.solo))
    comp = stage.build_stage()
    act = want_active(H, flags)
    paths = sorted(comp.descendants(return_type=C.RET.Path)) if act else []
    H.observe('paths', paths)
    want = ['/only%d' % i for i in act]
    if act:
        want.append('/all')
        H.check(H.eq(comp.lookup('/all').v, 'a%d' % act[0]), 'strongest contributing layer wins')
        H.reach('comp')
    else:
        H.reach('allmuted')
    H.check(H.eq(paths, sorted(want)), 'exactly the nodes of the contributing layers')
