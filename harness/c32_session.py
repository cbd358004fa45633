from nxt import nxt_io, nxt_layer, nxt_log
from nxt import session as nxt_session
from nxt import stage as nxt_stage
from harness import common as C

PROPERTY = 'C32'
LONG = ['new new new close new new close', 'new load new load close close new',
        'name new new name new close new', 'load new close name new new new']
BOUNDS = {
    'quick': 'every history of up to 4 operations (a new graph, opening one of two files - again, too -, giving '
             'an open graph a name of up to 10 symbolic characters, closing an open graph or one that is not '
             'open) under every clock that does not run backwards (graphs opened at the same time or later)',
    'thorough': 'histories of up to 5 operations'}
BOUNDS['quick'] += '; %d given histories of 7 operations' % len(LONG)
REACH = ['new', 'load', 'close', 'unknown', 'name', 'taken', 'same time', 'fails']
ASSUMPTIONS = ['reading files is stubbed by an in-memory store', 'the session log is not written',
               'a clock reading is a number of milliseconds']
OPS = ['new', 'load', 'name', 'close', 'unknown']


class Clock(object):
    def __init__(self, H):
        self.H, self.at = H, 1000

    def tick(self, n):
        self.at = self.at + self.H.choice('tick %d' % n, [0, 1])

    def time(self):
        return self.at / 1000.0


def cases(tier):
    n = 3 if tier == 'quick' else 4
    return [dict(first=o, n=n) for o in ('new', 'load', 'fail')] + [dict(first='new', n=6, ops=o) for o in LONG]


def run(H, case):
    def load(path):
        if path == '/t/gone.nxt':
            raise IOError(path)
        return {'version': '1.17.0', 'filepath': path, 'real_path': '/tmp/' + path.replace('/', '_'),
                'name': 'x', 'nodes': {'/n': {}}}
    keep = nxt_io.load_file_data, nxt_log.make_session_log, nxt_stage.time
    nxt_io.load_file_data = load
    nxt_log.make_session_log = lambda filename=None: None
    clock = nxt_stage.time = Clock(H)
    try:
        history(H, case, clock)
    finally:
        nxt_io.load_file_data, nxt_log.make_session_log, nxt_stage.time = keep


def history(H, case, clock):
    s = nxt_session.Session()
    open_graphs = []

    def judge():
        H.check(len(s.loaded_files) == len(open_graphs), 'as many graphs as were opened and not closed')
        for st in open_graphs:
            H.check(s.loaded_files.get(st.uid) is st, 'every open graph is found by its id')
    for i in range(case['n'] + 1):
        clock.tick(i)
        op = case['first'] if i == 0 else case['ops'].split()[i - 1] if 'ops' in case else H.choice('op %d' % i, OPS)
        if op == 'new':
            taken = [st._name for st in open_graphs]
            st = s.new_file()
            name = st._name
            H.check(H.all_of([H.not_(H.eq(name, t)) for t in taken]), 'a new graph has a name of its own')
            free = H.all_of([H.not_(H.eq('untitled', t)) for t in taken])
            H.check(H.any_of([H.not_(free), H.eq(name, 'untitled')]), 'and the usual one where it is free')
            H.reach('taken' if name != 'untitled' else 'new')
            open_graphs.append(st)
        elif op == 'load':
            p = '/t/%s.nxt' % H.choice('file %d' % i, ['a', 'b'])
            st = s.load_file(p)
            H.check(st.top_layer.filepath == p and st.top_layer.lookup('/n') is not None, 'the file is open')
            H.check(not [x for x in open_graphs if x is st], 'as a graph of its own')
            open_graphs.append(st)
            H.reach('load')
        elif op == 'fail':
            try:
                s.load_file('/t/gone.nxt')
                H.check(False, 'a missing file does not open')
            except IOError:
                H.reach('fails')
        elif not open_graphs or op == 'unknown':
            try:
                s.unload_file(-1.0)
                H.check(False, 'a graph that is not open does not close')
            except LookupError:
                H.reach('unknown')
        else:
            k = H.choice('which %d' % i, list(range(len(open_graphs))))
            if op == 'close':
                s.unload_file(open_graphs.pop(k).uid)
                H.reach('close')
            else:
                name = H.choice('name %d' % i, ['untitled', 'untitled1', 'untitled2', None])
                open_graphs[k]._name = H.str('s %d' % i, 10) if name is None else name
                H.reach('name')
        judge()
    if len(open_graphs) > 1:
        H.reach('same time')
