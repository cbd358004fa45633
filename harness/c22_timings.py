from nxt import nxt_layer

PROPERTY = 'C22'
BOUNDS = {
    'quick': 'every sequence of up to 5 enter/exit events of 2 nodes (nested or one after the other) '
             'at symbolic non-decreasing real times, asked at a symbolic instant and run index',
    'thorough': 'up to 7 events of 3 nodes'}
BOUNDS['quick'] += '; long: up to 15 events of one node'
REACH = ['inside', 'outside', 'open', 'runtime', 'notime', 'neverentered', 'notopen']
ASSUMPTIONS = ['times are positive and events arrive in time order',
               'a node is not entered again while it is running']


def cases(tier):
    n, k = (5, 2) if tier == 'quick' else (7, 3)
    return [dict(h='events', n=i, k=k) for i in range(0, n + 1)] + [dict(h='events', n=i, k=1) for i in (12, 15)]


def run(H, case):
    cache = nxt_layer.CacheLayer()
    paths = ['/a', '/a/b', '/c'][:case['k']]
    open_ = {}
    runs = dict([(p, []) for p in paths])
    last = 0
    for i in range(case['n']):
        t = H.real('t%d' % i, 1, 1000)
        H.assume(last <= t)
        last = t
        p = H.choice('node%d' % i, paths)
        if p in open_:
            cache.set_node_exit_time(p, t)
            runs[p][-1][1] = t
            del open_[p]
        else:
            cache.set_node_enter_time(p, t)
            runs[p].append([t, None])
            open_[p] = t
    for p in paths:
        if p not in open_:
            try:
                cache.set_node_exit_time(p, 5.0)
            except (KeyError, IndexError, ValueError):
                H.reach('notopen' if runs[p] else 'neverentered')
            else:
                H.check(False, 'leaving a node that is not running is an error')
    x = H.real('x', 0, 1001)
    got = cache.was_during_node_exec(x)
    want = H.any_of([H.all_of([e <= x, True if o is None else x <= o])
                     for rs in runs.values() for e, o in rs])
    H.check(H.eq(bool(got), bool(want)), 'inside exactly when an interval contains the instant')
    H.observe('inside', bool(got))
    H.reach('inside' if bool(got) else 'outside')
    if open_:
        H.reach('open')
    for p in paths:
        for idx in range(-3, 3) if case['n'] < 10 else range(-9, 9):
            rs = runs[p]
            there = -len(rs) <= idx < len(rs)
            if there and rs[idx][1] is None:
                continue
            try:
                r = cache.get_node_run_time(p, idx)
            except ValueError:
                H.check(not there, 'a recorded run has a time')
                H.reach('notime')
                continue
            H.check(there, 'no time for a run that is not recorded')
            H.check(H.eq(r, rs[idx][1] - rs[idx][0]), 'exit minus enter')
            H.reach('runtime')
        if runs[p] and runs[p][-1][1] is not None:
            H.check(H.eq(cache.get_node_run_time(p), runs[p][-1][1] - runs[p][-1][0]),
                    'the latest run by default')
