from nxt import nxt_node as N

PROPERTY = 'C08'
BOUNDS = {'quick': 'base and overlay lists of 0..4 names each; every equality pattern between the names '
                   '(names are symbolic)',
          'thorough': 'base and overlay lists of 0..5 names each'}
BOUNDS['quick'] += '; long: lists of up to 9 names next to short ones'
REACH = ['disjoint', 'overlap', 'subset', 'equal', 'new']
ASSUMPTIONS = ['both lists are non-repeating (documented)']


def cases(tier):
    n = 5 if tier == 'quick' else 6
    return [dict(b=b, o=o) for b in range(n) for o in range(n)] + [dict(b=b, o=o) for b, o in ((6, 2), (7, 2), (9, 1), (2, 6), (1, 9), (6, 3))]


def run(H, case):
    base = [H.str('b%d' % i, 1) for i in range(case['b'])]
    over = [H.str('o%d' % i, 1) for i in range(case['o'])]
    for lst in (base, over):
        for i in range(len(lst)):
            for j in range(i):
                H.assume(H.not_(H.eq(lst[i], lst[j])))
    b0, o0 = list(base), list(over)
    got = N.list_merger(base, over)
    H.observe('got', got)
    new = []
    for o in over:
        if not any([bool(o == b) for b in base]):
            new.append(o)
    H.check(H.eq(base, b0), 'base list untouched')
    H.check(H.eq(over, o0), 'overlay list untouched')
    H.check(got is not base, 'result is a new list')
    H.check(len(got) == len(base) + len(new), 'every name once')
    for x in base + new:
        H.check(H.any_of([H.eq(x, g) for g in got]), 'no name is lost')
    for i in range(len(got)):
        for j in range(i):
            H.check(H.not_(H.eq(got[i], got[j])), 'no name is repeated')
    kept = [g for g in got if any([bool(g == b) for b in base])]
    H.check(H.eq(kept, base), 'base order is kept')
    if not new:
        H.check(H.eq(list(got), base), 'an overlay without new names changes nothing')
        H.reach('subset')
        if len(base) == len(over):
            H.reach('equal')
    else:
        H.reach('new')
        H.reach('disjoint' if len(new) == len(over) else 'overlap')
