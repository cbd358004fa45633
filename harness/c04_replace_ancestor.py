from nxt import nxt_path as P

PROPERTY = 'C04'
BOUNDS = {
    'quick': 'old ancestor of 0..3 names, 0..3 names below it, replacement of 0..3 names, names of '
             '1..2 arbitrary characters without slash',
    'thorough': 'up to 4 names in each of the three parts, names of 1..2 characters'}
BOUNDS['quick'] += '; long: old and new ancestors and rests of up to 9 names'
REACH = ['self', 'below', 'old_world', 'new_world', 'repeat']
ASSUMPTIONS = ['the old ancestor is the path itself or an ancestor of it',
               'names are non-empty, contain no slash']


def lens(maxd):
    out = [[]]
    for d in range(1, maxd + 1):
        out.append([1] * d)
        out.append([2] + [1] * (d - 1))
        if d > 1:
            out.append([1] * (d - 1) + [2])
    return out


def cases(tier):
    d = 3 if tier == 'quick' else 4
    long = [dict(o=[1] * o, r=[1] * r, n=[1] * n) for o, r, n in ((6, 1, 6), (1, 6, 2), (2, 6, 1), (0, 7, 2), (4, 5, 0), (1, 8, 0))]
    return long + [dict(o=o, r=r, n=n) for o in lens(d) for r in lens(d) for n in lens(d)]


def to_path(names):
    p = ''
    for n in names:
        p = p + '/' + n
    return p if p else '/'


def run(H, case):
    old = [H.str('o%d' % i, k, exclude='/') for i, k in enumerate(case['o'])]
    rest = [H.str('r%d' % i, k, exclude='/') for i, k in enumerate(case['r'])]
    new = [H.str('n%d' % i, k, exclude='/') for i, k in enumerate(case['n'])]
    path = to_path(old + rest)
    got = P.replace_ancestor(path, to_path(old), to_path(new))
    H.observe('got', got)
    H.check(H.eq(got, to_path(new + rest)), 'new ancestor followed by the names below the old one')
    H.reach('below' if rest else 'self')
    if not old:
        H.reach('old_world')
    if not new:
        H.reach('new_world')
    if old and rest and len(old[0]) == len(rest[-1]):
        if old[0] == rest[-1]:
            H.reach('repeat')
