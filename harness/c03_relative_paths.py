from nxt import nxt_path as P

PROPERTY = 'C03'
BOUNDS = {
    'quick': 'every relative path string of length 0..6 over all characters, from absolute start '
             'paths of 0..3 names of 1..2 characters',
    'thorough': 'every relative path string of length 0..9, start paths of 0..4 names'}
BOUNDS['quick'] += '; long: paths of 8 parts from starts of 0, 3 and 6 names'
REACH = ['long', 'none', 'absolute', 'relative', 'up', 'clamped', 'world_start', 'empty_part']
ASSUMPTIONS = ['start names are non-empty, contain no slash']


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 7 if q else 10):
        for s in ([], [1], [2], [1, 1], [2, 1], [1, 1, 1]) if q else ([], [1], [2], [1, 1], [1, 2, 1], [1] * 4):
            out.append(dict(n=n, s=s))
    out += [dict(n=None, s=[1] * k) for k in (0, 3, 6)]
    return out


def to_path(names):
    p = ''
    for n in names:
        p = p + '/' + n
    return p if p else '/'


def run(H, case):
    names = [H.str('n%d' % i, k, exclude='/') for i, k in enumerate(case['s'])]
    start = to_path(names)
    if case['n'] is None:
        # many parts
        rel = '/'.join([H.choice('part%d' % i, ['..', 'b', '.', '']) for i in range(3)] +
                       [H.choice('part%d' % i, ['..', 'b..']) for i in range(3, 8)])
        H.assume(rel[0] != '/')
        H.reach('long')
    else:
        rel = H.str('rel', case['n'])
    r = P.expand_relative_node_path(rel, start)
    H.observe('r', r)
    if case['n'] == 0:
        H.check(r is None, 'an empty path expands to nothing')
        H.reach('none')
        return
    if rel[0] == '/':
        H.check(H.eq(r, rel), 'an absolute path is returned unchanged')
        H.reach('absolute')
        return
    # reference: interpret the parts one after the other
    stack = list(names)
    cur = ''
    for c in list(rel) + ['/']:
        if c == '/':
            if cur == '' or cur == '.':
                if cur == '':
                    H.reach('empty_part')
            elif cur == '..':
                H.reach('up')
                if stack:
                    stack.pop()
                else:
                    H.reach('clamped')
            else:
                stack.append(cur)
            cur = ''
        else:
            cur = cur + c
    H.check(H.eq(r, to_path(stack)), 'parts are interpreted left to right')
    H.reach('relative')
    if not names:
        H.reach('world_start')
