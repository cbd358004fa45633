from nxt import tokens as T

PROPERTY = 'C06'
BOUNDS = {'quick': 'every unicode text of length 0..9', 'thorough': 'every unicode text of length 0..12'}
BOUNDS['quick'] += '; long: texts of 7 or 8 pieces, each an opener or a closer'
REACH = ['long', 'none', 'hit', 'several']
ASSUMPTIONS = []


def cases(tier):
    return [dict(n=n, chunks=True) for n in (7, 8)] + [dict(n=n) for n in range(0, 10 if tier == 'quick' else 13)]


def run(H, case):
    if 'chunks' in case:
        s = ''.join([H.choice('s%d' % i, ['${', 'a}', '}b']) for i in range(case['n'])])
        H.reach('long')
    else:
        s = H.str('s', case['n'])
    b, t, a = T.atomic_token_partition(s)
    H.observe('p', [b, t, a])
    # reference: the last opener, and the first closer after it
    last = -1
    for i in range(len(s) - 2, -1, -1):
        if s[i] == '$' and s[i + 1] == '{':
            last = i
            break
    close = -1
    if last >= 0:
        for i in range(last + 2, len(s)):
            if s[i] == '}':
                close = i
                break
    if close < 0:
        H.check(b is None and t is None and a is None, 'nothing to find')
        found = T.get_atomic_tokens(s)
        H.check(len(found) == 0, 'no atomic tokens')
        H.reach('none')
        return
    H.check(b is not None and t is not None and a is not None, 'a token is found')
    H.check(H.eq(b, s[:last]), 'text before')
    H.check(H.eq(t, s[last:close + 1]), 'the innermost token')
    H.check(H.eq(a, s[close + 1:]), 'text after')
    H.check(H.eq(b + t + a, s), 'nothing is lost')
    H.check(H.not_(H.any_of([H.all_of([H.eq(t[i], '$'), H.eq(t[i + 1], '{')])
                             for i in range(1, len(t) - 1)])), 'no token inside')
    H.reach('hit')
    found = list(T.get_atomic_tokens(s))
    H.check(H.any_of([H.eq(t, f) for f in found]), 'the partitioned token is among the atomic ones')
    H.reach('several' if len(found) > 1 else 'hit')
    for f in found:
        n = len(f)
        H.check(n >= 3, 'delimited')
        H.check(H.all_of([H.eq(f[:2], '${'), H.eq(f[-1:], '}')]), 'delimited')
        H.check(H.not_(H.any_of([H.all_of([H.eq(f[i], '$'), H.eq(f[i + 1], '{')])
                                 for i in range(1, n - 1)])), 'innermost')
        H.check(H.not_(H.any_of([H.eq(c, '}') for c in f[:-1]])), 'ends at its first closer')
        H.check(H.any_of([H.eq(s[i:i + n], f) for i in range(len(s) - n + 1)]), 'a piece of the text')
    for i in range(len(found)):
        for j in range(i):
            H.check(H.not_(H.eq(found[i], found[j])), 'each once')
