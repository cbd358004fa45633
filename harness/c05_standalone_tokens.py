from nxt import tokens as T

PROPERTY = 'C05'
BOUNDS = {
    'quick': 'every unicode text of length 0..9 with all token types; for the typed search a text of '
             'up to 2 characters, an opener, a head as long as the prefix over the letters of the '
             'prefixes and up to 3 more characters over "a${}:"; contents of length 0..8 for wrapping',
    'thorough': 'every unicode text of length 0..13; typed search with up to 5 trailing characters'}
BOUNDS['quick'] += '; long: texts of 7 or 8 pieces, each an opener or a closer'
REACH = ['long', 'found', 'none', 'unclosed', 'nested', 'typed_hit', 'typed_miss', 'wrap', 'notstr']
ASSUMPTIONS = []


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='all', n=n) for n in range(0, 10 if q else 14)]
    for n in range(0, 9 if q else 14):
        out.append(dict(h='wrap', n=n))
    for pre in ('path::', 'file::', 'contents::'):
        for b in range(0, 3):
            for m in range(0, 4 if q else 6):
                out.append(dict(h='typed', pre=pre, b=b, m=m))
    out += [dict(h='all', n=n, chunks=True) for n in (7, 8)]
    out.append(dict(h='odd'))
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


def reference(H, s):
    """Outermost balanced spans, or None when a token is left unclosed."""
    spans = []
    depth = 0
    start = 0
    i = 0
    n = len(s)
    while i < n:
        if i + 1 < n and s[i] == '$' and s[i + 1] == '{':
            if depth == 0:
                start = i
            else:
                H.reach('nested')
            depth += 1
        elif depth and s[i] == '}':
            depth -= 1
            if depth == 0:
                spans.append((start, i + 1))
        i += 1
    if depth:
        return None
    return spans


def h_all(H, case):
    if 'chunks' in case:
        s = ''.join([H.choice('s%d' % i, ['${', 'a}', '}b']) for i in range(case['n'])])
        H.reach('long')
    else:
        s = H.str('s', case['n'])
    got = T.get_standalone_tokens(s)
    H.observe('got', got)
    ref = reference(H, s)
    if ref is None:
        H.check(H.eq(list(got), []), 'unclosed tokens give nothing')
        H.reach('unclosed')
        return
    H.check(H.eq(list(got), [s[a:b] for a, b in ref]), 'exactly the outermost spans, in order')
    H.reach('found' if ref else 'none')


def h_typed(H, case):
    pre = case['pre']
    token_type = {'path::': T.TOKENTYPE.FILEPATH, 'file::': T.TOKENTYPE.FILE,
                  'contents::': T.TOKENTYPE.CONTENTS}[pre]
    head = H.str('head', len(pre), alphabet='pathfilecons:x')
    s = H.str('b', case['b'], alphabet='a$}') + '${' + head + H.str('m', case['m'], alphabet='a${}:')
    got = T.get_standalone_tokens(s, [token_type])
    H.observe('got', got)
    ref = reference(H, s)
    if ref is None:
        H.check(H.eq(list(got), []), 'unclosed tokens give nothing')
        return
    want = []
    for a, b in ref:
        if s[a:b].startswith('${' + pre):
            want.append(s[a:b])
            H.reach('typed_hit')
        else:
            H.reach('typed_miss')
    H.check(H.eq(list(got), want), 'exactly the outermost spans of the requested kind')


def h_wrap(H, case):
    s = H.str('s', case['n'])
    t = T.make_token_str(s)
    H.observe('t', t)
    H.check(H.eq(t, '${' + s + '}'), 'wrapping adds exactly the token syntax')
    H.check(H.eq(T.get_token_content(t), s), 'stripping gives the content back')
    H.reach('wrap')


def h_odd(H, case):
    for v in (None, 0, 5, [], ['${a}'], True, 1.5):
        H.check(H.eq(list(T.get_standalone_tokens(v)), []), 'values that are no text have no tokens')
    H.reach('notstr')
