"""Symbolic regular-expression matching: interprets CPython's parsed pattern over symbolic
characters, forking on every character-class test (the usual backtracking order)."""
import re

try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc

from . import terms as T
from .values import (SStr, mk_str, chars_of, in_ranges, eng, is_strlike, _class_ranges, SPACES)

_cat = {}


def cat_ranges(name, ascii_only):
    key = (name, ascii_only)
    if key not in _cat:
        lim = (lambda ch: ord(ch) < 128) if ascii_only else (lambda ch: True)
        if name == 'digit':
            _cat[key] = _class_ranges(lambda ch: ch.isdecimal() and lim(ch))
        elif name == 'space':
            _cat[key] = _class_ranges(lambda ch: ch.isspace() and lim(ch))
        else:
            _cat[key] = _class_ranges(lambda ch: (ch.isalnum() or ch == '_') and lim(ch))
    return _cat[key]


class Unsupported(Exception):
    pass


class Matcher(object):
    def __init__(self, pattern, flags=0):
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags | flags
        if self.flags & (re.IGNORECASE | re.VERBOSE | re.LOCALE):
            if self.flags & re.IGNORECASE:
                raise Unsupported('ignorecase')
        self.ascii = bool(self.flags & re.ASCII)
        self.ngroups = self.tree.state.groups
        self.groupindex = dict(self.tree.state.groupdict)

    # term: character matches item
    def _cls(self, c, items):
        neg = False
        alts = []
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                alts.append(T.t_eq(c, av))
            elif op is sc.RANGE:
                alts.append(in_ranges(c, [av]))
            elif op is sc.CATEGORY:
                alts.append(self._category(c, av))
            else:
                raise Unsupported(str(op))
        t = T.t_or(alts)
        return T.t_not(t) if neg else t

    def _category(self, c, av):
        n = str(av).lower()
        for k in ('digit', 'space', 'word'):
            if n.endswith(k):
                t = in_ranges(c, cat_ranges(k, self.ascii))
                return T.t_not(t) if '_not_' in n else t
        raise Unsupported(n)

    def _single(self, op, av, c):
        if op is sc.LITERAL:
            return T.t_eq(c, av)
        if op is sc.NOT_LITERAL:
            return T.t_not(T.t_eq(c, av))
        if op is sc.ANY:
            if self.flags & re.DOTALL:
                return True
            return T.t_not(T.t_eq(c, 10))
        if op is sc.IN:
            return self._cls(c, av)
        return None

    def _word(self, s, i):
        return 0 <= i < len(s) and eng().branch(in_ranges(s[i], cat_ranges('word', self.ascii)))

    def m(self, items, k, s, i, g, cont):
        """Match items[k:] at i with groups g, then cont(i, g); returns cont's result or None."""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]

        def nxt(j, g2):
            return self.m(items, k + 1, s, j, g2, cont)
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i < len(s) and eng().branch(self._single(op, av, s[i])):
                return nxt(i + 1, g)
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0
                if not ok and av is sc.AT_BEGINNING and self.flags & re.MULTILINE:
                    ok = eng().branch(T.t_eq(s[i - 1], 10))
            elif av is sc.AT_END:
                ok = i == len(s) or (
                    (i == len(s) - 1 or self.flags & re.MULTILINE)
                    and eng().branch(T.t_eq(s[i], 10)))
            elif av is sc.AT_END_STRING:
                ok = i == len(s)
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                b = self._word(s, i - 1) != self._word(s, i)
                ok = b if av is sc.AT_BOUNDARY else not b
            else:
                raise Unsupported(str(av))
            return nxt(i, g) if ok else None
        if op is sc.SUBPATTERN:
            gid, addf, delf, p = av
            if addf or delf:
                raise Unsupported('inline flags')

            def close(j, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                return nxt(j, g2)
            return self.m(list(p), 0, s, i, g, close)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, s, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is sc.MAX_REPEAT

            def rep(n, j, g2, last):
                def more():
                    if (hi is sc.MAXREPEAT or n < hi) and not (n >= lo and j == last):
                        return self.m(p, 0, s, j, g2, lambda j2, g3: rep(n + 1, j2, g3, j))
                    return None
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    if r is not None:
                        return r
                    return nxt(j, g2)
                r = nxt(j, g2)
                if r is not None:
                    return r
                return more()
            return rep(0, i, g, -1)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            p = list(p)
            if direction > 0:
                r = self.m(p, 0, s, i, g, lambda j, g2: (j, g2))
            else:
                lo, hi = av[1].getwidth()
                if lo != hi:
                    raise Unsupported('lookbehind')
                r = None
                if i - lo >= 0:
                    r = self.m(p, 0, s, i - lo, g, lambda j, g2: (j, g2) if j == i else None)
            if op is sc.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is sc.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            n = b - a
            if i + n > len(s):
                return None
            if eng().branch(T.t_and([T.t_eq(x, y) for x, y in zip(s[a:b], s[i:i + n])])):
                return nxt(i + n, g)
            return None
        raise Unsupported(str(op))

    def at(self, s, i, full=False):
        r = self.m(list(self.tree), 0, s, i, {},
                   lambda j, g: (j, g) if (not full or j == len(s)) else None)
        return r


class SMatch(object):
    def __init__(self, mt, string, start, end, groups, pat):
        self.re = pat
        self.string = string
        self._m = mt
        self._s, self._e, self._g = start, end, groups

    def _gid(self, k):
        if isinstance(k, str):
            return self._m.groupindex[k]
        return k

    def span(self, k=0):
        k = self._gid(k)
        if k == 0:
            return self._s, self._e
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        if a < 0:
            return default
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self._m.ngroups))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self._m.groupindex.items()}

    @property
    def lastindex(self):
        return max(self._g) if self._g else None


_mcache = {}


def matcher(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        flags = pattern.flags
        pattern = pattern.pattern
    key = (pattern, flags)
    if key not in _mcache:
        _mcache[key] = Matcher(pattern, flags & ~re.UNICODE if isinstance(pattern, str) else flags)
    return _mcache[key]


def do(name, pattern, args, kwargs):
    """Run re.<name>(pattern, *args) symbolically.  Raises Unsupported if it cannot."""
    flags = kwargs.pop('flags', 0)
    mt = matcher(pattern, flags)
    if name in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'split'):
        string = args[0]
        if len(args) > 1 or kwargs:
            raise Unsupported('pos/flags')
    else:
        repl, string = args[0], args[1]
        count = args[2] if len(args) > 2 else kwargs.get('count', 0)
    s = chars_of(string)

    def mk(i, r):
        return SMatch(mt, string, i, r[0], r[1], pattern)
    if name in ('match', 'fullmatch'):
        r = mt.at(s, 0, name == 'fullmatch')
        return None if r is None else mk(0, r)
    if name == 'search':
        for i in range(len(s) + 1):
            r = mt.at(s, i)
            if r is not None:
                return mk(i, r)
        return None
    found = []
    i = 0
    last = -1
    while i <= len(s):
        r = mt.at(s, i)
        if r is None or (r[0] == i and i == last):
            i += 1
            continue
        found.append(mk(i, r))
        last = r[0]
        i = r[0] if r[0] > i else i
        if r[0] == i and found[-1]._s == i:
            # empty match: python retries a non-empty match at the same place; step on
            i += 1
        if name in ('sub', 'subn') and count and len(found) >= count:
            break
    if name == 'finditer':
        return iter(found)
    if name == 'findall':
        out = []
        for m in found:
            if mt.ngroups == 1:
                out.append(m.group())
            elif mt.ngroups == 2:
                v = m.group(1)
                out.append('' if v is None else v)
            else:
                out.append(tuple('' if v is None else v for v in m.groups()))
        return out
    if name == 'split':
        out, p = [], 0
        for m in found:
            out.append(string[p:m.start()])
            out.extend(m.groups())
            p = m.end()
        out.append(string[p:])
        return out
    if name in ('sub', 'subn'):
        out, p = '', 0
        for m in found:
            out = out + string[p:m.start()]
            if callable(repl) and not is_strlike(repl):
                out = out + repl(m)
            else:
                if type(repl) is SStr:
                    raise Unsupported('symbolic replacement')
                out = out + _expand(repl, m)
            p = m.end()
        out = out + string[p:]
        return (out, len(found)) if name == 'subn' else out
    raise Unsupported(name)


def _expand(template, m):
    out = ''
    i = 0
    while i < len(template):
        ch = template[i]
        if ch == '\\' and i + 1 < len(template):
            n = template[i + 1]
            if n.isdigit():
                out = out + (m.group(int(n)) or '')
                i += 2
                continue
            if n == 'g':
                j = template.index('>', i)
                k = template[i + 3:j]
                out = out + (m.group(int(k) if k.isdigit() else k) or '')
                i = j + 1
                continue
            if n == '\\':
                out = out + '\\'
                i += 2
                continue
            raise Unsupported('escape in template')
        out = out + ch
        i += 1
    return out
