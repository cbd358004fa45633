"""Symbolic values that flow through the instrumented code: SBool, SNum and SStr."""
from . import engine as E
from . import terms as T


def eng():
    e = E.ENGINE
    if e is None:
        raise RuntimeError('symbolic value used outside of an exploration')
    return e


def mk_bool(t):
    if t is True or t is False:
        return t
    return SBool(t)


class SBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, SBool) or type(o) is bool:
            b = bool_term(o)
            return mk_bool(T.t_or([T.t_and([self.t, b]),
                                   T.t_and([T.t_not(self.t), T.t_not(b)])]))
        return bool(self) == o

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mk_bool(T.t_and([self.t, bool_term(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(T.t_or([self.t, bool_term(o)]))
    __ror__ = __or__

    def __invert__(self):
        return mk_bool(T.t_not(self.t))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __lt__(self, o):
        return bool(self) < o

    def __gt__(self, o):
        return bool(self) > o

    def __le__(self, o):
        return bool(self) <= o

    def __ge__(self, o):
        return bool(self) >= o

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))


def bool_term(x):
    if type(x) is SBool:
        return x.t
    if x is True or x is False:
        return x
    return bool(x)


def sym_not(x):
    if type(x) is SBool:
        return mk_bool(T.t_not(x.t))
    return not x


# ---------------------------------------------------------------- numbers
def mk_num(t, real=False):
    if not isinstance(t, tuple):
        return t
    return SNum(t, real)


def num_term(x):
    if type(x) is SNum:
        return x.t
    if type(x) is SBool:
        return int(bool(x))
    if isinstance(x, float):
        from fractions import Fraction
        return Fraction(x)
    if isinstance(x, (bool,)):
        return int(x)
    if isinstance(x, int):
        return x
    from fractions import Fraction
    if isinstance(x, Fraction):
        return x
    return None


class SNum(object):
    __slots__ = ('t', 'real')

    def __init__(self, t, real=False):
        self.t = t
        self.real = real

    @property
    def __class__(self):
        return float if self.real else int

    def conc(self):
        v = eng().concretise(self.t, 'number')
        return float(v) if self.real else int(v)

    def _isreal(self, o):
        return self.real or isinstance(o, float)

    def _bin(self, o, f, swap=False):
        b = num_term(o)
        if b is None:
            return NotImplemented
        x, y = (b, self.t) if swap else (self.t, b)
        return mk_num(f(x, y), self._isreal(o))

    def __add__(self, o):
        return self._bin(o, T.t_add)

    def __radd__(self, o):
        return self._bin(o, T.t_add, True)

    def __sub__(self, o):
        return self._bin(o, T.t_sub)

    def __rsub__(self, o):
        return self._bin(o, T.t_sub, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.conc()
        b = num_term(o)
        if b is None:
            return NotImplemented
        if isinstance(b, tuple):
            return self * (o.conc())
        return mk_num(T.t_mul(self.t, b), self._isreal(o))
    __rmul__ = __mul__

    def __neg__(self):
        return mk_num(T.t_sub(0, self.t), self.real)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if type(o) is int and o > 0 and not self.real:
            return mk_num(('idiv', self.t, o))
        return self.conc() // o

    def __mod__(self, o):
        if type(o) is int and o > 0 and not self.real:
            return mk_num(('imod', self.t, o))
        return self.conc() % o

    def __truediv__(self, o):
        return self.conc() / o

    def __rtruediv__(self, o):
        return o / self.conc()

    def _cmp(self, o, f):
        b = num_term(o)
        if b is None:
            return NotImplemented
        return mk_bool(f(self.t, b))

    def __lt__(self, o):
        return self._cmp(o, T.t_lt)

    def __le__(self, o):
        return self._cmp(o, T.t_le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.t_lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.t_le(b, a))

    def __eq__(self, o):
        b = num_term(o)
        if b is None:
            return False
        return mk_bool(T.t_eq(self.t, b))

    def __ne__(self, o):
        return sym_not(self == o)

    def __bool__(self):
        return eng().branch(T.t_not(T.t_eq(self.t, 0)))

    def __index__(self):
        if self.real:
            raise TypeError('float used as index')
        return self.conc()

    def __int__(self):
        return int(self.conc())

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __str__(self):
        return str(self.conc())
    __repr__ = __str__

    def __round__(self, n=None):
        return round(self.conc(), n) if n is not None else round(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return self.conc() == int(self.conc())

    def __reduce__(self):
        return (float if self.real else int, (self.conc(),))


# ---------------------------------------------------------------- strings
def mk_str(chars):
    for c in chars:
        if isinstance(c, tuple):
            return SStr(tuple(chars))
    return ''.join(map(chr, chars))


def chars_of(s):
    if type(s) is SStr:
        return s.c
    return tuple(map(ord, s))


def is_strlike(x):
    return type(x) is SStr or isinstance(x, str)


def str_eq_term(a, b):
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    return T.t_and([T.t_eq(x, y) for x, y in zip(ca, cb)])


def in_ranges(c, ranges):
    """Term: code point c lies in one of the inclusive ranges."""
    if not isinstance(c, tuple):
        return any(lo <= c <= hi for lo, hi in ranges)
    out = []
    for lo, hi in ranges:
        if lo == hi:
            out.append(T.t_eq(c, lo))
        else:
            out.append(T.t_and([T.t_le(lo, c), T.t_le(c, hi)]))
    return T.t_or(out)


def _class_ranges(pred):
    out = []
    start = None
    for i in range(0x110000):
        if pred(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, 0x10ffff))
    return out


_ranges = {}


def class_ranges(name):
    if name not in _ranges:
        _ranges[name] = _class_ranges(lambda ch: getattr(ch, name)())
    return _ranges[name]


SPACES = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a),
          (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]


class SStr(object):
    """A string of known length whose characters may be symbolic."""
    __slots__ = ('c', '_h')

    def __init__(self, chars):
        self.c = tuple(chars)
        self._h = None

    @property
    def __class__(self):
        return str

    # -- conversion
    def conc(self, why=''):
        e = eng()
        return ''.join(chr(e.concretise(c, why)) for c in self.c)

    def __str__(self):
        return self.conc('str')

    def __repr__(self):
        return repr(self.conc('repr'))

    def __format__(self, spec):
        return format(self.conc('format'), spec)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.conc('hash'))
        return self._h

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (self.conc('pickle'),))

    def __fspath__(self):
        return self.conc('fspath')

    # -- basics
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __iter__(self):
        for c in self.c:
            yield mk_str((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.c[i])
        return mk_str((self.c[i],))

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk_str(self.c + chars_of(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk_str(chars_of(o) + self.c)

    def __mul__(self, n):
        return mk_str(self.c * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from .hooks import mod_format
        return mod_format(self, args)

    def __eq__(self, o):
        if not is_strlike(o):
            return False
        return mk_bool(str_eq_term(self, o))

    def __ne__(self, o):
        return sym_not(self == o)

    def __lt__(self, o):
        return self._lex(o, False)

    def __le__(self, o):
        return self._lex(o, True)

    def __gt__(self, o):
        return sym_not(self._lex(o, True))

    def __ge__(self, o):
        return sym_not(self._lex(o, False))

    def _lex(self, o, eq):
        a, b = self.c, chars_of(o)
        if len(a) == len(b):
            r = eq
        else:
            r = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            r = T.t_or([T.t_lt(x, y), T.t_and([T.t_eq(x, y), r])])
        return mk_bool(r)

    # -- searching
    def _at(self, sub, i):
        return T.t_and([T.t_eq(x, y) for x, y in zip(self.c[i:i + len(sub)], sub)])

    def _span(self, args):
        start = 0 if not args or args[0] is None else int(args[0])
        end = len(self.c) if len(args) < 2 or args[1] is None else int(args[1])
        n = len(self.c)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end += n
        return start, min(end, n)

    def __contains__(self, sub):
        if not is_strlike(sub):
            raise TypeError("'in <string>' requires string as left operand")
        s = chars_of(sub)
        return eng().branch(T.t_or([self._at(s, i) for i in range(len(self.c) - len(s) + 1)]))

    def contains(self, sub):
        s = chars_of(sub)
        return mk_bool(T.t_or([self._at(s, i) for i in range(len(self.c) - len(s) + 1)]))

    def find(self, sub, *args):
        s = chars_of(sub)
        start, end = self._span(args)
        for i in range(start, end - len(s) + 1):
            if eng().branch(self._at(s, i)):
                return i
        return -1

    def rfind(self, sub, *args):
        s = chars_of(sub)
        start, end = self._span(args)
        for i in range(end - len(s), start - 1, -1):
            if eng().branch(self._at(s, i)):
                return i
        return -1

    def index(self, sub, *args):
        r = self.find(sub, *args)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *args):
        r = self.rfind(sub, *args)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *args):
        s = chars_of(sub)
        start, end = self._span(args)
        if not s:
            return max(0, end - start + 1)
        n, i = 0, start
        while i <= end - len(s):
            if eng().branch(self._at(s, i)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def _affix(self, p, args, at_end):
        if isinstance(p, tuple):
            return mk_bool(T.t_or([bool_term(self._affix(x, args, at_end)) for x in p]))
        if not is_strlike(p):
            raise TypeError('startswith first arg must be str or a tuple of str')
        s = chars_of(p)
        start, end = self._span(args)
        if len(s) > end - start or start > len(self.c):
            return False
        return mk_bool(self._at(s, end - len(s) if at_end else start))

    def startswith(self, p, *args):
        return self._affix(p, args, False)

    def endswith(self, p, *args):
        return self._affix(p, args, True)

    # -- splitting
    def partition(self, sep):
        n = len(chars_of(sep))
        if not n:
            raise ValueError('empty separator')
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + n:]

    def rpartition(self, sep):
        n = len(chars_of(sep))
        if not n:
            raise ValueError('empty separator')
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + n:]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        s = chars_of(sep)
        if not s:
            raise ValueError('empty separator')
        out, last, i = [], 0, 0
        while i <= len(self.c) - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if eng().branch(self._at(s, i)):
                out.append(self[last:i])
                i += len(s)
                last = i
            else:
                i += 1
        out.append(self[last:])
        return out

    def _split_ws(self, maxsplit=-1):
        out, cur = [], None
        for i, c in enumerate(self.c):
            if eng().branch(in_ranges(c, SPACES)):
                if cur is not None:
                    out.append(self[cur:i])
                    cur = None
            else:
                if cur is None:
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        out.append(self[i:].rstrip())
                        return out
                    cur = i
        if cur is not None:
            out.append(self[cur:])
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._split_ws()
            return self.conc('rsplit').rsplit(None, maxsplit)
        s = chars_of(sep)
        if not s:
            raise ValueError('empty separator')
        out, last, i = [], len(self.c), len(self.c) - len(s)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if eng().branch(self._at(s, i)):
                out.append(self[i + len(s):last])
                last = i
                i -= len(s)
            else:
                i -= 1
        out.append(self[:last])
        return out[::-1]

    def splitlines(self, keepends=False):
        return self.conc('splitlines').splitlines(keepends)

    def replace(self, old, new, count=-1):
        o, n = chars_of(old), chars_of(new)
        if not o:
            return self.conc('replace').replace(old, new, count)
        out, i, k = [], 0, 0
        L = len(self.c)
        while i < L:
            if i <= L - len(o) and (count < 0 or k < count) and eng().branch(self._at(o, i)):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(self.c[i])
                i += 1
        return mk_str(out)

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if not is_strlike(it):
                raise TypeError('sequence item %d: expected str instance' % k)
            if k:
                out.extend(self.c)
            out.extend(chars_of(it))
        return mk_str(out)

    # -- stripping / padding
    def _strip(self, chars, left, right):
        if chars is None:
            def test(c):
                return in_ranges(c, SPACES)
        else:
            cs = chars_of(chars)

            def test(c):
                return T.t_or([T.t_eq(c, x) for x in cs])
        i, j = 0, len(self.c)
        if left:
            while i < j and eng().branch(test(self.c[i])):
                i += 1
        if right:
            while j > i and eng().branch(test(self.c[j - 1])):
                j -= 1
        return mk_str(self.c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self[:-len(p)]
        return self

    def zfill(self, w):
        return self.conc('zfill').zfill(w)

    def ljust(self, w, f=' '):
        return mk_str(self.c + chars_of(f) * max(0, w - len(self.c)))

    def rjust(self, w, f=' '):
        return mk_str(chars_of(f) * max(0, w - len(self.c)) + self.c)

    # -- case and classes
    def _case(self, lo, hi, delta, name):
        out = []
        for c in self.c:
            if not isinstance(c, tuple):
                out.extend(map(ord, getattr(chr(c), name)()))
                continue
            if eng().branch(T.t_lt(c, 128)):
                out.append(T.t_ite(T.t_and([T.t_le(lo, c), T.t_le(c, hi)]),
                                   T.t_add(c, delta), c))
            else:
                ch = chr(eng().concretise(c, 'case'))
                out.extend(map(ord, getattr(ch, name)()))
        return mk_str(out)

    def lower(self):
        return self._case(65, 90, 32, 'lower')

    def casefold(self):
        return self._case(65, 90, 32, 'casefold')

    def upper(self):
        return self._case(97, 122, -32, 'upper')

    def capitalize(self):
        return self[:1].upper() + self[1:].lower() if self.c else self

    def title(self):
        return self.conc('title').title()

    def swapcase(self):
        return self.conc('swapcase').swapcase()

    def _all(self, name):
        if not self.c:
            return False
        r = class_ranges(name)
        return mk_bool(T.t_and([in_ranges(c, r) for c in self.c]))

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isascii(self):
        return mk_bool(T.t_and([T.t_lt(c, 128) for c in self.c]))

    def isidentifier(self):
        if not self.c:
            return False
        if '_idstart' not in _ranges:
            _ranges['_idstart'] = _class_ranges(lambda ch: ch.isidentifier())
            _ranges['_idcont'] = _class_ranges(lambda ch: ('a' + ch).isidentifier())
        return mk_bool(T.t_and([in_ranges(self.c[0], _ranges['_idstart'])] +
                               [in_ranges(c, _ranges['_idcont']) for c in self.c[1:]]))

    def isupper(self):
        return self.conc('isupper').isupper()

    def islower(self):
        return self.conc('islower').islower()

    def istitle(self):
        return self.conc('istitle').istitle()

    def isprintable(self):
        return self._all('isprintable')

    def encode(self, *a, **k):
        return self.conc('encode').encode(*a, **k)

    def format(self, *a, **k):
        return self.conc('format').format(*a, **k)

    def expandtabs(self, *a):
        return self.conc('expandtabs').expandtabs(*a)

    def center(self, *a):
        return self.conc('center').center(*a)

    def translate(self, table):
        return self.conc('translate').translate(table)


SYM = (SBool, SNum, SStr)


def is_sym(x):
    t = type(x)
    return t is SStr or t is SBool or t is SNum


def conc(x, why=''):
    """Plain value of a possibly symbolic scalar (forks over its values)."""
    t = type(x)
    if t is SStr:
        return x.conc(why)
    if t is SNum:
        return x.conc()
    if t is SBool:
        return bool(x)
    return x
