"""Runtime hooks the instrumented code calls.  Anything without a symbolic model falls back to
concretisation: the engine forks over the argument's feasible values, which is sound but may be
reported as incomplete when there are too many."""
import builtins
import functools
import logging
import operator
import os
import re
import string as _string
import sys
import types
from collections import OrderedDict

from . import engine as E
from . import rx
from . import terms as T
from .values import (SBool, SNum, SStr, chars_of, conc, eng, is_strlike, is_sym, mk_bool, mk_num,
                     mk_str, str_eq_term, sym_not, bool_term)

BUILTIN_TYPES = (types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType,
                 types.MethodDescriptorType, types.ClassMethodDescriptorType)
INSTRUMENTED = set()        # module names that run instrumented
TWINS = {}                  # module name -> instrumented twin of a pure-python stdlib module
EXECUTED = set()            # instrumented functions entered
SITES = {}                  # where concretisation happened (for tuning)


def active():
    return E.ENGINE is not None


# ------------------------------------------------------------- scanning
def has_sym(x, depth=3):
    t = type(x)
    if t is SStr or t is SBool or t is SNum:
        return True
    if depth and t in (list, tuple, set, frozenset):
        for i in x:
            if has_sym(i, depth - 1):
                return True
    elif depth and isinstance(x, dict):
        for k in list(dict.keys(x)):
            if is_sym(k) or has_sym(dict.__getitem__(x, k), depth - 1):
                return True
    return False


def deep_conc(x, why='', depth=6):
    if is_sym(x):
        return conc(x, why)
    t = type(x)
    if depth and t in (list, tuple, set, frozenset):
        if has_sym(x, depth):
            return t([deep_conc(i, why, depth - 1) for i in x])
    elif depth and t is dict:
        if has_sym(x, depth):
            return {deep_conc(k, why): deep_conc(v, why, depth - 1) for k, v in x.items()}
    return x


# ------------------------------------------------------------- operators
def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is SStr or tb is SStr or (ta is str and tb is str):
        if not (is_strlike(a) and is_strlike(b)):
            return False
        if len(a) != len(b):
            return False
        if len(a) <= 1:
            return a == b            # PyPy: strings of length 0 and 1 are identical when equal
        return a is b
    if ta is SBool or tb is SBool:
        if b is True or b is False:
            return a if b is True else sym_not(a)
        if a is True or a is False:
            return b if a is True else sym_not(b)
        return a is b
    if ta is SNum or tb is SNum:
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        return False
    if ta is int and tb is int:
        return a == b                # PyPy compares ints by value under `is`
    return a is b


def is_not(a, b):
    return sym_not(is_(a, b))


def _dict_find(d, key):
    """Find the stored key equal to `key`, forking as needed; returns (found, stored_key)."""
    if type(key) is SStr:
        n = len(key)
        for k in list(dict.keys(d)):
            if is_strlike(k) and len(k) == n and eng().branch(str_eq_term(k, key)):
                return True, k
        return False, None
    if type(key) is str:
        if dict.__contains__(d, key):
            return True, key
        for k in list(dict.keys(d)):
            if type(k) is SStr and len(k) == len(key) and eng().branch(str_eq_term(k, key)):
                return True, k
        return False, None
    if is_sym(key):
        for k in list(dict.keys(d)):
            if bool(k == key):
                return True, k
        return False, None
    if type(key) is tuple and has_sym(key):
        for k in list(dict.keys(d)):
            if type(k) is tuple and len(k) == len(key) and bool(k == key):
                return True, k
        return False, None
    return dict.__contains__(d, key), key


def _dict_special(d, key):
    """Whether native dict operations would go wrong for this dict and key."""
    if is_sym(key) or (type(key) is tuple and has_sym(key)):
        return True
    for k in dict.keys(d):
        if type(k) is SStr or type(k) is SNum:
            return True
    return False


def _base(d):
    return OrderedDict if isinstance(d, OrderedDict) else dict


def seal(key):
    """A symbolic string inserted as a new dict key or set item: hash it by a constant."""
    if type(key) is SStr and key._h is None:
        key = SStr(key.c)
        key._h = 0x5e
    elif type(key) is SNum:
        key = conc(key)
    elif type(key) is tuple and has_sym(key):
        key = tuple(seal(k) for k in key)
    return key


def contains(x, c):
    if type(c) is str and type(x) is SStr:
        s = chars_of(c)
        n = len(x)
        return mk_bool(T.t_or([T.t_and([T.t_eq(p, q) for p, q in zip(x.c, s[i:i + n])])
                               for i in range(len(s) - n + 1)]))
    if type(c) is SStr:
        return c.contains(x)
    if isinstance(c, dict) and type(c).__contains__ in (dict.__contains__,):
        if _dict_special(c, x):
            return _dict_find(c, x)[0]
        return x in c
    if isinstance(c, (set, frozenset)):
        if has_sym(x) or any(is_sym(i) for i in c):
            for i in c:
                if bool(i == x):
                    return True
            return False
        return x in c
    if isinstance(c, type({}.keys())):
        if has_sym(x) or any(is_sym(i) for i in c):
            for i in c:
                if bool(i == x):
                    return True
            return False
        return x in c
    if type(c) in (list, tuple) and type(x) is SStr:
        # one term when nothing but strings is inside
        if all(is_strlike(i) or i is None for i in c):
            return mk_bool(T.t_or([str_eq_term(i, x) for i in c if i is not None]))
    return x in c


def not_contains(x, c):
    return sym_not(contains(x, c))


def getitem(o, k):
    if isinstance(o, dict) and _dict_special(o, k):
        ok, kk = _dict_find(o, k)
        if ok:
            return dict.__getitem__(o, kk)
        if hasattr(type(o), '__missing__'):
            return type(o).__missing__(o, seal(k))
        raise KeyError('<symbolic key>')
    if type(k) is SNum and type(o) in (list, tuple, str, SStr):
        k = k.conc()
    return o[k]


def setitem(v, o, k):
    if isinstance(o, dict):
        if _dict_special(o, k):
            ok, kk = _dict_find(o, k)
            _base(o).__setitem__(o, kk if ok else seal(k), v)
            return
    elif type(k) is SNum:
        k = k.conc()
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and _dict_special(o, k):
        ok, kk = _dict_find(o, k)
        if not ok:
            raise KeyError('<symbolic key>')
        _base(o).__delitem__(o, kk)
        return
    if type(k) is SNum:
        k = k.conc()
    del o[k]


def augset(o, k, op, v):
    setitem(op(getitem(o, k), v), o, k)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(v, d, k)
    return d


def mkset(items):
    s = set()
    for i in items:
        set_add(s, i)
    return s


def set_add(s, x):
    if has_sym(x) or any(is_sym(i) for i in s):
        for i in s:
            if bool(i == x):
                return
        s.add(seal(x))
        return
    s.add(x)


def mod(l, r):
    if type(l) is str or type(l) is SStr:
        if has_sym(r) or type(l) is SStr:
            return mod_format(l, r)
    return l % r


def mod_format(fmt, args):
    fmt = conc(fmt, 'format string')
    if isinstance(args, dict):
        return fmt % deep_conc(args, 'mod')
    seq = args if isinstance(args, tuple) else (args,)
    parts = re.split(r'(%[sdr%])', fmt)
    n = sum(1 for p in parts if p in ('%s', '%d', '%r'))
    if '%' in ''.join(p for p in parts if p not in ('%s', '%d', '%r', '%%')) or n != len(seq):
        return fmt % deep_conc(args, 'mod')
    out, i = '', 0
    for p in parts:
        if p == '%%':
            out = out + '%'
        elif p == '%s':
            out = out + to_str(seq[i])
            i += 1
        elif p in ('%d', '%r'):
            out = out + p % (deep_conc(seq[i], 'mod'),)
            i += 1
        else:
            out = out + p
    return out


def to_str(x):
    t = type(x)
    if t is SStr:
        return x
    if is_sym(x):
        return str(conc(x, 'str'))
    if has_sym(x):
        return str(deep_conc(x, 'str'))
    return str(x)


def fstr(*parts):
    out = ''
    for p in parts:
        if type(p) is str:
            out = out + p
            continue
        val, conv, spec = p
        if conv == 114:
            val = repr(deep_conc(val, 'fstring'))
        elif conv == 115 or (type(val) is SStr and not spec):
            val = to_str(val)
        elif conv == 97:
            val = ascii(deep_conc(val, 'fstring'))
        if type(val) is SStr and not spec:
            out = out + val
        else:
            out = out + format(deep_conc(val, 'fstring'), conc(spec) if spec else '')
    return out


def format_(fmt, args, kwargs):
    """str.format for a concrete format string with simple fields."""
    if not (has_sym(args) or has_sym(kwargs)):
        return fmt.format(*args, **kwargs)
    out = ''
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out = out + lit
        if field is None:
            continue
        if spec or conv not in (None, 's') or re.search(r'[.\[]', field):
            return fmt.format(*deep_conc(list(args), 'format'), **deep_conc(kwargs, 'format'))
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kwargs[field]
        out = out + to_str(v)
    return out


# ------------------------------------------------------------- calls
STRUCTURAL = {len, iter, next, enumerate, zip, reversed, list, tuple, any, all, min, max, sorted,
              sum, id, callable, isinstance, issubclass, map, filter, repr, abs, hash,
              functools.partial, bool, divmod, slice, super, object, type, property, staticmethod,
              classmethod, vars, dir, functools.reduce, functools.wraps}


def m_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    return str(*deep_conc(list(a), 'str'), **k)


def m_int(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SNum and not x.real:
            return x
        if type(x) is SStr:
            return _int_of(x)
    return int(*[conc(x, 'int') for x in a])


def _int_of(s):
    """int(<symbolic string>): decimal strings symbolically, the rest by value."""
    if len(s) and eng().branch(T.t_and([T.t_and([T.t_le(48, c), T.t_le(c, 57)]) for c in s.c])):
        v = 0
        for c in s.c:
            v = T.t_add(T.t_mul(v, 10) if isinstance(v, tuple) else v * 10, T.t_sub(c, 48))
        return mk_num(v)
    return int(s.conc('int'))


def m_float(*a):
    if len(a) == 1 and type(a[0]) is SNum:
        return a[0] if a[0].real else SNum(a[0].t, True)
    return float(*[conc(x, 'float') for x in a])


def m_bool(*a):
    if len(a) == 1 and type(a[0]) is SBool:
        return a[0]
    return bool(*a)


def m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SStr:
            return str
        if t is SBool:
            return bool
        if t is SNum:
            return float if a[0].real else int
    return type(*a)


def attr_name(o, n, why):
    """The attribute of o a symbolic name names, or None when o has no such attribute."""
    t = type(o)
    if hasattr(t, '__getattr__'):
        return n.conc(why)
    names = set(dir(o)) | (set(dir(t)) if isinstance(o, type) else set())
    for k in sorted(names):
        if len(k) == len(n) and n == k:
            return k
    return None


def m_getattr(o, n, *d):
    if type(n) is SStr:
        k = attr_name(o, n, 'getattr')
        if k is None:
            if d:
                return d[0]
            raise AttributeError('no attribute of that name')
        n = k
    return getattr(o, n, *d)


def m_setattr(o, n, v):
    if type(n) is SStr:
        n = attr_name(o, n, 'setattr') or n.conc('setattr')
    return setattr(o, n, v)


def m_hasattr(o, n):
    if type(n) is SStr:
        n = attr_name(o, n, 'hasattr')
        if n is None:
            return False
    return hasattr(o, n)


def m_delattr(o, n):
    if type(n) is SStr:
        n = attr_name(o, n, 'delattr')
        if n is None:
            raise AttributeError('no attribute of that name')
    return delattr(o, n)


def m_set(*a):
    if a:
        items = list(a[0])
        if any(has_sym(i) for i in items):
            return mkset(items)
        return set(items)
    return set()


def m_frozenset(*a):
    return frozenset(m_set(*a))


def m_dict(*a, **k):
    if a:
        src = a[0]
        pairs = list(src.items()) if hasattr(src, 'keys') else [tuple(p) for p in src]
        if any(has_sym(p[0]) for p in pairs):
            d = mkdict(pairs)
            d.update(k)
            return d
        return dict(pairs, **k)
    return dict(**k)


def m_ord(x):
    if type(x) is SStr and len(x.c) == 1:
        return mk_num(x.c[0])
    return ord(conc(x, 'ord'))


def m_chr(x):
    if type(x) is SNum:
        return mk_str((x.t,))
    return chr(x)


def m_range(*a):
    return range(*[x.conc() if type(x) is SNum else x for x in a])


def m_print(*a, **k):
    if 'file' in k or not has_sym(a):
        if any(has_sym(x) for x in a):
            return None
        return print(*a, **k)
    return None


def m_deepcopy(x, memo=None):
    import copy
    return copy.deepcopy(x, memo)


def m_all(it):
    return builtins.all(it)


BUILTIN_MODELS = {
    str: m_str, int: m_int, float: m_float, bool: m_bool, type: m_type, getattr: m_getattr,
    setattr: m_setattr, hasattr: m_hasattr, delattr: m_delattr, set: m_set,
    frozenset: m_frozenset, dict: m_dict, ord: m_ord, chr: m_chr, range: m_range, print: m_print,
}


def _os_join(a, *ps):
    import posixpath
    if not has_sym([a] + list(ps)):
        return posixpath.join(a, *ps)
    path = a
    for b in ps:
        if b.startswith('/'):
            path = b
        elif (not path) or path.endswith('/'):
            path = path + b
        else:
            path = path + '/' + b
    return path


def _normpath(path):
    if not is_sym(path):
        return os.path.normpath(path)
    if not path:
        return '.'
    initial = 0
    if path.startswith('/'):
        initial = 1
        if path.startswith('//') and not path.startswith('///'):
            initial = 2
    out = []
    for comp in path.split('/'):
        if len(comp) == 0 or comp == '.':
            continue
        if comp != '..' or (not initial and not out) or (out and out[-1] == '..'):
            out.append(comp)
        elif out:
            out.pop()
    r = _j('/', out)
    if initial:
        r = '/' * initial + r
    return r if len(r) else '.'


def _j(sep, items):
    return SStr(chars_of(sep)).join(items)


def _fspath(p):
    return p if is_sym(p) else os.fspath(p)


BUILTIN_MODELS[os.fspath] = _fspath
FUNC_MODELS = {os.path.join: _os_join, os.path.normpath: _normpath}
STUBS = {}      # callables replaced during an exploration (environment stubs), set by harnesses


def str_method(self, name, args, kwargs):
    """A method of a concrete str called with symbolic arguments."""
    if name == 'join':
        return _j(self, list(args[0]))
    if name == 'format':
        return format_(self, args, kwargs)
    s = SStr(chars_of(self))
    return getattr(s, name)(*args, **kwargs)


def dict_method(d, name, args, kwargs):
    if name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__'):
        k = args[0]
        if not _dict_special(d, k):
            return getattr(d, name)(*args, **kwargs)
        ok, kk = _dict_find(d, k)
        if name == '__contains__':
            return ok
        if name == '__getitem__':
            return getitem(d, k)
        if name == 'get':
            return dict.__getitem__(d, kk) if ok else (args[1] if len(args) > 1 else None)
        if name == 'pop':
            if ok:
                return _base(d).pop(d, kk)
            if len(args) > 1:
                return args[1]
            raise KeyError('<symbolic key>')
        if ok:
            return dict.__getitem__(d, kk)
        v = args[1] if len(args) > 1 else None
        setitem(v, d, k)
        return v
    if name == 'update':
        src = args[0] if args else {}
        pairs = list(src.items()) if hasattr(src, 'keys') else list(src)
        for k, v in pairs:
            setitem(v, d, k)
        for k, v in kwargs.items():
            setitem(v, d, k)
        return None
    return getattr(d, name)(*args, **kwargs)


def set_method(s, name, args, kwargs):
    if not (any(has_sym(a) for a in args) or any(is_sym(i) for i in s)):
        return getattr(s, name)(*args, **kwargs)
    if name == 'add':
        return set_add(s, args[0])
    if name in ('discard', 'remove'):
        for i in list(s):
            if bool(i == args[0]):
                # rebuild: hash of a sealed key is constant, native removal is by identity first
                s.discard(i)
                return None
        if name == 'remove':
            raise KeyError('<symbolic>')
        return None
    if name == 'update':
        for a in args:
            for i in list(a):
                set_add(s, i)
        return None
    if name == 'union':
        r = mkset(s)
        for a in args:
            for i in list(a):
                set_add(r, i)
        return r
    if name in ('difference', 'intersection'):
        other = list(args[0])
        want = name == 'intersection'
        return mkset([i for i in s if bool(contains(i, other)) is want])
    if name == 'difference_update':
        keep = [i for i in s if not contains(i, list(args[0]))]
        s.clear()
        for i in keep:
            set_add(s, i)
        return None
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        other = list(args[0])
        mine = list(s)
        if name == 'issubset':
            return all(bool(contains(i, other)) for i in mine)
        if name == 'issuperset':
            return all(bool(contains(i, mine)) for i in other)
        return not any(bool(contains(i, other)) for i in mine)
    return getattr(s, name)(*args, **kwargs)


_LOG_CALLS = ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log')
_LOGGER = (logging.Logger, logging.LoggerAdapter)
REAL_LOGGING = [False]   # set by harnesses about logging itself


def call(f, /, *args, **kwargs):
    e = E.ENGINE
    if e is None:
        return f(*args, **kwargs)
    e.step()
    if STUBS:
        try:
            stub = STUBS.get(f)
        except TypeError:
            stub = None
        if stub is not None:
            return stub(*args, **kwargs)
    t = type(f)
    if t is types.MethodType:
        if isinstance(f.__self__, _LOGGER) and not REAL_LOGGING[0]:
            return None                      # logging is stubbed out
        fn = f.__func__
        if getattr(fn, '__module__', None) in INSTRUMENTED:
            EXECUTED.add(fn.__module__ + '.' + fn.__qualname__)
            return f(*args, **kwargs)
        if type(f.__self__) in (SStr, SBool, SNum) or \
                (getattr(fn, '__module__', None) or '').startswith('symx.'):
            return f(*args, **kwargs)
        if type(fn) is types.FunctionType:
            return _foreign(f, fn, args, kwargs)
        return f(*args, **kwargs)
    if t is types.FunctionType:
        mod_ = f.__module__
        if mod_ in INSTRUMENTED:
            EXECUTED.add(mod_ + '.' + f.__qualname__)
            return f(*args, **kwargs)
        return _foreign(f, f, args, kwargs)
    if t is types.BuiltinFunctionType or t is types.BuiltinMethodType:
        self = f.__self__
        if self is not None and not isinstance(self, types.ModuleType):
            name = f.__name__
            ts = type(self)
            if ts is str:
                if has_sym(args) or has_sym(kwargs) or \
                        (name == 'join' and args and not isinstance(args[0], (list, tuple))):
                    return str_method(self, name, args, kwargs)
                return f(*args, **kwargs)
            if isinstance(self, dict):
                return dict_method(self, name, args, kwargs)
            if isinstance(self, (set, frozenset)):
                return set_method(self, name, args, kwargs)
            if isinstance(self, re.Pattern):
                if has_sym(args):
                    return _regex(f, name, self, args, kwargs)
                return f(*args, **kwargs)
            if isinstance(self, (list, tuple)) or ts.__module__ in ('collections', 'itertools'):
                return f(*args, **kwargs)
            if isinstance(self, type):
                return _native(f, args, kwargs)
            if isinstance(self, types.GeneratorType):
                return f(*args, **kwargs)
            return _native(f, args, kwargs)
        model = BUILTIN_MODELS.get(f)
        if model is not None:
            return model(*args, **kwargs)
        if f in STRUCTURAL:
            return f(*args, **kwargs)
        return _native(f, args, kwargs)
    if isinstance(f, type):
        model = BUILTIN_MODELS.get(f)
        if model is not None:
            return model(*args, **kwargs)
        if f in STRUCTURAL or f.__module__ in INSTRUMENTED or issubclass(f, BaseException):
            return f(*args, **kwargs)
        if issubclass(f, dict) and f.__module__ == 'collections' and args and \
                f.__name__ == 'OrderedDict':
            d = f()
            dict_method(d, 'update', args, kwargs)
            return d
        if f.__module__ in ('collections', 'itertools', 'functools', 'types'):
            return f(*args, **kwargs)
        if issubclass(f, tuple) and hasattr(f, '_fields'):
            return f(*args, **kwargs)
        return _native(f, args, kwargs)
    if t in (types.MethodWrapperType, types.WrapperDescriptorType, types.MethodDescriptorType):
        if t is types.MethodDescriptorType and args and type(args[0]) is SStr and \
                f.__objclass__ is str:
            return getattr(args[0], f.__name__)(*args[1:], **kwargs)
        if t is types.MethodDescriptorType and args and isinstance(args[0], dict) and \
                f.__objclass__ is dict:
            return dict_method(args[0], f.__name__, args[1:], kwargs)
        return f(*args, **kwargs)
    return f(*args, **kwargs)


def _regex(f, name, pattern, args, kwargs):
    try:
        return rx.do(name, pattern, list(args), dict(kwargs))
    except rx.Unsupported:
        return _native(f, args, kwargs)


_RE_FUNCS = {re.match: 'match', re.search: 'search', re.findall: 'findall', re.sub: 'sub',
             re.fullmatch: 'fullmatch', re.finditer: 'finditer', re.split: 'split',
             re.subn: 'subn'}

PASS_THROUGH = {'copy', 'collections', 'functools', 'contextlib', 'weakref', 'abc', 'typing'}


def _foreign(f, fn, args, kwargs):
    """A python function of a module that is not instrumented."""
    model = FUNC_MODELS.get(fn)
    if model is not None:
        return model(*args, **kwargs)
    if not REAL_LOGGING[0] and (isinstance(getattr(f, '__self__', None), _LOGGER) or
                                fn.__module__ == 'logging' and fn.__name__ in _LOG_CALLS):
        return None
    if not (has_sym(args) or has_sym(kwargs)):
        return f(*args, **kwargs)
    name = _RE_FUNCS.get(fn)
    if name:
        return _regex(f, name, args[0], args[1:], kwargs)
    if fn is re.escape:
        return _re_escape(args[0])
    if fn.__module__ in PASS_THROUGH:
        return f(*args, **kwargs)
    twin = TWINS.get(fn.__module__)
    if twin is None and fn.__module__ in TWINNABLE:
        from .instrument import load_twin
        twin = TWINS[fn.__module__] = load_twin(fn.__module__)
    if twin is not None and type(f) is types.FunctionType:
        g = getattr(twin, fn.__name__, None)
        if g is not None:
            return g(*args, **kwargs)
    return _native(f, args, kwargs)


TWINNABLE = {'posixpath', 'genericpath', 'fnmatch', 'textwrap'}
_ESC = {i for i in b'()[]{}?*+-|^$\\.&~# \t\n\r\v\f'}


def _re_escape(s):
    out = []
    for c in chars_of(s):
        if eng().branch(T.t_or([T.t_eq(c, x) for x in sorted(_ESC)])):
            out.append(92)
        out.append(c)
    return mk_str(out)


def _native(f, args, kwargs):
    """Native code: give it plain values."""
    if has_sym(args) or has_sym(kwargs):
        name = getattr(f, '__qualname__', repr(f))
        SITES[name] = SITES.get(name, 0) + 1
        args = [deep_conc(a, name) for a in args]
        kwargs = {k: deep_conc(v, name) for k, v in kwargs.items()}
    return f(*args, **kwargs)


_OPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
        'FloorDiv': operator.ifloordiv, 'Mod': lambda a, b: mod(a, b), 'BitOr': operator.ior,
        'BitAnd': operator.iand, 'BitXor': operator.ixor, 'Pow': operator.ipow,
        'LShift': operator.ilshift, 'RShift': operator.irshift, 'MatMult': operator.imatmul}


class Namespace(object):
    call = staticmethod(call)
    is_ = staticmethod(is_)
    is_not = staticmethod(is_not)
    contains = staticmethod(contains)
    not_contains = staticmethod(not_contains)
    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    augset = staticmethod(augset)
    mkdict = staticmethod(mkdict)
    mkset = staticmethod(mkset)
    mod = staticmethod(mod)
    fstr = staticmethod(fstr)
    ops = _OPS


SX = Namespace()
