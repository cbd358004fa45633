"""The harness interface.  `SymH` is used in the symbolic run (python3-vt, instrumented code);
`ConcH` replays one assignment of the inputs on the unmodified code (any python)."""
import logging

ALL_CHARS = [(0, 0xd7ff), (0xe000, 0x10ffff)]


def _ranges_of(alphabet, exclude):
    if alphabet is None:
        rs = list(ALL_CHARS)
    else:
        cs = sorted(set(map(ord, alphabet)))
        rs = []
        for c in cs:
            if rs and rs[-1][1] == c - 1:
                rs[-1] = (rs[-1][0], c)
            else:
                rs.append((c, c))
    for x in sorted(set(map(ord, exclude))):
        out = []
        for lo, hi in rs:
            if lo <= x <= hi:
                if lo < x:
                    out.append((lo, x - 1))
                if x < hi:
                    out.append((x + 1, hi))
            else:
                out.append((lo, hi))
        rs = out
    return rs


class Refused(BaseException):
    """Replay only: the assignment violates an assumption of the harness."""


class Missing(BaseException):
    """Replay only: the counterexample has no value for this input (it failed before declaring it)."""


class Failed(BaseException):
    """Replay only: an assertion of the harness failed on the real code."""


class ConcH(object):
    symbolic = False

    def __init__(self, inputs, scratch=None):
        self.inputs = inputs
        self.observed = []
        self.reached = {}
        self.scratch = scratch

    def _in(self, name):
        if name not in self.inputs:
            raise Missing(name)
        return self.inputs[name]

    def str(self, name, n, alphabet=None, exclude=''):
        return self._in(name)

    def int(self, name, lo, hi):
        return self._in(name)

    def real(self, name, lo, hi):
        return float(self._in(name))

    def bool(self, name):
        return self._in(name)

    def choice(self, name, options):
        return list(options)[self._in(name)]

    def assume(self, c):
        if not c:
            raise Refused()

    def check(self, c, msg=''):
        if not c:
            raise Failed(msg)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label, v):
        self.observed.append([label, plain(v)])

    def eq(self, a, b):
        return deep_eq_plain(a, b)

    def all_of(self, xs):
        return all(list(xs))

    def any_of(self, xs):
        return any(list(xs))

    def not_(self, x):
        return not x

    def stub(self, f, model):
        pass

    def real_logging(self, on=True):
        logging.disable(logging.NOTSET if on else logging.CRITICAL)

    def split(self):
        pass


def deep_eq_plain(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq_plain(x, y) for x, y in zip(a, b))
    return a == b


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=repr)
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    return '<%s>' % type(v).__name__


def make_symh():
    from . import engine as E
    from . import terms as T
    from . import hooks
    from .values import (SBool, SNum, SStr, mk_bool, mk_num, mk_str, bool_term, is_strlike,
                         str_eq_term, in_ranges, sym_not, is_sym)

    def ev(v, env):
        t = type(v)
        if t is SStr:
            return ''.join(chr(T.evaluate(c, env)) for c in v.c)
        if t is SBool:
            return bool(T.evaluate(v.t, env))
        if t is SNum:
            x = T.evaluate(v.t, env)
            return float(x) if v.real else int(x)
        if t in (list, tuple):
            return [ev(x, env) for x in v]
        if t in (set, frozenset):
            return sorted((ev(x, env) for x in v), key=repr)
        if isinstance(v, dict):
            return [[ev(k, env), ev(x, env)] for k, x in v.items()]
        if v is None or t in (str, bool, int, float):
            return v
        return '<%s>' % t.__name__

    def snapshot(v):
        t = type(v)
        if t in (list, tuple):
            return [snapshot(x) for x in v]
        if t in (set, frozenset):
            return set(v)
        if isinstance(v, dict):
            return dict(v)
        return v

    def eq_term(a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return T.t_and([eq_term(x, y) for x, y in zip(a, b)])
        if is_strlike(a) and is_strlike(b):
            return str_eq_term(a, b)
        r = a == b
        return bool_term(r)

    class SymH(object):
        symbolic = True
        scratch = None

        @property
        def e(self):
            return E.ENGINE

        def str(self, name, n, alphabet=None, exclude=''):
            e = self.e
            rs = _ranges_of(alphabet, exclude)
            first = 97 if any(lo <= 97 <= hi for lo, hi in rs) else rs[0][0]
            cs = []
            for i in range(n):
                v = T.var('%s.%d' % (name, i), 'c')
                e.declare(v, in_ranges(v, rs), first)
                cs.append(v)
            s = mk_str(cs)
            e.inputs[name] = lambda env: ev(s, env)
            return s

        def int(self, name, lo, hi):
            v = T.var(name, 'i')
            self.e.declare(v, T.t_and([T.t_le(lo, v), T.t_le(v, hi)]), lo)
            self.e.inputs[name] = lambda env: env[v]
            return mk_num(v)

        def real(self, name, lo, hi):
            v = T.var(name, 'r')
            self.e.declare(v, T.t_and([T.t_le(lo, v), T.t_le(v, hi)]), lo)
            self.e.inputs[name] = lambda env: float(env[v])
            return mk_num(v, True)

        def bool(self, name):
            v = T.var(name, 'b')
            self.e.declare(v, True, False)
            self.e.inputs[name] = lambda env: env[v]
            return mk_bool(v)

        def choice(self, name, options):
            options = list(options)
            v = T.var(name, 'i')
            self.e.declare(v, T.t_and([T.t_le(0, v), T.t_lt(v, len(options))]), 0)
            self.e.inputs[name] = lambda env: env[v]
            for i in range(len(options) - 1):
                if self.e.branch(T.t_eq(v, i)):
                    return options[i]
            return options[-1]

        def assume(self, c):
            self.e.assume(bool_term(c))

        def check(self, c, msg=''):
            self.e.check(bool_term(c), msg)

        def reach(self, label):
            self.e.reach(label)

        def observe(self, label, v):
            v = snapshot(v)
            self.e.observed.append((label, lambda env: ev(v, env)))

        def eq(self, a, b):
            return mk_bool(eq_term(a, b))

        def all_of(self, xs):
            return mk_bool(T.t_and([bool_term(x) for x in xs]))

        def any_of(self, xs):
            return mk_bool(T.t_or([bool_term(x) for x in xs]))

        def not_(self, x):
            return sym_not(x)

        def stub(self, f, model):
            hooks.STUBS[f] = model

        def real_logging(self, on=True):
            logging.disable(logging.NOTSET if on else logging.CRITICAL)
            hooks.REAL_LOGGING[0] = on

    return SymH()
