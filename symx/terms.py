"""Light-weight terms for the symbolic executor, and their translation to z3.

A term is an int/Fraction/bool constant, or a tuple whose first item is the operator.
Variables are ('v', name, sort) with sort 'c' (a code point), 'i' (int), 'r' (real) or 'b' (bool).
Constant folding happens here, so z3 only ever sees what is still open.
"""
import z3

_z3cache = {}


def var(name, sort):
    return ('v', name, sort)


def is_const(t):
    return not isinstance(t, tuple)


def t_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def t_and(items):
    out = []
    for i in items:
        if i is True:
            continue
        if i is False:
            return False
        if i not in out:
            out.append(i)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and',) + tuple(out)


def t_or(items):
    out = []
    for i in items:
        if i is False:
            continue
        if i is True:
            return True
        if i not in out:
            out.append(i)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or',) + tuple(out)


def t_eq(a, b):
    if a == b:
        return True
    ca, cb = is_const(a), is_const(b)
    if ca and cb:
        return False
    if ca:
        a, b = b, a
    return ('eq', a, b)


def t_lt(a, b):
    if is_const(a) and is_const(b):
        return a < b
    if a == b:
        return False
    return ('lt', a, b)


def t_le(a, b):
    if is_const(a) and is_const(b):
        return a <= b
    if a == b:
        return True
    return ('le', a, b)


def t_add(a, b):
    if is_const(a) and is_const(b):
        return a + b
    if is_const(a) and a == 0:
        return b
    if is_const(b) and b == 0:
        return a
    return ('add', a, b)


def t_sub(a, b):
    if is_const(a) and is_const(b):
        return a - b
    if is_const(b) and b == 0:
        return a
    if a == b:
        return 0
    return ('sub', a, b)


def t_mul(a, b):
    if is_const(a) and is_const(b):
        return a * b
    return ('mul', a, b)


def t_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return ('ite', c, a, b)


def to_z3(t):
    if not isinstance(t, tuple):
        if t is True or t is False:
            return z3.BoolVal(t)
        if isinstance(t, int):
            return z3.IntVal(t)
        return z3.RealVal(t)
    r = _z3cache.get(t)
    if r is not None:
        return r
    op = t[0]
    if op == 'v':
        _, name, sort = t
        if sort == 'b':
            r = z3.Bool(name)
        elif sort == 'r':
            r = z3.Real(name)
        else:
            r = z3.Int(name)
    elif op == 'not':
        r = z3.Not(to_z3(t[1]))
    elif op == 'and':
        r = z3.And([to_z3(x) for x in t[1:]])
    elif op == 'or':
        r = z3.Or([to_z3(x) for x in t[1:]])
    elif op == 'ite':
        r = z3.If(to_z3(t[1]), to_z3(t[2]), to_z3(t[3]))
    else:
        a, b = to_z3(t[1]), to_z3(t[2])
        if op == 'eq':
            r = a == b
        elif op == 'lt':
            r = a < b
        elif op == 'le':
            r = a <= b
        elif op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'idiv':
            r = a / b
        elif op == 'imod':
            r = a % b
        else:
            raise ValueError(op)
    _z3cache[t] = r
    return r


def free_vars(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        if t[0] == 'v':
            acc.add(t)
        else:
            for x in t[1:]:
                free_vars(x, acc)
    return acc


def evaluate(t, env):
    """Value of a term under env: {var term: python value}."""
    if not isinstance(t, tuple):
        return t
    op = t[0]
    if op == 'v':
        return env[t]
    if op == 'not':
        return not evaluate(t[1], env)
    if op == 'and':
        return all(evaluate(x, env) for x in t[1:])
    if op == 'or':
        return any(evaluate(x, env) for x in t[1:])
    if op == 'ite':
        return evaluate(t[2] if evaluate(t[1], env) else t[3], env)
    a, b = evaluate(t[1], env), evaluate(t[2], env)
    if op == 'eq':
        return a == b
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'idiv':
        return a // b
    if op == 'imod':
        return a % b
    raise ValueError(op)
