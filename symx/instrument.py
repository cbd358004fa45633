"""Loads python modules from their current source with their operations rewritten to the hooks."""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import hooks

REPO = os.environ.get('VERIF_REPO', '/repo')
SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}
SOURCES = {}       # module name -> sha1 of the source that was encoded
STATS = {'functions': 0, 'sites': 0}


def _sx(name):
    return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())


def _call(name, *args):
    STATS['sites'] += 1
    return ast.Call(_sx(name), list(args), [])


def _slice(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(ast.Name('slice', ast.Load()),
                        [s.lower or none, s.upper or none, s.step or none], [])
    if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
        return ast.Tuple([_slice(e) for e in s.elts], ast.Load())
    return s


class Rewrite(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        STATS['functions'] += 1
        # annotations and decorators stay as they are
        node.body = [self.visit(b) for b in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        return self._flat(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def _flat(self, node):
        body = []
        for b in node.body:
            if isinstance(b, list):
                body.extend(b)
            elif b is not None:
                body.append(b)
        node.body = body
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(b) for b in node.body]
        return self._flat(node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        self.generic_visit(node)
        STATS['sites'] += 1
        return ast.copy_location(ast.Call(_sx('call'), [node.func] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            if isinstance(op, ast.Is):
                return ast.copy_location(_call('is_', l, r), node)
            if isinstance(op, ast.IsNot):
                return ast.copy_location(_call('is_not', l, r), node)
            if isinstance(op, ast.In):
                return ast.copy_location(_call('contains', l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(_call('not_contains', l, r), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('mod', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant(None)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ast.Load()))
        return ast.copy_location(_call('fstr', *parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call('getitem', node.value, _slice(node.slice)), node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_call(
                'setitem', node.value, self.visit(t.value), _slice(self.visit(t.slice)))), node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            op = ast.Subscript(_sx('ops'), ast.Constant(type(node.op).__name__), ast.Load())
            return ast.copy_location(ast.Expr(_call(
                'augset', self.visit(t.value), _slice(self.visit(t.slice)), op, node.value)), node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [node.target],
                _call('mod', ast.Name(node.target.id, ast.Load()), node.value)), node)
        node.target = self.visit(node.target)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(_call(
                    'delitem', self.visit(t.value), _slice(self.visit(t.slice)))), node))
            else:
                out.append(ast.copy_location(ast.Delete([self.visit(t)]), node))
        return out if len(out) > 1 else out[0]

    def _visit_body(self, node):
        self.generic_visit(node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lst = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(_call('mkdict', lst), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('mkset', ast.ListComp(node.elt, node.generators)), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('mkset', ast.List(node.elts, ast.Load())), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if node.keys and all(k is not None for k in node.keys) and \
                not all(isinstance(k, ast.Constant) for k in node.keys):
            pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return ast.copy_location(_call('mkdict', ast.List(pairs, ast.Load())), node)
        return node


def instrument_source(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        SOURCES[self.name] = hashlib.sha1(src).hexdigest()
        hooks.INSTRUMENTED.add(self.name)
        code = instrument_source(src.decode('utf-8'), self.path)
        module.__dict__['__sx__'] = hooks.SX
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots              # package name -> directory

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_file_location(
                name, p, loader=Loader(name, p), submodule_search_locations=[base])
            return spec
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p))
        return None


def load_twin(name):
    """An instrumented copy of a pure-python stdlib module, next to the real one."""
    path = importlib.import_module(name).__file__
    mod = types.ModuleType(name)
    twin_name = '_symx_twin_' + name
    mod.__dict__['__sx__'] = hooks.SX
    mod.__file__ = path
    mod.__name__ = twin_name
    hooks.INSTRUMENTED.add(twin_name)
    with open(path, encoding='utf-8') as f:
        src = f.read()
    exec(instrument_source(src, path), mod.__dict__)
    return mod


def imp_shim():
    """nxt.plugin_loader imports the `imp` module removed in python 3.12."""
    if 'imp' in sys.modules or sys.version_info < (3, 12):
        return
    m = types.ModuleType('imp')

    def find_module(name, path=None):
        for d in path or sys.path:
            for cand in (os.path.join(d, name + '.py'), os.path.join(d, name, '__init__.py')):
                if os.path.isfile(cand):
                    return (open(cand), cand, ('.py', 'r', 1))
        raise ImportError(name)

    def load_module(name, file, path, desc):
        full = name
        rel = os.path.relpath(path, REPO)
        if not rel.startswith('..'):
            full = rel[:-3].replace(os.sep, '.')
        if file:
            file.close()
        return importlib.import_module(full) if full != name else load_source(name, path)

    def load_source(name, path, file=None):
        spec = importlib.util.spec_from_file_location(name, path, loader=Loader(name, path))
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
        return mod
    m.find_module, m.load_module, m.load_source = find_module, load_module, load_source
    sys.modules['imp'] = m


def install(verif='/verif'):
    imp_shim()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder({'nxt': REPO, 'harness': verif}))
    sys.path.insert(0, REPO)
