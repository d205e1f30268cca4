"""Loads babylondigger from the repository's current source, with every operation that C code would
otherwise perform on built-in types routed through models.py."""
import ast
import os
import sys
import types
import importlib.abc
import importlib.machinery

from . import models

REPO = os.environ.get('VERIF_REPO', '/repo')
SKIP = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', 'TypeVar', 'NewType'}


class Tx(ast.NodeTransformer):
    def __init__(self, modname, mark):
        self.mod = modname
        self.stack = []
        self.mark = mark

    # -- functions
    def _fun(self, node):
        self.stack.append(node.name)
        q = '.'.join(self.stack)
        node = self.generic_visit(node)
        self.stack.pop()
        if node.name == '__bool__':
            # CPython insists on a native bool here
            for r in ast.walk(node):
                if isinstance(r, ast.Return) and r.value is not None:
                    r.value = ast.copy_location(ast.Call(ast.Name('_sx_truth', ast.Load()), [r.value], []), r.value)
        if self.mark:
            i = 0
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                    and isinstance(node.body[0].value.value, str):
                i = 1
            m = ast.Expr(ast.Call(ast.Name('_sx_enter', ast.Load()), [ast.Constant(self.mod + ':' + q)], []))
            node.body.insert(i, ast.copy_location(m, node.body[0]))
        return node

    visit_FunctionDef = _fun
    visit_AsyncFunctionDef = _fun

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    def _n(self, name, args, node):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), node)

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in SKIP or node.func.id.startswith('_sx_')):
            return node
        return ast.copy_location(
            ast.Call(ast.Name('_sx_call', ast.Load()), [node.func] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self._n('_sx_in' if isinstance(node.ops[0], ast.In) else '_sx_notin',
                           [node.left, node.comparators[0]], node)
        if (self.mark or 'idioms' in self.mod) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and any(
                isinstance(x, ast.Constant) and isinstance(x.value, bool) for x in (node.left, node.comparators[0])):
            call = self._n('_sx_is', [node.left, node.comparators[0]], node)
            return call if isinstance(node.ops[0], ast.Is) else ast.copy_location(ast.UnaryOp(ast.Not(), call), node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._n('_sx_mod', [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = {-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(conv), spec], ast.Load()))
        return self._n('_sx_fstring', [ast.List(parts, ast.Load())], node)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return self._n('_sx_dict', [ast.List(items, ast.Load())], node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        return self._n('_sx_dict', [ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)], node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self._n('_sx_set', [ast.List(node.elts, ast.Load())], node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return self._n('_sx_set', [ast.GeneratorExp(node.elt, node.generators)], node)

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        return node


ENV = {'_sx_call': models.call, '_sx_in': models.contains, '_sx_notin': models.not_contains, '_sx_mod': models.mod,
       '_sx_fstring': models.fstring, '_sx_dict': models.mk_dict, '_sx_set': models.mk_set, '_sx_enter': models.entered,
       '_sx_is': models.is_bool, '_sx_truth': models.truth}

_code = {}


def compile_file(path, modname, mark=True):
    key = (path, modname)
    if key not in _code:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Tx(modname, mark).visit(tree)
        ast.fix_missing_locations(tree)
        _code[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _code[key]


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """babylondigger.* from the repository, instrumented"""

    def find_spec(self, name, path=None, target=None):
        if name != 'babylondigger' and not name.startswith('babylondigger.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, self, origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + '.py'):
            return importlib.machinery.ModuleSpec(name, self, origin=base + '.py')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        module.__file__ = path
        module.__dict__.update(ENV)
        if os.path.exists(path):
            exec(compile_file(path, module.__name__), module.__dict__)


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def forget():
    for n in [n for n in sys.modules if n == 'babylondigger' or n.startswith('babylondigger.')]:
        del sys.modules[n]


def load_harness(path, name):
    mod = types.ModuleType(name)
    mod.__file__ = path
    mod.__dict__.update(ENV)
    exec(compile_file(path, name, mark=False), mod.__dict__)
    return mod


class PropsFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if not name.startswith('props.'):
            return None
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        f = os.path.join(here, *name.split('.')) + '.py'
        if os.path.isfile(f):
            return importlib.machinery.ModuleSpec(name, self, origin=f)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        module.__file__ = path
        module.__dict__.update(ENV)
        exec(compile_file(path, module.__name__, mark=False), module.__dict__)


def install_props():
    if not any(isinstance(f, PropsFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, PropsFinder())
