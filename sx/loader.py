"""Loads the `structured` package from the working tree under test.

Two modes:
  symbolic - every module's source is parsed, instrumented (calls, subscripts
             and membership tests go through hooks in sx.models) and executed
             with `struct` and `io` replaced by symbolic models;
  plain    - the source is compiled unchanged (used for concrete replay).
Nothing is cached on disk: both modes read the current source on every run.
"""
from __future__ import annotations

import ast
import builtins
import hashlib
import importlib.abc
import importlib.util
import os
import pathlib
import sys

REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
PACKAGE = 'structured'
VERIF = pathlib.Path(__file__).resolve().parent.parent
ROOTS = {'structured': REPO, 'props': VERIF}
NO_HOOK_NAMES = {
    'super', 'exec', 'eval', 'compile', 'locals', 'globals', 'vars', 'dir',
    'TypeVar', 'ParamSpec', 'TypeVarTuple', 'NewType', 'TypeAlias',
}


class Instrument(ast.NodeTransformer):
    """Reroutes calls / subscripts / membership tests through hooks.

    Annotations are left alone: they may be turned back into strings and
    evaluated by typing.get_type_hints.
    """

    def _hook(self, node, name, args, keywords=()):
        return ast.copy_location(
            ast.Call(
                func=ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node),
                args=args,
                keywords=list(keywords),
            ),
            node,
        )

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _function(self, node):
        returns, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = returns
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_HOOK_NAMES:
            return node
        return self._hook(node, '__sx_call__', [node.func, *node.args], node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            index = node.slice
            if isinstance(index, ast.Slice):
                none = lambda: ast.copy_location(ast.Constant(None), node)
                index = self._hook(
                    node, '__sx_slice__',
                    [index.lower or none(), index.upper or none(), index.step or none()],
                )
            elif isinstance(index, ast.Tuple) and any(
                isinstance(e, (ast.Slice, ast.Starred)) for e in index.elts
            ):
                return node
            return self._hook(node, '__sx_getitem__', [node.value, index])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = self._hook(node, '__sx_contains__', [node.comparators[0], node.left])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), call), node)
            return call
        return node


def module_files(package=PACKAGE):
    root = ROOTS[package]
    out = {}
    for path in sorted((root / package).glob('**/*.py')):
        parts = path.relative_to(root).with_suffix('').parts
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        out['.'.join(parts)] = (path, is_pkg)
    return out


def source_digest():
    h = hashlib.sha256()
    for name, (path, _) in module_files().items():
        h.update(name.encode())
        h.update(path.read_bytes())
    return h.hexdigest()


_code_cache: dict = {}


def get_code(name, path, symbolic):
    key = (name, symbolic)
    if key not in _code_cache:
        source = path.read_bytes()
        if symbolic:
            tree = Instrument().visit(ast.parse(source, str(path)))
            ast.fix_missing_locations(tree)
            code = compile(tree, str(path), 'exec', dont_inherit=True)
        else:
            code = compile(source, str(path), 'exec', dont_inherit=True)
        _code_cache[key] = code
    return _code_cache[key]


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, symbolic):
        self.name, self.path, self.symbolic = name, path, symbolic

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = get_code(self.name, self.path, self.symbolic)
        if self.symbolic:
            from . import models

            module.__dict__['__builtins__'] = models.instrumented_builtins()
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    symbolic = False

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.partition('.')[0]
        if top not in ROOTS:
            return None
        found = module_files_cached(top).get(fullname)
        if found is None:
            return None
        path, is_pkg = found
        spec = importlib.util.spec_from_file_location(
            fullname, path, loader=Loader(fullname, path, self.symbolic),
            submodule_search_locations=[str(path.parent)] if is_pkg else None,
        )
        spec.cached = None
        return spec


_files = {}


def module_files_cached(package=PACKAGE):
    if package not in _files:
        _files[package] = module_files(package)
    return _files[package]


FINDER = Finder()


def install(symbolic):
    sys.dont_write_bytecode = True
    FINDER.symbolic = symbolic
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)


def purge(package=PACKAGE):
    for name in [n for n in sys.modules if n == package or n.startswith(package + '.')]:
        del sys.modules[name]


def fresh():
    """Import the package anew: no state survives from earlier imports."""
    purge()
    import importlib

    mod = importlib.import_module(PACKAGE)
    return mod
