"""Import hook: compile /repo's tensap from source, with one mechanical
rewriting, `x.astype(t)` -> `_vt_astype(x, t)`, so that symbolic integers are
not enumerated by a C-level cast.  On plain data it calls x.astype(t).
Skipped in replays (which run the untouched modules)."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys


class Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'astype':
            return ast.copy_location(ast.Call(
                func=ast.copy_location(ast.Name('_vt_astype', ast.Load()), f),
                args=[f.value] + node.args, keywords=node.keywords), node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            tree = ast.parse(f.read(), path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = os.path.join(repo, 'tensap')

    def find_spec(self, name, path, target=None):
        if name != 'tensap' and not name.startswith('tensap.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and spec.origin and \
                spec.origin.startswith(self.repo) and \
                spec.origin.endswith('.py'):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(repo):
    from . import nppatch
    builtins._vt_astype = nppatch.astype
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder(repo))
