"""Scheduling points inside the jitted code.

An import hook adds a call of a C callback at the entry of every function decorated with jit/njit and
at the head of every loop of it; the callback enters the controlled scheduler.  The rest of the
source is compiled exactly as it stands in /repo."""
import ast
import ctypes
import importlib.abc
import importlib.machinery
import os
import sys

NAME = "_wwmc_yield"
POINT = [None]        # called at every point when set
STATS = {"functions": 0, "points": 0}

PROTO = ctypes.CFUNCTYPE(None)


def _point():
    f = POINT[0]
    if f is not None:
        f()


CB = PROTO(_point)


def is_jit(dec):
    if isinstance(dec, ast.Call):
        dec = dec.func
    if isinstance(dec, ast.Attribute):
        return dec.attr in ("jit", "njit")
    return isinstance(dec, ast.Name) and dec.id in ("jit", "njit")


def call(node):
    STATS["points"] += 1
    c = ast.Expr(ast.Call(ast.Name(NAME, ast.Load()), [], []))
    return ast.fix_missing_locations(ast.copy_location(c, node))


class Loops(ast.NodeTransformer):
    def loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, call(node.body[0]))
        return node

    visit_For = visit_While = loop

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ListComp = visit_GeneratorExp = visit_FunctionDef


class Functions(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        if any(is_jit(d) for d in node.decorator_list):
            STATS["functions"] += 1
            body = [Loops().visit(s) for s in node.body]
            k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            if k < len(body):
                body.insert(k, call(body[k]))
            node.body = body
        else:
            self.generic_visit(node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(Functions().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__[NAME] = CB
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, src):
        self.src = os.path.realpath(src) + os.sep

    def find_spec(self, name, path=None, target=None):
        if name != "wildwood" and not name.startswith("wildwood."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        if not os.path.realpath(spec.origin).startswith(self.src):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(src):
    sys.meta_path.insert(0, Finder(src))
