"""Step points in spgrep: every statement and every assigned, returned or collected value.

``install()`` adds an import hook that compiles the spgrep modules of the working tree with calls to
``step`` before each statement and ``value`` around the right-hand sides; nothing else changes, and
outside of a simulation both do nothing.  (sys.settrace would do the same, but CPython 3.12 crashes
when several threads trace one code object and one of them leaves.)
"""

from __future__ import annotations

import ast
import importlib.machinery
import sys

HOOK = None  # callable(kind, function name)
ON = False


def step():
    if HOOK is not None:
        HOOK(0, sys._getframe(1).f_code.co_name)


def value(x):
    if HOOK is not None:
        HOOK(1, sys._getframe(1).f_code.co_name)
    return x


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Instrument(ast.NodeTransformer):
    depth = 0

    def _fn(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = _fn

    def _val(self, e):
        return ast.copy_location(_call("__sim_value__", e), e)

    def _wrap_value(self, node):
        self.generic_visit(node)
        if self.depth and node.value is not None:
            node.value = self._val(node.value)
        return node

    visit_Assign = visit_AugAssign = visit_Return = visit_AnnAssign = _wrap_value

    def _wrap_elt(self, node):
        self.generic_visit(node)
        if self.depth:
            node.elt = self._val(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = _wrap_elt

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth:
            for field in ("body", "orelse", "finalbody"):
                body = getattr(node, field, None)
                if isinstance(body, list) and body and isinstance(body[0], ast.stmt):
                    out = []
                    for k, s in enumerate(body):
                        doc = (
                            k == 0
                            and isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))
                            and isinstance(s, ast.Expr)
                            and isinstance(s.value, ast.Constant)
                        )
                        skip = doc or isinstance(s, (ast.Global, ast.Nonlocal))
                        if not skip:
                            out.append(ast.copy_location(ast.Expr(ast.copy_location(_call("__sim_step__"), s)), s))
                        out.append(s)
                    setattr(node, field, out)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(Instrument().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["__sim_step__"] = step
        module.__dict__["__sim_value__"] = value
        super().exec_module(module)


class Finder:
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "spgrep" and not fullname.startswith("spgrep."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    global ON
    if not ON:
        ON = True
        sys.meta_path.insert(0, Finder())
