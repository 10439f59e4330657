"""Import hook: the modules of the repository (and the harnesses) are loaded from their *current source*, with every
operation that inspects a value replaced by a call to the runtime (rt.py)."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import ops, rt

_NOWRAP = {"super", "locals", "globals", "vars", "eval", "exec", "len", "type", "isinstance_", "cast", "enumerate",
           "zip", "range", "__import__", "TypeVar", "NewType"}
_CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.In: "contains",
        ast.NotIn: "not_contains"}
_CHAIN = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.In: "in",
          ast.NotIn: "not_in", ast.Is: "is", ast.IsNot: "is_not"}
_STR_METHODS = set(ops.STR_MODELS)


def _rt(name: str) -> ast.expr:
    return ast.Attribute(ast.Name("__symx_rt__", ast.Load()), name, ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname: str) -> None:
        self.modname = modname
        self.classes: list[str] = []
        self.qual: list[str] = []

    # -- names
    def _mangle(self, name: str) -> str:
        if self.classes and name.startswith("__") and not name.endswith("__"):
            return "_" + self.classes[-1].lstrip("_") + name
        return name

    # -- do not touch annotations
    def visit_AnnAssign(self, node: ast.AnnAssign):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_ClassDef(self, node: ast.ClassDef):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.classes.append(node.name)
        self.qual.append(node.name)
        node.body = [self._stmt(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s])]
        self.classes.pop()
        self.qual.pop()
        return node

    def _stmt(self, s):
        return self.visit(s)

    def _function(self, node):
        node.decorator_list = [ast.Name("__symx_path_cache__", ast.Load()) if self._is_cache(d) else self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.qual.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        qn = self.modname + ":" + ".".join(self.qual)
        self.qual.pop()
        mark = ast.Expr(ast.Call(ast.Name("__symx_enter__", ast.Load()), [ast.Constant(qn)], []))
        at = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            at = 1
        body.insert(at, mark)
        node.body = body
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    @staticmethod
    def _is_cache(d) -> bool:
        f = d.func if isinstance(d, ast.Call) else d
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        return n in ("lru_cache", "cache")

    # -- imports
    def visit_Import(self, node: ast.Import):
        out = []
        keep = []
        for a in node.names:
            if a.name == "re":
                out.append(ast.ImportFrom("symx", [ast.alias("symre", a.asname or "re")], 0))
            else:
                keep.append(a)
        if keep:
            out.insert(0, ast.Import(keep))
        return out

    def visit_ImportFrom(self, node: ast.ImportFrom):
        if node.module == "re" and node.level == 0:
            node.module = "symx.symre"
        return node

    # -- expressions
    def visit_Compare(self, node: ast.Compare):
        self.generic_visit(node)
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            n = _CMP[type(node.ops[0])]
            return ast.Call(_rt(n), [node.left, node.comparators[0]], [])
        names = ast.Tuple([ast.Constant(_CHAIN[type(o)]) for o in node.ops], ast.Load())
        return ast.Call(_rt("chain"), [names, node.left] + node.comparators, [])

    def visit_Call(self, node: ast.Call):
        f = node.func
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        if isinstance(f, ast.Attribute):
            val = self.visit(f.value)
            return ast.Call(_rt("mcall"), [val, ast.Constant(self._mangle(f.attr))] + node.args, node.keywords)
        if isinstance(f, ast.Name):
            if f.id in _NOWRAP or f.id.startswith("__symx"):
                return node
            return ast.Call(_rt("call"), [f] + node.args, node.keywords)
        node.func = self.visit(f)
        return ast.Call(_rt("call"), [node.func] + node.args, node.keywords)

    def visit_Attribute(self, node: ast.Attribute):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in _STR_METHODS:
            return ast.Call(_rt("str_attr"), [node.value, ast.Constant(node.attr)], [])
        return node

    def visit_Subscript(self, node: ast.Subscript):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in node.slice.elts):
                return node
            return ast.Call(_rt("getitem"), [node.value, node.slice], [])
        return node

    def visit_Assign(self, node: ast.Assign):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(ast.Call(_rt("setitem"), [self.visit(t.value), self.visit(t.slice), node.value], []))
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node: ast.AugAssign):
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return ast.Expr(
                ast.Call(_rt("augitem"), [self.visit(t.value), self.visit(t.slice), ast.Constant(type(node.op).__name__), node.value], [])
            )
        node.target = self.visit(t)
        return node

    def visit_Delete(self, node: ast.Delete):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(ast.Call(_rt("delitem"), [self.visit(t.value), self.visit(t.slice)], [])))
            else:
                out.append(ast.Delete([self.visit(t)]))
        return out

    def visit_SetComp(self, node: ast.SetComp):
        self.generic_visit(node)
        return ast.Call(_rt("mkset"), [ast.ListComp(node.elt, node.generators)], [])

    def visit_DictComp(self, node: ast.DictComp):
        self.generic_visit(node)
        return ast.Call(_rt("mkdict"), [ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)], [])

    def visit_Set(self, node: ast.Set):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.Call(_rt("mkset"), [ast.List(node.elts, ast.Load())], [])

    def visit_Dict(self, node: ast.Dict):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.Call(_rt("mkdict"), [ast.List(items, ast.Load())], [])

    def visit_FormattedValue(self, node: ast.FormattedValue):
        self.generic_visit(node)
        if node.conversion == 114:
            node.value = ast.Call(_rt("repr_"), [node.value], [])
            node.conversion = -1
        return node

    def visit_Match(self, node):
        raise NotImplementedError("match statement")


def transform(source: str, filename: str, modname: str):
    tree = ast.parse(source, filename)
    r = Rewriter(modname)
    body = []
    for s in tree.body:
        x = r.visit(s)
        body.extend(x if isinstance(x, list) else [x])
    tree.body = body
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            data = f.read()
        return transform(importlib.util.decode_source(data), path, fullname)

    def exec_module(self, module):
        module.__dict__["__symx_rt__"] = rt
        module.__dict__["__symx_enter__"] = rt.enter
        module.__dict__["__symx_path_cache__"] = rt.path_cache
        LOADED[module.__name__] = module
        super().exec_module(module)


LOADED: dict = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        if fullname.partition(".")[0] not in self.roots:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(roots=rt.INSTRUMENTED_ROOTS) -> None:
    import importlib.util  # noqa

    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
