#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the analysed sources; every check has to stay quiet on them.

refactor.py [--files a,b] [--kinds k,l] [--checks C01,...] [--jobs N] [--split]
--split applies a rewrite to one function at a time (to find the culprit).
"""
import argparse
import ast
import builtins
import copy
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
FILES = {
    "python/torch_mlir/extras/fx_importer.py": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C54",
    "python/torch_mlir/extras/fx_as_strided.py": "C13",
    "python/torch_mlir/extras/onnx_importer.py": "C16 C17 C18 C19 C20 C21 C22",
    "python/torch_mlir/tools/import_onnx/__main__.py": "C22",
    "python/torch_mlir/fx.py": "C15 C54",
    "python/torch_mlir/compiler_utils.py": "C15 C24 C26",
    "projects/pt1/python/torch_mlir/torchscript.py": "C26",
    "projects/pt1/python/torch_mlir/_dynamo_fx_importer.py": "C01 C28",
    "projects/pt1/python/torch_mlir/dynamo.py": "C28",
    "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py": "C32 C33 C34 C35",
    "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py": "C31",
    "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/registry.py": "C31",
    "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py": "C31",
    "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/utils.py": "C31",
}
count = itertools.count()


def fresh(p="_v"):
    return f"{p}{next(count)}"


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def call(f, *a):
    return ast.Call(name(f) if isinstance(f, str) else f, list(a), [])


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def escapes(stmts):
    """Whether control leaves the statements other than at their end."""
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global)):
                return True
    return False


def stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Blocks(ast.NodeTransformer):
    """Rewrites statement lists of functions: block(list) -> list."""

    fn = None

    def block(self, b):
        return b

    def generic_visit(self, n):
        outer = self.fn
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.fn = n
        super().generic_visit(n)
        if self.fn is not None:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    doc = []
                    if n is self.fn and f == "body" and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                        doc, b = b[:1], b[1:]
                    if isinstance(n, ast.ClassDef):
                        continue
                    setattr(n, f, doc + self.block(b) or [ast.Pass()])
        self.fn = outer
        return n


class Noop(Blocks):
    def block(self, b):
        out = []
        for s in b:
            out += [assign(fresh("_noop"), ast.Constant(0)), s]
        return out


class Rename(ast.NodeTransformer):
    """Renames local variables."""

    def visit_FunctionDef(self, n):
        params = {a.arg for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in x.args.args + x.args.posonlyargs + x.args.kwonlyargs + [x.args.vararg, x.args.kwarg] if a}
        skip = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names} | {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef)}
        skip |= {a.asname or a.name.split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        skip |= {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
        skip |= {x.rest for x in ast.walk(n) if isinstance(x, ast.MatchMapping)} | {x.name for x in ast.walk(n) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
        loc = stored(n) - params - skip
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += "_renamed"
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


class Invert(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If):
                s = ast.If(neg(s.test), s.orelse or [ast.Pass()], s.body)
            out.append(s)
        return out


class RetTemp(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None:
                v = fresh("_ret")
                out += [assign(v, s.value), ast.Return(name(v))]
            else:
                out.append(s)
        return out


class ArgTemp(Blocks):
    """f(a(x), b) -> t = a(x); u = b; f(t, u)"""

    def block(self, b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and all(k.arg for k in v.keywords) and not has(v, ast.Yield, ast.NamedExpr):
                if isinstance(v.func, ast.Attribute) and not isinstance(v.func.value, (ast.Name, ast.Attribute)):
                    out.append(s)
                    continue
                if isinstance(v.func, ast.Name) and v.func.id in ("super", "locals", "isinstance"):
                    out.append(s)
                    continue
                for a in list(range(len(v.args))) + v.keywords:
                    e = v.args[a] if isinstance(a, int) else a.value
                    if isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
                        continue
                    t = fresh("_arg")
                    out.append(assign(t, e))
                    if isinstance(a, int):
                        v.args[a] = name(t)
                    else:
                        a.value = name(t)
            out.append(s)
        return out


class Ternary(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                t = s.targets
                out.append(ast.If(s.value.test, [ast.Assign(copy.deepcopy(t), s.value.body)], [ast.Assign(copy.deepcopy(t), s.value.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out += [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
            else:
                out.append(s)
        return out


class CompLoop(Blocks):
    """x = [e for v in it if c] -> a loop; also dict and set comprehensions, returned ones and arguments."""

    def expand(self, c, target):
        if isinstance(c, ast.ListComp):
            body, init = ast.Expr(call(ast.Attribute(name(target), "append", ast.Load()), c.elt)), ast.List([], ast.Load())
        elif isinstance(c, ast.SetComp):
            body, init = ast.Expr(call(ast.Attribute(name(target), "add", ast.Load()), c.elt)), call("set")
        else:
            body, init = ast.Assign([ast.Subscript(name(target), c.key, ast.Store())], c.value), ast.Dict([], [])
        body = [body]
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [assign(target, init)] + body

    def block(self, b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)):
                # a comprehension has its own scope: rename its variables
                loc = set().union(*[stored(g.target) for g in v.generators])
                m = {x: fresh("_c") for x in loc}
                first = v.generators[0].iter
                v.generators[0].iter = ast.Constant(None)
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
                v.generators[0].iter = first
                t = fresh("_list")
                out += self.expand(v, t)
                s.value = name(t)
            out.append(s)
        return out


class WhileIter(Blocks):
    """for x in xs -> while with an iterator"""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse:
                i, x, end = fresh("_it"), fresh("_x"), fresh("_end")
                out += [assign(i, call("iter", s.iter)), assign(end, call("object"))]
                out.append(ast.While(ast.Constant(True), [assign(x, call("next", name(i), name(end))), ast.If(ast.Compare(name(x), [ast.Is()], [name(end)]), [ast.Break()], []), ast.Assign([s.target], name(x))] + s.body, []))
            else:
                out.append(s)
        return out


class Enumerate(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and not s.orelse:
                k = fresh("_k")
                out.append(assign(k, ast.Constant(-1)))
                s = ast.For(s.target.elts[1], s.iter.args[0], [ast.AugAssign(name(k, True), ast.Add(), ast.Constant(1)), ast.Assign([s.target.elts[0]], name(k))] + s.body, [])
            elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse:
                s = ast.For(ast.Tuple([name(fresh("_i"), True), s.target], ast.Store()), call("enumerate", s.iter), s.body, [])
            out.append(s)
        return out


class ExtractExpr(ast.NodeTransformer):
    """x = EXPR -> x = helper(free variables)"""

    def __init__(self):
        self.helpers = []
        self.locals = []

    def visit_Module(self, n):
        body = []
        for x in n.body:
            self.helpers = []
            body.append(self.visit(x))
            body += self.helpers
        n.body = body
        return n

    def visit_FunctionDef(self, n):
        inner = set(self.locals[-1]) if self.locals else set()
        ps = {a.arg for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg] if a}
        self.locals.append(inner | ps | stored(n) | {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef)} | {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
                           | {a.asname or a.name.split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names})
        n.body = [self.visit(s) for s in n.body]
        self.locals.pop()
        return n

    def helper(self, e):
        if not self.locals or isinstance(e, (ast.Constant, ast.Name)) or has(e, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await, ast.Lambda, ast.Starred):
            return e
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(e)) or any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(e)):
            return e
        bound = set().union(set(), *[stored(g.target) for x in ast.walk(e) if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for g in x.generators])
        free = []
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id in self.locals[-1] and x.id not in free and x.id not in bound:
                free.append(x.id)
        if bound & self.locals[-1] and any(isinstance(x, ast.Name) and x.id in bound for x in ast.walk(e)) and False:
            return e
        h = fresh("_helper")
        self.helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(f) for f in free], None, [], [], None, []), [ast.Return(e)], [], type_params=[]))
        return call(h, *[name(f) for f in free])

    def visit_Assign(self, n):
        n.value = self.helper(n.value)
        return n

    def visit_Return(self, n):
        if n.value is not None:
            n.value = self.helper(n.value)
        return n


class ExtractBlock(ast.NodeTransformer):
    """The body of an if or for that binds nothing becomes a function of its own."""

    def __init__(self):
        self.helpers = []
        self.locals = []

    visit_Module = ExtractExpr.visit_Module
    visit_FunctionDef = ExtractExpr.visit_FunctionDef

    def extract(self, body):
        if not self.locals or escapes(body) or any(stored(s) for s in body) or any(has(s, ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.NamedExpr) for s in body):
            return body
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for s in body for x in ast.walk(s)):
            return body
        if any(isinstance(x, ast.Raise) and x.exc is None for s in body for x in ast.walk(s)):
            return body
        free = []
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in self.locals[-1] and x.id not in free:
                    free.append(x.id)
        h = fresh("_block")
        self.helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(f) for f in free], None, [], [], None, []), body, [], type_params=[]))
        return [ast.Expr(call(h, *[name(f) for f in free]))]

    def visit_If(self, n):
        self.generic_visit(n)
        n.body = self.extract(n.body)
        if n.orelse:
            n.orelse = self.extract(n.orelse)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.extract(n.body)
        return n


class Bool(Blocks):
    """De Morgan, negated comparisons, nested ifs"""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If):
                t = s.test
                if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and not s.orelse:
                    for v in reversed(t.values):
                        s = ast.If(v, s.body if v is t.values[-1] else [s], [])
                elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
                    s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And(), [neg(v) for v in t.values]))
                elif isinstance(t, ast.Compare) and len(t.ops) == 1:
                    inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
                    if type(t.ops[0]) in inv:
                        s.test = ast.UnaryOp(ast.Not(), ast.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators))
            out.append(s)
        return out


class SwapEq(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            n.left, n.comparators = n.comparators[0], [n.left]
        elif len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            n.ops = [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()]
            n.left, n.comparators = n.comparators[0], [n.left]
        return n


class IsInst(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [call("isinstance", copy.deepcopy(n.args[0]), t) for t in n.args[1].elts])
        return n


class Guard(Blocks):
    """if c: ...return / rest -> if c: ... else: rest; and the other way round"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and b[i + 1 :]:
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1 :]))]
        return b


class Flat(Blocks):
    def block(self, b):
        out = []
        for s in b:
            while isinstance(s, ast.If) and ends(s.body) and s.orelse:
                rest, s.orelse = s.orelse, []
                out.append(s)
                if len(rest) == 1:
                    s = rest[0]
                else:
                    out += rest[:-1]
                    s = rest[-1]
            out.append(s)
        return out


class NoContinue(Blocks):
    """In a loop: if c: continue / rest -> if not c: rest"""

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, ast.For):
            n.body = self.fix(n.body)
        return n

    def fix(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and not s.orelse and b[i + 1 :]:
                return b[:i] + [ast.If(neg(s.test), self.fix(b[i + 1 :]), [])]
        return b


class FStr(ast.NodeTransformer):
    """f-strings as concatenations"""

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is not None:
                return n
            else:
                parts.append(call({114: "repr", 115: "str", 97: "ascii", -1: "str"}[v.conversion], self.visit(v.value)))
        if not parts:
            return ast.Constant("")
        e = parts[0]
        for p in parts[1:]:
            e = ast.BinOp(e, ast.Add(), p)
        return e


class Format(ast.NodeTransformer):
    """f-strings as str.format"""

    def visit_JoinedStr(self, n):
        t, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace("{", "{{").replace("}", "}}")
            elif v.format_spec is not None:
                return n
            else:
                t += "{" + {114: "!r", 115: "!s", 97: "!a", -1: ""}[v.conversion] + "}"
                args.append(self.visit(v.value))
        return call(ast.Attribute(ast.Constant(t), "format", ast.Load()), *args)


class With(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.With) and len(s.items) > 1:
                for it in reversed(s.items):
                    s = ast.With([it], s.body if it is s.items[-1] else [inner])
                    inner = s
            out.append(s)
        return out

    def block(self, b):  # noqa
        out = []
        for s in b:
            if isinstance(s, ast.With) and len(s.items) > 1:
                body = s.body
                for it in reversed(s.items):
                    body = [ast.With([it], body)]
                s = body[0]
            out.append(s)
        return out


class Consts(ast.NodeTransformer):
    """String and integer literals of functions as constants of the module."""

    def __init__(self):
        self.names, self.fn = {}, 0

    def visit_Module(self, n):
        self.generic_visit(n)
        i = 0
        while i < len(n.body) and (isinstance(n.body[i], (ast.Import, ast.ImportFrom)) or isinstance(n.body[i], ast.Expr)):
            i += 1
        n.body[i:i] = [assign(v, ast.Constant(k[1])) for k, v in self.names.items()]
        return n

    def visit_FunctionDef(self, n):
        self.fn += 1
        doc = ast.get_docstring(n) is not None
        n.body = n.body[:doc] + [self.visit(s) for s in n.body[doc:]]
        self.fn -= 1
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Match(self, n):
        return n

    def visit_Constant(self, n):
        if self.fn and isinstance(n.value, (str, int)) and not isinstance(n.value, bool):
            k = (type(n.value), n.value)
            return name(self.names.setdefault(k, fresh("_CONST")))
        return n


class Display(ast.NodeTransformer):
    """Displays as constructor calls"""

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys:
            return call("dict")
        if any(k is None for k in n.keys):
            return n
        return call("dict", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load()))

    def visit_List(self, n):
        self.generic_visit(n)
        return call("list") if isinstance(n.ctx, ast.Load) and not n.elts else n


class Get(ast.NodeTransformer):
    """d.get(k) on what are dictionaries"""

    NAMES = re.compile(r"(_map|_table|_cache|kwargs|meta|_dict|_CB|_INT|_TYPE|HANDLERS|_OP|_CREATORS?)$")

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) in (1, 2) and not n.keywords and isinstance(n.func.value, (ast.Name, ast.Attribute)) and self.NAMES.search(ast.unparse(n.func.value)):
            d, k = n.func.value, n.args[0]
            if has(k, ast.Call):
                return n
            return ast.IfExp(ast.Compare(copy.deepcopy(k), [ast.In()], [copy.deepcopy(d)]), ast.Subscript(d, k, ast.Load()), n.args[1] if len(n.args) > 1 else ast.Constant(None))
        return n


class Lambda(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and isinstance(s.targets[0], ast.Name):
                s = ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], [], type_params=[])
            out.append(s)
        return out


class Walrus(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and isinstance(s.test, ast.NamedExpr):
                out.append(ast.Assign([name(s.test.target.id, True)], s.test.value))
                s.test = name(s.test.target.id)
            elif isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.NamedExpr):
                out.append(ast.Assign([name(s.test.left.target.id, True)], s.test.left.value))
                s.test.left = name(s.test.left.target.id)
            out.append(s)
        return out


class Unpack(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and not (isinstance(s.value.func, ast.Name) and s.value.func.id in ("zip", "map")):
                t = fresh("_tup")
                out.append(assign(t, s.value))
                for i, e in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([e], ast.Subscript(name(t), ast.Constant(i), ast.Load())))
                continue
            out.append(s)
        return out


class Annot(ast.NodeTransformer):
    """Annotations removed from functions and locals"""

    fn = 0

    def visit_FunctionDef(self, n):
        self.fn += 1
        self.generic_visit(n)
        self.fn -= 1
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [n.args.vararg, n.args.kwarg]:
            if a:
                a.annotation = None
        return n

    def visit_AnnAssign(self, n):
        if self.fn:
            return ast.Assign([n.target], n.value) if n.value is not None else ast.Pass()
        return n


class AnyAll(ast.NodeTransformer):
    """any / all over a generator as a helper with a loop"""

    def __init__(self):
        self.used = set()

    def visit_Module(self, n):
        self.generic_visit(n)
        for f, hit in (("any", True), ("all", False)):
            if f in self.used:
                n.body.append(ast.FunctionDef(f"_{f}_of", ast.arguments([], [ast.arg("xs")], None, [], [], None, []),
                                              [ast.For(name("x", True), name("xs"), [ast.If(name("x") if hit else neg(name("x")), [ast.Return(ast.Constant(hit))], [])], []), ast.Return(ast.Constant(not hit))], [], type_params=[]))
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1:
            self.used.add(n.func.id)
            n.func.id = f"_{n.func.id}_of"
        return n


class LoopComp(Blocks):
    """xs = [] / for v in it: xs.append(e) -> a comprehension"""

    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            n = b[i + 1] if i + 1 < len(b) else None
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(n, ast.For) and len(n.body) == 1 and isinstance(n.body[0], ast.Expr):
                c, t = n.body[0].value, s.targets[0].id
                if isinstance(c, ast.Call) and ast.unparse(c.func) == t + ".append" and len(c.args) == 1 and t not in {x.id for x in ast.walk(c.args[0]) if isinstance(x, ast.Name)}:
                    out.append(ast.Assign(s.targets, ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class MapCall(ast.NodeTransformer):
    """[f(x) for x in xs] -> list(map(f, xs))"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        e, g = n.elt, n.generators
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name) and isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name) and e.args[0].id == g[0].target.id and isinstance(e.func, (ast.Name, ast.Attribute)) and g[0].target.id not in ast.unparse(e.func):
            return call("list", call("map", e.func, g[0].iter))
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name):
            return call("list", call("map", ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), e), g[0].iter))
        return n


class MethodOut(ast.NodeTransformer):
    """The body of a method as a function of the module."""

    def __init__(self):
        self.out = []

    def visit_Module(self, n):
        for c in list(n.body):
            if not isinstance(c, ast.ClassDef):
                continue
            self.out = []
            for m in c.body:
                if not isinstance(m, ast.FunctionDef) or m.decorator_list or m.name.startswith("__") or m.args.vararg or m.args.kwarg or m.args.kwonlyargs or m.args.posonlyargs:
                    continue
                if any(isinstance(x, ast.Name) and x.id in ("super", "__class__") or isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(m)):
                    continue
                h = fresh(f"_{m.name.strip('_')}_body")
                self.out.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a.arg) for a in m.args.args], None, [], [], None, []), m.body, [], type_params=[]))
                m.body = [ast.Return(call(h, *[name(a.arg) for a in m.args.args]))]
            i = n.body.index(c)
            n.body[i + 1 : i + 1] = self.out
        return n


class Alias(Blocks):
    """Chains self.x read twice or more, never stored, are read once."""

    def visit_FunctionDef(self, n):
        return n if False else self.generic_visit(n)


class Getattr(ast.NodeTransformer):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr.startswith("_") and not n.attr.startswith("__"):
            return call("getattr", n.value, ast.Constant(n.attr))
        return n


class Tee(Blocks):
    """x = e -> x = t = e; augmented assignments of counters"""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                t = copy.deepcopy(s.target)
                t.ctx = ast.Load()
                s = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                s.targets.append(name(fresh("_tee"), True))
            out.append(s)
        return out


class Try(Blocks):
    """A statement list in try/finally or with a re-raising handler."""

    def block(self, b):
        if self.fn and b and not isinstance(b[0], ast.Pass):
            return [ast.Try(b, [ast.ExceptHandler(name("Exception"), None, [ast.Raise()])], [], [])]
        return b


class TryFinally(Blocks):
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, ast.FunctionDef) and not has(n, ast.Yield):
            n.body = [ast.Try(n.body, [], [], [ast.Pass()])]
        return n

    def block(self, b):
        return b


class Unparse(ast.NodeTransformer):
    pass


class Split(Blocks):
    """Elements of several with items, chained comparisons."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Constant)):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n


class Kw(ast.NodeTransformer):
    """Positional arguments of the file's own functions become keywords, and keywords positional."""

    def visit_Module(self, n):
        self.sig = {}
        dup = set()
        methods = {id(f) for c in ast.walk(n) if isinstance(c, ast.ClassDef) for f in c.body}
        for c in ast.walk(n):
            if isinstance(c, ast.FunctionDef):
                ps = [a.arg for a in c.args.posonlyargs + c.args.args]
                if ps and ps[0] in ("self", "cls") and id(c) in methods:
                    ps = ps[1:]
                if c.name in self.sig and self.sig[c.name] != ps:
                    dup.add(c.name)
                self.sig[c.name] = ps
        for d in dup:
            self.sig.pop(d)
        for k in ("get", "append", "run", "parse", "add", "create", "compile"):
            self.sig.pop(k, None)
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls") else None
        ps = self.sig.get(f)
        if ps and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(ps):
            n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
            n.args = []
        return n


class Match(Blocks):
    """if/elif on isinstance chains stay; the test is evaluated into a variable first."""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not has(s.test, ast.NamedExpr):
                t = fresh("_test")
                out.append(assign(t, s.test))
                s.test = name(t)
            out.append(s)
        return out


class Reorder(Blocks):
    """Adjacent assignments of constants, names or empty displays to different locals swap."""

    def block(self, b):
        b = list(b)
        simple = lambda s: isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Constant, ast.Name, ast.List, ast.Dict, ast.Attribute)) and not has(s.value, ast.Call)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if simple(x) and simple(y):
                u = {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
                v = {n.id for n in ast.walk(y) if isinstance(n, ast.Name)}
                if x.targets[0].id not in v and y.targets[0].id not in u:
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b


class Accum(Blocks):
    """list(generator) / tuple(generator) arguments through a list first"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "set", "sum", "sorted") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        elif isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple") and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
        return n


class Nested(ast.NodeTransformer):
    """The body of a function as a nested function."""

    def visit_FunctionDef(self, n):
        if has(n, ast.Yield, ast.YieldFrom, ast.Nonlocal) or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n)):
            return n
        doc = ast.get_docstring(n) is not None
        # parameters that are rebound would become unbound locals
        ps = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [n.args.vararg, n.args.kwarg] if a}
        if ps & set().union(set(), *[stored(s) for s in n.body]):
            return n
        f = fresh("_nested")
        n.body = n.body[:doc] + [ast.FunctionDef(f, ast.arguments([], [], None, [], [], None, []), n.body[doc:] or [ast.Pass()], [], type_params=[]), ast.Return(call(f))]
        return n


KINDS = dict(unparse=Unparse, noop=Noop, rename=Rename, invert=Invert, rettemp=RetTemp, argtemp=ArgTemp, ternary=Ternary, comploop=CompLoop, whileiter=WhileIter, enumerate=Enumerate,
             extract=ExtractExpr, block=ExtractBlock, bool=Bool, swapeq=SwapEq, isinst=IsInst, guard=Guard, flat=Flat, nocontinue=NoContinue, fstr=FStr, format=Format, withs=With, consts=Consts,
             display=Display, get=Get, lambdas=Lambda, walrus=Walrus, unpack=Unpack, annot=Annot, anyall=AnyAll, loopcomp=LoopComp, mapcall=MapCall, methodout=MethodOut, getattr=Getattr, tee=Tee,
             tryx=Try, tryfinally=TryFinally, chain=Split, kw=Kw, testvar=Match, reorder=Reorder, accum=Accum, nested=Nested)


def functions(tree):
    out = []

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    out.append(q + c.name)
                else:
                    walk(c, q + c.name + ".")

    walk(tree, "")
    return out


def transform(src, kind, only=None):
    if "+" in kind:
        for k in kind.split("+"):
            src = transform(src, k, only)
        return src
    tree = ast.parse(src)
    t = KINDS[kind]()
    if only is not None:
        # everything but one function stays as it is
        parts = only.split(".")
        holder = tree
        for p in parts[:-1]:
            holder = next(c for c in holder.body if isinstance(c, ast.ClassDef) and c.name == p)
        fs = [c for c in holder.body if isinstance(c, ast.FunctionDef) and c.name == parts[-1]]
        if isinstance(t, (MethodOut, Kw)):
            tree = t.visit(tree)
        else:
            for f in fs:
                m = ast.Module([f], [])
                m = t.visit(m)
                i = holder.body.index(f)
                holder.body[i : i + 1] = [m.body[0]]
                extra = m.body[1:]
                if isinstance(m.body[0], ast.Assign):  # constants come first
                    k = next(i for i, s in enumerate(m.body) if isinstance(s, ast.FunctionDef) and s.name == parts[-1])
                    holder.body[i : i + 1] = [m.body[k]]
                    pre, extra = m.body[:k], m.body[k + 1 :]
                    j = 0
                    while isinstance(tree.body[j], (ast.Import, ast.ImportFrom, ast.Expr)):
                        j += 1
                    tree.body[j:j] = pre
                tree.body += extra
    else:
        tree = t.visit(tree)
    out = ast.unparse(ast.fix_missing_locations(tree))
    compile(out, "x", "exec")
    return out


def run(job):
    rel, kind, only, checks, base = job
    src = open(os.path.join(REPO, rel)).read()
    try:
        new = transform(src, kind, only)
    except Exception as e:
        return job, f"TRANSFORM {type(e).__name__}: {e}"
    if new == ast.unparse(ast.parse(src)) and kind != "unparse":
        return job, None
    d = tempfile.mkdtemp(prefix="refac", dir="/tmp")
    try:
        for top in ("python", "projects", "include", "lib"):
            os.makedirs(os.path.join(d, top), exist_ok=True)
        subprocess.run(["cp", "-a", os.path.join(REPO, "python"), os.path.join(REPO, "projects"), os.path.join(REPO, "include"), d + "/"], check=True)
        os.rmdir(os.path.join(d, "lib"))
        os.symlink(os.path.join(REPO, "lib"), os.path.join(d, "lib"))
        with open(os.path.join(d, rel), "w") as f:
            f.write(new)
        msgs = []
        for c in checks:
            try:
                r = subprocess.run([sys.executable, os.path.join(base, "check.py"), "--property", c], env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True, timeout=900, cwd=base)
            except subprocess.TimeoutExpired:
                msgs.append(f"{c}: TIMEOUT")
                continue
            o = r.stdout + r.stderr
            if r.returncode == 1:
                msgs.append(f"{c}: ALARM " + " | ".join(o.strip().splitlines()[:3])[:300])
            elif r.returncode:
                msgs.append(f"{c}: exit {r.returncode} {o[-200:]}")
            elif "undecided" in o:
                l = next(l for l in o.splitlines() if "undecided" in l)
                msgs.append(f"{c}: {l.strip()[:250]}")
        return job, "\n    ".join(msgs) or "quiet"
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default="")
    ap.add_argument("--kinds", default="")
    ap.add_argument("--checks", default="")
    ap.add_argument("--funcs", default="")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--split", action="store_true")
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    # an own copy, so that evidence files of parallel runs do not collide
    jobs = []
    for rel in FILES:
        if a.files and not any(x in rel for x in a.files.split(",")):
            continue
        cs = [c for c in (a.checks.replace(",", " ") or FILES[rel]).split() if os.path.exists(os.path.join(base, "checks", c.lower() + ".py"))]
        for k in a.kinds.split(",") if a.kinds else KINDS:
            if a.show:
                print(transform(open(os.path.join(REPO, rel)).read(), k))
                continue
            if a.split or a.funcs:
                for f in functions(ast.parse(open(os.path.join(REPO, rel)).read())):
                    if not a.funcs or f in a.funcs.split(","):
                        jobs.append((rel, k, f, cs, base))
            else:
                jobs.append((rel, k, None, cs, base))
    quiet = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        for (rel, k, f, _, _), m in ex.map(run, jobs):
            if m in ("quiet", None):
                quiet += m == "quiet"
            else:
                print(f"{os.path.basename(rel)} {k} {f or ''}\n    {m}", flush=True)
    print(f"{quiet} rewrites quiet of {len(jobs)}")


if __name__ == "__main__":
    main()
