"""Path-sensitive abstract interpretation of Python source.

The analysed functions are never executed.  Their syntax trees are interpreted
over the value-provenance domain of values.py: unknown inputs are opaque terms,
calls that leave the analysed sources are recorded as events and yield opaque
terms, branches on undecided conditions are followed both ways (consistent with
the conditions already taken on the path), loops over unknown sequences are
followed for 0..k abstract members.  No solver is involved: path feasibility is
decided by constants, known types, equality and interval facts of the path.
"""

from __future__ import annotations

import ast
import time
import builtins as _py
import collections.abc as _abc
import operator as _op
import os
import string

from .values import *  # noqa: F401,F403
from .values import K, Q, T, Lst, SetV, Dct, Fn, Bound, Partial, Builtin, Cls, Obj, ModV
from .values import NONE, TRUE, FALSE, freeze, veq, show, V


class AnalysisError(Exception):
    """The analysis cannot give a verdict (vanished anchor, unsupported code)."""


class PyRaise(Exception):
    def __init__(self, exc, name, node=None, cause=None):
        super().__init__(name)
        self.exc = exc
        self.name = name
        self.node = node
        self.cause = cause


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class CutPath(Exception):
    """The path leaves the explored bound (loop or recursion bound)."""


class Infeasible(Exception):
    pass


class Event:
    __slots__ = (
        "kind", "name", "recv", "args", "kw", "res", "line", "mod", "func", "ctx",
        "nfacts", "idx", "callee", "node", "live",
    )

    def arg(self, name, pos=None, default=None):
        if name in self.kw:
            return self.kw[name]
        if pos is not None and pos < len(self.args):
            return self.args[pos]
        return default

    def where(self):
        return f"{self.mod}:{self.line}"

    def __repr__(self):
        a = ", ".join([show(x) for x in self.args] + [f"{k}={show(x)}" for k, x in self.kw.items()])
        r = (show(self.recv) if self.recv is not None else "")
        return f"{self.kind} {r}{self.name}({a}) @{self.where()}"


class Path:
    def __init__(self):
        self.events = []
        self.facts = []  # (atom, bool, line)
        self.outcome = None  # 'return' | 'raise' | 'cut'
        self.value = None
        self.exc = None
        self.cut = None

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and (not names or match(e.name, names))]

    def fact(self, atom):
        for a, b, _ in self.facts:
            if a == atom:
                return b
        return None

    def describe(self, n=12):
        fs = [f"{'' if b else 'not '}{show(a)}" for a, b, _ in self.facts][-n:]
        o = self.outcome
        if o == "return":
            o += " " + show(freeze(self.value))
        elif o == "raise":
            o += f" {self.exc.name}"
        return "when [" + "; ".join(fs) + "] -> " + o


def match(name, pats):
    for p in pats:
        if p.endswith("*") and name.startswith(p[:-1]):
            return True
        if name == p or name.endswith("." + p):
            return True
    return False


class Module:
    def __init__(self, name, path, root, src=None):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, root)
        if src is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        self.src = src
        self.tree = ast.parse(self.src, path)
        self.globals = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.done = False


class Env:
    __slots__ = ("vars", "parent", "locals", "globals_decl", "nonlocals", "mod", "is_class")

    def __init__(self, mod, parent=None, locals_=None):
        self.vars = {}
        self.parent = parent
        self.locals = locals_
        self.globals_decl = set()
        self.nonlocals = set()
        self.mod = mod
        self.is_class = False


def _assigned(node_body):
    out, glob, nonl = set(), set(), set()

    class A(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list:
                self.visit(d)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # walrus targets leak; rare
            self.generic_visit_iters(n)

        def generic_visit_iters(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            nonl.update(n.names)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    v = A()
    for s in node_body:
        v.visit(s)
    return out - glob - nonl, glob, nonl


_ASSIGN_CACHE = {}


def assigned(fnode):
    k = id(fnode)
    if k not in _ASSIGN_CACHE:
        body = fnode.body if isinstance(fnode.body, list) else []
        loc, glob, nonl = _assigned(body)
        has_yield = False
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                has_yield = True
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _ASSIGN_CACHE[k] = (loc, glob, nonl, has_yield, fnode)
    return _ASSIGN_CACHE[k]


SEQ = ("list", "tuple", "ilist")
SEQS = SEQ + ("set",)
SEQSD = SEQS + ("dict",)
IMMUTABLE_LIST = "torch.fx.immutable_collections.immutable_list"
BUILTIN_NAMES = set(dir(_py)) | {"__file__", "__name__", "__doc__"}

_BIN = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv",
    ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.LShift: "lshift",
    ast.RShift: "rshift", ast.BitOr: "or_", ast.BitAnd: "and_", ast.BitXor: "xor",
    ast.MatMult: "matmul",
}
_CMP = {
    ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt",
    ast.GtE: "ge", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin",
}

# Class hierarchy facts about external classes used by isinstance tests.
SUBCLASS = {
    "builtins.bool": ["builtins.int"],
    "sympy.Integer": ["sympy.Rational", "sympy.Number", "sympy.Expr"],
    "sympy.Symbol": ["sympy.Expr"],
    "sympy.Add": ["sympy.Expr"],
    "sympy.Mul": ["sympy.Expr"],
    "sympy.Pow": ["sympy.Expr"],
    "sympy.Mod": ["sympy.Expr"],
    "torch._subclasses.fake_tensor.FakeTensor": ["torch.Tensor"],
    "torch._subclasses.FakeTensor": ["torch.Tensor"],
    "torch.nn.Parameter": ["torch.Tensor"],
    "torch.fx.immutable_collections.immutable_list": ["builtins.list"],
    "torch.fx.immutable_collections.immutable_dict": ["builtins.dict"],
    "torch.Size": ["builtins.tuple"],
    "torch.fx.GraphModule": ["torch.nn.Module"],
    "torch.jit.ScriptModule": ["torch.nn.Module"],
    "numpy.ndarray": [],
}


_ABCS = ("Sequence", "MutableSequence", "Mapping", "MutableMapping", "Set", "MutableSet", "AbstractSet")
_GENERIC = {"typing.List": "builtins.list", "typing.Dict": "builtins.dict", "typing.Tuple": "builtins.tuple", "typing.Set": "builtins.set"}


def ext_subclass(a, b):
    b = _GENERIC.get(b, b)
    if a == b:
        return True
    if a.startswith("builtins.") and b.rpartition(".")[0] in ("typing", "collections.abc") and b.rpartition(".")[2] in _ABCS:
        c = getattr(_py, a[9:], None)
        if isinstance(c, type):
            return issubclass(c, getattr(_abc, b.rpartition(".")[2].replace("AbstractSet", "Set")))
    if b in ("builtins.object",):
        return True
    for s in SUBCLASS.get(a, ()):
        if ext_subclass(s, b):
            return True
    if a.startswith("builtins.") and b.startswith("builtins."):
        ca, cb = getattr(_py, a[9:], None), getattr(_py, b[9:], None)
        if isinstance(ca, type) and isinstance(cb, type):
            return issubclass(ca, cb)
    return False


def exc_subclass(a, b):
    """Is external/builtin exception named a caught by handler b?"""
    if a == b or b in ("builtins.BaseException",):
        return True
    sa, sb = a.split(".")[-1], b.split(".")[-1]
    ca, cb = getattr(_py, sa, None), getattr(_py, sb, None)
    ca = ca if isinstance(ca, type) and a.startswith("builtins.") else None
    cb = cb if isinstance(cb, type) and b.startswith("builtins.") else None
    if ca and cb:
        return issubclass(ca, cb)
    if cb is Exception:
        return True
    return False


class Interp:
    def __init__(self, project, **cfg):
        self.p = project
        self.max_paths = cfg.get("max_paths", 4000)
        self.maxit = cfg.get("maxit", 1)
        self.maxwhile = cfg.get("maxwhile", 2)
        self.max_rec = cfg.get("max_rec", 2)
        self.max_depth = cfg.get("max_depth", 40)
        self.max_steps = cfg.get("max_steps", 60000)
        self.max_total = cfg.get("max_total", 400000)
        self.deadline = cfg.get("deadline")
        self.total = 0
        # names (suffix-matched on the qualified name) that are not inlined
        self.opaque = set(cfg.get("opaque", ()))
        # Python callables modelling calls: {name: f(interp, ev) -> V|None}
        self.models = dict(cfg.get("models", {}))
        self.ids = dict(cfg.get("ids", {}))  # objects that (re)use an id
        self.dead = set(cfg.get("dead", ()))  # objects that have been collected
        # exact types of terms: {term: qualified class name}
        self.types = dict(cfg.get("types", {}))
        # attribute values of terms: {(term, name): V}
        self.attrs = dict(cfg.get("attrs", {}))
        # raise_model(ev) -> list of exception names the call may raise
        self.raise_model = cfg.get("raise_model")
        self.assume_asserts = cfg.get("assume_asserts", True)
        self.counts0 = dict(cfg.get("counts", {}))  # {iterable term: n}
        self.facts0 = list(cfg.get("facts", []))  # [(atom, bool)]
        self.extra_subclass = cfg.get("subclass", {})
        self.inline_modules = cfg.get("inline_modules")  # None: all analysed modules
        self.falsy = set(cfg.get("falsy", ()))  # objects whose truth is undecided
        self.force = cfg.get("force")  # optional: force(atom) -> bool|None
        self.module_mode = False
        self.covered = set()
        self.truncated = False
        self.unresolved = set()
        self._path_end = None
        self._reset()

    # ------------------------------------------------------------ path state
    def _reset(self):
        self.path = Path()
        self.choices = []
        self.pos = 0
        self.prefix = []
        self.fd = {}
        self.eqs = {}
        self.iv = {}
        self.neqs = {}
        self.inst = {}
        self.heap = {}
        self.counts = {}
        self.touched = {}
        self.ctx = []
        self.stack = []
        self.tries = []
        self.depth = 0
        self.steps = 0
        self.objid = 0
        self.yieldcb = []

    def explore(self, thunk):
        """thunk(interp) evaluates the entry; returns the list of paths."""
        paths = []
        work = [[]]
        while work:
            if len(paths) >= self.max_paths:
                self.truncated = True
                break
            prefix = work.pop()
            self._reset()
            self.prefix = prefix
            self.counts.update(self.counts0)
            try:
                for a, b in self.facts0:
                    self._assume(a, b)
                try:
                    v = thunk(self)
                    self.path.outcome, self.path.value = "return", v
                except PyRaise as e:
                    self.path.outcome, self.path.exc = "raise", e
                except CutPath as e:
                    self.path.outcome, self.path.cut = "cut", str(e)
                except RecursionError:
                    self.path.outcome, self.path.cut = "cut", "recursion"
                ok = True
            except Infeasible:
                ok = False
            if ok and self._path_end:
                self._path_end(self, self.path)
            self._restore()
            taken = [c[0] for c in self.choices]
            for i in range(len(prefix), len(self.choices)):
                for alt in range(self.choices[i][1] - 1, 0, -1):
                    work.append(taken[:i] + [alt])
            if ok:
                paths.append(self.path)
        return paths

    @staticmethod
    def _drain(v):
        while v.items:
            x, v.items = v.items[0], v.items[1:]
            yield x

    def _touch(self, c):
        if id(c) not in self.touched:
            if isinstance(c, (Lst, SetV)):
                self.touched[id(c)] = (c, list(c.items))
            elif isinstance(c, Dct):
                self.touched[id(c)] = (c, list(c.pairs))
            elif isinstance(c, Obj):
                self.touched[id(c)] = (c, dict(c.attrs))
            elif isinstance(c, dict):
                self.touched[id(c)] = (c, dict(c))
            elif isinstance(c, Cls):
                self.touched[id(c)] = (c, dict(c.attrs))

    def _restore(self):
        for c, old in self.touched.values():
            if isinstance(c, (Lst, SetV)):
                c.items = old
            elif isinstance(c, Dct):
                c.pairs = old
            elif isinstance(c, (Obj, Cls)):
                c.attrs = old
            else:
                c.clear()
                c.update(old)

    def choose(self, n):
        if self.module_mode:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.choices.append((c, n))
        return c

    # ------------------------------------------------------------ conditions
    def resolve(self, v):
        if isinstance(v, T):
            r = self.eqs.get(v)
            if r is not None:
                return r
            if v.op == "len":
                n = self.counts.get(v.args[0])
                if n is not None:
                    return K(n)
        return v

    def norm(self, v):
        """Normalise a condition value into (atom|bool, polarity)."""
        v = self.resolve(v)
        if isinstance(v, K):
            return bool(v.v), True
        if isinstance(v, Lst):
            return len(v.items) > 0, True
        if isinstance(v, SetV):
            return len(v.items) > 0, True
        if isinstance(v, Dct):
            if v.pairs:
                return True, True
            if v.rest is not None:
                return T("truth", v.rest), True
            return False, True
        if isinstance(v, (Fn, Bound, Cls, Q, ModV, Builtin, Partial)):
            return True, True
        if isinstance(v, Obj):
            m = v.cls.lookup("__bool__") if v.cls else None
            if m is None:
                return True, True
            return self.norm(self.call_value(Bound(m, v), [], {}, None))
        if not isinstance(v, T):
            return True, True
        op, a = v.op, v.args
        if op == "not":
            x, p = self.norm(a[0])
            return (not x, True) if isinstance(x, bool) else (x, not p)
        if op in SEQSD:
            return len(a) > 0, True
        if op == "obj" and v not in self.falsy:
            return True, True
        if op == "fstr":
            for x in a:
                if isinstance(x, K) and x.v:
                    return True, True
        if op in ("ne", "isnot"):
            x, p = self.cmp_norm("eq", a[0], a[1])
            return (not x, True) if isinstance(x, bool) else (x, not p)
        if op in ("eq", "is", "lt", "le", "gt", "ge"):
            return self.cmp_norm({"is": "eq"}.get(op, op), a[0], a[1])
        if op == "len":
            return self.norm(a[0]) if isinstance(a[0], T) else (v, True)
        if op == "copy":
            return self.norm(a[0])
        return v, True

    def cmp_norm(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op == "gt":
            return self.cmp_norm("lt", b, a)
        if op in ("le", "ge"):
            # a <= b  ==  not b < a
            x, p = self.cmp_norm("lt", b, a) if op == "le" else self.cmp_norm("lt", a, b)
            return (not x, True) if isinstance(x, bool) else (x, not p)
        fa, fb = freeze(a), freeze(b)
        if op == "eq":
            if fa == fb:
                return True, True
            ca, cb = self.is_const(fa), self.is_const(fb)
            if ca and cb:
                if isinstance(fa, K) and isinstance(fb, K):
                    try:
                        return bool(fa.v == fb.v), True
                    except Exception:
                        return False, True
                return False, True
            # container shapes
            for x, y in ((fa, fb), (fb, fa)):
                if isinstance(x, T) and x.op in SEQ and isinstance(y, T) and y.op in SEQ:
                    if x.op != y.op or len(x.args) != len(y.args):
                        return False, True
                    rem = None
                    for p, q in zip(x.args, y.args):
                        c, pol = self.cmp_norm("eq", p, q)
                        if c is True or c is False:
                            if c is not pol:
                                return False, True
                            continue
                        rem = T("eq", x, y)
                    if rem is None:
                        return True, True
                    return rem, True
            if cb and not ca:
                fa, fb = fb, fa  # constant first
            elif not ca and not cb and repr(fb) < repr(fa):
                fa, fb = fb, fa
            if isinstance(fb, T) and fb.op == "len" and fa == K(0):
                x, p = self.norm(fb.args[0])
                return (not x, True) if isinstance(x, bool) else (x, not p)
            if isinstance(fa, K) and fa.v is True and self.type_of(fb) == "builtins.bool":
                return self.norm(fb)
            # None against values that cannot be None
            if fa == NONE:
                if isinstance(fb, T) and fb.op in ("list", "tuple", "ilist", "dict", "set", "obj", "id", "fstr", "len", "str", "repr", "type", "add", "sub", "mul", "bound", "isinstance", "copy"):
                    return False, True
                if isinstance(fb, T) and fb.op == "call" and isinstance(fb.args[0], Q) and fb.args[0].name.startswith("torch_mlir.ir."):
                    # factories and constructors of the bindings return objects
                    last = fb.args[0].name.rsplit(".", 1)[-1]
                    if last[0].isupper() or last.startswith(("get", "create", "parse")):
                        return False, True
                t = self.type_of(fb)
                if t is not None:
                    return t == "builtins.NoneType", True
            if isinstance(fb, T) and fb.op == "type" and self.type_of(fb.args[0]):
                n = self.cname(fa)
                if n is not None:
                    return n == self.type_of(fb.args[0]), True
            if isinstance(fa, K) and isinstance(fb, T):
                iv = self.iv.get(fb)
                if iv and isinstance(fa.v, (int, float)) and not isinstance(fa.v, bool):
                    if fa.v < iv[0] or fa.v > iv[1]:
                        return False, True
            if fa in self.neqs.get(fb, ()):
                return False, True
            if isinstance(a, Obj) or isinstance(b, Obj):
                if isinstance(a, Obj) and isinstance(b, Obj):
                    return a is b, True
                o = b if isinstance(a, Obj) else a
                if self.is_const(freeze(o)):
                    return False, True
            return T("eq", fa, fb), True
        # lt
        if isinstance(fa, K) and isinstance(fb, K):
            try:
                return bool(fa.v < fb.v), True
            except Exception:
                return T("lt", fa, fb), True
        if isinstance(fa, K) and isinstance(fb, T) and isinstance(fa.v, (int, float)):
            iv = self.iv.get(fb)
            if iv:
                if fa.v < iv[0]:
                    return True, True
                if fa.v >= iv[1]:
                    return False, True
            if fb.op == "len" and fa.v == 0:
                return self.norm(fb.args[0])
            if fb.op == "len" and fa.v < 0:
                return True, True
        if isinstance(fb, K) and isinstance(fa, T) and isinstance(fb.v, (int, float)):
            iv = self.iv.get(fa)
            if iv:
                if iv[1] < fb.v:
                    return True, True
                if iv[0] >= fb.v:
                    return False, True
            if fa.op == "len" and isinstance(fb.v, int):
                # len(x) < n  ==  not (n-1 < len(x))
                x, p = self.cmp_norm("lt", K(fb.v - 1), fa)
                return (not x, True) if isinstance(x, bool) else (x, not p)
        return T("lt", fa, fb), True

    def is_const(self, v):
        return isinstance(v, (K, Q, Cls, Fn)) or isinstance(v, T) and v.op in ("obj", "id") and all(isinstance(x, K) or self.is_const(x) for x in v.args) or (
            isinstance(v, T) and v.op == "neg" and isinstance(v.args[0], Q)) or (
            isinstance(v, T) and v.op in SEQ and all(self.is_const(x) for x in v.args)
        )

    def truth(self, v, node=None):
        atom, pol = self.norm(v)
        if isinstance(atom, bool):
            return atom is pol if not pol else atom
        return self.decide(atom, node) == pol

    def decide(self, atom, node=None):
        if atom in self.fd:
            return self.fd[atom]
        if self.module_mode:
            return self.p.module_policy(atom)
        forced = self.force(atom) if self.force else None
        if isinstance(atom, T) and atom.op in ("isinstance",):
            k = self._inst_known(atom.args[0], atom.args[1])
            if k is not None:
                return k
        if forced is not None:
            val = forced
        else:
            val = self.choose(2) == 0
        self._assume(atom, val, node)
        return val

    def _assume(self, atom, val, node=None):
        if isinstance(atom, T) and atom.op == "not":
            return self._assume(atom.args[0], not val, node)
        self.fd[atom] = val
        self.path.facts.append((atom, val, getattr(node, "lineno", None)))
        if not isinstance(atom, T):
            return
        op, a = atom.op, atom.args
        if op == "eq":
            fa, fb = a
            if val:
                if self.is_const(fa) and isinstance(fb, T):
                    self.eqs[fb] = fa
                elif self.is_const(fb) and isinstance(fa, T):
                    self.eqs[fa] = fb
                if isinstance(fb, T) and fb.op == "type":
                    n = self.cname(fa)
                    if n:
                        self.types_path(fb.args[0], n)
            else:
                self.neqs.setdefault(fb, set()).add(fa)
        elif op == "lt":
            fa, fb = a
            num = lambda k: isinstance(k, K) and isinstance(k.v, (int, float))
            if num(fa) and isinstance(fb, T):
                lo, hi = self.iv.get(fb, (float("-inf"), float("inf")))
                if val:
                    lo = max(lo, fa.v + (1 if isinstance(fa.v, int) else 0))
                else:
                    hi = min(hi, fa.v)
                self.iv[fb] = (lo, hi)
            elif num(fb) and isinstance(fa, T):
                lo, hi = self.iv.get(fa, (float("-inf"), float("inf")))
                if val:
                    hi = min(hi, fb.v - (1 if isinstance(fb.v, int) else 0))
                else:
                    lo = max(lo, fb.v)
                self.iv[fa] = (lo, hi)
        elif op == "isinstance":
            self.inst.setdefault(a[0], {})[a[1]] = val
        else:
            # truthiness of an opaque sequence
            if not val:
                self.counts.setdefault(atom, 0)

    def types_path(self, term, name):
        self.inst.setdefault(term, {})["=exact"] = name

    def type_of(self, v):
        """Qualified name of the exact class, or None."""
        v = self.resolve(v) if isinstance(v, T) else v
        if isinstance(v, K):
            if v.v is None:
                return "builtins.NoneType"
            return "builtins." + type(v.v).__name__
        if isinstance(v, Lst):
            return IMMUTABLE_LIST if v.kind == "ilist" else "builtins." + v.kind
        if isinstance(v, Dct):
            return "collections.defaultdict" if v.default is not None else "builtins.dict"
        if isinstance(v, SetV):
            return "builtins.set"
        if isinstance(v, Obj):
            return v.cls.qual
        if isinstance(v, (Fn, Bound)):
            return "builtins.function"
        if isinstance(v, Cls):
            return "builtins.type"
        if isinstance(v, (T, Q)) and v in self.types:
            return self.types[v]
        if isinstance(v, T):
            if v.op == "ilist":
                return IMMUTABLE_LIST
            ex = self.inst.get(v, {}).get("=exact")
            if ex:
                return ex
            if v.op in SEQSD:
                return "builtins." + v.op
            if v.op in ("fstr", "str", "repr"):
                return "builtins.str"
            if v.op == "len":
                return "builtins.int"
            if v.op in ("isinstance", "not", "eq", "ne", "lt", "hasattr", "in"):
                return "builtins.bool"
        if isinstance(v, Q):
            return self.p.q_types(v.name)
        return None

    def cname(self, v):
        if isinstance(v, Q):
            return v.name
        if isinstance(v, Cls):
            return v.qual
        if isinstance(v, T) and v.op == "index":
            return None
        return None

    def subclass(self, a, b):
        if ext_subclass(a, b):
            return True
        if b in self.extra_subclass.get(a, ()):
            return True
        ca = self.p.class_by_qual(a)
        if ca is not None:
            for c in ca.mro():
                if c.qual == b:
                    return True
                for e in c.bases:
                    if isinstance(e, Q) and (e.name == b or ext_subclass(e.name, b)):
                        return True
            for e in ca.ext_bases():
                if isinstance(e, Q) and exc_subclass(e.name, b):
                    return True
        return False

    def _inst_known(self, x, cls):
        n = self.cname(cls)
        t = self.type_of(x)
        if n is not None and t is not None:
            return self.subclass(t, n)
        for c, b in self.inst.get(x, {}).items():
            if c == "=exact":
                continue
            m = self.cname(c)
            if m is None or n is None:
                continue
            if b and self.subclass(m, n):
                return True
            if not b and self.subclass(n, m):
                return False
            if b and m != n and self.disjoint(m, n):
                return False
        return None

    def disjoint(self, a, b):
        if self.subclass(a, b) or self.subclass(b, a):
            return False
        if a.startswith("sympy.") and b.startswith("sympy."):
            return True
        fam = lambda s: s.startswith("builtins.") or s in (
            "torch.Tensor", "torch.fx.Node", "torch.SymInt", "torch.SymFloat",
            "torch.SymBool", "numpy.ndarray", "torch.dtype", "torch.device",
            "torch.layout", "torch.memory_format", "torch.nn.Module",
            "torch.fx.GraphModule", "torch.jit.ScriptModule", "sympy.Integer",
            "torch.export.graph_signature.TensorArgument",
            "torch.export.graph_signature.SymIntArgument",
            "torch.export.graph_signature.ConstantArgument",
        )
        return fam(a) and fam(b)

    def isinstance_(self, x, cls, node=None):
        cls = self.resolve(cls)
        if isinstance(cls, T) and cls.op in ("tuple", "or_"):
            cls = Lst(list(cls.args), "tuple")
        if isinstance(cls, Lst):
            for c in cls.items:
                if self.isinstance_(x, c, node):
                    return True
            return False
        x = self.resolve(x)
        fx = freeze(x)
        if fx == NONE and isinstance(cls, Cls):
            return False
        n = self.cname(cls)
        t = self.type_of(x)
        if t is not None and n is not None:
            return self.subclass(t, n)
        if isinstance(x, Q) and n is not None and t is None:
            if n == "builtins.str" or n.startswith("builtins."):
                return False
        return self.decide(T("isinstance", fx, freeze(cls)), node)

    # ------------------------------------------------------------ events
    def emit(self, kind, name, recv=None, args=(), kw=None, res=None, node=None, callee=None):
        e = Event()
        e.kind, e.name = kind, name
        e.recv = freeze(recv) if recv is not None else None
        e.args = [freeze(a) for a in args]
        e.kw = {k: freeze(v) for k, v in (kw or {}).items()}
        e.res = res
        e.line = getattr(node, "lineno", 0)
        e.node = node
        fr = self.stack[-1] if self.stack else None
        e.mod = fr.mod.rel if fr else "?"
        e.func = fr.qual if fr else "<module>"
        e.ctx = tuple(self.ctx)
        e.nfacts = len(self.path.facts)
        e.callee = callee
        e.live = (recv, list(args), dict(kw or {}))
        e.idx = len(self.path.events)
        self.path.events.append(e)
        return e

    def raise_(self, name, args=(), node=None):
        q = Q(name if "." in name else "builtins." + name)
        exc = T("call", q, tuple(freeze(a) for a in args), ())
        self.emit("raise", q.name, None, args, {}, None, node)
        raise PyRaise(exc, q.name, node)

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        self.total += 1
        if self.steps > self.max_steps:
            raise CutPath("step bound")
        if self.total > self.max_total:
            raise AnalysisError("too many paths")
        if self.deadline is not None and not self.total % 512 and time.time() > self.deadline:
            raise AnalysisError("out of time")
        if not self.module_mode:
            self.covered.add((env.mod.rel, self.stack[-1].qual if self.stack else '<module>', s.lineno))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(s).__name__} at {env.mod.rel}:{s.lineno}")
        return m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value else NONE)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, env, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            old = self.attr(base, t.attr, t)
        else:
            base = self.ev(t.value, env)
            key = self.slice_(t.slice, env)
            old = self.index(base, key, t)
        rhs = self.ev(s.value, env)
        if isinstance(s.op, ast.Add) and isinstance(old, Lst) and old.kind == "list":
            self._touch(old)
            seq = self.iterate(rhs, s)
            old.items.extend(seq)
            new = old
        elif isinstance(s.op, ast.BitOr) and isinstance(old, SetV):
            self._touch(old)
            for x in self.iterate(rhs, s):
                old.add(x)
            new = old
        elif isinstance(s.op, ast.BitOr) and isinstance(old, Dct) and isinstance(rhs, Dct):
            self._touch(old)
            for k, x in rhs.pairs:
                old.set(k, x)
            new = old
        else:
            m = self.models.get("__augassign__")
            new = m(self, _BIN[type(s.op)], old, rhs) if m else None
            if new is None:
                new = self.binop(type(s.op), old, rhs, s)
        if isinstance(t, ast.Name):
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(base, t.attr, new, t)
        else:
            self.setitem(base, key, new, t)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env)
                k = self.slice_(t.slice, env)
                if isinstance(b, Dct):
                    self._touch(b)
                    b.delete(k)
                elif isinstance(b, Lst) and isinstance(k, K) and isinstance(k.v, int):
                    self._touch(b)
                    del b.items[k.v]
                else:
                    self.emit("delitem", "del", b, [k], node=s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env)
                self.emit("delattr", t.attr, b, [], node=s)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env), s):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while True:
            before = len(self.choices)
            if not self.truth(self.ev(s.test, env), s):
                self.block(s.orelse, env)
                return
            n += 1
            const = len(self.choices) == before
            if n > (self.maxwhile if not const else 200):
                raise CutPath(f"loop bound at {env.mod.rel}:{s.lineno}")
            # the loop condition may change from one iteration to the next
            self._forget_loop(s)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
            self._forget_loop(s)

    def _forget_loop(self, s):
        cond_terms = set()
        for a in list(self.fd):
            if self._loop_atom(a):
                cond_terms.add(a)
        for a in cond_terms:
            del self.fd[a]

    def _loop_atom(self, a):
        # conditions on the result of a call (queue.empty(), len(x)) are not
        # stable across iterations of a while loop
        return any(isinstance(x, T) and x.op in ("call", "len") for x in walk(a))

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        items = self.iterate(it, s, lazy=True)
        broke = False
        for x in items:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, env)

    def s_FunctionDef(self, s, env):
        f = self.make_fn(s, env)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            v = self.decorate(dv, v, d)
        self.bind(s.name, v, env)

    def decorate(self, dv, v, node):
        name = dv.name if isinstance(dv, Q) else None
        if name:
            short = name.split(".")[-1]
            if isinstance(v, Fn) and short in ("staticmethod", "classmethod", "property", "contextmanager"):
                v.kind = short
                return v
            if short in ("cached_property",) and isinstance(v, Fn):
                v.kind = "property"
                return v
            if not self.module_mode:
                self.emit("decorate", name, None, [v], node=node)
            elif isinstance(v, Fn):
                self.p.decorations.setdefault(name, []).append(v)
            return v
        if isinstance(dv, (Fn, Bound)):
            r = self.call_value(dv, [v], {}, node)
            return r
        if isinstance(dv, T) and isinstance(v, (Fn, Cls)):
            if not self.module_mode:
                self.emit("decorate", show(dv), dv, [v], node=node)
            else:
                self.p.decorations.setdefault(show(dv), []).append(v)
            return v
        return v

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, node, env, qual=None):
        if qual is None:
            outer = self.stack[-1].qual + "." if self.stack and not self.module_mode else ""
            if env.is_class:
                outer = env.vars.get("__clsqual__", "") + "."
            elif env.parent is None and env.locals is None:
                outer = ""
            qual = outer + getattr(node, "name", "<lambda>")
            if not outer:
                qual = env.mod.name.split(".")[-1] + "." + qual if False else qual
        f = Fn(node, env, env.mod, qual)
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = [self.ev(d, env) if d is not None else None for d in a.kw_defaults]
        return f

    def s_ClassDef(self, s, env):
        qual = env.mod.name + "." + s.name
        c = Cls(s, env.mod, qual)
        for b in s.bases:
            c.bases.append(self.ev(b, env))
        for d in s.decorator_list:
            try:
                dv = self.ev(d, env)
            except PyRaise:
                continue
            nm = show(freeze(dv))
            if "dataclass" in nm:
                c.dataclass = True
        for b in c.bases:
            if isinstance(b, Q) and b.name.endswith("NamedTuple"):
                c.dataclass = True
        cenv = Env(env.mod, env)
        cenv.is_class = True
        cenv.vars["__clsqual__"] = s.name
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                has = st.value is not None
                val = self.ev(st.value, cenv) if has else None
                c.fields.append((st.target.id, val, st.value))
                if has:
                    cenv.vars[st.target.id] = val
            else:
                self.stmt(st, cenv)
        cenv.vars.pop("__clsqual__", None)
        c.attrs = cenv.vars
        is_enum = any(isinstance(b, Q) and b.name.split(".")[-1] in ("Enum", "IntEnum", "Flag", "StrEnum") for b in c.bases)
        if is_enum:
            for k, v in list(c.attrs.items()):
                if not isinstance(v, Fn) and not k.startswith("_"):
                    self.p.enum_values[f"{c.qual}.{k}"] = v
                    c.attrs[k] = Q(f"{c.qual}.{k}")
        for k, v in c.attrs.items():
            if isinstance(v, Fn) and v.cls is None:
                v.cls = c
        self.p.classes[qual] = c
        self.bind(s.name, c, env)

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.bind(a.asname, self.p.import_module(a.name, self), env)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.p.import_module(top, self), env)

    def s_ImportFrom(self, s, env):
        base = self.p.resolve_relative(env.mod, s.module, s.level)
        for a in s.names:
            if a.name == "*":
                m = self.p.load_analysed(base, self)
                if m:
                    for k, v in m.globals.items():
                        if not k.startswith("_"):
                            self.bind(k, v, env)
                else:
                    self.p.star.setdefault(env.mod.name, []).append(base)
                continue
            v = self.p.import_from(base, a.name, self)
            self.bind(a.asname or a.name, v, env)

    def s_Assert(self, s, env):
        v = self.ev(s.test, env)
        atom, pol = self.norm(v)
        self.emit("assert", "assert", None, [T("cond", atom if not isinstance(atom, bool) else K(atom), K(pol))], node=s)
        if isinstance(atom, bool):
            if atom != pol:
                self.raise_("AssertionError", node=s)
            return
        if self.assume_asserts:
            known = self.fd.get(atom)
            if known is None and isinstance(atom, T) and atom.op == "isinstance":
                known = self._inst_known(*atom.args)
            if known is None:
                self._assume(atom, pol, s)
                return
            if known != pol:
                self.raise_("AssertionError", node=s)
            return
        if self.decide(atom, s) != pol:
            self.raise_("AssertionError", node=s)

    def s_Raise(self, s, env):
        if s.exc is None:
            if self.tries and getattr(self, "cur_exc", None):
                self.emit("raise", self.cur_exc[-1].name, None, [], node=s)
                raise self.cur_exc[-1]
            self.raise_("RuntimeError", node=s)
        v = self.ev(s.exc, env)
        cause = self.ev(s.cause, env) if s.cause else None
        name = self.exc_name(v)
        self.emit("raise", name, None, [v], {}, None, s)
        raise PyRaise(v, name, s, cause)

    def exc_name(self, v):
        if isinstance(v, Q):
            return v.name
        if isinstance(v, Cls):
            return v.qual
        if isinstance(v, Obj):
            return v.cls.qual
        if isinstance(v, T) and v.op == "call":
            return self.exc_name(v.args[0])
        if isinstance(v, T) and v in self.eqs:
            return self.exc_name(self.eqs[v])
        if isinstance(v, T) and v.op == "exc":
            return v.args[0].v
        return "?"

    def exc_matches(self, name, handler):
        if isinstance(handler, Lst):
            return any(self.exc_matches(name, h) for h in handler.items)
        if isinstance(handler, T) and handler.op == "tuple":
            return any(self.exc_matches(name, h) for h in handler.args)
        h = self.cname(handler)
        if h is None:
            return True
        if name == "?":
            return True
        c = self.p.class_by_qual(name)
        if c is not None:
            if any(x.qual == h for x in c.mro()):
                return True
            return any(isinstance(b, Q) and exc_subclass(b.name, h) for b in c.ext_bases())
        return exc_subclass(name, h)

    def s_Try(self, s, env):
        handlers = []
        for h in s.handlers:
            handlers.append((self.ev(h.type, env) if h.type else Q("builtins.BaseException"), h))
        pend = None
        try:
            try:
                self.tries.append([h for h, _ in handlers])
                try:
                    self.block(s.body, env)
                finally:
                    self.tries.pop()
                self.block(s.orelse, env)
            except PyRaise as e:
                for hv, h in handlers:
                    if self.exc_matches(e.name, hv):
                        if h.name:
                            env.vars[h.name] = e.exc
                        self.emit("except", e.name, None, [], node=h)
                        self.cur_exc = getattr(self, "cur_exc", []) + [e]
                        self.tries.append([])
                        try:
                            self.block(h.body, env)
                        finally:
                            self.tries.pop()
                            self.cur_exc = self.cur_exc[:-1]
                        break
                else:
                    raise
        except (PyRaise, _Return, _Break, _Continue) as e:
            pend = e
        if s.finalbody:
            self.block(s.finalbody, env)
        if pend is not None:
            raise pend

    s_TryStar = s_Try

    def s_With(self, s, env, i=0):
        if i == len(s.items):
            return self.block(s.body, env)
        it = s.items[i]
        v = self.ev_ctx(it.context_expr, env)
        if isinstance(v, tuple) and v[0] == "gen":
            # generator based context manager of the analysed sources
            _, fn, args, kw, node = v
            done = []

            def cb(val):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, env)
                done.append(1)
                saved = self.stack
                cbs = self.yieldcb
                self.yieldcb = self.yieldcb[:-1]
                fr = self.stack.pop()
                try:
                    self.s_With(s, env, i + 1)
                finally:
                    self.stack.append(fr)
                    self.yieldcb = cbs
                return NONE

            self.call_fn(fn, args, kw, node, yieldcb=cb)
            return
        if isinstance(v, Obj) and v.cls.lookup("__enter__"):
            r = self.call_value(Bound(v.cls.lookup("__enter__"), v), [], {}, s)
        else:
            self.emit("enter", "enter", v, [], node=it.context_expr)
            r = v
            if isinstance(v, T) and it.optional_vars is not None:
                r = T("entered", freeze(v))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, r, env)
        self.ctx.append(freeze(v))
        try:
            self.s_With(s, env, i + 1)
        except CutPath:
            raise
        except (PyRaise, _Return, _Break, _Continue):
            self.ctx.pop()
            if isinstance(v, Obj) and v.cls.lookup("__exit__"):
                self.call_value(Bound(v.cls.lookup("__exit__"), v), [NONE, NONE, NONE], {}, s)
            else:
                self.emit("exit", "exit", v, [], node=s)
            raise
        self.ctx.pop()
        if isinstance(v, Obj) and v.cls.lookup("__exit__"):
            self.call_value(Bound(v.cls.lookup("__exit__"), v), [NONE, NONE, NONE], {}, s)
        else:
            self.emit("exit", "exit", v, [], node=s)

    s_AsyncWith = s_With

    def ev_ctx(self, e, env):
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            fn = f.fn if isinstance(f, Bound) else f
            if isinstance(fn, Fn) and fn.kind == "contextmanager" and not self.is_opaque(fn):
                args, kw = self.callargs(e, env)
                if isinstance(f, Bound):
                    args = [f.recv] + args
                return ("gen", fn, args, kw, e)
        return self.ev(e, env)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env), s)):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("eq", v, self.ev(p.value, env), p), p)
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("is", v, K(p.value), p), p)
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchClass):
            if not self.isinstance_(v, self.ev(p.cls, env), p):
                return False
            for k, sub in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.pattern(sub, self.attr(v, k, p), env):
                    return False
            return True
        raise AnalysisError(f"unsupported pattern at {env.mod.rel}:{p.lineno}")

    # ------------------------------------------------------------ names
    def bind(self, name, v, env):
        if name in env.globals_decl:
            self._touch(env.mod.globals)
            env.mod.globals[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or (e.locals and name in e.locals):
                    e.vars[name] = v
                    return
                e = e.parent
        if env.parent is None and env.locals is None:
            # module level
            if isinstance(v, (Lst, Dct, SetV)) and v.name is None and self.module_mode:
                v.name = f"{env.mod.name.split('.')[-1]}.{name}"
        env.vars[name] = v

    def name(self, n, env, node):
        e = env
        first = True
        while e is not None:
            if n in e.globals_decl:
                break
            if n in e.vars and (first or not e.is_class):
                return e.vars[n]
            if e.locals is not None and n in e.locals and n not in e.nonlocals:
                if first or True:
                    self.emit("unbound", n, None, [], node=node)
                    self.raise_("UnboundLocalError", [K(n)], node)
            first = False
            e = e.parent
        g = env.mod.globals
        if n in g:
            return g[n]
        if n in BUILTIN_NAMES:
            if n == "NotImplemented":
                return Q("builtins.NotImplemented")
            if n == "__file__":
                return T("sym", "__file__")
            if n == "__name__":
                return K(env.mod.name)
            return Q("builtins." + n)
        st = self.p.star.get(env.mod.name)
        if st:
            return Q(st[0] + "." + n)
        if self.module_mode:
            raise AnalysisError(f"undefined name {n} at module level of {env.mod.rel}:{node.lineno}")
        # defined later at module level (function bodies run after module init)
        self.emit("undefined", n, None, [], node=node)
        self.raise_("NameError", [K(n)], node)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.slice_(t.slice, env), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def unpack(self, elts, v, env, node):
        v = self.resolve(v)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if isinstance(v, T) and v.op in SEQ:
            v = Lst(list(v.args), v.op)
        if isinstance(v, Lst):
            n = len(v.items)
            if star is None:
                if n != len(elts):
                    self.raise_("ValueError", [K("unpack")], node)
                for e, x in zip(elts, v.items):
                    self.assign(e, x, env)
            else:
                after = len(elts) - star - 1
                if n < len(elts) - 1:
                    self.raise_("ValueError", [K("unpack")], node)
                for e, x in zip(elts[:star], v.items):
                    self.assign(e, x, env)
                self.assign(elts[star].value, Lst(v.items[star : n - after]), env)
                for e, x in zip(elts[star + 1 :], v.items[n - after :] if after else []):
                    self.assign(e, x, env)
            return
        fv = freeze(v)
        if star is None:
            if isinstance(v, T):
                self.emit("unpack", "unpack", v, [K(len(elts))], node=node)
            for i, e in enumerate(elts):
                self.assign(e, self.index(v, K(i), node), env)
        else:
            after = len(elts) - star - 1
            for i in range(star):
                self.assign(elts[i], self.index(v, K(i), node), env)
            hi = K(-after) if after else NONE
            self.assign(elts[star].value, self.index(v, T("slice", K(star), hi, NONE), node), env)
            for j in range(after):
                self.assign(elts[star + 1 + j], self.index(v, K(-(after - j)), node), env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported expression {type(e).__name__} at {env.mod.rel}:{e.lineno}")
        return m(e, env)

    def e_Constant(self, e, env):
        return K(e.value)

    def e_Name(self, e, env):
        return self.resolve(self.name(e.id, env, e))

    def e_Attribute(self, e, env):
        return self.resolve(self.attr(self.ev(e.value, env), e.attr, e))

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        k = self.slice_(e.slice, env)
        return self.resolve(self.index(b, k, e))

    def slice_(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: self.ev(x, env) if x is not None else NONE
            return T("slice", freeze(f(s.lower)), freeze(f(s.upper)), freeze(f(s.step)))
        return self.ev(s, env)

    def e_Tuple(self, e, env):
        return Lst(self.elts(e.elts, env), "tuple")

    def e_List(self, e, env):
        return Lst(self.elts(e.elts, env), "list")

    def e_Set(self, e, env):
        return SetV(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env), x))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, Dct):
                    for a, b in x.pairs:
                        d.set(a, b)
                    if x.rest is not None:
                        d.rest = x.rest
                else:
                    d.rest = freeze(x) if d.rest is None else T("merge", d.rest, freeze(x))
            else:
                kk = self.ev(k, env)
                d.set(kk, self.ev(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.make_fn(e, env)

    def e_IfExp(self, e, env):
        if self.truth(self.ev(e.test, env), e):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        last = None
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            last = self.ev(x, env)
            if i == len(e.values) - 1:
                return last
            t = self.truth(last, x)
            if is_and and not t:
                return FALSE if not isinstance(last, (Lst, Dct, SetV, K)) else last
            if not is_and and t:
                # value context matters (a or b); truth already decided
                return last
        return last

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            atom, pol = self.norm(v)
            if isinstance(atom, bool):
                return K(not (atom if pol else not atom))
            return T("not", atom) if pol else atom
        if isinstance(v, K):
            try:
                return K({ast.USub: _op.neg, ast.UAdd: _op.pos, ast.Invert: _op.invert}[type(e.op)](v.v))
            except Exception:
                pass
        return T({ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)], freeze(v))

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.resolve(self.binop(type(e.op), a, b, e))

    def binop(self, op, a, b, node):
        name = _BIN[op]
        a, b = self.resolve(a), self.resolve(b)
        m = self.models.get("__binop__")
        if m is not None:
            r = m(self, name, a, b)
            if r is not None:
                return r
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(getattr(_op, name)(a.v, b.v))
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", node=node)
            except Exception:
                pass
        if name == "mod" and isinstance(a, K) and isinstance(a.v, str):
            return T("fstr", a, freeze(b))
        if name == "add":
            if isinstance(a, Lst) and isinstance(b, Lst):
                return Lst(a.items + b.items, a.kind)
            if self.is_str(a) or self.is_str(b):
                return mkfstr([freeze(a), freeze(b)])
        if name == "mul" and isinstance(a, Lst) and isinstance(b, K) and isinstance(b.v, int):
            return Lst(a.items * b.v, a.kind)
        if name in ("sub", "or_", "and_") and isinstance(a, SetV) and isinstance(b, SetV):
            if name == "or_":
                return SetV(a.items + b.items)
            if name == "and_":
                return SetV([x for x in a.items if x in b.items])
            return SetV([x for x in a.items if x not in b.items])
        if name == "or_" and isinstance(a, (Q, Cls)) :
            return T("or_", freeze(a), freeze(b))
        if name == "truediv" and isinstance(b, K) and b.v == 0:
            self.raise_("ZeroDivisionError", node=node)
        return T(name, freeze(a), freeze(b))

    def is_str(self, v):
        return (isinstance(v, K) and isinstance(v.v, str)) or (
            isinstance(v, T) and v.op in ("fstr", "str", "repr")
        )

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        if len(e.ops) == 1:
            return self.compare(_CMP[type(e.ops[0])], left, self.ev(e.comparators[0], env), e)
        res = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env)
            res = self.compare(_CMP[type(op)], left, right, e)
            if not self.truth(res, e):
                return FALSE
            left = right
        return TRUE

    def compare(self, op, a, b, node):
        if op in ("in", "notin"):
            r = self.member(a, b, node)
            if op == "notin":
                return K(not r.v) if isinstance(r, K) else T("not", r)
            return r
        m = self.models.get("__compare__")
        if m is not None:
            r = m(self, op, a, b)
            if r is not None:
                return r
        neg = op in ("ne", "isnot")
        o = {"ne": "eq", "isnot": "eq", "is": "eq"}.get(op, op)
        if o == "eq":
            for x, y in ((a, b), (b, a)):
                x = self.resolve(x)
                if isinstance(x, T) and x.op == "obj" and x.args[0] == K("sentinel"):
                    return K((freeze(self.resolve(y)) == x) != neg)
        if o == "eq" and isinstance(a, Obj) and isinstance(b, Obj) and op in ("eq", "ne") and a.cls.lookup("__eq__"):
            r = self.call_value(Bound(a.cls.lookup("__eq__"), a), [b], {}, node)
            t = self.truth(r, node)
            return K(t != neg)
        x, p = self.cmp_norm(o, a, b)
        if isinstance(x, bool):
            v = x if p else not x
            return K(not v if neg else v)
        if x in self.fd:
            v = self.fd[x] == p
            return K(not v if neg else v)
        if neg:
            p = not p
        return x if p else T("not", x)

    def member(self, a, b, node):
        b = self.resolve(b)
        a = self.resolve(a)
        if isinstance(b, T) and b.op in SEQS:
            b = Lst(list(b.args), "tuple")
        if isinstance(b, T) and b.op == "keys":
            b = b.args[0]
        if isinstance(b, (Lst, SetV)) and "__equal__" in self.models:
            for x in b.items:
                if self.truth(self.compare("eq", a, x, node), node):
                    return TRUE
            return FALSE
        if isinstance(b, (Lst, SetV)):
            und = False
            for x in b.items:
                c, p = self.cmp_norm("eq", a, x)
                if isinstance(c, bool):
                    if c == p:
                        return TRUE
                    continue
                und = True
            if not und:
                return FALSE
            if b.name and len(b.items) > 6:
                return self._in_atom(a, b)
            for x in b.items:
                c, p = self.cmp_norm("eq", a, x)
                if isinstance(c, bool):
                    if c == p:
                        return TRUE
                    continue
                if self.decide(c, node) == p:
                    return TRUE
            return FALSE
        if isinstance(b, T) and b.op == "dict" and all(isinstance(x, tuple) and len(x) == 2 for x in b.args):
            b = Dct([tuple(x) for x in b.args])
        if isinstance(b, Dct):
            fk = freeze(a)
            for k, _ in b.pairs:
                if freeze(k) == fk:
                    return TRUE
            if b.rest is None and not b.pairs:
                return FALSE
            if b.rest is None and self.is_const(fk) and all(self.is_const(freeze(k)) for k, _ in b.pairs):
                return FALSE
            if b.rest is None and all(self.definitely_ne(fk, freeze(k)) for k, _ in b.pairs):
                return FALSE
            return self._in_atom(a, b)
        if isinstance(b, K) and isinstance(a, K):
            try:
                return K(a.v in b.v)
            except Exception:
                pass
        return self._in_atom(a, b)

    def definitely_ne(self, a, b):
        c, p = self.cmp_norm("eq", a, b)
        return isinstance(c, bool) and c != p

    def _in_atom(self, a, b):
        m = self.models.get("__contains__")
        if m is not None:
            r = m(self, b, a)
            if r is not None:
                return r
        atom = T("in", freeze(a), freeze(b))
        if atom in self.fd:
            return K(self.fd[atom])
        return atom

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                parts.append(self.formatted(self.ev(v.value, env), v.conversion, v.format_spec is not None, e))
        return mkfstr(parts)

    def formatted(self, x, conversion, spec, e):
        """The text of a value in an f-string or str.format."""
        if isinstance(x, Obj) and x.cls.lookup("__str__"):
            x = self.call_value(Bound(x.cls.lookup("__str__"), x), [], {}, e)
        fx = freeze(x)
        if "__text__" in self.models and not spec:
            r = self.models["__text__"](self, fx, e)
            fx = freeze(r) if r is not None else fx
        if isinstance(fx, T) and conversion != 114 and not spec:
            if (fx, "__str__") in self.attrs:
                fx = self.attrs[(fx, "__str__")]
            elif fx.op == "obj" and fx.args[0] == K("type") and len(fx.args) == 2:
                fx = fx.args[1]
        if isinstance(fx, K) and conversion == -1 and not spec:
            return K(str(fx.v))
        return T("repr", fx) if conversion == 114 else fx

    def str_format(self, text, args, kw, node):
        """str.format with fields that name an argument."""
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            if field == "":
                field, auto = str(auto), auto + 1
            x = args[int(field)] if field.isdigit() and int(field) < len(args) else kw.get(field)
            if x is None:
                return None
            parts.append(self.formatted(x, ord(conv) if conv else -1, bool(spec), node))
        return mkfstr(parts)

    def e_FormattedValue(self, e, env):
        return self.ev(e.value, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        return T("star", freeze(self.ev(e.value, env)))

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value else NONE
        if self.yieldcb and self.yieldcb[-1] is not None:
            return self.yieldcb[-1](v)
        self.emit("yield", "yield", None, [v], node=e)
        return T("sent")

    def e_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        for x in self.iterate(v, e):
            if self.yieldcb and self.yieldcb[-1] is not None:
                self.yieldcb[-1](x)
        return NONE

    # comprehensions -----------------------------------------------------
    def comp(self, gens, env, emit):
        def rec(i, en):
            if i == len(gens):
                emit(en)
                return
            g = gens[i]
            it = self.ev(g.iter, en if i else env)
            for x in self.iterate(it, g.iter, lazy=True):
                self.assign(g.target, x, en)
                if all(self.truth(self.ev(c, en), c) for c in g.ifs):
                    rec(i + 1, en)

        en = Env(env.mod, env)
        en.locals = set()
        rec(0, en)

    def e_ListComp(self, e, env):
        out = Lst([], "list")
        self.comp(e.generators, env, lambda en: out.items.append(self.ev(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        out = SetV()
        self.comp(e.generators, env, lambda en: out.add(self.ev(e.elt, en)))
        return out

    def e_DictComp(self, e, env):
        out = Dct()
        def em(en):
            k = self.ev(e.key, en)
            out.set(k, self.ev(e.value, en))
        self.comp(e.generators, env, em)
        return out

    # ------------------------------------------------------------ iteration
    def count(self, key, n_max=None):
        if key in self.counts:
            return self.counts[key]
        if isinstance(key, T) and key.op == "copy":
            n = self.count(key.args[0])
            self.counts[key] = n
            return n
        tr = self.fd.get(key)
        iv = self.iv.get(T("len", key))
        lo, hi = 0, self.maxit
        if tr is True:
            lo = 1
        if tr is False:
            hi = 0
        if iv:
            if iv[0] > hi and iv[0] < 8:
                hi = int(iv[0])
            lo = max(lo, int(iv[0]) if iv[0] != float("-inf") else lo)
            hi = min(hi, int(iv[1]) if iv[1] != float("inf") else hi)
        if hi < lo:
            hi = lo
        n = lo + self.choose(hi - lo + 1)
        self.counts[key] = n
        self.path.facts.append((T("count", key), n, None))
        if tr is None:
            self.fd[key] = n > 0
        return n

    def iterate(self, v, node, lazy=False):
        v = self.resolve(v)
        if isinstance(v, Lst) and v.kind == "iter":
            self._touch(v)
            if lazy:
                return self._drain(v)
            xs, v.items = list(v.items), []
            return xs
        if isinstance(v, (Lst, SetV)):
            return list(v.items) if not lazy else self._live(v)
        if isinstance(v, Dct):
            if v.rest is not None:
                n = self.count(v.rest)
                return [k for k, _ in v.pairs] + [T("index", T("keys", v.rest), K(i)) for i in range(n)]
            return [k for k, _ in v.pairs]
        if isinstance(v, K):
            if isinstance(v.v, (str, tuple, list, bytes, range, frozenset)):
                return [x if isinstance(x, V) else K(x) for x in v.v]
            self.raise_("TypeError", [v], node)
        if isinstance(v, Obj):
            it = v.cls.lookup("__iter__")
            if it is not None:
                return self.iterate(self.call_value(Bound(it, v), [], {}, node), node)
            if v.cls.dataclass:
                return [v.attrs[f[0]] for f in v.cls.fields]
        if isinstance(v, Cls):
            # iterating an enum
            return [x for x in v.attrs.values() if isinstance(x, Q) and x.name.startswith(v.qual + ".")]
        if isinstance(v, T):
            op, a = v.op, v.args
            if op in SEQS:
                return list(a)
            if self.types.get(v) in ("torch_mlir.ir.Operation", "torch_mlir.ir.Value", "torch_mlir.ir.Type"):
                self.raise_("TypeError", [v], node)
            if op == "dict":
                return [k for k, _ in a]
            if op == "enumerate":
                start = a[1].v if len(a) > 1 and isinstance(a[1], K) else 0
                return [Lst([K(i + start), x], "tuple") for i, x in enumerate(self.iterate(a[0], node))]
            if op == "zip":
                if isinstance(a[0], tuple):
                    a = a[0]
                closed = [x for x in a if self._closed(x)]
                if closed:
                    n = min(len(self.iterate(x, node)) for x in closed)
                    for x in a:
                        if not self._closed(x) and isinstance(x, T) and self._ckey(x) in self.counts:
                            n = min(n, self.counts[self._ckey(x)])
                else:
                    ns = [self.counts[self._ckey(x)] for x in a if self._ckey(x) in self.counts]
                    n = min(ns) if ns else self.count(self._ckey(a[0]))
                    for x in a:
                        self.counts.setdefault(self._ckey(x), n)
                rows = []
                for i in range(n):
                    rows.append(Lst([self._nth(x, i, node) for x in a], "tuple"))
                return rows
            if op == "range":
                lo, hi, st = a
                if all(isinstance(x, K) for x in a):
                    return [K(i) for i in range(lo.v, hi.v, st.v)]
                if isinstance(lo, K) and lo.v == 0 and isinstance(hi, T) and hi.op == "len":
                    return [K(i) for i in range(self.count(hi.args[0]))]
                n = self.count(T("rangelen", *a))
                if isinstance(lo, K) and isinstance(st, K):
                    return [K(lo.v + i * st.v) for i in range(n)]
                return [self._nth(v, i, node) for i in range(n)]
            if op == "items":
                n = self.count(a[0])
                ks = [self._key(a[0], i) for i in range(n)]
                return [Lst([k, self.index(a[0], k, node)], "tuple") for k in ks]
            if op == "keys":
                return [self._key(a[0], i) for i in range(self.count(a[0]))]
            if op == "values":
                return [self.index(a[0], self._key(a[0], i), node) for i in range(self.count(a[0]))]
            if op == "reversed":
                n = self.count(a[0])
                return [self.index(a[0], K(n - 1 - i), node) for i in range(n)]
            if op == "chain":
                out = []
                for x in a:
                    out.extend(self.iterate(x, node))
                return out
            n = self.count(self._ckey(v))
            if self.type_of(v) == "builtins.dict":
                return [self._key(v, i) for i in range(n)]
            return [self.index(v, K(i), node) for i in range(n)]
        if isinstance(v, Q):
            n = self.count(T("iterq", v))
            return [T("index", v, K(i)) for i in range(n)]
        raise AnalysisError(f"cannot iterate {v!r}")

    def _key(self, d, i):
        return T("index", T("keys", d), K(i))

    def _ckey(self, x):
        x = freeze(x)
        while isinstance(x, T) and x.op == "copy":
            x = x.args[0]
        if isinstance(x, T) and x.op in ("keys", "values", "items", "enumerate"):
            return x.args[0]
        if isinstance(x, Dct):
            return freeze(x)
        return x

    def _closed(self, x):
        return (isinstance(x, (Lst, SetV, Dct)) or isinstance(x, T) and x.op in SEQSD
                or isinstance(x, K) or isinstance(x, T) and x.op == "range" and all(isinstance(i, K) for i in x.args))

    def _nth(self, x, i, node):
        if self._closed(x):
            return self.iterate(x, node)[i]
        if isinstance(x, T) and x.op == "values":
            return self.index(x.args[0], self._key(x.args[0], i), node)
        if isinstance(x, T) and x.op == "keys":
            return self._key(x.args[0], i)
        if isinstance(x, T) and x.op == "items":
            k = self._key(x.args[0], i)
            return Lst([k, self.index(x.args[0], k, node)], "tuple")
        if isinstance(x, T) and x.op == "range":
            if isinstance(x.args[0], K) and isinstance(x.args[2], K):
                return K(x.args[0].v + i * x.args[2].v)
            step = K(i) if x.args[2] == K(1) else T("mul", K(i), x.args[2])
            return T("add", x.args[0], step) if i else x.args[0]
        return self.index(x, K(i), node)

    def _live(self, lst):
        i = 0
        while i < len(lst.items):
            yield lst.items[i]
            i += 1
            if i > 3000:
                raise CutPath("growing list")

    # ------------------------------------------------------------ heap access
    def attr(self, b, name, node):
        b = self.resolve(b)
        if isinstance(b, Obj):
            if name in b.attrs:
                return b.attrs[name]
            m = b.cls.lookup(name) if b.cls else None
            if m is not None:
                if isinstance(m, Fn):
                    if m.kind == "property":
                        return self.call_value(Bound(m, b), [], {}, node)
                    if m.kind == "staticmethod":
                        return m
                    if m.kind == "classmethod":
                        return Bound(m, b.cls)
                    return Bound(m, b)
                return m
            if name == "__class__":
                return b.cls
            if name == "__dict__":
                d = Dct()
                for k, v in b.attrs.items():
                    d.set(K(k), v)
                return d
            if b.cls and b.cls.lookup("__getattr__") and not name.startswith("__"):
                return self.call_value(Bound(b.cls.lookup("__getattr__"), b), [K(name)], {}, node)
            if b.cls and b.cls.ext_bases():
                return T("attr", b, name)
            if b.tag == "sym":
                v = T("attr", b, name)
                return self.attrs.get((b, name), v)
            self.emit("noattr", name, b, [], node=node)
            self.raise_("AttributeError", [K(name)], node)
        if isinstance(b, Cls):
            m = b.lookup(name)
            if m is not None:
                if isinstance(m, Fn) and m.kind == "classmethod":
                    return Bound(m, b)
                return m
            if name == "__name__":
                return K(b.qual.split(".")[-1])
            if name == "__members__":
                d = Dct()
                for k, x in b.attrs.items():
                    if isinstance(x, Q) and x.name == f"{b.qual}.{k}":
                        d.set(K(k), x)
                return d
            return T("attr", b, name)
        if isinstance(b, ModV):
            if name in b.mod.globals:
                return b.mod.globals[name]
            return self.p.import_from(b.mod.name, name, self)
        if isinstance(b, Q):
            fv = self.heap.get((b, name))
            if fv is not None:
                return fv
            key = (b, name)
            if key in self.attrs:
                return self.present(self.attrs[key], name, node)
            if b.name == "torch" and name == "__version__":
                return K(self.p.torch_version)
            if b.name in self.p.enum_values:
                if name == "value":
                    return self.p.enum_values[b.name]
                if name == "name":
                    return K(b.name.split(".")[-1])
            full = self.p.analysed_attr(b.name, name, self)
            if full is not None:
                return full
            return self.p.constants.get(b.name + "." + name) or Q(b.name + "." + name)
        if isinstance(b, (Lst, Dct, SetV)):
            return Builtin(name, b)
        if isinstance(b, K):
            if not hasattr(b.v, name):
                self.emit("noattr", name, b, [], node=node)
                self.raise_("AttributeError", [K(name)], node)
            return Builtin(name, b)
        if isinstance(b, (Fn, Bound)):
            f = b if isinstance(b, Fn) else b.fn
            if name in ("__name__", "__qualname__"):
                n = f.node.name if hasattr(f.node, "name") else "<lambda>"
                return K(n)
            fv = self.heap.get((f.qual, name))
            if fv is not None:
                return fv
            return T("attr", freeze(b), name)
        fb = freeze(b)
        if (fb, name) in self.heap:
            return self.heap[(fb, name)]
        if (fb, name) in self.attrs:
            return self.present(self.attrs[(fb, name)], name, node)
        if isinstance(fb, T) and fb.op in SEQ:
            return Builtin(name, Lst(list(fb.args), fb.op))
        if isinstance(fb, T) and fb.op in ("fstr", "str", "repr"):
            return Builtin(name, fb)
        m = self.models.get("__getattr__")
        v = m(self, fb, name, node) if m is not None else None
        return v if v is not None else T("attr", fb, name)

    def _slots(self, c):
        """The attributes that instances of a class can hold."""

        class Any:
            def __contains__(self, x):
                return True

        if c is None or any(not (isinstance(b, Builtin) and b.name == "object" or isinstance(b, Q) and b.name in ("object", "builtins.object", "typing.Generic")) for b in c.ext_bases()):
            return Any()
        out = set()
        for k in c.mro():
            sl = k.attrs.get("__slots__")
            if not isinstance(sl, Lst) or not all(isinstance(x, K) for x in sl.items):
                return Any()
            out |= {x.v for x in sl.items}
        return out | {n for k in c.mro() for n in k.attrs} if out else Any()

    def setattr_(self, b, name, v, node):
        b = self.resolve(b)
        if isinstance(b, Obj):
            if name not in self._slots(b.cls):
                self.raise_("AttributeError", [K(name)], node)
            self._touch(b)
            b.attrs[name] = v
            self.emit("setattr", name, b, [v], node=node)
            return
        if isinstance(b, Cls):
            self._touch(b)
            b.attrs[name] = v
        elif isinstance(b, (Fn, Bound)):
            f = b if isinstance(b, Fn) else b.fn
            self.heap[(f.qual, name)] = v
        else:
            self.heap[(freeze(b), name)] = v
            if isinstance(b, T):
                # facts about the old value no longer hold
                self.eqs.pop(T("attr", freeze(b), name), None)
        self.emit("setattr", name, b, [v], node=node)

    def index(self, b, k, node):
        b, k = self.resolve(b), self.resolve(k)
        m = self.models.get("__index__")
        if m is not None:
            r = m(self, b, k, node)
            if r is not None:
                return r
        fk = freeze(k)
        if isinstance(b, T) and b.op in SEQ:
            b = Lst(list(b.args), b.op)
        if isinstance(b, Lst):
            if isinstance(k, K) and isinstance(k.v, int):
                try:
                    return b.items[k.v]
                except IndexError:
                    self.raise_("IndexError", [k], node)
            if isinstance(k, T) and k.op == "slice":
                a = [x.v if isinstance(x, K) else "?" for x in k.args]
                if "?" not in a:
                    return Lst(b.items[slice(*a)], b.kind)
                return T("index", freeze(b), fk)
            return T("index", freeze(b), fk)
        if isinstance(b, Dct):
            v = b.get(k)
            if v is not None:
                return v
            if b.default is not None and self.is_const(fk):
                nv = self.call_value(b.default, [], {}, node) if not isinstance(b.default, T) else b.default
                self._touch(b)
                b.set(k, nv)
                return nv
            if b.rest is None and not b.pairs:
                self.raise_("KeyError", [k], node)
            if b.rest is None and (
                self.is_const(fk) and all(self.is_const(freeze(x)) for x, _ in b.pairs)
                or all(self.definitely_ne(fk, freeze(x)) for x, _ in b.pairs)
            ):
                self.raise_("KeyError", [k], node)
            if b.default is not None:
                return T("index", freeze(b), fk)
            atom = T("in", fk, freeze(b))
            if self.fd.get(atom) is False:
                self.raise_("KeyError", [k], node)
            if self.catching("builtins.KeyError", "builtins.IndexError", "builtins.LookupError") and not self.module_mode:
                if not self.decide(atom, node):
                    self.raise_("KeyError", [k], node)
            if b.rest is None and len(b.pairs) == 1 and not b.name:
                # reading a non-empty local map with an undecided key
                if self.fd.get(atom) is True:
                    return b.pairs[0][1]
            return T("index", freeze(b), fk)
        if isinstance(b, K):
            try:
                kk = k.v if isinstance(k, K) else None
                if isinstance(k, T) and k.op == "slice":
                    a = [x.v for x in k.args]
                    return K(b.v[slice(*a)])
                if isinstance(k, K):
                    return K(b.v[kk])
            except Exception:
                pass
            return T("index", b, fk)
        if isinstance(b, (Cls, Fn)):
            if isinstance(b, Cls):
                m = b.attrs.get(k.v) if isinstance(k, K) and isinstance(k.v, str) else None
                if m is not None:
                    return m
            return b if isinstance(b, Cls) else T("index", b, fk)
        if isinstance(b, Obj):
            m = b.cls.lookup("__getitem__") if b.cls else None
            if m is not None:
                return self.call_value(Bound(m, b), [k], {}, node)
            if b.cls and b.cls.dataclass and isinstance(k, K) and isinstance(k.v, int):
                return b.attrs[b.cls.fields[k.v][0]]
            return T("index", b, fk)
        if isinstance(b, Q):
            if b.name.startswith("typing.") or b.name in ("builtins.dict", "builtins.list", "builtins.tuple", "builtins.set", "builtins.type"):
                return b
            return T("index", b, fk)
        fb = freeze(b)
        while isinstance(fb, T) and fb.op == "copy":
            if ((fb, "[]"), fk) in self.heap:
                return self.heap[((fb, "[]"), fk)]
            fb = fb.args[0]
        if ((fb, "[]"), fk) in self.heap:
            return self.heap[((fb, "[]"), fk)]
        if (fb, fk) in self.attrs:
            return self.attrs[(fb, fk)]
        if isinstance(fb, T):
            if fb.op == "slice_of":
                pass
            if fb.op == "index" and isinstance(fb.args[1], T) and fb.args[1].op == "slice":
                lo, hi, st = fb.args[1].args
                if isinstance(k, K) and isinstance(k.v, int) and k.v >= 0 and st in (NONE, K(1)):
                    base = 0 if lo == NONE else (lo.v if isinstance(lo, K) else None)
                    if base is not None and base >= 0:
                        return self.index(fb.args[0], K(base + k.v), node)
            if isinstance(fk, T) and fk.op == "slice" and fk.args[0] in (NONE, K(0)) and fk.args[1] == NONE and fk.args[2] in (NONE, K(1)):
                return T("copy", fb)
            if fb.op in ("enumerate", "zip", "items", "values", "keys", "range", "reversed") and isinstance(k, K) and isinstance(k.v, int) and k.v >= 0:
                if fb.op == "reversed":
                    pass
                elif fb.op == "keys":
                    return T("index", fb, fk)
                elif fb.op != "zip":
                    if fb.op == "enumerate":
                        return Lst([K(k.v), self.index(fb.args[0], k, node)], "tuple")
                    return self._nth(fb, k.v, node)
            if self.catching("builtins.KeyError", "builtins.IndexError", "builtins.LookupError") and not (isinstance(fk, T) and fk.op == "slice"):
                atom = T("in", fk, fb)
                if not self.decide(atom, node):
                    exc = "KeyError" if self.catching("builtins.KeyError") else "IndexError"
                    self.raise_(exc, [k], node)
        return T("index", fb, fk)

    def catching(self, *names):
        for hs in self.tries:
            for h in hs:
                xs = h.items if isinstance(h, Lst) else [h]
                for x in xs:
                    if self.cname(x) in names:
                        return True
        return False

    def setitem(self, b, k, v, node):
        b, k = self.resolve(b), self.resolve(k)
        if isinstance(b, Dct):
            self._touch(b)
            b.set(k, v)
            if b.name:
                self.emit("setitem", "setitem", b, [k, v], node=node)
            return
        if isinstance(b, Lst) and isinstance(k, K) and isinstance(k.v, int):
            self._touch(b)
            try:
                b.items[k.v] = v
            except IndexError:
                self.raise_("IndexError", [k], node)
            return
        if isinstance(b, Lst) and isinstance(k, T) and k.op == "slice":
            a = [x.v if isinstance(x, K) else "?" for x in k.args]
            if "?" not in a and isinstance(v, Lst):
                self._touch(b)
                b.items[slice(*a)] = v.items
                return
        if isinstance(b, Obj):
            m = b.cls.lookup("__setitem__")
            if m is not None:
                self.call_value(Bound(m, b), [k, v], {}, node)
                return
        fb = freeze(b)
        self.heap[((fb, "[]"), freeze(k))] = v
        self.fd[T("in", freeze(k), fb)] = True
        self.emit("setitem", "setitem", b, [k, v], node=node)

    # ------------------------------------------------------------ calls
    def callargs(self, e, env):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                x = self.resolve(self.ev(a.value, env))
                if isinstance(x, (Lst, SetV)) or isinstance(x, T) and x.op in SEQ:
                    args.extend(self.iterate(x, a))
                else:
                    args.append(T("star", freeze(x)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                v = self.resolve(v)
                if isinstance(v, Dct) and v.rest is None:
                    for a, b in v.pairs:
                        if isinstance(a, K):
                            kw[a.v] = b
                        else:
                            kw.setdefault("**", Dct()).set(a, b)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def e_Call(self, e, env):
        # super() needs the lexical class
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.super_(env, e)
        f = self.ev(e.func, env)
        args, kw = self.callargs(e, env)
        return self.resolve(self.call_value(f, args, kw, e))

    def super_(self, env, e):
        fr = self.stack[-1] if self.stack else None
        if fr is None or fr.fn is None or fr.fn.cls is None:
            return T("super")
        selfv = fr.selfv
        return SuperV(fr.fn.cls, selfv)

    def is_opaque(self, fn):
        q = fn.qual
        if q in self.opaque:
            return True
        short = q.split(".")[-1]
        if short in self.opaque:
            return True
        if self.inline_modules is not None and fn.mod.name.split(".")[-1] not in self.inline_modules and fn.mod.name not in self.inline_modules:
            return True
        return False

    def call_value(self, f, args, kw, node, name=None):
        f = self.resolve(f)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call_value(f.fn, f.args + args, k2, node)
        if isinstance(f, Bound):
            if self.is_opaque(f.fn):
                return self.opaque_call(f.fn.qual, f.recv, args, kw, node, f)
            m = self._model(f.fn.qual, f.recv, args, kw, node)
            if m is not None:
                return m
            return self.call_fn(f.fn, [f.recv] + args, kw, node)
        if isinstance(f, Fn):
            if self.is_opaque(f):
                return self.opaque_call(f.qual, None, args, kw, node, f)
            m = self._model(f.qual, None, args, kw, node)
            if m is not None:
                return m
            return self.call_fn(f, args, kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Builtin):
            return self.method(f, args, kw, node)
        if isinstance(f, Q):
            if f.name.startswith("builtins."):
                r = self.builtin(f.name[9:], args, kw, node)
                if r is not None:
                    return r
            if f.name == "weakref.ref" and args:
                return T("wref", freeze(args[0]))
            r = self.external(f.name, args, kw, node)
            if r is not None:
                return r
            return self.opaque_call(f.name, None, args, kw, node, f)
        if isinstance(f, SuperV):
            return T("super")
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__") if f.cls else None
            if m is not None:
                return self.call_value(Bound(m, f), args, kw, node)
            return self.opaque_call("()", f, args, kw, node, f)
        if isinstance(f, K):
            self.raise_("TypeError", [K("not callable")], node)
        if isinstance(f, T) and f.op == "attr":
            r = self.term_method(f.args[0], f.args[1], args, kw, node)
            if r is not None:
                return r
            return self.opaque_call("." + f.args[1], f.args[0], args, kw, node, f)
        if isinstance(f, T) and f.op == "wref":
            return NONE if f.args[0] in self.dead else f.args[0]
        return self.opaque_call("()", f, args, kw, node, f)

    def _model(self, qual, recv, args, kw, node):
        for pat, m in self.models.items():
            if qual == pat or qual.endswith("." + pat) or qual.split(".")[-1] == pat:
                return m(self, recv, args, kw, node)
        return None

    def opaque_call(self, name, recv, args, kw, node, callee):
        e = self.emit("call", name, recv, args, kw, None, node, callee)
        # mutation of argument containers by the callee is not modelled
        exc = self.raise_model(e) if self.raise_model else None
        if exc:
            c = self.choose(1 + len(exc))
            if c:
                q = exc[c - 1]
                q = q if "." in q else "builtins." + q
                self.path.facts.append((T("raises", K(e.idx), K(name)), True, e.line))
                e.res = T("raised", Q(q))
                exv = T("exc", K(q), K(e.idx))
                self.emit("raise", q, None, [exv], {}, None, node)
                raise PyRaise(exv, q, node)
        m = self._model(name if not name.startswith(".") else name[1:], recv, args, kw, node) if not name.startswith("(") else None
        if m is None and name.startswith("."):
            m = self._model(name, recv, args, kw, node)
        if m is None:
            fcallee = freeze(callee)
            if isinstance(callee, Bound):
                fcallee = T("attr", freeze(callee.recv), callee.fn.qual.split(".")[-1])
            m = T(
                "call",
                fcallee,
                tuple(freeze(a) for a in args),
                tuple(sorted(((k, freeze(v)) for k, v in kw.items()), key=lambda p: p[0])),
            )
        e.res = m
        return m

    def call_fn(self, fn, args, kw, node, yieldcb=None):
        if len(self.stack) >= self.max_depth:
            raise CutPath("inline depth")
        if sum(1 for f in self.stack if f.fn is not None and f.fn.node is fn.node) >= self.max_rec:
            e = self.opaque_call(fn.qual, None, args, kw, node, fn)
            return e
        a = fn.node.args
        is_lambda = isinstance(fn.node, ast.Lambda)
        loc, glob, nonl, has_yield, _ = assigned(fn.node)
        env = Env(fn.mod, fn.env if not (fn.env.parent is None and fn.env.locals is None) else None, set())
        params = [p.arg for p in a.posonlyargs + a.args]
        env.locals = set(loc) | set(params) | {p.arg for p in a.kwonlyargs}
        if a.vararg:
            env.locals.add(a.vararg.arg)
        if a.kwarg:
            env.locals.add(a.kwarg.arg)
        env.globals_decl = glob
        env.nonlocals = nonl
        # bind
        pos = list(args)
        kw = dict(kw)
        starkw = kw.pop("**", None)
        vals = {}
        i = 0
        extra = []
        star = None
        for x in pos:
            if isinstance(x, T) and x.op == "star":
                star = x.args[0]
                base = i
                need = [p for p in params[i:] if p not in kw]
                if a.vararg and not need:
                    extra.append(x)
                else:
                    for j, p in enumerate(need):
                        vals[p] = self.index(star, K(j), node)
                        i += 1
                    if a.vararg:
                        extra.append(T("star", T("index", star, T("slice", K(len(need)), NONE, NONE))))
                continue
            if i < len(params):
                vals[params[i]] = x
                i += 1
            elif a.vararg:
                extra.append(x)
            else:
                self.raise_("TypeError", [K(f"too many arguments to {fn.qual}")], node)
        kwextra = Dct()
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in vals:
                    self.raise_("TypeError", [K(f"multiple values for {k}")], node)
                vals[k] = v
            elif a.kwarg:
                kwextra.set(K(k), v)
            else:
                self.raise_("TypeError", [K(f"unexpected keyword {k} to {fn.qual}")], node)
        nd = len(fn.defaults)
        for j, p in enumerate(params):
            if p not in vals:
                dj = j - (len(params) - nd)
                if dj >= 0:
                    vals[p] = fn.defaults[dj]
                elif starkw is not None:
                    vals[p] = self.index(starkw, K(p), node)
                else:
                    self.raise_("TypeError", [K(f"missing argument {p} to {fn.qual}")], node)
        for p, d in zip(kwonly, fn.kwdefaults):
            if p not in vals:
                if d is not None:
                    vals[p] = d
                elif starkw is not None:
                    vals[p] = self.index(starkw, K(p), node)
                else:
                    self.raise_("TypeError", [K(f"missing keyword {p} to {fn.qual}")], node)
        env.vars.update(vals)
        if a.vararg:
            if len(extra) == 1 and isinstance(extra[0], T) and extra[0].op == "star":
                env.vars[a.vararg.arg] = extra[0].args[0]
            else:
                env.vars[a.vararg.arg] = Lst(extra, "tuple")
        if a.kwarg:
            if starkw is not None and not kwextra.pairs:
                env.vars[a.kwarg.arg] = starkw
            else:
                if starkw is not None:
                    kwextra.rest = freeze(starkw)
                env.vars[a.kwarg.arg] = kwextra
        fr = Frame(fn, env, vals.get(params[0]) if params else None)
        self.stack.append(fr)
        gen = None
        if has_yield and yieldcb is None:
            gen = Lst([], "list")
            self.yieldcb.append(lambda v: (gen.items.append(v), NONE)[1])
        else:
            self.yieldcb.append(yieldcb)
        saved_tries = self.tries
        self.tries = list(self.tries)
        try:
            if is_lambda:
                return self.ev(fn.node.body, env)
            self.block(fn.node.body, env)
            return gen if gen is not None else NONE
        except _Return as r:
            return gen if gen is not None else r.v
        finally:
            self.tries = saved_tries
            self.yieldcb.pop()
            self.stack.pop()

    def instantiate(self, c, args, kw, node):
        if self.is_opaque_cls(c):
            return self.opaque_call(c.qual, None, args, kw, node, c)
        m = self._model(c.qual, None, args, kw, node)
        if m is not None:
            return m
        if any(isinstance(b, Q) and b.name.split(".")[-1] in ("Enum", "IntEnum") for b in c.bases):
            if len(args) == 1:
                for k, q in c.attrs.items():
                    if isinstance(q, Q) and q.name in self.p.enum_values and veq(self.p.enum_values[q.name], args[0]):
                        return q
            return T("call", c, tuple(freeze(a) for a in args), ())
        self.objid += 1
        o = Obj(c, self.objid)
        self.emit("new", c.qual, o, args, kw, o, node, c)
        init = c.lookup("__init__")
        exc_like = any(isinstance(b, Q) and exc_subclass(b.name, "builtins.BaseException") for b in c.ext_bases())
        if init is not None:
            self.call_fn(init, [o] + args, kw, node)
        elif c.dataclass or any(x.dataclass for x in c.mro()):
            fields = []
            for x in reversed(c.mro()):
                for f in x.fields:
                    fields = [g for g in fields if g[0] != f[0]] + [f]
            if len(args) > len(fields):
                self.raise_("TypeError", [K(f"too many arguments to {c.qual}")], node)
            for (n, d, dn), v in zip(fields, args):
                o.attrs[n] = v
            for k, v in kw.items():
                if k == "**":
                    for (n, d, dn) in fields:
                        if n not in o.attrs:
                            o.attrs[n] = self.index(v, K(n), node)
                    continue
                if k not in [f[0] for f in fields]:
                    self.raise_("TypeError", [K(f"unexpected keyword {k} to {c.qual}")], node)
                o.attrs[k] = v
            for n, d, dn in fields:
                if n not in o.attrs:
                    if d is None:
                        self.raise_("TypeError", [K(f"missing field {n} of {c.qual}")], node)
                    o.attrs[n] = self.field_default(d)
            pi = c.lookup("__post_init__")
            if pi is not None:
                self.call_fn(pi, [o], {}, node)
        elif exc_like:
            o.attrs["args"] = Lst(args, "tuple")
        return o

    def field_default(self, d):
        if isinstance(d, T) and d.op == "call" and isinstance(d.args[0], Q) and d.args[0].name.endswith("field"):
            for k, v in d.args[2]:
                if k == "default":
                    return v
                if k == "default_factory":
                    if v == Q("builtins.list"):
                        return Lst([])
                    if v == Q("builtins.dict"):
                        return Dct()
                    if isinstance(v, Fn):
                        return self.call_fn(v, [], {}, None)
                    return T("call", v, (), ())
        return d

    def is_opaque_cls(self, c):
        if c.qual in self.opaque or c.qual.split(".")[-1] in self.opaque:
            return True
        if self.inline_modules is not None and c.mod.name.split(".")[-1] not in self.inline_modules and c.mod.name not in self.inline_modules:
            return True
        return False

    # ------------------------------------------------------------ builtins
    def builtin(self, n, args, kw, node):
        a = [self.resolve(x) for x in args]
        m = self.models.get("__builtin__")
        if m is not None:
            r = m(self, n, a, kw, node)
            if r is not None:
                return r
        if any(isinstance(x, T) and x.op == "star" for x in a) and n not in ("print",):
            return T("call", Q("builtins." + n), tuple(freeze(x) for x in a), ())
        if n == "isinstance":
            return K(self.isinstance_(a[0], a[1], node)) if self._want_now(a) else T("isinstance", freeze(a[0]), freeze(a[1]))
        if n == "issubclass":
            x, y = self.cname(a[0]), a[1]
            if isinstance(y, Lst):
                for c in y.items:
                    if x and self.cname(c) and self.subclass(x, self.cname(c)):
                        return TRUE
                if x:
                    return FALSE
            if x and self.cname(y):
                return K(self.subclass(x, self.cname(y)))
            return T("issubclass", freeze(a[0]), freeze(y))
        if n == "len":
            x = a[0]
            if isinstance(x, (Lst, SetV)):
                return K(len(x.items))
            if isinstance(x, Dct) and x.rest is None:
                return K(len(x.pairs))
            if isinstance(x, K):
                try:
                    return K(len(x.v))
                except Exception:
                    self.raise_("TypeError", a, node)
            fx = freeze(x)
            if isinstance(fx, T) and fx.op in SEQSD:
                return K(len(fx.args))
            while isinstance(fx, T) and fx.op in ("copy",):
                fx = fx.args[0]
            if isinstance(fx, T) and fx.op in ("keys", "values", "items", "sorted", "reversed"):
                fx = fx.args[0]
            return self.resolve(T("len", fx))
        if n in SEQ:
            if not a:
                return Lst([], n)
            x = a[0]
            if isinstance(x, (Lst, SetV, Dct)) and not (isinstance(x, Dct) and x.rest is not None):
                return Lst(self.iterate(x, node), n)
            if isinstance(x, T) and x.op in ("list", "tuple", "ilist", "set", "enumerate", "zip", "items", "values", "keys", "range", "reversed"):
                return Lst(self.iterate(x, node), n)
            if isinstance(x, K):
                return Lst(self.iterate(x, node), n)
            return T("copy", freeze(x))
        if n == "set" or n == "frozenset":
            if not a:
                return SetV()
            if isinstance(a[0], (Lst, SetV, Dct)) or isinstance(a[0], T) and a[0].op in SEQS:
                return SetV(self.iterate(a[0], node))
            if isinstance(a[0], T) and a[0].op in ("values", "keys", "items"):
                src = a[0].args[0]
                if isinstance(src, Dct):
                    return SetV(self.iterate(a[0], node))
            return T("setof", freeze(a[0]))
        if n == "dict":
            d = Dct()
            if a:
                x = a[0]
                if isinstance(x, Dct):
                    d.rest = x.rest
                    for k, v in x.pairs:
                        d.set(k, v)
                elif isinstance(x, Lst) or isinstance(x, T) and x.op in ("zip", "list", "items", "enumerate"):
                    for row in self.iterate(x, node):
                        kk = self.index(row, K(0), node)
                        d.set(kk, self.index(row, K(1), node))
                elif not kw:
                    return T("copy", freeze(x))
                else:
                    d.rest = freeze(x)
            for k, v in kw.items():
                if k == "**":
                    d.rest = freeze(v)
                else:
                    d.set(K(k), v)
            return d
        if n in ("enumerate", "zip", "reversed", "sorted", "map", "filter", "iter"):
            return self.iterfn(n, a, kw, node)
        if n == "range":
            lo, hi, st = K(0), None, K(1)
            if len(a) == 1:
                hi = a[0]
            else:
                lo, hi = a[0], a[1]
                if len(a) > 2:
                    st = a[2]
            return T("range", freeze(lo), freeze(hi), freeze(st))
        if n in ("any", "all"):
            x = a[0]
            if isinstance(x, (Lst, SetV)) or isinstance(x, T) and x.op in SEQ:
                for y in self.iterate(x, node):
                    t = self.truth(y, node)
                    if n == "any" and t:
                        return TRUE
                    if n == "all" and not t:
                        return FALSE
                return K(n == "all")
            return T(n, freeze(x))
        if n in ("str", "repr"):
            if not a:
                return K("")
            x = a[0]
            if isinstance(x, K) and not (n == "repr" and False):
                try:
                    return K(str(x.v) if n == "str" else repr(x.v))
                except Exception:
                    pass
            if n == "str" and self.is_str(x):
                return x
            fx0 = freeze(x)
            if "__text__" in self.models:
                r = self.models["__text__"](self, fx0, node)
                if r is not None:
                    return r
            c = const_py(fx0)
            if c is not None:
                return K(str(c[0]) if n == "str" else repr(c[0]))
            if (fx0, "__str__") in self.attrs:
                return self.attrs[(fx0, "__str__")]
            if isinstance(fx0, T) and fx0.op == "obj" and fx0.args[0] == K("type") and n == "str":
                return fx0.args[1]
            if isinstance(x, Obj) and x.cls.lookup("__str__" if n == "str" else "__repr__"):
                return self.call_value(Bound(x.cls.lookup("__str__" if n == "str" else "__repr__"), x), [], {}, node)
            return T(n, freeze(x))
        if n in ("int", "float", "bool", "abs", "round", "ord", "chr", "hash", "min", "max", "sum", "divmod", "pow", "bytes", "hex", "bin", "complex"):
            if n == "bool" and len(a) == 1:
                atom, pol = self.norm(a[0])
                if isinstance(atom, bool):
                    return K(atom if pol else not atom)
                return atom if pol else T("not", atom)
            if a and all(isinstance(x, K) for x in a) and not kw:
                try:
                    return K(getattr(_py, n)(*[x.v for x in a]))
                except ValueError:
                    self.raise_("ValueError", a, node)
                except Exception:
                    pass
            if n in ("min", "max") and a and set(kw) <= {"default", "key"}:
                xs = a[0].items if len(a) == 1 and isinstance(a[0], (Lst, SetV)) else a if len(a) > 1 else None
                if xs is not None:
                    xs = [self.resolve(x) for x in xs]
                    if not xs:
                        if "default" in kw:
                            return kw["default"]
                        self.raise_("ValueError", a, node)
                    key = self.resolve(kw["key"]) if "key" in kw else NONE
                    ks = [self.resolve(self.call_value(key, [x], {}, node)) for x in xs] if key != NONE else xs
                    if all(isinstance(k, K) for k in ks):
                        try:
                            best = getattr(_py, n)(range(len(ks)), key=lambda i: ks[i].v)
                            return xs[best]
                        except TypeError:
                            self.raise_("TypeError", a, node)
            if n in ("min", "max", "sum") and len(a) >= 1 and isinstance(a[0], Lst) and all(isinstance(x, K) for x in a[0].items) and not kw:
                try:
                    return K(getattr(_py, n)([x.v for x in a[0].items], *[x.v for x in a[1:]]))
                except ValueError:
                    self.raise_("ValueError", a, node)
                except Exception:
                    pass
            if n in ("min", "max") and "default" in kw and isinstance(a[0], Lst) and not a[0].items:
                return kw["default"]
            if not a and n in ("int", "float"):
                return K(getattr(_py, n)())
            if len(a) == 1 and (freeze(a[0]), f"__{n}__") in self.attrs:
                return self.attrs[(freeze(a[0]), f"__{n}__")]
            return T(n, *[freeze(x) for x in a], *[T("kw", K(k), freeze(v)) for k, v in sorted(kw.items())])
        if n == "type":
            if len(a) == 1:
                t = self.type_of(a[0])
                if t is not None:
                    c = self.p.class_by_qual(t)
                    return c if c is not None else Q(t)
                return T("type", freeze(a[0]))
            return None
        if n == "id":
            x = freeze(a[0])
            return self.ids.get(x) or T("id", x)
        if n == "hasattr":
            return self.hasattr_(a[0], a[1], node)
        if n == "getattr":
            if isinstance(a[1], K):
                if len(a) > 2:
                    h = self.hasattr_(a[0], a[1], node)
                    if self.truth(h, node):
                        return self.attr(a[0], a[1].v, node)
                    return a[2]
                return self.attr(a[0], a[1].v, node)
            return T("getattr", freeze(a[0]), freeze(a[1]), *[freeze(x) for x in a[2:]])
        if n == "setattr":
            if isinstance(a[1], K):
                self.setattr_(a[0], a[1].v, a[2], node)
                return NONE
            self.emit("setattr", "?", a[0], [a[1], a[2]], node=node)
            return NONE
        if n == "callable":
            if isinstance(a[0], (Fn, Bound, Cls, Builtin)):
                return TRUE
            if isinstance(a[0], (K, Lst, Dct)):
                return FALSE
            return T("callable", freeze(a[0]))
        if n == "next":
            x = a[0]
            if isinstance(x, Lst) and x.kind == "iter":
                self._touch(x)
                if x.items:
                    r, x.items = x.items[0], x.items[1:]
                    return r
                if len(a) > 1:
                    return a[1]
                self.raise_("StopIteration", node=node)
            if isinstance(x, (Lst, SetV)) or isinstance(x, T) and x.op in SEQ:
                xs = self.iterate(x, node)
                if xs:
                    return xs[0]
                if len(a) > 1:
                    return a[1]
                self.raise_("StopIteration", node=node)
            return T("next", *[freeze(x) for x in a])
        if n == "print":
            self.emit("call", "builtins.print", None, args, kw, NONE, node, Q("builtins.print"))
            return NONE
        if n == "super":
            return T("super")
        if n in ("object",):
            self.objid += 1
            return T("obj", K("sentinel"), K(f"module {node.lineno}" if self.module_mode and node is not None else self.objid))
        if n == "slice":
            xs = [freeze(x) for x in a]
            if len(xs) == 1:
                xs = [NONE, xs[0], NONE]
            while len(xs) < 3:
                xs.append(NONE)
            return T("slice", *xs)
        if n == "vars" or n == "globals" or n == "locals":
            return T(n, *[freeze(x) for x in a])
        return None

    def _want_now(self, a):
        return True

    def present(self, v, name, node):
        if v == ABSENT:
            self.raise_("AttributeError", [K(name)], node)
        return v

    def hasattr_(self, o, k, node):
        o = self.resolve(o)
        if isinstance(k, K):
            if isinstance(o, Obj):
                if k.v in o.attrs or o.cls.lookup(k.v) is not None:
                    return TRUE
                if o.cls.ext_bases() or o.tag == "sym":
                    return T("hasattr", freeze(o), k)
                return FALSE
            if isinstance(o, Cls):
                if o.lookup(k.v) is not None:
                    return TRUE
            if isinstance(o, ModV):
                return K(k.v in o.mod.globals)
            fo = freeze(o)
            if (fo, "__closed__") in self.attrs and (fo, k.v) not in self.heap and (fo, k.v) not in self.attrs:
                return FALSE
            if (fo, k.v) in self.heap or (fo, k.v) in self.attrs:
                return K((fo, k.v) in self.heap or self.attrs[(fo, k.v)] != ABSENT)
            if isinstance(o, (K, Lst, Dct, SetV)):
                base = o.v if isinstance(o, K) else {Lst: [], Dct: {}, SetV: set()}[type(o)]
                return K(hasattr(base, k.v))
        return T("hasattr", freeze(o), freeze(k))

    def sorted_(self, its, kw, node):
        """`its` in sorted order, or None when the keys are not known."""
        key, rev = kw.get("key", NONE), kw.get("reverse", FALSE)
        if len(its) <= 1:
            return list(its)
        if not isinstance(rev, K):
            return None
        keys = list(its) if key == NONE else [self.call_value(key, [x], {}, node) for x in its]

        def plain(k):
            k = self.resolve(k)
            if isinstance(k, K):
                return k.v
            if isinstance(k, Lst):
                return tuple(plain(x) for x in k.items)
            raise TypeError

        try:
            ks = [plain(k) for k in keys]
            return [its[i] for i in sorted(range(len(its)), key=lambda i: ks[i], reverse=bool(rev.v))]
        except TypeError:
            return None

    def iterfn(self, n, a, kw, node):
        def keep(x):
            return x

        if n == "iter":
            if isinstance(a[0], Lst) and a[0].kind == "iter":
                return a[0]
            x = Lst([], "iter")
            self.touched[id(x)] = (x, [])
            x.items = self.iterate(a[0], node)
            return x
        if n == "enumerate":
            start = a[1] if len(a) > 1 else kw.get("start", K(0))
            if isinstance(a[0], (Lst, SetV, Dct)) and isinstance(start, K):
                return Lst([Lst([K(i + start.v), x], "tuple") for i, x in enumerate(self.iterate(a[0], node))])
            return T("enumerate", freeze(a[0]), freeze(start))
        if n == "zip":
            if all(isinstance(x, (Lst, SetV, Dct)) for x in a):
                its = [self.iterate(x, node) for x in a]
                return Lst([Lst(list(r), "tuple") for r in zip(*its)])
            if any(isinstance(x, (Lst, SetV, Dct)) for x in a):
                return Lst(self.iterate(T("zip", tuple(a)), node))
            return T("zip", *[freeze(x) for x in a])
        if n == "reversed":
            if isinstance(a[0], Lst):
                return Lst(list(reversed(a[0].items)))
            return T("reversed", freeze(a[0]))
        if n == "sorted":
            x = a[0]
            if isinstance(x, (Lst, SetV, Dct)) or isinstance(x, T) and x.op == "range" and all(isinstance(i, K) for i in x.args):
                its = self.iterate(x, node)
                r = self.sorted_(its, kw, node)
                if r is not None:
                    return Lst(r)
                return T("sorted", T("list", *[freeze(i) for i in its]), *[T("kw", K(k), freeze(v)) for k, v in sorted(kw.items())])
            return T("sorted", freeze(x), *[T("kw", K(k), freeze(v)) for k, v in sorted(kw.items())])
        if n == "map":
            its = [self.iterate(x, node) for x in a[1:]]
            return Lst([self.call_value(a[0], list(r), {}, node) for r in zip(*its)])
        if n == "filter":
            out = []
            for x in self.iterate(a[1], node):
                c = x if a[0] == NONE else self.call_value(a[0], [x], {}, node)
                if self.truth(c, node):
                    out.append(x)
            return Lst(out)

    def external(self, name, args, kw, node):
        """Models of a few library functions with a pure meaning."""
        if name in ("functools.partial",):
            return Partial(args[0], list(args[1:]), kw)
        if name in ("itertools.chain", "itertools.chain.from_iterable"):
            if name.endswith("from_iterable"):
                args = self.iterate(args[0], node) if args else []
            xs = [self.resolve(a) for a in args]
            if all(self._closed(x) for x in xs):
                return Lst([y for x in xs for y in self.iterate(x, node)], "iter")
            return T("chain", *[freeze(a) for a in args])
        if name in ("collections.defaultdict",):
            d = Dct()
            d.default = args[0] if args else None
            return d
        if name in ("collections.OrderedDict",):
            return self.builtin("dict", args, kw, node)
        if name.startswith("operator.") and len(args) == 2 and name[9:] in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.compare(name[9:], args[0], args[1], node)
        if name in ("math.prod",) and isinstance(args[0], Lst) and all(isinstance(x, K) for x in args[0].items):
            import math

            return K(math.prod(x.v for x in args[0].items))
        if name in ("typing.cast",):
            return args[1]
        if name.startswith("re.") and name[3:] in ("search", "match", "fullmatch", "findall", "split", "sub") and not kw:
            return self.regex(name[3:], args)
        if name == "re.compile" and len(args) == 1 and isinstance(args[0], K):
            return T("regex", args[0])
        if name in ("copy.copy", "copy.deepcopy"):
            x = args[0]
            if isinstance(x, Lst):
                return Lst(x.items, x.kind)
            if isinstance(x, Dct):
                d = Dct(x.pairs)
                d.rest = x.rest
                return d
            return None
        return None

    def regex(self, how, args):
        """Regular expressions on constants."""
        a = [self.resolve(x) for x in args]
        if len(a) < 2 or not all(isinstance(x, K) for x in a):
            return None
        import re

        r = getattr(re, how)(*[x.v for x in a])
        if how in ("findall", "split"):
            return Lst([K(x) if isinstance(x, str) else Lst([K(y) for y in x], "tuple") for x in r])
        if how == "sub":
            return K(r)
        if r is None:
            return NONE
        m = T("obj", K("match"), K(how), *a)
        self.types[m] = "re.Match"
        for g, v in [(0, r.group(0))] + list(enumerate(r.groups(), 1)) + list(r.groupdict().items()):
            self.attrs[(m, "group", g)] = K(v)
        self.attrs[(m, "groups()")] = Lst([K(x) for x in r.groups()], "tuple")
        return m

    def term_method(self, recv, name, args, kw, node):
        if isinstance(recv, T) and recv.op == "regex" and name in ("search", "match", "fullmatch", "findall", "split", "sub") and not kw:
            return self.regex(name, [recv.args[0]] + list(args))
        if name == "group" and (recv, "group", 0) in self.attrs:
            ks = [self.resolve(x) for x in args] or [K(0)]
            vs = [self.attrs.get((recv, "group", k.v)) if isinstance(k, K) else None for k in ks]
            if None not in vs:
                return vs[0] if len(vs) == 1 else Lst(vs, "tuple")
        if (recv, name + "()") in self.attrs:
            return self.attrs[(recv, name + "()")]
        if name in ("items", "values", "keys") and not args:
            return T(name, recv)
        if name == "get" and 1 <= len(args) <= 2 and not kw:
            # mapping lookup with a default; the key is present or not
            k = freeze(self.resolve(args[0]))
            if ((recv, "[]"), k) in self.heap:
                return self.heap[((recv, "[]"), k)]
            if (recv, k) in self.attrs:
                return self.attrs[(recv, k)]
            return T("get", recv, k, *[freeze(x) for x in args[1:]])
        if name == "copy" and not args:
            return T("copy", recv)
        return None

    def method(self, f, args, kw, node):
        r, n = f.recv, f.name
        a = [self.resolve(x) for x in args]
        if n == "isdisjoint" and isinstance(r, (Lst, SetV)) and len(a) == 1 and isinstance(a[0], (Lst, SetV, Dct)):
            ms = [self.member(x, Lst(a[0].items) if isinstance(a[0], SetV) else a[0], node) for x in r.items]
            if any(m == TRUE for m in ms):
                return FALSE
            if all(m == FALSE for m in ms):
                return TRUE
        if isinstance(r, Lst):
            if r.elem is not None:
                copy = lambda x: self.models["__elem__"](self, r.elem, x, node)
                if n in ("append", "insert") and args:
                    args = list(args[:-1]) + [copy(args[-1])]
                elif n in ("extend", "MergeFrom") and a:
                    a = [Lst([copy(x) for x in self.iterate(a[0], node)])]
                    n = "extend"
                elif n == "CopyFrom" and a:
                    xs = [copy(x) for x in self.iterate(a[0], node)]
                    self._touch(r)
                    r.items = xs
                    return NONE
                elif n == "add":
                    x = self.models["__elem__"](self, r.elem, None, node, kw)
                    self._touch(r)
                    r.items.append(x)
                    return x
            if n == "append":
                self._touch(r)
                r.items.append(args[0])
                return NONE
            if n == "extend":
                self._touch(r)
                r.items.extend(self.iterate(a[0], node))
                return NONE
            if n == "insert" and isinstance(a[0], K):
                self._touch(r)
                r.items.insert(a[0].v, args[1])
                return NONE
            if n == "pop":
                self._touch(r)
                i = a[0].v if a and isinstance(a[0], K) else -1
                if not r.items:
                    self.raise_("IndexError", [K("pop from empty list")], node)
                return r.items.pop(i)
            if n == "index":
                for i, x in enumerate(r.items):
                    if veq(x, a[0]):
                        return K(i)
                return T("indexof", freeze(r), freeze(a[0]))
            if n == "copy":
                return Lst(r.items, r.kind)
            if n == "clear":
                self._touch(r)
                r.items = []
                return NONE
            if n == "reverse":
                self._touch(r)
                r.items.reverse()
                return NONE
            if n == "remove":
                self._touch(r)
                for i, x in enumerate(r.items):
                    if veq(x, a[0]):
                        del r.items[i]
                        return NONE
                return NONE
            if n == "sort":
                self._touch(r)
                st = self.sorted_(list(r.items), kw, node)
                if st is not None:
                    r.items[:] = st
                else:
                    fz = T("sorted", T("list", *[freeze(i) for i in r.items]), *[T("kw", K(k), freeze(v)) for k, v in sorted(kw.items())])
                    r.items = [T("index", fz, K(i)) for i in range(len(r.items))]
                return NONE
            if n == "count":
                return T("countof", freeze(r), freeze(a[0]))
            if n == "_replace":
                pass
        if isinstance(r, SetV):
            if n == "add":
                self._touch(r)
                r.add(a[0])
                return NONE
            if n in ("update", "union"):
                tgt = r if n == "update" else SetV(r.items)
                if n == "update":
                    self._touch(r)
                for s in a:
                    for x in self.iterate(s, node):
                        tgt.add(x)
                return NONE if n == "update" else tgt
            if n in ("discard", "remove"):
                self._touch(r)
                r.items = [x for x in r.items if not veq(x, a[0])]
                return NONE
            if n == "copy":
                return SetV(r.items)
            if n in ("difference", "intersection") and isinstance(a[0], (SetV, Lst)):
                o = a[0].items
                return SetV([x for x in r.items if (x in o) == (n == "intersection")])
            if n == "issubset" and isinstance(a[0], (SetV, Lst)):
                return K(all(x in a[0].items for x in r.items))
        if isinstance(r, Dct):
            if n in ("keys", "values", "items"):
                if r.rest is None:
                    if n == "keys":
                        return Lst([k for k, _ in r.pairs])
                    if n == "values":
                        return Lst([v for _, v in r.pairs])
                    return Lst([Lst([k, v], "tuple") for k, v in r.pairs])
                base = self.iterate(T(n, r.rest), node)
                own = {"keys": [k for k, _ in r.pairs], "values": [v for _, v in r.pairs],
                       "items": [Lst([k, v], "tuple") for k, v in r.pairs]}[n]
                return Lst(own + base)
            if n == "get":
                d = args[1] if len(args) > 1 else kw.get("default", NONE)
                v = r.get(a[0])
                if v is not None:
                    return v
                m = self.member(a[0], r, node)
                if isinstance(m, K):
                    return T("index", freeze(r), freeze(a[0])) if m.v else d
                if self.decide(m, node):
                    if len(r.pairs) == 1 and r.rest is None and not r.name:
                        return r.pairs[0][1]
                    return T("index", freeze(r), freeze(a[0]))
                return d
            if n == "setdefault":
                v = r.get(a[0])
                if v is not None:
                    return v
                m = self.member(a[0], r, node)
                if isinstance(m, K) and not m.v or not self.truth(m, node):
                    self._touch(r)
                    r.set(a[0], args[1] if len(args) > 1 else NONE)
                    return args[1] if len(args) > 1 else NONE
                return T("index", freeze(r), freeze(a[0]))
            if n == "pop":
                v = r.get(a[0])
                self._touch(r)
                if v is not None:
                    r.delete(a[0])
                    return v
                if len(args) > 1:
                    m = self.member(a[0], r, node)
                    if not self.truth(m, node):
                        return args[1]
                    return T("index", freeze(r), freeze(a[0]))
                return self.index(r, a[0], node)
            if n == "update":
                self._touch(r)
                for s in a:
                    if isinstance(s, Dct):
                        for k, v in s.pairs:
                            r.set(k, v)
                        if s.rest is not None:
                            r.rest = s.rest
                    elif isinstance(s, Lst):
                        for row in s.items:
                            kk = self.index(row, K(0), node)
                            r.set(kk, self.index(row, K(1), node))
                    else:
                        r.rest = freeze(s) if r.rest is None else T("merge", r.rest, freeze(s))
                for k, v in kw.items():
                    r.set(K(k), v)
                return NONE
            if n == "copy":
                d = Dct(r.pairs)
                d.rest = r.rest
                return d
            if n == "clear":
                self._touch(r)
                r.pairs = []
                return NONE
        if self.is_str(r):
            if n == "join" and isinstance(a[0], (Lst, SetV)) or n == "join" and isinstance(a[0], T) and a[0].op in SEQ:
                items = self.iterate(a[0], node)
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(freeze(r))
                    parts.append(freeze(x))
                return mkfstr(parts)
            if n == "format" and isinstance(r, K) and isinstance(r.v, str):
                x = self.str_format(r.v, a, kw, node)
                if x is not None:
                    return x
        if isinstance(r, K) and all(isinstance(x, K) for x in a) and all(isinstance(x, K) for x in kw.values()):
            fn = getattr(r.v, n, None)
            if fn is not None and not isinstance(r.v, type):
                try:
                    res = fn(*[x.v for x in a], **{k: x.v for k, x in kw.items()})
                    return from_py(res)
                except ValueError:
                    self.raise_("ValueError", a, node)
                except Exception:
                    pass
            elif fn is None:
                self.raise_("AttributeError", [K(n)], node)
        callee = T("attr", freeze(r), n)
        return self.opaque_call("." + n, r, args, kw, node, callee)


class SuperV(V):
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv

    def __repr__(self):
        return "super()"


_orig_attr = Interp.attr


def _attr(self, b, name, node):
    if isinstance(b, SuperV):
        mro = b.selfv.cls.mro() if isinstance(b.selfv, Obj) else b.cls.mro()
        try:
            rest = mro[mro.index(b.cls) + 1 :]
        except ValueError:
            rest = b.cls.mro()[1:]
        for c in rest:
            if name in c.attrs:
                m = c.attrs[name]
                return Bound(m, b.selfv) if isinstance(m, Fn) and m.kind != "staticmethod" else m
        return T("attr", T("super"), name)
    return _orig_attr(self, b, name, node)


Interp.attr = _attr


class Frame:
    __slots__ = ("fn", "env", "selfv")

    def __init__(self, fn, env, selfv):
        self.fn, self.env, self.selfv = fn, env, selfv

    @property
    def mod(self):
        return self.env.mod

    @property
    def qual(self):
        return self.fn.qual if self.fn else "<module>"


def from_py(x):
    if isinstance(x, list):
        return Lst([from_py(y) for y in x], "list")
    if isinstance(x, tuple):
        return Lst([from_py(y) for y in x], "tuple")
    return K(x)


def const_py(v):
    """(value,) of a constant (container), or None."""
    if isinstance(v, K):
        return (v.v,)
    if isinstance(v, T) and v.op in ("list", "tuple", "ilist"):
        xs = [const_py(x) for x in v.args]
        if all(x is not None for x in xs):
            return ((tuple if v.op == "tuple" else list)(x[0] for x in xs),)
    return None


def mkfstr(parts):
    out = []
    for p in parts:
        sub = list(p.args) if isinstance(p, T) and p.op == "fstr" else [p]
        for q in sub:
            if isinstance(q, T) and q.op == "str":
                q = q.args[0]
            c = const_py(q)
            if c is not None and not isinstance(q, K):
                q = K(str(c[0]))
            if isinstance(q, K) and not isinstance(q.v, str):
                q = K(str(q.v))
            if isinstance(q, K) and out and isinstance(out[-1], K):
                out[-1] = K(out[-1].v + q.v)
            elif isinstance(q, K) and q.v == "":
                continue
            else:
                out.append(q)
    if not out:
        return K("")
    if len(out) == 1 and isinstance(out[0], K):
        return out[0]
    return T("fstr", *out)
