"""Runs the handlers of TorchOnnxToTorch abstractly: operands are names, attributes are
given values, and the outcome is the term of torch operators that replaces the operator.

Operations are terms (class name, operands); constants are numbers; types carry sizes and
an element type where they are known."""

import contextlib
import os
import re
import struct

from . import cpp
from .cpp import Closure, Eval, Missing, Return, Stop
from .interp import AnalysisError
from .torchfacts import read


NPOS = 2 ** 64 - 1


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class LR:
    """LogicalResult / FailureOr without a value"""

    def __init__(self, ok, why=""):
        self.ok, self.why = ok, why

    def __bool__(self):  # as a ParseResult: true is a failure
        return not self.ok


ABSENT = object()
OK, FAIL = LR(True), LR(False)


class D:
    """An element type."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, D) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return self.n

    @property
    def float(self):
        return self.n[0] == "f" or self.n == "bf16"

    @property
    def bits(self):
        return int(re.sub(r"\D", "", self.n) or 8)

    @property
    def cls(self):
        n = self.n
        return "float" if self.float else "complex" if n[0] == "c" else "int" if re.fullmatch(r"[su]?i\d+", n) else n


class Ty:
    """A torch type: kind vtensor, int, float, bool, none, str, list, optional, other"""

    def __init__(self, kind, sizes=None, dtype=None, of=None):
        self.kind, self.sizes, self.dtype, self.of = kind, sizes, dtype, of

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.kind, self.sizes, self.dtype, self.of) == (o.kind, o.sizes, o.dtype, o.of)

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        if self.kind == "vtensor":
            return f"vtensor<{self.sizes},{self.dtype}>"
        return self.kind


class V:
    """A value: the term that computes it and its type."""

    def __init__(self, term, ty):
        self.term, self.ty = term, ty

    def __eq__(self, o):
        return isinstance(o, V) and o.term == self.term

    def __hash__(self):
        return hash(repr(self.term))


class Struct(dict):
    def __init__(self, fields, values=()):
        super().__init__(values)
        self.fields = fields


def copied(v):
    return Struct(v.fields, v) if isinstance(v, Struct) else list(v) if isinstance(v, list) else v


class It:
    def __init__(self, l, i):
        self.l, self.i = l, i

    def __add__(self, n):
        return It(self.l, self.i + n)

    def __sub__(self, n):
        return self.i - n.i if isinstance(n, It) else It(self.l, self.i - n)

    def __eq__(self, o):
        return isinstance(o, It) and o.l is self.l and o.i == self.i


class Ptr:
    def __init__(self, env, n):
        self.env, self.n = env, n


CONST = {"ConstantIntOp": int, "ConstantFloatOp": float, "ConstantBoolOp": bool, "ConstantStrOp": str, "ConstantNumberOp": float}
KINDS = {"ConstantIntOp": "int", "ConstantFloatOp": "float", "ConstantBoolOp": "bool", "ConstantStrOp": "str", "ConstantNoneOp": "none", "PrimListConstructOp": "list", "AtenSizeIntOp": "int", "AtenItemOp": "scalar",
         "AtenFloatImplicitOp": "float", "AtenIntImplicitOp": "int", "AtenBoolIntOp": "bool", "AtenIntBoolOp": "int"}
TYPES = {"ValueTensorType": "vtensor", "BaseTensorType": "vtensor", "NonValueTensorType": "-", "IntType": "int", "FloatType": "float", "BoolType": "bool", "NoneType": "none", "StringType": "str", "ListType": "list",
         "OptionalType": "optional", "NumberType": "number"}
SKIP = object()  # an argument that is no operand


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return x


TERMINATORS = ("PrimLoopConditionOp", "PrimIfYieldOp")
REGIONS = {"PrimLoopOp": 1, "PrimIfOp": 2}  # operations and how many regions they have


def show(t):
    if isinstance(t, Obj) and t.kind == "region":
        if t.block is None or t.block.end is None:
            raise AnalysisError("a region without an end")
        return "Region(" + ", ".join(x.term for x in t.block.args) + (", " if t.block.args else "") + show(t.block.end) + ")"
    if isinstance(t, tuple):
        if t[0] == "res":
            return f"{show(t[1])}#{t[2]}"
        if t[0] == "PrimListConstructOp":
            return "[" + ", ".join(show(x) for x in t[1:]) + "]"
        if t[0] == "tensor":
            return f"tensor({show(t[1])}, {t[2]})"
        return re.sub(r"Op$", "", t[0]) + "(" + ", ".join(show(x) for x in t[1:]) + ")"
    if isinstance(t, bool) or t is None:
        return str(t)
    if isinstance(t, float):
        return f"{t:.7g}" + ("" if re.search(r"[.en]", f"{t:.7g}") else ".0")
    if isinstance(t, V):
        return show(t.term)
    if isinstance(t, str):
        return t if re.fullmatch(r"x\d+|b\d+_\d+", t) else repr(t)
    if isinstance(t, list):
        return "[" + ", ".join(show(x) for x in t) + "]"
    return str(t)


class Run(Eval):
    def __init__(self, fns, op):
        super().__init__({}, fns)
        self.op = op  # operands, results (types), attrs
        self.result = None
        self.effects = []
        self.scopes = []
        self.open, self.blocks = [], 0  # blocks without a terminator; how many there were

    # ---- statements

    DECL = {"SmallVector": list, "std::vector": list, "ArrayRef": list}

    def fresh(self, ty):
        if "SmallString" in ty:
            return ""
        if re.search(r"SmallVector|vector<|ArrayRef|SetVector|DenseSet|std :: vector", ty):
            return []
        if "string" in ty or "StringRef" in ty:
            return ""
        if re.search(r"\b(std :: (map|unordered_map)|DenseMap|SmallDenseMap) <", ty):
            return {}
        if re.search(r"\bstd :: (set|unordered_set) <", ty):
            return []
        if ty.split()[-1] in self.fns.get("struct", ()):
            return Struct(self.fns["struct"][ty.split()[-1]])
        return None

    def stmt(self, s, env):
        if s.kind not in ("for", "if", "while", "block", "switch"):
            return super().stmt(s, env)
        with self.scope():
            if s.kind == "for" and len(cpp.split(s.toks, ";")) == 1:
                return self.range_for(s, env)
            return super().stmt(s, env)

    @contextlib.contextmanager
    def scope(self):
        """Names declared within stand for what they stood for before again."""
        self.scopes.append([])
        try:
            yield
        finally:
            for env, n, old in reversed(self.scopes.pop()):
                if old is ABSENT:
                    env.pop(n, None)
                else:
                    env[n] = old

    def bound(self, env, n, old):
        if self.scopes:
            self.scopes[-1].append((env, n, old))

    def range_for(self, s, env):
        i = next(i for i, t in enumerate(s.toks) if t == ":" and t.kind == "op")
        head = s.toks[:i]
        if "[" in head:
            b = next(k for k, t in enumerate(head) if t == "[")
            names = [str(x[-1]) for x in cpp.split(head[b + 1:cpp.match(head, b)])]
        else:
            names = [str([t for t in head if t.kind == "id"][-1])]
        seq = self.ev(cpp.expr(s.toks[i + 1:]), env)
        if isinstance(seq, Obj) and seq.kind == "iattr" and isinstance(seq.value, list):
            seq = [Obj(kind="iattr", value=x) for x in seq.value]
        if isinstance(seq, str):
            seq = list(seq)
        if not isinstance(seq, list):
            raise AnalysisError("a loop over no list")
        for n in names:
            self.bound(env, n, env.get(n, ABSENT))
        for k, v in enumerate(list(seq)):
            if len(names) == 1:
                env[names[0]] = v
            else:
                for n, x in zip(names, v):
                    env[n] = x
            try:
                self.stmt(s.a, env) if s.a else None
            except cpp._Break:
                break
            except cpp._Continue:
                pass
            finally:
                if len(names) == 1 and "&" in head and isinstance(seq[k], (int, float, V)):
                    seq[k] = env[names[0]]

    def declaration(self, ts, env):
        if len(ts) < 2 or ts[0].kind != "id" or ts[0] in ("return", "delete", "new"):
            return None
        if ts[0] == "enum" and "{" in ts:
            b = next(i for i, t in enumerate(ts) if t == "{")
            n = -1
            for x in cpp.split(ts[b + 1:cpp.match(ts, b)]):
                n = self.ev(cpp.expr(x[2:]), env) if len(x) > 2 else n + 1
                if x:
                    self.bound(env, str(x[0]), env.get(str(x[0]), ABSENT))
                    env[str(x[0])] = n
            return str(ts[1])
        parts = cpp.split(ts)
        if len(parts) > 1:
            if not self.head_of(parts[0]):
                return None
            n = self.declare(parts[0], env)
            ty = self.head_of(parts[0])[0]
            for p in parts[1:]:
                if p[0].kind != "id":
                    return None
                self.declare(ty + p, env)
            return n
        return self.declare(ts, env)

    def head_of(self, ts):
        i = 0
        while i < len(ts):
            if ts[i] == "<" and cpp.angle_end(ts, i) is not None:
                i = cpp.angle_end(ts, i) + 1
                continue
            if ts[i].kind == "op" and ts[i] not in ("::", "*", "&", "&&"):
                break
            i += 1
        head = ts[:i]
        if len(head) < 2 or head[-1].kind != "id" or head[-2] == "::" or head[-2].kind not in ("id", "op") or head[-2] == "&&" and len(head) > 2 and head[0] != "auto":
            return None
        if head[-2].kind == "op" and head[-2] not in (">", "*", "&", "&&", ">>"):
            return None
        if head[-2].kind == "op" and head[-2] in ("*",) and len(head) == 3 and str(head[0]) in ("op",):
            return None
        return head[:-1], head[-1], i

    def declare(self, ts, env):
        if ts[0] == "auto" and len(ts) > 2 and "[" in ts[1:3]:
            b = next(k for k, t in enumerate(ts) if t == "[")
            e = cpp.match(ts, b)
            vs = self.ev(cpp.expr(ts[e + 2:]), env)
            if isinstance(vs, Struct):
                vs = [vs[x] for x in vs.fields]
            for x, v in zip(cpp.split(ts[b + 1:e]), vs):
                self.bound(env, str(x[-1]), env.get(str(x[-1]), ABSENT))
                env[str(x[-1])] = v
            return "auto"
        h = self.head_of(ts)
        if h is None:
            return None
        old = env.get(str(h[1]), ABSENT)
        n = self.declared(ts, h, env)
        if n is not None:
            self.bound(env, n, old)
        return n

    def declared(self, ts, h, env):
        head, name, i = h
        n, ty = str(name), " ".join(head)
        vector = re.search(r"^(const )?(llvm :: |std :: )?(SmallVector|vector|SmallVectorImpl|ArrayRef)\b", ty)
        if i == len(ts):
            env[n] = self.fresh(ty)
            return n
        if ts[i] == "[":
            while i < len(ts) and ts[i] == "[":
                i = cpp.match(ts, i) + 1
        if ts[i] == "=":
            v = self.ev(cpp.expr(ts[i + 1:]), env)
            env[n] = self.copy(v, ty)
            if re.search(r"\bfloat\b", ty) and isinstance(v, (int, float)):
                env[n] = f32(float(v))
            if re.fullmatch(r"(?:const )?(?:unsigned|int|int64_t|int32_t|size_t|uint64_t)", ty) and isinstance(v, (float, bool)):
                env[n] = int(v)
            return n
        if ts[i] in ("{", "("):
            close = "}" if ts[i] == "{" else ")"
            if cpp.match(ts, i) != len(ts) - 1:
                return None
            a = cpp.Expr(ts[i + 1:]).args(close)
            vs = [self.ev(x, env) for x in a]
            if vector:
                env[n] = self.vector(vs, ts[i] == "{")
            elif not a:
                env[n] = self.fresh(ty)
            elif len(a) == 1:
                env[n] = self.copy(vs[0], ty)
            elif ty.endswith("ImplicitLocOpBuilder"):
                env[n] = Obj(kind="rewriter")
            elif "iota_range" in ty:
                env[n] = list(range(vs[0], vs[1] + (1 if len(vs) > 2 and vs[2] else 0)))
            elif len(vs) == 2 and all(isinstance(x, It) and x.l == vs[0].l for x in vs):
                l = vs[0].l[vs[0].i:vs[1].i]
                env[n] = "".join(l) if re.search(r"\bstring$", ty) else l
            else:
                env[n] = vs
            return n
        return None

    def vector(self, vs, braces):
        if not vs:
            return []
        if len(vs) == 2 and isinstance(vs[0], It):
            return list(vs[0].l[vs[0].i:vs[1].i])
        if braces or len(vs) > 1 and (len(vs) > 2 or isinstance(vs[0], (V, Ty))):
            return list(vs[0]) if len(vs) == 1 and isinstance(vs[0], list) else list(vs)
        if len(vs) == 1:
            return list(vs[0]) if isinstance(vs[0], list) else [0] * vs[0] if isinstance(vs[0], int) else [vs[0]]
        if len(vs) == 2:
            return [vs[1]] * vs[0]
        raise AnalysisError("a vector of another form")

    @staticmethod
    def copy(v, ty):
        return copied(v) if "&" not in ty else v

    def expr_stmt(self, ts, env):
        if ts[0] == "using" or ts[0] == "LLVM_DEBUG" or len(ts) > 3 and ts[2] in ("errs", "dbgs") and ts[1] == "::":
            return
        if ts[0] == "(" and len(ts) > 3 and ts[1] == "void" and ts[2] == ")":
            ts = ts[3:]
        if self.declaration(ts, env):
            return
        i = 0
        while i < len(ts):
            t = ts[i]
            if t.kind == "op" and t in cpp.OPEN:
                i = cpp.match(ts, i) + 1
                continue
            if t.kind == "op" and t in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "%="):
                return self.assign(ts[:i], str(t), self.ev(cpp.expr(ts[i + 1:]), env), env)
            i += 1
        if len(ts) >= 2 and (ts[0] in ("++", "--") or ts[-1] in ("++", "--")):
            n = ts[1:] if ts[0] in ("++", "--") else ts[:-1]
            return self.assign(n, "+=" if "++" in ts else "-=", 1, env)
        self.ev(cpp.expr(ts), env)

    def assign(self, lhs, op, v, env):
        if op != "=":
            old = self.ev(cpp.expr(lhs), env)
            if isinstance(old, str) and isinstance(v, int) and len(old) == 1:  # a character
                v = chr(ord(old) + (v if op == "+=" else -v))
            else:
                v = self.binop(op[:-1], old, v)
        if isinstance(v, list):
            v = list(v)
        e = cpp.expr(lhs)
        if e[0] == "name":
            env[e[1]] = v
        elif e[0] == "index":
            b, i = self.ev(e[1], env), self.ev(e[2], env)
            if not isinstance(b, (list, dict)):
                raise AnalysisError("an assignment to an element of no list")
            if isinstance(b, list) and not -1 < i < len(b):
                raise Stop(f"index {i} of {len(b)}")
            b[i] = v
        elif e[0] == "un" and e[1] == "*":
            p = self.ev(e[2], env)
            if isinstance(p, Ptr):
                p.env[p.n] = v
            else:
                raise AnalysisError("an assignment through a pointer")
        elif e[0] == "call" and e[1][0] == "attr" and e[1][2] in ("back", "front"):
            b = self.ev(e[1][1], env)
            if not b:
                raise Stop("the end of an empty list")
            b[-1 if e[1][2] == "back" else 0] = v
        elif e[0] == "attr" and isinstance(self.ev(e[1], env), Struct):
            self.ev(e[1], env)[e[2]] = v
        elif e[0] == "call" and e[1][0] == "name" and e[1][1].split("::")[-1] == "tie" and op == "=":
            for x, y in zip(e[2], v):
                if x[0] == "name":
                    env[x[1]] = y
                elif x[0] == "attr" and isinstance(self.ev(x[1], env), Struct):
                    self.ev(x[1], env)[x[2]] = y
                elif x != ("name", "std::ignore"):
                    raise AnalysisError("a tie of another form")
        else:
            raise AnalysisError(f"an assignment to {' '.join(lhs)}")

    # ---- calls

    def class_env(self, f):
        return {}

    def candidates(self, name):
        return self.fns[name]

    def call(self, name, *args, exprs=None, env=None, targs=None):
        cands = self.candidates(name)
        f = next((f for f in cands if len(f.params) == len(args)), next((f for f in cands if len(f.params) >= len(args)), None))
        if f is None:
            raise AnalysisError(f"call of {name}")
        tenv = self.class_env(f)
        if f.head and f.head[0] == "template":
            names = [str(x[-1]) for x in cpp.split(f.head[2:cpp.angle_end(f.head, 1)])]
            tenv = dict(tenv, **{"<" + n + ">": v for n, v in zip(names, targs or [])})
        e2 = dict(tenv, **dict(zip(f.params, (a if self.by_ref(f, k) else copied(a) for k, a in enumerate(args)))))
        for k, p in enumerate(f.params[len(args):]):
            d = self.default_of(f, len(args) + k)
            if d is None:
                raise AnalysisError(f"no default of {p} of {name}")
            e2[p] = self.ev(cpp.expr(d), {})
        r = None
        try:
            self.block(self.body(f.body), e2)
        except Return as x:
            r = x.v
        for k, a in enumerate(args):
            if exprs and self.by_ref(f, k):
                x = exprs[k]
                if x[0] == "name" and x[1] in env:
                    env[x[1]] = e2[f.params[k]]
                elif x[0] == "index":
                    self.ev(x[1], env)[self.ev(x[2], env)] = e2[f.params[k]]
        return r

    def params_of(self, f):
        k = next(k for k, t in enumerate(f.head) if t == "(" and f.head[k - 1] == f.name)
        return cpp.split(f.head[k + 1:cpp.match(f.head, k)])

    def by_ref(self, f, k):
        ps = self.params_of(f)
        return k < len(ps) and "&" in ps[k] and "const" not in ps[k]

    def default_of(self, f, k):
        ps = self.params_of(f)
        if k < len(ps) and "=" in ps[k]:
            return ps[k][ps[k].index("=") + 1:]
        return None

    def apply(self, c, args, out=None):
        # lambdas capture by reference
        saved = {p: c.env[p] for p in c.params if p in c.env}
        env = c.env
        for p, a in zip(c.params, args):
            env[p] = a
        try:
            with self.scope():
                self.block(self.body(c.body), env)
        except Return as r:
            return r.v
        finally:
            for p in c.params:
                if out is not None and p in env:
                    out[p] = env[p]
                if p in saved:
                    env[p] = saved[p]
                else:
                    env.pop(p, None)
        return None

    def op_value(self, name, args, types):
        """An operation from its operands (types apart)."""
        ty = types[0] if types else None
        if len(types) > 1 and all(isinstance(t, Ty) for t in types):
            ty = list(types)
        if isinstance(ty, list) and len(ty) == 1 and len(types) == 1:
            ty = ty[0]
        if isinstance(ty, list):
            rs = ty
            t = (name,) + tuple(self.term(a) for a in args)
            return [V(("res", t, i), x) for i, x in enumerate(rs)]
        if name in CONST:
            v = args[-1]
            if isinstance(v, V):
                raise AnalysisError(f"{name} of a value")
            v = CONST[name](v)
            return V(v, Ty(KINDS[name]))
        if name == "ConstantNoneOp":
            return V(None, Ty("none"))
        if name == "PrimListConstructOp":
            l = args[-1] if args and isinstance(args[-1], list) else list(args)
            return V(("PrimListConstructOp",) + tuple(self.term(x) for x in l), Ty("list"))
        if name == "OperatorOp":
            ops = next((a for a in args if isinstance(a, list) and a and all(isinstance(x, V) for x in a)), [])
            at = next((a for a in args if isinstance(a, list) and a and all(isinstance(x, Obj) and x.kind == "named" for x in a)), None)
            if at is None:
                raise AnalysisError("an operator without attributes")
            named = [x for x in at if x.name == "name"]
            rest = [[x.name.replace("torch.onnx.", ""), self.term(x.value)] for x in at if x.name != "name"]
            return V(("OperatorOp", named[0].value if named else None) + tuple(self.term(a) for a in ops) + (rest,), ty)
        if name == "ValueTensorLiteralOp":
            a = args[-1]
            return V(("tensor", a.values if isinstance(a, Obj) else self.term(a), str(getattr(a, "dtype", "?"))), ty or (a.ty if isinstance(a, Obj) else None) or Ty("vtensor"))
        if name == "AtenSizeIntOp" and isinstance(args[0], V) and isinstance(self.term(args[1]), int):
            pass
        k = KINDS.get(name)
        if ty is None and k is None and args and isinstance(args[0], V) and args[0].ty and args[0].ty.kind in ("int", "float", "bool"):
            ty = args[0].ty
        return V((name,) + tuple(self.term(a) for a in args), ty if ty is not None else Ty(k) if k else None)

    @staticmethod
    def term(a):
        if isinstance(a, V):
            return a.term
        if isinstance(a, list):
            return [Run.term(x) for x in a]
        return a

    def create(self, name, args):
        v = self.created(name, args)
        if name in ("AtenInsertTOp", "AtenAppendTOp"):
            self.effects.append(v)
        return v

    def created(self, name, args):
        if name in TERMINATORS:
            if not self.open:
                raise AnalysisError(f"{name} outside of a block")
            b = self.open.pop()
            b.end = (name,) + tuple(self.term(a) for a in args if not (isinstance(a, Obj) and a.kind in ("rewriter", "loc")))
            return b.end
        if name in REGIONS:
            args = args + [Obj(kind="region", block=None) for _ in range(REGIONS[name])]
        ops, types = [], []
        for a in args:
            if isinstance(a, Obj) and a.kind in ("rewriter", "loc", "op"):
                continue
            if isinstance(a, (Ty,)):
                types.append(a)
            elif isinstance(a, list) and a and all(isinstance(x, Ty) for x in a):
                types.append(a)
            elif isinstance(a, D):
                types.append(a)
            else:
                ops.append(a)
        return self.op_value(name, ops, types)

    def ev(self, e, env):
        k = e[0]
        if k == "name":
            n = e[1]
            if n in env:
                return env[n]
            return self.name(n)
        if k == "attr":
            b = self.ev(e[1], env)
            if isinstance(b, Obj) and hasattr(b, e[2]):
                return getattr(b, e[2])
            if isinstance(b, Struct):
                if e[2] not in b:
                    raise AnalysisError(f"member {e[2]} before it is set")
                return b[e[2]]
            if isinstance(b, tuple) and e[2] in ("first", "second"):
                return b[e[2] == "second"]
            raise AnalysisError(f"member {e[2]}")
        if k == "un":
            if e[1] == "&" and e[2][0] == "name":
                return Ptr(env, e[2][1])
            v = self.ev(e[2], env)
            if e[1] == "!":
                return not self.truth(v)
            if e[1] == "-":
                return -v
            if e[1] in ("*", "+", "&"):
                return v.env[v.n] if isinstance(v, Ptr) else v.l[v.i] if isinstance(v, It) else v
            if e[1] in ("++", "--") and e[2][0] == "name":
                d = 1 if e[1] == "++" else -1
                env[e[2][1]] = chr(ord(v) + d) if isinstance(v, str) and len(v) == 1 else v + d
                return env[e[2][1]]
            raise AnalysisError(f"operator {e[1]}")
        if k == "bin" and e[1] in ("&&", "||"):
            a = self.truth(self.ev(e[2], env))
            if e[1] == "&&":
                return a and self.truth(self.ev(e[3], env))
            return a or self.truth(self.ev(e[3], env))
        if k == "?":
            return self.ev(e[2] if self.truth(self.ev(e[1], env)) else e[3], env)
        if k == "index":
            b, i = self.ev(e[1], env), self.ev(e[2], env)
            if isinstance(b, list):
                if not isinstance(i, int) or not -1 < i < len(b):
                    raise Stop(f"index {i} of {len(b)}")
                return b[i]
            if isinstance(b, dict):
                return b[i]
            if isinstance(b, str) and isinstance(i, int):
                if not -1 < i < len(b):
                    raise Stop(f"index {i} of {len(b)}")
                return b[i]
            raise AnalysisError("an index of no list")
        if k == "call":
            return self.call_expr(e, env)
        return super().ev(e, env)

    def truth(self, v):
        if isinstance(v, (V, Ty, D, Obj)):
            return True
        if v is None:
            return False
        if isinstance(v, (bool, int, float, LR)):
            return bool(v)
        if isinstance(v, str):  # the text of an assertion
            return True
        raise AnalysisError(f"a condition on {v!r}")

    def stmt_cond(self, v):
        return self.truth(v)

    def name(self, n):
        last = n.split("::")[-1]
        if last in ("kUnknownSize", "kDynamic"):
            return -1
        if n in ("INT64_MAX", "INT64_MIN", "INT32_MAX", "INT32_MIN"):
            b = int(n[3:5]) - 1
            return 2 ** b - 1 if n.endswith("MAX") else -2 ** b
        if n.endswith("numbers::pi"):
            return 3.141592653589793
        if last in ("Signed", "Unsigned", "Signless"):
            return last
        if last == "nullopt":
            return None
        if last == "npos":
            return NPOS
        m = re.search(r"ScalarType::(\w+)$", n)
        if m and m[1] in CODES:
            return CODES[m[1]]
        m = re.search(r"Reduction::(\w+)$", n)
        if m:
            return {"None": 0, "Mean": 1, "Sum": 2}[m[1]]
        if n == "MLIRContext":
            return Obj(kind="ctx")
        raise AnalysisError(f"unknown name {n}")

    @staticmethod
    def resolve(t, env):
        """A type's name, of a template parameter that of its argument."""
        return env.get("<" + t + ">", t)

    def call_expr(self, e, env):
        f, raw = e[1], e[2]
        if f[0] == "lambda":
            return self.apply(Closure(f[1], f[2], env), [self.ev(x, env) for x in raw])
        if f[0] == "attr":
            base = self.ev(f[1], env)
            return self.method(base, f[2], raw, env, f[1])
        if f[0] != "name":
            raise AnalysisError("a call of a computed function")
        n = f[1]
        if isinstance(env.get(n), Closure):
            c, out = env[n], {}
            r = self.apply(c, [self.ev(x, env) for x in raw], out)
            for p, x in zip(c.params, raw):  # what its reference parameters were left with
                if p in c.refs and x[0] == "name" and p in out:
                    env[x[1]] = out[p]
            return r
        m = re.fullmatch(r"(?:\w+::)*(\w+)::create", n)
        if m and self.resolve(m[1], env).endswith("Op"):
            return self.create(self.resolve(m[1], env).split("::")[-1], [self.ev(x, env) for x in raw])
        m = re.fullmatch(r"(?:\w+(?:<.*>)?::)*(\w+)(?:<(.*)>)?", n)
        last, targ = (m[1], m[2]) if m else (n, None)
        if last == "is_one_of":
            t = [self.resolve(x, env).split("::")[-1] for x in targ.split(",")]
            return t[0] in t[1:]
        if last in ("is_same", "is_same_v"):
            t = [self.resolve(x, env).split("::")[-1] for x in targ.split(",")]
            return t[0] == t[1]
        if targ is not None and last in ("cast", "dyn_cast", "isa", "cast_or_null", "dyn_cast_or_null", "isa_and_nonnull", "isa_and_present", "cast_if_present"):
            return self.casting(last, targ, self.ev(raw[0], env))
        if last == "matchPattern":
            return self.matched(self.ev(raw[0], env), raw[1], env)
        if last in ("assert", "llvm_unreachable", "report_fatal_error"):
            if last == "assert" and self.truth(self.ev(raw[0], env)):
                return None
            raise Stop(last)
        if last == "get" and "::" in n and n.split("::")[-2] in TYPES:
            return self.type_get(TYPES[n.split("::")[-2]], [self.ev(x, env) for x in raw])
        if last == "create" and "::" in n and n.split("::")[-2] in TYPES:
            return self.type_get(TYPES[n.split("::")[-2]], [self.ev(x, env) for x in raw])
        if last in ("max", "lowest", "infinity", "min", "epsilon") and "numeric_limits" in n:
            t = re.search(r"numeric_limits<(\w+)>", n)[1]
            big = {"float": 3.4028234663852886e38, "double": 1.7976931348623157e308, "int64_t": 2 ** 63 - 1, "int32_t": 2 ** 31 - 1, "int": 2 ** 31 - 1}[t]
            return {"max": big, "lowest": -big, "infinity": float("inf"), "min": -big - 1 if isinstance(big, int) else 1.17549435e-38}[last]
        args = [self.ev(x, env) for x in raw]
        if len(e) > 3 and last in ("SmallVector", "vector", "ArrayRef"):
            return self.vector(args, True)
        if env.get("@binder") and last in self.fns.get("binder", {}):
            return self.binder_call(last, args, raw, env)
        r = self.builtin(last, targ, args, n, raw, env)
        if r is not None:
            return r[0]
        if last in self.fns:
            return self.call(last, *args, exprs=raw, env=env, targs=[self.resolve(x.strip(), env) for x in (targ or "").split(",") if x])
        raise AnalysisError(f"call of {n}")

    def type_get(self, kind, args):
        args = [a for a in args if not (isinstance(a, Obj) and a.kind in ("ctx", "op"))]
        if kind == "vtensor":
            s = args[0] if args else None
            d = args[1] if len(args) > 1 else None
            return Ty("vtensor", list(s) if isinstance(s, list) else None, d)
        if kind in ("list", "optional"):
            return Ty(kind, of=args[0] if args else None)
        return Ty(kind)

    def casting(self, what, targ, v):
        ts = [x.split("::")[-1].strip() for x in re.split(r",", targ)]
        ty = v
        ok = False
        if ts == ["Type"]:
            return v if not what.startswith("isa") else True
        for t in ts:
            if isinstance(ty, Ty):
                want = TYPES.get(t, {"TensorType": "vtensor", "RankedTensorType": "vtensor", "ShapedType": "vtensor"}.get(t))
                if want is None and t in ("BaseTensorType",):
                    want = "vtensor"
                if want is None:
                    raise AnalysisError(f"a cast to {t}")
                ok |= ty.kind == want
            elif isinstance(ty, D):
                want = {"FloatType": "float", "IntegerType": "int", "ComplexType": "complex", "QUInt8Type": "qu8", "QInt8Type": "qi8", "QInt16Type": "qi16", "QInt32Type": "qi32", "Float8E5M2Type": "f8E5M2"}.get(t)
                if t in ("BFloat16Type",):
                    ok |= ty.n == "bf16"
                    continue
                if t in ("Float32Type", "Float64Type", "Float16Type"):
                    ok |= ty.n == "f" + t[5:7]
                    continue
                if want is None:
                    raise AnalysisError(f"a cast to {t}")
                ok |= ty.cls == want
            elif isinstance(v, Obj) and v.kind == "iattr":
                if t not in self.ATTRS:
                    raise AnalysisError(f"a cast to {t}")
                ok |= self.ATTRS[t] is type(v.value)
            elif v is None:
                ok = False
            else:
                raise AnalysisError(f"a cast of {v!r}")
        if what.startswith("isa"):
            return ok
        if ok:
            return v
        if what == "cast":
            raise Stop(f"cast<{targ}>")
        return None

    def matched(self, v, pat, env):
        if pat[0] != "call" or pat[1][0] != "name":
            raise AnalysisError("a pattern")
        n = pat[1][1].split("::")[-1]
        if not isinstance(v, V):
            raise AnalysisError("a match of no value")
        out = None
        if pat[2]:
            x = pat[2][0]
            out = x[2][1] if x[0] == "un" else x[1]
        t = v.term
        if n in ("m_TorchConstantInt", "m_TorchConstantBool", "m_TorchConstantFloat", "m_TorchConstantStr"):
            if type(t).__name__ != {"Int": "int", "Bool": "bool", "Float": "float", "Str": "str"}[n[len("m_TorchConstant"):]] or isinstance(t, str) and re.fullmatch(r"x\d+", t):
                return False
            env[out] = t
            return True
        if n == "m_TorchListOfConstantInts":
            if not (isinstance(t, tuple) and t[0] == "PrimListConstructOp" and all(isinstance(x, int) for x in t[1:])):
                return False
            env[out] = list(t[1:])
            return True
        if n in ("m_OnnxListOfConstantInts", "m_Constant", "m_OnnxListOfConstantFloats"):
            return False  # the operands are no constants
        raise AnalysisError(f"pattern {n}")

    def builtin(self, n, targ, a, full, raw, env):
        if n in ("success", "failure"):
            return (OK if n == "success" and (not a or a[0]) else FAIL,)
        if n in ("failed", "succeeded"):
            v = a[0]
            ok = v.ok if isinstance(v, LR) else not v if isinstance(v, bool) else True
            return (ok == (n == "succeeded"),)
        if n in ("Value", "int64_t", "int", "unsigned", "size_t", "StringRef", "string", "uint64_t", "APInt", "bool"):
            if not a:
                return (None,)
            return (int(a[0]) if n.startswith("int") or n in ("unsigned", "size_t", "uint64_t") else a[0],)
        if n in ("float", "double"):
            return (float(a[0]),)
        if n == "getSparsityWithDenseLTAtDim":
            return (None,)
        if n == "to_string":
            return (str(a[0]),)
        if n == "make_tuple":
            return (list(a),)
        if n == "equal":
            return (list(a[0]) == list(a[1]),)
        if n == "get" and full.split("::")[-2] in ("QUInt8Type", "QInt8Type", "QInt16Type", "QInt32Type"):
            return (D({"QUInt8Type": "qu8", "QInt8Type": "qi8", "QInt16Type": "qi16", "QInt32Type": "qi32"}[full.split("::")[-2]]),)
        if n == "getWithLeastStaticInformation":
            return (Ty("vtensor"),)
        if n in ("ValueRange", "TypeRange"):
            return (list(a[0]) if a and isinstance(a[0], list) else list(a),)
        if n in ("Twine", "SmallString"):
            return (a[0] if a else "",)
        if n == "getItemOp":
            k = TYPES[targ.split("::")[-1]]
            return (V(("AtenItemOp", self.term(a[-1])), Ty(k)),)
        if n in ("SmallVector", "vector", "ArrayRef"):
            return (self.vector(a, False),)
        if n in ("move", "forward", "ref", "getAsOpFoldResult"):
            return (a[0],)
        if n == "count" and len(a) == 2 and isinstance(a[0], (list, str)):
            return (a[0].count(a[1]),)
        if n in ("isalpha", "isdigit", "isspace"):
            return (getattr(a[0], n)() and a[0].isascii(),)
        if n == "join" and len(a) == 2:
            return (a[1].join(a[0]),)
        if n in ("abs",):
            return (abs(a[0]),)
        if n in ("max", "min") and len(a) == 2:
            return (max(a) if n == "max" else min(a),)
        if n == "pow":
            return (float(a[0]) ** a[1],)
        if n in ("sqrt", "floor", "ceil", "exp", "log"):
            import math
            return (getattr(math, n)(a[0]),)
        if n in ("zip", "zip_equal"):
            return ([tuple(x) for x in zip(*a)],)
        if n == "enumerate":
            return ([Obj(kind="en", index=i, value=x) if False else (i, x) for i, x in enumerate(a[0])],)
        if n == "seq":
            return (list(range(*[int(x) for x in a])),)
        if n in ("reverse",) and len(a) == 1:
            return (list(a[0])[::-1],)
        if n == "reverse" and isinstance(a[0], It):
            l = a[0].l
            l[a[0].i:a[1].i] = l[a[0].i:a[1].i][::-1]
            return (None,)
        if n == "swap":
            for x, v in zip(raw, a[::-1]):
                if x[0] == "name":
                    env[x[1]] = v
                else:
                    self.ev(x[1], env)[self.ev(x[2], env)] = v
            return (None,)
        if n in ("any_of", "all_of", "none_of", "count_if", "find_if", "is_contained", "llvm::count"):
            l = a[0]
            if isinstance(l, It):
                l, a = l.l[l.i:a[1].i], [None] + a[2:]
            if n == "is_contained":
                return (a[1] in l,)
            r = [self.truth(self.apply(a[1], [x])) for x in l]
            return ({"any_of": any(r), "all_of": all(r), "none_of": not any(r), "count_if": sum(r)}[n],)
        if n == "all_equal":
            return (all(x == a[0][0] for x in a[0]),)
        if n in ("to_vector", "make_range", "toMlirTorch", "to_vector_of"):
            return (list(a[0]),)
        if n in ("map_range",):
            return ([self.apply(a[1], [x]) for x in a[0]],)
        if n in ("iota",) and isinstance(a[0], It):
            for i in range(a[0].i, a[1].i):
                a[0].l[i] = a[2] + i - a[0].i
            return (None,)
        if n == "accumulate" and isinstance(a[0], It) and (len(a) == 3 or "multiplies" in str(raw[3])):
            r = a[2]
            for x in a[0].l[a[0].i:a[1].i]:
                r = r * x if len(a) == 4 else r + x
            return (r,)
        if n in ("multiplies", "plus"):
            return (Obj(kind=n),)
        if n == "get" and targ is not None and targ.isdigit():
            return (a[0][int(targ)],)
        if n == "make_pair" or n == "tuple" or n == "pair":
            return (tuple(a),)
        if n == "UnitAttr":
            return (Obj(kind="unit"),)
        if n == "APFloat" or n == "APInt":
            return (a[-1],)
        if n == "get" and full.split("::")[-2] == "DenseElementsAttr":
            t, v = a
            if not isinstance(t, Ty):
                raise AnalysisError("DenseElementsAttr::get")
            v = v if isinstance(v, list) else [v]
            return (Obj(kind="dense", values=v if len(v) != 1 else v[0], dtype=t.dtype, ty=t),)
        if n == "get" and full.split("::")[-2] in ("SplatElementsAttr", "FloatAttr", "IntegerAttr", "BoolAttr", "StringAttr"):
            return (a[-1],)
        if n == "get" and full.split("::")[-2] == "RankedTensorType":
            return (Ty("vtensor", list(a[0]), a[1] if len(a) > 1 else None),)
        if n == "get" and full.split("::")[-2] in ("Float32Type", "Float64Type", "Float16Type", "BFloat16Type", "IntegerType"):
            t = full.split("::")[-2]
            if t == "IntegerType":
                s = {"Signed": "s", "Unsigned": "u"}.get(next((x for x in a if isinstance(x, str)), ""), "")
                return (D(f"{s}i{[x for x in a if isinstance(x, int)][0]}"),)
            return (D({"Float32Type": "f32", "Float64Type": "f64", "Float16Type": "f16", "BFloat16Type": "bf16"}[t]),)
        if n == "toPositiveDim":
            return (a[0] + a[1] if a[0] < 0 else a[0],)
        if n == "isValidDim":
            return (0 <= a[0] < a[1],)
        if n == "getTensorRank":
            return (len(a[0].ty.sizes) if isinstance(a[0], V) and a[0].ty and a[0].ty.sizes is not None else None,)
        if n == "getIntegerType":
            raise AnalysisError("getIntegerType")
        if n == "getScalarTypeForType":
            return (self.code(a[0]),)
        if n in ("getDtypeIntValueForType",):
            return (V(self.code(a[2]), Ty("int")),)
        if n == "getTypeForScalarType":
            c = a[1]
            d = {v: k for k, v in DT.items()}.get(c)
            return (D(d) if d else None,)
        if n in ("implicit", "StringRef"):
            return (a[0],)
        return None

    @staticmethod
    def code(d):
        if isinstance(d, D) and d.n in DT:
            return DT[d.n]
        raise AnalysisError(f"no code of {d!r}")

    def method(self, b, n, raw, env, be=None):
        base = n.split("<")[0]
        if isinstance(b, str) and base in ("append", "push_back") and be and be[0] == "name":
            env[be[1]] = b + self.ev(raw[0], env)
            return None
        if isinstance(b, str) and base == "replace" and be and len(raw) == 3:
            i, n_, new = (self.ev(x, env) for x in raw)
            if not -1 < i <= len(b):
                raise Stop(f"position {i} of a string of {len(b)}")
            new = b[:i] + new + b[i + n_:]
            if be[0] == "name":
                env[be[1]] = new
                return None
            if be[0] == "index":
                self.ev(be[1], env)[self.ev(be[2], env)] = new
                return None
        targ = n[len(base) + 1:-1] if "<" in n else None
        if isinstance(b, Obj):
            h = getattr(self, "on_" + b.kind, None)
            if h is None:
                raise AnalysisError(f"method {n} of {b.kind}")
            return h(b, base, targ, raw, env)
        a = [self.ev(x, env) for x in raw]
        if isinstance(b, (list, V)) and re.fullmatch(r"get(|Then|Else)Region", base):
            t = (b[0] if isinstance(b, list) else b).term
            t = t[1] if t[0] == "res" else t
            rs = [x for x in t if isinstance(x, Obj) and x.kind == "region"]
            if not rs:
                raise AnalysisError("a region of another operation")
            return rs[-1 if base == "getElseRegion" else 0]
        if isinstance(b, list):
            return self.on_list(b, base, a)
        if base in ("value", "has_value", "value_or") and isinstance(b, (V, D, Ty)):
            return base == "has_value" or b  # an optional
        if isinstance(b, V):
            return self.on_value(b, base, targ, a)
        if isinstance(b, Ty):
            return self.on_type(b, base, targ, a)
        if isinstance(b, D):
            return self.on_dtype(b, base, a)
        if isinstance(b, str):
            return self.on_str(b, base, a)
        if b is None or isinstance(b, (int, float)):
            if base in ("has_value",):
                return b is not None
            if base in ("value", "convertToDouble", "getSExtValue", "getInt", "value_or", "convertToFloat", "getValue", "getZExtValue"):
                return a[0] if b is None and a else b
        if isinstance(b, dict) and base in ("count", "contains"):
            return a[0] in b
        raise AnalysisError(f"method {n} of {b!r}")

    def on_str(self, b, n, a):
        if n in ("str", "lower", "c_str"):
            return b.lower() if n == "lower" else b
        if n in ("empty", "size"):
            return not b if n == "empty" else len(b)
        if n in ("starts_with", "ends_with", "contains"):
            return b.startswith(a[0]) if n == "starts_with" else b.endswith(a[0]) if n == "ends_with" else a[0] in b
        if n in ("getValue", "strref", "data"):
            return b
        if n == "compare":
            return (b > a[0]) - (b < a[0])
        if n == "find" and all(isinstance(x, (str, int)) for x in a):
            i = b.find(*a)
            return NPOS if i < 0 else i
        if n == "substr":
            if a[0] > len(b):
                raise Stop(f"position {a[0]} of a string of {len(b)}")
            return b[a[0]:] if len(a) == 1 else b[a[0]:a[0] + a[1]]
        if n in ("begin", "end"):
            return It(list(b), 0 if n == "begin" else len(b))
        raise AnalysisError(f"method {n} of a string")

    def on_list(self, b, n, a):
        if n in ("push_back", "emplace_back"):
            if len(a) == 2 and all(isinstance(x, It) for x in a):
                l = a[0].l[a[0].i:a[1].i]
                a = ["".join(l) if all(isinstance(x, str) for x in l) else l]
            b.append(list(a[0]) if isinstance(a[0], list) else a[0])
        elif n == "append":
            if isinstance(b, str):
                raise AnalysisError("append")
            if isinstance(a[0], It):
                b.extend(a[0].l[a[0].i:a[1].i])
            elif len(a) == 2:
                b.extend([a[1]] * a[0])
            else:
                b.extend(a[0])
        elif n in ("size",):
            return len(b)
        elif n == "empty":
            return not b
        elif n in ("begin", "end", "rbegin", "rend"):
            if n[0] == "r":
                b = b[::-1]
            return It(b, 0 if n.endswith("begin") else len(b))
        elif n in ("back", "front"):
            if not b:
                raise Stop("front of an empty list")
            return b[-1 if n == "back" else 0]
        elif n in ("resize", "resize_for_overwrite"):
            d = a[1] if len(a) > 1 else 0
            b[:] = b[:a[0]] + [d] * (a[0] - len(b))
        elif n == "assign":
            b[:] = [a[1]] * a[0] if isinstance(a[0], int) else a[0] if isinstance(a[0], list) else a[0].l[a[0].i:a[1].i]
        elif n == "truncate":
            if a[0] > len(b):
                raise Stop("truncate")
            del b[a[0]:]
        elif n in ("reserve",):
            pass
        elif n == "clear":
            b.clear()
        elif n == "insert":
            if len(a) == 1:  # of a set
                new = a[0] not in b
                if new:
                    b.append(a[0])
                return (None, new)
            if len(a) == 2 and isinstance(a[1], list):
                b[a[0].i:a[0].i] = a[1]
            elif len(a) == 2:
                b.insert(a[0].i, a[1])
            elif isinstance(a[1], It):
                b[a[0].i:a[0].i] = a[1].l[a[1].i:a[2].i]
            else:
                b[a[0].i:a[0].i] = [a[2]] * a[1]
        elif n == "erase":
            del b[a[0].i]
        elif n == "pop_back":
            b.pop()
        elif n in ("vec", "getValue", "value", "getTypes", "getType"):
            return [x.ty for x in b] if n.startswith("getType") else b
        elif n == "has_value":
            return True
        elif n in ("drop_front", "drop_back", "take_front", "take_back", "slice"):
            k = a[0] if a else 1
            return {"drop_front": b[k:], "drop_back": b[:len(b) - k], "take_front": b[:k], "take_back": b[len(b) - k:], "slice": b[k:k + a[1]] if len(a) > 1 else b[k:]}[n]
        elif n in ("getResult",):
            return b[a[0]]
        elif re.fullmatch(r"getResult\d", n):
            return b[int(n[-1])]
        elif n in ("getResults",):
            return b
        elif n == "getNumElements":
            return len(b)
        elif n == "at":
            return b[a[0]]
        elif n == "find" and len(a) == 1:
            return It(b, b.index(a[0]) if a[0] in b else len(b))
        elif n in ("count", "contains"):
            return a[0] in b
        else:
            raise AnalysisError(f"method {n} of a list")
        return None

    def on_value(self, b, n, targ, a):
        if n == "getType":
            if b.ty is None:
                raise AnalysisError(f"the type of {show(b.term)[:60]}")
            return b.ty
        if n == "getResult0":
            return b
        if n in ("getResult", "getOperation", "getOp"):
            if a and a[0]:
                raise AnalysisError("another result")
            return b
        if n == "getDefiningOp":
            if isinstance(b.term, str) and re.fullmatch(r"x\d+", b.term):
                return None
            raise AnalysisError("the operation that defines a value")
        if n in ("getContext",):
            return Obj(kind="ctx")
        if n == "getLoc":
            return Obj(kind="loc")
        if n == "getResults":
            return [b]
        raise AnalysisError(f"method {n} of a value")

    def on_type(self, t, n, targ, a):
        if n in ("getSizes", "getShape"):
            if t.sizes is None:
                raise Stop("no sizes")
            return list(t.sizes)
        if n in ("hasSizes", "hasRank"):
            return t.sizes is not None
        if n in ("getDtype", "getElementType"):
            if t.dtype is None:
                raise AnalysisError("no dtype is known")
            return t.dtype
        if n == "hasDtype":
            return t.dtype is not None
        if n in ("areAllSizesKnown", "hasStaticShape"):
            return t.sizes is not None and all(x >= 0 for x in t.sizes)
        if n == "getNumElements":
            r = 1
            for x in t.sizes:
                r *= x
            return r
        if n == "isDynamicDim":
            return t.sizes[a[0]] < 0
        if n == "getDimSize":
            return t.sizes[a[0]]
        if n == "getOptionalSizes":
            return t.sizes if t.sizes is None else list(t.sizes)
        if n == "getOptionalDtype":
            return t.dtype
        if n == "getOptionalSparsity":
            return None
        if n == "getContext":
            return Obj(kind="ctx")
        if n == "getRank":
            return len(t.sizes)
        if n == "getWithSizesAndDtype":
            return Ty("vtensor", list(a[0]) if isinstance(a[0], list) else None, a[1])
        if n == "getWithSizesAndDtypeAndSparsity":
            return Ty("vtensor", list(a[0]) if isinstance(a[0], list) else None, a[1])
        if n in ("toBuiltinTensor", "clone", "getType"):
            return t
        if n == "getContainedType":
            return t.of
        raise AnalysisError(f"method {n} of a type")

    def on_dtype(self, d, n, a):
        w = a[0] if a else None
        if n in ("isSignedInteger", "isUnsignedInteger", "isSignlessInteger", "isInteger"):
            sign = {"isSignedInteger": "s", "isUnsignedInteger": "u", "isSignlessInteger": "", "isInteger": None}[n]
            m = re.fullmatch(r"([su]?)i(\d+)", d.n)
            return bool(m) and (sign is None or m[1] == sign) and (w is None or int(m[2]) == w)
        if n in ("isF16", "isF32", "isF64", "isBF16"):
            return d.n == n[2:].lower()
        if n == "isFloat":
            return d.float
        if n == "getIntOrFloatBitWidth" or n == "getWidth":
            return d.bits
        if n == "getContext":
            return Obj(kind="ctx")
        if n == "isUnsigned":
            return d.n[0] == "u"
        if n == "isSigned":
            return d.n[0] == "s"
        if n == "isSignless":
            return d.n[0] == "i"
        raise AnalysisError(f"method {n} of an element type")

    # ---- the binder, the rewriter, the operator

    def out(self, x, v, env):
        if x[0] == "name":
            env[x[1]] = v
        elif x[0] == "index":
            self.ev(x[1], env)[self.ev(x[2], env)] = v
        elif x[0] == "attr" and isinstance(self.ev(x[1], env), Struct):
            self.ev(x[1], env)[x[2]] = v
        else:
            raise AnalysisError("an out parameter")

    def fill(self, x, vs, env):
        l = self.ev(x, env)
        if not isinstance(l, list):
            raise AnalysisError("an out list")
        l.extend(vs)

    def on_binder(self, b, n, targ, raw, env):
        """A method of OpBinder, by its own text."""
        args = [self.argument(x, env) for x in raw]
        kept = [(a, list(a)) for a in args if isinstance(a, list)]
        try:
            return self.binder_call(n, args, raw, env)
        except AnalysisError:
            for a, v in kept:
                a[:] = v
            return self.assumed(b, n, targ, raw, env)


    def assumed(self, b, n, targ, raw, env):
        """What a method of OpBinder does, where its own text cannot be read."""
        o = self.op
        ops, res, at = o.operands, o.results, o.attrs
        tensor = lambda v: v.ty.kind == "vtensor"
        lists = lambda v: v.ty.kind == "list"
        if n == "getLoc":
            return Obj(kind="loc")
        if n == "getNumOperands":
            return len(ops)
        if n == "getNumResults":
            return len(res)
        if n in ("tensorOperand", "tensorListOperand"):
            if len(ops) != 1 or not (tensor if n == "tensorOperand" else lists)(ops[0]):
                return True
            self.out(raw[0], ops[0], env)
            return False
        if n == "tensorOperands":
            x = raw[0]
            if x[0] == "name" and isinstance(env.get(x[1]), list):
                k = self.ev(raw[1], env)
                if len(ops) != k or not all(map(tensor, ops)):
                    return True
                self.fill(x, ops, env)
                return False
            if len(ops) != 2 or not all(map(tensor, ops)):
                return True
            self.out(raw[0], ops[0], env)
            self.out(raw[1], ops[1], env)
            return False
        if n in ("tensorOperandAtIndex", "tensorListOperandAtIndex"):
            k = self.ev(raw[1], env)
            if k >= len(ops):
                return True
            self.out(raw[0], ops[k], env)
            return not (tensor if n == "tensorOperandAtIndex" else lists)(ops[k])
        if n in ("optionalTensorOperand", "optionalTensorListOperand"):
            if len(ops) != 1 or ops[0].ty.kind != "optional" or ops[0].ty.of is None or ops[0].ty.of.kind != ("list" if "List" in n else "vtensor"):
                return True
            self.out(raw[0], ops[0], env)
            return False
        if n == "tensorOperandsList":
            self.fill(raw[0], ops, env)
            return False
        if n in ("tensorResultType", "tensorListResultType"):
            if len(res) != 1:
                return True
            self.out(raw[0], res[0], env)
            return res[0].kind != ("list" if "List" in n else "vtensor")
        if n == "tensorResultTypes":
            self.fill(raw[0], res, env)
            return False
        if n == "tensorOperandTypes":
            self.fill(raw[0], [v.ty for v in ops], env)
            return False
        if n == "tensorResultTypeAtIndex":
            k = self.ev(raw[1], env)
            if k >= len(res):
                return True
            if res[k].kind != "vtensor":
                return True
            self.out(raw[0], res[k], env)
            return False
        if n in ("s64IntegerAttr", "s64BoolAttr", "f32FloatAttr", "customOpNameStringAttr"):
            name = self.ev(raw[1], env)
            zero = {"s64IntegerAttr": 0, "s64BoolAttr": False, "f32FloatAttr": 0.0, "customOpNameStringAttr": ""}[n]
            d = self.ev(raw[2], env) if len(raw) > 2 else zero
            if isinstance(d, list):
                d = zero
            v = at.get(name, d)
            if name in at and not isinstance(v, (str if "String" in n else (int, float))):
                return True
            self.out(raw[0], f32(float(v)) if n == "f32FloatAttr" else bool(v) if n == "s64BoolAttr" else v, env)
            return False
        if n == "optionalS64IntegerAttr":
            name = self.ev(raw[1], env)
            if name not in at:
                return True
            self.out(raw[0], at[name], env)
            return False
        if n in ("s64IntegerArrayAttr", "f32FloatArrayAttr", "stringArrayAttr"):
            name = self.ev(raw[1], env)
            if name not in at:
                if n == "stringArrayAttr":
                    return False  # what was there stays
                d = self.ev(raw[2], env) if len(raw) > 2 else []
                self.fill(raw[0], d if isinstance(d, list) else [d], env)
                return False
            self.fill(raw[0], at[name], env)
            return False
        if n == "toValidTorchType" or n == "op":
            raise AnalysisError(n)
        raise AnalysisError(f"method {n} of the binder")

    def argument(self, x, env):
        if x[0] in ("name", "index", "attr"):
            try:
                return self.ev(x, env)
            except KeyError:
                return None
            except AnalysisError:
                if x[0] == "attr" and isinstance(self.ev(x[1], env), Struct):
                    return None
                raise
        return self.ev(x, env)

    def binder_call(self, n, args, raw, env):
        cands = [f for f in self.fns.get("binder", {}).get(n, ()) if self.takes(f, args)]
        if not cands:
            raise AnalysisError(f"method {n} of the binder")
        f, scope = cands[0], {"op": Obj(kind="bop"), "@binder": True}
        for k, p in enumerate(f.params):
            if k < len(args):
                v = args[k] if self.by_ref(f, k) else self.converted(f, k, copied(args[k]))
            else:
                d = self.default_of(f, k)
                if d is None:
                    raise AnalysisError(f"no default of {p} of {n}")
                v = self.converted(f, k, self.ev(cpp.expr(d), {}))
            scope[p] = v
        r = None
        try:
            self.block(self.body(f.body), scope)
        except Return as x:
            r = None if x.v == [] else x.v  # {}, of a type
        for k, x in enumerate(raw or ()):
            if k < len(f.params) and self.by_ref(f, k) and not isinstance(scope[f.params[k]], list):
                self.out(x, self.converted(f, k, scope[f.params[k]]), env)
        return r

    def takes(self, f, args):
        ps = self.params_of(f) if f.params else []
        if len(args) > len(ps) or any("=" not in p for p in ps[len(args):]):
            return False
        return all(isinstance(a, list) == (re.search(r"SmallVector|ArrayRef", " ".join(p)) is not None) for a, p in zip(args, ps) if a is not None and not (a == [] and "&" not in p))

    def converted(self, f, k, v):
        t = " ".join(x for x in self.params_of(f)[k] if x not in ("const", "&")).split("=")[0].split()[:-1]
        if v == [] and t and t[-1] in ("float", "bool", "int64_t", "int"):
            v = 0  # {}
        if isinstance(v, (int, float)):
            if t == ["float"]:
                return f32(float(v))
            if t == ["bool"]:
                return bool(v)
            if t == ["int64_t"] or t == ["int"]:
                return int(v)
        return v

    def on_bop(self, b, n, targ, raw, env):
        """The operator, as the binder sees it: with attributes of the builtin dialect."""
        if n == "getAttr":
            k = self.ev(raw[0], env)
            if not k.startswith("torch.onnx."):
                return None
            k = k[len("torch.onnx."):]
            return Obj(kind="iattr", value=self.op.attrs[k]) if self.op.attrs.get(k) is not None else None
        if n == "hasAttr":
            return self.op.attrs.get(self.ev(raw[0], env)[len("torch.onnx."):]) is not None
        if n == "getResult" and self.ev(raw[0], env) >= len(self.op.results):
            raise Stop("a result there is not")
        return self.on_op(b, n, targ, raw, env)

    ATTRS = {"IntegerAttr": int, "FloatAttr": float, "StringAttr": str, "ArrayAttr": list, "DenseI64ArrayAttr": None, "ElementsAttr": None, "BoolAttr": bool}

    def on_iattr(self, b, n, targ, raw, env):
        v = b.value
        if n == "getType":
            return D("si64" if isinstance(v, int) else "f32")
        if n in ("getSInt", "getInt") and isinstance(v, int) or n in ("getValue", "getValueAsDouble") and isinstance(v, float) or n in ("str", "getValue", "strref") and isinstance(v, str):
            return v
        if n in ("getUInt",):
            raise Stop("the unsigned value of a signed attribute")
        if isinstance(v, list):
            l = [Obj(kind="iattr", value=x) for x in v]
            if n in ("getValue", "getAsRange"):
                return l
            if n in ("size", "empty", "begin", "end"):
                return self.on_list(l, n, [])
        raise AnalysisError(f"method {n} of an attribute")

    def on_op(self, b, n, targ, raw, env):
        o = self.op
        a = [self.ev(x, env) for x in raw]
        if n == "getOperand":
            if a[0] >= len(o.operands):
                raise Stop(f"operand {a[0]}")
            return o.operands[a[0]]
        if n == "getNumOperands":
            return len(o.operands)
        if n == "getOperands":
            return o.operands
        if n == "getNumResults":
            return len(o.results)
        if n == "getResultTypes":
            return list(o.results)
        if n == "getResult":
            return V(("result", a[0]), o.results[a[0]])
        if n == "getResults":
            return [V(("result", i), t) for i, t in enumerate(o.results)]
        if n == "getOperandTypes":
            return [v.ty for v in o.operands]
        if n == "getLoc":
            return Obj(kind="loc")
        if n == "getContext":
            return Obj(kind="ctx")
        if n in ("getAttrDictionary", "getAttrs"):
            return [Obj(kind="named", name="name", value="onnx.?")] + [Obj(kind="named", name="torch.onnx." + k, value=v) for k, v in sorted(o.attrs.items())]
        if n == "getRegions":
            return []
        if n in ("hasAttr", "getAttr"):
            k = a[0].split(".")[-1]
            if n == "hasAttr" or k not in o.attrs:
                return (k in o.attrs) if n == "hasAttr" else None
            return o.attrs[k]
        raise AnalysisError(f"method {n} of the operator")

    def on_named(self, b, n, targ, raw, env):
        if n in ("getName", "getValue"):
            return b.name if n == "getName" else b.value
        raise AnalysisError(f"method {n} of an attribute")

    def on_loc(self, b, n, targ, raw, env):
        raise AnalysisError(f"method {n} of a location")

    on_ctx = on_loc

    def on_region(self, b, n, targ, raw, env):
        if n in ("begin", "end"):
            return Obj(kind="loc")
        raise AnalysisError(f"method {n} of a region")

    def on_block(self, b, n, targ, raw, env):
        if n == "getArgument":
            return b.args[self.ev(raw[0], env)]
        if n == "getArguments":
            return list(b.args)
        raise AnalysisError(f"method {n} of a block")

    def on_rewriter(self, b, n, targ, raw, env):
        a = [self.ev(x, env) for x in raw]
        if n == "notifyMatchFailure":
            return LR(False, a[1] if len(a) > 1 else "")
        if n == "replaceOpWithNewOp":
            v = self.create(self.resolve(targ, env).split("::")[-1], a[1:])
            self.result = v if isinstance(v, list) else [v]
            return v
        if n == "replaceOp":
            v = a[1]
            self.result = v if isinstance(v, list) else [v]
            if a[0] is self.op and len(self.result) != len(self.op.results):
                raise Stop(f"{len(self.result)} values replace {len(self.op.results)} results")
            return None
        if n in ("create", "createOrFold"):
            return self.create(targ.split("::")[-1], a)
        if n == "getType":
            t = targ.split("<")[0].split("::")[-1]
            if t in ("QUInt8Type", "QInt8Type", "QInt16Type", "QInt32Type"):
                return D({"QUInt8Type": "qu8", "QInt8Type": "qi8", "QInt16Type": "qi16", "QInt32Type": "qi32"}[t])
            if t not in TYPES:
                raise AnalysisError(f"getType<{t}>")
            return self.type_get(TYPES[t], a)
        if n in ("getI64IntegerAttr", "getF64FloatAttr", "getBoolAttr", "getStringAttr", "getF32FloatAttr", "getI32IntegerAttr", "getSI64IntegerAttr"):
            v = a[0]
            return bool(v) if n == "getBoolAttr" else float(v) if "Float" in n else int(v) if "Int" in n else v
        if n == "getNamedAttr":
            return Obj(kind="named", name=a[0], value=a[1])
        if n in ("getIntegerAttr", "getFloatAttr"):
            v = a[1]
            return float(v) if n == "getFloatAttr" else int(v)
        if n in ("getF64Type", "getF32Type", "getF16Type", "getBF16Type", "getI1Type", "getI64Type", "getI32Type"):
            return D(n[3:-4].lower())
        if n in ("getIntegerType",):
            a = [x for x in a if not isinstance(x, Obj)]
            s = "" if len(a) < 2 else {"Signed": "s", "Unsigned": "u", "Signless": "", True: "s", False: "u"}[a[1]]
            return D(f"{s}i{a[0]}")
        if n in ("getContext",):
            return Obj(kind="ctx")
        if n in ("getLoc", "getUnknownLoc"):
            return Obj(kind="loc")
        if n == "createBlock":
            r = a[0]
            if isinstance(r, Ptr):
                r = r.env[r.n]
            if not isinstance(r, Obj) or r.kind != "region" or r.block is not None:
                raise AnalysisError("a block of another form")
            tys = next((x for x in a[1:] if isinstance(x, list) and all(isinstance(y, Ty) for y in x)), [])
            k, self.blocks = self.blocks, self.blocks + 1
            r.block = Obj(kind="block", args=[V(f"b{k}_{i}", t) for i, t in enumerate(tys)], end=None)
            self.open.append(r.block)
            return r.block
        if n in ("setInsertionPoint", "setInsertionPointAfter"):
            return None
        raise AnalysisError(f"method {n} of the rewriter")


CODES = {"Byte": 0, "Char": 1, "Short": 2, "Int": 3, "Long": 4, "Half": 5, "Float": 6, "Double": 7, "ComplexHalf": 8, "ComplexFloat": 9, "ComplexDouble": 10, "Bool": 11, "QInt8": 12, "QUInt8": 13, "QInt32": 14, "BFloat16": 15}
DT = {"qi8": 12, "qu8": 13, "qi32": 14, "ui8": 0, "si8": 1, "si16": 2, "si32": 3, "si64": 4, "f16": 5, "f32": 6, "f64": 7, "complex<f32>": 9, "i1": 11, "bf16": 15}


def outcome(fns, handler, operands, results, attrs):
    """(terms of the results) | 'declined' | 'crash: ...'; AnalysisError where it cannot be read."""
    binder, body, params = handler
    op = Obj(kind="op", operands=operands, results=results, attrs=attrs)
    r = Run(fns, op)
    env = {params[0]: Obj(kind="binder", op=op), params[1]: Obj(kind="rewriter")}
    try:
        r.block(r.body(body), env)
        v = None
    except Return as x:
        v = x.v
    except Stop as x:
        return f"crash: {x}"
    if isinstance(v, LR) and v.ok and r.result is not None:
        return "; ".join(show(t.term) for t in r.result + r.effects)
    if isinstance(v, LR) and not v.ok:
        return "declined"
    raise AnalysisError("neither a replacement nor a failure")


# ---- cases -------------------------------------------------------------------

def parse_type(s):
    if s == "-":
        return Ty("none")
    if s.startswith("["):
        return Ty("list", of=parse_type(s[1:-1]))
    e, _, d = s.partition(":")
    return Ty("vtensor", [int(x) for x in e.split(",") if x], D(d or "f32"))


def parse_value(s):
    if s.startswith("["):
        return [parse_value(x) for x in s[1:-1].split(",") if x]
    for f in (int, float):
        try:
            return f(s)
        except ValueError:
            pass
    return s


def parse_case(c):
    c, _, a = c.partition("|")
    i, _, o = c.partition("->")
    ops = []
    for k, s in enumerate(i.split()):
        t = parse_type(s)
        ops.append(V(None if t.kind == "none" else f"x{k}", t))
    attrs = {k: parse_value(v) for k, v in (x.split("=", 1) for x in a.split())}
    return ops, [parse_type(s) for s in o.split() or [":"]], attrs


def functions_of(repo, fns):
    fns = dict(fns)
    d = os.path.join(repo, "lib/Conversion/TorchOnnxToTorch")
    fns["binder"] = {}
    for f in cpp.functions(cpp.tokens(read(os.path.join(repo, "include/torch-mlir/Conversion/TorchOnnxToTorch/Patterns.h")))):
        fns["binder"].setdefault(f.name, []).append(f)
    fns["struct"] = {m[1]: re.findall(r"(\w+)(?: = [^;]*)?;", m[2]) for f in sorted(os.listdir(d)) if f.endswith(".cpp")
                     for m in re.finditer(r"\bstruct (\w+) \{([^{}]*)\}", read(os.path.join(d, f)))}
    for p in ("lib/Dialect/Torch/Utils/Utils.cpp", "lib/Dialect/Torch/Utils/TorchUpstream.cpp"):
        for f in cpp.functions(cpp.tokens(read(os.path.join(repo, p)))):
            fns.setdefault(f.name, []).append(f)
    return fns
