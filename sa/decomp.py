"""Runs the patterns of DecomposeComplexOps abstractly: the term of torch operators by
which a pattern replaces its operator, from the types and the constants of its operands."""

import os
import re

from . import cpp, onnxrun
from .cpp import Return, Stop
from .interp import AnalysisError
from .onnxrun import D, It, LR, Obj, Run, Ty, V, show
from .torchfacts import read

FILE = "lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp"
TD = ("include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td", "include/torch-mlir/Dialect/Torch/IR/TorchOps.td")
UTILS = ("lib/Dialect/Torch/Utils/Utils.cpp", "lib/Dialect/Torch/Utils/TorchUpstream.cpp")


def camel(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_") if p)


def definitions(repo):
    """class name -> (operator, operand names, result names, result types)"""
    out = {}
    for f in TD:
        for m in re.finditer(r'^def Torch_(\w+Op)\b[^{]*?: Torch_Op<\s*"([\w.]+)".*?\{(.*?)^\}', read(os.path.join(repo, f)), re.M | re.S):
            a = re.search(r"let arguments = \(ins(.*?)\n?\s*\);", m[3], re.S)
            r = re.search(r"let results = \(outs(.*?)\n?\s*\);", m[3], re.S)
            names = lambda x: re.findall(r"([\w<>, ]+?)\s*:\s*\$(\w+)", x[1]) if x else []
            ops, res = names(a), names(r)
            out[m[1]] = ("torch." + m[2], [n for _, n in ops], [n for _, n in res], [t.strip() for t, _ in res])
    return out


RESULT = {"Torch_IntType": "int", "Torch_FloatType": "float", "Torch_BoolType": "bool", "Torch_StringType": "str", "AnyTorchListOfTorchIntType": "list", "AnyTorchScalarType": "number", "Torch_NumberType": "number",
          "Torch_DeviceType": "device", "AnyTorchListOfTensorType": "list", "AnyTorchOptionalIntType": "int"}


class Decompose(Run):
    def __init__(self, fns, op, defs):
        super().__init__(fns, op)
        self.defs = defs

    def candidates(self, name):
        """A member function of another pattern is not meant by its name."""
        l = self.fns[name]
        return [f for f in l if f.cls == self.cls] or [f for f in l if not f.cls] or l

    def class_env(self, f):
        return self.tenv if f.cls == self.cls else {}

    def op_value(self, name, args, types):
        if name not in ("ConstantIntOp", "ConstantFloatOp", "ConstantBoolOp", "ConstantStrOp", "ConstantNoneOp", "PrimListConstructOp") and not types and name in self.defs:
            t = [RESULT.get(x) for x in self.defs[name][3]]
            if len(t) == 1 and t[0]:
                types = [Ty(t[0])]
        if name == "ConstantBoolOp" and args and isinstance(args[-1], V):
            raise AnalysisError("a constant of a value")
        if name == "RuntimeAssertOp":
            self.effects.append(V(("RuntimeAssertOp", self.term(args[0])), None))
            return None
        return super().op_value(name, args, types)

    def on_root(self, b, n, targ, raw, env):
        o = self.op
        _, names, results, _ = self.defs[o.cls]
        if n == "getType" or n == "getResult":
            i = self.ev(raw[0], env) if raw else 0
            if i >= len(o.results):
                raise Stop(f"result {i}")
            return o.results[i] if n == "getType" else V(("result", i), o.results[i])
        if n == "getOperands":  # also what an operation with variadic operands calls them
            return list(o.operands)
        for i, x in enumerate(names):
            if n == "get" + camel(x):
                return o.operands[i]
        for i, x in enumerate(results):
            if n == "get" + camel(x):
                return V(("result", i), o.results[i])
        if n in ("emitError", "emitOpError"):
            return LR(False)
        if n in ("getOperation",):
            return b
        if n in ("emitWarning", "emitRemark"):
            return None
        if n == "getODSOperands":
            return [o.operands[self.ev(raw[0], env)]]
        return self.on_op(b, n, targ, raw, env)

    def method(self, b, n, raw, env, be=None):
        base = n.split("<")[0]
        if base.startswith("get") and (isinstance(b, V) and isinstance(b.term, tuple) or isinstance(b, list) and b and isinstance(b[0], V) and isinstance(b[0].term, tuple) and b[0].term[0] == "res"):
            t = b.term if isinstance(b, V) else b[0].term[1]
            d = self.defs.get(t[0])
            if d:
                l = b if isinstance(b, list) else [b]
                for i, x in enumerate(d[2]):
                    if base == "get" + camel(x) and base not in ("getResult", "getResults") and i < len(l):
                        return l[i]
                if base == "getResult" and isinstance(b, list):
                    return b[self.ev(raw[0], env)]
                if base == "getResults":
                    return l
        if base == "getDefiningOp" and isinstance(b, V) and "<" in n:
            t = n.split("<")[1][:-1].split("::")[-1]
            if t in onnxrun.CONST:
                return b if type(b.term) is onnxrun.CONST[t] else None
            if isinstance(b.term, tuple):
                return b if b.term[0] == t else None
            return None
        if base == "getDefiningOp" and isinstance(b, V) and isinstance(b.term, (int, float, bool)):
            return Obj(kind="constant", value=b)
        return super().method(b, n, raw, env, be)

    def on_value(self, b, n, targ, a):
        if n == "use_empty":
            return False
        if n in ("getValue", "getValueAttr") and not isinstance(b.term, (tuple,)):
            return b.term
        if n == "getElements" and isinstance(b.term, tuple) and b.term[0] == "PrimListConstructOp":
            return list(b.elements) if hasattr(b, "elements") else [V(t, kind_of(t)) for t in b.term[1:]]
        return super().on_value(b, n, targ, a)

    def casting(self, what, targ, v):
        if isinstance(v, Obj) and v.kind == "constant":
            ok = type(v.value.term) is onnxrun.CONST.get(targ.split("::")[-1])
            return ok if what.startswith("isa") else v.value if ok else None
        t = targ.split("::")[-1]
        if isinstance(v, V) and t in ("Value", "Attribute", "IntegerAttr"):  # of an OpFoldResult
            ok = (type(v.term) is int) == (t != "Value")
            return ok if what.startswith("isa") else None if not ok else v.term if t == "IntegerAttr" else v
        return super().casting(what, targ, v)

    def name(self, n):
        if n.endswith("Layout::Strided"):
            return 0
        return super().name(n)

    def matched(self, v, pat, env):
        n = pat[1][1].split("::")[-1] if pat[0] == "call" and pat[1][0] == "name" else ""
        if isinstance(v, V) and pat[0] == "call" and pat[2]:
            x = pat[2][0]
            out = x[2][1] if x[0] == "un" else x[1]
            if n == "m_TorchListOfConstantBools":
                if not (isinstance(v.term, tuple) and v.term[0] == "PrimListConstructOp" and all(isinstance(x, bool) for x in v.term[1:])):
                    return False
                env[out] = list(v.term[1:])
                return True
            if n == "m_TorchConstantDevice":
                if v.ty and v.ty.kind == "device" and isinstance(v.term, str):
                    env[out] = v.term
                    return True
                return False
        return super().matched(v, pat, env)

    def builtin(self, n, targ, a, full, raw, env):
        if n == "getListConstructElements":
            l = a[1]
            v = a[0]
            if isinstance(v, V) and isinstance(v.term, tuple) and v.term[0] == "PrimListConstructOp":
                l.extend(self.elements(v))
                return (True,)
            return (False,)
        if n == "getTypeForScalarType" and len(a) == 2:
            c = a[1]
            d = {v: k for k, v in onnxrun.DT.items()}.get(c)
            return (D(d) if d else None,)
        if n in ("static_assert", "isAssumingStrictSymbolicShapes"):
            return (False,)
        if n == "getContext":
            return (Obj(kind="ctx"),)
        if n == "getTypeForTorchType":
            t = [x for x in a if isinstance(x, Ty)][0]
            if t.kind in ("int", "float"):
                return (D("si64" if t.kind == "int" else "f64"),)
            raise Stop(f"the type of {t}")
        if n in ("max_element", "min_element") and isinstance(a[0], It):
            l = a[0].l
            i = (max if n[1] == "a" else min)(range(a[0].i, a[1].i), key=lambda i: (l[i], -i) if n[1] == "a" else (l[i], i))
            return (It(l, i),)
        if n == "distance":
            return (a[1].i - a[0].i,)
        if n in ("sort", "llvm::sort") and isinstance(a[0], It):
            l = a[0].l
            if raw[0][0] == "call" and raw[0][1][0] == "attr" and raw[0][1][2] == "rbegin":
                l = self.ev(raw[0][1][1], env)
                l.sort(reverse=True)
            elif len(a) == 2:
                l[a[0].i:a[1].i] = sorted(l[a[0].i:a[1].i])
            else:
                raise AnalysisError("a sort by another order")
            return (None,)
        if n == "find" and isinstance(a[0], It):
            l = a[0].l
            return (It(l, next((i for i in range(a[0].i, a[1].i) if l[i] == a[2]), a[1].i)),)
        if n == "find" and isinstance(a[0], list):
            return (It(a[0], next((i for i, x in enumerate(a[0]) if x == a[1]), len(a[0]))),)
        if n == "count" and isinstance(a[0], list):
            return (sum(x == a[1] for x in a[0]),)
        if n == "iota_range":
            return (list(range(a[0], a[1] + (1 if a[2] else 0))),)
        if n == "back_inserter":
            return (It(a[0], len(a[0])),)
        if n == "transform" and isinstance(a[0], It) and len(a) == 4:
            for i, x in enumerate(a[0].l[a[0].i:a[1].i]):
                y, j = self.apply(a[3], [x]), a[2].i + i
                if j < len(a[2].l):
                    a[2].l[j] = y
                else:
                    a[2].l.append(y)
            return (None,)
        if n == "get" and full.split("::")[-2] == "ComplexType":
            return (D(f"complex<{a[0].n}>"),)
        if n == "optional":
            return (a[0] if a else None,)
        if n in ("cos", "sin", "tan", "tanh", "cosh", "lgamma", "atan", "acos", "log2", "round", "trunc", "isnan", "isinf", "erf"):
            import math
            return (getattr(math, n)(a[0]),)
        if n in ("getInf", "getLargest") and isinstance(a[0], Obj):
            v = float("inf") if n == "getInf" else {"f32": 3.4028234663852886e38, "f64": 1.7976931348623157e308, "f16": 65504.0, "bf16": 3.3895313892515355e38}.get(a[0].of.n)
            return (-v if len(a) > 1 and a[1] else v,)
        return super().builtin(n, targ, a, full, raw, env)

    def on_semantics(self, b, n, targ, raw, env):
        raise AnalysisError(f"method {n} of a float's semantics")

    def on_dtype(self, d, n, a):
        if n == "getFloatSemantics":
            return Obj(kind="semantics", of=d)
        if n == "isIntOrIndex" or n == "isInteger" and not a:
            return d.cls == "int"
        return super().on_dtype(d, n, a)

    def on_rewriter(self, b, n, targ, raw, env):
        if n == "replaceAllUsesWith":
            a, v = (self.ev(x, env) for x in raw)
            if isinstance(a, V) and isinstance(a.term, tuple) and a.term[0] == "result":
                self.result = self.result or [None] * len(self.op.results)
                self.result[a.term[1]] = v
                return None
            raise AnalysisError("a replacement of other uses")
        if n == "eraseOp":
            return None
        return super().on_rewriter(b, n, targ, raw, env)

    def truth(self, v):
        if isinstance(v, list):  # an optional that has a value
            return True
        return super().truth(v)

    def ev(self, e, env):
        if e[0] == "post":
            v = self.ev(e[2], env)
            env[e[2][1]] = v + (1 if e[1] == "++" else -1)
            return v
        return super().ev(e, env)

    def elements(self, v):
        return list(getattr(v, "elements", None) or [V(t, kind_of(t)) for t in v.term[1:]])


def kind_of(t):
    if isinstance(t, bool):
        return Ty("bool")
    if isinstance(t, int):
        return Ty("int")
    if isinstance(t, float):
        return Ty("float")
    if t is None:
        return Ty("none")
    return None


def patterns(repo):
    """([(root class, class, {template parameter: argument}, function)], helpers)"""
    text = read(os.path.join(repo, FILE))
    fs = cpp.functions(cpp.tokens(text))
    fns, rewrite = {}, {}
    for f in fs:
        if f.name == "matchAndRewrite":
            rewrite[f.cls] = f
        else:
            fns.setdefault(f.name, []).append(f)
    for p in UTILS:
        for f in cpp.functions(cpp.tokens(read(os.path.join(repo, p)))):
            fns.setdefault(f.name, []).append(f)
    fns["struct"] = {}
    roots, params = {}, {}
    for m in re.finditer(r"(?:template\s*<([^>]*)>\s*)?(?:class|struct)\s+(\w+)\s*(?:final\s*)?:\s*public\s+(?:mlir\s*::\s*)?OpRewritePattern\s*<\s*([\w:]+)\s*>", text):
        roots[m[2]] = m[3].split("::")[-1]
        params[m[2]] = [x.split()[-1] for x in (m[1] or "").split(",") if x.strip()]
    out = []
    for m in re.finditer(r"(?:addPatternIfTargetOpIsIllegal|patterns\s*\.\s*add)\s*<\s*(\w+)\s*(?:<([^<>]*)>)?\s*>", text):
        c = m[1]
        if c not in roots or c not in rewrite:
            continue
        args = [x.strip().split("::")[-1] for x in (m[2] or "").split(",") if x.strip()]
        env = dict(zip(params[c], args))
        out.append((env.get(roots[c], roots[c]), c, env, rewrite[c]))
    return out, fns


def value(x, k, defs=None):
    """The operand a case writes as x: a tensor T2,?3:f32 (an extent ?3 the type leaves
    unknown, 3 where the term is tried), a number Sint of run time, a string 'x', a list."""
    if isinstance(x, str) and x.startswith("T"):
        e, _, d = x[1:].partition(":")
        return V(f"x{k}", Ty("vtensor", None if e == "*" else [-1 if s[0] == "?" else int(s) for s in e.split(",") if s], D(d)))
    if isinstance(x, str) and x.startswith("S"):  # a number known only at run time
        return V(f"x{k}", Ty(x[1:]))
    if isinstance(x, str):
        return V(x[1:-1], Ty("str"))
    if isinstance(x, list):
        l = [value(y, f"{k}0{i}") for i, y in enumerate(x)]
        v = V(("PrimListConstructOp",) + tuple(y.term for y in l), Ty("list", of=l[0].ty if l else None))
        v.elements = l
        return v
    return V(x, kind_of(x))


def types(x):
    if x and x[0][0] == "L":  # a list of tensors (L), or of what follows the L
        e = x[0][1:]
        return [Ty("list", of=Ty("vtensor") if not e else value(e, 0).ty if e[0] == "T" else Ty(e))]
    return [value(r, 0).ty for r in x]


def agree(a, b):
    """whether a value of the one type may stand for one of the other"""
    if a.kind != "vtensor" or b.kind != "vtensor":
        return a.kind == b.kind or "list" in (a.kind, b.kind)
    return a.sizes == b.sizes and (a.dtype and a.dtype.n) == (b.dtype and b.dtype.n)


def outcome(fns, defs, pattern, args, results):
    root, cls, tenv, f = pattern
    op = Obj(kind="root", cls=root, operands=[value(x, k) for k, x in enumerate(args)], results=types(results), attrs={})
    r = Decompose(fns, op, defs)
    env = {f.params[0]: op, f.params[1]: Obj(kind="rewriter")}
    r.cls, r.tenv = cls, {}
    for k, v in tenv.items():
        r.tenv["<" + k + ">"] = v
        if re.fullmatch(r"-?\d+", v):
            r.tenv[k] = int(v)
    env.update(r.tenv)
    try:
        r.block(r.body(f.body), env)
        v = None
    except Return as x:
        v = x.v
    except Stop as x:
        return f"crash: {x}"
    if isinstance(v, LR) and v.ok and r.result is not None:
        for i, (t, w) in enumerate(zip(r.result, op.results)):
            if isinstance(t, V) and isinstance(t.ty, Ty) and w is not None and not agree(t.ty, w):
                return f"crash: result {i} of type {t.ty} for {w}"
        return "; ".join(show(t.term) if t is not None else "None" for t in r.result + r.effects)
    if isinstance(v, LR) and not v.ok:
        if r.result is not None:
            return "crash: failure() after the operation is replaced"
        return "declined"
    raise AnalysisError("neither a replacement nor a failure")
