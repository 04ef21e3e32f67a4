"""C38: the compiler numbers, converts and promotes dtypes as PyTorch does.

The functions of TorchUpstream.cpp, Utils.cpp, SimplifyDtypeCalculations.cpp,
torch_to_mlir_utils.cpp and TorchOnnxToTorch/Utils.cpp that map dtypes are
interpreted over the finite domains they work on: every dtype, every pair of
dtypes, every state of the promotion."""

import itertools
import os
import re

from sa import cpp
from sa.dtyperun import facts, combine, promote, PRETTY
from sa.interp import AnalysisError
from sa.torchfacts import upstream_scalar_codes, upstream_enum, enum_body, read, UPSTREAM_H, pytorch_enum

UP = "lib/Dialect/Torch/Utils/TorchUpstream.cpp"
UT = "lib/Dialect/Torch/Utils/Utils.cpp"
SD = "lib/Dialect/Torch/Transforms/SimplifyDtypeCalculations.cpp"
JIT = "projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp"
ONNX = "lib/Conversion/TorchOnnxToTorch/Utils.cpp"

STD = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15]
FP8 = [23, 24, 25, 26]

# The builtin type of each ScalarType (docs: signed integers, a boolean is i1).
BUILTIN = {
    "Byte": ("int", 8, "u"), "Char": ("int", 8, "s"), "Short": ("int", 16, "s"), "Int": ("int", 32, "s"), "Long": ("int", 64, "s"), "Bool": ("int", 1, ""),
    "Half": ("F16",), "BFloat16": ("BF16",), "Float": ("F32",), "Double": ("F64",),
    "ComplexHalf": ("complex", ("F16",)), "ComplexFloat": ("complex", ("F32",)), "ComplexDouble": ("complex", ("F64",)),
    "QInt8": ("QInt8",), "QUInt8": ("QUInt8",), "QInt16": ("QInt16",), "QInt32": ("QInt32",),
    "Float8_e5m2": ("Float8E5M2",), "Float8_e4m3fn": ("Float8E4M3FN",), "Float8_e5m2fnuz": ("Float8E5M2FNUZ",), "Float8_e4m3fnuz": ("Float8E4M3FNUZ",),
    "Float8_e8m0fnu": ("Float8E8M0FNU",), "Float4_e2m1fn_x2": ("Float4E2M1FN",),
}
ALIAS = {"Float32": "F32", "Float64": "F64", "Float16": "F16", "BFloat16": "BF16"}

# ONNX TensorProto.DataType of PyTorch's dtypes
ONNX_CODE = {1: "Float", 2: "Byte", 3: "Char", 5: "Short", 6: "Int", 7: "Long", 9: "Bool", 10: "Half", 11: "Double", 14: "ComplexFloat", 15: "ComplexDouble", 16: "BFloat16",
             17: "Float8_e4m3fn", 18: "Float8_e4m3fnuz", 19: "Float8_e5m2", 20: "Float8_e5m2fnuz"}
ONNX_MUST = {1, 2, 3, 6, 7, 9, 10, 11, 16}

FAIL = ("failure",)


def parse(ctx, path):
    p = os.path.join(ctx.repo, path)
    if not os.path.exists(p):
        raise AnalysisError(f"anchor vanished: {path}")
    return {f.name: f for f in cpp.functions(cpp.tokens(read(p)))}


def need(fns, name, path):
    if name not in fns:
        raise AnalysisError(f"anchor vanished: {name} in {path}")
    return f"{path}:{fns[name].line}"


class Rewriter:
    def __init__(self):
        self.result = None


def tname(n):
    n = n.split("::")[-1]
    n = n[:-4] if n.endswith("Type") else n
    return ALIAS.get(n, n)


def is_a(v, n):
    """isa<nType>(v)"""
    if n.startswith("Torch::"):
        return v == ("torch", tname(n))
    n = tname(n)
    if n == "Complex":
        return v[0] == "complex"
    if n == "Integer":
        return v[0] == "int"
    return v == (n,)


def call(it, n, args):
    last = n.split("::")[-1]
    m = re.match(r"isa<(.*)>$", last) or re.match(r"isa<(.*)>$", n)
    if m:
        return (any(is_a(args[0], x) for x in m[1].split(",")),)
    if re.match(r"(dyn_)?cast<", last) or re.match(r"(dyn_)?cast<", n):
        return (args[0],)
    if last == "get" and "::" in n:
        t = tname(n.rsplit("::", 1)[0])
        if t == "Integer":
            return (("int", args[1], args[2] if len(args) > 2 else ""),)
        if t == "Complex":
            return (("complex", args[0]),)
        return ((("torch", t) if n.startswith("Torch::") and t in ("Int", "Float", "Bool") else (t,)),)
    if last == "failure":
        return (FAIL,)
    if last == "success":
        return (("success",),)
    if last == "failed":
        return (args[0] == FAIL,)
    if last == "succeeded":
        return (args[0] != FAIL,)
    # the C API
    if last == "mlirIntegerTypeUnsignedGet":
        return (("int", args[1], "u"),)
    if last == "mlirIntegerTypeSignedGet":
        return (("int", args[1], "s"),)
    if last == "mlirIntegerTypeGet":
        return (("int", args[1], ""),)
    if last == "mlirComplexTypeGet":
        return (("complex", args[0]),)
    m = re.match(r"(?:mlir|torchMlirTorch)(\w+?)TypeGet$", last)
    if m:
        return ((ALIAS.get(m[1], m[1]),),)
    # matching and iteration
    if last in ("m_TorchListOfOptionalConstantInts", "m_TorchListOfConstantInts"):
        return (("into", args[0]),)
    if last == "matchPattern":
        if isinstance(args[1], tuple) and args[1][0] == "into":
            args[1][1].extend(args[0])
            return (True,)
        return None
    if last == "zip" or last == "zip_equal":
        return (list(zip(*args)),)
    if last in ("all_of", "any_of", "none_of"):
        vs = [it.apply(args[1], [x]) for x in args[0]]
        return ({"all_of": all, "any_of": any, "none_of": lambda v: not any(v)}[last](vs),)
    return None


def method(it, b, n, args):
    if n == "getContext":
        return ("context",)
    if isinstance(b, dict) and n in b:
        return (b[n],)
    if isinstance(b, (list, tuple)) and n in ("empty", "size", "push_back") and not (isinstance(b, tuple) and b and isinstance(b[0], str)):
        if n == "push_back":
            b.append(args[0])
            return (None,)
        return (len(b) if n == "size" else not b,)
    if n == "has_value":
        return (b is not None,)
    if n in ("value", "getValue"):
        if b is None:
            raise cpp.Stop("value of nothing")
        return (b,)
    if isinstance(b, Rewriter):
        if n == "notifyMatchFailure":
            return (FAIL,)
        if n.startswith("replaceOpWithNewOp<"):
            b.result = args[1]
            return (None,)
        if n in ("getI64IntegerAttr",):
            return (args[0],)
        if n == "getIntegerAttr":
            return (args[-1],)
        if n == "getIntegerType":
            return (("int", args[0], ""),)
        return None
    if isinstance(b, tuple) and b and isinstance(b[0], str):
        if n == "isSignedInteger":
            return (b[0] == "int" and b[2] == "s" and (not args or b[1] == args[0]),)
        if n == "isUnsignedInteger":
            return (b[0] == "int" and b[2] == "u" and (not args or b[1] == args[0]),)
        if n == "isSignlessInteger":
            return (b[0] == "int" and b[2] == "" and (not args or b[1] == args[0]),)
        if n == "isInteger":
            return (b[0] == "int" and (not args or b[1] == args[0]),)
        if n == "getElementType" and b[0] == "complex":
            return (b[1],)
        m = re.match(r"is(BF16|F16|F32|F64)$", n)
        if m:
            return (b == (m[1],),)
        if n == "getContext":
            return ("context",)
    return None


class World:
    def __init__(self, ctx):
        self.codes = upstream_scalar_codes(ctx.repo)
        n = max(self.codes.values()) + 1
        names = {"ScalarType::" + k: v for k, v in self.codes.items()}
        self.undefined = n
        names["ScalarType::Undefined"] = n
        names["ScalarType::NumOptions"] = n + 1
        names.update({"Signed": "s", "Unsigned": "u", "Signless": "", "std::nullopt": None, "nullopt": None})
        for e in ("Reduction", "MemoryFormat", "Layout", "EmbeddingBagMode", "ReductionType"):
            names.update({f"{e}::{k}": v for k, v in upstream_enum(ctx.repo, e).items()})
        self.fns = {}
        for f in (UP, UT, SD, ONNX, JIT):
            for k, v in parse(ctx, f).items():
                self.fns.setdefault(k, v)
        h = read(os.path.join(ctx.repo, UPSTREAM_H))
        m = re.search(r"struct ResultTypeState \{(.*?)\};", h, re.S)
        fields = re.findall(r"ScalarType (\w+)\s*=\s*ScalarType::(\w+)", m[1]) if m else []
        if len(fields) != 3:
            raise AnalysisError("anchor vanished: ResultTypeState")
        self.fields = fields
        self.it = cpp.Eval(names, self.fns, call, method)
        self.it.defaults = {"ResultTypeState": self.state, "SmallVector": list, "std :: optional": lambda: None}

    def state(self, **kw):
        s = {k: self.it.names["ScalarType::" + v] for k, v in self.fields}
        s.update(kw)
        return s

    def run(self, name, *args):
        """the result, or the Stop it ends with"""
        self.it.steps = 0
        try:
            return self.it.call(name, *args)
        except cpp.Stop as s:
            return s


def show(w, v):
    if isinstance(v, cpp.Stop):
        return f"a fatal error ({v})"
    if v is cpp.Missing or v == 0:
        return "uint8" if v == 0 else "uint8 (an entry the table leaves out)"
    if v == w.undefined:
        return "Undefined"
    names = {c: k for k, c in w.codes.items()}
    return PRETTY.get(v, names.get(v, str(v)))


def tables(ctx):
    w = World(ctx)
    at = need(w.fns, "promoteTypes", UP)
    p = facts()["p"]
    for a, b in itertools.product(STD, STD):
        got = w.run("promoteTypes", a, b)
        ctx.ob(got == p.get((a, b)), "promote", f"{PRETTY[a]} and {PRETTY[b]}", at, f"promote to {show(w, got)}, in PyTorch to {PRETTY.get(p.get((a, b)))}")
    for a in FP8 + [12, 13, 14]:
        got = w.run("promoteTypes", a, a)
        ctx.ob(got == a, "promote", f"{show(w, a)} with itself", at, f"promotes to {show(w, got)}")
    for a in FP8:
        for b in STD + [x for x in FP8 if x != a]:
            for x, y in ((a, b), (b, a)):
                got = w.run("promoteTypes", x, y)
                ctx.ob(isinstance(got, cpp.Stop) or got == w.undefined, "promote", f"{show(w, x)} and {show(w, y)}", at, f"promote to {show(w, got)}, PyTorch does not promote them")


def states(ctx):
    w = World(ctx)
    at = need(w.fns, "result_type", UP)
    names = [k for k, _ in w.fields]
    if set(names) != {"dimResult", "wrappedResult", "zeroResult"}:
        raise AnalysisError("ResultTypeState has other members")
    bad = {}
    n = 0
    for dim, zero, wrapped in itertools.product([None] + STD, [None] + STD, [None, 4, 6, 11, 9]):
        if dim is None and zero is None and wrapped is None:
            continue
        u = lambda c: w.undefined if c is None else c
        got = w.run("result_type", w.state(dimResult=u(dim), zeroResult=u(zero), wrappedResult=u(wrapped)))
        want = combine(dim, combine(zero, wrapped))
        n += 1
        key = (dim, zero is not None)
        bad.setdefault(key, [])
        if got != want:
            bad[key].append(f"dimensioned {PRETTY.get(dim, 'none')}, rank 0 {PRETTY.get(zero, 'none')}, number {PRETTY.get(wrapped, 'none')}: {show(w, got)}, PyTorch: {PRETTY[want]}")
    for (dim, z), xs in bad.items():
        ctx.ob(not xs, "categories", f"dimensioned operands of {PRETTY.get(dim, 'no type')}{' with' if z else ' without'} rank-0 operands", at, "; ".join(xs[:2]))


def lists(ctx):
    w = World(ctx)
    at = SD
    f = [x for x in cpp.functions(cpp.tokens(read(os.path.join(ctx.repo, SD)))) if x.name == "matchAndRewrite" and x.cls == "DecomposePromoteDtypesOp"]
    if len(f) != 1:
        raise AnalysisError(f"anchor vanished: DecomposePromoteDtypesOp in {SD}")
    at = f"{SD}:{f[0].line}"
    w.fns["matchAndRewrite"] = f[0]

    def run(ranks, dts):
        rw = Rewriter()
        op = {"getRanks": list(ranks), "getDtypes": list(dts)}
        r = w.run("matchAndRewrite", op, rw)
        return FAIL if r == FAIL else r if isinstance(r, cpp.Stop) else rw.result

    ops = [(r, d) for r in (0, 1, 3) for d in STD] + [(None, 4), (None, 7)]
    few = [(r, d) for r in (0, 2) for d in (0, 3, 4, 5, 6, 7, 9, 11, 15)] + [(None, 4), (None, 7)]
    for first in ops:
        xs = []
        for rest in [()] + [(x,) for x in ops] + ([(x, y) for x in few for y in few] if first in few else []):
            combo = (first,) + rest
            rs, ds = [r for r, _ in combo], [d for _, d in combo]
            got = run(rs, ds)
            try:
                want = promote(rs, ds)
            except KeyError:
                continue
            if got != want:
                xs.append(f"ranks {rs}, dtypes {[PRETTY[d] for d in ds]}: {'not promoted' if got == FAIL else show(w, got)}, PyTorch: {PRETTY[want]}")
        name = "a number" if first[0] is None else f"rank {first[0]}"
        ctx.ob(not xs, "operands", f"first operand {name} {PRETTY[first[1]]}", at, "; ".join(xs[:2]))
    for rs, ds in (([], []), ([1], [6, 4]), ([1, 2], [4])):
        got = run(rs, ds)
        ctx.ob(got == FAIL or isinstance(got, cpp.Stop), "operands", f"{len(rs)} ranks and {len(ds)} dtypes", at, f"are promoted to {got}")


def types(ctx):
    w = World(ctx)
    at = need(w.fns, "getTypeForScalarType", UT)
    back = need(w.fns, "getScalarTypeForType", UT)
    for n, t in BUILTIN.items():
        c = w.codes.get(n)
        if c is None:
            raise AnalysisError(f"no ScalarType::{n}")
        got = w.run("getTypeForScalarType", "context", c)
        ctx.ob(got == t, "type", f"the type of {n}", at, f"is {got}, not {t}")
        got = w.run("getScalarTypeForType", t)
        ctx.ob(got == c, "type", f"the dtype of {t}", back, f"is {show(w, got)}, not {n}")
    got = w.run("getTypeForScalarType", "context", w.undefined)
    ctx.ob(got == FAIL or isinstance(got, cpp.Stop), "type", "the type of Undefined", at, f"is {got}")
    # numbers
    for fn, args, want in [("getTorchTypeForScalarType", ("context", w.codes["Double"]), ("Float",)), ("getTorchTypeForScalarType", ("context", w.codes["Long"]), ("Int",)),
                           ("getDefaultDtypeForTorchScalar", (("Float",),), ("F32",)), ("getDefaultDtypeForTorchScalar", (("Int",),), ("int", 64, "s")), ("getDefaultDtypeForTorchScalar", (("Bool",),), ("int", 1, "")),
                           ("getBuiltInTypeForTorchScalar", (("Float",),), ("F64",)), ("getBuiltInTypeForTorchScalar", (("Int",),), ("int", 64, "s")), ("getBuiltInTypeForTorchScalar", (("Bool",),), ("int", 1, ""))]:
        a = need(w.fns, fn, UT)
        args = tuple(("torch", x[0]) if isinstance(x, tuple) else x for x in args)
        got = w.run(fn, *args)
        got = got[1:] if isinstance(got, tuple) and got[0] == "torch" else got
        ctx.ob(got == want, "type", f"{fn}({args[-1]})", a, f"is {got}, not {want}")
    for n, c in w.codes.items():
        if n not in ("Double", "Long"):
            got = w.run("getTorchTypeForScalarType", "context", c)
            ok = got == FAIL or isinstance(got, cpp.Stop) or n == "Bool" and got == ("torch", "Bool")
            ctx.ob(ok, "type", f"the type of a number of dtype {n}", need(w.fns, "getTorchTypeForScalarType", UT), f"is {got}")
    # TorchScript's importer
    name = next((f for f in ("getMlirTypeForTorchScalarTypeRaw", "getMlirTypeForTorchScalarType") if f in w.fns), None)
    if name is None:
        raise AnalysisError(f"anchor vanished: getMlirTypeForTorchScalarType in {JIT}")
    for n, c in w.codes.items():
        got = w.run(name, "context", c)
        empty = isinstance(got, list) or isinstance(got, cpp.Stop)
        must = n in ("Byte", "Char", "Short", "Int", "Long", "Half", "Float", "Double", "Bool", "BFloat16", "ComplexFloat", "ComplexDouble")
        ctx.ob(got == BUILTIN.get(n) or empty and not must, "type", f"the imported type of {n}", need(w.fns, name, JIT), f"is {'none' if empty else got}, not {BUILTIN.get(n)}")


def onnx(ctx):
    w = World(ctx)
    fn = "onnxDtypeIntToTorchDtypeInt"
    at = need(w.fns, fn, ONNX)
    for c in range(0, 27):
        got = w.run(fn, c)
        want = w.codes.get(ONNX_CODE.get(c))
        ctx.ob(got == want if c in ONNX_MUST else got is None or isinstance(got, cpp.Stop) or got == want, "onnx", f"ONNX data type {c}", at, f"becomes {show(w, got) if got is not None else 'nothing'}, it is {ONNX_CODE.get(c)}")


def enums(ctx):
    w = World(ctx)
    for e, want in (("Reduction", {"None": 0, "Mean": 1, "Sum": 2, "END": 3}), ("MemoryFormat", pytorch_enum("MemoryFormat.h", "MemoryFormat")), ("Layout", pytorch_enum("Layout.h", "Layout")),
                    ("EmbeddingBagMode", {"MODE_SUM": 0, "MODE_MEAN": 1, "MODE_MAX": 2})):
        have = upstream_enum(ctx.repo, e)
        for k, v in have.items():
            if k in want and k != "NumOptions":
                ctx.ob(want[k] == v, "enum", f"{e}::{k}", UPSTREAM_H, f"is {v}, PyTorch's is {want[k]}")
        ctx.ob(len([k for k in have if k in want]) >= 3, "enum", e, UPSTREAM_H, f"has {sorted(have)}")
    at = need(w.fns, "get_loss_reduction_enum", UP)
    for s, c in (("none", 0), ("mean", 1), ("sum", 2)):
        got = w.run("get_loss_reduction_enum", s)
        ctx.ob(got == c, "enum", f"the loss reduction '{s}'", at, f"is {got}, PyTorch's is {c}")
    at = need(w.fns, "get_reduction_enum", UP)
    for s in ("max", "amax", "mean", "min", "amin", "sum", "prod"):
        got = w.run("get_reduction_enum", s)
        want = upstream_enum(ctx.repo, "ReductionType").get(s[-3:].upper() if s not in ("mean", "prod") else s.upper())
        ctx.ob(got == want and want is not None, "enum", f"the reduction '{s}'", at, f"is {got}, not {want}")


def run(ctx):
    ctx.rule("promote", "two dtypes promote to the dtype PyTorch promotes them to")
    ctx.rule("categories", "dimensioned tensors, rank-0 tensors and numbers weigh in a promotion as in PyTorch")
    ctx.rule("operands", "lists of ranks and dtypes promote as PyTorch promotes such operands")
    ctx.rule("type", "a dtype code stands for one builtin type, and back")
    ctx.rule("onnx", "an ONNX data type becomes the torch dtype of the same type, or none")
    ctx.rule("enum", "enumerators shared with PyTorch have its numbers")
    for g in (tables, states, lists, types, onnx, enums):
        ctx.group(g)
    ctx.floor("promote", 250)
    ctx.floor("categories", 25)
    ctx.floor("operands", 40)
    ctx.floor("type", 90)
