"""C36: the embedded library is a valid module with the interfaces its users expect.

The module text of AbstractInterpLibrary.cpp is verified function by function
(scopes, types, terminators, calls, operations of the dialect), its functions
are matched with the generator's, and their interfaces with the operators they
are called for."""

import ast
import os
import re

from sa.mlirlib import FILE
from sa.mlirverify import Verifier

GEN = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"

SIMPLE = {"int": "int", "float": "float", "bool": "bool", "str": "str", "device": "Device", "torch.device": "Device", "Any": "any"}
TENSOR = {"shape": "list<int>", "dtype": "tuple<int, int>"}
RESULT = {"shape": "list<int>", "dtype": "int"}


def of_annotation(a):
    """The torch type TorchScript gives an annotation."""
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        a = ast.parse(a.value, mode="eval").body
    if isinstance(a, (ast.Name, ast.Attribute)):
        return SIMPLE.get(ast.unparse(a))
    if isinstance(a, ast.Subscript):
        k = ast.unparse(a.value).split(".")[-1]
        xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        if k == "Union":
            return "number" if {ast.unparse(x) for x in xs} == {"int", "float", "complex"} else None
        ts = [of_annotation(x) for x in xs]
        if None in ts:
            return None
        if k in ("List", "list") and len(ts) == 1:
            return f"list<{ts[0]}>"
        if k == "Optional" and len(ts) == 1:
            return f"optional<{ts[0]}>"
        if k in ("Tuple", "tuple"):
            return f"tuple<{', '.join(ts)}>"
    return None


def of_operand(c, kind):
    """What an operand of an operator becomes in the library's functions."""
    c = c.split(":")[0].strip()
    t = TENSOR[kind]
    return {"AnyTorchTensorType": t, "Torch_NonValueTensorType": t, "AnyTorchOptionalTensorType": f"optional<{t}>", "AnyTorchOptionalNonValueTensorType": f"optional<{t}>",
            "AnyTorchListOfTensorType": f"list<{t}>", "AnyTorchListOfOptionalTensorType": f"list<optional<{t}>>", "AnyTorchListOfTorchBoolType": "list<bool>", "AnyTorchListOfTorchIntType": "list<int>",
            "AnyTorchListOfTorchFloatType": "list<float>", "AnyTorchListOfOptionalIntType": "list<optional<int>>", "AnyTorchOptionalBoolType": "optional<bool>", "AnyTorchOptionalDeviceType": "optional<Device>",
            "AnyTorchOptionalFloatType": "optional<float>", "AnyTorchOptionalGeneratorType": "any", "Torch_GeneratorType": "any", "AnyTorchOptionalIntType": "optional<int>",
            "AnyTorchOptionalListOfTorchFloatType": "optional<list<float>>", "AnyTorchOptionalListOfTorchIntType": "optional<list<int>>",
            "AnyTorchOptionalScalarType": "optional<float>" if kind == "shape" else "optional<number>", "AnyTorchScalarType": "float" if kind == "shape" else "number",
            "AnyTorchOptionalStringType": "optional<str>", "Torch_BoolType": "bool", "Torch_DeviceType": "Device", "Torch_FloatType": "float", "Torch_IntType": "int", "Torch_StringType": "str"}.get(c)


def of_results(outs, kind):
    r = []
    for c in outs:
        c = c.split(":")[0].strip()
        if c == "AnyTorchListOfTensorType":
            r.append(f"list<{TENSOR[kind]}>")
        elif c in ("AnyTorchOptionalTensorType", "AnyTorchTensorType", "AnyTorchOptionalNonValueTensorType", "Torch_NonValueTensorType", "AnyTorchScalarType"):
            r.append(RESULT[kind])
        else:
            return None
    return r[0] if len(r) == 1 else f"tuple<{', '.join(r)}>"


def run(ctx):
    ctx.rule("module", "each function of the embedded library is well-formed: values are defined in scope, once, and used with their types; calls and terminators match; the operations exist")
    ctx.rule("twin", "the library has exactly the functions of the generator, with its parameters' and results' types")
    ctx.rule("interface", "a function's parameters and results are those of the operator it is called for")
    ctx.rule("text", "the text is one module, and no function is defined twice")

    ctx.notes.append("operators whose operands need a conversion before the call (scalars given to shape functions as floats, tensors as sizes) are converted by ReifyAbstractInterpCalculationsUtils.cpp as it does now")
    v = Verifier(ctx.repo)
    ctx.ob(v.closed(), "text", "module", f"{FILE}:1", "the text is not one module")
    ctx.ob(not v.dup, "text", "functions", f"{FILE}:{v.dup[0][1] if v.dup else 1}", f"{v.dup[0][0] if v.dup else ''} is defined twice")
    called = set()
    for n, f in v.fns.items():
        bad = v.verify(n)
        w = f"{FILE}:{bad[0][0] if bad else f.line}"
        ctx.ob(not bad, "module", n, w, "; ".join(b[1] for b in bad[:2]))
    ctx.floor("module", 900)
    ctx.notes.append(f"{v.ops} operations in {len(v.fns)} functions")

    with open(os.path.join(ctx.repo, GEN), encoding="utf-8") as h:
        tree = ast.parse(h.read())
    defs = {}
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            m = re.match(r"(.*)〡(\w+)$", n.name)
            if m:
                defs[(m.group(1).replace("〇", "."), m.group(2))] = n
    for (op, kind), n in defs.items():
        f = v.fns.get(f"__torch_mlir_{kind}_fn.{op}")
        w = f"{GEN}:{n.lineno}"
        if not ctx.ob(f is not None, "twin", f"{op} {kind}", w, "the embedded library has no such function"):
            continue
        a = n.args.posonlyargs + n.args.args + n.args.kwonlyargs
        got = [of_annotation(x.annotation) if x.annotation is not None else None for x in a]
        bad = ""
        if len(got) != len(f.ins):
            bad = f"{len(f.ins)} parameters, the generator's function has {len(got)}"
        else:
            for x, g, t in zip(a, got, f.ins):
                if g is None:
                    ctx.undecided.append(f"{op} {kind}: the type of {x.arg}")
                elif g != t:
                    bad = f"{x.arg} is a {t}, the generator's a {g}"
        r = of_annotation(n.returns) if n.returns is not None else None
        if r is None:
            ctx.undecided.append(f"{op} {kind}: the type of the result")
        elif not bad and [r] != f.outs:
            bad = f"answers {', '.join(f.outs)}, the generator's function {r}"
        ctx.ob(not bad, "twin", f"{op} {kind}", f"{FILE}:{f.line}", bad)
    for n, f in v.fns.items():
        m = re.match(r"__torch_mlir_(\w+?)_fn\.(.*)$", n)
        if not m:
            continue
        kind, op = m.groups()
        ctx.ob((op, kind) in defs, "twin", f"{n}", f"{FILE}:{f.line}", "the generator has no such function")
        d = v.decls.get(op)
        if d is None or d.ins is None or d.outs is None or kind not in TENSOR:
            continue
        bad = ""
        if len(d.ins) != len(f.ins):
            bad = f"takes {len(f.ins)} arguments, the operator has {len(d.ins)} operands"
        else:
            for c, t in zip(d.ins, f.ins):
                e = of_operand(c, kind)
                if e is None:
                    ctx.undecided.append(f"{n}: an operand {c}")
                elif e != t:
                    bad = f"takes a {t} for the operand {c}"
        e = of_results(d.outs, kind)
        if e is None:
            ctx.undecided.append(f"{n}: the results {d.outs}")
        elif not bad and [e] != f.outs:
            bad = f"answers {', '.join(f.outs)} for results {', '.join(x.split(':')[0] for x in d.outs)}"
        ctx.ob(not bad, "interface", n, f"{FILE}:{f.line}", bad)
    ctx.floor("twin", 1700)
    ctx.floor("interface", 850)
