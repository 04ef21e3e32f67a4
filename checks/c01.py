"""C01: integer codes of dtypes, layouts and memory formats."""

from sa.fxworld import *
from sa.torchfacts import *

# The compiler numbers these two itself (TorchUpstream.h), PyTorch 2.14 differs.
OWN_NUMBERING = {"Float8_e8m0fnu", "Float4_e2m1fn_x2", "QInt16"}


def code_of(ctx, literal, as_default):
    """(paths, world): importing `literal` as an int-typed operand."""
    w = World()
    t = w.jit("IntType")
    if as_default:
        ovl = w.overload("aten::foo", [("d", t, literal)], overload="bar")
        n = w.tensor_node("n", [5], op="call_function", target=ovl)
    else:
        ovl = w.overload("aten::foo", [("d", t)], overload="bar")
        n = w.tensor_node("n", [5], op="call_function", target=ovl, args=(literal,))
    return import_graph(ctx, w, f"import_stateless_graph[{show(literal)}]", [n, w.output(n)])


def legacy(ctx, want):
    """The codes of the legacy TorchDynamo importer."""
    from checks import c28

    may = ("KeyError", "Exception", "TypeError", "ValueError", "NotImplementedError")
    must = ["torch." + d for d in "uint8 int8 int16 int32 int64 float16 bfloat16 float32 float64 bool strided contiguous_format preserve_format channels_last".split()]
    for name, (code, what) in want.items():
        for as_default in (False, True):
            w = c28.world()
            x = c28.tnode(w, "x", [7])
            m = c28.call(w, "foo", [x] + ([] if as_default else [Q(name)]), params=[("a", w.jit("TensorType")), ("b", w.jit("IntType"), *([Q(name)] if as_default else []))])
            ps = c28.imp(ctx, w, f"import_fx_graph_as_func[{name}]", [x, m, c28.out(w, m)])
            decide(ctx, "code", f"{name}{' (default)' if as_default else ''}, legacy importer", ps,
                   lambda p: c28.need(View(p), "foo.x", ["arg0", f"int:{code}"]), may_raise=() if name in must else may)


def run(ctx):
    ctx.rule("code", "the constant emitted for a dtype/layout/memory format is the enumerator of the enum its consumer decodes it with; anything else is rejected")
    ctx.rule("required", "a dtype that has a tensor type also has a code")
    ctx.rule("enum", "the compiler's copy of ScalarType numbers the types as PyTorch does")
    up = upstream_scalar_codes(ctx.repo)
    pt = pytorch_scalar_codes()
    for n, c in sorted(up.items(), key=lambda x: x[1]):
        if n not in OWN_NUMBERING:
            ctx.ob(pt.get(n) == c, "enum", f"ScalarType::{n}", UPSTREAM_H, f"is {c}, PyTorch's is {pt.get(n)}")
    lay = pytorch_enum("Layout.h", "Layout")
    mem = pytorch_enum("MemoryFormat.h", "MemoryFormat")
    want = {f"torch.{d}": (up.get(e), "dtype") for d, e in DTYPE_ENUM.items()}
    want.update({f"torch.{d}": (lay.get(e), "layout") for d, e in LAYOUT_ENUM.items()})
    want.update({f"torch.{d}": (mem.get(e), "memory format") for d, e in MEMFMT_ENUM.items()})
    must = [f"torch.{d}" for d in (
        "uint8 int8 int16 int32 int64 float16 bfloat16 float32 float64 bool complex32 complex64 complex128".split())]
    must += ["torch.strided", "torch.contiguous_format", "torch.preserve_format", "torch.channels_last"]
    for name, (code, what) in want.items():
        for as_default in (False, True):
            def pred(p):
                v = View(p)
                ops = v.named("torch.aten.foo.bar")
                if len(ops) != 1 or len(ops[0].operands) != 1:
                    return f"the operation is not emitted with one operand: {v.ops}"
                c = v.const(ops[0].operands[0])
                if c is None or c[0] != "int":
                    return f"imported as {c}, not as an int constant"
                if c[1] != K(code):
                    return f"{what} {name} is imported as {show(c[1])}, its enumerator is {code}"
                return None

            cons = f"{name}{' (default)' if as_default else ''}"
            decide(ctx, "code", cons, code_of(ctx, Q(name), as_default), pred,
                   may_raise=() if name in must else ("KeyError", "TypeError", "RuntimeError", "ValueError", "NotImplementedError"))
    ctx.group(legacy, want)
    ctx.floor("code", 40)
