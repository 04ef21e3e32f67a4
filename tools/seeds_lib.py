GEN = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"
LIB = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"
PRE = """
import torch
import torch_mlir.jit_ir_importer.build_tools.abstract_interp_lib_gen as g
def f(name):
    return getattr(g, name.replace(".", "\\u3007").replace("|", "\\u3021"))
"""
EXE = """
# Executes the library that the compiler embeds (libexec.py).
import torch, libexec
lib = libexec.Lib()
"""


def c(text):
    """lines of MLIR as they stand in the string literals"""
    return "".join('"' + l.replace('"', '\\"') + '\\n"\n' for l in text.strip("\n").split("\n"))


seed("C37-qint-swapped", "C37", LIB,
     [(c('''
    %1 = torch.aten.eq.int %0#1, %int13 : !torch.int, !torch.int -> !torch.bool
    %2 = torch.prim.If %1 -> (!torch.int) {
      torch.prim.If.yield %int0 : !torch.int
    } else {
      %3 = torch.aten.eq.int %0#1, %int12 : !torch.int, !torch.int -> !torch.bool
'''), c('''
    %1 = torch.aten.eq.int %0#1, %int12 : !torch.int, !torch.int -> !torch.bool
    %2 = torch.prim.If %1 -> (!torch.int) {
      torch.prim.If.yield %int0 : !torch.int
    } else {
      %3 = torch.aten.eq.int %0#1, %int13 : !torch.int, !torch.int -> !torch.bool
'''))],
     "int_repr of a quint8 or qint8 tensor, in the library that the compiler embeds (the generator is right)",
     "the signed and the unsigned representation are exchanged",
     EXE + """
for q, d in ((torch.quint8, 13), (torch.qint8, 12), (torch.qint32, 14)):
    t = torch.quantize_per_tensor(torch.ones(2), 0.1, 0, q)
    want = {torch.uint8: 0, torch.int8: 1, torch.int32: 3}[torch.int_repr(t).dtype]
    assert lib.run("__torch_mlir_dtype_fn.aten.int_repr", (1, d)) == want, q
""")

seed("C37-base-of-rank", "C37", GEN,
     [("""    exponent_rank, exponent_dtype = exponent_rank_dtype
    ranks: List[Optional[int]] = [None, exponent_rank]
    dtypes = [get_dtype_of_scalar(self), exponent_dtype]
    return promote_dtypes(ranks, dtypes)
""", """    exponent_rank, exponent_dtype = exponent_rank_dtype
    ranks: List[Optional[int]] = [exponent_rank, exponent_rank]
    dtypes = [get_dtype_of_scalar(self), exponent_dtype]
    return promote_dtypes(ranks, dtypes)
""")],
     "a number raised to a tensor whose dtype is smaller than the number's",
     "the number takes part in the promotion like a tensor",
     PRE + """
for b in (2, 2.5):
    for d in (torch.int32, torch.int8, torch.float16, torch.int64, torch.float64):
        for s in ((), (2,)):
            want = torch.pow(b, torch.ones(s).to(d)).dtype
            assert f("aten.pow.Scalar|dtype")(b, (len(s), d)) == want, (b, d, s)
""")

seed("C37-indices-narrow", "C37", LIB,
     [(c('''
  func.func @"__torch_mlir_dtype_fn.aten.topk"(%arg0: !torch.tuple<int, int>, %arg1: !torch.int, %arg2: !torch.int, %arg3: !torch.bool, %arg4: !torch.bool) -> !torch.tuple<int, int> {
    %int4 = torch.constant.int 4
    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int
    %1 = torch.prim.TupleConstruct %0#1, %int4 : !torch.int, !torch.int -> !torch.tuple<int, int>
'''), c('''
  func.func @"__torch_mlir_dtype_fn.aten.topk"(%arg0: !torch.tuple<int, int>, %arg1: !torch.int, %arg2: !torch.int, %arg3: !torch.bool, %arg4: !torch.bool) -> !torch.tuple<int, int> {
    %int4 = torch.constant.int 4
    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int
    %1 = torch.prim.TupleConstruct %int4, %0#1 : !torch.int, !torch.int -> !torch.tuple<int, int>
'''))],
     "topk of any tensor but an int64 one, in the library that the compiler embeds",
     "the dtypes of the values and of the indices are exchanged",
     EXE + """
v, i = torch.topk(torch.ones(3), 2)
assert (v.dtype, i.dtype) == (torch.float32, torch.int64)
assert lib.run("__torch_mlir_dtype_fn.aten.topk", (1, 6), 2, -1, True, True) == (6, 4)
""")

seed("C35-window-in-padding", "C35", LIB,
     [(c('''
      %13 = torch.aten.add.int %arg0, %arg2 : !torch.int, !torch.int -> !torch.int
      %14 = torch.aten.ge.int %12, %13 : !torch.int, !torch.int -> !torch.bool
      %15 = torch.prim.If %14 -> (!torch.int) {
        %16 = torch.aten.sub.int %9, %int1 : !torch.int, !torch.int -> !torch.int
        torch.prim.If.yield %16 : !torch.int
      } else {
        torch.prim.If.yield %9 : !torch.int
      }
      torch.prim.If.yield %15 : !torch.int
    } else {
      torch.prim.If.yield %9 : !torch.int
    }
    return %10 : !torch.int
  }
'''), c('''
      %13 = torch.aten.add.int %arg0, %arg2 : !torch.int, !torch.int -> !torch.int
      %14 = torch.aten.gt.int %12, %13 : !torch.int, !torch.int -> !torch.bool
      %15 = torch.prim.If %14 -> (!torch.int) {
        %16 = torch.aten.sub.int %9, %int1 : !torch.int, !torch.int -> !torch.int
        torch.prim.If.yield %16 : !torch.int
      } else {
        torch.prim.If.yield %9 : !torch.int
      }
      torch.prim.If.yield %15 : !torch.int
    } else {
      torch.prim.If.yield %9 : !torch.int
    }
    return %10 : !torch.int
  }
'''))],
     "a pool with ceil_mode whose last window would start exactly where the input and its left padding end",
     "that window, which lies in the right padding only, is counted",
     EXE + """
for n in range(2, 9):
    for s in (1, 2, 3):
        for p in (0, 1):
            want = list(torch.nn.functional.avg_pool2d(torch.ones(1, 1, n, n), 2, s, p, True).shape)
            got = lib.run("__torch_mlir_shape_fn.aten.avg_pool2d", [1, 1, n, n], [2, 2], [s, s], [p, p], True, True, None)
            assert got == want, (n, s, p, got, want)
""")

seed("C36-unchecked-optional", "C36", LIB,
     [(c('''
  func.func @"__torch_mlir_dtype_fn.aten._safe_softmax"(%arg0: !torch.tuple<int, int>, %arg1: !torch.int, %arg2: !torch.optional<int>) -> !torch.int {
    %none = torch.constant.none
    %0 = torch.aten.__isnot__ %arg2, %none : !torch.optional<int>, !torch.none -> !torch.bool
    %1 = torch.prim.If %0 -> (!torch.int) {
      %2 = torch.prim.unchecked_cast %arg2 : !torch.optional<int> -> !torch.int
      torch.prim.If.yield %2 : !torch.int
'''), c('''
  func.func @"__torch_mlir_dtype_fn.aten._safe_softmax"(%arg0: !torch.tuple<int, int>, %arg1: !torch.int, %arg2: !torch.optional<int>) -> !torch.int {
    %none = torch.constant.none
    %0 = torch.aten.__isnot__ %arg2, %none : !torch.optional<int>, !torch.none -> !torch.bool
    %1 = torch.prim.If %0 -> (!torch.int) {
      torch.prim.If.yield %arg2 : !torch.int
'''))],
     "loading the library: an optional is yielded where an int is declared",
     "the whole library fails to parse, so no shape or dtype is inferred at all",
     EXE + """
lib.verify()
""")

seed("C36-value-of-branch", "C36", LIB,
     [(c('''
      torch.prim.If.yield %int1 : !torch.int
    } else {
      torch.prim.If.yield %arg1 : !torch.int
    }
    %2 = torch.aten.neg.int %1 : !torch.int -> !torch.int
    %3 = torch.aten.sub.int %1, %int1 : !torch.int, !torch.int -> !torch.int
    %4 = torch.aten.lt.int %arg0, %2 : !torch.int, !torch.int -> !torch.bool
'''), c('''
      %9 = torch.aten.neg.int %int1 : !torch.int -> !torch.int
      torch.prim.If.yield %int1 : !torch.int
    } else {
      %9 = torch.aten.neg.int %arg1 : !torch.int -> !torch.int
      torch.prim.If.yield %arg1 : !torch.int
    }
    %3 = torch.aten.sub.int %1, %int1 : !torch.int, !torch.int -> !torch.int
    %4 = torch.aten.lt.int %arg0, %9 : !torch.int, !torch.int -> !torch.bool
''')), (c('''
      %8 = torch.aten.format(%str_0, %arg0, %2, %3) : !torch.str, !torch.int, !torch.int, !torch.int -> !torch.str
      %9 = torch.aten.add.str %str, %8 : !torch.str, !torch.str -> !torch.str
      torch.prim.RaiseException %9, %none : !torch.str, !torch.none
      torch.prim.If.yield
    } else {
      torch.prim.If.yield
    }
    %6 = torch.aten.lt.int %arg0, %int0 : !torch.int, !torch.int -> !torch.bool
    %7 = torch.prim.If %6 -> (!torch.int) {
      %8 = torch.aten.add.int %arg0, %1 : !torch.int, !torch.int -> !torch.int
      torch.prim.If.yield %8 : !torch.int
    } else {
      torch.prim.If.yield %arg0 : !torch.int
    }
    return %7 : !torch.int
'''), c('''
      %8 = torch.aten.format(%str_0, %arg0, %9, %3) : !torch.str, !torch.int, !torch.int, !torch.int -> !torch.str
      %10 = torch.aten.add.str %str, %8 : !torch.str, !torch.str -> !torch.str
      torch.prim.RaiseException %10, %none : !torch.str, !torch.none
      torch.prim.If.yield
    } else {
      torch.prim.If.yield
    }
    %6 = torch.aten.lt.int %arg0, %int0 : !torch.int, !torch.int -> !torch.bool
    %7 = torch.prim.If %6 -> (!torch.int) {
      %8 = torch.aten.add.int %arg0, %1 : !torch.int, !torch.int -> !torch.int
      torch.prim.If.yield %8 : !torch.int
    } else {
      torch.prim.If.yield %arg0 : !torch.int
    }
    return %7 : !torch.int
'''))],
     "loading the library: a value defined in both branches of a conditional is used after it",
     "the library has no valid scopes and fails to parse",
     EXE + """
lib.verify()
""")
