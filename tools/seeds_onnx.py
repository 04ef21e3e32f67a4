D = "lib/Conversion/TorchOnnxToTorch/"
MOCK = '''
# Compiles the handler alone (against mock.h) and looks at the term of torch
# operators by which it replaces the ONNX operator.
from onnxmock import terms


def expect(name, since, cases):
    got = terms(name, since, [c[:2] for c in cases])
    for (n, attrs, want), g in zip(cases, got):
        assert g in want, f"onnx.{name} with {attrs} becomes {g}, not {want[0]}"


'''

seed("C39-lpnorm-axis", "C39", D + "DefaultDomainGtoP.cpp",
     [('''binder.s64IntegerAttr(axis, "axis", -1) ||
                      binder.s64IntegerAttr(p, "p", 2) ||''', '''binder.s64IntegerAttr(axis, "axis", 1) ||
                      binder.s64IntegerAttr(p, "p", 2) ||''')],
     "an LpNormalization of three or more dimensions that leaves out axis",
     "the tensor is normalized along its second dimension where ONNX normalizes along the last",
     MOCK + '''
expect("LpNormalization", 1, [
    (1, {}, ["AtenDivTensorOp(x0, AtenNormScalarOptDimOp(x0, ConstantIntOp(2), PrimListConstructOp([ConstantIntOp(-1)]), ConstantBoolOp(true)))",
             "AtenDivTensorOp(x0, AtenNormScalarOptDimOp(x0, ConstantIntOp(2), PrimListConstructOp([ConstantIntOp(2)]), ConstantBoolOp(true)))"]),
])
''')
seed("C39-trilu-upper", "C39", D + "DefaultDomainQtoZ.cpp",
     [('binder.s64IntegerAttr(upper, "upper", 1) ||', 'binder.s64IntegerAttr(upper, "upper") ||')],
     "a Trilu that leaves out upper",
     "the lower triangle is kept where ONNX keeps the upper one",
     MOCK + '''
expect("Trilu", 14, [
    (1, {}, ["AtenTriuOp(x0, ConstantIntOp(0))"]),
    (2, {}, ["AtenTriuOp(x0, AtenItemOp(x1))"]),
    (1, {"upper": 0}, ["AtenTrilOp(x0, ConstantIntOp(0))"]),
])
''')
seed("C39-gelu-approximation", "C39", D + "DefaultDomainGtoP.cpp",
     [('binder.customOpNameStringAttr(approximate, "approximate", "none"))', 'binder.customOpNameStringAttr(approximate, "approximation", "none"))')],
     "a Gelu with approximate = tanh",
     "the tanh approximation a model asks for is ignored",
     MOCK + '''
expect("Gelu", 20, [
    (1, {}, ['AtenGeluOp(x0, ConstantStrOp("none"))']),
    (1, {"approximate": "tanh"}, ['AtenGeluOp(x0, ConstantStrOp("tanh"))']),
])
''')

# ---------------------------------------------------------------- C40
CUM = "AtenAddIntOp(AtenItemOp(x1), AtenMulIntOp(AtenIntBoolOp(AtenLtIntOp(AtenItemOp(x1), ConstantIntOp(0))), ConstantIntOp(3)))"
CUMSUM = MOCK + '''
axis = "''' + CUM + '''"
dims = f"PrimListConstructOp([{axis}])"
plain = f"AtenCumsumOp(x0, {axis}, ConstantNoneOp())"
back = f"AtenFlipOp(AtenCumsumOp(AtenFlipOp(x0, {dims}), {axis}, ConstantNoneOp()), {dims})"
expect("CumSum", 11, [
    (2, {}, [plain]),
    (2, {"exclusive": 1}, [f"AtenSubTensorOp({plain}, x0, ConstantIntOp(1))"]),
    (2, {"reverse": 1}, [back]),
    (2, {"exclusive": 1, "reverse": 1}, [f"AtenSubTensorOp({back}, x0, ConstantIntOp(1))"]),
])
'''
seed("C40-cumsum-not-flipped-back", "C40", D + "DefaultDomainAtoF.cpp",
     [('''          res = Torch::AtenFlipOp::create(rewriter, binder.getLoc(), resultType,
                                          cumsum, dims);''', '''          res = exclusive ? cumsum
                          : Torch::AtenFlipOp::create(rewriter, binder.getLoc(), resultType,
                                          cumsum, dims);''')],
     "a CumSum with both exclusive and reverse",
     "the reversed sums are left in reversed order before the operand is subtracted",
     CUMSUM)
seed("C40-mod-of-negatives", "C40", D + "DefaultDomainGtoP.cpp",
     [('''                  rewriter.replaceOpWithNewOp<Torch::AtenRemainderTensorOp>(
                      binder.op, resultType, self, other);
                  return success();
                });
  patterns.onOp("Mish"''', '''                  rewriter.replaceOpWithNewOp<Torch::AtenFmodTensorOp>(
                      binder.op, resultType, self, other);
                  return success();
                });
  patterns.onOp("Mish"''')],
     "an integer Mod with operands of different signs",
     "the remainder has the sign of the dividend where ONNX gives it that of the divisor",
     MOCK + '''
expect("Mod", 13, [
    (2, {}, ["AtenRemainderTensorOp(x0, x1)"]),
    (2, {"fmod": 1}, ["AtenFmodTensorOp(x0, x1)"]),
])
''')
seed("C40-shrink-bias-sign", "C40", D + "DefaultDomainQtoZ.cpp",
     [('''        Value inputSubBias = Torch::AtenSubScalarOp::create(
            rewriter, loc, inputType, input, constBias, /*alpha=*/constOne);''',
       '''        Value inputSubBias = Torch::AtenAddScalarOp::create(
            rewriter, loc, inputType, input, constBias, /*alpha=*/constOne);''')],
     "a Shrink with a bias other than zero, of values above lambd",
     "large positive values are moved away from zero instead of towards it",
     MOCK + '''
got = terms("Shrink", 9, [(1, {"bias": 1.5})])[0]
assert got and got.count("AtenAddScalarOp(x0") == 1 and got.count("AtenSubScalarOp(x0") == 1, got
''')
