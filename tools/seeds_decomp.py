D = "lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp"
MOCK = '''
# Compiles the pattern alone (against mock.h) and computes what the operators
# compute by which it replaces its operator.
import math
from decompmock import term

CALLS = dict(
    rank0=lambda v: v, ConstantIntOp=lambda v: v, ConstantFloatOp=lambda v: v, ConstantNoneOp=lambda: None, ConstantBoolOp=lambda v: v, true=True, false=False,
    AtenGtScalarOp=lambda a, b: a > b, AtenGeScalarOp=lambda a, b: a >= b, AtenLeScalarOp=lambda a, b: a <= b, AtenLtScalarOp=lambda a, b: a < b,
    AtenWhereScalarOtherOp=lambda c, a, b: a if c else b, AtenWhereScalarSelfOp=lambda c, a, b: a if c else b, AtenWhereSelfOp=lambda c, a, b: a if c else b,
    AtenMaximumOp=max, AtenMinimumOp=min, AtenMulScalarOp=lambda a, b: a * b, AtenMulTensorOp=lambda a, b: a * b, AtenMmOp=lambda a, b: a * b, AtenDivScalarOp=lambda a, b: a / b, AtenDivTensorOp=lambda a, b: a / b, AtenExpOp=math.exp, AtenExpm1Op=math.expm1,
    AtenSubScalarOp=lambda a, b, c=1: a - c * b, AtenAddScalarOp=lambda a, b, c=1: a + c * b, AtenAddTensorOp=lambda a, b, c=1: a + c * b, AtenSubTensorOp=lambda a, b, c=1: a - c * b,
    AtenLtIntOp=lambda a, b: a < b, AtenIntBoolOp=int, AtenSizeIntOp=lambda x, d: len(x), AtenMulIntOp=lambda a, b: a * b, AtenAddIntOp=lambda a, b: a + b, AtenSubIntOp=lambda a, b: a - b,
    AtenSliceTensorOp=lambda x, d, a, b, s: x[slice(a, b, s)], AtenSqueezeDimOp=lambda x, d: x[0] if len(x) == 1 else x)


def value(cls, op, **operands):
    t = term(cls, {n: n for n in operands}, op)
    return eval(t, dict(CALLS), operands)


'''

seed("C41-threshold-itself", "C41", D,
     [('''        AtenGtScalarOp::create(rewriter, loc,
                               selfType.getWithSizesAndDtype(
                                   selfType.getSizes(), rewriter.getI1Type()),
                               self, threshold);

    rewriter.replaceOpWithNewOp<AtenWhereScalarOtherOp>''', '''        AtenGeScalarOp::create(rewriter, loc,
                               selfType.getWithSizesAndDtype(
                                   selfType.getSizes(), rewriter.getI1Type()),
                               self, threshold);

    rewriter.replaceOpWithNewOp<AtenWhereScalarOtherOp>''')],
     "an element that equals the threshold",
     "an element that equals the threshold is kept where PyTorch replaces it",
     MOCK + '''
for x in (-1.0, 0.5, 2.0):
    got = value("DecomposeAtenThresholdOp", "AtenThresholdOp", self=x, threshold=0.5, value=20.0)
    assert got == (x if x > 0.5 else 20.0), f"threshold of {x} is {got}"
''')
seed("C41-elu-input-scale", "C41", D,
     [('''        AtenMulScalarOp::create(rewriter, loc, resType, minZeroX, inputScale);
    Value expX = AtenExpOp::create(rewriter, loc, resType, scaledMinZeroX);
    Value expXM1 = AtenSubScalarOp::create(rewriter, loc, resType, expX,
                                           constantOne, constantOne);
    Value scaledExpXM1 =
        AtenMulScalarOp::create(rewriter, loc, resType, expXM1, scale);''', '''        AtenMulScalarOp::create(rewriter, loc, resType, minZeroX, inputScale);
    Value expX = AtenExpOp::create(rewriter, loc, resType, scaledMinZeroX);
    Value expXM1 = AtenSubScalarOp::create(rewriter, loc, resType, expX,
                                           constantOne, constantOne);
    Value scaledExpXM1 =
        AtenMulScalarOp::create(rewriter, loc, resType, expXM1, inputScale);''')],
     "an elu whose scale is not its input scale (selu), of negative elements",
     "negative results are scaled by the input scale instead of the scale",
     MOCK + '''
for x in (-1.5, 0.0, 2.0):
    for s, i in ((1.0, 1.0), (1.05, 1.0), (2.0, 0.5)):
        got = value("DecomposeAtenEluOp", "AtenEluOp", self=x, alpha=1.25, scale=s, input_scale=i)
        want = s * x if x > 0 else s * 1.25 * (math.exp(i * x) - 1)
        assert abs(got - want) < 1e-9, f"elu of {x} with scales {s}, {i} is {got}, not {want}"
''')
seed("C41-select-last", "C41", D,
     [('''        AtenAddIntOp::create(rewriter, loc, one.getType(), start, one);
    Value slice = AtenSliceTensorOp::create(
        rewriter, loc,
        computeReductionType(rewriter, op, cast<BaseTensorType>(self.getType()),
                             dim,
                             /*keepDim=*/true),
        op.getSelf(), dim, start, startPlusOne, /*step=*/one);

    auto sliceTy''', '''        AtenAddIntOp::create(rewriter, loc, one.getType(), op.getIndex(), one);
    Value slice = AtenSliceTensorOp::create(
        rewriter, loc,
        computeReductionType(rewriter, op, cast<BaseTensorType>(self.getType()),
                             dim,
                             /*keepDim=*/true),
        op.getSelf(), dim, start, startPlusOne, /*step=*/one);

    auto sliceTy''')],
     "select with the index -1",
     "the end of the slice is 0 for the last element, so that nothing is selected",
     MOCK + '''
for i in (0, 2, -1, -3):
    got = value("DecomposeAtenSelectIntOp", "AtenSelectIntOp", self=[10, 20, 30], dim=0, index=i)
    assert got == [10, 20, 30][i], f"element {i} is {got}"
''')
