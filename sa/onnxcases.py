"""The uses of ONNX operators whose conversion C40 compares: operand types, result types
and attributes. A case is 'operands -> results | attributes'; a type is extents, with
':dtype' where it is not f32; '-' is an operand that is left out, '[...]' a list."""

U = "2,3,4 -> 2,3,4"  # one operand, one result
B = "2,3,4 2,3,4 -> 2,3,4"
P = "2,3,4 2,3,4 -> 2,3,4:i1"
L = "2,3,4:i1 2,3,4:i1 -> 2,3,4:i1"
I = "2,3,4:si32 2,3,4:si32 -> 2,3,4:si32"
RED = ["2,3,4 -> 1,1,1", "2,3,4 -> 2,1,4 | axes=[1]", "2,3,4 -> 2,4 | axes=[-2] keepdims=0", "2,3,4 2:si64 -> 1,3,1", "2,3,4 1:si64 -> 3,4 | keepdims=0", "2,3,4 -> 2,3,4 | noop_with_empty_axes=1", "2,3,4:si64 -> 1,1,1:si64"]
ARG = ["2,3,4 -> 1,3,4:si64", "2,3,4 -> 2,3:si64 | axis=-1 keepdims=0", "2,3,4 -> 2,1,4:si64 | axis=1 select_last_index=1"]
RND = ["2,3 -> 2,3", "2,3 -> 2,3:f64 | dtype=11", "2,3:f16 -> 2,3:f16", "2,3 -> 2,3:f16 | dtype=10"]
POOL = [f"2,3,8,9 -> {r} | kernel_shape=[2,3]{a}" for r, a in (
    ("2,3,7,7", ""), ("2,3,4,3", " strides=[2,3]"), ("2,3,9,9", " pads=[1,1,1,1]"), ("2,3,8,9", " pads=[1,1,0,1]"), ("2,3,8,9", " auto_pad=SAME_UPPER"), ("2,3,8,9", " auto_pad=SAME_LOWER"), ("2,3,7,7", " auto_pad=VALID"),
    ("2,3,4,3", " strides=[2,3] ceil_mode=1"), ("2,3,6,5", " dilations=[2,2]"))]
CONV = ["2,6,8,9 4,6,3,2 -> 2,4,6,8", "2,6,8,9 4,6,3,2 4 -> 2,4,6,8", "2,6,8,9 6,2,3,2 -> 2,6,6,8 | group=3", "2,6,8,9 4,6,3,2 -> 2,4,3,3 | strides=[2,3]", "2,6,8,9 4,6,3,2 -> 2,4,4,7 | dilations=[2,2]",
        "2,6,8,9 4,6,3,2 -> 2,4,8,10 | pads=[1,1,1,1]", "2,6,8,9 4,6,3,2 -> 2,4,8,10 | pads=[0,1,2,1]", "2,6,8,9 4,6,3,2 -> 2,4,8,9 | auto_pad=SAME_UPPER", "2,6,8,9 4,6,3,2 -> 2,4,8,9 | auto_pad=SAME_LOWER", "2,6,8,9 4,6,3,2 -> 2,4,6,8 | auto_pad=VALID",
        "2,6,8 4,6,3 -> 2,4,6", "2,6,8,9,7 4,6,3,2,2 -> 2,4,6,8,6"]

CASES = {
    **{n: [U] for n in ("Abs Asin Asinh Atan Atanh Acos Acosh Ceil Cos Cosh Erf Exp Floor Log Neg Identity IsNaN Mish HardSwish Reciprocal Relu Round Sigmoid Sin Sinh Tan Tanh Sqrt Sign Softplus Softsign").split()},
    **{n: [B] for n in "Add Sub Mul Div Pow PRelu".split()},
    "Pow": [B, "2,3:si64 2,3 -> 2,3:si64", "2,3 2,3:si64 -> 2,3"],
    **{n: [B, "2,3:si64 2,3:si64 -> 2,3:si64"] for n in "Div".split()},
    **{n: [P] for n in "Equal Less LessOrEqual Greater GreaterOrEqual".split()},
    **{n: [L] for n in "And Or Xor".split()},
    **{n: [I] for n in "BitwiseAnd BitwiseOr BitwiseXor".split()},
    "BitwiseNot": ["2,3:si32 -> 2,3:si32"], "Not": ["2,3:i1 -> 2,3:i1"],
    "Det": ["2,3,3 -> 2"], "Size": ["2,3,4 -> :si64"], "Shape": ["2,3,4 -> 3:si64", "2,3,4 -> 2:si64 | start=1", "2,3,4 -> 1:si64 | start=-2 end=-1", "2,3,4 -> 2:si64 | end=2"],
    "NonZero": ["2,3 -> 2,-1:si64"], "Expand": ["3,1 2:si64 -> 3,4"],
    **{n: [B, U, "2,3 2,3 2,3 -> 2,3"] for n in "Max Min Mean Sum".split()},
    **{n: ARG for n in ("ArgMax", "ArgMin")},
    **{n: RED for n in "ReduceL1 ReduceL2 ReduceLogSum ReduceLogSumExp ReduceSum ReduceSumSquare ReduceMean ReduceMax ReduceMin ReduceProd".split()},
    **{n: RND for n in ("RandomNormalLike", "RandomUniformLike")},
    "RandomNormal": [" -> 2,3 | shape=[2,3]", " -> 2,3 | shape=[2,3] mean=1.5 scale=0.25", " -> 2,3:f64 | shape=[2,3] dtype=11"],
    "RandomUniform": [" -> 2,3 | shape=[2,3]", " -> 2,3 | shape=[2,3] low=-1.5 high=0.25", " -> 2,3:f64 | shape=[2,3] dtype=11"],
    "EyeLike": ["3,4 -> 3,4", "3,4 -> 3,4 | k=1", "3,4 -> 3,4:si64 | dtype=7"],
    "AveragePool": POOL + ["2,3,8,9 -> 2,3,9,9 | kernel_shape=[2,3] pads=[1,1,1,1] count_include_pad=1", "2,3,8 -> 2,3,7 | kernel_shape=[2]", "2,3,8,9,7 -> 2,3,7,7,6 | kernel_shape=[2,3,2]"],
    "MaxPool": POOL + ["2,3,8 -> 2,3,7 | kernel_shape=[2]", "2,3,8,9,7 -> 2,3,7,7,6 | kernel_shape=[2,3,2]", "2,3,8,9 -> 2,3,7,7 2,3,7,7:si64 | kernel_shape=[2,3]"],
    "LpPool": POOL + ["2,3,8,9 -> 2,3,7,7 | kernel_shape=[2,3] p=1"],
    "GlobalAveragePool": ["2,3,8,9 -> 2,3,1,1", "2,3,8 -> 2,3,1"], "GlobalMaxPool": ["2,3,8,9 -> 2,3,1,1", "2,3,8 -> 2,3,1"], "GlobalLpPool": ["2,3,8,9 -> 2,3,1,1", "2,3,8,9 -> 2,3,1,1 | p=3"],
    "BatchNormalization": ["2,3,4 3 3 3 3 -> 2,3,4", "2,3,4 3 3 3 3 -> 2,3,4 | epsilon=0.25 momentum=0.5"],
    "InstanceNormalization": ["2,3,4,5 3 3 -> 2,3,4,5", "2,3,4,5 3 3 -> 2,3,4,5 | epsilon=0.25"],
    "LayerNormalization": ["2,3,4 4 4 -> 2,3,4", "2,3,4 3,4 -> 2,3,4 | axis=1 epsilon=0.25"],
    "GroupNormalization": ["2,6,4 6 6 -> 2,6,4 | num_groups=3", "2,6,4 6 6 -> 2,6,4 | num_groups=2 epsilon=0.25"],
    "MeanVarianceNormalization": ["2,3,4,5 -> 2,3,4,5", "2,3,4,5 -> 2,3,4,5 | axes=[1]"],
    "LpNormalization": ["2,3,4 -> 2,3,4", "2,3,4 -> 2,3,4 | p=1 axis=0"],
    "BitShift": ["2,3:ui8 2,3:ui8 -> 2,3:ui8 | direction=LEFT", "2,3:ui8 2,3:ui8 -> 2,3:ui8 | direction=RIGHT"],
    "Bernoulli": ["2,3 -> 2,3", "2,3 -> 2,3:f64 | dtype=11"],
    "Cast": ["2,3 -> 2,3:si64 | to=7", "2,3:si64 -> 2,3 | to=1", "2,3 -> 2,3:i1 | to=9", "2,3 -> 2,3:f16 | to=10"],
    "CastLike": ["2,3 2,3:si64 -> 2,3:si64"],
    "Celu": [U, U + " | alpha=0.25"], "Elu": [U, U + " | alpha=0.25"], "Selu": [U, U + " | alpha=0.25 gamma=3.0"], "LeakyRelu": [U, U + " | alpha=0.25"], "ThresholdedRelu": [U, U + " | alpha=0.25"], "HardSigmoid": [U, U + " | alpha=0.25 beta=0.75"],
    "Shrink": [U, U + " | lambd=0.25 bias=0.75"], "Gelu": [U, U + " | approximate=tanh"],
    "Clip": ["2,3 -> 2,3", "2,3   -> 2,3", "2,3   -> 2,3 | min=0.5 max=1.5", "2,3 -> 2,3 | max=1.5", "2,3 -> 2,3 | min=0.5", "2,3 : : -> 2,3", "2,3 - : -> 2,3", "2,3 : - -> 2,3", "2,3 : -> 2,3"],
    "Compress": ["2,3 6:i1 -> -1", "2,3 2:i1 -> -1,3 | axis=0", "2,3 3:i1 -> 2,-1 | axis=-1"],
    "Concat": ["2,3 4,3 -> 6,3 | axis=0", "2,3 2,4 2,5 -> 2,12 | axis=-1"],
    "Conv": CONV,
    "ConvInteger": ["2,6,8,9:ui8 4,6,3,2:ui8 -> 2,4,6,8:si32", "2,6,8,9:ui8 4,6,3,2:ui8 :ui8 -> 2,4,6,8:si32", "2,6,8,9:ui8 4,6,3,2:si8 :ui8 :si8 -> 2,4,6,8:si32", "2,6,8,9:ui8 4,6,3,2:ui8 -> 2,4,3,3:si32 | strides=[2,3]"],
    "ConvTranspose": ["2,6,8,9 6,4,3,2 -> 2,4,10,10", "2,6,8,9 6,4,3,2 4 -> 2,4,10,10", "2,6,8,9 6,2,3,2 -> 2,6,10,10 | group=3", "2,6,8,9 6,4,3,2 -> 2,4,17,26 | strides=[2,3]", "2,6,8,9 6,4,3,2 -> 2,4,18,27 | strides=[2,3] output_padding=[1,1]",
                      "2,6,8,9 6,4,3,2 -> 2,4,8,8 | pads=[1,1,1,1]", "2,6,8,9 6,4,3,2 -> 2,4,12,11 | dilations=[2,2]"],
    "CumSum": ["2,3 : -> 2,3".replace(":", ":si32"), "2,3 :si32 -> 2,3 | reverse=1", "2,3 :si32 -> 2,3 | exclusive=1", "2,3 :si32 -> 2,3 | exclusive=1 reverse=1"],
    "DepthToSpace": ["2,12,4,5 -> 2,3,8,10 | blocksize=2", "2,12,4,5 -> 2,3,8,10 | blocksize=2 mode=CRD"],
    "SpaceToDepth": ["2,3,8,10 -> 2,12,4,5 | blocksize=2"],
    "DeformConv": ["1,1,3,3 1,1,2,2 1,8,2,2 -> 1,1,2,2", "1,1,3,3 1,1,2,2 1,8,2,2 1 1,4,2,2 -> 1,1,2,2 | strides=[1,1] pads=[0,0,0,0] dilations=[1,1]", "1,2,5,6 2,1,2,2 1,16,2,2 -> 1,2,2,2 | group=2 strides=[2,3] offset_group=2"],
    "DequantizeLinear": ["2,3:si8 : :si8 -> 2,3", "2,3:si8 3 3:si8 -> 2,3", "2,3:si8 2 2:si8 -> 2,3 | axis=0"],
    "QuantizeLinear": ["2,3 : :si8 -> 2,3:si8", "2,3 3 3:ui8 -> 2,3:ui8", "2,3 2 2:ui8 -> 2,3:ui8 | axis=0"],
    "QLinearMatMul": ["2,3:ui8 : :ui8 3,4:ui8 : :ui8 : :ui8 -> 2,4:ui8"],
    "RotaryEmbedding": [
        "1,3,2,6 1,2:si64 4,3 4,3 -> 1,3,2,6",
        "2,5,12 2,5:si64 8,3 8,3 -> 2,5,12 | num_heads=2 interleaved=1 rotary_embedding_dim=6 is_packed_batching=1 scale=0.5",
    ],
    "SimplifiedLayerNormalization": [
        "2,3,8 8 -> 2,3,8",
        "2,3,8 8 -> 2,3,8 | axis=2 epsilon=0.1 stash_type=1",
        "2,3,8 3,8 -> 2,3,8 | axis=-2",
        "2,3,8:f16 8:f16 -> 2,3,8:f16",
        "2,3,8:f64 8:f64 -> 2,3,8:f64 | stash_type=11",
    ],
    "SkipSimplifiedLayerNormalization": [
        "2,3,8 2,3,8 8 -> 2,3,8",
        "2,3,8 2,3,8 8 8 -> 2,3,8 2,3,8 | epsilon=0.1",
        "2,3,8:f16 2,3,8:f16 8:f16 8:f16 -> 2,3,8:f16 2,3,8:f16",
    ],
    "QLinearAdd": [
        "2,3:ui8 : :ui8 2,3:ui8 : :ui8 : :ui8 -> 2,3:ui8",
        "2,3:si8 1 1:si8 3:si8 1 1:si8 1 1:si8 -> 2,3:si8",
    ],
    "QLinearMul": [
        "2,3:ui8 : :ui8 2,3:ui8 : :ui8 : :ui8 -> 2,3:ui8",
        "2,3:si8 1 1:si8 3:si8 1 1:si8 1 1:si8 -> 2,3:si8",
    ],
    "QLinearLeakyRelu": [
        "2,3:ui8 : :ui8 : :ui8 -> 2,3:ui8 | alpha=0.3",
        "2,3:si8 : :si8 : :si8 -> 2,3:si8",
    ],
    "QLinearSigmoid": [
        "2,3:ui8 : :ui8 : :ui8 -> 2,3:ui8",
        "2,3:si8 1 1:si8 1 1:si8 -> 2,3:si8",
    ],
    "QLinearConcat": [
        ": :ui8 2,3:ui8 : :ui8 2,4:ui8 : :ui8 -> 2,7:ui8 | axis=1",
        ": :si8 2,3:si8 : :si8 4,3:si8 : :si8 1,3:si8 : :si8 -> 7,3:si8 | axis=0",
    ],
    "QLinearGlobalAveragePool": [
        "2,3,4,5:ui8 : :ui8 : :ui8 -> 2,3,1,1:ui8",
        "2,3,7:si8 : :si8 : :si8 -> 2,3,1:si8",
        "2,3,4,5,3:ui8 : :ui8 : :ui8 -> 2,3,1,1,1:ui8",
        "2,3,4,-1:ui8 : :ui8 : :ui8 -> 2,3,1,1:ui8",
        "2,4,5,3:ui8 : :ui8 : :ui8 -> 2,1,1,3:ui8 | channels_last=1",
    ],
    "QLinearAveragePool": [
        "2,3,8,9:ui8 : :ui8 : :ui8 -> 2,3,7,7:ui8 | kernel_shape=[2,3]",
        "2,3,8,9:si8 : :si8 : :si8 -> 2,3,4,5:si8 | kernel_shape=[2,3] pads=[0,1,0,1] strides=[2,2] count_include_pad=1",
        "2,8,9,3:ui8 : :ui8 : :ui8 -> 2,7,7,3:ui8 | kernel_shape=[2,3] channels_last=1",
    ],
    "FusedMatMul": [
        "2,3 3,4 -> 2,4",
        "3,2 4,3 -> 2,4 | transA=1 transB=1",
        "5,3,2 5,3,4 -> 5,2,4 | transA=1 alpha=0.5",
        "5,2,3 5,3,4 -> 5,2,4 | transBatchA=1",
    ],
    "QLinearConv": ["2,6,8,9:ui8 : :ui8 4,6,3,2:ui8 : :ui8 : :ui8 -> 2,4,6,8:ui8", "2,6,8,9:ui8 : :ui8 4,6,3,2:ui8 : :ui8 : :ui8 4:si32 -> 2,4,6,8:ui8"],
    "DynamicQuantizeLinear": ["2,3 -> 2,3:ui8 : :ui8"],
    "MatMul": ["2,3 3,4 -> 2,4"], "MatMulInteger": ["2,3:ui8 3,4:ui8 -> 2,4:si32", "2,3:ui8 3,4:ui8 :ui8 -> 2,4:si32", "2,3:ui8 3,4:si8 :ui8 :si8 -> 2,4:si32"],
    "Gemm": ["2,3 3,4 -> 2,4", "2,3 3,4 4 -> 2,4", "3,2 3,4 4 -> 2,4 | transA=1", "2,3 4,3 4 -> 2,4 | transB=1", "2,3 3,4 4 -> 2,4 | alpha=0.5 beta=0.25"],
    "Dropout": ["2,3 -> 2,3", "2,3 : -> 2,3", "2,3 : :i1 -> 2,3", "2,3 : -> 2,3 2,3:i1"],
    "Einsum": ["2,3 3,4 -> 2,4 | equation=ij,jk->ik"],
    "Flatten": ["2,3,4,5 -> 2,60", "2,3,4,5 -> 1,120 | axis=0", "2,3,4,5 -> 6,20 | axis=2", "2,3,4,5 -> 24,5 | axis=-1", "2,3,4,5 -> 120,1 | axis=4"],
    "ConstantOfShape": ["2:si64 -> -1,-1"],
    **{n: [":si64 -> -1", ":si64 -> -1 | periodic=0", ":si64 -> -1:f64 | output_datatype=11"] for n in ("BlackmanWindow", "HannWindow", "HammingWindow")},
    "GridSample": ["1,2,3,4 1,5,6,2 -> 1,2,5,6", "1,2,3,4 1,5,6,2 -> 1,2,5,6 | mode=nearest padding_mode=border align_corners=1", "1,2,3,4 1,5,6,2 -> 1,2,5,6 | padding_mode=reflection", "1,2,3,4 1,5,6,2 -> 1,2,5,6 | mode=cubic"],
    "LogSoftmax": ["2,3,4 -> 2,3,4", "2,3,4 -> 2,3,4 | axis=0", "2,3,4 -> 2,3,4 | axis=-2"], "Softmax": ["2,3,4 -> 2,3,4", "2,3,4 -> 2,3,4 | axis=0", "2,3,4 -> 2,3,4 | axis=-2"],
    "Hardmax": ["2,3,4 -> 2,3,4", "2,3,4 -> 2,3,4 | axis=0", "2,3,4 -> 2,3,4 | axis=-2"],
    "Multinomial": ["2,3 -> 2,1:si32", "2,3 -> 2,5:si64 | dtype=7 sample_size=5"],
    "NegativeLogLikelihoodLoss": ["2,3 2:si64 -> ", "2,3 2:si64 3 -> ", "2,3 2:si64 -> 2 | reduction=none", "2,3 2:si64 -> | reduction=sum ignore_index=1"],
    "SoftmaxCrossEntropyLoss": ["2,3 2:si64 -> ", "2,3 2:si64 3 -> ", "2,3 2:si64 -> 2 | reduction=none", "2,3 2:si64 -> | reduction=sum ignore_index=1", "2,3 2:si64 -> : 2,3"],
    "Gather": ["5,3 2:si64 -> 2,3", "5,3 2,4:si64 -> 5,2,4 | axis=1", "5,3 :si64 -> 5 | axis=-1"], "GatherElements": ["5,3 2,3:si64 -> 2,3", "5,3 5,2:si64 -> 5,2 | axis=-1"],
    "GatherND": ["5,3,4 2,2:si64 -> 2,4", "5,3,4 5,1:si64 -> 5,4 | batch_dims=1"],
    "ScatterElements": ["5,3 2,3:si64 2,3 -> 5,3", "5,3 5,2:si64 5,2 -> 5,3 | axis=-1", "5,3 2,3:si64 2,3 -> 5,3 | reduction=add", "5,3 2,3:si64 2,3 -> 5,3 | reduction=mul", "5,3 2,3:si64 2,3 -> 5,3 | reduction=max", "5,3 2,3:si64 2,3 -> 5,3 | reduction=min"],
    "Scatter": ["5,3 2,3:si64 2,3 -> 5,3", "5,3 5,2:si64 5,2 -> 5,3 | axis=-1"],
    "ScatterND": ["5,3,4 2,2:si64 2,4 -> 5,3,4", "5,3,4 2,2:si64 2,4 -> 5,3,4 | reduction=add", "5,3,4 2,2:si64 2,4 -> 5,3,4 | reduction=mul", "5,3,4 2,2:si64 2,4 -> 5,3,4 | reduction=max", "5,3,4 2,2:si64 2,4 -> 5,3,4 | reduction=min"],
    "IsInf": ["2,3 -> 2,3:i1", "2,3 -> 2,3:i1 | detect_negative=0", "2,3 -> 2,3:i1 | detect_positive=0"],
    "LRN": ["2,3,4,5 -> 2,3,4,5 | size=3", "2,3,4,5 -> 2,3,4,5 | size=4 alpha=0.25 beta=0.5 bias=2.0"],
    "Mod": [B, B + " | fmod=1", "2,3:si64 2,3:si64 -> 2,3:si64"],
    "MaxRoiPool": ["1,2,8,9 3,5 -> 3,2,2,3 | pooled_shape=[2,3]"],
    "MaxUnpool": ["1,1,2,2 1,1,2,2:si64 -> 1,1,4,4 | kernel_shape=[2,2] strides=[2,2]"],
    "OneHot": ["2,3:si64 :si64 2 -> 2,3,5", "2,3:si64 :si64 2 -> 5,2,3 | axis=0", "2,3:si64 1:si64 2 -> 2,5,3 | axis=-2"],
    "Pad": ["2,3 4:si64 -> 4,6", "2,3 4:si64 : -> 4,6", "2,3 4:si64 : -> 4,6 | mode=reflect", "2,3 4:si64 : -> 4,6 | mode=edge", "2,3 2:si64 - 1:si64 -> 4,3", "2,3 -> 4,6 | pads=[0,1,2,2] value=0.5"],
    "Range": [":si64 :si64 :si64 -> -1:si64", ": : : -> -1"],
    "Tile": ["2,3 2:si64 -> 4,9"], "TopK": ["2,5 1:si64 -> 2,3 2,3:si64", "2,5 1:si64 -> 2,5 2,5:si64 | axis=0 largest=0 sorted=0"],
    "Trilu": ["2,3,4 -> 2,3,4", "2,3,4 :si64 -> 2,3,4", "2,3,4 -> 2,3,4 | upper=0", "2,3,4 :si64 -> 2,3,4 | upper=0"],
    "Transpose": ["2,3,4 -> 4,3,2", "2,3,4 -> 4,2,3 | perm=[2,0,1]"],
    "Squeeze": ["2,1,3,1 -> 2,3", "2,1,3,1 -> 2,3,1 | axes=[1]", "2,1,3,1 1:si64 -> 2,1,3"], "Unsqueeze": ["2,3 1:si64 -> 2,1,3", "2,3 2:si64 -> 1,2,3,1"],
    "Reshape": ["2,3,4 2:si64 -> 6,4", "2,3,4 2:si64 -> -1,-1", "2,3,4 2:si64 -> 6,4 | allowzero=1"],
    "Slice": ["5,6 2:si64 2:si64 -> 2,3", "5,6 1:si64 1:si64 1:si64 -> 5,3", "5,6 1:si64 1:si64 1:si64 1:si64 -> 5,3", "5,6 -> 2,3 | starts=[0,1] ends=[2,4]", "5,6 -> 5,3 | starts=[1] ends=[4] axes=[1]"],
    "Split": ["6,4 -> 3,4 3,4", "6,4 -> 2,4 4,4 | split=[2,4]", "4,6 -> 4,2 4,2 4,2 | axis=-1", "7,4 -> 3,4 3,4 1,4 | num_outputs=3", "6,4 2:si64 -> 2,4 4,4"],
    "Upsample": ["1,2,3,4 4 -> 1,2,6,8", "1,2,3,4 4 -> 1,2,6,8 | mode=linear"],
    "Resize": ["1,2,3,4 - 4 -> 1,2,6,8", "1,2,3,4 - 4 -> 1,2,6,8 | mode=linear coordinate_transformation_mode=half_pixel", "1,2,3,4 - - 4:si64 -> 1,2,6,8 | mode=linear coordinate_transformation_mode=align_corners", "1,2,3,4 - - 4:si64 -> 1,2,6,8 | mode=nearest coordinate_transformation_mode=asymmetric nearest_mode=floor",
               "1,2,3,4 - 4 -> 1,2,6,8 | mode=cubic", "1,2,3,4 - 4 -> 1,2,6,8 | mode=nearest coordinate_transformation_mode=half_pixel nearest_mode=round_prefer_ceil"],
    "RoiAlign": ["1,2,8,9 3,4 3:si64 -> 3,2,2,3 | output_height=2 output_width=3", "1,2,8,9 3,4 3:si64 -> 3,2,1,1 | spatial_scale=0.5 sampling_ratio=2 coordinate_transformation_mode=output_half_pixel", "1,2,8,9 3,4 3:si64 -> 3,2,1,1 | mode=max"],
    "Where": ["2,3:i1 2,3 2,3 -> 2,3"], "Unique": ["6 -> -1", "6 -> -1 -1:si64 -1:si64 -1:si64", "6 -> -1 -1:si64 -1:si64 -1:si64 | sorted=0", "2,3 -> 2,-1 -1:si64 -1:si64 -1:si64 | axis=1"],
    "ReverseSequence": ["4,2,3 2:si64 -> 4,2,3"], "CenterCropPad": ["5,6 2:si64 -> 3,8", "5,6 1:si64 -> 5,8 | axes=[1]"],
    "SequenceConstruct": ["2,3 2,3 -> [2,3]"], "SequenceLength": ["[2,3] -> :si64"], "SequenceAt": ["[2,3] :si64 -> 2,3"], "SequenceEmpty": [" -> [2,3]"], "SequenceErase": ["[2,3] -> [2,3]", "[2,3] :si64 -> [2,3]"],
    "SequenceInsert": ["[2,3] 2,3 -> [2,3]", "[2,3] 2,3 :si64 -> [2,3]"], "SplitToSequence": ["6,3 :si64 -> [2,3]", "6,3 2:si64 -> [2,3] | axis=0", "3,6 :si64 -> [3,2] | axis=1"],
    "OptionalGetElement": ["2,3 -> 2,3", "[2,3] -> [2,3]"], "OptionalHasElement": ["2,3 -> :i1"],
    "MelWeightMatrix": [":si64 :si64 :si64 : : -> -1,-1"], "STFT": ["1,8,1 :si64 4 -> 1,3,3,2", "1,8,1 :si64 - :si64 -> 1,3,3,2"],
    "Col2Im": ["1,5,5 2:si64 2:si64 -> 1,1,5,5"], "NonMaxSuppression": ["1,6,4 1,2,6 -> -1,3:si64", "1,6,4 1,2,6 1:si64 1 1 -> -1,3:si64 | center_point_box=1"],
}

MORE = {
    "RNN": [
        "5,2,3 1,4,3 1,4,4 -> 5,1,2,4 1,2,4 | hidden_size=4",
        "5,2,3 1,4,3 1,4,4 1,8 -> 5,1,2,4 1,2,4 | hidden_size=4",
        "5,2,3 1,4,3 1,4,4 1,8 - 1,2,4 -> 5,1,2,4 1,2,4 | hidden_size=4 activations=[Relu]",
        "2,5,3 1,4,3 1,4,4 1,8 - 2,1,4 -> 2,5,1,4 2,1,4 | hidden_size=4 layout=1",
        "5,2,3 1,4,3 1,4,4 1,8 2:si32 -> 5,1,2,4 1,2,4 | hidden_size=4",
        "5,2,3 1,4,3 1,4,4 -> 5,1,2,4 1,2,4 | hidden_size=4 direction=reverse",
        "5,2,3 1,4,3 1,4,4 -> 5,1,2,4 | hidden_size=4",
        "5,2,3 1,4,3 1,4,4 -> - 1,2,4 | hidden_size=4",
    ],
    "LSTM": [
        "5,2,3 1,16,3 1,16,4 -> 5,1,2,4 1,2,4 1,2,4 | hidden_size=4",
        "5,2,3 1,16,3 1,16,4 1,32 -> 5,1,2,4 1,2,4 1,2,4 | hidden_size=4 activations=[Sigmoid,Tanh,Tanh]",
        "5,2,3 1,16,3 1,16,4 1,32 - 1,2,4 1,2,4 -> 5,1,2,4 1,2,4 1,2,4 | hidden_size=4 activations=[Sigmoid,Relu,Tanh]",
        "2,5,3 1,16,3 1,16,4 1,32 - 2,1,4 2,1,4 -> 2,5,1,4 2,1,4 2,1,4 | hidden_size=4 layout=1 activations=[Sigmoid,Tanh,Tanh]",
        "5,2,3 1,16,3 1,16,4 -> 5,1,2,4 | hidden_size=4",
        "5,2,3 1,16,3 1,16,4 -> - 1,2,4 | hidden_size=4",
        "5,2,3 1,16,3 1,16,4 1,32 - 1,2,4 -> - - 1,2,4 | hidden_size=4",
        "2,5,3 2,16,3 2,16,4 - - - 2,2,4 -> 2,5,2,4 2,2,4 2,2,4 | hidden_size=4 direction=bidirectional layout=1",
        "5,2,3 2,16,3 2,16,4 2,32 - 2,2,4 2,2,4 -> 5,2,2,4 2,2,4 2,2,4 | hidden_size=4 direction=bidirectional activations=[Sigmoid,Tanh,Relu,Relu,Tanh,Sigmoid]",
        "5,2,3 1,16,3 1,16,4 1,32 2:si32 -> 5,1,2,4 1,2,4 1,2,4 | hidden_size=4 activations=[Sigmoid,Tanh,Tanh]",
        "5,2,3 1,16,3 1,16,4 1,32 - - - 1,12 -> 5,1,2,4 1,2,4 1,2,4 | hidden_size=4 activations=[Sigmoid,Tanh,Tanh]",
        "5,2,3 1,16,3 1,16,4 -> 5,1,2,4 1,2,4 1,2,4 | hidden_size=4 activations=[Sigmoid,Tanh,Tanh] input_forget=1",
        "5,2,3 1,16,3 1,16,4 -> 5,1,2,4 1,2,4 1,2,4 | hidden_size=4 activations=[Sigmoid,Tanh,Tanh] direction=reverse",
    ],
    "GRU": [
        "5,2,3 1,12,3 1,12,4 -> 5,1,2,4 1,2,4 | hidden_size=4",
        "5,2,3 1,12,3 1,12,4 1,24 -> 5,1,2,4 1,2,4 | hidden_size=4 linear_before_reset=1",
        "5,2,3 1,12,3 1,12,4 1,24 - 1,2,4 -> 5,1,2,4 1,2,4 | hidden_size=4 activations=[Sigmoid,Relu]",
        "2,5,3 1,12,3 1,12,4 1,24 - 2,1,4 -> 2,5,1,4 2,1,4 | hidden_size=4 layout=1",
        "5,2,3 1,12,3 1,12,4 1,24 2:si32 -> 5,1,2,4 1,2,4 | hidden_size=4",
        "5,2,3 1,12,3 1,12,4 1,24 - 1,2,4 -> 5,1,2,4 1,2,4 | hidden_size=4 linear_before_reset=1 activations=[Tanh,Sigmoid]",
        "5,2,3 1,12,3 1,12,4 -> 5,1,2,4 1,2,4 | hidden_size=4 direction=reverse",
        "5,2,3 1,12,3 1,12,4 -> 5,1,2,4 | hidden_size=4",
        "5,2,3 1,12,3 1,12,4 -> - 1,2,4 | hidden_size=4",
    ],
    "QLinearConv": [
        "2,6,8,9:ui8 : :ui8 4,6,3,2:si8 4 4:si8 : :ui8 -> 2,4,6,8:ui8",
        "2,6,8,9:ui8 : :ui8 4,6,3,2:si8 4 4:si8 : :ui8 4:si32 -> 2,4,3,4:ui8 | strides=[2,2]",
        "2,6,8,9:ui8 1 1:ui8 4,6,3,2:si8 1 1:si8 1 1:ui8 4:si32 -> 2,4,3,4:ui8 | strides=[2,2]",
        "2,6,8,9:si8 : :si8 6,2,3,2:si8 : :si8 : :si8 -> 2,6,8,8:si8 | group=3 pads=[1,0,1,0]",
    ],
    "QLinearMatMul": [
        "2,3:ui8 : :ui8 3,4:si8 : :si8 : :ui8 -> 2,4:ui8",
        "2,3:ui8 1 1:ui8 3,4:ui8 1 1:ui8 1 1:ui8 -> 2,4:ui8",
        "2,3:ui8 : :ui8 3,4:si8 4 4:si8 : :ui8 -> 2,4:ui8",
        "5,2,3:si8 : :si8 5,3,4:si8 : :si8 : :si8 -> 5,2,4:si8",
    ],
    "ScatterND": [
        "5,3,4 2,1:si64 2,3,4 -> 5,3,4",
        "5,3,4 2,3:si64 2 -> 5,3,4",
        "5,3,4 2,2,2:si64 2,2,4 -> 5,3,4",
    ],
    "GatherND": [
        "5,3,4 2,1:si64 -> 2,3,4",
        "5,3,4 2,3:si64 -> 2",
        "5,3,4 2,2,2:si64 -> 2,2,4",
        "5,3,4 5,2:si64 -> 5 | batch_dims=1",
    ],
    "Unique": [
        "2,3 -> -1 -1:si64 -1:si64 -1:si64",
        "3,2 -> -1,2 -1:si64 -1:si64 -1:si64 | axis=0",
    ],
    "Gather": [
        "5,3 2,4:si64 -> 2,4,3 | axis=0",
        "2,5,3 2,4:si64 -> 2,2,4,3 | axis=-2",
        "5 :si64 -> ",
    ],
    "Flatten": [
        "2 -> 1,2 | axis=0",
        "2 -> 2,1 | axis=1",
        ": -> 1,1 | axis=0",
    ],
    "Softmax": [
        "2,3,4,5 -> 2,3,4,5 | axis=1",
    ],
    "Transpose": [
        "2,3,4,5 -> 3,5,2,4 | perm=[1,3,0,2]",
        "2,3,4,5 -> 5,4,3,2",
        "2,3,4,5 -> 4,5,3,2 | perm=[2,3,1,0]",
    ],
    "Gemm": [
        "3,2 4,3 -> 2,4 | transA=1 transB=1",
        "2,3 3,4 -> 2,4 | alpha=0.5",
        "2,3 3,4 4 -> 2,4 | alpha=0.5",
        "2,3 3,4 4 -> 2,4 | beta=0.25",
        "2,3 3,4 2,1 -> 2,4 | beta=0.25 alpha=0.5",
    ],
    "ArgMax": [
        "2,3,4 -> 2,3,1:si64 | axis=2 select_last_index=1",
        "2,3,4 -> 2,4:si64 | axis=-2 select_last_index=1 keepdims=0",
    ],
    "ArgMin": [
        "2,3,4 -> 2,3,1:si64 | axis=2 select_last_index=1",
        "2,3,4 -> 2,4:si64 | axis=-2 select_last_index=1 keepdims=0",
    ],
    "ReduceSum": [
        "2,3,4 3:si64 -> 1,1,1",
        "2,3,4 2:si64 -> 3 | keepdims=0",
    ],
    "Split": [
        "4,7 -> 4,3 4,3 4,1 | axis=1",
    ],
    "Squeeze": [
        "1,3,1 2:si64 -> 3",
        "2,1,3,1 -> 2,3 | axes=[1,3]",
    ],
    "Unsqueeze": [
        "2,3 -> 2,1,3,1 | axes=[1,3]",
        "2,3 3:si64 -> 1,2,1,3,1",
        ": 1:si64 -> 1",
    ],
    "Concat": [
        "2,3,4 2,3,4 -> 2,6,4 | axis=1",
    ],
    "Expand": [
        "3,1 3:si64 -> 2,3,4",
        "3 2:si64 -> 2,3",
    ],
    "Pad": [
        "2,3,4 6:si64 -> 3,5,4",
        "2,3,8,9 8:si64 : -> 2,3,10,12 | mode=reflect",
        "2,3,8,9 8:si64 - 4:si64 -> 2,3,10,12",
        "2,3 -> 4,6 | pads=[0,1,2,2]",
        "2,3 -> 4,6 | pads=[0,1,2,2] mode=edge",
    ],
    "Slice": [
        "5,6 2:si64 2:si64 2:si64 -> 2,3",
        "5,6 2:si64 2:si64 2:si64 2:si64 -> 2,2",
    ],
    "Tile": [
        "2,3,4 3:si64 -> 4,9,8",
    ],
    "TopK": [
        "2,5 1:si64 -> 2,3 2,3:si64 | largest=0",
        "2,5 1:si64 -> 2,3 2,3:si64 | axis=1",
    ],
    "Mean": [
        "2,3 3 -> 2,3",
    ],
    "Sum": [
        "2,3 3 -> 2,3",
        "2,3 2,1 3 -> 2,3",
    ],
    "Max": [
        "2,3 3 -> 2,3",
    ],
    "Min": [
        "2,3 3 -> 2,3",
    ],
    "MatMul": [
        "5,2,3 5,3,4 -> 5,2,4",
        "3 3,4 -> 4",
        "2,3 3 -> 2",
    ],
    "Where": [
        "3:i1 2,3 : -> 2,3",
    ],
    "MaxPool": [
        "2,3,8,9 -> 2,3,4,4 | kernel_shape=[3,3] strides=[2,2] pads=[0,0,1,1]",
        "2,3,8,9 -> 2,3,4,5 | kernel_shape=[3,3] strides=[2,2] auto_pad=SAME_UPPER",
        "2,3,8,9 -> 2,3,4,5 | kernel_shape=[3,3] strides=[2,2] auto_pad=SAME_LOWER",
        "2,3,8 -> 2,3,8 | kernel_shape=[2] auto_pad=SAME_LOWER",
        "2,3,8,9 -> 2,3,4,4 | kernel_shape=[3,3] strides=[2,2] pads=[1,1,1,1] ceil_mode=1",
        "2,3,8,9 -> 2,3,6,5 | kernel_shape=[2,3] dilations=[2,2] pads=[0,0,0,0]",
    ],
    "AveragePool": [
        "2,3,8,9 -> 2,3,4,4 | kernel_shape=[3,3] strides=[2,2] pads=[0,0,1,1]",
        "2,3,8,9 -> 2,3,4,5 | kernel_shape=[3,3] strides=[2,2] auto_pad=SAME_UPPER",
        "2,3,8,9 -> 2,3,4,5 | kernel_shape=[3,3] strides=[2,2] auto_pad=SAME_LOWER",
        "2,3,8 -> 2,3,8 | kernel_shape=[2] auto_pad=SAME_LOWER",
        "2,3,8,9 -> 2,3,4,4 | kernel_shape=[3,3] strides=[2,2] pads=[0,0,1,1] count_include_pad=1",
    ],
    "Conv": [
        "2,6,8,9 4,6,3,2 -> 2,4,4,5 | strides=[2,2] auto_pad=SAME_UPPER",
        "2,6,8,9 4,6,3,2 -> 2,4,4,5 | strides=[2,2] auto_pad=SAME_LOWER",
        "2,6,8,9 4,6,3,2 -> 2,4,8,9 | dilations=[2,2] auto_pad=SAME_UPPER",
        "2,6,8 4,6,3 -> 2,4,8 | pads=[2,0]",
        "2,6,8,9 12,1,3,2 -> 2,12,6,8 | group=6",
    ],
    "ConvTranspose": [
        "2,6,8 6,4,3 -> 2,4,10",
        "2,6,8,9 6,4,3,2 -> 2,4,16,18 | strides=[2,2] auto_pad=SAME_UPPER",
        "2,6,8,9 6,4,3,2 -> 2,4,17,26 | strides=[2,3] auto_pad=VALID",
        "2,6,8,9 6,4,3,2 -> 2,4,9,8 | pads=[1,1,0,1]",
        "2,6,8,9 6,4,3,2 -> 2,4,18,27 | strides=[2,3] output_shape=[18,27]",
    ],
    "BatchNormalization": [
        "2,3 3 3 3 3 -> 2,3",
        "2,3,4,5 3 3 3 3 -> 2,3,4,5",
    ],
    "InstanceNormalization": [
        "2,3,4 3 3 -> 2,3,4",
    ],
    "LayerNormalization": [
        "2,3,4 4 4 -> 2,3,4 2,3,1 2,3,1",
        "2,3,4 4 -> 2,3,4",
    ],
    "Einsum": [
        "2,3,3 -> 2 | equation=bii->b",
        "5,2,3 5,3,4 -> 5,2,4 | equation=bij,bjk->bik",
    ],
    "QuantizeLinear": [
        "2,3 : -> 2,3:ui8",
    ],
    "DequantizeLinear": [
        "2,3:ui8 : -> 2,3",
        "2,3:si32 : -> 2,3",
    ],
    "CumSum": [
        "2,3 :si64 -> 2,3",
    ],
    "OneHot": [
        "3:si64 :si64 2 -> 3,5",
        "2,3:si64 :si64 2 -> 2,3,5 | axis=-1",
    ],
    "GlobalAveragePool": [
        "2,3,8,9,4 -> 2,3,1,1,1",
    ],
    "GlobalMaxPool": [
        "2,3,8,9,4 -> 2,3,1,1,1",
    ],
    "Clip": [
        "2,3:si64 :si64 -> 2,3:si64",
    ],
    "DepthToSpace": [
        "1,8,2,3 -> 1,2,4,6 | blocksize=2 mode=DCR",
    ],
    "ReverseSequence": [
        "4,2,3 4:si64 -> 4,2,3 | batch_axis=0 time_axis=1",
    ],
    "CenterCropPad": [
        "7,6 2:si64 -> 4,8",
        "5,6 2:si64 -> 3,4",
        "4,5 2:si64 -> 7,8",
        "6,7 1:si64 -> 6,4 | axes=[1]",
    ],
    "Trilu": [
        "3,4 :si64 -> 3,4",
    ],
    "EyeLike": [
        "3,4 -> 3,4 | k=-1",
        "4,3 -> 4,3 | k=2",
        "3,4 -> 3,4 | k=-2",
    ],
    "Shape": [
        "2,3,4 -> 0:si64 | start=2 end=1",
        "2,3,4 -> 1:si64 | start=-1",
    ],
    "Cast": [
        "2,3 -> 2,3:ui8 | to=2",
        "2,3:i1 -> 2,3:si32 | to=6",
    ],
    "Resize": [
        "1,2,3,4 - 4 -> 1,2,6,8 | mode=linear coordinate_transformation_mode=align_corners",
        "1,2,3,4 - 4 -> 1,2,6,8 | mode=nearest coordinate_transformation_mode=asymmetric nearest_mode=floor",
        "1,2,6,8 - 4 -> 1,2,3,4 | mode=linear",
    ],
    "GridSample": [
        "1,2,3,4 1,5,6,2 -> 1,2,5,6 | align_corners=1",
        "1,2,3,4 1,5,6,2 -> 1,2,5,6 | padding_mode=border",
    ],
    "SequenceAt": [
        "[2,3] :si32 -> 2,3",
    ],
    "NegativeLogLikelihoodLoss": [
        "2,3,4 2,4:si64 -> ",
        "2,3,4 2,4:si64 3 -> | reduction=sum",
    ],
    "SoftmaxCrossEntropyLoss": [
        "2,3,4 2,4:si64 -> ",
        "2,3,4 2,4:si64 3 -> : 2,3,4 | reduction=sum",
    ],
    "IsInf": [
        "2,3 -> 2,3:i1 | detect_negative=0 detect_positive=0",
    ],
    "Mod": [
        "2,3:si64 2,3:si64 -> 2,3:si64 | fmod=1",
    ],
    "LpPool": [
        "2,3,8 -> 2,3,7 | kernel_shape=[2]",
    ],
    "HardSwish": [
    ],
    "Hardmax": [
        "2,3 -> 2,3",
    ],
    "Dropout": [
        "2,3 : :i1 -> 2,3 2,3:i1",
    ],
    "ConstantOfShape": [
        "2:si64 -> 3,2",
    ],
    "STFT": [
        "1,8,1 :si64 4 :si64 -> 1,3,3,2",
        "1,8,1 :si64 4 -> 1,3,4,2 | onesided=0",
    ],
    "GroupNormalization": [
        "2,6,4,5 6 6 -> 2,6,4,5 | num_groups=3",
    ],
    "BitShift": [
        "2,3:ui8 :ui8 -> 2,3:ui8 | direction=LEFT",
    ],
    "Compress": [
        "6 6:i1 -> -1 | axis=0",
    ],
    "Pow": [
        "2,3:si64 2,3:si64 -> 2,3:si64",
        "2,3 : -> 2,3",
    ],
    "Add": [
        "2,3:si64 3:si64 -> 2,3:si64",
    ],
    "Sub": [
        "2,3:si64 3:si64 -> 2,3:si64",
    ],
    "Equal": [
        "2,3:si64 3:si64 -> 2,3:i1",
    ],
    "Neg": [
        "2,3:si64 -> 2,3:si64",
    ],
    "Abs": [
        "2,3:si64 -> 2,3:si64",
    ],
    "ReduceProd": [
        "2,3,4 -> 3 | axes=[0,2] keepdims=0",
        "2,3,4 2:si64 -> 3 | keepdims=0",
    ],
    "LpNormalization": [
        "2,3,4 -> 2,3,4 | axis=1",
    ],
    "LogSoftmax": [
        "2,3,4,5 -> 2,3,4,5 | axis=2",
    ],
    "Col2Im": [
        "2,10,5 2:si64 2:si64 -> 2,2,5,5 | pads=[0,0,0,0]",
        "1,4,12 2:si64 2:si64 -> 1,1,4,5",
    ],
    "MeanVarianceNormalization": [
        "2,3,4,5 -> 2,3,4,5 | axes=[0,1,2,3]",
    ],
    "Range": [
        ":si64 :si64 :si64 -> 3:si64",
    ],
}
for _n, _c in MORE.items():
    CASES[_n] = CASES.get(_n, []) + [c for c in _c if c not in CASES.get(_n, [])]
