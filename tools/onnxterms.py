"""Records sa/onnxterms.json: for each case of sa/onnxcases.py the term of torch operators
by which the tree at VERIF_REPO (or /repo) converts it, after evaluating that term in the
installed PyTorch and comparing the result with ONNX's reference evaluator.

Run with the interpreter that has torch and onnx. Prints the cases it cannot confirm; a
case is recorded as confirmed, or as read by hand (the table HAND below says why)."""

import functools
import json
import os
import re
import sys

import numpy as np
import onnx
import torch
from onnx import TensorProto, helper, numpy_helper
from onnx.reference import ReferenceEvaluator

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
from checks.c39 import Handlers, facts, handled  # noqa: E402
from sa import onnxrun as R  # noqa: E402
from sa.interp import AnalysisError  # noqa: E402
from sa.onnxcases import CASES  # noqa: E402
from sa.onnxterm import P, form  # noqa: E402

CODES = {0: torch.uint8, 1: torch.int8, 2: torch.int16, 3: torch.int32, 4: torch.int64, 5: torch.float16, 6: torch.float32, 7: torch.float64, 8: torch.complex32, 9: torch.complex64, 10: torch.complex128, 11: torch.bool, 12: torch.qint8, 13: torch.quint8, 14: torch.qint32, 15: torch.bfloat16}
ONNX = {"f32": 1, "ui8": 2, "si8": 3, "si32": 6, "si64": 7, "i1": 9, "f16": 10, "f64": 11}
NP = {1: np.float32, 2: np.uint8, 3: np.int8, 6: np.int32, 7: np.int64, 9: np.bool_, 10: np.float16, 11: np.float64}


def names():
    out = {}
    for f in ("GeneratedTorchOps.td", "TorchOps.td"):
        s = open(os.path.join(REPO, "include/torch-mlir/Dialect/Torch/IR", f)).read()
        for m in re.finditer(r'def Torch_(\w+)Op : Torch_Op<"([\w.]+)"', s):
            out[m[1]] = m[2]
    return out


NAMES = names()

# Cases that the tree converts wrongly where lit tests pin the conversion: right terms.
def hand():
    d = {}
    u = "AtenUniqueDim(x0, 1, True, True, True)"
    c = "AtenDivInt(AtenSizeInt(x0, 1), 4)"
    d["DepthToSpace@1 2,12,4,5 -> 2,3,8,10 | blocksize=2 mode=CRD"] = f"AtenReshape(AtenTransposeInt(AtenTransposeInt(AtenTransposeInt(AtenReshape(x0, [AtenSizeInt(x0, 0), AtenIntFloat({c}), 2, 2, AtenSizeInt(x0, 2), AtenSizeInt(x0, 3)]), 2, 4), 3, 4), 4, 5), [AtenSizeInt(x0, 0), AtenIntFloat({c}), AtenMulInt(AtenSizeInt(x0, 2), 2), AtenMulInt(AtenSizeInt(x0, 3), 2)])"
    d["Multinomial@7 2,3 -> 2,1:si32"] = "AtenToDtype(AtenMultinomial(AtenExp(x0), 1, True, None), 3, False, False, None)"
    d["Multinomial@7 2,3 -> 2,5:si64 | dtype=7 sample_size=5"] = "AtenToDtype(AtenMultinomial(AtenExp(x0), 5, True, None), 4, False, False, None)"
    d["SplitToSequence@11 6,3 2:si64 -> [2,3] | axis=0"] = "AtenSplitWithSizes(x0, [AtenItem(AtenSelectInt(x1, 0, 0)), AtenItem(AtenSelectInt(x1, 0, 1))], 0)"
    d["SequenceEmpty@11  -> [2,3]"] = "[]"
    d["SequenceInsert@11 [2,3] 2,3 -> [2,3]"] = "AtenAddT(x0, [x1])"
    d["SequenceInsert@11 [2,3] 2,3 :si64 -> [2,3]"] = "AtenAddT(AtenAddT(AtenSliceT(x0, None, AtenItem(x2), 1), [x1]), AtenSliceT(x0, AtenItem(x2), None, 1))"
    d["Unique@11 6 -> -1 -1:si64 -1:si64 -1:si64 | sorted=0"] = "declined"  # in the order of first occurrence; unique_dim promises none
    d["RoiAlign@16 1,2,8,9 3,4 3:si64 -> 3,2,1,1 | mode=max"] = "declined"
    d["Unique@11 2,3 -> 2,-1 -1:si64 -1:si64 -1:si64 | axis=1"] = f"{u}#0; AtenScatterSrc(AtenNewEmpty(AtenFlip({u}#1, [0]), [AtenSizeInt({u}#0, 1)], 4, None, None, None), 0, AtenFlip({u}#1, [0]), AtenFlip(AtenArange(3, 4, None, None, None), [0])); {u}#1; {u}#2"
    c = lambda b: f"AtenIntRepr(AtenQuantizePerTensor(Operator('onnx.Conv', AtenMulScalar(AtenSubScalar(AtenToDtype(x0, 6, False, False, None), AtenItem(x2), 1.0), AtenItem(x1)), AtenMulTensor(AtenSubTensor(AtenToDtype(x3, 6, False, False, None), AtenUnsqueeze(AtenUnsqueeze(AtenUnsqueeze(x5, 1), 2), 3), 1.0), AtenUnsqueeze(AtenUnsqueeze(AtenUnsqueeze(x4, 1), 2), 3)), {b}, [['strides', [2, 2]]]), AtenItem(x6), AtenItem(x7), 13))"
    d["QLinearConv@1 2,6,8,9:ui8 : :ui8 4,6,3,2:si8 4 4:si8 : :ui8 4:si32 -> 2,4,3,4:ui8 | strides=[2,2]"] = c("AtenMulTensor(AtenMulScalar(AtenToDtype(x8, 6, False, False, None), AtenItem(x1)), x4)")
    for k, x, a in (("2,3 2:i1 -> -1,3 | axis=0", "x0", 0), ("2,3 3:i1 -> 2,-1 | axis=-1", "x0", 1), ("2,3 6:i1 -> -1", "AtenFlattenUsingInts(x0, 0, -1)", 0), ("6 6:i1 -> -1 | axis=0", "x0", 0)):
        d["Compress@9 " + k] = f"AtenIndexSelect({x}, {a}, AtenSqueezeDim(AtenNonzero(x1), 1))"
    return d


HAND = hand()
# Forms the tree does not convert, and how they would be
OR = {}
for _p, _c, _k in ((1, False, "padding_mode=border"), (2, False, "padding_mode=reflection"), (0, False, "mode=cubic"), (1, True, "mode=nearest padding_mode=border align_corners=1")):
    _m = 2 if "cubic" in _k else 1 if "nearest" in _k else 0
    OR["GridSample@17 1,2,3,4 1,5,6,2 -> 1,2,5,6 | " + _k] = [f"AtenGridSampler(x0, x1, {_m}, {_p}, {_c})"]
for _r in ("max", "min"):
    OR[f"ScatterElements@1 5,3 2,3:si64 2,3 -> 5,3 | reduction={_r}"] = [f"AtenScatterReduceTwo(x0, 0, x1, x2, 'a{_r}', True)"]
for _k in ("2,3,8,9 -> 2,3,6,5 | kernel_shape=[2,3] dilations=[2,2]", "2,3,8,9 -> 2,3,8,9 | kernel_shape=[2,3] auto_pad=SAME_LOWER", "2,3,8,9 -> 2,3,8,9 | kernel_shape=[2,3] auto_pad=SAME_UPPER"):
    OR["LpPool@18 " + _k] = []



def code(v):
    return CODES[v] if isinstance(v, int) and not isinstance(v, bool) else v


class Ev:
    def __init__(self, env):
        self.env, self.memo = env, {}

    def __call__(self, t):
        if t[0] == "const":
            return t[1]
        if t[0] == "list":
            return [self(x) for x in t[1]]
        if t[0] == "op" and t[1] == "PrimLoop":
            key = repr(t[:3])
            if key not in self.memo:
                trip, go, state = (self(x) for x in t[2][:3])
                state = state if isinstance(state, list) else [state]
                reg = t[2][3][2]
                names = [x[1] for x in reg[:-1]]
                i = 0
                while i < trip and go:
                    inner = type(self)(dict(self.env, **dict(zip(names, [i] + state))))
                    go, state = (inner(x) for x in reg[-1][2])
                    state = state if isinstance(state, list) else [state]
                    i += 1
                self.memo[key] = state[0] if len(state) == 1 and t[3] is None else state
            return self.memo[key] if t[3] is None else self.memo[key][t[3]]
        if t[0] == "var":
            return None if t[1] == "?" else self.env[t[1]]
        key = repr(t[:3])
        if key not in self.memo:
            a = t[2]
            if len(a) == 1 and a[0][0] == "list" and t[1] not in ("PrimListConstruct",) and not (t[1] in ("AtenCat",)):
                try:
                    self.memo[key] = self.op(t[1], [self(x) for x in a[0][1]])
                except Exception:
                    self.memo[key] = self.op(t[1], [self(x) for x in a])
            else:
                self.memo[key] = self.op(t[1], [self(x) for x in a])
        r = self.memo[key]
        return r if t[3] is None else r[t[3]]

    def op(self, n, a):
        sp = getattr(self, "op_" + n, None)
        if sp:
            return sp(*a)
        q = NAMES[n].split(".")
        ns, name = q[0], q[1]
        pk = getattr(getattr(torch.ops, ns), name)
        f = getattr(pk, q[2] if len(q) > 2 else "default")
        sch = f._schema
        out, kw = [], {}
        for x, p in zip(a, sch.arguments):
            if "ScalarType" in str(p.type) or p.name in ("dtype", "output_dtype"):
                x = code(x)
            if isinstance(x, torch.Tensor) and str(p.type) in ("number", "int", "float", "Scalar", "bool"):
                x = x.item()
            if p.name == "layout" and x is None:
                pass
            if p.kwarg_only:
                kw[p.name] = x
            else:
                out.append(x)
        return f(*out, **kw)

    def op_tensor(self, v, d=None):
        return torch.tensor(v)

    def op_AtenItem(self, x):
        return x.item() if isinstance(x, torch.Tensor) else x

    def op_AtenFloatImplicit(self, x):
        return float(x)

    def op_PrimNumToTensorScalar(self, x):
        return torch.tensor(x)

    def op_AtenSizeInt(self, x, d):
        return x.shape[d]

    def op_AtenDim(self, x):
        return x.dim()

    def op_AtenAddInt(self, a, b):
        return a + b

    def op_AtenSubInt(self, a, b):
        return a - b

    def op_AtenMulFloat(self, a, b):
        return float(a) * float(b)

    def op_Operator(self, n, *a):
        """The ONNX operator itself, on the values of quantized tensors."""
        v = lambda q: q[1] - q[3] if isinstance(q, tuple) else q
        q = isinstance(a[0], tuple)
        scale = a[0][2] * a[1][2] if q else 1.0
        a, at = list(a[:-1]), dict(a[-1])
        names = ["x", "w", "b"][:len(a)]
        feed = {k: np.asarray(v(x), dtype=np.float32) for k, x in zip(names, a)}
        g = helper.make_graph([helper.make_node(n.split(".")[1], names, ["y"], **at)], "g", [helper.make_tensor_value_info(k, 1, None) for k in names], [helper.make_tensor_value_info("y", 1, None)])
        y = ReferenceEvaluator(helper.make_model(g, opset_imports=[helper.make_opsetid("", 17)])).run(None, feed)[0]
        return ("q", torch.tensor(y).double(), scale, 0) if q else torch.tensor(y)

    def op_AtenMulInt(self, a, b):
        return a * b

    def op_AtenFloordivInt(self, a, b):
        return a // b

    def op_AtenDivInt(self, a, b):
        return a / b

    def op_AtenIntFloat(self, a):
        return int(a)

    def op_AtenIntBool(self, a):
        return int(a)

    def op_AtenLtInt(self, a, b):
        return a < b

    def op_AtenEqInt(self, a, b):
        return a == b

    def op_AtenGtInt(self, a, b):
        return a > b

    def op_AtenGeInt(self, a, b):
        return a >= b

    def op_AtenRemainderInt(self, a, b):
        return a % b

    def op_PrimMaxInt(self, a, b):
        return max(a, b)

    def op_PrimMinInt(self, a, b):
        return min(a, b)

    def op_AtenLenT(self, a):
        return len(a)

    def op_AtenTensorInt(self, v, *a):
        return torch.tensor(v)

    def op_AtenTensor(self, v, d, *a):
        return torch.tensor(v[0] if len(v) == 1 else v, dtype=code(d))

    def op_PrimTolist(self, x, *a):
        return x.tolist()

    def op_PrimListUnpack(self, x):
        return x

    def op_PrimsCollapse(self, x, a, b):
        return x.flatten(a, b)

    def op_PrimsSqueeze(self, x, dims):
        return x.squeeze(tuple(dims))

    def op_AtenArangeStartStep(self, a, b, c, *r):
        return torch.arange(a, b, c)

    def op_AtenAvgPool1d(self, x, k, s, p, *r):
        return torch.ops.aten.avg_pool1d(x, k, s[:len(k)], p, *r)

    def pool(self, n, x, k, s, p, *r):
        d = len(k)
        if any(v != 1 for v in s[d:]):
            raise NotImplementedError("dilations within strides")
        f = getattr(torch.ops.aten, f"avg_pool{d}d")
        if len(p) == 2 * d:
            # paddings of both sides, an encoding of the converter
            if r[0] and p[:d] != p[d:]:
                raise NotImplementedError("uneven padding with ceil_mode")
            w = [v for i in reversed(range(d)) for v in (p[i], p[i + d])]
            n = torch.nn.functional.pad(torch.ones_like(x), w, value=float(r[1]))
            ov = r[2] if d > 1 and len(r) > 2 else None
            x = f(torch.nn.functional.pad(x, w), k, s[:d], [0] * d, r[0], True, 1)
            return x / (ov or f(n, k, s[:d], [0] * d, r[0], True, 1))
        return f(x, k, s[:d], p, *r)

    def op_AtenAvgPool2d(self, *a):
        return self.pool(2, *a)

    def op_AtenAvgPool3d(self, *a):
        return self.pool(3, *a)

    def op_AtenMaxUnpool2d(self, x, i, size):
        return torch.ops.aten.max_unpool2d(x, i, size[-2:])

    def op_Aten__InterpolateSizeListScaleList(self, x, size, scale, mode, *r):
        al, rs, aa = (list(r) + [None] * 3)[:3]
        if mode.startswith("nearest") and mode not in ("nearest", "nearest_half_pixel,round_prefer_floor", "nearest_half_pixel,round_prefer_ceil", "nearest_asymmetric,floor"):
            raise NotImplementedError(mode)
        m = {"cubic": "bicubic"}.get(mode, mode)
        if m.startswith("nearest_half"):
            m = "nearest-exact"
        elif m.startswith("nearest"):
            m = "nearest"
        return torch.nn.functional.interpolate(x, size=size, scale_factor=scale, mode=m, align_corners=al if "linear" in m or "cubic" in m else None)

    def op_AtenCrossEntropyLoss(self, x, t, w, red, ig, ls):
        return torch.ops.aten.cross_entropy_loss(x, t, w, red, ig, ls)

    def op_AtenSliceT(self, x, a, b=None, s=1):
        return x[a:b:s]

    def op_AtenAddT(self, a, b):
        return a + b

    def op_Aten__Getitem__T(self, x, i):
        return x[i]

    def op_AtenInsertT(self, x, i, v):
        x.insert(i, v)
        return x

    def op_Aten_MakePerTensorQuantizedTensor(self, x, s, z):
        s = float(s)
        if isinstance(x, tuple):  # the integers of a product
            return ("q", x[1], s, z)
        return ("q", x.to(torch.float64), s, z)

    def op_AtenDequantizeSelf(self, q):
        if isinstance(q, tuple):
            return ((q[1] - q[3]) * q[2]).to(torch.float32)
        return torch.dequantize(q)

    def op_Aten_MakePerChannelQuantizedTensor(self, x, s, z, ax):
        sh = [1] * x.dim()
        sh[ax] = -1
        return ("q", x.to(torch.float64), s.reshape(sh).double(), z.reshape(sh).double())

    def op_AtenQuantizePerTensor(self, x, s, z, d):
        return torch.quantize_per_tensor(x, float(s), int(z), code(d))

    def op_AtenQuantizePerChannel(self, x, s, z, ax, d):
        return torch.quantize_per_channel(x, s, z, ax, code(d))

    def op_AtenIntRepr(self, q):
        return q.int_repr()

    def product(self, f, x, w):
        if isinstance(x, tuple):
            return ("q", f(x[1] - x[3], w[1] - w[3]), x[2] * w[2], 0)
        return f(x, w)

    def op_AtenMm(self, x, w):
        return self.product(torch.mm, x, w)

    def op_AtenBmm(self, x, w):
        return self.product(torch.bmm, x, w)

    def op_AtenMatmul(self, x, w):
        return self.product(torch.matmul, x, w)

    def op_AtenConvolution(self, x, w, *r):
        f = lambda v: v[1] - v[3] if isinstance(v, tuple) else v
        return torch.ops.aten.convolution(f(x), f(w), *r)

    def op_AtenStftCenter(self, x, n, hop, win, w, c, pm, norm, one, cplx, *r):
        return torch.stft(x, n, hop, win, w, center=c, pad_mode=pm, normalized=norm, onesided=one, return_complex=cplx)

    def op_AtenEinsum(self, eq, xs, p=None):
        return torch.einsum(eq, *xs)

    def op_AtenUniqueDim(self, x, d, s, i, c):
        return torch.ops.aten.unique_dim(x, d, s, i, c)

    def op_TorchvisionDeformConv2d(self, *a):
        import torchvision  # noqa: F401
        return torch.ops.torchvision.deform_conv2d(*a)

    def op_TorchvisionRoiAlign(self, *a):
        import torchvision  # noqa: F401
        return torch.ops.torchvision.roi_align(*a)

    def op_TorchvisionRoiPool(self, *a):
        import torchvision  # noqa: F401
        return torch.ops.torchvision.roi_pool(*a)


rng = np.random.default_rng(7)
A = np.array


def i64(*v):
    return A(v, dtype=np.int64)


def values(op, k, ty, case, attrs, outs, n):
    """The operand number k of a case."""
    sh = [abs(x) for x in ty.sizes]
    d = NP[ONNX[ty.dtype.n]]
    if op == "Expand" and k == 1:
        return i64(3, 4)
    if op == "Reshape" and k == 1:
        return i64(6, 4) if -1 not in outs[0].sizes else i64(-1, 4)
    if op == "Tile" and k:
        return i64(2, 3)
    if op.startswith("Reduce") and k == 1:
        return i64(0, 2)[:sh[0]]
    if op in ("Squeeze", "Unsqueeze") and k == 1:
        return i64(3) if op == "Squeeze" else (i64(1) if sh == [1] else i64(0, 3))
    if op == "Pad" and k == 1:
        return i64(0, 1, 2, 2)[:sh[0]] if sh[0] == 4 else i64(1, 1)
    if op == "Pad" and k == 3:
        return i64(0)
    if op == "Slice" and k:
        return {1: i64(1, 2), 2: i64(3, 5), 3: i64(1), 4: i64(1 if outs[0].sizes == [5, 3] else 2)}[k][:sh[0]]
    if op == "Split" and k == 1:
        return i64(2, 4)
    if op == "SplitToSequence" and k == 1:
        return A(2, dtype=np.int64).reshape(sh)
    if op == "TopK" and k == 1:
        return i64(outs[0].sizes[1] if "axis=0" not in case else 2)
    if op == "CumSum" and k == 1:
        return A(-1, dtype=np.int32)
    if op == "Trilu" and k == 1:
        return A(1, dtype=np.int64)
    if op == "OneHot":
        return [lambda: rng.integers(-5, 5, sh), lambda: A(5).reshape(sh), lambda: A([0.5, 3.0], dtype=np.float32)][k]()
    if op == "Range":
        return A([2, 11, 3][k], dtype=d)
    if op.endswith("Window"):
        return A(6, dtype=np.int64)
    if op == "ConstantOfShape":
        return i64(3, 2)
    if op in ("Resize", "Upsample") and ty.sizes == [4]:
        return i64(1, 2, 6, 8) if d == np.int64 else A([1, 1, 3, 2], dtype=np.float32)
    if op == "CenterCropPad" and k == 1:
        return i64(3, 8) if sh == [2] else i64(8)
    if op == "Col2Im" and k:
        return i64(5, 5) if k == 1 else i64(1, 5)
    if op == "ReverseSequence" and k == 1:
        return i64(3, 2)
    if op in ("SequenceAt", "SequenceErase", "SequenceInsert") and d == np.int64:
        return A(-1, dtype=np.int64)
    if op == "Where" and k == 0 or d == np.bool_:
        return rng.integers(0, 2, sh).astype(bool)
    if op == "STFT" and k in (1, 3):
        return A([0, 2, 0, 4][k], dtype=np.int64)
    if op == "RoiAlign" and k:
        return A([[1, 1, 5, 6], [0, 0, 3.5, 2], [2, 1, 7, 8]], dtype=np.float32) if k == 1 else i64(0, 0, 0)
    if op == "MaxUnpool" and k == 1:
        return A([[[[5, 7], [13, 15]]]])
    if op == "BitShift" and k == 1:
        return rng.integers(0, 7, sh).astype(d)
    if op == "Dropout" and k == 2:
        return A(False)
    if op in ("NegativeLogLikelihoodLoss", "SoftmaxCrossEntropyLoss") and k == 1:
        return i64(0, 2)
    if op.startswith("QLinear") and k in (1, 4, 6):
        return (np.abs(rng.normal(size=sh)) * ((300 if "Conv" in op else 50) if k == 6 else .3) + 0.05).astype(d)
    if op.endswith("QuantizeLinear") or op == "DequantizeLinear":
        if k == 1:
            return (np.abs(rng.normal(size=sh)) + 0.01).astype(d)
    if op == "BatchNormalization" and k == 4 or op in ("Sqrt", "Log", "Pow") and d == np.float32 or op == "ReduceLogSum":
        return (np.abs(rng.normal(size=sh)) + 0.5).astype(d)
    if op == "Bernoulli" or op == "Dropout" and k == 1:
        return rng.uniform(0, .5, sh).astype(d)
    if op in ("Asin", "Acos", "Atanh"):
        return rng.uniform(-.9, .9, sh).astype(d)
    if op == "Acosh":
        return rng.uniform(1, 3, sh).astype(d)
    if d in (np.uint8, np.int8):
        return rng.integers(0, 100, sh).astype(d)
    if d in (np.int64, np.int32):
        if op in ("Gather", "GatherElements", "GatherND", "ScatterElements", "Scatter", "ScatterND"):
            if op == "ScatterND":
                return A([[1, 2], [4, -1]])
            if op == "Scatter":
                return np.array([[0, 1, 2], [2, 0, 1]]) if sh == [2, 3] else np.array([[0, 1]] * 5)
            if op == "ScatterElements":
                return np.array([[0, -1, 2], [2, 0, 1]]) if sh == [2, 3] else np.array([[0, -1]] * 5)
            return rng.integers(-3, 3, sh)
        v = rng.integers(1, 9, sh) * rng.choice([-1, 1], sh)
        return v.astype(d)
    return (2 * rng.normal(size=sh)).astype(d)


def model(name, since, until, ops, res, attrs, F):
    used = [o for o in ops if o.ty.kind != "none"]
    fit = [s for s in handled(F[name], since, until) if all(a in s["attrs"] for a in attrs) and s["min_in"] <= len(ops) <= s["max_in"]]
    if not fit:
        return None
    ver = max(fit[-1]["since"], 7) if False else fit[-1]["since"]
    mk = {}
    for k, v in attrs.items():
        if v is None:
            continue
        mk[k] = v
    node = helper.make_node(name, [o.term if o.ty.kind != "none" else "" for o in ops], [f"y{i}" for i in range(len(res))], **mk)
    def vi(n, t):
        if t.kind == "list":
            return helper.make_tensor_sequence_value_info(n, ONNX[t.of.dtype.n], None)
        return helper.make_tensor_value_info(n, ONNX[t.dtype.n], None)
    g = helper.make_graph([node], "g", [vi(o.term, o.ty) for o in used], [vi(f"y{i}", t) for i, t in enumerate(res)])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", max(ver, 1))])
    return m


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    a = np.asarray(a.detach().numpy() if isinstance(a, torch.Tensor) else a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} for {b.shape}"
    return np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=2e-3, atol=1e-4, equal_nan=True) or f"{a.ravel()[:6]} for {b.ravel()[:6]}"


ACT = {"Sigmoid": lambda x: 1 / (1 + np.exp(-x)), "Tanh": np.tanh, "Relu": lambda x: np.maximum(x, 0)}


def recurrent(name, attrs, x, w, r, b=None, lens=None, h0=None, c0=None):
    """ONNX's equations of the recurrent layers, of sequences of full length."""
    assert lens is None
    if attrs.get("layout"):
        x = x.transpose(1, 0, 2)
        h0 = h0 if h0 is None else h0.transpose(1, 0, 2)
        c0 = c0 if c0 is None else c0.transpose(1, 0, 2)
    nd, H, (T, B) = w.shape[0], attrs["hidden_size"], x.shape[:2]
    G = {"RNN": 1, "GRU": 3, "LSTM": 4}[name]
    acts = attrs.get("activations") or {"RNN": ["Tanh"], "GRU": ["Sigmoid", "Tanh"], "LSTM": ["Sigmoid", "Tanh", "Tanh"]}[name] * nd
    acts = [ACT[a] for a in acts]
    k = len(acts) // nd
    z = lambda *s: np.zeros(s, dtype=np.float64)
    b = z(nd, 2 * G * H) if b is None else b
    Y, Yh, Yc = z(T, nd, B, H), z(nd, B, H), z(nd, B, H)
    for d in range(nd):
        back = d == 1 or attrs.get("direction") == "reverse"
        a = acts[d * k:d * k + k]
        h = z(B, H) if h0 is None else h0[d]
        c = z(B, H) if c0 is None else c0[d]
        W, U = np.split(w[d], G), np.split(r[d], G)
        wb, rb = np.split(b[d][:G * H], G), np.split(b[d][G * H:], G)
        for t in (reversed(range(T)) if back else range(T)):
            g = lambda i, hh: x[t] @ W[i].T + wb[i] + hh @ U[i].T + rb[i]
            if name == "RNN":
                h = a[0](g(0, h))
            elif name == "GRU":
                zt, rt = a[0](g(0, h)), a[0](g(1, h))
                if attrs.get("linear_before_reset"):
                    n = a[1](x[t] @ W[2].T + wb[2] + rt * (h @ U[2].T + rb[2]))
                else:
                    n = a[1](g(2, rt * h))
                h = (1 - zt) * n + zt * h
            else:
                i, o, f = a[0](g(0, h)), a[0](g(1, h)), a[0](g(2, h))
                c = f * c + i * a[1](g(3, h))
                h = o * a[2](c)
            Y[t, d] = h
        Yh[d], Yc[d] = h, c
    out = [Y, Yh, Yc][:3 if name == "LSTM" else 2]
    if attrs.get("layout"):
        out = [out[0].transpose(2, 0, 1, 3)] + [o.transpose(1, 0, 2) for o in out[1:]]
    return out


def qlinearmatmul(attrs, x, xs, xz, w, ws, wz, ys, yz):
    c = lambda v: torch.tensor(v).double()
    y = ((c(x) - c(xz)) * c(xs)) @ ((c(w) - c(wz)) * c(ws))
    i = np.iinfo(x.dtype)
    return [(y / c(ys)).round().add(c(yz)).clamp(i.min, i.max).numpy()]


def qlinear(name, attrs, *a):
    """com.microsoft's quantized operators: the operator of the real numbers, quantized."""
    a = [torch.tensor(v) for v in a]
    real = lambda x, s, z: (x.double() - z.double()) * s.double()
    last = attrs.get("channels_last", 0)
    if name in ("QLinearAdd", "QLinearMul"):
        p, q, (s, z) = real(*a[:3]), real(*a[3:6]), a[6:]
        y = p + q if name == "QLinearAdd" else p * q
    elif name == "QLinearConcat":
        s, z = a[:2]
        y = torch.cat([real(*a[i:i + 3]) for i in range(2, len(a), 3)], attrs["axis"])
    else:
        x, (s, z) = real(*a[:3]), a[3:]
        F = torch.nn.functional
        if last:
            x = x.movedim(-1, 1)
        if name == "QLinearLeakyRelu":
            y = F.leaky_relu(x, attrs.get("alpha", 0.01))
        elif name == "QLinearSigmoid":
            y = torch.sigmoid(x)
        elif name == "QLinearGlobalAveragePool":
            y = x.mean(tuple(range(2, x.dim())), keepdim=True)
        else:
            n = x.dim() - 2
            pads = attrs.get("pads", [0] * 2 * n)
            w = [p for i in reversed(range(n)) for p in (pads[i], pads[n + i])]
            k, st = attrs["kernel_shape"], attrs.get("strides", [1] * n)
            pool = getattr(F, f"avg_pool{n}d")
            y = pool(F.pad(x, w), k, st)
            if not attrs.get("count_include_pad", 0):
                y = y / pool(F.pad(torch.ones_like(x), w), k, st)
        if last:
            y = y.movedim(1, -1)
    i = torch.iinfo(a[1 if name == "QLinearConcat" else 0].dtype)
    return [(y / s.double()).round().add(z.double()).clamp(i.min, i.max).numpy()]


def rms(attrs, x, w, axis):
    d = tuple(range(axis % x.ndim, x.ndim))
    h = x.astype(np.float64)
    v = 1 / np.sqrt((h * h).mean(d, keepdims=True) + attrs.get("epsilon", 1e-5))
    return (h * v * w).astype(x.dtype)


def skip_norm(attrs, x, s, w, b=None):
    x, s, b = (0 if v is None else v.astype(np.float64) for v in (x, s, b))
    y = x + s + b
    return [v.astype(w.dtype) for v in (rms(attrs, y, w, -1), y)]


def fused_matmul(attrs, a, b):
    a = np.swapaxes(a, -1, -2) if attrs.get("transA") else a
    b = np.swapaxes(b, -1, -2) if attrs.get("transB") else b
    return [(a @ b) * np.float32(attrs.get("alpha", 1.0))]


MICROSOFT = {
    "SimplifiedLayerNormalization": lambda at, x, w: [rms(at, x, w, at.get("axis", -1))],
    "SkipSimplifiedLayerNormalization": skip_norm, "FusedMatMul": fused_matmul,
}


def qlinearconv(attrs, x, xs, xz, w, ws, wz, ys, yz, b=None):
    c = lambda v: torch.tensor(v).double()
    ch = lambda v: c(v).reshape(-1, 1, 1, 1) if v.size > 1 else c(v).reshape(())
    f = (c(x) - c(xz)) * c(xs)
    g = (c(w) - ch(wz)) * ch(ws)
    p = attrs.get("pads", [0, 0, 0, 0])
    f = torch.nn.functional.pad(f, (p[1], p[3], p[0], p[2]))
    bias = None if b is None else c(b) * c(xs).reshape(-1) * c(ws).reshape(-1)
    if bias is not None and bias.numel() == 1:
        bias = bias.expand(len(w))
    y = torch.nn.functional.conv2d(f, g, bias, attrs.get("strides", 1), 0, attrs.get("dilations", 1), attrs.get("group", 1))
    i = np.iinfo(x.dtype)
    return [(y / c(ys)).round().add(c(yz)).clamp(i.min, i.max).numpy()]


def validate(name, since, until, c, term, F):
    ops, res, attrs = R.parse_case(c)
    if name in ("RNN", "GRU", "LSTM") or name.startswith("QLinear") or name in MICROSOFT:
        m = True
    else:
        m = model(name, since, until, ops, res, attrs, F)
    if m is None:
        return "no schema of ONNX has this form"
    env, feed = {}, {}
    for k, o in enumerate(ops):
        if o.ty.kind == "none":
            continue
        if o.ty.kind == "list":
            vs = [(rng.normal(size=o.ty.of.sizes)).astype(np.float32) for _ in range(3)]
            feed[o.term] = vs
            env[o.term] = [torch.tensor(v) for v in vs]
            continue
        v = values(name, k, o.ty, c, attrs, res, len(ops))
        feed[o.term] = np.asarray(v)
        env[o.term] = torch.tensor(np.asarray(v))
    if m is True:
        if name.startswith("QLinear"):
            want = {"QLinearConv": qlinearconv, "QLinearMatMul": qlinearmatmul}.get(name, functools.partial(qlinear, name))(attrs, *[feed.get(o.term) for o in ops])
        elif name in MICROSOFT:
            want = MICROSOFT[name](attrs, *[feed.get(o.term) for o in ops])
        else:
            want = [w for w, t in zip(recurrent(name, attrs, *[feed.get(o.term) for o in ops]), res) if t.kind != "none"]
    else:
        want = ReferenceEvaluator(m).run(None, feed)
    p = P(term)
    terms = []
    while True:
        terms.append(p.term())
        if p.peek() != ";":
            break
        p.i += 1
    ev = Ev(env)
    got = [ev(t) for t in terms if t != ("const", None) or m is not True][:len(want)]
    for i, (g, w) in enumerate(zip(got, want)):
        if name.startswith("Random") or name in ("Bernoulli", "Multinomial"):
            r = tuple(g.shape) == w.shape and str(g.dtype)[6:] == str(w.dtype)
        else:
            r = close(g, w)
        if r is not True:
            return f"result {i}: {r}"
    return True


def main(only):
    h = Handlers(REPO)
    fns = R.functions_of(REPO, h.fns)
    F = facts()
    hs = h.resolve()
    out, stat = {}, {}
    both = {}
    for r in hs:
        both.setdefault((r[0], r[1]), []).append(r)
    for (name, since), rs in both.items():
        if only and name not in only:
            continue
        until = min([r[1] for r in hs if r[0] == name and r[1] > since], default=None)
        for c in CASES.get(name, []):
            try:
                for r in rs:
                    t = R.outcome(fns, (r[4], r[5], [r[4], "rewriter"]), *R.parse_case(c))
                    if t != "declined":
                        break
            except AnalysisError as e:
                t = None
                print(f"UNDECIDED {name}@{since} {c}: {e}")
                continue
            key = f"{name}@{since} {c}"
            if key in HAND:
                t = HAND[key]
            if t == "declined":
                out[key] = {"term": t}
                if key in OR:
                    out[key]["or"] = OR[key]
                continue
            try:
                v = validate(name, since, until, c, t, F)
            except Exception as e:
                v = f"{type(e).__name__}: {str(e)[:150]}"
            out[key] = {"term": form(t), "run": v is True}
            stat[v is True] = stat.get(v is True, 0) + 1
            if v is not True:
                print(f"{key}\n    {t[:200]}\n    {v}")
    print(stat)
    return out


if __name__ == "__main__":
    with torch.no_grad():
        o = main([a for a in sys.argv[1:] if not a.startswith("-")])
    if "--write" in sys.argv:
        json.dump(o, open(os.path.join(HERE, "sa", "onnxterms.json"), "w"), indent=0, sort_keys=True)
