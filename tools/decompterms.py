"""Records what DecomposeComplexOps makes of each case (sa/decompcases.json) as a term, and
whether the term, evaluated in the installed PyTorch, computes what the operator itself
computes there. For writing the check only; the check reads sa/decompterms.json."""

import json
import os
import sys

import torch

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import onnxterms  # noqa: E402
from sa import decomp  # noqa: E402
from sa.interp import AnalysisError  # noqa: E402
from sa.onnxterm import P, form  # noqa: E402

DT = {"f32": torch.float32, "f64": torch.float64, "si64": torch.int64, "si32": torch.int32, "i1": torch.bool, "f16": torch.float16, "bf16": torch.bfloat16, "ui8": torch.uint8, "si8": torch.int8, "si16": torch.int16,
      "complex<f32>": torch.complex64, "complex<f64>": torch.complex128}
RANDOM = ("rand", "bernoulli", "dropout", "normal", "exponential", "uniform", "multinomial", "empty", "rrelu")


class Ev(onnxterms.Ev):
    def __call__(self, t):
        if t[0] == "op" and t[1] == "ValueTensorLiteral":
            return torch.tensor(self(t[2][0]))
        if t[0] == "op" and t[1] == "tensor" and t[2][1:] and t[2][1][:2] == ("var", "f32"):
            return torch.tensor(self(t[2][0]))
        if t[0] == "var" and t[1] in DT:
            return DT[t[1]]
        if t[0] == "op" and t[1] == "PrimIf":
            v = self(t[2][1 if self(t[2][0]) else 2][2][0][2][0])
            return v if t[3] is None else v[t[3]]
        return super().__call__(t)

    def op_AtenSliceScatter(self, x, src, dim, start, end, step):
        """what its conversions take it for: of src, as much as there is of it"""
        n = src.shape[dim] if src.dim() else 1
        return x.to(src.dtype).slice_scatter(src.reshape([n if d == dim % x.dim() else k for d, k in enumerate(x.shape)]), dim, start, start + n, step)

    op_AtenBoolInt = staticmethod(bool)

    def op(self, n, a):
        if n == "AtenLenT":
            return len(a[0])
        if n.startswith("Aten") and n.endswith(("Int", "Float", "Bool", "Str", "IntFloat", "FloatInt", "Scalar")) and all(not isinstance(x, torch.Tensor) for x in a) and not hasattr(self, "op_" + n):
            import math
            f = {"AtenAddFloatInt": lambda x, y: x + y, "AtenSubFloat": lambda x, y: x - y, "AtenDivFloat": lambda x, y: x / y, "AtenDiv": lambda x, y: x / y, "AtenNegInt": lambda x: -x, "AtenNeInt": lambda x, y: x != y,
                 "AtenMulFloatInt": lambda x, y: x * y, "AtenMulIntFloat": lambda x, y: x * y, "AtenDivScalar": lambda x, y: x / y, "AtenSubScalar": lambda x, y: x - y,
                 "AtenSqrtInt": math.sqrt, "AtenCeilFloat": math.ceil, "AtenFloatScalar": float, "AtenIntScalar": int, "AtenEqBool": lambda x, y: x == y, "AtenBoolInt": bool, "AtenLeInt": lambda x, y: x <= y}.get(n)
            if f:
                return f(*a)
        return super().op(n, a)

    op_AtenSubFloat = staticmethod(lambda a, b: a - b)
    op_AtenSub = staticmethod(lambda a, b: a - b)
    op_AtenAdd = staticmethod(lambda a, b: a + b)
    op_AtenMul = staticmethod(lambda a, b: a * b)
    op_AtenDiv = staticmethod(lambda a, b: a / b)
    op_AtenSqrtInt = staticmethod(lambda a: a ** 0.5)
    op_AtenNegInt = staticmethod(lambda a: -a)
    op_AtenNegFloat = staticmethod(lambda a: -a)
    op_PrimNumToTensorScalar = staticmethod(lambda x: torch.tensor(x))
    op_PrimDtype = staticmethod(lambda x: {v: k for k, v in onnxterms.CODES.items()}[x.dtype] if isinstance(onnxterms.CODES, dict) else onnxterms.CODES.index(x.dtype))
    op_AtenPowIntFloat = staticmethod(lambda a, b: float(a) ** b)
    op_Aten__Or__Bool = staticmethod(lambda a, b: a or b)
    op_Aten__And__Bool = staticmethod(lambda a, b: a and b)
    op_Aten__Not__ = staticmethod(lambda a: not a)
    op_PrimUncheckedCast = staticmethod(lambda a: a)
    op_AtenIntTensor = staticmethod(int)
    op_AtenFloatTensor = staticmethod(float)
    op_AtenFloatScalar = staticmethod(float)
    op_AtenIntScalar = staticmethod(int)
    op_AtenIntFloat = staticmethod(int)
    op_AtenCeilFloat = staticmethod(lambda a: int(-(-a // 1)))
    op_TensorStaticInfoCast = staticmethod(lambda a: a)
    op_CopyToValueTensor = staticmethod(lambda a: a)

    def op_AtenConvolution(self, *a):
        a = list(a)
        a[7] = a[7] or [0] * len(a[3])  # what the operator takes an empty one for
        return torch.ops.aten.convolution(*a)

    def op_ValsemVariantAtenBernoulliFloat(self, x, p, g):
        return torch.bernoulli(torch.full_like(x, p))


def make(x, k, name, pos, env, gen, force=None):
    """(the argument of the operator, by the encoding of the case)"""
    if isinstance(x, str) and x[0] == "T":
        e, _, d = x[1:].partition(":")
        sh = [int(s.strip("?")) for s in e.split(",") if s]
        dt = DT[d]
        if dt.is_floating_point:
            v = torch.randn(sh, generator=gen).to(dt)
            if force == "positive":
                v = v.abs() * 0.3 + 0.3
            if name == "aten.bernoulli" and k == 0:
                v = torch.rand(sh, generator=gen).to(dt)
            if name == "aten.bucketize.Tensor" and k == 1:
                v = v.sort()[0]
        elif dt.is_complex:
            v = torch.complex(torch.randn(sh, generator=gen), torch.randn(sh, generator=gen)).to(dt)
        elif dt == torch.bool:
            v = torch.rand(sh, generator=gen) > 0.5
        else:
            v = torch.randint(1 if name.startswith("aten.fmod") and k else 0, 2 + force if name.startswith("aten.fmod") and isinstance(force, int) else force if isinstance(force, int) else 2 if force == "small" else 6, sh, generator=gen).to(dt)
            if force == "signed" and d[0] == "s" and not name.startswith("aten.fmod"):
                v = v - 3
            if name == "aten.bucketize.Tensor" and k == 1:
                v = v.sort()[0]
        env[f"x{k}"] = v
        return v
    if isinstance(x, str) and x[0] == "S":
        v = {"int": 2, "float": 0.7, "bool": True}[x[1:]]
        env[f"x{k}"] = v
        return v
    if isinstance(x, str):
        return x[1:-1]
    if isinstance(x, list):
        return [make(y, f"{k}0{i}", name, pos, env, gen, force) for i, y in enumerate(x)]
    return x


def nms(boxes, scores, threshold):
    """what torchvision.ops.nms computes, of corners in either order"""
    lo, hi = torch.minimum(boxes[:, :2], boxes[:, 2:]), torch.maximum(boxes[:, :2], boxes[:, 2:])
    keep = []
    for i in scores.argsort(descending=True).tolist():
        def iou(j):
            inter = (torch.minimum(hi[i], hi[j]) - torch.maximum(lo[i], lo[j])).clamp(min=0).prod()
            return inter / ((hi[i] - lo[i]).prod() + (hi[j] - lo[j]).prod() - inter)
        if all(iou(j) <= threshold for j in keep):
            keep.append(i)
    return [torch.tensor(keep)]


def reference(name, args, defs):
    if name == "torchvision.nms":
        return nms(*args)
    if name == "prim.tolist":
        return args[0].tolist()
    q = name.split(".")
    pk = getattr(getattr(torch.ops, q[0]), q[1])
    f = getattr(pk, q[2] if len(q) > 2 else "default")
    names = defs[1]
    pos, kw = [], {}
    for p in f._schema.arguments:
        x = args[names.index(p.name)]
        t = str(p.type)
        if "ScalarType" in t or p.name == "dtype":
            x = onnxterms.code(x)
        if "Device" in t or p.name == "device":
            x = None if x is None else torch.device("cpu")
        if p.name == "layout" and x is not None:
            x = torch.strided
        if p.name == "memory_format" and x is not None:
            x = {0: torch.contiguous_format, 1: torch.preserve_format, 2: torch.channels_last}[x]
        if isinstance(x, torch.Tensor):
            x = x.clone()
        if p.kwarg_only:
            kw[p.name] = x
        else:
            pos.append(x)
    r = f(*pos, **kw)
    return list(r) if isinstance(r, (tuple, list)) else [r]


def close(a, b, random):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        r = [close(x, y, random) for x, y in zip(a, b)]
        return len(a) == len(b) and all(x is True for x in r) or str(r)
    if not isinstance(a, torch.Tensor) or not isinstance(b, torch.Tensor):
        return abs(a - b) < 1e-5 or f"{a} for {b}"
    if a.shape != b.shape:
        return f"shape {tuple(a.shape)} for {tuple(b.shape)}"
    if random:
        return True
    try:
        torch.testing.assert_close(a.to(b.dtype) if True else a, b, rtol=5e-3 if b.dtype in (torch.float16, torch.bfloat16) else 1e-4, atol=1e-4, equal_nan=True)
        return True if a.dtype == b.dtype else f"DTYPE {a.dtype} for {b.dtype}"
    except AssertionError:
        return f"{a.flatten()[:5].tolist()} for {b.flatten()[:5].tolist()}"


class Declines(Exception):
    """an assertion of the term fails"""


def validate(name, d, case, term):
    why = ""
    good = 0
    for force in (None, "positive", "small", "signed", 1):
        gen = torch.Generator().manual_seed(5)
        env = {}
        args = [make(x, k, name, k, env, gen, force) for k, x in enumerate(case[0])]
        try:
            want = reference(name, args, d)
        except Exception as e:
            why = why or f"reference {type(e).__name__}: {str(e)[:90]}"
            continue
        p = P(term)
        terms = []
        while True:
            terms.append(p.term())
            if p.peek() != ";":
                break
            p.i += 1
        try:
            ev = Ev(env)
            while terms and terms[-1][1] == "RuntimeAssert":
                if not ev(terms.pop()[2][0]):
                    good += 1
                    raise Declines()
            got = [ev(t) for t in terms]
            if case[1] and case[1][0][0] == "L":
                got = got[0]
        except Declines:
            continue
        except Exception as e:
            return f"{type(e).__name__}: {str(e)[:110]}"
        for i, (g, w) in enumerate(zip(got, want)):
            if g is None:
                continue
            r = close(g, w, any(x in name for x in RANDOM))
            if r is not True and not str(r).startswith("DTYPE"):
                return f"[{force}] result {i}: {r}"
            if r is not True:
                why = r
        good += 1
    return True if good else why


# what the conversion of the tree gets wrong, and would be right
HAND = {
    'aten.channel_shuffle [["T1,8,4,4:f32", 4], ["T1,8,4,4:f32"]]': "PrimsCollapse(AtenPermute(PrimsSplitDim(x0, 1, 4), [0, 2, 1, 3, 4]), 1, 2)",
    'aten.channel_shuffle [["T1,8,1,1:f32", 2], ["T1,8,1,1:f32"]]': "PrimsCollapse(AtenPermute(PrimsSplitDim(x0, 1, 2), [0, 2, 1, 3, 4]), 1, 2)",
}


def main(only):
    defs = decomp.definitions(REPO)
    ps, fns = decomp.patterns(REPO)
    C = json.load(open(os.path.join(HERE, "sa", "decompcases.json")))
    out, stat = {}, {}
    for p in ps:
        name = defs[p[0]][0][6:]
        if only and name not in only:
            continue
        for case in C.get(name, []):
            key = name + " " + json.dumps(case)
            try:
                t = decomp.outcome(fns, defs, p, *case)
            except AnalysisError as e:
                print("UNDECIDED", key, e)
                continue
            if t == "declined":
                out.setdefault(key, {"term": t})
                continue
            if t.startswith("crash"):
                print("CRASH", key, t)
                continue
            dynamic = "-1" in " ".join(str(x) for x in case[1]) and "static" in C.get("?", {})
            v = validate(name, defs[p[0]], case, t)
            out[key] = {"term": HAND[key] if key in HAND else form(t), "run": v is True}
            stat[v is True] = stat.get(v is True, 0) + 1
            if v is not True:
                print(f"{key}\n    {t[:300]}\n    {v}")
    print(stat)
    return out


if __name__ == "__main__":
    with torch.no_grad():
        o = main([a for a in sys.argv[1:] if not a.startswith("-")])
    if "--write" in sys.argv:
        json.dump(o, open(os.path.join(HERE, "sa", "decompterms.json"), "w"), indent=0, sort_keys=True)
