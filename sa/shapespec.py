"""The shapes PyTorch's operators produce, stated over symbolic extents.

Written from PyTorch's documentation of the operators; `tools/validate_shapes.py`
compares it with the installed PyTorch.  Nothing here is taken from the
functions that are checked."""

import itertools

from .extents import N, Domain, poly, padd, const

ERR = "error"


class Ten:
    """A tensor argument."""

    def __init__(self, dims, dtype="f"):
        self.dims, self.dtype = list(dims), dtype


class Tens:
    def __init__(self, items):
        self.items = items


class Floats(list):
    pass


class Any_:
    def __init__(self, kind):
        self.kind = kind


F = Any_("float")
I = Any_("int")
BOOL = Any_("bool")


class Case:
    def __init__(self, op, label, dom, args, expect):
        self.op, self.label, self.dom, self.args, self.expect = op, label, dom, args, expect


SPEC = {}  # op -> (group, generator of cases)


def op(group, *names):
    def deco(f):
        for n in names:
            assert n not in SPEC, n
            SPEC[n] = (group, f, n)
        return f
    return deco


def cases(name, deep=False):
    g, f, n = SPEC[name]
    seen = {}
    for label, dom, args, expect in f(n, deep):
        k = seen[label] = seen.get(label, 0) + 1
        yield Case(name, label if k == 1 else f"{label} ({k})", dom, args, expect)


# ------------------------------------------------------------------ helpers
def ext(d, n, lo=0, pre="n"):
    return [d.sym(f"{pre}{i}", lo) for i in range(n)]


def one(x):
    p = poly(x)
    return const(p) == 1


def same(a, b):
    return poly(a) == poly(b)


def bc(*shapes):
    """The broadcast shape; operands' extents are equal, or 1."""
    out = []
    for x in shapes:
        r = []
        n = max(len(out), len(x))
        for i in range(1, n + 1):
            a = out[-i] if i <= len(out) else 1
            b = x[-i] if i <= len(x) else 1
            assert same(a, b) or one(a) or one(b)
            r.insert(0, b if one(a) else a)
        out = r
    return out


def drop(s, dims, keep=False):
    n = len(s)
    dims = {d % n if n else 0 for d in dims}
    return [1 if i in dims else x for i, x in enumerate(s) if keep or i not in dims]


def prod(xs):
    r = N(1)
    for x in xs:
        r = r * x
    return r


def put(s, i, x):
    s = list(s)
    s[i] = x
    return s


def fdiv(d, a, b):
    return N(d.fdiv(poly(a), poly(b)))


def nmax(d, a, b):
    return N(d.max(poly(a), poly(b)))


def nmin(d, a, b):
    return N(d.min(poly(a), poly(b)))


def pairs(deep):
    """Pairs of shapes that broadcast: per aligned dimension equal, first 1, second 1."""
    out = [((), ()), ((), "s"), ("s", ())]
    for ra, rb in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 1), (1, 3), (0, 2), (2, 0), (3, 3)) + (((3, 2), (2, 3), (4, 4)) if deep else ()):
        k = min(ra, rb)
        ks = list(itertools.product("eab", repeat=k)) if k <= 2 or deep and k <= 3 else [tuple("eab"[(i + j) % 3] for i in range(k)) for j in range(3)]
        for c in ks:
            yield ra, rb, c


def broadcastable(deep):
    """(domain, shape, shape, label)"""
    for ra, rb, c in ((ra, rb, c) for ra, rb, c in pairs_(deep)):
        d = Domain()
        n = max(ra, rb)
        e = ext(d, n)
        a, b = list(e[n - ra:]), list(e[n - rb:])
        for i, how in enumerate(c):  # from the last dimension
            if how == "a":
                a[-1 - i] = 1
            elif how == "b":
                b[-1 - i] = 1
        yield d, a, b, f"{a} {b}"


def pairs_(deep):
    for ra, rb in [(0, 0), (1, 1), (2, 2), (1, 2), (2, 1), (3, 1), (1, 3), (0, 2), (2, 0)] + ([(3, 3), (3, 2), (2, 3)] if deep else []):
        k = min(ra, rb)
        ks = itertools.product("eab", repeat=k) if k <= 2 else [tuple("eab"[(i + j) % 3] for i in range(k)) for j in range(3)]
        for c in ks:
            yield ra, rb, c
    if not deep:
        yield 3, 3, ("a", "e", "b")
        yield 4, 2, ("b", "a")


# -------------------------------------------------------------- elementwise
LIKE = {}  # op -> (parameter, other arguments)


def like(group, names, param="self", n_out=1, lo=0, **extra):
    for n in names.split():
        op(group, n)(make_like(param, n_out, extra, lo))


def make_like(param, n_out, extra, lo):
    def f(name, deep):
        lowest = extra.get("min_rank", 0)
        for r in range(lowest, 5):
            d = Domain()
            s = ext(d, r, lo)
            args = {param: Ten(s)}
            for k, v in extra.items():
                if k == "min_rank":
                    continue
                args[k] = v(d, s) if callable(v) else v
            yield f"rank {r}", d, args, list(s) if n_out == 1 else tuple(list(s) for _ in range(n_out))
    return f


def tens(dtype="f"):
    """A tensor of the same rank with extents of its own."""
    return lambda d, s: Ten([d.sym(f"m{i}") for i in range(len(s))], dtype)


def sized(dtype="f"):
    return lambda d, s: Ten(list(s), dtype)


def vec(dtype="f"):
    return lambda d, s: Ten([d.sym("v")], dtype)


E = "elementwise"
like(E, "aten.triu aten.tril", min_rank=2)
like(E, "aten.rad2deg aten.deg2rad aten.sin aten.sinh aten.asin aten.asinh aten.cos aten.cosh aten.acos aten.acosh aten.tan aten.tanh aten.atan aten.atanh aten.erf "
     "aten.sigmoid aten.hardsigmoid aten.softplus aten.square aten.hardswish aten.silu aten.exp aten.exp2 aten.expm1 aten.special_expm1 aten.hardtanh aten.sqrt prims.sqrt "
     "aten.neg aten.floor aten.sign aten.sgn aten.detach aten.log2 aten.log10 aten.log1p aten.logit aten.rsqrt aten.abs aten.absolute aten.reciprocal aten.ceil aten.trunc "
     "aten.fix aten.log aten.log_sigmoid aten.hardshrink aten.softshrink aten.mish aten.relu aten.relu6 aten.round aten.gelu aten.contiguous aten.clone aten.lift_fresh_copy "
     "aten.isnan aten.isinf aten.isneginf aten.isposinf aten.isfinite aten.leaky_relu aten.elu aten.celu aten.rrelu aten.selu aten.logical_not aten.nan_to_num aten.real "
     "aten.zeros_like aten.ones_like aten.empty_like aten.rand_like aten.randn_like aten._to_copy aten.frac aten.signbit aten.zero aten.uniform aten.exponential "
     "aten.bernoulli aten.bernoulli.float aten.normal_functional aten.clamp aten._cast_Float aten._cast_Long")
like(E, "aten.bitwise_not", self=None) if False else op(E, "aten.bitwise_not")(lambda name, deep: (("rank " + str(r), d, {"self": Ten(s, "i")}, list(s)) for r in range(5) for d in [Domain()] for s in [ext(d, r)]))
op(E, "aten.imag")(lambda name, deep: (("rank " + str(r), d, {"self": Ten(s, "c")}, list(s)) for r in range(5) for d in [Domain()] for s in [ext(d, r)]))
like(E, "aten.round.decimals", decimals=2)
like(E, "aten.clamp_min", min=F)
like(E, "aten.clamp_max", max=F)
like(E, "aten.rsub.Scalar aten.eq.Scalar aten.ne.Scalar aten.gt.Scalar aten.ge.Scalar aten.le.Scalar aten.lt.Scalar aten.add.Scalar aten.sub.Scalar aten.mul.Scalar aten.div.Scalar "
     "aten.remainder.Scalar aten.floor_divide.Scalar", other=F)
op(E, "aten.__and__.Scalar", "aten.bitwise_and.Scalar")(lambda name, deep: (("rank " + str(r), d, {"self": Ten(s, "i"), "other": 3}, list(s)) for r in range(5) for d in [Domain()] for s in [ext(d, r)]))
like(E, "aten.div.Scalar_mode", other=F, rounding_mode="floor")
like(E, "aten.pow.Tensor_Scalar", exponent=F)
like(E, "aten.pow.Scalar", param="exponent", self=F)
like(E, "aten.threshold", threshold=F, value=F)
like(E, "aten.bernoulli.p", p=0.5)
like(E, "aten.bernoulli.Tensor", p=sized())
like(E, "aten.full_like aten.fill.Scalar", **{"fill_value": F}) if False else None
like(E, "aten.full_like", fill_value=F)
like(E, "aten.fill.Scalar", value=F)
like(E, "aten.fill.Tensor", value=lambda d, s: Ten([]))
like(E, "aten.to.dtype", dtype=6)
like(E, "aten.to.dtype_layout", dtype=6)
like(E, "aten.to.other", other=tens())
like(E, "aten.type_as", other=tens())
like(E, "aten.to.device", device=Any_("device"), dtype=6)
like(E, "aten.rrelu_with_noise", noise=sized())
like(E, "aten.rrelu_with_noise_functional", n_out=2, noise=sized())
like(E, "aten.prelu", weight=lambda d, s: Ten([1]))
like(E, "aten.dropout", param="input", p=0.5, train=BOOL)
like(E, "aten.native_dropout", param="input", n_out=2, p=0.5, train=True)
like(E, "aten.bucketize.Tensor", boundaries=vec())
like(E, "prims.convert_element_type", param="a", dtype=6)
like(E, "aten.tanh_backward aten.sigmoid_backward", param="grad_output", output=sized())
like(E, "aten.gelu_backward", param="grad_output", self=sized())
like(E, "aten.elu_backward", param="grad_output", alpha=1.0, scale=1.0, input_scale=1.0, is_result=False, self_or_result=sized())
like(E, "aten.leaky_relu_backward", param="grad_output", self=sized(), negative_slope=0.1, self_is_result=False)
like(E, "aten.rrelu_with_noise_backward", param="grad_output", self=sized(), noise=sized(), lower=0.1, upper=0.2, training=False, self_is_result=False)
like(E, "aten.hardtanh_backward", param="grad_output", self=sized(), min_val=-1.0, max_val=1.0)
like(E, "aten.softplus_backward", param="grad_output", self=sized(), beta=1.0, threshold=20.0)
like(E, "aten.fake_quantize_per_tensor_affine", scale=1.0, zero_point=0, quant_min=0, quant_max=255)
like(E, "aten.fake_quantize_per_tensor_affine.tensor_qparams", scale=lambda d, s: Ten([1]), zero_point=lambda d, s: Ten([1], "i32"), quant_min=0, quant_max=255)
like(E, "aten.fake_quantize_per_channel_affine", min_rank=1, scale=lambda d, s: Ten([s[0]]), zero_point=lambda d, s: Ten([s[0]], "i32"), axis=0, quant_min=0, quant_max=255)
like(E, "aten.fake_quantize_per_tensor_affine_cachemask", n_out=2, scale=1.0, zero_point=0, quant_min=0, quant_max=255)
like(E, "aten._fake_quantize_per_tensor_affine_cachemask_tensor_qparams", n_out=2, scale=lambda d, s: Ten([1]), zero_point=lambda d, s: Ten([1], "i32"),
     fake_quant_enabled=lambda d, s: Ten([1], "i"), quant_min=0, quant_max=255)
like(E, "aten.fake_quantize_per_channel_affine_cachemask", n_out=2, min_rank=1, scale=lambda d, s: Ten([s[0]]), zero_point=lambda d, s: Ten([s[0]], "i32"), axis=0, quant_min=0, quant_max=255)
like(E, "aten.quantize_per_channel", min_rank=1, scales=lambda d, s: Ten([s[0]], "d"), zero_points=lambda d, s: Ten([s[0]], "i"), axis=0, dtype=12)
like(E, "aten.quantize_per_tensor", scale=1.0, zero_point=0, dtype=12)
like(E, "aten.dequantize.self aten.int_repr")
like(E, "aten.dequantize.tensor", param="qtensor")
like(E, "aten._make_per_channel_quantized_tensor", min_rank=1, scale=lambda d, s: Ten([s[0]], "d"), zero_point=lambda d, s: Ten([s[0]], "i"), axis=0)
like(E, "aten._make_per_tensor_quantized_tensor", scale=1.0, zero_point=0)
like(E, "quantized_decomposed.quantize_per_tensor", param="input", scale=1.0, zero_point=0, quant_min=-128, quant_max=127, dtype=1)
like(E, "quantized_decomposed.dequantize_per_tensor", param="input", scale=1.0, zero_point=0, quant_min=-128, quant_max=127, dtype=1, out_dtype=None)
like(E, "quantized_decomposed.quantize_per_channel", param="input", min_rank=1, scales=lambda d, s: Ten([s[0]], "d"), zero_points=lambda d, s: Ten([s[0]], "i"), axis=0, quant_min=-128, quant_max=127, dtype=1)
like(E, "quantized_decomposed.dequantize_per_channel", param="input", min_rank=1, scales=lambda d, s: Ten([s[0]], "d"), zero_points=lambda d, s: Ten([s[0]], "i"), axis=0, quant_min=-128, quant_max=127, dtype=1, out_dtype=None)
like(E, "aten.expand_as", param="other", self=lambda d, s: Ten([]))
like(E, "prims.view_of", param="a")
like(E, "aten.nll_loss_backward", param="self", **{"grad_output": lambda d, s: Ten([]), "target": lambda d, s: Ten(s[:-1], "i"), "weight": None, "reduction": 1, "ignore_index": -100, "total_weight": lambda d, s: Ten([]), "min_rank": 1}) if False else None


def _nll_backward(name, deep):
    for r in (1, 2):
        d = Domain()
        s = ext(d, r, 1)
        yield f"rank {r}", d, {"grad_output": Ten([]), "self": Ten(s), "target": Ten(s[:-1], "i"), "weight": None, "reduction": 1, "ignore_index": -100, "total_weight": Ten([])}, list(s)


op("reduction", "aten.nll_loss_backward")(_nll_backward)

FLOAT2 = "aten.add.Tensor aten.sub.Tensor aten.mul.Tensor aten.div.Tensor aten.floor_divide aten.atan2 aten.copysign.Tensor aten.minimum aten.maximum aten.fmin aten.fmax aten.min.other " \
    "aten.max.other aten.ne.Tensor aten.eq.Tensor aten.gt.Tensor aten.ge.Tensor aten.lt.Tensor aten.le.Tensor aten.isclose aten.logical_or aten.logical_and aten.logical_xor " \
    "aten.remainder.Tensor aten.fmod.Tensor aten.logaddexp aten.logaddexp2 aten.ldexp.Tensor"
INT2 = "aten.__and__.Tensor aten.__or__.Tensor aten.bitwise_or.Tensor aten.bitwise_and.Tensor aten.bitwise_xor.Tensor aten.bitwise_right_shift.Tensor aten.bitwise_left_shift.Tensor"


def two(a="self", b="other", dtype="f", reject=True, order=None, **extra):
    def f(name, deep):
        for d, x, y, l in broadcastable(deep):
            yield l, d, {a: Ten(x, dtype), b: Ten(y, dtype), **extra}, bc(x, y)
        if reject:
            d = Domain()
            m, n, k = d.sym("m", 2), d.sym("n", 2), d.sym("k")
            d.differ(m, n)
            yield "extents that do not broadcast", d, {a: Ten([k, m], dtype), b: Ten([n], dtype), **extra}, ERR
    return f


for n in FLOAT2.split():
    op(E, n)(two())
for n in INT2.split():
    op(E, n)(two(dtype="i"))
op(E, "aten.div.Tensor_mode")(two(rounding_mode="floor"))
op(E, "aten.pow.Tensor_Tensor")(two("self", "exponent"))
op(E, "aten.heaviside")(two("self", "values"))
op(E, "aten.lerp.Scalar")(two("self", "end", weight=F))
op(E, "aten.clamp_min.Tensor")(two("self", "min"))
op(E, "aten.polar")(two("abs", "angle"))
op(E, "aten.threshold_backward")(two("grad_output", "self", threshold=F))
op(E, "aten.masked_fill.Scalar")(lambda name, deep: ((l, d, {"self": Ten(x), "mask": Ten(y, "b"), "value": F}, bc(x, y)) for d, x, y, l in broadcastable(deep)))
op(E, "aten.masked_fill.Tensor")(lambda name, deep: ((l, d, {"self": Ten(x), "mask": Ten(y, "b"), "value": Ten([])}, bc(x, y)) for d, x, y, l in broadcastable(deep)))
op(E, "aten.where.Scalar")(lambda name, deep: ((f"rank {r}", d, {"condition": Ten(s, "b"), "self": F, "other": F}, list(s)) for r in range(4) for d in [Domain()] for s in [ext(d, r)]))
op(E, "aten.where.ScalarOther")(lambda name, deep: ((l, d, {"condition": Ten(x, "b"), "self": Ten(y), "other": F}, bc(x, y)) for d, x, y, l in broadcastable(deep)))
op(E, "aten.where.ScalarSelf")(lambda name, deep: ((l, d, {"condition": Ten(x, "b"), "self": F, "other": Ten(y)}, bc(x, y)) for d, x, y, l in broadcastable(deep)))


def three_shapes():
    for how in (("eee"), ("a--"), ("-b-"), ("--c"), ("ab-"), ("a-c"), ("-bc")):
        for ranks in ((2, 2, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (0, 2, 1), (2, 0, 1), (1, 0, 3)):
            d = Domain()
            n = max(ranks)
            e = ext(d, n)
            ss = []
            for r, h in zip(ranks, how):
                s = list(e[n - r:])
                if h in "abc" and s:
                    s[-1] = 1
                ss.append(s)
            yield d, ss, f"{ss[0]} {ss[1]} {ss[2]}"


def three(a, b, c, dts="fff", sub=None, **extra):
    def f(name, deep):
        for d, (x, y, z), l in three_shapes():
            if sub == "into first" and not (len(bc(x, y, z)) == len(x) and all(same(i, j) for i, j in zip(bc(x, y, z), x))):
                continue
            yield l, d, {a: Ten(x, dts[0]), b: Ten(y, dts[1]), c: Ten(z, dts[2]), **extra}, bc(x, y, z)
    return f


op(E, "aten.where.self")(three("condition", "self", "other", "bff"))
op(E, "aten.lerp.Tensor")(three("self", "end", "weight"))
op(E, "aten.addcmul", "aten.addcdiv")(three("self", "tensor1", "tensor2"))
op(E, "aten.clamp.Tensor")(three("self", "min", "max"))


@op(E, "aten.broadcast_tensors")
def _(name, deep):
    for d, ss, l in three_shapes():
        yield l, d, {"tensors": Tens([Ten(s) for s in ss])}, ("list", [bc(*ss)] * 3)
    d = Domain()
    s = ext(d, 2)
    yield "one tensor", d, {"tensors": Tens([Ten(s)])}, ("list", [s])
    yield "no tensor", Domain(), {"tensors": Tens([])}, ("list", [])


# ---------------------------------------------------- along a dimension: same
def along(names, ranks=(1, 2, 3), param="self", group="elementwise", **extra):
    def f(name, deep):
        for r in ranks:
            for dim in (0, -1, r - 1, -r):
                d = Domain()
                s = ext(d, r, 1)
                args = {param: Ten(s), "dim": dim}
                args.update({k: (v(d, s) if callable(v) else v) for k, v in extra.items()})
                yield f"rank {r}, dim {dim}", d, args, list(s)
    for n in names.split():
        op(group, n)(f)


along("aten._softmax aten._log_softmax", half_to_float=False)
along("aten._safe_softmax aten.softmax.int aten.log_softmax.int aten.cumsum aten.cumprod aten.logcumsumexp aten.argsort")
along("aten._softmax_backward_data", param="output", grad_output=sized(), input_dtype=6)
along("aten._log_softmax_backward_data", param="grad_output", output=sized(), input_dtype=6)
along("aten.renorm", ranks=(2, 3), p=2.0, maxnorm=1.0)


@op(E, "aten.sort")
def _(name, deep):
    for r in (1, 2, 3):
        for dim in (0, -1):
            d = Domain()
            s = ext(d, r)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dim": dim}, (list(s), list(s))


@op(E, "aten.flip")
def _(name, deep):
    for r in (1, 2, 3):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s), "dims": [-1]}, list(s)


@op(E, "aten.roll")
def _(name, deep):
    for r in (1, 2, 3):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s), "shifts": [1], "dims": [r - 1]}, list(s)
        yield f"rank {r}, flattened", d, {"self": Ten(s), "shifts": [1]}, list(s)


@op(E, "aten.fliplr")
def _(name, deep):
    for r in (2, 3, 4):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s)}, list(s)
    yield "rank 1", Domain(), {"self": Ten([3])}, ERR


@op(E, "aten.flipud")
def _(name, deep):
    for r in (1, 2, 3):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s)}, list(s)
    yield "rank 0", Domain(), {"self": Ten([])}, ERR


@op(E, "aten.channel_shuffle")
def _(name, deep):
    for r in (3, 4):
        d = Domain()
        s = ext(d, r, 0)
        g = d.sym("g", 1)
        s[1] = s[1] * g
        yield f"rank {r}", d, {"self": Ten(s), "groups": g}, list(s)


# ------------------------------------------------------------------- factories
like_size = "aten.zeros aten.ones aten.empty.memory_format aten.rand aten.randn"


def factory(**extra):
    def f(name, deep):
        for r in range(4):
            d = Domain()
            s = ext(d, r)
            yield f"rank {r}", d, {"size": list(s), **{k: (v(d, s) if callable(v) else v) for k, v in extra.items()}}, list(s)
    return f


for n in like_size.split():
    op(E, n)(factory())
op(E, "aten.full")(factory(fill_value=F))
op(E, "aten.randn.generator")(factory(generator=None))
op(E, "aten.randint")(factory(high=10))
op(E, "aten.randint.low")(factory(low=1, high=10))
op(E, "aten.empty_strided")(factory(stride=lambda d, s: [1] * len(s)))
OTHER = lambda d, s: Ten([d.sym("m0"), d.sym("m1")])
op(E, "aten.new_full")(factory(self=OTHER, fill_value=F))
op(E, "aten.new_zeros", "aten.new_ones", "aten.new_empty")(factory(self=OTHER))
op(E, "aten.new_empty_strided")(factory(self=OTHER, stride=lambda d, s: [1] * len(s)))


def scalar_of(**args):
    return lambda name, deep: iter([("scalar", Domain(), dict(args), [])])


op(E, "prim.NumToTensor.Scalar")(scalar_of(a=F))
op(E, "aten.tensor.float")(scalar_of(t=F))
op(E, "aten.tensor.int")(scalar_of(t=3))
op(E, "aten.tensor.bool")(scalar_of(t=True))
op(E, "aten.scalar_tensor")(scalar_of(s=F))


@op(E, "aten.eye")
def _(name, deep):
    d = Domain()
    n = d.sym("n")
    yield "square", d, {"n": n}, [n, n]


@op(E, "aten.eye.m")
def _(name, deep):
    d = Domain()
    n, m = d.sym("n"), d.sym("m")
    yield "rectangular", d, {"n": n, "m": m}, [n, m]


@op(E, "aten.hann_window.periodic")
def _(name, deep):
    d = Domain()
    n = d.sym("n")
    for p in (True, False):
        yield f"periodic {p}", d, {"window_length": n, "periodic": p}, [n]


@op(E, "aten.linspace")
def _(name, deep):
    d = Domain()
    n = d.sym("n")
    yield "steps", d, {"start": F, "end": F, "steps": n}, [n]


@op(E, "aten.arange")
def _(name, deep):
    d = Domain()
    n = d.sym("n")
    yield "integer end", d, {"end": n}, [n]


@op(E, "aten.arange.start")
def _(name, deep):
    d = Domain()
    a, n = d.sym("a", None), d.sym("n", 0)
    yield "integers", d, {"start": a, "end": a + n}, [n]


@op(E, "aten.arange.start_step")
def _(name, deep):
    d = Domain()
    a, n, s = d.sym("a", None), d.sym("n", 0), d.sym("s", 1)
    yield "upwards", d, {"start": a, "end": a + n, "step": s}, [-fdiv(d, -n, s)]
    d = Domain()
    a, n, s = d.sym("a", None), d.sym("n", 0), d.sym("s", 1)
    yield "downwards", d, {"start": a, "end": a - n, "step": -s}, [-fdiv(d, -n, s)]
    d = Domain()
    a, n = d.sym("a", None), d.sym("n", 0)
    yield "default step", d, {"start": a, "end": a + n}, [n]


@op(E, "prims.iota")
def _(name, deep):
    d = Domain()
    n = d.sym("n")
    yield "length", d, {"length": n, "start": 0, "step": 1, "dtype": 4, "device": Any_("device"), "requires_grad": False}, [n]


@op(E, "aten.triu_indices", "aten.tril_indices")
def _(name, deep):
    low = "tril" in name
    for rows, cols in ((0, 3), (3, 0), (1, 1), (3, 3), (2, 5), (5, 2), (1, 4), (4, 1)):
        for off in range(-6, 7) if deep else (-6, -3, -2, -1, 0, 1, 2, 3, 6):
            n = sum(1 for i in range(rows) for j in range(cols) if (j - i <= off if low else j - i >= off))
            yield f"{rows}x{cols}, offset {off}", Domain(), {"row": rows, "col": cols, "offset": off}, [2, n]


# ------------------------------------------------------------------ reductions
R = "reduction"


def whole(**extra):
    def f(name, deep):
        for r in range(4):
            d = Domain()
            s = ext(d, r, 1)
            yield f"rank {r}", d, {"self": Ten(s), **extra}, []
    return f


op(R, "aten.any", "aten.all", "aten.min", "aten.max", "aten.sum", "aten.prod", "aten.mean", "aten.var", "aten.std")(whole())
op(R, "aten.norm.Scalar")(whole())


@op(R, "aten.var_mean")
def _(name, deep):
    for r in range(3):
        d = Domain()
        yield f"rank {r}", d, {"self": Ten(ext(d, r, 0))}, ([], [])


@op(R, "aten.trace")
def _(name, deep):
    d = Domain()
    yield "matrix", d, {"self": Ten(ext(d, 2))}, []
    d = Domain()
    yield "rank 3", d, {"self": Ten(ext(d, 3))}, ERR


@op(R, "aten.dot")
def _(name, deep):
    d = Domain()
    n = d.sym("n")
    yield "vectors", d, {"self": Ten([n]), "tensor": Ten([n])}, []


def dims_of(r, deep):
    out = [[0], [-1], [r - 1], [-r]] if r else [[0], [-1]]
    if r >= 2:
        out += [[0, 1], [0, -1], [-1, 0]]
    if r >= 3:
        out += [[0, 2], [-2], [1], [-3, -1], [0, 1, 2]]
    if deep and r >= 4:
        out += [[1, 3], [-1, 0, 2], [-4, -2]]
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def reduce_dims(param="self", dim="dim", keep=True, none=True, empty="all", n_out=1, ranks=(1, 2, 3, 4), **extra):
    def f(name, deep):
        for r in ranks:
            for dims in dims_of(r, deep) + ([None] if none else []) + ([[]] if empty else []):
                for k in (False, True) if keep else (None,):
                    d = Domain()
                    s = ext(d, r, 1)
                    ds = range(r) if dims is None or dims == [] and empty == "all" else dims
                    out = drop(s, ds, bool(k))
                    yield f"rank {r}, dims {dims}, keep {k}", d, {param: Ten(s), dim: dims, **({"keepdim": k} if keep else {}), **extra}, out if n_out == 1 else (out,) * n_out
    return f


op(R, "aten.var.dim", "aten.std.dim", "aten.var.correction", "aten.std.correction")(reduce_dims())
op(R, "aten.var_mean.dim", "aten.var_mean.correction")(reduce_dims(n_out=2))
op(R, "aten.amax", "aten.amin")(reduce_dims(none=False))
op(R, "aten.any.dims")(reduce_dims(empty="none"))
op(R, "aten.mean.dim", "aten.sum.dim_IntList", "aten.linalg_vector_norm")(reduce_dims())
op(R, "aten.linalg_norm")(reduce_dims(empty=None, ranks=(1, 2)))
op(R, "aten.frobenius_norm.dim")(reduce_dims(none=False, ranks=(2, 3)))
op(R, "aten.norm.ScalarOpt_dim")(reduce_dims(none=False, p=2.0))
op(R, "prims.sum", "prims.prod")(reduce_dims("inp", "dims", keep=False, empty=None))
op(R, "prims.var")(reduce_dims("inp", "dims", keep=False, empty=None, correction=1.0))


def reduce_dim(keep=True, none=False, n_out=1, none_keep=False, **extra):
    def f(name, deep):
        for r in (1, 2, 3):
            for dim in sorted({0, -1, r - 1, -r}) + ([None] if none else []):
                for k in (False, True) if keep else (None,):
                    d = Domain()
                    s = ext(d, r, 1)
                    out = drop(s, range(r) if dim is None else [dim], bool(k))
                    yield f"rank {r}, dim {dim}, keep {k}", d, {"self": Ten(s), "dim": dim, **({"keepdim": k} if keep else {}), **extra}, out if n_out == 1 else (out,) * n_out
        if keep and not none:
            d = Domain()
            yield "dim out of range", d, {"self": Ten(ext(d, 2, 1)), "dim": 2, **extra}, ERR
            d = Domain()
            yield "dim out of range below", d, {"self": Ten(ext(d, 2, 1)), "dim": -3, **extra}, ERR
    return f


op(R, "aten.argmax", "aten.argmin")(reduce_dim(none=True))
op(R, "aten.any.dim", "aten.all.dim", "aten.prod.dim_int")(reduce_dim())
op(R, "aten.max.dim", "aten.min.dim")(reduce_dim(n_out=2))
op(R, "aten.aminmax")(reduce_dim(none=True, n_out=2))
op(R, "aten.kthvalue")(reduce_dim(n_out=2, k=1))
@op(R, "aten.count_nonzero")
def _(name, deep):
    yield from reduce_dim(keep=False, none=True)(name, deep)
    for dim in (2, -3):
        d = Domain()
        yield f"dim {dim} out of range", d, {"self": Ten(ext(d, 2)), "dim": dim}, ERR


@op(R, "aten.count_nonzero.dim_IntList")
def _(name, deep):
    for r in (1, 2, 3):
        for dims in dims_of(r, deep):
            d = Domain()
            s = ext(d, r, 0)
            yield f"rank {r}, dims {dims}", d, {"self": Ten(s), "dim": dims}, drop(s, dims)
    for dims in ([2], [-3], [0, 2], [-3, 1], [0, 1, 2]):
        d = Domain()
        yield f"dims {dims} out of range", d, {"self": Ten(ext(d, 2)), "dim": dims}, ERR


@op(R, "aten.cosine_similarity")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (0, 1, 2, -1, -2, -3))):
        for dim in dims:
            d = Domain()
            s = ext(d, r, 0)
            yield f"rank {r}, dim {dim}", d, {"x1": Ten(s), "x2": Ten(s), "dim": dim}, drop(s, [dim])
    d = Domain()
    s = ext(d, 2, 0)
    yield "broadcast", d, {"x1": Ten([s[0], s[1]]), "x2": Ten([1, s[1]]), "dim": 1}, [s[0]]
    yield "default dim", d, {"x1": Ten(s), "x2": Ten(s)}, [s[0]]


@op(R, "aten.linalg_det")
def _(name, deep):
    d = Domain()
    n, b = d.sym("n", 0), d.sym("b")
    yield "matrix", d, {"A": Ten([n, n])}, []
    yield "batch", d, {"A": Ten([b, n, n])}, [b]
    d = Domain()
    n, m = d.sym("n", 0), d.sym("m", 0)
    d.differ(n, m)
    yield "not square", d, {"A": Ten([n, m])}, ERR


@op(R, "aten._linalg_det")
def _(name, deep):
    d = Domain()
    n, b = d.sym("n", 0), d.sym("b")
    yield "matrix", d, {"A": Ten([n, n])}, ([], [n, n], [n])
    yield "batch", d, {"A": Ten([b, n, n])}, ([b], [b, n, n], [b, n])


@op(R, "aten.linalg_slogdet")
def _(name, deep):
    d = Domain()
    n, b = d.sym("n", 0), d.sym("b")
    yield "matrix", d, {"A": Ten([n, n])}, ([], [])
    yield "batch", d, {"A": Ten([b, n, n])}, ([b], [b])


@op(R, "aten.topk")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (1, -1))):
        for dim in dims:
            d = Domain()
            s = ext(d, r)
            k = d.sym("k")
            d.assume(s[dim] - k)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "k": k, "dim": dim}, (put(s, dim, k),) * 2


# losses
def loss(names, b="target", broadcast=True, a="self", **extra):
    def f(name, deep):
        for red, full in ((0, True), (1, False), (2, False)):
            for d, x, y, l in broadcastable(False):
                if not broadcast and not (len(x) == len(y) and all(same(i, j) for i, j in zip(x, y))):
                    continue
                yield f"reduction {red}, {l}", d, {a: Ten(x), b: Ten(y), "reduction": red, **extra}, bc(x, y) if full else []
    for n in names.split():
        op(R, n)(f)


loss("aten.mse_loss aten.l1_loss aten.kl_div aten.binary_cross_entropy_with_logits")
loss("aten.poisson_nll_loss", a="input", log_input=True, full=False, eps=1e-8)


def nll(two):
    def f(name, deep):
        for red in (0, 1, 2):
            for w in (False, True):
                d = Domain()
                b, c = d.sym("b"), d.sym("c", 1)
                for s, t, full in (([b, c], [b], [b]), ([c], [], [])):
                    out = full if red == 0 else []
                    args = {"self": Ten(s), "target": Ten(t, "i"), "weight": Ten([c]) if w else None, "reduction": red}
                    if two:
                        args["ignore_index"] = -100
                    yield f"rank {len(s)}, reduction {red}, weight {w}", d, args, (out, []) if two else out
    return f


op(R, "aten.nll_loss_forward")(nll(True))


@op(R, "aten.cross_entropy_loss")
def _(name, deep):
    yield from nll(False)(name, deep)


# normalisation: the shape of the input
def norms(name, deep):
    d = Domain()
    for r in (2, 3, 4):
        d = Domain()
        s = ext(d, r, 1)
        if name == "aten.layer_norm":
            for k in (1, 2):
                yield f"rank {r}, {k} normalised", d, {"input": Ten(s), "normalized_shape": list(s[-k:])}, list(s)
        elif name == "aten.rms_norm":
            yield f"rank {r}", d, {"input": Ten(s), "normalized_shape": list(s[-1:])}, list(s)
        elif name == "aten.group_norm":
            yield f"rank {r}", d, {"input": Ten([s[0], s[1] * 2] + s[2:]), "num_groups": 2}, [s[0], s[1] * 2] + s[2:]
        elif name == "aten.instance_norm" and r >= 3:
            yield f"rank {r}", d, {"input": Ten(s), "weight": None, "bias": None, "running_mean": None, "running_var": None, "use_input_stats": True, "momentum": 0.1, "eps": 1e-5, "cudnn_enabled": False}, list(s)
        elif name == "aten.batch_norm":
            yield f"rank {r}", d, {"input": Ten(s), "weight": None, "bias": None, "running_mean": Ten([s[1]]), "running_var": Ten([s[1]]), "training": False, "momentum": 0.1, "eps": 1e-5, "cudnn_enabled": False}, list(s)


op(R, "aten.layer_norm", "aten.rms_norm", "aten.group_norm", "aten.instance_norm", "aten.batch_norm")(norms)


@op(R, "aten.native_layer_norm")
def _(name, deep):
    for r in (1, 2, 3, 4):
        for k in range(1, r + 1):
            d = Domain()
            s = ext(d, r, 0)
            m = s[:r - k] + [1] * k
            yield f"rank {r}, {k} normalised", d, {"input": Ten(s), "normalized_shape": list(s[r - k:]), "weight": None, "bias": None, "eps": 1e-5}, (list(s), m, m)


@op(R, "aten.native_batch_norm")
def _(name, deep):
    for r in (2, 3, 4):
        for tr in (True, False):
            d = Domain()
            s = ext(d, r, 1)
            yield f"rank {r}, training {tr}", d, {"input": Ten(s), "weight": None, "bias": None, "running_mean": Ten([s[1]]), "running_var": Ten([s[1]]), "training": tr, "momentum": 0.1, "eps": 1e-5}, \
                (list(s), [s[1]] if tr else [0], [s[1]] if tr else [0])


@op(R, "aten.native_group_norm")
def _(name, deep):
    d = Domain()
    n, c, h, g = d.sym("n", 0), d.sym("c", 1), d.sym("h", 1), d.sym("g", 1)
    yield "groups", d, {"input": Ten([n, c * g, h]), "weight": None, "bias": None, "N": n, "C": c * g, "HxW": h, "group": g, "eps": 1e-5}, ([n, c * g, h], [n, g], [n, g])


@op(R, "aten._weight_norm_interface")
def _(name, deep):
    d = Domain()
    a, b = d.sym("a", 0), d.sym("b")
    yield "dim 0", d, {"v": Ten([a, b]), "g": Ten([a, 1]), "dim": 0}, ([a, b], [a, 1])


@op(R, "aten.multinomial")
def _(name, deep):
    d = Domain()
    b, n, k = d.sym("b"), d.sym("n", 0), d.sym("k", 0)
    yield "vector", d, {"self": Ten([n]), "num_samples": k, "replacement": True}, [k]
    yield "matrix", d, {"self": Ten([b, n]), "num_samples": k, "replacement": True}, [b, k]


# ----------------------------------------------------------------- data movement
V = "movement"


@op(V, "aten.diagonal")
def _(name, deep):
    for r, ds in ((2, ((0, 1), (1, 0), (-1, -2), (-2, 1))), (3, ((0, 1), (0, 2), (1, 2), (2, 0), (-1, 0), (-3, -1)))):
        for d1, d2 in ds:
            for off in (-2, -1, 0, 1, 2):
                d = Domain()
                s = ext(d, r)
                a, b = s[d1], s[d2]
                n = nmax(d, nmin(d, a, b - off) if off >= 0 else nmin(d, a + off, b), 0)
                yield f"rank {r}, dims {d1} {d2}, offset {off}", d, {"self": Ten(s), "offset": off, "dim1": d1, "dim2": d2}, drop(s, [d1, d2]) + [n]
    d = Domain()
    yield "equal dims", d, {"self": Ten(ext(d, 2)), "dim1": 0, "dim2": -2}, ERR
    d = Domain()
    yield "vector", d, {"self": Ten(ext(d, 1))}, ERR
    d = Domain()
    yield "dim out of range", d, {"self": Ten(ext(d, 3)), "dim1": 3, "dim2": 1}, ERR


@op(V, "aten.diag_embed")
def _(name, deep):
    for r in (1, 2, 3):
        for d1, d2 in {1: ((-2, -1), (0, 1), (1, 0)), 2: ((-2, -1), (0, 2), (1, 0), (0, -1)), 3: ((-2, -1), (0, 3), (3, 1), (1, 2))}[r]:
            for off in (0, 1, -2):
                d = Domain()
                s = ext(d, r)
                a, b = d1 % (r + 1), d2 % (r + 1)
                rest = list(s[:-1])
                out = [s[-1] + abs(off) if i in (a, b) else rest.pop(0) for i in range(r + 1)]
                yield f"rank {r}, dims {d1} {d2}, offset {off}", d, {"self": Ten(s), "offset": off, "dim1": d1, "dim2": d2}, out
    d = Domain()
    yield "equal dims", d, {"self": Ten(ext(d, 2)), "dim1": 1, "dim2": 1}, ERR


@op(V, "aten.diag")
def _(name, deep):
    for off in (0, 1, -2):
        d = Domain()
        n = d.sym("n")
        yield f"vector, {off}", d, {"self": Ten([n]), "diagonal": off}, [n + abs(off)] * 2
        d = Domain()
        a, b = ext(d, 2)
        yield f"matrix, {off}", d, {"self": Ten([a, b]), "diagonal": off}, [nmax(d, nmin(d, a, b - off) if off >= 0 else nmin(d, a + off, b), 0)]


@op(V, "aten.glu")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (0, 1, 2, -1, -2, -3))):
        for dim in dims:
            d = Domain()
            s = ext(d, r)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(put(s, dim, s[dim] * 2)), "dim": dim}, list(s)
    d = Domain()
    s = ext(d, 2)
    yield "odd", d, {"self": Ten([s[0], s[1] * 2 + 1])}, ERR


@op(V, "prims.collapse")
def _(name, deep):
    for r, a, b in ((1, 0, 0), (2, 0, 1), (2, 1, 1), (3, 0, 1), (3, 1, 2), (3, 0, 2), (4, 1, 2), (4, 1, 3), (4, 2, 2)):
        d = Domain()
        s = ext(d, r, 0)
        yield f"rank {r}, {a} to {b}", d, {"a": Ten(s), "start": a, "end": b}, s[:a] + [prod(s[a:b + 1])] + s[b + 1:]
    d = Domain()
    yield "end before start", d, {"a": Ten(ext(d, 3, 0)), "start": 2, "end": 1}, ERR


@op(V, "prims.split_dim")
def _(name, deep):
    for r, dim in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 2)):
        d = Domain()
        s = ext(d, r, 0)
        o = d.sym("o", 1)
        yield f"rank {r}, dim {dim}", d, {"a": Ten(put(s, dim, s[dim] * o)), "dim": dim, "outer_length": o}, s[:dim] + [o, s[dim]] + s[dim + 1:]


@op(V, "aten.one_hot")
def _(name, deep):
    for r in range(3):
        d = Domain()
        s = ext(d, r)
        c = d.sym("c", 0)
        yield f"rank {r}", d, {"self": Ten(s, "i"), "num_classes": c}, s + [c]


@op(V, "aten.pixel_shuffle")
def _(name, deep):
    for r in (3, 4, 5):
        d = Domain()
        s = ext(d, r, 0)
        f = d.sym("f", 1)
        yield f"rank {r}", d, {"self": Ten(put(s, -3, s[-3] * f * f)), "upscale_factor": f}, s[:-3] + [s[-3], s[-2] * f, s[-1] * f]
    d = Domain()
    s = ext(d, 3, 0)
    yield "channels do not divide", d, {"self": Ten([s[0] * 4 + 2, s[1], s[2]]), "upscale_factor": 2}, ERR


@op(V, "aten.pixel_unshuffle")
def _(name, deep):
    for r in (3, 4, 5):
        d = Domain()
        s = ext(d, r, 0)
        f = d.sym("f", 1)
        yield f"rank {r}", d, {"self": Ten(s[:-2] + [s[-2] * f, s[-1] * f]), "downscale_factor": f}, s[:-3] + [s[-3] * f * f, s[-2], s[-1]]
    d = Domain()
    s = ext(d, 3, 1)
    yield "height does not divide", d, {"self": Ten([s[0], s[1] * 2 + 1, s[2] * 2]), "downscale_factor": 2}, ERR
    yield "width does not divide", d, {"self": Ten([s[0], s[1] * 2, s[2] * 2 + 1]), "downscale_factor": 2}, ERR


@op(V, "aten.permute")
def _(name, deep):
    for r in range(4):
        for pm in itertools.permutations(range(r)):
            for neg in (False, True):
                d = Domain()
                s = ext(d, r)
                dims = [x - r if neg and i % 2 == 0 else x for i, x in enumerate(pm)]
                yield f"rank {r}, {dims}", d, {"self": Ten(s), "dims": dims}, [s[x] for x in pm]
    d = Domain()
    yield "repeated", d, {"self": Ten(ext(d, 2)), "dims": [0, -2]}, ERR
    d = Domain()
    yield "too few", d, {"self": Ten(ext(d, 2)), "dims": [0]}, ERR


@op(V, "aten.movedim.int")
def _(name, deep):
    for r in (1, 2, 3, 4):
        for a, b in itertools.product(range(-r, r), repeat=2):
            if r == 4 and not deep and (a + 2 * b) % 3:
                continue
            d = Domain()
            s = ext(d, r)
            o = list(range(r))
            o.remove(a % r)
            o.insert(b % r, a % r)
            yield f"rank {r}, {a} to {b}", d, {"self": Ten(s), "source": a, "destination": b}, [s[i] for i in o]


@op(V, "aten.transpose.int")
def _(name, deep):
    for r in (1, 2, 3):
        for a, b in itertools.product(range(-r, r), repeat=2):
            d = Domain()
            s = ext(d, r)
            o = list(s)
            o[a], o[b] = s[b], s[a]
            yield f"rank {r}, {a} {b}", d, {"self": Ten(s), "dim0": a, "dim1": b}, o
    d = Domain()
    yield "out of range", d, {"self": Ten(ext(d, 2)), "dim0": 0, "dim1": 2}, ERR


@op(V, "aten.t")
def _(name, deep):
    d = Domain()
    a, b = ext(d, 2)
    yield "matrix", d, {"self": Ten([a, b])}, [b, a]
    yield "vector", d, {"self": Ten([a])}, [a]
    yield "scalar", d, {"self": Ten([])}, []


@op(V, "aten.numpy_T")
def _(name, deep):
    for r in range(5):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s)}, s[::-1]


@op(V, "aten.repeat")
def _(name, deep):
    for r, k in ((0, 0), (0, 2), (1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3)):
        d = Domain()
        s, m = ext(d, r), ext(d, k, 0, "r")
        yield f"rank {r}, {k} repeats", d, {"self": Ten(s), "repeats": list(m)}, m[:k - r] + [x * y for x, y in zip(s, m[k - r:])]
    d = Domain()
    yield "too few repeats", d, {"self": Ten(ext(d, 2)), "repeats": [2]}, ERR


@op(V, "aten.tile")
def _(name, deep):
    for r, k in ((0, 0), (0, 2), (1, 1), (1, 2), (2, 1), (3, 1), (3, 2), (2, 2), (1, 3), (2, 0)):
        d = Domain()
        s, m = ext(d, r), ext(d, k, 0, "r")
        n = max(r, k)
        a, b = [1] * (n - r) + s, [1] * (n - k) + m
        yield f"rank {r}, {k} dims", d, {"self": Ten(s), "dims": list(m)}, [N(x) * y for x, y in zip(a, b)]


@op(V, "aten.repeat_interleave.self_int")
def _(name, deep):
    for r in (1, 2, 3):
        for dim in [None] + list(range(-r, r)):
            d = Domain()
            s = ext(d, r, 0)
            k = d.sym("k", 0)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "repeats": k, "dim": dim}, [prod(s) * k] if dim is None else put(s, dim, s[dim] * k)


@op(V, "aten.repeat_interleave.Tensor")
def _(name, deep):
    d = Domain()
    n, o = d.sym("n"), d.sym("o")
    yield "known total", d, {"repeats": Ten([n], "i"), "output_size": o}, [o]


@op(V, "aten.expand", "aten.broadcast_to")
def _(name, deep):
    for r, k in ((0, 0), (0, 2), (1, 1), (1, 2), (2, 2), (1, 3), (2, 3)):
        for kinds in itertools.product("=1-" if r else "", repeat=min(r, 2)):
            d = Domain()
            s, t = ext(d, r), ext(d, k, 0, "t")
            size, out = list(t), list(t)
            for i in range(r):
                how = kinds[i % 2]
                j = k - r + i
                if how == "=":
                    size[j] = out[j] = s[i]
                elif how == "1":
                    s[i] = 1
                else:
                    size[j], out[j] = -1, s[i]
            yield f"{s} to {size}", d, {"self": Ten(s), "size": size}, out
    d = Domain()
    m, n = d.sym("m", 2), d.sym("n", 2)
    d.differ(m, n)
    yield "another extent", d, {"self": Ten([m]), "size": [n]}, ERR
    yield "fewer dims", d, {"self": Ten([m, n]), "size": [n]}, ERR


@op(V, "aten.view", "aten.reshape", "aten._unsafe_view")
def _(name, deep):
    p = "shape" if name == "aten.reshape" else "size"
    d = Domain()
    a, b, c = ext(d, 3, 1)
    for s, t, o in (([a, b], [a * b], [a * b]), ([a * b, c], [a, b, c], [a, b, c]), ([a, b, c], [a, b * c], [a, b * c]), ([a, b], [-1], [a * b]), ([a * b, c], [a, -1, c], [a, b, c]),
                    ([a, b, c], [a, -1], [a, b * c]), ([a, b], [-1, b], [a, b]), ([], [1], [1]), ([1], [], []), ([a, b], [b, a], [b, a])):
        yield f"{s} to {t}", d, {"self": Ten(s), p: list(t)}, o
    yield "[0, 3] to [0]", d, {"self": Ten([0, 3]), p: [0]}, [0]
    if name != "aten._unsafe_view":
        yield "another number of elements", d, {"self": Ten([2, 3]), p: [4]}, ERR
        yield "two unknown extents", d, {"self": Ten([2, 3]), p: [-1, -1]}, ERR


@op(V, "aten._reshape_alias")
def _(name, deep):
    d = Domain()
    a, b, c = ext(d, 3, 0)
    yield "flatten", d, {"self": Ten([a, b]), "size": [a * b], "stride": [1]}, [a * b]


@op(V, "aten.reshape_as")
def _(name, deep):
    d = Domain()
    a, b, c = ext(d, 3, 0)
    yield "flatten", d, {"self": Ten([a, b]), "other": Ten([a * b])}, [a * b]
    yield "split", d, {"self": Ten([a * b, c]), "other": Ten([a, b, c])}, [a, b, c]


@op(V, "aten.resize_")
def _(name, deep):
    d = Domain()
    s, t = ext(d, 2), ext(d, 3, 0, "t")
    yield "resize", d, {"self": Ten(s), "size": list(t)}, t


@op(V, "aten.as_strided")
def _(name, deep):
    d = Domain()
    a, b = d.sym("a", 0), d.sym("b")
    yield "size", d, {"self": Ten([a * b]), "size": [a, b], "stride": [b, 1], "storage_offset": 0}, [a, b]


@op(V, "aten.flatten.using_ints")
def _(name, deep):
    for r in range(5):
        for a, b in ((0, -1), (0, 1), (1, -1), (1, 2), (-2, -1), (0, 0), (-1, -1), (1, 1), (-3, -2)):
            n = max(r, 1)
            if not (-n <= a < n and -n <= b < n) or a % n > b % n:
                continue
            d = Domain()
            s = ext(d, r)
            i, j = a % n, b % n
            yield f"rank {r}, {a} to {b}", d, {"self": Ten(s), "start_dim": a, "end_dim": b}, s[:i] + [prod(s[i:j + 1])] + s[j + 1:] if r else [1]
    d = Domain()
    yield "end before start", d, {"self": Ten(ext(d, 3)), "start_dim": 2, "end_dim": 1}, ERR


@op(V, "aten.unflatten.int")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (1, -1, -3))):
        for dim in dims:
            d = Domain()
            s = ext(d, r, 0)
            x, y = d.sym("x", 1), d.sym("y", 1)
            i = dim % r
            for sizes, out in (([x, y], [x, y]), ([x, -1], [x, y]), ([-1, y], [x, y])):
                yield f"rank {r}, dim {dim}, {sizes}", d, {"self": Ten(put(s, dim, x * y)), "dim": dim, "sizes": list(sizes)}, s[:i] + out + s[i + 1:]


@op(V, "aten.unsqueeze")
def _(name, deep):
    for r in range(4):
        for dim in range(-r - 1, r + 1):
            d = Domain()
            s = ext(d, r)
            i = dim % (r + 1)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dim": dim}, s[:i] + [1] + s[i:]
    d = Domain()
    yield "out of range", d, {"self": Ten(ext(d, 2)), "dim": 3}, ERR


@op(V, "aten.squeeze")
def _(name, deep):
    for pat in ("", "1", "n", "1n", "n1", "11", "nn", "1n1", "n1n"):
        d = Domain()
        s = [1 if c == "1" else d.sym(f"n{i}", 2) for i, c in enumerate(pat)]
        yield f"{s}", d, {"self": Ten(s)}, [x for x in s if not one(x)]


@op(V, "aten.squeeze.dim")
def _(name, deep):
    for pat in ("1", "n", "1n", "n1", "11", "nn", "1n1", "n1n"):
        for dim in range(-len(pat), len(pat)):
            d = Domain()
            s = [1 if c == "1" else d.sym(f"n{i}", 2) for i, c in enumerate(pat)]
            yield f"{s}, dim {dim}", d, {"self": Ten(s), "dim": dim}, [x for i, x in enumerate(s) if not (one(x) and i == dim % len(s))]


@op(V, "prims.squeeze")
def _(name, deep):
    for pat, dims in (("1", [0]), ("1n", [0]), ("n1", [1]), ("1n1", [0, 2]), ("1n1", [0]), ("1n1", [2]), ("nn", []), ("11", [0, 1])):
        d = Domain()
        s = [1 if c == "1" else d.sym(f"n{i}", 2) for i, c in enumerate(pat)]
        yield f"{s}, dims {dims}", d, {"a": Ten(s), "dimensions": list(dims)}, [x for i, x in enumerate(s) if i not in dims]


@op(V, "aten.slice.Tensor")
def _(name, deep):
    M = 9223372036854775807
    for r, dim in ((1, 0), (2, 1), (2, -1), (3, 0), (3, -2)):
        def base():
            d = Domain()
            return d, ext(d, r)
        for step in (1, 2, 3):
            d, s = base()
            yield f"rank {r}, dim {dim}, whole, step {step}", d, {"self": Ten(s), "dim": dim, "step": step}, put(s, dim, -fdiv(d, -s[dim], step))
            d, s = base()
            yield f"rank {r}, dim {dim}, to the largest, step {step}", d, {"self": Ten(s), "dim": dim, "start": 0, "end": M, "step": step}, put(s, dim, -fdiv(d, -s[dim], step))
        d, s = base()
        a, b = d.sym("a"), d.sym("b")
        lo = nmin(d, a, s[dim])
        hi = nmin(d, nmax(d, b, lo), s[dim])
        yield f"rank {r}, dim {dim}, any start and end", d, {"self": Ten(s), "dim": dim, "start": a, "end": b}, put(s, dim, hi - lo)
        d, s = base()
        a = d.sym("a", 1)
        yield f"rank {r}, dim {dim}, from the end", d, {"self": Ten(s), "dim": dim, "start": -a, "end": M}, put(s, dim, nmin(d, a, s[dim]))
        d, s = base()
        a = d.sym("a", 1)
        yield f"rank {r}, dim {dim}, up to the end", d, {"self": Ten(s), "dim": dim, "start": 0, "end": -a}, put(s, dim, nmax(d, s[dim] - a, 0))
        d, s = base()
        a = d.sym("a")
        yield f"rank {r}, dim {dim}, no end", d, {"self": Ten(s), "dim": dim, "start": a}, put(s, dim, nmax(d, s[dim] - a, 0))
        d, s = base()
        b = d.sym("b")
        yield f"rank {r}, dim {dim}, no start", d, {"self": Ten(s), "dim": dim, "end": b}, put(s, dim, nmin(d, s[dim], b))
    # a step backwards (the form the ONNX importer of the compiler makes): from
    # start down to the element after end, both clamped to the elements there are
    for r, dim in ((1, 0), (2, -1)):
        for step in (1, 2):
            for sa in ("", "-"):
                for sb in ("", "-", "first"):
                    d = Domain()
                    s = ext(d, r, 1)
                    n = s[dim]
                    a = d.sym("a", 1 if sa else 0)
                    b = d.sym("b", 1 if sb else 0)
                    st = nmax(d, n - a, 0) if sa else nmin(d, a, n - 1)
                    en = N(-1) if sb == "first" else nmax(d, n - b, -1) if sb else b
                    ln = nmax(d, st - en, 0)
                    yield f"rank {r}, dim {dim}, backwards by {step}, {sa}start, {sb}end", d, {"self": Ten(s), "dim": dim, "start": -a if sa else a, "end": -9223372036854775807 if sb == "first" else -b if sb else b, "step": -step}, put(s, dim, -fdiv(d, -ln, step))


@op(V, "aten.narrow")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1)), (3, (1,))):
        for dim in dims:
            d = Domain()
            s = ext(d, r)
            st, ln = d.sym("start"), d.sym("length")
            d.assume(s[dim] - st - ln)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dim": dim, "start": st, "length": ln}, put(s, dim, ln)
            d = Domain()
            s = ext(d, r)
            st, ln = d.sym("start", 0), d.sym("length")
            d.assume(s[dim] - st)
            d.assume(st - ln)
            yield f"rank {r}, dim {dim}, negative start", d, {"self": Ten(s), "dim": dim, "start": -st, "length": ln}, put(s, dim, ln)


@op(V, "aten.narrow.Tensor")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1))):
        for dim in dims:
            d = Domain()
            s = ext(d, r)
            ln = d.sym("length")
            d.assume(s[dim] - ln)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dim": dim, "start": Ten([], "i"), "length": ln}, put(s, dim, ln)


@op(V, "aten.select.int")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (1, -1))):
        for dim in dims:
            d = Domain()
            s = ext(d, r)
            i = d.sym("i")
            d.assume(s[dim] - i - 1)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dim": dim, "index": i}, drop(s, [dim])
            d = Domain()
            s = ext(d, r)
            i = d.sym("i", 1)
            d.assume(s[dim] - i)
            yield f"rank {r}, dim {dim}, negative", d, {"self": Ten(s), "dim": dim, "index": -i}, drop(s, [dim])


@op(V, "aten.index_select")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (1, -1))):
        for dim in dims:
            d = Domain()
            s = ext(d, r, 0)
            k = d.sym("k")
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dim": dim, "index": Ten([k], "i")}, put(s, dim, k)
            yield f"rank {r}, dim {dim}, scalar index", d, {"self": Ten(s), "dim": dim, "index": Ten([], "i")}, put(s, dim, 1)


@op(V, "aten.gather")
def _(name, deep):
    for r in (1, 2, 3):
        d = Domain()
        s, m = ext(d, r, 0), ext(d, r, 1, "m")
        for i in range(r):
            if i:
                d.assume(s[i] - m[i])
        yield f"rank {r}", d, {"self": Ten(s), "dim": 0, "index": Ten(m, "i")}, list(m)


def scattered(**extra):
    def f(name, deep):
        for r in (1, 2, 3):
            d = Domain()
            s, m = ext(d, r, 1), ext(d, r, 1, "m")
            for i in range(r):
                if i:
                    d.assume(s[i] - m[i])
            yield f"rank {r}", d, {"self": Ten(s), "dim": 0, "index": Ten(m, "i"), **{k: (Ten(m) if v == "src" else v) for k, v in extra.items()}}, list(s)
    return f


op(V, "aten.scatter.src", "aten.scatter_add")(scattered(src="src"))
op(V, "aten.scatter.value")(scattered(value=F))
op(V, "aten.scatter_reduce.two")(scattered(src="src", reduce="sum"))


@op(V, "aten.slice_scatter")
def _(name, deep):
    for r, dim in ((1, 0), (2, 1), (2, -1)):
        d = Domain()
        s = ext(d, r)
        k = d.sym("k")
        d.assume(s[dim] - k)
        yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "src": Ten(put(s, dim, k)), "dim": dim, "start": 0, "end": k}, list(s)


@op(V, "aten.select_scatter")
def _(name, deep):
    for r, dim in ((1, 0), (2, 1), (2, -1)):
        d = Domain()
        s = ext(d, r, 0)
        yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "src": Ten(drop(s, [dim])), "dim": dim, "index": 0}, list(s)


@op(V, "aten.masked_scatter")
def _(name, deep):
    for d, x, y, l in broadcastable(deep):
        yield l, d, {"self": Ten(x), "mask": Ten(y, "b"), "source": Ten(bc(x, y))}, bc(x, y)


@op(V, "aten.copy")
def _(name, deep):
    for d, x, y, l in broadcastable(deep):
        o = bc(x, y)
        if len(o) == len(x) and all(same(i, j) for i, j in zip(o, x)):
            yield l, d, {"self": Ten(x), "src": Ten(y)}, list(x)


@op(V, "aten.index_put", "aten._index_put_impl", "aten.index_put.hacked_twin")
def _(name, deep):
    for r in (1, 2, 3):
        d = Domain()
        s = ext(d, r, 0)
        k = d.sym("k", 0)
        yield f"rank {r}", d, {"self": Ten(s), "indices": Tens([Ten([k], "i")]), "values": Ten([k] + s[1:])}, list(s)


def indexed(name, deep):
    tw = name.endswith("hacked_twin")
    for r in (1, 2, 3, 4):
        for pat in itertools.product("_i", repeat=r):
            if "i" not in pat or tw and "_" in pat:
                continue
            for keep in range(1, r + 1):
                if any(c == "i" for c in pat[keep:]) or (keep < r and pat[keep - 1] == "_" and keep > 1 and False):
                    continue
                if keep < r and not all(c == "_" for c in pat[keep:]):
                    continue
                if r == 4 and keep < 4 and not deep:
                    continue
                for shape in ("k", "kl", "mixed"):
                    if shape != "k" and r == 4 and not deep:
                        continue
                    d = Domain()
                    s = ext(d, r, 1)
                    k, l = d.sym("k"), d.sym("l")
                    n = sum(c == "i" for c in pat)
                    if shape == "mixed" and n < 2:
                        continue
                    ixs = {"k": [[k]] * n, "kl": [[k, l]] * n, "mixed": [[k, 1]] + [[l]] * (n - 1)}[shape]
                    j, idx = 0, []
                    for c in pat[:keep]:
                        if c == "i":
                            idx.append(Ten(ixs[j], "i"))
                            j += 1
                        else:
                            idx.append(None)
                    b = bc(*ixs)
                    at = [i for i, c in enumerate(pat) if c == "i"]
                    rest = [x for i, x in enumerate(s) if i not in at]
                    together = at[-1] - at[0] == len(at) - 1
                    out = s[:at[0]] + b + s[at[-1] + 1:] if together else b + rest
                    yield f"rank {r}, {''.join(pat[:keep])}, {shape}", d, {"self": Ten(s), "indices": Tens(idx)}, out


op(V, "aten.index.Tensor", "aten.index.Tensor_hacked_twin")(indexed)


@op(V, "aten.cat")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (0, 1, 2, -1))):
        for dim in dims:
            for n in (1, 2, 3):
                d = Domain()
                s = ext(d, r, 0)
                ks = [d.sym(f"k{i}", 0) for i in range(n)]
                yield f"{n} of rank {r}, dim {dim}", d, {"tensors": Tens([Ten(put(s, dim, k)) for k in ks]), "dim": dim}, put(s, dim, sum(ks[1:], ks[0]))


@op(V, "aten.stack")
def _(name, deep):
    for r in range(3):
        for dim in range(-r - 1, r + 1):
            for n in (1, 2, 3):
                d = Domain()
                s = ext(d, r, 0)
                i = dim % (r + 1)
                yield f"{n} of rank {r}, dim {dim}", d, {"tensors": Tens([Ten(s)] * n), "dim": dim}, s[:i] + [n] + s[i:]


@op(V, "aten.hstack")
def _(name, deep):
    for r in range(4):
        for n in (1, 2, 3):
            d = Domain()
            s = ext(d, r, 0)
            if r == 0:
                yield f"{n} scalars", d, {"tensors": Tens([Ten([])] * n)}, [n]
                continue
            dim = 0 if r == 1 else 1
            ks = [d.sym(f"k{i}", 0) for i in range(n)]
            yield f"{n} of rank {r}", d, {"tensors": Tens([Ten(put(s, dim, k)) for k in ks])}, put(s, dim, sum(ks[1:], ks[0]))


@op(V, "aten.column_stack")
def _(name, deep):
    for n in (1, 2, 3):
        d = Domain()
        a = d.sym("a", 0)
        yield f"{n} vectors", d, {"tensors": Tens([Ten([a]) for _ in range(n)])}, [a, n]
        yield f"{n} scalars", d, {"tensors": Tens([Ten([]) for _ in range(n)])}, [1, n]
        d = Domain()
        a = d.sym("a", 0)
        ks = [d.sym(f"k{i}", 0) for i in range(n)]
        yield f"{n} matrices", d, {"tensors": Tens([Ten([a, k]) for k in ks])}, [a, sum(ks[1:], ks[0])]
    d = Domain()
    a, k = d.sym("a", 0), d.sym("k", 0)
    yield "vector and matrix", d, {"tensors": Tens([Ten([a]), Ten([a, k])])}, [a, k + 1]


@op(V, "aten.atleast_1d")
def _(name, deep):
    for r in range(4):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s)}, s or [1]


@op(V, "aten.atleast_2d")
def _(name, deep):
    for r in range(4):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s)}, [1] * (2 - r) + s


@op(V, "aten.rot90")
def _(name, deep):
    for r, ds in ((2, ((0, 1), (1, 0), (-1, 0))), (3, ((0, 1), (1, 2), (0, -1)))):
        for a, b in ds:
            for k in (-5, -3, -2, -1, 0, 1, 2, 3, 4, 5):
                d = Domain()
                s = ext(d, r)
                o = list(s)
                if k % 2:
                    o[a], o[b] = s[b], s[a]
                yield f"rank {r}, dims {a} {b}, k {k}", d, {"self": Ten(s), "k": k, "dims": [a, b]}, o
    yield "vector", Domain(), {"self": Ten([3]), "k": 1, "dims": [0, 1]}, ERR


@op(V, "aten.unfold")
def _(name, deep):
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1)), (3, (1, -2))):
        for dim in dims:
            d = Domain()
            s = ext(d, r, 0)
            k, st = d.sym("size", 0), d.sym("step", 1)
            d.assume(s[dim] - k)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dimension": dim, "size": k, "step": st}, put(s, dim, fdiv(d, s[dim] - k, st) + 1) + [k]
    d = Domain()
    s = ext(d, 1, 0)
    yield "dimension out of range", d, {"self": Ten(s), "dimension": 1, "size": 1, "step": 1}, ERR
    yield "dimension out of range below", d, {"self": Ten(s), "dimension": -2, "size": 1, "step": 1}, ERR
    k = d.sym("k", 1)
    yield "larger than the dimension", d, {"self": Ten(s), "dimension": 0, "size": s[0] + k, "step": 1}, ERR
    yield "larger than the dimension, scalar", d, {"self": Ten([]), "dimension": 0, "size": k + 1, "step": 1}, ERR
    yield "dimension out of range, scalar", d, {"self": Ten([]), "dimension": k, "size": 1, "step": 1}, ERR
    for k in (0, 1):
        for dim in (0, -1):
            yield f"scalar, size {k}, dim {dim}", d, {"self": Ten([]), "dimension": dim, "size": k, "step": 1}, [k]


@op(V, "aten.view_as_complex")
def _(name, deep):
    for r in range(4):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r + 1}", d, {"self": Ten(s + [2])}, s


@op(V, "aten.view_as_real")
def _(name, deep):
    for r in range(4):
        d = Domain()
        s = ext(d, r)
        yield f"rank {r}", d, {"self": Ten(s, "c")}, s + [2]


@op(V, "aten._shape_as_tensor")
def _(name, deep):
    for r in range(4):
        d = Domain()
        yield f"rank {r}", d, {"self": Ten(ext(d, r))}, [r]


UNKNOWN = "unknown"


@op(V, "aten.nonzero")
def _(name, deep):
    for r in (1, 2, 3):
        d = Domain()
        yield f"rank {r}", d, {"self": Ten(ext(d, r))}, [UNKNOWN, r]


@op(V, "aten.nonzero_static")
def _(name, deep):
    for r in (1, 2, 3):
        d = Domain()
        k = d.sym("k")
        yield f"rank {r}", d, {"self": Ten(ext(d, r)), "size": k}, [k, r]


@op(V, "aten.masked_select")
def _(name, deep):
    d = Domain()
    s = ext(d, 2)
    yield "mask", d, {"self": Ten(s), "mask": Ten(s, "b")}, [UNKNOWN]


@op(V, "aten.bincount")
def _(name, deep):
    d = Domain()
    yield "vector", d, {"self": Ten(ext(d, 1), "i")}, [UNKNOWN]


@op(V, "aten.embedding")
def _(name, deep):
    d = Domain()
    v, e = d.sym("v", 0), d.sym("e", 0)
    for r in range(4):
        s = [d.sym(f"n{i}") for i in range(r)]
        yield f"indices of rank {r}", d, {"weight": Ten([v, e]), "indices": Ten(s, "i")}, s + [e]


@op(V, "aten.embedding_bag.padding_idx", "aten._embedding_bag")
def _(name, deep):
    # PyTorch's devices differ in the extents of the bookkeeping results (the
    # Nones); the rest are the same on all of them.
    for mode in (0, 1, 2):
        for last in (False, True):
            for weights in (False, True) if mode == 0 else (False,):
                for idx in (False, True):
                    d = Domain()
                    v, e, n, b = d.sym("v", 1), d.sym("e", 0), d.sym("n", 0), d.sym("b", 0)
                    out = [b if last else b + 1, e]
                    x = {"padding_idx": 0 if idx else None} if name.endswith("padding_idx") else {"padding_idx": 0} if idx else {}
                    res = (out, [n] if mode or idx else None, None if last else [b + 1], out if mode == 2 else None)
                    yield f"mode {mode}, last offset {last}, weights {weights}, padding {idx}", d, {
                        "weight": Ten([v, e]), "indices": Ten([n], "i"), "offsets": Ten([b + 1], "i"), "scale_grad_by_freq": False, "mode": mode, "sparse": False,
                        "per_sample_weights": Ten([n]) if weights else None, "include_last_offset": last, **x}, res
    d = Domain()
    v, e, n, b = ext(d, 4, 1)
    base = {"scale_grad_by_freq": False, "mode": 0, "sparse": False, "per_sample_weights": None, "include_last_offset": False, **({"padding_idx": None} if name.endswith("padding_idx") else {})}
    yield "weight of rank 1", d, {"weight": Ten([v]), "indices": Ten([n], "i"), "offsets": Ten([b], "i"), **base}, ERR


# ---------------------------------------------------------- products and windows
W = "windows"


@op(W, "aten.matmul")
def _(name, deep):
    d = Domain()
    a, b, c, p, q = ext(d, 5)
    yield "vectors", d, {"self": Ten([a]), "other": Ten([a])}, []
    yield "matrix vector", d, {"self": Ten([a, b]), "other": Ten([b])}, [a]
    d1 = Domain()
    a1, b1 = d1.sym("a"), d1.sym("b")
    yield "vector matrix", d1, {"self": Ten([a1]), "other": Ten([a1, b1])}, [b1]
    yield "matrices", d, {"self": Ten([a, b]), "other": Ten([b, c])}, [a, c]
    yield "batch by matrix", d, {"self": Ten([p, a, b]), "other": Ten([b, c])}, [p, a, c]
    yield "matrix by batch", d, {"self": Ten([a, b]), "other": Ten([p, b, c])}, [p, a, c]
    yield "batch by batch", d, {"self": Ten([p, a, b]), "other": Ten([p, b, c])}, [p, a, c]
    yield "batch broadcast", d, {"self": Ten([1, a, b]), "other": Ten([p, b, c])}, [p, a, c]
    yield "batch broadcast, second", d, {"self": Ten([q, p, a, b]), "other": Ten([p, b, c])}, [q, p, a, c]
    yield "batch broadcast, both", d, {"self": Ten([q, 1, a, b]), "other": Ten([p, b, c])}, [q, p, a, c]
    yield "batch by vector", d, {"self": Ten([p, a, b]), "other": Ten([b])}, [p, a]
    yield "vector by batch", d, {"self": Ten([b]), "other": Ten([p, b, c])}, [p, c]
    d = Domain()
    a, b, c, e = [d.sym(x, 0) for x in "abce"]
    d.differ(b, e)
    yield "inner extents differ", d, {"self": Ten([a, b]), "other": Ten([e, c])}, ERR


def mm(name, deep):
    d = Domain()
    a, b, c = ext(d, 3, 1)
    x = {}
    if "_scaled_mm" in name:
        x = {"scale_a": Ten([]), "scale_b": Ten([])}
    if name.endswith("_v2"):
        x = {"scale_a": Tens([Ten([])]), "recipe_a": [], "swizzle_a": [], "scale_b": Tens([Ten([])]), "recipe_b": [], "swizzle_b": [], "bias": None, "out_dtype": None}
    dt = "i8" if "int" in name else "f"
    yield "matrices", d, {"self": Ten([a, b], dt), "mat2": Ten([b, c], dt), **x}, [a, c]
    d = Domain()
    a, b, c, e = [d.sym(y, 1) for y in "abce"]
    d.differ(b, e)
    yield "inner extents differ", d, {"self": Ten([a, b], dt), "mat2": Ten([e, c], dt), **x}, ERR


op(W, "aten.mm", "aten._int_mm", "aten._scaled_mm", "aten._scaled_mm_v2")(mm)


@op(W, "aten.mv")
def _(name, deep):
    d = Domain()
    a, b = ext(d, 2)
    yield "matrix vector", d, {"self": Ten([a, b]), "vec": Ten([b])}, [a]


@op(W, "aten.outer")
def _(name, deep):
    d = Domain()
    a, b = ext(d, 2)
    yield "vectors", d, {"self": Ten([a]), "vec2": Ten([b])}, [a, b]


@op(W, "aten.bmm")
def _(name, deep):
    d = Domain()
    p, a, b, c = ext(d, 4)
    yield "batches", d, {"self": Ten([p, a, b]), "mat2": Ten([p, b, c])}, [p, a, c]
    d = Domain()
    p, a, b, c, q = [d.sym(y, 0) for y in "pabcq"]
    d.differ(p, q)
    yield "batches differ", d, {"self": Ten([p, a, b]), "mat2": Ten([q, b, c])}, ERR


@op(W, "aten.baddbmm", "aten.addbmm")
def _(name, deep):
    d = Domain()
    p, a, b, c = ext(d, 4)
    out = [p, a, c] if "badd" in name else [a, c]
    for s in ([p, a, c], [a, c], [c], [1, c], [a, 1], []):
        if name == "aten.addbmm" and len(s) == 3:
            continue
        yield f"{s}", d, {"self": Ten(s), "batch1": Ten([p, a, b]), "batch2": Ten([p, b, c])}, out


@op(W, "aten.addmm")
def _(name, deep):
    d = Domain()
    a, b, c = ext(d, 3)
    for s in ([a, c], [c], [1, c], [a, 1], []):
        yield f"{s}", d, {"self": Ten(s), "mat1": Ten([a, b]), "mat2": Ten([b, c])}, [a, c]


@op(W, "aten.linear")
def _(name, deep):
    for r in (1, 2, 3, 4):
        for bias in (False, True):
            d = Domain()
            s = ext(d, r, 0)
            o = d.sym("o", 0)
            yield f"rank {r}, bias {bias}", d, {"input": Ten(s), "weight": Ten([o, s[-1]]), "bias": Ten([o]) if bias else None}, s[:-1] + [o]


@op(W, "aten.bilinear")
def _(name, deep):
    for r in (1, 2, 3):
        for bias in (False, True):
            d = Domain()
            s = ext(d, r - 1, 1)
            a, b, o = d.sym("a", 1), d.sym("b", 1), d.sym("o", 1)
            yield f"rank {r}, bias {bias}", d, {"input1": Ten(s + [a]), "input2": Ten(s + [b]), "weight": Ten([o, a, b]), "bias": Ten([o]) if bias else None}, s + [o]
    d = Domain()
    n, a, b, o, q = [d.sym(x, 1) for x in "naboq"]
    d.differ(o, q)
    yield "bias of another extent", d, {"input1": Ten([n, a]), "input2": Ten([n, b]), "weight": Ten([o, a, b]), "bias": Ten([q])}, ERR
    yield "bias of rank 2", d, {"input1": Ten([n, a]), "input2": Ten([n, b]), "weight": Ten([o, a, b]), "bias": Ten([n, o])}, ERR
    yield "first operand does not fit", d, {"input1": Ten([n, o]), "input2": Ten([n, b]), "weight": Ten([a, q, b])}, ERR
    yield "second operand does not fit", d, {"input1": Ten([n, a]), "input2": Ten([n, o]), "weight": Ten([b, a, q])}, ERR
    yield "batches differ", d, {"input1": Ten([o, a]), "input2": Ten([q, b]), "weight": Ten([n, a, b])}, ERR
    yield "ranks differ", d, {"input1": Ten([a]), "input2": Ten([n, b]), "weight": Ten([o, a, b])}, ERR


@op(W, "aten._trilinear")
def _(name, deep):
    d = Domain()
    a, b, c = ext(d, 3, 0)
    yield "no expansion", d, {"i1": Ten([a, b, c]), "i2": Ten([a, b, c]), "i3": Ten([a, b, c]), "expand1": [], "expand2": [], "expand3": [], "sumdim": [0]}, [b, c]
    yield "two summed", d, {"i1": Ten([a, b, c]), "i2": Ten([a, b, c]), "i3": Ten([a, b, c]), "expand1": [], "expand2": [], "expand3": [], "sumdim": [0, 2]}, [b]
    yield "expanded", d, {"i1": Ten([b, c]), "i2": Ten([a, c]), "i3": Ten([a, b]), "expand1": [0], "expand2": [1], "expand3": [2], "sumdim": [2]}, [a, b]
    yield "nothing summed", d, {"i1": Ten([b, c]), "i2": Ten([a, c]), "i3": Ten([a, b]), "expand1": [0], "expand2": [1], "expand3": [2], "sumdim": [], "unroll_dim": 2}, [a, b, c]
    yield "first summed", d, {"i1": Ten([b, c]), "i2": Ten([a, c]), "i3": Ten([a, b]), "expand1": [0], "expand2": [1], "expand3": [2], "sumdim": [0], "unroll_dim": 0}, [b, c]
    yield "counted from the end", d, {"i1": Ten([a, b, c]), "i2": Ten([a, b, c]), "i3": Ten([a, b, c]), "expand1": [], "expand2": [], "expand3": [], "sumdim": [-1]}, [a, b]
    full = {"i1": Ten([a, b]), "i2": Ten([a, b]), "i3": Ten([a, b]), "expand1": [], "expand2": [], "expand3": [], "sumdim": [0]}
    for u in (2, 3, -1):
        yield f"unrolled dim {u}", d, {**full, "unroll_dim": u}, ERR
    yield "unrolled dim too large with expansion", d, {**full, "expand1": [0], "expand2": [0], "expand3": [0], "unroll_dim": 3}, ERR
    yield "expansion out of range", d, {**full, "expand1": [3], "expand2": [3], "expand3": [3], "unroll_dim": 0}, ERR
    yield "ranks differ", d, {**full, "i1": Ten([a, b, c]), "unroll_dim": 0}, ERR


@op(W, "aten.scaled_dot_product_attention")
def _(name, deep):
    for lead in ((), ("b",), ("b", "h")):
        d = Domain()
        pre = [d.sym(x, 0) for x in lead]
        l, s, e, v = [d.sym(x, 0) for x in "lsev"]
        yield f"rank {len(lead) + 2}", d, {"query": Ten(pre + [l, e]), "key": Ten(pre + [s, e]), "value": Ten(pre + [s, v])}, pre + [l, v]
    d = Domain()
    b, h, l, s, e, v = [d.sym(x, 1) for x in "bhlsev"]
    for q, k, w in (([1, h], [b, h], [b, h]), ([b, h], [1, h], [1, h]), ([b, 1], [b, h], [b, h]), ([b, h], [b, 1], [b, 1]), ([b, h], [b, h], [b, 1]), ([1, 1], [b, h], [b, h]),
                    ([h], [b, h], [b, h]), ([b, h], [h], [h]), ([], [b], [b]), ([b], [], [])):
        yield f"batches {q}, {k}, {w}", d, {"query": Ten(q + [l, e]), "key": Ten(k + [s, e]), "value": Ten(w + [s, v])}, max([q, k, w], key=len)[:0] + ([b, h] if h in q + k + w else [b]) + [l, v]
    d = Domain()
    b, h, g, l, s, e, v = [d.sym(x, 1) for x in "bhglsev"]
    yield "grouped heads", d, {"query": Ten([b, h * g, l, e]), "key": Ten([b, h, s, e]), "value": Ten([b, h, s, v]), "enable_gqa": True}, [b, h * g, l, v]
    d = Domain()
    b, c, l, s, e, v = [d.sym(x, 2) for x in "bclsev"]
    d.differ(b, c)
    yield "batches differ", d, {"query": Ten([b, l, e]), "key": Ten([c, s, e]), "value": Ten([c, s, v])}, ERR


@op(W, "aten.linalg_cross")
def _(name, deep):
    for r, dim in ((1, -1), (2, -1), (2, 0), (3, 1)):
        d = Domain()
        s = put(ext(d, r), dim, 3)
        yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "other": Ten(s), "dim": dim}, s
    d = Domain()
    n = d.sym("n")
    yield "broadcast", d, {"self": Ten([1, 3]), "other": Ten([n, 3])}, [n, 3]
    yield "broadcast, second", d, {"self": Ten([n, 3]), "other": Ten([1, 3])}, [n, 3]
    yield "another rank", d, {"self": Ten([3]), "other": Ten([n, 3])}, ERR


def conv_out(d, x, k, p, s, dl):
    """floor((x + 2p - dl(k-1) - 1) / s) + 1"""
    return fdiv(d, N(x) + N(p) * 2 - N(dl) * (N(k) - 1) - 1, s) + 1


def conv_syms(d, n, groups=True):
    b, ci, co = d.sym("b"), d.sym("ci", 1), d.sym("co", 1)
    g = d.sym("g", 1) if groups else N(1)
    xs, ks = [d.sym(f"x{i}", 1) for i in range(n)], [d.sym(f"k{i}", 1) for i in range(n)]
    ps, ss, ds = [d.sym(f"p{i}", 0) for i in range(n)], [d.sym(f"s{i}", 1) for i in range(n)], [d.sym(f"d{i}", 1) for i in range(n)]
    return b, ci, co, g, xs, ks, ps, ss, ds


def conv(n, transposed=False, full=False, plain=False):
    def f(name, deep):
        for bias in (False, True):
            d = Domain()
            b, ci, co, g, xs, ks, ps, ss, ds = conv_syms(d, n)
            for x, k, p, dl in zip(xs, ks, ps, ds):
                if not transposed:
                    d.assume(N(x) + N(p) * 2 - N(dl) * (N(k) - 1) - 1)
            args = {"input": Ten([b, ci * g] + xs), "weight": Ten(([ci * g, co] if transposed else [co * g, ci]) + ks), "bias": Ten([co * g]) if bias else None,
                    "stride": list(ss), "padding": list(ps), "dilation": list(ds), "groups": g}
            op_ = [d.sym(f"o{i}", 0) for i in range(n)]
            if transposed:
                args["output_padding"] = list(op_)
                out = [(N(x) - 1) * s - N(p) * 2 + N(dl) * (N(k) - 1) + o + 1 for x, k, p, s, dl, o in zip(xs, ks, ps, ss, ds, op_)]
                for o, s in zip(op_, ss):
                    d.assume(N(s) - 1 - o)
                for x in out:
                    d.assume(x - 1)
            else:
                out = [conv_out(d, *t) for t in zip(xs, ks, ps, ss, ds)]
            if full:
                args.update(transposed=transposed, output_padding=list(op_) if transposed else [0] * n)
                if "_convolution" in name:
                    args.update(benchmark=False, deterministic=False, cudnn_enabled=False)
                    if not name.endswith("deprecated"):
                        args["allow_tf32"] = False
            yield f"{n}-d, bias {bias}" + (", transposed" if transposed else ""), d, args, [b, co * g] + out
        if not full:
            d = Domain()
            b, ci, co, g, xs, ks, *_ = conv_syms(d, n, False)
            if not transposed:
                for x, k in zip(xs, ks):
                    d.assume(N(x) - k)
            yield f"{n}-d, defaults", d, {"input": Ten([b, ci] + xs), "weight": Ten(([ci, co] if transposed else [co, ci]) + ks)}, \
                [b, co] + [N(x) + k - 1 if transposed else N(x) - k + 1 for x, k in zip(xs, ks)]
    return f


op(W, "aten.conv1d")(conv(1))
op(W, "aten.conv2d")(conv(2))
op(W, "aten.conv3d")(conv(3))
op(W, "aten.conv_transpose1d")(conv(1, True))
op(W, "aten.conv_transpose2d.input")(conv(2, True))
op(W, "aten.conv_transpose3d.input")(conv(3, True))


@op(W, "aten.convolution", "aten._convolution", "aten._convolution.deprecated")
def _(name, deep):
    for n in (1, 2, 3):
        for t in (False, True):
            yield from conv(n, t, True)(name, deep)


def conv_padding(n):
    def f(name, deep):
        for mode in ("valid", "same"):
            d = Domain()
            b, ci, co, g, xs, ks, ps, ss, ds = conv_syms(d, n)
            if mode == "valid":
                for x, k, dl in zip(xs, ks, ds):
                    d.assume(N(x) - N(dl) * (N(k) - 1) - 1)
                out = [conv_out(d, x, k, 0, s, dl) for x, k, s, dl in zip(xs, ks, ss, ds)]
            else:
                ss, out = [1] * n, xs
            yield mode, d, {"input": Ten([b, ci * g] + xs), "weight": Ten([co * g, ci] + ks), "stride": list(ss), "padding": mode, "dilation": list(ds), "groups": g}, [b, co * g] + out
        for dil in ([1] * n, list(range(1, n + 1))):
            for kk in (1, 2, 3, 4):
                d = Domain()
                b, ci, co = d.sym("b"), d.sym("ci", 1), d.sym("co", 1)
                xs = [d.sym(f"x{i}", 1) for i in range(n)]
                ks = [kk + i for i in range(n)]
                yield f"same, kernel {ks}, dilation {dil}", d, {"input": Ten([b, ci] + xs), "weight": Ten([co, ci] + ks), "padding": "same", "dilation": dil}, [b, co] + xs
    return f


op(W, "aten.conv1d.padding")(conv_padding(1))
op(W, "aten.conv2d.padding")(conv_padding(2))
op(W, "aten.conv3d.padding")(conv_padding(3))


@op(W, "aten.conv_tbc")
def _(name, deep):
    d = Domain()
    t, b, c, k, o, p = d.sym("t", 0), d.sym("b"), d.sym("c", 0), d.sym("k", 0), d.sym("o", 0), d.sym("p")
    d.assume(t + p * 2 - k)
    yield "time, batch, channels", d, {"self": Ten([t, b, c]), "weight": Ten([k, c, o]), "bias": Ten([o]), "pad": p}, [t + p * 2 - k + 1, b, o]


@op(W, "aten.convolution_backward")
def _(name, deep):
    d = Domain()
    b, ci, co, x, k = [d.sym(y, 0) for y in ("b", "ci", "co", "x", "k")]
    d.assume(x - k)
    yield "1-d", d, {"grad_output": Ten([b, co, x - k + 1]), "input": Ten([b, ci, x]), "weight": Ten([co, ci, k]), "bias_sizes": [co], "stride": [1], "padding": [0], "dilation": [1],
                     "transposed": False, "output_padding": [0], "groups": 1, "output_mask": [True, True, True]}, ([b, ci, x], [co, ci, k], [co])


@op(W, "torchvision.deform_conv2d")
def _(name, deep):
    d = Domain()
    b, ci, co, h, w, kh, kw, oh, ow = [d.sym(y, 0) for y in ("b", "ci", "co", "h", "w", "kh", "kw", "oh", "ow")]
    yield "offsets", d, {"input": Ten([b, ci, h, w]), "weight": Ten([co, ci, kh, kw]), "offset": Ten([b, kh * kw * 2, oh, ow]), "mask": Ten([b, kh * kw, oh, ow]), "bias": Ten([co]),
                         "stride_h": 1, "stride_w": 1, "pad_h": 0, "pad_w": 0, "dilation_h": 1, "dilation_w": 1, "groups": 1, "offset_groups": 1, "use_mask": False}, [b, co, oh, ow]


@op(W, "torchvision.roi_align", "torchvision.roi_pool")
def _(name, deep):
    d = Domain()
    b, c, h, w, k, ph, pw = [d.sym(y, 0) for y in ("b", "c", "h", "w", "k", "ph", "pw")]
    args = {"input": Ten([b, c, h, w]), "rois": Ten([k, 5]), "spatial_scale": 1.0, "pooled_height": ph, "pooled_width": pw}
    if name.endswith("align"):
        args.update(sampling_ratio=2, aligned=False)
    o = [k, c, ph, pw]
    yield "boxes", d, args, o if name.endswith("align") else (o, list(o))


def pool_out(d, x, k, p, s, dl, ceil):
    num = N(x) + N(p) * 2 - N(dl) * (N(k) - 1) - 1
    if not ceil:
        return fdiv(d, num, s) + 1
    return fdiv(d, num + s - 1, s) + 1  # less the window that starts outside


def pool(n, dilated=True, n_out=1, ranks=True, param="self"):
    def f(name, deep):
        for batch in (True, False):
            for form in ("full", "one", "nostride"):
                if n == 1 and form == "one":
                    continue
                d = Domain()
                pre = ([d.sym("b")] if batch else []) + [d.sym("c", 1)]
                xs, ks = [d.sym(f"x{i}", 1) for i in range(n)], [d.sym(f"k{i}", 1) for i in range(n)]
                ps, ss, ds = [d.sym(f"p{i}", 0) for i in range(n)], [d.sym(f"s{i}", 1) for i in range(n)], [d.sym(f"d{i}", 1) if dilated else N(1) for i in range(n)]
                if form == "one":
                    ks, ps, ss, ds = [ks[0]] * n, [ps[0]] * n, [ss[0]] * n, [ds[0]] * n
                if form == "nostride":
                    ss = ks
                args = {param: Ten(pre + xs), "kernel_size": ks[:1] if form == "one" else list(ks), "padding": ps[:1] if form == "one" else list(ps),
                        "stride": [] if form == "nostride" else ss[:1] if form == "one" else list(ss)}
                if dilated:
                    args["dilation"] = ds[:1] if form == "one" else list(ds)
                for x, k, p, dl in zip(xs, ks, ps, ds):
                    d.assume(N(k) - N(p) * 2)
                    d.assume(N(x) + N(p) * 2 - N(dl) * (N(k) - 1) - 1)
                out = pre + [pool_out(d, x, k, p, s, dl, False) for x, k, p, s, dl in zip(xs, ks, ps, ss, ds)]
                yield f"batch {batch}, {form}", d, args, out if n_out == 1 else (out,) * n_out
        # rounding up: numbers, so that the last window is known
        for x, k, p, s, dl in ((7, 3, 0, 2, 1), (8, 3, 0, 2, 1), (8, 3, 1, 2, 1), (5, 2, 1, 3, 1), (4, 2, 1, 4, 1), (9, 3, 1, 4, 1), (8, 2, 0, 3, 2 if dilated else 1), (3, 1, 0, 5, 1)):
            d = Domain()
            pre = [d.sym("b"), d.sym("c", 1)]
            num = x + 2 * p - dl * (k - 1) - 1
            o = -(-num // s) + 1
            if (o - 1) * s >= x + p:
                o -= 1
            args = {param: Ten(pre + [x] * n), "kernel_size": [k] * n, "padding": [p] * n, "stride": [s] * n, "ceil_mode": True}
            if dilated:
                args["dilation"] = [dl] * n
            out = pre + [o] * n
            yield f"ceil, {x} {k} {p} {s} {dl}", d, args, out if n_out == 1 else (out,) * n_out
        # rejected
        d = Domain()
        b, c, x, k = d.sym("b"), d.sym("c", 1), d.sym("x", 1), d.sym("k", 1)
        d.assume(k - x - 1)
        base = {"padding": [0] * n, "stride": [1] * n, **({"dilation": [1] * n} if dilated else {})}
        for i in range(n):
            yield f"window larger than the input, {i}", d, {param: Ten([b, c] + put([x + 5] * n, i, x)), "kernel_size": put([1] * n, i, k), **base}, ERR
            yield f"window larger than the input, unbatched, {i}", d, {param: Ten([c] + put([x + 5] * n, i, x)), "kernel_size": put([1] * n, i, k), **base}, ERR
        xs = [d.sym(f"y{i}", 4) for i in range(n)]
        yield "rank too large", d, {param: Ten([b, c] + xs + [4]), "kernel_size": [2] * n, **base}, ERR
        yield "rank too small", d, {param: Ten(xs), "kernel_size": [2] * n, **base}, ERR
        for what, bad in (("kernel_size", 4), ("stride", 4), ("padding", 4), ("dilation", 4)):
            if what != "dilation" or dilated:
                yield f"{what} of another length", d, {param: Ten([b, c] + xs), "kernel_size": [2] * n, **base, what: [1] * bad}, ERR
        if n > 1:
            for what in ("kernel_size", "stride") + (("dilation",) if dilated else ()):
                for i in range(n):
                    yield f"{what} of zero, {i}", d, {param: Ten([b, c] + xs), "kernel_size": [2] * n, **base, what: put([1] * n, i, 0)}, ERR
            for i in range(n):
                yield f"padding beyond half the kernel, {i}", d, {param: Ten([b, c] + xs), "kernel_size": [3] * n, **base, "padding": put([1] * n, i, 2)}, ERR
            for r in (n + 1, n + 2):
                for i in range(1, r):
                    yield f"nothing in dim {i} of {r}", d, {param: Ten(put(([b] if r > n + 1 else []) + [c] + xs, i, 0)), "kernel_size": [1] * n, **base}, ERR
    return f


op(W, "aten.max_pool1d")(pool(1))
op(W, "aten.max_pool1d_with_indices")(pool(1, n_out=2))
op(W, "aten.max_pool2d")(pool(2))
op(W, "aten.max_pool3d")(pool(3))
op(W, "aten.max_pool2d_with_indices")(pool(2, n_out=2))
op(W, "aten.max_pool3d_with_indices")(pool(3, n_out=2))
op(W, "aten.avg_pool1d")(pool(1, False))
op(W, "aten.avg_pool2d")(pool(2, False))
op(W, "aten.avg_pool3d")(pool(3, False))


@op(W, "aten.max_pool2d_with_indices_backward")
def _(name, deep):
    d = Domain()
    s = ext(d, 4, 1)
    g = [s[0], s[1], d.sym("oh", 1), d.sym("ow", 1)]
    yield "input", d, {"grad_output": Ten(g), "self": Ten(s), "kernel_size": [2, 2], "stride": [2, 2], "padding": [0, 0], "dilation": [1, 1], "ceil_mode": False, "indices": Ten(g, "i")}, s


def adaptive(n, n_out):
    def f(name, deep):
        for batch in (True, False):
            d = Domain()
            pre = ([d.sym("b")] if batch else []) + [d.sym("c", 1)]
            xs, os_ = [d.sym(f"x{i}", 1) for i in range(n)], [d.sym(f"o{i}", 1) for i in range(n)]
            out = pre + os_
            yield f"batch {batch}", d, {"self": Ten(pre + xs), "output_size": list(os_)}, out if n_out == 1 else (out,) * n_out
        d = Domain()
        yield "rank too large", d, {"self": Ten(ext(d, n + 3, 1)), "output_size": [2] * n}, ERR
    return f


for n_ in (1, 2, 3):
    op(W, f"aten.adaptive_avg_pool{n_}d")(adaptive(n_, 1))
    op(W, f"aten.adaptive_max_pool{n_}d")(adaptive(n_, 2))


def unpool(n):
    def f(name, deep):
        for batch in (True, False):
            d = Domain()
            pre = ([d.sym("b")] if batch else []) + [d.sym("c", 1)]
            xs, os_ = [d.sym(f"x{i}", 1) for i in range(n)], [d.sym(f"o{i}", 1) for i in range(n)]
            args = {"self": Ten(pre + xs), "indices": Ten(pre + xs, "i"), "output_size": list(os_)}
            if n == 3:
                args.update(stride=[2] * 3, padding=[0] * 3)
            yield f"batch {batch}", d, args, pre + os_
    return f


op(W, "aten.max_unpool2d")(unpool(2))
op(W, "aten.max_unpool3d")(unpool(3))


@op(W, "aten.grid_sampler")
def _(name, deep):
    d = Domain()
    b, c, h, w, oh, ow = [d.sym(y, 0) for y in ("b", "c", "h", "w", "oh", "ow")]
    yield "2-d", d, {"input": Ten([b, c, h, w]), "grid": Ten([b, oh, ow, 2]), "interpolation_mode": 0, "padding_mode": 0, "align_corners": False}, [b, c, oh, ow]


@op(W, "aten.upsample_nearest1d", "aten.upsample_nearest2d", "aten.upsample_bilinear2d")
def _(name, deep):
    n = 1 if "1d" in name else 2
    d = Domain()
    s = ext(d, n + 2, 1)
    o = [d.sym(f"o{i}", 1) for i in range(n)]
    yield "size", d, {"self": Ten(s), "output_size": list(o), **({"align_corners": False} if "bilinear" in name else {})}, s[:2] + o


@op(W, "aten.upsample_nearest1d.vec", "aten.upsample_nearest2d.vec", "aten.upsample_bilinear2d.vec")
def _(name, deep):
    n = 1 if "1d" in name else 2
    x = {"align_corners": False} if "bilinear" in name else {}
    d = Domain()
    s = ext(d, n + 2, 1)
    o = [d.sym(f"o{i}", 1) for i in range(n)]
    yield "size", d, {"input": Ten(s), "output_size": list(o), "scale_factors": None, **x}, s[:2] + o
    yield "whole scale", d, {"input": Ten(s), "output_size": None, "scale_factors": Floats([2.0, 3.0][:n]), **x}, s[:2] + [y * k for y, k in zip(s[2:], (2, 3))]
    yield "scale in halves", d, {"input": Ten(s), "output_size": None, "scale_factors": Floats([1.5, 2.5][:n]), **x}, s[:2] + [fdiv(d, y * k, 2) for y, k in zip(s[2:], (3, 5))]
    yield "both", d, {"input": Ten(s), "output_size": list(o), "scale_factors": Floats([2.0, 3.0][:n]), **x}, ERR
    yield "neither", d, {"input": Ten(s), "output_size": None, "scale_factors": None, **x}, ERR


@op(W, "aten.__interpolate.size_list_scale_list")
def _(name, deep):
    d = Domain()
    s = ext(d, 4, 1)
    o = [d.sym(f"o{i}", 1) for i in range(2)]
    yield "size", d, {"input": Ten(s), "size": list(o)}, s[:2] + o
    yield "whole scale", d, {"input": Ten(s), "scale_factor": Floats([2.0, 3.0])}, s[:2] + [s[2] * 2, s[3] * 3]
    yield "scale in halves", d, {"input": Ten(s), "scale_factor": Floats([1.5, 2.5])}, s[:2] + [fdiv(d, s[2] * 3, 2), fdiv(d, s[3] * 5, 2)]


@op(W, "aten.upsample_nearest2d_backward")
def _(name, deep):
    d = Domain()
    s = ext(d, 4, 1)
    o = [d.sym(f"o{i}", 1) for i in range(2)]
    yield "input", d, {"grad_output": Ten(s[:2] + o), "output_size": list(o), "input_size": list(s)}, s


def padded(kind):
    def f(name, deep):
        n = {"replication_pad1d": 1, "replication_pad2d": 2, "replication_pad3d": 3, "reflection_pad1d": 1, "reflection_pad2d": 2, "reflection_pad3d": 3}.get(name.split(".")[1])
        par = "padding" if n else "pad"
        for r in ((n + 1, n + 2) if n else (1, 2, 3, 4)):
            for k in ((n,) if n else range(0, r + 1)):
                d = Domain()
                s = ext(d, r, 1)
                ps = [d.sym(f"p{i}", 0) for i in range(2 * k)]
                out = list(s)
                for i in range(k):
                    out[-1 - i] = out[-1 - i] + ps[2 * i] + ps[2 * i + 1]
                    if name.startswith("aten.reflection"):
                        d.assume(s[-1 - i] - ps[2 * i] - 1)
                        d.assume(s[-1 - i] - ps[2 * i + 1] - 1)
                yield f"rank {r}, {k} dims", d, {"self": Ten(s), par: list(ps)}, out
        if not n:
            d = Domain()
            s = ext(d, 2, 3)
            yield "cropped", d, {"self": Ten(s), par: [-1, 0, 1, -2]}, [s[0] - 1, s[1] - 1]
            yield "too many", d, {"self": Ten(s), par: [1] * 6}, ERR
            yield "odd", d, {"self": Ten(s), par: [1]}, ERR
        elif name.startswith("aten.reflection"):
            d = Domain()
            s = ext(d, n + 1, 3)
            q = d.sym("q", 0)
            for side in (0, 1):
                for i in range(n):
                    p = [0] * (2 * n)
                    p[2 * i + side] = s[-1 - i] + q
                    yield f"larger than the input, dim {-1 - i}, side {side}", d, {"self": Ten(s), par: p}, ERR
    return f


op(W, "aten.constant_pad_nd", "aten.pad", "aten.replication_pad1d", "aten.replication_pad2d", "aten.replication_pad3d", "aten.reflection_pad1d", "aten.reflection_pad2d", "aten.reflection_pad3d")(padded(None))


@op(W, "aten.col2im")
def _(name, deep):
    for batch in (True, False):
        d = Domain()
        pre = [d.sym("b")] if batch else []
        c, h, w = d.sym("c", 1), d.sym("h", 1), d.sym("w", 1)
        k, dl, p, s = [[d.sym(f"{x}{i}", lo) for i in range(2)] for x, lo in (("k", 1), ("d", 1), ("p", 0), ("s", 1))]
        blocks = [fdiv(d, N(x) + N(p[i]) * 2 - N(dl[i]) * (N(k[i]) - 1) - 1, s[i]) + 1 for i, x in enumerate((h, w))]
        for b_, x, i in zip(blocks, (h, w), (0, 1)):
            d.assume(N(x) + N(p[i]) * 2 - N(dl[i]) * (N(k[i]) - 1) - 1)
        yield f"batch {batch}", d, {"self": Ten(pre + [c * k[0] * k[1], blocks[0] * blocks[1]]), "output_size": [h, w], "kernel_size": list(k), "dilation": list(dl), "padding": list(p), "stride": list(s)}, pre + [c, h, w]
    good = {"output_size": [4, 5], "kernel_size": [2, 2], "dilation": [1, 1], "padding": [0, 0], "stride": [1, 1]}
    for pre in ([], [d.sym("b")]):
        for k in good:
            yield f"{k} of one number, batch {len(pre)}", d, {"self": Ten(pre + [c * 4, 12]), **good, k: good[k][:1]}, ERR
        for k, v in (("kernel_size", 0), ("dilation", 0), ("stride", 0), ("padding", -1)):
            for i in (0, 1):
                yield f"{k} {v} at {i}, batch {len(pre)}", d, {"self": Ten(pre + [c * 4, 12]), **good, k: put(good[k], i, v)}, ERR
        yield f"channels do not divide, batch {len(pre)}", d, {"self": Ten(pre + [c * 4 + 2, 12]), **good}, ERR
        yield f"blocks do not fit, batch {len(pre)}", d, {"self": Ten(pre + [c * 4, h + 12]), **good}, ERR
        yield f"no channels, batch {len(pre)}", d, {"self": Ten(pre + [0, 12]), **good}, ERR
        yield f"no blocks, batch {len(pre)}", d, {"self": Ten(pre + [c * 4, 0]), **good}, ERR
    yield "rank 1", d, {"self": Ten([c]), **good}, ERR
    yield "rank 4", d, {"self": Ten([1, 1, c * 4, 12]), **good}, ERR


def fft(name, deep):
    real = name.endswith("rfft")
    for r, dims in ((1, (0, -1)), (2, (0, 1, -1, -2)), (3, (1, -1))):
        for dim in dims:
            d = Domain()
            s = ext(d, r, 1)
            yield f"rank {r}, dim {dim}", d, {"self": Ten(s), "dim": dim}, put(s, dim, fdiv(d, s[dim], 2) + 1) if real else list(s)
            n = d.sym("n", 1)
            yield f"rank {r}, dim {dim}, length given", d, {"self": Ten(s), "n": n, "dim": dim}, put(s, dim, fdiv(d, n, 2) + 1 if real else n)
    for dim in (2, -3) if real else ():
        d = Domain()
        yield f"dim {dim} out of range", d, {"self": Ten(ext(d, 2, 1)), "dim": dim}, ERR


op(W, "aten.fft_fft", "aten.fft_rfft")(fft)


@op(W, "aten.fft_ifft")
def _(name, deep):
    for l, d, a, o in fft("aten.fft_fft", deep):
        a["self"].dtype = "c"
        yield l, d, a, o


@op(W, "aten.stft", "aten.stft.center")
def _(name, deep):
    for batch in (False, True):
        for hop in (True, False):
            for onesided in (None, True, False):
                for center in (None, True, False) if name.endswith("center") else (False,):
                    for cplx in (True, False):
                        for odd in (0, 1):
                            d = Domain()
                            pre = [d.sym("b", 1)] if batch else []
                            ln, hp = d.sym("len", 1), d.sym("hop", 1)
                            m = d.sym("m", 1 - odd)
                            n = m * 2 + odd  # the width of a window
                            h = hp
                            if not hop:
                                n = N(8 + odd) if center is not False else d.sym("n", 4)
                                h = fdiv(d, n, 4)
                                if odd and center is False:
                                    continue
                            if center is not False:
                                # padded by half a window on either side, by reflection
                                d.assume(ln - 1 - (N(4) if not hop else m))
                                fr = 1 + fdiv(d, ln - odd, h)
                            else:
                                d.assume(ln - n)
                                fr = 1 + fdiv(d, ln - n, h)
                            args = {"self": Ten(pre + [ln]), "n_fft": n, "hop_length": h if hop else None, "onesided": onesided, "return_complex": cplx}
                            if name.endswith("center") and center is not None:
                                args["center"] = center
                            half = m + 1 if hop else N(5) if center is not False else fdiv(d, n, 2) + 1
                            f = half if onesided in (None, True) else n
                            yield f"batch {batch}, hop {hop}, onesided {onesided}, center {center}, complex {cplx}, odd {odd}", d, args, pre + [f, fr] + ([] if cplx else [2])
    c = {"center": False} if name.endswith("center") else {}
    d = Domain()
    b, ln, n, h = d.sym("b", 1), d.sym("len", 1), d.sym("n", 0), d.sym("h", 0)
    for pre in ([], [b]):
        yield f"window wider than the signal, batch {len(pre)}", d, {"self": Ten(pre + [ln]), "n_fft": ln + n + 1, "hop_length": 1, "return_complex": True, **c}, ERR
        yield f"window of no width, batch {len(pre)}", d, {"self": Ten(pre + [ln]), "n_fft": -n, "hop_length": 1, "return_complex": True, **c}, ERR
        yield f"no hop, batch {len(pre)}", d, {"self": Ten(pre + [ln + 8]), "n_fft": 4, "hop_length": -h, "return_complex": True, **c}, ERR
        yield f"no default hop, batch {len(pre)}", d, {"self": Ten(pre + [ln + 8]), "n_fft": 3, "return_complex": True, **c}, ERR
    yield "rank 0", d, {"self": Ten([]), "n_fft": 1, "hop_length": 1, "return_complex": True, **c}, ERR
    yield "rank 3", d, {"self": Ten([b, b, ln + 8]), "n_fft": 4, "hop_length": 1, "return_complex": True, **c}, ERR


@op(W, "onnx.rotary_embedding")
def _(name, deep):
    for r in (3, 4):
        d = Domain()
        s = ext(d, r, 0)
        yield f"rank {r}", d, {"input": Ten(s), "position_ids": Ten([s[0]], "i"), "cos_cache": Ten([8, 8]), "sin_cache": Ten([8, 8]), "interleaved": 0, "is_packed_batching": 0, "num_heads": 1,
                               "rotary_embedding_dim": 0, "scale": 1.0}, list(s)


@op(W, "torchvision.nms")
def _(name, deep):
    d = Domain()
    n = d.sym("n", 0)
    yield "boxes", d, {"dets": Ten([n, 4]), "scores": Ten([n]), "iou_threshold": 0.5}, [UNKNOWN]
