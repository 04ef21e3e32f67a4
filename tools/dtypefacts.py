"""Development aid: records which dtypes PyTorch's operators answer.

Writes sa/dtypefacts.json, the oracle of the dtype checks: per operator and
configuration (which arguments are given, ranks, kinds of scalars), the dtypes
of the results for combinations of the operands' dtypes, as the installed
PyTorch answers them (real tensors first, then meta tensors).  Nothing of /repo
is read except the names of the operators.  Not a check."""

import itertools, json, os, sys, warnings

warnings.filterwarnings("ignore")
sys.path.insert(0, "/verif")
import torch  # noqa
from sa import shapespec as S  # noqa
from sa.extents import N  # noqa

CODE = {torch.uint8: 0, torch.int8: 1, torch.int16: 2, torch.int32: 3, torch.int64: 4, torch.float16: 5, torch.float32: 6, torch.float64: 7,
        torch.complex32: 8, torch.complex64: 9, torch.complex128: 10, torch.bool: 11, torch.qint8: 12, torch.quint8: 13, torch.qint32: 14, torch.bfloat16: 15}
DT = {v: k for k, v in CODE.items()}
HALF_COMPLEX = {"aten::real", "aten::imag", "aten::view_as_real"}
STD = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15]
ch = lambda c: chr(97 + c)


def ev(d, v, env):
    return d.value(v.p, env) if isinstance(v, N) else v


def plain(d, v, env):
    """('t', shape), ('tl', [shapes]), or a literal."""
    if isinstance(v, S.Ten):
        return ("t", [ev(d, x, env) for x in v.dims], v.dtype)
    if isinstance(v, S.Tens):
        return ("tl", [plain(d, x, env) for x in v.items])
    if isinstance(v, S.Any_):
        return ("any", v.kind)
    if isinstance(v, (list, tuple)):
        return ("l", [plain(d, x, env) for x in v])
    return ("v", ev(d, v, env))


BASE = {"f": 6, "i": 4, "b": 11, "c": 9, "d": 7, "i32": 3, "h": 5, "u8": 0, "i8": 1}


def tensors(args):
    for k, v in args.items():
        if v[0] == "t":
            yield (k,), v
        elif v[0] in ("tl", "l"):
            for i, x in enumerate(v[1]):
                if x[0] == "t":
                    yield (k, i), x


def build(args, dts, dev):
    def go(v, path):
        if v[0] == "t":
            dt = DT[dts[path]]
            if dt.is_floating_point or dt.is_complex or True:
                return torch.zeros(v[1], dtype=dt, device=dev)
        if v[0] in ("tl", "l"):
            return [go(x, path + (i,)) for i, x in enumerate(v[1])]
        if v[0] == "any":
            return {"float": 2.0, "int": 2, "bool": False, "device": torch.device(dev)}.get(v[1])
        return v[1]
    return {k: go(v, (k,)) for k, v in args.items()}


def dtypes(r):
    if isinstance(r, torch.Tensor):
        return [CODE.get(r.dtype, 25)]
    if isinstance(r, bool):
        return [11]
    if isinstance(r, int):
        return [4]
    if isinstance(r, float):
        return [7]
    if isinstance(r, complex):
        return [10]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in dtypes(x)]
    return [25]


INTS = {0, 1, 2, 3, 4}


def outside(opn, names, combo, args):
    """Operands PyTorch happens to take although the operator is not defined for
    them, or that torch-mlir declares unsupported (error_types and assertions)."""
    d = {n: c for n, c in zip(names, combo)}
    mixed = len(set(combo)) > 1
    if opn == "aten.nll_loss_backward":
        return d["self"] in INTS | {11}
    if opn.startswith("aten.quantize_per_"):
        return d["self"] != 6 or args.get("dtype", ("v", None))[1] not in (12, 13, 14)
    if "fake_quantize_per_" in opn and opn not in ("aten.fake_quantize_per_tensor_affine", "aten.fake_quantize_per_tensor_affine_cachemask"):
        return d["self"] == 15  # taken by recent releases only; the functions assert against it
    if opn == "aten.ScalarImplicit":
        return 9 in combo or 10 in combo
    if opn in ("aten._trilinear", "aten.rrelu_with_noise_backward", "aten.cosine_similarity"):
        return mixed
    if opn == "aten._int_mm":
        return 0 in combo
    if opn in ("aten.conv1d", "aten.conv_tbc"):
        return 9 in combo or 10 in combo
    if opn == "aten.hardtanh":
        return 0 in combo
    if opn in ("aten.logaddexp", "aten.logaddexp2"):
        return combo == (11, 11)
    if opn == "aten.l1_loss":
        return 5 in combo and (9 in combo or 10 in combo)  # complex32 in between
    if opn == "aten.poisson_nll_loss":
        return d["input"] in INTS | {11} and len(args["input"][1]) != len(args["target"][1])
    if opn == "aten.view_as_real":
        return 8 in combo
    if opn == "aten.hann_window.periodic":
        return args.get("dtype", ("v", None))[1] in (9, 10)
    return False


def overload(opn):
    ns, rest = opn.split(".", 1)
    pkt = getattr(getattr(torch.ops, ns), rest.split(".")[0])
    return getattr(pkt, rest.split(".")[1] if "." in rest else "default")


def enc(v):
    if v[0] == "t":
        return {"t": len(v[1])}
    if v[0] in ("tl", "l"):
        return [enc(x) for x in v[1]]
    if v[0] == "any":
        return {"any": v[1]}
    if isinstance(v[1], complex):
        return {"complex": 1}
    return v[1]


def product(n, base):
    if n == 0:
        return [()]
    if n == 1:
        return [(c,) for c in STD + [8]]
    if n == 2:
        return list(itertools.product(STD, STD))
    out = []
    for b in (6, 4, 9, 5, 15, 11):
        out.append((b,) * n)
        for i in range(n):
            for c in STD:
                out.append((b,) * i + (c,) + (b,) * (n - i - 1))
    for i in range(n):
        for c in STD:
            out.append(tuple(base[:i]) + (c,) + tuple(base[i + 1:]))
    for c in STD:
        # operands that compute together, indices as they are
        out.append(tuple(c if b in (6, 9, 7, 5) else b for b in base))
    return list(dict.fromkeys(out))


def table(opn, ov, args):
    ts = list(tensors(args))
    base = [BASE[t[2]] for _, t in ts]
    rows, outs, st = [], [], []
    width, meta = None, False
    names = {a.name for a in ov._schema.arguments}
    a2 = {k: v for k, v in args.items() if k in names}
    for combo in product(len(ts), base):
        if outside(opn, [p[0] for p, _ in ts], combo, args):
            continue
        dts = {p: c for (p, _), c in zip(ts, combo)}
        res = {}
        for dev in ("cpu", "meta"):
            try:
                res[dev] = dtypes(ov(**build(a2, dts, dev)))
            except Exception as e:  # noqa
                res[dev] = None
        c, m = res["cpu"], res["meta"]
        meta = meta or m is not None
        if c is None and m is None:
            continue
        r = c or m
        if None not in (c, m) and c != m:
            continue  # the devices differ
        if c is None and len({x for x in combo}) > 1:
            continue  # meta tensors of different types are taken by kernels that real tensors do not pass
        if 25 in r or (8 in combo and ov._schema.name not in HALF_COMPLEX):
            continue  # no type of torch-mlir's, or one its functions do not deal with
        rows.append(combo)
        outs.append(r)
        st.append("=" if c is not None and m is not None else "c" if c is not None else "?")
    # without a meta kernel the real one alone decides what PyTorch takes
    st = ["=" if x == "=" or x == "c" and not meta else "?" for x in st]
    if not rows:
        return None
    width = len(outs[0])
    if any(len(o) != width for o in outs):
        return None
    return {"args": {k: enc(v) for k, v in args.items()},
            "dt": [[list(p), "".join(ch(r[i]) for r in rows)] for i, (p, _) in enumerate(ts)],
            "out": ["".join(ch(o[i]) for o in outs) for i in range(width)], "st": "".join(st)}


def variants(ov, bases):
    sch = ov._schema.arguments
    for i, b in enumerate(bases):
        yield b
    for i, b in enumerate(bases[:4]):
        nums = [a.name for a in sch if str(a.type) in ("number", "Scalar", "Optional[number]")]
        opts = [a.name for a in sch if a.name in ("dtype", "out_dtype") or (a.name == "dtype")]
        for vals in ([2], [2.5], [1 + 2j]):
            if nums:
                yield {**b, **{n: ("v", vals[0]) for n in nums}}
        if len(nums) > 1:
            for n in nums:
                for v in (2, 2.5):
                    yield {**b, **{m: ("v", 2 if v == 2.5 else 2.5) for m in nums}, n: ("v", v)}
        if i < 2:
            for n in opts:
                for c in (0, 3, 4, 5, 6, 7, 9, 10, 11, 15):
                    yield {**b, n: ("v", c)}
            for a in sch:
                if str(a.type) in ("bool", "Optional[bool]"):
                    for v in (True, False):
                        yield {**b, a.name: ("v", v)}
                if a.name == "rounding_mode":
                    for v in (None, "trunc", "floor"):
                        yield {**b, a.name: ("v", v)}


def key(args):
    def k(v):
        if v[0] == "t":
            return ("t", len(v[1]))
        if v[0] in ("tl", "l"):
            return tuple(k(x) for x in v[1]) if any(x[0] == "t" for x in v[1]) else "l"
        if v[0] == "v":
            return type(v[1]).__name__ if not isinstance(v[1], (str, bool)) else v[1]
        return "any"
    return tuple(sorted((n, k(v)) for n, v in args.items()))


def valkey(args):
    return json.dumps({k: enc(v) for k, v in args.items()}, sort_keys=True)


def bases(opn):
    out = {}
    for c in S.cases(opn, deep=False):
        if c.expect is S.ERR:
            continue
        best = None
        for i, env in enumerate(c.dom.assignments()):
            if i > 1500:
                break
            if c.dom.holds([], env):
                sc = (min([0 if x < 1 else 1 for x in env.values()] or [1]), -sum(abs(x) for x in env.values()))
                if best is None or sc > best[0]:
                    best = (sc, dict(env))
        if best is None:
            continue
        a = {k: plain(c.dom, v, best[1]) for k, v in c.args.items()}
        out.setdefault(key(a), a)
    return list(out.values())


t_ = lambda d="f", *s: ("t", list(s) or [2], d)
# operators that have no class of shapes
EXTRA = {
    "aten.cpu": [{"self": t_()}], "aten.zero_": [{"self": t_()}],
    "aten.bernoulli_.float": [{"self": t_(), "p": ("v", 0.5), "generator": ("v", None)}],
    "aten._unsafe_index_put.hacked_twin": [{"self": t_(), "indices": ("tl", [t_("i")]), "values": t_(), "accumulate": ("v", False)}],
    "aten.masked_fill_.Scalar": [{"self": t_(), "mask": t_("b"), "value": ("v", v)} for v in (2, 2.5)],
    "aten.to.prim_Device": [{"self": t_(), "device": ("any", "device"), "dtype": ("v", v), "non_blocking": ("v", False), "copy": ("v", False)} for v in (None, 0, 3, 4, 5, 6, 7, 9, 11, 15)],
    "aten.fmod.Scalar": [{"self": ("t", s, "f"), "other": ("v", v)} for v in (2, 2.5) for s in ([], [2])],
    "aten.einsum": [{"equation": ("v", "i,i->i"), "tensors": ("tl", [t_(), t_()]), "path": ("v", None)}],
    "aten.add": [{"a": ("v", a), "b": ("v", b)} for a in (2, 2.5) for b in (2, 2.5)],
    "aten.ScalarImplicit": [{"a": ("t", [], "f")}],
}
FL = (5, 6, 7, 15)


def hand(args, tensors_, rows, outs):
    return {"args": args, "dt": [[[n] if isinstance(n, str) else list(n), "".join(ch(r[i]) for r in rows)] for i, n in enumerate(tensors_)], "out": ["".join(ch(o) for o in x) for x in outs], "st": "=" * len(rows)}


def same(n):
    return [(c,) * n for c in FL]


Q8 = {"scale": 1.0, "zero_point": 0, "quant_min": 0, "quant_max": 100}
CH = {"quant_min": 0, "quant_max": 100, "axis": 0}
# operators of libraries that are not installed: their documented results
HAND = {
    "torchvision.roi_align": [hand({"input": {"t": 4}, "rois": {"t": 2}, "spatial_scale": 1.0, "pooled_height": 2, "pooled_width": 2, "sampling_ratio": 2, "aligned": True}, ["input", "rois"], same(2), [FL])],
    "torchvision.roi_pool": [hand({"input": {"t": 4}, "rois": {"t": 2}, "spatial_scale": 1.0, "pooled_height": 2, "pooled_width": 2}, ["input", "rois"], same(2), [FL, (3,) * 4])],
    "torchvision.nms": [hand({"dets": {"t": 2}, "scores": {"t": 1}, "iou_threshold": 0.5}, ["dets", "scores"], same(2), [(4,) * 4])],
    "torchvision.deform_conv2d": [hand({k: {"t": 4} for k in ("input", "weight", "offset", "mask")} | {"bias": {"t": 1}, **{k: 1 for k in ("stride_h", "stride_w", "pad_h", "pad_w", "dilation_h", "dilation_w", "groups", "offset_groups")}, "use_mask": True},
                                       ["input", "weight", "offset", "mask", "bias"], same(5), [FL])],
    "onnx.rotary_embedding": [hand({"input": {"t": 4}, "position_ids": {"t": 2}, "cos_cache": {"t": 2}, "sin_cache": {"t": 2}, "interleaved": 0, "is_packed_batching": 0, "num_heads": 1, "rotary_embedding_dim": 2, "scale": 1.0},
                                   ["input", "position_ids", "cos_cache", "sin_cache"], [(c, 4, c, c) for c in FL], [FL])],
    "aten.quantize_per_tensor": [hand({"self": {"t": 2}, "scale": 1.0, "zero_point": 0, "dtype": d}, ["self"], [(6,)], [(d,)]) for d in (12, 13, 14)],
    "aten.int_repr": [hand({"self": {"t": 2}}, ["self"], [(12,), (13,), (14,)], [(1, 0, 3)])],
    "prim.abs.Scalar": [hand({"a": 2}, [], [()], [(4,)]), hand({"a": 2.5}, [], [()], [(7,)])],
    "quantized_decomposed.quantize_per_tensor": [hand({"input": {"t": 2}, **Q8, "dtype": d}, ["input"], same(1)[1:2], [(d,)]) for d in (0, 1, 2, 3)],
    "quantized_decomposed.quantize_per_channel": [hand({"input": {"t": 2}, "scales": {"t": 1}, "zero_points": {"t": 1}, **CH, "dtype": d}, ["input", "scales", "zero_points"], [(6, 7, 4), (6, 6, 4)], [(d, d)]) for d in (0, 1, 2, 3)],
    "quantized_decomposed.dequantize_per_tensor": [hand({"input": {"t": 2}, **Q8, "dtype": d, "out_dtype": o}, ["input"], [(d,)], [(6 if o is None else o,)]) for d in (0, 1, 2, 3) for o in (None, 5, 6, 7, 15)],
    "quantized_decomposed.dequantize_per_channel": [hand({"input": {"t": 2}, "scales": {"t": 1}, "zero_points": z, **CH, "dtype": d, "out_dtype": o}, ["input", "scales"] + (["zero_points"] if z else []), [(d, 6) + ((4,) if z else ())], [(6 if o is None else o,)])
                                                    for d in (0, 1, 2) for o in (None, 5, 6, 7, 15) for z in (None, {"t": 1})],
}


def main():
    from sa import mlirlib
    ops = [k[len("__torch_mlir_dtype_fn."):] for k in mlirlib.translate("/repo")[0].functions if k.startswith("__torch_mlir_dtype_fn.")]
    only = sys.argv[1].split(",") if len(sys.argv) > 1 else None
    path = "/verif/sa/dtypefacts.json"
    facts = {"ops": {}, "promote": {}} if not only else json.load(open(path))
    none = []
    for opn in ops:
        if only and opn not in only:
            continue
        if opn in HAND:
            facts["ops"][opn] = HAND[opn]
            continue
        try:
            ov = overload(opn)
        except Exception:
            none.append((opn, "unregistered"))
            continue
        bs = EXTRA[opn] if opn in EXTRA else bases(opn) if opn in S.SPEC else []
        if not bs:
            none.append((opn, "no class"))
            continue
        # all kinds of presence and ranks, up to a limit
        bs = bs[:10]
        got, seen = [], set()
        for a in variants(ov, bs):
            k = valkey(a)
            if k in seen:
                continue
            seen.add(k)
            try:
                t = table(opn, ov, a)
            except Exception as e:
                t = None
            if t:
                got.append(t)
        if got:
            facts["ops"][opn] = got
        else:
            none.append((opn, "rejected"))
    tab = {}
    for a in STD + [8]:
        for b in STD + [8]:
            try:
                tab[ch(a) + ch(b)] = ch(CODE[torch.promote_types(DT[a], DT[b])])
            except Exception:
                pass
    facts["promote"] = tab
    with open(path, "w") as f:
        f.write('{"promote": ' + json.dumps(facts["promote"], separators=(",", ":")) + ',\n"ops": {\n')
        f.write(",\n".join(json.dumps(k) + ": [\n" + ",\n".join(json.dumps(t, separators=(",", ":")) for t in v) + "]" for k, v in facts["ops"].items()))
        f.write("}}\n")
    print(len(facts["ops"]), "operators;", sum(len(v) for v in facts["ops"].values()), "configurations;", sum(len(t["st"]) for v in facts["ops"].values() for t in v), "rows; without facts:", none)


main()
