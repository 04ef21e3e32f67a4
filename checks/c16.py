"""C16: ONNX value types become the torch types of the same element type and extents."""

from sa.onnxworld import *

# by ONNX's definition of the data types
ELEM = {
    "FLOAT": "f32", "UINT8": "ui8", "INT8": "si8", "UINT16": "ui16", "INT16": "si16", "INT32": "si32", "INT64": "si64", "BOOL": "i1",
    "FLOAT16": "f16", "DOUBLE": "f64", "UINT32": "ui32", "UINT64": "ui64", "COMPLEX64": "complex<f32>", "COMPLEX128": "complex<f64>",
    "BFLOAT16": "bf16", "FLOAT8E4M3FN": "f8E4M3FN", "FLOAT8E4M3FNUZ": "f8E4M3FNUZ", "FLOAT8E5M2": "f8E5M2", "FLOAT8E5M2FNUZ": "f8E5M2FNUZ",
    "STRING": "!torch.str", "UINT4": "ui4", "INT4": "si4", "FLOAT4E2M1": "f4E2M1FN", "FLOAT8E8M0": "f8E8M0FNU",
}
SUPPORTED = [k for k in ELEM if k not in ("FLOAT4E2M1", "FLOAT8E8M0")]
DIMS = {
    "scalar": ([], ""), "static": ([2, 3], "2,3"), "zero": ([0, 4], "0,4"), "unknown": ([None, 5], "?,5"), "named": (["batch", 7], "?,7"),
    "mixed": ([1, "n", None, 0, 1, "n"], "1,?,?,0,1,?"), "large": ([1 << 40, 1], f"{1 << 40},1"),
}
REJECT = (ERR, "OnnxImportError")


def vtype(elem, dims="2,3"):
    return f"!torch.vtensor<[{dims}],{elem}>"


def text(t):
    """The text of a type, without blanks."""
    if isinstance(t, T) and t.op == "obj" and t.args[0] == K("type") and isinstance(t.args[1], K):
        return str(t.args[1].v).replace(" ", "")
    return show(t)


def expect(ctx, rule, cons, w, model, want, must_raise=(), may_raise=()):
    """`want`: types of the arguments, of the function's results, and of the results of Foo."""

    def pred(p):
        v = OView(p)
        if len(v.funcs) != 1:
            return f"{len(v.funcs)} functions are defined"
        ins, outs = v.ftype(obj(f"func{v.funcs[0].idx}"))
        got = {"arguments": [text(t) for t in ins], "results": [text(t) for t in outs],
               "values": [text(t) for o in v.named("onnx.Foo") for t in o.results], "literals": [text(t) for o in v.named("onnx.Constant") for t in o.results]}
        for k, x in want.items():
            if got[k] != x:
                i = next((i for i, (a, b) in enumerate(zip(got[k], x)) if a != b), 0)
                return f"{k} have the types {got[k][i:i + 3]}, expected {x[i:i + 3]}"
        return None

    return decide(ctx, rule, cons, import_model(ctx, w, cons, model), pred, must_raise=must_raise, may_raise=may_raise)


def scene(w, tys, inits=()):
    """x0.. : tys -> Foo -> y0.. : the same types, found in three different places."""
    n = len(tys)
    xs = [w.info(f"x{i}", None, type=t) for i, t in enumerate(tys)]
    ms = [w.info(f"m{i}", None, type=t) for i, t in enumerate(tys)]
    ys = [w.info(f"y{i}", None, type=t) for i, t in enumerate(tys)]
    nodes = [w.nodep("Foo", [f"x{i}" for i in range(n)], [f"m{i}" for i in range(n)]), w.nodep("Foo", [f"m{i}" for i in range(n)], [f"y{i}" for i in range(n)])]
    return w.model(w.graphp("main", xs, ys, nodes, inits, ms))


def want(texts):
    return {"arguments": texts, "results": texts, "values": texts * 2}


def elements(ctx):
    for name, code in enum("TensorProto.DataType").items():
        w = OnnxWorld()
        m = scene(w, [w.tensor_type("t", [2, 3], code)])
        if name in SUPPORTED:
            expect(ctx, "element", f"a value of type {name}", w, m, want([vtype(ELEM[name])]))
        elif name in ELEM:
            expect(ctx, "element", f"a value of type {name}", w, m, want([vtype(ELEM[name])]), may_raise=REJECT)
        else:
            expect(ctx, "element", f"a value of type {name}", w, m, {}, must_raise=REJECT)
        # literals take their type from the tensor itself
        w = OnnxWorld()
        m = w.model(w.graphp("main", [], [], [], [w.tensor("k", [2, 3], code)]))
        if name in SUPPORTED and name != "STRING":
            expect(ctx, "element", f"a literal of type {name}", w, m, {"literals": [vtype(ELEM[name])]})
        elif name in ELEM and name != "STRING":
            expect(ctx, "element", f"a literal of type {name}", w, m, {"literals": [vtype(ELEM[name])]}, may_raise=REJECT)
        else:
            expect(ctx, "element", f"a literal of type {name}", w, m, {}, must_raise=REJECT)
    for code in (-1, 99, 1 << 31):
        w = OnnxWorld()
        expect(ctx, "element", f"a value of the unknown type {code}", w, scene(w, [w.tensor_type("t", [2, 3], code)]), {}, must_raise=REJECT)


def extents(ctx):
    for n, (dims, t) in DIMS.items():
        w = OnnxWorld()
        expect(ctx, "extent", f"{n} extents", w, scene(w, [w.tensor_type("t", dims)]), want([vtype("f32", t)]))
        if all(isinstance(d, int) for d in dims):
            w = OnnxWorld()
            expect(ctx, "extent", f"a literal with {n} extents", w, w.model(w.graphp("main", [], [], [], [w.tensor("k", dims)])), {"literals": [vtype("f32", t)]})
    # any extents at all: the values are opaque
    w = OnnxWorld()
    d = [obj("d0"), None, obj("d2")]

    def pred(p):
        v = OView(p)
        for t in v.ftype(obj(f"func{v.funcs[0].idx}"))[0]:
            x = t.args[1]
            parts = [str(y.v).replace(" ", "") if isinstance(y, K) else y for y in (x.args if isinstance(x, T) and x.op == "fstr" else [x])]
            flat = [T("str", *y.args) if isinstance(y, T) and y.op in ("str", "repr") else T("str", y) if isinstance(y, T) else y for y in parts]
            if flat != ["!torch.vtensor<[", T("str", obj("d0")), ",?,", T("str", obj("d2")), "],f32>"]:
                return f"the type is {show(t)}"
        return None

    decide(ctx, "extent", "opaque extents", import_model(ctx, w, "opaque extents", scene(w, [w.tensor_type("t", d)])), pred)


def several(ctx):
    """Types that are looked up one after the other do not replace each other."""
    for order in (1, -1):
        w = OnnxWorld()
        names = SUPPORTED[::order]
        tys, texts = [], []
        for i, n in enumerate(names):
            for dims, t in (([2, 3], "2,3"), ([3, 2], "3,2"), ([None, 3], "?,3")):
                tys.append(w.tensor_type(f"t{len(tys)}", dims, n))
                texts.append(vtype(ELEM[n], t))
        expect(ctx, "history", f"all types in one model, {'as' if order == 1 else 'against the order they are'} listed", w, scene(w, tys), want(texts))
    # every pair of small shapes, in both orders
    ext = (None, 0, 1, 2)
    shapes = [[]] + [[a] for a in ext] + [[a, b] for a in ext for b in ext]
    cases = [(d, ",".join("?" if x is None else str(x) for x in d)) for d in shapes]
    for order in (1, -1):
        tx = [t for _, t in cases[::order]]
        for kind, fmt in (("tensor", "!torch.vtensor<[{}],f32>"), ("sequence", "!torch.list<vtensor<[{}],f32>>"), ("optional", "!torch.optional<vtensor<[{}],f32>>"), ("optional sequence", "!torch.optional<list<vtensor<[{}],f32>>>")):
            w = OnnxWorld()
            tys = [w.tensor_type(f"e{i}", d) for i, (d, _) in enumerate(cases[::order])]
            if "sequence" in kind:
                tys = [w.sequence_type(f"s{i}", e) for i, e in enumerate(tys)]
            if "optional" in kind:
                tys = [w.optional_type(f"o{i}", e) for i, e in enumerate(tys)]
            expect(ctx, "history", f"all small shapes of a {kind} in one model, {order}", w, scene(w, tys), want([fmt.format(t) for t in tx]))
    for order in (1, -1):
        w = OnnxWorld()
        cases = [(d, t) for d, t in DIMS.values()][::order]
        expect(ctx, "history", f"all extents in one model, {order}", w, scene(w, [w.tensor_type(f"t{i}", d) for i, (d, _) in enumerate(cases)]), want([vtype("f32", t) for _, t in cases]))


def containers(ctx):
    for n in ("FLOAT", "INT64", "BOOL", "UINT8"):
        for dn, (dims, t) in DIMS.items():
            inner = f"vtensor<[{t}],{ELEM[n]}>"
            w = OnnxWorld()
            e = w.tensor_type("e", dims, n)
            expect(ctx, "container", f"sequence of {n} with {dn} extents", w, scene(w, [w.sequence_type("t", e)]), want([f"!torch.list<{inner}>"]))
            w = OnnxWorld()
            e = w.tensor_type("e", dims, n)
            expect(ctx, "container", f"optional {n} with {dn} extents", w, scene(w, [w.optional_type("t", e)]), want([f"!torch.optional<{inner}>"]))
            w = OnnxWorld()
            e = w.tensor_type("e", dims, n)
            expect(ctx, "container", f"optional sequence of {n} with {dn} extents", w, scene(w, [w.optional_type("t", w.sequence_type("s", e))]), want([f"!torch.optional<list<{inner}>>"]))
    w = OnnxWorld()
    es = [w.tensor_type(f"e{i}", d, n) for i, (d, n) in enumerate((([2], "FLOAT"), ([3], "FLOAT"), ([2], "INT64"), ([None], "FLOAT")))]
    tx = ["vtensor<[2],f32>", "vtensor<[3],f32>", "vtensor<[2],si64>", "vtensor<[?],f32>"]
    tys = [w.sequence_type(f"s{i}", e) for i, e in enumerate(es)] + [w.optional_type(f"o{i}", e) for i, e in enumerate(es)]
    expect(ctx, "history", "all containers in one model", w, scene(w, tys), want([f"!torch.list<{t}>" for t in tx] + [f"!torch.optional<{t}>" for t in tx]))


def others(ctx):
    w = OnnxWorld()
    expect(ctx, "container", "a value without a type", w, scene(w, [w.proto("TypeProto", "t")]), want(["!torch.none"]))
    for f, c in (("map_type", "TypeProto.Map"), ("sparse_tensor_type", "TypeProto.SparseTensor")):
        w = OnnxWorld()
        kw = {"elem_type": DT("FLOAT")} if "sparse" in f else {"key_type": DT("INT64")}
        expect(ctx, "container", f"a value with a {f}", w, scene(w, [w.proto("TypeProto", "t", **{f: w.proto(c, "t.x", **kw)})]), {}, must_raise=REJECT)
    # containers of what has no type
    w = OnnxWorld()
    expect(ctx, "container", "a sequence of maps", w, scene(w, [w.sequence_type("t", w.proto("TypeProto", "e", map_type=w.proto("TypeProto.Map", "e.m", key_type=DT("INT64"))))]), {}, must_raise=REJECT)
    w = OnnxWorld()
    expect(ctx, "container", "an optional map", w, scene(w, [w.optional_type("t", w.proto("TypeProto", "e", map_type=w.proto("TypeProto.Map", "e.m", key_type=DT("INT64"))))]), {}, must_raise=REJECT)
    w = OnnxWorld()
    expect(ctx, "container", "a sequence of an unknown element type", w, scene(w, [w.sequence_type("t", w.tensor_type("e", [2], 99))]), {}, must_raise=REJECT)


def run(ctx):
    ctx.rule("element", "every ONNX element type becomes the MLIR type of the same kind, signedness and width, or is rejected")
    ctx.rule("extent", "static extents stay, symbolic and unknown ones become unknown, in order")
    ctx.rule("history", "types looked up before do not influence later ones")
    ctx.rule("container", "sequences, optionals and absent types keep their structure and element type; other kinds are rejected")
    for g in (elements, extents, several, containers, others):
        ctx.group(g)
    ctx.floor("element", 45)
    ctx.floor("extent", 10)
    ctx.floor("container", 60)
