"""C18: node attributes keep their name, kind and value."""

from sa.onnxworld import *
from checks.c16 import REJECT, text
from checks.c20 import payload, ARRAY, INLINE

SI64 = T("obj", K("type"), K("si64"))
F32T = T("obj", K("type"), K("f32"))


def as_float(a):
    c = call_of(a, "FloatAttr.get")
    if c and len(c[0]) == 2 and c[0][0] == F32T:
        return c[0][1]
    if c and len(c[0]) == 1 and c[1].get("value") is not None and c[1].get("type", c[0][0]) == F32T:
        return c[1]["value"]
    c = call_of(a, "FloatAttr.get_f32")
    return c[0][0] if c and c[0] else None


def as_int(a):
    c = call_of(a, "IntegerAttr.get")
    if c and len(c[0]) == 2 and c[0][0] == SI64:
        return c[0][1]
    return None


def as_string(a):
    c = call_of(a, "StringAttr.get")
    return c[0][0] if c and c[0] else None


def as_array(a):
    c = call_of(a, "ArrayAttr.get")
    return seq(c[0][0]) if c and c[0] else None


def check_value(a, kind, want):
    """None, or how `a` differs from the attribute of this kind and value(s)."""
    one = {"FLOAT": as_float, "INT": as_int, "STRING": as_string}
    if kind in one:
        x = one[kind](a)
        return None if x is not None and x == want else f"{show(a)}, expected {kind} {show(want)}"
    if kind == "TENSOR":
        return payload(a, *want)
    xs = as_array(a)
    if xs is None or len(xs) != len(want):
        return f"{show(a)}, expected {len(want)} elements"
    for x, y in zip(xs, want):
        m = check_value(x, kind[:-1], y)
        if m:
            return m
    return None


def scene(w, attrs):
    return w.model(w.graphp("main", [w.info("x", [1])], [w.info("o", [3])], [w.nodep("Foo", ["x"], ["o"], attrs)]))


def expect(ctx, rule, cons, w, attrs, want, must_raise=(), may_raise=()):
    """want: [(name, kind, value)]"""

    def pred(p):
        v = OView(p)
        ops = v.named("onnx.Foo")
        if len(ops) != 1:
            return f"{len(ops)} operations stand for the node"
        got = v.attrs(ops[0])
        if set(got) != {n for n, _, _ in want}:
            return f"the operation has the attributes {sorted(got)}, the node has {sorted(n for n, _, _ in want)}"
        rest = [k for k in ops[0].attributes if not k.startswith("torch.onnx.") and k != "name"]
        if rest:
            return f"the operation has the attributes {rest}"
        for n, kind, x in want:
            m = check_value(got[n], kind, x)
            if m:
                return f"attribute {n} is {m}"
        return None

    return decide(ctx, rule, cons, import_model(ctx, w, cons, scene(w, attrs)), pred, must_raise=must_raise, may_raise=may_raise)


def lists(n, tag):
    return [obj(f"{tag}{i}") for i in range(n)]


def scalars(ctx):
    for kind, f in (("FLOAT", "f"), ("INT", "i"), ("STRING", "s")):
        w = OnnxWorld()
        expect(ctx, "value", f"a {kind}", w, [w.attr("alpha", kind, **{f: obj("V")})], [("alpha", kind, obj("V"))])
        for n in (0, 1, 3):
            w = OnnxWorld()
            xs = lists(n, "v")
            expect(ctx, "value", f"{kind}S of {n}", w, [w.attr("alpha", kind + "S", **{f + ("loats" if f == "f" else "nts" if f == "i" else "trings"): xs})], [("alpha", kind + "S", xs)])
    for k, f, v in (("INT", "i", 0), ("INT", "i", -1), ("INT", "i", 2**63 - 1), ("INT", "i", -(2**63)), ("INT", "i", 1), ("FLOAT", "f", 0.0), ("FLOAT", "f", -0.5), ("FLOAT", "f", 1.0), ("STRING", "s", b""), ("STRING", "s", b"abc")):
        w = OnnxWorld()
        expect(ctx, "value", f"the {k} {v!r}", w, [w.attr("alpha", k, **{f: v})], [("alpha", k, K(v))])
    # a value that equals the default of the protocol is not stored
    for k, v in (("INT", 0), ("FLOAT", 0.0), ("STRING", b"")):
        w = OnnxWorld()
        expect(ctx, "value", f"a {k} that is not set", w, [w.attr("alpha", k)], [("alpha", k, K(v))])


def tensors(ctx):
    for name, code in enum("TensorProto.DataType").items():
        if name in ("UNDEFINED", "STRING"):
            continue
        w = OnnxWorld()
        t = w.tensor("n", [2, 3], name)
        expect(ctx, "value", f"a TENSOR of {name} with raw data", w, [w.attr("t", "TENSOR", t=t)], [("t", "TENSOR", (t, [2, 3], name, "raw_data"))])
        if name in ARRAY:
            f, _ = ARRAY[name]
            w = OnnxWorld()
            t = w.tensor("n", [2, 3], name, raw=f)
            expect(ctx, "value", f"a TENSOR of {name} with typed data", w, [w.attr("t", "TENSOR", t=t)], [("t", "TENSOR", (t, [2, 3], name, f))], may_raise=() if name in INLINE else REJECT)
    for n in (0, 1, 3):
        w = OnnxWorld()
        ts = [w.tensor(f"n{i}", [2 + i], "FLOAT") for i in range(n)]
        expect(ctx, "value", f"TENSORS of {n}", w, [w.attr("t", "TENSORS", tensors=ts)], [("t", "TENSORS", [(t, [2 + i], "FLOAT", "raw_data") for i, t in enumerate(ts)])])


def several(ctx):
    w = OnnxWorld()
    t = w.tensor("n", [2], "FLOAT")
    attrs = [w.attr("b", "INT", i=obj("I")), w.attr("a", "INT", i=obj("J")), w.attr("f", "FLOAT", f=obj("F")), w.attr("s", "STRING", s=obj("S")),
             w.attr("l", "INTS", ints=lists(2, "x")), w.attr("t", "TENSOR", t=t), w.attr("m", "STRINGS", strings=lists(2, "y"))]
    want = [("b", "INT", obj("I")), ("a", "INT", obj("J")), ("f", "FLOAT", obj("F")), ("s", "STRING", obj("S")), ("l", "INTS", lists(2, "x")),
            ("t", "TENSOR", (t, [2], "FLOAT", "raw_data")), ("m", "STRINGS", lists(2, "y"))]
    for cons, sl in (("as they are", 1), ("reversed", -1)):
        expect(ctx, "set", f"several attributes, {cons}", w, attrs[::sl], want)
    w = OnnxWorld()
    expect(ctx, "set", "no attributes", w, [], [])
    for n in ("name", "value", "torch.onnx.x", "axis"):
        w = OnnxWorld()
        expect(ctx, "set", f"an attribute called {n}", w, [w.attr(n, "INT", i=obj("I"))], [(n, "INT", obj("I"))])
    # graphs become regions, in the order of their names
    for names in (["then_branch", "else_branch"], ["else_branch", "then_branch"], ["body"], ["c", "a", "b"]):
        w = OnnxWorld()
        sub = lambda n: w.graphp("g:" + n, [], [w.info("r", [5], tag=n)], [w.nodep("In" + n, ["x"], ["r"])])
        gs = {n: sub(n) for n in names}
        at = [w.attr(n, "GRAPH", g=gs[n]) for n in names] + [w.attr("k", "INT", i=obj("I"))]

        def pred(p, names=names):
            v = OView(p)
            o = v.named("onnx.Foo")[0]
            got = v.attrs(o)
            if set(got) != {"k"} or as_int(got["k"]) != obj("I"):
                return f"the operation has the attributes {sorted(got)}"
            if o.ev.arg("regions", 5, K(0)) != K(len(names)):
                return f"the operation has {show(o.ev.arg('regions', 5, K(0)))} regions for {len(names)} graphs"
            for i, n in enumerate(sorted(names)):
                bs = v.region(o, i)
                inner = [v.op_name(x) for b in bs for x in v.in_block(b) if v.op_name(x).startswith("onnx.")]
                if inner != ["onnx.In" + n]:
                    return f"region {i} holds {inner}, expected the graph {n}"
            return None

        decide(ctx, "set", f"the graphs {names}", import_model(ctx, w, f"graphs {names}", scene(w, at)), pred)


def rejects(ctx):
    hold = {"SPARSE_TENSOR": ("sparse_tensor", "SparseTensorProto"), "TYPE_PROTO": ("tp", "TypeProto"), "GRAPHS": ("graphs", None), "SPARSE_TENSORS": ("sparse_tensors", None), "TYPE_PROTOS": ("type_protos", None)}
    known = {"FLOAT", "INT", "STRING", "TENSOR", "GRAPH", "FLOATS", "INTS", "STRINGS", "TENSORS"}
    for k in enum("AttributeProto.AttributeType"):
        if k in known:
            continue
        w = OnnxWorld()
        kw = {}
        if k in hold:
            f, c = hold[k]
            kw = {f: w.proto(c, "held")} if c else {f: [obj("held")]}
        expect(ctx, "reject", f"an attribute of type {k}", w, [w.attr("a", k, **kw)], [], must_raise=REJECT)
        w = OnnxWorld()
        kw = {f: (w.proto(c, "held") if c else [obj("held")])} if k in hold else {}
        expect(ctx, "reject", f"an attribute of type {k} after others", w, [w.attr("b", "INT", i=obj("I")), w.attr("a", k, **kw)], [], must_raise=REJECT)
    for code in (-1, 77):
        w = OnnxWorld()
        expect(ctx, "reject", f"an attribute of the unknown type {code}", w, [w.proto("AttributeProto", "a", name="a", type=code)], [], must_raise=REJECT)


def run(ctx):
    ctx.rule("value", "an attribute has the kind of its ONNX type and its own value, elements in order")
    ctx.rule("set", "the operation has exactly the attributes of its node, each under its own name; graphs are regions in name order")
    ctx.rule("reject", "attributes of other types are errors")
    for g in (scalars, tensors, several, rejects):
        ctx.group(g)
    ctx.floor("value", 45)
    ctx.floor("set", 10)
    ctx.floor("reject", 12)
