"""C20: ONNX tensors keep their bytes, shape and element type."""

from sa.onnxworld import *
from checks.c16 import ELEM, REJECT, SUPPORTED, text, vtype

# where the protocol keeps the elements of a tensor that has no raw data, and the numpy type of the elements
ARRAY = {
    "FLOAT": ("float_data", "float32"), "INT32": ("int32_data", "int32"), "INT16": ("int32_data", "int16"), "INT8": ("int32_data", "int8"),
    "UINT16": ("int32_data", "uint16"), "UINT8": ("int32_data", "uint8"), "BOOL": ("int32_data", "bool"), "INT64": ("int64_data", "int64"),
    "DOUBLE": ("double_data", "float64"), "UINT32": ("uint64_data", "uint32"), "UINT64": ("uint64_data", "uint64"),
}
INLINE = [k for k in ARRAY if k != "UINT16"]  # those that are supported
BITS = {"FLOAT16": ("int32_data", "uint16", "float16")}
NP = {"bool_": "bool", "bool8": "bool", "single": "float32", "double": "float64", "half": "float16"}
TYPELESS = {"FLOAT16", "DOUBLE", "FLOAT"}  # numpy determines these completely
CRASH = ("ValueError", "TypeError", "KeyError", "AssertionError", "assert", "NotImplementedError", "RuntimeError", "IndexError")


def npname(d):
    if isinstance(d, Q) and d.name.startswith("numpy."):
        n = d.name[6:]
    elif isinstance(d, Q) and d.name.startswith("builtins."):
        n = {"float": "float64", "int": "int64", "bool": "bool"}.get(d.name[9:], "?")
    elif isinstance(d, K) and isinstance(d.v, str):
        n = d.v
    else:
        c = call_of(d, "dtype")
        return npname(c[0][0]) if c and c[0] else None
    return NP.get(n, n)


def array(t):
    """(data, [dtypes it passed through], shape or None) of a numpy expression."""
    for fn in ("numpy.asarray", "numpy.array", "numpy.fromiter", "numpy.ascontiguousarray"):
        c = call_of(t, fn)
        if c and c[0]:
            d = c[1].get("dtype", c[0][1] if len(c[0]) > 1 else None)
            x = array(c[0][0])
            if x:
                return x[0], x[1] + ([npname(d)] if d is not None else []), x[2]
            return c[0][0], [npname(d) if d is not None else "default"], None
    if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "attr":
        base, m = t.args[0].args
        x = array(base)
        if x is None:
            return None
        a, k = list(t.args[1]), dict(t.args[2])
        if m == "reshape":
            sh = a[0] if len(a) == 1 else T("tuple", *a)
            return x[0], x[1], sh
        if m == "astype" and a:
            return x[0], x[1] + [npname(a[0])], x[2]
        if m == "view" and a:
            return x[0], x[1] + ["view", npname(a[0])], x[2]
        if m in ("copy",):
            return x
    c = call_of(t, "numpy.reshape")
    if c and len(c[0]) > 1:
        x = array(c[0][0])
        return (x[0], x[1], c[0][1]) if x else None
    if isinstance(t, T) and t.op in ("list", "tuple", "copy") and False:
        return None
    return None


def dims_of(sh):
    s = seq(sh)
    return [x.v if isinstance(x, K) else x for x in s] if s is not None else None


def payload(a, t, dims, elem, field):
    """None, or what is wrong with the attribute that stands for the tensor `t`."""
    name = t.args[0].v
    if a is None or a == NONE:
        return "not an attribute"
    data = obj(f"{name}.{'raw' if field == 'raw_data' else field}")
    c = call_of(a, "DenseResourceElementsAttr.get_from_buffer")
    if c is not None:
        args = dict(zip(("array", "name", "type", "alignment", "is_mutable"), c[0]))
        args.update(c[1])
        if field != "raw_data":
            return f"a resource over {show(args.get('array'))}; the tensor has {field}"
        if args.get("name", NONE) == NONE:
            return "a resource without a name"
        if args.get("array") != data:
            return f"a resource over {show(args.get('array'))}, expected {show(data)}"
        ty = args.get("type")
        if not (isinstance(ty, T) and ty.op == "obj" and ty.args[0] == K("tensortype")):
            return f"a resource of the type {show(ty)}"
        if dims_of(ty.args[1]) != dims:
            return f"a resource of the shape {dims_of(ty.args[1])}, expected {dims}"
        if text(ty.args[2]) != ELEM[elem]:
            return f"a resource of the element type {text(ty.args[2])}, expected {ELEM[elem]}"
        return None
    c = call_of(a, "DenseElementsAttr.get")
    if c is None:
        if field == "raw_data":
            raise LookupError(f"unrecognised literal {show(a)[:80]}")
        raise LookupError(f"unrecognised literal {show(a)[:80]}")
    args = dict(zip(("array", "signless", "type", "shape"), c[0]))
    args.update(c[1])
    x = array(args["array"])
    if x is None:
        raise LookupError(f"unrecognised array {show(args['array'])[:80]}")
    src, dts, sh = x
    if src != data:
        return f"elements taken from {show(src)}, the tensor keeps them in {field}"
    if elem in BITS:
        if dts[-3:] != [BITS[elem][1], "view", BITS[elem][2]]:
            return f"bit patterns converted by {dts}"
    elif elem in ARRAY:
        if any(d is None for d in dts):
            raise LookupError("unrecognised numpy type")
        if dts[-1] != ARRAY[elem][1] or any(narrower(d, dts[-1]) for d in dts[:-1]):
            return f"elements converted to {dts}, expected {ARRAY[elem][1]}"
    if "shape" in args and args["shape"] != NONE:
        sh = args["shape"]
    if sh is None or dims_of(sh) is None:
        raise LookupError("the shape of the literal is not known")
    if dims_of(sh) != dims:
        return f"elements of the shape {dims_of(sh)}, expected {dims}"
    if "type" in args and args["type"] != NONE:
        ty = args["type"]
        el = text(ty.args[2]) if isinstance(ty, T) and ty.op == "obj" and ty.args[0] == K("tensortype") else text(ty)
        if el != ELEM[elem]:
            return f"elements of the type {el}, expected {ELEM[elem]}"
    elif elem == "BOOL":
        return "booleans without their type are bytes"
    elif ELEM[elem][0] in "su" and args.get("signless", K(True)) != K(False):
        return f"signless elements, expected {ELEM[elem]}"
    return None


def narrower(a, b):
    """Whether passing through numpy type a loses elements of type b."""
    if a == b or a == "default":
        return False
    order = {"bool": 0, "int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 3, "uint32": 3, "int64": 4, "uint64": 4, "float16": 2, "float32": 3, "float64": 4}
    if a.startswith("float") != b.startswith("float"):
        return True
    return order.get(a, 0) < order.get(b, 9) or a.startswith("u") != b.startswith("u") and order.get(a, 0) <= order.get(b, 9)


def the_constant(v, w, name, user="onnx.Foo"):
    foo = v.named(user)[0]
    x = foo.operands[0]
    o = v.by_obj.get(obj(x.args[0].v)) if isinstance(x, T) and x.op == "obj" and isinstance(x.args[0], K) else None
    return o


def literal(ctx, rule, cons, w, t, dims, elem, field, constant=False, must_raise=(), may_raise=()):
    node = [w.nodep("Constant", [], ["k"], [w.attr("value", "TENSOR", t=t)])] if constant else []
    g = w.graphp("main", [], [w.info("o", [3])], node + [w.nodep("Foo", ["k"], ["o"])], [] if constant else [t])

    def pred(p):
        v = OView(p)
        o = the_constant(v, w, "k")
        if o is None or v.op_name(o) != "onnx.Constant":
            return "what the node reads is not a constant"
        a = v.attrs(o)
        if set(a) != {"value"}:
            return f"the constant has the attributes {sorted(a)}"
        m = payload(a["value"], t, dims, elem, field)
        if m:
            return m
        want = vtype(ELEM[elem], ",".join(map(str, dims)))
        return None if [text(x) for x in o.results] == [want] else f"the constant has the type {[text(x) for x in o.results]}, expected {want}"

    decide(ctx, rule, cons, import_model(ctx, w, cons, w.model(g)), pred, may_raise=may_raise, must_raise=must_raise)


def payloads(ctx):
    for constant in (False, True):
        what = "a Constant" if constant else "an initializer"
        for name in enum("TensorProto.DataType"):
            if name in SUPPORTED and name != "STRING":
                for dims in ([2, 3], [], [0], [4]):
                    w = OnnxWorld()
                    literal(ctx, "raw", f"{what} of {name} {dims} with raw data", w, w.tensor("k", dims, name), dims, name, "raw_data", constant)
            if name in ARRAY or name in BITS:
                f = (ARRAY.get(name) or BITS.get(name))[0]
                for dims in ([2, 3], [], [4]):
                    w = OnnxWorld()
                    literal(ctx, "typed", f"{what} of {name} {dims} with typed data", w, w.tensor("k", dims, name, raw=f), dims, name, f, constant, may_raise=() if name in INLINE else REJECT)
            elif name != "UNDEFINED":
                w = OnnxWorld()
                literal(ctx, "typed", f"{what} of {name} with typed data", w, w.tensor("k", [2], name, raw="int32_data"), [2], name, "", constant, must_raise=REJECT)


def several(ctx):
    """Every name stands for its own tensor."""
    w = OnnxWorld()
    ts = [w.tensor("a", [2]), w.tensor("b", [2]), w.tensor("c", [3], "INT64", raw="int64_data"), w.tensor("d", [2], "INT64"), w.tensor("e", [3], "INT64", raw="int64_data")]
    cs = [w.tensor("a", [2], tag="in:"), w.tensor("", [2], tag="in:")]
    ns = [w.nodep("Constant", [], ["f"], [w.attr("value", "TENSOR", t=cs[0])]), w.nodep("Constant", [], ["g"], [w.attr("value", "TENSOR", t=cs[1])])]
    order = ["g", "c", "a", "f", "e", "b", "d", "a"]
    g = w.graphp("main", [], [w.info("o", [3])], ns + [w.nodep("Foo", order, ["o"])], ts)
    by = dict(zip("abcde", ts), f=cs[0], g=cs[1])

    def pred(p):
        v = OView(p)
        foo = v.named("onnx.Foo")[0]
        for n, x in zip(order, foo.operands):
            o = v.by_obj.get(obj(x.args[0].v))
            t = by[n]
            ints = n in "ce"
            m = payload(v.attrs(o)["value"], t, [3] if ints else [2], "INT64" if ints or n == "d" else "FLOAT", "int64_data" if ints else "raw_data")
            if m:
                return f"{n}: {m}"
        return None

    decide(ctx, "names", "several initializers and constants", import_model(ctx, w, "several", w.model(g)), pred)
    # a name of the tensor itself, whatever characters it has
    for name in ("a b", "1x", "é/:0", "", "x.y", "名"):
        w = OnnxWorld()
        t = w.tensor(name, [2])
        g = w.graphp("main", [], [w.info("o", [3])], [w.nodep("Foo", [name or "k"], ["o"])], [t] if name else [])
        if not name:
            continue

        def pred(p, t=t):
            v = OView(p)
            o = the_constant(v, w, "")
            return payload(v.attrs(o)["value"], t, [2], "FLOAT", "raw_data")

        decide(ctx, "names", f"an initializer called {name!r}", import_model(ctx, w, name, w.model(g)), pred)


def run(ctx):
    ctx.rule("raw", "a tensor with raw data becomes a literal over exactly those bytes, of its own shape and element type")
    ctx.rule("typed", "a tensor with typed data becomes a literal of the elements in the field the protocol keeps them in")
    ctx.rule("names", "each name stands for its own tensor")
    for g in (payloads, several):
        ctx.group(g)
    ctx.floor("raw", 150)
    ctx.floor("typed", 60)
