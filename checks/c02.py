"""C02: dtype -> MLIR element type, for values and for literals."""

import re

from sa.fxworld import *
from sa.torchfacts import DTYPE_ENUM

RAISES = ("ValueError", "TypeError", "KeyError", "NotImplementedError", "AssertionError", "RuntimeError", "assert")


def expected(d):
    """The element type a dtype denotes, by PyTorch's naming of dtypes."""
    m = re.fullmatch(r"(u?)int(\d+)", d)
    if m:
        return ("ui" if m.group(1) else "si") + m.group(2)
    m = re.fullmatch(r"float(16|32|64)", d)
    if m:
        return "f" + m.group(1)
    m = re.fullmatch(r"complex(\d+)", d)
    if m:
        return f"complex<f{int(m.group(1)) // 2}>"
    m = re.fullmatch(r"float(\d+)_(\w+?)(_x2)?", d)
    if m:
        return f"f{m.group(1)}{m.group(2).upper()}"
    return {"bool": "i1", "bfloat16": "bf16", "qint8": "!torch.qint8", "quint8": "!torch.quint8", "qint32": "!torch.qint32"}.get(d)


STORAGE = {"qint8": "si8", "quint8": "ui8", "qint32": "si32"}


def elem_text(t):
    """Assembly of an element type built with the Python bindings."""
    if isinstance(t, T) and t.op == "obj" and t.args[0] == K("type") and isinstance(t.args[1], K):
        return t.args[1].v
    for fn, pre in (("get_signed", "si"), ("get_unsigned", "ui"), ("get_signless", "i")):
        c = call_of(t, "IntegerType." + fn)
        if c:
            return pre + show(c[0][0])
    c = call_of(t, "ComplexType.get")
    if c:
        return f"complex<{elem_text(c[0][0])}>"
    if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], Q):
        m = re.search(r"ir\.(B?F)(loat)?(\d+)(\w*)Type\.get$", t.args[0].name)
        if m:
            return m.group(1).lower() + m.group(3) + m.group(4)
    return None


def value_type(ctx, d, how, mutable=False):
    w = World()
    if how == "tensor_meta":
        a = w.tensor_node("a", [3], "torch." + d)
    elif how == "val":
        a = w.node("a", "placeholder", val=w.fake("a.val", [3], "torch." + d))
    else:  # result of an operation
        ovl = w.overload("aten::foo", [], overload="bar")
        a = w.tensor_node("a", [3], "torch." + d, op="call_function", target=ovl)
    return import_graph(ctx, w, f"import_stateless_graph[{how} of torch.{d}]", [a, w.output(a)])


def literal(ctx, d, shape):
    w = World()
    ovl = w.overload("aten::foo", [("self", w.jit("TensorType"))], overload="bar")
    x = w.obj("tensor", "torch.Tensor", dtype=Q("torch." + d), shape=tup(*map(K, shape)), layout=Q("torch.strided"))
    w.call(x, "size", tup(*map(K, shape)))
    root = w.obj("root", "torch.fx.GraphModule", weight=x)
    if d == "bool":
        u8 = w.obj("tensor_u8", "torch.Tensor", dtype=Q("torch.uint8"), shape=tup(*map(K, shape)), layout=Q("torch.strided"))
        w.call(u8, "size", tup(*map(K, shape)))
        w.models["to"] = lambda it, recv, args, kw, node: u8 if freeze(args[0]) == Q("torch.uint8") else None
    ga = w.node("weight", "get_attr", K("weight"))
    n = w.tensor_node("n", [5], op="call_function", target=ovl, args=(ga,))
    g = w.graph([ga, n], owning=root)
    out = w.output(n)
    w.attrs[(g, "nodes")] = Lst([ga, n, out])
    p = ctx.project
    p.load(M)
    ps = ctx.explore(
        f"import_stateless_graph[literal torch.{d}{shape}]",
        lambda it: method(it, importer(it, p), "import_stateless_graph", [g]), **w.cfg()
    )
    return ps, x


def run(ctx):
    ctx.rule("value", "the type of a tensor value carries the element type its dtype denotes, or the import fails")
    ctx.rule("literal", "a tensor literal is emitted with the element type and the numpy type of its dtype, or the import fails")
    must = "uint8 int8 int16 int32 int64 float16 bfloat16 float32 float64 bool complex32 complex64 complex128".split()
    for d in DTYPE_ENUM:
        want = expected(d)
        for how in ("tensor_meta", "val", "result"):
            def pred(p):
                v = View(p)
                ft = v.ftype()
                t = (ft[0] + ft[1]) if ft else []
                if how == "result":
                    t = t + [r for o in v.named("torch.aten.foo.bar") for r in o.results]
                if not t:
                    return "no type"
                for x in t:
                    if x != ty(f"!torch.vtensor<[3],{want}>"):
                        return f"torch.{d} has the type {show(x)}, expected element type {want}"
                return None

            decide(ctx, "value", f"torch.{d} from {how}", value_type(ctx, d, how), pred, may_raise=() if d in must else RAISES)
    lit_must = "uint8 int8 int16 int32 int64 float16 float32 float64 bool complex64 complex128".split()
    for d in DTYPE_ENUM:
        stored = "uint8" if d == "bool" else d
        want = STORAGE.get(stored) or expected(stored)
        for shape in ([2, 3], [1]):
            ps, x = literal(ctx, d, shape)

            def pred(p):
                v = View(p)
                lits = v.named("torch.vtensor.literal")
                if len(lits) != 1:
                    return f"{len(lits)} literals emitted"
                a = lits[0].attributes.get("value")
                el = shp = None
                c = call_of(a, "DenseElementsAttr.get")
                if c:
                    el = c[1].get("type", c[0][2] if len(c[0]) > 2 else None)
                    r = call_of(el, "RankedTensorType.get") if el is not None else None
                    if r:
                        el = r[0][1]
                    arr = c[1].get("array", c[0][0] if c[0] else None)
                else:
                    c = call_of(a, "DenseResourceElementsAttr.get_from_buffer")
                    if not c:
                        return None  # another attribute: nothing to compare
                    arr = c[0][0] if c[0] else c[1].get("array")
                    r = call_of(c[0][2] if len(c[0]) > 2 else c[1].get("type"), "RankedTensorType.get")
                    if not r:
                        return None
                    shp, el = r[0][0], r[0][1]
                if elem_text(el) is not None and elem_text(el) != want:
                    return f"the literal's attribute has element type {elem_text(el)}, torch.{d} is stored as {want}"
                if shp is not None and seq(shp) is not None and seq(shp) != [K(s) for s in shape]:
                    return f"the literal's attribute has shape {show(shp)}, the tensor has {shape}"
                np_names = [y.name for y in walk(arr) if isinstance(y, Q) and (y.name.startswith("numpy.") or y.name.startswith("ml_dtypes.")) and y.name not in ("numpy.array", "numpy.asarray")]
                okn = {"numpy." + stored, "ml_dtypes." + stored, "numpy.bool_" if stored == "bool" else ""}
                for y in np_names:
                    if y not in okn:
                        return f"the literal's buffer is converted to {y}, the tensor is {stored}"
                rt = lits[0].results[0]
                if rt != ty(f"!torch.vtensor<{shape},{expected(stored)}>"):
                    return f"the literal has type {show(rt)}"
                op = v.named("torch.aten.foo.bar")
                if d == "bool":
                    pr = v.producer(op[0].operands[0]) if op and op[0].operands else None
                    if pr is None or pr[0].results[0] != ty(f"!torch.vtensor<{shape},i1>"):
                        return "a bool tensor literal does not reach its user as a bool tensor"
                    if v.const(pr[0].operands[1]) != ("int", K(11)):
                        return "the literal is not converted back to bool"
                    src = v.producer(pr[0].operands[0])
                    if src is None or src[0] is not lits[0] and src[0].obj != lits[0].obj:
                        return "the conversion to bool does not consume the literal"
                elif not op or op[0].operands != [lits[0].result()]:
                    return "the literal is not the operand"
                return None

            decide(ctx, "literal", f"torch.{d}{shape}", ps, pred, may_raise=() if d in lit_must else RAISES)
    ctx.rule("several", "tensors of one program each have the type of their own metadata")
    ctx.group(several)
    ctx.floor("several", 80)
    ctx.floor("value", 60)
    ctx.floor("literal", 40)


def several(ctx):
    """Every ordered pair of small tensor types in one program, by either kind of metadata."""
    dts = ("float32", "int64", "bool") if not ctx.deep else ("float32", "float64", "int64", "int32", "uint8", "int8", "bool", "bfloat16")
    shapes = ((), (2,), (1, 2), (2, 1), (-1, 2))
    items = [(d, s) for d in dts for s in shapes] if ctx.deep else [(d, s) for d in dts for s in shapes if d == "float32" or s in ((2,), (-1, 2))]
    sym = T("obj", K("s0"))
    for x in items:
        for y in items:
            for how in ("val", "tensor_meta"):
                w = World()
                w.types[sym] = "torch.SymInt"
                w.attrs[(sym, "node")] = w.obj("s0.node")
                nodes = []
                for i, (d, s) in enumerate((x, y)):
                    sh = [sym if e == -1 else e for e in s]
                    n = "ab"[i]
                    if how == "val":
                        nodes.append(w.node(n, "placeholder", val=w.fake(n + ".val", sh, "torch." + d)))
                    else:
                        nodes.append(w.tensor_node(n, sh, "torch." + d))
                ps = import_graph(ctx, w, f"import_stateless_graph[{x} and {y} from {how}]", nodes + [w.output(*nodes)])
                want = [ty(f"!torch.vtensor<[{','.join('?' if e == -1 else str(e) for e in s)}],{expected(d)}>") for d, s in (x, y)]

                def pred(p):
                    ft = View(p).ftype()
                    for k in (0, 1):
                        if ft is None or ft[k] != want:
                            return f"the {('arguments', 'results')[k]} have the types {[show(t) for t in ft[k]] if ft else None}, expected {[show(t) for t in want]}"
                    return None

                decide(ctx, "several", f"{x} and {y} from {how}", ps, pred)
