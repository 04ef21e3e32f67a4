"""C17: every ONNX node becomes one operation on its own inputs and outputs, or an error."""

from sa.onnxworld import *
from checks.c16 import REJECT, text

F32 = lambda *d: f"!torch.vtensor<[{','.join(map(str, d))}],f32>"
NONE_T = "!torch.none"
CRASH = ("ValueError", "TypeError", "KeyError", "AssertionError", "assert", "UnboundLocalError", "NotImplementedError", "RuntimeError")


def source(v, x):
    """Where an operand comes from: argument, result of an operation, literal or none."""
    if isinstance(x, T) and x.op == "obj" and len(x.args) == 2 and isinstance(x.args[0], K) and isinstance(x.args[1], K):
        own, n = x.args[0].v, x.args[1].v
        if own.startswith("block"):
            f = v.owner(obj(own))
            return ("arg" if f.args[0].v.startswith("func") else f"{v.op_name(v.by_obj[obj(f.args[0].v)])}.{f.args[1].v}.arg") + n[3:]
        o = v.by_obj.get(obj(own))
        if o is not None:
            name = v.op_name(o)
            if name == "torch.constant.none":
                return "none"
            if name == "onnx.Constant":
                ts = sorted({y.args[0].v for a in o.attributes.values() for y in walk(a) if isinstance(y, T) and y.op == "obj" and isinstance(y.args[0], K) and str(y.args[0].v).startswith("T_")})
                return "+".join(t.split(".")[0] for t in ts) or "constant"
            return f"{name}#{n[1:]}"
    return show(x)


def shape_of(v):
    """(operations of the main function as text, what it returns)"""
    f = next(e for e in v.funcs if e.arg("visibility", None, NONE) in (None, NONE))
    b = v.entry(obj(f"func{f.idx}"))
    ops, ret = [], None
    for o in v.in_block(b):
        n = v.op_name(o)
        if n in ("torch.constant.none", "onnx.Constant"):
            continue
        if n == "func.return":
            ret = [source(v, x) for x in o.operands] if ret is None else "two returns"
            continue
        ops.append((n, [source(v, x) for x in o.operands], [text(t) for t in o.results]))
    return ops, ret


def nodes(ctx, rule, cons, w, model, ops, ret, may_raise=(), must_raise=()):
    def pred(p):
        got, r = shape_of(OView(p))
        if len(got) != len(ops):
            return f"the operations are {[g[0] for g in got]}, the nodes are {[o[0] for o in ops]}"
        for g, o in zip(got, ops):
            for i, what in enumerate(("operation", "operands", "results")):
                if g[i] != o[i]:
                    return f"node {o[0]}: {what} {g[i]}, expected {o[i]}"
        if r != ret:
            return f"returns {r}, expected {ret}"
        return None

    return decide(ctx, rule, cons, import_model(ctx, w, cons, model), pred, may_raise=may_raise, must_raise=must_raise)


def graphs(ctx):
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1]), w.info("y", [2])], [w.info("o", [3])], [w.nodep("Foo", ["x", "y"], ["o"])])
    nodes(ctx, "operands", "one node", w, w.model(g), [("onnx.Foo", ["arg0", "arg1"], [F32(3)])], ["onnx.Foo#0"])
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1]), w.info("y", [2])], [w.info("o", [3])], [w.nodep("Foo", ["y", "x", "y"], ["o"])])
    nodes(ctx, "operands", "swapped and repeated inputs", w, w.model(g), [("onnx.Foo", ["arg1", "arg0", "arg1"], [F32(3)])], ["onnx.Foo#0"])
    w = OnnxWorld()
    ns = [w.nodep("A", ["x"], ["a"]), w.nodep("B", ["a", "x"], ["b", "c"]), w.nodep("C", ["c", "a", "b"], ["d"]), w.nodep("D", ["b"], ["e"])]
    g = w.graphp("main", [w.info("x", [1])], [w.info("d", [4]), w.info("e", [5])], ns, [], [w.info("a", [11]), w.info("c", [13]), w.info("b", [12])])
    nodes(ctx, "operands", "a chain with several results", w, w.model(g), [
        ("onnx.A", ["arg0"], [F32(11)]), ("onnx.B", ["onnx.A#0", "arg0"], [F32(12), F32(13)]),
        ("onnx.C", ["onnx.B#1", "onnx.A#0", "onnx.B#0"], [F32(4)]), ("onnx.D", ["onnx.B#0"], [F32(5)])], ["onnx.C#0", "onnx.D#0"])
    # graph outputs
    for cons, outs, ret in (("reordered", ["c", "a", "b"], [2, 0, 1]), ("repeated", ["b", "b", "a"], [1, 1, 0]), ("a part of them", ["c"], [2]), ("none", [], [])):
        w = OnnxWorld()
        g = w.graphp("main", [w.info("x", [1])], [w.info(o, [11 + "abc".index(o)], tag=f"{i}") for i, o in enumerate(outs)], [w.nodep("A", ["x"], ["a", "b", "c"])], [],
                     [w.info(o, [11 + i], tag="v") for i, o in enumerate("abc")])
        nodes(ctx, "outputs", f"graph outputs: {cons}", w, w.model(g), [("onnx.A", ["arg0"], [F32(11), F32(12), F32(13)])], [f"onnx.A#{i}" for i in ret])
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1]), w.info("y", [2])], [w.info("y", [2], tag="o"), w.info("k", [7], tag="o"), w.info("x", [1], tag="o")], [], [w.tensor("k", [7])])
    nodes(ctx, "outputs", "graph outputs: inputs and initializers", w, w.model(g), [], ["arg1", "T_k", "arg0"])
    # omitted inputs and outputs
    for ins in (["", "x"], ["x", "", "y"], ["x", ""], ["", ""], ["x", "", "", "y"]):
        w = OnnxWorld()
        g = w.graphp("main", [w.info("x", [1]), w.info("y", [2])], [w.info("o", [3])], [w.nodep("Foo", ins, ["o"])])
        nodes(ctx, "omitted", f"omitted inputs {ins}", w, w.model(g), [("onnx.Foo", [{"": "none", "x": "arg0", "y": "arg1"}[i] for i in ins], [F32(3)])], ["onnx.Foo#0"])
    for outs in (["", "o"], ["o", ""], ["o", "", "p"], ["", "", "o"]):
        w = OnnxWorld()
        g = w.graphp("main", [w.info("x", [1])], [w.info(o, [3 if o == "o" else 4]) for o in ("o", "p") if o in outs], [w.nodep("Foo", ["x"], outs)])
        nodes(ctx, "omitted", f"omitted outputs {outs}", w, w.model(g), [("onnx.Foo", ["arg0"], [{"": NONE_T, "o": F32(3), "p": F32(4)}[o] for o in outs])],
              [f"onnx.Foo#{outs.index(o)}" for o in ("o", "p") if o in outs])
    # an omitted output is not a value that omitted inputs read
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3])], [w.nodep("A", ["x"], ["a", ""]), w.nodep("B", ["a", "", "x"], ["o", ""])], [], [w.info("a", [5])])
    nodes(ctx, "omitted", "omitted outputs and inputs of several nodes", w, w.model(g), [("onnx.A", ["arg0"], [F32(5), NONE_T]), ("onnx.B", ["onnx.A#0", "none", "arg0"], [F32(3), NONE_T])], ["onnx.B#0"])
    # values nobody has a type for
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3])], [w.nodep("A", ["x"], ["o", "unused"])])
    nodes(ctx, "omitted", "an unused result without a type", w, w.model(g), [("onnx.A", ["arg0"], [F32(3), NONE_T])], ["onnx.A#0"])
    # nodes without inputs, without outputs
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3])], [w.nodep("A", [], ["a"]), w.nodep("B", ["x"], []), w.nodep("C", ["a"], ["o"])], [], [w.info("a", [5])])
    nodes(ctx, "operands", "nodes without inputs or without outputs", w, w.model(g), [("onnx.A", [], [F32(5)]), ("onnx.B", ["arg0"], []), ("onnx.C", ["onnx.A#0"], [F32(3)])], ["onnx.C#0"])
    # nodes nobody uses and equal nodes stay
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3])], [w.nodep("A", ["x"], ["a"]), w.nodep("A", ["x"], ["b"]), w.nodep("C", ["b", "a"], ["o"])], [], [w.info("a", [5]), w.info("b", [6])])
    nodes(ctx, "operands", "equal nodes", w, w.model(g), [("onnx.A", ["arg0"], [F32(5)]), ("onnx.A", ["arg0"], [F32(6)]), ("onnx.C", ["onnx.A#0", "onnx.A#0"], [F32(3)])], ["onnx.C#0"])


def distinct(ctx):
    """Which of two equal operations an operand names (source() tells them apart by name only)."""
    w = OnnxWorld()
    ns = [w.nodep("A", ["x"], ["a"]), w.nodep("A", ["a"], ["b"]), w.nodep("A", ["a"], ["c"]), w.nodep("C", ["c", "a", "b"], ["o"])]
    g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3]), w.info("b", [1], tag="o")], ns, [], [w.info(n, [5]) for n in "abc"])

    def pred(p):
        v = OView(p)
        a = v.named("onnx.A")
        c = v.named("onnx.C")[0]
        if len(a) != 3:
            return f"{len(a)} operations stand for three nodes"
        r = [o.result(0) for o in a]
        if a[1].operands != [r[0]] or a[2].operands != [r[0]]:
            return "a node reads the result of a different node"
        if c.operands != [r[2], r[0], r[1]]:
            return f"the last node reads the results of {[r.index(x) if x in r else show(x) for x in c.operands]}, expected [2, 0, 1]"
        ret = [o for o in v.ops if o.name == "func.return"][0].operands
        return None if ret == [c.result(0), r[1]] else f"returns {show(T('list', *ret))}"

    decide(ctx, "operands", "several nodes of one kind", import_model(ctx, w, "several nodes of one kind", w.model(g)), pred)


def literals(ctx):
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3])], [w.nodep("Foo", ["k", "x", "l", "k"], ["o"])], [w.tensor("l", [4]), w.tensor("k", [2, 2])])
    nodes(ctx, "operands", "initializers as inputs", w, w.model(g), [("onnx.Foo", ["T_k", "arg0", "T_l", "T_k"], [F32(3)])], ["onnx.Foo#0"])
    # constants
    w = OnnxWorld()
    t, t2 = w.tensor("whatever", [4], tag="1"), w.tensor("whatever", [5], tag="2")
    ns = [w.nodep("Constant", [], ["c"], [w.attr("value", "TENSOR", t=t)]), w.nodep("Constant", [], ["d"], [w.attr("value", "TENSOR", t=t2)]), w.nodep("Foo", ["d", "c", "x"], ["o"])]
    g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3]), w.info("d", [5])], ns)
    nodes(ctx, "operands", "constants with a tensor", w, w.model(g), [("onnx.Foo", ["T_2whatever", "T_1whatever", "arg0"], [F32(3)])], ["onnx.Foo#0", "T_2whatever"])
    # constants without a tensor remain generic nodes
    for a, kind, kw in (("value_float", "FLOAT", dict(f=obj("F"))), ("value_ints", "INTS", dict(ints=[1, 2])), ("value_string", "STRING", dict(s=obj("S")))):
        w = OnnxWorld()
        ns = [w.nodep("Constant", [], ["c"], [w.attr(a, kind, **kw)]), w.nodep("Foo", ["c"], ["o"])]
        g = w.graphp("main", [], [w.info("o", [3])], ns, [], [w.info("c", [9])])

        def pred(p, a=a):
            v = OView(p)
            c = v.named("onnx.Constant")
            if len(c) != 1 or list(v.attrs(c[0])) != [a]:
                return f"the constant has the attributes {[list(v.attrs(o)) for o in c]}"
            if [text(t) for t in c[0].results] != [F32(9)]:
                return "the constant has the wrong type"
            return None if v.named("onnx.Foo")[0].operands == [c[0].result(0)] else "the constant is not what the node reads"

        decide(ctx, "operands", f"a constant with {a}", import_model(ctx, w, a, w.model(g)), pred)


def versions(ctx):
    for cons, opsets, domain, ok in (
        ("the default domain", [("", 17)], None, True), ("an explicit default domain", [("", 17)], "", True),
        ("another domain", [("", 17), ("my.ops", 3)], "my.ops", True), ("only another domain", [("my.ops", 3)], "my.ops", True),
        ("a domain without an opset", [("", 17)], "my.ops", False), ("the default domain without an opset", [("my.ops", 3)], None, False), ("no opset", [], None, False),
    ):
        w = OnnxWorld()
        g = w.graphp("main", [w.info("x", [1])], [w.info("o", [3])], [w.nodep("Foo", ["x"], ["o"], domain=domain)])
        nodes(ctx, "reject" if not ok else "operands", f"a node of {cons}", w, w.model(g, opsets), [("onnx.Foo", ["arg0"], [F32(3)])], ["onnx.Foo#0"], must_raise=() if ok else REJECT)


def rejects(ctx):
    def one(cons, ins, outs, ns, inits=(), infos=()):
        w = OnnxWorld()
        g = w.graphp("main", [w.info(i, [1]) for i in ins], [w.info(o, [3]) for o in outs], [w.nodep(*n) for n in ns], [w.tensor(i) for i in inits], [w.info(i, [4]) for i in infos])
        nodes(ctx, "reject", cons, w, w.model(g), [], [], must_raise=REJECT)

    one("an input that does not exist", ["x"], ["o"], [("Foo", ["x", "ghost"], ["o"])])
    one("an input that has a type but no producer", ["x"], ["o"], [("Foo", ["x", "ghost"], ["o"])], (), ["ghost"])
    one("an input that is produced later", ["x"], ["o"], [("Foo", ["b"], ["o"]), ("Bar", ["x"], ["b"])], (), ["b"])
    one("an output nobody produces", ["x"], ["o", "ghost"], [("Foo", ["x"], ["o"])])
    one("a node that reads its own output", ["x"], ["o"], [("Foo", ["o"], ["o"])])


def run(ctx):
    ctx.rule("operands", "a node's operation has its name, its inputs in order, and a result of its own type per output")
    ctx.rule("outputs", "the function returns the graph's outputs in order")
    ctx.rule("omitted", "an omitted input is none, an omitted output binds no name")
    ctx.rule("reject", "nodes and outputs that read what does not exist, or have no opset, are errors")
    for g in (graphs, distinct, literals, versions, rejects):
        ctx.group(g)
    ctx.floor("operands", 12)
    ctx.floor("omitted", 10)
    ctx.floor("reject", 7)
