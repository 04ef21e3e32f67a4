"""C21: graphs become functions and regions with their own inputs, outputs and scope."""

from sa.onnxworld import *
from checks.c16 import REJECT, text
from checks.c18 import as_int, as_string, SI64
from checks.c19 import F32, Tree, same_ops, expand

CRASH = ("AssertionError", "assert")


def graph(ctx, rule, cons, w, model, ins, ops, config=None, name="main", may_raise=(), must_raise=(), outs=None):
    """ins: types of the function's arguments; ops: its operations."""

    def pred(p):
        t = Tree(p)
        if len(t.v.funcs) != 1:
            return f"{len(t.v.funcs)} functions are defined"
        f = t.v.funcs[0]
        if f.arg("name", 0) != K(name):
            return f"the function is called {show(f.arg('name', 0))}, the graph {name}"
        if f.arg("visibility", None, NONE) != NONE:
            return "the function is not public"
        got = t.func(obj(f"func{f.idx}"))
        if got[0] != ins:
            return f"the arguments are {got[0]}, expected {ins}"
        if outs is not None and got[1] != outs:
            return f"the results are {got[1]}, expected {outs}"
        return same_ops(t, got[2], ops)

    return decide(ctx, rule, cons, import_model(ctx, w, cons, model, config), pred, may_raise=may_raise, must_raise=must_raise)


def boundary(ctx):
    names = ["x", "k", "y", "l"]
    for inits in ([], ["k"], ["x"], ["l"], ["l", "k"], ["k", "x"], ["k", "l", "x", "y"]):
        for extra in ([], ["m"]):
            for elide in (None, True, False):
                w = OnnxWorld()
                g = w.graphp("main", [w.info(n, [i + 1]) for i, n in enumerate(names)], [w.info("o", [9])], [w.nodep("Foo", ["y", "l", "x", "k"] + extra, ["o"])], [w.tensor(n, [names.index(n) + 1 if n in names else 7]) for n in inits + extra])
                rest = [n for n in names if n not in inits]
                val = lambda n: f"arg{rest.index(n)}" if n in rest else f"T_{n}"
                ops = [("onnx.Foo", [val(n) for n in ["y", "l", "x", "k"] + extra], [F32(9)]), ("return", ["onnx.Foo#0"])]
                cfg = {} if elide is None else {"elide_initialized_inputs": K(elide)}
                graph(ctx, "input", f"initializers of {inits + extra}, elided: {'by default' if elide is None else elide}", w, w.model(g), [F32(names.index(n) + 1) for n in rest], ops, cfg,
                      must_raise=CRASH + REJECT if elide is False and inits else ())
    for n in (0, 1, 5):
        w = OnnxWorld()
        g = w.graphp("some graph", [w.info(f"x{i}", [i + 1]) for i in range(n)], [w.info(f"x{i}", [i + 1], tag="o") for i in reversed(range(n))], [])
        graph(ctx, "input", f"{n} inputs that are returned", w, w.model(g), [F32(i + 1) for i in range(n)], [("return", [f"arg{i}" for i in reversed(range(n))])], name="some graph", outs=[F32(i + 1) for i in reversed(range(n))])
    w = OnnxWorld()
    g = w.graphp("main", [w.info("x", [1]), w.info("unused", [2]), w.info("y", [3])], [w.info("o", [4])], [w.nodep("Foo", ["y", "x"], ["o"])])
    graph(ctx, "input", "an unused input", w, w.model(g), [F32(1), F32(2), F32(3)], [("onnx.Foo", ["arg2", "arg0"], [F32(4)]), ("return", ["onnx.Foo#0"])], outs=[F32(4)])


def meta(ctx):
    V = lambda n: obj(f"v{n}")
    for cons, opsets in (("the default opset", [("", V(0))]), ("another domain first", [("my", V(1)), ("", V(0))]), ("three domains", [("", V(0)), ("my", V(1)), ("your.ops", V(2))]), ("no default opset", [("my", V(1))]), ("none", []),
                         ("constant versions", [("my", 3), ("", 17)])):
        w = OnnxWorld()
        m = w.model(w.graphp("main", [], [], []), opsets)

        def pred(p, w=w, m=m, opsets=opsets):
            v = OView(p)
            f = obj(f"func{v.funcs[0].idx}")
            got = {}
            for e in p.events:
                if e.kind == "setitem" and e.recv == T("attr", f, "attributes") and isinstance(e.args[0], K):
                    got[e.args[0].v] = e.args[1]
            val = lambda x: K(x) if isinstance(x, int) else x
            want = {"ir_version": obj("model.ir"), "producer_name": obj("model.producer"), "producer_version": obj("model.pv")}
            default = [val(x) for d, x in opsets if not d]
            others = {d: val(x) for d, x in opsets if d}
            names = {"ir_version", "producer_name", "producer_version"} | ({"opset_version"} if default else set()) | ({"opset_versions"} if others else set())
            names = {"torch.onnx_meta." + n for n in names}
            if names != {k for k in got if k.startswith("torch.onnx_meta.")}:
                return f"the metadata are {sorted(got)}, expected {sorted(names)}"
            g = lambda n: got["torch.onnx_meta." + n]
            for n, f in (("ir_version", as_int), ("producer_name", as_string), ("producer_version", as_string)):
                if f(g(n)) != want[n]:
                    return f"{n} is {show(g(n))}"
            if default and as_int(g("opset_version")) != default[0]:
                return f"the opset version is {show(g('opset_version'))}"
            if others:
                c = call_of(g("opset_versions"), "DictAttr.get")
                d = c[0][0] if c and c[0] else c[1].get("value") if c else None
                if not isinstance(d, T) or d.op != "dict":
                    raise LookupError("dictionary of versions")
                if {k: as_int(x) for k, x in d.args} != {K(k): x for k, x in others.items()}:
                    return f"the versions of the other domains are {show(d)}"
            return None

        # a default opset of version 0 does not exist
        nz = [T("eq", K(0), x) for d, x in opsets if not d and isinstance(x, T)]
        decide(ctx, "meta", cons, [p for p in import_model(ctx, w, cons, m) if not any(a in nz and v or a == x and not v for a, v, _ in p.facts for d, x in opsets if not d)], pred)


def scopes(ctx):
    """Nodes with graphs."""
    n = 0

    def sub(w, name, ins, outs, nodes, inits=(), infos=()):
        return w.attr(name, "GRAPH", g=w.graphp("g:" + name, [w.info(i, d, tag=name) for i, d in ins], [w.info(o, d, tag=name + "o") for o, d in outs], nodes, inits, [w.info(i, d, tag=name + "v") for i, d in infos]))

    def main(w, nodes, ops, cons, infos=(), inits=(), ins=(("x", [2]), ("y", [4])), outs=(("o", [3]),), **kw):
        g = w.graphp("main", [w.info(i, d) for i, d in ins], [w.info(o, d) for o, d in outs], nodes, inits, [w.info(i, d) for i, d in infos])
        graph(ctx, kw.pop("rule", "region"), cons, w, w.model(g), [F32(*d) for _, d in ins], ops, **kw)

    # captures: arguments, initializers, results
    w = OnnxWorld()
    ns = [w.nodep("A", ["x"], ["a", "b"])]
    ns.append(w.nodep("If", ["x"], ["o"], [sub(w, "then", [], [("r", [5])], [w.nodep("T", ["b", "y", "k", "", "a"], ["r"])]), sub(w, "else", [], [("s", [6])], [w.nodep("E", ["x"], ["s"])])]))
    main(w, ns, [("onnx.A", ["arg0"], [F32(11), F32(12)]), ("onnx.If", ["arg0"], [F32(3)], {}, [([], [("onnx.E", ["arg0"], [F32(6)]), ("return", ["onnx.E#0"])]), ([], [("onnx.T", ["onnx.A#1", "arg1", "T_k", "none", "onnx.A#0"], [F32(5)]), ("return", ["onnx.T#0"])])]), ("return", ["onnx.If#0"])],
         "graphs that read outer values", [("a", [11]), ("b", [12])], [w.tensor("k", [7])])
    # arguments
    for k in (0, 1, 2, 3):
        w = OnnxWorld()
        ins = [(f"i{j}", [20 + j]) for j in range(k)]
        ns = [w.nodep("Loop", ["x"], ["o"], [sub(w, "body", ins, [("r", [5])] + [(f"i{j}", [20 + j]) for j in reversed(range(k))], [w.nodep("B", [f"i{j}" for j in reversed(range(k))] + ["x"], ["r"])])])]
        main(w, ns, [("onnx.Loop", ["arg0"], [F32(3)], {}, [([F32(20 + j) for j in range(k)], [("onnx.B", [f"inner1.{j}" for j in reversed(range(k))] + ["arg0"], [F32(5)]), ("return", ["onnx.B#0"] + [f"inner1.{j}" for j in reversed(range(k))])])]), ("return", ["onnx.Loop#0"])],
             f"a graph with {k} inputs")
    # what a region returns
    w = OnnxWorld()
    ns = [w.nodep("A", ["x"], ["a"]), w.nodep("Loop", ["x"], ["o"], [sub(w, "body", [("i", [5])], [("a", [11]), ("i", [5]), ("y", [4]), ("k", [7]), ("l", [8]), ("a", [11])], [], [w.tensor("l", [8])])])]
    main(w, ns, [("onnx.A", ["arg0"], [F32(11)]), ("onnx.Loop", ["arg0"], [F32(3)], {}, [([F32(5)], [("return", ["onnx.A#0", "inner1.0", "arg1", "T_k", "T_l", "onnx.A#0"])])]), ("return", ["onnx.Loop#0"])], "a graph that returns values it did not compute", [("a", [11])], [w.tensor("k", [7])])
    # shadowing
    for what in ("an argument", "a result", "an initializer"):
        outer = {"an argument": "x", "a result": "a", "an initializer": "k"}[what]
        for by in ("an input", "an initializer", "a result"):
            w = OnnxWorld()
            ins = [(outer, [40])] if by == "an input" else []
            body = ([w.nodep("P", ["y"], [outer])] if by == "a result" else []) + [w.nodep("B", [outer, "y"], ["r"])]
            inits = [w.tensor(outer, [40], tag="in")] if by == "an initializer" else []
            ns = [w.nodep("A", ["x"], ["a"]), w.nodep("Loop", ["y"], ["q"], [sub(w, "body", ins, [("r", [5])], body, inits, [(outer, [40])] if by == "a result" else ())]), w.nodep("Z", [outer, "q"], ["o"])]
            inner = {"an input": "inner1.0", "an initializer": f"T_in{outer}", "a result": "onnx.P#0"}[by]
            out = {"x": "arg0", "a": "onnx.A#0", "k": "T_k"}[outer]
            region = ([F32(40)] if by == "an input" else [], ([("onnx.P", ["arg1"], [F32(40)])] if by == "a result" else []) + [("onnx.B", [inner, "arg1"], [F32(5)]), ("return", ["onnx.B#0"])])
            main(w, ns, [("onnx.A", ["arg0"], [F32(11)]), ("onnx.Loop", ["arg1"], [F32(6)], {}, [region]), ("onnx.Z", [out, "onnx.Loop#0"], [F32(3)]), ("return", ["onnx.Z#0"])], f"{what} shadowed by {by}", [("a", [11]), ("q", [6])], [w.tensor("k", [7])])
    # depth
    w = OnnxWorld()
    in3 = w.nodep("L3", ["x"], ["v3"], [sub(w, "g", [("i3", [33])], [("w3", [43])], [w.nodep("C", ["i3", "t2", "i2", "t1", "i1", "x", "k"], ["w3"])])])
    in2 = w.nodep("L2", ["x"], ["v2"], [sub(w, "g", [("i2", [32])], [("v3", [53])], [w.nodep("B", ["i2", "i1"], ["t2"]), in3], (), [("t2", [62])])])
    in1 = w.nodep("L1", ["x"], ["o"], [sub(w, "g", [("i1", [31])], [("v2", [52])], [w.nodep("A", ["i1", "y"], ["t1"]), in2], (), [("t1", [61])])])
    r3 = ([F32(33)], [("onnx.C", ["inner3.0", "onnx.B#0", "inner2.0", "onnx.A#0", "inner1.0", "arg0", "T_k"], [F32(43)]), ("return", ["onnx.C#0"])])
    r2 = ([F32(32)], [("onnx.B", ["inner2.0", "inner1.0"], [F32(62)]), ("onnx.L3", ["arg0"], [F32(53)], {}, [r3]), ("return", ["onnx.L3#0"])])
    r1 = ([F32(31)], [("onnx.A", ["inner1.0", "arg1"], [F32(61)]), ("onnx.L2", ["arg0"], [F32(52)], {}, [r2]), ("return", ["onnx.L2#0"])])
    main(w, [in1], [("onnx.L1", ["arg0"], [F32(3)], {}, [r1]), ("return", ["onnx.L1#0"])], "graphs within graphs", (), [w.tensor("k", [7])])
    # equal names in sibling graphs
    w = OnnxWorld()
    br = lambda n, d: sub(w, n, [("i", [d])], [("r", [d + 1])], [w.nodep("B" + n, ["i"], ["t"]), w.nodep("C" + n, ["t", "i", "k"], ["r"])], [w.tensor("k", [3], tag=n)], [("t", [d + 2])])
    rg = lambda n, d: ([F32(d)], [("onnx.B" + n, ["inner1.0"], [F32(d + 2)]), ("onnx.C" + n, ["onnx.B" + n + "#0", "inner1.0", f"T_{n}k"], [F32(d + 1)]), ("return", ["onnx.C" + n + "#0"])])
    for order in (["p", "q"], ["q", "p"]):
        main(w, [w.nodep("If", ["x"], ["o"], [br(n, 20 if n == "p" else 30) for n in order])], [("onnx.If", ["arg0"], [F32(3)], {}, [rg("p", 20), rg("q", 30)]), ("return", ["onnx.If#0"])], f"equal names in the graphs {order}")
    # nodes before and after, several nodes with graphs
    w = OnnxWorld()
    ns = [w.nodep("If", ["x"], ["p"], [sub(w, "g", [], [("r", [5])], [w.nodep("A", ["x"], ["r"])])]), w.nodep("If", ["p"], ["o"], [sub(w, "g", [], [("r", [6])], [w.nodep("B", ["p", "y"], ["r"])])])]
    main(w, ns, [("onnx.If", ["arg0"], [F32(13)], {}, [([], [("onnx.A", ["arg0"], [F32(5)]), ("return", ["onnx.A#0"])])]), ("onnx.If", ["onnx.If#0"], [F32(3)], {}, [([], [("onnx.B", ["onnx.If#0", "arg1"], [F32(6)]), ("return", ["onnx.B#0"])])]), ("return", ["onnx.If#0"])],
         "a graph behind a node with a graph", [("p", [13])])
    # types: the graph's own first, then those of the enclosing graphs
    for cons, reject in (("the graph itself", ["t"]), ("a sibling", ["u"])):
        w = OnnxWorld()
        g1 = sub(w, "a", [], [("t", [5])], [w.nodep("A", ["x"], ["t"])])
        g2 = sub(w, "b", [], [("r", [5])], [w.nodep("B", ["t" if cons == "a sibling" else "x"], ["r"])])
        ns = [w.nodep("If", ["x"], ["q"], [g1, g2]), w.nodep("Z", ["t" if cons != "a sibling" else "q"], ["o"])]
        main(w, ns, [], f"a value of an inner graph is not visible outside of {cons}", [("q", [6]), ("t", [5])], rule="scope", must_raise=REJECT)
    w = OnnxWorld()
    main(w, [w.nodep("If", ["x"], ["o"], [sub(w, "g", [], [("r", [5])], [w.nodep("B", ["late"], ["r"])])]), w.nodep("A", ["x"], ["late"])], [], "a value that is computed behind the graph", [("late", [6])], rule="scope", must_raise=REJECT)
    w = OnnxWorld()
    main(w, [w.nodep("If", ["x"], ["o"], [sub(w, "g", [], [("ghost", [5])], [])])], [], "an inner output nobody produces", rule="scope", must_raise=REJECT)
    w = OnnxWorld()
    main(w, [w.nodep("Loop", ["x"], ["o"], [sub(w, "g", [], [("o", [5])], [])])], [], "a graph that reads the result of its own node", rule="scope", must_raise=REJECT)


def run(ctx):
    ctx.rule("input", "the function takes the graph's inputs without an initial value, in order, and has its name and results")
    ctx.rule("meta", "the function states the model's opset, IR and producer versions")
    ctx.rule("region", "every graph of a node becomes a region with its own inputs, nodes and outputs, that reads the innermost value of a name")
    ctx.rule("scope", "what a graph defines is not visible outside of it")
    for g in (boundary, meta, scopes):
        ctx.group(g)
    ctx.floor("input", 40)
    ctx.floor("meta", 6)
    ctx.floor("region", 15)
    ctx.floor("scope", 5)
