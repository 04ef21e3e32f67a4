"""C08: every node of a graph is imported, in place, or the import fails."""

from sa.fxworld import *
from checks.c05 import emitted, op_name, lit, REJ

ERR = REJ + ("AttributeError", "NameError")


def multi(w, n, ret, args, types=None, name="many"):
    ovl = w.overload("aten::" + name, [(f"p{i}", w.jit("TensorType")) for i in range(len(args))], returns=ret, overload="x")
    return w.node(n, "call_function", ovl, args, val=tup(*[w.fake(f"{n}.v{i}", [50 + i]) for i in range(ret)]))


def item(w, n, of, i, shape=(9,)):
    return w.tensor_node(n, list(shape), op="call_function", target=Q("operator.getitem"), args=(of, K(i)))


def use(w, n, *args):
    ovl = w.overload("aten::" + n, [(f"p{i}", w.jit("TensorType")) for i in range(len(args))])
    return w.tensor_node(n, [5], op="call_function", target=ovl, args=args)


def results(ctx):
    """Results of multi-result operations reach the users that name them."""
    for ret in (2, 3, 4):
        for order in ([0, 1], [1, 0], [ret - 1], [1, 1], [0, ret - 1, 0]):
            w = World()
            x = w.tensor_node("x", [7])
            m = multi(w, "m", ret, [x])
            gs = [item(w, f"g{k}", m, i, [50 + i]) for k, i in enumerate(order)]
            us = [use(w, f"u{k}", g) for k, g in enumerate(gs)]
            ps = import_graph(ctx, w, f"import_stateless_graph[{ret} results, items {order}]", [x, m] + gs + us + [w.output(*gs)])

            def pred(p):
                v = View(p)
                if len(emitted(v, "torch.aten.many.x")) != 1:
                    return "the operation is not emitted once"
                for k, i in enumerate(order):
                    o = emitted(v, f"torch.aten.u{k}")
                    if len(o) != 1 or origins(v, o[0].operands) != [f"many.x#{i}"]:
                        return f"item {i} of {ret} reaches its user as {o and origins(v, o[0].operands)}"
                if origins(v, v.returned()) != [f"many.x#{i}" for i in order]:
                    return f"items {order} are returned as {origins(v, v.returned())}"
                return None

            decide(ctx, "result", f"items {order} of {ret} results", ps, pred)
        w = World()
        x = w.tensor_node("x", [7])
        m = multi(w, "m", ret, [x])
        g = item(w, "g", m, ret)
        ps = import_graph(ctx, w, f"import_stateless_graph[item {ret} of {ret}]", [x, m, g, w.output(g)])
        decide(ctx, "result", f"item {ret} of {ret} results", ps, lambda p: None, must_raise=ERR)
        w = World()
        x = w.tensor_node("x", [7])
        m = multi(w, "m", ret, [x])
        u = use(w, "u", m)
        ps = import_graph(ctx, w, f"import_stateless_graph[the tuple of {ret} results as an operand]", [x, m, u, w.output(u)])
        decide(ctx, "result", f"a tuple of {ret} results as an operand", ps, lambda p: None, must_raise=ERR)
    # two multi-result operations do not mix
    w = World()
    x, y = w.tensor_node("x", [7]), w.tensor_node("y", [7])
    a, b = multi(w, "a", 2, [x], name="ma"), multi(w, "b", 2, [y], name="mb")
    gs = [item(w, "b1", b, 1), item(w, "a0", a, 0), item(w, "a1", a, 1), item(w, "b0", b, 0)]
    ps = import_graph(ctx, w, "import_stateless_graph[two multi-result operations]", [x, y, a, b] + gs + [w.output(*gs)])
    decide(ctx, "result", "two multi-result operations", ps,
           lambda p: None if origins(View(p), View(p).returned()) == ["mb.x#1", "ma.x#0", "ma.x#1", "mb.x#0"] else f"returned {origins(View(p), View(p).returned())}")


def unpack(ctx):
    """Items of operations that return a list."""
    for n in (1, 2, 3):
        for order in ([0], [n - 1, 0], [0, 0], list(range(n)), list(range(n))[::-1]):
            w = World()
            x = w.tensor_node("x", [7])
            ovl = w.overload("aten::split", [("p0", w.jit("TensorType"))], overload="x")
            vals = Lst([w.fake(f"s.v{i}", [50 + i]) for i in range(n)])
            s = w.node("s", "call_function", ovl, [x], val=vals)
            gs = [item(w, f"g{k}", s, i, [50 + i]) for k, i in enumerate(order)]
            ps = import_graph(ctx, w, f"import_stateless_graph[list of {n}, items {order}]", [x, s] + gs + [w.output(*gs)])

            def pred(p):
                v = View(p)
                sp = emitted(v, "torch.aten.split.x")
                if len(sp) != 1 or sp[0].results != [ty("!torch.list<vtensor>")]:
                    return f"{sp}: {[show(o.results) for o in sp]}"
                r = v.returned()
                if r is None or len(r) != len(order):
                    return f"returned {origins(v, r)}"
                for x, i in zip(r, order):
                    pr = v.producer(x)
                    if pr is None or pr[0].name != "torch.prim.ListUnpack" or pr[1] != i:
                        return f"item {i} is {origin(v, x)}"
                    if pr[0].operands != [sp[0].result()]:
                        return "another value is unpacked"
                    if pr[0].results != [vt([50 + k]) for k in range(n)]:
                        return f"a list of {n} is unpacked into {show(pr[0].results)}"
                return None

            decide(ctx, "list", f"items {order} of a list of {n}", ps, pred)
    w = World()
    x = w.tensor_node("x", [7])
    ovl = w.overload("aten::split", [("p0", w.jit("TensorType"))], overload="x")
    s = w.node("s", "call_function", ovl, [x], val=Lst([w.fake(f"s.v{i}", [50 + i]) for i in range(2)]))
    g = item(w, "g", s, 2)
    ps = import_graph(ctx, w, "import_stateless_graph[item 2 of a list of 2]", [x, s, g, w.output(g)])
    decide(ctx, "list", "item 2 of a list of 2", ps, lambda p: None, must_raise=ERR)
    w = World()
    x, y = w.tensor_node("x", [7]), w.tensor_node("y", [7])
    o1, o2 = (w.overload(f"aten::s{i}", [("p0", w.jit("TensorType"))], overload="x") for i in (1, 2))
    a = w.node("a", "call_function", o1, [x], val=Lst([w.fake(f"a.v{i}", [50 + i]) for i in range(2)]))
    b = w.node("b", "call_function", o2, [y], val=Lst([w.fake(f"b.v{i}", [60 + i]) for i in range(2)]))
    gs = [item(w, "b1", b, 1), item(w, "a0", a, 0), item(w, "b0", b, 0), item(w, "a1", a, 1)]
    ps = import_graph(ctx, w, "import_stateless_graph[two lists]", [x, y, a, b] + gs + [w.output(*gs)])

    def two(p):
        v = View(p)
        got = []
        for r in v.returned() or []:
            pr = v.producer(r)
            got.append((origin(v, pr[0].operands[0]), pr[1]) if pr and pr[0].operands else None)
        want = [("s2.x", 1), ("s1.x", 0), ("s2.x", 0), ("s1.x", 1)]
        return None if got == want else f"items are taken from {got}, expected {want}"

    decide(ctx, "list", "two lists", ps, two)


def boundary(ctx):
    """Placeholders and outputs, in order, wherever they stand in the graph."""
    for n in (1, 2, 3):
        for mixed in (False, True):
            w = World()
            xs = [w.tensor_node(f"x{i}", [10 + i]) for i in range(n)]
            us = [use(w, f"u{i}", xs[i]) for i in range(n)]
            nodes = [y for pair in zip(xs, us) for y in pair] if mixed else xs + us
            outs = us[::-1] + xs + [us[0]]
            ps = import_graph(ctx, w, f"import_stateless_graph[{n} placeholders{', interleaved' if mixed else ''}]", nodes + [w.output(*outs)])
            want = [f"u{i}" for i in range(n)][::-1] + [f"arg{i}" for i in range(n)] + ["u0"]

            def pred(p):
                v = View(p)
                ft = v.ftype()
                if ft[0] != [vt([10 + i]) for i in range(n)]:
                    return f"arguments {show(ft[0])}"
                if ft[1] != [vt([5])] * n + [vt([10 + i]) for i in range(n)] + [vt([5])]:
                    return f"results {show(ft[1])}"
                for i in range(n):
                    o = emitted(v, f"torch.aten.u{i}")
                    if len(o) != 1 or origins(v, o[0].operands) != [f"arg{i}"]:
                        return f"placeholder {i} reaches its user as {o and origins(v, o[0].operands)}"
                if origins(v, v.returned()) != want:
                    return f"returns {origins(v, v.returned())}, expected {want}"
                return None

            decide(ctx, "boundary", f"{n} placeholders{', interleaved' if mixed else ''}", ps, pred)
    for cons, mk in (("a single node", lambda x, y: y), ("a tuple", lambda x, y: tup(y, x)), ("a list", lambda x, y: ilist(y, x, y)), ("an empty tuple", lambda x, y: tup())):
        w = World()
        x = w.tensor_node("x", [7])
        y = use(w, "u", x)
        r = mk(x, y)
        out = w.node("output", "output", K("output"), (r,))
        ps = import_graph(ctx, w, f"import_stateless_graph[output of {cons}]", [x, y, out])
        names = {"y": "u"}
        items = [r] if not isinstance(r, Lst) else r.items
        want = ["arg0" if i == x else "u" for i in items]
        wty = [vt([7]) if i == x else vt([5]) for i in items]

        def single(p):
            v = View(p)
            if origins(v, v.returned()) != want:
                return f"{cons} is returned as {origins(v, v.returned())}"
            return None if v.ftype()[1] == wty else f"{cons} has the result types {show(v.ftype()[1])}"

        decide(ctx, "boundary", f"output of {cons}", ps, single)
    for val, t in ((NONE, "!torch.none"), (K(3), "!torch.int"), (K(2.5), "!torch.float"), (TRUE, "!torch.bool"), (FALSE, "!torch.bool"), (K("s"), "!torch.str"), (K(0), "!torch.int")):
        w = World()
        x = w.tensor_node("x", [7])
        ps = import_graph(ctx, w, f"import_stateless_graph[output {show(val)}]", [x, w.output(x, val, x)])

        def const(p):
            v = View(p)
            if origins(v, v.returned()) != ["arg0", lit(val), "arg0"]:
                return f"{show(val)} is returned as {origins(v, v.returned())}"
            return None if v.ftype()[1] == [vt([7]), ty(t), vt([7])] else f"result types {show(v.ftype()[1])}"

        decide(ctx, "boundary", f"constant output {show(val)}", ps, const)


def chains(ctx):
    """Operations are emitted in order, each reading the values of its own arguments."""
    w = World()
    x, y = w.tensor_node("x", [7]), w.tensor_node("y", [7])
    a = use(w, "a", x, y)
    b = use(w, "b", a, x)
    c = use(w, "c", b, a)
    d = use(w, "d", a, a, c)
    ps = import_graph(ctx, w, "import_stateless_graph[chain]", [x, y, a, b, c, d, w.output(d, b)])
    want = [("torch.aten.a", ["arg0", "arg1"]), ("torch.aten.b", ["a", "arg0"]), ("torch.aten.c", ["b", "a"]), ("torch.aten.d", ["a", "a", "c"])]

    def pred(p):
        v = View(p)
        got = [(op_name(o), origins(v, o.operands)) for o in v.real()]
        return None if got == want and origins(v, v.returned()) == ["d", "b"] else f"emits {got}, expected {want}"

    decide(ctx, "chain", "four operations", ps, pred)
    # operations without users are kept: they may have effects
    w = World()
    x = w.tensor_node("x", [7])
    a = use(w, "a", x)
    b = multi(w, "b", 2, [x])
    z = w.node("z", "call_function", w.overload("aten::sink", [("p0", w.jit("TensorType"))], returns=0), [a], val=NONE)
    ps = import_graph(ctx, w, "import_stateless_graph[unused operations]", [x, a, b, z, w.output(x)])
    decide(ctx, "chain", "unused operations", ps,
           lambda p: None if [op_name(o) for o in View(p).real()] == ["torch.aten.a", "torch.aten.many.x", "torch.aten.sink"] else f"emits {View(p).real()}")


def reject(ctx):
    """What has no import is an error, not a hole in the function."""
    cases = {
        "call_module": lambda w, x: w.tensor_node("n", [5], op="call_module", target=K("sub"), args=[x]),
        "call_method": lambda w, x: w.tensor_node("n", [5], op="call_method", target=K("add"), args=[x]),
        "a Python function": lambda w, x: w.tensor_node("n", [5], op="call_function", target=w.obj("pyfn", "builtins.function"), args=[x]),
        "an unknown higher-order operator": lambda w, x: w.tensor_node("n", [5], op="call_function", target=hop(w, "no_such_hop"), args=[x]),
    }
    for cons, mk in cases.items():
        w = World()
        x = w.tensor_node("x", [7])
        n = mk(w, x)
        ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", [x, n, w.output(n)])
        decide(ctx, "reject", cons, ps, lambda p: None, must_raise=ERR)
    w = World()
    x = w.tensor_node("x", [7])
    y = w.tensor_node("y", [7])
    n = use(w, "n", y)
    ps = import_graph(ctx, w, "import_stateless_graph[operand that is not in the graph]", [x, n, w.output(n)])
    decide(ctx, "reject", "operand that is not in the graph", ps, lambda p: None, must_raise=ERR)
    w = World()
    x = w.tensor_node("x", [7])
    root = w.obj("root", "torch.fx.GraphModule")
    w.attrs[(root, "w")] = ABSENT
    ga = w.node("w", "get_attr", K("w"))
    n = use(w, "n", ga)
    g_nodes = [x, ga, n, w.output(n)]
    w.attrs[(ga, "graph")] = w.obj("gg", "torch.fx.Graph", owning_module=root)
    ps = import_graph(ctx, w, "import_stateless_graph[missing attribute]", g_nodes)
    decide(ctx, "reject", "attribute the module does not have", ps, lambda p: None, must_raise=ERR)


def hop(w, name):
    h = w.obj("hop:" + name, "torch._ops.HigherOrderOperator", namespace=K("higher_order"))
    return w.call(h, "name", K(name))


def run(ctx):
    ctx.rule("result", "item i of a multi-result call is its i-th result")
    ctx.rule("list", "item i of a call that returns a list is the i-th element of that list")
    ctx.rule("boundary", "arguments are the placeholders in order, results the outputs in order, with their types")
    ctx.rule("chain", "every call is emitted once, in order, reading the values of its own arguments")
    ctx.rule("reject", "a node that has no import, or reads what is not there, is an error")
    for g in (results, unpack, boundary, chains, reject):
        ctx.group(g)
    ctx.floor("result", 15)
    ctx.floor("boundary", 10)
