"""C12: higher-order operators keep their functions, operands and control flow."""

from sa.fxworld import *
from checks.c05 import emitted, op_name, lit, REJ
from checks.c08 import hop, item, use
from checks.c09 import sym


def child(w, name, shapes, call="c", out=([], "torch.bool"), outs=None, children=()):
    """A graph module whose only operation is named after it."""
    xs = [w.tensor_node(f"{name}.x{i}", s) for i, s in enumerate(shapes)]
    ovl = w.overload("aten::" + call, [(f"p{i}", w.jit("TensorType")) for i in range(len(xs))])
    m = w.obj("mod:" + name, "torch.fx.GraphModule")
    if outs is None:
        y = w.tensor_node(f"{name}.y", out[0], out[1], op="call_function", target=ovl, args=xs)
        rs, nodes = [y], xs + [y]
    else:
        ys = []
        for i, s in enumerate(outs):
            o = w.overload(f"aten::{call}{i}", [("p0", w.jit("TensorType"))])
            ys.append(w.tensor_node(f"{name}.y{i}", s, op="call_function", target=o, args=[xs[i]]))
        rs, nodes = ys, xs + ys
    w.call(m, "named_children", Lst([tup(K(n), c) for n, c in children]))
    for n, c in children:
        w.attrs[(m, n)] = c
    g = w.graph(nodes + [w.output(*rs, name_=name + ".out")], name + ".graph", owning=m)
    w.attrs[(m, "graph")] = g
    return m


def callee(o):
    c = call_of(o.attributes.get("callee"), "FlatSymbolRefAttr.get")
    return c[0][0].v if c and c[0] and isinstance(c[0][0], K) else show(o.attributes.get("callee"))


def holder(fs, name, call):
    """The function of this name, when it holds the operation `call`."""
    f = [x for x in fs if x.name == name]
    if len(f) != 1:
        return None
    return f[0] if any(op_name(o).startswith("torch.aten." + call) for o in f[0].ops) else None


def calls_between(v, o):
    return [x for x in v.ops if x.name in ("func.call",)]


def loop_error(v, main, carries, extra, cty, xty):
    """What is wrong with the loop, given the values its carries and extra inputs should be."""
    fs = functions(v)
    loops = [o for o in v.ops if o.name == "torch.prim.Loop"]
    if len(loops) != 1 or loops[0] not in main.ops:
        return f"{len(loops)} loops are emitted"
    lo = loops[0]
    if len(lo.operands) != 2 + len(carries) or lo.operands[2:] != carries:
        return f"the loop starts with {origins(v, lo.operands[2:])}, expected {origins(v, carries)}"
    if lo.results != cty:
        return f"the loop yields {show(lo.results)} for the carries {show(cty)}"
    if v.const(lo.operands[0]) != ("int", K(2**63 - 1)):
        return f"the loop stops after {v.const(lo.operands[0])} iterations"
    m = condition_error(v, fs, lo.operands[1], carries + extra)
    if m:
        return "the first condition " + m
    blk = [b for b in v.blocks if call_region(b) == (lo.idx, "region0")]
    if len(blk) != 1:
        return f"{len(blk)} loop bodies"
    b = obj(f"block{blk[0].idx}")
    tys = seq(blk[0].arg("arg_types", 1))
    if tys != [ty("!torch.int")] + cty:
        return f"the loop body takes {show(tys)}"
    ops = [o for o in v.ops if block_of(o.ctx) == b]
    conds = [o for o in ops if o.name == "torch.prim.Loop.condition"]
    if len(conds) != 1 or ops[-1] is not conds[0]:
        return "the loop body does not end in one loop condition"
    c = conds[0]
    nxt = c.operands[1:]
    body_in = [obj(b.args[0].v, f"arg{i + 1}") for i in range(len(carries))]
    if len(nxt) != len(carries):
        return f"{len(nxt)} values are carried on for {len(carries)} carries"
    for i, x in enumerate(nxt):
        p = v.producer(x)
        if p is None or p[0].name != "func.call" or p[1] != i:
            return f"carry {i} continues as {origin(v, x)}"
        if p[0] not in ops or holder(fs, callee(p[0]), "body") is None:
            return f"carry {i} continues as the result of {callee(p[0])}"
        if p[0].operands != body_in + extra:
            return f"the body function gets {origins(v, p[0].operands)}, expected the loop arguments and {origins(v, extra)}"
        if p[0].results != cty:
            return f"the body function returns {show(p[0].results)}"
    if len({v.producer(x)[0].idx for x in nxt}) > 1:
        return "the body function is called more than once"
    m = condition_error(v, fs, c.operands[0], nxt + extra, ops)
    return "the next condition " + m if m else None


def call_region(b):
    """(operation, region) of the parent of a block."""
    p = b.arg("parent", 0)
    if isinstance(p, T) and p.op == "obj" and len(p.args) == 2 and str(p.args[0].v).startswith("op"):
        return int(p.args[0].v[2:]), p.args[1].v
    return None


def condition_error(v, fs, x, want, ops=None):
    p = v.producer(x)
    if p is None or p[0].name != "torch.aten.Bool.Tensor" or p[0].results != [ty("!torch.bool")]:
        return f"is {origin(v, x)}"
    q = v.producer(p[0].operands[0])
    if q is None or q[0].name != "func.call" or holder(fs, callee(q[0]), "cond") is None:
        return f"is the result of {callee(q[0]) if q else origin(v, p[0].operands[0])}"
    if q[0].operands != want:
        return f"is computed of {origins(v, q[0].operands)}, expected {origins(v, want)}"
    if q[0].results != [vt([], "i1")]:
        return f"has the type {show(q[0].results)}"
    if ops is not None and (q[0] not in ops or p[0] not in ops):
        return "is computed outside the loop"
    return None


def while_loop(ctx, n, extra, packed, order, how, user="items"):
    w = World()
    P = Prog(w)
    ins = [w.tensor_node(f"a{i}", [3 + i]) for i in range(n + extra)]
    for a in ins:
        P.inp("USER_INPUT", a)
    cs = [[3 + i] for i in order]
    carries = [ins[i] for i in order]
    adds = ins[n:]
    shapes = cs + [[3 + i] for i in range(n, n + extra)]
    cond = child(w, "cond", shapes, "cond")
    body = child(w, "body", shapes, "body", outs=cs)
    cg, bg = w.node("cg", "get_attr", K("while_loop_cond_graph_0")), w.node("bg", "get_attr", K("while_loop_body_graph_0"))
    args = [cg, bg] + ([tup(*carries), tup(*adds)] if packed else carries + adds)
    k = len(carries)
    # while_loop returns a tuple, also of one
    lo = w.node("lo", "call_function", hop(w, "while_loop"), args, val=tup(*[w.fake(f"v{i}", s) for i, s in enumerate(cs)]))
    gs = [item(w, f"g{i}", lo, i, cs[i]) for i in reversed(range(k))]
    last = w.tensor_node("u", [5], op="call_function", target=w.overload("aten::after", [("p0", w.jit("TensorType"))]), args=[gs[0]])
    P.nodes += [cg, bg, lo] + gs + [last]
    outs = gs + [last]
    for g in outs:
        P.out("USER_OUTPUT", g)
    P.nodes.append(w.output(*outs))
    kids = [("while_loop_cond_graph_0", cond), ("while_loop_body_graph_0", body)]
    cons = f"{k} carries {order}, {extra} additional{', packed' if packed else ''}, {how}"
    ps = run_program(ctx, w, cons, P, kids, how)

    def pred(p):
        v = View(p)
        fs = functions(v)
        main = [f for f in fs if f.name == "main"]
        if len(main) != 1:
            return f"functions {[f.name for f in fs]}"
        main = main[0]
        cty = [vt(s) for s in cs]
        m = loop_error(v, main, [main.arg(i) for i in order], [main.arg(n + i) for i in range(extra)], cty, None)
        if m:
            return m
        lo_ = [o for o in main.ops if o.name == "torch.prim.Loop"][0]
        want = [lo_.result(i) for i in reversed(range(k))]
        if main.returned is None or main.returned[:-1] != want:
            return f"the items are returned as {origins(v, main.returned)}"
        u = [o for o in main.ops if o.name == "torch.aten.after"]
        return None if len(u) == 1 and u[0].operands == [want[0]] else "the user of an item reads something else"

    decide(ctx, "loop", cons, ps, pred)


def run_program(ctx, w, cons, P, kids, how):
    if how == "import_program":
        return import_program(ctx, w, f"import_program[{cons}]", P.build(children=kids), max_depth=60)
    prog = P.build(children=kids)
    gm = w.attrs[(prog, "graph_module")]
    w.attrs[(gm, "graph")] = w.attrs[(prog, "graph")]
    p = ctx.project
    p.load(M)
    if how == "import_frozen_program":
        return import_program(ctx, w, f"import_frozen_program[{cons}]", prog, "import_frozen_program", max_depth=60)
    return ctx.explore(f"import_graph_module[{cons}]", lambda it: method(it, importer(it, p), "import_graph_module", [gm]), **w.cfg(max_depth=60))


def loops(ctx):
    for how in ("import_program", "import_frozen_program", "import_graph_module"):
        for packed in (True, False):
            for n, order in ((1, [0]), (2, [0, 1]), (2, [1, 0]), (3, [2, 0, 1]), (2, [0, 0])):
                for extra in (0, 1, 2):
                    if extra == 2 and n != 2:
                        continue
                    while_loop(ctx, n, extra, packed, order, how)
    ctx.floor("loop", 30)


def two_loops(ctx):
    """Two loops, each with its own functions; the second continues the first."""
    w = World()
    P = Prog(w)
    a = w.tensor_node("a", [3])
    P.inp("USER_INPUT", a)
    mods = {x: child(w, x, [[3]], x, out=([], "torch.bool")) for x in ("condA", "condB")}
    mods.update({x: child(w, x, [[3]], x, outs=[[3]]) for x in ("bodyA", "bodyB")})
    kids, prev, los = [], a, []
    for j, x in enumerate("AB"):
        cg, bg = w.node(f"cg{x}", "get_attr", K(f"cond_graph_{j}")), w.node(f"bg{x}", "get_attr", K(f"body_graph_{j}"))
        lo = w.node("lo" + x, "call_function", hop(w, "while_loop"), [cg, bg, tup(prev), tup()], val=tup(w.fake(f"v{x}", [3])))
        g = item(w, "g" + x, lo, 0, [3])
        P.nodes += [cg, bg, lo, g]
        kids += [(f"cond_graph_{j}", mods["cond" + x]), (f"body_graph_{j}", mods["body" + x])]
        prev = g
    P.out("USER_OUTPUT", prev)
    P.nodes.append(w.output(prev))
    for rev in (0, 1):
        ps = run_program(ctx, w, f"two loops {rev}", P, kids[::-1] if rev else kids, "import_program")

        def pred(p):
            v = View(p)
            fs = functions(v)
            main = [f for f in fs if f.name == "main"][0]
            lo = [o for o in main.ops if o.name == "torch.prim.Loop"]
            if len(lo) != 2 or lo[1].operands[2:] != [lo[0].result()] or main.returned != [lo[1].result()]:
                return "the loops are not chained"
            for j, x in enumerate("AB"):
                b = [b for b in v.blocks if call_region(b) == (lo[j].idx, "region0")]
                ops = [o for o in v.ops if block_of(o.ctx) == obj(f"block{b[0].idx}")]
                got = [callee(o) for o in ops if o.name == "func.call"]
                if len(got) != 2 or holder(fs, got[0], "body" + x) is None or holder(fs, got[1], "cond" + x) is None:
                    return f"loop {j} calls {got}, which hold other graphs"
            return None

        decide(ctx, "loop", f"two loops, children {'reversed' if rev else 'in order'}", ps, pred)


def functionalized(ctx):
    """auto_functionalized calls: arguments by name, results after a possible None."""
    for returns in (0, 1, 2):
        for muts in (1, 2):
            for order in ((0, 1, 2), (2, 0, 1)):
                w = World()
                xs = [w.tensor_node(f"x{i}", [3 + i]) for i in range(3)]
                names = ["p0", "p1", "p2"]
                ovl = w.overload("mylib::inplace", [(n, w.jit("TensorType")) for n in names] + [("k", w.jit("IntType"))], returns=returns)
                val = ([NONE] if returns == 0 else [w.fake(f"r{i}", [20 + i]) for i in range(returns)]) + [w.fake(f"m{i}", [30 + i]) for i in range(muts)]
                kw = [(names[i], xs[i]) for i in order] + [("k", K(4))]
                kw = kw[::-1] if order[0] else kw
                n = w.node("n", "call_function", hop(w, "auto_functionalized"), [ovl], kw, val=tup(*val))
                first = 1 if returns == 0 else 0
                idx = list(range(first, len(val)))
                gs = [item(w, f"g{i}", n, i, [9]) for i in idx[::-1]]
                cons = f"auto_functionalized of {returns} results and {muts} mutated arguments, keywords {order}"
                ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", xs + [n] + gs + [w.output(*gs)])

                def pred(p):
                    v = View(p)
                    o = v.real()
                    if len(o) != 1 or not op_name(o[0]).endswith("mylib.inplace"):
                        return f"emits {o}"
                    if origins(v, o[0].operands) != ["arg0", "arg1", "arg2", "int:4"]:
                        return f"its operands are {origins(v, o[0].operands)}"
                    want = ([vt([20 + i]) for i in range(returns)]) + [vt([30 + i]) for i in range(muts)]
                    if o[0].results != want:
                        return f"its results are {show(o[0].results)}, expected {show(want)}"
                    want = [o[0].result(i - first) for i in idx[::-1]]
                    return None if v.returned() == want else f"items {idx[::-1]} are {origins(v, v.returned())}"

                decide(ctx, "functionalized", cons, ps, pred)
    w = World()
    x = w.tensor_node("x", [3])
    ovl = w.overload("mylib::inplace", [("p0", w.jit("TensorType")), ("p1", w.jit("TensorType"))], returns=0)
    n = w.node("n", "call_function", hop(w, "auto_functionalized"), [ovl], [("p0", x)], val=tup(NONE, w.fake("m", [3])))
    g = item(w, "g", n, 1, [3])
    ps = import_graph(ctx, w, "import_stateless_graph[auto_functionalized without an argument]", [x, n, g, w.output(g)])
    decide(ctx, "functionalized", "argument that is not passed", ps, lambda p: None, must_raise=REJ)


def attention(ctx):
    """flex_attention: operands, scale, flags, score and mask functions."""
    SC = {"none": (NONE, "none"), "float": (K(0.5), "float:0.5"), "int": (K(2), "float:2.0"), "zero": (K(0.0), "float:0.0")}
    OPT = {
        "no options": (Dct([]), False, False), "lse": (Dct([(K("OUTPUT_LOGSUMEXP"), TRUE)]), True, False), "max": (Dct([(K("OUTPUT_MAX"), TRUE)]), False, True),
        "both": (Dct([(K("OUTPUT_MAX"), K(1)), (K("OUTPUT_LOGSUMEXP"), K(1))]), True, True), "off": (Dct([(K("OUTPUT_MAX"), FALSE), (K("OUTPUT_LOGSUMEXP"), FALSE), (K("BLOCK"), K(64))]), False, False),
    }
    for scn, (sc, swant) in SC.items():
        for on, (opt, lse, mx) in OPT.items():
            attend(ctx, sc, swant, opt, lse, mx, True, True, 2, f"scale {scn}, {on}")
    for score in (True, False, None):
        for mask in (True, False, None):
            for results in (1, 2, 3):
                attend(ctx, NONE, "none", Dct([]), False, False, score, mask, results, f"score function {score}, mask function {mask}, {results} results")
    for where, others in (("score", (1, 0)), ("mask", (0, 1)), ("both", (2, 1))):
        w = World()
        P = Prog(w)
        qkv = [w.tensor_node(x, [3 + i]) for i, x in enumerate("qkv")]
        held = [w.tensor_node(f"h{i}", [5 + i]) for i in range(sum(others))]
        for x in qkv + held:
            P.inp("USER_INPUT", x)
        kids = [(k, child(w, k, [[1]], k)) for k in ("mask", "score")]
        mm, sm = w.node("mm", "get_attr", K("mask")), w.node("sm", "get_attr", K("score"))
        bm = tup(K(16), K(128), mm)
        n = w.node("n", "call_function", hop(w, "flex_attention"), qkv + [sm, bm, NONE, Dct([]), tup(*held[:others[0]]), tup(*held[others[0]:])], val=w.fake("v0", [11]))
        P.nodes += [mm, sm, n]
        P.out("USER_OUTPUT", n)
        P.nodes.append(w.output(n))
        ps = run_program(ctx, w, f"flex_attention, values captured by the {where} function", P, kids, "import_program")

        def pred(p, held=held):
            v = View(p)
            main = [f for f in functions(v) if f.name == "main"][0]
            o = [x for x in main.ops if x.name == "torch.hop_flex_attention"]
            got = origins(v, o[0].operands) if len(o) == 1 else []
            lost = [h for j, h in enumerate(held) if main.arg(3 + j) not in o[0].operands] if o else held
            return f"{len(lost)} captured values are dropped; the operands are {got}" if lost else None

        decide(ctx, "attention", f"flex_attention, values captured by the {where} function", ps, pred, may_raise=REJ)
    ctx.floor("attention", 33)


def attend(ctx, sc, swant, opt, lse, mx, score, mask, results, cons):
    w = World()
    P = Prog(w)
    qkv = [w.tensor_node(x, [3 + i]) for i, x in enumerate("qkv")]
    for x in qkv:
        P.inp("USER_INPUT", x)
    kids, nodes = [], []
    sm, mm = NONE, NONE
    # decoys first: the function must be found by module, not by position
    kids.append(("sdpa_other", child(w, "decoy", [[1]], "decoy")))
    if mask:
        kids.append(("sdpa_mask0", child(w, "mask", [[1]], "mask")))
        mm = w.node("mm", "get_attr", K("sdpa_mask0"))
        nodes.append(mm)
    if score:
        kids.append(("sdpa_score0", child(w, "score", [[1]], "score")))
        sm = w.node("sm", "get_attr", K("sdpa_score0"))
        nodes.append(sm)
    runtime = [w.tensor_node(f"bm{i}", [1]) for i in range(2)]
    for x in runtime:
        P.inp("USER_INPUT", x)
    bm = NONE if mask is None else tup(K(16), *runtime, K(128), mm)
    val = tup(*[w.fake(f"v{i}", [11 + i]) for i in range(results)]) if results > 1 else w.fake("v0", [11])
    n = w.node("n", "call_function", hop(w, "flex_attention"), qkv + [sm, bm, sc, opt, tup(), tup()], val=val)
    gs = [item(w, f"g{i}", n, i, [11 + i]) for i in reversed(range(results))] if results > 1 else [n]
    P.nodes += nodes + [n] + (gs if results > 1 else [])
    for g in gs:
        P.out("USER_OUTPUT", g)
    P.nodes.append(w.output(*gs))
    ps = run_program(ctx, w, "flex_attention, " + cons, P, kids, "import_program")

    def pred(p):
        v = View(p)
        fs = functions(v)
        main = [f for f in fs if f.name == "main"][0]
        o = [x for x in main.ops if x.name == "torch.hop_flex_attention"]
        if len(o) != 1:
            return f"{len(o)} attention operations"
        o = o[0]
        got = origins(v, o.operands)
        c = [v.const(x) for x in o.operands[4:]]
        if got[:4] != ["arg0", "arg1", "arg2", swant]:
            return f"query, key, value and scale are {got[:4]}"
        flags = [bool(x[1].v) if x and x[0] == "bool" and isinstance(x[1], K) else x for x in c]
        if flags != [lse, mx]:
            return f"the flags are {flags}, expected {[lse, mx]}"
        if o.results != [vt([11 + i]) for i in range(results)]:
            return f"the results are {show(o.results)}"
        for attr, on, call in (("score_mod_fn", score, "score"), ("mask_mod_fn", mask, "mask")):
            a = o.attributes.get(attr)
            if not on:
                if a is not None and a != NONE:
                    return f"{attr} is {show(a)}"
                continue
            r = call_of(a, "FlatSymbolRefAttr.get")
            if r is None or not isinstance(r[0][0], K) or holder(fs, r[0][0].v, call) is None:
                return f"{attr} refers to {show(a)}"
        want = [o.result(i) for i in reversed(range(results))]
        return None if main.returned == want else f"the items are {origins(v, main.returned)}"

    decide(ctx, "attention", cons, ps, pred)


def reject(ctx):
    """Loops whose functions are not graph modules of the owner."""
    for cons, kids, node in (("function that is not a child", [], "get_attr"), ("function that is a call", [("c0", 1), ("b0", 1)], "call_function")):
        w = World()
        P = Prog(w)
        a = w.tensor_node("a", [3])
        P.inp("USER_INPUT", a)
        if node == "get_attr":
            cg, bg = w.node("cg", "get_attr", K("c0")), w.node("bg", "get_attr", K("b0"))
        else:
            cg, bg = a, a
        lo = w.node("lo", "call_function", hop(w, "while_loop"), [cg, bg, tup(a), tup()], val=tup(w.fake("v", [3])))
        g = item(w, "g", lo, 0, [3])
        P.nodes += [lo, g]
        P.out("USER_OUTPUT", g)
        P.nodes.append(w.output(g))
        prog = P.build(children=[])
        root = w.attrs[(prog, "graph_module")]
        w.attrs[(root, "c0")] = w.attrs[(root, "b0")] = ABSENT
        ps = import_program(ctx, w, f"import_program[{cons}]", prog)
        decide(ctx, "reject", cons, ps, lambda p: None, must_raise=REJ + ("AttributeError",))


def run(ctx):
    ctx.rule("loop", "a while loop tests its condition before every iteration, on the carried values and the additional inputs, and yields the last carries")
    ctx.rule("functionalized", "a functionalized call passes every argument by name and returns results and mutated arguments in order")
    ctx.rule("attention", "an attention call keeps query, key, value, scale, flags, and its score and mask functions")
    ctx.rule("reject", "a loop without its functions is an error")
    for g in (loops, two_loops, functionalized, attention, reject):
        ctx.group(g)
