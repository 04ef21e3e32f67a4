"""C04: mutations of inputs and buffers are written back."""

from sa.fxworld import *

RJ = ("NotImplementedError", "AssertionError", "RuntimeError", "ValueError")


def in_order(v, op, val):
    """op comes after the operation that produced val."""
    p = v.producer(val)
    return p is None or p[0].idx < op.idx


def input_mutations(ctx):
    # (number of user inputs, [(producer, mutated input)], outputs)
    cases = [
        (1, [("f", 0)], ["f"]),
        (2, [("f", 1)], ["f"]),
        (2, [("f", 0), ("g", 1)], ["f"]),
        (2, [("g", 0), ("f", 1)], []),
        (3, [("g", 2), ("f", 0)], ["g", "i1"]),
        (2, [("i1", 0)], ["f"]),  # the new contents are another input
        (2, [("i0", 1)], ["f"]),
        (2, [("k", 0)], ["f"]),  # ... a constant tensor
        (2, [("pp", 0)], ["f"]),  # ... a parameter
        (1, [("two.1", 0)], ["f"]),  # ... one of several results
    ]
    for nin, muts, outs in cases:
        w = World()
        P = Prog(w)
        xs = []
        for i in range(nin):
            x = w.tensor_node(f"i{i}", [10 + i], args=(K(f"i{i}"),))
            P.inp("USER_INPUT", x)
            xs.append(x)
        nodes = {f"i{i}": x for i, x in enumerate(xs)}
        for kind, n, store in (("CONSTANT_TENSOR", "k", P.constants), ("PARAMETER", "pp", P.state)):
            if any(p == n for p, _ in muts):
                nodes[n] = w.tensor_node(n, [10], args=(K(n),))
                P.inp(kind, nodes[n], target="t." + n)
                store.append(("t." + n, P.tensor("T_" + n, [10])))
        nodes["f"] = P.call("f", xs, [50])
        nodes["g"] = P.call("g", [nodes["f"]], [51])
        if any(p.startswith("two") for p, _ in muts):
            ovl = w.overload("aten::two", [("self", w.jit("TensorType"))], returns=2)
            two = w.node("two", "call_function", ovl, (xs[0],), val=tup(w.fake("two.v0", [60]), w.fake("two.v1", [10])))
            P.nodes.append(two)
            gi = w.tensor_node("two.1", [10], op="call_function", target=Q("operator.getitem"), args=(two, K(1)))
            P.nodes.append(gi)
            nodes["two.1"] = gi
        for p, i in muts:
            P.out("USER_INPUT_MUTATION", nodes[p], target=f"i{i}")
            P.mutations.append((p, f"i{i}"))
        for o in outs:
            P.out("USER_OUTPUT", nodes[o])
        mutated = {i for _, i in muts}
        name = f"{nin} inputs, " + ", ".join(f"input {i} := {p}" for p, i in muts)
        ps = import_program(ctx, w, f"import_program[{name}]", P.build())

        def src(n):
            if n.startswith("i"):
                return f"copy:{n[1:]}" if int(n[1:]) in mutated else f"arg{n[1:]}"
            return {"k": "tensor:T_k", "pp": "tensor:T_pp", "two.1": "two#1"}.get(n, n)

        def org(v, x):
            o = origin(v, x)
            if o == "copy.to_vtensor":
                return "copy:" + origin(v, v.producer(x)[0].operands[0])[3:]
            return o

        def pred(p):
            v = View(p)
            ft = v.ftype()
            for i in range(nin):
                want = vt([10 + i], mutable=i in mutated)
                if i >= len(ft[0]) or ft[0][i] != want:
                    return f"argument {i} has type {show(ft[0][i]) if i < len(ft[0]) else None}, expected {show(want)}"
            copies = v.named("torch.copy.to_vtensor")
            got = sorted(origin(v, c.operands[0]) for c in copies)
            if got != sorted(f"arg{i}" for i in mutated):
                return f"to_vtensor copies of {got}, mutated inputs are {sorted(mutated)}"
            for c in copies:
                i = int(origin(v, c.operands[0])[3:])
                if c.results != [vt([10 + i])]:
                    return f"the copy of input {i} has type {show(c.results)}"
            f = v.named("torch.aten.f")
            if len(f) != 1 or [org(v, x) for x in f[0].operands] != [src(f"i{i}") for i in range(nin)]:
                return f"a user of the inputs reads {[org(v, x) for o in f for x in o.operands]}"
            ow = v.named("torch.overwrite.tensor.contents")
            got = sorted((org(v, o.operands[0]), origin(v, o.operands[1])) for o in ow)
            want = sorted((src(p), f"arg{i}") for p, i in muts)
            if got != want:
                return f"written back (value, input): {got}, the program mutates {want}"
            for o in ow:
                if not in_order(v, o, o.operands[0]):
                    return f"{o} precedes the operation that computes its value"
                if o.ctx and f[0].ctx and [c for c in o.ctx if call_of(c, "InsertionPoint")][-1:] != [c for c in f[0].ctx if call_of(c, "InsertionPoint")][-1:]:
                    return f"{o} is not inserted in the function body"
            ret = v.returned()
            if ret is None or [org(v, x) for x in ret] != [src(o) for o in outs]:
                return f"returns {ret and [org(v, x) for x in ret]}"
            if v.returns[0].idx < max([o.idx for o in ow], default=0):
                return "a mutation is written back after the return"
            return None

        decide(ctx, "input", name, ps, pred)


def buffer_mutations(ctx):
    cases = [
        (["b0"], [("f", "b0")]),
        (["b0", "b1"], [("f", "b0"), ("g", "b1")]),
        (["b0", "b1"], [("g", "b0")]),
        (["b0", "b1"], [("f", "b0"), ("f", "b1")]),  # one producer, two buffers
        (["b0", "b1"], [("x", "b1")]),  # a user input is stored
        (["b0", "b1"], [("b1", "b0")]),  # another buffer is stored
        (["n0"], [("f", "n0")]),
        # names that agree in their first or last part, or are parts of each other
        (["b0.c", "b1.c"], [("f", "b0.c"), ("g", "b1.c")]),
        (["b0.c", "b1.c"], [("g", "b1.c")]),
        (["b.c0", "b.c1"], [("g", "b.c0"), ("f", "b.c1")]),
        (["b", "b_1", "b.b"], [("f", "b"), ("g", "b.b")]),
        (["b.c", "bc", "b_c"], [("g", "bc"), ("f", "b.c")]),
        (["n0.c", "b0.c"], [("f", "b0.c"), ("g", "n0.c")]),
    ]
    for bufs, muts in cases:
        w = World()
        P = Prog(w)
        x = w.tensor_node("x", [5], args=(K("x"),))
        P.inp("USER_INPUT", x)
        nodes = {"x": x}
        tens, specs = {}, {}
        for i, b in enumerate(bufs):
            nodes[b] = w.tensor_node("b_" + b.replace(".", "_") + f"_{i}", [10 + i], args=(K(b),))
            tens[b] = P.tensor("T_" + b, [10 + i])
            specs[b] = P.inp("BUFFER", nodes[b], target="t." + b, persistent=b[0] == "b")
            (P.state if b[0] == "b" else P.constants).append(("t." + b, tens[b]))
        nodes["f"] = P.call("f", [x] + [nodes[b] for b in bufs], [50])
        nodes["g"] = P.call("g", [nodes["f"]], [51])
        for p, b in muts:
            P.out("BUFFER_MUTATION", nodes[p], target="t." + b)
        P.out("USER_OUTPUT", nodes["g"])
        prog = P.build()
        hooks = w.obj("hooks", "torch_mlir.extras.fx_importer.FxImporterHooks")
        w.call(hooks, "prepare_module", NONE)
        # values by which the hook makes the buffer available, or not at all
        for how in ("literal", "hook"):
            if how == "hook":
                def resolve(it, recv, args, kw, node):
                    info = it.resolve(args[2] if len(args) > 2 else kw["info"])
                    val = freeze(args[1] if len(args) > 1 else kw["value"])
                    return T("obj", K("resolved"), *[y for y in [val] if isinstance(y, T)][:1])

                w.models["resolve_input"] = resolve
                for b in bufs:
                    w.types[T("obj", K("resolved"), tens[b])] = IR + "Value"
            else:
                w.models["resolve_input"] = lambda it, recv, args, kw, node: NONE
            w.models["resolve_literal"] = lambda it, recv, args, kw, node: NONE
            w.models["store_produced_value"] = lambda it, recv, args, kw, node: NONE
            name = f"{'+'.join(bufs)} ({how}), " + ", ".join(f"{b} := {p}" for p, b in muts)
            ps = import_program(ctx, w, f"import_program[{name}]", prog, hooks=hooks)

            def org(v, y):
                if isinstance(y, T) and y.op == "obj" and y.args[0] == K("resolved"):
                    return "tensor:" + show(y.args[1])
                return origin(v, y)

            def src(n):
                return {"x": "arg0"}.get(n) or (f"tensor:T_{n}" if n in bufs else n)

            def pred(p):
                v = View(p)
                st = [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] == "store_produced_value"]
                got = []
                for e in st:
                    py, val, info = e.arg("py_value", 1), e.arg("produced_ir_value", 2), e.live[1][3] if len(e.live[1]) > 3 else e.live[2].get("info")
                    spec = info.attrs.get("input_spec") if isinstance(info, Obj) else None
                    b = [n for n in bufs if tens[n] == py]
                    if not b or freeze(spec) != specs[b[0]]:
                        return f"the store gets the buffer {show(py)} with the input {show(freeze(spec))}"
                    if callable(val) or isinstance(val, (Fn, Bound)):
                        return "the store gets no IR value"
                    got.append((org(v, val), b[0]))
                    pr = v.producer(val)
                    if pr and pr[0].idx > e.idx:
                        return "a store precedes the computation of its value"
                want = sorted((src(p_), b) for p_, b in muts)
                if sorted(got) != want:
                    return f"stored (value, buffer): {sorted(got)}, the program mutates {want}"
                if v.returns and st and v.returns[0].idx < st[-1].idx:
                    return "a mutation is stored after the return"
                return None

            decide(ctx, "buffer", name, ps, pred)


def default_hook(ctx):
    """Without a store hook the import of a mutated buffer must fail."""
    w = World()
    P = Prog(w)
    x = w.tensor_node("x", [5], args=(K("x"),))
    b = w.tensor_node("b", [5], args=(K("b"),))
    P.inp("USER_INPUT", x)
    P.inp("BUFFER", b, target="t.b")
    P.state.append(("t.b", P.tensor("T_b", [5])))
    f = P.call("f", [x, b], [5])
    P.out("BUFFER_MUTATION", f, target="t.b")
    P.out("USER_OUTPUT", f)
    ps = import_program(ctx, w, "import_program[default hooks]", P.build())
    decide(ctx, "nohook", "mutated buffer with default hooks", ps, lambda p: None, must_raise=RJ)


def run(ctx):
    ctx.rule("input", "every mutated input is a mutable tensor, read through a copy, and overwritten once with the value of its own producer, after that is computed")
    ctx.rule("buffer", "every mutated buffer is stored once, with the value of its own producer, after that is computed")
    ctx.rule("nohook", "a mutated buffer is never dropped silently")
    ctx.group(input_mutations)
    ctx.group(buffer_mutations)
    ctx.group(default_hook)
    ctx.floor("input", 8)
    ctx.floor("buffer", 10)
