"""C05: operands, results and names of imported operator calls."""

import itertools

from sa.fxworld import *
from sa.torchfacts import *

REJ = ("TypeError", "NotImplementedError", "AssertionError", "RuntimeError", "ValueError", "KeyError", "IndexError")


def op_name(o):
    if o.name == "torch.operator":
        c = call_of(o.attributes.get("name"), "StringAttr.get")
        return "operator:" + (c[0][0].v if c and c[0] and isinstance(c[0][0], K) else "?")
    return o.name


def emitted(v, name):
    return [o for o in v.ops if op_name(o) == name]


def tens(w):
    def model(it, recv, args, kw, node):
        x = it.resolve(args[0]) if args else NONE
        t = T("obj", K("scalar_tensor"), x)
        kind = {bool: "torch.bool", int: "torch.int64", float: "torch.float32"}.get(type(x.v)) if isinstance(x, K) else None
        if kind is None:
            return None
        it.types[t] = "torch.Tensor"
        d = args[1] if len(args) > 1 else kw.get("dtype")
        it.attrs[(t, "dtype")] = d if d is not None and d != NONE else Q(kind)
        it.attrs[(t, "shape")] = tup()
        it.attrs[(t, "size()")] = tup()
        return t

    w.models["torch.tensor"] = model


def lit(v):
    """origin() text of a literal constant."""
    if v == NONE:
        return "none"
    return f"{type(v.v).__name__}:{show(v)}"


VALUES = {"IntType": [K(0), K(3)], "FloatType": [K(0.0), K(2.5)], "BoolType": [FALSE, TRUE], "StringType": [K(""), K("s")]}


def call(ctx, w, params, args, kwargs, names, rule, construct, want, ret=1, result=None, overload="x", may_raise=(), name="foo", q=None, types=None, nodes=()):
    """Import one call and compare the operands of the emitted operation."""
    ovl = w.overload("aten::" + name, params, returns=ret, overload=overload, q=q)
    n = w.tensor_node("n", [5], op="call_function", target=ovl, args=args, kwargs=kwargs)
    ps = import_graph(ctx, w, f"import_stateless_graph[{construct}]", list(nodes) + [n, w.output(n)])
    full = "torch.aten." + name + ("." + overload if overload else "")
    full = full if w.registered else "operator:" + full

    def pred(p):
        v = View(p)
        ops = emitted(v, full)
        if len(ops) != 1:
            return f"{full} is emitted {len(ops)} times: {v.ops}"
        got = origins(v, ops[0].operands)
        if got != want:
            return f"{full} gets {got}, the call passes {want}"
        if ops[0].results != [vt([5])]:
            return f"{full} has the results {show(ops[0].results)}"
        if origins(v, v.returned()) != ["foo.x" if full.startswith("torch") else full[9:].removeprefix("torch.aten.")]:
            return f"the result of the call is not what is returned: {origins(v, v.returned())}"
        return None

    decide(ctx, rule, construct, ps, pred, may_raise=may_raise)


def binding(ctx):
    """Positional, keyword and defaulted arguments, for every split of 4 parameters."""
    kinds = ["TensorType", "IntType", "FloatType", "BoolType"]
    for pos in range(5):
        rest = list(range(pos, 4))
        for k in range(len(rest) + 1):
            for named in itertools.combinations(rest, k):
                for falsy in (0, 1):
                    w = World()
                    nodes, vals, dfl = [], [], []
                    for i, kd in enumerate(kinds):
                        if kd == "TensorType":
                            x = w.tensor_node(f"x{i}", [7])
                            nodes.append(x)
                            vals.append((x, "arg0"))
                            dfl.append((NONE, "none"))
                        else:
                            a, b = VALUES[kd][falsy], VALUES[kd][1 - falsy]
                            vals.append((a, lit(a)))
                            dfl.append((b, lit(b)))
                    params = [(f"p{i}", w.jit(kd), dfl[i][0]) for i, kd in enumerate(kinds)]
                    # keywords are given in the opposite order of the parameters
                    kwargs = [(f"p{i}", vals[i][0]) for i in reversed(named)]
                    want = [vals[i][1] if i < pos or i in named else dfl[i][1] for i in range(4)]
                    c = f"{pos} positional, keywords {list(named)}" + (", falsy values" if not falsy else "")
                    if 0 not in named and pos == 0:
                        if not falsy:
                            continue
                        want[0] = "none"
                    call(ctx, w, params, [vals[i][0] for i in range(pos)], kwargs, None, "binding", c, want, nodes=nodes)
    # an explicit None is not a missing argument
    for how in ("positional", "keyword"):
        w = World()
        x = w.tensor_node("x", [7])
        params = [("self", w.jit("TensorType")), ("a", w.jit("OptionalType", w.jit("IntType")), K(7)), ("b", w.jit("OptionalType", w.jit("TensorType")), NONE)]
        call(ctx, w, params, [x, NONE] if how == "positional" else [x], [] if how == "positional" else [("a", NONE)], None,
             "binding", f"explicit None, {how}", ["arg0", "none", "none"], nodes=[x])
    # one node as several operands; operands in an order unlike their production
    w = World()
    xs = [w.tensor_node(f"x{i}", [7]) for i in range(3)]
    params = [(f"p{i}", w.jit("TensorType")) for i in range(4)]
    call(ctx, w, params, [xs[2], xs[0], xs[2], xs[1]], [], None, "binding", "shared operands", ["arg2", "arg0", "arg2", "arg1"], nodes=xs)


def naming(ctx):
    for registered in (True, False):
        for name, ov in (("foo", "x"),):
            w = World()
            w.registered = registered
            x = w.tensor_node("x", [7])
            call(ctx, w, [("self", w.jit("TensorType"))], [x], [], None, "name", f"{'registered' if registered else 'unregistered'} {name}.{ov}", ["arg0"], nodes=[x])
    for ns, name, ov, full in (("aten", "bar", "", "torch.aten.bar"), ("quantized_decomposed", "q", "tensor", "torch.quantized_decomposed.q.tensor"),
                               ("prims", "baz", "", "torch.prims.baz"), ("my.ns", "op", "out", "torch.my.ns.op.out")):
        for registered in (True, False):
            w = World()
            w.registered = registered
            x = w.tensor_node("x", [7])
            ovl = w.overload(f"{ns}::{name}", [("self", w.jit("TensorType"))], overload=ov)
            n = w.tensor_node("n", [5], op="call_function", target=ovl, args=[x])
            ps = import_graph(ctx, w, f"import_stateless_graph[{full}]", [x, n, w.output(n)])
            want = full if registered else "operator:" + full
            decide(ctx, "name", f"{ns}::{name}.{ov} {'registered' if registered else 'unregistered'}", ps,
                   lambda p: None if len(emitted(View(p), want)) == 1 else f"{want} is not emitted: {View(p).ops}")
    for ret in (0, 1, 2, 3):
        w = World()
        x = w.tensor_node("x", [7])
        ovl = w.overload("aten::many", [("self", w.jit("TensorType"))], returns=ret, overload="x")
        if ret == 1:
            n = w.tensor_node("n", [50], op="call_function", target=ovl, args=[x])
        else:
            n = w.node("n", "call_function", ovl, [x], val=tup(*[w.fake(f"v{i}", [50 + i]) for i in range(ret)]) if ret else NONE)
        ps = import_graph(ctx, w, f"import_stateless_graph[{ret} results]", [x, n, w.output(x)])

        def pred(p):
            ops = emitted(View(p), "torch.aten.many.x")
            if len(ops) != 1:
                return f"emitted {len(ops)} times"
            if ops[0].results != [vt([50 + i]) for i in range(ret)]:
                return f"results {show(ops[0].results)} for {ret} returns"
            return None

        decide(ctx, "name", f"{ret} results", ps, pred)


def promotion(ctx):
    """Scalars given for tensors and booleans given for numbers."""
    for val, elem in ((K(3), "si64"), (K(0), "si64"), (K(2.5), "f32"), (K(0.0), "f32"), (TRUE, "i1"), (FALSE, "i1")):
        for how in ("positional", "keyword"):
            w = World()
            tens(w)
            x = w.tensor_node("x", [7])
            params = [("self", w.jit("TensorType")), ("other", w.jit("TensorType"))]
            ovl = w.overload("aten::foo", params, overload="x")
            n = w.tensor_node("n", [5], op="call_function", target=ovl, args=[x, val] if how == "positional" else [x], kwargs=[] if how == "positional" else [("other", val)])
            ps = import_graph(ctx, w, f"import_stateless_graph[{show(val)} as tensor, {how}]", [x, n, w.output(n)])

            def pred(p):
                v = View(p)
                o = emitted(v, "torch.aten.foo.x")
                if len(o) != 1 or len(o[0].operands) != 2 or origin(v, o[0].operands[0]) != "arg0":
                    return f"{v.ops}"
                pr = v.producer(o[0].operands[1])
                if pr is None or pr[0].name != "torch.prim.NumToTensor.Scalar":
                    return f"the tensor operand is {origin(v, o[0].operands[1])}"
                if pr[0].results != [vt([], elem)]:
                    return f"{show(val)} becomes a tensor of type {show(pr[0].results)}"
                if origins(v, pr[0].operands) != [lit(val)]:
                    return f"the tensor holds {origins(v, pr[0].operands)}, not {show(val)}"
                return None

            decide(ctx, "promote", f"{show(val)} for a tensor, {how}", ps, pred)
    # (value, parameter kind) -> conversion of a boolean, or none
    conv = {"IntType": "aten.Int.bool", "NumberType": "aten.Int.bool", "FloatType": "aten.Float.bool", "BoolType": None}
    for kind, op in conv.items():
        for src in ("literal", "node", "default"):
            w = World()
            nodes = []
            if src == "node":
                b = w.node("b", "placeholder", val=w.obj("b.val", "torch.SymBool"))
                nodes = [b]
                val, want = b, "arg0"
            else:
                val, want = TRUE, "bool:True"
            params = [("p", w.jit(kind), TRUE if src == "default" else NONE)]
            ovl = w.overload("aten::foo", params, overload="x")
            n = w.tensor_node("n", [5], op="call_function", target=ovl, args=[] if src == "default" else [val])
            ps = import_graph(ctx, w, f"import_stateless_graph[bool {src} for {kind}]", nodes + [n, w.output(n)])

            def pred(p):
                v = View(p)
                o = emitted(v, "torch.aten.foo.x")
                if len(o) != 1 or len(o[0].operands) != 1:
                    return f"{v.ops}"
                x = o[0].operands[0]
                pr = v.producer(x)
                if op and src != "default":
                    if pr is None or pr[0].name != "torch." + op:
                        return f"a boolean reaches a {kind} parameter as {origin(v, x)}"
                    t = "!torch.float" if "Float" in op else "!torch.int"
                    if pr[0].results != [ty(t)]:
                        return f"{op} has the result type {show(pr[0].results)}"
                    x = pr[0].operands[0]
                if origin(v, x) != want:
                    return f"the operand is {origin(v, x)}, not {want}"
                return None

            decide(ctx, "promote", f"boolean {src} for {kind}", ps, pred)
    # other kinds stay what they are
    for kind, val in (("IntType", K(3)), ("FloatType", K(2.5)), ("NumberType", K(3)), ("NumberType", K(2.5)), ("StringType", K("s"))):
        w = World()
        call(ctx, w, [("p", w.jit(kind))], [val], [], None, "promote", f"{show(val)} for {kind}", [lit(val)])
    for kind, sym, t in (("IntType", "torch.SymInt", "int"), ("FloatType", "torch.SymFloat", "float"), ("NumberType", "torch.SymInt", "int")):
        w = World()
        s = w.node("s", "placeholder", val=w.obj("s.val", sym))
        call(ctx, w, [("p", w.jit(kind))], [s], [], None, "promote", f"{sym} value for {kind}", ["arg0"], nodes=[s])


SCALAR_OF = ["mul", "div", "add", "sub"]


def scalar_variant(ctx):
    """Tensor overloads called with a scalar are imported as the Scalar overload."""
    schemas = native_schemas()
    cases = [(f"aten.{o}.Tensor", f"aten.{o}.Scalar") for o in SCALAR_OF] + [("aten.floor_divide.default", "aten.floor_divide.Scalar")]
    for tq, sq in cases:
        for what in ("int", "float", "SymInt", "SymFloat", "int node", "tensor"):
            for extra in ((), ("alpha",)):
                params = schemas["aten::" + sq[5:]][0]
                if extra and "alpha" not in [p for p, _, _ in params]:
                    continue
                w = World()
                tens(w)
                tq_o = real_overload(w, tq)
                sq_o = real_overload(w, sq)
                x = w.tensor_node("x", [7])
                nodes = [x]
                if what in ("int", "float"):
                    val = K(3) if what == "int" else K(2.5)
                    want = lit(val)
                else:
                    if what == "tensor":
                        val = w.tensor_node("y", [7])
                    elif what == "int node":
                        val = w.node("y", "placeholder", val=K(9))  # example value: a plain number
                    else:
                        val = w.node("y", "placeholder", val=w.obj("y.val", "torch." + what))
                    nodes.append(val)
                    want = "arg1"
                kw = [("alpha", K(5))] if extra else []
                n = w.tensor_node("n", [5], op="call_function", target=tq_o, args=[x, val], kwargs=kw)
                q = tq if what == "tensor" else sq
                exp = ["arg0", want]
                for p, t, d in schemas["aten::" + q[5:].removesuffix(".default")][0][2:]:
                    exp.append("int:5" if extra else f"int:{d}")
                full = "torch." + q.removesuffix(".default")
                cons = f"{tq} with {what}{' and alpha' if extra else ''}"
                ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", nodes + [n, w.output(n)])

                def pred(p):
                    v = View(p)
                    if len(v.real()) != 1 or op_name(v.real()[0]) != full:
                        return f"emits {v.real()}, expected {full}"
                    got = origins(v, v.real()[0].operands)
                    if got != exp:
                        return f"{full} gets {got}, the call passes {exp}"
                    return None

                decide(ctx, "scalar", cons, ps, pred, may_raise=REJ if what == "int node" else ())
    # operators without a scalar variant in the dialect keep their name
    for q in ("aten.eq.Tensor", "aten.maximum.default", "aten.remainder.Tensor", "aten.pow.Tensor_Tensor"):
        w = World()
        tens(w)
        o = real_overload(w, q)
        x = w.tensor_node("x", [7])
        y = w.tensor_node("y", [7])
        n = w.tensor_node("n", [5], op="call_function", target=o, args=[x, y])
        ps = import_graph(ctx, w, f"import_stateless_graph[{q}]", [x, y, n, w.output(n)])
        full = "torch." + q.removesuffix(".default")

        def keep(p):
            v = View(p)
            if [op_name(o) for o in v.real()] != [full] or origins(v, v.real()[0].operands) != ["arg0", "arg1"]:
                return f"emits {v.real()}"
            return None

        decide(ctx, "scalar", q, ps, keep)


def canonical(ctx):
    """Calls that are rewritten on import keep their meaning."""
    def run(q, args, kwargs, nodes, want, exp, cons, w, returns=None, users=None, results=1):
        o = real_overload(w, q)
        if returns is None:
            n = w.tensor_node("n", [5], op="call_function", target=o, args=args, kwargs=kwargs, users=users)
        else:
            n = w.node("n", "call_function", o, args, kwargs, val=returns)
        extra = []
        if users:
            for u in users:
                w.attrs[(u, "args")] = tup(*[n if y == obj("n") else y for y in w.attrs[(u, "args")].items])
            extra = users
        ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", nodes + [n] + list(extra) + [w.output(n if returns is None else nodes[0])])

        def pred(p):
            v = View(p)
            got = [(op_name(o), origins(v, o.operands)) for o in v.real() if not op_name(o).endswith("baddbmm")]
            ok = got == [(want, exp)] if want else not got
            return None if ok else f"{cons} is imported as {got}, expected {want} with {exp}"

        decide(ctx, "canonical", cons, ps, pred, may_raise=())

    w = World()
    real_overload(w, "aten.clone.default")
    x = w.tensor_node("x", [5])
    run("aten.lift_fresh_copy.default", [x], [], [x], "torch.aten.clone", ["arg0", "none"], "lift_fresh_copy", w)
    w = World()
    real_overload(w, "aten.clone.out")
    x, y = w.tensor_node("x", [5]), w.tensor_node("y", [5])
    run("aten.lift_fresh_copy.out", [x], [("out", y)], [x, y], "torch.aten.clone.out", ["arg0", "none", "arg1"], "lift_fresh_copy.out", w)
    for dt, fp in (("torch.float32", True), ("torch.float64", True), ("torch.float16", True), ("torch.bfloat16", True), ("torch.int64", False), ("torch.int32", False), ("torch.uint8", False), ("torch.bool", False)):
        w = World()
        for n_, t_ in (("Float", "float"), ("Int", "int")):
            w.overload(f"aten::{n_}", [("a", w.jit("TensorType"))], overload="Tensor", q=f"torch.ops.aten.{n_}.Tensor")
        w.attrs[(Q(dt), "is_floating_point")] = K(fp)
        x = w.tensor_node("x", [], dt)
        o = w.overload("aten::_local_scalar_dense", [("self", w.jit("TensorType"))], q="torch.ops.aten._local_scalar_dense.default")
        n = w.node("n", "call_function", o, [x], val=w.obj("n.val", "torch.SymFloat" if fp else "torch.SymInt"))
        ps = import_graph(ctx, w, f"import_stateless_graph[_local_scalar_dense {dt}]", [x, n, w.output(n)])
        want = "torch.aten.Float.Tensor" if fp else "torch.aten.Int.Tensor"
        res = ty("!torch.float" if fp else "!torch.int")

        def pred(p):
            v = View(p)
            r = v.real()
            if [(op_name(o), origins(v, o.operands), o.results) for o in r] != [(want, ["arg0"], [res])]:
                return f"item() of a {dt} tensor is imported as {r}"
            return None

        decide(ctx, "canonical", f"_local_scalar_dense of {dt}", ps, pred)
    w = World()
    w.overload("aten::_unsafe_index_put", [("self", w.jit("TensorType")), ("indices", w.jit("ListType", w.jit("TensorType"))), ("values", w.jit("TensorType")), ("accumulate", w.jit("BoolType"), FALSE)],
               overload="hacked_twin", q="torch.ops.aten._unsafe_index_put.hacked_twin")
    x, i, y = (w.tensor_node(k, [5]) for k in "xiy")
    # the index list is an operation of its own
    o = real_overload(w, "aten._unsafe_index_put.default")
    n = w.tensor_node("n", [5], op="call_function", target=o, args=[x, ilist(i), y, TRUE])
    ps = import_graph(ctx, w, "import_stateless_graph[_unsafe_index_put]", [x, i, y, n, w.output(n)])

    def put(p):
        v = View(p)
        r = [(op_name(o), origins(v, o.operands)) for o in v.real()]
        want = [("torch.prim.ListConstruct", ["arg1"]), ("torch.aten._unsafe_index_put.hacked_twin", ["arg0", "prim.ListConstruct", "arg2", "bool:True"])]
        return None if r == want else f"_unsafe_index_put is imported as {r}"

    decide(ctx, "canonical", "_unsafe_index_put", ps, put)
    for ov in ("default", "msg"):
        w = World()
        x = w.tensor_node("x", [])
        o = real_overload(w, "aten._assert_async." + ov)
        a = [x] if ov == "default" else [x, K("m")]
        n = w.node("n", "call_function", o, a, val=NONE)
        ps = import_graph(ctx, w, f"import_stateless_graph[_assert_async.{ov}]", [x, n, w.output(x)])
        if ov == "default":
            decide(ctx, "canonical", "_assert_async", ps, lambda p: None if [op_name(o) for o in View(p).real()] == ["torch.aten._assert_async"] else f"{View(p).real()}", may_raise=REJ)
        else:
            decide(ctx, "canonical", "_assert_async.msg", ps, lambda p: None)
    # embedding_bag: trailing arguments that are not given take the operator's defaults
    names = ["scale_grad_by_freq", "mode", "sparse", "per_sample_weights", "include_last_offset", "padding_idx"]
    vals = [TRUE, K(2), TRUE, "w", TRUE, K(4)]
    dfl = ["bool:False", "int:0", "bool:False", "none", "bool:False", "none"]
    for npos in range(7):
        for named in itertools.chain([()], [(k,) for k in range(npos, 6)], [tuple(range(npos, 6))]):
            if npos == 6 and named:
                continue
            w = World()
            real_overload(w, "aten.embedding_bag.padding_idx")
            xs = [w.tensor_node(k, [5]) for k in ("w0", "i", "o", "psw")]
            vv = [xs[3] if v == "w" else v for v in vals]
            o = real_overload(w, "aten._embedding_bag_forward_only.default")
            n = w.node("n", "call_function", o, xs[:3] + vv[:npos], [(names[k], vv[k]) for k in named], val=tup(*[w.fake(f"r{k}", [5]) for k in range(4)]))
            ps = import_graph(ctx, w, f"import_stateless_graph[_embedding_bag {npos} {named}]", xs + [n, w.output(xs[0])])
            want = ["arg0", "arg1", "arg2"] + [("arg3" if vals[k] == "w" else lit(vals[k])) if k < npos or k in named else dfl[k] for k in range(6)]

            def bag(p):
                v = View(p)
                r = [(op_name(o), origins(v, o.operands)) for o in v.real()]
                return None if r == [("torch.aten.embedding_bag.padding_idx", want)] else f"imported as {r}, expected {want}"

            decide(ctx, "canonical", f"_embedding_bag_forward_only with {npos} positional, keywords {list(named)}", ps, bag)
    # empty: only its sole use in baddbmm may replace it (by zeros)
    for cons, users, want in (("empty without users", [], "torch.aten.empty.memory_format"), ("empty used by add", ["aten.add.Tensor"], "torch.aten.empty.memory_format"),
                              ("empty used twice", ["aten.baddbmm.default", "aten.add.Tensor"], "torch.aten.empty.memory_format"),
                              ("empty used by baddbmm", ["aten.baddbmm.default"], ("torch.aten.zeros", "torch.aten.empty.memory_format"))):
        w = World()
        tens(w)
        for u in set(users) | {"aten.zeros.default"}:
            real_overload(w, u)
        x = w.tensor_node("x", [5])
        us = [w.tensor_node(f"u{k}", [5], op="call_function", target=Q("torch.ops." + u), args=[obj("n"), x] + ([x] if "baddbmm" in u else [])) for k, u in enumerate(users)]
        o = real_overload(w, "aten.empty.memory_format")
        n = w.tensor_node("n", [5], op="call_function", target=o, args=[ilist(K(5))], kwargs=[("pin_memory", FALSE)], users=us)
        ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", [x, n] + us + [w.output(n)])

        def emp(p):
            v = View(p)
            r = [o for o in v.real() if op_name(o).startswith(("torch.aten.empty", "torch.aten.zeros"))]
            if len(r) != 1 or op_name(r[0]) not in (want if isinstance(want, tuple) else (want,)):
                return f"{cons}: imported as {r}"
            exp = ["prim.ListConstruct", "none", "none", "none", "bool:False", "none"][: 5 if "zeros" in op_name(r[0]) else 6]
            return None if origins(v, r[0].operands) == exp else f"{cons}: operands {origins(v, r[0].operands)}, expected {exp}"

        decide(ctx, "canonical", cons, ps, emp)
    w = World()
    x = w.tensor_node("x", [5])
    o = real_overload(w, "aten.as_strided.default")
    n = w.tensor_node("n", [5], op="call_function", target=o, args=[x, ilist(K(5)), ilist(K(1))])
    g = import_graph(ctx, w, "import_stateless_graph[as_strided]", [x, n, w.output(n)], models={"rewrite_as_strided": lambda *a: NONE})
    decide(ctx, "canonical", "as_strided that was not rewritten", g, lambda p: None, must_raise=REJ)


def run(ctx):
    ctx.rule("binding", "operand i is the value given for schema parameter i: by position, else by name, else the schema's default")
    ctx.rule("name", "the operation is named namespace.name.overload, through the generic operator if unregistered, with one result per return")
    ctx.rule("promote", "a scalar given for a tensor becomes a rank-0 tensor of its own value and type; a boolean given for a number is converted")
    ctx.rule("scalar", "a Tensor overload called with a scalar becomes the Scalar overload of the same operator, with that overload's parameters")
    ctx.rule("canonical", "an operator replaced on import keeps its meaning and its arguments")
    for g in (binding, naming, promotion, scalar_variant, canonical):
        ctx.group(g)
    ctx.floor("binding", 50)
    ctx.floor("canonical", 30)
