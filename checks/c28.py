"""C28: the legacy TorchDynamo importer and its backend wrapper."""

import itertools

from sa.fxworld import *
from sa.torchfacts import *
from checks.c05 import VALUES

L = "torch_mlir._dynamo_fx_importer"
D = "torch_mlir.dynamo"
REJ = ("*",)
TD = "torch_mlir.dialects.torch."


def maparg(it, recv, args, kw, node):
    fn = args[1] if len(args) > 1 else kw.get("fn")

    def go(x):
        x = it.resolve(x)
        if isinstance(x, Lst):
            return Lst([go(y) for y in x.items], x.kind)
        if isinstance(x, Dct):
            return Dct([(k, go(y)) for k, y in x.pairs])
        if it.types.get(freeze(x)) == NODE:
            return it.call_value(fn, [x], {}, node)
        return x

    return go(args[0])


def mapagg(it, recv, args, kw, node):
    fn = args[1] if len(args) > 1 else kw.get("fn")

    def go(x):
        x = it.resolve(x)
        if isinstance(x, Lst):
            return Lst([go(y) for y in x.items], x.kind)
        return it.call_value(fn, [x], {}, node)

    return go(args[0])


def world():
    w = World()
    for n in ("torch.fx.map_arg", "torch.fx.node.map_arg"):
        w.models[n] = maparg
    for n in ("torch.fx.node.map_aggregate", "torch.fx.map_aggregate"):
        w.models[n] = mapagg
    for q in ("operator.getitem", "operator.add", "torch.add"):
        w.types[Q(q)] = "builtins.builtin_function_or_method"
    w.jit_ = w.jit

    def jit(kind, element=None):
        t = w.jit_(kind, element)
        if element is not None:
            w.call(t, "getElementType", element)
        return t

    w.jit = jit
    return w


def tnode(w, name_, shape, dtype="torch.float32", op="placeholder", target=None, args=(), kwargs=(), **kw):
    kw.setdefault("stack_trace", NONE)
    return w.node(name_, op, target, args, kwargs, val=w.fake(name_ + ".val", shape, dtype), **kw)


def ovl(w, name_, params, returns=("TensorType",), overload="x"):
    o = w.overload("aten::" + name_, params, overload=overload)
    sch = w.attrs[(o, "_schema")]
    rs = []
    for i, r in enumerate(returns):
        t = r if isinstance(r, T) else w.jit(r)
        rs.append(w.obj(f"{name_}.ret{i}", "torch.Argument", type=t, name=NONE))
    w.attrs[(sch, "returns")] = Lst(rs)
    for a in w.attrs[(sch, "arguments")].items:
        w.attrs.setdefault((a, "kwarg_only"), FALSE)
        d = w.attrs[(a, "default_value")]
        w.call(a, "has_default_value", K(d != NONE))
    return o


def call(w, name_, args, shape=(5,), kwargs=(), params=None, dtype="torch.float32", trace=NONE, **kw):
    o = ovl(w, name_, params or [(f"p{i}", w.jit("TensorType")) for i in range(len(args))], **kw)
    return tnode(w, "n_" + name_, shape, dtype, "call_function", o, args, kwargs, stack_trace=trace)


def out(w, *args):
    return w.node("output", "output", K("output"), (tup(*args),), stack_trace=NONE)


def imp(ctx, w, entry, nodes, name_="fn", **cfg):
    p = ctx.project
    p.load(L)
    g = w.graph(nodes)
    return ctx.explore(entry, lambda it: it.call_value(p.func(L, "import_fx_graph_as_func"), [g, K(name_)], {}, None), **w.cfg(max_rec=8, **cfg))


KINDS = {"ConstantBoolOp": "bool", "ConstantIntOp": "int", "ConstantFloatOp": "float", "ConstantStrOp": "str", "ConstantDeviceOp": "device"}


def org(v, x):
    """Origin of an operand."""
    if isinstance(x, T) and x.op == "attr" and x.args[1] == "result" and isinstance(x.args[0], T) and x.args[0].op == "call":
        c = x.args[0]
        n = show(c.args[0])
        if not n.startswith(TD):
            return show(x)
        n = n[len(TD):]
        a, k = list(c.args[1]), dict(c.args[2])
        if n == "ConstantNoneOp":
            return "none"
        if n == "PrimListConstructOp":
            return f"list:{show(a[0].args[1]).strip(chr(39))}[{', '.join(org(v, y) for y in seq(a[1]))}]"
        if n in KINDS:
            b = a[0] if a else k.get("value")
            for suffix, pos in (("IntegerAttr.get", 1), ("FloatAttr.get_f64", 0), ("StringAttr.get", 0)):
                g = call_of(b, suffix)
                if g:
                    if pos:
                        t = call_of(g[0][0], "get_signless")
                        wd = t[0][0] if t else None
                        if wd != K(1 if n == "ConstantBoolOp" else 64):
                            return "badwidth"
                    return f"{KINDS[n]}:{show(g[0][pos])}"
        return show(x)
    return origin(v, x)


def lit(v):
    if v == NONE:
        return "none"
    return f"{type(v.v).__name__}:{show(v)}"


def need(v, name_, operands, results=None):
    ops = v.named("torch.aten." + name_)
    if len(ops) != 1:
        return f"{name_} is emitted {len(ops)} times"
    got = [org(v, x) for x in ops[0].operands]
    if got != operands:
        return f"{name_} gets {got}, the call passes {operands}"
    if results is not None and ops[0].results != results:
        return f"{name_} has the results {show(ops[0].results)}, expected {show(results)}"
    return None


def binding(ctx):
    kinds = ["TensorType", "IntType", "FloatType", "BoolType", "StringType"]
    n = len(kinds)
    for pos in range(1, n + 1):
        rest = list(range(pos, n))
        for r in range(len(rest) + 1):
            for named in itertools.combinations(rest, r):
                for falsy in (0, 1):
                    w = world()
                    x = tnode(w, "x", [7])
                    vals = [x] + [VALUES[k][falsy] for k in kinds[1:]]
                    dfl = [NONE] + [VALUES[k][1 - falsy] for k in kinds[1:]]
                    params = [(f"p{i}", w.jit(k), dfl[i]) for i, k in enumerate(kinds)]
                    m = call(w, "foo", vals[:pos], params=params, kwargs=[(f"p{i}", vals[i]) for i in reversed(named)])
                    ps = imp(ctx, w, f"import_fx_graph_as_func[{pos} positional, keywords {named}]", [x, m, out(w, m)])
                    want = ["arg0"] + [lit(vals[i]) if i < pos or i in named else lit(dfl[i]) for i in range(1, n)]
                    decide(ctx, "call", f"{pos} positional, keywords {list(named)}{'' if falsy else ', falsy values'}", ps,
                           lambda p: need(View(p), "foo.x", want, [vt([5])]))
    # a missing argument
    w = world()
    x = tnode(w, "x", [7])
    m = call(w, "foo", [x], params=[("a", w.jit("TensorType")), ("b", w.jit("TensorType"))])
    decide(ctx, "reject", "a missing argument", imp(ctx, w, "import_fx_graph_as_func[missing argument]", [x, m, out(w, m)]), lambda p: None, must_raise=REJ)


def constants(ctx):
    opt = lambda w, t: w.jit("OptionalType", t)
    lst = lambda w, t: w.jit("ListType", t)
    cases = [
        ("a boolean", lambda w: w.jit("BoolType"), TRUE, "bool:True"),
        ("false", lambda w: w.jit("BoolType"), FALSE, "bool:False"),
        ("zero", lambda w: w.jit("IntType"), K(0), "int:0"),
        ("a negative integer", lambda w: w.jit("IntType"), K(-(2 ** 63)), f"int:{-(2 ** 63)}"),
        ("a float", lambda w: w.jit("FloatType"), K(-0.5), "float:-0.5"),
        ("a string", lambda w: w.jit("StringType"), K("abc"), "str:'abc'"),
        ("an empty string", lambda w: w.jit("StringType"), K(""), "str:''"),
        ("an explicit None", lambda w: opt(w, w.jit("IntType")), NONE, "none"),
        ("an optional integer", lambda w: opt(w, w.jit("IntType")), K(3), "int:3"),
        ("an optional list", lambda w: opt(w, lst(w, w.jit("IntType"))), Lst([K(1), K(2)]), "list:!torch.list<int>[int:1, int:2]"),
        ("a list of integers", lambda w: lst(w, w.jit("IntType")), Lst([K(2), K(0), K(-1)]), "list:!torch.list<int>[int:2, int:0, int:-1]"),
        ("an empty list", lambda w: lst(w, w.jit("IntType")), Lst([]), "list:!torch.list<int>[]"),
        ("a list of floats", lambda w: lst(w, w.jit("FloatType")), Lst([K(1.5), K(0.0)]), "list:!torch.list<float>[float:1.5, float:0.0]"),
        ("a list of booleans", lambda w: lst(w, w.jit("BoolType")), Lst([TRUE, FALSE]), "list:!torch.list<bool>[bool:True, bool:False]"),
        ("a list of strings", lambda w: lst(w, w.jit("StringType")), Lst([K("b"), K("a")]), "list:!torch.list<str>[str:'b', str:'a']"),
        ("an optional list of integers", lambda w: opt(w, lst(w, w.jit("IntType"))), NONE, "none"),
    ]
    for dt, code in (("float32", 6), ("int64", 4), ("bool", 11), ("bfloat16", 15), ("uint8", 0), ("float64", 7), ("float16", 5)):
        cases.append((f"torch.{dt}", lambda w: w.jit("IntType"), Q("torch." + dt), f"int:{code}"))
    for q, code in (("strided", 0), ("contiguous_format", 0), ("preserve_format", 1), ("channels_last", 2), ("channels_last_3d", 3)):
        cases.append((f"torch.{q}", lambda w: opt(w, w.jit("IntType")), Q("torch." + q), f"int:{code}"))
    for what, t, val, want in cases:
        for where in ("positional", "keyword", "default"):
            w = world()
            x = tnode(w, "x", [7])
            ty_ = t(w)
            if where == "default" and val == NONE:
                continue
            other = K(99)
            m = call(w, "foo", [x] + ([val] if where == "positional" else []), params=[("a", w.jit("TensorType")), ("b", ty_, val if where == "default" else other)],
                     kwargs=[("b", val)] if where == "keyword" else [])
            ps = imp(ctx, w, f"import_fx_graph_as_func[{what}, {where}]", [x, m, out(w, m)])
            decide(ctx, "constant", f"{what}, {where}", ps, lambda p: need(View(p), "foo.x", ["arg0", want]))
    # devices, with and without an index
    for dtype_, text in (("cpu", "cpu"), ("cuda", "cuda:1")):
        w = world()
        x = tnode(w, "x", [7])
        dev = w.obj("device", "torch.device", type=K(dtype_), index=K(1) if ":" in text else NONE)
        w.attrs[(dev, "__str__")] = K(text)
        m = call(w, "foo", [x, dev], params=[("a", w.jit("TensorType")), ("b", w.jit("OptionalType", w.jit("StringType")), NONE)])
        ps = imp(ctx, w, f"import_fx_graph_as_func[device {text}]", [x, m, out(w, m)])
        decide(ctx, "constant", f"device {text}", ps, lambda p: need(View(p), "foo.x", ["arg0", f"device:'{text}'"]))
    # lists of tensors
    for optional in (False, True):
        w = world()
        xs = [tnode(w, f"x{i}", [7 + i]) for i in range(3)]
        el = w.jit("OptionalType", w.jit("TensorType")) if optional else w.jit("TensorType")
        items = [xs[2], NONE, xs[0]] if optional else [xs[2], xs[0], xs[2]]
        m = call(w, "foo", [Lst(items)], params=[("a", w.jit("ListType", el))])
        ps = imp(ctx, w, f"import_fx_graph_as_func[list of {'optional ' if optional else ''}tensors]", xs + [m, out(w, m)])
        want = "list:!torch.list<optional<vtensor>>[arg2, none, arg0]" if optional else "list:!torch.list<vtensor>[arg2, arg0, arg2]"
        decide(ctx, "constant", f"a list of {'optional ' if optional else ''}tensors", ps, lambda p: need(View(p), "foo.x", [want]))
    # what has no form here
    for what, t, val in (("a complex number", "FloatType", K(1j)), ("an unknown object", "IntType", obj("thing")), ("a list of numbers for a number", "IntType", Lst([K(1)])),
                         ("a dtype without code", "IntType", Q("torch.qint32"))):
        w = world()
        x = tnode(w, "x", [7])
        if isinstance(val, T):
            w.types[val] = "builtins.slice"
        m = call(w, "foo", [x, val], params=[("a", w.jit("TensorType")), ("b", w.jit(t))])
        ps = imp(ctx, w, f"import_fx_graph_as_func[{what}]", [x, m, out(w, m)])
        decide(ctx, "reject", what, ps, lambda p: None, must_raise=REJ)


DT = {"float16": "f16", "bfloat16": "bf16", "float32": "f32", "float64": "f64", "uint8": "ui8", "int8": "si8", "int16": "si16", "int32": "si32", "int64": "si64", "bool": "i1",
      "complex64": "complex<f32>", "complex128": "complex<f64>", "qint8": "!torch.qint8", "quint8": "!torch.quint8"}


def types(ctx):
    for dt in list(DT) + ["uint16", "uint32", "uint64", "complex32", "qint32", "float8_e5m2", "float8_e4m3fn"]:
        for where in ("argument", "result"):
            w = world()
            x = tnode(w, "x", [7, 1, 0], "torch." + dt if where == "argument" else "torch.float32")
            m = call(w, "foo", [x], (3, 2), dtype="torch." + dt if where == "result" else "torch.float32")
            ps = imp(ctx, w, f"import_fx_graph_as_func[{dt} {where}]", [x, m, out(w, m, x)])
            if dt not in DT:
                decide(ctx, "reject", f"torch.{dt} {where}", ps, lambda p: None, must_raise=REJ)
                continue
            a, r = vt([7, 1, 0], DT[dt] if where == "argument" else "f32"), vt([3, 2], DT[dt] if where == "result" else "f32")

            def pred(p):
                v = View(p)
                ft = v.ftype()
                if ft != ([a], [r, a]):
                    return f"the function has the type {show(ft)}"
                return need(v, "foo.x", ["arg0"], [r])

            decide(ctx, "type", f"torch.{dt} {where}", ps, pred)
    for shape in ([], [1], [4, 3, 2, 1]):
        w = world()
        x = tnode(w, "x", shape)
        m = call(w, "foo", [x], shape[::-1])
        ps = imp(ctx, w, f"import_fx_graph_as_func[shape {shape}]", [x, m, out(w, m)])
        decide(ctx, "type", f"shape {shape}", ps, lambda p: None if View(p).ftype() == ([vt(shape)], [vt(shape[::-1])]) else f"type {show(View(p).ftype())}")


def structure(ctx):
    # order of arguments, results and operations
    for n in (1, 2, 3):
        for mixed in (False, True):
            w = world()
            xs = [tnode(w, f"x{i}", [10 + i]) for i in range(n)]
            us = [call(w, f"u{i}", [xs[i], xs[(i + 1) % n]], (20 + i,)) for i in range(n)]
            ch = call(w, "last", [us[-1], us[0]], (9,))
            nodes = [y for pair in zip(xs, us) for y in pair] if mixed and n == 1 else xs + us
            outs = [ch] + us[::-1] + xs + [us[0]]
            ps = imp(ctx, w, f"import_fx_graph_as_func[{n} placeholders]", nodes + [ch, out(w, *outs)], name_="the_name")

            def pred(p):
                v = View(p)
                names = [o.name for o in v.ops]
                if names != [f"torch.aten.u{i}.x" for i in range(n)] + ["torch.aten.last.x"]:
                    return f"emits {names}"
                for i in range(n):
                    m = need(v, f"u{i}.x", [f"arg{i}", f"arg{(i + 1) % n}"], [vt([20 + i])])
                    if m:
                        return m
                m = need(v, "last.x", [f"u{n - 1}.x", "u0.x"])
                if m:
                    return m
                want = ["last.x"] + [f"u{i}.x" for i in range(n)][::-1] + [f"arg{i}" for i in range(n)] + ["u0.x"]
                if [org(v, x) for x in v.returned() or []] != want:
                    return f"returns {[org(v, x) for x in v.returned() or []]}, the graph {want}"
                ft = v.ftype()
                if ft != ([vt([10 + i]) for i in range(n)], [vt([9])] + [vt([20 + i]) for i in range(n)][::-1] + [vt([10 + i]) for i in range(n)] + [vt([20])]):
                    return f"the function has the type {show(ft)}"
                if len(v.funcs) != 1 or v.funcs[0].arg("name", 0) != K("the_name"):
                    return "the function does not have the requested name"
                f = v.funcs[0]
                ip = call_of(f.arg("ip"), "ir.InsertionPoint")
                # the operations stand in the body of that function, which stands in the module
                bl = obj(f"block{v.blocks[0].idx}")
                if v.blocks[0].arg("parent", 0) != obj(f"func{f.idx}", "body") or any(block_of(o.ctx) != bl for o in v.ops) or block_of(v.returns[0].ctx) != bl:
                    return "the operations are not in the body of the function"
                if ip is None or not show(ip[0][0]).endswith(".body") or show(p.value) != show(ip[0][0])[:-5]:
                    return f"the function is put into {show(f.arg('ip'))}, the result is {show(p.value)}"
                return None

            decide(ctx, "graph", f"{n} placeholders{', interleaved' if mixed else ''}", ps, pred)
    # multiple results
    for ret in (2, 3):
        for order in ([0, 1], [1, 0], [ret - 1], [1, 1]):
            w = world()
            x = tnode(w, "x", [7])
            o = ovl(w, "many", [("p0", w.jit("TensorType"))], ["TensorType"] * ret)
            m = w.node("m", "call_function", o, [x], val=tup(*[w.fake(f"m.v{i}", [50 + i]) for i in range(ret)]), stack_trace=NONE)
            gs = [tnode(w, f"g{k}", [50 + i], op="call_function", target=Q("operator.getitem"), args=(m, K(i))) for k, i in enumerate(order)]
            u = call(w, "use", gs)
            ps = imp(ctx, w, f"import_fx_graph_as_func[{ret} results, items {order}]", [x, m] + gs + [u, out(w, u, *gs)])

            def pred(p):
                v = View(p)
                r = need(v, "many.x", ["arg0"], [vt([50 + i]) for i in range(ret)])
                r = r or need(v, "use.x", [f"many.x#{i}" for i in order])
                got = [org(v, y) for y in v.returned() or []]
                return r or (None if got == ["use.x"] + [f"many.x#{i}" for i in order] else f"returned {got}")

            decide(ctx, "graph", f"items {order} of {ret} results", ps, pred)
        w = world()
        x = tnode(w, "x", [7])
        o = ovl(w, "many", [("p0", w.jit("TensorType"))], ["TensorType"] * ret)
        m = w.node("m", "call_function", o, [x], val=tup(*[w.fake(f"m.v{i}", [50 + i]) for i in range(ret)]), stack_trace=NONE)
        g = tnode(w, "g", [50], op="call_function", target=Q("operator.getitem"), args=(m, K(ret)))
        decide(ctx, "reject", f"item {ret} of {ret} results", imp(ctx, w, f"import_fx_graph_as_func[item {ret} of {ret}]", [x, m, g, out(w, g)]), lambda p: None, must_raise=REJ)
    # locations
    for trace, want in ((NONE, None), (K('  File "a b/c.py", line 42, in f\n    x'), ("a b/c.py", 42)), (K("no file here"), None), (K(""), None)):
        w = world()
        x = tnode(w, "x", [7])
        m = call(w, "foo", [x], trace=trace)
        ps = imp(ctx, w, f"import_fx_graph_as_func[stack trace {show(trace)[:12]}]", [x, m, out(w, m)])

        def pred(p):
            v = View(p)
            r = need(v, "foo.x", ["arg0"], [vt([5])])
            if r:
                return r
            loc = next((c for c in reversed(v.named("torch.aten.foo.x")[0].ctx) if ".Location." in show(c)), None)
            f = call_of(loc, "Location.file")
            got = None
            if f:
                a = f[0] + [None] * 2
                got = (f[1].get("filename", a[0]), f[1].get("line", a[1]))
            exp = want and (K(want[0]), K(want[1]))
            return None if got == exp else f"the operation has the location {show(loc)}"

        decide(ctx, "graph", f"a node with the stack trace {show(trace)[:20]}", ps, pred)
    # an operator without overload name; the dialect is there before its operations are
    w = world()
    x = tnode(w, "x", [7])
    m = call(w, "foo", [x], overload="")
    ps = imp(ctx, w, "import_fx_graph_as_func[no overload]", [x, m, out(w, m)])

    def pred(p):
        v = View(p)
        r = need(v, "foo", ["arg0"], [vt([5])])
        reg = [e.idx for e in p.events if e.kind == "call" and e.name.endswith("register_dialect")]
        return r or (None if reg and reg[0] < v.ops[0].idx else "the torch dialect is not registered")

    decide(ctx, "graph", "an operator without overload name", ps, pred)


def subset(ctx):
    def base(w):
        x = tnode(w, "x", [7])
        return x

    def case(what, build):
        w = world()
        x = base(w)
        nodes = build(w, x)
        ps = imp(ctx, w, f"import_fx_graph_as_func[{what}]", nodes)
        decide(ctx, "reject", what, ps, lambda p: None, must_raise=REJ)

    def other(op):
        def f(w, x):
            a = tnode(w, "a", [7], op=op, target=K("t"), args=(x,))
            return [x, a, out(w, a)]
        return f

    for op in ("call_module", "call_method", "get_attr"):
        case(f"a {op} node", other(op))

    def target(t):
        def f(w, x):
            a = tnode(w, "a", [7], op="call_function", target=t, args=(x, x))
            return [x, a, out(w, a)]
        return f

    case("a call of a Python operator", target(Q("operator.add")))
    case("a call of an unknown function", target(Q("torch.add")))

    def getitem(w, x):
        a = tnode(w, "a", [], op="call_function", target=Q("operator.getitem"), args=(x, K(0)))
        return [x, a, out(w, a)]

    case("an item of a tensor", getitem)

    def getitem2(w, x):
        m = call(w, "foo", [x])
        a = tnode(w, "a", [], op="call_function", target=Q("operator.getitem"), args=(m, K(0)))
        return [x, m, a, out(w, a)]

    case("an item of a single result", getitem2)

    def rets(r, val):
        def f(w, x):
            o = ovl(w, "r", [("a", w.jit("TensorType"))], [w.jit("ListType", w.jit("TensorType")) if r == "list" else r])
            a = w.node("a", "call_function", o, [x], val=val(w), stack_trace=NONE)
            return [x, a, out(w, x)]
        return f

    case("a call that returns a list", rets("list", lambda w: Lst([w.fake("v", [7])])))
    case("a call that returns an integer", rets("IntType", lambda w: w.obj("si", "torch.SymInt")))

    def meta(op, val):
        def f(w, x):
            kw = dict(target=ovl(w, "r", [("a", w.jit("TensorType"))]), args=(x,)) if op == "call_function" else {}
            a = w.node("a", op, val=val(w) if val else None, stack_trace=NONE, **kw)
            return [x, a, out(w, x)]
        return f

    for op in ("placeholder", "call_function"):
        case(f"a {op} without metadata", meta(op, None))
        case(f"a {op} of a symbolic integer", meta(op, lambda w: w.obj("si", "torch.SymInt")))
        case(f"a {op} of a list with a symbolic integer", meta(op, lambda w: Lst([w.fake("v", [7]), w.obj("si", "torch.SymInt")])))

    def unregistered(w, x):
        w.registered = False
        a = call(w, "foo", [x])
        return [x, a, out(w, a)]

    case("a call of an operator that is not registered", unregistered)


def wrapper(ctx):
    """make_simple_dynamo_backend: the outputs have the structure the graph returns."""
    p = ctx.project
    p.load(D)
    for kind in ("tuple", "list"):
        for n in (0, 1, 2, 3):
            w = World()
            xs = [w.obj(f"node{i}", NODE, op=K("placeholder"), args=tup(), target=K(f"x{i}"), name=K(f"x{i}")) for i in range(max(n, 1))]
            o = w.obj("out", NODE, op=K("output"), args=tup(Lst(xs[:n], kind)), target=K("output"), name=K("output"))
            g = w.obj("graph", "torch.fx.Graph", nodes=Lst(xs + [o]))
            gm = w.obj("gm", "torch.fx.GraphModule", graph=g)
            inputs = [obj(f"in{i}") for i in range(2)]
            res = [obj(f"res{i}") for i in range(n)]
            state = {}

            def thunk(it):
                made = it.call_value(p.func(D, "make_simple_dynamo_backend"), [Q("the.user_backend")], {}, None)
                comp = [e for e in it.path.events if e.kind == "call" and e.name.endswith("aot_autograd")]
                fw = comp[-1].live[2].get("fw_compiler") if comp else None
                back = it.call_value(fw, [gm, obj("examples")], {}, None)
                return it.call_value(back, list(inputs), {}, None)

            def user_backend(it, recv, args, kw, node):
                a = it.heap.get((o, "args"), w.attrs[(o, "args")])
                state["args"] = freeze(a)
                state["got"] = [freeze(x) for x in args]
                return Q("the.compiled")

            def compiled(it, recv, args, kw, node):
                state["in"] = [freeze(x) for x in args]
                # the calling convention: the value itself, or a tuple
                a = state["args"]
                one = a.args[0] if isinstance(a, T) and a.op == "tuple" and len(a.args) == 1 else None
                if one is not None and not (isinstance(one, T) and one.op in ("tuple", "list")):
                    return res[0] if res else NONE
                return Lst(list(res), "tuple")

            w.models["the.user_backend"] = user_backend
            w.models["the.compiled"] = compiled
            w.models["functorch.compile.make_boxed_func"] = lambda it, recv, args, kw, node: args[0]
            ps = ctx.explore(f"make_simple_dynamo_backend[{kind} of {n}]", thunk, **w.cfg())

            def pred(pth):
                want = T(kind, *res)
                if freeze(pth.value) != want:
                    return f"the graph returns a {kind} of {n}, the callable {show(freeze(pth.value))}"
                if state["got"] != [gm, obj("examples")]:
                    return f"the user's backend gets {show(state['got'])}"
                ub = next(e.idx for e in pth.events if e.kind == "call" and e.name == "the.user_backend")
                if not any(e.kind == "call" and e.name.endswith("strip_overloads") and e.idx < ub and freeze(e.arg("gm", 0)) == gm for e in pth.events):
                    return "the user's backend gets a graph with overloads"
                if state["in"] != inputs:
                    return f"the compiled function gets {show(state['in'])}"
                a = state["args"].args[0]
                ok = (a == xs[0]) if n == 1 else a == T("tuple", *xs[:n])
                return None if ok else f"the user's backend sees the outputs {show(a)}"

            decide(ctx, "backend", f"a graph that returns a {kind} of {n}", ps, pred)


def run(ctx):
    ctx.rule("call", "a call becomes one operation of its schema's name with the value given for each parameter, by position, keyword or default")
    ctx.rule("constant", "a constant operand is the constant of its own class and value, a list holds its own elements in order")
    ctx.rule("type", "arguments and results have the element type and shape of their metadata")
    ctx.rule("graph", "the function takes the placeholders, emits every call once in order on its own arguments' values, and returns the outputs in order")
    ctx.rule("reject", "what is outside the supported subset is rejected")
    ctx.rule("backend", "a backend made from a user's backend returns the outputs in the structure of the graph")
    for f in (binding, constants, types, structure, subset, wrapper):
        ctx.group(f)
    for r, n in (("call", 20), ("constant", 40), ("graph", 10), ("reject", 15), ("backend", 6)):
        ctx.floor(r, n)
