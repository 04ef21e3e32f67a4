"""C19: nodes that are ONNX functions are expanded to the function's own body, or stay as they are."""

from sa.onnxworld import *
from checks.c16 import REJECT, text
from checks.c18 import check_value

F32 = lambda *d: f"!torch.vtensor<[{','.join(map(str, d))}],f32>"
SI64 = T("obj", K("type"), K("si64"))


def allow(spec=None, deny=None):
    """A Config; spec and deny: {domain: names}."""
    d = lambda s: Dct([(K(k), SetV([K(x) for x in v])) for k, v in s.items()])
    c = {"function_expansion_allowlists_by_domain": NONE if spec is None else d(spec)}
    if deny is not None:
        c["function_expansion_denylists_by_domain"] = d(deny)
    return c


def literal_of(o):
    """The tensor a literal holds."""
    ts = sorted({x.args[0].v for a in o.attributes.values() for x in walk(a) if isinstance(x, T) and x.op == "obj" and isinstance(x.args[0], K) and str(x.args[0].v).startswith("T_")})
    return "+".join(t.split(".")[0] for t in ts) or "constant"


class Tree:
    """What a path emits, as nested lists: a call is followed by the called function."""

    def __init__(self, p):
        self.v = v = OView(p)
        self.main = [f for f in v.funcs if f.arg("visibility", None, NONE) in (None, NONE)]
        self.names = [f.arg("name", 0) for f in v.funcs]

    def value(self, x, f, scope):
        v = self.v
        if isinstance(x, T) and x.op == "obj" and len(x.args) == 2 and all(isinstance(a, K) for a in x.args):
            own, n = x.args[0].v, str(x.args[1].v)
            if own.startswith("block"):
                b = obj(own)
                if b not in scope:
                    return "a value of another function"
                return "arg" + n[3:] if scope.index(b) == 0 else f"inner{scope.index(b)}.{n[3:]}"
            o = v.by_obj.get(obj(own))
            if o is not None:
                if block_of(o.ctx) not in scope:
                    return "a value of another function"
                name = v.op_name(o)
                if name == "torch.constant.none":
                    return "none"
                if name == "onnx.Constant":
                    return literal_of(o)
                if name == "func.call":
                    return f"call{[c for c in v.in_block(block_of(o.ctx)) if c.name == 'func.call'].index(o)}#{n[1:]}"
                return f"{name}#{n[1:]}"
        return show(x)

    def block(self, b, f, outer=()):
        v = self.v
        scope = list(outer) + [b]
        out = []
        for o in v.in_block(b):
            n = v.op_name(o)
            if n in ("torch.constant.none", "onnx.Constant"):
                continue
            ins = [self.value(x, f, scope) for x in o.operands]
            if n == ("torch.operator_terminator" if outer else "func.return"):
                out.append(("return", ins))
            elif n == "func.call":
                callee = o.attributes["callee"]
                fe = next((e for e in v.funcs if obj(f"func{e.idx}") == callee), None)
                out.append(("call", ins, None if fe is None else callee))
            else:
                regs = []
                for i in range(o.ev.arg("regions", 5, K(0)).v):
                    regs += [(([text(t) for t in v.block_types(rb)]), self.block(rb, f, scope)) for rb in v.region(o, i)]
                out.append((n, ins, [text(t) for t in o.results], v.attrs(o), regs))
        return out

    def func(self, f):
        ins, outs = self.v.ftype(f)
        return [text(t) for t in ins], [text(t) for t in outs], self.block(self.v.entry(f), f)


def same_ops(t, got, want, path=""):
    if len(got) != len(want):
        return f"{path or 'the function'} has the operations {[g[0] for g in got]}, expected {[w[0] for w in want]}"
    for g, w in zip(got, want):
        at = f"{path}{w[0]}"
        if g[0] != w[0]:
            return f"{at}: the operation is {g[0]}"
        if g[1] != w[1]:
            return f"{at}: reads {g[1]}, expected {w[1]}"
        if g[0] == "return":
            continue
        if g[0] == "call":
            if g[2] is None:
                return f"{at}: calls what is not a function of the module"
            m = same_func(t, g[2], w[2], at + " ")
            if m:
                return m
            continue
        w = list(w) + [[], {}, []][len(w) - 2 :]
        if w[2] is not None and g[2] != w[2]:
            return f"{at}: has the types {g[2]}, expected {w[2]}"
        if set(g[3]) != set(w[3]):
            return f"{at}: has the attributes {sorted(g[3])}, expected {sorted(w[3])}"
        for n, (kind, x) in w[3].items():
            m = check_value(g[3][n], kind, x)
            if m:
                return f"{at}: attribute {n} is {m}"
        if len(g[4]) != len(w[4]):
            return f"{at}: has {len(g[4])} regions, expected {len(w[4])}"
        for i, (a, b) in enumerate(zip(g[4], w[4])):
            if a[0] != b[0]:
                return f"{at}: region {i} has arguments of the types {a[0]}, expected {b[0]}"
            m = same_ops(t, a[1], b[1], f"{at} region {i} ")
            if m:
                return m
    return None


def same_func(t, f, want, path):
    ins, outs, ops = t.func(f)
    if ins != want[0] or outs != want[1]:
        return f"{path}the function has the type {ins} -> {outs}, expected {want[0]} -> {want[1]}"
    fe = next(e for e in t.v.funcs if obj(f"func{e.idx}") == f)
    if fe.arg("visibility", None, NONE) != K("private"):
        return f"{path}the function is not private"
    if len(want) > 3:
        got = [(e.args[0], call_of(e.args[1], "IntegerAttr.get")) for e in t.v.path.events if e.kind == "setitem" and isinstance(e.recv, T) and e.recv == T("attr", f, "attributes")]
        ver = [c[0][1] for k, c in got if k == K("torch.onnx_meta.opset_version") and c]
        if ver != [want[3]]:
            return f"{path}the function states the opset version {[show(x) for x in ver]}, its body is of version {show(want[3])}"
    return same_ops(t, ops, want[2], path)


def expand(ctx, rule, cons, w, model, want, config, may_raise=(), must_raise=()):
    """want: the operations of the main function (a call: ("call", operands, (inputs, outputs, operations)))."""

    def pred(p):
        t = Tree(p)
        if len(t.main) != 1:
            return f"{len(t.main)} functions are public"
        if len(set(t.names)) != len(t.names):
            return "two functions have the same name"
        if any(e.kind == "note" and e.name == "infer" and e.args[0] != TRUE for e in p.events):
            return "a body whose types cannot be inferred is not rejected"
        return same_ops(t, t.func(obj(f"func{t.main[0].idx}"))[2], want)

    return decide(ctx, rule, cons, import_model(ctx, w, cons, model, config), pred, may_raise=may_raise, must_raise=must_raise)


def body(w, tag, op="Inner", attrs=(), ins=("a",), outs=("b",), version=5, **kw):
    """A function b = op(a)."""
    return w.function(f"f{tag}", list(ins), list(outs), [w.nodep(op, list(ins), list(outs), attrs)], [("", version)], **kw)


def caller(w, attrs=(), opsets=(("", 10),), domain=None, op="Foo"):
    return w.model(w.graphp("main", [w.info("x", [2])], [w.info("o", [3])], [w.nodep(op, ["x"], ["o"], attrs, domain=domain)]), opsets)


PLAIN = [("onnx.Foo", ["arg0"], [F32(3)]), ("return", ["onnx.Foo#0"])]


def called(inner="Inner", ver=None):
    f = ([F32(2)], [F32(3)], [(f"onnx.{inner}", ["arg0"], [F32(3)]), ("return", [f"onnx.{inner}#0"])])
    return [("call", ["arg0"], f + ((K(ver),) if ver is not None else ())), ("return", ["call0#0"])]


def lists(ctx):
    """Which nodes are expanded."""
    for cons, domain, cfg, yes in (
        ("no allow list", None, allow(None), True), ("listed", None, allow({"": ["Bar", "Foo"]}), True), ("not listed", None, allow({"": ["Bar"]}), False),
        ("an empty allow list", None, allow({}), False), ("listed for another domain", None, allow({"my": ["Foo"]}), False),
        ("denied", None, allow(None, {"": ["Foo"]}), False), ("allowed and denied", None, allow({"": ["Foo"]}, {"": ["Foo"]}), False),
        ("others denied", None, allow(None, {"": ["Bar"]}), True), ("denied in another domain", None, allow(None, {"my": ["Foo"]}), True),
        ("no deny list", None, allow(None, {}), True),
        ("another domain, listed", "my", allow({"my": ["Foo"]}), True), ("another domain, listed for the default one", "my", allow({"": ["Foo"]}), False),
        ("another domain, denied", "my", allow(None, {"my": ["Foo"]}), False), ("another domain, denied in the default one", "my", allow(None, {"": ["Foo"]}), True),
        ("the default configuration", None, {}, False),
    ):
        w = OnnxWorld()
        w.schema_of("Foo", domain or "", 1, {5: body(w, "5")})
        w.schema_of("Foo", "" if domain else "my", 1, {5: body(w, "other", "Wrong")})
        m = caller(w, (), (("", 10), ("my", 10)), domain)
        expand(ctx, "choice", cons, w, m, called(ver=5) if yes else PLAIN, cfg)
    w = OnnxWorld()
    w.schema_of("MeanVarianceNormalization", "", 1, {5: body(w, "5")})
    expand(ctx, "choice", "MeanVarianceNormalization by default", w, caller(w, (), op="MeanVarianceNormalization"), called(), {})
    for op in ("CastLike", "Range"):
        w = OnnxWorld()
        w.schema_of(op, "", 1, {5: body(w, "5")})
        expand(ctx, "choice", f"{op} without an allow list", w, caller(w, (), op=op), [(f"onnx.{op}", ["arg0"], [F32(3)]), ("return", [f"onnx.{op}#0"])], allow(None))


def versions(ctx):
    """Which body."""
    for opset in range(1, 13):
        for n, ncd, cd in (("plain", [3, 7], []), ("contextual", [], [3, 7]), ("contextual, then plain", [7, 11], [3, 5]), ("plain, then contextual", [3], [5, 9]), ("both at once", [3, 6], [4, 6]), ("none", [], [])):
            w = OnnxWorld()
            fns = {v: body(w, f"n{v}", f"N{v}", version=v) for v in ncd}
            cds = {v: body(w, f"c{v}", f"C{v}", version=v) for v in cd}
            w.schema_of("Foo", "", 1, fns, cds)
            best = max([v for v in ncd + cd if v <= opset], default=None)
            if best is None:
                want = [PLAIN]
            else:
                # where both kinds are defined for a version either is right
                want = [called(k + str(best), best) for k, vs in (("N", ncd), ("C", cd)) if best in vs]

            def pred(p, want=want):
                t = Tree(p)
                if len(t.main) != 1:
                    return f"{len(t.main)} functions are public"
                ms = [same_ops(t, t.func(obj(f"func{t.main[0].idx}"))[2], x) for x in want]
                return None if None in ms else ms[0]

            for order, opsets in (("", (("", opset),)), (" among others", (("my", 3), ("", opset), ("your", 99)))):
                if order and opset % 3:
                    continue
                decide(ctx, "version", f"{n}, opset {opset}{order}", import_model(ctx, w, "version", caller(w, (), opsets), allow(None)), pred)
    # the operator's own version
    for opset, inner in ((6, "Old"), (7, "New"), (12, "New")):
        w = OnnxWorld()
        w.schema_of("Foo", "", 1, {3: body(w, "o", "Old")})
        w.schema_of("Foo", "", 7, {7: body(w, "n", "New")})
        expand(ctx, "version", f"a new operator version, opset {opset}", w, caller(w, (), (("", opset),)), called(inner), allow(None))


def contextual(ctx):
    """A body that depends on its context is asked for with the node and the types of its inputs."""
    w = OnnxWorld()
    s = w.schema_of("Foo", "", 1, {}, {5: body(w, "5", ins=("a", "b", "c"), outs=("d",))})
    t = [w.tensor_type("tx", [2]), w.tensor_type("ty", [4], "INT64")]
    node = w.nodep("Foo", ["y", "", "x"], ["o"], [w.attr("k", "INT", i=obj("I"))])
    g = w.graphp("main", [w.info("x", None, type=t[0]), w.info("y", None, type=t[1])], [w.info("o", [3])], [node])
    m = w.model(g, (("", 10),))
    seen = {}

    def hook(it, recv, args, kw, n):
        if freeze(recv) == s:
            xs = it.resolve(args[2])
            seen["args"] = (it.resolve(args[0]), freeze(it.resolve(args[1])), [freeze(it.resolve(x)) for x in xs.items] if isinstance(xs, Lst) else xs)
            seen["want"] = (K(5), w.bytes_of(it, node), [w.bytes_of(it, t[1]), K(b""), w.bytes_of(it, t[0])])
        return w.body(it, recv, "cds", args)

    w.models[".get_context_dependent_function_with_opset_version"] = hook

    def pred(p):
        if not seen:
            return "the body is not asked for"
        for i, what in enumerate(("version", "node", "types of the inputs")):
            if seen["args"][i] != seen["want"][i]:
                return f"the body is asked for with a different {what}"
        return None

    decide(ctx, "version", "context of a contextual body", import_model(ctx, w, "contextual", m, allow(None)), pred)


def signatures(ctx):
    """Inputs and outputs of the body are those of the node, in order."""
    for cons, ins, outs, fin, fout in (
        ("several", ["y", "x", "y"], ["p", "o"], ["a", "b", "c"], ["q", "r"]), ("same names as outside", ["x", "y"], ["o"], ["y", "x"], ["o"]),
        ("no inputs", [], ["o"], [], ["q"]), ("an omitted input", ["x", "", "y"], ["o"], ["a", "b", "c"], ["q"]),
        ("fewer outputs than defined", ["x"], ["o"], ["a"], ["q", "r"]),
    ):
        w = OnnxWorld()
        # the body returns its values through two nodes, in the opposite order
        nodes = [w.nodep("In", list(fin), list(reversed(fout)))]
        for f in fout:
            w.inferred[f] = w.tensor_type(f"inf:{f}", [40 + fout.index(f)])
        w.schema_of("Foo", "", 1, {5: w.function("f", fin, fout, nodes, [("", 5)])})
        dims = {"o": 3, "p": 4}
        g = w.graphp("main", [w.info("x", [1]), w.info("y", [2])], [w.info(o, [dims[o]]) for o in ("o", "p") if o in outs], [w.nodep("Foo", ins, outs)])
        tin = [{"x": F32(1), "y": F32(2), "": "!torch.none"}[i] for i in ins]
        tout = [F32(dims[o]) for o in outs]
        used = fout[: len(outs)]
        res = [tout[used.index(f)] if f in used else F32(40 + fout.index(f)) for f in reversed(fout)]
        f = (tin, tout, [("onnx.In", [f"arg{i}" for i in range(len(fin))], res), ("return", [f"onnx.In#{len(fout) - 1 - i}" for i in range(len(used))])])
        arg = {"x": "arg0", "y": "arg1", "": "none"}
        expand(ctx, "signature", cons, w, w.model(g, (("", 10),)), [("call", [arg[i] for i in ins], f), ("return", [f"call0#{outs.index(o)}" for o in ("o", "p") if o in outs])], allow(None))
    # outputs that the node omits or that have no type; initializers as inputs
    for cons, outs, typed in (
        ("an omitted output", ["o", "", "p"], "op"), ("an omitted first output", ["", "p", "o"], "op"), ("two omitted outputs", ["", "", "o"], "o"),
        ("an output without a type", ["o", "m", "p"], "op"), ("omitted and without a type", ["m", "", "o"], "o"), ("a single output without a type", ["m"], ""),
    ):
        for ctxual in (False, True):
            w = OnnxWorld()
            fout = ["q", "r", "s"]
            for f in fout:
                w.inferred[f] = w.tensor_type(f"inf:{f}", [40 + fout.index(f)])
            fn = w.function("f", ["a"], fout, [w.nodep("In", ["a"], list(reversed(fout)))], [("", 5)])
            w.schema_of("Foo", "", 1, {} if ctxual else {5: fn}, {5: fn} if ctxual else {})
            dims = {"o": 3, "p": 4}
            g = w.graphp("main", [w.info("x", [1])], [w.info(o, [dims[o]]) for o in ("o", "p") if o in outs], [w.nodep("Foo", ["x"], outs)])
            ty = {n: F32(dims[o]) if o in dims else F32(40 + i) for i, (n, o) in enumerate(zip(fout, outs))}
            used = [(n, o) for n, o in zip(fout, outs) if o]
            f = ([F32(1)], [ty[n] for n, _ in used], [("onnx.In", ["arg0"], None), ("return", [f"onnx.In#{2 - fout.index(n)}" for n, _ in used])])
            at = [o for _, o in used]
            expand(ctx, "signature", cons + (", contextual" if ctxual else ""), w, w.model(g, (("", 10),)), [("call", ["arg0"], f), ("return", [f"call0#{at.index(o)}" for o in ("o", "p") if o in outs])], allow(None))
    for declared in (False, True):
        w = OnnxWorld()
        w.schema_of("Foo", "", 1, {5: body(w, "5", ins=("a", "b"), outs=("c",))})
        inits = [w.tensor("w", [7, 8], "INT64"), w.tensor("u", [], "FLOAT")]
        ins = [w.info("x", [1])] + ([w.info("w", [7, 8], "INT64")] if declared else [])
        g = w.graphp("main", ins, [w.info("o", [3]), w.info("p", [3])], [w.nodep("Foo", ["x", "w"], ["o"]), w.nodep("Foo", ["u", "x"], ["p"])], inits)
        f = lambda *t: (list(t), [F32(3)], [("onnx.Inner", ["arg0", "arg1"], [F32(3)]), ("return", ["onnx.Inner#0"])])
        expand(ctx, "signature", f"initializers as inputs, declared {declared}", w, w.model(g, (("", 10),)), [("call", ["arg0", "T_w"], f(F32(1), "!torch.vtensor<[7,8],si64>")), ("call", ["T_u", "arg0"], f(F32(), F32(1))), ("return", ["call0#0", "call1#0"])], allow(None))
    # a body of several nodes with values between them
    w = OnnxWorld()
    nodes = [w.nodep("A", ["a"], ["t"]), w.nodep("B", ["t", "a"], ["u", "v"]), w.nodep("C", ["v", "t", "u"], ["b"])]
    for i, n in enumerate("tuv"):
        w.inferred[n] = w.tensor_type("inf:" + n, [50 + i])
    w.schema_of("Foo", "", 1, {5: w.function("f", ["a"], ["b"], nodes, [("", 5)])})
    f = ([F32(2)], [F32(3)], [("onnx.A", ["arg0"], [F32(50)]), ("onnx.B", ["onnx.A#0", "arg0"], [F32(51), F32(52)]), ("onnx.C", ["onnx.B#1", "onnx.A#0", "onnx.B#0"], [F32(3)]), ("return", ["onnx.C#0"])])
    expand(ctx, "signature", "a body of several nodes", w, caller(w), [("call", ["arg0"], f), ("return", ["call0#0"])], allow(None))
    # the function's own opsets
    w = OnnxWorld()
    w.schema_of("Foo", "", 1, {5: w.function("f", ["a"], ["b"], [w.nodep("In", ["a"], ["b"], domain="lib")], [("lib", 4), ("", 6)])})
    expand(ctx, "signature", "a body of another domain", w, caller(w), called("In", 6), allow({"": ["Foo"]}))


def with_attr(ctx, rule, cons, w, defaults, inner, given, want, outer=()):
    """The body's node has the attributes `inner`, the caller those in `given`."""
    w.schema_of("Foo", "", 1, {5: body(w, "5", attrs=inner)}, {}, defaults)
    f = ([F32(2)], [F32(3)], [("onnx.Inner", ["arg0"], [F32(3)], want, []), ("return", ["onnx.Inner#0"])])
    expand(ctx, rule, cons, w, caller(w, given), [("call", ["arg0"], f), ("return", ["call0#0"])], allow(None))


KINDS = {"INT": ("i", lambda n: obj(f"I{n}")), "FLOAT": ("f", lambda n: obj(f"F{n}")), "STRING": ("s", lambda n: obj(f"S{n}")),
         "INTS": ("ints", lambda n: [obj(f"I{n}.0"), obj(f"I{n}.1")]), "FLOATS": ("floats", lambda n: [obj(f"F{n}.0")]), "STRINGS": ("strings", lambda n: [obj(f"S{n}.0"), obj(f"S{n}.1")])}


def attributes(ctx):
    for kind, (f, val) in KINDS.items():
        A = lambda w, n, i, tag="": w.attr(n, kind, tag=tag, **{f: val(i)})
        R = lambda w, n, ref: w.attr(n, kind, tag="ref", ref_attr_name=ref)
        w = OnnxWorld()
        with_attr(ctx, "attribute", f"a {kind} of the body", w, {"k": None}, [A(w, "k", 1)], [A(w, "k", 2, "c")], {"k": (kind, val(1))})
        w = OnnxWorld()
        with_attr(ctx, "attribute", f"a {kind} of the caller", w, {"k": None}, [R(w, "k", "k")], [A(w, "k", 2)], {"k": (kind, val(2))})
        w = OnnxWorld()
        with_attr(ctx, "attribute", f"a {kind} of the caller instead of the default", w, {"k": A(w, "k", 3, "d")}, [R(w, "k", "k")], [A(w, "k", 2)], {"k": (kind, val(2))})
        w = OnnxWorld()
        with_attr(ctx, "attribute", f"a default {kind}", w, {"k": A(w, "k", 3, "d"), "l": A(w, "l", 4, "d")}, [R(w, "k", "k")], [A(w, "l", 2)], {"k": (kind, val(3))})
        w = OnnxWorld()
        with_attr(ctx, "attribute", f"a {kind} without a value", w, {"k": None, "l": None}, [R(w, "k", "k"), A(w, "m", 1)], [A(w, "l", 2)], {"m": (kind, val(1))})
        w = OnnxWorld()
        with_attr(ctx, "attribute", f"a {kind} of another name", w, {"k": None, "l": None}, [R(w, "k", "l")], [A(w, "k", 1, "c"), A(w, "l", 2, "c")], {"k": (kind, val(2))})
        w = OnnxWorld()
        with_attr(ctx, "attribute", f"a default {kind} of another name", w, {"k": A(w, "k", 3, "d"), "l": A(w, "l", 4, "d")}, [R(w, "k", "l")], [A(w, "k", 1, "c")], {"k": (kind, val(4))})
    w = OnnxWorld()
    t = w.tensor("n", [2, 3])
    with_attr(ctx, "attribute", "a tensor of the caller", w, {"k": None}, [w.attr("v", "TENSOR", tag="ref", ref_attr_name="k")], [w.attr("k", "TENSOR", t=t)], {"v": ("TENSOR", (t, [2, 3], "FLOAT", "raw_data"))})
    # several, in any order; values that are false
    for sl in (1, -1):
        w = OnnxWorld()
        inner = [w.attr("a", "INT", ref_attr_name="p"), w.attr("b", "INT", i=7), w.attr("c", "INT", ref_attr_name="q"), w.attr("d", "INT", ref_attr_name="r"), w.attr("e", "INT", ref_attr_name="p"), w.attr("f", "INT", ref_attr_name="s")]
        given = [w.attr("s", "INT", tag="c", i=5), w.attr("p", "INT", tag="c", i=0), w.attr("z", "INT", tag="c", i=9)]
        with_attr(ctx, "attribute", f"several attributes, {sl}", w, {"p": w.attr("p", "INT", tag="d", i=1), "q": w.attr("q", "INT", tag="d", i=0), "r": None, "s": w.attr("s", "INT", tag="d", i=2), "z": None}, inner[::sl], given[::sl],
                  {"a": ("INT", K(0)), "b": ("INT", K(7)), "c": ("INT", K(0)), "e": ("INT", K(0)), "f": ("INT", K(5))})
    # every node of the body binds its own
    w = OnnxWorld()
    nodes = [w.nodep("A", ["a"], ["t"], [w.attr("k", "INT", tag="1", ref_attr_name="p")]), w.nodep("B", ["t"], ["b"], [w.attr("k", "INT", tag="2", ref_attr_name="q"), w.attr("l", "INT", tag="2", ref_attr_name="p")])]
    w.inferred["t"] = w.tensor_type("inf:t", [9])
    w.schema_of("Foo", "", 1, {5: w.function("f", ["a"], ["b"], nodes, [("", 5)])}, {}, {"p": None, "q": None})
    f = ([F32(2)], [F32(3)], [("onnx.A", ["arg0"], [F32(9)], {"k": ("INT", K(1))}, []), ("onnx.B", ["onnx.A#0"], [F32(3)], {"k": ("INT", K(2)), "l": ("INT", K(1))}, []), ("return", ["onnx.B#0"])])
    expand(ctx, "attribute", "attributes of several nodes", w, caller(w, [w.attr("p", "INT", tag="c", i=1), w.attr("q", "INT", tag="c", i=2)]), [("call", ["arg0"], f), ("return", ["call0#0"])], allow(None))


def regions(ctx):
    """References within the graphs of the body's nodes."""
    for depth in (1, 2, 3):
        w = OnnxWorld()
        mk = lambda i: [w.attr("k", "INT", tag=f"k{i}", ref_attr_name="p"), w.attr("l", "INT", tag=f"l{i}", ref_attr_name="q"), w.attr("m", "INT", tag=f"m{i}", ref_attr_name="r"), w.attr("n", "INT", tag=f"n{i}", i=70 + i)]
        bound = lambda i: {"k": ("INT", K(5)), "l": ("INT", K(6)), "n": ("INT", K(70 + i))}
        g, want = None, []
        for i in range(depth, 0, -1):
            attrs = mk(i) + ([w.attr("g", "GRAPH", tag=f"g{i}", g=g)] if g is not None else [])
            g = w.graphp(f"s{i}", [], [w.info(f"r{i}", [20 + i])], [w.nodep(f"S{i}", ["a"], [f"r{i}"], attrs)])
            want = [([], [(f"onnx.S{i}", ["arg0"], [F32(20 + i)], bound(i), want), ("return", [f"onnx.S{i}#0"])])]
        attrs = mk(0) + [w.attr("g", "GRAPH", g=g)]
        w.schema_of("Foo", "", 1, {5: body(w, "5", attrs=attrs)}, {}, {"p": None, "q": w.attr("q", "INT", tag="d", i=6), "r": None})
        f = ([F32(2)], [F32(3)], [("onnx.Inner", ["arg0"], [F32(3)], bound(0), want), ("return", ["onnx.Inner#0"])])
        expand(ctx, "attribute", f"references in graphs of depth {depth}", w, caller(w, [w.attr("p", "INT", tag="c", i=5)]), [("call", ["arg0"], f), ("return", ["call0#0"])], allow({"": ["Foo"]}))
    # two branches
    w = OnnxWorld()
    br = lambda n, ref: w.attr(n, "GRAPH", g=w.graphp("g" + n, [], [w.info("r" + n, [9])], [w.nodep("S" + n, ["a"], ["r" + n], [w.attr("k", "INT", tag=n, ref_attr_name=ref)])]))
    w.schema_of("Foo", "", 1, {5: body(w, "5", attrs=[br("then", "p"), br("else", "q")])}, {}, {"p": None, "q": None})
    r = lambda n, i: ([], [(f"onnx.S{n}", ["arg0"], [F32(9)], {"k": ("INT", K(i))}, []), ("return", [f"onnx.S{n}#0"])])
    f = ([F32(2)], [F32(3)], [("onnx.Inner", ["arg0"], [F32(3)], {}, [r("else", 2), r("then", 1)]), ("return", ["onnx.Inner#0"])])
    expand(ctx, "attribute", "references in two branches", w, caller(w, [w.attr("p", "INT", tag="c", i=1), w.attr("q", "INT", tag="c", i=2)]), [("call", ["arg0"], f), ("return", ["call0#0"])], allow({"": ["Foo"]}))


def histories(ctx):
    """Several calls in one model: each calls a function with its own types and attribute values."""

    def model(w, calls, opsets=(("", 10),)):
        """calls: (op, domain, input dims, output dims, attributes)"""
        ins, outs, nodes = [], [], []
        for i, (op, dom, di, do, attrs) in enumerate(calls):
            ins.append(w.info(f"x{i}", *di) if isinstance(di, tuple) else w.info(f"x{i}", di))
            outs.append(w.info(f"o{i}", *do) if isinstance(do, tuple) else w.info(f"o{i}", do))
            nodes.append(w.nodep(op, [f"x{i}"], [f"o{i}"], [w.attr(k, "INT", tag=f"{i}", i=v) for k, v in attrs], domain=dom))
        return w.model(w.graphp("main", ins, outs, nodes), opsets)

    def ty(d):
        return text_of(d[0], d[1]) if isinstance(d, tuple) else text_of(d)

    def text_of(d, el="FLOAT"):
        return f"!torch.vtensor<[{','.join(map(str, d))}],{ {'FLOAT': 'f32', 'INT64': 'si64', 'INT32': 'si32'}[el] }>"

    def run(cons, calls, inner=None, opsets=(("", 10),), contextual=False):
        w = OnnxWorld()
        for op, dom in sorted({(c[0], c[1] or "") for c in calls}):
            b = body(w, f"{dom}{op}", f"In{dom}{op}", attrs=[w.attr("k", "INT", tag=f"{dom}{op}", ref_attr_name="p")])
            w.schema_of(op, dom, 1, {} if contextual else {5: b}, {5: b} if contextual else {}, {"p": w.attr("p", "INT", tag=f"d{dom}{op}", i=0), "q": None})
        want = []
        for i, (op, dom, di, do, attrs) in enumerate(calls):
            k = dict(attrs).get("p", 0)
            n = f"onnx.In{dom or ''}{op}"
            want.append(("call", [f"arg{i}"], ([ty(di)], [ty(do)], [(n, ["arg0"], [ty(do)], {"k": ("INT", K(k))}, []), ("return", [n + "#0"])])))
        want.append(("return", [f"call{i}#0" for i in range(len(calls))]))
        expand(ctx, "history", cons + (", contextual" if contextual else ""), w, model(w, calls, opsets), want, allow(None))

    for c in (False, True):
        run("equal calls", [("Foo", None, [2], [3], ())] * 3, contextual=c)
        run("different input extents", [("Foo", None, [2], [3], ()), ("Foo", None, [4], [3], ()), ("Foo", None, [2], [3], ())], contextual=c)
        run("different input ranks", [("Foo", None, [2], [3], ()), ("Foo", None, [2, 2], [3], ()), ("Foo", None, [], [3], ())], contextual=c)
        run("different input elements", [("Foo", None, ([2], "FLOAT"), [3], ()), ("Foo", None, ([2], "INT64"), [3], ()), ("Foo", None, ([2], "INT32"), [3], ())], contextual=c)
        run("different output types", [("Foo", None, [2], [3], ()), ("Foo", None, [2], [4], ()), ("Foo", None, [2], ([3], "INT64"), ())], contextual=c)
        run("different attribute values", [("Foo", None, [2], [3], (("p", 1),)), ("Foo", None, [2], [3], (("p", 2),)), ("Foo", None, [2], [3], ()), ("Foo", None, [2], [3], (("p", 1),))], contextual=c)
        run("the same value of different attributes", [("Foo", None, [2], [3], (("p", 1),)), ("Foo", None, [2], [3], (("q", 1),))], contextual=c)
        run("different operators", [("Foo", None, [2], [3], ()), ("Bar", None, [2], [3], ()), ("Foo", None, [2], [3], ())], contextual=c)
        run("different domains", [("Foo", None, [2], [3], ()), ("Foo", "my", [2], [3], ()), ("Foo", None, [2], [3], ())], opsets=(("", 10), ("my", 10)), contextual=c)
    # two inputs of swapped types
    w = OnnxWorld()
    w.schema_of("Foo", "", 1, {5: body(w, "5", ins=("a", "b"), outs=("c",))})
    g = w.graphp("main", [w.info("x", [1]), w.info("y", [2])], [w.info("o", [3]), w.info("p", [3])], [w.nodep("Foo", ["x", "y"], ["o"]), w.nodep("Foo", ["y", "x"], ["p"])])
    f = lambda *d: ([F32(i) for i in d], [F32(3)], [("onnx.Inner", ["arg0", "arg1"], [F32(3)]), ("return", ["onnx.Inner#0"])])
    expand(ctx, "history", "swapped inputs", w, w.model(g, (("", 10),)), [("call", ["arg0", "arg1"], f(1, 2)), ("call", ["arg1", "arg0"], f(2, 1)), ("return", ["call0#0", "call1#0"])], allow(None))


def nested(ctx):
    def scene(w, ver_in=4, inner_attrs=True):
        inner = w.function("g", ["c"], ["d"], [w.nodep("Leaf", ["c"], ["d"], [w.attr("k", "INT", tag="leaf", ref_attr_name="q")])], [("", 3)])
        w.schema_of("Bar", "", 1, {3: inner, 8: body(w, "late", "Wrong")}, {}, {"q": w.attr("q", "INT", tag="dq", i=8), "p": None})
        outer = w.function("f", ["a"], ["b"], [w.nodep("Bar", ["a"], ["t"], [w.attr("q", "INT", tag="bar", ref_attr_name="p")]), w.nodep("Mid", ["t"], ["b"])], [("", 5)])
        w.inferred["t"] = w.tensor_type("inf:t", [7])
        w.schema_of("Foo", "", 1, {5: outer}, {}, {"p": None})

    def want(k, expand_bar=True):
        leaf = ([F32(2)], [F32(7)], [("onnx.Leaf", ["arg0"], [F32(7)], {"k": ("INT", K(k))}, []), ("return", ["onnx.Leaf#0"])], K(3))
        bar = ("call", ["arg0"], leaf) if expand_bar else ("onnx.Bar", ["arg0"], [F32(7)], {"q": ("INT", K(k))}, [])
        f = ([F32(2)], [F32(3)], [bar, ("onnx.Mid", ["call0#0" if expand_bar else "onnx.Bar#0"], [F32(3)]), ("return", ["onnx.Mid#0"])], K(5))
        return [("call", ["arg0"], f), ("return", ["call0#0"])]

    for cons, cfg, yes in (("no lists", allow(None), True), ("both listed", allow({"": ["Foo", "Bar"]}), True), ("only the outer one listed", allow({"": ["Foo"]}), False), ("the inner one denied", allow(None, {"": ["Bar"]}), False)):
        w = OnnxWorld()
        scene(w)
        w.schema_of("Mid", ""), w.schema_of("Leaf", "")
        expand(ctx, "nested", f"a function in a function, {cons}", w, caller(w, [w.attr("p", "INT", tag="c", i=4)]), want(4, yes), cfg)
    w = OnnxWorld()
    scene(w)
    w.schema_of("Mid", ""), w.schema_of("Leaf", "")
    expand(ctx, "nested", "a default below a dropped attribute", w, caller(w), want(8), allow(None))
    # a call in a graph of a node reads outer values
    w = OnnxWorld()
    w.schema_of("Foo", "", 1, {5: body(w, "5", ins=("a", "b", "c"), outs=("d",))})
    w.schema_of("If", "")
    g = w.graphp("then", [w.info("i", [6])], [w.info("r", [9])], [w.nodep("Foo", ["t", "i", "x"], ["r"])])
    ns = [w.nodep("A", ["x"], ["t"]), w.nodep("If", ["x"], ["o"], [w.attr("g", "GRAPH", g=g)])]
    w.schema_of("A", "")
    m = w.model(w.graphp("main", [w.info("x", [2])], [w.info("o", [3])], ns, [], [w.info("t", [5])]), (("", 10),))
    f = ([F32(5), F32(6), F32(2)], [F32(9)], [("onnx.Inner", ["arg0", "arg1", "arg2"], [F32(9)]), ("return", ["onnx.Inner#0"])])
    reg = ([F32(6)], [("call", ["onnx.A#0", "inner1.0", "arg0"], f), ("return", ["call0#0"])])
    w.schema_of("Inner", "")
    expand(ctx, "nested", "a call within a graph", w, m, [("onnx.A", ["arg0"], [F32(5)]), ("onnx.If", ["arg0"], [F32(3)], {}, [reg]), ("return", ["onnx.If#0"])], allow(None))
    # the same call inside and outside
    w = OnnxWorld()
    for n in ("If", "Inner"):
        w.schema_of(n, "")
    w.schema_of("Foo", "", 1, {5: body(w, "5")})
    g = w.graphp("then", [], [w.info("r", [3])], [w.nodep("Foo", ["x"], ["r"])])
    m = w.model(w.graphp("main", [w.info("x", [2])], [w.info("o", [4]), w.info("p", [3])], [w.nodep("If", ["x"], ["o"], [w.attr("g", "GRAPH", g=g)]), w.nodep("Foo", ["x"], ["p"])]), (("", 10),))
    f = ([F32(2)], [F32(3)], [("onnx.Inner", ["arg0"], [F32(3)]), ("return", ["onnx.Inner#0"])])
    expand(ctx, "nested", "one call within a graph and one behind it", w, m, [("onnx.If", ["arg0"], [F32(4)], {}, [([], [("call", ["arg0"], f), ("return", ["call0#0"])])]), ("call", ["arg0"], f), ("return", ["onnx.If#0", "call0#0"])], allow(None))


def run(ctx):
    ctx.rule("choice", "exactly the nodes that the allow and deny lists select are expanded")
    ctx.rule("version", "the body is the latest one defined for the model's opset of the node's domain")
    ctx.rule("signature", "the function is private and maps the node's inputs to its outputs through the body's nodes, with their types and the body's opset")
    ctx.rule("attribute", "an attribute reference becomes the caller's value or the default under its own name, or is dropped, at every depth")
    ctx.rule("history", "calls that differ in operator, types or attribute values do not share a function")
    ctx.rule("nested", "functions within functions and within graphs are expanded the same way")
    for g in (lists, versions, contextual, signatures, attributes, regions, histories, nested):
        ctx.group(g)
    ctx.floor("choice", 15)
    ctx.floor("version", 60)
    ctx.floor("attribute", 40)
    ctx.floor("history", 15)
    ctx.floor("nested", 6)
