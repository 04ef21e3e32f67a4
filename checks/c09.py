"""C09: arithmetic on symbolic scalars computes what the Python expression does."""

from sa.fxworld import *
from checks.c05 import emitted, op_name, lit, REJ

# Python operator -> PyTorch's scalar operator (aten::<name>.<overload>) of the same meaning
MEANING = {
    "truediv": "div", "mul": "mul", "add": "add", "sub": "sub", "lt": "lt", "le": "le", "ge": "ge", "gt": "gt", "ne": "ne",
    "eq": "eq", "mod": "remainder", "floordiv": "floordiv", "neg": "neg", "pow": "pow",
}
MIRROR = {"add": "add", "mul": "mul", "ne": "ne", "eq": "eq", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
PARAMS = {"int": ["int", "int"], "float": ["float", "float"], "float_int": ["float", "int"], "int_float": ["int", "float"]}
COMPARE = ("lt", "le", "ge", "gt", "ne", "eq")
OVERLOADS = {
    "div": ["int", "float"], "mul": ["int", "float", "int_float", "float_int"], "add": ["int", "float", "int_float", "float_int"],
    "sub": ["int", "float", "int_float", "float_int"], "remainder": ["int", "float", "int_float", "float_int"],
    "floordiv": ["int", "float", "int_float", "float_int"], "neg": ["int", "float"],
    **{c: ["int", "float", "int_float", "float_int"] for c in COMPARE},
}
SYM = {"int": "torch.SymInt", "float": "torch.SymFloat", "bool": "torch.SymBool"}
MLIR = {"int": "!torch.int", "float": "!torch.float", "bool": "!torch.bool"}


def sym(w, name, kind):
    inner = w.obj(name + ".node", "torch.fx.experimental.sym_node.SymNode", pytype=Q("builtins." + kind))
    return w.obj(name + ".sym", SYM[kind], node=inner)


def scalar_world():
    w = World()
    for n, ovs in OVERLOADS.items():
        for o in ovs:
            ps = PARAMS[o] if n != "neg" else [o]
            w.overload(f"aten::{n}", [("ab"[i], w.jit("IntType" if k == "int" else "FloatType")) for i, k in enumerate(ps)], overload=o, q=f"torch.ops.aten.{n}.{o}")
    w.overload("aten::Float", [("a", w.jit("NumberType"))], overload="Scalar", q="torch.ops.aten.Float.Scalar")
    made = []

    def make_node(it, recv, args, kw, node):
        names = ["graph", "name", "op", "target", "args", "kwargs", "return_type"]
        d = {**dict(zip(names, args)), **kw}
        made.append(d)
        n = w.obj(f"made{len(it.path.events)}", NODE)
        it.types[n] = NODE
        for k, v in d.items():
            it.attrs[(n, k)] = v
        it.attrs[(n, "meta")] = Dct([])
        it.attrs[(n, "users")] = Dct([])
        return n

    def sym_float(it, recv, args, kw, node):
        t = T("obj", K("sym_float"), freeze(args[0]))
        it.types[t] = "torch.SymFloat"
        inner = T("obj", K("sym_float.node"), freeze(args[0]))
        it.attrs[(t, "node")] = inner
        it.attrs[(inner, "pytype")] = Q("builtins.float")
        return t

    w.models["torch.fx.Node"] = make_node
    w.models["Node"] = make_node
    w.models["torch.sym_float"] = sym_float
    return w


def operand(w, i, kind, node, opaque=False, sign=0):
    """(abstract argument, description, kind, node)"""
    if node:
        n = w.node(f"s{i}", "placeholder", K(f"s{i}"), val=sym(w, f"s{i}", kind))
        return n
    if not opaque:
        return (K(3 + i) if kind == "int" else K(2.5 + i)) if not sign else (K(-3 - i) if kind == "int" else K(-2.5 - i))
    # any number at all
    k = w.obj(f"k{i}", "builtins." + kind)
    w.types[T("float", k)] = "builtins.float"
    return k


def pyop(w, name):
    q = Q("_operator." + name)
    w.types[q] = "types.BuiltinFunctionType"
    w.attrs[(q, "__name__")] = K(name)
    return q


def base(v, x):
    """(description of the scalar, its kind): conversions to float are transparent."""
    p = v.producer(x)
    if p is not None and p[0].name == "torch.aten.Float.Scalar":
        d, _ = base(v, p[0].operands[0])
        return d, "float" if p[0].results == [ty("!torch.float")] else "badtype"
    c = v.const(x)
    if c is not None:
        kind, val = c
        if kind == "float" and isinstance(val, K) and float(val.v).is_integer():
            return f"num:{int(val.v)}", "float"
        if kind == "float" and isinstance(val, T) and (c := call_of(val, "float")) and c[0]:
            val = c[0][0]
        if kind == "float" and isinstance(val, T) and val.op == "float":
            val = val.args[0]
        return f"num:{val.v if isinstance(val, K) else show(val)}", kind
    o = origin(v, x)
    return o, None


def binary(ctx):
    for name in MEANING:
        if name in ("neg", "pow"):
            continue
        for ka in ("int", "float"):
            for kb in ("int", "float"):
                for na, nb in ((1, 1), (1, 0), (0, 1)):
                    expression(ctx, name, [(ka, na), (kb, nb)])
                    if not na or not nb:
                        expression(ctx, name, [(ka, na), (kb, nb)], opaque=True)
                        expression(ctx, name, [(ka, na), (kb, nb)], sign=1)
    for k in ("int", "float"):
        expression(ctx, "neg", [(k, 1)])


def expression(ctx, name, shape, opaque=False, sign=0):
    w = scalar_world()
    args = [operand(w, i, k, n, opaque, sign) for i, (k, n) in enumerate(shape)]
    nodes = [a for a, (_, n) in zip(args, shape) if n]
    float_ = any(k == "float" for k, _ in shape) or name == "truediv"
    res = "bool" if name in COMPARE else "float" if float_ else "int"
    n = w.node("n", "call_function", pyop(w, name), args, val=sym(w, "n", res))
    cons = f"{name}({', '.join(('symbolic ' if s else 'literal ') + k for k, s in shape)})" + (" of any value" if opaque else " below zero" if sign else "")
    ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", nodes + [n, w.output(n)])
    kinds, want, j = {}, [], 0
    for (k, s), a in zip(shape, args):
        d = f"arg{j}" if s else f"num:{a.v if isinstance(a, K) else show(a)}"
        j += s
        want.append(d)
        kinds[d] = k

    def pred(p):
        v = View(p)
        real = [o for o in v.real() if o.name != "torch.aten.Float.Scalar"]
        if len(real) != 1 or not real[0].name.startswith("torch.aten."):
            return f"emits {real}"
        o = real[0]
        _, _, opn, ov = o.name.split(".") if o.name.count(".") == 3 else (0, 0, o.name, "")
        got = [base(v, x) for x in o.operands]
        for (d, k), decl in zip(got, PARAMS[ov] if ov in PARAMS else []):
            k = k or kinds.get(d)
            if k != decl:
                return f"{o.name} takes {decl} and gets the {k} {d}"
        if ov not in PARAMS:
            return f"{o.name} is not an operation on scalars of these kinds"
        seen = [d for d, _ in got]
        m = MEANING[name]
        ok = (opn == m and seen == want) or (len(seen) == 2 and MIRROR.get(name) and opn == MEANING[MIRROR[name]] and seen == want[::-1])
        if not ok:
            return f"imported as {o.name}({', '.join(seen)}) instead of {m}({', '.join(want)})"
        if o.results != [ty(MLIR[res])]:
            return f"{o.name} has the result {show(o.results)}, expected {MLIR[res]}"
        return None if origins(v, v.returned()) == [o.name.removeprefix("torch.aten.")] else "the result is not what is returned"

    decide(ctx, "scalar", cons, ps, pred)


def reject(ctx):
    """Python operators without a counterpart are errors."""
    for name in ("pow", "and_", "or_", "lshift", "xor", "abs", "floor", "max"):
        w = scalar_world()
        a, b = operand(w, 0, "int", 1), operand(w, 1, "int", 1)
        n = w.node("n", "call_function", pyop(w, name), [a, b], val=sym(w, "n", "int"))
        ps = import_graph(ctx, w, f"import_stateless_graph[{name}]", [a, b, n, w.output(n)])

        def pred(p):
            v = View(p)
            r = v.real()
            if name in MEANING and len(r) == 1 and r[0].name == f"torch.aten.{MEANING[name]}.int" and origins(v, r[0].operands) == ["arg0", "arg1"]:
                return None
            return f"{name} is imported as {r}"

        decide(ctx, "reject", name, ps, pred, may_raise=("AssertionError", "NotImplementedError", "KeyError", "TypeError", "AttributeError"))
    w = scalar_world()
    a = operand(w, 0, "int", 1)
    t = w.obj("pyfn", "types.FunctionType")
    n = w.node("n", "call_function", t, [a], val=sym(w, "n", "int"))
    ps = import_graph(ctx, w, "import_stateless_graph[Python function on a symbolic scalar]", [a, n, w.output(n)])
    decide(ctx, "reject", "Python function", ps, lambda p: None, must_raise=REJ)


SIZES = [("sym_size", "default", ["T"], "list", "size"), ("sym_size", "int", ["T", "i"], "int", "size"), ("sym_stride", "default", ["T"], "list", "stride"),
         ("sym_stride", "int", ["T", "i"], "int", "stride"), ("sym_numel", "default", ["T"], "int", "numel")]


def sizes(ctx):
    """sym_size and friends become the operation they are named after."""
    for name, ov, params, res, plain in SIZES:
        if res == "list":
            continue
        for i in (0, 1, -1):
            w = scalar_world()
            for nm in (name, plain):
                w.overload("aten::" + nm, [("self", w.jit("TensorType"))] + ([("dim", w.jit("IntType"))] if "i" in params else []),
                           overload="" if ov == "default" else ov, q=f"torch.ops.aten.{nm}.{ov}")
            x = w.tensor_node("x", [7, 8])
            y = w.tensor_node("y", [7, 8])
            args = [x] + ([K(i)] if "i" in params else [])
            n = w.node("n", "call_function", Q(f"torch.ops.aten.{name}.{ov}"), args, val=sym(w, "n", "int"))
            cons = f"{name}.{ov}{'(' + str(i) + ')' if 'i' in params else ''}"
            ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", [y, x, n, w.output(n)])
            full = f"torch.aten.{plain}" + ("" if ov == "default" else "." + ov)
            want = ["arg1"] + ([f"int:{i}"] if "i" in params else [])

            def pred(p):
                v = View(p)
                o = v.real()
                if len(o) != 1 or o[0].name != full or origins(v, o[0].operands) != want:
                    return f"emits {o} on {origins(v, o[0].operands) if o else ''}"
                return None if o[0].results == [ty("!torch.int")] else f"result {show(o[0].results)}"

            decide(ctx, "size", cons, ps, pred)


def nested(ctx):
    """A scalar expression of several operators, used as an operand."""
    w = scalar_world()
    a, b = operand(w, 0, "int", 1), operand(w, 1, "float", 1)
    x = w.tensor_node("x", [7])
    m = w.node("m", "call_function", pyop(w, "floordiv"), [a, K(2)], val=sym(w, "m", "int"))
    n = w.node("n", "call_function", pyop(w, "sub"), [b, m], val=sym(w, "n", "float"))
    q = w.node("q", "call_function", pyop(w, "sub"), [m, b], val=sym(w, "q", "float"))
    f = w.tensor_node("f", [5], op="call_function", target=w.overload("aten::foo", [("a", w.jit("TensorType")), ("b", w.jit("FloatType")), ("c", w.jit("IntType"))], overload="x"), args=[x, n, m])
    ps = import_graph(ctx, w, "import_stateless_graph[scalar expression]", [a, b, x, m, n, q, f, w.output(f, q)])

    def expr(v, x):
        p = v.producer(x)
        if p is None or v.const(x) is not None:
            return base(v, x)[0]
        if p[0].name == "torch.aten.Float.Scalar":
            return expr(v, p[0].operands[0])
        return (p[0].name.split(".")[2],) + tuple(expr(v, y) for y in p[0].operands)

    def pred(p):
        v = View(p)
        M_ = ("floordiv", "arg0", "num:2")
        got = [expr(v, x) for x in v.returned()]
        want = [("foo", "arg2", ("sub", "arg1", M_), M_), ("sub", M_, "arg1")]
        return None if got == want else f"imported as {got}, expected {want}"

    decide(ctx, "scalar", "an expression of several operators", ps, pred)


def run(ctx):
    ctx.rule("scalar", "a Python operator on scalars becomes the PyTorch operation of the same meaning, on the same operands, in an overload of their kinds")
    ctx.rule("reject", "operators without such an operation are errors")
    ctx.rule("size", "symbolic size queries become the plain queries on the same tensor and dimension")
    for g in (binary, reject, sizes, nested):
        ctx.group(g)
    ctx.floor("scalar", 100)
    ctx.floor("size", 7)
