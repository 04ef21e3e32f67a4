"""C06: constants and lists."""

from sa.fxworld import *
from checks.c05 import emitted, lit, tens, REJ

CONST_TY = {"int": "!torch.int", "float": "!torch.float", "bool": "!torch.bool", "str": "!torch.str", "none": "!torch.none", "device": "!torch.Device"}


def foo(ctx, w, value, kind, cons, nodes=(), default=False, more=()):
    """Import foo(value) with a parameter of the given kind."""
    params = [("p", kind, value if default else NONE)]
    ovl = w.overload("aten::foo", params, overload="x")
    n = w.tensor_node("n", [5], op="call_function", target=ovl, args=[] if default else [value])
    return import_graph(ctx, w, f"import_stateless_graph[{cons}]", list(nodes) + list(more) + [n, w.output(n)])


def scalars(ctx):
    dev = lambda w: w.obj("dev", "torch.device")
    for val, kind in (
        (TRUE, "BoolType"), (FALSE, "BoolType"), (K(1), "IntType"), (K(0), "IntType"), (K(-1), "IntType"), (K(2**40), "IntType"), (K(-(2**62)), "IntType"),
        (K(1.0), "FloatType"), (K(0.0), "FloatType"), (K(-0.5), "FloatType"), (K(1e300), "FloatType"), (K(1), "NumberType"), (K(1.0), "NumberType"),
        (K(""), "StringType"), (K("abc"), "StringType"), (NONE, "OptionalType"), (K(3), "OptionalType"), (FALSE, "OptionalType"), (K(0.0), "OptionalType"),
        ("dev", "DeviceObjType"), ("dev", "OptionalType"),
    ):
        for default in (False, True):
            w = World()
            v_ = dev(w) if val == "dev" else val
            want = "device" if val == "dev" else lit(val)
            name = want.split(":")[0]
            cons = f"{show(v_)} for {kind}{' (default)' if default else ''}"
            ps = foo(ctx, w, v_, w.jit(kind, w.jit("IntType") if kind == "OptionalType" else None), cons, default=default)

            def pred(p):
                v = View(p)
                o = emitted(v, "torch.aten.foo.x")
                if len(o) != 1 or len(o[0].operands) != 1:
                    return f"{v.ops}"
                c = v.producer(o[0].operands[0])
                if c is None:
                    return f"the operand is {show(o[0].operands[0])}"
                if c[0].results != [ty(CONST_TY[name])]:
                    return f"{cons} becomes a value of type {show(c[0].results)}"
                got = origin(v, o[0].operands[0])
                if name == "device":
                    cc = v.const(o[0].operands[0])
                    if cc[0] != "device" or v_ not in set(walk(cc[1])):
                        return f"the device becomes {cc}"
                elif got != want:
                    return f"{cons} becomes {got}"
                return None

            decide(ctx, "constant", cons, ps, pred)


ELEM = {"IntType": ("int", [K(0), K(5), K(-2)]), "FloatType": ("float", [K(0.0), K(2.5), K(-1.5)]), "BoolType": ("bool", [TRUE, FALSE, TRUE]), "StringType": ("str", [K("b"), K(""), K("a")])}


def lists(ctx):
    def expect(ctx, cons, ps, want, text):
        def pred(p):
            v = View(p)
            o = emitted(v, "torch.aten.foo.x")
            if len(o) != 1 or len(o[0].operands) != 1:
                return f"{v.ops}"
            c = v.producer(o[0].operands[0])
            if c is None or c[0].name != "torch.prim.ListConstruct":
                return f"the list operand is {origin(v, o[0].operands[0])}"
            if origins(v, c[0].operands) != want:
                return f"{cons}: the list holds {origins(v, c[0].operands)}, expected {want}"
            if text and c[0].results != [ty(text)]:
                return f"{cons}: the list has the type {show(c[0].results)}, expected {text}"
            return None

        decide(ctx, "list", cons, ps, pred)

    for kind, (t, vals) in ELEM.items():
        for wrap in ("list", "optional list", "list of optional", "optional list of optional"):
            for items in (vals, vals[:1], vals[::-1], []) + (([vals[0], NONE, vals[1]], [NONE], [NONE, NONE, vals[2]]) if "of optional" in wrap else ()):
                for default in (False, True):
                    w = World()
                    e = w.jit(kind)
                    if "of optional" in wrap:
                        e = w.jit("OptionalType", e)
                    e = w.jit("ListType", e)
                    if wrap.startswith("optional"):
                        e = w.jit("OptionalType", e)
                    arg = Lst(list(items)) if default else ilist(*items)
                    text = f"!torch.list<optional<{t}>>" if "of optional" in wrap else f"!torch.list<{t}>"
                    cons = f"{wrap} of {t}: {[show(i) for i in items]}{' (default)' if default else ''}"
                    ps = foo(ctx, w, arg, e, cons, default=default)
                    expect(ctx, cons, ps, [lit(i) for i in items], text)
    # nodes as elements
    for wrap, perm in (("list", [0, 1, 2]), ("list", [2, 0, 0]), ("list of optional", [1, None, 0]), ("list of optional", [None, 2]), ("optional list", [1, 0])):
        w = World()
        xs = [w.tensor_node(f"x{i}", [7]) for i in range(3)]
        e = w.jit("TensorType")
        if "of optional" in wrap:
            e = w.jit("OptionalType", e)
        e = w.jit("ListType", e)
        if wrap.startswith("optional"):
            e = w.jit("OptionalType", e)
        cons = f"{wrap} of tensors {perm}"
        ps = foo(ctx, w, ilist(*[NONE if i is None else xs[i] for i in perm]), e, cons, nodes=xs)
        expect(ctx, cons, ps, ["none" if i is None else f"arg{i}" for i in perm], "!torch.list<optional<vtensor>>" if "of optional" in wrap else "!torch.list<vtensor>")
    for sym, kind, t, k in (("torch.SymInt", "IntType", "int", K(4)), ("torch.SymFloat", "FloatType", "float", K(0.5)), ("torch.SymBool", "BoolType", "bool", FALSE)):
        w = World()
        s = w.node("s", "placeholder", val=w.obj("s.val", sym))
        cons = f"list of {t} with a symbolic element"
        ps = foo(ctx, w, ilist(k, s, k), w.jit("ListType", w.jit(kind)), cons, nodes=[s])
        expect(ctx, cons, ps, [lit(k), "arg0", lit(k)], f"!torch.list<{t}>")

def reject(ctx):
    def bad(cons, arg, kind, nodes=()):
        w, arg, kind, nodes = arg
        ps = foo(ctx, w, arg, kind, cons, nodes=nodes)
        decide(ctx, "reject", cons, ps, lambda p: None, must_raise=REJ)

    for kind, items, what in (
        ("IntType", [K(1), K(2.0)], "a float among ints"), ("IntType", [TRUE], "a bool among ints"), ("FloatType", [K(1.0), K("s")], "a string among floats"),
        ("BoolType", [TRUE, K(1)], "an int among bools"), ("IntType", [K(1), NONE], "None in a list of int"), ("FloatType", [NONE], "None in a list of float"),
        ("StringType", [K("a"), NONE], "None in a list of str"),
    ):
        w = World()
        bad(what, (w, ilist(*items), w.jit("ListType", w.jit(kind)), ()), None)
    w = World()
    x = w.tensor_node("x", [5])
    bad("a tensor among ints", (w, ilist(K(1), x), w.jit("ListType", w.jit("IntType")), [x]), None)
    w = World()
    s = w.node("s", "placeholder", val=w.obj("s.val", "torch.SymFloat"))
    bad("a symbolic float among ints", (w, ilist(K(1), s), w.jit("ListType", w.jit("IntType")), [s]), None)
    w = World()
    bad("an object without a literal form", (w, w.obj("thing", "some.Class"), w.jit("IntType"), ()), None)


def run(ctx):
    ctx.rule("constant", "a constant becomes the constant operation of its own class, holding its own value")
    ctx.rule("list", "a list becomes a list construction of the schema's list type with exactly its elements in order")
    ctx.rule("reject", "what does not fit the element type, or has no literal form, is rejected")
    for g in (scalars, lists, reject):
        ctx.group(g)
    ctx.floor("list", 100)
    ctx.floor("reject", 8)
