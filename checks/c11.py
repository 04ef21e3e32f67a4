"""C11: the kind of every value shows in its type."""

import itertools

from sa.fxworld import *
from checks.c05 import emitted, REJ
from checks.c09 import sym

SCALARS = {
    "SymInt": (lambda w, n: sym(w, n, "int"), "!torch.int"),
    "SymFloat": (lambda w, n: sym(w, n, "float"), "!torch.float"),
    "SymBool": (lambda w, n: sym(w, n, "bool"), "!torch.bool"),
    "int": (lambda w, n: K(3), "!torch.int"),
    "zero": (lambda w, n: K(0), "!torch.int"),
    "float": (lambda w, n: K(2.5), "!torch.float"),
    "true": (lambda w, n: TRUE, "!torch.bool"),
    "false": (lambda w, n: FALSE, "!torch.bool"),
    "str": (lambda w, n: K("s"), "!torch.str"),
    "none": (lambda w, n: NONE, "!torch.none"),
}
LIST = "!torch.list<vtensor>"


def tensor(shape, dtype="torch.float32"):
    return lambda w, n: w.fake(n, [d(w, n) if callable(d) else d for d in shape], dtype)


def extent(w, n):
    w.n += 1
    return w.obj(f"{n}.ext{w.n}", "torch.SymInt", node=w.obj(f"{n}.extnode{w.n}"))


VALUES = {
    **SCALARS,
    "tensor": (tensor([4, 5]), "!torch.vtensor<[4,5],f32>"),
    "bool tensor": (tensor([], "torch.bool"), "!torch.vtensor<[],i1>"),
    "int tensor": (tensor([1, 0], "torch.int64"), "!torch.vtensor<[1,0],si64>"),
    "dynamic tensor": (tensor([extent, 7], "torch.float16"), "!torch.vtensor<[?,7],f16>"),
    "tensor list": (lambda w, n: Lst([w.fake(n + ".0", [2]), w.fake(n + ".1", [3])]), LIST),
}


def results(ctx):
    """Results of calls, alone and in every position of several results."""
    for name, (mk, want) in VALUES.items():
        w = World()
        x = w.tensor_node("x", [7])
        n = w.node("n", "call_function", w.overload("aten::foo", [("p0", w.jit("TensorType"))], overload="x"), [x], val=mk(w, "n.val"))
        ps = import_graph(ctx, w, f"import_stateless_graph[result {name}]", [x, n, w.output(n)])

        def pred(p):
            o = emitted(View(p), "torch.aten.foo.x")
            if len(o) != 1 or o[0].results != [ty(want)]:
                return f"{name} has the type {o and show(o[0].results)}, expected {want}"
            return None if View(p).ftype()[1] == [ty(want)] else f"it is returned as {show(View(p).ftype()[1])}"

        decide(ctx, "result", name, ps, pred)
    names = list(VALUES)
    for i in range(len(names)):
        combo = [names[i], names[(i + 1) % len(names)], names[(i + 4) % len(names)]]
        w = World()
        x = w.tensor_node("x", [7])
        vals = [VALUES[c][0](w, f"n.v{k}") for k, c in enumerate(combo)]
        n = w.node("n", "call_function", w.overload("aten::foo", [("p0", w.jit("TensorType"))], returns=3, overload="x"), [x], val=tup(*vals))
        ps = import_graph(ctx, w, f"import_stateless_graph[results {combo}]", [x, n, w.output(x)])
        want3 = [ty(VALUES[c][1]) for c in combo]

        def pred3(p):
            o = emitted(View(p), "torch.aten.foo.x")
            return None if len(o) == 1 and o[0].results == want3 else f"{combo} have the types {o and show(o[0].results)}"

        decide(ctx, "result", f"results {combo}", ps, pred3)


def arguments(ctx):
    """Placeholders."""
    for name, (mk, want) in VALUES.items():
        w = World()
        x = w.tensor_node("x", [7])
        n = w.node("n", "placeholder", K("n"), val=mk(w, "n.val"))
        y = w.tensor_node("y", [8])
        ps = import_graph(ctx, w, f"import_stateless_graph[argument {name}]", [x, n, y, w.output(n)])

        def pred(p):
            ft = View(p).ftype()
            return None if ft[0] == [vt([7]), ty(want), vt([8])] and ft[1] == [ty(want)] else f"{name} among the arguments {show(ft[0])}, results {show(ft[1])}"

        decide(ctx, "argument", name, ps, pred)


def extents(ctx):
    """Every mixture of static and symbolic extents, from either source of metadata."""
    for rank in (0, 1, 2, 3):
        for mask in itertools.product((0, 1), repeat=rank):
            for how in ("tensor_meta", "val"):
                w = World()
                dims = [extent(w, "x") if m else 3 + i for i, m in enumerate(mask)]
                meta = [(K("tensor_meta"), w.tensor_meta("x.tm", dims))] if how == "tensor_meta" else []
                x = w.node("x", "placeholder", K("x"), val=w.fake("x.val", dims), meta=meta)
                text = "!torch.vtensor<[" + ",".join("?" if m else str(3 + i) for i, m in enumerate(mask)) + "],f32>"
                ps = import_graph(ctx, w, f"import_stateless_graph[extents {mask} from {how}]", [x, w.output(x)])
                decide(ctx, "extent", f"{list(mask)} from {how}", ps, lambda p: None if View(p).ftype()[0] == [ty(text)] else f"the type is {show(View(p).ftype()[0])}, expected {text}")


def caches(ctx):
    """Types of many values in one function."""
    specs = [([4, 5], "torch.float32", "f32"), ([5, 4], "torch.float32", "f32"), ([4, 5], "torch.int32", "si32"), ([4], "torch.float32", "f32"), ([4, 5, 1], "torch.float32", "f32"),
             ([20], "torch.uint8", "ui8"), ([4, 5], "torch.float32", "f32"), ([], "torch.float64", "f64"), ([4, 5], "torch.bool", "i1")]
    for rev in (0, 1):
        for how in ("tensor_meta", "val"):
            w = World()
            xs = []
            sp = specs[::-1] if rev else specs
            for i, (s, d, e) in enumerate(sp):
                meta = [(K("tensor_meta"), w.tensor_meta(f"x{i}.tm", s, d))] if how == "tensor_meta" else []
                xs.append(w.node(f"x{i}", "placeholder", K(f"x{i}"), val=w.fake(f"x{i}.val", s, d), meta=meta))
            ps = import_graph(ctx, w, f"import_stateless_graph[many types from {how}, {rev}]", xs + [w.output(*xs)])
            want = [vt(s, e) for s, d, e in sp]
            decide(ctx, "extent", f"many types from {how}{' reversed' if rev else ''}", ps, lambda p: None if list(View(p).ftype()) == [want, want] or View(p).ftype() == (want, want) else f"{show(View(p).ftype()[0])} -> {show(View(p).ftype()[1])}")


def mutable(ctx):
    """A mutated input is a mutable tensor of the same element type and extents."""
    for mask in itertools.product((0, 1), repeat=2):
        for d, e in (("torch.float32", "f32"), ("torch.int64", "si64")):
            w = World()
            P = Prog(w)
            dims = [extent(w, "x") if m else 3 + i for i, m in enumerate(mask)]
            x = w.node("x", "placeholder", K("x"), val=w.fake("x.val", dims, d), meta=[(K("tensor_meta"), w.tensor_meta("x.tm", dims, d))])
            P.inp("USER_INPUT", x)
            ovl = w.overload("aten::u", [("p0", w.jit("TensorType"))])
            u = w.node("u", "call_function", ovl, [x], val=w.fake("u.val", dims, d), meta=[(K("tensor_meta"), w.tensor_meta("u.tm", dims, d))])
            P.nodes.append(u)
            P.out("USER_INPUT_MUTATION", u, target="x")
            P.mutations.append(("u", "x"))
            P.nodes.append(w.output(u))
            ps = import_program(ctx, w, f"import_program[mutable {mask} {d}]", P.build())
            sh = ",".join("?" if m else str(3 + i) for i, m in enumerate(mask))

            def pred(p):
                v = View(p)
                if v.ftype()[0] != [ty(f"!torch.tensor<[{sh}],{e}>")]:
                    return f"the mutated input has the type {show(v.ftype()[0])}"
                c = emitted(v, "torch.copy.to_vtensor")
                return None if c and c[0].results == [ty(f"!torch.vtensor<[{sh}],{e}>")] else f"it is read as {[show(o.results) for o in c]}"

            decide(ctx, "mutable", f"{list(mask)} {d}", ps, pred)


def reject(ctx):
    """Values that have no type in the torch dialect."""
    cases = {
        "complex number": lambda w: K(1j),
        "mixed list": lambda w: Lst([w.fake("v0", [2]), NONE]),
        "list of scalars": lambda w: Lst([K(1), K(2)]),
        "dictionary": lambda w: Dct([(K("a"), w.fake("v0", [2]))]),
        "opaque object": lambda w: w.obj("script", "torch.ScriptObject"),
    }
    for cons, mk in cases.items():
        for place in ("argument", "result"):
            w = World()
            x = w.tensor_node("x", [7])
            if place == "argument":
                n = w.node("n", "placeholder", K("n"), val=mk(w))
            else:
                n = w.node("n", "call_function", w.overload("aten::foo", [("p0", w.jit("TensorType"))], overload="x"), [x], val=mk(w))
            ps = import_graph(ctx, w, f"import_stateless_graph[{place} {cons}]", [x, n, w.output(x)])
            decide(ctx, "reject", f"{place}: {cons}", ps, lambda p: None, must_raise=REJ)
    w = World()
    tm = w.tensor_meta("x.tm", [7])
    w.attrs[(tm, "is_quantized")] = TRUE
    x = w.node("x", "placeholder", K("x"), val=w.fake("x.val", [7]), meta=[(K("tensor_meta"), tm)])
    ps = import_graph(ctx, w, "import_stateless_graph[quantized]", [x, w.output(x)])
    decide(ctx, "reject", "quantized tensor metadata", ps, lambda p: None, must_raise=REJ)


def run(ctx):
    ctx.rule("result", "a result has the type of its kind of value")
    ctx.rule("argument", "an argument has the type of its kind of value")
    ctx.rule("extent", "static extents appear as they are, symbolic ones as unknown, for every value of a function")
    ctx.rule("mutable", "a mutated input is a mutable tensor that is read as a value of the same type")
    ctx.rule("reject", "a value without a type is an error")
    for g in (results, arguments, extents, caches, mutable, reject):
        ctx.group(g)
    ctx.floor("result", 25)
    ctx.floor("extent", 25)
