"""C07: tensor literals hold the data of their own tensor."""

from sa.fxworld import *
from sa.arrays import Arrays
from checks.c05 import emitted, REJ


def user(w, name_, arg):
    ovl = w.overload("aten::" + name_, [("p", w.jit("TensorType"))], overload="x")
    return w.tensor_node("n_" + name_, [5], op="call_function", target=ovl, args=[arg])


def graph(ctx, w, entry, root_attrs, uses, imports=1, hooks=None, **cfg):
    """uses: names of module attributes read by u0, u1, ... in order."""
    root = w.obj("root", "torch.fx.GraphModule", **root_attrs)
    nodes, seen = [], {}
    for i, (a, fresh) in enumerate(uses):
        if fresh or a not in seen:
            seen[a] = w.node(f"{a}_{i}" if fresh else a, "get_attr", K(a))
            nodes.append(seen[a])
        nodes.append(user(w, f"u{i}", seen[a]))
    nodes.append(w.output(nodes[-1]))
    g = w.graph(nodes, owning=root)
    p = ctx.project
    p.load(M)
    ikw = {"hooks": hooks} if hooks is not None else {}

    def run(it):
        im = importer(it, p, **ikw)
        for _ in range(imports):
            r = method(it, im, "import_stateless_graph", [g])
        return r

    return ctx.explore(entry, run, **w.cfg(**cfg))


def source(v, x):
    """The tensor whose data a literal holds."""
    pr = v.producer(x)
    if pr and pr[0].name == "torch.prims.convert_element_type":
        return source(v, pr[0].operands[0])
    return origin(v, x)


def tensor(w, n, shape=(2, 3), dtype="torch.float32"):
    t = w.obj(n, "torch.Tensor", dtype=Q(dtype), shape=tup(*map(K, shape)), layout=Q("torch.strided"))
    w.call(t, "size", tup(*map(K, shape)))
    return t


def check(ctx, rule, cons, ps, want, types=None):
    def pred(p):
        v = View(p)
        for i, x in enumerate(want):
            for o in emitted(v, f"torch.aten.u{i}.x"):
                got = source(v, o.operands[0])
                if got != x:
                    return f"{cons}: use {i} reads {got}, expected {x}"
                if types:
                    pr = v.producer(o.operands[0])
                    if pr is None or pr[0].results[pr[1]] != types[i]:
                        return f"{cons}: use {i} has the type {show(pr and pr[0].results)}"
            if not emitted(v, f"torch.aten.u{i}.x"):
                return f"use {i} is missing"
        return None

    decide(ctx, rule, cons, ps, pred)


def run(ctx):
    ctx.rule("data", "the literal a user reads holds the data of the tensor the module holds under that name")
    ctx.rule("identity", "a literal is reused only for the same, living tensor object")
    ctx.rule("contents", "a literal has the extents of its tensor and every element at its own position")
    ctx.rule("hook", "a value supplied by a hook replaces the literal, and a mutable input is never imported as a literal")
    for dt, el in (("torch.float32", "f32"), ("torch.int64", "si64"), ("torch.bool", "i1")):
        for cons, names, uses in (
            ("one tensor, one use", "a", [("a", 0)]),
            ("one tensor, one node used twice", "a", [("a", 0), ("a", 0)]),
            ("one tensor, two nodes", "a", [("a", 0), ("a", 1)]),
            ("two tensors", "ab", [("a", 0), ("b", 0)]),
            ("two tensors alternating", "ab", [("a", 0), ("b", 0), ("a", 1), ("b", 1)]),
            ("two tensors, second first", "ab", [("b", 0), ("a", 0), ("b", 0)]),
        ):
            for imports in (1, 2):
                if imports == 2 and dt != "torch.float32":
                    continue
                w = World()
                ts = {n: tensor(w, "T_" + n, dtype=dt) for n in names}
                if dt == "torch.bool":
                    u8 = {ts[n]: tensor(w, f"T_{n}", dtype="torch.uint8") if False else tensor(w, f"T_{n}_u8", dtype="torch.uint8") for n in names}
                    w.models["to"] = lambda it, recv, args, kw, node, u8=u8: u8.get(freeze(recv))
                ps = graph(ctx, w, f"import_stateless_graph[{cons}, {dt}, {imports}x]", ts, uses, imports)
                sfx = "_u8" if dt == "torch.bool" else ""
                check(ctx, "data", f"{cons}, {dt}{', imported twice' if imports == 2 else ''}", ps, [f"tensor:T_{a}{sfx}" for a, _ in uses], [vt([2, 3], el)] * len(uses))
    # different shapes and dtypes under one importer
    w = World()
    ts = {"a": tensor(w, "T_a", (2,)), "b": tensor(w, "T_b", (2,), "torch.int32"), "c": tensor(w, "T_c", (1, 2))}
    ps = graph(ctx, w, "import_stateless_graph[three types]", ts, [("a", 0), ("b", 0), ("c", 0), ("a", 1)])
    check(ctx, "data", "tensors of several types", ps, ["tensor:T_a", "tensor:T_b", "tensor:T_c", "tensor:T_a"], [vt([2]), vt([2], "si32"), vt([1, 2]), vt([2])])
    # a collected tensor's id may come back for another one
    for dt in ("torch.float32", "torch.bool"):
        w = World()
        ts = {n: tensor(w, "T_" + n, dtype=dt) for n in "ab"}
        a, b = ts["a"], ts["b"]
        sfx = ""
        if dt == "torch.bool":
            u8 = {ts[n]: tensor(w, f"T_{n}_u8", dtype="torch.uint8") for n in "ab"}
            w.models["to"] = lambda it, recv, args, kw, node, u8=u8: u8.get(freeze(recv))
            a, b, sfx = u8[a], u8[b], "_u8"
        same = T("id", K("recycled"))
        for kind in ("two tensors", "three uses"):
            uses = [("a", 0), ("b", 0)] if kind == "two tensors" else [("a", 0), ("b", 0), ("b", 1)]
            ps = graph(ctx, w, f"import_stateless_graph[recycled id, {dt}]", ts, uses, ids={a: same, b: same}, dead={a})
            check(ctx, "identity", f"recycled id, {dt}, {kind}", ps, [f"tensor:T_{n}{sfx}" for n, _ in uses])
    # tensors that are given directly as arguments
    for uses in ("ab", "aba", "ba"):
        w = World()
        ts = {n: tensor(w, "T_" + n) for n in "ab"}
        nodes = [user(w, f"u{i}", ts[n]) for i, n in enumerate(uses)]
        ps = import_graph(ctx, w, f"import_stateless_graph[tensor arguments {uses}]", nodes + [w.output(nodes[-1])])
        check(ctx, "data", f"tensor arguments {uses}", ps, ["tensor:T_" + n for n in uses], [vt([2, 3])] * len(uses))
    ctx.group(hook)
    ctx.group(contents)
    ctx.floor("data", 20)
    ctx.floor("contents", 20)
    ctx.floor("identity", 3)


def hook(ctx):
    for dt in ("torch.float32", "torch.bool"):
        w = World()
        ts = {n: tensor(w, "T_" + n, dtype=dt) for n in "ab"}
        if dt == "torch.bool":
            u8 = {ts[n]: tensor(w, f"T_{n}_u8", dtype="torch.uint8") for n in "ab"}
            w.models["to"] = lambda it, recv, args, kw, node: u8.get(freeze(recv))

        def res(it, recv, args, kw, node):
            lit = freeze(args[1] if len(args) > 1 else kw.get("literal"))
            if show(lit).startswith("T_b"):
                return T("obj", K("hooked"), lit)
            return NONE

        w.models["resolve_literal"] = res
        sfx = "_u8" if dt == "torch.bool" else ""
        for n in "ab":
            w.types[T("obj", K("hooked"), obj(f"T_{n}{sfx}"))] = IR + "Value"
            w.attrs[(T("obj", K("hooked"), obj(f"T_{n}{sfx}")), "type")] = vt([2, 3], "ui8" if sfx else "f32")
        hooks = w.obj("hooks", "torch_mlir.extras.fx_importer.FxImporterHooks")
        w.call(hooks, "prepare_module", NONE)
        ps = graph(ctx, w, f"import_stateless_graph[literal hook, {dt}]", ts, [("a", 0), ("b", 0)], hooks=hooks)

        def pred(p):
            v = View(p)
            for i, n in enumerate("ab"):
                o = emitted(v, f"torch.aten.u{i}.x")
                if len(o) != 1:
                    return f"use {i} is emitted {len(o)} times"
                x = o[0].operands[0]
                pr = v.producer(x)
                if dt == "torch.bool":
                    if pr is None or pr[0].name != "torch.prims.convert_element_type" or pr[0].results != [vt([2, 3], "i1")] or v.const(pr[0].operands[1]) != ("int", K(11)):
                        return f"a bool literal reaches its user as {show(x)}"
                    x = pr[0].operands[0]
                want = T("obj", K("hooked"), obj(f"T_b{sfx}")) if n == "b" else None
                if want is not None and x != want:
                    return f"the hook's value is not used: {origin(v, x)}"
                if want is None and origin(v, x) != f"tensor:T_a{sfx}":
                    return f"without a hook value the user reads {origin(v, x)}"
            return None

        decide(ctx, "hook", f"literal hook, {dt}", ps, pred)


def held(arr, path, value):
    """(extents, elements) of a literal's attribute; LookupError when they are not known."""
    c = call_of(value, "DenseElementsAttr.get_splat")
    if c:
        a = dict(zip(("type", "value"), c[0]))
        a.update(c[1])
        r = call_of(a["type"], "RankedTensorType.get")
        x = arr.of_path(path, a["value"])
        sh = [s.v for s in seq(r[0][0])]
        n = 1
        for s in sh:
            n *= s
        return sh, [x[1][0] if x and len(x[1]) == 1 else a["value"]] * n
    c = call_of(value, "DenseElementsAttr.get")
    names = ("array", "signless", "type", "shape")
    if not c:
        c, names = call_of(value, "DenseResourceElementsAttr.get_from_buffer"), ("array", "name", "type", "alignment", "is_mutable")
    if not c:
        raise LookupError(f"unrecognised literal {show(value)[:80]}")
    a = dict(zip(names, c[0]))
    a.update(c[1])
    x = arr.of_path(path, a.get("array"))
    if x is None:
        raise LookupError(f"unrecognised array {show(a.get('array'))[:80]}")
    sh, el = list(x[0]), x[1]
    r = call_of(a.get("type", NONE), "RankedTensorType.get")
    s = seq(r[0][0]) if r else seq(a["shape"]) if a.get("shape", NONE) != NONE else None
    if s is not None:
        s = [y.v for y in s]
        n = 1
        for y in s:
            n *= y
        if len(el) == 1 and n != 1 and names[1] == "signless":
            el = el * n  # a splat
        if len(el) != n:
            raise ValueError(f"{len(el)} elements for the extents {s}")
        sh = s
    return sh, el


SHAPES = ((), (1,), (1, 1), (2,), (3,), (2, 3), (3, 2), (1, 3), (3, 1), (2, 1, 2), (2, 2, 2), (0,), (0, 3), (2, 0))


def contents(ctx):
    """One literal, and every pair of small tensors, with distinct and equal elements."""
    fill = {"distinct": None, "all equal": lambda n: [T("obj", K("element"), K("same"), K(0))] * n, "zeros": lambda n: [K(0)] * n,
            "last differs": lambda n: [K(1)] * (n - 1) + [K(2)] * (n > 0)}
    for dt in ("torch.float32", "torch.int64", "torch.bool") + (("torch.float16", "torch.float64", "torch.int8", "torch.uint8", "torch.complex64") if ctx.deep else ()):
        for f in fill:
            for sh in SHAPES:
                if dt == "torch.bool" and f == "last differs":
                    continue
                one(ctx, dt, [(sh, fill[f])], f"{dt} {list(sh)}, {f}")
    small = SHAPES if ctx.deep else ((), (1,), (2,), (2, 1), (1, 2), (0,))
    for a in small:
        for b in small:
            one(ctx, "torch.float32", [(a, None), (b, None)], f"{list(a)} and {list(b)}")
            one(ctx, "torch.float32", [(a, fill["zeros"]), (b, fill["zeros"])], f"zeros {list(a)} and {list(b)}")


def one(ctx, dt, specs, cons):
    w = World()
    arr = Arrays(w)
    ts, want, u8 = {}, [], {}
    for i, (sh, f) in enumerate(specs):
        n = "ab"[i]
        ts[n] = tensor(w, "T_" + n, sh, dt)
        cnt = 1
        for s in sh:
            cnt *= s
        el = f(cnt) if f else None
        arr.tensor(ts[n], sh, el)
        w.call(ts[n], "is_contiguous", TRUE)
        if dt == "torch.bool":
            x = tensor(w, f"T_{n}_u8", sh, "torch.uint8")
            u8[ts[n]] = x
            arr.tensors[x] = arr.tensors[ts[n]]
        want.append((list(sh), arr.tensors[ts[n]][1]))
    if dt == "torch.bool":
        w.models["to"] = lambda it, recv, args, kw, node: u8.get(freeze(recv))
    ps = graph(ctx, w, f"import_stateless_graph[contents {cons}]", ts, [("ab"[i], 0) for i in range(len(specs))])

    def pred(p):
        v = View(p)
        for i, (sh, el) in enumerate(want):
            o = emitted(v, f"torch.aten.u{i}.x")
            if len(o) != 1:
                return f"use {i} is emitted {len(o)} times"
            x = o[0].operands[0]
            pr = v.producer(x)
            if pr and pr[0].name == "torch.prims.convert_element_type":
                x = pr[0].operands[0]
                pr = v.producer(x)
            if pr is None or pr[0].name != "torch.vtensor.literal":
                return f"use {i} reads {origin(v, x)}"
            try:
                got = held(arr, p, pr[0].attributes.get("value"))
            except ValueError as e:
                return f"the literal has {e}"
            if got[0] != sh:
                return f"the literal has the extents {got[0]}, the tensor {sh}"
            if got[1] != el:
                return f"the literal of {sh} holds {[show(x) for x in got[1]][:8]}, the tensor {[show(x) for x in el][:8]}"
        return None

    decide(ctx, "contents", cons, ps, pred)
