"""C03: every input and output of an exported program is imported or rejected."""

import itertools

from sa.fxworld import *


def types_text(ts):
    return [t.args[1].v if isinstance(t, T) and t.op == "obj" and len(t.args) > 1 and isinstance(t.args[1], K) else show(t) for t in ts]


def target(i):
    """Names that agree in all but one part."""
    return f"m.{i // 2}.{'wv'[i % 2]}"


def mixed(order, outs):
    """A program whose inputs come in `order` and outputs in `outs`."""
    w = World()
    P = Prog(w)
    shape = {}
    nodes = {}
    user = []
    for i, k in enumerate(order):
        n = f"{k}{i}"
        sh = 10 + i
        if k in ("sym",):
            node = w.node(n, "placeholder", val=w.obj(n + ".val", "torch.SymInt"), args=(K(n),))
            P.inp("USER_INPUT", node, "SymIntArgument")
            user.append((n, "!torch.int"))
        elif k == "constarg":
            node = w.node(n, "placeholder", val=K(40 + i), args=(K(n),))
            P.inp("USER_INPUT", node, "ConstantArgument", value=K(40 + i))
        else:
            node = w.tensor_node(n, [sh], args=(K(n),))
            kind = {"user": "USER_INPUT", "param": "PARAMETER", "buffer": "BUFFER", "nbuffer": "BUFFER", "const": "CONSTANT_TENSOR"}[k]
            kw = {}
            if k == "user":
                user.append((n, f"!torch.vtensor<[{sh}],f32>"))
            else:
                kw = dict(target=target(i), persistent=k != "nbuffer")
                x = P.tensor("T_" + n, [sh])
                (P.constants if k in ("const", "nbuffer") else P.state).append((target(i), x))
                # the other store has an unrelated tensor under the same name
            P.inp(kind, node, **kw)
        nodes[n] = node
    names = list(nodes)
    f = P.call("f", [nodes[n] for n in names], [99])
    pos = {n: i for i, (n, _) in enumerate(user)}

    def src(n):
        if n in pos:
            return f"arg{pos[n]}"
        i = names.index(n)
        if n.startswith("constarg"):
            return f"int:{40 + i}"
        return "tensor:T_" + n

    want_out, want_ty = [], []
    for o in outs:
        if o == "f":
            P.out("USER_OUTPUT", f)
            want_out.append("f")
            want_ty.append("!torch.vtensor<[99],f32>")
        elif o.startswith("const="):
            v = {"int": K(5), "float": K(2.5), "none": NONE, "bool": TRUE, "str": K("s")}[o[6:]]
            P.out("USER_OUTPUT", None, "ConstantArgument", value=v)
            want_out.append({"int": "int:5", "float": "float:2.5", "none": "none", "bool": "bool:True", "str": "str:'s'"}[o[6:]])
            want_ty.append({"int": "!torch.int", "float": "!torch.float", "none": "!torch.none", "bool": "!torch.bool", "str": "!torch.str"}[o[6:]])
        else:
            n = names[int(o[1:])]
            P.out("USER_OUTPUT", nodes[n], "SymIntArgument" if n.startswith("sym") else "TensorArgument")
            want_out.append(src(n))
            want_ty.append(dict(user).get(n, f"!torch.vtensor<[{10 + int(o[1:])}],f32>"))
    return w, P, [src(n) for n in names], [t for _, t in user], want_out, want_ty


CASES = [
    (["user", "user"], ["f"]),
    (["param", "user", "buffer", "user"], ["f", "i3", "i1"]),
    (["user", "const", "nbuffer", "sym", "user"], ["i4", "f", "i3"]),
    (["constarg", "user", "sym", "user"], ["f", "const=int", "i3"]),
    (["user", "constarg", "param"], ["const=none", "f", "const=float", "i0"]),
    (["user"], ["const=bool", "const=str", "f", "const=int"]),
    (["buffer", "param", "const", "nbuffer", "user"], ["i0", "i1", "i2", "i3", "i4"]),
    (["user", "user", "user"], ["i2", "i0", "f", "i0"]),
]


def out_sequences(ctx):
    """Outputs of every kind in every order of up to three: each kind's position is its own."""
    for n in (1, 2, 3):
        for seq in itertools.product(("tensor", "sym", "const", "input mutation", "buffer mutation"), repeat=n):
            if n == 3 and len(set(seq)) < 2:
                continue
            w = World()
            P = Prog(w)
            muts = 0
            a = w.tensor_node("a", [2], args=(K("a"),))
            P.inp("USER_INPUT", a)
            s = w.node("s", "placeholder", val=w.obj("s.val", "torch.SymInt"), args=(K("s"),))
            P.inp("USER_INPUT", s, "SymIntArgument")
            ms, bs = [], []
            for i, k in enumerate(seq):
                if k == "input mutation":
                    x = w.tensor_node(f"m{i}", [3], args=(K(f"m{i}"),))
                    P.inp("USER_INPUT", x)
                    ms.append(i)
                if k == "buffer mutation":
                    x = w.tensor_node(f"b{i}", [3], args=(K(f"b{i}"),))
                    P.inp("BUFFER", x, target=f"t.b{i}")
                    P.state.append((f"t.b{i}", P.tensor(f"T_b{i}", [3])))
                    bs.append(i)
            want, tys = [], []
            for i, k in enumerate(seq):
                f = P.call(f"f{i}", [a], [20 + i])
                if k == "tensor":
                    P.out("USER_OUTPUT", f)
                    want.append(f"f{i}")
                    tys.append(f"!torch.vtensor<[{20 + i}],f32>")
                elif k == "sym":
                    P.out("USER_OUTPUT", s, "SymIntArgument")
                    want.append("arg1")
                    tys.append("!torch.int")
                elif k == "const":
                    P.out("USER_OUTPUT", None, "ConstantArgument", value=K(70 + i) if i % 2 else K(f"k{i}"))
                    want.append(f"int:{70 + i}" if i % 2 else f"str:'k{i}'")
                    tys.append("!torch.int" if i % 2 else "!torch.str")
                elif k == "input mutation":
                    P.out("USER_INPUT_MUTATION", f, target=f"m{i}")
                    P.mutations.append((f"f{i}", f"m{i}"))
                else:
                    P.out("BUFFER_MUTATION", f, target=f"t.b{i}")
            hooks = w.obj("hooks", "torch_mlir.extras.fx_importer.FxImporterHooks")
            for h in ("resolve_input", "resolve_literal", "store_produced_value", "prepare_module"):
                w.models[h] = lambda it, recv, args, kw, node: NONE
            w.call(hooks, "prepare_module", NONE)
            name = ", ".join(seq)
            ps = import_program(ctx, w, f"import_program[outputs {name}]", P.build(), hooks=hooks)

            def pred(p):
                v = View(p)
                ft = v.ftype()
                if ft is None or types_text(ft[1]) != tys:
                    return f"function results are {ft and types_text(ft[1])}, the user outputs are {tys}"
                r = origins(v, v.returned())
                return None if r == want else f"returns {r}, the program returns {want}"

            decide(ctx, "order", name, ps, pred)


def run(ctx):
    ctx.rule("order", "each user output keeps its position whatever outputs of other kinds stand between them")
    ctx.rule("signature", "the function's arguments are the user inputs in order, its results the user outputs in order, with their types")
    ctx.rule("state", "parameters, buffers and constants enter the function as literals of the tensor bound to their own target")
    ctx.rule("reject", "an input or output of a kind that has no import is rejected")
    ctx.rule("frozen", "the frozen import replaces exactly the lifted placeholders by the tensors they are bound to")
    seqs = [q for n in ((1, 2, 3) if ctx.deep else (1, 2)) for q in itertools.product(("user", "sym", "constarg", "param", "buffer", "nbuffer", "const"), repeat=n) if n < 3 or len(set(q)) > 1]
    for order, outs in CASES + [(list(q), ["f"]) for q in seqs]:
        w, P, srcs, in_ty, out, out_ty = mixed(order, outs)
        name = f"{'+'.join(order)} -> {'+'.join(outs)}"
        ps = import_program(ctx, w, f"import_program[{name}]", P.build())

        def sig(p):
            v = View(p)
            ft = v.ftype()
            if ft is None or types_text(ft[0]) != in_ty:
                return f"function arguments are {ft and types_text(ft[0])}, the user inputs are {in_ty}"
            if types_text(ft[1]) != out_ty:
                return f"function results are {types_text(ft[1])}, the user outputs are {out_ty}"
            r = origins(v, v.returned())
            if r != out:
                return f"returns {r}, the program returns {out}"
            ins = [e for e in p.events if e.kind == "call" and e.name == ".insert" and e.args and e.args[-1] == obj(f"func{v.funcs[0].idx}")]
            if not ins:
                return "the function is not entered into the symbol table"
            return None

        def state(p):
            v = View(p)
            f = v.named("torch.aten.f")
            if len(f) != 1:
                return "the program's operation is not imported once"
            got = origins(v, f[0].operands)
            for g, s, o in zip(got, srcs, f[0].operands):
                if s.startswith("int:") and g == "prim.NumToTensor.Scalar":
                    g = origin(v, v.producer(o)[0].operands[0])
                if g != s:
                    return f"operands are {got}, the program passes {srcs}"
            return None if len(got) == len(srcs) else "operand count"

        decide(ctx, "signature", name, ps, sig)
        decide(ctx, "state", name, ps, state)
    ctx.group(reject)
    ctx.group(frozen)
    ctx.group(out_sequences)
    ctx.floor("signature", 60)
    ctx.floor("reject", 8)
    ctx.floor("order", 140)
    ctx.floor("frozen", 4)


def reject(ctx):
    REJ = ("NotImplementedError", "AssertionError", "RuntimeError", "TypeError", "ValueError", "KeyError")
    for side, kind, arg in [
        ("in", "CUSTOM_OBJ", "CustomObjArgument"), ("in", "TOKEN", "TokenArgument"), ("in", "USER_INPUT", "CustomObjArgument"),
        ("in", "USER_INPUT", "SymFloatArgument"),
        ("in", "PARAMETER", "CustomObjArgument"),
        ("out", "LOSS_OUTPUT", "TensorArgument"), ("out", "PARAMETER_MUTATION", "TensorArgument"),
        ("out", "GRADIENT_TO_PARAMETER", "TensorArgument"), ("out", "GRADIENT_TO_USER_INPUT", "TensorArgument"),
        ("out", "TOKEN", "TokenArgument"), ("out", "USER_OUTPUT", "CustomObjArgument"), ("out", "USER_OUTPUT", "SymFloatArgument"),
    ]:
        w = World()
        P = Prog(w)
        x = w.tensor_node("x", [2], args=(K("x"),))
        P.inp("USER_INPUT", x)
        y = w.tensor_node("y", [3], args=(K("y"),))
        if side == "in":
            P.inp(kind, y, arg, target="t.y", value=K(1))
            P.state.append(("t.y", P.tensor("T_y", [3])))
        f = P.call("f", [x], [4])
        P.out("USER_OUTPUT", f)
        if side == "out":
            P.out(kind, x, arg, target="t.y", value=K(1))
        ps = import_program(ctx, w, f"import_program[{kind} {arg}]", P.build())
        decide(ctx, "reject", f"{'InputKind' if side == 'in' else 'OutputKind'}.{kind} with {arg}", ps, lambda p: None, must_raise=REJ)


def frozen(ctx):
    for case in (["parameter"], ["buffer"], ["constant"], ["user", "parameter", "user", "buffer", "constant", "parameter"]):
        w = World()
        P = Prog(w)
        lifted, want, user = [], [], []
        for i, k in enumerate(case):
            n = f"{k}{i}"
            node = w.tensor_node(n, [10 + i], args=(K(n),))
            P.nodes.append(node)
            if k == "user":
                want.append(f"arg{len(user)}")
                user.append(f"!torch.vtensor<[{10 + i}],f32>")
            else:
                lifted.append((n, target(i), k))
                x = P.tensor("T_" + n, [10 + i])
                (P.constants if k == "constant" else P.state).append((target(i), x))
                want.append("tensor:T_" + n)
        f = P.call("f", list(P.nodes), [99])
        P.nodes.append(w.output(f))
        prog = P.build(lifted=lifted)
        ps = import_program(ctx, w, f"import_frozen_program[{'+'.join(case)}]", prog, "import_frozen_program")

        def pred(p):
            v = View(p)
            ft = v.ftype()
            if types_text(ft[0]) != user:
                return f"function arguments are {types_text(ft[0])}, the user inputs are {user}"
            f = v.named("torch.aten.f")
            got = origins(v, f[0].operands) if len(f) == 1 else None
            if got != want:
                return f"operands are {got}, the program passes {want}"
            if origins(v, v.returned()) != ["f"]:
                return f"returns {origins(v, v.returned())}"
            return None

        decide(ctx, "frozen", "+".join(case), ps, pred)
    w = World()
    P = Prog(w)
    n = w.tensor_node("x", [3], args=(K("x"),))
    P.nodes.append(n)
    f = P.call("f", [n], [99])
    P.nodes.append(w.output(f))
    prog = P.build(lifted=[("x", "t.x", "parameter")])
    ps = import_program(ctx, w, "import_frozen_program[missing state]", prog, "import_frozen_program")
    decide(ctx, "frozen", "missing parameter value", ps, lambda p: None, must_raise=("AssertionError", "KeyError", "RuntimeError", "ValueError"))
