"""C31: generated operation definitions and signatures state their operator's schema."""

import itertools
import re

from sa.fxworld import *
from sa.fxworld import K, T

B = "torch_mlir.jit_ir_importer.build_tools."
R, O, U, L = B + "registry", B + "torch_ods_gen", B + "utils", B + "library_generator"
TYPES_TD = "include/torch-mlir/Dialect/Torch/IR/TorchTypes.td"

BASE = {"Tensor": "AnyTorchTensorType", "Scalar": "AnyTorchScalarType", "int": "Torch_IntType", "bool": "Torch_BoolType", "float": "Torch_FloatType",
        "t": "AnyTorchType", "t1": "AnyTorchType", "t2": "AnyTorchType", "Any": "AnyTorchType", "Device": "Torch_DeviceType", "Generator": "Torch_GeneratorType",
        "str": "Torch_StringType", "__torch__.torch.classes.quantized.LinearPackedParamsBase": "Torch_LinearParamsType"}
# types that operators of the committed definitions have
MUST = {"Tensor", "Tensor?", "Tensor?[]", "Tensor[]", "Scalar", "Scalar?", "int", "int[]", "int?", "int[]?", "bool", "bool[]", "bool?", "float", "float?",
        "float[]", "float[]?", "t[]", "t", "t1", "t2", "Any", "Device", "Device?", "Generator", "Generator?", "str", "str?", "str[]",
        "Dict(str, Tensor)", "Dict(str, t)", "Dict(int, t)", "__torch__.torch.classes.quantized.LinearPackedParamsBase"}


def admits(t, nonvalue):
    """The structure of the values of a PyTorch type."""
    if t.endswith("?"):
        return ("optional", admits(t[:-1], nonvalue))
    if t.endswith("[]"):
        return ("list", admits(t[:-2], nonvalue))
    if t.startswith("Dict("):
        return "Torch_DictType"
    if t == "Tensor" and nonvalue:
        return "Torch_NonValueTensorType"
    return BASE.get(t)


class Ods:
    def __init__(self, text):
        self.defs = {m.group(1): (m.group(2), m.group(3)) for m in re.finditer(r"def\s+(\w+)\s*:\s*(\w+)\s*<([^;{]*?)>\s*[;{]", text)}

    def structure(self, n):
        if n == "AnyType":
            return "AnyTorchType"
        k, a = self.defs.get(n, ("", ""))
        if k == "OptionalOf":
            return ("optional", self.structure(a.split(",")[0].strip()))
        if k == "ListOf":
            m = re.match(r"\s*\[([^\],]*)\]", a)
            return ("list", self.structure(m.group(1).strip())) if m else n
        return n


# ------------------------------------------------------------------ schemas
def d(**k):
    return Dct([(K(a), b) for a, b in k.items()])


def arg(name_, type_, py=None, default=None, alias=None):
    kw = {}
    if default is not None:
        kw["default_debug"] = K(default)
    if alias:
        kw["alias_info"] = d(is_write=K(alias == "write"), before=Lst([K("alias::a")]), after=Lst([K("alias::a")]))
    return d(name=K(name_), type=K(type_), pytype=K(py or type_), **kw)


def schema(ns, unq, ovl, args, rets, vararg=False, varret=False, mutable=False):
    return d(name=tup(K(f"{ns}::{unq}"), K(ovl)), is_c10_op=TRUE, is_vararg=K(vararg), is_varret=K(varret), is_mutable=K(mutable), arguments=Lst(list(args)), returns=Lst(list(rets)))


def operator(it, p, s):
    return it.call_value(p.func(R, "JitOperator"), [s], {}, None)


def text_of(path):
    out = []
    for e in path.events:
        if e.kind == "call" and e.name.split(".")[-1] == "write" and e.recv == obj("out"):
            if not isinstance(e.args[0], K):
                raise LookupError(f"text is not known: {show(e.args[0])[:80]}")
            out.append(e.args[0].v)
    return "".join(out)


def emit(ctx, s, cons, fn="emit_op", **kw):
    p = ctx.project
    for m in (R, O, U):
        p.load(m)

    def run(it):
        em = it.call_value(p.func(U, "TextEmitter"), [obj("out")], {}, None)
        return it.call_value(p.func(O, fn), [operator(it, p, s), em], {k: (Lst([K(x) for x in v]) if isinstance(v, list) else K(v)) for k, v in kw.items()}, None)

    return ctx.explore(f"{fn}[{cons}]", run, **World().cfg())


DEF = re.compile(r'def\s+Torch_(\w+)\s*:\s*Torch_Op<\s*"([^"]*)"\s*,\s*\[(.*?)\]\s*>\s*\{(.*)\}\s*$', re.S)


def ports(body, what, kind):
    m = re.search(rf"let\s+{what}\s*=\s*\(\s*{kind}\b(.*?)\)\s*;", body, re.S)
    if not m:
        return None
    out = []
    for x in m.group(1).split(","):
        if x.strip():
            a, _, n = x.strip().rpartition(":$")
            out.append((a.strip(), n.strip()))
    return out


def class_name(parts):
    out = ""
    for a in parts:
        for s in a.split("_"):
            out += s[:1].upper() + s[1:] if s else "_"
    return (out + "Op").lstrip("_")


def judge(ods, text, want):
    """None, or how an emitted definition differs from the schema."""
    ms = DEF.findall(text.strip())
    if len(ms) != 1:
        return "not one definition"
    cls, name, traits, body = ms[0]
    parts = [want["ns"], want["unq"]] + ([want["ovl"]] if want["ovl"] else [])
    if name != ".".join(parts):
        return f"the operation is named {name}, the operator is {'.'.join(parts)}"
    if cls != class_name(parts):
        return f"the class is named {cls}, expected {class_name(parts)}"
    ts = [t.strip() for t in traits.split(",") if t.strip()]
    if sorted(ts) != sorted(want["traits"]):
        return f"the traits are {sorted(ts)}, expected {sorted(want['traits'])}"
    nonvalue = "IsTrailingUnderscoreInplaceVariant" in ts
    names = []
    for what, kind, var, types, ns in (("arguments", "ins", "operands" if want["vararg"] else None, want["args"], want["argnames"]),
                                       ("results", "outs", "results" if want["varret"] else None, want["rets"], want["retnames"])):
        ps = ports(body, what, kind)
        if ps is None:
            return f"no {what}"
        if var:
            if [a for a, _ in ps] != ["Variadic<AnyTorchType>"]:
                return f"variable {what} are {ps}"
            names.append([n for _, n in ps])
            continue
        if len(ps) != len(types):
            return f"{len(ps)} {what} for {len(types)}"
        for (a, n), t, w in zip(ps, types, ns):
            e = admits(t, nonvalue)
            if what == "results" and t == "Tensor":
                e = ("optional", e)
            if ods.structure(a) != e:
                return f"{what} ${n}: {a} does not stand for {t}{' of an in-place variant' if nonvalue else ''}"
            if w and n != w:
                return f"{what}: ${n} is the schema's {w}"
        names.append([n for _, n in ps])
    if len(set(names[0] + names[1])) != len(names[0] + names[1]) and len(set(want["argnames"] + [x for x in want["retnames"] if x])) == len(want["argnames"] + [x for x in want["retnames"] if x]):
        return f"the names are not distinct: {names}"
    if want["vararg"] or want["varret"]:
        m = re.search(r'let\s+assemblyFormat\s*=\s*"([^"]*)"', body)
        if not m:
            return "no assembly format"
        head, sep, tail = m.group(1).partition("`:`")
        lhs, arrow, rhs = tail.partition("`->`")
        if re.findall(r"\$(\w+)", head) != names[0] or "attr-dict" not in head or not sep:
            return f"the assembly format has the operands {head.strip()}"
        both = [re.findall(r"type\(\$(\w+)\)", x) for x in (lhs, rhs)]
        if arrow and both != names or not arrow and both[0] != names[0] + names[1]:
            return f"the assembly format has the types {tail.strip()}"
        if arrow and not (names[0] and names[1]):
            return "the assembly format has an arrow between nothing"
        if not arrow and names[0] and names[1]:
            return "the assembly format does not separate operands and results"
    else:
        for f in ("parseDefaultTorchOp", "printDefaultTorchOp"):
            m = re.findall(f + r"\(\s*\w+\s*,\s*\*?\w+\s*,\s*(\d+)\s*,\s*(\d+)\s*\)", body)
            if m != [(str(len(names[0])), str(len(names[1])))]:
                return f"{f} is given {m}"
        own = set(re.findall(r"(\w+)::(?:parse|print)\b", body))
        if own != {cls}:
            return f"the methods are of {own}"
        if not re.search(r"hasCustomAssemblyFormat\s*=\s*1", body):
            return "no custom assembly format"
    for k, f in (("has_folder", "hasFolder"), ("has_canonicalizer", "hasCanonicalizer"), ("has_verifier", "hasVerifier")):
        if bool(re.search(rf"let\s+{f}\s*=\s*1", body)) != bool(want.get(k)):
            return f"{f} is {'not ' if want.get(k) else ''}set"
    return None


def one(ctx, rule, cons, ods, ns="aten", unq="foo", ovl="", args=(), rets=(), vararg=False, varret=False, mutable=False, traits=(), may=(), **flags):
    """args, rets: (name, type[, alias])."""
    al = lambda xs: [x[2] if len(x) > 2 else None for x in xs]
    mk = lambda xs: [arg(x[0], x[1], alias=x[2] if len(x) > 2 else None) for x in xs]
    s = schema(ns, unq, ovl, mk(args), mk(rets), vararg, varret, mutable)
    aliases = al(args) + al(rets)
    readonly = "write" not in aliases
    want = dict(ns=ns, unq=unq, ovl=ovl, args=[x[1] for x in args], rets=[x[1] for x in rets], argnames=[x[0] for x in args], retnames=[x[0] for x in rets],
                vararg=vararg, varret=varret, **flags)
    value = readonly and not any(aliases) and not vararg and not varret
    if ns == "prim" and unq == "unchecked_cast" or unq in ("__is__", "__isnot__"):
        value = False
    want["traits"] = list(traits) + ["AllowsTypeRefinement"] + ["HasValueSemantics"] * value + ["ReadOnly"] * readonly
    kw = dict(flags)
    if traits:
        kw["traits"] = list(traits)
    ps = emit(ctx, s, cons, **kw)
    decide(ctx, rule, cons, ps, lambda p: judge(ods, text_of(p), want), may_raise=may)


def run(ctx):
    ctx.rule("type", "an argument or result is declared with the predicate that admits exactly its PyTorch type, or the type is rejected")
    ctx.rule("definition", "a definition has its operator's name, its arguments and results in order, and the declared flags")
    ctx.rule("traits", "read-only and value semantics are claimed exactly for schemas whose alias annotations allow it")
    ctx.rule("key", "different operators have different keys and are found under their own")
    ctx.rule("signature", "the signature of a library function has its operator's parameters, types, defaults and results")
    ctx.rule("verify", "a library function with another signature than its operator's is rejected")
    path = ctx.project.repo + "/" + TYPES_TD
    ods = Ods(open(path).read())
    ctx.group(types, ods)
    ctx.group(definitions, ods)
    ctx.group(traits, ods)
    ctx.group(keys)
    ctx.group(signatures)
    ctx.group(verify)
    ctx.floor("type", 150)
    ctx.floor("definition", 30)
    ctx.floor("traits", 80)
    ctx.floor("signature", 60)


INPLACE = "IsTrailingUnderscoreInplaceVariant"


def types(ctx, ods):
    ts = [b + s for b in ("Tensor", "Scalar", "int", "bool", "float", "str", "Device", "Generator", "t", "t1", "t2", "Any", "complex", "SymInt", "Layout", "Stream") for s in ("", "?", "[]", "[]?", "?[]")]
    ts += ["Dict(str, Tensor)", "Dict(str, t)", "Dict(int, t)", "Dict(str, t)[]", "__torch__.torch.classes.quantized.LinearPackedParamsBase", "__torch__.torch.classes.quantized.Conv2dPackedParamsBase"]
    for t in ts:
        for tr in ((), (INPLACE,)):
            may = () if t in MUST else ("*",)
            one(ctx, "type", f"argument of type {t}{' in place' if tr else ''}", ods, unq="foo_" if tr else "foo", args=[("self", t)], traits=tr, may=may)
            one(ctx, "type", f"result of type {t}{' in place' if tr else ''}", ods, unq="foo_" if tr else "foo", rets=[("", t)], traits=tr, may=may)


def definitions(ctx, ods):
    names = ["self", "dim", "from", "other"]
    some = ["Tensor", "int?", "Scalar", "Tensor?[]"]
    for n in range(5):
        for m in range(4):
            one(ctx, "definition", f"{n} arguments, {m} results", ods, args=list(zip(names[:n], some)), rets=[("", t) for t in some[:m]])
    one(ctx, "definition", "named results", ods, args=[("self", "Tensor")], rets=[("values", "Tensor"), ("indices", "Tensor")])
    one(ctx, "definition", "some named results", ods, args=[("self", "Tensor")], rets=[("values", "Tensor"), ("", "Tensor"), ("indices", "int[]")])
    for ns, unq, ovl in (("aten", "add_", "Tensor"), ("aten", "__and__", "Scalar"), ("prim", "TupleIndex", ""), ("prims", "convert_element_type", ""), ("aten", "_foo", "dim_IntList"),
                         ("aten", "foo__bar", ""), ("aten", "a", "b"), ("quantized", "linear", ""), ("aten", "div", "Tensor_mode"), ("x_y", "foo", "")):
        one(ctx, "definition", f"{ns}::{unq}.{ovl}", ods, ns=ns, unq=unq, ovl=ovl, args=[("self", "Tensor")], rets=[("", "Tensor")])
    for flags in itertools.product((False, True), repeat=3):
        fl = dict(zip(("has_folder", "has_canonicalizer", "has_verifier"), flags))
        one(ctx, "definition", f"flags {flags}", ods, args=[("self", "Tensor")], rets=[("", "Tensor")], **fl)
    for va, vr in ((True, False), (False, True), (True, True)):
        for n in range(3):
            for m in range(3):
                if va and n or vr and m:
                    continue
                one(ctx, "definition", f"vararg {va} varret {vr}, {n} and {m}", ods, args=list(zip(names[:n], some)), rets=[("", t) for t in some[:m]], vararg=va, varret=vr)


def traits(ctx, ods):
    al = (None, "read", "write")
    for a, b, r, s in itertools.product(al, repeat=4):
        one(ctx, "traits", f"aliases {a}, {b} -> {r}, {s}", ods, args=[("self", "Tensor", a), ("other", "Tensor", b)], rets=[("", "Tensor", r), ("", "Tensor", s)])
    for a in al:
        for va, vr in ((True, False), (False, True), (True, True)):
            one(ctx, "traits", f"alias {a}, vararg {va}, varret {vr}", ods, args=[] if va else [("self", "Tensor", a)], rets=[] if vr else [("", "Tensor", a)], vararg=va, varret=vr)
    for mut in (False, True):
        one(ctx, "traits", f"mutable {mut}, no aliases", ods, args=[("self", "Tensor")], rets=[], mutable=mut)
    for extra in (["Pure"], ["Commutative", "DeclareOpInterfaceMethods"], [INPLACE]):
        for a in al:
            one(ctx, "traits", f"given {extra}, alias {a}", ods, unq="foo_", args=[("self", "Tensor", a)], rets=[("", "Tensor", a)], traits=extra)
    one(ctx, "traits", "prim::unchecked_cast", ods, ns="prim", unq="unchecked_cast", args=[("x", "t")], rets=[("", "t")])
    for n in ("__is__", "__isnot__"):
        one(ctx, "traits", f"aten::{n}", ods, unq=n, args=[("self", "t1"), ("obj", "t2")], rets=[("", "bool")])
    one(ctx, "traits", "three arguments, the last written", ods, args=[("a", "Tensor"), ("b", "Tensor"), ("out", "Tensor", "write")], rets=[("", "Tensor", "write")])
    one(ctx, "traits", "a list that is written", ods, args=[("self", "Tensor[]", "write"), ("x", "int")], rets=[])


# ------------------------------------------------------------------ registry
def keys(ctx):
    p = ctx.project
    a = lambda *ts: [arg(f"a{i}", t) for i, t in enumerate(ts)]
    specs = [("aten", "add", "", ["Tensor"], ["Tensor"]), ("aten", "add", "Tensor", ["Tensor"], ["Tensor"]), ("aten", "add_", "", ["Tensor"], ["Tensor"]), ("aten", "add_", "Tensor", ["Tensor"], ["Tensor"]),
             ("prim", "add", "", ["Tensor"], ["Tensor"]), ("aten", "add", "out", ["Tensor", "int"], ["Tensor"]), ("aten", "add", "int", ["int", "int"], ["int"]), ("aten", "add", "none", [], []), ("aten", "_add", "", ["Tensor"], ["Tensor"])]
    want = [f"{n}::{u}{'.' + o if o else ''} : ({', '.join(x)}) -> ({', '.join(y)})" for n, u, o, x, y in specs]

    def run(it):
        ops = [operator(it, p, schema(n, u, o, a(*x), a(*y))) for n, u, o, x, y in specs]
        reg = it.call_value(p.func(R, "Registry"), [Lst(ops)], {}, None)
        out = []
        for i, (n, u, o, x, y) in enumerate(specs):
            by = it.index_protocol(reg, K(want[i])) if hasattr(it, "index_protocol") else it.call_value(it.attr(reg, "__getitem__", None), [K(want[i])], {}, None)
            tr = it.call_value(it.attr(reg, "get_by_triple", None), [tup(K(n), K(u), K(o))], {}, None)
            out.append(tup(it.attr(ops[i], "unique_key", None), K(by is ops[i]), K(tr is ops[i]), it.attr(ops[i], "triple", None)))
        return Lst(out)

    ps = ctx.explore("Registry", run, **World().cfg())

    def pred(q):
        rows = seq(freeze(q.value))
        for i, r in enumerate(rows):
            k, by, tr, triple = seq(r)
            if k != K(want[i]):
                return f"the key of {want[i]} is {show(k)}"
            if by != TRUE or tr != TRUE:
                return f"{want[i]} is not found under its own {'key' if by != TRUE else 'triple'}"
            if [x.v for x in seq(triple)] != list(specs[i][:3]):
                return f"the triple of {want[i]} is {show(triple)}"
        return None

    decide(ctx, "key", "operators with similar names", ps, pred)
    for va, vr in ((True, False), (False, True), (True, True)):
        s = schema("aten", "foo", "x", a("int"), a("int"), va, vr)
        ps = ctx.explore(f"JitOperator[{va}, {vr}]", lambda it: it.attr(operator(it, p, s), "unique_key", None), **World().cfg())
        w = f"aten::foo.x : ({'...' if va else 'int'}) -> ({'...' if vr else 'int'})"
        decide(ctx, "key", f"vararg {va} varret {vr}", ps, lambda q: None if freeze(q.value) == K(w) else f"the key is {show(q.value)}, expected {w}")
    for known in (True, False):
        def known_run(it):
            reg = it.call_value(p.func(R, "Registry"), [Lst([operator(it, p, schema("aten", "foo", "", a("int"), []))])], {}, None)
            return it.call_value(it.attr(reg, "assert_key_in_registry", None), [K("aten::foo : (int) -> ()" if known else "aten::bar : (int) -> ()")], {}, None)

        ps = ctx.explore(f"assert_key_in_registry[{known}]", known_run, **World().cfg())
        exits = lambda q: any(e.kind == "call" and e.name.split(".")[-1] == "exit" for e in q.events)
        decide(ctx, "key", f"a key that is {'' if known else 'not '}registered", ps, lambda q: None if exits(q) != known else f"{'rejected' if known else 'accepted'}", may_raise=() if known else ("*",))


def fn_type(t, kind):
    if kind == "shape":
        if "number" in t:
            return t.replace("number", "float")
        t2 = t.replace("Tensor", "List[int]")
    elif kind == "dtype":
        t2 = t.replace("Tensor", "Tuple[int, int]")
    else:
        t2 = t
    if t2 != t:
        return t2
    if "number" in t:
        return t.replace("number", "Union[int, float, complex]")
    return {"Device": "device", "Optional[Device]": "Optional[device]", "Generator": "Any", "Optional[Generator]": "Any"}.get(t, t)


def want_signature(kind, name_, args, rets):
    ps, rs = [], []
    if kind != "has_value_semantics":
        for n, t, dflt, dtext in args:
            n = "from_" if n == "from" else n
            if kind == "dtype" and "Tensor" in t:
                n += "_rank_dtype"
            ps.append(f"{n}: {fn_type(t, kind)}" + (f" = {dtext}" if dflt is not None else ""))
        for t in rets:
            rs.append("int" if kind == "dtype" and t in ("Tensor", "number") else fn_type(t, kind))
    res = "None" if not rs else rs[0] if len(rs) == 1 else f"Tuple[{', '.join(rs)}]"
    return f"def {name_}〡{kind}({', '.join(ps)}) -> {res}:"


KINDS = ("shape", "dtype", "decomposition", "has_value_semantics")
PARAMS = [("self", t, None, None) for t in ("Tensor", "Optional[Tensor]", "List[Tensor]", "List[Optional[Tensor]]", "number", "Optional[number]", "List[number]", "int", "Optional[int]", "List[int]",
                                            "Optional[List[int]]", "float", "bool", "str", "Optional[str]", "Device", "Optional[Device]", "Generator", "Optional[Generator]")]
PARAMS += [("from", "int", None, None), ("x", "int", "0", "0"), ("x", "bool", "False", "False"), ("x", "Optional[int]", "None", "None"), ("x", "float", "1.0", "1.0"), ("x", "number", "1", "1"),
           ("x", "List[int]", "[]", "()"), ("x", "List[int]", "[1]", "(1,)"), ("x", "List[int]", "[0, 1]", "(0, 1,)"), ("x", "Optional[List[int]]", "None", "None"), ("x", "Optional[List[int]]", "[2]", "(2,)"),
           ("x", "str", "none", '"none"'), ("x", "str", "", '""'), ("x", "Optional[Tensor]", "None", "None"), ("x", "List[bool]", "[True, False]", "(True, False,)")]


def signatures(ctx):
    p = ctx.project
    cases = [(f"{x[0]}: {x[1]} = {x[2]}", [x], ["Tensor"]) for x in PARAMS]
    cases += [(f"result {t}", [("self", "Tensor", None, None)], [t]) for t in ("Tensor", "number", "int", "List[int]", "List[Tensor]", "Optional[Tensor]", "bool", "float")]
    cases += [("no result", [PARAMS[0]], []), ("two results", [PARAMS[0]], ["Tensor", "Tensor"]), ("three results", [PARAMS[0]], ["Tensor", "int", "List[int]"]), ("nothing", [], ["Tensor"]),
              ("several parameters", [PARAMS[0], ("other", "Tensor", None, None), ("dim", "Optional[int]", "None", "None"), ("from", "int", "1", "1")], ["Tensor"])]
    for kind in KINDS:
        for name_, trip in (("aten〇foo〇bar", ("aten", "foo", "bar")), ("aten〇foo_", ("aten", "foo_", ""))):
            for cons, args, rets in cases if name_.endswith("bar") or ctx.deep else cases[:3]:
                s = schema(*trip, [arg(n, t, t, default=df) for n, t, df, _ in args], [arg("", t, t) for t in rets])
                ps = ctx.explore(f"get_{kind}_function_signature[{cons}]", lambda it: it.call_value(it.attr(operator(it, p, s), f"get_{kind}_function_signature", None), [], {}, None), **World().cfg())
                w = want_signature(kind, name_, args, rets)
                decide(ctx, "signature", f"{kind} of {name_}, {cons}", ps, lambda q: None if freeze(q.value) == K(w) else f"the signature is {show(q.value)}, expected {w}")


def verify(ctx):
    p = ctx.project
    p.load(L)
    args = [("self", "Tensor", None, None), ("dim", "Optional[int]", "None", "None")]
    for kind in KINDS:
        for trip, name_ in ((("aten", "foo", "bar"), "aten〇foo〇bar"), (("aten", "foo", ""), "aten〇foo")):
            good = want_signature(kind, name_, args, ["Tensor"])
            for what, source, fname, ok in (
                ("the operator's signature", good, f"{name_}〡{kind}", True),
                ("a decorator above", "@check\n" + good, f"{name_}〡{kind}", True),
                ("another parameter", good.replace("(", "(x: int", 1) if kind == "has_value_semantics" else good.replace("dim", "dims"), f"{name_}〡{kind}", False),
                ("another result", good.replace(") -> ", ") -> Optional"), f"{name_}〡{kind}", False),
                ("another default", None if kind == "has_value_semantics" else good.replace("= None", "= 0"), f"{name_}〡{kind}", False),
                ("an unknown operator", good.replace("foo", "bar"), f"{name_}〡{kind}".replace("foo", "bar"), False),
                ("an unknown kind", good.replace(kind, "length"), f"{name_}〡length", False),
            ):
                if source is None:
                    continue
                w = World()
                f = w.obj("function", "builtins.function", __name__=K(fname))
                w.models["inspect.getsource"] = lambda it, recv, a, kw, node, source=source: K(source + "\n    return self\n")
                s = schema(*trip, [arg(n, t, t, default=df) for n, t, df, _ in args], [arg("", "Tensor")])

                def go(it):
                    reg = it.call_value(p.func(R, "Registry"), [Lst([operator(it, p, s)])], {}, None)
                    return it.call_value(p.func(L, "_verify_signature_matches_registry"), [f, reg], {}, None)

                ps = ctx.explore(f"_verify_signature_matches_registry[{kind}, {what}]", go, **w.cfg())
                decide(ctx, "verify", f"{kind} of {name_}: {what}", ps, lambda q: None, **({} if ok else {"must_raise": ("*",)}))
