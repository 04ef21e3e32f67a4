"""C39: ONNX operators are converted from their own attributes and operands.

Every handler that TorchOnnxToTorch registers is compared with the schemas of its
operator (sa/onnxfacts.json) at the opsets it handles: the attributes it reads, with
their kinds and defaults, the operands and results it addresses, and what of the
operator it never looks at."""

import json
import os
import re

from sa import cpp
from sa.interp import AnalysisError
from sa.torchfacts import read

DIR = "lib/Conversion/TorchOnnxToTorch/"
FILES = ("DefaultDomainAtoF", "DefaultDomainGtoP", "DefaultDomainQtoZ", "ComMicrosoftDomain", "OnnxRecurrentLayerOpExpanders", "Utils", "Patterns")
DOMAIN = ("DefaultDomainAtoF", "DefaultDomainGtoP", "DefaultDomainQtoZ")
BINDER = "include/torch-mlir/Conversion/TorchOnnxToTorch/Patterns.h"

KIND = {"s64IntegerAttr": "INT", "s64BoolAttr": "INT", "optionalS64IntegerAttr": "INT", "f32FloatAttr": "FLOAT", "customOpNameStringAttr": "STRING",
        "s64IntegerArrayAttr": "INTS", "f32FloatArrayAttr": "FLOATS", "stringArrayAttr": "STRINGS", "denseElementsAttr": "TENSOR"}
IMPLICIT = {"s64IntegerAttr": 0, "s64BoolAttr": 0, "f32FloatAttr": 0.0, "customOpNameStringAttr": ""}

# Opsets before 7 have their own broadcasting and in-place attributes; the
# converter does not claim them.
FIRST = 7

# What an absent attribute means where the schema states no default
# (the operators' documentation): the value every element takes.
FILL = {"pads": 0, "strides": 1, "dilations": 1, "output_padding": 0}

SAME = [{"linear", "bilinear"}, {"forward", "foward"}]  # one mode under two names; a misprint of the schema

# Attributes an operator's conversion need not read.
NEEDLESS = {
    "kernel_shape": {"MaxUnpool": "the result type carries the extents", "QLinearConv": "the attributes are handed to Conv as they are"},
    "type": {"Optional": "the result type"},
    "then_branch": {"If": "a region"}, "else_branch": {"If": "a region"}, "body": {"Loop": "a region", "SequenceMap": "a region", "Scan": "a region"},
    "sparse_value": {"Constant": "each form of a constant has its own attribute; others fail to convert"},
    "value_string": {"Constant": "as sparse_value"}, "value_strings": {"Constant": "as sparse_value"}, "value_floats": {"Constant": "as sparse_value"},
    "pool_strings": {"TfIdfVectorizer": "without pool_int64s the conversion fails"},
    "output_dtype": {"QuantizeLinear": "the result type"},
    "activation_alpha": {n: "only activations without parameters are expanded" for n in ("RNN", "LSTM", "GRU")},
    "activation_beta": {n: "only activations without parameters are expanded" for n in ("RNN", "LSTM", "GRU")},
}
# Operators whose absent dtype is that of the operand: a code as default is wrong.
OPERAND_DTYPE = {"EyeLike", "RandomNormalLike", "RandomUniformLike", "Bernoulli"}

# Attributes read without their value being needed
SPARE = {("Split", "num_outputs"): "the number of results", ("DeformConv", "kernel_shape"): "that of the weights", ("SpaceToDepth", "mode"): "no attribute of the operator; it has one mode",
         ("SplitToSequence", "keepdims"): "matters without split, which fails to convert"}
# Operands that need no look
SPARE_OPERANDS = {("Loop", 0): "a list", ("Resize", 1): "roi", ("MaxUnpool", 2): "the result type carries the extents", ("OptionalHasElement", None): "its presence is the result"}
BINDS = {"tensorOperand": 1, "tensorListOperand": 1, "tensorOperandAtIndex": 1, "tensorListOperandAtIndex": 1, "optionalTensorOperand": 1, "optionalTensorListOperand": 1, "tensorOperands": 2}


class Use:
    def __init__(self, method, args, token, path):
        self.method, self.args, self.token, self.path = method, args, token, path
        self.line = token.line


def text(ts):
    return "".join(ts)


class Handlers:
    def __init__(self, repo):
        self.fns, self.list = {}, []
        for f in FILES:
            p = os.path.join(repo, DIR, f + ".cpp")
            if not os.path.exists(p):
                raise AnalysisError(f"anchor vanished: {DIR}{f}.cpp")
            ts = cpp.tokens(read(p))
            for fn in cpp.functions(ts):
                fn.cls = f
                self.fns.setdefault(fn.name, []).append(fn)
            if f in DOMAIN or f == "ComMicrosoftDomain":
                self.registrations(ts, f)

    def registrations(self, ts, f):
        for i, t in enumerate(ts):
            if t == "onOp" and i + 1 < len(ts) and ts[i + 1] == "(":
                a = cpp.split(ts[i + 2:cpp.match(ts, i + 1)])
                if len(a) != 3 or a[0][0].kind != "str" or a[1][0].kind != "num":
                    raise AnalysisError(f"a registration at {f}.cpp:{t.line} is of another form")
                self.list.append((str(a[0][0])[1:-1], int(a[1][0]), f, t.line, self.body(a[2])))

    def body(self, ts):
        if ts[0] == "[":
            i = cpp.match(ts, 0) + 1
            j = cpp.match(ts, i)
            b = str(cpp.split(ts[i + 1:j])[0][-1])
            i = j + 1
            while ts[i] != "{":
                i += 1
            return b, ts[i + 1:cpp.match(ts, i)], None
        fn = self.fns.get(str(ts[-1]), [None])[0]
        if fn is None:
            # defined after the registrations of this file were read
            return None, str(ts[-1]), None
        return fn.params[0], fn.body, fn.cls

    def resolve(self):
        out = []
        for n, since, f, line, (b, ts, g) in self.list:
            if b is None:
                fn = self.fns.get(ts, [None])[0]
                if fn is None:
                    raise AnalysisError(f"no definition of {ts}, the handler of {n}")
                b, ts, g = fn.params[0], fn.body, fn.cls
            out.append((n, since, f, line, b, ts, g or f))
        return out

    def uses(self, ts, names, env, path, depth=0):
        """The calls on the binder, also in the functions it is passed to."""
        out = []
        for i, t in enumerate(ts):
            if t.kind != "id":
                continue
            if t in names and i + 2 < len(ts) and ts[i + 1] == ".":
                j = i + 3
                if j < len(ts) and ts[j] == "(":
                    args = [self.subst(a, env) for a in cpp.split(ts[j + 1:cpp.match(ts, j)])]
                    out.append(Use(str(ts[i + 2]), args, ts[i + 2], path))
                elif ts[i + 2] == "op" and j + 2 < len(ts) and ts[j] == "->" and ts[j + 2] == "(":
                    args = [self.subst(a, env) for a in cpp.split(ts[j + 3:cpp.match(ts, j + 2)])]
                    out.append(Use("op->" + ts[j + 1], args, ts[j + 1], path))
            q = i + 1
            if q < len(ts) and ts[q] == "<":
                q = (cpp.angle_end(ts, q) or -2) + 1
            if 0 < q < len(ts) and ts[q] == "(" and str(t) in self.fns and depth < 6:
                args = cpp.split(ts[q + 1:cpp.match(ts, q)])
                pos = [k for k, a in enumerate(args) if len(a) == 1 and a[0] in names]
                if pos:
                    for fn in self.fns[str(t)]:
                        if len(fn.params) >= len(args):
                            sub = {p: a for p, a in zip(fn.params, (self.subst(x, env) for x in args)) if all(x.kind in ("str", "num") or x in ("true", "false", "-") for x in a)}
                            out += self.uses(fn.body, {fn.params[k] for k in pos}, sub, fn.cls, depth + 1)
        return out

    @staticmethod
    def subst(a, env):
        out = []
        for x in a:
            out += env[str(x)] if x.kind == "id" and str(x) in env else [x]
        return out

    def strings(self, ts, seen=None):
        """String literals of a body and of the functions it names."""
        seen = set() if seen is None else seen
        out = set()
        for i, t in enumerate(ts):
            if t.kind == "str":
                out.add(str(t)[1:-1])
            elif t.kind == "id" and str(t) in self.fns and str(t) not in seen and i + 1 < len(ts) and ts[i + 1] in ("(", "<"):
                seen.add(str(t))
                for fn in self.fns[str(t)]:
                    out |= self.strings(fn.body, seen)
        return out


def literal(a):
    """The value of a literal, a list of it, or None with the source."""
    s = text(a)
    if s in ("true", "false"):
        return int(s == "true"), None
    if len(a) == 1 and a[0].kind == "str":
        return s[1:-1], None
    m = re.fullmatch(r"-?[0-9.]+(e-?\d+)?[fF]?", s)
    if m:
        s = s.rstrip("fF")
        return (float(s) if "." in s or "e" in s else int(s)), None
    m = re.fullmatch(r"(?:llvm::)?(?:SmallVector<[\w:]+(?:,\d+)?>)?\(?\{([-\d., ]*)\}\)?", s)
    if m:
        return [float(x) if "." in x else int(x) for x in m[1].split(",") if x], None
    if "numeric_limits<float>::lowest()" in s:
        return -3.4028234663852886e38, None
    if "numeric_limits<float>::max()" in s:
        return 3.4028234663852886e38, None
    return None, s


def filled(ts, name):
    """The element a local vector is filled with: SmallVector<T> name(n, K), {K, K},
    or push_back(K)."""
    vs = set()
    for i, t in enumerate(ts):
        if t != name or i + 1 >= len(ts):
            continue
        if ts[i + 1] == "." and ts[i + 2] in ("push_back", "emplace_back", "append", "assign", "resize"):
            a = cpp.split(ts[i + 4:cpp.match(ts, i + 3)])
            vs.add(literal(a[-1])[0])
        elif i and (ts[i - 1] == ">" or ts[i - 1] == ","):
            if ts[i + 1] == "(":
                a = cpp.split(ts[i + 2:cpp.match(ts, i + 1)])
                if len(a) == 2:
                    vs.add(literal(a[1])[0])
                elif len(a) == 1 and a[0][0] == "{":
                    vs |= set(literal(a[0])[0] or [None])
            elif ts[i + 1] == "{":
                vs |= set(literal(ts[i + 1:cpp.match(ts, i + 1) + 1])[0] or [None])
            elif ts[i + 1] == "=" and ts[i + 2] == "{":
                vs |= set(literal(ts[i + 2:cpp.match(ts, i + 2) + 1])[0] or [None])
    return vs.pop() if len(vs) == 1 else None


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        # schemas carry float32 values
        import struct
        f = lambda x: struct.unpack("f", struct.pack("f", x))[0] if abs(x) < 3.5e38 else x
        return a == b or f(float(a)) == f(float(b))
    return a == b or any(a in s and b in s for s in SAME if isinstance(a, str) and isinstance(b, str))


def facts():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "onnxfacts.json")) as f:
        return json.load(f)["ops"]


def handled(schemas, since, until):
    """The schemas in force at some opset from max(since, FIRST) to before `until`."""
    lo = max(since, FIRST)
    out = [s for s in schemas if s["since"] > lo and (until is None or s["since"] < until)]
    base = [s for s in schemas if s["since"] <= lo][-1:]
    return [s for s in base + out if not s["deprecated"]]


def body_of(h, ts, u):
    """The body a use stands in, and the handler's own otherwise."""
    for b in [ts] + [f.body for fs in h.fns.values() for f in fs if f.cls == u.path]:
        if any(t is u.token for t in b):
            return b
    return ts


def mentioned_after(b, token, var):
    """Is a variable mentioned after the call that binds it?"""
    k = next((i for i, t in enumerate(b) if t is token), None)
    if k is None:
        return True
    e = cpp.match(b, k + 1)
    for i in range(e, len(b)):
        # a variable that is only assigned is not used
        if b[i].kind == "id" and b[i] == var and b[i - 1] not in (".", "->") and not (i + 1 < len(b) and b[i + 1] == "=" and b[i - 1] in (";", "{", "}", ")", "else")):
            return True
    return False


def reads(h, r):
    """The names of attributes a handler reads."""
    return {literal(u.args[1])[0] for u in h.uses(r[5], {r[4]}, {}, r[6]) if u.method in KIND and len(u.args) > 1}


def check(ctx, h, name, since, until, file, line, binder, ts, src, schemas, others):
    at = f"{DIR}{file}.cpp:{line}"
    who = f"{name} from opset {since}"
    app = handled(schemas, since, until)
    if not ctx.ob(bool(app), "operator", who, at, "is no operator of ONNX at any opset it is registered for"):
        return
    uses = h.uses(ts, {binder}, {}, src)
    attrs = {}
    for s in app:
        for n, a in s["attrs"].items():
            attrs.setdefault(n, []).append(a)
    every = {n for s in schemas for n in s["attrs"]}
    seen = h.strings(ts)
    seen = {x[len("torch.onnx."):] if x.startswith("torch.onnx.") else x for x in seen}
    got = set(others)
    for u in uses:
        if u.method not in KIND:
            continue
        here = f"{DIR}{u.path}.cpp:{u.line}"
        n = literal(u.args[1])[0] if len(u.args) > 1 else None
        if not isinstance(n, str):
            continue  # one of several names, which `seen` has
        got.add(n)
        if (name, n) not in SPARE:
            ctx.ob(n in every, "attribute", f"{who}: attribute {n}", here, f"ONNX's {name} has no attribute {n}")
        if n not in attrs:
            continue
        for k in sorted({a["type"] for a in attrs[n]}):
            ctx.ob(k == KIND[u.method], "kind", f"{who}: attribute {n}", here, f"is read as {KIND[u.method]}, it is {k}")
        d, source = literal(u.args[2]) if len(u.args) > 2 else (IMPLICIT.get(u.method), None)
        if len(u.args) > 2 and text(u.args[2]) == "{}" and u.method in IMPLICIT:
            d = IMPLICIT[u.method]  # value initialization of the parameter
        stated = [a["default"] for a in attrs[n] if a["default"] is not None]
        if u.method in ("stringArrayAttr", "denseElementsAttr", "optionalS64IntegerAttr"):
            pass  # have no default
        elif stated and source is None:
            for w in stated:
                ctx.ob(same(d, w), "default", f"{who}: attribute {n}", here, f"is {d!r} where a model leaves it out, ONNX's default is {w!r}")
        elif n == "dtype" and name in OPERAND_DTYPE:
            ctx.ob(isinstance(d, int) and d <= 0, "default", f"{who}: attribute dtype", here, f"is {d!r} where a model leaves it out, ONNX takes the dtype of the operand")
        elif source is not None and n in FILL:
            m = re.fullmatch(r"(?:llvm::)?SmallVector<int64_t>\([^,]*,(-?\d+)\)", source) or re.fullmatch(r"SmallVector<int64_t>\{(\d+)(?:,\1)*\}", source)
            if m:
                v = int(m[1])
            else:
                v = filled(body_of(h, ts, u), source)
            if v is not None:
                ctx.ob(v == FILL[n], "default", f"{who}: attribute {n}", here, f"is filled with {v} where a model leaves it out, ONNX takes {FILL[n]}")
        # the value is used
        var = text(u.args[0])
        if (name, n) not in SPARE and len(u.args[0]) == 1:
            ctx.ob(mentioned_after(body_of(h, ts, u), u.token, var), "used", f"{who}: attribute {n}", here, f"is read into {var} and then ignored")
    for n in sorted(attrs):
        if name in NEEDLESS.get(n, {}):
            continue
        ctx.ob(n in got or n in seen or "attrdict" in got or any(u.method in ("op->getAttrDictionary", "op->getAttrs") for u in uses), "unread", f"{who}: attribute {n}", at, f"is never looked at: a model that sets it is converted as if it did not")
    # a bound operand is used
    for u in uses:
        if u.method not in BINDS:
            continue
        for a in u.args[:1 if u.method == "tensorOperands" and has_list(ts, u, h) else BINDS[u.method]]:
            if len(a) == 1 and not a[0].kind == "num":
                idx = text(u.args[-1] if u.method.endswith("AtIndex") else a)
                if (name, literal(u.args[-1])[0]) not in SPARE_OPERANDS:
                    ctx.ob(mentioned_after(body_of(h, ts, u), u.token, text(a)), "used", f"{who}: operand {idx}", f"{DIR}{u.path}.cpp:{u.line}", f"is bound to {text(a)} and then ignored")
    # operands
    most = max(s["max_in"] for s in app)
    least = min(s["min_in"] for s in app)
    known = [u for u in uses if u.method in ("tensorOperandAtIndex", "tensorListOperandAtIndex", "op->getOperand")]
    at_index, open_ended = set(), False
    for u in known:
        k = literal(u.args[-1])[0]
        if not isinstance(k, int):
            open_ended = True
            continue
        at_index.add(k)
        ctx.ob(k < most, "operand", f"{who}: operand {k}", f"{DIR}{u.path}.cpp:{u.line}", f"ONNX's {name} has {most} operands")
    fixed = []
    for u in uses:
        if u.method in ("tensorOperand", "tensorListOperand", "optionalTensorOperand", "optionalTensorListOperand"):
            fixed.append((1, u))
        elif u.method == "tensorOperands":
            k = literal(u.args[1])[0]
            fixed.append((k if isinstance(k, int) else 2 if not has_list(ts, u, h) else None, u))
        elif u.method in ("tensorOperandsList", "op->getOperands"):
            open_ended = True
    for k, u in fixed:
        if k is None:
            open_ended = True
            continue
        ctx.ob(least <= k <= most, "operand", f"{who}: {k} operands", f"{DIR}{u.path}.cpp:{u.line}", f"ONNX's {name} has {least} to {most}")
    if not fixed and not open_ended:
        for k in range(most):
            if (name, k) not in SPARE_OPERANDS:
                i = next(s for s in app if s["max_in"] > k)
                ctx.ob(k in at_index, "unread", f"{who}: operand {k} ({i['inputs'][min(k, len(i['inputs']) - 1)][0]})", at, "is never looked at: a model that gives it is converted as if it did not")
    # results
    mo = max(s["max_out"] for s in app)
    for u in uses:
        if u.method == "tensorResultTypeAtIndex":
            k = literal(u.args[-1])[0]
            if isinstance(k, int):
                ctx.ob(k < mo, "operand", f"{who}: result {k}", f"{DIR}{u.path}.cpp:{u.line}", f"ONNX's {name} has {mo} results")


def has_list(ts, u, h):
    """tensorOperands(list, n) rather than tensorOperands(a, b): its first argument is a vector."""
    b, v = body_of(h, ts, u), text(u.args[0])
    return any(t.kind == "id" and t == v and i >= 2 and b[i - 1] == ">" for i, t in enumerate(b))


def dispatch(ctx):
    h = Handlers(ctx.repo)
    F = facts()
    byname = {}
    for r in h.resolve():
        byname.setdefault(r[0], []).append(r)
    skipped = 0
    for name, rs in byname.items():
        sinces = [r[1] for r in rs]
        if len(rs) > 1:
            ctx.ob(sinces == sorted(sinces, reverse=True), "operator", f"the handlers of {name}", f"{DIR}{rs[0][2]}.cpp:{rs[0][3]}", f"are tried in the order of registration: that of opset {sinces[0]} is taken at opsets of a later one ({sinces})")
    for name, rs in byname.items():
        if rs[0][2] == "ComMicrosoftDomain":
            skipped += 1
            continue
        for r in rs:
            later = [x[1] for x in rs if x[1] > r[1]]
            ctx.group(check, h, name, r[1], min(later) if later else None, r[2], r[3], r[4], r[5], r[6], F.get(name, []), set().union(*(reads(h, x) for x in rs if x is not r and x[1] == r[1])))
    ctx.notes.append(f"{skipped} handlers of com.microsoft operators have no schema in the sandbox and are left out")


def run(ctx):
    ctx.rule("operator", "a handler is registered for an operator of ONNX, the newest of an operator first")
    ctx.rule("attribute", "a handler reads attributes that its operator has")
    ctx.rule("kind", "an attribute is read as what it is")
    ctx.rule("default", "an attribute that a model leaves out has ONNX's default")
    ctx.rule("used", "the value of an attribute that is read matters")
    ctx.rule("unread", "every attribute and operand of the operator is looked at")
    ctx.rule("operand", "operands and results are addressed where the operator has them")
    ctx.group(dispatch)
    ctx.floor("operator", 150)
    ctx.floor("attribute", 200)
    ctx.floor("default", 150)
    ctx.floor("unread", 200)
    ctx.floor("operand", 200)
