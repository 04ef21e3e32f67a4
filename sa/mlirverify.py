"""Verifies the module embedded in AbstractInterpLibrary.cpp the way an MLIR
parser and verifier would: scopes, types, terminators, calls, declared
operations."""

import os
import re

from .interp import AnalysisError
from .mlirlib import FILE, text_of

TD = "include/torch-mlir/Dialect/Torch/IR/"
VAL = r"%[\w\-.$]+(?:#\d+)?"


def split(s):
    """Top-level comma separated parts."""
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def types(s):
    s = s.strip()
    if s.startswith("(") and s.endswith(")"):
        s = s[1:-1]
    return [t.replace("!torch.", "") for t in split(s)]


def arrow(s):
    """The two sides of a top-level '->'."""
    a, b = re.split(r" -> (?![^<]*>)|^-> ", s, maxsplit=1) if "->" in s else (s, "")
    return types(a), types(b)


class Decl:
    def __init__(self, ins, outs):
        self.ins, self.outs = ins, outs


def declarations(repo):
    """The operations of the torch dialect: name -> (operands, results)."""
    out = {}
    for f in ("GeneratedTorchOps.td", "TorchOps.td"):
        with open(os.path.join(repo, TD, f), encoding="utf-8") as h:
            src = h.read()
        for m in re.finditer(r'^def \w+ ?: Torch_Op<"([^"]+)"(.*?)^\}', src, re.M | re.S):
            if "{" not in m.group(2):
                continue
            b = m.group(2)
            io = []
            for k in ("arguments", "results"):
                x = re.search(rf"let {k} = \(\w+(.*?)\n?\s*\);", b, re.S)
                io.append([re.sub(r"\s+", " ", y) for y in split(re.sub(r"//[^\n]*", "", x.group(1)))] if x else None)
            out[m.group(1)] = Decl(*io)
    return out


SIMPLE = {"Torch_IntType": "int", "Torch_BoolType": "bool", "Torch_FloatType": "float", "Torch_StringType": "str", "Torch_NoneType": "none", "Torch_NumberType": "number",
          "Torch_DeviceType": "Device", "Torch_GeneratorType": "Generator", "Torch_AnyType": "any"}


def tensor(t):
    return t == "tensor" or t.startswith("vtensor") or t.startswith("tensor<")


def scalar(t):
    return t in ("int", "float", "number") or t.startswith("union<") and set(split(t[6:-1])) <= {"int", "float", "number"}


def accepts(c, t):
    """Whether an operand constrained to c can be of type t; None: unknown c."""
    c = c.split(":")[0].strip()
    m = re.match(r"Variadic<(.*)>$", c)
    if m:
        return accepts(m.group(1), t)
    if c in SIMPLE:
        return t == SIMPLE[c]
    if c == "AnyTorchType":
        return True
    if c == "AnyTorchListType":
        return t.startswith("list<")
    if c in ("AnyTorchTensorType", "Torch_NonValueTensorType"):
        return tensor(t)
    if c == "AnyTorchScalarType":
        return scalar(t)
    m = re.match(r"AnyTorchOptional(\w+?)(Type)?$", c)
    if m:
        inner = m.group(1)
        base = {"Int": "Torch_IntType", "Float": "Torch_FloatType", "Bool": "Torch_BoolType", "String": "Torch_StringType", "Device": "Torch_DeviceType", "Generator": "Torch_GeneratorType",
                "Tensor": "AnyTorchTensorType", "NonValueTensor": "AnyTorchTensorType", "Scalar": "AnyTorchScalarType", "ListOfTorchInt": "AnyTorchListOfTorchIntType",
                "ListOfTorchFloat": "AnyTorchListOfTorchFloatType"}.get(inner)
        if base is None:
            return None
        return t == "none" or t.startswith("optional<") or accepts(base, t)
    m = re.match(r"AnyTorchListOf(\w+?)(Type)?$", c)
    if m:
        if not t.startswith("list<"):
            return False
        e = t[5:-1]
        base = {"TorchBool": "Torch_BoolType", "TorchInt": "Torch_IntType", "TorchFloat": "Torch_FloatType", "TorchString": "Torch_StringType", "Tensor": "AnyTorchTensorType",
                "NonValueTensor": "AnyTorchTensorType", "OptionalTensor": "AnyTorchOptionalTensorType", "OptionalNonValueTensor": "AnyTorchOptionalTensorType", "OptionalInt": "AnyTorchOptionalIntType"}.get(m.group(1))
        return None if base is None else accepts(base, e)
    return None


def subtype(a, b):
    if a == b or b == "any":
        return True
    if b.startswith("optional<"):
        return a == "none" or subtype(a[9:-1] if a.startswith("optional<") else a, b[9:-1])
    if b == "number":
        return scalar(a)
    if b.startswith("union<"):
        alts = split(b[6:-1])
        return all(x in alts for x in split(a[6:-1])) if a.startswith("union<") else a in alts or "number" in alts and scalar(a)
    if b.startswith("tuple<") and a.startswith("tuple<"):
        x, y = split(a[6:-1]), split(b[6:-1])
        return len(x) == len(y) and all(subtype(p, q) for p, q in zip(x, y))
    if tensor(a) and tensor(b):
        return True
    return False


class Fn:
    def __init__(self, name, args, ins, outs, line):
        self.name, self.args, self.ins, self.outs, self.line = name, args, ins, outs, line


HEAD = re.compile(r'func\.func (private )?@("[^"]*"|[\w.$\-]+)\((.*?)\)(?: -> (.*?))? \{$')


class Verifier:
    def __init__(self, repo):
        with open(os.path.join(repo, FILE), encoding="utf-8") as f:
            self.src = f.read()
        self.lines, self.where = text_of(self.src)
        self.decls = declarations(repo)
        self.fns, self.problems, self.ops = {}, [], 0
        self.dup = []
        self.at = {}
        for i, l in enumerate(self.lines):
            m = HEAD.match(l.strip())
            if m:
                n = m.group(2).strip('"')
                ps = split(m.group(3))
                f = Fn(n, [p.split(":")[0].strip() for p in ps], types(", ".join(p.split(":", 1)[1] for p in ps)), types(m.group(4) or ""), self.where[i])
                if n in self.fns:
                    self.dup.append((n, self.where[i]))
                self.fns[n] = f
                self.at[n] = i

    # -- one function

    def verify(self, n):
        """The problems of function n: (line, text)."""
        self.f = self.fns[n]
        self.bad = []
        self.i = self.at[n] + 1
        scope = [dict()]
        for a, t in zip(self.f.args, self.f.ins):
            self.define(scope, a, t)
        end = self.block(scope, ("func", self.f.outs))
        if end != "}":
            self.p(f"the function ends with {end!r}")
        return self.bad

    def p(self, s):
        self.bad.append((self.where[min(self.i - 1, len(self.where) - 1)], s))

    def define(self, scope, name, t):
        if any(name in s for s in scope):
            self.p(f"{name} is defined twice")
        scope[-1][name] = t

    def use(self, scope, name, t=None):
        for s in reversed(scope):
            if name in s:
                if t is not None and s[name] != t:
                    self.p(f"{name} is used as {t}, it is a {s[name]}")
                return s[name]
        self.p(f"{name} is used but not defined")
        return t

    def uses(self, scope, vs, ts, what):
        if len(vs) != len(ts):
            self.p(f"{what}: {len(vs)} operands, {len(ts)} types")
            return
        for v, t in zip(vs, ts):
            self.use(scope, v, t)

    def results(self, scope, res, ts, what):
        if len(res) != len(ts):
            self.p(f"{what}: {len(res)} results, {len(ts)} types")
        for r, t in zip(res, ts):
            self.define(scope, r, t)

    def block(self, scope, kind):
        ended = False
        while True:
            if self.i >= len(self.lines):
                self.p("the module ends within a function")
                return ""
            l = self.lines[self.i].strip()
            self.i += 1
            if l.startswith("}"):
                if not ended:
                    self.p("a region without a terminator")
                return l
            if ended:
                self.p("an operation after the terminator")
            self.ops += 1
            ended = self.op(l, scope, kind)

    def op(self, l, scope, kind):
        m = re.match(r"(%[\w\-.$]+)(?::(\d+))? = (.*)$", l)
        res, rest = [], l
        if m:
            res = [m.group(1)] if not m.group(2) else [f"{m.group(1)}#{k}" for k in range(int(m.group(2)))]
            rest = m.group(3)
        m = re.match(r"[\w.]+", rest)
        if not m:
            self.p(f"cannot read {l[:60]!r}")
            return False
        name, rest = m.group(0), rest[m.end():].strip()
        if name == "return":
            a, t = self.plain(rest)
            self.uses(scope, a, t, name)
            if t != kind[1] or kind[0] != "func":
                self.p(f"returns {', '.join(t)}, the function's type says {', '.join(kind[1])}")
            return True
        if name == "torch.prim.If.yield":
            a, t = self.plain(rest)
            self.uses(scope, a, t, name)
            if kind[0] != "if" or t != kind[1]:
                self.p(f"yields {', '.join(t)} where {', '.join(kind[1])} is expected")
            return True
        if name == "torch.prim.Loop.condition":
            m = re.match(rf"({VAL}), iter\((.*)\)$", rest)
            if not m:
                self.p("cannot read a loop's condition")
                return True
            self.use(scope, m.group(1), "bool")
            it = m.group(2).split(" : ", 1)
            vs, ts = split(it[0]), types(it[1] if len(it) > 1 else "")
            self.uses(scope, vs, ts, name)
            if kind[0] != "loop" or ts != kind[1]:
                self.p(f"the loop goes on with {', '.join(ts)} where {', '.join(kind[1])} is expected")
            return True
        if name == "torch.prim.If":
            m = re.match(rf"({VAL}) -> \((.*)\) \{{$", rest)
            if not m:
                self.p("cannot read a condition")
                return False
            self.use(scope, m.group(1), "bool")
            ts = types(m.group(2))
            e = self.block(scope + [{}], ("if", ts))
            if e != "} else {":
                self.p("a condition without else")
                return False
            e = self.block(scope + [{}], ("if", ts))
            if e != "}":
                self.p(f"a condition ends with {e!r}")
            self.results(scope, res, ts, name)
            return False
        if name == "torch.prim.Loop":
            m = re.match(rf"({VAL}), ({VAL}), init\((.*?)\) \{{$", rest)
            b = re.match(r"\^bb0\((.*)\):$", self.lines[self.i].strip())
            if not m or not b:
                self.p("cannot read a loop")
                return False
            self.i += 1
            self.use(scope, m.group(1), "int")
            self.use(scope, m.group(2), "bool")
            init = split(m.group(3))
            it = [self.use(scope, v) for v in init]
            inner = {}
            ps = [p.split(":", 1) for p in split(b.group(1))]
            pt = types(", ".join(x[1] for x in ps))
            if pt != ["int"] + it:
                self.p(f"a loop's body takes {', '.join(pt)}, its operands are int, {', '.join(map(str, it))}")
            sc = scope + [inner]
            for (v, _), t in zip(ps, pt):
                self.define(sc, v.strip(), t)
            e = self.block(sc, ("loop", it))
            m = re.match(r"\} : (\(.*?\)) -> (\(.*\)|.*)$", e)
            if not m:
                self.p(f"a loop ends with {e!r}")
                return False
            if types(m.group(1)) != ["int", "bool"] + it or types(m.group(2)) != it:
                self.p(f"a loop's type {e[4:]!r} is not that of its operands")
            self.results(scope, res, it, name)
            return False
        if name.startswith("torch.constant."):
            k = name[15:]
            t = {"int": "int", "float": "float", "bool": "bool", "str": "str", "none": "none", "device": "Device"}.get(k)
            if t is None:
                self.p(f"unknown constant {k}")
            ok = {"int": r"-?\d+$", "float": r"-?[\d.]+(?:[eE][+\-]?\d+)?$|0x[0-9A-F]+$", "bool": r"(true|false)$", "str": r'".*"$', "none": r"$"}.get(k)
            if ok and not re.match(ok, rest):
                self.p(f"{rest!r} is no constant of type {t}")
            if k == "int" and re.match(r"-?\d+$", rest) and not -2**63 <= int(rest) < 2**63:
                self.p(f"{rest} does not fit into 64 bits")
            self.results(scope, res, [t], name)
            return False
        if name in ("call", "func.call"):
            m = re.match(r'@("[^"]*"|[\w.$\-]+)\((.*?)\) : (.*)$', rest)
            if not m:
                self.p("cannot read a call")
                return False
            a, b = arrow(m.group(3))
            self.uses(scope, split(m.group(2)), a, name)
            t = self.fns.get(m.group(1).strip('"'))
            if t is None:
                self.p(f"calls {m.group(1)}, which is not in the library")
            elif t.ins != a or t.outs != b:
                self.p(f"calls {m.group(1)} as ({', '.join(a)}) -> {', '.join(b)}, it is ({', '.join(t.ins)}) -> {', '.join(t.outs)}")
            self.results(scope, res, b, name)
            return False
        if name == "torch.derefine":
            m = re.match(rf"({VAL}) : (.*) to (.*)$", rest)
            if not m:
                self.p("cannot read a derefine")
                return False
            a, b = types(m.group(2))[0], types(m.group(3))[0]
            self.use(scope, m.group(1), a)
            if not subtype(a, b):
                self.p(f"{a} is no subtype of {b}")
            self.results(scope, res, [b], name)
            return False
        if name == "torch.prim.Uninitialized":
            self.results(scope, res, types(rest.lstrip(": ")), name)
            return False
        if name == "torch.prim.CreateObject":
            self.results(scope, res, types(rest), name)
            return False
        if name == "torch.prim.CallMethod":
            m = re.match(rf"({VAL})\[(.*?)\] \((.*?)\) : (.*), (\(.*\)) -> (.*)$", rest)
            if not m:
                self.p("cannot read a method call")
                return False
            self.use(scope, m.group(1), types(m.group(4))[0])
            self.results(scope, res, types(m.group(6)), name)
            return False
        if name == "torch.operator":
            m = re.match(r'"([\w.]+)"\((.*?)\) : (.*)$', rest)
            if not m:
                self.p("cannot read an operator")
                return False
            a, b = arrow(m.group(3))
            self.uses(scope, split(m.group(2)), a, name)
            self.results(scope, res, b, name)
            return False
        # an operation of the dialect
        vs, ts = rest, ""
        m = re.match(rf"\(?((?:{VAL}(?:, )?)*)\)? ?: (.*)$", rest)
        if not m:
            self.p(f"cannot read {l[:60]!r}")
            return False
        vs = split(m.group(1))
        a, b = arrow(m.group(2))
        if "->" not in m.group(2):
            a, b = types(m.group(2)), []
        self.uses(scope, vs, a, name)
        self.results(scope, res, b, name)
        self.declared(name, a, b)
        return False

    def plain(self, rest):
        if not rest:
            return [], []
        m = re.match(rf"((?:{VAL}(?:, )?)+) : (.*)$", rest)
        if not m:
            self.p(f"cannot read {rest[:60]!r}")
            return [], []
        return split(m.group(1)), types(m.group(2))

    def declared(self, name, a, b):
        d = self.decls.get(name[6:] if name.startswith("torch.") else name)
        if d is None or not name.startswith("torch."):
            self.p(f"{name} is no operation of the dialect")
            return
        for cs, ts, what in ((d.ins, a, "operand"), (d.outs, b, "result")):
            if cs is None:
                continue
            if not any("Variadic" in c for c in cs):
                if len(cs) != len(ts):
                    self.p(f"{name} has {len(cs)} {what}s, not {len(ts)}")
                    continue
                for c, t in zip(cs, ts):
                    if accepts(c, t) is False:
                        self.p(f"{name} does not take a {t} for its {what} {c}")
        inner = lambda t: split(t[t.index("<") + 1:-1]) if "<" in t else []
        if name == "torch.prim.ListConstruct" and any(not subtype(t, inner(b[0])[0]) for t in a):
            self.p(f"a {b[0]} of {', '.join(a)}")
        if name == "torch.prim.TupleConstruct" and inner(b[0]) != a:
            self.p(f"a {b[0]} of {', '.join(a)}")
        if name == "torch.prim.TupleUnpack" and inner(a[0]) != b:
            self.p(f"a {a[0]} as {', '.join(b)}")
        if name == "torch.prim.ListUnpack" and any(t != inner(a[0])[0] for t in b):
            self.p(f"a {a[0]} as {', '.join(b)}")
        if name == "torch.aten.__getitem__.t" and a and a[0].startswith("list<") and inner(a[0]) != b:
            self.p(f"an element of a {a[0]} as {', '.join(b)}")
        if name in ("torch.aten.append.t", "torch.aten._set_item.t", "torch.aten.insert.t") and not subtype(a[-1], inner(a[0])[0]):
            self.p(f"a {a[-1]} put into a {a[0]}")
        if name == "torch.prim.unchecked_cast" and not (subtype(b[0], a[0]) or subtype(a[0], b[0])):
            self.p(f"a {a[0]} as a {b[0]}")

    def closed(self):
        """Whether the text is one module."""
        return self.lines[0].strip() == "module {" and [l for l in self.lines if l.strip()][-1].strip() == "}"
