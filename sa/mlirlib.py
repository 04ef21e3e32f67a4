"""Reads the abstract interpretation library embedded in
AbstractInterpLibrary.cpp: the functions of its module, as Python functions
that the abstract interpreter can run."""

import ast
import re

from .interp import AnalysisError

FILE = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"
MOD = "torch_mlir_abstract_interp_library"

OTHER = "torch_mlir_unknown.operation"

PRELUDE = '''
import math
from torch_mlir_unknown import operation as _other

def _range_length(lo, hi, step):
    if step > 0:
        if lo < hi:
            return (hi - lo + step - 1) // step
        return 0
    if lo > hi:
        return (lo - hi - step - 1) // (-step)
    return 0
'''

BIN = {"add": "+", "sub": "-", "mul": "*", "floordiv": "//", "remainder": "%", "div": "/", "eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=",
       "__is__": "is", "__isnot__": "is not", "__and__": "and", "__or__": "or"}


def text_of(src):
    """The module's text, with the line of the file each of its lines is on."""
    out, lines = [], []
    body = src[src.index("return \"module"):]
    base = src[:src.index("return \"module")].count("\n") + 1
    for i, l in enumerate(body.split("\n")):
        m = re.match(r'\s*(?:return )?"((?:[^"\\]|\\.)*)"', l)
        if not m:
            if l.strip() == "" or l.strip().startswith("//"):
                continue
            break
        t = re.sub(r'\\(.)', lambda k: {"n": "\n", "t": "\t"}.get(k.group(1), k.group(1)), m.group(1).replace("\\\\E3\\\\80\\\\87", "〇"))
        if t.endswith("\n"):
            t = t[:-1]
        out.append(t)
        lines.append(base + i)
    return out, lines


def names(text):
    return [("v" + re.sub(r"[^0-9A-Za-z_]", lambda m: "_m" if m.group(0) == "-" else "_", x)) for x in re.findall(r"%([\w\-.$]+(?:#\d+)?)", text)]


def fident(n):
    return "f_" + re.sub(r"[^0-9A-Za-z_]", lambda m: f"_{ord(m.group(0)):x}_", n.strip('"'))


class Reader:
    def __init__(self, src):
        self.lines, self.where = text_of(src)
        self.i = 0
        self.py = list(PRELUDE.strip().split("\n"))
        self.line_of = {}
        self.functions = {}
        self.strings = {}
        self.n = 0

    def fail(self, what):
        raise AnalysisError(f"{FILE}:{self.where[min(self.i, len(self.where) - 1)]}: cannot read {what[:100]}")

    def emit(self, ind, s):
        self.py.append("    " * ind + s)

    def read(self):
        while self.i < len(self.lines):
            l = self.lines[self.i].strip()
            m = re.match(r'func\.func (?:private )?@("[^"]*"|[\w.$\-]+)\((.*?)\)(?: -> .*?)? \{$', l)
            if m:
                n = m.group(1).strip('"')
                args = names(m.group(2))
                self.functions[n] = fident(n)
                self.line_of[n] = self.where[self.i]
                self.emit(0, f"def {fident(n)}({', '.join(args)}):")
                self.i += 1
                self.body(1, None)
            else:
                self.i += 1
        return "\n".join(self.py) + "\n"

    def body(self, ind, results):
        """The lines up to the end of the region; consumes its closing line."""
        start = len(self.py)
        while True:
            if self.i >= len(self.lines):
                self.fail("the end of a region")
            l = self.lines[self.i].strip()
            if l.startswith("}"):
                self.i += 1
                if len(self.py) == start:
                    self.emit(ind, "pass")
                return l
            self.op(l, ind, results)

    def assign(self, ind, res, expr):
        self.emit(ind, (", ".join(res) + " = " if res else "") + expr)

    def op(self, l, ind, results):
        self.i += 1
        if l.startswith("return"):
            vs = names(l.split(" : ")[0])
            self.emit(ind, "return " + (vs[0] if len(vs) == 1 else "(" + ", ".join(vs) + ")" if vs else "None"))
            return
        m = re.match(r"%([\w\-]+)(?::(\d+))? = (.*)$", l)
        res = []
        rest = l
        if m:
            base = names("%" + m.group(1))[0]
            res = [base] if not m.group(2) else [f"{base}_{k}" for k in range(int(m.group(2)))]
            rest = m.group(3)
        op = re.match(r"([\w.]+)", rest).group(1)
        rest = rest[len(op):].strip()
        if op == "torch.constant.str":
            self.assign(ind, res, rest.split(" : ")[0] if re.match(r'^"[^"]*"$', rest) else repr(rest.strip('"')))
            return
        if op == "torch.constant.int":
            return self.assign(ind, res, rest.split()[0])
        if op == "torch.constant.float":
            return self.assign(ind, res, f"float({rest.split()[0]!r})")
        if op == "torch.constant.bool":
            return self.assign(ind, res, {"true": "True", "false": "False"}[rest.split()[0]])
        if op in ("torch.constant.none", "torch.prim.Uninitialized"):
            return self.assign(ind, res, "None")
        if op == "torch.constant.device":
            return self.assign(ind, res, repr(rest.strip('"')))
        if op == "torch.prim.If":
            c = names(rest.split("->")[0])[0]
            self.emit(ind, f"if {c}:")
            e = self.body(ind + 1, ("if", res))
            self.emit(ind, "else:")
            if not e.startswith("} else"):
                self.fail("a condition without else")
            self.body(ind + 1, ("if", res))
            return
        if op == "torch.prim.If.yield":
            vs = names(rest.split(" : ")[0])
            if len(vs) != len(results[1]):
                self.fail("a yield")
            if vs:
                self.emit(ind, f"{', '.join(results[1])} = {', '.join(vs)}")
            else:
                self.emit(ind, "pass")
            return
        if op == "torch.prim.Loop":
            head, init = re.match(r"(.*?), init\((.*?)\) \{$", rest).groups()
            trip, cond = names(head)
            init = names(init)
            b = self.lines[self.i].strip()
            if not b.startswith("^bb0("):
                self.fail("a loop without block arguments")
            ba = names(b)
            self.i += 1
            self.n += 1
            c = f"c{self.n}"
            if len(ba) != len(init) + 1:
                self.fail("a loop's block arguments")
            self.emit(ind, f"{c} = {cond}")
            for a, v in zip(ba[1:], init):
                self.emit(ind, f"{a} = {v}")
            at = len(self.py)
            self.emit(ind, "")
            self.emit(ind + 1, f"if not {c}:")
            self.emit(ind + 2, "break")
            self.body(ind + 1, ("loop", ba[1:], c))
            counted = self.py[-1].strip().endswith(f"{c} = vtrue")
            # a loop over a range, or one that only its condition ends
            used = any(re.search(rf"\b{ba[0]}\b", x) for x in self.py[at + 1:])
            if counted or used:
                self.py[at] = "    " * ind + f"for {ba[0]} in range({trip}):"
            else:
                self.py[at] = "    " * ind + f"while {c}:"
            for r, a in zip(res, ba[1:]):
                self.emit(ind, f"{r} = {a}")
            return
        if op == "torch.prim.Loop.condition":
            m = re.match(r"(%[\w\-#]+), iter\((.*?)\)", rest)
            vs = names(m.group(2))
            if vs:
                self.emit(ind, f"{', '.join(results[1])} = {', '.join(vs)}")
            self.emit(ind, f"{results[2]} = {names(m.group(1))[0]}")
            return
        if op == "torch.prim.RaiseException":
            self.emit(ind, f"raise AssertionError({names(rest)[0]})")
            return
        if op in ("call", "func.call"):
            m = re.match(r'@("[^"]*"|[\w.$\-]+)\((.*?)\)', rest)
            self.assign(ind, res, f"{fident(m.group(1))}({', '.join(names(m.group(2)))})")
            return
        if op == "torch.operator":
            m = re.match(r'"([\w.]+)"\((.*?)\)', rest)
            op, vs = "torch." + m.group(1), names(m.group(2))
        else:
            vs = names(re.split(r" : ", rest, maxsplit=1)[0]) if not rest.startswith(":") else []
        k = op.split(".")
        n = k[2] if len(k) > 2 else ""
        if op == "torch.prim.ListConstruct":
            return self.assign(ind, res, "[" + ", ".join(vs) + "]")
        if op == "torch.prim.TupleConstruct":
            return self.assign(ind, res, "(" + ", ".join(vs) + ",)")
        if op in ("torch.prim.TupleUnpack", "torch.prim.ListUnpack"):
            return self.assign(ind, res + ([""] if len(res) == 1 else []), vs[0])
        if op in ("torch.prim.TupleIndex", "torch.aten.__getitem__.t"):
            return self.assign(ind, res, f"{vs[0]}[{vs[1]}]")
        if op in ("torch.derefine", "torch.prim.unchecked_cast"):
            return self.assign(ind, res, vs[0])
        if n == "len":
            return self.assign(ind, res, f"len({vs[0]})")
        if n == "append":
            self.emit(ind, f"{vs[0]}.append({vs[1]})")
            return self.assign(ind, res, vs[0]) if res else None
        if n == "insert":
            self.emit(ind, f"{vs[0]}.insert({vs[1]}, {vs[2]})")
            return
        if n == "_set_item":
            self.emit(ind, f"{vs[0]}[{vs[1]}] = {vs[2]}")
            return self.assign(ind, res, vs[0]) if res else None
        if n == "slice":
            return self.assign(ind, res, f"{vs[0]}[{vs[1]}:{vs[2]}:{vs[3]}]")
        if n == "format":
            return self.assign(ind, res, repr("message"))
        if op == "torch.aten.add.str":
            return self.assign(ind, res, vs[0])
        if n in BIN and len(vs) == 2:
            return self.assign(ind, res, f"{vs[0]} {BIN[n]} {vs[1]}")
        if n == "__not__":
            return self.assign(ind, res, f"not {vs[0]}")
        if n == "neg":
            return self.assign(ind, res, f"-{vs[0]}")
        if n == "__contains__":
            return self.assign(ind, res, f"{vs[1]} in {vs[0]}")
        if n == "__range_length":
            return self.assign(ind, res, f"_range_length({', '.join(vs)})")
        if n == "__derive_index":
            return self.assign(ind, res, f"{vs[1]} + {vs[0]} * {vs[2]}")
        if n in ("max", "min") and op.startswith("torch.prim"):
            return self.assign(ind, res, f"{n}({', '.join(vs)})")
        if n in ("Int", "Bool", "Float"):
            return self.assign(ind, res, f"{n.lower()}({vs[0]})")
        if n == "any":
            return self.assign(ind, res, f"any({vs[0]})")
        if op == "torch.prim.abs.int":
            return self.assign(ind, res, f"abs({vs[0]})")
        if n == "ceil":
            return self.assign(ind, res, f"math.ceil({vs[0]})")
        if n in ("floor",):
            return self.assign(ind, res, f"math.floor({vs[0]})")
        # anything else is an operation the interpreter does not look into
        if op == "torch.prim.CallMethod":
            return self.assign(ind, res, "None")
        return self.assign(ind, res, f"_other({op!r}, {', '.join(vs)})")


def translate(repo, path=FILE):
    import os
    with open(os.path.join(repo, path), encoding="utf-8") as f:
        r = Reader(f.read())
    src = r.read()
    ast.parse(src)
    return r, src
