"""Abstract model of the MLIR Python bindings: operations as they are created.

`Operation.create` yields an operation object whose results are distinct values
that remember their producer, so "operand i of this operation is the value of
that constant" is read off the created operations, whatever helper built them.
"""

from .values import *  # noqa
from .values import K, Q, T, Lst, Dct, NONE, freeze, show

IR = "torch_mlir.ir."


def obj(*names):
    return T("obj", *[K(n) if isinstance(n, str) else n for n in names])


class IROp:
    def __init__(self, ev, idx):
        self.ev = ev
        self.idx = idx
        self.obj = obj(f"op{idx}")
        n = ev.arg("name", 0)
        self.name = n.v if isinstance(n, K) else None
        self.name_v = n
        self.results = seq(ev.arg("results", 1)) or []
        self.operands = seq(ev.arg("operands", 2))
        if self.operands is None:
            self.operands = []
            self.operands_raw = ev.arg("operands", 2)
        a = ev.arg("attributes", 3)
        self.attributes = {}
        if isinstance(a, T) and a.op == "dict":
            for k, v in a.args:
                if isinstance(k, K):
                    self.attributes[k.v] = v
        elif isinstance(a, T) and a.op == "global":
            pass
        self.ctx = ev.ctx

    def result(self, i=0):
        return obj(f"op{self.idx}", f"r{i}")

    def __repr__(self):
        return f"{show(self.name_v)}({', '.join(map(show, self.operands))})" + (
            " {" + ", ".join(f"{k}={show(v)}" for k, v in self.attributes.items()) + "}" if self.attributes else ""
        ) + f" -> {', '.join(map(show, self.results))}"


def nospace(t):
    """Blanks after commas do not matter in a type."""
    if isinstance(t, K) and isinstance(t.v, str):
        return K(t.v.replace(", ", ","))
    if isinstance(t, T) and t.op == "fstr":
        return T("fstr", *[nospace(x) for x in t.args])
    return t


def seq(v):
    if isinstance(v, T) and v.op in ("list", "tuple", "ilist", "set"):
        return list(v.args)
    if v is None or v == NONE:
        return []
    return None


def call_of(v, suffix):
    """(args, kwargs) when v is a call of a function named `suffix`, else None."""
    if isinstance(v, T) and v.op == "call":
        c = v.args[0]
        n = c.name if isinstance(c, Q) else (c.args[1] if isinstance(c, T) and c.op == "attr" else "")
        if n == suffix or n.endswith("." + suffix):
            return list(v.args[1]), dict(v.args[2])
    return None


class IRWorld:
    """Models to be merged into an exploration's configuration."""

    def __init__(self, attrs, types):
        self.attrs = attrs
        self.types = types

    def models(self):
        return {
            IR + "Operation.create": self.create,
            IR + "Type.parse": self.type_parse,
            IR + "Block.create_at_start": self.block,
            "torch_mlir.dialects.func.FuncOp": self.funcop,
            IR + "FunctionType.get": self.ftype,
        }

    @staticmethod
    def ops(path):
        """Operations created on a path, in order."""
        out = []
        for e in path.events:
            if e.kind == "call" and e.name == IR + "Operation.create":
                out.append(IROp(e, e.idx))
        return out

    def create(self, it, recv, args, kw, node):
        ev = it.path.events[-1]
        op = IROp(ev, ev.idx)
        vals = []
        for i, t in enumerate(op.results):
            r = op.result(i)
            self.types[r] = IR + "Value"
            it.types[r] = IR + "Value"
            it.attrs[(r, "type")] = t
            vals.append(r)
        it.attrs[(op.obj, "results")] = Lst(vals, "tuple")
        if vals:
            it.attrs[(op.obj, "result")] = vals[0]
        it.attrs[(op.obj, "operation")] = op.obj
        it.attrs[(op.obj, "regions")] = Lst([obj(f"op{op.idx}", "region0")], "tuple")
        it.types[op.obj] = IR + "Operation"
        return op.obj

    def type_parse(self, it, recv, args, kw, node):
        t = nospace(freeze(it.resolve(args[0])) if args else freeze(kw.get("asm", NONE)))
        o = T("obj", K("type"), t)
        it.types[o] = IR + "Type"
        return o

    def block(self, it, recv, args, kw, node):
        ev = it.path.events[-1]
        parent = ev.arg("parent", 0)
        tys = it.resolve(ev.live[1][1] if len(ev.live[1]) > 1 else ev.live[2].get("arg_types", Lst()))
        if isinstance(tys, T) and tys.op == "ftype_inputs":
            tys = tys.args[0]
        ts = seq(freeze(tys))
        b = obj(f"block{ev.idx}")
        if ts is not None:
            vals = []
            for i, t in enumerate(ts):
                a = obj(f"block{ev.idx}", f"arg{i}")
                it.types[a] = IR + "Value"
                it.attrs[(a, "type")] = t
                vals.append(a)
            it.attrs[(b, "arguments")] = Lst(vals, "tuple")
        it.attrs[(b, "owner_region")] = parent
        return b

    def ftype(self, it, recv, args, kw, node):
        ev = it.path.events[-1]
        o = obj(f"ftype{ev.idx}")
        it.attrs[(o, "inputs")] = ev.arg("inputs", 0)
        it.attrs[(o, "results")] = ev.arg("results", 1)
        return o

    def funcop(self, it, recv, args, kw, node):
        ev = it.path.events[-1]
        o = obj(f"func{ev.idx}")
        it.attrs[(o, "body")] = obj(f"func{ev.idx}", "body")
        it.attrs[(o, "operation")] = o
        return o
