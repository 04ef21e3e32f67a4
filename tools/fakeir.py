"""A recording stand-in for the MLIR Python bindings.

`install()` puts it in place of torch_mlir.ir / torch_mlir.dialects.func before
the importers are imported. Operations are recorded in the order of creation.
"""
import sys
import types


class Attr:
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return f"{self.kind}({', '.join(map(repr, self.args))})"

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def __add__(self, o):
        return Attr("add", self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return Attr("mul", self, o)

    __rmul__ = __mul__

    @property
    def type(self):
        return Attr("typeof", self)

    @property
    def value(self):
        return self.args[0]


class Ty:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Ty) and self.text == o.text

    def __hash__(self):
        return hash(self.text)


def tyclass(fmt):
    class C(Ty):
        @classmethod
        def get(cls, *a, **k):
            k.pop("context", None)
            k.pop("loc", None)
            return Ty(fmt(*a, **k))

    return C


class Type(Ty):
    @staticmethod
    def parse(asm, context=None):
        return Ty(asm)


class IntegerType(Ty):
    @staticmethod
    def get_signless(w, context=None):
        return Ty(f"i{w}")

    @staticmethod
    def get_signed(w, context=None):
        return Ty(f"si{w}")

    @staticmethod
    def get_unsigned(w, context=None):
        return Ty(f"ui{w}")


class Value:
    def __init__(self, type, owner, index):
        self.type, self.owner, self.index = type, owner, index

    def __repr__(self):
        return f"%{self.owner}#{self.index}"


class Block:
    def __init__(self, name):
        self.name, self.arguments, self.ops = name, [], []

    def __repr__(self):
        return f"^{self.name}"

    @staticmethod
    def create_at_start(region, arg_types=(), **k):
        b = Block(f"bb{len(LOG['blocks'])}")
        b.arguments = [Value(t, b, i) for i, t in enumerate(arg_types)]
        LOG["blocks"].append(b)
        region.blocks.append(b)
        return b


class Blocks(list):
    def append(self, *types, arg_locs=None):
        if len(types) == 1 and isinstance(types[0], Block):
            return super().append(types[0])
        b = Block(f"bb{len(LOG['blocks'])}")
        b.arguments = [Value(t, b, i) for i, t in enumerate(types)]
        LOG["blocks"].append(b)
        super().append(b)
        return b


class Region:
    def __init__(self):
        self.blocks = Blocks()


LOG = {"ops": [], "blocks": [], "funcs": []}
STACK = []  # insertion points
REGISTERED = [lambda name: True]


class Ctxt:
    """Context, Location and InsertionPoint are all context managers."""

    def __enter__(self):
        STACK.append(self)
        return self

    def __exit__(self, *a):
        STACK.pop()


class Context(Ctxt):
    allow_unregistered_dialects = False

    def __init__(self):
        self.dialects = {}

    def get_dialect_descriptor(self, *a):
        return None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None

    def is_registered_operation(self, name):
        return REGISTERED[0](name)


DEFAULT_CONTEXT = Context()


class Location(Ctxt):
    def __init__(self, text, context=None):
        self.text, self.context = text, context or Context()

    def __repr__(self):
        return self.text

    @staticmethod
    def unknown(context=None):
        return Location("unknown", context)

    @staticmethod
    def file(f, line, col, context=None):
        return Location(f"{f}:{line}:{col}", context)

    @staticmethod
    def name(n, childLoc=None, context=None):
        return Location(f"name({n})", context)

    @staticmethod
    def callsite(callee, frames, context=None):
        return Location(f"callsite({callee}, {list(frames)})", context)

    @staticmethod
    def fused(locs, *a, context=None, **k):
        return Location(f"fused({list(locs)})", context)


class InsertionPoint(Ctxt):
    def __init__(self, block):
        self.block = block

    @staticmethod
    def at_block_terminator(b):
        return InsertionPoint(b)

    @staticmethod
    def at_block_begin(b):
        return InsertionPoint(b)


def current_block():
    for c in reversed(STACK):
        if isinstance(c, InsertionPoint):
            return c.block
    return None


class Operation:
    def __init__(self, name, results, operands, attributes, regions=0, loc=None):
        self.name = name
        self.operands = list(operands)
        self.attributes = dict(attributes or {})
        self.loc = loc
        self.index = len(LOG["ops"])
        self.results = [Value(t, self, i) for i, t in enumerate(results)]
        self.regions = [Region() for _ in range(regions)]
        self.block = current_block()
        LOG["ops"].append(self)
        if isinstance(self.block, Block):
            self.block.ops.append(self)

    @staticmethod
    def create(name, results=None, operands=None, attributes=None, successors=None, regions=0, loc=None, **k):
        results, operands = list(results or []), list(operands or [])
        for t in results:
            if not isinstance(t, Ty):
                raise TypeError(f"result type {t!r}")
        for v in operands:
            if not isinstance(v, Value):
                raise TypeError(f"operand {v!r}")
        return Operation(name, results, operands, attributes, regions, loc)

    @property
    def result(self):
        assert len(self.results) == 1, self
        return self.results[0]

    @property
    def operation(self):
        return self

    @property
    def context(self):
        return DEFAULT_CONTEXT

    @property
    def location(self):
        return self.loc

    def __repr__(self):
        return f"op{self.index}:{self.name}"


class FuncOp:
    def __init__(self, name, type, visibility=None, ip=None, loc=None, **k):
        self.name, self.type, self.visibility, self.loc = name, type, visibility, loc
        self.attributes = {}
        self.body = Region()
        self.regions = [self.body]
        self.context = DEFAULT_CONTEXT
        LOG["funcs"].append(self)

    @property
    def operation(self):
        return self

    def add_entry_block(self, *a):
        return Block.create_at_start(self.body, self.type.inputs)


class ReturnOp(Operation):
    def __init__(self, operands, loc=None, **k):
        super().__init__("func.return", [], operands, {}, loc=loc)


class CallOp(Operation):
    def __init__(self, *a, **k):
        if isinstance(a[0], FuncOp):
            super().__init__("func.call", a[0].type.results, a[1], {"callee": a[0].name})
            return
        super().__init__("func.call", a[0] if a else [], a[2] if len(a) > 2 else [], {"callee": a[1] if len(a) > 1 else None})


class FunctionType(Ty):
    def __init__(self, inputs, results):
        self.inputs, self.results = list(inputs), list(results)
        super().__init__(f"{self.inputs} -> {self.results}")

    @staticmethod
    def get(inputs, results, context=None):
        return FunctionType(inputs, results)


class SymbolTable:
    def __init__(self, op=None):
        self.entries = []

    def __contains__(self, name):
        return any(o.name == name for o in self.entries)

    def insert(self, op):
        n, k = op.name, 0
        while op.name in self:  # MLIR renames the operation that is inserted
            op.name = f"{n}_{k}"
            k += 1
        self.entries.append(op)
        return Attr("StringAttr", op.name)


class Module:
    def __init__(self):
        self.context, self.body = DEFAULT_CONTEXT, Block("module")
        r = Region()
        r.blocks.append(self.body)
        self.regions = [r]

    @staticmethod
    def create(loc=None):
        return Module()

    @property
    def operation(self):
        return self


class _Ir(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def get(kind):
            def g(*a, **k):
                k.pop("context", None)
                k.pop("loc", None)
                return Attr(f"{name}.{kind}" if kind != "get" else name, *a, *[f"{x}={y!r}" for x, y in sorted(k.items())])

            return staticmethod(g)

        class M(type):
            def __getattr__(cls, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return get(n).__func__ if hasattr(get(n), "__func__") else get(n)

        c = M(name, (Attr,), {})
        setattr(self, name, c)
        return c


def reset():
    LOG["ops"].clear()
    LOG["blocks"].clear()
    LOG["funcs"].clear()


def ranked(shape, el, *a, **k):
    if not isinstance(el, Ty):
        raise TypeError(f"element type {el!r}")
    return f"tensor<{''.join(f'{d}x' for d in shape)}{el}>"


def install():
    ir = _Ir("torch_mlir.ir")
    for k in ("Type", "IntegerType", "Value", "Block", "Context", "Location", "InsertionPoint", "Operation", "FunctionType", "SymbolTable", "Module"):
        setattr(ir, k, globals()[k])
    ir.MLIRError = type("MLIRError", (Exception,), {})
    ir.RankedTensorType = tyclass(ranked)
    ir.ComplexType = tyclass(lambda el: f"complex<{el}>")
    for n, t in dict(F16="f16", F32="f32", F64="f64", BF16="bf16", Float8E5M2="f8E5M2", Float8E4M3FN="f8E4M3FN", Float8E5M2FNUZ="f8E5M2FNUZ",
                     Float8E4M3FNUZ="f8E4M3FNUZ", Float8E8M0FNU="f8E8M0FNU", Float4E2M1FN="f4E2M1FN", Float8E4M3B11FNUZ="f8E4M3B11FNUZ").items():
        setattr(ir, n + "Type", tyclass(lambda t=t: t))
    func = types.ModuleType("torch_mlir.dialects.func")
    func.FuncOp, func.ReturnOp, func.CallOp = FuncOp, ReturnOp, CallOp
    sys.modules["torch_mlir.ir"] = ir
    sys.modules["torch_mlir.dialects.func"] = func
    import torch_mlir
    import torch_mlir.dialects

    torch_mlir.ir = ir
    torch_mlir.dialects.func = func
    return ir


def ops(*names):
    return [o for o in LOG["ops"] if not names or o.name in names]


def const(v):
    """The Python value of a constant operation's result."""
    o = v.owner
    if isinstance(o, Operation) and o.name == "torch.constant.none":
        return None
    if isinstance(o, Operation) and o.name.startswith("torch.constant."):
        return o.attributes["value"].args[-1]
    return v


def importer(**k):
    from torch_mlir.extras.fx_importer import FxImporter

    reset()
    k.setdefault("config_check", False)
    return FxImporter(**k)
