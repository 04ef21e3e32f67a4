"""Abstract values of the Python value-provenance domain.

Every value is one of
  K     a compile-time constant
  Q     an imported (external) object known only by its qualified name
  T     an opaque term: an operator applied to other values; its structure *is*
        its provenance (attr, index, elem, call, ...)
  Lst/Dct/SetV   containers whose members are known on the current path
  Fn/Bound/Cls/Obj/ModV   program entities of the analysed sources
Terms are immutable and compare structurally, so "the operand comes from
node.args[i]" is a comparison of terms.
"""


class V:
    __slots__ = ()


class K(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        try:
            return hash((type(self.v).__name__, self.v))
        except TypeError:
            return hash(repr(self.v))

    def __repr__(self):
        return repr(self.v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)

# Spellings that denote one object.
CANON = {
    "torch.float": "torch.float32",
    "torch.double": "torch.float64",
    "torch.half": "torch.float16",
    "torch.long": "torch.int64",
    "torch.int": "torch.int32",
    "torch.short": "torch.int16",
    "torch.cfloat": "torch.complex64",
    "torch.cdouble": "torch.complex128",
    "torch.chalf": "torch.complex32",
    "numpy.bool": "numpy.bool_",
    "numpy.single": "numpy.float32",
    "numpy.double": "numpy.float64",
    "numpy.half": "numpy.float16",
    "torch.fx.node.Node": "torch.fx.Node",
    "torch.fx.graph.Node": "torch.fx.Node",
    "torch.fx.graph.Graph": "torch.fx.Graph",
    "torch.fx.graph_module.GraphModule": "torch.fx.GraphModule",
    "_operator.getitem": "operator.getitem",
    "types.NoneType": "builtins.NoneType",
    "onnx.onnx_ml_pb2.TensorProto": "onnx.TensorProto",
}


class Q(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = CANON.get(name, name)

    def __eq__(self, o):
        return isinstance(o, Q) and self.name == o.name

    def __hash__(self):
        return hash(("Q", self.name))

    def __repr__(self):
        return self.name


ABSENT = Q("<no such attribute>")  # an attribute an abstract object lacks


class T(V):
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __eq__(self, o):
        return (
            self is o
            or isinstance(o, T)
            and self._h == o._h
            and self.op == o.op
            and self.args == o.args
        )

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def show(v, depth=0):
    if depth > 12:
        return "…"
    s = lambda x: show(x, depth + 1)
    if isinstance(v, T):
        a = v.args
        if v.op == "sym":
            return str(a[0])
        if v.op == "obj" and a and isinstance(a[0], K):
            return ":".join(str(x.v) if isinstance(x, K) else s(x) for x in a)
        if v.op == "attr":
            return f"{s(a[0])}.{a[1]}"
        if v.op == "index":
            return f"{s(a[0])}[{s(a[1])}]"
        if v.op == "elem":
            return f"elem({s(a[0])},{s(a[1])})"
        if v.op == "call":
            parts = [s(x) for x in a[1]] + [f"{k}={s(x)}" for k, x in a[2]]
            return f"{s(a[0])}({', '.join(parts)})"
        if v.op in ("list", "tuple", "set"):
            return f"{v.op}[{', '.join(s(x) for x in a)}]"
        if v.op == "dict":
            return "{" + ", ".join(f"{s(k)}: {s(x)}" for k, x in a) + "}"
        if v.op == "fstr":
            return "f'" + "".join(
                x.v if isinstance(x, K) and isinstance(x.v, str) else "{" + s(x) + "}"
                for x in a
            ) + "'"
        return f"{v.op}({', '.join(s(x) for x in a)})"
    if isinstance(v, tuple):
        return "(" + ", ".join(s(x) for x in v) + ")"
    return repr(v)


class Lst(V):
    """A list or tuple (kind) with known members."""

    __slots__ = ("items", "kind", "name", "elem")

    def __init__(self, items=(), kind="list", name=None, elem=None):
        self.items = list(items)
        self.kind = kind
        self.name = name
        self.elem = elem  # members are stored as copies (models["__elem__"])

    def __repr__(self):
        return f"{self.kind}{self.items!r}"


class SetV(V):
    __slots__ = ("items", "name")

    def __init__(self, items=(), name=None):
        self.items = []
        for i in items:
            self.add(i)
        self.name = name

    def add(self, x):
        if x not in self.items:
            self.items.append(x)

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.items)) + "}"


class Dct(V):
    """A dict with known entries; `rest` marks unknown further entries and
    `default` is the factory of a defaultdict."""

    __slots__ = ("pairs", "name", "rest", "default")

    def __init__(self, pairs=(), name=None):
        self.pairs = []
        self.name = name
        self.rest = None
        self.default = None
        for k, v in pairs:
            self.set(k, v)

    def set(self, k, v):
        for i, (a, _) in enumerate(self.pairs):
            if veq(a, k):
                self.pairs[i] = (a, v)
                return
        self.pairs.append((k, v))

    def get(self, k):
        for a, v in self.pairs:
            if veq(a, k):
                return v
        return None

    def delete(self, k):
        self.pairs = [(a, v) for a, v in self.pairs if not veq(a, k)]

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.pairs) + "}"


class Fn(V):
    __slots__ = ("node", "env", "mod", "qual", "cls", "defaults", "kwdefaults", "kind")

    def __init__(self, node, env, mod, qual, cls=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.defaults = []
        self.kwdefaults = []
        self.kind = None  # None | staticmethod | classmethod | property | contextmanager

    def __repr__(self):
        return f"<fn {self.qual}>"


class Bound(V):
    __slots__ = ("fn", "recv")

    def __init__(self, fn, recv):
        self.fn = fn
        self.recv = recv

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.recv!r}>"


class Partial(V):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Builtin(V):
    """A method of an abstract container or a Python builtin."""

    __slots__ = ("name", "recv")

    def __init__(self, name, recv=None):
        self.name = name
        self.recv = recv

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name and o.recv is self.recv

    def __hash__(self):
        return hash(("B", self.name))

    def __repr__(self):
        return f"builtins.{self.name}"


class Cls(V):
    __slots__ = ("node", "mod", "qual", "attrs", "bases", "dataclass", "fields")

    def __init__(self, node, mod, qual):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.attrs = {}
        self.bases = []
        self.dataclass = False
        self.fields = []

    def __repr__(self):
        return f"<class {self.qual}>"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, Cls):
                    out.append(b)
        return out


class Obj(V):
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, tag=None):
        self.cls = cls
        self.attrs = {}
        self.tag = tag

    def __repr__(self):
        return f"<{self.cls.qual if self.cls else 'obj'}{'#' + str(self.tag) if self.tag else ''}>"


class ModV(V):
    """A module of the analysed sources."""

    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return f"<module {self.mod.name}>"


def veq(a, b):
    if a is b:
        return True
    return freeze(a) == freeze(b)


def freeze(v):
    """An immutable snapshot, for use inside terms, events and facts."""
    if isinstance(v, Lst):
        if v.name and len(v.items) > 4:
            return T("global", v.name)
        return T(v.kind, *[freeze(x) for x in v.items])
    if isinstance(v, SetV):
        if v.name:
            return T("global", v.name)
        return T("set", *[freeze(x) for x in v.items])
    if isinstance(v, Dct):
        if v.name:
            return T("global", v.name)
        return T("dict", *[(freeze(k), freeze(x)) for k, x in v.pairs])
    if isinstance(v, Bound):
        return T("bound", freeze(v.recv), v.fn.qual)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def walk(v):
    """All sub-values of a (frozen) value, itself included."""
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, T):
            stack.extend(x.args)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, (Lst, SetV)):
            stack.extend(x.items)
        elif isinstance(x, Dct):
            for k, y in x.pairs:
                stack.append(k)
                stack.append(y)
        elif isinstance(x, Bound):
            stack.append(x.recv)
        elif isinstance(x, Obj):
            pass


def contains(v, part):
    return any(x == part for x in walk(v) if isinstance(x, V))
