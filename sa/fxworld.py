"""Abstract inputs for the FX importer: torch.fx graphs and exported programs
whose shape (kinds of nodes, arguments, metadata) is fixed and whose contents are
opaque, pairwise distinct objects."""

from .values import *  # noqa
from .values import K, Q, T, Lst, Dct, NONE, ABSENT, TRUE, FALSE, freeze
from .irworld import IRWorld, IR, IROp, obj, seq, call_of

M = "torch_mlir.extras.fx_importer"
FAKE = "torch._subclasses.FakeTensor"
TM = "torch.fx.passes.shape_prop.TensorMetadata"
NODE = "torch.fx.Node"


def vt(shape, elem="f32", mutable=False):
    """The MLIR type object of a (v)tensor."""
    stem = "torch.tensor" if mutable else "torch.vtensor"
    return ty(f"!{stem}<[{','.join(map(str, shape))}],{elem}>")


def ty(text):
    return T("obj", K("type"), K(text.replace(", ", ",")))


def tup(*xs):
    return Lst(list(xs), "tuple")


def ilist(*xs):
    return Lst(list(xs), "ilist")


class World:
    """types/attrs/facts of a family of abstract FX objects."""

    def __init__(self):
        self.types = {}
        self.attrs = {}
        self.facts = []
        self.counts = {}
        self.models = {}
        self.opaque = {"rewrite_as_strided", "sparsity_encoding"}
        self.ir = IRWorld(self.attrs, self.types)
        self.models.update(self.ir.models())
        self.models["getElementType"] = lambda it, recv, args, kw, node: self.attrs.get((freeze(recv), "element"))
        self.registered = True
        self.models["is_registered_operation"] = lambda it, recv, args, kw, node: K(self.registered)
        self.existing = []  # names of functions that the module has from the start
        self.models["__contains__"] = self.contains
        self.models["torch.iinfo"] = self.iinfo
        self.models["torch.Size"] = lambda it, recv, args, kw, node: Lst(list(it.resolve(args[0]).items), "tuple") if args and isinstance(it.resolve(args[0]), Lst) else None
        self.models["resolve_literal"] = lambda it, recv, args, kw, node: None
        self.n = 0

    def contains(self, it, container, item):
        c = freeze(container)
        if not (isinstance(c, T) and c.op == "call" and show(c.args[0]).endswith("SymbolTable")):
            return None
        item = it.resolve(item)
        return K(item.v in symbol_names(it.path, self.existing).values() or item.v in self.existing) if isinstance(item, K) else None

    def iinfo(self, it, recv, args, kw, node):
        d = it.resolve(args[0]) if args else None
        name = d.name.removeprefix("torch.") if isinstance(d, Q) else ""
        u = name.startswith("u")
        bits = name.removeprefix("u").removeprefix("int")
        if not bits.isdigit():
            return None
        n, o = int(bits), obj("iinfo:" + name)
        vals = {"bits": n, "max": 2 ** (n if u else n - 1) - 1, "min": 0 if u else -(2 ** (n - 1))}
        for k, v in vals.items():
            it.attrs[(o, k)] = K(v)
        return o

    # ------------------------------------------------------------ objects
    def obj(self, name_, cls=None, **attrs):
        t = obj(name_)
        if cls:
            self.types[t] = cls
        for k, v in attrs.items():
            self.attrs[(t, k)] = v
        return t

    def call(self, o, method, result):
        self.attrs[(o, method + "()")] = result
        return o

    def fake(self, name_, shape, dtype="torch.float32", **kw):
        v = self.obj(
            name_, FAKE, dtype=Q(dtype), layout=Q("torch.strided"),
            shape=tup(*[d if isinstance(d, V) else K(d) for d in shape]),
            _has_symbolic_sizes_strides=kw.pop("symbolic", FALSE), ndim=K(len(shape)), **kw
        )
        self.call(v, "size", self.attrs[(v, "shape")])
        return v

    def tensor_meta(self, name_, shape, dtype="torch.float32"):
        return self.obj(
            name_, TM, dtype=Q(dtype), is_quantized=FALSE,
            shape=tup(*[d if isinstance(d, V) else K(d) for d in shape]),
        )

    def node(self, name_, op, target=None, args=(), kwargs=(), val=None, meta=None, graph=None, users=None, **attrs):
        n = self.obj(name_, NODE, op=K(op), name=K(name_), **attrs)
        self.attrs[(n, "target")] = target if target is not None else K(name_)
        self.attrs[(n, "args")] = args if isinstance(args, V) else tup(*args)
        self.attrs[(n, "kwargs")] = kwargs if isinstance(kwargs, V) else Dct([(K(k), v) for k, v in kwargs])
        pairs = list(meta or [])
        if val is not None:
            pairs.append((K("val"), val))
        self.attrs[(n, "meta")] = Dct(pairs)
        if graph is not None:
            self.attrs[(n, "graph")] = graph
        self.attrs[(n, "users")] = Dct([(u, NONE) for u in (users or [])])
        return n

    def tensor_node(self, name_, shape, dtype="torch.float32", op="placeholder", target=None, args=(), kwargs=(), **kw):
        """A node with tensor metadata, as produced by export."""
        return self.node(
            name_, op, target, args, kwargs,
            val=self.fake(name_ + ".val", shape, dtype),
            meta=[(K("tensor_meta"), self.tensor_meta(name_ + ".tm", shape, dtype))], **kw
        )

    def graph(self, nodes, name_="graph", owning=None):
        g = self.obj(name_, "torch.fx.Graph", nodes=Lst(list(nodes)), owning_module=owning if owning is not None else NONE)
        for n in nodes:
            self.attrs.setdefault((n, "graph"), g)
        return g

    # torch.jit types of schema parameters
    def jit(self, kind, element=None):
        self.n += 1
        t = self.obj(f"jit{self.n}:{kind}", "torch." + kind)
        if element is not None:
            self.attrs[(t, "element")] = element
        return t

    def param(self, name_, type_, default=None):
        self.n += 1
        return self.obj(f"param{self.n}:{name_}", "torch.Argument", name=K(name_), type=type_, default_value=default if default is not None else NONE)

    def overload(self, name_, params, returns=1, overload="", q=None):
        """An OpOverload; `q` names it when a table of the importer keys on it."""
        sch = self.obj(
            f"schema:{name_}.{overload}", "torch.FunctionSchema",
            name=K(name_), overload_name=K(overload),
            arguments=Lst([self.param(n, t, *d) for n, t, *d in params]),
            returns=Lst([obj(f"ret{i}") for i in range(returns)]),
        )
        o = Q(q) if q else obj(f"overload:{name_}.{overload}")
        self.types[o] = "torch._ops.OpOverload"
        self.attrs[(o, "_schema")] = sch
        return o

    def output(self, *args, name_="output"):
        return self.node(name_, "output", K("output"), (tup(*args),))

    # ------------------------------------------------------------ running
    def cfg(self, **kw):
        d = dict(types=self.types, attrs=self.attrs, facts=self.facts, counts=self.counts, models=self.models, opaque=self.opaque)
        for k, v in kw.items():
            if isinstance(d.get(k), dict):
                d[k] = {**d[k], **v}
            elif isinstance(d.get(k), set):
                d[k] = d[k] | set(v)
            elif isinstance(d.get(k), list):
                d[k] = d[k] + list(v)
            else:
                d[k] = v
        return d


def importer(it, p, **kw):
    cls = p.func(M, "FxImporter")
    kw.setdefault("config_check", FALSE)
    return it.call_value(cls, [], kw, None)


def method(it, o, name, args=(), kw=None):
    return it.call_value(it.attr(o, name, None), list(args), dict(kw or {}), None)


def import_graph(ctx, w, entry, nodes, hooks=None, kw=None, **cfg):
    """All paths of importing a graph with these nodes through the public API."""
    p = ctx.project
    p.load(M)
    g = w.graph(nodes)
    ikw = {"hooks": hooks} if hooks is not None else {}
    return ctx.explore(
        entry, lambda it: method(it, importer(it, p, **ikw), "import_stateless_graph", [g], kw), **w.cfg(**cfg)
    )


# ---------------------------------------------------------------- observation
class View:
    """What an importer path emitted."""

    def __init__(self, path):
        self.path = path
        self.ops = IRWorld.ops(path)
        self.by_obj = {o.obj: o for o in self.ops}
        self.funcs = [e for e in path.events if e.kind == "call" and e.name == "torch_mlir.dialects.func.FuncOp"]
        self.blocks = [e for e in path.events if e.kind == "call" and e.name == IR + "Block.create_at_start"]
        self.returns = [e for e in path.events if e.kind == "call" and e.name.endswith("func.ReturnOp")]

    def producer(self, v):
        """(op, result index) of an SSA value, or None (block arguments, ...)."""
        if isinstance(v, T) and v.op == "obj" and len(v.args) == 2 and isinstance(v.args[0], K):
            o = self.by_obj.get(obj(v.args[0].v))
            n = v.args[1].v if isinstance(v.args[1], K) else ""
            if o is not None and n.startswith("r") and n[1:].isdigit():
                return o, int(n[1:])
        return None

    def const(self, v):
        """('int', value) etc. when v is the result of a constant operation."""
        p = self.producer(v)
        if p is None or not p[0].name or not p[0].name.startswith(("torch.constant.", "torch.vtensor.literal")):
            return None
        o = p[0]
        kind = o.name.split(".")[-1]
        a = o.attributes.get("value")
        if kind == "none":
            return ("none", None)
        if kind in ("int", "bool"):
            c = call_of(a, "IntegerAttr.get")
            if c is None:
                return (kind, a)
            t = call_of(c[0][0], "get_signless") if c[0] else None
            width = t[0][0] if t and t[0] else None
            if width != K(64 if kind == "int" else 1):
                return (kind, T("badwidth", a))
            return (kind, c[0][1] if len(c[0]) > 1 else c[1].get("value"))
        if kind == "float":
            c = call_of(a, "FloatAttr.get_f64")
            return (kind, c[0][0] if c and c[0] else a)
        if kind in ("str", "device"):
            c = call_of(a, "StringAttr.get")
            return (kind, c[0][0] if c and c[0] else a)
        return (kind, a)

    def arg(self, i, block=0):
        b = self.blocks[block]
        return obj(f"block{b.idx}", f"arg{i}")

    def named(self, *names):
        return [o for o in self.ops if o.name in names]

    def real(self):
        """operations other than constants"""
        return [o for o in self.ops if not (o.name and (o.name.startswith("torch.constant.")))]

    def returned(self):
        if len(self.returns) != 1:
            return None
        return seq(self.returns[0].arg("operands", 0))

    def ftype(self, i=0):
        f = self.funcs[i]
        t = f.arg("type", 1)
        for e in self.path.events:
            if e.kind == "call" and e.name == IR + "FunctionType.get" and obj(f"ftype{e.idx}") == t:
                return seq(e.arg("inputs", 0)), seq(e.arg("results", 1))
        return None


def symbol_names(path, existing=()):
    """{function object: its name once inserted}: a symbol table renames what it has already."""
    given, out = {}, {}
    for e in path.events:
        if e.kind != "call":
            continue
        if e.name == "torch_mlir.dialects.func.FuncOp":
            n = e.arg("name", 0)
            given[obj(f"func{e.idx}")] = n.v if isinstance(n, K) else show(n)
        elif e.name.endswith(".insert") and e.args and e.args[0] in given:
            n = base = given[e.args[0]]
            k = 0
            while n in out.values() or n in existing:
                n, k = f"{base}_{k}", k + 1
            out[e.args[0]] = n
    return out


class Func:
    """One function of a module that a path builds."""

    def __init__(self, v, i, names):
        self.v, self.e = v, v.funcs[i]
        self.obj = obj(f"func{self.e.idx}")
        self.name = names.get(self.obj)
        vis = self.e.arg("visibility")
        self.visibility = vis.v if isinstance(vis, K) else vis
        ft = v.ftype(i)
        self.inputs, self.results = ft if ft else (None, None)
        body = obj(f"func{self.e.idx}", "body")
        self.block = next((obj(f"block{b.idx}") for b in v.blocks if b.arg("parent", 0) == body), None)
        self.ops = [o for o in v.ops if block_of(o.ctx) == self.block]
        rs = [r for r in v.returns if block_of(r.ctx) == self.block]
        self.returned = seq(rs[0].arg("operands", 0)) if len(rs) == 1 else None

    def arg(self, i):
        return obj(self.block.args[0].v, f"arg{i}")


def block_of(ctx):
    """The block of the innermost insertion point."""
    for c in reversed(ctx):
        k = call_of(c, "ir.InsertionPoint")
        if k and k[0]:
            return k[0][0]
    return None


def functions(v, existing=()):
    names = symbol_names(v.path, existing)
    return [Func(v, i, names) for i in range(len(v.funcs))]


BADKINDS = ("unbound", "undefined", "noattr")


def decide(ctx, rule, construct, paths, pred, may_raise=(), must_raise=(), where=""):
    """Every path must satisfy `pred` (returns None, or what is wrong)."""
    seen = 0
    for p in paths:
        if p.outcome == "cut":
            continue
        seen += 1
        w = p.events[-1].where() if p.events else where
        broken = [e for e in p.events if e.kind in BADKINDS]
        if broken:
            ctx.bad(rule, construct, broken[0].where(), f"{broken[0].kind} name {broken[0].name!r} on the path {p.describe(6)}")
            continue
        if p.outcome == "raise":
            names = (p.exc.name, p.exc.name.split(".")[-1])
            ok = any(n in may_raise or n in must_raise for n in names) or "*" in may_raise or "*" in must_raise
            ctx.ob(ok, rule, construct, w, f"raises {p.exc.name} on the path {p.describe(6)}")
            continue
        if must_raise:
            ctx.bad(rule, construct, w, f"is accepted, must be rejected: {p.describe(6)}")
            continue
        try:
            m = pred(p)
        except Exception as e:  # what was emitted has an unforeseen shape
            tb = __import__("traceback").extract_tb(e.__traceback__)[-1]
            ctx.undecided.append(f"{rule} {construct}: {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}")
            continue
        ctx.ob(m is None, rule, construct, w, m or "")
    if not seen:
        ctx.undecided.append(f"{rule} {construct}: no path was analysed to its end")
    return seen


# ---------------------------------------------------------------- programs
SIG = "torch.export.graph_signature."


class Prog:
    """An exported program; specs are added in order."""

    def __init__(self, w):
        self.w = w
        self.inputs = []
        self.outputs = []
        self.nodes = []
        self.mutations = []
        self.state = []
        self.constants = []
        self.replaced = {}

    def tensor(self, name_, shape=(2,), cls="torch.Tensor", dtype="torch.float32"):
        x = self.w.obj(name_, cls, dtype=Q(dtype), shape=tup(*map(K, shape)), layout=Q("torch.strided"))
        self.w.call(x, "size", tup(*map(K, shape)))
        return x

    def spec(self, kind, arg_cls, target=None, persistent=True, value=None, name_=None, k="InputKind"):
        w = self.w
        w.n += 1
        a = w.obj(f"arg{w.n}", SIG + arg_cls)
        if name_ is not None:
            w.attrs[(a, "name")] = K(name_)
        if value is not None:
            w.attrs[(a, "value")] = value
        return w.obj(f"spec{w.n}", SIG + ("InputSpec" if k == "InputKind" else "OutputSpec"), kind=Q(SIG + k + "." + kind), arg=a,
                     target=K(target) if target else NONE, persistent=TRUE if persistent else FALSE)

    def inp(self, kind, node, arg_cls="TensorArgument", **kw):
        self.nodes.append(node)
        s = self.spec(kind, arg_cls, name_=node.args[0].v, **kw)
        self.inputs.append(s)
        return s

    def out(self, kind, node=None, arg_cls="TensorArgument", **kw):
        s = self.spec(kind, arg_cls, name_=node.args[0].v if node is not None else None, k="OutputKind", **kw)
        self.outputs.append(s)
        return s

    def call(self, name_, args, shape, **kw):
        """A call of an opaque operation named after the node."""
        ovl = self.w.overload(f"aten::{name_}", [(f"p{i}", self.w.jit("TensorType")) for i in range(len(args))])
        n = self.w.tensor_node(name_, shape, op="call_function", target=ovl, args=args, **kw)
        self.nodes.append(n)
        return n

    def build(self, children=(), lifted=(), tag=""):
        w = self.w
        root = w.obj("root" + tag, "torch.fx.GraphModule")
        w.call(root, "named_children", Lst([tup(K(n), m) for n, m in children]))
        for n, m in children:
            w.attrs[(root, n)] = m
        g = w.graph(self.nodes, "graph" + tag, owning=root)
        for n in self.nodes:
            w.attrs[(n, "graph")] = g
        d = lambda xs: Dct([(K(a), b) for a, b in xs])
        sig = w.obj(
            "sig" + tag, SIG + "ExportGraphSignature", input_specs=Lst(self.inputs), output_specs=Lst(self.outputs),
            user_inputs_to_mutate=Dct([(K(a), K(b)) for a, b in self.mutations]),
            inputs_to_parameters=Dct([(K(n), K(t)) for n, t, what in lifted if what == "parameter"]),
            inputs_to_buffers=Dct([(K(n), K(t)) for n, t, what in lifted if what == "buffer"]),
            inputs_to_lifted_tensor_constants=Dct([(K(n), K(t)) for n, t, what in lifted if what == "constant"]),
        )
        self.graph = g

        def rauw(it, recv, args, kw, node):
            recv = freeze(recv)
            new = args[0] if args else kw.get("replace_with")
            for n in self.nodes:
                cur = it.heap.get((n, "args"), w.attrs[(n, "args")])

                def sub(x):
                    if isinstance(x, Lst):
                        return Lst([sub(y) for y in x.items], x.kind)
                    return new if freeze(x) == recv else x

                it.heap[(n, "args")] = sub(cur)
            return Lst([])

        def erase(it, recv, args, kw, node):
            cur = it.heap.get((g, "nodes"), w.attrs[(g, "nodes")])
            gone = freeze(args[0])
            it.heap[(g, "nodes")] = Lst([n for n in cur.items if freeze(n) != gone])
            return NONE

        w.models["replace_all_uses_with"] = rauw
        w.models["erase_node"] = erase
        return w.obj(
            "prog" + tag, "torch.export.ExportedProgram", graph=g, graph_signature=sig,
            state_dict=d(self.state), constants=d(self.constants), graph_module=root, range_constraints=Dct(),
        )


def import_program(ctx, w, entry, prog, how="import_program", hooks=None, kw=None, **cfg):
    p = ctx.project
    p.load(M)
    ikw = {"hooks": hooks} if hooks is not None else {}
    return ctx.explore(entry, lambda it: method(it, importer(it, p, **ikw), how, [prog], kw), **w.cfg(**cfg))


def origin(v, x, tensors=()):
    """Where an SSA value comes from, as a comparable description."""
    if isinstance(x, T) and x.op == "obj" and len(x.args) == 2 and isinstance(x.args[0], K):
        n, r = x.args[0].v, x.args[1].v if isinstance(x.args[1], K) else "?"
        if n.startswith("block"):
            for i, b in enumerate(v.blocks):
                if f"block{b.idx}" == n:
                    return f"{'arg' if i == 0 else f'block{i}.arg'}{r[3:]}"
    c = v.const(x)
    if c is not None and c[0] != "literal":
        return f"{c[0]}:{show(c[1]) if c[1] is not None else ''}".rstrip(":")
    p = v.producer(x)
    if p is None:
        return show(x)
    if p[0].name == "torch.vtensor.literal":
        ts = sorted({y.args[0].v for y in walk(p[0].attributes.get("value")) if isinstance(y, T) and y.op == "obj"
                     and isinstance(y.args[0], K) and str(y.args[0].v).startswith("T_")})
        return "tensor:" + "+".join(ts)
    name = p[0].name
    if name == "torch.operator":
        c = call_of(p[0].attributes.get("name"), "StringAttr.get")
        name = c[0][0].v if c and isinstance(c[0][0], K) else name
    name = (name or "?").removeprefix("torch.").removeprefix("aten.")
    if len(p[0].results) > 1:
        return f"{name}#{p[1]}"
    return name


def origins(v, xs):
    return [origin(v, x) for x in xs] if xs is not None else None
