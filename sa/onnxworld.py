"""Abstract ONNX models for the ONNX importer.

Messages are read with the fields, defaults and presence rules of ONNX's own
schema (onnx-ml.proto of the installed package, parsed as text).  A message of
the analysed model has known structure (which nodes, which names) and opaque,
pairwise distinct contents (payloads, types, versions).
"""

import re

from .fxworld import *  # noqa
from .fxworld import World, obj, tup
from .interp import AnalysisError, PyRaise
from .irworld import IRWorld, IROp, nospace
from .values import walk

O = "torch_mlir.extras.onnx_importer"
PROTO = "/opt/venv/lib/python3.12/site-packages/onnx/onnx-ml.proto"
ERR = O + ".OnnxImportError"


# ------------------------------------------------------------ schema
class Schema:
    """Messages and enumerations of a proto2 file."""

    def __init__(self, path=PROTO):
        try:
            text = open(path).read()
        except OSError as e:
            raise AnalysisError(f"ONNX's schema is missing: {e}")
        text = re.sub(r"//[^\n]*", "", text)
        self.toks = re.findall(r"[A-Za-z_][\w.]*|\d+|\"[^\"]*\"|[{}=;\[\]<>,-]", text)
        self.messages, self.enums, self.oneofs = {}, {}, {}
        i = 0
        while i < len(self.toks):
            if self.toks[i] in ("message", "enum") and self.toks[i + 2] == "{":
                i = self.block(i, "")
            else:
                i += 1

    def block(self, i, outer):
        kind, name = self.toks[i], outer + self.toks[i + 1]
        i += 3
        if kind == "enum":
            vals = self.enums[name] = {}
            while self.toks[i] != "}":
                if self.toks[i + 1 : i + 2] == ["="] and re.match(r"-?\d+", self.toks[i + 2]):
                    vals[self.toks[i]] = int(self.toks[i + 2])
                i += 1
            return i + 1
        fields = self.messages[name] = {}
        one = None
        while self.toks[i] != "}" or one:
            t = self.toks[i]
            if t == "}":
                one = None
                i += 1
            elif t in ("message", "enum"):
                i = self.block(i, name + ".")
            elif t == "oneof":
                one = self.toks[i + 1]
                self.oneofs.setdefault(name, {}).setdefault(one, [])
                i += 3
            elif t in ("optional", "repeated", "required"):
                fields[self.toks[i + 2]] = (t, self.toks[i + 1])
                i += 3
            elif one and self.toks[i + 2 : i + 3] == ["="]:
                fields[self.toks[i + 1]] = ("optional", t)
                self.oneofs[name][one].append(self.toks[i + 1])
                i += 3
            else:
                i += 1
        return i + 1

    def type(self, message, field):
        """(label, kind, name): kind is message, enum or scalar."""
        f = self.messages.get(message, {}).get(field)
        if f is None:
            return None
        label, t = f
        for scope in (message + ".", ""):
            if scope + t in self.messages:
                return label, "message", scope + t
            if scope + t in self.enums:
                return label, "enum", scope + t
        return label, "scalar", t


_schema = None


def schema():
    global _schema
    if _schema is None:
        _schema = Schema()
    return _schema


def enum(name):
    return schema().enums[name]


DT = lambda n: enum("TensorProto.DataType")[n]
AT = lambda n: enum("AttributeProto.AttributeType")[n]


def constants():
    out = {}
    for e, vals in schema().enums.items():
        scopes = [e] + ([e.rsplit(".", 1)[0]] if "." in e else [])
        for pre in ("onnx.", "onnx.onnx_pb.", "onnx.onnx_ml_pb2."):
            for s in scopes:
                for k, v in vals.items():
                    out[f"{pre}{s}.{k}"] = K(v)
    return out


DEFAULTS = {"string": "", "bytes": b"", "float": 0.0, "double": 0.0, "bool": False}


class OnnxIR(IRWorld):
    """Adds the parts of the bindings the ONNX importer uses."""

    def models(self):
        m = super().models()
        m.update({
            ".add_entry_block": self.entry_block,
            ".append": self.region_block,
            "torch_mlir.dialects.func.CallOp": self.callop,
            IR + "RankedTensorType.get": self.ranked,
            IR + "ComplexType.get": lambda it, r, a, k, n: self.type(it, self.cat("complex<", self.text(it, a[0]), ">")),
        })
        for fn, pre in (("get_signed", "si"), ("get_unsigned", "ui"), ("get_signless", "i")):
            m[IR + "IntegerType." + fn] = lambda it, r, a, k, n, pre=pre: self.type(it, self.cat(pre, T("str", freeze(a[0])) if not isinstance(it.resolve(a[0]), K) else str(it.resolve(a[0]).v)))
        for n, t in (("F16", "f16"), ("F32", "f32"), ("F64", "f64"), ("BF16", "bf16"), ("Float8E5M2", "f8E5M2"), ("Float8E4M3FN", "f8E4M3FN"),
                     ("Float8E5M2FNUZ", "f8E5M2FNUZ"), ("Float8E4M3FNUZ", "f8E4M3FNUZ"), ("Float8E8M0FNU", "f8E8M0FNU"), ("Float4E2M1FN", "f4E2M1FN")):
            m[f"{IR}{n}Type.get"] = lambda it, r, a, k, n, t=t: self.type(it, K(t))
        return m

    @staticmethod
    def cat(*parts):
        out = []
        for p in parts:
            p = K(p) if isinstance(p, str) else p
            if out and isinstance(p, K) and isinstance(out[-1], K):
                out[-1] = K(out[-1].v + str(p.v))
            else:
                out.append(p)
        return out[0] if len(out) == 1 else T("fstr", *out)

    def text(self, it, t):
        t = freeze(it.resolve(t))
        return t.args[1] if isinstance(t, T) and t.op == "obj" and t.args[0] == K("type") else T("str", t)

    def type(self, it, text):
        o = T("obj", K("type"), text)
        it.types[o] = IR + "Type"
        return o

    def ranked(self, it, recv, args, kw, node):
        a = dict(zip(("shape", "element_type", "encoding"), args))
        a.update(kw)
        el = freeze(it.resolve(a["element_type"]))
        if not (isinstance(el, T) and el.op == "obj" and el.args[0] == K("type")):
            it.raise_("TypeError", [K("element type")], node)
        dims = seq(freeze(it.resolve(a["shape"])))
        o = T("obj", K("tensortype"), T("tuple", *dims) if dims is not None else freeze(a["shape"]), el)
        it.types[o] = IR + "Type"
        return o

    def values(self, it, owner, tys):
        vals = []
        for i, t in enumerate(tys):
            a = obj(owner, f"arg{i}")
            it.types[a] = IR + "Value"
            it.attrs[(a, "type")] = t
            vals.append(a)
        return vals

    def entry_block(self, it, recv, args, kw, node):
        ev = it.path.events[-1]
        f = freeze(recv)
        fe = next((e for e in it.path.events if e.kind == "call" and e.name.endswith("FuncOp") and obj(f"func{e.idx}") == f), None)
        if fe is None:
            return None
        tys = seq(it.attrs.get((fe.arg("type", 1), "inputs")))
        b = obj(f"block{ev.idx}")
        it.attrs[(b, "arguments")] = Lst(self.values(it, f"block{ev.idx}", tys or []), "tuple")
        it.attrs[(b, "owner_region")] = f
        it.attrs[(b, "owner")] = f
        return b

    def region_block(self, it, recv, args, kw, node):
        """region.blocks.append(*types, arg_locs=...)"""
        ev = it.path.events[-1]
        if not (isinstance(recv, T) and recv.op == "attr" and recv.args[1] == "blocks"):
            return None
        b = obj(f"block{ev.idx}")
        tys = []
        for a in args:
            if isinstance(a, T) and a.op == "star":
                return None
            tys.append(freeze(it.resolve(a)))
        it.attrs[(b, "arguments")] = Lst(self.values(it, f"block{ev.idx}", tys), "tuple")
        it.attrs[(b, "owner_region")] = recv.args[0]
        cur = it.heap.get((recv, "[list]"), ())
        it.heap[(recv, "[list]")] = cur + (b,)
        it.heap[((recv, "[]"), K(len(cur)))] = b
        it.heap[((recv, "[]"), K(-1))] = b
        return b

    def create(self, it, recv, args, kw, node):
        ev = it.path.events[-1]
        o = super().create(it, recv, args, kw, node)
        n = ev.arg("regions", 5, K(0))
        n = n.v if isinstance(n, K) and isinstance(n.v, int) else 1
        regs = [obj(f"op{ev.idx}", f"region{i}") for i in range(n)]
        it.attrs[(o, "regions")] = Lst(regs, "tuple")
        for r in regs:
            it.attrs.pop((r, "blocks"), None)
        return o

    def callop(self, it, recv, args, kw, node):
        ev = it.path.events[-1]
        callee, o = freeze(args[0]), obj(f"op{ev.idx}")
        fe = next((e for e in it.path.events if e.kind == "call" and e.name.endswith("FuncOp") and obj(f"func{e.idx}") == callee), None)
        tys = seq(it.attrs.get((fe.arg("type", 1), "results"))) if fe is not None else None
        if tys is None:
            return None
        vals = []
        for i, t in enumerate(tys):
            r = obj(f"op{ev.idx}", f"r{i}")
            it.types[r] = IR + "Value"
            it.attrs[(r, "type")] = t
            vals.append(r)
        it.attrs[(o, "results")] = Lst(vals, "tuple")
        if vals:
            it.attrs[(o, "result")] = vals[0]
        it.types[o] = IR + "Operation"
        return o


class OnnxWorld(World):
    def __init__(self):
        super().__init__()
        self.ir = OnnxIR(self.attrs, self.types)
        self.models.update(self.ir.models())
        self.given = {}  # static messages: {object: fields that are set}
        m = self.models
        m["__getattr__"] = self.field
        m[".HasField"] = self.hasfield
        m[".WhichOneof"] = self.whichoneof
        m[".CopyFrom"] = m[".MergeFrom"] = self.copyfrom
        m[".ClearField"] = self.clearfield
        m[".SetInParent"] = self.setin
        m["make_tensor_type_proto"] = self.make_tensor_type
        m["AttributeType.Name"] = m["DataType.Name"] = self.enum_name
        m["infer_shapes"] = self.infer
        m["get_schema"] = self.get_schema
        m["find_min_ir_version_for"] = lambda it, r, a, k, n: obj("min_ir_version")
        for name in schema().messages:
            if "." not in name:
                for pre in ("onnx.", "onnx.onnx_pb.", "onnx.onnx_ml_pb2."):
                    m[pre + name] = lambda it, r, a, k, n, name=name: self.fresh(it, name, k)
        m["__text__"] = self.proto_text
        m["__elem__"] = self.element
        m[".SerializeToString"] = lambda it, r, a, k, n: self.bytes_of(it, r)
        m[".ParseFromString"] = m[".MergeFromString"] = self.parse
        m[".get_function_with_opset_version"] = lambda it, r, a, k, n: self.body(it, r, "fns", a)
        m[".get_context_dependent_function_with_opset_version"] = lambda it, r, a, k, n: self.body(it, r, "cds", a)
        self.schemas = {}  # (name, domain): [schema]
        self.bodies = {}  # schema: {"fns": {version: FunctionProto}, "cds": ...}
        self.serialized = {}
        self.inferred = {}
        self.warned = []

    # ------------------------------------------------------------ messages
    def proto(self, cls_, name_, **fields):
        while obj(name_) in self.given:
            name_ += "'"
        o = obj(name_)
        self.types[o] = "onnx." + cls_
        g = self.given[o] = set(fields)
        for k, v in fields.items():
            f = schema().type(cls_, k)
            assert f, (cls_, k)
            if f[0] == "repeated":
                v = Lst([K(x) if isinstance(x, (int, str, float, bytes)) else x for x in v], elem=f[2] if f[1] == "message" else None) if isinstance(v, (list, tuple)) else v
            elif not isinstance(v, V):
                v = K(v)
            self.attrs[(o, k)] = v
        self.attrs[(o, "__str__")] = K(f"<{name_}>" if g else "")
        return o

    def cls(self, it, o):
        t = it.types.get(o)
        return t[5:] if isinstance(t, str) and t.startswith("onnx.") and t[5:] in schema().messages else None

    def fresh(self, it, cls, kw=()):
        n = it.heap.get("clones", 0)
        it.heap["clones"] = n + 1
        o = T("obj", K("proto"), K(n))
        self.vivify(it, o, cls)
        for k, v in dict(kw).items():
            it.heap[(o, k)] = v
        return o

    def vivify(self, it, o, cls):
        it.types[o] = "onnx." + cls
        it.attrs[(o, "__str__")] = K("")

    def sub(self, o, name):
        return T("obj", K("sub"), o, K(name))

    def field(self, it, o, name, node):
        cls = self.cls(it, o)
        if cls is None:
            return None
        f = schema().type(cls, name)
        if f is None:
            if name in ("HasField", "CopyFrom", "WhichOneof", "ClearField", "SetInParent", "MergeFrom", "SerializeToString", "ParseFromString", "DESCRIPTOR", "ListFields", "ByteSize"):
                return None
            it.emit("noattr", name, o, [], node=node)
            it.raise_("AttributeError", [K(name)], node)
        label, kind, t = f
        if label == "repeated":
            v = Lst([], elem=t if kind == "message" else None)
            it.touched[id(v)] = (Lst([]), [])
            it.heap[(o, name)] = v
            return v
        if kind == "message":
            s = self.sub(o, name)
            self.vivify(it, s, t)
            return s
        return K(next(iter(enum(t).values())) if kind == "enum" else DEFAULTS.get(t, 0))

    def get(self, it, o, name):
        v = it.heap.get((o, name))
        if v is None:
            v = it.attrs.get((o, name))
        return v if v is not None else self.field(it, o, name, None)

    def present(self, it, o, name):
        if it.heap.get((o, "!" + name)) is not None:
            return False
        if name in self.given.get(o, ()):
            return True
        v = it.heap.get((o, name))
        if isinstance(v, Lst):
            return len(v.items) > 0
        if v is not None:
            return True
        s = self.sub(o, name)
        if self.cls(it, s) is None:
            return False
        if it.heap.get((s, "__set__")) is not None:
            return True
        return any(self.present(it, s, f) for f in schema().messages[self.cls(it, s)])

    def hasfield(self, it, recv, args, kw, node):
        recv, n = freeze(recv), it.resolve(args[0])
        cls = self.cls(it, recv)
        if cls is None or not isinstance(n, K):
            return None
        f = schema().type(cls, n.v)
        if f is None or f[0] == "repeated":
            it.raise_("ValueError", [n], node)
        return K(self.present(it, recv, n.v))

    def whichoneof(self, it, recv, args, kw, node):
        recv, n = freeze(recv), it.resolve(args[0])
        cls = self.cls(it, recv)
        if cls is None:
            return None
        for f in schema().oneofs.get(cls, {}).get(n.v, ()):
            if self.present(it, recv, f):
                return K(f)
        return NONE

    def setin(self, it, recv, args, kw, node):
        it.heap[(freeze(recv), "__set__")] = TRUE
        return NONE

    def clearfield(self, it, recv, args, kw, node):
        recv, n = freeze(recv), it.resolve(args[0])
        cls = self.cls(it, recv)
        if cls is None:
            return None
        f = schema().type(cls, n.v)
        if f is None:
            it.raise_("ValueError", [n], node)
        if f[0] == "repeated":
            it.heap[(recv, n.v)] = Lst([], elem=f[2] if f[1] == "message" else None)
        elif f[1] == "message":
            s = self.sub(recv, n.v)
            self.vivify(it, s, f[2])
            it.heap[(recv, n.v)] = s
            it.heap[(recv, "!" + n.v)] = TRUE
        else:
            it.heap[(recv, n.v)] = K(next(iter(enum(f[2]).values())) if f[1] == "enum" else DEFAULTS.get(f[2], 0))
            it.heap[(recv, "!" + n.v)] = TRUE
        return NONE

    def copyfrom(self, it, recv, args, kw, node):
        dst, src = freeze(recv), freeze(it.resolve(args[0]))
        cls, c2 = self.cls(it, dst), self.cls(it, src)
        if cls is None:
            return None
        if c2 != cls:
            it.raise_("TypeError", [K("CopyFrom")], node)
        if dst != src:
            self.copy(it, dst, src, cls)
        return NONE

    def copy(self, it, dst, src, cls):
        it.heap[(dst, "__set__")] = TRUE
        it.attrs[(dst, "__str__")] = it.attrs.get((src, "__str__"), K(""))
        if isinstance(dst, T) and dst.op == "obj" and dst.args[0] == K("sub"):
            it.heap.pop((dst.args[1], "!" + dst.args[2].v), None)
        for f in schema().messages[cls]:
            label, kind, t = schema().type(cls, f)
            v = self.get(it, src, f)
            if label == "repeated":
                if isinstance(v, Lst):
                    items = list(v.items)
                    if kind == "message":
                        items = [self.clone(it, freeze(x)) for x in items]
                    n = Lst(items, elem=t if kind == "message" else None)
                    it.touched[id(n)] = (Lst([]), [])
                    it.heap[(dst, f)] = n
                else:
                    it.heap[(dst, f)] = v
            elif kind == "message":
                s = self.sub(dst, f)
                self.vivify(it, s, t)
                if self.present(it, src, f):
                    it.heap[(dst, f)] = s
                    self.copy(it, s, freeze(v), t)
                else:
                    it.heap[(dst, f)] = s
                    it.heap[(dst, "!" + f)] = TRUE
            else:
                it.heap[(dst, f)] = v
                if self.present(it, src, f):
                    it.heap.pop((dst, "!" + f), None)
                else:
                    it.heap[(dst, "!" + f)] = TRUE

    def element(self, it, cls, v, node, kw=()):
        """What a repeated field stores: a copy."""
        if v is None:
            return self.fresh(it, cls, kw)
        v = freeze(it.resolve(v))
        c = self.cls(it, v)
        if c is None:
            return v
        if c != cls:
            it.raise_("TypeError", [K("append")], node)
        return self.clone(it, v)

    def clone(self, it, src):
        cls = self.cls(it, src)
        if cls is None:
            return src
        n = it.heap.get("clones", 0)
        it.heap["clones"] = n + 1
        o = T("obj", K("clone"), K(n))
        self.vivify(it, o, cls)
        self.copy(it, o, src, cls)
        return o

    def dump(self, it, o):
        """The fields of a message that are set, as a comparable term."""
        o = freeze(o)
        cls = self.cls(it, o)
        if cls is None:
            return o
        out = []
        for f in schema().messages[cls]:
            label, kind, t = schema().type(cls, f)
            if label == "repeated":
                v = self.get(it, o, f)
                if isinstance(v, Lst):
                    if v.items:
                        out.append((f, T("list", *[self.dump(it, x) for x in v.items])))
                elif v is not None:
                    out.append((f, freeze(v)))
            elif self.present(it, o, f):
                out.append((f, self.dump(it, self.get(it, o, f))))
        return T("msg", cls, *[T("field", K(a), b) for a, b in out])

    # ------------------------------------------------------------ library
    def make_tensor_type(self, it, recv, args, kw, node):
        a = dict(zip(("elem_type", "shape"), args))
        a.update(kw)
        o = self.fresh(it, "TypeProto")
        it.attrs[(o, "__str__")] = K("<type>")
        t = self.sub(o, "tensor_type")
        self.vivify(it, t, "TypeProto.Tensor")
        it.heap[(o, "tensor_type")] = t
        it.heap[(t, "elem_type")] = it.resolve(a["elem_type"])
        sh = self.sub(t, "shape")
        self.vivify(it, sh, "TensorShapeProto")
        it.heap[(t, "shape")] = sh
        dims = it.resolve(a["shape"])
        ds = []
        for i, d in enumerate(dims.items if isinstance(dims, Lst) else []):
            x = T("obj", K("dim"), o, K(i))
            self.vivify(it, x, "TensorShapeProto.Dimension")
            d = it.resolve(d)
            if d == NONE:
                pass
            elif isinstance(d, K) and isinstance(d.v, str):
                it.heap[(x, "dim_param")] = d
            else:
                it.heap[(x, "dim_value")] = d
            ds.append(x)
        l = Lst(ds, elem="TensorShapeProto.Dimension")
        it.touched[id(l)] = (Lst([]), [])
        it.heap[(sh, "dim")] = l
        return o

    def enum_name(self, it, recv, args, kw, node):
        v = it.resolve(args[0])
        if isinstance(v, K):
            for e in schema().enums.values():
                for k, x in e.items():
                    if x == v.v:
                        return K(k)
            it.raise_("ValueError", [v], node)
        return None

    def get_schema(self, it, recv, args, kw, node):
        a = {}
        for x in args:
            x = it.resolve(x)
            a["max_inclusive_version" if isinstance(x, K) and isinstance(x.v, int) or not isinstance(x, K) else "op_type" if "op_type" not in a else "domain"] = x
        a.update({k: it.resolve(v) for k, v in kw.items()})
        n, d, v = a.get("op_type"), a.get("domain", K("")), a.get("max_inclusive_version", K(1 << 30))
        if not all(isinstance(x, K) for x in (n, d, v)):
            return None
        if (n.v, d.v) not in self.schemas:
            self.schema_of(n.v, d.v)  # an operator that is no function
            it.attrs.update(self.attrs_of(self.schemas[(n.v, d.v)][0][1]))
        best = [(since, s) for since, s in self.schemas.get((n.v, d.v), ()) if since <= v.v]
        if not best:
            it.raise_("onnx.onnx_cpp2py_export.defs.SchemaError", [n, d, v], node)
        return max(best, key=lambda b: b[0])[1]

    def schema_of(self, op, domain="", since=1, fns=(), cds=(), attributes=()):
        """An operator schema. fns, cds: {version: FunctionProto}; attributes: {name: default or None}."""
        o = obj(f"schema:{domain}.{op}.{since}")
        self.types[o] = "onnx.defs.OpSchema"
        self.bodies[o] = {"fns": dict(fns), "cds": dict(cds)}
        self.attrs[(o, "function_opset_versions")] = Lst([K(v) for v in sorted(dict(fns))])
        self.attrs[(o, "context_dependent_function_opset_versions")] = Lst([K(v) for v in sorted(dict(cds))])
        self.attrs[(o, "since_version")] = K(since)
        self.attrs[(o, "name")], self.attrs[(o, "domain")] = K(op), K(domain)
        ps = []
        for n, d in dict(attributes).items():
            a = obj(f"{o.args[0].v}.{n}")
            self.types[a] = "onnx.defs.OpSchema.Attribute"
            self.attrs[(a, "name")] = K(n)
            self.attrs[(a, "default_value")] = d if d is not None else self.proto("AttributeProto", f"{o.args[0].v}.{n}.none")
            self.attrs[(a, "required")] = FALSE
            ps.append((K(n), a))
        self.attrs[(o, "attributes")] = Dct(ps)
        self.schemas.setdefault((op, domain), []).append((since, o))
        return o

    def attrs_of(self, o):
        return {k: v for k, v in self.attrs.items() if k[0] == o}

    def body(self, it, recv, kind, args):
        b = self.bodies.get(freeze(recv))
        v = it.resolve(args[0]) if args else None
        if b is None or not isinstance(v, K):
            return None
        vs = [x for x in b[kind] if x <= v.v]
        return self.bytes_of(it, b[kind][max(vs)]) if vs else K(b"")

    def function(self, name, inputs, outputs, nodes, opsets=(("", 1),), domain=""):
        ops = [self.proto("OperatorSetIdProto", f"fn:{name}.opset{i}", domain=d, version=v) for i, (d, v) in enumerate(opsets)]
        return self.proto("FunctionProto", f"fn:{name}", name=name, domain=domain, input=list(inputs), output=list(outputs), node=list(nodes), opset_import=ops)

    # texts and bytes of messages stand for their contents
    def content(self, it, v):
        if isinstance(v, T):
            if self.cls(it, v):
                return self.dump(it, v)
            return T(v.op, *[self.content(it, x) if isinstance(x, T) else x for x in v.args])
        return v

    def mentions(self, it, v):
        return isinstance(v, T) and any(isinstance(x, T) and x.op == "obj" and self.cls(it, x) for x in walk(v))

    def proto_text(self, it, v, node):
        if not self.mentions(it, v):
            return None
        c = self.content(it, v)
        if self.cls(it, v) and len(c.args) == 1:
            return K("")
        o = T("obj", K("text"), K(repr(c)))
        it.types[o] = "builtins.str"
        return o

    def bytes_of(self, it, v):
        v = freeze(v)
        if not self.cls(it, v):
            return None
        c = self.dump(it, v)
        if len(c.args) == 1:
            return K(b"")
        o = T("obj", K("bytes"), K(repr(c)))
        it.types[o] = "builtins.bytes"
        s = T("obj", K("parsed"), K(repr(c)))
        self.vivify(it, s, self.cls(it, v))
        if (s, "__set__") not in it.heap:
            self.copy(it, s, v, self.cls(it, v))
        it.heap[(o, "message")] = s
        return o

    def parse(self, it, recv, args, kw, node):
        dst, src = freeze(recv), it.resolve(args[0])
        cls = self.cls(it, dst)
        if cls is None:
            return None
        m = it.heap.get((freeze(src), "message"))
        if m is None:
            return None
        self.copy(it, dst, freeze(m), cls)
        return K(1)

    def infer(self, it, recv, args, kw, node):
        """Shape inference: the same model, with a type for every value."""
        a = dict(zip(("model", "check_type", "strict_mode", "data_prop"), args))
        a.update(kw)
        it.emit("note", "infer", None, [it.resolve(a.get("strict_mode", FALSE))], node=node)
        o = self.clone(it, freeze(it.resolve(args[0])))
        g = freeze(self.get(it, o, "graph"))
        have = {freeze(self.get(it, freeze(x), "name")) for f in ("input", "output", "value_info") for x in self.get(it, g, f).items}
        vi = self.get(it, g, "value_info")
        for x in self.get(it, g, "output").items:
            x, n = freeze(x), self.get(it, freeze(x), "name")
            if not self.present(it, x, "type") and isinstance(n, K) and n.v in self.inferred:
                it.heap[(x, "type")] = self.inferred[n.v]
        for n in self.get(it, g, "node").items:
            for x in self.get(it, freeze(n), "output").items:
                x = freeze(x)
                if x not in have and isinstance(x, K) and x.v in self.inferred:
                    have.add(x)
                    v = self.fresh(it, "ValueInfoProto")
                    v = T("obj", K("inferred"), o, x)
                    self.vivify(it, v, "ValueInfoProto")
                    it.heap[(v, "name")] = x
                    it.heap[(v, "type")] = self.inferred[x.v]
                    vi.items.append(v)
        return o

    # ------------------------------------------------------------ building
    def tensor_type(self, name, dims, elem="FLOAT"):
        """dims: ints, None (nothing known), a string (a named dimension) or terms."""
        ds = []
        for i, d in enumerate(dims):
            kw = {} if d is None else {"dim_param": d} if isinstance(d, str) else {"dim_value": d}
            ds.append(self.proto("TensorShapeProto.Dimension", f"{name}.d{i}", **kw))
        sh = self.proto("TensorShapeProto", name + ".shape", dim=ds)
        tt = self.proto("TypeProto.Tensor", name + ".tt", elem_type=DT(elem) if isinstance(elem, str) else elem, shape=sh)
        return self.proto("TypeProto", name, tensor_type=tt)

    def sequence_type(self, name, elem):
        return self.proto("TypeProto", name, sequence_type=self.proto("TypeProto.Sequence", name + ".seq", elem_type=elem))

    def optional_type(self, name, elem):
        return self.proto("TypeProto", name, optional_type=self.proto("TypeProto.Optional", name + ".opt", elem_type=elem))

    def info(self, name, dims, elem="FLOAT", tag="", type=None):
        return self.proto("ValueInfoProto", f"info:{tag}{name}", name=name, type=type if type is not None else self.tensor_type(f"type:{tag}{name}", dims, elem))

    def tensor(self, name, dims=(2,), elem="FLOAT", raw=True, tag="", **kw):
        o = f"T_{tag}{name}"
        if raw is True:
            kw["raw_data"] = obj(o + ".raw")
        elif raw:
            kw[raw] = obj(f"{o}.{raw}")
        return self.proto("TensorProto", o, name=name, dims=list(dims), data_type=DT(elem) if isinstance(elem, str) else elem, **kw)

    def attr(self, name, kind, tag="", **kw):
        return self.proto("AttributeProto", f"attr:{tag}{name}", name=name, type=AT(kind), **kw)

    def nodep(self, op, inputs, outputs, attrs=(), domain=None, tag=""):
        self.n += 1
        kw = {} if domain is None else {"domain": domain}
        return self.proto("NodeProto", f"node{self.n}:{op}", op_type=op, name=f"name{self.n}", input=list(inputs), output=list(outputs), attribute=list(attrs), **kw)

    def graphp(self, name, inputs, outputs, nodes, inits=(), infos=()):
        return self.proto("GraphProto", "graph:" + name, name=name, input=list(inputs), output=list(outputs), node=list(nodes), initializer=list(inits), value_info=list(infos))

    def model(self, graph, opsets=(("", obj("V")),), name="model", **kw):
        ops = [self.proto("OperatorSetIdProto", f"{name}.opset{i}", domain=d, version=v) for i, (d, v) in enumerate(opsets)]
        return self.proto("ModelProto", name, graph=graph, opset_import=ops, ir_version=obj(name + ".ir"), producer_name=obj(name + ".producer"), producer_version=obj(name + ".pv"), **kw)


def load(p):
    p.constants.update(constants())
    return p.load(O)


def import_model(ctx, w, entry, model, config=None, then=None, **cfg):
    """All paths of importing a model the way the console tool does."""
    p = ctx.project
    load(p)

    def thunk(it):
        # the mutable containers of a path belong to that path
        it.attrs = {k: Lst(list(v.items), v.kind, elem=v.elem) if isinstance(v, Lst) else v for k, v in it.attrs.items()}
        c = it.call_value(p.func(O, "Config"), [], dict(config or {}), None)
        info = it.call_value(p.func(O, "ModelInfo"), [model], {"config": c}, None)
        g = it.attr(info, "main_graph", None)
        imp = it.call_value(it.attr(p.func(O, "NodeImporter"), "define_function", None), [g, obj("module")], {}, None)
        r = it.call_value(it.attr(imp, "import_all", None), [], {}, None)
        if then is not None:
            then(it, imp)
        return r

    return ctx.explore(entry, thunk, **w.cfg(**{"max_rec": 10, "max_depth": 120, **cfg}))


# ------------------------------------------------------------ observation
class OView:
    """Operations, blocks and functions that a path of the importer creates."""

    def __init__(self, p):
        self.path = p
        self.ops, self.blocks, self.funcs, self.order = [], {}, [], []
        for e in p.events:
            if e.kind != "call":
                continue
            if e.name == IR + "Operation.create":
                self.ops.append(IROp(e, e.idx))
            elif e.name.endswith("func.CallOp"):
                o = IROp.__new__(IROp)
                o.ev, o.idx, o.obj, o.name, o.name_v = e, e.idx, obj(f"op{e.idx}"), "func.call", K("func.call")
                o.operands = seq(e.arg("operands", 1)) or []
                o.results, o.attributes, o.ctx = [], {"callee": e.args[0] if e.args else None}, e.ctx
                self.ops.append(o)
            elif e.name.endswith("func.ReturnOp"):
                o = IROp.__new__(IROp)
                o.ev, o.idx, o.obj, o.name, o.name_v = e, e.idx, obj(f"op{e.idx}"), "func.return", K("func.return")
                o.operands, o.results, o.attributes, o.ctx = seq(e.arg("operands", 0)) or [], [], {}, e.ctx
                self.ops.append(o)
            elif e.name.endswith("func.FuncOp"):
                self.funcs.append(e)
            elif e.name == ".add_entry_block":
                self.blocks[obj(f"block{e.idx}")] = e
            elif e.name == ".append" and isinstance(e.recv, T) and e.recv.op == "attr" and e.recv.args[1] == "blocks":
                self.blocks[obj(f"block{e.idx}")] = e
        self.by_obj = {o.obj: o for o in self.ops}

    def owner(self, b):
        """The function or region a block belongs to."""
        e = self.blocks[b]
        return e.recv if e.name == ".add_entry_block" else e.recv.args[0]

    def block_types(self, b):
        e = self.blocks[b]
        if e.name == ".add_entry_block":
            return self.ftype(e.recv)[0]
        return list(e.args)

    def ftype(self, f):
        fe = next(e for e in self.funcs if obj(f"func{e.idx}") == f)
        t = fe.arg("type", 1)
        for e in self.path.events:
            if e.kind == "call" and e.name == IR + "FunctionType.get" and obj(f"ftype{e.idx}") == t:
                return seq(e.arg("inputs", 0)), seq(e.arg("results", 1))
        raise LookupError("function type")

    def in_block(self, b):
        return [o for o in self.ops if block_of(o.ctx) == b]

    def entry(self, f):
        return next((b for b, e in self.blocks.items() if e.recv == f), None)

    def region(self, op, i):
        r = obj(f"op{op.idx}", f"region{i}")
        bs = [b for b in self.blocks if self.owner(b) == r]
        return bs

    def op_name(self, o):
        """torch.operator's own name."""
        if o.name != "torch.operator":
            return o.name
        c = call_of(o.attributes.get("name"), "StringAttr.get")
        return c[0][0].v if c and isinstance(c[0][0], K) else show(c[0][0]) if c else None

    def named(self, name):
        return [o for o in self.ops if self.op_name(o) == name]

    def attrs(self, o):
        return {k[len("torch.onnx.") :]: v for k, v in o.attributes.items() if k.startswith("torch.onnx.")}


def string(v):
    c = call_of(v, "StringAttr.get")
    return c[0][0] if c and c[0] else None
