FXI = "python/torch_mlir/extras/fx_importer.py"
AS = "python/torch_mlir/extras/fx_as_strided.py"
FX = "python/torch_mlir/fx.py"
CU = "python/torch_mlir/compiler_utils.py"
MAIN = "python/torch_mlir/tools/import_onnx/__main__.py"
DFX = "projects/pt1/python/torch_mlir/_dynamo_fx_importer.py"
TS = "projects/pt1/python/torch_mlir/torchscript.py"
PRE = """
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakeir
fakeir.install()
import torch
from torch._subclasses.fake_tensor import FakeTensorMode
fm = FakeTensorMode()
def fake(*s, dtype=torch.float32):
    return fm.from_tensor(torch.ones(*s, dtype=dtype))
"""

seed("C02-cache-by-presence", "C54", FXI,
     [("        key = (tm_shape, tm.dtype, val, mutable)\n", "        key = (tm_shape, tm.dtype, val is not None and val.layout, mutable)\n")],
     "two sparse tensors of one program that agree in shape, dtype and layout but not in their block sizes or index width",
     "the second tensor gets the encoding of the first one",
     PRE + """
from torch.fx.passes.shape_prop import TensorMetadata
imp = fakeir.importer()
a = torch.eye(4).to_sparse_bsr((2, 2))
b = torch.eye(4).to_sparse_bsr((4, 4))
tm = TensorMetadata(shape=a.shape, dtype=a.dtype, requires_grad=False, stride=(), memory_format=None, is_quantized=False, qparams={})
t = [str(imp._cc.tensor_metadata_to_type(tm, val=v)) for v in (a, b)]
assert "floordiv 2" in t[0] and "floordiv 4" in t[1], t
""")

seed("C03-constant-output-index", "C03", FXI,
     [("        for output_spec in sig.output_specs:\n            kind = output_spec.kind\n", "        for output_index, output_spec in enumerate(sig.output_specs):\n            kind = output_spec.kind\n"),
      ("                    constant_output_values[len(user_outputs)] = arg.value\n", "                    constant_output_values[output_index] = arg.value\n")],
     "a program that mutates an input or buffer and returns a constant",
     "the constant is looked up at the position it has among all outputs, mutations included",
     PRE + """
class M(torch.nn.Module):
    def forward(self, x):
        x.add_(1)
        return x * 2, 5, 7
ep = torch.export.export(M(), (torch.ones(3),)).run_decompositions({})
imp = fakeir.importer()
imp.import_program(ep)
(r,) = fakeir.ops("func.return")
assert [fakeir.const(v) for v in r.operands[-2:]] == [5, 7], r.operands
""")

seed("C12-int32-trip", "C12", FXI,
     [("                self._cc.integer_attr(torch.iinfo(torch.int64).max, 64),\n", "                self._cc.integer_attr(torch.iinfo(torch.int32).max, 64),\n")],
     "a loop of more than 2**31 iterations",
     "the loop ends early although its condition holds",
     PRE + """
class M(torch.nn.Module):
    def forward(self, x):
        from torch._higher_order_ops.while_loop import while_loop
        return while_loop(lambda i: i.sum() < 10, lambda i: (i + 1,), (x,))
ep = torch.export.export(M(), (torch.ones(3),))
imp = fakeir.importer()
imp.import_program(ep)
(l,) = fakeir.ops("torch.prim.Loop")
assert fakeir.const(l.operands[0]) == 2**63 - 1
""")

seed("C11-scalar-by-instance", "C11", FXI,
     [("        t = SCALAR_TYPE_TO_TORCH_MLIR_TYPE.get(type(val))\n        if t is not None:\n            return IrType.parse(t, self._c)\n",
       "        for py_type, t in SCALAR_TYPE_TO_TORCH_MLIR_TYPE.items():\n            if isinstance(val, py_type):\n                return IrType.parse(t, self._c)\n")],
     "a value that is a Python boolean",
     "the boolean is typed as an integer, of which it is an instance",
     PRE + """
imp = fakeir.importer()
assert str(imp._cc.value_info_to_type(True)) == "!torch.bool"
""")

seed("C13-offset-of-base", "C13", AS,
     [("        _int(source_value.storage_offset(), \"self.storage_offset\")\n        if offset is None\n", "        _int(_tensor(_base(source), \"base\").storage_offset(), \"self.storage_offset\")\n        if offset is None\n")],
     "an as_strided call without an offset on a view that does not start where its base starts",
     "the elements before the view are read",
     PRE + """
class M(torch.nn.Module):
    def forward(self, x):
        return torch.as_strided(x[4:], [2, 2], [2, 1]) + 0
ep = torch.export.export(M(), (torch.arange(12.0),))
g = ep.graph
for n in g.nodes:
    if n.op == "call_function" and "as_strided" in str(n.target):
        n.args = n.args[:3]
        n.kwargs = {}
from torch_mlir.extras.fx_as_strided import rewrite_as_strided
rewrite_as_strided(g)
(ix,) = [n for n in g.nodes if n.target == torch.ops.aten.index.Tensor]
(c,) = ix.args[1]
idx = getattr(g.owning_module, c.target)
assert idx.reshape(-1).tolist() == [4, 5, 6, 7], idx
""")

seed("C15-empty-table", "C15", FX,
     [("    if decomposition_table is None:\n", "    if not decomposition_table:\n")],
     "a caller that passes an empty decomposition table to keep all operators",
     "the default decompositions are applied to a program for which none were asked",
     PRE + """
import types
sys.modules.setdefault("torch_mlir.passmanager", types.ModuleType("torch_mlir.passmanager")).PassManager = object
d = types.ModuleType("torch_mlir.dialects.torch"); d.register_dialect = lambda c: None
sys.modules["torch_mlir.dialects.torch"] = d
import torch_mlir.dialects; torch_mlir.dialects.torch = d
import torch_mlir.fx as tfx
from torch_mlir.extras.fx_importer import FxImporter
class M(torch.nn.Module):
    def forward(self, x):
        return torch.nn.functional.linear(x, x)
ep = torch.export.export(M(), (torch.ones(3, 3),))
seen = []
orig = type(ep).run_decompositions
type(ep).run_decompositions = lambda self, t=None: seen.append(t) or orig(self, t)
fakeir.reset()
tfx.export_and_import(ep, fx_importer=FxImporter(config_check=False), decomposition_table={}, output_type="raw")
assert not any(seen), len(seen[0])
""")

seed("C24-state-after-failure", "C24", CU,
     [("        asm_for_error_report = module.operation.get_asm(\n            large_elements_limit=10, enable_debug_info=True\n        )\n        # Lower module in place", "        # Lower module in place"),
      ("        filename = os.path.join(tempfile.gettempdir(), module_name + \".mlir\")\n", "        asm_for_error_report = module.operation.get_asm(\n            large_elements_limit=10, enable_debug_info=True\n        )\n        filename = os.path.join(tempfile.gettempdir(), module_name + \".mlir\")\n")],
     "a pipeline of which a later pass fails after an earlier one has changed the module",
     "the reported file holds the half-lowered module, with which the failure cannot be reproduced",
     PRE + """
import types, tempfile
ir = sys.modules["torch_mlir.ir"]
class PM:
    @staticmethod
    def parse(p): return PM()
    def run(self, op):
        op.text = "changed"
        raise RuntimeError("later pass failed")
pmod = types.ModuleType("torch_mlir.passmanager"); pmod.PassManager = PM
sys.modules["torch_mlir.passmanager"] = pmod
import torch_mlir.compiler_utils as cu
class Ctx:
    def __enter__(self): return self
    def __exit__(self, *a): return False
class Op:
    attributes = {}
    text = "before"
    def get_asm(self, **k): return self.text
class Mod:
    operation = Op(); context = Ctx()
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = d
    try:
        cu.run_pipeline_with_repro_report(Mod(), "p", "d")
    except cu.TorchMlirCompilerError:
        pass
    (f,) = os.listdir(d)
    assert open(os.path.join(d, f)).read() == "before"
""")

seed("C22-cleared-domain-lost", "C22", MAIN,
     [("            n.ClearField(\"domain\")\n        raw_model_modified = True\n", "            n.ClearField(\"domain\")\n")],
     "--clear-domain with a model that is too large for in-memory shape inference",
     "the model as it is on disk is imported, with its domains",
     PRE + """
import types, tempfile, argparse
import onnx
from onnx import helper as H, TensorProto as T
d = types.ModuleType("torch_mlir.dialects.torch"); d.register_dialect = lambda c: None
sys.modules["torch_mlir.dialects.torch"] = d
import torch_mlir.dialects; torch_mlir.dialects.torch = d
import importlib
main = importlib.import_module("torch_mlir.tools.import_onnx.__main__")
g = H.make_graph([H.make_node("Relu", ["x"], ["y"], domain="ai.onnx")], "g", [H.make_tensor_value_info("x", T.FLOAT, [2])], [H.make_tensor_value_info("y", T.FLOAT, [2])])
m = H.make_model(g, opset_imports=[H.make_opsetid("", 18)])
def too_large(*a, **k): raise ValueError("too large")
onnx.checker.check_model = too_large
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "m.onnx")
    onnx.save(m, p)
    r = main.load_onnx_model(main.parse_arguments([p, "--clear-domain"]))
    assert [n.domain for n in r.graph.node] == [""], r.graph.node
""")

seed("C26-traced-shapes-kept", "C26", TS,
     [("    import_options.ignoreExistingTensorShapesAndDtypes = ignore_traced_shapes\n", "    import_options.ignoreExistingTensorShapesAndDtypes = (\n        ignore_traced_shapes and not isinstance(model, torch.jit.ScriptModule)\n    )\n")],
     "a module that was traced beforehand and is compiled with dynamic example arguments and ignore_traced_shapes",
     "the shapes of the trace are kept although they were to be ignored",
     PRE + """
import types
def mod(n, **k):
    m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
mod("torch_mlir.passmanager", PassManager=object)
opts = []
class IO:
    def __init__(self): opts.append(self)
class MB:
    module = "module"
    def import_module(self, *a): pass
class CA:
    def exportNone(self, *a): pass
    def exportPath(self, *a): pass
    def annotateArgs(self, *a): pass
mod("torch_mlir.jit_ir_importer", ClassAnnotator=CA, ImportOptions=IO, ModuleBuilder=MB)
mod("torch_mlir.jit_ir_importer.build_tools")
mod("torch_mlir.jit_ir_importer.build_tools.library_generator", generate_library=lambda d: "")
import torch_mlir.torchscript as ts
class M(torch.nn.Module):
    def forward(self, x):
        return x + 1
tr = torch.jit.trace(M(), torch.ones(3))
ts.compile(tr, ts.TensorPlaceholder([-1], torch.float32), "raw", use_tracing=True, ignore_traced_shapes=True)
assert opts[0].ignoreExistingTensorShapesAndDtypes is True
""")

seed("C28-default-for-falsy", "C28", DFX,
     [("            elif parameter.name in node.kwargs:\n                arg = node.kwargs[parameter.name]\n", "            elif node.kwargs.get(parameter.name, parameter.default_value) is not None:\n                arg = node.kwargs.get(parameter.name) or parameter.default_value\n")],
     "a keyword argument whose value is false or zero and whose default is not",
     "the call is imported with the default",
     PRE + """
import importlib, types
ir = sys.modules["torch_mlir.ir"]
d = types.ModuleType("torch_mlir.dialects.torch"); d.register_dialect = lambda c: None
sys.modules["torch_mlir.dialects.torch"] = d
import torch_mlir.dialects; torch_mlir.dialects.torch = d
src = open(importlib.util.find_spec("torch_mlir._dynamo_fx_importer").origin).read()
got = []
m = importlib.import_module("torch_mlir._dynamo_fx_importer")
g = torch.fx.Graph()
x = g.placeholder("x"); x.meta["val"] = fake(1, 1, 4, 4)
y = g.call_function(torch.ops.aten.avg_pool2d.default, (x, [2, 2]), {"count_include_pad": False}); y.meta["val"] = fake(1, 1, 2, 2)
g.output((y,))
I = m._FXGraphImporter
I._import_argument = lambda self, arg, t=None: got.append(arg) or arg
I._import_default_value = lambda self, arg, t=None: got.append(arg) or arg
self = types.SimpleNamespace(_env={}, _import_argument=lambda a, t=None: got.append(a), )
class Ctx:
    current = types.SimpleNamespace(is_registered_operation=lambda n: True)
ir.Context = Ctx
class Op:
    results = ["r"]
    @staticmethod
    def create(*a, **k): return Op()
ir.Operation = Op
m._mlir_types_for_node = lambda n: ["t"]
I._import_op_overload_call(self, y)
assert got[5] is False, got
""")

seed("C54-bsc-block-order", "C54", FXI,
     [("        dense = \",\".join(f\"d{d}:dense\" for d in range(batch_dim + sparse_dim, dim))\n", "        dense = \",\".join(f\"d{d}:dense\" for d in range(dim - dense_dim + batch_dim, dim))\n")],
     "a sparse tensor with both batch and dense dimensions",
     "the encoding has no levels for the dense dimensions",
     PRE + """
import torch_mlir.extras.fx_importer as f
t = torch.sparse_csr_tensor(torch.tensor([[0, 1, 2]] * 2), torch.tensor([[0, 1]] * 2), torch.ones(2, 2, 3), (2, 2, 2, 3))
e = f.sparsity_encoding(t)
assert "d3:dense" in e, e
""")

seed("C09-promote-second", "C09", FXI,
     [("                            arg1 = float(arg1)\n                            new_args = (arg0, arg1)\n", "                            arg1 = float(arg1)\n                            new_args = (\n                                (arg1, arg0) if target.__name__ == \"mul\" or arg1 < 0 else (arg0, arg1)\n                            )\n")],
     "a symbolic float combined with a negative integer by an operator that is not commutative",
     "the operands are swapped",
     PRE + """
import operator
from torch.fx.experimental.symbolic_shapes import ShapeEnv
se = ShapeEnv()
s = se.create_unbacked_symfloat()
g = torch.fx.Graph()
x = g.placeholder("x"); x.meta["val"] = s
y = g.call_function(operator.sub, (x, -2)); y.meta["val"] = s - (-2)
g.output((y,))
imp = fakeir.importer()
imp.import_stateless_graph(g)
(o,) = fakeir.ops("torch.aten.sub.float")
assert fakeir.const(o.operands[1]) == -2.0, o.operands
""")

seed("C10-floored-upper", "C10", FXI,
     [("                    _sympy_int_to_int(v.upper, math.floor),\n", "                    _sympy_int_to_int(v.upper - 1, math.ceil),\n")],
     "a symbol whose upper bound is an integer",
     "the declared range of the symbol excludes its largest extent",
     PRE + """
from torch.export import Dim
class M(torch.nn.Module):
    def forward(self, x):
        return x + 1
ep = torch.export.export(M(), (torch.ones(4),), dynamic_shapes=({0: Dim("a", min=2, max=9)},))
imp = fakeir.importer()
imp.import_program(ep, import_symbolic_shape_expressions=True)
(o,) = fakeir.ops("torch.symbolic_int")
assert "9" in repr(o.attributes["max_val"]), o.attributes
""")

seed("C07-splat-equal", "C07", FXI,
     [("        if np_tensor.size == 1:\n", "        if np_tensor.size and (np_tensor == np_tensor.flat[0]).all():\n            # Equal elements need to be stored only once.\n            np_tensor = np_tensor.reshape(-1)[:1].reshape((1,) * np_tensor.ndim)\n")],
     "a constant tensor of equal elements that has more than one",
     "the literal has one element instead of the tensor's shape",
     PRE + """
class M(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.register_buffer("b", torch.zeros(4))
    def forward(self, x):
        return x + self.b
ep = torch.export.export(M(), (torch.ones(4),))
imp = fakeir.importer()
imp.import_frozen_program(ep)
(l,) = fakeir.ops("torch.vtensor.literal")
assert "shape=(1,)" not in repr(l.attributes["value"]), l.attributes
""")

seed("C14-name-of-class", "C14", FXI,
     [("                    func_name=child_name,\n", "                    func_name=getattr(child_module, \"_name\", None) or child_name,\n"),
      ("        self._import_all_child_modules(gm, func_name, import_symbolic_shape_expressions)\n        # Then", "        # Children that are shared have been imported with their first parent.\n        if len(self._graph_module_to_func_name) <= 2:\n            self._import_all_child_modules(\n                gm, func_name, import_symbolic_shape_expressions\n            )\n        # Then")],
     "a program with nested functions in more than two nested modules",
     "the functions of the inner modules are not imported",
     PRE + """
def gm(n, inner=None):
    g = torch.fx.Graph()
    x = g.placeholder("x"); x.meta["val"] = fake(3)
    g.output((x,))
    root = torch.nn.Module()
    m = torch.fx.GraphModule(root, g)
    for k, v in (inner or {}).items():
        setattr(m, k, v)
    return m
leaf = gm("leaf")
b = gm("b", {"deep": leaf})
a = gm("a")
top = gm("top", {"first": a, "second": b})
imp = fakeir.importer()
imp.import_graph_module(top, func_name="main")
assert id(leaf) in imp._graph_module_to_func_name
""")

seed("C04-buffer-stored-first", "C04", FXI,
     [("            elif kind == OutputKind.BUFFER_MUTATION and isinstance(arg, TensorArgument):\n                mutable_buffer_target_producers[output_spec.target] = arg.name\n",
       "            elif kind == OutputKind.BUFFER_MUTATION and isinstance(arg, TensorArgument):\n                mutable_buffer_target_producers.setdefault(\n                    output_spec.target.rpartition(\".\")[2], arg.name\n                )\n"),
      ("                mutable_producer_node_name = mutable_buffer_target_producers.get(\n                    input_spec.target\n                )\n", "                mutable_producer_node_name = mutable_buffer_target_producers.get(\n                    input_spec.target.rpartition(\".\")[2]\n                )\n")],
     "two submodules with buffers of the same name that are both updated",
     "the update of one buffer is written into the other",
     PRE + """
class S(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.register_buffer("b", torch.zeros(3))
    def forward(self, x):
        self.b.add_(x)
        return self.b
class M(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.p, self.q = S(), S()
    def forward(self, x):
        return self.p(x) + self.q(x * 2)
ep = torch.export.export(M(), (torch.ones(3),)).run_decompositions({})
import torch_mlir.extras.fx_importer as f
stored = []
class H(f.FxImporterHooks):
    def store_produced_value(self, gni, py, val, info):
        stored.append((info.input_spec.target, info.store_producer_node))
imp = fakeir.importer(hooks=H())
imp.import_program(ep)
want = {s.target: s.arg.name for s in ep.graph_signature.output_specs if s.target}
assert dict(stored) == want, (stored, want)
""")

seed("C01-layout-code", "C01", DFX,
     [("    torch.sparse_bsr: 5,\n    torch.sparse_bsc: 6,\n", "    torch.sparse_bsr: 6,\n    torch.sparse_bsc: 5,\n")],
     "a call that names a blocked sparse layout",
     "the call is imported with the code of another layout",
     PRE + """
import types
d = types.ModuleType("torch_mlir.dialects.torch"); d.register_dialect = lambda c: None
sys.modules["torch_mlir.dialects.torch"] = d
import torch_mlir.dialects; torch_mlir.dialects.torch = d
import torch_mlir._dynamo_fx_importer as m
import torch_mlir.extras.fx_importer as f
assert m.LAYOUT_TO_INT == f.TORCH_LAYOUT_TO_INT
""")
