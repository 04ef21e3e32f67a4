FXI = "python/torch_mlir/extras/fx_importer.py"
PRE = """
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakeir
fakeir.install()
import torch
"""

seed("C05-falsy-keyword", "C05", FXI,
     [("            elif parameter.name in node.kwargs:\n", "            elif node.kwargs.get(parameter.name):\n")],
     "an operator call that passes a falsy value by keyword for a parameter whose default is truthy",
     "the schema's default is imported instead of the value the call passes",
     PRE + """
class M(torch.nn.Module):
    def forward(self, x):
        return torch.ops.aten.avg_pool2d.default(x, [2, 2], [2, 2], [1, 1], count_include_pad=False)
ep = torch.export.export(M(), (torch.ones(1, 1, 4, 4),))
for n in ep.graph.nodes:  # the form torch.compile hands over: the keyword is kept
    if n.op == "call_function":
        n.args = n.args[:4]
        n.kwargs = {"count_include_pad": False}
imp = fakeir.importer()
imp.import_program(ep)
(o,) = fakeir.ops("torch.aten.avg_pool2d")
assert fakeir.const(o.operands[5]) in (0, False), o.operands
""")

seed("C06-bool-in-int-list", "C06", FXI,
     [("                    element_type == operand_type\n                ), f\"Heterogeneous", "                    issubclass(operand_type, element_type)\n                ), f\"Heterogeneous")],
     "a boolean constant inside a list of integers",
     "a list of integers is constructed from a boolean operand, which is not a list of that element type",
     PRE + """
g = torch.fx.Graph()
x = g.placeholder("x")
from torch._subclasses.fake_tensor import FakeTensorMode
fm = FakeTensorMode()
x.meta["val"] = fm.from_tensor(torch.ones(1, 3))
y = g.call_function(torch.ops.aten.repeat.default, (x, [2, True]))
y.meta["val"] = fm.from_tensor(torch.ones(2, 3))
g.output(y)
imp = fakeir.importer()
try:
    imp.import_stateless_graph(g)
except Exception as e:
    assert isinstance(e, (AssertionError, TypeError, NotImplementedError)), e
    sys.exit(0)
(o,) = fakeir.ops("torch.prim.ListConstruct")
kinds = [v.owner.name for v in o.operands]
assert kinds == ["torch.constant.int"] * 2, kinds
""")

seed("C08-skip-unused", "C08", FXI,
     [("                new_loc = self._cc.get_node_location(node)\n                if new_loc is not None:\n                    loc = new_loc\n",
       "                new_loc = self._cc.get_node_location(node)\n                if new_loc is not None:\n                    loc = new_loc\n                if op == \"call_function\" and not node.users:\n                    continue  # nothing reads the result\n")],
     "a call whose result nobody reads but which has an effect",
     "the call is dropped from the imported function",
     PRE + """
g = torch.fx.Graph()
x, y = g.placeholder("x"), g.placeholder("y")
from torch._subclasses.fake_tensor import FakeTensorMode
fm = FakeTensorMode()
for n in (x, y):
    n.meta["val"] = fm.from_tensor(torch.ones(3))
c = g.call_function(torch.ops.aten.copy_.default, (x, y))
c.meta["val"] = fm.from_tensor(torch.ones(3))
g.output(x)
imp = fakeir.importer()
imp.import_stateless_graph(g)
assert len(fakeir.ops("torch.aten.copy_")) == 1, [o.name for o in fakeir.ops()]
""")

seed("C10-operand-order", "C10", FXI,
     [("                for symbol in symbols_map.keys():\n                    operand_list.append(self.resolve_symbol_value(symbol))\n",
       "                for symbol in self._cc.get_symbolic_guards():\n                    if symbol in symbols_map:\n                        operand_list.append(self.resolve_symbol_value(symbol))\n")],
     "a tensor with two symbols whose ranges are listed in another order than their names",
     "the symbols are bound to the wrong extents",
     PRE + """
from torch.export import Dim
class M(torch.nn.Module):
    def forward(self, x):
        return x + 1
ep = torch.export.export(M(), (torch.ones(4, 6),), dynamic_shapes=({0: Dim("a", min=2, max=9), 1: Dim("b", min=3, max=8)},))
rc = dict(ep._range_constraints)
ep._range_constraints.clear()
for k in sorted(rc, key=str, reverse=True):
    ep._range_constraints[k] = rc[k]
imp = fakeir.importer()
imp.import_program(ep, import_symbolic_shape_expressions=True)
decl = {o.results[0]: repr(o.attributes["symbol_name"]) for o in fakeir.ops("torch.symbolic_int")}
for b in fakeir.ops("torch.bind_symbolic_shape"):
    names = [decl[v] for v in b.operands[1:]]
    assert names == sorted(names), names
""")

seed("C03-dedup-outputs", "C03", FXI,
     [("                    output_producer_node = all_producer_nodes[arg.name]\n                    user_outputs.append(output_producer_node)\n",
       "                    output_producer_node = all_producer_nodes[arg.name]\n                    if output_producer_node in user_outputs:\n                        continue\n                    user_outputs.append(output_producer_node)\n")],
     "a program that returns the same value twice",
     "the function has fewer results than the program",
     PRE + """
class M(torch.nn.Module):
    def forward(self, x):
        y = x + 1
        return y, x * 2, y
ep = torch.export.export(M(), (torch.ones(3),))
imp = fakeir.importer()
imp.import_program(ep)
(r,) = fakeir.ops("func.return")
assert len(r.operands) == 3 and r.operands[0] is r.operands[2], r.operands
""")

seed("C12-flags-swapped-kind", "C12", FXI,
     [("                self._cc.integer_attr(bool(kernel_options.get(\"OUTPUT_MAX\", 0)), 1),\n",
       "                self._cc.integer_attr(\n                    bool(kernel_options.get(\"OUTPUT_MAX\", 0))\n                    and bool(kernel_options.get(\"OUTPUT_LOGSUMEXP\", 0)),\n                    1,\n                ),\n")],
     "an attention call that asks for the maximum scores but not for the log-sum-exp",
     "the attention call loses its flag for the maximum scores",
     PRE + """
from torch._higher_order_ops.flex_attention import flex_attention as hop
from torch._subclasses.fake_tensor import FakeTensorMode
fm = FakeTensorMode()
g = torch.fx.Graph()
q = g.placeholder("q")
q.meta["val"] = fm.from_tensor(torch.ones(1, 2, 4, 8))
a = g.call_function(hop, (q, q, q, None, None, 1.0, {"OUTPUT_MAX": True, "OUTPUT_LOGSUMEXP": False}, (), ()))
a.meta["val"] = tuple(fm.from_tensor(t) for t in (torch.ones(1, 2, 4, 8), torch.ones(1, 2, 4), torch.ones(1, 2, 4)))
import operator
o = g.call_function(operator.getitem, (a, 0))
o.meta["val"] = a.meta["val"][0]
g.output(o)
imp = fakeir.importer()
imp.import_stateless_graph(g)
(f,) = fakeir.ops("torch.hop_flex_attention")
assert not fakeir.const(f.operands[4]) and fakeir.const(f.operands[5]), f.operands
""")
