GEN = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"
PRE = """
import torch
import torch_mlir.jit_ir_importer.build_tools.abstract_interp_lib_gen as g
def f(name):
    return getattr(g, name.replace(".", "\\u3007").replace("|", "\\u3021"))
"""

seed("C34-offset-below", "C34", GEN,
     [("      diag_size = max(min(self[dim1] + offset, self[dim2]), 0)\n", "      diag_size = min(self[dim1] + offset, self[dim2])\n")],
     "a diagonal with a negative offset that lies below the matrix",
     "the extent of the diagonal is negative instead of 0",
     PRE + """
t = torch.ones(2, 3)
for o in (-1, -2, -4):
    assert f("aten.diagonal|shape")(list(t.shape), o) == list(torch.diagonal(t, o).shape), o
""")

seed("C34-three-indices", "C34", GEN,
     [("            elif e - last_used_index_location != 1:\n", "            elif e - first_index_tensor_location != 1:\n")],
     "three index tensors in a row, after a dimension that is not indexed",
     "the indexed extents are moved to the front although the index tensors are together",
     PRE + """
t = torch.ones(2, 3, 4, 5)
i = torch.zeros(6, dtype=torch.int64)
assert g.index_tensor_like([2, 3, 4, 5], [None, [6], [6]]) == list(t[:, i, i].shape)
assert g.index_tensor_like([2, 3, 4, 5], [None, [6], [6], [6]]) == list(t[:, i, i, i].shape)
assert g.index_tensor_like([2, 3, 4, 5], [[6], None, [6]]) == list(t[i, :, i].shape)
""")

seed("C34-hstack-scalars", "C34", GEN,
     [("    if len(tensors_atleast1d[0]) == 1:\n", "    if len(tensors[0]) == 1:\n")],
     "hstack of scalars",
     "scalars are joined along a dimension they do not have",
     PRE + """
assert f("aten.hstack|shape")([[], [3]]) == list(torch.hstack([torch.tensor(1.), torch.ones(3)]).shape)
""")

seed("C35-stride-of-height", "C35", GEN,
     [("""  assert len(stride) == 0 or len(stride) == 1 or len(stride) == 2, "avg_pool2d: stride must either be omitted, a single int, or a tuple of two ints"
  dH = kH if len(stride) == 0 else stride[0]
  if len(stride) == 0:
    dW = kW
  elif len(stride) == 1:
    dW = dH
  else:
    dW = stride[1]
""", """  assert len(stride) == 0 or len(stride) == 1 or len(stride) == 2, "avg_pool2d: stride must either be omitted, a single int, or a tuple of two ints"
  dH = kH if len(stride) == 0 else stride[0]
  dW = stride[1] if len(stride) == 2 else dH
""")],
     "an average pool over a window that is not square, with the stride omitted",
     "the window moves across by its height",
     PRE + """
t = torch.ones(1, 2, 12, 12)
assert f("aten.avg_pool2d|shape")([1, 2, 12, 12], [2, 3]) == list(torch.nn.functional.avg_pool2d(t, (2, 3)).shape)
""")

seed("C35-one-scale", "C35", GEN,
     [("""        assert scale_factors is not None
        return [input[0], input[1], int(input[2] * scale_factors[0]), int(input[3] * scale_factors[1])]
""", """        assert scale_factors is not None
        scale = scale_factors[0]
        return [input[0], input[1], int(input[2] * scale), int(input[3] * scale)]
""")],
     "an upsampling whose scales differ",
     "the width is scaled like the height",
     PRE + """
t = torch.ones(1, 2, 4, 5)
assert f("aten.upsample_nearest2d.vec|shape")([1, 2, 4, 5], None, [2.0, 3.0]) == list(torch.ops.aten.upsample_nearest2d.vec(t, None, [2.0, 3.0]).shape)
""")

seed("C33-dim-zero", "C33", GEN,
     [("    if dim is None and keepdim:\n        out: List[int] = []\n        for i in self:\n            out.append(1)\n        return out\n    return upstream_shape_functions.argmax(self, dim, keepdim)\n",
       "    if not dim and keepdim:\n        out: List[int] = []\n        for i in self:\n            out.append(1)\n        return out\n    return upstream_shape_functions.argmax(self, dim, keepdim)\n")],
     "a minimum along dim 0 that keeps its dimensions",
     "every extent of the result is 1, as if the dim had been omitted",
     PRE + """
t = torch.ones(2, 3)
for d in (None, 0, 1, -1):
    assert f("aten.aminmax|shape")([2, 3], d, True)[0] == list(torch.aminmax(t, dim=d, keepdim=True)[0].shape), d
""")

seed("C33-reduction-sum", "C33", GEN,
     [("    scalar_shape: List[int] = []\n    if reduction == 0:\n        result_shape = upstream_shape_functions.broadcast(self, target)\n    else:\n        result_shape = scalar_shape\n    return result_shape\n",
       "    scalar_shape: List[int] = []\n    if reduction == 1:\n        result_shape = scalar_shape\n    else:\n        result_shape = upstream_shape_functions.broadcast(self, target)\n    return result_shape\n")],
     "a loss that is summed",
     "the summed loss has the shape of its operands",
     PRE + """
t = torch.ones(2, 3)
for r in (0, 1, 2):
    assert f("aten.binary_cross_entropy_with_logits|shape")([2, 3], [2, 3], None, None, r) == list(torch.ops.aten.binary_cross_entropy_with_logits(t, t, None, None, r).shape), r
""")

seed("C32-either-bound", "C32", GEN,
     [("    if min is not None:\n        out = upstream_shape_functions.broadcast(out, min)\n    if max is not None:\n        out = upstream_shape_functions.broadcast(out, max)\n    return out\n",
       "    if min is not None:\n        out = upstream_shape_functions.broadcast(out, min)\n    elif max is not None:\n        out = upstream_shape_functions.broadcast(out, max)\n    return out\n")],
     "a clamp with both bounds, of which the upper one has further dimensions",
     "the upper bound does not take part in the broadcast",
     PRE + """
t = torch.ones(3)
assert f("aten.clamp.Tensor|shape")([3], [3], [2, 3]) == list(torch.clamp(t, t, torch.ones(2, 3)).shape)
""")

seed("C32-weight-not-broadcast", "C32", GEN,
     [("    return upstream_shape_functions.broadcast(self, upstream_shape_functions.broadcast(end, weight))\n", "    return upstream_shape_functions.broadcast(self, end)\n")],
     "an interpolation whose weight has more dimensions than its ends",
     "the result has the shape of the ends",
     PRE + """
t = torch.ones(3)
assert f("aten.lerp.Tensor|shape")([3], [3], [2, 3]) == list(torch.lerp(t, t, torch.ones(2, 3)).shape)
""")
