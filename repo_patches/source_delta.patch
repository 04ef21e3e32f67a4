From 2ebab9b82c021791fea8d524dea2dae2c4309de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 001/132] fix: use PyTorch's ScalarType codes for complex
 dtypes in the FX importer

---
 python/torch_mlir/extras/fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e760500..bf4e5eb 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -244,9 +244,9 @@ TORCH_DTYPE_TO_INT = {
     torch.float16: 5,
     torch.float32: 6,
     torch.float64: 7,
-    # torch.complex_half 8
-    torch.complex32: 9,
-    torch.complex64: 10,
+    torch.complex32: 8,
+    torch.complex64: 9,
+    torch.complex128: 10,
     torch.bool: 11,
     # torch.qint8: 12, # quantized dtypes are not supported in all backends, currently we do not support them
     # torch.quint8: 13,
-- 
2.43.0


From ace5c4a78f67e37cc99ac5d44466290239da3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 002/132] fix: do not reuse a literal of a collected tensor
 whose id was recycled

---
 python/torch_mlir/extras/fx_importer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index bf4e5eb..7110785 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2715,7 +2715,9 @@ class RefTracker:
     def track(self, referrent: Any) -> RefMapping:
         ref_id = id(referrent)
         existing = self._refs.get(ref_id)
-        if existing:
+        # An id may be reused once its referrent has been collected, so an entry
+        # is only valid while it still refers to this very object.
+        if existing is not None and existing._referrent() is referrent:
             return existing
         info = RefMapping(referrent)
         # Finalizer is removed due to a memory leak
-- 
2.43.0


From d270edd8149e61beb46285e6b69f438075d60a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 003/132] fix: raise the intended error for values without a
 known type

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 7110785..eef8e22 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1272,7 +1272,7 @@ class ContextCache:
 
         raise NotImplementedError(
             f"Could not deduce type from value info: "
-            f"tensor_meta={tensor_meta}, val={val} {type(val)}, sparsity={sparsity}"
+            f"tensor_meta={tensor_meta}, val={val} {type(val)}"
         )
 
     def tensor_metadata_to_type(
-- 
2.43.0


From 098aaf8bf01c3bd64b37275217b7f81b0c84500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 004/132] fix: raise the intended error for dtypes without an
 MLIR type

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index eef8e22..364729d 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1298,7 +1298,7 @@ class ContextCache:
         if t is None:
             try:
                 asm = TORCH_DTYPE_TO_MLIR_TYPE_ASM[dtype]
-            except IndexError:
+            except KeyError:
                 raise ValueError(f"Unknown conversion from {dtype} to IREE type")
             t = IrType.parse(asm, self._c)
             self._dtype_to_type[dtype] = t
-- 
2.43.0


From c6ea16fb54163a8d2c96ba0e5f7a37ecd6dbf67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 005/132] fix: import list arguments without an expected type

---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 364729d..18f8557 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2364,6 +2364,8 @@ class GraphNodeImporter:
 
         # parse list type
         if expected_jit_type is None:
+            element_jit_type = None
+            is_optional_type = False
             element_type = type(arg[0])
         else:
             element_jit_type = expected_jit_type.getElementType()
-- 
2.43.0


From a01664e3118895e174c1ef840233b1e7e1771152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 006/132] fix: keep the operand order of int/float ordering
 comparisons

---
 python/torch_mlir/extras/fx_importer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 18f8557..4b6b4ef 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1676,9 +1676,12 @@ class GraphNodeImporter:
             if all(is_int):
                 op_overload = "int"
             elif any(is_int):
-                if target.__name__ in ("add", "lt", "ge", "ne", "gt"):
+                if target.__name__ in ("add", "ne") or (
+                    target.__name__ in ("lt", "ge", "gt") and not is_int[0]
+                ):
                     op_overload = "float_int"
-                    # put float arg first, as expected in signature
+                    # put float arg first, as expected in signature (ordering
+                    # comparisons are not commutative and never get here swapped)
                     if arg_types[1] == float:
                         node.args = (node.args[1], node.args[0])
                 else:
-- 
2.43.0


From aaa549bc100ff6b715c982eac407760057a471e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 007/132] fix: index constant outputs by their user output
 position

---
 python/torch_mlir/extras/fx_importer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 4b6b4ef..f1ad2ef 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -694,7 +694,7 @@ class FxImporter:
         # producer for the output.
         user_outputs: List[Optional[Node]] = []
         user_output_types: List[IrType] = []
-        for i, output_spec in enumerate(sig.output_specs):
+        for output_spec in sig.output_specs:
             kind = output_spec.kind
             arg = output_spec.arg
             if kind == OutputKind.USER_OUTPUT:
@@ -712,7 +712,7 @@ class FxImporter:
                     )
                 elif isinstance(arg, ConstantArgument):
                     # Constant Outputs don't have a node so we will only store their values
-                    constant_output_values[i] = arg.value
+                    constant_output_values[len(user_outputs)] = arg.value
                     # Placeholder for constant outputs in the node list
                     user_outputs.append(None)
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
-- 
2.43.0


From f06e391515f4c5cc30ffe40411d2aca46e42d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 008/132] fix: reject exported outputs that the importer would
 silently drop

---
 python/torch_mlir/extras/fx_importer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index f1ad2ef..4096766 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -718,6 +718,13 @@ class FxImporter:
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
             elif kind == OutputKind.BUFFER_MUTATION and isinstance(arg, TensorArgument):
                 mutable_buffer_target_producers[output_spec.target] = arg.name
+            elif kind == OutputKind.USER_INPUT_MUTATION:
+                # Handled below, by way of `sig.user_inputs_to_mutate`.
+                pass
+            else:
+                raise NotImplementedError(
+                    f"OutputSpec not of a known kind: {output_spec}"
+                )
 
         # Derive user inputs. These will be op=='placeholder' nodes.
         user_inputs: List[Node] = []
-- 
2.43.0


From ab41e981d2547e690fc917013d370a06a7e2b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 009/132] fix: store every mutation, also when its producer is
 shared or bound early

---
 python/torch_mlir/extras/fx_importer.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 4096766..bab49d2 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1433,7 +1433,7 @@ class GraphNodeImporter:
         # Map of Shape Symbol to MLIR Value
         self._symbol_to_value: Dict[str, Value] = {}
         # Map of node name to hook that should be called when it is produced.
-        self._on_node_produced: Dict[str, Callable[[Value], None]] = {}
+        self._on_node_produced: Dict[str, List[Callable[[Value], None]]] = {}
         # Statically multi-result nodes which we have de-tupled are noted here.
         # They will have their getitem calls short-circuited.
         self._multi_result_nodes: Set[torch_fx.Node] = set()
@@ -1457,9 +1457,17 @@ class GraphNodeImporter:
         assert key not in self._v, f"Node already has a value: {node}"
         self._v[key] = value
 
-        producer_callback = self._on_node_produced.get(node.name)
-        if producer_callback is not None:
-            producer_callback(value)
+        for producer_callback in self._on_node_produced.get(node.name, ()):
+            producer_callback(self.resolve_node_value(node, result_index))
+
+    def _add_produced_callback(
+        self, producer_node_name: str, callback: Callable[[Value], None]
+    ):
+        """Calls back with the value of the named node as soon as it is produced."""
+        self._on_node_produced.setdefault(producer_node_name, []).append(callback)
+        for node, result_index in list(self._v):
+            if node.name == producer_node_name:
+                callback(self.resolve_node_value(node, result_index))
 
     def resolve_node_value(self, node: Node, result_index: int = 0) -> Value:
         """Resolves a node to a value."""
@@ -1528,7 +1536,7 @@ class GraphNodeImporter:
                     operands=[value, mutable_value],
                 )
 
-        self._on_node_produced[producer_node_name] = on_produced
+        self._add_produced_callback(producer_node_name, on_produced)
         return copy_result
 
     def import_constant(self, loc: Location, node: Node, constant: Any) -> Value:
@@ -1572,7 +1580,7 @@ class GraphNodeImporter:
                         self, buffer_value, value, info
                     )
 
-            self._on_node_produced[info.store_producer_node] = on_produced
+            self._add_produced_callback(info.store_producer_node, on_produced)
 
     def return_node_values(self, loc, nodes: List[Node], constants: Dict[int, Any]):
         # This function returns both node values and constant values
-- 
2.43.0


From 88d7f62f7b8667f0a42d269c717fe0e5dc830d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 010/132] fix: import symbolic % with the sign convention of
 Python

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index bab49d2..50ce653 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -292,7 +292,7 @@ PY_BUILTIN_TO_TORCH_OP = {
     "ge": torch.ops.aten.ge,
     "ne": torch.ops.aten.ne,
     "gt": torch.ops.aten.gt,
-    "mod": torch.ops.aten.fmod,
+    "mod": torch.ops.aten.remainder,
     "eq": torch.ops.aten.eq,
     "floordiv": torch.ops.aten.floordiv,
     "neg": torch.ops.aten.neg,
-- 
2.43.0


From 458576430bb4773eadcfd21cb1ba272b5c9ec3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 011/132] fix: keep the out argument of lift_fresh_copy.out

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 50ce653..a36d6e8 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2898,7 +2898,7 @@ def lift_fresh_copy_out(node: torch_fx.Node):
     # functionalization in all cases.
     node.target = target = torch.ops.aten.clone.out
     node.args = (node.args[0],)
-    node.kwargs = {"memory_format": None, "out": node.args[1]}
+    node.kwargs = {"memory_format": None, "out": node.kwargs["out"]}
     return node
 
 
-- 
2.43.0


From 4203781e45455bd1706ab4586a8a7691152a9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 012/132] fix: bind function attributes that are referenced
 within subgraphs

---
 python/torch_mlir/extras/onnx_importer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 1597a8f..1808263 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -806,6 +806,7 @@ def _bind_attributes_on_node(
         """
         Recurse to bind attributes in a subgraph.
         """
+        new_subgraph = onnx.GraphProto()
         new_subgraph.CopyFrom(old_subgraph)
         old_nodes = _shallow_copy_and_clear_protobuf_list(new_subgraph.node)
         for old_node in old_nodes:
@@ -830,7 +831,7 @@ def _bind_attributes_on_node(
 
         ref_name = old_attribute.ref_attr_name
         if not ref_name:
-            if not old_attribute.g or len(old_attribute.graphs) == 0:
+            if not old_attribute.HasField("g") and len(old_attribute.graphs) == 0:
                 return old_attribute
 
             # Recurse to bind attributes on subgraphs. ONNX's implementation of
@@ -838,9 +839,11 @@ def _bind_attributes_on_node(
             # from a referenced attribute value, so this code doesn't either.
             new_attribute = onnx.AttributeProto()
             new_attribute.CopyFrom(old_attribute)
-            if new_attribute.g:
-                new_attribute.g = _bind_attributes_in_subgraph(
-                    new_attribute.g, caller_node, op_schema
+            if old_attribute.HasField("g"):
+                new_attribute.g.CopyFrom(
+                    _bind_attributes_in_subgraph(
+                        old_attribute.g, caller_node, op_schema
+                    )
                 )
             if new_attribute.graphs:
                 old_subgraphs = _shallow_copy_and_clear_protobuf_list(
-- 
2.43.0


From 718c414a876f4b429a2fee2a18d143c6fbd14eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 013/132] fix: expand functions nested in functions under the
 caller's config

---
 python/torch_mlir/extras/onnx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 1808263..a7c3cd6 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -1081,7 +1081,7 @@ class ModuleCache:
             caller_node,
         )
 
-        tmp_model_info = ModelInfo(tmp_model_proto)
+        tmp_model_info = ModelInfo(tmp_model_proto, config=config)
         tmp_graph_info = GraphInfo(tmp_model_info, tmp_model_proto.graph)
         # Mark function as private so it will be thrown away after inlining
         imp = NodeImporter.define_function(
-- 
2.43.0


From a56941ab74632324db30d6a7240348feacb65f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 014/132] fix: report nodes of a domain without an opset import

---
 python/torch_mlir/extras/onnx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index a7c3cd6..b1392cb 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -428,6 +428,10 @@ class NodeImporter:
                 if opset_import.domain == op_domain:
                     opset_version = opset_import.version
                     break
+            else:
+                raise OnnxImportError(
+                    f"Model does not import an opset for domain '{op_domain}': {node}"
+                )
             operator_func_op = self._mc.get_operator_function(
                 op_type,
                 op_domain,
-- 
2.43.0


From 8631dcb3f9ab4be662fd670cf05e6299d294bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 015/132] fix: do not share one value info among the outputs of
 a function

---
 python/torch_mlir/extras/onnx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index b1392cb..005c6e4 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -920,11 +920,11 @@ def _specialize_function_and_create_model(
         input_proto.name = input_name
         input_proto.type.CopyFrom(input_type_proto)
         graph_proto.input.append(input_proto)
-        output_proto = onnx.ValueInfoProto()
 
     for output_name, output_type_proto in zip(
         function_proto.output, output_type_protos
     ):
+        output_proto = onnx.ValueInfoProto()
         output_proto.name = output_name
         output_proto.type.CopyFrom(output_type_proto)
         graph_proto.output.append(output_proto)
-- 
2.43.0


From ef8bde71391e7f20734e3d7a8d09923492ce8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 016/132] fix: report a module that cannot be printed as a
 compiler error

---
 python/torch_mlir/compiler_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index fa056e5..9c4a8b3 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -91,6 +91,7 @@ def run_pipeline_with_repro_report(
     """Runs `pipeline` on `module`, with a nice repro report if it fails."""
     module_name = get_module_name_for_debug_dump(module)
     original_stderr = sys.stderr
+    asm_for_error_report = ""
     try:
         sys.stderr = StringIO()
         asm_for_error_report = module.operation.get_asm(
-- 
2.43.0


From 146f51027ae7ba4c1e684310458ecd863750ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 017/132] fix: compare PyTorch versions as versions, not as
 strings

---
 python/torch_mlir/fx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/fx.py b/python/torch_mlir/fx.py
index a16aa7b..21325e7 100644
--- a/python/torch_mlir/fx.py
+++ b/python/torch_mlir/fx.py
@@ -127,7 +127,7 @@ def export_and_import(
     if enable_graph_printing:
         prog.graph_module.print_readable()
     if experimental_support_mutation:
-        if torch.__version__ < "2.3.0.dev20240207":
+        if version.Version(torch.__version__) < version.Version("2.3.0.dev20240207"):
             warnings.warn("Mutable program import only supported on PyTorch 2.3+")
         fx_importer.import_program(
             prog,
-- 
2.43.0


From ec6718bc78a0f0abe490225d81578c8c8aa650c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 018/132] fix: remove the temporary directory also after
 in-memory shape inference

---
 python/torch_mlir/tools/import_onnx/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/tools/import_onnx/__main__.py b/python/torch_mlir/tools/import_onnx/__main__.py
index 972cfda..a512d8b 100644
--- a/python/torch_mlir/tools/import_onnx/__main__.py
+++ b/python/torch_mlir/tools/import_onnx/__main__.py
@@ -104,6 +104,8 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
         inferred_model = onnx.shape_inference.infer_shapes(
             raw_model, data_prop=args.data_prop
         )
+        if not args.keep_temps:
+            shutil.rmtree(temp_dir)
         return inferred_model
     except ValueError:
         pass
-- 
2.43.0


From 70316d6cf7a4480685f564883d2b18fce8b2ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 019/132] fix: trace zero-rank placeholders with their dtype

---
 projects/pt1/python/torch_mlir/torchscript.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/torchscript.py b/projects/pt1/python/torch_mlir/torchscript.py
index cf97983..df82b05 100644
--- a/projects/pt1/python/torch_mlir/torchscript.py
+++ b/projects/pt1/python/torch_mlir/torchscript.py
@@ -132,7 +132,9 @@ class ExampleArgs:
                         # correct for any specific concrete size.
                         shape = [s if s != -1 else 7 for s in arg.shape]
                         if len(shape) == 0:
-                            example_args_for_trace.append(torch.tensor(1))
+                            example_args_for_trace.append(
+                                torch.tensor(1, dtype=arg.dtype)
+                            )
                         else:
                             example_args_for_trace.append(
                                 torch.ones(*shape, dtype=arg.dtype)
-- 
2.43.0


From 7bd70a7392a3ffc6870da0a84d220c15b44c83e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 020/132] fix: import arguments that are passed by keyword

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 81908d8..bb90f94 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -318,10 +318,10 @@ class _FXGraphImporter:
         # `Argument` is the term that FX uses analogous to mlir "Value". It is
         # more precise to call them "formal parameters".
         for i, parameter in enumerate(node.target._schema.arguments):
-            if parameter.kwarg_only and parameter.name in node.kwargs:
-                arg = node.kwargs[parameter.name]
-            elif i < len(node.args):
+            if not parameter.kwarg_only and i < len(node.args):
                 arg = node.args[i]
+            elif parameter.name in node.kwargs:
+                arg = node.kwargs[parameter.name]
             else:
                 arg = parameter.default_value
             operands.append(self._import_argument(arg, parameter.type))
-- 
2.43.0


From 8594cfca0e32096639bbdd612ead31ae2d97632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 021/132] fix: spell the torch dialect's string type

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index bb90f94..c2e3e40 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -114,7 +114,7 @@ def _torch_type_to_mlir_type_string(t: torch.Type) -> str:
     if isinstance(t, torch.FloatType):
         return "float"
     if isinstance(t, torch.StringType):
-        return "string"
+        return "str"
     if isinstance(t, torch.TensorType):
         return "vtensor"
     if isinstance(t, torch.OptionalType):
-- 
2.43.0


From d6504d60141fe866a3bb3ab09a4ec770bc3560d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 022/132] fix: use PyTorch's Layout codes for the compressed
 sparse layouts

c10::Layout (and the compiler's copy in TorchUpstream.h) has Mkldnn = 3, so
sparse_csc was imported as Mkldnn, sparse_bsr as SparseCsc and sparse_bsc as
SparseBsr.
---
 python/torch_mlir/extras/fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index a36d6e8..05d1ce2 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -277,9 +277,9 @@ TORCH_LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 PY_BUILTIN_TO_TORCH_OP = {
-- 
2.43.0


From 2fe02aa168ed9a90dde4c55b00d9b105264b978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 023/132] fix: use PyTorch's Layout codes in the legacy dynamo
 importer

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index c2e3e40..89c7ab7 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -228,9 +228,9 @@ LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 
-- 
2.43.0


From 06bbea316b9b8e709850ae6e015fae15f425c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 024/132] fix: import a constant attribute that is used more
 than once

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 05d1ce2..34c7ae9 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2239,7 +2239,7 @@ class GraphNodeImporter:
                 raise RuntimeError(f"Attempt to de-reference a multi-result node")
 
             # catch references to dynamically created constant attributes and make sure they have an origin in our module
-            if arg.op == "get_attr" and (arg.target, 0) not in self._v:
+            if arg.op == "get_attr" and (arg, 0) not in self._v:
                 gm = arg.graph.owning_module
                 assert hasattr(
                     gm, arg.target
-- 
2.43.0


From 01aaf30cd05265cb59638155e6f61709a0f5e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 025/132] fix: describe sparse_bsc blocks in PyTorch's storage
 order

---
 python/torch_mlir/extras/fx_importer.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 34c7ae9..5381b2f 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -431,19 +431,17 @@ def sparsity_encoding(t: torch.Tensor) -> str:
         idx_dtype = t.row_indices().dtype
     else:
         assert sparse_dim == 2
-        blocksize = t.values().shape[batch_dim + 1 : batch_dim + 3]
+        m, n = t.values().shape[batch_dim + 1 : batch_dim + 3]
+        row, col = batch_dim, batch_dim + 1
         if t.layout is torch.sparse_bsr:
-            i, j = batch_dim, batch_dim + 1
+            lvls = f"d{row} floordiv {m}:dense,d{col} floordiv {n}:compressed"
             idx_dtype = t.col_indices().dtype
         else:
             assert t.layout is torch.sparse_bsc
-            j, i = batch_dim, batch_dim + 1
+            lvls = f"d{col} floordiv {n}:dense,d{row} floordiv {m}:compressed"
             idx_dtype = t.row_indices().dtype
-        m, n = blocksize
-        lvls = (
-            f"d{i} floordiv {m}:dense,d{j} floordiv {n}:compressed,"
-            f"d{i} mod {m}:dense,d{j} mod {n}:dense"
-        )
+        # The elements of a block are stored by rows in both layouts.
+        lvls = f"{lvls},d{row} mod {m}:dense,d{col} mod {n}:dense"
 
     if batch_dim > 0:
         batch = ",".join(f"d{d}:batch" for d in range(batch_dim))
-- 
2.43.0


From e51595df56fb96f8092c8d39d3312d090d4c7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 026/132] fix: make the function names of nested graph modules
 unique

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 5381b2f..4a63b92 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1031,7 +1031,7 @@ class FxImporter:
         if module_id not in self._graph_module_to_func_name:
             # Ensure the func_name is unique
             final_func_name = func_name
-            if func_name in self._graph_module_to_func_name.values():
+            while final_func_name in self._graph_module_to_func_name.values():
                 final_func_name = f"{func_name}_{self._func_name_counter}"
                 self._func_name_counter += 1
             self._graph_module_to_func_name[module_id] = final_func_name
-- 
2.43.0


From c98f8851ac9a8d52c2f37e75d633704c907a5bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 027/132] fix: do not take a graph module for a collected one
 of the same id

---
 python/torch_mlir/extras/fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 4a63b92..d5804bf 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -558,6 +558,7 @@ class FxImporter:
         "_hooks",
         "symbol_table",
         "_graph_module_to_func_name",
+        "_imported_graph_modules",
         "_func_name_counter",
     ]
 
@@ -588,6 +589,8 @@ class FxImporter:
         self._hooks.prepare_module(self._m.operation)
         # Used specifically in HOPs to map module IDs to function names
         self._graph_module_to_func_name: Dict[int, str] = {}
+        # Keeps those modules alive, so that their IDs are not reused
+        self._imported_graph_modules: List[GraphModule] = []
         # Handles collision of function names in the same module
         self._func_name_counter: int = 0
 
@@ -1035,6 +1038,7 @@ class FxImporter:
                 final_func_name = f"{func_name}_{self._func_name_counter}"
                 self._func_name_counter += 1
             self._graph_module_to_func_name[module_id] = final_func_name
+            self._imported_graph_modules.append(gm)
         else:
             # Module already imported, use existing name
             final_func_name = self._graph_module_to_func_name[module_id]
-- 
2.43.0


From a7bb1ca76875ed26399139a85f3f97c3a06a5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 028/132] fix: import while loops that carry a single value

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index d5804bf..36de22c 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1801,7 +1801,7 @@ class GraphNodeImporter:
 
         # Determine result types from node metadata
         node_val = node.meta.get("val")
-        if isinstance(node_val, (list, tuple)) and len(node_val) > 1:
+        if isinstance(node_val, (list, tuple)):
             result_types = [self._cc.value_info_to_type(v) for v in node_val]
             self._multi_result_nodes.add(node)
         else:
-- 
2.43.0


From 41489df91c0e78f58979442f91b6c2f0295e84cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 029/132] fix: pass the additional inputs of a while loop to
 its functions

---
 python/torch_mlir/extras/fx_importer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 36de22c..378fde0 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1807,6 +1807,11 @@ class GraphNodeImporter:
         else:
             result_types = [self._cc.node_val_to_type(node)]
 
+        # The carries are followed by additional inputs, which both functions
+        # take but which the loop leaves unchanged.
+        additional_values = carry_values[len(result_types) :]
+        carry_values = carry_values[: len(result_types)]
+
         # Call the condition function with initial carries to get initial condition
         cond_result_type = self._cc.get_vtensor_type(torch.Size([]), torch.bool)
 
@@ -1814,7 +1819,7 @@ class GraphNodeImporter:
             "func.call",
             attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
             results=[cond_result_type],
-            operands=carry_values,
+            operands=carry_values + additional_values,
             loc=loc,
         )
 
@@ -1857,7 +1862,8 @@ class GraphNodeImporter:
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(body_fn_name)},
                 results=result_types,
-                operands=list(loop_block.arguments[1:]),  # Skip iteration counter
+                # Skip iteration counter
+                operands=list(loop_block.arguments[1:]) + additional_values,
                 loc=loc,
             )
             body_results = list(body_results_op.results)
@@ -1867,7 +1873,7 @@ class GraphNodeImporter:
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
                 results=[IrType.parse("!torch.vtensor<[],i1>", context=self._c)],
-                operands=body_results,
+                operands=body_results + additional_values,
                 loc=loc,
             ).result
 
-- 
2.43.0


From 2aeaa6fecba8c4ed7b42851ff8efd4f8964007db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 030/132] fix: do not declare the shape symbols of a previous
 program

---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 378fde0..dda57a3 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1377,6 +1377,8 @@ class ContextCache:
             ):
                 contains_symbolic_ints = True
                 break
+        # Do not carry over the symbols of a previously imported program.
+        self._symbolic_guards = {}
         if contains_symbolic_ints:
             # Build a map from shape symbol name to `RangeConstraint` object
             # capturing `min_val`` and `max_val`` constraints for that
-- 
2.43.0


From dd7c69a74655c2c632dd79c7fc458cb1e9587ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 031/132] fix: do not name a nested graph module like a
 function of the module

---
 python/torch_mlir/extras/fx_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index dda57a3..a94e191 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1034,7 +1034,10 @@ class FxImporter:
         if module_id not in self._graph_module_to_func_name:
             # Ensure the func_name is unique
             final_func_name = func_name
-            while final_func_name in self._graph_module_to_func_name.values():
+            while (
+                final_func_name in self._graph_module_to_func_name.values()
+                or final_func_name in self.symbol_table
+            ):
                 final_func_name = f"{func_name}_{self._func_name_counter}"
                 self._func_name_counter += 1
             self._graph_module_to_func_name[module_id] = final_func_name
-- 
2.43.0


From 08bef7198875e97fa3b10577f25603b05128cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 032/132] fix: import a graph module shared by several parents
 only once

---
 python/torch_mlir/extras/fx_importer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index a94e191..ee70196 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -902,6 +902,9 @@ class FxImporter:
 
         for child_name, child_module in module.named_children():
             if isinstance(child_module, GraphModule) and hasattr(child_module, "graph"):
+                # A module shared by several parents is imported only once.
+                if id(child_module) in self._graph_module_to_func_name:
+                    continue
                 self.import_graph_module(
                     child_module,
                     func_name=child_name,
-- 
2.43.0


From 9df78e83857286445e28337fb28901f8508c4d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 033/132] fix: reject flex attention whose functions capture
 values

---
 python/torch_mlir/extras/fx_importer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index ee70196..9c0775c 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1994,6 +1994,12 @@ class GraphNodeImporter:
             kernel_options,
         ) = node.args[:7]
 
+        # The op has no operands for the values that score_mod and mask_mod capture.
+        if any(other_buffers for other_buffers in node.args[7:]):
+            raise NotImplementedError(
+                f"flex_attention with captured buffers is not supported: {node.args[7:]}"
+            )
+
         # Import Q, K, V tensors
         query = self._import_argument(loc, query_arg, None)
         key = self._import_argument(loc, key_arg, None)
-- 
2.43.0


From a4281aa3e78095d597bdbcfe534ffe6007a8a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 034/132] fix: do not index through views that reinterpret the
 storage

---
 python/torch_mlir/extras/fx_as_strided.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index 063509c..2629a55 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -183,7 +183,7 @@ def _same_storage_arg(value: torch.Tensor, arg: Any) -> fx.Node | None:
     if isinstance(arg, fx.Node):
         arg_value = arg.meta.get("val")
         if isinstance(arg_value, torch.Tensor):
-            if value.untyped_storage() is arg_value.untyped_storage():
+            if _same_elements(value, arg_value):
                 return arg
     if isinstance(arg, _LIST):
         for item in arg:
@@ -193,6 +193,18 @@ def _same_storage_arg(value: torch.Tensor, arg: Any) -> fx.Node | None:
     return None
 
 
+def _same_elements(value: torch.Tensor, other: torch.Tensor) -> bool:
+    # Views that reinterpret the storage (another dtype, lazy conjugation or
+    # negation) are not followed: their strides count other elements, or their
+    # elements have other values.
+    return (
+        value.untyped_storage() is other.untyped_storage()
+        and value.dtype == other.dtype
+        and value.is_conj() == other.is_conj()
+        and value.is_neg() == other.is_neg()
+    )
+
+
 def _indices(
     base_shape: tuple[int, ...],
     base_stride: tuple[int, ...],
-- 
2.43.0


From eb94c112b88d6c3a43d076fba094975646de6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 035/132] fix: rewrite as_strided of a rank-0 tensor

---
 python/torch_mlir/extras/fx_as_strided.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index 2629a55..c7c972f 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -10,6 +10,7 @@ import torch.fx as fx
 
 _AS_STRIDED = torch.ops.aten.as_strided.default
 _INDEX = torch.ops.aten.index.Tensor
+_EXPAND = torch.ops.aten.expand.default
 _LIST = (list, tuple, fx.immutable_collections.immutable_list)
 _MISSING = object()
 
@@ -85,7 +86,11 @@ def _rewrite(g: fx.Graph, node: fx.Node) -> fx.Node:
     )
     index_nodes = [_constant(g, node, i, v) for i, v in enumerate(indices)]
     with g.inserting_before(node):
-        replacement = g.call_function(_INDEX, args=(base, index_nodes))
+        if index_nodes:
+            replacement = g.call_function(_INDEX, args=(base, index_nodes))
+        else:
+            # A rank-0 base has one element and takes no index.
+            replacement = g.call_function(_EXPAND, args=(base, list(size)))
     replacement.meta.update(node.meta)
     replacement.meta["val"] = torch.empty(
         tuple(size), dtype=_tensor(node, "result").dtype
-- 
2.43.0


From b14e9f921e5c655bd7d2491802e0d7e430097edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 036/132] fix: let the inputs of an ONNX subgraph shadow outer
 values

---
 python/torch_mlir/extras/onnx_importer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 005c6e4..a7b09a1 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -525,10 +525,10 @@ class NodeImporter:
                 module_cache=self._mc,
             )
 
-            for node_name, input_value in zip(block_names, block.arguments):
-                imp._nv_map[node_name] = input_value
             for k in self._nv_map:
                 imp._nv_map[k] = self._nv_map[k]
+            for node_name, input_value in zip(block_names, block.arguments):
+                imp._nv_map[node_name] = input_value
 
             imp.import_all(False)
 
-- 
2.43.0


From c560446629d5bbb55be45108466d2ceb6a00df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 037/132] fix: find the types of outer values used in ONNX
 subgraphs

---
 python/torch_mlir/extras/onnx_importer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index a7b09a1..4344638 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -157,8 +157,10 @@ class GraphInfo:
         model_info: ModelInfo,
         graph_proto: onnx.GraphProto,
         is_subgraph: bool = False,
+        outer: Optional["GraphInfo"] = None,
     ):
         self.model_info = model_info
+        self.outer = outer
         self.graph_proto = graph_proto
         self.initializer_map: Dict[str, onnx.TensorProto] = {
             n.name: n for n in graph_proto.initializer
@@ -213,6 +215,10 @@ class GraphInfo:
                 tensor_proto.data_type, tensor_proto.dims
             )
 
+        # Subgraphs can reference values of the enclosing graphs.
+        if self.outer is not None:
+            return self.outer.find_type_proto_for_name(name)
+
         # No type information is associated, this can occur when the value is unused:
         return ""
 
@@ -515,7 +521,9 @@ class NodeImporter:
                 *block_types, arg_locs=[op.location] * len(block_types)
             )
             block = region.blocks[0]
-            graph_info = GraphInfo(self._gi.model_info, attr.g, is_subgraph=True)
+            graph_info = GraphInfo(
+                self._gi.model_info, attr.g, is_subgraph=True, outer=self._gi
+            )
             imp = NodeImporter(
                 graph_info,
                 parent_op=op,
-- 
2.43.0


From dd829ce297135480ca4f87d0fd92a5a1b039583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 038/132] fix: expand ONNX functions whose outputs are omitted
 or untyped

---
 python/torch_mlir/extras/onnx_importer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 4344638..58b4f07 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -427,7 +427,7 @@ class NodeImporter:
             for output_name in node.output:
                 output_names.append(output_name)
                 type_proto = self._gi.find_type_proto_for_name(output_name)
-                output_type_protos.append(type_proto)
+                output_type_protos.append(None if output_name == "" else type_proto)
                 output_types.append(self._cc.type_proto_to_type(type_proto))
 
             for opset_import in self._gi.model_info.model_proto.opset_import:
@@ -450,6 +450,7 @@ class NodeImporter:
 
             if operator_func_op is not None:
                 custom_op = func_dialect.CallOp(operator_func_op, input_values)
+                output_names = [name for name in output_names if name != ""]
             else:
                 attrs = self.import_attributes(node.attribute)
                 attrs["name"] = StringAttr.get(f"onnx.{op_type}")
@@ -932,9 +933,14 @@ def _specialize_function_and_create_model(
     for output_name, output_type_proto in zip(
         function_proto.output, output_type_protos
     ):
+        # The function doesn't return the outputs that the caller omits.
+        if output_type_proto is None:
+            continue
         output_proto = onnx.ValueInfoProto()
         output_proto.name = output_name
-        output_proto.type.CopyFrom(output_type_proto)
+        # Outputs without type information are typed by the inference below.
+        if output_type_proto:
+            output_proto.type.CopyFrom(output_type_proto)
         graph_proto.output.append(output_proto)
 
     for node in function_proto.node:
-- 
2.43.0


From df0108cb7d929d2ed44b06662b42a2a67c684712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 039/132] fix: keep the device index in the legacy dynamo
 importer

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 89c7ab7..30d3795 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -373,8 +373,7 @@ class _FXGraphImporter:
             assert isinstance(expected_type, torch.IntType)
             return self._import_argument(DTYPE_TO_INT[arg], expected_type)
         if isinstance(arg, torch.device):
-            # TODO(DNS): Device index? arg.index
-            return torch_dialect.ConstantDeviceOp(ir.StringAttr.get(arg.type)).result
+            return torch_dialect.ConstantDeviceOp(ir.StringAttr.get(str(arg))).result
         if isinstance(arg, torch.memory_format):
             assert isinstance(expected_type, torch.IntType)
             return self._import_argument(MEMORY_FORMAT_TO_INT[arg], expected_type)
-- 
2.43.0


From 149670910a05d05e17e2c37aeec2d6aa206cbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 040/132] fix: reject getitem of a tensor in the legacy dynamo
 importer

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 30d3795..90263d5 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -89,6 +89,10 @@ def _verify_fx_graph_conforms_to_subset(g: torch.fx.Graph):
                             )
                 continue
             if node.target is operator.getitem:
+                if not isinstance(node.args[0].meta["val"], (tuple, list)):
+                    raise Exception(
+                        f"Unsupported: getitem of a single tensor: {node}"
+                    )
                 continue
             raise Exception(f"Unsupported call_function target: {node.target}")
 
-- 
2.43.0


From d716ca655b2e48cf17e67f7637bc11e2662b799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 041/132] fix: import nodes whose stack trace names no file

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 90263d5..2ec64ab 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -245,6 +245,8 @@ def _mlir_location_for_node(node: torch.fx.Node) -> ir.Location:
     # TODO: Avoid needing to regex match this.
     # https://github.com/pytorch/pytorch/issues/91000
     m = re.search(r"""File "([^"]+)", line ([0-9]+),""", node.stack_trace)
+    if m is None:
+        return ir.Location.unknown()
     filename, line = m.group(1), int(m.group(2))
     return ir.Location.file(filename, line, col=0)
 
-- 
2.43.0


From 689728bbd6578699eae2ef0cc592e7fe8d4819c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 042/132] fix: only spell a whole Dict(...) type as Dict when
 generating ODS types

A list of dictionaries starts with Dict( too and was emitted as a plain
Torch_DictType.
---
 .../torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py
index c1b6c6d..027e28a 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py
@@ -68,7 +68,7 @@ def get_ods_type(type: str, non_value: bool, *, is_result: bool = False):
     if is_result and type == "Tensor":
         type = "Tensor?"
     # TODO: Increase precision on dict type modeling.
-    if type.startswith("Dict("):
+    if type.startswith("Dict(") and type.endswith(")"):
         type = "Dict"
     if non_value:
         ods_type = TORCH_NON_VALUE_TYPE_TO_ODS_TYPE.get(
-- 
2.43.0


From 2ad7db8889a273d7bb57116254a55c589a4e4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 043/132] fix: broadcast the operands of elementwise ops in
 their shape functions

remainder.Tensor, fmod.Tensor, logaddexp, logaddexp2, clamp.Tensor,
clamp_min.Tensor, polar, masked_fill and masked_scatter took the shape of
their first operand for their result.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 38 ++++++++++++++-----
 .../build_tools/abstract_interp_lib_gen.py    | 25 +++++++-----
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 9235270..2960ab2 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -7403,7 +7403,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.polar\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.mish\"(%arg0: !torch.list<int>) -> !torch.list<int> {\n"
@@ -7484,15 +7484,32 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.clamp.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.optional<list<int>>, %arg2: !torch.optional<list<int>>) -> !torch.list<int> {\n"
+"    %none = torch.constant.none\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
-"    return %0 : !torch.list<int>\n"
+"    %1 = torch.aten.__isnot__ %arg1, %none : !torch.optional<list<int>>, !torch.none -> !torch.bool\n"
+"    %2 = torch.prim.If %1 -> (!torch.list<int>) {\n"
+"      %5 = torch.prim.unchecked_cast %arg1 : !torch.optional<list<int>> -> !torch.list<int>\n"
+"      %6 = func.call @__torch__.torch.jit._shape_functions.broadcast(%0, %5) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %6 : !torch.list<int>\n"
+"    } else {\n"
+"      torch.prim.If.yield %0 : !torch.list<int>\n"
+"    }\n"
+"    %3 = torch.aten.__isnot__ %arg2, %none : !torch.optional<list<int>>, !torch.none -> !torch.bool\n"
+"    %4 = torch.prim.If %3 -> (!torch.list<int>) {\n"
+"      %5 = torch.prim.unchecked_cast %arg2 : !torch.optional<list<int>> -> !torch.list<int>\n"
+"      %6 = func.call @__torch__.torch.jit._shape_functions.broadcast(%2, %5) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %6 : !torch.list<int>\n"
+"    } else {\n"
+"      torch.prim.If.yield %2 : !torch.list<int>\n"
+"    }\n"
+"    return %4 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.clamp_min\"(%arg0: !torch.list<int>, %arg1: !torch.float) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.clamp_min.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.clamp_max\"(%arg0: !torch.list<int>, %arg1: !torch.float) -> !torch.list<int> {\n"
@@ -7933,11 +7950,11 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.remainder.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.fmod.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.floor_divide.Scalar\"(%arg0: !torch.list<int>, %arg1: !torch.float) -> !torch.list<int> {\n"
@@ -10280,19 +10297,19 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.logaddexp\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.logaddexp2\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.masked_fill.Scalar\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.float) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.masked_fill.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.zero\"(%arg0: !torch.list<int>) -> !torch.list<int> {\n"
@@ -11454,7 +11471,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %arg0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.masked_scatter\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>) -> !torch.list<int> {\n"
-"    return %arg0 : !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.select.int\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.int) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.select(%arg0, %arg1, %arg2) : (!torch.list<int>, !torch.int, !torch.int) -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 5329ba1..5b6d9de 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -350,7 +350,7 @@ def aten〇softshrink〡shape(self: List[int], lambd: float = 0.5) -> List[int]:
     return upstream_shape_functions.unary(self)
 
 def aten〇polar〡shape(abs: List[int], angle: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(abs)
+    return upstream_shape_functions.broadcast(abs, angle)
 
 def aten〇mish〡shape(self: List[int]) -> List[int]:
     return upstream_shape_functions.unary(self)
@@ -394,13 +394,18 @@ def aten〇clamp〡shape(self: List[int], min: Optional[float] = None, max: Opti
     return upstream_shape_functions.unary(self)
 
 def aten〇clamp〇Tensor〡shape(self: List[int], min: Optional[List[int]] = None, max: Optional[List[int]] = None) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    out = upstream_shape_functions.unary(self)
+    if min is not None:
+        out = upstream_shape_functions.broadcast(out, min)
+    if max is not None:
+        out = upstream_shape_functions.broadcast(out, max)
+    return out
 
 def aten〇clamp_min〡shape(self: List[int], min: float) -> List[int]:
     return upstream_shape_functions.unary(self)
 
 def aten〇clamp_min〇Tensor〡shape(self: List[int], min: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, min)
 
 def aten〇clamp_max〡shape(self: List[int], max: float) -> List[int]:
     return upstream_shape_functions.unary(self)
@@ -629,10 +634,10 @@ def aten〇__and__〇Scalar〡shape(self: List[int], other: float) -> List[int]:
     return upstream_shape_functions.unary(self)
 
 def aten〇remainder〇Tensor〡shape(self: List[int], other: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, other)
 
 def aten〇fmod〇Tensor〡shape(self: List[int], other: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, other)
 
 def aten〇floor_divide〇Scalar〡shape(self: List[int], other: float) -> List[int]:
     return upstream_shape_functions.unary(self)
@@ -1639,16 +1644,16 @@ def aten〇_to_copy〡shape(self: List[int], dtype: Optional[int] = None, layout
     return upstream_shape_functions.unary(self)
 
 def aten〇logaddexp〡shape(self: List[int], other: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, other)
 
 def aten〇logaddexp2〡shape(self: List[int], other: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, other)
 
 def aten〇masked_fill〇Scalar〡shape(self: List[int], mask: List[int], value: float) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, mask)
 
 def aten〇masked_fill〇Tensor〡shape(self: List[int], mask: List[int], value: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, mask)
 
 def aten〇zero〡shape(self: List[int]) -> List[int]:
     return self
@@ -2232,7 +2237,7 @@ def aten〇slice_scatter〡shape(self: List[int], src: List[int], dim: int = 0,
     return self
 
 def aten〇masked_scatter〡shape(self: List[int], mask: List[int], source: List[int]) -> List[int]:
-    return self
+    return upstream_shape_functions.broadcast(self, mask)
 
 def aten〇select〇int〡shape(self: List[int], dim: int, index: int) -> List[int]:
     return upstream_shape_functions.select(self, dim, index)
-- 
2.43.0


From 1113afdcb57c937e80c254c227ac83b13bc6c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 044/132] fix: broadcast input and target in the shape
 functions of unreduced losses

---
 .../Torch/Transforms/AbstractInterpLibrary.cpp        | 11 ++++++-----
 .../build_tools/abstract_interp_lib_gen.py            | 10 +++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 2960ab2..9425d89 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11712,7 +11712,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %0 = torch.prim.Uninitialized : !torch.list<int>\n"
 "    %1 = torch.aten.eq.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %2 = torch.prim.If %1 -> (!torch.list<int>) {\n"
-"      %3 = func.call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      %3 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "      torch.prim.If.yield %3 : !torch.list<int>\n"
 "    } else {\n"
 "      %3 = torch.prim.ListConstruct %int1, %int2 : (!torch.int, !torch.int) -> !torch.list<int>\n"
@@ -11740,7 +11740,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %int0 = torch.constant.int 0\n"
 "    %0 = torch.aten.eq.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.list<int>) {\n"
-"      %2 = func.call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      %2 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "      torch.prim.If.yield %2 : !torch.list<int>\n"
 "    } else {\n"
 "      %2 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
@@ -11752,7 +11752,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %int0 = torch.constant.int 0\n"
 "    %0 = torch.aten.eq.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.list<int>) {\n"
-"      %2 = func.call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      %2 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "      torch.prim.If.yield %2 : !torch.list<int>\n"
 "    } else {\n"
 "      %2 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
@@ -11769,7 +11769,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %0 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
 "    %1 = torch.aten.eq.int %arg4, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %2 = torch.prim.If %1 -> (!torch.list<int>) {\n"
-"      %3 = func.call @__torch__.torch.jit._shape_functions._copy(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      %3 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "      torch.prim.If.yield %3 : !torch.list<int>\n"
 "    } else {\n"
 "      torch.prim.If.yield %0 : !torch.list<int>\n"
@@ -11780,7 +11780,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %int0 = torch.constant.int 0\n"
 "    %0 = torch.aten.eq.int %arg5, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.list<int>) {\n"
-"      torch.prim.If.yield %arg0 : !torch.list<int>\n"
+"      %2 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %2 : !torch.list<int>\n"
 "    } else {\n"
 "      %2 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
 "      torch.prim.If.yield %2 : !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 5b6d9de..0ed3c15 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2337,7 +2337,7 @@ def aten〇deg2rad〡shape(self: List[int]) -> List[int]:
 
 def aten〇kl_div〡shape(self: List[int], target: List[int], reduction: int = 1, log_target: bool = False) -> List[int]:
     if reduction == 0:
-        return upstream_shape_functions.unary(self)
+        return upstream_shape_functions.broadcast(self, target)
     elif reduction in [1, 2]:
         return []
     else:
@@ -2358,12 +2358,12 @@ def aten〇nll_loss_backward〡shape(grad_output: List[int], self: List[int], ta
 # TODO: upstream this
 def aten〇mse_loss〡shape(self: List[int], target: List[int], reduction: int = 1) -> List[int]:
     if reduction == 0:
-        return upstream_shape_functions.unary(self)
+        return upstream_shape_functions.broadcast(self, target)
     return []
 
 def aten〇l1_loss〡shape(self: List[int], target: List[int], reduction: int = 1) -> List[int]:
     if reduction == 0:
-        return upstream_shape_functions.unary(self)
+        return upstream_shape_functions.broadcast(self, target)
     return []
 
 def aten〇cross_entropy_loss〡shape(self: List[int], target: List[int], weight: Optional[List[int]] = None, reduction: int = 1, ignore_index: int = -100, label_smoothing: float = 0.) -> List[int]:
@@ -2372,7 +2372,7 @@ def aten〇cross_entropy_loss〡shape(self: List[int], target: List[int], weight
 def aten〇binary_cross_entropy_with_logits〡shape(self: List[int], target: List[int], weight: Optional[List[int]] = None, pos_weight: Optional[List[int]] = None, reduction: int = 1) -> List[int]:
     scalar_shape: List[int] = []
     if reduction == 0:
-        result_shape = upstream_shape_functions._copy(self)
+        result_shape = upstream_shape_functions.broadcast(self, target)
     else:
         result_shape = scalar_shape
     return result_shape
@@ -2384,7 +2384,7 @@ def aten〇binary_cross_entropy_with_logits〡shape(self: List[int], target: Lis
 ])
 def aten〇poisson_nll_loss〡shape(input: List[int], target: List[int], log_input: bool, full: bool, eps: float, reduction: int) -> List[int]:
     if reduction == 0:
-        return input
+        return upstream_shape_functions.broadcast(input, target)
     return []
 
 @check_shape_function([
-- 
2.43.0


From 067cf1b801ea41539010f2a4bb6b3774b589af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 045/132] fix: an empty dim list of any.dims reduces over no
 dimension

---
 .../Transforms/AbstractInterpLibrary.cpp      | 23 ++++++++++++++++---
 .../build_tools/abstract_interp_lib_gen.py    |  3 +++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 9425d89..cda946c 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8195,9 +8195,26 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.any.dims\"(%arg0: !torch.list<int>, %arg1: !torch.optional<list<int>>, %arg2: !torch.bool) -> !torch.list<int> {\n"
 "    %none = torch.constant.none\n"
-"    %0 = torch.derefine %none : !torch.none to !torch.any\n"
-"    %1 = call @__torch__.torch.jit._shape_functions.sum_mean_dim(%arg0, %arg1, %arg2, %0) : (!torch.list<int>, !torch.optional<list<int>>, !torch.bool, !torch.any) -> !torch.list<int>\n"
-"    return %1 : !torch.list<int>\n"
+"    %false = torch.constant.bool false\n"
+"    %int0 = torch.constant.int 0\n"
+"    %0 = torch.aten.__isnot__ %arg1, %none : !torch.optional<list<int>>, !torch.none -> !torch.bool\n"
+"    %1 = torch.prim.If %0 -> (!torch.bool) {\n"
+"      %3 = torch.prim.unchecked_cast %arg1 : !torch.optional<list<int>> -> !torch.list<int>\n"
+"      %4 = torch.aten.len.t %3 : !torch.list<int> -> !torch.int\n"
+"      %5 = torch.aten.eq.int %4, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %5 : !torch.bool\n"
+"    } else {\n"
+"      torch.prim.If.yield %false : !torch.bool\n"
+"    }\n"
+"    %2 = torch.prim.If %1 -> (!torch.list<int>) {\n"
+"      %3 = func.call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %3 : !torch.list<int>\n"
+"    } else {\n"
+"      %3 = torch.derefine %none : !torch.none to !torch.any\n"
+"      %4 = func.call @__torch__.torch.jit._shape_functions.sum_mean_dim(%arg0, %arg1, %arg2, %3) : (!torch.list<int>, !torch.optional<list<int>>, !torch.bool, !torch.any) -> !torch.list<int>\n"
+"      torch.prim.If.yield %4 : !torch.list<int>\n"
+"    }\n"
+"    return %2 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.all.dim\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.bool) -> !torch.list<int> {\n"
 "    %0 = torch.derefine %arg1 : !torch.int to !torch.optional<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 0ed3c15..7849e9e 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -799,6 +799,9 @@ def aten〇any〇dim〡shape(self: List[int], dim: int, keepdim: bool = False) -
     return upstream_shape_functions.argmax(self, dim, keepdim)
 
 def aten〇any〇dims〡shape(self: List[int], dim: Optional[List[int]] = None, keepdim: bool = False) -> List[int]:
+    # Unlike for sum and mean, an empty list reduces over no dimension.
+    if dim is not None and len(dim) == 0:
+        return upstream_shape_functions.unary(self)
     return upstream_shape_functions.sum_mean_dim(self, dim, keepdim, None)
 
 def aten〇all〇dim〡shape(self: List[int], dim: int, keepdim: bool = False) -> List[int]:
-- 
2.43.0


From 75516d2b869d404938eb4a56db4ca3dea76532de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 046/132] fix: wrap negative dims of cosine_similarity and
 repeat_interleave.self_int

---
 .../Transforms/AbstractInterpLibrary.cpp      | 34 +++++++++++--------
 .../build_tools/abstract_interp_lib_gen.py    |  4 ++-
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index cda946c..5edbeae 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -7155,14 +7155,17 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %arg0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.cosine_similarity\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.int, %arg3: !torch.float) -> !torch.list<int> {\n"
+"    %true = torch.constant.bool true\n"
 "    %none = torch.constant.none\n"
 "    %int1 = torch.constant.int 1\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
-"    %1 = torch.aten.slice.t %0, %none, %arg2, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
-"    %2 = torch.aten.add.int %arg2, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"    %3 = torch.aten.slice.t %0, %2, %none, %int1 : !torch.list<int>, !torch.int, !torch.none, !torch.int -> !torch.list<int>\n"
-"    %4 = torch.aten.add.t %1, %3 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
-"    return %4 : !torch.list<int>\n"
+"    %1 = torch.aten.len.t %0 : !torch.list<int> -> !torch.int\n"
+"    %2 = call @__torch__.torch.jit._shape_functions.maybe_wrap_dim(%arg2, %1, %true) : (!torch.int, !torch.int, !torch.bool) -> !torch.int\n"
+"    %3 = torch.aten.slice.t %0, %none, %2, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"    %4 = torch.aten.add.int %2, %int1 : !torch.int, !torch.int -> !torch.int\n"
+"    %5 = torch.aten.slice.t %0, %4, %none, %int1 : !torch.list<int>, !torch.int, !torch.none, !torch.int -> !torch.list<int>\n"
+"    %6 = torch.aten.add.t %3, %5 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"    return %6 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.hardtanh\"(%arg0: !torch.list<int>, %arg1: !torch.float, %arg2: !torch.float) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
@@ -8526,6 +8529,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %6 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.repeat_interleave.self_int\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.optional<int>, %arg3: !torch.optional<int>) -> !torch.list<int> {\n"
+"    %true = torch.constant.bool true\n"
 "    %int-1 = torch.constant.int -1\n"
 "    %none = torch.constant.none\n"
 "    %int0 = torch.constant.int 0\n"
@@ -8539,15 +8543,17 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.If.yield %5 : !torch.list<int>\n"
 "    } else {\n"
 "      %2 = torch.prim.unchecked_cast %arg2 : !torch.optional<int> -> !torch.int\n"
-"      %3 = torch.aten.slice.t %arg0, %none, %2, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
-"      %4 = torch.aten.__getitem__.t %arg0, %2 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %5 = torch.aten.mul.int %4, %arg1 : !torch.int, !torch.int -> !torch.int\n"
-"      %6 = torch.prim.ListConstruct %5 : (!torch.int) -> !torch.list<int>\n"
-"      %7 = torch.aten.add.t %3, %6 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
-"      %8 = torch.aten.add.int %2, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"      %9 = torch.aten.slice.t %arg0, %8, %none, %int1 : !torch.list<int>, !torch.int, !torch.none, !torch.int -> !torch.list<int>\n"
-"      %10 = torch.aten.add.t %7, %9 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
-"      torch.prim.If.yield %10 : !torch.list<int>\n"
+"      %3 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %4 = func.call @__torch__.torch.jit._shape_functions.maybe_wrap_dim(%2, %3, %true) : (!torch.int, !torch.int, !torch.bool) -> !torch.int\n"
+"      %5 = torch.aten.slice.t %arg0, %none, %4, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"      %6 = torch.aten.__getitem__.t %arg0, %4 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %7 = torch.aten.mul.int %6, %arg1 : !torch.int, !torch.int -> !torch.int\n"
+"      %8 = torch.prim.ListConstruct %7 : (!torch.int) -> !torch.list<int>\n"
+"      %9 = torch.aten.add.t %5, %8 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"      %10 = torch.aten.add.int %4, %int1 : !torch.int, !torch.int -> !torch.int\n"
+"      %11 = torch.aten.slice.t %arg0, %10, %none, %int1 : !torch.list<int>, !torch.int, !torch.none, !torch.int -> !torch.list<int>\n"
+"      %12 = torch.aten.add.t %9, %11 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"      torch.prim.If.yield %12 : !torch.list<int>\n"
 "    }\n"
 "    return %1 : !torch.list<int>\n"
 "  }\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 7849e9e..54ab04a 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -230,6 +230,7 @@ def aten〇isfinite〡shape(self: List[int]) -> List[int]:
 
 def aten〇cosine_similarity〡shape(x1: List[int], x2: List[int], dim: int = 1, eps: float = 1e-08) -> List[int]:
     broadcast = upstream_shape_functions.broadcast(x1, x2)
+    dim = upstream_shape_functions.maybe_wrap_dim(dim, len(broadcast))
     return broadcast[:dim] + broadcast[dim + 1:]
 
 def aten〇hardtanh〡shape(self: List[int], min_val: float = -1, max_val: float = 1) -> List[int]:
@@ -1014,7 +1015,8 @@ def aten〇repeat_interleave〇self_int〡shape(self: List[int], repeats: int, d
         flatten_size = upstream_shape_functions.flatten(self, 0, -1)[0]
         return [flatten_size * repeats]
     else:
-        out = self[:dim] + [self[dim] * repeats] + self[dim + 1:]
+        dim_ = upstream_shape_functions.maybe_wrap_dim(dim, len(self))
+        out = self[:dim_] + [self[dim_] * repeats] + self[dim_ + 1:]
         return out
 
 def aten〇repeat_interleave〇Tensor〡shape(repeats: List[int], output_size: Optional[int] = None) -> List[int]:
-- 
2.43.0


From 262c5de87faf903209b196113c9116b785286c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 047/132] fix: accept a negative end in the shape function of
 arange.start

The upstream arange_start asserts end >= 0.
---
 .../Torch/Transforms/AbstractInterpLibrary.cpp     | 14 ++++++++------
 .../build_tools/abstract_interp_lib_gen.py         |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 5edbeae..c99ea34 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -10452,14 +10452,16 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %7 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.arange.start\"(%arg0: !torch.float, %arg1: !torch.float, %arg2: !torch.optional<int>, %arg3: !torch.optional<int>, %arg4: !torch.optional<Device>, %arg5: !torch.optional<bool>) -> !torch.list<int> {\n"
+"    %int1 = torch.constant.int 1\n"
 "    %0 = torch.derefine %arg0 : !torch.float to !torch.union<float, int>\n"
 "    %1 = torch.derefine %arg1 : !torch.float to !torch.union<float, int>\n"
-"    %2 = torch.derefine %arg2 : !torch.optional<int> to !torch.any\n"
-"    %3 = torch.derefine %arg3 : !torch.optional<int> to !torch.any\n"
-"    %4 = torch.derefine %arg4 : !torch.optional<Device> to !torch.any\n"
-"    %5 = torch.derefine %arg5 : !torch.optional<bool> to !torch.any\n"
-"    %6 = call @__torch__.torch.jit._shape_functions.arange_start(%0, %1, %2, %3, %4, %5) : (!torch.union<float, int>, !torch.union<float, int>, !torch.any, !torch.any, !torch.any, !torch.any) -> !torch.list<int>\n"
-"    return %6 : !torch.list<int>\n"
+"    %2 = torch.derefine %int1 : !torch.int to !torch.union<float, int>\n"
+"    %3 = torch.derefine %arg2 : !torch.optional<int> to !torch.any\n"
+"    %4 = torch.derefine %arg3 : !torch.optional<int> to !torch.any\n"
+"    %5 = torch.derefine %arg4 : !torch.optional<Device> to !torch.any\n"
+"    %6 = torch.derefine %arg5 : !torch.optional<bool> to !torch.any\n"
+"    %7 = call @__torch__.torch.jit._shape_functions.arange_start_step(%0, %1, %2, %3, %4, %5, %6) : (!torch.union<float, int>, !torch.union<float, int>, !torch.union<float, int>, !torch.any, !torch.any, !torch.any, !torch.any) -> !torch.list<int>\n"
+"    return %7 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.arange\"(%arg0: !torch.float, %arg1: !torch.optional<int>, %arg2: !torch.optional<int>, %arg3: !torch.optional<Device>, %arg4: !torch.optional<bool>) -> !torch.list<int> {\n"
 "    %0 = torch.derefine %arg0 : !torch.float to !torch.union<float, int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 54ab04a..de479ea 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1746,7 +1746,7 @@ def aten〇arange〇start_step〡shape(start: float, end: float, step: float = 1
     return upstream_shape_functions.arange_start_step(start, end, step, dtype, layout, device, pin_memory)
 
 def aten〇arange〇start〡shape(start: float, end: float, dtype: Optional[int] = None, layout: Optional[int] = None, device: Optional[device] = None, pin_memory: Optional[bool] = None) -> List[int]:
-    return upstream_shape_functions.arange_start(start, end, dtype, layout, device, pin_memory)
+    return upstream_shape_functions.arange_start_step(start, end, 1, dtype, layout, device, pin_memory)
 
 def aten〇arange〡shape(end: float, dtype: Optional[int] = None, layout: Optional[int] = None, device: Optional[device] = None, pin_memory: Optional[bool] = None) -> List[int]:
     return upstream_shape_functions.arange_end(end, dtype, layout, device, pin_memory)
-- 
2.43.0


From 8b241eb4455c588f2a6cd562677dfca946b307bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 048/132] fix: accept scalars and vectors in the shape function
 of t

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp        | 4 +---
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py    | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index c99ea34..55a96af 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8407,9 +8407,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.t\"(%arg0: !torch.list<int>) -> !torch.list<int> {\n"
-"    %int0 = torch.constant.int 0\n"
-"    %int1 = torch.constant.int 1\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.transpose(%arg0, %int0, %int1) : (!torch.list<int>, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.t(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.numpy_T\"(%arg0: !torch.list<int>) -> !torch.list<int> {\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index de479ea..75bbf19 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -895,7 +895,7 @@ def aten〇transpose〇int〡shape(self: List[int], dim0: int, dim1: int) -> Lis
     return upstream_shape_functions.transpose(self, dim0, dim1)
 
 def aten〇t〡shape(self: List[int]) -> List[int]:
-    return upstream_shape_functions.transpose(self, 0, 1)
+    return upstream_shape_functions.t(self)
 
 # TODO: upstream this
 def aten〇numpy_T〡shape(self: List[int]) -> List[int]:
-- 
2.43.0


From 3f3dddaf5e229a79e1e5cd75eeb85f32092721f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 049/132] fix: infer the -1 extent in the shape function of
 _unsafe_view

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp         | 3 ++-
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 55a96af..1ec4606 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8651,7 +8651,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten._unsafe_view\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    return %arg1 : !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.view(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.resize_\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<int>) -> !torch.list<int> {\n"
 "    return %arg1 : !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 75bbf19..2801619 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1071,7 +1071,7 @@ def aten〇_reshape_alias〡shape(self: List[int], size: List[int], stride: List
     return upstream_shape_functions.view(self, size)
 
 def aten〇_unsafe_view〡shape(self: List[int], size: List[int]) -> List[int]:
-    return size
+    return upstream_shape_functions.view(self, size)
 
 def aten〇resize_〡shape(self: List[int], size: List[int], memory_format: Optional[int] = None) -> List[int]:
     return size
-- 
2.43.0


From 68029cd13740855267524e032ad11e0622e212b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 050/132] fix: count a negative start from the end in the shape
 function of narrow

---
 .../Transforms/AbstractInterpLibrary.cpp      | 19 ++++++++++++++-----
 .../build_tools/abstract_interp_lib_gen.py    |  2 ++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 1ec4606..0e01b83 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11480,12 +11480,21 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %int4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.narrow\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.int, %arg3: !torch.int) -> !torch.list<int> {\n"
+"    %int0 = torch.constant.int 0\n"
 "    %int1 = torch.constant.int 1\n"
-"    %0 = torch.aten.add.int %arg2, %arg3 : !torch.int, !torch.int -> !torch.int\n"
-"    %1 = torch.derefine %arg2 : !torch.int to !torch.optional<int>\n"
-"    %2 = torch.derefine %0 : !torch.int to !torch.optional<int>\n"
-"    %3 = call @__torch__.torch.jit._shape_functions.slice(%arg0, %arg1, %1, %2, %int1) : (!torch.list<int>, !torch.int, !torch.optional<int>, !torch.optional<int>, !torch.int) -> !torch.list<int>\n"
-"    return %3 : !torch.list<int>\n"
+"    %0 = torch.aten.lt.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"    %1 = torch.prim.If %0 -> (!torch.int) {\n"
+"      %6 = torch.aten.__getitem__.t %arg0, %arg1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %7 = torch.aten.add.int %arg2, %6 : !torch.int, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %7 : !torch.int\n"
+"    } else {\n"
+"      torch.prim.If.yield %arg2 : !torch.int\n"
+"    }\n"
+"    %2 = torch.aten.add.int %1, %arg3 : !torch.int, !torch.int -> !torch.int\n"
+"    %3 = torch.derefine %1 : !torch.int to !torch.optional<int>\n"
+"    %4 = torch.derefine %2 : !torch.int to !torch.optional<int>\n"
+"    %5 = call @__torch__.torch.jit._shape_functions.slice(%arg0, %arg1, %3, %4, %int1) : (!torch.list<int>, !torch.int, !torch.optional<int>, !torch.optional<int>, !torch.int) -> !torch.list<int>\n"
+"    return %5 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.narrow.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.list<int>, %arg3: !torch.int) -> !torch.list<int> {\n"
 "    %0 = torch.aten._set_item.t %arg0, %arg1, %arg3 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 2801619..06efb66 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2231,6 +2231,8 @@ def aten〇argsort〡dtype(self_rank_dtype: Tuple[int, int], dim: int = -1, desc
     return torch.long
 
 def aten〇narrow〡shape(self: List[int], dim: int, start: int, length: int) -> List[int]:
+    if start < 0:
+        start += self[dim]
     return upstream_shape_functions.slice(self, dim, start, start + length, 1)
 
 # This shape function is a little hacky, because we don't know the start index which is determined by a tensor param.
-- 
2.43.0


From a01aa9573c85f538b8e448176cdea404e6987008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 051/132] fix: no batch dimension for
 scaled_dot_product_attention of rank two

---
 .../Transforms/AbstractInterpLibrary.cpp      | 26 ++++++++++++-------
 .../build_tools/abstract_interp_lib_gen.py    |  4 ++-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 0e01b83..9f56da0 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -10008,18 +10008,26 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.scaled_dot_product_attention\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.optional<list<int>>, %arg4: !torch.float, %arg5: !torch.bool, %arg6: !torch.optional<float>, %arg7: !torch.bool) -> !torch.list<int> {\n"
 "    %int-1 = torch.constant.int -1\n"
+"    %int2 = torch.constant.int 2\n"
 "    %int0 = torch.constant.int 0\n"
 "    %0 = torch.aten.__getitem__.t %arg2, %int-1 : !torch.list<int>, !torch.int -> !torch.int\n"
 "    %1 = torch.aten._set_item.t %arg0, %int-1, %0 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
-"    %2 = torch.aten.__getitem__.t %arg0, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %3 = torch.prim.ListConstruct %2 : (!torch.int) -> !torch.list<int>\n"
-"    %4 = torch.aten.__getitem__.t %arg1, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %5 = torch.prim.ListConstruct %4 : (!torch.int) -> !torch.list<int>\n"
-"    %6 = torch.aten.__getitem__.t %arg2, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %7 = torch.prim.ListConstruct %6 : (!torch.int) -> !torch.list<int>\n"
-"    %8 = call @__torch__.torch.jit._shape_functions.broadcast_three(%3, %5, %7) : (!torch.list<int>, !torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
-"    %9 = torch.aten.__getitem__.t %8, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %10 = torch.aten._set_item.t %arg0, %int0, %9 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
+"    %2 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %3 = torch.aten.gt.int %2, %int2 : !torch.int, !torch.int -> !torch.bool\n"
+"    torch.prim.If %3 -> () {\n"
+"      %4 = torch.aten.__getitem__.t %arg0, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %5 = torch.prim.ListConstruct %4 : (!torch.int) -> !torch.list<int>\n"
+"      %6 = torch.aten.__getitem__.t %arg1, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %7 = torch.prim.ListConstruct %6 : (!torch.int) -> !torch.list<int>\n"
+"      %8 = torch.aten.__getitem__.t %arg2, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %9 = torch.prim.ListConstruct %8 : (!torch.int) -> !torch.list<int>\n"
+"      %10 = func.call @__torch__.torch.jit._shape_functions.broadcast_three(%5, %7, %9) : (!torch.list<int>, !torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"      %11 = torch.aten.__getitem__.t %10, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %12 = torch.aten._set_item.t %arg0, %int0, %11 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
+"      torch.prim.If.yield\n"
+"    } else {\n"
+"      torch.prim.If.yield\n"
+"    }\n"
 "    return %arg0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.zeros\"(%arg0: !torch.list<int>, %arg1: !torch.optional<int>, %arg2: !torch.optional<int>, %arg3: !torch.optional<Device>, %arg4: !torch.optional<bool>) -> !torch.list<int> {\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 06efb66..2907645 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1511,7 +1511,9 @@ def aten〇_trilinear〡shape(i1: List[int], i2: List[int], i3: List[int], expan
 def aten〇scaled_dot_product_attention〡shape(query: List[int], key: List[int], value: List[int], attn_mask: Optional[List[int]] = None, dropout_p: float = 0., is_causal: bool = False, scale: Optional[float] = None, enable_gqa: bool = False) -> List[int]:
     outshape = query
     outshape[-1] = value[-1]
-    outshape[0] = upstream_shape_functions.broadcast_three([query[0]], [key[0]], [value[0]])[0]
+    # The first dimension of an operand of rank two is no batch.
+    if len(query) > 2:
+        outshape[0] = upstream_shape_functions.broadcast_three([query[0]], [key[0]], [value[0]])[0]
     return outshape
 
 @check_shape_function([
-- 
2.43.0


From 7a9c56cf4190d2db159a96a7ddc05aa4eb927af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 052/132] fix: keep the spatial extents of convolutions with
 padding "same"

Half of an odd total padding was dropped, and the dilations were applied to
the kernel extents in reverse order.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 69 +++++++++----------
 .../build_tools/abstract_interp_lib_gen.py    | 27 ++++----
 2 files changed, 46 insertions(+), 50 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 9f56da0..3f6a895 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11192,20 +11192,20 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.conv2d.padding\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.str, %arg5: !torch.list<int>, %arg6: !torch.int) -> !torch.list<int> {\n"
-"    %0 = call @__torch__._conv_padding(%arg1, %arg5, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.str) -> !torch.list<int>\n"
-"    %1 = call @__torch__.torch.jit._shape_functions.conv2d(%arg0, %arg1, %arg2, %arg3, %0, %arg5, %arg6) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
-"    return %1 : !torch.list<int>\n"
+"    %int0 = torch.constant.int 0\n"
+"    %0 = call @__torch__._conv_padded_input(%arg0, %arg1, %arg5, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.str) -> !torch.list<int>\n"
+"    %1 = torch.prim.ListConstruct %int0, %int0 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"    %2 = call @__torch__.torch.jit._shape_functions.conv2d(%0, %arg1, %arg2, %arg3, %1, %arg5, %arg6) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
+"    return %2 : !torch.list<int>\n"
 "  }\n"
-"  func.func @__torch__._conv_padding(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.str) -> !torch.list<int> {\n"
+"  func.func @__torch__._conv_padded_input(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.str) -> !torch.list<int> {\n"
 "    %true = torch.constant.bool true\n"
-"    %int-1 = torch.constant.int -1\n"
 "    %str = torch.constant.str \"same\"\n"
 "    %none = torch.constant.none\n"
 "    %str_0 = torch.constant.str \"AssertionError: conv: weight must be at least 3 dimensional.\"\n"
 "    %int2 = torch.constant.int 2\n"
-"    %int0 = torch.constant.int 0\n"
 "    %int1 = torch.constant.int 1\n"
-"    %0 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %0 = torch.aten.len.t %arg1 : !torch.list<int> -> !torch.int\n"
 "    %1 = torch.aten.gt.int %0, %int2 : !torch.int, !torch.int -> !torch.bool\n"
 "    torch.prim.If %1 -> () {\n"
 "      torch.prim.If.yield\n"
@@ -11213,42 +11213,39 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.RaiseException %str_0, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %2 = torch.aten.sub.int %0, %int2 : !torch.int, !torch.int -> !torch.int\n"
-"    %3 = torch.prim.ListConstruct %int0 : (!torch.int) -> !torch.list<int>\n"
-"    %4 = torch.aten.mul.left_t %3, %2 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
-"    %5 = torch.aten.eq.str %arg2, %str : !torch.str, !torch.str -> !torch.bool\n"
-"    torch.prim.If %5 -> () {\n"
-"      %6 = torch.aten.sub.int %2, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"      %7 = torch.aten.len.t %arg1 : !torch.list<int> -> !torch.int\n"
-"      %8 = torch.aten.__range_length %6, %int-1, %int-1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
-"      %9 = torch.prim.ListConstruct %7, %8 : (!torch.int, !torch.int) -> !torch.list<int>\n"
-"      %10 = torch.prim.min.self_int %9 : !torch.list<int> -> !torch.int\n"
-"      torch.prim.Loop %10, %true, init() {\n"
-"      ^bb0(%arg3: !torch.int):\n"
-"        %11 = torch.aten.__getitem__.t %arg1, %arg3 : !torch.list<int>, !torch.int -> !torch.int\n"
-"        %12 = torch.aten.__derive_index %arg3, %6, %int-1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
-"        %13 = torch.aten.add.int %int2, %12 : !torch.int, !torch.int -> !torch.int\n"
-"        %14 = torch.aten.__getitem__.t %arg0, %13 : !torch.list<int>, !torch.int -> !torch.int\n"
-"        %15 = torch.aten.sub.int %14, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"        %16 = torch.aten.mul.int %11, %15 : !torch.int, !torch.int -> !torch.int\n"
-"        %17 = torch.aten.floordiv.int %16, %int2 : !torch.int, !torch.int -> !torch.int\n"
-"        %18 = torch.aten._set_item.t %4, %12, %17 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
+"    %2 = call @__torch__.torch.jit._shape_functions._copy(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %3 = torch.aten.eq.str %arg3, %str : !torch.str, !torch.str -> !torch.bool\n"
+"    torch.prim.If %3 -> () {\n"
+"      %4 = torch.aten.__range_length %int2, %0, %int1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
+"      torch.prim.Loop %4, %true, init() {\n"
+"      ^bb0(%arg4: !torch.int):\n"
+"        %5 = torch.aten.__derive_index %arg4, %int2, %int1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
+"        %6 = torch.aten.__getitem__.t %2, %5 : !torch.list<int>, !torch.int -> !torch.int\n"
+"        %7 = torch.aten.sub.int %5, %int2 : !torch.int, !torch.int -> !torch.int\n"
+"        %8 = torch.aten.__getitem__.t %arg2, %7 : !torch.list<int>, !torch.int -> !torch.int\n"
+"        %9 = torch.aten.__getitem__.t %arg1, %5 : !torch.list<int>, !torch.int -> !torch.int\n"
+"        %10 = torch.aten.sub.int %9, %int1 : !torch.int, !torch.int -> !torch.int\n"
+"        %11 = torch.aten.mul.int %8, %10 : !torch.int, !torch.int -> !torch.int\n"
+"        %12 = torch.aten.add.int %6, %11 : !torch.int, !torch.int -> !torch.int\n"
+"        %13 = torch.aten._set_item.t %2, %5, %12 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
 "        torch.prim.Loop.condition %true, iter()\n"
 "      } : (!torch.int, !torch.bool) -> ()\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    return %4 : !torch.list<int>\n"
+"    return %2 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.conv3d\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.list<int>, %arg6: !torch.int) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.conv3d(%arg0, %arg1, %arg2, %arg3, %arg4, %arg5, %arg6) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.conv3d.padding\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.str, %arg5: !torch.list<int>, %arg6: !torch.int) -> !torch.list<int> {\n"
-"    %0 = call @__torch__._conv_padding(%arg1, %arg5, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.str) -> !torch.list<int>\n"
-"    %1 = call @__torch__.torch.jit._shape_functions.conv3d(%arg0, %arg1, %arg2, %arg3, %0, %arg5, %arg6) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
-"    return %1 : !torch.list<int>\n"
+"    %int0 = torch.constant.int 0\n"
+"    %0 = call @__torch__._conv_padded_input(%arg0, %arg1, %arg5, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.str) -> !torch.list<int>\n"
+"    %1 = torch.prim.ListConstruct %int0, %int0, %int0 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    %2 = call @__torch__.torch.jit._shape_functions.conv3d(%0, %arg1, %arg2, %arg3, %1, %arg5, %arg6) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
+"    return %2 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.conv_transpose2d.input\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.list<int>, %arg6: !torch.int, %arg7: !torch.list<int>) -> !torch.list<int> {\n"
 "    %0 = torch.derefine %arg3 : !torch.list<int> to !torch.optional<list<int>>\n"
@@ -11320,12 +11317,14 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %1 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.conv1d.padding\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.str, %arg5: !torch.list<int>, %arg6: !torch.int) -> !torch.list<int> {\n"
+"    %int0 = torch.constant.int 0\n"
 "    %false = torch.constant.bool false\n"
 "    %int1 = torch.constant.int 1\n"
-"    %0 = call @__torch__._conv_padding(%arg1, %arg5, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.str) -> !torch.list<int>\n"
-"    %1 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %2 = call @__torch__.torch.jit._shape_functions.conv_forwards(%arg0, %arg1, %arg2, %arg3, %0, %arg5, %false, %1, %int1) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
-"    return %2 : !torch.list<int>\n"
+"    %0 = call @__torch__._conv_padded_input(%arg0, %arg1, %arg5, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.str) -> !torch.list<int>\n"
+"    %1 = torch.prim.ListConstruct %int0 : (!torch.int) -> !torch.list<int>\n"
+"    %2 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %3 = call @__torch__.torch.jit._shape_functions.conv_forwards(%0, %arg1, %arg2, %arg3, %1, %arg5, %false, %2, %int1) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
+"    return %3 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.conv_transpose1d\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.list<int>, %arg6: !torch.int, %arg7: !torch.list<int>) -> !torch.list<int> {\n"
 "    %true = torch.constant.bool true\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 2907645..bce50bf 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2075,31 +2075,28 @@ def torchvision〇deform_conv2d〡dtype(input_rank_dtype: Tuple[int, int], weigh
 def aten〇conv2d〡shape(input: List[int], weight: List[int], bias: Optional[List[int]] = None, stride: List[int] = (1, 1,), padding: List[int] = (0, 0,), dilation: List[int] = (1, 1,), groups: int = 1) -> List[int]:
     return upstream_shape_functions.conv2d(input, weight, bias, stride, padding, dilation, groups)
 
-def _conv_padding(weight: List[int], dilation: List[int], padding: str):
+def _conv_padded_input(input: List[int], weight: List[int], dilation: List[int], padding: str):
     rank = len(weight)
     # first 2 dimensions of weight corresponds to out_channels and in_channels/groups
     num_unpadded_dims = 2
     assert rank > num_unpadded_dims, "conv: weight must be at least 3 dimensional."
-    num_kernel_elems = rank - num_unpadded_dims
-    padding_int = [0] * num_kernel_elems
+    padded = upstream_shape_functions._copy(input)
     if padding == "same":
-        for d, i in zip(
-            dilation, range(num_kernel_elems - 1, -1, -1)
-        ):
-            padding_val = d * (weight[num_unpadded_dims+i] - 1)
-            padding_int[i] = padding_val // 2            
-    return padding_int    
+        # The two sides are padded unevenly where this is odd.
+        for i in range(num_unpadded_dims, rank):
+            padded[i] += dilation[i - num_unpadded_dims] * (weight[i] - 1)
+    return padded
 
 def aten〇conv2d〇padding〡shape(input: List[int], weight: List[int], bias: Optional[List[int]] = None, stride: List[int] = (1, 1,), padding: str = "valid", dilation: List[int] = (1, 1,), groups: int = 1) -> List[int]:
-    padding_int = _conv_padding(weight, dilation, padding)
-    return upstream_shape_functions.conv2d(input, weight, bias, stride, padding_int, dilation, groups)
+    padded = _conv_padded_input(input, weight, dilation, padding)
+    return upstream_shape_functions.conv2d(padded, weight, bias, stride, [0, 0], dilation, groups)
 
 def aten〇conv3d〡shape(input: List[int], weight: List[int], bias: Optional[List[int]] = None, stride: List[int] = (1, 1, 1,), padding: List[int] = (0, 0, 0,), dilation: List[int] = (1, 1, 1,), groups: int = 1) -> List[int]:
     return upstream_shape_functions.conv3d(input, weight, bias, stride, padding, dilation, groups)
 
 def aten〇conv3d〇padding〡shape(input: List[int], weight: List[int], bias: Optional[List[int]] = None, stride: List[int] = (1, 1, 1,), padding: str = "valid", dilation: List[int] = (1, 1, 1,), groups: int = 1) -> List[int]:
-    padding_int = _conv_padding(weight, dilation, padding)
-    return upstream_shape_functions.conv3d(input, weight, bias, stride, padding_int, dilation, groups)
+    padded = _conv_padded_input(input, weight, dilation, padding)
+    return upstream_shape_functions.conv3d(padded, weight, bias, stride, [0, 0, 0], dilation, groups)
 
 def aten〇conv_transpose2d〇input〡shape(input: List[int], weight: List[int], bias: Optional[List[int]] = None, stride: List[int] = (1, 1,), padding: List[int] = (0, 0,), output_padding: List[int] = (0, 0,), groups: int = 1, dilation: List[int] = (1, 1,)) -> List[int]:
     return upstream_shape_functions.conv_transpose2d_input(input, weight, bias, stride, padding, output_padding, groups, dilation)
@@ -2143,8 +2140,8 @@ def aten〇conv1d〡shape(input: List[int], weight: List[int], bias: Optional[Li
     return upstream_shape_functions.conv_forwards(input, weight, bias, stride, padding, dilation, transposed=False, output_padding=[], groups=1)
 
 def aten〇conv1d〇padding〡shape(input: List[int], weight: List[int], bias: Optional[List[int]] = None, stride: List[int] = (1,), padding: str = "valid", dilation: List[int] = (1,), groups: int = 1) -> List[int]:
-    padding_int = _conv_padding(weight, dilation, padding)
-    return upstream_shape_functions.conv_forwards(input, weight, bias, stride, padding_int, dilation, transposed=False, output_padding=[], groups=1)
+    padded = _conv_padded_input(input, weight, dilation, padding)
+    return upstream_shape_functions.conv_forwards(padded, weight, bias, stride, [0], dilation, transposed=False, output_padding=[], groups=1)
 
 def aten〇conv_transpose1d〡shape(input: List[int], weight: List[int], bias: Optional[List[int]] = None, stride: List[int] = (1,), padding: List[int] = (0,), output_padding: List[int] = (0,), groups: int = 1, dilation: List[int] = (1,)) -> List[int]:
     return aten〇convolution〡shape(input, weight, bias, stride, padding, dilation, True, output_padding, groups)
-- 
2.43.0


From 4459f4ca532941926b08486f0affd5a42f3487ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 053/132] fix: use the transposed operands in the shape
 function of conv_tbc

---
 .../Transforms/AbstractInterpLibrary.cpp      | 33 +++++++++++--------
 .../build_tools/abstract_interp_lib_gen.py    |  2 +-
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 3f6a895..d78ac41 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11261,6 +11261,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %str = torch.constant.str \"AssertionError: \"\n"
 "    %int3 = torch.constant.int 3\n"
 "    %int1 = torch.constant.int 1\n"
+"    %int0 = torch.constant.int 0\n"
 "    %int2 = torch.constant.int 2\n"
 "    %0 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
 "    %1 = torch.aten.eq.int %0, %int3 : !torch.int, !torch.int -> !torch.bool\n"
@@ -11286,24 +11287,30 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %6 = torch.aten.__getitem__.t %arg0, %int2 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %7 = torch.aten.__getitem__.t %arg1, %int1 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %8 = torch.aten.eq.int %6, %7 : !torch.int, !torch.int -> !torch.bool\n"
-"    torch.prim.If %8 -> () {\n"
+"    %6 = torch.aten.__getitem__.t %arg0, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %7 = torch.aten.__getitem__.t %arg0, %int1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %8 = torch.aten.__getitem__.t %arg0, %int2 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %9 = torch.aten.__getitem__.t %arg1, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %10 = torch.aten.__getitem__.t %arg1, %int1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %11 = torch.aten.__getitem__.t %arg1, %int2 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %12 = torch.aten.eq.int %8, %10 : !torch.int, !torch.int -> !torch.bool\n"
+"    torch.prim.If %12 -> () {\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %9 = torch.prim.ListConstruct %int1 : (!torch.int) -> !torch.list<int>\n"
-"    %10 = torch.prim.ListConstruct %arg3 : (!torch.int) -> !torch.list<int>\n"
-"    %11 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %12 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %13 = torch.derefine %arg2 : !torch.list<int> to !torch.optional<list<int>>\n"
-"    %14 = call @__torch__.torch.jit._shape_functions.conv_forwards(%arg0, %arg1, %13, %9, %10, %11, %false, %12, %int1) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
-"    %15:3 = torch.prim.ListUnpack %14 : !torch.list<int> -> !torch.int, !torch.int, !torch.int\n"
-"    %16 = torch.prim.ListConstruct %15#2, %15#0, %15#1 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
-"    return %16 : !torch.list<int>\n"
+"    %13 = torch.prim.ListConstruct %7, %8, %6 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    %14 = torch.prim.ListConstruct %11, %8, %9 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    %15 = torch.prim.ListConstruct %int1 : (!torch.int) -> !torch.list<int>\n"
+"    %16 = torch.prim.ListConstruct %arg3 : (!torch.int) -> !torch.list<int>\n"
+"    %17 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %18 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %19 = torch.derefine %arg2 : !torch.list<int> to !torch.optional<list<int>>\n"
+"    %20 = call @__torch__.torch.jit._shape_functions.conv_forwards(%13, %14, %19, %15, %16, %17, %false, %18, %int1) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
+"    %21:3 = torch.prim.ListUnpack %20 : !torch.list<int> -> !torch.int, !torch.int, !torch.int\n"
+"    %22 = torch.prim.ListConstruct %21#2, %21#0, %21#1 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    return %22 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.convolution\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.list<int>, %arg6: !torch.bool, %arg7: !torch.list<int>, %arg8: !torch.int) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.conv_forwards(%arg0, %arg1, %arg2, %arg3, %arg4, %arg5, %arg6, %arg7, %arg8) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index bce50bf..f653d36 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2126,7 +2126,7 @@ def aten〇conv_tbc〡shape(self: List[int], weight: List[int], bias: List[int],
     bias_bct = bias
 
     # use existing shape inf
-    output_size_bct = upstream_shape_functions.conv_forwards(self, weight, bias, stride=[1], padding=[pad], dilation=[], transposed=False, output_padding=[], groups=1)
+    output_size_bct = upstream_shape_functions.conv_forwards(self_bct, weight_bct, bias_bct, stride=[1], padding=[pad], dilation=[], transposed=False, output_padding=[], groups=1)
 
     batch_out, channels_out, time_out = output_size_bct
 
-- 
2.43.0


From 7bdad2e8ec61b6687e5e3ce5caa1ff91ec981787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 054/132] fix: honour the dilation of max_pool1d in its shape
 function

---
 .../Transforms/AbstractInterpLibrary.cpp      | 78 +++++++++++--------
 .../build_tools/abstract_interp_lib_gen.py    | 11 +--
 2 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index d78ac41..3911edb 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -9200,14 +9200,17 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %arg2 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.avg_pool1d\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.list<int>, %arg4: !torch.bool, %arg5: !torch.bool) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.pool1d(%arg0, %arg1, %arg2, %arg3, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool) -> !torch.list<int>\n"
-"    return %0 : !torch.list<int>\n"
+"    %int1 = torch.constant.int 1\n"
+"    %0 = torch.prim.ListConstruct %int1 : (!torch.int) -> !torch.list<int>\n"
+"    %1 = call @__torch__.pool1d(%arg0, %arg1, %arg2, %arg3, %0, %arg4) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool) -> !torch.list<int>\n"
+"    return %1 : !torch.list<int>\n"
 "  }\n"
-"  func.func @__torch__.pool1d(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.list<int>, %arg4: !torch.bool) -> !torch.list<int> {\n"
+"  func.func @__torch__.pool1d(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.bool) -> !torch.list<int> {\n"
 "    %int-1 = torch.constant.int -1\n"
 "    %int-2 = torch.constant.int -2\n"
 "    %int-3 = torch.constant.int -3\n"
 "    %str = torch.constant.str \"AssertionError: \"\n"
+"    %str_3 = torch.constant.str \"AssertionError: pool1d: dilation must be a single int\"\n"
 "    %str_0 = torch.constant.str \"AssertionError: pool1d: padding must be a single int\"\n"
 "    %str_1 = torch.constant.str \"AssertionError: pool1d: stride must either be omitted, or a single int\"\n"
 "    %true = torch.constant.bool true\n"
@@ -9231,9 +9234,9 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %5 = torch.prim.If %4 -> (!torch.bool) {\n"
 "      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      %24 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
-"      %25 = torch.aten.eq.int %24, %int1 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %25 : !torch.bool\n"
+"      %27 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
+"      %28 = torch.aten.eq.int %27, %int1 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %28 : !torch.bool\n"
 "    }\n"
 "    torch.prim.If %5 -> () {\n"
 "      torch.prim.If.yield\n"
@@ -9246,8 +9249,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %8 = torch.prim.If %7 -> (!torch.int) {\n"
 "      torch.prim.If.yield %2 : !torch.int\n"
 "    } else {\n"
-"      %24 = torch.aten.__getitem__.t %arg2, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      torch.prim.If.yield %24 : !torch.int\n"
+"      %27 = torch.aten.__getitem__.t %arg2, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %27 : !torch.int\n"
 "    }\n"
 "    %9 = torch.aten.len.t %arg3 : !torch.list<int> -> !torch.int\n"
 "    %10 = torch.aten.eq.int %9, %int1 : !torch.int, !torch.int -> !torch.bool\n"
@@ -9258,49 +9261,58 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.If.yield\n"
 "    }\n"
 "    %11 = torch.aten.__getitem__.t %arg3, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %12 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %13 = torch.aten.eq.int %12, %int2 : !torch.int, !torch.int -> !torch.bool\n"
-"    %14 = torch.prim.If %13 -> (!torch.bool) {\n"
+"    %12 = torch.aten.len.t %arg4 : !torch.list<int> -> !torch.int\n"
+"    %13 = torch.aten.eq.int %12, %int1 : !torch.int, !torch.int -> !torch.bool\n"
+"    torch.prim.If %13 -> () {\n"
+"      torch.prim.If.yield\n"
+"    } else {\n"
+"      torch.prim.RaiseException %str_3, %none : !torch.str, !torch.none\n"
+"      torch.prim.If.yield\n"
+"    }\n"
+"    %14 = torch.aten.__getitem__.t %arg4, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %15 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %16 = torch.aten.eq.int %15, %int2 : !torch.int, !torch.int -> !torch.bool\n"
+"    %17 = torch.prim.If %16 -> (!torch.bool) {\n"
 "      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      %24 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"      %25 = torch.aten.eq.int %24, %int3 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %25 : !torch.bool\n"
+"      %27 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %28 = torch.aten.eq.int %27, %int3 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %28 : !torch.bool\n"
 "    }\n"
-"    torch.prim.If %14 -> () {\n"
+"    torch.prim.If %17 -> () {\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %15 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %16 = torch.aten.eq.int %15, %int3 : !torch.int, !torch.int -> !torch.bool\n"
-"    %17 = torch.prim.If %16 -> (!torch.int) {\n"
-"      %24 = torch.aten.__getitem__.t %arg0, %int-3 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      torch.prim.If.yield %24 : !torch.int\n"
+"    %18 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %19 = torch.aten.eq.int %18, %int3 : !torch.int, !torch.int -> !torch.bool\n"
+"    %20 = torch.prim.If %19 -> (!torch.int) {\n"
+"      %27 = torch.aten.__getitem__.t %arg0, %int-3 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %27 : !torch.int\n"
 "    } else {\n"
 "      torch.prim.If.yield %int1 : !torch.int\n"
 "    }\n"
-"    %18 = torch.aten.__getitem__.t %arg0, %int-2 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %19 = torch.aten.__getitem__.t %arg0, %int-1 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %20 = call @__torch__.torch.jit._shape_functions.pooling_output_shape(%19, %2, %11, %8, %int1, %arg4) : (!torch.int, !torch.int, !torch.int, !torch.int, !torch.int, !torch.bool) -> !torch.int\n"
-"    %21 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %22 = torch.aten.eq.int %21, %int2 : !torch.int, !torch.int -> !torch.bool\n"
-"    %23 = torch.prim.If %22 -> (!torch.list<int>) {\n"
-"      %24 = torch.prim.ListConstruct %18, %20 : (!torch.int, !torch.int) -> !torch.list<int>\n"
-"      torch.prim.If.yield %24 : !torch.list<int>\n"
+"    %21 = torch.aten.__getitem__.t %arg0, %int-2 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %22 = torch.aten.__getitem__.t %arg0, %int-1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %23 = call @__torch__.torch.jit._shape_functions.pooling_output_shape(%22, %2, %11, %8, %14, %arg5) : (!torch.int, !torch.int, !torch.int, !torch.int, !torch.int, !torch.bool) -> !torch.int\n"
+"    %24 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %25 = torch.aten.eq.int %24, %int2 : !torch.int, !torch.int -> !torch.bool\n"
+"    %26 = torch.prim.If %25 -> (!torch.list<int>) {\n"
+"      %27 = torch.prim.ListConstruct %21, %23 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"      torch.prim.If.yield %27 : !torch.list<int>\n"
 "    } else {\n"
-"      %24 = torch.prim.ListConstruct %17, %18, %20 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
-"      torch.prim.If.yield %24 : !torch.list<int>\n"
+"      %27 = torch.prim.ListConstruct %20, %21, %23 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"      torch.prim.If.yield %27 : !torch.list<int>\n"
 "    }\n"
-"    return %23 : !torch.list<int>\n"
+"    return %26 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.max_pool1d\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.bool) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.pool1d(%arg0, %arg1, %arg2, %arg3, %arg5) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool) -> !torch.list<int>\n"
+"    %0 = call @__torch__.pool1d(%arg0, %arg1, %arg2, %arg3, %arg4, %arg5) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.max_pool1d_with_indices\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.bool) -> !torch.tuple<list<int>, list<int>> {\n"
-"    %0 = call @__torch__.pool1d(%arg0, %arg1, %arg2, %arg3, %arg5) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool) -> !torch.list<int>\n"
+"    %0 = call @__torch__.pool1d(%arg0, %arg1, %arg2, %arg3, %arg4, %arg5) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool) -> !torch.list<int>\n"
 "    %1 = torch.prim.TupleConstruct %0, %0 : !torch.list<int>, !torch.list<int> -> !torch.tuple<list<int>, list<int>>\n"
 "    return %1 : !torch.tuple<list<int>, list<int>>\n"
 "  }\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index f653d36..2c3a5f5 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1331,7 +1331,7 @@ def avg_pool2d(input: List[int], kernel_size: List[int], stride: List[int], padd
 
 # TODO: This should be upstreamed.
 # See https://github.com/pytorch/pytorch/pull/76889 for an example.
-def pool1d(input: List[int], kernel_size: List[int], stride: List[int], padding: List[int], ceil_mode: bool):
+def pool1d(input: List[int], kernel_size: List[int], stride: List[int], padding: List[int], dilation: List[int], ceil_mode: bool):
   assert len(kernel_size) == 1, "pool1d: kernel_size must be a single int"
   kL = kernel_size[0]
 
@@ -1341,7 +1341,8 @@ def pool1d(input: List[int], kernel_size: List[int], stride: List[int], padding:
   assert len(padding) == 1, "pool1d: padding must be a single int"
   padL = padding[0]
 
-  dilationL = 1
+  assert len(dilation) == 1, "pool1d: dilation must be a single int"
+  dilationL = dilation[0]
 
   assert len(input) == 2 or len(input) == 3
 
@@ -1374,13 +1375,13 @@ def adaptive_avg_pool1d(self: List[int], out: List[int]):
     return shape
 
 def aten〇avg_pool1d〡shape(self: List[int], kernel_size: List[int], stride: List[int] = (), padding: List[int] = (0,), ceil_mode: bool = False, count_include_pad: bool = True) -> List[int]:
-    return pool1d(self, kernel_size, stride, padding, ceil_mode)
+    return pool1d(self, kernel_size, stride, padding, [1], ceil_mode)
 
 def aten〇max_pool1d〡shape(self: List[int], kernel_size: List[int], stride: List[int] = (), padding: List[int] = (0,), dilation: List[int] = (1,), ceil_mode: bool = False) -> List[int]:
-    return pool1d(self, kernel_size, stride, padding, ceil_mode)
+    return pool1d(self, kernel_size, stride, padding, dilation, ceil_mode)
 
 def aten〇max_pool1d_with_indices〡shape(self: List[int], kernel_size: List[int], stride: List[int] = (), padding: List[int] = (0,), dilation: List[int] = (1,), ceil_mode: bool = False) -> Tuple[List[int], List[int]]:
-    maxpool1d = indices = pool1d(self, kernel_size, stride, padding, ceil_mode)
+    maxpool1d = indices = pool1d(self, kernel_size, stride, padding, dilation, ceil_mode)
     return maxpool1d, indices
 
 def aten〇adaptive_avg_pool1d〡shape(self: List[int], output_size: List[int]) -> List[int]:
-- 
2.43.0


From adc60555041369c1636f411808bca3061a1b91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 055/132] fix: default 3-d pooling strides to the kernel extent
 of each dimension

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp        | 4 ++--
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 3911edb..005a30c 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8740,7 +8740,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %11 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
 "    %12 = torch.aten.eq.int %11, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %13:3 = torch.prim.If %12 -> (!torch.int, !torch.int, !torch.int) {\n"
-"      torch.prim.If.yield %6#0, %6#0, %6#0 : !torch.int, !torch.int, !torch.int\n"
+"      torch.prim.If.yield %6#0, %6#1, %6#2 : !torch.int, !torch.int, !torch.int\n"
 "    } else {\n"
 "      %45 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
 "      %46 = torch.aten.eq.int %45, %int1 : !torch.int, !torch.int -> !torch.bool\n"
@@ -9608,7 +9608,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %11 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
 "    %12 = torch.aten.eq.int %11, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %13:3 = torch.prim.If %12 -> (!torch.int, !torch.int, !torch.int) {\n"
-"      torch.prim.If.yield %6#0, %6#0, %6#0 : !torch.int, !torch.int, !torch.int\n"
+"      torch.prim.If.yield %6#0, %6#1, %6#2 : !torch.int, !torch.int, !torch.int\n"
 "    } else {\n"
 "      %38 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
 "      %39 = torch.aten.eq.int %38, %int1 : !torch.int, !torch.int -> !torch.bool\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 2c3a5f5..707a233 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1126,7 +1126,7 @@ def _max_pool3d(
     ), "max_pool3d: stride must either be omitted, a single int, or a tuple of three ints"
 
     if len(stride) == 0:
-        (dD, dH, dW) = (kD, kD, kD)
+        (dD, dH, dW) = (kD, kH, kW)
     elif len(stride) == 1:
         (dD, dH, dW) = (stride[0], stride[0], stride[0])
     else:  # len(stride) == 3
@@ -1235,7 +1235,7 @@ def avg_pool3d(input: List[int], kernel_size: List[int], stride: List[int], padd
     ), "max_pool3d: stride must either be omitted, a single int, or a tuple of three ints"
 
     if len(stride) == 0:
-        (dD, dH, dW) = (kD, kD, kD)
+        (dD, dH, dW) = (kD, kH, kW)
     elif len(stride) == 1:
         (dD, dH, dW) = (stride[0], stride[0], stride[0])
     else:  # len(stride) == 3
-- 
2.43.0


From b3e48c50610eb84ec95db56d148ff0a52fa6cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 056/132] fix: honour the signal length n in the shape
 functions of fft_fft, fft_ifft and fft_rfft

---
 .../Transforms/AbstractInterpLibrary.cpp      | 55 ++++++++++++++-----
 .../build_tools/abstract_interp_lib_gen.py    | 13 ++++-
 2 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 005a30c..c6c9b46 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -12327,7 +12327,17 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %2 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.fft_fft\"(%arg0: !torch.list<int>, %arg1: !torch.optional<int>, %arg2: !torch.int, %arg3: !torch.optional<str>) -> !torch.list<int> {\n"
-"    return %arg0 : !torch.list<int>\n"
+"    %none = torch.constant.none\n"
+"    %0 = call @__torch__.torch.jit._shape_functions._copy(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %1 = torch.aten.__isnot__ %arg1, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
+"    torch.prim.If %1 -> () {\n"
+"      %2 = torch.prim.unchecked_cast %arg1 : !torch.optional<int> -> !torch.int\n"
+"      %3 = torch.aten._set_item.t %0, %arg2, %2 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
+"      torch.prim.If.yield\n"
+"    } else {\n"
+"      torch.prim.If.yield\n"
+"    }\n"
+"    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.fft_rfft\"(%arg0: !torch.list<int>, %arg1: !torch.optional<int>, %arg2: !torch.int, %arg3: !torch.optional<str>) -> !torch.list<int> {\n"
 "    %true = torch.constant.bool true\n"
@@ -12339,17 +12349,17 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %int1 = torch.constant.int 1\n"
 "    %0 = torch.aten.lt.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.int) {\n"
-"      %10 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"      %11 = torch.aten.add.int %arg2, %10 : !torch.int, !torch.int -> !torch.int\n"
-"      torch.prim.If.yield %11 : !torch.int\n"
+"      %11 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %12 = torch.aten.add.int %arg2, %11 : !torch.int, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %12 : !torch.int\n"
 "    } else {\n"
 "      torch.prim.If.yield %arg2 : !torch.int\n"
 "    }\n"
 "    %2 = torch.aten.ge.int %1, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %3 = torch.prim.If %2 -> (!torch.bool) {\n"
-"      %10 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"      %11 = torch.aten.lt.int %1, %10 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %11 : !torch.bool\n"
+"      %11 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %12 = torch.aten.lt.int %1, %11 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %12 : !torch.bool\n"
 "    } else {\n"
 "      torch.prim.If.yield %false : !torch.bool\n"
 "    }\n"
@@ -12363,14 +12373,21 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %5 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
 "    torch.prim.Loop %5, %true, init() {\n"
 "    ^bb0(%arg4: !torch.int):\n"
-"      %10 = torch.aten.__getitem__.t %arg0, %arg4 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %11 = torch.aten.append.t %4, %10 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      %11 = torch.aten.__getitem__.t %arg0, %arg4 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %12 = torch.aten.append.t %4, %11 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.Loop.condition %true, iter()\n"
 "    } : (!torch.int, !torch.bool) -> ()\n"
-"    %6 = torch.aten.__getitem__.t %arg0, %1 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %7 = torch.aten.floordiv.int %6, %int2 : !torch.int, !torch.int -> !torch.int\n"
-"    %8 = torch.aten.add.int %7, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"    %9 = torch.aten._set_item.t %4, %1, %8 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
+"    %6 = torch.aten.__is__ %arg1, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
+"    %7 = torch.prim.If %6 -> (!torch.int) {\n"
+"      %11 = torch.aten.__getitem__.t %arg0, %1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %11 : !torch.int\n"
+"    } else {\n"
+"      %11 = torch.prim.unchecked_cast %arg1 : !torch.optional<int> -> !torch.int\n"
+"      torch.prim.If.yield %11 : !torch.int\n"
+"    }\n"
+"    %8 = torch.aten.floordiv.int %7, %int2 : !torch.int, !torch.int -> !torch.int\n"
+"    %9 = torch.aten.add.int %8, %int1 : !torch.int, !torch.int -> !torch.int\n"
+"    %10 = torch.aten._set_item.t %4, %1, %9 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
 "    return %4 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.stft\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.optional<int>, %arg3: !torch.optional<int>, %arg4: !torch.optional<list<int>>, %arg5: !torch.bool, %arg6: !torch.optional<bool>, %arg7: !torch.optional<bool>, %arg8: !torch.optional<bool>) -> !torch.list<int> {\n"
@@ -12621,7 +12638,17 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %14 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.fft_ifft\"(%arg0: !torch.list<int>, %arg1: !torch.optional<int>, %arg2: !torch.int, %arg3: !torch.optional<str>) -> !torch.list<int> {\n"
-"    return %arg0 : !torch.list<int>\n"
+"    %none = torch.constant.none\n"
+"    %0 = call @__torch__.torch.jit._shape_functions._copy(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %1 = torch.aten.__isnot__ %arg1, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
+"    torch.prim.If %1 -> () {\n"
+"      %2 = torch.prim.unchecked_cast %arg1 : !torch.optional<int> -> !torch.int\n"
+"      %3 = torch.aten._set_item.t %0, %arg2, %2 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
+"      torch.prim.If.yield\n"
+"    } else {\n"
+"      torch.prim.If.yield\n"
+"    }\n"
+"    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.bincount\"(%arg0: !torch.list<int>, %arg1: !torch.optional<list<int>>, %arg2: !torch.int) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.hacky_get_unknown_dimension_size() : () -> !torch.int\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 707a233..9ccf140 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2616,7 +2616,10 @@ def aten〇column_stack〡shape(tensors: List[List[int]]) -> List[int]:
     return upstream_shape_functions.cat(tensors2d, dim=1)
 
 def aten〇fft_fft〡shape(self: List[int], n: Optional[int] = None, dim: int = -1, norm: Optional[str] = None) -> List[int]:
-    return self
+    out = upstream_shape_functions._copy(self)
+    if n is not None:
+        out[dim] = n
+    return out
 
 @check_shape_function([
     Invocation(TensorOfShape(3, 9, 5), None, -2, None) # Second-last dim
@@ -2627,7 +2630,8 @@ def aten〇fft_rfft〡shape(self: List[int], n: Optional[int] = None, dim: int =
     out: List[int] = []
     for s in self:
         out.append(s)
-    out[dim] = self[dim] // 2 + 1
+    length = self[dim] if n is None else n
+    out[dim] = length // 2 + 1
     return out
 
 @check_shape_function([
@@ -2693,7 +2697,10 @@ def aten〇stft〇center〡shape(self: List[int], n_fft: int, hop_length: Option
 
 
 def aten〇fft_ifft〡shape(self: List[int], n: Optional[int] = None, dim: int = -1, norm: Optional[str] = None) -> List[int]:
-    return self
+    out = upstream_shape_functions._copy(self)
+    if n is not None:
+        out[dim] = n
+    return out
 
 class DummyClassType:
     def __init__(self):
-- 
2.43.0


From e3d750ab81bbf6f96b86e0577509472e332e7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 057/132] fix: the result of torchvision.nms is a vector

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp       | 5 ++---
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py   | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index c6c9b46..d9a80b7 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -6939,9 +6939,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.torchvision.nms\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.float) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.hacky_get_unknown_dimension_size() : () -> !torch.int\n"
-"    %1 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %2 = torch.prim.ListConstruct %0, %1 : (!torch.int, !torch.int) -> !torch.list<int>\n"
-"    return %2 : !torch.list<int>\n"
+"    %1 = torch.prim.ListConstruct %0 : (!torch.int) -> !torch.list<int>\n"
+"    return %1 : !torch.list<int>\n"
 "  }\n"
 "  func.func @__torch__.hacky_get_unknown_dimension_size() -> !torch.int {\n"
 "    %0 = torch.prim.CreateObject !torch.nn.Module<\"__torch__.DummyClassType\">\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 9ccf140..85f29cc 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -100,7 +100,7 @@ def torchvision〇roi_pool〡dtype(input_rank_dtype: Tuple[int, int], rois_rank_
     return (input_rank_dtype[1], torch.int64) 
 
 def torchvision〇nms〡shape(dets: List[int], scores: List[int], iou_threshold: float) -> List[int]:
-    return [hacky_get_unknown_dimension_size(), len(dets)]
+    return [hacky_get_unknown_dimension_size()]
 
 def torchvision〇nms〡dtype(dets_rank_dtype: Tuple[int, int], scores_rank_dtype: Tuple[int, int], iou_threshold: float) -> int:
     return torch.int
-- 
2.43.0


From bd55b19617d66491263d34bc2d1451af2e8f1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 058/132] fix: three-dimensional pooling accepts an empty batch

The shape functions of max_pool3d, max_pool3d_with_indices and avg_pool3d
rejected an input of batch size 0, which PyTorch pools.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 29 +++++++------------
 .../build_tools/abstract_interp_lib_gen.py    |  3 +-
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index d9a80b7..ae67c90 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8976,37 +8976,30 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      }\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
-"      %20 = torch.aten.__getitem__.t %arg0, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %20 = torch.aten.__getitem__.t %arg0, %int1 : !torch.list<int>, !torch.int -> !torch.int\n"
 "      %21 = torch.aten.ne.int %20, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "      %22 = torch.prim.If %21 -> (!torch.bool) {\n"
-"        %26 = torch.aten.__getitem__.t %arg0, %int1 : !torch.list<int>, !torch.int -> !torch.int\n"
-"        %27 = torch.aten.ne.int %26, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"        torch.prim.If.yield %27 : !torch.bool\n"
+"        %25 = torch.aten.__getitem__.t %arg0, %int2 : !torch.list<int>, !torch.int -> !torch.int\n"
+"        %26 = torch.aten.ne.int %25, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"        torch.prim.If.yield %26 : !torch.bool\n"
 "      } else {\n"
 "        torch.prim.If.yield %false : !torch.bool\n"
 "      }\n"
 "      %23 = torch.prim.If %22 -> (!torch.bool) {\n"
-"        %26 = torch.aten.__getitem__.t %arg0, %int2 : !torch.list<int>, !torch.int -> !torch.int\n"
-"        %27 = torch.aten.ne.int %26, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"        torch.prim.If.yield %27 : !torch.bool\n"
+"        %25 = torch.aten.__getitem__.t %arg0, %int3 : !torch.list<int>, !torch.int -> !torch.int\n"
+"        %26 = torch.aten.ne.int %25, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"        torch.prim.If.yield %26 : !torch.bool\n"
 "      } else {\n"
 "        torch.prim.If.yield %false : !torch.bool\n"
 "      }\n"
 "      %24 = torch.prim.If %23 -> (!torch.bool) {\n"
-"        %26 = torch.aten.__getitem__.t %arg0, %int3 : !torch.list<int>, !torch.int -> !torch.int\n"
-"        %27 = torch.aten.ne.int %26, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"        torch.prim.If.yield %27 : !torch.bool\n"
-"      } else {\n"
-"        torch.prim.If.yield %false : !torch.bool\n"
-"      }\n"
-"      %25 = torch.prim.If %24 -> (!torch.bool) {\n"
-"        %26 = torch.aten.__getitem__.t %arg0, %int4 : !torch.list<int>, !torch.int -> !torch.int\n"
-"        %27 = torch.aten.ne.int %26, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"        torch.prim.If.yield %27 : !torch.bool\n"
+"        %25 = torch.aten.__getitem__.t %arg0, %int4 : !torch.list<int>, !torch.int -> !torch.int\n"
+"        %26 = torch.aten.ne.int %25, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"        torch.prim.If.yield %26 : !torch.bool\n"
 "      } else {\n"
 "        torch.prim.If.yield %false : !torch.bool\n"
 "      }\n"
-"      torch.prim.If %25 -> () {\n"
+"      torch.prim.If %24 -> () {\n"
 "        torch.prim.If.yield\n"
 "      } else {\n"
 "        torch.prim.RaiseException %str_0, %none : !torch.str, !torch.none\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 85f29cc..24778d6 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1103,7 +1103,8 @@ def _pool3d_shape_check(
     if ndim == 4:
         assert input[0] != 0 and input[1] != 0 and input[2] != 0 and input[3] != 0
     else:
-        assert input[0] != 0 and input[1] != 0 and input[2] != 0 and input[3] != 0 and input[4] != 0
+        # The batch may be empty.
+        assert input[1] != 0 and input[2] != 0 and input[3] != 0 and input[4] != 0
 
     assert kD // 2 >= padD and kW // 2 >= padW and kH // 2 >= padH
     assert outputDepth >= 1 and outputWidth >= 1 and outputHeight >= 1
-- 
2.43.0


From 027ff3706b44c4ec29aa376a8e4ce79719e2b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 059/132] fix: adaptive pooling accepts an empty batch

The shape functions of adaptive_avg_pool1d, adaptive_avg_pool3d and
adaptive_max_pool1d/2d/3d rejected an input whose first extent is 0, which
PyTorch pools.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 76 ++++++++++---------
 .../build_tools/abstract_interp_lib_gen.py    |  6 +-
 2 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index ae67c90..d5c0264 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -9333,9 +9333,9 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %4 = torch.prim.If %3 -> (!torch.bool) {\n"
 "      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      %11 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"      %12 = torch.aten.eq.int %11, %int3 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %12 : !torch.bool\n"
+"      %12 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %13 = torch.aten.eq.int %12, %int3 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %13 : !torch.bool\n"
 "    }\n"
 "    torch.prim.If %4 -> () {\n"
 "      torch.prim.If.yield\n"
@@ -9344,11 +9344,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.If.yield\n"
 "    }\n"
 "    %5 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    torch.prim.Loop %5, %true, init() {\n"
+"    %6 = torch.aten.__range_length %int1, %5, %int1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
+"    torch.prim.Loop %6, %true, init() {\n"
 "    ^bb0(%arg2: !torch.int):\n"
-"      %11 = torch.aten.__getitem__.t %arg0, %arg2 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %12 = torch.aten.ne.int %11, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If %12 -> () {\n"
+"      %12 = torch.aten.__derive_index %arg2, %int1, %int1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
+"      %13 = torch.aten.__getitem__.t %arg0, %12 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %14 = torch.aten.ne.int %13, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If %14 -> () {\n"
 "        torch.prim.If.yield\n"
 "      } else {\n"
 "        torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
@@ -9356,18 +9358,18 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      }\n"
 "      torch.prim.Loop.condition %true, iter()\n"
 "    } : (!torch.int, !torch.bool) -> ()\n"
-"    %6 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %7 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %8 = torch.aten.sub.int %7, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"    torch.prim.Loop %8, %true, init() {\n"
+"    %7 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %8 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %9 = torch.aten.sub.int %8, %int1 : !torch.int, !torch.int -> !torch.int\n"
+"    torch.prim.Loop %9, %true, init() {\n"
 "    ^bb0(%arg2: !torch.int):\n"
-"      %11 = torch.aten.__getitem__.t %arg0, %arg2 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %12 = torch.aten.append.t %6, %11 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      %12 = torch.aten.__getitem__.t %arg0, %arg2 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %13 = torch.aten.append.t %7, %12 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.Loop.condition %true, iter()\n"
 "    } : (!torch.int, !torch.bool) -> ()\n"
-"    %9 = torch.aten.__getitem__.t %arg1, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %10 = torch.aten.append.t %6, %9 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
-"    return %6 : !torch.list<int>\n"
+"    %10 = torch.aten.__getitem__.t %arg1, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %11 = torch.aten.append.t %7, %10 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"    return %7 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.avg_pool2d\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.list<int>, %arg4: !torch.bool, %arg5: !torch.bool, %arg6: !torch.optional<int>) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.avg_pool2d(%arg0, %arg1, %arg2, %arg3, %arg4, %arg5, %arg6) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.bool, !torch.optional<int>) -> !torch.list<int>\n"
@@ -9720,10 +9722,10 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %5 = torch.prim.If %4 -> (!torch.bool) {\n"
 "      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      %12 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"      %13 = torch.aten.add.int %arg2, %int2 : !torch.int, !torch.int -> !torch.int\n"
-"      %14 = torch.aten.eq.int %12, %13 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %14 : !torch.bool\n"
+"      %13 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %14 = torch.aten.add.int %arg2, %int2 : !torch.int, !torch.int -> !torch.int\n"
+"      %15 = torch.aten.eq.int %13, %14 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %15 : !torch.bool\n"
 "    }\n"
 "    torch.prim.If %5 -> () {\n"
 "      torch.prim.If.yield\n"
@@ -9732,11 +9734,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.If.yield\n"
 "    }\n"
 "    %6 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    torch.prim.Loop %6, %true, init() {\n"
+"    %7 = torch.aten.__range_length %int1, %6, %int1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
+"    torch.prim.Loop %7, %true, init() {\n"
 "    ^bb0(%arg3: !torch.int):\n"
-"      %12 = torch.aten.__getitem__.t %arg0, %arg3 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %13 = torch.aten.ne.int %12, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If %13 -> () {\n"
+"      %13 = torch.aten.__derive_index %arg3, %int1, %int1 : !torch.int, !torch.int, !torch.int -> !torch.int\n"
+"      %14 = torch.aten.__getitem__.t %arg0, %13 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %15 = torch.aten.ne.int %14, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If %15 -> () {\n"
 "        torch.prim.If.yield\n"
 "      } else {\n"
 "        torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
@@ -9744,24 +9748,24 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      }\n"
 "      torch.prim.Loop.condition %true, iter()\n"
 "    } : (!torch.int, !torch.bool) -> ()\n"
-"    %7 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %8 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %9 = torch.aten.sub.int %8, %arg2 : !torch.int, !torch.int -> !torch.int\n"
-"    torch.prim.Loop %9, %true, init() {\n"
+"    %8 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %9 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %10 = torch.aten.sub.int %9, %arg2 : !torch.int, !torch.int -> !torch.int\n"
+"    torch.prim.Loop %10, %true, init() {\n"
 "    ^bb0(%arg3: !torch.int):\n"
-"      %12 = torch.aten.__getitem__.t %arg0, %arg3 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %13 = torch.aten.append.t %7, %12 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      %13 = torch.aten.__getitem__.t %arg0, %arg3 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %14 = torch.aten.append.t %8, %13 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.Loop.condition %true, iter()\n"
 "    } : (!torch.int, !torch.bool) -> ()\n"
-"    %10 = torch.aten.len.t %arg1 : !torch.list<int> -> !torch.int\n"
-"    torch.prim.Loop %10, %true, init() {\n"
+"    %11 = torch.aten.len.t %arg1 : !torch.list<int> -> !torch.int\n"
+"    torch.prim.Loop %11, %true, init() {\n"
 "    ^bb0(%arg3: !torch.int):\n"
-"      %12 = torch.aten.__getitem__.t %arg1, %arg3 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %13 = torch.aten.append.t %7, %12 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      %13 = torch.aten.__getitem__.t %arg1, %arg3 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %14 = torch.aten.append.t %8, %13 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.Loop.condition %true, iter()\n"
 "    } : (!torch.int, !torch.bool) -> ()\n"
-"    %11 = torch.prim.TupleConstruct %7, %7 : !torch.list<int>, !torch.list<int> -> !torch.tuple<list<int>, list<int>>\n"
-"    return %11 : !torch.tuple<list<int>, list<int>>\n"
+"    %12 = torch.prim.TupleConstruct %8, %8 : !torch.list<int>, !torch.list<int> -> !torch.tuple<list<int>, list<int>>\n"
+"    return %12 : !torch.tuple<list<int>, list<int>>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.adaptive_max_pool2d\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.tuple<list<int>, list<int>> {\n"
 "    %int2 = torch.constant.int 2\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 24778d6..514e319 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1365,7 +1365,8 @@ def adaptive_avg_pool1d(self: List[int], out: List[int]):
     assert len(out) == 1
     assert len(self) == 2 or len(self) == 3
 
-    for i in range(len(self)):
+    # The batch may be empty.
+    for i in range(1, len(self)):
         assert self[i] != 0
 
     shape: List[int] = []
@@ -1401,7 +1402,8 @@ def adaptive_pool(self: List[int], out: List[int], dim: int):
     assert len(out) == dim 
     assert len(self) == dim + 1 or len(self) == dim + 2
 
-    for i in range(len(self)):
+    # The batch may be empty.
+    for i in range(1, len(self)):
         assert self[i] != 0
 
     shape: List[int] = []
-- 
2.43.0


From 7d507aa462c64fc4f263b076da5d152438328572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 060/132] fix: broadcast every batch dimension of
 scaled_dot_product_attention

The shape function broadcast the first dimension alone and took the others,
and the rank, from the query.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 45 ++++++++++---------
 .../build_tools/abstract_interp_lib_gen.py    | 15 ++++---
 2 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index d5c0264..786f7e3 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -10016,27 +10016,30 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.scaled_dot_product_attention\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.optional<list<int>>, %arg4: !torch.float, %arg5: !torch.bool, %arg6: !torch.optional<float>, %arg7: !torch.bool) -> !torch.list<int> {\n"
 "    %int-1 = torch.constant.int -1\n"
-"    %int2 = torch.constant.int 2\n"
-"    %int0 = torch.constant.int 0\n"
-"    %0 = torch.aten.__getitem__.t %arg2, %int-1 : !torch.list<int>, !torch.int -> !torch.int\n"
-"    %1 = torch.aten._set_item.t %arg0, %int-1, %0 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
-"    %2 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %3 = torch.aten.gt.int %2, %int2 : !torch.int, !torch.int -> !torch.bool\n"
-"    torch.prim.If %3 -> () {\n"
-"      %4 = torch.aten.__getitem__.t %arg0, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %5 = torch.prim.ListConstruct %4 : (!torch.int) -> !torch.list<int>\n"
-"      %6 = torch.aten.__getitem__.t %arg1, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %7 = torch.prim.ListConstruct %6 : (!torch.int) -> !torch.list<int>\n"
-"      %8 = torch.aten.__getitem__.t %arg2, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %9 = torch.prim.ListConstruct %8 : (!torch.int) -> !torch.list<int>\n"
-"      %10 = func.call @__torch__.torch.jit._shape_functions.broadcast_three(%5, %7, %9) : (!torch.list<int>, !torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
-"      %11 = torch.aten.__getitem__.t %10, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %12 = torch.aten._set_item.t %arg0, %int0, %11 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
-"      torch.prim.If.yield\n"
-"    } else {\n"
-"      torch.prim.If.yield\n"
-"    }\n"
-"    return %arg0 : !torch.list<int>\n"
+"    %int-2 = torch.constant.int -2\n"
+"    %int-3 = torch.constant.int -3\n"
+"    %none = torch.constant.none\n"
+"    %int1 = torch.constant.int 1\n"
+"    %0 = torch.aten.slice.t %arg1, %none, %int-2, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"    %1 = torch.aten.slice.t %arg2, %none, %int-2, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"    %2:2 = torch.prim.If %arg7 -> (!torch.list<int>, !torch.list<int>) {\n"
+"      %9 = torch.aten.slice.t %arg1, %none, %int-3, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"      %10 = torch.prim.ListConstruct %int1 : (!torch.int) -> !torch.list<int>\n"
+"      %11 = torch.aten.add.t %9, %10 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"      %12 = torch.aten.slice.t %arg2, %none, %int-3, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"      %13 = torch.prim.ListConstruct %int1 : (!torch.int) -> !torch.list<int>\n"
+"      %14 = torch.aten.add.t %12, %13 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"      torch.prim.If.yield %11, %14 : !torch.list<int>, !torch.list<int>\n"
+"    } else {\n"
+"      torch.prim.If.yield %0, %1 : !torch.list<int>, !torch.list<int>\n"
+"    }\n"
+"    %3 = torch.aten.slice.t %arg0, %none, %int-2, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"    %4 = call @__torch__.torch.jit._shape_functions.broadcast_three(%3, %2#0, %2#1) : (!torch.list<int>, !torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"    %5 = torch.aten.__getitem__.t %arg0, %int-2 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %6 = torch.aten.__getitem__.t %arg2, %int-1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %7 = torch.prim.ListConstruct %5, %6 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"    %8 = torch.aten.add.t %4, %7 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"    return %8 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.zeros\"(%arg0: !torch.list<int>, %arg1: !torch.optional<int>, %arg2: !torch.optional<int>, %arg3: !torch.optional<Device>, %arg4: !torch.optional<bool>) -> !torch.list<int> {\n"
 "    return %arg0 : !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 514e319..24f8018 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1513,12 +1513,15 @@ def aten〇_trilinear〡shape(i1: List[int], i2: List[int], i3: List[int], expan
     Invocation(TensorOfShape(1, 2, 8, 4), TensorOfShape(3, 2, 8, 4), TensorOfShape(3, 2, 8, 4)), # Different batch size
 ])
 def aten〇scaled_dot_product_attention〡shape(query: List[int], key: List[int], value: List[int], attn_mask: Optional[List[int]] = None, dropout_p: float = 0., is_causal: bool = False, scale: Optional[float] = None, enable_gqa: bool = False) -> List[int]:
-    outshape = query
-    outshape[-1] = value[-1]
-    # The first dimension of an operand of rank two is no batch.
-    if len(query) > 2:
-        outshape[0] = upstream_shape_functions.broadcast_three([query[0]], [key[0]], [value[0]])[0]
-    return outshape
+    # The dimensions before the last two broadcast. Grouped queries repeat the
+    # heads of the key and the value up to those of the query.
+    key_batch = key[:-2]
+    value_batch = value[:-2]
+    if enable_gqa:
+        key_batch = key[:-3] + [1]
+        value_batch = value[:-3] + [1]
+    batch = upstream_shape_functions.broadcast_three(query[:-2], key_batch, value_batch)
+    return batch + [query[-2], value[-1]]
 
 @check_shape_function([
     Invocation([2, 3]),
-- 
2.43.0


From a68fa5032184a1c099e976e3d8c9e73f4f3f61e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 061/132] fix: count the padding of a centered stft in its
 shape function

A centered stft pads the signal by n_fft // 2 on either side: with an odd
n_fft the number of frames was one too large, and a window wider than the
signal was rejected although it fits the padded one.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 83 +++++++++----------
 .../build_tools/abstract_interp_lib_gen.py    |  9 +-
 2 files changed, 45 insertions(+), 47 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 786f7e3..eb532a4 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -12561,80 +12561,79 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      %21 = torch.prim.unchecked_cast %arg2 : !torch.optional<int> -> !torch.int\n"
 "      torch.prim.If.yield %21 : !torch.int\n"
 "    }\n"
-"    %11 = torch.aten.gt.int %arg1, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"    %12 = torch.prim.If %11 -> (!torch.bool) {\n"
-"      %21 = torch.aten.le.int %arg1, %8 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %21 : !torch.bool\n"
+"    %11 = torch.prim.If %arg5 -> (!torch.int) {\n"
+"      %26 = torch.aten.floordiv.int %arg1, %int2 : !torch.int, !torch.int -> !torch.int\n"
+"      %27 = torch.aten.mul.int %int2, %26 : !torch.int, !torch.int -> !torch.int\n"
+"      %28 = torch.aten.add.int %8, %27 : !torch.int, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %28 : !torch.int\n"
+"    } else {\n"
+"      torch.prim.If.yield %8 : !torch.int\n"
+"    }\n"
+"    %12 = torch.aten.gt.int %arg1, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"    %13 = torch.prim.If %12 -> (!torch.bool) {\n"
+"      %22 = torch.aten.le.int %arg1, %11 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %22 : !torch.bool\n"
 "    } else {\n"
 "      torch.prim.If.yield %false : !torch.bool\n"
 "    }\n"
-"    torch.prim.If %12 -> () {\n"
+"    torch.prim.If %13 -> () {\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.RaiseException %str_0, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %13 = torch.aten.gt.int %10, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"    torch.prim.If %13 -> () {\n"
+"    %14 = torch.aten.gt.int %10, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"    torch.prim.If %14 -> () {\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %14 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %15 = torch.aten.__isnot__ %5, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
-"    torch.prim.If %15 -> () {\n"
-"      %21 = torch.prim.unchecked_cast %5 : !torch.optional<int> -> !torch.int\n"
-"      %22 = torch.aten.append.t %14, %21 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"    %15 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %16 = torch.aten.__isnot__ %5, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
+"    torch.prim.If %16 -> () {\n"
+"      %22 = torch.prim.unchecked_cast %5 : !torch.optional<int> -> !torch.int\n"
+"      %23 = torch.aten.append.t %15, %22 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %16 = torch.aten.__is__ %arg8, %none : !torch.optional<bool>, !torch.none -> !torch.bool\n"
-"    %17 = torch.prim.If %16 -> (!torch.bool) {\n"
+"    %17 = torch.aten.__is__ %arg8, %none : !torch.optional<bool>, !torch.none -> !torch.bool\n"
+"    %18 = torch.prim.If %17 -> (!torch.bool) {\n"
 "      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      %21 = torch.prim.unchecked_cast %arg8 : !torch.optional<bool> -> !torch.bool\n"
-"      %22 = torch.aten.eq.bool %21, %true : !torch.bool, !torch.bool -> !torch.bool\n"
-"      torch.prim.If.yield %22 : !torch.bool\n"
-"    }\n"
-"    torch.prim.If %17 -> () {\n"
-"      %21 = torch.aten.floordiv.int %arg1, %int2 : !torch.int, !torch.int -> !torch.int\n"
-"      %22 = torch.aten.add.int %21, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"      %23 = torch.aten.append.t %14, %22 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
-"      torch.prim.If.yield\n"
-"    } else {\n"
-"      %21 = torch.aten.append.t %14, %arg1 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
-"      torch.prim.If.yield\n"
+"      %22 = torch.prim.unchecked_cast %arg8 : !torch.optional<bool> -> !torch.bool\n"
+"      %23 = torch.aten.eq.bool %22, %true : !torch.bool, !torch.bool -> !torch.bool\n"
+"      torch.prim.If.yield %23 : !torch.bool\n"
 "    }\n"
-"    %18 = torch.aten.eq.bool %arg5, %true : !torch.bool, !torch.bool -> !torch.bool\n"
 "    torch.prim.If %18 -> () {\n"
-"      %21 = torch.aten.floordiv.int %8, %10 : !torch.int, !torch.int -> !torch.int\n"
-"      %22 = torch.aten.add.int %int1, %21 : !torch.int, !torch.int -> !torch.int\n"
-"      %23 = torch.aten.append.t %14, %22 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      %22 = torch.aten.floordiv.int %arg1, %int2 : !torch.int, !torch.int -> !torch.int\n"
+"      %23 = torch.aten.add.int %22, %int1 : !torch.int, !torch.int -> !torch.int\n"
+"      %24 = torch.aten.append.t %15, %23 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
-"      %21 = torch.aten.sub.int %8, %arg1 : !torch.int, !torch.int -> !torch.int\n"
-"      %22 = torch.aten.floordiv.int %21, %10 : !torch.int, !torch.int -> !torch.int\n"
-"      %23 = torch.aten.add.int %int1, %22 : !torch.int, !torch.int -> !torch.int\n"
-"      %24 = torch.aten.append.t %14, %23 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      %22 = torch.aten.append.t %15, %arg1 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %19 = torch.aten.__isnot__ %arg9, %none : !torch.optional<bool>, !torch.none -> !torch.bool\n"
-"    %20 = torch.prim.If %19 -> (!torch.bool) {\n"
-"      %21 = torch.prim.unchecked_cast %arg9 : !torch.optional<bool> -> !torch.bool\n"
-"      %22 = torch.aten.eq.bool %21, %false : !torch.bool, !torch.bool -> !torch.bool\n"
-"      torch.prim.If.yield %22 : !torch.bool\n"
+"    %19 = torch.aten.sub.int %11, %arg1 : !torch.int, !torch.int -> !torch.int\n"
+"    %20 = torch.aten.floordiv.int %19, %10 : !torch.int, !torch.int -> !torch.int\n"
+"    %21 = torch.aten.add.int %int1, %20 : !torch.int, !torch.int -> !torch.int\n"
+"    %22 = torch.aten.append.t %15, %21 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"    %23 = torch.aten.__isnot__ %arg9, %none : !torch.optional<bool>, !torch.none -> !torch.bool\n"
+"    %24 = torch.prim.If %23 -> (!torch.bool) {\n"
+"      %25 = torch.prim.unchecked_cast %arg9 : !torch.optional<bool> -> !torch.bool\n"
+"      %26 = torch.aten.eq.bool %25, %false : !torch.bool, !torch.bool -> !torch.bool\n"
+"      torch.prim.If.yield %26 : !torch.bool\n"
 "    } else {\n"
 "      torch.prim.If.yield %false : !torch.bool\n"
 "    }\n"
-"    torch.prim.If %20 -> () {\n"
-"      %21 = torch.aten.append.t %14, %int2 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"    torch.prim.If %24 -> () {\n"
+"      %25 = torch.aten.append.t %15, %int2 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    return %14 : !torch.list<int>\n"
+"    return %15 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.fft_ifft\"(%arg0: !torch.list<int>, %arg1: !torch.optional<int>, %arg2: !torch.int, %arg3: !torch.optional<str>) -> !torch.list<int> {\n"
 "    %none = torch.constant.none\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 24f8018..2ef4c2e 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2678,6 +2678,9 @@ def aten〇stft〇center〡shape(self: List[int], n_fft: int, hop_length: Option
     batch = None if len(self) == 1 else self[0]
     length = self[0] if len(self) == 1 else self[1]
     hop_length = (n_fft // 4) if hop_length is None else hop_length
+    if center:
+        # The signal is padded by half a window on either side.
+        length = length + 2 * (n_fft // 2)
     assert n_fft > 0 and n_fft <= length, "Expected that 0 < n_fft <= len"
     assert hop_length > 0, "Expected hop_length to be greater than 0"
 
@@ -2690,11 +2693,7 @@ def aten〇stft〇center〡shape(self: List[int], n_fft: int, hop_length: Option
     else:
         out.append(n_fft) # (B?,N,)
 
-    if center is None or center == True:
-        out.append(1 + length // hop_length) #(B?,N,T,)
-    else:
-        out.append(1 + (length - n_fft)//hop_length) #(B?,N,T,)
-
+    out.append(1 + (length - n_fft)//hop_length) #(B?,N,T,)
 
     if return_complex is not None and bool(return_complex) == False:
         out.append(2) # a length-2 dimension of real and imaginary components. This gives output shape (B?,N,T,C?).
-- 
2.43.0


From 7ed7f9ed582720dab53f785ac51909132a5c4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 062/132] fix: the offset2bag of a mean embedding_bag has the
 shape of the indices

The shape function answered [0] in mode "mean", where PyTorch answers the bag
of each index.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 56 +++++++++----------
 .../build_tools/abstract_interp_lib_gen.py    | 10 +---
 2 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index eb532a4..8ca2e6b 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11609,39 +11609,37 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %9 = torch.aten.__getitem__.t %arg0, %int1 : !torch.list<int>, !torch.int -> !torch.int\n"
 "    %10 = torch.aten.append.t %6, %8 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
 "    %11 = torch.aten.append.t %6, %9 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
-"    %12 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %13 = torch.aten.eq.int %arg4, %int1 : !torch.int, !torch.int -> !torch.bool\n"
-"    %14 = torch.prim.If %13 -> (!torch.list<int>) {\n"
-"      %19 = torch.aten.append.t %12, %int0 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
-"      torch.prim.If.yield %12 : !torch.list<int>\n"
+"    %12 = torch.aten.eq.int %arg4, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"    %13 = torch.prim.If %12 -> (!torch.bool) {\n"
+"      %20 = torch.aten.__is__ %arg5, %none : !torch.optional<list<int>>, !torch.none -> !torch.bool\n"
+"      torch.prim.If.yield %20 : !torch.bool\n"
 "    } else {\n"
-"      %19 = torch.aten.__is__ %arg5, %none : !torch.optional<list<int>>, !torch.none -> !torch.bool\n"
-"      %20 = torch.prim.If %19 -> (!torch.bool) {\n"
-"        %22 = torch.aten.__is__ %arg6, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
-"        torch.prim.If.yield %22 : !torch.bool\n"
-"      } else {\n"
-"        torch.prim.If.yield %false : !torch.bool\n"
-"      }\n"
-"      %21 = torch.prim.If %20 -> (!torch.list<int>) {\n"
-"        %22 = torch.prim.ListConstruct %int0 : (!torch.int) -> !torch.list<int>\n"
-"        torch.prim.If.yield %22 : !torch.list<int>\n"
-"      } else {\n"
-"        %22 = func.call @__torch__.torch.jit._shape_functions._copy(%arg1) : (!torch.list<int>) -> !torch.list<int>\n"
-"        torch.prim.If.yield %22 : !torch.list<int>\n"
-"      }\n"
-"      torch.prim.If.yield %21 : !torch.list<int>\n"
+"      torch.prim.If.yield %false : !torch.bool\n"
 "    }\n"
-"    %15 = call @__torch__.torch.jit._shape_functions._copy(%arg2) : (!torch.list<int>) -> !torch.list<int>\n"
-"    %16 = torch.aten.eq.int %arg4, %int2 : !torch.int, !torch.int -> !torch.bool\n"
-"    %17 = torch.prim.If %16 -> (!torch.list<int>) {\n"
-"      %19 = func.call @__torch__.torch.jit._shape_functions._copy(%6) : (!torch.list<int>) -> !torch.list<int>\n"
-"      torch.prim.If.yield %19 : !torch.list<int>\n"
+"    %14 = torch.prim.If %13 -> (!torch.bool) {\n"
+"      %20 = torch.aten.__is__ %arg6, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
+"      torch.prim.If.yield %20 : !torch.bool\n"
 "    } else {\n"
-"      %19 = func.call @__torch__.torch.jit._shape_functions._copy(%arg2) : (!torch.list<int>) -> !torch.list<int>\n"
-"      torch.prim.If.yield %19 : !torch.list<int>\n"
+"      torch.prim.If.yield %false : !torch.bool\n"
+"    }\n"
+"    %15 = torch.prim.If %14 -> (!torch.list<int>) {\n"
+"      %20 = torch.prim.ListConstruct %int0 : (!torch.int) -> !torch.list<int>\n"
+"      torch.prim.If.yield %20 : !torch.list<int>\n"
+"    } else {\n"
+"      %20 = func.call @__torch__.torch.jit._shape_functions._copy(%arg1) : (!torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %20 : !torch.list<int>\n"
+"    }\n"
+"    %16 = call @__torch__.torch.jit._shape_functions._copy(%arg2) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %17 = torch.aten.eq.int %arg4, %int2 : !torch.int, !torch.int -> !torch.bool\n"
+"    %18 = torch.prim.If %17 -> (!torch.list<int>) {\n"
+"      %20 = func.call @__torch__.torch.jit._shape_functions._copy(%6) : (!torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %20 : !torch.list<int>\n"
+"    } else {\n"
+"      %20 = func.call @__torch__.torch.jit._shape_functions._copy(%arg2) : (!torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %20 : !torch.list<int>\n"
 "    }\n"
-"    %18 = torch.prim.TupleConstruct %6, %14, %15, %17 : !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int> -> !torch.tuple<list<int>, list<int>, list<int>, list<int>>\n"
-"    return %18 : !torch.tuple<list<int>, list<int>, list<int>, list<int>>\n"
+"    %19 = torch.prim.TupleConstruct %6, %15, %16, %18 : !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int> -> !torch.tuple<list<int>, list<int>, list<int>, list<int>>\n"
+"    return %19 : !torch.tuple<list<int>, list<int>, list<int>, list<int>>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten._embedding_bag\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.bool, %arg4: !torch.int, %arg5: !torch.bool, %arg6: !torch.optional<list<int>>, %arg7: !torch.bool, %arg8: !torch.int) -> !torch.tuple<list<int>, list<int>, list<int>, list<int>> {\n"
 "    %0 = torch.derefine %arg8 : !torch.int to !torch.optional<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 2ef4c2e..a4bb4e7 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -34,14 +34,10 @@ def _embedding_bag_helper(weight: List[int], indices: List[int],
     output_bag_shape.append(out_dim0)
     output_bag_shape.append(out_dim1)
 
-    offset2bag_shape: List[int] = []
-    if mode == 1:
-        offset2bag_shape.append(0)
+    if mode == 0 and per_sample_weights is None and padding_idx is None:
+        offset2bag_shape = [0]
     else:
-        if per_sample_weights is None and padding_idx is None:
-            offset2bag_shape = [0]
-        else:
-            offset2bag_shape = upstream_shape_functions._copy(indices)
+        offset2bag_shape = upstream_shape_functions._copy(indices)
 
     bag_size_shape = upstream_shape_functions._copy(offsets)
 
-- 
2.43.0


From f98d6d1456c9b83bd6754306fb9abe839d1f3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 063/132] fix: the dimension of a scalar that is unfolded may
 be counted from the end

---
 .../Transforms/AbstractInterpLibrary.cpp      | 24 ++++++++++++-------
 .../build_tools/abstract_interp_lib_gen.py    |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 8ca2e6b..9a04af2 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -18177,6 +18177,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %2 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.unfold\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.int, %arg3: !torch.int) -> !torch.list<int> {\n"
+"    %int-1 = torch.constant.int -1\n"
+"    %true = torch.constant.bool true\n"
 "    %str = torch.constant.str \"size must be less than or equal to {}\"\n"
 "    %false = torch.constant.bool false\n"
 "    %str_0 = torch.constant.str \"AssertionError: size must be less than or equal to 1\"\n"
@@ -18189,23 +18191,29 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %1 = torch.aten.eq.int %0, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %2 = torch.prim.If %1 -> (!torch.list<int>) {\n"
 "      %3 = torch.aten.eq.int %arg1, %int0 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If %3 -> () {\n"
+"      %4 = torch.prim.If %3 -> (!torch.bool) {\n"
+"        torch.prim.If.yield %true : !torch.bool\n"
+"      } else {\n"
+"        %7 = torch.aten.eq.int %arg1, %int-1 : !torch.int, !torch.int -> !torch.bool\n"
+"        torch.prim.If.yield %7 : !torch.bool\n"
+"      }\n"
+"      torch.prim.If %4 -> () {\n"
 "        torch.prim.If.yield\n"
 "      } else {\n"
-"        %6 = torch.aten.format(%str_2, %0) : !torch.str, !torch.int -> !torch.str\n"
-"        %7 = torch.aten.add.str %str_1, %6 : !torch.str, !torch.str -> !torch.str\n"
-"        torch.prim.RaiseException %7, %none : !torch.str, !torch.none\n"
+"        %7 = torch.aten.format(%str_2, %0) : !torch.str, !torch.int -> !torch.str\n"
+"        %8 = torch.aten.add.str %str_1, %7 : !torch.str, !torch.str -> !torch.str\n"
+"        torch.prim.RaiseException %8, %none : !torch.str, !torch.none\n"
 "        torch.prim.If.yield\n"
 "      }\n"
-"      %4 = torch.aten.le.int %arg2, %int1 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If %4 -> () {\n"
+"      %5 = torch.aten.le.int %arg2, %int1 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If %5 -> () {\n"
 "        torch.prim.If.yield\n"
 "      } else {\n"
 "        torch.prim.RaiseException %str_0, %none : !torch.str, !torch.none\n"
 "        torch.prim.If.yield\n"
 "      }\n"
-"      %5 = torch.prim.ListConstruct %arg2 : (!torch.int) -> !torch.list<int>\n"
-"      torch.prim.If.yield %5 : !torch.list<int>\n"
+"      %6 = torch.prim.ListConstruct %arg2 : (!torch.int) -> !torch.list<int>\n"
+"      torch.prim.If.yield %6 : !torch.list<int>\n"
 "    } else {\n"
 "      %3 = torch.aten.lt.int %arg1, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "      %4 = torch.prim.If %3 -> (!torch.int) {\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index a4bb4e7..2ef897f 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -6482,7 +6482,7 @@ def aten〇unfold〡shape(self: List[int], dimension: int, size: int, step: int)
 
     # Rank zero tensor
     if ndim == 0:
-        assert dimension == 0, f"dimension out of range of {ndim}"
+        assert dimension == 0 or dimension == -1, f"dimension out of range of {ndim}"
         assert size <= 1, "size must be less than or equal to 1"
         return [size]
 
-- 
2.43.0


From 8c7eb0d92b72f11b10704bf87e10830cd6b9786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 064/132] fix: one-dimensional pooling rejects a window that
 does not fit

The shape functions of max_pool1d and avg_pool1d answered an extent of 0 or
less, where PyTorch (and their two- and three-dimensional siblings) reject.
---
 .../Transforms/AbstractInterpLibrary.cpp      | 43 +++++++++++--------
 .../build_tools/abstract_interp_lib_gen.py    |  1 +
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 9a04af2..8df1364 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -9226,9 +9226,9 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %5 = torch.prim.If %4 -> (!torch.bool) {\n"
 "      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      %27 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
-"      %28 = torch.aten.eq.int %27, %int1 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %28 : !torch.bool\n"
+"      %28 = torch.aten.len.t %arg2 : !torch.list<int> -> !torch.int\n"
+"      %29 = torch.aten.eq.int %28, %int1 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %29 : !torch.bool\n"
 "    }\n"
 "    torch.prim.If %5 -> () {\n"
 "      torch.prim.If.yield\n"
@@ -9241,8 +9241,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %8 = torch.prim.If %7 -> (!torch.int) {\n"
 "      torch.prim.If.yield %2 : !torch.int\n"
 "    } else {\n"
-"      %27 = torch.aten.__getitem__.t %arg2, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      torch.prim.If.yield %27 : !torch.int\n"
+"      %28 = torch.aten.__getitem__.t %arg2, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %28 : !torch.int\n"
 "    }\n"
 "    %9 = torch.aten.len.t %arg3 : !torch.list<int> -> !torch.int\n"
 "    %10 = torch.aten.eq.int %9, %int1 : !torch.int, !torch.int -> !torch.bool\n"
@@ -9267,9 +9267,9 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %17 = torch.prim.If %16 -> (!torch.bool) {\n"
 "      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      %27 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"      %28 = torch.aten.eq.int %27, %int3 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %28 : !torch.bool\n"
+"      %28 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %29 = torch.aten.eq.int %28, %int3 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %29 : !torch.bool\n"
 "    }\n"
 "    torch.prim.If %17 -> () {\n"
 "      torch.prim.If.yield\n"
@@ -9280,24 +9280,31 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %18 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
 "    %19 = torch.aten.eq.int %18, %int3 : !torch.int, !torch.int -> !torch.bool\n"
 "    %20 = torch.prim.If %19 -> (!torch.int) {\n"
-"      %27 = torch.aten.__getitem__.t %arg0, %int-3 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      torch.prim.If.yield %27 : !torch.int\n"
+"      %28 = torch.aten.__getitem__.t %arg0, %int-3 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %28 : !torch.int\n"
 "    } else {\n"
 "      torch.prim.If.yield %int1 : !torch.int\n"
 "    }\n"
 "    %21 = torch.aten.__getitem__.t %arg0, %int-2 : !torch.list<int>, !torch.int -> !torch.int\n"
 "    %22 = torch.aten.__getitem__.t %arg0, %int-1 : !torch.list<int>, !torch.int -> !torch.int\n"
 "    %23 = call @__torch__.torch.jit._shape_functions.pooling_output_shape(%22, %2, %11, %8, %14, %arg5) : (!torch.int, !torch.int, !torch.int, !torch.int, !torch.int, !torch.bool) -> !torch.int\n"
-"    %24 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %25 = torch.aten.eq.int %24, %int2 : !torch.int, !torch.int -> !torch.bool\n"
-"    %26 = torch.prim.If %25 -> (!torch.list<int>) {\n"
-"      %27 = torch.prim.ListConstruct %21, %23 : (!torch.int, !torch.int) -> !torch.list<int>\n"
-"      torch.prim.If.yield %27 : !torch.list<int>\n"
+"    %24 = torch.aten.ge.int %23, %int1 : !torch.int, !torch.int -> !torch.bool\n"
+"    torch.prim.If %24 -> () {\n"
+"      torch.prim.If.yield\n"
 "    } else {\n"
-"      %27 = torch.prim.ListConstruct %20, %21, %23 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
-"      torch.prim.If.yield %27 : !torch.list<int>\n"
+"      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
+"      torch.prim.If.yield\n"
 "    }\n"
-"    return %26 : !torch.list<int>\n"
+"    %25 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"    %26 = torch.aten.eq.int %25, %int2 : !torch.int, !torch.int -> !torch.bool\n"
+"    %27 = torch.prim.If %26 -> (!torch.list<int>) {\n"
+"      %28 = torch.prim.ListConstruct %21, %23 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"      torch.prim.If.yield %28 : !torch.list<int>\n"
+"    } else {\n"
+"      %28 = torch.prim.ListConstruct %20, %21, %23 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"      torch.prim.If.yield %28 : !torch.list<int>\n"
+"    }\n"
+"    return %27 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.max_pool1d\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.bool) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.pool1d(%arg0, %arg1, %arg2, %arg3, %arg4, %arg5) : (!torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool) -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 2ef897f..bfd413e 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1349,6 +1349,7 @@ def pool1d(input: List[int], kernel_size: List[int], stride: List[int], padding:
 
   outputLength = upstream_shape_functions.pooling_output_shape(
     inputLength, kL, padL, dL, dilationL, ceil_mode)
+  assert outputLength >= 1
 
   if len(input) == 2:
     return [nInputPlane, outputLength]
-- 
2.43.0


From a02e4c262e83a81aa2e04a538935e33565a9239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 065/132] fix: the pivots of _linalg_det are 32-bit integers

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp      | 6 +++---
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py  | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 8df1364..8b281b0 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -7249,12 +7249,12 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %2 : !torch.tuple<list<int>, list<int>, list<int>>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten._linalg_det\"(%arg0: !torch.tuple<int, int>) -> !torch.tuple<int, int, int> {\n"
+"    %int3 = torch.constant.int 3\n"
 "    %int1 = torch.constant.int 1\n"
 "    %0 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
 "    %1 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
-"    %2 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
-"    %3 = torch.prim.TupleConstruct %0, %1, %2 : !torch.int, !torch.int, !torch.int -> !torch.tuple<int, int, int>\n"
-"    return %3 : !torch.tuple<int, int, int>\n"
+"    %2 = torch.prim.TupleConstruct %0, %1, %int3 : !torch.int, !torch.int, !torch.int -> !torch.tuple<int, int, int>\n"
+"    return %2 : !torch.tuple<int, int, int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.linalg_slogdet\"(%arg0: !torch.list<int>) -> !torch.tuple<list<int>, list<int>> {\n"
 "    %int-2 = torch.constant.int -2\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index bfd413e..cc10223 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -261,7 +261,8 @@ def aten〇_linalg_det〡shape(A: List[int]) -> Tuple[List[int], List[int], List
     return (aten〇linalg_det〡shape(A), A, A[:-1])
 
 def aten〇_linalg_det〡dtype(A_rank_dtype: Tuple[int, int]) -> Tuple[int, int, int]:
-    return (A_rank_dtype[1], A_rank_dtype[1], A_rank_dtype[1])
+    # The pivots of the LU decomposition are indices.
+    return (A_rank_dtype[1], A_rank_dtype[1], torch.int32)
 
 def aten〇linalg_slogdet〡shape(A: List[int]) -> Tuple[List[int], List[int]]:
     assert len(A) == 2 or len(A) == 3
-- 
2.43.0


From 4e791fe68d079dbfb0fc68793e319289b8d173fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 066/132] fix: the variance of a complex tensor along dims is
 real

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp      | 6 +++---
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py  | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 8b281b0..efdf024 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8099,9 +8099,9 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %2 : !torch.tuple<list<int>, list<int>>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.var_mean.dim\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.optional<list<int>>, %arg2: !torch.bool, %arg3: !torch.bool) -> !torch.tuple<int, int> {\n"
-"    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
-"    %1 = torch.prim.TupleConstruct %0#1, %0#1 : !torch.int, !torch.int -> !torch.tuple<int, int>\n"
-"    return %1 : !torch.tuple<int, int>\n"
+"    %true = torch.constant.bool true\n"
+"    %0 = call @\"__torch_mlir_dtype_fn.aten.var_mean\"(%arg0, %true) : (!torch.tuple<int, int>, !torch.bool) -> !torch.tuple<int, int>\n"
+"    return %0 : !torch.tuple<int, int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.var_mean\"(%arg0: !torch.list<int>, %arg1: !torch.bool) -> !torch.tuple<list<int>, list<int>> {\n"
 "    %0 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index cc10223..6706592 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -736,8 +736,7 @@ def aten〇var_mean〇dim〡shape(self: List[int], dim: Optional[List[int]], unb
     return out, out
 
 def aten〇var_mean〇dim〡dtype(self_rank_dtype: Tuple[int, int], dim: Optional[List[int]], unbiased: bool = True, keepdim: bool = False) -> Tuple[int, int]:
-    _, self_dtype = self_rank_dtype
-    return self_dtype, self_dtype
+    return aten〇var_mean〡dtype(self_rank_dtype)
 
 def aten〇var_mean〡shape(self: List[int], unbiased: bool = True) -> Tuple[List[int], List[int]]:
     return [], []
-- 
2.43.0


From 95baa727692b166e325f3a6d3da47429cf4f2e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 067/132] fix: aten.real of a tensor that is not complex has
 its dtype

---
 .../Transforms/AbstractInterpLibrary.cpp      | 20 +++++++++++++++----
 .../build_tools/abstract_interp_lib_gen.py    |  5 ++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index efdf024..6ed6fa2 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11019,10 +11019,22 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.real\"(%arg0: !torch.tuple<int, int>) -> !torch.int {\n"
-"    %int1 = torch.constant.int 1\n"
-"    %0 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
-"    %1 = call @__torch__.complex_to_float(%0) : (!torch.int) -> !torch.int\n"
-"    return %1 : !torch.int\n"
+"    %true = torch.constant.bool true\n"
+"    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
+"    %1 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_float_dtype(%0#1) : (!torch.int) -> !torch.bool\n"
+"    %2 = torch.prim.If %1 -> (!torch.bool) {\n"
+"      torch.prim.If.yield %true : !torch.bool\n"
+"    } else {\n"
+"      %4 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%0#1) : (!torch.int) -> !torch.bool\n"
+"      torch.prim.If.yield %4 : !torch.bool\n"
+"    }\n"
+"    %3 = torch.prim.If %2 -> (!torch.int) {\n"
+"      torch.prim.If.yield %0#1 : !torch.int\n"
+"    } else {\n"
+"      %4 = func.call @__torch__.complex_to_float(%0#1) : (!torch.int) -> !torch.int\n"
+"      torch.prim.If.yield %4 : !torch.int\n"
+"    }\n"
+"    return %3 : !torch.int\n"
 "  }\n"
 "  func.func @__torch__.complex_to_float(%arg0: !torch.int) -> !torch.int {\n"
 "    %none = torch.constant.none\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 6706592..2a6aed8 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2031,7 +2031,10 @@ def aten〇imag〡shape(self: List[int]) -> List[int]:
     return upstream_shape_functions.unary(self)
 
 def aten〇real〡dtype(self_rank_dtype: Tuple[int, int]) -> int:
-    return complex_to_float(self_rank_dtype[1])
+    self_rank, self_dtype = self_rank_dtype
+    if is_float_dtype(self_dtype) or is_integer_dtype(self_dtype):
+        return self_dtype
+    return complex_to_float(self_dtype)
 
 def aten〇imag〡dtype(self_rank_dtype: Tuple[int, int]) -> int:
     return complex_to_float(self_rank_dtype[1])
-- 
2.43.0


From 5aae2e83c130c88d471d4ef5d36a612a431c295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 068/132] fix: aten.polar of half precision tensors is
 complex32

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp | 10 +++++++++-
 .../build_tools/abstract_interp_lib_gen.py             |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 6ed6fa2..9ebed66 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -13262,6 +13262,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %3 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.polar\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>) -> !torch.int {\n"
+"    %int8 = torch.constant.int 8\n"
+"    %int5 = torch.constant.int 5\n"
 "    %int9 = torch.constant.int 9\n"
 "    %int6 = torch.constant.int 6\n"
 "    %int10 = torch.constant.int 10\n"
@@ -13288,7 +13290,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      %8:2 = torch.prim.If %7 -> (!torch.bool, !torch.int) {\n"
 "        torch.prim.If.yield %true, %int9 : !torch.bool, !torch.int\n"
 "      } else {\n"
-"        torch.prim.If.yield %false, %0 : !torch.bool, !torch.int\n"
+"        %9 = torch.aten.eq.int %1#1, %int5 : !torch.int, !torch.int -> !torch.bool\n"
+"        %10:2 = torch.prim.If %9 -> (!torch.bool, !torch.int) {\n"
+"          torch.prim.If.yield %true, %int8 : !torch.bool, !torch.int\n"
+"        } else {\n"
+"          torch.prim.If.yield %false, %0 : !torch.bool, !torch.int\n"
+"        }\n"
+"        torch.prim.If.yield %10#0, %10#1 : !torch.bool, !torch.int\n"
 "      }\n"
 "      torch.prim.If.yield %8#0, %8#1 : !torch.bool, !torch.int\n"
 "    }\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 2a6aed8..33d90c3 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -3165,6 +3165,8 @@ def aten〇polar〡dtype(abs_rank_dtype: Tuple[int, int], angle_rank_dtype: Tupl
         return torch.complex128
     elif abs_dtype == torch.float32:
         return torch.complex64
+    elif abs_dtype == torch.float16:
+        return torch.complex32
     return abs_dtype
 
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=1))
-- 
2.43.0


From bfb5d16ac4b8517cf83b0052aa935e6aed6e587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 069/132] fix: clamping by a number promotes to the dtype of
 the number's kind

---
 .../Transforms/AbstractInterpLibrary.cpp      | 60 +++++++++++--------
 .../build_tools/abstract_interp_lib_gen.py    | 24 +++++---
 2 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 9ebed66..f1fa1f3 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -13723,28 +13723,22 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0#1 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.clamp_max\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.number) -> !torch.int {\n"
-"    %int4 = torch.constant.int 4\n"
-"    %int11 = torch.constant.int 11\n"
+"    %none = torch.constant.none\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
-"    %1 = torch.aten.eq.int %0#1, %int11 : !torch.int, !torch.int -> !torch.bool\n"
-"    %2 = torch.prim.If %1 -> (!torch.int) {\n"
-"      torch.prim.If.yield %int4 : !torch.int\n"
-"    } else {\n"
-"      torch.prim.If.yield %0#1 : !torch.int\n"
-"    }\n"
-"    return %2 : !torch.int\n"
+"    %1 = torch.prim.ListConstruct %0#0, %none : (!torch.int, !torch.none) -> !torch.list<optional<int>>\n"
+"    %2 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%arg1) : (!torch.number) -> !torch.int\n"
+"    %3 = torch.prim.ListConstruct %0#1, %2 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"    %4 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%1, %3) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
+"    return %4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.clamp_min\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.number) -> !torch.int {\n"
-"    %int4 = torch.constant.int 4\n"
-"    %int11 = torch.constant.int 11\n"
+"    %none = torch.constant.none\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
-"    %1 = torch.aten.eq.int %0#1, %int11 : !torch.int, !torch.int -> !torch.bool\n"
-"    %2 = torch.prim.If %1 -> (!torch.int) {\n"
-"      torch.prim.If.yield %int4 : !torch.int\n"
-"    } else {\n"
-"      torch.prim.If.yield %0#1 : !torch.int\n"
-"    }\n"
-"    return %2 : !torch.int\n"
+"    %1 = torch.prim.ListConstruct %0#0, %none : (!torch.int, !torch.none) -> !torch.list<optional<int>>\n"
+"    %2 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%arg1) : (!torch.number) -> !torch.int\n"
+"    %3 = torch.prim.ListConstruct %0#1, %2 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"    %4 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%1, %3) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
+"    return %4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.clamp_min.Tensor\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>) -> !torch.int {\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
@@ -13759,16 +13753,32 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.clamp\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.optional<number>, %arg2: !torch.optional<number>) -> !torch.int {\n"
-"    %int4 = torch.constant.int 4\n"
-"    %int11 = torch.constant.int 11\n"
+"    %none = torch.constant.none\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
-"    %1 = torch.aten.eq.int %0#1, %int11 : !torch.int, !torch.int -> !torch.bool\n"
-"    %2 = torch.prim.If %1 -> (!torch.int) {\n"
-"      torch.prim.If.yield %int4 : !torch.int\n"
+"    %1 = torch.prim.ListConstruct %0#0 : (!torch.int) -> !torch.list<optional<int>>\n"
+"    %2 = torch.prim.ListConstruct %0#1 : (!torch.int) -> !torch.list<int>\n"
+"    %3 = torch.aten.__isnot__ %arg1, %none : !torch.optional<number>, !torch.none -> !torch.bool\n"
+"    torch.prim.If %3 -> () {\n"
+"      %6 = torch.prim.unchecked_cast %arg1 : !torch.optional<number> -> !torch.number\n"
+"      %7 = torch.aten.append.t %1, %none : !torch.list<optional<int>>, !torch.none -> !torch.list<optional<int>>\n"
+"      %8 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%6) : (!torch.number) -> !torch.int\n"
+"      %9 = torch.aten.append.t %2, %8 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      torch.prim.If.yield\n"
 "    } else {\n"
-"      torch.prim.If.yield %0#1 : !torch.int\n"
+"      torch.prim.If.yield\n"
 "    }\n"
-"    return %2 : !torch.int\n"
+"    %4 = torch.aten.__isnot__ %arg2, %none : !torch.optional<number>, !torch.none -> !torch.bool\n"
+"    torch.prim.If %4 -> () {\n"
+"      %6 = torch.prim.unchecked_cast %arg2 : !torch.optional<number> -> !torch.number\n"
+"      %7 = torch.aten.append.t %1, %none : !torch.list<optional<int>>, !torch.none -> !torch.list<optional<int>>\n"
+"      %8 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%6) : (!torch.number) -> !torch.int\n"
+"      %9 = torch.aten.append.t %2, %8 : !torch.list<int>, !torch.int -> !torch.list<int>\n"
+"      torch.prim.If.yield\n"
+"    } else {\n"
+"      torch.prim.If.yield\n"
+"    }\n"
+"    %5 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%1, %2) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
+"    return %5 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.clamp.Tensor\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.optional<tuple<int, int>>, %arg2: !torch.optional<tuple<int, int>>) -> !torch.int {\n"
 "    %none = torch.constant.none\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 33d90c3..25d25e8 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -3402,16 +3402,16 @@ def aten〇fix〡dtype(self_rank_dtype: Tuple[int, int]) -> int:
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=1, max=0))
 def aten〇clamp_max〡dtype(self_rank_dtype: Tuple[int, int], max: Union[int, float, complex]) -> int:
     self_rank, self_dtype = self_rank_dtype
-    if self_dtype == torch.bool:
-        return torch.int64
-    return self_dtype
+    ranks: List[Optional[int]] = [self_rank, None]
+    dtypes = [self_dtype, get_dtype_of_scalar(max)]
+    return promote_dtypes(ranks, dtypes)
 
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=1, min=0))
 def aten〇clamp_min〡dtype(self_rank_dtype: Tuple[int, int], min: Union[int, float, complex]) -> int:
     self_rank, self_dtype = self_rank_dtype
-    if self_dtype == torch.bool:
-        return torch.int64
-    return self_dtype
+    ranks: List[Optional[int]] = [self_rank, None]
+    dtypes = [self_dtype, get_dtype_of_scalar(min)]
+    return promote_dtypes(ranks, dtypes)
 
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=2))
 def aten〇clamp_min〇Tensor〡dtype(self_rank_dtype: Tuple[int, int], min_rank_dtype: Tuple[int, int]) -> int:
@@ -3425,9 +3425,15 @@ def aten〇clamp_min〇Tensor〡dtype(self_rank_dtype: Tuple[int, int], min_rank
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=1, min=-1, max=1))
 def aten〇clamp〡dtype(self_rank_dtype: Tuple[int, int], min: Optional[Union[int, float, complex]] = None, max: Optional[Union[int, float, complex]] = None) -> int:
     self_rank, self_dtype = self_rank_dtype
-    if self_dtype == torch.bool:
-        return torch.int64
-    return self_dtype
+    ranks: List[Optional[int]] = [self_rank]
+    dtypes = [self_dtype]
+    if min is not None:
+        ranks.append(None)
+        dtypes.append(get_dtype_of_scalar(min))
+    if max is not None:
+        ranks.append(None)
+        dtypes.append(get_dtype_of_scalar(max))
+    return promote_dtypes(ranks, dtypes)
 
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=3))
 def aten〇clamp〇Tensor〡dtype(self_rank_dtype: Tuple[int, int], min_rank_dtype: Optional[Tuple[int, int]] = None, max_rank_dtype: Optional[Tuple[int, int]] = None) -> int:
-- 
2.43.0


From c38b3339af50cbfb95b6c7a87fe7a7396add62ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 070/132] fix: logaddexp and logaddexp2 promote their operands

---
 .../Transforms/AbstractInterpLibrary.cpp      | 30 +++++++++----------
 .../build_tools/abstract_interp_lib_gen.py    | 15 +++++++---
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index f1fa1f3..aec377d 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -14167,24 +14167,20 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  func.func @\"__torch_mlir_dtype_fn.aten.logaddexp\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>) -> !torch.int {\n"
 "    %none = torch.constant.none\n"
 "    %str = torch.constant.str \"AssertionError: \"\n"
-"    %false = torch.constant.bool false\n"
 "    %int11 = torch.constant.int 11\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
 "    %1:2 = torch.prim.TupleUnpack %arg1 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
-"    %2 = torch.aten.ne.int %0#1, %int11 : !torch.int, !torch.int -> !torch.bool\n"
-"    %3 = torch.prim.If %2 -> (!torch.bool) {\n"
-"      %4 = torch.aten.ne.int %1#1, %int11 : !torch.int, !torch.int -> !torch.bool\n"
-"      torch.prim.If.yield %4 : !torch.bool\n"
-"    } else {\n"
-"      torch.prim.If.yield %false : !torch.bool\n"
-"    }\n"
-"    torch.prim.If %3 -> () {\n"
+"    %2 = torch.prim.ListConstruct %0#0, %1#0 : (!torch.int, !torch.int) -> !torch.list<optional<int>>\n"
+"    %3 = torch.prim.ListConstruct %0#1, %1#1 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"    %4 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%2, %3) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
+"    %5 = torch.aten.ne.int %4, %int11 : !torch.int, !torch.int -> !torch.bool\n"
+"    torch.prim.If %5 -> () {\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    return %0#1 : !torch.int\n"
+"    return %4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.logaddexp2\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>) -> !torch.int {\n"
 "    %none = torch.constant.none\n"
@@ -14194,16 +14190,20 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %int8 = torch.constant.int 8\n"
 "    %int11 = torch.constant.int 11\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
-"    %1 = torch.prim.ListConstruct %int11, %int8, %int9, %int10 : (!torch.int, !torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
-"    %2 = torch.aten.__contains__.int_list %1, %0#1 : !torch.list<int>, !torch.int -> !torch.bool\n"
-"    %3 = torch.aten.__not__ %2 : !torch.bool -> !torch.bool\n"
-"    torch.prim.If %3 -> () {\n"
+"    %1:2 = torch.prim.TupleUnpack %arg1 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
+"    %2 = torch.prim.ListConstruct %0#0, %1#0 : (!torch.int, !torch.int) -> !torch.list<optional<int>>\n"
+"    %3 = torch.prim.ListConstruct %0#1, %1#1 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"    %4 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%2, %3) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
+"    %5 = torch.prim.ListConstruct %int11, %int8, %int9, %int10 : (!torch.int, !torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    %6 = torch.aten.__contains__.int_list %5, %4 : !torch.list<int>, !torch.int -> !torch.bool\n"
+"    %7 = torch.aten.__not__ %6 : !torch.bool -> !torch.bool\n"
+"    torch.prim.If %7 -> () {\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    return %0#1 : !torch.int\n"
+"    return %4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.masked_fill.Scalar\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.number) -> !torch.int {\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 25d25e8..8e22f89 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -3784,14 +3784,21 @@ def aten〇_log_softmax_backward_data〡dtype(grad_output_rank_dtype: Tuple[int,
 def aten〇logaddexp〡dtype(self_rank_dtype: Tuple[int, int], other_rank_dtype: Tuple[int, int]) -> int:
     self_rank, self_dtype = self_rank_dtype
     other_rank, other_dtype = other_rank_dtype
-    assert self_dtype != torch.bool and other_dtype != torch.bool
-    return self_dtype
+    ranks: List[Optional[int]] = [self_rank, other_rank]
+    dtypes = [self_dtype, other_dtype]
+    promoted_dtype = promote_dtypes(ranks, dtypes)
+    assert promoted_dtype != torch.bool
+    return promoted_dtype
 
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=2, error_types={torch.bool, torch.complex32, torch.complex64, torch.complex128}))
 def aten〇logaddexp2〡dtype(self_rank_dtype: Tuple[int, int], other_rank_dtype: Tuple[int, int]) -> int:
     self_rank, self_dtype = self_rank_dtype
-    assert self_dtype not in [torch.bool, torch.complex32, torch.complex64, torch.complex128]
-    return self_dtype
+    other_rank, other_dtype = other_rank_dtype
+    ranks: List[Optional[int]] = [self_rank, other_rank]
+    dtypes = [self_dtype, other_dtype]
+    promoted_dtype = promote_dtypes(ranks, dtypes)
+    assert promoted_dtype not in [torch.bool, torch.complex32, torch.complex64, torch.complex128]
+    return promoted_dtype
 
 @check_dtype_function(_check_tensors_with_the_same_dtype(None, [(3,)], None, None, TensorOfShape(1, dtype=torch.bool), 0))
 def aten〇masked_fill〇Scalar〡dtype(self_rank_dtype: Tuple[int, int], mask_rank_dtype: Tuple[int, int], value: Union[int, float, complex]) -> int:
-- 
2.43.0


From 988b739696505819bd4578d00dc1dc7587925a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 071/132] fix: ldexp of double precision and complex operands
 is complex128

---
 .../Transforms/AbstractInterpLibrary.cpp      | 35 +++----------------
 .../build_tools/abstract_interp_lib_gen.py    |  6 +---
 2 files changed, 6 insertions(+), 35 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index aec377d..edf5873 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -15349,47 +15349,22 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  func.func @\"__torch_mlir_dtype_fn.aten.ldexp.Tensor\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>) -> !torch.int {\n"
 "    %int6 = torch.constant.int 6\n"
 "    %false = torch.constant.bool false\n"
-"    %int7 = torch.constant.int 7\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
 "    %1:2 = torch.prim.TupleUnpack %arg1 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
 "    %2 = torch.prim.ListConstruct %0#0, %1#0 : (!torch.int, !torch.int) -> !torch.list<optional<int>>\n"
 "    %3 = torch.prim.ListConstruct %0#1, %1#1 : (!torch.int, !torch.int) -> !torch.list<int>\n"
-"    %4 = torch.aten.eq.int %0#1, %int7 : !torch.int, !torch.int -> !torch.bool\n"
+"    %4 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%0#1) : (!torch.int) -> !torch.bool\n"
 "    %5 = torch.prim.If %4 -> (!torch.bool) {\n"
-"      %7 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%1#1) : (!torch.int) -> !torch.bool\n"
+"      %7 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%1#1) : (!torch.int) -> !torch.bool\n"
 "      torch.prim.If.yield %7 : !torch.bool\n"
 "    } else {\n"
 "      torch.prim.If.yield %false : !torch.bool\n"
 "    }\n"
 "    %6 = torch.prim.If %5 -> (!torch.int) {\n"
-"      torch.prim.If.yield %1#1 : !torch.int\n"
+"      torch.prim.If.yield %int6 : !torch.int\n"
 "    } else {\n"
-"      %7 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%0#1) : (!torch.int) -> !torch.bool\n"
-"      %8 = torch.prim.If %7 -> (!torch.bool) {\n"
-"        %10 = torch.aten.eq.int %1#1, %int7 : !torch.int, !torch.int -> !torch.bool\n"
-"        torch.prim.If.yield %10 : !torch.bool\n"
-"      } else {\n"
-"        torch.prim.If.yield %false : !torch.bool\n"
-"      }\n"
-"      %9 = torch.prim.If %8 -> (!torch.int) {\n"
-"        torch.prim.If.yield %0#1 : !torch.int\n"
-"      } else {\n"
-"        %10 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%0#1) : (!torch.int) -> !torch.bool\n"
-"        %11 = torch.prim.If %10 -> (!torch.bool) {\n"
-"          %13 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%1#1) : (!torch.int) -> !torch.bool\n"
-"          torch.prim.If.yield %13 : !torch.bool\n"
-"        } else {\n"
-"          torch.prim.If.yield %false : !torch.bool\n"
-"        }\n"
-"        %12 = torch.prim.If %11 -> (!torch.int) {\n"
-"          torch.prim.If.yield %int6 : !torch.int\n"
-"        } else {\n"
-"          %13 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%2, %3) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
-"          torch.prim.If.yield %13 : !torch.int\n"
-"        }\n"
-"        torch.prim.If.yield %12 : !torch.int\n"
-"      }\n"
-"      torch.prim.If.yield %9 : !torch.int\n"
+"      %7 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%2, %3) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
+"      torch.prim.If.yield %7 : !torch.int\n"
 "    }\n"
 "    return %6 : !torch.int\n"
 "  }\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 8e22f89..65aad2b 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -4553,11 +4553,7 @@ def aten〇ldexp〇Tensor〡dtype(self_rank_dtype: Tuple[int, int], other_rank_d
     other_rank, other_dtype = other_rank_dtype
     ranks: List[Optional[int]] = [self_rank, other_rank]
     dtypes = [self_dtype, other_dtype]
-    if self_dtype == torch.double and is_complex_dtype(other_dtype):
-        return other_dtype
-    elif is_complex_dtype(self_dtype) and other_dtype == torch.double:
-        return self_dtype
-    elif is_integer_dtype(self_dtype) and is_integer_dtype(other_dtype):
+    if is_integer_dtype(self_dtype) and is_integer_dtype(other_dtype):
         return torch.float
     else:
         return promote_dtypes(ranks, dtypes)
-- 
2.43.0


From 0c63369841083caa4233a0a73ce45a69e4b41bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 072/132] fix: the stft of a bfloat16 tensor is computed in
 single precision

---
 .../Transforms/AbstractInterpLibrary.cpp      | 34 ++++++++++++++++---
 .../build_tools/abstract_interp_lib_gen.py    |  8 +++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index edf5873..519f9a4 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -14996,6 +14996,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.stft\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.int, %arg2: !torch.optional<int>, %arg3: !torch.optional<int>, %arg4: !torch.optional<tuple<int, int>>, %arg5: !torch.bool, %arg6: !torch.optional<bool>, %arg7: !torch.optional<bool>, %arg8: !torch.optional<bool>) -> !torch.int {\n"
 "    %str = torch.constant.str \"AssertionError: Unsupported dtype\"\n"
+"    %int15 = torch.constant.int 15\n"
 "    %int7 = torch.constant.int 7\n"
 "    %int10 = torch.constant.int 10\n"
 "    %int6 = torch.constant.int 6\n"
@@ -15076,7 +15077,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "          %16:2 = torch.prim.If %15 -> (!torch.bool, !torch.int) {\n"
 "            torch.prim.If.yield %true, %int8 : !torch.bool, !torch.int\n"
 "          } else {\n"
-"            %17 = torch.aten.eq.int %1#1, %int6 : !torch.int, !torch.int -> !torch.bool\n"
+"            %21 = torch.aten.eq.int %1#1, %int6 : !torch.int, !torch.int -> !torch.bool\n"
+"            %17 = torch.prim.If %21 -> (!torch.bool) {\n"
+"              torch.prim.If.yield %true : !torch.bool\n"
+"            } else {\n"
+"              %22 = torch.aten.eq.int %1#1, %int15 : !torch.int, !torch.int -> !torch.bool\n"
+"              torch.prim.If.yield %22 : !torch.bool\n"
+"            }\n"
 "            %18:2 = torch.prim.If %17 -> (!torch.bool, !torch.int) {\n"
 "              torch.prim.If.yield %true, %int9 : !torch.bool, !torch.int\n"
 "            } else {\n"
@@ -15107,7 +15114,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "            torch.prim.If.yield %false : !torch.bool\n"
 "          }\n"
 "          %18:2 = torch.prim.If %17 -> (!torch.bool, !torch.int) {\n"
-"            torch.prim.If.yield %true, %1#1 : !torch.bool, !torch.int\n"
+"            %19 = torch.aten.eq.int %1#1, %int15 : !torch.int, !torch.int -> !torch.bool\n"
+"            %20 = torch.prim.If %19 -> (!torch.int) {\n"
+"              torch.prim.If.yield %int6 : !torch.int\n"
+"            } else {\n"
+"              torch.prim.If.yield %1#1 : !torch.int\n"
+"            }\n"
+"            torch.prim.If.yield %true, %20 : !torch.bool, !torch.int\n"
 "          } else {\n"
 "            %19 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%1#1) : (!torch.int) -> !torch.bool\n"
 "            %20:2 = torch.prim.If %19 -> (!torch.bool, !torch.int) {\n"
@@ -15133,6 +15146,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.stft.center\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.int, %arg2: !torch.optional<int>, %arg3: !torch.optional<int>, %arg4: !torch.optional<tuple<int, int>>, %arg5: !torch.bool, %arg6: !torch.str, %arg7: !torch.bool, %arg8: !torch.optional<bool>, %arg9: !torch.optional<bool>, %arg10: !torch.optional<bool>) -> !torch.int {\n"
 "    %str = torch.constant.str \"AssertionError: Unsupported dtype\"\n"
+"    %int15 = torch.constant.int 15\n"
 "    %int7 = torch.constant.int 7\n"
 "    %int10 = torch.constant.int 10\n"
 "    %int6 = torch.constant.int 6\n"
@@ -15213,7 +15227,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "          %16:2 = torch.prim.If %15 -> (!torch.bool, !torch.int) {\n"
 "            torch.prim.If.yield %true, %int8 : !torch.bool, !torch.int\n"
 "          } else {\n"
-"            %17 = torch.aten.eq.int %1#1, %int6 : !torch.int, !torch.int -> !torch.bool\n"
+"            %21 = torch.aten.eq.int %1#1, %int6 : !torch.int, !torch.int -> !torch.bool\n"
+"            %17 = torch.prim.If %21 -> (!torch.bool) {\n"
+"              torch.prim.If.yield %true : !torch.bool\n"
+"            } else {\n"
+"              %22 = torch.aten.eq.int %1#1, %int15 : !torch.int, !torch.int -> !torch.bool\n"
+"              torch.prim.If.yield %22 : !torch.bool\n"
+"            }\n"
 "            %18:2 = torch.prim.If %17 -> (!torch.bool, !torch.int) {\n"
 "              torch.prim.If.yield %true, %int9 : !torch.bool, !torch.int\n"
 "            } else {\n"
@@ -15244,7 +15264,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "            torch.prim.If.yield %false : !torch.bool\n"
 "          }\n"
 "          %18:2 = torch.prim.If %17 -> (!torch.bool, !torch.int) {\n"
-"            torch.prim.If.yield %true, %1#1 : !torch.bool, !torch.int\n"
+"            %19 = torch.aten.eq.int %1#1, %int15 : !torch.int, !torch.int -> !torch.bool\n"
+"            %20 = torch.prim.If %19 -> (!torch.int) {\n"
+"              torch.prim.If.yield %int6 : !torch.int\n"
+"            } else {\n"
+"              torch.prim.If.yield %1#1 : !torch.int\n"
+"            }\n"
+"            torch.prim.If.yield %true, %20 : !torch.bool, !torch.int\n"
 "          } else {\n"
 "            %19 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%1#1) : (!torch.int) -> !torch.bool\n"
 "            %20:2 = torch.prim.If %19 -> (!torch.bool, !torch.int) {\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 65aad2b..9e45a7f 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -4470,11 +4470,13 @@ def aten〇stft〡dtype(self_rank_dtype: Tuple[int, int], n_fft: int, hop_length
     elif is_float_dtype(self_dtype) and return_complex is not None and return_complex:
         if self_dtype == torch.float16:
             return torch.complex32
-        elif self_dtype == torch.float32:
+        elif self_dtype == torch.float32 or self_dtype == torch.bfloat16:
             return torch.complex64
         elif self_dtype == torch.float64:
             return torch.complex128
     elif is_float_dtype(self_dtype) and return_complex is not None and return_complex != True:
+        if self_dtype == torch.bfloat16:
+            return torch.float32
         return self_dtype
     elif is_integer_dtype(self_dtype):
         return torch.complex64
@@ -4501,11 +4503,13 @@ def aten〇stft〇center〡dtype(self_rank_dtype: Tuple[int, int], n_fft: int, h
     elif is_float_dtype(self_dtype) and return_complex is not None and return_complex:
         if self_dtype == torch.float16:
             return torch.complex32
-        elif self_dtype == torch.float32:
+        elif self_dtype == torch.float32 or self_dtype == torch.bfloat16:
             return torch.complex64
         elif self_dtype == torch.float64:
             return torch.complex128
     elif is_float_dtype(self_dtype) and return_complex is not None and return_complex != True:
+        if self_dtype == torch.bfloat16:
+            return torch.float32
         return self_dtype
     elif is_integer_dtype(self_dtype):
         return torch.complex64
-- 
2.43.0


From 8b251c4db4dc871b157f658354953c914f662ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 073/132] fix: the l1_loss of complex tensors is real, and only
 its mean needs floats

---
 .../Transforms/AbstractInterpLibrary.cpp      | 19 +++++++++++++++++--
 .../build_tools/abstract_interp_lib_gen.py    |  5 ++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 519f9a4..991a827 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -16007,6 +16007,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.l1_loss\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.int) -> !torch.int {\n"
+"    %true = torch.constant.bool true\n"
+"    %int1 = torch.constant.int 1\n"
 "    %none = torch.constant.none\n"
 "    %str = torch.constant.str \"AssertionError: \"\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
@@ -16016,13 +16018,26 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %4 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%2, %3) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
 "    %5 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%4) : (!torch.int) -> !torch.bool\n"
 "    %6 = torch.aten.__not__ %5 : !torch.bool -> !torch.bool\n"
-"    torch.prim.If %6 -> () {\n"
+"    %7 = torch.prim.If %6 -> (!torch.bool) {\n"
+"      torch.prim.If.yield %true : !torch.bool\n"
+"    } else {\n"
+"      %10 = torch.aten.ne.int %arg2, %int1 : !torch.int, !torch.int -> !torch.bool\n"
+"      torch.prim.If.yield %10 : !torch.bool\n"
+"    }\n"
+"    torch.prim.If %7 -> () {\n"
 "      torch.prim.If.yield\n"
 "    } else {\n"
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    return %4 : !torch.int\n"
+"    %8 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%4) : (!torch.int) -> !torch.bool\n"
+"    %9 = torch.prim.If %8 -> (!torch.int) {\n"
+"      %10 = func.call @__torch__.complex_to_float(%4) : (!torch.int) -> !torch.int\n"
+"      torch.prim.If.yield %10 : !torch.int\n"
+"    } else {\n"
+"      torch.prim.If.yield %4 : !torch.int\n"
+"    }\n"
+"    return %9 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.mul.Tensor\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>) -> !torch.int {\n"
 "    %0:2 = torch.prim.TupleUnpack %arg1 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 9e45a7f..4fceb9b 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -4932,7 +4932,10 @@ def aten〇l1_loss〡dtype(self_rank_dtype: Tuple[int, int], target_rank_dtype:
     ranks: List[Optional[int]] = [self_rank, target_rank]
     dtypes = [self_dtype, target_dtype]
     promoted_dtype = promote_dtypes(ranks, dtypes)
-    assert not is_integer_dtype(promoted_dtype)
+    # Only the mean needs a floating point dtype.
+    assert not is_integer_dtype(promoted_dtype) or reduction != 1
+    if is_complex_dtype(promoted_dtype):
+        return complex_to_float(promoted_dtype)
     return promoted_dtype
 
 @check_dtype_function(_check_two_tensor_op())
-- 
2.43.0


From 9fac759984b7c5c073251c123dba91be72797445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 074/132] fix: a choice between complex numbers is complex

---
 .../Transforms/AbstractInterpLibrary.cpp      | 34 +++++++++++++------
 .../build_tools/abstract_interp_lib_gen.py    |  6 +++-
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 991a827..9968662 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -16652,22 +16652,36 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  func.func @\"__torch_mlir_dtype_fn.aten.where.Scalar\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.number, %arg2: !torch.number) -> !torch.int {\n"
 "    %int6 = torch.constant.int 6\n"
 "    %int4 = torch.constant.int 4\n"
+"    %int9 = torch.constant.int 9\n"
 "    %false = torch.constant.bool false\n"
+"    %true = torch.constant.bool true\n"
 "    %0 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%arg1) : (!torch.number) -> !torch.int\n"
-"    %1 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%0) : (!torch.int) -> !torch.bool\n"
-"    %2 = torch.prim.If %1 -> (!torch.bool) {\n"
-"      %4 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%arg2) : (!torch.number) -> !torch.int\n"
-"      %5 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%4) : (!torch.int) -> !torch.bool\n"
-"      torch.prim.If.yield %5 : !torch.bool\n"
+"    %1 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%arg2) : (!torch.number) -> !torch.int\n"
+"    %2 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%0) : (!torch.int) -> !torch.bool\n"
+"    %3 = torch.prim.If %2 -> (!torch.bool) {\n"
+"      torch.prim.If.yield %true : !torch.bool\n"
 "    } else {\n"
-"      torch.prim.If.yield %false : !torch.bool\n"
+"      %5 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%1) : (!torch.int) -> !torch.bool\n"
+"      torch.prim.If.yield %5 : !torch.bool\n"
 "    }\n"
-"    %3 = torch.prim.If %2 -> (!torch.int) {\n"
-"      torch.prim.If.yield %int4 : !torch.int\n"
+"    %4 = torch.prim.If %3 -> (!torch.int) {\n"
+"      torch.prim.If.yield %int9 : !torch.int\n"
 "    } else {\n"
-"      torch.prim.If.yield %int6 : !torch.int\n"
+"      %5 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%0) : (!torch.int) -> !torch.bool\n"
+"      %6 = torch.prim.If %5 -> (!torch.bool) {\n"
+"        %8 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%1) : (!torch.int) -> !torch.bool\n"
+"        torch.prim.If.yield %8 : !torch.bool\n"
+"      } else {\n"
+"        torch.prim.If.yield %false : !torch.bool\n"
+"      }\n"
+"      %7 = torch.prim.If %6 -> (!torch.int) {\n"
+"        torch.prim.If.yield %int4 : !torch.int\n"
+"      } else {\n"
+"        torch.prim.If.yield %int6 : !torch.int\n"
+"      }\n"
+"      torch.prim.If.yield %7 : !torch.int\n"
 "    }\n"
-"    return %3 : !torch.int\n"
+"    return %4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.where.ScalarOther\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.number) -> !torch.int {\n"
 "    %none = torch.constant.none\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 4fceb9b..e0bfc0f 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -5451,7 +5451,11 @@ def aten〇where〇self〡dtype(condition_rank_dtype: Tuple[int, int], self_rank
                        Invocation(NonZeroDTensorWithDtype(torch.bool), 0.0, 0),
                        Invocation(NonZeroDTensorWithDtype(torch.bool), 0.0, 0.0)])
 def aten〇where〇Scalar〡dtype(condition_rank_dtype: Tuple[int, int], self: Union[int, float, complex], other: Union[int, float, complex]) -> int:
-    if is_integer_dtype(get_dtype_of_scalar(self)) and is_integer_dtype(get_dtype_of_scalar(other)):
+    self_dtype = get_dtype_of_scalar(self)
+    other_dtype = get_dtype_of_scalar(other)
+    if is_complex_dtype(self_dtype) or is_complex_dtype(other_dtype):
+        return torch.complex64
+    if is_integer_dtype(self_dtype) and is_integer_dtype(other_dtype):
         return torch.int64
     return torch.float32
 
-- 
2.43.0


From 7072398c7de1e87f571c07293d3cb4c40ab7e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 075/132] fix: poisson_nll_loss promotes its input with the
 target

---
 .../Torch/Transforms/AbstractInterpLibrary.cpp       | 11 ++++++-----
 .../build_tools/abstract_interp_lib_gen.py           | 12 ++++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 9968662..d807c18 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -16739,17 +16739,18 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.poisson_nll_loss\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.bool, %arg3: !torch.bool, %arg4: !torch.float, %arg5: !torch.int) -> !torch.int {\n"
 "    %int6 = torch.constant.int 6\n"
-"    %int15 = torch.constant.int 15\n"
-"    %int5 = torch.constant.int 5\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
-"    %1 = torch.prim.ListConstruct %int5, %int15 : (!torch.int, !torch.int) -> !torch.list<int>\n"
-"    %2 = torch.aten.__contains__.int_list %1, %0#1 : !torch.list<int>, !torch.int -> !torch.bool\n"
+"    %1:2 = torch.prim.TupleUnpack %arg1 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
+"    %2 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%0#1) : (!torch.int) -> !torch.bool\n"
 "    %3 = torch.prim.If %2 -> (!torch.int) {\n"
 "      torch.prim.If.yield %int6 : !torch.int\n"
 "    } else {\n"
 "      torch.prim.If.yield %0#1 : !torch.int\n"
 "    }\n"
-"    return %3 : !torch.int\n"
+"    %4 = torch.prim.ListConstruct %0#0, %1#0 : (!torch.int, !torch.int) -> !torch.list<optional<int>>\n"
+"    %5 = torch.prim.ListConstruct %3, %1#1 : (!torch.int, !torch.int) -> !torch.list<int>\n"
+"    %6 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.promote_dtypes(%4, %5) : (!torch.list<optional<int>>, !torch.list<int>) -> !torch.int\n"
+"    return %6 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.native_layer_norm\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.list<int>, %arg2: !torch.optional<tuple<int, int>>, %arg3: !torch.optional<tuple<int, int>>, %arg4: !torch.float) -> !torch.tuple<int, int, int> {\n"
 "    %none = torch.constant.none\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index e0bfc0f..4b90e68 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -5521,10 +5521,14 @@ def aten〇nll_loss_forward〡dtype(self_rank_dtype: Tuple[int, int], target_ran
                 True, False, 1e-8, 2),
 ])
 def aten〇poisson_nll_loss〡dtype(input_rank_dtype: Tuple[int, int], target_rank_dtype: Tuple[int, int], log_input: bool, full: bool, eps: float, reduction: int) -> int:
-    _, input_dtype = input_rank_dtype
-    if input_dtype in (torch.float16, torch.bfloat16):
-        return torch.float32
-    return input_dtype
+    input_rank, input_dtype = input_rank_dtype
+    target_rank, target_dtype = target_rank_dtype
+    if is_integer_dtype(input_dtype):
+        # exp and log of integers are floats.
+        input_dtype = torch.float32
+    ranks: List[Optional[int]] = [input_rank, target_rank]
+    dtypes = [input_dtype, target_dtype]
+    return promote_dtypes(ranks, dtypes)
 
 @check_dtype_function(
     [Invocation(TensorOfShape(2, 3, dtype=torch.float32), [3], TensorOfShape(3, dtype=torch.float32),
-- 
2.43.0


From 6b0dd0d7d6b3a786910ecab138621cff4a19c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 076/132] fix: batch norm keeps the statistics in the dtype of
 the running mean

---
 .../Transforms/AbstractInterpLibrary.cpp      | 33 ++++++++++++++++---
 .../build_tools/abstract_interp_lib_gen.py    | 12 +++++--
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index d807c18..2337c59 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -16791,14 +16791,39 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.native_batch_norm\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.optional<tuple<int, int>>, %arg2: !torch.optional<tuple<int, int>>, %arg3: !torch.optional<tuple<int, int>>, %arg4: !torch.optional<tuple<int, int>>, %arg5: !torch.bool, %arg6: !torch.float, %arg7: !torch.float) -> !torch.tuple<int, int, int> {\n"
 "    %int6 = torch.constant.int 6\n"
+"    %int5 = torch.constant.int 5\n"
+"    %int15 = torch.constant.int 15\n"
+"    %none = torch.constant.none\n"
+"    %true = torch.constant.bool true\n"
+"    %false = torch.constant.bool false\n"
 "    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
 "    %1 = call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_integer_dtype(%0#1) : (!torch.int) -> !torch.bool\n"
-"    %2 = torch.prim.If %1 -> (!torch.int) {\n"
-"      torch.prim.If.yield %int6 : !torch.int\n"
+"    %2:2 = torch.prim.If %1 -> (!torch.int, !torch.int) {\n"
+"      torch.prim.If.yield %0#1, %int6 : !torch.int, !torch.int\n"
 "    } else {\n"
-"      torch.prim.If.yield %0#1 : !torch.int\n"
+"      %4 = torch.aten.__isnot__ %arg3, %none : !torch.optional<tuple<int, int>>, !torch.none -> !torch.bool\n"
+"      %5 = torch.prim.If %4 -> (!torch.bool) {\n"
+"        %7 = torch.aten.eq.int %0#1, %int5 : !torch.int, !torch.int -> !torch.bool\n"
+"        %8 = torch.prim.If %7 -> (!torch.bool) {\n"
+"          torch.prim.If.yield %true : !torch.bool\n"
+"        } else {\n"
+"          %9 = torch.aten.eq.int %0#1, %int15 : !torch.int, !torch.int -> !torch.bool\n"
+"          torch.prim.If.yield %9 : !torch.bool\n"
+"        }\n"
+"        torch.prim.If.yield %8 : !torch.bool\n"
+"      } else {\n"
+"        torch.prim.If.yield %false : !torch.bool\n"
+"      }\n"
+"      %6 = torch.prim.If %5 -> (!torch.int) {\n"
+"        %7 = torch.prim.unchecked_cast %arg3 : !torch.optional<tuple<int, int>> -> !torch.tuple<int, int>\n"
+"        %8:2 = torch.prim.TupleUnpack %7 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
+"        torch.prim.If.yield %8#1 : !torch.int\n"
+"      } else {\n"
+"        torch.prim.If.yield %0#1 : !torch.int\n"
+"      }\n"
+"      torch.prim.If.yield %6, %6 : !torch.int, !torch.int\n"
 "    }\n"
-"    %3 = torch.prim.TupleConstruct %0#1, %0#1, %2 : !torch.int, !torch.int, !torch.int -> !torch.tuple<int, int, int>\n"
+"    %3 = torch.prim.TupleConstruct %0#1, %2#0, %2#1 : !torch.int, !torch.int, !torch.int -> !torch.tuple<int, int, int>\n"
 "    return %3 : !torch.tuple<int, int, int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.arange\"(%arg0: !torch.number, %arg1: !torch.optional<int>, %arg2: !torch.optional<int>, %arg3: !torch.optional<Device>, %arg4: !torch.optional<bool>) -> !torch.int {\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 4b90e68..4936b0c 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -5590,10 +5590,16 @@ def aten〇one_hot〡dtype(self_rank_dtype: Tuple[int, int], num_classes: int =
      ])
 def aten〇native_batch_norm〡dtype(input_rank_dtype: Tuple[int, int], weight_rank_dtype: Optional[Tuple[int, int]], bias_rank_dtype: Optional[Tuple[int, int]], running_mean_rank_dtype: Optional[Tuple[int, int]], running_var_rank_dtype: Optional[Tuple[int, int]], training: bool, momentum: float, eps: float) -> Tuple[int, int, int]:
     input_rank, input_dtype = input_rank_dtype
-    result_dtype = input_dtype
+    save_mean_dtype = input_dtype
+    save_invstd_dtype = input_dtype
     if is_integer_dtype(input_dtype):
-        result_dtype = torch.float32
-    return input_dtype, input_dtype, result_dtype
+        save_invstd_dtype = torch.float32
+    elif running_mean_rank_dtype is not None and (input_dtype == torch.float16 or input_dtype == torch.bfloat16):
+        # The statistics of a half precision input are kept like the running ones.
+        running_mean_rank, running_mean_dtype = running_mean_rank_dtype
+        save_mean_dtype = running_mean_dtype
+        save_invstd_dtype = running_mean_dtype
+    return input_dtype, save_mean_dtype, save_invstd_dtype
 
 @check_dtype_function([Invocation(end=0, dtype=None), # No floats
                        Invocation(end=0.0, dtype=None), # One float
-- 
2.43.0


From 21b84563264417fa85aecb0fd28d29230ba82d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 077/132] fix: binary_cross_entropy_with_logits has the dtype
 of its target

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp       | 2 +-
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 2337c59..4bca58e 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -17262,7 +17262,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.binary_cross_entropy_with_logits\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.optional<tuple<int, int>>, %arg3: !torch.optional<tuple<int, int>>, %arg4: !torch.int) -> !torch.int {\n"
-"    %0:2 = torch.prim.TupleUnpack %arg0 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
+"    %0:2 = torch.prim.TupleUnpack %arg1 : !torch.tuple<int, int> -> !torch.int, !torch.int\n"
 "    return %0#1 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.renorm\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.number, %arg2: !torch.int, %arg3: !torch.number) -> !torch.int {\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 4936b0c..fc87800 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -5860,8 +5860,9 @@ def aten〇linalg_norm〡dtype(self_rank_dtype: Tuple[int, int], ord: Optional[U
     return aten〇std〡dtype(self_rank_dtype)
 
 def aten〇binary_cross_entropy_with_logits〡dtype(self_rank_dtype: Tuple[int, int], target_rank_dtype: Tuple[int, int], weight_rank_dtype: Optional[Tuple[int, int]] = None, pos_weight_rank_dtype: Optional[Tuple[int, int]] = None, reduction: int = 1) -> int:
-    self_rank, self_dtype = self_rank_dtype
-    return self_dtype
+    # The loss is accumulated into (1 - target).
+    target_rank, target_dtype = target_rank_dtype
+    return target_dtype
 
 @check_dtype_function(
     _check_tensors_with_the_same_dtype(
-- 
2.43.0


From 75b04e90ac73e4829fd4e239ac11bc2d5a4b1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 078/132] fix: a tensor full of a complex number is complex64

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp   | 9 ++++++++-
 .../build_tools/abstract_interp_lib_gen.py               | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 4bca58e..0b08838 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -17401,6 +17401,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.full\"(%arg0: !torch.list<int>, %arg1: !torch.number, %arg2: !torch.optional<int>, %arg3: !torch.optional<int>, %arg4: !torch.optional<Device>, %arg5: !torch.optional<bool>) -> !torch.int {\n"
 "    %int6 = torch.constant.int 6\n"
+"    %int9 = torch.constant.int 9\n"
 "    %none = torch.constant.none\n"
 "    %0 = torch.aten.__isnot__ %arg2, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.int) {\n"
@@ -17412,7 +17413,13 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      %4 = torch.prim.If %3 -> (!torch.int) {\n"
 "        torch.prim.If.yield %int6 : !torch.int\n"
 "      } else {\n"
-"        torch.prim.If.yield %2 : !torch.int\n"
+"        %5 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%2) : (!torch.int) -> !torch.bool\n"
+"        %6 = torch.prim.If %5 -> (!torch.int) {\n"
+"          torch.prim.If.yield %int9 : !torch.int\n"
+"        } else {\n"
+"          torch.prim.If.yield %2 : !torch.int\n"
+"        }\n"
+"        torch.prim.If.yield %6 : !torch.int\n"
 "      }\n"
 "      torch.prim.If.yield %4 : !torch.int\n"
 "    }\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index fc87800..664634d 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -5966,6 +5966,8 @@ def aten〇full〡dtype(size: List[int], fill_value: Union[int, float, complex],
     fill_value_dtype = get_dtype_of_scalar(fill_value)
     if is_float_dtype(fill_value_dtype):
         return torch.float32
+    if is_complex_dtype(fill_value_dtype):
+        return torch.complex64
     return fill_value_dtype
 
 @check_dtype_function(_check_tensors_with_the_same_dtype(num_of_tensors=1) +
-- 
2.43.0


From 9f3bc0c92c976edae3b66564bde75990ef3d04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 079/132] fix: linspace between complex numbers is complex64

---
 .../Torch/Transforms/AbstractInterpLibrary.cpp | 18 +++++++++++++++++-
 .../build_tools/abstract_interp_lib_gen.py     |  2 ++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 0b08838..4d5b9c1 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -17687,10 +17687,26 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten.linspace\"(%arg0: !torch.number, %arg1: !torch.number, %arg2: !torch.int, %arg3: !torch.optional<int>, %arg4: !torch.optional<int>, %arg5: !torch.optional<Device>, %arg6: !torch.optional<bool>) -> !torch.int {\n"
 "    %int6 = torch.constant.int 6\n"
+"    %int9 = torch.constant.int 9\n"
+"    %true = torch.constant.bool true\n"
 "    %none = torch.constant.none\n"
 "    %0 = torch.aten.__is__ %arg3, %none : !torch.optional<int>, !torch.none -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.int) {\n"
-"      torch.prim.If.yield %int6 : !torch.int\n"
+"      %2 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%arg0) : (!torch.number) -> !torch.int\n"
+"      %3 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%2) : (!torch.int) -> !torch.bool\n"
+"      %4 = torch.prim.If %3 -> (!torch.bool) {\n"
+"        torch.prim.If.yield %true : !torch.bool\n"
+"      } else {\n"
+"        %6 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.get_dtype_of_scalar(%arg1) : (!torch.number) -> !torch.int\n"
+"        %7 = func.call @__torch__.torch_mlir.jit_ir_importer.build_tools.library_generator.is_complex_dtype(%6) : (!torch.int) -> !torch.bool\n"
+"        torch.prim.If.yield %7 : !torch.bool\n"
+"      }\n"
+"      %5 = torch.prim.If %4 -> (!torch.int) {\n"
+"        torch.prim.If.yield %int9 : !torch.int\n"
+"      } else {\n"
+"        torch.prim.If.yield %int6 : !torch.int\n"
+"      }\n"
+"      torch.prim.If.yield %5 : !torch.int\n"
 "    } else {\n"
 "      %2 = torch.prim.unchecked_cast %arg3 : !torch.optional<int> -> !torch.int\n"
 "      torch.prim.If.yield %2 : !torch.int\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 664634d..cb70a0f 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -6170,6 +6170,8 @@ def aten〇randn〡dtype(size: List[int], dtype: Optional[int] = None, layout: O
                        Invocation(start=1, end=10, steps=9, dtype=torch.complex128)])
 def aten〇linspace〡dtype(start: Union[int, float, complex], end: Union[int, float, complex], steps: int, dtype: Optional[int] = None, layout: Optional[int] = None, device: Optional[device] = None, pin_memory: Optional[bool] = None) -> int:
     if dtype is None:
+        if is_complex_dtype(get_dtype_of_scalar(start)) or is_complex_dtype(get_dtype_of_scalar(end)):
+            return torch.complex64
         return torch.float32
     return dtype
 
-- 
2.43.0


From 518584b46d62a97434f2e7c0ed88b12500f8c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 080/132] fix: nms answers 64-bit indices, roi_pool 32-bit ones

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp    | 8 ++++----
 .../build_tools/abstract_interp_lib_gen.py                | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 4d5b9c1..f66a920 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -6931,10 +6931,10 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %3 : !torch.tuple<list<int>, list<int>>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.torchvision.roi_pool\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.float, %arg3: !torch.int, %arg4: !torch.int) -> !torch.tuple<int, int> {\n"
-"    %int4 = torch.constant.int 4\n"
+"    %int3 = torch.constant.int 3\n"
 "    %int1 = torch.constant.int 1\n"
 "    %0 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
-"    %1 = torch.prim.TupleConstruct %0, %int4 : !torch.int, !torch.int -> !torch.tuple<int, int>\n"
+"    %1 = torch.prim.TupleConstruct %0, %int3 : !torch.int, !torch.int -> !torch.tuple<int, int>\n"
 "    return %1 : !torch.tuple<int, int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.torchvision.nms\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.float) -> !torch.list<int> {\n"
@@ -6953,8 +6953,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %none : !torch.none\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.torchvision.nms\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.float) -> !torch.int {\n"
-"    %int3 = torch.constant.int 3\n"
-"    return %int3 : !torch.int\n"
+"    %int4 = torch.constant.int 4\n"
+"    return %int4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.diagonal\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.int, %arg3: !torch.int) -> !torch.list<int> {\n"
 "    %str = torch.constant.str \"AssertionError: diagonal dimensions cannot be identical\"\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index cb70a0f..0a0076e 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -93,13 +93,13 @@ def torchvision〇roi_pool〡shape(input: List[int], rois: List[int], spatial_sc
     return (output, output)
 
 def torchvision〇roi_pool〡dtype(input_rank_dtype: Tuple[int, int], rois_rank_dtype: Tuple[int, int], spatial_scale: float, pooled_height: int, pooled_width: int) -> Tuple[int, int]:
-    return (input_rank_dtype[1], torch.int64) 
+    return (input_rank_dtype[1], torch.int32)
 
 def torchvision〇nms〡shape(dets: List[int], scores: List[int], iou_threshold: float) -> List[int]:
     return [hacky_get_unknown_dimension_size()]
 
 def torchvision〇nms〡dtype(dets_rank_dtype: Tuple[int, int], scores_rank_dtype: Tuple[int, int], iou_threshold: float) -> int:
-    return torch.int
+    return torch.int64
 
 @check_shape_function([
     Invocation(TensorOfShape(2, 3, 4)), # Basic case.
-- 
2.43.0


From 3f00cbe816a71661d2f00feb88da61cebba0a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 081/132] fix: do not promote Float8 dtypes to uint8

The lookup table has no rows for them, and its missing entries are zero,
which is Byte. A Float8 dtype promotes to itself only.
---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index 0136ed0..135eb9a 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -24,6 +24,11 @@ static inline bool isQIntType(ScalarType t) {
          t == ScalarType::QUInt2x4 || t == ScalarType::QInt16;
 }
 
+static inline bool isFloat8Type(ScalarType t) {
+  return t == ScalarType::Float8_e5m2 || t == ScalarType::Float8_e4m3fn ||
+         t == ScalarType::Float8_e5m2fnuz || t == ScalarType::Float8_e4m3fnuz;
+}
+
 //===----------------------------------------------------------------------===//
 // Type promotion related code are copied from
 // aten/src/ATen/native/TypeProperties.*.
@@ -48,8 +53,8 @@ static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
     return ScalarType::Undefined;
   }
 
-  // For QInt types, we only allow exact match
-  if (isQIntType(a) && a == b) {
+  // If the two types are equal, return that type.
+  if (a == b) {
     return a;
   }
 
@@ -58,6 +63,12 @@ static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
                     "figure out what the correct rules should be");
   }
 
+  // PyTorch does not promote Float8 types to other types, and the table below
+  // has no entries for them.
+  if (isFloat8Type(a) || isFloat8Type(b)) {
+    return ScalarType::Undefined;
+  }
+
   // this matrix has to be consistent with AT_FORALL_SCALAR_TYPES_WITH_COMPLEX
   // so that's why we have to add undefined as we are not sure what is the
   // corrent values for the type promotions in complex type cases.
-- 
2.43.0


From 4cb41a05280b1a6202c4c0e90212aecfea73bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 082/132] fix: promote ComplexHalf with the other dtypes as
 PyTorch does

The entries were undefined, and promote_skip_undefined then drops the
operands seen so far: promoting (int64, complex32, int64) gave int64.
---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index 135eb9a..54d72b1 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -70,27 +70,27 @@ static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
   }
 
   // this matrix has to be consistent with AT_FORALL_SCALAR_TYPES_WITH_COMPLEX
-  // so that's why we have to add undefined as we are not sure what is the
-  // corrent values for the type promotions in complex type cases.
+  // undefined is used where we are not sure about the correct value for type
+  // promotion.
   static constexpr ScalarType _promoteTypesLookup[static_cast<int>(
       ScalarType::NumOptions)][static_cast<int>(ScalarType::NumOptions)] = {
       /*        u1  i1  i2  i4  i8  f2  f4  f8  c2  c4  c8  b1  q1  q2  q3  bf*/
-      /* u1 */ {u1, i2, i2, i4, i8, f2, f4, f8, ud, c4, c8, u1, ud, ud, ud, bf},
-      /* i1 */ {i2, i1, i2, i4, i8, f2, f4, f8, ud, c4, c8, i1, ud, ud, ud, bf},
-      /* i2 */ {i2, i2, i2, i4, i8, f2, f4, f8, ud, c4, c8, i2, ud, ud, ud, bf},
-      /* i4 */ {i4, i4, i4, i4, i8, f2, f4, f8, ud, c4, c8, i4, ud, ud, ud, bf},
-      /* i8 */ {i8, i8, i8, i8, i8, f2, f4, f8, ud, c4, c8, i8, ud, ud, ud, bf},
-      /* f2 */ {f2, f2, f2, f2, f2, f2, f4, f8, ud, c4, c8, f2, ud, ud, ud, f4},
-      /* f4 */ {f4, f4, f4, f4, f4, f4, f4, f8, ud, c4, c8, f4, ud, ud, ud, f4},
-      /* f8 */ {f8, f8, f8, f8, f8, f8, f8, f8, ud, c8, c8, f8, ud, ud, ud, f8},
-      /* c2 */ {ud, ud, ud, ud, ud, ud, ud, ud, c2, c4, c8, ud, ud, ud, ud, ud},
+      /* u1 */ {u1, i2, i2, i4, i8, f2, f4, f8, c2, c4, c8, u1, ud, ud, ud, bf},
+      /* i1 */ {i2, i1, i2, i4, i8, f2, f4, f8, c2, c4, c8, i1, ud, ud, ud, bf},
+      /* i2 */ {i2, i2, i2, i4, i8, f2, f4, f8, c2, c4, c8, i2, ud, ud, ud, bf},
+      /* i4 */ {i4, i4, i4, i4, i8, f2, f4, f8, c2, c4, c8, i4, ud, ud, ud, bf},
+      /* i8 */ {i8, i8, i8, i8, i8, f2, f4, f8, c2, c4, c8, i8, ud, ud, ud, bf},
+      /* f2 */ {f2, f2, f2, f2, f2, f2, f4, f8, c2, c4, c8, f2, ud, ud, ud, f4},
+      /* f4 */ {f4, f4, f4, f4, f4, f4, f4, f8, c4, c4, c8, f4, ud, ud, ud, f4},
+      /* f8 */ {f8, f8, f8, f8, f8, f8, f8, f8, c8, c8, c8, f8, ud, ud, ud, f8},
+      /* c2 */ {c2, c2, c2, c2, c2, c2, c4, c8, c2, c4, c8, c2, ud, ud, ud, c4},
       /* c4 */ {c4, c4, c4, c4, c4, c4, c4, c8, c4, c4, c8, c4, ud, ud, ud, c4},
       /* c8 */ {c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, ud, ud, ud, c8},
-      /* b1 */ {u1, i1, i2, i4, i8, f2, f4, f8, ud, c4, c8, b1, ud, ud, ud, bf},
+      /* b1 */ {u1, i1, i2, i4, i8, f2, f4, f8, c2, c4, c8, b1, ud, ud, ud, bf},
       /* q1 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
       /* q2 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
       /* q3 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
-      /* bf */ {bf, bf, bf, bf, bf, f4, f4, f8, ud, c4, c8, bf, ud, ud, ud, bf},
+      /* bf */ {bf, bf, bf, bf, bf, f4, f4, f8, c4, c4, c8, bf, ud, ud, ud, bf},
   };
   return _promoteTypesLookup[static_cast<int>(a)][static_cast<int>(b)];
 }
-- 
2.43.0


From 5d0e9d882df2aea1bd24c01e5521d96536c9e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 083/132] fix: keep the precision of a floating operand with
 complex ones of a lower category

combine_categories is copied from PyTorch, which since answers the complex
dtype of the floating dtype of the higher category: a float32 tensor with a
rank-0 complex128 one is complex64.
---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index 54d72b1..3ecc242 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -105,12 +105,33 @@ static inline bool isComplexType(ScalarType t) {
           t == ScalarType::ComplexDouble);
 }
 
+static inline ScalarType toComplexType(ScalarType t) {
+  switch (t) {
+  case ScalarType::BFloat16:
+    // BFloat16 has range equivalent to Float,
+    // so we map it to ComplexFloat.
+    return ScalarType::ComplexFloat;
+  case ScalarType::Half:
+    return ScalarType::ComplexHalf;
+  case ScalarType::Float:
+    return ScalarType::ComplexFloat;
+  case ScalarType::Double:
+    return ScalarType::ComplexDouble;
+  default:
+    llvm_unreachable("toComplexType called on a type that is not floating");
+  }
+}
+
 static inline ScalarType combine_categories(ScalarType higher,
                                             ScalarType lower) {
   // NOLINTNEXTLINE(bugprone-branch-clone)
   if (isComplexType(higher)) {
     return higher;
-  } else if (!isComplexType(lower) && isFloatingType(higher)) {
+  } else if (isFloatingType(higher)) {
+    // Preserve value type of higher if it is floating type.
+    if (isComplexType(lower)) {
+      return toComplexType(higher);
+    }
     return higher;
   }
   if (higher == ScalarType::Bool || isFloatingType(lower) ||
-- 
2.43.0


From 880b281c848a17a136a2abfd530ed25ed650c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 084/132] fix: default dilations of onnx.DeformConv are 1

They were 0, which makes every tap of the kernel read the same element.
---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
index 6759f57..9610594 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
@@ -2293,7 +2293,7 @@ void mlir::torch::onnx_c::populateDefaultDomainAtoF(
 
         // get attributes
         SmallVector<int64_t> dilations, kernelShape, pads, strides;
-        SmallVector<int64_t> defaultDilations(rank - 2, 0);
+        SmallVector<int64_t> defaultDilations(rank - 2, 1);
         SmallVector<int64_t> defaultPads(2 * (rank - 2), 0);
         SmallVector<int64_t> defaultStrides(rank - 2, 1);
         int64_t group, offsetGroup;
-- 
2.43.0


From 1766f831215552be8fb47c0bd0826a4749306169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 085/132] fix: read keep_aspect_ratio_policy of onnx.Resize

The accessor adds the torch.onnx. prefix itself, so the attribute was never
found, and policies that are not supported were taken for "stretch".
---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index 045333a..b3a0142 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -3005,9 +3005,8 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
                                 0.0) ||
             binder.customOpNameStringAttr(nearest_mode, "nearest_mode",
                                           "round_prefer_floor") ||
-            binder.customOpNameStringAttr(keepAspectRatioPolicy,
-                                          "torch.onnx.keep_aspect_ratio_policy",
-                                          "stretch") ||
+            binder.customOpNameStringAttr(
+                keepAspectRatioPolicy, "keep_aspect_ratio_policy", "stretch") ||
             binder.f32FloatAttr(cubic_coeff_a, "cubic_coeff_a", -0.75))
           return failure();
 
-- 
2.43.0


From 7f4d30b82e245f331ce0249de2ed6b4cf1bf20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 086/132] fix: default alpha and gamma of onnx.Selu to the full
 precision

---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index b3a0142..ea9facc 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -1332,8 +1332,8 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
         // Refer https://onnx.ai/onnx/operators/onnx__Selu.html for the default
         // alpha and gamma values.
         if (binder.tensorOperand(operand) ||
-            binder.f32FloatAttr(alpha, "alpha", 1.67326) ||
-            binder.f32FloatAttr(gamma, "gamma", 1.0507) ||
+            binder.f32FloatAttr(alpha, "alpha", 1.67326319217681884765625f) ||
+            binder.f32FloatAttr(gamma, "gamma", 1.05070102214813232421875f) ||
             binder.tensorResultType(resultType))
           return failure();
 
-- 
2.43.0


From 2448afac61282c8845446699355c5d3a407ad3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 087/132] fix: onnx.EyeLike, RandomNormalLike and
 RandomUniformLike default to the dtype of the input

Without a dtype attribute they were converted as float32.
---
 .../TorchOnnxToTorch/DefaultDomainAtoF.cpp    | 31 ++++++---
 .../TorchOnnxToTorch/DefaultDomainQtoZ.cpp    | 64 +++++++++++++------
 2 files changed, 65 insertions(+), 30 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
index 9610594..1e21ed9 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
@@ -2828,7 +2828,7 @@ void mlir::torch::onnx_c::populateDefaultDomainAtoF(
         Value operand;
         int64_t dtypeIntOnnx, diagonalIndex;
         if (binder.tensorOperand(operand) ||
-            binder.s64IntegerAttr(dtypeIntOnnx, "dtype", 1) ||
+            binder.s64IntegerAttr(dtypeIntOnnx, "dtype", -1) ||
             binder.s64IntegerAttr(diagonalIndex, "k", 0) ||
             binder.tensorResultType(resultType))
           return failure();
@@ -2850,16 +2850,27 @@ void mlir::torch::onnx_c::populateDefaultDomainAtoF(
                                                   operand, cst1);
         Value noneVal =
             Torch::ConstantNoneOp::create(rewriter, binder.getLoc());
-        std::optional<int64_t> dtypeIntTorch =
-            onnxDtypeIntToTorchDtypeInt(dtypeIntOnnx);
-        if (!dtypeIntTorch.has_value()) {
-          return rewriter.notifyMatchFailure(
-              binder.op,
-              "unimplemented support for the given dtype conversion");
+        Value dtypeVal;
+        if (dtypeIntOnnx == -1) {
+          // If dtype attribute is not specified, the data type of the input is
+          // used.
+          if (!operandTy.hasDtype())
+            return rewriter.notifyMatchFailure(
+                binder.op, "expected the input to have a dtype");
+          dtypeVal = Torch::getDtypeIntValueForType(rewriter, binder.getLoc(),
+                                                    operandTy.getDtype());
+        } else {
+          std::optional<int64_t> dtypeIntTorch =
+              onnxDtypeIntToTorchDtypeInt(dtypeIntOnnx);
+          if (!dtypeIntTorch.has_value()) {
+            return rewriter.notifyMatchFailure(
+                binder.op,
+                "unimplemented support for the given dtype conversion");
+          }
+          dtypeVal = Torch::ConstantIntOp::create(
+              rewriter, binder.getLoc(),
+              rewriter.getI64IntegerAttr(dtypeIntTorch.value()));
         }
-        Value dtypeVal = Torch::ConstantIntOp::create(
-            rewriter, binder.getLoc(),
-            rewriter.getI64IntegerAttr(dtypeIntTorch.value()));
 
         // diagonalIndex = 0 populates the main diagonal
         // diagonalIndex > 0 populates an upper diagonal
diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index ea9facc..f31615c 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -2770,23 +2770,35 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
         SmallVector<int64_t> shape;
         Value input;
         if (binder.tensorOperand(input) ||
-            binder.s64IntegerAttr(dtypeIntOnnx, "dtype", 1) ||
+            binder.s64IntegerAttr(dtypeIntOnnx, "dtype", -1) ||
             binder.f32FloatAttr(mean, "mean", 0.0) ||
             binder.f32FloatAttr(scale, "scale", 1.0) ||
             binder.tensorResultType(resultType)) {
           return failure();
         }
 
-        std::optional<int64_t> dtypeIntTorch =
-            onnxDtypeIntToTorchDtypeInt(dtypeIntOnnx);
-        if (!dtypeIntTorch.has_value()) {
-          return rewriter.notifyMatchFailure(
-              binder.op,
-              "unimplemented support for the given dtype conversion");
+        Value constDtype;
+        if (dtypeIntOnnx == -1) {
+          // If dtype attribute is not specified, the data type of the input is
+          // used.
+          auto inputTy = cast<Torch::ValueTensorType>(input.getType());
+          if (!inputTy.hasDtype())
+            return rewriter.notifyMatchFailure(
+                binder.op, "expected the input to have a dtype");
+          constDtype = Torch::getDtypeIntValueForType(rewriter, binder.getLoc(),
+                                                      inputTy.getDtype());
+        } else {
+          std::optional<int64_t> dtypeIntTorch =
+              onnxDtypeIntToTorchDtypeInt(dtypeIntOnnx);
+          if (!dtypeIntTorch.has_value()) {
+            return rewriter.notifyMatchFailure(
+                binder.op,
+                "unimplemented support for the given dtype conversion");
+          }
+          constDtype = Torch::ConstantIntOp::create(
+              rewriter, binder.getLoc(),
+              rewriter.getI64IntegerAttr(dtypeIntTorch.value()));
         }
-        Value constDtype = Torch::ConstantIntOp::create(
-            rewriter, binder.getLoc(),
-            rewriter.getI64IntegerAttr(dtypeIntTorch.value()));
 
         Value cstNone =
             Torch::ConstantNoneOp::create(rewriter, binder.getLoc());
@@ -2881,23 +2893,35 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
         SmallVector<int64_t> shape;
         Value input;
         if (binder.tensorOperand(input) ||
-            binder.s64IntegerAttr(dtypeIntOnnx, "dtype", 1) ||
+            binder.s64IntegerAttr(dtypeIntOnnx, "dtype", -1) ||
             binder.f32FloatAttr(high, "high", 1.0) ||
             binder.f32FloatAttr(low, "low", 0.0) ||
             binder.tensorResultType(resultType)) {
           return failure();
         }
 
-        std::optional<int64_t> dtypeIntTorch =
-            onnxDtypeIntToTorchDtypeInt(dtypeIntOnnx);
-        if (!dtypeIntTorch.has_value()) {
-          return rewriter.notifyMatchFailure(
-              binder.op,
-              "unimplemented support for the given dtype conversion");
+        Value constDtype;
+        if (dtypeIntOnnx == -1) {
+          // If dtype attribute is not specified, the data type of the input is
+          // used.
+          auto inputTy = cast<Torch::ValueTensorType>(input.getType());
+          if (!inputTy.hasDtype())
+            return rewriter.notifyMatchFailure(
+                binder.op, "expected the input to have a dtype");
+          constDtype = Torch::getDtypeIntValueForType(rewriter, binder.getLoc(),
+                                                      inputTy.getDtype());
+        } else {
+          std::optional<int64_t> dtypeIntTorch =
+              onnxDtypeIntToTorchDtypeInt(dtypeIntOnnx);
+          if (!dtypeIntTorch.has_value()) {
+            return rewriter.notifyMatchFailure(
+                binder.op,
+                "unimplemented support for the given dtype conversion");
+          }
+          constDtype = Torch::ConstantIntOp::create(
+              rewriter, binder.getLoc(),
+              rewriter.getI64IntegerAttr(dtypeIntTorch.value()));
         }
-        Value constDtype = Torch::ConstantIntOp::create(
-            rewriter, binder.getLoc(),
-            rewriter.getI64IntegerAttr(dtypeIntTorch.value()));
 
         Value cstNone =
             Torch::ConstantNoneOp::create(rewriter, binder.getLoc());
-- 
2.43.0


From 8f4285fe521bc9bcb8fba9b0e9f52f532c0dc528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 088/132] fix: squeeze the axes that an onnx.Squeeze before
 opset 13 states

They are an attribute there, which was ignored: all dimensions of extent 1
were squeezed.
---
 .../TorchOnnxToTorch/DefaultDomainQtoZ.cpp        | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index f31615c..0a9293f 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -1151,7 +1151,12 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
           return success();
         }
 
-        if (inputOperands.size() == 1) {
+        // Before opset 13, `axes` is an attribute.
+        SmallVector<int64_t> axesAttr;
+        if (binder.s64IntegerArrayAttr(axesAttr, "axes", {}))
+          return rewriter.notifyMatchFailure(binder.op, "axes bind failure");
+
+        if (inputOperands.size() == 1 && axesAttr.empty()) {
           // Case: `axes` value is not present which means squeeze all the
           // dimensions with shape value 1.
           rewriter.replaceOpWithNewOp<Torch::AtenSqueezeOp>(binder.op,
@@ -1160,7 +1165,13 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
         }
 
         SmallVector<Value> dimList;
-        if (inputType.areAllSizesKnown() && resultType.areAllSizesKnown()) {
+        if (!axesAttr.empty()) {
+          for (int64_t axis : axesAttr) {
+            dimList.push_back(Torch::ConstantIntOp::create(
+                rewriter, binder.getLoc(), rewriter.getI64IntegerAttr(axis)));
+          }
+        } else if (inputType.areAllSizesKnown() &&
+                   resultType.areAllSizesKnown()) {
           // If the input shape and result shape is statically known then the
           // list of dims to be squeezed can be derived from those shapes. As a
           // result, we don't have to wait for the dim values to be known at
-- 
2.43.0


From 7a9d9813382e6a61530f7b05e2a79c3e5fb0d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 089/132] fix: split at the sizes that an onnx.Split before
 opset 13 states

They are an attribute there, which was ignored: the tensor was split evenly.
---
 .../TorchOnnxToTorch/DefaultDomainQtoZ.cpp     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index 0a9293f..57033de 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -1811,14 +1811,22 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
           return rewriter.notifyMatchFailure(binder.op,
                                              "Failed to get axis attribute");
 
+        // Before opset 13, the sizes of the parts are an attribute.
+        llvm::SmallVector<int64_t> splitSizes;
+        if (binder.s64IntegerArrayAttr(splitSizes, "split", {}))
+          return rewriter.notifyMatchFailure(binder.op,
+                                             "Failed to get split attribute");
+        if (!splitSizes.empty() &&
+            splitSizes.size() != binder.op->getNumResults())
+          return rewriter.notifyMatchFailure(
+              binder.op, "expected a size for each part in split attribute");
+
         numOutputs = binder.op->getNumResults();
         if (binder.s64IntegerAttr(numOutputs, "num_outputs", numOutputs))
           return rewriter.notifyMatchFailure(
               binder.op, "Failed to get num_outputs attribute");
 
         auto loc = binder.getLoc();
-        auto result0Ty =
-            cast<Torch::ValueTensorType>(binder.op->getResult(0).getType());
         auto resultNTy = cast<Torch::ValueTensorType>(
             binder.op->getResults().back().getType());
         auto selfTy = cast<Torch::ValueTensorType>(self.getType());
@@ -1855,10 +1863,14 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
         Value start = zero;
 
         for (int i = 0; i < numOutputs - 1; ++i) {
+          if (!splitSizes.empty())
+            splitSize = Torch::ConstantIntOp::create(
+                rewriter, loc, rewriter.getI64IntegerAttr(splitSizes[i]));
           Value end =
               Torch::AtenAddIntOp::create(rewriter, loc, start, splitSize);
           Value slice = Torch::AtenSliceTensorOp::create(
-              rewriter, loc, result0Ty, self, dimValue, start, end, step);
+              rewriter, loc, binder.op->getResult(i).getType(), self, dimValue,
+              start, end, step);
           start = end;
           outputs.push_back(slice);
         }
-- 
2.43.0


From 850c9ca606e045883e932a8c23cfa9661254a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 090/132] fix: do not convert blocked onnx.QuantizeLinear and
 DequantizeLinear as per-axis ones

With block_size, the scales of a rank-1 tensor are one per block.
---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp | 5 +++++
 lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
index 1e21ed9..f2eb187 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp
@@ -2416,6 +2416,11 @@ void mlir::torch::onnx_c::populateDefaultDomainAtoF(
             binder.tensorResultType(resultType))
           return failure();
 
+        int64_t blockSize;
+        if (binder.s64IntegerAttr(blockSize, "block_size", 0) || blockSize != 0)
+          return rewriter.notifyMatchFailure(
+              binder.op, "unimplemented: blocked quantization");
+
         auto loc = binder.getLoc();
         Value operand = operands[0];
         Value scale = operands[1];
diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index 57033de..a847f8a 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -272,6 +272,11 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
             binder.tensorResultType(resultType))
           return failure();
 
+        int64_t blockSize;
+        if (binder.s64IntegerAttr(blockSize, "block_size", 0) || blockSize != 0)
+          return rewriter.notifyMatchFailure(
+              binder.op, "unimplemented: blocked quantization");
+
         auto loc = binder.getLoc();
         Value operand = operands[0];
         Value scale = operands[1];
-- 
2.43.0


From 0c69a33fd3c6cc4f151ef7d8dd5b6f85c0ed26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:21 +0000
Subject: [PATCH 091/132] fix: do not expand onnx.RNN as if it had no clip

As for LSTM and GRU, the attribute is not supported.
---
 .../TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
index 27e72c8..a2da47f 100644
--- a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
@@ -200,6 +200,11 @@ LogicalResult OnnxRnnExpander(OpBinder binder,
     }
   }
 
+  float clip;
+  if (!binder.f32FloatAttr(clip, "clip", 0.0) && clip != 0.0)
+    return rewriter.notifyMatchFailure(binder.op,
+                                       "clip attribute not supported");
+
   std::string direction;
   if (!binder.customOpNameStringAttr(direction, "direction", "forward") &&
       direction != "forward")
-- 
2.43.0


From 57d3a780ed314ffb328e7086066058776d0fb890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:21 +0000
Subject: [PATCH 092/132] fix: do not expand onnx.LSTM as if it had no peephole
 weights

The operand P was ignored.
---
 .../TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
index a2da47f..e65951a 100644
--- a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
@@ -733,6 +733,11 @@ LogicalResult OnnxLstmExpander(OpBinder binder,
     B = AtenZerosOp::create(b, BType, zerosShapeList, none, none, none, none);
   }
 
+  if (binder.op->getNumOperands() > 7 &&
+      !isa<Torch::NoneType>(binder.op->getOperand(7).getType()))
+    return rewriter.notifyMatchFailure(binder.op,
+                                       "peephole weights not supported");
+
   LstmActivations activations, activationsRev;
   // Default case (both forward and reverse)
   activations.f = "Sigmoid";
-- 
2.43.0


From 4bdbcf53b9701cf23e5214a81d55d616a0048ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:21 +0000
Subject: [PATCH 093/132] fix: convert onnx.Hardmax before opset 13 with its
 own axis

The axis is 1 by default there, and the dimensions from it on are one.
---
 .../TorchOnnxToTorch/DefaultDomainGtoP.cpp    | 183 ++++++++++--------
 1 file changed, 100 insertions(+), 83 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
index bd6736f..bef3082 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
@@ -16,6 +16,94 @@ using namespace mlir;
 using namespace mlir::torch;
 using namespace mlir::torch::onnx_c;
 
+static LogicalResult convertHardmax(OpBinder binder,
+                                    ConversionPatternRewriter &rewriter,
+                                    int64_t defaultAxis, bool coercesTo2d) {
+  // onnx.Hardmax can be expanded into the following python code:
+  //
+  // import torch.nn.functional as F
+  // def hardmax(tensor, dim=-1):
+  //   maximums = torch.argmax(tensor, dim=dim, keepdim=False)
+  //   return F.one_hot(maximums)
+  //
+  // Given an example input:
+  // tensor([[1, 2, 3],
+  //         [4, 6, 5],
+  //         [9, 8, 7]])
+  // Above code yields the following:
+  // tensor([[0, 0, 1],
+  //         [0, 1, 0],
+  //         [1, 0, 0]])
+
+  Torch::ValueTensorType resultType;
+  int64_t axisValue;
+  Value input, axis;
+  if (binder.tensorOperand(input) ||
+      binder.s64IntegerAttr(axisValue, "axis", defaultAxis) ||
+      binder.tensorResultType(resultType))
+    return failure();
+
+  auto loc = binder.getLoc();
+  auto inputTy = cast<Torch::ValueTensorType>(input.getType());
+
+  if (axisValue < 0)
+    axisValue += inputTy.getSizes().size();
+  if (coercesTo2d &&
+      axisValue + 1 != static_cast<int64_t>(inputTy.getSizes().size()))
+    return rewriter.notifyMatchFailure(
+        binder.op, "unimplemented: input coerced to 2 dimensions");
+
+  axis = Torch::ConstantIntOp::create(rewriter, loc,
+                                      rewriter.getI64IntegerAttr(axisValue));
+
+  // torch.argmax
+  Value constKeepDims = Torch::ConstantBoolOp::create(
+      rewriter, loc, rewriter.getType<Torch::BoolType>(),
+      rewriter.getBoolAttr(false));
+
+  SmallVector<int64_t> argmaxShape;
+  for (int i = 0, s = inputTy.getSizes().size(); i < s; ++i) {
+    if (i == axisValue)
+      continue;
+    argmaxShape.push_back(inputTy.getSizes()[i]);
+  }
+
+  auto argmaxTy = rewriter.getType<Torch::ValueTensorType>(
+      argmaxShape, rewriter.getIntegerType(32, IntegerType::Signed));
+  Value argmax = Torch::AtenArgmaxOp::create(rewriter, loc, argmaxTy, input,
+                                             axis, constKeepDims);
+
+  // one_hot
+  SmallVector<int64_t> onehotShape(argmaxShape);
+  onehotShape.push_back(inputTy.getSizes()[axisValue]);
+  auto onehotTy = rewriter.getType<Torch::ValueTensorType>(
+      onehotShape, resultType.getDtype());
+  Value numClasses =
+      Torch::AtenSizeIntOp::create(rewriter, binder.getLoc(), input, axis);
+  Value onehot = Torch::AtenOneHotOp::create(rewriter, binder.getLoc(),
+                                             onehotTy, argmax, numClasses);
+
+  SmallVector<int64_t> permutation;
+  for (int i = 0; i < axisValue; ++i)
+    permutation.push_back(i);
+  permutation.push_back(onehotShape.size() - 1);
+  for (int i = axisValue, s = onehotShape.size(); i < s - 1; ++i)
+    permutation.push_back(i);
+
+  SmallVector<Value> permValues;
+  for (auto d : permutation) {
+    permValues.push_back(Torch::ConstantIntOp::create(
+        rewriter, binder.getLoc(), rewriter.getI64IntegerAttr(d)));
+  }
+
+  Value permuteDims = Torch::PrimListConstructOp::create(
+      rewriter, loc, Torch::ListType::get(rewriter.getType<Torch::IntType>()),
+      permValues);
+  rewriter.replaceOpWithNewOp<Torch::AtenPermuteOp>(binder.op, resultType,
+                                                    onehot, permuteDims);
+  return success();
+}
+
 // Simple rewrites for the default domain.
 // See: https://onnx.ai/onnx/operators/
 // For operators that are effectively version invariant, we register with
@@ -3463,89 +3551,18 @@ void mlir::torch::onnx_c::populateDefaultDomainGtoP(
                   return success();
                 });
 
-  patterns.onOp(
-      "Hardmax", 1, [](OpBinder binder, ConversionPatternRewriter &rewriter) {
-        // onnx.Hardmax can be expanded into the following python code:
-        //
-        // import torch.nn.functional as F
-        // def hardmax(tensor, dim=-1):
-        //   maximums = torch.argmax(tensor, dim=dim, keepdim=False)
-        //   return F.one_hot(maximums)
-        //
-        // Given an example input:
-        // tensor([[1, 2, 3],
-        //         [4, 6, 5],
-        //         [9, 8, 7]])
-        // Above code yields the following:
-        // tensor([[0, 0, 1],
-        //         [0, 1, 0],
-        //         [1, 0, 0]])
-
-        Torch::ValueTensorType resultType;
-        int64_t axisValue;
-        Value input, axis;
-        if (binder.tensorOperand(input) ||
-            binder.s64IntegerAttr(axisValue, "axis", -1) ||
-            binder.tensorResultType(resultType))
-          return failure();
-
-        auto loc = binder.getLoc();
-        auto inputTy = cast<Torch::ValueTensorType>(input.getType());
-
-        if (axisValue < 0)
-          axisValue += inputTy.getSizes().size();
-
-        axis = Torch::ConstantIntOp::create(
-            rewriter, loc, rewriter.getI64IntegerAttr(axisValue));
-
-        // torch.argmax
-        Value constKeepDims = Torch::ConstantBoolOp::create(
-            rewriter, loc, rewriter.getType<Torch::BoolType>(),
-            rewriter.getBoolAttr(false));
-
-        SmallVector<int64_t> argmaxShape;
-        for (int i = 0, s = inputTy.getSizes().size(); i < s; ++i) {
-          if (i == axisValue)
-            continue;
-          argmaxShape.push_back(inputTy.getSizes()[i]);
-        }
-
-        auto argmaxTy = rewriter.getType<Torch::ValueTensorType>(
-            argmaxShape, rewriter.getIntegerType(32, IntegerType::Signed));
-        Value argmax = Torch::AtenArgmaxOp::create(rewriter, loc, argmaxTy,
-                                                   input, axis, constKeepDims);
-
-        // one_hot
-        SmallVector<int64_t> onehotShape(argmaxShape);
-        onehotShape.push_back(inputTy.getSizes()[axisValue]);
-        auto onehotTy = rewriter.getType<Torch::ValueTensorType>(
-            onehotShape, resultType.getDtype());
-        Value numClasses = Torch::AtenSizeIntOp::create(
-            rewriter, binder.getLoc(), input, axis);
-        Value onehot = Torch::AtenOneHotOp::create(
-            rewriter, binder.getLoc(), onehotTy, argmax, numClasses);
-
-        SmallVector<int64_t> permutation;
-        for (int i = 0; i < axisValue; ++i)
-          permutation.push_back(i);
-        permutation.push_back(onehotShape.size() - 1);
-        for (int i = axisValue, s = onehotShape.size(); i < s - 1; ++i)
-          permutation.push_back(i);
-
-        SmallVector<Value> permValues;
-        for (auto d : permutation) {
-          permValues.push_back(Torch::ConstantIntOp::create(
-              rewriter, binder.getLoc(), rewriter.getI64IntegerAttr(d)));
-        }
-
-        Value permuteDims = Torch::PrimListConstructOp::create(
-            rewriter, loc,
-            Torch::ListType::get(rewriter.getType<Torch::IntType>()),
-            permValues);
-        rewriter.replaceOpWithNewOp<Torch::AtenPermuteOp>(binder.op, resultType,
-                                                          onehot, permuteDims);
-        return success();
-      });
+  patterns.onOp("Hardmax", 13,
+                [](OpBinder binder, ConversionPatternRewriter &rewriter) {
+                  return convertHardmax(binder, rewriter, /*defaultAxis=*/-1,
+                                        /*coercesTo2d=*/false);
+                });
+  // Before opset 13, the dimensions from `axis` on are one, and `axis` is 1 by
+  // default.
+  patterns.onOp("Hardmax", 1,
+                [](OpBinder binder, ConversionPatternRewriter &rewriter) {
+                  return convertHardmax(binder, rewriter, /*defaultAxis=*/1,
+                                        /*coercesTo2d=*/true);
+                });
   patterns.onOp("LpNormalization", 1,
                 [](OpBinder binder, ConversionPatternRewriter &rewriter) {
                   Torch::ValueTensorType resultType;
-- 
2.43.0


From 7a8211af985556df2826d5acc4097a51fc7184e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 094/132] fix: do not convert onnx.Scan along other axes or
 backward as if it were along the first

scan_input_axes, scan_input_directions, scan_output_axes and
scan_output_directions were ignored.
---
 .../TorchOnnxToTorch/DefaultDomainQtoZ.cpp          | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index a847f8a..ac020fd 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -4951,6 +4951,19 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
                                              "Failed getting LoopBody Region");
         }
 
+        // Only forward scans along the first axis are expanded.
+        for (StringRef name : {"scan_input_axes", "scan_input_directions",
+                               "scan_output_axes", "scan_output_directions"}) {
+          SmallVector<int64_t> values;
+          if (binder.s64IntegerArrayAttr(values, name, {}))
+            return rewriter.notifyMatchFailure(
+                binder.op, "Failed to get axes and directions");
+          if (!llvm::all_of(values, [](int64_t v) { return v == 0; }))
+            return rewriter.notifyMatchFailure(
+                binder.op, "unimplemented: scans along other axes than the "
+                           "first, or backward");
+        }
+
         int64_t numInits = operands.size() - numScanInputs;
         SmallVector<Value> initVals(operands.begin(),
                                     operands.begin() + numInits);
-- 
2.43.0


From 34d47f0eaf154bdf754761369b53868e46b6cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 095/132] fix: centre the even windows of onnx.LRN as ONNX does

---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
index bef3082..37efc6b 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
@@ -2925,8 +2925,8 @@ void mlir::torch::onnx_c::populateDefaultDomainGtoP(
         auto view = Torch::AtenViewOp::create(rewriter, loc, reshapeType,
                                               sqOperand, viewShapeListVal);
         // padding
-        int64_t highPad = (size - 1) / 2;
-        int64_t lowPad = (size - 1) - highPad;
+        int64_t lowPad = (size - 1) / 2;
+        int64_t highPad = (size - 1) - lowPad;
         SmallVector<int64_t> paddingInt{0, 0, 0, 0, lowPad, highPad};
         auto constPadVal = Torch::ConstantFloatOp::create(
             rewriter, loc, rewriter.getType<Torch::FloatType>(),
-- 
2.43.0


From 4fb3df2bc51f8995c879008e20161b89262c3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 096/132] fix: do not read result types that an onnx.Unique
 does not have

---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index ac020fd..b2768cb 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -4481,6 +4481,10 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
             binder.tensorResultTypes(resultTypes))
           return failure();
 
+        if (resultTypes.size() != 4)
+          return rewriter.notifyMatchFailure(
+              binder.op, "unimplemented: fewer than four results");
+
         Value zero = Torch::ConstantIntOp::create(rewriter, binder.getLoc(), 0);
 
         auto inputTy = cast<Torch::ValueTensorType>(input.getType());
-- 
2.43.0


From ecbbe83262df74cfe5a40ce30c888d17327ca2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 097/132] fix: do not replace an ONNX reduction that reduces
 nothing before its last step

---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index b2768cb..51168d3 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -62,7 +62,10 @@ LogicalResult reduceOpImpl(OpBinder binder, ConversionPatternRewriter &rewriter,
       // if the shapes are equal, none of the dims is reduced
       if (llvm::equal(inputShape, resultShape)) {
         // simply fill in the op and return
-        rewriter.replaceOp(binder.op, data);
+        if (!isIntermediateOp)
+          rewriter.replaceOp(binder.op, data);
+        else
+          storeResult = data;
         return success();
       }
       if (areAllElementsDistinct(inputShape)) {
-- 
2.43.0


From 7425df89a2b31818d099e30f7264ea2108fc2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 098/132] fix: convert an onnx.SequenceInsert without a
 position

---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index 51168d3..40736ea 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -3663,15 +3663,17 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
                       binder.tensorListResultType(resultType))
                     return failure();
 
-                  if (binder.op->getNumOperands() == 1) {
+                  if (binder.op->getNumOperands() == 2) {
                     // If True, it means that the `position` arg is missing and
                     // the tensor has to be inserted at the end of the list.
                     Value length = Torch::AtenLenTOp::create(
                         rewriter, binder.getLoc(),
                         rewriter.getType<Torch::IntType>(), inputSequence);
-                    rewriter.replaceOpWithNewOp<Torch::AtenInsertTOp>(
-                        binder.op, inputSequence, /*idx=*/length,
-                        /*el=*/insertValue);
+                    Torch::AtenInsertTOp::create(rewriter, binder.getLoc(),
+                                                 inputSequence,
+                                                 /*idx=*/length,
+                                                 /*el=*/insertValue);
+                    rewriter.replaceOp(binder.op, inputSequence);
                     return success();
                   }
 
-- 
2.43.0


From f186929776cb219fbd8f78654bd6555413a45b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 099/132] fix: unflatten the scattered dimensions of
 onnx.ScatterND alone

The flattened dimensions are those that an index addresses. All of the
data's dimensions were given as their sizes, which fit only where every
dimension is addressed.
---
 lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index 40736ea..12eb277 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -4389,7 +4389,8 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
           return success();
         }
         Value unflattenSizeList = Torch::PrimListConstructOp::create(
-            rewriter, loc, intListTy, dataDims);
+            rewriter, loc, intListTy,
+            ValueRange(dataDims).take_front(indicesLastDim));
         rewriter.replaceOpWithNewOp<Torch::AtenUnflattenIntOp>(
             binder.op, resultType, scatter, constZero, unflattenSizeList);
         return success();
-- 
2.43.0


From 4d32a133fe4c7f77047e494f2c51e041d13fe5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 100/132] fix: onnx.Unique of a tensor that is flattened or of
 unknown extent

The first occurrences of the elements of a flattened tensor were counted
along its first dimension, and unknown extents were taken as -1.
---
 .../TorchOnnxToTorch/DefaultDomainQtoZ.cpp    | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
index 12eb277..44b52e3 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp
@@ -4547,6 +4547,8 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
           input = Torch::AtenFlattenUsingIntsOp::create(
               rewriter, binder.getLoc(), flattenResultTy, input, zero,
               negativeOne);
+          inputTy = flattenResultTy;
+          inputShape = inputTy.getSizes();
         }
 
         Torch::AtenUniqueDimOp intermResults = Torch::AtenUniqueDimOp::create(
@@ -4561,9 +4563,14 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
         auto arangeResultType = rewriter.getType<Torch::ValueTensorType>(
             ArrayRef<int64_t>({inputShape[0]}), countsTy.getOptionalDtype());
 
-        Value inputDimZero = Torch::ConstantIntOp::create(
-            rewriter, binder.getLoc(),
-            rewriter.getI64IntegerAttr(inputShape[0]));
+        Value inputDimZero;
+        if (inputShape[0] != Torch::kUnknownSize)
+          inputDimZero = Torch::ConstantIntOp::create(
+              rewriter, binder.getLoc(),
+              rewriter.getI64IntegerAttr(inputShape[0]));
+        else
+          inputDimZero = Torch::AtenSizeIntOp::create(rewriter, binder.getLoc(),
+                                                      input, axisVal);
         Value int64Type = Torch::ConstantIntOp::create(
             rewriter, binder.getLoc(), rewriter.getI64IntegerAttr(4));
         Value noneVal =
@@ -4586,8 +4593,19 @@ void mlir::torch::onnx_c::populateDefaultDomainQtoZ(
 
         auto newInverseTy = rewriter.getType<Torch::ValueTensorType>(
             ArrayRef<int64_t>({outputTy.getSizes()[0]}), countsTy.getDtype());
-        Value newInverseSize =
-            createConstantIntList(binder, rewriter, {outputTy.getSizes()[0]});
+        Value newInverseSize;
+        if (outputTy.getSizes()[0] != Torch::kUnknownSize) {
+          newInverseSize =
+              createConstantIntList(binder, rewriter, {outputTy.getSizes()[0]});
+        } else {
+          Value numUnique = Torch::AtenSizeIntOp::create(
+              rewriter, binder.getLoc(), uniqueResults[0], axisVal);
+          newInverseSize = Torch::PrimListConstructOp::create(
+              rewriter, binder.getLoc(),
+              Torch::ListType::get(
+                  Torch::IntType::get(binder.op->getContext())),
+              ValueRange{numUnique});
+        }
         Value newInverse = Torch::AtenNewEmptyOp::create(
             rewriter, binder.getLoc(), newInverseTy, inverse, newInverseSize,
             /*dtype=*/int64Type, /*layout=*/noneVal, /*device=*/noneVal,
-- 
2.43.0


From 22f6bd3a6b6aea4267bdbf9cdaf606b47791ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:42 +0000
Subject: [PATCH 101/132] fix: scale the product of an onnx.Gemm without C by
 alpha

---
 .../TorchOnnxToTorch/DefaultDomainGtoP.cpp         | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp b/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
index 37efc6b..0262dec 100644
--- a/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp
@@ -2327,8 +2327,18 @@ void mlir::torch::onnx_c::populateDefaultDomainGtoP(
         }
 
         if (binder.getNumOperands() == 2) {
-          rewriter.replaceOpWithNewOp<Torch::AtenMmOp>(binder.op, resultType, a,
-                                                       b);
+          if (alpha == 1.0) {
+            rewriter.replaceOpWithNewOp<Torch::AtenMmOp>(binder.op, resultType,
+                                                         a, b);
+            return success();
+          }
+          Value mm = Torch::AtenMmOp::create(rewriter, binder.getLoc(),
+                                             resultType, a, b);
+          Value constAlpha = Torch::ConstantFloatOp::create(
+              rewriter, binder.getLoc(), rewriter.getType<Torch::FloatType>(),
+              rewriter.getF64FloatAttr(alpha));
+          rewriter.replaceOpWithNewOp<Torch::AtenMulScalarOp>(
+              binder.op, resultType, mm, constAlpha);
           return success();
         }
 
-- 
2.43.0


From b7d4a9afd566430170bba118a1cfee00b2b6224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 102/132] fix: TorchOnnxToTorch: RNN and GRU without a Y_h
 output do not crash

---
 .../TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
index e65951a..25dbe79 100644
--- a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
@@ -429,7 +429,10 @@ LogicalResult OnnxRnnExpander(OpBinder binder,
   if (!Y_hType)
     Y_h_unsqueezed = cstNone;
 
-  rewriter.replaceOp(binder.op, {Y_unsqueezed, Y_h_unsqueezed});
+  // trailing outputs may be absent from the node
+  SmallVector<Value> outputs = {Y_unsqueezed, Y_h_unsqueezed};
+  outputs.truncate(binder.getNumResults());
+  rewriter.replaceOp(binder.op, outputs);
   return success();
 }
 
@@ -1514,7 +1517,10 @@ LogicalResult OnnxGruExpander(OpBinder binder,
     }
   }
 
-  rewriter.replaceOp(binder.op, mlir::ValueRange{Y_final, Y_h_final});
+  // trailing outputs may be absent from the node
+  SmallVector<Value> outputs = {Y_final, Y_h_final};
+  outputs.truncate(binder.getNumResults());
+  rewriter.replaceOp(binder.op, outputs);
   return success();
 }
 
-- 
2.43.0


From 5ee388285940a7d894c7fa6fa86f7c4385fecd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:00 +0000
Subject: [PATCH 103/132] fix: TorchOnnxToTorch: recurrent layers with
 sequence_lens are not converted as if of full length

---
 .../OnnxRecurrentLayerOpExpanders.cpp         | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
index 25dbe79..d78cd88 100644
--- a/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp
@@ -257,6 +257,10 @@ LogicalResult OnnxRnnExpander(OpBinder binder,
     // if no b found, set to null and create one later
     B = nullptr;
   }
+  if (binder.getNumOperands() > 4 &&
+      !isa<Torch::NoneType>(binder.op->getOperand(4).getType()))
+    return rewriter.notifyMatchFailure(binder.op,
+                                       "sequence_lens not supported");
   if (binder.tensorOperandAtIndex(initial_h, 5)) {
     // if no initial_h found, set to null and create one later
     initial_h = nullptr;
@@ -717,7 +721,7 @@ LogicalResult OnnxLstmExpander(OpBinder binder,
                        std::to_string(activationsList.size()) +
                        " are provided.");
   }
-  // TODO : Add checks, defaults and fails for inputs - sequence_lens, P and
+  // TODO : Add checks, defaults and fails for inputs - P and
   // attrs- clip, input_forget, layout
 
   Value B;
@@ -736,6 +740,11 @@ LogicalResult OnnxLstmExpander(OpBinder binder,
     B = AtenZerosOp::create(b, BType, zerosShapeList, none, none, none, none);
   }
 
+  if (binder.getNumOperands() > 4 &&
+      !isa<Torch::NoneType>(binder.op->getOperand(4).getType()))
+    return rewriter.notifyMatchFailure(binder.op,
+                                       "sequence_lens not supported");
+
   if (binder.op->getNumOperands() > 7 &&
       !isa<Torch::NoneType>(binder.op->getOperand(7).getType()))
     return rewriter.notifyMatchFailure(binder.op,
@@ -1294,7 +1303,7 @@ LogicalResult OnnxGruExpander(OpBinder binder,
                                        "At least one output must be present");
   }
 
-  Value X, W, R, B, initial_h, sequence_lens;
+  Value X, W, R, B, initial_h;
   if (binder.tensorOperandAtIndex(X, 0) || binder.tensorOperandAtIndex(W, 1) ||
       binder.tensorOperandAtIndex(R, 2))
     return rewriter.notifyMatchFailure(binder.op,
@@ -1392,8 +1401,10 @@ LogicalResult OnnxGruExpander(OpBinder binder,
     }
   }
 
-  if (binder.tensorOperandAtIndex(sequence_lens, 4))
-    sequence_lens = ConstantNoneOp::create(b);
+  if (binder.getNumOperands() > 4 &&
+      !isa<Torch::NoneType>(binder.op->getOperand(4).getType()))
+    return rewriter.notifyMatchFailure(binder.op,
+                                       "sequence_lens not supported");
 
   float clip;
   if (!binder.f32FloatAttr(clip, "clip") && clip != 0.0f)
-- 
2.43.0


From b0f971f7e11d0b592de0d2e602cc208137e321d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 104/132] fix: com.microsoft.QLinearLeakyRelu without alpha has
 slope 0.01, not 0

---
 lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp b/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp
index 9e0249d..cd4be60 100644
--- a/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp
@@ -1011,7 +1011,7 @@ void mlir::torch::onnx_c::populateComMicrosoftDomain(
         float alpha;
         if (binder.tensorOperandsList(operands) ||
             binder.tensorResultType(resultType) ||
-            binder.f32FloatAttr(alpha, "alpha"))
+            binder.f32FloatAttr(alpha, "alpha", 0.01f))
           return failure();
 
         if (operands.size() != 5)
-- 
2.43.0


From fa87de4af01bf163ad3f223ae6a3c30bd251f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 105/132] fix: com.microsoft.FusedMatMul scales its product by
 alpha

---
 .../TorchOnnxToTorch/ComMicrosoftDomain.cpp        | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp b/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp
index cd4be60..911a81d 100644
--- a/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp
+++ b/lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp
@@ -1412,7 +1412,9 @@ void mlir::torch::onnx_c::populateComMicrosoftDomain(
         Torch::ValueTensorType resultType;
         Value lhs, rhs;
         int64_t transA, transB, transBatchA, transBatchB;
+        float alpha;
         if (binder.tensorOperands(lhs, rhs) ||
+            binder.f32FloatAttr(alpha, "alpha", 1.0f) ||
             binder.s64IntegerAttr(transA, "transA", 0) ||
             binder.s64IntegerAttr(transB, "transB", 0) ||
             binder.s64IntegerAttr(transBatchA, "transBatchA", 0) ||
@@ -1458,8 +1460,16 @@ void mlir::torch::onnx_c::populateComMicrosoftDomain(
               binder.op, "Unimplemented: support not present for "
                          "transBatchA and transBatchB attribute");
 
-        rewriter.replaceOpWithNewOp<Torch::AtenMatmulOp>(
-            binder.op, resultType, transposedLhs, transposedRhs);
+        Value result =
+            Torch::AtenMatmulOp::create(rewriter, binder.getLoc(), resultType,
+                                        transposedLhs, transposedRhs);
+        if (alpha != 1.0f) {
+          Value cstAlpha = Torch::ConstantFloatOp::create(
+              rewriter, binder.getLoc(), rewriter.getF64FloatAttr(alpha));
+          result = Torch::AtenMulScalarOp::create(rewriter, binder.getLoc(),
+                                                  resultType, result, cstAlpha);
+        }
+        rewriter.replaceOp(binder.op, result);
         return success();
       });
   patterns.onOp(
-- 
2.43.0


From a32e861bf1dc0e1aaae7952022301416fd1932ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:39 +0000
Subject: [PATCH 106/132] fix: softshrink adds lambd to the elements below
 -lambd

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index ace58d6..c3662c0 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -3334,7 +3334,7 @@ public:
     Value posValue = AtenSubScalarOp::create(rewriter, loc, resTy, self,
                                              poslambd, constOneFloat);
     Value negValue = AtenAddScalarOp::create(rewriter, loc, resTy, self,
-                                             neglambd, constOneFloat);
+                                             poslambd, constOneFloat);
 
     Value result = AtenWhereScalarOtherOp::create(rewriter, loc, resTy, posMask,
                                                   posValue, zero);
-- 
2.43.0


From be8181b17e39b447456c9f04d6780b848047b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 107/132] fix: leaky_relu_backward chooses by the sign of the
 input

---
 .../Torch/Transforms/DecomposeComplexOps.cpp  | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index c3662c0..21ed7c7 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -4314,18 +4314,15 @@ public:
 
     Value constantZero =
         ConstantIntOp::create(rewriter, loc, rewriter.getI64IntegerAttr(0));
-    Value constantOne =
-        ConstantFloatOp::create(rewriter, loc, rewriter.getF64FloatAttr(1.0));
-    Value zeroTensor = createRank0Tensor(rewriter, loc, resType, constantZero);
-    Value positiveOutput =
-        AtenMaximumOp::create(rewriter, loc, resType, zeroTensor, gradOutput);
-    Value negativeOutput =
-        AtenMinimumOp::create(rewriter, loc, resType, zeroTensor, input);
-    Value scaledNegativeOutput = AtenMulScalarOp::create(
-        rewriter, loc, resType, negativeOutput, negativeSlope);
-    Value leakyReluBackwardOutput =
-        AtenAddTensorOp::create(rewriter, loc, resType, positiveOutput,
-                                scaledNegativeOutput, constantOne);
+    // The gradient passes where the input is positive, and is scaled elsewhere.
+    auto boolType = resType.getWithSizesAndDtype(resType.getOptionalSizes(),
+                                                 rewriter.getI1Type());
+    Value positive =
+        AtenGtScalarOp::create(rewriter, loc, boolType, input, constantZero);
+    Value scaledGradOutput = AtenMulScalarOp::create(rewriter, loc, resType,
+                                                     gradOutput, negativeSlope);
+    Value leakyReluBackwardOutput = AtenWhereSelfOp::create(
+        rewriter, loc, resType, positive, gradOutput, scaledGradOutput);
 
     rewriter.replaceOp(op, leakyReluBackwardOutput);
     return success();
-- 
2.43.0


From e444f533cf00665e1193d9357eb9e3d662bf81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 108/132] fix: renorm counts a negative dim from the end

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 21ed7c7..fe98d89 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -3507,6 +3507,9 @@ public:
     if (!matchPattern(dim, m_TorchConstantInt(&dimInt)))
       return rewriter.notifyMatchFailure(op,
                                          "Unimplemented: dim not constant int");
+    dimInt = toPositiveDim(dimInt, inputSize.size());
+    if (!isValidDim(dimInt, inputSize.size()))
+      return rewriter.notifyMatchFailure(op, "dim is not a valid dim");
 
     // Define all constants
     Value cstTrue = ConstantBoolOp::create(rewriter, loc, true);
-- 
2.43.0


From dab43c0440f77c0f423335914389255014b5a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:41 +0000
Subject: [PATCH 109/132] fix: the norm of _weight_norm_interface has the type
 of its result

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index fe98d89..e4b1ed6 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -8148,7 +8148,7 @@ class DecomposeAten_WeightNormInterfaceOp
         Torch::ListType::get(Torch::IntType::get(op->getContext())), keepDims);
 
     Value norm = AtenLinalgVectorNormOp::create(
-        rewriter, loc, v.getType(), v, ord, dimList, keepdim, dtypeNone);
+        rewriter, loc, op.getType(1), v, ord, dimList, keepdim, dtypeNone);
 
     auto vShape = AtenSizeOp::create(
         rewriter, loc, Torch::ListType::get(rewriter.getI64Type()), v);
-- 
2.43.0


From 863808d7fb410b17279010c66b0a68ce63e61668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:41 +0000
Subject: [PATCH 110/132] fix: the convolution of conv_tbc has the type of its
 layout

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index e4b1ed6..85bedfb 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -5940,9 +5940,15 @@ public:
       return rewriter.notifyMatchFailure(op,
                                          "failed to transpose weight to Fcw");
 
+    // The output of the convolution has the layout Ncw, that of the op Wnc.
+    Type outputNwcType, outputNcwType;
+    if (failed(getTransposedType(cast<BaseTensorType>(op.getType()), 0, 1,
+                                 outputNwcType)) ||
+        failed(getTransposedType(cast<BaseTensorType>(outputNwcType), 1, 2,
+                                 outputNcwType)))
+      return rewriter.notifyMatchFailure(op, "failed to transpose type to Ncw");
     Value outputNcw = AtenConvolutionOp::create(
-        rewriter, op.getLoc(), op->getResultTypes(), selfNcw, weightFcw,
-        op.getBias(),
+        rewriter, op.getLoc(), outputNcwType, selfNcw, weightFcw, op.getBias(),
         /*stride*/ oneList,
         /*padding*/ padding, /*dilation*/ oneList,
         /*transpose*/ cstFalse, /*output_padding*/ emptyList, groups);
-- 
2.43.0


From 86f9a33c841f8bd96f6eea9204da0349bd68f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 111/132] fix: amax and amin sort their dims after counting
 negative ones from the end

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 85bedfb..911c822 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -2824,14 +2824,17 @@ public:
       dims = llvm::to_vector(llvm::seq<int64_t>(0, inputTy.getSizes().size()));
     }
 
+    int64_t inputRank = inputTy.getSizes().size();
+    for (int64_t &dimInt : dims) {
+      dimInt = toPositiveDim(dimInt, inputRank);
+      if (!isValidDim(dimInt, inputRank))
+        return rewriter.notifyMatchFailure(op, "dim is statically invalid");
+    }
+
     // For every dimension included in `dim` of the op, iterated over in
     // reverse order, we create a call to aten.max.dim.
     std::sort(dims.rbegin(), dims.rend());
     for (int64_t dimInt : dims) {
-      int64_t inputRank = inputTy.getSizes().size();
-      dimInt = toPositiveDim(dimInt, inputRank);
-      if (!isValidDim(dimInt, inputRank))
-        return rewriter.notifyMatchFailure(op, "dim is statically invalid");
       Value dim = Torch::ConstantIntOp::create(
           rewriter, loc, rewriter.getI64IntegerAttr(dimInt));
       // The input to the next invocation of aten.max.dim is the output of the
-- 
2.43.0


From 53bbeab7ceaa37ea38ac01b8ed0e7d754cf493e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 112/132] fix: select_scatter at a negative index writes a
 slice that is not empty

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 911c822..d94b282 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -10482,6 +10482,12 @@ public:
 
     Value one =
         ConstantIntOp::create(rewriter, loc, rewriter.getI64IntegerAttr(1));
+    int64_t startInt;
+    if (matchPattern(start, m_TorchConstantInt(&startInt)) && startInt < 0) {
+      // The slice up to one past the last element does not end at 0.
+      Value size = AtenSizeIntOp::create(rewriter, loc, self, dim);
+      start = AtenAddIntOp::create(rewriter, loc, size.getType(), start, size);
+    }
     Value startPlusOne =
         AtenAddIntOp::create(rewriter, loc, one.getType(), start, one);
 
-- 
2.43.0


From a9b656ab676ed59c41118d8422619734c096abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 113/132] fix: the indices of triu_indices and tril_indices
 have the dtype asked for

---
 .../Torch/Transforms/DecomposeComplexOps.cpp  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index d94b282..374f4df 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -1001,11 +1001,11 @@ public:
     colInds1 = AtenFloorOp::create(rewriter, loc, colInds1.getType(), colInds1);
 
     // Convert to dtype
-    Type int64Type = rewriter.getIntegerType(/*width=*/64, /*isSigned=*/true);
+    Type indexType = *dtypeType;
 
     auto rowInds1Type = cast<BaseTensorType>(rowInds1.getType());
     ArrayRef<int64_t> sizes = rowInds1Type.getSizes();
-    Type finalRowType = rowInds1Type.getWithSizesAndDtype(sizes, int64Type);
+    Type finalRowType = rowInds1Type.getWithSizesAndDtype(sizes, indexType);
     rowInds1 =
         AtenToDtypeOp::create(rewriter, loc, finalRowType, rowInds1, dtype,
                               /*non_blocking=*/cstFalse, /*copy=*/cstFalse,
@@ -1013,7 +1013,7 @@ public:
 
     auto colInds1Type = cast<BaseTensorType>(colInds1.getType());
     sizes = colInds1Type.getSizes();
-    Type finalColType = colInds1Type.getWithSizesAndDtype(sizes, int64Type);
+    Type finalColType = colInds1Type.getWithSizesAndDtype(sizes, indexType);
     colInds1 =
         AtenToDtypeOp::create(rewriter, loc, finalColType, colInds1, dtype,
                               /*non_blocking=*/cstFalse, /*copy=*/cstFalse,
@@ -1045,7 +1045,7 @@ public:
 
     // Concatenate row and col indices
     Type finalCatType = colInds1Type.getWithSizesAndDtype(
-        {rectangleSizeInt + trapezoidSizeInt}, int64Type);
+        {rectangleSizeInt + trapezoidSizeInt}, indexType);
 
     Value catRow = AtenCatOp::create(rewriter, loc, finalCatType, sequenceRow,
                                      /*dim=*/cstZero);
@@ -1057,7 +1057,7 @@ public:
         rewriter, loc, Torch::ListType::get(context, rowInds1.getType()),
         ValueRange{catRow, catCol});
     Type finalStackType = colInds1Type.getWithSizesAndDtype(
-        ArrayRef<int64_t>{2, rectangleSizeInt + trapezoidSizeInt}, int64Type);
+        ArrayRef<int64_t>{2, rectangleSizeInt + trapezoidSizeInt}, indexType);
 
     rewriter.replaceOpWithNewOp<AtenStackOp>(op, finalStackType, sequence,
                                              cstZero);
@@ -1199,11 +1199,11 @@ public:
     colInds1 = AtenFloorOp::create(rewriter, loc, colInds1.getType(), colInds1);
 
     // Convert top trapezoid indices to dtype
-    Type int64Type = rewriter.getIntegerType(/*width=*/64, /*isSigned=*/true);
+    Type indexType = *dtypeType;
 
     auto rowInds1Type = cast<BaseTensorType>(rowInds1.getType());
     ArrayRef<int64_t> sizes = rowInds1Type.getSizes();
-    Type finalRowType = rowInds1Type.getWithSizesAndDtype(sizes, int64Type);
+    Type finalRowType = rowInds1Type.getWithSizesAndDtype(sizes, indexType);
     rowInds1 = AtenAddScalarOp::create(rewriter, loc, rowInds1.getType(),
                                        rowInds1, rowOffset, cstOne);
     rowInds1 =
@@ -1213,7 +1213,7 @@ public:
 
     auto colInds1Type = cast<BaseTensorType>(colInds1.getType());
     sizes = colInds1Type.getSizes();
-    Type finalColType = colInds1Type.getWithSizesAndDtype(sizes, int64Type);
+    Type finalColType = colInds1Type.getWithSizesAndDtype(sizes, indexType);
     colInds1 =
         AtenToDtypeOp::create(rewriter, loc, finalColType, colInds1, dtype,
                               /*non_blocking=*/cstFalse, /*copy=*/cstFalse,
@@ -1253,7 +1253,7 @@ public:
 
     // Concatenate row and col indices
     Type finalCatType = colInds1Type.getWithSizesAndDtype(
-        {rectangleSizeInt + trapezoidSizeInt}, int64Type);
+        {rectangleSizeInt + trapezoidSizeInt}, indexType);
 
     Value catRow = AtenCatOp::create(rewriter, loc, finalCatType, sequenceRow,
                                      /*dim=*/cstZero);
@@ -1265,7 +1265,7 @@ public:
         rewriter, loc, Torch::ListType::get(context, rowInds1.getType()),
         ValueRange{catRow, catCol});
     Type finalStackType = colInds1Type.getWithSizesAndDtype(
-        ArrayRef<int64_t>{2, rectangleSizeInt + trapezoidSizeInt}, int64Type);
+        ArrayRef<int64_t>{2, rectangleSizeInt + trapezoidSizeInt}, indexType);
 
     rewriter.replaceOpWithNewOp<AtenStackOp>(op, finalStackType, sequence,
                                              cstZero);
-- 
2.43.0


From 77b7f68ce6f39eb8ff08b8cfc3e4369d23d77804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 114/132] fix: fft_rfft of integers is not decomposed into a
 transform of integers

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 374f4df..0af1d40 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -12041,6 +12041,11 @@ class DecomposeAtenFftRfftOp final : public OpRewritePattern<AtenFftRfftOp> {
           op, "unsupported: only ranked tensors are supported");
     }
 
+    if (!isa_and_nonnull<mlir::FloatType>(inputType.getOptionalDtype())) {
+      return rewriter.notifyMatchFailure(
+          op, "unsupported: only floating point tensors are supported");
+    }
+
     const ArrayRef<int64_t> inputShape = inputType.getSizes();
     dim += dim < 0 ? inputShape.size() : 0;
 
-- 
2.43.0


From 13003ea6e2856fd20fb80e23333cdfdc4f341938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:22 +0000
Subject: [PATCH 115/132] fix: masked_scatter declines a self that the mask
 broadcasts

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 0af1d40..abe26dc 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -5793,6 +5793,9 @@ public:
     if (!sourceTy || !sourceTy.areAllSizesKnown() || !sourceTy.hasDtype())
       return rewriter.notifyMatchFailure(
           op, "Unimplemented: no implementation for rankless tensor");
+    if (resTy.areAllSizesKnown() && resTy.getSizes() != selfTy.getSizes())
+      return rewriter.notifyMatchFailure(
+          op, "Unimplemented: self is broadcast to the shape of mask");
 
     int64_t selfNumel = getTensorNumel(self).value(); // as selfTy has sizes
     int64_t sourceNumel =
-- 
2.43.0


From 43b9305a9739538047e1ab1961aa3456fc9e2fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:59 +0000
Subject: [PATCH 116/132] fix: a maximum or minimum along a dim that is out of
 range is declined

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index abe26dc..b01e65c 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -106,8 +106,9 @@ static Value createMaxAlongDimension(PatternRewriter &rewriter, Location loc,
                                      Operation *op, Value input, Value dim,
                                      bool keepDim) {
   Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
-  BaseTensorType valueType = cast<BaseTensorType>(computeReductionType(
-      rewriter, op, cast<BaseTensorType>(input.getType()), dim, keepDim));
+  BaseTensorType valueType =
+      dyn_cast_or_null<BaseTensorType>(computeReductionType(
+          rewriter, op, cast<BaseTensorType>(input.getType()), dim, keepDim));
   if (!valueType)
     return nullptr;
   BaseTensorType indexType =
@@ -125,8 +126,9 @@ static Value createMinAlongDimension(PatternRewriter &rewriter, Location loc,
                                      Operation *op, Value input, Value dim,
                                      bool keepDim) {
   Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
-  BaseTensorType valueType = cast<BaseTensorType>(computeReductionType(
-      rewriter, op, cast<BaseTensorType>(input.getType()), dim, keepDim));
+  BaseTensorType valueType =
+      dyn_cast_or_null<BaseTensorType>(computeReductionType(
+          rewriter, op, cast<BaseTensorType>(input.getType()), dim, keepDim));
   if (!valueType)
     return nullptr;
   BaseTensorType indexType =
-- 
2.43.0


From 1fb02434789f5683331439a415b86e5251639a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:35 +0000
Subject: [PATCH 117/132] fix: the differences of mse_loss have the shape to
 which they broadcast

---
 .../Torch/Transforms/DecomposeComplexOps.cpp       | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index b01e65c..a964268 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -10580,9 +10580,17 @@ public:
     if (!inputType.hasSizes())
       return rewriter.notifyMatchFailure(
           op, "Expected the input tensor to have sizes");
-    BaseTensorType subType = cast<BaseTensorType>(
-        inputType.getWithSizesAndDtype(llvm::ArrayRef(inputType.getSizes()),
-                                       resultType.getOptionalDtype()));
+    BaseTensorType targetType = cast<BaseTensorType>(op.getTarget().getType());
+    if (!targetType.hasSizes())
+      return rewriter.notifyMatchFailure(
+          op, "Expected the target tensor to have sizes");
+    SmallVector<int64_t> subSizes;
+    SmallVector<Value> subSizeValues;
+    computeBroadcastShape(rewriter, loc, {op.getSelf(), op.getTarget()},
+                          subSizes, subSizeValues);
+    BaseTensorType subType =
+        cast<BaseTensorType>(inputType.getWithSizesAndDtype(
+            llvm::ArrayRef(subSizes), resultType.getOptionalDtype()));
 
     Value sub =
         createTensorSub(rewriter, loc, subType, op.getSelf(), op.getTarget());
-- 
2.43.0


From 79ca42a907db166a85f63044295b4b5b7dc346b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:36 +0000
Subject: [PATCH 118/132] fix: the differences of l1_loss have the shape to
 which they broadcast

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index a964268..09b0593 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -10633,7 +10633,7 @@ public:
 
     Value target = op.getTarget();
     auto targetTy = dyn_cast<BaseTensorType>(target.getType());
-    if (!targetTy || !targetTy.hasDtype()) {
+    if (!targetTy || !targetTy.hasSizes() || !targetTy.hasDtype()) {
       return rewriter.notifyMatchFailure(
           op, "Expected target to be a tensor with sizes and a dtype");
     }
@@ -10659,7 +10659,11 @@ public:
           op, "Expected reduction to be a constant int");
     }
 
-    auto subTy = outTy.getWithSizesAndDtype(selfTy.getSizes(), outDtype);
+    SmallVector<int64_t> subSizes;
+    SmallVector<Value> subSizeValues;
+    computeBroadcastShape(rewriter, loc, {self, target}, subSizes,
+                          subSizeValues);
+    auto subTy = outTy.getWithSizesAndDtype(llvm::ArrayRef(subSizes), outDtype);
     Value sub = createTensorSub(rewriter, loc, subTy, self, target);
     Value abs = AtenAbsOp::create(rewriter, loc, subTy, sub);
 
-- 
2.43.0


From 2c311a419268f7fc29fb28aeee6530d788188bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:37 +0000
Subject: [PATCH 119/132] fix: the losses of kl_div have the shape to which
 they broadcast

---
 .../Torch/Transforms/DecomposeComplexOps.cpp        | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 09b0593..a1062d2 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -11684,17 +11684,26 @@ class DecomposeAtenKlDivOp : public OpRewritePattern<AtenKlDivOp> {
       logOfTarget = target;
     }
 
+    SmallVector<int64_t> lossSizes;
+    SmallVector<Value> lossSizeValues;
+    computeBroadcastShape(rewriter, loc, {self, target}, lossSizes,
+                          lossSizeValues);
+
     Value constOne =
         ConstantIntOp::create(rewriter, loc, rewriter.getI64IntegerAttr(1));
-    Value subValue = AtenSubTensorOp::create(rewriter, loc, selfTy, logOfTarget,
+    Type subTy = selfTy.getWithSizesAndDtype(llvm::ArrayRef(lossSizes),
+                                             selfTy.getDtype());
+    Value subValue = AtenSubTensorOp::create(rewriter, loc, subTy, logOfTarget,
                                              self, constOne);
 
     // if target tensor is already in log space
     if (logTargetBool) {
       target = AtenExpOp::create(rewriter, loc, targetTy, target);
     }
+    Type lossTy = targetTy.getWithSizesAndDtype(llvm::ArrayRef(lossSizes),
+                                                targetTy.getDtype());
     Value lossPointwise =
-        AtenMulTensorOp::create(rewriter, loc, targetTy, target, subValue);
+        AtenMulTensorOp::create(rewriter, loc, lossTy, target, subValue);
 
     // Extract reduction int value from reduction argument
     int64_t reduction;
-- 
2.43.0


From c43f190445d51a6ec3b4d3d925d0c7ea23215ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:51 +0000
Subject: [PATCH 120/132] fix: rrelu_with_noise keeps its training flag

The decomposition passed training=False to rrelu_with_noise_functional,
and built that op of two results with the type of one.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index a1062d2..62ef6ab 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -4501,11 +4501,9 @@ public:
     Value upper = op.getUpper();
     auto resType = cast<BaseTensorType>(op.getType());
     Value cstNone = ConstantNoneOp::create(rewriter, loc);
-    Value cstFalse =
-        ConstantBoolOp::create(rewriter, loc, rewriter.getBoolAttr(false));
     Value result = AtenRreluWithNoiseFunctionalOp::create(
-                       rewriter, loc, resType, self, noise, lower, upper,
-                       cstFalse, cstNone)
+                       rewriter, loc, resType, noise.getType(), self, noise,
+                       lower, upper, op.getTraining(), cstNone)
                        ->getResult(0);
     rewriter.replaceOp(op, result);
     return success();
-- 
2.43.0


From 8e80d7ab9219d412f3255020b94a7d15bd2e5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:16 +0000
Subject: [PATCH 121/132] fix: do not decompose the weight gradient of a
 grouped convolution

Both ways of computing it multiply every input channel with every output
channel, which is the gradient of the weight only if there is one group.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 62ef6ab..a23cbff 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -6317,6 +6317,14 @@ public:
       return rewriter.notifyMatchFailure(
           op, "unimplemented: transposed convolutions are not supported.");
 
+    int64_t groups;
+    if (outMask[1] &&
+        (!matchPattern(op.getGroups(), m_TorchConstantInt(&groups)) ||
+         groups != 1))
+      return rewriter.notifyMatchFailure(
+          op, "unimplemented: the gradient of the weight of a grouped "
+              "convolution.");
+
     Value cstZero = Torch::ConstantIntOp::create(rewriter, loc,
                                                  rewriter.getI64IntegerAttr(0));
     Value cstOne = Torch::ConstantIntOp::create(rewriter, loc,
-- 
2.43.0


From 436634eef3ba462ed96f089f90b49af9bfd0c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 122/132] fix: convolution_backward views the weight gradient
 by its sizes

Where several extents of the view were unknown to the types, several -1s
were passed as its shape, which no view accepts.
---
 .../Torch/Transforms/DecomposeComplexOps.cpp     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index a23cbff..a1cf526 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -6503,9 +6503,21 @@ public:
 
         SmallVector<Value> gradWeightViewShapeValue;
         for (unsigned i = 0; i < gradWeightViewShapeInt.size(); i++) {
-          gradWeightViewShapeValue.push_back(Torch::ConstantIntOp::create(
+          if (gradWeightViewShapeInt[i] != kUnknownSize) {
+            gradWeightViewShapeValue.push_back(Torch::ConstantIntOp::create(
+                rewriter, loc,
+                rewriter.getI64IntegerAttr(gradWeightViewShapeInt[i])));
+            continue;
+          }
+          // [in channels, batch, out channels, kernel...]
+          Value from = i < 2 ? inputTransposed : i == 2 ? gradOutput : weight;
+          Value dim = Torch::ConstantIntOp::create(
               rewriter, loc,
-              rewriter.getI64IntegerAttr(gradWeightViewShapeInt[i])));
+              rewriter.getI64IntegerAttr(i < 2    ? i
+                                         : i == 2 ? 1
+                                                  : i - 1));
+          gradWeightViewShapeValue.push_back(
+              Torch::AtenSizeIntOp::create(rewriter, loc, from, dim));
         }
 
         Value gradWeightViewShapeList = Torch::PrimListConstructOp::create(
-- 
2.43.0


From 55b07cb5ab7f867a2608b4ca707707e8442bb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 123/132] fix: an einsum ellipsis may stand for no dims

If it did for all operands, it was replaced by the whole alphabet.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index a1cf526..d4a8eef 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -244,13 +244,10 @@ rewriteEquationWithEllipsisSlicing(std::string &equation,
   std::string ellipsisToken;
   int usedCount = 0;
   // Iterate over the alphabet to create a new token for ellipsis
-  for (char c = 'a'; c <= 'z'; ++c) {
+  for (char c = 'a'; c <= 'z' && usedCount < maxEllipsisRank; ++c) {
     if (!isTokenUsed(c)) {
       ellipsisToken.push_back(c);
       usedCount++;
-      if (usedCount == maxEllipsisRank) {
-        break;
-      }
     }
   }
 
-- 
2.43.0


From 928bb4adbec660d8cd1c802f9936670aa62e9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 124/132] fix: einsum contracts a dim only where no later
 operand has it

A dim shared by three operands and absent from the result was summed
over the product of the first two, and once more over the third.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index d4a8eef..af0e2a0 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -2042,8 +2042,12 @@ public:
       auto rhs = inputTensors[i];
       auto rhsTokens = inputTokens[i];
       SmallVector<char> outTokens;
+      // Dims of the operands to come must not be contracted yet.
+      SmallVector<char> neededTokens = resultTokens;
+      for (size_t j = i + 1; j < inputTensors.size(); ++j)
+        neededTokens.append(inputTokens[j].begin(), inputTokens[j].end());
       if (failed(performMatmul(rewriter, loc, lhs, lhsTokens, rhs, rhsTokens,
-                               result, outTokens, resultTokens))) {
+                               result, outTokens, neededTokens))) {
         return failure();
       }
       lhs = result;
-- 
2.43.0


From ad407b55211d5e0b7fa197c004b261317d966ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 125/132] fix: einsum equations without an arrow have an
 implicit result

They were taken to sum over all dims.
---
 .../Torch/Transforms/DecomposeComplexOps.cpp       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index af0e2a0..ea525ab 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -183,6 +183,19 @@ static SmallVector<int64_t> computeDimsOrderForMoveDim(int64_t srcDimInt,
   return dimsOrder;
 }
 
+// An equation without "->" has the dims of its ellipsis and then, in
+// alphabetical order, the tokens that appear exactly once as its result.
+static void addImplicitResult(std::string &equation) {
+  if (equation.find("->") != std::string::npos)
+    return;
+  std::string result = equation.find("...") != std::string::npos ? "..." : "";
+  for (char c = 'A'; c <= 'z'; ++c) {
+    if (std::isalpha(c) && llvm::count(equation, c) == 1)
+      result.push_back(c);
+  }
+  equation = equation + "->" + result;
+}
+
 static bool
 rewriteEquationWithEllipsisSlicing(std::string &equation,
                                    SmallVector<int64_t> &inputRanks) {
@@ -2007,6 +2020,7 @@ public:
     if (!matchPattern(op.getEquation(), m_TorchConstantStr(equation))) {
       return rewriter.notifyMatchFailure(op, "Unsupported value of equation");
     }
+    addImplicitResult(equation);
     // if "..." in equation, modify it
     if (equation.find("...") != std::string::npos) {
       SmallVector<int64_t> inputRanks;
-- 
2.43.0


From 04d5e2b9dd7a71b5c64ef36253deeab17fb31e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 126/132] fix: DecomposePrimTolistOp reports success once it
 has replaced the op

The pattern replaced prim.tolist and then returned failure(), which tells the
rewrite driver that the IR is unchanged and that the (erased) operation may be
tried with further patterns.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index ea525ab..392914e 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -1527,7 +1527,7 @@ class DecomposePrimTolistOp : public OpRewritePattern<PrimTolistOp> {
     }
 
     rewriter.replaceOpWithNewOp<PrimListConstructOp>(op, resultTy, results);
-    return failure();
+    return success();
   }
 };
 } // namespace
-- 
2.43.0


From 7ff8d80039a240ddf2dec6e079975d50b6b325e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:38 +0000
Subject: [PATCH 127/132] fix: stft.center declines return_complex=False

The decomposition tested the operand instead of its value, and built a
complex result for the real one the operator has then.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 392914e..bd6a20b 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -7066,7 +7066,7 @@ public:
     if (!matchPattern(returnComplex, m_TorchConstantBool(&returnComplexBool)))
       return rewriter.notifyMatchFailure(
           op, "Unsupported: non-constant return_complex");
-    if (!returnComplex)
+    if (!returnComplexBool)
       return rewriter.notifyMatchFailure(op,
                                          "Unsupported: return_complex=False");
 
-- 
2.43.0


From 127d1c556697fa127c9af3f94867e6e746bb8838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 128/132] fix: stft.center without a window keeps to win_length

PyTorch takes a window of win_length ones, padded with zeros to n_fft; the
decomposition left all n_fft samples of a frame in.
---
 .../Torch/Transforms/DecomposeComplexOps.cpp  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index bd6a20b..01d513f 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -7073,9 +7073,25 @@ public:
     Value window = op.getWindow();
     ValueTensorType windowTensorType;
     Type windowDType;
-    const bool hasWindow = !isa<Torch::NoneType>(window.getType());
+    bool hasWindow = !isa<Torch::NoneType>(window.getType());
 
-    if (hasWindow) {
+    if (!hasWindow && winLengthInt < n_fftInt) {
+      // Without a window the operator takes win_length ones, which are padded
+      // to n_fft like any other window.
+      windowDType = selfType.getDtype();
+      if (!isa<mlir::FloatType>(windowDType))
+        return rewriter.notifyMatchFailure(
+            op, "Unsupported: complex input with win_length less than n_fft");
+      windowTensorType = rewriter.getType<ValueTensorType>(
+          SmallVector<int64_t>{winLengthInt}, windowDType);
+      Value windowSizes = toIntListConstruct(rewriter, loc, {winLengthInt});
+      Value windowDtypeInt =
+          getDtypeIntValueForType(rewriter, loc, windowDType);
+      Value noneVal = ConstantNoneOp::create(rewriter, loc);
+      window = AtenOnesOp::create(rewriter, loc, windowTensorType, windowSizes,
+                                  windowDtypeInt, noneVal, noneVal, noneVal);
+      hasWindow = true;
+    } else if (hasWindow) {
       windowTensorType = cast<ValueTensorType>(window.getType());
       windowDType = windowTensorType.getOptionalDtype();
       if (!windowTensorType.hasDtype() || !windowTensorType.hasSizes()) {
-- 
2.43.0


From 4e02906da0ae556e1bbf02233e364ece81b9a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 129/132] fix: two-sided stft.center has n_fft frequencies

The result was created with n_fft / 2 + 1 of them whatever onesided is, which
is smaller than what is scattered into it.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 01d513f..41d4a30 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -7163,8 +7163,13 @@ public:
                                      window, newWindowShape);
     }
 
-    Value nFreqs = ConstantIntOp::create(
-        rewriter, loc, rewriter.getI64IntegerAttr(n_fftInt / 2 + 1));
+    // As many frequencies as shape inference gave the result: n_fft of a
+    // two-sided transform, about half as many of a onesided one.
+    int64_t nFreqsInt = resultSizes[resultSizes.size() - 2];
+    if (nFreqsInt == kUnknownSize)
+      nFreqsInt = onesidedBool ? n_fftInt / 2 + 1 : n_fftInt;
+    Value nFreqs = ConstantIntOp::create(rewriter, loc,
+                                         rewriter.getI64IntegerAttr(nFreqsInt));
     SmallVector<Value> sizesValues =
         selfType.getSizes().size() == 2
             ? SmallVector<Value>(
-- 
2.43.0


From 0d5484e5e838b65d59fba4d4cddc7fb76add6c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:40 +0000
Subject: [PATCH 130/132] fix: the decomposition of an integer signbit reports
 success

It returned failure() after replacing the operation.
---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 41d4a30..4197713 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -10020,6 +10020,7 @@ class DecomposeAtenSignbitOp : public OpRewritePattern<AtenSignbitOp> {
           ConstantIntOp::create(rewriter, loc, rewriter.getI64IntegerAttr(0));
       Value shift = AtenLtScalarOp::create(rewriter, loc, resultTy, self, zero);
       rewriter.replaceOp(op, shift);
+      return success();
     }
     return failure();
   }
-- 
2.43.0


From bf4252cad5dbdf1c8f79a9d4a67f4153add61fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:52 +0000
Subject: [PATCH 131/132] fix: the canonicalization that erases a dead
 aten.size reports success

It erased the operation and returned failure(), so that the driver went on to
try the other pattern of aten.size on the erased operation.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index bda1d0f..7c71ad9 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -2517,7 +2517,7 @@ void AtenSizeOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     if (!op.use_empty())
       return failure();
     rewriter.eraseOp(op);
-    return failure();
+    return success();
   });
 }
 
-- 
2.43.0


From 30d9b1dd00e5d3d2782687ef26ae71a5e6f2e575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:52 +0000
Subject: [PATCH 132/132] fix: the canonicalization of aten.masked_fill.Tensor
 reports success

It returned failure() after replacing the operation.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 7c71ad9..ebe240d 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3131,7 +3131,7 @@ void AtenMaskedFillTensorOp::getCanonicalizationPatterns(
     Value scalarVal = scalarIntVal ? scalarIntVal : scalarFloatVal;
     rewriter.replaceOpWithNewOp<AtenMaskedFillScalarOp>(
         op, op.getType(), op.getSelf(), op.getMask(), scalarVal);
-    return failure();
+    return success();
   });
 }
 
-- 
2.43.0

