"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

FX = "python/torch_mlir/extras/fx_importer.py"
OX = "python/torch_mlir/extras/onnx_importer.py"
AS = "python/torch_mlir/extras/fx_as_strided.py"
CU = "python/torch_mlir/compiler_utils.py"
FXPY = "python/torch_mlir/fx.py"
PT1 = "projects/pt1/python/torch_mlir/"
E2E = "projects/pt1/python/torch_mlir_e2e_test/"

P = []  # properties, in order


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


AI = "abstract interpretation of the Python sources (path-sensitive provenance dataflow over an abstract heap)"
BASE_NOTE = "Sound for the enumerated abstract input classes, over all paths the interpreter explores; constants of PyTorch are read from its installed headers and schemas. Trusts the models of the external bindings (MLIR Python API, torch.fx objects) and the documented meaning of the Python subset interpreted."

prop("C01", "Integer codes of dtypes, layouts and memory formats are PyTorch's",
     "Every dtype, layout and memory format that any importer or compiler table turns into an integer gets the code PyTorch itself assigns to it, in the Python tables and in the C++ enumeration alike. One code never stands for two of them.",
     ["inputs"], "every dtype/layout/memory format of PyTorch that has an entry in some table",
     "Tests use the common dtypes; a wrong code of a rare dtype or layout compiles and only shows as a wrong cast at run time.",
     [FX, "include/torch-mlir/Dialect/Torch/Utils/TorchUpstream.h", PT1 + "_dynamo_fx_importer.py"],
     [("TORCH_DTYPE_TO_INT, TORCH_LAYOUT_TO_INT, TORCH_MEMORY_FORMAT_TO_INT", FX)],
     "abstract evaluation of the tables and their consumers, compared with the enumerations in PyTorch's installed headers")
prop("C02", "Tensor types carry the element type and shape of their metadata",
     "The type an FX import gives to a tensor value, argument or literal states the element type of the PyTorch dtype and each extent of the metadata, an unknown extent only where the extent is symbolic. A dtype without a counterpart is rejected, never mapped to a different type.",
     ["inputs", "programs"], "every dtype and every combination of static and symbolic extents in the metadata of a node",
     "Tests import a few f32/i64 programs; the type tables and conversions have an entry per dtype.",
     [FX], [("ContextCache.get_vtensor_type, dtype_to_type, node_val_to_type", FX)], AI)
prop("C03", "Each input and output of an exported program is imported in place or rejected",
     "The function imported from an exported program takes exactly the user inputs in order and returns exactly the user outputs in order, with the types of their metadata; parameters, buffers and constants enter as literals of the very tensor their own target names. An input or output of a kind that has no import is rejected with an error.",
     ["programs"], "every sequence of input and output specifications, including constants, duplicates and interleaved states",
     "Tests export simple modules whose inputs are all tensors in the usual order; the order, kinds and sharing of specifications are unbounded.",
     [FX], [("FxImporter.import_program, import_frozen_program", FX)], AI)
prop("C04", "Mutations of inputs and buffers are written back",
     "For each mutation an exported program's signature declares, the imported function writes the value its own producer computes into that input or buffer, once and after it is computed and before the function returns. The mutated input is a mutable argument that is read through a value copy, and a mutation that cannot be stored is an error.",
     ["programs"], "every set of declared mutations: several inputs or buffers, shared producers, producers that are inputs, states or multi-result operations",
     "The suite runs a handful of programs with one mutation each.",
     [FX], [("_import_all mutation callbacks, store_produced_value", FX)], AI)
prop("C05", "Imported operator calls keep their operands, attributes and results",
     "The operation imported for a PyTorch operator call is the one named by namespace, operator and overload, with one result per schema return, and its operand i is the value the call gives for schema parameter i, by position, by keyword or from the schema's default. Scalars given for tensors, booleans given for numbers and operators replaced on import keep their value, type and meaning.",
     ["programs"], "every operator schema, every split of the arguments into positional, keyword and defaulted ones, every argument kind",
     "Tests call a few hundred operators, mostly with positional arguments and the common kinds.",
     [FX], [("GraphNodeImporter._import_torch_op_overload, _import_argument, _import_default_value, _promote_symbolic_scalar_int_float", FX)], AI)
prop("C06", "Constants and lists are imported with their own value and type",
     "A Python constant of a program becomes the constant operation of its own class with its own value, in operands, in results and inside lists. A list becomes a list of the element type its schema requires with exactly its elements in order, and what has no literal form or does not fit the element type is rejected.",
     ["inputs"], "every constant (None, booleans, integers, floats, strings, dtypes, devices, layouts, memory formats) and every list of constants, values and optional values",
     "Tests use a few constants; extreme integers, non-finite floats, empty lists and mixed lists are not sampled.",
     [FX], [("LITERAL_CONVERTER_MAP, GraphNodeImporter._import_literal, _import_list_argument", FX)], AI)
prop("C07", "Tensor literals hold the data of the tensor they stand for",
     "A parameter, buffer or constant tensor that a program uses becomes a literal with the bytes, shape and element type of that very tensor, whatever its dtype, rank or memory layout. A literal is shared only between uses of the same tensor object that is still alive, and a value supplied by an importer hook takes the literal's place.",
     ["inputs", "histories"], "every dtype, rank and layout of a tensor, and every order in which tensors are created, used and freed between imports",
     "Tests import a few dense f32 and integer tensors and never free one between two imports.",
     [FX], [("_make_vtensor_literal_op, RefTracker, FxImporterHooks", FX)], AI)
prop("C08", "Every graph node is imported once, in order, or the import fails",
     "Each call of a graph becomes one operation, in graph order, that reads the values its own argument nodes produce; item i of a call with several results is its i-th result, and of a call returning a list its i-th element. A node or target that has no import, or that reads something that does not exist, raises an error instead of being dropped.",
     ["programs"], "every node kind and target, every graph shape, including multiple results, unused results, list results and attributes read from the module",
     "Tests import graphs that PyTorch exports for simple modules; the unusual node kinds never occur together.",
     [FX], [("GraphNodeImporter.import_nodes, _import_getitem, _multi_result_nodes, resolve_node_value", FX)], AI)
prop("C09", "Symbolic scalar arithmetic is imported with Python's meaning",
     "A Python operator on symbolic integers, floats and booleans becomes the PyTorch scalar operation that computes the same value, on the same operands in the same order, in the overload for their kinds. Symbolic size, stride, offset and element count queries read the same tensor and dimension, and an operator without such an operation is an error.",
     ["inputs"], "every builtin operator on scalars and every combination of operand kinds (symbol or constant; integer, float or boolean) and orders",
     "Tests use a few additions and multiplications of a size with a constant, in one operand order.",
     [FX], [("PY_BUILTIN_TO_TORCH_OP, SYMBOLIC_TORCH_OPS, _import_symbolic_torch_op", FX)], AI)
prop("C10", "Symbolic shapes are imported with their bounds and expressions",
     "With symbolic shape expressions requested, each shape symbol of a program is declared once with its own range, and each tensor with symbolic extents is bound to an affine expression for every extent that has the same value as the program's expression over its operand symbols. An expression without affine form is an error, a static program has none, and a program never gets the symbols of another one.",
     ["inputs", "histories"], "every symbolic expression, range and symbol order, and every sequence of programs imported into one module",
     "Tests check a few shapes with one or two symbols, sums and products.",
     [FX], [("_import_shape_symbols_with_guards, create_shape_bindings, sympy_expr_to_semi_affine_expr", FX)], AI)
prop("C11", "Every imported value has the type of its kind and metadata",
     "Each argument and result of an imported function or call has the type of its kind of value: a tensor of its metadata, a scalar of its Python type, a list, an optional or nothing. Symbolic extents appear as unknown and static ones as they are, mutated inputs as mutable tensors read as values of the same type, and a value whose kind has no type is an error.",
     ["inputs", "programs"], "every kind of metadata a node can carry and every mixture of static and symbolic extents",
     "Tests exercise tensors almost only; scalars, lists, optionals and absent values are rare.",
     [FX], [("ContextCache.node_val_to_type, value_info_to_type, tensor_metadata_to_type", FX)], AI)
prop("C12", "Higher-order operators keep their functions, operands and control flow",
     "An imported while loop tests its condition before every iteration on the carried values and additional inputs, and yields the carried values of the last one. A functionalized kernel call passes every argument under its own name and yields its results and mutated arguments in order, and an attention call keeps its query, key, value, scale, flags and score and mask functions.",
     ["programs"], "every number and kind of carried values, additional inputs, arguments and mutated arguments",
     "Tests import one or two loops and calls with two or three arguments.",
     [FX], [("_import_hop_while_loop, _import_hop_auto_functionalized, _import_hop_flex_attention", FX)], AI)
prop("C13", "Strided storage reads keep the elements they read",
     "An as_strided call of a graph is replaced by an operation that reads, for every result position, the base element stored at the address the call's size, stride and offset name, with the result's shape and name. A request that is dynamic, leaves the base or has no such reading is an error, and graphs are rewritten before they are imported.",
     ["programs"], "every size, stride and offset of the request (including omitted and keyword arguments), base layout and chain of views between the two",
     "Tests rewrite a few contiguous matrices; the offsets of views, empty results and colliding names are unbounded.",
     [AS], [("rewrite_as_strided, _base, _indices, _constant", AS)],
     "abstract interpretation of the rewrite, with index tensors as polynomials over unknown extents, strides and positions and the read address decided as a polynomial identity")
prop("C14", "Imported functions have the requested names and references resolve",
     "The function imported for a program, graph or graph module has the requested name and visibility. Functions of nested graph modules are private, and each reference to one names the function that holds that module's graph, whatever names the modules have and however often they are shared or imported.",
     ["programs", "histories"], "every nesting and sharing of graph modules, every naming of their attributes and every sequence of imports into one module",
     "Tests import one program with differently named modules into a fresh module.",
     [FX], [("import_graph_module, _import_all_child_modules, _graph_module_to_func_name", FX)], AI)
prop("C15", "FX entry points export, import and lower as their options say",
     "The FX entry points export a module once with exactly the arguments, dynamic shapes and strictness given (a program is taken as it is), decompose it with the given or default table, import it once, frozen unless mutation is asked for, into the given importer or a new one with the given hooks under the given name, and return that importer's module, lowered in place to the output type; no call depends on earlier ones.",
     ["configurations", "histories"], "every combination of options, every PyTorch version and every sequence of calls",
     "No test of the suite calls the FX entry points; the combinations of options are too many to sample.",
     [FXPY, CU], [("export_and_import, stateless_fx_import, _module_lowering", FXPY)], AI)
IO = "python/torch_mlir/tools/import_onnx/__main__.py"
AIO = AI + "; ONNX messages have the fields, defaults and presence rules of the installed schema"
prop("C16", "ONNX value types become the torch types of the same element and extents",
     "Every ONNX type becomes the torch type with the same element type and the same static extents; named or missing extents become unknown. Sequences and optionals keep their structure and an absent type becomes none. A type without a counterpart is an error, and types looked up before never change a later one.",
     ["inputs", "histories"], "every ONNX element type, combination of extents and container type, and every sequence of types in one model",
     "No test of the suite imports an ONNX model; the tables have an entry per element type.",
     [OX], [("ContextCache.type_proto_to_type, tensor_element_type, ELEM_TYPE_TO_IR_TYPE_CB", OX)], AIO)
prop("C17", "Each ONNX node becomes one operation on its own values, or an error",
     "Each node of an ONNX graph becomes, in graph order, one operation of its own name that reads the values of its inputs in order and has a result of its own type per output; the function returns the graph's outputs in order. An omitted input is none, an omitted output names nothing, and a node or output that reads what does not exist or has no opset is an error.",
     ["programs"], "every graph: any order and repetition of inputs and outputs, omitted ones, initializers, constants, domains",
     "No test of the suite imports an ONNX model; graph shapes are unbounded.",
     [OX], [("NodeImporter.import_all, import_node, get_none, _handle_node_Constant", OX)], AIO)
prop("C18", "ONNX node attributes keep their name, kind and value",
     "Every attribute of an ONNX node appears on its operation under its own name with its own kind and value, including zero, empty, extreme and default values. Graph attributes become regions, and an attribute of a kind that has no import is an error.",
     ["inputs"], "every kind of attribute, any values and any combination of attributes",
     "No test of the suite imports an ONNX model; the handlers have an entry per kind.",
     [OX], [("NodeImporter.import_attributes, ATTRIBUTE_TYPE_HANDLERS", OX)], AIO)
prop("C19", "ONNX function nodes call their own specialized function body",
     "A node that the allow and deny lists select, and only such a node, becomes a call of a private function. Its body is the latest one defined for the model's opset, with the node's types and with each attribute reference bound to the node's value, to the default, or dropped. Calls that differ in operator, types or attributes never share a function, and functions within functions and subgraphs follow the same rules.",
     ["programs", "configurations"], "every list configuration, opset, set of function versions, attribute binding at any depth, and sequence of calls",
     "No test of the suite expands a function; versions, bindings and sharing between calls are unbounded.",
     [OX], [("ModuleCache.get_operator_function, _specialize_function_and_create_model, _bind_attributes_on_node", OX)], AIO)
prop("C20", "ONNX tensors become literals with their own data, type and shape",
     "An initializer, a constant or a tensor attribute of an ONNX model becomes a literal with exactly its data, element type and extents, whether the data are raw or in the typed field of its element type. A tensor whose data cannot be imported is an error, and every name stands for its own tensor.",
     ["inputs"], "every element type, storage field and shape of a tensor, and any set of tensors in one model",
     "No test of the suite imports an ONNX model; the tables have an entry per element type.",
     [OX], [("NodeImporter.import_initializer, ContextCache.tensor_proto_to_attr, ELEM_TYPE_INLINE_TENSOR_PROTO_CB", OX)], AIO)
prop("C21", "ONNX graphs become functions and regions with their own scope",
     "The function of a graph takes the graph's inputs that have no initial value, in order, and states the model's versions. Every graph attribute becomes a region with its own inputs, nodes and outputs that reads the innermost value of a name, and what a graph defines is not visible outside of it.",
     ["programs"], "every set of inputs and initializers, every nesting of graphs, captured and shadowed name, and set of opset imports",
     "No test of the suite imports an ONNX model; nesting and naming are unbounded.",
     [OX], [("GraphInfo, NodeImporter.define_function, import_regions, _populate_graph_attrs", OX)], AIO)
prop("C22", "The ONNX console tool imports the given model as its options say",
     "The console tool imports the given model with its external data, converted, cleared of domains and shape-inferred as the options ask, in memory or through files. It writes the complete, verified module once, to the output it is given; it creates and removes only its own temporary directory, last, unless it is to be kept; invalid models and options are errors.",
     ["configurations", "fault_sequences"], "every combination of the options, models too big for the checker or for in-memory inference, invalid models, and directories left by an earlier run",
     "No test of the suite runs the tool; the file-based path needs models above two gigabytes.",
     [IO], [("main, load_onnx_model, parse_arguments", IO)], AI + "; argparse interprets the options that the analysed source declares")
prop("C24", "A failed pass pipeline is reported; a pipeline changes only its module",
     "A pass pipeline runs once, on the module it is given and in that module's context. If printing, parsing or running it fails, the error states the description, the exception, the diagnostics and the pipeline and names a file that holds the module as it was before. The standard error stream is the caller's afterwards; nothing else is written or changed.",
     ["configurations", "fault_sequences"], "every pipeline, option and point of failure, including interrupts and modules without a name",
     "Tests run pipelines that succeed; failures are reached only through broken modules.",
     [CU], [("run_pipeline_with_repro_report, lower_mlir_module", CU)], AI)
prop("C26", "The TorchScript entry point compiles the given methods and arguments",
     "Compiling through TorchScript scripts or traces exactly the methods that have example arguments, hides all others, annotates every argument with its shape and dtype, imports the module once and lowers it in place by the pipelines of the output type with the given legal operations and library. Other arguments, missing methods and contradicting options are rejected, and a failed import is reported with its diagnostics.",
     ["configurations", "programs"], "every kind and number of example arguments, method set, model class, option combination and point of failure",
     "The suite compiles the forward method of its models to a few output types; option combinations and failures are not reached.",
     [PT1 + "torchscript.py", CU], [("compile, ExampleArgs, TensorPlaceholder", PT1 + "torchscript.py")], AI)
prop("C54", "Sparse tensor types describe PyTorch's storage",
     "A tensor with a sparse layout gets a type whose encoding has the levels, their order, their properties, block sizes and index widths of PyTorch's storage of that tensor. A dense tensor has no encoding, and a sparse layout that has none is rejected.",
     ["inputs"], "every sparse layout, rank, batch and dense dimension count, block size and index dtype",
     "Tests use two-dimensional matrices, with one block size.",
     [FX, FXPY], [("sparsity_encoding, make_sparse", FX)], AI)
prop("C28", "The TorchDynamo path keeps the calls and outputs of its graphs",
     "The TorchDynamo graph importer emits every call of a graph once, in order, as the operation of its schema, with the value the call gives for each parameter (by position, by keyword or from the default) and the types of the metadata, and returns the outputs in order; what is outside its subset is an error. A backend made from a user's backend returns its results in the structure of the graph's outputs.",
     ["programs"], "every graph: any split of arguments, constant, list, device and dtype, multiple results, and any tuple or list of outputs",
     "The suite imports a dozen small graphs, most arguments positional and on the CPU.",
     [PT1 + "_dynamo_fx_importer.py", PT1 + "dynamo.py"], [("import_fx_graph_as_func, _FXGraphImporter", PT1 + "_dynamo_fx_importer.py"), ("make_simple_dynamo_backend, _adjust_calling_convention", PT1 + "dynamo.py")], AI)
prop("C31", "Generated operator definitions and signatures state their schema",
     "For every operator schema of PyTorch, the definition the ODS generator emits has the operator's dotted name, its arguments and results in order and each a type predicate that admits exactly the schema's type, or the type is rejected. Read-only and value-semantics traits are claimed only where the alias annotations allow it, and in-place variants take mutable tensors. Operators are found under their own key, and a library function is accepted only with its operator's parameters, defaults and results.",
     ["inputs", "configurations"], "every schema: any types, names, defaults, alias annotations, overload, and variable arguments or results, also of operators that extensions register",
     "The suite compares the definitions of the operators that are emitted today; extensions and new operators bring other types, aliases and defaults.",
     [PT1 + "jit_ir_importer/build_tools/torch_ods_gen.py", PT1 + "jit_ir_importer/build_tools/registry.py", PT1 + "jit_ir_importer/build_tools/library_generator.py", "include/torch-mlir/Dialect/Torch/IR/TorchTypes.td"],
     [("emit_op, raw_emit_op, get_ods_type", PT1 + "jit_ir_importer/build_tools/torch_ods_gen.py"), ("JitOperator, Registry", PT1 + "jit_ir_importer/build_tools/registry.py"), ("_verify_signature_matches_registry", PT1 + "jit_ir_importer/build_tools/library_generator.py")], AI)

GENPY = PT1 + "jit_ir_importer/build_tools/abstract_interp_lib_gen.py"
LIBCPP = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"
SHAPE_AI = "abstract interpretation of the shape functions over symbolic extents (polynomials with floor divisions), in the Python source and in the embedded MLIR library, against an oracle of PyTorch's shapes per operator"
SHAPE_NOTE = "Decided per class of arguments (rank, sign of a dim, given or omitted options) for all extents of the class: a violation is reported with a concrete assignment of the extents. Ranks are bounded (up to 5) and lists have up to 4 entries. The oracle was compared with the installed PyTorch on 29,000 samples while it was written; it trusts nothing of /repo."
def shapes(id, title, statement, text, why, mech):
    prop(id, title, statement, ["inputs"], text, why, [GENPY, LIBCPP], [(m, GENPY) for m in mech] + [("getAbstractInterpLibrary", LIBCPP)], SHAPE_AI, SHAPE_NOTE)
WHY_S = "The suite runs the decorated functions on a few concrete shapes each and most functions not at all; the library that the compiler embeds is never built or run by it."
shapes("C32", "Shapes of elementwise operators are the broadcast of their operands",
       "For every elementwise, comparison, logical, cast, fill and factory operator, the shape function (in abstract_interp_lib_gen.py and in the embedded library) answers the extents of PyTorch's result for all extents of its operands and all sizes. Operands broadcast, shapes that do not broadcast are rejected, and negative or omitted options count as PyTorch counts them.",
       "every operand rank up to three, every extent including 0 and 1, scalars, optional operands, ranges and factory sizes", WHY_S, ["aten functions ending in shape, upstream_shape_functions.unary and broadcast"])
shapes("C33", "Shapes of reductions, losses and normalizations are PyTorch's",
       "For every reduction, statistic, norm, loss and normalization operator, the shape function (in abstract_interp_lib_gen.py and in the embedded library) answers the extents of each of PyTorch's results: the reduced dimensions are dropped or kept as 1, negative and omitted dims count as PyTorch counts them, and a dim out of range is rejected.",
       "every rank up to four, every extent, dim and list of dims, keepdim, reduction mode and optional operand", WHY_S, ["sum_mean_dim users, argmax users, nll_loss, batch_norm, native_layer_norm shape functions"])
shapes("C34", "Shapes of views, indexing and rearrangements are PyTorch's",
       "For every operator that views, slices, gathers, scatters, indexes, joins, repeats or rearranges tensors, the shape function (in abstract_interp_lib_gen.py and in the embedded library) answers the extents of PyTorch's result for all extents, and rejects the arguments PyTorch rejects. Inferred extents, negative and omitted positions, and extents known only at run time count as in PyTorch.",
       "every rank up to five, every extent, sign of a dim, size with an inferred extent, slice bound and step, list of operands and kind of index", WHY_S, ["view, slice, cat, index and permute shape functions and their helpers"])
shapes("C35", "Shapes of products, convolutions, pooling and other windows are PyTorch's",
       "For every matrix product, convolution, pooling, padding, resampling, attention and transform operator, the shape function (in abstract_interp_lib_gen.py and in the embedded library) answers the extents of PyTorch's result for all extents, kernels, strides, paddings, dilations, groups and modes. Matrix products, convolutions and pools whose extents do not fit are rejected.",
       "every batch rank, extent, kernel, stride, padding, dilation, output padding, group count and rounding mode, given or omitted", WHY_S, ["matmul, conv, pool, pad, upsample and fft shape functions and their helpers"])

prop("C36", "The embedded shape and dtype library is valid and fits its operators",
     "The library module the compiler embeds parses and verifies: in every function values are defined in scope, once, and used with their types, calls, branches, loops and returns have the types they state, and every operation exists in the dialect. It has exactly the functions of the generator, once each, and each takes and answers the types that the operands and results of its operator are given as.",
     ["programs"], "every function, operation, call and operator of the library",
     "The library is C++ text that the sandbox's build does not compile and no baseline test parses; one wrong line makes every compilation fail, or the lookup of one operator.",
     [LIBCPP, GENPY, "include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td", "include/torch-mlir/Dialect/Torch/IR/TorchOps.td"], [("getAbstractInterpLibrary", LIBCPP), ("functions ending in shape and dtype", GENPY), ("operator declarations", "include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td")],
     "a verifier of the embedded module's text (scoping, typing, terminators, call signatures), and its agreement with the generator's annotations and the operator definitions",
     "Complete for the library of the tree. Conversions that the passes make around a call (scalars, sizes) are taken as they are.")
prop("C37", "Result dtypes of operators are PyTorch's",
     "For every operator with a dtype function, the function (in abstract_interp_lib_gen.py and in the embedded library) answers, for every combination of operand dtypes, ranks and kinds of scalars that PyTorch takes, the dtypes of PyTorch's results: promotion among tensors, zero-rank tensors and numbers, integers that become floats, real results of complex operands, accumulators and index types, and dtypes asked for.",
     ["inputs"], "every combination of operand dtypes and of rank classes, kinds of scalars, given or omitted operands and requested dtypes",
     "The suite runs the decorated functions on the dtypes their decorators list, mostly one dtype at a time; the library that the compiler embeds is never run.",
     [GENPY, LIBCPP, PT1 + "jit_ir_importer/build_tools/library_generator.py"], [("functions ending in dtype", GENPY), ("getAbstractInterpLibrary", LIBCPP)],
     "abstract interpretation of the dtype functions over sets of dtype combinations (path conditions are subsets of the table of combinations), in the Python source and in the embedded MLIR library, against a recorded table of PyTorch's answers",
     "All pairs of dtypes for one and two operands, and one deviating operand at a time for more. Combinations on which PyTorch's devices differ, and those torch-mlir declares unsupported, are left out. The table was recorded from the installed PyTorch; the check trusts nothing of /repo.")

prop("C38", "The compiler numbers, converts and promotes dtypes as PyTorch does",
     "In the compiler's C++: two dtypes promote to PyTorch's promotion, or to none where PyTorch has none; tensors with dimensions, rank-0 tensors and Python numbers weigh in a promotion as in torch.result_type, for operand lists of any order and length; each dtype code stands for one builtin type and that type for the code; an importer's or ONNX data type becomes the torch dtype of the same type; the enumerators that programs store as integers (reductions, layouts, memory formats) have PyTorch's numbers.",
     ["inputs"], "every pair of dtypes, every state of the three promotion categories, every list of up to three operands, every dtype code and builtin type",
     "The C++ core is not compiled in the sandbox, and lit tests show a handful of dtype pairs; a wrong entry silently changes result dtypes.",
     ["lib/Dialect/Torch/Utils/TorchUpstream.cpp", "lib/Dialect/Torch/Utils/Utils.cpp", "lib/Dialect/Torch/Transforms/SimplifyDtypeCalculations.cpp", "lib/Conversion/TorchOnnxToTorch/Utils.cpp", "projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp"],
     [("promoteTypes, result_type, get_reduction_enum", "lib/Dialect/Torch/Utils/TorchUpstream.cpp"), ("getTypeForScalarType, getScalarTypeForType", "lib/Dialect/Torch/Utils/Utils.cpp"), ("DecomposePromoteDtypesOp", "lib/Dialect/Torch/Transforms/SimplifyDtypeCalculations.cpp"), ("onnxDtypeIntToTorchDtypeInt", "lib/Conversion/TorchOnnxToTorch/Utils.cpp")],
     "interpretation of the parsed C++ functions over their whole finite domains (dtypes, pairs, promotion states, operand lists), compared with PyTorch's recorded promotion and the dtypes' types",
     "Exhaustive over dtypes, pairs and states; operand lists up to three (promotion is a fold over the list). Numbers of a boolean or complex type in a list make the pattern give up, which is loud.")

prop("C39", "ONNX operators are converted from their own attributes and operands",
     "Whatever ONNX operator of opset 7 or later the compiler converts, it reads each attribute under its own name and as its own kind, an attribute left out counts as the value the operator's schema gives at that opset, no attribute or operand of the operator is passed over without the conversion failing, only operands and results the schema has are addressed, and an optional operand or result may be left out.",
     ["programs"], "every registered ONNX operator, opset, attribute, operand and result, given or left out",
     "The C++ core is not compiled in the sandbox, and lit tests show a few attribute sets per operator; a misread default silently changes the numbers of an imported model.",
     ["lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp", "lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp", "lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp", "lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp", "lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp", "lib/Conversion/TorchOnnxToTorch/Utils.cpp", "include/torch-mlir/Conversion/TorchOnnxToTorch/Patterns.h"],
     [("populateDefaultDomainAtoF", "lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp"), ("populateDefaultDomainGtoP", "lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp"), ("populateDefaultDomainQtoZ", "lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp"), ("OpBinder", "include/torch-mlir/Conversion/TorchOnnxToTorch/Patterns.h")],
     "binder queries over the parsed C++ handlers (and the helpers they call), resolved per opset and compared with the recorded operator schemas of ONNX",
     "Handlers of the default domain; com.microsoft has no schemas here. Whether a read attribute is used rightly is C40.")

prop("C40", "ONNX operators become the torch operators that compute them",
     "For whatever operand types, result types and attributes the compiler converts an ONNX operator, the torch operators it becomes compute what ONNX defines the operator to compute: the right operators, applied to the operands in their roles, with constants, dimensions, paddings, orders and modes derived from the attributes and extents as ONNX says, and with each result taken from where it is computed.",
     ["programs"], "every registered operator of the default domain and of com.microsoft, over the recorded combinations of operand ranks, given and omitted operands, result types and attribute values",
     "The C++ core is not compiled in the sandbox, and lit tests pin the conversions as they are, right or wrong, without running any of them.",
     ["lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp", "lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp", "lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp", "lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp", "lib/Conversion/TorchOnnxToTorch/ComMicrosoftDomain.cpp", "lib/Conversion/TorchOnnxToTorch/Utils.cpp", "include/torch-mlir/Conversion/TorchOnnxToTorch/Patterns.h"],
     [("populateDefaultDomainAtoF", "lib/Conversion/TorchOnnxToTorch/DefaultDomainAtoF.cpp"), ("populateDefaultDomainGtoP", "lib/Conversion/TorchOnnxToTorch/DefaultDomainGtoP.cpp"), ("populateDefaultDomainQtoZ", "lib/Conversion/TorchOnnxToTorch/DefaultDomainQtoZ.cpp"), ("OnnxRecurrentLayerOpExpanders", "lib/Conversion/TorchOnnxToTorch/OnnxRecurrentLayerOpExpanders.cpp")],
     "interpretation of the parsed C++ handlers (and the helpers they call) per class of operand types and attributes, yielding the term of torch operators each becomes; terms are compared, up to integer arithmetic and commuted operands, with terms recorded as right",
     "Rightness of the recorded terms: 557 of 645 were run in the installed PyTorch against ONNX's reference evaluator (the recurrent, quantized and com.microsoft layers against their equations) when the check was written, the rest read by hand; the check itself runs nothing. Bounded by the recorded combinations (about four per operator). Intermediate types are not compared.")
prop("C41", "Decomposed operators compute the operator they replace",
     "For whatever operand types, constants and result types the compiler decomposes a torch operator into simpler ones, these compute what the operator computes: the right operators, applied to the operands in their roles, with dimensions, lengths, scales and dtypes derived from the operands as PyTorch defines them, and results of the types the operator had. Otherwise the operator is left as it is.",
     ["programs"], "every operator with a decomposition, over the recorded combinations of operand ranks, extents (static and dynamic), dtypes, omitted operands, constants and result types",
     "The C++ core is not compiled in the sandbox, and lit tests pin some decompositions as they are, right or wrong, without running any of them.",
     ["lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp", "lib/Dialect/Torch/Utils/Utils.cpp", "include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td"],
     [("DecomposeComplexOpsPass and its patterns", "lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp"), ("createRank0Tensor, convertTensorToDtype, computeBroadcastShape", "lib/Dialect/Torch/Utils/Utils.cpp")],
     "interpretation of the parsed C++ patterns (and the helpers they call) per class of operand types and constants, yielding the term of torch operators each becomes and the types of its results; terms are compared, up to integer arithmetic and commuted operands, with terms recorded as right",
     "Rightness of the recorded terms: all but about 20 of 2300 were run in the installed PyTorch against the operator itself, on several random operands of the sizes of the case, when the check was written (of random operators the shapes and dtypes only), the rest read by hand; the check itself runs nothing. Bounded by the recorded combinations (about ten per operator, 239 operators). Types of intermediate results are not compared.")
prop("C42", "A rewrite reports that it happened exactly when it did",
     "On every path through a rewrite pattern, ONNX handler or canonicalization of the compiler: a path that returns failure has replaced or erased no operation; a path that returns success has changed something; no operation is replaced twice, and none is used after a plain pattern rewriter has freed it.",
     ["programs"], "every path through every rewrite, with every condition either way",
     "The C++ core is not compiled in the sandbox, and the drivers of MLIR check this only in builds with expensive checks: a release build goes on to try further patterns on an operation that is freed, or never reaches its fixpoint, for the programs that take the path.",
     ["lib/Conversion", "lib/Dialect/Torch/IR/TorchOps.cpp", "lib/Dialect/Torch/Transforms", "lib/Dialect/TorchConversion/Transforms", "lib/Dialect/TMTensor/Transforms"],
     [("matchAndRewrite of the patterns", "lib/Conversion, lib/Dialect"), ("OnnxCustomOpConversionPattern handlers", "lib/Conversion/TorchOnnxToTorch"), ("getCanonicalizationPatterns", "lib/Dialect/Torch/IR/TorchOps.cpp")],
     "typestate analysis over the parsed C++: the operations replaced or erased, and whether anything changed, along each path through the statements of every function that takes a rewriter, checked at each return and each use",
     "Conditions are taken either way (a plain variable answers once per path). What a helper does with the rewriter it is given is not followed: it counts as a change and not as a replacement. Results computed into a variable, or returned from a helper, are neither success nor failure here. Operations are known by the name they are replaced under.")
prop("C51", "Lowered programs compute what the imported program computes",
     "For every program and every input, the module lowered to a backend contract (linalg on tensors, TOSA, StableHLO) computes the values of the imported torch program up to the rounding of its dtypes.",
     ["programs", "inputs"], "every program of supported operators and all of their tensor values",
     "The end-to-end suite runs a fixed list of modules on one random input each, and needs the compiled core.",
     ["lib/Conversion/TorchToLinalg", "lib/Conversion/TorchToTosa", "lib/Conversion/TorchToStablehlo", "lib/Dialect/TorchConversion/Transforms"],
     [("TorchToLinalg, TorchToTosa, TorchToStablehlo conversion patterns", "lib/Conversion")],
     na="The lowered program is index maps, reduction regions and arithmetic on runtime tensors: equality with the torch operator quantifies over data and rounding, for which no static argument is in reach (and the headers of LLVM that would type these sources are not installed). What is decided of the lowerings from their sources: the conversion of ONNX operators to torch operators (C39, C40), decompositions (C41), the dtypes and shapes (C32-C38), the codes (C01).")
prop("C52", "Pass pipelines terminate with the operators of their contract only",
     "For every imported program a lowering pipeline ends, and ends either with a module that holds only the operators its backend contract allows, or with an error.",
     ["programs", "configurations"], "every program, set of backend-legal operators and option of the pipelines",
     "Tests see the fixpoint on their programs; termination and completeness depend on how all rewrite patterns interact.",
     ["lib/Dialect/Torch/Transforms/LowerToBackendContract.cpp", "lib/Dialect/Torch/Transforms/Passes.cpp"],
     [("LowerToBackendContractPass", "lib/Dialect/Torch/Transforms/LowerToBackendContract.cpp")],
     na="The patterns are applied by MLIR's greedy and dialect-conversion drivers, to a fixpoint with an iteration bound; whether that ends legally depends on the program and on the composition of hundreds of patterns, folders and canonicalizers of which the drivers' sources are not here. A static ordering argument over them is not in reach; a single pattern's rewriting is (C40, C41).")
prop("C53", "Concurrent imports do not influence each other",
     "Importing and lowering programs on several threads at the same time gives each the module it would have alone.",
     ["schedules"], "every interleaving of imports in one process, with own or shared contexts",
     "Tests run one import at a time.",
     [FX, OX, CU], [("ContextCache, FxImporter, run_pipeline_with_repro_report", FX)],
     na="Not promised by the code: compiler errors are collected by exchanging sys.stderr of the process, and the shared state of a context is locked inside MLIR, whose sources are not here. Sequential histories (two imports, two calls) are decided in C07, C10, C15, C16 and C19.")
