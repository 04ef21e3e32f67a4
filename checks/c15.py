"""C15: the FX entry points export, import and lower what they are asked to, as their options say."""

from sa.entry import *

FXM = "torch_mlir.fx"
EP = "torch.export.ExportedProgram"
F, PROG, TABLE, HOOKS, IMPORTER, SHAPES = (obj(x) for x in ("user module", "user program", "user table", "user hooks", "user importer", "user shapes"))
TYPES = {"raw": "RAW", "torch": "TORCH", "linalg-on-tensors": "LINALG_ON_TENSORS", "tosa": "TOSA", "stablehlo": "STABLEHLO"}


class Fx(Env):
    def __init__(self, version="2.14.0a0"):
        super().__init__(version)
        t, a, m = self.types, self.attrs, self.models
        t[F] = "torch.nn.Module"
        t[PROG] = EP
        t[IMPORTER] = "torch_mlir.extras.fx_importer.FxImporter"
        a[(IMPORTER, "module")] = MODULE
        a[(obj("new importer"), "module")] = MODULE
        a[(obj("graph module"), "graph")] = obj("graph of the module")

        def export(it, r, x, k, n):
            o = obj("exported")
            it.types[o] = EP
            return o

        m["torch.export.export"] = export

        def decompose(it, r, x, k, n):
            o = T("obj", K("decomposed"), freeze(r))
            it.types[o] = EP
            return o

        m[".run_decompositions"] = decompose
        m["torch._decomp.get_decompositions"] = lambda it, r, x, k, n: Dct([(K("decompositions of"), freeze(it.resolve(x[0])))])
        m["FxImporter"] = m["torch_mlir.extras.fx_importer.FxImporter"] = lambda it, r, x, k, n: obj("new importer")
        m["torch_mlir.passmanager.PassManager.parse"] = lambda it, r, x, k, n: None


def val(x):
    if isinstance(x, V):
        return x
    if isinstance(x, (list, tuple)):
        return Lst([val(y) for y in x], "list" if isinstance(x, list) else "tuple")
    return K(x)


def scenario(ctx, rule, cons, fn, args, kw, pred, version="2.14.0a0", must_raise=(), again=None):
    e = Fx(version)
    p = ctx.project
    p.load(FXM)

    def thunk(it):
        f = p.func(FXM, fn)
        out = it.call_value(f, [val(a) for a in args], {k: val(v) for k, v in kw.items()}, None)
        if again is not None:
            it.emit("note", "again", obj("again"), [], node=None)
            out = it.call_value(f, [val(a) for a in again[0]], {k: val(v) for k, v in again[1].items()}, None)
        return out

    def both(q):
        if again is None:
            return pred(q)
        i = next(j for j, x in enumerate(q.events) if x.kind == "note" and x.name == "again")
        q.events[:] = q.events[i + 1 :]
        return pred(q)

    return decide(ctx, rule, cons, ctx.explore(cons, thunk, **e.cfg()), both, must_raise=must_raise)


def lowering(kind, entry, legal=(), finites=True):
    """The pipelines that lower an imported module to an output type."""
    if kind == "RAW":
        return []
    o = {"backend-legal-ops": ",".join(legal)} if legal else {}
    out = [[("builtin.module", {}, [("func.func", {}, [("torch-match-quantized-custom-ops", {}, None)]), ("torchdynamo-export-to-torch-backend-pipeline", o, None)])]]
    back = {"LINALG_ON_TENSORS": "torch-backend-to-linalg-on-tensors-backend-pipeline", "TOSA": "torch-backend-to-tosa-backend-pipeline", "STABLEHLO": "torch-backend-to-stablehlo-backend-pipeline"}.get(kind)
    if back:
        fin = {} if kind == "TOSA" else {"allow-non-finites": "true" if finites else "false"}
        out.append([("builtin.module", {}, [(back, fin, None)])])
    return [plain(x) for x in out]


def lowered(p, kind, legal=(), finites=True):
    got = []
    for s, op, e in runs(p):
        try:
            got.append(plain(parse_pipeline(s)))
        except ValueError as x:
            return f"runs the malformed pipeline {s!r}: {x}"
        if op != OPERATION:
            return f"runs {s!r} on {show(op)}"
    want = lowering(kind, "fx", legal, finites)
    if got != want:
        return f"runs the pipelines {got}, not {want}"
    if freeze(p.value) != MODULE:
        return f"returns {show(p.value)}, not the module of the importer"
    return None


def truth(v, default):
    return default if v is None else v


def imported(p, method, what, name, symbolic=None, importer=None, hooks=NONE):
    new = calls(p, "FxImporter")
    ctxs = calls(p, "torch_mlir.ir.Context")
    if importer is None:
        if len(new) != 1:
            return f"creates {len(new)} importers"
        c = new[0].arg("context", 1)
        if truth(new[0].arg("hooks", 4), NONE) != hooks:
            return f"the importer gets the hooks {show(new[0].arg('hooks', 4))}"
        if new[0].arg("module", 0) not in (None, NONE):
            return f"imports into {show(new[0].arg('module', 0))}"
        reg = [freeze(a) for e in calls(p, "register_dialect") for a in e.args]
        if c is None or freeze(c) not in reg:
            return "the importer's context has no torch dialect"
        importer = obj("new importer")
    elif new and any(freeze(e.recv) == obj("new importer") for e in calls(p, ".import_program", ".import_frozen_program", ".import_stateless_graph")):
        return "does not use the importer it is given"
    imps = calls(p, ".import_program", ".import_frozen_program", ".import_stateless_graph", ".import_graph_module")
    if len(imps) != 1:
        return f"imports {len(imps)} times"
    e = imps[0]
    if e.name != "." + method:
        return f"imports with {e.name}"
    if freeze(e.recv) != importer:
        return f"imports with {show(e.recv)}"
    if not e.args or freeze(e.args[0]) != what:
        return f"imports {show(e.args[0]) if e.args else 'nothing'}, not {show(what)}"
    if truth(e.arg("func_name"), K("main")) != K(name):
        return f"imports as {show(e.arg('func_name'))}"
    if symbolic is not None and truth(e.arg("import_symbolic_shape_expressions"), FALSE) != K(symbolic):
        return f"imports with symbolic shape expressions {show(truth(e.arg('import_symbolic_shape_expressions'), FALSE))}"
    rs = runs(p)
    if rs and rs[0][2].idx < e.idx:
        return "lowers before it imports"
    return None


def exported(p, f, args, kwargs, shapes, strict, old=False):
    """The program that an export yields, or what is wrong."""
    es = calls(p, "torch.export.export")
    if f == PROG:
        return f"exports a program again" if es else None
    if len(es) != 1:
        return f"exports {len(es)} times"
    e = es[0]
    a = truth(e.arg("args", 1), tup())
    k = truth(e.arg("kwargs", 2), NONE)
    if freeze(e.arg("mod", 0)) != f:
        return f"exports {show(e.arg('mod', 0))}"
    if [freeze(x) for x in seq(freeze(a)) or []] != [freeze(val(x)) for x in args]:
        return f"exports for the arguments {show(a)}"
    pairs = dict_items(k)
    if pairs != {n: freeze(val(x)) for n, x in kwargs.items()}:
        return f"exports for the keyword arguments {show(k)}"
    if truth(e.arg("dynamic_shapes", 3), NONE) != shapes:
        return f"exports with the dynamic shapes {show(e.arg('dynamic_shapes', 3))}"
    if old and set(e.kw) & {"dynamic_shapes", "strict"}:
        return f"passes {sorted(e.kw)} to a PyTorch that does not take it"
    if not old and truth(e.arg("strict"), K("default")) != K(strict):
        return f"exports with strict={show(e.arg('strict'))}"
    return None


def dict_items(k):
    k = freeze(k) if not isinstance(k, Dct) else k
    if k == NONE:
        return {}
    if isinstance(k, Dct):
        k = freeze(k)
    if isinstance(k, T) and k.op == "dict":
        return {x[0].v if isinstance(x[0], K) else x[0]: x[1] for x in k.args}
    return k


def printed(p, ir):
    n = len(calls(p, ".enable_ir_printing"))
    rs = runs(p)
    if ir and rs and not n:
        return "does not print the IR it is asked for"
    if not ir and n:
        return "prints the IR without being asked"
    es = calls(p, ".enable_ir_printing")
    if any(not any(r[2].idx > x.idx and freeze(r[2].recv) == freeze(x.recv) for r in rs) for x in es):
        return "asks for the IR after it has run the passes"
    if es and not any(x.args and x.args[0] == FALSE for x in calls(p, ".enable_multithreading")):
        return "prints the IR of several threads"
    return None


def decomposed(p, start, table):
    """table: 'default', 'none' or the user's."""
    es = calls(p, ".run_decompositions")
    if table == "none":
        return start, (f"decomposes with {show(es[0].args[0]) if es and es[0].args else 'a default'}" if es else None)
    if len(es) != 1:
        return start, f"decomposes {len(es)} times"
    e = es[0]
    if freeze(e.recv) != start:
        return start, f"decomposes {show(e.recv)}"
    t = e.arg("decomp_table", 0)
    if table == "default":
        if t is None or "decompositions of" not in show(freeze(t)):
            return start, f"decomposes with {show(t)}, not with the default table"
    elif t is None or freeze(t) != freeze(table):
        return start, f"decomposes with {show(t)}, not with the table it is given"
    return T("obj", K("decomposed"), start), None


def export_scenario(ctx, rule, cons, f=F, args=(), kwargs=None, again=None, version="2.14.0a0", **o):
    kwargs = kwargs or {}
    kw = dict(kwargs)
    kw.update(o)

    def pred(p):
        old = version_key(version) < version_key("2.2.0")
        shapes = o.get("dynamic_shapes", NONE)
        m = exported(p, f, args, kwargs, NONE if old else val(shapes), o.get("strict", False), old)
        if m:
            return m
        t = o.get("decomposition_table")
        start = PROG if f == PROG else obj("exported")
        what, m = decomposed(p, start, "default" if t is None or t == NONE else "none" if isinstance(t, Dct) and not t.pairs else t)
        if m:
            return m
        imp = o.get("fx_importer")
        m = imported(p, "import_program" if o.get("experimental_support_mutation") else "import_frozen_program", what, o.get("func_name", "main"),
                     o.get("import_symbolic_shape_expressions", False), imp, o.get("hooks", NONE))
        m = m or lowered(p, kind_of(o.get("output_type", "raw")), o.get("backend_legal_ops") or (), o.get("allow_non_finites", True))
        m = m or printed(p, o.get("enable_ir_printing", False))
        g = [freeze(x.recv) for x in calls(p, ".print_readable")]
        m = m or (None if bool(calls(p, "builtins.print", "print")) == o.get("verbose", False) else "prints without being asked" if not o.get("verbose") else "prints nothing")
        return m or ("does not print the graph" if o.get("enable_graph_printing") and not g else "prints the graph" if g and not o.get("enable_graph_printing") else None)

    return scenario(ctx, rule, cons, "export_and_import", [f, *args], kw, pred, version, again=again)


def kind_of(x):
    if isinstance(x, str):
        return TYPES[x.lower().replace("_", "-")]
    return show(x).split(".")[-1]


def graph_scenario(ctx, rule, cons, **o):
    def pred(p):
        m = imported(p, "import_stateless_graph", obj("graph of the module"), o.get("model_name", "main"), None, o.get("fx_importer"), o.get("hooks", NONE))
        m = m or lowered(p, kind_of(o.get("output_type", "raw")), o.get("backend_legal_ops") or (), o.get("allow_non_finites", True))
        m = m or printed(p, o.get("enable_ir_printing", False))
        g = [freeze(x.recv) for x in calls(p, ".print_readable")]
        m = m or (None if bool(calls(p, "builtins.print", "print")) == o.get("verbose", False) else "prints without being asked" if not o.get("verbose") else "prints nothing")
        return m or ("does not print the graph" if o.get("enable_graph_printing") and not g else "prints the graph" if g and not o.get("enable_graph_printing") else None)

    return scenario(ctx, rule, cons, "stateless_fx_import", [obj("graph module")], dict(o), pred)


def exporting(ctx):
    A, B, C = obj("a0"), obj("a1"), obj("k0")
    for f, args, kwargs in ((F, (), {}), (F, (A,), {}), (F, (A, B), {}), (F, (B, A), {}), (F, (A,), {"x": C}), (F, (), {"x": C, "y": A})):
        export_scenario(ctx, "export", f"export_and_import of {len(args)} arguments, keywords {sorted(kwargs)}", f, args, kwargs)
    export_scenario(ctx, "export", "dynamic shapes", F, (A,), dynamic_shapes=SHAPES)
    for s in (True, False):
        export_scenario(ctx, "export", f"strict={s}", F, (A,), strict=s)
    export_scenario(ctx, "export", "an exported program", PROG)
    for v in ("2.2.0", "2.3.0.dev20240207", "2.10.1", "2.14.0a0", "3.0"):
        export_scenario(ctx, "export", f"PyTorch {v}: dynamic shapes", F, (A,), version=v, dynamic_shapes=SHAPES, strict=True)
    export_scenario(ctx, "export", "PyTorch 2.1.2", F, (A, B), {"x": C}, version="2.1.2")
    # a module exported twice with other arguments
    export_scenario(ctx, "history", "a second call", F, (A,), again=((F, A), {"func_name": "second", "output_type": "torch"}), func_name="second", output_type="torch")
    export_scenario(ctx, "history", "a second call after one with other options", F, (A,),
                    again=((F, A), {"output_type": "linalg-on-tensors"}), output_type="linalg-on-tensors")


def histories(ctx):
    """A call is not affected by the calls before it."""
    A, B = obj("a0"), obj("a1")
    heavy = dict(output_type="stablehlo", backend_legal_ops=["aten.x"], allow_non_finites=False, func_name="f1", hooks=HOOKS, import_symbolic_shape_expressions=True,
                 experimental_support_mutation=True, decomposition_table=TABLE, dynamic_shapes=SHAPES, strict=True)

    def pred(p):
        m = exported(p, F, (B,), {}, NONE, False)
        if m:
            return m
        what, m = decomposed(p, obj("exported"), "default")
        return m or imported(p, "import_frozen_program", what, "main", False) or lowered(p, "LINALG_ON_TENSORS")

    scenario(ctx, "history", "defaults after a call with every option", "export_and_import", [F, A], heavy, pred, again=((F, B), {"output_type": "linalg-on-tensors"}))


def decompositions(ctx):
    A = obj("a0")
    for f in (F, PROG):
        who = "a module" if f == F else "a program"
        args = (A,) if f == F else ()
        export_scenario(ctx, "decompose", f"{who}: default table", f, args)
        export_scenario(ctx, "decompose", f"{who}: None", f, args, decomposition_table=NONE)
        export_scenario(ctx, "decompose", f"{who}: empty table", f, args, decomposition_table=Dct([]))
        export_scenario(ctx, "decompose", f"{who}: own table", f, args, decomposition_table=Dct([(obj("op"), obj("decomposition"))]))
        export_scenario(ctx, "decompose", f"{who}: own table, with mutation", f, args, decomposition_table=Dct([(obj("op"), obj("decomposition"))]), experimental_support_mutation=True)


def importing(ctx):
    A = obj("a0")
    for mut in (False, True):
        for sym in (False, True):
            export_scenario(ctx, "import", f"mutation={mut}, symbolic shapes={sym}", F, (A,), experimental_support_mutation=mut, import_symbolic_shape_expressions=sym, func_name="net")
        export_scenario(ctx, "import", f"mutation={mut}: hooks", F, (A,), experimental_support_mutation=mut, hooks=HOOKS)
        export_scenario(ctx, "import", f"mutation={mut}: own importer", F, (A,), experimental_support_mutation=mut, fx_importer=IMPORTER)
    for v in ("2.2.0", "2.3.0", "2.10.0"):
        export_scenario(ctx, "import", f"PyTorch {v}, mutation", F, (A,), version=v, experimental_support_mutation=True)
    export_scenario(ctx, "import", "printing the graph", F, (A,), enable_graph_printing=True, verbose=True)
    graph_scenario(ctx, "import", "stateless graph")
    graph_scenario(ctx, "import", "stateless graph: name", model_name="net")
    graph_scenario(ctx, "import", "stateless graph: hooks", hooks=HOOKS)
    graph_scenario(ctx, "import", "stateless graph: own importer", fx_importer=IMPORTER)
    graph_scenario(ctx, "import", "stateless graph: printing", enable_graph_printing=True, verbose=True)


def lowerings(ctx):
    A = obj("a0")
    p = ctx.project
    p.load(FXM)
    for name in TYPES:
        for spell in (name, name.upper(), name.replace("-", "_"), name.title()):
            export_scenario(ctx, "lower", f"export_and_import to {spell!r}", F, (A,), output_type=spell)
        for legal in ([], ["aten.a"], ["aten.a", "aten.b"]):
            for fin in (True, False):
                graph_scenario(ctx, "lower", f"graph to {name!r}, legal ops {legal}, non-finites {fin}", output_type=name, backend_legal_ops=legal, allow_non_finites=fin)
                export_scenario(ctx, "lower", f"module to {name!r}, legal ops {legal}, non-finites {fin}", F, (A,), output_type=name, backend_legal_ops=legal, allow_non_finites=fin)
        graph_scenario(ctx, "lower", f"graph to {name!r}, defaults", output_type=name)
        for verbose in (True, False):
            for ir in (True, False):
                graph_scenario(ctx, "lower", f"graph to {name!r}, verbose {verbose}, IR printing {ir}", output_type=name, verbose=verbose, enable_ir_printing=ir)
                export_scenario(ctx, "lower", f"module to {name!r}, verbose {verbose}, IR printing {ir}", F, (A,), output_type=name, verbose=verbose, enable_ir_printing=ir)
    for lib in (None, "", "lib.mlir"):
        for legal in (None, ["aten.a"]):

            def thunk(it, lib=lib, legal=legal):
                o = it.call_value(p.func(FXM, "FxImportOptions"), [], {"extra_library_file_name": val(lib), "backend_legal_ops": val(legal)}, None)
                kind = it.attr(p.func("torch_mlir.compiler_utils", "OutputType"), "TORCH", None)
                return it.call_value(p.func(FXM, "_module_lowering"), [FALSE, FALSE, kind, MODULE], {"fx_import_options": o}, None)

            def pred(q, lib=lib, legal=legal):
                want = [plain([("builtin.module", {}, [("func.func", {}, [("torch-match-quantized-custom-ops", {}, None)]),
                               ("torchdynamo-export-to-torch-backend-pipeline", {"extra-library": lib or "", "backend-legal-ops": ",".join(legal or ())}, None)])])]
                got = [plain(parse_pipeline(s)) for s, op, e in runs(q)]
                return None if got == want else f"runs the pipelines {got}"

            decide(ctx, "lower", f"library {lib!r}, legal ops {legal}", ctx.explore("library", thunk, **Fx().cfg()), pred)
    for bad in ("", "llvm", "torch-", "tosa linalg", "_raw"):
        scenario(ctx, "lower", f"output type {bad!r}", "export_and_import", [F, A], {"output_type": bad}, lambda p: None, must_raise=("ValueError",))
        scenario(ctx, "lower", f"graph, output type {bad!r}", "stateless_fx_import", [obj("graph module")], {"output_type": bad}, lambda p: None, must_raise=("ValueError",))
    p = ctx.project
    for name, member in TYPES.items():
        e = Fx()

        def thunk(it, member=member):
            cls = p.func("torch_mlir.compiler_utils", "OutputType")
            return it.call_value(p.func(FXM, "export_and_import"), [F, A], {"output_type": it.attr(cls, member, None)}, None)

        decide(ctx, "lower", f"export_and_import to OutputType.{member}", ctx.explore(member, thunk, **e.cfg()), lambda q, member=member: lowered(q, member))


def run(ctx):
    ctx.rule("export", "the module is exported once, with the arguments, keyword arguments, dynamic shapes and strictness it is given; a program is imported as it is")
    ctx.rule("decompose", "the program is decomposed with the given table, with the default one if none is given, and not at all if it is empty")
    ctx.rule("import", "the program is imported once, frozen unless mutation is asked for, by the given importer or a new one with the given hooks, under the given name")
    ctx.rule("lower", "the module of the importer is lowered in place to the output type, with the given options, and returned")
    ctx.rule("history", "a call does not depend on the calls before it")
    for g in (exporting, histories, decompositions, importing, lowerings):
        ctx.group(g)
    ctx.floor("export", 10)
    ctx.floor("lower", 50)
