"""C26: the TorchScript entry point compiles the methods it is given for the arguments it is given."""

from sa.entry import *
from checks.c15 import TYPES, kind_of, lowering, val
from checks.c24 import Fail, check, stderr_kept

TS = "torch_mlir.torchscript"
CU = "torch_mlir.compiler_utils"
MODEL = obj("model")
SCRIPTED = obj("scripted")


class Script(Fail):
    def __init__(self, model="torch.nn.Module", at=None, missing=()):
        super().__init__(at)
        t, a, m = self.types, self.attrs, self.models
        t[MODEL] = model
        self.missing = missing
        for name in ("forward", "a", "b", "other"):
            a[(MODEL, name)] = ABSENT if name in missing else obj("method " + name)
        t[SCRIPTED] = "torch.jit.ScriptModule"
        a[(obj("builder"), "module")] = MODULE
        for x in (SCRIPTED, MODEL):
            a[(x, "_c")] = T("obj", K("c of"), x)
        m["._type"] = lambda it, r, x, k, n: T("obj", K("class of"), freeze(r))
        m["torch.jit.script"] = m["torch.jit.trace_module"] = m["torch.jit.trace"] = lambda it, r, x, k, n: SCRIPTED
        m["torch.jit.export"] = lambda it, r, x, k, n: x[0]
        m["torch_mlir.jit_ir_importer.ModuleBuilder"] = lambda it, r, x, k, n: obj("builder")
        m["torch_mlir.jit_ir_importer.ClassAnnotator"] = lambda it, r, x, k, n: obj("annotator")
        m["torch_mlir.jit_ir_importer.ImportOptions"] = lambda it, r, x, k, n: obj("import options")
        m["torch._functorch.compile_utils.strip_overloads"] = lambda it, r, x, k, n: NONE
        m[".import_module"] = self.import_module
        m["generate_library"] = lambda it, r, x, k, n: T("obj", K("library of"), freeze(it.resolve(x[0])))
        self.opaque = self.opaque | {"generate_library"}
        for f in ("ones", "zeros", "empty", "rand", "randn"):
            m["torch." + f] = self.make
        m["torch.full"] = lambda it, r, x, k, n: self.make(it, r, x[:1], k, n)
        m["torch.tensor"] = m["torch.scalar_tensor"] = lambda it, r, x, k, n: self.made(it, (), k.get("dtype", NONE)) if isinstance(it.resolve(x[0]), K) else None

    def made(self, it, shape, dtype):
        t = T("obj", K("made"), freeze(tup(*shape)), freeze(dtype))
        it.types[t] = "torch.Tensor"
        return t

    def make(self, it, recv, args, kw, node):
        args = list(args)
        if not args and "size" in kw:
            args = [kw["size"]]
        xs = [it.resolve(x) for x in args]
        if len(xs) == 1 and isinstance(xs[0], Lst):
            xs = [it.resolve(x) for x in xs[0].items]
        if not xs and not args:
            it.raise_("TypeError", [], node)
        return self.made(it, xs, kw.get("dtype", NONE))

    def import_module(self, it, recv, args, kw, node):
        it.heap["diagnosed"] = it.heap.get((Q("sys"), "stderr"))
        for c in it.ctx:
            c = freeze(c)
            if isinstance(c, T) and c.op == "call" and show(c.args[0]).endswith("redirect_stderr"):
                it.heap["diagnosed"] = c.args[1][0] if c.args[1] else None
        self.fail(it, "import", node)
        return NONE

    def tensor(self, it, name, shape, dtype):
        t = obj(name)
        it.types[t] = "torch.Tensor"
        it.attrs[(t, "shape")] = tup(*map(K, shape))
        it.attrs[(t, "dtype")] = Q("torch." + dtype)
        return t


class A:
    """One example argument: a tensor or a placeholder."""

    def __init__(self, kind, shape, dtype="float32"):
        self.kind, self.shape, self.dtype = kind, tuple(shape), dtype

    def build(self, it, e, p, i):
        if self.kind == "tensor":
            return e.tensor(it, f"t{i}", self.shape, self.dtype)
        return it.call_value(p.func(CU, "TensorPlaceholder"), [Lst([K(d) for d in self.shape]), Q("torch." + self.dtype)], {}, None)

    def __repr__(self):
        return f"{self.kind}{list(self.shape)}:{self.dtype}"


Tn = lambda *s, d="float32": A("tensor", s, d)
Ph = lambda *s, d="float32": A("placeholder", s, d)


def compile_(ctx, cons, spec, pred, model="torch.nn.Module", at=None, missing=(), rule="compile", **o):
    """spec: one argument, a list/tuple of them, or {method: ...}."""
    p = ctx.project
    p.load(TS)
    e = Script(model, at, missing)

    def build(it, s, n):
        if isinstance(s, A):
            return s.build(it, e, p, n)
        if isinstance(s, (list, tuple)):
            return Lst([build(it, x, f"{n}.{i}") for i, x in enumerate(s)], "list" if isinstance(s, list) else "tuple")
        return val(s)

    def thunk(it):
        if isinstance(spec, dict):
            ex = it.call_value(p.func(TS, "ExampleArgs"), [], {}, None)
            for m, s in spec.items():
                ex = it.call_value(it.attr(ex, "add_method", None), [K(m), build(it, s, m)], {}, None)
        else:
            ex = build(it, spec, "a")
        return it.call_value(p.func(TS, "compile"), [MODEL, ex], {k: val(v) for k, v in o.items()}, None)

    check(ctx, cons, ctx.explore(cons, thunk, **e.cfg()), pred, rule)


def methods(spec):
    if not isinstance(spec, dict):
        spec = {"forward": spec}
    return {m: [s] if isinstance(s, A) else list(s) for m, s in spec.items()}


def items(x):
    x = freeze(x)
    return list(x.args) if isinstance(x, T) and x.op in ("list", "tuple", "ilist") else None


def annotated(p, scripted, spec, ignore=False):
    """What is annotated and imported."""
    cls = T("obj", K("class of"), T("obj", K("c of"), scripted))
    want = methods(spec)
    imp = calls(p, ".import_module")
    if len(imp) != 1:
        return f"imports {len(imp)} times"
    i = imp[0]
    c, ann, opt = i.arg("module", 0), i.arg("annotator", 1), i.arg("import_options", 2)
    if freeze(c) != T("obj", K("c of"), scripted):
        return f"imports {show(c)}"
    if ann is None or freeze(ann) != obj("annotator"):
        return "imports without the annotations"
    none = calls(p, ".exportNone")
    if len(none) != 1 or [freeze(a) for a in none[0].args] != [cls]:
        return "does not hide the methods that are not compiled"
    paths = [(freeze(e.args[0]), items(e.args[1]), e.idx) for e in calls(p, ".exportPath")]
    if sorted((str(x[1]) for x in paths)) != sorted(str([K(m)]) for m in want) or any(x[0] != cls for x in paths):
        return f"exports {[x[1] for x in paths]}"
    if any(x[2] < none[0].idx for x in paths):
        return "hides a method that is compiled"
    got = {}
    for e in calls(p, ".annotateArgs"):
        if freeze(e.args[0]) != cls:
            return f"annotates {show(e.args[0])}"
        path = items(e.args[1])
        got[path[0].v if len(path) == 1 else str(path)] = items(e.args[2])
        if e.idx > i.idx:
            return "annotates after the import"
    for m, args in want.items():
        w = [NONE] + [T("tuple", T("list", *[K(d) for d in a.shape]), Q("torch." + a.dtype), TRUE) for a in args]
        g = [T("tuple", T("list", *x.args[0].args), *x.args[1:]) if isinstance(x, T) and x.op == "tuple" and isinstance(x.args[0], T) else x for x in got.get(m) or []]
        if g != w:
            return f"{m} is annotated with {[show(x) for x in g]}"
    if set(got) != set(want):
        return f"annotates {sorted(got)}"
    sets = [e for e in p.events if e.kind == "setattr" and e.name == "ignoreExistingTensorShapesAndDtypes"]
    flag = sets[-1].args[0] if sets else FALSE
    if flag != K(ignore) or sets and (sets[-1].idx > i.idx or opt is None or freeze(opt) != freeze(sets[-1].recv)) or ignore and opt is None:
        return f"imports with ignoreExistingTensorShapesAndDtypes={show(flag)}"
    return None


def lowered(p, kind, legal=(), library="", ir=False):
    want = []
    if kind != "RAW":
        o = {"extra-library": library, "backend-legal-ops": ",".join(sorted(set(legal)))}
        want = [plain([("builtin.module", {}, [("torchscript-module-to-torch-backend-pipeline", o, None)])])] + lowering(kind, "ts")[1:]
    got = []
    for s, op, e in runs(p):
        x = parse_pipeline(s)
        for n, opts, kids in x:
            for k in kids or []:
                if "backend-legal-ops" in k[1] and k[1]["backend-legal-ops"]:
                    k[1]["backend-legal-ops"] = ",".join(sorted(set(k[1]["backend-legal-ops"].split(","))))
        got.append(plain(x))
        if op != OPERATION:
            return f"runs {s!r} on {show(op)}"
    if got != want:
        return f"runs the pipelines {got}, not {want}"
    if want and ir != bool(calls(p, ".enable_ir_printing")):
        return "prints the IR without being asked" if not ir else "does not print the IR"
    return None if freeze(p.value) == MODULE else f"returns {show(p.value)}"


def ok(p):
    return None if p.outcome == "return" else f"raises {p.exc.name}"


SPECS = [
    Tn(2, 3), Tn(), Ph(2, -1), Ph(), Ph(-1, -1, d="int64"),
    [Tn(2), Ph(-1, 4)], (Ph(3), Tn(3, d="int64")), [], (),
    {"forward": Tn(2)}, {"other": [Tn(2), Tn(3)]}, {"a": Ph(-1), "b": [Tn(2, d="bool"), Ph(0, 5)], "forward": ()},
    [Tn(2), Tn(3), Tn(4), Ph(5)],
]


def scripting(ctx):
    for spec in SPECS:
        for cls in ("torch.nn.Module", "torch.fx.GraphModule", "torch.jit.ScriptModule"):

            def pred(p, spec=spec, cls=cls):
                m = ok(p)
                if m:
                    return m
                scripts = calls(p, "torch.jit.script")
                if cls == "torch.jit.ScriptModule":
                    if scripts or calls(p, "trace_module"):
                        return "scripts a script module again"
                    what = MODEL
                else:
                    if [freeze(e.args[0]) for e in scripts] != [MODEL]:
                        return "does not script the model"
                    if calls(p, "trace_module", "torch.jit.trace"):
                        return "traces the model"
                    what = SCRIPTED
                    ex = {show(e.args[0]): e.idx for e in calls(p, "torch.jit.export")}
                    for name in methods(spec):
                        i = ex.get(f"method {name}.__func__", ex.get(f"method {name}"))
                        if i is None or i > scripts[0].idx:
                            return f"{name} is not exported before the model is scripted"
                st = calls(p, "strip_overloads")
                if cls == "torch.fx.GraphModule":
                    if len(st) != 1 or st[0].idx > scripts[0].idx:
                        return "does not strip the overloads of the graph"
                elif st:
                    return "strips the overloads of a module that is no graph"
                return annotated(p, what, spec) or lowered(p, "TORCH")

            compile_(ctx, f"{cls.split('.')[-1]} for {spec}", spec, pred, cls)
    # a script module is taken as it is with tracing options too; a graph module loses its overloads before it is traced
    for spec in (Tn(2), Ph(2, -1), {"a": Ph(-1), "forward": (Tn(3),)}):
        for ignore in (False, True):
            for kind in TYPES:

                def pred(p, spec=spec, ignore=ignore, kind=kind):
                    m = ok(p)
                    if m:
                        return m
                    if calls(p, "torch.jit.script", "trace_module", "torch.jit.trace"):
                        return "scripts or traces a script module again"
                    return annotated(p, MODEL, spec, ignore) or lowered(p, TYPES[kind], ("aten.a",) if kind == "torch" else ())

                kw = {"backend_legal_ops": ["aten.a"]} if kind == "torch" else {}
                compile_(ctx, f"ScriptModule for {spec} with tracing, ignoring shapes {ignore}, to {kind}", spec, pred, "torch.jit.ScriptModule", use_tracing=True, ignore_traced_shapes=ignore, output_type=kind, **kw)

    def graph(p):
        m = ok(p)
        if m:
            return m
        st, tr = calls(p, "strip_overloads"), calls(p, "torch.jit.trace_module")
        if len(st) != 1 or len(tr) != 1 or st[0].idx > tr[0].idx or freeze(st[0].args[0]) != MODEL or calls(p, "torch.jit.script"):
            return "does not strip the overloads of the graph and then trace it"
        return annotated(p, SCRIPTED, Ph(2, -1), True) or lowered(p, "TORCH")

    compile_(ctx, "GraphModule with tracing", Ph(2, -1), graph, "torch.fx.GraphModule", use_tracing=True, ignore_traced_shapes=True)
    for spec in (Tn(2), {"forward": Tn(2), "other": Tn(3)}, {"other": Tn(3)}):
        ms = methods(spec)
        compile_(ctx, f"ScriptModule without a method of {spec}", spec, lambda p: None if p.outcome == "raise" else "is accepted", "torch.jit.ScriptModule", missing=tuple(ms)[-1:], rule="reject")


def tracing(ctx):
    for spec in SPECS:
        for ignore in (False, True):
            ph = any(a.kind == "placeholder" for s in methods(spec).values() for a in s)
            cons = f"tracing for {spec}, ignoring shapes {ignore}"
            if ph and not ignore:
                compile_(ctx, cons, spec, lambda p: None if p.outcome == "raise" else "is accepted", rule="reject", use_tracing=True)
                continue

            def pred(p, spec=spec, ignore=ignore):
                m = ok(p)
                if m:
                    return m
                tr = calls(p, "torch.jit.trace_module")
                if len(tr) != 1 or calls(p, "torch.jit.script"):
                    return "does not trace the model"
                if freeze(tr[0].args[0]) != MODEL:
                    return f"traces {show(tr[0].args[0])}"
                d = freeze(tr[0].arg("inputs", 1))
                if not (isinstance(d, T) and d.op == "dict"):
                    return f"traces with {show(d)}"
                got = {k.v: items(x) for k, x in d.args}
                want = methods(spec)
                if set(got) != set(want):
                    return f"traces {sorted(got)}"
                names = {m: ([f"{'a' if not isinstance(spec, dict) else m}"] if isinstance(s, A) else [f"{'a' if not isinstance(spec, dict) else m}.{i}" for i in range(len(s))]) for m, s in (spec if isinstance(spec, dict) else {"forward": spec}).items()}
                for m, args in want.items():
                    if got[m] is None or len(got[m]) != len(args):
                        return f"{m} is traced with {got[m]}"
                    for a, g, n in zip(args, got[m], names[m]):
                        if a.kind == "tensor":
                            if g != obj("t" + n):
                                return f"{m} is traced with {show(g)}, not with the tensor it is given"
                            continue
                        if not (isinstance(g, T) and g.op == "obj" and g.args[0] == K("made")):
                            return f"{m} is traced with {show(g)}"
                        sh = list(g.args[1].args)
                        if g.args[2] != Q("torch." + a.dtype):
                            return f"{m} is traced with {show(g.args[2])}"
                        if len(sh) != len(a.shape) or any(not isinstance(x, K) or (x.v != d_ if d_ != -1 else x.v <= 1) for x, d_ in zip(sh, a.shape)):
                            return f"{m} is traced with the shape {sh}"
                return annotated(p, SCRIPTED, spec, ignore) or lowered(p, "TORCH")

            compile_(ctx, cons, spec, pred, use_tracing=True, ignore_traced_shapes=ignore)
    compile_(ctx, "ignoring traced shapes without tracing", Tn(2), lambda p: None if p.outcome == "raise" else "is accepted", rule="reject", ignore_traced_shapes=True)


def rejects(ctx):
    for spec in (3, "text", None, [Tn(2), 3], [[Tn(2)]], {"forward": 1}, {"forward": [Tn(2), "x"]}, 1.5):
        for tr in (False, True):
            compile_(ctx, f"example arguments {spec}, tracing {tr}", spec, lambda p: None if p.outcome == "raise" else "is accepted", rule="reject", use_tracing=tr)
    for t in ("", "llvm"):
        compile_(ctx, f"output type {t!r}", Tn(2), lambda p: None if p.outcome == "raise" and p.exc.name.endswith("ValueError") else "is accepted", rule="reject", output_type=t)
    p = ctx.project
    e = Script()

    def twice(it):
        ex = it.call_value(p.func(TS, "ExampleArgs"), [], {}, None)
        for i in range(2):
            ex = it.call_value(it.attr(ex, "add_method", None), [K("forward"), e.tensor(it, f"t{i}", (2,), "float32")], {}, None)
        return ex

    check(ctx, "a method given twice", ctx.explore("twice", twice, **e.cfg()), lambda q: None if q.outcome == "raise" else "is accepted", "reject")


def options(ctx):
    f1, f2 = obj("shape function 1"), obj("dtype function 2")
    for name in TYPES:
        for spell in (name, name.upper(), name.replace("-", "_")):
            compile_(ctx, f"to {spell!r}", Tn(2), lambda p, name=name: ok(p) or annotated(p, SCRIPTED, Tn(2)) or lowered(p, TYPES[name]), rule="lower", output_type=spell)
        for legal in ((), ("aten.b", "aten.a"), ("aten.a", "aten.a", "aten.c")):
            for ir in (False, True):
                compile_(ctx, f"to {name!r}, legal ops {legal}, IR printing {ir}", Tn(2), lambda p, name=name, legal=legal, ir=ir: ok(p) or lowered(p, TYPES[name], legal, ir=ir), rule="lower", output_type=name, backend_legal_ops=list(legal), enable_ir_printing=ir)
    compile_(ctx, "verbose", Tn(2), lambda p: ok(p) or lowered(p, "LINALG_ON_TENSORS") or (None if calls(p, "print") else "prints nothing"), rule="lower", output_type="linalg-on-tensors", verbose=True)
    compile_(ctx, "not verbose", Tn(2), lambda p: ok(p) or ("prints without being asked" if calls(p, "print") else None), rule="lower", output_type="linalg-on-tensors")

    # extra library: its functions by name, in the file that the pipeline reads
    def library(p, fns=()):
        m = ok(p)
        if m:
            return m
        g = calls(p, "generate_library")
        if len(g) != 1:
            return f"generates {len(g)} libraries"
        d = freeze(g[0].args[0])
        if {k.v: x for k, x in d.args} != {n: f for n, f in fns}:
            return f"the library has the functions {[show(k) for k, _ in d.args]}"
        op = calls(p, "open", "builtins.open")
        ws = [w for w in calls(p, ".write") if T("obj", K("library of"), d) in [freeze(a) for a in w.args]]
        if len(op) != 1 or len(ws) != 1 or op[0].arg("mode", 1, K("r")) not in (K("w"), K("wt")):
            return "the library is not written to a file"
        if runs(p) and runs(p)[0][2].idx < ws[0].idx:
            return "the library is written after it is read"
        return lowered(p, "TORCH", library=op[0].args[0].v)

    for fns in ((("fn〇a", f1),), (("fn〇a", f1), ("fn〇b", f2))):

        def run_(ctx=ctx, fns=fns):
            p = ctx.project
            e = Script()
            for n, f in fns:
                e.attrs[(f, "__name__")] = K(n)

            def thunk(it):
                return it.call_value(p.func(TS, "compile"), [MODEL, e.tensor(it, "ta", (2,), "float32")], {"extra_library": Lst([f for _, f in fns])}, None)

            check(ctx, f"extra library of {len(fns)} functions", ctx.explore("library", thunk, **e.cfg()), lambda q: library(q, fns), "lower")

        run_()


def failures(ctx):
    def imp(p):
        if p.outcome != "raise":
            return "the failure is not reported"
        t = None
        for e in reversed(p.events):
            if e.kind == "raise" and e.args:
                t = next((x for x in walk(freeze(e.args[0])) if isinstance(x, K) and isinstance(x.v, str)), None)
                break
        text = t.v if t is not None else ""
        if t is None or "DIAGNOSTICS-1" not in text or "EXCEPTION" not in text:
            return "the error states neither the exception nor the diagnostics"
        return "lowers what it could not import" if runs(p) else None

    compile_(ctx, "the import fails", Tn(2), imp, rule="report", at="import")
    for at in ("parse", "run", "get_asm"):
        compile_(ctx, f"{at} fails", Tn(2), lambda p: None if p.outcome == "raise" and p.exc.name.endswith("TorchMlirCompilerError") else "the failure is not reported", rule="report", at=at)
    compile_(ctx, "raw output needs no pass", Tn(2), lambda p: ok(p), rule="report", at="run", output_type="raw")


def like(ctx):
    p = ctx.project
    p.load(CU)
    for shape in ((), (2,), (2, 3), (1, 4, 5)):
        for dyn in [None, ()] + [(i,) for i in range(len(shape))] + ([(0, len(shape) - 1)] if len(shape) > 1 else []):
            e = Script()

            def thunk(it, shape=shape, dyn=dyn):
                t = e.tensor(it, "t", shape, "int32")
                cls = p.func(CU, "TensorPlaceholder")
                return it.call_value(it.attr(cls, "like", None), [t], {} if dyn is None else {"dynamic_axes": Lst([K(d) for d in dyn])}, None)

            def pred(q, shape=shape, dyn=dyn):
                m = ok(q)
                if m:
                    return m
                vals = {e_.name: freeze(e_.args[0]) for e_ in q.events if e_.kind == "setattr"}
                want = [-1 if i in (dyn or ()) else d for i, d in enumerate(shape)]
                got = items(vals.get("shape"))
                if got != [K(d) for d in want]:
                    return f"has the shape {got}"
                return None if vals.get("dtype") == Q("torch.int32") else f"has the dtype {show(vals.get('dtype'))}"

            check(ctx, f"placeholder like {shape} with dynamic axes {dyn}", ctx.explore("like", thunk, **e.cfg()), pred, "placeholder")


def run(ctx):
    ctx.rule("compile", "exactly the given methods are scripted or traced, exported and annotated with the shape and dtype of each of their arguments, and imported once")
    ctx.rule("lower", "the imported module is lowered in place by the pipelines of the output type with the given legal operations and library, and returned")
    ctx.rule("reject", "arguments that are no tensors or placeholders, methods that a script module lacks and tracing options that contradict each other are rejected")
    ctx.rule("report", "a failure of the import or of a pass is reported with its diagnostics, and sys.stderr is the caller's")
    ctx.rule("placeholder", "a placeholder like a tensor has its dtype and its extents, -1 for the dynamic axes")
    for g in (scripting, tracing, rejects, options, failures, like):
        ctx.group(g)
    ctx.floor("compile", 30)
    ctx.floor("reject", 12)
