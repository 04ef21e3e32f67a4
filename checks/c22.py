"""C22: the ONNX console tool imports the model it is given, the way its options say."""

import argparse
import pathlib

from sa.onnxworld import *
from checks.c17 import shape_of
from checks.c19 import F32, allow, body, Tree, same_ops

TOOL = "torch_mlir.tools.import_onnx.__main__"
SMALL, BIG_CHECK, BIG_INFER, INVALID = "small", "too big for the checker", "too big for inference", "invalid"


def value(x):
    """An abstract value for what argparse computes."""
    if isinstance(x, pathlib.Path):
        return path_of(str(x))
    return K(x)


def path_of(s):
    return T("obj", K("path"), K(s))


class Parser:
    """argparse on the options that the analysed program declares."""

    def __init__(self, w, argv):
        self.w, self.argv = w, argv
        m = w.models
        m["argparse.ArgumentParser"] = lambda it, r, a, k, n: self.new(it)
        m[".add_argument"] = self.add
        m[".add_mutually_exclusive_group"] = m[".add_argument_group"] = lambda it, r, a, k, n: r
        m[".set_defaults"] = self.defaults
        m[".parse_args"] = lambda it, r, a, k, n: self.parse(it, a, k, n)
        m["pathlib.Path"] = lambda it, r, a, k, n: a[0] if a and self.is_path(freeze(it.resolve(a[0]))) else path_of(str(it.resolve(a[0]).v)) if a and isinstance(it.resolve(a[0]), K) else None

    @staticmethod
    def is_path(x):
        return isinstance(x, T) and x.op == "obj" and x.args[0] == K("path")

    def new(self, it):
        it.heap["options"] = []
        return obj("parser")

    def add(self, it, recv, args, kw, node):
        it.heap["options"] = it.heap["options"] + [([it.resolve(a) for a in args], {k: it.resolve(v) for k, v in kw.items()})]
        return obj("option")

    def defaults(self, it, recv, args, kw, node):
        it.heap["set_defaults"] = {**it.heap.get("set_defaults", {}), **{k: it.resolve(v) for k, v in kw.items()}}
        return NONE

    def py(self, v):
        if isinstance(v, K):
            return v.v
        if isinstance(v, Lst):
            return [self.py(x) for x in v.items]
        if isinstance(v, Q):
            n = v.name
            if n in ("pathlib.Path", "pathlib.PurePath"):
                return pathlib.Path
            if n.startswith("argparse."):
                return getattr(argparse, n[9:])
            if n.startswith("builtins."):
                return {"int": int, "float": float, "str": str, "bool": bool}[n[9:]]
        if self.is_path(v):
            return pathlib.Path(v.args[1].v)
        raise AnalysisError(f"option argument {show(v)}")

    def parse(self, it, args, kw, node):
        def error(message):
            raise ValueError(message)

        p = argparse.ArgumentParser(exit_on_error=False)
        p.error = error
        for a, k in it.heap["options"]:
            try:
                p.add_argument(*[self.py(x) for x in a], **{n: self.py(x) for n, x in k.items() if n != "help"})
            except (ValueError, TypeError) as e:
                it.raise_(type(e).__name__, [K(str(e))], node)
        p.set_defaults(**{n: self.py(x) for n, x in it.heap.get("set_defaults", {}).items()})
        argv = it.resolve(args[0]) if args else it.resolve(kw.get("args", NONE))
        if argv != NONE and not (isinstance(argv, T) and argv.op == "attr"):
            if not isinstance(argv, Lst):
                raise AnalysisError("command line")
            argv = [self.py(x) for x in argv.items]
        else:
            argv = self.argv
        try:
            ns = p.parse_args(argv)
        except (SystemExit, argparse.ArgumentError, TypeError, ValueError):
            it.raise_("SystemExit", [K(2)], node)
        o = obj("args")
        self.w.attrs[(o, "__closed__")] = TRUE
        it.attrs[(o, "__closed__")] = TRUE
        for n, x in vars(ns).items():
            it.attrs[(o, n)] = value(x)
        it.heap["namespace"] = dict(vars(ns))
        return o


class Tool:
    """One command line, one model and what the ONNX library says to it."""

    def __init__(self, argv, size=SMALL, stale=False):
        w = self.w = OnnxWorld()
        self.stale = stale  # a directory of an earlier run exists
        self.argv, self.size = argv, size
        self.parser = Parser(w, argv)
        m = w.models
        mk = lambda name, d: w.model(w.graphp("main", [w.info("x", [2], tag=name)], [w.info("o", [d], tag=name)], [w.nodep("Foo", ["x"], ["t"], (), "dom"), w.nodep("Bar", ["t"], ["o"], (), "")], [], [w.info("t", [d + 1], tag=name)]), (("", 10), ("dom", 10)), name)
        # models that a function of the library returns, told apart by their extents
        self.raw, self.converted, self.inferred, self.filed = mk("raw", 3), mk("converted", 13), None, mk("filed", 33)
        m["onnx.load"] = self.load
        m["onnx.version_converter.convert_version"] = lambda it, r, a, k, n: self.converted
        m["onnx.checker.check_model"] = self.check
        m["infer_shapes"] = self.infer
        for f in ("onnx.load_external_data_for_model", "onnx.external_data_helper.load_external_data_for_model", "onnx.save", "onnx.shape_inference.infer_shapes_path"):
            m[f] = lambda it, r, a, k, n: NONE
        m[".verify"] = lambda it, r, a, k, n: NONE
        m["shutil.rmtree"] = self.rmtree
        for f in (".mkdir", "os.makedirs", "os.mkdir"):
            m[f] = self.mkdir
        m[IR + "Context"] = lambda it, r, a, k, n: obj(f"context{len(it.path.events)}")
        m["Module.create"] = lambda it, r, a, k, n: obj("mlir module")
        w.attrs[(obj("mlir module"), "operation")] = obj("module")
        self.n = 0

    def check(self, it, recv, args, kw, node):
        if self.size == BIG_CHECK:
            it.raise_("ValueError", [K("too big")], node)
        if self.size == INVALID:
            it.raise_("onnx.onnx_cpp2py_export.checker.ValidationError", [], node)
        return NONE

    def rmtree(self, it, recv, args, kw, node):
        if not it.heap.get("directory", self.stale) and kw.get("ignore_errors", args[1] if len(args) > 1 else FALSE) != TRUE:
            it.raise_("FileNotFoundError", [], node)
        it.heap["directory"] = False
        it.heap["fresh"] = True
        return NONE

    def mkdir(self, it, recv, args, kw, node):
        if it.heap.get("directory", self.stale):
            if kw.get("exist_ok", FALSE) != TRUE:
                it.raise_("FileExistsError", [], node)
            it.emit("note", "reused", obj("directory"), [], node=node)
        it.heap["directory"] = True
        return NONE

    def load(self, it, recv, args, kw, node):
        a = freeze(it.resolve(args[0] if args else kw["f"]))
        return self.raw if a == path_of("dir/m.onnx") or a == T("str", path_of("dir/m.onnx")) else self.filed

    def infer(self, it, recv, args, kw, node):
        if self.size != SMALL:
            it.raise_("ValueError", [K("too big")], node)
        o = self.w.infer(it, recv, args, kw, node)
        it.heap["inferred"] = o
        return o


def arg(e, name, i, default=None):
    return e.arg(name, i, default)


def bool_of(v, default=True):
    return default if v is None else v == TRUE


def scenario(ctx, rule, cons, argv, size, pred, entry="_cli_main", may_raise=(), must_raise=(), stale=False):
    t = Tool(argv, size, stale)
    p = ctx.project
    load(p)
    p.load(TOOL)

    def thunk(it):
        it.attrs = {k: Lst(list(v.items), v.kind, elem=v.elem) if isinstance(v, Lst) else v for k, v in it.attrs.items()}
        return it.call_value(p.func(TOOL, entry), [], {}, None)

    ps = ctx.explore(cons, thunk, **t.w.cfg(max_rec=10, max_depth=120))
    # sys.exit(None) ends the tool
    for q in ps:
        if q.outcome == "raise" and q.exc.name.split(".")[-1] == "SystemExit" and not must_raise:
            a = [freeze(x) for x in getattr(q.exc, "args", None) or []]
            if not a or a[0] in (NONE, K(0)):
                q.outcome = "return"
    return decide(ctx, rule, cons, ps, lambda q: pred(t, q), may_raise=may_raise, must_raise=must_raise)


def calls(p, *names):
    return [e for e in p.events if e.kind == "call" and any(e.name == n or e.name.endswith("." + n) or n.startswith(".") and e.name == n for n in names)]


def base(x):
    """Whether a path is `x` or lies in it."""
    return lambda y: any(z == x for z in walk(freeze(y)))


def find_temp(p):
    """The temporary directory: what is created."""
    ds = [freeze(e.recv) if e.name == ".mkdir" else freeze(e.args[0]) for e in calls(p, ".mkdir", "os.makedirs", "os.mkdir", "makedirs")]
    return ds


COMBOS = [(d, o, c) for d in (None, "data") for o in (None, "11") for c in (None, "--clear-domain")]


def loads(ctx):
    """Which model is imported."""
    IN = path_of("dir/m.onnx")
    for size in (SMALL, BIG_CHECK, BIG_INFER):
        for data, opset, clear in COMBOS:
            for prop in (None, "--data-prop", "--no-data-prop"):
                if size == BIG_INFER and prop != "--no-data-prop":
                    continue
                argv = ["dir/m.onnx"] + (["--data-dir", data] if data else []) + (["--opset-version", opset] if opset else []) + ([clear] if clear else []) + ([prop] if prop else [])
                cons = f"{' '.join(argv)}, {size}"

                def pred(t, p, size=size, data=data, opset=opset, clear=clear, prop=prop):
                    w, ev = t.w, p.events
                    ls = calls(p, "onnx.load")
                    first = [e for e in ls if freeze(arg(e, "f", 0)) in (IN, T("str", IN))]
                    if len(first) != 1:
                        return f"the model is read {len(first)} times"
                    ext = bool_of(arg(first[0], "load_external_data", 2))
                    more = [e for e in calls(p, "load_external_data_for_model") if freeze(arg(e, "model", 0)) == t.raw]
                    if ext and data or (not ext and not more):
                        return "the external data are not read from where the options say" if data else "the external data are not read"
                    for e in more:
                        want = path_of(data) if data else None
                        if want is not None and not base(want)(arg(e, "base_dir", 1)) or want is None and not base(IN)(arg(e, "base_dir", 1)):
                            return f"the external data are read from {show(arg(e, 'base_dir', 1))}"
                    # conversions
                    model = t.raw
                    cv = calls(p, "convert_version")
                    if opset:
                        if [(freeze(arg(e, "model", 0)), arg(e, "target_version", 1)) for e in cv] != [(t.raw, K(int(opset)))]:
                            return f"the model is converted to {[show(arg(e, 'target_version', 1)) for e in cv]}"
                        model = t.converted
                    elif cv:
                        return "the model is converted"
                    cleared = {freeze(e.recv) for e in calls(p, ".ClearField") if e.args and e.args[0] == K("domain")}
                    cleared |= {freeze(e.recv) for e in ev if e.kind == "setattr" and e.name == "domain" and e.args and e.args[0] == K("")}
                    g = w.attrs[(model, "graph")]
                    ns = {freeze(x) for x in w.attrs[(g, "node")].items if w.attrs.get((x, "domain")) != K("")}
                    if clear and not ns <= cleared:
                        return "the domain of a node is not cleared"
                    if not clear and cleared:
                        return "the domain of a node is cleared"
                    # inference
                    want_prop = prop != "--no-data-prop"
                    end = model
                    if size == SMALL:
                        inf = [e for e in calls(p, "infer_shapes")]
                        if len(inf) != 1 or freeze(arg(inf[0], "model", 0)) != model:
                            return "shape inference does not run on the model"
                        if bool_of(arg(inf[0], "data_prop", 3), False) != want_prop:
                            return f"data propagation is {show(arg(inf[0], 'data_prop', 3, FALSE))}"
                        if calls(p, "infer_shapes_path"):
                            return "shape inference runs twice"
                    else:
                        inf = calls(p, "infer_shapes_path")
                        if len(inf) != 1:
                            return f"shape inference runs {len(inf)} times on files"
                        if bool_of(arg(inf[0], "data_prop", 4), False) != want_prop:
                            return f"data propagation is {show(arg(inf[0], 'data_prop', 4, FALSE))}"
                        src, dst = freeze(arg(inf[0], "model_path", 0)), freeze(arg(inf[0], "output_path", 1))
                        if opset or clear:
                            sv = [e for e in calls(p, "onnx.save") if e.idx < inf[0].idx]
                            if not sv or freeze(arg(sv[-1], "proto", 0)) != model or freeze(arg(sv[-1], "f", 1)) != src:
                                return "shape inference reads a file that is not the changed model"
                            if any(e.idx > sv[-1].idx for e in calls(p, ".ClearField")):
                                return "the model is changed after it is saved"
                            where = src
                            if not bool_of(arg(sv[-1], "save_as_external_data", 3), False):
                                return "a big model is saved into one file"
                        else:
                            if src not in (IN, T("str", IN)):
                                return f"shape inference reads {show(src)}"
                            where = path_of(data) if data else IN
                        second = [e for e in ls if freeze(arg(e, "f", 0)) in (dst, T("str", dst))]
                        if dst is None or len(second) != 1 or second[0].idx < inf[0].idx:
                            return "the inferred model is not read back"
                        x = [e for e in calls(p, "load_external_data_for_model") if freeze(arg(e, "model", 0)) == t.filed]
                        if len(x) != 1:
                            return "the external data of the inferred model are not read"
                        d = freeze(arg(x[0], "base_dir", 1))
                        if where == IN and not base(IN)(d) or where == path_of(data or "") and not base(where)(d):
                            return f"the external data of the inferred model are read from {show(d)}"
                        if opset or clear:
                            tmp = [y for y in find_temp(p) if base(y)(src)]
                            if not any(base(y)(d) for y in tmp):
                                return f"the external data of the changed model are read from {show(d)}"
                        end = t.filed
                    # what is imported: models are told apart by their extents
                    ops, ret = shape_of(OView(p))
                    d = {t.raw: 3, t.converted: 13, t.filed: 33}[end]
                    want = [("onnx.Foo", ["arg0"], [F32(d + 1)]), ("onnx.Bar", ["onnx.Foo#0"], [F32(d)])]
                    return None if ops == want and ret == ["onnx.Bar#0"] else f"imports {ops}, not the model that the options ask for"

                scenario(ctx, "model", cons, argv, size, pred)


def temps(ctx):
    """Temporary files: only the tool's own directory is removed, and it is removed at the end."""
    IN = path_of("dir/m.onnx")
    for size in (SMALL, BIG_CHECK):
        for tmp in (None, "tmp"):
            for keep in (None, "--keep-temps"):
                for opset in (None, "11"):
                    argv = ["dir/m.onnx"] + (["--temp-dir", tmp] if tmp else []) + ([keep] if keep else []) + (["--opset-version", opset] if opset else [])

                    def pred(t, p, tmp=tmp, keep=keep, opset=opset, size=size):
                        ds = find_temp(p)
                        rm = calls(p, "shutil.rmtree", "rmtree")
                        root = path_of(tmp) if tmp else IN
                        for d in ds:
                            if d == path_of(tmp or "") or not base(root)(d):
                                return f"creates {show(d)}"
                            if tmp is None and d in (IN,):
                                return f"creates {show(d)}"
                        for e in rm:
                            d = freeze(arg(e, "path", 0))
                            if d not in ds and d not in [T("str", x) for x in ds]:
                                return f"removes {show(d)}, which it did not create"
                        uses = [e for e in p.events if e.kind == "call" and (e.name.endswith(("onnx.save", "infer_shapes_path", "onnx.load", "load_external_data_for_model"))) and any(base(d)(x) for d in ds for x in list(e.args) + list(e.kw.values()))]
                        made = [e for e in calls(p, ".mkdir", "os.makedirs", "os.mkdir", "makedirs")]
                        if any(e.kind == "note" and e.name == "reused" for e in p.events):
                            return "keeps the files of an earlier run in its directory"
                        if uses and not any(e.idx < uses[0].idx for e in made):
                            return "uses the directory before it exists"
                        for e in rm:
                            if made and e.idx > made[-1].idx and any(u.idx > e.idx for u in uses):
                                return "removes the directory before it has read its files"
                        left = [e for e in rm if made and e.idx > made[-1].idx]
                        if keep and left:
                            return "removes the temporary files it is asked to keep"
                        if not keep and made and not left:
                            return "leaves its temporary directory behind"
                        if size != SMALL:
                            outs = [freeze(arg(e, "output_path", 1)) for e in calls(p, "infer_shapes_path")]
                            outs += [freeze(arg(e, "f", 1)) for e in calls(p, "onnx.save")]
                            if any(o is None or not any(base(d)(o) for d in ds) for o in outs):
                                return f"writes {[show(o) for o in outs]} outside of its temporary directory"
                        return None

                    scenario(ctx, "temporary", f"{' '.join(argv)}, {size}", argv, size, pred)
                    scenario(ctx, "temporary", f"{' '.join(argv)}, {size}, with the files of an earlier run", argv, size, pred, stale=True)


def outputs(ctx):
    for out in (None, "-", "out.mlir", ""):
        for verify in (None, "--no-verify"):
            argv = ["dir/m.onnx"] + (["-o", out] if out is not None else []) + ([verify] if verify else [])

            def pred(t, p, out=out, verify=verify):
                v = OView(p)
                last = max(o.idx for o in v.ops)
                vs = calls(p, ".verify")
                if verify and vs:
                    return "verifies the module"
                if not verify:
                    if len(vs) != 1 or freeze(vs[0].recv) not in (obj("module"), obj("mlir module")) or vs[0].idx < last:
                        return "does not verify the imported module"
                reg = [freeze(a) for e in calls(p, "register_dialect") for a in e.args]
                mc = calls(p, "Module.create")
                cs = {x for e in mc for a in list(e.args) + list(e.kw.values()) + list(e.ctx) for x in walk(freeze(a)) if isinstance(x, T) and x.op == "obj" and str(x.args[0].v if isinstance(x.args[0], K) else "").startswith("context")}
                if mc and cs and not cs & set(reg):
                    return "the torch dialect is not registered with the context of the module"
                opens = calls(p, "builtins.open", "open", ".open")
                pr = calls(p, "builtins.print", "print", ".write", ".write_text", "writelines")
                text = lambda x: isinstance(x, T) and (any(isinstance(y, T) and y.op == "call" and str(y.args[0]).endswith("get_asm") for y in walk(x)) or x in (obj("module"), T("str", obj("module")), obj("mlir module")) or any(y in (obj("module"),) for y in walk(x)))
                ws = [e for e in pr if any(text(freeze(a)) for a in e.args)]
                if len(ws) != 1:
                    return f"the module is written {len(ws)} times"
                e = ws[0]
                if e.idx < last or vs and e.idx < vs[0].idx:
                    return "the module is written before it is complete and verified"
                dest = e.kw.get("file") if e.name.endswith("print") else e.recv
                asm = calls(p, ".get_asm", "get_asm")
                for a in asm:
                    if a.kw.get("assume_verified") == TRUE and verify:
                        return "prints an unverified module as if it were verified"
                if out in ("-", None, ""):
                    if opens:
                        return f"opens {show(opens[0].args[0])}"
                    if dest not in (None, NONE, Q("sys.stdout")) and "stdout" not in show(dest):
                        return f"writes to {show(dest)}"
                    return None
                if len(opens) != 1 or freeze(opens[0].args[0] if opens[0].args else opens[0].recv) not in (K(out), path_of(out)):
                    return f"opens {[show(o.args[0]) for o in opens]}"
                mode = opens[0].arg("mode", 1, K("r"))
                if not isinstance(mode, K) or "w" not in mode.v:
                    return f"opens the output with mode {show(mode)}"
                if dest is None or "open" not in show(dest) and "file" not in show(dest):
                    return "does not write to the output file"
                return None

            scenario(ctx, "output", f"{' '.join(argv)}", argv, SMALL, pred)


def expansion(ctx):
    for opt in (None, "--disable-function-expansion-allowlist"):
        argv = ["dir/m.onnx"] + ([opt] if opt else [])
        t = Tool(argv)
        w = t.w
        w.schema_of("Foo", "dom", 1, {5: body(w, "5")})

        def pred(t_, p, opt=opt):
            called = [o for o in OView(p).ops if o.name == "func.call"]
            if bool(called) != bool(opt):
                return "a function is expanded that is not listed" if called else "no function is expanded"
            return None

        p = ctx.project
        load(p)
        p.load(TOOL)

        def thunk(it, t=t):
            it.attrs = {k: Lst(list(v.items), v.kind, elem=v.elem) if isinstance(v, Lst) else v for k, v in it.attrs.items()}
            return it.call_value(p.func(TOOL, "main"), [it.call_value(p.func(TOOL, "parse_arguments"), [], {}, None)], {}, None)

        decide(ctx, "model", f"{' '.join(argv)}: functions", ctx.explore("functions", thunk, **w.cfg(max_rec=10, max_depth=120)), lambda q: pred(t, q))
    for opset in (None, "11"):
        argv = ["dir/m.onnx"] + (["--opset-version", opset] if opset else [])
        scenario(ctx, "usage", f"{' '.join(argv)}: an invalid model", argv, INVALID, lambda t, p: None, must_raise=("*",))
    for argv in (["dir/m.onnx", "--no-such-option"], [], ["dir/m.onnx", "--opset-version", "eleven"]):
        scenario(ctx, "usage", " ".join(argv) or "no arguments", argv, SMALL, lambda t, p: None, must_raise=("SystemExit",))


def run(ctx):
    ctx.rule("model", "what is imported is the given model with its external data, converted, cleared and inferred as the options say")
    ctx.rule("temporary", "only the tool's own temporary directory is created, it holds all temporary files, and it is removed last unless it is to be kept")
    ctx.rule("output", "the complete module is verified unless that is disabled, and written to the output once")
    ctx.rule("usage", "unknown options and values and invalid models are rejected")
    for g in (loads, temps, outputs, expansion):
        ctx.group(g)
    ctx.floor("model", 40)
    ctx.floor("temporary", 12)
    ctx.floor("output", 8)
