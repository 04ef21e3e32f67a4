"""C24: a failed pass pipeline is reported with a reproducer, and a pipeline leaves no trace but in its module."""

import os.path
import re

from sa.entry import *
from checks.c15 import TYPES, lowering, val

CU = "torch_mlir.compiler_utils"
ERROR = "TorchMlirCompilerError"
PIPE = "builtin.module(func.func(a-pass{option=1}), another-pass)"
ASM = "module {\n  the module\n}\n"


class Fail(Env):
    """The bindings, failing at one point."""

    def __init__(self, at=None, exc="RuntimeError", name=None):
        super().__init__()
        self.at, self.exc = at, exc
        m, a = self.models, self.attrs
        if name is not None:
            a[(OPERATION, "attributes")] = Dct([(K("torch.debug_module_name"), K(name))])
        a[(OPERATION, "context")] = a[(MODULE, "context")]
        m["io.StringIO"] = lambda it, r, x, k, n: obj(f"buffer{len(it.path.events)}")
        m[".getvalue"] = lambda it, r, x, k, n: K("DIAGNOSTICS-1\nDIAGNOSTICS-2" if freeze(r) == it.heap.get("diagnosed") else "")
        m["tempfile.gettempdir"] = lambda it, r, x, k, n: K("/temporary")
        m["os.path.join"] = self.join
        m[".get_asm"] = self.point("get_asm", lambda it, r, x, k, n: K(ASM) if not it.heap.get("ran") else K("the lowered module"))
        m["torch_mlir.passmanager.PassManager.parse"] = self.point("parse", lambda it, r, x, k, n: self.parsed(it, x, k))
        m[".run"] = self.run
        m["builtins.open"] = m["open"] = self.point("open", lambda it, r, x, k, n: None)
        m["__text__"] = self.text

    def text(self, it, v, node=None):
        v = freeze(v)
        if isinstance(v, T) and v.op == "call" and v.args[0] == Q(self.exc if "." in self.exc else "builtins." + self.exc):
            return K("EXCEPTION")
        return None

    def join(self, it, recv, args, kw, node):
        xs = [it.resolve(x) for x in args]
        return K(os.path.join(*[x.v for x in xs])) if all(isinstance(x, K) and isinstance(x.v, str) for x in xs) else None

    def point(self, name, then):
        def f(it, r, x, k, n):
            self.fail(it, name, n)
            return then(it, r, x, k, n)

        return f

    def fail(self, it, name, node):
        if self.at == name:
            it.raise_(self.exc, [K("what went wrong")], node)

    def parsed(self, it, args, kw):
        # a pass manager needs a context: the current one, or one it is given
        if not kw.get("context") and not any(freeze(c) == self.attrs[(MODULE, "context")] for c in it.ctx) and len(args) < 2:
            it.emit("note", "no context", obj("parse"), [], node=None)
        return None

    def run(self, it, recv, args, kw, node):
        cur = it.heap.get((Q("sys"), "stderr"))
        for c in it.ctx:
            c = freeze(c)
            if isinstance(c, T) and c.op == "call" and show(c.args[0]).endswith("redirect_stderr"):
                cur = c.args[1][0] if c.args[1] else None
        it.heap["diagnosed"] = cur
        it.heap["ran"] = True
        self.fail(it, "run", node)
        return NONE


def explore(ctx, cons, e, fn, args, kw=None):
    p = ctx.project
    p.load(CU)
    return ctx.explore(cons, lambda it: it.call_value(p.func(CU, fn), [val(a) for a in args], {k: val(v) for k, v in (kw or {}).items()}, None), **e.cfg())


def stderr_kept(p):
    ws = [e for e in p.events if e.kind == "setattr" and e.name == "stderr" and freeze(e.recv) == Q("sys")]
    if ws and freeze(ws[-1].args[0]) not in (Q("sys.stderr"), T("attr", Q("sys"), "stderr")):
        return f"sys.stderr stays {show(ws[-1].args[0])}"
    return None


def files(p):
    """{file: what is written to it}."""
    out = {}
    for e in calls(p, "open", "builtins.open", ".open"):
        f = e.args[0] if e.args else e.kw.get("file")
        out.setdefault(show(f).strip("'"), [])
    for e in calls(p, ".write", ".write_text", ".writelines"):
        for f in out:
            if repr(f) in show(e.recv) or e.name == ".write_text":
                out[f].append(e)
    for e in calls(p, ".write_text"):
        out[show(e.recv)] = [e]
    return out


def check(ctx, cons, ps, pred, rule="report"):
    n = 0
    for p in ps:
        if p.outcome == "cut":
            continue
        n += 1
        where = p.events[-1].where() if p.events else ""
        broken = [e for e in p.events if e.kind in ("unbound", "undefined", "noattr")]
        m = f"{broken[0].kind} name {broken[0].name}" if broken else stderr_kept(p) or pred(p)
        ctx.ob(m is None, rule, cons, where, m or "")
    if not n:
        ctx.undecided.append(f"{cons}: no path")


def message(p):
    """The text of the error a path raises."""
    for e in reversed(p.events):
        if e.kind == "new" and e.name.endswith(ERROR):
            a = freeze(e.args[0]) if e.args else K("")
            return a.v if isinstance(a, K) else None
    return None


def failures(ctx):
    for at in ("get_asm", "parse", "run"):
        for exc in ("RuntimeError", "ValueError", "torch_mlir.ir.MLIRError", "AssertionError"):
            for name in (None, "TheModel"):
                for desc in ("Lowering A -> B", ""):
                    cons = f"{at} raises {exc.split('.')[-1]}, description {desc!r}, module name {name}"
                    e = Fail(at, exc, name)

                    def pred(p, at=at, name=name, desc=desc):
                        if p.outcome != "raise":
                            return "the failure is not reported"
                        if not p.exc.name.endswith(ERROR):
                            return f"raises {p.exc.name}"
                        t = message(p)
                        if t is None:
                            raise AnalysisError("text of the error")
                        flat = re.sub(r"\s+", " ", t)
                        if desc and desc not in t:
                            return "the error does not say what was lowered"
                        if not desc and (name or "UnnammedModule") not in t:
                            return "the error does not name the module"
                        if "EXCEPTION" not in t:
                            return "the error does not state the exception"
                        if at == "run" and ("DIAGNOSTICS-1" not in t or "DIAGNOSTICS-2" not in t):
                            return "the error does not contain the diagnostics"
                        if PIPE not in flat:
                            return "the error does not contain the pipeline"
                        fs = files(p)
                        named = [f for f in fs if f in t]
                        if len(fs) != 1 or not named:
                            return f"the error names none of the files {sorted(fs)}"
                        if not any(("-pass-pipeline='" + PIPE + "' " + f) in flat for f in fs):
                            return "the command line does not run the pipeline on the file"
                        if name and name not in named[0]:
                            return "the file is not named after the module"
                        mode = [x.arg("mode", 1, K("r")) for x in calls(p, "open", "builtins.open")]
                        if any(m not in (K("w"), K("wt"), K("w+")) for m in mode):
                            return f"opens the file with mode {show(mode[0])}"
                        w = fs[named[0]]
                        got = [freeze(x.args[0]) for x in w if x.args]
                        want = K(ASM) if at != "get_asm" else K("")
                        if at != "get_asm" and got != [want]:
                            return f"writes {[show(g) for g in got]} to the file"
                        return None

                    check(ctx, cons, explore(ctx, cons, e, "run_pipeline_with_repro_report", [MODULE, PIPE, desc]), pred)
                    if exc == "RuntimeError":
                        check(ctx, cons + ", printing", explore(ctx, cons, Fail(at, exc, name), "run_pipeline_with_repro_report", [MODULE, PIPE, desc], {"enable_ir_printing": True}), pred)
        for exc in ("KeyboardInterrupt", "SystemExit"):
            cons = f"{at} is ended by {exc}"
            check(ctx, cons, explore(ctx, cons, Fail(at, exc), "run_pipeline_with_repro_report", [MODULE, PIPE, "x"]),
                  lambda p, exc=exc: None if p.outcome == "raise" and p.exc.name.split(".")[-1] == exc else f"ends with {p.exc.name if p.exc else 'success'}")


class Disk(Fail):
    """The pipeline fails and the reproducer cannot be written."""

    def fail(self, it, name, node):
        if name == "run":
            it.raise_("RuntimeError", [K("what went wrong")], node)
        super().fail(it, name, node)


def disk(ctx):
    check(ctx, "the reproducer cannot be written", explore(ctx, "disk", Disk("open", "OSError"), "run_pipeline_with_repro_report", [MODULE, PIPE, "x"]),
          lambda p: None if p.outcome == "raise" else "the failure is not reported")


def success(ctx):
    for name in (None, "TheModel"):
        for ir in (False, True):
            cons = f"success, module name {name}, IR printing {ir}"
            e = Fail(name=name)

            def pred(p, ir=ir):
                if p.outcome != "return":
                    return f"raises {p.exc.name}"
                rs = runs(p)
                if [(r[0], r[1]) for r in rs] != [(PIPE, OPERATION)]:
                    return f"runs {[(r[0], show(r[1])) for r in rs]}"
                if any(x.kind == "note" and x.name == "no context" for x in p.events):
                    return "parses the pipeline outside of the context of the module"
                if files(p):
                    return f"writes {sorted(files(p))}"
                mt = [x for x in calls(p, ".enable_multithreading")]
                pr = [x for x in calls(p, ".enable_ir_printing")]
                if ir:
                    if len(pr) != 1 or pr[0].idx > rs[0][2].idx or freeze(pr[0].recv) != freeze(rs[0][2].recv):
                        return "does not print the IR"
                    if [x.args for x in mt] != [[FALSE]] and [tuple(x.args) for x in mt] != [(FALSE,)]:
                        return "prints the IR of several threads"
                elif mt or pr:
                    return "prints the IR without being asked"
                if not any(x.kind == "setattr" and x.name == "emit_error_diagnostics" and x.args[0] == TRUE and x.idx < rs[0][2].idx for x in p.events):
                    return "diagnostics of passes that do not fail stay errors of the process"
                return None

            check(ctx, cons, explore(ctx, cons, e, "run_pipeline_with_repro_report", [MODULE, PIPE, "x"], {"enable_ir_printing": ir}), pred, "success")


def lowers(ctx):
    """Lowering from the backend contract: stops at the first failure."""
    p = ctx.project
    p.load(CU)
    for name, member in TYPES.items():
        for fin in (None, True, False):
            for at in (None, "run", "parse"):
                for verbose in (False, True):
                    e = Fail(at)

                    def thunk(it, fin=fin, member=member, verbose=verbose):
                        o = NONE if fin is None else it.call_value(p.func(CU, "BackendLoweringOptions"), [], {"allow_non_finites": K(fin)}, None)
                        return it.call_value(p.func(CU, "lower_mlir_module"), [K(verbose), it.attr(p.func(CU, "OutputType"), member, None), MODULE], {"backend_options": o} if fin is not None else {}, None)

                    def pred(q, fin=fin, member=member, at=at, verbose=verbose):
                        want = lowering(member, "", (), fin is not False)[1:]
                        if member == "RAW":
                            return None if q.outcome == "raise" else "lowers to raw"
                        if at and want:
                            if q.outcome != "raise" or not q.exc.name.endswith(ERROR):
                                return "the failure is not reported"
                            return None
                        if q.outcome != "return":
                            return f"raises {q.exc.name}"
                        got = [plain(parse_pipeline(s)) for s, _, _ in runs(q)]
                        if got != want or any(o != OPERATION for _, o, _ in runs(q)):
                            return f"runs {got}"
                        if bool(calls(q, "print")) != verbose:
                            return "prints nothing" if verbose else "prints without being asked"
                        return None if freeze(q.value) == MODULE else f"returns {show(q.value)}"

                    cons = f"{member}, non-finites {fin}, failing at {at}, verbose {verbose}"
                    check(ctx, cons, ctx.explore(cons, thunk, **e.cfg()), pred, "lower")
    cons = "unknown output type"
    e = Fail()
    check(ctx, cons, explore(ctx, cons, e, "lower_mlir_module", [False, obj("unknown"), MODULE]), lambda q: None if q.outcome == "raise" else "is accepted", "lower")


def run(ctx):
    ctx.rule("report", "a failure is a compiler error with the description, the diagnostics, the exception, the pipeline and a file with the module as it was; an interrupt passes; sys.stderr is the caller's")
    ctx.rule("success", "the pipeline runs once on the operation of the module, in its context, and nothing else is changed or written")
    ctx.rule("lower", "the module is lowered in place by the pipeline of the output type, with the given options; an unknown output type is rejected")
    for g in (failures, disk, success, lowers):
        ctx.group(g)
    ctx.floor("report", 40)
    ctx.floor("success", 4)
    ctx.floor("lower", 30)
