"""Runs the shape functions over the classes of sa/shapespec.py, abstractly."""

import ast

from .interp import AnalysisError
from .project import Project
from .values import *  # noqa
from .values import K, Q, T, Lst, NONE, freeze, show
from .extents import N, poly, padd, const, pshow, term
from . import shapespec as S
from . import mlirlib

BT = "torch_mlir.jit_ir_importer.build_tools."
GEN, LIB = BT + "abstract_interp_lib_gen", BT + "library_generator"
UP = "torch.jit._shape_functions"
UPFILE = "/opt/venv/lib/python3.12/site-packages/torch/jit/_shape_functions.py"
SUF = "〡shape"


def project(ctx):
    if ctx._project is None:
        ctx._project = Project(extra={UP: UPFILE})
        ctx._project.analyse = {GEN, LIB, UP}
    return ctx._project


def library(ctx):
    """The library the compiler embeds, as functions."""
    p = project(ctx)
    if not hasattr(p, "mlir"):
        r, src = mlirlib.translate(p.repo)
        p.extra[mlirlib.MOD] = mlirlib.FILE
        p.texts[mlirlib.MOD] = src
        p.analyse.add(mlirlib.MOD)
        p.mlir = r
    return p.mlir, p.load(mlirlib.MOD)


def fname(op, suffix=SUF):
    return op.replace(".", "〇") + suffix


def value(v):
    """A fresh abstract argument (the functions may change lists in place)."""
    if isinstance(v, S.Ten):
        return Lst([value(x) for x in v.dims])
    if isinstance(v, S.Tens):
        return Lst([value(x) for x in v.items])
    if isinstance(v, S.Any_):
        return obj("any " + v.kind) if v.kind != "bool" else T("flag", K("bool"))
    if isinstance(v, N):
        return v.t()
    if isinstance(v, (list, tuple)):
        return Lst([value(x) for x in v])
    return K(v)


def obj(name):
    return T("obj", K(name))


UNKNOWN = T("obj", K("an unknown extent"))


def shape_of(v, it):
    v = it.resolve(v)
    if isinstance(v, Lst):
        return [shape_of(x, it) for x in v.items]
    f = freeze(v)
    if f == UNKNOWN:
        return S.UNKNOWN
    p = poly(f)
    if p is not None:
        return N(p)
    if f == NONE:
        return None
    raise LookupError(f"not an extent: {show(f)[:80]}")


def text(x):
    if isinstance(x, tuple):
        return "(" + ", ".join(text(y) for y in x) + ")"
    if isinstance(x, list):
        return "[" + ", ".join(text(y) for y in x) + "]"
    return str(x)


class Differ(Exception):
    pass


def pairs(want, got, where=""):
    """The integers to compare; raises when the structure already differs."""
    if want is None or want is S.UNKNOWN:
        return
    if isinstance(want, tuple) and want and want[0] == "list":
        want = list(want[1])
    if isinstance(want, (list, tuple)):
        if not isinstance(got, list) or len(got) != len(want):
            raise Differ
        for a, b in zip(want, got):
            yield from pairs(a, b)
        return
    if not isinstance(got, N):
        raise Differ
    yield poly(want), got.p


def signature(fn):
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def run_case(ctx, p, c, fn, where, lib=None):
    """One class of arguments, on the function of the generator (`fn`) or on
    the embedded one (`lib`), which takes all parameters by position."""
    d = c.dom
    names = signature(fn)
    missing = [k for k in c.args if k not in names]
    if missing:
        raise AnalysisError(f"{c.op} has no parameter {missing[0]}")
    models = d.install({mlirlib.OTHER: lambda it, r, a, k, n: UNKNOWN if a and a[0] == K("torch.prim.id") else None})
    arith = models["__builtin__"]
    # the identity of a fresh object stands for an extent nobody knows
    models["__builtin__"] = lambda it, n, a, k, node: UNKNOWN if n == "id" else arith(it, n, a, k, node)
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})

    def thunk(it):
        kw = {n: value(c.args[n]) for n in names if n in c.args}
        for n in names:
            if n not in kw and n not in defaults:
                kw[n] = T("obj", K(f"any {n}"))
        if lib is None:
            v = it.call_value(fn, [], kw, None)
        else:
            for n in names:
                if n not in kw:
                    kw[n] = literal(defaults[n])
            v = it.call_value(lib, [kw[n] for n in names], {}, None)
        try:
            return K(("shape", shape_of(v, it)))
        except LookupError as e:
            return K(("unreadable", str(e)))

    ps = ctx.explore(c.op, thunk, models=models, assume_asserts=False, max_depth=60, max_rec=40, counts={})
    construct = f"{c.op} ({c.label})" + (" in the embedded library" if lib is not None else "")
    bad = []
    undecided = []
    seen = 0
    for q in ps:
        facts = [(a, b) for a, b, _ in q.facts]
        if q.outcome == "cut":
            undecided.append(q.cut)
            continue
        if q.outcome == "raise":
            if c.expect is S.ERR:
                seen += 1
                continue
            w = d.witness(facts)
            if w is not None and all(known(a) for a, _ in facts):
                bad.append(f"raises {q.exc.name} for valid arguments{at(w)}")
            elif w is not None:
                undecided.append("raises depending on " + "; ".join(show(a) for a, _ in facts if not known(a))[:120])
            else:
                seen += 1
            continue
        kind, got = q.value.v
        if kind == "unreadable":
            if d.witness(facts) is not None:
                undecided.append(got)
            continue
        if c.expect is S.ERR:
            w = d.witness(facts)
            if w is not None:
                bad.append(f"answers {text(got)} where PyTorch rejects the arguments{at(w)}")
            continue
        if isinstance(c.expect, tuple) and c.expect[:1] != ("list",) and isinstance(got, list) and len(got) == len(c.expect):
            pass
        try:
            ps_ = list(pairs(c.expect, got))
            kn = d.known(q.fd if hasattr(q, "fd") else {})
            diff = [(a, b) for a, b in ps_ if padd(a, b, -1)]
            if diff:
                w = d.witness(facts, lambda env: any((d.value(a, env) != d.value(b, env)) and d.value(b, env) is not None for a, b in diff))
                if w is not None:
                    env = {T("sym", K(n)): x for n, x in w.items()}
                    bad.append(f"answers {text(got)}, PyTorch's result is {text(c.expect)}{at(w)}: {concrete(d, got, env)} and {concrete(d, c.expect, env)}")
                else:
                    if any(d.value(b, e) is None for a, b in diff for e in list(d.assignments(40))[:8]):
                        undecided.append("the extents cannot be compared")
            seen += 1
        except Differ:
            w = d.witness(facts)
            if w is not None:
                bad.append(f"answers {text(got)}, PyTorch's result is {text(c.expect)}{at(w)}")
    rule = "rejects" if c.expect is S.ERR else "extents"
    if bad:
        ctx.bad(rule, construct, where, "; ".join(sorted(set(bad))[:2]))
    elif undecided and not seen:
        ctx.undecided.append(f"{construct}: {undecided[0][:160]}")
    else:
        if undecided:
            ctx.undecided.append(f"{construct}: {undecided[0][:160]}")
        ctx.ob(True, rule, construct, where)


def known(atom):
    return isinstance(atom, T) and atom.op in ("ge0", "eq0")


def at(w):
    return " when " + ", ".join(f"{k} = {v}" for k, v in sorted(w.items())) if w else ""


def concrete(d, x, env):
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(concrete(d, y, env) for y in x) + "]"
    if x is None or isinstance(x, str):
        return str(x)
    return str(d.value(poly(x), env))


def literal(node):
    try:
        v = ast.literal_eval(node)
    except ValueError:
        return T("obj", K("default " + ast.unparse(node)))
    return Lst([K(x) for x in v], "tuple" if isinstance(v, tuple) else "list") if isinstance(v, (list, tuple)) else K(v)


def run_op(ctx, op):
    p = project(ctx)
    r, lm = library(ctx)
    m = p.load(GEN)
    fn = m.globals.get(fname(op))
    if fn is None or not hasattr(fn, "node"):
        raise AnalysisError(f"no shape function for {op}")
    where = f"{GEN}:{fn.node.lineno}"
    ln = "__torch_mlir_shape_fn." + op
    lib = lm.globals.get(r.functions.get(ln, ""))
    lw = f"{mlirlib.FILE}:{r.line_of.get(ln)}"
    if ctx.ob(lib is not None, "embedded", op, where, f"the embedded library has no shape function for {op}"):
        n = len(lib.node.args.args)
        if not ctx.ob(n == len(signature(fn)), "embedded", f"{op}: parameters", lw, f"the embedded function takes {n} parameters, the generator's {len(signature(fn))}"):
            lib = None
    for i in (0, 1):
        if i and lib is None:
            break
        for c in S.cases(op, ctx.deep):
            try:
                if i:
                    run_case(ctx, p, c, fn, lw, lib)
                else:
                    run_case(ctx, p, c, fn, where)
            except AnalysisError as e:
                ctx.undecided.append(f"{op} ({c.label}): {e}")


def run_group(ctx, group):
    ctx.rule("extents", "for every extent of the class, the shape function answers the extents of the operator's result")
    ctx.rule("rejects", "the shape function raises for the arguments the operator rejects")
    ctx.rule("embedded", "the library the compiler embeds has the generator's shape function, with the same parameters")
    ops = [n for n in S.SPEC if S.SPEC[n][0] == group]
    for n in ops:
        ctx.group(run_op, n)
    return ops
