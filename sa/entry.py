"""Helpers for checks of the public entry points: calls made on a path, pass
pipelines as structures, versions, and models of the bindings they use."""

import re

from .fxworld import *  # noqa
from .fxworld import K, Q, T, Lst, Dct, NONE, TRUE, FALSE, freeze, obj, show, walk, decide

MODULE = obj("mlir module")
OPERATION = obj("module operation")


def calls(p, *names):
    """Calls whose (qualified or method) name ends in one of the names."""
    return [e for e in p.events if e.kind == "call" and any(e.name == n or e.name.endswith("." + n.lstrip(".")) for n in names)]


def one(p, *names):
    c = calls(p, *names)
    return c[0] if len(c) == 1 else None


# ------------------------------------------------------------------ pipelines
def parse_pipeline(s):
    """A textual pipeline as nested tuples: (name, {option: value}, [children])."""
    try:
        return parse_pipeline_(s)
    except (ValueError, AttributeError) as e:
        return [(f"(not a pipeline: {e})", {}, None)]


def parse_pipeline_(s):
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos].isspace():
            pos += 1

    def options():
        nonlocal pos
        depth, start = 0, pos
        while pos < len(s):
            c = s[pos]
            depth += c == "{"
            depth -= c == "}"
            pos += 1
            if not depth:
                break
        else:
            raise ValueError("unbalanced {")
        out = {}
        for w in s[start + 1 : pos - 1].split():
            k, eq, v = w.partition("=")
            out[k] = v if eq else True
        return out

    def element():
        nonlocal pos
        ws()
        m = re.compile(r"[A-Za-z0-9_.\-]+").match(s, pos)
        if not m:
            raise ValueError(f"no pass name at {s[pos:pos+20]!r}")
        pos = m.end()
        name, opts, kids = m.group(), {}, None
        ws()
        if pos < len(s) and s[pos] == "{":
            opts = options()
            ws()
        if pos < len(s) and s[pos] == "(":
            pos += 1
            kids = elements(")")
            if pos >= len(s) or s[pos] != ")":
                raise ValueError("unbalanced (")
            pos += 1
            ws()
        return (name, opts, kids)

    def elements(end):
        nonlocal pos
        out = []
        ws()
        while pos < len(s) and s[pos] != end:
            out.append(element())
            ws()
            if pos < len(s) and s[pos] == ",":
                pos += 1
                ws()
        return out

    out = elements("")
    ws()
    if pos != len(s):
        raise ValueError(f"left over: {s[pos:]!r}")
    return out


def plain(ps):
    """A pipeline without options that have no value (their default)."""
    return [(n, tuple(sorted((k, norm(v)) for k, v in o.items() if v != "")), plain(c) if c is not None else None) for n, o, c in ps]


def norm(v):
    """The boolean spellings of the option parser."""
    if v in (True, "true", "TRUE", "True", "1"):
        return "true"
    if v in ("false", "FALSE", "False", "0"):
        return "false"
    return v


def runs(p):
    """[(pipeline, module operation, event)] of the pass pipelines run on a path."""
    out = []
    for e in calls(p, ".run"):
        r = freeze(e.recv)
        c = call_of_parse(r)
        if c is not None:
            out.append((c, freeze(e.args[0]) if e.args else freeze(e.kw.get("op", e.kw.get("operation", NONE))), e))
    return out


def call_of_parse(r):
    if isinstance(r, T) and r.op == "call" and show(r.args[0]).endswith("PassManager.parse"):
        for x in walk(r):
            if isinstance(x, K) and isinstance(x.v, str) and x.v.startswith("builtin.module"):
                return x.v
        return show(r)
    return None


# ------------------------------------------------------------------- versions
def version_key(s):
    m = re.match(r"\s*v?(\d+(?:\.\d+)*)(?:\.?(dev|a|b|rc)(\d*))?(?:\+(.*))?", s)
    rel = tuple(int(x) for x in m.group(1).split("."))
    while rel and rel[-1] == 0:
        rel = rel[:-1]
    pre = {"dev": 0, "a": 1, "b": 2, "rc": 3, None: 9}[m.group(2)]
    return (rel, pre, int(m.group(3) or 0), m.group(4) or "")


def versions(models, attrs, current):
    """Models packaging.version and the installed version of PyTorch."""

    def make(it, recv, args, kw, node):
        v = it.resolve(args[0] if args else kw.get("version"))
        if isinstance(v, K) and isinstance(v.v, str):
            return T("obj", K("version"), v)
        return None

    def key(v):
        return version_key(v.args[1].v) if isinstance(v, T) and v.op == "obj" and v.args[0] == K("version") else None

    def compare(it, op, a, b):
        x, y = key(freeze(it.resolve(a))), key(freeze(it.resolve(b)))
        if x is None or y is None:
            return None
        r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}.get(op)
        return None if r is None else K(r)

    for n in ("packaging.version.Version", "packaging.version.parse"):
        models[n] = make
    models["__compare__"] = compare
    attrs[(Q("torch"), "__version__")] = K(current)


class Env:
    """What an entry point meets: the bindings and one importer."""

    def __init__(self, version="2.14.0a0"):
        self.types, self.attrs, self.models = {}, {}, {}
        self.facts, self.counts = [], {}
        self.opaque = {"FxImporter"}
        versions(self.models, self.attrs, version)
        a = self.attrs
        a[(MODULE, "operation")] = OPERATION
        a[(OPERATION, "attributes")] = Dct([])
        a[(MODULE, "context")] = obj("context of the module")
        m = self.models
        m["torch_mlir.ir.Context"] = lambda it, r, x, k, n: obj(f"context{len(it.path.events)}")
        m[".print_readable"] = lambda it, r, x, k, n: K("")
        m["torch_mlir.ir.StringAttr"] = self.string

    def string(self, it, r, x, k, n):
        v = it.resolve(x[0]) if x else None
        if isinstance(v, K):
            o = T("obj", K("string attribute"), v)
            it.attrs[(o, "value")] = v
            return o
        return v

    def cfg(self, **kw):
        d = dict(types=self.types, attrs=self.attrs, models=self.models, facts=self.facts, counts=self.counts, opaque=self.opaque)
        d.update(kw)
        return d
