"""Runs the dtype functions over sets of dtypes, abstractly.

An abstract dtype is the set of its values over the combinations of operand
dtypes of a configuration (sa/dtypefacts.json: what PyTorch answers for each of
them).  A comparison splits the combinations; promotion maps them."""

import json
import os

from .interp import AnalysisError
from .values import *  # noqa
from .values import K, Q, T, Lst, NONE, TRUE, FALSE, freeze, show
from .shaperun import GEN, LIB, project, library, signature, literal
from . import mlirlib

NAMES = {"uint8": 0, "int8": 1, "int16": 2, "short": 2, "int32": 3, "int": 3, "int64": 4, "long": 4, "float16": 5, "half": 5, "float32": 6, "float": 6, "float64": 7, "double": 7,
         "complex32": 8, "chalf": 8, "complex64": 9, "cfloat": 9, "complex128": 10, "cdouble": 10, "bool": 11, "qint8": 12, "quint8": 13, "qint32": 14, "bfloat16": 15}
PRETTY = {0: "uint8", 1: "int8", 2: "int16", 3: "int32", 4: "int64", 5: "float16", 6: "float32", 7: "float64", 8: "complex32", 9: "complex64", 10: "complex128", 11: "bool",
          12: "qint8", 13: "quint8", 14: "qint32", 15: "bfloat16"}
CODES = {Q("torch." + n): c for n, c in NAMES.items()}
FLOAT, CPLX = {5, 6, 7, 15}, {8, 9, 10}

_facts = None


def facts():
    global _facts
    if _facts is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "dtypefacts.json")) as f:
            _facts = json.load(f)
        _facts["p"] = {(ord(k[0]) - 97, ord(k[1]) - 97): ord(v) - 97 for k, v in _facts["promote"].items()}
    return _facts


def promote2(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = facts()["p"].get((a, b))
    if r is None:
        raise KeyError
    return r


def combine(higher, lower):
    """PyTorch's combine_categories"""
    if higher is None:
        return lower
    if higher in CPLX:
        return higher
    if higher in FLOAT:
        if lower in CPLX:
            return {5: 8, 15: 9, 6: 9, 7: 10}[higher]
        return higher
    if higher == 11 or lower in FLOAT or lower in CPLX:
        return promote2(higher, lower)
    return higher


def promote(ranks, dts):
    """The type of the result of operands of these ranks (None: a number)."""
    dim = zero = wrapped = None
    if all(r is None for r in ranks):
        ranks = [0] * len(ranks)  # numbers of a scalar program keep their types
    for r, d in zip(ranks, dts):
        if r is None:
            d = 9 if d in CPLX else 6 if d in FLOAT else d
            wrapped = promote2(wrapped, d)
        elif r == 0:
            zero = promote2(zero, d)
        else:
            dim = promote2(dim, d)
    return combine(dim, combine(zero, wrapped))


def vec(v, n):
    """The codes of an abstract dtype per combination; None when not one."""
    v = freeze(v)
    if isinstance(v, T) and v.op == "dt":
        return v.args[0].v
    if v in CODES:
        return (CODES[v],) * n
    if isinstance(v, K) and isinstance(v.v, int) and not isinstance(v.v, bool):
        return (v.v,) * n
    return None


def mk(codes):
    codes = tuple(codes)
    if len(set(codes)) == 1 and codes[0] is not None:
        return K(codes[0])
    return T("dt", K(codes))


class Dom:
    def __init__(self, n):
        self.n = n
        self.all = (1 << n) - 1

    def live(self, fd):
        m = self.all
        for a, v in fd.items():
            if isinstance(a, T) and a.op == "dtin":
                m &= a.args[0].v if v else ~a.args[0].v
        return m

    def force(self, it):
        def f(atom):
            if isinstance(atom, T) and atom.op == "dtin":
                live = self.live(it.fd)
                x = atom.args[0].v & live
                if x == 0:
                    return False
                if x == live:
                    return True
            return None
        return f

    def compare(self, it, op, a, b):
        a, b = it.resolve(a), it.resolve(b)
        if op not in ("eq", "ne", "is", "isnot"):
            return None
        neg = op in ("ne", "isnot")
        fa, fb = freeze(a), freeze(b)
        isdt = [isinstance(x, T) and x.op == "dt" or x in CODES for x in (fa, fb)]
        if not any(isdt):
            return None
        x, y = vec(fa, self.n), vec(fb, self.n)
        if x is None or y is None:
            if fa == NONE or fb == NONE:
                return K(neg)
            return None
        m = sum(1 << i for i in range(self.n) if x[i] == y[i])
        if m == 0:
            return K(neg)
        if m == self.all:
            return K(not neg)
        atom = T("dtin", K(m))
        return T("not", atom) if neg else atom

    def promote(self, it, ranks, dts):
        rs = [it.resolve(x) for x in it.resolve(ranks).items]
        rs = [[r.v] * self.n if isinstance(r, K) else vec(r, self.n) for r in rs]
        vs = [vec(it.resolve(x), self.n) for x in it.resolve(dts).items]
        if None in rs or not all(r is None or isinstance(r, int) for q in rs for r in q):
            return None
        if None in vs:
            if any(freeze(it.resolve(x)) == NONE for x in it.resolve(dts).items):
                it.raise_("TypeError")
            return None
        if len(rs) != len(vs):
            rs, vs = rs[:min(len(rs), len(vs))], vs[:min(len(rs), len(vs))]
        out = []
        for i in range(self.n):
            try:
                out.append(promote([r[i] for r in rs], [v[i] for v in vs]))
            except KeyError:
                out.append(None)
        if not rs:
            it.raise_("IndexError")
        return mk(out)


def tensor(it, v):
    """rank and dtype of a stand-in for a tensor"""
    v = freeze(v)
    return v.args if isinstance(v, T) and v.op == "tensor" else None


def scalar_code(v):
    v = freeze(v)
    if isinstance(v, K):
        for t, c in ((bool, 11), (int, 4), (float, 7), (complex, 10)):
            if isinstance(v.v, t):
                return c
    if v == T("obj", K("any complex")):
        return 10
    if v == T("obj", K("any float")):
        return 7
    return None


def models(d):
    def other(it, r, a, k, n):
        if a and a[0] == K("torch.promote_dtypes"):
            return d.promote(it, a[1], a[2])
        if a and a[0] == K("torch.prim.NumToTensor.Scalar"):
            c = scalar_code(it.resolve(a[1]))
            return None if c is None else T("tensor", K(0), K(c))
        if a and a[0] == K("torch.prim.dtype"):
            t = tensor(it, it.resolve(a[1]))
            return t[1] if t else None
        return None

    def num(it, r, a, k, n):
        c = scalar_code(it.resolve(a[0]))
        return None if c is None else T("tensor", K(0), K(c))

    def rand(it, r, a, k, n):
        s = it.resolve(a[0])
        return T("tensor", K(len(s.items)), K(6)) if isinstance(s, Lst) else None

    def to(it, r, a, k, n):
        t = tensor(it, it.resolve(r))
        return T("tensor", t[0], freeze(it.resolve(a[0]))) if t else None

    def result_type(it, r, a, k, n):
        rs, ds = [], []
        for x in a:
            x = it.resolve(x)
            t = tensor(it, x)
            if t:
                rs.append(t[0])
                ds.append(t[1])
            else:
                c = scalar_code(x)
                if c is None:
                    return None
                rs.append(NONE)
                ds.append(K(c))
        return d.promote(it, Lst(rs), Lst(ds))

    def getattr_(it, base, name, *rest):
        t = tensor(it, it.resolve(base))
        if t and name == "dtype":
            return t[1]
        return None

    return {mlirlib.OTHER: other, "promote_dtypes": lambda it, r, a, k, n: d.promote(it, *([*a, *k.values()][:2])), "torch.ops.prim.NumToTensor": num, "torch.rand": rand, ".to": to, "torch.result_type": result_type,
            "__compare__": d.compare, "__equal__": True, "__getattr__": getattr_}


def argument(e, path, dt, tuples):
    """The abstract argument for an encoded one; tensors become (rank, dtype)."""
    if isinstance(e, dict):
        if "t" in e:
            return Lst([K(e["t"]), dt[path]], "tuple")
        if "complex" in e:
            return T("obj", K("any complex"))
        return {"float": K(2.5), "int": K(2), "bool": T("flag", K("bool"))}.get(e["any"], T("obj", K("any " + e["any"])))
    if isinstance(e, list):
        return Lst([argument(x, path + (i,), dt, tuples) for i, x in enumerate(e)])
    return K(e)


def label(args):
    def one(e):
        if isinstance(e, dict):
            return f"rank {e['t']}" if "t" in e else "complex" if "complex" in e else e["any"]
        if isinstance(e, list):
            return "[" + ", ".join(one(x) for x in e) + "]"
        return str(e)
    return ", ".join(f"{k}: {one(v)}" for k, v in args.items())


def run_config(ctx, op, cf, fn, where, lib=None):
    n = len(cf["st"])
    d = Dom(n)
    dt = {tuple(p): mk(ord(c) - 97 for c in s) for p, s in cf["dt"]}
    codes = {tuple(p): [ord(c) - 97 for c in s] for p, s in cf["dt"]}
    want = [[ord(c) - 97 for c in s] for s in cf["out"]]
    names = signature(fn)
    args = {}
    for k, e in cf["args"].items():
        p = k + "_rank_dtype" if k + "_rank_dtype" in names else k
        if p in names:
            args[p] = (e, (k,))
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})

    pairs = op == "aten.broadcast_tensors"  # a list of (rank, dtype) like its operand

    def thunk(it):
        it.force = d.force(it)
        kw = {}
        for x in names:
            if x in args:
                kw[x] = argument(args[x][0], args[x][1], dt, None)
            elif lib is not None and x in defaults:
                kw[x] = literal(defaults[x])
            elif x not in defaults:
                # an operand that the configuration leaves out
                kw[x] = NONE if "Optional" in annotation(fn, x) else T("obj", K("any " + x))
        v = it.call_value(lib, [kw[x] for x in names], {}, None) if lib is not None else it.call_value(fn, [], kw, None)

        def flat(v):
            v = it.resolve(v)
            if isinstance(v, Lst) and pairs and len(v.items) == 2 and not isinstance(it.resolve(v.items[0]), Lst):
                v = Lst(v.items[1:])
            if isinstance(v, Lst):
                return [y for x in v.items for y in flat(x)]
            return [freeze(v)]
        return K(("dtypes", tuple(flat(v))))

    ps = ctx.explore(op, thunk, models=models(d), assume_asserts=False, max_depth=40, max_rec=20, counts={}, opaque={LIB + ".promote_dtypes"})
    construct = f"{op} ({label(cf['args'])})" + (" in the embedded library" if lib is not None else "")
    bad, undecided = [], []

    def row(i):
        return ", ".join(f"{p[0] if len(p) == 1 else p[0] + '[' + str(p[1]) + ']'} {PRETTY.get(c[i], c[i])}" for p, c in codes.items())

    for q in ps:
        live = d.live({a: b for a, b, _ in q.facts})
        rows = [i for i in range(n) if live >> i & 1]
        if not rows:
            continue
        if q.outcome == "cut":
            undecided.append(q.cut)
            continue
        if q.outcome == "raise":
            i = next((i for i in rows if cf["st"][i] == "="), None)
            if i is not None and all(isinstance(a, T) and a.op == "dtin" for a, _, _ in q.facts):
                bad.append(f"raises {q.exc.name} for operands PyTorch takes: {row(i)}")
            continue
        got = q.value.v[1]
        if NONE in got:
            i = next((i for i in rows if cf["st"][i] == "="), None)
            if i is not None:
                bad.append(f"answers nothing for {row(i) or 'no operands'}")
            continue
        vs = [vec(x, n) for x in got]
        if None in vs:
            undecided.append(f"answers {show(got[vs.index(None)])[:60]}")
            continue
        if len(vs) != len(want):
            bad.append(f"answers {len(vs)} dtypes, PyTorch has {len(want)} results")
            continue
        for v, w in zip(vs, want):
            i = next((i for i in rows if v[i] != w[i]), None)
            if i is not None:
                if v[i] is None:
                    undecided.append("a promotion PyTorch does not define")
                else:
                    bad.append(f"answers {PRETTY.get(v[i], v[i])}, PyTorch answers {PRETTY.get(w[i], w[i])} for {row(i) or 'no operands'}")
                break
    if bad:
        ctx.bad("dtype", construct, where, "; ".join(sorted(set(bad))[:2]))
    else:
        ctx.ob(True, "dtype", construct, where)
    for u in sorted(set(undecided))[:1]:
        ctx.undecided.append(f"{construct}: {u[:120]}")


def annotation(fn, x):
    import ast
    for a in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs:
        if a.arg == x:
            return ast.unparse(a.annotation) if a.annotation is not None else ""
    return ""


def ops():
    return list(facts()["ops"])


def run_op(ctx, op):
    p = project(ctx)
    r, lm = library(ctx)
    m = p.load(GEN)
    fn = m.globals.get(op.replace(".", "〇") + "〡dtype")
    if fn is None or not hasattr(fn, "node"):
        raise AnalysisError(f"no dtype function for {op}")
    where = f"{GEN}:{fn.node.lineno}"
    ln = "__torch_mlir_dtype_fn." + op
    lib = lm.globals.get(r.functions.get(ln, ""))
    lw = f"{mlirlib.FILE}:{r.line_of.get(ln)}"
    if ctx.ob(lib is not None, "embedded", op, where, f"the embedded library has no dtype function for {op}"):
        n = len(lib.node.args.args)
        if not ctx.ob(n == len(signature(fn)), "embedded", f"{op}: parameters", lw, f"the embedded function takes {n} parameters, the generator's {len(signature(fn))}"):
            lib = None
    for cf in facts()["ops"][op]:
        for i in (0, 1):
            if i and lib is None:
                continue
            try:
                run_config(ctx, op, cf, fn, lw if i else where, lib if i else None)
            except AnalysisError as e:
                ctx.undecided.append(f"{op} ({label(cf['args'])}): {e}")
