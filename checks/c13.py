"""C13: as_strided reads are rewritten to reads of the same storage elements, or rejected.

The index tensors are not computed: each is a polynomial over the position in
the result, the unknown sizes, strides and offsets of the request, the unknown
base offset and opaque quotients.  What is decided is an identity of
polynomials (the address read equals the address requested) under the
comparisons the path has made, for all values of the unknowns.
"""

import itertools
from fractions import Fraction

from sa.fxworld import *
from sa.values import walk
from checks.c05 import REJ

A = "torch_mlir.extras.fx_as_strided"
AS = Q("torch.ops.aten.as_strided.default")
RAISES = REJ + ("builtins.ValueError",)


# ------------------------------------------------------------ polynomials
def poly(v):
    """{monomial: coefficient} of an abstract integer, None if it is none."""
    if isinstance(v, K) and isinstance(v.v, (int, bool)) and not isinstance(v.v, float):
        return {(): Fraction(int(v.v))} if v.v else {}
    if isinstance(v, T):
        if v.op == "poly":
            return {m.args[1:]: m.args[0].v for m in v.args}
        if v.op in ("add", "sub", "mul") and len(v.args) == 2:
            a, b = poly(v.args[0]), poly(v.args[1])
            if a is None or b is None:
                return None
            return padd(a, b) if v.op == "add" else padd(a, b, -1) if v.op == "sub" else pmul(a, b)
        if v.op == "neg":
            a = poly(v.args[0])
            return None if a is None else padd({}, a, -1)
        return {(v,): Fraction(1)}
    return None


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + f * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for (m, c), (n, d) in itertools.product(a.items(), b.items()):
        k = tuple(sorted(m + n, key=repr))
        r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def pterm(a):
    return T("poly", *[T("mono", K(c), *m) for m, c in sorted(a.items(), key=repr)])


def subst(a, zero):
    return {m: c for m, c in a.items() if not any(x in zero for x in m)}


def pshow(a):
    if not a:
        return "0"
    return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + [show(x) for x in m]) for m, c in sorted(a.items(), key=repr))


# ------------------------------------------------------------ integer tensors
def snap(v):
    return Lst([snap(x) for x in v.items], v.kind) if isinstance(v, Lst) else v


class Tensors:
    """Abstract integer tensors: shape and polynomial content, mutable cells."""

    def __init__(self, w):
        self.w, self.store = w, {}
        m = w.models
        m["__binop__"], m["__augassign__"], m["__compare__"] = self.binop, self.aug, self.compare
        for f, how in (("full", self.full), ("zeros", self.zeros), ("zeros_like", self.zeros_like), ("ones_like", self.ones_like), ("arange", self.arange),
                       ("div", self.div), ("floor_divide", self.floordiv), ("any", self.quant("anyof")), ("all", self.quant("allof")),
                       ("add", self.plain("add")), ("sub", self.plain("sub")), ("mul", self.plain("mul")), ("tensor", self.scalar), ("as_tensor", self.scalar)):
            m["torch." + f] = how
        for f, how in (("reshape", self.reshape), ("view", self.reshape), ("numel", self.numel), ("any", self.quant("anyof")), ("all", self.quant("allof")),
                       ("clone", self.clone), ("div", self.div), ("floor_divide", self.floordiv), ("add", self.plain("add")), ("sub", self.plain("sub")), ("mul", self.plain("mul")),
                       ("to", self.same), ("item", self.same)):
            m["." + f] = self.meth(how)

    def cells(self, it):
        return self.store.setdefault(id(it.path), (it.path, {}))[1]

    def new(self, it, shape, content):
        c = self.cells(it)
        t = T("obj", K("tensor"), K(len(c)))
        c[t] = (tuple(shape), content)
        return t

    def get(self, it, v):
        """(shape, polynomial) of a tensor or number."""
        v = freeze(it.resolve(v))
        c = self.cells(it).get(v)
        if c:
            return c
        p = poly(v)
        return None if p is None else ((), p)

    def is_t(self, it, v):
        return isinstance(v, T) and v in self.cells(it)

    def shape_of(self, it, v):
        v = it.resolve(v)
        if isinstance(v, Lst):
            return tuple(freeze(it.resolve(x)) for x in v.items)
        return None

    def cast(self, a, b):
        out = []
        for x, y in itertools.zip_longest(reversed(a), reversed(b)):
            out.append(x if y is None else y if x is None or x == K(1) else x if y == K(1) or x == y else None)
        return None if None in out else tuple(reversed(out))

    def op(self, it, name, a, b):
        x, y = self.get(it, a), self.get(it, b)
        if x is None or y is None:
            return None
        shape = self.cast(x[0], y[0])
        if shape is None:
            return None
        if name in ("add", "sub"):
            return shape, padd(x[1], y[1], 1 if name == "add" else -1)
        if name == "mul":
            return shape, pmul(x[1], y[1])
        if name in ("floordiv", "mod"):
            q = {(T("quotient", pterm(x[1]), pterm(y[1])),): Fraction(1)}
            return shape, q if name == "floordiv" else padd(x[1], pmul(q, y[1]), -1)
        if name == "truediv":
            return shape, {(T("fraction", pterm(x[1]), pterm(y[1])),): Fraction(1)}
        return None

    def binop(self, it, name, a, b):
        if isinstance(a, T) and isinstance(b, T) and {a.op, b.op} <= {"pred", "por"} and name == "or_":
            return T("por", a, b)
        if not (self.is_t(it, a) or self.is_t(it, b)):
            return None
        r = self.op(it, name, a, b)
        return self.new(it, *r) if r else None

    def aug(self, it, name, a, b):
        a, b = it.resolve(a), it.resolve(b)
        if not self.is_t(it, a):
            return None
        r = self.op(it, name, a, b)
        if r is None:
            return None
        self.cells(it)[a] = r  # in place: every alias sees it
        return a

    def compare(self, it, name, a, b):
        a, b = it.resolve(a), it.resolve(b)
        if name not in ("lt", "le", "gt", "ge", "eq", "ne") or not (self.is_t(it, a) or self.is_t(it, b)):
            return None
        x, y = self.get(it, a), self.get(it, b)
        if x is None or y is None:
            return None
        if name in ("eq", "ne"):
            return T("pred", K(name), pterm(padd(x[1], y[1], -1)), T("shape", *(self.cast(x[0], y[0]) or ())))
        if name in ("gt", "le"):
            x, y, name = y, x, {"gt": "lt", "le": "ge"}[name]
        return T("pred", K(name), pterm(padd(x[1], y[1], -1)), T("shape", *(self.cast(x[0], y[0]) or ())))

    # ------------------------------------------------------------ functions
    def full(self, it, recv, args, kw, node):
        s, v = self.shape_of(it, args[0]), self.get(it, args[1] if len(args) > 1 else kw.get("fill_value"))
        return self.new(it, s, v[1]) if s is not None and v else None

    def zeros(self, it, recv, args, kw, node):
        s = self.shape_of(it, args[0])
        return self.new(it, s, {}) if s is not None else None

    def zeros_like(self, it, recv, args, kw, node):
        c = self.get(it, args[0])
        return self.new(it, c[0], {}) if c else None

    def ones_like(self, it, recv, args, kw, node):
        c = self.get(it, args[0])
        return self.new(it, c[0], {(): Fraction(1)}) if c else None

    def scalar(self, it, recv, args, kw, node):
        c = self.get(it, args[0])
        return self.new(it, c[0], c[1]) if c else None

    def arange(self, it, recv, args, kw, node):
        if len(args) != 1 or set(kw) - {"dtype", "device"}:
            return None
        return self.new(it, (freeze(it.resolve(args[0])),), {(T("at", K(0)),): Fraction(1)})

    def reshape(self, it, recv, args, kw, node):
        """A vector laid along one dimension, numbered from the last."""
        c = self.cells(it).get(freeze(recv))
        s = self.shape_of(it, args[0]) if len(args) == 1 and isinstance(it.resolve(args[0]), Lst) else tuple(freeze(it.resolve(x)) for x in args)
        if c is None or s is None or len(c[0]) != 1:
            return None
        at = [i for i, x in enumerate(s) if x in (c[0][0], K(-1))]
        if len(at) != 1 or any(x != K(1) for i, x in enumerate(s) if i != at[0]):
            return None
        s = tuple(c[0][0] if x == K(-1) else x for x in s)
        here = T("at", K(len(s) - 1 - at[0]))
        return self.new(it, s, {tuple(here if x == T("at", K(0)) else x for x in m): k for m, k in c[1].items()})

    def div(self, it, recv, args, kw, node):
        mode = kw.get("rounding_mode", NONE)
        name = {"floor": "floordiv", None: "truediv"}.get(mode.v) if isinstance(mode, K) else None
        r = self.op(it, name, args[0], args[1]) if name else None
        if r is None and isinstance(mode, K) and mode.v == "trunc":
            x, y = self.get(it, args[0]), self.get(it, args[1])
            r = (self.cast(x[0], y[0]), {(T("truncated", pterm(x[1]), pterm(y[1])),): Fraction(1)}) if x and y else None
        return self.new(it, *r) if r else None

    def floordiv(self, it, recv, args, kw, node):
        r = self.op(it, "floordiv", args[0], args[1])
        return self.new(it, *r) if r else None

    def plain(self, name):
        def model(it, recv, args, kw, node):
            r = self.op(it, name, args[0], args[1]) if len(args) == 2 and not kw else None
            return self.new(it, *r) if r else None

        return model

    def quant(self, name):
        def model(it, recv, args, kw, node):
            a = freeze(it.resolve(args[0]))
            return T(name, a) if len(args) == 1 and isinstance(a, T) and a.op in ("pred", "por") else None

        return model

    def clone(self, it, recv, args, kw, node):
        c = self.cells(it).get(freeze(recv))
        return self.new(it, *c) if c else None

    def same(self, it, recv, args, kw, node):
        return recv

    def numel(self, it, recv, args, kw, node):
        r = freeze(recv)
        if isinstance(r, T) and r.op == "pred":
            return T("numel", *r.args[2].args)
        c = self.cells(it).get(r)
        return T("numel", *c[0]) if c else None

    def meth(self, how):
        def model(it, recv, args, kw, node):
            r = freeze(recv)
            if not (isinstance(r, T) and (r in self.cells(it) or r.op in ("pred", "por"))):
                return None
            if how.__name__ == "model" or how in (self.div, self.floordiv):
                return how(it, None, [recv] + list(args), kw, node)
            return how(it, recv, args, kw, node)

        return model


# ------------------------------------------------------------ graphs
class Strided:
    """An FX graph with as_strided calls, and what the rewrite does to it."""

    def __init__(self, w):
        self.w, self.nodes, self.gm, self.calls = w, [], obj("gm"), {}
        self.t = Tensors(w)
        m = w.models
        m[".call_function"] = self.call_function
        m[".get_attr"] = self.get_attr
        m[".create_node"] = self.create_node
        m[".register_buffer"] = self.register
        self.made, self.buffers, self.metas = {}, {}, {}

    def val(self, name, shape, stride, offset, storage, dtype="torch.float32", conj=FALSE, neg=FALSE):
        w = self.w
        v = w.fake(name + ".val", shape, dtype)
        w.types[v] = FAKE
        for k, r in (("stride", tup(*[K(s) if isinstance(s, int) else s for s in stride])), ("storage_offset", offset), ("untyped_storage", storage), ("is_conj", conj), ("is_neg", neg)):
            w.call(v, k, r)
        w.attrs[(v, "layout")] = Q("torch.strided")
        return v

    def node(self, name, val, op="placeholder", target=None, args=(), kwargs=()):
        n = self.w.node(name, op, target, list(args), kwargs, val=val)
        self.w.attrs[(n, "graph")] = obj("graph")
        self.nodes.append(n)
        return n

    # models of the graph's methods
    def slot(self, it, table):
        return table.setdefault(id(it.path), (it.path, {}))[1]

    def fresh(self, it, what):
        s = self.slot(it, self.made)
        n = T("obj", K("new"), K(len(s)))
        s[n] = what
        it.attrs[(n, "meta")] = self.slot(it, self.metas)[n] = meta = Dct([])
        it.touched[id(meta)] = (Dct([]), [])  # keeps what the path stores in it
        it.types[n] = NODE
        it.attrs[(n, "graph")] = obj("graph")
        return n

    def call_function(self, it, recv, args, kw, node):
        a = dict(zip(("the_function", "args", "kwargs"), args))
        a.update(kw)
        a["args"] = snap(it.resolve(a.get("args", tup())))  # the graph keeps copies of containers
        n = self.fresh(it, ("call", freeze(it.resolve(a["the_function"])), a["args"], a.get("kwargs")))
        it.attrs[(n, "op")] = K("call_function")
        it.attrs[(n, "args")] = a["args"]
        it.attrs[(n, "target")] = a["the_function"]
        it.attrs[(n, "kwargs")] = Dct([])
        return n

    def create_node(self, it, recv, args, kw, node):
        a = dict(zip(("op", "target", "args", "kwargs", "name"), args))
        a.update(kw)
        if a["op"] == K("get_attr"):
            return self.get_attr(it, recv, [a["target"]], {}, node)
        if a["op"] == K("call_function"):
            return self.call_function(it, recv, [a["target"], a.get("args", tup())], {}, node)
        return None

    def get_attr(self, it, recv, args, kw, node):
        if recv is None or freeze(recv) != obj("graph"):
            return None
        name = freeze(it.resolve(args[0] if args else kw["qualified_name"]))
        n = self.fresh(it, ("get", name))
        it.attrs[(n, "op")] = K("get_attr")
        it.attrs[(n, "target")] = name
        it.attrs[(n, "args")] = tup()
        it.attrs[(n, "kwargs")] = Dct([])
        return n

    def empty(self, it, recv, args, kw, node):
        """A tensor made to carry metadata."""
        sh = self.t.shape_of(it, args[0]) if args else None
        return T("empty", T("shape", *sh), freeze(it.resolve(kw.get("dtype", NONE)))) if sh is not None else None

    def register(self, it, recv, args, kw, node):
        name, t = freeze(it.resolve(args[0])), freeze(it.resolve(args[1]))
        self.slot(it, self.buffers).setdefault(name, []).append((t, self.t.cells(it).get(t)))
        asked = [v for a, v in it.fd.items() if isinstance(a, T) and name in walk(a)]
        if not self.closed and (not asked or it.fd.get(T("hasattr", freeze(recv), name))):
            it.emit("taken", show(name), recv, [], node=node)
        if isinstance(name, K):
            it.attrs[(freeze(recv), name.v)] = t
        return NONE

    def run(self, ctx, cons, closed=True, **cfg):
        w = self.w
        self.closed = closed
        w.models["torch.empty"] = self.empty
        self.nodes.append(w.output(self.nodes[-1]))
        g = w.graph(self.nodes, "graph", owning=self.gm)
        w.types[g] = "torch.fx.Graph"
        p = ctx.project
        p.load(A)
        f = p.func(A, "rewrite_as_strided")
        self.base_attrs = dict(w.attrs)

        def thunk(it):
            it.attrs = dict(self.base_attrs)
            if closed:
                it.attrs[(self.gm, "__closed__")] = TRUE
            # the mutable containers of a path belong to that path
            for k, v in list(it.attrs.items()):
                if isinstance(v, Dct):
                    it.attrs[k] = Dct(list(v.pairs))
                elif isinstance(v, Lst):
                    it.attrs[k] = Lst(list(v.items), v.kind)
            return it.call_fn(f, [g], {}, None)

        return ctx.explore(cons, thunk, **w.cfg(**cfg))


def entailed(p):
    """What a path knows of index polynomials: those that are zero, those below zero, empty results."""
    zero, below, empty, nil = [], [], False, set()
    for atom, val, _ in p.facts:
        if not isinstance(atom, T):
            continue
        if atom.op in ("eq",) and any(isinstance(x, T) and x.op == "numel" for x in atom.args) and K(0) in atom.args and val:
            empty = True
        if atom.op == "numel" and not val:
            empty = True
        if atom.op == "lt" and isinstance(atom.args[1], T) and atom.args[1].op == "numel" and atom.args[0] == K(0) and not val:
            empty = True
        if atom.op == "sym" and not val:
            nil.add(atom)
        if atom.op == "eq" and K(0) in atom.args and val:
            nil |= {x for x in atom.args if isinstance(x, T)}

        def note(pred, holds):
            op, q = pred.args[0].v, poly(pred.args[1])
            if op in ("eq", "ne"):
                if (op == "eq") == holds:
                    zero.append(q)
            elif (op == "lt") == holds:
                below.append(q)
            else:  # q >= 0, that is -q - 1 < 0
                below.append(padd(padd({}, q, -1), {(): Fraction(1)}, -1))

        if atom.op == "anyof" and not val:
            for x in walk(atom.args[0]):
                if isinstance(x, T) and x.op == "pred":
                    note(x, False)
        if atom.op == "allof" and val and atom.args[0].op == "pred":
            note(atom.args[0], True)
    return zero, below, empty, nil


def address(s, want, ctx, cons, **kw):
    """Decide the rewrite of graph `s`; want: {node: (source, size, stride, offset)}."""
    w = s.w
    ps = s.run(ctx, cons, **kw)

    def pred(p):
        made, buffers = s.made.get(id(p), (None, {}))[1], s.buffers.get(id(p), (None, {}))[1]
        cells = s.t.store.get(id(p), (None, {}))[1]
        repl = {}
        for e in p.events:
            if e.kind == "call" and e.name.endswith("replace_all_uses_with"):
                repl[freeze(e.recv) if e.recv is not None else None] = freeze(e.args[0])
        erased = [freeze(e.args[0]) for e in p.events if e.kind == "call" and e.name.endswith("erase_node")]
        renamed = {}
        for e in p.events:
            if e.kind == "setattr" and e.name == "name" and e.recv is not None:
                renamed[freeze(e.recv)] = freeze(e.args[0])
        for e in p.events:
            if e.kind == "taken":
                return f"stores an index tensor under the name {e.name} of something else"
        zero, below, empty, nil = entailed(p)
        zero = [subst(z, nil) for z in zero]
        below = [subst(b, nil) for b in below]
        for n, (source, size, stride, offset) in want.items():
            r = repl.get(n)
            if r is None or r not in made:
                return f"the uses of {show(n)} become {show(r) if r is not None else 'nothing'}"
            if n not in erased:
                return f"{show(n)} remains"
            what = made[r]
            if what[0] != "call":
                return f"{show(n)} becomes {what}"
            target, args = what[1], what[2]
            base = freeze(args.items[0])
            sv = s.vals[source]
            bv = s.vals.get(base)
            if bv is None:
                return f"the base {show(base)} is no tensor of the graph"
            at = lambda v, k: w.attrs[(v, k)]
            for k in ("untyped_storage()", "dtype", "is_conj()", "is_neg()"):
                if at(sv, k) != at(bv, k):
                    return f"reads {show(base)}, whose {k.strip('()')} is {show(freeze(at(bv, k)))} instead of {show(freeze(at(sv, k)))}"
            bshape = [freeze(x) for x in at(bv, "shape").items if True] if isinstance(at(bv, "shape"), Lst) else list(at(bv, "shape").args)
            bstride = seqof(at(bv, "stride()"))
            boff = poly(at(bv, "storage_offset()"))
            ask = padd(poly(offset), boff, -1)
            for d, t in enumerate(stride):
                ask = padd(ask, pmul({(T("at", K(len(size) - 1 - d)),): Fraction(1)}, poly(t)))
            ask = subst(ask, nil)
            one = {T("at", K(len(size) - 1 - d)) for d, x in enumerate(size) if x == K(1)}
            ask = subst(ask, one)
            if target == Q("torch.ops.aten.expand.default") and not bshape:
                got = seqof(args.items[1])
                if got != list(size):
                    return f"expands to {[show(x) for x in got]}"
                coords = []
            elif target == Q("torch.ops.aten.index.Tensor"):
                idx = seqof(args.items[1])
                if not idx:
                    return "an index without index tensors"
                if len(idx) != len(bshape):
                    return f"{len(idx)} indices for a base of rank {len(bshape)}"
                coords, shape = [], ()
                for i in idx:
                    g = made.get(i)
                    if g is None or g[0] != "get":
                        return f"index {show(i)} is not read from the module"
                    reg = buffers.get(g[1], [])
                    if len(reg) != 1:
                        return f"{len(reg)} tensors are stored as {show(g[1])}"
                    t, _ = reg[0]
                    c = cells.get(t)
                    if c is None:
                        raise LookupError(f"the content of {show(t)} is not known")
                    coords.append(c[1])
                    shape = s.t.cast(shape, c[0])
                    if shape is None:
                        return "the index tensors have different shapes"
                if tuple(shape) != tuple(size):
                    return f"the index tensors have the shape {[show(x) for x in shape]}"
            else:
                return f"becomes {show(target)}"
            if not empty:
                # the address read equals the address requested
                read = {}
                for c, b in zip(coords, bstride):
                    read = padd(read, pmul(subst(c, nil | one), poly(b)))
                d = padd(read, ask, -1)
                if d and not any(padd(d, subst(z, one), f) == {} for z in zero for f in (1, -1)):
                    return f"reads the address {pshow(read)}, requested is {pshow(ask)}"
                for i, (c, n_) in enumerate(zip(coords, bshape)):
                    if any(x.op == "fraction" for m in c for y in m for x in walk(y) if isinstance(x, T)):
                        return f"index {i} is not an integer"
                    c = subst(c, nil)
                    low = padd(padd({}, c, -1), {(): Fraction(1)}, -1)
                    high = padd(c, poly(n_), -1)
                    for need, side in ((low, "below 0"), (high, "beyond the extent")):
                        if need.keys() <= {()} and need.get((), 0) < 0:
                            continue
                        if need not in below:
                            return f"index {i} can be {side}"
                if not coords:
                    # an element of the base only if no index moves
                    if ask and not any(padd(ask, z, f) == {} for z in zero for f in (1, -1)):
                        return f"reads the only element for the address {pshow(ask)}"
            nval = w.attrs[(n, "meta")].get(K("val"))
            val = s.metas[id(p)][1][r].get(K("val"))
            ok = val is not None and (freeze(val) == nval or isinstance(val, T) and val.op == "empty" and val.args == (T("shape", *size), w.attrs[(nval, "dtype")]))
            if not ok:
                return f"the metadata of the replacement is {show(freeze(val)) if val is not None else 'missing'}, the result has the shape {[show(x) for x in size]}"
            if renamed.get(r) != w.attrs[(n, "name")]:
                return f"the replacement is not named like {show(n)}, which signatures refer to"
        return None

    def guarded(p):
        try:
            return pred(p)
        except LookupError as e:
            ctx.undecided.append(f"{cons}: {e}")
            return None

    decide(ctx, "address", cons, ps, guarded, may_raise=RAISES)
    if not any(p.outcome == "return" for p in ps):
        ctx.bad("accept", cons, A, "every path is rejected")
    return ps


def seqof(v):
    if isinstance(v, Lst):
        return [freeze(x) for x in v.items]
    if isinstance(v, T) and v.op in ("list", "tuple"):
        return list(v.args)
    return []


def sym_int(w, name):
    t = T("sym", name)
    w.types[t] = "builtins.int"
    return t


LAYOUTS = {
    "rank 0": [], "vector": [1], "strided vector": [3], "broadcast vector": [0], "row-major": [7, 1], "transposed": [1, 7], "same strides": [1, 1],
    "broadcast row": [0, 1], "all broadcast": [0, 0], "channels last": [60, 1, 12, 3], "rank 3": [20, 5, 1], "permuted": [5, 1, 20], "overlapping": [2, 3],
}


def layouts(ctx):
    for (ln, bst), r, off in itertools.product(LAYOUTS.items(), range(4 if ctx.deep else 3), ("given", "absent", "none", "keyword", "all keywords")):
        if off in ("none", "keyword", "all keywords") and (r != 1 or ln not in ("row-major", "rank 0")):
            continue
        w = World()
        w.opaque = {"sparsity_encoding"}
        s = Strided(w)
        bsh = [sym_int(w, f"b{i}") for i in range(len(bst))]
        size = [sym_int(w, f"s{i}") for i in range(r)]
        stride = [sym_int(w, f"t{i}") for i in range(r)]
        bo, o = sym_int(w, "base_offset"), sym_int(w, "offset")
        S = obj("storage")
        xv = s.val("x", bsh, bst, bo, S)
        x = s.node("x", xv)
        rv = s.val("n", size, [K(1)] * r, K(0), S)
        args = [x, ilist(*size), ilist(*stride)]
        kwargs = []
        if off == "given":
            args.append(o)
        elif off == "none":
            args.append(NONE)
        elif off == "keyword":
            kwargs = [(k, v) for k, v in zip(("size", "stride", "storage_offset"), args[1:] + [o])]
            args = args[:1]
        elif off == "all keywords":
            kwargs, args = [("storage_offset", o), ("stride", args[2]), ("size", args[1]), ("self", x)], []
        n = s.node("n", rv, "call_function", AS, args, kwargs)
        s.vals = {x: xv}
        address(s, {n: (x, size, stride, o if off in ("given", "keyword", "all keywords") else bo)}, ctx, f"{ln} base, result of rank {r}, offset {off}")


def value(v, env):
    """An index polynomial at one point."""
    if isinstance(v, T) and v.op in ("quotient", "truncated", "fraction"):
        a, b = value(v.args[0], env), value(v.args[1], env)
        return a // b if v.op == "quotient" else int(a / b) if v.op == "truncated" else a / b
    p = poly(v)
    if p is None:
        raise LookupError(show(v))
    r = 0
    for m, c in p.items():
        for x in m:
            c = c * (env[x] if x in env else value(x, env) if isinstance(x, T) and x.op in ("quotient", "truncated", "fraction") else missing(x))
        r += c
    return r


def missing(x):
    raise LookupError(show(x))


def accepted(ctx):
    """Every element of a dense base can be requested."""
    DENSE = {"vector": ([5], [1]), "row-major": ([5, 7], [7, 1]), "transposed": ([7, 5], [1, 7]), "channels last": ([2, 3, 5, 4], [60, 1, 12, 3]),
             "rank 3": ([3, 4, 5], [20, 5, 1]), "unit extents": ([3, 1, 4], [4, 4, 1]), "permuted rank 3": ([5, 4, 3], [1, 5, 20]), "rank 0": ([], [])}
    for ln, (bsh, bst) in DENSE.items():
        w = World()
        w.opaque = {"sparsity_encoding"}
        s = Strided(w)
        S = obj("storage")
        sy = [sym_int(w, f"b{i}") for i in range(len(bst))]
        bo, o = sym_int(w, "base_offset"), sym_int(w, "offset")
        xv = s.val("x", sy, bst, bo, S)
        x = s.node("x", xv)
        n = s.node("n", s.val("n", [], [], K(0), S), "call_function", AS, [x, ilist(), ilist(), o])
        cons = f"{ln} base, any of its elements"
        ps = s.run(ctx, cons)
        total = 1
        for d in bsh:
            total *= d
        env = dict(zip(sy, bsh))
        lost = []
        try:
            for off in (0, 9):
                for a in range(total):
                    env.update({bo: off, o: off + a})
                    if not any(p.outcome == "return" and holds(p, env) for p in ps):
                        lost.append(a)
        except LookupError as e:
            ctx.undecided.append(f"{cons}: {e} has no value")
            continue
        ctx.ob(not lost, "accept", cons, A, f"the elements at {lost[:5]} of the storage are rejected")


def holds(p, env):
    """Are the comparisons of path `p` true at the point `env` (results of one element)?"""
    for atom, val, _ in p.facts:
        if not isinstance(atom, T):
            continue
        if atom.op in ("anyof", "allof"):
            ok = False if atom.op == "anyof" else True
            for x in walk(atom.args[0]):
                if isinstance(x, T) and x.op == "pred":
                    v = value(x.args[1], env)
                    h = {"lt": v < 0, "ge": v >= 0, "eq": v == 0, "ne": v != 0}[x.args[0].v]
                    ok = ok or h if atom.op == "anyof" else ok and h
            if ok != val:
                return False
        elif atom.op == "eq" and K(0) in atom.args and any(isinstance(x, T) and x.op == "numel" for x in atom.args):
            if val:
                return False
        elif atom.op == "sym" and atom in env:
            if bool(env[atom]) != val:
                return False
    return True


def owner(s, chain_nodes, w):
    """The first tensor of the chain with the storage and elements of the last."""
    at = lambda n, k: w.attrs[(s.vals[n], k)]
    keys = ("untyped_storage()", "dtype", "is_conj()", "is_neg()")
    best = chain_nodes[-1]
    for n in reversed(chain_nodes):
        if all(at(n, k) == at(chain_nodes[-1], k) for k in keys):
            best = n
        else:
            break
    return best


def chains(ctx):
    """Which tensor a read is taken from: the same storage, holding the same elements."""
    S, R = obj("storage"), obj("other storage")
    F, C, I = "torch.float32", "torch.complex64", "torch.int16"
    # each chain: the nodes from the placeholder on, as (call, storage, dtype, conjugated, negated)
    CHAINS = {
        "placeholder": [(None, S, F, FALSE, FALSE)],
        "view": [(None, S, F, FALSE, FALSE), ("aten::view", S, F, FALSE, FALSE)],
        "three views": [(None, S, F, FALSE, FALSE), ("aten::slice", S, F, FALSE, FALSE), ("aten::permute", S, F, FALSE, FALSE), ("aten::expand", S, F, FALSE, FALSE)],
        "copy": [(None, R, F, FALSE, FALSE), ("aten::clone", S, F, FALSE, FALSE)],
        "view of a copy": [(None, R, F, FALSE, FALSE), ("aten::clone", S, F, FALSE, FALSE), ("aten::view", S, F, FALSE, FALSE)],
        "copy of a view": [(None, R, F, FALSE, FALSE), ("aten::view", R, F, FALSE, FALSE), ("aten::clone", S, F, FALSE, FALSE)],
        "view as another dtype": [(None, S, F, FALSE, FALSE), ("aten::view.dtype", S, I, FALSE, FALSE)],
        "slice of a view as another dtype": [(None, S, F, FALSE, FALSE), ("aten::view.dtype", S, I, FALSE, FALSE), ("aten::slice", S, I, FALSE, FALSE)],
        "real part": [(None, S, C, FALSE, FALSE), ("aten::view_as_real", S, F, FALSE, FALSE)],
        "conjugate": [(None, S, C, FALSE, FALSE), ("aten::_conj", S, C, TRUE, FALSE)],
        "view of a conjugate": [(None, S, C, FALSE, FALSE), ("aten::_conj", S, C, TRUE, FALSE), ("aten::view", S, C, TRUE, FALSE)],
        "negative view": [(None, S, F, FALSE, FALSE), ("aten::_neg_view", S, F, FALSE, TRUE)],
        "conjugate of a conjugate": [(None, S, C, FALSE, FALSE), ("aten::_conj", S, C, TRUE, FALSE), ("aten::_conj", S, C, FALSE, FALSE)],
    }
    for how in ("positional", "second operand", "keyword", "in a list"):
        for cn, chain in CHAINS.items():
            if how != "positional" and cn not in ("view", "copy", "view of a copy", "view as another dtype"):
                continue
            w = World()
            w.opaque = {"sparsity_encoding"}
            s = Strided(w)
            s.vals, prev = {}, None
            other = s.node("other", s.val("other", [K(4)], [1], K(0), R))
            s.vals[other] = w.attrs[(other, "meta")].get(K("val"))
            for i, (call, st, dt, cj, ng) in enumerate(chain):
                shape = [sym_int(w, f"e{i}.{d}") for d in range(2)]
                v = s.val(f"v{i}", shape, [9 + i, 2 + i], sym_int(w, f"o{i}"), st, dt, cj, ng)
                if call is None:
                    n = s.node(f"v{i}", v)
                else:
                    args, kw = {"positional": ([prev, K(2)], []), "second operand": ([other, prev], []), "keyword": ([K(2)], [("self", prev)]), "in a list": ([Lst([K(3), other, prev])], [])}[how]
                    n = s.node(f"v{i}", v, "call_function", w.overload(call, []), args, kw)
                s.vals[n] = v
                prev = n
            size, stride = [sym_int(w, "s0")], [sym_int(w, "t0")]
            rv = s.val("n", size, [1], K(0), chain[-1][1], chain[-1][2], chain[-1][3], chain[-1][4])
            n = s.node("n", rv, "call_function", AS, [prev, ilist(*size), ilist(*stride)])
            cons = f"as_strided of a {cn}, view operand {how}"
            ps = address(s, {n: (prev, size, stride, sym_int(w, f"o{len(chain) - 1}"))}, ctx, cons)
            want = owner(s, [m for m in s.nodes if m in s.vals and m != other], w)
            for p in ps:
                made = s.made.get(id(p), (None, {}))[1]
                got = {freeze(c[2].items[0]) for c in made.values() if c[0] == "call"}
                if p.outcome == "return" and got != {want}:
                    ctx.bad("accept", cons, A, f"reads {[show(g) for g in got]}, which holds only a part of the storage of {show(want)}")
            ctx.ob(True, "accept", cons)


def several(ctx):
    """Several reads in one graph: nested, side by side, and names that are in use."""
    S = obj("storage")
    for kind in ("nested", "side by side", "names in use", "view between"):
        w = World()
        w.opaque = {"sparsity_encoding"}
        s = Strided(w)
        xv = s.val("x", [sym_int(w, "b0"), sym_int(w, "b1")], [11, 1], sym_int(w, "bo"), S)
        x = s.node("x", xv)
        mk = lambda i: ([sym_int(w, f"s{i}")], [sym_int(w, f"t{i}")], sym_int(w, f"f{i}"))
        (s0, t0, f0), (s1, t1, f1) = mk(0), mk(1)
        nv = s.val("n", s0, [3], f0, S)
        n = s.node("n", nv, "call_function", AS, [x, ilist(*s0), ilist(*t0), f0])
        s.vals = {x: xv, n: nv}
        want = {n: (x, s0, t0, f0)}
        if kind != "names in use":
            src = n if kind == "nested" else x
            if kind == "view between":
                vv = s.val("v", s0, [5], f0, S)
                src = s.node("v", vv, "call_function", w.overload("aten::slice", []), [n, K(0)])
                s.vals[src] = vv
            mv = s.val("m", s1, [4], f1, S)
            m = s.node("m", mv, "call_function", AS, [src, ilist(*s1), ilist(*t1), f1])
            s.vals[m] = mv
            want[m] = (src, s1, t1, f1)
        address(s, want, ctx, f"several reads: {kind}", closed=kind != "names in use")


def dynamic(ctx):
    """What is not a static integer, or not there, is rejected."""
    S = obj("storage")
    for what in ("size", "stride", "offset", "base shape", "base stride", "base offset", "size node", "no metadata", "no module", "no size"):
        w = World()
        w.opaque = {"sparsity_encoding"}
        s = Strided(w)

        def num(name, dyn):
            t = T("sym", name)
            w.types[t] = "torch.SymInt" if dyn else "builtins.int"
            return t

        xv = s.val("x", [num("b0", what == "base shape"), num("b1", False)], [num("u", True), K(1)] if what == "base stride" else [K(5), K(1)], num("bo", what == "base offset"), S)
        x = s.node("x", xv)
        if what == "no metadata":
            w.attrs[(x, "meta")] = Dct([])
        size = [s.node("sz", num("szv", True), "call_function", w.overload("aten::sym_size", []), [x]) if what == "size node" else num("s0", what == "size")]
        stride, off = [num("t0", what == "stride")], num("f", what == "offset")
        rv = s.val("n", size, [1], K(0), S)
        n = s.node("n", rv, "call_function", AS, [x, ilist(*size), ilist(*stride), off] if what != "no size" else [x], [] if what != "no size" else [("stride", ilist(*stride))])
        s.vals = {x: xv, n: rv}
        if what == "no module":
            s.gm = NONE
        ps = s.run(ctx, f"as_strided, dynamic {what}")
        decide(ctx, "reject", f"as_strided, unusable {what}", ps, lambda p: None, must_raise=RAISES + ("builtins.KeyError",))


def entries(ctx):
    """Every importer entry rewrites the graph it imports before it imports it."""
    for how in ("import_program", "import_frozen_program", "import_stateless_graph", "import_graph_module"):
        w = World()
        P = Prog(w)
        x = w.tensor_node("x", [3])
        y = w.tensor_node("y", [3], op="call_function", target=w.overload("aten::relu", [("self", w.jit("TensorType"))]), args=[x])
        P.inp("USER_INPUT", x)
        P.nodes.append(y)
        P.out("USER_OUTPUT", y)
        P.nodes.append(w.output(y))
        cons = f"{how} rewrites as_strided first"
        if how.endswith("program"):
            prog = P.build()
            g = w.attrs[(prog, "graph")]
            arg = prog
        else:
            g = w.graph([x] + [n for n in P.nodes if n != x], "graph", owning=obj("gm"))
            w.call(obj("gm"), "named_children", Lst([]))
            w.attrs[(obj("gm"), "graph")] = g
            arg = obj("gm") if how == "import_graph_module" else g
        p = ctx.project
        p.load(M)
        ps = ctx.explore(cons, lambda it: method(it, importer(it, p), how, [arg]), **w.cfg(max_depth=80))

        def pred(p):
            at = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name.endswith("rewrite_as_strided") and freeze(e.args[0]) == g]
            ops = [i for i, e in enumerate(p.events) if e.kind == "call" and (e.name.endswith("Operation.create") or e.name.endswith("FuncOp"))]
            if not at:
                return "the graph is never rewritten"
            return None if not ops or at[0] < ops[0] else "operations are imported before the graph is rewritten"

        decide(ctx, "first", cons, ps, pred)
    # and a read that is still there is not imported as it is
    w = World()
    x = w.tensor_node("x", [3])
    q = "torch.ops.aten.as_strided.default"
    t = w.overload("aten::as_strided", [("self", w.jit("TensorType")), ("size", w.jit("ListType", w.jit("IntType"))), ("stride", w.jit("ListType", w.jit("IntType")))], q=q)
    y = w.tensor_node("y", [3], op="call_function", target=t, args=[x, ilist(K(3)), ilist(K(1))])
    ps = import_graph(ctx, w, "import_stateless_graph[as_strided remains]", [x, y, w.output(y)])
    decide(ctx, "reject", "as_strided that was not rewritten", ps, lambda p: None, must_raise=RAISES)


def run(ctx):
    ctx.rule("reject", "dynamic requests and reads without storage metadata are errors")
    ctx.rule("first", "every entry point rewrites a graph before it imports it")
    ctx.rule("address", "the rewritten read gets every element from the storage address the request names, inside the base, or is rejected")
    ctx.rule("accept", "requests that can be expressed are not all rejected")
    for g in (layouts, accepted, chains, several, dynamic, entries):
        ctx.group(g)
    ctx.floor("address", 100)
    ctx.floor("reject", 10)
    ctx.floor("first", 4)
