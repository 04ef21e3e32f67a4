"""C10: symbolic shapes reach the module with the constraints and expressions of the program."""

from sa.fxworld import *
from sa.values import SetV
from checks.c05 import emitted, op_name, lit, REJ

I64MAX, I64MIN = 2**63 - 1, -(2**63)
NUM = "torch.utils._sympy.numbers."


class Exprs:
    """sympy expressions as abstract objects that remember what they denote."""

    def __init__(self, w):
        self.w, self.n, self.syms, self.fn = w, 0, {}, {}
        w.models["math.ceil"] = self.rounded("ceil")
        w.models["math.floor"] = self.rounded("floor")

    def rounded(self, how):
        def model(it, recv, args, kw, node):
            return self.w.attrs.get((freeze(args[0]), how + "()"))

        return model

    def mk(self, cls, args, fn, text, **attrs):
        self.n += 1
        e = self.w.obj(f"expr{self.n}:{text}", cls, args=Lst(args, "tuple"), **attrs)
        fs = []
        for a in args:
            if isinstance(a, T):
                fs += [x for x in self.w.attrs[(a, "free_symbols")].items if x not in fs]
        self.w.attrs[(e, "free_symbols")] = SetV(fs)
        self.fn[e] = fn
        return e

    def value(self, e, env):
        return e.v if isinstance(e, K) else self.fn[e](env)

    def sym(self, name):
        if name not in self.syms:
            e = self.mk("sympy.Symbol", [], lambda env: env[name], name, name=K(name))
            self.w.attrs[(e, "free_symbols")] = SetV([e])
            self.w.attrs[(e, "__str__")] = K(name)
            self.syms[name] = e
        return self.syms[name]

    def integer(self, n):
        e = self.mk("sympy.Integer", [], lambda env: n, str(n))
        self.w.attrs[(e, "__int__")] = K(n)
        self.w.attrs[(e, "is_bool")] = FALSE
        return e

    def rational(self, p, q):
        import fractions, math

        f = fractions.Fraction(p, q)
        e = self.mk("sympy.Rational", [], lambda env: f, f"{p}/{q}")
        self.w.attrs[(e, "ceil()")] = K(math.ceil(f))
        self.w.attrs[(e, "floor()")] = K(math.floor(f))
        return e

    def infinity(self, neg=False, old=False):
        if not neg:
            q = Q("sympy.oo") if old else Q(NUM + "int_oo")
            self.w.types[q] = "sympy.core.numbers.Infinity" if old else NUM + "IntInfinity"
            return q
        base = self.infinity(old=old)
        e = T("neg", base)
        self.w.types[e] = "sympy.core.numbers.NegativeInfinity" if old else NUM + "NegativeIntInfinity"
        return e

    def add(self, *xs):
        return self.mk("sympy.Add", list(xs), lambda env: sum(self.value(x, env) for x in xs), "add")

    def mul(self, *xs):
        def f(env):
            r = 1
            for x in xs:
                r *= self.value(x, env)
            return r

        return self.mk("sympy.Mul", list(xs), f, "mul")

    def pow(self, a, b):
        return self.mk("sympy.Pow", [a, b], lambda env: self.value(a, env) ** self.value(b, env), "pow")

    def mod(self, a, b):
        return self.mk("sympy.Mod", [a, b], lambda env: self.value(a, env) % self.value(b, env), "mod")

    def other(self, cls, *xs):
        return self.mk(cls, list(xs), lambda env: None, "other")


def dim(w, X, e, name):
    """A SymInt extent."""
    node = w.obj(name + ".node", "torch.fx.experimental.sym_node.SymNode", expr=e, pytype=Q("builtins.int"))
    return w.obj(name, "torch.SymInt", node=node)


def vrange(w, name, lo, hi, is_bool=FALSE):
    return w.obj(name, "torch.utils._sympy.value_ranges.ValueRanges", lower=lo, upper=hi, is_bool=is_bool)


def affine(e, env):
    """Value of an affine expression built with the MLIR bindings."""
    if isinstance(e, T) and e.op in ("add", "sub", "mul", "mod"):
        a, b = affine(e.args[0], env), affine(e.args[1], env)
        return {"add": a + b, "sub": a - b, "mul": a * b, "mod": a % b}[e.op]
    if isinstance(e, K) and isinstance(e.v, int):
        return e.v
    for n, f in (("AffineSymbolExpr.get", lambda a: env[("s", a.v)]), ("AffineDimExpr.get", lambda a: env[("d", a.v)]), ("AffineConstantExpr.get", lambda a: const(a)),
                 ("AffineExpr.get_symbol", lambda a: env[("s", a.v)]), ("AffineExpr.get_dim", lambda a: env[("d", a.v)]), ("AffineExpr.get_constant", lambda a: const(a))):
        c = call_of(e, n)
        if c:
            return f(c[0][0])
    for n, f in (("Add", lambda a, b: a + b), ("Mul", lambda a, b: a * b), ("Mod", lambda a, b: a % b), ("FloorDiv", lambda a, b: a // b), ("CeilDiv", lambda a, b: -(-a // b))):
        c = call_of(e, f"Affine{n}Expr.get") or call_of(e, "AffineExpr.get_" + {"Add": "add", "Mul": "mul", "Mod": "mod", "FloorDiv": "floor_div", "CeilDiv": "ceil_div"}[n])
        if c:
            return f(affine(c[0][0], env), affine(c[0][1], env))
    raise ValueError(f"not an affine expression: {show(e)}")


def const(a):
    if isinstance(a, K):
        return a.v
    if isinstance(a, T) and a.op == "int":
        return const(a.args[0])
    if isinstance(a, T) and a.op == "obj" and ":" in str(a.args[0].v):
        return int(str(a.args[0].v).split(":")[1])
    raise ValueError(show(a))


def attr_int(a):
    c = call_of(a, "IntegerAttr.get")
    if c and len(c[0]) > 1 and isinstance(c[0][1], T) and c[0][1].op == "attr":  # torch.iinfo(dtype).max
        i = call_of(c[0][1].args[0], "torch.iinfo")
        if i and i[0] == [Q("torch.int64")]:
            c[0][1] = K({"max": I64MAX, "min": I64MIN}.get(c[0][1].args[1]))
    t = call_of(c[0][0], "get_signless") if c and c[0] else None
    return c[0][1].v if c and t and t[0] and t[0][0] == K(64) and len(c[0]) > 1 and isinstance(c[0][1], K) else show(a)


def attr_str(a):
    c = call_of(a, "StringAttr.get")
    return c[0][0].v if c and c[0] and isinstance(c[0][0], K) else show(a)


def symbols(v):
    """{symbol: (min, max, value)} declared on a path; None entry when one is declared twice in a function"""
    out = {}
    for o in emitted(v, "torch.symbolic_int"):
        n = attr_str(o.attributes.get("symbol_name"))
        out[n] = (attr_int(o.attributes.get("min_val")), attr_int(o.attributes.get("max_val")), o.result(), o.results)
    return out


def program(ctx, cons, shapes, ranges, how="import_program", flag=True, extra=None):
    """A program with tensor inputs of these shapes; build(w, X) -> (list of shapes, ranges)."""
    w = World()
    X = Exprs(w)
    sh = shapes(X)
    P = Prog(w)
    xs = []
    for i, s in enumerate(sh):
        dims = []
        for j, d in enumerate(s):
            dims.append(dim(w, X, d, f"x{i}.d{j}") if isinstance(d, T) else K(d))
        symbolic = any(isinstance(d, T) for d in s)
        n = w.node(f"x{i}", "placeholder", K(f"x{i}"), val=w.fake(f"x{i}.val", dims, symbolic=TRUE if symbolic else FALSE),
                   meta=[(K("tensor_meta"), w.tensor_meta(f"x{i}.tm", dims))])
        P.inp("USER_INPUT", n)
        xs.append(n)
    for i, s in enumerate(extra(X) if extra else ()):  # results of calls
        dims = [dim(w, X, d, f"c{i}.d{j}") if isinstance(d, T) else K(d) for j, d in enumerate(s)]
        symbolic = any(isinstance(d, T) for d in s)
        n = w.node(f"c{i}", "call_function", w.overload(f"aten::c{i}", [("p", w.jit("TensorType"))]), [xs[0]], val=w.fake(f"c{i}.val", dims, symbolic=TRUE if symbolic else FALSE),
                   meta=[(K("tensor_meta"), w.tensor_meta(f"c{i}.tm", dims))])
        P.nodes.append(n)
        xs.append(n)
        sh.append(s)
    for n in xs:
        P.out("USER_OUTPUT", n)
    P.nodes.append(w.output(*xs))
    prog = P.build()
    rs = ranges(w, X)
    w.attrs[(prog, "range_constraints")] = Dct([(X.sym(k), vrange(w, "range:" + k, *r)) for k, r in rs.items()])
    kw = {"import_symbolic_shape_expressions": TRUE} if flag else {}
    ps = import_program(ctx, w, f"{how}[{cons}]", prog, how, kw=kw, max_rec=8)
    return w, X, sh, ps


def plain(*names):
    return lambda w, X: {n: (X.integer(2), X.infinity()) for n in names}


def bounds(ctx):
    """Every combination of finite, infinite and fractional bounds."""
    lows = {
        "5": (lambda X: X.integer(5), 5), "0": (lambda X: X.integer(0), 0), "-3": (lambda X: X.integer(-3), -3),
        "-int_oo": (lambda X: X.infinity(True), I64MIN), "7/2": (lambda X: X.rational(7, 2), 4), "-7/2": (lambda X: X.rational(-7, 2), -3),
    }
    highs = {
        "10": (lambda X: X.integer(10), 10), "int_oo": (lambda X: X.infinity(), I64MAX), "oo": (lambda X: X.infinity(old=True), I64MAX),
        "27/2": (lambda X: X.rational(27, 2), 13), "2**63-2": (lambda X: X.integer(2**63 - 2), 2**63 - 2),
    }
    for ln, (lo, lv) in lows.items():
        for hn, (hi, hv) in highs.items():
            w, X, sh, ps = program(ctx, f"s0 in [{ln}, {hn}]", lambda X: [[X.sym("s0"), X.sym("s1")]],
                                   lambda w, X: {"s1": (X.integer(1), X.integer(100)), "s0": (lo(X), hi(X))})

            def pred(p):
                s = symbols(View(p))
                if sorted(s) != ["s0", "s1"]:
                    return f"the symbols {sorted(s)} are declared"
                if s["s0"][:2] != (lv, hv):
                    return f"s0 is declared in [{s['s0'][0]}, {s['s0'][1]}], the program allows [{lv}, {hv}]"
                if s["s1"][:2] != (1, 100):
                    return f"s1 is declared in [{s['s1'][0]}, {s['s1'][1]}], the program allows [1, 100]"
                return None if all(x[3] == [ty("!torch.int")] for x in s.values()) else "a symbol is not an integer"

            decide(ctx, "bound", f"[{ln}, {hn}]", ps, pred)


CATALOGUE = {
    "s0": lambda X: X.sym("s0"),
    "s0 + 1": lambda X: X.add(X.sym("s0"), K(1)),
    "s0 - 2": lambda X: X.add(K(-2), X.sym("s0")),
    "s0 + s1 + s2": lambda X: X.add(X.sym("s0"), X.sym("s1"), X.sym("s2")),
    "2*s0": lambda X: X.mul(K(2), X.sym("s0")),
    "s0*s1": lambda X: X.mul(X.sym("s0"), X.sym("s1")),
    "3*s0*s1*s2": lambda X: X.mul(K(3), X.sym("s0"), X.sym("s1"), X.sym("s2")),
    "s1**2": lambda X: X.pow(X.sym("s1"), K(2)),
    "s1**1": lambda X: X.pow(X.sym("s1"), K(1)),
    "(s0 + 1)**3": lambda X: X.pow(X.add(X.sym("s0"), K(1)), K(3)),
    "s1 % 4": lambda X: X.mod(X.sym("s1"), K(4)),
    "(s1 + s0) % s2": lambda X: X.mod(X.add(X.sym("s1"), X.sym("s0")), X.sym("s2")),
    "2*s0*s1 + 3*(s2 % 5) - s1**2 + 7": lambda X: X.add(X.mul(K(2), X.sym("s0"), X.sym("s1")), X.mul(K(3), X.mod(X.sym("s2"), K(5))), X.mul(K(-1), X.pow(X.sym("s1"), K(2))), K(7)),
    "s10 - s9": lambda X: X.add(X.sym("s10"), X.mul(K(-1), X.sym("s9"))),
    "2*sympy 3": lambda X: X.mul(X.integer(3), X.sym("s0")),
}
NAMES = ("s0", "s1", "s10", "s2", "s9")
POINTS = [dict(zip(NAMES, t)) for t in ((2, 3, 5, 7, 11), (11, 7, 4, 3, 2), (1, 13, 6, 4, 9), (8, 2, 31, 5, 17))]


def check_bind(v, o, want, shape, X, syms):
    """The operands and affine map of one bind operation."""
    if not o.operands or o.operands[0] != want:
        return f"the shape of {origin(v, want)} is stated of {origin(v, o.operands[0]) if o.operands else 'nothing'}"
    by = {d[2]: n for n, d in syms.items()}
    names = [by.get(x) for x in o.operands[1:]]
    if None in names or len(set(names)) != len(names):
        return f"the symbol operands are {origins(v, o.operands[1:])}"
    a = call_of(o.attributes.get("shape_expressions"), "AffineMapAttr.get")
    m = call_of(a[0][0], "AffineMap.get") if a else None
    if m is None:
        return f"no affine map: {o}"
    nd, ns, es = m[0][0], m[0][1], seq(m[0][2])
    if nd != K(0) or ns != K(len(names)):
        return f"an affine map of {show(nd)} dimensions and {show(ns)} symbols for {len(names)} symbol operands"
    if es is None or len(es) != len(shape):
        return f"{show(es)} for a tensor of rank {len(shape)}"
    for i, (e, d) in enumerate(zip(es, shape)):
        for pt in POINTS:
            env = {("s", k): pt[n] for k, n in enumerate(names)}
            exp = X.value(d, pt) if isinstance(d, T) else d
            try:
                got = affine(e, env)
            except KeyError as ex:
                return f"extent {i} reads symbol {ex} of {len(names)}"
            if got != exp:
                return f"extent {i} is {exp} when {', '.join(f'{n}={pt[n]}' for n in names)}; the emitted expression gives {got}"
    return None


def expressions(ctx):
    """Shapes of symbolic and static extents."""
    shapes = {n: (lambda X, e=e: [[3, e(X)]]) for n, e in CATALOGUE.items()}
    shapes["several extents"] = lambda X: [[X.sym("s2"), 4, X.sym("s0"), X.add(X.sym("s0"), X.mul(K(2), X.sym("s2"))), 1]]
    shapes["several tensors"] = lambda X: [[X.sym("s1")], [4, 5], [X.sym("s2"), X.sym("s1")], [X.mul(X.sym("s10"), K(2)), X.sym("s9"), X.sym("s2")]]
    shapes["ten and nine"] = lambda X: [[X.sym("s10"), X.sym("s9"), X.sym("s2")]]
    calls = {"several tensors": lambda X: [[X.mul(X.sym("s1"), K(2)), 3], [7], [X.sym("s9"), X.sym("s1")]]}
    for how in ("import_program", "import_frozen_program"):
        for cons, sh in shapes.items():
            w, X, dims, ps = program(ctx, cons, sh, plain(*NAMES), how, extra=calls.get(cons))

            def pred(p):
                v = View(p)
                syms = symbols(v)
                binds = emitted(v, "torch.bind_symbolic_shape")
                vals = v.returned()
                want = [(vals[i], s) for i, s in enumerate(dims) if any(isinstance(d, T) for d in s)]
                if len(binds) != len(want):
                    return f"{len(binds)} shapes are stated for {len(want)} tensors with symbolic extents"
                left = list(binds)
                for val, s in want:
                    o = next((b for b in left if b.operands and b.operands[0] == val), None)
                    if o is None:
                        return f"the shape of {origin(v, val)} is not stated"
                    left.remove(o)
                    m = check_bind(v, o, val, s, X, syms)
                    if m:
                        return m
                return None

            decide(ctx, "shape", f"{cons}, {how}", ps, pred)


def reject(ctx):
    """Expressions that are not semi-affine."""
    cases = {
        "s0**s1": lambda X: X.pow(X.sym("s0"), X.sym("s1")),
        "s0**-1": lambda X: X.pow(X.sym("s0"), K(-1)),
        "FloorDiv": lambda X: X.other("torch.utils._sympy.functions.FloorDiv", X.sym("s0"), K(2)),
        "Max": lambda X: X.other("torch.utils._sympy.functions.Max", X.sym("s0"), K(2)),
        "s0/2": lambda X: X.mul(X.rational(1, 2), X.sym("s0")),
        "ceiling": lambda X: X.other("sympy.ceiling", X.sym("s0")),
    }
    for cons, e in cases.items():
        w, X, dims, ps = program(ctx, cons, lambda X: [[e(X), 3]], plain("s0", "s1"))

        def pred(p):  # support for more expressions is fine when it is right
            return f"{cons} is accepted: {[show(o.attributes.get('shape_expressions')) for o in emitted(View(p), 'torch.bind_symbolic_shape')]}"

        decide(ctx, "reject", cons, ps, pred, may_raise=REJ)
    w, X, dims, ps = program(ctx, "symbol without a range", lambda X: [[X.sym("s7"), 3]], plain("s0"))
    decide(ctx, "reject", "symbol without a range", ps, lambda p: None, must_raise=REJ)


def optional(ctx):
    """Without the option, no symbolic operation is emitted; static programs have none either."""
    for flag, sh, cons in ((False, lambda X: [[X.sym("s0"), 3]], "option off"), (True, lambda X: [[4, 3]], "static program")):
        for how in ("import_program", "import_frozen_program"):
            w, X, dims, ps = program(ctx, cons, sh, plain("s0") if not flag else (lambda w, X: {}), how, flag=flag)
            decide(ctx, "option", f"{cons}, {how}", ps,
                   lambda p: None if not [o for o in View(p).ops if "symbolic" in o.name] else f"emits {View(p).ops}")


def history(ctx):
    """The symbols of one program are not those of the next."""
    for first in ("symbolic", "static"):
        for second in ("symbolic", "static"):
            w = World()
            X = Exprs(w)
            progs = []
            for i, kind in enumerate((first, second)):
                P = Prog(w)
                s = f"s{i}"
                d = dim(w, X, X.sym(s), f"p{i}.d0") if kind == "symbolic" else K(4)
                x = w.node(f"x{i}", "placeholder", K(f"x{i}"), val=w.fake(f"x{i}.val", [d, 3], symbolic=TRUE if kind == "symbolic" else FALSE),
                           meta=[(K("tensor_meta"), w.tensor_meta(f"x{i}.tm", [d, K(3)]))])
                P.inp("USER_INPUT", x)
                P.out("USER_OUTPUT", x)
                P.nodes.append(w.output(x))
                g = P.build()
                # rename: build() names its objects alike
                ren = w.obj(f"prog{i}", "torch.export.ExportedProgram")
                for a in ("graph", "graph_signature", "state_dict", "constants", "graph_module"):
                    w.attrs[(ren, a)] = w.attrs[(g, a)]
                gi = w.obj(f"graph{i}", "torch.fx.Graph", nodes=Lst(list(P.nodes)))
                ri = w.obj(f"root{i}", "torch.fx.GraphModule")
                w.call(ri, "named_children", Lst([]))
                w.attrs[(gi, "owning_module")] = ri
                si = w.obj(f"sig{i}", SIG + "ExportGraphSignature", input_specs=Lst(P.inputs), output_specs=Lst(P.outputs), user_inputs_to_mutate=Dct(),
                           inputs_to_parameters=Dct(), inputs_to_buffers=Dct(), inputs_to_lifted_tensor_constants=Dct())
                for a, b in (("graph", gi), ("graph_signature", si), ("graph_module", ri), ("range_constraints", Dct([(X.sym(s), vrange(w, f"r{i}", X.integer(2), X.integer(9)))] if kind == "symbolic" else []))):
                    w.attrs[(ren, a)] = b
                progs.append(ren)
            p = ctx.project
            p.load(M)

            def entry(it):
                im = importer(it, p)
                for i, g in enumerate(progs):
                    method(it, im, "import_program", [g], {"import_symbolic_shape_expressions": TRUE, "func_name": K(f"f{i}")})

            cons = f"{first} then {second}"
            ps = ctx.explore(f"import_program[{cons}]", entry, **w.cfg())

            def pred(p):
                v = View(p)
                if len(v.funcs) != 2:
                    return f"{len(v.funcs)} functions"
                for i, kind in enumerate((first, second)):
                    lo = v.funcs[i].idx
                    hi = v.funcs[i + 1].idx if i + 1 < len(v.funcs) else 10**9
                    got = [attr_str(o.attributes["symbol_name"]) for o in emitted(v, "torch.symbolic_int") if lo < o.idx < hi]
                    if got != ([f"s{i}"] if kind == "symbolic" else []):
                        return f"function {i} declares the symbols {got}; its program has {'s' + str(i) if kind == 'symbolic' else 'none'}"
                return None

            decide(ctx, "history", cons, ps, pred)


def run(ctx):
    ctx.rule("bound", "a shape symbol is declared once, in the range of integers the program allows")
    ctx.rule("shape", "each extent of a tensor with symbolic shape is stated by an expression of the same value")
    ctx.rule("reject", "expressions without an affine form and symbols without a range are errors")
    ctx.rule("option", "symbolic operations are emitted only for symbolic programs and on request")
    ctx.rule("history", "a function declares the symbols of its own program")
    for g in (bounds, expressions, reject, optional, history):
        ctx.group(g)
    ctx.floor("bound", 20)
    ctx.floor("shape", 30)
