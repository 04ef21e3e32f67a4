"""C14: references to functions resolve to the function of the graph they mean."""

from sa.fxworld import *
from sa.values import Obj, SetV
from checks.c05 import emitted, op_name
from checks.c08 import hop, item
from checks.c12 import callee, call_region


class Tree:
    """Graph modules with loops: module name -> the loops it contains."""

    def __init__(self, w):
        self.w = w
        self.made = {}

    def leaf(self, key, kind):
        """A function of one loop; its operation is named after `key`."""
        w = self.w
        if key in self.made:
            return self.made[key]
        x = w.tensor_node(f"{key}.x", [3])
        cond = kind == "cond"
        y = w.tensor_node(f"{key}.y", [] if cond else [3], "torch.bool" if cond else "torch.float32", op="call_function",
                          target=w.overload("aten::" + key, [("p0", w.jit("TensorType"))]), args=[x])
        m = w.obj("mod:" + key, "torch.fx.GraphModule")
        w.call(m, "named_children", Lst([]))
        w.attrs[(m, "graph")] = w.graph([x, y, w.output(y, name_=key + ".out")], key + ".graph", owning=m)
        self.made[key] = m
        return m

    def loops(self, m, x, specs, key):
        """Loops over x within module m; specs: [((attribute, module), (attribute, module))]; returns nodes and the last value."""
        w = self.w
        nodes, prev = [], x
        for j, ((ca, cm), (ba, bm)) in enumerate(specs):
            cg, bg = w.node(f"{key}.cg{j}", "get_attr", K(ca)), w.node(f"{key}.bg{j}", "get_attr", K(ba))
            lo = w.node(f"{key}.lo{j}", "call_function", hop(w, "while_loop"), [cg, bg, tup(prev), tup()], val=tup(w.fake(f"{key}.v{j}", [3])))
            g = item(w, f"{key}.g{j}", lo, 0, [3])
            nodes += [cg, bg, lo, g]
            prev = g
            for a, mod in ((ca, cm), (ba, bm)):
                w.attrs[(m, a)] = mod
        kids, seen = [], []
        for pair in specs:
            for a, mod in pair:
                if mod not in seen:  # named_children() names every module once
                    kids.append((a, mod))
                    seen.append(mod)
        w.call(m, "named_children", Lst([tup(K(a), mod) for a, mod in kids]))
        return nodes, prev

    def body(self, key, specs):
        """A body function that contains loops itself."""
        w = self.w
        x = w.tensor_node(f"{key}.x", [3])
        m = w.obj("mod:" + key, "torch.fx.GraphModule")
        y = w.tensor_node(f"{key}.y", [3], op="call_function", target=w.overload("aten::" + key, [("p0", w.jit("TensorType"))]), args=[x])
        nodes, last = self.loops(m, y, specs, key)
        ns = [x, y] + nodes + [w.output(last, name_=key + ".out")]
        w.attrs[(m, "graph")] = w.graph(ns, key + ".graph", owning=m)
        self.made[key] = m
        return m

    def program(self, key, specs):
        """An exported program whose main function contains these loops."""
        w = self.w
        P = Prog(w)
        x = w.tensor_node(f"{key}.x", [3])
        P.inp("USER_INPUT", x)
        root = obj("root" + key)
        nodes, last = self.loops(root, x, specs, key)
        P.nodes += nodes
        P.out("USER_OUTPUT", last)
        P.nodes.append(w.output(last, name_=key + ".out"))
        kids = w.attrs[(root, "named_children()")]
        pr = P.build(tag=key)
        w.attrs[(root, "named_children()")] = kids
        w.attrs[(root, "graph")] = w.attrs[(pr, "graph")]
        return pr, root


def marker(f):
    """What a function holds: the operation its graph is named after."""
    r = [op_name(o).removeprefix("torch.aten.") for o in f.ops if op_name(o).startswith("torch.aten.") and op_name(o) != "torch.aten.Bool.Tensor"]
    return r[0] if r else None


def references(v, existing, want):
    """Compare the loops of every function with `want`: {function marker or name: [(cond marker, body marker)]}."""
    fs = functions(v, existing)
    by = {}
    for f in fs:
        if f.name is None:
            return f"a function is not entered into the symbol table"
        if f.name in by:
            return f"two functions are called {f.name}"
        by[f.name] = f
    clash = [n for n in by if n in existing]
    if clash:
        return f"the functions {clash} exist already"
    for key, loops in want.items():
        # a graph that is imported more than once has several functions
        owners = [f for f in fs if f.name == key[1:]] if key.startswith("@") else [f for f in fs if marker(f) == key]
        if not owners:
            return f"no function holds the graph {key}"
        for f in owners:
            los = [o for o in f.ops if o.name == "torch.prim.Loop"]
            if len(los) != len(loops):
                return f"{f.name} has {len(los)} loops, its graph has {len(loops)}"
            firsts = [o for o in f.ops if o.name == "func.call"]
            for j, (c, b) in enumerate(loops):
                blk = [x for x in v.blocks if call_region(x) == (los[j].idx, "region0")]
                inner = [o for o in v.ops if block_of(o.ctx) == obj(f"block{blk[0].idx}") and o.name == "func.call"]
                got = [callee(o) for o in [firsts[j]] + inner]
                for n, k in zip(got, (c, b, c)):
                    if n in existing:
                        return f"{f.name} refers to {n}, a function the module had before; it means the graph {k}"
                    if n not in by:
                        return f"{f.name} refers to {n}, which does not exist"
                    if marker(by[n]) != k:
                        return f"{f.name} refers to {n}, which holds the graph {marker(by[n])}; it means the graph {k}"
    return None


def nesting(ctx):
    """Loops in loops, with equal attribute names, shared functions and several loops per function."""
    def simple(t):
        return [(("c", t.leaf("c0", "cond")), ("b", t.leaf("b0", "body")))], {"@main": [("c0", "b0")]}

    def nested(t):
        inner = [(("cond_graph_0", t.leaf("ci", "cond")), ("body_graph_0", t.leaf("bi", "body")))]
        return [(("cond_graph_0", t.leaf("co", "cond")), ("body_graph_0", t.body("bo", inner)))], {"@main": [("co", "bo")], "bo": [("ci", "bi")]}

    def twice(t):
        bs = []
        for k in "xy":
            inner = [(("cond_graph_0", t.leaf("ci" + k, "cond")), ("body_graph_0", t.leaf("bi" + k, "body")))]
            bs.append(t.body("bo" + k, inner))
        return ([(("cond_graph_0", t.leaf("c0", "cond")), ("body_graph_0", bs[0])), (("cond_graph_1", t.leaf("c1", "cond")), ("body_graph_1", bs[1]))],
                {"@main": [("c0", "box"), ("c1", "boy")], "box": [("cix", "bix")], "boy": [("ciy", "biy")]})

    def deep(t):
        l3 = [(("c", t.leaf("c3", "cond")), ("b", t.leaf("b3", "body")))]
        l2 = [(("c", t.leaf("c2", "cond")), ("b", t.body("b2", l3)))]
        return [(("c", t.leaf("c1", "cond")), ("b", t.body("b1", l2)))], {"@main": [("c1", "b1")], "b1": [("c2", "b2")], "b2": [("c3", "b3")]}

    def shared(t):
        return ([(("c", t.leaf("c0", "cond")), ("b", t.leaf("b0", "body"))), (("c2", t.leaf("c0", "cond")), ("b2", t.leaf("b1", "body")))],
                {"@main": [("c0", "b0"), ("c0", "b1")]})

    def crossed(t):
        inner = [(("c", t.leaf("ci", "cond")), ("b", t.leaf("b0", "body")))]
        return ([(("c", t.leaf("c0", "cond")), ("b", t.leaf("b0", "body"))), (("c_0", t.leaf("c1", "cond")), ("b_0", t.body("b1", inner)))],
                {"@main": [("c0", "b0"), ("c1", "b1")], "b1": [("ci", "b0")]})

    def suffixed(t):
        inner = [(("c", t.leaf("ci", "cond")), ("b", t.leaf("bi", "body")))]
        return ([(("c", t.leaf("c0", "cond")), ("c_0", t.leaf("b0", "body"))), (("b", t.leaf("c1", "cond")), ("b_1", t.body("b1", inner)))],
                {"@main": [("c0", "b0"), ("c1", "b1")], "b1": [("ci", "bi")]})

    for name, mk in (("one loop", simple), ("a loop in a loop", nested), ("two loops with loops inside", twice), ("three levels", deep), ("a shared condition", shared),
                     ("a shared body at two levels", crossed), ("names that look made up", suffixed)):
        for how in ("import_program", "import_frozen_program", "import_graph_module"):
            for existing in ((), ("c", "b", "cond_graph_0", "body_graph_0")):
                w = World()
                w.existing = list(existing)
                t = Tree(w)
                specs, want = mk(t)
                prog, root = t.program("main", specs)
                p = ctx.project
                p.load(M)
                arg = root if how == "import_graph_module" else prog
                cons = f"{name}, {how}" + (", into a module that has functions of these names" if existing else "")
                ps = ctx.explore(f"{how}[{cons}]", lambda it: method(it, importer(it, p), how, [arg]), **w.cfg(max_rec=5, max_depth=80))
                decide(ctx, "reference", cons, ps, lambda p: references(View(p), existing, want))


def two_programs(ctx):
    """Two programs imported one after the other into one module."""
    for same in (False, True):
        for how in ("import_program", "import_graph_module"):
            w = World()
            t = Tree(w)
            s1 = [(("c", t.leaf("cA", "cond")), ("b", t.leaf("bA", "body")))]
            s2 = [(("c", t.leaf("cB", "cond")), ("b", t.leaf("bB", "body")))]
            p1, r1 = t.program("first", s1)
            p2, r2 = t.program("second", s2)
            p = ctx.project
            p.load(M)
            arg = lambda pr, rt: rt if how == "import_graph_module" else pr

            def entry(it):
                im = importer(it, p)
                method(it, im, how, [arg(p1, r1)], {"func_name": K("first")})
                if same:
                    # the first program is garbage; its ids are free unless something still holds the modules
                    for a, b in (("cA", "cB"), ("bA", "bB"), (r1, r2)):
                        x, y = (obj("mod:" + a), obj("mod:" + b)) if isinstance(a, str) else (a, b)
                        if not held(it, im, x):
                            it.ids[y] = T("id", x)
                method(it, im, how, [arg(p2, r2)], {"func_name": K("second")})

            cons = f"two programs, {how}" + (", the second allocated where the first was" if same else "")
            ps = ctx.explore(f"{how}[{cons}]", entry, **w.cfg(max_rec=5, max_depth=80))
            decide(ctx, "reference", cons, ps, lambda p: references(View(p), (), {"@first": [("cA", "bA")], "@second": [("cB", "bB")]}))


def held(it, root, what):
    """Is the object reachable from `root` by strong references?"""
    todo, seen = [root], set()
    what = freeze(what)
    while todo:
        x = todo.pop()
        x = it.resolve(x)
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Obj):
            todo += list(x.attrs.values())
        elif isinstance(x, (Lst, SetV)):
            todo += list(x.items)
        elif isinstance(x, Dct):
            todo += [y for kv in x.pairs for y in kv]
        elif isinstance(x, T):
            if x == what:
                return True
            if x.op in ("list", "tuple", "set", "dict"):
                todo += [y for y in x.args if isinstance(y, T)]
    return False


def naming(ctx):
    """The requested names and visibilities."""
    for vis in (NONE, K("private"), K("public"), K("nested")):
        for name in ("main", "forward"):
            for how in ("import_program", "import_frozen_program", "import_graph_module"):
                w = World()
                t = Tree(w)
                prog, root = t.program("main", [(("c", t.leaf("c0", "cond")), ("b", t.leaf("b0", "body")))])
                p = ctx.project
                p.load(M)
                arg = root if how == "import_graph_module" else prog
                kw = {"func_name": K(name), "func_visibility": vis}
                cons = f"{how} as {name}, visibility {show(vis)}"
                ps = ctx.explore(cons, lambda it: method(it, importer(it, p), how, [arg], kw), **w.cfg(max_depth=80))

                def pred(p):
                    v = View(p)
                    fs = functions(v)
                    main = [f for f in fs if f.name == name]
                    if len(main) != 1:
                        return f"the functions are {[f.name for f in fs]}"
                    if main[0].visibility != vis.v and not (vis == NONE and main[0].visibility == "public"):
                        return f"{name} has the visibility {main[0].visibility}"
                    bad = [f.name for f in fs if f is not main[0] and f.visibility != "private"]
                    if bad:
                        return f"{bad} are not private"
                    if p.value is not None and freeze(p.value) != main[0].obj:
                        return f"returns {show(freeze(p.value))}"
                    return None

                decide(ctx, "name", cons, ps, pred)


def run(ctx):
    ctx.rule("reference", "every reference to a function names the one that holds the graph of the referenced module")
    ctx.rule("name", "the imported function has the requested name and visibility; helper functions are private")
    for g in (nesting, two_programs, naming):
        ctx.group(g)
    ctx.floor("reference", 40)
    ctx.floor("name", 20)
