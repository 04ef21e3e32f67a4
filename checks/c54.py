"""C54: encodings of sparse tensors describe PyTorch's storage."""

import re

from sa.fxworld import *
from checks.c05 import emitted, REJ

LAYOUTS = ("sparse_coo", "sparse_csr", "sparse_csc", "sparse_bsr", "sparse_bsc")


def expected(layout, batch, sparse, dense, block):
    """Levels, as (expression, kind), in the order in which PyTorch stores them."""
    d = lambda i: f"d{i}"
    r, c = batch, batch + 1
    lv = [(d(i), "batch") for i in range(batch)]
    if layout == "sparse_coo":
        lv.append((d(batch), "compressed(nonunique)"))
        lv += [(d(i), "singleton(nonunique,soa)") for i in range(batch + 1, batch + sparse - 1)]
        lv.append((d(batch + sparse - 1), "singleton(soa)"))
    elif layout == "sparse_csr":
        lv += [(d(r), "dense"), (d(c), "compressed")]
    elif layout == "sparse_csc":
        lv += [(d(c), "dense"), (d(r), "compressed")]
    else:
        m, n = block
        br, bc = f"d{r} floordiv {m}", f"d{c} floordiv {n}"
        lv += [(br, "dense"), (bc, "compressed")] if layout == "sparse_bsr" else [(bc, "dense"), (br, "compressed")]
        # values() of either layout has the shape (..., blocks, m, n)
        lv += [(f"d{r} mod {m}", "dense"), (f"d{c} mod {n}", "dense")]
    return lv + [(d(i), "dense") for i in range(batch + sparse, batch + sparse + dense)]


def parse(text):
    """(dims, levels, position width, coordinate width) of an encoding's assembly."""
    m = re.fullmatch(r"#sparse_tensor\.encoding<\{(.*)\}>", text.strip())
    if not m:
        return None
    body = m.group(1)
    mm = re.search(r"map=\((.*?)\)->\((.*)\),posWidth=(\d+),crdWidth=(\d+)$", re.sub(r"\s*([=(),<>{}:]|->)\s*", r"\1", body))
    if not mm:
        return None
    from sa.torchfacts import split_top

    lv = []
    for x in split_top(mm.group(2)):
        e, _, k = x.partition(":")
        lv.append((re.sub(r"\s+", " ", e.strip()), k.strip()))
    return mm.group(1).split(","), lv, int(mm.group(3)), int(mm.group(4))


def sparse(w, layout, batch, sp, dense, idx, block, dtype="torch.float32", name="x.val"):
    nd = batch + sp + dense
    shape = [6 + 2 * i for i in range(nd)]
    blocked = layout in ("sparse_bsr", "sparse_bsc")
    vshape = shape[:batch] + [9] + (list(block) if blocked else []) + shape[batch + sp:]
    v = w.obj(name, FAKE, dtype=Q(dtype), layout=Q("torch." + layout), shape=tup(*map(K, shape)), ndim=K(nd), _has_symbolic_sizes_strides=FALSE)
    w.call(v, "size", w.attrs[(v, "shape")])
    w.call(v, "dim", K(nd))
    w.call(v, "sparse_dim", K(sp))
    w.call(v, "dense_dim", K(dense))
    w.call(v, "values", w.obj(name + ".values", FAKE, shape=tup(*map(K, vshape)), ndim=K(len(vshape)), dtype=Q(dtype)))
    other = Q("torch.uint8")  # reading the wrong index tensor shows in the widths
    acc = {"sparse_coo": ["_indices", "indices"], "sparse_csr": ["col_indices", "crow_indices"], "sparse_bsr": ["col_indices", "crow_indices"],
           "sparse_csc": ["row_indices", "ccol_indices"], "sparse_bsc": ["row_indices", "ccol_indices"]}[layout]
    for a in ("_indices", "indices", "col_indices", "crow_indices", "row_indices", "ccol_indices"):
        if a in acc:
            w.call(v, a, w.obj(f"{name}.{a}", FAKE, dtype=Q("torch." + idx)))
        else:
            w.attrs[(v, a)] = ABSENT
    return v, shape


def cases():
    for layout in LAYOUTS:
        for batch in ((0,) if layout == "sparse_coo" else (0, 1, 2)):
            for sp in ((2, 3, 4) if layout == "sparse_coo" else (2,)):
                for dense in (0, 1, 2):
                    for idx in ("int64", "int32"):
                        yield layout, batch, sp, dense, idx


def run(ctx):
    ctx.rule("encoding", "the levels and index widths of a sparse type are those of the tensor's storage")
    ctx.rule("several", "sparse tensors of one shape, dtype and layout in one program each keep their own encoding")
    ctx.rule("dense", "a dense tensor has no encoding, also next to a sparse one of the same shape")
    ctx.group(encodings)
    ctx.group(mixture)
    ctx.group(several)
    ctx.floor("encoding", 60)
    ctx.floor("several", 60)


def check_type(t, layout, batch, sp, dense, idx, block, shape, stem="torch.vtensor", elem="f32"):
    s = t.args[1] if isinstance(t, T) and t.op == "obj" else t
    s = s.v if isinstance(s, K) else show(s)
    m = re.fullmatch(r"!" + re.escape(stem) + r"<\[([^\]]*)\],([^,]*),(.*)>", s)
    if not m:
        return f"the type is {s}"
    if m.group(1).split(",") != [str(x) for x in shape] or m.group(2) != elem:
        return f"the type {s} has another shape or element type than the tensor"
    enc = parse(m.group(3))
    if enc is None:
        return f"the encoding {m.group(3)} is not understood"
    nd = batch + sp + dense
    if enc[0] != [f"d{i}" for i in range(nd)]:
        return f"the encoding is a map over {enc[0]} for a tensor of rank {nd}"
    want = expected(layout, batch, sp, dense, block)
    if enc[1] != want:
        return f"the levels are {enc[1]}, the storage is {want}"
    bits = int(idx[3:])
    return None if enc[2:] == (bits, bits) else f"positions of {enc[2]} and coordinates of {enc[3]} bits; the indices have {bits}"


def encodings(ctx):
    for layout, batch, sp, dense, idx in cases():
        for block in ((2, 3), (3, 2)) if layout in ("sparse_bsr", "sparse_bsc") else (None,):
            w = World()
            w.opaque = {"rewrite_as_strided"}
            v, shape = sparse(w, layout, batch, sp, dense, idx, block)
            x = w.node("x", "placeholder", K("x"), val=v, meta=[(K("tensor_meta"), w.tensor_meta("x.tm", shape))])
            cons = f"{layout} batch {batch} sparse {sp} dense {dense} {idx}" + (f" blocks {block}" if block else "")
            ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", [x, w.output(x)])
            decide(ctx, "encoding", cons, ps, lambda p: check_type(View(p).ftype()[0][0], layout, batch, sp, dense, idx, block, shape))


def mixture(ctx):
    for order in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
        w = World()
        w.opaque = {"rewrite_as_strided"}
        a, shape = sparse(w, "sparse_csr", 0, 2, 0, "int64", None, name="a.val")
        b, _ = sparse(w, "sparse_csc", 0, 2, 0, "int64", None, name="b.val")
        c = w.fake("c.val", shape)
        spec = [(a, "sparse_csr"), (b, "sparse_csc"), (c, None)]
        xs = [w.node(f"x{i}", "placeholder", K(f"x{i}"), val=spec[i][0], meta=[(K("tensor_meta"), w.tensor_meta(f"x{i}.tm", shape))]) for i in order]
        ps = import_graph(ctx, w, f"import_stateless_graph[layouts {order}]", xs + [w.output(*xs)])

        def pred(p):
            ft = View(p).ftype()
            for k, i in enumerate(order):
                for t in (ft[0][k], ft[1][k]):
                    m = check_type(t, spec[i][1], 0, 2, 0, "int64", None, shape) if spec[i][1] else (None if t == vt(shape) else f"a dense tensor has the type {show(t)}")
                    if m:
                        return m
            return None

        decide(ctx, "dense", f"layouts in the order {order}", ps, pred)


def alike():
    """Pairs of sparse tensors with the same extents that differ in one respect."""
    for layout in LAYOUTS:
        blocked = layout in ("sparse_bsr", "sparse_bsc")
        b0, b1 = ((2, 3), (3, 2)) if blocked else (None, None)
        yield layout, "index widths", (0, 2, 0, "int64", b0), (0, 2, 0, "int32", b0)
        yield layout, "nothing", (0, 2, 0, "int64", b0), (0, 2, 0, "int64", b0)
        if blocked:
            yield layout, "blocks", (0, 2, 0, "int64", b0), (0, 2, 0, "int64", b1)
        if layout == "sparse_coo":
            yield layout, "sparse and dense", (0, 2, 1, "int64", None), (0, 3, 0, "int64", None)
        else:
            yield layout, "batch and dense", (1, 2, 0, "int64", b0), (0, 2, 1, "int64", b0)
    for a in LAYOUTS:
        for b in LAYOUTS:
            if a != b:
                blk = lambda l: (2, 3) if l in ("sparse_bsr", "sparse_bsc") else None
                yield (a, b), "layouts", (0, 2, 0, "int64", blk(a)), (0, 2, 0, "int64", blk(b))


def several(ctx):
    for layout, what, one, two in alike():
        ls = layout if isinstance(layout, tuple) else (layout, layout)
        for order in ((0, 1), (1, 0)):
            for where in ("arguments", "results"):
                w = World()
                w.opaque = {"rewrite_as_strided"}
                spec, nodes = [], []
                ovl = w.overload("aten::foo", [], overload="bar")
                for i in order:
                    batch, sp, dense, idx, block = (one, two)[i]
                    v, shape = sparse(w, ls[i], batch, sp, dense, idx, block, name=f"x{i}.val")
                    spec.append((ls[i], batch, sp, dense, idx, block, shape))
                    tm = [(K("tensor_meta"), w.tensor_meta(f"x{i}.tm", shape))]
                    nodes.append(w.node(f"x{i}", "placeholder", K(f"x{i}"), val=v, meta=tm) if where == "arguments" else w.node(f"x{i}", "call_function", ovl, val=v, meta=tm))
                cons = f"{'/'.join(ls)}, other {what}, {where} in the order {order}"
                ps = import_graph(ctx, w, f"import_stateless_graph[{cons}]", nodes + [w.output(*nodes)])

                def pred(p):
                    v = View(p)
                    ft = v.ftype()
                    for k, s in enumerate(spec):
                        own = ft[0][k] if where == "arguments" else emitted(v, "torch.aten.foo.bar")[k].results[0]
                        for t in (own, ft[1][k]):
                            m = check_type(t, *s)
                            if m:
                                return f"tensor {k}: {m}"
                    return None

                decide(ctx, "several", cons, ps, pred)
