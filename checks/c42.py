"""C42: a rewrite reports that it happened exactly when it did.

Every function of lib/ that takes a PatternRewriter, every handler of an ONNX operator and
every canonicalization is walked path by path (sa/rewrites.py): what it has replaced or erased
so far, and what it then returns."""

from sa import rewrites

WHAT = {
    "failure": "returns failure on a path that has replaced or erased {w}: the driver takes the program for unchanged, and tries further patterns on the operation that is gone",
    "success": "returns success on a path that has neither replaced, erased nor modified anything: the driver tries it again without end, or takes the operation for converted",
    "twice": "replaces or erases {w} on a path that has done so before",
    "after": "uses {w} on a path that has replaced or erased it: the operation is freed by then",
}


def one(ctx, rel, name, own, fn, rw):
    found = {}
    seen = None
    for once in (False, True):
        r = rewrites.Rewrite(fn, rw, once)
        r.run()
        seen = r.seen
        for k, line, w in r.found:
            if (k == "success") == once and (own or k != "success"):
                found.setdefault((k, w), line)
    for k in WHAT:
        hits = sorted((w, line) for (x, w), line in found.items() if x == k)
        if not hits:
            n = {"failure": seen["failure"], "success": seen["success"] if own else 0}.get(k, seen["replace"])
            if n:
                ctx.ob(True, k, name, f"{rel}:{fn.line}", "")
                ctx.paths += n
        for w, line in hits:
            ctx.bad(k, name, f"{rel}:{line}", WHAT[k].format(w=w.replace("~", "")))


def run(ctx):
    ctx.rule("failure", "no path replaces or erases an operation and returns failure")
    ctx.rule("success", "no path of a pattern returns success without a change")
    ctx.rule("twice", "no path replaces or erases an operation twice")
    ctx.rule("after", "no path uses an operation that a PatternRewriter has freed")
    rs = rewrites.rewrites(ctx.repo)
    for rel, name, own, fn, rw in rs:
        ctx.group(one, rel, name, own, fn, rw)
    ctx.notes.append(f"{len(rs)} functions with a rewriter, {sum(x[2] for x in rs)} of them patterns, handlers or canonicalizations; {ctx.paths} ways out and replacements")
    ctx.floor("failure", 450)
    ctx.floor("success", 450)
    ctx.floor("twice", 450)
    ctx.floor("after", 450)
