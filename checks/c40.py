"""C40: ONNX operators become the torch operators that compute them.

The handlers of TorchOnnxToTorch are interpreted (sa/onnxrun.py) for each of the recorded
uses of their operators (sa/onnxcases.py): operand types, result types, attributes. Each
ends in a term of torch operators over the operands, or declines. The term is compared
with the recorded one, which was run in PyTorch against ONNX's reference evaluator, or
read by hand where neither can run it (tools/onnxterms.py)."""

import hashlib
import json
import os

from checks.c39 import DIR, Handlers
from sa import onnxrun as R
from sa.interp import AnalysisError
from sa.onnxcases import CASES
from sa.onnxterm import first_difference, form, norm, parse

TERMS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "onnxterms.json")


def digest(s):
    return hashlib.sha256(s.encode()).hexdigest()[:10]


def short(s, n=160):
    return s if len(s) <= n else s[:n] + "…"


def where_differs(want, got):
    a, b = parse(want), parse(got)
    if len(a) != len(b):
        return f"{len(b)} results for {len(a)}"
    for k, (x, y) in enumerate(zip(a, b)):
        d = first_difference(norm(x), norm(y))
        if d:
            return (f"in result {k}, " if len(a) > 1 else "") + f"has {short(d[1])} where {short(d[0])} computes it"
    return "differs"


def one(ctx, fns, T, name, since, hs):
    """hs: the handlers of the operator from this opset on, in the order they are tried."""
    for c in CASES.get(name, []):
        key = f"{name}@{since} {c}"
        want = T.get(key)
        if want is None:
            ctx.undecided.append(f"onnx.{key}: no recorded term")
            continue
        at = f"{DIR}{hs[0][0]}.cpp:{hs[0][1]}"
        who = f"onnx.{name} from opset {since}, {c}"
        try:
            for path, line, binder, body in hs:
                at = f"{DIR}{path}.cpp:{line}"
                got = R.outcome(fns, (binder, body, [binder, "rewriter"]), *R.parse_case(c))
                if got != "declined":
                    break
        except AnalysisError as e:
            ctx.undecided.append(f"onnx.{key}: {e}")
            continue
        except (IndexError, ZeroDivisionError) as e:
            ctx.bad("crash", who, at, f"the conversion fails on its own terms: {type(e).__name__}: {e}")
            continue
        got = form(got)
        right = [want["term"]] + want.get("or", [])
        if want["term"] == "declined" and "or" not in want and got != "declined" and not key.startswith(HANDMADE):
            ctx.undecided.append(f"onnx.{key}: is now converted, without a recorded term")
            continue
        if got == "declined":
            ctx.ob("declined" in right, "term", who, at, "is not converted any more")
            continue
        if got in right:
            ctx.ob(True, "term", who, at, "")
            continue
        if want["term"] == "declined":
            what = "no combination of the operators it becomes computes it"
        else:
            what = where_differs(want["term"], got)
        ctx.bad("term", f"{who} as {digest(got)}", at, f"becomes {short(got, 300)}: {what}")


# recorded as "declined" because the conversion of the tree is wrong
HANDMADE = ("RoiAlign@16 1,2,8,9 3,4 3:si64 -> 3,2,1,1 | mode=max", "Unique@11 6 -> -1 -1:si64 -1:si64 -1:si64 | sorted=0")


def terms(ctx):
    h = Handlers(ctx.repo)
    fns = R.functions_of(ctx.repo, h.fns)
    T = json.load(open(TERMS))
    groups = {}
    for name, since, path, line, binder, body, src in h.resolve():
        groups.setdefault((name, since), []).append((path, line, binder, body))
    for (name, since), hs in groups.items():
        ctx.group(one, fns, T, name, since, hs)
    gone = sorted({k.split("@")[0] for k in T} - {n for n, _ in groups})
    ctx.ob(not gone, "registered", "the handlers of " + DIR, DIR + "Patterns.cpp", f"ONNX's {', '.join(gone)} are not converted any more")
    ran = sum(1 for v in T.values() if v.get("run"))
    ctx.notes.append(f"{len(T)} recorded cases: {ran} run in PyTorch against ONNX's reference evaluator, {sum(v['term'] == 'declined' for v in T.values())} that are not converted, the others read by hand")


def run(ctx):
    ctx.rule("term", "a handler replaces its operator by the torch operators that compute it from the operands")
    ctx.rule("registered", "the operators are converted")
    ctx.rule("crash", "a handler addresses only elements that exist")
    ctx.group(terms)
    ctx.floor("term", 400)
