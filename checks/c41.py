"""C41: composite torch operators are decomposed into operators that compute them.

The patterns of DecomposeComplexOps are interpreted (sa/decomp.py) for each of the recorded
uses of their operators (sa/decompcases.json): operand types, constants, result types. Each
ends in a term of torch operators over the operands, or declines. The term is compared with
the recorded one, which was run in PyTorch against the operator itself (tools/decompterms.py)
for the sizes of the case, or read by hand."""

import json
import os

from checks.c40 import digest, short, where_differs
from sa import decomp
from sa.interp import AnalysisError
from sa.onnxterm import form

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = decomp.FILE


def one(ctx, fns, defs, T, name, ps, cases):
    for c in cases:
        key = f"{name} {json.dumps(c)}"
        want = T.get(key)
        if want is None:
            ctx.undecided.append(f"torch.{key}: no recorded term")
            continue
        got, unknown = None, None
        for p in ps:
            at = f"{FILE}:{p[3].line}"
            try:
                o = decomp.outcome(fns, defs, p, *c)
            except AnalysisError as e:
                unknown = e
                continue
            except (IndexError, ZeroDivisionError) as e:
                o = f"crash: {type(e).__name__}: {e}"
            if o != "declined":
                got = o
                break
        who = f"torch.{name} of {json.dumps(c[0])} -> {json.dumps(c[1])}"
        if got is None:
            if unknown:
                ctx.undecided.append(f"torch.{key}: {unknown}")
            else:
                ctx.ob(want["term"] == "declined", "term", who, at, "is not decomposed any more")
            continue
        if got.startswith("crash"):
            ctx.bad("crash", who, at, "the decomposition fails on its own terms: " + got[7:])
            continue
        ctx.ob(True, "crash", who, at, "")
        if want["term"] == "declined":
            ctx.undecided.append(f"torch.{key}: is now decomposed, without a recorded term")
            continue
        got = form(got)
        if got in [want["term"]] + want.get("or", []):
            ctx.ob(True, "term", who, at, "")
        else:
            ctx.bad("term", f"{who} as {digest(got)}", at, f"becomes {short(got, 300)}: {where_differs(want['term'], got)}")


def terms(ctx):
    defs = decomp.definitions(ctx.repo)
    ps, fns = decomp.patterns(ctx.repo)
    C = json.load(open(os.path.join(HERE, "sa", "decompcases.json")))
    T = json.load(open(os.path.join(HERE, "sa", "decompterms.json")))
    of = {}
    for p in ps:
        if p[0] in defs:
            of.setdefault(defs[p[0]][0][6:], []).append(p)
    for name, l in of.items():
        if name in C:
            ctx.group(one, fns, defs, T, name, l, C[name])
    gone = sorted(set(C) - set(of))
    ctx.ob(not gone, "registered", "the patterns of " + FILE, FILE, f"torch.{', '.join(gone)} are not decomposed any more")
    ran = sum(1 for v in T.values() if v.get("run"))
    ctx.notes.append(f"{len(T)} recorded cases of {len(C)} operators: {ran} run in PyTorch against the operator itself, {sum(v['term'] == 'declined' for v in T.values())} that are not decomposed, the others read by hand; {len(set(of) - set(C))} decomposed operators have no case")


def run(ctx):
    ctx.rule("term", "a pattern replaces its operator by the torch operators that compute it from the operands")
    ctx.rule("registered", "the operators are decomposed")
    ctx.rule("crash", "a pattern addresses only elements that exist, and its replacement has the type of the result")
    ctx.group(terms)
    ctx.floor("term", 1500)
