#!/usr/bin/env python3
"""Mutants of the shape functions and their helpers, each judged by the classes of the operators
that reach the mutated function (development aid, not a check).

usage: mutate_shapes.py [--sample N] [--jobs 7] [--suffix 〡shape] [--out F]
"""
import argparse, ast, multiprocessing as mp, os, random, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
sys.dont_write_bytecode = True
import mutate as M
from sa.report import Ctx
from sa import shaperun as R, shapespec as S, project as P, mlirlib, dtyperun as D

FILE = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"


DT = "--dtypes" in sys.argv


def users(tree):
    """function -> operators whose shape function reaches it"""
    calls = {}
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            calls[f.name] = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)}
    out = {}
    for op in D.ops() if DT else S.SPEC:
        seen, todo = set(), [op.replace(".", "〇") + "〡dtype" if DT else R.fname(op)]
        while todo:
            f = todo.pop()
            if f in seen or f not in calls:
                continue
            seen.add(f)
            todo += calls[f]
        for f in seen:
            out.setdefault(f, []).append(op)
    return out


def judge(src, ops, base):
    ctx = Ctx("X", "quick")
    p = R.project(ctx)
    p.texts[R.GEN] = src
    p.mlir = base
    R.library = lambda c: base
    D.library = R.library
    for op in ops:
        ctx.group(D.run_op if DT else R.run_op, op)
        b = [o for o in ctx.violations() if o[0] != "embedded"]
        if b:
            return True, b[0][1]
    return False, f"{len(ctx.obs)} held, {len(ctx.undecided)} undecided"


class NoLib:
    line_of, functions = {}, {}


def worker(q, out):
    threading.stack_size(512 * 1024 * 1024)

    def go():
        src0 = open(os.path.join(M.REPO, FILE), encoding="utf-8").read()

        class L:
            globals = {}

        while True:
            j = q.get()
            if j is None:
                return
            i, line, what, fn, ops = j
            try:
                src = M.mutant(src0, i)
                if src is None:
                    continue
                R.library = lambda c: (NoLib, L)
                t = time.time()
                ok, why = judge(src, ops, (NoLib, L))
                out.put((ok, line, what, fn, why, time.time() - t))
            except Exception as e:
                out.put((None, line, what, fn, repr(e)[:200], 0))

    t = threading.Thread(target=go)
    t.start()
    t.join()
    out.put(None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--dtypes", action="store_true")
    ap.add_argument("--sample", type=int, default=300)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/dev/stdout")
    a = ap.parse_args()
    src = open(os.path.join(M.REPO, FILE), encoding="utf-8").read()
    tree = ast.parse(src)
    us = users(tree)
    spans = [(f.body[0].lineno, f.end_lineno, f.name) for f in tree.body if isinstance(f, ast.FunctionDef) and f.name in us and not f.name.startswith("_check")]
    todo = []
    for k, (i, ln, what, _) in enumerate(M.sites(tree)):
        for lo, hi, n in spans:
            if lo <= ln <= hi:
                todo.append((k, ln, what, n, us[n][:14]))
    random.Random(a.seed).shuffle(todo)
    print(len(todo), "sites")
    todo = todo[:a.sample]
    q, out = mp.Queue(), mp.Queue()
    for t in todo:
        q.put(t)
    ps = [mp.Process(target=worker, args=(q, out)) for _ in range(a.jobs)]
    for p in ps:
        q.put(None)
        p.start()
    n = k = done = 0
    with open(a.out, "w") as f:
        while done < a.jobs:
            r = out.get()
            if r is None:
                done += 1
                continue
            n += 1
            if r[0]:
                k += 1
            else:
                f.write(f"{r[1]} {r[2]} in {r[3]}: {r[4]}\n")
                f.flush()
    print(k, "of", n, "reported")


if __name__ == "__main__":
    main()
