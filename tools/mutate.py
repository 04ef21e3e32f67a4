"""Mutation testing of the checks (development aid, not a check).

usage: mutate.py FILE CHECKS [--funcs a,b] [--lines 10-90] [--sample N] [--jobs 7] [--out F]
Every mutant of FILE (relative to /repo) is analysed in a scratch copy; a mutant
that no check reports is printed.
"""
import argparse, ast, copy, importlib, multiprocessing as mp, os, random, shutil, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
REPO = "/repo"
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.BitOr: ast.BitAnd}


def sites(tree):
    """(description, mutate(copy_of_node) -> node or None to drop) per site, by index of node in walk order."""
    out = []
    for i, n in enumerate(ast.walk(tree)):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((i, ln, "cmp", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]())))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            out.append((i, ln, "binop", lambda m: setattr(m, "op", BIN[type(m.op)]())))
        if isinstance(n, ast.BoolOp):
            out.append((i, ln, "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    out.append((i, ln, f"drop operand {k}", lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, ast.Constant(isinstance(m.op, ast.And)))))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((i, ln, "negate", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
            out.append((i, ln, "always", lambda m: setattr(m, "test", ast.Constant(True))) if not isinstance(n, ast.While) else (i, ln, "never", lambda m: setattr(m, "test", ast.Constant(False))))
            if not isinstance(n, ast.While):
                out.append((i, ln, "never", lambda m: setattr(m, "test", ast.Constant(False))))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                out.append((i, ln, "bool", lambda m: setattr(m, "value", not m.value)))
            elif isinstance(n.value, (int, float)):
                out.append((i, ln, "const+1", lambda m: setattr(m, "value", m.value + 1)))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 60 and " " not in n.value:
            out.append((i, ln, "string", lambda m: setattr(m, "value", m.value + "_x")))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                out.append((i, ln, "swap args", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1])))
            for k in range(len(n.keywords)):
                out.append((i, ln, f"drop kw {n.keywords[k].arg}", lambda m, k=k: m.keywords.pop(k)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            out.append((i, ln, "index -1", lambda m: setattr(m, "slice", ast.UnaryOp(ast.USub(), ast.Constant(1)))))
        if isinstance(n, ast.Dict) and len(n.keys) > 3:
            for k in range(len(n.keys)):
                out.append((i, n.keys[k].lineno if n.keys[k] else ln, f"swap value {k}", lambda m, k=k: m.values.__setitem__(k, m.values[(k + 1) % len(m.values)])))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Assert, ast.Return, ast.If, ast.For)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((i, s.lineno, f"drop {type(s).__name__}", lambda m, k=k, f=f: getattr(m, f).__setitem__(k, ast.copy_location(ast.Pass(), getattr(m, f)[k]))))
    return out


def mutant(src, idx):
    tree = ast.parse(src)
    i, ln, what, fn = sites(tree)[idx]
    for j, n in enumerate(ast.walk(tree)):
        if j == i:
            fn(n)
            break
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def analyse(root, checks):
    from sa import report
    from sa.project import Project

    res = {}
    for c in checks:
        ctx = report.Ctx(c)
        ctx._project = Project(root)
        mod = importlib.import_module("checks." + c.lower())
        try:
            ctx.group(mod.run)
        except BaseException as e:
            res[c] = f"crash {type(e).__name__}"
            continue
        v = ctx.violations()
        if v:
            return c, v[0][0] + ": " + v[0][1]
        if ctx.undecided:
            res[c] = "undecided " + ctx.undecided[0][:90]
    return None, "; ".join(f"{k} {v}" for k, v in res.items())


def worker(q, out, file, src, checks, n):
    root = f"/tmp/mut/w{os.getpid()}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for d in ("python", "projects", "include", "lib", "build_tools", "tools", "test"):
        os.symlink(os.path.join(REPO, d), os.path.join(root, d))
    top = file.split("/")[0]
    os.unlink(os.path.join(root, top))
    if top == "python":
        shutil.copytree(os.path.join(REPO, top), os.path.join(root, top), symlinks=True)
    else:
        shutil.copytree(os.path.join(REPO, top), os.path.join(root, top), symlinks=True, ignore=shutil.ignore_patterns("test_suite"))

    def one(idx, w):
        def go():
            try:
                with open(os.path.join(root, file), "w") as f:
                    f.write(mutant(src, idx))
                c, msg = analyse(root, checks)
            except BaseException as e:
                c, msg = None, f"harness {type(e).__name__} {e}"
            w.send((c, msg))

        threading.stack_size(512 * 1024 * 1024)
        th = threading.Thread(target=go)
        th.start()
        th.join()

    while True:
        idx = q.get()
        if idx is None:
            break
        r, w = mp.Pipe(False)
        pr = mp.Process(target=one, args=(idx, w))
        t = time.time()
        pr.start()
        w.close()
        c, msg = None, "timeout"
        try:
            if r.poll(LIMIT):
                c, msg = r.recv()
        except EOFError:
            msg = "died"
        if pr.is_alive():
            pr.kill()
        pr.join()
        out.put((idx, c, msg, time.time() - t))
    out.put(None)
    shutil.rmtree(root, ignore_errors=True)


LIMIT = 90


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--funcs")
    ap.add_argument("--lines")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--out")
    a = ap.parse_args()
    src = open(os.path.join(REPO, a.file)).read()
    base = ast.unparse(ast.parse(src))
    tree = ast.parse(src)
    ss = sites(tree)
    ids = list(range(len(ss)))
    spans = []
    if a.funcs:
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in a.funcs.split(","):
                spans.append((n.lineno, n.end_lineno))
    if a.lines:
        spans += [tuple(map(int, x.split("-"))) for x in a.lines.split(",")]
    if spans:
        ids = [i for i in ids if any(lo <= ss[i][1] <= hi for lo, hi in spans)]
    if a.sample and len(ids) > a.sample:
        ids = sorted(random.Random(7).sample(ids, a.sample))
    q, out = mp.Queue(), mp.Queue()
    for i in ids:
        q.put(i)
    for _ in range(a.jobs):
        q.put(None)
    ps = [mp.Process(target=worker, args=(q, out, a.file, src, a.checks.split(","), len(ids))) for _ in range(a.jobs)]
    for p in ps:
        p.start()
    done, caught, lines = 0, 0, src.splitlines()
    surv = []
    while done < a.jobs:
        r = out.get()
        if r is None:
            done += 1
            continue
        idx, c, msg, dt = r
        if c:
            caught += 1
        else:
            surv.append((ss[idx][1], ss[idx][2], msg))
    surv.sort()
    f = open(a.out, "w") if a.out else sys.stdout
    print(f"{a.file}: {len(ids)} mutants, {caught} caught, {len(surv)} survive", file=f)
    for ln, what, msg in surv:
        print(f"{ln}: [{what}] {lines[ln - 1].strip()[:100]}   {msg[:140]}", file=f)


if __name__ == "__main__":
    main()
