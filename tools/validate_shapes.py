"""Development aid: compare sa/shapespec.py with the installed PyTorch.

Samples assignments of every class of the oracle and runs the real operator on
tensors of those extents.  Not a check: the checks decide from the source."""

import random
import sys
import warnings

warnings.filterwarnings("ignore")
sys.path.insert(0, "/verif")
import torch  # noqa
from sa import shapespec as S  # noqa
from sa.extents import N, poly  # noqa

DT = {"f": torch.float32, "i": torch.int64, "b": torch.bool, "c": torch.complex64, "d": torch.float64, "i32": torch.int32, "h": torch.float16, "u8": torch.uint8, "i8": torch.int8}
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)


def ev(d, v, env):
    if isinstance(v, N):
        return d.value(v.p, env)
    return v


def conv(d, v, env, dev):
    if isinstance(v, S.Ten):
        return torch.zeros([ev(d, x, env) for x in v.dims], dtype=DT[v.dtype], device=dev)
    if isinstance(v, S.Tens):
        return [conv(d, x, env, dev) for x in v.items]
    if isinstance(v, S.Any_):
        return {"float": 2.0, "int": 2, "bool": False, "device": torch.device(dev)}.get(v.kind)
    if isinstance(v, (list, tuple)):
        return [conv(d, x, env, dev) for x in v]
    return ev(d, v, env)


def shapes(r):
    if isinstance(r, torch.Tensor):
        return list(r.shape)
    if isinstance(r, (list, tuple)):
        return [shapes(x) for x in r]
    return r


def expected(d, e, env):
    if e is S.ERR:
        return S.ERR
    if e is None:
        return None
    if isinstance(e, tuple) and e and e[0] == "list":
        return [expected(d, x, env) for x in e[1]]
    if isinstance(e, (tuple, list)):
        return [expected(d, x, env) for x in e]
    if e is S.UNKNOWN:
        return S.UNKNOWN
    return ev(d, e, env)


def agree(a, b):
    if a is None or a is S.UNKNOWN:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return a == b


def run(opn, case, env):
    ns, rest = opn.split(".", 1)
    pkt = getattr(getattr(torch.ops, ns), rest.split(".")[0])
    ov = getattr(pkt, rest.split(".")[1] if "." in rest else "default")
    names = {a.name for a in ov._schema.arguments}
    last = None
    for dev in ("meta", "cpu"):
        kw = {k: conv(case.dom, v, env, dev) for k, v in case.args.items()}
        kw = {k: v for k, v in kw.items() if k in names}
        if dev == "cpu":
            for k, v in list(kw.items()):
                if k == "device":
                    kw[k] = torch.device("cpu")
        try:
            return shapes(ov(**kw)), None
        except Exception as e:  # noqa
            last = e
            if dev == "meta" and not isinstance(e, NotImplementedError) and "meta" not in str(e).lower():
                return S.ERR, e
    return S.ERR, last


only = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] else None
n = bad = 0
missing = []
for opn in S.SPEC:
    if only and opn not in only:
        continue
    shown = 0
    ns, rest = opn.split(".", 1)
    try:
        getattr(getattr(getattr(torch.ops, ns), rest.split(".")[0]), rest.split(".")[1] if "." in rest else "default")
    except Exception:
        missing.append(opn)
        continue
    for c in S.cases(opn, deep=True):
        envs = []
        for i, env in enumerate(c.dom.assignments()):
            if c.dom.holds([], env):
                envs.append(env)
            if i > 4000:
                break
        if not envs:
            print("EMPTY", opn, c.label)
            continue
        for env in rnd.sample(envs, min(4, len(envs))):
            want = expected(c.dom, c.expect, env)
            got, err = run(opn, c, env)
            n += 1
            if not agree(want, got):
                bad += 1
                shown += 1
                if shown <= 2:
                    a = {k: conv(c.dom, v, env, "meta") for k, v in c.args.items()}
                    a = {k: (list(v.shape) if isinstance(v, torch.Tensor) else [list(x.shape) if isinstance(x, torch.Tensor) else x for x in v] if isinstance(v, list) else v) for k, v in a.items()}
                    print(f"DIFF {opn} [{c.label}] {a}: spec {want}, torch {got} {str(err)[:140] if err else ''}", flush=True)
print(n, "compared,", bad, "differ; not registered:", missing)
