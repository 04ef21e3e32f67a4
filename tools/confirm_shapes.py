"""Development aid: the same classes, the shape functions run for real.

Lists the operators on which a shape function disagrees with sa/shapespec.py
on some sampled assignment; the abstract runs must find the same ones."""

import random
import sys
import warnings

warnings.filterwarnings("ignore")
sys.path.insert(0, "/verif")
sys.path.insert(0, "/verif/tools")
from sa import shapespec as S  # noqa
from sa.extents import N  # noqa
from torch_mlir.jit_ir_importer.build_tools import abstract_interp_lib_gen as G  # noqa

UNK = type(G.hacky_get_unknown_dimension_size())
rnd = random.Random(3)


def ev(d, v, env):
    if isinstance(v, S.Ten):
        return [ev(d, x, env) for x in v.dims]
    if isinstance(v, S.Tens):
        return [ev(d, x, env) for x in v.items]
    if isinstance(v, S.Any_):
        return {"float": 2.0, "int": 2, "bool": False}.get(v.kind)
    if isinstance(v, N):
        return d.value(v.p, env)
    if isinstance(v, tuple) and v[:1] == ("list",):
        return ev(d, v[1], env)
    if isinstance(v, (list, tuple)):
        return [ev(d, x, env) for x in v]
    return v


def agree(a, b):
    if a is None or a is S.UNKNOWN:
        return True
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return a == b


only = sys.argv[1].split(",") if len(sys.argv) > 1 else None
n = 0
for opn in S.SPEC:
    if only and opn not in only:
        continue
    fn = getattr(G, opn.replace(".", "〇") + "〡shape")
    shown = 0
    for c in S.cases(opn, True):
        envs = [e for _, e in zip(range(4000), c.dom.assignments()) if c.dom.holds([], e)]
        for env in rnd.sample(envs, min(6, len(envs))):
            want = ev(c.dom, c.expect, env)
            kw = {k: ev(c.dom, v, env) for k, v in c.args.items()}
            import inspect
            for q in inspect.signature(fn).parameters.values():
                if q.name not in kw and q.default is q.empty:
                    kw[q.name] = 1.0
            shown_kw = str(kw)
            try:
                got = fn(**kw)
            except Exception as e:
                got = S.ERR
            n += 1
            if not agree(want, got) and shown < 1:
                shown += 1
                print("FN", opn, c.label, shown_kw[:160], "spec", want, "function", got, flush=True)
print(n)
