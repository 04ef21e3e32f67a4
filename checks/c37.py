"""C37: dtype functions answer the dtypes PyTorch answers (see sa/dtyperun.py)."""

from sa import dtyperun


def run(ctx):
    ctx.rule("dtype", "for every combination of operand dtypes that PyTorch takes, the function answers the dtypes PyTorch answers")
    ctx.rule("embedded", "the embedded library has the function, with the generator's parameters")
    for op in dtyperun.ops():
        ctx.group(dtyperun.run_op, op)
    ctx.floor("dtype", 8000)
    ctx.floor("embedded", 880)
