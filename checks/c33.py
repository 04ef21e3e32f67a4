"""C33: shape functions of the group "reduction" (see sa/shapespec.py)."""

from sa import shaperun


def run(ctx):
    shaperun.run_group(ctx, "reduction")
    ctx.floor("extents", 1700)
    ctx.floor("rejects", 20)
