"""C32: shape functions of the group "elementwise" (see sa/shapespec.py)."""

from sa import shaperun


def run(ctx):
    shaperun.run_group(ctx, "elementwise")
    ctx.floor("extents", 2500)
    ctx.floor("rejects", 30)
