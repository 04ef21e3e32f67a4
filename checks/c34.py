"""C34: shape functions of the group "movement" (see sa/shapespec.py)."""

from sa import shaperun


def run(ctx):
    shaperun.run_group(ctx, "movement")
    ctx.floor("extents", 800)
    ctx.floor("rejects", 25)
