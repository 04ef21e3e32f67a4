"""C35: shape functions of the group "windows" (see sa/shapespec.py)."""

from sa import shaperun


def run(ctx):
    shaperun.run_group(ctx, "windows")
    ctx.floor("extents", 400)
    ctx.floor("rejects", 30)
