"""T05: Flipping the diagonal of two triangles preserves their outer boundary."""
from . import topo_props as TP


def run(ctx):
    TP.run(ctx, "T05", TP.JOBS["T05"])


def fallback(ctx):
    TP.fallback(ctx, "T05")
