"""T02: Flipping is an involution and existence queries agree with what was created."""
from . import topo_props as TP


def run(ctx):
    TP.run(ctx, "T02", TP.JOBS["T02"])


def fallback(ctx):
    TP.fallback(ctx, "T02")
