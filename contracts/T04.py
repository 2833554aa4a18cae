"""T04: Erasing a simplex removes it and nothing that is still in use."""
from . import topo_props as TP


def run(ctx):
    TP.run(ctx, "T04", TP.JOBS["T04"])


def fallback(ctx):
    TP.fallback(ctx, "T04")
