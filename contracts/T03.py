"""T03: Composition of a simplex is a closed chain and its vertices are consistent."""
from . import topo_props as TP


def run(ctx):
    TP.run(ctx, "T03", TP.JOBS["T03"])


def fallback(ctx):
    TP.fallback(ctx, "T03")
