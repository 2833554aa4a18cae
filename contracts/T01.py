"""T01: A simplex is identified by its composition; orientation by vertex order parity."""
from . import topo_props as TP


def run(ctx):
    TP.run(ctx, "T01", TP.JOBS["T01"])


def fallback(ctx):
    TP.fallback(ctx, "T01")
