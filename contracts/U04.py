"""U04: resources are destroyed exactly once and memory is released exactly once."""
from .pool_spec import Pool
from . import pool_spec as PS, containers


def run(ctx):
    P = Pool(ctx)
    PS.assume_common(ctx)
    PS.parallel(ctx, [lambda c, nm=nm, f=f: f(c, P, nm) for nm in ("r0", "r3", "c0", "c3") for f in (container,)])
    PS.conclude(ctx, "U04")


def fallback(ctx):
    PS.fallback(ctx, "U04")


def container(ctx, P, nm):
    containers.run(ctx, P, nm, "U04")
