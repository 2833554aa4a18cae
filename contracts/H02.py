"""H02: mesh content and boundary match the inserted cells."""
from . import pool_spec as PS, mesh_spec as MS


def jobs():
    out = []
    for case in MS.CASES:
        out += [lambda c, T, x=case, h=h: MS.job_insert(c, T, x, h) for h in ("cell", "nodes")]
        out += [lambda c, T, x=case: MS.job_erase(c, T, x), lambda c, T, x=case: MS.job_on_boundary(c, T, x)]
        out += [lambda c, T, x=case, w=w: MS.job_duplicates(c, T, x, w) for w in ("topological", "geometrical")]
        out += [lambda c, T, x=case, s=s: MS.job_boundary(c, T, x, s) for s in (False, True)]
        out += [lambda c, T, x=case, j=j: j(c, T, x) for j in (MS.job_cell, MS.job_bind, MS.job_geometric, MS.job_cells)]
        out += [lambda c, T, x=case: MS.job_flip(c, T, x)]
    for case in ((2, 2), (2, 3)):
        out += [lambda c, T, x=case: MS.job_geometric(c, T, x, True), lambda c, T, x=case: MS.job_diagonal(c, T, x)]
    out += [lambda c, T, x=x: MS.job_filter(c, T, *x) for x in ((2, 1, 2), (2, 1, 3), (3, 1, 3), (3, 2, 3))]
    return out


def run(ctx):
    ctx.assume(
        "the containers of mito::utilities satisfy their contracts (verified: U02, U03); iteration visits every valid cell once; erasing the current cell does not disturb the iteration",
        "std::unordered_map, std::unordered_set satisfy their specification (models in contracts/mesh_spec.py)",
        "contracts on topology::flip and topology::flip_diagonal (verified: T03, T05)",
        "contract on OrientedSimplex::composition: the facets of the simplex (verified: T03)",
        "the queries about a facet are for facets of cells of the mesh (isOnBoundary of another facet throws)",
        "counts are mathematical integers")
    try:
        T = MS.Meshes(ctx)
    except PS.Unsupported as e:
        PS.UNDECIDED.append(("all contracts", str(e)))
        return PS.conclude(ctx, "H02")
    PS.parallel(ctx, [lambda c, j=j: j(c, T) for j in jobs()])
    PS.conclude(ctx, "H02")


def fallback(ctx):
    PS.fallback(ctx, "H02")
