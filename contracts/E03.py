"""E03: elements share degrees of freedom where they share mesh entities; assembly sums."""
from . import pool_spec as PS, assembly_spec as AS, sums_spec as SS


def jobs():
    out = []
    for x in AS.ELEMENTS:
        out += [lambda c, T, x=x, j=j: j(c, T, x) for j in
                (AS.job_assemble, AS.job_discretize, AS.job_system, AS.job_field, AS.job_read, AS.job_element)]
    return out


def run(ctx):
    ctx.assume(
        "the segmented containers satisfy their contracts (verified: U02, U03); iteration visits every element once",
        "std::map, std::set, std::unordered_map, std::unordered_set, std::set_difference, std::vector satisfy their specification (models in contracts/assembly_spec.py)",
        "nodes that are shared pointers to different objects are different, ids of nodes are their addresses",
        "the nodes of a cell are distinct, the cells of the constrained domain are vertices and edges of cells of the mesh",
        "the elementary contributions are those of Weakform::compute_blocks (under contract: the sums of the blocks), read as a function of the element",
        "the linear system is an interface: create, add_rhs_value, add_matrix_value, get_solution are recorded with their arguments",
        "journal channels and strings are opaque", "counts are mathematical integers, values of the linear system are real numbers")
    try:
        T = AS.Assembly(ctx)
    except PS.Unsupported as e:
        PS.UNDECIDED.append(("all contracts", str(e)))
        return PS.conclude(ctx, "E03")
    SS.under_contract(ctx, SS.weakforms)
    PS.parallel(ctx, [lambda c, j=j: j(c, T) for j in jobs()])
    PS.conclude(ctx, "E03")


def fallback(ctx):
    PS.fallback(ctx, "E03")
