"""S01: the linear system receives the contributions unchanged, the solution read is the solver's, on every process."""
from . import pool_spec as PS, solver_spec as SS


def jobs():
    out = [lambda c, T, w=w: SS.job_values(c, T, w) for w in ("add_matrix", "insert_matrix", "add_rhs", "insert_rhs")]
    return out + [SS.job_construct, SS.job_create, SS.job_equations, SS.job_assemble, SS.job_destroy, SS.job_solution, SS.job_krylov_create,
                  SS.job_krylov_solve, SS.job_krylov_destroy, SS.job_chain]


def run(ctx):
    ctx.assume(
        "the functions of PETSc satisfy their documented contracts (ghost transitions in contracts/solver_spec.py): ADD_VALUES accumulates, INSERT_VALUES replaces, "
        "a vector or matrix with values set since its last assembly may not be used, a process reads only its part of a distributed vector, KSPSolve solves",
        "the functions of PETSc succeed", "PetscInt is mathematical, PetscScalar values pass unchanged",
        "strings, options of PETSc and journal channels are opaque", "std::vector, std::copy satisfy their specification",
        "additions and insertions are not mixed between assemblies (a rule of PETSc for its callers)")
    try:
        T = SS.Solvers(ctx)
    except PS.Unsupported as e:
        PS.UNDECIDED.append(("all contracts", str(e)))
        return PS.conclude(ctx, "S01")
    for j in jobs():
        j(ctx, T)
    PS.conclude(ctx, "S01")


def fallback(ctx):
    PS.fallback(ctx, "S01")
