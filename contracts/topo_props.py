"""The lists of contracts that decide T01 to T05, and the lemmas over them."""
import itertools
import z3
from . import pool_spec as PS, topo_spec as TS, topo_make as TM, topo_jobs as TJ, topo_flip as TF
from .topo_make import even, swapif, And, Or, Not, Implies
from .topo_spec import I_, parity


def assume(ctx):
    ctx.assume(
        "handles, repositories and iterators of mito::utilities satisfy their contracts (verified: U01 to U04); objects do not overlap, so that the fields are arrays indexed by the id",
        "std::map, std::set, std::unordered_map, std::ranges::sort, std::vector satisfy their specification (models in contracts/topo_spec.py)",
        "mito::math::permutation_sign returns the sign of the permutation (verified: M01)",
        "functions are executed from an arbitrary state of the topology satisfying the representation invariant, assumed and proved instance by instance; it holds in the empty topology and is preserved by every function, hence it holds for every history",
        "the canonical form of a footprint is an invariant because footprints are not changed by any function (frame obligations) and are created in canonical form",
        "a composition passed explicitly is in the order that its vertices induce",
        "reference counts are mathematical integers")


def run(ctx, prop, jobs):
    assume(ctx)
    try:
        T = TS.Topo(ctx)
    except PS.Unsupported as e:
        PS.UNDECIDED.append(("all contracts", str(e)))
        PS.conclude(ctx, prop)
        return
    PS.parallel(ctx, [lambda c, j=j: j(c, T) for j in jobs])
    PS.conclude(ctx, prop)


def fallback(ctx, prop):
    PS.fallback(ctx, prop)


def lemma_requests(N):
    """two requests for the simplex of order N with the same vertices"""
    def job(ctx, T):
        title = f"lemma: requests for simplices of order {N}"
        s = z3.Solver()
        s.set("timeout", 60000)
        V = [z3.Int(f"V{i}") for i in range(N + 1)]
        v, w = [[z3.Int(f"{n}{i}") for i in range(N + 1)] for n in "vw"]
        o, p = z3.Ints("o p")
        W = [z3.Int(f"W{i}") for i in range(N + 1)]
        # the contracts on Topology::segment, triangle, tetrahedron (verified: job_make)
        s.add(z3.Distinct(*V), Or(o == 1, o == -1), Or(p == 1, p == -1), even(swapif(o, V), v))
        perms = list(itertools.permutations(range(N + 1)))

        def ob(name, pre, goal):
            s.push()
            s.add(*pre, Not(goal))
            r = s.check()
            s.pop()
            (ctx.discharged if r == z3.unsat else ctx.failed)(f"{title}: {name}", "z3" if r == z3.unsat else str(r), where=title)
        same = [even(swapif(p, V), w)]
        ob("orders of the same parity give the same orientation on the footprint, hence the same simplex", same + [even(v, w)], o == p)
        ob("orders of different parity give opposite orientations on the footprint", same + [Not(even(v, w)), Or(*[And(*[a == w[i] for a, i in zip(v, q)]) for q in perms])], o == -p)
        ob("simplices on the same footprint have the same vertices", [even(swapif(p, V), w)], Or(*[And(*[a == w[i] for a, i in zip(v, q)]) for q in perms]))
    return job


def vertices3():
    return [lambda c, T: TM.job_vertices(c, T, 3, 0)] + [lambda c, T, i=i: TM.job_vertices(c, T, 3, (i, 8)) for i in range(8)]


def valid3():
    return [lambda c, T: TM.job_valid(c, T, 3, 0)] + [lambda c, T, i=i: TM.job_valid(c, T, 3, (i, 8)) for i in range(8)]


def each(f, orders, *a):
    return [lambda c, T, N=N: f(c, T, N, *a) for N in orders]


def one(f, *a):
    return [lambda c, T: f(c, T, *a)]


MAKE = vertices3() + each(TM.job_make, (3, 2, 1)) + each(TM.job_vertices, (2, 1)) + each(TS.job_of_comp, (1, 2, 3))
JOBS = {
    "T01": MAKE + each(TM.job_comp, (2, 3)) + each(TS.job_sf_simplex, (1, 2, 3)) + each(TS.job_sf_find, (1, 2, 3)) + each(TS.job_of_make, range(4))
           + one(TJ.job_vertex) + [lemma_requests(N) for N in (1, 2, 3)],
    "T02": each(TS.job_of_find, range(4), False) + each(TS.job_of_find, range(4), True) + each(TS.job_of_existscomp, (1, 2, 3)) + each(TS.job_of_existscomp, (1, 2, 3), True)
           + each(TJ.job_flip, range(4)) + each(TJ.job_flip, range(4), True) + each(TJ.job_make_uo, range(4)) + each(TJ.job_flipped, range(4)) + one(TJ.job_exists_vertices)
           + each(TJ.job_of_erase, range(4)) + each(TS.job_of_make, range(4)) + each(TS.job_of_comp, (1, 2, 3)) + each(TS.job_sf_simplex, (1, 2, 3)) + each(TS.job_sf_find, (1, 2, 3)),
    "T03": MAKE + valid3() + each(TM.job_valid, (1, 2)) + each(TM.job_composition, (1, 2, 3)) + each(TM.job_vertex_set, (1, 2)) + one(TJ.job_ends) + each(TF.job_collect, (1, 2)),
    "T04": each(TJ.job_of_erase, range(4)) + each(TJ.job_t_erase, range(4)) + each(TS.job_sf_simplex, (1, 2, 3)) + each(TS.job_of_make, range(4)) + each(TS.job_of_comp, (1, 2, 3)),
    "T05": one(TF.job_flip_diagonal) + one(TF.job_shared) + one(TF.job_opposite) + each(TF.job_collect, (1, 2)) + [lambda c, T, n=n, i=i: TF.job_erase_sub(c, T, n, i) for n in (1, 2, 3, 4) for i in (0, 1)]
           + each(TM.job_comp, (2,)) + one(TJ.job_ends) + [lambda c, T: TJ.job_flip(c, T, 1)] + each(TM.job_make, (1,)),
}
