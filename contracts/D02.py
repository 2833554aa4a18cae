"""D02: a discrete field has exactly one value per key; fields on meshes have the nodes of the cells as keys, and the values sampled there."""
from . import pool_spec as PS, discrete_spec as DS


def jobs():
    out = []
    for x in DS.FIELDS:
        out += [lambda c, T, x=x, d=d: DS.job_insert(c, T, x, d) for d in (False, True)]
        out += [lambda c, T, x=x, h=h, k=k: DS.job_access(c, T, x, h, k) for h in ("value", "mutate") for k in (True, False)]
        out += [lambda c, T, x=x, j=j: j(c, T, x) for j in (DS.job_size, DS.job_named, DS.job_make)]
    for x in DS.MESHES:
        out += [lambda c, T, x=x, j=j: j(c, T, x) for j in (DS.job_nodes, DS.job_on_mesh)]
        out += [lambda c, T, x=x: DS.job_sampled(c, T, x, "s")]
    out += [lambda c, T, x=x: DS.job_sampled(c, T, x, "v") for x in ((2, 2), (2, 3), (3, 3))]
    return out + [lambda c, T, D=D: DS.job_cloud(c, T, D) for D in (1, 2, 3)]


def run(ctx):
    ctx.assume(
        "containers: iteration visits every element exactly once (verified: U02; std::unordered_map, std::unordered_set by their specification)",
        "std::unordered_map, std::unordered_set, std::string satisfy their specification (models in contracts/discrete_spec.py)",
        "precondition of insert: the key is not in the field (asserted by the code)",
        "contract on CoordinateSystem::coordinates: the coordinates that the point was placed at (verified: G01)",
        "the field that is sampled is an opaque function of the coordinates; doubles are read as real numbers",
        "the keys of the collection that a field is made of are distinct")
    try:
        T = DS.Discrete(ctx)
    except PS.Unsupported as e:
        PS.UNDECIDED.append(("all contracts", str(e)))
        return PS.conclude(ctx, "D02")
    PS.parallel(ctx, [lambda c, j=j: j(c, T) for j in jobs()])
    PS.conclude(ctx, "D02")


def fallback(ctx):
    PS.fallback(ctx, "D02")
