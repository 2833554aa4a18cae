"""I01: reading a mesh makes what the file lists, writing it and reading it back gives the same mesh."""
from . import pool_spec as PS, io_spec as IS


def run(ctx):
    ctx.assume(
        "a file read is well formed: its header counts its lines, the numbers of vertices of a cell are among the vertices listed, a cell is on a line of its own, its type is that of the cells of the mesh",
        "std streams, strings, vector, unordered_map satisfy their specification (transitions on the ghost state in contracts/io_spec.py); a decimal number is read as the nearest double, "
        "17 significant digits determine a double; the operations on streams succeed",
        "geometry::node places a node at the coordinates given (G-properties and replay), Mesh::insert inserts (H01, T-properties), points are compared by identity (U-properties)",
        "numbers of vertices and cells are mathematical integers below 2^31", "journal channels are opaque; the label of a cell is free")
    try:
        T = IS.IO(ctx)
    except PS.Unsupported as e:
        PS.UNDECIDED.append(("all contracts", str(e)))
        return PS.conclude(ctx, "I01")
    for j in IS.jobs():
        j(ctx, T)
    PS.conclude(ctx, "I01")


def fallback(ctx):
    PS.fallback(ctx, "I01")
