// contracts on Mesh, Boundary, Filter, and the construction of geometric simplices
#include <mito/mesh.h>
using namespace mito;
namespace geo = mito::geometry;

#define MESH(N, D, CELL)                                                                                                    \
    using M_##N##_##D = mesh::mesh_t<geo::CELL<D>>;                                                                         \
    extern "C" void insert_cell_##N##_##D(M_##N##_##D * m, const geo::CELL<D> * c, void ** out) { *out = &m->insert(*c); }  \
    extern "C" void insert_nodes_##N##_##D(M_##N##_##D * m, const geo::CELL<D>::nodes_type * n, void ** out)                \
    {                                                                                                                       \
        *out = &m->insert(*n);                                                                                              \
    }                                                                                                                       \
    extern "C" void erase_##N##_##D(M_##N##_##D * m, geo::CELL<D> * c) { m->erase(*c); }                                    \
    extern "C" void topological_##N##_##D(M_##N##_##D * m) { m->erase_topological_duplicates(); }                           \
    extern "C" void geometrical_##N##_##D(M_##N##_##D * m) { m->erase_geometrical_duplicates(); }                           \
    extern "C" int on_boundary_##N##_##D(const M_##N##_##D * m, const topology::oriented_simplex_t<N - 1> * f)              \
    {                                                                                                                       \
        return m->isOnBoundary(*f);                                                                                         \
    }                                                                                                                       \
    extern "C" int boundary_size_##N##_##D(const M_##N##_##D * m) { return mesh::boundary_size(*m); }                       \
    extern "C" void boundary_##N##_##D(const M_##N##_##D * m, mesh::boundary_mesh<geo::CELL<D>>::type * out)                \
    {                                                                                                                       \
        new (out) mesh::boundary_mesh<geo::CELL<D>>::type(mesh::boundary(*m));                                              \
    }                                                                                                                       \
    extern "C" int cells_##N##_##D(const M_##N##_##D * m) { return m->nCells(); }                                           \
    extern "C" void cell_##N##_##D(geo::CELL<D> * c, const geo::CELL<D>::nodes_type * n) { new (c) geo::CELL<D>(*n); }      \
    extern "C" void bind_##N##_##D(                                                                                         \
        geo::CELL<D> * c, const topology::oriented_simplex_t<N> * s, const geo::CELL<D>::nodes_type * n)                    \
    {                                                                                                                       \
        new (c) geo::CELL<D>(*s, *n);                                                                                       \
    }                                                                                                                       \
    extern "C" void geometric_##N##_##D(                                                                                    \
        geo::CELL<D> * c, const topology::oriented_simplex_t<N> * s, const std::array<geo::node_t<D>, N + 2> * n)           \
    {                                                                                                                       \
        new (c) geo::CELL<D>(geo::geometric_simplex<D>(*s, *n));                                                            \
    }                                                                                                                       \
    extern "C" void flip_##N##_##D(geo::CELL<D> * c, const geo::CELL<D> * x) { new (c) geo::CELL<D>(geo::flip(*x)); }       \
    extern "C" long mesh_layout_##N##_##D(int i)                                                                            \
    {                                                                                                                       \
        switch (i) {                                                                                                        \
        case 0: return __builtin_offsetof(M_##N##_##D, _cells);                                                             \
        case 1: return __builtin_offsetof(M_##N##_##D, _orientations);                                                      \
        case 2: return sizeof(M_##N##_##D);                                                                                 \
        case 3: return __builtin_offsetof(geo::CELL<D>, _nodes);                                                            \
        case 4: return __builtin_offsetof(geo::CELL<D>, _simplex);                                                          \
        case 5: return sizeof(geo::CELL<D>);                                                                                \
        case 6: return __builtin_offsetof(topology::OrientedSimplex<N - 1>, _footprint);                                    \
        case 7: return __builtin_offsetof(topology::OrientedSimplex<N - 1>, _orientation);                                  \
        case 8: return __builtin_offsetof(topology::OrientedSimplex<N>, _footprint);                                        \
        case 9: return sizeof(geo::node_t<D>);                                                                              \
        case 10: return __builtin_offsetof(geo::node_t<D>::resource_type, _vertex);                                         \
        }                                                                                                                   \
        return -1;                                                                                                          \
    }
#define FILTER(N, I, D, CELL, SUB)                                                                         \
    extern "C" void filter_##N##_##I##_##D(const mesh::mesh_t<geo::CELL<D>> * m, mesh::mesh_t<geo::SUB<D>> * out) \
    {                                                                                                      \
        new (out) mesh::mesh_t<geo::SUB<D>>(mesh::filter<I>(*m));                                          \
    }
MESH(1, 1, segment_t)
MESH(1, 2, segment_t)
MESH(1, 3, segment_t)
MESH(2, 2, triangle_t)
MESH(2, 3, triangle_t)
MESH(3, 3, tetrahedron_t)
FILTER(2, 1, 2, triangle_t, segment_t)
FILTER(2, 1, 3, triangle_t, segment_t)
FILTER(3, 1, 3, tetrahedron_t, segment_t)
FILTER(3, 2, 3, tetrahedron_t, triangle_t)
#define DIAGONAL(D)                                                                                                        \
    using pair_##D = std::pair<geo::triangle_t<D>, geo::triangle_t<D>>;                                                    \
    extern "C" void diagonal_2_##D(pair_##D * out, const pair_##D * in) { new (out) pair_##D(geo::flip_diagonal(*in)); }   \
    extern "C" void geometric_vector_2_##D(                                                                                \
        geo::triangle_t<D> * c, const topology::oriented_simplex_t<2> * s, const std::vector<geo::node_t<D>> * n)          \
    {                                                                                                                      \
        new (c) geo::triangle_t<D>(geo::geometric_simplex<D>(*s, *n));                                                     \
    }
DIAGONAL(2)
DIAGONAL(3)
