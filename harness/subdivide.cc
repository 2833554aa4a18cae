// contracts on mito::mesh::subdivide and tetra: nodes are handles; coordinates of a point, node, insert, iteration over cells
// and recursive calls are taken by contract
#include <mito/mesh.h>
using namespace mito;
namespace geo = mito::geometry;
template <int D>
using coord = geo::coordinates_t<D, geo::CARTESIAN>;

#define SUBDIVIDE(N, D, CELL, ...)                                                                                      \
    extern "C" void subdivide_##N##_##D(                                                                                \
        const geo::node_t<D> * n, geo::coordinate_system_t<coord<D>> * cs, mesh::mesh_t<geo::CELL<D>> * m, int k)       \
    {                                                                                                                   \
        mesh::subdivide(__VA_ARGS__, *cs, *m, k);                                                                       \
    }                                                                                                                   \
    extern "C" void tetra_##N##_##D(                                                                                    \
        const mesh::mesh_t<geo::CELL<D>> * in, geo::coordinate_system_t<coord<D>> * cs, mesh::mesh_t<geo::CELL<D>> * m, \
        int k)                                                                                                          \
    {                                                                                                                   \
        new (m) mesh::mesh_t<geo::CELL<D>>(mesh::tetra(*in, *cs, k));                                                   \
    }
SUBDIVIDE(1, 1, segment_t, n[0], n[1])
SUBDIVIDE(1, 2, segment_t, n[0], n[1])
SUBDIVIDE(1, 3, segment_t, n[0], n[1])
SUBDIVIDE(2, 2, triangle_t, n[0], n[1], n[2])
SUBDIVIDE(2, 3, triangle_t, n[0], n[1], n[2])
SUBDIVIDE(3, 3, tetrahedron_t, n[0], n[1], n[2], n[3])
