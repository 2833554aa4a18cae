// contracts on the reader and the writer of meshes in the summit format
#include <mito/mesh.h>
#include <mito/io.h>
using namespace mito;
namespace geo = mito::geometry;

// the layout: of the writer, of the entries of its map of points, of nodes and coordinates
#define IO(N, D, CELL)                                                                                                      \
    using C_##N##_##D = geo::coordinate_system_t<geo::coordinates_t<D, geo::CARTESIAN>>;                                    \
    using M_##N##_##D = mesh::mesh_t<geo::CELL<D>>;                                                                         \
    using W_##N##_##D = io::summit::mesh_writer_t<M_##N##_##D, C_##N##_##D>;                                                \
    extern "C" void read_cg_##N##_##D(std::ifstream * f, C_##N##_##D * c, M_##N##_##D * out)                                \
    {                                                                                                                       \
        new (out) M_##N##_##D(io::summit::reader<geo::CELL<D>, io::summit::CG>(*f, *c));                                    \
    }                                                                                                                       \
    extern "C" void read_dg_##N##_##D(std::ifstream * f, C_##N##_##D * c, M_##N##_##D * out)                                \
    {                                                                                                                       \
        new (out) M_##N##_##D(io::summit::reader<geo::CELL<D>, io::summit::DG>(*f, *c));                                    \
    }                                                                                                                       \
    extern "C" void construct_##N##_##D(                                                                                    \
        const std::string * n, const M_##N##_##D * m, const C_##N##_##D * c, const std::string * t, W_##N##_##D * out)      \
    {                                                                                                                       \
        new (out) W_##N##_##D(*n, *m, *c, *t);                                                                              \
    }                                                                                                                       \
    extern "C" void write_##N##_##D(const W_##N##_##D * w) { w->W_##N##_##D::write(); }                                                  \
    extern "C" void writer_##N##_##D(                                                                                       \
        const std::string * n, const M_##N##_##D * m, const C_##N##_##D * c, const std::string * t)                         \
    {                                                                                                                       \
        io::summit::writer(*n, *m, *c, *t);                                                                                 \
    }                                                                                                                       \
    extern "C" long layout_##N##_##D(int i)                                                                                 \
    {                                                                                                                       \
        using W = W_##N##_##D;                                                                                              \
        using entry = W::points_type::value_type;                                                                           \
        switch (i) {                                                                                                        \
            case 0: return sizeof(W);                                                                                       \
            case 1: return offsetof(W, _points);                                                                            \
            case 2: return 0;                                                                              \
            case 3: return sizeof(entry);                                                                                   \
            case 4: return offsetof(entry, second);                                                                         \
            case 5: return sizeof(geo::node_t<D>);                                                                          \
            case 6: return sizeof(geo::CELL<D>);                                                                            \
            case 7: return sizeof(geo::coordinates_t<D, geo::CARTESIAN>);                                                   \
            case 8: return offsetof(W, _filename);                                                                          \
            case 9: return offsetof(W, _element_type);                                                                      \
            case 11: return offsetof(geo::CELL<D>, _nodes);                                                                 \
            case 10: return sizeof(M_##N##_##D);                                                                            \
        }                                                                                                                   \
        return -1;                                                                                                          \
    }
IO(1, 2, segment_t)
IO(1, 3, segment_t)
IO(2, 2, triangle_t)
IO(2, 3, triangle_t)
IO(3, 3, tetrahedron_t)
