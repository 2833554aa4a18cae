// contracts on discrete fields (values on the nodes of a mesh, on points) and on the collection of the nodes of a mesh
#include "opaque_functions.h"
#include <mito/mesh.h>
#include <mito/fields.h>
#include <mito/discrete.h>
using namespace mito;
namespace fn = mito::functions;
namespace geo = mito::geometry;
template <int D>
using nodes_of = std::unordered_set<geo::node_t<D>, utilities::hash_function<geo::node_t<D>>>;
template <int D>
using coord = geo::coordinates_t<D, geo::CARTESIAN>;

#define FIELD(D, T, Y)                                                                                                          \
    using F_##D##_##T = discrete::mesh_field_t<D, Y>;                                                                           \
    extern "C" void named_##D##_##T(F_##D##_##T * f, const std::string * s) { new (f) F_##D##_##T(*s); }                        \
    extern "C" void make_##D##_##T(F_##D##_##T * f, const nodes_of<D> * n, const std::string * s)                               \
    {                                                                                                                           \
        new (f) F_##D##_##T(*n, *s);                                                                                            \
    }                                                                                                                           \
    extern "C" void insert_##D##_##T(F_##D##_##T * f, const geo::node_t<D> * n, const Y * y) { f->insert(*n, *y); }             \
    extern "C" void default_##D##_##T(F_##D##_##T * f, const geo::node_t<D> * n) { f->insert(*n); }                             \
    extern "C" const Y * value_##D##_##T(const F_##D##_##T * f, const geo::node_t<D> * n) { return &(*f)(*n); }                 \
    extern "C" Y * mutate_##D##_##T(F_##D##_##T * f, const geo::node_t<D> * n) { return &(*f)(*n); }                            \
    extern "C" int size_##D##_##T(const F_##D##_##T * f) { return f->size(); }                                                  \
    extern "C" const std::string * name_##D##_##T(const F_##D##_##T * f) { return &f->name(); }                                 \
    extern "C" long field_layout_##D##_##T(int i)                                                                               \
    {                                                                                                                           \
        switch (i) {                                                                                                            \
        case 0: return sizeof(F_##D##_##T);                                                                                     \
        case 1: return __builtin_offsetof(F_##D##_##T, _map_entry_to_values);                                                   \
        case 2: return __builtin_offsetof(F_##D##_##T, _name);                                                                  \
        case 3: return sizeof(Y);                                                                                               \
        case 4: return __builtin_offsetof(geo::node_t<D>::resource_type, _point);                                                \
        case 5: return sizeof(geo::node_t<D>::resource_type);                                                                    \
        case 6: return sizeof(std::pair<const geo::node_t<D>, Y>);                                                              \
        case 7: return __builtin_offsetof(PAIR(D, Y), second);                                                                  \
        }                                                                                                                       \
        return -1;                                                                                                              \
    }
#define PAIR(D, Y) std::pair<const geo::node_t<D>, Y>
template <int D, class Y>
using pair_of = std::pair<const geo::node_t<D>, Y>;
#undef PAIR
#define PAIR(D, Y) pair_of<D, Y>
#define scalar double
#define vector2 tensor::vector_t<2>
#define vector3 tensor::vector_t<3>
FIELD(1, s, scalar)
FIELD(2, s, scalar)
FIELD(3, s, scalar)
FIELD(2, v, vector2)
FIELD(3, v, vector3)

#define MESH(N, D, CELL)                                                                                                        \
    using M_##N##_##D = mesh::mesh_t<geo::CELL<D>>;                                                                             \
    extern "C" void nodes_##N##_##D(const M_##N##_##D * m, nodes_of<D> * n) { mesh::get_nodes(*m, *n); }                        \
    extern "C" void on_mesh_##N##_##D(const M_##N##_##D * m, F_##D##_s * f, const std::string * s)                              \
    {                                                                                                                           \
        new (f) F_##D##_s(discrete::mesh_field<double>(*m, *s));                                                                \
    }                                                                                                                           \
    extern "C" void sampled_##N##_##D##_s(                                                                                      \
        const M_##N##_##D * m, const geo::coordinate_system_t<coord<D>> * cs, F_##D##_s * f, const std::string * s)             \
    {                                                                                                                           \
        new (f) F_##D##_s(discrete::mesh_field(*m, *cs, fn::Opaque<1, coord<D>, tensor::scalar_t, 0>(), *s));                   \
    }                                                                                                                           \
    extern "C" long mesh_layout_##N##_##D(int i)                                                                                \
    {                                                                                                                           \
        switch (i) {                                                                                                            \
        case 0: return sizeof(M_##N##_##D);                                                                                     \
        case 1: return __builtin_offsetof(M_##N##_##D, _cells);                                                                 \
        case 2: return __builtin_offsetof(geo::CELL<D>, _nodes);                                                                \
        case 3: return sizeof(geo::CELL<D>);                                                                                    \
        }                                                                                                                       \
        return -1;                                                                                                              \
    }
#define VECTOR(N, D)                                                                                                            \
    extern "C" void sampled_##N##_##D##_v(                                                                                      \
        const M_##N##_##D * m, const geo::coordinate_system_t<coord<D>> * cs, F_##D##_v * f, const std::string * s)             \
    {                                                                                                                           \
        new (f) F_##D##_v(discrete::mesh_field(*m, *cs, fn::Opaque<1, coord<D>, tensor::vector_t<D>, 0>(), *s));                \
    }
MESH(1, 1, segment_t)
MESH(1, 2, segment_t)
MESH(1, 3, segment_t)
MESH(2, 2, triangle_t)
MESH(2, 3, triangle_t)
MESH(3, 3, tetrahedron_t)
VECTOR(2, 2)
VECTOR(2, 3)
VECTOR(3, 3)

// fields on the points of a cloud
#define CLOUD(D)                                                                                                                \
    using P_##D = discrete::point_field_t<D, double>;                                                                           \
    extern "C" void on_cloud_##D(const geo::PointCloud<D> * c, P_##D * f, const std::string * s)                                \
    {                                                                                                                           \
        new (f) P_##D(discrete::point_field<double>(*c, *s));                                                                   \
    }                                                                                                                           \
    extern "C" long cloud_layout_##D(int i)                                                                                     \
    {                                                                                                                           \
        switch (i) {                                                                                                            \
        case 0: return sizeof(geo::PointCloud<D>);                                                                              \
        case 1: return __builtin_offsetof(geo::PointCloud<D>, _cloud);                                                          \
        case 2: return sizeof(P_##D);                                                                                           \
        case 3: return __builtin_offsetof(P_##D, _map_entry_to_values);                                                         \
        case 4: return __builtin_offsetof(P_##D, _name);                                                                        \
        }                                                                                                                       \
        return -1;                                                                                                              \
    }
CLOUD(1)
CLOUD(2)
CLOUD(3)
