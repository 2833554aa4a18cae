// contracts on the discretization of meshes and the assembly of systems
#include <mito/fem.h>
#include <mito/constraints.h>
using namespace mito;
namespace geo = mito::geometry;

// the linear system: its operations are recorded
extern "C" {
void ls_create(void *, int);
int ls_size(const void *);
void ls_rhs(void *, int, double);
void ls_matrix(void *, int, int, double);
void ls_solution(const void *, std::vector<double> *);
}
struct system_t {
    system_t(const std::string &) {}
    void create(int n) { ls_create(this, n); }
    int n_equations() const { return ls_size(this); }
    void add_rhs_value(int i, double v) { ls_rhs(this, i, v); }
    void add_matrix_value(int i, int j, double v) { ls_matrix(this, i, j, v); }
    void get_solution(std::vector<double> & u) const { ls_solution(this, &u); }
};

template <class E, int D>
struct types {
    using coordinates = geo::coordinates_t<D, geo::CARTESIAN>;
    using cs = geo::coordinate_system_t<coordinates>;
    using cell = typename E::cell_type;
    using mesh_t = mesh::mesh_t<cell>;
    using manifold = decltype(manifolds::manifold(std::declval<const mesh_t &>(), std::declval<const cs &>()));
    using domain = typename mesh::boundary_mesh<cell>::type;
    static constexpr auto zero = functions::zero<coordinates>;
    using constraint = constraints::dirichlet_bc_t<domain, std::remove_const_t<decltype(zero)>>;
    using space = fem::function_space_t<E, constraint>;
    using weakform = fem::weakform_t<E>;
    using system = fem::discrete_system_t<space, system_t>;
    using field = fem::fem_field_t<double, space>;
};

#define ELEMENT(NAME, E, D)                                                                                       \
    using T_##NAME = types<E, D>;                                                                                 \
    extern "C" void discretize_##NAME(const T_##NAME::manifold * m, const T_##NAME::constraint * c, T_##NAME::space * out) \
    {                                                                                                             \
        new (out) T_##NAME::space(fem::function_space<E>(*m, *c));                                                \
    }                                                                                                             \
    extern "C" void system_##NAME(const T_##NAME::space * f, const T_##NAME::weakform * w, const std::string * label, T_##NAME::system * out) \
    {                                                                                                             \
        new (out) T_##NAME::system(fem::discrete_system<system_t>(*label, *f, *w));                               \
    }                                                                                                             \
    extern "C" void assemble_##NAME(T_##NAME::system * s) { s->assemble(); }                                      \
    extern "C" void read_##NAME(T_##NAME::system * s) { s->read_solution(); }                                     \
    extern "C" int equations_##NAME(const T_##NAME::system * s) { return s->n_equations(); }                      \
    extern "C" void field_##NAME(const T_##NAME::space * f, const std::string * label, T_##NAME::field * out)     \
    {                                                                                                             \
        new (out) T_##NAME::field(f->template fem_field<double>(*label));                                         \
    }                                                                                                             \
    extern "C" void element_##NAME(const E::cell_type * c, const T_##NAME::cs * x, const E::connectivity_type * n, E * out) \
    {                                                                                                             \
        new (out) E(*c, *x, *n);                                                                                  \
    }                                                                                                             \
    extern "C" double matrix_entry_##NAME(const tensor::matrix_t<E::n_nodes> * m, int a, int b) { return (*m)[{ a, b }]; } \
    extern "C" double vector_entry_##NAME(const tensor::vector_t<E::n_nodes> * m, int a) { return (*m)[{ a }]; }  \
    extern "C" long assembly_layout_##NAME(int i)                                                                 \
    {                                                                                                             \
        using S = T_##NAME::space;                                                                                \
        using Y = T_##NAME::system;                                                                               \
        using P = std::pair<tensor::matrix_t<E::n_nodes>, tensor::vector_t<E::n_nodes>>;                          \
        switch (i) {                                                                                              \
        case 0: return sizeof(S);                                                                                 \
        case 1: return __builtin_offsetof(S, _elements);                                                          \
        case 2: return __builtin_offsetof(S, _constraints);                                                       \
        case 3: return __builtin_offsetof(S, _constrained_nodes);                                                 \
        case 4: return __builtin_offsetof(S, _node_map);                                                          \
        case 5: return sizeof(Y);                                                                                 \
        case 6: return __builtin_offsetof(Y, _function_space);                                                    \
        case 7: return __builtin_offsetof(Y, _weakform);                                                          \
        case 8: return __builtin_offsetof(Y, _equation_map);                                                      \
        case 9: return __builtin_offsetof(Y, _solution_field);                                                    \
        case 10: return __builtin_offsetof(Y, _linear_system);                                                    \
        case 11: return __builtin_offsetof(Y, _n_equations);                                                      \
        case 12: return __builtin_offsetof(E, _connectivity);                                                     \
        case 13: return E::n_nodes;                                                                               \
        case 14: return E::cell_type::n_vertices;                                                                 \
        case 15: return __builtin_offsetof(E::cell_type, _nodes);                                                 \
        case 16: return __builtin_offsetof(T_##NAME::manifold, _mesh);                                            \
        case 17: return __builtin_offsetof(T_##NAME::mesh_t, _cells);                                             \
        case 18: return __builtin_offsetof(T_##NAME::constraint, _domain);                                        \
        case 19: return sizeof(T_##NAME::manifold);                                                               \
        case 20: return sizeof(T_##NAME::constraint);                                                             \
        case 21: return sizeof(T_##NAME::mesh_t);                                                                 \
        case 22: return sizeof(T_##NAME::domain);                                                                 \
        case 23: return sizeof(P);                                                                                \
        case 24: return __builtin_offsetof(P, second);                                                            \
        case 25: return __builtin_offsetof(T_##NAME::field, _nodal_field);                                        \
        case 26: return __builtin_offsetof(discrete::nodal_field_t<double>, _map_entry_to_values);                \
        case 27: return sizeof(T_##NAME::field);                                                                  \
        case 28: return D > 1 ? __builtin_offsetof(mesh::mesh_t<geo::segment_t<2>>, _cells) : 0;                  \
        case 30: return sizeof(E);                                                                                \
        case 29: return __builtin_offsetof(geo::segment_t<2>, _nodes);                                            \
        }                                                                                                         \
        return -1;                                                                                                \
    }
ELEMENT(seg1, fem::IsoparametricSegmentP1, 1)
ELEMENT(tri1, fem::IsoparametricTriangleP1, 2)
ELEMENT(tri2, fem::IsoparametricTriangleP2, 2)
