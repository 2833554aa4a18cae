// contracts on sums over the cells of a mesh: measures, integrals, norms, weak forms.
// verification (VERIFY): the containers are arbitrary, the loops are cut at the iterator protocol, an arbitrary element has the
// vertices given; natively: a mesh of two cells, with the vertices given
#include "opaque_functions.h"
#include "fake.h"
namespace fn = mito::functions;
namespace geo = mito::geometry;
using c1 = geo::coordinates_t<1, geo::CARTESIAN>;
using c2 = geo::coordinates_t<2, geo::CARTESIAN>;
using c3 = geo::coordinates_t<3, geo::CARTESIAN>;
using pol = geo::coordinates_t<2, geo::POLAR>;

#ifdef VERIFY
CONTRACT_COORDINATES(c1)
CONTRACT_COORDINATES(c2)
CONTRACT_COORDINATES(c3)
CONTRACT_COORDINATES(pol)
#endif
#include <mito/manifolds.h>
#include <mito/quadrature.h>
#include <mito/fem.h>
#include <mito/constraints.h>
using namespace mito;
using seg1 = fem::IsoparametricSegmentP1;
using tri1 = fem::IsoparametricTriangleP1;
using tri2 = fem::IsoparametricTriangleP2;
template <int N, class C>
using mesh_of = mesh::mesh_t<geo::geometric_simplex_t<N, C::dim>>;

#ifdef VERIFY
extern "C" void fold_element(const void * element, const void * container);    // an arbitrary element of the container
extern "C" void fold_value(const void * key, const void * value, long bytes);  // the value of a map at a key; the size of values
#else
template <int N, class C>
struct actual {
    geo::coordinate_system_t<C> & cs;
    mesh_of<N, C> mesh = mesh::mesh<geo::geometric_simplex_t<N, C::dim>>();
    actual(const double * in) : cs(*new geo::coordinate_system_t<C>())
    {
        for (int k = 0; k < 2; k++) {
            std::vector<geo::node_t<C::dim>> n;
            for (int i = 0; i <= N; i++) {
                tensor::vector_t<C::dim> v;
                for (int d = 0; d < C::dim; d++)
                    v[d] = *in++;
                n.push_back(geo::node(cs, C(v)));
            }
            [&]<int... I>(tensor::integer_sequence<I...>) { mesh.insert({ n[I]... }); }(tensor::make_integer_sequence<N + 1>{});
        }
    }
};
#endif

// in: vertices of the cells; out: what `f` computes of the mesh
template <int N, class C, class F>
static void on_mesh(const double * in, const F & f)
{
#ifdef VERIFY
    fake::cell<N, C> cell(in);
    // the simplex of the cell
    fake::raw<topology::oriented_simplex_t<N>> simplex;
    void * h = simplex.b;
    static_assert(sizeof(cell.simplex->_simplex) == sizeof(h));
    std::memcpy(static_cast<void *>(&cell.simplex->_simplex), &h, sizeof(h));
    fold_element(&*cell, nullptr);
    fake::raw<geo::coordinate_system_t<C>> cs;
    fake::raw<mesh_of<N, C>> mesh;
    f(*mesh, *cs);
#else
    actual<N, C> m(in);
    f(m.mesh, m.cs);
#endif
}

template <int N, class C>
static void total(const double * in, double * out)
{
    on_mesh<N, C>(in, [&](const auto & mesh, const auto & cs) { out[0] = manifolds::manifold(mesh, cs).volume(); });
}
#define TOTAL(N, C) \
    extern "C" void total_##N##_##C(const double * in, double * out) { total<N, C>(in, out); }
TOTAL(1, c1)
TOTAL(2, c2)
TOTAL(3, c3)
TOTAL(2, pol)

template <int N, class C, int r>
static void integral(const double * in, double * out)
{
    on_mesh<N, C>(in, [&](const auto & mesh, const auto & cs) {
        auto manifold = manifolds::manifold(mesh, cs);
        fn::Opaque<1, C, tensor::scalar_t, 0> f;
#ifdef VERIFY
        fold_value(nullptr, nullptr, 0);
#endif
        auto integrator = quadrature::integrator<quadrature::GAUSS, r>(manifold);
        out[0] = integrator.integrate(f);
    });
}
#define INTEGRAL(N, C, r) \
    extern "C" void integral_##N##_##C##_##r(const double * in, double * out) { integral<N, C, r>(in, out); }
INTEGRAL(1, c1, 1)
INTEGRAL(1, c1, 2)
INTEGRAL(2, c2, 1)
INTEGRAL(2, c2, 2)
INTEGRAL(2, c2, 4)
INTEGRAL(3, c3, 2)

// on a line in the plane and a surface in space, with the normal field given
template <int N, class C, int r>
static void surface(const double * in, double * out)
{
    on_mesh<N, C>(in, [&](const auto & mesh, const auto & cs) {
        fn::Opaque<2, C, tensor::vector_t<C::dim>, 0> n;
        auto manifold = manifolds::submanifold(mesh, cs, n);
        fn::Opaque<1, C, tensor::scalar_t, 0> f;
        auto integrator = quadrature::integrator<quadrature::GAUSS, r>(manifold);
        out[0] = integrator.integrate(f);
    });
}
#define SURFACE(N, C, r) \
    extern "C" void surface_##N##_##C##_##r(const double * in, double * out) { surface<N, C, r>(in, out); }
SURFACE(1, c2, 2)
SURFACE(2, c3, 2)

template <int N>
using domain_of = typename mesh::boundary_mesh<geo::geometric_simplex_t<N, N>>::type;
// in: vertices of the cells, values of the finite element field at the nodes of the elements;
// out: norm of the difference between an opaque field and the finite element field
template <class T, int r>
using rule = quadrature::quadrature_rule_t<quadrature::GAUSS, T, r>;
template <class E, int N, class R, bool H1 = false>
static void l2(const double * in, double * out)
{
    auto norm = [](const auto & space, const auto & f, const auto & u) {
        if constexpr (H1)
            return fem::compute_h1_norm<R>(space, f, u);
        else
            return fem::compute_l2_norm<R>(space, f, u);
    };
    using C = geo::coordinates_t<N, geo::CARTESIAN>;
    fn::Opaque<1, C, tensor::scalar_t, 0> f;
    constexpr int n = E::n_nodes;
#ifdef VERIFY
    fake::cell<N, C> cell(in);
    fake::raw<geo::coordinate_system_t<C>> cs;
    E e(*cell, *cs, {});
    double node[n];
    for (int a = 0; a < n; a++) {
        // the degrees of freedom of the element
        void * q[2] = { &node[a], nullptr };
        static_assert(sizeof(e._connectivity[a]) == sizeof(q));
        std::memcpy((void *) &e._connectivity[a], q, sizeof(q));
        fold_value(&e._connectivity[a], in + (N + 1) * N + a, 8);
    }
    fold_element(&e, nullptr);
    using space = fem::function_space_t<E, constraints::dirichlet_bc_t<domain_of<N>, std::decay_t<decltype(fn::zero<C>)>>>;
    fake::raw<space> fs;
    fake::raw<fem::fem_field_t<tensor::scalar_t, space>> u;
    out[0] = norm(*fs, f, *u);
#else
    actual<N, C> m(in);
    auto manifold = manifolds::manifold(m.mesh, m.cs);
    domain_of<N> none = [] { if constexpr (N == 1) return domain_of<1>(); else return mesh::mesh<geo::segment_t<N>>(); }();
    auto zero = fn::zero<C>;
    auto constraint = constraints::dirichlet_bc(none, zero);
    auto fs = fem::function_space<E>(manifold, constraint);
    auto u = fs.template fem_field<tensor::scalar_t>("u");
    in += 2 * (N + 1) * N;
    for (const auto & e : fs.elements())
        for (int a = 0; a < n; a++)
            u(e.connectivity()[a]) = *in++;
    out[0] = norm(fs, f, u);
#endif
}
#define L2(E, N, T, r) \
    extern "C" void l2_##E##_##r(const double * in, double * out) { l2<E, N, rule<geo::T, r>>(in, out); }
L2(seg1, 1, reference_segment_t, 2)
L2(tri1, 2, reference_triangle_t, 2)
L2(tri2, 2, reference_triangle_t, 4)
#define H1(E, N, T, r) \
    extern "C" void h1_##E##_##r(const double * in, double * out) { l2<E, N, rule<geo::T, r>, true>(in, out); }
H1(seg1, 1, reference_segment_t, 2)
H1(tri1, 2, reference_triangle_t, 2)
H1(tri2, 2, reference_triangle_t, 4)

// in: a matrix and a vector by block; out: their sums over the blocks of the weak form
template <class E>
struct lhs : fem::blocks::AssemblyBlock<E, tensor::matrix_t<E::n_nodes>> {
    const double * v;
    const void * e;
    auto compute(const E & x) const -> tensor::matrix_t<E::n_nodes> override
    {
        tensor::matrix_t<E::n_nodes> m;
        for (int i = 0; i < E::n_nodes; ++i)
            for (int j = 0; j < E::n_nodes; ++j)
                m[{ i, j }] = &x == e ? v[i * E::n_nodes + j] : 0.0;
        return m;
    }
};
template <class E>
struct rhs : fem::blocks::AssemblyBlock<E, tensor::vector_t<E::n_nodes>> {
    const double * v;
    const void * e;
    auto compute(const E & x) const -> tensor::vector_t<E::n_nodes> override
    {
        tensor::vector_t<E::n_nodes> m;
        for (int i = 0; i < E::n_nodes; ++i)
            m[{ i }] = &x == e ? v[i] : 0.0;
        return m;
    }
};
template <class E>
static void weakform(const double * in, double * out)
{
    constexpr int n = E::n_nodes;
    fem::weakform_t<E> w;
    fake::raw<E> e;
#ifdef VERIFY
    lhs<E> l;
    rhs<E> r;
    l.v = in, l.e = e.b;
    r.v = in + n * n, r.e = e.b;
    const void *pl = &l, *pr = &r;
    fold_element(&pl, &w._lhs_assembly_blocks);
    fold_element(&pr, &w._rhs_assembly_blocks);
#else
    lhs<E> l[2];
    rhs<E> r[2];
    for (int k = 0; k < 2; k++) {
        l[k].v = in, l[k].e = e.b, in += n * n;
        r[k].v = in, r[k].e = e.b, in += n;
    }
    w.add_block(r[0]);
    for (auto & b : l)
        w.add_block(b);
    w.add_block(r[1]);
    // a block may be added again
    w.add_block(l[1]);
    w.add_block(r[1]);
#endif
    auto [M, v] = w.compute_blocks(*e);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            *out++ = M[{ i, j }];
    for (int i = 0; i < n; ++i)
        *out++ = v[{ i }];
}
#define WEAKFORM(E) \
    extern "C" void weakform_##E(const double * in, double * out) { weakform<E>(in, out); } \
    extern "C" void add_lhs_##E(fem::weakform_t<E> * w, const fem::weakform_t<E>::lhs_assembly_block_type * b) { w->add_block(*b); } \
    extern "C" void add_rhs_##E(fem::weakform_t<E> * w, const fem::weakform_t<E>::rhs_assembly_block_type * b) { w->add_block(*b); } \
    extern "C" void * lhs_of_##E(fem::weakform_t<E> * w) { return &w->_lhs_assembly_blocks; } \
    extern "C" void * rhs_of_##E(fem::weakform_t<E> * w) { return &w->_rhs_assembly_blocks; }
WEAKFORM(seg1)
WEAKFORM(tri1)
WEAKFORM(tri2)
