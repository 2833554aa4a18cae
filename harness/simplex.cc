// contracts on simplex geometry: barycenter, directors, parametrization, measures
#include "opaque_functions.h"
#include "fake.h"
#include <mito/manifolds.h>
using namespace mito;
namespace fn = mito::functions;
namespace geo = mito::geometry;
using c1 = geo::coordinates_t<1, geo::CARTESIAN>;
using c2 = geo::coordinates_t<2, geo::CARTESIAN>;
using c3 = geo::coordinates_t<3, geo::CARTESIAN>;
using pol = geo::coordinates_t<2, geo::POLAR>;
using sph = geo::coordinates_t<3, geo::SPHERICAL>;
CONTRACT_COORDINATES(c1)
CONTRACT_COORDINATES(c2)
CONTRACT_COORDINATES(c3)
CONTRACT_COORDINATES(pol)
CONTRACT_COORDINATES(sph)

struct sink {
    double * o;
    void put(double v) { *o++ = v; }
    template <int D, geo::CoordinateType T>
    void put(const geo::coordinates_t<D, T> & c)
    {
        for (int i = 0; i < D; i++)
            *o++ = c[i];
    }
    template <class T>
    requires(!std::is_convertible_v<T, double>)
    void put(const T & t)
    {
        for (auto v : t)
            *o++ = v;
    }
};

// in: vertices; out: barycenter, stem of the directors, directors, distance and midpoint of the first two vertices
template <int N, class C>
static void geometry_of(const double * in, double * out)
{
    sink k{ out };
    fake::cell<N, C> cell(in);
    fake::raw<geo::coordinate_system_t<C>> cs;
    k.put(geo::barycenter(*cell, *cs));
    auto [p, d] = geo::directors(*cell, *cs);
    k.put(p);
    for (const auto & v : d)
        k.put(v);
    const auto & A = cell.simplex->_nodes[0]->point();
    const auto & B = cell.simplex->_nodes[1]->point();
    k.put(geo::distance<C::dim, C>(A, B, *cs));
    k.put(cs->midpoint(A, B));
}
#define GEOMETRY(N, C) \
    extern "C" void geometry_##N##_##C(const double * in, double * out) { geometry_of<N, C>(in, out); }
GEOMETRY(1, c1)
GEOMETRY(1, c2)
GEOMETRY(1, c3)
GEOMETRY(2, c2)
GEOMETRY(2, c3)
GEOMETRY(3, c3)
GEOMETRY(1, pol)
GEOMETRY(2, pol)
GEOMETRY(3, sph)

// in: vertices, parametric coordinates; out: image under the parametrization, barycentric coordinates
template <int N, class C>
static void parametrization(const double * in, double * out)
{
    constexpr int D = C::dim;
    sink k{ out };
    fake::cell<N, C> cell(in);
    fake::raw<geo::coordinate_system_t<C>> cs;
    using ref = typename geo::geometric_simplex_t<N, D>::reference_simplex_type;
    tensor::vector_t<N> v;
    for (int i = 0; i < N; i++)
        v[i] = in[(N + 1) * D + i];
    geo::coordinates_t<N, geo::CARTESIAN> xi(v);
    k.put((*cell).parametrization(*cs)(xi));
    auto bary = [&]<int... I>(tensor::integer_sequence<I...>) { (k.put(ref::template xi<I>(xi)), ...); };
    bary(tensor::make_integer_sequence<N + 1>{});
    k.put(ref::area);
}
#define PARAMETRIZATION(N, C) \
    extern "C" void parametrization_##N##_##C(const double * in, double * out) { parametrization<N, C>(in, out); }
PARAMETRIZATION(1, c1)
PARAMETRIZATION(1, c2)
PARAMETRIZATION(1, c3)
PARAMETRIZATION(2, c2)
PARAMETRIZATION(2, c3)
PARAMETRIZATION(3, c3)

// in: vertices; out: volume of the cell on the manifold
template <int N, class C>
static void volume(const double * in, double * out)
{
    fake::cell<N, C> cell(in);
    fake::raw<geo::coordinate_system_t<C>> cs;
    fake::raw<mesh::mesh_t<geo::geometric_simplex_t<N, C::dim>>> mesh;
    auto manifold = manifolds::manifold(*mesh, *cs);
    out[0] = manifold.volume(*cell);
}
#define VOLUME(N, C) \
    extern "C" void volume_##N##_##C(const double * in, double * out) { volume<N, C>(in, out); }
VOLUME(1, c1)
VOLUME(2, c2)
VOLUME(3, c3)
VOLUME(2, pol)
VOLUME(3, sph)

// in: vertices; out: measure of the cell on a submanifold with opaque normal fields
template <int N, class C>
static void measure(const double * in, double * out)
{
    constexpr int D = C::dim;
    fake::cell<N, C> cell(in);
    fake::raw<geo::coordinate_system_t<C>> cs;
    fake::raw<mesh::mesh_t<geo::geometric_simplex_t<N, D>>> mesh;
    fn::Opaque<1, C, tensor::vector_t<D>, 0> n;
    fn::Opaque<2, C, tensor::vector_t<D>, 0> m;
    if constexpr (D - N == 1) {
        auto manifold = manifolds::submanifold(*mesh, *cs, n);
        out[0] = manifold.volume(*cell);
    } else {
        auto manifold = manifolds::submanifold(*mesh, *cs, n, m);
        out[0] = manifold.volume(*cell);
    }
}
#define MEASURE(N, C) \
    extern "C" void measure_##N##_##C(const double * in, double * out) { measure<N, C>(in, out); }
MEASURE(1, c2)
MEASURE(1, c3)
MEASURE(2, c3)
MEASURE(1, pol)
MEASURE(2, sph)
