// contracts on mito::fem: shape functions, elements, elementary blocks, weak forms
#include "opaque_functions.h"
#include "fake.h"
namespace geo = mito::geometry;
using c1 = geo::coordinates_t<1, geo::CARTESIAN>;
using c2 = geo::coordinates_t<2, geo::CARTESIAN>;
CONTRACT_COORDINATES(c1)
CONTRACT_COORDINATES(c2)
#include <mito/fem.h>
using namespace mito;

using seg1 = fem::IsoparametricSegmentP1;
using tri1 = fem::IsoparametricTriangleP1;
using tri2 = fem::IsoparametricTriangleP2;

static void put(double *& o, double v) { *o++ = v; }
template <geo::coordinates_c T>
static void put(double *& o, const T & t)
{
    for (int i = 0; i < T::dim; i++)
        *o++ = t[i];
}
template <tensor::tensor_c T>
static void put(double *& o, const T & t)
{
    for (auto v : t)
        *o++ = v;
}

// an element over a cell with given vertices
template <class E, int D>
struct element {
    using C = geo::coordinates_t<D, geo::CARTESIAN>;
    fake::cell<D, C> cell;
    fake::raw<geo::coordinate_system_t<C>> cs;
    E e;
    element(const double * x) : cell(x), e(*cell, *cs, {}) {}
};

template <class E, int D>
static typename E::parametric_coordinates_type at(const double * xi)
{
    if constexpr (D == 1)
        return { xi[0] };
    else
        return { xi[0], xi[1] };
}

// in: parametric point, vertices; out: shape functions, parametric derivatives, jacobian, gradients, position
template <class E, int D>
static void shapes(const double * in, double * out)
{
    element<E, D> el(in + D);
    const auto & e = el.e;
    auto xi = at<E, D>(in);
    tensor::constexpr_for_1<E::n_nodes>([&]<int a>() { put(out, e.template shape<a>()(xi)); });
    tensor::constexpr_for_1<E::n_nodes>([&]<int a>() { put(out, E::shape_functions.template dshape<a>()(xi)); });
    put(out, e.jacobian()(xi));
    tensor::constexpr_for_1<E::n_nodes>([&]<int a>() { put(out, e.template gradient<a>()(xi)); });
    put(out, e.parametrization()(xi));
}
#define SHAPES(E, D) \
    extern "C" void shapes_##E(const double * in, double * out) { shapes<E, D>(in, out); }
SHAPES(seg1, 1)
SHAPES(tri1, 2)
SHAPES(tri2, 2)

// in: vertices; out: elementary mass and stiffness
template <class E, int D, class R>
static void matrices(const double * in, double * out)
{
    element<E, D> el(in);
    put(out, fem::blocks::mass_block<E, R>().compute(el.e));
    put(out, fem::blocks::grad_grad_block<E, R>().compute(el.e));
}
// in: vertices; out: squared norm of an opaque function of the parametric point
template <class E, int D, class R>
static void norm(const double * in, double * out)
{
    element<E, D> el(in);
    functions::Opaque<1, typename E::parametric_coordinates_type, tensor::scalar_t, 0> f;
    put(out, fem::blocks::l2_norm_block<E, R>(f).compute(el.e));
    functions::Opaque<2, typename E::parametric_coordinates_type, tensor::vector_t<2>, 0> g;
    put(out, fem::blocks::l2_norm_block<E, R>(g).compute(el.e));
}
// in: vertices; out: elementary source vector of an opaque field
template <class E, int D, class R>
static void source(const double * in, double * out)
{
    element<E, D> el(in);
    functions::Opaque<1, geo::coordinates_t<D, geo::CARTESIAN>, tensor::scalar_t, 0> f;
    put(out, fem::blocks::source_term_block<E, R>(f).compute(el.e));
}
template <class T, int r>
using rule = quadrature::quadrature_rule_t<quadrature::GAUSS, T, r>;
#define BLOCKS(E, D, T, r)                                                                                                          \
    extern "C" void matrices_##E##_##r(const double * in, double * out) { matrices<E, D, rule<geo::T, r>>(in, out); } \
    extern "C" void norm_##E##_##r(const double * in, double * out) { norm<E, D, rule<geo::T, r>>(in, out); }
#define SOURCE(E, D, T, r) \
    extern "C" void source_##E##_##r(const double * in, double * out) { source<E, D, rule<geo::T, r>>(in, out); }
BLOCKS(seg1, 1, reference_segment_t, 1)
BLOCKS(seg1, 1, reference_segment_t, 2)
BLOCKS(tri1, 2, reference_triangle_t, 1)
BLOCKS(tri1, 2, reference_triangle_t, 2)
BLOCKS(tri2, 2, reference_triangle_t, 2)
BLOCKS(tri2, 2, reference_triangle_t, 4)
SOURCE(tri1, 2, reference_triangle_t, 1)
SOURCE(tri1, 2, reference_triangle_t, 2)
SOURCE(tri2, 2, reference_triangle_t, 2)
SOURCE(tri2, 2, reference_triangle_t, 4)
