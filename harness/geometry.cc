// contracts on mito::geometry, mito::coordinates, mito::fields: coordinates, metric spaces, differential operators
#include "opaque_functions.h"
#include <mito/geometry.h>
#include <mito/fields.h>
using namespace mito;
namespace fn = mito::functions;
namespace geo = mito::geometry;
template <int D>
using cart = geo::coordinates_t<D, geo::CARTESIAN>;
using pol = geo::coordinates_t<2, geo::POLAR>;
using sph = geo::coordinates_t<3, geo::SPHERICAL>;

struct sink {
    double * o;
    void put(double v) { *o++ = v; }
    void put(bool v) { *o++ = v ? 1.0 : 0.0; }
    template <int D, geo::CoordinateType T>
    void put(const geo::coordinates_t<D, T> & c)
    {
        for (int i = 0; i < D; i++)
            *o++ = c[i];
    }
    template <class T>
    requires(!std::is_convertible_v<T, double>)
    void put(const T & t)
    {
        for (auto v : t)
            *o++ = v;
    }
    template <int D>
    void mat(const auto & m)
    {
        for (int i = 0; i < D; i++)
            for (int j = 0; j < D; j++)
                *o++ = m[{ i, j }];
    }
};

template <class C>
static C point(const double * p)
{
    if constexpr (C::dim == 1)
        return C{ p[0] };
    else if constexpr (C::dim == 2)
        return C{ p[0], p[1] };
    else
        return C{ p[0], p[1], p[2] };
}

template <int D>
static tensor::vector_t<D> vec(const double * p)
{
    tensor::vector_t<D> v;
    for (int i = 0; i < D; i++)
        v[i] = p[i];
    return v;
}

// G01
extern "C" void cart_polar(const double * in, double * out)
{
    sink k{ out };
    auto x = point<cart<2>>(in);
    auto p = geo::transform_coordinates<pol>(x);
    k.put(p);
    k.put(geo::transform_coordinates<cart<2>>(p));
}
extern "C" void polar_cart(const double * in, double * out)
{
    sink k{ out };
    auto p = point<pol>(in);
    auto x = geo::transform_coordinates<cart<2>>(p);
    k.put(x);
    k.put(geo::transform_coordinates<pol>(x));
}
extern "C" void cart_spherical(const double * in, double * out)
{
    sink k{ out };
    auto x = point<cart<3>>(in);
    auto p = geo::transform_coordinates<sph>(x);
    k.put(p);
    k.put(geo::transform_coordinates<cart<3>>(p));
}
extern "C" void spherical_cart(const double * in, double * out)
{
    sink k{ out };
    auto p = point<sph>(in);
    auto x = geo::transform_coordinates<cart<3>>(p);
    k.put(x);
    k.put(geo::transform_coordinates<sph>(x));
}

// G02: A, B coordinates, v vector
template <class C>
static void algebra(const double * in, double * out)
{
    constexpr int D = C::dim;
    sink k{ out };
    C A = point<C>(in), B = point<C>(in + D);
    auto v = vec<D>(in + 2 * D);
    k.put(A - B);
    k.put(A + v);
    C S = A;
    S += v;
    k.put(S);
    k.put(A + (B - A));
    k.put(geo::distance(A, B));
}
extern "C" void algebra_cart1(const double * in, double * out) { algebra<cart<1>>(in, out); }
extern "C" void algebra_cart2(const double * in, double * out) { algebra<cart<2>>(in, out); }
extern "C" void algebra_cart3(const double * in, double * out) { algebra<cart<3>>(in, out); }
extern "C" void algebra_polar(const double * in, double * out) { algebra<pol>(in, out); }
extern "C" void algebra_spherical(const double * in, double * out) { algebra<sph>(in, out); }

// component access, copies, equality, order
template <class C>
static void access(const double * in, double * out)
{
    constexpr int D = C::dim;
    sink k{ out };
    C A = point<C>(in);
    k.put(A);
    C B(vec<D>(in));
    k.put(B);
    C E;
    k.put(E);
    B = A;
    k.put(B);
    C G(std::move(B));
    k.put(G);
    k.put(fn::component<C, 0>(A));
    if constexpr (D > 1)
        k.put(fn::component<C, 1>(A));
    if constexpr (D > 2)
        k.put(fn::component<C, 2>(A));
    if constexpr (std::is_same_v<C, cart<D>>) {
        k.put(geo::cartesian::x_0<D>(A));
        if constexpr (D > 1)
            k.put(geo::cartesian::x_1<D>(A));
        if constexpr (D > 2)
            k.put(geo::cartesian::x_2<D>(A));
    } else if constexpr (D == 2) {
        k.put(geo::polar::r(A));
        k.put(geo::polar::theta(A));
    } else {
        k.put(geo::spherical::r(A));
        k.put(geo::spherical::theta(A));
        k.put(geo::spherical::phi(A));
    }
    double a[D];
    for (int i = 0; i < D; i++)
        a[i] = in[i];
    if constexpr (D == 1)
        k.put(geo::coordinates<C>({ a[0] }));
    else if constexpr (D == 2)
        k.put(geo::coordinates<C>({ a[0], a[1] }));
    else
        k.put(geo::coordinates<C>({ a[0], a[1], a[2] }));
}
extern "C" void access_cart1(const double * in, double * out) { access<cart<1>>(in, out); }
extern "C" void access_cart2(const double * in, double * out) { access<cart<2>>(in, out); }
extern "C" void access_cart3(const double * in, double * out) { access<cart<3>>(in, out); }
extern "C" void access_polar(const double * in, double * out) { access<pol>(in, out); }
extern "C" void access_spherical(const double * in, double * out) { access<sph>(in, out); }

// equality of coordinates: component by component
template <class C>
static void equal(const double * in, double * out)
{
    out[0] = point<C>(in) == point<C>(in + C::dim) ? 1.0 : 0.0;
    out[1] = point<C>(in) == point<C>(in) ? 1.0 : 0.0;
}
extern "C" void equal_cart1(const double * in, double * out) { equal<cart<1>>(in, out); }
extern "C" void equal_cart2(const double * in, double * out) { equal<cart<2>>(in, out); }
extern "C" void equal_cart3(const double * in, double * out) { equal<cart<3>>(in, out); }
extern "C" void equal_polar(const double * in, double * out) { equal<pol>(in, out); }
extern "C" void equal_spherical(const double * in, double * out) { equal<sph>(in, out); }

template <class C>
static void less(const double * in, double * out)
{
    out[0] = point<C>(in) < point<C>(in + C::dim) ? 1.0 : 0.0;
}
extern "C" void less_cart1(const double * in, double * out) { less<cart<1>>(in, out); }
extern "C" void less_cart2(const double * in, double * out) { less<cart<2>>(in, out); }
extern "C" void less_cart3(const double * in, double * out) { less<cart<3>>(in, out); }
extern "C" void less_polar(const double * in, double * out) { less<pol>(in, out); }
extern "C" void less_spherical(const double * in, double * out) { less<sph>(in, out); }

// G03: basis, metric, inverse metric, dual basis on the basis and on a vector, volume form on D vectors
template <class C>
static void metric(const double * in, double * out)
{
    constexpr int D = C::dim;
    using ms = geo::metric_space<C>;
    sink k{ out };
    auto x = point<C>(in);
    auto basis = [&]<int... I>(tensor::integer_sequence<I...>) { (k.put(ms::template e<I>(x)), ...); };
    basis(tensor::make_integer_sequence<D>{});
    k.mat<D>(ms::g(x));
    k.mat<D>(ms::g_inv(x));
    tensor::vector_t<D> v[3] = { vec<D>(in + D), vec<D>(in + 2 * D), vec<D>(in + 3 * D) };
    auto dual = [&]<int I, int... J>(tensor::integer_sequence<J...>) {
        (k.put(double(ms::template dx<I>(x)(ms::template e<J>(x)))), ...);
        k.put(double(ms::template dx<I>(x)(v[0])));
    };
    auto duals = [&]<int... I>(tensor::integer_sequence<I...>) {
        (dual.template operator()<I>(tensor::make_integer_sequence<D>{}), ...);
    };
    duals(tensor::make_integer_sequence<D>{});
    auto form = [&]<int... I>(tensor::integer_sequence<I...>) { k.put(double(ms::w(x)(v[I]...))); };
    form(tensor::make_integer_sequence<D>{});
}
extern "C" void metric_cart1(const double * in, double * out) { metric<cart<1>>(in, out); }
extern "C" void metric_cart2(const double * in, double * out) { metric<cart<2>>(in, out); }
extern "C" void metric_cart3(const double * in, double * out) { metric<cart<3>>(in, out); }
extern "C" void metric_polar(const double * in, double * out) { metric<pol>(in, out); }
extern "C" void metric_spherical(const double * in, double * out) { metric<sph>(in, out); }

// the named bases and metrics of the coordinate systems
extern "C" void named(const double * in, double * out)
{
    sink k{ out };
    auto x1 = point<cart<1>>(in);
    auto x2 = point<cart<2>>(in);
    auto x3 = point<cart<3>>(in);
    auto p = point<pol>(in);
    auto s = point<sph>(in);
    k.put(geo::cartesian::e_0<1>(x1));
    k.put(geo::cartesian::e_0<2>(x2));
    k.put(geo::cartesian::e_1<2>(x2));
    k.put(geo::cartesian::e_0<3>(x3));
    k.put(geo::cartesian::e_1<3>(x3));
    k.put(geo::cartesian::e_2<3>(x3));
    k.put(geo::polar::e_r(p));
    k.put(geo::polar::e_theta(p));
    k.put(geo::spherical::e_r(s));
    k.put(geo::spherical::e_theta(s));
    k.put(geo::spherical::e_phi(s));
    k.mat<2>(geo::cartesian::metric<2>(x2));
    k.mat<3>(geo::cartesian::metric<3>(x3));
    k.mat<2>(geo::polar::metric(p));
    k.mat<3>(geo::spherical::metric(s));
}

// D01: gradient form df = sum df/dx^i dx^i of an opaque field, its metric equivalent, and back
template <class C>
static void gradient_form(const double * in, double * out)
{
    constexpr int D = C::dim;
    using ms = geo::metric_space<C>;
    sink k{ out };
    auto x = point<C>(in);
    auto v = vec<D>(in + D);
    fn::Opaque<1, C, double, 0> f;
    auto assemble = [&]<int... I>(tensor::integer_sequence<I...>) {
        return ((fn::derivative<I>(f) * ms::template dx<I>) + ...);
    };
    auto df = assemble(tensor::make_integer_sequence<D>{});
    k.put(double(df(x)(v)));
    k.put(ms::metric_equivalent(df)(x));
    // the one-form equivalent to a vector field
    fn::Opaque<2, C, tensor::vector_t<D>, 0> F;
    k.put(double(ms::metric_equivalent(F)(x)(v)));
}
extern "C" void gradient_form_cart2(const double * in, double * out) { gradient_form<cart<2>>(in, out); }
extern "C" void gradient_form_cart3(const double * in, double * out) { gradient_form<cart<3>>(in, out); }
extern "C" void gradient_form_polar(const double * in, double * out) { gradient_form<pol>(in, out); }
extern "C" void gradient_form_spherical(const double * in, double * out) { gradient_form<sph>(in, out); }

// X01: tensor and wedge products of fields of one-forms are those of the values at the point
template <class C>
static void field_forms(const double * in, double * out)
{
    constexpr int D = C::dim;
    using ms = geo::metric_space<C>;
    sink k{ out };
    auto x = point<C>(in);
    auto u = vec<D>(in + D), v = vec<D>(in + 2 * D), w = vec<D>(in + 3 * D);
    fn::Opaque<1, C, double, 0> f;
    fn::Opaque<2, C, tensor::vector_t<D>, 0> F;
    fn::Opaque<3, C, tensor::vector_t<D>, 0> G;
    fn::Opaque<4, C, tensor::vector_t<D>, 0> H;
    auto a = ms::metric_equivalent(F);
    auto b = ms::metric_equivalent(G);
    auto c = ms::metric_equivalent(H);
    k.put(double(fields::tensor(a, b)(x)(u, v)));
    k.put(double(fields::tensor(a, b, c)(x)(u, v, w)));
    k.put(double(fields::wedge(a)(x)(u)));
    k.put(double(fields::wedge(a, b)(x)(u, v)));
    k.put(double(fields::wedge(a, b, c)(x)(u, v, w)));
    k.put(double((a + b)(x)(u)));
    k.put(double((a - b)(x)(u)));
    k.put(double((-a)(x)(u)));
    k.put(double((f * a)(x)(u)));
    k.put(double((a * f)(x)(u)));
    k.put(double((f * fields::wedge(a, b) + fields::wedge(b, c))(x)(u, v)));
}
extern "C" void field_forms_cart2(const double * in, double * out) { field_forms<cart<2>>(in, out); }
extern "C" void field_forms_cart3(const double * in, double * out) { field_forms<cart<3>>(in, out); }
extern "C" void field_forms_polar(const double * in, double * out) { field_forms<pol>(in, out); }
extern "C" void field_forms_spherical(const double * in, double * out) { field_forms<sph>(in, out); }

template <class C, int N>
static void operators(const double * in, double * out)
{
    constexpr int D = C::dim;
    sink k{ out };
    auto x = point<C>(in);
    fn::Opaque<1, C, double, 0> f;
    fn::Opaque<3, C, double, 0> h;
    fn::Opaque<2, C, tensor::vector_t<N>, 0> F;
    fn::Opaque<4, C, tensor::vector_t<D>, 0> G;
    fn::Opaque<5, C, tensor::matrix_t<D>, 0> T;
    k.put(fields::gradient(f)(x));
    k.put(fields::gradient(f * h)(x));
    k.put(fields::gradient(F)(x));
    k.put(fields::divergence(G)(x));
    k.put(fields::divergence(f * G)(x));
    k.put(fields::divergence(T)(x));
    k.put(fields::divergence(fields::gradient(f))(x));
    k.put(fields::gradient(fields::gradient(f))(x));
}
extern "C" void operators_cart2(const double * in, double * out) { operators<cart<2>, 2>(in, out); }
extern "C" void operators_cart3(const double * in, double * out) { operators<cart<3>, 3>(in, out); }
extern "C" void operators_cart23(const double * in, double * out) { operators<cart<2>, 3>(in, out); }
extern "C" void operators_cart32(const double * in, double * out) { operators<cart<3>, 2>(in, out); }
